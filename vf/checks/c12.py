from vf.core import Check, Violation, h, product
from vf.common import SIZES, repeated, subsets, text_of
from vf.machine import Machine
from vf.rewrite import lines
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.gcoder import GCode

LETTERS = ['G1 X1 E1', 'G1 E2.5 F300', 'G1 E-0.75', 'G2 X1 Y2 I1 J0 E3', 'G0 E0', 'G1 X5', 'M82', 'M83', 'G92 E0', 'G92',
           'G92 E5.5', 'G92 X0', 'G92 Y1 E1', 'G92 Z0', 'G90', 'G91', 'G28', 'G1 X2 E1.23456', 'T1', 'G20', 'G21']
DEEP = ['G1 X1 E1', 'G1 E2.5 F300', 'G1 E-0.75', 'M82', 'M83', 'G92 E0', 'G92', 'G92 X0 E2', 'G92 X0', 'G3 X1 Y1 I1 J1 E3.5']
VALUES = ['0', '-0', '0.00004', '-.5', '123.45678', '-1000', '1.000005', '7.', '+3', '007.50', '99999.5', '']
RESETS = [(c + ' ' + ' '.join(k + v for k in s)).strip() for c in ('G92', 'G28') for s in subsets('XYZE') for v in ('', '0', '1.5', '-4')] + ['T0', 'T1', 'M104 S1', 'G4 P1', 'M84', 'G10', 'G1 X1 F60',
    'G92 F1', 'G92 X1 ; E0', 'G92 (E5)', 'M17', 'M18', 'M117 E5', 'M82 ; E0', 'N3 G92 E2*9', 'g92 e3', 'G21', 'G20']
LONG = [(['M82'], ['G1 X{k} E{k}.125']), (['M82'], ['G1 X1 E{k}', 'G1 E0', 'G1 Z{k}']), (['M83'], ['G1 E0.1', 'M82', 'G1 E{k}', 'M83']),
        (['M82'], ['G1 X1 E{k}.5', 'G92 E1', 'G92 X1'])]
CORE = ['G1 X1 E1', 'G1 E2.5', 'M82', 'M83', 'G92 E0.5', 'G92', 'G92 Z1']


def convert(prog):
    g = GCode(list(prog))
    GCodeToRelativeExtrusionFilter().filter(g)
    return text_of(g)


class CHECK(Check):
    id = 'C12'
    rule = ('every command sequence of the stated length after M82 or M83; original and converted text are executed by the '
            'reference machine, and the filament fed compared at every command; non-trivial: a reset or mode switch occurs '
            'between extrusions')
    assumptions = ['only M82/M83 select the extrusion mode', 'output rounding: half of 0.00001 per move']

    def spaces(self, tier):
        first = ['M82', 'M83']
        r = [product('len%d' % n, first, *[LETTERS] * n, wrap=list) for n in (1, 2, 3)]
        r += [product('deep4', first, *[DEEP] * 4, wrap=list), product('deep5', ['M82'], *[DEEP] * 5, wrap=list),
              product('core6', ['M82'], *[CORE] * 6, wrap=list)]
        r.append(product('late mode', ['G1 X1 Y1', 'G28', 'G92', 'G92 E3', 'G92 X1', ';c', 'G90', 'G91', 'G20'], first,
                         *[LETTERS] * 2, wrap=list))
        v = [c + ' E' + x for c in ('G1 X1', 'G0', 'G2 X1 Y1 I1 J1', 'G1 F300') for x in VALUES] + ['G92 E' + x for x in VALUES]
        r.append(product('values', first, ['G21', 'G20', 'M83', 'G92 X1'], v, v, wrap=list))
        r.append(product('resets', first, ['G1 X1 E2', 'G1 E-1', 'G90', 'G92 E7'], ['M82', 'M83', 'G92', ';c', 'G1 E1.5'], RESETS, ['M82', 'M83', ';c', 'G91'],
                         ['G1 X2 E3', 'G1 E0.25', 'G92 X1'], ['G1 E5'], wrap=list))
        r.append(product('long', LONG, SIZES, wrap=lambda t: repeated(t[0][0], t[0][1], t[1])))
        if tier == 'thorough':
            r.append(product('value triples', first, v, v, v, wrap=list))
            r += [product('len4', first, *[LETTERS] * 4, wrap=list), product('deep6', ['M82'], *[DEEP] * 6, wrap=list),
                  product('core7', first, *[CORE] * 7, wrap=list)]
        return r

    def run(self, prog, st):
        out = convert(prog)
        a, b = lines(prog), lines(out)
        if len(a) != len(b):
            raise Violation('%d lines became %d' % (len(a), len(b)), program=prog, output=out)
        m, t = Machine(g90_selects_e=False), Machine(g90_selects_e=False)
        n = 0
        for c, o in zip(a, b):
            dm, dt = m.step(c), t.step(o)
            st.transitions += 1
            if (dm is None) != (dt is None):
                raise Violation('%r became %r' % (c.raw, o.raw), program=prog, output=out)
            if dm is not None:
                if not t.rele:
                    raise Violation('%r extrudes in absolute mode' % o.raw, program=prog, output=out)
                if abs(dm - dt) > 0.6e-5:
                    raise Violation('%r feeds %.5f instead of %.5f' % (o.raw, dt, dm), program=prog, output=out)
                n += 1
            st.states.add(h((round(m.e, 5), round(m.oe, 5), m.rele, m.unit)))
        st.outcomes.add(h(out))
        if n > 1 and len({c.code for c in a} & {'M82', 'M83', 'G92'}) > 1:
            st.nontrivial += 1
