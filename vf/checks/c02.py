from vf.core import Check, Violation, h, seqs, product
from vf.common import SIZES, VALUES, repeated
from vf.machine import Machine, parse
from gcodeutils.gcoder import GCode

EPS = 1e-6

LETTERS = ['G1 X1 E1', 'G1 X2 E2.5', 'G1 E-1.5', 'G1 X3', 'G0 Y1 E0', 'G2 X1 Y1 I1 J1 E3', 'G3 X0 E0.25', 'G0 E4 F300',
           'M82', 'M83', 'G90', 'G91', 'G20', 'G21', 'G92', 'G92 E0', 'G92 E5', 'G92 X0', 'G92 X1 E-2', 'G28', 'G92 Z1',
           ';E5', 'M104 S200', 'T1']
LONG = [(['M83'], ['G1 X{k} E0.125', 'G1 E-0.25']), (['M82'], ['G1 X1 E{k}', 'G1 E-1', 'G92 E0']), ([], ['G1 E{k}', 'G1 E-{k}', 'T{k}']),
        (['G20'], ['M83', 'G1 E0.5', 'M82', 'G1 E{k}', 'G92 X1']), (['G91'], ['G1 X1 E1', 'G92', 'G90', 'G1 E2', 'G91'])]
DEEP = ['G1 X1 E1', 'G1 E2.5', 'G1 E-1.5', 'G1 X3', 'M82', 'M83', 'G90', 'G91', 'G92', 'G92 E0', 'G92 E5', 'G92 X0',
        'G20', 'G28']


class CHECK(Check):
    id = 'C02'
    rule = ('every sequence of the stated length of moves with and without E, mode switches, G92 variants and units; '
            'extruding flag and extruder position are compared after every command, the totals at the end')
    assumptions = ['G90/G91 also select absolute/relative extrusion', 'filament compared to 1e-6 mm']

    def spaces(self, tier):
        r = [seqs('len%d' % n, LETTERS, n) for n in (1, 2, 3)]
        r.append(seqs('reset', DEEP, 3, prefix=['G1 X1 E3', 'G92 E1'], suffix=['G1 X2 E2']))
        r.append(seqs('mixed', DEEP, 3, prefix=['G1 E1', 'M83', 'G1 E-4', 'M82'], suffix=['G1 X2 E2', 'G1 X3 E5']))
        r.append(seqs('len4', LETTERS, 4))
        vs = [c + ' E' + v for c in ('G1 X1', 'G0', 'G3 X2 I1', 'G92') for v in VALUES + ['0.0000125', '0.000001', '-0.00005']]
        r.append(product('values', ['M82', 'M83'], ['G21', 'G20', 'G92 E1', 'G1 E-3', 'T12', 'M83'], vs, vs, ['G1 E1'], wrap=list))
        r.append(product('long', LONG, SIZES, wrap=lambda t: repeated(t[0][0], t[0][1], t[1])))
        if tier == 'thorough':
            r.append(seqs('deep5', DEEP, 5, suffix=['G1 X2 E2']))
            r.append(seqs('deep6', DEEP, 6))
        return r

    def run(self, prog, st):
        g = GCode(list(prog))
        m = Machine()
        fed = 0
        for i, text in enumerate(prog):
            c = parse(text)
            de = m.step(c)
            st.transitions += 1
            st.states.add(h((round(m.e, 5), round(m.oe, 5), m.rele, m.unit, round(m.maxe, 5))))
            l = g.lines[i]
            if c.code is None:
                continue
            if de:
                fed += 1
            if c.is_move and not (de is not None and 0 < abs(de) < 1e-9):
                want = bool(de is not None and de > 0)
                if bool(l.extruding) != want:
                    raise Violation('line %d (%s) classified extruding=%r, machine feeds %r' % (i, text, l.extruding, de),
                                    program=prog)
            elif not c.is_move and l.extruding:
                raise Violation('line %d (%s) is no move but classified as extruding' % (i, text), program=prog)
            if abs(l.current_e - m.e) > EPS:
                raise Violation('extruder position after line %d (%s) is %r, machine has fed %r' % (
                    i, text, l.current_e, m.e), program=prog)
        for name, got, want in (('filament length', g.filament_length, m.maxe), ('max_e', g.max_e, m.maxe),
                                ('current_e', g.current_e, m.e), ('total_e', g.total_e, m.e),
                                ('abs_e', g.abs_e, m.e - m.oe)):
            if abs(got - want) > EPS:
                raise Violation('%s is %r, machine says %r' % (name, got, want), program=prog)
        if fed > 1:
            st.nontrivial += 1
        st.outcomes.add(h((round(m.maxe, 5), round(m.e, 5))))
