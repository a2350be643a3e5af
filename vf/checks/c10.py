from vf.core import Check, Violation, h, product, seqs
from vf.common import SIZES, repeated, subsets
from vf.machine import Machine, parse
from vf.rewrite import alignments, lines
from vf.translation import translate, is_placement

LETTERS = ['G1 X10 Y5', 'G1 X3', 'G0 Y-2.5', 'G0 X1 Y1', 'G1 Z1 E1', 'G2 X5 Y5 I1 J1', 'G3 X5 I2', 'G2 Y1 R5', 'G90', 'G91', 'G92', 'G92 X5', 'G92 Y0',
           'G92 X0 Y2 Z0', 'G92 E0', 'G28', 'G28 X', 'G28 Y0', 'G28 Z', 'G20', 'G21', 'M104 S200']
DEEP = ['G1 X10 Y5', 'G1 X3', 'G0 Y-2.5', 'G90', 'G91', 'G92', 'G92 X5', 'G92 Y1 E0', 'G28', 'G28 X0', 'G28 Y', 'G20']
CORE = ['G1 X3', 'G0 Y-2.5', 'G90', 'G91', 'G92', 'G92 X5', 'G28', 'G28 Y']
AMOUNTS = [(10., 20.), (-5.5, 0.), (0., 7.25), (None, 3.), (0.125, -0.0625), (5., None), (150., -300.), (1e-3, 2500.)]
VALUES = ['0', '-0', '0.0004', '-.5', '123456.789', '-1000', '1.0005', '7.', '+3', '007.50']
RESETS = [(c + ' ' + ' '.join(k + v for k in s)).strip() for c in ('G92', 'G28') for s in subsets('XYZE') for v in ('', '0', '1.5', '-4')]
LAYERS = ['G1 X1 Z1', 'G1 X2 Y2', 'G1 Z2 E1', 'G91', 'G90', 'G1 X3 Z-1 E1', 'G92 Z5', 'G92', 'G28 Z', ';c']
LONG = [(['G90'], ['G1 X{k} Y{k}', 'G1 Z{k}']), (['G91'], ['G1 X1', 'G1 Y-1 Z0.2']), (['G90'], ['G1 X{k}', 'G92 X0', 'G1 Y{k}', 'G28 Y'])]


def valued():
    for v in VALUES:
        for code in ('G1', 'G0', 'G2', 'G92', 'G28'):
            for k in ('X', 'Y', 'XY', 'XZ', 'YE', 'XYZ'):
                yield ' '.join([code] + [c + v for c in k])


class CHECK(Check):
    id = 'C10'
    rule = ('every command sequence of the stated length after G90 or G91, for every amount; original and translated text '
            'are executed by the reference machine and compared after every original command; non-trivial: an axis is '
            'homed or re-numbered, or the mode changes, between moves')
    assumptions = ['amounts in millimetres', 'the home position is the machine origin',
                   'output rounding: 0.5 micrometre per written line']

    def spaces(self, tier):
        first = ['G90', 'G91']
        r = [product('len2', first, LETTERS, LETTERS, AMOUNTS, wrap=lambda t: (t[:-1], t[-1])),
             product('len3', first, LETTERS, LETTERS, LETTERS, AMOUNTS[:2], wrap=lambda t: (t[:-1], t[-1])),
             product('deep4', first, DEEP, DEEP, DEEP, DEEP, AMOUNTS[:1], wrap=lambda t: (t[:-1], t[-1])),
             product('core5', first, *([CORE] * 5 + [AMOUNTS[:1]]), wrap=lambda t: (t[:-1], t[-1]))]
        r += [product('layers', first, LAYERS, LAYERS, LAYERS, AMOUNTS[:2], wrap=lambda t: (t[:-1], t[-1])),
              product('resets', first, ['G1 X1 Y1', 'G1 X1', 'G1 Z1'], RESETS, ['G1 X1', 'G91', 'G1 Y1'], ['G1 X2', 'G1 Y2', 'G28'], AMOUNTS[:1] + AMOUNTS[-1:], wrap=lambda t: (t[:-1], t[-1])),
              product('large', first, LETTERS[:6], LETTERS, LETTERS[:9], AMOUNTS[-2:], wrap=lambda t: (t[:-1], t[-1])),
              product('long', LONG, SIZES, AMOUNTS[:2], wrap=lambda t: (repeated(t[0][0], t[0][1], t[1]), t[2]))]
        v = list(valued())
        few = v[::7]
        r += [product('value pairs', first, ['G21', 'G20', 'G92 X1'], few, v, AMOUNTS[:1] + AMOUNTS[-1:],
                      wrap=lambda t: (t[:-1], t[-1])),
              product('value then', first, ['G21', 'G20', 'G92 X1'], v, LETTERS[:2] + ['G28'], AMOUNTS[:1] + AMOUNTS[-1:],
                      wrap=lambda t: (t[:-1], t[-1]))]
        if tier == 'thorough':
            r.append(product('all value pairs', first, ['G21', 'G20', 'G92 X1'], v, v, AMOUNTS, wrap=lambda t: (t[:-1], t[-1])))
            r += [product('len4', first, LETTERS, LETTERS, LETTERS, LETTERS, AMOUNTS[:2], wrap=lambda t: (t[:-1], t[-1])),
                  product('core6', first, *([CORE] * 6 + [AMOUNTS[:1]]), wrap=lambda t: (t[:-1], t[-1])),
                  product('core7', first, *([CORE] * 7 + [AMOUNTS[:1]]), wrap=lambda t: (t[:-1], t[-1]))]
        return r

    def show(self, case):
        return {'program': list(case[0]), 'amount': case[1]}

    def run(self, case, st):
        prog, (dx, dy) = case
        out = translate(prog, dx, dy)
        dx, dy = dx or 0., dy or 0.
        a, b = lines(prog), lines(out)
        best = None
        for al in alignments(a, b, is_placement):
            bad = self.compare(a, b, al, dx, dy, st)
            if bad is None:
                if len({c.code for c in a} & {'G28', 'G92', 'G90', 'G91'}) > 1:
                    st.nontrivial += 1
                return
            best = best or bad
        raise Violation(best or 'the translated program is not the original with placement moves', program=prog,
                        amount=(dx, dy), output=out)

    @staticmethod
    def compare(a, b, al, dx, dy, st):
        m, t = Machine(), Machine()
        moved = {'X': False, 'Y': False}
        tol = 1e-6
        for j, i in enumerate(al):
            t.step(b[j])
            tol += 0.00051
            if i is None:
                continue
            c = a[i]
            m.step(c)
            st.transitions += 1
            if c.code == 'G28':
                named = [k for k in 'XYZ' if k in c.args] or 'XYZ'
                for k in named:
                    moved[k] = False
            elif c.is_move:
                for k in 'XY':
                    if c.args.get(k) is not None:
                        moved[k] = True
                for k, p, q, d in (('X', m.x, t.x, dx), ('Y', m.y, t.y, dy)):
                    if abs(q - p - d) > tol and (moved[k] or abs(q - p) > tol):
                        return '%s is at %.4f instead of %.4f%+.4f after %r' % (k, q, p, d, c.raw)
            st.states.add(h((m.key(), moved['X'], moved['Y'], round(t.ox - m.ox, 3), round(t.oy - m.oy, 3))))
        st.outcomes.add(h((round(t.x - m.x, 2), round(t.y - m.y, 2), m.key())))
        return None
