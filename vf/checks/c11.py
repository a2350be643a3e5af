import itertools

from vf.core import Check, Violation, h, product
from vf.machine import Machine, parse
from vf.rewrite import alignments, lines, same_line
from vf.translation import translate, is_placement

AMOUNTS = [(10., 20.), (-5.5, 0.), (0., 0.), (None, 3.), (5., None)]
WORDS = [('X', ['', 'X12.5']), ('Y', ['', 'Y-3.25']), ('Z', ['', 'Z0.35']), ('E', ['', 'E1.23456']), ('F', ['', 'F1800']),
         ('I', ['', 'I1.125']), ('J', ['', 'J-2.5']), ('rest', ['', 'S1', 'P500 R2', 'W H-.5', 'S+5 p.5 K7.']),
         ('c', ['', '; note X1', '(n Y2)', '(a) ; b', ';x;', '; ' + 'long X1 ' * 40])]
PRE = [[], ['G90'], ['G91'], ['G90', 'G20'], ['G90', 'G92 X1'], ['G91', 'G20'], ['G90', 'G92 X0 Y0', 'G28 X'],
       ['G90', 'M83', 'G92 E0']]
LETTERS = ['G1 X1 Y2 Z0.3 E1.25 F600', 'G1 X4.5 ; c', 'G0 Y-1 (d) S3', 'G2 X1 Y1 I0.5 J-0.5 E2 ; arc', 'G1 Z0.4', 'G1 E-1 F300',
           'G90', 'G91', 'G28', 'G28 X ; h', 'G92', 'G92 X1 E2 (r)', 'G92 E0', 'G20', 'M83', 'M82', 'M104 S200 ; hot', ';c', '(X1)',
           'T1', 'G4 P100', 'M117 X9 Y9', 'hello', 'g1x1y2e.5', 'G1 X1 Y1 ; a (b) ;c; \xe9;', 'G1 Y2 W ()', 'N7 G1 X1 Y0 E1*55', 'G1 X0 Y0 Z0 E0']


def commands():
    for code in ('G1', 'G0', 'G2', 'G3', 'G92'):
        for combo in itertools.product(*[v for _, v in WORDS]):
            if code == 'G92' and (combo[4] or combo[5] or combo[6]):
                continue
            yield ' '.join([code] + [w for w in combo if w])


VALUES = ['0', '-0', '0.0004', '-.5', '0.00001', '123456.789', '99999.99999', '-1000', '1.0005', '7.', '+3', '007.50']


def valued():
    """Commands with one value in any set of their arguments"""
    for v in VALUES:
        for code in ('G1', 'G0', 'G2', 'G92'):
            for combo in itertools.product(*[('', k) for k in ('XYZEFIJ' if code != 'G92' else 'XYZE')]):
                yield ' '.join([code] + [k + v for k in combo if k])


class CHECK(Check):
    id = 'C11'
    rule = ('every argument/parameter/comment combination of every positioning command, and every set of arguments with every '
            'unusual value, in every context, and every command '
            'sequence of the stated length, for every amount; non-trivial: a line is rewritten')
    assumptions = ['a bare G92 may be written with its implied zeros', 'number precision 3 decimals (5 for E, 5/7 in inches)']

    def spaces(self, tier):
        cs = list(commands())
        r = [product('values', PRE, list(valued()), AMOUNTS[:3:2], wrap=lambda t: (t[0] + [t[1]], t[2])),
             product('lines', PRE, cs, AMOUNTS[:1], wrap=lambda t: (t[0] + [t[1]], t[2])),
             product('zero', PRE[:4], cs, [AMOUNTS[2]], wrap=lambda t: (t[0] + [t[1]], t[2])),
             product('len2', PRE, LETTERS, LETTERS, AMOUNTS, wrap=lambda t: (t[0] + list(t[1:-1]), t[-1])),
             product('len3', PRE[1:4], LETTERS, LETTERS, LETTERS, AMOUNTS[:1], wrap=lambda t: (t[0] + list(t[1:-1]), t[-1]))]
        if tier == 'thorough':
            r += [product('all amounts', PRE, cs, AMOUNTS, wrap=lambda t: (t[0] + [t[1]], t[2])),
                  product('after move', PRE, LETTERS, cs, AMOUNTS[:1],
                          wrap=lambda t: (t[0] + list(t[1:-1]), t[-1])),
                  product('len4', PRE[1:3], LETTERS, LETTERS, LETTERS, LETTERS, AMOUNTS[:1],
                          wrap=lambda t: (t[0] + list(t[1:-1]), t[-1])),
                  product('len3 all', PRE, LETTERS, LETTERS, LETTERS, AMOUNTS,
                          wrap=lambda t: (t[0] + list(t[1:-1]), t[-1]))]
        return r

    def show(self, case):
        return {'program': list(case[0]), 'amount': case[1]}

    def run(self, case, st):
        prog, (dx, dy) = case
        out = translate(prog, dx, dy)
        a, b = lines(prog), lines(out)
        best = None
        zero = not dx and not dy
        for al in alignments(a, b, is_placement):
            bad = self.compare(a, b, al, zero, st)
            if bad is None:
                if out != list(prog):
                    st.nontrivial += 1
                st.outcomes.add(h(out))
                return
            best = best or bad
        raise Violation(best or 'the translated program is not the original with placement moves', program=prog,
                        amount=(dx, dy), output=out)

    @staticmethod
    def compare(a, b, al, zero, st):
        m, t = Machine(g90_selects_e=False), Machine(g90_selects_e=False)
        n = 0
        for j, i in enumerate(al):
            n += 1
            dt = t.step(b[j])
            if i is None:
                if zero:
                    return 'a move %r is added by a null translation' % b[j].raw
                continue
            c, o = a[i], b[j]
            unit = m.unit
            dm = m.step(c)
            st.transitions += 1
            if c.is_move or c.code == 'G92':
                free = '' if zero else 'XY'
                if c.code == 'G92' and not any(v is not None for k, v in c.args.items() if k in 'XYZE'):
                    if any(v for k, v in o.args.items() if k in 'ZE'):
                        return '%r became %r' % (c.raw, o.raw)
                    free += 'ZE'
                bad = same_line(c, o, unit, free)
                if bad is None and c.code != 'G92' and not zero:
                    if [k for k in 'XY' if c.args.get(k) is not None] != [k for k in 'XY' if o.args.get(k) is not None]:
                        bad = 'arguments differ'
                if bad is not None:
                    return '%r became %r: %s' % (c.raw, o.raw, bad)
            elif c.raw != o.raw:
                return '%r became %r' % (c.raw, o.raw)
            if (dm is None) != (dt is None) or dm is not None and abs(dm - dt) > 2.2e-5:
                return '%r feeds %r instead of %r' % (o.raw, dt, dm)
            if (m.rel, m.rele, m.unit, m.tool) != (t.rel, t.rele, t.unit, t.tool) or abs(m.f - t.f) > 0.51e-3 * 26 or \
                    abs(m.z - t.z) > 0.00051 * n or abs((m.e - m.oe) - (t.e - t.oe)) > 1e-5 * n or \
                    abs((m.z - m.oz) - (t.z - t.oz)) > 0.00051 * n:
                return 'height, filament, feed rate or mode differ after %r' % c.raw
            st.states.add(h((m.key(), round(t.x - m.x, 2), round(t.y - m.y, 2))))
        return None
