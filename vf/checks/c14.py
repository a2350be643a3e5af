from vf.core import Check, Violation, h, product, seqs
from vf.common import text_of
from vf.checks.c04 import CHECK as C04, fine_stack, stack, FINE, FSTARTS, FSTEPS, STARTS, STEPS, STYLES
from gcodeutils.gcoder import GCode
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer

# a block is one or more lines; M83 is selected first, so that E words extrude
BLOCKS = [['G1 Z0.2'], ['G1 Z0.4'], ['G1 Z0.2', 'G1 X1 E1'], ['G1 Z0.4', 'G1 X1 E1'], ['G1 Z0.6 X2 E1'], ['G1 X1 E1'], ['G1 X1'],
          [';c'], ['G1 Z1.2', 'G1 X9', 'G1 Z0.4']]
LETTERS = ['G1 Z0.2', 'G1 Z0.4 F300', 'G1 Z0.6 X1 E1', 'G1 X1 E1', 'G1 X1', ';c', 'G91', 'G90', 'G92 Z0', 'G92 E0', 'G1 E-1', 'G28',
           'G92', 'G1 Z-0.2', 'M104 S1']
NUMBERS = [(0,), (1,), (2,), (3,), (-1,), (0, 1), (0, 2), (), (0, 0), (2, 1, 2, 0)]
MANY = [128, 257, 600]


def pause(prog, numbers):
    g = GCode(list(prog))
    GCodeIterator(g).accept(PauseAtLayer(list(numbers)))
    return text_of(g)


class CHECK(Check):
    id = 'C14'
    rule = ('every sequence of the stated length over the layer blocks and over single lines, with every set of requested '
            'layers; stacks of layers over start heights, steps, layer counts and ways to lift; the written program is compared with the independently computed one; non-trivial: a pause is inserted')
    assumptions = ['heights are at least 0.02 mm apart', 'M226 is the pause command']

    def spaces(self, tier):
        flat = lambda t: (['M83'] + [l for b in t[:-1] for l in b], t[-1])
        r = [product('blocks%d' % n, *([BLOCKS] * n + [NUMBERS]), wrap=flat) for n in (1, 2, 3, 4)]
        r.append(product('blocks5', *([BLOCKS] * 5 + [NUMBERS[:2]]), wrap=flat))
        r += [product('lines%d' % n, *([LETTERS] * n + [NUMBERS[:4]]), wrap=lambda t: (['M83'] + list(t[:-1]), t[-1]))
              for n in (1, 2, 3)]
        r.append(product('lines4', *([LETTERS[:12]] * 4 + [NUMBERS[:2]]), wrap=lambda t: (['M83'] + list(t[:-1]), t[-1])))
        tall = lambda t: (stack(t[:4]), t[4])
        r.append(product('commented', *([BLOCKS] * 3 + [[';c', ';;', '(c)', 'hello', 'G1', ';LAYER:0 G1 Z9']] * 2 + [NUMBERS[:3]]),
                         wrap=lambda t: ([t[3], 'M83', t[4]] + [l for b in t[:3] for l in [t[3]] + b + [t[4]]], t[5])))
        r.append(product('many', STARTS[1::5], STEPS[4::4], MANY, STYLES, [(0,), (127, 128), (255, 256, 257), (599, 600, 598), (600,)],
                         wrap=tall))
        r.append(product('fine', *([FINE] * 3 + [NUMBERS[:3]]), wrap=lambda t: (['M83'] + list(t[:-1]), t[-1])))
        r.append(product('fine stacks', FSTARTS, FSTEPS, [2, 8, 30], STYLES, [(0,), (1, 7), (29,)],
                         wrap=lambda t: (fine_stack(t[:4]), t[4])))
        r.append(product('paused', *([BLOCKS[:8] + [['M226'], ['G1 Z0.4', 'M226', 'G1 X1 E1']]] * 3 + [NUMBERS]), wrap=flat))
        r.append(product('stacks', STARTS, STEPS, [2, 8, 60], STYLES, [(0,), (1,), (7,), (59, 3), (60,)], wrap=tall))
        if tier == 'thorough':
            r.append(product('tall stacks', STARTS, STEPS, list(range(3, 30)) + [300], STYLES, [(0,), (2, 5), (11,), (255,), (299,)],
                             wrap=tall))
            r.append(product('blocks5 all', *([BLOCKS] * 5 + [NUMBERS]), wrap=flat))
            r.append(product('blocks6', *([BLOCKS] * 6 + [NUMBERS[:3]]), wrap=flat))
            r.append(product('lines5', *([LETTERS] * 5 + [NUMBERS[:3]]), wrap=lambda t: (['M83'] + list(t[:-1]), t[-1])))
        return r

    def show(self, case):
        return {'program': case[0], 'layers': case[1]}

    def run(self, case, st):
        prog, numbers = case
        runs, printed = C04.reference(prog)
        if runs is None:
            return
        heights = sorted(printed)
        wanted = [heights[n] for n in numbers if 0 <= n < len(heights)]
        expected = []
        n = 0
        for z, ls in runs:
            if z is not None and z in wanted:
                expected.append('M226')
                n += 1
            expected += ls
        out = pause(prog, numbers)
        st.transitions += len(runs)
        if out != expected:
            raise Violation('pauses are misplaced', program=prog, layers=numbers, output=out, expected=expected)
        st.states.add(h((tuple(r[0] for r in runs), tuple(heights))))
        st.outcomes.add(h([i for i, l in enumerate(out) if l == 'M226']))
        if n:
            st.nontrivial += 1
