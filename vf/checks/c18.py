import math

from vf.arcs import CONTEXTS, Writer, arc_points, match, optimise
from vf.core import Check, Violation, h, product
from vf.machine import Machine, parse


def arc(n, step=12, r=20., cw=False, travel=False, code='G1', every='', start=None):
    def f(w):
        # the arc starts at the head, wherever it is
        s = (len(w.lines) * 37 % 360) if start is None else start
        c = (w.m.x - r * math.cos(math.radians(s)), w.m.y - r * math.sin(math.radians(s)))
        for i, p in enumerate(arc_points(r, step, n, cw, s, c)[1:]):
            w.move(p[0], p[1], ratio=None if travel else -1, code=code, comment=every)
    return f


def text(l):
    return lambda w: w.add(l)


def move(dx, dy, ratio=-1, n=1, **kw):
    def f(w):
        for _ in range(n):
            w.move(w.m.x + dx, w.m.y + dy, ratio=ratio, **kw)
    return f


def hop(w):
    w.move(z=w.m.z + .2, ratio=None)


BLOCKS = [('arc 9', arc(9)), ('arc 10 cw', arc(10, cw=True)), ('arc 8', arc(8)), ('arc 4', arc(4)), ('line', move(15., 3.)),
          ('point', move(0., 0.)), ('up', hop), ('; c', text('; c')), ('M104', text('M104 S200')),
          ('G2', text('G2 X90 Y90 I5 J5 E9')), ('retract', text('G1 E-1 F1800')), ('G92', text('G92 E0')), ('8 lines', move(2., 1., n=8)),
          ('travel arc', arc(9, travel=True, code='G0')), ('G91', text('G91')), ('G90', text('G90')), ('M83', text('M83')),
          ('8 points', move(0., 0., n=9)), ('circle', arc(30)), ('commented arc', arc(9, every=' ; p')),
          ('G28', text('G28 X')), ('bare G92', text('G92')), ('bare G1', text('G1')), ('F only', text('G1 F900')),
          ('(G1 X1)', text('(G1 X1)')), ('text', text('hello')), ('G20', text('G20')), ('lift arc', lambda w: (arc(9)(w), hop(w))),
          ('coarse arc', arc(8, step=40)), ('coarse cw', arc(10, step=36, cw=True, r=4.)), ('fine arc', arc(200, step=1.5))]
FEW = [0, 1, 3, 4, 5, 6, 7, 9, 11, 14, 28]
INSERT = ['; c', '(c)', 'M104 S1', 'G92 E0', 'G92', 'G92 X5', 'G4 P1', 'T1', 'G2 X90 Y90 I5 J5', 'G1 F900', 'G1', 'G1 Z2', 'G1 E1', 'G28',
          'G90', 'G91', 'M82', 'M83', 'hello', 'G21', ';LAYER:2', 'G1 X0 Y0', 'G0 X100 Y100 ; t', 'N5 G1 Z1*3']
CTX = ['absolute', 'relative', 'absolute, relative E', 'offset']


class CHECK(Check):
    id = 'C18'
    rule = ('every sequence of the stated length over the blocks (arcs, lines, coincident points, comments, commands, mode and '
            'height changes), and every insertion at every position of an arc; the output must be the program with runs of '
            'straight moves replaced by arcs, every kept line finding the machine as in the original; non-trivial: at least '
            'one arc is generated')
    assumptions = ['positions compared to 0.003 mm per arc']

    def spaces(self, tier):
        t = tier == 'thorough'
        b = range(len(BLOCKS) - 1)
        r = [product('blocks1', CTX, b, wrap=lambda c: (c[0], list(c[1:]), None)),
             product('blocks2', CTX, b, b, wrap=lambda c: (c[0], list(c[1:]), None)),
             product('blocks3', CTX[:1] if not t else CTX, b, b, b, wrap=lambda c: (c[0], list(c[1:]), None)),
             product('few4', CTX[:2] if not t else CTX, *([FEW] * 4), wrap=lambda c: (c[0], list(c[1:]), None)),
             product('inserted', CTX, [[0], [2], [18], [0, 1], [4, 13], [17], [28]], range(len(INSERT)), range(0, 14),
                     wrap=lambda c: (c[0], c[1], (c[2:4],))),
             product('inserted twice', CTX[:1] if not t else CTX, [[18]], range(len(INSERT)), range(8, 13), range(len(INSERT)),
                     range(1, 11), wrap=lambda c: (c[0], c[1], (c[2:4], (c[4], c[3] + c[5])))),
             product('fine', CTX, FEW, [len(BLOCKS) - 1], FEW, wrap=lambda c: (c[0], list(c[1:]), None)),
             product('cut', CTX, [[18], [0, 4, 0], [4, 0], [12, 1], [0, 5, 1], [28, 4, 29], [29, 28]], range(0, 40),
                     wrap=lambda c: (c[0], c[1], c[2]))]
        r.append(product('many', CTX, b, FEW, [12, 40], wrap=lambda c: (c[0], [c[1], c[2], 4] * c[3], None)))
        if t:
            r.append(product('few5', CTX[:2], *([FEW[:8]] * 5), wrap=lambda c: (c[0], list(c[1:]), None)))
        return r

    @staticmethod
    def build(case):
        ctx, blocks, extra = case
        w = Writer(ctx)
        w.move(z=.3, ratio=None, f=3000, code='G0')
        w.move(80., 60., ratio=None, code='G0')
        n = len(w.lines)
        for b in blocks:
            BLOCKS[b][1](w)
        if isinstance(extra, tuple):
            for what, k in extra:
                w.lines.insert(min(n + k, len(w.lines)), INSERT[what])
        elif extra is not None:
            del w.lines[n + extra:]
        return w.lines

    def show(self, case):
        return [case[0], [BLOCKS[b][0] for b in case[1]], [(INSERT[e[0]], e[1]) for e in case[2]] if isinstance(case[2], tuple)
                else case[2]]

    def run(self, case, st):
        prog = self.build(case)
        out = optimise(prog)
        best = None
        for mt in match(prog, out):
            bad = self.compare(mt)
            if bad is None:
                arcs = [it[1:3] for it in mt[1] if it[0] == 'arc']
                st.transitions += len(prog)
                st.states.add(h((case[0], [m.code for m in mt[0]], arcs)))
                st.outcomes.add(h(arcs))
                if arcs:
                    st.nontrivial += 1
                return
            best = best or bad
        raise Violation(best or 'the output is not the program with arcs', program=prog, output=out)

    @staticmethod
    def compare(mt):
        inp, items = mt
        m, t = Machine(), Machine()
        tol = 1e-6
        for it in items:
            if it[0] == 'same':
                m.step(inp[it[1]])
                t.step(inp[it[1]])
            else:
                if it[2] - it[1] + 1 < 8:
                    return 'an arc replaces %d moves' % (it[2] - it[1] + 1)
                tol += 0.003
                for k in range(it[1], it[2] + 1):
                    m.step(inp[k])
                t.step(it[3])
                if it[4] is not None:
                    t.step(it[4])
            if max(abs(m.x - t.x), abs(m.y - t.y), abs(m.z - t.z)) > tol or abs(m.f - t.f) > 0.05 or \
                    (m.rel, m.rele, m.unit, m.tool) != (t.rel, t.rele, t.unit, t.tool):
                return 'the machine is at %r instead of %r' % (t.key(), m.key())
        return None
