import itertools
import math

from vf.core import Check, Violation, h, seqs, product
from vf.machine import Machine, parse
from gcodeutils.gcoder import GCode

EPS = 1e-6

LETTERS = ['G1 X10 F1200', 'G1 X10 Y5', 'G0 X-4.5 F3000', 'G1 X0 Y0 E1 F600', 'G1 E-1 F1800', 'G1 E2', 'G1 Z0.5', 'G1 Z1 F60',
           'G1 F300', 'G1 F0', 'G4 P250', 'G4 P0', 'G4 S2', 'G4', 'G4 P-500', 'G91', 'G90', 'G92 X0 Y0', 'G92', 'G92 E0', 'G28', 'M83',
           'G2 X10 Y0 I5 J0', 'G20', '; c', 'M104 S200', 'G1 X0.25 F-600', 'G1 X1 Y1 Z2 E3 F900']
DEEP = ['G1 X10 F1200', 'G1 Y10', 'G1 X-10 F600', 'G1 Z0.5', 'G1 E1 F300', 'G4 P250', 'G91', 'G92 X0', 'G28', 'G1 X0 Z1', 'G2 X10 Y0 I5 J0']
DWELLS = [1, 7, 250, 60000, 0.5, 3600000, 1209600000]

# values out of the usual ranges, tools, and everything that moves the head without being a linear move
WIDE = ['G1 X450 F60000', 'G1 X-800.5 Y1200 E35', 'G0 Y0.001 F0.5', 'G1 E-450 F24000', 'G1 E12', 'G1 Z250 F6', 'T1', 'T3', 'G3 X-3 Y40 I1 J2',
        'G2 E5', 'G28 X', 'G28 Z', 'G92 Z5 E40', 'G1 X10', 'G4 P700000000', 'G1 Z0.5 E1', 'G91', 'M117 G1 X900', 'G1 X0 Y0 Z0 E0']
# straight runs: (words of one step, distance of one step); the step is repeated with relative moves
STRAIGHT = [('X20', 20.), ('Y-30', 30.), ('X30 Y40 E1', 50.), ('X-400', 400.), ('X9 Y12 Z1', 15.)]

# motion: steps (dx, dy, dz, de, f); dyadic coordinates, exactly representable with two decimals or more
STEPS = [(4., 0., 0., None, 1200), (0., 2.5, 0., 1.5, None), (-4., -.5, 0., .25, 600), (0., 0., .5, None, 60), (0., 0., 0., -1., 1800),
         (None, None, None, 2., None), (2., None, None, .5, None), (None, -3., 1., None, None), (0., 0., 0., 0., 900),
         (8., 6., .25, 4., 2400), (None, None, None, None, 450)]


def num(v):
    return ('%.6f' % v).rstrip('0').rstrip('.')


class Writer(object):
    """Writes the same motion, with the same words on each line, in several ways"""

    def __init__(self, rel, rele, renumber, ren_at, units=1.0):
        self.lines = []
        self.pos = {'X': 0., 'Y': 0., 'Z': 0., 'E': 0.}
        self.off = {'X': 0., 'Y': 0., 'Z': 0., 'E': 0.}
        self.rel, self.rele = rel, rele
        self.lines.append('G91' if rel else 'G90')
        self.lines.append('M83' if rele else 'M82')
        self.n = 0
        self.renumber, self.ren_at = renumber, ren_at

    def step(self, s):
        if self.renumber and self.n in self.ren_at:
            self.lines.append(self.renumber[0])
            for k, v in self.renumber[1].items():
                self.off[k] = self.pos[k] - v
        self.n += 1
        words = []
        for k, d in zip('XYZE', s):
            if d is None:
                continue
            self.pos[k] += d
            r = self.rele if k == 'E' else self.rel
            words.append(k + num(d if r else self.pos[k] - self.off[k]))
        if s[4] is not None:
            words.append('F' + num(s[4]))
        self.lines.append(' '.join(['G1'] + words))


RENUMBER = [None, ('G92 X0 Y0', {'X': 0., 'Y': 0.}), ('G92 X12.5 Y-3', {'X': 12.5, 'Y': -3.}), ('G92 E0', {'E': 0.}),
            ('G92 E5.25', {'E': 5.25}), ('G92 X1 E1', {'X': 1., 'E': 1.}), ('G92 Y100 E-8', {'Y': 100., 'E': -8.}),
            ('G92 X-7 Y4 Z2 E3', {'X': -7., 'Y': 4., 'Z': 2., 'E': 3.}), ('G92', {'X': 0., 'Y': 0., 'Z': 0., 'E': 0.})]


def bounds(prog):
    """(least, most) the linear moves and dwells of a program can last, in seconds: a move lasts at least what its distance takes
    at the higher of its feed rate and the one before it, and at most twice what it takes at its own.  The distance is the one in
    the plane, or along Z or E when the head stays there."""
    m = Machine()
    low = high = last = 0.
    for text in prog:
        c = parse(text)
        x, y, z, e = m.x, m.y, m.z, m.e
        m.step(c)
        if c.code in ('G0', 'G1'):
            f = c.get('F')
            f = last if f is None else abs(f) * m.unit / 60.
            d = math.hypot(m.x - x, m.y - y)
            if d < 1e-9:
                d = abs(m.z - z) if c.get('Z') is not None else abs(m.e - e)
            if max(f, last) > 0:
                low += d / max(f, last)
                high += 2 * d / f if f > 0 else float('inf') if d else 0.
            last = f
        elif c.code == 'G4' and (c.get('P') or 0) > 0:
            low += c.get('P') / 1000.
            high += c.get('P') / 1000.
    return low, high


def total(g):
    return sum(l.duration for l in g.all_layers)


def consistent(g, prog):
    t = 0.
    for l in g.all_layers:
        if not l.duration >= -EPS:
            raise Violation('a layer lasts %r s' % l.duration, program=prog)
        t += l.duration
    s = g.duration.total_seconds()
    if s < 0 or s != int(s):
        raise Violation('estimated duration is %r' % s, program=prog)
    if not (int(t - EPS) == s or int(t + EPS) == s):
        raise Violation('estimated duration is %r s, layers last %r s together' % (s, t), program=prog)
    if g.estimate_duration()[1] != g.duration:
        raise Violation('estimate_duration() says %r, duration is %r' % (g.estimate_duration()[1], g.duration), program=prog)
    low, high = bounds(prog)
    if not low * (1 - EPS) - EPS <= t <= high * (1 + EPS) + EPS:
        raise Violation('the program is said to last %r s, it takes between %r and %r' % (t, low, high), program=prog)
    return t


class CHECK(Check):
    id = 'C27'
    rule = ('every command sequence of the stated length: duration against the sum of layer durations, a dwell inserted at every '
            'position; every motion of the stated length written in every way (absolute/relative, M82/M83, G92 anywhere). '
            'Non-trivial: the estimate is not zero')
    assumptions = ['durations compared to 1e-6 s', 'equivalent writings keep the same words on each line']

    def spaces(self, tier):
        d = len(STEPS)
        dw = lambda p: ('dwell', p)
        r = [seqs('len%d' % n, LETTERS, n, wrap=dw) for n in (1, 2, 3)]
        r.append(seqs('layers', DEEP, 3, prefix=['G1 Z0.25 F600', 'G1 X5 E1 F1200', 'G1 Z0.5'], suffix=['G1 X0 E2', 'G1 Z1 F300', 'G1 X9'],
                      wrap=dw))
        ways = [(rel, rele) for rel in (False, True) for rele in (False, True)]

        def motions(n):
            at = [tuple(k for k in range(n) if b >> k & 1) for b in range(1, 2 ** n)]
            cfg = [(w, None, ()) for w in ways[1:]] + [(w, q, a) for w in ways for q in RENUMBER[1:] for a in at if len(a) < 3]
            return product('motion%d' % n, range(len(cfg)), *([STEPS] * n), wrap=lambda t, c=cfg: ('motion', c[t[0]], t[1:]))
        r += [motions(1), motions(2)]
        r += [seqs('wide%d' % n, WIDE, n, prefix=p, wrap=dw) for n in (1, 2, 3) for p in ([], ['G90', 'M82', 'G1 X5 Y5 Z1 F2400'])]
        pre = [[], ['G1 X5 Y5 Z1 F2400'], ['G28', 'M83', 'T2', 'G1 X-500 Y700 E1 F5000'], ['G1 Z%d E1 F300' % z for z in range(1, 320)],
               ['; c'] * 400 + ['G1 X1 F600'], ['G1 X1 F600', 'G4 P2000000']]
        r.append(product('straight', pre, STRAIGHT, [300, 1800, 9000], [1, 2, 3, 7, 40, 400, 1500], [[], ['; c'], ['M104 S1', 'M106']],
                         wrap=lambda t: ('straight',) + t))
        r.append(product('long', [WIDE, DEEP, LETTERS], [300, 2000], [1, 5, 7],
                         wrap=lambda t: ('bounds', [t[0][(k * t[2] + k // 11) % len(t[0])] for k in range(t[1])])))
        if tier == 'quick':
            r.append(seqs('len4', DEEP, 4, wrap=dw))

            cfg = [((True, True), None, ()), ((False, True), RENUMBER[2], (1,)), ((True, False), RENUMBER[5], (2,)),
                   ((False, False), RENUMBER[7], (1, 2)), ((False, False), RENUMBER[8], (2,))]
            r.append(product('motion3', cfg, STEPS, STEPS, STEPS, wrap=lambda t: ('motion', t[0], t[1:])))
        else:
            r += [motions(3), seqs('deep5', DEEP, 5, wrap=dw), seqs('len4', LETTERS, 4, wrap=dw)]
        return r

    def run(self, case, st):
        if case[0] == 'dwell':
            self.dwell(case[1], st)
        elif case[0] == 'straight':
            self.straight(*(case[1:] + (st,)))
        elif case[0] == 'bounds':
            t = consistent(GCode(list(case[1])), case[1])
            st.outcomes.add(h(round(t, 6)))
            st.transitions += len(case[1])
            st.nontrivial += 1
        else:
            self.motion(case[1], case[2], st)

    def dwell(self, prog, st):
        g = GCode(list(prog))
        t = consistent(g, prog)
        st.states.add(h((round(t, 6), len(g.all_layers))))
        st.outcomes.add(h(round(t, 6)))
        if t > 0:
            st.nontrivial += 1
        for i in range(len(prog) + 1):
            ms = DWELLS[i % len(DWELLS)]
            p = list(prog[:i]) + ['G4 P%s' % num(ms)] + list(prog[i:])
            g2 = GCode(p)
            t2 = consistent(g2, p)
            st.transitions += 1
            if abs(t2 - t - ms / 1000.) > EPS:
                raise Violation('a dwell of %s ms before line %d adds %r s' % (num(ms), i, t2 - t), program=p)
            if len(g2.all_layers) != len(g.all_layers):
                raise Violation('a dwell changes the layers', program=p)

    def straight(self, pre, step, feed, n, between, st):
        """going straight on at the same feed rate: each more step takes its distance at that feed rate"""
        words, d = step
        head = pre + ['G91', 'M83', 'G1 %s F%d' % (words, feed)]
        t1 = consistent(GCode(list(head)), head)
        prog = head + (between + ['G1 ' + words]) * n
        t = consistent(GCode(list(prog)), prog)
        st.transitions += n
        st.nontrivial += 1
        st.outcomes.add(h(round(t, 6)))
        want = n * d / (feed / 60.)
        if abs(t - t1 - want) > 1e-6 * (1 + n):
            raise Violation('%d steps of %r more take %r s at F%d, not %r' % (n, words, t - t1, feed, want), program=prog)

    def motion(self, cfg, steps, st):
        (rel, rele), renumber, at = cfg
        texts = []
        for args in ((False, False, None, ()), (rel, rele, renumber, at)):
            w = Writer(*args)
            for s in steps:
                w.step(s)
            texts.append(w.lines)
        # the writings are equivalent on the reference machine, or the case is wrong
        ends = []
        for p in texts:
            m = Machine(g90_selects_e=False)
            for l in p:
                m.step(parse(l))
                st.transitions += 1
            ends.append((m.x, m.y, m.z, m.e, m.f))
            st.states.add(h(m.key()))
        assert all(abs(a - b) < 1e-9 for a, b in zip(*ends)), ends
        ts = [consistent(GCode(list(p)), p) for p in texts]
        if abs(ts[0] - ts[1]) > EPS:
            raise Violation('the same motion lasts %r s in absolute coordinates and %r s written otherwise' % tuple(ts),
                            programs=texts)
        st.outcomes.add(h(round(ts[0], 6)))
        if ts[0] > 0:
            st.nontrivial += 1
