"""What C16-C19 share: programs made of circular runs, and the matching of an optimised program with its original"""
import math

from vf.common import text_of
from vf.core import Violation
from vf.machine import Machine, parse
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
from gcodeutils.gcoder import GCode

# documented limits of the optimiser
MIN_MOVES = 8
MAX_RADIUS = 200.
ALIGNMENT = 0.035       # two radii, each within 0.015 mm of the fitted one, and output rounding
RATIO = 0.15


def optimise(prog):
    g = GCode(list(prog))
    GCodeArcOptimizerFilter().filter(g)
    return text_of(g)


# ------------------------------------------------------------------------------------------------ writing programs

def arc_points(r, step, n, cw=False, start=0., center=(100., 100.)):
    """n + 1 points, the first one included; angles in degrees"""
    s = -1 if cw else 1
    return [(center[0] + r * math.cos(math.radians(start + s * step * k)),
             center[1] + r * math.sin(math.radians(start + s * step * k))) for k in range(n + 1)]


CONTEXTS = {
    'absolute': ['G90', 'M82'],
    'absolute, relative E': ['G90', 'M83'],
    'relative': ['G91', 'M83'],
    'relative, absolute E': ['G91', 'M82'],
    'offset': ['G90', 'M82', 'G92 X-20.5 Y7.25 E3'],
    'homed offset': ['G90', 'M83', 'G1 X5 Y5', 'G92 X0', 'G28 Y', 'G92 Y3'],
    'inch': ['G20', 'G90', 'M82'],
    'inch, relative': ['G20', 'G91', 'M83'],
}


class Writer(object):
    """Writes moves to machine points in some context, with a constant or given filament per mm"""

    def __init__(self, context, ratio=0.05, digits=3):
        self.lines = list(CONTEXTS[context])
        self.m = Machine()
        for l in self.lines:
            self.m.step(parse(l))
        self.ratio = ratio
        self.digits = digits

    def add(self, text):
        self.lines.append(text)
        self.m.step(parse(text))

    def move(self, x=None, y=None, z=None, ratio=-1, f=None, code='G1', e=None, comment=''):
        m = self.m
        u = m.unit
        d = self.digits if u == 1 else 5
        words = [code]
        x0, y0 = m.x, m.y
        nx, ny = x0, y0
        # coordinates are written rounded; in relative mode so that the positions do not drift
        if x is not None:
            v = round((x - (m.x if m.rel else m.ox)) / u, d)
            nx = v * u + (m.x if m.rel else m.ox)
            words.append('X%.*f' % (d, v))
        if y is not None:
            v = round((y - (m.y if m.rel else m.oy)) / u, d)
            ny = v * u + (m.y if m.rel else m.oy)
            words.append('Y%.*f' % (d, v))
        if z is not None:
            words.append('Z%.*f' % (d, (z - (m.z if m.rel else m.oz)) / u))
        ratio = self.ratio if ratio == -1 else ratio
        if e is None and ratio is not None:
            e = math.hypot(nx - x0, ny - y0) * ratio
        if e is not None:
            words.append('E%.*f' % (5 if u == 1 else 7, (e if m.rele else m.e - m.oe + e) / u))
        if f is not None:
            words.append('F%g' % f)
        self.add(' '.join(words) + comment)


# ------------------------------------------------------------------------------------------------------- matching

STRAIGHT = ('G0', 'G1')


def match(prog, out):
    """The way(s) to see `out` as `prog` with runs of straight moves replaced: lists of ('same', i) and
    ('arc', first, last, arc command, G92 command or None)"""
    inp = [parse(l) for l in prog if l.strip()]
    res = [parse(l) for l in out]
    # machine position before every input command
    m = Machine()
    before = [(m.x, m.y)]
    for c in inp:
        m.step(c)
        before.append((m.x, m.y))
    t = Machine()
    state = []
    for c in res:
        t.step(c)
        state.append((t.x, t.y))
    n, k = len(inp), len(res)
    stack = [(0, 0, ())]
    count = 0
    while stack:
        i, j, acc = stack.pop()
        if j == k:
            if i == n:
                count += 1
                yield inp, list(acc)
                if count > 20:
                    return
            continue
        c = res[j]
        if c.code in ('G2', 'G3'):
            resets = [None]
            if j + 1 < k and res[j + 1].code == 'G92' and set(res[j + 1].args) == set('E'):
                resets.append(res[j + 1])
            last = i
            while last < n and inp[last].code in STRAIGHT:
                last += 1
            # candidates ending where the arc ends
            for q in range(i + 1, last + 1):
                p = before[q]
                if math.hypot(p[0] - state[j][0], p[1] - state[j][1]) > 0.05:
                    continue
                for g in resets:
                    stack.append((q, j + 1 + (g is not None), acc + (('arc', i, q - 1, c, g),)))
        if i < n and inp[i].raw == c.raw:
            stack.append((i + 1, j + 1, acc + (('same', i),)))


def sweep_of(points, center, ccw):
    """signed angular steps, positive along the direction of the arc, each in (-pi, pi]"""
    a = [math.atan2(p[1] - center[1], p[0] - center[0]) for p in points]
    r = []
    for p, q in zip(a, a[1:]):
        d = q - p
        while d <= -math.pi:
            d += 2 * math.pi
        while d > math.pi:
            d -= 2 * math.pi
        r.append(d if ccw else -d)
    return r


class Run(object):
    """One arc of a matched program, with the moves it replaces"""
    __slots__ = ('first', 'last', 'cmd', 'reset', 'points', 'zs', 'fs', 'es', 'words', 'center', 'radius', 'end', 'ccw', 'arc_e',
                 'arc_f', 'arc_z', 'logical', 'arc_logical', 'rele', 'starts_at', 'after_reset', 'unit')


def runs(prog, match_):
    """Execute both programs; (list of Run, None or what differs)"""
    inp, items = match_
    m, t = Machine(), Machine()
    found = []
    for it in items:
        if it[0] == 'same':
            m.step(inp[it[1]])
            t.step(inp[it[1]])
            continue
        _, i, q, c, g = it
        r = Run()
        r.first, r.last, r.cmd, r.reset = i, q, c, g
        r.points, r.zs, r.fs, r.es, r.words = [(m.x, m.y)], [m.z], [], [], []
        for k in range(i, q + 1):
            de = m.step(inp[k])
            r.points.append((m.x, m.y))
            r.zs.append(m.z)
            r.fs.append(m.f)
            r.es.append(de or 0.)
            r.words.append(de is not None)
        r.rele = t.rele
        r.unit = t.unit
        r.starts_at = (t.x, t.y)
        r.center = (t.x + (c.args.get('I') or 0.) * t.unit, t.y + (c.args.get('J') or 0.) * t.unit)
        r.radius = math.hypot(t.x - r.center[0], t.y - r.center[1])
        r.ccw = c.code == 'G3'
        r.arc_e = t.step(c) or 0.
        r.end = (t.x, t.y)
        r.arc_z, r.arc_f = t.z, t.f
        if g is not None:
            t.step(g)
        r.logical, r.arc_logical = m.e - m.oe, t.e - t.oe
        found.append(r)
    return found, m, t


def geometry(r):
    """None, or how the arc does not follow the moves it replaces"""
    k = len(r.points) - 1
    if k < MIN_MOVES:
        return 'an arc replaces %d moves' % k
    if any(abs(z - r.zs[0]) > 1e-6 for z in r.zs):
        return 'an arc replaces moves changing height'
    if abs(r.arc_z - r.zs[-1]) > 2e-3:
        return 'an arc is at height %r instead of %r' % (r.arc_z, r.zs[-1])
    if math.hypot(r.starts_at[0] - r.points[0][0], r.starts_at[1] - r.points[0][1]) > 0.0025 * (1 + 0):
        return 'an arc starts at %r instead of %r' % (r.starts_at, r.points[0])
    if math.hypot(r.end[0] - r.points[-1][0], r.end[1] - r.points[-1][1]) > 0.0025:
        return 'an arc ends at %r instead of %r' % (r.end, r.points[-1])
    if r.radius > MAX_RADIUS + 0.05:
        return 'an arc has radius %g' % r.radius
    for p in r.points:
        if abs(math.hypot(p[0] - r.center[0], p[1] - r.center[1]) - r.radius) > ALIGNMENT:
            return 'an arc passes %g mm from the replaced point %r' % (
                abs(math.hypot(p[0] - r.center[0], p[1] - r.center[1]) - r.radius), p)
    steps = sweep_of(r.points, r.center, r.ccw)
    if min(steps) * max(r.radius, 1e-9) < -0.004:
        return 'an arc goes through points against its direction'
    total = sum(steps)
    if total * r.radius > 2 * math.pi * r.radius + 0.01:
        return 'an arc replaces more than a full circle'
    # the arc really drawn by a machine
    s = sweep_of([r.starts_at, r.end], r.center, r.ccw)[0]
    if s < 0 or math.hypot(r.starts_at[0] - r.end[0], r.starts_at[1] - r.end[1]) < 1e-7:
        s += 2 * math.pi
    if abs(s - total) * r.radius > 0.02:
        return 'an arc turns by %.2f degrees instead of %.2f' % (math.degrees(s), math.degrees(total))
    return None


def feeding(r):
    """None, or how the arc does not feed as the moves it replaces"""
    if any(abs(f - r.fs[0]) > 1e-6 for f in r.fs):
        return 'an arc replaces moves at feed rates %r' % sorted(set(r.fs))
    if abs(r.arc_f - r.fs[-1]) > 0.02:
        return 'an arc moves at feed rate %g instead of %g' % (r.arc_f, r.fs[-1])
    lengths = [math.hypot(q[0] - p[0], q[1] - p[1]) for p, q in zip(r.points, r.points[1:])]
    total, path = sum(r.es), sum(lengths)
    slack = 1.1e-5 * r.unit + 1e-6
    if all(abs(e) < 1e-9 for e in r.es):
        if abs(r.arc_e) > slack:
            return 'an arc replacing travel moves feeds %g' % r.arc_e
        return None
    if any(e < 1e-9 for e in r.es):
        return 'an arc replaces moves feeding %r' % [round(e, 5) for e in r.es]
    ratio = total / path
    for e, l in zip(r.es, lengths):
        if abs(e / l / ratio - 1) > RATIO + 1e-3:
            return 'an arc replaces moves feeding %r of the average' % (e / l / ratio)
    q = sum(sweep_of(r.points, r.center, r.ccw)) * r.radius / path
    lo, hi = total * min(1, q) * 0.97 - slack, total * max(1, q) * 1.03 + slack
    if not lo <= r.arc_e <= hi:
        return 'an arc feeds %.5f instead of %.5f to %.5f' % (r.arc_e, total * min(1, q), total * max(1, q))
    if not r.rele and abs(r.logical - r.arc_logical) > 0.0101 * total + slack:
        return 'after an arc the extruder is at E%.5f instead of E%.5f' % (r.arc_logical, r.logical)
    return None
