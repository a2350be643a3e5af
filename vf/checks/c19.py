from vf.arcs import CONTEXTS, Writer, arc_points, geometry, match, optimise, runs
from vf.core import Check, Violation, h, product

CTX = list(CONTEXTS)
RADII = [1., 2.5, 10., 40., 120., 199.]
STEPS = [3., 5., 7.5, 12., 22.5, 30., 45.]
COUNTS = [9, 10, 11, 13, 18, 24, 36, 40, 72, 120]
# what stands before and after the run
BEFORE = ['travel', 'command', 'comment', 'height', 'extruding move', 'reset', 'feed only', 'retract', 'run']
AFTER = ['travel', 'command', 'end', 'extruding move', 'height', 'feed', 'feed only', 'run']


def build(ctx, r, step, n, cw, start, before, after, travel, ratio=.05, code='G1'):
    w = Writer(ctx, ratio=ratio)
    c = (210., 210.)
    pts = arc_points(r, step, n, cw, start, c)
    base = None if travel else ratio
    w.move(z=.3, ratio=None, f=3000, code='G0')
    out = (c[0] + (pts[0][0] - c[0]) * 3 + 4, c[1] + (pts[0][1] - c[1]) * 3 - 3)
    if before == 'extruding move':
        w.move(out[0], out[1], ratio=None, code='G0')
        w.move(pts[0][0], pts[0][1], f=1200)
    else:
        w.move(pts[0][0], pts[0][1], ratio=None, code='G0')
        if before == 'command':
            w.add('M104 S200')
        elif before == 'comment':
            w.add('; TYPE')
        elif before == 'reset':
            w.add('G92 E0')
        elif before == 'height':
            w.move(z=.6, ratio=None)
        elif before == 'feed only':
            w.add('G1 F900')
        elif before == 'retract':
            w.move(e=-1., f=1800, ratio=None)
            w.move(e=1., ratio=None)
        elif before == 'run':
            # another run ends where this one begins
            d = (pts[0][0] - c[0], pts[0][1] - c[1])
            q = arc_points(r, 20., 12, not cw, start + (180. + 240. * (1 if not cw else -1)), (c[0] + 2 * d[0], c[1] + 2 * d[1]))
            w.move(q[0][0], q[0][1], ratio=None, code='G0')
            for k, p in enumerate(q[1:]):
                w.move(p[0], p[1], ratio=base, f=1200 if k == 0 else None)
    first = len([l for l in w.lines])
    for i, p in enumerate(pts[1:]):
        w.move(p[0], p[1], ratio=base, f=1200 if i == 0 and before != 'extruding move' else None, code=code)
    last = len(w.lines)
    far = (c[0] + (pts[-1][0] - c[0]) * 3 + 4, c[1] + (pts[-1][1] - c[1]) * 3 + 5)
    if after == 'travel':
        w.move(far[0], far[1], ratio=None, code='G0')
    elif after == 'extruding move':
        w.move(far[0], far[1])
    elif after == 'command':
        w.add('M106 S255')
    elif after == 'height':
        w.move(z=.9, ratio=None)
    elif after == 'feed':
        w.move(far[0], far[1], f=3000)
    elif after == 'feed only':
        w.add('G1 F900')
    elif after == 'run':
        d = (pts[-1][0] - c[0], pts[-1][1] - c[1])
        s = start + step * n * (-1 if cw else 1)
        for p in arc_points(r / 2, 20., 12, not cw, s + 180., (c[0] + 1.5 * d[0], c[1] + 1.5 * d[1]))[1:]:
            w.move(p[0], p[1], ratio=base)
    if after != 'end':
        w.add('M104 S0')
    return w.lines, first, last


class CHECK(Check):
    id = 'C19'
    rule = ('every combination of radius, step, count (up to a full circle), direction, start angle, context, extrusion and '
            'delimiters; the output must cover all but at most one move of the run with arcs')
    assumptions = ['runs of 9 moves and more: an arc needs 8 moves after the one reaching its first point when the run follows '
                   'another command']

    def spaces(self, tier):
        t = tier == 'thorough'
        cw = [False, True]
        pairs = [(s, n) for s in STEPS for n in (COUNTS if t else COUNTS[:9:2] + [72]) if s * n <= 360]
        mk = lambda c: dict(ctx=c[0], r=c[1], step=c[2][0], n=c[2][1], cw=c[3], start=c[4], before=c[5], after=c[6], travel=c[7])
        r = [product('runs', CTX, RADII, pairs, cw, [0., 100.3], BEFORE[:2], AFTER[:1], [False, True], wrap=mk),
             product('delimiters', CTX, RADII[1:5:2], pairs[::3], cw, [45.], BEFORE, AFTER, [False, True], wrap=mk)]
        r.append(product('rapid', CTX, RADII[1:5:2], pairs[::3], cw, [45.], BEFORE[:5], AFTER[:4],
                         wrap=lambda c: dict(mk(c + (True,)), code='G0')))
        if t:
            r.append(product('start angles', CTX, RADII, pairs, cw, [10. * k for k in range(36)], BEFORE[:2], AFTER[:1],
                             [False], wrap=mk))
            r.append(product('all delimiters', CTX, RADII, pairs, cw, [45., 200.], BEFORE, AFTER, [False, True], wrap=mk))
        return r

    def run(self, case, st):
        prog, first, last = build(**case)
        out = optimise(prog)
        best = None
        for mt in match(prog, out):
            left = sum(1 for it in mt[1] if it[0] == 'same' and first <= it[1] < last)
            bad = None
            if left > 1:
                bad = '%d of %d moves of a circular run are left' % (left, last - first)
            else:
                for r in runs(prog, mt)[0]:
                    bad = bad or geometry(r)
            if bad is None:
                st.transitions += len(prog)
                st.states.add(h((case['ctx'], case['r'], case['step'], case['n'], left)))
                st.outcomes.add(h([it[:3] for it in mt[1] if it[0] == 'arc']))
                st.nontrivial += 1
                return
            best = best or bad
        raise Violation(best or 'the output is not the program with arcs', program=prog, output=out)
