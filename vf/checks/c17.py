import math

from vf.arcs import CONTEXTS, Writer, arc_points, feeding, match, optimise, runs
from vf.checks.c16 import BASE, CTX, SHAPES
from vf.core import Check, Violation, h, product

CHANGES = [None, ('f', 900), ('f', 1200), ('ratio', .06), ('ratio', .055), ('ratio', .0425), ('ratio', .02), ('ratio', None),
           ('ratio', 0.), ('e', -1.), ('e', 2.), ('rest', None), ('rest', .1), ('rest', .053), ('f', 1203), ('f', 1200.5),
           ('ratio', -.05), ('rest', -.05)]


def build(ctx, r, step, n, cw, change, k, travel=False, shape=0, sk=0, f=1200, code='G1', lead=True, ratio=.05, start=20., resets=(),
          then=()):
    w = Writer(ctx, ratio=ratio)
    c = (100., 100.)
    pts = arc_points(r, step, n, cw, start, c)
    if SHAPES[shape][1]:
        SHAPES[shape][1](pts, min(sk, len(pts) - 1), c)
    w.move(z=.3, ratio=None, f=3000, code='G0')
    w.move(pts[0][0], pts[0][1], ratio=None, code='G0')
    if not lead:
        w.add('M104 S200')
    for l in resets:
        w.add(l)
    base = None if travel else ratio
    for i, p in enumerate(pts[1:]):
        kw = dict(ratio=base, f=f if i == 0 else None, code=code)
        if change and i == k:
            if change[0] == 'rest':
                base = kw['ratio'] = change[1]
            else:
                kw[change[0]] = change[1]
        w.move(p[0], p[1], **kw)
    for l in then:
        w.add(l)
    w.move(pts[-1][0] + 50, pts[-1][1] - 30, f=2400)
    w.move(pts[-1][0] + 50, pts[-1][1] - 40)
    return w.lines


class CHECK(Check):
    id = 'C17'
    rule = ('every circular run of the bounded geometry with every feed-rate or extrusion change at every position, in every '
            'context; every arc is compared with the moves it replaces; non-trivial: at least one arc is generated')
    assumptions = ['feed rates compared to 0.02 mm/min', 'extruder numbering is checked in absolute extrusion, where it is used']

    def spaces(self, tier):
        t = tier == 'thorough'
        cw = [False, True]
        ch = list(range(len(CHANGES)))
        mk = lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], cw=c[2], change=CHANGES[c[3]], k=c[4], travel=c[5])
        r = [product('changes', CTX[:4] if not t else CTX, BASE[1:5:3] if not t else BASE, cw, ch, range(0, 14), [False, True],
                     wrap=mk),
             product('clean', CTX, [.5, 2., 10., 60., 180.], [2, 5, 10, 20, 30, 45], [8, 9, 16, 36], cw, [False, True],
                     [.03, .5, .002],
                     wrap=lambda c: dict(ctx=c[0], r=c[1], step=c[2], n=c[3], cw=c[4], change=None, k=0, travel=c[5],
                                         ratio=c[6])),
             product('backwards', CTX, BASE, cw, [-.05, -.5, -.01, .00001],
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], cw=c[2], change=None, k=0, ratio=c[3])),
             product('long', CTX, [(10., 1.8, 160), (50., 1., 270), (199., 4., 89)] + t * [(150., .5, 600), (40., .3, 1200)], cw,
                     [None, ('f', 900), ('ratio', .02), ('e', 2.)], [5, 151, 256][:3 if t else 2], [.05, 2.],
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], cw=c[2], change=c[3], k=c[4], ratio=c[5])),
             product('noisy', CTX[:6] if not t else CTX, [(1., 30, 12), (10., 10, 12), (2., 5, 12), (.5, 10, 20), (.5, 6, 20), (1., 3, 20)],
                     [1, 2, 3, 8, 9, 13, 18, 20, 21, 22], range(0, 13), cw, [False, True],
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], shape=c[2], sk=c[3], cw=c[4],
                                         change=None, k=0, travel=c[5])),
             product('contexts', CTX, BASE, cw, [[], ['G92 E0'], ['G92'], ['G92 E-5 X3'], ['M83'], ['M82'], ['G1 E-2', 'G1 E2']],
                     [[], ['G92 E0'], ['M82', 'G92 E1'], ['M83'], ['M82']], ['G0', 'G1'],
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], cw=c[2], change=None, k=0,
                                         resets=c[3], then=c[4], code=c[5]))]
        return r

    def show(self, case):
        return dict(case, shape=SHAPES[case.get('shape', 0)][0])

    def run(self, case, st):
        prog = build(**case)
        out = optimise(prog)
        best = None
        for mt in match(prog, out):
            found, m, t = runs(prog, mt)
            bad = None
            for r in found:
                bad = feeding(r)
                if bad:
                    break
            if bad is None:
                st.transitions += len(prog)
                st.states.add(h((case['ctx'], [(r.first, r.last, r.ccw, round(r.arc_e, 3)) for r in found])))
                st.outcomes.add(h([(r.first, r.last, r.ccw, round(r.arc_e, 1)) for r in found]))
                if found:
                    st.nontrivial += 1
                return
            best = best or bad
        raise Violation(best or 'the output is not the program with arcs', program=prog, output=out)
