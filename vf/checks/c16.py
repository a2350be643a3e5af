import math

from vf.arcs import CONTEXTS, Writer, arc_points, geometry, match, optimise, runs
from vf.core import Check, Violation, h, product

CTX = list(CONTEXTS)
BASE = [(1., 30, 12), (10., 10, 12), (50., 3, 14), (150., 2, 10), (5., 45, 8), (20., 20, 18)]


def mid(p, q):
    return ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)


def radial(d):
    def f(pts, k, c):
        v = (pts[k][0] - c[0], pts[k][1] - c[1])
        l = math.hypot(*v)
        pts[k] = (pts[k][0] + v[0] / l * d, pts[k][1] + v[1] / l * d)
    return f


def tangential(frac):
    def f(pts, k, c):
        j = max(0, k - 1)
        pts[k] = (pts[k][0] + (pts[k][0] - pts[j][0]) * frac, pts[k][1] + (pts[k][1] - pts[j][1]) * frac)
    return f


def swap(pts, k, c):
    if k + 1 < len(pts):
        pts[k], pts[k + 1] = pts[k + 1], pts[k]


def double(pts, k, c):
    pts.insert(k, pts[k])


def halve(pts, k, c):
    if k + 1 < len(pts):
        pts.insert(k + 1, mid(pts[k], pts[k + 1]))


def drop(pts, k, c):
    del pts[k]


def back(pts, k, c):
    # the path turns round
    pts[k + 1:] = pts[:k][::-1]


def bend(pts, k, c):
    # the rest is mirrored about the tangent: S curve
    if k == 0:
        return
    t = (pts[k][0] - pts[k - 1][0], pts[k][1] - pts[k - 1][1])
    l = math.hypot(*t) or 1.
    t = (t[0] / l, t[1] / l)
    for n in range(k + 1, len(pts)):
        v = (pts[n][0] - pts[k][0], pts[n][1] - pts[k][1])
        d = v[0] * t[0] + v[1] * t[1]
        pts[n] = (pts[k][0] + 2 * d * t[0] - v[0], pts[k][1] + 2 * d * t[1] - v[1])


def straight(pts, k, c):
    if k == 0:
        return
    t = (pts[k][0] - pts[k - 1][0], pts[k][1] - pts[k - 1][1])
    for n in range(k + 1, len(pts)):
        pts[n] = (pts[k][0] + t[0] * (n - k), pts[k][1] + t[1] * (n - k))


def spiral(d):
    def f(pts, k, c):
        for n in range(k, len(pts)):
            radial(d * (n - k))(pts, n, c)
    return f


def zigzag(d):
    def f(pts, k, c):
        for n in range(k, len(pts)):
            radial(d if n % 2 else -d)(pts, n, c)
    return f


SHAPES = [('clean', None), ('out 5um', radial(.005)), ('in 10um', radial(-.01)), ('out 14um', radial(.014)), ('out 17um', radial(.017)),
          ('in 30um', radial(-.03)), ('out 0.1', radial(.1)), ('in 1', radial(-1.)), ('late 30%', tangential(.3)),
          ('early 60%', tangential(-.6)), ('behind', tangential(-1.5)), ('swap', swap), ('double', double), ('halve', halve),
          ('drop', drop), ('back', back), ('bend', bend), ('straight', straight), ('spiral 2um', spiral(.002)),
          ('spiral 50um', spiral(.05)), ('spiral -2um', spiral(-.002)), ('zigzag 12um', zigzag(.012)),
          ('zigzag 4um', zigzag(.004))]


def build(ctx, r, step, n, cw, start, shape=0, k=0, z=None, lead=True, travel=False, tail=True, digits=3, partial=None):
    w = Writer(ctx, digits=digits)
    c = (100., 100.)
    pts = arc_points(r, step, n, cw, start, c)
    if SHAPES[shape][1]:
        SHAPES[shape][1](pts, min(k, len(pts) - 1), c)
    w.move(z=.3, ratio=None, f=3000, code='G0')
    w.move(pts[0][0], pts[0][1], ratio=None, code='G0')
    if not lead:
        w.add('M104 S200')
    for i, p in enumerate(pts[1:]):
        zz = None
        if z is not None and i == k:
            zz = z
        x, y = p
        if partial and i == k:
            x, y = (x, None) if partial == 'x' else (None, y)
        w.move(x, y, zz, ratio=None if travel else -1, f=1200 if i == 0 else None)
    if tail:
        w.move(pts[-1][0] + 50, pts[-1][1] - 30, ratio=None)
    return w.lines


class CHECK(Check):
    id = 'C16'
    rule = ('every polyline made of a circular run (radius, step, count, direction, start angle) with each perturbation at '
            'each position, in every positioning context; every arc of the output is compared with the moves it replaces; '
            'non-trivial: at least one arc is generated')
    assumptions = ['a point of the arc is within 0.035 mm of the replaced points: 0.015 mm around the fitted radius at each end '
                   'and rounding', 'coordinates written with 3 decimals (5 in inches)']

    def spaces(self, tier):
        t = tier == 'thorough'
        cw = [False, True]
        r = [product('full turns', CTX, [.5, 3., 25., 90.], [5, 10, 15, 24, 30, 36, 40, 45, 60], [8, 9, 12, 15, 24, 36, 37, 40, 80], cw,
                     [0., 33.] if not t else [0., 33., 90., 171., 270.5], [True, False],
                     wrap=lambda c: dict(ctx=c[0], r=c[1], step=c[2], n=c[3], cw=c[4], start=c[5], lead=c[6])),
             product('perturbed', CTX[:1] if not t else CTX, BASE, range(1, len(SHAPES)), range(0, 19), cw,
                     [0., 137.] if not t else [0., 45., 137., 200.], [True, False],
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], shape=c[2], k=c[3], cw=c[4],
                                         start=c[5], lead=c[6])),
             product('heights', CTX, BASE[:2], range(0, 12), [.3, .5, .35], [False, True], [True, False], [True, False],
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], k=c[2], z=c[3], cw=c[4], start=10.,
                                         lead=c[5], travel=c[6])),
             product('partial', CTX, BASE, range(0, 13), ['x', 'y'], [0., 84., 90., 180.], cw,
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], k=c[2], partial=c[3], start=c[4],
                                         cw=c[5])),
             product('sizes', CTX[:4:2] + CTX[6:7], [.001, .01, .1, 1., 10., 100., 190., 199.9, 200.1, 210., 1000.],
                     [.2, .5, 1., 2., 6., 11.25, 22.5, 45., 50.], [7, 8, 9, 10, 17, 33], [0., 200.], cw, [3, 5],
                     wrap=lambda c: dict(ctx=c[0], r=c[1], step=c[2], n=c[3], start=c[4], cw=c[5], digits=c[6])),
             product('almost closed', CTX[0:1] + CTX[2:3] + CTX[4:5] + CTX[6:7], [.5, 3., 25., 90.], [9, 12, 36],
                     [s * g for g in (0, .0002, .0004, .0006, .001, .0014, .002, .004, .007, .012, .016, .03) for s in (1, -1)],
                     [0., 33., 90., 171.], cw, [3, 4, 5],
                     wrap=lambda c: dict(ctx=c[0], r=c[1], step=(360 - math.degrees(c[3] / c[1])) / c[2], n=c[2], start=c[4], cw=c[5],
                                         digits=c[6])),
             product('overlapping', CTX, [.5, 3., 25., 90.], [9, 12, 24, 36], [360.1, 360.5, 361., 362., 363.5, 364.9, 366., 370.], [0., 33., 171.],
                     cw, [True, False], [False, True],
                     wrap=lambda c: dict(ctx=c[0], r=c[1], step=c[3] / c[2], n=c[2], start=c[4], cw=c[5], lead=c[6], tail=c[7])),
             product('long', CTX[0:1], [(50., 3, 110), (20., 5, 70), (120., 1.2, 290)], range(1, len(SHAPES)), range(8, 290, 13), cw,
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], shape=c[2], k=c[3], cw=c[4], start=10.)),
             product('ends', CTX, BASE, [True, False], [True, False], [True, False], cw,
                     wrap=lambda c: dict(ctx=c[0], r=c[1][0], step=c[1][1], n=c[1][2], lead=c[2], travel=c[3], tail=c[4],
                                         cw=c[5], start=0.))]
        if t:
            r.append(product('start angles', CTX, [1., 10., 60.], [6, 12, 30], [9, 12, 30], cw, [5. * x for x in range(72)],
                             wrap=lambda c: dict(ctx=c[0], r=c[1], step=c[2], n=c[3], cw=c[4], start=c[5])))
        return r

    def show(self, case):
        return dict(case, shape=SHAPES[case.get('shape', 0)][0])

    def run(self, case, st):
        prog = build(**case)
        out = optimise(prog)
        best = None
        for mt in match(prog, out):
            found, m, t = runs(prog, mt)
            bad = None
            for r in found:
                bad = geometry(r)
                if bad:
                    break
            if bad is None:
                st.transitions += len(prog)
                st.states.add(h((case['ctx'], case['r'], case['step'], [(r.first, r.last, r.ccw) for r in found])))
                st.outcomes.add(h([(r.first, r.last, r.ccw) for r in found]))
                if found:
                    st.nontrivial += 1
                return
            best = best or bad
        raise Violation(best or 'the output is not the program with arcs', program=prog, output=out)
