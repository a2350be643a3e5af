import math

from vf import stretching as S
from vf.core import Check, Violation, h, product
from vf.machine import parse

KINDS = {'slic3r': ['ext', 'loop'], 'cura': ['outer', 'inner', 'loop'], 'skeinforge': ['outer', 'inner', 'loop']}
SETTINGS = [(), (('strength', .5),), (('strength', 2.),), (('strength', 3.), ('from', 1.)), (('from', 4.),), (('from', .5), ('cross', 2.)),
            (('cross', 20.),), (('cross', 1.), ('strength', .1)), (('loop', .5), ('inner', .2), ('outer', .35)),
            (('loop', .02), ('inner', .9), ('outer', .04), ('strength', 1.5)), (('loop', .9), ('strength', 2.), ('outer', 1.2))]
# Skeinforge programs before their stretch stage: threads are delimited by M101 and M103, one travel before each
FEW = ['infill', 'layer', 'cmd', 'ext', 'loop', 'hole', 'text', 'inner']
BETWEEN = ['retract', 'infill', 'layer', 'cmd', 'ext', 'loop', 'hole', 'skirt', 'inwards', 'text', 'lift', 'renumber']
STEP = .00051 * 1.4143


def square(i):
    return (S.closed(S.SHAPES['square'], 1, False, 110 + 95j), S.closed(S.SHAPES['hexagon'], 4, True, 97 + 130j))[i]


class CHECK(Check):
    id = 'C22'
    rule = ('every shape, size, start point, direction, place, quarter turn, kind of loop, slicer format, width and setting of the '
            'family, alone; and every sequence of blocks of the stated length around two loops. Every point of every closed loop is '
            'compared with the documented displacement. Non-trivial: a point moves')
    assumptions = ['loops are closed, convex, and longer than twice the stretch distance', 'coordinates rounded to 1 micron',
                   'the head position before a Cura loop is not part of the loop']

    def spaces(self, tier):
        def alone(fmt, shapes, starts, offs, turns, widths, settings, name):
            return product('%s %s' % (fmt, name), shapes, KINDS[fmt], starts, (False, True), offs, turns, widths, settings,
                           wrap=lambda t: (fmt, ((t[1], S.closed(S.SHAPES[t[0]], t[2], t[3], t[4], t[5])),), t[6], t[7], t[2] % 2 == 1))
        shapes = [s for s in S.SHAPES if 'round' not in s]
        r = []
        for fmt in ('slic3r', 'cura', 'skeinforge'):
            r += [alone(fmt, shapes, (0, 1, 2, 5), (100 + 90j, -7.5 + 3.25j), (0, 1, 2, 3), (.4, 1.25), SETTINGS[:1], 'shapes'),
                  alone(fmt, shapes, (0, 3), (100 + 90j,), (0, 1), (.35, .5), SETTINGS[1:], 'settings')]

            r += [alone(fmt, shapes[:8], (0,), (250 + 310j, -333 - 201.5j, 1200 + 3j), (0, 3), (.4,), SETTINGS[:1], 'far'),
                  product('%s round' % fmt, ('round', 'very round', 'fine square'), KINDS[fmt], (0, 149), (False, True), ['infill', 'layer', 'ext'],
                          (.4, .9), wrap=lambda t, fmt=fmt: (fmt, (t[4], (t[1], S.closed(S.SHAPES[t[0]], t[2], t[3], 100 + 90j)), t[4], 'infill'),
                                                             t[5], (), False))]

            # neighbours at every distance, around all the limits of every setting
            r.append(product('%s sizes' % fmt, range(1, 121), (3, 6, 9), KINDS[fmt][:2], (.4, .72, 1.25), SETTINGS[:1] + SETTINGS[5:7],
                             wrap=lambda t, fmt=fmt: (fmt, ((t[2], S.closed(S.polygon(t[1], .07 * t[0] / (2 * math.sin(math.pi / t[1])), 11.), 1, False, 100 + 90j)),),
                                                      t[3], t[4], True)))
            # programs which give no width
            r.append(product('%s default width' % fmt, shapes, KINDS[fmt], (0, 1), (False, True), SETTINGS, (False, True),
                             wrap=lambda t, fmt=fmt: (fmt, ((t[1], S.closed(S.SHAPES[t[0]], t[2], t[3], 100 + 90j)),), None, t[4], t[5], False)))

            def context(before, mid, after, fmt=fmt):
                k = KINDS[fmt]
                return (fmt, tuple(before) + ((k[0], square(0)),) + tuple(mid) + ((k[-1], square(1)),) + tuple(after), None, (), False)
            bt = FEW if fmt == 'skeinforge' else BETWEEN
            r += [product('%s between' % fmt, bt, bt, wrap=lambda t, c=context: c((), t, ('infill',))),
                  product('%s between3' % fmt, bt, bt, bt, wrap=lambda t, c=context: c((), t, ())),
                  product('%s around' % fmt, bt, bt, bt, wrap=lambda t, c=context: c(t[:1], t[1:2], t[2:])),
                  product('%s after' % fmt, bt, bt, wrap=lambda t, c=context: c((), (), t)),
                  product('%s nothing' % fmt, [()], wrap=lambda t, c=context: c((), (), ()))]
            if tier == 'thorough':
                r += [alone(fmt, shapes, range(0, 12), (100 + 90j, -7.5 + 3.25j, 0j), (0, 1, 2, 3), (.3, .4, .6, .72), SETTINGS[:1],
                            'all shapes'),
                      alone(fmt, shapes, range(0, 6), (100 + 90j,), (0, 1, 2, 3), (.3, .5, .72), SETTINGS[1:], 'all settings'),
                      product('%s around4' % fmt, *[bt] * 4, wrap=lambda t, c=context: c(t[:1], t[1:3], t[3:])),
                      product('%s between4' % fmt, *[bt] * 4, wrap=lambda t, c=context: c((), t, ()))]
        return r

    def show(self, case):
        lines, tags, w = S.build(case[0], case[1], case[2], *case[4:])
        return {'format': case[0], 'blocks': [b if isinstance(b, str) else b[0] for b in case[1]], 'width': w, 'settings': case[3],
                'program': lines if len(lines) < 60 else lines[:60] + ['...']}

    def run(self, case, st):
        fmt, blocks, width, settings, rele = case[:5]
        prog, tags, width = S.build(fmt, blocks, width, *case[4:])
        _, out = S.stretch(fmt, prog, settings)
        if len(out) != len(prog):
            raise Violation('%d lines became %d' % (len(prog), len(out)))
        moved = False
        place = {}
        for i, tag in enumerate(tags):
            if not tag or not tag[2]:
                continue
            kind, n, points, k = tag
            if len(points) < 2 or sum(abs(a - b) for a, b in zip(points, points[1:] + points[:1])) < \
                    2 * width * dict(S.DEFAULTS, **dict(settings))['from']:
                continue
            a, b = parse(prog[i]), parse(out[i])
            d = complex(b.args['X'] - a.args['X'], b.args['Y'] - a.args['Y'])
            want = S.displacement(points, k, kind, width, settings)
            st.transitions += 1
            st.states.add(h((round(want.real, 3), round(want.imag, 3))))
            if abs(d - want) > STEP + 1e-6:
                raise Violation('point %r of the %s loop is moved by %r, the documented algorithm moves it by %r' % (
                    prog[i], kind, d, want), line=i, output=out)
            # away from the loop: never towards its centre (points far apart are limited one neighbour after the other)
            c = sum(points) / len(points)
            v = points[k] - c
            near = width * dict(S.DEFAULTS, **dict(settings))['cross'] / 3
            if max(abs(points[k] - points[k - 1]), abs(points[k] - points[(k + 1) % len(points)])) < near and (d.real * v.real + d.imag * v.imag) / abs(v) < -STEP:
                raise Violation('point %r of the %s loop is moved into the loop, by %r' % (prog[i], kind, d), output=out)
            # the loop stays closed: the first and last places are the same one
            at = (b.args['X'], b.args['Y'])
            if place.setdefault((n, k), at) != at:
                raise Violation('the loop is not closed any more: %r and %r' % (place[n, k], at), output=out)
            moved = moved or abs(d) > .001
        st.outcomes.add(h(tuple(out)))
        if moved:
            st.nontrivial += 1
