from vf import stretching as S
from vf.core import Check, Violation, h, product, seqs
from vf.machine import parse

KINDS = {'slic3r': ['ext', 'loop'], 'cura': ['outer', 'inner', 'loop'], 'skeinforge': ['outer', 'inner', 'loop']}
COMMON = ['retract', 'infill', 'layer', 'cmd', 'skirt', 'support', 'inwards', 'text', 'lift', 'end', 'start', 'onlyx', 'arc', 'open', 'small', 'wordy', 'wordy cmd']
SETTINGS = [(), (('strength', 0.),), (('strength', .25),), (('strength', 4.),), (('loop', 0.), ('inner', .5)),
            (('outer', 0.), ('loop', .6), ('inner', .05)), (('loop', .33), ('inner', 0.), ('outer', .77), ('strength', .5)),
            (('from', .3),), (('cross', 50.), ('from', 6.)), (('strength', -1.),), (('inner', 1.5), ('outer', 1.2), ('loop', 1.1))]
STEP = .00051 * 1.4143
TRIANGLE = S.closed(S.SHAPES['12-gon'], 0, False, 50 + 60j)
FINE = S.closed(S.SHAPES['fine circle'], 0, True, 53 + 40j)
ZIGZAG = [10 + 10j, 30 + 10j, 10.5 + 10.2j, 30 + 10.4j, 10.5 + 10.6j, 30 + 11j]
SPIKE = [0j, 20 + 0j, 0.01j, 0j]
POINT = [5 + 5j] * 4
TWO = [7 + 7j, 9 + 7j]
ODD = [ZIGZAG, SPIKE, POINT, TWO, S.OPEN, S.closed(S.SHAPES['thin'], 0, False, -3 - 4j), FINE, TRIANGLE,
       S.closed(S.SHAPES['24-gon'], 5, False, 53.5 + 40j), S.closed(S.SHAPES['fine square'], 3, True, 40j)]


def walls(fmt):
    k = KINDS[fmt]
    r = [(k[0], TRIANGLE), (k[1], FINE)]
    if len(k) > 2:
        r.append((k[2], ODD[8]))
    if fmt == 'cura':
        r.append(('inner', [TRIANGLE, FINE]))
    return r


class CHECK(Check):
    id = 'C20'
    rule = ('every sequence of blocks of the stated length in each slicer format (walls of every kind, infill, skirt, support, '
            'travel, retraction, layer changes, commands), every shape and setting; the displacement of every line is compared '
            'with the limit of its wall, or zero. Non-trivial: a point is moved')
    assumptions = ['the travel to the first point of a Slic3r or Skeinforge wall belongs to the wall',
                   'the first external perimeter of a Slic3r layer is its outer edge; a layer is a run of lines at one height',
                   'Cura SKIN sections are stretched as loops', 'coordinates rounded to 1 micron', 'absolute positioning']

    def spaces(self, tier):
        r = [product('large', ['slic3r', 'cura', 'skeinforge'], ['round', 'very round'], [0, 7], ['retract', 'infill', 'wordy', 'layer'], [20, 150],
                     wrap=lambda t: (t[0], ((KINDS[t[0]][0], S.closed(S.SHAPES[t[1]], t[2], False, 50 + 60j)), 'infill') + (t[3], 'infill', 'layer') * t[4] +
                                     ((KINDS[t[0]][-1], S.closed(S.SHAPES[t[1]], t[2], True, 53 + 60j)), t[3], 'end'), None, SETTINGS[3], True, False))]
        for fmt in ('slic3r', 'cura', 'skeinforge'):
            common = [c for c in COMMON if not (fmt == 'cura' and c in ('open', 'small'))]
            if fmt == 'cura':
                common.append('prime')
            if fmt == 'slic3r':
                common += ['wipe', 'gap fill']
            letters = common + walls(fmt)
            few = ['retract', 'infill', 'layer', 'lift', 'text', 'inwards', 'onlyx'] + walls(fmt)[:2]
            mk = lambda p, fmt=fmt: (fmt, tuple(p), None, (('strength', 4.),), True, False)
            r += [seqs('%s blocks%d' % (fmt, n), letters, n, wrap=mk) for n in (1, 2)]
            some = few + ['infill', 'skirt', 'cmd', 'start', 'onlyx', 'arc', 'prime' if fmt == 'cura' else 'open'] + ['wipe'] * (fmt == 'slic3r')
            r += [seqs('%s some3' % fmt, [x for k, x in enumerate(some) if x not in some[:k]], 3, wrap=mk)]
            r += [seqs('%s deep' % fmt, few, 4, wrap=mk),
                  product('%s settings' % fmt, SETTINGS, walls(fmt), letters if tier == 'thorough' else ['retract', 'infill', 'layer', 'onlyx', 'end'], walls(fmt), (None, .35, 1.3), (True, False),
                          wrap=lambda t, fmt=fmt: (fmt, t[1:4], t[4], t[0], t[5], False)),
                  product('%s shapes' % fmt, KINDS[fmt], ODD, KINDS[fmt], ODD, (SETTINGS[0], SETTINGS[3], SETTINGS[8]), (False, True),
                          wrap=lambda t, fmt=fmt: (fmt, ((t[0], t[1]), (t[2], t[3]), 'infill'), None, t[4], True, t[5]))]
            if tier == 'thorough':
                r += [seqs('%s deep5' % fmt, few, 5, wrap=mk), seqs('%s blocks3' % fmt, letters, 3, wrap=mk), seqs('%s blocks4' % fmt, letters, 4, wrap=mk)]
        return r

    def show(self, case):
        lines, tags, w = S.build(case[0], case[1], case[2], case[5], case[4])
        return {'format': case[0], 'blocks': [b if isinstance(b, str) else b[0] for b in case[1]], 'width': w, 'settings': case[3],
                'program': lines if len(lines) < 60 else lines[:60] + ['...']}

    def run(self, case, st):
        fmt, blocks, width, settings, header, rele = case
        prog, tags, width = S.build(fmt, blocks, width, rele, header)
        _, out = S.stretch(fmt, prog, settings)
        if len(out) != len(prog):
            raise Violation('%d lines became %d' % (len(prog), len(out)), output=out)
        moved = False
        x = y = 0.
        for i, tag in enumerate(tags):
            a, b = parse(prog[i]), parse(out[i])
            st.transitions += 1
            if not a.is_move:
                continue
            x, y = a.args.get('X', x), a.args.get('Y', y)
            if tag is None:
                if [a.args.get(k) for k in 'XYIJ'] != [b.args.get(k) for k in 'XYIJ']:
                    raise Violation('%r is no wall, and became %r' % (prog[i], out[i]), output=out)
                continue
            most = S.maximum(tag[0], width, settings)
            if b.args.get('X') is None or b.args.get('Y') is None:
                raise Violation('%r became %r' % (prog[i], out[i]), output=out)
            d = abs(complex(b.args['X'] - x, b.args['Y'] - y))
            st.states.add(h((tag[0], round(d, 2), round(most, 4))))
            if d > most + (STEP if most else 1e-9) + 1e-6:
                raise Violation('%r became %r: the %s is moved by %.4f, at most %.4f mm is allowed' % (
                    prog[i], out[i], tag[0], d, most), output=out)
            moved = moved or d > .001
        st.outcomes.add(h(tuple(out)))
        if moved:
            st.nontrivial += 1
