import io
import sys

from vf import stretching as S
from vf.checks.c20 import COMMON, ODD, SETTINGS, TRIANGLE, walls
from vf.core import Check, Violation, h, product, seqs
from vf.machine import Machine, parse
from vf.tools import run_tool

# single lines: markers of each format, moves with every kind of argument, everything else
MOVES = ['G1 X1 Y2 E.5 F600', 'G1 X3', 'G1 Y5.5 E1', 'G1 E-1 F1800', 'G1 Z0.4', 'G0 X0 Y0 F9000', 'G1 X4 Y4 Z0.4 E2 S1 ; c', 'G1 F300',
         'G2 X1 Y1 I1 J0 E1', 'G91', 'G90', 'G92 E0', 'G92 X1 Y1', 'G20', 'M104 S200', 'G28 X', '; c', 'M83', 'M82', 'G92']
SLIC3R = ['G1 X1 Y1 F7800 ; move to first perimeter point', 'G1 X2 Y1 E.1 ; perimeter', 'G1 X2 Y2 E.2 ; perimeter external',
          'G1 X1.5 E.3 ; perimeter', 'G1 E.1 ; unretract', '; external perimeters extrusion width = 0.50mm', 'G1 Y3 E.5 ; perimeter external (a)',
          'G1 F900 ; perimeter', 'G1 E1 ; perimeter external', 'G1 X2 Y2 E.2 ; infill', 'G1 X1 Y1 ; perimeter', '; perimeter', 'G1 X5 Y5 F7800 ; perimeter P3', 'G1 X0 Y0 Z0 E0 ; perimeter external']
CURA = [';TYPE:WALL-OUTER', ';TYPE:WALL-INNER', ';TYPE:SKIN', ';TYPE:FILL', ';LAYER:1', 'G1 X1 Y1 E.1', 'G1 F1200 X2 Y1 E.3',
        'G0 F9000 X5 Y5', 'G0 X5 Y6 Z0.9', 'G1 F2400 E-1', ';CURA_PROFILE_STRING:' + S.profile([('nozzle_size', '0.5')]), ';CURA_PROFILE_STRING:' + S.profile([]), 'G1 X1.25', 'G1 X0 Y0 Z0 E0']
SKEIN = ['(<edge> outer )', '(<edge> inner )', '(<loop> outer )', '(</edge>)', '(</loop>)', 'M101', 'M103', 'G1 X1 Y1 Z0.2 F960', 'G1 X2 Y1 Z0.2 F384',
         'G1 X2 Y2.5', '(<edgeWidth> 0.6 </edgeWidth>)', 'G1 X1 Y1 Z0.6 F960', 'G1 X1', 'G1 X0 Y0 Z0 E0']
LINES = {'slic3r': SLIC3R, 'cura': CURA, 'skeinforge': SKEIN}
WIDTHS = {'slic3r': .5, 'cura': .5, 'skeinforge': .6}


class CHECK(Check):
    id = 'C21'
    rule = ('every sequence of the stated length of marker comments, moves with every kind of argument and other commands in each '
            'format, every sequence of blocks, and the command line; original (made relative in extrusion) and stretched program '
            'are executed side by side. Non-trivial: a point is moved')
    assumptions = ['extrusion relative, as the command line makes it first', 'coordinates rounded to 1 micron, extrusion to 5 decimals',
                   'marker comments of the tool may follow the comment of a line']

    def spaces(self, tier):
        r = []
        for fmt in ('slic3r', 'cura', 'skeinforge'):
            al = LINES[fmt]
            pre = ['(<edgeWidth> 0.6 </edgeWidth>)', 'M82'] if fmt == 'skeinforge' else ['M82']
            mk = lambda p, fmt=fmt: ('lines', fmt, tuple(p), ())
            for n in (1, 2, 3, 4):
                r.append(seqs('%s lines%d' % (fmt, n), al, n, prefix=pre, wrap=mk))
                if fmt == 'skeinforge':
                    r.append(seqs('%s no width%d' % (fmt, n), al, n, wrap=mk))
            # a wall, something in the middle, the rest of the wall
            parts = {'slic3r': (al[0:2], al[1:3]), 'cura': ([al[0], al[5], al[6]], [al[11], al[5]]),
                     'skeinforge': ([al[0], al[7], al[5], al[8]], [al[9], al[8], al[6], al[3]])}[fmt]
            r += [seqs('%s middle%d' % (fmt, n), MOVES + al[3:8] + al[-1:], n, prefix=pre + list(parts[0]), suffix=parts[1] + ['G1 X9 Y9 E9'], wrap=mk)
                  for n in (1, 2)]
            r.append(seqs('%s modes' % fmt, ['G91', 'G90', 'G92 X1 Y1', 'G20', 'G92', 'G28', 'G92 X-5', 'M82', 'M83', 'G1 X3', 'G92 X0 Y0', 'G28 Y0'], 3,
                          prefix=pre, suffix=list(parts[0]) + list(parts[1]), wrap=mk))
            bare = {'slic3r': ['G1 X1 ; move to first perimeter point', 'G1 X2 E.1 ; perimeter', 'G1 X1 E.3 ; perimeter', 'G1 Y2 E.2 ; perimeter'],
                    'cura': [';TYPE:WALL-OUTER', 'G1 X1 E.1', 'G1 X2 E.1', 'G1 Y3 E.1', 'G1 X1 E1'],
                    'skeinforge': ['(<edge> outer )', 'G1 X1', 'M101', 'G1 X2', 'G1 Y3', 'G1 X1', 'M103', '(</edge>)']}[fmt]
            axis = ['G91', 'G90', 'G92 X1 Y1', 'G20', 'G92', 'G28', 'G28 X0', 'G28 Y', 'G92 Y0', 'G92 X0', 'G1 X3 Y7', 'G92 Y-5', 'G1 Y2', 'G92 Z3',
                    'G92 E1 Z0', 'G1 X-2.5', 'G0 Z2']
            r += [seqs('%s modes, one axis' % fmt, axis, 3, prefix=pre, suffix=bare, wrap=mk),
                  seqs('%s modes elsewhere' % fmt, axis, 3, prefix=pre + ['G1 X5 Y3'], suffix=bare, wrap=mk),
                  seqs('%s modes inside' % fmt, axis, 3, prefix=pre + ['G1 X5 Y3'] + bare[:-2], suffix=bare[-2:], wrap=mk)]
            common = [c for c in COMMON if not (fmt == 'cura' and c in ('open', 'small'))]
            few = ['retract', 'infill', 'layer', 'lift', 'inwards', 'onlyx', 'renumber', 'wordy'] + walls(fmt)
            r += [seqs('%s blocks' % fmt, common + walls(fmt), 2, wrap=lambda p, fmt=fmt: ('blocks', fmt, tuple(p), SETTINGS[3])),
                  product('%s settings' % fmt, SETTINGS, ODD, few, wrap=lambda t, fmt=fmt: (
                      'blocks', fmt, (('loop', t[1]), t[2], walls(fmt)[0]), t[0])),
                  ]
            if fmt != 'skeinforge':
                r.append(seqs('%s command line' % fmt, few, 2, wrap=lambda p, fmt=fmt: ('tool', fmt, tuple(p), (('strength', 2.),))))
            if tier == 'thorough':
                r += [seqs('%s lines5' % fmt, al, 5, prefix=pre, wrap=mk),
                      seqs('%s blocks3' % fmt, common + walls(fmt), 3, wrap=lambda p, fmt=fmt: ('blocks', fmt, tuple(p), SETTINGS[3])),
                      seqs('%s middle3' % fmt, MOVES + al[3:8] + al[-1:], 3, prefix=pre + list(parts[0]), suffix=parts[1] + ['G1 X9 Y9 E9'], wrap=mk)]
        return r

    def show(self, case):
        prog = list(case[2]) if case[0] == 'lines' else S.build(case[1], case[2])[0]
        return {'format': case[1], 'how': case[0], 'settings': case[3], 'program': prog if len(prog) < 80 else prog[:80] + ['...']}

    def run(self, case, st):
        how, fmt, what, settings = case
        if how == 'lines':
            prog, width = list(what), WIDTHS[fmt] if fmt != 'skeinforge' else .6
        else:
            prog, _, width = S.build(fmt, what)
        width = max(width, .4)
        saved, sys.stdout = sys.stdout, io.StringIO()
        try:
            rel, out = S.stretch(fmt, prog, settings)
            printed = sys.stdout.getvalue()
        finally:
            sys.stdout = saved
        if printed:
            raise Violation('%r is printed' % printed[:200], program=prog)
        if how == 'tool':
            text, error = run_tool('gcode_stretch', ['--stretch_strength', 2], '\n'.join(prog) + '\n', logs=True)
            if error is not None:
                raise Violation('the command line fails: %r' % error, program=prog)
            if text.split('\n')[:-1] != out:
                raise Violation('the command line writes another program than the filter', program=prog, output=text.split('\n')[:-1],
                                wanted=out)
        if len(out) != len(rel):
            raise Violation('%d lines became %d' % (len(rel), len(out)), program=rel, output=out)
        most = max(S.maximum(k, width, settings) for k in ('loop', 'inner', 'outer'))
        m, t = Machine(g90_selects_e=False), Machine(g90_selects_e=False)
        moved = 0.
        noise = 0.
        for i, (l, o) in enumerate(zip(rel, out)):
            a, b = parse(l), parse(o)
            unit = m.unit
            da, db = m.step(a), t.step(b)
            st.transitions += 1
            if a.code != b.code:
                raise Violation('%r became %r' % (l, o), program=rel, output=out)
            if not b.comment.replace(' ', '').startswith(a.comment.replace(' ', '')):
                raise Violation('comment of %r became that of %r' % (l, o), program=rel, output=out)
            if b.comment != a.comment and 'stretch-' not in b.comment and b.comment.replace(' ', '') != a.comment.replace(' ', ''):
                raise Violation('comment of %r became that of %r' % (l, o), program=rel, output=out)
            if not a.is_move and a.args != b.args:
                raise Violation('%r became %r' % (l, o), program=rel, output=out)
            if a.is_move:
                noise += .00051 * 1.4143
                ka = {k: v for k, v in a.args.items() if k not in 'XYE'}
                kb = {k: v for k, v in b.args.items() if k not in 'XYE'}
                if set(ka) != set(kb) or any(abs(ka[k] - kb[k]) > .00051 for k in ka if ka[k] is not None):
                    raise Violation('%r became %r' % (l, o), program=rel, output=out)
                if a.code in ('G2', 'G3') and any(a.args.get(k) != b.args.get(k) for k in 'XYE') or \
                        ('X' in a.args or 'Y' in a.args) < ('X' in b.args or 'Y' in b.args):
                    raise Violation('%r became %r' % (l, o), program=rel, output=out)
                # in the coordinates of the program, which a G92 may set anew while the head is displaced
                d = abs(complex(t.x - t.ox - m.x + m.ox, t.y - t.oy - m.y + m.oy))
                if d > most + noise + 1e-6:
                    raise Violation('%r became %r, and the head goes %.4f mm away, at most %.4f is allowed' % (l, o, d, most),
                                    program=rel, output=out)
                moved = max(moved, d)
                if (da is None) != (db is None):
                    raise Violation('%r became %r' % (l, o), program=rel, output=out)
                if da is not None and m.rele:
                    # the displacement of this very point, should the head come from a displaced one
                    lo, hi = sorted((da, da * (1 - (most if d > 1e-9 else 0.) - noise)))
                    lo2, hi2 = sorted((da, da * (1 - d - .002)))
                    if a.args.get('X') is not None and a.args.get('Y') is not None and not m.rel:
                        lo, hi = lo2, hi2
                    if not lo - 2e-5 * unit <= db <= hi + 2e-5 * unit:
                        raise Violation('%r became %r, feeding %r instead of %r, for a point moved by %.4f' % (l, o, db, da, d),
                                        program=rel, output=out)
            if abs(m.f - t.f) > .00051 * 25.4 or abs(m.z - t.z) > noise + 1e-6 or (m.rel, m.rele, m.unit, m.tool) != (t.rel, t.rele, t.unit,
                                                                                                                   t.tool):
                raise Violation('feed rate, height or mode differ after %r became %r' % (l, o), program=rel, output=out)
            st.states.add(h((m.key(), round(t.x - m.x, 2), round(t.y - m.y, 2))))
        st.outcomes.add(h(tuple(out)))
        if moved > .001:
            st.nontrivial += 1
