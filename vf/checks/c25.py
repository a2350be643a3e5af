import io
import os
import shutil
import subprocess
import sys

from vf.arcs import Writer, arc_points
from vf.common import text_of
from vf.core import REPO, Check, Violation, h, product
from vf.tools import run_tool, scratch
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.filter.translate import GCodeXYTranslateFilter
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient, GCodeStepTempGradient
from gcodeutils.gcoder import GCode
from gcodeutils.stretch.stretch import CuraStretchFilter, Slic3rStretchFilter
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer


def circle(context, n=20):
    w = Writer(context)
    w.move(z=.3, ratio=None, f=3000, code='G0')
    pts = arc_points(10., 12, n)
    w.move(pts[0][0], pts[0][1], ratio=None)
    for p in pts[1:]:
        w.move(p[0], p[1])
    w.add('; end')
    w.move(z=.6, ratio=None)
    w.move(10, 10)
    return w.lines


SQUARE = [(10, 10), (30, 10), (30, 30), (10, 30), (10, 10)]
# sides of many lengths, so that every distance setting matters
RING = [(20 + x, 20 + y) for x, y in ((0, 0), (.3, -.2), (.7, -.3), (1.2, -.2), (1.8, .2), (2.1, .9), (2, 1.8), (1.2, 2.6), (-.5, 2.7),
                                      (-2, 1.5), (-1.5, .4), (0, 0))]


def slic3r():
    r = ['; external perimeters extrusion width = 0.50mm', 'G90', 'M82', 'G1 Z0.3 F3000', 'G1 X10 Y10 ; move to first perimeter point',
         'G1 E1 ; unretract']
    r += ['G1 X%d Y%d E%d ; perimeter external' % (x, y, i + 2) for i, (x, y) in enumerate(SQUARE[1:])]
    r += ['G1 X15 Y15 ; move to first perimeter point']
    r += ['G1 X%d Y%d E%d ; perimeter' % (x, y, i + 6) for i, (x, y) in enumerate([(25, 15), (25, 25), (15, 25), (15, 15)])]
    r += ['G1 X20 Y20 ; move to first perimeter point']
    r += ['G1 X%g Y%g E%.2f ; perimeter external' % (x, y, 10 + i * .02) for i, (x, y) in enumerate(RING[1:], 1)]
    r += ['G1 X18 Y18 ; move to first perimeter point']
    r += ['G1 X%g Y%g E%.2f ; perimeter' % (x - 2, y - 2, 10.5 + i * .02) for i, (x, y) in enumerate(RING[1:], 1)]
    r += ['G1 X16 Y16 ; move to first infill point', 'G1 X20 Y20 E11 ; infill', 'G1 Z0.6', 'G1 X5 Y5 E12 ; infill']
    r += ['G1 X20 Y20 ; move to first perimeter point']
    r += ['G1 X%g Y%g E%.2f ; perimeter external' % (x, y, 13 + i * .02) for i, (x, y) in enumerate(RING[1:], 1)]
    return r + ['G1 X1 Y1 ; move away']


CURA_PROFILE = None


def cura():
    import base64
    import zlib
    prof = base64.b64encode(zlib.compress(b'layer_height=0.1\x08nozzle_size=0.5\x08\x0calter')).decode()
    r = ['G90', 'M82', ';LAYER:0', 'G0 F9000 X5 Y5 Z0.3', ';TYPE:SKIRT', 'G1 X50 Y5 E1', ';TYPE:WALL-OUTER', 'G1 F1200 X10 Y10 E2']
    r += ['G1 X%d Y%d E%d' % (x, y, i + 3) for i, (x, y) in enumerate(SQUARE[1:])]
    r += ['G0 X20 Y20'] + ['G1 X%g Y%g E%.2f' % (x, y, 7 + i * .02) for i, (x, y) in enumerate(RING[1:], 1)]
    r += [';TYPE:SKIN', 'G0 X20 Y20'] + ['G1 X%g Y%g E%.2f' % (x, y, 7.4 + i * .02) for i, (x, y) in enumerate(RING[1:], 1)]
    r += [';TYPE:WALL-INNER', 'G0 X20 Y20'] + ['G1 X%g Y%g E%.2f' % (x, y, 7.7 + i * .02) for i, (x, y) in enumerate(RING[1:], 1)]
    r += [';TYPE:WALL-INNER', 'G1 X15 Y15 E8', 'G1 X25 Y15 E9', 'G1 X25 Y25 E10', 'G1 X15 Y15 E11', ';TYPE:FILL', 'G1 X20 Y18 E12',
          ';LAYER:1', 'G0 Z0.6', 'G1 X12 Y12 E13', ';CURA_PROFILE_STRING:' + prof]
    return r


PROGRAMS = {
    'empty': [],
    'comments': ['; nothing', '(here)', ';', '()', ';;'],
    'simple': ['G90', 'M82', 'G1 Z0.2 F600', 'G1 X1 Y2 E1.25', 'G1 Z0.4', 'G1 X3.5 E2 ; c', 'G92 E0', 'G1 Z0.6', 'G1 Y4 E1', 'M104 S0'],
    'relative': ['G21', 'G91', 'M83', 'G1 Z0.3', 'G1 X5 Y5 E1', 'G1 Z0.3', 'G1 X-5 E1', 'G28 X', 'G92 Y5', 'G1 Y2 E0.5', 'text here'],
    'inch': ['G20', 'G90', 'M82', 'G28', 'G1 X1 Y1 Z0.1 E0.05', 'G1 X2 E0.1', 'G1 Z0.2', 'G1 Y2 E0.15'],
    'reset': ['G90', 'M82', 'G1 X5 Y5 Z0.3 E2', 'G92', 'G1 X5 E1', 'G1 Z0.3 E2', 'G92 X0 E0', 'G1 X1 Y1 E1'],
    'circle': circle('absolute'),
    'circle, relative': circle('relative'),
    'slic3r': slic3r(),
    'cura': cura(),
}
# programs chosen for what the tools read rather than for what they print
EXTRA = {
    'characters': ['; caf\xe9 \u2019 \U0001f600', 'G90', 'M82', 'G1 Z0.3', 'G1 X1\tY2 E1 ; a\tb', 'M117 50\xb0\tC', '; a\x0bb \x0c c', '; \x85 d \u2028 e',
                   'G1 X2 E2 ; na\xefve', 'G1 Z0.6', 'G1 Y3 E3'],
    'profile first': [PROGRAMS['cura'][-1]] + PROGRAMS['cura'][:-1],
    'odd lines': ['%', ';', 'G90', '()', 'M82', 'G1', 'G1 Z0.2', ';', 'G1 X1 E1', 'T', ';', 'G1 Z0.4', '; ;', 'G1 X2 E2', 'N1 G1 X3 E3*7', '*', '/', ';'],
    'profile inside': PROGRAMS['cura'][:-4] + ['; ' + PROGRAMS['cura'][-1][1:]] + PROGRAMS['cura'][-4:-1] + ['G1 Z1 F600', 'G1 X3 Y3 E14', 'G1 Z2'],
    'far': ['G90', 'M82', 'G1 Z0.2 F600'] + [l for k in range(1, 9) for l in ('G1 X%d Y%d E%d' % (k * 500, -k * 300, k * 1000), 'G1 Z%g' % (k * 20))],
    'tower': ['G90', 'M83'] + [l for k in range(1, 61) for l in ('G1 Z%g' % (k / 5.), 'G1 X%d E1' % (k % 7), 'G1 Y%d E1' % (k % 3))],
}
EVERY = dict(PROGRAMS, **EXTRA)
# lines of the generated programs, which begin by choosing their modes
LINES = ['G1 X1 Y2 E1.25', 'G1 X-3.5 E2 F600', 'G1 Z0.6', 'G1 Y4 Z0.9 E3', 'G92 X2 Y1', 'G92 E0', 'G92', 'G28', 'G28 X', 'G20', 'G21', 'G1 E-1 ; c',
         'M82', 'M83', '; text', ';', 'G2 X3 Y3 I1 J0 E4', 'M104 S200']
HEADERS = [('G90', 'M82'), ('G91', 'M83'), ('G90', 'M83'), ('G91', 'M82')]
COMBINED = [(10.0, None, 1, None), (0.25, -3.5, 2, 0), (None, 7.0, 0, 1), (-1.0, 2.0, 1, 1), (None, None, 1, 0)]
# how the text of the program is stored
ENDS = {'plain': lambda p: ''.join(l + '\n' for l in p), 'no last end': lambda p: '\n'.join(p),
        'blank lines': lambda p: '\n' + ''.join('  ' + l + ' \n\n' for l in p)}
FORMS = ['stdin, stdout', 'file, stdout', 'file, file', '-, stdout', '-, file', 'file, -']
VERBOSITY = [[], ['-q', '-q'], ['-v'], ['-v', '-q']]
MORE_VERBOSITY = [['--verbose'], ['--quiet'], ['-vvv'], ['-qqq'], ['-q', '-q', '-q', '-q', '-v'], ['-v', '--verbose', '-v', '-v', '--quiet']]
AMOUNTS = [1000.0, -750.5, 0.001, 3.14159, -0.0, 12345.678]


def compose_mod(lines, o):
    x, y, e, p = o
    for step in ('xy', 'e', 'p'):
        g = GCode(list(lines))
        if step == 'xy' and (x is not None or y is not None):
            GCodeXYTranslateFilter(x=x, y=y).filter(g)
        elif step == 'e' and e:
            GCodeToRelativeExtrusionFilter().filter(g)
        elif step == 'p' and p is not None:
            GCodeIterator(g).accept(PauseAtLayer([p]))
        lines = text_of(g)
    return lines


def mod_args(o):
    x, y, e, p = o
    r = []
    if x is not None:
        r += ['-x', x]
    if y is not None:
        r += ['-y', y]
    return r + (['-e'] * e if e < 3 else ['-' + 'e' * e]) + ([] if p is None else ['-p', p])


def mod_runs(o):
    """the same as separate runs"""
    x, y, e, p = o
    r = []
    if x is not None or y is not None:
        r.append(mod_args((x, y, 0, None)))
    if e:
        r.append(['-e'])
    if p is not None:
        r.append(['-p', p])
    return r


STRETCH = ['cross_limit_distance_over_edge_width', 'loop_stretch_over_edge_width', 'edge_inside_stretch_over_edge_width',
           'edge_outside_stretch_over_edge_width', 'stretch_from_distance_over_edge_width', 'stretch_strength']
STRETCH_OPTIONS = [{}] + [{k: v} for k in STRETCH for v in (.5, 1.5)] + [dict(stretch_strength=0.), {k: .3 for k in STRETCH},
                                                                         dict(loop_stretch_over_edge_width=.5,
                                                                              stretch_strength=2.)]
MORE_STRETCH = [dict(stretch_strength=-1.), dict(stretch_strength=25.), dict(loop_stretch_over_edge_width=-.5), {k: -.25 for k in STRETCH[1:4]},
                dict(cross_limit_distance_over_edge_width=100.), dict(stretch_from_distance_over_edge_width=40.), {k: 0. for k in STRETCH[1:4]}]
TEMPS = [(c, s, z, t) for c in (False, True) for s in (None, 2, 5) for z in (None, 0.3, 0.0, 4) for t in ((200, 180), (180, 190))]


MORE_TEMPS = [(c, s, z, t) for c in (False, True) for s in (1, 45, 200) for z in (-1.0, 0.25, 1.5) for t in ((150, 250), (240, 60), (0, 300))]


def compose_stretch(lines, o):
    g = GCode(list(lines))
    GCodeToRelativeExtrusionFilter().filter(g)
    cls = CuraStretchFilter if any('CURA_PROFILE_STRING' in l for l in lines) else Slic3rStretchFilter
    cls(**o).filter(g)
    return text_of(g)


def compose_tempcal(lines, o):
    c, s, z, t = o
    out = io.StringIO()
    cls = GCodeContinuousTempGradient if c else GCodeStepTempGradient
    cls(gcode=GCode(list(lines)), start_temp=t[0], end_temp=t[1], min_z_change=.1 if z is None else z,
        steps=10 if s is None else s).write(out)
    return [l for l in out.getvalue().split('\n')[:-1] if l]


def compose_arcs(lines, o):
    g = GCode(list(lines))
    GCodeArcOptimizerFilter().filter(g)
    return text_of(g)


def temp_args(o):
    c, s, z, t = o
    return (['-c'] if c else []) + ([] if s is None else ['-s', s]) + ([] if z is None else ['-z', z])


TOOLS = {'gcode_mod': (compose_mod, mod_args), 'gcode_optimize_arcs': (compose_arcs, lambda o: []),
         'gcode_stretch': (compose_stretch, lambda o: [w for k in sorted(o) for w in ('--' + k, o[k])]),
         'gcode_tempcal': (compose_tempcal, temp_args)}


class CHECK(Check):
    id = 'C25'
    rule = ('every option combination of every tool, on every program of the family, in every I/O form, line-end style and '
            'verbosity; the output is compared with the modifications applied through the library and, for gcode_mod, with '
            'separate runs; non-trivial: the output differs from the input')
    assumptions = ['the reference applies the modifications through the filter and visitor classes, which the other checks '
                   'verify', 'entry points run in one process, on scratch files']

    def spaces(self, tier):
        t = tier == 'thorough'
        progs = list(EVERY)
        mods = [(x, y, e, p) for x in (None, 10.0, -2.5) for y in (None, 0.0, 3.25) for e in (0, 1, 2) for p in (None, 0, 1, 7)]
        r = [product('gcode_mod', ['gcode_mod'], mods, progs, FORMS[:3] if not t else FORMS, ['plain'], VERBOSITY[:1],
                     ),
             product('gcode_mod forms', ['gcode_mod'], mods[::7], progs, FORMS, list(ENDS), VERBOSITY),
             product('gcode_optimize_arcs', ['gcode_optimize_arcs'], [None], progs, FORMS + ['in place'], list(ENDS), VERBOSITY),
             product('gcode_stretch', ['gcode_stretch'], STRETCH_OPTIONS, progs, FORMS, ['plain'], VERBOSITY[:1]),
             product('gcode_stretch forms', ['gcode_stretch'], STRETCH_OPTIONS[:1], progs, FORMS, list(ENDS), VERBOSITY),
             product('gcode_tempcal', ['gcode_tempcal'], TEMPS, progs, FORMS, ['plain'], VERBOSITY[:1]),
             product('gcode_mod amounts', ['gcode_mod'], [(x, y, 0, None) for x in [None, 1.5] + AMOUNTS for y in [None, -2.] + AMOUNTS],
                     progs, FORMS[:2], ['plain'], VERBOSITY[:1]),
             product('gcode_mod layers', ['gcode_mod'], [(None, 1., e, p) for e in (0, 3, 4) for p in (-1, 2, 3, 8, 30, 59, 60, 10 ** 6)],
                     progs, FORMS[:2], ['plain'], VERBOSITY[:1]),
             product('gcode_tempcal values', ['gcode_tempcal'], MORE_TEMPS, ['simple', 'relative', 'tower', 'far', 'characters'], FORMS[:2],
                     ['plain'], VERBOSITY[:1]),
             product('gcode_stretch values', ['gcode_stretch'], MORE_STRETCH, [p for p in progs if p[:4] not in ('circ', 'empt')], FORMS[:2],
                     ['plain'], VERBOSITY[:1]),
             product('verbosity', sorted(TOOLS), [0, 1], progs, FORMS[:3], ['plain'], MORE_VERBOSITY,
                     wrap=lambda c: (c[0], self.some(c[0])[c[1]]) + c[2:]),
             product('quiet values', ['gcode_stretch'], STRETCH_OPTIONS + MORE_STRETCH, ['slic3r', 'cura'], FORMS[1:2], ['plain'], VERBOSITY[1:2] + MORE_VERBOSITY[2:4]),
             product('quiet amounts', ['gcode_mod'], mods[5::9], ['reset', 'simple'], FORMS[1:2], ['plain'], VERBOSITY[1:2] + MORE_VERBOSITY[2:4]),
             product('existing output', sorted(TOOLS), [0, 1], progs, ['file, existing file', '-, existing file'], list(ENDS), VERBOSITY[:1],
                     wrap=lambda c: (c[0], self.some(c[0])[c[1]]) + c[2:]),
             product('in place forms', ['gcode_optimize_arcs'], [None], progs, ['in place long', 'in place, stdin', 'in place, -'], list(ENDS),
                     VERBOSITY[:2]),
             product('gcode_tempcal forms', ['gcode_tempcal'], TEMPS[:1], progs, FORMS, list(ENDS), VERBOSITY)]
        if t:
            r.append(product('gcode_mod all', ['gcode_mod'], mods, progs, FORMS, list(ENDS), VERBOSITY))
            r.append(product('gcode_stretch all', ['gcode_stretch'], STRETCH_OPTIONS, progs, FORMS, list(ENDS), VERBOSITY))
            r.append(product('gcode_tempcal all', ['gcode_tempcal'], TEMPS, progs, FORMS, list(ENDS), VERBOSITY))
        for n in (1, 2, 3) if t else (1, 2):
            r.append(product('gcode_mod on programs%d' % n, COMBINED, HEADERS, *([LINES] * n), wrap=lambda c: (
                'gcode_mod', c[0], c[1] + ('G1 Z0.3', 'G1 X1 Y1 E1') + c[2:], 'stdin, stdout', 'plain', [])))
            r.append(product('gcode_mod on layers%d' % n, COMBINED, HEADERS, *([LINES] * n), wrap=lambda c: (
                'gcode_mod', c[0], c[1] + c[2:] + ('G1 X5 Y5 Z0.3 E5', 'G1 Z1.2', 'G1 X1 E7'), 'stdin, stdout', 'plain', [])))
        names = ['empty', 'simple', 'circle', 'slic3r', 'cura']
        r.append(product('processes', list(TOOLS), [0, 1], names, ['process, stdout', 'process, file'], ['plain'], [[], ['-v']],
                         wrap=lambda c: (c[0], self.some(c[0])[c[1]]) + c[2:]))
        return r

    @staticmethod
    def some(tool):
        return {'gcode_mod': [(10.0, None, 1, 0), (None, None, 0, None)], 'gcode_optimize_arcs': [None, None],
                'gcode_stretch': STRETCH_OPTIONS[:2], 'gcode_tempcal': TEMPS[:2]}[tool]

    @staticmethod
    def execute(tool, args, form, text, logs=True):
        """output text of the tool, error"""
        d = scratch('vf25')
        try:
            src, dst = os.path.join(d, 'in.gcode'), os.path.join(d, 'out.gcode')
            with open(src, 'w') as f:
                f.write(text)
            place = form in ('in place', 'in place long')
            stdin = '' if form.startswith('file') or place else text
            if form.endswith('existing file'):
                with open(dst, 'w') as f:
                    f.write('G1 X9 ; of another program\n' * 200)
                form = form.replace('existing ', '')
            if form.startswith('process'):
                cmd = [sys.executable, '-W', 'ignore', '-m', 'gcodeutils.' + tool] + [str(a) for a in args]
                if form.endswith('file'):
                    cmd += [src, dst]
                p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60,
                                   universal_newlines=True, cwd=d, env=dict(os.environ, PYTHONPATH=REPO))
                out, error = p.stdout, None if p.returncode == 0 else RuntimeError('exit status %d' % p.returncode)
                if form.endswith('file') and error is None:
                    if out:
                        raise Violation('%s also writes %r on standard output' % (tool, out[:200]))
                    with open(dst) as f:
                        out = f.read()
                return out, error
            if place:
                args = args + ['-i' if form == 'in place' else '--inplace', src]
            elif form == 'in place, stdin':
                args = args + ['-i']        # there is no file to change: as without the option
            elif form == 'in place, -':
                args = ['-i', '-'] + args
            elif form == 'stdin, stdout':
                pass
            else:
                a, b = form.split(', ')
                args = args + ['-' if a == '-' else src] + ([] if b == 'stdout' else ['-' if b == '-' else dst])
            out, error = run_tool(tool, args, stdin, logs)
            if place or form.endswith(', file'):
                if out:
                    raise Violation('%s also writes %r on standard output' % (tool, out[:200]))
                dst = src if place else dst
                if not os.path.exists(dst):
                    return '', error or RuntimeError('no output file')
                with open(dst) as f:
                    out = f.read()
            if not place:
                with open(src) as f:
                    if f.read() != text:
                        raise Violation('%s changes its input file' % tool)
            return out, error
        finally:
            shutil.rmtree(d, True)

    def run(self, case, st):
        tool, o, name, form, ends, verb = case
        lines = EVERY[name] if isinstance(name, str) else list(name)
        compose, to_args = TOOLS[tool]
        text = ENDS[ends](lines)
        try:
            expected, failure = compose(lines, o), None
        except Exception as e:
            expected, failure = [], e
        out, error = self.execute(tool, to_args(o) + verb + (list(o[3]) if tool == 'gcode_tempcal' else []), form, text)
        st.transitions += 1
        if failure is not None:
            if error is None or out:
                raise Violation('%s does not reject the program' % tool, output=out)
            st.outcomes.add(h(type(error).__name__))
            return
        if error is not None:
            raise Violation('%s fails: %r' % (tool, error), args=to_args(o))
        got = [l for l in out.split('\n') if l] if tool == 'gcode_tempcal' else out.split('\n')[:-1]
        if got != expected or out and not out.endswith('\n'):
            raise Violation('%s writes something else' % tool, output=got, expected=expected)
        if tool == 'gcode_mod':
            if form == 'stdin, stdout' and ends == 'plain':
                # one modification at a time
                t = text
                for args in mod_runs(o):
                    t, error = run_tool(tool, args, t)
                    if error is not None:
                        raise Violation('gcode_mod fails: %r' % error, args=args)
                    st.transitions += 1
                if t != out:
                    raise Violation('separate runs give another program', output=out, separate=t)
            if o == (None, None, 0, None) and got != lines:
                raise Violation('the program is changed without any option', output=out)
        st.states.add(h((tool, o, name)))
        st.outcomes.add(h(out))
        if got != lines:
            st.nontrivial += 1
