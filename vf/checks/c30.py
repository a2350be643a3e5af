import io
import itertools
import os
import pickle

from vf.checks.c25 import PROGRAMS
from vf.common import text_of
from vf.core import Check, Violation, h, product
from vf.stretching import build, closed, SHAPES
from vf.tempcal import program as tower
from vf.tools import run_tool
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.filter.translate import GCodeXYTranslateFilter
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient, GCodeStepTempGradient
from gcodeutils.gcoder import GCode, LightGCode
from gcodeutils.stretch.stretch import CuraStretchFilter, SkeinforgeStretchFilter, Slic3rStretchFilter
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer

TRI = closed(SHAPES['12-gon'], 0, False, 50 + 60j)
FAMILY = dict(PROGRAMS, **{
    'skeinforge': build('skeinforge', (('outer', TRI), 'infill', ('inner', TRI)))[0],
    'cura wide': build('cura', (('outer', TRI), 'infill', ('inner', TRI)), .9)[0],
    'slic3r wide': build('slic3r', (('ext', TRI), 'infill', ('loop', TRI)), .9)[0],
    'unfinished wall': PROGRAMS['cura'][:10] + PROGRAMS['cura'][-1:],
    'unfinished slic3r': PROGRAMS['slic3r'][:7],
    'unfinished arc': PROGRAMS['circle'][:15],
    'broken cura': PROGRAMS['cura'][:-1] + [';CURA_PROFILE_STRING:eNo='],
    'homing': ['G90', 'G1 X5 Y6 Z2 F600', 'G28 Y0', 'G1 X9 E3', 'G92 X0 Y0', 'G28', 'G1 X1 Z.3', 'G28 X0 Z0', 'G1 Y2 E4'],
    'tower': tower([0, 1, 2, 3, 4]),
    'tower 2': ['G90', 'M83', 'G1 Z0.5', 'G1 X3 E1', 'G1 Z5', 'G1 X7 E1', 'G1 Z9 F900', 'G1 X3 Y8 E2', 'G28'],
    'odd modes': ['G91', 'G20', 'M83', 'T1', 'G1 X1 Y1 Z1 E1 F100', 'G92 X5 E3'],
})
FIGURES = ['filament_length', 'xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax', 'width', 'depth', 'height', 'duration', 'layers_count']


def figures(g):
    return [repr(getattr(g, k)) for k in FIGURES] + [(l.z, round(l.duration, 6), len(l)) for l in g.all_layers] + [
        (l.raw, l.command, l.x, l.y, l.z, l.e, l.f, getattr(l, 'current_x', None), getattr(l, 'current_y', None)) for l in g.lines]


# pipelines: generators which yield between their steps and lastly their result

def analyse(prog, cls=GCode):
    g = cls(list(prog))
    yield
    r = figures(g) if cls is GCode else [repr(getattr(g, k)) for k in FIGURES] + text_of(g)
    yield
    yield r


def light(prog):
    return analyse(prog, LightGCode)


def feed(prog):
    g = GCode(list(prog[:2]))
    yield
    for l in prog[2:len(prog) // 2]:
        g.append(l)
    yield
    for l in prog[len(prog) // 2:]:
        g.append(l)
    yield figures(g)


def homed(prog):
    # the list itself is given, which has to stay as it is
    g = GCode(prog, home_pos=(7., -3., 1.5))
    yield
    g.append('G28 X0')
    yield figures(g) + [g.current_pos, g.home_pos, prog]


def watched(prog):
    events = []
    g = GCode(deferred=True)
    yield
    g.prepare(prog, layer_callback=lambda g, k: events.append(k), line_callback=lambda l: events.append(l.raw))
    yield
    yield events + figures(g)


def filtered(make, first=None):
    def pipeline(prog):
        g = GCode(list(prog))
        yield
        f = make()
        yield
        if first:
            first().filter(g)
        f.filter(g)
        yield
        yield text_of(g)
    return pipeline


def pause(prog):
    g = GCode(list(prog))
    v = PauseAtLayer([0, 2])
    yield
    GCodeIterator(g).accept(v)
    yield
    yield text_of(g)


def gradient(cls, **kw):
    def pipeline(prog):
        g = GCode(list(prog))
        yield
        try:
            t = cls(gcode=g, **kw)
            yield
            out = io.StringIO()
            t.write(out)
        except Exception as e:
            yield 'rejected: %s' % type(e).__name__
            return
        yield out.getvalue()
    return pipeline


def edit(prog):
    g = GCode(list(prog))
    yield
    g.prepend_to_layer(['M1 ; a', 'G1 X3'], 0) if len(g.all_layers) else None
    yield
    if len(g.all_layers) > 1:
        g.rewrite_layer(['M2', 'M3'], 1)
    yield text_of(g)


def compare(prog):
    a = GCode(list(prog))
    yield
    b = GCode(list(prog[:-1]) + ['G1 X777'])
    yield
    yield a == b, a != b, a.diff(b), a == GCode(list(prog)), a.diff(a)


def tool(name, argv):
    def pipeline(prog):
        yield
        out, error = run_tool(name, argv, ''.join(l + '\n' for l in prog))
        yield
        yield out, type(error).__name__
    return pipeline


PIPELINES = {
    'analyse': analyse, 'light': light, 'feed': feed, 'edit': edit, 'homed': homed, 'watched': watched, 'compare': compare, 'pause': pause,
    'translate': filtered(lambda: GCodeXYTranslateFilter(x=3., y=-4.5)), 'translate x': filtered(lambda: GCodeXYTranslateFilter(x=10.)),
    'relative': filtered(GCodeToRelativeExtrusionFilter), 'arcs': filtered(GCodeArcOptimizerFilter),
    'slic3r': filtered(Slic3rStretchFilter, GCodeToRelativeExtrusionFilter),
    'slic3r 2': filtered(lambda: Slic3rStretchFilter(stretch_strength=2., edge_outside_stretch_over_edge_width=.3),
                         GCodeToRelativeExtrusionFilter),
    'cura': filtered(CuraStretchFilter, GCodeToRelativeExtrusionFilter),
    'cura 2': filtered(lambda: CuraStretchFilter(stretch_strength=.5, cross_limit_distance_over_edge_width=2.), GCodeToRelativeExtrusionFilter),
    'skeinforge': filtered(SkeinforgeStretchFilter),
    'gradient': gradient(GCodeStepTempGradient, start_temp=210, end_temp=180, min_z_change=.1, steps=3),
    'continuous': gradient(GCodeContinuousTempGradient, start_temp=180, end_temp=240, min_z_change=.25, steps=10),
    'mod': tool('gcode_mod', ['-x', '3', '-e', '-p', '0']), 'arc tool': tool('gcode_optimize_arcs', []),
    'stretch tool': tool('gcode_stretch', ['--stretch_strength', '3']), 'stretch tool 1': tool('gcode_stretch', []),
    'temp tool': tool('gcode_tempcal', ['-c', '200', '180']), 'temp tool s': tool('gcode_tempcal', ['220', '190']),
}
# each pipeline with the programs that make it work most
WORK = {'analyse': ['odd modes', 'relative'], 'light': ['inch'], 'feed': ['reset', 'odd modes'], 'homed': ['homing'], 'watched': ['odd modes'], 'edit': ['simple', 'tower'],
        'compare': ['simple'], 'pause': ['tower', 'simple'], 'translate': ['relative', 'reset'], 'translate x': ['reset'],
        'relative': ['reset', 'odd modes'], 'arcs': ['circle', 'unfinished arc'], 'slic3r': ['slic3r', 'slic3r wide', 'unfinished slic3r'],
        'slic3r 2': ['slic3r'], 'cura': ['cura', 'cura wide', 'unfinished wall', 'broken cura'], 'cura 2': ['cura'], 'skeinforge': ['skeinforge'],
        'gradient': ['tower', 'tower 2'], 'continuous': ['tower'], 'mod': ['simple'], 'arc tool': ['circle, relative'],
        'stretch tool': ['slic3r'], 'stretch tool 1': ['cura'], 'temp tool': ['tower'], 'temp tool s': ['tower 2']}
ITEMS = [(p, n) for p in PIPELINES for n in WORK[p]]
ALL = [(p, n) for p in PIPELINES for n in FAMILY]


def schedules(a, b):
    """All interleavings of a steps of the first and b of the second"""
    for c in itertools.combinations(range(a + b), a):
        yield ''.join('A' if i in c else 'B' for i in range(a + b))


def step(gen):
    """(finished, result); a failure is a result"""
    try:
        r = next(gen)
    except StopIteration:
        return True, None
    except Exception as e:
        return True, 'failure: %s' % type(e).__name__
    return r is not None, r


def start(item):
    return PIPELINES[item[0]](FAMILY[item[1]])


def alone(item):
    """(number of steps, result)"""
    g, n = start(item), 0
    while 1:
        n += 1
        done, r = step(g)
        if done:
            return n, r


def together(a, b, order):
    gens = {'A': start(a), 'B': start(b)}
    out = {}
    for who in order:
        if who not in out:
            done, r = step(gens[who])
            if done:
                out[who] = r
    for who in 'AB':        # another number of steps than alone
        while who not in out:
            done, r = step(gens[who])
            if done:
                out[who] = r
    return out['A'], out['B']


def in_child(f, *args):
    """f(*args) computed in a new process, where nothing was processed before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f(*args))
            with os.fdopen(w, 'wb') as out:
                out.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('a run fails in a new process')
    return pickle.loads(data)


_alone = {}


def baseline(item):
    if item not in _alone:
        _alone[item] = in_child(alone, item)
    return _alone[item]


def explore(a, b, orders):
    """First schedule giving another result, in a process where nothing else ran before each pair of orders"""
    return [together(a, b, o) for o in orders]


def repeated(items):
    """results of runs one after another in this process"""
    return [alone(i)[1] for i in items]


class CHECK(Check):
    id = 'C30'
    rule = ('every ordered pair of runs (a pipeline on a program), each schedule of their steps in one process, the results compared '
            'with those of each run alone in a new process; also three runs after one another, and runs repeated many times. Non-trivial: the two runs are different')
    assumptions = ['steps: parsing, building the filter, filtering, writing (or halves of the lines fed)', 'each run uses its own objects']

    def spaces(self, tier):
        few = [i for i in ITEMS if i[0] not in ('temp tool s', 'cura 2', 'slic3r 2', 'translate x', 'light')]
        r = [product('sequential', ITEMS, ITEMS, wrap=lambda t: (t[0], t[1], 'sequential')),
             product('same program', sorted(FAMILY), sorted(PIPELINES), sorted(PIPELINES),
                     wrap=lambda t: ((t[1], t[0]), (t[2], t[0]), 'sequential')),
             product('interleaved', few, few, wrap=lambda t: (t[0], t[1], 'all'))]
        main = [ITEMS[k] for k in range(len(ITEMS)) if k == 0 or ITEMS[k][0] != ITEMS[k - 1][0]]
        r += [product('repeated', ITEMS, [40], wrap=lambda t: (t[0], t[0], t[1])),
              product('repeated, then another', main, main, [6], wrap=lambda t: t),
              product('three', main[::2], main, main[1::2], wrap=lambda t: (t[0], t[1], t[2]))]
        if tier == 'thorough':
            r += [product('three all', main, main, main, wrap=lambda t: t), product('many', ITEMS, ITEMS, [25], wrap=lambda t: t),
                  product('interleaved all', ITEMS, ITEMS, wrap=lambda t: (t[0], t[1], 'all')),
                  product('sequential all', ALL, ALL, wrap=lambda t: (t[0], t[1], 'sequential'))]
        return r

    def run(self, case, st):
        a, b, how = case
        if not isinstance(how, str):
            items = [a] * how + [b, a] if isinstance(how, int) else [a, b, how]
            want = [baseline(i)[1] for i in items]
            for k, (item, r, w) in enumerate(zip(items, in_child(repeated, items), want)):
                st.transitions += 1
                if r != w:
                    raise Violation('run %d gives another result than alone' % k, runs=items, item=item, result=r, alone=w,
                                    program=FAMILY[item[1]])
            st.states.add(h(items))
            st.outcomes.add(h(want))
            if len(set(items)) > 1:
                st.nontrivial += 1
            return
        (na, ra), (nb, rb) = baseline(a), baseline(b)
        orders = ['A' * na + 'B' * nb] if how == 'sequential' else list(schedules(na, nb))
        for o, (xa, xb) in zip(orders, in_child(explore, a, b, orders)):
            st.transitions += len(o)
            for who, item, got, want in (('first', a, xa, ra), ('second', b, xb, rb)):
                if got != want:
                    raise Violation('the %s run gives another result than alone' % who, schedule=o, item=item, result=got, alone=want,
                                    program=FAMILY[item[1]])
            st.states.add(h((a, b, o)))
        st.outcomes.add(h((ra, rb)))
        if a != b:
            st.nontrivial += 1
