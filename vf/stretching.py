"""Programs in the formats of the three slicers, every line tagged with the wall it belongs to, and an independent
implementation of the documented stretch algorithm.

A tag is None (the line must keep its coordinates) or (kind, loop, k): point k of a loop; kinds are 'loop' (extra shells),
'inner' and 'outer' (edges).  Loops are lists of points, closed: the last one is where the head stood before the first.
"""
import base64
import math
import zlib

from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.gcoder import GCode
from gcodeutils.stretch import stretch as _stretch

from vf.common import text_of

DEFAULTS = {'loop': .11, 'inner': .32, 'outer': .1, 'from': 2., 'cross': 5., 'strength': 1.}
NAMES = {'loop': 'loop_stretch_over_edge_width', 'inner': 'edge_inside_stretch_over_edge_width',
         'outer': 'edge_outside_stretch_over_edge_width', 'from': 'stretch_from_distance_over_edge_width',
         'cross': 'cross_limit_distance_over_edge_width', 'strength': 'stretch_strength'}
FILTERS = {'slic3r': _stretch.Slic3rStretchFilter, 'cura': _stretch.CuraStretchFilter,
           'skeinforge': _stretch.SkeinforgeStretchFilter}


def profile(options, sep='\b'):
    """A Cura profile string: options of the profile, then those of the alterations"""
    return base64.b64encode(zlib.compress((sep.join('%s=%s' % o for o in options) + '\fstart.gcode=x\bend.gcode=y').encode())).decode()


def stretch(fmt, prog, settings=()):
    """The stretched program (extrusion made relative first, as the command line does)"""
    g = GCode(list(prog))
    GCodeToRelativeExtrusionFilter().filter(g)
    relative = text_of(g)
    FILTERS[fmt](**{NAMES[k]: v for k, v in dict(settings).items()}).filter(g)
    return relative, text_of(g)


# ------------------------------------------------------------------------------------------------- documented algorithm

def walk(start, path, distance):
    """The vector from the point met on the path at that distance to the start, over the distance"""
    done, last = 0., start
    for p in path:
        d = abs(last - p)
        if done + d >= distance:
            t = (distance - done) / d
            return (start - (p * t + last * (1 - t))) / distance
        done += d
        last = p
    v = start - last
    return v / abs(v) if abs(v) > 0 else 0j


def limit(v, start, neighbour, cross):
    """What remains of the stretch v, across the way to the neighbour, when that one is far"""
    n = start - neighbour
    d = abs(n)
    if d <= cross / 3:
        return v
    n /= d
    along = (v.real * n.real + v.imag * n.imag) * n
    if d > cross:
        return along
    return along + (v - along) * ((cross - d) / (cross - cross / 3))


def displacement(points, k, kind, width, settings=()):
    """Displacement of point k of a closed loop (complex points, each given once)"""
    s = dict(DEFAULTS, **dict(settings))
    n = len(points)
    p = points[k]
    ahead = [points[(k + i) % n] for i in range(1, n + 1)]
    behind = [points[(k - i) % n] for i in range(1, n + 1)]
    v = (walk(p, ahead, s['from'] * width) + walk(p, behind, s['from'] * width)) * .8
    v = limit(v, p, ahead[0], s['cross'] * width)
    v = limit(v, p, behind[0], s['cross'] * width)
    if abs(v) > 1:
        v /= abs(v)
    return v * maximum(kind, width, settings)


def maximum(kind, width, settings=()):
    s = dict(DEFAULTS, **dict(settings))
    return max(0., s[kind] * s['strength'] * width)


# ------------------------------------------------------------------------------------------------------------- programs

def num(v, places=5):
    return ('%.*f' % (places, v)).rstrip('0').rstrip('.') if v else '0'


class Program(object):
    def __init__(self, width, rele=False, header=True):
        self.lines, self.tags = [], []
        self.width = width
        self.e = 0.
        self.rele = rele
        self.z = 0.2
        self.loops = 0
        self.pos = 0j
        self.retracted = False

    def add(self, text, tag=None):
        self.lines.append(text)
        self.tags.append(tag)

    def ext(self, de):
        self.e += de
        return 'E' + num(de if self.rele else self.e)

    def xy(self, p):
        self.pos = p
        return 'X%s Y%s' % (num(p.real), num(p.imag))

    def done(self):
        return self.lines, self.tags


class Slic3r(Program):
    """Verbose Slic3r output"""
    fmt = 'slic3r'

    def __init__(self, width=.72, rele=False, header=True):
        Program.__init__(self, width, rele)
        if header:
            self.add('; perimeters extrusion width = 0.60mm')
            self.add('; external perimeters extrusion width = %.2fmm' % width)
            self.add('; infill extrusion width = 0.55mm')
        else:
            self.width = .4
        self.add('M83' if rele else 'M82')
        self.add('G90')
        self.first = True

    def retract(self):
        if not self.retracted:
            self.add('G1 F1800 %s ; retract' % self.ext(-1.))
            if not self.rele:
                self.add('G92 E0 ; reset extrusion distance')
                self.e = 0.
            self.retracted = True

    def unretract(self):
        if self.retracted:
            self.add('G1 %s F1800 ; unretract' % self.ext(1.))
            self.retracted = False

    def layer(self):
        self.z += .3
        self.add('G1 Z%s F7800 ; move to next layer' % num(self.z))
        self.first = True

    def loop(self, points, external, unretract=False, f=True):
        """points: the start, then every point, the last one being the start again"""
        kind = 'loop' if not external else 'outer' if self.first else 'inner'
        if external:
            self.first = False
        n = self.loops = self.loops + 1
        closed = points[1:] if abs(points[0] - points[-1]) < 1e-9 else None
        tag = lambda k: (kind, n, closed, k)
        self.add('G1 %s F7800 ; move to first perimeter point' % self.xy(points[0]), tag(len(points) - 2))
        if unretract:
            self.retracted = True
        self.unretract()
        for k, p in enumerate(points[1:]):
            d = abs(p - self.pos)
            self.add('G1 %s %s%s ; perimeter%s' % (self.xy(p), self.ext(d * .05), ' F1200' if f and k == 0 else '',
                                                   ' external' if external else ''), tag(k))

    def path(self, points, what):
        self.add('G1 %s F7800 ; move to first %s point' % (self.xy(points[0]), what))
        self.unretract()
        for k, p in enumerate(points[1:]):
            d = abs(p - self.pos)
            self.add('G1 %s %s ; %s' % (self.xy(p), self.ext(d * .05), what))


# a real profile has about a hundred options, some of them without a value, or with a value holding an equals sign
CURA_OPTIONS = [('print_temperature', '210'), ('print_temperature2', ''), ('object_sink', '0.0'), ('simple_mode', 'False'), ('plugin_config', 'a=1;b=nozzle_size'),
                ('platform_adhesion', 'None'), ('start', 'G28 ; caf\xe9')] + [('option_%d' % k, str(k * .25)) for k in range(70)]


class Cura(Program):
    """Cura 15 output"""
    fmt = 'cura'

    def __init__(self, width=.6, rele=False, header=True):
        Program.__init__(self, width, rele)
        if header:
            self.tail = ';CURA_PROFILE_STRING:' + profile([('layer_height', '0.2')] + CURA_OPTIONS + [('nozzle_size', num(width)), ('fill_density', '20')] +
                                                          CURA_OPTIONS)
        else:
            self.width = .4
            self.tail = ';CURA_PROFILE_STRING:' + profile([('layer_height', '0.2')])
        self.add('M83' if rele else 'M82')
        self.add('G90')
        self.add(';LAYER:0')
        self.n = 0

    def layer(self):
        self.z += .3
        self.n += 1
        self.add(';LAYER:%d' % self.n)
        self.add('G0 F9000 %s Z%s' % (self.xy(self.pos + 1), num(self.z)))

    def travel(self, p):
        if self.retracted:
            self.add('G1 F2400 ' + self.ext(-2.))
        self.add('G0 F9000 ' + self.xy(p))
        if self.retracted:
            self.add('G1 F2400 ' + self.ext(2.))
            self.retracted = False

    def section(self, name, loops, kind=None):
        """loops: point lists, the first point of each being the start"""
        for i, points in enumerate(loops):
            self.travel(points[0])
            if i == 0:
                self.add(';TYPE:' + name)
            n = self.loops = self.loops + 1
            closed = points[1:] if abs(points[0] - points[-1]) < 1e-9 else None
            for k, p in enumerate(points[1:]):
                d = abs(p - self.pos)
                self.add('G1 %s%s %s' % ('F1200 ' if k == 0 else '', self.xy(p), self.ext(d * .05)),
                         (kind, n, closed, k) if kind else None)

    def done(self):
        self.add(self.tail)
        return self.lines, self.tags


class Skeinforge(Program):
    """Skeinforge output before its stretch stage"""
    fmt = 'skeinforge'

    def __init__(self, width=.72, rele=False, header=True):
        Program.__init__(self, width if header else .4, rele)
        if header:
            self.add('(<edgeWidth> %s </edgeWidth>)' % num(width))
        self.add('(</extruderInitialization>)')
        self.add('M103')
        self.add('(<layer> %s )' % num(self.z))

    def xyz(self, p, f):
        return '%s Z%s F%s' % (self.xy(p), num(self.z), num(f))

    def layer(self):
        self.add('(</layer>)')
        self.z += .3
        self.add('(<layer> %s )' % num(self.z))

    def loop(self, points, kind):
        n = self.loops = self.loops + 1
        closed = points[1:] if abs(points[0] - points[-1]) < 1e-9 else None
        self.add({'loop': '(<loop> outer )', 'inner': '(<edge> inner )', 'outer': '(<edge> outer )'}[kind])
        self.add('G1 ' + self.xyz(points[0], 960), (kind, n, closed, len(points) - 2))
        self.add('M101')
        for k, p in enumerate(points[1:]):
            self.add('G1 ' + self.xyz(p, 384), (kind, n, closed, k))
        self.add('M103')
        self.add('(</loop>)' if kind == 'loop' else '(</edge>)')

    def path(self, points):
        self.add('G1 ' + self.xyz(points[0], 960))
        self.add('M101')
        for p in points[1:]:
            self.add('G1 ' + self.xyz(p, 384))
        self.add('M103')


# --------------------------------------------------------------------------------------------------------------- shapes

def polygon(n, r, phase=0.):
    return [complex(r * math.cos(math.radians(phase + 360. * i / n)), r * math.sin(math.radians(phase + 360. * i / n)))
            for i in range(n)]


def subdivide(points, m):
    out = []
    for i, p in enumerate(points):
        q = points[(i + 1) % len(points)]
        out += [p + (q - p) * j / m for j in range(m)]
    return out


SHAPES = {
    'square': [0j, 10 + 0j, 10 + 10j, 10j],
    'small square': [0j, 1.5 + 0j, 1.5 + 1.5j, 1.5j],
    'thin': [0j, 12 + 0j, 12 + .9j, .9j],
    'triangle': [0j, 9 + 0j, 3 + 6j],
    'hexagon': polygon(6, 4.),
    '12-gon': polygon(12, 2.5, 7.),
    '24-gon': polygon(24, 3.),
    '40-gon': polygon(40, 12., 3.),
    'fine circle': polygon(60, 2.),
    'cut square': subdivide([0j, 8 + 0j, 8 + 8j, 8j], 4),
    'fine square': subdivide([0j, 6 + 0j, 6 + 6j, 6j], 12),
    'round': polygon(150, 10.),
    'very round': polygon(330, 20., 1.),
    'kite': [0j, 5 - 2j, 14 + 0j, 5 + 2j],
    'long': [0j, 40 + 0j, 42 + 1j, 40 + 2j, 2j],
}


def closed(points, start=0, reverse=False, offset=0j, turn=0):
    """The loop as printed: start point first, and again last"""
    p = [q * 1j ** turn + offset for q in points]
    p = p[start % len(p):] + p[:start % len(p)]
    if reverse:
        p = p[:1] + p[:0:-1]
    return [complex(round(q.real, 3), round(q.imag, 3)) for q in p + p[:1]]


# --------------------------------------------------------------------------------------------------------------- blocks

SQ = closed(SHAPES['square'], 0, False, 20 + 30j)
HOLE = closed(SHAPES['hexagon'], 2, True, 25 + 35j)
TRI = closed(SHAPES['triangle'], 1, False, 60 + 31j)
SMALL = closed(SHAPES['small square'], 0, False, 27 + 33j)
OPEN = [5 + 5j, 9 + 5j, 9 + 9.5j, 5.5 + 9j]
INFILL = [22 + 32j, 28 + 38j, 29 + 38j, 22.5 + 31.5j]
BLOCKS = {'inner': ('inner', HOLE), 'ext': ('ext', SQ), 'hole': ('ext', HOLE), 'loop': ('loop', TRI), 'small': ('loop', SMALL), 'open': ('loop', OPEN),
          'openext': ('ext', OPEN)}


def build(fmt, blocks, width=None, rele=False, header=True):
    """(lines, tags, width) of the program made of those blocks; a block is a name or (kind, points)"""
    p = {'slic3r': Slic3r, 'cura': Cura, 'skeinforge': Skeinforge}[fmt](*([width] if width else []), **{'rele': rele, 'header': header})
    for b in blocks:
        b = BLOCKS.get(b, b) if isinstance(b, str) else b
        if b == 'layer':
            p.layer()
        elif b == 'cmd':
            p.add('M104 S200 ; temperature')
        elif b == 'wordy':
            p.add(('; %s ' if fmt != 'skeinforge' else '(%s)') % ('very long words ' * 40))
        elif b == 'wordy cmd':
            p.add('M117 hi ; ' + 'very long words ' * 40)
        elif b == 'fan':
            p.add('M106 S255')
        elif b == 'text':
            p.add('; nothing special' if fmt != 'skeinforge' else '(<nestedRing>)')
        elif b == 'lift':
            p.z += .5       # another height is another layer
            p.first = True
            p.add('G1 Z%s F7800 ; lift' % num(p.z))
        elif b == 'start':
            p.first = getattr(p, 'first', True) or p.z != 5.
            p.z = 5.
            p.add('G1 Z5 F5000')
            p.add('G1 X0 Y0 F9000')
            p.pos = 0j
            if fmt == 'cura':
                p.add(';TYPE:SKIRT')
            p.add('G1 X60 %s F1000' % p.ext(3.) if fmt != 'skeinforge' else 'G1 X60')
            p.pos = 60 + 0j
        elif b == 'end':
            p.add('G1 X0 Y200 F9000')
            p.pos = 200j
        elif b == 'onlyx':
            p.add('G1 X3 F9000')
            p.pos = complex(3, p.pos.imag)
        elif b == 'arc':
            p.add('G2 X12 Y12 I6 J6 ' + (p.ext(1.) if fmt != 'skeinforge' else ''))
            p.pos = 12 + 12j
        elif b == 'renumber':
            p.add('G92 E0')
            p.e = 0.
        elif fmt == 'slic3r':
            if b == 'retract':
                p.retract()
            elif b == 'inwards':
                p.add('G1 %s F7800 ; move inwards before travel' % p.xy(p.pos + .3))
            elif b == 'wipe':
                for k in (1, 2):
                    p.add('G1 F6240 %s %s ; wipe and retract' % (p.xy(p.pos + k * (.4 + .2j)), p.ext(-.5)))
                p.retracted = True
            elif isinstance(b, tuple):
                p.loop(b[1], b[0] != 'loop')
            else:
                p.path(INFILL, b)
        elif fmt == 'cura':
            if b == 'retract':
                p.retracted = True
            elif b == 'inwards':
                p.travel(p.pos + .3)
            elif isinstance(b, tuple):
                kind = {'ext': 'outer'}.get(b[0], b[0])
                # each kind of wall is a section; loops given together share one
                loops = b[1] if isinstance(b[1][0], list) else [b[1]]
                p.section({'outer': 'WALL-OUTER', 'inner': 'WALL-INNER', 'loop': 'SKIN'}[kind], loops, kind)
            else:
                p.section({'infill': 'FILL', 'skirt': 'SKIRT', 'support': 'SUPPORT', 'prime': 'PRIME-TOWER'}[b], [INFILL])
        else:
            if b in ('retract', 'inwards'):
                p.add('G1 ' + p.xyz(p.pos + .3, 960))
            elif isinstance(b, tuple):
                p.loop(b[1], {'ext': 'outer'}.get(b[0], b[0]))
            else:
                p.path(INFILL)
    lines, tags = p.done()
    return lines, tags, p.width
