"""Reference model: a RepRap machine reading G-code text.

Written from the RepRap G-code conventions and independent of gcodeutils (own tokenizer, own state).  It is the
oracle side of most checks: the program under test is fed both to the real code and to this model.
"""
import re

_WORD = re.compile(r'([A-Za-z])\s*([-+]?(?:\d+\.?\d*|\.\d+))?')
MOVES = ('G0', 'G1', 'G2', 'G3')
AXES = 'XYZEFIJ'


def strip_comments(s):
    """(code, comment) of a line; the comment is the concatenated comment text including its delimiters"""
    code, com, i, n = [], [], 0, len(s)
    while i < n:
        c = s[i]
        if c == ';':
            com.append(s[i:])
            break
        if c == '(':
            j = s.find(')', i)
            if j < 0:
                code.append(c)
                i += 1
                continue
            com.append(s[i:j + 1])
            code.append(' ')
            i = j + 1
            continue
        code.append(c)
        i += 1
    return ''.join(code), ''.join(com)


class Cmd(object):
    """One parsed line: code ('G1', 'M104', ... or None), args {letter: float or None}, comment, raw text"""
    __slots__ = ('code', 'args', 'comment', 'raw', 'is_move')

    def __init__(self, raw):
        self.raw = raw.strip()
        code, self.comment = strip_comments(self.raw)
        star = code.find('*')
        if star >= 0:
            code = code[:star]
        words = _WORD.findall(code)
        if words and words[0][0] in 'nN' and words[0][1]:
            words = words[1:]
        self.code = None
        self.args = {}
        if words:
            letter, number = words[0][0].upper(), words[0][1]
            if letter in 'GMT' and number.isdigit():
                number = str(int(number))       # G01 is G1
            self.code = letter + number
            for l, v in words[1:]:
                self.args[l.upper()] = float(v) if v else None
        self.is_move = self.code in MOVES

    def get(self, letter):
        return self.args.get(letter)


_cache = {}


def parse(raw):
    c = _cache.get(raw)
    if c is None:
        if len(_cache) > 400000:
            _cache.clear()
        c = _cache[raw] = Cmd(raw)
    return c


class Machine(object):
    """x, y, z: machine coordinates in mm; ox..: logical = machine - offset; e: net filament fed; oe: e - logical e"""
    __slots__ = ('x', 'y', 'z', 'ox', 'oy', 'oz', 'e', 'oe', 'rel', 'rele', 'unit', 'f', 'tool', 'home', 'g90e', 'maxe')

    def __init__(self, home=(0, 0, 0), g90_selects_e=True):
        self.x = self.y = self.z = 0.0
        self.ox = self.oy = self.oz = 0.0
        self.e = self.oe = 0.0
        self.rel = self.rele = False
        self.unit = 1.0
        self.f = 0.0
        self.tool = 0
        self.home = home
        self.g90e = g90_selects_e
        self.maxe = 0.0

    def key(self):
        return (round(self.x, 4), round(self.y, 4), round(self.z, 4), round(self.ox, 4), round(self.oy, 4),
                round(self.oz, 4), round(self.e, 5), round(self.oe, 5), self.rel, self.rele, self.unit,
                round(self.f, 3), self.tool)

    def pos(self):
        return (self.x, self.y, self.z)

    def logical(self):
        return (self.x - self.ox, self.y - self.oy, self.z - self.oz)

    def step(self, c):
        """Execute the parsed command; returns the filament fed (None if the command does not address E)"""
        code = c.code
        if code is None:
            return None
        a = c.args
        u = self.unit
        if c.is_move:
            v = a.get('F')
            if v is not None:
                self.f = v * u
            v = a.get('X')
            if v is not None:
                self.x = self.x + v * u if self.rel else self.ox + v * u
            v = a.get('Y')
            if v is not None:
                self.y = self.y + v * u if self.rel else self.oy + v * u
            v = a.get('Z')
            if v is not None:
                self.z = self.z + v * u if self.rel else self.oz + v * u
            v = a.get('E')
            if v is not None:
                de = v * u if self.rele else v * u + self.oe - self.e
                self.e += de
                if self.e > self.maxe:
                    self.maxe = self.e
                return de
            return None
        if code == 'G90':
            self.rel = False
            if self.g90e:
                self.rele = False
        elif code == 'G91':
            self.rel = True
            if self.g90e:
                self.rele = True
        elif code == 'M82':
            self.rele = False
        elif code == 'M83':
            self.rele = True
        elif code == 'G20':
            self.unit = 25.4
        elif code == 'G21':
            self.unit = 1.0
        elif code == 'G92':
            named = [k for k in 'XYZE' if a.get(k) is not None]
            if not named:
                self.ox, self.oy, self.oz, self.oe = self.x, self.y, self.z, self.e
            else:
                if 'X' in named:
                    self.ox = self.x - a['X'] * u
                if 'Y' in named:
                    self.oy = self.y - a['Y'] * u
                if 'Z' in named:
                    self.oz = self.z - a['Z'] * u
                if 'E' in named:
                    self.oe = self.e - a['E'] * u
        elif code == 'G28':
            named = [k for k in 'XYZ' if k in a]
            if not named:
                named = 'XYZ'
            if 'X' in named:
                self.x, self.ox = self.home[0], 0.0
            if 'Y' in named:
                self.y, self.oy = self.home[1], 0.0
            if 'Z' in named:
                self.z, self.oz = self.home[2], 0.0
        elif code[0] == 'T':
            try:
                self.tool = int(code[1:])
            except ValueError:
                pass
        return None


def run(lines, home=(0, 0, 0), g90_selects_e=True):
    """Execute text lines; returns [(cmd, de, (x, y, z), f, rel, rele)] for every non-blank line, and the machine"""
    m = Machine(home, g90_selects_e)
    out = []
    for l in lines:
        if not l.strip():
            continue
        c = parse(l)
        de = m.step(c)
        out.append((c, de, (m.x, m.y, m.z), m.f, m.rel, m.rele))
    return out, m
