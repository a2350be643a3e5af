import re

from vf.core import Check, Violation, h, product, seqs
from vf.common import same
from gcodeutils.gcoder import GCode

LINES = ['G1 X1.5 Y-2 E3 F600', 'G0 Z0.3', 'G28 Y0', 'G28 X', 'G92 X1 E0', 'G92', 'M83', 'G91', 'G20', 'T1', 'G4 P1500', 'M104 S200',
         'G2 X3 Y4 I1 J-1 E1', 'G1 E-.5', 'G1 X+2 F9000', 'G1 X.5', 'G1 Z0.6 E4', 'G90', 'M82', 'G1 Y7. E2', 'G4 P2000']
FEW = ['G1 X1.5 Y-2 E3 F600', 'G0 Z0.3', 'G28 Y0', 'G92 X1 E0', 'M83', 'G91', 'G20', 'T1', 'G4 P1500', 'G2 X3 Y4 I1 J-1 E1']


def words(l):
    return l.split(' ')


def between(l, what):
    w = words(l)
    return ''.join([w[0]] + [what + x for x in w[1:]])


def checksum(l, n):
    s = 'N%d %s' % (n, l)
    c = 0
    for ch in s:
        c ^= ord(ch)
    return '%s*%d' % (s, c)


def numbers(l, f):
    """The line with the numbers of its parameters spelled otherwise"""
    w = words(l)
    return ' '.join([w[0]] + [x[0] + f(x[1:]) if len(x) > 1 else x for x in w[1:]])


def signed(f):
    return lambda t: (t[0] if t[0] in '+-' else '') + f(t.lstrip('+-'))


def zero_before(t):
    return '0' + t


def zeros_after(t):
    return t + '00' if '.' in t else t + '.00'


def point_after(t):
    return t if '.' in t else t + '.'


def no_zero(t):
    a, p, b = t.partition('.')
    return (a.lstrip('0') if b else a.lstrip('0') or '0') + p + b


def plus(t):
    return t if t[0] in '+-' else '+' + t


VARIANTS = [
    ('as is', lambda l: [l]),
    ('trailing ;', lambda l: [l + ';X9 E9']),
    ('trailing  ; ', lambda l: [l + '  ; G1 Z9 (y)']),
    ('trailing ()', lambda l: [l + ' (G28 X7)']),
    ('trailing () stuck', lambda l: [l + '(Z5)']),
    ('leading ()', lambda l: ['(G0 X8) ' + l]),
    ('leading () stuck', lambda l: ['(n5)' + l]),
    ('two leading ()', lambda l: ['(a)(b) ' + l]),
    ('between words ()', lambda l: [between(l, ' (E7) ')]),
    ('between words () stuck', lambda l: [between(l, '(Y;7)')]),
    ('lower case', lambda l: [l.lower()]),
    ('mixed case', lambda l: [l[0].lower() + l[1:]]),
    ('no blanks', lambda l: [l.replace(' ', '')]),
    ('more blanks', lambda l: ['  ' + l.replace(' ', '   ') + '  ']),
    ('tabs', lambda l: [l.replace(' ', '\t')]),
    ('unix line end', lambda l: [l + '\n']),
    ('dos line end', lambda l: [l + '\r\n']),
    ('line number and checksum', lambda l: [checksum(l, 12)]),
    ('line number', lambda l: ['N3 ' + l]),
    ('lower line number', lambda l: [checksum(l, 7).lower()]),
    ('comment then line number', lambda l: ['(c) N4 ' + l]),
    ('comment line before', lambda l: [';G1 X3 Z4 E5', l]),
    ('comment line after', lambda l: [l, '(G92 X0)']),
    ('blank lines', lambda l: ['', '  ', l, '\t', '\n']),
    ('number and comment', lambda l: ['N8 ' + l + ' ; M82']),
    ('empty comments', lambda l: ['()' + l + ';']),
    ('multi comment', lambda l: ['(x) ' + between(l, ' (z1)') + ' ;y2']),
    ('zero before numbers', lambda l: [numbers(l, signed(zero_before))]),
    ('zeros after numbers', lambda l: [numbers(l, signed(zeros_after))]),
    ('point after numbers', lambda l: [numbers(l, signed(point_after))]),
    ('no zero before the point', lambda l: [numbers(l, signed(no_zero))]),
    ('plus sign', lambda l: [numbers(l, plus)]),
    ('all zeros stuck', lambda l: [numbers(l, lambda t: plus(signed(lambda u: zeros_after(zero_before(u)))(t))).replace(' ', '')]),
    ('odd characters in comment', lambda l: [l + ' ;*5 /Y7\tX"8" \xe9\u0130 %d \\n X9']),
    ('odd characters in ()', lambda l: ['(*5 /Y7\t;X8 \xe9 %s) ' + l]),
    ('bare number line before', lambda l: ['N9 ; G91', l]),
    ('padded codes', lambda l: [re.sub(r'^([GMT])([0-9])', r'\g<1>0\2', l)]),
    # the following ones are not combined with one another on several lines
    ('lower line number only', lambda l: ['n5 ' + l]),
    ('padded codes in small letters', lambda l: ['n001 ' + re.sub(r'^([GMT])([0-9])', r'\g<1>00\2', l).lower().replace(' ', '')]),
    ('long line number', lambda l: ['N1234567 ' + l]),
    ('number 0 and checksum', lambda l: [checksum(l, 0)]),
    ('empty comment lines', lambda l: ['()', l, ';', '( )']),
    ('long comment', lambda l: [l + ' ; ' + 'X9 Y9 ' * 60]),
    ('long ()', lambda l: ['(' + 'X9 Y9 ' * 60 + ')' + l]),
    ('many ()', lambda l: ['(X8)' * 40 + between(l, '(Y7)' * 9 + ' ')]),
    ('many comment lines', lambda l: ['; G1 X%d Z%d' % (k, k) for k in range(300)] + [l]),
    ('many blanks', lambda l: [' ' * 300 + l.replace(' ', ' ' * 200) + '\t' * 50]),
    ('unbalanced comment', lambda l: [l + ' ; (X1 Y2']),
    ('closed comment', lambda l: [l + ' ; X1) Y2']),
    ('twice commented', lambda l: [l + ' (a) ; b (c) ; d']),
    ('mac line end', lambda l: [l + '\r']),
    ('checksum and comment', lambda l: [checksum(l, 99) + ' ; X5']),
    ('comment before the checksum', lambda l: ['N1 ' + l + ' (Y6) *33']),
]
BASIC = 37
CHARACTERS = [c for c in range(0x2100) if c not in (10, 13, 40, 41)] + list(range(0x2100, 0xd800, 61)) + list(range(0xfe00, 0x10000)) + [0x1f600]
RECORD = ['command', 'x', 'y', 'z', 'e', 'f', 'i', 'j', 'is_move', 'relative', 'relative_e', 'current_x', 'current_y',
          'current_z', 'current_f', 'current_e', 'extruding', 'current_tool']
FIGURES = ['filament_length', 'xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax', 'width', 'depth', 'height', 'layers_count',
           'current_x', 'current_y', 'current_z', 'current_e', 'current_tool', 'relative', 'relative_e', 'imperial',
           'duration', 'abs_x', 'abs_y', 'abs_z', 'abs_e', 'total_e', 'max_e']


PLACES = {'after': lambda l, c: l + ' ; X1 ' + c + ' Y9 E9', 'before': lambda l, c: '(X1 ' + c + ' Y9)' + l, 'between': lambda l, c: between(l, ' (' + c + 'E1) '),
          'stuck': lambda l, c: l + ';' + c}


def meaning(lines):
    g = GCode(list(lines))
    recs = [tuple(getattr(l, k) or None for k in RECORD) for l in g.lines if l.command is not None]
    layers = [(round(l.z, 9) if l.z is not None else None, [x.command for x in l if x.command is not None])
              for l in g.all_layers]
    figs = tuple(getattr(g, k) for k in FIGURES) + (tuple(sorted(g.all_zs)), round(sum(l.duration for l in g.all_layers), 6))
    return recs, [l for l in layers if l[1]], figs


_cache = {}


def meaning_cached(lines):
    k = tuple(lines)
    if k not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[k] = meaning(lines)
    return _cache[k]


class CHECK(Check):
    id = 'C07'
    rule = ('every program of the stated length over the alphabet, every variation of every line (comments, case, blanks, line '
            'numbers, spelling of numbers; all combinations for '
            'programs of one and two lines, one varied line among three)')
    assumptions = ['formatting between words; blanks inside a word (X 10) are not part of the property',
                   'comments without nested parentheses']

    def spaces(self, tier):
        v, every = list(range(BASIC)), list(range(len(VARIANTS)))
        r = [product('one', [(l,) for l in LINES], every, wrap=lambda t: (t[0], (t[1],))),
             product('two', LINES, LINES, v, v, wrap=lambda t: (t[:2], t[2:])),
             product('two alike', LINES, LINES, every[BASIC:], wrap=lambda t: (t[:2], (t[2],) * 2)),
             product('new in three', FEW, FEW, FEW, every[BASIC:], (0, 1, 2), wrap=lambda t: (t[:3], tuple(t[3] if i == t[4] else 0 for i in range(3)))),
             product('characters', ['G1 X1.5 Y-2 E3 F600', 'G28 Y0', 'G92'], CHARACTERS, list(PLACES), wrap=lambda t: ((t[0], 'G1 X5 Z2 E9'), t[1:])),
             product('one of three', LINES, LINES, LINES, v, (0, 1, 2),
                     wrap=lambda t: (t[:3], tuple(t[3] if i == t[4] else 0 for i in range(3)))),
             product('all of three alike', LINES, LINES, LINES, v, wrap=lambda t: (t[:3], (t[3],) * 3))]
        if tier == 'thorough':
            r.append(product('three', FEW, FEW, FEW, v, v, v, wrap=lambda t: (t[:3], t[3:])))
        return r

    def show(self, case):
        return {'program': case[0], 'written as': self.vary(case)}

    @staticmethod
    def vary(case):
        if isinstance(case[1][-1], str):
            (c, place), (a, b) = case[1], case[0]
            return [PLACES[place](a, chr(c)), b]
        return [l for text, v in zip(*case) for l in VARIANTS[v][1](text)]

    def run(self, case, st):
        prog = list(case[0])
        varied = self.vary(case)
        a, b = meaning_cached(prog), meaning(varied)
        st.transitions += len(prog)
        names = case[1] if isinstance(case[1][-1], str) else [VARIANTS[v][0] for v in case[1]]
        if len(a[0]) != len(b[0]):
            raise Violation('%d commands instead of %d when written with %s' % (len(b[0]), len(a[0]), names),
                            program=prog, varied=varied)
        for i, (x, y) in enumerate(zip(a[0], b[0])):
            if x != y:
                k = [n for n, p, q in zip(RECORD, x, y) if p != q]
                raise Violation('command %d: %s differ when written with %s' % (i, k, names), program=prog, varied=varied,
                                plain=x, got=y)
        if a[1] != b[1]:
            raise Violation('layers differ when written with %s' % names, program=prog, varied=varied, plain=a[1], got=b[1])
        if a[2] != b[2]:
            k = [(n, p, q) for n, p, q in zip(FIGURES + ['all_zs', 'total duration'], a[2], b[2]) if p != q]
            raise Violation('%s differ when written with %s' % (k, names), program=prog, varied=varied)
        st.states.add(h(a[0]))
        st.outcomes.add(h(a[2]))
        if any(case[1]):
            st.nontrivial += 1
