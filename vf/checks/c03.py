import itertools

from vf.core import Check, Violation, h, seqs, product, listing
from vf.common import text_of
from gcodeutils.gcoder import GCode

LINES = ['G1 X1 Y1 E1', 'G1 Z0.2', 'G1 Z0.4 E1', 'G91', '  G1 X2 ; c  ', '', '   ', '; comment', '(c) G1 X1', 'M104 S200',
         'T1', 'Test line', 'N5 G1 X1*71', '%', 'G92 Z0', 'foo bar', 'g1 z0.3 e2\r\n', '\tG28\n', 'G1 Z0.2 (x;y) ; z',
         'M117 G1 Z5 hello', 'G4 P', '12345', 'G1 X-', 'Gx', '@pause']
STRUCT = ['G1 X1 E1', 'G1 Z0.2', 'G1 Z0.4 E1', ';c', '', 'Test', 'G1 Z-0.1', 'G91', 'G92 Z0.2', 'G1 Z0.205', 'G92']
CHARS = ['G', '1', 'X', 'T', 'N', 'E', ' ', '-', '.', ';', '(', ')', '*', '/', '5', 'M', 'P', '%', '\xe9', 'Z', 'F']
SMALL = ['G', '1', 'X', 'T', 'N', ' ', '-', '.', '(', ')', ';', '2']


# long programs: one repeated block in a single layer, or one layer each
LONG = [('lines', ['G90', 'G1 Z0.2'], ['G1 X1 E1', 'G1 X2']), ('text', [], ['; note', 'M117 hi', 'foo']),
        ('layers', ['G91'], ['G1 Z0.2', 'G1 X1 E1']), ('layers only', ['G91'], ['G1 Z0.1']),
        ('reset', ['G90'], ['G1 Z0.2', 'G92 Z0', 'G1 X1'])]
BMP = [c for c in range(0x3000) if not c in (10, 13)] + list(range(0x3000, 0xd800, 97)) + list(range(0xf900, 0x10000)) + [0x1f600, 0x10ffff]
AROUND = ['@', 'G1 X5@Y6', '; note @ end', '@G1 X1', 'G1 Y2@', 'M117 a@(b) c']
WIDTHS = [40, 63, 64, 65, 79, 80, 81, 95, 96, 97, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097, 8193]
FILL = ['a', 'X1 ', '; ', '()', '0', 'abc def ']
SIZES = [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 10000, 10001]


def long_program(shape, n):
    _, head, block = shape
    r = list(head)
    while len(r) < n:
        r += block
    return r[:n]


class CHECK(Check):
    id = 'C03'
    rule = ('every sequence of lines over an alphabet of commands, comments, blanks, free text and malformed lines, and '
            'every string over a character alphabet placed as a line (alone, and after a command word); long programs of '
            'repeated blocks, with sizes around every power of two')
    assumptions = ['numbers of ordinary magnitude (durations that fit a timedelta)']

    def spaces(self, tier):
        r = [seqs('lines%d' % n, LINES, n) for n in (1, 2, 3)]
        r += [seqs('layers%d' % n, STRUCT, n) for n in (4,)]
        r.append(product('characters', BMP, AROUND, wrap=lambda t: ['G1 X1', t[1].replace('@', chr(t[0])), 'G1 X2 Z1 E1']))
        r.append(product('long lines', WIDTHS, FILL, ['', 'G1 X1 ', ';', 'G1 X1 ; ', '(', 'M117 '],
                         wrap=lambda t: ['G1 X1', (t[2] + t[1] * t[0])[:t[0]], 'G1 X2 Z1 E1']))
        r.append(product('tools', list(range(0, 1030)) + [65536, 10 ** 9, 2 ** 31, 2 ** 32, 2 ** 64], ['T%d', 'T%d G1 X1', 'M%d', 'G%d', 'N%d', 'G1 X%d'],
                         wrap=lambda t: ['G1 X1', t[1] % t[0], 'G1 X2 Z1 E1']))
        r.append(product('long', LONG, SIZES + [32769, 65536, 65538], wrap=lambda t: long_program(*t)))
        for n in (1, 2, 3, 4):
            r.append(seqs('chars%d' % n, CHARS, n, wrap=lambda p: [''.join(p)]))
        for head in ('G1 ', 'G92', 'T', 'G4 ', 'G28 X', 'G1 Z'):
            for n in (1, 2, 3):
                r.append(seqs('after %s %d' % (head.strip(), n), CHARS, n,
                              wrap=lambda p, head=head: ['G1 X1 F300', head + ''.join(p), 'G1 Y2 E1', 'G1 Z3']))
        r.append(seqs('text5', SMALL, 5, wrap=lambda p: ['G1 X1', ''.join(p), 'G1 X2']))
        r += [seqs('layers%d' % n, STRUCT, n) for n in (5,)]
        if tier == 'thorough':
            r.append(seqs('chars5', CHARS, 5, wrap=lambda p: [''.join(p)]))
            r.append(seqs('lines4', LINES, 4))
            r.append(seqs('layers6', STRUCT, 6))
            r.append(product('longer', LONG, list(range(1, 700)) + [140000, 300000], wrap=lambda t: long_program(*t)))
        return r

    def run(self, prog, st):
        want = [l.strip() for l in prog if l.strip()]
        g = GCode(list(prog))
        st.transitions += len(prog)
        got = text_of(g)
        if got != want:
            raise Violation('written program differs from the one read', read=prog, written=got)
        flat = [l.raw for l in g.lines]
        if flat != want:
            raise Violation('line list differs from the program', read=prog, lines=flat)
        if [l.raw for l in g] != want:
            raise Violation('iteration differs from the program', read=prog)
        if len(g) != len(want):
            raise Violation('length %d, program has %d lines' % (len(g), len(want)), read=prog)
        if len(g.layer_idxs) != len(want) or len(g.line_idxs) != len(want):
            raise Violation('index tables have %d/%d entries for %d lines' % (len(g.layer_idxs), len(g.line_idxs),
                                                                            len(want)), read=prog)
        for i, l in enumerate(g.lines):
            a, b = g.idxs(i)
            if g.all_layers[a][b] is not l:
                raise Violation('line %d is not at its index %d/%d' % (i, a, b), read=prog)
        st.states.add(h(tuple(len(l) for l in g.all_layers)))
        st.outcomes.add(h(tuple(want)))
        if len(want) > 1:
            st.nontrivial += 1
        # reading what was written changes nothing
        if text_of(GCode(got)) != got:
            raise Violation('reading the written program again changes it', read=prog, written=got)
