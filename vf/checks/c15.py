from vf.core import Check, Violation, h, product
from vf.checks.c04 import CHECK as C04, fine_stack, stack, FINE, FSTARTS, FSTEPS, STARTS, STEPS, STYLES
from vf.checks.c14 import BLOCKS, LETTERS, MANY
from gcodeutils.gcoder import GCode
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.visitor import GCodeVisitor


class Recorder(GCodeVisitor):
    def __init__(self):
        self.events = []

    def note(self, kind, what, i):
        self.events.append((kind, what, i.gcode, i.layer_number, i.layer_index, i.line_number, i.is_printed))

    def will_visit_layer(self, layer, info):
        self.note('will', layer, info)

    def visit_line(self, line, info):
        self.note('line', line, info)

    def did_visit_layer(self, layer, info):
        self.note('did', layer, info)


class CHECK(Check):
    id = 'C15'
    rule = ('every sequence of the stated length over the layer blocks and over single lines, stacks of '
            'layers over start heights, steps, counts and ways to lift; every notification is compared '
            'with the independently computed walk; non-trivial: at least two layers, one of them printed')
    assumptions = ['heights are at least 0.02 mm apart', 'a layer without any line may or may not be announced']

    def spaces(self, tier):
        flat = lambda t: ['M83'] + [l for b in t for l in b]
        line = lambda t: ['M83'] + list(t)
        r = [product('empty', [()], wrap=lambda t: [])]
        r += [product('blocks%d' % n, *[BLOCKS] * n, wrap=flat) for n in (1, 2, 3, 4, 5)]
        r += [product('lines%d' % n, *[LETTERS] * n, wrap=line) for n in (1, 2, 3, 4)]
        r.append(product('fine', *[FINE] * 4, wrap=line))
        r.append(product('fine stacks', FSTARTS, FSTEPS, [2, 8, 30], STYLES, wrap=fine_stack))
        r.append(product('stacks', STARTS, STEPS, [2, 8, 60], STYLES, wrap=stack))
        r.append(product('commented', *([BLOCKS] * 3 + [[';c', ';;', '(c)', 'hello', 'G1', ';LAYER:0 G1 Z9']] * 2),
                         wrap=lambda t: [t[3], 'M83', t[4]] + [l for b in t[:3] for l in [t[3]] + b + [t[4]]]))
        r.append(product('many', STARTS[1::5], STEPS[4::4], MANY, STYLES, wrap=stack))
        r.append(product('huge', [.2], [.2], [1200, 3000], STYLES, wrap=stack))
        r.append(product('long layers', [10, 300, 6000], [BLOCKS[k] for k in (2, 4, 5, 7)], wrap=lambda t: ['M83'] + (
            ['G1 Z0.2', 'G1 X1 E1'] + [';c', 'G1 X1', 'M104 S1'] * t[0]) + t[1] * 3))
        if tier == 'thorough':
            r.append(product('tall stacks', STARTS, STEPS, list(range(3, 40)) + [300], STYLES, wrap=stack))
            r.append(product('blocks6', *[BLOCKS] * 6, wrap=flat))
            r.append(product('lines5', *[LETTERS] * 5, wrap=line))
        return r

    def run(self, prog, st):
        runs, printed = C04.reference(prog)
        if runs is None:
            return
        heights = sorted(printed)
        g = GCode(list(prog))
        v = Recorder()
        GCodeIterator(g).accept(v)
        st.transitions += len(v.events)
        empty = set(i for i, l in enumerate(g.all_layers) if not l)
        got = [e for e in v.events if e[4] not in empty]
        for e in v.events:
            if e[4] in empty and (e[0] == 'line' or e[6]):
                raise Violation('an empty layer is visited as holding lines or printed', program=prog)
        expected = []
        n = 0
        index = -1
        for z, ls in runs:
            index += 1
            while index in empty:
                index += 1
            rank = heights.index(z) if z in printed else None
            expected.append(('will', ls, index, n, rank))
            for l in ls:
                expected.append(('line', l, index, n, rank))
                n += 1
            expected.append(('did', ls, index, n - 1, rank))
        if len(got) != len(expected):
            raise Violation('%d notifications instead of %d' % (len(got), len(expected)), program=prog)
        for e, x in zip(got, expected):
            kind, what, gc, number, idx, line, is_printed = e
            text = what.raw if kind == 'line' else [l.raw for l in what]
            r = (kind, text, idx, line, number)
            shown = x[4] is not None
            if not shown:
                x = x[:4] + (idx,)
            if r != x or gc is not g or bool(is_printed) != shown:
                raise Violation('notified %r instead of %r' % (r, x), program=prog)
        if len(runs) > 1 and printed:
            st.nontrivial += 1
        st.states.add(h((tuple(r[0] for r in runs), tuple(heights))))
        st.outcomes.add(h([e[3:] for e in v.events]))
