from vf.common import text_of
from vf.core import Check, Violation, h, product
from gcodeutils.filter.filter import GCodeFilter
from gcodeutils.gcoder import GCode, Line

# what a filter answers to a line
ANSWERS = ['keep', 'same', 'new', 'nothing', 'one', 'two', 'with', 'tuple', 'edit']
FEW = ['keep', 'new', 'nothing', 'with', 'edit']
PROGRAMS = {'one layer': ['G90', 'G1 X1', ';c', 'G1 X2 E1'], 'layers': ['M83', 'G1 Z.2', 'G1 X1 E1', 'G1 Z.4', ';x', 'G1 Z.6'],
            'single': ['G1 X1'], 'empty': [], 'same lines': ['G1 X1'] * 3 + ['G1 Z1'] + ['G1 X1'] * 2, 'odd': ['hello', 'T', '(a)', 'G28', 'M117 hi']}
TALL = [l for k in range(40) for l in ('G1 Z%d' % (k + 1), 'G1 X%d E1' % k, ';%d' % k)]
LONG = ['G1 X%d E1' % k for k in range(700)] + ['G1 Z1'] + [';%d' % k for k in range(300)]
ENDS = [None, RuntimeError, StopIteration, TypeError, KeyError, AttributeError]


class Scripted(GCodeFilter):
    """Answers as the script says, and fails at the end of it if an error is given"""

    def __init__(self, script, error):
        self.script, self.error = script, error
        self.seen, self.expected = [], []

    def opcode_filter(self, opcode):
        k = len(self.seen)
        self.seen.append(opcode)
        if self.error is not None and k == len(self.script):
            raise self.error('at line %d' % k)
        how = self.script[k] if k < len(self.script) else 'keep'
        new = [Line('M%d%d' % (k, n)) for n in (0, 1)]
        answer, left = {'keep': (None, [opcode]), 'same': (opcode, [opcode]), 'new': (new[0], new[:1]), 'nothing': ([], []),
                        'one': (new[:1], new[:1]), 'two': (new[::-1], new[::-1]), 'with': ([new[0], opcode, new[1]], [new[0], opcode, new[1]]),
                        'tuple': (tuple(new), new), 'edit': (None, [opcode])}[how]
        if how == 'edit':
            opcode.raw += ' ;edited'
        self.expected.append(left)
        return answer


class CHECK(Check):
    id = 'C34'
    rule = ('every sequence of answers of a filter to the lines of the programs of a family, with every kind of failure at every line; '
            'the lines presented and the program left are compared with the answers. Non-trivial: an answer changes the program')
    assumptions = ['answers are None, a line, or a list or tuple of lines', 'a failing filter leaves the layer it fails in as it was']

    def spaces(self, tier):
        r = []
        for name in sorted(PROGRAMS):
            n = len(PROGRAMS[name])
            r.append(product('%s' % name, [name], *([ANSWERS if n < 5 or tier == 'thorough' else FEW] * n), wrap=lambda t: (t[0], t[1:], None)))
            for k in range(min(n, 4)):
                r.append(product('%s, failing at %d' % (name, k), [name], ENDS[1:], *([ANSWERS] * k), wrap=lambda t: (t[0], t[2:], t[1])))
        r.append(product('tall', ['tall'], ANSWERS, range(len(TALL)), ANSWERS, [1, 2, 7], wrap=lambda t: (
            t[0], tuple(['keep'] * t[2] + ([t[1]] + ['keep'] * (t[4] - 1) + [t[3]]) * 4), None)))
        r.append(product('everywhere', ['tall'], ANSWERS, ANSWERS, ANSWERS, wrap=lambda t: (t[0], t[1:] * 40, None)))
        r.append(product('long layers', ['long'], ANSWERS, ANSWERS, wrap=lambda t: (t[0], t[1:] * 500, None)))
        return r

    def run(self, case, st):
        name, script, error = case
        prog = {'tall': TALL, 'long': LONG}.get(name) or PROGRAMS[name]
        g = GCode(list(prog))
        before = [list(l) for l in g.all_layers]
        layers = list(g.all_layers)
        f = Scripted(script, error)
        failed = None
        try:
            f.filter(g)
        except Exception as e:
            failed = e
        st.transitions += len(f.seen)
        if type(failed) is not (error or type(None)):
            raise Violation('the failure of the filter is %r' % failed, script=script)
        flat = [l for layer in before for l in layer]
        n = len(script) + 1 if error else len(flat)
        if len(f.seen) != n or any(a is not b for a, b in zip(f.seen, flat)):
            raise Violation('the filter is presented with other lines than those of the program', script=script,
                            seen=[l.raw for l in f.seen], program=prog)
        if len(g.all_layers) != len(layers):
            raise Violation('%d layers became %d' % (len(layers), len(g.all_layers)), script=script)
        k = 0
        for old, layer, now in zip(before, layers, g.all_layers):
            done = f.expected[k:k + len(old)]
            k += len(old)
            want = [l for e in done for l in e] if len(done) == len(old) else old
            if layer.z != now.z:
                raise Violation('the height of a layer becomes %r' % now.z, script=script)
            if len(want) != len(now) or any(a is not b for a, b in zip(want, now)):
                raise Violation('the filter answered %r for a layer, which became %r' % ([l.raw for l in want], [l.raw for l in now]), script=script,
                                program=prog)
        out = text_of(g)
        if out != [l.raw for layer in g.all_layers for l in layer]:
            raise Violation('the program written is not that of the layers', output=out)
        st.states.add(h((name, tuple(out))))
        st.outcomes.add(h(out))
        if out != prog:
            st.nontrivial += 1
