import itertools

from vf.core import Check, Violation, h, product
from vf.common import repeated, text_of
from gcodeutils.gcoder import GCode

PROGRAMS = [
    ['G1 X1', 'G1 X2'],
    ['G1 X1', 'G1 Z1', 'G1 X2'],
    [';start', 'G1 Z1', 'G1 X1 E1', 'G1 X2 E2', 'G1 Z2', 'G1 X3 E3', 'G1 Z3', ';end'],
    ['G1 Z1', 'G1 Z2', 'G1 X3 E3', 'G1 X3 E3', 'G1 Z1', 'G1 X1'],
    ['G1 Z1 E1', 'G1 Z2 E2', 'G1 Z1 E3'],
]
PROGRAMS += [repeated(['M83'], ['G1 X{k} E1'], 300), repeated(['G91'], ['G1 Z0.2', 'G1 X{k} E1'], 520),
             ['G1 Z1', 'G1 X1 E1'] + repeated(['G1 Z2'], ['G1 X{k} E1', ';{k}'], 256) + ['G1 Z3', 'G1 X1 E1', 'G1 Z1'] + ['G1 X2'] * 130]
CMDS = [['M226'], ['A1', 'A2'], ['A1', '', '  A3 ', '\n'], ['G1 Z9', ';c', 'G1 X1'], [], ['M104 S1 ; hot', '(note) M1', 'M104 S1 ; hot', ';G1 Z5'], ['G1 X%d' % k for k in range(140)]]
REW = [['M226'], ['A1', ' A2', ''], ['G1 Z9', ';c', 'G1 X1', 'M1'], [], ['M1', 'M1', 'M1 ; x', 'M1'], ['G1 X%d' % k for k in range(300)]]


class CHECK(Check):
    id = 'C09'
    rule = ('every sequence of up to 3 (thorough: 4) edits (prepend or replace, every non-empty layer, several command '
            'lists; one append kind) on several layer structures, against a list-of-lists model')
    assumptions = ['layers edited are not empty, as stated']

    def spaces(self, tier):
        ops = []
        for layer in list(range(5)) + [120, 258]:
            for c in range(len(CMDS)):
                ops.append(('pre', layer, c))
            for c in range(len(REW)):
                ops.append(('rew', layer, c))
        ops.append(('app', None, None))
        late = [o for o in ops if o[1] in (None, 120, 258, 3)]
        base = [o for o in ops if (o[1] is None or o[1] < 5) and (o[2] is None or o[2] < 5)]
        few = [o for o in ops if o[2] in (None, 1, 2) and (o[1] is None or o[1] < 4)]
        r = [product('edits1', range(len(PROGRAMS)), ops), product('edits2', range(5), ops, ops),
             product('large', range(5, len(PROGRAMS)), ops, late),
             product('edits3', range(5), few, base, base)]
        if tier == 'thorough':
            r.append(product('edits4', range(5), few, few, base, base))
        return r

    def show(self, case):
        return {'program': PROGRAMS[case[0]],
                'edits': [(o[0], o[1], None if o[2] is None else (CMDS if o[0] == 'pre' else REW)[o[2]]) for o in case[1:]]}

    def run(self, case, st):
        prog, ops = PROGRAMS[case[0]], case[1:]
        g = GCode(list(prog))
        model = [[l.raw for l in layer] for layer in g.all_layers]
        for op, layer, ci in ops:
            if op == 'app':
                g.append('M999')
                model[-1].append('M999')
            else:
                if layer >= len(model) or not model[layer]:
                    return
                cmds = (CMDS if op == 'pre' else REW)[ci]
                clean = [c.strip() for c in cmds if c.strip()]
                given = list(cmds)
                ret = (g.prepend_to_layer if op == 'pre' else g.rewrite_layer)(given, layer)
                if list(ret) != clean:
                    raise Violation('%s returns %r' % (op, ret), case=self.show(case))
                if given != cmds:
                    raise Violation('%s changes the list it is given' % op, case=self.show(case))
                model[layer] = clean + (model[layer] if op == 'pre' else [])
            st.transitions += 1
            flat = [l for m in model for l in m]
            if text_of(g) != flat:
                raise Violation('written program is not the edited one', case=self.show(case), got=text_of(g), want=flat)
            if [l.raw for l in g.lines] != flat:
                raise Violation('line list is not the edited program', case=self.show(case), got=[l.raw for l in g.lines],
                                want=flat)
            if len(g.layer_idxs) != len(flat) or len(g.line_idxs) != len(flat) or len(g) != len(flat):
                raise Violation('index tables have %d/%d entries for %d lines' % (
                    len(g.layer_idxs), len(g.line_idxs), len(flat)), case=self.show(case))
            want = [(i, j) for i, m in enumerate(model) for j in range(len(m))]
            got = [tuple(g.idxs(i)) for i in range(len(flat))]
            if got != want:
                raise Violation('index tables are %r, lines are at %r' % (got, want), case=self.show(case))
            for i, (a, b) in enumerate(want):
                if g.all_layers[a][b].raw != flat[i]:
                    raise Violation('line %d is not at its index' % i, case=self.show(case))
            st.states.add(h(tuple(tuple(m) for m in model)))
        st.nontrivial += 1
        st.outcomes.add(h(tuple(flat)))
