from vf.core import Check, Violation, h, seqs, product
from vf.common import SIZES, repeated, valued
from vf.machine import Machine, parse
from gcodeutils.gcoder import GCode

EPS = 1e-6

LETTERS = ['G1 X10', 'G0 Y-5.5', 'G1 Z2', 'G1 X1 Y2 Z3 F600', 'G2 X5 Y5 I1 J1', 'G3 X-2.25 Y7', 'G1 X0 Y0',
           'G90', 'G91', 'G20', 'G21', 'G28', 'G28 X0', 'G28 Y', 'G28 X Z', 'G28 Z0',
           'G92', 'G92 X3', 'G92 Y0', 'G92 Z-1', 'G92 X0 Y0 Z0', 'G92 E0', 'G92 X0 E5', 'M104 S200', ';c', 'G1 E2 F300']
DEEP = ['G1 X10', 'G1 X1 Y-2 Z3', 'G90', 'G91', 'G20', 'G21', 'G28', 'G28 X0', 'G28 Y Z', 'G92', 'G92 X3', 'G92 Y1 Z0',
        'G0 Y4']
LONG = [(['G91'], ['G1 X0.1 Y-0.25', 'G1 Z0.05']), ([], ['G1 X{k} Y-{k}.5', 'G92 X0', 'G1 X2', 'G92 Y1']),
        (['G20', 'G91'], ['G1 X1', 'G90', 'G1 Y{k}', 'G91', ';c']), ([], ['G92', 'G1 X1 Y1 Z1', 'G92 Z{k}']),
        ([], ['G28 X', 'G1 X{k}', 'G92 X-{k}', 'G2 X1 Y{k} I1', 'T{k}'])]
HOMES = [None, (1, 2, 3), (-7.5, 200, 0.25), (0, 0, 0)]


class CHECK(Check):
    id = 'C01'
    rule = ('every command sequence of the stated length over the alphabet (moves, modes, units, homing, G92 variants); '
            'the model position is compared after every command; non-trivial: the program moves the head at least twice')
    assumptions = ['coordinates compared to 1e-6 mm', 'homing sets a homed axis to the given home position']

    def spaces(self, tier):
        r = [seqs('len%d' % n, LETTERS, n, wrap=lambda p: (None, p)) for n in (1, 2, 3)]
        argsets = []
        vals = {'X': ['', 'X0', 'X10', 'X-3.5'], 'Y': ['', 'Y0', 'Y7.25'], 'Z': ['', 'Z0', 'Z0.3'],
                'E': ['', 'E1.5'], 'F': ['', 'F1200']}
        for x in vals['X']:
            for y in vals['Y']:
                for z in vals['Z']:
                    for e in vals['E']:
                        argsets.append(' '.join(w for w in (x, y, z, e) if w))
        ctx = [[], ['G91'], ['G20'], ['G20', 'G91'], ['G92 X1 Y2 Z3'], ['G1 X4 Y5 Z6', 'G92'], ['G1 X4 Y5 Z6', 'G91'],
               ['G1 X4 Y5 Z6', 'G92 X0', 'G28 X0'], ['G20', 'G1 X1 Y1 Z1', 'G92 Y2'], ['G91', 'G1 X4', 'G90']]
        cmds = ['G0', 'G1', 'G2', 'G3', 'G92', 'G28']
        r.append(product('args', HOMES, ctx, cmds, argsets, ['G1 X1', 'G1 Y1 Z1', 'G91'],
                         wrap=lambda t: (t[0], t[1] + [(t[2] + ' ' + t[3]).strip(), t[4], 'G1 X2 Y2 Z2']),
                         note='every argument subset of every positioning command in every mode context'))
        r.append(seqs('home-len3', DEEP, 3, wrap=lambda p: ((1, 2, 3), p + ['G1 X1 Y1 Z1'])))
        r.append(seqs('len4', LETTERS, 4, wrap=lambda p: (None, p)))
        vs = valued(('G0', 'G1', 'G3', 'G92', 'G28'), 'XYZE', smallest=1)
        r.append(product('values', [None, (1, 2, 3)], ctx, vs, ['G91', 'G28 Y', 'G92 Z1'],
                         wrap=lambda t: (t[0], t[1] + [t[2], t[3], 'G1 X2 Y2 Z2'])))
        r.append(product('long', LONG, SIZES, wrap=lambda t: (None, repeated(t[0][0], t[0][1], t[1]))))
        if tier == 'thorough':
            few = vs[::5]
            r.append(product('value pairs', [None], ctx, few, few, ['G1 X2 Y2 Z2'], wrap=lambda t: (t[0], t[1] + list(t[2:]))))
            r.append(seqs('deep5', DEEP, 5, wrap=lambda p: (None, p + ['G1 X1 Y1 Z1'])))
            r.append(seqs('len5', LETTERS, 5, wrap=lambda p: (None, p)))
        return r

    def run(self, case, st):
        home, prog = case
        g = GCode(list(prog), home) if home else GCode(list(prog))
        m = Machine(home or (0, 0, 0))
        lines = g.lines
        moved = 0
        for i, text in enumerate(prog):
            c = parse(text)
            m.step(c)
            st.transitions += 1
            if c.is_move:
                moved += 1
            if c.code is None:
                continue
            l = lines[i]
            got = (l.current_x, l.current_y, l.current_z)
            if not all(abs(a - b) <= EPS for a, b in zip(got, m.pos())):
                raise Violation('position after line %d (%s) is %r, machine is at %r' % (i, text, got, m.pos()),
                                program=prog, home=home)
            st.states.add(h(m.key()))
        if moved > 1:
            st.nontrivial += 1
        got = tuple(g.current_pos)
        if not all(abs(a - b) <= EPS for a, b in zip(got, m.pos())):
            raise Violation('final position is %r, machine is at %r' % (got, m.pos()), program=prog, home=home)
        got = tuple(g.abs_pos)
        if not all(abs(a - b) <= EPS for a, b in zip(got, m.logical())):
            raise Violation('final coordinates are %r, machine reports %r' % (got, m.logical()), program=prog, home=home)
        st.outcomes.add(h(m.pos()))
