from vf.common import SIZES, repeated, valued
from vf.core import Check, Violation, h, product, seqs
from vf.machine import AXES, Machine, parse
from gcodeutils.gcoder import GCode, LightGCode

LETTERS = ['G1 X1', 'G0 Y2 F600', 'G1 X1 E1 F1200.5', 'G2 X5 Y5 I1 J-1 E2', 'G3 X1 I2 F90', 'G1 F50', 'G1', 'G1 X Y3',
           'G90', 'G91', 'M82', 'M83', 'G20', 'G21', 'T0', 'T1', 'T12', 'T', 'M104 T2 S200', 'M6 T3', 'G92 E0', 'G92 X1 F77', 'G92',
           'G28 X0 F88', 'G4 P100', 'M106 S1 F99 X3', ';T4 F5 G91', 'G10 X1 F3', 'G1 Z.5 ; T7 F8']
DEEP = ['G1 X1 E1', 'G1 Y2 F600', 'G90', 'G91', 'M82', 'M83', 'G20', 'G21', 'T1', 'T0', 'G92', 'G3 X1 I2 F90']
CONTEXTS = [[], ['G20'], ['G91'], ['G20', 'M83', 'T3'], ['G91', 'M82', 'G1 F500'], ['G92 X1 Y2 Z3 E4', 'G20', 'G21']]
LONG = [([], ['T{k}', 'G1 X{k} F{k}0']), (['G20'], ['G1 X1 F{k}', ';c', 'G2 X{k} I.5 J{k}']), (['T2'], ['G91', 'G1 X1', 'M82', 'G1 E{k}', 'G90', 'G1 E1'])]
EPS = 1e-6


def close(a, b):
    return a is None and b is None or a is not None and b is not None and abs(a - b) <= EPS * max(1, abs(b))


class CHECK(Check):
    id = 'C33'
    rule = ('every command sequence of the stated length over moves, modes, units, tools, feed rates and commands which look like them; '
            'every argument subset and value in every context; the record of every command is compared with the reference machine. '
            'Non-trivial: a move follows a change of settings')
    assumptions = ['no argument is given twice', 'tools are numbered from 0', 'values compared to 1e-6 (relative above 1)']

    def spaces(self, tier):
        r = [seqs('len%d' % n, LETTERS, n) for n in (1, 2, 3)]
        words = [[''] + [a + v for v in vs] for a, vs in zip('XYZEFIJ', (['3', '-.5', ''], ['0', '1.25'], ['.2'], ['1', '-2'], ['600'], ['1.5'], ['-1']))]
        r.append(product('args', CONTEXTS, ['G0', 'G1', 'G2', 'G3', 'G92', 'G28', 'G10'], *words,
                         wrap=lambda t: t[0] + [' '.join([t[1]] + [w for w in t[2:] if w]), 'G1 X1']))
        r.append(product('orders', CONTEXTS[:4], ['G1', 'G2', 'G92'], ['XYZE', 'EZYX', 'FXYE', 'IJXY', 'YXJI', 'EFX', 'ZXF'], ['', '-', '+', '0'],
                         wrap=lambda t: t[0] + [' '.join([t[1]] + ['%s%s%d.%d' % (a, t[3], k + 1, k) for k, a in enumerate(t[2])])]))
        vs = valued(('G0', 'G1', 'G3', 'G92', 'G28'), 'XYZEFIJ', smallest=1)
        r.append(product('values', CONTEXTS, vs, wrap=lambda t: t[0] + [t[1], 'G1 Y1']))
        r.append(seqs('deep4', DEEP, 4, wrap=lambda p: list(p) + ['G1 X2 E2']))
        r.append(seqs('len4', LETTERS[:9] + LETTERS[9:23:2], 4))
        r.append(product('long', LONG, SIZES, wrap=lambda t: repeated(t[0][0], t[0][1], t[1])))
        if tier == 'thorough':
            r.append(seqs('all len4', LETTERS, 4))
            r.append(seqs('deep6', DEEP, 6, wrap=lambda p: list(p) + ['G1 X2 E2']))
        return r

    def run(self, prog, st):
        g = GCode(list(prog))
        m = Machine()
        changed = False
        for i, text in enumerate(prog):
            c = parse(text)
            l = g.lines[i]
            m.step(c)
            st.transitions += 1
            if c.code and c.code[0] == 'G':
                if l.command != c.code:
                    raise Violation('%r is taken as %r' % (text, l.command), program=prog)
                for a in AXES:
                    v = c.args.get(a)
                    want = v if v is None else v * m.unit
                    if not close(getattr(l, a.lower()), want):
                        raise Violation('%s of %r is %r instead of %r' % (a, text, getattr(l, a.lower()), want), program=prog)
                if bool(l.imperial) != (m.unit != 1):
                    raise Violation('%r is recorded as %s inches' % (text, 'in' if l.imperial else 'not in'), program=prog)
            if bool(l.is_move) != c.is_move:
                raise Violation('%r is recorded as %sa move' % (text, '' if l.is_move else 'not '), program=prog)
            if c.is_move:
                got = (bool(l.relative), bool(l.relative_e), l.current_tool)
                if got != (m.rel, m.rele, m.tool):
                    raise Violation('modes and tool at %r are %r instead of %r' % (text, got, (m.rel, m.rele, m.tool)), program=prog)
                if not close(l.current_f, m.f):
                    raise Violation('feed rate at %r is %r instead of %r' % (text, l.current_f, m.f), program=prog)
                if not close(l.current_e, m.e):
                    raise Violation('extruder at %r is at %r instead of %r' % (text, l.current_e, m.e), program=prog)
                if changed:
                    st.nontrivial += 1
                    changed = None
            elif changed is False and c.code:
                changed = True
            st.states.add(h(m.key()))
        want = (m.rel, m.rele, m.unit != 1, m.tool)
        for made in (g, LightGCode(list(prog))):
            got = (made.relative, made.relative_e, made.imperial, made.current_tool)
            if tuple(map(bool, got[:3])) + got[3:] != want:
                raise Violation('final modes and tool are %r instead of %r' % (got, want), program=prog)
            if not close(made.current_f, m.f) or not close(made.current_e, m.e) or not close(made.abs_e, m.e - m.oe):
                raise Violation('final feed rate and extruder positions are %r instead of %r' % (
                    (made.current_f, made.current_e, made.abs_e), (m.f, m.e, m.e - m.oe)), program=prog)
        st.outcomes.add(h((want, round(m.f, 3), round(m.e, 4))))
