from vf.core import Check, Violation, h, product, seqs
from vf.common import repeated, same, text_of
from gcodeutils.gcoder import GCode, LightGCode

LETTERS = ['G1 X1 Y2 E1 F600', 'G0 X-3', 'G1 Z0.2', 'G1 Z0.4 E2', 'G90', 'G91', 'M82', 'M83', 'G20', 'G21', 'G92', 'G92 X5 E0',
           'G28', 'G28 Y', 'T1', ';c', 'G1 E-1', 'M104 S2', 'G2 X1 Y1 I1 J0', 'Test', 'G92 Z1', '  G4 P1000 ']
ODD = ['G1 X1 F600', 'G1 F0', ';', 'G1', '(c)', 'T', 'T300', 'G1 X-', 'N5 G1 X1 E1*7', 'G92 X', 'G28 Z0 ; h', 'M83', 'G1 X1 E1 ; \xe9', 'g1 z.2e1', '%', 'G1 X2 ; ;', '\tG1 X4 E2\t', ';a\tb\x0c\n']
LONG = [(['M83'], ['G1 X{k} E0.125', 'G1 E-0.25', 'G1 Z{k}']), (['M82'], ['G1 X1 E{k}', 'G92 E0', ';{k}']), ([], ['T{k}', 'G28 X', 'G92 Y{k}', 'G1 X1 Y1']),
        (['G91'], ['G1 Z0.2', 'G1 X1 E1'])]
STATE = ['imperial', 'relative', 'relative_e', 'current_tool', 'current_f', 'current_x', 'current_y', 'current_z',
         'offset_x', 'offset_y', 'offset_z', 'current_e', 'offset_e', 'total_e', 'max_e']
RECORD = ['command', 'x', 'y', 'z', 'e', 'f', 'i', 'j', 'is_move', 'relative', 'relative_e', 'current_x', 'current_y',
          'current_z', 'current_f', 'current_e', 'extruding', 'current_tool']
FIGURES = ['filament_length', 'xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax', 'width', 'depth', 'height', 'duration',
           'layers_count'] + STATE


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return (a or None) == (b or None) if not isinstance(a, str) else a == b
    return same(a, b, 1e-9)


class CHECK(Check):
    id = 'C06'
    rule = ('every program of the stated length at every split point: prefix parsed, rest appended; plus unstored appends '
            'and the light representation')
    assumptions = ['layer building is only done by whole-program parsing: appended lines go to one open layer']

    def spaces(self, tier):
        r = [seqs('len%d' % n, LETTERS, n) for n in (1, 2, 3)]
        r.append(seqs('deep4', LETTERS[:14], 4))
        r.append(seqs('home', LETTERS, 2, prefix=['G1 X3 Y4 Z5 E6'], wrap=lambda p: ['HOME'] + p))
        r.append(seqs('odd', ODD, 3))
        r.append(product('long', LONG, (33, 66, 130), wrap=lambda t: repeated(t[0][0], t[0][1], t[1])))
        if tier == 'thorough':
            r.append(seqs('len4', LETTERS, 4))
            r.append(seqs('deep5', LETTERS[:14], 5))
        return r

    def run(self, prog, st):
        home = None
        if prog[0] == 'HOME':
            home, prog = (7, 8, 9), prog[1:]
        whole = GCode(list(prog), home)
        light = LightGCode(list(prog), home)
        for k in FIGURES:
            if not eq(getattr(whole, k, None), getattr(light, k, None)):
                raise Violation('light representation: %s is %r instead of %r' % (k, getattr(light, k, None), getattr(whole, k, None)),
                                program=prog)
        if text_of(light) != text_of(whole) or [l.raw for l in light.lines] != [l.raw for l in whole.lines]:
            raise Violation('light representation: different text', program=prog, text=text_of(light))
        if ([(l.z, len(l), l.duration) for l in light.all_layers] != [(l.z, len(l), l.duration) for l in whole.all_layers]
                or light.all_zs != whole.all_zs or list(light.layer_idxs) != list(whole.layer_idxs)
                or list(light.line_idxs) != list(whole.line_idxs)):
            raise Violation('light representation: different layers', program=prog)
        for k in range(len(prog) + 1):
            for store in (True, False):
                g = GCode(list(prog[:k]), home)
                for l in prog[k:]:
                    r = g.append(l, store) if not store else g.append(l)
                    if r is None or r.raw != l.strip():
                        raise Violation('append(%r) returns %r' % (l, r and r.raw), program=prog)
                    st.transitions += 1
                g.append('   ')
                for a in STATE:
                    if not eq(getattr(g, a, None), getattr(whole, a, None)):
                        raise Violation('%s is %r after appending from line %d, %r when parsed whole (stored: %s)' % (
                            a, getattr(g, a, None), k, getattr(whole, a, None), store), program=prog)
                want = whole.lines if store else whole.lines[:k]
                if [l.raw for l in g.lines] != [l.raw for l in want] or len(g) != len(want):
                    raise Violation('line list differs after appending from line %d (stored: %s)' % (k, store),
                                    program=prog, lines=[l.raw for l in g.lines])
                if text_of(g) != [l.raw for l in want]:
                    raise Violation('written program differs after appending from line %d (stored: %s)' % (k, store),
                                    program=prog, text=text_of(g))
                for i, (a, b) in enumerate(zip(g.lines, want)):
                    for f in RECORD:
                        if not eq(getattr(a, f, None), getattr(b, f, None)):
                            raise Violation('line %d: %s is %r after appending from line %d, %r when parsed whole' % (
                                i, f, getattr(a, f, None), k, getattr(b, f, None)), program=prog)
                    li, pi = g.idxs(i)
                    if g.all_layers[li][pi] is not a:
                        raise Violation('line %d is not at its index %r after appending from line %d' % (i, (li, pi), k),
                                        program=prog)
        st.states.add(h(tuple(getattr(whole, a) for a in STATE)))
        st.outcomes.add(h(tuple((l.z, len(l)) for l in whole.all_layers)))
        if len(prog) > 1:
            st.nontrivial += 1
