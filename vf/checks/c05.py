from vf.core import Check, Violation, h, product, seqs
from vf.common import SIZES, repeated, valued
from vf.machine import Machine, parse
from vf.checks.c04 import CHECK as Layers
from gcodeutils.gcoder import GCode

LETTERS = ['G1 X1 Y2 E1', 'G1 X-3 E2', 'G1 X5 Y7', 'G0 Y-4', 'G1 E-2', 'G1 X8 E-1', 'G1 Z0.2', 'G1 Y9 Z0.4 E3', 'G91', 'G90',
           'M82', 'M83', 'G92', 'G92 X2 E0', 'G92 Y1', 'G20', 'G21', 'G28', 'G2 X3 Y3 I1 J0 E4', ';X99 E9', 'G92 E0']
BELOW = ['G1 Z-0.5', 'G1 X1 Z-1 E1', 'G1 X2 E2', 'G91', 'M83', 'G1 Z-0.1 E1', 'G1 Z3', 'G92 Z-2', 'G92 Z0', 'G1 Z-0.3 E-1', 'G20']
LONG = [(['M83'], ['G1 X{k} Y-{k} E0.125', 'G1 E-0.25']), (['M82'], ['G1 X-{k} E{k}', 'G1 Y{k}', 'G92 E0']), ([], ['G1 X{k}', 'G1 Y{k}', 'G28 Y']),
        (['G91'], ['G1 X1 Y-1 E1', 'G1 X1 Y3', 'G92 X0 E0'])]


class CHECK(Check):
    id = 'C05'
    rule = 'every sequence of the stated length of extruding, travel and retracting moves, offsets, modes and units'
    assumptions = ['extents are those of move end points, as stated', 'compared to 1e-6 mm']

    def spaces(self, tier):
        r = [seqs('len%d' % n, LETTERS, n) for n in (1, 2, 3)]
        r.append(seqs('after', LETTERS, 3, prefix=['G1 X50 Y60', 'G1 X1 Y1 E1', 'G92 E0'], suffix=['G1 X70 Y80']))
        r.append(seqs('len4', LETTERS, 4))
        vs = valued(('G1', 'G0', 'G2', 'G92'), 'XYE', smallest=1)
        r.append(product('values', [[], ['G1 X2 Y3 E1'], ['G1 X-2 Y-3'], ['G91'], ['G20'], ['G92 X5 Y5', 'M83']], vs, ['G1 X1 E5', 'G1 Y1', 'G1 E-1', 'G28'],
                         wrap=lambda t: t[0] + list(t[1:])))
        r.append(seqs('below', BELOW, 4))
        r.append(product('long', LONG, SIZES, wrap=lambda t: repeated(t[0][0], t[0][1], t[1])))
        if tier == 'thorough':
            r.append(seqs('len5', LETTERS, 5))
        return r

    def run(self, prog, st):
        m = Machine()
        ext, mov = [], []
        for text in prog:
            c = parse(text)
            de = m.step(c)
            if c.is_move:
                mov.append((m.x, m.y))
                if de is not None and de > 1e-9:
                    ext.append((m.x, m.y))
        g = GCode(list(prog))
        st.transitions += len(prog)
        pts = ext if m.maxe > 1e-9 else mov
        want = {}
        for i, k in enumerate('xy'):
            v = [p[i] for p in pts] or [0]
            want[k + 'min'], want[k + 'max'] = min(v), max(v)
        want['width'] = want['xmax'] - want['xmin']
        want['depth'] = want['ymax'] - want['ymin']
        for k in want:
            v = getattr(g, k)
            if v is None or abs(v - want[k]) > 1e-6:
                raise Violation('%s is reported as %r, is %r' % (k, v, want[k]), program=prog, points=pts)
        runs, printed = Layers.reference(prog)
        if runs is not None:
            zs = set(printed) | {0}
            for k, w in (('zmin', min(zs)), ('zmax', max(zs)), ('height', max(zs) - min(zs))):
                v = getattr(g, k)
                if v is None or abs(v - w) > 1e-6:
                    raise Violation('%s is reported as %r, is %r' % (k, v, w), program=prog, printed=sorted(printed))
        st.states.add(h(tuple(sorted(set(pts)))))
        st.outcomes.add(h(tuple(sorted(want.items()))))
        if len(pts) > 1:
            st.nontrivial += 1
