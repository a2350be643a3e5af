from vf.core import Check, Violation, h, seqs, product
from vf.machine import Machine, parse
from gcodeutils.gcoder import GCode

LETTERS = ['G1 Z0.2', 'G1 Z0.4', 'G1 X2 Z0.3 E2', 'G1 X1 E1', 'G1 X5', 'G1 E-1', 'G90', 'G91', 'M82', 'M83', 'G92 E0',
           'G92 Z0', 'G92', ';c', 'G2 X1 Y1 I1 J1 E3', 'G1 Z-0.1', 'M104 S200', 'G0 Z0', 'G28 X0 Y0']
# realistic blocks: whole layers, hops, primes
BLOCKS = [('G1 Z0.2', 'G1 X1 E1', 'G1 X2 E1'), ('G1 Z0.4 F600', 'G1 X1 E1'), ('G1 X3 Z0.6 E1',), ('G1 Z0.5',),
          ('G91', 'G1 Z0.6', 'G90'), ('G91', 'G1 Z-0.6', 'G90'), ('G91', 'G1 Z0.6', 'G0 X5', 'G1 Z-0.6', 'G90'),
          ('G1 X7',), ('G1 E2',), ('G1 E-2',), (';LAYER:1',), ('G91', 'G1 Z0.1 E1', 'G90'), ('M82', 'G92 E0'), ('M83',),
          ('G92 Z0.3',), ('G1 Z15', 'G1 X1', 'G1 Z0.2')]
FINE = ['G1 Z0.225', 'G1 Z0.3625', 'G1 X1 Z0.49375 E1', 'G1 X1 E1', 'G91', 'G90', 'M83', 'G1 Z0.0625', 'G1 Z-0.1375', 'G92 Z0.225', 'G1 Z0.285', 'G1 Z0.204', 'G20', 'G21']
INCHES = ['G1 Z0.1', 'G1 X1 Z0.5 E1', 'G1 X1 E1', 'G1 Z-0.1', 'G91', 'G90', 'M83', 'G92 Z0.5', 'G92', 'G21', 'G20', 'G1 Z12.7', 'G1 X5']


STARTS = [-2.5, -0.6, 0.05, 0.1, 0.2, 0.25, 0.3, 0.35, 0.9, 1.0, 9.1, 9.85, 10.0, 99.8, 100.0, 199.95, 255.9, 500.0]
STEPS = [0.05, 0.06, 0.07, 0.1, 0.12, 0.15, 0.2, 0.25, 0.3, 0.33, 0.4, 0.6, 1.0, 5.0]
STYLES = ['absolute', 'relative', 'hop', 'reset', 'joined', 'first thicker', 'down']


def stack(t, places=2):
    """A program printing n layers, step apart, from start up"""
    start, step, n, style = t
    p = ['G90', 'M82', 'G92 E0']
    zs = [round(start + k * step + (0.15 if style == 'first thicker' and k else 0), places) for k in range(n)]
    if style == 'down':
        zs.reverse()
    for k, z in enumerate(zs):
        if style == 'relative' and k:
            p += ['G91', 'G1 Z%.*f' % (places, z - zs[k - 1]), 'G90', 'M82']
        elif style == 'hop':
            p += ['G1 Z%.*f F3000' % (places, z + 0.5), 'G1 X%d' % (k % 50 + 9), 'G1 Z%.*f' % (places, z)]
        elif style == 'reset' and k:
            p += ['G92 Z%.*f' % (places, zs[k - 1]), 'G1 Z%.*f' % (places, z)]
        elif style == 'joined':
            p += ['G1 X%d Z%.*f E%d' % (k % 50 + 3, places, z, 2 * k + 1)]
        else:
            p += ['G1 Z%.*f' % (places, z)]
        p += ['G1 X%d E%d' % (k % 50, 2 * k + 2)]
    return p


FSTARTS = [.0625, .125, .1875, .205, .215, .225, .235, .3333, 1.00049, 9.99, 9.9975, 123.4565]
FSTEPS = [.02, .0225, .03, .0301, .04, .05, .0625, .0505, .0909, .125, .1666, .255, .3125, .1005]


def fine_stack(t):
    return stack(t, 4)


class CHECK(Check):
    id = 'C04'
    rule = ('every sequence of the stated length of height changes (absolute, relative, by G92), extrusions, travels, '
            'retractions, mode switches and comments, and of realistic blocks of them; stacks of layers, over start heights, steps, layer counts and ways to lift; sequences with heights that are '
            'not at least 0.02 mm apart are outside the property and skipped')
    assumptions = ['homing does not begin a layer', 'the height a layer reports is compared to 0.005 mm, printed heights to 1e-6 mm',
                   'moves made before any height is set belong to no height']

    def spaces(self, tier):
        flat = lambda p: [l for b in p for l in b]
        r = [seqs('len%d' % n, LETTERS, n) for n in (1, 2, 3)]
        r += [seqs('blocks%d' % n, BLOCKS, n, wrap=flat) for n in (1, 2, 3, 4)]
        r.append(seqs('len4', LETTERS, 4))
        r.append(seqs('rel4', LETTERS, 4, prefix=['M83', 'G1 Z0.3 E1'], wrap=list))
        r.append(seqs('inches', INCHES, 4, prefix=['G20']))
        r.append(seqs('fine', FINE, 4))
        r.append(product('fine stacks', FSTARTS, FSTEPS, [2, 3, 8, 60], STYLES, wrap=fine_stack))
        r.append(product('stacks', STARTS, STEPS, [1, 2, 3, 8, 60], STYLES, wrap=stack))
        r.append(product('towers', [0.2], [0.1, 0.2, 0.25], [700], STYLES, wrap=stack))
        if tier == 'thorough':
            r.append(product('tall stacks', STARTS, STEPS, list(range(4, 40)) + [300, 1200], STYLES, wrap=stack))
            r.append(seqs('blocks5', BLOCKS, 5, wrap=flat))
            r.append(seqs('len5', LETTERS, 5))
        return r

    @staticmethod
    def reference(prog):
        """[(z or None, [line, ...])], {printed heights}; None when the heights are outside the property"""
        m = Machine()
        z = None
        runs = [[None, []]]
        printed = set()
        for text in prog:
            c = parse(text)
            de = m.step(c)
            nz = z
            v = c.args.get('Z')
            if c.is_move and v is not None:
                nz = v * m.unit if not m.rel or z is None else z + v * m.unit
            elif c.code == 'G92':
                if v is not None:
                    nz = v * m.unit
                elif not any(c.args.get(k) is not None for k in 'XYE'):
                    nz = 0.0
            if nz is not None:
                nz = round(nz, 6)
            if nz != z:
                if z is not None and abs(nz - z) < 0.02 - 1e-9:
                    return None, None
                z = nz
                runs.append([z, []])
            runs[-1][1].append(text)
            if de is not None and de > 1e-9 and z is not None:
                printed.add(z)
        hs = sorted({r[0] for r in runs if r[0] is not None})
        if any(b - a < 0.02 - 1e-9 for a, b in zip(hs, hs[1:])):
            return None, None
        return [r for r in runs if r[1]], printed

    def run(self, prog, st):
        runs, printed = self.reference(prog)
        if runs is None:
            return
        g = GCode(list(prog))
        st.transitions += len(prog)
        layers = [l for l in g.all_layers if len(l)]
        got = [[x.raw for x in l] for l in layers]
        if got != [r[1] for r in runs]:
            raise Violation('layers do not break at the height changes', program=prog, layers=got,
                            expected=[r[1] for r in runs])
        for l, r in zip(layers, runs):
            if (l.z is None) != (r[0] is None) or l.z is not None and abs(l.z - r[0]) > .005 + 1e-9:
                raise Violation('layer at height %r reports %r' % (r[0], l.z), program=prog)
        zs = sorted(round(z, 6) if z is not None else -1e9 for z in g.all_zs)
        if zs != sorted(printed):
            raise Violation('printed heights are %r, extruded at %r' % (sorted(g.all_zs, key=repr), sorted(printed)),
                            program=prog)
        if g.layers_count != len(printed):
            raise Violation('%r layers counted, %d heights printed' % (g.layers_count, len(printed)), program=prog)
        st.states.add(h((tuple(r[0] for r in runs), tuple(sorted(printed)))))
        st.outcomes.add(h((tuple((r[0], len(r[1])) for r in runs), tuple(sorted(printed)))))
        if len(runs) > 1 and printed:
            st.nontrivial += 1
