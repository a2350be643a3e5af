from vf.checks.c01 import LETTERS as MOVES
from vf.checks.c03 import LINES as ODD
from vf.checks.c04 import CHECK as Layers, STARTS, STEPS, STYLES, stack
from vf.checks.c14 import BLOCKS, LETTERS
from vf.checks.c30 import FAMILY, FIGURES
from vf.core import Check, Violation, h, product, seqs
from vf.machine import Machine, parse
from vf.common import text_of
from gcodeutils.gcoder import GCode, LightGCode

RECORD = ['raw', 'command', 'x', 'y', 'z', 'e', 'f', 'i', 'j', 'is_move', 'relative', 'relative_e', 'current_x', 'current_y', 'current_z', 'current_e',
          'extruding', 'current_tool']


def record(l):
    return tuple(getattr(l, k) for k in RECORD)


def outcome(g):
    return [repr(getattr(g, k)) for k in FIGURES + ['current_x', 'current_y', 'current_z', 'current_e', 'offset_x', 'offset_e', 'imperial',
                                                    'relative', 'relative_e', 'current_tool']] + text_of(g) + [
        (l.z, getattr(l, 'duration', None), len(l)) for l in g.all_layers] + [tuple(g.idxs(i)) for i in range(len(g))]


class Stop(Exception):
    pass


class CHECK(Check):
    id = 'C32'
    rule = ('every command sequence of the stated length and stacks of layers, analysed with callbacks, at once and deferred, in full '
            'and light representation, from every home position; every call is compared with the finished analysis. Non-trivial: a '
            'layer ends')
    assumptions = ['a layer ends where another one begins: nothing is promised for the last one']

    def spaces(self, tier):
        t = tier == 'thorough'
        homes = [None, (1, 2, 3)]
        w = lambda c: (list(c[1:]), c[0])
        r = [product('empty', homes, wrap=w)]
        r += [product('moves%d' % n, homes, *([MOVES] * n), wrap=w) for n in ((1, 2, 3, 4) if t else (1, 2, 3))]
        r += [product('odd%d' % n, homes, *([ODD] * n), wrap=w) for n in ((1, 2, 3) if t else (1, 2, 3))]
        r += [product('layers%d' % n, homes, *([LETTERS] * n), wrap=lambda c: (['M83'] + list(c[1:]), c[0])) for n in ((1, 2, 3, 4, 5) if t else (1, 2, 3, 4))]
        r += [product('blocks%d' % n, homes, *([BLOCKS] * n), wrap=lambda c: (['M83'] + [l for b in c[1:] for l in b], c[0]))
              for n in ((1, 2, 3, 4) if t else (1, 2, 3))]
        r.append(product('stacks', homes, STARTS, STEPS, [2, 8, 60, 300] if t else [2, 8, 60], STYLES, wrap=lambda c: (stack(c[1:]), c[0])))
        r.append(product('family', homes, sorted(FAMILY), wrap=lambda c: (FAMILY[c[1]], c[0])))
        return r

    def run(self, case, st):
        prog, home = case
        plain = GCode(list(prog), home_pos=home)
        want = outcome(plain)
        lines = [l.strip() for l in prog if l.strip()]
        for how in ('at once', 'deferred', 'light'):
            calls, layers = [], []

            def on_line(l):
                calls.append(record(l))

            def on_layer(g, k):
                if not 0 <= k < len(g.all_layers):
                    raise Violation('the layer callback names layer %d of %d' % (k, len(g.all_layers)), program=prog)
                layers.append((g, k, [x.raw for x in g.all_layers[k]], g.all_layers[k].z, getattr(g.all_layers[k], 'duration', None), len(calls)))
            cls = LightGCode if how == 'light' else GCode
            if how == 'deferred':
                g = cls(deferred=True)
                g.prepare(list(prog), home, on_layer, on_line)
            else:
                g = cls(list(prog), home, layer_callback=on_layer, line_callback=on_line)
            st.transitions += len(calls) + len(layers)
            if outcome(g) != want:
                raise Violation('analysing %s with callbacks gives another result' % how, program=prog)
            if [c[0] for c in calls] != lines:
                raise Violation('the line callback is not called once for each line in order (%s)' % how, program=prog, calls=[c[0] for c in calls])
            for c, l in zip(calls, plain.lines):
                if c != record(l):
                    raise Violation('the line callback is called before the line is analysed, or with another one (%s): %r' % (how, c), program=prog,
                                    finished=record(l))
            m = Machine(home or (0, 0, 0))
            for c, text in zip(calls, lines):
                cmd = parse(text)
                m.step(cmd)
                if cmd.is_move and any(abs(a - b) > 1e-6 for a, b in zip(c[12:15], m.pos())):
                    raise Violation('the line callback is given position %r, not %r (%s)' % (c[12:15], m.pos(), how), program=prog)
            n = 0
            if any(x[0] is not g for x in layers):
                raise Violation('the layer callback is not given the program (%s)' % how, program=prog)
            ended = [x[1:5] for x in layers if x[2]]
            expected = [(k, [x.raw for x in l], l.z, l.duration) for k, l in enumerate(plain.all_layers) if l][:-1]
            if ended != expected:
                raise Violation('the layer callback is called with %r, not %r (%s)' % (ended, expected, how), program=prog)
            for x in layers:
                n += len(x[2])
                # lines of the next layer are not announced before the layer ends, those of the layer are
                if x[5] != n:
                    raise Violation('layer %d is said to end after %d lines, it ends after %d (%s)' % (x[1], x[5], n, how), program=prog)
            if ended:
                st.nontrivial += 1
            st.outcomes.add(h([x[1:] for x in layers]))
        st.states.add(h(want))
