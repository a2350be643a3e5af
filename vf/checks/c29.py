import datetime
import io
import os
import re
import shutil
import sys

from vf.checks.c04 import CHECK as Layers
from vf.core import Check, Violation, h, product, seqs
from vf.machine import Machine, parse
from vf.tools import run_tool, scratch
from gcodeutils.gcoder import GCode

LETTERS = ['G1 X1 Y2 E1', 'G1 X-3 E2', 'G1 X105.5 Y7', 'G0 Y-4 F3000', 'G1 E-2', 'G1 Z0.2', 'G1 Y9 Z0.45 E3', 'G91', 'G92 X2 E0', 'G20', 'G28',
           'G4 P61500', '; c', 'G4 P3600000', 'G1 X2.345 Y1.005 E1.237 F60', 'M83', 'G4 P86400000']
WIDE = ['G1 X123456.785 E1', 'G1 Y-98765.43 E70000.125', 'G1 Z-1.5 E1', 'G1 Z1234.56 E123456.78', 'G1 X-0.004 E-1', 'G0 Z-30', 'G92 Z5', 'G91',
        'G4 P4000000000', 'G1 X1 Y1 Z1 E1 F1', '; caf\xe9 \u2019 \U0001f600', 'T1', 'G28', 'G2 X3 Y4 I1 J1 E5', 'M117 \xb5\xb0', 'G20']
ENDS = ['\n', '', '\r\n', '\n\n']


def figures(prog):
    """(extents per axis, filament used, number of layers or None when heights are too close to tell) of a machine executing it"""
    m = Machine()
    ext, mov = [], []
    for text in prog:
        c = parse(text)
        de = m.step(c)
        if c.is_move:
            mov.append((m.x, m.y))
            if de is not None and de > 1e-9:
                ext.append((m.x, m.y))
    pts = ext if m.maxe > 1e-9 else mov
    xs, ys = [p[0] for p in pts] or [0.], [p[1] for p in pts] or [0.]
    runs, printed = Layers.reference(prog)
    zs = None if runs is None else set(printed)
    return xs, ys, zs, m.maxe


class CHECK(Check):
    id = 'C29'
    rule = ('every command sequence of the stated length, stored in a file with every kind of line ends and summarised through the '
            'entry point; every figure of the report against a machine executing the program. Non-trivial: some figure is not 0')
    assumptions = ['figures have two decimals, so they are compared to 0.005 (and a rounding error)',
                   'the duration is that of the library, which C27 checks']

    def spaces(self, tier):
        n = 3 if tier == 'quick' else 4
        r = [seqs('len%d' % k, LETTERS, k, wrap=lambda p, k=k: (p, '\n')) for k in range(n + 1)]
        for e in ENDS[1:]:
            r.append(seqs('len2 %r' % e, LETTERS, 2, wrap=lambda p, e=e: (p, e)))
        r += [seqs('wide%d' % k, WIDE, k, wrap=lambda p: (p, '\n')) for k in ((1, 2) if tier == 'quick' else (1, 2, 3))]
        r.append(seqs('wide print', WIDE, 2, prefix=['G90', 'M82', 'G28', 'G1 Z0.2 F1200', 'G1 X10 Y20 E3 F1800'],
                      suffix=['G1 X30 E4', 'G1 Z0.6', 'G1 Y50 E5', 'G1 E3'], wrap=lambda p: (p, '\n')))
        tower = lambda n, z, k: ['G90', 'M83'] + [l for i in range(1, n + 1) for l in ['G1 Z%.3f F1200' % (i * z)] + ['G1 X%d Y%d E1' % (
            (i + j) * 7 % 101 - 30, (i - j) * 3 % 89 - 11) for j in range(k)]] + ['G1 Z%.3f' % (n * z + 50)]
        r.append(product('towers', [1, 2, 9, 100, 255, 256, 300, 1100], [.1, .25, 2.], [1, 2, 40], wrap=lambda t: (tower(*t), '\n')))
        r.append(product('huge', [.2], [3, 800], wrap=lambda t: (tower(150, t[0], t[1]) + ['G1 X-777 E9'], '\n')))
        r.append(seqs('print', LETTERS, 2, prefix=['G90', 'M82', 'G28', 'G1 Z0.2 F1200', 'G1 X10 Y20 E3 F1800'],
                      suffix=['G1 X30 E4', 'G1 Z0.6', 'G1 Y50 E5', 'G1 E3'], wrap=lambda p: (p, '\n')))
        return r

    def run(self, case, st):
        prog, end = case
        text = (end or '\n').join(prog) + end
        d = scratch('vf29')
        try:
            path = os.path.join(d, 'a.gcode')
            with io.open(path, 'w', newline='', encoding='utf-8') as f:
                f.write(text)
            out, error = run_tool('gcoder', [path])
            with io.open(path, newline='', encoding='utf-8') as f:
                if f.read() != text:
                    raise Violation('the summarised program is changed', program=prog)
        finally:
            shutil.rmtree(d, True)
        st.transitions += len(prog)
        if error is not None:
            raise Violation('the summary fails: %r' % error, program=prog)
        report = {}
        for l in out.split('\n'):
            k, sep, v = l.strip().partition(':')
            if sep:
                report[k.strip()] = v.strip()
        xs, ys, zs, used = figures(prog)
        want = {'X': (min(xs), max(xs)), 'Y': (min(ys), max(ys))}
        if zs is not None:
            zs0 = zs | {0.}
            want['Z'] = (min(zs0), max(zs0))
            self.equal(report, 'Number of layers', [len(zs)], prog, out, 0)
        for k in want:
            lo, hi = want[k]
            self.equal(report, k, [lo, hi, hi - lo], prog, out, .005 + 1e-6)
        self.equal(report, 'Filament used', [used], prog, out, .005 + 1e-6)
        t = report.get('Estimated duration')
        g = GCode(list(prog) or [';'])
        expected = str(g.duration)
        total = sum(l.duration or 0 for l in g.all_layers)
        if expected not in [str(datetime.timedelta(seconds=int(total + d))) for d in (-1e-3, 0, 1e-3)]:
            raise Violation('the duration is %s, the layers last %r s in all' % (expected, total), program=prog, output=out)
        if t != expected:
            raise Violation('the duration is reported as %r, is %r' % (t, expected), program=prog, output=out)
        st.states.add(h((tuple(sorted(want.items())), used)))
        st.outcomes.add(h(out))
        if used or any(v != (0, 0) for v in want.values()) or expected != '0:00:00':
            st.nontrivial += 1

    @staticmethod
    def equal(report, k, values, prog, out, eps):
        v = report.get(k)
        if v is None:
            raise Violation('the report has no %r' % k, program=prog, output=out)
        # "a - b (c)"
        m = re.match(r'^(-?[\d.]+) - (-?[\d.]+) \((-?[\d.]+)\)$', v) if len(values) == 3 else re.match(r'^(-?[\d.]+) *(?:mm)?$', v)
        if not m:
            raise Violation('the report says %r for %s' % (v, k), program=prog, output=out)
        for a, b in zip(m.groups(), values):
            if abs(float(a) - b) > eps:
                raise Violation('%s is reported as %r, is %r' % (k, v, values), program=prog, output=out)
