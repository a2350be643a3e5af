import math

from vf.core import Violation, h, product
from vf.checks.c23 import CHECK as C23
from vf.tempcal import BLOCKS, GRADIENTS, M104, MINZ, TEMPS, calibrate, domain, options


class CHECK(C23):
    id = 'C24'
    rule = ('every sequence of the stated length of printed, unprinted and relative layers, comments and commands, with every '
            'temperature pair, gradient and minimum height; the temperature in force at every layer is compared with the '
            'documented one; non-trivial: two different temperatures are set')
    assumptions = C23.assumptions + ['temperatures have one decimal', 'a height within 1e-9 of the limit of two bands may have '
                                     'the temperature of either']

    @staticmethod
    def targets(z, zmin, zmax, start, end, steps):
        """acceptable exact temperatures at that height"""
        ratio = (z - zmin) / (zmax - zmin)
        if steps is None:
            return [start + (end - start) * ratio]
        x = ratio * (steps + 1)
        bands = {min(int(math.floor(x + d)), steps) for d in (-1e-9, 0, 1e-9)}
        return [start + (end - start) * b / float(steps) for b in bands if b >= 0]

    def run(self, case, st):
        prog, runs, printed, out, error = calibrate(case)
        if runs is None:
            return
        minz, steps = options(case)
        dom = domain(runs, printed, minz)
        if dom is None:
            return
        if error is not None:
            raise Violation('fails with %r' % error, program=prog)
        j, current = 0, None
        start, end = case[1]
        seen = set()
        for z, ls in runs:
            st.transitions += 1
            placed = False
            # commands set before the first line of the layer
            while j < len(out) and out[j] != ls[0]:
                m = M104.match(out[j])
                if m:
                    current = float(m.group(1))
                    seen.add(current)
                    placed = True
                j += 1
            j += len(ls)
            if z is not None and dom[0] <= z <= dom[1]:
                ts = self.targets(z, dom[0], dom[1], start, end, steps)
                safe = [t for t in ts if 150 <= t <= 250]
                near = [t for t in ts if 149.949 <= t <= 250.051]
                if safe == ts and (current is None or all(abs(current - t) > 0.0501 for t in ts)):
                    raise Violation('temperature is %r instead of %r at height %g' % (current, ts, z), program=prog, output=out)
                if placed and all(abs(current - t) > 0.0501 for t in near):
                    raise Violation('temperature %r is set instead of %r at height %g' % (current, ts, z), program=prog,
                                    output=out)
            elif placed:
                raise Violation('a temperature is set at height %r' % z, program=prog, output=out)
            st.states.add(h((z, dom, case[1:3], current)))
        st.outcomes.add(h(out))
        if len(seen) > 1:
            st.nontrivial += 1
