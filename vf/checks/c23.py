from vf.core import Check, Violation, h, product
from vf.checks.c04 import FSTARTS, FSTEPS, STARTS, STEPS
from vf.tempcal import BLOCKS, GRADIENTS, M104, MINZ, MORE, TEMPS, calibrate, domain, options, program

FINE = [('-s', '60'), ('-s', '100'), ('-s', '1000')]
TALL = ['absolute', 'relative', 'hop', 'joined', 'first thicker', 'down']


class CHECK(Check):
    id = 'C23'
    rule = ('every sequence of the stated length of printed, unprinted and relative layers, comments and commands, with every '
            'temperature pair, gradient and minimum height; non-trivial: a temperature is set')
    assumptions = ['heights are at least 0.02 mm apart, and no G92 Z', 'one step at least', 'minimum height >= 0']
    both = False

    def spaces(self, tier):
        t = tier == 'thorough'
        b = range(len(BLOCKS))
        wrap = lambda c: (c[:-3], c[-3], c[-2], c[-1])
        r = [product('layers%d' % n, *([b] * n + [TEMPS, GRADIENTS, MINZ]), wrap=wrap) for n in (1, 2)]
        r.append(product('layers3', b, b, b, TEMPS[:1] + TEMPS[3:5], GRADIENTS[:3], MINZ[:3:2], wrap=wrap))
        r.append(product('tower', *([range(6)] * 4 + [TEMPS[1:6:2], GRADIENTS[:4:3], MINZ[:2]]), wrap=wrap))
        low = [k for k, s in enumerate(STARTS) if s > 0]
        stacks = lambda c: (c[:4], c[4], c[5], c[6])
        r.append(product('temperatures', b, b, TEMPS + MORE, GRADIENTS + FINE, MINZ[:2], wrap=wrap))
        r.append(product('stacks', [STARTS[k] for k in low[::2]], STEPS[::3], [2, 30], TALL, TEMPS[:3] + MORE[2:7:2], GRADIENTS[:4:2] + FINE[:2],
                         MINZ[:1] + MINZ[4:6], wrap=stacks))
        r.append(product('tall', [STARTS[k] for k in low[2::6]], STEPS[::3], [300, 600], TALL[:4:3], TEMPS[:2] + MORE[6:8], GRADIENTS[:1] + FINE[1:2],
                         MINZ[:1], wrap=stacks))
        r.append(product('fine stacks', FSTARTS[::2], FSTEPS[::3], [2, 12], TALL, TEMPS[1:6:3], GRADIENTS[:4:2] + FINE[:1], MINZ[:1] + MINZ[2:3],
                         wrap=lambda c: (c[:4] + ('fine',), c[4], c[5], c[6])))
        if t:
            r.append(product('all stacks', [STARTS[k] for k in low], STEPS, [2, 3, 30, 100], TALL, TEMPS + MORE, GRADIENTS + FINE,
                             MINZ[:1] + MINZ[4:5], wrap=stacks))
            r.append(product('layers3 all', b, b, b, TEMPS, GRADIENTS, MINZ, wrap=wrap))
            r.append(product('layers4', b, b, b, b, TEMPS[:2], GRADIENTS[:3], MINZ[:2], wrap=wrap))
            r.append(product('tower5', *([range(6)] * 5 + [TEMPS[:4], GRADIENTS, MINZ[:2]]), wrap=wrap))
        return r

    def show(self, case):
        return {'program': program(case[0]), 'options': list(case[1]) + list(case[2]) + list(case[3])}

    def run(self, case, st):
        prog, runs, printed, out, error = calibrate(case)
        if runs is None:
            return
        minz, steps = options(case)
        dom = domain(runs, printed, minz)
        st.transitions += len(runs)
        if dom is None:
            if error is None or out:
                raise Violation('no range of heights, but the tool %s' % ('writes something' if out else 'succeeds'),
                                program=prog, output=out)
            st.outcomes.add(h(type(error).__name__))
            return
        if error is not None:
            raise Violation('fails with %r' % error, program=prog)
        # walk both programs
        j, last, n = 0, None, 0
        lo, hi = max(150, min(case[1])), min(250, max(case[1]))
        for z, ls in runs:
            for k, l in enumerate(ls):
                if j < len(out) and out[j] != l:
                    m = M104.match(out[j])
                    if not m or k:
                        raise Violation('line %r is added' % out[j], program=prog, output=out)
                    if z is None or z <= minz:
                        raise Violation('%r is set at height %r' % (out[j], z), program=prog, output=out)
                    v = float(m.group(1))
                    if not lo <= v <= hi:
                        raise Violation('%r is not between %g and %g' % (out[j], lo, hi), program=prog, output=out)
                    if v == last:
                        raise Violation('%r is set again' % out[j], program=prog, output=out)
                    last = v
                    n += 1
                    j += 1
                if j >= len(out) or out[j] != l:
                    raise Violation('line %r is lost or changed' % l, program=prog, output=out)
                j += 1
        if j != len(out):
            raise Violation('line %r is added' % out[j], program=prog, output=out)
        st.states.add(h((tuple(r[0] for r in runs), tuple(printed), case[1:])))
        st.outcomes.add(h(out))
        if n:
            st.nontrivial += 1
