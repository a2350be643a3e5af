from vf.core import Check, Violation, h, product, Space
from vf.common import SIZES, repeated
from vf.machine import parse
from gcodeutils.gcoder import GCode

L = ['G1 X1', 'G1 X1.0005', 'G1 X2', 'G1 X1 Y1', 'G0 X1', ';c', 'M104 S200', 'G92', 'G28']
VALS = {'X': ['', 'X1', 'X1.0009', 'X1.0012', 'X-1', 'X0'], 'Y': ['', 'Y0', 'Y0.0008'], 'Z': ['', 'Z0', 'Z0.0012'],
        'E': ['', 'E1', 'E1.002'], 'F': ['', 'F60', 'F60.01'], 'I': ['', 'I1', 'I1.5'], 'J': ['', 'J1', 'J-1']}
CTX = [[], ['G91'], ['G20'], ['G92 X3']]


def programs(alphabet, upto):
    r = [[]]
    last = [[]]
    for _ in range(upto):
        last = [p + [a] for p in last for a in alphabet]
        r += last
    return r


def meaning(prog):
    r, unit = [], 1.0
    for l in prog:
        c = parse(l)
        if c.code is None:
            continue
        unit = {'G20': 25.4, 'G21': 1.0}.get(c.code, unit)
        r.append((c.code, {k: v * unit for k, v in c.args.items() if k in 'XYZEFIJ' and v is not None}
                  if c.code[0] == 'G' else {}))
    return r


def ref_equal(a, b):
    a, b = meaning(a), meaning(b)
    if len(a) != len(b):
        return False
    for (c, x), (d, y) in zip(a, b):
        if c != d or set(x) != set(y):
            return False
        if any(abs(x[k] - y[k]) > 0.001 for k in x):
            return False
    return True


CODES = ['G0', 'G1', 'G10', 'G11', 'G28', 'G29', 'G90', 'G91', 'M82', 'M83', 'M104', 'M1', 'M109', 'M10', 'M106', 'M107', 'G280', 'G2', 'G9', 'T10', 'T01', 'G01', 'T0', 'T1', 'M104 S1', 'G4 P1', 'hello', 'world', '(c)', ';']
LONG = [(['M83'], ['G1 X{k} E0.125', 'G1 E-0.25', ';{k}']), (['M82'], ['G1 Z{k}', 'G1 X1 E{k}', 'G92 E0']), ([], ['T{k}', 'M104 S{k}'])]


def long_pair(shape, n, change):
    a = repeated(shape[0], shape[1], n)
    b = list(a)
    if change == 'last':
        b[-1] = 'G1 Y5'
    elif change == 'first':
        b[0] = 'M84'
    elif change == 'middle':
        b[n // 2] = 'G1 Y5'
    elif change == 'longer':
        b.append('G1 Y5')
    elif change == 'comments':
        b = [l for x in a for l in (';' + x, x + ' ; note')]
    return a, b


class CHECK(Check):
    id = 'C08'
    rule = ('every ordered pair of programs up to the bound; every pair of argument values of every argument, '
            'with one or two arguments differing, in several contexts')
    assumptions = ['fully parsed programs (the memory-light one keeps no commands)']

    def spaces(self, tier):
        r = []
        small = programs(L, 2)
        r.append(product('pairs2', small, small))
        p3 = programs(L[:1] + L[2:3] + L[4:8], 3)
        r.append(product('pairs3', p3, p3))
        single = []
        for cmd in ('G1', 'G0', 'G92', 'G2'):
            single.append([cmd])
            for k in VALS:
                for v in VALS[k]:
                    if v:
                        single.append([cmd + ' ' + v])
        r.append(product('single', single, single))
        two = []
        keys = list(VALS)
        for i, k in enumerate(keys):
            for k2 in keys[i + 1:]:
                for v in VALS[k][:3]:
                    for w in VALS[k2][:3]:
                        two.append(' '.join(x for x in ('G1', v, w) if x))
        two = sorted(set(two))
        r.append(product('two', CTX, two, two, wrap=lambda t: (t[0] + [t[1], ';c', 'G0 X1'], [';d'] + t[0] + [t[2], 'G0 X1'])))
        more = CODES + ['%s %s%s' % (c, k, v) for c in ('G1', 'G28', 'G4', 'G92', 'G3') for k in 'XYZEFIJ' for v in ('0', '0.0009', '2', '-2')]
        r.append(product('codes', more, more, wrap=lambda t: ([t[0]], [t[1]])))
        large = ['%s %s%s' % (c, k, v) for c in ('G1', 'G92', 'G3') for k in 'XYZEFIJ'
                 for v in ('200', '200.0015', '200.0008', '-200', '12345.678', '12345.6765', '12345.67', '-12345.675', '9.001', '9', '8.9985')]
        r.append(product('large values', large, large, wrap=lambda t: ([t[0]], [t[1]])))
        r.append(product('long', LONG, SIZES + [4000], ('same', 'last', 'middle', 'longer', 'comments', 'first'), wrap=lambda t: long_pair(*t)))
        if tier == 'thorough':
            p4 = programs(['G1 X1', 'G1 X2', ';c', 'G1 X1 Y1'], 5)
            r.append(product('pairs5', p4, p4))
        return r

    def run(self, case, st):
        a, b = case
        ga, gb = GCode(list(a)), GCode(list(b))
        want = ref_equal(a, b)
        got = [bool(ga == gb), bool(gb == ga), not (ga != gb), not (gb != ga), ga.diff(gb) is None, gb.diff(ga) is None]
        st.transitions += len(got)
        for name, v in zip(('a == b', 'b == a', 'not a != b', 'not b != a', 'a.diff(b) empty', 'b.diff(a) empty'), got):
            if v != want:
                raise Violation('%s is %s, programs are %s' % (name, v, 'equal' if want else 'different'), a=a, b=b)
        if not (ga == ga) or not (gb == gb):
            raise Violation('a program differs from itself', a=a, b=b)
        st.states.add(h((len(a), len(b), want)))
        st.outcomes.add(h((tuple(a), want)))
        if want and a != b:
            st.nontrivial += 1
