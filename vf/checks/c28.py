import itertools

from vf.core import Check, Violation, h, product
from vf.common import text_of
from vf.machine import Machine, parse
from vf.rewrite import comment, tolerance
from vf.checks.c12 import convert
from vf.translation import translate
from gcodeutils.gcoder import GCode

VALUES = ['0', '1', '-1', '12.5', '-0.25', '.5', '-.125', '3.', '+7', '+.75', '007', '1.23456', '-0.00049', '0.0005', '123.4565',
          '9999.999', '-12345.678', '100000', '0.00001', '-0', '-0.0', '0.99999', '00.50', '1.000000', '250.12345678', '123456.789', '-1234567.125', '0000012.5']
FEW = ['1', '-0.25', '.5', '123.4565', '-0', '3.']
COMMENTS = ['', '; note X1 E2', ';', '(n Y2)', '(a) ; b', '; ; c', '; stretch "quoted" \xe9', '(X9)(Y8)', '; (p) G1 X3', '(a;b)', '(S1 P500 R-2.5)', '()', '(n) (Y2 S1)']
LONG = ['; ' + 'long comment ' * 60 + 'end', '(' + 'words, ' * 90 + 'X1)', ';' * 300 + '\u20ac \U0001f600 X', '; tabs\tand  blanks ) (']
PARAMS = ['', 'S1', 'S+5 P+.5', 'r007 q7. l0.50', 'P500', 'R-2.5', 'H1 D2', 'A0.125 B-3', 'S', 'K.5', 's2 p3.5', 'P50 R5 P5', 'A0.123456789012 S1234567890', 'S-0.00001 U1 V2 W3 H4']
MANY = ' '.join('%s%d' % (l, k) for k in range(6) for l in 'ABCDHKLOPQRSUVW')
CODES = ['G0', 'G1', 'G2', 'G3', 'g1', 'g3']
UNITS = ['', 'G20', 'G21']
LETTERS = 'XYZEFIJ'


def with_words(words, order=None):
    return ' '.join(w for w in words if w)


class CHECK(Check):
    id = 'C28'
    rule = ('every argument subset of every move with every value family, unit, comment, parameter and word order, rewritten by '
            'the relative-extrusion conversion (from E 0) and by translation on one axis, re-read and rewritten again; '
            'non-trivial: the text of the line changes')
    assumptions = ['at least 3 decimals (5 for E) are kept, 5 (7 for E) in inches', 'words are written without blanks inside']

    def spaces(self, tier):
        subsets = [s for n in range(0, 8) for s in itertools.combinations(LETTERS, n)]
        sub_vals = []
        for s in subsets:
            for k in range(len(FEW) if tier == 'quick' else len(VALUES)):
                vals = FEW if tier == 'quick' else VALUES
                sub_vals.append(['%s%s' % (l, vals[(k + j) % len(vals)]) for j, l in enumerate(s)])
        ways = ['relative', 'y']
        r = [product('values', ways, UNITS, [c for c in 'G1 G0 G2'.split()], LETTERS, VALUES,
                     wrap=lambda t: (t[0], t[1], with_words([t[2], t[3] + t[4]]))),
             product('pairs', ways, UNITS[:2], ['G1'], ['X', 'Z', 'F', 'I'], VALUES, ['E', 'Y'], VALUES,
                     wrap=lambda t: (t[0], t[1], with_words([t[2], t[3] + t[4], t[5] + t[6]]))),
             product('subsets', ways, UNITS[:2], CODES, sub_vals, COMMENTS[:3], wrap=lambda t: (t[0], t[1], with_words(
                 [t[2]] + t[3] + [t[4]]))),
             product('decorated', ways, UNITS[:2], CODES[1:3], [['X1', 'E2.5'], ['Y-1', 'E.5', 'F600'], ['X1', 'Y2', 'Z3', 'E4'], ['E1']],
                     COMMENTS, PARAMS, range(4), wrap=lambda t: (t[0], t[1], self.order(t[2], t[3], t[4], t[5], t[6]))),
             product('long', ways, UNITS[:2], CODES[1:3], [['X1', 'E2.5'], ['X1', 'Y2', 'Z3', 'E4', 'F5', 'I6', 'J7']], COMMENTS[:2] + LONG,
                     ['', 'S1', MANY], range(4), wrap=lambda t: (t[0], t[1], self.order(t[2], t[3], t[4], t[5], t[6]))),
             product('zeros', ways, UNITS[:2], CODES[1:4], [[l + '0' * k + '12.5' + '0' * n for l in 'XYE'] for k in (0, 3, 40) for n in (0, 9, 60)],
                     COMMENTS[:2], PARAMS[:2], [0], wrap=lambda t: (t[0], t[1], self.order(t[2], t[3], t[4], t[5], t[6]))),
             product('compact', ways, UNITS[:2], ['G1', 'N12 G1', 'N7G1', 'g1'], [['X1', 'E2.5'], ['Y-1', 'E.5', 'F600', 'S3']],
                     ['', ' ', '  ', '\t'], ['', '*71', ' ;c', '(c)'],
                     wrap=lambda t: (t[0], t[1], t[4].join([t[2]] + t[3]) + t[5])),
             product('permutations', ways, UNITS[:2], ['G1'], list(itertools.permutations(['X1.5', 'Y-2', 'Z.3', 'E4', 'F500'])), ['', ';c'],
                     wrap=lambda t: (t[0], t[1], with_words([t[2]] + list(t[3]) + [t[4]])))]
        if tier == 'thorough':
            r += [product('all values', ways, UNITS[:2], ['G1'], ['X'], VALUES, ['Y'], VALUES, ['E'], VALUES, COMMENTS[:2],
                          wrap=lambda t: (t[0], t[1], with_words([t[2], t[3] + t[4], t[5] + t[6], t[7] + t[8], t[9]]))),
                  product('all decorated', ways, UNITS[:2], CODES, sub_vals[::7], COMMENTS, PARAMS, range(4),
                          wrap=lambda t: (t[0], t[1], self.order(t[2], t[3], t[4], t[5], t[6])))]
        return r

    @staticmethod
    def order(code, words, com, par, k):
        """parameters before, after or among the words; the comment at the end or after the command"""
        par = par.split()
        if k == 0:
            w = [code] + words + par + [com]
        elif k == 1:
            w = [code] + par + words + [com]
        elif k == 2:
            w = [code] + words[:1] + par + words[1:] + [com]
        elif com.startswith('(') and ';' not in com:
            w = [code, com] + words + par
        else:
            w = [code] + words[:1] + [com[:com.index(';')] if ';' in com else com] + words[1:] + par + \
                [com[com.index(';'):] if ';' in com else '']
        return with_words(w)

    def show(self, case):
        return {'rewritten by': case[0], 'unit': case[1], 'line': case[2]}

    def run(self, case, st):
        way, unit, line = case
        inch = unit == 'G20'
        if way == 'relative':
            prog = ([unit] if unit else []) + ['M82', line]
            want = prog[:-2] + ['M83', line]
            out = convert(prog)
            tools = [convert, convert]
            free = ''
        else:
            # moved along Y only: the line is rewritten, and everything but Y is unchanged
            prog = ([unit] if unit else []) + ['G90', line]
            want = list(prog)
            out = translate(prog, 0, 254.)
            tools = [lambda p: translate(p, 0, -254.), lambda p: translate(p, 0, 254.)]
            free = 'Y'
        st.transitions += 1
        if len(out) != len(want):
            raise Violation('%d lines became %d' % (len(want), len(out)), program=prog, output=out)
        if out[:-1] != want[:-1]:
            raise Violation('another line changed', program=prog, output=out)
        self.same(line.strip(), out[-1], inch, free, way, prog)
        reread = text_of(GCode(list(out)))
        if reread != out:
            raise Violation('writing again changes %r to %r' % (out[-1], reread[-1]), program=prog, output=out)
        # once written by a tool, the line never changes any further
        p = out
        for t in tools:
            q = t(p)
            self.same(line.strip(), q[-1], inch, free, way, prog, len(q) == len(want) and (way == 'relative' or t is tools[0]))
            p = q
        if p != out:
            raise Violation('rewriting again changes %r to %r' % (out[-1], p[-1]), program=prog, output=out)
        st.states.add(h(out[-1]))
        st.outcomes.add(h((way, unit, out[-1])))
        if out[-1] != line:
            st.nontrivial += 1

    @staticmethod
    def same(line, text, inch, free, way, prog, back=False):
        a, b = parse(line), parse(text)
        if a.code not in (b.code,) and not (a.code and b.code and a.code[0] == b.code[0] and a.code[1:].lstrip('0') == b.code[1:].lstrip('0')):
            raise Violation('command %s became %s' % (a.code, b.code), program=prog, line=text)
        if comment(a) != comment(b):
            raise Violation('comment %r became %r' % (a.comment, b.comment), program=prog, line=text)
        if set(a.args) != set(b.args):
            raise Violation('arguments %s became %s' % (sorted(a.args), sorted(b.args)), program=prog, line=text)
        shift = {'Y': 0. if back or way == 'relative' else 254. / (25.4 if inch else 1.)}
        for k, v in a.args.items():
            w = b.args[k]
            if (v is None) != (w is None):
                raise Violation('%s %r became %r' % (k, v, w), program=prog, line=text)
            if v is not None and abs(v + shift.get(k, 0.) - w) > tolerance(k, 25.4 if inch else 1.) + 1e-12 * abs(v):
                raise Violation('%s%r became %s%r' % (k, v, k, w), program=prog, line=text)
