from vf.core import Check, Violation, h, product
from vf.machine import Machine, parse
from vf.rewrite import lines, same_line
from vf.checks.c11 import commands, valued, LETTERS as MIXED
from vf.checks.c12 import convert

PRE = [[], ['M82'], ['M83'], ['M82', 'G1 E5'], ['M82', 'G92 E-2'], ['G20', 'M82', 'G1 E2'], ['G91', 'M82'], ['M82', 'G92']]
LETTERS = MIXED + ['M82 ; abs', 'M83 (rel)', 'm82', 'N5 M82', 'G1 E3', 'G92 E1 ; reset', 'M82;', '(p) M82', 'M82 S1']


class CHECK(Check):
    id = 'C13'
    rule = ('every argument/parameter/comment combination of every move, and every set of arguments with every unusual value, '
            'in every context, and every command sequence of the '
            'stated length; the output is compared line by line, and converted again; non-trivial: a line is rewritten')
    assumptions = ['number precision 3 decimals (5 for E, 5/7 in inches)']

    def spaces(self, tier):
        cs = list(commands())
        r = [product('values', PRE, list(valued()), wrap=lambda t: t[0] + [t[1]]),
             product('lines', PRE, cs, wrap=lambda t: t[0] + [t[1]]),
             product('len1', PRE, LETTERS, wrap=lambda t: t[0] + list(t[1:])),
             product('len2', PRE, LETTERS, LETTERS, wrap=lambda t: t[0] + list(t[1:])),
             product('len3', PRE[1:3], LETTERS, LETTERS, LETTERS, wrap=lambda t: t[0] + list(t[1:]))]
        if tier == 'thorough':
            r += [product('lines in context', PRE, LETTERS, cs, wrap=lambda t: t[0] + list(t[1:])),
                  product('len4', PRE[1:2], *[LETTERS] * 4, wrap=lambda t: t[0] + list(t[1:])),
                  product('len3 all', PRE, LETTERS, LETTERS, LETTERS, wrap=lambda t: t[0] + list(t[1:]))]
        return r

    def run(self, prog, st):
        out = convert(prog)
        a, b = lines(prog), lines(out)
        if len(a) != len(b):
            raise Violation('%d lines became %d' % (len(a), len(b)), program=prog, output=out)
        m = Machine(g90_selects_e=False)
        for c, o in zip(a, b):
            unit = m.unit
            m.step(c)
            st.transitions += 1
            if c.code == 'M82':
                bad = same_line(parse(c.raw.replace('82', '83', 1)), o, unit)
                if bad is not None:
                    raise Violation('%r became %r: %s' % (c.raw, o.raw, bad), program=prog, output=out)
                continue
            if c.is_move and c.args.get('E') is not None:
                bad = same_line(c, o, unit, 'E')
                if bad is None and o.args.get('E') is None:
                    bad = 'E was lost'
                if bad is not None:
                    raise Violation('%r became %r: %s' % (c.raw, o.raw, bad), program=prog, output=out)
            elif c.raw != o.raw:
                raise Violation('%r became %r' % (c.raw, o.raw), program=prog, output=out)
        again = convert(out)
        first = [c.code for c in a if c.code in ('M82', 'M83') or c.is_move and c.args.get('E') is not None]
        if again != out and (not first or first[0] in ('M82', 'M83')):
            raise Violation('converting again changes the program', program=prog, output=out, again=again)
        st.states.add(h(m.key()))
        st.outcomes.add(h(out))
        if out != [c.raw for c in a]:
            st.nontrivial += 1
