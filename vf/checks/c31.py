import io
import re

from vf.arcs import CONTEXTS, optimise
from vf.checks.c07 import checksum, numbers, plus, signed, zero_before, zeros_after, point_after, no_zero
from vf.checks.c12 import convert
from vf.checks.c25 import HEADERS, LINES, PROGRAMS, circle
from vf.checks.c30 import FAMILY
from vf.common import text_of
from vf.core import Check, Violation, h, product
from vf.machine import parse, strip_comments
from vf.rewrite import comment
from vf.stretching import FILTERS
from vf.translation import translate
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient, GCodeStepTempGradient
from gcodeutils.gcoder import GCode
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer


def pause(layers):
    def f(prog):
        g = GCode(list(prog))
        GCodeIterator(g).accept(PauseAtLayer(layers))
        return text_of(g)
    return f


def gradient(cls, **kw):
    def f(prog):
        out = io.StringIO()
        try:
            cls(gcode=GCode(list(prog)), **kw).write(out)
        except RuntimeError:
            return ['rejected']
        return out.getvalue().split('\n')[:-1]
    return f


def stretch(fmt, relative=True, **kw):
    def f(prog):
        g = GCode(list(prog))
        if relative:
            GCodeToRelativeExtrusionFilter().filter(g)
        FILTERS[fmt](**kw).filter(g)
        return text_of(g)
    return f


TOOLS = {
    'translate': lambda p: translate(p, 3., -4.5), 'translate x': lambda p: translate(p, 10., 0), 'relative': convert,
    'pause': pause([0, 2]), 'gradient': gradient(GCodeStepTempGradient, start_temp=210, end_temp=180, min_z_change=.1, steps=3),
    'continuous': gradient(GCodeContinuousTempGradient, start_temp=180, end_temp=240, min_z_change=.25, steps=10),
    'arcs': optimise, 'slic3r': stretch('slic3r'), 'cura': stretch('cura'), 'skeinforge': stretch('skeinforge', False),
    'cura 2': stretch('cura', stretch_strength=2.), 'slic3r 2': stretch('slic3r', stretch_strength=2., edge_outside_stretch_over_edge_width=.5),
}
_PAD = re.compile(r'^([GMT])([0-9])')
# spellings of the code of a line, its comments aside
SPELLINGS = {
    'small letters': lambda c, n: c.lower(),
    'padded codes': lambda c, n: _PAD.sub(r'\g<1>0\2', c),
    'no blanks': lambda c, n: c.replace(' ', ''),
    'many blanks': lambda c, n: '   ' + c.replace(' ', '  \t ') + '  ',
    'line numbers': lambda c, n: 'N%d %s' % (n, c),
    'line numbers stuck': lambda c, n: 'n%d%s' % (n, c.replace(' ', '')),
    'checksums': lambda c, n: checksum(c, n),
    'plus signs': lambda c, n: numbers(c, plus),
    'zeros before': lambda c, n: numbers(c, signed(zero_before)),
    'zeros after': lambda c, n: numbers(c, signed(zeros_after)),
    'points': lambda c, n: numbers(c, signed(point_after)),
    'no zero before the point': lambda c, n: numbers(c, signed(no_zero)),
    'everything': lambda c, n: 'n%d%s' % (n, _PAD.sub(r'\g<1>00\2', numbers(c, lambda t: plus(signed(zeros_after)(t)))).replace(' ', '\t').lower()),
}
# spellings of whole lines, which bring comments
COMMENTED = {
    'comments after': lambda l, n: l + ' ; note X%d' % n, 'comments before': lambda l, n: '(note Y%d) %s' % (n, l),
    'comments stuck': lambda l, n: l + '(Z%d)' % n,
}
WHERE = {'every line': lambda k: True, 'odd lines': lambda k: k % 2, 'even lines': lambda k: k % 2 == 0, 'a third': lambda k: k % 3 == 1}
ENDS = ['', '\n', '\r\n']
PLAIN = re.compile(r'^(?:[GMT][0-9]+)(?: [XYZEFIJSPR]-?[0-9.]*)*$')


def spell(prog, how, where, end):
    out = []
    for k, l in enumerate(prog):
        code, com = strip_comments(l)
        code = code.strip()
        first = not l.startswith('(')
        if WHERE[where](k) and PLAIN.match(code) and first:
            if how in SPELLINGS:
                # comments stay where they are; nothing follows a checksum
                l = SPELLINGS[how](code, k) + (' ' + com if com else '')
            else:
                l = COMMENTED[how](l, k)
        out.append(l + end)
    return out


def meaning(lines, comments):
    """commands with their arguments, and comments"""
    r = []
    for l in lines:
        c = parse(l)
        if c.code is None:
            if comments and l.strip():
                r.append(comment(c))
        else:
            args = {k: v for k, v in c.args.items()}
            r.append((c.code, tuple(sorted(args.items())), comment(c) if comments else None))
    return r


class CHECK(Check):
    id = 'C31'
    rule = ('every tool on every program of the family and on all sequences of the stated length, written in every spelling on every, '
            'odd, even or each third line; the result is compared command by command with that of the plain program. Non-trivial: '
            'the tool changes the program')
    assumptions = ['only plain commands are spelled otherwise: messages, free text and comments are kept as they are',
                   'comments on the moves themselves are not added for the arc optimiser, which keeps commented moves']

    def spaces(self, tier):
        family = dict(FAMILY, **{'circle ' + c: circle(c) for c in CONTEXTS})
        family['parameters'] = ['G21', 'G90', 'M82', 'G28 X0 Y0', 'G1 Z0.3 F600 S5', 'G1 X1 Y2 E1.25 S0.5 P7 ; power', 'G92 E0 P3', 'G2 X3 I1 J0.5 E0.5 R2 (arc) S1',
                                'G91', 'G1 X1 S3', 'G1 Z0.3 P2 E1', 'G28 X Z', 'M104 S200', 'G0 X5 R-1.5', 'T1', 'G1 Y1 E2']
        family['long'] = [l for k in range(40) for l in PROGRAMS['simple'] + PROGRAMS['reset']]
        progs = [family[k] for k in sorted(family)]
        how = sorted(SPELLINGS)
        r = [product('family', sorted(TOOLS), progs, how, sorted(WHERE), ENDS),
             product('family commented', sorted(set(TOOLS) - {'arcs'}), progs, sorted(COMMENTED), sorted(WHERE), [''])]
        some = ['translate', 'relative', 'pause', 'gradient', 'translate x']
        for n in (1, 2, 3):
            r.append(product('sequences%d' % n, HEADERS, some if n < 3 or tier != 'quick' else some[:2],
                             how + sorted(COMMENTED) if n < 3 else ['everything', 'padded codes', 'small letters', 'checksums', 'comments before'],
                             *([LINES] * n), wrap=lambda c: (c[1], list(c[0]) + ['G1 Z0.3', 'G1 X1 Y1 E1'] + list(c[3:]), c[2], 'every line', '')))
        return r

    def show(self, case):
        return {'tool': case[0], 'program': case[1], 'spelled': spell(case[1], *case[2:])}

    _plain = {}

    def plain(self, tool, prog):
        k = tool, tuple(prog)
        if k not in self._plain:
            if len(self._plain) > 3000:
                self._plain.clear()
            try:
                self._plain[k] = TOOLS[tool](prog)
            except Exception as e:
                self._plain[k] = ['failure %s' % type(e).__name__]
        return self._plain[k]

    def run(self, case, st):
        tool, prog, how, where, end = case
        want = self.plain(tool, prog)
        spelled = spell(prog, how, where, end)
        try:
            got = TOOLS[tool](spelled)
        except Exception as e:
            got = ['failure %s' % type(e).__name__]
        st.transitions += len(prog)
        a, b = meaning(want, how in SPELLINGS), meaning(got, how in SPELLINGS)
        if a != b:
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation('the result differs when written with %s: %r instead of %r (command %d)' % (
                how, b[k] if k < len(b) else 'its end', a[k] if k < len(a) else 'the end', k), output=got, plain=want)
        st.states.add(h(a))
        st.outcomes.add(h((tool, a)))
        if want != prog:
            st.nontrivial += 1
