import builtins
import io
import os
import re
import shutil
import sys

from vf.core import REPO, Check, Violation, h, product
from vf.checks.c25 import EXTRA, PROGRAMS, compose_arcs, compose_stretch, compose_tempcal, CURA_PROFILE
from vf.common import text_of
from vf.tools import run_tool, scratch
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.gcoder import GCode
from gcodeutils.stretch.stretch import CuraStretchFilter


class Fault(Exception):
    pass


class Interrupt(BaseException):
    pass


PACKAGE = os.path.join(REPO, 'gcodeutils') + os.sep
PLUGINS = {'stretch_plugin': [dict(stretch_strength=1.0), dict(stretch_strength=0.0), dict(stretch_strength=-2.0), dict(stretch_strength=0.35)],
           'tempcal_plugin': [dict(start_temp=210., end_temp=180., min_z_change=.1, steps=10.),
                              dict(start_temp=180., end_temp=190., min_z_change=3., steps=2.),
                              dict(start_temp=210., end_temp=180., min_z_change=.1, steps=0.),
                              dict(start_temp=210.5, end_temp=225.25, min_z_change=.25, steps=4.)]}
TARGETS = [(p, k) for p in sorted(PLUGINS) for k in range(len(PLUGINS[p]))] + [('gcode_optimize_arcs', 0)]
FAMILY = dict(PROGRAMS)
FAMILY['corrupt profile'] = PROGRAMS['cura'][:-1] + [';CURA_PROFILE_STRING:!!!!']
FAMILY['truncated profile'] = PROGRAMS['cura'][:-1] + [PROGRAMS['cura'][-1][:-9]]
FAMILY['flat'] = ['G90', 'M82', 'G1 Z0.2', 'G1 X1 E1']
FAMILY['tower'] = ['G90', 'M83'] + [l for z in range(1, 6) for l in ('G1 Z%g' % (z * .5), 'G1 X%d E1' % z)]
NAMES = sorted(FAMILY)
# whose result is shorter than the original, or stored in other ways
PADDED = {'padded ' + n: [l + '  ' for l in FAMILY[n]] + ['', '   ', '\t'] * 60 for n in NAMES}
PADDED.update({'decimals ' + n: [re.sub(r'([XYZEF])(-?[0-9]+)(?![0-9.])', r'\g<1>\g<2>.00000000000000000000', l) for l in FAMILY[n]] for n in NAMES})
PADDED['characters'] = EXTRA['characters'] + ['G1 Z%d' % z for z in range(1, 5)]
PADDED['profile first'] = EXTRA['profile first']
EVERY = dict(FAMILY, **PADDED)


def code_of(plugin):
    path = os.path.join(REPO, 'cura_plugins', plugin + '.py')
    with open(path) as f:
        return compile(f.read(), path, 'exec')


def invoke(target, path):
    """Run the plugin or the tool on the file, in place; None or the exception"""
    name, k = target
    if name in PLUGINS:
        saved = sys.path[:]
        try:
            exec(code_of(name), dict(PLUGINS[name][k], filename=path, __name__='plugin'))
        except (Exception, Interrupt) as e:
            return e
        finally:
            sys.path[:] = saved
        return None
    try:
        return run_tool(name, ['-i', path])[1]
    except Interrupt as e:
        return e


_output = None


def output_code():
    """Code objects only writing a finished program out: whatever GCode.write runs on"""
    global _output
    if _output is None:
        g = GCode(['G90', 'G1 X1 Y2 Z3 E4', ';c'])
        seen = set()

        def prof(frame, event, arg):
            if event == 'call':
                seen.add(frame.f_code)
        sys.setprofile(prof)
        try:
            g.write(io.StringIO())
        finally:
            sys.setprofile(None)
        _output = seen
    return _output


class Steps(object):
    """Counts the calls made in the package, except those writing a finished program; fails at the n-th one"""

    def __init__(self, fail_at=None, kind=Fault):
        self.count, self.fail_at, self.kind = 0, fail_at, kind
        self.exempt = output_code()
        self.where = None

    def __call__(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(PACKAGE) and frame.f_code not in self.exempt:
            self.count += 1
            if self.count == self.fail_at:
                self.where = frame.f_code.co_name
                raise self.kind('injected')


class FailingFile(object):
    """A file whose reading fails after some lines"""

    def __init__(self, f, after):
        self.f, self.left = f, after

    def _tick(self):
        if self.left <= 0:
            raise IOError('injected read error')
        self.left -= 1

    def __iter__(self):
        for l in self.f:
            self._tick()
            yield l
        self._tick()

    def readlines(self):
        return list(self)

    def read(self, *a):
        return ''.join(self)

    def readline(self, *a):
        self._tick()
        return self.f.readline()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


class CHECK(Check):
    id = 'C26'
    rule = ('for every in-place tool, parameter set and program: a failure (exception, or interruption) at every single call '
            'made inside the package, a read error after every number of lines, and a refused write; the file must hold the '
            'original program after a failure and the complete result after a success; non-trivial: a failure is injected')
    assumptions = ['failures of the final write itself (disk full) are outside the property',
                   'calls which only write a finished program out are not failure points']
    BLOCK = 40

    def spaces(self, tier):
        t = tier == 'thorough'
        r = [product('no failure', TARGETS, sorted(EVERY), ['none', 'denied']),
             product('read errors', TARGETS, NAMES, ['read'], range(0, 45 if t else 20))]
        # failure points are enumerated by blocks: case n covers the points n, n + BLOCK, n + 2 * BLOCK... of the run
        r.append(product('failures', TARGETS, NAMES, [Fault, Interrupt] if t else [Fault], range(1, self.BLOCK + 1),
                         note='every call of every run, %d interleaved blocks' % self.BLOCK,
                         wrap=lambda c: (c[0], c[1], 'call', c[2], c[3])))
        return r

    @staticmethod
    def expected(target, text):
        """text of the result, None when the program is rejected"""
        lines = [l.strip() for l in text.split('\n') if l.strip()]
        name, k = target
        try:
            if name == 'stretch_plugin':
                g = GCode(list(lines))
                GCodeToRelativeExtrusionFilter().filter(g)
                CuraStretchFilter(**PLUGINS[name][k]).filter(g)
                return text_of(g)
            if name == 'tempcal_plugin':
                p = PLUGINS[name][k]
                return compose_tempcal(lines, (False, p['steps'], p['min_z_change'], (p['start_temp'], p['end_temp'])))
            return compose_arcs(lines, None)
        except Exception:
            return None

    def one(self, target, text, result, prof=None, reads=None, deny=False):
        d = scratch('vf26')
        path = os.path.join(d, 'prog.gcode')
        with open(path, 'w') as f:
            f.write(text)
        real = builtins.open

        def fake(name, mode='r', *a, **kw):
            if name == path:
                if deny and any(c in mode for c in 'wa+'):
                    raise IOError('injected refusal')
                if reads is not None and not any(c in mode for c in 'wa+'):
                    return FailingFile(real(name, mode, *a, **kw), reads)
            return real(name, mode, *a, **kw)
        try:
            if deny or reads is not None:
                builtins.open = fake
            if prof is not None:
                sys.setprofile(prof)
            try:
                error = invoke(target, path)
            finally:
                sys.setprofile(None)
                builtins.open = real
            with open(path) as f:
                content = f.read()
        finally:
            shutil.rmtree(d, True)
        lines = content.split('\n')
        lines = [l for l in lines[:-1] if l] if lines[-1] == '' else None
        if error is not None:
            if content != text:
                raise Violation('the run fails with %r%s and leaves %r in the file' % (
                    error, ' in %s' % prof.where if prof is not None and prof.where else '', content[:300]), program=text)
        elif result is None:
            raise Violation('a program which cannot be processed is accepted', program=text, content=content)
        elif lines != result:
            raise Violation('the run succeeds but the file does not hold the result', program=text, content=content,
                            expected=result)
        return error

    def run(self, case, st):
        target, name, mode = case[:3]
        text = ''.join(l + '\n' for l in EVERY[name])
        result = self.expected(target, text)
        if mode == 'none':
            e = self.one(target, text, result)
        elif mode == 'denied':
            e = self.one(target, text, result, deny=True)
            if e is None:
                raise Violation('a refused write is not reported', program=text)
            st.nontrivial += 1
        elif mode == 'read':
            if case[3] > len(EVERY[name]) or target[0] == 'gcode_optimize_arcs' and case[3]:
                return
            e = self.one(target, text, result, reads=case[3])
            if e is None and target[0] != 'gcode_optimize_arcs':
                raise Violation('a read error is not reported', program=text)
            st.nontrivial += 1
        else:
            total = Steps()
            self.one(target, text, result, prof=total)
            n = total.count
            e = None
            for at in range(case[4], n + 1, self.BLOCK):
                s = Steps(at, case[3])
                e = self.one(target, text, result, prof=s)
                st.transitions += 1
                st.nontrivial += 1
                st.states.add(h((target, name, at)))
        st.transitions += 1
        st.states.add(h(case[:4]))
        st.outcomes.add(h((target, name, type(e).__name__)))
