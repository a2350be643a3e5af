"""Bounded exhaustive exploration engine.

A check declares *spaces*: finite, indexable sets of cases (`len`, `case(i)`), and `run(case)`, which executes the
real gcodeutils code on that case, compares it with the reference model at every step and returns a result.  The engine
enumerates every index of every space (no sampling), on all cores, counts states / transitions / traces, confirms
every violation by re-running it, writes a replay file and the evidence file.
"""
from __future__ import print_function

import hashlib
import io
import json
import logging
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CASE_TIMEOUT = 20.0     # seconds for one case (cases take micro- to milliseconds); a case that runs longer hangs


def setup_imports():
    """Import gcodeutils from the current working tree, never from stale bytecode"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = tempfile.mkdtemp(prefix='vfpyc')
    import atexit
    import shutil
    atexit.register(shutil.rmtree, sys.pycache_prefix, True)
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import gcodeutils
    if not os.path.abspath(gcodeutils.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('gcodeutils imported from %s' % gcodeutils.__file__)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang('no result after %gs' % CASE_TIMEOUT)


def _arm():
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)


def _timer(seconds):
    # processor time, which a busy or suspended machine does not use up; the clock as well, for whatever waits. Both go on
    # every second in case the code under test swallows the first exception
    signal.setitimer(signal.ITIMER_PROF, seconds, 1 if seconds else 0)
    signal.setitimer(signal.ITIMER_REAL, 6 * seconds, 1 if seconds else 0)


class Violation(Exception):
    """Raised by run(case): the property is broken on this case"""

    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Stats(object):
    """Per-worker measurement"""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.nontrivial = 0
        self.traces = 0

    def merge(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.nontrivial += o.nontrivial
        self.traces += o.traces


class Space(object):
    """An indexable finite set of cases, simplest first"""

    def __init__(self, name, size, decode, note=''):
        self.name, self.size, self.decode, self.note = name, size, decode, note


def seqs(name, alphabet, length, prefix=(), suffix=(), note='', wrap=None):
    """All sequences of exactly `length` letters of the alphabet"""
    alphabet = list(alphabet)
    n = len(alphabet)
    prefix, suffix = list(prefix), list(suffix)

    def decode(i):
        r = []
        for _ in range(length):
            i, k = divmod(i, n)
            r.append(alphabet[k])
        r = prefix + r[::-1] + suffix
        return wrap(r) if wrap else r

    return Space(name, n ** length, decode, note or '%d letters, length %d' % (n, length))


def product(name, *dims, **kw):
    """The full product of the dimensions; a case is a tuple"""
    dims = [list(d) for d in dims]
    size = 1
    for d in dims:
        size *= len(d)

    def decode(i):
        r = []
        for d in reversed(dims):
            i, k = divmod(i, len(d))
            r.append(d[k])
        r = tuple(r[::-1])
        return kw['wrap'](r) if kw.get('wrap') else r

    return Space(name, size, decode, kw.get('note', 'x'.join(str(len(d)) for d in dims)))


def listing(name, cases, note=''):
    cases = list(cases)
    return Space(name, len(cases), cases.__getitem__, note or '%d cases' % len(cases))


class Check(object):
    id = None
    rule = ''
    assumptions = []

    def spaces(self, tier):
        raise NotImplementedError

    def run(self, case, st):
        """Execute one case; raise Violation, or return None.  Update st (states, transitions, outcomes)"""
        raise NotImplementedError

    def show(self, case):
        return case

    def known(self, case, violation):
        """The id of the known finding this violation is an instance of, or None"""
        return None

    # ---------------------------------------------------------------- execution of one case

    def evaluate(self, case, st):
        """(what, detail) of the violation, or None"""
        _timer(CASE_TIMEOUT)
        try:
            self.run(case, st)
            return None
        except Violation as v:
            return v.what, v.detail
        except Hang as e:
            return 'does not terminate: %s' % e, {}
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            inside = [f for f in tb if f.filename.startswith(REPO + os.sep)]
            if not inside:
                # the code returned something the oracle cannot even compare (None for a number, ...)
                return ('result cannot be compared: %s: %s' % (type(e).__name__, e),
                        {'at': '%s:%s line %s' % (tb[-1].filename, tb[-1].name, tb[-1].lineno)})
            return ('unexpected %s: %s' % (type(e).__name__, e),
                    {'at': '%s:%s' % (os.path.relpath(inside[-1].filename, REPO), inside[-1].name)})
        finally:
            _timer(0)


def clip(x, n=60):
    """A long program, shortened for the evidence file (replays use the index)"""
    if isinstance(x, (list, tuple)):
        x = [clip(y, n) for y in x]
        return x if len(x) <= n else x[:n // 2] + ['... %d more ...' % (len(x) - n)] + x[-(n // 2):]
    if isinstance(x, str) and len(x) > 2000:
        return x[:1000] + '... %d more ...' % (len(x) - 2000) + x[-1000:]
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    return x


_check = None
_spaces = None


def _work(job):
    si, lo, hi = job
    sp = _spaces[si]
    st = Stats()
    found, known = [], {}
    for i in range(lo, hi):
        case = sp.decode(i)
        st.evaluations += 1
        r = _check.evaluate(case, st)
        if r is not None:
            k = _check.known(case, r)
            if k is not None:
                n, first = known.get(k, (0, None))
                known[k] = (n + 1, first or (si, i, r[0]))
                continue
            found.append((si, i, r[0], r[1]))
            if len(found) >= 3:
                break
    return st, found, known, i - lo + 1


def _init():
    _arm()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, 'w')      # prints of the code under test


def h(x):
    """A short stable hash of a canonical state"""
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {e['id']: e for e in data.get('findings', []) if e['property'] == pid}


def main(check, tier, seed):
    global _check, _spaces
    t0 = time.time()
    _check = check
    _spaces = check.spaces(tier)
    listed = load_known(check.id)
    orig_known = check.known

    def known(case, r):
        k = orig_known(case, r)
        return k if k in listed else None
    check.known = known

    jobs = []
    for si, sp in enumerate(_spaces):
        step = max(1, min(sp.size // 64 + 1, 20000))
        for lo in range(0, sp.size, step):
            jobs.append((si, lo, min(sp.size, lo + step)))
    total = Stats()
    found, known, done = [], {}, {}
    nproc = int(os.environ.get('VF_PROCS', '0')) or multiprocessing.cpu_count()
    ctx = multiprocessing.get_context('fork')
    stopped = False
    with ctx.Pool(nproc, _init) as pool:
        for (si, lo, hi), (st, f, k, n) in zip(jobs, pool.imap(_work, jobs)):
            total.merge(st)
            done[si] = done.get(si, 0) + n
            found += f
            for kid, (cnt, first) in k.items():
                c0, f0 = known.get(kid, (0, None))
                known[kid] = (c0 + cnt, f0 or first)
            if found:
                stopped = True
                break           # results arrive in order: this is the simplest violating chunk
        pool.terminate()

    violations = 0
    rc = 0
    lines = []
    if found:
        found.sort()
        si, i, what, detail = found[0]
        violations = len(found)
        case = _spaces[si].decode(i)
        # confirm: the same case must fail the same way again, in a fresh process
        with ctx.Pool(1, _init) as pool:
            st, f, k, n = pool.apply(_work, ((si, i, i + 1),))
        first = i
        if not f:
            # the result depends on the programs processed before: run the cases of the same chunk before it as well
            first = max(lo for s, lo, hi in jobs if s == si and lo <= i)
            with ctx.Pool(1, _init) as pool:
                st, f, k, n = pool.apply(_work, ((si, first, i + 1),))
            if f:
                si, i, what, detail = f[0]
                case = _spaces[si].decode(i)
            elif what.startswith('does not terminate') or 'MemoryError' in what or 'OSError' in what:
                print('ERROR: violation not reproduced: %s space=%s index=%d %s' % (check.id, _spaces[si].name, i, what))
                return 2
            else:
                first = 0
            what += ' (only after processing other programs in the same process)'
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (check.id, _spaces[si].name.replace(' ', '_').replace('/', '_'), i))
        with open(path, 'w') as out:
            json.dump({'property': check.id, 'tier': tier, 'space': _spaces[si].name, 'index': i, 'what': what, 'first_index': first,
                       'case': clip(check.show(case), 400), 'detail': clip(detail, 400),
                       'replay': 'cd /verif && ./check replay %s' % path}, out, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        print('  %s' % what)
        print('  case: %s' % json.dumps(clip(check.show(case)), default=str)[:1500])
        print('  detail: %s' % json.dumps(clip(detail), default=str)[:1500])
        rc = 1
    else:
        for kid in sorted(known):
            print('KNOWN-FINDING: property=%s %s: %s (%d explored cases)' % (check.id, kid, listed[kid]['what'],
                                                                             known[kid][0]))
    samples = []
    for sp in _spaces:
        if sp.size:
            for i in (0, sp.size // 2, sp.size - 1):
                samples.append({'space': sp.name, 'index': i, 'case': clip(check.show(sp.decode(i)))})
    if len(samples) > 9:
        samples = samples[::max(1, len(samples) // 8)][:9]
    wall = time.time() - t0
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': len(total.states), 'transitions': total.transitions,
              'traces_validated_against_impl': total.evaluations,
              'distinct_outcomes': len(total.outcomes),
              'distinct_nontrivial': total.nontrivial,
              'rule': check.rule,
              'spaces': [{'name': sp.name, 'size': sp.size, 'explored': done.get(si, 0), 'what': sp.note}
                         for si, sp in enumerate(_spaces)],
              'exhaustive': not stopped and all(done.get(si, 0) == sp.size for si, sp in enumerate(_spaces)),
              'known_findings_met': {k: v[0] for k, v in known.items()},
              'samples': json.loads(json.dumps(samples, default=str))},
          'assumptions': check.assumptions,
          'wall_s': round(wall, 2), 'violations': violations}
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, check.id + '.json'), 'w') as out:
        json.dump(ev, out, indent=1)
    print('%s %s: %d traces, %d states, %d transitions, %d distinct outcomes, exhaustive=%s, %.1fs' % (
        check.id, 'VIOLATED' if rc else 'ok', total.evaluations, len(total.states), total.transitions,
        len(total.outcomes), ev['coverage']['exhaustive'], wall))
    return rc


def replay(check, path):
    """Re-run one recorded case; exit 1 if it still violates the property"""
    rec = json.load(open(path))
    for sp in check.spaces(rec['tier']):
        if sp.name == rec['space']:
            _init_stdout = sys.stdout
            _arm()
            case = sp.decode(rec['index'])
            sys.stdout = io.StringIO()
            try:
                for i in range(rec.get('first_index', rec['index']), rec['index']):
                    check.evaluate(sp.decode(i), Stats())
                r = check.evaluate(case, Stats())
            finally:
                sys.stdout = _init_stdout
            print(json.dumps({'case': check.show(case), 'result': r}, indent=1, default=str))
            return 1 if r else 0
    print('no such space')
    return 2
