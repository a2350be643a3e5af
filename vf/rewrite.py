"""Comparison of a rewritten program with its original, line by line, on the text (independent of gcodeutils)"""
import re

from vf.core import Violation
from vf.machine import Machine, parse

_BLANKS = re.compile(r'\s+')


def comment(c):
    return _BLANKS.sub('', c.comment)


def tolerance(letter, unit, places=None):
    """Half of the last decimal documented for that argument (+ float noise), in the unit of the program"""
    if letter == 'E':
        return 0.51e-5 if unit == 1.0 else 0.51e-7 * 2
    return 0.51e-3 if unit == 1.0 else 0.51e-5


def same_line(a, b, unit, free=(), scale=None):
    """None, or what differs between the original line a and the rewritten line b, arguments `free` aside"""
    if a.code != b.code:
        return 'command %s became %s' % (a.code, b.code)
    if comment(a) != comment(b):
        return 'comment %r became %r' % (a.comment, b.comment)
    ka = {k: v for k, v in a.args.items() if k not in free}
    kb = {k: v for k, v in b.args.items() if k not in free}
    # a valueless parsed argument of a move (X) has no meaning
    ga = {k for k, v in ka.items() if v is not None or k not in 'XYZEFIJ'}
    gb = {k for k, v in kb.items() if v is not None or k not in 'XYZEFIJ'}
    if ga != gb:
        return 'arguments %s became %s' % (sorted(ga), sorted(gb))
    for k in ga:
        if ka[k] is None or kb[k] is None:
            if ka[k] != kb[k]:
                return '%s %r became %r' % (k, ka[k], kb[k])
        elif abs(ka[k] - kb[k]) > tolerance(k, unit):
            return '%s%r became %s%r' % (k, ka[k], k, kb[k])
    return None


def alignments(inp, out, may_add, limit=64):
    """Every way to see `out` as `inp` with lines satisfying may_add(c) inserted: lists of (input index or None)"""
    n, m = len(inp), len(out)
    extra = m - n
    if extra < 0:
        return
    found = 0
    stack = [(0, 0, ())]
    while stack:
        i, j, acc = stack.pop()
        if j == m:
            if i == n:
                found += 1
                yield acc
                if found >= limit:
                    return
            continue
        if m - j > n - i and may_add(out[j]):
            stack.append((i, j + 1, acc + (None,)))
        if i < n and inp[i].code == out[j].code:
            stack.append((i + 1, j + 1, acc + (i,)))


def lines(prog):
    return [parse(l) for l in prog if l.strip()]
