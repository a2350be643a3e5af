"""Helpers shared by the checks: access to the code under test through its public interface only"""
import io
import itertools

from gcodeutils.gcoder import GCode

from vf.core import Violation


def text_of(gcode):
    out = io.StringIO()
    gcode.write(out)
    return out.getvalue().split('\n')[:-1]


def same(a, b, eps=1e-6):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= eps


def expect(cond, what, **detail):
    if not cond:
        raise Violation(what, **detail)


def parse(lines, **kw):
    return GCode(list(lines), **kw)


# numbers which are unusual in some way: zero, tiny, huge, negative, odd spellings, around powers of two
VALUES = ['0', '-0', '0.0004', '-.5', '0.00001', '123456.789', '99999.99999', '-1000', '1.0005', '7.', '+3', '007.50', '255.5', '256',
          '-257', '360', '65536']


def valued(codes, letters, values=VALUES, smallest=0, values2=None):
    """Commands with one value in every set of the letters"""
    r = []
    for v in values:
        for code in codes:
            for combo in itertools.product(*[('', k) for k in letters]):
                words = [k + v for k in combo if k]
                if len(words) >= smallest:
                    r.append(' '.join([code] + words))
    return r


SIZES = [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]


def repeated(head, block, n):
    """A program of n lines repeating the block after the head; {k} stands for the number of the repetition"""
    r = list(head)
    k = 0
    while len(r) < n:
        k += 1
        r += [l.replace('{k}', str(k)) for l in block]
    return r[:n]


def subsets(letters):
    return [''.join(k for i, k in enumerate(letters) if b >> i & 1) for b in range(2 ** len(letters))]
