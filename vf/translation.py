"""What C10 and C11 share: running the translation and matching its output with the input"""
from vf.common import text_of
from vf.machine import parse
from gcodeutils.filter.translate import GCodeXYTranslateFilter
from gcodeutils.gcoder import GCode


def translate(prog, dx, dy):
    g = GCode(list(prog))
    GCodeXYTranslateFilter(x=dx, y=dy).filter(g)
    return text_of(g)


def is_placement(c):
    """a rapid X/Y move and nothing else, as only the translation may add"""
    return c.code == 'G0' and c.args and all(k in 'XY' and v is not None for k, v in c.args.items()) and not c.comment
