"""What C23 and C24 share: towers and the run of the temperature calibration tool"""
import re

from vf.checks.c04 import CHECK as C04, fine_stack, stack
from vf.tools import run_tool

M104 = re.compile(r'M104 S(-?\d+\.\d)$')


def layer(z, printed=True, f=''):
    return ['G1 Z%g%s' % (z, f)] + (['G1 X1 E1'] if printed else ['G1 X5'])


BLOCKS = [layer(z) for z in (.1, .2, .3, .7, 1.2, 10.)] + [layer(.2, False), layer(.5, False), layer(15, False)] + [
    ['; LAYER', 'M107'], ['G91', 'G1 Z0.4', 'G1 E1', 'G90'], ['G1 X2 E1'], ['G1 Z0.4 X1 E1', 'M104 S185.5 ; own'], layer(350),
    ['G1 Z0.3', 'M109 S200', 'M140 S60', 'G1 X2 E1', 'M104 T1 S190', 'M109 T1 S190'], ['G1 Z0.6'] + ['G1 X1 E1', 'G1 X2 E1'] * 200]
TEMPS = [(200, 180), (180, 220), (200, 200), (140, 160), (260, 240), (150, 250), (245, 255), (100, 300)]
MORE = [(249, 250), (250, 249), (249, 251), (150, 151), (149, 152), (151, 149), (130, 280), (0, 400), (250, 250), (251, 260)]
GRADIENTS = [('-c',), ('-s', '1'), ('-s', '2'), ('-s', '3'), ('-s', '4'), (), ('-s', '7')]
MINZ = [(), ('-z', '0'), ('-z', '0.2'), ('-z', '0.25'), ('-z', '5'), ('-z', '20')]


def options(case):
    """(min z, steps or None when continuous)"""
    _, _, grad, minz = case
    return float(minz[1]) if minz else 0.1, None if grad == ('-c',) else int(grad[1]) if grad else 10


def program(blocks):
    if isinstance(blocks[0], float):
        return fine_stack(blocks[:4]) if len(blocks) > 4 else stack(blocks)
    return ['M83'] + [l for b in blocks for l in BLOCKS[b]]


def calibrate(case):
    """(input lines, reference runs, printed heights, output lines, error)"""
    blocks, temps, grad, minz = case
    prog = program(blocks)
    runs, printed = C04.reference(prog)
    out, error = run_tool('gcode_tempcal', list(temps) + list(grad) + list(minz), '\n'.join(prog) + '\n')
    return prog, runs, printed, out.split('\n')[:-1] if out else [], error


def domain(runs, printed, minz):
    """(zmin, zmax) of the gradient, or None when there is no such range"""
    above = [z for z, _ in runs if z is not None and z > minz]
    if not above or not printed or min(above) >= max(printed):
        return None
    return min(above), max(printed)
