"""Shared exact machine: generalized circles under inversions, reflections and Moebius maps."""
from mc.lib import *

# exact initial curves
GCS = [
    ("unit circle", GC.circle((0, 0), 1)),
    ("circle 1", GC.circle((2, -1), Fr(1, 4))),
    ("circle 2", GC.circle((Fr(-3, 2), Fr(1, 2)), 4)),
    ("circle 3", GC.circle((1, 1), 2)),
    ("circle 4", GC.circle((0, 3), Fr(25, 4))),
    ("x axis", GC.line((0, 0), (1, 0))),
    ("y axis", GC.line((0, -1), (0, 2))),
    ("line 1", GC.line((1, 0), (1, 1))),
    ("line 2", GC.line((0, 2), (2, 1))),
    ("line 3", GC.line((-1, -1), (2, 2))),
    ("line 4", GC.line((-1, 0), (0, -1))),
]
LINE_PTS = {"x axis": ((0, 0), (1, 0)), "y axis": ((0, -1), (0, 2)), "line 1": ((1, 0), (1, 1)), "line 2": ((0, 2), (2, 1)), "line 3": ((-1, -1), (2, 2)), "line 4": ((-1, 0), (0, -1))}


def build(ctx, name, gc):
    if gc.is_line():
        A, B = LINE_PTS[name]
        return mkline(ctx, A, B)
    r = isqrt_exact(gc.r2())
    return ctx.call(g.Circle, as_pt(gc.center()), float(r) if r is not None else fsqrt(gc.r2()))


def tame(gc, lim=60.0):
    """size of the curve, or Skip if it is too big or too small for floating point conclusions"""
    if gc.is_line():
        d = gc.fdist((0.0, 0.0))
        if d > lim:
            raise Skip
        return 2.0 + d
    c, r = gc.center(), fsqrt(gc.r2())
    s = math.hypot(float(c[0]), float(c[1])) + r
    if r < 0.02 or s > lim:
        raise Skip
    return s


def clear_of(gc, z, gap=0.02):
    """the point is exactly on the curve, or clearly off it"""
    if isinstance(z, str):
        return
    if gc.has(z):
        return
    if gc.fdist(fpt(z.t())) < gap:
        raise Skip
