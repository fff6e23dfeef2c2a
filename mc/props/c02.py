from mc.lib import *
from mc.props.c01 import segs, FLAGS

ASSUMPTIONS = ["points are on the line (up to rounding) or off it by at least 1e-2 of the distance to the defining points",
               "positions along the line keep a distance from the end points, or are exactly the end points"]
T_ON = [Fr(-3), Fr(-1, 2), Fr(-1, 32), Fr(0), Fr(1, 4), Fr(1, 2), Fr(15, 16), Fr(1), Fr(33, 32), Fr(3, 2), Fr(4)]
OFF = [Fr(0), Fr(1, 2), Fr(-1, 8)]


def member(ctx, s, flags, t, off, F, swap):
    A, B = s
    ea, eb = flags
    u = sub(B, A)
    M = add(add(A, mul(t, u)), mul(off, perp(u)))
    on = off == 0
    inseg = on and (ea or t >= 0) and (eb or t <= 1)
    A_, B_, M_ = F(A), F(B), F(M)
    end = t in (0, 1) and off == 0
    if end and F is not ID and F.name not in ("x100", "/32"):
        # a rounded image of an end point: use the very same float coordinates
        pass
    if swap:
        A_, B_, ea, eb = B_, A_, eb, ea
    ctx.state((A_, B_, ea, eb, M_))
    l = mkline(ctx, A_, B_, ea, eb, rep=REPS[(A[0] + B[1]) % 5])
    m = as_pt(M_, REPS[(A[1] + B[0]) % 5])
    w = "point %s, line %s-%s extended (%s,%s)" % (fpt(M_), fpt(A_), fpt(B_), ea, eb)
    ctx.ok(boolean(ctx.call(l.includes, m)) == on, "%s: includes should be %s", w, on)
    ctx.ok(boolean(ctx.call(l.includes, m, strict=True)) == inseg, "%s: strict includes should be %s", w, inseg)
    if on:
        ctx.ok(boolean(ctx.call(l.includes, m, strict=True, checkCollinear=False)) == inseg,
               "%s: strict includes without collinearity check should be %s", w, inseg)
    ctx.outcome(("in" if inseg else "on line only" if on else "off"))


NEAR_T = [x for d in LADDER for x in (d, -d, 1 - d, 1 + d)]


def all_spaces(tier):
    q = tier == "quick"
    return [
        Product("grid", [("line", segs(1 if q else 2)), ("flags", FLAGS), ("t", T_ON), ("off", OFF),
                         ("frame", F3 if q else F6), ("swap", [0, 1])], member),
        Product("near the ends", [("line", segs(1)), ("flags", FLAGS), ("t", NEAR_T), ("off", [Fr(0)]), ("frame", FN[:2] if q else FN), ("swap", [0, 1])], member),
        Product("near the line", [("line", segs(1)), ("flags", FLAGS[::3]), ("t", [Fr(-1), Fr(1, 2), Fr(1), Fr(3)]), ("off", [x for d in LADDER for x in (d, -d)]), ("frame", FN[:2] if q else FN), ("swap", [0, 1])], member),
        Product("directions", [("line", [((0, 0), (a, b)) for a, b in grid(5 if q else 8) if (a, b) != (0, 0)]), ("flags", FLAGS),
                               ("t", [Fr(-1), Fr(0), Fr(1, 2), Fr(1), Fr(2)]), ("off", [Fr(0), Fr(1, 4)]), ("frame", [FRAMES[0], FRAMES[4], FRAMES[7], FRAMES[8], FRAMES[9]]), ("swap", [0])], member,
                "all directions of a 11x11 integer grid (all octants and the axes)"),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "directions")
