from mc.lib import *
from mc.circles import *
from mc.affine import NEAR45, near_turns

ASSUMPTIONS = ["radii at least 1e-6 (1e-2 where equality of circles is judged); circles that are not tangent are away from tangency by at least 1e-6 of their size",
               "whether a point on the circle is 'inside' is judged only where the distance is computed without rounding"]


def meetc(ctx, cfg, F, rep):
    off, r1, r2 = cfg
    rel = relation(n2(off), r1, r2)
    c1, c2 = F((0, 0)), F(off)
    R1, R2 = F.len(r1), F.len(r2)
    C1, C2 = mkcircle(ctx, c1, R1, rep), mkcircle(ctx, c2, R2, rep)
    ctx.state((c1, c2, R1, R2))
    w0 = "circles %s radius %s and %s radius %s (%s)" % (fpt(c1), float(R1), fpt(c2), float(R2), rel)
    want = common_points(c1, R1, c2, R2) if rel in ("secant", "externally tangent", "internally tangent") else []
    size = float(R1 + R2) + math.hypot(*fpt(c1)) * 1e-3
    for f, a in ((g.intersection_circle_circle, (C1, C2)), (g.intersection_circle_circle, (C2, C1)), (C1.intersection_with_circle, (C2,)), (C2.intersection_with_circle, (C1,))):
        r = ctx.call(f, *a)
        if rel == "equal":
            chk_circle(ctx, r, c1, R1, w0 + ": intersection")
            continue
        ctx.ok(not isinstance(r, g.Circle), "%s: reported as the same circle", w0)
        got = pts(r, w0)
        match_points(ctx, got, want, w0, size)
        for p in got:
            for c, R in ((c1, R1), (c2, R2)):
                ctx.close(math.hypot(p[0] - float(c[0]), p[1] - float(c[1])), float(R), w0 + ": distance of %s to a center" % (p,), size, 1e-6)
        if len(got) == 2:
            ctx.ok(math.hypot(got[0][0] - got[1][0], got[0][1] - got[1][1]) > 0.5 * math.hypot(*sub(want[0], want[1])), "%s: the two points coincide %s", w0, got)
    e = rel == "equal"
    ctx.ok(boolean(ctx.call(C1.is_equal, C2)) == e and boolean(ctx.call(C2.is_equal, C1)) == e, "%s: is_equal should be %s", w0, e)
    ctx.outcome(rel)


def rounded(ctx, cfg):
    c1, r1, c2, r2, rel = cfg
    o1, o2 = ctx.call(g.Circle, c1, r1), ctx.call(g.Circle, c2, r2)
    ctx.state(("rounded",) + cfg)
    w = "circles %s radius %r and %s radius %r (%s up to rounding)" % cfg
    d = math.hypot(c2[0] - c1[0], c2[1] - c1[1])
    s = r1 / d if rel[0] == "e" or r1 > r2 else -r1 / d
    for a, b in ((o1, o2), (o2, o1)):
        match_points(ctx, pts(ctx.call(g.intersection_circle_circle, a, b), w), [(c1[0] + s * (c2[0] - c1[0]), c1[1] + s * (c2[1] - c1[1]))], w, 5.0)
    ctx.outcome("rounded " + rel)


DIRS = [(1, 0), (0, 1), (-1, 0), (Fr(3, 5), Fr(4, 5)), (Fr(-4, 5), Fr(3, 5)), (Fr(-5, 13), Fr(-12, 13)), (Fr(15, 17), Fr(-8, 17)), (Fr(7, 25), Fr(24, 25))]
NEARK = [x for d in LADDER for x in (1 - d, 1 + d)]
K = [Fr(0), Fr(1, 2), 1 - Fr(1, 2 ** 7), 1 - Fr(1, 2 ** 12), Fr(1), 1 + Fr(1, 2 ** 12), 1 + Fr(1, 2 ** 7), Fr(2), Fr(50)]


def member(ctx, c, r, dr, k, F, rep):
    C = mkcircle(ctx, F(c), F.len(r), rep)
    P = F(add(ept(c), mul(k * fr(r), dr)))
    ctx.state((F(c), F.len(r), P))
    w = "circle %s radius %s, point %s at %s radii" % (fpt(F(c)), float(F.len(r)), fpt(P), float(k))
    p = as_pt(P, rep)
    ctx.ok(boolean(ctx.call(C.includes, p)) == (k == 1), "%s: includes should be %s", w, k == 1)
    if k != 1:
        ctx.ok(boolean(ctx.call(C.contains, p)) == (k < 1), "%s: contains should be %s", w, k < 1)
    ctx.outcome("on" if k == 1 else "in" if k < 1 else "out")


def unit_(v):
    """a rational approximation of the unit vector along v (to 2^-44)"""
    l = math.hypot(*v)
    return tuple(Fr(round(x / l * 2 ** 44), 2 ** 44) for x in v)


FAN = [unit_(v) for v in grid(4)[1:] if math.gcd(*v) == 1] + NEAR45 + near_turns(LADDER[1::2])
FANK = [x for d in LADDER + [Fr(1, 1 << 21)] for x in (1 - d, 1 + d)]


def fan(ctx, c, r, dr, F):
    """points barely inside or outside in many directions"""
    C = mkcircle(ctx, F(c), F.len(r))
    for k in FANK:
        P = F(add(ept(c), mul(k * fr(r), dr)))
        ctx.state((F(c), F.len(r), P))
        ctx.ok(boolean(ctx.call(C.contains, as_pt(P))) == (k < 1), "circle %s radius %s, point %s at %s radii: contains should be %s", fpt(F(c)), float(F.len(r)), fpt(P), float(k), k < 1)
        ctx.ok(boolean(ctx.call(C.includes, as_pt(P))) is False, "circle %s radius %s, point %s at %s radii: includes should be False", fpt(F(c)), float(F.len(r)), fpt(P), float(k))
    ctx.outcome("fan")


def boundary(ctx, c, r, v):
    """distances computed without rounding: the closed disk contains its boundary"""
    C = mkcircle(ctx, c, r)
    P = add(c, v)
    ctx.state(("b", c, r, P))
    ctx.ok(boolean(ctx.call(C.contains, as_pt(P))), "circle %s radius %s contains its point %s", fpt(c), float(r), fpt(P))
    ctx.ok(boolean(ctx.call(C.includes, as_pt(P))), "circle %s radius %s includes its point %s", fpt(c), float(r), fpt(P))
    ctx.outcome("on")


def equal(ctx, c, r, dc, kr, F):
    C1 = mkcircle(ctx, F(c), F.len(r))
    C2 = mkcircle(ctx, F(add(c, mul(r, dc))), F.len(fr(r) * kr), "l")
    e = dc == (0, 0) and kr == 1
    ctx.state(("eq", F(c), r, dc, kr))
    for a, b in ((C1, C2), (C2, C1)):
        ctx.ok(boolean(ctx.call(a.is_equal, b)) == e, "%s and %s: is_equal should be %s", show(a), show(b), e)
    ctx.outcome("equal" if e else "different")


def equal_narrow(ctx, c, r, d, what, F):
    """circles that differ slightly in one respect"""
    if float(d) * F.fscale * float(r) < 1e-7 * (1 + F.size(8)):
        raise Skip
    dc, kr = {"center x": ((d, 0), 1), "center y": ((0, -d), 1), "radius": ((0, 0), 1 + d), "radius-": ((0, 0), 1 - d)}[what]
    equal(ctx, c, r, dc, kr, F)


def all_spaces(tier):
    q = tier == "quick"
    cs = [(0, 0), (2, -1), (Fr(-7, 2), 5)]
    return [
        Product("meet", [("pair", circle_pairs(tier)), ("frame", F6 if q else FRAMES), ("rep", ["a"] if q else ["a", "i"])], meetc),
        Product("narrow", [("pair", narrow_pairs()), ("frame", FN), ("rep", ["a"])], meetc),
        Product("narrow member", [("center", cs), ("radius", [1, Fr(5, 2), Fr(1, 4)]), ("direction", DIRS), ("k", NEARK), ("frame", F4), ("rep", ["a"])], member),
        Product("fan", [("center", cs), ("radius", [1, Fr(5, 2), Fr(1, 4)]), ("direction", FAN), ("frame", F4 if q else FRAMES)], fan),
        Product("narrow equal", [("center", cs), ("radius", [1, Fr(5, 2), Fr(1, 4)]), ("by", LADDER), ("what", ["center x", "center y", "radius", "radius-"]), ("frame", F4)], equal_narrow),
        Product("rounded", [("pair", rounded_tangents(tier))], rounded),
        Product("member", [("center", cs), ("radius", [1, Fr(5, 2), Fr(1, 4), 20]), ("direction", DIRS), ("k", K), ("frame", F4 if q else FRAMES), ("rep", ["a", "i"])], member),
        Product("boundary", [("center", [(0, 0), (1, -2), (Fr(1, 2), 3)]), ("radius", [5]), ("v", [(3, 4), (-4, 3), (5, 0), (0, -5), (-3, -4), (4, -3)])], boundary),
        Product("equal", [("center", cs), ("radius", [1, Fr(5, 2), Fr(1, 4)]), ("dc", [(0, 0), (0, Fr(1, 8)), (Fr(1, 8), 0), (3, 3)]), ("kr", [Fr(1), Fr(1001, 1000), Fr(999, 1000), Fr(2)]), ("frame", F4)], equal),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "meet", "member")
