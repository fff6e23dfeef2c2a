from mc.lib import *
from mc.circles import *

ASSUMPTIONS = ["circles are exactly tangent (up to rounding) or away from tangency by at least 1e-6 of their size",
               "fixing inversions: the radical center has a non-zero power"]


def inv_c(pole, k, c, r):
    """image of a circle by an inversion (floats): (center, radius) or None for a line"""
    dx, dy = c[0] - pole[0], c[1] - pole[1]
    D = dx * dx + dy * dy - r * r
    if abs(D) < 1e-9 * r * r:
        return None
    s = k / D
    return (pole[0] + s * dx, pole[1] + s * dy), abs(s) * r


def mirror(A, B, c):
    dx, dy = B[0] - A[0], B[1] - A[1]
    t = ((c[0] - A[0]) * dx + (c[1] - A[1]) * dy) / (dx * dx + dy * dy)
    h = (A[0] + t * dx, A[1] + t * dy)
    return (2 * h[0] - c[0], 2 * h[1] - c[1])


def swaps(ctx, f, C1, C2, w, size):
    """f maps circle C1 to C2 and back; circles as (center, radius) floats"""
    for a, b in ((C1, C2), (C2, C1)):
        im = f(a)
        ctx.ok(im is not None, "%s: %s is sent to a line", w, a)
        ctx.close_pt(im[0], b[0], w + ": center of the image of %s" % (a,), size, 1e-6)
        ctx.close(im[1], b[1], w + ": radius of the image of %s" % (a,), size, 1e-6)


def act(ctx, m, w):
    """the map of the mirror m on circles"""
    if isinstance(m, g.Circle):
        c, R = pt(m.center), num(m.radius)
        return lambda a: inv_c(c, R * R, *a)
    if isinstance(m, g.Reflection):
        m = m.line
    if isinstance(m, g.Line):
        A, B = pt(m.A), pt(m.B)
        return lambda a: (mirror(A, B, a[0]), a[1])
    if isinstance(m, g.Inversion):
        c, k = pt(m.pole), num(m.power)
        return lambda a: inv_c(c, k, *a)
    raise Violation("%s: expected a circle, a line, an inversion or a reflection, got %s" % (w, show(m)))


def pairs(ctx, cfg, F, order, rep):
    off, r1, r2 = cfg
    rel = relation(n2(off), r1, r2)
    c1, c2 = F((0, 0)), F(off)
    if order:
        c1, c2, r1, r2 = c2, c1, r2, r1
    R1, R2 = F.len(r1), F.len(r2)
    o1, o2 = mkcircle(ctx, c1, R1, rep), mkcircle(ctx, c2, R2, rep)
    k1, k2 = (fpt(c1), float(R1)), (fpt(c2), float(R2))
    ctx.state((c1, c2, R1, R2))
    w = "circles %s radius %s and %s radius %s (%s)" % (k1 + k2 + (rel,))
    size = max(F.size(1) * 1e-2, k1[1] + k2[1] + math.hypot(k1[0][0] - k2[0][0], k1[0][1] - k2[0][1]))
    m = ctx.call(g.mid_circles, o1, o2)
    ms = m if isinstance(m, (list, tuple)) else [m]
    ctx.ok(len(ms) == (2 if rel == "secant" else 1), "%s: %d mid-circles", w, len(ms))
    for x in ms:
        ctx.ok(isinstance(x, (g.Circle, g.Line)), "%s: mid-circle %s", w, show(x))
        swaps(ctx, act(ctx, x, w), k1, k2, w + ": mirror " + show(x), size)
    if len(ms) == 2:
        a, b = ms
        same = type(a) is type(b) and (isinstance(a, g.Circle) and math.hypot(a.center[0] - b.center[0], a.center[1] - b.center[1]) < 1e-6 * size)
        ctx.ok(not same, "%s: the two mid-circles are the same %s", w, show(a))
    both = rel in ("outside", "nested", "concentric") and not (rel == "outside" and r1 == r2)
    for pos in (True, False, None):
        i = ctx.call(g.Inversion.from_swapping_two_circles, o1, o2) if pos is None else ctx.call(g.Inversion.from_swapping_two_circles, o1, o2, pos)
        w2 = "%s: swapping with positive=%s: %s" % (w, pos, show(i))
        if r1 == r2 and rel == "externally tangent":
            ctx.ok(isinstance(i, g.Reflection), "%s: only a reflection swaps them", w2)
        else:
            ctx.ok(isinstance(i, g.Inversion), "%s: expected an inversion", w2)
            k = num(i.power)
            ctx.ok(abs(k) > 1e-13 * min(k1[1], k2[1]) ** 2, "%s: degenerate power", w2)
            if both:
                ctx.ok((k > 0) == (pos is not False), "%s: both signs are possible", w2)
            elif rel == "outside":
                ctx.ok(k < 0, "%s: only a negative power is possible", w2)
            else:
                ctx.ok(k > 0, "%s: only a positive power is possible", w2)
        swaps(ctx, act(ctx, i, w2), k1, k2, w2, size)
    ctx.outcome(rel + (", same radius" if r1 == r2 else ""))


def rounded(ctx, cfg):
    c1, r1, c2, r2, rel = cfg
    o1, o2 = ctx.call(g.Circle, c1, r1), ctx.call(g.Circle, c2, r2)
    ctx.state(("rounded",) + cfg)
    w = "circles %s radius %r and %s radius %r (%s up to rounding)" % cfg
    m = ctx.call(g.mid_circles, o1, o2)
    ms = m if isinstance(m, (list, tuple)) else [m]
    ctx.ok(len(ms) == 1, "%s: %d mid-circles %s", w, len(ms), show(m))
    swaps(ctx, act(ctx, ms[0], w), (c1, r1), (c2, r2), w + ": mirror " + show(ms[0]), 5.0)
    for pos in (True, False):
        i = ctx.call(g.Inversion.from_swapping_two_circles, o1, o2, pos)
        w2 = "%s: swapping with positive=%s: %s" % (w, pos, show(i))
        if r1 == r2:
            ctx.ok(isinstance(i, g.Reflection), "%s: only a reflection swaps them", w2)
        else:
            ctx.ok(isinstance(i, g.Inversion) and num(i.power) > 1e-4 * min(r1, r2) ** 2, "%s: expected an inversion of positive power", w2)
        swaps(ctx, act(ctx, i, w2), (c1, r1), (c2, r2), w2, 5.0)
    ctx.outcome("rounded " + rel)


def fix2(ctx, cfg, F, order):
    off, r1, r2 = cfg
    rel = relation(n2(off), r1, r2)
    if rel in ("equal", "concentric"):
        raise Skip
    c1, c2 = F((0, 0)), F(off)
    if order:
        c1, c2, r1, r2 = c2, c1, r2, r1
    o1, o2 = mkcircle(ctx, c1, F.len(r1)), mkcircle(ctx, c2, F.len(r2))
    ctx.state(("fix", c1, c2, r1, r2))
    i = ctx.call(g.Inversion.from_fixing_two_circles, o1, o2)
    w = "inversion %s fixing %s and %s" % (show(i), show(o1), show(o2))
    f = act(ctx, i, w)
    ctx.ok(isinstance(i, g.Inversion), "%s", w)
    for c, r in ((c1, r1), (c2, r2)):
        k = (fpt(c), float(F.len(r)))
        swaps(ctx, f, k, k, w, max(F.size(1) * 1e-2, k[1], math.hypot(*fpt(F.vec(off)))))
    ctx.outcome("fix two, " + rel)


def fix3(ctx, c2, c3, rs, F):
    c1 = (0, 0)
    if det(c2, c3) == 0:
        raise Skip
    r1, r2, r3 = (fr(x) for x in rs)
    a = (2 * c2[0], 2 * c2[1], n2(c2) - r2 ** 2 + r1 ** 2)
    b = (2 * c3[0], 2 * c3[1], n2(c3) - r3 ** 2 + r1 ** 2)
    D = Fr(det(a, b))
    X = ((a[2] * b[1] - b[2] * a[1]) / D, (a[0] * b[2] - b[0] * a[2]) / D)
    pw = n2(X) - r1 ** 2
    if abs(pw) < Fr(1, 50) or n2(X) > 400:
        raise Skip
    cs = [F(c) for c in (c1, c2, c3)]
    o = [mkcircle(ctx, c, F.len(r)) for c, r in zip(cs, rs)]
    ctx.state(("fix3", c2, c3, rs, F.name))
    i = ctx.call(g.Inversion.from_fixing_three_circles, *o)
    w = "inversion %s fixing %s" % (show(i), [show(x) for x in o])
    ctx.ok(isinstance(i, g.Inversion), "%s", w)
    ctx.close(num(i.power), pw * F.scale2, w + ": power", float(abs(pw) + n2(X) + 1) * F.fscale ** 2, 1e-6)
    f = act(ctx, i, w)
    for c, r in zip(cs, rs):
        k = (fpt(c), float(F.len(r)))
        swaps(ctx, f, k, k, w, 20 * F.fscale * (1 + float(n2(X))))
    ctx.outcome("fix three, power %s" % ("positive" if pw > 0 else "negative"))


def all_spaces(tier):
    q = tier == "quick"
    P = circle_pairs(tier)
    G = grid(2)[1:] if q else grid(3)[1:]
    near = [(off, r1, r1 + s * e) for off, d in OFFS for r1 in (Fr(1), Fr(5, 2)) for e in LADDER for s in (1, -1)]
    return [
        Product("nearly equal radii", [("pair", near), ("frame", FN), ("order", [0]), ("rep", ["a"])], pairs),
        Product("narrow", [("pair", narrow_pairs()), ("frame", FN), ("order", [0, 1]), ("rep", ["a"])], pairs),
        Product("pairs", [("pair", P), ("frame", F6 if q else FRAMES), ("order", [0, 1]), ("rep", ["a"] if q else ["a", "i"])], pairs),
        Product("rounded", [("pair", rounded_tangents(tier))], rounded),
        Product("fix two", [("pair", P), ("frame", F6 if q else FRAMES), ("order", [0, 1])], fix2),
        Product("fix three", [("c2", G), ("c3", G), ("radii", [(1, 1, 1), (2, 1, 3), (Fr(1, 4), Fr(3, 2), 1), (3, 3, 3)]), ("frame", F3 if q else F6)], fix3),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "pairs", "fix two", "fix three")
