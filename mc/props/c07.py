from mc.lib import *
from mc.circles import *

ASSUMPTIONS = ["the angle of two circles is the angle whose cosine is (d^2-r1^2-r2^2)/(2 r1 r2): 0 for external, 180 degrees for internal tangency",
               "three circles with a radical center have non-aligned centers separated by more than 1e-2"]


def pw(p, c, r):
    return (p[0] - float(c[0])) ** 2 + (p[1] - float(c[1])) ** 2 - float(r) ** 2


def two(ctx, cfg, F, rep):
    off, r1, r2 = cfg
    d2 = n2(off)
    rel = relation(d2, r1, r2)
    c1, c2, R1, R2 = F((0, 0)), F(off), F.len(r1), F.len(r2)
    C1, C2 = mkcircle(ctx, c1, R1, rep), mkcircle(ctx, c2, R2, rep)
    ctx.state((c1, c2, R1, R2))
    w = "circles %s radius %s and %s radius %s (%s)" % (fpt(c1), float(R1), fpt(c2), float(R2), rel)
    cosv = fr(d2 - r1 * r1 - r2 * r2) / (2 * r1 * r2)
    for a, b in ((C1, C2), (C2, C1)):
        t = ctx.call(a.angle, b)
        if abs(cosv) > 1:
            ctx.ok(t is None, "%s: angle of circles that do not meet is %s", w, show(t))
        else:
            tol = 2e-5 if abs(cosv) == 1 else 1e-8 / math.sqrt(1 - float(cosv) ** 2)
            if F.size(1) > 50:
                tol *= 10
            ctx.close(num(t, w + ": angle"), math.acos(float(cosv)), w + ": angle", 1.0, tol)
        o = cosv == 0
        ctx.ok(boolean(ctx.call(a.is_orthogonal, b)) == o, "%s: is_orthogonal should be %s", w, o)
    if d2 == 0:
        ctx.ok(ctx.call(C1.radical_axis, C2) is None, "%s: concentric circles have no radical axis", w)
        ctx.outcome(rel)
        return
    d, size = fsqrt(d2) * F.fscale, F.size(20)
    # exact radical point on the line of centers
    k = fr(r1 * r1 - r2 * r2)
    rc = F(add(mul(Fr(1, 2), ept(off)), mul(k / 2 / d2, off)))
    s2 = max(size, math.hypot(*fpt(rc)))
    for a, b in ((C1, C2), (C2, C1)):
        ctx.close_pt(ctx.call(a.radical_center, b), rc, w + ": radical_center", s2)
        ax = ctx.call(a.radical_axis, b)
        chk_line(ctx, ax, rc, add(rc, perp(sub(c2, c1))), w + ": radical_axis", s2)
        ctx.ok(bool(ax.extendA) and bool(ax.extendB), "%s: the radical axis is not an infinite line", w)
        A, B = pt(ax.A), pt(ax.B)
        for p in (A, B, (2 * B[0] - A[0], 2 * B[1] - A[1])):
            x = num(ctx.call(C1.power, as_pt(p)), "power")
            y = num(ctx.call(C2.power, as_pt(p)), "power")
            ctx.close(x, y, w + ": powers at %s of the radical axis" % (p,), max(s2, abs(p[0]), abs(p[1])) ** 2, 1e-7)
    ctx.outcome(rel)


def rounded(ctx, cfg):
    c1, r1, c2, r2, rel = cfg
    o1, o2 = ctx.call(g.Circle, c1, r1), ctx.call(g.Circle, c2, r2)
    ctx.state(("rounded",) + cfg)
    w = "circles %s radius %r and %s radius %r (%s up to rounding)" % cfg
    for a, b in ((o1, o2), (o2, o1)):
        ctx.close(num(ctx.call(a.angle, b), w + ": angle"), 0.0 if rel[0] == "e" else PI, w + ": angle", 1.0, 2e-4)
        ctx.ok(not boolean(ctx.call(a.is_orthogonal, b)), "%s: reported orthogonal", w)
    ctx.outcome("rounded " + rel)


def power(ctx, c, r, P, F, rep):
    C = mkcircle(ctx, F(c), F.len(r), rep)
    want = (n2(sub(P, c)) - fr(r) ** 2) * F.scale2
    ctx.state((F(c), r, F(P)))
    ctx.close(num(ctx.call(C.power, as_pt(F(P), rep)), "power"), want, "power of %s with respect to %s" % (fpt(F(P)), show(C)), F.size(8) ** 2, 1e-10)
    ctx.outcome("power")


def ortho(ctx, r1, r2, u, F):
    """circles meeting at right angles, and nearly so"""
    for e, k in ((True, 1), (False, Fr(1001, 1000)), (False, Fr(999, 1000))):
        d = isqrt_exact(fr(r1) ** 2 + fr(r2) ** 2)
        c2 = mul(d * k, u)
        C1, C2 = mkcircle(ctx, F((0, 0)), F.len(r1)), mkcircle(ctx, F(c2), F.len(r2))
        ctx.state((r1, r2, u, k, F.name))
        ctx.ok(boolean(ctx.call(C1.is_orthogonal, C2)) == e and boolean(ctx.call(C2.is_orthogonal, C1)) == e, "%s and %s: is_orthogonal should be %s", show(C1), show(C2), e)
    ctx.close(num(ctx.call(C1.angle, C2), "angle"), math.acos(float((d * d * k * k - d * d) / (2 * fr(r1) * r2))), "angle", 1.0, 1e-7)
    ctx.outcome("orthogonal")


def three(ctx, c1, c2, c3, rs, F):
    if det(sub(c2, c1), sub(c3, c1)) == 0:
        raise Skip
    r1, r2, r3 = rs
    # linear system for the radical center
    def lin(c, r, e, s):
        return (2 * (e[0] - c[0]), 2 * (e[1] - c[1]), fr(n2(e) - n2(c)) - fr(s) ** 2 + fr(r) ** 2)
    a, b = lin(c1, r1, c2, r2), lin(c1, r1, c3, r3)
    D = Fr(det(a, b))
    X = ((a[2] * b[1] - b[2] * a[1]) / D, (a[0] * b[2] - b[0] * a[2]) / D)
    C = [mkcircle(ctx, F(c), F.len(r)) for c, r in ((c1, r1), (c2, r2), (c3, r3))]
    ctx.state((c1, c2, c3, rs, F.name))
    want = F(X)
    size = max(F.size(10), math.hypot(*fpt(want)))
    for o in ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
        ctx.close_pt(ctx.call(g.radical_center, *[C[i] for i in o]), want, "radical center of %s" % [show(C[i]) for i in o], size)
    ctx.outcome("three")


def ortho_narrow(ctx, p, d, u, F):
    r1, r2 = p
    D = isqrt_exact(fr(r1) ** 2 + fr(r2) ** 2)
    for k in (1 + d, 1 - d):
        C1, C2 = mkcircle(ctx, F((0, 0)), F.len(r1)), mkcircle(ctx, F(mul(D * k, u)), F.len(r2))
        ctx.state((r1, r2, u, k, F.name))
        w = "%s and %s" % (show(C1), show(C2))
        ctx.ok(not boolean(ctx.call(C1.is_orthogonal, C2)) and not boolean(ctx.call(C2.is_orthogonal, C1)), "%s: reported orthogonal", w)
        ctx.close(num(ctx.call(C1.angle, C2), "angle"), math.acos(float((D * D * k * k - D * D) / (2 * fr(r1) * r2))), w + ": angle", 1.0, 1e-9)
    ctx.outcome("nearly orthogonal")


def all_spaces(tier):
    q = tier == "quick"
    G2 = grid(2)
    U = [(1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (Fr(-12, 13), Fr(5, 13))]
    return [
        Product("two", [("pair", circle_pairs(tier)), ("frame", F6 if q else FRAMES), ("rep", ["a"] if q else ["a", "i"])], two),
        Product("narrow", [("pair", narrow_pairs()), ("frame", FN), ("rep", ["a"])], two),
        Product("nearly orthogonal", [("radii", [(3, 4), (4, 3), (5, 12), (24, 7), (Fr(3, 64), Fr(4, 64))]), ("by", LADDER), ("u", U), ("frame", F4)], ortho_narrow),
        Product("rounded", [("pair", rounded_tangents(tier))], rounded),
        Product("power", [("center", grid(1)), ("radius", [1, Fr(5, 2), Fr(1, 8)]), ("point", G2), ("frame", F4 if q else FRAMES), ("rep", ["a"] if q else REPS)], power),
        Product("orthogonal", [("r1", [3, Fr(12, 5), 24]), ("r2", [4, Fr(16, 5), 7, 32]), ("u", U), ("frame", F6)], ortho_guard),
        Product("three", [("c1", [(0, 0)]), ("c2", G2[1:13] if q else G2[1:]), ("c3", G2), ("radii", [(1, 1, 1), (2, 1, 3), (Fr(1, 4), 5, 1)]), ("frame", F4 if q else FRAMES)], three),
    ]


def ortho_guard(ctx, r1, r2, u, F):
    if isqrt_exact(fr(r1) ** 2 + fr(r2) ** 2) is None:
        raise Skip
    ortho(ctx, r1, r2, u, F)


def spaces(tier):
    return extreme(all_spaces(tier), "two", "power", "three", "orthogonal")
