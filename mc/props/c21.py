from mc.triangles import *

ASSUMPTIONS = ["smallest angle of a triangle at least 1.5 degrees", "flat triangles are exactly flat up to rounding"]


def circles(ctx, t, F, rep):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F, rep)
    s, tol = T.size, 1e-9 * T.thin
    # circumcircle: exact center
    A, B, C = T.V
    u, v = sub(B, A), sub(C, A)
    D = 2 * det(u, v)
    O = add(A, ((v[1] * n2(u) - u[1] * n2(v)) / D, (u[0] * n2(v) - v[0] * n2(u)) / D))
    R = fdist(O, A)
    chk_circle(ctx, ctx.call(T.o.circumcircle), O, R, "circumcircle of the " + T.w, s + R * 0.01, tol)
    c, r = cc(ctx, ctx.call(T.o.incircle), "incircle of the " + T.w)
    for i in range(3):
        ctx.close(T.signed(c, i), r, "incircle of the %s: distance of its center to the side %d" % (T.w, i), T.size, tol)
    E = ctx.call(T.o.excircles)
    ctx.ok(isinstance(E, dict) and sorted(E) == ["A", "B", "C"], "excircles of the %s: %s", T.w, show(E))
    for k in range(3):
        n = "excircle %s of the %s" % ("ABC"[k], T.w)
        c, r = cc(ctx, E["ABC"[k]], n)
        for i in range(3):
            ctx.close(T.signed(c, i), -r if i == k else r, "%s: signed distance of its center to the side opposite to %s" % (n, "ABC"[i]), T.size + r, tol)
    H = ctx.call(T.o.orthic_triangle)
    ctx.ok(isinstance(H, g.Triangle), "orthic triangle: %s", show(H))
    for k, P in enumerate((H.A, H.B, H.C)):
        f = foot(T.V[(k + 1) % 3], T.V[(k + 2) % 3], T.V[k])
        ctx.close_pt(P, f, "vertex %s of the orthic triangle of the %s" % ("ABC"[k], T.w), T.size, tol)
    q = sorted([n2(sub(A, B)), n2(sub(B, C)), n2(sub(A, C))])
    ctx.outcome("right" if q[0] + q[1] == q[2] else "acute" if q[0] + q[1] > q[2] else "obtuse")


def flat(ctx, t, F):
    T = Tri(ctx, t, F)
    r = ctx.call(T.o.circumcircle)
    ctx.ok(r is None, "circumcircle of the flat %s: %s", T.w, show(r))
    ctx.outcome("flat")


def spaces(tier):
    q = tier == "quick"
    return [
        Product("narrow triangles", [("triangle", narrow_shapes()), ("frame", FN if q else F6), ("rep", ["a"])], circles),
        Product("triangles, extreme sizes", [("triangle", shapes(1) + shapes(2)[::7]), ("frame", MICRO), ("rep", ["a"])], circles),
        Product("triangles", [("triangle", shapes(2 if q else 3)), ("frame", F6 if q else FRAMES), ("rep", ["a"] if q else ["a", "i"])], circles),
        Product("flat", [("triangle", flat_shapes() + degenerate_shapes()), ("frame", FRAMES)], flat),
    ]
