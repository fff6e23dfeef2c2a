from mc.lib import *
from mc.props.c01 import segs, FLAGS, exact_rel

ASSUMPTIONS = ["strict mode: whether an intersection point that is an end point counts is judged only where the point is dyadic (no rounding)",
               "strict mode is not defined for two representations of one line (their overlap is not a point)"]


def both(ctx, l1, l2, **k):
    return [(ctx.call(g.intersection_line_line, l1, l2, **k), "intersection_line_line"),
            (ctx.call(l1.intersection_with_line, l2, **k), "Line.intersection_with_line"),
            (ctx.call(g.intersection_line_line, l2, l1, **k), "intersection_line_line (exchanged)")]


def weak(ctx, P, size, f, what):
    A, B, C, D = P
    eq, par, pr = exact_rel(A, B, C, D)
    l1 = mkline(ctx, A, B, *FLAGS[f % 4], rep=REPS[f % 5])
    l2 = mkline(ctx, C, D, *FLAGS[(f // 4) % 4])
    ctx.state(tuple(P))
    for r, n in both(ctx, l1, l2):
        w = "%s of %s-%s and %s-%s" % (n, fpt(A), fpt(B), fpt(C), fpt(D))
        if eq:
            chk_line(ctx, r, A, B, w, size)
        elif par:
            ctx.ok(r is None, "%s: parallel lines gave %s", w, show(r))
        else:
            ctx.close_pt(r, meet(A, B, C, D), w, max(size, *[abs(float(x)) for x in meet(A, B, C, D)]))
    ctx.outcome("equal" if eq else "parallel" if par else "secant")


def pairs(ctx, s1, s2, flip):
    (A, B), (C, D) = s1, s2
    if flip:
        C, D = D, C
    weak(ctx, [ept(X) for X in (A, B, C, D)], 6, A[0] + 3 * B[1] + 5 * C[0] + 16, "")


STRETCH = [(0, 1), (-40, Fr(-79, 2)), (7, Fr(15, 2))]


def framed(ctx, s1, s2, F, st):
    (A, B), (C, D) = s1, s2
    u = sub(D, C)
    C2, D2 = add(C, mul(fr(st[0]), u)), add(C, mul(fr(st[1]), u))
    weak(ctx, [F(X) for X in (A, B, C2, D2)], F.size(60), A[1] + 3 * D[0] + 20, F.name)


def narrow(ctx, s, d, p, F, st):
    """lines at a small angle, meeting near the points or far from them"""
    A, B = s
    u = sub(B, A)
    n = perp(u)
    v = add(u, mul(d, n))
    C = add(add(A, mul(p, n)), mul(Fr(1, 2), u))
    P = [F(X) for X in (A, B, add(C, mul(fr(st[0]), v)), add(C, mul(fr(st[1]), v)))]
    X = meet(*P)
    l1, l2 = mkline(ctx, P[0], P[1], *FLAGS[(A[0] + B[1]) % 4]), mkline(ctx, P[2], P[3])
    ctx.state(tuple(P))
    size = F.size(6) + F.fscale * (abs(float(X[0])) + abs(float(X[1])))
    for r, w in both(ctx, l1, l2):
        ctx.close_pt(r, X, "%s of %s-%s and %s-%s" % ((w,) + tuple(fpt(x) for x in P)), size, 1e-7 + 1e-13 / abs(float(d)))
    ctx.outcome("secant at a small angle")


def rounded(ctx, x, i, j, k, y, axis):
    X = near_floats(x)
    P = [(X[i], 0.0), (X[j], 1.5), (X[k], y), (X[i], y + 2.25)]
    if axis == "horizontal":
        P = [(b, a) for a, b in P]
    l1, l2 = ctx.call(g.Line, P[0], P[1]), ctx.call(g.Line, P[2], P[3])
    ctx.state((x, i, j, k, y, axis))
    for r, w in both(ctx, l1, l2):
        chk_line(ctx, r, P[0], P[1], "%s of %s and %s" % (w, show(l1), show(l2)), max(10, abs(x)), 1e-9)
    ctx.outcome("equal up to rounding")


def pos(X, A, B, ea, eb):
    """1 inside, 0 an end point, -1 outside"""
    t = Fr(dot(sub(X, A), sub(B, A))) / n2(sub(B, A))
    if (t == 0 and not ea) or (t == 1 and not eb):
        return 0
    if (t < 0 and not ea) or (t > 1 and not eb):
        return -1
    return 1


def dyadic(x):
    d = fr(x).denominator
    return d & (d - 1) == 0 and d <= 64


def strict(ctx, s1, s2, f1, f2, F):
    (A, B), (C, D) = s1, s2
    X = meet(A, B, C, D)
    if X is None:
        eq = exact_rel(A, B, C, D)[0]
        if eq:
            raise Skip
        want, bnd = False, False
    else:
        p, q = pos(X, A, B, *f1), pos(X, C, D, *f2)
        want = p >= 0 and q >= 0
        bnd = (p == 0 and q >= 0) or (q == 0 and p >= 0)
        if bnd and not (F is ID and dyadic(X[0]) and dyadic(X[1])):
            raise Skip
    l1 = mkline(ctx, F(A), F(B), *f1)
    l2 = mkline(ctx, F(C), F(D), *f2)
    ctx.state(("strict", s1, s2, f1, f2, F.name))
    for r, n in both(ctx, l1, l2, strict=True):
        w = "%s (strict) of %s-%s %s and %s-%s %s" % (n, fpt(F(A)), fpt(F(B)), f1, fpt(F(C)), fpt(F(D)), f2)
        if want:
            ctx.ok(r is not None, "%s: the point %s of both was not reported", w, fpt(F(X)))
            ctx.close_pt(r, F(X), w, F.size(20))
        else:
            ctx.ok(r is None, "%s: %s reported, the lines meet nowhere on both", w, show(r))
    ctx.outcome("end point" if bnd else "on both" if want else "not on both")


def all_spaces(tier):
    q = tier == "quick"
    L = [((0, 0), (1, 0)), ((0, 0), (0, 2)), ((-1, 1), (2, -2)), ((0, -1), (2, 1)), ((2, 1), (-2, 0)), ((-1, -1), (0, 2)), ((1, 2), (1, -1))]
    M = segs(1) if q else segs(2)
    return [
        Product("pairs", [("l1", segs(1)), ("l2", segs(1) if q else segs(2)), ("swap", [0, 1])], pairs),
        Product("framed", [("l1", L[:5] if q else segs(1)), ("l2", segs(1)), ("frame", FRAMES), ("points", STRETCH)], framed),
        Product("narrow", [("line", segs(1)), ("by", LADDER + [-d for d in LADDER]), ("apart", [Fr(0), Fr(1, 2), Fr(1, 64)]), ("frame", FN), ("points", [(0, 1), (-3, 1)])], narrow),
        Product("rounded", [("x", [0.1 + 0.2, -0.3, 7.7, -5000 / 7.0, 0.0]), ("i", range(5)), ("j", range(5)), ("k", range(5)), ("y", [-3.0, 0.5]), ("axis", ["vertical", "horizontal"])], rounded),
        Product("strict", [("l1", L), ("l2", M), ("flags1", FLAGS), ("flags2", FLAGS), ("frame", [ID])], strict),
        Product("strict framed", [("l1", L), ("l2", M[::3]), ("flags1", FLAGS), ("flags2", FLAGS), ("frame", FRAMES[2:5] if q else FRAMES[1:])], strict),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "framed", "strict framed")
