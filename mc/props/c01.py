from mc.lib import *

ASSUMPTIONS = ["points of a line are separated by more than the library's own coincidence tolerance (1e-5 relative)",
               "coordinates of magnitude 1e-4 .. 1e3; distinct lines differ by at least 1e-3 relative (integer configurations and their similar images)"]
FLAGS = [(True, True), (True, False), (False, True), (False, False)]


def segs(n):
    P = grid(n)
    return [(P[i], P[j]) for j in range(len(P)) for i in range(j)]


def exact_rel(A, B, C, D):
    u, v = sub(B, A), sub(D, C)
    par = det(u, v) == 0
    eq = par and det(u, sub(C, A)) == 0
    perp_ = dot(u, v) == 0
    return eq, par, perp_


def relate(ctx, l1, l2, eq, par, pr, what):
    for x, y, tag in ((l1, l2, ""), (l2, l1, " (exchanged)")):
        ctx.ok(boolean(ctx.call(x.is_equal, y)) == eq, "%s: is_equal%s should be %s", what, tag, eq)
        ctx.ok(boolean(ctx.call(x.is_parallel, y)) == par, "%s: is_parallel%s should be %s", what, tag, par)
        ctx.ok(boolean(ctx.call(x.is_perpendicular, y)) == pr, "%s: is_perpendicular%s should be %s", what, tag, pr)
    ctx.outcome("equal" if eq else "parallel" if par else "perpendicular" if pr else "secant")


def offset_eq(ctx, l, A, B, size):
    do = ctx.call(l.direction_offset)
    th, off = num(do["direction"], "direction"), num(do["offset"], "offset")
    ctx.ok(off >= 0, "offset %r is negative for the line through %s and %s", off, fpt(A), fpt(B))
    for X in (A, B, mid(ept(A), ept(B)), sub(mul(2, A), B)):
        v = math.cos(th) * float(X[0]) + math.sin(th) * float(X[1])
        s = max(size, abs(float(X[0])), abs(float(X[1])))
        ctx.close(v, off, "cos(d)x+sin(d)y at %s of the line through %s and %s" % (fpt(X), fpt(A), fpt(B)), s, 1e-9)


def pair(ctx, s1, s2, flip):
    (A, B), (C, D) = s1, s2
    if flip:
        C, D = D, C
    eq, par, pr = exact_rel(A, B, C, D)
    ctx.state((A, B, C, D))
    f1, f2 = FLAGS[(A[0] + 3 * B[1] + flip) % 4], FLAGS[(C[1] + D[0] + 2) % 4]
    l1 = mkline(ctx, A, B, *f1, rep=REPS[(A[0] + D[1]) % 5])
    l2 = mkline(ctx, C, D, *f2, rep=REPS[(B[0] + C[1]) % 5])
    relate(ctx, l1, l2, eq, par, pr, "lines %s-%s and %s-%s" % (A, B, C, D))


STRETCH = [(0, 1), (0, Fr(1, 64)), (-50, 3), (7, Fr(15, 2)), (1, 0)]


def framed(ctx, s1, s2, F, st):
    (A, B), (C, D) = s1, s2
    eq, par, pr = exact_rel(A, B, C, D)
    u = sub(D, C)
    C2, D2 = add(C, mul(fr(st[0]), u)), add(C, mul(fr(st[1]), u))
    pts4 = [F(X) for X in (A, B, C2, D2)]
    ctx.state((F.name, tuple(pts4)))
    l1 = mkline(ctx, pts4[0], pts4[1])
    l2 = mkline(ctx, pts4[2], pts4[3])
    relate(ctx, l1, l2, eq, par, pr, "lines %s-%s and %s-%s" % tuple(fpt(p) for p in pts4))


def offsets(ctx, s, F, st):
    A, B = s
    u = sub(B, A)
    X, Y = F(add(A, mul(fr(st[0]), u))), F(add(A, mul(fr(st[1]), u)))
    ctx.state(("off", X, Y))
    l = mkline(ctx, X, Y, *FLAGS[(A[0] + B[1]) % 4])
    offset_eq(ctx, l, X, Y, F.size(3))


def narrow(ctx, s, kind, d, F, st):
    """lines that are nearly, but not, parallel, equal or perpendicular"""
    A, B = s
    u = sub(B, A)
    n = perp(u)
    if kind == "shifted":
        C, v = add(A, mul(d, n)), u
    elif kind == "tilted":
        C, v = A, add(u, mul(d, n))
    elif kind == "tilted elsewhere":
        C, v = add(A, mul(Fr(3, 2), n)), add(u, mul(-d, n))
    else:
        C, v = add(A, u), add(n, mul(d, u))
    C2, D2 = add(C, mul(fr(st[0]), v)), add(C, mul(fr(st[1]), v))
    if kind == "shifted" and float(d) * F.fscale < 1e-7 * (1 + F.size(3)):
        raise Skip
    P = [F(X) for X in (A, B, C2, D2)]
    ctx.state((F.name, tuple(P)))
    l1, l2 = mkline(ctx, P[0], P[1], *FLAGS[(A[0] + B[1]) % 4]), mkline(ctx, P[2], P[3], *FLAGS[(A[1] + B[0]) % 4])
    relate(ctx, l1, l2, False, kind == "shifted", False, "lines %s-%s and %s-%s (%s by %g)" % (tuple(fpt(p) for p in P) + (kind, d)))


ABSC = [0.1 + 0.2, 0.1, -0.3, 7.7, -5000 / 7.0, 0.0, 1.0, -1.0]


def rounded(ctx, x, i, j, k, y, axis):
    """points of one vertical, horizontal or diagonal line whose coordinates differ by rounding only"""
    X = near_floats(x)
    P = [(X[i], 0.0), (X[j], 1.5), (X[k], y), (X[i], y + 2.25)]
    if axis == "horizontal":
        P = [(b, a) for a, b in P]
    elif axis == "diagonal":
        P = [(a + b, b) for a, b in P]
    l = [ctx.call(g.Line, P[a], P[b]) for a, b in ((0, 1), (1, 0), (2, 3), (3, 2), (1, 3))]
    ctx.state((x, i, j, k, y, axis))
    for a in range(5):
        offset_eq(ctx, l[a], *[P[t] for t in ((0, 1), (1, 0), (2, 3), (3, 2), (1, 3))[a]], size=max(1, abs(x)))
        relate(ctx, l[0], l[a], True, True, False, "%s lines of points %s and %s" % (axis, show(l[0]), show(l[a])))


def all_spaces(tier):
    q = tier == "quick"
    return [
        Product("pairs", [("l1", segs(1 if q else 2)), ("l2", segs(2)), ("swap", [0, 1])], pair,
                "all pairs of lines through integer grid points, both orders of the points"),
        Product("framed", [("l1", segs(1)), ("l2", segs(1)), ("frame", FRAMES), ("points", STRETCH)], framed,
                "similar images (rotated, mirrored, scaled, translated) and other choices of the two points"),
        Product("narrow", [("line", segs(1) if q else segs(2)), ("kind", ["shifted", "tilted", "tilted elsewhere", "nearly perpendicular"]), ("by", LADDER), ("frame", FN if q else FRAMES[:8]), ("points", [(0, 1), (Fr(-3), 1), (2, Fr(-1, 2))])], narrow,
                "lines at 1/16 .. 2^-19 of being parallel, equal or perpendicular"),
        Product("rounded", [("x", ABSC), ("i", range(5)), ("j", range(5)), ("k", range(5)), ("y", [-3.0, 0.5]), ("axis", ["vertical", "horizontal", "diagonal"])], rounded),
        Product("offset", [("l", segs(2 if q else 3)), ("frame", FRAMES), ("points", STRETCH)], offsets),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "framed", "offset")
