from mc.lib import *

ASSUMPTIONS = ["a line that is not tangent misses or cuts the curve by at least 1e-6 of its size"]
# rational points of the unit circle
PYTH = [(1, 0), (0, 1), (-1, 0), (0, -1)] + [(Fr(a * s, c), Fr(b * t, c)) for (a, b, c) in ((3, 4, 5), (4, 3, 5), (5, 12, 13), (15, 8, 17)) for s in (1, -1) for t in (1, -1)]
RANGE = [(-1, 1), (0, 1), (Fr(1, 4), Fr(3, 4)), (3, 2), (-40, 50), (Fr(1, 2), Fr(1, 2) + Fr(1, 64))]


def lines(tier):
    """(point on line, direction) in the unit circle frame, with the exact common points"""
    out = []
    for T in PYTH:
        out.append(("tangent", T, perp(T), [T]))
    n = 8 if tier == "quick" else len(PYTH)
    for i in range(n):
        for j in range(i):
            out.append(("secant", PYTH[i], sub(PYTH[j], PYTH[i]), [PYTH[i], PYTH[j]]))
    for T in PYTH[:12]:
        for k in (Fr(1001, 1000), Fr(3, 2), 4):
            out.append(("exterior", mul(k, T), perp(T), []))
        out.append(("secant", mul(Fr(4, 5), T), perp(T), [add(mul(Fr(4, 5), T), mul(Fr(3, 5), perp(T))), sub(mul(Fr(4, 5), T), mul(Fr(3, 5), perp(T)))]))
        # short chord: 1 - h = 1/1000-ish with rational ends  (h, s) = (t^2-1, 2t)/(t^2+1)
        t = 40
        h, s = Fr(t * t - 1, t * t + 1), Fr(2 * t, t * t + 1)
        out.append(("secant", mul(h, T), perp(T), [add(mul(h, T), mul(s, perp(T))), sub(mul(h, T), mul(s, perp(T)))]))
    return out


def narrow_lines():
    """lines within 2^-8 .. 2^-19 of being tangent"""
    out = []
    for T in PYTH:
        for k in range(4, 11):
            t = 1 << k
            h, s = Fr(t * t - 1, t * t + 1), Fr(2 * t, t * t + 1)
            out.append(("secant", mul(h, T), perp(T), [add(mul(h, T), mul(s, perp(T))), sub(mul(h, T), mul(s, perp(T)))]))
        for d in LADDER:
            out.append(("exterior", mul(1 + d, T), perp(T), []))
    return out


def reads(ctx, fs, want, what, size, on):
    for f, args, n in fs:
        r = ctx.call(f, *args)
        w = "%s: %s" % (n, what)
        got = pts(r, w)
        match_points(ctx, got, want, w, size)
        if len(got) == 2:
            ctx.ok(math.hypot(got[0][0] - got[1][0], got[0][1] - got[1][1]) > 1e-4 * min(1.0, size) * on, "%s: the two points coincide: %s", w, got)


def circle(ctx, ln, st, F, r, rep):
    kind, P, d, W = ln
    M = lambda X: F(mul(r, X))
    A, B = M(add(P, mul(fr(st[0]), d))), M(add(P, mul(fr(st[1]), d)))
    c = F((0, 0))
    l = mkline(ctx, A, B, rep=rep)
    C = mkcircle(ctx, c, F.len(r), rep)
    ctx.state((A, B, c, F.len(r)))
    w = "circle %s radius %s, %s line %s-%s" % (fpt(c), float(F.len(r)), kind, fpt(A), fpt(B))
    size = float(F.len(r)) + math.hypot(*fpt(c)) * 1e-3
    reads(ctx, [(g.intersection_circle_line, (C, l), "intersection_circle_line"), (C.intersection_with_line, (l,), "Circle.intersection_with_line"),
                (l.intersection_with_circle, (C,), "Line.intersection_with_circle"), (g.intersection_ellipse_line, (C, l), "intersection_ellipse_line(circle)")],
          [M(X) for X in W], w, size, float(r) * F.fscale)
    ctx.outcome("circle " + kind)


AX = [(1, 0), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(-15, 17), Fr(-8, 17))]
SHAPES = [(2, 1), (5, Fr(1, 2)), (Fr(1, 8), Fr(1, 10)), (30, 29), (3, 3)]


def ellipse(ctx, ln, st, O, ax, ab, deg, k=1):
    kind, P, d, W = ln
    a, b, O = fr(ab[0]) * k, fr(ab[1]) * k, mul(k, ept(O))
    u, v = ax, perp(ax)
    M = lambda X: add(O, add(mul(a * X[0], u), mul(b * X[1], v)))
    A, B = M(add(P, mul(fr(st[0]), d))), M(add(P, mul(fr(st[1]), d)))
    al = math.atan2(float(ax[1]), float(ax[0]))
    E = ctx.call(g.Ellipse, as_pt(O), as_num(a), as_num(b), al * 180 / PI if deg else al, deg)
    l = mkline(ctx, A, B)
    ctx.state((A, B, O, ax, ab))
    w = "ellipse %s radii %s %s axis %s, %s line %s-%s" % (fpt(O), float(a), float(b), fpt(ax), kind, fpt(A), fpt(B))
    reads(ctx, [(g.intersection_ellipse_line, (E, l), "intersection_ellipse_line"), (E.intersection_with_line, (l,), "Ellipse.intersection_with_line"),
                (l.intersection_with_ellipse, (E,), "Line.intersection_with_ellipse")],
          [M(X) for X in W], w, float(a) + math.hypot(*fpt(O)) * 1e-3, float(b))
    ctx.outcome("ellipse " + kind)


def all_spaces(tier):
    q = tier == "quick"
    Ls = lines(tier)
    return [
        Product("circle", [("line", Ls), ("points", RANGE if not q else RANGE[1:]), ("frame", F4 if q else FRAMES), ("radius", [1, Fr(5, 2)] if q else [1, Fr(5, 2), Fr(1, 10), 20]),
                           ("rep", ["a"] if q else ["a", "i"])], circle),
        Product("nearly tangent to a circle", [("line", narrow_lines()), ("points", [(-1, 1), (0, 1), (3, 2)]), ("frame", FN), ("radius", [1, Fr(5, 2)]), ("rep", ["a"])], circle),
        Product("nearly tangent to an ellipse", [("line", narrow_lines()), ("points", [(-1, 1), (3, 2)]), ("center", [(0, 0), (7, Fr(-5, 2))]), ("axis", AX[1:4] if q else AX), ("radii", [(2, 1), (5, Fr(1, 2))]), ("degrees", [True] if q else [True, False])], ellipse),
        Product("ellipse", [("line", Ls[::2] if q else Ls), ("points", RANGE[1:5]), ("center", [(0, 0), (7, Fr(-5, 2))]), ("axis", AX[1:4] if q else AX), ("radii", SHAPES[:3] if q else SHAPES), ("degrees", [True, False])], ellipse),
        Product("ellipse, other scales", [("line", Ls[1::3]), ("points", RANGE[1:5]), ("center", [(0, 0), (7, Fr(-5, 2))]), ("axis", AX[1:4]), ("radii", SHAPES), ("degrees", [True]), ("scale", [Fr(1, 8192), 8192, 1 << 24])], ellipse),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "circle")
