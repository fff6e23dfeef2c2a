from mc.lib import *

ASSUMPTIONS = ["two interior points aligned with the center are exactly so, otherwise the directions differ by at least 1e-6",
               "two points on the circle are exactly opposite or at least 1e-6 rad from being opposite or equal"]


def chk_arc(ctx, a, P1, P2, I, r, w, size, inside_pts):
    ctx.ok(isinstance(a, g.Arc), "%s: expected an Arc, got %s", w, show(a))
    s, e = ctx.call(a.starting_point), ctx.call(a.ending_point)
    match_points(ctx, [pt(s), pt(e)], [P1, P2], w + ": ends of the arc", size)
    path = ctx.call(a.path, 17)
    I = fpt(I)
    R = num(a.radius)
    for i, p in enumerate(path):
        p = pt(p)
        d = math.hypot(p[0] - I[0], p[1] - I[1])
        ctx.ok(d <= r * (1 + 1e-7) + 1e-7 * size, "%s: the arc leaves the reference circle at %r", w, p)
        if inside_pts and 0 < i < 16:
            pass
    match_points(ctx, [pt(path[0]), pt(path[-1])], [P1, P2], w + ": ends of the path", size)


def inside(ctx, P, Q, F, r, rep):
    if P == Q:
        raise Skip
    M = lambda X: F(mul(r, X))
    R = F.len(r)
    I = F((0, 0))
    C = mkcircle(ctx, I, R, rep)
    p, q = as_pt(M(P), rep), as_pt(M(Q), rep)
    ctx.state((M(P), M(Q), I, R))
    w = "circle %s radius %s, points %s %s" % (fpt(I), float(R), fpt(M(P)), fpt(M(Q)))
    o = ctx.call(C.orthogonal_through_two_points_in_circle, p, q)
    a = ctx.call(C.orthogonal_through_two_points_in_circle, p, q, arc=True)
    size = F.size(float(r))
    if det(P, Q) == 0:
        chk_line(ctx, o, M(P), M(Q), w, size)
        ctx.ok(bool(o.extendA) and bool(o.extendB), "%s: expected an infinite line, got %s", w, show(o))
        ctx.ok(isinstance(a, g.Line), "%s: expected a segment, got %s", w, show(a))
        match_points(ctx, [pt(a.A), pt(a.B)], [M(P), M(Q)], w + ": ends of the segment", size)
        ctx.ok(not a.extendA and not a.extendB, "%s: expected a segment, got %s", w, show(a))
        ctx.outcome("diameter")
        return
    # exact: 2 X.P = |P|^2 + 1, same for Q
    p2, q2 = (n2(P) + 1) / Fr(2), (n2(Q) + 1) / Fr(2)
    D = Fr(det(P, Q))
    X = ((p2 * Q[1] - q2 * P[1]) / D, (q2 * P[0] - p2 * Q[0]) / D)
    rad = fsqrt(n2(X) - 1) * float(R)
    s2 = max(size, rad, math.hypot(*fpt(M(X))))
    chk_circle(ctx, o, M(X), rad, w, s2, 1e-6)
    chk_arc(ctx, a, M(P), M(Q), I, float(R), w, size + rad * 1e-2, True)
    ctx.close_pt(a.center, M(X), w + ": center of the arc", s2, 1e-6)
    ctx.close(num(a.radius), rad, w + ": radius of the arc", s2, 1e-6)
    ctx.outcome("arc")


def refuse(ctx, k, u, v, F, r, where):
    """a point on or outside the circle is rejected, just inside accepted"""
    if mul(k, u) == v:
        raise Skip
    C = mkcircle(ctx, F((0, 0)), F.len(r))
    P, Q = F(mul(k * fr(r), u)), F(mul(fr(r), v))
    ctx.state(("ref", k, u, v, F.name, r, where))
    args = (as_pt(P), as_pt(Q)) if where == 0 else (as_pt(Q), as_pt(P))
    for arc in (False, True):
        if k >= 1:
            if k == 1 and not (F is ID):
                raise Skip
            ctx.refuses(C.orthogonal_through_two_points_in_circle, *args, arc=arc)
        else:
            ctx.call(C.orthogonal_through_two_points_in_circle, *args, arc=arc)
    ctx.outcome("refused" if k >= 1 else "accepted")


def on(ctx, i, j, turn, n, F, r):
    d = (i - j) * 360.0 / n
    if (i - j) % n == 0:
        raise Skip
    a1, a2 = 2 * PI * i / n, 2 * PI * j / n + 2 * PI * turn
    I, R = fpt(F((0, 0))), float(F.len(r))
    C = mkcircle(ctx, F((0, 0)), F.len(r))
    ctx.state(("on", Fr(i, n), Fr(j, n), turn, F.name, r))
    P1 = (I[0] + R * math.cos(a1), I[1] + R * math.sin(a1))
    P2 = (I[0] + R * math.cos(a2), I[1] + R * math.sin(a2))
    w = "circle %s radius %s, angles %.9g %.9g" % (I, R, a1, a2)
    o = ctx.call(C.orthogonal_through_two_points_on_circle, a1, a2)
    a = ctx.call(C.orthogonal_through_two_points_on_circle, a1, a2, arc=True)
    size = R + math.hypot(*I)
    if 2 * (i - j) % n == 0:
        chk_line(ctx, o, P1, P2, w, size)
        ctx.ok(bool(o.extendA) and bool(o.extendB), "%s: expected an infinite line, got %s", w, show(o))
        ctx.ok(isinstance(a, g.Line), "%s: expected a segment, got %s", w, show(a))
        match_points(ctx, [pt(a.A), pt(a.B)], [P1, P2], w + ": ends of the diameter", size)
        ctx.ok(not a.extendA and not a.extendB, "%s: expected a segment, got %s", w, show(a))
        ctx.outcome("opposite")
        return
    h = math.radians(d) / 2
    rad, dist = R * abs(math.tan(h)), R / abs(math.cos(h))
    m = (P1[0] + P2[0] - 2 * I[0], P1[1] + P2[1] - 2 * I[1])
    k = dist / math.hypot(*m)
    X = (I[0] + k * m[0], I[1] + k * m[1])
    chk_circle(ctx, o, X, rad, w, size + dist, 1e-6)
    chk_arc(ctx, a, P1, P2, I, R, w, size, False)
    ctx.close_pt(a.center, X, w + ": center of the arc", size + dist, 1e-6)
    ctx.outcome("arc")


def on_narrow(ctx, i, off, d, n, F, r):
    """angles differing by nearly 0 or nearly a half turn"""
    a1 = 2 * PI * i / n
    a2 = a1 + off + d
    I, R = fpt(F((0, 0))), float(F.len(r))
    C = mkcircle(ctx, F((0, 0)), F.len(r))
    ctx.state(("on narrow", i, off, d, n, F.name, r))
    P1 = (I[0] + R * math.cos(a1), I[1] + R * math.sin(a1))
    P2 = (I[0] + R * math.cos(a2), I[1] + R * math.sin(a2))
    w = "circle %s radius %s, angles %r %r" % (I, R, a1, a2)
    size = R + math.hypot(*I)
    o = ctx.call(C.orthogonal_through_two_points_on_circle, a1, a2)
    a = ctx.call(C.orthogonal_through_two_points_on_circle, a1, a2, arc=True)
    ctx.ok(isinstance(o, g.Circle), "%s: expected a circle, got %s", w, show(o))
    X, rad = pt(o.center, w), num(o.radius, w)
    s2 = max(rad, size)
    rel = 1e-7 if off == 0 else 1e-14 / abs(d) + 1e-9
    ctx.close(math.hypot(X[0] - I[0], X[1] - I[1]) ** 2, R * R + rad * rad, w + ": squared distance of the centers", s2 * s2, rel)
    for P in (P1, P2):
        ctx.close(math.hypot(X[0] - P[0], X[1] - P[1]), rad, w + ": distance of the center to %r" % (P,), s2, 1e-9 + 1e-15 / abs(d))
    chk_arc(ctx, a, P1, P2, I, R, w, size + rad * 1e-3, False)
    ctx.outcome("nearly equal" if off == 0 else "nearly opposite")


def all_spaces(tier):
    q = tier == "quick"
    S = 4 if q else 6
    P = [(Fr(x, S), Fr(y, S)) for x, y in grid(S) if x * x + y * y < S * S]
    P += [(Fr(3, 5), Fr(-19, 25)), (Fr(-97, 100), Fr(1, 10))]
    out = [
        Product("inside", [("P", P), ("Q", P), ("frame", F3 if q else F4), ("radius", [1, 5] if not q else [5]), ("rep", ["a"])], inside),
        Product("inside, other scales", [("P", P[::5]), ("Q", P[::4]), ("frame", FRAMES[3:]), ("radius", [1, Fr(1, 2)]), ("rep", ["a", "i"])], inside),
        Product("domain", [("k", [Fr(1, 2), Fr(999, 1000), Fr(1), Fr(1001, 1000), Fr(3, 2), Fr(4), Fr(24)]), ("u", [(Fr(3, 5), Fr(4, 5)), (1, 0), (Fr(-4, 5), Fr(3, 5)), (0, -1)]),
                           ("v", [(Fr(1, 2), 0), (0, Fr(1, 4)), (Fr(-1, 8), Fr(-1, 4))]), ("frame", F3 + FRAMES[8:10]), ("radius", [5, Fr(5, 8), 20]), ("where", [0, 1])], refuse),
    ]
    tiny = LADDER[:5] if q else LADDER
    near = [mul(fr(k), u) for k in (Fr(1, 2), 1 - Fr(1, 1 << 10)) for u in ((1, 0), (0, 1), (Fr(-3, 5), Fr(4, 5)))]
    pairs = []
    for X in near:
        for d in tiny:
            for Y in (add(mul(Fr(1, 4), X), mul(d, perp(X))), add(mul(Fr(-1, 2), X), mul(-d, perp(X))), add(X, mul(d * Fr(1, 8), (-X[1] - X[0], X[0] - X[1]))), mul(1 - d, (Fr(4, 5), Fr(-3, 5)))):
                pairs += [(X, Y), (Y, X)]
    out.append(Product("inside, narrow", [("PQ", pairs), ("frame", FN), ("radius", [1, 5])], lambda ctx, pq, F, r: inside(ctx, pq[0], pq[1], F, r, "a")))
    small = []
    for e in LADDER[:: 2 if q else 1]:
        for u in ((1, 0), (Fr(-3, 5), Fr(4, 5)), (Fr(-12, 13), Fr(-5, 13))):
            for Y in ((0, Fr(1, 2)), (Fr(3, 8), Fr(-3, 4)), mul(e, (Fr(3, 4), Fr(-1, 2))), mul(1 - e, (Fr(20, 29), Fr(21, 29)))):
                small += [(mul(e, u), Y), (Y, mul(e, u))]
    out.append(Product("inside, close to the center", [("PQ", small), ("frame", FN), ("radius", [1, 5])], lambda ctx, pq, F, r: inside(ctx, pq[0], pq[1], F, r, "a")))
    out.append(Product("on, narrow", [("i", range(7 if q else 16)), ("off", [0, PI, -PI]), ("by", [s * float(d) for d in LADDER for s in (1, -1)]), ("n", [7, 16]), ("frame", FN), ("radius", [1, Fr(5, 2)])], on_narrow))
    for n in ((12, 16) if q else (12, 16, 18, 7, 20)):
        out.append(Product("on%d" % n, [("i", range(-n, 2 * n) if not q else range(0, n)), ("j", range(n)), ("turn", [0, 1, -2]), ("n", [n]), ("frame", F3 if q else F4), ("radius", [1] if q else [1, Fr(5, 2)])], on))
    return out


def spaces(tier):
    return extreme(all_spaces(tier), "inside, other scales", "on12")
