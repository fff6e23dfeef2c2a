import itertools
from mc.triangles import *
from mc import rng

ASSUMPTIONS = ["no three points collinear (for up to eight points, every determinant of three points at least 1/250 of the squared size), at least three points",
               "the generator answers integers below the requested bound (every integer variate of numpy.random and random is enumerated)",
               "for five points and more: every sequence of answers that differs from a fixed strategy (always the first, the middle, the last) in at most the stated number of draws"]


def qs(ctx, e, P, w):
    """normalized vectors S^(1/2) (p - c) of the points, from the parameters of the ellipse"""
    ctx.ok(isinstance(e, g.Ellipse), "%s: expected an ellipse, got %s", w, show(e))
    c = pt(e.center, w + " center")
    a, b = num(e.rmajor, w + " rmajor"), num(e.rminor, w + " rminor")
    ctx.ok(a > 0 and b > 0 and a >= b * (1 - 1e-9), "%s: radii %r %r", w, a, b)
    al = num(e.alpha) * (PI / 180 if e.degrees else 1)
    u, v = math.cos(al), math.sin(al)
    out = []
    for p in P:
        x, y = p[0] - c[0], p[1] - c[1]
        out.append(((u * x + v * y) / a, (u * y - v * x) / b))
    return out


def john(Q):
    """a John decomposition sum l q = 0, sum l q q' = I with l >= 0 on the contact points: certificate of minimality"""
    n = len(Q)
    best = None
    for k in range(3, min(n, 5) + 1):
        for ix in itertools.combinations(range(n), k):
            M = np.array([[Q[i][0] for i in ix], [Q[i][1] for i in ix], [Q[i][0] ** 2 for i in ix], [Q[i][0] * Q[i][1] for i in ix], [Q[i][1] ** 2 for i in ix]])
            r = np.array([0.0, 0.0, 1.0, 0.0, 1.0])
            l = gauss_lsq(M, r)
            if l is None:
                continue
            res = max(abs(float(x)) for x in (M.dot(l) - r))
            neg = max(0.0, -min(float(x) for x in l))
            v = max(res, neg)
            if best is None or v < best:
                best = v
    return best


def gauss_lsq(M, r):
    A = M.T.dot(M)
    b = M.T.dot(r)
    n = len(b)
    T = [[float(A[i][j]) for j in range(n)] + [float(b[i])] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(T[k][i]))
        if abs(T[p][i]) < 1e-10:
            return None
        T[i], T[p] = T[p], T[i]
        for k in range(n):
            if k != i:
                f = T[k][i] / T[i][i]
                T[k] = [x - f * y for x, y in zip(T[k], T[i])]
    return np.array([T[i][n] / T[i][i] for i in range(n)])


def certify(ctx, e, P, w):
    Q = qs(ctx, e, P, w)
    for p, q in zip(P, Q):
        ctx.ok(math.hypot(*q) <= 1 + 1e-6, "%s: the point %s is outside of %s (ratio %.9g)", w, p, show(e), math.hypot(*q))
    C = [q for q in Q if math.hypot(*q) >= 1 - 1e-5]
    ctx.ok(len(C) >= 3, "%s: only %d points on %s: it is not the smallest", w, len(C), show(e))
    j = john(C)
    ctx.ok(j is not None and j < 2e-4, "%s: %s is not the smallest ellipse containing the points (no John decomposition on the %d contact points, best residual %s)", w, show(e), len(C), j)
    return Q


def params(e):
    al = float(e.alpha) * (PI / 180 if e.degrees else 1)
    a, b, c, s = float(e.rmajor) ** 2, float(e.rminor) ** 2, math.cos(al), math.sin(al)
    return (float(e.center[0]), float(e.center[1]), a * c * c + b * s * s, (a - b) * c * s, a * s * s + b * c * c)


class Config(object):
    def __init__(s, P, F=ID, base=None, bound=None):
        s.P, s.F, s.base, s.bound = [F(p) for p in P], F, base, bound
        s.f = [fpt(p) for p in s.P]

    def __repr__(s):
        return "%s%s" % (s.f, "" if s.base is None else " strategy %s, %d deviation(s)" % (s.base, s.bound))


def body(ctx, cfg, choose):
    left = [cfg.bound]

    def answer(n):
        if n <= 1:
            return 0
        if cfg.base is None:
            return choose(n)
        b = {"first": 0, "middle": n // 2, "last": n - 1}[cfg.base]
        if left[0] == 0:
            return b
        c = choose(n)
        if c:
            left[0] -= 1
        return (b + c) % n
    stub = rng.Stub(answer, lambda: (answer(4) + 0.5) / 4)
    with rng.Installed(stub):
        e = ctx.call(g.Ellipse.LownerJohnEllipse, np.array(cfg.f))
    w = "points %s" % (cfg.f,)
    certify(ctx, e, cfg.f, w)
    ctx.outcome("%d points" % len(cfg.f))
    return params(e)


def same(ctx, cfg, results):
    size = max(math.hypot(*p) for p in cfg.f) + cfg.F.fscale
    r0 = results[0]
    for r in results[1:]:
        d = max(abs(x - y) / (size if i < 2 else size * size) for i, (x, y) in enumerate(zip(r, r0)))
        ctx.ok(d < 1e-5, "%s: different answers of the generator give different ellipses: %s and %s", cfg, r0, r)
    ctx.outcome("same for %d sequences" % len(results) if len(results) < 20 else "same for all sequences")


def general(P, k=40):
    s = max(n2(sub(p, q)) for p in P for q in P)
    return all(abs(area2(*t)) * k >= s for t in itertools.combinations(P, 3))


def subsets(n, m):
    """n-point subsets of the m x m grid in general position, up to the symmetries of the square and translation"""
    G_ = [(x, y) for x in range(m) for y in range(m)]
    seen, out = set(), []
    for P in itertools.combinations(G_, n):
        if not general(P):
            continue
        forms = []
        for a, b, c, d in ((1, 0, 0, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1), (0, -1, 1, 0), (0, 1, -1, 0), (0, -1, -1, 0)):
            Q = [(a * x + b * y, c * x + d * y) for x, y in P]
            mx, my = min(x for x, y in Q), min(y for x, y in Q)
            forms.append(tuple(sorted((x - mx, y - my) for x, y in Q)))
        k = min(forms)
        if k not in seen:
            seen.add(k)
            out.append(k)
    return out


def boundary3(ctx, t, F):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    V = [F(p) for p in t]
    e = ctx.call(g.Ellipse.from_boundary3, np.array([fpt(p) for p in V]))
    O = mul(Fr(1, 3), add(add(V[0], V[1]), V[2]))
    x = y = z = F0
    for v in V:
        p = sub(v, O)
        x, y, z = x + p[0] * p[0], y + p[0] * p[1], z + p[1] * p[1]
    D = (x * z - y * y) / Fr(3, 2)
    size = max(math.hypot(*fpt(p)) for p in V) + float(x + z) ** 0.5
    thin = max(3.0, float((x + z) ** 2 / (x * z - y * y)))
    ctx.state(tuple(V))
    chk_ellipse(ctx, e, Conic(O, (z / D, -y / D, x / D)), "smallest ellipse through %s" % ([fpt(p) for p in V],), size, 1e-9 * thin)
    ctx.outcome("through three points")


def line(P, Q):
    a, b = P[1] - Q[1], Q[0] - P[0]
    return (a, b, -(a * P[0] + b * P[1]))


def prod(l, m):
    return [l[0] * m[0], l[0] * m[1] + l[1] * m[0], l[1] * m[1], l[0] * m[2] + l[2] * m[0], l[1] * m[2] + l[2] * m[1], l[2] * m[2]]


def area(c):
    A, B, C, D, E, F = c
    d = 4 * A * C - B * B
    if d <= 0:
        return float("inf")
    t = A * (C * F - E * E / 4) - B / 2 * (B / 2 * F - E * D / 4) + D / 2 * (B * E / 4 - C * D / 2)
    return PI * abs(t) / (d / 4) ** 1.5


def smallest4(P):
    """smallest area over the pencil of conics through four points in convex position (given in cyclic order)"""
    c1, c2 = prod(line(P[0], P[1]), line(P[2], P[3])), prod(line(P[1], P[2]), line(P[3], P[0]))
    k1, k2 = max(map(abs, c1)), max(map(abs, c2))
    f = lambda t: area([math.cos(t) * x / k1 + math.sin(t) * y / k2 for x, y in zip(c1, c2)])
    # 4AC - B^2 = p + q cos 2t + s sin 2t > 0 on the interval of the ellipses
    c1, c2 = [x / k1 for x in c1], [x / k2 for x in c2]
    k1 = k2 = 1.0
    d11, d22 = 4 * c1[0] * c1[2] - c1[1] ** 2, 4 * c2[0] * c2[2] - c2[1] ** 2
    d12 = 4 * (c1[0] * c2[2] + c2[0] * c1[2]) - 2 * c1[1] * c2[1]
    p, q, s = (d11 + d22) / 2, (d11 - d22) / 2, d12 / 2
    mid_, half = math.atan2(s, q) / 2, math.acos(max(-1.0, min(1.0, -p / math.hypot(q, s)))) / 2
    lo, hi = mid_ - half, mid_ + half
    for _ in range(80):
        a, b = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
        if f(a) < f(b):
            hi = b
        else:
            lo = a
    return f((lo + hi) / 2)


def convex(P):
    """cyclic order of four points in (strictly) convex position, or None"""
    for o in ((0, 1, 2, 3), (0, 1, 3, 2), (0, 2, 1, 3)):
        Q = [P[i] for i in o]
        s = [sgn(area2(Q[i], Q[(i + 1) % 4], Q[(i + 2) % 4])) for i in range(4)]
        if s[0] != 0 and s.count(s[0]) == 4:
            return Q
    return None


def boundary4(ctx, P, F, order):
    Q = convex(P)
    if Q is None:
        raise Skip
    Q = [F(p) for p in Q]
    f = [fpt(Q[i]) for i in order]
    w = "smallest ellipse through %s" % (f,)
    e = ctx.call(g.Ellipse.from_boundary4, np.array(f))
    ctx.state(tuple(f))
    amp = 1 + max(math.hypot(*p) for p in f) / F.fscale
    for p, q in zip(f, qs(ctx, e, f, w)):
        ctx.close(math.hypot(*q), 1.0, "%s: %s at the point %s" % (w, show(e), p), amp, 1e-7)
    c = Q[0]
    want = smallest4([fpt(sub(p, c)) for p in Q])
    ctx.close(PI * float(e.rmajor) * float(e.rminor), want, w + ": area", want, 1e-6)
    ctx.outcome("through four points")


TWIST = Frame("twist", (Fr(6, 5), Fr(9, 10)), (Fr(1, 3), -2))


def barely(ks):
    """a point barely inside or outside the smallest ellipse of the others"""
    out = []
    for f in ks:
        for t in (((0, 0), (4, 0), (1, 3)), ((0, 0), (2, 1), (-1, 4))):
            c = mul(Fr(1, 3), add(add(ept(t[0]), ept(t[1])), ept(t[2])))
            for v in t:
                out.append(list(t) + [add(c, mul(-1 - f, sub(ept(v), c)))])
        for u, v in (((2, 0), (0, 2)), ((3, 1), (-1, 1))):
            for x, y in ((Fr(3, 5), Fr(4, 5)), (Fr(-12, 13), Fr(5, 13))):
                out.append([ept(u), ept(v), mul(-1, u), mul(-1, v), mul(1 + f, add(mul(x, u), mul(y, v)))])
    return out


def spaces(tier):
    q = tier == "quick"
    four = subsets(4, 3 if q else 4) + [((0, 0), (4, 0), (1, 3), (2, 1)), ((0, 0), (10, 1), (9, 3), (-1, 2)), ((-1, 0), (5, -2), (6, 7), (0, 3))]
    three = subsets(3, 3)
    frames = [ID, TWIST] if q else [ID, TWIST, FRAMES[3], FRAMES[4], FRAMES[8], FRAMES[9]]
    many = [[(0, 0), (5, 1), (1, 4), (6, 5), (-1, 2)], [(0, 0), (4, 0), (1, 3), (2, 1), (3, 2)], [(-3, 1), (3, 0), (1, 2), (-1, -2), (2, -1)],
            [(0, 0), (7, 1), (2, 3), (5, -2), (-1, 4), (3, 6)], [(10, 0), (6, 8), (-7, 7), (-9, -3), (1, -10), (2, 3), (-3, 1)], [(0, 0), (9, 1), (8, 4), (-2, 3), (4, -5), (3, 8), (5, 2), (1, -3)]]
    assert all(general(P, 250) for P in many), [general(P, 250) for P in many]
    B = ("first", "middle", "last")
    # crowds: (x, k x^2 mod p) has no three points in line
    def parabola(p, k):
        return [(x, k * x * x % p) for x in range(p)]
    crowd = [Config(parabola(p, k), F, b, 0) for p in ((11, 13, 17, 29) if q else (11, 13, 17, 19, 23, 29, 31, 37, 53, 101)) for k in ((1, 2) if q else (1, 2, 3, 5)) for b in B for F in frames[:2]]
    # long and lopsided clouds: the points that matter are not the outermost ones
    crowd += [Config([(m * x, y) for x, y in parabola(p, k)], F, b, 0) for p in ((13, 17) if q else (13, 17, 29, 53)) for k in (1, 3) for m in (Fr(1, 16), 16) for b in B[::2] for F in frames[:2]]
    crowd += [Config([(x, y) if y < p // 3 else (Fr(x, 8) + 3, Fr(y, 8) + 2) for x, y in parabola(p, k)], F, b, 0) for p in ((13, 17) if q else (13, 17, 29, 53)) for k in (1, 3) for b in B[::2] for F in frames[:2]]
    crowd += [Config(parabola(p, 1), ID, b, 0) for p in ((101,) if q else (101, 307)) for b in B[::2]]
    crowd += [Config(parabola(p, 1), ID, b, 1) for p in ((11,) if q else (11, 13)) for b in B]
    some = [Config(P, TWIST if i % 2 else ID, b, 1) for i, P in enumerate(many[:4] if q else many) for b in B]
    if not q:
        some += [Config(P, ID, b, 2) for P in many[:4] for b in B]
    every = [] if q else [Config(P, ID, b, 3) for P in many[:3] for b in B]
    sq = [P for P in itertools.combinations([(x, y) for x in range(4) for y in range(4)], 4) if convex(P)] + [((0, 0), (10, 1), (9, 3), (-1, 2)), ((-1, 0), (5, -2), (6, 7), (0, 3)), ((0, 0), (100, 0), (101, 2), (1, 1))]
    O4 = [(0, 1, 2, 3), (2, 0, 3, 1)]
    return [
        Choices("three points", [Config(P, F) for P in three for F in frames], body, same),
        Choices("four points", [Config(P, F) for P in four for F in frames], body, same),
        Choices("more points", some, body, same),
        Choices("a point barely inside or outside the ellipse of the others", [Config(P, F, *(("first", 1) if len(P) > 4 else (None, None))) for P in barely([s_ * e for e in ([LADDER[1], Fr(1, 1 << 11), LADDER[4]] if q else LADDER + [Fr(1, 1 << 11)]) for s_ in (1, -1)]) for F in ([ID] if q else frames[:4])], body, same),
        Choices("crowds", crowd, body, same),
        Choices("other scales", [Config(P, F) for P in three[::2] + four[::3] for F in (FRAMES[4], FRAMES[8], FRAMES[9], FRAMES[5])], body, same),
    ] + ([Choices("five points, three deviations", every, body, same)] if every else []) + [
        Product("boundary of three, narrow", [("triangle", narrow_shapes(LADDER[:3])), ("frame", FN)], boundary3),
        Product("boundary of three, extreme sizes", [("triangle", shapes(2)[::3]), ("frame", MICRO)], boundary3),
        Product("boundary of four, narrow", [("points", [p for e in LADDER[:4] for f in (e, -e) for p in (((0, 0), (4, 0), (3, 2 + f), (1, 2)), ((0, 0), (4, 0), (4, 2 + f), (0, 2)), ((0, 0), (4, f), (5, 3), (1, 3)), ((-1, 0), (1, 0), (f, 2), (f, -2)), ((0, 0), (2 + f, 0), (2, 2), (0, 2 + f)))]), ("frame", [ID, TWIST]), ("order", O4[:1])], boundary4),
        Product("boundary of three", [("triangle", shapes(2 if q else 3)), ("frame", F4[:6])], boundary3),
        Product("boundary of four", [("points", sq[::2] if q else sq), ("frame", [ID, TWIST] if q else [ID, TWIST, FRAMES[3], FRAMES[4], FRAMES[5]]), ("order", O4[:1] if q else O4)], boundary4),
    ]
