from mc.lib import *
from mc.props.c11 import rp, chk_img

ASSUMPTIONS = ["matrices with Gaussian rational entries, determinant away from 0; points are exactly the pole (where arithmetic is exact) or away from it",
               "powers up to 100 in absolute value (powers whose matrix overflows are not claimed)",
               "generalized powers: principal branch of each eigenvalue"]
GEN = [
    ("shift", mk(1, 2, 0, 1)), ("turn", mk((0, 1), 0, 0, 1)), ("1/z", mk(0, 1, 1, 0)), ("-1/z", mk(0, -1, 1, 0)), ("double", mk(2, 0, 0, 1)),
    ("cayley", mk(1, (0, -1), 1, (0, 1))), ("parabolic", mk(2, -1, 1, 0)), ("hyperbolic", mk(2, 1, 1, 1)), ("loxo", mk((1, 1), 2, (0, 1), 3)),
    ("half", mk(Fr(1, 2), Fr(-1, 4), 0, 1)), ("id", MID),
]
PTS = [INF] + [G(x, y) for x, y in grid(1)] + [G(2, 0), G(-3, 2), G(Fr(1, 2), Fr(-1, 4)), G(0, -2), G(5, 7)]


def real(ctx, M, k=1):
    return ctx.call(g.Mobius, [[complex(x) * k for x in r] for r in M])


def cond(M):
    """skip matrices too far from the identity in size for absolute tolerances"""
    big = max(abs(complex(x)) for r in M for x in r)
    d = abs(complex(mdet(M)))
    if big * big > 1e6 * d or big > 1e6 or big < 1e-6:
        raise Skip
    return big


def chk_maps(ctx, m, M, what, pts_=PTS, tol=1e-7):
    big = cond(M)
    sens = big * big / abs(complex(mdet(M)))
    for z in pts_:
        w = mact(M, z)
        exact_pole = isinstance(w, str)
        r = ctx.call(m.transform, rp(z))
        if exact_pole:
            if is_infinity(r):
                ctx.checks += 1
                continue
            p = pt(r, what)
            # rounding may keep the pole at a huge finite point
            ctx.ok(math.hypot(*p) > 1e9, "%s at %s: expected infinity, got %s", what, z, show(r))
            continue
        s = max(1.0, math.hypot(*fpt(w.t())))
        if is_infinity(r):
            ctx.ok(s > 1e9, "%s at %s: infinity instead of %s", what, z, fpt(w.t()))
            continue
        if s > 1e6:
            continue
        ctx.close_pt(r, w.t(), "%s at %s" % (what, z), s * s * max(1.0, sens), tol * 1e-2)


class Node(object):
    __slots__ = ("m", "M", "word")

    def __init__(s, m, M, word):
        s.m, s.M, s.word = m, M, word


def init(ctx, x):
    return Node(real(ctx, x[1]), x[1], x[0])


def step(ctx, n, op):
    kind = op[0]
    if kind == "left":
        X = dict(GEN)[op[1]]
        M = mmul(X, n.M)
        cond(M)
        m = ctx.call(n.m.compose, real(ctx, X)) if op[1] < "h" else ctx.call(n.m.compose, real(ctx, X), True)
    elif kind == "right":
        X = dict(GEN)[op[1]]
        M = mmul(n.M, X)
        cond(M)
        m = ctx.call(n.m.compose, real(ctx, X), False)
    elif kind == "itself":
        M = mmul(n.M, n.M)
        cond(M)
        m = ctx.call(n.m.compose, n.m if op[1] == "same object" else real(ctx, n.M), op[2])
    elif kind == "inverse":
        M = minv(n.M)
        m = ctx.call(n.m.inverse)
    elif kind == "power":
        M = mpow(n.M, op[1])
        cond(M)
        m = ctx.call(n.m.power, op[1])
    ctx.ok(isinstance(m, g.Mobius), "%s gave %s", op, show(m))
    ctx.outcome(kind)
    return Node(m, M, "%s; %s" % (n.word, op))


def check(ctx, n):
    chk_maps(ctx, n.m, n.M, n.word)


def gpow(ctx, x, t):
    """generalized power against exact iteration, roots and additivity"""
    name, M = x
    m = real(ctx, M)
    cond(mpow(M, 3))
    cond(mpow(M, -3))
    ctx.state((name, t))
    w = "%s to the power %s" % (name, t)
    p = ctx.call(m.gpower, t)
    if float(t) == int(t):
        chk_maps(ctx, p, mpow(M, int(t)), w)
    # additivity with several exponents
    for s in (0.5, -0.25, 1.0, 2.0):
        a = ctx.call(m.gpower, s)
        b = ctx.call(m.gpower, float(t) + s)
        c = ctx.call(p.compose, a)
        same(ctx, c, b, w + " then to the power %s" % s)
    # n-th root iterated n times
    for k in (2, 3):
        r = ctx.call(m.gpower, float(t) / k)
        q = ctx.call(r.power, k)
        same(ctx, q, p, w + ": root %d iterated" % k)
    ctx.outcome("gpower")


SCALES = [1, 3, -2, (0, 1), (1, 1), Fr(1, 100), 1000, Fr(1, 16384)]


def gpow_all(ctx, a, b, c, d, k, t):
    """every small matrix, times a factor: the factor does not change the transformation"""
    M = mk(a, b, c, d)
    if not mdet(M):
        raise Skip
    f = complex(*[float(x) for x in k]) if isinstance(k, tuple) else complex(float(k))
    m = real(ctx, M, f)
    w = "%s times %s to the power %s" % (M, k, t)
    ctx.state((mnorm(M), str(k), t))
    p = ctx.call(m.gpower, t)
    if float(t) == int(t):
        chk_maps(ctx, p, mpow(M, int(t)), w)
        ctx.outcome("integer power")
    else:
        n = int(round(1 / t))
        q = ctx.call(p.power, n)
        chk_maps(ctx, q, M, w + " iterated %d times" % n)
        u = ctx.call(p.compose, ctx.call(m.gpower, 1 - t))
        chk_maps(ctx, u, M, w + " then to the power 1-t")
        ctx.outcome("root")
    disc = msqrt_disc(M)
    ctx.outcome("parabolic" if not disc else "two eigenvalues")


def same(ctx, m1, m2, what):
    """same projective matrix"""
    A, B = [complex(x) for x in np.asarray(m1.M).ravel()], [complex(x) for x in np.asarray(m2.M).ravel()]
    na, nb = math.sqrt(sum(abs(x) ** 2 for x in A)), math.sqrt(sum(abs(x) ** 2 for x in B))
    ctx.ok(0 < na < 1e12 and 0 < nb < 1e12, "%s: %s and %s", what, A, B)
    d = sum(x * y.conjugate() for x, y in zip(A, B))
    c = abs(d) / na / nb
    ctx.ok(c > 1 - 1e-10, "%s: %s and %s are different transformations", what, A, B)


def high(ctx, x, k, f):
    name, M = x
    X = mpow(M, k)
    cond(X)
    if abs(k) > 30 and f == Fr(-1, 2):
        raise Skip
    m = real(ctx, M, complex(*f) if isinstance(f, tuple) else float(f))
    ctx.state((name, k))
    w = "%s to the power %d" % (name, k)
    chk_maps(ctx, ctx.call(m.power, k), X, w)
    chk_maps(ctx, ctx.call(m.gpower, k), X, w + " (gpower)")
    ctx.outcome("power")


def msqrt_disc(M):
    return (M[0][0] - M[1][1]) * (M[0][0] - M[1][1]) + 4 * M[0][1] * M[1][0]


def fixed(ctx, a, b, c, d):
    M = mk(a, b, c, d)
    D = mdet(M)
    if not D:
        raise Skip
    m = real(ctx, M)
    ctx.state(mnorm(M))
    w = "fixed points of %s" % (M,)
    r = ctx.call(m.fixed_points)
    ident = not M[0][1] and not M[1][0] and M[0][0] == M[1][1]
    if ident:
        ctx.ok(r is None, "%s: the identity gave %s", w, show(r))
        ctx.outcome("identity")
        return
    if not M[1][0]:
        if M[0][0] == M[1][1]:
            ctx.ok(is_infinity(r) or r is None, "%s: a translation gave %s", w, show(r))
            ctx.outcome("translation")
            return
        want = [complex(M[0][1] / (M[1][1] - M[0][0]))]
    else:
        disc = msqrt_disc(M)
        s = complex(disc) ** 0.5
        h, c2 = complex(M[0][0] - M[1][1]), 2 * complex(M[1][0])
        want = [h / c2] if not disc else [(h + s) / c2, (h - s) / c2]
    got = pts(r, w)
    match_points(ctx, got, [(z.real, z.imag) for z in want], w, 1 + max(abs(z) for z in want))
    for p in got:
        ctx.close_pt(ctx.call(m.transform, as_pt(p)), p, w + ": image of the fixed point", (1 + math.hypot(*p)) ** 2, 1e-6)
    ctx.outcome("%d fixed point(s)" % len(want))


def near_maps():
    """transformations near the identity, near parabolic, nearly fixing infinity"""
    out = []
    for d in LADDER:
        for e in (d, -d):
            out += [("1 1/%s 1" % e, mk(1, 1, e, 1)), ("shift by %s" % e, mk(1, e, 0, 1)), ("scale 1+%s" % e, mk(1 + e, 0, 0, 1)), ("scale 1+%s and shift" % e, mk(1 + e, 1, 0, 1)),
                    ("turn by %s" % e, mk(1, -e, e, 1)), ("special by %s" % e, mk(1, 0, e, 1)), ("near 1/z by %s" % e, mk(e, 1, 1, 0)), ("near parabolic by %s" % e, mk(2 + e, -1, 1, 0)), ("i %s" % e, mk((1, e), 1, 0, 1)), ("upper left %s" % e, mk(e, -1, 1, 2))]
    return out


def near_group(ctx, x, X):
    name, M = x
    m = real(ctx, M)
    ctx.state(mnorm(M))
    chk_maps(ctx, m, M, name)
    chk_maps(ctx, ctx.call(m.inverse), minv(M), name + " inverse")
    for k in (-3, -1, 2, 5):
        chk_maps(ctx, ctx.call(m.power, k), mpow(M, k), "%s to the power %d" % (name, k))
        chk_maps(ctx, ctx.call(m.gpower, k), mpow(M, k), "%s to the power %d (gpower)" % (name, k), tol=1e-5)
    h = ctx.call(m.gpower, 0.5)
    chk_maps(ctx, ctx.call(h.compose, h), M, name + " to the power 1/2, twice", tol=1e-5)
    Y = dict(GEN)[X]
    chk_maps(ctx, ctx.call(m.compose, real(ctx, Y)), mmul(Y, M), name + " then " + X)
    chk_maps(ctx, ctx.call(m.compose, real(ctx, Y), left=False), mmul(M, Y), X + " then " + name)
    ctx.outcome("near")


def near_fixed(ctx, x):
    M = x[1]
    m = real(ctx, M)
    ctx.state(mnorm(M))
    w = "fixed points of %s" % x[0]
    r = ctx.call(m.fixed_points)
    if not M[1][0] and M[0][0] == M[1][1]:
        ctx.ok(is_infinity(r) or r is None, "%s: a translation gave %s", w, show(r))
        return
    if not M[1][0]:
        want = [complex(M[0][1] / (M[1][1] - M[0][0]))]
    else:
        disc = msqrt_disc(M)
        s, h, c2 = complex(disc) ** 0.5, complex(M[0][0] - M[1][1]), 2 * complex(M[1][0])
        want = [h / c2] if not disc else [(h + s) / c2, (h - s) / c2]
    match_points(ctx, pts(r, w), [(z.real, z.imag) for z in want], w, 1 + max(abs(z) for z in want))
    ctx.outcome("%d fixed point(s)" % len(want))


def refuse(ctx, k):
    ctx.refuses(ctx.call(g.Mobius, [[1, 2], [0, 1]]).power, k)
    ctx.state(("power", k))
    ctx.outcome("refused")


def entries(ctx, x):
    M = x[1]
    m = real(ctx, M)
    ctx.state(("entries", x[0]))
    for n, v in (("a", M[0][0]), ("b", M[0][1]), ("c", M[1][0]), ("d", M[1][1])):
        ctx.close(complex(ctx.get(m, n)), complex(v), "entry " + n, 1.0, 1e-12)
    ctx.outcome("entries")


def spaces(tier):
    q = tier == "quick"
    names = [n for n, M in GEN]
    small = names[:9] if q else names
    ops = [("left", n) for n in small] + [("right", n) for n in small[:: 2 if q else 1]] + [("inverse",)] + [("power", k) for k in (-2, 0, 2, 3)] + [("itself", k, l) for k in ("same object", "equal object") for l in (True, False)]
    E = [0, 1, -1, 2, (0, 1), (1, -1)] if q else [0, 1, -1, 2, (0, 1), (1, -1), (0, -2), Fr(1, 2)]
    EG = [0, 1, -1, 2] if q else [0, 1, -1, 2, (0, 1), 3]
    return [
        Tree("words", GEN, ops, 2 if q else 3, init, step, check, key=lambda n: mnorm(n.M), opname=show),
        Tree("powers", GEN, [("power", k) for k in range(-4, 8)] + [("inverse",)], 2, init, step, check, key=lambda n: mnorm(n.M), opname=show),
        Product("gpower", [("map", GEN), ("t", [-2, -1, 0, 1, 2, 3, 0.5, -0.5, 1.5, 0.25, 1.0, 1 / 3.0])], gpow),
        Product("gpower of all small matrices", [("a", EG), ("b", EG), ("c", EG), ("d", EG), ("factor", SCALES), ("t", [2, -1, 3, 0.5, -0.25] if q else [0, 1, 2, -1, -2, 3, 4, 5, 0.5, -0.5, 0.25, -0.25, 1 / 3.0])], gpow_all),
        Product("high powers", [("map", GEN + [("rotation", mk(Fr(3, 5), Fr(-4, 5), Fr(4, 5), Fr(3, 5))), ("order 6", mk(1, -1, 1, 0)), ("near 1", mk(1, Fr(1, 100), 0, 1))]), ("k", [n for n in list(range(-20, 41)) + [63, 64, 65, 100, -33, -64, -100] if abs(n) > 4]), ("factor", [1, (0, 1), Fr(-1, 2)])], high),
        Product("near a degenerate one", [("map", near_maps()), ("other", ["shift", "1/z", "loxo", "hyperbolic"])], near_group),
        Product("fixed, near a degenerate one", [("map", near_maps())], near_fixed),
        Product("fixed", [("a", E), ("b", E), ("c", E), ("d", E)], fixed),
        Product("entries", [("map", GEN)], entries),
        Product("refuse", [("k", [0.5, 1.5, -2.25])], refuse),
    ]
