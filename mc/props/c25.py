"""Random points: the generator is an enumerated environment (mc/rng.py)."""
import itertools
from mc.affine import *
from mc.triangles import *
from mc import rng

ASSUMPTIONS = ["the library draws its random numbers through numpy.random or random at call time (every function of both is replaced by an enumerated answer)",
               "continuous variates are answered on a grid of equally likely quantiles: distribution statements are decided up to the stated discrepancy of the grid, not below it",
               "a generator answering a normal vector exactly equal to zero is excluded"]

CIRCLES = [((0, 0), 1), ((2, -3), Fr(5, 2)), ((-70, 40), Fr(1, 8)), ((1, 1), 200)]
ELLIPSES = [((0, 0), 2, 1, 0), ((3, -1), 5, 2, 30), ((-10, 7), 4, Fr(1, 10), 117), ((1, 2), 3, 3, 45), ((0, 5), 300, 100, 80)]
TRIS = [((0, 0), (1, 0), (0, 1)), ((0, 0), (4, 0), (1, 3)), ((-2, 5), (10, 7), (3, 6)), ((100, 100), (90, 140), (130, 110)), ((0, 0), (Fr(1, 64), Fr(1, 32)), (1, 0))]


def make(ctx, kind, spec):
    if kind == "circle":
        return ctx.call(g.Circle, as_pt(spec[0]), float(spec[1]))
    if kind == "ellipse":
        return ctx.call(g.Ellipse, as_pt(spec[0]), float(spec[1]), float(spec[2]), float(spec[3]))
    return ctx.call(g.Triangle, as_pt(spec[0]), as_pt(spec[1]), as_pt(spec[2]))


def unit(kind, spec, p):
    """coordinates in which the shape is the unit disk, or barycentric coordinates"""
    if kind == "circle":
        return ((p[0] - float(spec[0][0])) / float(spec[1]), (p[1] - float(spec[0][1])) / float(spec[1]))
    if kind == "ellipse":
        (cx, cy), a, b, al = spec
        u, v = math.cos(al * PI / 180), math.sin(al * PI / 180)
        x, y = p[0] - float(cx), p[1] - float(cy)
        return ((u * x + v * y) / float(a), (u * y - v * x) / float(b))
    A, B, C = [(float(q[0]), float(q[1])) for q in spec]
    d = (B[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (B[1] - A[1])
    b = ((p[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (p[1] - A[1])) / d
    c = ((B[0] - A[0]) * (p[1] - A[1]) - (p[0] - A[0]) * (B[1] - A[1])) / d
    return (1 - b - c, b, c)


def slack(kind, spec):
    """rounding of a float point near the shape, in unit coordinates"""
    if kind == "circle":
        return 1e-9 + 1e-12 * (abs(spec[0][0]) + abs(spec[0][1])) / float(spec[1])
    if kind == "ellipse":
        return 1e-8 * float(spec[1] / Fr(spec[2])) + 1e-12 * (abs(spec[0][0]) + abs(spec[0][1])) / float(spec[2])
    return 1e-8


def member(ctx, kind, spec, where, p, w):
    u = unit(kind, spec, p)
    e = slack(kind, spec)
    if kind == "triangle":
        m = min(u)
        ctx.ok(m >= -e, "%s: point %r outside of the triangle", w, p)
        if where == "on":
            ctx.ok(m <= e, "%s: point %r not on the boundary of the triangle", w, p)
    else:
        r = math.hypot(*u)
        ctx.ok(r <= 1 + e, "%s: point %r outside of the %s", w, p, kind)
        if where == "on":
            ctx.ok(r >= 1 - e, "%s: point %r not on the %s", w, p, kind)
    return u


def rows(ctx, R, n, w):
    sh = getattr(R, "shape", None)
    ctx.ok(sh == (n, 2), "%s: expected a matrix with %s rows and two columns, got %s", w, n, show(R))
    return [pt(R[i], w) for i in range(n)]


class Cfg(object):
    def __init__(self, kind, spec, where, n, grid, default=False):
        self.kind, self.spec, self.where, self.n, self.grid, self.default = kind, spec, where, n, grid, default

    def __repr__(self):
        return "%d points %s the %s %s, answers %s" % (self.n, self.where, self.kind, tuple(self.spec), self.grid if len(self.grid) < 8 else "midpoints of %d cells" % len(self.grid))


LIMIT = 400


class TooLong(Exception):
    pass


def draw(ctx, c, choose):
    G_ = c.grid
    seen = [0]

    def q():
        seen[0] += 1
        if seen[0] > LIMIT:
            raise Skip("rejection loop")
        return G_[choose(len(G_))]

    def i(n):
        return choose(n)
    o = make(ctx, c.kind, c.spec)
    with rng.Installed(rng.Stub(i, q)) as s:
        R = ctx.call(o.random_points, c.n, c.where) if not c.default else ctx.call(o.random_points, c.n)
    ctx.ok(s.reseeded is None and s.fixed is None, "random_points(%r, %r): %s", c.n, c.where, s.reseeded or s.fixed)
    return R, s.draws


def body(ctx, c, choose):
    R, k = draw(ctx, c, choose)
    w = "random_points(%d, %r)" % (c.n, c.where)
    P = rows(ctx, R, c.n, w)
    U = [member(ctx, c.kind, c.spec, c.where, p, w) for p in P]
    if k == 0:
        o = make(ctx, c.kind, c.spec)
        R2 = rows(ctx, ctx.call(o.random_points, c.n, c.where), c.n, w)
        ctx.ok(R2 != P, "%s: two calls returned the same points %r", w, P)
        raise Skip("draws not enumerable")
    ctx.outcome("%s the %s" % (c.where, c.kind))
    ctx.state((c.kind, c.where, tuple(round(x, 9) for u in U for x in u)))
    return U


def share(ctx, vals, pred, want, tol, w):
    got = sum(1 for v in vals if pred(v)) / float(len(vals))
    ctx.ok(abs(got - want) <= tol, "%s: share %.4f over all answers, expected %.4f (grid discrepancy allowed %.4f)", w, got, want, tol)


def ang(u):
    return (math.atan2(u[1], u[0]) / (2 * PI)) % 1.0


def ks(vals):
    """largest deviation of the distribution of vals from the uniform one on [0,1]"""
    v = sorted(vals)
    n = len(v)
    d = 0.0
    for i, x in enumerate(v):
        d = max(d, abs(x - i / float(n)), abs(x - (i + 1) / float(n)))
    return d


def perimeter(spec, u):
    A, B, C = [(float(q[0]), float(q[1])) for q in spec]
    l = [math.hypot(A[0] - B[0], A[1] - B[1]), math.hypot(B[0] - C[0], B[1] - C[1]), math.hypot(C[0] - A[0], C[1] - A[1])]
    k = min(range(3), key=lambda j: abs(u[j]))
    if k == 2:
        s = l[0] * u[1]
    elif k == 0:
        s = l[0] + l[1] * u[2]
    else:
        s = l[0] + l[1] + l[2] * u[0]
    return (s / sum(l)) % 1.0


def spread(ctx, c, results):
    """distribution over all equally likely answers"""
    R = [r for r in results if r is not None]
    if not R:
        return
    m = len(c.grid)
    w = repr(c)
    for row in range(c.n):
        U = [r[row] for r in R]
        if c.kind == "triangle":
            if c.where == "on":
                if c.n == 1:
                    d = ks([perimeter(c.spec, u) for u in U])
                    ctx.ok(d <= 1.5 / m + 0.002, "%s: distribution along the perimeter deviates by %.4f from the uniform one", w, d)
                continue
            tol = (1.0 if c.n == 1 else 1.6) / m
            for k in range(3):
                for t in (Fr(1, 4), Fr(1, 2), Fr(3, 4)):
                    share(ctx, U, lambda u: u[k] < float(t), float(1 - (1 - t) ** 2), tol, "%s: row %d: part of the triangle within %s of the way from side %d" % (w, row, t, k))
                share(ctx, U, lambda u: u[k] < u[(k + 1) % 3], 0.5, tol, "%s: row %d: side of the median %d" % (w, row, k))
            if c.n == 1:
                for i in range(3):
                    for j in range(3):
                        for s in (0, 1):
                            # nine congruent pieces
                            def piece(u):
                                return (int(min(2, max(0, u[1]) * 3)), int(min(2, max(0, u[2]) * 3)), int(((max(0, u[1]) * 3) % 1 + (max(0, u[2]) * 3) % 1) > 1)) == (i, j, s)
                            if i + j + s <= 2:
                                share(ctx, U, piece, 1 / 9.0, tol, "%s: piece %s of nine equal ones" % (w, (i, j, s)))
            continue
        if c.kind == "circle" or c.where == "in":
            tol = c.angtol
            for k in range(16 if c.n == 1 and m >= 32 else 4):
                n_ = 16 if c.n == 1 and m >= 32 else 4
                share(ctx, U, lambda u: (ang(u) * n_ - k) % n_ < 1, 1.0 / n_, tol, "%s: row %d: sector %d of %d" % (w, row, k, n_))
        if c.where == "in":
            d = ks([math.hypot(*u) ** 2 for u in U])
            ctx.ok(d <= c.radtol, "%s: row %d: the share of the area within a given distance deviates by %.4f", w, row, d)
            for k in range(4):
                share(ctx, U, lambda u: (ang(u) * 4 - k) % 4 < 1 and u[0] ** 2 + u[1] ** 2 < 0.5, 1 / 8.0, c.angtol / 2, "%s: row %d: quarter %d, inner half" % (w, row, k))
    if c.n == 2:
        # the rows are independent of each other
        f = {"circle": lambda u: u[0] ** 2 + u[1] ** 2 < 0.5, "ellipse": lambda u: u[0] ** 2 + u[1] ** 2 < 0.5, "triangle": lambda u: u[0] < u[1]}[c.kind]
        h = {"circle": lambda u: u[0] < 0, "ellipse": lambda u: u[0] < 0, "triangle": lambda u: u[1] < u[2]}[c.kind]
        h2 = {"circle": lambda u: u[1] < 0, "ellipse": lambda u: u[1] < 0, "triangle": lambda u: u[2] < u[0]}[c.kind]
        if c.where == "on" and c.kind == "triangle":
            f = h = h2 = lambda u: perimeter(c.spec, u) < 0.5
        tests = [h, h2] + ([f] if c.where == "in" else [])
        for t in tests:
            for a in (True, False):
                for b in (True, False):
                    share(ctx, R, lambda r: t(r[0]) == a and t(r[1]) == b, 0.25, 0.09, "%s: joint distribution of the two points" % w)


def cells(m):
    return [(i + 0.5) / m for i in range(m)]


class Fine(Cfg):
    """one point: independent resolutions of the draws are not needed, one grid for all"""
    def __init__(self, kind, spec, where, n, m):
        Cfg.__init__(self, kind, spec, where, n, cells(m))
        self.angtol = {True: 0.9, False: 0.6}[n > 1] / m if m < 32 else 0.45 / m
        self.radtol = 0.6 / m if n == 1 else 0.75 / m


# the last ones are tiny normal variates
EXT = [0.0, 2.0 ** -53, 0.3, 0.8, 1 - 2.0 ** -53, 0.5 - 1e-4, 0.5 + 1e-9]


def refuse(ctx, kind, spec, bad):
    o = make(ctx, kind, spec)
    what, v = bad
    if what == "where":
        ctx.refuses(o.random_points, 2, v)
    else:
        for wh in ("in", "on"):
            ctx.refuses(o.random_points, v, wh)
    ctx.outcome("refused")


BAD = [("where", "inside"), ("where", "ON"), ("where", ""), ("where", None), ("where", 1), ("where", "border")] + [("n", v) for v in (0, -1, -5, 1.5, 2.0, "3", None, [2], (1, 2))]


def counts(ctx, kind, spec, where, n, q):
    o = make(ctx, kind, spec)
    k = [0]

    def qq():
        k[0] += 1
        return (q + 0.381966 * k[0]) % 1.0

    def ii(n_):
        k[0] += 1
        return (int(q * 7) + k[0]) % n_
    with rng.Installed(rng.Stub(ii, qq)):
        R = ctx.call(o.random_points, n, where)
        D = ctx.call(o.random_points, n)
    w = "random_points(%d, %r)" % (n, where)
    for p in rows(ctx, R, n, w):
        member(ctx, kind, spec, where, p, w)
    for p in rows(ctx, D, n, w):
        member(ctx, kind, spec, "in", p, "random_points(%d)" % n)
    for P in (R, D):
        P = rows(ctx, P, n, w)
        ctx.ok(len(set(P)) == n, "%s: only %d different points for answers that are all different", w, len(set(P)))
    ctx.outcome("%d rows" % n)


def history(ctx, kind, spec, calls):
    """several calls on one object, each with its own answers: every one as on an object of its own"""
    def run(o, n, where, q):
        k = [0]

        def qq():
            k[0] += 1
            return (q + 0.381966 * k[0]) % 1.0

        def ii(n_):
            k[0] += 1
            return (int(q * 7) + k[0]) % n_
        with rng.Installed(rng.Stub(ii, qq)) as s:
            R = ctx.call(o.random_points, n, where)
        return rows(ctx, R, n, "random_points(%d, %r)" % (n, where)), s.draws
    o = make(ctx, kind, spec)
    ctx.state((kind, calls))
    for i, c in enumerate(calls):
        P, k = run(o, *c)
        Q, k2 = run(make(ctx, kind, spec), *c)
        if not k2:
            raise Skip("draws not enumerable")
        ctx.ok(P == Q, "%s: call %d of %s on one object returns %s, on a fresh object %s", kind, i + 1, list(calls), P[:3], Q[:3])
    ctx.outcome("history")


def spaces(tier):
    q = tier == "quick"
    SH = [("circle", s) for s in CIRCLES] + [("ellipse", s) for s in ELLIPSES] + [("triangle", s) for s in TRIS]
    ext, fine, two, sized = [], [], [], []
    for i, (k, s) in enumerate(SH):
        for wh in ("in", "on"):
            nd = {"circle": {"in": 3, "on": 2}, "ellipse": {"in": 3, "on": 2}, "triangle": {"in": 2, "on": 1}}[k][wh]
            ext.append(Cfg(k, s, wh, 1, EXT))
            if nd * 2 <= 4:
                ext.append(Cfg(k, s, wh, 2, EXT))
            else:
                ext.append(Cfg(k, s, wh, 2, EXT[1:4:2] + EXT[4:5]))
            first = s in (CIRCLES[1], ELLIPSES[1], TRIS[2])
            m = {1: 720, 2: 96, 3: 16}[nd]
            if not q:
                m = {1: 5040, 2: 192, 3: 36}[nd]
            if first or not q or nd == 1:
                fine.append(Fine(k, s, wh, 1, m))
            if first or not q:
                two.append(Fine(k, s, wh, 2, {1: 60, 2: 6, 3: 4}[nd] if q else {1: 120, 2: 8, 3: 4}[nd]))
    # other sizes
    for k, s in [("circle", ((7, -3), 8192)), ("circle", ((0, 0), Fr(1, 8192))), ("circle", ((300, 100), 1 << 20)), ("ellipse", ((0, 0), 8192, 3000, 20)), ("ellipse", ((0, 0), Fr(1, 8192), Fr(1, 30000), 70)), ("ellipse", ((5, 5), 1000, 1, 45)),
                 ("ellipse", ((0, 0), 1 << 20, 1 << 19, 120)), ("triangle", ((0, 0), (8192, 1), (300, 9000))), ("triangle", ((0, 0), (Fr(1, 8192), 0), (0, Fr(1, 5000)))), ("triangle", ((0, 0), (1 << 20, 5), (3, 1 << 19)))]:
        for wh in ("in", "on"):
            nd = {"circle": {"in": 3, "on": 2}, "ellipse": {"in": 3, "on": 2}, "triangle": {"in": 2, "on": 1}}[k][wh]
            sized.append(Fine(k, s, wh, 1, {1: 360, 2: 48, 3: 12}[nd]))
    return [
        Choices("all answers, one point, distribution, other sizes", sized, body, spread),
        Choices("all answers, extreme ones included", ext, body),
        Choices("all answers, one point, distribution", fine, body, spread),
        Choices("all answers, two points, joint distribution", two, body, spread),
        Product("row counts", [("shape", [x[0] for x in ()] or SH), ("where", ["in", "on"]), ("n", list(range(1, 9)) + [16, 33, 100, 300, 1001] if q else list(range(1, 40)) + [64, 100, 257, 300, 1000, 1001, 5000]), ("answers", [0.0, 0.37, 0.93])],
                lambda ctx, s, wh, n, a: counts(ctx, s[0], s[1], wh, n, a)),
        Product("several calls on one object", [("shape", SH), ("calls", list(itertools.product([(1, "in", 0.1), (2, "in", 0.1), (2, "in", 0.45), (2, "on", 0.45), (3, "on", 0.8), (3, "in", 0.8)], repeat=2 if q else 3)))], lambda ctx, s, c: history(ctx, s[0], s[1], c)),
        Product("rejected arguments", [("shape", SH), ("argument", BAD)], lambda ctx, s, b: refuse(ctx, s[0], s[1], b)),
    ]
