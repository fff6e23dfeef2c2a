"""Iterated constructions: every word of generators up to a depth, invariants at every step."""
import itertools
from mc.affine import *

ASSUMPTIONS = ["circles that shrink below 1/20000 of the figure are not compared further (rounding)"]


def cr(ctx, o, w):
    ctx.ok(isinstance(o, g.Circle), "%s: expected a circle, got %s", w, show(o))
    c = pt(o.center, w)
    return (c[0], c[1], num(o.radius, w))


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def tangent(a, b, t):
    """+1 external, -1 internal, 0 not tangent"""
    d = dist(a, b)
    if abs(d - (a[2] + b[2])) <= t:
        return 1
    if abs(d - abs(a[2] - b[2])) <= t:
        return -1
    return 0


# -- gasket ------------------------------------------------------------------------------
class Node(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def gasket_init(ctx, spec):
    (c, r), n, phi, shift = spec
    c0 = ctx.call(g.Circle, as_pt(c), float(r))
    d = ctx.call(g.SteinerChain, c0, n, float(phi), float(shift))
    L = list(d["circles"])
    ch, inner = L[:n], L[n]
    objs = [c0, inner] + ch
    pairs = [(0, 2 + i) for i in range(n)] + [(1, 2 + i) for i in range(n)] + [(2 + i, 2 + (i + 1) % n) for i in range(n)]
    gens = []
    for i in range(n):
        for z in (0, 1):
            gens.append(ctx.call(g.Inversion.from_fixing_three_circles, objs[z], ch[i], ch[(i + 1) % n]))
    fixed = [{z, 2 + i, 2 + (i + 1) % n} for i in range(n) for z in (0, 1)]
    size = math.hypot(float(c[0]), float(c[1])) + float(r)
    return Node(objs=objs, pairs=pairs, gens=gens, fixed=fixed, size=size, r=float(r), word=(), n=n)


def gasket_step(ctx, nd, op):
    if op >= len(nd.gens):
        raise Skip
    if nd.word and nd.word[-1] == op:
        raise Skip
    iota = nd.gens[op]
    new = [ctx.call(iota.invert_circle, o) for o in nd.objs]
    w = "gasket word %s" % (nd.word + (op,),)
    # the three circles through which the generator passes at right angles stay; the step is undone by repeating it
    if not nd.word:
        for k in nd.fixed[op]:
            a, b = cr(ctx, nd.objs[k], w), cr(ctx, new[k], w)
            ctx.ok(dist(a, b) <= 1e-8 * nd.size and abs(a[2] - b[2]) <= 1e-8 * nd.size, "%s: circle %d should be kept: %r / %r", w, k, a, b)
    return Node(objs=new, pairs=nd.pairs, gens=nd.gens, fixed=nd.fixed, size=nd.size, r=nd.r, word=nd.word + (op,), n=nd.n)


def gasket_check(ctx, nd):
    w = "gasket word %s" % (nd.word,)
    C = [cr(ctx, o, w) for o in nd.objs]
    if min(c[2] for c in C) < nd.r / 20000:
        raise Skip
    t = 1e-6 * nd.r + 1e-9 * nd.size
    big = max(range(len(C)), key=lambda i: C[i][2])
    for i, j in nd.pairs:
        s = tangent(C[i], C[j], t)
        ctx.ok(s != 0, "%s: circles %d and %d are no more tangent: %r, %r", w, i, j, C[i], C[j])
    # everything stays in the exterior circle, inside or equal to one of the original discs
    R0 = None
    if not nd.word:
        ctx.outcome("chain")
    c0 = nd_c0(nd)
    for c in C:
        ctx.ok(dist(c, c0) + c[2] <= c0[2] + t, "%s: circle %r leaves the exterior circle", w, c)
    if nd.n == 3:
        # Descartes: curvatures of four mutually tangent circles
        for q in itertools.combinations(range(5), 4):
            if {0, 1} <= set(q):
                continue
            k = []
            for i in q:
                neg = any(tangent(C[i], C[j], t) == -1 and C[i][2] > C[j][2] for j in q if j != i)
                k.append((-1 if neg else 1) / C[i][2])
            ctx.close(sum(k) ** 2, 2 * sum(x * x for x in k), "%s: curvatures of circles %s" % (w, q), sum(x * x for x in k), 1e-4)
    ctx.outcome("gasket depth %d" % len(nd.word))


def nd_c0(nd):
    return nd.c0 if hasattr(nd, "c0") else (nd.objs[0].center[0], nd.objs[0].center[1], nd.objs[0].radius)


def gasket_step_(ctx, nd, op):
    new = gasket_step(ctx, nd, op)
    new.c0 = nd_c0(nd)
    return new


# -- hyperbolic tessellation ---------------------------------------------------------------
def hyp_init(ctx, spec):
    (c, r), angs = spec
    C = ctx.call(g.Circle, as_pt(c), float(r))
    m = len(angs)
    sides = [ctx.call(C.orthogonal_through_two_points_on_circle, angs[i], angs[(i + 1) % m]) for i in range(m)]
    for i, s in enumerate(sides):
        for a in (angs[i], angs[(i + 1) % m]):
            p = (float(c[0]) + float(r) * math.cos(a), float(c[1]) + float(r) * math.sin(a))
            on(ctx, s, p, "side %d" % i, float(r))
    gens = [ctx.call(g.Inversion.on_circle, s) if isinstance(s, g.Circle) else ctx.call(g.Reflection, s) for s in sides]
    return Node(C=C, cc=(float(c[0]), float(c[1])), r=float(r), sides=sides, gens=gens, word=(), objs=list(sides), mob=None, size=float(r) + math.hypot(float(c[0]), float(c[1])))


def on(ctx, s, p, w, r):
    if isinstance(s, g.Circle):
        x = cr(ctx, s, w)
        ctx.ok(abs(dist(x, p) - x[2]) <= 1e-7 * max(r, x[2]), "%s does not pass through %r", w, p)
    else:
        ctx.ok(fdist_line(p, pt(s.A), pt(s.B)) <= 1e-7 * r, "%s does not pass through %r", w, p)


def image(ctx, gen, o):
    if isinstance(gen, g.Reflection):
        return ctx.call(gen.reflect_circle, o) if isinstance(o, g.Circle) else ctx.call(gen.reflect_line, o)
    return ctx.call(gen.invert_gcircle, o)


def hyp_step(ctx, nd, op):
    if op >= len(nd.gens) or (nd.word and nd.word[-1] == op):
        raise Skip
    gen = nd.gens[op]
    new = [image(ctx, gen, o) for o in nd.objs]
    B_ = image(ctx, gen, nd.C)
    w = "tessellation word %s" % (nd.word + (op,),)
    x = cr(ctx, B_, w)
    ctx.ok(dist(x, nd.cc) <= 1e-7 * nd.size and abs(x[2] - nd.r) <= 1e-7 * nd.size, "%s: the boundary circle is not kept: %r", w, x)
    return Node(C=nd.C, cc=nd.cc, r=nd.r, sides=nd.sides, gens=nd.gens, word=nd.word + (op,), objs=new, size=nd.size)


def ends(ctx, o, nd, w):
    """ideal endpoints (angles) of a geodesic orthogonal to the boundary"""
    if isinstance(o, g.Circle):
        x = cr(ctx, o, w)
        d2 = dist(x, nd.cc) ** 2
        ctx.ok(abs(d2 - (x[2] ** 2 + nd.r ** 2)) <= 1e-6 * d2, "%s: circle %r is not orthogonal to the boundary (%r against %r)", w, x, d2, x[2] ** 2 + nd.r ** 2)
        a = math.atan2(x[1] - nd.cc[1], x[0] - nd.cc[0])
        h = math.atan2(x[2], nd.r)
        return [(a - h) % (2 * PI), (a + h) % (2 * PI)]
    ctx.ok(isinstance(o, g.Line), "%s: expected a circle or a line, got %s", w, show(o))
    A, B_ = pt(o.A, w), pt(o.B, w)
    ctx.ok(fdist_line(nd.cc, A, B_) <= 1e-6 * nd.r, "%s: line %r, %r is not a diameter", w, A, B_)
    a = math.atan2(B_[1] - A[1], B_[0] - A[0])
    return [a % (2 * PI), (a + PI) % (2 * PI)]


def adist(a, b):
    d = (a - b) % (2 * PI)
    return min(d, 2 * PI - d)


def crosses(e, f, t):
    """do two geodesics cross strictly?"""
    if any(adist(x, y) < t for x in e for y in f):
        return False
    lo, hi = min(e), max(e)
    return (lo < f[0] < hi) != (lo < f[1] < hi)


def hyp_check(ctx, nd):
    w = "tessellation word %s" % (nd.word,)
    E = [ends(ctx, o, nd, "%s, side %d" % (w, i)) for i, o in enumerate(nd.objs)]
    for i, o in enumerate(nd.objs):
        if isinstance(o, g.Circle) and nd.r / 50 < o.radius < 50 * nd.r:
            ang = ctx.call(nd.C.angle, o)
            ctx.ok(ang is not None, "%s, side %d: the angle with the boundary is undefined", w, i)
            ctx.close(num(ang), PI / 2, "%s, side %d: angle with the boundary circle" % (w, i), 1, 1e-5)
    m = len(E)
    gap = min(adist(*e) for e in E)
    if gap < 1e-4:
        raise Skip
    for i in range(m):
        # consecutive sides share an ideal vertex, other ones do not cross
        d = min(adist(x, y) for x in E[i] for y in E[(i + 1) % m])
        ctx.ok(d <= 1e-5, "%s: sides %d and %d do not meet on the boundary: %r, %r", w, i, (i + 1) % m, E[i], E[(i + 1) % m])
        for j in range(i):
            ctx.ok(not crosses(E[i], E[j], 1e-5), "%s: sides %d and %d cross", w, i, j)
    if nd.word:
        # the image lies behind the first mirror of the word, across from the original polygon
        S = [ends(ctx, o, nd, "side") for o in nd.sides]
        for e in E:
            for s in S:
                ctx.ok(not crosses(e, s, 1e-5), "%s: an image of a side crosses a side", w)
    ctx.outcome("tessellation depth %d" % len(nd.word))


# -- words of Möbius transformations: compose against step by step ---------------------------
def mob_word(ctx, circles, word):
    iot = [ctx.call(g.Inversion.on_circle, ctx.call(g.Circle, as_pt(c), float(r))) for c, r in circles]
    if any(word[i] == word[i + 1] for i in range(len(word) - 1)) or len(word) % 2:
        raise Skip
    P = (0.3, -0.2)
    Q = P
    ok = True
    for k in word:
        Q = pt(ctx.call(iot[k].invert, Q), "inversion")
    M = None
    for a, b in zip(word[::2], word[1::2]):
        m = ctx.call(iot[a].compose, iot[b])
        M = m if M is None else ctx.call(M.compose, m)
    R = pt(ctx.call(M.transform, P), "Möbius")
    s = max(1.0, math.hypot(*Q))
    ctx.close_pt(R, Q, "word %s of inversions as a composed Möbius transformation" % (word,), s, 1e-6)
    # its inverse runs the word backwards
    I_ = ctx.call(M.inverse)
    ctx.close_pt(ctx.call(I_.transform, Q), P, "inverse of the word %s" % (word,), 1.0, 1e-4)
    ctx.state(word)
    ctx.outcome("composed word")


# -- Schottky ---------------------------------------------------------------------------------
def sch_init(ctx, spec):
    C = [ctx.call(g.Circle, as_pt(c), float(r)) for c, r in spec]
    gens = [ctx.call(g.Inversion.on_circle, c) for c in C]
    base = [cr(ctx, c, "start") for c in C]
    return Node(base=base, gens=gens, C=C, objs={(i,): C[i] for i in range(len(C))}, word=())


def sch_step(ctx, nd, op):
    """apply one more inversion to all the images made so far"""
    if op >= len(nd.gens) or (nd.word and nd.word[-1] == op):
        raise Skip
    new = {}
    for wd, o in nd.objs.items():
        if wd[0] != op:
            new[(op,) + wd] = ctx.call(nd.gens[op].invert_circle, o)
    for i, c in enumerate(nd.C):
        new[(i,)] = c
    return Node(base=nd.base, gens=nd.gens, C=nd.C, objs=new, word=nd.word + (op,))


def sch_check(ctx, nd):
    w = "Schottky word %s" % (nd.word,)
    X = {k: cr(ctx, o, w) for k, o in nd.objs.items()}
    for k, x in X.items():
        if len(k) > 1:
            p = X.get(k[:-1])
            if p is None:
                p = nd.base[k[0]]
            ctx.ok(dist(x, p) + x[2] < p[2] * (1 + 1e-9), "%s: image %s (%r) is not nested in %s (%r)", w, k, x, k[:-1], p)
        b = nd.base[k[0]]
        ctx.ok(dist(x, b) + x[2] <= b[2] * (1 + 1e-9), "%s: image %s is not in its first disc", w, k)
    ks = sorted(X)
    for i, k in enumerate(ks):
        for l in ks[:i]:
            if len(k) == len(l):
                ctx.ok(dist(X[k], X[l]) > X[k][2] + X[l][2] - 1e-9, "%s: images %s and %s overlap", w, k, l)
    ctx.outcome("Schottky depth %d" % len(nd.word))


# -- billiard --------------------------------------------------------------------------------
def billiard(ctx, spec, theta, target, steps):
    (c, a, b, al, deg) = spec
    E = ctx.call(g.Ellipse, as_pt(c), float(a), float(b), float(al) if deg else float(al) * PI / 180, deg)
    u, v = math.cos(al * PI / 180), math.sin(al * PI / 180)
    f = math.sqrt(float(a) ** 2 - float(b) ** 2)
    F = [(c[0] + s * f * u, c[1] + s * f * v) for s in (1, -1)]
    P = pt(ctx.call(E.point_from_angle, theta), "start")
    Q = pt(ctx.call(E.point_from_angle, target), "target")
    if dist(P, Q) < 0.05 * b:
        raise Skip

    def product(P, Q):
        d = math.hypot(Q[0] - P[0], Q[1] - P[1])
        return ((Q[0] - P[0]) * (F[0][1] - P[1]) - (Q[1] - P[1]) * (F[0][0] - P[0])) * ((Q[0] - P[0]) * (F[1][1] - P[1]) - (Q[1] - P[1]) * (F[1][0] - P[0])) / d / d
    k0 = product(P, Q)
    for n in range(steps):
        w = "billiard in %s, bounce %d" % (spec, n + 1)
        x, y = Q[0] - c[0], Q[1] - c[1]
        t = num(ctx.call(E.theta2t, math.atan2(u * y - v * x, u * x + v * y), False), w)
        p = (c[0] + u * a * math.cos(t) - v * b * math.sin(t), c[1] + v * a * math.cos(t) + u * b * math.sin(t))
        ctx.close_pt(p, Q, w + ": eccentric angle", float(a), 1e-6)
        nv = pt(ctx.call(E.normal, t), w)
        ctx.close(math.hypot(*nv), 1, w + ": length of the normal", 1, 1e-9)
        axis = ctx.call(g.Reflection, ctx.call(g.Line, Q, (Q[0] + nv[0] * a, Q[1] + nv[1] * a)))
        D = pt(ctx.call(axis.reflect, P), w)
        ray = ctx.call(g.Line, Q, D)
        I_ = pts(ctx.call(g.intersection_ellipse_line, E, ray), w)
        ctx.ok(len(I_) == 2, "%s: the reflected ray meets the ellipse in %d points", w, len(I_))
        d = [dist(q, Q) for q in I_]
        ctx.ok(min(d) <= 1e-6 * a, "%s: neither intersection %r is the bouncing point %r", w, I_, Q)
        N_ = I_[0] if d[0] > d[1] else I_[1]
        if max(d) < 0.02 * b:
            raise Skip
        ctx.close(product(Q, N_), k0, w + ": product of the distances of the foci", float(b) ** 2, 1e-5)
        P, Q = Q, N_
        ctx.state((spec, theta, target, n))
    ctx.outcome("%d bounces" % steps)


# -- iterated triangles ---------------------------------------------------------------------
def orthics(ctx, T, depth):
    t = ctx.call(g.Triangle, *[as_pt(p) for p in T])
    R = num(ctx.call(t.circumcircle).radius)
    for n in range(depth):
        V = [pt(p) for p in (t.A, t.B, t.C)]
        L = [dist(V[i], V[(i + 1) % 3]) for i in range(3)]
        cosines = [abs((L[i] ** 2 + L[(i + 1) % 3] ** 2 - L[(i + 2) % 3] ** 2) / (2 * L[i] * L[(i + 1) % 3])) for i in range(3)]
        if min(cosines) < 0.05 or max(cosines) > 0.999:
            raise Skip  # right or flat triangle
        t = ctx.call(t.orthic_triangle)
        ctx.ok(isinstance(t, g.Triangle), "orthic triangle: got %s", show(t))
        r = num(ctx.call(t.circumcircle).radius)
        ctx.close(r, R / 2, "orthic triangle number %d of %s: circumradius" % (n + 1, T), R, 1e-5)
        R = r
        ctx.state((T, n))
        ctx.outcome("orthic depth %d" % (n + 1))


def medial(ctx, T, depth):
    """incircles and excircles against Euler's relations along a chain of triangles"""
    t = ctx.call(g.Triangle, *[as_pt(p) for p in T])
    for n in range(depth):
        cc, ic = ctx.call(t.circumcircle), ctx.call(t.incircle)
        a, b = cr(ctx, cc, "circumcircle"), cr(ctx, ic, "incircle")
        w = "contact triangle number %d of %s" % (n, T)
        ctx.close(dist(a, b) ** 2, a[2] * (a[2] - 2 * b[2]), w + ": Euler's relation", a[2] ** 2, 1e-6)
        # contact triangle of the incircle: its circumcircle is the incircle
        V = [pt(p) for p in (t.A, t.B, t.C)]
        K = []
        for i in range(3):
            L = ctx.call(g.Line, V[i], V[(i + 1) % 3])
            K.append(pt(ctx.call(L.projection, (b[0], b[1])), w))
        t = ctx.call(g.Triangle, *K)
        d = cr(ctx, ctx.call(t.circumcircle), w)
        ctx.ok(dist(d, b) <= 1e-7 * a[2] and abs(d[2] - b[2]) <= 1e-7 * a[2], "%s: circumcircle %r of the contact triangle is not the incircle %r", w, d, b)
        ctx.state((T, n))
    ctx.outcome("contact triangles")


def nested_init(ctx, spec):
    (c, r), n, phi = spec
    c0 = ctx.call(g.Circle, as_pt(c), float(r))
    return Node(c=c0, n=n, phi=float(phi), word=(), parent=None, r=float(r), size=float(r) + math.hypot(float(c[0]), float(c[1])))


def nested_step(ctx, nd, op):
    if op > nd.n:
        raise Skip
    d = ctx.call(g.SteinerChain, nd.c, nd.n, nd.phi, 0.5 * len(nd.word))
    return Node(c=list(d["circles"])[op], n=nd.n, phi=nd.phi, word=nd.word + (op,), parent=nd.c, r=nd.r, size=nd.size, last=op == nd.n)


def nested_check(ctx, nd):
    x = cr(ctx, nd.c, "chain %s" % (nd.word,))
    if nd.parent is not None:
        p = cr(ctx, nd.parent, "parent")
        t = 1e-8 * nd.size
        if nd.last:
            ctx.ok(dist(x, p) + x[2] < p[2] + t, "inner circle %s not inside its parent", nd.word)
        else:
            ctx.ok(abs(dist(x, p) - (p[2] - x[2])) <= t, "circle %s of the nested chains is not tangent to its parent: %r, %r", nd.word, x, p)
    ctx.outcome("nested chains depth %d" % len(nd.word))


SCH = [[((0, 4), 1), ((4, 0), 1), ((-4, -1), 2)], [((0, 0), 1), ((3, 0), 1), ((1, 4), 2), ((-5, 1), Fr(3, 2))], [((10, 10), 3), ((20, 10), 4), ((15, 22), 5)]]


def spaces(tier):
    q = tier == "quick"
    key = lambda nd: nd.word
    gk = [(c, n, phi, sh) for c in [((0, 0), 1), ((3, -2), 5)] for n in (3, 4, 5) for phi in (0, Fr(1, 4), Fr(-1, 2)) for sh in (0, Fr(1, 3))]
    hyp = [(c, a) for c in [((0, 0), 1), ((2, -5), 3)] for a in [(0.2, 2.0, 4.5), (0.0, 1.5, 3.3, 5.0), (1.0, 1.0 + PI, 5.6), (0.5, 1.6, 2.9, 4.0, 5.3)]]
    ell = [((0, 0), 3, 2, 0, True), ((1, -2), 5, 1, 40, True), ((-3, 4), 2, Fr(19, 10), 130, True), ((0, 1), 4, 3, 70, False)]
    ell = [((float(c[0]), float(c[1])), float(a), float(b), float(al), d) for c, a, b, al, d in ell]
    tri = [((0, 0), (7, 1), (2, 5)), ((-3, 2), (6, 4), (1, 9)), ((0, 0), (10, 0), (3, 2)), ((1, 1), (5, 8), (-4, 6)), ((0, 0), (9, 2), (8, 7))]
    if not q:
        tri += [((0, 0), (a, b), (c, d)) for a in (5, 9) for b in (0, 2) for c in (-3, 1, 4) for d in (4, 7)]
    words = [w for m in ((2, 4) if q else (2, 4, 6)) for w in itertools.product(range(3), repeat=m) if all(w[i] != w[i + 1] for i in range(m - 1))]
    D = [(((0, 4), 1), ((4, 0), 1), ((-4, -1), 2)), (((0, 0), 1), ((3, 0), 1), ((1, 4), 2)), (((0, 0), 2), ((1, 1), 2), ((-1, 2), 3))]
    return [
        Tree("Apollonian gaskets", gk, range(10), 3 if q else 4, gasket_init, gasket_step_, gasket_check, key),
        Tree("hyperbolic tessellations", hyp, range(5), 4 if q else 6, hyp_init, hyp_step, hyp_check, key),
        Tree("Schottky circles", SCH, range(4), 4 if q else 7, sch_init, sch_step, sch_check, key),
        Tree("nested Steiner chains", [(c, n, p) for c in [((0, 0), 1), ((30, -20), 7)] for n in (3, 5) for p in (0, Fr(1, 3))], range(6), 3 if q else 4, nested_init, nested_step, nested_check, key),
        Product("words of inversions", [("circles", D), ("word", words)], mob_word),
        Product("elliptical billiards", [("ellipse", ell), ("start", [10, 75, 160, 250, 333]), ("target", [40, 120, 199, 290]), ("bounces", [25 if q else 120])], billiard),
        Product("iterated orthic triangles", [("triangle", tri), ("depth", [3])], orthics),
        Product("iterated contact triangles", [("triangle", tri), ("depth", [6 if q else 12])], medial),
    ]
