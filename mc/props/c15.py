from mc.affine import *

ASSUMPTIONS = ["linear parts along a word have condition number below 1e5", "maps are exactly singular, or have |det| at least 1e-3 of their squared norm"]
GEN = [("turn", A_(Fr(3, 5), Fr(-4, 5), Fr(4, 5), Fr(3, 5), 1, -2)), ("shear", A_(1, 2, 0, 1, 0, 3)), ("stretch", A_(3, 0, 0, Fr(1, 2), -1, 0)), ("mirror", A_(0, 1, 1, 0, 2, 2)),
       ("general", A_(2, -1, 1, 3, Fr(1, 2), 5)), ("shift", A_(1, 0, 0, 1, -4, Fr(7, 2))), ("small", A_(Fr(1, 20), Fr(1, 50), Fr(-1, 30), Fr(1, 10), 0, 1)),
       ("singular", A_(1, 2, 2, 4, 3, 1)), ("zero", A_(0, 0, 0, 0, 1, 2)), ("flip", A_(-1, 0, 0, 1, 0, 0))]


class Node(object):
    __slots__ = ("o", "M", "word", "amp")

    def __init__(s, o, M, word, amp):
        s.o, s.M, s.word, s.amp = o, M, word, amp


def amp(M):
    n, i = acond(M)
    return max(1.0, n) * 8


def init(ctx, x):
    return Node(real_affine(ctx, x[1]), x[1], x[0], amp(x[1]))


def step(ctx, n, op):
    kind = op[0]
    if kind == "inverse":
        if adet(n.M) == 0:
            # a singular product of exact integer maps may be computed inexactly after several steps
            if n.word.count(";") > 0:
                raise Skip
            r = ctx.call(n.o.inverse)
            ctx.ok(r is None, "inverse of the singular map %s: %s", n.word, show(r))
            ctx.outcome("singular")
            raise Skip
        a, b = acond(n.M)
        if a * b > 1e5:
            raise Skip
        ctx.outcome("inverse")
        return Node(ctx.call(n.o.inverse), ainv(n.M), n.word + "; inverse", n.amp * max(b, 1.0) ** 2 * 4)
    if kind == "itself":
        k = n.o if op[1] == "same object" else real_affine(ctx, n.M)
        N = amul(n.M, n.M)
        a, b = acond(N)
        if a > 1e5 or n.amp > 1e4:
            raise Skip
        ctx.outcome(kind)
        return Node(ctx.call(n.o.compose, k, left=op[2]), N, "%s; itself" % n.word, n.amp * n.amp)
    name, M = op[1]
    k = real_affine(ctx, M)
    if kind == "left":
        o, N = ctx.call(n.o.compose, k, True), amul(M, n.M)
    elif kind == "right":
        o, N = ctx.call(n.o.compose, k, left=False), amul(n.M, M)
    elif kind == "default":
        o, N = ctx.call(n.o.compose, k), amul(M, n.M)
    a, b = acond(N)
    if a > 1e5:
        raise Skip
    ctx.outcome(kind)
    return Node(o, N, "%s; %s %s" % (n.word, kind, name), n.amp * amp(M))


def check(ctx, n):
    if n.amp > 1e8:
        raise Skip
    chk_affine(ctx, n.o, n.M, n.word, max(1.0, n.amp * 1e-2), 1e-9)


def singular(ctx, a, b, k, t):
    # second row a multiple of the first, or rows exchanged; exactly singular as stored
    p, q = k
    rows = ((p * a, p * b), (q * a, q * b))
    M = A_(rows[0][0], rows[0][1], rows[1][0], rows[1][1], *t)
    o = real_affine(ctx, M)
    ctx.state(M)
    w = "singular map %s" % show(o)
    ctx.ok(ctx.call(o.inverse) is None, "%s has an inverse", w)
    chk_affine(ctx, o, M, w, 10.0)
    ctx.outcome("singular")


def regular(ctx, a, b, c, d, t, rep, k=1):
    M = A_(a * k, b * k, c * k, d * k, *t)
    o = real_affine(ctx, M, rep)
    ctx.state(M)
    w = show(o)
    chk_affine(ctx, o, M, w, 10.0)
    r = ctx.call(o.inverse)
    if adet(M) == 0:
        ctx.ok(r is None, "%s has an inverse", w)
        ctx.outcome("singular")
        return
    chk_affine(ctx, r, ainv(M), "inverse of " + w, 100.0 * max(1.0, 1 / float(k)))
    chk_affine(ctx, ctx.call(o.compose, r), AID, w + " then its inverse", 100.0 * max(1.0, float(k), 1 / float(k)))
    ctx.outcome("regular")


ROWS = [[(0, 0)], [(1, 2)], [(1, 2), (3, 4)], [(1, 2), (3, 4), (-1, 0)], [(0, 1), (5, -2), (2, 2), (2, 2), (-7, 3)], [(k * k % 7, k) for k in range(60)]]


def rows(ctx, x, P, how):
    M = x[1]
    o = real_affine(ctx, M)
    m = {"array": lambda: np.array([fpt(p) for p in P]), "list": lambda: [list(p) for p in P], "tuples": lambda: [tuple(p) for p in P],
         "ints": lambda: np.array(P), "fortran": lambda: np.asfortranarray(np.array([fpt(p) for p in P]))}[how]()
    w = "%s of the %d rows %s (%s)" % (x[0], len(P), P, how)
    got = mat(ctx.call(o.transform, m), len(P), 2, w)
    ctx.state((x[0], tuple(P)))
    for r, p in zip(got, P):
        ctx.close_pt(r, aact(M, p), w, 50.0, 1e-10)
    ctx.outcome("%d row(s)" % len(P))


def three(ctx, P, Q, F, order):
    P = [F(p) for p in P]
    P = [P[i] for i in order]
    Q = [Q[i] for i in order]
    cp = det(sub(P[1], P[0]), sub(P[2], P[0])) == 0
    cq = det(sub(Q[1], Q[0]), sub(Q[2], Q[0])) == 0
    f = ctx.call(g.Affine.from_mapping_three_points, *[as_pt(p) for p in P + Q])
    ctx.state((tuple(P), tuple(Q)))
    w = "map %s -> %s" % ([fpt(p) for p in P], [fpt(q) for q in Q])
    if cp or cq:
        ctx.ok(f is None, "%s: the points are collinear but the result is %s", w, show(f))
        ctx.outcome("collinear")
        return
    ctx.ok(isinstance(f, g.Affine), "%s: %s", w, show(f))
    for p, q in zip(P, Q):
        ctx.close_pt(ctx.call(f.transform, as_pt(p)), q, w, 10.0, 1e-8)
    # the fourth vertex of the parallelogram determines that the map is affine on the whole plane
    ctx.close_pt(ctx.call(f.transform, as_pt(sub(add(P[0], P[1]), P[2]))), sub(add(Q[0], Q[1]), Q[2]), w + " (fourth point)", 20.0, 1e-8)
    ctx.outcome("three points")


def sized_three(ctx, P, e, Q, k, order):
    """triples of any size"""
    P, Q = [mul(e, ept(P[i])) for i in order], [mul(k, ept(Q[i])) for i in order]
    f = ctx.call(g.Affine.from_mapping_three_points, *[as_pt(p) for p in P + Q])
    ctx.state((tuple(P), tuple(Q)))
    w = "map %s -> %s" % ([fpt(p) for p in P], [fpt(q) for q in Q])
    if det(sub(Q[1], Q[0]), sub(Q[2], Q[0])) == 0 or det(sub(P[1], P[0]), sub(P[2], P[0])) == 0:
        ctx.ok(f is None, "%s: the points are collinear but the result is %s", w, show(f))
        return
    ctx.ok(isinstance(f, g.Affine), "%s: %s", w, show(f))
    for p, q in list(zip(P, Q)) + [(sub(add(P[0], P[1]), P[2]), sub(add(Q[0], Q[1]), Q[2]))]:
        ctx.close_pt(ctx.call(f.transform, as_pt(p)), q, w, 20.0 * k, 1e-9)
    ctx.outcome("three points")


def curves():
    return [Ell((0, 0), (1, 0), 1, 1, circle=True), Ell((3, -2), (1, 0), Fr(5, 2), Fr(5, 2), circle=True), Ell((0, 0), (1, 0), 2, 1), Ell((1, 5), (0, 1), 3, Fr(1, 2)),
            Ell((-2, 1), AXES[2], 4, 3, False), Ell((7, 7), AXES[3], Fr(3, 2), Fr(1, 4), True, 1), Ell((0, -9), AXES[4], 10, 9, False, -1), Ell((Fr(1, 2), 0), AXES[2], 2, 2, True)]


def sq(f):
    return [[float(x) for x in r] for r in f]


def onto(ctx, E1, E2, k1=1, k2=1):
    E1, E2 = (Ell(mul(k, ept(E.O)), E.u, E.a * k, E.b * k, E.deg, E.turns, E.circle) for k, E in ((k1, E1), (k2, E2)))
    e1, e2 = E1.real(ctx), E2.real(ctx)
    f = ctx.call(g.Affine.from_ellipse_to_ellipse, e1, e2)
    ctx.state((E1.conic.key(), E2.conic.key(), E1.circle, E2.circle))
    w = "map of %s onto %s" % (E1, E2)
    ctx.ok(isinstance(f, g.Affine), "%s: %s", w, show(f))
    ctx.close_pt(ctx.call(f.transform, as_pt(E1.O)), E2.O, w + ": center", 10.0 * k2, 1e-9)
    for c, s in ((1, 0), (0, 1), (-1, 0), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(-12, 13)), (Fr(8, 17), Fr(-15, 17))):
        q = pt(ctx.call(f.transform, as_pt(E1.at(c, s))))
        ctx.close(E2.conic.qf(q), 1.0, w + ": image %s of a point of the first curve, in the equation of the second" % (q,), 1.0, 1e-7)
    ctx.outcome("circle" if E1.circle else "ellipse")


def near_singular():
    out = []
    for e in LADDER:
        for f in (e, -e):
            out += [A_(1, f, 0, 1, 2, -1), A_(1, 0, f, 1), A_(1, -f, f, 1, 0, 3), A_(1 + f, 0, 0, 1), A_(1, 2, 2, 4 + f, 1, 1), A_(f, 1, 1, 0), A_(1, 1, 1, 1 + f, -3, 0), A_(1, 0, 0, f), A_(f, 2, -1, f), A_(3, -1, f - 3, 1, 2, 2)]
    return out


def narrow(ctx, M, N):
    a, b = acond(M)
    if a * b > 2e6:
        raise Skip
    o = real_affine(ctx, M)
    ctx.state(M)
    w = show(o)
    chk_affine(ctx, o, M, w, 10.0)
    r = ctx.call(o.inverse)
    tol = 1e-14 * max(1.0, a * b)
    chk_affine(ctx, r, ainv(M), "inverse of " + w, 100.0 * max(1.0, b), 1e-10 * a * b if a * b < 10 else tol * 10)
    chk_affine(ctx, ctx.call(o.compose, r), AID, w + " then its inverse", 100.0 * max(1.0, a * b), 1e-11)
    n = real_affine(ctx, N[1])
    chk_affine(ctx, ctx.call(o.compose, n), amul(N[1], M), "%s then %s" % (w, N[0]), 50.0, 1e-11)
    chk_affine(ctx, ctx.call(o.compose, n, left=False), amul(M, N[1]), "%s then %s" % (N[0], w), 50.0, 1e-11)
    ctx.outcome("narrow")


def near_three(ctx, P, e, Q, F, order):
    """three points that are nearly collinear or close together, either side"""
    P = [F(p) for p in P(e)]
    P, Q = [P[i] for i in order], [Q[i] for i in order]
    if any(abs(float(det(sub(P[i - 1], P[i]), sub(P[i - 2], P[i])))) < 1e-6 * math.sqrt(float(n2(sub(P[i - 1], P[i])) * n2(sub(P[i - 2], P[i])))) for i in range(3)):
        raise Skip
    for A, B in ((P, Q), (Q, P)):
        f = ctx.call(g.Affine.from_mapping_three_points, *[as_pt(p) for p in A + B])
        ctx.state((tuple(A), tuple(B)))
        w = "map %s -> %s" % ([fpt(p) for p in A], [fpt(q) for q in B])
        ctx.ok(isinstance(f, g.Affine), "%s: %s", w, show(f))
        h = 2e-7 * min(1.0, 2.0 ** -10 / float(e)) if A is P else 1e-9
        for p, q in zip(A, B):
            ctx.close_pt(ctx.call(f.transform, as_pt(p)), q, w, 10.0, max(h * 1e-1, 1e-9))
    ctx.outcome("three points")


TRI_NEAR = [lambda e: [(0, 0), (1, 0), (Fr(1, 2), e)], lambda e: [(0, 0), (1, 1), (2, 2 + e)], lambda e: [(0, 0), (e, 0), (0, 1)], lambda e: [(0, 0), (e, 0), (0, e)], lambda e: [(1, 2), (1 + e, 2), (4, 2 + 2 * e)]]


def spaces(tier):
    q = tier == "quick"
    gens = GEN[:8] if q else GEN
    ops = [("inverse",)] + [(k, x) for k in ("left", "right") for x in gens] + [("default", gens[4])] + [("itself", k, l) for k in ("same object", "equal object") for l in (True, False)]
    tri = [p for p in grid(1)]
    T = [[a, b, c] for a in tri for b in tri for c in tri if a != b and b != c and a != c]
    TQ = [[(0, 0), (1, 0), (0, 1)], [(2, -1), (5, 3), (0, 4)], [(0, 0), (1, 1), (2, 2)], [(Fr(1, 3), 0), (0, Fr(1, 5)), (-1, -1)], [(-3, 2), (3, 2), (0, -5)], [(1, 3), (2, 5), (4, 9)]]
    D = range(-2, 3) if q else range(-3, 4)
    return [
        Tree("words", GEN, ops, 2 if q else 3, init, step, check, key=lambda n: n.M, opname=lambda o: o[0] + (" " + (o[1][0] if len(o) == 2 else "%s %s" % o[1:]) if len(o) > 1 else "")),
        Product("integer matrices", [("a", D), ("b", D), ("c", D), ("d", D), ("t", [(0, 0), (3, -5)]), ("rep", ["a", "i"])], regular),
        Product("integer matrices, other scales", [("a", range(-2, 3)), ("b", range(-1, 3)), ("c", range(-2, 2)), ("d", [0, 1, -3]), ("t", [(0, 0), (3, -5)]), ("rep", ["a"]), ("k", [Fr(1, 10 ** 6), Fr(1, 4096), Fr(1, 30), 500, 10 ** 5])], regular),
        Product("near singular", [("map", near_singular()), ("other", GEN[:5])], narrow),
        Product("three points, near collinear", [("P", TRI_NEAR), ("gap", LADDER[:5]), ("Q", [TQ[1], TQ[3], TQ[4]]), ("frame", FN), ("order", [(0, 1, 2), (2, 0, 1)])], near_three),
        Product("singular", [("a", range(-7, 8)), ("b", [0, 1, 3, 7, 10]), ("k", [(1, 0), (0, 1), (1, 1), (1, -1), (3, 7), (7, 10), (-10, -7), (6, -9)]), ("t", [(0, 0), (Fr(1, 3), 5)])], singular),
        Product("rows", [("map", GEN), ("rows", ROWS), ("how", ["array", "list", "tuples", "ints", "fortran"])], rows),
        Product("three points", [("P", T), ("Q", TQ), ("frame", F3[:2] if q else F4), ("order", [(0, 1, 2)] if q else [(0, 1, 2), (2, 0, 1), (1, 0, 2)])], three),
        Product("three images", [("P", TQ), ("Q", T), ("frame", [ID]), ("order", [(0, 1, 2)])], three),
        Product("three points, other scales", [("P", TQ[:2] + TQ[3:]), ("e", [Fr(1, 1 << 24), Fr(1, 10 ** 5), Fr(1, 100), 1, 1000, 1 << 24]), ("Q", TQ), ("k", [Fr(1, 1 << 24), Fr(1, 10 ** 6), Fr(1, 300), 1, 700, 1 << 24]), ("order", [(0, 1, 2), (2, 0, 1)])], sized_three),
        Product("ellipses", [("first", curves()), ("second", curves())], onto),
        Product("ellipses, other scales", [("first", curves()), ("second", curves()), ("k1", [1, Fr(1, 8192), 700, 1 << 24]), ("k2", [Fr(1, 500), 8192, 1 << 24])], onto),
    ]
