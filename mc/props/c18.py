from mc.affine import *

ASSUMPTIONS = ["eccentricity up to 40 (radii ratio), center up to 60 minor radii away from the origin", "five points are spread so that the curve through them is well determined",
               "coefficients are at least 1e-3 (relatively) away from the border of the ellipses, or exactly on it with small integers"]
RAD = [(2, 1), (1, 1), (5, Fr(1, 2)), (10, 9), (Fr(1, 4), Fr(1, 5)), (Fr(1001, 1000), 1), (30, 1)]
CEN = [(0, 0), (1, 0), (0, -2), (3, 4), (-7, Fr(1, 3)), (Fr(-1, 2), Fr(-5, 2)), (20, -30)]
AX = [(1, 0), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(4, 5), Fr(3, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(-15, 17), Fr(-8, 17)), (Fr(-4, 5), Fr(3, 5)), (Fr(1599, 1601), Fr(80, 1601)), (Fr(-3, 5), Fr(4, 5))]
FACT = [1, -1, Fr(1, 1000), -250, 7]
NAMES = ["A", "B", "C", "D", "E", "F"]


def size(E):
    return float(E.a) + math.hypot(*fpt(E.O))


def fit(E):
    if math.hypot(*fpt(E.O)) > 60 * float(E.b):
        raise Skip
    return E


def coeffs(ctx, d, what):
    try:
        v = [d[k] for k in NAMES]
    except Exception:
        raise Violation("%s: expected the coefficients A..F, got %s" % (what, show(d)))
    return [num(x, what) for x in v]


def proportional(ctx, got, E, what, tol=1e-7):
    """same quadratic form up to a non-zero factor; compared in coordinates centered on the ellipse, scaled by the major radius"""
    A, B, C, D, F_, G_ = got
    x, y = float(E.O[0]), float(E.O[1])
    s = float(E.a)
    q = [A * s * s, B * s * s, C * s * s, (2 * A * x + B * y + D) * s, (B * x + 2 * C * y + F_) * s, A * x * x + B * x * y + C * y * y + D * x + F_ * y + G_]
    w = [float(E.conic.S[0]) * s * s, 2 * float(E.conic.S[1]) * s * s, float(E.conic.S[2]) * s * s, 0.0, 0.0, -1.0]
    ctx.ok(abs(q[5]) > 0, "%s: null constant term at the center: %s", what, got)
    k = -1.0 / q[5]
    amp = max(abs(A * x * x), abs(C * y * y), abs(B * x * y), abs(q[5])) / abs(q[5])
    d = max(abs(k * a - b) for a, b in zip(q, w))
    m = max(abs(v) for v in w)
    ctx.ok(d <= tol * max(m, amp * 1e-3, 1.0), "%s: coefficients %s are not those of %s (deviation %.3g)", what, got, E, d)


def conversions(ctx, O, u, ab, deg, turns):
    E = fit(Ell(O, u, ab[0], ab[1], deg, turns))
    o = E.real(ctx)
    ctx.state(E.conic.key())
    eq = coeffs(ctx, ctx.call(o.equation), "equation of %s" % E)
    proportional(ctx, eq, E, "equation of %s" % E)
    S = mat(ctx.call(o.shape_matrix), 2, 2, "shape matrix of %s" % E)
    s = [float(v) for v in E.conic.S]
    b2 = float(E.b) ** 2
    d = max(abs(S[0][0] - s[0]), abs(S[0][1] - s[1]), abs(S[1][0] - s[1]), abs(S[1][1] - s[2]))
    ctx.ok(d * b2 <= 1e-7, "shape matrix of %s: got %s, expected %s", E, S, s)
    for k in FACT:
        r = ctx.call(g.Ellipse.from_equation, *[float(k) * v for v in eq])
        chk_ellipse(ctx, r, E.conic, "%s from its equation times %s" % (E, k), size(E), 1e-6)
    r = ctx.call(g.Ellipse.from_center_and_matrix, as_pt(O), np.array(S))
    chk_ellipse(ctx, r, E.conic, "%s from its shape matrix" % E, size(E), 1e-6)
    ctx.outcome("conversions")


def exact_equation(ctx, O, u, ab, k, rep):
    E = fit(Ell(O, u, ab[0], ab[1]))
    eq = E.conic.equation()
    if rep == "int":
        den = 1
        for v in eq:
            den = den * v.denominator // math.gcd(den, v.denominator)
        if den > 10 ** 9:
            raise Skip
        vals = [int(v * den) * (-1 if k < 0 else 1) for v in eq]
    else:
        vals = [float(v * k) for v in eq]
    ctx.state((E.conic.key(), k))
    r = ctx.call(g.Ellipse.from_equation, *vals)
    chk_ellipse(ctx, r, E.conic, "%s from the equation %s" % (E, vals), size(E), 1e-6)
    ctx.outcome("from_equation")


def exact_matrix(ctx, O, u, ab, rep):
    E = Ell(O, u, ab[0], ab[1])
    s = [float(v) for v in E.conic.S]
    S = [[s[0], s[1]], [s[1], s[2]]]
    ctx.state(E.conic.key())
    r = ctx.call(g.Ellipse.from_center_and_matrix, as_pt(O, rep), np.array(S) if rep == "a" else S)
    chk_ellipse(ctx, r, E.conic, "%s from its shape matrix %s" % (E, S), size(E), 1e-7)
    ctx.outcome("from_center_and_matrix")


PAR = [(1, 0), (Fr(3, 5), Fr(4, 5)), (0, 1), (Fr(-5, 13), Fr(12, 13)), (-1, 0), (Fr(-4, 5), Fr(-3, 5)), (0, -1), (Fr(12, 13), Fr(-5, 13))]
SETS = [(0, 2, 4, 6, 1), (0, 1, 3, 5, 7), (1, 3, 4, 5, 6), (7, 0, 2, 3, 5), (6, 5, 4, 2, 0), (2, 7, 1, 5, 3)]


def five(ctx, O, u, ab, st, rep):
    E = Ell(O, u, ab[0], ab[1])
    if max(abs(float(v)) for v in O) > 8 * float(E.b) or float(E.a) > 12 * float(E.b):
        raise Skip
    P = [E.at(*PAR[i]) for i in st]
    ctx.state((E.conic.key(), st))
    w = "five points %s of %s" % ([fpt(p) for p in P], E)
    a = [as_pt(p, rep) for p in P]
    proportional(ctx, coeffs(ctx, ctx.call(g.Ellipse.equation_from_five_points, *a), w), E, w, 1e-5)
    chk_ellipse(ctx, ctx.call(g.Ellipse.from_five_points, *a), E.conic, w, size(E), 1e-5)
    ctx.outcome("five points")


class Node(object):
    __slots__ = ("o", "E", "word")

    def __init__(s, o, E, word):
        s.o, s.E, s.word = o, E, word


def init(ctx, E):
    return Node(E.real(ctx), E, repr(E))


def step(ctx, n, op):
    o = n.o
    if op[0] == "equation":
        eq = coeffs(ctx, ctx.call(o.equation), n.word)
        r = ctx.call(g.Ellipse.from_equation, *[float(op[1]) * v for v in eq])
    elif op[0] == "matrix":
        r = ctx.call(g.Ellipse.from_center_and_matrix, o.center, ctx.call(o.shape_matrix))
    elif op[0] == "points":
        P = ctx.call(o.point_from_angle, list(op[1]))
        r = ctx.call(g.Ellipse.from_five_points, *[P[i, :] for i in range(5)])
    elif op[0] == "path":
        P = ctx.call(o.path, 5)
        r = ctx.call(g.Ellipse.from_five_points, *[P[i, :] for i in range(5)])
    elif op[0] == "unit":
        al = float(o.alpha)
        r = ctx.call(g.Ellipse, o.center, o.rmajor, o.rminor, al * PI / 180 if o.degrees else al * 180 / PI, not o.degrees)
    ctx.outcome(op[0])
    return Node(r, n.E, n.word + "; " + show(op))


def check(ctx, n):
    chk_ellipse(ctx, n.o, n.E.conic, n.word, size(n.E), 1e-5)
    o = n.E.real(ctx)
    if float(n.E.a) == float(n.E.b) or float(n.E.a) > 1.05 * float(n.E.b):
        ctx.ok(boolean(ctx.call(n.o.is_equal, o)), "%s is not equal to the original", n.word)


def classify(ctx, A, B, C, D, E, F, k):
    """every equation with small integer coefficients: accepted exactly when it defines an ellipse"""
    Q = ((2 * A, B, D), (B, 2 * C, E), (D, E, 2 * F))
    d4 = 4 * A * C - B * B
    dt = m3det(Q)
    is_ell = d4 > 0 and (A + C) * dt < 0
    vals = [v * k for v in (A, B, C, D, E, F)]
    ctx.state(tuple(vals))
    if not is_ell:
        ctx.refuses(g.Ellipse.from_equation, *vals)
        ctx.outcome("rejected")
        return
    r = ctx.call(g.Ellipse.from_equation, *vals)
    x, y = Fr(B * E - 2 * C * D, d4), Fr(B * D - 2 * A * E, d4)
    q0 = A * x * x + B * x * y + C * y * y + D * x + E * y + F
    con = Conic((x, y), (-A / q0, -B / q0 / 2, -C / q0))
    chk_ellipse(ctx, r, con, "ellipse of equation %s" % vals, 5.0, 1e-6)
    ctx.outcome("ellipse")


def bad_points(ctx, P, swap):
    if swap:
        P = P[::-1]
    a = [as_pt(p) for p in P]
    ctx.state(tuple(P))
    ctx.refuses(g.Ellipse.equation_from_five_points, *a)
    ctx.refuses(g.Ellipse.from_five_points, *a)
    ctx.outcome("rejected")


def bad_matrix(ctx, S, O):
    ctx.state(str(S))
    ctx.refuses(g.Ellipse.from_center_and_matrix, as_pt(O), np.array(S, dtype=float))
    ctx.outcome("rejected")


def scaled(f):
    """the same case k times larger"""
    def h(ctx, k, O, u, ab, *a):
        return f(ctx, mul(k, ept(O)), u, (fr(ab[0]) * k, fr(ab[1]) * k), *a)
    return h


KSC = [Fr(1, 8192), Fr(1, 50), 300, 8192, 1 << 24]


def spaces(tier):
    q = tier == "quick"
    E = [Ell((0, 0), (1, 0), 2, 1), Ell((3, 4), AXES[2], 5, Fr(3, 2), False), Ell((-1, 2), AXES[3], Fr(5, 2), 1, True, 1), Ell((1, 0), (0, 1), 3, 2, False, -1), Ell((1, 1), AXES[4], 2, 2)]
    ops = [("equation", 1), ("equation", -3), ("matrix",), ("points", (0, 70, 150, 215, 300)), ("points", (10, 100, 181, 250, 330)), ("path",), ("unit",)]
    bad = [[(-2, Fr(1, -2)), (-1, -1), (1, 1), (2, Fr(1, 2)), (4, Fr(1, 4))],           # hyperbola xy=1
           [(1, 1), (2, 4), (-1, 1), (-3, 9), (Fr(1, 2), Fr(1, 4))],                    # parabola
           [(2, 0), (-2, 0), (Fr(10, 3), Fr(4, 3)), (Fr(10, 3), Fr(-4, 3)), (Fr(-5, 2), Fr(3, 4))],
           [(0, 0), (1, 0), (2, 0), (0, 1), (3, 2)],                                    # three collinear
           [(0, 0), (1, 1), (2, 2), (3, 3), (0, 5)],
           [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0)],
           [(0, 0), (1, 0), (0, 1), (1, 1), (0, 0)], [(2, 1), (2, 1), (0, 1), (1, 3), (0, 0)], [(2, 1), (3, 3), (3, 3), (1, 3), (0, 0)],
           [(1, 0), (0, 1), (-1, 0), (0, -1), (0, 0)]]
    I = [-1, 0, 1, 2] if q else [-2, -1, 0, 1, 2, 3]
    NR = [(1 + e, 1) for e in LADDER[:5]] + [(2, 1), (Fr(3, 2) , Fr(3, 2) - Fr(1, 2048))]
    NA = near_turns(LADDER[1::2]) + NEAR45
    return [
        Product("conversions, near a circle or an axis", [("center", CEN[:5:2]), ("axis", AX[:3] + NA), ("radii", NR), ("degrees", [True, False]), ("turns", [0, 1])], conversions),
        Product("equation, near a circle or an axis", [("center", CEN[:5:2]), ("axis", AX[:3] + NA), ("radii", NR), ("factor", FACT[:3]), ("rep", ["float"])], exact_equation),
        Product("matrix, near a circle or an axis", [("center", CEN[:5:2]), ("axis", AX[:3] + NA), ("radii", NR), ("rep", ["a"])], exact_matrix),
        Product("five points, near a circle or an axis", [("center", CEN[:5:2]), ("axis", AX[:3] + NA), ("radii", NR), ("points", SETS[::2]), ("rep", ["a"])], five),
        Product("conversions", [("center", CEN), ("axis", AX), ("radii", RAD[:6] if q else RAD), ("degrees", [True, False]), ("turns", [0, 1] if q else [0, 1, -1, 3])], conversions),
        Product("equation", [("center", CEN), ("axis", AX), ("radii", RAD), ("factor", FACT), ("rep", ["float", "int"])], exact_equation),
        Product("matrix", [("center", CEN), ("axis", AX), ("radii", RAD), ("rep", ["a", "t"])], exact_matrix),
        Product("five points", [("center", CEN[:6]), ("axis", AX), ("radii", RAD), ("points", SETS), ("rep", ["a"] if q else ["a", "t"])], five),
        Product("conversions, other scales", [("k", KSC), ("center", CEN[::2]), ("axis", AX[::2]), ("radii", RAD[::2]), ("degrees", [True, False]), ("turns", [0])], scaled(conversions)),
        Product("equation, other scales", [("k", KSC), ("center", CEN[::2]), ("axis", AX[::2]), ("radii", RAD[::2]), ("factor", FACT), ("rep", ["float"])], scaled(exact_equation)),
        Product("matrix, other scales", [("k", KSC), ("center", CEN[::2]), ("axis", AX[::2]), ("radii", RAD[::2]), ("rep", ["a"])], scaled(exact_matrix)),
        Product("five points, other scales", [("k", KSC), ("center", CEN[:6:2]), ("axis", AX[::2]), ("radii", RAD[::2]), ("points", SETS[::2]), ("rep", ["a"])], scaled(five)),
        Tree("round trips", E, ops, 3 if q else 4, init, step, check, key=lambda n: (n.E.conic.key(), n.word), opname=show),
        Product("small equations", [("A", I), ("B", I), ("C", I), ("D", I), ("E", I), ("F", I), ("k", [1] if q else [1, -2])], classify),
        Product("bad points", [("points", bad), ("reversed", [False, True])], bad_points),
        Product("bad matrices", [("S", [[[1, 0], [0, -1]], [[0, 1], [1, 0]], [[-1, 0], [0, -2]], [[1, 2], [2, 1]], [[-3, 1], [1, -3]], [[0, 0], [0, 0]], [[0, 0], [0, 1]]]), ("center", [(0, 0), (1, 2)])], bad_matrix),
    ]
