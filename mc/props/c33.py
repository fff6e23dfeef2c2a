"""Result contract: every operation on valid objects terminates with a well-formed result of a documented kind."""
import itertools
from mc.lib import *
from mc.triangles import MICRO

ASSUMPTIONS = [
    "objects with ordinary coordinates (frames between 1/8192 and 8192, and far from the origin), including tangent, concentric, parallel, coincident, flat and almost degenerate ones",
    "the value of a result is judged by the other properties; this one judges its kind and its well-formedness",
    "refusals (ValueError) are accepted only where the operation announces one, and only for arguments which it may refuse",
]
PIS = [0, 0.5, PI / 2, 2.0, PI, 3 * PI / 2, -1.0]


# -- well-formedness of results -------------------------------------------------
def finite(ctx, x, what):
    v = num(x, what)
    return v


def array(ctx, x, shape, what):
    try:
        a = np.asarray(x, dtype=float)
    except Exception:
        raise Violation("%s: expected numbers, got %s" % (what, show(x)))
    ctx.ok(a.shape == shape, "%s: expected shape %r, got %r", what, shape, a.shape)
    ctx.ok(bool(np.all(np.isfinite(a))), "%s: not finite: %s", what, show(x))
    return a


def wf(ctx, x, what):
    """a well-formed object of the library"""
    if isinstance(x, g.Line):
        A, B = pt(x.A, what + ".A"), pt(x.B, what + ".B")
        ctx.ok(A != B, "%s: a line through one point %r", what, A)
        boolean(x.extendA, what + ".extendA"), boolean(x.extendB, what + ".extendB")
    elif isinstance(x, g.Arc):
        pt(x.center, what + ".center")
        ctx.ok(num(x.radius, what + ".radius") > 0, "%s: radius %r", what, x.radius)
        num(x.alpha1, what + ".alpha1"), num(x.alpha2, what + ".alpha2"), boolean(x.degrees, what + ".degrees")
    elif isinstance(x, g.Circle):
        pt(x.center, what + ".center")
        ctx.ok(num(x.radius, what + ".radius") > 0, "%s: radius %r", what, x.radius)
    elif isinstance(x, g.Ellipse):
        pt(x.center, what + ".center")
        a, b = num(x.rmajor, what + ".rmajor"), num(x.rminor, what + ".rminor")
        ctx.ok(b > 0, "%s: minor radius %r", what, b)
        ctx.ok(a >= b * (1 - 1e-9), "%s: major radius %r, minor radius %r", what, a, b)
        num(x.alpha, what + ".alpha"), boolean(x.degrees, what + ".degrees")
    elif isinstance(x, g.Triangle):
        for n in "ABC":
            pt(getattr(x, n), what + "." + n)
    elif isinstance(x, g.Inversion):
        pt(x.pole, what + ".pole")
        ctx.ok(num(x.power, what + ".power") != 0, "%s: power zero", what)
    elif isinstance(x, g.Affine):
        array(ctx, x.A, (2, 2), what + ".A"), array(ctx, x.b, (2,), what + ".b")
    elif isinstance(x, g.Mobius):
        m = np.asarray(x.M, dtype=complex)
        ctx.ok(m.shape == (2, 2) and bool(np.all(np.isfinite(m))), "%s: matrix %s", what, show(x.M))
        s = float(np.max(np.abs(m)))
        ctx.ok(s > 0, "%s: zero matrix", what)
        m = m / s
        ctx.ok(abs(m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]) > 0, "%s: singular matrix %s", what, show(x.M))
    elif isinstance(x, g.Reflection):
        wf(ctx, x.line, what + ".line")
    else:
        raise Violation("%s: unexpected %s" % (what, show(x)))


def obj(*classes):
    def f(ctx, x, what):
        ctx.ok(type(x) in classes, "%s: expected %s, got %s", what, " or ".join(c.__name__ for c in classes), show(x))
        wf(ctx, x, what)
        return type(x).__name__
    return f


LINE, CIRC, ELL, ARC, AFF, MOB, TRI, INV = [obj(c) for c in (g.Line, g.Circle, g.Ellipse, g.Arc, g.Affine, g.Mobius, g.Triangle, g.Inversion)]
GC = obj(g.Circle, g.Line)


def opt(f):
    def h(ctx, x, what):
        if x is None:
            return "none"
        return f(ctx, x, what)
    return h


def BOOL(ctx, x, what):
    boolean(x, what)
    return "bool"


def NUM(ctx, x, what):
    num(x, what)
    return "number"


def NONNEG(ctx, x, what):
    ctx.ok(num(x, what) >= 0, "%s: %r is negative", what, x)
    return "number"


def PT(ctx, x, what):
    pt(x, what)
    ctx.ok(isinstance(x, np.ndarray), "%s: a point given as a %s and not as an array: %s", what, type(x).__name__, show(x))
    return "point"


def PT_INF(ctx, x, what):
    if is_infinity(x):
        return "infinity"
    return PT(ctx, x, what)


def PTS(n):
    """None, a point, or a list of up to n points"""
    def h(ctx, x, what):
        if x is None:
            return "none"
        if ispt(x):
            return PT(ctx, x, what)
        ctx.ok(isinstance(x, (list, tuple)) and 2 <= len(x) <= n, "%s: expected None, a point or %d points, got %s", what, n, show(x))
        for i, y in enumerate(x):
            PT(ctx, y, "%s[%d]" % (what, i))
        return "%d points" % len(x)
    return h


def either(*fs):
    """the first contract whose class fits"""
    def h(ctx, x, what):
        err = None
        for f in fs:
            try:
                return f(ctx, x, what)
            except Violation as e:
                err = err or e
        raise err
    return h


def LIST(*fs):
    def h(ctx, x, what):
        ctx.ok(isinstance(x, (list, tuple)) and len(x) == len(fs), "%s: expected a list of %d, got %s", what, len(fs), show(x))
        return ",".join(f(ctx, y, "%s[%d]" % (what, i)) for i, (f, y) in enumerate(zip(fs, x)))
    return h


def REC(**fs):
    def h(ctx, x, what):
        ctx.ok(isinstance(x, dict) and set(x) == set(fs), "%s: expected a dictionary with keys %s, got %s", what, sorted(fs), show(x))
        for k in fs:
            fs[k](ctx, x[k], "%s[%r]" % (what, k))
        return "record"
    return h


def ARR(*shape):
    def h(ctx, x, what):
        array(ctx, x, shape, what)
        return "array"
    return h


def COMPLEX(ctx, x, what):
    try:
        z = complex(x)
    except Exception:
        raise Violation("%s: expected a complex number, got %s" % (what, show(x)))
    ctx.ok(z == z and abs(z) < 1e300, "%s: %r", what, z)
    return "complex"


def NONE(ctx, x, what):
    ctx.ok(x is None, "%s: expected None, got %s", what, show(x))
    return "none"


def STR(ctx, x, what):
    ctx.ok(isinstance(x, str), "%s: expected a string, got %s", what, show(x))
    return "string"


def KW(**k):
    def h(ctx, x, what):
        ctx.ok(type(x) is int and x in k["among"], "%s: %r", what, x)
        return "int"
    return h


def run(ctx, contract, f, *a, **k):
    """one execution: no exception, and the result fulfils the contract; may=True accepts ValueError"""
    may = k.pop("may", False)
    name = getattr(f, "__qualname__", str(f))
    if may:
        ctx.transitions += 1
        try:
            r = f(*a)
        except ValueError:
            ctx.outcome("refused")
            return
        except Exception as e:
            raise Violation("%s(%s) raised %s: %s" % (name, ", ".join(show(x) for x in a), type(e).__name__, e))
    else:
        r = ctx.call(f, *a)
    kind = contract(ctx, r, name)
    ctx.outcome("%s -> %s" % (name, kind))
    return r


# -- pools (exact, in model coordinates) --------------------------------------------
P5 = [(0, 0), (1, 0), (0, 1), (-1, 2), (3, 4)]
LN = [((0, 0), (1, 0)), ((0, 0), (0, 1)), ((0, 1), (1, 1)), ((1, -1), (1, 3)), ((0, 0), (1, 1)), ((1, 0), (0, 1)),
      ((-2, -1), (3, 4)), ((2, 0), (5, 0)), ((0, 2), (1, 2)), ((0, 0), (1 << 12, 1)), ((0, 0), (Fr(1, 1 << 12), 0)), ((0, 5), (4, 2))]
FLAGS = [(True, True), (False, False), (True, False)]
CI = [((0, 0), 1), ((1, 0), 1), ((2, 0), 1), ((0, 0), 2), ((1, 0), 2), ((3, 0), 1), ((0, 3), 2), ((0, 0), 5), ((3, 4), 5), ((0, 1), 1),
      ((-2, -1), Fr(1, 2)), ((Fr(1, 1 << 16), 0), 1), ((0, 0), 1 + Fr(1, 1 << 16)), ((0, 4096), 4095), ((1, 1), Fr(1, 4096)), ((3, 0), 2)]
EL = [((0, 0), 2, 1, 0, True), ((0, 0), 2, 1, 90, True), ((1, 0), 1, 1, 30, True), ((1, 1), 3, 1, PI / 4, False),
      ((0, 0), 5, 4, 45, True), ((0, 1), 2, 2, 0, True), ((2, 1), 5, Fr(1, 8), 180, True), ((0, 0), 1 + Fr(1, 1 << 20), 1, -30, True)]
TR = [((0, 0), (1, 0), (0, 1)), ((0, 0), (0, 1), (1, 0)), ((0, 0), (1, 0), (1, 1)), ((0, 0), (4, 0), (2, 3)), ((0, 0), (3, 4), (-4, 3)),
      ((-2, 0), (2, 0), (0, Fr(1, 2))), ((0, 0), (16, 0), (8, 1)), ((0, 0), (1, 0), (1, 16)), ((0, 0), (4, 0), (2, Fr(7, 2))), ((-1, 0), (1, 0), (0, 1)),
      ((1, 1), (5, 2), (-3, 4)), ((0, 0), (2, 0), (1, Fr(1774, 1024)))]
FLAT = [((0, 0), (2, 0), (1, 0)), ((0, 0), (0, 0), (1, 1)), ((1, 1), (1, 1), (1, 1)), ((0, 0), (1, 3), (2, 6)), ((0, 0), (1, 3), (0, 0)), ((-1, 0), (1, 1), (3, 2))]
IV = [((0, 0), 1), ((0, 0), -1), ((1, 0), 4), ((1, 0), -4), ((0, 1), 2), ((1, 1), 1), ((3, 0), 5), ((2, 1), Fr(1, 1024))]
AM = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((2, 0), (0, 1)), ((1, 1), (0, 1)), ((-1, 0), (0, -1)), ((3, -4), (4, 3)), ((1, 2), (3, 4)), ((1000, 0), (0, 1))]
SING = [((1, 2), (2, 4)), ((0, 0), (0, 0)), ((0, 1), (0, 0)), ((3, 0), (0, 0))]
MO = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((1, 1), (0, 1)), ((2, 0), (0, 1)), ((1j, 0), (0, 1)), ((1, 1), (1, 2)), ((1, -1), (1, 1)),
      ((2, -1), (1, 0)), ((1, -1j), (1, 1j)), ((0, -1), (1, 0)), ((-1, 0), (0, 1)), ((1, 0), (1, 1)), ((2, 0), (0, 2)), ((0, 1j), (1j, 0)),
      ((3, -2j), (2j, -1)), ((1, 4096), (0, 1)), ((1 + 1e-9, 1), (0, 1)), ((1, 1), (-1, 0)), ((0, 2j), (1, 1e-6))]


class Pool(object):
    """the real objects of one frame"""
    cache = {}

    def __new__(cls, f):
        if f.name in cls.cache:
            return cls.cache[f.name]
        s = cls.cache[f.name] = object.__new__(cls)
        s.f = f
        return s

    def P(self, p):
        return as_pt(self.f(p))

    def L(self, l, fl=(True, True)):
        return g.Line(self.P(l[0]), self.P(l[1]), fl[0], fl[1])

    def C(self, c):
        return g.Circle(self.P(c[0]), float(self.f.len(c[1])))

    def E(self, e):
        t = e[3] + (self.f.turn() if not e[4] else self.f.turn() * 180 / PI)
        return g.Ellipse(self.P(e[0]), float(self.f.len(e[1])), float(self.f.len(e[2])), t, e[4])

    def T(self, t):
        return g.Triangle(*[self.P(p) for p in t])

    def I(self, i):
        return g.Inversion(self.P(i[0]), float(i[1] * self.f.scale2))

    def A(self, m, b):
        return g.Affine(np.array(m, dtype=float), np.array(self.f(b), dtype=float))


def turn(self):
    return math.atan2(float(self.u.im), float(self.u.re))


Frame.turn = turn


def short(f, *ls):
    """lines whose points are not well separated (the coincidence tolerance of the library) are not lines"""
    for (a, b), (c, d) in ls:
        if f.fscale * math.hypot(float(c - a), float(d - b)) < 2e-6 * max(1.0, f.size(1) / 10):
            raise Skip()


def micro(f, *cs):
    """circles of ordinary size in a microscopic frame (and the other way round) are below the coincidence tolerance"""
    for c in cs:
        if not 2e-6 < float(f.len(c[1])) or (f.fscale < 1e-4 and c[1] > 100):
            raise Skip()


# -- operations ------------------------------------------------------------------------
def lines(ctx, f, l, fl, p):
    k = Pool(f)
    short(f, l)
    L, p = k.L(l, fl), k.P(p)
    r = lambda c, o, *a: run(ctx, c, o, *a)
    r(REC(direction=NUM, offset=NONNEG), L.direction_offset)
    r(BOOL, L.includes, p), r(BOOL, L.includes, p, True)
    r(PT, L.projection, p), r(NONNEG, L.distance, p), r(PT, L.reflection, p), r(LINE, L.translate, p)
    for a in (True, False):
        for b in (True, False):
            r(LINE, L.perpendicular, p, a, b)
    for a in (0, 90, 45.5, -720):
        r(LINE, L.rotate, a, p), r(LINE, L.rotate, a, p, False)
    r(STR, L.__str__), r(NONE, L.show)


def line_line(ctx, f, l, fl, m, fm):
    k = Pool(f)
    short(f, l, m)
    L, M = k.L(l, fl), k.L(m, fm)
    r = lambda c, o, *a: run(ctx, c, o, *a)
    for o in (L.is_equal, L.is_parallel, L.is_perpendicular):
        r(BOOL, o, M)
    X = either(PTS(1), LINE)
    r(X, L.intersection_with_line, M), r(X, L.intersection_with_line, M, True), r(X, g.intersection_line_line, L, M)
    R = ctx.call(g.Reflection, L)
    for o in (R.reflect_line, R.transform_line):
        r(LINE, o, M)


def line_curve(ctx, f, l, c):
    k = Pool(f)
    short(f, l)
    L, C = k.L(l), k.C(c)
    r = lambda q, o, *a: run(ctx, q, o, *a)
    r(PTS(2), L.intersection_with_circle, C), r(PTS(2), C.intersection_with_line, L), r(PTS(2), g.intersection_circle_line, C, L)
    r(PTS(2), g.intersection_ellipse_line, C, L), r(PTS(2), L.intersection_with_ellipse, C)
    R = ctx.call(g.Reflection, L)
    r(CIRC, R.reflect_circle, C), r(CIRC, R.transform_circle, C)


def line_ellipse(ctx, f, l, fl, e):
    k = Pool(f)
    short(f, l)
    L, E = k.L(l, fl), k.E(e)
    for o, a in ((L.intersection_with_ellipse, (E,)), (E.intersection_with_line, (L,)), (g.intersection_ellipse_line, (E, L))):
        run(ctx, PTS(2), o, *a)


def one_circle(ctx, f, c, p):
    k = Pool(f)
    C, M = k.C(c), k.P(p)
    r = lambda q, o, *a: run(ctx, q, o, *a)
    r(BOOL, C.includes, M), r(BOOL, C.contains, M), r(NUM, C.power, M)
    for t in (0, 1, 90, -400, 1e6):
        r(PT, C.point_from_angle, t), r(PT, C.point_from_angle, t, False)
    r(ELL, C.as_ellipse), r(INV, g.Inversion.on_circle, C)
    for n in (1, 3):
        r(ARR(n, 2), C.random_points, n), r(ARR(n, 2), C.random_points, n, "on")
    r(STR, C.__str__), r(NONE, C.show)


def orthogonal_in(ctx, f, c, p, q):
    k = Pool(f)
    micro(f, c)
    C, M, N = k.C(c), k.P(p), k.P(q)
    for arc, T in ((False, GC), (True, obj(g.Arc, g.Line))):
        run(ctx, T, C.orthogonal_through_two_points_in_circle, M, N, arc, may=True)


def orthogonal_on(ctx, f, c, a, b):
    micro(f, c)
    C = Pool(f).C(c)
    for arc, T in ((False, GC), (True, obj(g.Arc, g.Line))):
        run(ctx, T, C.orthogonal_through_two_points_on_circle, a, b, arc, may=a == b)


def concentric(c, d):
    return math.hypot(float(c[0][0] - d[0][0]), float(c[0][1] - d[0][1])) < 1e-3


def two_circles(ctx, f, c, d):
    k = Pool(f)
    micro(f, c, d)
    C, D = k.C(c), k.C(d)
    r = lambda q, o, *a: run(ctx, q, o, *a)
    r(BOOL, C.is_orthogonal, D), r(BOOL, C.is_equal, D), r(opt(NUM), C.angle, D)
    r(opt(LINE), C.radical_axis, D)
    X = either(PTS(2), CIRC)
    r(X, C.intersection_with_circle, D), r(X, g.intersection_circle_circle, C, D)
    if not concentric(c, d):
        r(PT, C.radical_center, D), r(INV, g.Inversion.from_fixing_two_circles, C, D)
    r(either(GC, LIST(CIRC, GC)), g.mid_circles, C, D)
    for s in (True, False):
        r(either(INV, obj(g.Reflection)), g.Inversion.from_swapping_two_circles, C, D, s)
    r(MOB, g.Mobius.from_mapping_one_circle, C, D)
    r(AFF, g.Affine.from_ellipse_to_ellipse, C, D)


def three_circles(ctx, f, c, d, e):
    k = Pool(f)
    (x1, y1), (x2, y2), (x3, y3) = c[0], d[0], e[0]
    if abs((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)) < Fr(1, 100):
        raise Skip()          # centres on a line: no radical center
    micro(f, c, d, e)
    if min(f.fscale * math.hypot(float(p[0][0] - q[0][0]), float(p[0][1] - q[0][1])) for p, q in ((c, d), (c, e), (d, e))) < 1e-6:
        raise Skip()
    C = [k.C(c), k.C(d), k.C(e)]
    run(ctx, PT, g.radical_center, *C)
    # a radical center on the circles: no inversion fixes them (its power would be zero)
    R = ctx.call(g.radical_center, *C)
    if abs(num(ctx.call(C[0].power, R))) > 1e-9 * (f.size() ** 2):
        run(ctx, INV, g.Inversion.from_fixing_three_circles, *C)


def one_ellipse(ctx, f, e, p):
    k = Pool(f)
    E, M = k.E(e), k.P(p)
    r = lambda q, o, *a: run(ctx, q, o, *a)
    r(BOOL, E.includes, M), r(BOOL, E.contains, M)
    r(REC(**{n: NUM for n in "ABCDEF"}), E.equation), r(ARR(2, 2), E.shape_matrix)
    for n in (1, 2, 5):
        r(ARR(n, 2), E.path, n)
    r(ARR(2, 2), E.random_points, 2), r(ARR(2, 2), E.random_points, 2, "on")
    for t in (0, 90, 180, 45, -90, 360, 1e-3, 1e6):
        for d in (True, False):
            r(PT, E.point_from_angle, t, d), r(NUM, E.theta2t, t, d)
        r(PT, E.normal, t), r(LINE, E.diameter, t), r(LIST(LINE, LINE), E.diameter, t, True)
    r(STR, E.__str__), r(NONE, E.show)


def two_ellipses(ctx, f, e, h):
    k = Pool(f)
    E, F = k.E(e), (k.E(h) if len(h) == 5 else k.C(h))
    run(ctx, BOOL, E.is_equal, F)
    run(ctx, AFF, g.Affine.from_ellipse_to_ellipse, E, F)
    if len(h) == 2:
        run(ctx, AFF, g.Affine.from_ellipse_to_ellipse, F, E)


def triangle(ctx, f, t, p):
    k = Pool(f)
    T, M = k.T(t), k.P(p)
    r = lambda q, o, *a: run(ctx, q, o, *a)

    def prop(q, n):
        v = ctx.get(T, n)
        ctx.outcome("%s -> %s" % (n, q(ctx, v, "Triangle." + n)))
    for n in ("flatness", "a", "b", "c", "angleA", "angleB", "angleC"):
        prop(NONNEG, n)
    prop(REC(a=NONNEG, b=NONNEG, c=NONNEG), "edges")
    prop(KW(among=(-1, 0, 1)), "orientation"), prop(BOOL, "is_acute")
    r(BOOL, T.contains, M), r(STR, T.__str__), r(NONE, T.show)
    r(ARR(2, 2), T.random_points, 2)
    flat = t in FLAT
    q = opt if flat else (lambda c: c)
    r(q(CIRC), T.circumcircle)
    r(q(ELL), T.steiner_ellipse), r(q(ELL), T.steiner_inellipse)
    abc = lambda c: REC(A=c, B=c, C=c)
    if flat:
        r(opt(REC(circles=abc(CIRC), tangency_points=REC(TA=PT, TB=PT, TC=PT))), T.malfatti_circles)
        return
    r(ARR(2, 2), T.random_points, 2, "on")
    r(CIRC, T.incircle), r(abc(CIRC), T.excircles), r(TRI, T.orthic_triangle)

    def malfatti(ctx, x, what):
        ctx.ok(isinstance(x, dict) and len(x) == 2, "%s: got %s", what, show(x))
        for v in x.values():
            ctx.ok(isinstance(v, dict) and len(v) == 3, "%s: got %s", what, show(x))
            for y in v.values():
                either(CIRC, PT)(ctx, y, what)
        return "record"
    r(malfatti, T.malfatti_circles)
    r(LIST(PT, NUM), T.equal_detour_point)


def inversion(ctx, f, i, j, o):
    k = Pool(f)
    if f.fscale < 1e-4 and i[1] < 1e-2:
        raise Skip()
    I, J = k.I(i), k.I(j)
    for s in (True, False):
        run(ctx, MOB, I.compose, J, s)
    if o[0] == "p":
        run(ctx, PT_INF, I.invert, k.P(o[1]))
    elif o[0] == "inf":
        run(ctx, PT, I.invert, math.inf)
    elif o[0] == "c":
        micro(f, o[1])
        C = k.C(o[1])
        run(ctx, GC, I.invert_circle, C), run(ctx, GC, I.invert_gcircle, C)
    else:
        short(f, o[1])
        L = k.L(o[1])
        run(ctx, GC, I.invert_line, L), run(ctx, GC, I.invert_gcircle, L), run(ctx, GC, L.invert, I)
    run(ctx, STR, I.__str__), run(ctx, NONE, I.show)


def steiner(ctx, f, c, n, phi, shift):
    C = Pool(f).C(c)
    res = run(ctx, lambda x, y, w: "record", g.SteinerChain, C, n, phi, shift)
    ctx.ok(isinstance(res, dict) and set(res) == {"circles", "ellipse"}, "SteinerChain: got %s", show(res))
    LIST(*[CIRC] * (n + 1))(ctx, res["circles"], "SteinerChain circles")
    ELL(ctx, res["ellipse"], "SteinerChain ellipse")


def affine(ctx, f, m, b, o):
    k = Pool(f)
    A = k.A(m, b)
    sing = m in SING
    q = opt if sing else (lambda c: c)
    r = lambda c, h, *a: run(ctx, c, h, *a)
    if o[0] == "l":
        short(f, o[1])
    if o[0] == "p":
        r(PT, A.transform, k.P(o[1])), r(q(AFF), A.inverse), r(ARR(3, 3), A.get3x3matrix), r(STR, A.__str__), r(NONE, A.show)
    elif o[0] == "l":
        r(q(LINE), A.transform_line, k.L(o[1]))
    elif o[0] == "c":
        r(q(ELL), A.transform_ellipse, k.C(o[1]))
    elif o[0] == "e":
        r(q(ELL), A.transform_ellipse, k.E(o[1]))
    else:
        B = k.A(o[1], (1, -2))
        for s in (True, False):
            r(AFF, A.compose, B, s)


def elementary(k):
    """one elementary transformation of every kind and degree of degeneracy: (name, object, singular)"""
    P, L = k.P, k.L
    out = []
    for c in ((0, 0), (1, 2)):
        for t, d in ((0, True), (90, True), (180, True), (PI, False), (-30, True), (720, True), (1e5, False)):
            out.append(("Rotation", g.Rotation(P(c), t, d), False))
        for s in (0, 1, -1, 2, -0.5):
            out.append(("Homothety", g.Homothety(P(c), s), s == 0))
            for v in ((1, 0), (0, 1), (1, 1), (-3, 4)):
                out.append(("Scaling", g.Scaling(P(c), as_pt(k.f.vec(v)), s), s == 0))
            for u in (0, 1, 3):
                out.append(("ScalingXY", g.ScalingXY(P(c), s, u), s * u == 0))
        for v in ((1, 0), (0, 1), (1, 1)):
            for q in (1, 2):
                for a in (0, 45, -30):
                    out.append(("Shear", g.Shear(P(c), as_pt(k.f.vec(v)), q, a), False))
    for l in LN[:9]:
        out.append(("Reflection", g.Reflection(L(l)), False))
    for l, m in ((LN[0], None), (LN[0], LN[1]), (LN[4], LN[5]), (LN[6], LN[0]), (LN[3], None), (LN[11], LN[2]), (LN[5], None)):
        out.append(("Projection", g.Projection(L(l), None if m is None else L(m)), True))
    return out


NEL = 146


def elem(ctx, f, i, o):
    k = Pool(f)
    if not hasattr(k, "el"):
        k.el = elementary(k)
    assert len(k.el) == NEL, len(k.el)
    nm, T, sing = k.el[i]
    r = lambda c, h, *a, **kw: run(ctx, c, h, *a, **kw)
    if o[0] == "p":
        M = k.P(o[1])
        r(PT, T.transform, M)
        for n in ("reflect", "project", "rotate"):
            if hasattr(T, n):
                r(PT, getattr(T, n), M)
        if nm not in ("Reflection", "Projection"):
            r(ARR(3, 2), T.transform, np.array([M, k.P((0, 0)), k.P((5, 1))]))
        r(ARR(3, 3), T.get3x3matrix), r(AFF, T.as_affine), r(STR, T.__str__), r(NONE, T.show)
        A = k.A(((1, 2), (3, 4)), (1, 1))
        for s in (True, False):
            r(AFF, A.compose, T, s)
    elif o[0] == "c":
        C = k.C(o[1])
        for n in ("reflect_circle", "transform_circle", "rotate_circle"):
            if hasattr(T, n):
                r(CIRC, getattr(T, n), C, may=sing)
        if hasattr(T, "scale_circle"):
            r(ELL, T.scale_circle, C, may=sing)
        if not sing:
            r(ELL, T.as_affine().transform_ellipse, C)
    elif o[0] == "l":
        short(f, o[1])
        L = k.L(o[1])
        for n in ("reflect_line", "transform_line", "rotate_line"):
            if hasattr(T, n):
                r(LINE, getattr(T, n), L)
        if not sing:
            r(LINE, T.as_affine().transform_line, L)
    else:
        E = k.E(o[1])
        for n in ("rotate_ellipse", "transform_ellipse"):
            if hasattr(T, n):
                r(ELL, getattr(T, n), E)
        if not sing:
            r(ELL, T.as_affine().transform_ellipse, E)


def mobius(ctx, f, m, o):
    k = Pool(f)
    M = g.Mobius([[complex(x) for x in row] for row in m])
    if o[0] == "l":
        short(f, o[1])
    r = lambda c, h, *a: run(ctx, c, h, *a)
    if o[0] == "p":
        r(PT_INF, M.transform, k.P(o[1]))
    elif o[0] == "inf":
        r(PT_INF, M.transform, math.inf)
        r(MOB, M.inverse), r(STR, M.__str__), r(NONE, M.show)

        def fixed(ctx, x, what):
            if x is None:
                return "everything"
            return either(PT_INF, LIST(PT_INF, PT_INF))(ctx, x, what)
        r(fixed, M.fixed_points)
        for n in (-3, -1, 0, 1, 2, 5):
            r(MOB, M.power, n)
        for t in (-3, -1, 0, 0.5, 2, -0.25, 1.0):
            r(MOB, M.gpower, t)
    elif o[0] == "c":
        r(GC, M.transform_circle, k.C(o[1]))
    elif o[0] == "l":
        r(GC, M.transform_line, k.L(o[1]))
    else:
        N = g.Mobius([[complex(x) for x in row] for row in o[1]])
        for s in (True, False):
            r(MOB, M.compose, N, s)


def three_images(ctx, f, p, q):
    """three distinct points to three points (inf allowed for Moebius maps)"""
    k = Pool(f)
    P_ = [k.P(x) if x is not None else math.inf for x in p]
    Q_ = [k.P(x) if x is not None else math.inf for x in q]
    good = lambda t: all(t[i] != t[j] for i in range(3) for j in range(i))
    M = opt(MOB) if not (good(p) and good(q)) else MOB
    run(ctx, M, g.Mobius.from_mapping_three_points, *(P_ + Q_))
    if None not in p and None not in q:
        def tri(t):
            (a, b), (c, d), (e, h) = t
            return (c - a) * (h - b) != (e - a) * (d - b)
        run(ctx, AFF if tri(p) and tri(q) else opt(AFF), g.Affine.from_mapping_three_points, *(P_ + Q_))


def constructors(ctx, f, p, q):
    k = Pool(f)
    A, B = k.P(p), k.P(q)
    for c, h in ((CIRC, g.circleAB), (CIRC, g.circleOA), (LINE, g.Line)):
        run(ctx, c, h, A, B, may=p == q)


def ratio(ctx, f, a, b, c, d):
    k = Pool(f)
    t = (a, b, c, d)
    run(ctx, COMPLEX, g.cross_ratio, *[k.P(x) if x is not None else math.inf for x in t], may=len(set(t)) < 4 or None in t)


def idet(m):
    """determinant of an integer matrix"""
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * x * idet([r[:j] + r[j + 1:] for r in m[1:]]) for j, x in enumerate(m[0]) if x)


def five(ctx, f, t):
    k = Pool(f)
    rows = [[x * x, x * y, y * y, x, y, 1] for x, y in t]
    co = [(-1) ** j * idet([r[:j] + r[j + 1:] for r in rows]) for j in range(6)]
    A, B, C, D, E, F_ = co
    d = 4 * A * C - B * B
    if d == 0:
        raise Skip()          # several conics, a parabola or parallel lines
    big = idet([[2 * A, B, D], [B, 2 * C, E], [D, E, 2 * F_]])
    if d < 0 or big == 0:
        ctx.refuses(g.Ellipse.from_five_points, *[k.P(p) for p in t])
        ctx.outcome("refused")
    else:
        run(ctx, ELL, g.Ellipse.from_five_points, *[k.P(p) for p in t])


def equation(ctx, A, B, C, D, E, F):
    if 4 * A * C - B * B > 0 and (A + C) * idet([[2 * A, B, D], [B, 2 * C, E], [D, E, 2 * F]]) < 0:
        run(ctx, ELL, g.Ellipse.from_equation, A, B, C, D, E, F)
    else:
        ctx.refuses(g.Ellipse.from_equation, A, B, C, D, E, F)
        ctx.outcome("refused")


def general(t):
    for i in range(len(t)):
        for j in range(i):
            for l in range(j):
                (a, b), (c, d), (e, h) = t[i], t[j], t[l]
                if (c - a) * (h - b) == (e - a) * (d - b):
                    return False
    return True


def hull(t):
    """the points are in convex position"""
    n = len(t)
    for i in range(n):
        for j in range(n):
            for l in range(j):
                for m in range(l):
                    if i in (j, l, m):
                        continue
                    s = [(t[b][0] - t[a][0]) * (t[i][1] - t[a][1]) - (t[b][1] - t[a][1]) * (t[i][0] - t[a][0]) for a, b in ((j, l), (l, m), (m, j))]
                    if all(x > 0 for x in s) or all(x < 0 for x in s):
                        return False
    return True


def boundary(ctx, f, t):
    k = Pool(f)
    X = np.array([k.P(p) for p in t])
    if len(t) == 3:
        run(ctx, ELL, g.Ellipse.from_boundary3, X)
    elif len(t) == 4 and hull(t):
        run(ctx, ELL, g.Ellipse.from_boundary4, X)
    run(ctx, ELL, g.Ellipse.LownerJohnEllipse, X)


def arcs(ctx, f, c, a, b, d):
    k = Pool(f)
    A = g.Arc(k.P(c[0]), float(f.len(c[1])), a, b, d)
    for n in (1, 2, 5):
        run(ctx, ARR(n, 2), A.path, n)
    run(ctx, PT, A.starting_point), run(ctx, PT, A.ending_point), run(ctx, STR, A.__str__)


def spaces(tier):
    th = tier != "quick"
    FR = (FRAMES + MICRO[:1]) if th else [FRAMES[i] for i in (0, 2, 3, 8, 9, 10)] + MICRO[:1]
    FQ = FRAMES + MICRO[:1] if th else [FRAMES[i] for i in (0, 2, 9)]
    fr = ("frame", FR)
    fq = ("frame", FQ)
    ob = [("p", p) for p in P5] + [("c", c) for c in CI] + [("l", l) for l in LN]
    tri3 = [(a, b, c) for a in P5[:3] + [None] for b in P5[1:4] + [None] for c in P5[:4] + [None]]
    pts = grid(1 if not th else 2)
    tup3 = [t for t in itertools.permutations(P5 + [(2, 1)], 3) if general(t)]
    tup4 = [t for t in itertools.combinations(grid(1), 4) if general(t)]
    tup5 = [t for t in itertools.combinations(grid(-1 if th else 0, 2), 5)]
    return [
        Product("one line", [fr, ("line", LN), ("flags", FLAGS), ("point", P5)], lines),
        Product("two lines", [fr, ("line", LN), ("flags", FLAGS), ("line 2", LN), ("flags 2", FLAGS[:2])], line_line),
        Product("line and circle", [fr, ("line", LN), ("circle", CI)], line_curve),
        Product("line and ellipse", [fr, ("line", LN), ("flags", FLAGS), ("ellipse", EL)], line_ellipse),
        Product("one circle", [fr, ("circle", CI), ("point", P5)], one_circle),
        Product("orthogonal circles through points", [fr, ("circle", CI[:12]), ("p", P5 + [(Fr(1, 2), 0), (Fr(1, 4), Fr(1, 4)), (Fr(-1, 2), 0)]), ("q", P5 + [(Fr(1, 2), 0), (Fr(1, 4), Fr(1, 4)), (Fr(-1, 2), 0)])], orthogonal_in),
        Product("orthogonal circles through two directions", [fr, ("circle", CI), ("a", PIS), ("b", PIS)], orthogonal_on),
        Product("two circles", [fr, ("circle", CI), ("circle 2", CI)], two_circles),
        Product("three circles", [fq, ("circle", CI), ("circle 2", CI[1::2]), ("circle 3", CI[::3])], three_circles),
        Product("one ellipse", [fr, ("ellipse", EL), ("point", P5)], one_ellipse),
        Product("two ellipses", [fr, ("ellipse", EL), ("ellipse 2", EL + CI)], two_ellipses),
        Product("triangles", [fr, ("triangle", TR + FLAT), ("point", P5)], triangle),
        Product("inversions", [fr, ("inversion", IV), ("inversion 2", IV[:3]), ("object", ob + [("inf",)])], inversion),
        Product("Steiner chains", [fr, ("circle", CI[:8]), ("n", [3, 4, 7, 12]), ("phi", [0, 0.5, -0.9]), ("shift", [0, 1, 0.3])], steiner),
        Product("affine maps", [fr, ("matrix", AM + SING), ("b", [(0, 0), (1, 2)]), ("object", ob + [("e", e) for e in EL] + [("m", m) for m in AM + SING])], affine),
        Product("elementary transformations", [fr, ("map", range(NEL)), ("object", ob[:5] + ob[5:9] + ob[21:26] + [("e", e) for e in EL[:4]])], elem),
        Product("Moebius maps", [fr, ("map", MO), ("object", ob + [("inf",)] + [("m", m) for m in MO])], mobius),
        Product("maps from three points", [fq, ("points", tri3), ("images", tri3)], three_images),
        Product("constructors from two points", [fr, ("p", grid(2)), ("q", grid(2))], constructors),
        Product("cross-ratios", [fq, ("a", P5 + [None]), ("b", P5 + [None]), ("c", P5 + [None]), ("d", P5 + [None])], ratio),
        Product("ellipses through five points", [fq, ("points", tup5)], five),
        Product("ellipses from equations", [(n, (-1, 0, 1, 2) if not th else (-1, 0, 1, 2, 3)) for n in "ABCDEF"], equation),
        Product("bounding ellipses", [fq, ("points", tup3 + tup4)], boundary),
        Product("arcs", [fr, ("circle", CI), ("a", [0, 350, PI, -30]), ("b", [0, 90, 10, 400, -200]), ("degrees", [True, False])], arcs),
    ]
