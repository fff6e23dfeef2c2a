"""Far from the origin: the same figure moved far away gives the same results, moved."""
from mc.lib import *
from mc.core import HarnessError

ASSUMPTIONS = [
    "figures of size one to ten in general position (no tangency, no point on a boundary), moved by up to 2^20 (about a million)",
    "Moebius maps are excluded: their matrices hold products of the coordinates (as are equations of ellipses and their inverse, from_equation)",
]
TOL = 1e-6        # deviations allowed for figures of this size, at a distance of a million


class Moved(object):
    """builds the real objects of a figure turned by u and moved by t"""
    def __init__(self, u, t):
        self.u = complex(*u)
        self.a = math.atan2(u[1], u[0])
        self.t = complex(*t)

    def P(self, p):
        z = complex(float(p[0]), float(p[1])) * self.u + self.t
        return np.array([z.real, z.imag])

    def V(self, p):
        z = complex(float(p[0]), float(p[1])) * self.u
        return np.array([z.real, z.imag])

    def L(self, l):
        return g.Line(self.P(l[0]), self.P(l[1]), *l[2:])

    def C(self, c):
        return g.Circle(self.P(c[0]), c[1])

    def E(self, e):
        return g.Ellipse(self.P(e[0]), e[1], e[2], e[3] + self.a * 180 / PI)

    def T(self, t):
        return g.Triangle(*[self.P(p) for p in t])

    def I(self, i):
        return g.Inversion(self.P(i[0]), i[1])

    def Ps(self, ps):
        return np.array([self.P(p) for p in ps])


PTS = [(0.5, 0.25), (1.25, -0.5), (-1.5, 2), (3, 4.5), (-2.25, -1)]
LINES = [((0.25, 0), (1, 0.5)), ((0, 0.75), (0.5, -3), True, False), ((-2, 1), (3, 1.25)), ((1.5, -1), (1.75, 3)), ((-1, -2), (4, 3.5), False, False)]
CIRCLES = [((0, 0), 2.0), ((3, 1), 1.75), ((-1, 4), 1.25), ((0.5, 0.25), 0.75), ((-6, -5), 1.0), ((4, -4), 2.0), ((1, -0.5), 2.5)]
ELLIPSES = [((0, 0), 2, 1, 0), ((1, 0.5), 3, 2.5, 40), ((-1, 2), 5, 1, 100), ((0.5, 0.25), 0.75, 0.5, 170)]
TRIANGLES = [((0, 0), (1, 0.25), (0.25, 1.5)), ((0, 0), (4, 0), (2.5, 3)), ((-2, 0.5), (2, 0), (0, 1)), ((1, 1), (5, 2), (-3, 4)), ((0, 0), (3, -4), (-4, -2))]
INVERSIONS = [((0.125, 0.0625), 1), ((1, 2.5), -4), ((-3, 0.5), 9)]
QUADS = [((0, 0), (3, 0.5), (4, 3), (0.5, 2)), ((-1, -2), (2, -1.5), (1, 2), (-2, 1)), ((0, 0), (5, 1), (4, 2), (1, 1.75))]
FIVES = [((2, 0), (0, 1), (-2, 0), (0, -1), (1.2, 0.8)), ((3, 1), (1, 2.5), (-1.5, 1), (-1, -1), (1.5, -1))]
POOLS = {"p": PTS, "q": PTS, "l": LINES, "m": LINES, "c": CIRCLES, "d": CIRCLES, "e": ELLIPSES, "h": ELLIPSES, "t": TRIANGLES, "i": INVERSIONS, "z": QUADS, "w": FIVES,
         "b": [False, True], "a": [0.4, 2.0, 3.5], "o": [1.1, 4.0], "n": [3, 5]}
PAIR = lambda c, d: c != d
OPS = []


def op(name, dims, f, cond=None):
    OPS.append((name, dims, f, cond))


for _n in ("includes", "projection", "distance", "reflection", "perpendicular"):
    op("Line." + _n, "lp", lambda k, l, p, n=_n: getattr(k.L(l), n)(k.P(p)))
op("Line.includes strict", "lpb", lambda k, l, p, b: k.L(l).includes(on(k, l, p[0]), b))
op("Line.rotate", "lp", lambda k, l, p: k.L(l).rotate(50, k.P(p)))
op("Line.translate", "lp", lambda k, l, p: k.L(l).translate(k.V(p)))
for _n in ("is_equal", "is_parallel", "is_perpendicular", "intersection_with_line"):
    op("Line." + _n, "lm", lambda k, l, m, n=_n: getattr(k.L(l), n)(k.L(m)))
op("Line.intersection_with_circle", "lc", lambda k, l, c: k.L(l).intersection_with_circle(k.C(c)))
op("Line.intersection_with_ellipse", "le", lambda k, l, e: k.L(l).intersection_with_ellipse(k.E(e)))
op("Line.invert", "li", lambda k, l, i: k.L(l).invert(k.I(i)))
for _n in ("includes", "contains", "power"):
    op("Circle." + _n, "cp", lambda k, c, p, n=_n: getattr(k.C(c), n)(k.P(p)))
for _n in ("radical_center", "radical_axis", "is_orthogonal", "angle", "is_equal", "intersection_with_circle"):
    op("Circle." + _n, "cd", lambda k, c, d, n=_n: getattr(k.C(c), n)(k.C(d)), PAIR)
op("Circle.orthogonal_through_two_points_in_circle", "cpqb", lambda k, c, p, q, b: k.C(((0.5, 0.5), 8)).orthogonal_through_two_points_in_circle(k.P(p), k.P(q), b) if c == CIRCLES[0] else None, lambda c, p, q, b: p != q)
op("Circle.orthogonal_through_two_points_on_circle", "caob", lambda k, c, a, o, b: k.C(c).orthogonal_through_two_points_on_circle(a + k.a, o + k.a, b))
op("Circle.point_from_angle", "ca", lambda k, c, a: k.C(c).point_from_angle(a, False))
op("Circle.as_ellipse", "c", lambda k, c: k.C(c).as_ellipse())
op("mid_circles", "cd", lambda k, c, d: g.mid_circles(k.C(c), k.C(d)), PAIR)
op("from_swapping_two_circles", "cdb", lambda k, c, d, b: g.Inversion.from_swapping_two_circles(k.C(c), k.C(d), b), lambda c, d, b: c != d)
op("from_fixing_two_circles", "cd", lambda k, c, d: g.Inversion.from_fixing_two_circles(k.C(c), k.C(d)), PAIR)
op("radical_center of three", "cd", lambda k, c, d: g.radical_center(k.C(c), k.C(d), k.C(((-4, 2.5), 1.5))), PAIR)
op("from_fixing_three_circles", "cd", lambda k, c, d: g.Inversion.from_fixing_three_circles(k.C(c), k.C(d), k.C(((-4, 2.5), 1.5))), PAIR)
op("circleAB", "pq", lambda k, p, q: g.circleAB(k.P(p), k.P(q)), PAIR)
op("circleOA", "pq", lambda k, p, q: g.circleOA(k.P(p), k.P(q)), PAIR)
op("SteinerChain", "cn", lambda k, c, n: turned(k, g.SteinerChain(k.C(c), n, 0, 0.3)))
op("Inversion.invert", "ip", lambda k, i, p: k.I(i).invert(k.P(p)))
op("Inversion.invert_circle", "ic", lambda k, i, c: k.I(i).invert_circle(k.C(c)))
op("Inversion.invert_gcircle", "il", lambda k, i, l: k.I(i).invert_gcircle(k.L(l)))
op("Inversion.on_circle", "c", lambda k, c: g.Inversion.on_circle(k.C(c)))
for _n in ("includes", "contains"):
    op("Ellipse." + _n, "ep", lambda k, e, p, n=_n: getattr(k.E(e), n)(k.P(p)))
op("Ellipse.contains near the boundary", "eo", lambda k, e, o: {s: k.E(e).contains(near(k, e, o, s)) for s in (0.9999, 1.0001)})
op("Ellipse.includes on the boundary", "eo", lambda k, e, o: {s: k.E(e).includes(near(k, e, o, s)) for s in (0.999, 1.001)})
op("Ellipse.is_equal", "eh", lambda k, e, h: [k.E(e).is_equal(k.E(h)), k.E(e).is_equal(k.E((e[0], e[1], e[2] + 0.001, e[3]))), k.E(e).is_equal(k.E(((e[0][0] + 0.01, e[0][1]), e[1], e[2], e[3])))])
op("Ellipse.shape_matrix", "e", lambda k, e: dict(enumerate(sorted(np.linalg.eigvalsh(k.E(e).shape_matrix()).tolist()))))
op("Ellipse.path", "e", lambda k, e: k.E(e).path(7))
op("Ellipse.point_from_angle", "ea", lambda k, e, a: k.E(e).point_from_angle(a * 50))
op("Ellipse.diameter", "ea", lambda k, e, a: k.E(e).diameter(a, True))
op("Ellipse.from_five_points", "w", lambda k, w: g.Ellipse.from_five_points(*k.Ps(w)))
op("Ellipse.LownerJohnEllipse", "t", lambda k, t: g.Ellipse.LownerJohnEllipse(k.Ps(t)))
op("Ellipse.LownerJohnEllipse of four", "z", lambda k, z: g.Ellipse.LownerJohnEllipse(k.Ps(z)))
op("Ellipse.from_boundary3", "t", lambda k, t: g.Ellipse.from_boundary3(k.Ps(t)))
op("Ellipse.from_boundary4", "z", lambda k, z: g.Ellipse.from_boundary4(k.Ps(z)))
op("from_ellipse_to_ellipse", "eh", lambda k, e, h: act(k, g.Affine.from_ellipse_to_ellipse(k.E(e), k.E(h))))
op("Triangle measures", "t", lambda k, t: [getattr(k.T(t), n) for n in ("flatness", "a", "b", "c", "angleA", "angleB", "angleC", "orientation", "is_acute")])
for _n in ("incircle", "circumcircle", "excircles", "orthic_triangle", "malfatti_circles", "equal_detour_point", "steiner_ellipse", "steiner_inellipse"):
    op("Triangle." + _n, "t", lambda k, t, n=_n: getattr(k.T(t), n)())
op("Triangle.contains", "tp", lambda k, t, p: k.T(t).contains(k.P(p)))
op("Affine.from_mapping_three_points", "t", lambda k, t: act(k, g.Affine.from_mapping_three_points(*(list(k.Ps(TRIANGLES[1])) + list(k.Ps(t))))))
op("cross_ratio", "pz", lambda k, p, z: g.cross_ratio(k.P(p), *k.Ps(z[1:])))
op("Reflection", "lp", lambda k, l, p: three(g.Reflection(k.L(l)), k, p))
op("Reflection of circles and lines", "lmc", lambda k, l, m, c: [g.Reflection(k.L(l)).reflect_line(k.L(m)), g.Reflection(k.L(l)).reflect_circle(k.C(c))])
op("Projection", "lmp", lambda k, l, m, p: three(g.Projection(k.L(l), k.L(m)), k, p), lambda l, m, p: l != m)
op("orthogonal Projection", "lp", lambda k, l, p: three(g.Projection(k.L(l), None), k, p))
op("Rotation", "pqa", lambda k, p, q, a: three(g.Rotation(k.P(p), a, False), k, q))
op("Rotation of curves", "plce", lambda k, p, l, c, e: [g.Rotation(k.P(p), 50).rotate_line(k.L(l)), g.Rotation(k.P(p), 50).rotate_circle(k.C(c)), g.Rotation(k.P(p), 50).rotate_ellipse(k.E(e))])
op("Homothety", "pqa", lambda k, p, q, a: three(g.Homothety(k.P(p), a - 3), k, q))
op("Homothety of circles", "pca", lambda k, p, c, a: g.Homothety(k.P(p), a - 3).transform_circle(k.C(c)))
op("ScalingXY", "pq", lambda k, p, q: three(g.ScalingXY(k.P(p), 2, -3), k, q) if k.u == 1 else None)
op("Scaling", "pqa", lambda k, p, q, a: three(g.Scaling(k.P(p), k.V((1, 2)), a - 3), k, q))
op("Scaling of circles", "pca", lambda k, p, c, a: g.Scaling(k.P(p), k.V((1, 2)), a - 3).scale_circle(k.C(c)))
op("Shear", "pqa", lambda k, p, q, a: three(g.Shear(k.P(p), k.V((1, 2)), 1, 10 * a), k, q))
op("Affine image of ellipses", "lpe", lambda k, l, p, e: g.Rotation(k.P(p), 30).as_affine().transform_ellipse(k.E(e)))


def on(k, l, s):
    A, B = k.P(l[0]), k.P(l[1])
    return A + s / 2 * (B - A)


def near(k, e, o, s):
    t = e[3] * PI / 180
    x, y = e[1] * math.cos(o) * s, e[2] * math.sin(o) * s
    return k.P((e[0][0] + math.cos(t) * x - math.sin(t) * y, e[0][1] + math.sin(t) * x + math.cos(t) * y))


def three(T, k, p):
    """the point, and the same through the matrix forms"""
    M = k.P(p)
    m = T.get3x3matrix()
    return [T.transform(M), T.as_affine().transform(M), np.array([m[0, 0] * M[0] + m[0, 1] * M[1] + m[0, 2], m[1, 0] * M[0] + m[1, 1] * M[1] + m[1, 2]])]


def act(k, A):
    return [A.transform(k.P(p)) for p in PTS]


def turned(k, d):
    """a chain does not turn with the figure: only its radii, and its circles for the unturned figure"""
    if k.u == 1:
        return d
    return [c.radius for c in d["circles"]]


class Far(object):
    """compares results of the near and of the far figure"""
    def __init__(self, t, tol):
        self.t, self.tol = np.array(t), tol

    def same(self, x, y):
        """deviation (inf: different kinds)"""
        inf = math.inf
        if x is None or y is None:
            return 0 if x is y else inf
        if is_bool(x) or is_bool(y):
            return 0 if is_bool(x) and is_bool(y) and bool(x) == bool(y) else inf
        if isinstance(x, dict):
            return max(self.same(x[n], y[n]) for n in x) if isinstance(y, dict) and set(x) == set(y) else inf
        if ispt(x):
            return max(abs(float(y[i]) - float(x[i]) - self.t[i]) for i in (0, 1)) if ispt(y) else inf
        if isinstance(x, np.ndarray):
            return max(self.same(a, b) for a, b in zip(x, y)) if isinstance(y, np.ndarray) and x.shape == y.shape else inf
        if isinstance(x, (list, tuple)):
            if not isinstance(y, (list, tuple)) or len(x) != len(y):
                return inf
            d = max(self.same(a, b) for a, b in zip(x, y))
            if len(x) == 2 and d > self.tol:
                d = min(d, max(self.same(x[0], y[1]), self.same(x[1], y[0])))
            return d
        if isinstance(x, (int, float)):
            return abs(float(y) - float(x)) / max(1.0, abs(float(x))) if isinstance(y, (int, float)) and not is_bool(y) else inf
        if isinstance(x, complex):
            return abs(complex(y) - x) / max(1.0, abs(x))
        if type(x) is not type(y):
            return inf
        if isinstance(x, g.Line):
            if x.extendA != y.extendA or x.extendB != y.extendB:
                return inf
            d = max(fdist_line(fpt(P - self.t), x.A, x.B) for P in (y.A, y.B))
            if not (x.extendA and x.extendB):
                d = max(d, self.same(x.A, y.A), self.same(x.B, y.B))
            return d
        if isinstance(x, g.Arc):
            return max(self.same(x.center, y.center), abs(x.radius - y.radius), self.same(x.starting_point(), y.starting_point()), self.same(x.ending_point(), y.ending_point()))
        if isinstance(x, g.Circle):
            s = max(1.0, x.radius)
            return max(self.same(x.center, y.center), abs(x.radius - y.radius)) / (s * s)
        if isinstance(x, g.Ellipse):
            a = (x.alpha - y.alpha) * (PI / 180 if x.degrees else 1)
            s = max(1.0, x.rmajor)
            return max(self.same(x.center, y.center), abs(x.rmajor - y.rmajor), abs(x.rminor - y.rminor), (x.rmajor - x.rminor) * abs(math.sin(a))) / s
        if isinstance(x, g.Inversion):
            return max(self.same(x.pole, y.pole), abs(x.power - y.power)) / max(1.0, abs(x.power))
        if isinstance(x, g.Reflection):
            return self.same(x.line, y.line)
        if isinstance(x, g.Triangle):
            return max(self.same(getattr(x, n), getattr(y, n)) for n in "ABC")
        raise HarnessError("no comparison for %s" % show(x))


def is_bool(x):
    return isinstance(x, bool) or type(x).__name__ == "bool_"


# their matrices are products with the inverse of a matrix which holds the center
LOOSE = {"Scaling": 20, "Shear": 20, "Reflection": 20}


def compare(ctx, name, dims, f, cond, u, t, args):
    if cond and not cond(*args):
        raise Skip()
    tol = TOL * max(abs(t[0]), abs(t[1]), 1024) / 1e6 * LOOSE.get(name, 1)
    res = []
    for k in (Moved(u, (0, 0)), Moved(u, t)):
        res.append(ctx.call(f, k, *args))
    x, y = res
    far = Far(t, tol)
    d = far.same(x, y)
    ctx.ok(d <= tol, "near the origin: %s; moved by %r: %s (deviation %.3g, allowed %.3g)", show(x), t, show(y), d, tol)
    ctx.state((dims, f.__code__.co_firstlineno, args))
    ctx.outcome(type(x).__name__)


def mk(name, dims, f, cond, q):
    pools = [POOLS[c] for c in dims]
    return Product(name, [("turn", [(1.0, 0.0), (0.6, 0.8)]), ("moved by", MOVES if not q else MOVES[:3])] + [("arg %d" % i, p) for i, p in enumerate(pools)],
                   lambda ctx, u, t, *args: compare(ctx, name, dims, f, cond, u, t, args))


MOVES = [(1048576.0, -1572864.0), (-100000.3, 300000.7), (0.0, 65536.0), (1000.25, -2000.75), (-1048575.1, 0.0), (123456.789, 987654.321)]


def spaces(tier):
    q = tier == "quick"
    return [mk(n, d, f, c, q) for n, d, f, c in OPS]
