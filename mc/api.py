"""The whole public API as a typed menu of calls on a pool of shared objects.

Used by the checks of purity (C27), representations (C28), validation (C29) and
concurrency (C31).  An argument descriptor knows its type, so a check can build it in any
representation, replace it by an invalid value, or share one caller array among calls.
"""
import math, os, sys, warnings
import numpy as np
import planegeometry.geometry as g
from mc import rng

PI = math.pi


class Arg(object):
    kind = "?"

    def __init__(self, *v):
        self.v = v[0] if len(v) == 1 else v

    def __repr__(self):
        return "%s%r" % (self.kind, self.v)


class P(Arg):
    kind = "point"


class V(Arg):
    kind = "vector"


class N(Arg):
    kind = "number"


class POS(Arg):
    kind = "positive"


class ANG(Arg):
    """degrees; the flag (a D argument of the same call) selects the unit"""
    kind = "angle"


class RAD(Arg):
    """an angle that is always in radians"""
    kind = "number"


class D(Arg):
    kind = "degrees"


class B(Arg):
    kind = "flag"


class BU(Arg):
    """a flag that the library does not validate"""
    kind = "unchecked flag"


class I(Arg):
    kind = "integer"


class W(Arg):
    kind = "where"


class O(Arg):
    kind = "object"


class ARR(Arg):
    kind = "points"


class MAT(Arg):
    kind = "matrix"


class RAW(Arg):
    kind = "raw"


class Call(object):
    def __init__(self, target, *args):
        self.target, self.args = target, args

    @property
    def name(self):
        return "%s(%s)" % (self.target, ", ".join(repr(a.v) for a in self.args))

    def __repr__(self):
        return self.name

    def is_property(self):
        return ":" in self.target

    def function(self, pool):
        t = self.target
        if t.startswith("@"):
            if ":" in t:
                k, a = t[1:].split(":")
                o = pool[k]
                return lambda: getattr(o, a)
            k, a = t[1:].split(".")
            return getattr(pool[k], a)
        f = g
        for p in t.split("."):
            f = getattr(f, p)
        return f

    def receiver(self):
        t = self.target
        if t.startswith("@"):
            return t[1:].replace(":", ".").split(".")[0]
        return None


# objects of the pool: name -> constructor call (may refer to earlier objects)
POOL = [
    ("L1", Call("Line", P(0, 0), P(4, 2), B(True), B(True))),
    ("L2", Call("Line", P(1, 5), P(3, -1), B(True), B(False))),
    ("L3", Call("Line", P(8, 1), P(10, 2), B(False), B(False))),
    ("C1", Call("Circle", P(1, 2), POS(5))),
    ("C2", Call("Circle", P(6, 2), POS(3))),
    ("C3", Call("Circle", P(0, -9), POS(2))),
    ("C4", Call("Circle", P(1, 2), POS(1))),
    ("C5", Call("Circle", P(12, 5), POS(3))),
    ("E1", Call("Ellipse", P(2, 1), POS(5), POS(2), ANG(30), D(True))),
    ("E2", Call("Ellipse", P(-1, 3), POS(4), POS(3), RAD(1), B(False))),
    ("A1", Call("Arc", P(0, 1), POS(3), ANG(40), ANG(200), D(True))),
    ("T1", Call("Triangle", P(0, 0), P(8, 0), P(2, 6))),
    ("T2", Call("Triangle", P(1, 1), P(5, 2), P(-3, 4))),
    ("I1", Call("Inversion", P(1, 1), N(4))),
    ("I2", Call("Inversion", P(-3, 2), N(-9))),
    ("F1", Call("Affine", MAT([[2, 1], [1, 3]]), V(4, -5))),
    ("F2", Call("Affine", MAT([[0, -1], [2, 0]]), V(1, 1))),
    ("M1", Call("Mobius", MAT([[1 + 1j, 2], [0.5, 1 - 2j]]))),
    ("M2", Call("Mobius", MAT([[2, 1j], [1, 3]]))),
    ("R1", Call("Reflection", O("L2"))),
    ("J1", Call("Projection", O("L1"), O("L2"))),
    ("J2", Call("Projection", O("L1"), RAW(None))),
    ("Q1", Call("Rotation", P(2, -1), ANG(50), D(True))),
    ("S1", Call("Shear", P(1, 1), V(2, 1), POS(3), ANG(20), D(True))),
    ("X1", Call("ScalingXY", P(1, 2), N(3), N(-2))),
    ("H1", Call("Homothety", P(3, 1), N(-2))),
    ("S2", Call("Scaling", P(1, -1), V(3, 1), N(4))),
]
CLASS_OF = {n: c.target for n, c in POOL}
PTS = [[0, 0], [5, 1], [1, 4], [6, 5]]


def _menu():
    m = []

    def a(t, *args):
        m.append(Call(t, *args))
    # lines
    a("Line", P(1, 2), P(3, 7)), a("Line", P(1, 2), P(3, 7), BU(False), BU(True))
    for L in ("L1", "L2"):
        o = "@" + L
        a(o + ".direction_offset")
        a(o + ".perpendicular", P(3, 7), B(False), B(True))
        a(o + ".includes", P(4, 2), BU(True), B(True)), a(o + ".includes", P(3, 7))
        for f in ("projection", "distance", "reflection"):
            a(o + "." + f, P(3, 7))
        a(o + ".rotate", ANG(30), P(2, -1), D(True))
        a(o + ".translate", V(3, -2))
        a(o + ".invert", O("I1"))
    for f in ("is_equal", "is_parallel", "is_perpendicular"):
        a("@L1." + f, O("L2")), a("@L2." + f, O("L3"))
    a("@L1.is_equal", O("L1")), a("@L1.is_parallel", O("L3"))
    a("@L3.includes", P(12, 3), BU(True), B(True)), a("@L3.includes", P(9, 1.5), BU(True), B(False)), a("@L2.includes", P(4, -4), BU(True), B(True))
    a("@L1.perpendicular", P(2, 1), B(True), B(True))
    a("@L1.intersection_with_circle", O("C1")), a("@L2.intersection_with_ellipse", O("E1")), a("@L1.intersection_with_line", O("L2"))
    a("@L1.intersection_with_line", O("L3")), a("@L2.intersection_with_line", O("L3"), BU(True))
    a("intersection_line_line", O("L1"), O("L2"), BU(True))
    # circles
    a("Circle", P(3, 7), POS(2)), a("circleAB", P(0, 0), P(4, 2)), a("circleOA", P(0, 0), P(4, 2))
    a("@C1.is_equal", O("C2")), a("@C1.is_equal", O("C1"))
    for p in (P(4, 6), P(2, 3)):
        for f in ("includes", "contains", "power"):
            a("@C1." + f, p)
    a("@C1.random_points", I(3), W("in")), a("@C1.random_points", I(2), W("on"))
    a("@C2.point_from_angle", ANG(70), D(True))
    a("@C1.orthogonal_through_two_points_in_circle", P(2, 3), P(0, 4), B(False)), a("@C1.orthogonal_through_two_points_in_circle", P(2, 3), P(0, 4), B(True))
    a("@C1.orthogonal_through_two_points_on_circle", RAD(1), RAD(2.5), B(False)), a("@C1.orthogonal_through_two_points_on_circle", RAD(1), RAD(2.5), B(True))
    a("@C1.radical_center", O("C2")), a("@C1.radical_axis", O("C3")), a("@C1.as_ellipse"), a("@C1.intersection_with_line", O("L1"))
    a("@C1.intersection_with_circle", O("C2")), a("@C1.intersection_with_circle", O("C4")), a("@C1.is_orthogonal", O("C2")), a("@C1.angle", O("C2")), a("@C1.angle", O("C3"))
    a("radical_center", O("C1"), O("C2"), O("C3"))
    a("mid_circles", O("C1"), O("C2")), a("mid_circles", O("C1"), O("C3")), a("mid_circles", O("C1"), O("C4"))
    a("mid_circles", O("C2"), O("C5"))
    a("intersection_circle_line", O("C2"), O("L1")), a("intersection_circle_line", O("C3"), O("L1"))
    a("intersection_circle_circle", O("C2"), O("C1")), a("intersection_circle_circle", O("C3"), O("C1"))
    a("intersection_ellipse_line", O("E1"), O("L1")), a("intersection_ellipse_line", O("E2"), O("L2")), a("intersection_ellipse_line", O("C1"), O("L2"))
    # arcs
    a("Arc", P(3, 7), POS(2), ANG(10), ANG(80), D(True))
    a("@A1.path", I(4)), a("@A1.starting_point"), a("@A1.ending_point")
    # ellipses
    a("Ellipse", P(3, 7), POS(4), POS(2), ANG(15), D(True))
    a("@E1.is_equal", O("E2")), a("@E1.is_equal", O("E1"))
    for E in ("E1", "E2"):
        o = "@" + E
        a(o + ".path", I(5)), a(o + ".equation"), a(o + ".shape_matrix")
        a(o + ".point_from_angle", ANG(25), D(True)), a(o + ".normal", RAD(0.7)), a(o + ".theta2t", ANG(25), D(True))
        a(o + ".diameter", RAD(0.5), B(False)), a(o + ".diameter", RAD(0.5), B(True))
        a(o + ".includes", P(3, 7)), a(o + ".contains", P(3, 2))
    a("@E1.random_points", I(2), W("in")), a("@E2.random_points", I(2), W("on"))
    a("@E2.intersection_with_line", O("L2"))
    a("Ellipse.from_equation", N(2), N(1), N(3), N(-4), N(2), N(-7))
    five = [P(5, 0), P(3, 2), P(-3, 2), P(-4, -1), P(0, -3)]
    a("Ellipse.equation_from_five_points", *five), a("Ellipse.from_five_points", *five)
    a("Ellipse.from_center_and_matrix", P(1, 2), MAT([[2, 1], [1, 3]]))
    a("Ellipse.from_boundary3", ARR([[0, 0], [5, 1], [1, 4]])), a("Ellipse.from_boundary4", ARR([[0, 0], [5, 1], [6, 5], [1, 4]]))
    a("Ellipse.LownerJohnEllipse", ARR(PTS))
    # inversions
    a("Inversion", P(3, 7), N(2))
    for i in ("I1", "I2"):
        a("@%s.invert" % i, P(3, 7)), a("@%s.invert_circle" % i, O("C1")), a("@%s.invert_line" % i, O("L1")), a("@%s.invert_gcircle" % i, O("C2")), a("@%s.invert_gcircle" % i, O("L2"))
    a("@I1.compose", O("I2"), B(True)), a("@I1.compose", O("I2"), B(False))
    a("Inversion.on_circle", O("C1"))
    a("Inversion.from_swapping_two_circles", O("C1"), O("C2"), B(True)), a("Inversion.from_swapping_two_circles", O("C1"), O("C3"), B(False))
    a("Inversion.from_swapping_two_circles", O("C1"), O("C3"), B(True))
    a("Inversion.from_fixing_two_circles", O("C1"), O("C2")), a("Inversion.from_fixing_three_circles", O("C1"), O("C2"), O("C3"))
    a("SteinerChain", O("C1"), I(4), N(0.5), N(0.25)), a("SteinerChain", O("C3"), I(3), N(0), N(1))
    # triangles
    a("Triangle", P(3, 7), P(0, 1), P(5, 2))
    for T in ("T1", "T2"):
        for f in ("flatness", "a", "b", "c", "edges", "orientation", "is_acute", "angleA", "angleB", "angleC"):
            a("@%s:%s" % (T, f))
        for f in ("incircle", "circumcircle", "excircles", "orthic_triangle", "malfatti_circles", "equal_detour_point", "steiner_ellipse", "steiner_inellipse"):
            a("@%s.%s" % (T, f))
        a("@%s.contains" % T, P(3, 2))
    a("@T1.random_points", I(2), W("in")), a("@T2.random_points", I(3), W("on"))
    # affine maps
    a("Affine", MAT([[1, 2], [3, 5]]), V(3, 7))
    for f in ("F1", "F2"):
        a("@%s.get3x3matrix" % f), a("@%s.inverse" % f), a("@%s.transform" % f, P(3, 7)), a("@%s.transform" % f, ARR(PTS))
        a("@%s.transform_line" % f, O("L2")), a("@%s.transform_ellipse" % f, O("E1"))
    a("@F1.compose", O("F2"), BU(True)), a("@F1.compose", O("F2"), BU(False)), a("@F2.compose", O("Q1"), BU(True)), a("@F2.transform_ellipse", O("C1"))
    six = [P(0, 0), P(4, 2), P(1, 5), P(3, 7), P(2, -1), P(6, 2)]
    a("Affine.from_mapping_three_points", *six), a("Affine.from_ellipse_to_ellipse", O("E1"), O("E2"))
    # Möbius transformations
    a("Mobius", MAT([[1, 2], [3, 5]]))
    for M in ("M1", "M2"):
        o = "@" + M
        for f in "abcd":
            a(o + ":" + f)
        a(o + ".inverse"), a(o + ".power", I(3)), a(o + ".power", I(-2)), a(o + ".gpower", N(0.5)), a(o + ".transform", P(3, 7)), a(o + ".fixed_points")
        a(o + ".transform_circle", O("C1")), a(o + ".transform_line", O("L1"))
    a("@M1.compose", O("M2"), BU(True)), a("@M1.compose", O("M2"), BU(False))
    a("Mobius.from_mapping_three_points", *six), a("Mobius.from_mapping_one_circle", O("C1"), O("C3"))
    a("cross_ratio", P(0, 0), P(4, 2), P(1, 5), P(3, 7)), a("unimodular_matrices", I(3))
    # transformations
    a("Reflection", O("L1")), a("Projection", O("L1"), O("L2")), a("Rotation", P(3, 7), ANG(20), D(True)), a("Shear", P(3, 7), V(1, 2), POS(2), ANG(-35), D(True))
    a("ScalingXY", P(3, 7), N(2), N(5)), a("Homothety", P(3, 7), N(2)), a("Scaling", P(3, 7), V(1, 2), N(2))
    for t in ("R1", "J1", "J2", "Q1", "S1", "X1", "H1", "S2"):
        o = "@" + t
        a(o + ".get3x3matrix"), a(o + ".as_affine"), a(o + ".transform", P(3, 7))
        if t not in ("R1", "J1", "J2"):
            a(o + ".transform", ARR(PTS))
    a("@R1.reflect", P(3, 7)), a("@J1.project", P(3, 7)), a("@Q1.rotate", P(3, 7)), a("@Q1.rotate", ARR(PTS))
    a("@R1.reflect_circle", O("C1")), a("@R1.transform_circle", O("C1")), a("@R1.reflect_line", O("L1")), a("@R1.transform_line", O("L1"))
    a("@Q1.rotate_circle", O("C1")), a("@Q1.transform_circle", O("C1")), a("@Q1.rotate_line", O("L1")), a("@Q1.transform_line", O("L1")), a("@Q1.rotate_ellipse", O("E1")), a("@Q1.transform_ellipse", O("E2"))
    a("@H1.transform_circle", O("C1")), a("@S2.scale_circle", O("C1"))
    return m


MENU = _menu()


# -- building ------------------------------------------------------------------------
def std_point(v, isnum=True):
    return np.array([float(v[0]), float(v[1])])


class Pool(dict):
    """shared objects built from shared caller arrays"""
    def __init__(self, names=None, spec=None):
        self.arrays = {}
        for n, c in spec or POOL:
            if names is None or n in names:
                self[n] = c.function(self)(*[self.arg(a) for a in c.args])
        for n in sorted(names or ()):
            if n in SIBLINGS:
                c = SIBLINGS[n]
                self[n] = c.function(self)(*[self.arg(a) for a in c.args])
        self.attrs = {n: sorted(vars(o)) for n, o in self.items()}

    def _arr(self, key, make):
        if key not in self.arrays:
            self.arrays[key] = make()
        return self.arrays[key]

    def arg(self, a):
        if isinstance(a, (P, V)):
            return self._arr((float(a.v[0]), float(a.v[1])), lambda: std_point(a.v))
        if isinstance(a, (ARR, MAT)):
            cx = any(isinstance(x, complex) for r in a.v for x in r)
            return self._arr(repr(a.v), lambda: np.array(a.v, dtype=complex if cx else float))
        if isinstance(a, O):
            return self[a.v]
        return a.v

    stub = None

    def environment(self):
        """process-wide settings that an operation has no business changing"""
        s = self.stub
        return {"numpy error handling": tuple(sorted(np.geterr().items())), "numpy print options": str(sorted(np.get_printoptions().items(), key=str)), "warning filters": tuple(warnings.filters),
                "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(), "state of the random generator": s.reseeded if s else None}

    def snapshot(self):
        # a new public attribute is a change too, a private one (a cache) is not
        return ({n: tuple((k, canon(getattr(self[n], k, "missing"))) for k in self.attrs[n] + sorted(k for k in vars(self[n]) if k not in self.attrs[n] and not k.startswith("_"))) for n in self},
                {k: canon(v) for k, v in self.arrays.items()})


class Fixed(object):
    """a deterministic generator, restarted for every call"""
    def __init__(self):
        self.k = 0

    def q(self):
        self.k += 1
        return (0.137 + 0.6180339887 * self.k) % 1.0

    def i(self, n):
        self.k += 1
        return (5 * self.k + 1) % n


def execute(call, pool, args=None):
    """('ok', value) or ('error', type)"""
    f = call.function(pool)
    fx = Fixed()
    with rng.Installed(rng.Stub(fx.i, fx.q)) as stub:
        if isinstance(pool, Pool):
            if pool.stub is not None and pool.stub.reseeded:
                stub.reseeded = pool.stub.reseeded
            pool.stub = stub
        try:
            return ("ok", f(*(args if args is not None else [pool.arg(a) for a in call.args])))
        except Exception as e:
            return ("error", type(e).__name__ + ": " + str(e))


# -- canonical form of results -----------------------------------------------------------
def canon(x, depth=0):
    """hashable bit-exact form"""
    if depth > 8:
        return "deep"
    if isinstance(x, np.ndarray):
        return ("array", x.shape, tuple(canon(y, depth + 1) for y in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(canon(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((str(k), canon(x[k], depth + 1)) for k in sorted(x, key=str))
    if x is None or isinstance(x, (bool, str)):
        return (type(x).__name__, x)
    t = type(x).__name__
    if t == "bool_":
        return ("bool", bool(x))
    if isinstance(x, complex):
        return ("z", repr(complex(x)))
    try:
        return ("x", repr(float(x)))
    except Exception:
        pass
    d = getattr(x, "__dict__", None)
    if d is not None and type(x).__module__.startswith("planegeometry"):
        return (t,) + tuple((k, canon(d[k], depth + 1)) for k in sorted(d) if not k.startswith("_"))
    return (t, str(x))


def agree(a, b):
    """two canonical forms are the same up to the last bits of the numbers"""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and len(b) == 2 and a[0] == b[0] and a[0] in ("x", "z") and isinstance(a[1], str) and isinstance(b[1], str):
            u, v = complex(a[1].strip("()")), complex(b[1].strip("()"))
            return abs(u - v) <= 1e-12 * max(1.0, abs(u), abs(v))
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return False


def leaves(x, path="", depth=0):
    """numeric leaves of a result, for comparisons with a tolerance"""
    if depth > 8:
        return
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            for l in leaves(y, "%s[%d]" % (path, i), depth + 1):
                yield l
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            for l in leaves(x[k], "%s[%s]" % (path, k), depth + 1):
                yield l
    elif x is None or isinstance(x, (bool, str)) or type(x).__name__ == "bool_":
        yield (path, x if not type(x).__name__ == "bool_" else bool(x))
    elif isinstance(x, complex):
        yield (path + ".re", float(x.real))
        yield (path + ".im", float(x.imag))
    else:
        d = getattr(x, "__dict__", None)
        if d is not None and type(x).__module__.startswith("planegeometry"):
            yield (path, type(x).__name__)
            for k in sorted(d):
                if not k.startswith("_"):
                    for l in leaves(d[k], "%s.%s" % (path, k), depth + 1):
                        yield l
        else:
            try:
                yield (path, float(x))
            except Exception:
                yield (path, str(x))


def differ(a, b, tol=1e-9):
    """None, or the first difference between two results"""
    A, B_ = list(leaves(a)), list(leaves(b))
    if [p for p, _ in A] != [p for p, _ in B_]:
        return "shape of the result: %s / %s" % ([p for p, _ in A][:6], [p for p, _ in B_][:6])
    for (p, u), (_, v) in zip(A, B_):
        if isinstance(u, float) and isinstance(v, float):
            if u == v or (u != u and v != v):
                continue
            if not abs(u - v) <= tol * max(1.0, abs(u), abs(v)):
                return "%s: %r / %r" % (p or "result", u, v)
        elif u != v:
            return "%s: %r / %r" % (p or "result", u, v)
    return None


def siblings(name):
    """pool objects that differ from the given one in one constructor argument: [name]"""
    out = []
    for k, c in enumerate(variants(dict(POOL)[name], deep=False) + copies(dict(POOL)[name])):
        n = "%s~%d" % (name, k)
        SIBLINGS[n] = c
        out.append(n)
    return out


def copies(call):
    """the same object translated, mirrored, turned, or with its points permuted: equal lengths, other place"""
    a = call.args
    ix = [i for i, x in enumerate(a) if isinstance(x, P)]
    out = []

    def put(q):
        b = list(a)
        for i, v in zip(ix, q):
            b[i] = P(*v)
        out.append(Call(call.target, *b))
    if ix:
        p = [a[i].v for i in ix]
        put([(x + 2, y - 1) for x, y in p])
        if len(p) > 1:
            put([(y, x) for x, y in p])
            put([(-x, -y) for x, y in p])
            put(p[1:] + p[:1])
            put(p[::-1])
    for i, x in enumerate(a):
        if isinstance(x, MAT):
            out.append(Call(call.target, *(a[:i] + (MAT([list(r) for r in zip(*x.v)]),) + a[i + 1:])))
            out.append(Call(call.target, *(a[:i] + (MAT([[-2 * t for t in r] for r in x.v]),) + a[i + 1:])))
    return out


SIBLINGS = {}


def variants(call, deep=False):
    """the same call with one argument (or the receiver) changed"""
    out = []
    for i, a in enumerate(call.args):
        alts = []
        if isinstance(a, (P, V)):
            alts = [type(a)(a.v[0] + 0.5, a.v[1]), type(a)(a.v[0], a.v[1] - 0.25)]
        elif isinstance(a, (N, POS)):
            alts = [type(a)(a.v + 1)]
        elif isinstance(a, ANG):
            alts = [type(a)(a.v + 7)]
        elif isinstance(a, (D, B, BU)):
            alts = [type(a)(not a.v)]
        elif isinstance(a, I):
            alts = [I(a.v + 2)]
        elif isinstance(a, W):
            alts = [W("on" if a.v == "in" else "in")]
        elif isinstance(a, O):
            alts = [O(k) for k in CLASS_OF if CLASS_OF[k] == CLASS_OF[a.v] and k != a.v][:2]
            if deep:
                alts += [O(k) for k in siblings(a.v)]
        elif isinstance(a, (ARR, MAT)):
            w = [list(r) for r in a.v]
            w[-1][-1] = w[-1][-1] + 1
            alts = [type(a)(w)]
        for b in alts:
            out.append(Call(call.target, *(call.args[:i] + (b,) + call.args[i + 1:])))
    r = call.receiver()
    if r:
        for k in CLASS_OF:
            if CLASS_OF[k] == CLASS_OF[r] and k != r:
                out.append(Call("@" + k + call.target[1 + len(r):], *call.args))
        if deep:
            for k in siblings(r):
                out.append(Call("@" + k + call.target[1 + len(r):], *call.args))
    return out


def scaled(call, k):
    """the same configuration k times larger (angles and matrices kept)"""
    def f(a):
        if isinstance(a, (P, V)):
            return type(a)(a.v[0] * k, a.v[1] * k)
        if isinstance(a, POS) or (isinstance(a, N) and not isinstance(a, RAD)):
            return type(a)(a.v * k)
        return a
    return Call(call.target, *[f(a) for a in call.args])
