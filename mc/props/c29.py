"""Validation: every argument position of every call, every invalid value."""
from mc.lib import *
from mc import api
from mc.api import *

ASSUMPTIONS = ["menu of %d calls covering every public constructor, method, property and function" % len(api.MENU),
               "the argument positions listed in the property as not claimed are left out"]


class Opaque(object):
    def __repr__(self):
        return "object()"


NOTPT = [3, None, "ab", "a", (), (1,), (1, 2, 3), [], [1, 2, 3], ((1, 2), (3, 4)), ("a", 1), (1, "b"), (1j, 2), (1, 2 + 0j), (None, 1), (1, None), ([1], 2), np.zeros(3), np.zeros(1), np.zeros((2, 2)), np.zeros((1, 2)), np.zeros((2, 1)),
         np.array([1j, 2]), np.array(["a", "b"]), np.array([None, 1]), {1: 2, 3: 4}, {1, 2}, True, Opaque(), np.float64(3)]
NOTNUM = ["a", "", "1", None, (1, 2), [1], (), 1j, 0j, np.array([1., 2.]), np.array([1.]), {1: 2}, Opaque(), np.complex128(1)]
NOTBOOL = [1, 0, "True", "False", None, 1.0, [True], (), "yes", Opaque()]
OBJ = [None, 3, "x", (0, 0), [1, 2], True, Opaque(), np.zeros(2)]
NOTINT = [0, -1, -7, 1.5, "3", None, 2.0, (3,), [3], 1j]
MATS = [None, 3, "abc", (1, 2), [[1, 2]], [[1], [2]], np.eye(3), [1, 2, 3, 4], np.zeros((2, 2, 2)), np.zeros((2, 3)), []]
ALTERNATIVE = {("intersection_with_ellipse", 0): {"Circle"}, ("intersection_ellipse_line", 0): {"Circle", "Ellipse"}, ("Ellipse.is_equal", 0): {"Circle"}, ("invert_gcircle", 0): {"Circle", "Line"}}
UNCHECKED_CLASS = {"intersection_line_line", "angle", "on_circle", "transform_line", "transform_ellipse", "compose", "from_ellipse_to_ellipse", "reflect_circle", "reflect_line", "transform_circle", "reflect"}


def family(call):
    t = call.target
    if t.startswith("@"):
        k, a = t[1:].replace(":", ".").split(".")
        return api.CLASS_OF[k], a
    if "." in t:
        return tuple(t.split("."))
    return None, t


def unclaimed(call, k, a):
    cls, m = family(call)
    if cls == "Ellipse" and m == "from_equation":
        return True
    if m in ("transform", "rotate") and cls in ("Affine", "Rotation", "Shear", "ScalingXY", "Homothety", "Scaling"):
        return True
    if cls == "Ellipse" and m == "point_from_angle" and k == 0:
        return False
    if cls == "Mobius" and m == "power":
        return False
    if a.kind == "object":
        if cls is None and m == "intersection_line_line":
            return True
        if (cls, m) in {("Circle", "angle"), ("Inversion", "on_circle"), ("Mobius", "compose")}:
            return True
        if cls in ("Affine", "Reflection") and not call.target[0].isupper():
            return True
        if cls == "Affine":
            return True
        if m == "intersection_with_line" and cls == "Line":
            return False
    return False


def bad_values(call, k, a):
    cls, m = family(call)
    if a.kind in ("point", "vector"):
        return NOTPT
    if a.kind == "number" or a.kind == "angle":
        if (cls, m) == ("Ellipse", "point_from_angle"):
            return ["a", None, 1j if False else "b", {1: 2}, Opaque()]
        return NOTNUM
    if a.kind == "positive":
        return NOTNUM + [0, 0.0, -1, -1e-9, -5.5, np.float64(-2), np.int64(0)]
    if a.kind in ("flag", "degrees"):
        return NOTBOOL
    if a.kind == "integer":
        if (cls, m) == ("Mobius", "power"):
            return [1.5, -0.25]
        return NOTINT
    if a.kind == "where":
        return ["inside", "IN", "", None, 0, True]
    if a.kind == "matrix" and call.target in ("Affine", "Mobius"):
        return MATS
    if a.kind == "object":
        out = list(OBJ)
        if call.target == "Projection" and k == 1:
            out.remove(None)
        ok = {api.CLASS_OF[a.v]} | ALTERNATIVE.get((m, k), set()) | ALTERNATIVE.get(("%s.%s" % (cls, m), k), set())
        out += [O(n) for n in api.CLASS_OF if api.CLASS_OF[n] not in ok]
        return out
    return []


POOL_ = []


def position(ctx, i, k):
    call = api.MENU[i]
    if k >= len(call.args):
        raise Skip
    a = call.args[k]
    if unclaimed(call, k, a):
        raise Skip
    bads = bad_values(call, k, a)
    if not bads:
        raise Skip
    if not POOL_:
        POOL_.append(api.Pool())
        for c in api.MENU:
            for b in c.args:
                POOL_[0].arg(b)
    pool = POOL_[0]
    snap = pool.snapshot()
    for b in bads:
        args = [pool.arg(x) for x in call.args]
        args[k] = pool.arg(b) if isinstance(b, O) else b
        r = execute(call, pool, args)
        ctx.transitions += 1
        ctx.checks += 1
        if r[0] == "ok":
            raise Violation("%s with argument %d replaced by %s was accepted and returned %s" % (call, k + 1, show(args[k]), show(r[1])))
        if not r[1].startswith("ValueError"):
            raise Violation("%s with argument %d replaced by %s raised %s instead of ValueError" % (call, k + 1, show(args[k]), r[1]))
        ctx.state((call.target, k, a.kind, repr(b)))
    ctx.cases += len(bads) - 1
    ctx.ok(pool.snapshot() == snap, "%s changed an object or an array while rejecting argument %d", call, k + 1)
    good = execute(call, pool)
    ctx.ok(good[0] == "ok", "%s raised %s after rejections", call, good[1])
    ctx.outcome("rejected " + a.kind)


def several(ctx, i):
    """two invalid arguments at once are rejected too"""
    call = api.MENU[i]
    pos = [k for k, a in enumerate(call.args) if not unclaimed(call, k, a) and bad_values(call, k, a)]
    if len(pos) < 2:
        raise Skip
    pool = POOL_[0] if POOL_ else api.Pool()
    for x in range(len(pos)):
        for y in range(x + 1, len(pos)):
            for u in (0, 1, 2):
                args = [pool.arg(b) for b in call.args]
                for p, w in ((pos[x], u), (pos[y], (u + 1) % 3)):
                    v = bad_values(call, p, call.args[p])
                    v = v[w % len(v)]
                    args[p] = pool.arg(v) if isinstance(v, O) else v
                r = execute(call, pool, args)
                ctx.transitions += 1
                ctx.ok(r[0] == "error" and r[1].startswith("ValueError"), "%s with arguments %d and %d replaced by %s and %s: %s instead of ValueError", call, pos[x] + 1, pos[y] + 1, show(args[pos[x]]), show(args[pos[y]]), show(r[1]))
    ctx.outcome("rejected two")


# -- distinctness -----------------------------------------------------------------------
SAME = [(0, 0), (3, -1), (0.5, 100), (-7, 1e-3)]


def coincident(ctx, p, rep):
    A, B_ = as_pt(p, "a"), as_pt(p, rep)
    ctx.refuses(g.Line, A, B_)
    ctx.refuses(g.Line, B_, A, False, True)
    ctx.refuses(g.circleAB, A, B_)
    ctx.refuses(g.circleOA, A, B_)
    c = ctx.call(g.Circle, (p[0] + 0.5, p[1]), 2)
    for arc in (False, True):
        ctx.refuses(c.orthogonal_through_two_points_in_circle, A, B_, arc)
    Q = [(0, 0), (4, 1), (1, 5), (-2, 3), (7, 7)]
    Q = [(p[0] + a * (1 + abs(p[0])), p[1] + b * (1 + abs(p[1]))) for a, b in Q]
    for i in range(5):
        for j in range(5):
            if i != j:
                R = list(Q)
                R[i] = R[j]
                ctx.refuses(g.Ellipse.equation_from_five_points, *R)
                ctx.refuses(g.Ellipse.from_five_points, *R)
    for i in range(4):
        for j in range(i):
            R = list(Q[:4])
            R[i] = R[j]
            ctx.refuses(g.cross_ratio, *R)
    ctx.outcome("coincident")


def outside(ctx, c, r, u, arc, swap):
    """points on or outside of the circle are not inside"""
    C = ctx.call(g.Circle, as_pt(c), float(r))
    k = {"out": 1.5, "just out": 1 + 1e-9, "far": 1e3}[u]
    P_, Q = (c[0] + k * r * 0.6, c[1] + k * r * 0.8), (c[0] + 0.1 * r, c[1] - 0.3 * r)
    a = (P_, Q) if not swap else (Q, P_)
    ctx.refuses(C.orthogonal_through_two_points_in_circle, a[0], a[1], arc)
    P_ = (c[0] + 0.95 * r * 0.6, c[1] + 0.95 * r * 0.8)
    a = (P_, Q) if not swap else (Q, P_)
    ctx.call(C.orthogonal_through_two_points_in_circle, a[0], a[1], arc)
    ctx.outcome("outside")


def shear_angle(ctx, ang, rep):
    v, d = (1, 2), (3, 1)
    ok = -90 < ang < 90
    x = float(ang) if rep != "int" else (int(ang) if ang == int(ang) else ang)
    if rep == "rad":
        f = lambda: g.Shear(v, d, 2, x * PI / 180, False)
    else:
        f = lambda: g.Shear(v, d, 2, x, True)
    f.__name__ = f.__qualname__ = "Shear(angle=%r, %s)" % (ang, rep)
    if ok:
        s = ctx.call(f)
        q = ctx.call(s.transform, (3, 4))
        pt(q, "Shear(angle=%r).transform" % ang)
        ctx.outcome("accepted")
    else:
        ctx.refuses(f)
        ctx.outcome("refused")


def valid_edge(ctx, what, x):
    """just inside the valid range"""
    if what == "radius":
        c = ctx.call(g.Circle, (1, 2), x)
        ctx.close(c.radius, float(x), "radius", float(x), 1e-15)
        a = ctx.call(g.Arc, (1, 2), x, 0, 90)
        ctx.close(a.radius, float(x), "radius", float(x), 1e-15)
        e = ctx.call(g.Ellipse, (1, 2), x, x, 0)
        ctx.close(e.rminor, float(x), "rminor", float(x), 1e-15)
        ctx.call(g.Shear, (1, 2), (1, 1), x, 10)
    elif what == "negative number":
        for f in (lambda: g.Inversion((0, 0), -x), lambda: g.Homothety((0, 0), -x), lambda: g.ScalingXY((0, 0), -x, x), lambda: g.Scaling((0, 0), (1, 1), -x), lambda: g.Rotation((0, 0), -x)):
            ctx.call(f)
    elif what == "count":
        n = x
        ctx.ok(len(ctx.call(g.Circle((0, 0), 1).random_points, n)) == n, "count %r", n)
        ctx.ok(len(ctx.call(g.Triangle((0, 0), (1, 0), (0, 1)).random_points, n, "on")) == n, "count %r", n)
        ctx.ok(len(ctx.call(g.Ellipse((0, 0), 2, 1, 0).random_points, n, "on")) == n, "count %r", n)
    elif what == "close points":
        A, B_ = (3.0, 4.0), (3.0 + x, 4.0)
        ctx.call(g.Line, A, B_)
        ctx.call(g.circleAB, A, B_)
        ctx.call(g.circleOA, A, B_)
    elif what == "unsorted radii":
        ctx.refuses(g.Ellipse, (0, 0), 1.0, -x, 0)
        ctx.refuses(g.Ellipse, (0, 0), -x, 1.0, 0)
    ctx.outcome("valid edge")


EDGES = [("radius", 1e-9), ("radius", 1), ("radius", np.float64(0.5)), ("radius", np.int64(3)), ("radius", Fr(1, 3)), ("radius", 1e9), ("radius", True)] + [("negative number", v) for v in (1, 2.5, 1e-6)] + \
    [("count", 1), ("count", 2), ("count", 1000)] + [("close points", v) for v in (1e-3, 1.0, -0.5)] + [("unsorted radii", v) for v in (1, 1e-9, 0)]


def spaces(tier):
    n = len(api.MENU)
    degs = [-1000, -180, -135, -91, -90.001, -90, -89.999, -89, -60, 0, 1, 45, 89, 89.999, 90, 90.001, 91, 100, 180, 270, 300, 1e6]
    if tier != "quick":
        degs += [k + 0.5 for k in range(-200, 200)]
    return [
        Product("one invalid argument", [("call", range(n)), ("position", range(6))], position),
        Product("two invalid arguments", [("call", range(n))], several),
        Product("coincident points", [("point", SAME), ("representation", REPS)], coincident),
        Product("points outside of the circle", [("center", [(0, 0), (3, -7), (100, 50)]), ("radius", [1, 0.25, 40]), ("where", ["out", "just out", "far"]), ("arc", [False, True]), ("swap", [False, True])], outside),
        Product("shear angles", [("angle", degs), ("unit", ["deg", "rad", "int"])], shear_angle),
        Product("just inside the valid range", [("case", EDGES)], lambda ctx, e: valid_edge(ctx, *e)),
    ]
