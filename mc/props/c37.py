"""Arguments left out, and arguments given by name."""
import itertools
from mc.lib import *
from mc import api, rng
from mc.api import canon, agree, Fixed

ASSUMPTIONS = ["the defaults are those of the documentation of each operation", "names of the arguments: those of the optional arguments, and all those of the constructors"]
BO = [True, False]

# operation -> (optional arguments in order: name, documented default, values given)
OPT = {
    "Line": [("extendA", True, BO), ("extendB", True, BO)],
    "Line.includes": [("strict", False, BO), ("checkCollinear", True, BO)],
    "Line.perpendicular": [("extendH", False, BO), ("extendM", True, BO)],
    "Line.rotate": [("degrees", True, BO)],
    "Line.intersection_with_line": [("strict", False, BO)],
    "intersection_line_line": [("strict", False, BO)],
    "Circle.random_points": [("where", "in", ["in", "on"])],
    "Circle.point_from_angle": [("degrees", True, BO)],
    "Circle.orthogonal_through_two_points_in_circle": [("arc", False, BO)],
    "Circle.orthogonal_through_two_points_on_circle": [("arc", False, BO)],
    "Arc": [("degrees", True, BO)],
    "Arc.path": [("n_points", 100, [100, 3])],
    "Ellipse": [("degrees", True, BO)],
    "Ellipse.path": [("n_points", 100, [100, 4])],
    "Ellipse.random_points": [("where", "in", ["in", "on"])],
    "Ellipse.point_from_angle": [("degrees", True, BO)],
    "Ellipse.theta2t": [("degrees", True, BO)],
    "Ellipse.diameter": [("conjugate", False, BO)],
    "Inversion.compose": [("left", True, BO)],
    "Inversion.from_swapping_two_circles": [("positive", True, BO)],
    "Triangle.random_points": [("where", "in", ["in", "on"])],
    "Affine.compose": [("left", True, BO)],
    "Mobius.compose": [("left", True, BO)],
    "Rotation": [("degrees", True, BO)],
    "Shear": [("degrees", True, BO)],
}
# names of all the arguments of the constructors
NAMES = {
    "Line": ["A", "B", "extendA", "extendB"], "Circle": ["center", "radius"], "Arc": ["center", "radius", "alpha1", "alpha2", "degrees"],
    "Ellipse": ["center", "rmajor", "rminor", "alpha", "degrees"], "Inversion": ["pole", "power"], "Triangle": ["A", "B", "C"], "Affine": ["A", "b"], "Mobius": ["M"],
    "Reflection": ["line"], "Projection": ["D", "Delta"], "Rotation": ["center", "theta", "degrees"], "Shear": ["vertex", "vector", "ratio", "angle", "degrees"],
    "ScalingXY": ["center", "sx", "sy"], "Homothety": ["center", "scale"], "Scaling": ["center", "direction", "scale"],
}
# data the objects hold under the names of the arguments
DATA = ["A", "B", "C", "extendA", "extendB", "center", "radius", "pole", "power", "b", "M", "vertex"]
PO = [(0, 0), (4, 2), (1, 5), (-3, 1), (3, -1)]
CIR = [((1, 2), 5), ((6, 2), 3), ((0, -9), 2), ((1, 2), 1), ((-30, 4), 7)]
ANGLES = [0, 1, 40, -75, 250, 400.5]
ELL = [((2, 1), 5, 2, 30), ((-1, 3), 4, 3, 1), ((0, 0), 3, 3, 0)]
TRI = [((0, 0), (8, 0), (2, 6)), ((1, 1), (-3, 4), (5, 2)), ((0, 0), (1, 0), (9, 1))]
MOB = [[[1 + 1j, 2], [0.5, 1 - 2j]], [[2, 1j], [1, 3]], [[1, 2], [0, 1]]]
AFF = [([[2, 1], [1, 3]], (4, -5)), ([[0, -1], [2, 0]], (1, 1)), ([[1, 2], [2, 4]], (0, 3))]
LINES = [p + fl for p in itertools.permutations(PO, 2) for fl in itertools.product(BO, BO)]
SEG = [((0, 0), (4, 2)), ((1, 5), (3, -1)), ((-3, 1), (3, -1)), ((8, 4), (-2, -1)), ((0, 1), (4, 3))]
SEGS = [p + fl for p in SEG for fl in itertools.product(BO, BO)]


SC = [1.0]      # the scale of the figures being explored


def as_p(p):
    return as_pt((p[0] * SC[0], p[1] * SC[0]))


def line(a):
    return g.Line(as_p(a[0]), as_p(a[1]), a[2], a[3])


def circ(a):
    return g.Circle(as_p(a[0]), a[1] * SC[0])


def ell(a):
    return g.Ellipse(as_p(a[0]), a[1] * SC[0], a[2] * SC[0], a[3], True)


def tri(a):
    return g.Triangle(*[as_p(p) for p in a])


def cases(op, q):
    """[(receiver description or None, receiver maker, mandatory argument makers)]"""
    def arr(p):
        return lambda: as_p(p)

    def val(x):
        return lambda: x

    def bld(f, a):
        return lambda: f(a)
    pairs = [(x, y) for x in PO for y in PO if x != y]
    if op == "Line":
        return [(None, None, [arr(x), arr(y)], (x, y)) for x, y in pairs]
    cls, _, m = op.partition(".")
    if op == "intersection_line_line":
        return [(None, None, [bld(line, x), bld(line, y)], (x, y)) for x in SEGS for y in SEGS]
    if cls == "Line":
        R = SEGS if q and m == "intersection_with_line" else LINES
        A = {"includes": [([arr(p)], p) for p in PO + [(2, 1), (8, 4), (-4, -2), (2, 2), (2, 3)]], "perpendicular": [([arr(p)], p) for p in PO],
             "rotate": [([val(t), arr(p)], (t, p)) for t in ANGLES for p in PO[:3]], "intersection_with_line": [([bld(line, x)], x) for x in SEGS]}[m]
        return [(r, bld(line, r), a, n) for r in R for a, n in A]
    if cls == "Circle":
        A = {"random_points": [([val(n)], n) for n in (1, 3)], "point_from_angle": [([val(t)], t) for t in ANGLES],
             "orthogonal_through_two_points_in_circle": None, "orthogonal_through_two_points_on_circle": [([val(s), val(t)], (s, t)) for s in (0, 1, 2.5, -0.5) for t in (0.5, 1 + PI, 2, 4)]}[m]
        out = []
        for c in CIR:
            AA = A
            if A is None:
                u = [(c[0][0] + c[1] * x, c[0][1] + c[1] * y) for x, y in ((0.5, 0), (0, 0.25), (-0.5, 0.5), (0.25, -0.75), (0, 0))]
                AA = [([arr(x), arr(y)], (x, y)) for x in u for y in u if x != y]
            out += [(c, bld(circ, c), a, n) for a, n in AA]
        return out
    if op == "Arc":
        return [(None, None, [arr(c[0]), val(c[1] * SC[0]), val(s), val(t)], c + (s, t)) for c in CIR for s in ANGLES for t in ANGLES if s != t]
    if op == "Arc.path":
        return [(c + (s, t), (lambda c=c, s=s, t=t: g.Arc(as_p(c[0]), c[1] * SC[0], s, t, True)), [], ()) for c in CIR for s in ANGLES[:4] for t in ANGLES[:4] if s != t]
    if op == "Ellipse":
        return [(None, None, [arr(e[0]), val(e[1] * SC[0]), val(e[2] * SC[0]), val(t)], e[:3] + (t,)) for e in ELL for t in ANGLES]
    if cls == "Ellipse":
        A = {"path": [([], ())], "random_points": [([val(n)], n) for n in (1, 3)], "point_from_angle": [([val(t)], t) for t in ANGLES], "theta2t": [([val(t)], t) for t in ANGLES],
             "diameter": [([val(t)], t) for t in (0, 0.5, 1, 2.5, -1)]}[m]
        return [(e, bld(ell, e), a, n) for e in ELL for a, n in A]
    if op == "Inversion.compose":
        I = [(p, k) for p in PO[:3] for k in (4, -9)]
        mk = lambda a: g.Inversion(as_p(a[0]), a[1] * SC[0] * SC[0])
        return [(x, bld(mk, x), [bld(mk, y)], y) for x in I for y in I]
    if op == "Inversion.from_swapping_two_circles":
        return [(None, None, [bld(circ, x), bld(circ, y)], (x, y)) for x in CIR for y in CIR if x != y]
    if op == "Triangle.random_points":
        return [(t, bld(tri, t), [val(n)], n) for t in TRI for n in (1, 2, 5)]
    if op == "Affine.compose":
        mk = lambda a: g.Affine(np.array(a[0], dtype=float), as_p(a[1]))
        return [(x, bld(mk, x), [bld(mk, y)], y) for x in AFF for y in AFF]
    if op == "Mobius.compose":
        mk = lambda a: g.Mobius(np.array(a, dtype=complex))
        return [(x, bld(mk, x), [bld(mk, y)], y) for x in MOB for y in MOB]
    if op == "Rotation":
        return [(None, None, [arr(p), val(t)], (p, t)) for p in PO for t in ANGLES]
    if op == "Shear":
        return [(None, None, [arr(p), arr(v), val(k), val(t)], (p, v, k, t)) for p in PO for v in PO[1:] for k in (1, 2.5) for t in (-35, 0, 1, 50)]
    raise KeyError(op)


def target(op, recv):
    if recv is not None:
        return getattr(recv(), op.split(".")[1])
    f = g
    for p in op.split("."):
        f = getattr(f, p)
    return f


def outcome(ctx, f, a, k):
    fx = Fixed()
    ctx.transitions += 1
    with rng.Installed(rng.Stub(fx.i, fx.q)):
        try:
            return ("value", canon(f(*a, **k)))
        except Exception as e:
            return ("error", type(e).__name__)


PROBE = [(0.0, 0.0), (1.0, 0.0), (-2.5, 3.25)]


def probe(x):
    """what an object does, besides what it holds"""
    if isinstance(x, g.Line):
        return [[canon(x.includes(np.array([x.A[0] + k * (x.B[0] - x.A[0]), x.A[1] + k * (x.B[1] - x.A[1])]), True)) for k in (-1.0, 0.5, 2.0)], canon(x.direction_offset())]
    if isinstance(x, g.Arc):
        return [canon(x.starting_point()), canon(x.ending_point()), canon(x.path(5))]
    if isinstance(x, g.Ellipse):
        return [canon(x.shape_matrix()), canon(x.path(5)), canon(x.includes(np.array(PROBE[2])))]
    if isinstance(x, (g.Rotation, g.Shear)):
        return [canon(x.get3x3matrix())] + [canon(x.transform(np.array(p))) for p in PROBE]
    return []


def defaults(ctx, op, q, scale):
    SC[0] = scale
    opt = OPT[op]
    for rd, recv, mand, md in cases(op, q):
        base = {}
        for vals in itertools.product(*[o[2] for o in opt]):
            base[vals] = outcome(ctx, target(op, recv), [m() for m in mand] + list(vals), {})
        ctx.state((op, repr(rd), repr(md), scale))
        for vals in base:
            for given in itertools.product(BO, repeat=len(opt)):
                # what is given, given by name (or by position as far as possible)
                full = tuple(v if y else o[1] for v, y, o in zip(vals, given, opt))
                for bypos in BO:
                    n = 0
                    while bypos and n < len(given) and given[n]:
                        n += 1
                    a = [m() for m in mand] + [vals[i] for i in range(n)]
                    k = {opt[i][0]: vals[i] for i in range(n, len(opt)) if given[i]}
                    r = outcome(ctx, target(op, recv), a, k)
                    w = "%s%r with %s%s" % (op if rd is None else "%s of %r " % (op, rd), md, list(vals[:n]), k)
                    ctx.ok(r[0] == base[full][0] and agree(r[1], base[full][1]), "%s: %s, but with %s given: %s", w, r, dict(zip([o[0] for o in opt], full)), base[full])
        if op in NAMES:
            x = target(op, recv)
            a = [m() for m in mand]
            ctx.transitions += 2
            try:
                u, v = x(*a), x(*(a + [o[1] for o in opt]))
            except ValueError:
                continue
            ctx.ok(all(agree(s, t) for s, t in zip(probe(u), probe(v))), "%s%r does not behave like the one built with %s", op, md, dict((o[0], o[1]) for o in opt))
        ctx.outcome("operation " + op)


def by_name(ctx, name, spec, order):
    c = dict(api.POOL)[name]
    pool = api.Pool()
    names = NAMES[c.target]
    args = [pool.arg(a) for a in c.args]
    want = outcome(ctx, getattr(g, c.target), args, {})
    ctx.ok(want[0] == "value", "%s raises %s", c, want[1])
    for k in range(len(args) + 1):
        if not spec and k not in (0, len(args)):
            continue
        rest = list(zip(names, args))[k:]
        if order:
            rest = rest[::-1]
        r = outcome(ctx, getattr(g, c.target), args[:k], dict(rest))
        ctx.ok(r[0] == "value" and agree(r[1], want[1]), "%s with %s given by name: %s, by position: %s", c, [n for n, _ in rest], r, want)
    # the objects hold their data under the same names
    o = getattr(g, c.target)(*args)
    for n, a in zip(names, args):
        if n in DATA:
            ctx.ok(hasattr(o, n) and agree(canon(getattr(o, n)), canon(a)), "%s: its %s is %s", c, n, show(getattr(o, n, None)))
    ctx.outcome("by name " + c.target)


def spaces(tier):
    q = tier == "quick"
    return [
        Product("arguments left out", [("operation", sorted(OPT)), ("quick", [q]), ("scale", [1.0, 1.0 / 256] if q else [1.0, 1.0 / 256, 1.0 / 32, 16.0, 1000.0, 2.0 ** -12, 2.0 ** 16])], defaults, note="all subsets of the optional arguments, all their values, by position and by name, for all the receivers and other arguments of the alphabet"),
        Product("arguments by name", [("object", [n for n, _ in api.POOL]), ("every split", [True]), ("reversed", BO)], by_name),
    ]
