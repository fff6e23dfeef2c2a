"""Representations of points, numbers, angles, matrices."""
from mc.lib import *
from mc import api
from mc.api import *

ASSUMPTIONS = ["menu of %d calls covering every public constructor, method, property and function; values exactly representable in every representation" % len(api.MENU),
               "single precision floats are used for the points and numbers they represent exactly; extended floats are not used"]


def integral(v):
    return all(float(x) == int(x) for x in v)


def single(v):
    return all(float(np.float32(x)) == float(x) for x in v)


POINT = {
    "float array": lambda v: np.array([float(x) for x in v]),
    "float tuple": lambda v: tuple(float(x) for x in v),
    "float list": lambda v: [float(x) for x in v],
    "int array": lambda v: np.array([int(x) for x in v]) if integral(v) else None,
    "int tuple": lambda v: tuple(int(x) for x in v) if integral(v) else None,
    "int list": lambda v: [int(x) for x in v] if integral(v) else None,
    "tuple of numpy floats": lambda v: tuple(np.float64(x) for x in v),
    "list of numpy ints": lambda v: [np.int64(int(x)) for x in v] if integral(v) else None,
    "mixed int and float": lambda v: (int(v[0]) if integral(v[:1]) else float(v[0]), float(v[1])),
    "float and numpy int": lambda v: [float(v[0]), np.int64(int(v[1])) if integral(v[1:]) else np.float64(v[1])],
    "int32 array": lambda v: np.array([int(x) for x in v], dtype=np.int32) if integral(v) else None,
    "int8 array": lambda v: np.array([int(x) for x in v], dtype=np.int8) if integral(v) and all(abs(x) < 128 for x in v) else None,
    "tuple of numpy uint8": lambda v: tuple(np.uint8(int(x)) for x in v) if integral(v) and all(0 <= x < 256 for x in v) else None,
    "float32 array": lambda v: np.array([float(x) for x in v], dtype=np.float32) if single(v) else None,
    "tuple of numpy float32": lambda v: tuple(np.float32(x) for x in v) if single(v) else None,
    "strided view": lambda v: np.array([float(v[0]), 99.0, float(v[1]), 98.0])[::2],
    "read-only array": lambda v: ro(np.array([float(x) for x in v])),
}
NUMBER = {
    "float": lambda v: float(v),
    "int": lambda v: int(v) if float(v) == int(v) else None,
    "numpy float": lambda v: np.float64(v),
    "numpy int": lambda v: np.int64(int(v)) if float(v) == int(v) else None,
    "numpy int32": lambda v: np.int32(int(v)) if float(v) == int(v) else None,
    "numpy int8": lambda v: np.int8(int(v)) if float(v) == int(v) and abs(v) < 128 else None,
    "numpy float32": lambda v: np.float32(v) if single([v]) else None,
    "numpy uint8": lambda v: np.uint8(int(v)) if float(v) == int(v) and 0 <= v < 256 else None,
}
MATRIX = {
    "float array": lambda m: np.array(m, dtype=dt(m)),
    "list of lists": lambda m: [list(r) for r in m],
    "tuple of tuples": lambda m: tuple(tuple(r) for r in m),
    "int array": lambda m: np.array([[int(x) for x in r] for r in m]) if dt(m) is float and all(integral(r) for r in m) else None,
    "Fortran order": lambda m: np.asfortranarray(np.array(m, dtype=dt(m))),
    "list of arrays": lambda m: [np.array(r) for r in m],
    "read-only array": lambda m: ro(np.array(m, dtype=dt(m))),
}
ROWS = {
    "float array": lambda m: np.array(m, dtype=float),
    "int array": lambda m: np.array([[int(x) for x in r] for r in m]) if all(integral(r) for r in m) else None,
    "Fortran order": lambda m: np.asfortranarray(np.array(m, dtype=float)),
    "read-only array": lambda m: ro(np.array(m, dtype=float)),
}


def ro(a):
    a.setflags(write=False)
    return a


def dt(m):
    return complex if any(isinstance(x, complex) for r in m for x in r) else float


def table(a):
    if isinstance(a, (P, V)):
        return POINT
    if isinstance(a, (N, POS, ANG)):
        return NUMBER
    if isinstance(a, MAT):
        return MATRIX
    if isinstance(a, ARR):
        return ROWS
    return None


STD = {"point": "float array", "vector": "float array", "number": "float", "positive": "float", "angle": "float", "matrix": "float array", "points": "float array"}
# representations of everything at once
GLOBAL = {
    "ints and tuples": {"p": "int tuple", "n": "int", "m": "tuple of tuples", "r": "int array"},
    "int arrays": {"p": "int array", "n": "numpy int", "m": "int array", "r": "int array"},
    "int lists": {"p": "int list", "n": "int", "m": "list of lists", "r": "int array"},
    "float lists": {"p": "float list", "n": "numpy float", "m": "list of lists", "r": "float array"},
    "mixed": {"p": "mixed int and float", "n": "numpy int32", "m": "list of arrays", "r": "Fortran order"},
    "radians": None,
    "read-only": {"p": "read-only array", "n": "float", "m": "read-only array", "r": "read-only array"},
    "int8 arrays": {"p": "int8 array", "n": "numpy int8", "m": "int array", "r": "int array"},
    "unsigned bytes": {"p": "tuple of numpy uint8", "n": "numpy uint8", "m": "int array", "r": "int array"},
    "single precision": {"p": "tuple of numpy float32", "n": "numpy float32", "m": "float array", "r": "float array"},
    "single precision arrays": {"p": "float32 array", "n": "numpy float32", "m": "float array", "r": "Fortran order"},
    "int32 arrays": {"p": "int32 array", "n": "numpy int32", "m": "int array", "r": "int array"},
}


def std(a, pool):
    t = table(a)
    if t is None:
        return pool.arg(a)
    return t[STD[a.kind]](a.v)


def in_rep(a, rep, pool):
    """argument in a global representation (standard one if it is not expressible)"""
    t = table(a)
    if t is None or rep is None:
        return std(a, pool)
    k = {id(POINT): "p", id(NUMBER): "n", id(MATRIX): "m", id(ROWS): "r"}[id(t)]
    v = t[rep[k]](a.v)
    return std(a, pool) if v is None else v


def radians(call, args):
    """degrees replaced by radians"""
    out = list(args)
    if not any(isinstance(a, ANG) for a in call.args):
        return out
    ds = [i for i, a in enumerate(call.args) if isinstance(a, D)]
    for i, a in enumerate(call.args):
        if isinstance(a, ANG):
            out[i] = float(a.v) * math.pi / 180
    for i in ds:
        out[i] = not call.args[i].v
    return out


class RepPool(Pool):
    def __init__(self, rep, rad=False, spec=None):
        self.arrays = {}
        for n, c in spec or api.POOL:
            args = [in_rep(a, rep, self) for a in c.args]
            if rad:
                args = radians(c, args)
            self[n] = c.function(self)(*args)


NPOOL = []
ANGLE_ATTR = ("alpha", "alpha1", "alpha2", "degrees", "theta", "angle")


def same(ctx, call, r, base, what, angles=False):
    ctx.transitions += 1
    ctx.checks += 1
    if r[0] != base[0]:
        raise Violation("%s with %s: %s %s, but %s" % (call, what, "raised" if r[0] == "error" else "accepted", show(r[1]), show(base[1])))
    if r[0] == "error":
        return
    d = differ(norm(r[1]), norm(base[1]))
    if d:
        raise Violation("%s with %s: %s" % (call, what, d))


def norm(x):
    """objects that keep their angle in the unit given by the caller: read in degrees"""
    if isinstance(x, (g.Ellipse, g.Arc, g.Rotation, g.Shear)):
        d = dict((k, v) for k, v in vars(x).items() if not k.startswith("_"))
        if d.get("degrees") is False:
            for k in ("alpha", "alpha1", "alpha2", "theta", "angle"):
                if k in d and isinstance(d[k], (int, float)) and not isinstance(d[k], bool):
                    d[k] = d[k] * 180 / math.pi
        d.pop("degrees", None)
        d["class"] = type(x).__name__
        return {k: norm(v) for k, v in d.items()}
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    return x


def base_of(call):
    if not NPOOL:
        NPOOL.append(Pool())
    return execute(call, NPOOL[0], [std(a, NPOOL[0]) for a in call.args])


LARGE = 20
LPOOL, LSPEC = [], [(n, api.scaled(c, LARGE)) for n, c in api.POOL]
_LP = {}


def large(ctx, i, rep):
    """larger values: products and squares leave the range of the narrow integer types"""
    call = api.scaled(api.MENU[i], LARGE)
    if not LPOOL:
        LPOOL.append(Pool(spec=LSPEC))
    base = execute(call, LPOOL[0], [std(a, LPOOL[0]) for a in call.args])
    if base[0] != "ok":
        raise Skip
    if rep not in _LP:
        _LP[rep] = RepPool(GLOBAL[rep], rep == "radians", LSPEC)
    pool = _LP[rep]
    same(ctx, call, execute(call, pool, [in_rep(a, GLOBAL[rep], pool) for a in call.args]), base, "everything in the representation %r" % rep)
    for k, a in enumerate(call.args):
        t = table(a)
        if t is None:
            continue
        for name, f in t.items():
            v = f(a.v)
            if v is not None:
                args = [std(b, LPOOL[0]) for b in call.args]
                args[k] = v
                same(ctx, call, execute(call, LPOOL[0], args), base, "argument %d given as %s" % (k + 1, name))
    ctx.state((i, rep, "large"))
    ctx.outcome("large values")


def one(ctx, i):
    """every representation in every single argument position"""
    call = api.MENU[i]
    base = base_of(call)
    ctx.ok(base[0] == "ok", "%s raised %s", call, base[1])
    pool = NPOOL[0]
    n = 0
    for k, a in enumerate(call.args):
        t = table(a)
        if t is None:
            continue
        for name, f in t.items():
            v = f(a.v)
            if v is None:
                continue
            args = [std(b, pool) for b in call.args]
            args[k] = v
            same(ctx, call, execute(call, pool, args), base, "argument %d given as %s" % (k + 1, name))
            n += 1
            ctx.state((i, k, name))
    args = radians(call, [std(b, pool) for b in call.args])
    if any(isinstance(a, ANG) for a in call.args):
        same(ctx, call, execute(call, pool, args), base, "radians")
        n += 1
    ctx.cases += max(0, n - 1)
    if not n:
        raise Skip
    ctx.outcome("argument by argument")


def pairs(ctx, i):
    """every pair of positions, every pair of representations"""
    call = api.MENU[i]
    base = base_of(call)
    pool = NPOOL[0]
    n = 0
    for k in range(len(call.args)):
        for l in range(k + 1, len(call.args)):
            tk, tl = table(call.args[k]), table(call.args[l])
            if tk is None or tl is None:
                continue
            for nk, fk in tk.items():
                for nl, fl in tl.items():
                    u, v = fk(call.args[k].v), fl(call.args[l].v)
                    if u is None or v is None:
                        continue
                    args = [std(b, pool) for b in call.args]
                    args[k], args[l] = u, v
                    same(ctx, call, execute(call, pool, args), base, "arguments %d and %d given as %s, %s" % (k + 1, l + 1, nk, nl))
                    n += 1
                    ctx.state((i, k, l, nk, nl))
    ctx.cases += max(0, n - 1)
    if not n:
        raise Skip
    ctx.outcome("pairs of arguments")


_RP = {}


def everything(ctx, i, rep, which):
    """receivers and object arguments themselves built in the representation"""
    call = api.MENU[i]
    base = base_of(call)
    key = rep
    if key not in _RP:
        try:
            _RP[key] = RepPool(GLOBAL[rep], rep == "radians")
        except Exception as e:
            raise Violation("building the shared objects in the representation %r raised %s: %s" % (rep, type(e).__name__, e))
    pool = _RP[key]
    args = [in_rep(a, GLOBAL[rep], pool) if which != "objects" else std(a, pool) for a in call.args]
    if rep == "radians" and which != "objects":
        args = radians(call, args)
    same(ctx, call, execute(call, pool, args), base, "%s in the representation %r" % (which, rep))
    ctx.state((i, rep, which))
    ctx.outcome("everything at once")


def more_angles(ctx, call, deg):
    """degrees against radians for many angles, receivers included"""
    c = api.Call(call.target, *[ANG(deg) if isinstance(a, ANG) else a for a in call.args])
    if "Shear" in call.target and not -90 < deg < 90:
        raise Skip
    base = base_of(c)
    pool = NPOOL[0]
    args = radians(c, [std(b, pool) for b in c.args])
    same(ctx, c, execute(c, pool, args), base, "radians")
    if base[0] == "ok" and not call.target.startswith("@"):
        # the object built from radians behaves as the one built from degrees
        o1, o2 = base[1], execute(c, pool, args)[1]
        behave(ctx, c, o1, o2)
    ctx.state((c.name, deg))
    ctx.outcome("degrees and radians")


def behave(ctx, call, o1, o2):
    cls = type(o1).__name__
    for n, k in api.CLASS_OF.items():
        if k == cls:
            tmpl = n
    for m in api.MENU:
        r = m.receiver()
        if r and r == tmpl:
            p1, p2 = dict(NPOOL[0]), dict(NPOOL[0])
            p1[r], p2[r] = o1, o2
            args = [std(a, NPOOL[0]) for a in m.args]
            x, y = execute(m, p1, args), execute(m, p2, args)
            ctx.transitions += 2
            if x[0] != y[0]:
                raise Violation("%s: %s on the object built from radians %s %s, on the one from degrees %s" % (call, m, y[0], show(y[1]), show(x[1])))
            d = differ(norm(x[1]), norm(y[1]), 1e-8) if x[0] == "ok" else None
            if d:
                raise Violation("%s: %s on the object built from degrees and from radians: %s" % (call, m, d))


def spaces(tier):
    q = tier == "quick"
    n = len(api.MENU)
    angled = [c for c in api.MENU if any(isinstance(a, ANG) for a in c.args)]
    degs = [-170, -75, -30, 0, 10, 45, 60, 90, 135, 200, 300] if q else list(range(-360, 721, 15))
    out = [
        Product("one argument", [("call", range(n))], one),
        Product("all arguments and objects", [("call", range(n)), ("representation", list(GLOBAL)), ("what", ["arguments and objects", "objects"])], everything),
        Product("degrees and radians", [("call", angled), ("angle", degs)], more_angles),
        Product("large values", [("call", range(n)), ("representation", ["int8 arrays", "unsigned bytes", "int32 arrays", "ints and tuples"])], large),
        Product("two arguments", [("call", range(n))], pairs),
    ]
    return out
