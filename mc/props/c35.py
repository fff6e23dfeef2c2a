"""Printed descriptions: show() tells what the object is, and nothing else happens."""
import contextlib, io, itertools, re
from mc.props.c33 import Pool, P5, LN, FLAGS, CI, EL, TR, FLAT, IV, AM, MO
from mc.lib import *
from mc.triangles import area2

ASSUMPTIONS = [
    "numbers are compared with seven digits (arrays are printed with eight); layout, order and wording are free, except for the labels and for the words infinite, half-line, segment, flat, almost flat, orthogonal, degree, radian",
    "flatness is not within 1e-6 of the announced limit 0.99, and triangles are exactly flat in frames without rounding only",
]
EXACT = [FRAMES[i] for i in (0, 1, 3, 4, 7, 8)]
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?j?")


def capture(ctx, o):
    before = snap(o)
    buf = io.StringIO()
    ctx.transitions += 1
    try:
        with contextlib.redirect_stdout(buf):
            r = o.show()
    except Exception as e:
        raise Violation("%s.show() raised %s: %s" % (type(o).__name__, type(e).__name__, e))
    ctx.ok(r is None, "%s.show() returned %s", type(o).__name__, show(r))
    ctx.ok(snap(o) == before, "%s.show() changed the object", type(o).__name__)
    return buf.getvalue()


def snap(o):
    out = []
    for k in sorted(o.__dict__):
        v = o.__dict__[k]
        out.append((k, type(v).__name__, np.asarray(v).tolist() if not hasattr(v, "__dict__") or isinstance(v, np.ndarray) else snap(v)))
    return repr(out)


def fields(text):
    """label -> text up to the next label"""
    out, cur = {}, None
    for line in text.split("\n"):
        m = re.match(r"\s*([A-Za-z][A-Za-z0-9 \-]*?)\s*:(.*)$", line)
        if m:
            cur = m.group(1).lower()
            out[cur] = m.group(2)
        elif not line.strip():
            if cur and not out[cur].count("[") > out[cur].count("]"):
                cur = None
        elif cur:
            out[cur] += " " + line
    return out


def values(ctx, fs, label, want, what, size=1.0):
    ctx.ok(label in fs, "%s: no '%s' in the description (labels: %s)", what, label, sorted(fs))
    s = fs[label]
    want = [complex(w) for w in want]
    got = [complex(x) for x in NUMBER.findall(s)]
    if any(isinstance(w, complex) and w.imag for w in want) or "j" in s:
        # real and imaginary parts are printed next to each other
        re_, out = None, []
        for x in NUMBER.findall(s):
            if x.endswith("j"):
                out.append(complex(re_ or 0, complex(x).imag))
                re_ = None
            else:
                if re_ is not None:
                    out.append(complex(re_, 0))
                re_ = float(x)
        if re_ is not None:
            out.append(complex(re_, 0))
        got = out
    ctx.ok(len(got) == len(want), "%s: '%s' is described by '%s', expected %d numbers", what, label, s.strip(), len(want))
    scale = max([abs(w) for w in want] + [0.0])
    for a, b in zip(got, want):
        ctx.ok(abs(a - b) <= 2e-7 * max(scale, size) + 1e-12, "%s: '%s' is described by '%s', but it is %r", what, label, s.strip(), want)


def one(ctx, o, what, labels, words=(), size=0.0):
    t = capture(ctx, o)
    fs = fields(t)
    for k, w in labels:
        values(ctx, fs, k, w, what, size)
    low = t.lower()
    for w, present in words:
        ctx.ok((w in low) == present, "%s: the description %s '%s': %s", what, "lacks" if present else "contains", w, t)
    ctx.outcome(type(o).__name__)
    return t


def line(ctx, f, l, fl):
    k = Pool(f)
    A, B = k.P(l[0]), k.P(l[1])
    if float(f.len(1)) * math.hypot(*[float(x - y) for x, y in zip(l[0], l[1])]) < 1e-5 * max(1, f.size()):
        raise Skip()
    L = ctx.call(g.Line, A, B, fl[0], fl[1])
    t = one(ctx, L, "the line %s %s %s" % (fpt(A), fpt(B), fl), [("a", A), ("b", B)],
            [("infinite line", fl == (True, True)), ("half-line", fl[0] != fl[1]), ("segment", fl == (False, False))]).lower()
    # the sentence agrees with the points which belong to it
    beyondA, beyondB = A - (B - A), B + (B - A)
    for P, e, n in ((beyondA, fl[0], "A"), (beyondB, fl[1], "B")):
        ctx.ok(boolean(ctx.call(L.includes, P, True)) == e, "the line %s %s %s: includes beyond %s is wrong", fpt(A), fpt(B), fl, n)
    if fl[0] != fl[1]:
        origin, other = ("b", "a") if fl[0] else ("a", "b")
        m = re.search(r"half-line with origin (\w).*through (\w)", t)
        ctx.ok(m is not None and m.groups() == (origin, other), "the half-line from %s through %s is described as: %s", origin.upper(), other.upper(), t)
    fs = fields(t)
    for n, e in (("extenda", fl[0]), ("extendb", fl[1])):
        ctx.ok(n in fs and fs[n].strip() == str(e).lower(), "the line %s %s %s: described as %s", fpt(A), fpt(B), fl, t)


def circle(ctx, f, c):
    k = Pool(f)
    C = k.C(c)
    one(ctx, C, "the circle %s" % (c,), [("center", k.P(c[0])), ("radius", [float(f.len(c[1]))])])


def ellipse(ctx, f, e):
    k = Pool(f)
    t = e[3] + (f.turn() if not e[4] else f.turn() * 180 / PI)
    one(ctx, k.E(e), "the ellipse %s" % (e,), [("center", k.P(e[0])), ("major radius", [float(f.len(e[1]))]), ("minor radius", [float(f.len(e[2]))]), ("angle", [t])],
        [("degree", e[4]), ("radian", not e[4])])


def inversion(ctx, f, i):
    k = Pool(f)
    one(ctx, k.I(i), "the inversion %s" % (i,), [("pole", k.P(i[0])), ("power", [float(i[1] * f.scale2)])])


def triangle(ctx, f, t, perm):
    k = Pool(f)
    t = [t[i] for i in perm]
    P = [ept(p) for p in t]
    a = abs(area2(*P))
    T = k.T(t)
    u, v = sub(P[1], P[0]), sub(P[2], P[0])
    flat = a == 0
    if flat and not (f in EXACT and all(fr(float(x)) == x for p in P for x in f(p))):
        raise Skip()
    d = dot(u, v)
    fl = 1.0 if flat else float(d * d / (d * d + a * a))
    if abs(fl - 0.99) < 1e-6 or (not flat and fl > 1 - 1e-9):
        raise Skip()
    almost = not flat and fl > 0.99
    s = one(ctx, T, "the triangle %s" % (t,), [(n, q) for n, q in zip("abc", [k.P(p) for p in t])], [("flat", flat or almost), ("almost", almost)])
    if almost:
        m = re.search(r"flatness:?\s*([-+0-9.eE]+)", s)
        ctx.ok(m is not None and abs(float(m.group(1)) - fl) < 1e-6, "the triangle %s of flatness %r is described as: %s", t, fl, s)


def maps(ctx, f, p, l, s, u):
    """the transformations with a center, a direction, an angle"""
    k = Pool(f)
    C, w = k.P(p), "with center %s" % (fpt(k.P(p)),)
    v = (float(l[1][0] - l[0][0]), float(l[1][1] - l[0][1]))
    one(ctx, ctx.call(g.Homothety, C, s), "the homothety %s and scale %r" % (w, s), [("center", C), ("scale", [s])])
    one(ctx, ctx.call(g.ScalingXY, C, s, u), "the axis scaling %s and factors %r, %r" % (w, s, u), [("center", C), ("scale factor x-axis", [s]), ("scale factor y-axis", [u])])
    one(ctx, ctx.call(g.Scaling, C, v, s), "the scaling %s, direction %s, scale %r" % (w, fpt(v), s), [("center", C), ("direction", v), ("scale", [s])])
    for deg in (True, False):
        th = s * 10 if deg else s
        un = [("degree", deg), ("radian", not deg)]
        one(ctx, ctx.call(g.Rotation, C, th, deg), "the rotation %s and angle %r" % (w, th), [("center", C), ("angle", [th])], un)
        sh = max(-1.2, min(1.2, s)) * (30 if deg else 1)
        one(ctx, ctx.call(g.Shear, C, v, abs(u), sh, deg), "the shear %s, vector %s, ratio %r, angle %r" % (w, fpt(v), abs(u), sh),
            [("vertex", C), ("first vector", v), ("second vector", (-abs(u) * v[1], abs(u) * v[0])), ("angle", [sh])], un)


def axes(ctx, f, l, m):
    k = Pool(f)
    L, M = k.L(l), k.L(m)
    A, B, P, Q = k.P(l[0]), k.P(l[1]), k.P(m[0]), k.P(m[1])
    for X, Y in ((A, B), (P, Q)):
        if math.hypot(*(X - Y)) < 1e-5 * max(1.0, f.size()):
            raise Skip()
    one(ctx, ctx.call(g.Reflection, L), "the reflection through %s %s" % (fpt(A), fpt(B)), [("a", A), ("b", B)], (), 1.0)
    w = "the projection onto %s %s along %s %s" % (fpt(A), fpt(B), fpt(P), fpt(Q))
    u, v = sub(ept(l[1]), ept(l[0])), sub(ept(m[1]), ept(m[0]))
    if u[0] * v[1] - u[1] * v[0] != 0:
        one(ctx, ctx.call(g.Projection, L, M), w, [("a", A), ("b", B), ("p", P), ("q", Q)], [("orthogonal", False)] if dot(u, v) != 0 else [], 1.0)
    O = ctx.call(g.Projection, L, None)
    t = one(ctx, O, "the orthogonal projection onto %s %s" % (fpt(A), fpt(B)), [("a", A), ("b", B)], [("orthogonal", True)], 1.0)
    fs = fields(t)
    ctx.ok("p" in fs and "q" in fs, "the orthogonal projection is described as: %s", t)
    P, Q = [[float(x) for x in NUMBER.findall(fs[n])] for n in "pq"]
    ctx.ok(len(P) == len(Q) == 2, "the orthogonal projection is described as: %s", t)
    d, e = [q - p for p, q in zip(P, Q)], [float(b - a) for a, b in zip(A, B)]
    tol = 1e-6 + 1e-7 * max(1.0, abs(P[0]) + abs(P[1])) / max(math.hypot(*d), 1e-300)      # eight digits are printed
    ctx.ok(math.hypot(*d) > 0 and abs(d[0] * e[0] + d[1] * e[1]) <= tol * math.hypot(*d) * math.hypot(*e), "the orthogonal projection onto %s %s is described as parallel to %s %s", fpt(A), fpt(B), P, Q)


def matrices(ctx, f, m, b):
    k = Pool(f)
    bb = [float(x) for x in f(b)]
    one(ctx, ctx.call(g.Affine, np.array(m, dtype=float), bb), "the affine map %s %s" % (m, fpt(bb)), [("a", [x for r in m for x in r]), ("b", bb)], (), 1.0)


def mobius(ctx, m):
    one(ctx, ctx.call(g.Mobius, np.array(m)), "the Moebius map %s" % (m,), [("m", [x for r in m for x in r])], (), 1.0)


def spaces(tier):
    q = tier == "quick"
    F = [f for f in FRAMES]
    SC = [1, 2, -3, 0.5, 1.0] if q else [1, 2, -3, 0.5, 1.0, 0.001, -1, 7.25, 100]
    pts = P5 if q else grid(5)
    return [
        Product("lines", [("frame", F), ("line", LN), ("flags", FLAGS + [(False, True)])], line),
        Product("circles", [("frame", F), ("circle", CI)], circle),
        Product("ellipses", [("frame", F), ("ellipse", EL)], ellipse),
        Product("inversions", [("frame", F), ("inversion", IV)], inversion),
        Product("triangles", [("frame", F), ("triangle", TR + FLAT), ("order", list(itertools.permutations(range(3))))], triangle),
        Product("transformations", [("frame", F), ("center", pts), ("line", LN), ("scale", SC), ("other", [2, 0.25, -1])], maps),
        Product("reflections and projections", [("frame", F), ("line", LN), ("along", LN)], axes),
        Product("affine maps", [("frame", F), ("matrix", AM), ("vector", P5)], matrices),
        Product("Moebius maps", [("matrix", MO)], mobius),
    ]

