"""Adapters between the library under test and the exact reference geometry."""
import math
from fractions import Fraction as Fr
import numpy as np
import planegeometry.geometry as g
import planegeometry.internal as gi
from mc.core import Violation, Skip, pt, pts, num, boolean, ispt, show, is_infinity, Product, Tree, Choices
from mc.ref import *
from mc import ref

PI = math.pi


# -- representations ------------------------------------------------------------
def as_pt(p, rep="a"):
    x, y = float(p[0]), float(p[1])
    if rep == "t":
        return (x, y)
    if rep == "l":
        return [x, y]
    if rep == "i":
        if x == int(x) and y == int(y):
            return (int(x), int(y))
        return (x, y)
    if rep == "I":
        if x == int(x) and y == int(y):
            return np.array([int(x), int(y)])
        return np.array([x, y])
    return np.array([x, y])


REPS = ["i", "a", "l", "t", "I"]


def rep_of(*key):
    """deterministic choice of a representation by case (no sampling: C28 enumerates them all)"""
    return REPS[sum((i + 1) * (hash(k) % 97) for i, k in enumerate(key)) % 5]


def as_num(x):
    x = fr(x)
    return int(x) if x.denominator == 1 else float(x)


# -- frames: exact similarities applied to whole configurations -------------------
class Frame(object):
    def __init__(self, name, u, t, flip=False):
        self.name, self.u, self.tt, self.flip = name, G.of(u), G.of(t), flip
        self.scale2 = self.u.n2()
        self.scale = isqrt_exact(self.scale2)
        assert self.scale is not None

    def __call__(self, p):
        z = G.of((fr(p[0]), fr(p[1])))
        if self.flip:
            z = z.conj()
        return (self.u * z + self.tt).t()

    def vec(self, v):
        z = G.of((fr(v[0]), fr(v[1])))
        if self.flip:
            z = z.conj()
        return (self.u * z).t()

    def len(self, r):
        return self.scale * fr(r)

    @property
    def fscale(self):
        return float(self.scale)

    def size(self, extent=6):
        """order of magnitude of the coordinates (for rounding allowances)"""
        return float(self.scale) * extent + math.hypot(float(self.tt.re), float(self.tt.im))

    def __repr__(self):
        return self.name


ID = Frame("id", 1, 0)
FRAMES = [
    ID,
    Frame("translate(7,-3)", 1, (7, -3)),
    Frame("turn 3-4-5, shift", (Fr(3, 5), Fr(4, 5)), (Fr(1, 3), -2)),
    Frame("mirror, quarter turn, x16", (0, 16), (-40, 25), True),
    Frame("/32", Fr(1, 32), 0),
    Frame("turn 5-12-13 x2.6, far", (1, Fr(12, 5)), (90, -70)),
    Frame("turn -8-15-17 /7", (Fr(-8, 7), Fr(15, 7)), (-1, Fr(1, 7))),
    Frame("x100", 100, 0),
    Frame("/8192", Fr(1, 8192), 0),
    Frame("turn 3-4-5 x8192", (Fr(8192 * 3, 5), Fr(8192 * 4, 5)), (300, -5000)),
    Frame("/64, far", Fr(1, 64), (1000, -2000)),
    Frame("turn 3-4-5 x2^24", (Fr(3 << 24, 5), Fr(4 << 24, 5)), 0),
]
F3 = FRAMES[:3]
F4 = [FRAMES[i] for i in (0, 2, 3, 4, 8, 9, 10, 11)]
F6 = [FRAMES[i] for i in (0, 1, 2, 3, 4, 5, 8, 9, 10, 11)]


def grid(n, m=None):
    """integer points of [-n..n]^2 (or [n..m]^2), nearest to the origin first"""
    lo, hi = (-n, n) if m is None else (n, m)
    P = [(x, y) for x in range(lo, hi + 1) for y in range(lo, hi + 1)]
    return sorted(P, key=lambda p: (p[0] * p[0] + p[1] * p[1], p))


# how near to a degenerate configuration the narrow spaces go (dyadic, so that the configurations are exact)
LADDER = [Fr(1, 1 << k) for k in (4, 7, 10, 13, 16, 19)]
FN = [FRAMES[i] for i in (0, 2, 3, 6)]
# extreme sizes: coincidence within 1e-8 is documented, so nothing smaller than a hundred times that
XFRAMES = [Frame("/2^17", Fr(1, 1 << 17), 0), Frame("x2^30", 1 << 30, 0), Frame("turn 3-4-5 /2^18", (Fr(3, 5 << 18), Fr(4, 5 << 18)), 0, True)]


def extreme(spaces, *names):
    """the given spaces, and those of the given names at extreme sizes"""
    out = list(spaces)
    for s in spaces:
        if s.name in names:
            out.append(Product(s.name + ", extreme sizes", [(n, XFRAMES if n == "frame" else a) for n, a in zip(s.names, s.alph)], s.check))
    assert len(out) == len(spaces) + len(names), names
    return out


def near_floats(x, n=2):
    """x and the n floating-point numbers on each side of it"""
    out, lo, hi = [x], x, x
    for _ in range(n):
        lo, hi = float(np.nextafter(lo, -math.inf)), float(np.nextafter(hi, math.inf))
        out += [hi, lo]
    return out


# -- builders -------------------------------------------------------------------
def mkline(ctx, A, B, ea=True, eb=True, rep="a"):
    return ctx.call(g.Line, as_pt(A, rep), as_pt(B, rep), ea, eb)


def mkcircle(ctx, c, r, rep="a"):
    return ctx.call(g.Circle, as_pt(c, rep), as_num(r) if rep in "iI" else float(r))


# -- conformance of real objects with exact ones -----------------------------------
def chk_circle(ctx, obj, c, r, what, size=None, tol=1e-7):
    ctx.ok(isinstance(obj, g.Circle), "%s: expected a Circle, got %s", what, show(obj))
    s = size or (math.hypot(float(c[0]), float(c[1])) + float(r))
    ctx.close_pt(obj.center, c, what + " center", s, tol)
    ctx.close(num(obj.radius, what + " radius"), r, what + " radius", s, tol)


def fdist_line(p, A, B):
    dx, dy = B[0] - A[0], B[1] - A[1]
    return abs(dx * (p[1] - A[1]) - dy * (p[0] - A[0])) / math.hypot(dx, dy)


def chk_line(ctx, obj, A, B, what, size, tol=1e-7):
    """obj is a Line carrying the same infinite line as the exact A, B"""
    ctx.ok(isinstance(obj, g.Line), "%s: expected a Line, got %s", what, show(obj))
    P, Q = pt(obj.A, what + ".A"), pt(obj.B, what + ".B")
    A, B = fpt(A), fpt(B)
    ctx.ok(math.hypot(P[0] - Q[0], P[1] - Q[1]) > 0, "%s: degenerate line %s", what, show(obj))
    for X, n in ((P, "A"), (Q, "B")):
        d = fdist_line(X, A, B)
        s = max(size, math.hypot(X[0], X[1]))
        ctx.ok(d <= tol * s, "%s: defining point %s=%r is %.3g away from the expected line", what, n, X, d)


def chk_gc(ctx, obj, gc, what, size, tol=1e-7):
    """obj (Circle or Line) is the exact generalized circle gc"""
    if gc.is_line():
        # two exact points of the line
        b = gc.B
        n2_ = b.n2()
        P = (b * (-gc.D / (2 * n2_)))
        k = float(P.n2()) / float(n2_)
        Q = P + b * G(0, 1) * (fr(2) ** int(math.log(k, 4)) if k > 1 else 1)
        chk_line(ctx, obj, P.t(), Q.t(), what, size, tol)
    else:
        c, r = gc.center(), fsqrt(gc.r2())
        chk_circle(ctx, obj, c, r, what, max(size, math.hypot(float(c[0]), float(c[1])) + r), tol)


def chk_ellipse(ctx, obj, conic, what, size, tol=1e-6, ordered=True):
    """obj is an Ellipse whose parameters describe the exact conic"""
    ctx.ok(isinstance(obj, g.Ellipse), "%s: expected an Ellipse, got %s", what, show(obj))
    a, b, ang = conic.axes_f()
    ctx.close_pt(obj.center, conic.O, what + " center", size, tol)
    ra, rb = num(obj.rmajor, what + " rmajor"), num(obj.rminor, what + " rminor")
    if ordered:
        ctx.ok(ra >= rb * (1 - 1e-9), "%s: major radius %r smaller than minor radius %r", what, ra, rb)
    else:
        if ra < rb:
            ra, rb = rb, ra
    ctx.close(ra, a, what + " rmajor", a, tol)
    ctx.close(rb, b, what + " rminor", a, tol)
    # shape as a matrix: insensitive to the angle of (nearly) circular ellipses
    al = num(obj.alpha, what + " alpha")
    ctx.ok(isinstance(obj.degrees, bool), "%s: degrees flag is %s", what, show(obj.degrees))
    if obj.degrees:
        al = al * PI / 180
    c, s = math.cos(al), math.sin(al)
    A, B = float(obj.rmajor) ** 2, float(obj.rminor) ** 2
    # covariance matrix R diag(a2,b2) R'
    m = (A * c * c + B * s * s, (A - B) * c * s, A * s * s + B * c * c)
    if ang is None:
        w = (a * a, 0.0, a * a)
    else:
        c, s = math.cos(ang), math.sin(ang)
        w = (a * a * c * c + b * b * s * s, (a * a - b * b) * c * s, a * a * s * s + b * b * c * c)
    d = max(abs(x - y) for x, y in zip(m, w))
    ctx.ok(d <= 4 * tol * a * a, "%s: %s is not the expected curve (radii %.9g, %.9g, axis at %s degrees)", what, show(obj), a, b,
           "any" if ang is None else "%.9g" % (ang * 180 / PI))


def match_points(ctx, got, want, what, size, tol=1e-6):
    """same finite set of points, in any order"""
    ctx.ok(len(got) == len(want), "%s: expected %d point(s) %s, got %s", what, len(want), [fpt(w) for w in want], got)
    left = [fpt(w) for w in want]
    for p in got:
        best = min(range(len(left)), key=lambda i: math.hypot(p[0] - left[i][0], p[1] - left[i][1]))
        d = math.hypot(p[0] - left[best][0], p[1] - left[best][1])
        ctx.ok(d <= tol * size, "%s: point %r is %.3g away from every expected point %s", what, p, d, left)
        left.pop(best)
