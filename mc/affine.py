"""Exact affine maps (L, b): p -> L p + b with rational entries, and shapes for them to act on."""
from mc.lib import *


def A_(a, b, c, d, x=0, y=0):
    return (((fr(a), fr(b)), (fr(c), fr(d))), (fr(x), fr(y)))


def aact(M, p):
    (r, s), t = M
    return (r[0] * p[0] + r[1] * p[1] + t[0], s[0] * p[0] + s[1] * p[1] + t[1])


def amul(M, N):
    """M o N"""
    (r, s), t = M
    (u, v), w = N
    L = ((r[0] * u[0] + r[1] * v[0], r[0] * u[1] + r[1] * v[1]), (s[0] * u[0] + s[1] * v[0], s[0] * u[1] + s[1] * v[1]))
    return (L, aact(M, w))


def adet(M):
    (r, s), t = M
    return r[0] * s[1] - r[1] * s[0]


def ainv(M):
    (r, s), t = M
    d = adet(M)
    L = ((s[1] / d, -r[1] / d), (-s[0] / d, r[0] / d))
    n = (L, (F0, F0))
    u = aact(n, t)
    return (L, (-u[0], -u[1]))


AID = A_(1, 0, 0, 1)


def acond(M):
    """norms (float) of the linear part and of its inverse"""
    (r, s), t = M
    n = math.sqrt(float(r[0] ** 2 + r[1] ** 2 + s[0] ** 2 + s[1] ** 2))
    d = abs(float(adet(M)))
    return n, (n / d if d else float("inf"))


def real_affine(ctx, M, rep="a"):
    (r, s), t = M
    if rep == "i":
        m = [[as_num(r[0]), as_num(r[1])], [as_num(s[0]), as_num(s[1])]]
    else:
        m = np.array([[float(x) for x in r], [float(x) for x in s]])
    return ctx.call(g.Affine, m, as_pt(t, rep))


def mat(x, n, m, what):
    try:
        rows = [[float(x[i][j]) for j in range(m)] for i in range(n)]
        ok = len(x) == n and len(x[0]) == m
    except Exception:
        ok = False
    if not ok or any(v != v or abs(v) == float("inf") for r in rows for v in r):
        raise Violation("%s: expected a finite %dx%d matrix, got %s" % (what, n, m, show(x)))
    return rows


def chk_affine(ctx, o, M, what, size, tol=1e-9, probes=((0, 0), (1, 0), (0, 1), (-3, 2))):
    """o acts as the exact affine map M: one point at a time, by rows and as 3x3 matrix"""
    ctx.ok(isinstance(o, g.Affine), "%s: expected an Affine, got %s", what, show(o))
    want = [aact(M, p) for p in probes]
    sc = max([size] + [math.hypot(*fpt(w)) for w in want])
    T = mat(ctx.call(o.get3x3matrix), 3, 3, what + ": get3x3matrix")
    ctx.ok(T[2] == [0.0, 0.0, 1.0], "%s: last row of the 3x3 matrix is %s", what, T[2])
    rows = ctx.call(o.transform, np.array([fpt(p) for p in probes]))
    rows = mat(rows, len(probes), 2, what + ": transform of a %dx2 matrix" % len(probes))
    for p, w, r in zip(probes, want, rows):
        ctx.close_pt(ctx.call(o.transform, as_pt(p)), w, "%s at %s" % (what, p), sc, tol)
        ctx.close_pt(r, w, "%s, row %s" % (what, p), sc, tol)
        q = (T[0][0] * p[0] + T[0][1] * p[1] + T[0][2], T[1][0] * p[0] + T[1][1] * p[1] + T[1][2])
        ctx.close_pt(q, w, "%s, 3x3 matrix times %s" % (what, p), sc, tol)


def near_turns(ks=None, quarters=4):
    """rational unit vectors a small turn away from the axes"""
    out = []
    for e in (ks or LADDER):
        for f in (e, -e):
            c, s = (1 - f * f) / (1 + f * f), 2 * f / (1 + f * f)
            for _ in range(quarters):
                out.append((c, s))
                c, s = -s, c
    return out


# rational unit vectors close to 45 degrees (on both sides), by the recurrence of the nearly isosceles Pythagorean triples
NEAR45 = [(Fr(x, z), Fr(y, z)) for a, b, z in ((20, 21, 29), (119, 120, 169), (4059, 4060, 5741), (137903, 137904, 195025)) for x, y in ((a, b), (-b, a))]


# shapes: exact conics with a Pythagorean axis, built as real Ellipse / Circle
AXES = [(1, 0), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(-15, 17), Fr(-8, 17))]


class Ell(object):
    """exact ellipse: center, unit axis direction, radii (a >= b unless stated), angle unit and extra half turns"""
    def __init__(self, O, u, a, b, deg=True, turns=0, circle=False):
        self.O, self.u, self.a, self.b, self.deg, self.turns, self.circle = O, u, fr(a), fr(b), deg, turns, circle
        self.conic = Conic.axes(O, u, self.a ** 2, self.b ** 2)

    def real(self, ctx, rep="a"):
        if self.circle:
            return ctx.call(g.Circle, as_pt(self.O, rep), as_num(self.a))
        al = math.atan2(float(self.u[1]), float(self.u[0])) + self.turns * PI
        return ctx.call(g.Ellipse, as_pt(self.O, rep), as_num(self.a), as_num(self.b), al * 180 / PI if self.deg else al, self.deg)

    def at(self, c, s):
        """exact point of parameter with cosine c and sine s"""
        v = perp(self.u)
        return add(self.O, add(mul(self.a * c, self.u), mul(self.b * s, v)))

    def __repr__(self):
        if self.circle:
            return "circle %s r=%s" % (fpt(self.O), float(self.a))
        return "ellipse %s radii %s %s axis %s %s%s" % (fpt(self.O), float(self.a), float(self.b), fpt(self.u), "degrees" if self.deg else "radians",
                                                          " %+d half turns" % self.turns if self.turns else "")
