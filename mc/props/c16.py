from mc.affine import *

ASSUMPTIONS = ["angles are given to 1e-15; sizes of points up to 300", "directions and vectors have length between 1/8 and 30",
               "the two lines of an oblique projection make an angle of at least 5 degrees"]
ROT = [(1, 0), (0, 1), (-1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (Fr(-4, 5), Fr(3, 5)), (Fr(5, 13), Fr(-12, 13)), (Fr(-8, 17), Fr(-15, 17)), (Fr(1599, 1601), Fr(80, 1601))]
TURNS = [0, 1, -1, 3]
PTS = [(0, 0), (1, 0), (0, 1), (-2, 3), (5, -4), (Fr(1, 3), Fr(-1, 7)), (100, 40)]
CENTERS = [(0, 0), (1, 2), (-3, Fr(1, 2)), (40, -70)]
# vertices, directions, vectors
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -2), (3, 4), (-1, 1), (Fr(1, 8), Fr(-1, 4)), (12, -5), (2, 7), (Fr(-1, 4096), Fr(3, 4096)), (3000, 4000)]


def forms(ctx, o, M, w, size, points=True, rows=True, mat3=True, tol=1e-9, S=None):
    """all the forms of the transformation o agree with the exact affine map M (figures of size 300, or 15 S)"""
    global PTS
    P0 = PTS
    if S is not None:
        size = size / 20 * float(S)
        PTS = [mul(S, p) for p in SMALL]
    try:
        forms_(ctx, o, M, w, size, points, rows, mat3, tol)
    finally:
        PTS = P0


SMALL = [(0, 0), (1, 0), (-2, 3), (Fr(1, 3), Fr(-1, 7)), (5, -4)]


def forms_(ctx, o, M, w, size, points, rows, mat3, tol):
    want = [aact(M, p) for p in PTS]
    ctx.state(M)
    if points:
        for p, v in zip(PTS, want):
            for rep in ("a", "i"):
                ctx.close_pt(ctx.call(o.transform, as_pt(p, rep)), v, "%s at %s" % (w, fpt(p)), size, tol)
    if rows:
        for n in (1, 2, 3, 4, 5, 6, len(PTS), 64):
            got = mat(ctx.call(o.transform, np.array([fpt(p) for p in (PTS * 13)[:n]])), n, 2, "%s on a matrix of %d points" % (w, n))
            for r, v in zip(got, want * 13):
                ctx.close_pt(r, v, w + ", row by row (%d rows)" % n, size, tol)
        got = mat(ctx.call(o.transform, [list(fpt(p)) for p in PTS[:2]]), 2, 2, w + " on a list of points")
        for r, v in zip(got, want):
            ctx.close_pt(r, v, w + " on a list of points", size, tol)
    if mat3:
        T = mat(ctx.call(o.get3x3matrix), 3, 3, w + ": get3x3matrix")
        ctx.ok(max(abs(T[2][0]), abs(T[2][1]), abs(T[2][2] - 1)) < 1e-12, "%s: last row of the 3x3 matrix is %s", w, T[2])
        for p, v in zip(PTS, want):
            x, y = fpt(p)
            ctx.close_pt((T[0][0] * x + T[0][1] * y + T[0][2], T[1][0] * x + T[1][1] * y + T[1][2]), v, "%s: 3x3 matrix times %s" % (w, fpt(p)), size, tol)
    chk_affine(ctx, ctx.call(o.as_affine), M, w + " as an affine map", size, tol)


def about(c, L):
    """p -> c + L (p - c)"""
    M = (((fr(L[0][0]), fr(L[0][1])), (fr(L[1][0]), fr(L[1][1]))), (F0, F0))
    d = sub(ept(c), aact(M, ept(c)))
    return (M[0], d)


def rotation(ctx, c, u, turns, deg, S=None):
    if S is not None:
        c = mul(S, ept(c))
    th = math.atan2(float(u[1]), float(u[0])) + 2 * PI * turns
    if deg and u in ((1, 0), (0, 1), (-1, 0), (0, -1)):
        th = {(1, 0): 0, (0, 1): 90, (-1, 0): 180, (0, -1): 270}[u] + 360 * turns
    elif deg:
        th = th * 180 / PI
    o = ctx.call(g.Rotation, as_pt(c), th, deg)
    M = about(c, ((u[0], -u[1]), (u[1], u[0])))
    w = "rotation about %s by %r %s" % (fpt(c), th, "degrees" if deg else "radians")
    forms(ctx, o, M, w, 200.0, S=S)
    for p in PTS[:4] if S is None else []:
        ctx.close_pt(ctx.call(o.rotate, as_pt(p)), aact(M, p), w + " (rotate)", 200.0, 1e-9)
    ctx.outcome("rotation")


def homothety(ctx, c, k, S=None):
    if S is not None:
        c = mul(S, ept(c))
    o = ctx.call(g.Homothety, as_pt(c), as_num(k))
    forms(ctx, o, about(c, ((k, 0), (0, k))), "homothety %s ratio %s" % (fpt(c), k), 300.0 * max(1, abs(k)), S=S)
    ctx.outcome("homothety")


def scalingxy(ctx, c, sx, sy, S=None):
    if S is not None:
        c = mul(S, ept(c))
    o = ctx.call(g.ScalingXY, as_pt(c), as_num(sx), as_num(sy))
    forms(ctx, o, about(c, ((sx, 0), (0, sy))), "axis scaling %s factors %s %s" % (fpt(c), sx, sy), 300.0 * max(1, abs(sx), abs(sy)), S=S)
    ctx.outcome("axis scaling")


def dirmat(d, k):
    """multiply the component along d by k"""
    x, y = fr(d[0]), fr(d[1])
    n = x * x + y * y
    e = (k - 1) / n
    return ((1 + e * x * x, e * x * y), (e * x * y, 1 + e * y * y))


def scaling(ctx, c, d, k, S=None):
    if S is not None:
        c = mul(S, ept(c))
    o = ctx.call(g.Scaling, as_pt(c), as_pt(d), as_num(k))
    forms(ctx, o, about(c, dirmat(d, fr(k))), "scaling %s direction %s factor %s" % (fpt(c), fpt(d), k), 300.0 * max(1, abs(k)), S=S)
    ctx.outcome("directional scaling")


TAN = [(0, 0), (1, 45), (-1, -45), (Fr(3, 4), None), (Fr(-12, 5), None), (20, None), (Fr(-1, 40), None)]


def shear(ctx, c, w_, ratio, t, deg, S=None):
    """the vector w is fixed, r*perp(w) goes to r*perp(w) + tan(angle) w"""
    if S is not None:
        c = mul(S, ept(c))
    tn, an = t
    if an is None:
        an = math.atan(float(tn)) * (180 / PI if deg else 1)
    elif not deg:
        an = an * PI / 180
    o = ctx.call(g.Shear, as_pt(c), as_pt(w_), as_num(ratio), an, deg)
    x, y = fr(w_[0]), fr(w_[1])
    n = x * x + y * y
    # component of v along perp(w): (v . perp w)/n, in units of ratio*perp w: /ratio
    e = fr(tn) / fr(ratio) / n
    L = ((1 + e * x * -y, e * x * x), (e * y * -y, 1 + e * y * x))
    M = about(c, L)
    w = "shear vertex %s vector %s ratio %s angle %r %s" % (fpt(c), fpt(w_), ratio, an, "degrees" if deg else "radians")
    amp = max(1.0, abs(float(tn)) / float(ratio))
    forms(ctx, o, M, w, 300.0 * amp, S=S)
    # the documented parallelogram: vertex, vector and second vector
    r = fr(ratio)
    P = ept(c)
    Q, wt = add(P, (x, y)), mul(r, (-y, x))
    for X, v in ((P, P), (Q, Q), (add(P, wt), add(add(P, wt), mul(fr(tn), (x, y)))), (add(Q, wt), add(add(Q, wt), mul(fr(tn), (x, y))))):
        ctx.close_pt(ctx.call(o.transform, as_pt(X)), v, w + " on its parallelogram", 300.0 * amp * max(1, float(S or 1)), 1e-9)
    ctx.outcome("shear")


def reflection(ctx, A, d, st, flags, S=None):
    if S is not None:
        A = mul(S, ept(A))
    B = add(ept(A), mul(fr(st) * (S or 1), ept(d)))
    l = ctx.call(g.Line, as_pt(A), as_pt(B), *flags)
    o = ctx.call(g.Reflection, l)
    L = dirmat(perp(d), Fr(-1))
    M = about(A, L)
    w = "reflection in the line %s %s" % (fpt(A), fpt(B))
    forms(ctx, o, M, w, 300.0, rows=False, S=S)
    for p in PTS:
        ctx.close_pt(ctx.call(o.reflect, as_pt(p)), aact(M, p), w + " (reflect)", 300.0 * max(1, float(S or 1)), 1e-9)
    # points of the axis are fixed
    for k in (0, 1, Fr(1, 3), -4):
        X = add(ept(A), mul(fr(k), ept(d)))
        ctx.close_pt(ctx.call(o.transform, as_pt(X)), X, w + " on its axis", 300.0 * max(1, float(S or 1)), 1e-9)
    ctx.outcome("reflection")


def projection(ctx, A, d, e, flags, S=None):
    """project on A + R d along e (None: orthogonally)"""
    if S is not None:
        A = mul(S, ept(A))
    l = ctx.call(g.Line, as_pt(A), as_pt(add(ept(A), mul(S or 1, ept(d)))), *flags)
    if e is None:
        o = ctx.call(g.Projection, l, None)
        u = perp(ept(d))
    else:
        u = ept(e)
        s = det(ept(d), u)
        if s * s * 130 < n2(ept(d)) * n2(u):
            raise Skip
        o = ctx.call(g.Projection, l, ctx.call(g.Line, as_pt(mul(S or 1, (5, -1))), as_pt(add(mul(S or 1, (5, -1)), mul(S or 1, u))), *flags))
    # p = A + a d + b u -> A + a d;  a = det(p-A,u)/det(d,u)
    dd = ept(d)
    D = det(dd, u)
    L = ((dd[0] * u[1] / D, -dd[0] * u[0] / D), (dd[1] * u[1] / D, -dd[1] * u[0] / D))
    M = about(A, L)
    w = "projection on the line %s direction %s along %s" % (fpt(A), fpt(d), "its normal" if e is None else fpt(e))
    forms(ctx, o, M, w, 3000.0, rows=False, S=S)
    for p in PTS:
        ctx.close_pt(ctx.call(o.project, as_pt(p)), aact(M, p), w + " (project)", 3000.0 * max(1, float(S or 1)), 1e-9)
    for k in (0, 1, Fr(1, 3), -4):
        X = add(ept(A), mul(fr(k), dd))
        ctx.close_pt(ctx.call(o.transform, as_pt(X)), X, w + " on its line", 300.0 * max(1, float(S or 1)), 1e-9)
    ctx.outcome("orthogonal projection" if e is None else "oblique projection")


def spaces(tier):
    q = tier == "quick"
    K = [1, 2, -1, -3, Fr(1, 2), Fr(-1, 4), Fr(7, 3), 10, 0, -64, Fr(1, 1000), 1000]
    FL = [(True, True), (False, False), (True, False)]
    near1 = [1 + s * e for e in LADDER for s in (1, -1)]
    near0 = [s * e for e in LADDER for s in (1, -1)]
    NT = near_turns()
    ND = [(1, e) for e in LADDER] + [(-e, 3) for e in LADDER] + [(2, 2 + e) for e in LADDER]
    SS, SC = [Fr(1, 8192), Fr(1, 50), Fr(1), Fr(300), Fr(1 << 24)], [(Fr(1, 3), Fr(-2, 7)), (-3, Fr(1, 2)), (0, 0)]
    D7 = [d for d in DIRS if Fr(1, 4) < n2(d) < 200]
    return [
        Product("rotation, other scales", [("center", SC), ("turn", ROT + NT[::5]), ("turns", [0, -1]), ("degrees", [True, False]), ("size", SS)], rotation),
        Product("homothety, other scales", [("center", SC), ("scale", K + near1[::3]), ("size", SS)], homothety),
        Product("axis scaling, other scales", [("center", SC), ("sx", K), ("sy", K[::2]), ("size", SS)], scalingxy),
        Product("scaling, other scales", [("center", SC), ("direction", D7), ("scale", K), ("size", SS)], scaling),
        Product("shear, other scales", [("vertex", SC), ("vector", D7), ("ratio", [1, Fr(1, 3)]), ("tangent", TAN), ("degrees", [True, False]), ("size", SS)], shear),
        Product("reflection, other scales", [("A", SC), ("direction", D7), ("step", [1, Fr(5, 2)]), ("flags", FL), ("size", SS)], reflection),
        Product("projection, other scales", [("A", SC), ("direction", D7), ("along", [None] + D7), ("flags", FL[:1]), ("size", SS)], projection),
        Product("rotation, near a quarter turn", [("center", CENTERS[:3]), ("turn", NT), ("turns", [0, 1]), ("degrees", [True, False])], rotation),
        Product("homothety, near the identity", [("center", CENTERS), ("scale", near1 + near0 + [-x for x in near1])], homothety),
        Product("axis scaling, near the identity", [("center", CENTERS[:3]), ("sx", near1[::3] + near0[::3] + [1, -1]), ("sy", near1[1::3] + near0[1::3] + [1, 0])], scalingxy),
        Product("scaling, near the identity", [("center", CENTERS[:3]), ("direction", DIRS[:4] + ND[::5]), ("scale", near1 + near0)], scaling),
        Product("scaling, near the axes", [("center", CENTERS[:3]), ("direction", ND), ("scale", [2, -1, Fr(1, 2), 0])], scaling),
        Product("shear, near the identity", [("vertex", CENTERS[:3]), ("vector", DIRS[:4] + ND[::5]), ("ratio", [1, Fr(1, 3)]), ("tangent", [(e, None) for e in near0] + [(1 / e, None) for e in near0[:6]]), ("degrees", [True, False])], shear),
        Product("reflection, near the axes", [("A", CENTERS[:3]), ("direction", ND), ("step", [1, Fr(5, 2)]), ("flags", FL)], reflection),
        Product("projection, near the axes", [("A", CENTERS[:3]), ("direction", ND + DIRS[:3]), ("along", [None] + ND[::3]), ("flags", FL[:2])], projection),
        Product("rotation", [("center", CENTERS), ("turn", ROT), ("turns", TURNS[:3] if q else TURNS), ("degrees", [True, False])], rotation),
        Product("homothety", [("center", CENTERS), ("scale", K)], homothety),
        Product("axis scaling", [("center", CENTERS), ("sx", K), ("sy", K)], scalingxy),
        Product("scaling", [("center", CENTERS), ("direction", DIRS), ("scale", K)], scaling),
        Product("shear", [("vertex", CENTERS), ("vector", DIRS), ("ratio", [1, 2, Fr(1, 3)] if q else [1, 2, Fr(1, 3), 10, Fr(1, 20)]), ("tangent", TAN), ("degrees", [True, False])], shear),
        Product("reflection", [("A", CENTERS), ("direction", DIRS), ("step", [1, Fr(5, 2)] if q else [1, -1, Fr(5, 2), Fr(1, 4)]), ("flags", FL)], reflection),
        Product("projection", [("A", CENTERS), ("direction", DIRS), ("along", [None] + DIRS), ("flags", FL[:2] if q else FL)], projection),
    ]
