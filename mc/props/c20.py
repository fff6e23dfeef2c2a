from mc.affine import *

ASSUMPTIONS = ["angles are multiples of 7.5 degrees (and a few irregular ones) between -3 and 10 turns", "radii ratio up to 8192"]
RAD = [(2, 1), (1, 1), (5, Fr(1, 2)), (10, 9), (Fr(1, 4), Fr(1, 5)), (100, 1), (1500, 1), (8192, 1)]
CEN = [(0, 0), (3, -4), (20, Fr(-61, 2))]
AX = [(1, 0), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(-15, 17), Fr(-8, 17))]
DEG = sorted(set([Fr(15, 2) * k for k in range(-48, 97)] + [Fr(45 * k) for k in range(-24, 81)] + [1, -1, Fr(1, 1000), 89, 91, 179, 181, 269, 271, 359, 361, Fr(899999, 10000), Fr(900001, 10000), 1000, -1000, 3600]), key=lambda d: (abs(d), d))


def cs(d):
    """cosine and sine of an angle in degrees, accurate near the axes"""
    d = fr(d) % 360
    q, r = divmod(d, 90)
    c, s = math.cos(float(r) * PI / 180), math.sin(float(r) * PI / 180)
    if r == 0:
        c, s = 1.0, 0.0
    return [(c, s), (-s, c), (-c, -s), (s, -c)][int(q)]


def place(E, x, y):
    u = fpt(E.u)
    return (float(E.O[0]) + u[0] * x - u[1] * y, float(E.O[1]) + u[1] * x + u[0] * y)


def polar(E, d):
    """point of the ellipse in the direction d degrees from the major axis, and its eccentric cosine and sine"""
    c, s = cs(d)
    a, b = float(E.a), float(E.b)
    r = a * b / math.hypot(b * c, a * s)
    return place(E, r * c, r * s), (r * c / a, r * s / b)


def size(E):
    return float(E.a) + math.hypot(*fpt(E.O))


def angle(ctx, O, u, ab, edeg, d, deg):
    E = Ell(O, u, ab[0], ab[1], edeg, 1 if int(d) % 2 else 0)
    turned = -1 if E.turns % 2 else 1      # the axis of the angle is reversed by a half turn
    o = E.real(ctx)
    th = float(d) if deg else float(d) * PI / 180
    if deg and fr(d).denominator == 1 and int(d) % 4 == 0:
        th = int(d)
    x = Ell(O, mul(turned, fr2(u)), ab[0], ab[1])
    want, (ec, es) = polar(x, d)
    amp = max(1.0, abs(th) / 6) * float(E.a) / float(E.b)
    w = "%s at the angle %r %s" % (E, th, "degrees" if deg else "radians")
    ctx.state((E.conic.key(), d, deg))
    tol = 1e-11 * amp
    ctx.close_pt(ctx.call(o.point_from_angle, th, deg), want, w, size(E), tol)
    t = num(ctx.call(o.theta2t, th, deg), w + ": theta2t")
    ctx.ok(math.hypot(math.cos(t) - ec, math.sin(t) - es) <= 1e-10 * amp, "%s: theta2t is %r, the eccentric angle is %r", w, t, math.atan2(es, ec))
    rad = float(d) * PI / 180
    ctx.ok(abs(t - rad) < PI / 2 + 1e-9, "%s: theta2t is %r, off the angle %r by a quarter turn or more", w, t, rad)
    if deg:
        ctx.close_pt(ctx.call(o.point_from_angle, th), want, w + " (default unit)", size(E), tol)
        ctx.close(num(ctx.call(o.theta2t, th)), t, w + ": theta2t (default unit)", max(1, abs(t)), 1e-12)
    # the normal at that point: unit, outward, orthogonal to the curve
    n = pt(ctx.call(o.normal, t), w + ": normal")
    ctx.close(math.hypot(*n), 1.0, w + ": length of the normal %r" % (n,), 1.0, 1e-12)
    a, b = float(E.a), float(E.b)
    l = math.hypot(b * ec, a * es)
    uu = fpt(x.u)
    nx, ny = b * ec / l, a * es / l
    ctx.close_pt(n, (uu[0] * nx - uu[1] * ny, uu[1] * nx + uu[0] * ny), w + ": normal", 1.0, 1e-10 * amp * amp)
    ctx.outcome("angle")


def fr2(u):
    return (fr(u[0]), fr(u[1]))


def vector(ctx, O, u, ab, edeg, k, deg, how):
    E = Ell(O, u, ab[0], ab[1], edeg)
    o = E.real(ctx)
    ds = DEG[k * 16:k * 16 + 16] if k < 12 else DEG[3:5]
    th = [float(d) if deg else float(d) * PI / 180 for d in ds]
    arg = {"list": lambda: list(th), "tuple": lambda: tuple(th), "array": lambda: np.array(th), "ints": lambda: [int(v) for v in th]}[how]()
    if how == "ints":
        if not deg:
            raise Skip
        ds = [int(v) for v in th]
    w = "%s at the angles %s" % (E, show(arg))
    got = mat(ctx.call(o.point_from_angle, arg, deg), len(ds), 2, w)
    ctx.state((E.conic.key(), k))
    for d, r in zip(ds, got):
        want, _ = polar(E, d)
        ctx.close_pt(r, want, w, size(E), 1e-10 * float(E.a / E.b))
    ctx.outcome("vector")


PAR = [(1, 0), (0, 1), (-1, 0), (0, -1)] + [(Fr(s * a, c), Fr(t * b, c)) for a, b, c in ((3, 4, 5), (12, 5, 13), (8, 15, 17)) for s in (1, -1) for t in (1, -1)]


def diameters(ctx, O, u, ab, edeg, p, turns):
    E = Ell(O, u, ab[0], ab[1], edeg)
    o = E.real(ctx)
    t = math.atan2(float(p[1]), float(p[0])) + 2 * PI * turns
    P, Q = E.at(*p), E.at(-p[0], -p[1])
    R, S = E.at(-p[1], p[0]), E.at(p[1], -p[0])
    w = "%s: diameter at the eccentric angle %r" % (E, t)
    ctx.state((E.conic.key(), p))
    d1 = ctx.call(o.diameter, t)
    both = ctx.call(o.diameter, t, True)
    ctx.ok(isinstance(both, (list, tuple)) and len(both) == 2, "%s with its conjugate: %s", w, show(both))
    for l, (X, Y), n in ((d1, (P, Q), w), (both[0], (P, Q), w + " (with conjugate)"), (both[1], (R, S), w + ": conjugate diameter")):
        ctx.ok(isinstance(l, g.Line), "%s: %s", n, show(l))
        ctx.ok(not l.extendA and not l.extendB, "%s: extends beyond the ellipse: %s", n, show(l))
        match_points(ctx, [pt(l.A), pt(l.B)], [X, Y], n, size(E), 1e-9)
    # normal at an exact eccentric angle
    n = pt(ctx.call(o.normal, t), "normal")
    a, b = float(E.a), float(E.b)
    x, y, uu = b * float(p[0]), a * float(p[1]), fpt(E.u)
    l = math.hypot(x, y)
    ctx.close_pt(n, ((uu[0] * x - uu[1] * y) / l, (uu[1] * x + uu[0] * y) / l), "%s: normal at the eccentric angle %r" % (E, t), 1.0, 1e-9 * a / b)
    # orthogonal to the conjugate diameter
    v = (float(R[0] - S[0]), float(R[1] - S[1]))
    ctx.close(n[0] * v[0] + n[1] * v[1], 0.0, "%s: normal against conjugate diameter" % E, math.hypot(*v), 1e-9 * a / b)
    ctx.outcome("diameter")


def circle_angle(ctx, O, r, d, deg, rep):
    C = mkcircle(ctx, O, r, rep)
    c, s = cs(d)
    th = float(d) if deg else float(d) * PI / 180
    w = "circle %s radius %s at %r" % (fpt(O), float(r), th)
    want = (float(O[0]) + float(r) * c, float(O[1]) + float(r) * s)
    ctx.state((O, r, d, deg))
    ctx.close_pt(ctx.call(C.point_from_angle, th, deg), want, w, float(r) + math.hypot(*fpt(O)), 1e-12 * max(1.0, abs(th)))
    E = ctx.call(C.as_ellipse)
    ctx.close_pt(ctx.call(E.point_from_angle, th, deg), want, w + " as an ellipse", float(r) + math.hypot(*fpt(O)), 1e-12 * max(1.0, abs(th)))
    ctx.outcome("circle")


def scaled(f):
    """the same case k times larger"""
    def h(ctx, k, O, u, ab, *a):
        return f(ctx, mul(k, ept(O)), u, (fr(ab[0]) * k, fr(ab[1]) * k), *a)
    return h


KSC = [Fr(1, 8192), Fr(1, 50), 300, 8192, 1 << 24]


def spaces(tier):
    q = tier == "quick"
    NEARD = sorted(set(Fr(45 * k) + s * e for k in (range(-4, 9) if q else range(-16, 25)) for e in LADDER for s in (1, -1)))
    NR = [(1 + e, 1) for e in LADDER] + [(2, 1), (50, 1), (4000, 1)]
    return [
        Product("angle, near the axes", [("center", CEN[:1]), ("axis", AX[1:3]), ("radii", NR), ("ellipse degrees", [True, False]), ("angle", NEARD), ("degrees", [True, False])], angle),
        Product("diameter, near the axes", [("center", CEN[:1]), ("axis", AX[1:3] + near_turns(LADDER[1::2])), ("radii", NR), ("ellipse degrees", [True, False]), ("parameter", near_turns(LADDER[::2])), ("turns", [0])], diameters),
        Product("circle, near the axes", [("center", CEN), ("radius", [1, Fr(5, 2)]), ("angle", NEARD), ("degrees", [True, False]), ("rep", ["a"])], circle_angle),
        Product("angle", [("center", CEN[:2] if q else CEN), ("axis", AX[1:4] if q else AX), ("radii", RAD), ("ellipse degrees", [True, False]), ("angle", DEG[::3] + DEG[1:90:3] if q else DEG), ("degrees", [True, False])], angle),
        Product("vector", [("center", CEN[:2]), ("axis", AX[1:4]), ("radii", RAD[:4]), ("ellipse degrees", [True, False]), ("k", range(13)), ("degrees", [True, False]), ("how", ["list", "tuple", "array", "ints"])], vector),
        Product("diameter", [("center", CEN), ("axis", AX), ("radii", RAD), ("ellipse degrees", [True, False]), ("parameter", PAR), ("turns", [0, 1] if q else [0, 1, -1, 3])], diameters),
        Product("angle, other scales", [("k", KSC), ("center", CEN), ("axis", AX[::2]), ("radii", RAD[::2]), ("ellipse degrees", [True, False]), ("angle", DEG[::11]), ("degrees", [True, False])], scaled(angle)),
        Product("diameter, other scales", [("k", KSC), ("center", CEN), ("axis", AX[::2]), ("radii", RAD[::2]), ("ellipse degrees", [True, False]), ("parameter", PAR[::3]), ("turns", [0])], scaled(diameters)),
        Product("circle", [("center", CEN), ("radius", [1, Fr(5, 2), 40]), ("angle", DEG), ("degrees", [True, False]), ("rep", ["a", "i"])], circle_angle),
    ]
