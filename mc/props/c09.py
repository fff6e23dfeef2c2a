from mc.lib import *

ASSUMPTIONS = ["the two angles of an arc do not differ by a whole number of turns (its span would be ambiguous)"]
DEG = [0, 30, 45, 90, 123.5, 180, 200, 270, 300, 359, 405, 540, -15, -90, -200, -400, 1000]


def rad(d):
    return d * PI / 180


def pat(c, r, d):
    """point at d degrees, exact at multiples of 90"""
    d = d % 360
    if d % 90 == 0:
        x, y = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(d // 90)]
    else:
        x, y = math.cos(rad(d)), math.sin(rad(d))
    return (c[0] + r * x, c[1] + r * y)


def arc(ctx, a1, a2, n, deg, c, r):
    if (a1 - a2) % 360 == 0:
        raise Skip
    A = ctx.call(g.Arc, c, r, a1 if deg else rad(a1), a2 if deg else rad(a2), deg)
    size = abs(c[0]) + abs(c[1]) + r
    w = "arc center %s radius %s from %s to %s degrees (%s)" % (c, r, a1, a2, "given in degrees" if deg else "given in radians")
    ctx.state((a1, a2, n, deg, c, r))
    ctx.close_pt(ctx.call(A.starting_point), pat(c, r, a1), w + ": starting point", size, 1e-9)
    ctx.close_pt(ctx.call(A.ending_point), pat(c, r, a2), w + ": ending point", size, 1e-9)
    p = ctx.call(A.path, n)
    ctx.ok(len(p) == n, "%s: path(%d) has %d points", w, n, len(p))
    span = (a2 - a1) % 360
    for k in range(n):
        want = pat(c, r, a1 + (span * k / (n - 1) if n > 1 else 0))
        ctx.close_pt(p[k], want, w + ": point %d of path(%d)" % (k, n), size, 1e-9)
    ctx.outcome("arc")


def narrow(ctx, a1, span, n, deg, c, r):
    arc(ctx, a1, a1 + span, n, deg, c, r)


def default(ctx, a1, a2, c, r):
    if (a1 - a2) % 360 == 0:
        raise Skip
    A = ctx.call(g.Arc, c, r, a1, a2)
    ctx.state(("d", a1, a2))
    p, q = ctx.call(A.path), ctx.call(A.path, 100)
    w = "arc from %s to %s degrees" % (a1, a2)
    ctx.ok(len(p) == 100, "%s: default path has %d points, documented 100", w, len(p))
    for x, y in zip(p, q):
        ctx.close_pt(x, pt(y), w + ": default path", 1.0, 1e-9)
    ctx.close_pt(p[-1], pat(c, r, a2), w + ": last point", 10.0, 1e-9)
    ctx.outcome("default")


def circ(ctx, d, c, r, deg):
    C = ctx.call(g.Circle, c, r)
    ctx.state((d, c, r, deg))
    w = "%s at %s degrees (%s)" % (show(C), d, deg)
    p = ctx.call(C.point_from_angle, d if deg else rad(d), deg)
    ctx.close_pt(p, pat(c, r, d), w, abs(c[0]) + abs(c[1]) + r, 1e-9)
    if deg:
        ctx.close_pt(ctx.call(C.point_from_angle, d), pat(c, r, d), w + " by default", abs(c[0]) + abs(c[1]) + r, 1e-9)
    ctx.outcome("circle")


def ell(ctx, n, O, ab, al, deg):
    a, b = ab
    E = ctx.call(g.Ellipse, O, a, b, al if deg else rad(al), deg)
    ctx.state((n, O, ab, al, deg))
    w = "path(%s) of %s" % (n, show(E))
    p = ctx.call(E.path, n) if n != 100 else ctx.call(E.path)
    ctx.ok(len(p) == n, "%s has %d points", w, len(p))
    c, s = math.cos(rad(al)), math.sin(rad(al))
    ts = []
    for k in range(n):
        x, y = pt(p[k], w)
        x, y = x - O[0], y - O[1]
        u, v = (c * x + s * y) / a, (-s * x + c * y) / b
        ctx.close(math.hypot(u, v), 1.0, w + ": point %d, normalized distance" % k, 1.0, 1e-7)
        ts.append(math.atan2(v, u))
    for k in range(n):
        d = (ts[(k + 1) % n] - ts[k]) % (2 * PI)
        ctx.ok(angle_diff(d, 2 * PI / n, 2 * PI) <= 1e-6, "%s: step %d of the eccentric angle is %r, expected %r", w, k, d, 2 * PI / n)
    ctx.outcome("ellipse")


def spaces(tier):
    q = tier == "quick"
    D = DEG if q else DEG + [1, 89, 3605, 36000.5,  91, 179, 181, 269, 271, -1, -179, -181, 720.25, -360, 360]
    T = [k * 90 + s * d for k in range(-3, 6) for d in (1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1) for s in (1, -1)]
    return [
        Product("circle, near the axes", [("angle", T), ("center", [(0, 0), (3, -2)]), ("radius", [1, 40]), ("degrees", [True, False])], circ),
        Product("ellipse, near the axes", [("n", [4, 7]), ("O", [(3, -2)]), ("radii", [(2, 1), (5, 0.5), (1 + 1e-6, 1)]), ("alpha", T), ("degrees", [True, False])], ell),
        Product("arc", [("alpha1", D), ("alpha2", D), ("n", [1, 2, 3, 8, 33, 130]), ("degrees", [True, False]), ("center", [(0, 0), (3, -2)] if q else [(0, 0), (3, -2), (100, 50)]), ("radius", [1, 2.5] if q else [1, 2.5, 0.01])], arc),
        Product("short and nearly full arcs", [("alpha1", [0, 10, 90, 123.5, 180, -15, 405, -400]), ("span", [1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1, 359, 359.9, 359.99, 359.999, 359.9999, 359.99999]), ("n", [1, 2, 5, 33]), ("degrees", [True, False]), ("center", [(3, -2)]), ("radius", [1, 2.5])], narrow),
        Product("arcs of all sizes", [("alpha1", [0, 30, 123.5, -90, -1000, 7250]), ("alpha2", [0, 200, -15, 405, -725, 3605]), ("n", [1, 2, 5]), ("degrees", [True, False]), ("center", [(0, 0), (3, -2), (3000, -4000)]), ("radius", [1 / 8192.0, 0.01, 40, 9000, 65536.5])], arc),
        Product("long paths of arcs", [("alpha1", [0, 123.5, -400]), ("alpha2", [10, 359, 725]), ("n", [128, 200, 257, 360, 361, 500, 1000, 1001] + ([] if q else [2000, 5000, 10000])), ("degrees", [True, False]), ("center", [(3, -2)]), ("radius", [2.5])], arc),
        Product("long paths of ellipses", [("n", [128, 200, 257, 360, 361, 500, 1000, 1001] + ([] if q else [2000, 5000, 10000])), ("O", [(3, -2)]), ("radii", [(2, 1), (5, 0.5)]), ("alpha", [0, 30, -45]), ("degrees", [True, False])], ell),
        Product("default", [("alpha1", D), ("alpha2", D), ("center", [(1, 2)]), ("radius", [3])], default),
        Product("circle", [("angle", DEG + [15 * k for k in range(-30, 50)]), ("center", [(0, 0), (3, -2), (-100, 0.5), (3000, 4000)]), ("radius", [1, 0.25, 40, 1 / 8192.0, 9000]), ("degrees", [True, False])], circ),
        Product("ellipse", [("n", [1, 2, 3, 4, 5, 12, 100]), ("O", [(0, 0), (3, -2)]), ("radii", [(2, 1), (5, 0.5), (1, 1), (0.2, 0.15), (9000, 300), (0.002, 0.001)]), ("alpha", [0, 30, 90, 100, 180, -45, 400]), ("degrees", [True, False])], ell),
    ]
