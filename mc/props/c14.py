from mc.lib import *
from mc.props.c11 import rp, chk_img
from mc.props.c12 import GEN, real

ASSUMPTIONS = ["the points of a triple, the radii of circles and the distances between points are at least 1e-5 (compared with the farthest one)",
               "points that are not on a common circle or line have a cross ratio with imaginary part at least 1e-6"]
ZS = [INF, G(0), G(1), G(0, 1), G(-1, 2), G(Fr(1, 2), Fr(-3, 2)), G(3, 1)]


KM = [(G(Fr(1, 8192)), G(0)), (G(0, 700), G(0)), (G(Fr(3, 250), Fr(4, 250)), G(2, -1)), (G(1), G(90, -70)), (G(1), G(0))]


def triples(Z):
    return [(a, b, c) for a in Z for b in Z for c in Z if not (a is b or a is c or b is c)]


def moved(k, t, Z):
    return [z if isinstance(z, str) else k * z + t for z in Z]


def from3(ctx, P, Q, rep, kp=None, kq=None):
    big = 1.0
    if kp is not None:
        P, Q = moved(kp[0], kp[1], P), moved(kq[0], kq[1], Q)
        big = math.sqrt(float(kq[0].n2()))
    m = ctx.call(g.Mobius.from_mapping_three_points, *([rp(z, rep) for z in P] + [rp(z, rep) for z in Q]))
    ctx.state((str(P), str(Q)))
    w = "Moebius map sending %s to %s" % (P, Q)
    ctx.ok(isinstance(m, g.Mobius), "%s: got %s", w, show(m))
    M = [complex(x) for x in np.asarray(m.M).ravel()]
    ctx.ok(all(abs(x) < 1e9 for x in M), "%s: matrix %s", w, M)
    d = abs(M[0] * M[3] - M[1] * M[2]) / max(abs(x) for x in M) ** 2
    ctx.ok(d > 1e-9, "%s: singular matrix %s", w, M)
    for a, b in zip(P, Q):
        r = ctx.call(m.transform, rp(a))
        if isinstance(b, str):
            if not is_infinity(r):
                p = pt(r, w)
                ctx.ok(math.hypot(*p) > 1e7 * big, "%s: %s is sent to %s", w, a, p)
        elif is_infinity(r):
            raise Violation("%s: %s is sent to infinity" % (w, a))
        else:
            ctx.close_pt(r, b.t(), "%s: image of %s" % (w, a), 10.0 * big + (0.0 if kq is None else 1e-3 * math.sqrt(float(kq[1].n2()))), 1e-8)
    ctx.outcome("infinities %d" % (sum(isinstance(z, str) for z in P + Q)))


def degenerate(ctx, P, Q, which, pair):
    """repeated points give no map"""
    P, Q = list(P), list(Q)
    X = P if which == 0 else Q
    X[pair[0]] = X[pair[1]]
    ctx.state(("deg", str(P), str(Q)))
    try:
        r = ctx.call(g.Mobius.from_mapping_three_points, *([rp(z) for z in P] + [rp(z) for z in Q]))
    except Violation as e:
        if "ValueError" in str(e):
            return
        raise
    ctx.ok(r is None, "repeated points %s -> %s gave %s", P, Q, show(r))
    ctx.outcome("repeated")


def one(ctx, c1, r1, c2, r2, F):
    C1, C2 = mkcircle(ctx, F(c1), F.len(r1)), mkcircle(ctx, c2, r2)
    m = ctx.call(g.Mobius.from_mapping_one_circle, C1, C2)
    ctx.state((F(c1), r1, c2, r2))
    w = "Moebius map of %s onto %s" % (show(C1), show(C2))
    ctx.ok(isinstance(m, g.Mobius), "%s: %s", w, show(m))
    c, r = fpt(F(c1)), float(F.len(r1))
    k, n, seen = fpt(c2), 0, []
    for i in range(24):
        t = 2 * PI * i / 24 + 0.05
        z = ctx.call(m.transform, (c[0] + r * math.cos(t), c[1] + r * math.sin(t)))
        if is_infinity(z):
            raise Violation("%s: a point of the circle is sent to infinity" % w)
        p = pt(z)
        ctx.close(math.hypot(p[0] - k[0], p[1] - k[1]), float(r2), w + ": distance of the image of a point to the center", float(r2) + math.hypot(*k), 1e-6)
        seen.append(p)
    x = max(math.hypot(p[0] - q[0], p[1] - q[1]) for p in seen for q in seen)
    ctx.ok(x > 0.1 * float(r2), "%s: the images of the points of the circle are all near %s", w, seen[0])
    chk_circle(ctx, ctx.call(m.transform_circle, C1), c2, r2, w + ": transform_circle", 10 * (float(r2) + math.hypot(*k)), 1e-6)
    ctx.outcome("circle to circle")


def cr(z1, z2, z3, z4):
    return (z1 - z4) / (z1 - z2) * (z3 - z2) / (z3 - z4)


def cross(ctx, z2, z3, z4, rep, k=None):
    z1 = G(0)
    if k is not None:
        z1, z2, z3, z4 = moved(k[0], k[1], (z1, z2, z3, z4))
    zs = [z1, z2, z3, z4]
    if len(set(z.key() for z in zs)) < 4:
        ctx.refuses(g.cross_ratio, *[rp(z, rep) for z in zs])
        ctx.outcome("repeated")
        return
    want = cr(*zs)
    ctx.state(tuple(z.key() for z in zs))
    r = complex(ctx.call(g.cross_ratio, *[rp(z, rep) for z in zs]))
    s = abs(complex(want))
    ctx.close(r, complex(want), "cross ratio of %s" % zs, 1 + s, 1e-9)
    real_ = want.im == 0
    ctx.ok((abs(r.imag) <= 1e-9 * (1 + s)) == real_, "cross ratio of %s is %r, %s", zs, r, "real" if real_ else "not real")
    # permutations of the arguments
    p = complex(ctx.call(g.cross_ratio, *[rp(zs[i], rep) for i in (2, 1, 0, 3)]))
    ctx.close(p, complex(cr(zs[2], zs[1], zs[0], zs[3])), "cross ratio of %s exchanged" % zs, 1 + abs(p), 1e-9)
    for n, M in GEN[:9] if k is None else ():
        w = [mact(M, z) for z in zs]
        if any(isinstance(x, str) for x in w):
            continue
        m = real(ctx, M)
        im = [pt(ctx.call(m.transform, rp(z))) for z in zs]
        q = complex(ctx.call(g.cross_ratio, *im))
        ctx.close(q, r, "cross ratio of %s after %s" % (zs, n), 1 + s, 1e-6)
    ctx.outcome("real" if real_ else "complex")


def close3(ctx, P, Q, d, ij, where):
    """a point of a triple moved next to another one"""
    P, Q = list(P), list(Q)
    X = P if where == 0 else Q
    i, j = ij
    if isinstance(X[i], str) or isinstance(X[j], str):
        raise Skip
    X[i] = X[j] + G(d, -d)
    m = ctx.call(g.Mobius.from_mapping_three_points, *([rp(z) for z in P] + [rp(z) for z in Q]))
    ctx.state((str(P), str(Q)))
    w = "Moebius map sending %s to %s" % (P, Q)
    ctx.ok(isinstance(m, g.Mobius), "%s: got %s", w, show(m))
    for a, b in zip(P, Q):
        r = ctx.call(m.transform, rp(a))
        if isinstance(b, str):
            ctx.ok(is_infinity(r) or math.hypot(*pt(r, w)) > 1e6, "%s: %s is sent to %s", w, a, show(r))
        else:
            ctx.ok(not is_infinity(r), "%s: %s is sent to infinity", w, a)
            ctx.close_pt(r, b.t(), "%s: image of %s" % (w, a), 10.0, 1e-13 / float(d) + 1e-9)
    ctx.outcome("close")


def cross_narrow(ctx, z2, z3, z4, d, what):
    z = [G(0), z2, z3, z4]
    if what < 3:
        z[what + 1] = z[what] + G(d, d / 2)
    else:
        # the fourth point on the circle or line of the others (cross ratio 3/2), moved by d
        if not (z[2] - z[1]) or not (z[0] - z[1]):
            raise Skip
        q = G(Fr(3, 2)) * (z[0] - z[1]) / (z[2] - z[1]) * G(-1)
        if q == G(1):
            raise Skip
        z[3] = (z[0] - q * z[2]) / (G(1) - q) + G(0, d)
    if len(set(x.key() for x in z)) < 4:
        raise Skip
    want = cr(*z)
    s = abs(complex(want))
    ctx.state(tuple(x.key() for x in z))
    r = complex(ctx.call(g.cross_ratio, *[rp(x) for x in z]))
    ctx.close(r, complex(want), "cross ratio of %s" % z, 1 + s, 1e-8)
    ctx.outcome("real" if want.im == 0 else "complex")


def all_spaces(tier):
    q = tier == "quick"
    T = triples(ZS[:5])
    S = triples(ZS[:5]) if q else triples(ZS)
    G3 = [G(x, y) for x, y in grid(1)] + [G(2, 1), G(Fr(1, 2), -2)]
    if not q:
        G3 += [G(x, y) for x, y in grid(2) if max(abs(x), abs(y)) == 2]
    cs = [((0, 0), 1), ((3, -2), Fr(1, 2)), ((-1, 5), 4), ((0, 1), 1), ((Fr(1, 2), 0), Fr(5, 2)), ((40, 30), 7)]
    return [
        Product("three points", [("from", T), ("to", S), ("rep", ["a"] if q else ["a", "i"])], from3),
        Product("three points, other scales", [("from", T[::3]), ("to", S[1::5]), ("rep", ["a"]), ("kp", KM), ("kq", KM)], from3),
        Product("repeated", [("from", T[::5]), ("to", T[::7]), ("which", [0, 1]), ("pair", [(0, 1), (0, 2), (1, 2)])], degenerate),
        Product("one circle", [("c1", [c for c, r in cs]), ("r1", [1, Fr(5, 2), Fr(1, 4)]), ("c2", [c for c, r in cs]), ("r2", [1, 3, Fr(1, 3)]), ("frame", F3[:2] if q else F6)], one),
        Product("cross ratio", [("z2", G3), ("z3", G3), ("z4", G3), ("rep", ["a"] if q else REPS)], cross),
        Product("close points", [("from", T[::3]), ("to", S[1::5]), ("by", LADDER[:5]), ("pair", [(0, 1), (2, 0), (1, 2)]), ("where", [0, 1])], close3),
        Product("cross ratio, narrow", [("z2", G3[1:]), ("z3", G3[1:]), ("z4", G3[1:]), ("by", LADDER), ("what", [0, 1, 2, 3])], cross_narrow),
        Product("cross ratio, tiny and huge", [("z2", G3), ("z3", G3), ("z4", G3), ("rep", ["a"]), ("k", [(G(Fr(1, 1 << 30)), G(0)), (G(1 << 30), G(0)), (G(0, Fr(1, 1 << 24)), G(0))])], cross),
        Product("cross ratio, other scales", [("z2", G3), ("z3", G3), ("z4", G3), ("rep", ["a"]), ("k", KM[:4])], cross),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "one circle")
