from mc.triangles import *

ASSUMPTIONS = ["acuteness is not asked of right triangles", "points tested against a triangle are off its side lines by at least 1e-4 of its size",
               "orientation 0 and flatness 1 are asked exactly of triangles whose coordinates are exact in floating point, up to rounding of the others",
               "measures of triangles with coincident vertices: lengths, orientation, flatness only"]
EXACT = [FRAMES[0], FRAMES[1], FRAMES[3], FRAMES[4], FRAMES[7], FRAMES[8]]


def measures(ctx, t, F, rep):
    T = Tri(ctx, t, F, rep)
    A, B, C = T.V
    o, w = T.o, T.w
    L = (T.a, T.b, T.c)
    for n, v in zip("abc", L):
        ctx.close(num(ctx.get(o, n), n), v, "side %s of the %s" % (n, w), T.size, 1e-12)
    E = ctx.get(o, "edges")
    ctx.ok(isinstance(E, dict) and sorted(E) == ["a", "b", "c"], "edges of the %s: %s", w, show(E))
    for n, v in zip("abc", L):
        ctx.close(num(E[n], n), v, "edge %s of the %s" % (n, w), T.size, 1e-12)
    exact = F in EXACT and all(fr(float(x)) == x for p in T.V for x in p)
    s = T.sign
    if s != 0 or exact:
        r = num(ctx.get(o, "orientation"), "orientation")
        ctx.ok(r == s, "orientation of the %s: %r", w, r)
    f = num(ctx.get(o, "flatness"), "flatness")
    if s == 0:
        ctx.ok(f == 1 if exact else f >= 1 - 1e-12, "flatness of the flat %s: %r", w, f)
    else:
        u, v = sub(B, A), sub(C, A)
        want = float(dot(u, v)) ** 2 / (float(n2(u)) * float(n2(v)))
        ctx.close(f, want, "flatness of the %s" % w, 1.0, 1e-9)
        ctx.ok(f < 1, "flatness of the %s: %r", w, f)
    if T.a == 0 or T.b == 0 or T.c == 0:
        ctx.outcome("coincident vertices")
        return
    tot = 0.0
    for k in range(3):
        P, Q, R = T.V[k], T.V[(k + 1) % 3], T.V[(k + 2) % 3]
        u, v = sub(Q, P), sub(R, P)
        want = math.atan2(abs(float(det(u, v))), float(dot(u, v)))
        got = num(ctx.get(o, "angle" + "ABC"[k]), "angle" + "ABC"[k])
        tot += got
        ctx.close(got, want, "angle at %s of the %s" % ("ABC"[k], w), 1.0, 1e-6 if s == 0 else 1e-9 * T.thin)
    ctx.close(tot, PI, "sum of the angles of the %s" % w, 1.0, 1e-6 if s == 0 else 1e-9 * T.thin)
    q = sorted([n2(sub(A, B)), n2(sub(B, C)), n2(sub(A, C))])
    if q[0] + q[1] != q[2]:
        r = boolean(ctx.get(o, "is_acute"), "is_acute")
        ctx.ok(r == (q[0] + q[1] > q[2]), "is_acute of the %s: %r", w, r)
    ctx.outcome("flat" if s == 0 else "counterclockwise" if s > 0 else "clockwise")


# barycentric coordinates, from well inside to well outside
BARY = [(x, y, 24 - x - y) for x in (-9, -1, 1, 5, 8, 23, 30) for y in (-5, -1, 1, 8, 22)]
BARY += [(Fr(1, 1000), 12, 12 - Fr(1, 1000)), (Fr(-1, 1000), 12, 12 + Fr(1, 1000)), (12, Fr(1, 1000), 12 - Fr(1, 1000)), (12, Fr(-1, 1000), 12 + Fr(1, 1000)), (12, 12 + Fr(1, 1000), Fr(-1, 1000)), (12, 12 - Fr(1, 1000), Fr(1, 1000))]
# all the eighths inside, and the points beyond the sides in line with them
BARY += [(3 * x, 3 * y, 24 - 3 * x - 3 * y) for x in range(-1, 10) for y in range(-1, 10) if x + y <= 9 and (x < 0) + (y < 0) + (x + y > 8) <= 1]
BARY = [b for b in BARY if 0 not in b]


NEARB = [x for e in LADDER for f in (e, -e) for x in ((f, 12 - f, 12), (12, f, 12 - f), (5 - f, 19, f), (f, f, 24 - 2 * f), (24 - 2 * f, f, f), (f, 24 + f, -2 * f))]


def inside(ctx, t, F, rep, bary=None):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F)
    for b in bary or BARY:
        P = mul(Fr(1, 24), add(add(mul(b[0], T.V[0]), mul(b[1], T.V[1])), mul(b[2], T.V[2])))
        r = boolean(ctx.call(T.o.contains, as_pt(P, rep)), "contains")
        ctx.ok(r == (min(b) > 0), "%s contains the point %s of barycentric coordinates %s: %r", T.w, fpt(P), b, r)
    ctx.outcome("inside")


def spaces(tier):
    q = tier == "quick"
    S = shapes(2 if q else 3)
    return [
        Product("measures, narrow", [("triangle", narrow_shapes()), ("frame", FN + MICRO), ("rep", ["a"])], measures),
        Product("measures, extreme sizes", [("triangle", S), ("frame", MICRO), ("rep", ["a"])], measures),
        Product("inside, extreme sizes", [("triangle", S[::5]), ("frame", MICRO), ("rep", ["a"])], inside),
        Product("inside, narrow", [("triangle", narrow_shapes(LADDER[:4])), ("frame", FN), ("rep", ["a"])], inside),
        Product("inside, near a side", [("triangle", S[::5]), ("frame", FN + MICRO), ("rep", ["a"])], lambda ctx, t, F, rep: inside(ctx, t, F, rep, NEARB)),
        Product("measures", [("triangle", S), ("frame", F6 if q else FRAMES), ("rep", ["a"] if q else ["a", "i"])], measures),
        Product("flat", [("triangle", flat_shapes() + degenerate_shapes()), ("frame", FRAMES), ("rep", ["a", "i"])], measures),
        Product("inside", [("triangle", S), ("frame", F4 if q else FRAMES), ("rep", ["a"] if q else ["a", "t"])], inside),
    ]
