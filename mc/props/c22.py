from mc.triangles import *

ASSUMPTIONS = ["smallest angle of a triangle at least 1.5 degrees (Malfatti circles, detour; 0.002 degrees for Steiner ellipses)", "flat triangles are exactly flat up to rounding"]


def malfatti(ctx, t, F):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F)
    tol = 1e-9 * T.thin * T.thin
    m = ctx.call(T.o.malfatti_circles)
    ctx.ok(isinstance(m, dict) and isinstance(m.get("circles"), dict) and isinstance(m.get("tangency_points"), dict), "malfatti_circles: %s", show(m))
    K, P = m["circles"], m["tangency_points"]
    ctx.ok(sorted(K) == ["cA", "cB", "cC"] and sorted(P) == ["TA", "TB", "TC"], "malfatti_circles: names %s %s", sorted(K), sorted(P))
    C = [cc(ctx, K["c" + x], "Malfatti circle %s of the %s" % (x, T.w)) for x in "ABC"]
    for k in range(3):
        c, r = C[k]
        for i in range(3):
            d = T.signed(c, i)
            w = "Malfatti circle %s of the %s: distance of its center to the side opposite to %s" % ("ABC"[k], T.w, "ABC"[i])
            if i == k:
                ctx.ok(d > r * (1 + 1e-9) - tol * T.size, "%s is %r, not more than the radius %r", w, d, r)
            else:
                ctx.close(d, r, w, T.size, tol)
        i, j = (k + 1) % 3, (k + 2) % 3
        (c1, r1), (c2, r2) = C[i], C[j]
        w = "Malfatti circles %s and %s of the %s" % ("ABC"[i], "ABC"[j], T.w)
        ctx.close(math.hypot(c1[0] - c2[0], c1[1] - c2[1]), r1 + r2, w + ": distance of the centers", T.size, tol)
        p = pt(P["T" + "ABC"[k]], "tangency point")
        for c, r in (C[i], C[j]):
            ctx.close(math.hypot(p[0] - c[0], p[1] - c[1]), r, w + ": distance of the tangency point T%s to a center" % "ABC"[k], T.size, tol)
    ctx.outcome("Malfatti")


def detour(ctx, t, F):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F)
    r = ctx.call(T.o.equal_detour_point)
    ctx.ok(isinstance(r, (tuple, list)) and len(r) == 2, "equal_detour_point: %s", show(r))
    p, d = pt(r[0], "equal detour point"), num(r[1], "detour")
    e = [math.hypot(p[0] - v[0], p[1] - v[1]) for v in T.f]
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        ctx.close(e[i] + e[j] - (T.a, T.b, T.c)[k], d, "%s: detour of the trip %s%s through %s" % (T.w, "ABC"[i], "ABC"[j], p), T.size, 1e-9 * T.thin)
    ctx.ok(d > 0, "%s: detour %r", T.w, d)
    ctx.outcome("detour")


def steiner(ctx, t, F):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F)
    A, B, C = T.V
    O = mul(Fr(1, 3), add(add(A, B), C))
    x = y = z = F0
    for v in T.V:
        p = sub(v, O)
        x, y, z = x + p[0] * p[0], y + p[0] * p[1], z + p[1] * p[1]
    D = (x * z - y * y) / Fr(3, 2)
    S = (z / D, -y / D, x / D)
    for f, k, n in ((T.o.steiner_ellipse, 1, "Steiner ellipse"), (T.o.steiner_inellipse, 4, "Steiner inellipse")):
        e = ctx.call(f)
        con = Conic(O, tuple(k * s for s in S))
        chk_ellipse(ctx, e, con, "%s of the %s" % (n, T.w), T.size, 1e-9 * max(T.thin, 3) ** 2)
        P = T.V if k == 1 else [mid(T.V[i], T.V[j]) for i, j in ((0, 1), (1, 2), (0, 2))]
        assert all(con.q(p) == 1 for p in P)
        a, b, al = float(e.rmajor), float(e.rminor), float(e.alpha) * (PI / 180 if e.degrees else 1)
        for p in P:
            dx, dy = float(p[0]) - float(e.center[0]), float(p[1]) - float(e.center[1])
            u, v = (math.cos(al) * dx + math.sin(al) * dy) / a, (math.cos(al) * dy - math.sin(al) * dx) / b
            ctx.close(u * u + v * v, 1.0, "%s of the %s at %s" % (n, T.w, fpt(p)), 1.0, 1e-9 * max(T.thin, 3) ** 2 * max(1.0, (T.size / T.long) ** 2))
    ctx.outcome("Steiner")


def flat(ctx, t, F):
    T = Tri(ctx, t, F)
    for f in (T.o.malfatti_circles, T.o.steiner_ellipse, T.o.steiner_inellipse):
        r = ctx.call(f)
        ctx.ok(r is None, "%s of the flat %s: %s", f.__name__, T.w, show(r))
    ctx.outcome("flat")


def spaces(tier):
    q = tier == "quick"
    S, FS = shapes(2 if q else 3), (F6[:5] if q else FRAMES)
    return [
        Product("Malfatti circles, narrow", [("triangle", narrow_shapes(LADDER[:2])), ("frame", FN)], malfatti),
        Product("equal detour point, narrow", [("triangle", narrow_shapes(LADDER[:3])), ("frame", FN)], detour),
        Product("Steiner ellipses, narrow", [("triangle", narrow_shapes(LADDER[:4])), ("frame", FN)], steiner),
        Product("Malfatti circles, extreme sizes", [("triangle", shapes(2)[::3]), ("frame", MICRO)], malfatti),
        Product("equal detour point, extreme sizes", [("triangle", shapes(2)[::3]), ("frame", MICRO)], detour),
        Product("Steiner ellipses, extreme sizes", [("triangle", shapes(2)[::3]), ("frame", [MICRO[0], MICRO[2], MICRO[3]])], steiner),
        Product("Malfatti circles", [("triangle", S), ("frame", FS)], malfatti),
        Product("equal detour point", [("triangle", S), ("frame", FS)], detour),
        Product("Steiner ellipses", [("triangle", S), ("frame", FS if q else FRAMES)], steiner),
        Product("flat", [("triangle", flat_shapes() + degenerate_shapes()), ("frame", FRAMES)], flat),
    ]
