from mc.triangles import *
from mc.affine import *

ASSUMPTIONS = ["smallest angle of a triangle at least 0.01 degrees", "tangent lines and circles are compared by their common points only when they are not nearly tangent"]


def two_points(ctx, P, Q, F, rep):
    """circleAB and circleOA"""
    if ept(P) == ept(Q):
        raise Skip
    A, B = F(P), F(Q)
    d = fdist(A, B)
    s = d + math.hypot(*fpt(A)) + math.hypot(*fpt(B))
    if d <= 4e-8 or d <= 4e-9 * s:      # taken as coincident
        raise Skip
    a, b = as_pt(A, rep), as_pt(B, rep)
    ctx.state((A, B))
    C = ctx.call(g.circleAB, a, b)
    w = "circle with diameter %s %s" % (fpt(A), fpt(B))
    chk_circle(ctx, C, mid(A, B), d / 2, w, s, 1e-13)
    O = ctx.call(g.circleOA, a, b)
    v = "circle with center %s through %s" % (fpt(A), fpt(B))
    chk_circle(ctx, O, A, d, v, s, 1e-13)
    if d > 1e-5 * s:
        for X in (a, b):
            ctx.ok(boolean(ctx.call(C.includes, X), w), "%s does not include its end %s", w, show(X))
        ctx.ok(boolean(ctx.call(O.includes, b), v), "%s does not include that point", v)
    D = ctx.call(g.circleAB, b, a)
    chk_circle(ctx, D, mid(A, B), d / 2, w + " (ends exchanged)", s, 1e-13)
    ctx.outcome("two points")


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def triangle(ctx, t, F):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F)
    tol = 1e-10 * T.thin * T.thin
    A, B, C = T.V
    u, v = sub(B, A), sub(C, A)
    D = 2 * det(u, v)
    O = add(A, ((v[1] * n2(u) - u[1] * n2(v)) / D, (u[0] * n2(v) - v[0] * n2(u)) / D))
    H = sub(add(add(A, B), C), mul(2, O))
    N = mid(O, H)
    R = fdist(O, A)
    s = T.size + R
    V = [as_pt(p) for p in T.V]
    # the circles on the sides
    K = [ctx.call(g.circleAB, V[(i + 1) % 3], V[(i + 2) % 3]) for i in range(3)]
    ctx.close_pt(ctx.call(g.radical_center, *K), H, "radical center of the circles on the sides of the %s" % T.w, s, tol)
    # nine-point circle by three routes; the orthic triangle of a right triangle is flat
    right = any(n2(sub(T.V[(i + 1) % 3], T.V[i])) + n2(sub(T.V[(i + 2) % 3], T.V[i])) == n2(sub(T.V[(i + 1) % 3], T.V[(i + 2) % 3])) for i in range(3))
    med = ctx.call(g.Triangle, *[as_pt(mid(T.V[(i + 1) % 3], T.V[(i + 2) % 3])) for i in range(3)])
    chk_circle(ctx, ctx.call(med.circumcircle), N, R / 2, "circumcircle of the medial triangle of the %s" % T.w, s, tol)
    hom = ctx.call(g.Homothety, as_pt(H), 0.5)
    circ = ctx.call(T.o.circumcircle)
    chk_circle(ctx, ctx.call(hom.transform_circle, circ), N, R / 2, "circumcircle of the %s under the homothety of ratio 1/2 at the orthocenter" % T.w, s, tol)
    h = ctx.call(T.o.orthic_triangle)
    q = [float(n2(sub(T.V[(i + 1) % 3], T.V[(i + 2) % 3]))) for i in range(3)]
    cosm = min(abs(q[(i + 1) % 3] + q[(i + 2) % 3] - q[i]) / (2 * math.sqrt(q[(i + 1) % 3] * q[(i + 2) % 3])) for i in range(3))
    if cosm > 1e-3 and T.thin < 1e3:
        hf = [pt(x) for x in (h.A, h.B, h.C)]
        thin = max(dist(hf[0], hf[1]), dist(hf[1], hf[2]), dist(hf[0], hf[2])) ** 2 / max(1e-300, abs((hf[1][0] - hf[0][0]) * (hf[2][1] - hf[0][1]) - (hf[1][1] - hf[0][1]) * (hf[2][0] - hf[0][0])))
        chk_circle(ctx, ctx.call(h.circumcircle), N, R / 2, "circumcircle of the orthic triangle of the %s" % T.w, s, tol * thin)
    elif right:
        ctx.ok(dist(pt(h.A), pt(h.B)) * dist(pt(h.A), pt(h.C)) * dist(pt(h.B), pt(h.C)) <= 1e-6 * T.long ** 3, "the orthic triangle of the right %s is not reduced to a segment: %s", T.w, show(h))
    # Feuerbach, Euler
    c, r = cc(ctx, ctx.call(T.o.incircle), "incircle")
    E = ctx.call(T.o.excircles)
    ex = [cc(ctx, E[k], "excircle") for k in "ABC"]
    n, o = fpt(N), fpt(O)
    big = max(x[1] for x in ex)
    ctx.close(dist(n, c), R / 2 - r, "%s: distance of the centers of the nine-point circle and of the incircle" % T.w, s + big, tol)
    ctx.close(dist(o, c) ** 2, R * (R - 2 * r), "%s: square of the distance of the incenter to the circumcenter" % T.w, s * s, 4 * tol)
    for k in range(3):
        ctx.close(dist(n, ex[k][0]), R / 2 + ex[k][1], "%s: distance of the centers of the nine-point circle and of the excircle %s" % (T.w, "ABC"[k]), s + big, tol)
    ctx.close(1 / r, sum(1 / x[1] for x in ex), "%s: sum of the inverses of the radii of the excircles" % T.w, 1 / r, tol)
    # excenters
    X = ctx.call(g.Triangle, *[np.array(x[0]) for x in ex])
    for P, Q in zip((lambda y: (y.A, y.B, y.C))(ctx.call(X.orthic_triangle)), T.V):
        ctx.close_pt(P, Q, "vertex of the orthic triangle of the excenters of the %s" % T.w, s + big, tol * T.thin)
    # orthocenter reflected in the sides and in their midpoints
    for i in range(3):
        l = ctx.call(g.Line, V[(i + 1) % 3], V[(i + 2) % 3])
        P = pt(ctx.call(ctx.call(g.Reflection, l).reflect, as_pt(H)))
        ctx.close(dist(P, o), R, "%s: distance to the circumcenter of the orthocenter reflected in the side opposite to %s" % (T.w, "ABC"[i]), s, tol)
        M = mid(T.V[(i + 1) % 3], T.V[(i + 2) % 3])
        P = ctx.call(ctx.call(g.Rotation, as_pt(M), 180).rotate, as_pt(H))
        ctx.close_pt(P, sub(mul(2, O), T.V[i]), "%s: orthocenter turned half a turn about the midpoint opposite to %s" % (T.w, "ABC"[i]), s, tol)
    ctx.outcome("right" if right else "other")


EQ = [(1.0, 0.0), (-0.5, math.sqrt(3) / 2), (-0.5, -math.sqrt(3) / 2)]


def steiner(ctx, t, F):
    if area2(*[ept(p) for p in t]) == 0:
        raise Skip
    T = Tri(ctx, t, F)
    A, B, C = T.V
    O = mul(Fr(1, 3), add(add(A, B), C))
    x = y = z = F0
    for v in T.V:
        p = sub(v, O)
        x, y, z = x + p[0] * p[0], y + p[0] * p[1], z + p[1] * p[1]
    D = (x * z - y * y) / Fr(3, 2)
    S = (z / D, -y / D, x / D)
    outer, inner = Conic(O, S), Conic(O, tuple(4 * k for k in S))
    tol = 1e-9 * max(T.thin, 3) ** 2
    aff = ctx.call(g.Affine.from_mapping_three_points, *([np.array(p) for p in EQ] + [as_pt(v) for v in T.V]))
    unit = ctx.call(ctx.call(g.Circle, (0, 0), 1).as_ellipse)
    half = ctx.call(g.Circle, (0, 0), 0.5)
    chk_ellipse(ctx, ctx.call(aff.transform_ellipse, unit), outer, "affine image of the circumcircle of an equilateral triangle on the %s" % T.w, T.size, tol)
    chk_ellipse(ctx, ctx.call(aff.transform_ellipse, ctx.call(half.as_ellipse)), inner, "affine image of the incircle of an equilateral triangle on the %s" % T.w, T.size, tol)
    e = ctx.call(T.o.steiner_ellipse)
    h = ctx.call(ctx.call(g.Homothety, as_pt(O), -0.5).as_affine)
    chk_ellipse(ctx, ctx.call(h.transform_ellipse, e), inner, "Steiner ellipse of the %s halved" % T.w, T.size, tol)
    m = ctx.call(g.Triangle, *[as_pt(mid(T.V[(i + 1) % 3], T.V[(i + 2) % 3])) for i in range(3)])
    chk_ellipse(ctx, ctx.call(m.steiner_ellipse), inner, "Steiner ellipse of the medial triangle of the %s" % T.w, T.size, tol)
    ctx.outcome("Steiner")


def close_map(ctx, f, h, P, w, size, tol=1e-9):
    """two real transformations send the points to the same points"""
    for p in P:
        p = as_pt(p)
        x, y = pt(ctx.call(f, p), w), pt(ctx.call(h, p), w)
        ctx.ok(dist(x, y) <= tol * size, "%s: %r goes to %r and %r", w, fpt(p), x, y)


PTS = [(0, 0), (1, 0), (-2, 3), (Fr(7, 2), Fr(1, 3)), (-4, -5)]


def dirline(ctx, P, u):
    return ctx.call(g.Line, as_pt(P), as_pt(add(P, u)))


def reflections(ctx, P, u, Q, v, F):
    """two successive reflections: a rotation by twice the angle of the lines, or a translation"""
    p, q, a, b = F(P), F(Q), F.vec(u), F.vec(v)
    l, m = dirline(ctx, p, a), dirline(ctx, q, b)
    r1, r2 = ctx.call(g.Reflection, l), ctx.call(g.Reflection, m)
    both = ctx.call(ctx.call(r1.as_affine).compose, r2)
    X = [F(x) for x in PTS]
    w = "reflections in the lines through %s along %s and through %s along %s" % (fpt(p), fpt(a), fpt(q), fpt(b))
    ctx.state((p, a, q, b))
    s = F.size(12)
    D = det(a, b)
    f = lambda x: ctx.call(r2.reflect, ctx.call(r1.reflect, x))
    g_ = lambda x: ctx.call(both.transform, x)
    if D == 0:
        k = mul(2, sub(foot(q, add(q, b), p), p))
        for x in X:
            ctx.close_pt(f(as_pt(x)), add(x, k), w + ": not a translation", s, 1e-9)
            ctx.close_pt(g_(as_pt(x)), add(x, k), w + " (composed): not a translation", s, 1e-9)
        ctx.outcome("translation")
        return
    t = fr(det(sub(q, p), b)) / D
    I = add(p, mul(t, a))
    s = max(s, fdist(I, X[0]) + math.hypot(*fpt(I)))
    ang = 2 * math.atan2(float(D), float(dot(a, b)))
    for deg in (True, False):
        rot = ctx.call(g.Rotation, as_pt(I), ang * 180 / PI if deg else ang, degrees=deg)
        h = lambda x: ctx.call(rot.rotate, x)
        for n, k in (("one after the other", f), ("composed", g_)):
            close_map(ctx, k, h, X, "%s (%s) against the rotation about %s by %r" % (w, n, fpt(I), ang), s)
    ctx.outcome("rotation")


def special(ctx, P, u, k, F):
    """the same map under several names"""
    p, a = F(P), F.vec(u)
    X = [F(x) for x in PTS]
    s = F.size(12) * max(1.0, abs(float(k)))
    c = as_pt(p)
    l = dirline(ctx, p, a)
    n = dirline(ctx, p, perp(a))
    v, vn = as_pt(a), as_pt(perp(a))
    f = float(k)
    w = "at %s along %s, factor %r" % (fpt(p), fpt(a), f)
    ctx.state((p, a, k))

    def t(o, x):
        return ctx.call(o.transform, x)
    if k != 0:
        H = ctx.call(g.Homothety, c, f)
        for nm, o in (("ScalingXY", ctx.call(g.ScalingXY, c, f, f)), ("composition of two scalings", ctx.call(ctx.call(ctx.call(g.Scaling, c, v, f).as_affine).compose, ctx.call(g.Scaling, c, vn, f))),
                      ("composition of two homotheties", ctx.call(ctx.call(ctx.call(g.Homothety, c, 2.0).as_affine).compose, ctx.call(g.Homothety, c, f / 2)))):
            close_map(ctx, lambda x: t(o, x), lambda x: t(H, x), X, "%s against the homothety %s" % (nm, w), s)
        S, Si = ctx.call(g.Scaling, c, v, f), ctx.call(g.Scaling, c, v, 1 / f)
        close_map(ctx, lambda x: t(Si, t(S, x)), lambda x: x, X, "scaling and the inverse scaling %s" % w, s)
        A = ctx.call(ctx.call(S.as_affine).inverse)
        close_map(ctx, lambda x: t(A, x), lambda x: t(Si, x), X, "inverse affine map of the scaling against the inverse scaling %s" % w, s * max(1.0, 1 / abs(f)))
        # two inversions with the same pole
        i1, i2 = ctx.call(g.Inversion, c, 2.0 * F.fscale ** 2), ctx.call(g.Inversion, c, 2.0 * f * F.fscale ** 2)
        for Y in X:
            if Y != p:
                y = as_pt(Y)
                ctx.close_pt(ctx.call(i2.invert, ctx.call(i1.invert, y)), pt(t(H, y)), "two inversions %s at %s" % (w, fpt(Y)), s, 1e-9)
                M = ctx.call(i1.compose, i2)
                ctx.close_pt(ctx.call(M.transform, y), pt(t(H, y)), "two inversions (composed) %s at %s" % (w, fpt(Y)), s, 1e-8 + 1e-15 * (math.hypot(*fpt(p)) / F.fscale) ** 2)
    half = ctx.call(g.Rotation, c, 180)
    m1 = ctx.call(g.Homothety, c, -1)
    R = ctx.call(g.Reflection, l)
    close_map(ctx, lambda x: t(half, x), lambda x: t(m1, x), X, "half turn and homothety of ratio -1 %s" % w, s)
    close_map(ctx, lambda x: t(ctx.call(g.Scaling, c, vn, -1), x), lambda x: t(R, x), X, "scaling by -1 and reflection %s" % w, s)
    close_map(ctx, lambda x: t(ctx.call(g.Scaling, c, vn, 0), x), lambda x: ctx.call(ctx.call(g.Projection, l, None).project, x), X, "scaling by 0 and projection %s" % w, s)
    close_map(ctx, lambda x: t(ctx.call(g.Projection, l, n), x), lambda x: ctx.call(l.projection, x), X, "projections along the normal %s" % w, s)
    close_map(ctx, lambda x: ctx.call(l.reflection, x), lambda x: t(R, x), X, "reflection in a line and Reflection %s" % w, s)
    # a shear: a shear the other way undoes it
    if -80 < k * 30 < 80:
        o1, o2 = [ctx.call(g.Shear, c, v, 2.0, float(k) * 30 * q) for q in (1, -1)]
        close_map(ctx, lambda x: t(o2, t(o1, x)), lambda x: x, X, "shear and opposite shear %s" % w, s * 40)
    ctx.outcome("maps")


def circle_ellipse(ctx, O, r, P, u, kind, F):
    """a circle and the same circle as an ellipse"""
    c, R, p, a = F(O), F.len(r), F(P), F.vec(u)
    C = mkcircle(ctx, c, R)
    E = ctx.call(C.as_ellipse)
    for x, n in ((E.rmajor, "major"), (E.rminor, "minor")):
        ctx.ok(abs(num(x, n) - float(R)) <= 1e-12 * float(R), "circle %s radius %s as an ellipse: %s radius %r", fpt(c), float(R), n, x)
    ea, eb = kind
    l = ctx.call(g.Line, as_pt(p), as_pt(add(p, a)), ea, eb)
    s = F.size(12)
    w = "circle %s radius %s and line %s" % (fpt(c), float(R), show(l))
    ctx.state((c, R, p, a, kind))
    n2d = fr(det(sub(c, p), a)) ** 2
    gap = abs(math.sqrt(float(n2d / n2(a))) - float(R)) / float(R)
    if gap > 1e-3:
        I, J = ctx.call(C.intersection_with_line, l), ctx.call(E.intersection_with_line, l)
        I, J, K = [[] if x is None else ([pt(x)] if ispt(x) else [pt(y) for y in x]) for x in (I, J, ctx.call(g.intersection_ellipse_line, E, l))]
        match_points(ctx, J, I, w + ": as an ellipse", s, 1e-8)
        match_points(ctx, K, I, w + ": as an ellipse (function)", s, 1e-8)
        if ea and eb:
            ctx.ok(len(I) == (2 if n2d < R * R * n2(a) else 0), "%s: %d intersection(s)", w, len(I))
            # foot of the center: middle of the chord
            if len(I) == 2:
                f = pt(ctx.call(l.projection, as_pt(c)))
                ctx.close_pt(((I[0][0] + I[1][0]) / 2, (I[0][1] + I[1][1]) / 2), f, w + ": middle of the chord", s, 1e-8)
                ax = ctx.call(C.radical_axis, ctx.call(g.circleAB, *[np.array(x) for x in I])) if n2d != 0 else None
                if ax is not None:
                    chk_line(ctx, ax, p, add(p, a), w + ": radical axis with the circle on the chord", s + float(R) / math.sqrt(float(n2d / n2(a))), 1e-7 * max(1.0, s / (math.sqrt(float(n2d / n2(a))))))
    for y in PTS:
        Y = F(y)
        d = abs(fdist(Y, c) - float(R)) / float(R)
        if d > 1e-3:
            y = as_pt(Y)
            ctx.ok(boolean(ctx.call(C.contains, y), w) == boolean(ctx.call(E.contains, y), w) == (fdist(Y, c) < float(R)), "%s: contains %s", w, fpt(Y))
            ctx.ok(not boolean(ctx.call(C.includes, y), w) and not boolean(ctx.call(E.includes, y), w), "%s: includes %s", w, fpt(Y))
    # images
    con = lambda o: ctx.call(o.as_ellipse)
    for k, T in (("rotation", ctx.call(g.Rotation, as_pt(p), 37)), ("homothety", ctx.call(g.Homothety, as_pt(p), -1.5)), ("reflection", ctx.call(g.Reflection, l)), ("scaling", ctx.call(g.Scaling, as_pt(p), as_pt(a), 1.5)),
                 ("scaling by 1/3", ctx.call(g.Scaling, as_pt(p), as_pt(a), -1 / 3.0))):
        A = ctx.call(T.as_affine)
        e = ctx.call(A.transform_ellipse, E)
        f = ctx.call(T.scale_circle, C) if hasattr(T, "scale_circle") else con(ctx.call(T.transform_circle, C))
        same(ctx, e, f, "%s of the %s: as an ellipse and as a circle" % (k, w), s * 4)
    ctx.outcome("circle as ellipse")


def same(ctx, e, f, w, s, tol=1e-7):
    ctx.ok(isinstance(e, g.Ellipse) and isinstance(f, g.Ellipse), "%s: %s, %s", w, show(e), show(f))
    ctx.close_pt(e.center, pt(f.center), w + ": centers", s, tol)
    q = []
    for o in (e, f):
        al = float(o.alpha) * (PI / 180 if o.degrees else 1)
        c, n, a, b = math.cos(al), math.sin(al), float(o.rmajor) ** 2, float(o.rminor) ** 2
        q.append((a * c * c + b * n * n, (a - b) * c * n, a * n * n + b * c * c))
    big = max(map(abs, q[0] + q[1]))
    ctx.ok(max(abs(x - y) for x, y in zip(*q)) <= tol * big, "%s: %s and %s", w, show(e), show(f))


def all_spaces(tier):
    q = tier == "quick"
    G3 = grid(2 if q else 3)
    far = [(p, add(p, d)) for p in ((0, 0), (1, 2), (Fr(-7, 3), 5)) for e in LADDER for d in ((e, 0), (0, -e), (e, e), (-e, Fr(3, 4) * e))]
    far += [((0, 0), (1 << k, 3)) for k in range(4, 21, 4)] + [((-(1 << k), 1), (1 << k, 3)) for k in range(4, 21, 4)]
    U = [(1, 0), (0, 1), (3, 4), (-5, 12), (-1, -1), (2, -1)]
    return [
        Product("circles from two points", [("P", grid(1)), ("Q", G3), ("frame", F6 + MICRO[2:3]), ("rep", ["a"] if q else REPS)], two_points),
        Product("circles from two points, representations", [("P", grid(1)[:3]), ("Q", G3[:9]), ("frame", FRAMES[:2]), ("rep", REPS)], two_points),
        Product("circles from two points, near and far", [("PQ", far), ("frame", FRAMES), ("rep", ["a"])], lambda ctx, pq, F, rep: two_points(ctx, pq[0], pq[1], F, rep)),
        Product("triangles", [("triangle", shapes(2 if q else 3)), ("frame", F4 if q else FRAMES)], triangle),
        Product("narrow triangles", [("triangle", narrow_shapes(LADDER[:2])), ("frame", FN)], triangle),
        Product("Steiner", [("triangle", shapes(2 if q else 3)), ("frame", F3 + FRAMES[8:] if q else FRAMES)], steiner),
        Product("two reflections", [("P", PTS[:3]), ("u", U), ("Q", PTS[1:4]), ("v", U + [(-3, -4), (Fr(1, 16), 1), (1000, 1)]), ("frame", F4)], reflections),
        Product("maps with several names", [("P", PTS), ("u", U), ("k", [0, 1, -1, 2, Fr(-1, 2), Fr(1, 3), -3, Fr(7, 4), 10, Fr(-1, 64)]), ("frame", F4)], special),
        Product("circles as ellipses", [("O", PTS[:3]), ("r", [1, Fr(5, 2), 5]), ("P", PTS[1:4]), ("u", U if not q else U[:4]), ("kind", [(True, True), (False, False), (True, False), (False, True)]), ("frame", F4 if q else FRAMES)], circle_ellipse),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "triangles", "circles as ellipses")
