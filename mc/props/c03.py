from mc.lib import *
from mc.props.c01 import segs, FLAGS

ASSUMPTIONS = ["for perpendicular(), the point is on the line or further from it than the library's coincidence tolerance"]
OFF = [Fr(0), Fr(1), Fr(-1, 2), Fr(3), Fr(1, 32)]
TT = [Fr(0), Fr(1), Fr(1, 2), Fr(-2), Fr(5, 2)]


def metric(ctx, s, F, off, t):
    A, B = s
    u = sub(B, A)
    M = add(add(A, mul(t, u)), mul(off, perp(u)))
    H = add(A, mul(t, u))
    S = sub(mul(2, H), M)
    A_, B_, M_, H_, S_ = F(A), F(B), F(M), F(H), F(S)
    ctx.state((A_, B_, M_))
    size = F.size(12)
    fl = FLAGS[(A[0] + B[1]) % 4]
    l = mkline(ctx, A_, B_, *fl)
    m = as_pt(M_, REPS[(A[1] + B[0] + int(off)) % 5])
    w = "line %s-%s, point %s" % (fpt(A_), fpt(B_), fpt(M_))
    ctx.close_pt(ctx.call(l.projection, m), H_, w + ": projection", size)
    ctx.close(num(ctx.call(l.distance, m)), fdist(H_, M_), w + ": distance", size)
    ctx.close_pt(ctx.call(l.reflection, m), S_, w + ": reflection", size)
    R = ctx.call(g.Reflection, l)
    ctx.close_pt(ctx.call(R.reflect, m), S_, w + ": Reflection.reflect", size)
    ctx.close_pt(ctx.call(R.transform, m), S_, w + ": Reflection.transform", size)
    for eh, em in ((None, None), (True, False), (False, False), (True, True), (False, True)):
        if eh is None:
            p = ctx.call(l.perpendicular, m)
            eh, em = False, True
        else:
            p = ctx.call(l.perpendicular, m, eh, em)
        ctx.ok(isinstance(p, g.Line), "%s: perpendicular is %s", w, show(p))
        P, Q = pt(p.A), pt(p.B)
        d = (Q[0] - P[0], Q[1] - P[1])
        uf = fpt(F.vec(u))
        ctx.ok(abs(d[0] * uf[0] + d[1] * uf[1]) <= 1e-6 * math.hypot(*d) * math.hypot(*uf) + 1e-9 * size * math.hypot(*uf), "%s: perpendicular %r-%r is not perpendicular", w, P, Q)
        ctx.ok(math.hypot(*d) > 0 and fdist_line(fpt(M_), P, Q) <= 1e-7 * size, "%s: perpendicular %r-%r misses the point", w, P, Q)
        if off != 0:
            ctx.close_pt(p.A, H_, w + ": meeting point of the perpendicular", size)
            ctx.close_pt(p.B, M_, w + ": second point of the perpendicular", size)
            ctx.ok((p.extendA, p.extendB) == (eh, em), "%s: perpendicular asked with flags (%s,%s) has (%s,%s)", w, eh, em, p.extendA, p.extendB)
    ctx.outcome("on" if off == 0 else "off")


def near(ctx, s, F, k, t):
    """points very near the line: the mirror image and the projection exist for every point"""
    A, B = s
    u = sub(B, A)
    off = Fr(1, 2 ** k)
    M = add(add(A, mul(t, u)), mul(off, perp(u)))
    H = add(A, mul(t, u))
    S = sub(mul(2, H), M)
    l = mkline(ctx, F(A), F(B))
    ctx.state((F(A), F(B), F(M)))
    m = as_pt(F(M))
    w = "line %s-%s, point %s" % (fpt(F(A)), fpt(F(B)), fpt(F(M)))
    ctx.close_pt(ctx.call(l.projection, m), F(H), w + ": projection", F.size(12))
    ctx.close_pt(ctx.call(l.reflection, m), F(S), w + ": reflection", F.size(12), 1e-6)
    ctx.outcome("near 2^-%d" % k)


def oblique(ctx, s, dl, M, F, rep):
    A, B = s
    v = (1, 0)
    if dl is None:
        d = perp(sub(B, A))
        Delta = None
    else:
        d = sub(dl[1], dl[0])
        if det(sub(B, A), d) == 0:
            raise Skip
        Delta = mkline(ctx, F(dl[0]), F(dl[1]))
    X = meet(A, B, M, add(M, d))
    l = mkline(ctx, F(A), F(B), *FLAGS[(A[0] + M[0]) % 4])
    ctx.state((F(A), F(B), dl, F(M)))
    pr = ctx.call(g.Projection, l, Delta)
    m = as_pt(F(M), rep)
    w = "projection on %s-%s along %s of %s" % (fpt(F(A)), fpt(F(B)), dl and fpt(F.vec(d)), fpt(F(M)))
    size = F.size(30 + max(abs(float(X[0])), abs(float(X[1]))))
    p = ctx.call(pr.project, m)
    ctx.close_pt(p, F(X), w, size)
    ctx.close_pt(ctx.call(pr.transform, m), F(X), w + " (transform)", size)
    ctx.close_pt(ctx.call(pr.project, p), F(X), w + " twice", size, 1e-6)
    ctx.outcome("orthogonal" if dl is None else "oblique")


ANG = [(1, 0), (0, 1), (-1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (Fr(5, 13), Fr(-12, 13))]


def moves(ctx, s, cs, turns, O, F, deg):
    A, B = s
    u = G(cs[0], cs[1])
    rot = lambda X: (G.of(O) + u * (G.of(X) - G.of(O))).t()
    al = math.atan2(float(cs[1]), float(cs[0])) + 2 * PI * turns
    if F.flip:
        al = -al
    fl = FLAGS[(A[0] + B[1]) % 4]
    l = mkline(ctx, F(A), F(B), *fl)
    ctx.state((F(A), F(B), F(O), cs, turns))
    r = ctx.call(l.rotate, al * 180 / PI, as_pt(F(O), REPS[turns % 5]), True) if deg else ctx.call(l.rotate, al, as_pt(F(O), REPS[turns % 5]), False)
    w = "line %s-%s turned by %g about %s" % (fpt(F(A)), fpt(F(B)), al, fpt(F(O)))
    ctx.ok(isinstance(r, g.Line), "%s: %s", w, show(r))
    ctx.close_pt(r.A, F(rot(ept(A))), w + ": A", F.size(12))
    ctx.close_pt(r.B, F(rot(ept(B))), w + ": B", F.size(12))
    ctx.ok((r.extendA, r.extendB) == fl, "%s: flags %s became %s", w, fl, (r.extendA, r.extendB))
    v = F.vec((O[0] + 1, O[1] - turns))
    r = ctx.call(l.translate, as_pt(v, "l"))
    w = "line %s-%s translated by %s" % (fpt(F(A)), fpt(F(B)), fpt(v))
    ctx.close_pt(r.A, add(F(A), v), w + ": A", F.size(12))
    ctx.close_pt(r.B, add(F(B), v), w + ": B", F.size(12))
    ctx.ok((r.extendA, r.extendB) == fl, "%s: flags %s became %s", w, fl, (r.extendA, r.extendB))
    ctx.outcome("moved")


def small_turns(ctx, s, al, O, F, deg):
    A, B = s
    th = al * PI / 180 if deg else al
    O_ = fpt(F(O))
    l = mkline(ctx, F(A), F(B))
    ctx.state((F(A), F(B), al, O, deg))
    r = ctx.call(l.rotate, al, O_) if deg is True else ctx.call(l.rotate, al, O_, degrees=bool(deg))
    c, si = math.cos(th), math.sin(th)
    for X, Y, n in ((fpt(F(A)), r.A, "A"), (fpt(F(B)), r.B, "B")):
        x, y = X[0] - O_[0], X[1] - O_[1]
        ctx.close_pt(Y, (O_[0] + c * x - si * y, O_[1] + si * x + c * y), "line %s-%s turned by %r (degrees: %s) about %s: %s" % (fpt(F(A)), fpt(F(B)), al, deg, O_, n), F.size(6), 1e-10)
    ctx.outcome("turned")


def tight_directrix(ctx, s, d, e, M, F):
    """a directrix nearly parallel to the line"""
    A, B = s
    u = sub(B, A)
    v = add(u, mul(d, perp(u)))
    X = meet(A, B, M, add(M, v))
    l, D = mkline(ctx, F(A), F(B)), mkline(ctx, F(e), F(add(e, v)))
    pr = ctx.call(g.Projection, l, D)
    ctx.state((F(A), F(B), d, F(M)))
    p = ctx.call(pr.project, fpt(F(M)))
    size = F.size(6) + F.fscale * (abs(float(X[0])) + abs(float(X[1])))
    ctx.close_pt(p, F(X), "projection of %s on %s along %s" % (fpt(F(M)), show(l), show(D)), size, 1e-7 + 1e-14 / float(d) ** 2)
    ctx.outcome("tight")


SMALL = [x * s for x in (1.0, 0.5, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 89.999, 90.001, 179.99, 180.01, 359.999, 360.001, 725.5, 36000.25) for s in (1, -1)]


def all_spaces(tier):
    q = tier == "quick"
    L = segs(1)
    rev = [(b, a) for a, b in L]
    D = [None] + [((0, 0), d) for d in [(1, 0), (0, 1), (1, 1), (2, -1), (-1, -3)]] + [((3, 1), (2, 2)), ((-2, 5), (1, 5)), ((0, 0), (Fr(1, 16), Fr(1, 32))), ((1, 2), (9, Fr(33, 16))), ((1, -1), (Fr(5, 4), 7))]
    return [
        Product("metric", [("line", L + rev if q else segs(2) + rev), ("frame", F4 if q else F6), ("off", OFF), ("t", TT)], metric),
        Product("near", [("line", L if q else segs(2)), ("frame", F4), ("k", [8, 14, 20, 24]), ("t", TT[:4])], near),
        Product("oblique", [("line", L), ("directrix", D), ("M", grid(1) if q else grid(2)), ("frame", F3 if q else F6), ("rep", ["a", "i"])], oblique),
        Product("small turns", [("line", L if q else segs(2)), ("angle", SMALL), ("O", [(0, 0), (1, -2)]), ("frame", [FRAMES[0], FRAMES[3], FRAMES[6]]), ("deg", [True, False])], small_turns),
        Product("nearly parallel directrix", [("line", L), ("by", LADDER + [-d for d in LADDER]), ("e", [(0, 0), (2, -1)]), ("M", grid(1)), ("frame", FN[:2] if q else FN)], tight_directrix),
        Product("moves", [("line", L), ("angle", ANG), ("turns", [0, -1, 2]), ("O", [(0, 0), (1, -2)]), ("frame", F3 if q else F6), ("deg", [True, False])], moves),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "metric", "oblique", "moves")
