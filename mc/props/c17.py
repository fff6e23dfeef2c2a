from mc.affine import *

ASSUMPTIONS = ["along a word: sizes up to 400, ellipses of eccentricity up to 40, center up to 60 times the minor radius away from the origin, condition number of the maps below 60"]


def dirmat(d, k):
    x, y = fr(d[0]), fr(d[1])
    e = (fr(k) - 1) / (x * x + y * y)
    return ((1 + e * x * x, e * x * y), (e * x * y, 1 + e * y * y))


def about(c, L):
    M = (((fr(L[0][0]), fr(L[0][1])), (fr(L[1][0]), fr(L[1][1]))), (F0, F0))
    return (M[0], sub(ept(c), aact(M, ept(c))))


def rot(u):
    return ((u[0], -u[1]), (u[1], u[0]))


class T(object):
    """a transformation: exact map and a builder of the real object; kinds of curves it transforms"""
    def __init__(s, name, M, make, kinds):
        s.name, s.M, s.make, s.kinds = name, M, make, kinds

    def __repr__(s):
        return s.name


def ang(u, deg):
    t = math.atan2(float(u[1]), float(u[0]))
    if deg:
        return {(1, 0): 0, (0, 1): 90, (-1, 0): 180, (0, -1): -90}.get(u, t * 180 / PI)
    return t


def trans():
    out = []
    for n, M in (("general", A_(2, -1, 1, 3, Fr(1, 2), 5)), ("swap", A_(0, 1, 1, 0, 2, -2)), ("flatten", A_(2, 0, 0, Fr(1, 2), -1, 3)), ("sheared", A_(1, Fr(1, 2), 0, 1, 0, 0)),
                 ("shrink", A_(Fr(-1, 4), 0, 0, Fr(1, 4), 1, 1)), ("turned", A_(Fr(3, 5), Fr(-4, 5), Fr(4, 5), Fr(3, 5), -3, 2))):
        out.append(T("affine " + n, M, lambda ctx, M=M: real_affine(ctx, M), "LCE"))
    for c, u, deg in (((0, 0), (0, 1), True), ((2, -1), (Fr(3, 5), Fr(4, 5)), False), ((1, 3), (Fr(-5, 13), Fr(-12, 13)), True)):
        out.append(T("rotation %s %s" % (fpt(c), fpt(u)), about(c, rot(u)), lambda ctx, c=c, u=u, deg=deg: ctx.call(g.Rotation, as_pt(c), ang(u, deg), deg), "LCE"))
    for c, k in (((1, 1), 3), ((-2, 0), Fr(-1, 2))):
        out.append(T("homothety %s %s" % (fpt(c), k), about(c, ((k, 0), (0, k))), lambda ctx, c=c, k=k: ctx.call(g.Homothety, as_pt(c), as_num(k)), "C"))
    for A, d in (((0, 1), (2, 1)), ((3, 0), (0, 1))):
        out.append(T("reflection %s %s" % (fpt(A), fpt(d)), about(A, dirmat(perp(d), -1)), lambda ctx, A=A, d=d: ctx.call(g.Reflection, mkline(ctx, A, add(A, d))), "LC"))
    for c, d, k in (((0, 0), (1, 0), 2), ((1, -1), (3, 4), Fr(1, 3)), ((2, 2), (-1, 2), -3), ((0, 1), (0, 1), Fr(-1, 2))):
        out.append(T("scaling %s %s %s" % (fpt(c), fpt(d), k), about(c, dirmat(d, k)), lambda ctx, c=c, d=d, k=k: ctx.call(g.Scaling, as_pt(c), as_pt(d), as_num(k)), "C"))
    out.append(T("Line.rotate", about((1, -2), rot((Fr(4, 5), Fr(-3, 5)))), ("rotate", (Fr(4, 5), Fr(-3, 5)), (1, -2)), "l"))
    out.append(T("Line.rotate back", about((0, 3), rot((-1, 0))), ("rotate", (-1, 0), (0, 3)), "l"))
    out.append(T("Line.translate", A_(1, 0, 0, 1, 3, Fr(-5, 2)), ("translate",), "l"))
    return out


class Node(object):
    __slots__ = ("o", "x", "word", "kind")

    def __init__(s, o, x, word, kind):
        s.o, s.x, s.word, s.kind = o, x, word, kind


def init(ctx, x):
    if x[0] == "L":
        return Node(mkline(ctx, x[1], x[2], x[3], x[4]), x, "line %s-%s" % (fpt(x[1]), fpt(x[2])), "L")
    E = x[1]
    return Node(E.real(ctx), E.conic, repr(E), "C" if E.circle else "E")


def step(ctx, n, t):
    M = t.M
    w = "%s, %s" % (n.word, t.name)
    if n.kind == "L":
        _, A, B, ea, eb = n.x
        x = ("L", aact(M, A), aact(M, B), ea, eb)
        if max(abs(float(v)) for p in x[1:3] for v in p) > 400 or n2(sub(x[1], x[2])) * 100 < 1:
            raise Skip
        if t.kinds == "l":
            if t.make[0] == "rotate":
                deg = len(n.word) % 2 == 0
                o = ctx.call(n.o.rotate, ang(t.make[1], deg), as_pt(t.make[2]), deg)
            else:
                o = ctx.call(n.o.translate, as_pt((3, -2.5)))
        elif "L" in t.kinds:
            r = t.make(ctx)
            o = ctx.call(r.transform_line, n.o)
            alias(ctx, r, n.o, x, w)
        else:
            raise Skip
        ctx.outcome("line by " + t.name.split()[0])
        return Node(o, x, w, "L")
    if n.kind not in t.kinds:
        raise Skip
    x = n.x.affine(M[0], M[1])
    a, b, an = x.axes_f()
    if a > 400 or a > 40 * b or math.hypot(*fpt(x.O)) > 60 * b:
        raise Skip
    r = t.make(ctx)
    if n.kind == "C":
        if isinstance(r, g.Scaling):
            o, kind = ctx.call(r.scale_circle, n.o), "E"
        elif isinstance(r, g.Affine):
            o, kind = ctx.call(r.transform_ellipse, n.o), "E"
        else:
            o, kind = ctx.call(r.transform_circle, n.o), "C"
            for nm in ("rotate_circle", "reflect_circle"):
                if hasattr(r, nm):
                    chk_circle(ctx, ctx.call(getattr(r, nm), n.o), x.O, a, "%s (%s)" % (w, nm), 50.0)
    else:
        o, kind = ctx.call(r.transform_ellipse, n.o), "E"
        if hasattr(r, "rotate_ellipse"):
            chk_ellipse(ctx, ctx.call(r.rotate_ellipse, n.o), x, "%s (rotate_ellipse)" % w, 60.0, 1e-6)
    ctx.outcome("%s by %s" % ("circle" if n.kind == "C" else "ellipse", t.name.split()[0]))
    return Node(o, x, w, kind)


def alias(ctx, r, o, x, w):
    for nm in ("rotate_line", "reflect_line"):
        if hasattr(r, nm):
            chk_ext(ctx, ctx.call(getattr(r, nm), o), x, "%s (%s)" % (w, nm))


def chk_ext(ctx, o, x, w):
    """same points: same line, same flags, same ends where the line stops"""
    _, A, B, ea, eb = x
    chk_line(ctx, o, A, B, w, 20.0, 1e-8)
    ctx.ok(bool(o.extendA) == ea and bool(o.extendB) == eb, "%s: extension flags %s %s, expected %s %s", w, o.extendA, o.extendB, ea, eb)
    P, Q, fa, fb = pt(o.A), pt(o.B), fpt(A), fpt(B)
    s = max(10.0, math.hypot(*fa), math.hypot(*fb))
    if not ea:
        ctx.close_pt(P, A, w + ": end A", s, 1e-8)
    if not eb:
        ctx.close_pt(Q, B, w + ": end B", s, 1e-8)
    if ea != eb:
        ctx.ok((Q[0] - P[0]) * (fb[0] - fa[0]) + (Q[1] - P[1]) * (fb[1] - fa[1]) > 0, "%s: points the other way", w)


def check(ctx, n):
    if n.kind == "L":
        chk_ext(ctx, n.o, n.x, n.word)
    elif n.kind == "C":
        a, b, _ = n.x.axes_f()
        chk_circle(ctx, n.o, n.x.O, a, n.word, 50.0)
    else:
        chk_ellipse(ctx, n.o, n.x, n.word, 60.0, 1e-6)


def one(ctx, E, M, F):
    """affine images in one step, wide range of maps"""
    if adet(M) == 0:
        raise Skip
    S = ((( F.u.re, -F.u.im), (F.u.im, F.u.re)), F.tt.t())
    if F.flip:
        raise Skip
    # conjugate so that the shape keeps its size and only the place and orientation vary
    O = F(E.O)
    E2 = Ell(O, F.vec(mul(1 / F.scale, E.u)), E.a * F.scale, E.b * F.scale, E.deg, E.turns, E.circle)
    x = E2.conic.affine(M[0], M[1])
    a, b, an = x.axes_f()
    cn, ci = acond(M)
    if a > 40 * b or math.hypot(*fpt(x.O)) > 60 * b or cn * ci > 60 or math.hypot(*fpt(O)) > 60 * float(E2.b):
        raise Skip
    o = E2.real(ctx)
    ctx.state((E2.conic.key(), M))
    r = ctx.call(real_affine(ctx, M).transform_ellipse, o)
    chk_ellipse(ctx, r, x, "%s by the affine map %s" % (E2, [[float(v) for v in q] for q in M[0]] + [fpt(M[1])]), a + math.hypot(*fpt(x.O)), 1e-6)
    ctx.outcome("circular image" if an is None else "ellipse")


def rotated(ctx, E, c, u, turns, deg):
    th = math.atan2(float(u[1]), float(u[0])) + 2 * PI * turns
    o = E.real(ctx)
    r = ctx.call(g.Rotation, as_pt(c), th * 180 / PI if deg else th, deg)
    M = about(c, rot(u))
    x = E.conic.affine(M[0], M[1])
    w = "%s rotated about %s by %s%+d turns (%s)" % (E, fpt(c), fpt(u), turns, "degrees" if deg else "radians")
    ctx.state((E.conic.key(), c, u))
    chk_ellipse(ctx, ctx.call(r.transform_ellipse, o), x, w, 50.0, 1e-7)
    chk_ellipse(ctx, ctx.call(r.rotate_ellipse, o), x, w, 50.0, 1e-7)
    ctx.outcome("ellipse by rotation")


SCALES = [Fr(2), Fr(-1), Fr(1), Fr(1, 2), Fr(-1, 2), Fr(3), Fr(-3), Fr(5, 4), Fr(-5, 4), Fr(3, 4), Fr(-3, 4), Fr(10), Fr(-10), Fr(1, 10), Fr(-1, 10)]
SCALES += [s * (1 + t * e) for e in LADDER for s in (1, -1) for t in (1, -1)]
DIRV = [(1, 0), (0, 1), (1, 1), (-1, 0), (0, -3), (3, 4), (-4, 3), (-2, -1), (Fr(1, 8), Fr(-1, 2)), (100, 1), (-1, 1), (5, -12)]


def scaled_circle(ctx, c, d, k, C, F):
    """scalings of circles, all kinds of scales and directions"""
    E = Ell(F(C[0]), F.vec((1, 0)), F.len(C[1]), F.len(C[1]), circle=True)
    c, d = F(c), F.vec(d)
    r = ctx.call(g.Scaling, as_pt(c), as_pt(d), as_num(k))
    M = about(c, dirmat(d, k))
    x = E.conic.affine(M[0], M[1])
    w = "%s by %s" % (E, show(r))
    ctx.state((E.conic.key(), M))
    o = ctx.call(r.scale_circle, E.real(ctx))
    chk_ellipse(ctx, o, x, w, F.size(60) , 1e-6)
    A = ctx.call(r.as_affine)
    chk_ellipse(ctx, ctx.call(A.transform_ellipse, E.real(ctx)), x, w + " (as affine map)", F.size(60), 1e-6)
    ctx.outcome("scaled circle")


def homothetic(ctx, c, k, C, F):
    r = ctx.call(g.Homothety, as_pt(F(c)), as_num(k))
    o = mkcircle(ctx, F(C[0]), F.len(C[1]))
    ctx.state((F(c), k, F(C[0]), C[1]))
    O = add(F(c), mul(k, sub(F(C[0]), F(c))))
    w = "%s by %s" % (show(o), show(r))
    chk_circle(ctx, ctx.call(r.transform_circle, o), O, abs(k) * F.len(C[1]), w, F.size(60))
    chk_ellipse(ctx, ctx.call(ctx.call(r.as_affine).transform_ellipse, o), Conic.circle(O, (k * F.len(C[1])) ** 2), w + " (as affine map)", F.size(60), 1e-6)
    ctx.outcome("homothety")


def moved(ctx, L, c, u, how, flags, F):
    """lines with all flags by rotations (also Line.rotate) and reflections; circles with them"""
    A, B = F(L[0]), F(L[1])
    o = mkline(ctx, A, B, *flags)
    C = mkcircle(ctx, A, F.len(Fr(5, 2)))
    size = F.size(30)
    if how == "reflection":
        n = perp(F.vec(u))
        M = about(F(c), dirmat(n, -1))
        r = ctx.call(g.Reflection, mkline(ctx, F(c), add(F(c), F.vec(u)), *flags[::-1]))
        ims = [r.transform_line, r.reflect_line]
        cs = [r.transform_circle, r.reflect_circle]
    else:
        t, deg = how
        th = math.atan2(float(u[1]), float(u[0])) + 2 * PI * t
        th = ang(u, True) + 360 * t if deg else th
        M = about(F(c), rot(u))
        r = ctx.call(g.Rotation, as_pt(F(c)), th, deg)
        ims = [r.transform_line, r.rotate_line, lambda l: l.rotate(th, as_pt(F(c)), deg)]
        cs = [r.transform_circle, r.rotate_circle]
    ims.append(lambda l: r.as_affine().transform_line(l))
    ctx.state((A, B, M, flags))
    A1, B1 = aact(M, A), aact(M, B)
    for f in ims:
        w = "%s by %s" % (show(o), show(r))
        x = ctx.call(f, o)
        chk_line(ctx, x, A1, B1, w, size, 1e-8)
        ctx.ok((bool(x.extendA), bool(x.extendB)) == tuple(flags), "%s: extension flags %s %s", w, x.extendA, x.extendB)
        if not flags[0]:
            ctx.close_pt(pt(x.A), A1, w + ": end A", size, 1e-8)
        if not flags[1]:
            ctx.close_pt(pt(x.B), B1, w + ": end B", size, 1e-8)
        if flags[0] != flags[1]:
            P, Q, fa, fb = pt(x.A), pt(x.B), fpt(A1), fpt(B1)
            ctx.ok((Q[0] - P[0]) * (fb[0] - fa[0]) + (Q[1] - P[1]) * (fb[1] - fa[1]) > 0, "%s: points the other way", w)
    for f in cs:
        chk_circle(ctx, ctx.call(f, C), A1, F.len(Fr(5, 2)), "%s by %s" % (show(C), show(r)), size)
    ctx.outcome("reflection" if how == "reflection" else "rotation")


def singular(ctx, ab, k, x):
    a, b = ab
    M = A_(k[0] * a, k[0] * b, k[1] * a, k[1] * b, 1, -2)
    r = real_affine(ctx, M)
    w = "singular map %s" % show(r)
    ctx.state((M, str(x)))
    if x[0] == "L":
        o = mkline(ctx, *x[1:])
        res = ctx.call(r.transform_line, o)
    else:
        res = ctx.call(r.transform_ellipse, x[1].real(ctx))
    ctx.ok(res is None, "%s transformed %s into %s", w, x, show(res))
    ctx.outcome("singular")


def all_spaces(tier):
    q = tier == "quick"
    C = [Ell((0, 0), (1, 0), 1, 1, circle=True), Ell((3, -2), (1, 0), Fr(5, 2), Fr(5, 2), circle=True)]
    E = [Ell((0, 0), (1, 0), 2, 1), Ell((1, 5), (0, 1), 3, Fr(1, 2)), Ell((-2, 1), AXES[2], 4, 3, False), Ell((7, 7), AXES[3], Fr(3, 2), Fr(1, 4), True, 1), Ell((0, -9), AXES[4], 10, 9, False, -1),
         Ell((1, 1), AXES[2], 2, 2)]
    L = [("L", ept(A), ept(B), ea, eb) for A, B in (((0, 0), (1, 0)), ((1, 2), (-3, 5)), ((2, -1), (2, 4))) for ea in (True, False) for eb in (True, False)]
    tr = trans()
    inits = L + [("E", e) for e in C + E]
    D = [-2, -1, 0, 1, 3]
    maps = [A_(a, b, c, d, 1, -2) for a in D for b in D for c in D for d in D]
    if q:
        maps = maps[::3]
    fr_ = [FRAMES[i] for i in (0, 2, 6, 8, 9)] if q else [FRAMES[i] for i in (0, 1, 2, 4, 5, 6, 7, 8, 9)]
    PY = [(1, 0), (0, 1), (-1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (Fr(-4, 5), Fr(3, 5)), (Fr(-12, 13), Fr(-5, 13)), (Fr(8, 17), Fr(-15, 17))]
    NE = [Ell((1, -1), u, 1 + e, 1, d) for e in LADDER[:5] for u, d in (((1, 0), True), ((Fr(3, 5), Fr(4, 5)), False))]
    NE += [Ell((2, 1), u, 2, 1, i % 2 == 0, i % 3 - 1) for i, u in enumerate(near_turns(LADDER[::2]) + NEAR45)]
    NM = [A_(1 + a, b, c, 1 + d, 1, -2) for e in LADDER for a, b, c, d in ((e, 0, 0, 0), (0, 0, 0, -e), (0, e, 0, 0), (0, 0, -e, 0), (0, -e, e, 0), (e, e, e, e), (-e, 0, 0, -e), (e, 0, 0, -e))]
    NM += [A_(c, -s, s, c, 2, 1) for c, s in near_turns(LADDER[1::2]) + NEAR45]
    return [
        Product("nearly circular, near the axes", [("ellipse", NE), ("map", NM[::3] + maps[::29] if q else NM + maps[::5]), ("frame", FN[:2] if q else FN)], one),
        Product("near the identity", [("ellipse", C + E), ("map", NM), ("frame", [FRAMES[0], FRAMES[2]] if q else FN)], one),
        Product("rotated ellipses, small turns", [("ellipse", E + NE[::7]), ("center", [(0, 0), (2, -5)]), ("turn", near_turns() + NEAR45), ("turns", [0, 1]), ("degrees", [True, False])], rotated),
        Tree("words", inits, tr, 2 if q else 3, init, step, check, key=lambda n: n.x[1:] if n.kind == "L" else n.x.key(), opname=str),
        Product("affine images", [("ellipse", C + E[:5]), ("map", maps), ("frame", fr_)], one),
        Product("rotated ellipses", [("ellipse", E), ("center", [(0, 0), (2, -5)]), ("turn", PY), ("turns", [0, 1, -1] if q else [0, 1, -1, 5]), ("degrees", [True, False])], rotated),
        Product("scaled circles", [("center", [(0, 0), (2, -1)]), ("direction", DIRV), ("scale", SCALES), ("circle", [((0, 0), Fr(1)), ((3, -2), Fr(5, 2)), ((-1, 4), Fr(1, 3))]), ("frame", (F4[:3] + F4[4:6]) if q else F4)], scaled_circle),
        Product("homothetic circles", [("center", grid(1) + [(5, -7)]), ("scale", SCALES), ("circle", [((0, 0), Fr(1)), ((3, -2), Fr(5, 2)), ((-1, 4), Fr(1, 3))]), ("frame", F4)], homothetic),
        Product("moved lines", [("line", [((1, 0), (2, 0)), ((1, 2), (-3, 5)), ((2, 4), (2, -1)), ((0, 0), (-1, -1)), ((-2, 3), (4, 3))]), ("center", [(0, 0), (2, 0), (-3, 1)]), ("u", PY + near_turns(LADDER[1::2], 2)), ("how", [(0, True), (0, False), (-1, True), (2, False), "reflection"]), ("flags", [(True, True), (True, False), (False, True), (False, False)]), ("frame", (F4[:2] + F4[4:6]) if q else F4)], moved),
        Product("singular", [("row", [(0, 0), (1, 0), (0, 1), (1, 1), (2, -3), (10, 10), (7, 3), (-10, -10)]), ("k", [(1, 0), (0, 1), (1, 1), (3, 7), (10, 7), (-7, 10), (6, -3)]), ("curve", L[:4] + [("E", e) for e in (C[1], E[0], E[3])])], singular),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "scaled circles", "homothetic circles", "moved lines")
