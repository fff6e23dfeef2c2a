from mc.lib import *
from mc.triangles import MICRO
from mc.gcmachine import *

ASSUMPTIONS = ["curves of size 0.02 to 60, in frames of sizes 1e-6 to 1e9; the pole is on a curve exactly (up to rounding) or at least 1e-6 away from it (0.02 in words of several inversions)",
               "points are the pole exactly or at least 1e-6 away from it"]
INV = [((0, 0), 1), ((1, 0), 1), ((0, 1), 2), ((-1, -1), Fr(1, 2)), ((0, 0), -1), ((2, 1), -3), ((Fr(1, 2), Fr(-3, 2)), 4), ((-3, 2), Fr(25, 4)), ((1, 1), -2)]


def real(ctx, iv):
    return ctx.call(g.Inversion, as_pt(iv[0]), as_num(iv[1]))


class Node(object):
    __slots__ = ("o", "gc", "size", "word")

    def __init__(s, o, gc, size, word):
        s.o, s.gc, s.size, s.word = o, gc, size, word


def init(ctx, x):
    return Node(build(ctx, *x), x[1], tame(x[1]), x[0])


def step(ctx, n, op):
    iv, how = op
    pole, k = G.of(iv[0]), fr(iv[1])
    clear_of(n.gc, pole)
    gc = n.gc.invert(pole, k)
    size = max(tame(gc), n.size)
    i = real(ctx, iv)
    line = isinstance(n.o, g.Line)
    ctx.ok(line == n.gc.is_line(), "%s is represented by %s", n.gc, show(n.o))
    if how == 0:
        o = ctx.call(i.invert_line if line else i.invert_circle, n.o)
    elif how == 1:
        o = ctx.call(i.invert_gcircle, n.o)
    else:
        if not line:
            raise Skip
        o = ctx.call(n.o.invert, i)
    ctx.outcome(("line" if line else "circle") + " -> " + ("line" if gc.is_line() else "circle"))
    return Node(o, gc, size, "%s, inversion %s" % (n.word, iv))


def check(ctx, n):
    chk_gc(ctx, n.o, n.gc, n.word, n.size, 1e-6)


PTS = [INF] + [G(x, y) for x, y in grid(2)] + [G(Fr(1, 2), Fr(1, 3)), G(-10, 7), G(100, -30)]


def rp(z, rep="a"):
    return math.inf if isinstance(z, str) else as_pt(z.t(), rep)


def chk_img(ctx, r, w, what, size=10.0):
    if isinstance(w, str):
        ctx.ok(is_infinity(r), "%s: expected infinity, got %s", what, show(r))
    else:
        ctx.close_pt(r, w.t(), what, max(size, math.hypot(*fpt(w.t()))), 1e-8)


def points(ctx, iv, z, F, rep):
    pole, k = F(iv[0]), fr(iv[1]) * F.scale2
    i = ctx.call(g.Inversion, as_pt(pole, rep), as_num(k))
    zz = z if isinstance(z, str) else G.of(F(z.t()))
    want = inv_point(pole, k, zz)
    ctx.state((pole, k, str(zz)))
    w = "inversion %s of %s" % (show(i), show(rp(zz)))
    r = ctx.call(i.invert, rp(zz, rep))
    chk_img(ctx, r, want, w, F.size(4))
    chk_img(ctx, ctx.call(i.invert, r), zz, w + ", inverted again", F.size(4) + (0 if isinstance(zz, str) else math.hypot(*fpt(zz.t())) * 10))
    ctx.outcome("pole" if isinstance(want, str) else "infinity" if isinstance(zz, str) else "point")


def circle_direct(ctx, x, iv, F):
    """single inversions in moved frames"""
    name, gc = x
    i = ctx.call(g.Inversion, as_pt(F(iv[0])), as_num(fr(iv[1]) * F.scale2))
    clear_of(gc, G.of(iv[0]))
    im = gc.invert(iv[0], iv[1])
    tame(im)
    sim = lambda c: _sim(c, F)
    ctx.state((sim(gc).key(), F(iv[0]), iv[1]))
    size = F.size(60)
    if gc.is_line():
        A, B = LINE_PTS[name]
        o = mkline(ctx, F(A), F(B))
        rs = [ctx.call(i.invert_line, o), ctx.call(i.invert_gcircle, o), ctx.call(o.invert, i)]
    else:
        o = ctx.call(g.Circle, as_pt(F(gc.center())), fsqrt(gc.r2() * F.scale2))
        rs = [ctx.call(i.invert_circle, o), ctx.call(i.invert_gcircle, o)]
    for r in rs:
        chk_gc(ctx, r, sim(im), "%s of %s" % (show(i), show(o)), size, 1e-6)
    ctx.outcome("direct")


def _sim(gc, F):
    M = ((F.u, F.tt), (G(0), G(1)))
    return (gc.conj() if F.flip else gc).moebius(M)


# the same poles as in INV with other powers: the composition is a homothety
INVC = INV + [((0, 0), Fr(7, 2)), ((1, 0), -5), ((2, 1), 1), ((-3, 2), Fr(-1, 4))]


def compose(ctx, a, b, z, left, F=ID):
    a, b = [(F(x[0]), fr(x[1]) * F.scale2) for x in (a, b)]
    z = z if isinstance(z, str) else G.of(F(z.t()))
    i1, i2 = real(ctx, a), real(ctx, b)
    m = ctx.call(i1.compose, i2, left) if left is not None else ctx.call(i1.compose, i2)
    ctx.ok(isinstance(m, g.Mobius), "composition of two inversions is %s", show(m))
    first, second = (a, b) if left in (True, None) else (b, a)
    want = inv_point(second[0], second[1], inv_point(first[0], first[1], z))
    ctx.state((a, b, str(z), left))
    r = ctx.call(m.transform, rp(z))
    if isinstance(want, str) and F is not ID and not is_infinity(r) and max(map(abs, pt(r))) > 1e9 * F.size(30):
        raise Skip          # infinity up to the rounding of the pole
    chk_img(ctx, r, want, "%s.compose(%s, left=%s) at %s" % (show(i1), show(i2), left, z), 30.0 if F is ID else F.size(30))
    ctx.outcome("one pole" if a[0] == b[0] else "composed")


def on_circle(ctx, c, r, F):
    C = mkcircle(ctx, F(c), F.len(r))
    i = ctx.call(g.Inversion.on_circle, C)
    ctx.ok(isinstance(i, g.Inversion), "on_circle: %s", show(i))
    ctx.state((F(c), r))
    ctx.close_pt(i.pole, F(c), "pole of the inversion on %s" % show(C), F.size(4), 1e-12)
    ctx.close(num(i.power), F.len(r) ** 2, "power of the inversion on %s" % show(C), float(F.len(r) ** 2), 1e-12)
    ctx.outcome("on_circle")


def near_curves(d):
    """lines and circles passing at the distance d from the origin (given exactly)"""
    for u in [(1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13))]:
        P = mul(d, u)
        for t in ((0, 1), (-2, 3), (1, 4)):
            yield ("line", GC.line(P, add(P, perp(u))), (add(P, mul(t[0], perp(u))), add(P, mul(t[1], perp(u)))))
        for r in (Fr(1), Fr(5, 2), Fr(1, 4)):
            yield ("circle", GC.circle(mul(r + d, u), r * r), None)
            yield ("circle", GC.circle(mul(r - d, u), r * r), None)


NEARC = [x for d in LADDER for x in near_curves(d)]


def near_pole(ctx, x, k, F, how):
    """curves passing very near the pole"""
    kind, gc, P = x
    i = ctx.call(g.Inversion, as_pt(F((0, 0))), as_num(k * F.scale2))
    want = _sim(gc.invert((0, 0), k), F)
    ctx.state((_sim(gc, F).key(), k, F.name))
    if kind == "line":
        o = mkline(ctx, F(P[0]), F(P[1]))
        r = ctx.call([i.invert_line, i.invert_gcircle, lambda l: l.invert(i)][how], o)
    else:
        o = mkcircle(ctx, F(gc.center()), F.len(isqrt_exact(gc.r2())))
        r = ctx.call([i.invert_circle, i.invert_gcircle, i.invert_circle][how], o)
    w = "%s of %s" % (show(i), show(o))
    ctx.ok(isinstance(r, g.Circle), "%s: expected a circle, got %s", w, show(r))
    chk_gc(ctx, r, want, w, F.size(2), 1e-7)
    ctx.outcome("near the pole")


def near_point(ctx, iv, u, d, F):
    pole, k = F(iv[0]), fr(iv[1]) * F.scale2
    z = G.of(F(add(ept(iv[0]), mul(d, u))))
    i = ctx.call(g.Inversion, as_pt(pole), as_num(k))
    r = ctx.call(i.invert, rp(z))
    ctx.state((pole, k, z.key()))
    w = "inversion %s of %s" % (show(i), show(rp(z)))
    chk_img(ctx, r, inv_point(pole, k, z), w, F.size(4))
    chk_img(ctx, ctx.call(i.invert, r), z, w + ", inverted again", F.size(4))
    ctx.outcome("near the pole")


def spaces(tier):
    q = tier == "quick"
    ops = [(iv, h) for iv in (INV[:6] if q else INV) for h in ((0, 1) if q else (0, 1, 2))]
    ops += [(iv, 2) for iv in (INV[:3] if q else [])]
    ID3 = F4 if q else FRAMES
    P = PTS
    return [
        Tree("words", GCS, [(iv, 0) for iv in (INV[:6] if q else INV)], 3 if q else 4, init, step, check, key=lambda n: n.gc.key(), opname=show),
        Tree("entry points", GCS, ops, 2, init, step, check, key=lambda n: n.gc.key(), opname=show),
        Product("direct", [("curve", GCS), ("inversion", INV), ("frame", FRAMES[1:6] + FRAMES[8:])], circle_direct),
        Product("direct, extreme sizes", [("curve", GCS), ("inversion", INV), ("frame", [MICRO[i] for i in (0, 2, 3)])], circle_direct),
        Product("points, extreme sizes", [("inversion", INV), ("z", P), ("frame", [MICRO[i] for i in (0, 2, 3)]), ("rep", ["a"])], points),
        Product("curves near the pole", [("curve", NEARC), ("power", [Fr(1), Fr(-3), Fr(1, 2)]), ("frame", FN), ("how", [0, 1, 2])], near_pole),
        Product("points near the pole", [("inversion", INV), ("u", [(1, 0), (0, -1), (Fr(3, 5), Fr(4, 5)), (-1, 2)]), ("by", LADDER), ("frame", FN)], near_point),
        Product("points", [("inversion", INV), ("z", P), ("frame", ID3), ("rep", ["a", "i"] if q else REPS)], points),
        Product("compose", [("first", INVC), ("second", INVC), ("z", P[:14] if q else P), ("left", [True, False, None])], compose),
        Product("compose, one pole or other scales", [("first", INVC[:4] + INVC[-4:]), ("second", INVC[-5:]), ("z", P[:10]), ("left", [True, False]), ("frame", [FRAMES[i] for i in (0, 2, 3, 4, 8, 9, 11)])], compose),
        Product("on circle", [("center", grid(1)), ("radius", [1, Fr(5, 2), Fr(1, 8)]), ("frame", F4)], on_circle),
    ]
