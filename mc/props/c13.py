from mc.lib import *
from mc.gcmachine import *
from mc.props.c12 import GEN, real, cond
from mc.props.c11 import NEARC

ASSUMPTIONS = ["curves of size 0.02 to 60; the pole is on the curve exactly (up to rounding) or at least 1e-6 away from it (0.02 in words of several transformations)"]
MORE = GEN[:8] + [("pole 1", mk(1, 0, 1, -1)), ("pole 3/5+4/5i", mk(1, (0, 1), 1, (Fr(-3, 5), Fr(-4, 5)))), ("pole 2-i+..", mk((0, 1), 1, 2, (-4, 1))), ("pole i", mk(2, 1, (1, 1), (1, -1)))]


TINY = [mk(0, 1, 1, 0), mk(1, 2, 1, 0), mk((0, 1), 1, (2, -1), 0), mk(3, (1, 1), (0, 1), 0)]


def pole(M):
    return INF if not M[1][0] else -M[1][1] / M[1][0]


class Node(object):
    __slots__ = ("o", "o0", "gc", "gc0", "m", "M", "size", "word")


def init(ctx, x):
    n = Node()
    n.o = n.o0 = build(ctx, *x)
    n.gc = n.gc0 = x[1]
    n.m, n.M, n.size, n.word = None, MID, tame(x[1]), x[0]
    return n


def image(ctx, m, o):
    if isinstance(o, g.Line):
        return ctx.call(m.transform_line, o)
    ctx.ok(isinstance(o, g.Circle), "image is %s", show(o))
    return ctx.call(m.transform_circle, o)


def step(ctx, n, op):
    name, M, k = op
    p = pole(M)
    clear_of(n.gc, p)
    k_ = Node()
    k_.gc = n.gc.moebius(M)
    k_.size = max(tame(k_.gc), n.size)
    m = real(ctx, M, k)
    k_.o = image(ctx, m, n.o)
    k_.o0, k_.gc0 = n.o0, n.gc0
    k_.M = mmul(M, n.M)
    k_.m = m if n.m is None else ctx.call(n.m.compose, m)
    k_.word = "%s, %s%s" % (n.word, name, "" if k == 1 else " times %s" % k)
    ctx.outcome(("line" if n.gc.is_line() else "circle") + " -> " + ("line" if k_.gc.is_line() else "circle"))
    return k_


def check(ctx, n):
    chk_gc(ctx, n.o, n.gc, n.word, n.size, 1e-6)
    if n.m is not None:
        p = pole(n.M)
        if not isinstance(p, str) and not n.gc0.has(p) and n.gc0.fdist(fpt(p.t())) < 0.02:
            return
        big = cond(n.M)
        chk_gc(ctx, image(ctx, n.m, n.o0), n.gc, n.word + " (composed first)", n.size, 1e-6)


def direct(ctx, x, op, F, st):
    """moved frames, other choices of the points of a line"""
    name, gc = x
    nm, M, k = op
    S = ((F.u, F.tt), (G(0), G(1)))
    if F.flip:
        raise Skip
    gc2 = gc.moebius(S)
    M2 = mmul(mmul(S, M), minv(S))
    clear_of(gc, pole(M))
    tame(gc.moebius(M))
    want = gc.moebius(M).moebius(S)
    ctx.state((gc2.key(), mnorm(M2), st))
    m = real(ctx, M2, k)
    if gc.is_line():
        A, B = LINE_PTS[name]
        u = sub(B, A)
        A, B = add(A, mul(fr(st[0]), u)), add(A, mul(fr(st[1]), u))
        o = mkline(ctx, F(A), F(B))
    else:
        if st != (0, 1):
            raise Skip
        o = ctx.call(g.Circle, as_pt(F(gc.center())), fsqrt(gc.r2() * F.scale2))
    chk_gc(ctx, image(ctx, m, o), want, "%s by %s" % (show(o), show(m)), F.size(60), 1e-6)
    ctx.outcome("direct")


def on_pole(ctx, t, r, c, M0, swap):
    """a line (or circle) through the pole, one of its defining points being the pole itself"""
    p = pole(M0)
    if isinstance(p, str):
        raise Skip
    P = p.t()
    m = real(ctx, M0)
    d = (fr(t[0]), fr(t[1]))
    Q = add(P, d)
    gc = GC.line(P, Q)
    tame(gc)
    tame(gc.moebius(M0))
    o = mkline(ctx, Q, P) if swap else mkline(ctx, P, Q)
    ctx.state((gc.key(), mnorm(M0), swap))
    chk_gc(ctx, image(ctx, m, o), gc.moebius(M0), "%s by %s" % (show(o), show(m)), 30.0, 1e-6)
    # circle of radius |d|*r through the pole
    C = add(P, mul(fr(r), d))
    g2 = GC.circle(C, fr(r) ** 2 * n2(d))
    tame(g2)
    tame(g2.moebius(M0))
    o = ctx.call(g.Circle, as_pt(C), fsqrt(g2.r2()))
    chk_gc(ctx, image(ctx, m, o), g2.moebius(M0), "%s by %s" % (show(o), show(m)), 30.0, 1e-6)
    ctx.outcome("through the pole")


def tiny(ctx, M0, e, u, k):
    """a tiny circle through the pole, or beside it"""
    if pole(M0) != G(0):
        raise Skip
    d = mul(e, (fr(u[0]), fr(u[1])))
    gc = GC.circle(d, fr(k) ** 2 * n2(d))
    w = gc.moebius(M0)
    o = ctx.call(g.Circle, as_pt(d), fsqrt(gc.r2()))
    m = real(ctx, M0)
    ctx.state((gc.key(), mnorm(M0)))
    s = max(30.0, 10.0 / fsqrt(gc.r2()))
    chk_gc(ctx, image(ctx, m, o), w, "%s by %s" % (show(o), show(m)), s, 1e-6)
    ctx.outcome("tiny")


def near_pole(ctx, x, a, F, k):
    """curves passing very near the pole"""
    kind, gc, P = x
    if F.flip:
        raise Skip
    S = ((F.u, F.tt), (G(0), G(1)))
    M = mmul(((G(a[0]), G(a[1])), (G(1), G(0))), minv(S))
    m = real(ctx, M, k)
    ctx.state((gc.key(), F.name, a, k))
    if kind == "line":
        o = mkline(ctx, F(P[0]), F(P[1]))
    else:
        o = mkcircle(ctx, F(gc.center()), F.len(isqrt_exact(gc.r2())))
    w = "%s of %s" % (show(m), show(o))
    r = image(ctx, m, o)
    ctx.ok(isinstance(r, g.Circle), "%s: expected a circle, got %s", w, show(r))
    chk_gc(ctx, r, gc.moebius(S).moebius(M), w, 2.0, 1e-6)
    ctx.outcome("near the pole")


def all_spaces(tier):
    q = tier == "quick"
    ops = [(n, M, 1) for n, M in (MORE[:10] if q else MORE)]
    K = [(n, M, k) for n, M in MORE for k in (1, -2, complex(0.25, 0.5), 8, 1 / 16384.0, 5000)]
    U = [(1, 0), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (1, 1), (2, -1), (Fr(1, 3), Fr(1, 7)), (-1, 0), (0, -2)]
    return [
        Tree("words", GCS, ops, 2 if q else 3, init, step, check, key=lambda n: (n.gc.key(), mnorm(n.M)), opname=show),
        Product("direct", [("curve", GCS), ("map", K), ("frame", [FRAMES[i] for i in (0, 1, 2, 6, 8, 9)]), ("points", [(0, 1), (-3, 2), (5, Fr(11, 2)), (1, 0)])], direct),
        Product("curves near the pole", [("curve", NEARC), ("a", [(0, 1), (1, 2)]), ("frame", FRAMES[:3] + FRAMES[6:7]), ("factor", [1, complex(0.25, 0.5)])], near_pole),
        Product("pole", [("direction", U), ("radius", [1, Fr(1, 2), 3]), ("c", [0]), ("map", [M for n, M in MORE]), ("swap", [0, 1])], on_pole),
        Product("tiny circles", [("map", TINY), ("size", [Fr(1, 1 << k) for k in range(10, 45 if q else 60, 3)]), ("direction", U), ("radius", [1, Fr(1, 2), 3, Fr(5, 4)])], tiny),
    ]


def spaces(tier):
    return extreme(all_spaces(tier), "direct")
