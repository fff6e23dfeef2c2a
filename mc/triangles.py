"""Triangles with exact vertices, in every vertex order and orientation."""
from mc.lib import *


def area2(A, B, C):
    return det(sub(B, A), sub(C, A))


def shapes(n, extra=True):
    """(A, B, C) with A = origin, B and C over a grid, plus long, thin and fractional ones"""
    out = []
    for B in grid(n):
        for C in grid(n):
            if B != (0, 0) and C != (0, 0) and B != C:
                out.append(((0, 0), B, C))
    if extra:
        for t in [((0, 0), (10, 0), (3, Fr(1, 2))), ((0, 0), (10, 0), (12, 1)), ((0, 0), (7, 24), (-24, 7)), ((1, 1), (40, 2), (39, 3)), ((0, 0), (4, 0), (2, Fr(7, 2))), ((-5, 0), (5, 0), (0, Fr(1, 2))),
                  ((0, 0), (13, 0), (5, 12)), ((Fr(1, 3), 0), (Fr(2, 7), 1), (-1, Fr(1, 9))), ((0, 0), (1, 0), (Fr(1, 2), Fr(13, 15))), ((0, 0), (20, 1), (-20, 1)), ((0, 0), (3, 0), (0, 4))]:
            A, B, C = t
            out += [(A, B, C), (B, C, A), (C, A, B), (A, C, B), (B, A, C), (C, B, A)]
    return out


def flat_shapes():
    L = [((0, 0), (1, 0), (2, 0)), ((0, 0), (3, 0), (1, 0)), ((0, 0), (1, 1), (-2, -2)), ((1, 2), (3, 5), (-1, -1)), ((0, 0), (1, 7), (3, 21)), ((0, 1), (0, 5), (0, -3)), ((2, 1), (4, 2), (3, Fr(3, 2))),
         ((0, 0), (3, 1), (-6, -2)), ((Fr(1, 4), 0), (0, Fr(1, 4)), (Fr(1, 8), Fr(1, 8))), ((10, -7), (13, -11), (16, -15))]
    out = []
    for A, B, C in L:
        out += [(A, B, C), (B, C, A), (C, A, B), (A, C, B), (B, A, C), (C, B, A)]
    return out


def narrow_shapes(ladder=None):
    """nearly flat, nearly right, nearly isosceles and nearly equilateral triangles, and needles"""
    L = []
    for e in (ladder or LADDER):
        for f in (e, -e):
            L += [((0, 0), (2, 0), (1, f)), ((0, 0), (1, 0), (3, f)), ((0, 0), (3, 0), (f, 4)), ((0, 0), (4, 0), (2 + f, 1)), ((0, 0), (4, 0), (2 + f, Fr(7, 2))), ((0, 0), (15, 0), (Fr(15, 2), 13 + f)),
                  ((0, 0), (f, 0), (0, 1)), ((1, 2), (1 + f, 2 + f), (4, -1))]
    out = []
    for i, (A, B, C) in enumerate(L):
        o = [(A, B, C), (B, C, A), (C, A, B), (A, C, B), (B, A, C), (C, B, A)]
        out += [o[i % 6], o[(i + 2) % 6], o[(i + 3) % 6]]
    return out


MICRO = [Frame("/2^17", Fr(1, 1 << 17), 0), Frame("/2^30", Fr(1, 1 << 30), 0), Frame("x2^30", 1 << 30, 0), Frame("turn 3-4-5 /2^18", (Fr(3, 5 << 18), Fr(4, 5 << 18)), 0, True)]


def degenerate_shapes():
    return [((0, 0), (0, 0), (1, 2)), ((1, 2), (0, 0), (0, 0)), ((3, 1), (-1, 1), (3, 1)), ((1, 1), (1, 1), (1, 1)), ((0, 0), (0, 0), (0, 0))]


class Tri(object):
    def __init__(s, ctx, t, F, rep="a"):
        s.V = [F(p) for p in t]
        s.f = [fpt(p) for p in s.V]
        s.o = ctx.call(g.Triangle, *[as_pt(p, rep) for p in s.V])
        A, B, C = s.f
        d = lambda p, q: math.hypot(p[0] - q[0], p[1] - q[1])
        s.a, s.b, s.c = d(B, C), d(A, C), d(A, B)
        s.size = max(s.a, s.b, s.c) + max(math.hypot(*p) for p in s.f)
        s.long = max(s.a, s.b, s.c)
        s.sign = sgn(area2(*s.V))
        s.w = "triangle %s %s %s" % tuple(s.f)
        s.thin = s.long ** 2 / max(abs(float(area2(*s.V))), 1e-300)      # about 1 / sine of the smallest angle
        ctx.state(tuple(s.V))

    def side(s, i):
        """opposite to the vertex i"""
        return s.f[(i + 1) % 3], s.f[(i + 2) % 3]

    def signed(s, P, i):
        """signed distance to the side line i, positive on the side of the triangle"""
        Q, R = s.side(i)
        dx, dy = R[0] - Q[0], R[1] - Q[1]
        return s.sign * (dx * (P[1] - Q[1]) - dy * (P[0] - Q[0])) / math.hypot(dx, dy)


def cc(ctx, C, w):
    ctx.ok(isinstance(C, g.Circle), "%s: expected a circle, got %s", w, show(C))
    r = num(C.radius, w + " radius")
    ctx.ok(r > 0, "%s: radius %r", w, r)
    return pt(C.center, w + " center"), r
