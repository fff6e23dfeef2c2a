from mc.affine import *

ASSUMPTIONS = ["points are exactly on the curve (up to rounding) or off it by at least 1e-4 of their distance to the center", "equality: curves are the same, or differ by at least 1e-3 relatively in a radius, 1e-2 of the minor radius in the center, or one degree",
               "the region test is not asked on the curve itself"]
RAD = [(2, 1), (1, 1), (5, Fr(1, 2)), (10, 9), (Fr(1, 4), Fr(1, 5)), (30, 2), (100, 70)]
CEN = [(0, 0), (3, -4), (-7, Fr(1, 3)), (20, 30)]
AX = [(1, 0), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(-15, 17), Fr(-8, 17)), (Fr(-4, 5), Fr(3, 5))]
PAR = [(1, 0), (0, 1), (-1, 0), (0, -1)] + [(Fr(s * a, c), Fr(t * b, c)) for a, b, c in ((3, 4, 5), (12, 5, 13), (8, 15, 17), (1599, 80, 1601)) for s in (1, -1) for t in (1, -1)]
KS = [Fr(0), Fr(1, 100), Fr(1, 2), Fr(9, 10), Fr(999, 1000), Fr(9999, 10000), Fr(1), Fr(10001, 10000), Fr(1001, 1000), Fr(11, 10), Fr(2), Fr(25)]


def member(ctx, O, u, ab, deg, p, rep):
    E = Ell(O, u, ab[0], ab[1], deg, 1 if rep == "l" else 0)
    o = E.real(ctx)
    B = E.at(*p)
    ctx.state((E.conic.key(), p))
    for k in KS:
        P = add(E.O, mul(k, sub(B, E.O)))
        w = "%s and the point %s (ratio %s to the curve)" % (E, fpt(P), float(k))
        ctx.ok(boolean(ctx.call(o.includes, as_pt(P, rep)), w) == (k == 1), "%s: includes is wrong", w)
        if k != 1:
            ctx.ok(boolean(ctx.call(o.contains, as_pt(P, rep)), w) == (k < 1), "%s: contains is wrong", w)
    ctx.outcome("membership")


def region(ctx, O, u, ab, deg, p):
    """grid points around, decided by the exact equation"""
    E = Ell(O, u, ab[0], ab[1], deg)
    o = E.real(ctx)
    P = add(ept(E.O), mul(E.a / 4, ept(p)))
    v = E.conic.q(P)
    ctx.state((E.conic.key(), p))
    w = "%s and the point %s" % (E, fpt(P))
    r, c = boolean(ctx.call(o.includes, as_pt(P)), w), boolean(ctx.call(o.contains, as_pt(P)), w)
    ctx.ok(r == (v == 1), "%s: includes is %s", w, r)
    if v != 1:
        ctx.ok(c == (v < 1), "%s: contains is %s", w, c)
    ctx.outcome("on" if v == 1 else "inside" if v < 1 else "outside")


def variants(E):
    """the same curve given otherwise"""
    out = [Ell(E.O, E.u, E.a, E.b, d, t) for d in (True, False) for t in (0, 1, -1, 2, 7)]
    out.append(Ell(E.O, mul(-1, E.u), E.a, E.b))
    if E.a == E.b:
        out += [Ell(E.O, v, E.a, E.b, d) for v in AX for d in (True, False)]
        out.append(Ell(E.O, E.u, E.a, E.b, circle=True))
    return out


NEAR_KS = [1 + s * e for e in LADDER for s in (1, -1)] + [Fr(1)]


def near_member(ctx, O, u, ab, deg, p):
    E = Ell(O, u, ab[0], ab[1], deg)
    o = E.real(ctx)
    B = E.at(*p)
    ctx.state((E.conic.key(), p))
    for k in NEAR_KS:
        P = add(E.O, mul(k, sub(B, E.O)))
        w = "%s and the point %s (ratio %s to the curve)" % (E, fpt(P), float(k))
        ctx.ok(boolean(ctx.call(o.includes, as_pt(P)), w) == (k == 1), "%s: includes is wrong", w)
        if k != 1:
            ctx.ok(boolean(ctx.call(o.contains, as_pt(P)), w) == (k < 1), "%s: contains is wrong", w)
    ctx.outcome("near the curve")


def others(E):
    """different curves"""
    e = Fr(1, 1000)
    out = [Ell(E.O, E.u, E.a * (1 + e), E.b), Ell(E.O, E.u, E.a, E.b * (1 - e)), Ell(add(E.O, (E.b / 100, 0)), E.u, E.a, E.b), Ell(add(E.O, (0, -E.b / 100)), E.u, E.a, E.b, False),
           Ell(E.O, E.u, E.a * 2, E.b * 2), Ell(mul(-1, E.O), E.u, E.a, E.b) if E.O != (0, 0) else Ell((1, 1), E.u, E.a, E.b)]
    if E.a > E.b * Fr(21, 20):
        x, y = E.u
        c, s = Fr(9999, 10001), Fr(200, 10001)   # about 1.1 degree
        for t in ((c, s), (c, -s), (0, 1), (Fr(3, 5), Fr(4, 5)), (Fr(4, 5), Fr(-3, 5))):
            for d in (True, False):
                out.append(Ell(E.O, (x * t[0] - y * t[1], x * t[1] + y * t[0]), E.a, E.b, d))
        out.append(Ell(E.O, (x, -y), E.a, E.b)) if x * y != 0 else None
        out.append(Ell(E.O, E.u, E.a, E.a, circle=True))
        out.append(Ell(E.O, E.u, E.b, E.b, circle=True))
        out.append(Ell(E.O, E.u, E.a, E.a))
    else:
        out.append(Ell(E.O, E.u, E.a * (1 + e), E.a * (1 + e), circle=True))
        out.append(Ell(add(E.O, (E.b / 100, 0)), E.u, E.a, E.a, circle=True))
    return out


def equality(ctx, O, u, ab, kind, i):
    E = Ell(O, u, ab[0], ab[1])
    V = variants(E)
    L = V if kind == "same" else others(E)
    if i >= len(L):
        raise Skip
    X = L[i]
    if kind == "same":
        firsts = [V[0], V[6]] + ([V[-1]] if E.a == E.b and not V[-1].circle else [])
    else:
        firsts = [V[0], V[5]]
    for Y in firsts:
        a, b = Y.real(ctx), X.real(ctx)
        ctx.state((Y.conic.key(), X.conic.key()))
        r = boolean(ctx.call(a.is_equal, b), "is_equal")
        ctx.ok(r == (kind == "same"), "%s.is_equal(%s) is %s", Y, X, r)
        if not X.circle:
            r = boolean(ctx.call(b.is_equal, a), "is_equal")
            ctx.ok(r == (kind == "same"), "%s.is_equal(%s) is %s", X, Y, r)
        ctx.ok(boolean(ctx.call(b.is_equal, b), "is_equal"), "%s is not equal to itself", X)
    ctx.outcome(kind)


def near_equality(ctx, k, O, u, ab, e, s, what):
    """curves which differ by a step of the ladder in one of their numbers"""
    a, b = fr(ab[0]) * k, fr(ab[1]) * k
    O = mul(k, ept(O))
    d = s * e * b
    if abs(d) < Fr(1, 10 ** 6) or (what == "major" and a + d < b) or (what == "minor" and b + d > a):
        raise Skip      # within the absolute tolerance of the comparison; or the names of the radii change
    E = Ell(O, u, a, b)
    X = {"major": lambda: Ell(O, u, a + d, b), "minor": lambda: Ell(O, u, a, b + d), "x": lambda: Ell(add(O, (d, 0)), u, a, b, False), "y": lambda: Ell(add(O, (0, d)), u, a, b),
         "both": lambda: Ell(O, u, a + d, b + d)}[what]()
    p, q = E.real(ctx), X.real(ctx)
    ctx.state((E.conic.key(), X.conic.key()))
    for r in (ctx.call(p.is_equal, q), ctx.call(q.is_equal, p)):
        ctx.ok(boolean(r, "is_equal") is False, "%s.is_equal(%s) is True", E, X)
    ctx.outcome(what)


def near_direction(ctx, k, O, u, ab, t):
    """ellipses which differ by a small turn"""
    a, b = fr(ab[0]) * k, fr(ab[1]) * k
    if a == b:
        raise Skip
    O = mul(k, ept(O))
    E, X = Ell(O, u, a, b), Ell(O, (u[0] * t[0] - u[1] * t[1], u[0] * t[1] + u[1] * t[0]), a, b, False)
    p, q = E.real(ctx), X.real(ctx)
    ctx.state((E.conic.key(), X.conic.key()))
    for r in (ctx.call(p.is_equal, q), ctx.call(q.is_equal, p)):
        ctx.ok(boolean(r, "is_equal") is False, "%s.is_equal(%s) is True", E, X)
    ctx.outcome("turned")


def from_circle(ctx, O, r):
    C = ctx.call(g.Circle, as_pt(O), as_num(r))
    e = ctx.call(C.as_ellipse)
    chk_ellipse(ctx, e, Conic.circle(O, fr(r) ** 2), "as_ellipse of the circle %s %s" % (fpt(O), r), 50.0, 1e-12)
    ctx.ok(boolean(ctx.call(e.is_equal, C)), "the ellipse of the circle %s %s is not equal to it", fpt(O), r)
    ctx.state((O, r))
    ctx.outcome("circle")


def scaled(f):
    """the same case k times larger"""
    def h(ctx, k, O, u, ab, *a):
        return f(ctx, mul(k, ept(O)), u, (fr(ab[0]) * k, fr(ab[1]) * k), *a)
    return h


KSC = [Fr(1, 8192), Fr(1, 50), 300, 8192, 1 << 24]


def spaces(tier):
    q = tier == "quick"
    NR = [(1 + e, 1) for e in LADDER] + [(2, 1), (5, 2)]
    return [
        Product("membership, near the curve", [("center", CEN[:3]), ("axis", AX[:3] + near_turns(LADDER[1::2])), ("radii", NR), ("degrees", [True, False]), ("parameter", PAR[::3] + NEAR45[::3])], near_member),
        Product("membership", [("center", CEN), ("axis", AX[:4] if q else AX), ("radii", RAD), ("degrees", [True, False]), ("parameter", PAR[:12] if q else PAR), ("rep", ["a"] if q else ["a", "l", "t"])], member),
        Product("region", [("center", [(0, 0), (3, -4)]), ("axis", AX[:3] if q else AX), ("radii", [(2, 1), (4, 4), (5, 1)]), ("degrees", [True, False]), ("point", grid(5 if q else 7))], region),
        Product("equality", [("center", CEN), ("axis", AX), ("radii", RAD), ("kind", ["same", "different"]), ("i", range(24))], equality),
        Product("membership, other scales", [("k", KSC), ("center", CEN), ("axis", AX[::2]), ("radii", RAD[::2]), ("degrees", [True, False]), ("parameter", PAR[::3]), ("rep", ["a"])], scaled(member)),
        Product("equality, other scales", [("k", KSC), ("center", CEN), ("axis", AX[::2]), ("radii", RAD[::2]), ("kind", ["same", "different"]), ("i", range(24))], scaled(equality)),
        Product("equality, near", [("k", [Fr(1, 50), 1, 300, 8192]), ("center", CEN[1:]), ("axis", AX[::2]), ("radii", RAD), ("difference", LADDER), ("sign", [1, -1]), ("number", ["major", "minor", "x", "y", "both"])], near_equality),
        Product("equality, near directions", [("k", [Fr(1, 50), 1, 8192]), ("center", CEN[:3]), ("axis", AX[::2]), ("radii", RAD), ("turn", near_turns(LADDER))], near_direction),
        Product("circle", [("center", CEN), ("radius", [1, Fr(5, 2), Fr(1, 8), 40])], from_circle),
    ]
