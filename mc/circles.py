"""Exact pairs of circles with rational distance between the centers: every relative position, tangencies exact."""
from mc.lib import *

OFFS = [((1, 0), 1), ((0, 3), 3), ((3, 4), 5), ((-4, 3), 5), ((-5, -12), 13), ((Fr(3, 2), -2), Fr(5, 2)), ((Fr(-8, 17), Fr(15, 17)), 1)]


def radii2(d, r1):
    """second radii putting the pair in every relative position"""
    d, r1 = fr(d), fr(r1)
    R = {r1: "same radius"}
    c = [d - r1, d + r1, r1 - d,            # tangencies
         abs(d - r1) / 2, (abs(d - r1) + d + r1) / 2, 2 * (d + r1), r1 / 2, r1 * 3,
         abs(d - r1) * Fr(101, 100), abs(d - r1) * Fr(99, 100), (d + r1) * Fr(101, 100)]
    for x in c:
        if x > 0:
            R.setdefault(x, "")
    return sorted(R)


def relation(d2, r1, r2):
    s, m = (r1 + r2) ** 2, (r1 - r2) ** 2
    if d2 == 0 and r1 == r2:
        return "equal"
    if d2 == s:
        return "externally tangent"
    if d2 == m:
        return "internally tangent"
    if d2 > s:
        return "outside"
    if d2 < m:
        return "concentric" if d2 == 0 else "nested"
    return "secant"


def circle_pairs(tier):
    out = []
    R1 = [Fr(1), Fr(5, 2), Fr(3, 8)] if tier == "quick" else [Fr(1), Fr(5, 2), Fr(3, 8), Fr(4), Fr(13, 2), Fr(1, 7)]
    for off, d in OFFS:
        for r1 in R1:
            for r2 in radii2(d, r1):
                out.append((off, r1, r2))
    for r1 in R1:
        for r2 in (r1, r1 * 2, r1 / 3):
            out.append(((0, 0), r1, r2))
    return out


def narrow_pairs():
    """circles within 2^-4 .. 2^-19 of being tangent, concentric or equal"""
    out = []
    for off, d in OFFS[:6]:
        d = fr(d)
        for r1 in (Fr(1), Fr(5, 2), Fr(3, 8)):
            for e in LADDER:
                for t in (d - r1, d + r1, r1 - d):
                    for r2 in (t + e * d, t - e * d):
                        if r2 > Fr(1, 4):
                            out.append((off, r1, r2))
    for e in LADDER:
        for r1 in (Fr(1), Fr(5, 2)):
            for u in ((1, 0), (0, -1), (Fr(3, 5), Fr(4, 5))):
                for k in (Fr(0), Fr(1, 2), Fr(2)):
                    out.append((mul(e, u), r1, r1 + k * e))
            out.append(((0, 0), r1, r1 + e))
    return out


def common_points(c1, r1, c2, r2):
    """exact-to-rounding common points of two circles (exact rationals in, floats out)"""
    v = sub(c2, c1)
    d2 = fr(n2(v))
    a = (d2 + r1 * r1 - r2 * r2) / (2 * d2)
    h2 = r1 * r1 / d2 - a * a
    M = add(c1, mul(a, v))
    if h2 == 0:
        return [fpt(M)]
    h = fsqrt(h2)
    w = fpt(perp(v))
    m = fpt(M)
    return [(m[0] + h * w[0], m[1] + h * w[1]), (m[0] - h * w[0], m[1] - h * w[1])]


def rounded_tangents(tier):
    """tangent circles whose distance is irrational: tangency holds up to rounding only.
    (c1, r1, c2, r2) in floats, kind"""
    out = []
    n = 6 if tier == "quick" else 15
    for x in range(1, n):
        for y in range(1, n):
            d = math.hypot(x / 10.0, y / 10.0)
            for c in ((0.1, 0.7), (-3.3, 2.0)):
                c2 = (c[0] + x / 10.0, c[1] + y / 10.0)
                for k in (0.5, 0.25, 0.7):
                    out.append((c, k * d, c2, d - k * d, "externally tangent"))
                for k in (1.5, 3.0):
                    out.append((c, k * d, c2, k * d - d, "internally tangent"))
                    out.append((c2, k * d - d, c, k * d, "internally tangent"))
    return out
