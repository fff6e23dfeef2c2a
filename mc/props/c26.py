"""Steiner chains."""
from mc.affine import *

ASSUMPTIONS = ["|phi| at most 0.95 (circles of comparable size)"]
PHI = [0, Fr(1, 4), Fr(-1, 2), Fr(1, 2), Fr(4, 5), Fr(-1, 10)]
SHIFT = [0, Fr(1, 2), Fr(1, 3), 1, -1, 2, Fr(-7, 3)]
C0 = [((0, 0), 1), ((0, 0), 3), ((2, -5), Fr(7, 2)), ((-40, 90), 50), ((1, 1), Fr(1, 16)), ((0, 0), Fr(1, 8192)), ((300, -5000), 8192), ((1 << 20, 5 << 21), 1 << 24)]


def fl(x):
    x = fr(x)
    return int(x) if x.denominator == 1 else float(x)


def circ(ctx, o, w):
    ctx.ok(isinstance(o, g.Circle), "%s: expected a circle, got %s", w, show(o))
    c = pt(o.center, w + " center")
    r = num(o.radius, w + " radius")
    ctx.ok(r > 0, "%s: radius %r", w, r)
    return c[0], c[1], r


def chain(ctx, spec, n, phi, shift, rep="a"):
    c0 = ctx.call(g.Circle, as_pt(spec[0], rep), fl(spec[1]))
    d = ctx.call(g.SteinerChain, c0, n, fl(phi), fl(shift))
    ctx.ok(isinstance(d, dict) and "circles" in d and "ellipse" in d, "SteinerChain: expected circles and ellipse, got %s", show(d))
    chk_circle(ctx, c0, spec[0], spec[1], "the exterior circle afterwards")
    L = list(d["circles"])
    ctx.ok(len(L) == n + 1, "SteinerChain: %d circles instead of %d", len(L), n + 1)
    return [circ(ctx, o, "circle %d of the chain" % i) for i, o in enumerate(L)], d["ellipse"], L


def steiner(ctx, spec, n, phi, shift):
    C, e, L = chain(ctx, spec, n, phi, shift, REPS[n % 5])
    w = "SteinerChain(%s, %d, %s, %s)" % (spec, n, fl(phi), fl(shift))
    R = float(spec[1])
    O = fpt(spec[0])
    size = R + math.hypot(*O)
    t = 1e-9 * size + 1e-8 * R
    chn, (ix, iy, ir) = C[:n], C[n]
    for i, (x, y, r) in enumerate(chn):
        d = math.hypot(x - O[0], y - O[1])
        ctx.close(d, R - r, "%s: circle %d internally tangent to the exterior circle" % (w, i), 1, t)
        ctx.close(math.hypot(x - ix, y - iy), r + ir, "%s: circle %d tangent to the inner circle" % (w, i), 1, t)
        X, Y, S = chn[(i + 1) % n]
        ctx.close(math.hypot(x - X, y - Y), r + S, "%s: circles %d and %d tangent" % (w, i, (i + 1) % n), 1, t)
        for j in range(i + 2, n):
            if (j + 1) % n == i:
                continue
            X, Y, S = chn[j]
            ctx.ok(math.hypot(x - X, y - Y) > r + S + t, "%s: circles %d and %d touch", w, i, j)
    ctx.ok(math.hypot(ix - O[0], iy - O[1]) < R - ir + t, "%s: inner circle not inside", w)
    # one turn around the inner circle, not more
    turn = sum(ang_(C[i], C[(i + 1) % n], (ix, iy)) for i in range(n))
    ctx.close(abs(turn), 2 * PI, "%s: total turn of the chain" % w, 1, 1e-6)
    # ellipse of the centers
    ctx.ok(isinstance(e, g.Ellipse), "%s: ellipse expected, got %s", w, show(e))
    c = pt(e.center, w)
    a, b = num(e.rmajor, w), num(e.rminor, w)
    al = num(e.alpha, w) * (PI / 180 if e.degrees else 1)
    for i, (x, y, r) in enumerate(chn):
        u, v = x - c[0], y - c[1]
        p, q = math.cos(al) * u + math.sin(al) * v, math.cos(al) * v - math.sin(al) * u
        ctx.close((p / a) ** 2 + (q / b) ** 2, 1, "%s: ellipse at the center of circle %d" % (w, i), 1, 1e-7 * size / R)
    if phi == 0:
        ctx.close(math.hypot(ix - O[0], iy - O[1]), 0, "%s: concentric inner circle for phi = 0" % w, 1, t)
        ctx.close(chn[0][2], R * math.sin(PI / n) / (1 + math.sin(PI / n)), "%s: radius of the circles for phi = 0" % w, 1, t)
    else:
        # eccentricity: not the concentric chain
        ctx.ok(math.hypot(ix - O[0], iy - O[1]) > 1e-6 * R, "%s: concentric chain although phi is not zero", w)
    ctx.state((n, round(ir / R, 9), round((ix - O[0]) / R, 9), round(chn[0][2] / R, 9)))
    ctx.outcome("%d circles" % n)


def ang_(p, q, o):
    a, b = math.atan2(p[1] - o[1], p[0] - o[0]), math.atan2(q[1] - o[1], q[0] - o[0])
    return (b - a + PI) % (2 * PI) - PI


def renumber(ctx, spec, n, phi, shift, k):
    C, e, _ = chain(ctx, spec, n, phi, shift)
    D, e2, _ = chain(ctx, spec, n, phi, fr(shift) + k)
    R = float(spec[1])
    t = 1e-9 * (R + math.hypot(*fpt(spec[0]))) + 1e-8 * R
    w = "SteinerChain(%s, %d, %s, %s) shifted by %d circles" % (spec, n, fl(phi), fl(shift), k)
    for i in range(n):
        p, q = D[i], C[(i + k) % n]
        ctx.ok(max(abs(p[j] - q[j]) for j in range(3)) <= t, "%s: circle %d is %r, expected %r", w, i, p, q)
    ctx.ok(max(abs(C[n][j] - D[n][j]) for j in range(3)) <= t, "%s: inner circles %r and %r", w, C[n], D[n])
    ctx.close_pt(e.center, e2.center, w + ": ellipse", 1, t)
    ctx.outcome("renumbered")


def concentric(C, n, O, R):
    """angles of the chain circles after an inversion that makes the outer and inner circles concentric"""
    ix, iy, ir = C[n]
    d = math.hypot(ix - O[0], iy - O[1])
    if d < 1e-9 * R:
        return [math.atan2(c[1] - O[1], c[0] - O[0]) for c in C[:n]]
    u = ((ix - O[0]) / d, (iy - O[1]) / d)
    x0 = (d * d + R * R - ir * ir) / (2 * d)
    x = x0 + math.sqrt(max(0.0, x0 * x0 - R * R))

    def inv(c):
        # coordinates with the pole as origin, in units of R
        X, Y = c[0] - O[0], c[1] - O[1]
        X, Y, r = (X * u[0] + Y * u[1] - x) / R, (Y * u[0] - X * u[1]) / R, c[2] / R
        k = 1 / (X * X + Y * Y - r * r)
        return k * X, k * Y
    o = inv((O[0], O[1], R))
    A = []
    for c in C[:n]:
        p = inv(c)
        A.append(math.atan2(p[1] - o[1], p[0] - o[0]))
    return A


def turned(ctx, spec, n, phi, shift):
    """a shift by s circles turns the chain, seen as a concentric one, by s n-ths of a turn"""
    C, _, _ = chain(ctx, spec, n, phi, 0)
    D, _, _ = chain(ctx, spec, n, phi, shift)
    O, R = fpt(spec[0]), float(spec[1])
    w = "SteinerChain(%s, %d, %s, %s)" % (spec, n, fl(phi), fl(shift))
    A, B = concentric(C, n, O, R), concentric(D, n, O, R)
    want = 2 * PI * float(fr(shift)) / n
    dev = [[abs((b - a - s * want + PI) % (2 * PI) - PI) for a, b in zip(A, B)] for s in (1, -1)]
    t = 1e-9 * (1 + math.hypot(*O) / R) + 3e-7 / (1 - abs(float(phi)))
    ctx.ok(min(max(dev[0]), max(dev[1])) <= t, "%s: the chain is turned by %s instead of %s", w, [(b - a) % (2 * PI) for a, b in zip(A, B)], want)
    ctx.ok(phi != 0 or max(dev[0]) <= t, "%s: turned the other way", w)
    ctx.ok(max(abs((A[(i + 1) % n] - A[i]) ** 2 - (2 * PI / n) ** 2) if abs(A[(i + 1) % n] - A[i]) < PI else 0 for i in range(n)) <= 100 * t, "%s: not a regular chain", w)
    ctx.ok(max(abs(C[n][j] - D[n][j]) for j in range(3)) <= 1e-9 * (R + math.hypot(*O)) + 1e-8 * R, "%s: the inner circle has moved from %r to %r", w, C[n], D[n])
    ctx.outcome("turned")


def continuity(ctx, spec, n, phi):
    """phi to 0 and whole turn: the chain for shift s and s + n coincide; opposite phi mirrors the chain"""
    C, e, _ = chain(ctx, spec, n, phi, 0)
    D, e2, _ = chain(ctx, spec, n, -fr(phi), fr(n) / 2)
    R = float(spec[1])
    O = fpt(spec[0])
    t = 1e-9 * (R + math.hypot(*O)) + 1e-8 * R
    w = "SteinerChain(%s, %d, +-%s): central symmetry" % (spec, n, fl(phi))
    for p, q in [(C[n], D[n])]:
        ctx.ok(math.hypot(p[0] + q[0] - 2 * O[0], p[1] + q[1] - 2 * O[1]) <= t and abs(p[2] - q[2]) <= t, "%s: inner circles %r and %r", w, p, q)
    for p in C[:n]:
        ctx.ok(any(math.hypot(p[0] + q[0] - 2 * O[0], p[1] + q[1] - 2 * O[1]) <= t and abs(p[2] - q[2]) <= t for q in D[:n]), "%s: circle %r has no symmetric one", w, p)
    ctx.outcome("symmetric")


def refuse(ctx, c0, n, phi, shift):
    ctx.refuses(g.SteinerChain, c0, n, phi, shift)
    ctx.outcome("refused")


def spaces(tier):
    q = tier == "quick"
    c = g.Circle((0, 0), 2)
    N = list(range(3, 13 if q else 41)) + [16, 25, 40, 100][0 if q else 3:]
    PH = PHI if q else PHI + [Fr(k, 20) for k in range(-19, 20)]
    SH = SHIFT if q else SHIFT + [Fr(k, 8) for k in range(-16, 17)]
    return [
        Product("chains", [("c0", C0), ("n", N), ("phi", PH), ("shift", SH)], steiner),
        Product("chains, near limits", [("c0", C0[:4]), ("n", N[:8]), ("phi", [s * x for e in LADDER[:3] for x in (e, 1 - e) for s in (1, -1)]), ("shift", [0, Fr(1, 3)])], steiner),
        Product("chains, small shifts", [("c0", C0[:3]), ("n", [3, 4, 7]), ("phi", PHI[:3]), ("shift", [k + s * e for e in LADDER for s in (1, -1) for k in (0, 1, Fr(1, 2))])], steiner),
        Product("whole shifts", [("c0", C0[:3]), ("n", [3, 4, 5, 6, 9]), ("phi", PHI[:4]), ("shift", [0, Fr(1, 3)]), ("k", [1, 2, -1, 3, 9, -20])], renumber),
        Product("shifts turn the chain", [("c0", C0[:5]), ("n", [3, 4, 5, 7, 12]), ("phi", PHI + [Fr(1, 1000), Fr(-9, 10)]), ("shift", SH + [Fr(1, 7), Fr(-5, 11), Fr(1234567, 10 ** 6), Fr(1, 1024), 100 + Fr(1, 3)])], turned),
        Product("opposite eccentricities", [("c0", C0), ("n", N[:8]), ("phi", [Fr(1, 4), Fr(1, 2), Fr(4, 5)])], continuity),
        Product("rejected arguments", [("c0", [c]), ("n", [0, -3, 2.5, "4", None, 3.0]), ("phi", [0.5]), ("shift", [0])], refuse),
        Product("rejected arguments 2", [("c0", [c]), ("n", [3]), ("phi", ["a", None, (1, 2), 1j]), ("shift", [0])], refuse),
        Product("rejected arguments 3", [("c0", [c]), ("n", [3]), ("phi", [0.5]), ("shift", ["a", None, (1, 2), 1j])], refuse),
        Product("rejected arguments 4", [("c0", [None, (0, 0), 3, g.Ellipse((0, 0), 2, 1, 0), g.Line((0, 0), (1, 1))]), ("n", [3]), ("phi", [0.5]), ("shift", [0])], refuse),
    ]
