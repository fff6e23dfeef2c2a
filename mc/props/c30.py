"""Unimodular matrices: complete comparison with brute force for every n up to the bound."""
from mc.lib import *

ASSUMPTIONS = ["n up to the bound of the tier"]


def brute(n):
    """all 2x2 integer matrices of determinant one, entries in 0..n, first row dominating the second"""
    out = set()
    for a in range(n + 1):
        for c in range(a + 1):
            for b in range(n + 1):
                # a d - b c = 1
                if a == 0:
                    continue
                if (1 + b * c) % a:
                    continue
                d = (1 + b * c) // a
                if 0 <= d <= n and b >= d:
                    out.add(((a, b), (c, d)))
    return out


def entries(ctx, M, w):
    try:
        r = [[M[i][j] for j in range(2)] for i in range(2)]
        ok = len(M) == 2 and len(M[0]) == 2 and len(M[1]) == 2
    except Exception:
        raise Violation("%s: expected a 2x2 matrix, got %s" % (w, show(M)))
    ctx.ok(ok, "%s: expected a 2x2 matrix, got %s", w, show(M))
    for row in r:
        for x in row:
            v = num(x, w)
            ctx.ok(v == int(v), "%s: entry %r is not an integer", w, v)
    return tuple(tuple(int(x) for x in row) for row in r)


def complete(ctx, n):
    L = ctx.call(g.unimodular_matrices, n)
    w = "unimodular_matrices(%d)" % n
    ctx.ok(isinstance(L, (list, tuple, np.ndarray)), "%s: expected a list, got %s", w, show(L))
    S = [entries(ctx, M, w) for M in L]
    for M in S:
        (a, b), (c, d) = M
        ctx.ok(a * d - b * c == 1, "%s: the determinant of %r is %d", w, M, a * d - b * c)
        ctx.ok(all(0 <= x <= n for x in (a, b, c, d)), "%s: entries of %r", w, M)
    ctx.ok(len(set(S)) == len(S), "%s: %d repeated matrices, e.g. %r", w, len(S) - len(set(S)), next((m for m in S if S.count(m) > 1), None))
    if n >= 2:
        want = brute(n) | {((1, 0), (0, 1))}
        ctx.ok(set(S) == want, "%s: %d matrices instead of %d; missing %s; unexpected %s", w, len(S), len(want), sorted(want - set(S))[:3], sorted(set(S) - want)[:3])
        # the list of n extends the list of n - 1
        if n >= 3:
            T = {entries(ctx, M, w) for M in ctx.call(g.unimodular_matrices, n - 1)}
            ctx.ok(T <= set(S), "%s: %r are generated for n = %d only", w, sorted(T - set(S))[:3], n - 1)
    ctx.state((n, len(S)))
    ctx.outcome("determinant one")


def refuse(ctx, v):
    ctx.refuses(g.unimodular_matrices, v)
    ctx.outcome("refused")


BAD = [0, -1, -10, 1.5, 2.0, 0.5, "3", None, (2,), [2], Fr(3, 2), Fr(4, 1), 2j, np.float64(3)]


def spaces(tier):
    return [Product("all n", [("n", range(1, 101 if tier == "quick" else 201))], complete),
            Product("rejected arguments", [("n", BAD)], refuse)]
