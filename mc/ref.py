"""Boring exact reference geometry: rationals, Gaussian rationals, Hermitian circles, conics.

Nothing here imports the library under test.
"""
from fractions import Fraction as Fr
import math

F0, F1 = Fr(0), Fr(1)


def fr(x):
    return x if isinstance(x, Fr) else Fr(x)


def fsqrt(x):
    """float sqrt of a non-negative rational, correctly to ~1 ulp even for big terms."""
    return math.sqrt(float(x)) if x >= 0 else float("nan")


def isqrt_exact(x):
    """exact rational square root or None"""
    x = fr(x)
    if x < 0:
        return None
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return Fr(a, b)
    return None


def sgn(x):
    return (x > 0) - (x < 0)


# -- vectors (exact pairs) ----------------------------------------------------
def add(a, b): return (a[0] + b[0], a[1] + b[1])
def sub(a, b): return (a[0] - b[0], a[1] - b[1])
def mul(k, a): return (k * a[0], k * a[1])
def dot(a, b): return a[0] * b[0] + a[1] * b[1]
def det(a, b): return a[0] * b[1] - a[1] * b[0]
def n2(a): return a[0] * a[0] + a[1] * a[1]
def perp(a): return (-a[1], a[0])
def mid(a, b): return ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
def fpt(a): return (float(a[0]), float(a[1]))
def ept(a): return (Fr(a[0]), Fr(a[1]))
def fdist(a, b): return math.hypot(float(a[0]) - float(b[0]), float(a[1]) - float(b[1]))


def foot(A, B, M):
    d = sub(B, A)
    t = Fr(dot(sub(M, A), d)) / n2(d)
    return add(A, mul(t, d))


def meet(A, B, C, D):
    """Intersection of the lines AB and CD (exact), None if parallel."""
    u, v = sub(B, A), sub(D, C)
    k = det(u, v)
    if k == 0:
        return None
    t = Fr(det(sub(C, A), v)) / k
    return add(A, mul(t, u))


# -- Gaussian rationals -------------------------------------------------------
class G(object):
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = fr(re), fr(im)

    @staticmethod
    def of(x):
        if isinstance(x, G):
            return x
        if isinstance(x, tuple):
            return G(x[0], x[1])
        if isinstance(x, complex):
            return G(Fr(x.real), Fr(x.imag))
        return G(x)

    def __add__(s, o):
        o = G.of(o); return G(s.re + o.re, s.im + o.im)
    __radd__ = __add__

    def __neg__(s): return G(-s.re, -s.im)

    def __sub__(s, o):
        o = G.of(o); return G(s.re - o.re, s.im - o.im)

    def __rsub__(s, o): return G.of(o) - s

    def __mul__(s, o):
        o = G.of(o); return G(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = G.of(o); d = o.re * o.re + o.im * o.im
        return G((s.re * o.re + s.im * o.im) / d, (s.im * o.re - s.re * o.im) / d)

    def __rtruediv__(s, o): return G.of(o) / s
    def conj(s): return G(s.re, -s.im)
    def n2(s): return s.re * s.re + s.im * s.im
    def __eq__(s, o):
        o = G.of(o); return s.re == o.re and s.im == o.im
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.re, s.im))
    def __bool__(s): return bool(s.re) or bool(s.im)
    def __complex__(s): return complex(float(s.re), float(s.im))
    def __repr__(s): return "(%s%+si)" % (s.re, s.im)
    def t(s): return (s.re, s.im)
    def key(s): return (s.re, s.im)


INF = "inf"


# -- 2x2 Gaussian matrices / Moebius ------------------------------------------
def mmul(A, B):
    return tuple(tuple(A[i][0] * B[0][j] + A[i][1] * B[1][j] for j in (0, 1)) for i in (0, 1))


def mconj(A): return tuple(tuple(x.conj() for x in r) for r in A)
def mdet(A): return A[0][0] * A[1][1] - A[0][1] * A[1][0]
def mtrace(A): return A[0][0] + A[1][1]
def minv(A): return ((A[1][1], -A[0][1]), (-A[1][0], A[0][0]))
def mk(a, b, c, d): return ((G.of(a), G.of(b)), (G.of(c), G.of(d)))
MID = mk(1, 0, 0, 1)


def mpow(A, k):
    if k < 0:
        A, k = minv(A), -k
    R = MID
    for _ in range(k):
        R = mmul(R, A)
    return R


def mnorm(A):
    """projective canonical form"""
    for r in A:
        for x in r:
            if x:
                return tuple(tuple((y / x).key() for y in rr) for rr in A)


def mact(A, z):
    """action on a Gaussian rational or INF (exact)"""
    (a, b), (c, d) = A
    if isinstance(z, str):
        return INF if not c else a / c
    den = c * z + d
    if not den:
        return INF
    return (a * z + b) / den


def mfloat(A):
    return [[complex(x) for x in r] for r in A]


# -- generalized circles: A|z|^2 + conj(B) z + B conj(z) + D = 0 (A, D rational, B Gaussian)
class GC(object):
    """Exact generalized circle.  |B|^2 - A D > 0."""
    __slots__ = ("A", "B", "D")

    def __init__(self, A, B, D):
        A, B, D = fr(A), G.of(B), fr(D)
        # canonical scaling
        if A != 0:
            k = A
        else:
            k = B.re if B.re != 0 else B.im
        self.A, self.B, self.D = A / k, G(B.re / k, B.im / k), D / k

    @staticmethod
    def circle(c, r2):
        c = G.of(c)
        return GC(1, -c, c.n2() - fr(r2))

    @staticmethod
    def line(P, Q):
        P, Q = G.of(P), G.of(Q)
        n = (Q - P) * G(0, 1)
        # Re(conj(n)(z-P)) = 0 -> conj(n) z + n conj(z) - 2 Re(conj(n) P) = 0
        return GC(0, n, -2 * (n.conj() * P).re)

    def is_line(self): return self.A == 0
    def disc(self): return self.B.n2() - self.A * self.D
    def center(self): return (-self.B.re / self.A, -self.B.im / self.A)
    def r2(self): return self.disc() / (self.A * self.A)

    def key(self): return (self.A, self.B.re, self.B.im, self.D)
    def __eq__(s, o): return s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s):
        if s.is_line():
            return "line %s*x+%s*y+%s=0" % (s.B.re * 2, s.B.im * 2, s.D)
        return "circle center=(%s,%s) r2=%s" % (s.center() + (s.r2(),))

    def value(self, z):
        return self.A * z.n2() + 2 * (self.B.conj() * z).re + self.D

    def has(self, z):
        if isinstance(z, str):
            return self.A == 0
        return self.value(z) == 0

    def fdist(self, p):
        """float distance of a float point to the curve"""
        if self.is_line():
            bx, by, d = float(self.B.re), float(self.B.im), float(self.D)
            return abs(2 * (bx * p[0] + by * p[1]) + d) / (2 * math.hypot(bx, by))
        c = self.center()
        return abs(math.hypot(p[0] - float(c[0]), p[1] - float(c[1])) - fsqrt(self.r2()))

    def moebius(self, M):
        """exact image by z -> M z"""
        # H' = N^* H N with N = M^{-1}
        N = minv(M)
        return self._pull(N)

    def _pull(self, N):
        H = ((G(self.A), self.B.conj()), (self.B, G(self.D)))
        # form: (z 1)^* ... with  z^* A z + ... : v=(z,1): v^* [[A, B],[B^*, D]] v, v^* = (conj z, 1)
        H = ((G(self.A), self.B), (self.B.conj(), G(self.D)))
        Ns = ((N[0][0].conj(), N[1][0].conj()), (N[0][1].conj(), N[1][1].conj()))
        K = mmul(mmul(Ns, H), N)
        return GC(K[0][0].re, K[0][1], K[1][1].re)

    def conj(self):
        return GC(self.A, self.B.conj(), self.D)

    def invert(self, pole, k):
        """exact image by the inversion of the given pole and power"""
        c = G.of(pole)
        M = ((c, G(fr(k)) - G(c.n2())), (G(1), -c.conj()))
        return self.conj().moebius(M)

    def reflect(self, P, Q):
        P, Q = G.of(P), G.of(Q)
        u = Q - P
        a = u / u.conj()
        # z -> P + a conj(z - P)
        return self.conj().moebius(((a, P - a * P.conj()), (G(0), G(1))))


def inv_point(pole, k, z):
    """exact inversion of a Gaussian rational or INF"""
    c = G.of(pole)
    if isinstance(z, str):
        return c
    d = z - c
    if not d:
        return INF
    return c + d * (fr(k) / d.n2())


# -- conics as symmetric 3x3 rational matrices ---------------------------------
def m3mul(A, B):
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def m3t(A): return tuple(zip(*A))


def m3inv(A):
    (a, b, c), (d, e, f), (g, h, i) = A
    D = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    D = Fr(D)
    return (((e * i - f * h) / D, (c * h - b * i) / D, (b * f - c * e) / D),
            ((f * g - d * i) / D, (a * i - c * g) / D, (c * d - a * f) / D),
            ((d * h - e * g) / D, (b * g - a * h) / D, (a * e - b * d) / D))


def m3det(A):
    (a, b, c), (d, e, f), (g, h, i) = A
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


def m3act(M, p):
    return (M[0][0] * p[0] + M[0][1] * p[1] + M[0][2], M[1][0] * p[0] + M[1][1] * p[1] + M[1][2])


class Conic(object):
    """Ellipse as exact quadratic form with the matrix S such that (M-O)' S (M-O) = 1."""
    __slots__ = ("O", "S")

    def __init__(self, O, S):
        self.O, self.S = (fr(O[0]), fr(O[1])), (fr(S[0]), fr(S[1]), fr(S[2]))  # S = [[s0,s1],[s1,s2]]

    @staticmethod
    def circle(c, r2):
        return Conic(c, (1 / fr(r2), 0, 1 / fr(r2)))

    @staticmethod
    def axes(O, u, a2, b2):
        """major axis direction u (exact vector, any length), squared radii."""
        u = (fr(u[0]), fr(u[1])); l = n2(u); a2, b2 = fr(a2), fr(b2)
        return Conic(O, (u[0] * u[0] / l / a2 + u[1] * u[1] / l / b2,
                         u[0] * u[1] / l / a2 - u[0] * u[1] / l / b2,
                         u[1] * u[1] / l / a2 + u[0] * u[0] / l / b2))

    def affine(self, L, b):
        """exact image by p -> L p + b, L = ((a,b),(c,d))"""
        (a, c), (d, e) = L
        D = Fr(a * e - c * d)
        i = ((e / D, -c / D), (-d / D, a / D))
        s0, s1, s2 = self.S
        # S' = i^T S i
        def q(x, y):
            return x[0] * (s0 * y[0] + s1 * y[1]) + x[1] * (s1 * y[0] + s2 * y[1])
        c0, c1 = (i[0][0], i[1][0]), (i[0][1], i[1][1])
        O = self.O
        return Conic((a * O[0] + c * O[1] + b[0], d * O[0] + e * O[1] + b[1]), (q(c0, c0), q(c0, c1), q(c1, c1)))

    def key(self): return (self.O, self.S)
    def __repr__(s): return "ellipse O=(%s,%s) S=[%s,%s,%s]" % (s.O + s.S)

    def q(self, p):
        """(M-O)' S (M-O), exact or float"""
        x, y = p[0] - self.O[0], p[1] - self.O[1]
        return self.S[0] * x * x + 2 * self.S[1] * x * y + self.S[2] * y * y

    def qf(self, p):
        x, y = p[0] - float(self.O[0]), p[1] - float(self.O[1])
        return float(self.S[0]) * x * x + 2 * float(self.S[1]) * x * y + float(self.S[2]) * y * y

    def axes_f(self):
        """(a, b, angle in [0,pi)) in floats; angle None for circles"""
        s0, s1, s2 = (float(x) for x in self.S)
        m, d = (s0 + s2) / 2, math.hypot((s0 - s2) / 2, s1)
        # eigenvalues m +- d ; small eigenvalue = long axis; use det for the small one
        big = m + d
        detS = float(self.S[0] * self.S[2] - self.S[1] * self.S[1])
        small = detS / big
        if (self.S[0] == self.S[2]) and self.S[1] == 0:
            ang = None
        else:
            # direction of eigenvector of the small eigenvalue
            ang = (0.5 * math.atan2(2 * s1, s0 - s2) + math.pi / 2) % math.pi
        return 1 / math.sqrt(small), 1 / math.sqrt(big), ang

    def equation(self):
        """exact A..F with the +1*(q-1) normalization"""
        s0, s1, s2 = self.S; x, y = self.O
        return (s0, 2 * s1, s2, -2 * (s0 * x + s1 * y), -2 * (s1 * x + s2 * y), self.q((0, 0)) - 1)


def angle_diff(a, b, period):
    d = (a - b) % period
    return min(d, period - d)
