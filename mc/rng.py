"""Random generators as an enumerated environment.

While a stub is installed every function of numpy.random and of the random module that
the library may use asks its answer from `answer(kind, n)`: an index below n.  Continuous
variates are answered on a finite grid of quantiles (cell midpoints, or the extreme
values), so "all answers" is a finite set that the explorer enumerates completely.
"""
import math, random as pyrandom
import numpy as np


def phi_inv(p):
    """normal quantile (bisection on erf)"""
    lo, hi = -40.0, 40.0
    for _ in range(200):
        m = (lo + hi) / 2
        if 0.5 * math.erfc(-m / math.sqrt(2)) < p:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


class Stub(object):
    """integer(n) -> index in range(n); quantile() -> number in [0, 1)"""
    def __init__(self, integer, quantile):
        self.integer, self.quantile = integer, quantile
        self.draws = 0

    # -- scalars
    def _int(self, n):
        self.draws += 1
        return int(self.integer(int(n)))

    def _u(self):
        self.draws += 1
        return float(self.quantile())

    # -- arrays
    def _fill(self, size, f):
        if size is None or size == ():
            return f()
        if not isinstance(size, (tuple, list)):
            size = (int(size),)
        n = 1
        for s in size:
            n *= int(s)
        v = [f() for _ in range(n)]
        return np.array(v).reshape(tuple(int(s) for s in size))

    def rand(self, *size):
        return self._fill(tuple(size) if size else None, self._u)

    def random(self, size=None, *a, **k):
        return self._fill(size, self._u)

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        u = self._fill(size, self._u)
        return low + (high - low) * u

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._fill(size, lambda: self._n())

    def _n(self):
        # a uniform quantile is turned into a normal one; 0 is avoided
        u = self._u()
        return phi_inv(min(max(u, 1e-12), 1 - 1e-12))

    def standard_normal(self, size=None, *a, **k):
        return self._fill(size, self._n)

    def randn(self, *size):
        return self._fill(tuple(size) if size else None, self._n)

    def exponential(self, scale=1.0, size=None):
        return scale * self._fill(size, lambda: -math.log(1 - self._u()))

    def standard_exponential(self, size=None, *a, **k):
        return self.exponential(1.0, size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError("low >= high")
        return self._fill(size, lambda: int(low) + self._int(high - low))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + (1 if endpoint else 0), size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = range(int(a)) if isinstance(a, (int, np.integer)) else a
        n = len(items)
        if p is not None:
            def pick():
                u, i = self._u(), 0
                for i, q in enumerate(p):
                    u -= q
                    if u < 0:
                        break
                return i
        else:
            pick = lambda: self._int(n)
        if size is None:
            i = pick()
            return items[i] if not isinstance(items, range) else i
        if replace:
            ix = self._fill(size, pick)
        else:
            ix = np.array(self._perm(n)[:int(size)])
        if isinstance(items, range):
            return ix
        return np.asarray(items)[ix]

    def _perm(self, n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self._int(len(left)) if len(left) > 1 else 0))
        return out

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self._perm(int(x)))
        x = np.asarray(x)
        return x[self._perm(len(x))]

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        y = [np.array(x[i]) if isinstance(x, np.ndarray) else x[i] for i in p]
        for i, v in enumerate(y):
            x[i] = v

    # -- Python's random module
    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self._int(len(r))]

    def py_randint(self, a, b):
        return a + self._int(b - a + 1)

    def py_choice(self, seq):
        return seq[self._int(len(seq))]

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * self._n()

    def py_sample(self, population, k):
        p = list(population)
        return [p[i] for i in self._perm(len(p))[:k]]

    def seed(self, *a, **k):
        self.reseeded = "global generator given the seed %s" % ", ".join(map(repr, a)) if any(x is not None for x in list(a) + list(k.values())) else None

    # -- generators made by the library
    def generator(self, *a, **k):
        if any(x is not None for x in list(a) + list(k.values())):
            self.fixed = "generator made with the seed %s" % ", ".join(map(repr, list(a) + list(k.values())))
        return self

    reseeded = fixed = None


NP = ["rand", "random", "random_sample", "ranf", "sample", "uniform", "normal", "standard_normal", "randn", "randint", "choice", "permutation", "shuffle",
      "exponential", "standard_exponential", "seed"]


class Installed(object):
    def __init__(self, stub):
        self.stub = stub

    def __enter__(self):
        s = self.stub
        self.saved = []
        for n in NP:
            if hasattr(np.random, n):
                self._put(np.random, n, getattr(s, n))
        for n in ("default_rng", "RandomState"):
            if hasattr(np.random, n):
                self._put(np.random, n, s.generator)
        for n, f in (("random", s._u), ("uniform", lambda a, b: a + (b - a) * s._u()), ("gauss", s.gauss), ("normalvariate", s.gauss), ("randrange", s.randrange),
                     ("randint", s.py_randint), ("choice", s.py_choice), ("shuffle", s.shuffle), ("sample", s.py_sample), ("seed", s.seed)):
            self._put(pyrandom, n, f)
        return s

    def _put(self, mod, n, f):
        self.saved.append((mod, n, getattr(mod, n)))
        setattr(mod, n, f)

    def __exit__(self, *a):
        for mod, n, f in self.saved:
            setattr(mod, n, f)


def grid_quantile(choose, m):
    """midpoints of m equal cells of [0, 1)"""
    return lambda: (choose(m) + 0.5) / m
