"""Concrete reading of contracts: numbers and numpy arrays."""
import itertools
import math

import numpy as np

from pyvc.dsl import ANY

RTOL = 1e-7


class SpecArr:
    def __init__(self, v, skip=None):
        self.v, self.skip, self.shape = v, skip, v.shape

    def __getitem__(self, k):
        return self.v[k]

    def __len__(self):
        return len(self.v)


def _v(x):
    return x() if callable(x) else x


class CEnv:
    sym = False

    def __init__(self, scale=1.0):
        self.scale = scale

    def fn(self, shape, f, kind="r"):
        shape = tuple(int(s) for s in shape)
        out = np.zeros(shape, dtype={"r": float, "i": np.int64, "b": bool}[kind])
        skip = None
        for idx in np.ndindex(*shape):
            v = f(*idx)
            if v is ANY:
                if skip is None:
                    skip = np.zeros(shape, dtype=bool)
                skip[idx] = True
            else:
                out[idx] = v
        return SpecArr(out, skip)

    # ---- values
    ghost = None

    def any(self):
        return ANY

    def lit(self, s):
        return float(s)

    def lcg(self, seed, mult, mod, k):
        return int(seed) * pow(mult, int(k), mod) % mod

    def rng_uniform(self, seed, n):
        return np.random.default_rng(int(seed)).random(int(n))

    def _mat(self, n, f):
        n = int(n)
        M = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                M[i, j] = f(i, j)
        return M

    def invertible(self, n, f):
        M = self._mat(n, f)
        return M.size == 0 or np.linalg.cond(M) < 1e10

    def inverse(self, n, f):
        return np.linalg.inv(self._mat(n, f))

    def ite(self, c, a, b):
        return _v(a) if c else _v(b)

    def And(self, *xs):
        return all(bool(_v(x)) for x in xs)

    def Or(self, *xs):
        return any(bool(_v(x)) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(_v(b))

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return True
        return abs(a - b) <= RTOL * max(1.0, abs(a), abs(b), self.scale)

    def le(self, a, b):
        return float(a) <= float(b) + RTOL * max(1.0, abs(float(a)), abs(float(b)), self.scale)

    def sum(self, lo, hi, f):
        r = 0
        for j in range(int(lo), int(hi)):
            r = r + f(j)
        return r

    def forall(self, *a):
        *rs, f = a
        for idx in itertools.product(*[range(int(lo), int(hi)) for lo, hi in rs]):
            if not _v(f(*idx)):
                return False
        return True

    def exists(self, *a):
        *rs, f = a
        for idx in itertools.product(*[range(int(lo), int(hi)) for lo, hi in rs]):
            if _v(f(*idx)):
                return True
        return False

    def argmax(self, lo, hi, f):
        """first index of the largest f"""
        best = None
        for j in range(int(lo), int(hi)):
            if best is None or f(j) > best[0]:
                best = (f(j), j)
        return best[1]

    def max(self, lo, hi, f):
        return max(f(j) for j in range(int(lo), int(hi)))

    def last(self, lo, hi, c, v, default):
        """v(j) for the last j with c(j)"""
        for j in range(int(hi) - 1, int(lo) - 1, -1):
            if c(j):
                return v(j)
        return _v(default)

    def powmod(self, base, n, m):
        return pow(base, int(n), m)

    def floor(self, x):
        return math.floor(x)

    def trunc(self, x):
        return int(x)

    def mod(self, a, b):
        return a % b

    def idiv(self, a, b):
        return a // b

    def div(self, a, b):
        return a / b

    def real(self, x):
        return float(x)

    def int(self, x):
        return int(x)

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return min(a, b)

    def max2(self, a, b):
        return max(a, b)

    def toint(self, c):
        return 1 if c else 0

    def first(self, lo, hi, f):
        """first j with f(j), else hi"""
        for j in range(int(lo), int(hi)):
            if f(j):
                return j
        return int(hi)

    def is_int(self, x):
        return float(x) == int(x)

    def toint_real(self, x):
        return int(x)
