"""Value generators for the concrete runs (boundary-heavy)."""
import numpy as np


def size(rng, lo=1, hi=6):
    r = rng.random()
    if r < 0.15:
        return lo
    if r < 0.25:
        return hi
    return int(rng.integers(lo, hi + 1))


def reals(rng, shape, lo=-100.0, hi=100.0, special=(0.0,)):
    x = rng.uniform(lo, hi, size=shape)
    mode = rng.integers(4)
    if mode == 0:
        x = np.round(x)
    if mode == 1:
        x = np.round(x * 4) / 4
    m = rng.random(shape) < 0.15
    if special:
        x = np.where(m, rng.choice(special, size=shape), x)
    return np.asarray(x, dtype=float)


def ints(rng, shape, lo, hi):
    return rng.integers(lo, hi + 1, size=shape)


def seeds(rng, n):
    s = rng.integers(0, 2**31, size=n)
    s = np.where(rng.random(n) < 0.1, rng.choice([0, 1, 2**31 - 1, 2**30, 2**30 + 1, 32768, 1 << 15], size=n), s)
    return s.astype(np.int32)


def cumprob(rng, n, m):
    """n rows of m nondecreasing numbers in [0,1]"""
    p = np.sort(rng.random((n, m)), axis=1)
    for i in range(n):
        r = rng.random()
        if r < 0.15:
            p[i, 0] = 0.0
        elif r < 0.25:
            p[i, :] = 0.0
        elif r < 0.35:
            p[i, :] = 1.0
        elif r < 0.45 and m > 1:
            p[i, 1] = p[i, 0]
        elif r < 0.55:
            p[i, -1] = 1.0
    return p


def perm_ref_last(rng, n, nr):
    rest = [a for a in range(n) if a != nr]
    return np.array(rest + [nr])


def network(rng, n, extra=None, neg=True):
    """connected set of lines over n areas: LP (nl,3), admittances"""
    ends = []
    for a in range(1, n):
        b = int(rng.integers(0, a))
        ends.append((a, b) if rng.random() < 0.5 else (b, a))
    for _ in range(int(rng.integers(0, n + 1)) if extra is None else extra):
        if n < 2:
            break
        a, b = rng.choice(n, size=2, replace=False)
        ends.append((int(a), int(b)))
    ends = [ends[i] for i in rng.permutation(len(ends))]
    nl = len(ends)
    LP = np.zeros((nl, 3), dtype=int)
    LP[:, 0] = np.arange(nl)
    for i, e in enumerate(ends):
        LP[i, 1:] = e
    b = rng.uniform(20, 150, size=nl) * (-1 if neg else 1)
    if rng.random() < 0.5:
        b = np.round(b)
    return LP, b
