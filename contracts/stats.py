import numpy as np

from contracts import gens as G
from pyvc.dsl import ANY, Contract, NS, contract


# --------------------------------------------------------------- C14
def _stat_spec(E, o, names, flag=None):
    """names: (LOLGA, LOLGP, LOLTA, LOLTP, MGNGA, MGNGP, MGNTA, MGNTP)"""
    n = o.MARGIN.shape[0]
    tot = E.sum(0, n, lambda a: o.MARGIN[a])
    T = tot >= 0         # the pool is not short: transmission class
    short = lambda a: o.MARGIN[a] < 0
    amount = E.sum(0, n, lambda a: E.ite(short(a), lambda: -o.MARGIN[a], lambda: 0))
    LGA, LGP, LTA, LTP, MGA, MGP, MTA, MTP = names
    out = {}

    def area(name, cls, val):
        X = o[name]
        out[name] = E.fn(X.shape, lambda a, l: X[a, l] + E.ite(
            E.And(l == o.NST, short(a), cls), lambda: E.real(val(a)), lambda: E.real(0)))

    def pool(name, cls, val):
        X = o[name]
        out[name] = E.fn(X.shape, lambda l: X[l] + E.ite(E.And(l == o.NST, cls), lambda: E.real(val), lambda: E.real(0)))

    G_ = E.Not(T)
    area(LGA, G_, lambda a: 1)
    area(LTA, T, lambda a: 1)
    area(MGA, G_, lambda a: -o.MARGIN[a])
    area(MTA, T, lambda a: -o.MARGIN[a])
    pool(LGP, G_, 1)
    pool(LTP, T, 1)
    pool(MGP, G_, amount)
    pool(MTP, T, amount)
    if flag:
        X = o[flag]
        out[flag] = E.fn(X.shape, lambda a: X[a] + E.toint(short(a)))
    return None, out


def _stat_args(E, areas, pools, flag):
    n, f = E.dim("NOAREA"), E.dim("NFCST")
    d = {}
    d["NST"] = E.int("NST")
    d["MARGIN"] = E.arr("MARGIN", (n,), "i")
    return d, n, f


def _stat_requires(E, o, areas, pools):
    n = o.MARGIN.shape[0]
    f = o[areas[0]].shape[1]
    return [("areas", E.And(*[E.And(o[x].shape[0] == n, o[x].shape[1] == f) for x in areas])),
            ("levels", E.And(*[o[x].shape[0] == f for x in pools])),
            ("level", E.And(0 <= o.NST, o.NST < f))]


def _stat_gen(rng, k, areas, pools, flag, order):
    n, f = G.size(rng, 1, 6), int(rng.choice([1, 5]))
    while True:
        M = rng.integers(-300, 300, size=n)
        r = rng.random()
        if r < 0.2:
            M = -abs(M)
        M[rng.random(n) < 0.2] = 0
        if r > 0.8:
            M = M // 50
        if r > 0.95:
            M = abs(M)
        if k % 6 == 0 and n > 1:          # total just above / below zero
            M[-1] = -M[:-1].sum() + int(rng.choice([-1, 0, 1]))
        break
    d = dict(NST=int(rng.integers(0, f)), MARGIN=M)
    for x in areas:
        d[x] = rng.integers(0, 50, size=(n, f)).astype(float)
    for x in pools:
        d[x] = rng.integers(0, 50, size=f).astype(float)
    if flag:
        d[flag] = rng.integers(0, 5, size=n).astype(float)
    return {x: d[x] for x in order}


_HA, _HP = ("LOLGHA", "LOLTHA", "MGNGHA", "MGNTHA"), ("LOLGHP", "LOLTHP", "MGNGHP", "MGNTHP")
_PA, _PP = ("LOLGPA", "LOLTPA", "MGNGPA", "MGNTPA"), ("LOLGPP", "LOLTPP", "MGNGPP", "MGNTPP")


@contract
class hrstat(Contract):
    file = "monte_carlo/hrstat.py"
    func = "hrstat"
    props = ["C14"]
    order = ("NST", "MARGIN", "LSFLG", "LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP")
    modifies = order[2:]

    @staticmethod
    def args(E):
        n, f = E.dim("NOAREA"), E.dim("NFCST")
        d = {}
        for x in hrstat.order:
            d[x] = E.int(x) if x == "NST" else E.arr(x, (n,), "i") if x == "MARGIN" else E.arr(x, (n,), "r") \
                if x == "LSFLG" else E.arr(x, (n, f), "r") if x in _HA else E.arr(x, (f,), "r")
        return d

    @staticmethod
    def requires(E, o):
        return _stat_requires(E, o, _HA, _HP) + [("flags", o.LSFLG.shape[0] == o.MARGIN.shape[0])]

    @staticmethod
    def spec(E, o):
        return _stat_spec(E, o, ("LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP"), "LSFLG")

    @staticmethod
    def gen(rng, k):
        return _stat_gen(rng, k, _HA, _HP, "LSFLG", hrstat.order)


@contract
class pkstat(Contract):
    file = "monte_carlo/pkstat.py"
    func = "pkstat"
    props = ["C14"]
    order = ("NST", "MARGIN", "LOLGPA", "LOLGPP", "LOLTPA", "LOLTPP", "MGNGPA", "MGNGPP", "MGNTPA", "MGNTPP")
    modifies = order[2:]

    @staticmethod
    def args(E):
        n, f = E.dim("NOAREA"), E.dim("NFCST")
        d = {}
        for x in pkstat.order:
            d[x] = E.int(x) if x == "NST" else E.arr(x, (n,), "i") if x == "MARGIN" else E.arr(x, (n, f), "r") \
                if x in _PA else E.arr(x, (f,), "r")
        return d

    @staticmethod
    def requires(E, o):
        return _stat_requires(E, o, _PA, _PP)

    @staticmethod
    def spec(E, o):
        return _stat_spec(E, o, ("LOLGPA", "LOLGPP", "LOLTPA", "LOLTPP", "MGNGPA", "MGNGPP", "MGNTPA", "MGNTPP"))

    @staticmethod
    def gen(rng, k):
        return _stat_gen(rng, k, _PA, _PP, None, pkstat.order)


# --------------------------------------------------------------- C17
@contract
class cvchk(Contract):
    file = "monte_carlo/cvchk.py"
    func = "cvchk"
    props = ["C17"]

    @staticmethod
    def args(E):
        return dict(CLOCK=E.real_var("CLOCK"), FINISH=E.real_var("FINISH"), IYEAR=E.int("IYEAR"),
                    CVTEST=E.real_var("CVTEST"), SUM=E.real_var("SUM"), XLAST=E.real_var("XLAST"),
                    SSQ=E.real_var("SSQ"))

    @staticmethod
    def requires(E, o):
        # the annual values are real: their squares average at least the square of their mean
        d = o.SUM - o.XLAST
        return [("years", o.IYEAR >= 1), ("variance", (o.SSQ + d * d) * o.IYEAR >= o.SUM * o.SUM),
                ("monitored totals never negative", o.SUM >= 0), ("tolerance", o.CVTEST >= 0)]

    @staticmethod
    def spec(E, o):
        d = o.SUM - o.XLAST
        ssq = o.SSQ + d * d
        y = E.real(o.IYEAR)
        tol = E.ite(o.CVTEST == 0, lambda: E.lit("0.025"), lambda: o.CVTEST)
        mean = o.SUM / y
        # standard error < tolerance * mean, without the root: both sides non-negative
        small = (ssq / y - mean * mean) / y < tol * mean * tol * mean
        conv = E.And(o.IYEAR >= 5, mean != 0, small)
        return (E.toint(E.Or(o.CLOCK >= o.FINISH, conv)), ssq, o.SUM), {}

    @staticmethod
    def gen(rng, k):
        y = int(rng.choice([1, 2, 4, 5, 6, 7, 10, 50]))
        vals = rng.choice([0, 1, 5, 20, 100]) * (1 + rng.choice([0, 0.01, 0.05, 0.1, 1.0]) * rng.random(y))
        if rng.random() < 0.1:
            vals[:] = 0
        fin = 8760.0 * int(rng.choice([y, y + 1, y - 1, 50, 9999]))
        s, x = float(vals.sum()), float(vals[:-1].sum())
        ssq = float((vals[:-1] ** 2).sum())
        if k % 3 == 0:
            # just around the threshold
            cv = None
            m = s / y
            ssqt = ssq + (s - x) ** 2
            var = (ssqt / y - m * m) / y
            if m > 0 and var > 1e-12:
                cv = (var ** 0.5) / m * float(rng.choice([0.999, 1.001]))
        else:
            cv = float(rng.choice([0.0, 0.025, 0.05, 0.1]))
        if cv is None:
            cv = 0.025
        v = (ssq + (s - x) ** 2) * y - s * s
        if v <= 1e-9 * s * s:
            ssq += 1e-6 * max(1.0, s)
        return dict(CLOCK=8760.0 * y + float(rng.choice([0, 0, 0.5])), FINISH=fin, IYEAR=y, CVTEST=cv, SUM=s, XLAST=x, SSQ=ssq)
