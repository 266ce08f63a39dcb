import numpy as np

from contracts import gens as G
from pyvc.dsl import ANY, Contract, NS, contract

M31 = 2**31


# --------------------------------------------------------------- C03 C04 C05
@contract
class gstate(Contract):
    file = "monte_carlo/gstate.py"
    func = "gstate"
    parts = {"ret": ["C03"], "mut:IGSEED": ["C05", "C03"], "safety": ["C03"], "frame": ["C03", "C05"],
             "range": ["C05"], "lem": ["C03"]}
    modifies = ("IGSEED",)

    @staticmethod
    def args(E):
        n, m = E.dim("NUNITS"), E.dim("NSEEDS")
        return dict(IGSEED=E.arr("IGSEED", (m,), "i32"), PROBG=E.arr("PROBG", (n, 2), "r"),
                    RATING=E.arr("RATING", (n,), "r"), DERATE=E.arr("DERATE", (n,), "r"),
                    PLNDST=E.arr("PLNDST", (n,), "r"))

    @staticmethod
    def requires(E, o):
        n = o.PROBG.shape[0]
        m = o.IGSEED.shape[0]
        return [("enough seeds", n <= m),
                ("seeds in range", E.forall((0, m), lambda i: E.And(0 <= o.IGSEED[i], o.IGSEED[i] < M31)))]

    @staticmethod
    def spec(E, o):
        n = o.PROBG.shape[0]
        new = lambda i: E.mod(E.int(o.IGSEED[i]) * 65539, M31)
        u = lambda i: E.real(new(i)) * E.lit("4.656613e-10")
        pct = lambda i: E.ite(u(i) < o.PROBG[i, 0], lambda: E.real(1),
                              lambda: E.ite(u(i) < o.PROBG[i, 1], lambda: o.DERATE[i], lambda: E.real(0)))
        return (E.fn((n,), pct), E.fn((n,), lambda i: pct(i) * o.RATING[i] * o.PLNDST[i])), \
            {"IGSEED": E.fn(o.IGSEED.shape, lambda i: E.ite(i < n, lambda: new(i), lambda: o.IGSEED[i]), "i")}

    @staticmethod
    def lemmas(E, o):
        n = o.PROBG.shape[0]
        (pct, av), mut = gstate.spec(E, o)
        s = mut["IGSEED"]
        return [
            ("range: stream values stay in 0..2^31-1", E.forall((0, n), lambda i: E.And(0 <= s[i], s[i] < M31))),
            ("lem: a unit on planned outage contributes nothing",
             E.forall((0, n), lambda i: E.Implies(o.PLNDST[i] == 0, lambda: av[i] == 0))),
            ("range: uniform number in [0, 1.00000003)",
             E.forall((0, n), lambda i: E.And(0 <= E.real(s[i]) * E.lit("4.656613e-10"),
                                              E.real(s[i]) * E.lit("4.656613e-10") < E.lit("1.00000003")))),
        ]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 0 if rng.random() < 0.05 else 1, 8)
        P = G.cumprob(rng, n, 2)
        S = G.seeds(rng, n + int(rng.integers(0, 3)))
        if k % 4 == 0 and n:
            # thresholds just around the number that will be drawn
            for i in range(n):
                u = float((int(S[i]) * 65539) % M31) * 4.656613e-10
                P[i] = sorted(np.clip([u + rng.choice([-1e-6, 1e-6, -0.2, 0.2, 2e-5, -2e-5]),
                                       u + rng.choice([-1e-6, 1e-6, 0.1, -0.1])], 0, 1))
        return dict(IGSEED=S, PROBG=P, RATING=G.reals(rng, n, 0, 500), DERATE=G.reals(rng, n, 0, 1, (0.0, 1.0, 0.5)),
                    PLNDST=rng.choice([0.0, 1.0], size=n))


def _line_state(E, u, P):
    """first state whose cumulative probability reaches u, else 6"""
    return E.ite(u <= P(0), lambda: 1, lambda: E.ite(u <= P(1), lambda: 2, lambda: E.ite(
        u <= P(2), lambda: 3, lambda: E.ite(u <= P(3), lambda: 4, lambda: E.ite(u <= P(4), lambda: 5, lambda: 6)))))


@contract
class lstate(Contract):
    file = "monte_carlo/lstate.py"
    func = "lstate"
    parts = {"ret": ["C04"], "mut:ILSEED": ["C05", "C04"], "safety": ["C04"], "frame": ["C04", "C05"],
             "range": ["C05"], "lem": ["C04"]}
    modifies = ("ILSEED",)

    @staticmethod
    def args(E):
        n, m = E.dim("NLINES"), E.dim("NSEEDS")
        return dict(ILSEED=E.arr("ILSEED", (m,), "i32"), PROBL=E.arr("PROBL", (6, n), "r"))

    @staticmethod
    def requires(E, o):
        n = o.PROBL.shape[1]
        m = o.ILSEED.shape[0]
        return [("enough seeds", n <= m),
                ("seeds in range", E.forall((0, m), lambda i: E.And(0 <= o.ILSEED[i], o.ILSEED[i] < M31)))]

    @staticmethod
    def spec(E, o):
        n = o.PROBL.shape[1]
        new = lambda i: E.mod(E.int(o.ILSEED[i]) * 65539, M31)
        u = lambda i: E.real(new(i)) * E.lit("4.656613e-10")
        return E.fn((n,), lambda i: _line_state(E, u(i), lambda s: o.PROBL[s, i]), "i"), \
            {"ILSEED": E.fn(o.ILSEED.shape, lambda i: E.ite(i < n, lambda: new(i), lambda: o.ILSEED[i]), "i")}

    @staticmethod
    def lemmas(E, o):
        n = o.PROBL.shape[1]
        st, mut = lstate.spec(E, o)
        s = mut["ILSEED"]
        return [("range: stream values stay in 0..2^31-1", E.forall((0, n), lambda i: E.And(0 <= s[i], s[i] < M31))),
                ("lem: exactly one state in 1..6", E.forall((0, n), lambda i: E.And(1 <= st[i], st[i] <= 6)))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 0 if rng.random() < 0.05 else 1, 8)
        P = G.cumprob(rng, n, 6)
        S = G.seeds(rng, n + int(rng.integers(0, 3)))
        if k % 2 == 0 and n:
            for i in range(n):
                u = float((int(S[i]) * 65539) % M31) * 4.656613e-10
                j = int(rng.integers(0, 6))   # the state to be hit
                P[i] = np.clip([u - 1e-6 * (j - t) if t < j else u + 1e-6 * (t - j + 1) for t in range(6)], 0, 1)
        return dict(ILSEED=S, PROBL=np.ascontiguousarray(P.T))


@contract
class line_prob_sampling(Contract):
    file = "monte_carlo/line_prob_sampling.py"
    func = "lstate"
    props = ["C04"]

    @staticmethod
    def args(E):
        n = E.dim("NLINES")
        return dict(PROBL=E.arr("PROBL", (n, 6), "r"), test_seed=E.int("test_seed"))

    @staticmethod
    def requires(E, o):
        # cumulative probabilities: non-decreasing, the last one 1
        n = o.PROBL.shape[0]
        return [("cumulative", E.forall((0, n), (0, 5), lambda i, s: o.PROBL[i, s] <= o.PROBL[i, s + 1])),
                ("complete", E.forall((0, n), lambda i: o.PROBL[i, 5] == 1))]

    @staticmethod
    def spec(E, o):
        n = o.PROBL.shape[0]
        u = E.rng_uniform(o.test_seed, n)
        return E.fn((n,), lambda i: E.ite(
            u[i] < o.PROBL[i, 0], lambda: 1, lambda: E.ite(u[i] < o.PROBL[i, 1], lambda: 2, lambda: E.ite(
                u[i] < o.PROBL[i, 2], lambda: 3, lambda: E.ite(u[i] < o.PROBL[i, 3], lambda: 4, lambda: E.ite(
                    u[i] < o.PROBL[i, 4], lambda: 5, lambda: 6))))), "i"), {}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 8)
        P = G.cumprob(rng, n, 6)
        seed = int(rng.integers(0, 10**6))
        if k % 2 == 0:
            u = np.random.default_rng(seed).random(n)
            for i in range(n):
                j = int(rng.integers(0, 6))
                P[i] = np.clip([u[i] - 1e-6 * (j - t) if t < j else u[i] + 1e-6 * (t - j + 1) for t in range(6)], 0, 1)
        P[:, 5] = 1.0
        return dict(PROBL=P, test_seed=seed)


@contract
class seeder(Contract):
    file = "monte_carlo/seeder.py"
    func = "seeder"
    props = ["C05"]

    @staticmethod
    def args(E):
        return dict(JSEED=E.int("JSEED"), NUNITS=E.int("NUNITS"), NLINES=E.int("NLINES"))

    @staticmethod
    def requires(E, o):
        return [("seed", E.And(0 <= o.JSEED, o.JSEED < M31)), ("units", o.NUNITS >= 1), ("lines", o.NLINES >= 0)]

    @staticmethod
    def spec(E, o):
        st = lambda k: E.lcg(o.JSEED, 9649599, M31, k)     # seed * 9649599^k mod 2^31
        return (E.fn((o.NUNITS + 1,), lambda k: E.ite(k < o.NUNITS, lambda: st(k + 1), lambda: E.any()), "i"),
                E.fn((o.NLINES + 1,), lambda k: E.ite(k < o.NLINES, lambda: st(o.NUNITS + k + 1), lambda: E.any()), "i")), {}

    @staticmethod
    def invariants(E):
        """loops of the function in order: state at the start of iteration i"""
        st = lambda o, k: E.lcg(o.JSEED, 9649599, M31, k)
        rng = lambda x: E.And(0 <= x, x < M31)

        def loop0(o, v, i):
            return [("start value", v.IGSEED[i] == st(o, i)),
                    ("streams so far", E.forall((0, i), lambda k: v.IGSEED[k] == st(o, k + 1)))]

        def loop1(o, v, i):
            return [("start value", v.ILSEED[i] == st(o, o.NUNITS + i)),
                    ("streams so far", E.forall((0, i), lambda k: v.ILSEED[k] == st(o, o.NUNITS + k + 1)))]
        return [loop0, loop1]

    @staticmethod
    def gen(rng, k):
        return dict(JSEED=int(G.seeds(rng, 1)[0]) if k % 3 else int(rng.choice([0, 1, 123456, 345237, 2**31 - 1])),
                    NUNITS=G.size(rng, 1, 40), NLINES=G.size(rng, 0, 20))


# --------------------------------------------------------------- C06
@contract
class sumcap(Contract):
    file = "monte_carlo/sumcap.py"
    func = "sumcap"
    props = ["C06"]

    @staticmethod
    def args(E):
        n, m = E.dim("NOAREA", 1), E.dim("NUNITS")
        return dict(AVAIL=E.arr("AVAIL", (m,), "r"), CAPOWN=E.arr("CAPOWN", (n, m), "r"),
                    CAPCON=E.arr("CAPCON", (m,), "i"))

    @staticmethod
    def requires(E, o):
        n, m = o.CAPOWN.shape
        return [("one capacity per unit", E.And(o.AVAIL.shape[0] == m, o.CAPCON.shape[0] == m)),
                ("locations are areas", E.forall((0, m), lambda i: E.And(0 <= o.CAPCON[i], o.CAPCON[i] < n)))]

    @staticmethod
    def spec(E, o):
        n, m = o.CAPOWN.shape
        own = lambda a: E.sum(0, m, lambda i: o.CAPOWN[a, i] * o.AVAIL[i])
        con = lambda a: E.sum(0, m, lambda i: E.ite(o.CAPCON[i] == a, lambda: o.AVAIL[i], lambda: E.real(0)))
        return (E.fn((n, m), lambda a, i: o.CAPOWN[a, i] * o.AVAIL[i]), E.fn((n,), own), E.fn((n,), con),
                E.fn((n,), lambda a: con(a) - own(a))), {}

    @staticmethod
    def lemmas(E, o):
        n, m = o.CAPOWN.shape
        (_, own, con, tr), _m = sumcap.spec(E, o)
        shares = E.forall((0, m), lambda i: E.eq(E.sum(0, n, lambda a: o.CAPOWN[a, i]), 1))
        return [("located capacity is all the capacity",
                 E.eq(E.sum(0, n, lambda a: con[a]), E.sum(0, m, lambda i: o.AVAIL[i]))),
                ("shares sum to one: owned capacity is all the capacity",
                 E.Implies(shares, lambda: E.eq(E.sum(0, n, lambda a: own[a]), E.sum(0, m, lambda i: o.AVAIL[i])))),
                ("shares sum to one: transfers sum to zero",
                 E.Implies(shares, lambda: E.eq(E.sum(0, n, lambda a: tr[a]), 0)))]

    @staticmethod
    def gen(rng, k):
        n, m = G.size(rng, 1, 5), G.size(rng, 0 if rng.random() < .05 else 1, 9)
        W = G.reals(rng, (n, m), 0, 1, (0.0, 1.0))
        if k % 2:
            W = rng.random((n, m)) + 1e-3
            W = W / W.sum(axis=0)
        c = rng.integers(0, n, size=m)
        if k % 5 == 0:
            W = np.zeros((n, m))
            W[c, np.arange(m)] = 1
        return dict(AVAIL=G.reals(rng, m, 0, 500), CAPOWN=W, CAPCON=c)


# --------------------------------------------------------------- C07
def _jent(rng, n, nc, diag=False):
    J = -np.ones((n, n), dtype=int)
    ids = list(rng.permutation(nc))
    for a in range(n):
        for b in range(n):
            if (a != b or diag) and ids and rng.random() < 0.5:
                J[a, b] = ids.pop()
    return J


def _is_jent(E, J, nc):
    n = J.shape[0]
    return [("square", J.shape[1] == n),
            ("contract numbers", E.forall((0, n), (0, n), lambda a, b: E.And(-1 <= J[a, b], J[a, b] < nc)))]


def _net_export(E, J, C, a, d):
    n = J.shape[0]
    out = E.sum(0, n, lambda b: E.ite(J[a, b] != -1, lambda: C[J[a, b], d], lambda: E.real(0)))
    inn = E.sum(0, n, lambda b: E.ite(J[b, a] != -1, lambda: C[J[b, a], d], lambda: E.real(0)))
    return out - inn


@contract
class findtn(Contract):
    file = "monte_carlo/findtn.py"
    func = "findtn"
    props = ["C07"]

    @staticmethod
    def args(E):
        n, c, d = E.dim("NOAREA"), E.dim("NCON"), E.dim("NDAY")
        return dict(JENT=E.arr("JENT", (n, n), "i"), INTCH=E.arr("INTCH", (c, d), "r"), JDAY=E.int("JDAY"))

    @staticmethod
    def requires(E, o):
        return _is_jent(E, o.JENT, o.INTCH.shape[0]) + [("day", E.And(0 <= o.JDAY, o.JDAY < o.INTCH.shape[1]))]

    @staticmethod
    def spec(E, o):
        n = o.JENT.shape[0]
        return E.fn((n,), lambda a: _net_export(E, o.JENT, o.INTCH, a, o.JDAY)), {}

    @staticmethod
    def lemmas(E, o):
        n = o.JENT.shape[0]
        t, _ = findtn.spec(E, o)
        return [("transfers sum to zero", E.eq(E.sum(0, n, lambda a: t[a]), 0))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 5)
        nd = int(rng.choice([1, 3, 365]))
        return dict(JENT=_jent(rng, n, 8), INTCH=G.reals(rng, (8, nd), 0, 300), JDAY=int(rng.integers(0, nd)))


@contract
class xporta(Contract):
    file = "data_processing/xporta.py"
    func = "xporta"
    props = ["C07"]
    modifies = ("HRLOAD",)
    sign = 1

    @staticmethod
    def args(E):
        n, c, d = E.dim("NOAREA"), E.dim("NCON"), E.dim("NDAY")
        return dict(JENT=E.arr("JENT", (n, n), "i"), INTCH=E.arr("INTCH", (c, d), "r"),
                    HRLOAD=E.arr("HRLOAD", (n, E.dim("NHOUR")), "r"))

    @staticmethod
    def requires(E, o):
        n = o.JENT.shape[0]
        return _is_jent(E, o.JENT, o.INTCH.shape[0]) + [
            ("one load row per area", o.HRLOAD.shape[0] == n),
            ("24 hours a day", o.HRLOAD.shape[1] == 24 * o.INTCH.shape[1])]

    @staticmethod
    def spec(E, o, s=1):
        return None, {"HRLOAD": E.fn(o.HRLOAD.shape, lambda a, h: o.HRLOAD[a, h] + s * _net_export(
            E, o.JENT, o.INTCH, a, E.idiv(h, 24)))}

    @staticmethod
    def lemmas(E, o):
        _, m = xporta.spec(E, o)
        n, H = o.HRLOAD.shape
        o2 = NS(dict(JENT=o.JENT, INTCH=o.INTCH, HRLOAD=m["HRLOAD"]))
        _, m2 = xporta.spec(E, o2, -1)
        return [("the opposite adjustment restores the loads",
                 E.forall((0, n), (0, H), lambda a, h: E.eq(m2["HRLOAD"][a, h], o.HRLOAD[a, h]))),
                ("the total load of an hour is unchanged",
                 E.forall((0, H), lambda h: E.eq(E.sum(0, n, lambda a: m["HRLOAD"][a, h]),
                                                 E.sum(0, n, lambda a: o.HRLOAD[a, h]))))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 4)
        nd = int(rng.choice([1, 2, 3, 5]))
        c = G.reals(rng, (8, nd), 0, 300)
        c[rng.random(c.shape) < 0.4] = 0.0
        return dict(JENT=_jent(rng, n, 8), INTCH=c, HRLOAD=G.reals(rng, (n, nd * 24), 0, 3000))


@contract
class xports(Contract):
    file = "data_processing/xports.py"
    func = "xports"
    props = ["C07"]
    modifies = ("HRLOAD",)
    args = xporta.args
    requires = xporta.requires
    gen = xporta.gen

    @staticmethod
    def spec(E, o):
        return xporta.spec(E, o, -1)


@contract
class resca(Contract):
    file = "data_processing/resca.py"
    func = "resca"
    props = ["C07"]
    modifies = ("SUSTAT",)

    @staticmethod
    def args(E):
        n, u, c, d = E.dim("NOAREA"), E.dim("NUNITS"), E.dim("NCON"), E.dim("NDAY")
        return dict(SUSTAT=E.arr("SUSTAT", (n + 1, 6), "r"), MAXDAY=E.arr("MAXDAY", (n,), "i"),
                    QTR=E.arr("QTR", (3,), "r"), CAPOWN=E.arr("CAPOWN", (n, u), "r"), RATES=E.arr("RATES", (u, 4), "r"),
                    JENT=E.arr("JENT", (n, n), "i"), INTCH=E.arr("INTCH", (c, d), "r"))

    @staticmethod
    def requires(E, o):
        n = o.CAPOWN.shape[0]
        return _is_jent(E, o.JENT, o.INTCH.shape[0]) + [
            ("areas", E.And(o.SUSTAT.shape[0] == n + 1, o.JENT.shape[0] == n, o.MAXDAY.shape[0] == n)),
            ("units", E.And(o.RATES.shape[0] == o.CAPOWN.shape[1], o.RATES.shape[1] == 4)),
            ("peak days", E.forall((0, n), lambda a: E.And(0 <= o.MAXDAY[a], o.MAXDAY[a] < o.INTCH.shape[1])))]

    @staticmethod
    def spec(E, o):
        n, u = o.CAPOWN.shape

        def cap(a):
            d = o.MAXDAY[a]
            q = E.toint(o.QTR[0] < d * 24) + E.toint(o.QTR[1] < d * 24) + E.toint(o.QTR[2] < d * 24)
            return o.SUSTAT[a, 1] + E.sum(0, u, lambda j: o.CAPOWN[a, j] * o.RATES[j, q]) \
                - _net_export(E, o.JENT, o.INTCH, a, d)
        return None, {"SUSTAT": E.fn(o.SUSTAT.shape, lambda a, c: E.ite(
            E.And(a < n, c == 1), lambda: cap(a), lambda: o.SUSTAT[a, c]))}

    @staticmethod
    def gen(rng, k):
        n, u = G.size(rng, 1, 4), G.size(rng, 1, 6)
        nd = 365
        q = np.sort(rng.choice(np.arange(1, 52), size=3, replace=False)) * 168 + 0.5
        S = np.zeros((n + 1, 6)) if k % 2 else G.reals(rng, (n + 1, 6))
        md = rng.integers(0, nd, size=n)
        for i in range(n):
            if rng.random() < 0.5:
                md[i] = np.clip(int(q[rng.integers(0, 3)] // 24) + rng.integers(-1, 2), 0, nd - 1)
        if rng.random() < 0.3:
            md[rng.integers(0, n)] = rng.choice([0, 364])
        return dict(SUSTAT=S, MAXDAY=md, QTR=q, CAPOWN=G.reals(rng, (n, u), 0, 1, (0.0, 1.0)),
                    RATES=G.reals(rng, (u, 4), 0, 400), JENT=_jent(rng, n, 8), INTCH=G.reals(rng, (8, nd), 0, 300))


# --------------------------------------------------------------- C08
@contract
class findld(Contract):
    file = "monte_carlo/findld.py"
    func = "findld"
    props = ["C08"]

    @staticmethod
    def args(E):
        n, h, f = E.dim("NOAREA"), E.dim("NHOUR"), E.dim("NFCST")
        return dict(NFACT=E.int("NFACT"), JHOUR=E.int("JHOUR"), HRLOAD=E.arr("HRLOAD", (n, h), "r"),
                    FCTERR=E.arr("FCTERR", (n, f), "r"))

    @staticmethod
    def requires(E, o):
        return [("areas", o.HRLOAD.shape[0] == o.FCTERR.shape[0]),
                ("hour", E.And(0 <= o.JHOUR, o.JHOUR < o.HRLOAD.shape[1])),
                ("level", E.And(0 <= o.NFACT, o.NFACT < o.FCTERR.shape[1]))]

    @staticmethod
    def spec(E, o):
        return E.fn((o.HRLOAD.shape[0],), lambda a: o.HRLOAD[a, o.JHOUR] * o.FCTERR[a, o.NFACT]), {}

    @staticmethod
    def gen(rng, k):
        n, h, f = G.size(rng, 1, 5), G.size(rng, 1, 50), 5
        return dict(NFACT=int(rng.integers(0, f)), JHOUR=int(rng.integers(0, h)), HRLOAD=G.reals(rng, (n, h), 0, 3000),
                    FCTERR=G.reals(rng, (n, f), 0.5, 1.5, (1.0,)))


@contract
class dpeak(Contract):
    file = "data_processing/dpeak.py"
    func = "dpeak"
    props = ["C08"]

    @staticmethod
    def args(E):
        n, d = E.dim("NOAREA"), E.dim("NDAY", 1)
        return dict(HRLOAD=E.arr("HRLOAD", (n, 24 * d), "r"))

    @staticmethod
    def requires(E, o):
        return [("whole days", E.And(E.mod(o.HRLOAD.shape[1], 24) == 0, o.HRLOAD.shape[1] >= 24))]

    @staticmethod
    def spec(E, o):
        n = o.HRLOAD.shape[0]
        d = E.idiv(o.HRLOAD.shape[1], 24)
        hr = lambda a, t: t * 24 + E.argmax(0, 24, lambda h: o.HRLOAD[a, t * 24 + h])
        pk = lambda a, t: o.HRLOAD[a, hr(a, t)]
        return (E.fn((n, d), hr, "i"), E.fn((n, d), pk),
                E.fn((n,), lambda a: E.argmax(0, d, lambda t: pk(a, t)), "i")), {}

    @staticmethod
    def gen(rng, k):
        n, d = G.size(rng, 1, 3), int(rng.choice([1, 2, 4]))
        L = G.reals(rng, (n, 24 * d), 0, 10 if k % 2 else 3000)
        if k % 3 == 0:
            L = np.round(L / 3)          # many ties
        return dict(HRLOAD=L)


@contract
class wpeakf(Contract):
    file = "data_processing/wpeakf.py"
    func = "wpeakf"
    props = ["C08"]

    @staticmethod
    def args(E):
        return dict(DYLOAD=E.arr("DYLOAD", (E.dim("NOAREA"), 365), "r"))

    @staticmethod
    def requires(E, o):
        return [("365 days", o.DYLOAD.shape[1] == 365)]

    @staticmethod
    def spec(E, o):
        n = o.DYLOAD.shape[0]

        def pk(a, w):
            m = E.max(0, 7, lambda d: o.DYLOAD[a, 7 * w + d])
            return E.ite(w == 51, lambda: E.max2(m, o.DYLOAD[a, 364]), lambda: m)
        return E.fn((n, 52), pk), {}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 3)
        L = G.reals(rng, (n, 365), -50 if k % 4 == 0 else 0, 3000)
        if k % 2:
            L[:, 364] = 4000.0
        return dict(DYLOAD=L)


@contract
class plhr(Contract):
    file = "data_processing/plhr.py"
    func = "plhr"
    props = ["C08"]

    @staticmethod
    def args(E):
        n, d = E.dim("NOAREA"), E.dim("NDAY")
        return dict(HRLOAD=E.arr("HRLOAD", (n, 24 * d), "r"))

    @staticmethod
    def requires(E, o):
        return [("whole days", E.mod(o.HRLOAD.shape[1], 24) == 0)]

    @staticmethod
    def spec(E, o):
        n = o.HRLOAD.shape[0]
        tot = lambda h: E.sum(0, n, lambda a: o.HRLOAD[a, h])
        return E.fn((E.idiv(o.HRLOAD.shape[1], 24),), lambda t: t * 24 + E.argmax(
            0, 24, lambda h: tot(t * 24 + h)), "i"), {}

    @staticmethod
    def gen(rng, k):
        n, d = G.size(rng, 1, 4), int(rng.choice([1, 2, 4]))
        L = np.round(G.reals(rng, (n, 24 * d), 0, 10 if k % 2 else 3000))
        return dict(HRLOAD=L)


# --------------------------------------------------------------- C09
def _is_lines(E, LP, n):
    nl = LP.shape[0]
    return [("line ends are two different areas",
             E.forall((0, nl), lambda l: E.And(0 <= LP[l, 1], LP[l, 1] < n, 0 <= LP[l, 2], LP[l, 2] < n,
                                               LP[l, 1] != LP[l, 2]))),
            ("lines have three fields", LP.shape[1] == 3)]


def admittance(E, LP, b, i, j):
    """entry (i, j) of the admittance matrix of the lines"""
    nl = LP.shape[0]
    return E.ite(i == j, lambda: E.sum(0, nl, lambda l: E.ite(
        E.Or(LP[l, 1] == i, LP[l, 2] == i), lambda: b(l), lambda: E.real(0))),
        lambda: -E.sum(0, nl, lambda l: E.ite(
            E.Or(E.And(LP[l, 1] == i, LP[l, 2] == j), E.And(LP[l, 1] == j, LP[l, 2] == i)),
            lambda: b(l), lambda: E.real(0))))


@contract
class admitb(Contract):
    file = "monte_carlo/admitb.py"
    func = "admitb"
    props = ["C09"]

    @staticmethod
    def args(E):
        nl = E.dim("NLINES", 1)
        return dict(LP=E.arr("LP", (nl, 3), "i"), BLP=E.arr("BLP", (nl, 3), "r"))

    @staticmethod
    def n(E, o):
        nl = o.LP.shape[0]
        return 1 + E.max2(E.max(0, nl, lambda l: o.LP[l, 1]), E.max(0, nl, lambda l: o.LP[l, 2]))

    @staticmethod
    def requires(E, o):
        nl = o.LP.shape[0]
        return [("line ends are two different areas",
                 E.forall((0, nl), lambda l: E.And(0 <= o.LP[l, 1], 0 <= o.LP[l, 2], o.LP[l, 1] != o.LP[l, 2]))),
                ("fields", E.And(o.LP.shape[1] == 3, o.BLP.shape[0] == nl, nl >= 1))]

    @staticmethod
    def spec(E, o):
        n = admitb.n(E, o)
        return E.fn((n, n), lambda i, j: admittance(E, o.LP, lambda l: o.BLP[l, 0], i, j)), {}

    @staticmethod
    def lemmas(E, o):
        n = admitb.n(E, o)
        B, _ = admitb.spec(E, o)
        return [("symmetric", E.forall((0, n), (0, n), lambda i, j: E.eq(B[i, j], B[j, i]))),
                ("rows sum to zero", E.forall((0, n), lambda i: E.eq(E.sum(0, n, lambda j: B[i, j]), 0)))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 2, 6)
        LP, b = G.network(rng, n)
        B = G.reals(rng, (len(b), 3), 0, 300)
        B[:, 0] = b
        return dict(LP=LP, BLP=B)


@contract
class admitr(Contract):
    file = "monte_carlo/admitr.py"
    func = "admitr"
    props = ["C09"]

    @staticmethod
    def args(E):
        n = E.dim("NOAREA", 1)
        return dict(BB=E.arr("BB", (n, n), "r"), BN=E.arr("BN", (n, 5), "r"), NR=E.int("NR"))

    @staticmethod
    def requires(E, o):
        n = o.BB.shape[0]
        return [("square", E.And(o.BB.shape[1] == n, o.BN.shape[0] == n)), ("reference", E.And(0 <= o.NR, o.NR < n)),
                ("area numbers", E.forall((0, n), lambda i: o.BN[i, 0] == E.real(i)))]

    @staticmethod
    def spec(E, o):
        n = o.BB.shape[0]
        area = lambda i: E.ite(i == n - 1, lambda: o.NR, lambda: E.ite(i < o.NR, lambda: i, lambda: i + 1))
        return (E.fn((n, n), lambda i, j: E.ite(E.And(i < n - 1, j < n - 1), lambda: o.BB[area(i), area(j)],
                                                lambda: E.real(0))),
                E.fn((n,), area, "i")), {}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 6)
        BN = G.reals(rng, (n, 5), 0, 1000)
        BN[:, 0] = np.arange(n)
        return dict(BB=G.reals(rng, (n, n)), BN=BN, NR=int(rng.integers(0, n)))


@contract
class tm1(Contract):
    file = "monte_carlo/tm1.py"
    func = "tm1"
    props = ["C09"]
    admittance_of = staticmethod(lambda E, o: (lambda i, j: admittance(E, o.LP, lambda l: o.BLP[l, 0], i, j)))

    @staticmethod
    def args(E):
        n, nl = E.dim("NOAREA", 2), E.dim("NLINES", 1)
        return dict(BN=E.arr("BN", (n, 5), "r"), LP=E.arr("LP", (nl, 3), "i"), BLP=E.arr("BLP", (nl, 3), "r"),
                    NR=E.int("NR"))

    @staticmethod
    def requires(E, o):
        n = o.BN.shape[0]
        nl = o.LP.shape[0]
        return _is_lines(E, o.LP, n) + [
            ("fields", E.And(o.BLP.shape[0] == nl, nl >= 1)), ("reference", E.And(0 <= o.NR, o.NR < n)),
            ("every area up to the last has a line", n == admitb.n(E, o)),
            ("area numbers", E.forall((0, n), lambda i: o.BN[i, 0] == E.real(i))),
            ("connected network", E.invertible(n - 1, lambda i, j: tm1.red(E, o, i, j)))]

    @staticmethod
    def area(E, o, i):
        n = o.BN.shape[0]
        return E.ite(i == n - 1, lambda: o.NR, lambda: E.ite(i < o.NR, lambda: i, lambda: i + 1))

    @staticmethod
    def red(E, o, i, j):
        return admittance(E, o.LP, lambda l: o.BLP[l, 0], tm1.area(E, o, i), tm1.area(E, o, j))

    @staticmethod
    def spec(E, o):
        n = o.BN.shape[0]
        nl = o.LP.shape[0]
        Z = E.inverse(n - 1, lambda i, j: tm1.red(E, o, i, j))
        inner = lambda f: (lambda i, j: E.ite(E.And(i < n - 1, j < n - 1), lambda: f(i, j), lambda: E.real(0)))
        return (E.fn((nl,), lambda l: o.BLP[l, 0]), E.fn((n, n), inner(lambda i, j: tm1.red(E, o, i, j))),
                E.fn((n,), lambda i: tm1.area(E, o, i), "i"), E.fn((n, n), inner(lambda i, j: Z[i, j]))), {}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 2, 6)
        LP, b = G.network(rng, n)
        B = G.reals(rng, (len(b), 3), 0, 300)
        B[:, 0] = b
        BN = G.reals(rng, (n, 5), 0, 1000)
        BN[:, 0] = np.arange(n)
        return dict(BN=BN, LP=LP, BLP=B, NR=int(rng.integers(0, n)))
