"""C08 C18 C19 C20 C21 C23: input translation, maintenance table, outage table, and the whole input chain."""
import os

import numpy as np

from contracts import gens as G
from contracts.calendar import _ghost_of, filem, lay_out, rand_times, wf
from contracts.leaf import _is_jent, _net_export
from pyvc.dsl import ANY, Contract, NS, contract


# --------------------------------------------------------------- C18 table
def _weeks(E, ID, u, w):
    """unit u is on planned outage in week w"""
    return E.Or(*[E.And(ID[u, c] != -1, ID[u, c] <= w, w < ID[u, c] + ID[u, c + 1]) for c in (3, 5)])


def no_placement(pmsc):
    """automatic placement of outages is not part of these contracts: nothing placed"""
    from conc.run import bound

    def stand_in(*a, **k):
        return bound(pmsc, a, k)["ITAB"]
    return pmsc, stand_in


@contract
class smaint(Contract):
    file = "data_processing/smaint.py"
    func = "smaint"
    props = ["C18"]
    modifies = ("ID",)
    spec = None
    order = ("NOAREA", "ID", "ITAB", "RATES", "PROBG", "DERATE", "PKLOAD", "WPEAK", "IREPM", "MINRAN", "MAXRAN",
             "INHBT1", "INHBT2", "NAMU", "NUMP")

    @staticmethod
    def args(E):
        n, u = E.dim("NOAREA"), E.dim("NUNITS")
        d = {x: E.opaque(x) for x in smaint.order}
        d.update(NOAREA=n, ID=E.arr("ID", (u, 8), "i"), ITAB=E.int("ITAB"))
        return d

    @staticmethod
    def requires(E, o):
        u = o.ID.shape[0]
        return [("eight fields", o.ID.shape[1] == 8),
                ("unit numbers are the rows", E.forall((0, u), lambda i: o.ID[i, 0] == i))] + \
            [(f"outage {c}", E.forall((0, u), lambda i: E.And(
                E.Or(o.ID[i, c] == -1, E.And(0 <= o.ID[i, c], o.ID[i, c] < 52)), 0 <= o.ID[i, c + 1],
                o.ID[i, c + 1] <= 52))) for c in (3, 5)] + \
            [("the two outages of a unit do not overlap", E.forall((0, u), lambda i: E.Or(
                o.ID[i, 3] == -1, o.ID[i, 5] == -1, o.ID[i, 3] + o.ID[i, 4] <= o.ID[i, 5],
                o.ID[i, 5] + o.ID[i, 6] <= o.ID[i, 3])))]

    @staticmethod
    def call(fns, a):
        from conc.run import Patched
        pmsc = fns("data_processing/pmsc.py", "pmsc")
        smaint = fns("data_processing/smaint.py", "smaint")
        with Patched(no_placement(pmsc)):
            return smaint(*a.values())

    @staticmethod
    def ensures(E, o, n, r):
        J, itab = r
        u = o.ID.shape[0]
        cnt = lambda w: E.sum(0, u, lambda i: E.toint(_weeks(E, n.ID, i, w)))
        return [("one row per week, room for every unit", E.And(J.shape[0] == 52, J.shape[1] >= u + 1)),
                ("number of units out", E.forall((0, 52), lambda w: J[w, 0] == cnt(w))),
                ("exactly the units on outage are listed", E.forall((0, 52), (0, u), lambda w, i: E.Iff(
                    _weeks(E, n.ID, i, w), E.exists((1, J[w, 0] + 1), lambda k: J[w, k] == i)))),
                ("nothing else is listed", E.forall((0, 52), lambda w: E.forall((1, J[w, 0] + 1), lambda k: E.And(
                    0 <= J[w, k], J[w, k] < u))))]

    @staticmethod
    def gen(rng, k):
        u = G.size(rng, 1, 7)
        ID = np.zeros((u, 8), dtype=int)
        ID[:, 0] = ID[:, 1] = np.arange(u)
        ID[:, 3] = ID[:, 5] = -1
        ID[:, 7] = 1
        for i in range(u):
            if rng.random() < .7:
                b = int(rng.choice([0, 51, 50, 49, int(rng.integers(0, 52))]))
                d = int(rng.choice([0, 1, 2, 3, 52 - b, 52 - b + 1, 5]))
                ID[i, 3:5] = b, d
                if rng.random() < .5 and b + d < 52:
                    ID[i, 5:7] = int(rng.integers(b + d, 52)), int(rng.integers(1, 6))
            elif rng.random() < .3:
                ID[i, 5:7] = int(rng.choice([51, 3])), int(rng.integers(1, 6))
        d = {x: 0 for x in smaint.order}
        n = int(rng.integers(1, 3))
        d.update(NOAREA=n, ID=ID, ITAB=6)
        return d


# --------------------------------------------------------------- C18 handlers
def _cal_args(E):
    return dict(CLOCK=E.real_var("CLOCK"), ATRIB=E.arr("ATRIB", (2,), "r"), MFA=E.int("MFA"), NUMINQ=E.int("NUMINQ"),
                IPOINT=E.int("IPOINT"), EVNTS=E.arr("EVNTS", (E.dim("NCELL", 4),), "r"))


def _sched(E, o, period):
    """filing of the next event of this kind: final ATRIB, and what filem specifies"""
    A = E.fn((2,), lambda i: E.ite(i == 0, lambda: E.real(o.CLOCK) + period, lambda: o.ATRIB[1]))
    o2 = NS(dict(MFA=o.MFA, ATRIB=A, NUMINQ=o.NUMINQ, IPOINT=o.IPOINT, EVNTS=o.EVNTS))
    (num, mfa, ip), mut = filem.spec(E, o2)
    return A, num, mfa, ip, mut["EVNTS"]


def _sched_gen(rng, clock=None, kind=None):
    a, seq = lay_out(rng, rand_times(rng, int(rng.choice([0, 1, 3, 6]))))
    t = float(rng.integers(0, 9)) if clock is None else clock
    return dict(CLOCK=t, ATRIB=np.array([t, float(kind or rng.integers(1, 5))]), **a), _ghost_of(a)


@contract
class week(Contract):
    file = "monte_carlo/week.py"
    func = "week"
    parts = {"ret": ["C02"], "mut:ATRIB": ["C02"], "mut:EVNTS": ["C02"], "mut:PLNDST": ["C18"], "frame": ["C18", "C02"],
             "safety": ["C18", "C02"]}
    modifies = ("ATRIB", "EVNTS", "PLNDST")
    order = ("CLOCK", "ATRIB", "MFA", "NUMINQ", "IPOINT", "EVNTS", "PLNDST", "JHOUR", "JPLOUT")

    @staticmethod
    def args(E):
        u = E.dim("NUNITS")
        d = _cal_args(E)
        d.update(PLNDST=E.arr("PLNDST", (u,), "r"), JHOUR=E.int("JHOUR"), JPLOUT=E.arr("JPLOUT", (52, u + 1), "i"))
        return d

    ghost = filem.ghost

    @staticmethod
    def requires(E, o):
        u = o.PLNDST.shape[0]
        return filem.requires(E, o) + [
            ("hour of the year", E.And(-1 <= o.JHOUR, o.JHOUR < 8760)),
            ("table", E.And(o.JPLOUT.shape[0] == 52, o.JPLOUT.shape[1] == u + 1)),
            ("units out", E.forall((0, 52), lambda w: E.And(0 <= o.JPLOUT[w, 0], o.JPLOUT[w, 0] <= u))),
            ("unit numbers", E.forall((0, 52), (1, u + 1), lambda w, k: E.Implies(
                k <= o.JPLOUT[w, 0], lambda: E.And(0 <= o.JPLOUT[w, k], o.JPLOUT[w, k] < u))))]

    @staticmethod
    def spec(E, o):
        A, num, mfa, ip, EV = _sched(E, o, 168)
        w = E.idiv(o.JHOUR + 1, 168)      # the week that begins with the next hour
        out = lambda i: E.And(w <= 51, lambda: E.exists((1, o.JPLOUT[w, 0] + 1), lambda k: o.JPLOUT[w, k] == i))
        return (ip, mfa, num), {"ATRIB": A, "EVNTS": EV, "PLNDST": E.fn(
            o.PLNDST.shape, lambda i: E.ite(out(i), lambda: E.real(0), lambda: E.real(1)))}

    @staticmethod
    def gen(rng, k):
        d, g = _sched_gen(rng)
        u = G.size(rng, 1, 6)
        J = -np.ones((52, u + 1), dtype=int)
        J[:, 0] = 0
        for w in range(52):
            m = int(rng.integers(0, u + 1))
            J[w, 0] = m
            J[w, 1:m + 1] = rng.permutation(u)[:m]
        w = int(rng.choice([0, 1, 50, 51, 52, int(rng.integers(0, 52))]))
        jh = int(np.clip(168 * w - 1 + int(rng.choice([0, 0, -1, 1, 80])), -1, 8759))
        d.update(PLNDST=rng.choice([0.0, 1.0], size=u), JHOUR=jh, JPLOUT=J)
        d = {x: d[x] for x in week.order}
        d["_ghost"] = g
        return d


@contract
class quartr(Contract):
    file = "monte_carlo/quartr.py"
    func = "quartr"
    props = ["C18", "C02"]
    modifies = ("ATRIB", "EVNTS")
    order = ("IQ", "RATES", "CLOCK", "ATRIB", "NHRSYR", "MFA", "NUMINQ", "IPOINT", "EVNTS")

    @staticmethod
    def args(E):
        d = _cal_args(E)
        d.update(IQ=E.int("IQ"), RATES=E.arr("RATES", (E.dim("NUNITS"), 4), "r"), NHRSYR=E.int("NHRSYR"))
        return {x: d[x] for x in quartr.order}

    ghost = filem.ghost

    @staticmethod
    def requires(E, o):
        return filem.requires(E, o) + [("season", E.And(-1 <= o.IQ, o.IQ <= 3)), ("seasons", o.RATES.shape[1] == 4)]

    @staticmethod
    def spec(E, o):
        A, num, mfa, ip, EV = _sched(E, o, o.NHRSYR)
        q = E.ite(o.IQ == 3, lambda: 0, lambda: o.IQ + 1)
        return (q, ip, mfa, num, E.fn((o.RATES.shape[0],), lambda u: o.RATES[u, q])), {"ATRIB": A, "EVNTS": EV}

    @staticmethod
    def gen(rng, k):
        d, g = _sched_gen(rng)
        d.update(IQ=int(rng.integers(-1, 4)), RATES=G.reals(rng, (G.size(rng, 1, 6), 4), 0, 400),
                 NHRSYR=int(rng.choice([8760, 5])))
        d = {x: d[x] for x in quartr.order}
        d["_ghost"] = g
        return d


# --------------------------------------------------------------- C19
def small_system(rng, areas=None, overlap=False):
    """a random, valid input: the tables as readInputB gives them, names resolved (pind)"""
    n = areas or G.size(rng, 2, 4)
    u = int(rng.integers(1, 9))
    S = {}
    lfu = G.reals(rng, n, 0, 8) if rng.random() < .5 else np.zeros(n)
    S["ZZLD"] = dict(SNRI=np.arange(1, n + 1), NAR=np.arange(n), RATES=np.column_stack([
        np.round(rng.uniform(100, 3000, size=n)), np.round(lfu, 1), np.round(rng.uniform(500, 30000, size=n))]),
        ID=np.column_stack([rng.integers(1, 10, n), rng.integers(40, 53, n), rng.integers(20, 25, n), rng.integers(25, 33, n)]))
    H = np.zeros((7, u))
    H[0:4] = np.round(rng.uniform(10, 400, size=(4, u)))
    H[4] = np.round(rng.uniform(0, .2, size=u), 3)
    H[5] = np.round(rng.uniform(0, .2, size=u), 3)
    H[6] = np.round(rng.uniform(0, 100, size=u))
    ID = np.zeros((u, 5), dtype=int)
    ID[:, 0] = 1
    for i in range(u):
        r = rng.random()
        if r < .6:
            ID[i, 1:3] = int(rng.choice([1, 52, int(rng.integers(1, 53))])), int(rng.integers(1, 5))
        if r < .3 and ID[i, 1] + ID[i, 2] < 48:
            ID[i, 3:5] = int(rng.integers(ID[i, 1] + ID[i, 2], 53)), int(rng.integers(1, 5))
    S["ZZUD"] = dict(SNRI=np.arange(1, u + 1), NAT=np.arange(u), NAR=np.concatenate([
        rng.integers(0, n, size=u)]), HRLOAD=H, ID=ID)
    if u >= n:
        S["ZZUD"]["NAR"][rng.permutation(u)[:n]] = np.arange(n)
    LP, b = G.network(rng, n)
    nl = len(b)
    z = lambda a: np.where(rng.random((nl, 6)) < .15, 0.0, a)
    p = rng.dirichlet(np.ones(6), size=nl)
    S["ZZTD"] = dict(SNRI=np.arange(1, nl + 1), LineID=np.arange(nl), NAR=LP[:, 1].copy(), NAE=LP[:, 2].copy(),
                     ADM=z(np.round(-rng.uniform(10, 150, size=(nl, 6)))), CAP=z(np.round(rng.uniform(1, 400, size=(nl, 6)))),
                     CAPR=z(np.round(rng.uniform(1, 400, size=(nl, 6)))), PROBT=np.round(p, 4))
    fc = []
    used = {}
    for _ in range(int(rng.choice([0, 0, 1, 3, 6]))):
        s, d = (int(x) for x in rng.choice(n, size=2, replace=False))
        b_, e_ = sorted(int(x) for x in rng.integers(1, 366, size=2))
        if rng.random() < .3:
            b_ = 1
        if rng.random() < .3:
            e_ = 365
        if any(not (e_ < x or y < b_) for x, y in used.get((s, d), [])):
            continue
        used.setdefault((s, d), []).append((b_, e_))
        fc.append((s, d, b_, e_, float(np.round(rng.uniform(1, 200)))))
    c = list(zip(*fc)) if fc else [[], [], [], [], []]
    S["ZZFC"] = {"SNRI": np.arange(1, len(fc) + 1), "NAR": np.array(c[0], dtype=int), "NAE": np.array(c[1], dtype=int),
                 "BEG DAY": np.array(c[2], dtype=int), "END DAY": np.array(c[3], dtype=int), "MW": np.array(c[4], dtype=float)}
    m = int(rng.choice([0, 0, 1, 2])) if u > 2 else 0
    joint = rng.permutation(u)[:m]
    sh = np.round(rng.dirichlet(np.ones(n), size=m) * 100) if m else np.zeros((0, n))
    for i in range(m):
        sh[i, 0] += 100 - sh[i].sum()
    S["ZZOD"] = dict(SNRI=np.arange(1, m + 1), NAT=joint.astype(int), PERCENT=sh if m else np.array([]))
    w = sorted(int(x) for x in rng.choice(np.arange(1, 52), size=3, replace=False))
    S["ZZMC"] = dict(JSEED=345237, NLS=int(rng.integers(0, 2)), IW1=w[0], IW2=w[1], IW3=w[2], KWHERE=int(rng.integers(1, 3)),
                     KVWHEN=int(rng.integers(1, 3)), KVSTAT=int(rng.integers(1, 3)), KVTYPE=int(rng.integers(1, 3)),
                     KVLOC=int(rng.integers(1, n + 1)), CVTEST=float(rng.choice([0, .025, .1])), FINISH=int(rng.integers(1, 99)),
                     JSTEP=int(rng.choice([1, 24])), JFREQ=int(rng.choice([1, 24])), MAXEUE=int(rng.integers(20, 2000)),
                     IOI=int(rng.integers(0, 2)), IOJ=int(rng.integers(0, 2)), IREM=1, INTV=int(rng.integers(1, 9)), IREPD=0, IREPM=0)
    return S


class _Dims:
    pass


@contract
class datax(Contract):
    file = "data_processing/datax.py"
    func = "datax"
    props = ["C19"]
    spec = None
    names = ("QTR", "NORR", "NFCST", "NOAREA", "PKLOAD", "FU", "MINRAN", "MAXRAN", "INHBT1", "INHBT2", "BN", "SUSTAT",
             "FCTERR", "CAPCON", "CAPOWN", "NOGEN", "PROBG", "DERATE", "JENT", "INTCH", "INTCHR", "LP", "LINENO", "PROBL",
             "BLPA", "MXCRIT", "JCRIT", "ID", "NLS", "IOI", "IOJ", "KVLOC", "KVSTAT", "KVTYPE", "KVWHEN", "KWHERE",
             "CVTEST", "MAXEUE", "JSTEP", "JFREQ", "FINISH", "INTV", "INTVT")

    @staticmethod
    def args(E):
        n, u, nl, nc, no = (E.dim(x, 1) for x in ("NAREAS", "NUNITS", "NLINES", "NCONTRACTS", "NOWNED"))
        mc = {k: E.int("MC_" + k) for k in ("NLS", "IW1", "IW2", "IW3", "KWHERE", "KVWHEN", "KVSTAT", "KVTYPE", "KVLOC",
                                            "FINISH", "JSTEP", "JFREQ", "MAXEUE", "IOI", "IOJ", "INTV")}
        mc["CVTEST"] = E.real_var("MC_CVTEST")
        a, i = (lambda x, s: E.arr(x, s, "r")), (lambda x, s: E.arr(x, s, "i"))
        return dict(inputB_dict=dict(
            ZZMC=mc, ZZLD=dict(SNRI=i("LD_SNRI", (n,)), NAR=i("LD_NAR", (n,)), RATES=a("LD_RATES", (n, 3)), ID=i("LD_ID", (n, 4))),
            ZZUD=dict(SNRI=i("UD_SNRI", (u,)), NAT=i("UD_NAT", (u,)), NAR=i("UD_NAR", (u,)), HRLOAD=a("UD_HRLOAD", (7, u)),
                      ID=i("UD_ID", (u, 5))),
            ZZTD=dict(SNRI=i("TD_SNRI", (nl,)), LineID=i("TD_LineID", (nl,)), NAR=i("TD_NAR", (nl,)), NAE=i("TD_NAE", (nl,)),
                      ADM=a("TD_ADM", (nl, 6)), CAP=a("TD_CAP", (nl, 6)), CAPR=a("TD_CAPR", (nl, 6)), PROBT=a("TD_PROBT", (nl, 6))),
            ZZFC={"SNRI": i("FC_SNRI", (nc,)), "NAR": i("FC_NAR", (nc,)), "NAE": i("FC_NAE", (nc,)), "MW": a("FC_MW", (nc,)),
                  "BEG DAY": i("FC_BEG", (nc,)), "END DAY": i("FC_END", (nc,))},
            ZZOD=dict(SNRI=i("OD_SNRI", (no,)), NAT=i("OD_NAT", (no,)), PERCENT=a("OD_PERCENT", (no, n)))))

    @staticmethod
    def requires(E, o):
        D = o.inputB_dict
        n, u, nl = D["ZZLD"]["RATES"].shape[0], D["ZZUD"]["NAT"].shape[0], D["ZZTD"]["NAR"].shape[0]
        T, U, F, W = D["ZZTD"], D["ZZUD"], D["ZZFC"], D["ZZOD"]
        nc, no = F["SNRI"].shape[0], W["SNRI"].shape[0]
        area = lambda x: E.And(0 <= x, x < n)
        return [("unit names are the rows", E.forall((0, u), lambda i: U["NAT"][i] == i)),
                ("unit areas", E.forall((0, u), lambda i: area(U["NAR"][i]))),
                ("line ends", E.forall((0, nl), lambda l: E.And(area(T["NAR"][l]), area(T["NAE"][l]), T["NAR"][l] != T["NAE"][l]))),
                ("line numbers are the rows", E.forall((0, nl), lambda l: T["LineID"][l] == l)),
                ("contracts", E.And(nc <= 60, E.forall((0, nc), lambda c: E.And(
                    area(F["NAR"][c]), area(F["NAE"][c]), F["NAR"][c] != F["NAE"][c], 1 <= F["BEG DAY"][c],
                    F["BEG DAY"][c] <= F["END DAY"][c], F["END DAY"][c] <= 365)))),
                ("contracts of a pair do not overlap", E.forall((0, nc), (0, nc), lambda c, d: E.Implies(
                    E.And(c != d, F["NAR"][c] == F["NAR"][d], F["NAE"][c] == F["NAE"][d]),
                    lambda: E.Or(F["END DAY"][c] < F["BEG DAY"][d], F["END DAY"][d] < F["BEG DAY"][c])))),
                ("owned units", E.forall((0, no), lambda c: E.And(0 <= W["NAT"][c], W["NAT"][c] < u))),
                ("each owned unit once", E.forall((0, no), (0, no), lambda c, d: E.Implies(c != d, lambda: W["NAT"][c] != W["NAT"][d])))]

    @staticmethod
    def ensures(E, o, n_, r):
        D = o.inputB_dict
        if len(r) != len(datax.names):
            return [("43 results", len(r) == 43)]
        R = NS(dict(zip(datax.names, r)))
        L, U, T, F, W, M = (D[x] for x in ("ZZLD", "ZZUD", "ZZTD", "ZZFC", "ZZOD", "ZZMC"))
        n, u, nl = L["RATES"].shape[0], U["NAT"].shape[0], T["NAR"].shape[0]
        nc, no = F["SNRI"].shape[0], W["SNRI"].shape[0]
        fu = lambda a: L["RATES"][a, 1]
        unc = E.exists((0, n), lambda a: fu(a) != 0)
        allA = lambda f: E.forall((0, n), f)
        allU = lambda f: E.forall((0, u), f)
        repl = lambda x, v: E.ite(x == 0, lambda: E.lit(v), lambda: x)
        owned = lambda i: E.exists((0, no), lambda c: W["NAT"][c] == i)
        shapes = [(R.QTR, 3), (R.PKLOAD, n), (R.FU, n), (R.MINRAN, n), (R.MAXRAN, n), (R.INHBT1, n), (R.INHBT2, n), (R.DERATE, u), (R.CAPCON, u)]
        shapes2 = [(R.BN, n, 5), (R.SUSTAT, n + 1, 6), (R.FCTERR, n, 5), (R.CAPOWN, n, u), (R.PROBG, u, 2), (R.JENT, n, n),
                   (R.INTCH, 60, 365), (R.LP, nl, 3), (R.LINENO, n, n), (R.PROBL, 6, nl), (R.BLPA, nl, 18), (R.ID, u, 8)]
        out = [("sizes", E.And(*[x.shape[0] == s for x, s in shapes], *[E.And(x.shape[0] == s, x.shape[1] == t) for x, s, t in shapes2]))]
        out += [("season ends", E.And(*[E.eq(R.QTR[k], M["IW" + str(k + 1)] * 168 + E.lit("0.5")) for k in range(3)])),
                ("number of areas", R.NOAREA == n),
                ("load levels", E.And(R.NFCST == E.ite(unc, lambda: 5, lambda: 1), R.NORR == E.ite(unc, lambda: 2, lambda: 0))),
                ("peak loads", allA(lambda a: E.And(R.PKLOAD[a] == L["RATES"][a, 0], R.FU[a] == fu(a)))),
                ("windows from zero", allA(lambda a: E.And(R.MINRAN[a] == L["ID"][a, 0] - 1, R.MAXRAN[a] == L["ID"][a, 1] - 1,
                                                           R.INHBT1[a] == L["ID"][a, 2] - 1, R.INHBT2[a] == L["ID"][a, 3] - 1))),
                ("area table", allA(lambda a: E.And(R.BN[a, 0] == E.real(a), R.BN[a, 1] == 0, R.BN[a, 2] == 0,
                                                    R.BN[a, 3] == L["RATES"][a, 2], R.BN[a, 4] == L["RATES"][a, 2]))),
                ("summary starts with the peaks", E.And(
                    allA(lambda a: R.SUSTAT[a, 0] == L["RATES"][a, 0]),
                    E.forall((0, n + 1), (1, 6), lambda a, c: R.SUSTAT[a, c] == 0), R.SUSTAT[n, 0] == 0)),
                ("forecast multipliers", allA(lambda a: E.And(
                    E.eq(R.FCTERR[a, 0], 1 + fu(a) * E.lit("2.5") / 100), E.eq(R.FCTERR[a, 1], 1 + fu(a) / 100),
                    E.eq(R.FCTERR[a, 2], 1), E.eq(R.FCTERR[a, 3], 1 - fu(a) / 100),
                    E.eq(R.FCTERR[a, 4], 1 - fu(a) * E.lit("2.5") / 100)))),
                ("location of each unit", allU(lambda i: R.CAPCON[i] == U["NAR"][i])),
                ("a unit without shares is owned where it is", E.forall((0, n), (0, u), lambda a, i: E.Implies(
                    E.Not(owned(i)), lambda: R.CAPOWN[a, i] == E.ite(U["NAR"][i] == a, lambda: E.real(1), lambda: E.real(0))))),
                ("shares", E.forall((0, no), (0, n), lambda c, a: E.eq(R.CAPOWN[a, W["NAT"][c]], W["PERCENT"][c, a] / 100))),
                ("unit thresholds", allU(lambda i: E.And(
                    E.eq(R.PROBG[i, 0], 1 - U["HRLOAD"][4, i] - U["HRLOAD"][5, i]), E.eq(R.PROBG[i, 1], 1 - U["HRLOAD"][5, i])))),
                ("derated fraction", allU(lambda i: E.eq(R.DERATE[i], 1 - U["HRLOAD"][6, i] / 100))),
                ("contract rows of pairs with a contract", E.forall((0, nc), lambda c: E.And(
                    0 <= R.JENT[F["NAR"][c], F["NAE"][c]], R.JENT[F["NAR"][c], F["NAE"][c]] < 60))),
                ("no contract row without a contract", E.forall((0, n), (0, n), lambda a, b: E.Implies(
                    E.Not(E.exists((0, nc), lambda c: E.And(F["NAR"][c] == a, F["NAE"][c] == b))), lambda: R.JENT[a, b] == -1))),
                ("different pairs have different rows", E.forall((0, nc), (0, nc), lambda c, d: E.Implies(
                    E.Or(F["NAR"][c] != F["NAR"][d], F["NAE"][c] != F["NAE"][d]),
                    lambda: R.JENT[F["NAR"][c], F["NAE"][c]] != R.JENT[F["NAR"][d], F["NAE"][d]]))),
                ("power of a contract on its days", E.forall((0, nc), (0, 365), lambda c, t: E.Implies(
                    E.And(F["BEG DAY"][c] - 1 <= t, t < F["END DAY"][c]),
                    lambda: R.INTCH[R.JENT[F["NAR"][c], F["NAE"][c]], t] == F["MW"][c]))),
                ("no power on other days", E.forall((0, nc), (0, 365), lambda c, t: E.Implies(
                    E.Not(E.exists((0, nc), lambda d: E.And(F["NAR"][d] == F["NAR"][c], F["NAE"][d] == F["NAE"][c],
                                                            F["BEG DAY"][d] - 1 <= t, t < F["END DAY"][d]))),
                    lambda: R.INTCH[R.JENT[F["NAR"][c], F["NAE"][c]], t] == 0))),
                ("line ends", E.forall((0, nl), lambda l: E.And(R.LP[l, 0] == l, R.LP[l, 1] == T["NAR"][l], R.LP[l, 2] == T["NAE"][l]))),
                ("line state probabilities", E.forall((0, 6), (0, nl), lambda s, l: E.eq(
                    R.PROBL[s, l], E.sum(0, s + 1, lambda t: T["PROBT"][l, t])))),
                ("line admittances", E.forall((0, nl), (0, 6), lambda l, s: R.BLPA[l, 3 * s] == repl(T["ADM"][l, s], "-0.5"))),
                ("line capacities", E.forall((0, nl), (0, 6), lambda l, s: R.BLPA[l, 3 * s + 1] == repl(T["CAP"][l, s], "1"))),
                ("reverse capacities", E.forall((0, nl), (0, 6), lambda l, s: R.BLPA[l, 3 * s + 2] == repl(T["CAPR"][l, s], "1"))),
                ("a line number only between its ends", E.forall((0, n), (0, n), lambda a, b: E.Implies(
                    E.Not(E.exists((0, nl), lambda l: E.And(T["NAR"][l] == a, T["NAE"][l] == b))), lambda: R.LINENO[a, b] == -1))),
                ("line number of a pair", E.forall((0, nl), lambda l: E.And(
                    0 <= R.LINENO[T["NAR"][l], T["NAE"][l]], R.LINENO[T["NAR"][l], T["NAE"][l]] < nl))),
                ("maintenance data", allU(lambda i: E.And(
                    R.ID[i, 0] == i, R.ID[i, 1] == i, R.ID[i, 2] == U["NAR"][i], R.ID[i, 3] == U["ID"][i, 1] - 1,
                    R.ID[i, 4] == U["ID"][i, 2], R.ID[i, 5] == U["ID"][i, 3] - 1, R.ID[i, 6] == U["ID"][i, 4], R.ID[i, 7] == U["ID"][i, 0]))),
                ("options", E.And(*[R[k] == M[k] for k in ("NLS", "IOI", "IOJ", "KVSTAT", "KVTYPE", "KVWHEN", "KWHERE", "CVTEST",
                                                           "MAXEUE", "JSTEP", "JFREQ", "INTV")])),
                ("monitored area from zero", R.KVLOC == M["KVLOC"] - 1),
                ("horizon in hours", E.eq(R.FINISH, M["FINISH"] * 8760)),
                ("first snapshot", R.INTVT == M["INTV"]), ("no critical units", R.MXCRIT == 0)]
        return out

    @staticmethod
    def gen(rng, k):
        return dict(inputB_dict=small_system(rng))


@contract
class datax_plain(datax):
    """systems without firm contracts (those are read into a table with a dictionary of pairs: bounded, contract datax)"""
    symbolic = True
    concrete = False
    replay = True
    modular = False

    @staticmethod
    def args(E):
        d = datax.args(E)
        none = lambda x, k: E.arr(x, (0,), k)
        d["inputB_dict"]["ZZFC"] = {"SNRI": none("FC_SNRI", "i"), "NAR": none("FC_NAR", "i"), "NAE": none("FC_NAE", "i"), "MW": none("FC_MW", "r"),
                                    "BEG DAY": none("FC_BEG", "i"), "END DAY": none("FC_END", "i")}
        return d


# --------------------------------------------------------------- C20
def named(rng, S):
    """the same system with names instead of numbers, rows in any order"""
    n, u = len(S["ZZLD"]["NAR"]), len(S["ZZUD"]["NAT"])
    an = [f"'A{i + 1}'" for i in range(n)] if rng.random() < .3 else ["'" + "".join(rng.choice(list("ABCDEF"), size=3)) + str(i) + "'" for i in range(n)]
    un = [f"'{'ABCD'[i % 4]}{i:03d}{rng.integers(10, 99)}'" for i in range(u)]
    if rng.random() < .3 and u:
        un = [an[0][:-1] + f"{i:02d}'" for i in range(u)]
    import copy
    D = copy.deepcopy(S)
    ar = lambda x: np.array([an[int(i)] for i in x], dtype=object)
    D["ZZLD"]["NAR"] = ar(S["ZZLD"]["NAR"])
    D["ZZUD"]["NAR"] = ar(S["ZZUD"]["NAR"])
    D["ZZUD"]["NAT"] = np.array([un[int(i)] for i in S["ZZUD"]["NAT"]], dtype=object)
    for t in ("ZZTD", "ZZFC"):
        D[t]["NAR"], D[t]["NAE"] = ar(S[t]["NAR"]), ar(S[t]["NAE"])
    D["ZZTD"]["LineID"] = S["ZZTD"]["LineID"] + 1
    D["ZZOD"]["NAT"] = np.array([un[int(i)] for i in S["ZZOD"]["NAT"]], dtype=object)
    return D


@contract
class pind(Contract):
    file = "data_processing/pind.py"
    func = "pind"
    props = ["C20"]
    spec = None

    @staticmethod
    def args(E):
        n, u, nl, nc, no = (E.dim(x, 0) for x in ("NAREAS", "NUNITS", "NLINES", "NCONTRACTS", "NOWNED"))
        nm = lambda x, s: E.arr(x, (s,), "i")     # names: an unordered sort with equality only
        D = dict(
            ZZLD=dict(NAR=nm("LD_NAR", n)), ZZUD=dict(NAT=nm("UD_NAT", u), NAR=nm("UD_NAR", u)),
            ZZTD=dict(LineID=nm("TD_LineID", nl), NAR=nm("TD_NAR", nl), NAE=nm("TD_NAE", nl)),
            ZZFC=dict(NAR=nm("FC_NAR", nc), NAE=nm("FC_NAE", nc)), ZZOD=dict(NAT=nm("OD_NAT", no)), ZZMC={})
        for t in D:
            D[t]["REST"] = E.arr(t + "_REST", (E.dim("N" + t),), "r")     # any other column
        return dict(inputB_dict=D)

    @staticmethod
    def requires(E, o):
        D = o.inputB_dict
        LA, UN = D["ZZLD"]["NAR"], D["ZZUD"]["NAT"]
        known = lambda X, tab: E.forall((0, X.shape[0]), lambda i: E.exists((0, tab.shape[0]), lambda j: tab[j] == X[i]))
        return [(f"names of {t} {c}", known(D[t][c], LA)) for t, c in (("ZZUD", "NAR"), ("ZZTD", "NAR"), ("ZZTD", "NAE"), ("ZZFC", "NAR"), ("ZZFC", "NAE"))] \
            + [("names of owned units", known(D["ZZOD"]["NAT"], UN))]

    @staticmethod
    def rank(E, tab, name):
        """number of different names before the first appearance of this one"""
        n = tab.shape[0]
        f = E.first(0, n, lambda j: tab[j] == name)
        return E.sum(0, f, lambda j: E.toint(E.Not(E.exists((0, j), lambda i: tab[i] == tab[j]))))

    @staticmethod
    def ensures(E, o, n_, r):
        D = o.inputB_dict
        LA, UN = D["ZZLD"]["NAR"], D["ZZUD"]["NAT"]
        out = []
        for t, c, tab in (("ZZLD", "NAR", LA), ("ZZUD", "NAR", LA), ("ZZUD", "NAT", UN), ("ZZTD", "NAR", LA), ("ZZTD", "NAE", LA),
                          ("ZZFC", "NAR", LA), ("ZZFC", "NAE", LA), ("ZZOD", "NAT", UN)):
            X, Y = D[t][c], r[t][c]
            out.append((f"{t} {c}: rows", Y.shape[0] == X.shape[0]))
            out.append((f"{t} {c}: number of the name", lambda X=X, Y=Y, tab=tab: E.forall(
                (0, X.shape[0]), lambda i: Y[i] == pind.rank(E, tab, X[i]))))
        L, L2 = D["ZZTD"]["LineID"], r["ZZTD"]["LineID"]
        out.append(("line numbers from zero", lambda: E.And(L.shape[0] == L2.shape[0], E.forall((0, L.shape[0]), lambda i: L2[i] == L[i] - 1))))
        if E.sym:
            out.append(("the same tables and columns", all(set(r[t]) == set(D[t]) for t in D) and set(r) == set(D)))
            out += [(f"{t}: the other columns", lambda X=D[t]["REST"], Y=r[t]["REST"]: E.equal(Y, X)) for t in D]
        else:
            from conc.run import same
            done = {("ZZLD", "NAR"), ("ZZUD", "NAR"), ("ZZUD", "NAT"), ("ZZTD", "NAR"), ("ZZTD", "NAE"), ("ZZTD", "LineID"),
                    ("ZZFC", "NAR"), ("ZZFC", "NAE"), ("ZZOD", "NAT")}
            out.append(("the same tables and columns", all(set(r[t]) == set(D[t]) for t in D) and set(r) == set(D)))
            for t in D:
                for c in D[t]:
                    if (t, c) not in done:
                        out.append((f"{t} {c} unchanged", same(D[t][c], r[t][c])))
        return out

    @staticmethod
    def gen(rng, k):
        D = named(rng, small_system(rng))
        if k % 4 == 0:     # a repeated name
            D["ZZLD"]["NAR"] = np.append(D["ZZLD"]["NAR"], D["ZZLD"]["NAR"][0])
        return dict(inputB_dict=D)


# --------------------------------------------------------------- C21
def write_tables(rng, D, path, shuffle=True):
    """write the tables as the csv files of the input directory"""
    def fmt(x):
        if isinstance(x, str):
            return '"' + x + '"' if "," in x else x
        if isinstance(x, (int, np.integer)):
            return str(int(x))          # whole-number columns hold whole numbers
        x = float(x)
        return str(int(x)) if x == int(x) and rng.random() < .8 else repr(x)

    def table(name, cols):
        heads = list(cols)
        if shuffle:
            heads = [heads[i] for i in rng.permutation(len(heads))]
        rows = [",".join(heads)] + [",".join(fmt(cols[h][i]) for h in heads) for i in range(len(next(iter(cols.values()))))]
        open(os.path.join(path, name + ".csv"), "w").write("\n".join(rows) + ("\n" if rng.random() < .7 else ""))
    M, L, U, T, F, W = (D[x] for x in ("ZZMC", "ZZLD", "ZZUD", "ZZTD", "ZZFC", "ZZOD"))
    mc = dict(zip(("SEED", "LS", "END WK1", "END WK2", "END WK3", "WHERE", "WHEN", "KVS", "KVT", "KVL", "CVT", "FIN", "STEP", "FREQ",
                   "MAXE", "II", "IJ", "IR", "IN", "D", "M"),
                  ([M[k]] for k in ("JSEED", "NLS", "IW1", "IW2", "IW3", "KWHERE", "KVWHEN", "KVSTAT", "KVTYPE", "KVLOC", "CVTEST",
                                    "FINISH", "JSTEP", "JFREQ", "MAXEUE", "IOI", "IOJ", "IREM", "INTV", "IREPD", "IREPM"))))
    table("ZZMC", mc)
    table("ZZLD", {"SN": L["SNRI"], "AREA NAME": L["NAR"], "PEAK (MW)": L["RATES"][:, 0], "LFU": L["RATES"][:, 1],
                   "OUTAGE BEG WK": L["ID"][:, 0], "OUTAGE END WK": L["ID"][:, 1], "FORBIDDEN BEG WK": L["ID"][:, 2],
                   "FORBIDDEN END WK": L["ID"][:, 3], "SUM OF FLOWS CONSTRAINT": L["RATES"][:, 2]})
    table("ZZUD", {"SN": U["SNRI"], "NAME": U["NAT"], "LOC": U["NAR"], **{f"CAP{i + 1}": U["HRLOAD"][i] for i in range(4)},
                   "DFOR": U["HRLOAD"][4], "FOR": U["HRLOAD"][5], "DER": U["HRLOAD"][6], "P/A": U["ID"][:, 0], "B1": U["ID"][:, 1],
                   "D1": U["ID"][:, 2], "B2": U["ID"][:, 3], "D2": U["ID"][:, 4]})
    meta = [",".join(("%r ,%r ,%r , %r" if rng.random() < .5 else "%r,%r,%r,%r") % tuple(
        float(T[q][i, s]) for q in ("ADM", "CAP", "CAPR", "PROBT")) for s in range(6)) for i in range(len(T["SNRI"]))]
    table("ZZTD", {"SN": T["SNRI"], "LINE NUMBER": T["LineID"], "FROM AREA": T["NAR"], "TO AREA": T["NAE"], "META DATA": meta})
    table("ZZFC", {"SN": F["SNRI"], "FROM AREA": F["NAR"], "TO AREA": F["NAE"], "BEG DAY": F["BEG DAY"], "END DAY": F["END DAY"], "MW": F["MW"]})
    table("ZZOD", {"SN": W["SNRI"], "UNIT NAME": W["NAT"], "PERCENT OWNED BY AREA": [",".join(repr(float(x)) for x in r) for r in W["PERCENT"]] if len(W["SNRI"]) else []})
    nd = int(rng.choice([0, 2]))
    D["ZZDD"] = {"SNRI": np.arange(1, nd + 1), "LineID": np.arange(nd) + 1, "unit1_name": np.array(["'U1'", "'U5'"][:nd], dtype=object),
                 "unit2_name": np.array(["'U2'", "'U6'"][:nd], dtype=object), "unit3_name": np.array(["'U3'", "'U7'"][:nd], dtype=object),
                 "unit4_name": np.array(["'U4'", "'U8'"][:nd], dtype=object), "forward_derate": np.array([.25, .5][:nd]), "backward_derate": np.array([.75, .125][:nd])}
    d = D["ZZDD"]
    table("ZZDD", dict(zip(("SN", "LINE NUMBER", "UNIT1", "UNIT2", "UNIT3", "UNIT4", "FORWARD", "BACKWARD"),
                           (d[k] for k in ("SNRI", "LineID", "unit1_name", "unit2_name", "unit3_name", "unit4_name", "forward_derate", "backward_derate")))))
    open(os.path.join(path, "ZZTC.csv"), "w").write("A SYSTEM\nFOR CHECKING\n")


def _close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.size == 0 and b.size == 0:
        return True
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return [str(x) for x in a.ravel()] == [str(x) for x in b.ravel()]
    return bool(np.all(np.abs(a.astype(float) - b.astype(float)) <= 1e-9 * (1 + np.abs(b.astype(float)))))


@contract
class read_tables(Contract):
    """random tables, columns in any order, written to a scratch directory and read back"""
    scenario = True
    file = "data_processing/readInputB.py"
    func = "readInputB"
    props = ["C21"]
    n_quick = 40

    @staticmethod
    def run(T, rng, k):
        D = named(rng, small_system(rng))
        # rows in any order, serial numbers kept with their rows
        u = len(D["ZZUD"]["NAT"])
        p = rng.permutation(u)
        for c in ("SNRI", "NAT", "NAR"):
            D["ZZUD"][c] = D["ZZUD"][c][p]
        D["ZZUD"]["HRLOAD"], D["ZZUD"]["ID"] = D["ZZUD"]["HRLOAD"][:, p], D["ZZUD"]["ID"][p]
        d = os.path.join(T.tmp, f"in{k}")
        os.mkdir(d)
        write_tables(rng, D, d)
        R = T.fn("data_processing/readInputB.py", "readInputB")(d)
        out = []
        for t in ("ZZMC", "ZZLD", "ZZUD", "ZZTD", "ZZFC", "ZZOD", "ZZDD"):
            for c in D[t]:
                if c not in R[t]:
                    out.append((f"{t} {c} is read", "missing", None))
                elif not _close(R[t][c], D[t][c]):
                    out.append((f"{t} {c} arrives unchanged", f"{T.describe(R[t][c])}, written {T.describe(D[t][c])}", None))
        return out


# --------------------------------------------------------------- C08 profile
def write_leei(rng, prof, path):
    order = rng.permutation(len(prof))
    with open(path, "w") as f:
        for a in order:
            f.write(f"AREA:A{a + 1}\n")
            for h in range(0, 8760, 12):
                f.write(("0101                 " if h % 24 == 0 else "                     ") + " ".join("%4d" % x for x in prof[a][h:h + 12]) + "\n")


@contract
class xldnew(Contract):
    scenario = True
    file = "data_processing/xldnew.py"
    func = "xldnew"
    props = ["C08"]
    n_quick = 6
    n_thorough = 30

    @staticmethod
    def run(T, rng, k):
        n = int(rng.choice([1, 2, 3, 11])) if k != 1 else 11
        prof = rng.integers(1, 9999, size=(n, 8760))
        for a in range(n):
            if rng.random() < .5:
                prof[a] //= int(rng.integers(2, 50))
                prof[a] += 1
        pk = np.round(rng.uniform(10, 4000, size=n))
        f = os.path.join(T.tmp, f"LEEI{k}")
        write_leei(rng, prof, f)
        pk0 = pk.copy()
        H = T.fn("data_processing/xldnew.py", "xldnew")(f, pk)
        os.remove(f)
        want = prof / prof.max(axis=1)[:, None] * pk[:, None]
        out = []
        if not np.array_equal(pk, pk0):
            out.append(("peaks unchanged", "", None))
        if H.shape != want.shape or not np.allclose(H, want, rtol=1e-9):
            i = np.argwhere(~np.isclose(H, want, rtol=1e-9))[:1] if H.shape == want.shape else H.shape
            out.append(("profile scaled to the peak", f"differs at {i}", None))
        elif not np.allclose(H.max(axis=1), pk):
            out.append(("maximum is the peak", "", None))
        return out


# --------------------------------------------------------------- C23
def cot_mix(KA, PA, N, KT, KP, P1, P2, P3, x):
    """probability of an outage of at least x after adding the unit"""
    def at(y):      # previous table: P(outage >= y)
        if y <= 0:
            return 1.0
        for i in range(N):
            if KA[i] >= y:
                return PA[i]
        return 0.0
    return P1 * at(x) + P2 * at(x - KP) + P3 * at(x - KT)


@contract
class gsm(Contract):
    file = "data_processing/gsm.py"
    func = "gsm"
    props = ["C23"]
    modifies = ("PA", "KA")
    spec = None
    forget = ("KO", "P")

    @staticmethod
    def args(E):
        return dict(N=E.int("N"), KT=E.int("KT"), KP=E.int("KP"), P1=E.real_var("P1"), P2=E.real_var("P2"), P3=E.real_var("P3"),
                    PA=E.arr("PA", (5000,), "r"), KA=E.arr("KA", (5000,), "r"))

    @staticmethod
    def requires(E, o):
        N = o.N
        return [("a table", E.And(1 <= N, N <= 4951, o.KA[0] == 0, E.eq(o.PA[0], 1))),
                ("whole levels", E.forall((0, N), lambda i: E.is_int(o.KA[i]))),
                ("levels increase", E.forall((0, N), (0, N), lambda i, j: E.Implies(i < j, lambda: o.KA[i] < o.KA[j]))),
                ("levels below the sentinel", o.KA[N - 1] + o.KT < 10 ** 6),
                ("probabilities fall", E.forall((0, N - 1), lambda i: E.And(o.PA[i] >= o.PA[i + 1], o.PA[i + 1] >= 0))),
                ("unit", E.And(0 <= o.KP, o.KP <= o.KT, 0 <= o.P1, 0 <= o.P2, 0 <= o.P3, E.eq(o.P1 + o.P2 + o.P3, 1)))]

    # the three shifted copies of the previous table, closed by a level nothing reaches
    @staticmethod
    def level(E, o, i, c):
        return E.ite(i < o.N, lambda: o.KA[i] + (0, o.KP, o.KT)[c], lambda: 10 ** 6)

    @staticmethod
    def tail(E, o, i):
        return E.ite(i < o.N, lambda: o.PA[i], lambda: E.real(0))

    @staticmethod
    def table(E, o, KA, PA, L, lv=None, t=None):
        """what holds of the new table up to level L"""
        lv, t = lv or (lambda i, c: gsm.level(E, o, i, c)), t or (lambda i: gsm.tail(E, o, i))

        def first(i, x, c):
            """the first level of copy c not below x"""
            return E.And(lv(i, c) >= x, E.Or(i == 0, lambda: lv(i - 1, c) < x))
        ix = (0, o.N + 1)
        return [("zero outage is certain", E.And(KA[0] == 0, E.eq(PA[0], 1))),
                ("whole levels", E.forall((0, L + 1), lambda l: E.is_int(KA[l]))),
                ("levels increase", E.forall((0, L + 1), (0, L + 1), lambda a, b: E.Implies(a < b, lambda: KA[a] < KA[b]))),
                ("probabilities fall", E.forall((0, L), lambda a: E.And(PA[a] >= PA[a + 1], PA[a + 1] >= 0))),
                ("probability of at least each outage", E.forall((1, L + 1), ix, ix, ix, lambda l, i, j, k: E.Implies(
                    E.And(first(i, KA[l], 0), first(j, KA[l], 1), first(k, KA[l], 2)),
                    lambda: E.eq(PA[l], o.P1 * t(i) + o.P2 * t(j) + o.P3 * t(k)))))] + \
            [(f"every outage level is listed (copy {c})", E.forall((0, L), (0, o.N), lambda l, i: E.Not(
                E.And(KA[l] < lv(i, c), lv(i, c) < KA[l + 1])))) for c in range(3)]

    @staticmethod
    def invariants(E):
        def loop0(o, v, k):
            L, J, KA, PA = v.L, v.J, v.KA, v.PA
            lv, t = (lambda i, c: v.KO[i, c]), lambda i: v.P[i]
            ix = (0, o.N + 1)
            copies = [(f"copy {c}", E.forall(ix, lambda i: lv(i, c) == gsm.level(E, o, i, c))) for c in range(3)] + [
                ("probabilities of the copies", E.forall(ix, lambda i: t(i) == gsm.tail(E, o, i)))] + [
                (f"copy {c} increases", E.forall(ix, ix, lambda i, j: E.Implies(i < j, lambda: lv(i, c) < lv(j, c)))) for c in range(3)] + [
                (f"copy {c} lies below the sentinel", E.forall((0, o.N), lambda i: lv(i, c) < 10 ** 6)) for c in range(3)] + [
                ("probabilities of the copies fall", E.forall((0, o.N), lambda i: E.And(t(i) >= t(i + 1), t(i + 1) >= 0)))]
            return copies + [("bound", 4950), ("one level a round", E.And(L == k, L <= 4950)), ("within the largest outage", KA[L] <= o.KA[o.N - 1] + o.KT)] + \
                [(f"pointer {c}", E.And(0 <= J[c], J[c] <= o.N, lv(J[c], c) > KA[L])) for c in range(3)] + \
                [(f"passed by pointer {c}", E.forall((0, J[c]), lambda i: lv(i, c) <= KA[L])) for c in range(3)] + \
                [("nothing likelier follows", PA[L] >= o.P1 * t(J[0]) + o.P2 * t(J[1]) + o.P3 * t(J[2]))] + \
                gsm.table(E, o, KA, PA, L, lv, t)
        return [loop0]

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            L = r - 1
            return [("size", E.And(1 <= r, r <= 4951)), ("nothing after the table", E.eq(n.PA[r], 0))] + gsm.table(E, o, n.KA, n.PA, L) + [
                ("within the largest outage", n.KA[L] <= o.KA[o.N - 1] + o.KT), ("complete unless cut", E.Or(n.PA[L] <= E.real(1e-9), L >= 4950, n.KA[L] >= o.KA[o.N - 1] + o.KT))]
        M = int(r)
        K, P = n.KA[:M], n.PA[:M]
        out = [("zero outage is certain", K[0] == 0 and abs(P[0] - 1) < 1e-12),
               ("levels increase", bool(np.all(np.diff(K) > 0))),
               ("probabilities fall", bool(np.all(np.diff(P) <= 1e-12))),
               ("nothing after the table", M < 5000 and n.PA[M] == 0)]
        if not all(x[1] for x in out[:2]):
            return out
        for i in range(1, M):
            w = cot_mix(o.KA, o.PA, o.N, o.KT, o.KP, o.P1, o.P2, o.P3, K[i])
            if abs(w - P[i]) > 1e-9:
                out.append(("probability of at least each outage", f"at {K[i]}: {P[i]}, mix {w}"))
                break
        # complete: no level of the mix is missing while its probability is not negligible
        lv = sorted({int(k + s) for k in o.KA[:o.N] for s in (0, o.KP, o.KT)} - {0})
        cut = M >= 2 and P[-1] <= 1e-9
        have = set(int(x) for x in K)
        for x in lv:
            if x not in have and not (cut and x > K[-1]):
                out.append(("every outage level is listed", f"{x} is missing"))
                break
        return out

    @staticmethod
    def gen(rng, k):
        N = int(rng.choice([1, 2, 3, 8, 20]))
        KA, PA = np.zeros(5000), np.zeros(5000)
        lv = np.sort(rng.choice(np.arange(1, 80), size=N - 1, replace=False)) * 10
        KA[1:N] = lv
        PA[0] = 1.0
        PA[1:N] = np.sort(rng.uniform(1e-4, .5, size=N - 1))[::-1]
        KT = int(rng.integers(0, 41)) * 10
        KP = int(rng.integers(0, KT // 10 + 1)) * 10
        P2, P3 = float(rng.uniform(0, .2)), float(rng.uniform(0, .2))
        if KP == 0 and rng.random() < .7:
            P2 = 0.0
        return dict(N=N, KT=KT, KP=KP, P1=1 - P2 - P3, P2=P2, P3=P3, PA=PA, KA=KA)


def rounded(E, x):
    """to the 10 MW grid, as the outage table counts"""
    k = E.trunc(x + 5.5)
    return k - E.mod(k, 10)


@contract
class gsm_step(gsm):
    """what pmlolp relies on (proved of gsm), and what it must hand on: this round's unit, with its own data"""
    assumed = True
    modular = False
    symbolic = True
    concrete = False
    props = ()

    @staticmethod
    def requires(E, o):
        a, u = E.top, E.round
        c = rounded(E, a.CAPLOS[u])
        return gsm.requires(E, o) + [
            ("the full outage of this unit", o.KT == c), ("the partial outage of this unit", o.KP == rounded(E, c * a.RD[u, 2])),
            ("the probabilities of this unit", E.And(o.P1 == 1 - a.RD[u, 0] - a.RD[u, 1], o.P2 == a.RD[u, 0], o.P3 == a.RD[u, 1]))]

    @staticmethod
    def spec(E, o):
        r = E.int("size")
        n = NS(dict(KA=E.arr("KA_after", (5000,), "r"), PA=E.arr("PA_after", (5000,), "r")))
        E.facts += [f for _, f in gsm.ensures(E, o, n, r)]
        return r, dict(n.__dict__)


@contract
class pmlolp(Contract):
    file = "data_processing/pmlolp.py"
    func = "pmlolp"
    props = ["C23"]
    spec = None
    callees = {"gsm": gsm_step}

    @staticmethod
    def args(E):
        u = E.dim("NUNITS")
        return dict(CAPLOS=E.arr("CAPLOS", (u,), "r"), RD=E.arr("RD", (u, 3), "r"), NGU=E.int("NGU"))

    @staticmethod
    def requires(E, o):
        return [("units", E.And(0 <= o.NGU, o.NGU <= 600, o.CAPLOS.shape[0] == o.NGU, o.RD.shape[0] == o.NGU)),
                ("capacities", E.forall((0, o.NGU), lambda u: E.And(0 <= o.CAPLOS[u], o.CAPLOS[u] <= 1600))),
                ("outage data", E.forall((0, o.NGU), lambda u: E.And(
                    0 <= o.RD[u, 0], 0 <= o.RD[u, 1], 0 <= o.RD[u, 2], o.RD[u, 2] <= 1)))]

    @staticmethod
    def valid(E, N, KA, PA):
        return [("size", E.And(1 <= N, N <= 4951)), ("zero outage is certain", E.And(KA[0] == 0, E.eq(PA[0], 1))),
                ("whole levels", E.forall((0, N), lambda i: E.is_int(KA[i]))),
                ("levels increase", E.forall((0, N), (0, N), lambda i, j: E.Implies(i < j, lambda: KA[i] < KA[j]))),
                ("probabilities fall", E.forall((0, N - 1), lambda i: E.And(PA[i] >= PA[i + 1], PA[i + 1] >= 0)))]

    @staticmethod
    def invariants(E):
        def loop0(o, v, k):
            return [("largest outage", v.KA[v.NGS - 1] <= 1610 * k)] + pmlolp.valid(E, v.NGS, v.KA, v.PA)
        return [loop0]

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            return pmlolp.valid(E, *r)
        N, KA, PA = r
        N = int(N)
        # exact distribution of the sum of rounded outages
        dist = {0: 1.0}
        for i in range(int(o.NGU)):
            kt = int(o.CAPLOS[i] + 5.5)
            kt -= kt % 10
            kp = int(kt * o.RD[i, 2] + 5.5)
            kp -= kp % 10
            p2, p3 = o.RD[i, :2]
            p1 = 1 - p2 - p3
            if not p1 > 1e-6:
                continue
            new = {}
            for x, q in dist.items():
                for s, w in ((0, p1), (kp, p2), (kt, p3)):
                    new[x + s] = new.get(x + s, 0) + q * w
            dist = new
        out = [("zero outage is certain", KA[0] == 0 and abs(PA[0] - 1) < 1e-9),
               ("levels increase", bool(np.all(np.diff(KA[:N]) > 0))),
               ("probabilities fall", bool(np.all(np.diff(PA[:N]) <= 1e-12)))]
        for i in range(1, N):
            w = sum(q for x, q in dist.items() if x >= KA[i])
            if abs(w - PA[i]) > 1e-6:
                out.append(("distribution of the total outage", f"at {KA[i]}: {PA[i]}, exact {w}"))
                break
        tail = sum(q for x, q in dist.items() if x > KA[N - 1])
        if tail > 1e-6:
            out.append(("distribution of the total outage", f"{tail} beyond the last level {KA[N-1]}"))
        return out

    @staticmethod
    def gen(rng, k):
        u = int(rng.choice([1, 2, 4, 6]))
        c = np.round(rng.uniform(6, 400, size=u))
        if k % 3 == 0:
            c = rng.integers(1, 40, size=u) * 10.0 + float(rng.choice([0, 4, 5, -5, 4.4, 4.6]))
            c = np.maximum(c, float(rng.choice([0, 3, 6])))
        RD = np.column_stack([np.round(rng.uniform(0, .2, size=u), 3), np.round(rng.uniform(0, .2, size=u), 3), rng.choice([0, .04, .2, .4, .5, .97, 1], size=u)])
        return dict(CAPLOS=c, RD=RD, NGU=u)


# --------------------------------------------------------------- whole input chain
@contract
class whole_input(Contract):
    """csv files and load profile in, model data out, against an independent computation"""
    scenario = True
    file = "data_processing/dataf1.py"
    func = "dataf1"
    props = ["C07", "C08", "C18", "C19", "C20", "C21"]
    n_quick = 6
    n_thorough = 40

    @staticmethod
    def run(T, rng, k):
        S = small_system(rng, areas=[2, 3, 11][k % 3] if k < 3 else None)
        n, u = len(S["ZZLD"]["NAR"]), len(S["ZZUD"]["NAT"])
        # planned outages predetermined, inside the year
        S["ZZMC"]["IREPM"] = 0
        D = named(rng, S)
        d = os.path.join(T.tmp, f"w{k}")
        os.mkdir(d)
        write_tables(rng, D, d)
        prof = rng.integers(1, 9999, size=(n, 8760))
        write_leei(rng, prof, os.path.join(d, "LEEI"))
        dataf1 = T.fn("data_processing/dataf1.py", "dataf1")
        T.fn("data_processing/smaint.py", "smaint")
        with T.Patched(no_placement(T.fn("data_processing/pmsc.py", "pmsc"))):
            r = dataf1([d, os.path.join(d, "LEEI")])
        names = ("QTR NORR NFCST NOAREA PKLOAD FU MINRAN MAXRAN INHBT1 INHBT2 BN SUSTAT FCTERR CAPCON CAPOWN NOGEN PROBG DERATE JENT "
                 "INTCH INTCHR LP LINENO PROBL BLPA MXCRIT JCRIT RATES ID HRLOAD MAXHR DYLOAD MAXDAY WPEAK MXPLHR JPLOUT ITAB NLS IOI IOJ "
                 "KVLOC KVSTAT KVTYPE KVWHEN KWHERE CVTEST MAXEUE JSTEP JFREQ FINISH INTV INTVT NR NAMA").split()
        if len(r) != len(names):
            return [("number of results", f"{len(r)}", None)]
        R = NS(dict(zip(names, r)))
        out = []

        def eq(clause, got, want, tol=1e-9):
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            if g.shape != w.shape:
                out.append((clause, f"shape {g.shape}, expected {w.shape}", None))
            else:
                bad = ~(np.abs(g - w) <= tol * (1 + np.abs(w)))
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    out.append((clause, f"at {[int(x) for x in i]}: {g[i]}, expected {w[i]}", None))
        L, U, F, M, TD, W = (S[x] for x in ("ZZLD", "ZZUD", "ZZFC", "ZZMC", "ZZTD", "ZZOD"))
        pk = L["RATES"][:, 0]
        H = prof / prof.max(axis=1)[:, None] * pk[:, None]
        eq("C08,C07: hourly loads as scaled, contracts undone", R.HRLOAD, H, 1e-7)
        X = np.zeros((n, 365))     # net export by area and day
        for c in range(len(F["SNRI"])):
            for day in range(F["BEG DAY"][c] - 1, F["END DAY"][c]):
                X[F["NAR"][c], day] += F["MW"][c]
                X[F["NAE"][c], day] -= F["MW"][c]
        HC = H + np.repeat(X, 24, axis=1)
        dy = HC.reshape(n, 365, 24).max(axis=2)
        eq("C08,C07: daily peaks under the contracts", R.DYLOAD, dy, 1e-7)
        wk = np.array([[dy[a, 7 * w:7 * w + 7].max() if w < 51 else dy[a, 357:365].max() for w in range(52)] for a in range(n)])
        eq("C08,C07: weekly peaks", R.WPEAK, wk, 1e-7)
        tot = HC.sum(axis=0).reshape(365, 24)
        mx = np.asarray(R.MXPLHR)
        if mx.shape != (365,) or any(mx[t] // 24 != t or tot[t, mx[t] % 24] < tot[t].max() - 1e-6 for t in range(365)):
            out.append(("C08: pool peak hours", "", None))
        md = np.asarray(R.MAXDAY)
        if md.shape != (n,) or any(dy[a, md[a]] < dy[a].max() - 1e-6 for a in range(n)):
            out.append(("C08: annual peak days", "", None))
        own = np.zeros((n, u))
        own[U["NAR"], np.arange(u)] = 1
        for c in range(len(W["SNRI"])):
            own[:, W["NAT"][c]] = W["PERCENT"][c] / 100
        eq("C19,C20,C21: ownership", R.CAPOWN, own)
        eq("C19,C20: location", R.CAPCON, U["NAR"])
        rates = U["HRLOAD"][:4].T
        eq("C19,C21: seasonal ratings", R.RATES, rates)
        q = [M["IW1"] * 168 + .5, M["IW2"] * 168 + .5, M["IW3"] * 168 + .5]
        eq("C19,C18: season ends", R.QTR, q)
        sus = np.zeros((n + 1, 6))
        sus[:n, 0] = pk
        if md.shape == (n,):
            for a in range(n):
                s = sum(md[a] * 24 > x for x in q)
                sus[a, 1] = own[a] @ rates[:, s] - X[a, md[a]]
            eq("C07: capacity on the peak day", R.SUSTAT, sus, 1e-7)
        J = np.asarray(R.JPLOUT)
        for w in range(52):
            want = sorted(i for i in range(u) if any(U["ID"][i, c] > 0 and U["ID"][i, c] - 1 <= w < U["ID"][i, c] - 1 + U["ID"][i, c + 1] for c in (1, 3)))
            if sorted(J[w, 1:J[w, 0] + 1].tolist()) != want:
                out.append(("C18,C19: maintenance table", f"week {w}: {J[w].tolist()}, expected {want}", None))
                break
        eq("C19,C21: line states", R.PROBL, np.cumsum(TD["PROBT"], axis=1).T, 1e-7)
        eq("C19,C20: line ends", R.LP, np.column_stack([np.arange(len(TD["NAR"])), TD["NAR"], TD["NAE"]]))
        net = np.zeros((n, 365))
        for a in range(n):
            for b in range(n):
                if R.JENT[a, b] != -1:
                    net[a] += R.INTCH[R.JENT[a, b]]
                    net[b] -= R.INTCH[R.JENT[a, b]]
        eq("C19,C20: contracts by day", net, X)
        if R.NR != 0:
            out.append(("C19: reference area", R.NR, None))
        if [str(x).strip() for x in R.NAMA] != [x.strip("'") for x in D["ZZLD"]["NAR"]]:
            out.append(("C20,C21: area names", f"{list(R.NAMA)}", None))
        return out
