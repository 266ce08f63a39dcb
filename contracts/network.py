import numpy as np

from contracts import gens as G
from contracts.leaf import _is_lines, admittance
from pyvc.dsl import ANY, Contract, NS, contract


# --------------------------------------------------------------- C10
def _sq(E, Z):
    return [("square", Z.shape[0] == Z.shape[1])]


def _sym(E, Z):
    n = Z.shape[0]
    return [("symmetric", E.forall((0, n), (0, n), lambda i, j: E.eq(Z[i, j], Z[j, i])))]


def _spd(rng, n):
    A = rng.uniform(-1, 1, size=(n, n))
    A = A @ A.T + n * np.eye(n)
    return A * (1 if rng.random() < .5 else -1) / 10


def is_inverse(E, nx, Z, B, i, j):
    """the entry (i, j) of the product of the leading nx x nx blocks is that of the unit matrix"""
    return E.eq(E.sum(0, nx, lambda m: Z(i, m) * B(m, j)), E.toint(i == j))


def inverse_lemmas(E, ZB, Z, g, B1, e, z, pick, d, zij, rows):
    """Z B = 1 is kept by Z - z z'/d and B + b e e', z = Z e: in the leading block of nx rows (all of them, or all but those of
    zeros), for the row i and the column j, arbitrary"""
    n, i, j = g.nx, g.i, g.j
    zb = lambda r: E.sum(0, n, lambda m: ZB[r, m] * g.BB[m, j])
    here = E.And(0 <= i, i < n, 0 <= j, j < n, n <= ZB.shape[0], *[E.And(0 <= r, r < n) for r in rows])
    inv = E.And(*[is_inverse(E, n, lambda a, m: ZB[a, m], lambda m, b: g.BB[m, b], r, j) for r in (i, *rows)])
    hyp = E.And(here, g.b * zij == -1, inv)
    col = E.sum(0, n, lambda m: z(m) * g.BB[m, j])
    return [
        ("step 1: the correction, times the old matrix", E.Implies(here, lambda: E.eq(
            E.sum(0, n, lambda m: Z[i, m] * g.BB[m, j]), zb(i) - z(i) / d * col))),
        ("step 2: the correction is a row of the inverse", E.Implies(here, lambda: E.eq(col, pick(zb)))),
        ("step 3: its product is a unit row", E.Implies(hyp, lambda: E.eq(col, e(j)))),
        ("step 4: the new inverse, times the change", E.Implies(here, lambda: E.eq(
            E.sum(0, n, lambda m: Z[i, m] * e(m)), pick(lambda m: Z[i, m])))),
        ("step 5: the product, in two parts", E.Implies(here, lambda: E.eq(
            E.sum(0, n, lambda m: Z[i, m] * B1(m, j)),
            E.sum(0, n, lambda m: Z[i, m] * g.BB[m, j]) + g.b * e(j) * E.sum(0, n, lambda m: Z[i, m] * e(m))))),
        ("step 6: the two parts cancel", E.Implies(hyp, lambda: E.eq(
            g.b * e(j) * pick(lambda m: Z[i, m]) - z(i) / d * e(j), E.real(0)))),
        ("the inverse stays the inverse", E.Implies(hyp, lambda: is_inverse(E, n, lambda a, m: Z[a, m], B1, i, j))),
        ("it stays symmetric", E.forall((0, ZB.shape[0]), (0, ZB.shape[0]), lambda a, b: E.eq(Z[a, b], Z[b, a]))),
    ]


@contract
class ximpa(Contract):
    file = "monte_carlo/ximpa.py"
    func = "ximpa"
    props = ["C10"]

    @staticmethod
    def args(E):
        n = E.dim("N", 1)
        return dict(ZB=E.arr("ZB", (n, n), "r"), ZIJ=E.real_var("ZIJ"), NI=E.int("NI"), NJ=E.int("NJ"))

    @staticmethod
    def requires(E, o):
        n = o.ZB.shape[0]
        return _sq(E, o.ZB) + _sym(E, o.ZB) + [
            ("two different rows", E.And(0 <= o.NI, o.NI < n, 0 <= o.NJ, o.NJ < n, o.NI != o.NJ)),
            ("not islanding", E.Not(ximpa.d(E, o) == 0))]

    @staticmethod
    def unit(E, o):
        return lambda i: E.toint(i == o.NI) - E.toint(i == o.NJ)

    @staticmethod
    def d(E, o):
        return o.ZB[o.NI, o.NI] + o.ZB[o.NJ, o.NJ] - o.ZB[o.NI, o.NJ] - o.ZB[o.NJ, o.NI] - o.ZIJ

    @staticmethod
    def spec(E, o):
        n = o.ZB.shape[0]
        z = lambda i: o.ZB[i, o.NI] - o.ZB[i, o.NJ]
        return E.fn((n, n), lambda i, j: o.ZB[i, j] - z(i) * z(j) / ximpa.d(E, o)), {}

    @staticmethod
    def ghost(E, o):
        """an admittance matrix"""
        n = o.ZB.shape[0]
        return dict(BB=E.arr("BB", (n, n), "r"), b=E.real_var("b"), nx=E.int("nx"), i=E.int("row"), j=E.int("col"))

    @staticmethod
    def lemmas(E, o):
        n = o.ZB.shape[0]
        Z, _ = ximpa.spec(E, o)
        g = E.ghost
        if not g:
            return []
        e = ximpa.unit(E, o)
        B1 = lambda i, j: g.BB[i, j] + g.b * e(i) * e(j)
        return inverse_lemmas(E, o.ZB, Z, g, B1, e, lambda i: o.ZB[i, o.NI] - o.ZB[i, o.NJ], lambda f: f(o.NI) - f(o.NJ), ximpa.d(E, o), o.ZIJ, (o.NI, o.NJ))

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 2, 5)
        i, j = rng.choice(n, size=2, replace=False)
        B = _spd(rng, n)
        b = float(rng.choice([-1, 1]) * rng.uniform(0.05, 2))
        return dict(ZB=np.linalg.inv(B), ZIJ=-1 / b, NI=int(i), NJ=int(j), _ghost=dict(BB=B, b=b, nx=n, i=int(rng.integers(0, n)), j=int(rng.integers(0, n))))


@contract
class ximpar(Contract):
    file = "monte_carlo/ximpar.py"
    func = "ximpar"
    props = ["C10"]

    @staticmethod
    def args(E):
        n = E.dim("N", 1)
        return dict(ZB=E.arr("ZB", (n, n), "r"), ZIJ=E.real_var("ZIJ"), NI=E.int("NI"))

    @staticmethod
    def requires(E, o):
        n = o.ZB.shape[0]
        return _sq(E, o.ZB) + _sym(E, o.ZB) + [("row", E.And(0 <= o.NI, o.NI < n)),
                                             ("not islanding", E.Not(o.ZB[o.NI, o.NI] - o.ZIJ == 0))]

    @staticmethod
    def unit(E, o):
        return lambda i: E.toint(i == o.NI)

    @staticmethod
    def spec(E, o):
        n = o.ZB.shape[0]
        return E.fn((n, n), lambda i, j: o.ZB[i, j] - o.ZB[i, o.NI] * o.ZB[j, o.NI] / (o.ZB[o.NI, o.NI] - o.ZIJ)), {}

    ghost = ximpa.ghost

    @staticmethod
    def lemmas(E, o):
        n = o.ZB.shape[0]
        Z, _ = ximpar.spec(E, o)
        g = E.ghost
        if not g:
            return []
        d = o.ZB[o.NI, o.NI] - o.ZIJ
        e = ximpar.unit(E, o)
        B1 = lambda i, j: g.BB[i, j] + g.b * e(i) * e(j)
        return inverse_lemmas(E, o.ZB, Z, g, B1, e, lambda i: o.ZB[i, o.NI], lambda f: f(o.NI), d, o.ZIJ, (o.NI,))

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 5)
        B = _spd(rng, n)
        b = float(rng.choice([-1, 1]) * rng.uniform(0.05, 2))
        return dict(ZB=np.linalg.inv(B), ZIJ=-1 / b, NI=int(rng.integers(0, n)), _ghost=dict(BB=B, b=b, nx=n, i=int(rng.integers(0, n)), j=int(rng.integers(0, n))))


@contract
class admitm(Contract):
    file = "monte_carlo/admitm.py"
    func = "admitm"
    props = ["C10"]
    modifies = ("BB",)

    @staticmethod
    def args(E):
        n = E.dim("N", 1)
        return dict(BB=E.arr("BB", (n, n), "r"), NII=E.int("NII"), NJJ=E.int("NJJ"), BIJ=E.real_var("BIJ"))

    @staticmethod
    def requires(E, o):
        n = o.BB.shape[0]
        return _sq(E, o.BB) + [("two different rows", E.And(0 <= o.NII, o.NII < n, 0 <= o.NJJ, o.NJJ < n,
                                                           o.NII != o.NJJ))]

    @staticmethod
    def spec(E, o):
        e = lambda i: E.toint(i == o.NII) - E.toint(i == o.NJJ)
        return None, {"BB": E.fn(o.BB.shape, lambda i, j: o.BB[i, j] + o.BIJ * e(i) * e(j))}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 2, 5)
        i, j = rng.choice(n, size=2, replace=False)
        return dict(BB=G.reals(rng, (n, n)), NII=int(i), NJJ=int(j), BIJ=float(rng.uniform(-100, 100)))


@contract
class admref(Contract):
    file = "monte_carlo/admref.py"
    func = "admref"
    props = ["C10"]
    modifies = ("BB",)

    @staticmethod
    def args(E):
        n = E.dim("N", 1)
        return dict(BB=E.arr("BB", (n, n), "r"), NII=E.int("NII"), BIJ=E.real_var("BIJ"))

    @staticmethod
    def requires(E, o):
        return _sq(E, o.BB) + [("row", E.And(0 <= o.NII, o.NII < o.BB.shape[0]))]

    @staticmethod
    def spec(E, o):
        return None, {"BB": E.fn(o.BB.shape, lambda i, j: o.BB[i, j] + E.ite(
            E.And(i == o.NII, j == o.NII), lambda: o.BIJ, lambda: E.real(0)))}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 5)
        return dict(BB=G.reals(rng, (n, n)), NII=int(rng.integers(0, n)), BIJ=float(rng.uniform(-100, 100)))


# --------------------------------------------------------------- C11
@contract
class theta(Contract):
    file = "monte_carlo/theta.py"
    func = "theta"
    props = ["C11"]

    @staticmethod
    def args(E):
        n = E.dim("N")
        return dict(Z=E.arr("Z", (n, n), "r"), INJ=E.arr("INJ", (n,), "r"))

    @staticmethod
    def requires(E, o):
        return _sq(E, o.Z) + [("one injection per row", o.INJ.shape[0] == o.Z.shape[0])]

    @staticmethod
    def spec(E, o):
        n = o.Z.shape[0]
        return E.fn((n,), lambda i: E.sum(0, n, lambda j: o.Z[i, j] * o.INJ[j])), {}

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 6)
        return dict(Z=G.reals(rng, (n, n)), INJ=G.reals(rng, n))


def _is_perm(E, LT, NR=None):
    n = LT.shape[0]
    c = [("area numbers", E.forall((0, n), lambda i: E.And(0 <= LT[i], LT[i] < n))),
         ("all different", E.forall((0, n), (0, n), lambda i, j: E.Implies(i != j, lambda: LT[i] != LT[j])))]
    return c


def base_network(E, NR, LT, BB, ZB):
    """the numbering has every area once, the reference last; the impedance matrix is the inverse of the admittance matrix, and symmetric"""
    n = LT.shape[0]
    return _is_perm(E, LT) + [
        ("the reference is numbered last", LT[n - 1] == NR),
        ("symmetric", E.forall((0, n), (0, n), lambda i, j: E.eq(ZB[i, j], ZB[j, i]))),
        ("an inverse", E.forall((0, n - 1), (0, n - 1), lambda i, j: is_inverse(
            E, n - 1, lambda a, m: ZB[a, m], lambda m, b: BB[m, b], i, j)))]


def network_in_order(E, o):
    """what a load flow relies on"""
    n, nl = o.BN.shape[0], o.LP.shape[0]
    return base_network(E, o.NR, o.LT, o.BB, o.ZB) + [
        ("line ends", E.forall((0, nl), lambda l: E.And(0 <= o.LP[l, 1], o.LP[l, 1] < n, 0 <= o.LP[l, 2], o.LP[l, 2] < n, o.LP[l, 1] != o.LP[l, 2]))),
        ("base lines conduct", E.forall((0, nl), lambda l: o.BLP0[l] != 0)),
        ("loads", E.forall((0, n), lambda a: o.BN[a, 1] >= 0)),
        ("some load to share a shortage", E.Implies(o.NLS == 0, lambda: E.sum(0, n, lambda a: o.BN[a, 1]) > 0)),
        ("table sizes", E.And(5 * n + 2 * nl <= 200, 2 * (n - 1) + 7 * n + 2 * nl <= 250)),
    ]


def network_of_hour(E, o):
    """what the transmission step relies on"""
    n, nl = o.BN.shape[0], o.LP.shape[0]
    return [("line states", E.forall((0, nl), lambda l: E.And(1 <= o.LNSTAT[l], o.LNSTAT[l] <= 6))),
            ("line ends", E.forall((0, nl), lambda l: E.And(0 <= o.LP[l, 1], o.LP[l, 1] < n, 0 <= o.LP[l, 2], o.LP[l, 2] < n, o.LP[l, 1] != o.LP[l, 2]))),
            ("base lines conduct", E.forall((0, nl), lambda l: E.And(o.BLPA[l, 0] != 0, E.Implies(o.IFLAG == 1, o.BLP0[l] != 0)))),
            ("reference", E.And(0 <= o.NR, o.NR < n)), ("area numbers", E.forall((0, n), lambda i: o.BN[i, 0] == E.real(i))),
            ("loads", E.forall((0, n), lambda a: o.CAPREQ[a] >= 0)),
            ("some load to share a shortage", E.Implies(o.NLS == 0, lambda: E.sum(0, n, lambda a: o.CAPREQ[a]) > 0)),
            ("table sizes", E.And(5 * n + 2 * nl <= 200, 2 * (n - 1) + 7 * n + 2 * nl <= 250)),
            *[("a network built before: " + x, E.Implies(o.IFLAG == 1, f)) for x, f in base_network(E, o.NR, o.LT, o.BB, o.ZB)],
            ("one limit per area, in both directions", E.forall((0, n), lambda a: E.And(o.BN[a, 3] == o.BN[a, 4], o.BN[a, 3] >= 0)))]


@contract
class thetac(Contract):
    file = "monte_carlo/thetac.py"
    func = "thetac"
    props = ["C11"]

    @staticmethod
    def args(E):
        n = E.dim("N", 1)
        return dict(THET=E.arr("THET", (n,), "r"), LT=E.arr("LT", (n,), "i"))

    @staticmethod
    def requires(E, o):
        return _is_perm(E, o.LT) + [("lengths", E.And(o.LT.shape[0] == o.THET.shape[0], o.LT.shape[0] >= 1))]

    @staticmethod
    def ensures(E, o, n, r):
        m = o.THET.shape[0]
        return [("length", r.shape[0] == m),
                ("angle of each area", E.forall((0, m - 1), lambda i: E.eq(r[o.LT[i]], o.THET[i]))),
                ("reference angle zero", E.eq(r[o.LT[m - 1]], 0))]

    @staticmethod
    def result(E, o):
        return E.arr("THETC", (o.THET.shape[0],), "r")

    spec = None

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 7)
        LT = rng.permutation(n) if k % 2 else G.perm_ref_last(rng, n, int(rng.integers(0, n)))
        return dict(THET=G.reals(rng, n), LT=LT)


@contract
class flo(Contract):
    file = "monte_carlo/flo.py"
    func = "flo"
    props = ["C11"]

    @staticmethod
    def args(E):
        n, nl = E.dim("N"), E.dim("NLINES")
        return dict(LP=E.arr("LP", (nl, 3), "i"), BLP=E.arr("BLP", (nl, 3), "r"), THET=E.arr("THET", (n,), "r"))

    @staticmethod
    def requires(E, o):
        return _is_lines(E, o.LP, o.THET.shape[0]) + [("fields", o.BLP.shape[0] == o.LP.shape[0]),
                                                     ("columns", o.BLP.shape[1] == 3)]

    @staticmethod
    def flow(E, o, l):
        return (o.THET[o.LP[l, 1]] - o.THET[o.LP[l, 2]]) * o.BLP[l, 0]

    @staticmethod
    def spec(E, o):
        nl = o.LP.shape[0]
        f = lambda l: flo.flow(E, o, l)
        net = lambda a: E.sum(0, nl, lambda l: E.ite(o.LP[l, 2] == a, lambda: f(l), lambda: E.real(0))) \
            - E.sum(0, nl, lambda l: E.ite(o.LP[l, 1] == a, lambda: f(l), lambda: E.real(0)))
        return (E.fn((o.THET.shape[0],), net), E.fn((nl,), f)), {}

    @staticmethod
    def lemmas(E, o):
        n = o.THET.shape[0]
        (s, f), _ = flo.spec(E, o)
        adm = lambda i, j: admittance(E, o.LP, lambda l: o.BLP[l, 0], i, j)
        return [("net flows sum to zero", E.eq(E.sum(0, n, lambda a: s[a]), 0)),
                ("net flow into an area is minus its row of the admittance matrix times the angles",
                 E.forall((0, n), lambda a: E.eq(
                     s[a], -E.sum(0, n, lambda j: adm(a, j) * o.THET[j]))))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 2, 6)
        LP, b = G.network(rng, n)
        B = G.reals(rng, (len(b), 3), 0, 300)
        B[:, 0] = b
        return dict(LP=LP, BLP=B, THET=G.reals(rng, n))


# --------------------------------------------------------------- C12
@contract
class assign(Contract):
    file = "monte_carlo/assign.py"
    func = "assign"
    props = ["C12"]

    @staticmethod
    def args(E):
        n = E.dim("NN", 1)
        return dict(INJ=E.arr("INJ", (n,), "r"), LOD=E.arr("LOD", (n,), "r"), LT=E.arr("LT", (n,), "i"), NN=n,
                    NLS=E.int("NLS"))

    @staticmethod
    def sums(E, o):
        n = o.INJ.shape[0]
        neg = E.sum(0, n, lambda i: E.ite(o.INJ[i] <= 0, lambda: -o.INJ[i], lambda: E.real(0)))
        pos = E.sum(0, n, lambda i: E.ite(o.INJ[i] > 0, lambda: o.INJ[i], lambda: E.real(0)))
        lod = E.sum(0, n, lambda i: o.LOD[i])
        return neg, pos, lod

    @staticmethod
    def requires(E, o):
        n = o.INJ.shape[0]
        neg, pos, lod = assign.sums(E, o)
        return _is_perm(E, o.LT) + [
            ("lengths", E.And(o.NN == n, o.LOD.shape[0] == n, o.LT.shape[0] == n)),
            ("loads", E.forall((0, n), lambda i: o.LOD[i] >= 0)),
            ("some load to share a shortage", E.Implies(E.And(neg > pos, o.NLS == 0), lambda: lod > 0))]

    @staticmethod
    def curtail(E, o, i):
        """curtailment of the area at position i"""
        neg, pos, lod = assign.sums(E, o)
        return E.ite(neg <= pos, lambda: E.real(0), lambda: E.ite(
            o.NLS != 0,
            lambda: E.ite(o.INJ[i] <= 0, lambda: o.INJ[i] * pos / neg - o.INJ[i], lambda: E.real(0)),
            lambda: o.LOD[o.LT[i]] * (neg - pos) / lod))

    @staticmethod
    def inj(E, o, i):
        neg, pos, lod = assign.sums(E, o)
        return E.ite(neg <= pos,
                     lambda: E.ite(E.And(o.INJ[i] > 0, pos > 0), lambda: o.INJ[i] * neg / pos, lambda: o.INJ[i]),
                     lambda: E.ite(o.NLS != 0,
                                   lambda: E.ite(o.INJ[i] <= 0, lambda: o.INJ[i] * pos / neg, lambda: o.INJ[i]),
                                   lambda: o.INJ[i] + assign.curtail(E, o, i)))

    @staticmethod
    def ensures(E, o, n, r):
        m = o.INJ.shape[0]
        inj, cut = r
        return [("lengths", E.And(inj.shape[0] == m, cut.shape[0] == m)),
                ("injections handed on", E.forall((0, m), lambda i: E.eq(inj[i], assign.inj(E, o, i)))),
                ("curtailment of each area", E.forall((0, m), lambda i: E.eq(cut[o.LT[i]], assign.curtail(E, o, i))))]

    @staticmethod
    def result(E, o):
        m = o.INJ.shape[0]
        return (E.arr("INJ1", (m,), "r"), E.arr("LODC", (m,), "r"))

    spec = None

    @staticmethod
    def lemmas(E, o):
        n = o.INJ.shape[0]
        neg, pos, lod = assign.sums(E, o)
        return [("balanced", E.eq(E.sum(0, n, lambda i: assign.inj(E, o, i)), 0)),
                ("curtailments are never negative", E.forall((0, n), lambda i: E.le(0, assign.curtail(E, o, i)))),
                ("loss sharing curtails the shortage", E.Implies(
                    E.And(neg > pos, o.NLS == 0),
                    lambda: E.eq(E.sum(0, n, lambda i: assign.curtail(E, o, i)), neg - pos)))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 6)
        INJ = G.reals(rng, n, -300, 300)
        r = rng.random()
        if r < 0.1:
            INJ = -abs(INJ)
        elif r < 0.2:
            INJ = abs(INJ)
        elif r < 0.3:
            INJ[:] = 0.0
        elif r < 0.45 and n > 1:
            INJ = np.round(INJ)
            INJ[-1] = -INJ[:-1].sum()     # balanced already
        LOD = G.reals(rng, n, 0, 1000)
        LOD[rng.integers(0, n)] += 1.0
        return dict(INJ=INJ, LOD=LOD, LT=rng.permutation(n) if k % 3 else G.perm_ref_last(rng, n, int(rng.integers(0, n))),
                    NN=n, NLS=int(rng.choice([0, 1])))


# --------------------------------------------------------------- C24 pieces
@contract
class mc(Contract):
    file = "monte_carlo/mc.py"
    func = "mc"
    props = ["C24"]

    @staticmethod
    def args(E):
        m, m1, n1 = E.dim("M", 1), E.dim("M1", 1), E.dim("N1", 1)
        return dict(M=m, IN=E.int("IN"), TAB=E.arr("TAB", (m1, m1), "r"), A=E.arr("A", (m1, n1), "r"))

    @staticmethod
    def requires(E, o):
        return [("sizes", E.And(o.M <= o.TAB.shape[0], o.M <= o.TAB.shape[1], o.M <= o.A.shape[0], 0 <= o.IN,
                                o.IN < o.A.shape[1]))]

    @staticmethod
    def spec(E, o):
        return E.fn((o.M,), lambda i: E.sum(0, o.M, lambda j: o.TAB[i, j] * o.A[j, o.IN])), {}

    @staticmethod
    def gen(rng, k):
        m = G.size(rng, 1, 5)
        m1, n1 = m + int(rng.integers(0, 3)), G.size(rng, 1, 5)
        return dict(M=m, IN=int(rng.integers(0, n1)), TAB=G.reals(rng, (m1, m1)), A=G.reals(rng, (m1, n1)))


@contract
class rc(Contract):
    file = "monte_carlo/rc.py"
    func = "rc"
    props = ["C24"]

    @staticmethod
    def args(E):
        m, m1, n1 = E.dim("M", 1), E.dim("M1", 1), E.dim("N1", 1)
        return dict(M=m, PY=E.arr("PY", (m1,), "r"), A=E.arr("A", (m1, n1), "r"), IND=E.int("IND"))

    @staticmethod
    def requires(E, o):
        return [("sizes", E.And(o.M <= o.PY.shape[0], o.M <= o.A.shape[0], 0 <= o.IND, o.IND < o.A.shape[1]))]

    @staticmethod
    def spec(E, o):
        return E.sum(0, o.M, lambda j: o.PY[j] * o.A[j, o.IND]), {}

    @staticmethod
    def gen(rng, k):
        m = G.size(rng, 1, 5)
        m1, n1 = m + int(rng.integers(0, 3)), G.size(rng, 1, 5)
        return dict(M=m, PY=G.reals(rng, m1), A=G.reals(rng, (m1, n1)), IND=int(rng.integers(0, n1)))


@contract
class rm(Contract):
    file = "monte_carlo/rm.py"
    func = "rm"
    props = ["C24"]

    @staticmethod
    def args(E):
        m, m1 = E.dim("M", 1), E.dim("M1", 1)
        return dict(M=m, CB=E.arr("CB", (m1,), "r"), TAB=E.arr("TAB", (m1, m1), "r"))

    @staticmethod
    def requires(E, o):
        return [("sizes", E.And(o.M <= o.TAB.shape[0], o.M <= o.TAB.shape[1], o.M <= o.CB.shape[0]))]

    @staticmethod
    def spec(E, o):
        return E.fn((o.M,), lambda j: E.sum(0, o.M, lambda i: o.CB[i] * o.TAB[i, j])), {}

    @staticmethod
    def gen(rng, k):
        m = G.size(rng, 1, 5)
        m1 = m + int(rng.integers(0, 3))
        return dict(M=m, CB=G.reals(rng, m1), TAB=G.reals(rng, (m1, m1)))


@contract
class net(Contract):
    file = "monte_carlo/net.py"
    func = "net"
    props = ["C24"]
    modifies = ("RES",)

    @staticmethod
    def args(E):
        m, m1, n, n1 = E.dim("M", 1), E.dim("M1", 1), E.dim("N", 1), E.dim("N1", 1)
        return dict(B=E.arr("B", (m1,), "r"), B1=E.arr("B1", (m1,), "r"), RES=E.arr("RES", (n1, 3), "r"),
                    IBAS=E.arr("IBAS", (m1,), "i"), BS=E.arr("BS", (m1,), "r"), M=m, N=n)

    @staticmethod
    def requires(E, o):
        M, N = o.M, o.N
        return [("sizes", E.And(M <= N, N <= o.RES.shape[0], M <= o.B.shape[0], M <= o.B1.shape[0],
                                M <= o.IBAS.shape[0], M <= o.BS.shape[0], o.RES.shape[1] == 3)),
                ("basis", E.forall((0, M), lambda i: E.And(0 <= o.IBAS[i], o.IBAS[i] < N))),
                ("basis variables differ", E.forall((0, M), (0, M), lambda i, j: E.Implies(
                    i != j, lambda: o.IBAS[i] != o.IBAS[j])))]

    @staticmethod
    def ensures(E, o, n, r):
        M, N = o.M, o.N
        R = n.RES
        nb = lambda v: E.forall((0, M), lambda i: o.IBAS[i] != v)
        sign = lambda v: E.ite(v >= N - M, lambda: -1, lambda: 1)
        base = lambda v: E.ite(v >= N - M, lambda: o.B[v - (N - M)], lambda: E.real(0))
        return [("value of each basic variable", E.forall((0, M), lambda i: E.eq(
            R[o.IBAS[i], 0], sign(o.IBAS[i]) * o.BS[i] + base(o.IBAS[i])))),
            ("value of each other variable", E.forall((0, N), lambda v: E.Implies(nb(v), lambda: E.eq(R[v, 0], base(v))))),
            ("sign of each constraint", E.forall((0, N), lambda v: E.eq(R[v, 1], E.ite(
                v >= N - M, lambda: E.toint(o.B1[v - (N - M)] < 0), lambda: 0)))),
            ("third column clear", E.forall((0, N), lambda v: E.eq(R[v, 2], 0))),
            ("other rows untouched", E.forall((N, o.RES.shape[0]), (0, 3), lambda v, c: E.eq(R[v, c], o.RES[v, c])))]

    spec = None

    @staticmethod
    def gen(rng, k):
        m = G.size(rng, 1, 5)
        n = m + int(rng.integers(0, 6))
        p = int(rng.integers(0, 3))
        ib = np.concatenate([rng.choice(n, size=m, replace=False), -np.ones(p, dtype=int)])
        return dict(B=G.reals(rng, m + p), B1=G.reals(rng, m + p), RES=G.reals(rng, (n + p, 3)), IBAS=ib,
                    BS=G.reals(rng, m + p, 0, 100), M=m, N=n)


# --------------------------------------------------------------- C25
@contract
class dgefa(Contract):
    """factorisation: the factors and the exchanges give the matrix back (LINPACK storage of the repository)"""
    file = "monte_carlo/dgefa.py"
    func = "dgefa"
    props = ["C25"]
    modifies = ("A",)
    spec = None

    @staticmethod
    def args(E):
        n, m = E.dim("N", 1), E.dim("NMAX", 1)
        return dict(A=E.arr("A", (m, m), "r"), N=n)

    @staticmethod
    def requires(E, o):
        return [("sizes", E.And(1 <= o.N, o.N <= o.A.shape[0], o.N <= o.A.shape[1]))]

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            return []
        N = int(o.N)
        info, ipvt = r
        out = [("pivot rows", all(K <= ipvt[K] < N for K in range(N)))]
        A0 = np.array(o.A[:N, :N], dtype=float)
        F = np.array(n.A[:N, :N], dtype=float)
        U = np.triu(F)
        zero = [K for K in range(N) if F[K, K] == 0.0]
        out.append(("a zero pivot is reported", (info in zero) if zero else info == 0))
        if not zero:
            # undo the elimination steps from the last to the first
            X = U.copy()
            for K in range(N - 2, -1, -1):
                for i in range(K + 1, N):
                    X[i] = X[i] - F[i, K] * X[K]
                L = int(ipvt[K])
                if L != K:
                    X[[K, L]] = X[[L, K]]
            scale = np.abs(A0).max() + 1
            out.append(("factors give the matrix back", bool(np.abs(X - A0).max() <= 1e-8 * scale)))
            out.append(("multipliers at most one", bool(np.abs(np.tril(F, -1)).max(initial=0) <= 1 + 1e-9)))
        out.append(("rest untouched", bool(np.array_equal(n.A[N:, :], o.A[N:, :]) and np.array_equal(n.A[:N, N:], o.A[:N, N:]))))
        return out

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 6)
        A = G.reals(rng, (n, n), -10, 10)
        if k % 7 == 0 and n > 1:
            A[:, rng.integers(0, n)] = 0.0
        if k % 5 == 0:
            A = np.eye(n)[rng.permutation(n)] * rng.uniform(1, 3)
        return dict(A=A, N=n)


@contract
class dgedi(Contract):
    """dgeco then dgedi: the matrix becomes its inverse"""
    file = "monte_carlo/dgedi.py"
    func = "dgedi"
    props = ["C25"]
    modifies = ("A",)
    spec = None

    @staticmethod
    def args(E):
        n, m = E.dim("N", 1), E.dim("NMAX", 1)
        return dict(A=E.arr("A", (m, m), "r"), N=n, IPVT=E.arr("IPVT", (n,), "i"))

    @staticmethod
    def call(fns, a):
        ip = fns("monte_carlo/dgeco.py", "dgeco")(a["A"], a["N"])
        a["IPVT"][:] = ip
        return fns("monte_carlo/dgedi.py", "dgedi")(a["A"], a["N"], ip)

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            return []
        N = int(o.N)
        P = np.array(n.A, dtype=float) @ np.array(o.A, dtype=float)
        P2 = np.array(o.A, dtype=float) @ np.array(n.A, dtype=float)
        c = np.linalg.cond(o.A)
        return [("inverse", bool(max(np.abs(P - np.eye(N)).max(), np.abs(P2 - np.eye(N)).max()) <= 1e-12 * (c + 100) * 10))]

    @staticmethod
    def gen(rng, k):
        n = G.size(rng, 1, 7)
        while True:
            A = G.reals(rng, (n, n), -10, 10)
            if k % 3 == 0:
                A = np.eye(n)[rng.permutation(n)] * rng.uniform(1, 3) + (rng.random((n, n)) < .15) * rng.uniform(-2, 2)
            if abs(np.linalg.det(A)) > 1e-3 and np.linalg.cond(A) < 1e6:
                break
        return dict(A=A, N=n, IPVT=np.zeros(n, dtype=int))
    modifies = ("A", "IPVT")


@contract
class dgeco(Contract):
    file = "monte_carlo/dgeco.py"
    func = "dgeco"
    props = ["C25"]
    modifies = ("A",)
    spec = None
    args = dgefa.args
    requires = dgefa.requires
    gen = dgefa.gen

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            return []
        N = int(o.N)
        F = np.array(n.A[:N, :N], dtype=float)
        zero = any(F[K, K] == 0.0 for K in range(N))
        out = dgefa.ensures(E, o, n, (0 if not zero else [K for K in range(N) if F[K, K] == 0.0][-1], r))
        return [x for x in out if x[0] != "a zero pivot is reported"]
