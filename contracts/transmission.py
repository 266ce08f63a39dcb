"""The transmission step of an hour (C13, C10, C12, C24), for every network size, whatever the load flows answer."""
from contracts.hourly import FLOW
from contracts.network import base_network, network_in_order, network_of_hour
from pyvc.dsl import ANY, Contract, NS, contract

TM2 = "BN LP BLP BLP0 BB ZB LT NR NLS BNS LCLOCK JHOUR IOI JFLAG PLNDST PCTAVL".split()


@contract
class tm1_step(Contract):
    """what transm relies on: the base network of these lines, built from scratch (proved of tm1: contract tm1, up to what an inverse is:
    numpy's is assumed to be one, and symmetric for a symmetric matrix)"""
    file = "monte_carlo/tm1.py"
    func = "tm1"
    assumed = True
    modular = False
    symbolic = True
    concrete = False
    props = ()

    @staticmethod
    def args(E):
        return {x: E.opaque(x) for x in ("BN", "LP", "BLP", "NR")}

    @staticmethod
    def requires(E, o):
        n, nl = o.BN.shape[0], o.LP.shape[0]
        return [("reference", E.And(0 <= o.NR, o.NR < n)), ("area numbers", E.forall((0, n), lambda i: o.BN[i, 0] == E.real(i))),
                ("line ends", E.forall((0, nl), lambda l: E.And(0 <= o.LP[l, 1], o.LP[l, 1] < n, 0 <= o.LP[l, 2], o.LP[l, 2] < n, o.LP[l, 1] != o.LP[l, 2])))]

    @staticmethod
    def spec(E, o):
        n, nl = o.BN.shape[0], o.LP.shape[0]
        BB, LT, ZB = E.arr("baseBB", (n, n), "r"), E.arr("baseLT", (n,), "i"), E.arr("baseZB", (n, n), "r")
        E.facts += [f for _, f in base_network(E, o.NR, LT, BB, ZB)]
        return (E.fn((nl,), lambda l: o.BLP[l, 0]), BB, LT, ZB), {}


@contract
class tm2_step(Contract):
    """what transm relies on: the load flow leaves the network as it found it and changes only the injections and curtailments
    of the areas (proved of tm2: contract tm2)"""
    file = "monte_carlo/tm2.py"
    func = "tm2"
    assumed = True
    modular = False
    symbolic = True
    concrete = False
    props = ()
    modifies = ("BN",)

    @staticmethod
    def args(E):
        return {x: E.opaque(x) for x in TM2}

    requires = staticmethod(network_in_order)

    @staticmethod
    def spec(E, o):
        n, nl = o.BN.shape[0], o.LP.shape[0]
        B = E.arr("newBN", (n, 5), "r")
        return (E.arr("FLOW", (nl,), "r"), E.int("INDIC")), {
            "BN": E.fn((n, 5), lambda i, j: E.ite(E.Or(j == 1, j == 2), lambda: B[i, j], lambda: o.BN[i, j]))}


@contract
class transm_hour(Contract):
    file = "monte_carlo/transm.py"
    func = "transm"
    symbolic = True
    concrete = False
    modular = False
    props = ["C13"]
    modifies = ("BN", "BLP0", "BB", "LT", "ZB")
    callees = {"tm1": tm1_step, "tm2": tm2_step}
    traces = ("tm1_step", "tm2_step")

    @staticmethod
    def args(E):
        n, nl, m = E.dim("NOAREA", 2), E.dim("NLINES", 1), E.dim("NUNITS", 1)
        shape = dict(BN=((n, 5), "r"), BLPA=((nl, 18), "r"), BLP0=((nl,), "r"), BB=((n, n), "r"), LT=((n,), "i"), ZB=((n, n), "r"),
                     LP=((nl, 3), "i"), STMULT=((nl, 2), "r"), LNSTAT=((nl,), "i"), TRNSFR=((n,), "r"), TRNSFJ=((n,), "r"),
                     SYSCON=((n,), "r"), CAPREQ=((n,), "r"), PLNDST=((m,), "r"), PCTAVL=((m,), "r"))
        return {x: E.arr(x, *shape[x]) if x in shape else E.real_var(x) if x == "CLOCK" else 0 if x == "JFLAG" else E.int(x) for x in FLOW}

    @staticmethod
    def requires(E, o):
        return network_of_hour(E, o)

    @staticmethod
    def state(E, o):
        """each line as drawn, its capacities scaled"""
        s = lambda l: (o.LNSTAT[l] - 1) * 3
        return E.fn((o.LP.shape[0], 3), lambda l, c: E.ite(c == 0, lambda: o.BLPA[l, s(l)], lambda: E.ite(
            c == 1, lambda: o.BLPA[l, s(l) + 1] * o.STMULT[l, 0], lambda: o.BLPA[l, s(l) + 2] * o.STMULT[l, 1])))

    @staticmethod
    def stages(E, o):
        n = o.BN.shape[0]
        m = lambda a: o.SYSCON[a] - o.CAPREQ[a]
        two = E.calls["tm2_step"]
        one = NS(dict(FLOW=two[0].ret[0], inj=lambda a: two[0].mut.BN[a, 1]))
        clear = E.forall((0, n), lambda a: m(a) - one.inj(a) >= 0)
        return m, one, clear, two

    @staticmethod
    def spec(E, o):
        n = o.BN.shape[0]
        m, one, clear, two = transm_hour.stages(E, o)
        cadj = lambda a: one.inj(a) * E.real(o.NLS)
        F2 = two[1].ret[0]
        J = E.ite(clear, lambda: 0, lambda: 1)
        FL = E.fn((o.LP.shape[0],), lambda l: E.ite(clear, lambda: one.FLOW[l], lambda: F2[l]))
        SA = E.fn((n,), lambda a: E.ite(clear, lambda: m(a) - one.inj(a), lambda: two[1].mut.BN[a, 1] - m(a) + cadj(a)))
        mut = {"BN": E.fn((n, 5), lambda a, c: E.ite(E.Or(c == 1, c == 2), lambda: E.any(), lambda: o.BN[a, c]))}
        base = E.calls["tm1_step"][0]
        for x, k in (("BLP0", 0), ("BB", 1), ("LT", 2), ("ZB", 3)):
            X = o[x]
            new = base.ret[k]
            mut[x] = E.fn(X.shape, lambda *i, X=X, new=new: E.ite(o.IFLAG != 1, lambda: new[i], lambda: X[i]), X.kind)
        return (J, FL, SA), mut

    @staticmethod
    def ensures(E, o, n, r):
        N, nl = o.BN.shape[0], o.LP.shape[0]
        m, one, clear, two = transm_hour.stages(E, o)
        base, S = E.calls["tm1_step"], transm_hour.state(E, o)
        least = lambda x, y: E.ite(x <= y, lambda: x, lambda: y)
        most = lambda x, y: E.ite(x >= y, lambda: x, lambda: y)
        firm = lambda a: most(o.TRNSFR[a] + o.TRNSFJ[a], least(m(a), E.real(0)))
        cadj = lambda a: one.inj(a) * E.real(o.NLS)
        into = lambda a: E.sum(0, nl, lambda l: E.ite(o.LP[l, 2] == a, lambda: one.FLOW[l], lambda: E.real(0))) - E.sum(
            0, nl, lambda l: E.ite(o.LP[l, 1] == a, lambda: one.FLOW[l], lambda: E.real(0)))
        out = [("one load flow, and one more when shortages remain", len(two) == 2 and E.And(two[0].cond, two[1].cond == E.Not(clear))),
               ("the base network is built when asked for", len(base) == 1 and E.And(base[0].cond == (o.IFLAG != 1))),
               ("from the lines in their base state", E.Implies(base[0].cond, lambda: E.forall((0, nl), (0, 3), lambda l, c: base[0].args.BLP[l, c] == o.BLPA[l, c])))]
        for i, t in enumerate(two):
            a, w = t.args, f"load flow {i + 1}: "
            also = [("the reference area", a.NR == o.NR), ("the lines", E.equal(a.LP, o.LP)), ("the numbering", E.equal(a.LT, n.LT)),
                    ("admittances of the base network", E.equal(a.BLP0, n.BLP0)), ("its admittance matrix", E.equal(a.BB, n.BB)),
                    ("its impedance matrix", E.equal(a.ZB, n.ZB)), ("admittances of the lines as drawn", E.forall((0, nl), lambda l: a.BLP[l, 0] == S[l, 0]))]
            out += [(w + x, E.Implies(t.cond, f)) for x, f in also]
        out += [("the network stays in order: " + x, f) for x, f in base_network(E, o.NR, n.LT, n.BB, n.ZB)]
        out += [("the network stays in order: base lines conduct", E.forall((0, nl), lambda l: n.BLP0[l] != 0))]
        a = two[0].args
        out += [("load flow 1: loss is shared", a.NLS == 1), ("load flow 1: its stage", a.JFLAG == 0),
                ("load flow 1: capacities of the lines as drawn, scaled", E.equal(a.BLP, S)),
                ("load flow 1: firm transfers, limited to the shortages", E.forall((0, N), lambda k: E.And(a.BN[k, 2] == firm(k), a.BN[k, 1] == 0))),
                ("load flow 1: limits of the areas", E.forall((0, N), lambda k: E.And(a.BN[k, 3] == o.BN[k, 3], a.BN[k, 4] == o.BN[k, 4])))]
        b, on = two[1].args, two[1].cond
        out += [("load flow 2: " + x, E.Implies(on, f)) for x, f in [
            ("the policy asked for", b.NLS == o.NLS), ("its stage", b.JFLAG == 1),
            ("the remaining margins and the loads", E.forall((0, N), lambda k: E.And(b.BN[k, 2] == m(k) - cadj(k), b.BN[k, 1] == o.CAPREQ[k]))),
            ("the capacity the firm transfers leave, forward", E.forall((0, nl), lambda l: b.BLP[l, 1] == E.ite(
                o.NLS == 0, lambda: S[l, 1], lambda: most(S[l, 1] - one.FLOW[l], E.real(0))))),
            ("the capacity the firm transfers leave, backward", E.forall((0, nl), lambda l: b.BLP[l, 2] == E.ite(
                o.NLS == 0, lambda: S[l, 2], lambda: most(S[l, 2] + one.FLOW[l], E.real(0))))),
            ("the area limits the firm transfers leave, outward", E.forall((0, N), lambda k: b.BN[k, 3] == E.ite(
                o.NLS == 0, lambda: o.BN[k, 3], lambda: most(o.BN[k, 3] - into(k), E.real(0))))),
            ("the area limits the firm transfers leave, inward", E.forall((0, N), lambda k: b.BN[k, 4] == E.ite(
                o.NLS == 0, lambda: o.BN[k, 4], lambda: most(o.BN[k, 4] + into(k), E.real(0))))),
        ]]
        return out
