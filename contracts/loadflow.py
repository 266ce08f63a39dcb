"""One load flow (C10, C11, C12, C13, C24), for every network size: the matrices follow the lines drawn, the flows are those of the
network drawn, the verdict, the change to the areas, the restoration."""
from contracts.network import _is_perm, assign, flo, is_inverse, network_in_order, theta, thetac, ximpa, ximpar
from contracts.transmission import TM2
from pyvc.dsl import Contract, NS, contract


def opaque(E, names):
    return {x: E.opaque(x) for x in names.split()}


def update_step(name, C, doc):
    """the updated inverse, and that it stays the inverse of the caller's matrix (proved of the function: its lemmas)"""
    class S(Contract):
        file, func = C.file, C.func
        assumed, modular, symbolic, concrete, props = True, False, True, False, ()
        args = C.args

        @staticmethod
        def requires(E, o):
            n, B = o.ZB.shape[0], E.now("BB")
            nx = n - 1
            return [c for c in C.requires(E, o) if c[0] != "not islanding"] + [
                ("within the leading block", E.And(o.NI < nx, o.NJ < nx if "NJ" in o.__dict__ else True)),
                ("it is handed the inverse of the current matrix", E.forall((0, nx), (0, nx), lambda i, j: is_inverse(
                    E, nx, lambda a, m: o.ZB[a, m], lambda m, b: B[m, b], i, j)))]

        @staticmethod
        def spec(E, o):
            n, B = o.ZB.shape[0], E.now("BB")
            nx, e = n - 1, C.unit(E, o)
            Z = E.arr("Z", (n, n), "r")
            E.facts += [
                E.forall((0, n), (0, n), lambda i, j: E.eq(Z[i, j], Z[j, i])),
                E.forall((0, nx), (0, nx), lambda i, j: is_inverse(
                    E, nx, lambda a, m: Z[a, m], lambda m, b: B[m, b] + E.quotient(-1, o.ZIJ) * e(m) * e(b), i, j))]
            return Z, {}

    S.__name__ = S.__qualname__ = name
    S.__doc__ = doc
    return contract(S)


XIMPA = update_step("ximpa_step", ximpa, "assumed by tm2, proved of ximpa by its own contract, but for: no network on the way is islanded")
XIMPAR = update_step("ximpar_step", ximpar, "assumed by tm2, proved of ximpar by its own contract, but for: no network on the way is islanded")


def program_step(fn, names, rows, cols, doc):
    class S(Contract):
        file, func = f"monte_carlo/{fn}.py", fn
        assumed, modular, symbolic, concrete, props = True, False, True, False, ()

        @staticmethod
        def args(E):
            return opaque(E, names)

        @staticmethod
        def spec(E, o):
            n1, nl = o.NX + 1, o.LP.shape[0]
            M, N1 = rows * n1 + 2 * nl, 2 * o.NX + cols * n1 + 2 * nl
            N = N1 + n1
            return (M, N, N1, E.arr("A", (200, 250), "r"), E.arr("XOB", (250,), "r"), E.arr("XOBI", (2, 250), "r"), E.arr("IBAS", (M,), "i"),
                    E.arr("BS", (200,), "r"), E.arr("B", (200,), "r"), E.arr("B1", (M,), "r"), E.arr("TAB", (M, N), "r")), {}

    S.__name__ = S.__qualname__ = fn + "_step"
    S.__doc__ = doc
    return contract(S)


CONNLS = program_step("connls", "BC INJ INJB NX NR LT BLP LP BN LOD NLS", 4, 4, "the linear program with shared losses, whatever it is")
CONLS = program_step("conls", "BC INJ NX NR LT BLP LP BN LOD NLS", 5, 6, "the linear program of least curtailment, whatever it is")


@contract
class linp_step(Contract):
    """a solution, whatever it is"""
    file = "monte_carlo/linp.py"
    func = "linp"
    assumed, modular, symbolic, concrete, props = True, False, True, False, ()
    modifies = ("XOB", "IBAS", "BS")

    @staticmethod
    def args(E):
        return opaque(E, "M N A XOB XOBI IBAS BS LCLOCK N1")

    @staticmethod
    def spec(E, o):
        return (o.N1, E.arr("TAB", (o.M, o.M), "r")), {"XOB": E.arr("newXOB", o.XOB.shape, "r"), "IBAS": E.arr("newIBAS", o.IBAS.shape, "i"),
                                                      "BS": E.arr("newBS", o.BS.shape, "r")}


@contract
class net_step(Contract):
    """the solution read off, whatever it is (contract net)"""
    file = "monte_carlo/net.py"
    func = "net"
    assumed, modular, symbolic, concrete, props = True, False, True, False, ()
    modifies = ("RES",)

    @staticmethod
    def args(E):
        return opaque(E, "B B1 RES IBAS BS M N")

    @staticmethod
    def spec(E, o):
        return None, {"RES": E.arr("newRES", o.RES.shape, "r")}


def blind_step(C, result, doc):
    """the function's own preconditions; nothing of its result but its shape"""
    class S(Contract):
        file, func = C.file, C.func
        assumed, modular, symbolic, concrete, props = True, False, True, False, ()
        args, requires = C.args, C.requires

        @staticmethod
        def spec(E, o):
            return result(E, o), {}

    S.__name__ = S.__qualname__ = C.func + "_step"
    S.__doc__ = doc
    return contract(S)


ASSIGN = blind_step(assign, lambda E, o: (E.arr("INJ1", (o.NN,), "r"), E.arr("LODC", (o.NN,), "r")), "the shortage shared (contract assign)")
THETA = blind_step(theta, lambda E, o: E.arr("THET", (o.Z.shape[0],), "r"), "the angles (contract theta)")
THETAC = blind_step(thetac, lambda E, o: E.arr("THETC", (o.LT.shape[0],), "r"), "the angles by area (contract thetac)")
FLO = blind_step(flo, lambda E, o: (E.arr("SFLOW", (o.THET.shape[0],), "r"), E.arr("FLOW", (o.LP.shape[0],), "r")), "the flows (contract flo)")


@contract
class tm2_flow(Contract):
    file = "monte_carlo/tm2.py"
    func = "tm2"
    symbolic = True
    concrete = False
    modular = False
    props = ["C10", "C11", "C12", "C13", "C24"]
    modifies = ("BN",)
    callees = {"ximpa": XIMPA, "ximpar": XIMPAR, "connls": CONNLS, "conls": CONLS, "linp": linp_step, "net": net_step, "assign": ASSIGN,
               "theta": THETA, "thetac": THETAC, "flo": FLO}
    traces = ("theta_step", "thetac_step", "flo_step", "assign_step", "connls_step", "conls_step", "linp_step", "net_step")

    @staticmethod
    def args(E):
        n, nl, m = E.dim("NOAREA", 2), E.dim("NLINES", 1), E.dim("NUNITS", 1)
        shape = dict(BN=((n, 5), "r"), LP=((nl, 3), "i"), BLP=((nl, 3), "r"), BLP0=((nl,), "r"), BB=((n, n), "r"), ZB=((n, n), "r"),
                     LT=((n,), "i"), BNS=((n, 6), "r"), PLNDST=((m,), "r"), PCTAVL=((m,), "r"))
        return {x: E.arr(x, *shape[x]) if x in shape else E.real_var(x) if x == "LCLOCK" else 0 if x == "IOI" else E.int(x) for x in TM2}

    forget = ("IEQ",)

    @staticmethod
    def ghost(E, o):
        """the place of each area in the numbering"""
        return dict(pos=E.arr("pos", (o.BN.shape[0],), "i"))

    @staticmethod
    def unit(E, o, l):
        pos = E.ghost.pos
        return lambda i: E.toint(pos[o.LP[l, 1]] == i) - E.toint(pos[o.LP[l, 2]] == i)

    @staticmethod
    def mixed(E, o, upto, i, j):
        """the matrix with the first lines as drawn and the others in their base state"""
        e = lambda l: tm2_flow.unit(E, o, l)
        return o.BB[i, j] + E.sum(0, upto, lambda l: (o.BLP[l, 0] - o.BLP0[l]) * e(l)(i) * e(l)(j))

    @staticmethod
    def requires(E, o):
        n, pos = o.BN.shape[0], E.ghost.pos
        nx = n - 1
        return network_in_order(E, o) + [
            ("places", E.forall((0, n), lambda a: E.And(0 <= pos[a], pos[a] < n, o.LT[pos[a]] == a, pos[o.LT[a]] == a))),
            ("the reference alone has the last place", E.forall((0, n), lambda a: (pos[a] == nx) == (a == o.NR))),
        ]

    @staticmethod
    def invariants(E):
        def lines(o, v, l):
            n, pos = o.BN.shape[0], E.ghost.pos
            nx = n - 1
            block = lambda x, y: E.forall((0, n), (0, n), lambda i, j: E.Implies(E.Or(i == nx, j == nx), lambda: x[i, j] == y[i, j]))
            return [
                ("the numbering", E.forall((0, n), lambda a: v.IEQ[a] == pos[a])),
                ("the matrix of the lines so far", E.forall((0, nx), (0, nx), lambda i, j: E.eq(v.BB[i, j], tm2_flow.mixed(E, o, l, i, j)))),
                ("its inverse", E.forall((0, nx), (0, nx), lambda i, j: is_inverse(
                    E, nx, lambda a, m: v.ZB[a, m], lambda m, b: v.BB[m, b], i, j))),
                ("symmetric", E.forall((0, n), (0, n), lambda i, j: E.eq(v.ZB[i, j], v.ZB[j, i]))),
                ("the last row and column", E.And(block(v.BB, o.BB), block(v.ZB, o.ZB))),
            ]
        return [lines]

    @staticmethod
    def spec(E, o):
        n = o.BN.shape[0]
        return (E.fn((o.LP.shape[0],), lambda l: E.any()), E.any()), {
            "BN": E.fn((n, 5), lambda a, c: E.any())}

    @staticmethod
    def overload(E, o, flows, into):
        """some line carries more than its limit in that direction, or some area sends or takes more than its own"""
        n, nl = o.BN.shape[0], o.LP.shape[0]
        return E.Or(E.exists((0, nl), lambda l: E.Or(E.And(flows[l] >= 0, flows[l] > o.BLP[l, 1]), E.And(flows[l] < 0, -flows[l] > o.BLP[l, 2]))),
                    E.exists((0, n), lambda a: E.Or(E.And(into[a] >= 0, into[a] > o.BN[a, 3]), E.And(into[a] < 0, -into[a] > o.BN[a, 4]))))

    @staticmethod
    def ensures(E, o, n, r):
        N, nl = o.BN.shape[0], o.LP.shape[0]
        nx, n1 = N - 1, N
        c = E.calls
        FLOW, INDIC = r
        one = lambda x, f: (x, len(c.get(f, ())) == 1 and c[f][0].cond == True)
        out = [one("one sharing of the shortages", "assign_step"), one("one vector of angles", "theta_step"),
               one("the angles of the areas once", "thetac_step"), one("one vector of flows", "flo_step")]
        if not all(f for _, f in out):
            return out
        sh, an, ar, fl = (c[f + "_step"][0] for f in ("assign", "theta", "thetac", "flo"))
        full = lambda i, j: tm2_flow.mixed(E, o, nl, i, j)
        out += [
            ("the injections, in the numbering", E.forall((0, N), lambda i: sh.args.INJ[i] == o.BN[o.LT[i], 2])),
            ("the loads", E.forall((0, N), lambda a: sh.args.LOD[a] == o.BN[a, 1])),
            ("the numbering", E.equal(sh.args.LT, o.LT)), ("the policy", E.And(sh.args.NLS == o.NLS, sh.args.NN == N)),
            ("angles from the inverse of the matrix of the lines drawn", E.forall((0, nx), (0, nx), lambda i, j: is_inverse(
                E, nx, lambda a, m: an.args.Z[a, m], full, i, j))),
            ("angles without the reference", E.forall((0, N), lambda i: E.And(an.args.Z[i, nx] == o.ZB[i, nx], an.args.Z[nx, i] == o.ZB[nx, i]))),
            ("angles from the shared injections", E.forall((0, N), lambda i: an.args.INJ[i] == sh.ret[0][i])),
            ("these angles, by area", E.And(E.equal(ar.args.THET, an.ret), E.equal(ar.args.LT, o.LT))),
            ("flows of these lines at these angles", E.And(E.equal(fl.args.LP, o.LP), E.equal(fl.args.BLP, o.BLP), E.equal(fl.args.THET, ar.ret))),
        ]
        into, flows = fl.ret
        over = tm2_flow.overload(E, o, flows, into)
        out += [(f"column {x} stays", E.forall((0, N), lambda a: n.BN[a, x] == o.BN[a, x])) for x in (0, 3, 4)]
        out += [
            ("the verdict", INDIC == E.ite(over, lambda: 1, lambda: 0)),
            ("no overload: these flows", E.Implies(INDIC == 0, lambda: E.forall((0, nl), lambda l: FLOW[l] == flows[l]))),
            ("no overload: these injections", E.Implies(INDIC == 0, lambda: E.forall((0, N), lambda i: n.BN[o.LT[i], 1] == sh.ret[0][i]))),
            ("no overload: these curtailments", E.Implies(INDIC == 0, lambda: E.forall((0, N), lambda a: n.BN[a, 2] == sh.ret[1][a]))),
        ]
        for prog, on in (("connls", o.NLS != 0), ("conls", o.NLS == 0)):
            k = c.get(prog + "_step", ())
            out.append((f"{prog} on an overload, under its policy", len(k) == 1 and k[0].cond == E.And(INDIC == 1, on)))
            if len(k) != 1:
                continue
            a, cond = k[0].args, k[0].cond
            args = [("the lines drawn", E.And(E.equal(a.LP, o.LP), E.equal(a.BLP, o.BLP))), ("the numbering", E.And(E.equal(a.LT, o.LT), a.NR == o.NR, a.NX == nx)),
                    ("the injections asked for", E.forall((0, N), lambda i: a.INJ[i] == o.BN[o.LT[i], 2])), ("the loads", E.forall((0, N), lambda i: a.LOD[i] == o.BN[i, 1])),
                    ("the limits of the areas", E.forall((0, N), lambda i: E.And(a.BN[i, 3] == o.BN[i, 3], a.BN[i, 4] == o.BN[i, 4]))), ("the policy", a.NLS == o.NLS),
                    ("the matrix of the lines drawn", E.forall((0, nx), (0, nx), lambda i, j: E.eq(a.BC[i, j], full(i, j))))]
            if prog == "connls":
                args.append(("the injection of the reference", a.INJB[o.NR] == o.BN[o.NR, 2]))
            out += [(f"{prog}: {x}", E.Implies(cond, f)) for x, f in args]
        if not all(len(c.get(f, ())) == 2 for f in ("linp_step", "net_step")):
            return out + [("a solution and its reading per program", False)]
        for i, prog in enumerate(("connls", "conls")):
            k, li, ne = c[prog + "_step"][0], c["linp_step"][i], c["net_step"][i]
            on = k.cond
            M, NN, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = k.ret
            out += [(f"{prog}: solved as built", E.Implies(on, E.And(li.cond == on, li.args.M == M, li.args.N == NN, li.args.N1 == N1, E.equal(li.args.A, A), E.equal(
                        li.args.XOB, XOB), E.equal(li.args.XOBI, XOBI), E.equal(li.args.IBAS, IBAS), E.equal(li.args.BS, BS)))),
                    (f"{prog}: its solution read", E.Implies(on, E.And(ne.cond == on, ne.args.M == M, ne.args.N == N1, E.equal(ne.args.B, B), E.equal(
                        ne.args.B1, B1), E.equal(ne.args.IBAS, li.mut.IBAS), E.equal(ne.args.BS, li.mut.BS))))]
        R, S = c["net_step"][0].mut.RES, c["net_step"][1].mut.RES
        shared, least = c["connls_step"][0].cond, c["conls_step"][0].cond
        most = lambda x, y: E.ite(x >= y, lambda: x, lambda: y)
        inj0 = lambda i: -R[2 * nx + i, 0]
        cut1 = lambda i: S[2 * nx + 2 * n1 + i, 0]
        out += [
            ("connls: injections", E.Implies(shared, lambda: E.forall((0, N), lambda i: n.BN[o.LT[i], 1] == inj0(i)))),
            ("connls: curtailments", E.Implies(shared, lambda: E.forall((0, N), lambda i: n.BN[o.LT[i], 2] == most(inj0(i) - o.BN[o.LT[i], 2], E.real(0))))),
            ("connls: flows", E.Implies(shared, lambda: E.forall((0, nl), lambda l: FLOW[l] == R[4 * nx + 2 + l, 0]))),
            ("conls: curtailments", E.Implies(least, lambda: E.forall((0, N), lambda i: n.BN[o.LT[i], 2] == cut1(i)))),
            ("conls: injections", E.Implies(least, lambda: E.forall((0, N), lambda i: n.BN[o.LT[i], 1] == S[
                2 * nx + 3 * n1 + i, 0] - o.BN[o.LT[i], 1] + cut1(i)))),
            ("conls: flows", E.Implies(least, lambda: E.forall((0, nl), lambda l: FLOW[l] == S[6 * n1 - 2 + l, 0]))),
        ]
        return out
