"""The hour composed of its steps (C27, C02, C05): every called function is represented by its
contract, the draws and the load flow by their results, whatever those are."""
from contracts import gens as G  # noqa: F401
from contracts import leaf, stats
from contracts.calendar import filem
from contracts.leaf import M31, _is_jent
from contracts.network import base_network, network_of_hour
from pyvc.dsl import ANY, Contract, NS, contract

HOUR = ("ATRIB CLOCK MFA JSTEP JFREQ NUMINQ IPOINT EVNTS MXPLHR PROBG RATING DERATE PLNDST CAPOWN CAPCON PROBL JENT INTCH MXCRIT JCRIT "
        "NFCST HRLOAD FCTERR LSFLG LOLGHA LOLGPA LOLGHP LOLGPP LOLTHA LOLTHP LOLTPA LOLTPP MGNGHA MGNGPA MGNGHP MGNGPP MGNTHA MGNTHP "
        "MGNTPA MGNTPP LINENO LP LT BB ZB BLP0 BLPA IOI BN NR NLS IGSEED ILSEED").split()
FLOW = ("IFLAG JFLAG CLOCK JHOUR IOI BN BLPA BLP0 BB LT ZB LP NR STMULT LNSTAT NLS TRNSFR TRNSFJ SYSCON CAPREQ PLNDST PCTAVL").split()
HA = [q + c + w + "A" for q in ("LOL", "MGN") for c in "GT" for w in "HP"]
HP = [q + c + w + "P" for q in ("LOL", "MGN") for c in "GT" for w in "HP"]


@contract
class transm(Contract):
    """the load flow answers something, and leaves the network in order (proved of transm: contract transm_hour)"""
    file = "monte_carlo/transm.py"
    func = "transm"
    assumed = True
    symbolic = True
    concrete = False
    props = ()
    modifies = ("BB", "ZB", "LT", "BLP0", "BN")

    @staticmethod
    def args(E):
        return {x: E.opaque(x) for x in FLOW}

    @staticmethod
    def requires(E, o):
        return [("starts with the firm transfers", o.JFLAG == 0)] + network_of_hour(E, o)

    @staticmethod
    def spec(E, o):
        n, nl = o.SYSCON.shape[0], o.LNSTAT.shape[0]
        new = {x: E.arr("new" + x, o[x].shape, o[x].kind) for x in transm.modifies}
        B = new["BN"]
        new["BN"] = E.fn(o.BN.shape, lambda a, c: E.ite(E.Or(c == 1, c == 2), lambda: B[a, c], lambda: o.BN[a, c]))
        E.facts += transm.in_order(E, o, NS(new))
        return (E.int("JFLAG"), E.arr("FLOW", (nl,), "r"), E.arr("SADJ", (n,), "r")), new

    @staticmethod
    def in_order(E, o, new):
        return [f for _, f in base_network(E, o.NR, new.LT, new.BB, new.ZB)] + [E.forall((0, new.BLP0.shape[0]), lambda l: new.BLP0[l] != 0)]


@contract
class transm_any(transm):
    """the load flow as a step that answers anything"""
    symbolic = False

    @staticmethod
    def requires(E, o):
        return [("starts with the firm transfers", o.JFLAG == 0)]

    @staticmethod
    def spec(E, o):
        n, nl = o.SYSCON.shape[0], o.LNSTAT.shape[0]
        return (E.int("JFLAG"), E.arr("FLOW", (nl,), "r"), E.arr("SADJ", (n,), "r")), {
            x: E.arr("new" + x, o[x].shape, o[x].kind) for x in transm.modifies}


def _hour(levels, network, focus=None):
    """network: the data of a system in order, so that the load flow's preconditions hold at every level"""
    step = transm if network else transm_any

    class H(Contract):
        file = "monte_carlo/hour.py"
        func = "hour"
        symbolic = True
        concrete = False
        modular = False
        shards = 4 if levels > 1 else 1
        parts = {"ret": ["C02"], "mut:ATRIB": ["C02"], "mut:EVNTS": ["C02"], "mut:IGSEED": ["C05"], "mut:ILSEED": ["C05"],
                 **{"mut:" + x: ["C27", "C14"] for x in HA + HP + ["LSFLG"]}, "safety": ["C27", "C02"], "frame": ["C27", "C02", "C05"],
                 "req": ["C27", "C02"], "ens": ["C27"], "ens2": ["C02"], "ens5": ["C05"]}
        props = ["C27"]
        modifies = ("ATRIB", "EVNTS", "IGSEED", "ILSEED", "LSFLG", *HA, *HP, "BB", "ZB", "LT", "BLP0", "BN")
        ghost = filem.ghost
        callees = {"transm": step}
        opaque = {
            "gstate": lambda E, o, r, m: [("seeds in range", E.forall((0, o.IGSEED.shape[0]), lambda i: E.And(0 <= m.IGSEED[i], m.IGSEED[i] < M31)))],
            "sumcap": None,
            "lstate": lambda E, o, r, m: [("one state in 1..6", E.forall((0, o.PROBL.shape[1]), lambda i: E.And(1 <= r[i], r[i] <= 6))),
                                       ("seeds in range", E.forall((0, o.ILSEED.shape[0]), lambda i: E.And(0 <= m.ILSEED[i], m.ILSEED[i] < M31)))],
            "findtn": None,
            "findld": None, "transm_any": None, "hrstat": None, "pkstat": None,
        }
        if network:
            opaque["findld"] = lambda E, o, r, m: [
                ("loads", E.forall((0, o.HRLOAD.shape[0]), lambda a: r[a] >= 0)),
                ("some load", E.Implies(E.now("NLS") == 0, lambda: E.sum(0, o.HRLOAD.shape[0], lambda a: r[a]) > 0))]
            opaque["transm"] = lambda E, o, r, m: [("the network stays in order", E.And(*transm.in_order(E, o, m))),
                                         ("its areas stay", E.forall((0, m.BN.shape[0]), lambda a: E.And(*[m.BN[a, c] == o.BN[a, c] for c in (0, 3, 4)])))]

        @staticmethod
        def args(E):
            n, m, nl, nc, ne = E.dim("NOAREA", 2 if network else 1), E.dim("NUNITS"), E.dim("NLINES"), E.dim("NCON"), E.dim("NCELL", 4)
            lev = levels
            shape = dict(ATRIB=((2,), "r"), EVNTS=((ne,), "r"), MXPLHR=((365,), "i"), PROBG=((m, 2), "r"), RATING=((m,), "r"),
                         DERATE=((m,), "r"), PLNDST=((m,), "r"), CAPOWN=((n, m), "r"), CAPCON=((m,), "i"), PROBL=((6, nl), "r"),
                         JENT=((n, n), "i"), INTCH=((nc, 365), "r"), JCRIT=((0,), "r"), HRLOAD=((n, 8760), "r"), FCTERR=((n, lev), "r"),
                         LSFLG=((n,), "r"), LINENO=((n, n), "i"), LP=((nl, 3), "i"), LT=((n,), "i"), BB=((n, n), "r"), ZB=((n, n), "r"),
                         BLP0=((nl,), "r"), BLPA=((nl, 18), "r"), BN=((n, 5), "r"), IGSEED=((E.dim("NG"),), "i32"), ILSEED=((E.dim("NL"),), "i32"))
            d = {}
            for x in HOUR:
                if x in HA:
                    d[x] = E.arr(x, (n, lev), "r")
                elif x in HP:
                    d[x] = E.arr(x, (lev,), "r")
                elif x in shape:
                    d[x] = E.arr(x, *shape[x])
                elif x == "CLOCK":
                    d[x] = E.real_var(x)
                elif x == "NFCST":
                    d[x] = lev
                elif x == "MXCRIT":
                    d[x] = 0
                elif x == "JFREQ":
                    d[x] = 1
                else:
                    d[x] = E.int(x)
            return d

        @staticmethod
        def filed(E, o):
            return NS(dict(MFA=o.MFA, ATRIB=E.fn((2,), lambda i: E.ite(i == 0, lambda: o.CLOCK + E.real(o.JSTEP), lambda: o.ATRIB[1])),
                           NUMINQ=o.NUMINQ, IPOINT=o.IPOINT, EVNTS=o.EVNTS))

        @staticmethod
        def requires(E, o):
            n, m, nl = o.LSFLG.shape[0], o.RATING.shape[0], o.BLP0.shape[0]
            wired = [
                ("line ends", E.forall((0, nl), lambda l: E.And(0 <= o.LP[l, 1], o.LP[l, 1] < n, 0 <= o.LP[l, 2], o.LP[l, 2] < n, o.LP[l, 1] != o.LP[l, 2]))),
                ("base lines conduct", E.forall((0, nl), lambda l: o.BLPA[l, 0] != 0)),
                ("reference", E.And(0 <= o.NR, o.NR < n)), ("area numbers", E.forall((0, n), lambda i: o.BN[i, 0] == E.real(i))),
                ("loads", E.And(E.forall((0, n), (0, 8760), lambda a, h: o.HRLOAD[a, h] >= 0), E.forall((0, n), (0, levels), lambda a, f: o.FCTERR[a, f] >= 0))),
                ("some load to share a shortage", E.Implies(o.NLS == 0, lambda: E.forall(
                    (0, 8760), (0, levels), lambda h, f: E.sum(0, n, lambda a: o.HRLOAD[a, h] * o.FCTERR[a, f]) > 0))),
                ("table sizes", E.And(5 * n + 2 * nl <= 200, 2 * (n - 1) + 7 * n + 2 * nl <= 250)),
                ("one limit per area, in both directions", E.forall((0, n), lambda a: E.And(o.BN[a, 3] == o.BN[a, 4], o.BN[a, 3] >= 0)))] if network else []
            return wired + filem.requires(E, H.filed(E, o)) + [
                ("clock", o.CLOCK >= 0), ("step", o.JSTEP >= 1),
                ("peak hours", E.forall((0, 365), lambda d: E.And(0 <= o.MXPLHR[d], o.MXPLHR[d] < 8760))),
                ("seeds", E.And(m <= o.IGSEED.shape[0], nl <= o.ILSEED.shape[0])),
                ("unit seeds", E.forall((0, o.IGSEED.shape[0]), lambda i: E.And(0 <= o.IGSEED[i], o.IGSEED[i] < M31))),
                ("line seeds", E.forall((0, o.ILSEED.shape[0]), lambda i: E.And(0 <= o.ILSEED[i], o.ILSEED[i] < M31))),
                ("locations", E.forall((0, m), lambda i: E.And(0 <= o.CAPCON[i], o.CAPCON[i] < n))),
                ("line numbers", E.forall((0, n), (0, n), lambda a, b: E.And(-1 <= o.LINENO[a, b], o.LINENO[a, b] < nl))),
            ] + _is_jent(E, o.JENT, o.INTCH.shape[0])

        @staticmethod
        def hours(E, o):
            """hour of the year, its day, and the hour the system is studied at"""
            y = E.floor(o.CLOCK - 8760 * E.real(E.floor(o.CLOCK / 8760))) - 1
            h = E.ite(y < 0, lambda: y + 8760, lambda: y)
            d = E.idiv(h, 24)
            return h, d, E.ite(o.JSTEP == 24, lambda: o.MXPLHR[d], lambda: h)

        @staticmethod
        def course(E, o):
            """what happens level by level: conditions and counters"""
            n = o.LSFLG.shape[0]
            _, d, h = H.hours(E, o)
            con = E.calls["sumcap"][0].ret[2]
            cur = {x: o[x] for x in HA + HP + ["LSFLG"]}
            on = True
            out = []
            for lev in range(levels):
                req, flo = E.calls["findld"][lev], E.calls[step.__name__][lev]
                mar = lambda a, req=req: E.trunc(con[a] - req.ret[a])
                short = E.sum(0, n, lambda a: E.ite(mar(a) < 0, lambda: 1, lambda: 0))
                some = E.And(on, short != 0)
                flow = E.And(some, short != n)
                jf, _, sadj = flo.ret
                after = lambda a, s=sadj: E.trunc(-s[a])
                left = E.exists((0, n), lambda a: after(a) < 0)
                loss = E.And(some, E.Or(short == n, lambda: E.And(jf != 0, left)))
                st = NS(dict(on=on, flow=flow, loss=loss, peak=E.And(loss, h == o.MXPLHR[d]), cur=cur,
                             marg=E.fn((n,), lambda a, mar=mar, after=after, short=short: E.ite(short == n, lambda: mar(a), lambda: after(a)), "i")))
                out.append(st)
                cur = dict(cur)
                for name, when in (("hrstat", loss), ("pkstat", st.peak)):
                    for x, w in E.calls[name][lev].mut.__dict__.items():
                        cur[x] = E.fn(w.shape, lambda *i, w=w, X=cur[x], c=when: E.ite(c, lambda: w[i] if len(i) > 1 else w[i[0]],
                                                                                     lambda: X[i] if len(i) > 1 else X[i[0]]))
                on = loss
            return out, cur

        @staticmethod
        def spec(E, o):
            fa = H.filed(E, o)
            (num, mfa, ip), m2 = filem.spec(E, fa)
            mut = {"EVNTS": m2["EVNTS"], "ATRIB": fa.ATRIB, "IGSEED": E.calls["gstate"][0].mut.IGSEED, "ILSEED": E.calls["lstate"][0].mut.ILSEED}
            _, cur = H.course(E, o)
            mut.update(cur)
            for x in transm.modifies:
                X = o[x]
                mut[x] = E.fn(X.shape, lambda *i: ANY, X.kind)
            return (num, mfa, ip, ANY), mut

        @staticmethod
        def ensures(E, o, n, r):
            h, d, at = H.hours(E, o)
            steps, _ = H.course(E, o)
            c = dict(E.calls, transm=E.calls[step.__name__])
            g, s, l, t = c["gstate"][0], c["sumcap"][0], c["lstate"][0], c["findtn"][0]
            out = [("ens2: the hour of the year is handed back", E.mod(r[3] - h, 8760) == 0),
                   ("ens2: what is handed back is an hour of the year", E.And(-1 <= r[3], r[3] < 8760)),
                   ("ens2: the hour lies in 0..8759", E.And(0 <= at, at < 8760)),
                   ("one draw of the units, of the lines", E.And(len(c["gstate"]) == 1, len(c["lstate"]) == 1, len(c["sumcap"]) == 1, len(c["findtn"]) == 1)),
                   ("the draws are made every hour", E.And(g.cond, s.cond, l.cond, t.cond))]
            for x in ("IGSEED", "PROBG", "RATING", "DERATE", "PLNDST"):
                out.append((f"ens5: units drawn from {x}", E.equal(g.args[x], o[x])))
            for x in ("ILSEED", "PROBL"):
                out.append((f"ens5: lines drawn from {x}", E.equal(l.args[x], o[x])))
            out += [("capacities are those drawn", E.equal(s.args.AVAIL, g.ret[1])), ("shares", E.equal(s.args.CAPOWN, o.CAPOWN)),
                    ("locations", E.equal(s.args.CAPCON, o.CAPCON)), ("contracts of the day", E.And(t.args.JDAY == d, E.equal(t.args.JENT, o.JENT),
                                                                                                   E.equal(t.args.INTCH, o.INTCH)))]
            for x in ("findld", "transm", "hrstat", "pkstat"):
                out.append((f"at most one {x} per level", len(c[x]) == levels))
            for i in range(levels):
                st, f, q, hs, pk = steps[i], c["transm"][i], c["findld"][i], c["hrstat"][i], c["pkstat"][i]
                out.append((f"level {i}: the loads are looked up", E.Implies(st.on, q.cond)))
                out.append((f"level {i}: loads of this level and hour",
                            E.Implies(q.cond, lambda: E.And(q.args.NFACT == i, q.args.JHOUR == at, E.equal(q.args.HRLOAD, o.HRLOAD), E.equal(q.args.FCTERR, o.FCTERR)))))
                out.append((f"level {i}: a load flow exactly when some area is short and not all", f.cond == st.flow))
                want = dict(CLOCK=o.CLOCK, JHOUR=at, TRNSFR=t.ret, TRNSFJ=s.ret[3], SYSCON=s.ret[2], CAPREQ=q.ret, LNSTAT=l.ret,
                            STMULT=E.fn((o.BLP0.shape[0], 2), lambda *k: E.real(1)), PCTAVL=g.ret[0], PLNDST=o.PLNDST, NR=o.NR, NLS=o.NLS, LP=o.LP,
                            BLPA=o.BLPA)
                for x, w in want.items():
                    out.append((f"level {i}: the load flow works on this hour's {x}", E.Implies(f.cond, lambda: E.equal(f.args[x], w))))
                if i == 0:
                    out.append(("the first load flow starts from the base network", E.Implies(f.cond, lambda: f.args.IFLAG != 1)))
                out.append((f"level {i}: the hour counts exactly when a shortage is left", hs.cond == st.loss))
                out.append((f"level {i}: and at the peak hour for the peak", pk.cond == st.peak))
                for y, S in ((hs, stats.hrstat), (pk, stats.pkstat)):
                    out.append((f"level {i}: {S.func} gets the margins", E.Implies(y.cond, lambda: E.And(y.args.NST == i, E.equal(y.args.MARGIN, st.marg)))))
                    for x in S.modifies:
                        out.append((f"level {i}: {S.func} adds to {x}", E.Implies(y.cond, lambda: E.equal(y.args[x], st.cur[x]))))
            return out

    H.__name__ = H.__qualname__ = f"hour_{levels}" + ("_network" if focus else "")
    H.focus = focus
    return contract(H)


hour_1 = _hour(1, True)
hour_5 = _hour(5, False)
hour_5_network = _hour(5, True, ["precondition of transm"])
