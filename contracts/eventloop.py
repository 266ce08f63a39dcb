"""The event loop (C02, C01): an invariant of the whole run, whatever the handlers do to the statistics."""
from contracts import hourly
from contracts.calendar import filem, is_sorted, wf
from contracts.simulation import YEAR
from pyvc.dsl import Contract, NS, contract

CONTRL = """RFLAG CLOCK NUMINQ IPOINT EVNTS ATRIB FINISH ITAB INDX SUSTAT DPLOLE EUES HLOLE LSTEP NAMA NFCST PLNDST JHOUR JPLOUT IQ
RATES NHRSYR JSTEP JFREQ MXPLHR PROBG RATING DERATE CAPOWN CAPCON PROBL JENT INTCH MXCRIT JCRIT HRLOAD FCTERR LSFLG LINENO LP LT BB ZB
BLP0 BLPA IOI BN NR NLS CVTEST SSQ NORR XLAST INTV INTVT IOJ KVLOC KVSTAT KVTYPE KVWHEN KWHERE LOLGHA LOLGPA LOLGHP LOLGPP LOLTHA LOLTHP
LOLTPA LOLTPP MGNGHA MGNGPA MGNGHP MGNGPP MGNTHA MGNTHP MGNTPA MGNTPP""".split()
SUMS = [q + c + w + a for q in ("SGN", "SOL") for c in "GST" for w, a in ("HA", "HP", "PA", "PP")] + \
       [q + c + w + a for q in ("SWL", "SWN") for c in "GST" for w, a in ("HA", "HP", "PA", "PP")]
CONTRL += SUMS + ["XNEWA", "XNEWP", "IGSEED", "ILSEED"]
EVENTS = """NUMBER RFLAG CLOCK ATRIB MFA NUMINQ IPOINT EVNTS PLNDST JHOUR JPLOUT IQ RATES NHRSYR JSTEP JFREQ MXPLHR PROBG RATING DERATE CAPOWN
CAPCON PROBL JENT INTCH MXCRIT JCRIT NFCST HRLOAD FCTERR LSFLG LOLGHA LOLGPA LOLGHP LOLGPP LOLTHA LOLTHP LOLTPA LOLTPP MGNGHA MGNGPA MGNGHP
MGNGPP MGNTHA MGNTHP MGNTPA MGNTPP LINENO LP LT BB ZB BLP0 BLPA IOI BN NR NLS CVTEST DPLOLE EUES FINISH HLOLE NAMA SSQ SUSTAT XLAST INTV
INTVT IOJ KVLOC KVSTAT KVTYPE KVWHEN KWHERE LSTEP NORR INDX ITAB""".split() + SUMS + ["XNEWA", "XNEWP", "IGSEED", "ILSEED"]
REPORT = "IYEAR ITAB INDX SUSTAT DPLOLE EUES HLOLE LSTEP NAMA NFCST".split() + SUMS + ["XNEWA", "XNEWP"]
CALENDAR = ("RFLAG", "CLOCK", "NUMINQ", "IPOINT", "EVNTS", "ATRIB", "NUMBER", "MFA", "IYEAR")
WHOLE = ("RFLAG", "NUMINQ", "IPOINT", "NUMBER", "MFA", "JSTEP", "NHRSYR", "JHOUR", "IQ", "INTVT", "ITAB")
HANDED = ("JSTEP", "NHRSYR", "JHOUR", "IQ", "INTVT", "ITAB", "FINISH", "SSQ", "XLAST")


def value(E, x):
    return E.int(x) if x in WHOLE else E.real_var(x) if x in ("CLOCK", "FINISH", "SSQ", "XLAST") else \
        E.arr(x, (E.dim("NCELL", 4),), "r") if x == "EVNTS" else E.arr(x, (2,), "r") if x == "ATRIB" else \
        E.arr(x, (E.dim("NUNITS"),), "r") if x == "RATING" else E.arr(x, (E.dim("NUNITS"), 4), "r") if x == "RATES" else E.opaque(x)


def own(E, o, names):
    """every other argument is the caller's current quantity of that name"""
    now = E.loop if E.loop is not None else E.top
    out = [(f"the current {x} is handed on", getattr(o[x], "tag", None) == x) for x in names
           if x not in CALENDAR and x not in HANDED and x not in ("RATING", "RATES")]
    out += [(f"the current {x} is handed on", o[x] == now[x]) for x in names if x in HANDED]
    out += [(f"the current {x} is handed on", E.equal(o[x], now[x])) for x in names if x in ("RATING", "RATES")]
    return out


def ready(E, o, g, clock):
    """the calendar between two events: sorted, nothing before the clock, every kind one of the four"""
    at = lambda k: o.EVNTS[g.seq[k] + 1]
    kind = lambda k: o.EVNTS[g.seq[k] + 2]
    return wf(E, o, g) + [
        ("sorted", is_sorted(E, o.EVNTS, g.seq, g.n)),
        ("nothing pending lies before the clock", E.forall((0, g.n), lambda k: clock <= at(k))),
        ("kinds", E.forall((0, g.n), lambda k: E.Or(*[kind(k) == q for q in (1, 2, 3, 4)]))),
        ("times of events", E.forall((0, g.n), lambda k: at(k) >= 0)),
    ]


def steps(E, o):
    return [("steps", E.And(o.JSTEP >= 1, o.NHRSYR >= 0)), ("season", E.And(-1 <= o.IQ, o.IQ <= 3)),
            ("hour of the year", E.And(-1 <= o.JHOUR, o.JHOUR < 8760))]


def handler(name, kind, names, period, results, before=None, after=None, doc=""):
    """what the dispatcher relies on: the handler books exactly one event of its kind, `period` hours later; the rest is in
    the handler's own contract (proved there)"""
    class H(Contract):
        file = f"monte_carlo/{name}.py"
        func = name
        assumed = True
        modular = False
        symbolic = True
        concrete = False
        props = ()
        modifies = ("EVNTS", "ATRIB")
        ghost = filem.ghost

        @staticmethod
        def args(E):
            return {x: value(E, x) for x in names}

        @staticmethod
        def filed(E, o):
            return NS(dict(MFA=o.MFA, ATRIB=E.fn((2,), lambda i: E.ite(i == 0, lambda: o.CLOCK + period(E, o), lambda: E.real(kind))),
                           NUMINQ=o.NUMINQ, IPOINT=o.IPOINT, EVNTS=o.EVNTS))

        @staticmethod
        def requires(E, o):
            return filem.requires(E, H.filed(E, o)) + [
                ("its own kind of event", o.ATRIB[1] == kind), ("clock", o.CLOCK >= 0)] + (before(E, o) if before else []) + own(E, o, names)

        @staticmethod
        def spec(E, o):
            fa = H.filed(E, o)
            (num, mfa, ip), m = filem.spec(E, fa)
            cal = dict(NUMINQ=num, MFA=mfa, IPOINT=ip)
            res = tuple(cal[x] if x in cal else E.real_var("new" + x) if x in ("SSQ", "XLAST") else
                        E.arr("newRATING", (o.RATES.shape[0],), "r") if x == "RATING" else E.int("new" + x) for x in results)
            if after:
                E.facts += [f for _, f in after(E, NS(dict(zip(results, res))))]
            return res, {"EVNTS": m["EVNTS"], "ATRIB": fa.ATRIB}

        @staticmethod
        def ghost_after(E, o):
            return filem.ghost_after(E, H.filed(E, o))

        @staticmethod
        def lemmas(E, o):
            return filem.lemmas(E, H.filed(E, o))

    H.__name__ = H.__qualname__ = name + "_step"
    H.__doc__ = doc
    return contract(H)


HOUR_STEP = handler("hour", 1, hourly.HOUR, lambda E, o: E.real(o.JSTEP), ("NUMINQ", "MFA", "IPOINT", "JHOUR"),
                    before=lambda E, o: [("step", o.JSTEP >= 1)],
                    after=lambda E, r: [("hour of the year", E.And(-1 <= r.JHOUR, r.JHOUR < 8760))],
                    doc="assumed by events, proved of hour by hour_1 and hour_5 (one and five load levels)")
WEEK_STEP = handler("week", 2, ("CLOCK", "ATRIB", "MFA", "NUMINQ", "IPOINT", "EVNTS", "PLNDST", "JHOUR", "JPLOUT"), lambda E, o: 168,
                    ("IPOINT", "MFA", "NUMINQ"), before=lambda E, o: [("hour of the year", E.And(-1 <= o.JHOUR, o.JHOUR < 8760))],
                    doc="assumed by events, proved of week by its own contract")
QUARTR_STEP = handler("quartr", 3, ("IQ", "RATES", "CLOCK", "ATRIB", "NHRSYR", "MFA", "NUMINQ", "IPOINT", "EVNTS"),
                      lambda E, o: E.real(o.NHRSYR), ("IQ", "IPOINT", "MFA", "NUMINQ", "RATING"),
                      before=lambda E, o: [("season", E.And(-1 <= o.IQ, o.IQ <= 3))],
                      after=lambda E, r: [("season", E.And(-1 <= r.IQ, r.IQ <= 3))],
                      doc="assumed by events, proved of quartr by its own contract")
YEAR_STEP = handler("year", 4, YEAR, lambda E, o: 8760, ("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"),
                    doc="assumed by events, proved of year by its own contract (given its statistics are those of a year)")
HANDLERS = {"hour": HOUR_STEP, "week": WEEK_STEP, "quartr": QUARTR_STEP, "year": YEAR_STEP}


@contract
class events(Contract):
    """the dispatcher: the handler of the event's kind, no other, on the current quantities; its answers and no others are
    handed back; the calendar gains exactly the next event of the same kind"""
    file = "monte_carlo/events.py"
    func = "events"
    symbolic = True
    concrete = False
    modular = False
    props = ["C02"]
    parts = {x: ["C02"] for x in ("req", "ret", "mut", "frame", "safety", "lem", "ens")}
    modifies = ("EVNTS", "ATRIB", "RATING")
    ghost = filem.ghost
    callees = HANDLERS
    traces = tuple(h.__name__ for h in HANDLERS.values())
    RETURNS = ("RFLAG", "IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "INTVT", "ITAB", "IQ", "JHOUR")
    FROM = {"RFLAG": "year", "SSQ": "year", "XLAST": "year", "INTVT": "year", "ITAB": "year", "IQ": "quartr", "JHOUR": "hour"}
    RESULTS = {"hour": ("NUMINQ", "MFA", "IPOINT", "JHOUR"), "quartr": ("IQ", "IPOINT", "MFA", "NUMINQ", "RATING"),
               "year": ("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB")}
    KIND = {"hour": 1, "week": 2, "quartr": 3, "year": 4}

    @staticmethod
    def args(E):
        return {x: value(E, x) for x in EVENTS}

    @staticmethod
    def requires(E, o):
        g, L = E.ghost, E.loop
        out = ready(E, o, g, o.CLOCK) + [
            ("its own kind is dispatched", E.real(o.NUMBER) == o.ATRIB[1]),
            ("the kind has a handler", E.And(1 <= o.NUMBER, o.NUMBER <= 4)),
            ("clock", o.CLOCK >= 0),
            ("a free cell", E.And(0 <= o.MFA, o.MFA + 3 < o.EVNTS.shape[0], E.mod(o.MFA, 4) == 0, E.forall((0, g.n), lambda k: g.seq[k] != o.MFA))),
            ("the next free cell is a whole number", E.is_int(o.EVNTS[o.MFA])),
        ] + steps(E, o)
        if L is not None:
            out += [
                ("time does not go back", L.CLOCK <= o.CLOCK),
                ("the clock is the time of the event served", o.CLOCK == o.ATRIB[0]),
                ("it is the event due first", E.And(o.CLOCK == L.EVNTS[L.IPOINT + 1], o.ATRIB[1] == L.EVNTS[L.IPOINT + 2])),
                ("nothing past the horizon is served", o.CLOCK <= o.FINISH + 1),
                ("the run is not over", L.RFLAG != 1)] + own(E, o, EVENTS)
        return out

    @staticmethod
    def filed(E, o):
        """the next event of this kind"""
        period = E.ite(o.NUMBER == 1, lambda: E.real(o.JSTEP), lambda: E.ite(o.NUMBER == 2, lambda: E.real(168), lambda: E.ite(
            o.NUMBER == 3, lambda: E.real(o.NHRSYR), lambda: E.real(8760))))
        return NS(dict(MFA=o.MFA, ATRIB=E.fn((2,), lambda i: E.ite(i == 0, lambda: o.CLOCK + period, lambda: E.real(o.NUMBER))),
                       NUMINQ=o.NUMINQ, IPOINT=o.IPOINT, EVNTS=o.EVNTS))

    @staticmethod
    def spec(E, o):
        fa = events.filed(E, o)
        (num, mfa, ip), m = filem.spec(E, fa)
        cal = dict(NUMINQ=num, MFA=mfa, IPOINT=ip)
        calls = getattr(E, "calls", None)
        if calls is None:       # called from the loop: answers not known further
            real = ("SSQ", "XLAST")
            res = {x: E.real_var("new" + x) if x in real else E.int("new" + x) for x in events.FROM}
            E.facts += [f for _, f in steps(E, NS(dict(JSTEP=o.JSTEP, NHRSYR=o.NHRSYR, IQ=res["IQ"], JHOUR=res["JHOUR"])))]
            rating = E.arr("newRATING", o.RATING.shape, "r")
        else:
            answer = lambda h, x: calls[h + "_step"][0].ret[events.RESULTS[h].index(x)] if h + "_step" in calls else E.any()
            res = {x: E.ite(o.NUMBER == events.KIND[h], lambda: answer(h, x), lambda: o[x]) for x, h in events.FROM.items()}
            R = answer("quartr", "RATING")
            rating = E.fn(o.RATING.shape, lambda u: E.ite(o.NUMBER == 3, lambda: R[u] if R is not E.any() else R, lambda: o.RATING[u]))
        return tuple(cal[x] if x in cal else res[x] for x in events.RETURNS), {"EVNTS": m["EVNTS"], "ATRIB": fa.ATRIB, "RATING": rating}

    @staticmethod
    def ensures(E, o, n, r):
        c = E.calls
        out = [(f"{h} runs exactly on its own events", h + "_step" in c and E.And(len(c[h + "_step"]) == 1, c[h + "_step"][0].cond == (o.NUMBER == k)))
               for h, k in events.KIND.items()]
        return out + [("after: " + a, f) for a, f in steps(E, NS(dict(JSTEP=o.JSTEP, NHRSYR=o.NHRSYR, IQ=r[8], JHOUR=r[9])))]

    @staticmethod
    def ghost_after(E, o):
        return filem.ghost_after(E, events.filed(E, o))

    @staticmethod
    def lemmas(E, o):
        fa = events.filed(E, o)
        (num, mfa, ip), m = filem.spec(E, fa)
        g2 = NS(events.ghost_after(E, o))
        old = [(a, f) for a, f in filem.lemmas(E, fa) if a.startswith("after: ")]
        names = {a for a, _ in old}
        return old + [("after: " + a, f) for a, f in ready(E, NS(dict(EVNTS=m["EVNTS"], NUMINQ=num, IPOINT=ip)), g2, o.CLOCK)
                      if "after: " + a not in names] + [("after: one event more", g2.n == E.ghost.n + 1)]


@contract
class report_step(Contract):
    """assumed by contrl: the report changes nothing the event loop depends on (its own contract: report)"""
    file = "monte_carlo/report.py"
    func = "report"
    assumed = True
    modular = False
    symbolic = True
    concrete = False
    props = ()

    @staticmethod
    def args(E):
        return {x: E.int(x) if x == "IYEAR" else value(E, x) for x in REPORT}

    @staticmethod
    def requires(E, o):
        L = E.loop
        return [("only when the next event lies past the horizon", E.And(L.RFLAG != 1, L.EVNTS[L.IPOINT + 1] > L.FINISH + 1)),
                ("reported up to the year of the clock", o.IYEAR == E.floor(L.CLOCK / 8760))] + own(E, o, REPORT)

    @staticmethod
    def spec(E, o):
        return E.int("newITAB"), {}


@contract
class contrl(Contract):
    """for any number of events: the loop's invariant, and the two ways it ends"""
    file = "monte_carlo/contrl.py"
    func = "contrl"
    symbolic = True
    concrete = False
    ends = False
    props = ["C02"]
    parts = {"req": ["C02", "C17"], "inv": ["C02", "C01"], "safety": ["C02"], "ens17": ["C17", "C02"]}
    modifies = ("EVNTS", "ATRIB", "RATING")
    ghost = filem.ghost
    callees = {"events": events, "report": report_step}
    traces = ("report_step",)

    @staticmethod
    def args(E):
        return {x: value(E, x) for x in CONTRL}

    @staticmethod
    def requires(E, o):
        return ready(E, o, E.ghost, o.CLOCK) + [("something is pending", E.ghost.n >= 1)] + steps(E, o)

    @staticmethod
    def invariants(E):
        def loop0(o, v, k):
            g = E.ghost
            return ready(E, v, g, v.CLOCK) + [("something is pending", g.n >= 1)] + steps(E, v)
        return [loop0]

    @staticmethod
    def at_exit(E, o, v):
        past = v.EVNTS[v.IPOINT + 1] > v.FINISH + 1
        return [("ens17: the loop ends only when the run is over or the next event lies past the horizon", E.Or(v.RFLAG == 1, past)),
                ("ens17: at the horizon the report is written", E.Or(v.RFLAG == 1, *[c for c, _, f in E.trace if f == "report_step"]))]

    @staticmethod
    def spec(E, o):
        return None, {x: E.fn(o[x].shape, lambda *i: E.any(), o[x].kind) for x in contrl.modifies}
