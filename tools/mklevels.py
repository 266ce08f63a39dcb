"""levels.json: level, technique and note per property (edited by hand here)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = "contracts on the real functions, every obligation generated from /repo's AST and discharged by z3/cvc5"
MX = "contracts on the real functions: deductive proof where it reaches, bounded execution of the same contracts elsewhere"
BD = "contracts on the real functions, decided by bounded execution"
proof = {
    "C03": "gstate: all obligations for any number of units and any stream values",
    "C04": "lstate, line_prob_sampling: all obligations for any number of lines and any stream values",
    "C06": "sumcap: all obligations for any number of areas and units, conservation lemmas included",
    "C20": "pind: all obligations for any number of areas, units, lines, contracts and ownership rows; names are values of which only equality is used, and one further column stands for every other column of a table",
}
other = {
    "C01": (MX, "proved: filem, remove, initfl, initl (abstract calendar as ghost state, any size), and that the event loop keeps the calendar well formed whatever the handlers do elsewhere; bounded: histories through the real event loop"),
    "C02": (MX, "proved: the event loop (invariant of the whole run: calendar sorted, nothing behind the clock, one event served at a time, the first due, by its own handler, on the current quantities), the dispatcher, week, quartr, year, the hour handler; bounded: the loop with the real handlers composed, start-up"),
    "C05": (MX, "proved: seeder, gstate, lstate, the one draw of each stream per hour; bounded: start-up"),
    "C07": (MX, "proved: findtn, xporta, xports, resca; bounded: the assembly from whole inputs"),
    "C08": (MX, "proved: findld, dpeak, wpeakf, plhr; bounded: xldnew (reads files)"),
    "C09": (MX, "proved: admitr, tm1; bounded (sizes 2 and 3, all values): admitb"),
    "C10": (MX, "proved: admitm, admref; ximpa and ximpar, entry by entry and that the updated matrix is again the inverse of the updated admittance (any size); both callers: the matrices follow the lines drawn, the inverse is kept, the base network is restored (given that numpy's inverse is one, symmetric for a symmetric matrix, and no intermediate network islanded); bounded: the two callers with the real inverse"),
    "C11": (MX, "proved: theta, thetac, flo, their composition in the drivers tm1 and tm2 (any size); bounded: whole load flows with the real programs"),
    "C12": (MX, "proved: assign, its use by the load flow tm2; bounded: whole load flows"),
    "C13": (MX, "proved: transm, tm1 and tm2 each meeting the other's contract, and the hour meeting transm's preconditions at every load level (what each is handed, in which of them the verdict is sought, residual capacities, margins restored, limits never exceeded; equal area limits both ways); bounded: the whole transmission step on generated networks"),
    "C14": (PR, "proved: hrstat, pkstat, and the hour that calls them (one and five levels, load flow assumed): which margins are counted, when, and into which counters"),
    "C15": (MX, "proved: year (the annual closing: every counter, total, weighted total, square, and the reset); bounded: that the caller passes the same arrays every year (start_up)"),
    "C16": (PR, "proved: year (histograms), report (every printed and stored expectation), one observation per area and year"),
    "C17": (MX, "proved: cvchk, year (selection of the monitored total, the flag), the event loop (ends only when the flag is set or the next event lies past the horizon, the report written in the latter case); bounded: the loop with the real handlers"),
    "C18": (MX, "proved: initl, week, quartr; bounded: smaint, the assembly from whole inputs"),
    "C19": (MX, "proved: datax on systems without firm contracts (any number of areas, units, lines, ownership rows); bounded: datax on generated inputs with firm contracts (its dictionary of pairs is outside the prover's subset)"),
    "C21": (BD, "bounded: the readers on generated tables"),
    "C22": (PR, "proved: intm, intm followed by rstart through a ghost file, year (when a snapshot is taken and what it holds)"),
    "C23": (PR, "proved: gsm (loop invariants of the merge: every level of the three copies, the probability of at least each level, for any table and unit), pmlolp (every table on the way is one, each unit enters with its own rounded data; up to 600 units of up to 1600 MW); bounded: that no unit is left out, and the total distribution of small sets"),
    "C24": (MX, "proved: mc, rc, rm, net, and that tm2 runs the program on this hour's network and reports from it; bounded: optimality and reporting of whole programs"),
    "C25": (MX, "bounded (sizes 2 and 3, all values): dgefa; bounded: dgedi, dgeco on generated matrices"),
    "C27": (MX, "proved: the hour composed of its steps, for one and for five load levels (the values NFCST takes), every network size, any result of the load flow; the load flow meets its contract by the proofs of C13; bounded: several hours in a row"),
}
na = {"C26": json.load(open(V + "/levels.json"))["C26"]["not_applicable"]}
L = {}
for k, n in proof.items():
    L[k] = dict(level="proof", technique=PR, note=n)
for k, (t, n) in other.items():
    L[k] = dict(level="other", technique=t, note=n)
for k, r in na.items():
    L[k] = dict(not_applicable=r)
json.dump({k: L[k] for k in sorted(L)}, open(V + "/levels.json", "w"), indent=1)
