#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
M = "reliabilityassessment/monte_carlo/"
D = "reliabilityassessment/data_processing/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


p("C01", "Event calendar: ordered, nothing lost, nothing duplicated",
  "The calendar of pending events is always sorted by time, and an event scheduled for a time already in the calendar is served before those scheduled earlier for that time. Scheduling an event adds exactly that event (its time and kind) and serving one removes exactly the first; every other pending event keeps its time and kind, the count is exact, and the cell taken for a new event never holds a pending one, in the simulator's discipline of one scheduling after each serving. The calendar a simulation starts with holds the first hour, the first week, four season changes and the first annual closing, in time order.",
  ["histories", "inputs"],
  "any sequence of schedule/serve operations from an empty or initial calendar, any event times and kinds, any calendar capacity",
  "The tests insert and remove two or three events in one fixed order; the guarantee is about every interleaving of insertions and removals and every tie.",
  [M + "filem.py", M + "remove.py", M + "initfl.py", M + "initl.py"],
  [("insertion into the sorted linked list", M + "filem.py:filem"), ("removal of the head, cell back to the free list", M + "remove.py:remove"),
   ("empty free list", M + "initfl.py:initfl"), ("initial events", M + "initl.py:initl,_initl")],
  [("EVNTS", "cells of 4 numbers: next, time, kind, unused", M + "initfl.py"), ("IPOINT, MFA, NUMINQ", "head of the pending list, head of the free list, number pending", M + "filem.py")],
  ["the calendar arrays after each call"])

p("C02", "The clock runs forward; each event runs its handler and recurs on period",
  "Simulated time never goes backwards, events are served in time order until the horizon or convergence, and nothing scheduled after the horizon runs. Each served event runs the handler of its own kind on the current state, and that handler schedules exactly one next event of the same kind: one time step later for the hourly draw, 168 h for the week, 8760 h for a season change, 8760 h for the year, counted from the served event. The last hour of a year is simulated before the annual closing of that year, and the hour of the year handed to the load, transfer and peak lookups always lies in 0..8759.",
  ["histories", "inputs"],
  "any calendar, any sequence of events, time steps of 1 h and 24 h, any number of years",
  "No test runs the controller, the dispatcher, the hourly or the seasonal handler at all; the weekly and annual handlers are run on one or two recorded states.",
  [M + "contrl.py", M + "events.py", M + "hour.py", M + "week.py", M + "quartr.py", M + "year.py"],
  [("main loop", M + "contrl.py:contrl"), ("dispatch by kind", M + "events.py:events"), ("rescheduling", M + "hour.py:hour, week.py:week, quartr.py:quartr, year.py:year")],
  [("CLOCK, ATRIB", "current time; time and kind of the served event", M + "contrl.py"), ("JHOUR", "hour of the year", M + "hour.py")])

p("C03", "Generating units are drawn from their outage distribution",
  "For every unit and every draw, with u the uniform number (stream value times 4.656613e-10) of that unit's own stream, the unit is fully available when u is below the first cumulative probability, at its derated fraction when u is below the second, and out otherwise; units are independent of each other. Its available capacity is that fraction times its rating in effect times its planned-outage factor, so a unit on planned outage contributes nothing whatever is drawn.",
  ["inputs", "histories"],
  "any number of units, any cumulative probabilities, deratings, ratings, planned-outage factors and stream states",
  "One test with three units and one seed samples three numbers out of the state space; interval boundaries and every unit's own data cannot be covered.",
  [M + "gstate.py"], [("draw and thresholds", M + "gstate.py:gstate")],
  [("IGSEED", "one 31-bit congruential stream per unit", M + "gstate.py")], ["returned availability fractions and capacities"])

p("C04", "Transmission lines are drawn from their six-state distribution",
  "For every line and every draw, with u the uniform number (stream value times 4.656613e-10) of that line's own stream, the line is in the first state whose cumulative probability reaches u, and in the sixth if none does: always exactly one state in 1..6. The vectorised sampler that shares one generator agrees: each line gets the first state whose cumulative probability exceeds its number.",
  ["inputs", "histories"],
  "any number of lines, any non-decreasing cumulative probability rows, any stream state",
  "The stream-based sampler has no test; the others are compared on one seed or by frequencies with a tolerance.",
  [M + "lstate.py", M + "line_prob_sampling.py"], [("draw and thresholds", M + "lstate.py:lstate"), ("vectorised sampler", M + "line_prob_sampling.py:lstate")],
  [("ILSEED", "one 31-bit congruential stream per line", M + "lstate.py")], ["returned line states"])

p("C05", "Random streams are reproducible, in range, one per component",
  "From one master seed every unit and every line gets its own start value, the k-th being the master seed times the k-th power of 9649599 modulo 2^31, the line streams continuing where the unit streams end. Every draw replaces a component's stream value s by 65539*s modulo 2^31, always in 0..2^31-1, touches no other component's stream, and uses the new value scaled to [0,1); so two runs from the same seed draw the same outages whatever the number of other components drawn.",
  ["inputs", "histories"],
  "any master seed in 1..2^31-1, any numbers of units and lines, any number of draws; 32-bit wrap-around arithmetic included",
  "The seeding has no test; the draws are tested from one fixed seed, and overflow behaviour depends on every value.",
  [M + "seeder.py", M + "gstate.py", M + "lstate.py"], [("seeding recurrences", M + "seeder.py:seeder"), ("congruential steps", M + "gstate.py:gstate, lstate.py:lstate")],
  [("IGSEED, ILSEED", "32-bit stream states", M + "seeder.py")])

p("C06", "Available capacity by area; joint ownership conserves capacity",
  "The capacity located in an area is exactly the sum of the available capacities of the units located there, and the capacity owned by an area is the sum over all units of its share of each. The transfer due to joint ownership is located minus owned capacity of each area, and when the shares of every unit sum to one these transfers sum to zero over the areas, and located and owned capacity have the same total.",
  ["inputs"], "any numbers of areas and units, any locations, shares and available capacities",
  "One example with a handful of units; conservation is a statement about sums of arbitrary length.",
  [M + "sumcap.py"], [("sums by location and by owner", M + "sumcap.py:sumcap")], (), ["returned sums and transfers"])

p("C07", "Scheduled transfers: antisymmetric, same sign everywhere, undone exactly",
  "On each day a contract moves the same power out of its sending area as into its receiving area, so the scheduled transfers of all areas sum to zero, and the transfer of an area is its exports minus its imports under the contracts of that day. Adjusting the hourly loads for the contracts raises the sender's load and lowers the receiver's in exactly the 24 hours of each contract day and nowhere else, and the opposite adjustment restores the loads. The capacity credited to an area on its peak day is its owned rated capacity of the season of that day minus its exports plus its imports.",
  ["inputs", "configurations"], "any set of contracts between any areas, any day, any loads, any season boundaries",
  "The tests use two or three contracts and compare two implementations with each other on one sample.",
  [M + "findtn.py", D + "xporta.py", D + "xports.py", D + "resca.py"],
  [("transfers of a day", M + "findtn.py:findtn"), ("load adjustment", D + "xporta.py:xporta"), ("inverse adjustment", D + "xports.py:xports"), ("capacity on the peak day", D + "resca.py:resca")],
  [("JENT, INTCH", "contract of a pair of areas; its power by day", D + "datax.py")])

p("C08", "Hourly load keeps its shape and peak; peaks are the true maxima",
  "The load profile of each area is its input profile scaled so that its maximum is the area's peak demand, and the load of an hour at a load level is that value times the area's forecast multiplier of that level. The daily peak of an area is the largest of its 24 loads of the day, attained at the reported hour (the first one), the annual peak day is the first day with the largest daily peak, each weekly peak is the largest of the days of that week, the 52nd week having eight, and the pool's daily peak hour is the first hour of the day with the largest total load.",
  ["inputs", "configurations"], "any loads (ties, negative values after contract adjustment, constants), any numbers of areas, any peak demands",
  "The tests compare two implementations on random data without ties; the pool peak hour has no test, the profile reader one file.",
  [D + "xldnew.py", D + "dpeak.py", D + "wpeakf.py", D + "plhr.py", M + "findld.py"],
  [("scaling", D + "xldnew.py:xldnew"), ("daily and annual peaks", D + "dpeak.py:dpeak"), ("weekly peaks", D + "wpeakf.py:wpeakf"), ("pool peak hours", D + "plhr.py:plhr"), ("load of an hour", M + "findld.py:findld")])

p("C09", "The network model is the admittance matrix of the lines",
  "The matrix built for a set of lines has, for each pair of areas, minus the total admittance of the lines between them, and on the diagonal the total admittance of the lines at the area: it is symmetric and each row sums to zero. Removing the reference area keeps every other entry, in the order of the returned area list, which is a permutation of the areas ending with the reference; the impedance matrix is the inverse of the reduced matrix, padded with zeros.",
  ["inputs", "configurations"], "any network of at least two areas, parallel lines included, any admittances, any reference area",
  "Two or three fixed networks; row sums and permutations are for all networks.",
  [M + "admitb.py", M + "admitr.py", M + "tm1.py"], [("accumulation per line", M + "admitb.py:admitb"), ("reference removal", M + "admitr.py:admitr"), ("inversion", M + "tm1.py:tm1")],
  [("BB, ZB, LT", "reduced admittance and impedance matrices and their area order", M + "tm1.py")])

p("C10", "Line changes update the network model exactly",
  "After a line's admittance changes by b, the updated admittance matrix is the one that would be built from scratch with the changed line, whether or not the line touches the reference area. The updated impedance matrix is the exact inverse of the updated admittance matrix whenever the old one was, by a rank-one correction; no other entry of either matrix changes.",
  ["inputs", "histories"], "any network, any line, any change of admittance for which the correction is defined, any sequence of changes",
  "The update routines are tested on one matrix each against recorded numbers; exactness of the inverse is not tested.",
  [M + "admitm.py", M + "admref.py", M + "ximpa.py", M + "ximpar.py", M + "tm2.py"],
  [("rank-one corrections", M + "ximpa.py:ximpa, ximpar.py:ximpar"), ("entry updates", M + "admitm.py:admitm, admref.py:admref"), ("update loop over changed lines", M + "tm2.py:tm2")])

p("C11", "DC load flow obeys Kirchhoff's current law",
  "Line flows are the admittance times the angle difference of the line's ends, and the net flow into an area is the sum of the flows of its incoming lines minus those of its outgoing lines, so the net flows of all areas sum to zero. When the angles solve the reduced network equations for balanced injections, the net flow into every area, the reference included, equals that area's injection up to the code's sign convention.",
  ["inputs"], "any network, any injections summing to zero, any reference area",
  "One or two fixed cases per routine; the balance of a solved flow is never checked.",
  [M + "theta.py", M + "thetac.py", M + "flo.py"], [("angles from injections", M + "theta.py:theta"), ("reordering to areas, reference angle zero", M + "thetac.py:thetac"), ("flows and net flows", M + "flo.py:flo")])

p("C12", "Injections are balanced before each load flow, by the chosen policy",
  "Whatever the requested injections, those handed to the load flow sum to zero. If supply covers demand, demands are kept and the supplies are scaled down in proportion; otherwise, without loss sharing, supplies are kept and demands scaled down in proportion, each area's curtailment being exactly the reduction of its demand, and with loss sharing every area is curtailed in proportion to its load by a total equal to the shortage. Curtailments are never negative and the requested injections are left unchanged.",
  ["inputs"], "any number of areas, any injections including zeros and all of one sign, any positive loads, any area order, both sharing policies",
  "Fixed examples per branch; the balance and the sign of every curtailment are not asserted.",
  [M + "assign.py"], [("scaling and curtailment", M + "assign.py:assign")], (), ["returned injections and curtailments"])

p("C13", "Transmission step: honest feasibility verdict, network restored",
  "The load flow of an hour uses, for each line, the admittance and the two capacities of the state the line was drawn in, the capacities scaled by its stability multipliers, and the step reports no violation exactly when every line flow and every area's net flow is within its limits in its direction. However the hour ends, the admittance and impedance matrices after it are those of the base network, so no hour's outages influence a later hour. An hour whose shortages the firm transfers clear without violation is reported as solved.",
  ["inputs", "histories"], "any network, line states, limits, injections; any sequence of hours",
  "The transmission tests replay a few recorded hours; none checks that the network is restored or that limits are compared in the right direction.",
  [M + "transm.py", M + "tm2.py", M + "tm1.py"], [("per-state line data", M + "transm.py:transm"), ("limit tests, save and restore", M + "tm2.py:tm2")],
  [("BB, ZB", "network matrices shared by all hours", M + "tm2.py")])

p("C14", "Loss-of-load events are counted once, in the right class, with their size",
  "For an hour with load loss, each short area's event count goes up by one and its unserved energy by the whole megawatts it is short, in the generation class when the pool as a whole is short and in the transmission class otherwise, and the pool's count of that class goes up by one and its energy by the sum over the short areas. Nothing else changes: not the other class, other load levels or areas that are not short; the peak-hour statistics follow the same rule.",
  ["inputs"], "any numbers of areas and load levels, any margins in whole megawatts whose pool total is not exactly zero, any previous counters",
  "One example per routine comparing two implementations; class selection and frame conditions for all margins are not.",
  [M + "hrstat.py", M + "pkstat.py"], [("hourly statistics", M + "hrstat.py:hrstat"), ("peak statistics", M + "pkstat.py:pkstat")],
  [("LOL*, MGN*", "event counts and unserved energy by area and pool, class and load level", M + "hrstat.py")])

p("C15", "The annual closing adds the year's counters to the totals, then clears them",
  "At the end of each year every annual counter, for every area, the pool, every load level and both classes, hourly and peak, is added to its running total, the all-cause totals being the sums of the two classes; the weighted totals grow by the counters weighted with the load-level probabilities (all weight on the single level when there is only one), and the squares of the weighted annual values are accumulated. After it every annual counter is zero, for every area and load level, so no event is counted in two years or lost.",
  ["inputs", "histories"], "any numbers of areas and load levels (1 or 5), any counters and totals, any number of years",
  "The annual test replays two recorded states with a single load level and compares some outputs.",
  [M + "year.py", M + "narpMain.py"], [("accumulation and reset", M + "year.py:year"), ("running totals kept across years", M + "narpMain.py:narpMain")],
  [("S*, W*, XNEW*", "running totals", M + "year.py")])

p("C16", "Reported distributions and means are those of the simulated years",
  "Each year adds exactly one observation per area to each of its three histograms (hours of loss, peak days of loss, unserved energy), in the bin of that year's value with the last bin open-ended, so after any number of years each histogram counts that number of observations and its reported probabilities are non-negative and sum to one. The reported expectations of an area and of the pool are its weighted totals divided by the number of years, the reported magnitudes energy divided by events (zero without events), and the pool's peak, capacity and reserve those of the sums over the areas.",
  ["inputs", "histories"], "any counters, any numbers of areas and years, any bin width, hourly or peak-only runs",
  "The report test compares one output file; bins at the boundaries and sums of probabilities are not.",
  [M + "year.py", M + "report.py"], [("bin selection", M + "year.py:year"), ("means and probabilities", M + "report.py:report")],
  [("HLOLE, DPLOLE, EUES", "histograms with 22 bins", M + "year.py")], ["output.txt", "the summary table"])

p("C17", "The simulation stops on convergence or at the horizon, and only then",
  "A run is declared finished exactly when the horizon is reached, or after at least five years the standard error of the mean of the monitored index is below the tolerance times the mean (0.025 when none is given) and the mean is not zero. The running sum of squares grows by the square of this year's increment of the monitored total, and the monitored total is the one the user selected: area or pool, hourly or peak, events or energy, weighted or at the reference load level.",
  ["inputs", "histories"], "any history of annual values, any tolerance, any selection of index, any year",
  "The tests replay a few numbers; the exact stopping rule over all histories and all sixteen selections is not covered.",
  [M + "cvchk.py", M + "year.py"], [("stopping rule", M + "cvchk.py:cvchk"), ("selection of the monitored total", M + "year.py:year")])

p("C18", "Planned outages and seasonal ratings are in effect exactly when due",
  "Every unit with a planned outage of D weeks starting in week B is in the maintenance table of exactly the weeks B..B+D-1 that lie in the year, the last week included, and no unit is in the table of any other week. At the start of each week exactly the units in the table of the week that begins are out and all the others are available, until the next week starts; at each season change the ratings become those of the season that begins, the seasons following each other cyclically from the first one at the start of the run, at the user's season weeks.",
  ["inputs", "histories", "configurations"], "any outage windows of any units in weeks 1..52, any season weeks, any week of the simulated years",
  "The maintenance test runs one schedule, the weekly test two weeks; the seasonal change has no test.",
  [D + "smaint.py", M + "week.py", M + "quartr.py", M + "initl.py", M + "narpMain.py", D + "datax.py"],
  [("weekly table", D + "smaint.py:smaint"), ("weekly factor", M + "week.py:week"), ("season change", M + "quartr.py:quartr"), ("season times", M + "initl.py:initl, datax.py:datax")],
  [("JPLOUT, PLNDST, IQ", "maintenance table; planned-outage factor; season", M + "week.py")])

p("C19", "Input data are translated to the model without loss or mix-up",
  "Every unit ends in its own area with full ownership there unless ownership percentages are given, which then are its shares; its state thresholds are one minus its total and its full outage rate and its derated fraction is one minus its derating. Every line keeps its ends, per-state admittance and capacities (with the documented replacement of zeros) and cumulative state probabilities; every firm contract carries its power on exactly its days, 1-based and inclusive, from its sender to its receiver. Forecast multipliers are 1, 1 plus or minus the uncertainty and 1 plus or minus 2.5 times it, only when some area has uncertainty; season ends, windows and convergence options are those given, shifted to start from zero where they index.",
  ["configurations", "inputs"], "any system of areas, units, lines, contracts and joint ownership within the documented limits",
  "One two-area example without contracts or joint ownership.",
  [D + "datax.py"], [("translation", D + "datax.py:datax")])

p("C20", "Names resolve to the same component everywhere",
  "Area and unit names map to 0,1,2,... in the order of their first appearance in the area and unit tables, equal names always to the same number and different names to different ones, in every table that mentions them (units, lines, contracts, ownership). Line numbers are shifted to start from zero, nothing else is changed, and the data passed in are not modified.",
  ["configurations", "inputs"], "any tables of names, any order, repetitions and references",
  "One small example whose names appear in sorted order.",
  [D + "pind.py"], [("dictionary of first appearances", D + "pind.py:pind")])

p("C21", "Input tables are read field by field into the right quantity",
  "Every field of every row of the input tables (settings, areas, units, contracts, ownership, lines) arrives unchanged under the quantity its column names, in the row order of the file, whatever the order of the columns; the six admittance, capacity, reverse capacity and probability entries of a line are split from its list in groups of four. Optional tables that are absent or empty give empty data.",
  ["configurations", "inputs"], "any values, any number of rows, any column order",
  "The tests read one example file per table.",
  [D + "readInputB.py"], [("column to field assignment", D + "readInputB.py:readZZMC,readZZLD,readZZUD,readZZFC,readZZOD,readZZTD")])

p("C22", "A snapshot gives back what was saved",
  "Whatever state is handed to the snapshot, reading the file back gives for each saved quantity exactly the value that was passed for that quantity, under its own name, none omitted and none swapped. The annual closing takes a snapshot exactly in the years of the requested interval and in the last year, passes each quantity under its own name, and advances the interval once per snapshot taken for it.",
  ["inputs", "histories"], "any values of the some sixty saved quantities, any interval, any year",
  "The snapshot routines have no test of the round trip; sixty positional arguments can be swapped unnoticed.",
  [M + "intm.py", M + "rstart.py", M + "year.py"], [("name to value table", M + "intm.py:intm"), ("reading back", M + "rstart.py:rstart"), ("call and interval", M + "year.py:year")])

p("C23", "The capacity outage table is built from the units' own outage data",
  "Adding a unit to a capacity outage table gives a table whose first entry is zero outage with probability one, whose outage levels strictly increase, and in which the probability of at least each listed outage is the probability-weighted mix of the previous table at that outage, shifted by the partial and by the full outage of the unit. The table of a set of units starts from certainty of no outage and adds each unit once with its outages rounded to the 10 MW grid; probabilities never increase along the table.",
  ["inputs", "configurations"], "any units, outages and probabilities within the documented table size",
  "The tests compare two implementations on two examples.",
  [D + "gsm.py", D + "pmlolp.py"], [("merge of three shifted tables", D + "gsm.py:gsm"), ("loop over units", D + "pmlolp.py:pmlolp")],
  [("KA, PA", "outage levels and cumulative probabilities", D + "gsm.py")])

p("C24", "Load shedding program: feasible, optimal, consistently reported",
  "When a load flow violates a limit the curtailments come from a linear program whose solution is feasible (flow equations, line and area limits, curtailment bounds) and minimises the curtailment, and each value reported to the statistics is that of its own variable with its own sign. The basic operations of the solver (inverse-basis column, reduced cost, simplex multipliers) are the matrix products they stand for.",
  ["inputs"], "any network of the supported size, any limits and injections",
  "The solver tests compare with recorded numbers of a few cases.",
  [M + "linp.py", M + "connls.py", M + "conls.py", M + "net.py", M + "mc.py", M + "rc.py", M + "rm.py"],
  [("simplex", M + "linp.py:linp"), ("constraints", M + "connls.py:connls, conls.py:conls"), ("results by variable", M + "net.py:net"), ("products", M + "mc.py, rc.py, rm.py")])

p("C25", "Basis inversion returns the inverse",
  "Factorising a non-singular matrix and inverting the factors gives its inverse, with any row exchanges the pivoting makes undone in the result; a zero pivot is reported.",
  ["inputs"], "any non-singular matrix of any order",
  "The routines are compared with recorded numbers for one or two matrices.",
  [M + "dgefa.py", M + "dgedi.py", M + "dgeco.py"], [("factorisation with pivoting", M + "dgefa.py:dgefa"), ("inverse from the factors", M + "dgedi.py:dgedi"), ("driver", M + "dgeco.py:dgeco")])

p("C26", "Automatic maintenance scheduling respects the windows",
  "Every unit scheduled automatically gets its outage inside its area's allowed window and outside its forbidden period, for exactly its duration, and units with predetermined outages keep them.",
  ["configurations"], "any units, durations, windows and loads",
  "The test replays one recorded example.",
  [D + "pmsc.py"], [("levelised-risk placement", D + "pmsc.py:pmsc")])

p("C27", "An hour without shortage leaves no trace; an hour with loss is recorded",
  "An hour in which no area is short of capacity for its load changes no reliability counter at any lower load level and calls no load flow; load levels are tried from the highest, each with the areas' loads at that level, and the first one without shortage or loss ends the hour. A load level with loss adds exactly one recorded loss event of that level, with the areas' margins after emergency assistance, or the plain margins when every area is short, and adds to the peak statistics as well exactly when the hour is the pool's peak hour of its day.",
  ["inputs", "histories"], "any system, any hour of any day including the last of the year, one or several load levels",
  "No test runs the hourly handler.",
  [M + "hour.py"], [("margin test and level loop", M + "hour.py:hour")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
