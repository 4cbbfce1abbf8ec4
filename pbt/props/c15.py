"""Earliest departures respect running times, stops, schedule."""
from hypothesis import strategies as st

from .. import dispatch as D
from ..dispatch import I, chance
from ..engine import Property
from ..solvers import guarded, load
from .common import expect


@st.composite
def lines(draw):
    """one or two trains on a long route, initial conditions anywhere, schedule at will"""
    n = draw(st.one_of(I(1, 6), I(1, 40)))
    names = ["S%d" % i for i in range(n)]
    paths, tau, ic, sched = {}, {"pass": {}, "headway": {}, "stop": {}, "prep": {}, "res": 1}, {}, {}
    J = draw(st.lists(st.one_of(I(1, 12), I(1, 99999)), min_size=1, max_size=3, unique=True))
    for j in J:
        p = names if chance(draw, 1, 2) else names[::-1]
        p = p[: draw(I(1, n))]
        paths[str(j)] = p
        for i, s in enumerate(p):
            if i:
                tau["pass"]["%s_%s_%s" % (j, p[i - 1], s)] = draw(I(1, 40)) / (2 if chance(draw, 1, 4) else 1)
                tau["stop"]["%s_%s" % (j, s)] = draw(I(0, 12)) / (2 if chance(draw, 1, 4) else 1)
            if i == 0 or chance(draw, 1, 12):
                ic["%s_%s" % (j, s)] = draw(I(-60, 300))
            if chance(draw, 1, 3):
                sched["%s_%s" % (j, s)] = draw(I(-80, 400))
    return {"J": J, "paths": paths, "skip": {}, "Jd": [], "Jtrack": [], "Josingle": [], "Jswitch": [], "Jround": [],
            "tau": tau, "ic": ic, "sched": sched, "weights": {}, "d_max": draw(I(1, 20)),
            "no_schedule": chance(draw, 1, 6)}


class P(Property):
    id = "C15"
    quick, thorough = 16000, 128000
    rule = ("dispatching problems and single trains on routes of up to 40 stations with random running and stopping "
            "times, schedules and initial times; non-trivial: the scheduled time decides at one station and the "
            "way there at another")
    assumptions = ["a train has an initial time at its first station"]

    def strategy(self, ctx):
        return st.one_of(D.problems(min_trains=1), lines(), lines())

    def check(self, ctx, case):
        rs, _ = load()
        rules = D.Rules(case)
        ts, tt, d_max = D.to_input(case)
        bysched = byway = False
        for j in rules.J:
            got = {}
            for s in reversed(rules.paths[j]):
                got[s] = guarded("earliest departure of a valid problem", rs.earliest_dep_time, ts["Paths"], tt, j, s)
            for s in rules.paths[j]:
                w = rules.e[j, s]
                expect(abs(float(got[s]) - w) < 1e-9, "earliest departure",
                       lambda: "train %s at %s: %s instead of %s" % (j, s, got[s], w))
                k = "%s_%s" % (j, s)
                if k not in tt["initial_conditions"]:
                    if tt.get("schedule", {}).get(k) == w:
                        bysched = True
                    else:
                        byway = True
        expect(repr(D.to_input(case)[:2]) == repr((ts, tt)), "input changed", "the problem data are changed")
        # no earlier departure is proposed: delays count from zero upwards from that time
        if case["d_max"] and case["Jd"]:
            prob = guarded("building the program", rs.create_linear_problem, ts, tt, d_max, "Integer")
            names = {D.delay_name(*v): v for v in rules.vars}
            for v in prob.variables():
                if v.name in names:
                    expect(v.lowBound == 0, "delay below zero", lambda: "%s may be as low as %s" % (v.name, v.lowBound))
        return {"schedule decides": bysched, "way decides": byway,
                "long route": any(len(p) >= 12 for p in rules.paths.values())}

    def nontrivial(self, lab):
        return lab["schedule decides"] and lab["way decides"]


PROPERTY = P()
