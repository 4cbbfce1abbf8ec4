"""Every solution of the integer program is free of conflicts."""
from hypothesis import strategies as st

from .. import dispatch as D
from ..dispatch import I
from ..engine import Violation
from .common import expect
from .solver_common import ASSUME, Property, build, cases, points, show


def solve_for(prob, prog, coefs):
    """a solution of the program that is extreme in some direction: delays by train and station"""
    import numpy as np
    from pulp.solving import data, highs

    d = data(prob)
    names = [v.name for v in prob.variables()]
    d["obj"] = [[i, float(coefs[i % len(coefs)])] for i in range(len(names))]
    out = highs(d)
    if out["x"] is None:
        return None
    return {prog.of[n]: round(x) for n, x in zip(names, out["x"]) if n in prog.of}


class P(Property):
    id = "C16"
    quick, thorough = 16000, 110000
    rule = ("dispatching problems (2-6 trains, 2-5 stations, single and double tracks, station tracks, switches, stock "
            "handed over); timetables at and next to the border of the rules and extreme solutions of the program; "
            "non-trivial: at least two kinds of conflict, one timetable accepted and one refused for an order of trains")
    assumptions = ASSUME

    def strategy(self, ctx):
        return st.one_of(
            st.tuples(cases(min_trains=3), st.lists(st.lists(I(-3, 3), min_size=1, max_size=8), max_size=2)),
            st.tuples(cases(min_trains=2, max_trains=6, max_stations=5), st.lists(st.lists(I(-3, 3), min_size=1, max_size=8), max_size=2)),
            st.tuples(cases(min_trains=2, max_trains=4, small=True), st.lists(st.lists(I(-3, 3), min_size=1, max_size=8), max_size=2)),
            st.tuples(cases(min_trains=5, max_trains=6, max_stations=3, turns=True), st.lists(st.lists(I(-3, 3), min_size=1, max_size=8), max_size=1)),
        ).map(lambda t: {"p": t[0]["p"], "pts": t[0]["pts"], "obj": t[1]})

    def check(self, ctx, case):
        rules, prob = build(case["p"])
        prog = D.Program(prob, rules)
        lab = D.labels(case["p"], rules)
        acc = ref = 0
        for d in points(rules, case["pts"]):
            bad = rules.broken(d)
            why = prog.refused(d)
            if why is None:
                acc += 1
                expect(bad is None, "conflict admitted",
                       lambda: "delays {%s} satisfy the program but break a rule: %s" % (show(rules, d), bad))
            elif why.startswith("orders"):
                ref += 1
        for obj in case["obj"]:
            d = solve_for(prob, prog, obj)
            if d is not None:
                for v in rules.vars:
                    d.setdefault(v, 0)
                bad = rules.broken(d)
                expect(bad is None, "conflict in a solution",
                       lambda: "solution with delays {%s} breaks a rule: %s" % (show(rules, d), bad))
        lab["accepted"], lab["refused for an order"] = acc > 0, ref > 0
        return lab

    def nontrivial(self, lab):
        kinds = sum(lab[k] for k in ("following trains", "single track line", "station track", "switch"))
        return kinds >= 2 and lab["accepted"] and lab["refused for an order"]


PROPERTY = P()
