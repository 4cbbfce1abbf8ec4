"""The reported result is the solution that was found."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from .. import dispatch as D
from ..dispatch import I
from ..solvers import guarded, load
from .common import expect
from .solver_common import ASSUME, Property


def near(a, b):
    return abs(float(a) - float(b)) < 1e-6


class P(Property):
    id = "C19"
    quick, thorough = 10000, 80000
    rule = ("solved dispatching problems and problems with a sample from elsewhere (any delays within bounds); the "
            "report of every train at every station; non-trivial: at least two trains with a positive delay or a "
            "train that ends at the border and another with a positive delay")
    assumptions = ASSUME + ["what is reported as departure of a train at the station where it hands over its stock and "
                            "that is not marked as its last is not judged"]

    def strategy(self, ctx):
        return st.fixed_dictionaries({
            "p": st.one_of(D.problems(min_trains=1), D.problems(min_trains=3, half=False), D.problems(min_trains=2, half=False, small=True)),
            "outside": st.one_of(st.none(), st.lists(I(0, 40), min_size=1, max_size=9)),
            "ref": st.tuples(I(0, 23), I(0, 59)).map(list),
        })

    def check(self, ctx, case):
        rs, helpers = load()
        p = case["p"]
        rules = D.Rules(p)
        ts, tt, d_max = D.to_input(p)
        prob = guarded("solving a valid problem", rs.solve_linear_problem, ts, tt, d_max)
        data = []
        if case["outside"] is not None:
            data = {}
            for i, v in enumerate(prob.variables()):
                data[v.name] = case["outside"][i % len(case["outside"])] % (int(v.upBound) + 1)
            value = dict(data)
        else:
            if prob.status != 1:
                return {"infeasible": True}
            value = {v.name: v.varValue for v in prob.variables()}
        extra = (data,) if data else ()
        if not prob.variables():
            data = []
        total, positive = 0, set()
        for j in rules.J:
            for s in rules.paths[j]:
                imp = guarded("share of the objective", rs.impact_to_objective, prob, tt, j, s, d_max, *extra)
                total += imp
                if (j, s) not in rules.vars:
                    expect(near(imp, 0), "share without a delay",
                           lambda: "train %s has no delay at %s but the share is %s" % (j, s, imp))
                    continue
                d = value.get(D.delay_name(j, s), 0)
                if d > 0:
                    positive.add(j)
                w = p["weights"].get("%s_%s" % (j, s), 0)
                expect(near(imp, w * d / d_max), "share of the objective",
                       lambda: "train %s at %s: %s, delay %s of %s with weight %s" % (j, s, imp, d, d_max, w))
                got = guarded("report of a delay", rs.delay_and_acctual_time, ts, tt, prob, j, s, *extra)
                want = (d, d + rules.e[j, s], rules.e[j, s])
                expect(len(got) == 3 and all(near(a, b) for a, b in zip(got, want)), "reported times",
                       lambda: "train %s at %s: %s instead of %s" % (j, s, tuple(map(float, got)), want))
        if prob.objective:
            obj = prob.objective.constant + sum(x * value[v.name] for v, x in prob.objective.items())
        else:
            obj = 0
        expect(near(total, obj), "shares do not add up", lambda: "shares add up to %s, objective is %s" % (total, obj))

        ref = datetime(2020, 1, 1, *case["ref"])
        rep = guarded("printing the result", helpers.print_optimisation_results, prob, tt, ts, tt["tau"],
                      ts["skip_station"], d_max, ref, *extra)
        expect(list(rep) == rules.J, "trains of the report", lambda: "%s instead of %s" % (list(rep), rules.J))
        whole = all(float(x) == int(x) for x in list(p["tau"]["pass"].values()) + list(rules.e.values()))
        for j in rules.J:
            expect(list(rep[j]) == rules.paths[j], "stations of the report", lambda: "train %s: %s" % (j, list(rep[j])))
            prev = None
            for s in rules.paths[j]:
                r = rep[j][s]
                if whole and prev is not None:
                    t = ref + timedelta(minutes=rules.e[j, prev] + value.get(D.delay_name(j, prev), 0)
                                        + rules.run(j, prev, s))
                    u = ref + timedelta(minutes=rules.e[j, prev] + rules.run(j, prev, s))
                    expect(r.get("arrive") == t and r.get("conflicted_arrive") == u, "reported arrival",
                           lambda: "train %s at %s: %s and %s instead of %s and %s"
                           % (j, s, r.get("arrive"), r.get("conflicted_arrive"), t, u))
                if prev is None:
                    expect("arrive" not in r, "reported arrival", lambda: "train %s starts at %s, arrival %s" % (j, s, r))
                if rules.skip.get(j) == s:
                    expect("departure" not in r, "departure after the end",
                           lambda: "train %s ends at %s, report has %s" % (j, s, r))
                elif (j, s) in rules.vars and whole:
                    d = value.get(D.delay_name(j, s), 0)
                    w = p["weights"].get("%s_%s" % (j, s), 0)
                    t = ref + timedelta(minutes=rules.e[j, s] + d)
                    u = ref + timedelta(minutes=rules.e[j, s])
                    expect(r.get("departure") == t and r.get("conflicted_departure") == u
                           and r.get("secondary delay") == d and near(r.get("impact_to_objective"), w * d / d_max),
                           "reported departure",
                           lambda: "train %s at %s: %s instead of departure %s, without conflicts %s, delay %s"
                           % (j, s, r, t, u, d))
                prev = s
        return {"two trains late": len(positive) >= 2, "one train late": len(positive) >= 1,
                "ends at the border": bool(p["skip"]), "sample from elsewhere": bool(data), "whole minutes": whole}

    def nontrivial(self, lab):
        return lab.get("two trains late") or (lab.get("one train late") and lab.get("ends at the border"))


PROPERTY = P()
