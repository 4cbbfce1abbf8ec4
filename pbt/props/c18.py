"""The optimum is the least weighted delay of all conflict-free timetables."""
from hypothesis import strategies as st

from .. import dispatch as D
from ..dispatch import I, chance, shuffled
from ..solvers import guarded, load
from .common import expect
from .solver_common import ASSUME, Property


@st.composite
def relisted(draw):
    """a problem and the same problem listed in another order"""
    p = draw(st.one_of(D.problems(min_trains=3), D.problems(min_trains=2, max_trains=6, max_stations=5),
                       D.problems(min_trains=2, max_trains=4, small=True),
                       D.problems(min_trains=5, max_trains=6, max_stations=3, turns=True)))
    q = dict(p)
    sh = lambda xs: list(draw(st.permutations(xs))) if len(xs) > 1 else list(xs)
    q["J"] = sh(p["J"])
    q["paths"] = {j: p["paths"][j] for j in sh(list(p["paths"]))}
    q["Jd"] = [[a, b, sh([sh(g) for g in gs])] for a, b, gs in sh(p["Jd"])]
    q["Jtrack"] = [[s, sh([sh(g) for g in gs])] for s, gs in sh(p["Jtrack"])]
    q["Jswitch"] = [[s, sh([sh(x) for x in ps])] for s, ps in sh(p["Jswitch"])]
    q["Jround"] = [[s, sh(ps)] for s, ps in sh(p["Jround"])]
    single = {}
    for a, b, ps in p["Josingle"]:
        for j, jp in ps:
            if draw(I(0, 1)):
                single.setdefault((b, a), []).append([jp, j])
            else:
                single.setdefault((a, b), []).append([j, jp])
    q["Josingle"] = [[a, b, sh(ps)] for (a, b), ps in single.items()]
    return {"p": p, "q": q, "cat": "Continuous" if chance(draw, 1, 4) else "Integer"}


class P(Property):
    id = "C18"
    quick, thorough = 6000, 48000
    rule = ("dispatching problems and a relisting of each (trains, groups, members, pairs in another order), integer or "
            "continuous delays; non-trivial: the optimum is above zero or no conflict-free timetable exists, with at "
            "least two conflicts")
    assumptions = ASSUME + ["problems on which the independent search needs more than 20000 steps are left out (counted)"]

    def strategy(self, ctx):
        return relisted()

    def check(self, ctx, case):
        rs, _ = load()
        rules = D.Rules(case["p"])
        try:
            want, best = rules.optimum(integer=case["cat"] == "Integer")
        except TimeoutError:
            return {"left out": True}
        for name in ("p", "q"):
            ts, tt, d_max = D.to_input(case[name])
            kw = {} if case["cat"] == "Integer" else {"cat": case["cat"]}
            prob = guarded("solving a valid problem", rs.solve_linear_problem, ts, tt, d_max, **kw)
            which = "the problem" if name == "p" else "the relisted problem"
            if want is None:
                expect(prob.status == -1, "infeasible problem solved",
                       lambda: "%s has no conflict-free timetable, status is %s" % (which, prob.status))
            else:
                expect(prob.status == 1, "solvable problem not solved",
                       lambda: "%s has a conflict-free timetable with objective %s, status is %s" % (which, want, prob.status))
                got = prob.objective.value() if prob.objective else 0
                expect(abs(got - want) < 1e-4, "not the optimum",
                       lambda: "%s: objective %s, the least is %s" % (which, got, want))
        lab = D.labels(case["p"], rules)
        lab["delay needed"] = bool(want)
        lab["infeasible"] = want is None
        lab["two or more conflicts"] = len(rules.classes) >= 2
        lab["continuous"] = case["cat"] != "Integer"
        return lab

    def nontrivial(self, lab):
        return lab.get("two or more conflicts") and (lab["delay needed"] or lab["infeasible"])


PROPERTY = P()
