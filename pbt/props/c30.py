"""The programs solve the case they are asked for, and print and store what was found."""
import re
from datetime import datetime

from hypothesis import strategies as st

from .. import dispatch as D
from .. import drivers as R
from .. import worlds as W
from ..client import Outcome
from ..engine import Property
from ..ref import Ref
from ..solvers import guarded, load
from ..worlds import I, chance, pick
from .c11 import with_pairs
from .c29 import cases as timed, checked_times, expected, sound
from .common import expect, must

SOLVERS = ["PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD"]


@st.composite
def real(draw):
    case = draw(I(0, 9))
    nos = sorted(set(R.REAL_DELAYS[case]) or set(R.MANY))
    base = R.renumbered(W.worlds(min_trains=2, max_trains=5), nos + [4120, 16, 14007])
    c = draw(timed(with_pairs(base), t1=960))
    c.update(kind="real", case=case, solver=pick(draw, SOLVERS), show=chance(draw, 1, 2),
             cat=pick(draw, ["Integer", "Integer", "Integer", "Continuous", None]))
    return c


@st.composite
def generic(draw):
    case = pick(draw, [3, 3, 1, 2])
    nos = R.generic_numbers(case)
    n = len(nos)
    size = (3, 2) if case == 3 else (2, 1)
    base = R.numbered(W.worlds(min_trains=n // 2, max_trains=n, pairs=False, max_stations=size[0], max_blocks=size[1]), nos)
    c = draw(timed(base, t1=840, spread=(100, 480)))
    c.update(kind="generic", case=case, solver=pick(draw, SOLVERS), cat=pick(draw, ["Integer", None]),
             limit=pick(draw, [None, None, 5, 7.5]))
    return c


@st.composite
def mostly(draw, a, b, n):
    """a; once in n times b"""
    return draw(b if draw(I(1, n)) == n else a)


class P(Property):
    id = "C30"
    quick, thorough = 320, 1600
    rule = ("the programs for the two families of problems, run with generated schedules in place of the shipped "
            "ones (numbers of the delayed trains among the train numbers), all cases, categories and solvers; "
            "non-trivial: a listed delay hits a train of the schedule and the least delay is above zero")
    assumptions = [
        "the delays of a case are those published with the program (listed in pbt/drivers.py)",
        "schedules without any timetable within the allowed delay are left out",
        "the solver libraries are replaced by stand-ins with the documented behaviour (DESIGN.md)",
    ]

    def strategy(self, ctx):
        return mostly(real(), generic(), 8)

    def check(self, ctx, case):
        if case["world"] is None:
            return {"left out": True}
        case = dict(case, world=R.flat_switches(case["world"]))
        return getattr(self, case["kind"])(ctx, case)

    def problem(self, ctx, case, delays, cat):
        """(rules, program solved with the project's own functions) or None without a solution"""
        rs, helpers = load()
        ref = Ref(case["world"])
        delays = [[j, x] for j, x in delays.items() if j in ref.tr]
        if "got" not in case:
            case["got"] = must(Outcome(ctx.call("pipeline", world=case["world"], t1=case["t"], delays=[],
                                                stored=False, default_taus=True)), "preparing a valid schedule")
            case["tau"] = checked_times(ref, case["got"]["timetable"]["tau"])
        ts, tt = case["got"]["train_set"], dict(case["got"]["timetable"])
        ic = dict(tt["initial_conditions"])
        for j, x in delays:
            ic["%s_%s" % (j, ref.st[j][0])] += x
        tt["initial_conditions"] = ic
        rules = D.Rules(expected(ref, {"t1": case["t"], "delays": delays, "d_max": R.D_MAX}, case["tau"]))
        prob = guarded("building the problem", rs.create_linear_problem, ts, tt, R.D_MAX, cat)
        guarded("solving", prob.solve)
        return rules, prob

    @staticmethod
    def size(rules, prob):
        of = {D.delay_name(*v) for v in rules.vars}
        n = len([v for v in prob.variables() if v.name not in of])
        return n, len(prob.variables()) - n, len(prob.constraints)

    def real(self, ctx, case):
        k, w = case["case"], case["world"]
        case["t"] = "16:00"
        cat = case["cat"] or "Integer"
        rules, prob = self.problem(ctx, case, R.REAL_DELAYS[k], cat)
        if prob.status != 1:
            return {"no timetable": True}
        best = prob.objective.value() if prob.objective else 0
        argv = ["--case", str(k), "--solve_lp", case["solver"]]
        if case["cat"]:
            argv += ["--category", case["cat"]]
        if case["show"]:
            argv += ["--show_timetable", "1"]
        r = ctx.call("driver", rel="solve_real_problem.py", runs=[argv], files=R.files(R.REAL[k], w), answers=None)[0]
        must(Outcome(dict({"ok": None}, **{x: r[x] for x in ("exc", "msg", "tb") if x in r}) if "exc" not in r else r),
             "case %d with %s" % (k, argv))
        lp = Outcome({"ok": r["lp"]}).value
        expect([x[0] for x in lp] == [case["solver"]] and "timeLimit" not in lp[0][1], "another solver",
               lambda: "asked for %s, used %s" % (case["solver"], lp))
        self.printed(r["text"], "objective", best)
        self.printed(r["text"], "objective x d_max.*?", best * R.D_MAX)
        nums = tuple(int(x) for x in re.findall(r"^n\.o\..*=\s*(\d+)\s*$", r["text"], re.M))
        expect(nums == self.size(rules, prob), "printed size", lambda: "%s instead of %s" % (nums, self.size(rules, prob)))
        name = "solutions_quantum/data4diagrams/%s_case%d_%s.pkl" % (case["solver"], k, cat)
        made = sorted(f for f in r["files"] if "/" in f)
        expect(made == ([name] if case["show"] else []), "stored files", lambda: "%s instead of %s" % (made, name))
        if case["show"] and cat == "Integer":
            self.stored(rules, Outcome({"ok": r["files"][name]}).value, best, datetime(2020, 1, 1, 16, 0))
        hit = any(j in Ref(w).tr for j in R.REAL_DELAYS[k])
        return {"real": True, "shown": case["show"], "hit": hit or not R.REAL_DELAYS[k], "late": best > 1e-6,
                "case %d" % k: True}

    @staticmethod
    def printed(text, what, best):
        said = re.findall(r"^%s\s+(\S+)\s*$" % what, text, re.M)
        expect(len(said) == 1 and abs(float(said[0]) - best) < 1e-4 * max(1, best), "printed objective",
               lambda: "%s printed, the least is %s" % (said, best))

    @staticmethod
    def stored(rules, rep, best, t0):
        """the stored timetable keeps to the rules and costs what it should"""
        expect(list(rep) == list(rules.J), "trains of the stored timetable", lambda: "%s" % list(rep))
        d = {}
        for j, s in rules.vars:
            at = (rep[j][s]["departure"] - t0).total_seconds() / 60
            late = rep[j][s]["secondary delay"]
            # minutes are cut to whole ones when they are stored
            expect(at <= rules.e[j, s] + late + 1e-6 < at + 1 + 1e-5 or abs(at - rules.e[j, s] - late) < 1 - 1e-4, "stored departure",
                   lambda: "train %s leaves %s at %s with delay %s, it may leave at %s" % (j, s, at, late, rules.e[j, s]))
            d[j, s] = late
        bad = rules.broken(d)
        expect(bad is None, "stored timetable breaks a rule", lambda: "%s; delays %s" % (bad, d))
        cost = rules.cost(d)
        expect(abs(cost - best) < 1e-4, "stored timetable is not the best", lambda: "%s instead of %s" % (cost, best))

    def generic(self, ctx, case):
        k, w = case["case"], case["world"]
        if {t["no"] for t in w["trains"]} != set(R.generic_numbers(k)):
            return {"left out": True}
        case["t"] = "14:00"
        cat = case["cat"] or "Integer"
        todo = R.generic_delays(k, Ref(w).J)
        want = {}
        for i, delays in todo.items():
            rules, prob = self.problem(ctx, case, delays, cat)
            if prob.status != 1:
                return {"no timetable": True}
            want[i] = (prob.objective.value() if prob.objective else 0, self.size(rules, prob))
        argv = ["--case", str(k), "--solve_lp", case["solver"]]
        if case["cat"]:
            argv += ["--category", case["cat"]]
        if case["limit"]:
            argv += ["--time_limit", str(case["limit"])]
        r = ctx.call("driver", rel="solve_KO_GLC_problems.py", runs=[argv], files=R.files(R.GENERIC[k], w), answers=None)[0]
        must(Outcome(r if "exc" in r else {"ok": None}), "generic case %d" % k)
        lp = Outcome({"ok": r["lp"]}).value
        limits = [x[1].get("timeLimit") for x in lp]
        expect([x[0] for x in lp] == [case["solver"]] * len(todo) and limits == [case["limit"]] * len(todo),
               "another solver", lambda: "asked for %s with limit %s, used %s" % (case["solver"], case["limit"], lp))
        lim = "_ilp_t_lim%s" % float(case["limit"]) if case["limit"] else ""
        name = "results_KO_GLC/results_%s%s__%d_%s.pkl" % (case["solver"], lim, k, cat)
        made = sorted(f for f in r["files"] if "/" in f)
        expect(made == [name], "stored files", lambda: "%s instead of %s" % (made, name))
        res = Outcome({"ok": r["files"][name]}).value
        expect((res["method"], res["d_max"], res["case"], res["samples"]) == (case["solver"], R.D_MAX, k, len(todo)),
               "stored settings", lambda: "%s" % {x: res[x] for x in ("method", "d_max", "case", "samples")})
        for i, (best, size) in want.items():
            got = res[i]
            expect(abs(got["objective"] - best * R.D_MAX) < 1e-2 and got["feasible"], "stored objective",
                   lambda: "instance %d: %s, the least delay is %s" % (i, got["objective"], best * R.D_MAX))
            expect((got["order_vars"], got["int_vars"], got["constraints"]) == size, "stored size",
                   lambda: "instance %d: %s instead of %s"
                   % (i, (got["order_vars"], got["int_vars"], got["constraints"]), size))
        return {"generic": True, "hit": True, "late": any(b > 1e-6 for b, _ in want.values()), "generic %d" % k: True}

    def nontrivial(self, lab):
        return bool(lab.get("hit") and lab.get("late"))


PROPERTY = P()
