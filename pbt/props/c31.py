"""Answers of the quantum solvers are stored, judged and shown by the programs as they came."""
import contextlib
import io
import os
import runpy
import sys
from datetime import datetime, timedelta

from hypothesis import strategies as st

from .. import dispatch as D
from .. import drivers as R
from .. import programs as G
from .. import worlds as W
from ..client import REPO, Outcome
from ..solvers import guarded, load
from ..worlds import I, chance, pick
from .c11 import with_pairs
from .c29 import cases as timed
from .c30 import P as Programs, mostly
from .common import expect, must


@st.composite
def real(draw):
    case = draw(I(0, 9))
    nos = sorted(set(R.REAL_DELAYS[case]) or set(R.MANY))
    base = R.renumbered(W.worlds(min_trains=2, max_trains=4), nos)
    c = draw(timed(with_pairs(base), t1=960))
    c.update(kind="real", case=case, cat=pick(draw, ["Integer", "Integer", None]), min_t=draw(I(5, 90)),
             runs=draw(I(1, 3)), method=pick(draw, ["cqm"] * 5 + ["sim", "real", "bqm"]),
             shift=draw(st.lists(st.lists(st.tuples(I(0, 7), I(0, 2)), min_size=1, max_size=8), min_size=1, max_size=6)),
             penalty=pick(draw, [None, 2.5, 8]))
    return c


@st.composite
def wisla(draw):
    return {"kind": "wisla", "min_t": draw(I(5, 90)), "limit": pick(draw, [None, 3, 12.5]),
            "method": pick(draw, ["cqm"] * 6 + ["lp", "lp", "sim", "real", "bqm"]),
            "solver": pick(draw, ["PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD"]), "show": chance(draw, 1, 2),
            "shift": draw(st.lists(st.lists(st.tuples(I(0, 10), I(0, 2)), min_size=6, max_size=6), min_size=1, max_size=6))}


@st.composite
def generic(draw):
    nos = R.generic_numbers(3)
    base = R.numbered(W.worlds(min_trains=4, max_trains=len(nos), pairs=False, max_stations=3, max_blocks=2), nos)
    c = draw(timed(base, t1=840, spread=(100, 480)))
    c.update(kind="generic", case=3, cat=pick(draw, ["Integer", None]), min_t=draw(I(5, 90)),
             shift=draw(st.lists(st.lists(st.tuples(I(0, 7), I(0, 2)), min_size=1, max_size=8), min_size=1, max_size=3)))
    return c


def fixed(prob, of, d):
    """values of all variables with these delays, and whether all constraints can be met with them"""
    delays = {of[v]: x for v, x in d.items()}
    keep = {}
    try:
        for v in prob.variables():
            if v.name in delays:
                keep[v] = (v.lowBound, v.upBound)
                v.lowBound = v.upBound = delays[v.name]
        ok = guarded("solving", prob.solve) == 1
        x = {v.name: int(round(v.varValue)) if ok else delays.get(v.name, 0) for v in prob.variables()}
    finally:
        for v, (a, b) in keep.items():
            v.lowBound, v.upBound = a, b
    return x, ok


class P(Programs):
    id = "C31"
    quick, thorough = 400, 1600
    rule = ("programs run twice, to solve and to show, with generated answers of the solvers: timetables that meet or "
            "break the rules in a few places; non-trivial: an answer with delays above zero is stored and shown")
    assumptions = [
        "the solvers are replaced by stand-ins that give generated answers and note the settings (DESIGN.md)",
        "schedules without any timetable within the allowed delay are left out",
    ]

    def strategy(self, ctx):
        return mostly(st.one_of(real(), real(), wisla()), generic(), 20)

    def check(self, ctx, case):
        if case.get("world", 0) is None:
            return {"left out": True}
        if case["kind"] == "wisla":
            return self.wisla(ctx, dict(case))
        return getattr(self, case["kind"])(ctx, dict(case, world=R.flat_switches(case["world"])))

    @staticmethod
    def rows(rules, prob, of, shifts, cap):
        """[(values, all rules met, cost)] of the answers, from the best timetable with some trains later"""
        base = {v: int(round(x.varValue)) for x in prob.variables() for v in rules.vars if of[v] == x.name}
        out = []
        for sh in shifts:
            d = {}
            for n, j in enumerate(rules.J):
                plus, how = sh[n % len(sh)]
                for i, s in enumerate(rules.paths[j]):
                    if (j, s) in base:
                        more = plus if how < 2 or i == 0 else 0
                        d[j, s] = min(base[j, s] + (0 if how == 0 else more), cap)
            x, ok = fixed(prob, of, d)
            bad = rules.broken(d)
            expect(ok == (bad is None), "constraints of the program",
                   lambda: "the program %s delays %s; %s" % ("takes" if ok else "refuses", d, bad or "no rule is broken"))
            out.append((x, ok, rules.cost(d)))
        return out

    @staticmethod
    def answer(rows):
        names = list(rows[0][0])
        return {"rows": [[x[n] for n in names] for x, _, _ in rows], "labels": names, "kind": "INTEGER",
                "energies": [float(i) for i in range(len(rows))], "info": {"id": len(rows)}}

    @staticmethod
    def judged(sample, rows):
        """the stored sample is the best of the answers"""
        got = {n: float(v) for n, v in sample["sample"].items()}
        ok = [r for r in rows if r[1]]
        for x, good, cost in ([r for r in ok if abs(r[2] - min(q[2] for q in ok)) < 1e-6] if ok else rows):
            if {n: float(v) for n, v in x.items()} == got:
                expect(bool(sample["feasible"]) == good and abs(sample["objective"] - cost) < 1e-6, "answer misjudged",
                       lambda: "feasible %s, objective %s stored for %s, %s" % (sample["feasible"], sample["objective"], good, cost))
                return
        expect(False, "another answer stored", lambda: "%s is not the best of %s" % (got, rows))

    def run(self, ctx, rel, runs, files, answers):
        out = ctx.call("driver", rel=rel, runs=runs, files=files, answers=answers)
        for r, a in zip(out, runs):
            must(Outcome(r if "exc" in r else {"ok": None}), "%s %s" % (rel, " ".join(a)))
        return out

    @staticmethod
    def calls(r, method, n, min_t):
        want = {"cqm": "cqm", "bqm": "hybrid", "real": "annealer", "sim": None}[method]
        got = [Outcome({"ok": c["solver"]}).value if "solver" in c else None for c in r["calls"]]
        expect(got == [want] * n, "another solver", lambda: "%s called for %d runs of %s" % (got, n, method))
        if method == "cqm":
            ts = [Outcome({"ok": c["time_limit"]}).value for c in r["calls"]]
            expect(ts == [min_t] * n, "another time limit", lambda: "%s instead of %s" % (ts, min_t))

    @staticmethod
    def files(r, names):
        made = sorted(f for f in r["files"] if "/" in f)
        expect(made == sorted(names), "stored files", lambda: "%s instead of %s" % (made, names))
        return [Outcome({"ok": r["files"][n]}).value for n in names]

    @staticmethod
    def shown(rules, of, name, rep, sample, t0):
        """the timetable stored for diagrams is that of the sample"""
        expect(list(rep) == [name(j) for j in rules.J], "trains shown", lambda: "%s" % list(rep))
        for j, s in rules.vars:
            at = rules.e[j, s] + sample[of[j, s]]
            room = 59.9 if at == int(at) else 60.1
            at = t0 + timedelta(minutes=at)
            got = rep[name(j)][s]
            # seconds are cut off or rounded away
            expect(abs((got["departure"] - at).total_seconds()) < room and abs(got["secondary delay"] - sample[of[j, s]]) < 1e-6,
                   "departure shown", lambda: "%s leaves %s at %s with delay %s; in the answer at %s with %s"
                   % (name(j), s, got["departure"], got["secondary delay"], at, sample[of[j, s]]))

    def real(self, ctx, case):
        k, m, n = case["case"], case["method"], case["runs"]
        cat = case["cat"] or "Integer"
        case["t"] = "16:00"
        rules, prob = self.problem(ctx, case, R.REAL_DELAYS[k], cat)
        if prob.status != 1:
            return {"no timetable": True}
        of = {v: D.delay_name(*v) for v in rules.vars}
        rs, _ = load()
        argv = ["--case", str(k), "--solve_quantum", m, "--min_t", str(case["min_t"]), "--runs", str(n)]
        if case["cat"]:
            argv += ["--category", case["cat"]]
        if m != "cqm" and case["penalty"]:
            argv += ["--penalty", str(case["penalty"])]
        rows = [self.rows(rules, prob, of, case["shift"][:i + 1], R.D_MAX) for i in range(n)]
        if m == "cqm":
            answers = [self.answer(r) for r in rows]
        else:
            if any(x != int(x) for c in prob.constraints.values() for x in list(c.values()) + [c.constant]):
                return {"not whole": True}
            answers = [{"random": i} for i in range(n)] if m != "sim" else None
        a, b = self.run(ctx, "solve_real_problem.py", [argv, argv + ["--show_timetable", "1"]],
                        R.files(R.REAL[k], case["world"]), answers)
        p = str(case["min_t"]) if m in ("cqm", "bqm") else ""
        if m != "cqm":
            p += "_%s" % float(case["penalty"] or 1)
        name = "%s%s_case%d_%s.pkl" % (m, p, k, cat)
        saved, = self.files(a, ["solutions_quantum/" + name])
        reps, = self.files(b, ["solutions_quantum/data4diagrams/" + name])
        self.calls(a, m, n, case["min_t"])
        expect(not b["calls"], "solver called again", "to show a timetable")
        want = list(range(1, n + 1))
        expect(sorted(saved) == want and sorted(reps) == want, "runs stored", lambda: "%s, %s" % (list(saved), list(reps)))
        plain = G.describe(prob)
        for i in want:
            if m == "cqm":
                self.judged(saved[i], rows[i - 1])
            else:
                self.own(plain, saved[i])
            self.shown(rules, of, lambda j: j, reps[i], saved[i]["sample"], datetime(2020, 1, 1, 16, 0))
        return self.labels(m, rules, of, [saved[i]["sample"] for i in want], "real")

    @staticmethod
    def own(plain, sample):
        x = {n: sample["sample"][n] for n, _, _ in plain.vars}
        expect(bool(sample["feasible"]) == plain.feasible(x) and abs(sample["objective"] - float(plain.objective(x))) < 1e-6,
               "answer misjudged", lambda: "feasible %s, objective %s of %s" % (sample["feasible"], sample["objective"], x))

    @staticmethod
    def labels(m, rules, of, samples, kind):
        return {kind: True, m: True, "late": any(s[of[v]] > 0 for s in samples for v in rules.vars)}

    def wisla(self, ctx, case):
        m = case["method"]
        rules = D.Rules(R.wisla())
        name = R.WISLA_NAMES.get
        of = {(j, s): D.delay_name(name(j), s) for j, s in rules.vars}
        t0 = datetime(2020, 1, 1, 8, 0)
        rel = "wisla_problems.py"
        if m == "lp":
            argv = ["--solve_lp", case["solver"]] + (["--time_limit", str(case["limit"])] if case["limit"] else [])
            r, = self.run(ctx, rel, [argv + (["--show_timetable", "1"] if case["show"] else [])], [], None)
            lp = Outcome({"ok": r["lp"]}).value
            expect([(x[0], x[1].get("timeLimit")) for x in lp] == [(case["solver"], case["limit"])], "another solver",
                   lambda: "asked for %s with limit %s, used %s" % (case["solver"], case["limit"], lp))
            best = rules.optimum()[0]
            self.printed(r["text"], "objective", best)
            reps = self.files(r, ["solutions_quantum/wisla/data4diagrams/%s_wisla_case1.pkl" % case["solver"]] if case["show"] else [])
            if case["show"]:
                rep = {j: reps[0][name(j)] for j in rules.J}
                self.stored(rules, rep, best, t0)
            return {"wisla": True, "lp": True}
        with contextlib.redirect_stdout(io.StringIO()):
            load()
            old, sys.argv = sys.argv, [rel]
            try:
                prob = runpy.run_path(os.path.join(REPO, rel), run_name="__main__")["prob"]
            except KeyError:
                return {"left out": True}
            finally:
                sys.argv = old
        guarded("solving", prob.solve)
        rows = self.rows(rules, prob, of, case["shift"], 10)
        answers = [self.answer(rows)] if m == "cqm" else [{"random": 7}] if m != "sim" else None
        argv = ["--solve_quantum", m, "--min_t", str(case["min_t"])]
        a, b = self.run(ctx, rel, [argv, argv + ["--show_timetable", "1"]], [], answers)
        f = "%s_wisla%s_case1.pkl" % (m, case["min_t"] if m in ("cqm", "bqm") else "")
        saved, = self.files(a, ["solutions_quantum/wisla/" + f])
        rep, = self.files(b, ["solutions_quantum/wisla/data4diagrams/" + f])
        self.calls(a, m, 1, case["min_t"])
        if m == "cqm":
            self.judged(saved, rows)
        else:
            self.own(G.describe(prob), saved)
        self.shown(rules, of, name, rep, saved["sample"], t0)
        return self.labels(m, rules, of, [saved["sample"]], "wisla")

    def generic(self, ctx, case):
        k, cat = case["case"], case["cat"] or "Integer"
        if {t["no"] for t in case["world"]["trains"]} != set(R.generic_numbers(k)):
            return {"left out": True}
        case["t"] = "14:00"
        todo = R.generic_delays(k, None)
        rows, plain = {}, {}
        for i, delays in todo.items():
            rules, prob = self.problem(ctx, case, delays, cat)
            if prob.status != 1:
                return {"no timetable": True}
            of = {v: D.delay_name(*v) for v in rules.vars}
            rows[i] = self.rows(rules, prob, of, case["shift"], R.D_MAX)
            plain[i] = G.describe(prob), self.size(rules, prob)
        argv = ["--case", str(k), "--solve_quantum", "cqm", "--min_t", str(case["min_t"])]
        if case["cat"]:
            argv += ["--category", case["cat"]]
        r, = self.run(ctx, "solve_KO_GLC_problems.py", [argv], R.files(R.GENERIC[k], case["world"]),
                      [self.answer(rows[i]) for i in todo])
        self.calls(r, "cqm", len(todo), case["min_t"])
        made = sorted(f for f in r["files"] if "/" in f)
        expect(len(made) == 1 and made[0].startswith("results_KO_GLC/results") and made[0].endswith("_cqm_%d_%s.pkl" % (k, cat)),
               "stored files", lambda: "%s" % made)
        res = Outcome({"ok": r["files"][made[0]]}).value
        expect((res["d_max"], res["case"], res["samples"]) == (R.D_MAX, k, len(todo)), "stored settings",
               lambda: "%s" % {x: res[x] for x in ("d_max", "case", "samples")})
        for i in todo:
            got, (p, size) = res[i], plain[i]
            self.judged(got, rows[i])
            x = {n: got["sample"][n] for n, _, _ in p.vars}
            bad = sum(p.excess(q, x) > 1e-9 for q in p.rows)
            expect((got["order_vars"], got["int_vars"], got["constraints"]) == size and got["broken_constraints"] == bad,
                   "stored size", lambda: "instance %d: %s with %s broken instead of %s with %s" % (
                       i, (got["order_vars"], got["int_vars"], got["constraints"]), got["broken_constraints"], size, bad))
        return {"generic": True, "cqm": True, "late": True}

    def nontrivial(self, lab):
        return bool(lab.get("late"))


PROPERTY = P()
