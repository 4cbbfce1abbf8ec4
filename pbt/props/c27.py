"""Statistics of solutions count every sample once."""
import math
import re

from hypothesis import strategies as st

from ..client import Outcome
from ..dispatch import I, chance, pick
from ..engine import Property
from .common import expect, must

STATIONS = ["KO(STM)", "KO", "CB", "KL", "MJ"]
OTHERS = ["GLC", "KZ", "Ty"]
SQ = "solutions_quantum/"
KG = "results_KO_GLC/"


def mean(xs):
    return math.fsum(xs) / len(xs)


def quantile(xs, q):
    xs = sorted(xs)
    h = q * (len(xs) - 1)
    i = int(h)
    return xs[i] + (h - i) * (xs[min(i + 1, len(xs) - 1)] - xs[i])


def near(a, b, rel=1e-7):
    return len(a) == len(b) and all(abs(float(x) - y) <= rel * max(1, abs(y)) for x, y in zip(a, b))


@st.composite
def realisation(draw, full):
    """trains with delays; with full, every station of interest occurs"""
    out = []
    for no in draw(st.lists(I(1, 9999), min_size=1, max_size=4, unique=True)):
        names = [s for s in STATIONS + OTHERS if chance(draw, 1, 2)]
        out.append([no, [[s, {"secondary delay": pick(draw, [0, 0, 1, draw(I(0, 40))])} if chance(draw, 4, 5) else {}]
                         for s in names]])
    if full:
        out.append([10000, [[s, {"secondary delay": draw(I(0, 40))}] for s in STATIONS]])
    return out


@st.composite
def runs(draw, n=None, feasible=True):
    """results of n solver runs"""
    out = []
    for _ in range(n or draw(I(1, 5))):
        out.append({
            "objective": draw(I(0, 400)) / 40,
            "info": {"run_time": draw(I(1, 90)) * 250000, "qpu_access_time": draw(I(0, 60)) * 1000},
            "feasible": True if feasible else chance(draw, 2, 3),
        })
    return out


@st.composite
def cases(draw):
    kind = pick(draw, ["delays", "delays", "delays", "tmin", "tmin", "tmin_rev", "fast", "fast_lim", "script"])
    if kind == "delays":
        return {"kind": kind, "r": [draw(realisation(i == 0)) for i in range(draw(I(1, 4)))]}
    if kind == "script":
        q = [[draw(realisation(i == 0)) for i in range(draw(I(1, 3)))] for _ in range(2)]
        return {"kind": kind, "q": q, "c": [draw(realisation(True)) for _ in range(2)],
                "which": draw(st.lists(I(0, 1), min_size=20, max_size=20))}
    if kind in ("tmin", "tmin_rev"):
        n = draw(I(1, 5))
        t = sorted(draw(st.lists(I(1, 80), min_size=2, max_size=5, unique=True)))
        return {"kind": kind, "case": pick(draw, ["case7", "case9"]), "t": t, "runs": [draw(runs(n)) for _ in t]}
    n = draw(I(1, 6))
    times = [5, 20][:draw(I(1, 2))]
    lp = [{"objective": draw(I(0, 400)) / 4, "comp_time_seconds": draw(I(1, 400)) / 8, "feasible": chance(draw, 2, 3),
           "int_vars": draw(I(1, 99)), "order_vars": draw(I(1, 99)), "constraints": draw(I(1, 999))} for _ in range(n)]
    lim = [dict(d, objective=draw(I(0, 400)) / 4, comp_time_seconds=draw(I(1, 400)) / 8) for d in lp]
    return {"kind": kind, "case": draw(I(1, 3)), "times": times, "d_max": pick(draw, [40, 10]),
            "q": [draw(runs(n, feasible=False)) for _ in times], "lp": lp, "lim": lim}


class P(Property):
    id = "C27"
    quick, thorough = 8000, 64000
    rule = ("collections of results: realisations of delays, sweeps of solver runs, runs next to an exact solver; the "
            "numbers printed and the series put into figures are compared with counting; non-trivial: two or more "
            "results that differ")
    assumptions = ["matplotlib is replaced by a stand-in that writes down the series of a figure",
                   "series are told by their labels, as a reader of the figure does"]

    def strategy(self, ctx):
        return cases()

    def check(self, ctx, case):
        return getattr(self, case["kind"].split("_")[0])(ctx, case)

    def collected(self, rs):
        want = {}
        for r in rs:
            for _, stations in r:
                for s, d in stations:
                    if "secondary delay" in d:
                        want.setdefault(s, []).append(d["secondary delay"])
        return want

    def delays(self, ctx, case):
        a, b = ctx.call("statistics", realisations=case["r"], stations=STATIONS)
        got = must(Outcome(a), "collecting delays")
        want = self.collected(case["r"])
        expect({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}, "delays collected",
               lambda: "%s instead of %s" % (got, want))
        q25, means, q75 = must(Outcome(b), "statistics")
        for what, have, f in (("quantile 0.25", q25, lambda x: quantile(x, 0.25)), ("mean", means, mean),
                              ("quantile 0.75", q75, lambda x: quantile(x, 0.75))):
            exp = [f(want[s]) for s in STATIONS]
            expect(near(have, exp), what, lambda: "%s instead of %s for %s" % (have, exp, want))
        return {"two differ": any(len(set(v)) > 1 for v in want.values()), "realisations": len(case["r"]) > 1}

    def script(self, ctx, case):
        files = []
        w = case["which"]
        for k in range(10):
            q = case["q"][w[k]]
            files.append(["cqm5_case%d_Integer.pkl" % k, ["scheds", [[i + 1, r] for i, r in enumerate(q)]]])
            files.append(["PULP_CBC_CMD_case%d_Integer.pkl" % k, ["sched", case["c"][w[10 + k]]]])
        r = ctx.call("script", rel=SQ + "data4diagrams/visualise_statistics.py", argv=[], files=files)
        text = must(Outcome(r), "statistics")
        rows = {n: [] for n in ("max delay", "quantile 75", "mean", "quantile 25", "min")}
        cases_ = []
        for line in text.splitlines():
            m = re.match(r"^case (\d+)$", line)
            if m:
                cases_.append(int(m.group(1)))
            for n in rows:
                if line.startswith(n + " ["):
                    nums = re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?:e-?\d+)?", line[len(n):])
                    rows[n].append([float(x) for x in nums])
        expect(cases_ == list(range(10)) * 2, "cases", lambda: "%s" % cases_)
        F = {"max delay": max, "quantile 75": lambda x: quantile(x, 0.75), "mean": mean,
             "quantile 25": lambda x: quantile(x, 0.25), "min": min}
        wants = [self.collected(case["q"][w[k]]) for k in range(10)] + [
            self.collected([case["c"][w[10 + k]]]) for k in range(10)]
        for n, f in F.items():
            expect(len(rows[n]) == 20, "printed numbers", lambda: "%d times %s" % (len(rows[n]), n))
            for k in range(20):
                exp = [f(wants[k][s]) for s in STATIONS]
                expect(near(rows[n][k], exp), "printed numbers",
                       lambda: "case %d, %s: %s instead of %s" % (k, n, rows[n][k], exp))
        saved = {n: axes for n, axes in Outcome({"ok": r["saved"]}).value}
        for k in range(20):
            if k % 10 not in (0, 4, 7):
                continue
            name = ("statistics_case%d.pdf" if k < 10 else "classical_statistics_case%d.pdf") % (k % 10)
            expect(name in saved, "figure", lambda: "%s was not saved, only %s" % (name, sorted(saved)))
            ser = saved[name][0]["series"]
            title = saved[name][0]["title"] or ""
            expect(re.findall(r"\d+", title) == [str(k % 10)] and ("CPLEX" in title) == (k >= 10), "title of a figure",
                   lambda: "%s: %s" % (name, title))
            d = [wants[k][s] for s in STATIONS]
            e = [s for s in ser if s["kind"] == "errorbar"]
            expect(len(e) == 1 and e[0]["x"] == STATIONS and near(e[0]["y"], [mean(x) for x in d])
                   and near(e[0]["yerr"][0], [mean(x) - min(x) for x in d])
                   and near(e[0]["yerr"][1], [max(x) - mean(x) for x in d]), "range in a figure",
                   lambda: "%s: %s for %s" % (name, e, d))
            q = [s["y"] for s in ser if s["kind"] == "plot"]
            exp = [[quantile(x, p) for x in d] for p in (0.25, 0.75)]
            expect(len(q) == 2 and (near(q[0], exp[0]) and near(q[1], exp[1]) or near(q[1], exp[0]) and near(q[0], exp[1])),
                   "quantiles in a figure", lambda: "%s: %s instead of %s" % (name, q, exp))
        return {"two differ": True, "whole script": True}

    def tmin(self, ctx, case):
        rev = case["kind"] == "tmin_rev"
        files = [["cqm%d_%s_Integer.pkl" % (t, case["case"]), ["runs", [[i + 1, x] for i, x in enumerate(r)]]]
                 for t, r in zip(case["t"], case["runs"])]
        rt = [mean([x["info"]["run_time"] / 1e6 for x in r]) for r in case["runs"]]
        if rev and len(set(rt)) < 2:
            return {"left out": True}
        r = ctx.call("figures", rel=SQ + ("tmin_plot_rev.py" if rev else "tmin_plot.py"), fn="plotting_objective",
                     args=["cqm", case["case"], case["t"]], files=files)
        must(Outcome(r), "plotting")
        saved = Outcome({"ok": r["saved"]}).value
        expect(len(saved) == 1, "figure", lambda: "%d figures" % len(saved))
        axes = saved[0][1]
        obj = [[x["objective"] * 40 for x in rs] for rs in case["runs"]]
        xs = rt if rev else [float(t) for t in case["t"]]
        ser = axes[0]["series"]
        m = [s for s in ser if s["label"] == "mean"]
        expect(len(m) == 1 and near(m[0]["x"], xs) and near(m[0]["y"], [mean(o) for o in obj]), "mean objective",
               lambda: "%s instead of %s at %s" % (m, [mean(o) for o in obj], xs))
        for f in (min, max):
            exp = [f(o) for o in obj]
            expect(any(near(s["y"], exp) and near(s["x"], xs) for s in ser if s["label"] != "mean"), "range of objectives",
                   lambda: "%s at %s is not in the figure: %s" % (exp, xs, ser))
        best = {"case7": 188.75, "case9": 185.5}[case["case"]]
        expect(any(s["label"] in ("CPLEX", "Optimum") and near(s["y"], [best] * len(s["y"])) for s in ser), "optimum",
               lambda: "%s is not in the figure" % best)
        if not rev:
            s = [s for s in axes[1]["series"] if s["label"] == "mean CQM"]
            expect(len(s) == 1 and near(s[0]["y"], rt), "computation time", lambda: "%s instead of %s" % (s, rt))
            for f in (min, max):
                exp = [f(x["info"]["qpu_access_time"] / 1e6 for x in rs) for rs in case["runs"]]
                expect(any(near(s["y"], exp) for s in axes[2]["series"]), "access time",
                       lambda: "%s is not in the figure" % exp)
        return {"two differ": any(len(set(o)) > 1 for o in obj), "sweep": True}

    def fast(self, ctx, case):
        lim = case["kind"] == "fast_lim"
        n = len(case["lp"])

        def res(rows):
            return [[i, x] for i, x in enumerate(rows)] + [["samples", n], ["d_max", case["d_max"]], ["case", case["case"]]]

        files = [["results%d__cqm_%d_Integer.pkl" % (t, case["case"]), ["runs", res(q)]]
                 for t, q in zip(case["times"], case["q"])]
        files.append(["results_CPLEX_CMD__%d_Integer.pkl" % case["case"], ["runs", res(case["lp"])]])
        files.append(["results_CPLEX_CMD_ilp_t_lim5.0__%d_Integer.pkl" % case["case"], ["runs", res(case["lim"])]])
        r = ctx.call("figures", rel=KG + ("fast_plot_lim.py" if lim else "fast_plot.py"), fn="plotting_comparisons",
                     args=[["CPLEX_CMD"], [case["case"]], [["case", case["case"], case["times"]]]], files=files)
        must(Outcome(r), "plotting")
        saved = Outcome({"ok": r["saved"]}).value
        expect(len(saved) == 1, "figure", lambda: "%d figures" % len(saved))
        axes = saved[0][1]
        colour = lambda rows: ["green" if x["feasible"] else "red" for x in rows]
        for t, q in zip(case["times"], case["q"]):
            for k, ys in enumerate([[x["objective"] * case["d_max"] for x in q], [x["info"]["run_time"] / 1e6 for x in q],
                                    [x["info"]["qpu_access_time"] / 1e6 for x in q]]):
                s = [s for s in axes[k]["series"] if s["kind"] == "scatter" and (s["label"] or "").endswith(" %d" % t)]
                expect(len(s) == 1 and near(s[0]["y"], ys) and s[0]["color"] == colour(q), "runs in a figure",
                       lambda: "axis %d, limit %d: %s instead of %s, %s" % (k, t, s, ys, colour(q)))
        for k, key in ((0, "objective"), (1, "comp_time_seconds")):
            ys = [x[key] for x in case["lp"]]
            s = [s for s in axes[k]["series"] if s["kind"] == "plot" and (s["label"] or "").startswith("CPLEX")
                 and "limit" not in s["label"]]
            expect(len(s) == 1 and near(s[0]["y"], ys), "exact solver in a figure", lambda: "%s: %s instead of %s" % (key, s, ys))
            c = [s for s in axes[k]["series"] if s["kind"] == "scatter" and not s["label"]]
            expect(len(c) == 1 and near(c[0]["y"], ys) and c[0]["color"] == colour(case["lp"]), "exact solver in a figure",
                   lambda: "%s: %s instead of %s, %s" % (key, c, ys, colour(case["lp"])))
            if lim:
                ys = [x[key] for x in case["lim"]]
                s = [s for s in axes[k]["series"] if s["kind"] == "plot" and "limit" in (s["label"] or "")]
                expect(len(s) == 1 and near(s[0]["y"], ys), "limited solver in a figure",
                       lambda: "%s: %s instead of %s" % (key, s, ys))
        return {"two differ": n > 1, "next to exact solver": True, "infeasible": not all(x["feasible"] for q in case["q"] for x in q)}

    def nontrivial(self, lab):
        return lab.get("two differ")


PROPERTY = P()
