"""Solvers receive the problem and the settings asked for, answers come back intact."""
import contextlib

import numpy as np
from hypothesis import strategies as st

from .. import programs as G
from ..dispatch import I, chance, pick
from ..engine import Property
from ..solvers import guarded, load
from .common import expect


@st.composite
def cases(draw):
    how = pick(draw, ["sim", "sim", "sim default", "real", "hybrid", "cqm", "cqm default", "run sim", "run real", "run bqm", "run cqm"])
    return {
        "g": draw(G.programs()),
        "how": how,
        "beta": [draw(I(1, 9)) / 10, draw(I(1, 50))],
        "sweeps": draw(I(1, 5000)), "reads": draw(I(1, 5000)),
        "time": draw(I(3, 300)), "anneal": draw(I(1, 2000)), "chain": draw(I(1, 80)) / 4,
        "pen": draw(I(1, 20)) / 2,
        "x": draw(G.assignments()),
        "pick": draw(st.lists(I(0, 30), min_size=1, max_size=6)),
        "e": draw(st.lists(I(-6, 6), min_size=6, max_size=6)),
        "noise": draw(st.lists(I(0, 1), min_size=1, max_size=11)),
    }


@contextlib.contextmanager
def answers(f):
    import dwave.system
    import neal

    neal.CALLS.clear()
    dwave.system.CALLS.clear()
    neal.ANSWER = dwave.system.ANSWER = f
    try:
        yield neal.CALLS, dwave.system.CALLS
    finally:
        neal.ANSWER = dwave.system.ANSWER = None


class P(Property):
    id = "C24"
    quick, thorough = 10000, 80000
    rule = ("every way of calling a solver (annealing simulation, annealer, both hybrid solvers; directly and through "
            "the run of a problem) with random settings, programs and returned sets of samples; non-trivial: three or "
            "more samples came back for a program of two or more variables")
    assumptions = ["the solvers are replaced by stand-ins that take the documented arguments and note them",
                   "every constraint can be met on its own within the bounds"]

    def strategy(self, ctx):
        return cases()

    def check(self, ctx, case):
        rs, helpers = load()
        import dimod

        prob = G.build(case["g"])
        plain = G.describe(prob)
        if not plain.satisfiable_alone() or not plain.vars:
            return {"left out": True}
        pen = {f: case["pen"] for f in G.FAMILIES}
        pen.update(objective=1, occupation=case["pen"])
        bqm, _, interp = guarded("conversion", rs.convert_to_bqm, prob, dict(pen))
        cqm = guarded("conversion", rs.convert_to_cqm, prob)
        how = case["how"]
        quadratic = "cqm" not in how
        # the answer of the solver
        pool = G.values(plain, case["x"])
        pool.sort(key=lambda x: sum(plain.excess(r, x) > 0 for r in plain.rows))
        xs = [pool[k % len(pool)] for k in case["pick"]]
        es = [float(case["e"][i % 6]) for i in range(len(xs))]
        info = {"timing": case["time"], "id": "x"}
        B = G.Bits(bqm, interp, plain) if quadratic else None
        if quadratic:
            rows = []
            for i, x in enumerate(xs):
                b = B.least(x, i)[1]
                if i % 2:
                    for k in B.slack:
                        b[k] = case["noise"][k % len(case["noise"])]
                rows.append([int(v) for v in b])
            given = dimod.SampleSet.from_samples((rows, B.labels), "BINARY", es, info=info)
        else:
            names = [v[0] for v in plain.vars]
            given = dimod.SampleSet.from_samples(([[x[n] for n in names] for x in xs], names), "INTEGER", es, info=info)
        with answers(lambda m: given) as (sim_calls, sys_calls):
            lo, hi = case["beta"]
            if how == "sim":
                back = guarded(how, rs.sim_anneal, bqm, beta_range=(lo, hi), num_sweeps=case["sweeps"], num_reads=case["reads"])
            elif how == "sim default":
                back = guarded(how, rs.sim_anneal, bqm)
            elif how == "real":
                back = guarded(how, rs.real_anneal, bqm, case["reads"], case["anneal"], case["chain"])
            elif how == "hybrid":
                back, props = guarded(how, rs.hybrid_anneal, bqm, case["time"])
            elif how == "cqm":
                back, props = guarded(how, rs.constrained_solver, cqm, case["time"])
            elif how == "cqm default":
                back, props = guarded(how, rs.constrained_solver, cqm)
            else:
                best = guarded(how, helpers.solve_on_quantum, prob, how.split()[1], dict(pen), case["time"])
                back = None
            calls = sim_calls if "sim" in how else sys_calls
            other = sys_calls if "sim" in how else sim_calls
            expect(len(calls) == 1 and not other, "calls of solvers",
                   lambda: "%s: %d calls of the solver, %d of another" % (how, len(calls), len(other)))
            c = calls[0]
        want = {"sim": None, "sim default": None, "run sim": None, "real": "annealer", "run real": "annealer",
                "hybrid": "hybrid", "run bqm": "hybrid", "cqm": "cqm", "cqm default": "cqm", "run cqm": "cqm"}[how]
        expect(c.get("solver") == want, "another solver", lambda: "%s instead of %s" % (c.get("solver"), want))
        self.settings(case, how, c)
        # the model handed over
        m = c["model"]
        if quadratic:
            expect(sorted(m.variables) == sorted(bqm.variables), "another model", "the variables handed over differ")
            for r in rows:
                s = dict(zip(B.labels, r))
                expect(abs(m.energy(s) - bqm.energy(s)) < 1e-6 * max(1, abs(bqm.energy(s))), "another model",
                       lambda: "energy %s handed over, %s in the model" % (m.energy(s), bqm.energy(s)))
        else:
            expect(set(m.constraints) == set(cqm.constraints) and set(m.variables) == set(cqm.variables), "another model",
                   "constraints or variables handed over differ")
            for x in xs:
                expect(abs(m.objective.energy(x) - float(plain.objective(x))) < 1e-6 if plain.obj else True,
                       "another model", "the objective handed over differs")
        # what came back
        if back is not None:
            got = sorted((float(d.energy), sorted(dict(d.sample).items())) for d in back.data())
            orig = sorted((float(d.energy), sorted(dict(d.sample).items())) for d in given.data())
            expect(got == orig and dict(back.info) == info, "answer changed", lambda: "%s instead of %s" % (got[:2], orig[:2]))
        else:
            feas = [float(plain.objective(x)) for x in xs if plain.feasible(x)]
            sample = {n: float(best["sample"][n]) for n, _, _ in plain.vars}
            ok = [i for i, x in enumerate(xs) if {k: float(v) for k, v in x.items()} == sample
                  and es[i] == float(best["energy"])]
            expect(bool(ok), "answer changed", lambda: "%s with energy %s is none of the samples" % (sample, best["energy"]))
            x = xs[ok[0]]
            expect(bool(best["feasible"]) == plain.feasible(x)
                   and abs(float(best["objective"]) - float(plain.objective(x))) < 1e-6, "answer misjudged",
                   lambda: "feasible %s, objective %s for %s" % (best["feasible"], best["objective"], x))
            if feas:
                expect(bool(best["feasible"]) and abs(float(best["objective"]) - min(feas)) < 1e-6, "not the best answer",
                       lambda: "objective %s, feasible %s, the least feasible is %s"
                       % (best["objective"], best["feasible"], min(feas)))
            else:
                expect(float(best["energy"]) == min(es), "not the best answer",
                       lambda: "energy %s, the least is %s" % (best["energy"], min(es)))
            expect(best["info"] == info, "information lost", lambda: "%s instead of %s" % (best["info"], info))
            expect(best["comp_time_seconds"] >= 0, "time", "negative computing time")
            if how == "run sim":
                p = best["properties"]
                expect(p.get("num_sweeps") == c["num_sweeps"] and p.get("num_reads") == c["num_reads"]
                       and tuple(p.get("beta_range")) == tuple(c["beta_range"]), "settings misreported",
                       lambda: "reported %s, used reads %s, sweeps %s, betas %s"
                       % (p, c["num_reads"], c["num_sweeps"], c["beta_range"]))
        if how in ("hybrid", "run bqm", "cqm", "run cqm"):
            p = best["properties"] if back is None else props
            expect(case["time"] in (p.get("minimum_time_limit_s"), c["time_limit"]), "time limit misreported",
                   lambda: "asked for %s s, the solver runs %s s, reported %s"
                   % (case["time"], c["time_limit"], p.get("minimum_time_limit_s")))
        if how in ("hybrid", "run bqm"):
            expect(c["time_limit"] >= case["time"], "hybrid time limit",
                   lambda: "asked for %s s, the solver runs %s s" % (case["time"], c["time_limit"]))
        return {how: True, "three or more samples": len(xs) >= 3, "two or more variables": len(plain.vars) >= 2}

    @staticmethod
    def settings(case, how, c):
        if how in ("sim", "sim default"):
            lo, hi = case["beta"] if how == "sim" else (5, 100)
            sweeps = case["sweeps"] if how == "sim" else 4000
            reads = case["reads"] if how == "sim" else 1000
            expect(tuple(c["beta_range"]) == (lo, hi) and c["num_sweeps"] == sweeps and c["num_reads"] == reads,
                   "settings of the simulation",
                   lambda: "asked for betas %s, %s sweeps, %s reads; the solver got %s, %s, %s"
                   % ((lo, hi), sweeps, reads, c["beta_range"], c["num_sweeps"], c["num_reads"]))
        elif how == "real":
            expect(c["num_reads"] == case["reads"] and c["annealing_time"] == case["anneal"]
                   and c["chain_strength"] == case["chain"], "settings of the annealer",
                   lambda: "asked for %s reads, time %s, chain strength %s; the solver got %s"
                   % (case["reads"], case["anneal"], case["chain"], {k: v for k, v in c.items() if k != "model"}))
        elif how in ("cqm", "cqm default", "run cqm"):
            t = 5 if how == "cqm default" else case["time"]
            expect(c["time_limit"] == t, "time limit of the constrained solver",
                   lambda: "asked for %s s, the solver runs %s s" % (t, c["time_limit"]))

    def nontrivial(self, lab):
        return lab.get("three or more samples") and lab.get("two or more variables")


PROPERTY = P()
