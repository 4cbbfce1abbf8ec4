"""Samples are judged by what the program says about them."""
from hypothesis import strategies as st

from .. import programs as G
from ..dispatch import I
from ..engine import Property
from ..solvers import guarded, load
from .common import expect


class P(Property):
    id = "C23"
    quick, thorough = 16000, 128000
    rule = ("integer programs as for C20, also with fractions of minutes, and collections of 3-9 samples: corners, random, solutions, their neighbours, "
            "repeated ones, with energies in any order; non-trivial: feasible and infeasible samples together")
    assumptions = ["data are whole minutes, halves or tenths, so a constraint missed by less than a millionth is met"]

    def strategy(self, ctx):
        return st.fixed_dictionaries({
            "g": G.programs(fractions=True), "x": G.assignments(),
            "pick": st.lists(I(0, 30), min_size=3, max_size=9),
            "e": st.lists(I(-6, 6), min_size=9, max_size=9)})

    def check(self, ctx, case):
        rs, _ = load()
        import dimod

        prob = G.build(case["g"])
        plain = G.describe(prob)
        if not plain.vars:
            return {"left out": True}
        pool = G.values(plain, case["x"])
        # solutions are rare among random values: they are put first in line
        pool.sort(key=lambda x: sum(plain.excess(r, x) > 1e-6 for r in plain.rows))
        xs = [pool[(k // 2) % min(3, len(pool))] if k % 2 else pool[(k // 2) % len(pool)] for k in case["pick"]]
        names = [v[0] for v in plain.vars]
        es = [float(case["e"][i % 9]) for i in range(len(xs))]
        ss = dimod.SampleSet.from_samples(([[x[n] for n in names] for x in xs], names), "INTEGER", es)
        got = guarded("judging samples", rs.get_results, ss, prob)
        expect(len(got) == len(xs), "number of samples", lambda: "%d samples in, %d results" % (len(xs), len(got)))
        want = sorted((e, [x[n] for n in names]) for x, e in zip(xs, es))
        have = sorted((float(g["energy"]), [int(g["sample"][n]) for n in names]) for g in got)
        expect(have == want, "samples differ", lambda: "%s instead of %s" % (have[:3], want[:3]))
        feas = []
        for g in got:
            x = {n: int(g["sample"][n]) for n in names}
            obj = float(plain.objective(x))
            expect(abs(float(g["objective"]) - obj) < 1e-9 * max(1, abs(obj)), "objective of a sample",
                   lambda: "%s instead of %s for %s" % (g["objective"], obj, x))
            ok = {r[0]: plain.excess(r, x) < 1e-6 for r in plain.rows}
            expect(bool(g["feasible"]) == all(ok.values()), "feasibility of a sample",
                   lambda: "%s for %s, broken %s" % (g["feasible"], x, [n for n in ok if not ok[n]]))
            d, cnt = g["feas_constraints"]
            expect({k: bool(v) for k, v in d.items()} == ok and int(cnt) == sum(ok.values()), "constraints of a sample",
                   lambda: "%s, %s instead of %s, %s for %s" % (d, cnt, ok, sum(ok.values()), x))
            if all(ok.values()):
                feas.append(obj)
            d2, c2 = guarded("checking constraints", rs.analyze_constraints, prob, x)
            expect({k: bool(v) for k, v in d2.items()} == ok and int(c2) == sum(ok.values()), "constraints of a sample",
                   lambda: "%s, %s instead of %s" % (d2, c2, ok))
            expect(abs(float(guarded("objective", rs.get_objective, prob, x)) - obj) < 1e-9 * max(1, abs(obj)),
                   "objective of a sample", lambda: "for %s" % x)
        objs = [float(g["objective"]) for g in got]
        expect(all(a <= b + 1e-9 for a, b in zip(objs, objs[1:])), "order of results",
               lambda: "objectives %s are not sorted" % objs)
        for lst in (got,):
            best = guarded("choosing the best sample", rs.get_best_feasible_sample, lst)
            if feas:
                expect(bool(best["feasible"]) and abs(float(best["objective"]) - min(feas)) < 1e-9, "best sample",
                       lambda: "objective %s, feasible %s; the least feasible is %s"
                       % (best["objective"], best["feasible"], min(feas)))
            else:
                expect(float(best["energy"]) == min(es), "best of infeasible samples",
                       lambda: "energy %s, the least is %s" % (best["energy"], min(es)))
        return {"feasible": bool(feas), "infeasible": len(feas) < len(xs), "repeated": len(set(map(str, xs))) < len(xs),
                "none feasible": not feas}

    def nontrivial(self, lab):
        return lab.get("feasible") and lab.get("infeasible")


PROPERTY = P()
