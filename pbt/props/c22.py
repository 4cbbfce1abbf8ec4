"""Decoding a sample gives back the program's variables."""
from hypothesis import strategies as st

from .. import programs as G
from ..dispatch import I
from ..engine import Property
from ..solvers import guarded, load
from .common import expect


class P(Property):
    id = "C22"
    quick, thorough = 10000, 80000
    rule = ("integer programs as for C21; sets of 1-8 bit assignments in any order of energies, repeated ones "
            "included, and encoded solutions; non-trivial: three or more samples and a variable of more than one bit")
    assumptions = ["every constraint can be met on its own within the bounds",
                   "pyqubo and dimod are replaced by stand-ins with the documented behaviour"]

    def strategy(self, ctx):
        return st.fixed_dictionaries({
            "g": G.programs(low_bounds=True),
            "bits": st.lists(st.lists(I(0, 1), min_size=1, max_size=13), min_size=1, max_size=8),
            "e": st.lists(I(-5, 5), min_size=8, max_size=8)})

    def check(self, ctx, case):
        rs, _ = load()
        import dimod

        prob = G.build(case["g"])
        plain = G.describe(prob)
        if not plain.satisfiable_alone() or not plain.vars:
            return {"left out": True}
        pen = {f: 2.5 for f in G.FAMILIES + ["objective"]}
        bqm, qubo, interp = guarded("conversion of a valid program", rs.convert_to_bqm, prob, pen)
        B = G.Bits(bqm, interp, plain)
        for n, lo, hi in plain.vars:
            got = sorted(B.codes[n])
            expect(got == list(range(lo, hi + 1)), "values that can be decoded",
                   lambda: "%s takes %s, its bounds are %s..%s" % (n, got, lo, hi))
        rows = [[r[i % len(r)] for i in range(len(B.labels))] for r in case["bits"]]
        x = plain.solution()
        sol = None
        if x is not None:
            sol, b = B.least(x)
            rows.append([int(v) for v in b])
        e = [float(case["e"][i % 8]) for i in range(len(rows))]
        ss = dimod.SampleSet.from_samples((rows, B.labels), "BINARY", e)
        out = guarded("interpreting samples", interp, ss)

        def val(row):
            return {v: B.base[v] + sum(w for i, w in B.of[v] if row[i]) for v in B.of}

        want = sorted((en, sorted(val(r).items())) for r, en in zip(rows, e))
        got = sorted((float(d.energy), sorted(dict(d.sample).items())) for d in out.data())
        expect([w[0] for w in want] == [g[0] for g in got] and
               all(len(a[1]) == len(b_[1]) and all(p[0] == q[0] and abs(p[1] - q[1]) < 1e-9 for p, q in zip(a[1], b_[1]))
                   for a, b_ in zip(want, got)),
               "samples differ", lambda: "decoded %s instead of %s" % (got[:3], want[:3]))
        if x is not None:
            back = B.decode([rows[-1]])[0][0]
            expect({k: float(v) for k, v in back.items()} == {k: float(v) for k, v in x.items()}, "solution lost",
                   lambda: "%s comes back as %s" % (x, back))
            expect(abs(sol - 2.5 * float(plain.objective(x))) < 1e-6 * max(1, abs(sol)), "energy of a solution",
                   lambda: "%s instead of %s" % (sol, 2.5 * float(plain.objective(x))))
        return {"three or more samples": len(rows) >= 3, "number of several bits": any(len(b) > 1 for b in B.of.values()),
                "solution": x is not None, "dispatching": case["g"]["kind"] == "dispatch"}

    def nontrivial(self, lab):
        return lab.get("three or more samples") and lab.get("number of several bits")


PROPERTY = P()
