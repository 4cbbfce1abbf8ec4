"""Energies of the unconstrained model are objective plus penalties."""
import numpy as np
from hypothesis import strategies as st

from .. import programs as G
from ..dispatch import I
from ..engine import Property
from ..solvers import guarded, load
from .common import expect


def penalties():
    w = st.one_of(I(1, 9), I(1, 40).map(lambda k: k / 4))
    return st.fixed_dictionaries({f: w for f in G.FAMILIES + ["objective"]})


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


class P(Property):
    id = "C21"
    quick, thorough = 7000, 56000
    rule = ("integer programs as for C20, also with lower bounds above zero, penalty weights per kind of constraint; "
            "least energy of the bits standing for an assignment at corners, random points, a solution and its "
            "neighbours, and at random bits; all bits of small models; non-trivial: a feasible and an infeasible "
            "assignment and two or more constraints")
    assumptions = ["coefficients of constraints are integers, as the conversion requires",
                   "every constraint can be met on its own within the bounds",
                   "pyqubo and dimod are replaced by stand-ins with the documented behaviour"]

    def strategy(self, ctx):
        return st.fixed_dictionaries({
            "g": G.programs(low_bounds=True), "x": G.assignments(), "pen": penalties(),
            "bits": st.lists(st.lists(I(0, 1), min_size=1, max_size=11), max_size=3)})

    def check(self, ctx, case):
        rs, _ = load()
        prob = G.build(case["g"])
        plain = G.describe(prob)
        if not plain.satisfiable_alone() or not plain.vars:
            return {"left out": True}
        pen = dict(case["pen"])
        bqm, qubo, interp = guarded("conversion of a valid program", rs.convert_to_bqm, prob, dict(pen))
        B = G.Bits(bqm, interp, plain)
        w = {}
        for r in plain.rows:
            w[r[0]] = next(pen[f] for f in G.FAMILIES if r[0].startswith(f + "_"))
        sat = unsat = 0
        for x in G.values(plain, case["x"]):
            exc = {r[0]: float(plain.excess(r, x)) for r in plain.rows}
            want = pen["objective"] * float(plain.objective(x)) + sum(w[n] * e * e for n, e in exc.items())
            for choice in (0, 1):
                got, b = B.least(x, choice)
                expect(close(got, want), "energy differs",
                       lambda: "least energy %s instead of %s at %s, broken %s"
                       % (got, want, x, {n: e for n, e in exc.items() if e}))
            self.same(bqm, qubo, B, b, got)
            sat += not any(exc.values())
            unsat += any(exc.values())
        for r in case["bits"]:
            b = np.array([float(r[i % len(r)]) for i in range(len(B.labels))])
            x, _ = B.decode([b.astype(int)])[0]
            low = pen["objective"] * float(plain.objective(x)) + sum(
                w[q[0]] * float(plain.excess(q, x)) ** 2 for q in plain.rows)
            got = B.energy(b)
            expect(got >= low - 1e-6 * max(1.0, abs(low)), "energy too low",
                   lambda: "%s, below objective and penalties %s of %s" % (got, low, x))
            self.same(bqm, qubo, B, b, got)
        n = len(B.labels)
        if n <= 12:
            T = ((np.arange(1 << n)[:, None] >> np.arange(n)) & 1).astype(float)
            E = B.offset + T @ B.lin + np.einsum("ri,ij,rj->r", T, B.Q, T)
            least = plain.solution()
            if least is not None:
                best = pen["objective"] * float(plain.objective(least))
                worst = pen["objective"] * float(sum(abs(c) * (hi - lo) for nme, c in plain.obj
                                                     for v, lo, hi in plain.vars if v == nme))
                if min(list(w.values()) or [1e9]) > worst:  # penalties large enough
                    expect(close(E.min(), best), "ground state",
                           lambda: "least energy of all bits %s, optimum %s" % (E.min(), best))
                    for k in np.where(E <= E.min() + 1e-9)[0][:20]:
                        x, _ = B.decode([T[k].astype(int)])[0]
                        expect(plain.feasible(x) and close(pen["objective"] * float(plain.objective(x)), best),
                               "ground state", lambda: "bits of least energy stand for %s" % x)
        expect(rs.count_linear_fields(bqm) == sum(1 for x in B.lin if x != 0), "number of fields",
               lambda: "%s fields counted" % rs.count_linear_fields(bqm))
        expect(rs.count_quadratic_couplings(bqm) == sum(1 for x in bqm.quadratic.values() if x != 0), "number of couplings",
               lambda: "%s couplings counted" % rs.count_quadratic_couplings(bqm))
        model = guarded("conversion with open penalties", rs.convert_to_pyqubo, prob)
        b2 = guarded("setting penalties", model.to_bqm, feed_dict=dict(pen))
        if sat + unsat:
            s = {l: int(b[i]) for i, l in enumerate(B.labels)} if n else {}
            expect(close(b2.energy(s), bqm.energy(s)), "two conversions differ",
                   lambda: "%s and %s" % (b2.energy(s), bqm.energy(s)))
        return {"satisfied": sat > 0, "not satisfied": unsat > 0, "two or more constraints": len(plain.rows) >= 2,
                "all bits": n <= 12, "dispatching": case["g"]["kind"] == "dispatch",
                "tight constraint": any(self.tight(plain, r) for r in plain.rows)}

    @staticmethod
    def tight(plain, r):
        b = {n: (lo, hi) for n, lo, hi in plain.vars}
        top = r[3] + sum(c * b[n][1 if c > 0 else 0] for n, c in r[1])
        low = r[3] + sum(c * b[n][0 if c > 0 else 1] for n, c in r[1])
        return (r[2] == 1 and top == 0) or (r[2] == -1 and low == 0)

    @staticmethod
    def same(bqm, qubo, B, b, e):
        s = {l: int(b[i]) for i, l in enumerate(B.labels)}
        Q, off = qubo
        q = off + sum(c * s[u] * s[v] for (u, v), c in Q.items())
        expect(close(q, e), "QUBO differs", lambda: "energy %s of the QUBO, %s of the model" % (q, e))

    def nontrivial(self, lab):
        return lab.get("satisfied") and lab.get("not satisfied") and lab.get("two or more constraints")


PROPERTY = P()
