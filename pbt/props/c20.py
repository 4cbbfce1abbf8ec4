"""The constrained quadratic model says the same as the integer program."""
from hypothesis import strategies as st

from .. import programs as G
from ..engine import Property
from ..solvers import guarded, load
from .common import expect


class P(Property):
    id = "C20"
    quick, thorough = 16000, 128000
    rule = ("integer programs of generated dispatching problems and programs written directly (all senses, constants, "
            "coefficients up to 30), at corners, random points, a solution and its neighbours; non-trivial: two or "
            "more constraints, one assignment that satisfies them all and one that does not")
    assumptions = ["variables are integers with both bounds; the model may count them from their least value",
                   "dimod is replaced by a stand-in with the documented behaviour"]

    def strategy(self, ctx):
        return st.fixed_dictionaries({"g": G.programs(low_bounds=True), "x": G.assignments()})

    def check(self, ctx, case):
        rs, _ = load()
        prob = G.build(case["g"])
        plain = G.describe(prob)
        text = repr((plain.vars, plain.rows, plain.obj, plain.const))
        cqm = guarded("conversion of a valid program", rs.convert_to_cqm, prob)
        p2 = G.describe(prob)
        expect(repr((p2.vars, p2.rows, p2.obj, p2.const)) == text, "input changed", "the program is changed by the conversion")
        names = {v[0] for v in plain.vars}
        expect(set(cqm.variables) == names, "variables differ",
               lambda: "%s instead of %s" % (sorted(cqm.variables)[:8], sorted(names)[:8]))
        shift = {}
        for n, lo, hi in plain.vars:
            kind = str(getattr(cqm.vartype(n), "name", cqm.vartype(n)))
            want = "BINARY" if (lo, hi) == (0, 1) else "INTEGER"
            expect(kind == want or (want == "BINARY" and (cqm.lower_bound(n), cqm.upper_bound(n)) == (0, 1)),
                   "kind differs", lambda: "%s is %s instead of %s" % (n, kind, want))
            a, b = cqm.lower_bound(n), cqm.upper_bound(n)
            # the model may count a variable from its least value
            expect((a, b) in ((lo, hi), (0, hi - lo)), "bounds differ",
                   lambda: "%s: %s..%s instead of %s..%s" % (n, a, b, lo, hi))
            shift[n] = lo - int(a)
        rows = {r[0]: r for r in plain.rows}
        expect(set(cqm.constraints) == set(rows), "constraints differ",
               lambda: "%s instead of %s" % (sorted(map(str, cqm.constraints))[:6], sorted(rows)[:6]))
        sat = unsat = 0
        for x in G.values(plain, case["x"]):
            m = {n: v - shift[n] for n, v in x.items()}
            e = float(cqm.objective.energy(m)) if plain.obj or plain.const else 0.0
            want = float(plain.objective(x))
            expect(abs(e - want) < 1e-6, "objective differs", lambda: "%s instead of %s at %s" % (e, want, x))
            good = True
            for name, r in rows.items():
                holds = plain.excess(r, x) == 0
                good = good and holds
                got = cqm.constraints[name].holds(m)
                expect(got == holds, "constraint differs",
                       lambda: "%s: program says %s, model says %s at %s" % (name, holds, got, x))
            sat += good
            unsat += not good
        return {"satisfied": sat > 0, "not satisfied": unsat > 0, "two or more constraints": len(rows) >= 2,
                "equality": any(r[2] == 0 for r in plain.rows), "least value above zero": any(v[1] for v in plain.vars),
                "dispatching": case["g"]["kind"] == "dispatch"}

    def nontrivial(self, lab):
        return lab["satisfied"] and lab["not satisfied"] and lab["two or more constraints"]


PROPERTY = P()
