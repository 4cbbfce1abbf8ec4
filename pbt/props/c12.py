"""Scheduled and initial departures are minutes from the reference time."""
import math

from hypothesis import strategies as st

from ..ref import Ref, close, key
from ..worlds import I, clock
from .common import ABSENT, WorldProperty, expect, must, run_world


class P(WorldProperty):
    id = "C12"
    quick, thorough = 1000, 8000
    min_trains = 1
    rule = ("trains with any combination of arrival, departure and estimated times, any reference time; "
            "non-trivial: a departure before and one after the reference time")
    assumptions = WorldProperty.assumptions + ["all times are on one day (there is no date in the files)"]

    def strategy(self, ctx):
        return st.tuples(super().strategy(ctx), st.one_of(I(0, 1439), st.just(960))).map(
            lambda x: {"world": x[0], "t": clock(x[1])})

    def check(self, ctx, case):
        w, t = case["world"], case["t"]
        ref = Ref(w)
        j0 = ref.J[0]
        out = run_world(ctx, w, [["get_schedule", {"t1": t}], ["get_initial_conditions", {"t1": t}],
                                 ["get_arr_dep_vals", {"train": j0}],
                                 ["tool get_schedule", {"t1": t}], ["tool get_initial_conditions", {"t1": t}]])
        sch, ini, vals, sch2, ini2 = [must(o, n) for o, n in zip(
            out, ("schedule", "initial conditions", "listed times", "schedule (tools)", "initial conditions (tools)"))]
        for what, got, want in (("schedule", sch, ref.schedule(t)), ("initial condition", ini, ref.initial(t)),
                                ("schedule (tools)", sch2, ref.schedule(t)),
                                ("initial condition (tools)", ini2, ref.initial(t))):
            if got == ABSENT:
                continue
            want = {key(*k): v for k, v in want.items()}
            expect(set(got) == set(want), what + " keys differ",
                   lambda: "%s: missing %r, extra %r" % (what, sorted(set(want) - set(got)), sorted(set(got) - set(want))))
            for k in want:
                expect(close(got[k], want[k]), "wrong " + what,
                       lambda: "%s %s: %r minutes from %s, expected %s" % (what, k, got[k], t, want[k]))
        rows = [[r["arr"], r["dep"], r["app"]] for r in ref.tr[j0]["rows"] if r["arr"] or r["dep"] or r["app"]]
        same = len(vals) == len(rows) and all(
            (g == x) if x else (isinstance(g, float) and math.isnan(g)) for a, b in zip(vals, rows) for g, x in zip(a, b))
        expect(same, "wrong listed times", lambda: "train %s: %r instead of %r" % (j0, vals, rows))
        s = ref.schedule(t)
        first = [next(r for r in ref.tr[j]["rows"] if r["b"] in ref.smap) for j in ref.J]
        return {
            "before and after": any(v < 0 for v in s.values()) and any(v > 0 for v in s.values()),
            "no departure at first station": any(not f["dep"] for f in first),
            "estimated entry used": any(not f["dep"] and f["app"] for f in first),
            "no departure on the way": any(len([k for k in s if k[0] == j]) < len(ref.st[j]) for j in ref.J),
        }

    def nontrivial(self, lab):
        return lab["before and after"]


PROPERTY = P()
