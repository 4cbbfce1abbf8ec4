"""Minimal running, stopping and turnaround times."""
from .. import worlds as W
from ..ref import Ref, close, key, rounded_ok
from .common import WorldProperty, expect, must, run_world
from hypothesis import strategies as st


class P(WorldProperty):
    id = "C05"
    quick, thorough = 700, 6000
    min_trains = 1
    rule = ("trains on generated and shipped networks; both rounded and exact minutes; non-trivial: some leg has "
            "two or more line blocks, or a turnaround is given at a station")

    def strategy(self, ctx):
        return st.tuples(super().strategy(ctx), st.sampled_from([0, 1])).map(
            lambda x: {"world": x[0], "r": x[1]})

    def check(self, ctx, case):
        w, r = case["world"], case["r"]
        ref = Ref(w)
        out = run_world(ctx, w, [["get_taus_pass", {"r": r}], ["get_taus_stop", {"r": r}],
                                 ["get_taus_prep", {"r": r}]])
        pas, (stop, prep2), prep = [must(o, n) for o, n in zip(out, ("running times", "stopping times", "turnaround times"))]
        self.same("running time", pas, ref.taus_pass(), r)
        self.same("stopping time", stop, ref.taus_stop(), r)
        self.same("turnaround time", prep, ref.taus_prep(), r)
        # turnarounds reported together with the stops belong to starting trains
        want = {key(*k): v for k, v in ref.taus_prep().items()}
        for k, v in prep2.items():
            expect(k in want, "turnaround at a station on the way",
                   lambda: "%s reported as preparation time %r" % (k, v))
            good = rounded_ok(v, want[k]) if r == 1 else close(v, want[k])
            expect(good, "wrong turnaround time listed with the stops",
                   lambda: "%s reported as preparation time %r, expected %s" % (k, v, float(want[k])))
        turn = [(j, s) for j in ref.J for s in ref.st[j] if ref.turnaround(j, s)]
        return {
            "leg of two or more blocks": any(len(b) >= 2 for j in ref.J for b in ref.leg[j].values()),
            "turnaround at first station": any(ref.st[j][0] == s for j, s in turn),
            "turnaround on the way": any(ref.st[j][0] != s and (j, s) in ref.taus_stop() for j, s in turn),
            "rounded": r == 1,
            "train ends in a station": len(ref.skip()) > 0,
        }

    def same(self, what, got, want, r):
        want = {key(*k): v for k, v in want.items()}
        expect(set(got) == set(want), what + " keys differ",
               lambda: "%s: missing %r, extra %r" % (what, sorted(set(want) - set(got)), sorted(set(got) - set(want))))
        for k in want:
            good = rounded_ok(got[k], want[k]) if r == 1 else close(got[k], want[k])
            expect(good, "wrong " + what, lambda: "%s %s: %r, expected %s" % (what, k, got[k], float(want[k])))

    def nontrivial(self, lab):
        return lab["leg of two or more blocks"] or lab["turnaround at first station"] or lab["turnaround on the way"]


PROPERTY = P()
