"""Trains that pass a common switch of a station are always paired."""
from ..ref import Ref
from .common import WorldProperty, expect, must, part_of, run_world


class P(WorldProperty):
    id = "C10"
    quick, thorough = 700, 6000
    max_trains = 4
    parts = True
    rule = ("trains on generated and shipped networks; switch cells as text lists, numbers, decimals and empty; "
            "non-trivial: at least one pair shares a switch")

    def check(self, ctx, w):
        ref = Ref(w)
        calls = [["jswitch", {}], ["jswitch", {"imp_stations": part_of(w)}]]
        plan = []
        for j in ref.J[:3]:
            for s in ref.st[j][:4]:
                for z in ("z_in", "z_out"):
                    plan.append((j, s, z))
                    calls.append([z, {"train": j, "station": s}])
        out = run_world(ctx, w, calls)
        want = ref.jswitch()
        for (j, s, z), o in zip(plan, out[2:]):
            v = set(must(o, z))
            e = ref.z(j, s, "in" if z == "z_in" else "out")
            expect(v == e, "wrong switches", lambda: "train %s %s %s: %r, the table says %r" % (j, z, s, v, e))
        self.compare(must(out[0], "switch conflicts"), want)
        self.compare(must(out[1], "switch conflicts at some stations"),
                     {s: v for s, v in want.items() if s in part_of(w)})
        cells = [r[5] for r in w["rows"]]
        return {
            "common switch": any(want.values()),
            "number cell": any(isinstance(c, int) for c in cells),
            "decimal cell": any(isinstance(c, float) for c in cells),
            "empty cell": None in cells,
            "KO and KO(STM)": {"KO", "KO(STM)"} <= set(w["stations"]),
            "in against out": any(len({d for _, d in p}) == 2 for v in want.values() for p in v),
        }

    @staticmethod
    def compare(got, want):
        for s in set(got) | set(want):
            pairs = [frozenset(d.items()) for d in got.get(s, [])]
            expect(len(pairs) == len(set(pairs)), "pair listed twice", lambda: "%s: %r" % (s, got.get(s)))
            miss, extra = want.get(s, set()) - set(pairs), set(pairs) - want.get(s, set())
            expect(not miss, "switch conflict missing", lambda: "%s: %r" % (s, sorted(map(sorted, miss))))
            expect(not extra, "pair without a common switch", lambda: "%s: %r" % (s, sorted(map(sorted, extra))))

    def nontrivial(self, lab):
        return lab["common switch"]


PROPERTY = P()
