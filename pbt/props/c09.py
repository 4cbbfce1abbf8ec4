"""Trains that stand on the same station track are always grouped."""
from hypothesis import strategies as st

from ..ref import DEPOT_BLOCKS, DEPOT_STATIONS, Ref
from .common import WorldProperty, expect, must, part_of, run_world


class P(WorldProperty):
    id = "C09"
    crowd = parts = True
    quick, thorough = 1000, 8000
    rule = ("trains on generated and shipped networks with one to three tracks per station; non-trivial: two or "
            "more trains use the same station track")

    def check(self, ctx, w):
        ref = Ref(w)
        out = run_world(ctx, w, [["jtrack", {}], ["jtrack", {"imp_stations": part_of(w)}]])
        want = ref.jtrack()
        self.compare(must(out[0], "station tracks"), want)
        self.compare(must(out[1], "tracks of some stations"), {s: g for s, g in want.items() if s in part_of(w)})
        return {
            "shared track": any(len(x) > 1 for g in want.values() for x in g),
            "several tracks": any(len(g) > 1 for g in want.values()),
            "depot": any(b in DEPOT_BLOCKS or ref.smap.get(b) in DEPOT_STATIONS for p in ref.path.values() for b in p),
        }

    @staticmethod
    def compare(got, want):
        for s in set(got) | set(want):
            g = got.get(s, [])
            flat = [j for x in g for j in x]
            expect(len(flat) == len(set(flat)), "train listed twice", lambda: "%s: %r" % (s, g))
            expect(sorted(map(sorted, g)) == sorted(map(sorted, want.get(s, []))), "wrong groups",
                   lambda: "%s: %r, trains on the same track are %r" % (s, g, want.get(s, [])))

    def nontrivial(self, lab):
        return lab["shared track"]


PROPERTY = P()
