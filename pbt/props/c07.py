"""Following trains are grouped exactly by the route they share."""
from ..ref import Ref
from .common import WorldProperty, expect, must, part_of, run_world


class P(WorldProperty):
    id = "C07"
    crowd = parts = forks = True
    quick, thorough = 1200, 9000
    rule = ("trains on generated and shipped networks with parallel and partly shared tracks; non-trivial: two or "
            "more trains run the same leg")

    def check(self, ctx, w):
        ref = Ref(w)
        out = run_world(ctx, w, [["jd", {}], ["jd", {"imp_stations": part_of(w)}]])
        want = ref.jd()
        self.compare(must(out[0], "grouping"), want)
        self.compare(must(out[1], "grouping for some stations"), {k: v for k, v in want.items() if k[0] in part_of(w)})
        return {
            "same route": any(len(x) > 1 for g in want.values() for x in g),
            "different routes on one leg": any(len(g) > 1 for g in want.values()),
        }

    @staticmethod
    def compare(got, want):
        legs = {(s, s2) for s in got for s2 in got[s]}
        expect(legs == set(want), "legs differ", lambda: "missing %r, extra %r" % (set(want) - legs, legs - set(want)))
        for (s, s2), groups in want.items():
            g = got[s][s2]
            flat = [j for x in g for j in x]
            expect(len(flat) == len(set(flat)), "train listed twice", lambda: "%s -> %s: %r" % (s, s2, g))
            expect(sorted(map(sorted, g)) == sorted(map(sorted, groups)), "wrong groups",
                   lambda: "%s -> %s: %r, trains with the same blocks are %r" % (s, s2, g, groups))


PROPERTY = P()
