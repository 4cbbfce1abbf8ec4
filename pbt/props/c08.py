"""Trains that meet head-on on one track are always paired."""
from ..ref import Ref
from .common import WorldProperty, expect, must, part_of, run_world


class P(WorldProperty):
    id = "C08"
    crowd = parts = forks = True
    quick, thorough = 1200, 9000
    rule = ("trains on generated and shipped networks, running in both directions over the same blocks; "
            "non-trivial: at least one opposing pair exists")

    def check(self, ctx, w):
        ref = Ref(w)
        only = part_of(w)
        out = run_world(ctx, w, [["josingle", {}], ["josingle", {"imp_stations": only}]])
        want = ref.josingle()
        self.compare(must(out[0], "opposing trains"), want)
        self.compare(must(out[1], "opposing trains between some stations"),
                     {p for p in want if all(s in only and s2 in only for _, s, s2 in p)})
        term = any(ref.skip().get(j) == s2 for p in want for j, s, s2 in p)
        return {"opposing pair": bool(want), "opposing train terminates": term,
                "several legs": len({frozenset(x[1:]) for p in want for x in p}) > 1}

    @staticmethod
    def compare(got, want):
        pairs = []
        for (s, s2), v in got.items():
            for a, b in v:
                pairs.append(frozenset([(a, s, s2), (b, s2, s)]))
        expect(len(pairs) == len(set(pairs)), "pair listed twice", lambda: "%r" % got)
        miss, extra = want - set(pairs), set(pairs) - want
        expect(not miss, "opposing pair missing", lambda: "%r not found in %r" % (sorted(map(sorted, miss)), got))
        expect(not extra, "pair that does not meet", lambda: "%r" % sorted(map(sorted, extra)))

    def nontrivial(self, lab):
        return lab["opposing pair"]


PROPERTY = P()
