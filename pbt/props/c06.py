"""The headway keeps a following train clear of the one in front."""
from ..ref import Ref, close, key, rounded_ok
from .. import worlds as W
from .common import WorldProperty, expect, must, run_world
from hypothesis import strategies as st


class P(WorldProperty):
    id = "C06"
    quick, thorough = 1400, 9000
    max_trains = 4
    forks = True
    rule = ("trains on generated and shipped networks, both rounded and exact minutes; non-trivial: two trains run "
            "one leg over the same two or more blocks with different running times")

    def strategy(self, ctx):
        ahead = W.worlds(min_trains=2, max_trains=4, pairs=False, min_stations=2, max_stations=3, follow=True)
        near = W.worlds(min_trains=2, max_trains=4, pairs=False, min_stations=2, max_stations=3, follow=True, close=True)
        return st.tuples(st.one_of(super().strategy(ctx), ahead, near), st.sampled_from([0, 1])).map(
            lambda x: {"world": x[0], "r": x[1]})

    def check(self, ctx, case):
        w, r = case["world"], case["r"]
        ref = Ref(w)
        got = must(run_world(ctx, w, [["get_taus_headway", {"r": r}]])[0], "headways")
        lab = {"same blocks": False, "different speeds": False, "one block is enough": False, "different blocks": False}
        legs = {}
        for j in ref.J:
            for leg in ref.leg[j]:
                legs.setdefault(leg, []).append(j)
        want = set()
        for (s, s2), js in legs.items():
            for a in js:
                for b in js:
                    if a == b:
                        continue
                    k = key(a, b, s, s2)
                    want.add(k)
                    expect(k in got, "headway missing", lambda: "no headway for %s" % k)
                    ba, bb = ref.leg[a][(s, s2)], ref.leg[b][(s, s2)]
                    if ba != bb:
                        lab["different blocks"] = True
                        if not set(ba) & set(bb):
                            expect(close(got[k], 0), "headway without common blocks",
                                   lambda: "%s: %r although the trains share no block" % (k, got[k]))
                        continue
                    exact = ref.headway(a, b, s, s2)
                    good = rounded_ok(got[k], exact) if r == 1 else close(got[k], exact)
                    expect(good, "wrong headway", lambda: "%s: %r, expected %s" % (k, got[k], float(exact)))
                    if len(ba) >= 2:
                        lab["same blocks"] = True
                        lab["different speeds"] |= any(ref.t(a, q) != ref.t(b, q) for q in ba)
                        lab["one block is enough"] |= {s, s2} in ({"KO(STM)", "KZ"}, {"CB", "CM"})
        expect(set(got) == want, "unexpected headways", lambda: "%r" % sorted(set(got) - want))
        return lab

    def nontrivial(self, lab):
        return lab["same blocks"] and lab["different speeds"]


PROPERTY = P()
