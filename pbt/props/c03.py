"""Each train's itinerary of stations matches its block route."""
from hypothesis import strategies as st

from .. import worlds as W
from ..client import Outcome
from ..ref import Ref
from ..worlds import I
from .common import ABSENT, WorldProperty, expect, must, run_world


@st.composite
def queries(draw, base):
    w = draw(base)
    ref = Ref(w)
    names = list(w["stations"]) + ["XX"]
    q = []
    for _ in range(draw(I(2, 5))):
        q.append([draw(I(0, len(ref.J) - 1)), draw(I(0, len(ref.J) - 1)),
                  draw(I(0, len(names) - 1)), draw(I(0, len(names) - 2))])
    nested = draw(st.recursive(I(0, 3), lambda x: st.lists(x, max_size=3), max_leaves=8))
    return {"world": w, "q": q, "nested": nested if isinstance(nested, list) else [nested],
            "l1": draw(st.lists(I(0, 5), max_size=6)), "l2": draw(st.lists(I(0, 5), max_size=6))}


def leaves(x):
    return sum(map(leaves, x)) if isinstance(x, list) else 1


class P(WorldProperty):
    id = "C03"
    quick, thorough = 700, 6000
    rule = ("trains on generated and shipped networks, asked for their stations, the next station, the blocks at "
            "and between stations, common stations and common blocks with other trains; non-trivial: some train "
            "has three or more stations and two trains share at least two stations")

    def strategy(self, ctx):
        return queries(super().strategy(ctx))

    def check(self, ctx, case):
        w = case["world"]
        ref = Ref(w)
        names = list(w["stations"]) + ["XX"]
        calls = [["tool get_trains_with_same_stations", {}], ["tool get_all_important_station", {}], ["get_J", {}], ["get_Paths", {}], ["get_skip_stations", {}],
                 ["get_trains_at_station", {}], ["get_trains_at_station", {"only_departue": True}]]
        plan = []
        for a, b, i, k in case["q"]:
            t, u, s1, s2 = ref.J[a], ref.J[b], names[i], names[k]
            for c in (["subsequent_station", {"train": t, "station": s1}],
                      ["is_train_passing_thru_station", {"train": t, "station": s1}],
                      ["blocks_list_4station", {"train": t, "station": s1}],
                      ["train_important_stations", {"train": t}],
                      ["tool train_important_stations1", {"train": t}],
                      ["get_blocks_b2win_station4train", {"train": t, "s1": s1, "s2": s2}],
                      ["check_common_station", {"t1": t, "t2": u}],
                      ["common_blocks_dir", {"t1": t, "t2": u, "s1": s1, "s2": s2}],
                      ["tool common_path", {"t1": t, "t2": u, "s1": s1, "s2": s2}],
                      ["tool check_common_blocks_elements", {"t1": t, "t2": u}],
                      ["tool get_blocks_b2win_station4train_deprecable", {"train": t, "s1": s1, "s2": s2}],
                      ["tool blocks", {}]):
                if c[0] == "tool blocks":
                    b = ref.path[t][(i + 7 * k) % len(ref.path[t])]
                    for n in ("subsequent_block", "get_block_speed", "get_block_station"):
                        plan.append(("tool " + n, t, b, None, None))
                        calls.append(["tool " + n, {"train": t, "block": b}])
                    continue
                if "get_blocks_b2win" in c[0] and s1 == s2:
                    continue
                if c[0] in ("common_blocks_dir", "tool common_path") and not (
                        s1 != s2 and {s1, s2} <= set(ref.st[t]) & set(ref.st[u])):
                    continue
                plan.append((c[0], t, u, s1, s2))
                calls.append(c)
        out = run_world(ctx, w, calls)
        v = [must(o, c[0]) for o, c in zip(out, calls)]
        by = {s: [j for j in ref.J if s in ref.st[j]] for s in w["stations"]}
        expect(v[0] in (ABSENT, {s: x for s, x in by.items() if x}), "trains by station differ",
               lambda: "%r instead of %r" % (v[0], by))
        expect(v[1] in (ABSENT, list(w["stations"])), "station list differs", lambda: "%r" % v[1])
        v = v[2:]
        expect(v[0] == ref.J, "train list differs", lambda: "%r instead of %r" % (v[0], ref.J))
        expect(v[1] == ref.st, "stations differ", lambda: "%r instead of %r" % (v[1], ref.st))
        expect(v[2] == ref.skip(), "terminal stations differ", lambda: "%r instead of %r" % (v[2], ref.skip()))
        at = {s: [j for j in ref.J if s in ref.st[j]] for s in w["stations"]}
        dep = {s: [j for j in at[s] if ref.skip().get(j) != s] for s in w["stations"]}
        expect({k: sorted(x) for k, x in v[3].items()} == {k: sorted(x) for k, x in at.items()},
               "trains at station differ", lambda: "%r instead of %r" % (v[3], at))
        expect({k: sorted(x) for k, x in v[4].items()} == {k: sorted(x) for k, x in dep.items()},
               "departing trains differ", lambda: "%r instead of %r" % (v[4], dep))
        self.lists(ctx, case)
        shared = False
        for (name, t, u, s1, s2), got in zip(plan, v[5:]):
            if got == ABSENT:
                continue
            if name == "subsequent_station":
                want = ref.nxt(t, s1)
            elif name == "is_train_passing_thru_station":
                want = s1 in ref.st[t]
            elif name == "blocks_list_4station":
                want = [ref.blk[t][s1]] if s1 in ref.st[t] else []
            elif name in ("train_important_stations", "tool train_important_stations1"):
                want = ref.st[t]
            elif name == "get_blocks_b2win_station4train":
                want = ref.between(t, s1, s2)
                got = (got[0], got[1])
            elif name == "tool get_blocks_b2win_station4train_deprecable":
                want = ref.between(t, s1, s2)
                got = (got[0], got[1])
            elif name == "tool check_common_blocks_elements":
                want = [b for b in ref.path[t] if b in ref.path[u]]
            elif name == "tool subsequent_block":
                want = (ref.path[t] + [None])[ref.path[t].index(u) + 1]
            elif name == "tool get_block_speed":
                want = next(r["sp"] for r in ref.tr[t]["rows"] if r["b"] == u)
            elif name == "tool get_block_station":
                want = ref.smap.get(u)
                got = None if got != got else got
            elif name == "tool common_path":
                # trains in opposite directions have no common way forward
                x, y = ref.between(t, s1, s2)[0], ref.between(u, s1, s2)[0]
                want = [b for b in x if b in y]
            elif name == "check_common_station":
                want = set(ref.st[t]) & set(ref.st[u])
                expect(len(got) == len(set(got)), "duplicate stations", lambda: "%r" % got)
                got = set(got)
            else:
                shared = True
                bl = {}
                rev = {}
                for x in (t, u):
                    b, r = ref.between(x, s1, s2)
                    if r:
                        b, _ = ref.between(x, s2, s1)
                    bl[x], rev[x] = b, r
                want = ([b for b in bl[t] if b in bl[u]], "same" if rev[t] == rev[u] else "opposite")
                got = (got[0], got[1])
            expect(got == want, name + " differs",
                   lambda: "%s(%s, %s, %s, %s): %r instead of %r" % (name, t, u, s1, s2, got, want))
        return {
            "three stations": any(len(x) >= 3 for x in ref.st.values()),
            "two trains share two stations": any(
                len(set(ref.st[a]) & set(ref.st[b])) >= 2 for a in ref.J for b in ref.J if a < b),
            "train ends outside a station": len(ref.skip()) < len(ref.J),
            "train ends in a station": len(ref.skip()) > 0,
            "common blocks asked": shared,
        }

    @staticmethod
    def lists(ctx, case):
        l1, l2, nested = case["l1"], case["l2"], case["nested"]
        twice = [[x] if not isinstance(x, list) else x for x in nested]
        r = ctx.call("lists", list1=l1, list2=l2, nested=twice)
        got = {k: must(Outcome(v), k) for k, v in r.items()}
        runs = [l1[a:b] for b in range(len(l1) + 1) for a in range(b)]
        for k, want in (("flatten", [y for x in twice for y in x]), ("size", leaves(twice)),
                        ("common", [x for x in l1 if x in l2]), ("sub", runs), ("sub2", [x for x in runs if len(x) > 1])):
            expect(got[k] in (ABSENT, want), "list tool differs", lambda: "%s of %r, %r, %r: %r instead of %r"
                   % (k, l1, l2, twice, got[k], want))

    def nontrivial(self, lab):
        return lab["three stations"] and lab["two trains share two stations"]


PROPERTY = P()
