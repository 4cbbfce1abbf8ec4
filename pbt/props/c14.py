"""Weights of the objective."""
from hypothesis import strategies as st

from ..ref import Ref, close, key
from ..worlds import I, chance, pick
from .common import WorldProperty, expect, must, run_world
from .c11 import with_pairs

CLASS = {"KS - Os": "stopping", "PR - R": "stopping", "KS - OsP": "stopping", "IC - TLK": "fast",
         "IC - IC": "fast", "IC - EIP": "express", "IC - EIC": "express"}
DEFAULT = {"stopping": 1, "fast": 1.5, "express": 1.75, "empty": 0}


@st.composite
def cases(draw, base):
    w = draw(with_pairs(base))
    kw = {}
    for k in DEFAULT:
        if chance(draw, 1, 2):
            kw[k] = draw(I(0, 40)) / 4.0
    skip = None
    if chance(draw, 1, 3):  # stations left out named by the caller
        st_ = Ref(w).st
        skip = {str(j): pick(draw, st_[j]) for j in st_ if len(st_[j]) > 1 and chance(draw, 1, 2)}
    return {"world": w, "kw": kw, "skip": skip}


class P(WorldProperty):
    id = "C14"
    crowd = True
    quick, thorough = 1000, 8000
    min_trains = 1
    rule = ("trains of every type, some with a shunting counterpart, default and own weights; non-trivial: a "
            "shunting train or two trains of different weight")

    def strategy(self, ctx):
        return cases(super().strategy(ctx))

    def check(self, ctx, case):
        w = case["world"]
        ref = Ref(w)
        skip = ref.skip()
        kw = dict(case["kw"])
        if case["skip"] is not None:
            kw["skip"] = case["skip"]
            skip = {int(j): s for j, s in case["skip"].items()}
        if any(skip.get(j) and len(ref.st[j]) < 2 for j in ref.J):
            return {"shunting": False, "different weights": False, "ends in station": False}
        val = dict(DEFAULT, **case["kw"])
        got = must(run_world(ctx, w, [["make_weights", kw]])[0], "weights")
        want = {}
        empty = {b for _, b in ref.pairs9()}
        for j in ref.J:
            s = ref.st[j][-2] if skip.get(j) == ref.st[j][-1] else ref.st[j][-1]
            want[key(j, s)] = val["empty"] if j in empty else val[CLASS[ref.tr[j]["type"]]]
        expect(set(got) == set(want), "weighted stations differ", lambda: "%r instead of %r" % (sorted(got), sorted(want)))
        for k in want:
            expect(close(got[k], want[k]), "wrong weight", lambda: "%s: %r, expected %r" % (k, got[k], want[k]))
        return {"shunting": bool(empty), "different weights": len(set(want.values())) > 1, "ends in station": bool(skip),
                "number next to a shunting one": any(j // 10 == a and j % 10 != 9 for a, _ in ref.pairs9() for j in ref.J)}

    def nontrivial(self, lab):
        return lab["shunting"] or lab["different weights"]


PROPERTY = P()
