"""Trains sharing rolling stock are found, in the order they really run."""
from hypothesis import strategies as st

from .. import worlds as W
from ..ref import Ref
from ..worlds import I, chance
from .common import WorldProperty, expect, must, run_world


@st.composite
def with_pairs(draw, base):
    w = draw(base)
    for _ in range(draw(I(0, 2))):
        smap = W.station_map(w["stations"])
        net = {"stations": w["stations"], "rows": w["rows"], "links": [], "stubs": {s: [] for s in w["stations"]}}
        trains = _mirror(draw, w["trains"], smap, w["rows"])
        w = dict(w, trains=trains)
    return w


def _mirror(draw, trains, smap, rows):
    """let the stock of a train leave again the way it came (or part of it)"""
    k = draw(I(0, len(trains) - 1))
    p = [r["b"] for r in trains[k]["rows"]]
    nos = {t["no"] for t in trains}
    no = trains[k]["no"] * 10 + 9
    if no in nos or no * 10 + 9 in nos or (trains[k]["no"] % 10 == 9 and trains[k]["no"] // 10 in nos):
        return trains
    q = p[::-1]
    if chance(draw, 1, 8):
        # a counterpart that is nowhere near
        q = [r["b"] for r in trains[draw(I(0, len(trains) - 1))]["rows"]]
        if q[0] == p[-1] and q[-1] == p[0]:
            return trains
    elif chance(draw, 1, 6):
        # a counterpart at the same station, but on another track
        first = chance(draw, 1, 2)
        if (p[-1] if first else p[0]) not in smap:
            return trains
        at = smap[p[-1] if first else p[0]]
        b = W.pick(draw, sorted(x for x in smap if smap[x] == at))
        if first:
            q = [b] + q[1:][: draw(I(1, len(q) - 1))]
        else:
            q = q[:-1][-draw(I(1, len(q) - 1)):] + [b]
    elif chance(draw, 1, 2):
        if p[-1] not in smap:
            return trains
        q = q[: draw(I(2, len(q)))] if len(q) > 2 else q
    else:
        if p[0] not in smap:
            return trains
        q = q[draw(I(0, len(q) - 2)):]
    if not W.path_ok(q, smap) or not W.usable(rows, q):
        return trains
    if q[0] == p[-1] and q[-1] == p[0]:
        q = q[:-1] if q[0] in smap and p[-1] in smap else q[1:]
        if len(q) < 2 or not W.path_ok(q, smap):
            return trains
    new = W.dress(draw, no, q, smap)
    pos = draw(I(0, len(trains)))
    return trains[:pos] + [new] + trains[pos:]


class P(WorldProperty):
    id = "C11"
    quick, thorough = 1000, 8000
    min_trains = 1
    max_trains = 4
    rule = ("trains some of which have a shunting counterpart that brings the stock or takes it away; non-trivial: "
            "at least one such pair")

    def strategy(self, ctx):
        return with_pairs(super().strategy(ctx))

    def check(self, ctx, w):
        ref = Ref(w)
        want = ref.jround()
        lab = {"pair": bool(ref.pairs9()), "shunting train first": False, "shunting train second": False,
               "pair that does not meet": want is None or None in want, "two pairs": len(ref.pairs9()) > 1}
        out = run_world(ctx, w, [["get_trains_pair9", {}], ["get_jround", {}]])
        p9 = must(out[0], "stock sharing pairs")
        expect(sorted(map(tuple, p9)) == sorted(ref.pairs9()), "pairs differ",
               lambda: "%r instead of %r" % (p9, ref.pairs9()))
        if want is None or None in want:
            expect(not out[1].ok, "impossible circulation accepted",
                   lambda: "the trains of a pair do not meet at a station, but %r" % out[1])
            return lab
        got = must(out[1], "circulation")
        flat = [(s, tuple(p)) for s, v in got.items() for p in v]
        exp = {(s, p) for s, v in want.items() for p in v}
        expect(len(flat) == len(set(flat)) and set(flat) == exp, "wrong circulation",
               lambda: "%r instead of %r" % (got, want))
        for _, (a, b) in exp:
            lab["shunting train first"] |= a == b * 10 + 9
            lab["shunting train second"] |= b == a * 10 + 9
        return lab

    def nontrivial(self, lab):
        return lab["pair"]


PROPERTY = P()
