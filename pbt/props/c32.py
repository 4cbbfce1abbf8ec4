"""The shipped networks, station lists and schedules fit together."""
from hypothesis import strategies as st

from .. import worlds as W
from ..client import Outcome
from ..dispatch import I
from ..engine import Property
from .common import expect, must, run_world


def fields(block):
    """a block by its meaning: spaces do not matter"""
    return tuple(x.strip() for x in block.split(","))


class P(Property):
    id = "C32"
    quick, thorough = 480, 3600
    rule = ("selections of the trains of the seven shipped schedules and new ways over the shipped network, with the shipped station "
            "lists and with those the scripts write again; non-trivial: two trains of a new selection, or on new ways, that meet a "
            "common station")
    assumptions = ["a block is meant to be of a station if the list of the station has it, spaces apart"]

    def prepare(self, ctx):
        W.prepare_real(ctx)
        sets = ctx.data["sets"]
        rels = sorted({s["list"] for s in sets})
        ctx.data["again"] = dict(zip(rels, ctx.call("station_lists", rels=rels)))
        spelt = {}
        for r in sets[0]["rows"]:
            for b in r[:2]:
                spelt.setdefault(fields(b), b)
        # the same lists, in the spelling of the network
        ctx.data["meant"] = [
            dict(s, stations={k: [spelt.get(fields(b), b) for b in v] for k, v in s["stations"].items()}) for s in sets]

    def strategy(self, ctx):
        meant = ctx.data["meant"]

        def of(i):
            return st.one_of(W.real_walks([meant[i]], min_trains=1, max_trains=4),
                             W.real_subsets([meant[i]], min_trains=1, max_trains=8, mutate=False)).map(
                                 lambda w: {"set": i, "trains": w["trains"], "rows": w["rows"]})
        return I(0, len(meant) - 1).flatmap(of)

    def fixed_cases(self, ctx):
        return [{"set": i, "trains": s["trains"], "rows": s["rows"], "whole": True} for i, s in enumerate(ctx.data["sets"])]

    def check(self, ctx, case):
        s, meant = ctx.data["sets"][case["set"]], ctx.data["meant"][case["set"]]
        lists = s["stations"]
        again = must(Outcome(ctx.data["again"][s["list"]]), "writing the station lists again")
        expect({k: sorted(v) for k, v in again.items()} == {k: sorted(v) for k, v in lists.items()}, "lists differ",
               lambda: "%s: %r" % (s["list"], {k: [again.get(k), lists.get(k)] for k in set(again) | set(lists)
                                                 if again.get(k) != lists.get(k)}))
        owner = {}
        for k, v in lists.items():
            for b in v:
                expect(owner.setdefault(fields(b), k) == k, "block of two stations", lambda: "%s: %s" % (s["list"], b))
        smap = W.station_map(meant["stations"])
        known = {b for r in s["rows"] for b in r[:2]}
        ways = {}
        for t in case["trains"]:
            p = [r["b"] for r in t["rows"]]
            for b in p:
                expect(b in known, "block not in the network", lambda: "train %s of %s: %s" % (t["no"], s["name"], b))
            expect(W.usable(s["rows"], p), "way not in the network", lambda: "train %s of %s" % (t["no"], s["name"]))
            ways[t["no"]] = [smap[b] for b in p if b in smap]
        got = []
        for stations in (lists, again):
            out = run_world(ctx, {"rows": case["rows"], "stations": stations, "trains": case["trains"]},
                            [["get_Paths", {}], ["jtrack", {}], ["jd", {}]])
            got.append([must(o, "preparing trains") for o in out])
        for t in case["trains"]:
            have = list(got[0][0][t["no"]])
            expect(have == ways[t["no"]], "stations of a train", lambda: "train %s meets %s, prepared are %s; way %s" % (
                t["no"], ways[t["no"]], have, [r["b"] for r in t["rows"]]))
        expect(got[0] == got[1], "prepared differently", lambda: "%r with the lists shipped, %r with the lists written again"
               % tuple(got))
        met = [x for w in ways.values() for x in set(w)]
        return {"new ways": "whole" not in case, "common station": len(met) > len(set(met)), "whole file": "whole" in case}

    def nontrivial(self, lab):
        return lab["new ways"] and lab["common station"]


PROPERTY = P()
