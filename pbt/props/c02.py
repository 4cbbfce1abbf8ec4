"""Block running times follow the network table."""
import math

from hypothesis import strategies as st

from ..client import Outcome
from .. import worlds as W
from ..ref import Ref
from ..worlds import I, chance, pick
from .common import WorldProperty, expect, must, run_world


@st.composite
def broken(draw, base):
    """a valid world, one train of which may be sent where it cannot go"""
    w = draw(base)
    out = {"world": w, "break": None}
    if chance(draw, 1, 3):
        k = draw(I(0, len(w["trains"]) - 1))
        rows = w["trains"][k]["rows"]
        i = draw(I(0, len(rows) - 1))
        kind = draw(I(0, 2))
        if kind == 0:
            out["break"] = [k, i, "NEW"]
        else:
            allb = sorted({r["b"] for t in w["trains"] for r in t["rows"]} | {r[0] for r in w["rows"][:8]})
            out["break"] = [k, i, pick(draw, allb)]
    return out


class P(WorldProperty):
    id = "C02"
    quick, thorough = 700, 6000
    min_trains = 1
    max_trains = 4
    rule = ("trains on generated and shipped networks, with mixed speed classes and both travel directions, "
            "and routes with one block replaced; non-trivial: a train crosses table rows in both orientations "
            "or uses both speed classes, or the route has a hop that is not in the table")

    def strategy(self, ctx):
        return broken(super().strategy(ctx))

    def check(self, ctx, case):
        w = case["world"]
        ref = Ref(w)
        lab = {"hop not in the table": False, "both orientations": False, "both speeds": False, "valid route": False}
        if case["break"] is None:
            got = must(run_world(ctx, w, [["tables", {}]])[0], "building timetables")
            expect(list(got) == ref.J, "trains differ", lambda: "%r instead of %r" % (list(got), ref.J))
            for j in ref.J:
                rec = got[j][1].records()
                self.compare(j, ref.path[j], [r["passing_time"] for r in rec], ref)
                st_got = [r["important_station"] for r in rec]
                for b, s in zip(ref.path[j], st_got):
                    want = ref.smap.get(b)
                    expect(s == want if want is not None else (isinstance(s, float) and math.isnan(s)),
                           "wrong station", lambda: "train %s block %s labelled %r, expected %r" % (j, b, s, want))
                for r, o in zip(rec, ref.tr[j]["rows"]):
                    expect(r["path"] == o["b"] and r["speed"] == o["sp"], "table changed",
                           lambda: "train %s: row %r became %r" % (j, o, r))
                d = {ref.hop(a, b)[1] for a, b in zip(ref.path[j], ref.path[j][1:])}
                lab["both orientations"] |= len(d) == 2
                lab["both speeds"] |= len({r["sp"] for r in ref.tr[j]["rows"]}) == 2
                lab["valid route"] = True
            return lab
        k, i, b = case["break"]
        t = w["trains"][k]
        table = [[r["b"], r["sp"]] for r in t["rows"]]
        table[i] = [b, table[i][1]]
        r = ctx.call("passing", table=table, rows=w["rows"])
        hops = [ref.hop_time(x[0], y[0], x[1]) if x[0] != y[0] else None for x, y in zip(table, table[1:])]
        if any(x[0] == y[0] for x, y in zip(table, table[1:])):
            return lab  # a block following itself is outside the format
        for (x, y), h, o in zip(zip(table, table[1:]), hops, r["single"]):
            o = Outcome(o)
            if h is None:
                expect(not o.ok, "impossible hop accepted",
                       lambda: "%s -> %s at speed %s is not in the table but %r" % (x[0], y[0], x[1], o))
            else:
                expect(o.ok and abs(o.value - float(h)) < 1e-9, "wrong running time",
                       lambda: "%s -> %s at speed %s: expected %s, %r" % (x[0], y[0], x[1], float(h), o))
        o = Outcome(r["all"])
        if None in hops:
            lab["hop not in the table"] = True
            expect(not o.ok, "impossible route accepted", lambda: "%r %r" % (table, o))
        else:
            got = must(o, "running times of a valid route")
            expect(len(got) == len(table) and got[-1] != got[-1]
                   and all(abs(g - float(h)) < 1e-9 for g, h in zip(got, hops)), "wrong running time",
                   lambda: "%r instead of %r" % (got, [float(h) for h in hops]))
        return lab

    def compare(self, j, path, got, ref):
        expect(len(got) == len(path), "rows differ", lambda: "train %s: %d running times for %d blocks" % (j, len(got), len(path)))
        for b, g in zip(path, got):
            want = ref.time[j][b]
            good = g != g if want is None else (g == g and abs(g - float(want)) < 1e-9)
            expect(good, "wrong running time",
                   lambda: "train %s block %s: %r, the table says %s" % (j, b, g, None if want is None else float(want)))

    def nontrivial(self, lab):
        return lab["hop not in the table"] or lab["both orientations"] or lab["both speeds"]


PROPERTY = P()
