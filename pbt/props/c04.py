"""A route that the network does not allow is rejected, a possible one is accepted."""
from hypothesis import strategies as st

from ..client import Outcome
from .. import worlds as W
from ..ref import Ref
from ..worlds import I, chance, pick
from .common import WorldProperty, expect


@st.composite
def cases(draw, base):
    w = draw(base)
    t = pick(draw, w["trains"])
    path = [r["b"] for r in t["rows"]]
    kind = draw(I(0, 5))
    allb = sorted({x for r in w["rows"] for x in r[:2]})
    if kind == 1 and len(path) > 2:
        i = draw(I(0, len(path) - 1))
        path = path[:i] + path[i + 1:]
    elif kind == 2:
        i = draw(I(0, len(path) - 1))
        path[i] = pick(draw, allb)
    elif kind == 3 and len(path) > 2:
        i = draw(I(0, len(path) - 2))
        path[i], path[i + 1] = path[i + 1], path[i]
    elif kind == 4:
        i = draw(I(0, len(path)))
        path.insert(i, pick(draw, ['"XX", "ST", 1, "(1)"', ""] + allb))
    elif kind == 5:
        path = path[::-1]
    rows = w["rows"]
    if chance(draw, 1, 4) and len(rows) > 1:
        i = draw(I(0, len(rows) - 1))
        rows = rows[:i] + rows[i + 1:]
    return {"path": path, "rows": rows, "whole": chance(draw, 1, 2)}


class P(WorldProperty):
    id = "C04"
    quick, thorough = 1200, 12000
    min_trains = 1
    max_trains = 3
    rule = ("routes of generated trains with a block dropped, replaced, swapped or added, or a table row removed; "
            "non-trivial: the route has three or more blocks")
    assumptions = ["a block is not listed twice in a row"]

    def strategy(self, ctx):
        return cases(super().strategy(ctx))

    def check(self, ctx, case):
        path = case["path"]
        pairs = {frozenset((r[0], r[1])) for r in case["rows"]}
        hops = [(a, b) for a, b in zip(path, path[1:])]
        lab = {"connected": False, "known blocks, not connected": False, "unknown block": False,
               "long": len(path) >= 3}
        if any(a == b for a, b in hops):
            return lab
        bad = [h for h in hops if frozenset(h) not in pairs]
        o = Outcome(ctx.call("continuity", path=path, rows=case["rows"], whole=case["whole"]))
        blocks = {x for r in case["rows"] for x in r[:2]}
        if bad:
            unknown = any(x not in blocks for h in bad for x in h)
            lab["unknown block" if unknown else "known blocks, not connected"] = True
            expect(not o.ok, "broken route accepted",
                   lambda: "no connection %s -> %s in the network, but the check passes" % bad[0])
            named = [x for x in sorted(blocks | set(path)) if x and repr(x) in o.msg]
            if named and len(bad) == 1:
                expect(set(named) <= set(bad[0]), "wrong block named", lambda: "%s is to blame, said: %s" % (bad[0], o.msg))
                if "not present" in o.msg:
                    expect(not set(named) & blocks, "known block called unknown", lambda: "%s" % o.msg)
                elif "not connected" in o.msg:
                    expect(set(named) <= blocks, "unknown block passed for known", lambda: "%s" % o.msg)
        else:
            lab["connected"] = True
            expect(o.ok, "valid route rejected", lambda: "route %r %r" % (path, o))
        return lab

    def nontrivial(self, lab):
        return lab["long"] and (lab["connected"] or lab["known blocks, not connected"] or lab["unknown block"])


PROPERTY = P()
