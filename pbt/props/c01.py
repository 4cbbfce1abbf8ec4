"""Reading a schedule file loses and invents nothing."""
import math

from hypothesis import strategies as st

from ..client import Outcome
from ..engine import Property
from .. import worlds as W
from ..worlds import I, chance, pick, clock
from .common import expect, must

KEYS = [("sp", "speed"), ("arr", "Arr"), ("dep", "Dep"), ("app", "Approx_enter"),
        ("lab", "Label"), ("sh", "Shunting"), ("ta", "Turnaround_time_minutes")]

TEXT = ["Ondraszek", "S1", "S1 / 2", "Os 94", "tower express", "terra", "to", "IC-5", "Śląsk", "94a", "x",
        "Depart", "From here"]


@st.composite
def cases(draw):
    n = draw(I(1, 5))
    trains, nos = [], set()
    for _ in range(n):
        no = draw(I(1, 9)) if chance(draw, 1, 3) else draw(I(1, 999999))
        while no in nos and not chance(draw, 1, 12):
            no += 1
        nos.add(no)
        rows = []
        for _ in range(draw(I(0, 6))):
            a = pick(draw, ["KO", "to", "te", "from", "depa", "GLC", "KO(STM)", "12", "tear-to", "Świ"])
            b = pick(draw, ["ST", "SBL+Sem(ST)", "SBL", "PO(Załęże)", "B-M"])
            block = '"%s", "%s", %d, "(%s)"' % (a, b, draw(I(1, 20)), pick(draw, ["1", "2", "N/A"]))
            r = {"b": block}
            r["sp"] = pick(draw, ["R", "IC"])
            for f in ("arr", "dep", "app"):
                r[f] = clock(draw(I(0, 1439))) if chance(draw, 1, 3) else None
            r["lab"] = pick(draw, TEXT + ["to Katowice", "from x"]) if chance(draw, 1, 3) else None
            r["sh"] = "Y" if chance(draw, 1, 4) else None
            r["ta"] = draw(I(0, 30)) if chance(draw, 1, 4) else None
            if r["ta"] and chance(draw, 1, 4):
                r["ta"] += 0.5
            rows.append(r)
        if rows and chance(draw, 1, 8):  # a very long way
            m = draw(I(7, 200))
            rows = [dict(rows[i % len(rows)], b=rows[i % len(rows)]["b"].replace('"(', '"(%d' % (i // len(rows))))
                    for i in range(m)]
        trains.append({
            "no": no,
            "type": pick(draw, W.TYPES + ["PKP - Cargo", "IC - X 12"]),
            "name": pick(draw, TEXT),
            "from": pick(draw, ["from Gliwice", "from to X", "departs in Katowice", "departs Tychy", "from 12", "from"]),
            "to": pick(draw, ["to Gliwice", "to from X", "terminates in Katowice", "terminates Tychy", "to 12", "to"]),
            "rows": rows,
        })
    return {"trains": trains}


class P(Property):
    id = "C01"
    quick, thorough = 1600, 16000
    rule = ("schedule files written from generated trains (numbers, types, names, 0-6, at times up to 200, block rows with any "
            "combination of filled and empty cells); non-trivial: at least two trains and one train with two "
            "or more block rows")
    assumptions = ["train names are not plain numbers and do not start with the words that open a route",
                   "a file with a repeated number may be refused"]

    def prepare(self, ctx):
        W.prepare_real(ctx)

    def strategy(self, ctx):
        sets = ctx.data["sets"]
        return st.one_of(cases(), cases(), cases(), W.real_subsets(sets, max_trains=8).map(
            lambda w: {"trains": w["trains"]}))

    def fixed_cases(self, ctx):
        return [{"trains": s["file"]} for s in ctx.data["sets"]]

    def check(self, ctx, case):
        raw = ctx.call("parse", trains=case["trains"])
        want = {t["no"]: t for t in case["trains"]}
        if len(want) < len(case["trains"]):
            o = Outcome(raw)
            expect(not o.ok or len(o.value) == len(case["trains"]), "repeated number drops a train",
                   "the file lists %d trains under %d numbers, the earlier train of a number is lost without a word"
                   % (len(case["trains"]), len(want)))
            return {"two or more trains": False, "route of two or more blocks": False, "repeated number": True}
        got = must(Outcome(raw), "reading a well-formed schedule")
        expect(list(got) == list(want), "trains differ",
               lambda: "file lists trains %r, result has %r" % (list(want), list(got)))
        for no, t in want.items():
            info, table = got[no]
            head = [t["type"], t["name"], t["from"], t["to"]]
            expect(info == head, "header differs", lambda: "train %s: %r instead of %r" % (no, info, head))
            expect(len(table.rows) == len(t["rows"]), "rows differ",
                   lambda: "train %s has %d block rows, result has %d" % (no, len(t["rows"]), len(table.rows)))
            expect(set(table.cols) >= {"path"} | {c for _, c in KEYS}, "columns differ",
                   lambda: "train %s: columns %r" % (no, table.cols))
            for i, (r, g) in enumerate(zip(t["rows"], table.records())):
                expect(g["path"] == r["b"], "block differs",
                       lambda: "train %s row %d: %r instead of %r" % (no, i, g["path"], r["b"]))
                for k, c in KEYS:
                    v = r.get(k)
                    x = g[c]
                    if v is None:
                        good = isinstance(x, float) and math.isnan(x)
                    elif k == "ta":
                        good = not isinstance(x, str) and float(x) == float(v)
                    else:
                        good = x == v
                    expect(good, "cell differs",
                           lambda: "train %s row %d column %s: %r instead of %r" % (no, i, c, x, v))
        expect(raw["unchanged"], "input changed", "the table read from the file was modified")
        return {
            "two or more trains": len(want) >= 2,
            "route of two or more blocks": any(len(t["rows"]) >= 2 for t in case["trains"]),
            "route of sixty or more blocks": any(len(t["rows"]) >= 60 for t in case["trains"]),
            "empty route": any(not t["rows"] for t in case["trains"]),
            "empty and filled cells": any(r.get("arr") is None and r.get("dep") for t in case["trains"] for r in t["rows"]),
        }

    def nontrivial(self, lab):
        return lab["two or more trains"] and lab["route of two or more blocks"]


PROPERTY = P()
