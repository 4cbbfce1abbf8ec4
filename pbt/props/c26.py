"""Kilometre positions are consistent along every line and segment."""
from hypothesis import strategies as st

from ..client import Outcome
from ..dispatch import I, chance, pick
from ..engine import Property
from .common import expect, must

LETTERS = list("ABCDKLMOSTZabkłśÓŚ")
SLACK = 0.021  # the tables are in hundredths of a kilometre, rounded


@st.composite
def stations(draw):
    n = draw(I(1, 7))
    km, out, used = draw(I(0, 300)) / 100, [], set()
    for _ in range(n):
        name, call = None, ""
        while name is None or name.upper() in used:
            name = "".join(draw(st.lists(st.sampled_from(LETTERS), min_size=4, max_size=7)))
        used.add(name.upper())
        if chance(draw, 4, 5):
            call = None
            while call is None or call.upper() in used:
                call = "".join(draw(st.lists(st.sampled_from(LETTERS), min_size=1, max_size=3)))
                if chance(draw, 1, 4):
                    call += "(%s)" % draw(st.sampled_from(LETTERS))
            used.add(call.upper())
        out.append([name, call, km])
        km = round(km + draw(I(10, 900)) / 100, 2)
    return out


@st.composite
def cases(draw):
    segs = [["RAILWAYSEGMENTS", "seg%d" % i, draw(stations())] for i in range(draw(I(0, 2)))]
    lines = [["RAILWAYLINES", "line%d" % i, draw(stations())] for i in range(draw(I(0, 2)))]
    if len(lines) == 2 and chance(draw, 1, 2):  # lines that meet
        a, b = lines[0][2], lines[1][2]
        new = [s for s in a if chance(draw, 1, 2)]
        names = {x.upper() for s in new for x in s[:2] if x}
        lines[1][2] = [s for s in b if not {x.upper() for x in s[:2]} & names] + [
            [s[0], s[1], 100 + i] for i, s in enumerate(new)]
    return {
        "tables": segs + lines,
        "ask": draw(st.lists(st.tuples(I(0, 40), I(0, 3), I(0, 9)), min_size=1, max_size=8)),
        "seg": draw(I(0, 9)), "except": draw(st.lists(I(0, 40), max_size=3)), "set": draw(I(0, 2)),
        "lines": draw(st.lists(I(0, 9), min_size=1, max_size=4)),
    }


class P(Property):
    id = "C26"
    quick, thorough = 16000, 128000
    rule = ("the shipped tables of lines and segments (every pair of stations), and questions about them and about added "
            "lines and segments: names, call signs, spelling in other case, unknown stations, stations left out, routes; "
            "non-trivial: a known and an unknown station asked for")
    assumptions = ["stations left out are named the way they are asked for",
                   "positions along a segment may differ from the line table by rounding, 0.02 km"]

    def strategy(self, ctx):
        return cases()

    def fixed_cases(self, ctx):
        return [{"shipped": True}]

    def check(self, ctx, case):
        tables = case.get("tables", [])
        segs, lines = [must(Outcome(o), "tables") for o in ctx.call("lines", tables=tables, calls=[
            ["table", {"which": "RAILWAYSEGMENTS"}], ["table", {"which": "RAILWAYLINES"}]])]
        if case.get("shipped"):
            return self.shipped(segs, lines)
        new = [n for w, n, _ in tables if w == "RAILWAYSEGMENTS"]
        seg = (new + sorted(segs))[case["seg"] % len(segs)]
        pool = [(s["name"], s["callsign"]) for s in segs[seg]]
        pool += [(s["name"], s["callsign"]) for n in sorted(lines) for s in lines[n]] + [("nowhere", "NW"), ("Kraków", "Kr")]
        k = len(segs[seg])

        def form(i, how):
            name, call = pool[i % k if how % 2 else i % len(pool)]
            x = call if call and how < 2 else name
            return x

        asked = []
        for i, how, case_ in case["ask"]:
            x = form(i, how)
            asked.append(x.lower() if case_ == 0 else x.upper() if case_ == 1 else x)
        ex = [form(i, 1) for i in case["except"]]
        # leave out by the form asked for only
        ex = [e for e in ex if all(not self.same(segs[seg], e, a) or e.upper() == a.upper() for a in asked)]
        chosen = [sorted(lines)[i % len(lines)] for i in case["lines"]]
        exact = [form(i, how) for i, how, _ in case["ask"]]
        calls = []
        for a in asked:
            calls += [["station2km", {"station": a, "segment": seg}],
                      ["station_on_segment", {"station": a, "segment": seg}],
                      ["station_on_segment", {"station": a, "segment": seg, "exceptions": ex}]]
        calls += [["train_on_segment", {"route": asked, "segment": seg, "exceptions": None}],
                  ["train_on_segment", {"route": asked, "segment": seg, "exceptions": ex}]]
        calls += [["station_on_lines", {"station": e}] for e in exact]
        calls += [["route_on_lines", {"route": exact, "lines": chosen}]]
        out = [Outcome(o) for o in ctx.call("lines", tables=tables, calls=calls)]
        pos = {}
        for s in segs[seg]:
            pos[s["name"].upper()] = s["km"]
            if s["callsign"]:
                pos[s["callsign"].upper()] = s["km"]
        exu = {e.upper() for e in ex}
        it = iter(out)
        known = unknown = 0
        for a in asked:
            o = next(it)
            if a.upper() in pos:
                known += 1
                expect(o.ok and abs(o.value - pos[a.upper()]) < 1e-9, "position",
                       lambda: "%s on %s: %r, expected %s" % (a, seg, o, pos[a.upper()]))
            else:
                unknown += 1
                expect(not o.ok and o.exc == "ValueError", "unknown station", lambda: "%s on %s: %r" % (a, seg, o))
            got = must(next(it), "on segment")
            expect(bool(got) == (a.upper() in pos), "on segment", lambda: "%s on %s: %s" % (a, seg, got))
            got = must(next(it), "on segment")
            want = a.upper() in pos and a.upper() not in exu
            expect(bool(got) == want, "on segment, some left out", lambda: "%s on %s without %s: %s" % (a, seg, ex, got))
        got = must(next(it), "stations of a train")
        expect(got == known, "stations of a train", lambda: "%s on %s: %s, expected %s" % (asked, seg, got, known))
        got = must(next(it), "stations of a train")
        want = len([a for a in asked if a.upper() in pos and a.upper() not in exu])
        expect(got == want, "stations of a train", lambda: "%s on %s without %s: %s, expected %s" % (asked, seg, ex, got, want))
        at = []
        for e in exact:
            got = must(next(it), "lines of a station")
            want = [(n, i) for n in lines for i, s in enumerate(lines[n]) if e in (s["name"], s["callsign"])]
            at.append(want)
            expect(sorted(map(tuple, got)) == sorted(want), "lines of a station", lambda: "%s: %s, expected %s" % (e, got, want))
        got = must(next(it), "route on lines")
        want = [sorted(x for x in w if x[0] in chosen) for w in at]
        want = [w for w in want if w]
        expect([sorted(map(tuple, g)) for g in got] == want, "route on lines",
               lambda: "%s on %s: %s, expected %s" % (exact, chosen, got, want))
        return {"known and unknown": bool(known and unknown), "added": seg in new, "left out": bool(ex),
                "on several lines": any(len(w) > 1 for w in at)}

    @staticmethod
    def same(seg, a, b):
        return any({a.upper(), b.upper()} <= {s["name"].upper(), s["callsign"].upper()} for s in seg)

    @staticmethod
    def shipped(segs, lines):
        for what, table in (("line", lines), ("segment", segs)):
            for n, ss in table.items():
                for a, b in zip(ss, ss[1:]):
                    expect(a["km"] < b["km"], "order of stations",
                           lambda: "%s %s: %s at %s, then %s at %s" % (what, n, a["name"], a["km"], b["name"], b["km"]))
        km = {n: {s["name"]: s["km"] for s in ss} for n, ss in lines.items()}
        pairs = 0
        for n, ss in segs.items():
            for i, a in enumerate(ss):
                for b in ss[i + 1:]:
                    dist = [abs(k[a["name"]] - k[b["name"]]) for k in km.values() if a["name"] in k and b["name"] in k]
                    if dist:
                        pairs += 1
                        d = b["km"] - a["km"]
                        expect(min(abs(d - x) for x in dist) <= SLACK, "distance on a segment",
                               lambda: "segment %s: %s to %s is %.2f km, the line has %s"
                               % (n, a["name"], b["name"], d, ["%.2f" % x for x in dist]))
        # the same stretch has the same length on all segments
        for n, ss in segs.items():
            for m, tt in segs.items():
                pos = {t["name"]: t["km"] for t in tt}
                both = [s for s in ss if s["name"] in pos]
                for a, b in zip(both, both[1:]):
                    d, e = b["km"] - a["km"], abs(pos[b["name"]] - pos[a["name"]])
                    expect(abs(d - e) <= SLACK, "distance on two segments",
                           lambda: "%s to %s: %.2f km on %s, %.2f on %s" % (a["name"], b["name"], d, n, e, m))
        return {"known and unknown": False, "pairs of stations": pairs > 50}

    def nontrivial(self, lab):
        return lab.get("known and unknown")


PROPERTY = P()
