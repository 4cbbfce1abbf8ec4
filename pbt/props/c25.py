"""Space-time diagrams show each train where and when it is."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from .. import diagrams as G
from ..client import HarnessError, Outcome
from ..dispatch import I, chance, pick
from ..engine import Property
from .common import expect, must

DIR = "solutions_quantum/data4diagrams/"
APART = {"KO", "KO(STM)"}  # passing through Katowice alone does not put a train on a segment
PREFIX = {"resolved": "", "conflicted": "conflicted_"}


@st.composite
def cases(draw):
    seg = pick(draw, ["137138GLYKZ", "137138GLYKZ", "138139KZTY", "137139GLYTy"])
    quantum = chance(draw, 1, 2)
    if quantum:
        keys = list(range(1, draw(I(2, 4))))
        data = [[k, draw(G.solution(3))] for k in keys]
        real = pick(draw, keys)
    else:
        data, real = draw(G.solution()), None
    shown = dict((k, v) for k, v in data)[real] if quantum else data
    fixed = [no for no, _ in shown if chance(draw, 1, 4)] if chance(draw, 1, 3) else []
    return {"seg": seg, "quantum": quantum, "data": data, "real": real, "fixed": fixed,
            "eps": draw(I(0, 2)) if chance(draw, 1, 3) else 0, "case": draw(I(0, 9)),
            "leave": bool(real == 1 and chance(draw, 1, 2)), "list": chance(draw, 1, 5)}


class P(Property):
    id = "C25"
    quick, thorough = 6000, 48000
    rule = ("stored solutions (one, or several realisations) of 1-5 trains on routes on, partly on and off the segments; "
            "the drawing made by the diagram script is read back; non-trivial: a drawn train with two or more stations "
            "on the segment whose original and solved times differ")
    assumptions = ["all times are on one day, as in the stored solutions",
                   "a train is drawn if it meets two stations of the segment other than Katowice and its yard, or is asked for"]

    def strategy(self, ctx):
        return cases()

    def table(self, ctx):
        if "seg" not in ctx.data:
            out = Outcome(ctx.call("lines", tables=[], calls=[["table", {"which": "RAILWAYSEGMENTS"}]])[0])
            if not out.ok:
                raise HarnessError("no table of segments: %r" % out)
            ctx.data["seg"] = out.value
        return ctx.data["seg"]

    def check(self, ctx, case):
        seg = [dict(s) if isinstance(s, dict) else dict(s) for s in self.table(ctx)[case["seg"]]]
        km = {}
        for s in seg:
            for k in (s["callsign"], s["name"]):
                if k:
                    km[k.upper()] = s["km"]
        shown = dict((k, v) for k, v in case["data"])[case["real"]] if case["quantum"] else case["data"]
        name = ("cqm5_case%d_Integer.pkl" if case["quantum"] else "PULP_CBC_CMD_case%d_Integer.pkl") % case["case"]
        files = [[name, ["scheds" if case["quantum"] else "sched", case["data"]]]]
        if case["list"]:
            return self.listing(ctx, case, name, files, shown)
        argv = [name]
        if case["seg"] != "137138GLYKZ" or case["case"] % 2:
            argv += ["--segment", case["seg"]]
        if case["quantum"] and not case["leave"]:
            argv += ["--realisation", str(case["real"])]
        if case["fixed"]:
            argv += ["--fixedtrains", ",".join(map(str, case["fixed"]))]
        if case["eps"]:
            argv += ["--epsfile", "out.eps"] + (["--epsbw"] if case["eps"] > 1 else [])
        text = must(Outcome(ctx.call("script", rel=DIR + "echo_gnuplot_file.py", argv=argv, files=files)), "drawing")

        want = {"resolved": [], "conflicted": []}
        marks = []
        lab = {"long": False, "partly": False, "not drawn": False, "asked for": bool(case["fixed"]),
               "one of several": case["quantum"]}
        for no, stations in shown:
            route = G.ordered(stations)
            on = [s for s, _ in route if s.upper() in km]
            drawn = len([s for s in on if s.upper() not in APART]) >= 2 or no in case["fixed"]
            if not drawn:
                lab["not drawn"] = True
                continue
            lines = {}
            for status, pre in PREFIX.items():
                pts, prev = [], None
                for s, d in route:
                    if s.upper() not in km:
                        continue
                    x = km[s.upper()]
                    if pre + "arrive" in d:
                        t = d[pre + "arrive"][1]
                        pts.append((x, G.clock(t)))
                        if prev:
                            marks.append((prev[0] + (x - prev[0]) / 2, Fraction(prev[1] + t, 2), str(no)))
                    if pre + "departure" in d:
                        t = d[pre + "departure"][1]
                        pts.append((x, G.clock(t)))
                        prev = (x, t)
                lines[status] = pts
                if pts:
                    want[status].append(pts)
            lab["long"] = lab["long"] or (len(on) >= 2 and lines["resolved"] != lines["conflicted"])
            lab["partly"] = lab["partly"] or 2 <= len(on) < len(route)
        got, labels, styles, head = parse(text)
        for status, colour in (("resolved", "green"), ("conflicted", "red")):
            nums = [n for n, d in styles.items() if colour in d]
            have = sorted(p for ls, p in got if ls in nums and p)
            exp = sorted([(round(x, 4), t) for x, t in p] for p in want[status])
            expect(have == exp, "path drawn",
                   lambda: "%s: %s" % (status, next(("drawn %s, expected %s" % (a, b) for a, b in zip(have, exp) if a != b),
                                                    "%d paths drawn, expected %d" % (len(have), len(exp)))))
        marks.sort(key=lambda m: (m[2], round(m[0], 4), m[1]))
        labels.sort(key=lambda m: (m[2], m[0], m[1]))
        expect(len(marks) == len(labels), "numbers drawn", lambda: "%d numbers, expected %d" % (len(labels), len(marks)))
        for a, b in zip(labels, marks):
            expect(a[2] == b[2] and abs(a[0] - b[0]) < 2e-4 and abs(a[1] - b[1]) <= 1, "number drawn",
                   lambda: "number %s at km %s, %s, expected %s at %s, %s"
                   % (a[2], a[0], G.clock(int(a[1])), b[2], b[0], G.clock(int(b[1]))))
        tics = sorted((s["callsign"], round(s["km"], 4)) for s in seg if s["callsign"])
        expect(head["tics"] == tics, "stations on the axis", lambda: "%s instead of %s" % (head["tics"], tics))
        ends = [seg[0]["km"], seg[-1]["km"]]
        expect(head["range"] == ends, "range of the axis", lambda: "%s instead of %s" % (head["range"], ends))
        expect(head["output"] == ("out.eps" if case["eps"] else None), "output file", lambda: "%s" % head["output"])
        expect(bool(head["colour"]) == (case["eps"] == 1), "colours", lambda: "file kind %d: %s" % (case["eps"], head["term"]))
        expect(head["pause"] == (not case["eps"]), "drawing on the screen", lambda: "file kind %d" % case["eps"])
        told = re.findall(r"\d+", head["title"] or "")
        expect(told == [str(case["case"])] + ([str(case["real"])] if case["quantum"] else []), "title",
               lambda: "%r for network %d, realisation %s" % (head["title"], case["case"], case["real"]))
        return lab

    def listing(self, ctx, case, name, files, shown):
        argv = [name] + ([str(case["real"])] if case["quantum"] else [])
        text = must(Outcome(ctx.call("script", rel=DIR + "read_quantum_pickle.py", argv=argv, files=files)), "listing")
        want = {}
        for no, stations in shown:
            for status, pre in PREFIX.items():
                want[str(no), status] = [
                    [s] + ["2020-01-01 %s:00" % G.clock(d[pre + k][1]) if pre + k in d else None
                           for k in ("arrive", "departure")] for s, d in G.ordered(stations)]
        got, cur = {}, None
        for line in text.splitlines():
            m = re.match(r"^(\d+) / (\w+)$", line)
            if m:
                cur = got.setdefault(m.groups(), [])
            elif cur is not None and re.match(r"^\d+ ", line):
                rest = re.sub(r"\s+", " ", line).split(" ", 1)[1]
                m = re.match(r"^(.*?) (NaT|None|NaN|\d{4}-\d\d-\d\d(?: \d\d:\d\d:\d\d)?) "
                             r"(NaT|None|NaN|\d{4}-\d\d-\d\d(?: \d\d:\d\d:\d\d)?)$", rest)
                if not m:
                    raise HarnessError("cannot read the listing: %r" % line)
                cur.append([m.group(1)] + [None if x in ("NaT", "None", "NaN") else x if ":" in x else x + " 00:00:00"
                                           for x in m.groups()[1:]])
        expect(got == want, "listed paths",
               lambda: next(("%s: %s instead of %s" % (k, got.get(k), want[k]) for k in want if got.get(k) != want[k]),
                            "also %s" % [k for k in got if k not in want]))
        return {"listing": True}

    def nontrivial(self, lab):
        return lab.get("long")


def parse(text):
    """([(line style, points)], [(km, minutes, text)], {style: definition}, head)"""
    blocks, styles, cur = {}, {}, None
    head = {"tics": None, "range": None, "output": None, "title": None, "colour": False, "term": None, "pause": False}
    plot = ""
    for line in text.splitlines():
        if cur:  # as gnuplot does: up to the word that ends the data
            if line.strip() == cur[1]:
                cur = None
            elif line.strip():
                cur[0].append(line.split())
            continue
        m = re.match(r"^\$(\w+) << (\w+)$", line)
        if m:
            cur = (blocks.setdefault(m.group(1), []), m.group(2))
            continue
        m = re.match(r"^set style line (\d+) (.*)$", line)
        if m:
            styles[m.group(1)] = m.group(2)
        m = re.match(r"^set xrange \[(.*):(.*)\]", line)
        if m:
            head["range"] = [float(m.group(1)), float(m.group(2))]
        if line.startswith("set xtics"):
            head["tics"] = sorted((a, round(float(b), 4)) for a, b in re.findall(r'"([^"]*)" ([-\d.]+)', line))
        m = re.match(r'^set output "(.*)"', line)
        if m:
            head["output"] = m.group(1)
        m = re.match(r"^set title '(.*)'", line)
        if m:
            head["title"] = m.group(1)
        if line.startswith("pause"):
            head["pause"] = True
        if line.startswith("set term"):
            head["term"], head["colour"] = line, " color " in line
        if line.strip().startswith("plot"):
            plot += line
    lines, labels = [], []
    for name, rest in re.findall(r"\$(\w+) using ([^$]*)", plot):
        rows = blocks.get(name)
        expect(rows is not None, "path drawn", lambda: "the drawing shows %s, which it does not contain" % name)
        if "with labels" in rest:
            for x, t, no in rows:
                h, m = t.split(":")
                labels.append((float(x), int(h) * 60 + int(m), no))
        else:
            ls = re.search(r"\bls (\d+)", rest)
            lines.append((ls.group(1) if ls else None, [(round(float(x), 4), t) for x, t in rows]))
    return lines, labels, styles, head


PROPERTY = P()
