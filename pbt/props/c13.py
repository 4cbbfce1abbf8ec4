"""A delay is added to the named train and to no other."""
from hypothesis import strategies as st

from ..client import Outcome
from ..engine import Property
from ..worlds import I, STATION_NAMES, chance, pick, _numbers
from .common import expect, must


@st.composite
def cases(draw):
    nos = _numbers(draw, draw(I(1, 7)))
    ic = {}
    for n in nos:
        ic["%d_%s" % (n, pick(draw, STATION_NAMES + ["1", "12"]))] = draw(I(-60, 90)) + (0.5 if chance(draw, 1, 6) else 0)
    delays = []
    for _ in range(draw(I(1, 4))):
        delays.append([pick(draw, nos), draw(I(0, 60)) if chance(draw, 5, 6) else -draw(I(1, 20))])
    return {"ic": ic, "delays": delays, "tools": chance(draw, 1, 4)}


class P(Property):
    id = "C13"
    quick, thorough = 4000, 40000
    rule = ("start times of up to seven trains whose numbers contain each other's digits, up to four delays in a "
            "row; non-trivial: one train's number ends with the digits of another one")

    def strategy(self, ctx):
        return cases()

    def check(self, ctx, case):
        raw = ctx.call("add_delay", ic=case["ic"], delays=case["delays"], tools=case["tools"])
        got = must(Outcome(raw), "adding a delay")
        want = dict(case["ic"])
        for t, d in case["delays"]:
            for k in want:
                if k.split("_")[0] == str(t):
                    want[k] += d
        expect(set(got) == set(want), "keys differ", lambda: "%r instead of %r" % (sorted(got), sorted(want)))
        for k in want:
            expect(abs(got[k] - want[k]) < 1e-9, "wrong start time",
                   lambda: "delays %r: %s became %r, expected %r" % (case["delays"], k, got[k], want[k]))
        src = Outcome({"ok": raw["src"]}).value
        expect(src == case["ic"], "input changed", lambda: "%r became %r" % (case["ic"], src))
        nos = [k.split("_")[0] for k in want]
        return {
            "number inside another": any(a != b and b.endswith(a) for a in nos for b in nos),
            "same train twice": len({t for t, _ in case["delays"]}) < len(case["delays"]),
        }

    def nontrivial(self, lab):
        return lab["number inside another"]


PROPERTY = P()
