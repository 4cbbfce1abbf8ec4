"""Every conflict-free timetable is admitted by the integer program."""
from hypothesis import strategies as st

from .. import dispatch as D
from .common import expect
from .solver_common import ASSUME, Property, build, cases, points, show


class P(Property):
    id = "C17"
    quick, thorough = 14000, 112000
    rule = ("dispatching problems as for C16, small allowed delays included; timetables settled in many orders, kept "
            "at the border of the rules; non-trivial: at least two kinds of conflict and a conflict-free timetable "
            "with a delay")
    assumptions = ASSUME

    def strategy(self, ctx):
        return st.one_of(cases(min_trains=3), cases(min_trains=2, max_trains=6, max_stations=5),
                         cases(min_trains=2, max_trains=4, small=True),
                         cases(min_trains=5, max_trains=6, max_stations=3, turns=True))

    def check(self, ctx, case):
        rules, prob = build(case["p"])
        prog = D.Program(prob, rules)
        lab = D.labels(case["p"], rules)
        n = delayed = 0
        for d in points(rules, case["pts"]):
            if rules.broken(d) is None:
                n += 1
                delayed += any(d.values())
                why = prog.refused(d)
                expect(why is None, "timetable excluded",
                       lambda: "delays {%s} break no rule but the program excludes them (%s)" % (show(rules, d), why))
        lab["conflict-free with a delay"] = delayed > 0
        lab["ten or more timetables"] = n >= 10
        return lab

    def nontrivial(self, lab):
        kinds = sum(lab[k] for k in ("following trains", "single track line", "station track", "switch"))
        return kinds >= 2 and lab["conflict-free with a delay"]


PROPERTY = P()
