"""The reported size of a problem is its size, and orders that are neither are noticed."""
import contextlib
import io
import re

from hypothesis import strategies as st

from .. import dispatch as D
from ..dispatch import I
from ..engine import Violation
from ..solvers import guarded, load
from .common import expect
from .solver_common import ASSUME, Property, build


def printed(f, *a):
    """(what it prints, whether it refuses)"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            f(*a)
    except AssertionError:
        return out.getvalue(), True
    except Exception as e:
        raise Violation("crash", "counting raises %s: %s" % (type(e).__name__, str(e)[:200]))
    return out.getvalue(), False


class P(Property):
    id = "C28"
    quick, thorough = 8000, 64000
    rule = ("dispatching problems of up to five trains, solved or given values, with one order spoilt in some; "
            "non-trivial: two or more orders to decide and two or more delays")
    assumptions = ASSUME

    def strategy(self, ctx):
        return st.fixed_dictionaries({
            "p": st.one_of(D.problems(min_trains=1), D.problems(min_trains=3, half=False)),
            "solve": st.booleans(),
            "cat": st.sampled_from(["Integer", "Integer", "Continuous"]),
            "x": st.lists(I(0, 40), min_size=1, max_size=9),
            "spoil": st.one_of(st.none(), st.tuples(I(0, 60), st.sampled_from([0.5, 2, -1, 0.1, 3, 0.999])).map(list)),
            "noise": st.sampled_from([0, 0, 1e-13, -1e-13]),
        })

    def check(self, ctx, case):
        rs, helpers = load()
        rules, prob = build(case["p"], case["cat"])
        of = {D.delay_name(*v) for v in rules.vars}
        names = [v.name for v in prob.variables()]
        orders = [n for n in names if n not in of]
        want = (len(orders), len(names) - len(orders), len(prob.constraints))
        got = guarded("counting", helpers.count_vars, prob)
        expect(tuple(got) == want, "size", lambda: "%s orders, delays and constraints instead of %s; %s"
               % (tuple(got), want, sorted(set(names) & of)[:6]))
        if case["solve"]:
            guarded("solving", prob.solve)
        if not case["solve"] or prob.status != 1:
            for i, v in enumerate(prob.variables()):
                x = case["x"][i % len(case["x"])]
                v.varValue = float(x % 2) + case["noise"] if v.name in orders else float(x % (case["p"]["d_max"] + 1))
        text, refused = printed(helpers.check_count_vars, prob)
        expect(not refused, "proper solution refused", lambda: "orders are 0 or 1: %s"
               % {v.name: v.varValue for v in prob.variables() if v.name in orders})
        nums = tuple(int(x) for x in re.findall(r"=\s*(\d+)\s*$", text, re.M))
        expect(nums == want, "printed size", lambda: "%s instead of %s" % (nums, want))
        spoilt = case["spoil"] and orders
        if spoilt:
            i, x = case["spoil"]
            n = orders[i % len(orders)]
            [v for v in prob.variables() if v.name == n][0].varValue = x
            _, refused = printed(helpers.check_count_vars, prob)
            expect(refused, "spoilt order accepted", lambda: "%s = %s passes" % (n, x))
        return {"orders": len(orders) >= 2, "delays": want[1] >= 2, "spoilt": bool(spoilt),
                "solved": bool(case["solve"]), "continuous": case["cat"] != "Integer"}

    def nontrivial(self, lab):
        return lab["orders"] and lab["delays"]


PROPERTY = P()
