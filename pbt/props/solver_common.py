"""shared by the checks of the dispatching model"""
from hypothesis import strategies as st

from .. import dispatch as D
from ..dispatch import I
from ..engine import Property, Violation
from ..solvers import guarded, load
from .common import expect

ASSUME = [
    "problems are of the form the data preparation produces: no station twice in a route, every train leaving a "
    "station towards another is listed in the group of its line track, trains sharing stock stand on one track",
    "the solver libraries are replaced by stand-ins with the documented behaviour (DESIGN.md)",
]


def build(case, cat="Integer"):
    """(rules, program) of a problem"""
    rs, _ = load()
    rules = D.Rules(case)
    ts, tt, d_max = D.to_input(case)
    before = repr((ts, tt))
    prob = guarded("building the program of a valid problem", rs.create_linear_problem, ts, tt, d_max, cat)
    expect(repr((ts, tt)) == before, "input changed", "building the program changes the problem data")
    return rules, prob


def point_recipes():
    return st.fixed_dictionaries({
        "prefs": st.lists(st.lists(I(0, 1), min_size=1, max_size=7), min_size=1, max_size=4),
        "prio": st.lists(st.lists(I(0, 5), min_size=6, max_size=6), min_size=0, max_size=2),
        "rand": st.lists(st.lists(I(0, 20), min_size=1, max_size=9), min_size=0, max_size=3),
        "low": st.lists(st.lists(st.tuples(I(0, 30), I(1, 12)).map(list), min_size=1, max_size=3), min_size=0, max_size=4),
        "bump": st.lists(st.tuples(I(0, 30), I(1, 4)).map(list), min_size=0, max_size=3),
    })


def points(rules, recipe, limit=160):
    """timetables around the border between allowed and forbidden"""
    base = []
    try:
        _, d = rules.optimum(budget=3000)
        if d:
            base.append(d)
    except TimeoutError:
        pass
    for p in recipe["prefs"]:
        d = rules.repaired(p)
        if d:
            base.append(d)
    n = len(rules.vars)
    for i, low in enumerate(recipe["low"]):  # some departures held back
        if n:
            d = rules.repaired(recipe["prefs"][i % len(recipe["prefs"])],
                               low=[(rules.vars[k % n], None, min(x, rules.d_max), "held") for k, x in low])
            if d:
                base.append(d)
    for p in recipe["prio"]:
        d = rules.greedy(dict(zip(rules.J, p)))
        if d:
            base.append(d)
    for r in recipe["rand"]:
        base.append({v: r[i % len(r)] % (rules.d_max + 1) for i, v in enumerate(rules.vars)})
    base.append({v: 0 for v in rules.vars})
    out, seen = [], set()

    def add(d):
        k = tuple(d[v] for v in rules.vars)
        if k not in seen and len(out) < limit:
            seen.add(k)
            out.append(d)

    for d in base:
        add(d)
    for d in base:
        for v in rules.vars:
            for x in (-1, 1):
                if 0 <= d[v] + x <= rules.d_max:
                    add(d | {v: d[v] + x})
        for i, x in recipe["bump"]:  # a train later from some station on
            if n:
                j, s = rules.vars[i % n]
                e = dict(d)
                for v in rules.vars[i % n:]:
                    if v[0] == j:
                        e[v] = min(rules.d_max, e[v] + x)
                add(e)
    return out


def show(rules, d):
    return ", ".join("%s@%s:%s" % (j, s, d[j, s]) for j, s in rules.vars if d[j, s])


def cases(**k):
    return st.fixed_dictionaries({"p": D.problems(**k), "pts": point_recipes()})
