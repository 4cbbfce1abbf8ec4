"""From the schedule file to the solved dispatching problem."""
from datetime import datetime, timedelta
from itertools import combinations

from hypothesis import strategies as st

from .. import dispatch as D
from .. import worlds as W
from ..client import Outcome
from ..ref import Ref, close, key, rounded_ok
from ..solvers import guarded, load
from ..worlds import I, chance, clock
from .c11 import with_pairs
from .c14 import CLASS, DEFAULT
from .common import WorldProperty, expect, must


def minutes(text):
    h, m = str(text).split(":")[:2]
    return int(h) * 60 + int(m)


def moved(train, shift):
    rows = []
    for r in train["rows"]:
        r = dict(r)
        for f in ("arr", "dep", "app"):
            if r[f]:
                r[f] = clock(min(max(minutes(r[f]) + shift, 0), 1439))
        rows.append(r)
    return dict(train, rows=rows)


def sound(w):
    """without trains that cannot be dispatched: one station only and no way on, stock that is not where it is needed"""
    while True:
        ref = Ref(w)
        skip = ref.skip()
        bad = {j for j in ref.J if j in skip and len(ref.st[j]) < 2}
        for a, b in ref.pairs9():
            pa, pb = ref.path[a], ref.path[b]
            joint = pa[0] if pa[0] == pb[-1] else pb[0] if pb[0] == pa[-1] else None
            if joint not in ref.smap or (pa[0] == pb[-1] and pb[0] == pa[-1]):
                bad.add(b)
        if not bad:
            return w
        trains = [t for t in w["trains"] if t["no"] not in bad]
        if not trains:
            return None
        w = dict(w, trains=trains)


@st.composite
def cases(draw, base, t1=None, spread=(0, 25)):
    w = sound(draw(base))
    if w is None:
        return {"world": None}
    ref = Ref(w)
    if t1 is None:
        t1 = 900 + draw(I(0, 120))
    spread = draw(I(*spread))
    get = {b: a for ps in ref.jround().values() for a, b in ps}
    run, stop = ref.taus_pass(), ref.taus_stop()
    start = {}

    def begin(j, depth=0):
        if j not in start:
            if j in get and depth < 4 and chance(draw, 3, 4):
                a = get[j]
                t = begin(a, depth + 1)
                for (x, s, s2), v in run.items():
                    if x == a:
                        t += v + stop.get((a, s2), 0)
                t += ref.turnaround(j, ref.st[j][0]) + draw(I(-3, 6))
            else:
                t = t1 + draw(I(0, spread))
            start[j] = int(min(max(t, 0), 1300))
        return start[j]

    trains = []
    for t in w["trains"]:
        j = t["no"]
        t = dict(t, rows=[dict(r) for r in t["rows"]])
        first = [r for r in t["rows"] if r["b"] in ref.smap][0]
        if not first["dep"] and not first["app"]:
            first["app"] = clock(720)
        begin(j)
        if j in get and first["ta"] is None:
            first["ta"] = draw(I(1, 9))
        trains.append(moved(t, start[j] - minutes(first["dep"] or first["app"])))
    delays = []
    if chance(draw, 2, 3):
        for _ in range(draw(I(1, 3))):
            delays.append([trains[draw(I(0, len(trains) - 1))]["no"], draw(I(1, 15))])
    return {"world": dict(w, trains=trains), "t1": clock(t1), "delays": delays, "d_max": draw(I(4, 40)),
            "stored": chance(draw, 1, 2), "default": chance(draw, 2, 3), "order": draw(I(0, 5))}


def pkey(*a):
    return key(*a)


def expected(ref, case, tau):
    """the dispatching problem of the world, with the given (verified) times"""
    skip = ref.skip()
    sched, ic = ref.schedule(case["t1"]), ref.initial(case["t1"])
    for j, x in case["delays"]:
        s = ref.st[j][0]
        ic[j, s] += x
    singles = {}
    for pr in ref.josingle():
        (a, s, s2), (b, _, _) = sorted(pr)
        singles.setdefault((s, s2), []).append([a, b])
    weights = {}
    empty = {b for _, b in ref.pairs9()}
    for j in ref.J:
        s = ref.st[j][-2] if j in skip else ref.st[j][-1]
        weights[key(j, s)] = DEFAULT["empty"] if j in empty else DEFAULT[CLASS[ref.tr[j]["type"]]]
    return {
        "J": list(ref.J),
        "paths": {str(j): list(ref.st[j]) for j in ref.J},
        "skip": {str(j): s for j, s in skip.items()},
        "Jd": [[a, b, [sorted(g) for g in gs]] for (a, b), gs in ref.jd().items()],
        "Jtrack": [[s, [sorted(g) for g in gs if len(g) > 1]] for s, gs in ref.jtrack().items()],
        "Josingle": [[a, b, ps] for (a, b), ps in singles.items()],
        "Jswitch": [[s, [sorted(map(list, p)) for p in ps]] for s, ps in ref.jswitch().items()],
        "Jround": [[s, [list(p) for p in sorted(ps)]] for s, ps in ref.jround().items()],
        "tau": tau,
        "ic": {key(*k): v for k, v in ic.items()},
        "sched": {key(*k): v for k, v in sched.items()},
        "weights": weights,
        "d_max": case["d_max"],
    }


def checked_times(ref, tau):
    """the prepared times, once each has been compared with the exact one"""
    out = {"pass": {}, "headway": {}, "stop": {}, "prep": {}, "res": tau["res"]}
    expect(tau["res"] == 1, "time of a switch", lambda: repr(tau["res"]))

    def take(kind, k, exact, zero=False):
        got = tau[kind].get(k)
        if got is None and exact == 0 and zero:
            got = 0
        expect(got is not None and rounded_ok(got, exact), "time %s" % kind,
               lambda: "%s of %s: %r, exactly %s" % (kind, k, got, float(exact)))
        out[kind][k] = got

    for (j, s, s2), v in ref.taus_pass().items():
        take("pass", key(j, s, s2), v)
    stop = ref.taus_stop()
    for j in ref.J:
        for i, s in enumerate(ref.st[j]):
            if i and (j, s) in stop:
                take("stop", key(j, s), stop[j, s])
            elif i:
                out["stop"][key(j, s)] = 0  # nothing is done at the last block
    for ps in ref.jround().values():
        for _, b in ps:
            take("prep", key(b, ref.st[b][0]), ref.turnaround(b, ref.st[b][0]))
    for (s, s2), gs in ref.jd().items():
        for g in gs:
            for a, b in combinations(sorted(g), 2):
                for x, y in ((a, b), (b, a)):
                    take("headway", key(x, y, s, s2), ref.headway(x, y, s, s2))
    return out


class P(WorldProperty):
    id = "C29"
    quick, thorough = 1200, 4800
    min_trains, max_trains = 2, 5
    rule = ("schedule files with trains close to each other in time, some sharing stock, with initial delays, through "
            "the whole preparation (stored and read back or not) into the solver; non-trivial: two or more conflicts "
            "and either a delay that cannot be avoided or no timetable at all")
    assumptions = WorldProperty.assumptions + [
        "a train that takes over stock has a turnaround time at its first station",
        "problems on which the independent search needs more than 5000 steps are judged on the rules only",
        "the solver libraries are replaced by stand-ins with the documented behaviour (DESIGN.md)",
    ]

    def strategy(self, ctx):
        return cases(with_pairs(super().strategy(ctx)))

    def check(self, ctx, case):
        rs, helpers = load()
        w = case["world"]
        if w is None:
            return {"left out": True}
        ref = Ref(w)
        got = must(Outcome(ctx.call("pipeline", world=w, t1=case["t1"], delays=case["delays"], stored=case["stored"],
                                    default_taus=case["default"])), "preparing a valid schedule")
        ts, tt, shown = got["train_set"], got["timetable"], got["shown"]
        tau = checked_times(ref, tt["tau"])
        rules = D.Rules(expected(ref, case, tau))
        d_max = case["d_max"]
        prob = guarded("building the problem of a valid schedule", rs.create_linear_problem, ts, tt, d_max, "Integer")
        program = D.Program(prob, rules)
        guarded("solving", prob.solve)
        lab = {"conflicts": len(rules.classes) >= 2, "stock handed over": bool(rules.frm),
               "disturbed": bool(case["delays"]), "read back": case["stored"],
               "shipped network": len(w["stations"]) > 0 and any(s in ("KO", "GLC", "KZ", "MR") for s in w["stations"])}
        try:
            want, best = rules.optimum(budget=5000)
            judged = True
        except TimeoutError:
            judged = False
        lab["judged on the rules only"] = not judged
        if judged:
            if want is None:
                expect(prob.status == -1, "infeasible problem solved",
                       lambda: "no timetable keeps to the rules, yet the status is %s" % prob.status)
            else:
                expect(prob.status == 1, "solvable problem not solved",
                       lambda: "a timetable with objective %s exists, status is %s (%s)"
                       % (want, prob.status, program.refused(best)))
                obj = prob.objective.value() if prob.objective else 0
                expect(abs(obj - want) < 1e-4, "not the least delay",
                       lambda: "objective %s, the least is %s" % (obj, want))
        lab["delay needed"] = judged and bool(want)
        lab["infeasible"] = judged and want is None
        if prob.status != 1:
            return lab
        val = {v.name: v.varValue for v in prob.variables()}
        # a delay that no constraint and no weight touches is not in the program
        d = {v: val.get(D.delay_name(*v), 0) or 0 for v in rules.vars}
        bad = rules.broken(d)
        expect(bad is None, "rule broken", lambda: "%s; delays %s" % (bad, {v: x for v, x in d.items() if x}))

        t0 = datetime(2020, 1, 1, 0, 0) + timedelta(minutes=minutes(case["t1"]))
        rep = guarded("printing the result", helpers.print_optimisation_results, prob, tt, ts, shown, got["skip"], d_max, t0)
        expect(list(rep) == list(ref.J), "trains of the report", lambda: "%r" % list(rep))
        clockwise = ref.schedule(case["t1"])
        for j in ref.J:
            expect(list(rep[j]) == ref.st[j], "stations of the report", lambda: "train %s: %r" % (j, list(rep[j])))
            for s in ref.st[j]:
                if (j, s) not in d:
                    continue
                at = (rep[j][s]["departure"] - t0).total_seconds() / 60
                expect(close(at, rules.e[j, s] + d[j, s]), "reported departure",
                       lambda: "train %s leaves %s at %s, reported %s" % (j, s, rules.e[j, s] + d[j, s], at))
                if (j, s) in clockwise:
                    expect(at >= clockwise[j, s] - 1e-6, "ahead of schedule",
                           lambda: "train %s leaves %s at %s, its schedule says %s" % (j, s, at, clockwise[j, s]))
        return lab

    def nontrivial(self, lab):
        return bool(lab.get("conflicts") and (lab.get("delay needed") or lab.get("infeasible")))


PROPERTY = P()
