"""Dispatching problems: generator, independent model of the traffic rules, reading of the program.

A case is a JSON-able description; to_input() turns it into what the project takes.
"""
import math
from itertools import combinations

from hypothesis import strategies as st

from .engine import Violation

INF = float("inf")


def I(a, b):
    return st.integers(a, b)


def chance(draw, a, b):
    return draw(I(1, b)) <= a


def pick(draw, xs):
    return xs[draw(I(0, len(xs) - 1))]


NAMES = [
    ["A", "B", "C", "D", "E"],
    ["KO", "KO(STM)", "KZ", "GLC", "KO(IC)"],
    ["KTC-CB", "KTC", "CB", "via Gt", "Gt"],
    ["MR", "CS", "CM", "Mr", "M"],
    ["Ty", "Bry 2", "Mz+y", "My-1", "y"],
]


# ---------------------------------------------------------------- generator


def dur(draw, a, b, half):
    """a time span in minutes"""
    if half and chance(draw, 1, 3 if half == 2 else 2):
        return draw(I(half * a, half * b)) / half
    return draw(I(a, b))


def shuffled(draw, xs):
    xs = list(xs)
    if len(xs) > 1 and chance(draw, 2, 3):
        return list(draw(st.permutations(xs)))
    return xs


@st.composite
def problems(draw, min_trains=2, max_trains=5, max_stations=4, half=True, small=False, handover=True, turns=False):
    # turns: trains meet at one station, where their stock goes on
    names = pick(draw, NAMES)
    ns = draw(I(2, max_stations))
    names = shuffled(draw, names[:ns])
    # times in whole minutes, halves or tenths
    half = pick(draw, [0, 0, 0, 2, 10]) if half else 0
    # lines: a tree; tracks of a line: 1 (both directions), 2 (one each), 4 (two each)
    edges = {}
    for i in range(1, ns):
        p = draw(I(0, i - 1))
        edges[frozenset((names[i], names[p]))] = pick(draw, [1, 1, 2, 2, 4])
    nb = {a: [b for b in names if frozenset((a, b)) in edges] for a in names}
    tracks = {a: draw(I(1, 3)) for a in names}
    if turns:
        tracks[names[0]] = draw(I(1, 2))

    def walk(start, least):
        path = [start]
        while len(path) < least or chance(draw, 2, 3):
            nxt = [b for b in nb[path[-1]] if b not in path]
            if not nxt:
                break
            path.append(pick(draw, nxt))
        return path

    n = draw(I(min_trains, max_trains))
    J, paths, hand = [], {}, {}
    numbers = draw(st.lists(st.one_of(I(1, 12), I(1, 99999)), min_size=n, max_size=n, unique=True))
    gets = set()
    for j in numbers:
        cand = [k for k in J if k not in hand and len(paths[k]) > 1]
        if handover and cand and (chance(draw, 2, 5) if turns else chance(draw, 1, 3)):
            k = pick(draw, cand)
            hand[k] = j
            gets.add(j)
            if chance(draw, 1, 2):
                path = paths[k][::-1]
            else:
                path = walk(paths[k][-1], 2)
        elif turns:
            path = walk(names[0], 2)[::-1]
        else:
            path = walk(pick(draw, names), 1 if chance(draw, 1, 10) else 2)
        J.append(j)
        paths[j] = path
    skip = {}
    for j in J:
        if len(paths[j]) > 1:
            if chance(draw, 1, 2) if j in hand else chance(draw, 1, 3):
                skip[j] = paths[j][-1]

    def has_delay(j, s):
        return skip.get(j) != s and not (j in hand and s == paths[j][-1])

    # occupied tracks
    on = {}
    for j in J:
        for s in paths[j]:
            on[j, s] = draw(I(1, tracks[s]))
    for k, j in hand.items():
        on[j, paths[j][0]] = on[k, paths[k][-1]]
    line = {}
    for j in J:
        for a, b in zip(paths[j], paths[j][1:]):
            line[j, a, b] = draw(I(1, 2)) if edges[frozenset((a, b))] == 4 else 1

    Jd, Jtrack, Josingle, Jswitch, Jround = [], [], [], [], []
    for a in shuffled(draw, names):
        for b in shuffled(draw, nb[a]):
            groups = {}
            for j in J:
                if (j, a, b) in line:
                    groups.setdefault(line[j, a, b], []).append(j)
            if groups:
                Jd.append([a, b, [shuffled(draw, g) for g in groups.values()]])
    for s in shuffled(draw, names):
        groups = {}
        for j in J:
            if (j, s) in on:
                groups.setdefault(on[j, s], []).append(j)
        gs = [shuffled(draw, g) for g in groups.values() if len(g) > 1]
        if gs:
            Jtrack.append([s, gs])
    for e, k in edges.items():
        if k != 1:
            continue
        a, b = sorted(e)
        keyed = {}
        for j in J:
            for jp in J:
                if (j, a, b) in line and (jp, b, a) in line:
                    if chance(draw, 1, 2):
                        keyed.setdefault((a, b), []).append([j, jp])
                    else:
                        keyed.setdefault((b, a), []).append([jp, j])
        for (x, y), ps in keyed.items():
            Josingle.append([x, y, shuffled(draw, ps)])
    dense = chance(draw, 1, 2)
    for s in shuffled(draw, names):
        here = [j for j in J if s in paths[j]]
        pairs = []
        for j, jp in combinations(here, 2):
            if not chance(draw, 2 if dense else 1, 3 if dense else 5):
                continue
            seen = set()
            for _ in range(draw(I(1, 3))):
                pl = []
                for t in (j, jp):
                    can = []
                    if paths[t][0] != s:
                        can.append("in")
                    if has_delay(t, s) and (paths[t][-1] != s or chance(draw, 1, 4)):
                        can.append("out")
                    if not can:
                        break
                    pl.append(pick(draw, can))
                if len(pl) == 2 and tuple(pl) not in seen:
                    seen.add(tuple(pl))
                    pair = [[j, pl[0]], [jp, pl[1]]]
                    pairs.append(pair[::-1] if chance(draw, 1, 2) else pair)
        if pairs:
            Jswitch.append([s, shuffled(draw, pairs)])
    rounds = {}
    for k, j in hand.items():
        rounds.setdefault(paths[k][-1], []).append([k, j])
    for s, ps in rounds.items():
        Jround.append([s, shuffled(draw, ps)])

    # times
    big = 4 if small else 10
    tau = {"pass": {}, "headway": {}, "stop": {}, "prep": {}, "res": pick(draw, [1, 1, 1, 2])}
    for j in J:
        for i, s in enumerate(paths[j]):
            if i:
                tau["pass"]["%s_%s_%s" % (j, paths[j][i - 1], s)] = dur(draw, 1, big, half)
                if skip.get(j) != s or chance(draw, 1, 2):
                    tau["stop"]["%s_%s" % (j, s)] = dur(draw, 0, 2, half)
    for a, b, groups in Jd:
        for g in groups:
            for j in g:
                for jp in g:
                    if j != jp:
                        tau["headway"]["%s_%s_%s_%s" % (j, jp, a, b)] = dur(draw, 1, 5, half)
    for k, j in hand.items():
        tau["prep"]["%s_%s" % (j, paths[j][0])] = dur(draw, 1, 6, half)
    # a train that ends without a delay variable needs no stop there but its time is asked for
    for j in J:
        if len(paths[j]) > 1:
            tau["stop"].setdefault("%s_%s" % (j, paths[j][-1]), 1)

    ic, sched = {}, {}
    spread = draw(I(0, 14))
    est = {}
    base = pick(draw, [0, 0, 0, -7, 100])
    for j in J:
        s0 = paths[j][0]
        src = [k for k in hand if hand[k] == j]
        if src and chance(draw, 3, 4):
            k = src[0]
            t = est[k, paths[k][-1]] + draw(I(-3, 5))
        else:
            t = base + draw(I(0, spread))
        if half and chance(draw, 1, 4):
            t += draw(I(1, half - 1)) / half
        ic["%s_%s" % (j, s0)] = t
        est[j, s0] = t
        if chance(draw, 1, 3):
            sched["%s_%s" % (j, s0)] = t + draw(I(-3, 4))
        for a, b in zip(paths[j], paths[j][1:]):
            t = t + tau["pass"]["%s_%s_%s" % (j, a, b)] + tau["stop"]["%s_%s" % (j, b)]
            if chance(draw, 1, 3):
                sched["%s_%s" % (j, b)] = t + draw(I(-3, 4))
                t = max(t, sched["%s_%s" % (j, b)])
            est[j, b] = t
    weights = {}
    for j in J:
        w = pick(draw, [0, 1, 1, 1.5, 1.75, 0.5, 2])
        for s in paths[j]:
            if has_delay(j, s) and chance(draw, 2, 3):
                weights["%s_%s" % (j, s)] = w if chance(draw, 2, 3) else pick(draw, [0, 0.25, 1, 3])
    case = {
        "J": shuffled(draw, J),
        "paths": {str(j): paths[j] for j in J},
        "skip": {str(j): s for j, s in skip.items()},
        "Jd": Jd, "Jtrack": Jtrack, "Josingle": Josingle, "Jswitch": Jswitch, "Jround": Jround,
        "tau": tau, "ic": ic, "sched": sched, "weights": weights,
        "d_max": draw(I(1, 5)) if small else draw(I(2, 14)),
    }
    if chance(draw, 1, 3):
        case["add"] = [s for s in names if chance(draw, 1, 2)]
    return case


def to_input(case):
    """(train_sets, timetable, d_max)"""
    ts = {
        "skip_station": {int(j): s for j, s in case["skip"].items()},
        "J": list(case["J"]),
        "Paths": {int(j): list(p) for j, p in case["paths"].items()},
        "Jd": {},
        "Josingle": {(a, b): [list(p) for p in ps] for a, b, ps in case["Josingle"]},
        "Jround": {s: [list(p) for p in ps] for s, ps in case["Jround"]},
        "Jtrack": {s: [list(g) for g in gs] for s, gs in case["Jtrack"]},
        "Jswitch": {s: [{j: p for j, p in pair} for pair in pairs] for s, pairs in case["Jswitch"]},
    }
    for a, b, gs in case["Jd"]:
        ts["Jd"].setdefault(a, {})[b] = [list(g) for g in gs]
    if "add" in case:
        ts["add_swithes_at_s"] = list(case["add"])
    tau = case["tau"]
    tt = {
        "tau": {k: (dict(v) if isinstance(v, dict) else v) for k, v in tau.items()},
        "initial_conditions": dict(case["ic"]),
        "penalty_weights": dict(case["weights"]),
    }
    if not case.get("no_schedule"):
        tt["schedule"] = dict(case["sched"])
    return ts, tt, case["d_max"]


# ---------------------------------------------------------------- the traffic rules


class Rules:
    """the rules of the problem as inequalities between delays

    An inequality (a, b, c, text) says delay[a] - delay[b] >= c; None stands for zero.
    `always` hold; of every disjunction one alternative holds.
    """

    def __init__(self, case):
        self.case = case
        self.J = list(case["J"])
        self.paths = {int(j): p for j, p in case["paths"].items()}
        self.skip = {int(j): s for j, s in case["skip"].items()}
        self.tau = case["tau"]
        self.d_max = case["d_max"]
        self.to, self.frm = {}, {}
        for s, ps in case["Jround"]:
            for j, jp in ps:
                self.to[j, s] = jp
                self.frm[jp, s] = j
        self.stock = {frozenset(p) for _, ps in case["Jround"] for p in ps}
        self.e = {}
        for j in self.J:
            t = None
            prev = None
            for s in self.paths[j]:
                k = "%s_%s" % (j, s)
                if k in case["ic"]:
                    t = case["ic"][k]
                else:
                    t = t + self.tau["pass"]["%s_%s_%s" % (j, prev, s)] + self.tau["stop"]["%s_%s" % (j, s)]
                if not case.get("no_schedule") and k in case["sched"]:
                    t = max(t, case["sched"][k])
                self.e[j, s] = t
                prev = s
        self.vars = [
            (j, s) for j in self.J for s in self.paths[j]
            if self.skip.get(j) != s and (j, s) not in self.to
        ]
        self.always, self.parent, self.lits = [], {}, []
        self._build()

    # -- order literals: ("kind", a, b, place) with a < b; value True means a goes first
    def lit(self, kind, a, b, place):
        """'a goes before b' as (key, sign)"""
        key, sign = ((kind, a, b, place), True) if a < b else ((kind, b, a, place), False)
        self.parent.setdefault(key, (key, True))
        return key, sign

    def find(self, lit):
        key, sign = lit
        while True:
            p, s = self.parent[key]
            if p == key:
                return key, sign
            sign = sign == s
            key = p

    def tie(self, l1, l2):
        (a, sa), (b, sb) = self.find(l1), self.find(l2)
        if a == b:
            if sa != sb:
                self.always.append((None, None, 1, "contradicting orders"))
            return
        self.parent[a] = (b, sa == sb)

    def prev(self, j, s):
        p = self.paths[j]
        i = p.index(s)
        return p[i - 1] if i else None

    def run(self, j, a, b):
        return self.tau["pass"]["%s_%s_%s" % (j, a, b)]

    def same_stock(self, a, b):
        return frozenset((a, b)) in self.stock

    def follows(self, a, b, sp, s):
        """both run sp -> s on one track"""
        for x, y, gs in self.case["Jd"]:
            if (x, y) == (sp, s) and any(a in g and b in g for g in gs):
                return True
        return False

    def arrival(self, j, s):
        """(delay that counts or None, time without it) of reaching s"""
        if (j, s) in self.frm:
            j = self.frm[j, s]
        p = self.prev(j, s)
        if p is None:
            return None, self.e[j, s]
        return (j, p), self.e[j, p] + self.run(j, p, s)

    def ge(self, x, y, gap, text):
        """(var, time) x is at least gap later than y"""
        return (x[0], y[0], y[1] + gap - x[1], text)

    def dep(self, j, s):
        return (j, s), self.e[j, s]

    def either(self, lit, first, second):
        """first: inequalities if the literal is true, second: if it is false"""
        self.lits.append((lit, first, second))

    def _build(self):
        c = self.case
        for j, s in self.vars:
            p = self.prev(j, s)
            if p is not None:
                self.always.append(self.ge(self.dep(j, s), self.dep(j, p),
                                           self.run(j, p, s) + self.tau["stop"]["%s_%s" % (j, s)],
                                           "running and stopping time of %s at %s" % (j, s)))
        for s, ps in c["Jround"]:
            for j, jp in ps:
                self.always.append(self.ge(self.dep(jp, s), self.arrival(j, s),
                                           self.tau["prep"]["%s_%s" % (jp, s)],
                                           "stock of %s handed over to %s at %s" % (j, jp, s)))
        for s, sp, gs in c["Jd"]:
            for g in gs:
                for a, b in combinations(g, 2):
                    h = lambda x, y: self.ge(self.dep(y, s), self.dep(x, s),
                                             self.tau["headway"]["%s_%s_%s_%s" % (x, y, s, sp)],
                                             "headway of %s behind %s from %s to %s" % (y, x, s, sp))
                    self.either(self.lit("leave", a, b, s), [h(a, b)], [h(b, a)])
        for s, sp, ps in c["Josingle"]:
            for a, b in ps:  # a: s -> sp, b: sp -> s
                if self.same_stock(a, b):
                    continue
                self.either(
                    self.lit("single", a, b, frozenset((s, sp))),
                    [self.ge(self.dep(b, sp), self.dep(a, s), self.run(a, s, sp),
                             "single track %s-%s: %s after %s" % (s, sp, b, a))],
                    [self.ge(self.dep(a, s), self.dep(b, sp), self.run(b, sp, s),
                             "single track %s-%s: %s after %s" % (s, sp, a, b))])
        for s, gs in c["Jtrack"]:
            extra = self.tau["res"] if s in c.get("add", ()) else 0
            for g in gs:
                for a, b in combinations(g, 2):
                    if self.same_stock(a, b):
                        continue
                    order = self.lit("leave", a, b, s)

                    def gone(x, y):  # x leaves the track before y comes
                        if self.skip.get(x) == s or (x, s) in self.to:
                            return []
                        return [self.ge(self.arrival(y, s), self.dep(x, s), extra,
                                        "track at %s: %s comes after %s has left" % (s, y, x))]

                    self.either(order, gone(a, b), gone(b, a))
                    for x, y in ((a, b), (b, a)):
                        if self.skip.get(x) != s and (x, s) in self.to:
                            self.tie(self.lit("leave", x, y, s), self.lit("leave", self.to[x, s], y, s))
                    pa, pb = self.prev(a, s), self.prev(b, s)
                    if pa is not None and pb is not None:
                        if pa == pb and self.follows(a, b, pa, s):
                            self.tie(order, self.lit("leave", a, b, pa))
                        elif self.enter_together(a, b, s):
                            self.tie(order, self.lit("enter", a, b, s))
        for s, pairs in c["Jswitch"]:
            for pair in pairs:
                (a, ka), (b, kb) = pair
                if self.same_stock(a, b):
                    continue
                xa = self.dep(a, s) if ka == "out" else self.came(a, s)
                xb = self.dep(b, s) if kb == "out" else self.came(b, s)
                if ka == kb == "out":
                    key = self.lit("leave", a, b, s)
                elif ka == kb == "in":
                    p = self.prev(a, s)
                    if p == self.prev(b, s) and self.follows(a, b, p, s):
                        key = self.lit("leave", a, b, p)
                    else:
                        key = self.lit("enter", a, b, s)
                else:
                    key = self.lit("cross-%s" % (ka if a < b else kb), a, b, s)
                r = self.tau["res"]
                self.either(key,
                            [self.ge(xb, xa, r, "switch at %s: %s (%s) after %s (%s)" % (s, b, kb, a, ka))],
                            [self.ge(xa, xb, r, "switch at %s: %s (%s) after %s (%s)" % (s, a, ka, b, kb))])
        classes = {}
        for lit, first, second in self.lits:
            root, sign = self.find(lit)
            alt = classes.setdefault(root, ([], []))
            alt[0].extend(first if sign else second)
            alt[1].extend(second if sign else first)
        self.classes = list(classes.items())

    def came(self, j, s):
        p = self.prev(j, s)
        return (j, p), self.e[j, p] + self.run(j, p, s)

    def enter_together(self, a, b, s):
        for x, pairs in self.case["Jswitch"]:
            if x == s:
                for pair in pairs:
                    if {j for j, _ in pair} == {a, b} and all(k == "in" for _, k in pair):
                        return True
        return False

    # -- evaluation
    def broken(self, d):
        """description of a broken rule, or None"""
        for v in self.vars:
            if not -1e-6 <= d[v] <= self.d_max + 1e-6:
                return "delay %s of train %s at %s outside 0..%s" % (d[v], v[0], v[1], self.d_max)

        def no(q):
            a, b, c, _ = q
            return (d[a] if a else 0) - (d[b] if b else 0) < c - 1e-6

        for q in self.always:
            if no(q):
                return q[3]
        for root, alts in self.classes:
            bad = [[q for q in alt if no(q)] for alt in alts]
            if bad[0] and bad[1]:
                return "neither [%s] nor [%s]" % (bad[0][0][3], bad[1][0][3])
        return None

    def earliest(self, edges, integer=True):
        """least delays with all these inequalities, None if there are none within the limit"""
        d = {v: 0 for v in self.vars}
        es = []
        for a, b, c, _ in edges:
            es.append((a, b, math.ceil(c - 1e-9) if integer else c))
        for _ in range(len(d) + 2):
            change = False
            for a, b, c in es:
                need = (d[b] if b else 0) + c
                if a is None:
                    if need > 1e-9:
                        return None
                elif d[a] < need - 1e-9:
                    d[a] = need
                    if need > self.d_max + 1e-9:
                        return None
                    change = True
            if not change:
                return d
        return None

    def cost(self, d):
        w = self.case["weights"]
        return sum(w.get("%s_%s" % v, 0) * d[v] for v in self.vars) / self.d_max

    def optimum(self, integer=True, budget=20000):
        """(least cost, delays) by branching on the disjunctions; (None, None) if there is no timetable"""
        best = [None, None]
        left = [budget]

        def unmet(d):
            def no(q):
                a, b, c, _ = q
                return (d[a] if a else 0) - (d[b] if b else 0) < c - 1e-6

            for i, (_, alts) in enumerate(self.classes):
                if all(any(no(q) for q in alt) for alt in alts):
                    return i
            return None

        def go(edges):
            left[0] -= 1
            if left[0] < 0:
                raise TimeoutError
            d = self.earliest(edges, integer)
            if d is None:
                return
            c = self.cost(d)
            if best[0] is not None and c >= best[0] - 1e-12:
                return
            i = unmet(d)
            if i is None:
                best[:] = [c, d]
                return
            for alt in self.classes[i][1]:
                go(edges + alt)

        go(list(self.always))
        return best

    def greedy(self, prio, integer=True):
        """a timetable where conflicts are settled by arrival time and the priorities of trains"""
        edges = list(self.always)
        for (kind, a, b, place), alts in self.classes:
            i = 0 if prio.get(a, 0) <= prio.get(b, 0) else 1
            edges += alts[i]
        return self.earliest(edges, integer)

    def repaired(self, prefs, integer=True, low=()):
        """a timetable found by settling conflicts one at a time in the preferred way"""
        edges = list(self.always) + list(low)
        for k in range(len(self.classes) + 1):
            d = self.earliest(edges, integer)
            if d is None:
                return None
            for i, (_, alts) in enumerate(self.classes):
                if self._unmet(d, alts):
                    a = prefs[(i + k) % len(prefs)] if prefs else 0
                    e2 = edges + alts[a]
                    if self.earliest(e2, integer) is None:
                        e2 = edges + alts[1 - a]
                    edges = e2
                    break
            else:
                return d
        return None

    def _unmet(self, d, alts):
        def no(q):
            a, b, c, _ = q
            return (d[a] if a else 0) - (d[b] if b else 0) < c - 1e-6

        return all(any(no(q) for q in alt) for alt in alts)


# ---------------------------------------------------------------- reading the program

TRANS = str.maketrans("-+[] ->/", "________")


def delay_name(j, s):
    return ("Delays_%s_%s" % (j, s)).translate(TRANS)


class Program:
    """the generated integer program, with delays told from everything else by name"""

    def __init__(self, prob, rules):
        self.prob = prob
        self.of = {delay_name(*v): v for v in rules.vars}
        self.rows, self.others = [], {}
        for name, c in prob.constraints.items():
            dl, ot = [], []
            for v, x in c.items():
                if v.name in self.of:
                    dl.append((self.of[v.name], float(x)))
                else:
                    ot.append((v.name, float(x)))
                    self.others[v.name] = v
            self.rows.append((name, dl, ot, c.sense, float(c.constant)))
        self.delay_vars = {self.of[v.name]: v for v in prob.variables() if v.name in self.of}
        for v in self.others.values():
            if v.cat != "Integer" or v.lowBound != 0 or v.upBound != 1:
                raise Violation("order variable", "variable %s is not binary" % v.name)

    def refused(self, d):
        """why the program does not admit these delays, None if it does"""
        for v, var in self.delay_vars.items():
            if var.lowBound is not None and d[v] < var.lowBound - 1e-6:
                return "bound of %s" % var.name
            if var.upBound is not None and d[v] > var.upBound + 1e-6:
                return "bound of %s" % var.name
        rows = []
        for name, dl, ot, sense, k in self.rows:
            val = k + sum(x * d[v] for v, x in dl)
            if not ot:
                if not _holds(val, sense):
                    return name
            else:
                rows.append((name, ot, sense, val))
        why = [None]
        if _sat(rows, {}, why):
            return None
        return "orders: " + str(why[0])


def _holds(val, sense):
    if sense == 0:
        return abs(val) < 1e-6
    return val * sense > -1e-6


def _sat(rows, fixed, why):
    """is there a 0/1 choice of the open variables"""
    fixed = dict(fixed)
    while True:
        open_rows, forced = [], None
        for name, ot, sense, k in rows:
            val, free = k, []
            for n, x in ot:
                if n in fixed:
                    val += x * fixed[n]
                else:
                    free.append((n, x))
            if not free:
                if not _holds(val, sense):
                    why[0] = name
                    return False
                continue
            lo = val + sum(min(0, x) for _, x in free)
            hi = val + sum(max(0, x) for _, x in free)
            if (sense >= 0 and hi < -1e-6) or (sense <= 0 and lo > 1e-6):
                why[0] = name
                return False
            if (sense == 1 and lo > -1e-6) or (sense == -1 and hi < 1e-6):
                continue
            open_rows.append((name, free, sense, val))
            if len(free) == 1:
                n, x = free[0]
                ok = [b for b in (0, 1) if _holds(val + x * b, sense)]
                if not ok:
                    why[0] = name
                    return False
                if len(ok) == 1:
                    forced = (n, ok[0])
                    break
        if forced is None:
            break
        fixed[forced[0]] = forced[1]
    if not open_rows:
        return True
    n = open_rows[0][1][0][0]
    return any(_sat(rows, dict(fixed, **{n: b}), why) for b in (0, 1))


def labels(case, rules):
    kinds = set()
    for (root, alts) in rules.classes:
        kinds.add(root[0].split("-")[0])
    texts = " ".join(q[3] for _, alts in rules.classes for alt in alts for q in alt)
    return {
        "following trains": "headway" in texts,
        "single track line": "single track" in texts,
        "station track": "track at" in texts,
        "switch": "switch at" in texts,
        "stock handed over": bool(case["Jround"]),
        "ends at the border": bool(case["skip"]),
        "four or more trains": len(case["J"]) >= 4,
    }
