"""Integer programs of the kind the project generates, and exact readings of their conversions."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from . import dispatch as D
from .client import HarnessError
from .dispatch import I, chance, pick
from .engine import Violation
from .solvers import guarded, load

FAMILIES = ["minimal_span", "single_line", "minimal_stay", "track_occupation", "switch", "circulation"]


@st.composite
def free_programs(draw, low_bounds=False, tiny=False):
    """a program written down directly"""
    vs = []
    for i in range(draw(I(1, 2 if tiny else 4))):
        lb = draw(I(-3, 3)) if low_bounds and chance(draw, 1, 4) else 0
        vs.append(["Delays_%d_%s" % (i, pick(draw, ["A", "B", "KO(STM)"])), lb, lb + draw(I(1, 3 if tiny else 15))])
    for i in range(draw(I(0, 2 if tiny else 5))):
        vs.append([pick(draw, ["y_%d_2_one_station_A", "z_%d_3_A_B", "z_in_%d_B"]) % i, 0, 1])
    rows, names = [], set()
    for i in range(draw(I(1, 3 if tiny else 6))):
        k = draw(I(1, min(4, len(vs))))
        idx = draw(st.permutations(range(len(vs))))[:k]
        binary = all(vs[v][1:] == [0, 1] for v in idx)
        terms = []
        for v in idx:
            big = vs[v][1:] == [0, 1] and not tiny
            c = draw(I(1, 30 if big and chance(draw, 1, 2) else 3)) * pick(draw, [1, -1])
            terms.append([v, c])
        lo = sum(c * (vs[v][1] if c > 0 else vs[v][2]) for v, c in terms)
        hi = sum(c * (vs[v][2] if c > 0 else vs[v][1]) for v, c in terms)
        sense = pick(draw, [-1, 1, 1]) if not (binary and chance(draw, 1, 2)) else 0
        # satisfiable on its own: some value in lo..hi meets it
        t = draw(I(lo, hi)) if sense == 0 or chance(draw, 4, 5) else (lo if sense < 0 else hi)
        if sense == 0:
            x = [draw(I(vs[v][1], vs[v][2])) for v, _ in terms]
            t = sum(c * a for (_, c), a in zip(terms, x))
        name = "%s_%d_%s" % (pick(draw, FAMILIES), i, pick(draw, ["A", "B_p", "KO(STM)"]))
        rows.append([name, terms, sense, -t])
    obj = [[v, pick(draw, [1, 2, 0.5, 1.5, 0.25])] for v in range(len(vs)) if chance(draw, 2, 3)]
    return {"kind": "free", "vars": vs, "rows": rows, "obj": obj, "const": pick(draw, [0, 0, 0, 2, 0.5]) if obj else 0}


def tenths(case):
    """the same program with all constraints divided by ten"""
    return dict(case, rows=[[n, [[v, c / 10] for v, c in terms], sense, k / 10] for n, terms, sense, k in case["rows"]])


def programs(low_bounds=False, fractions=False):
    more = [free_programs(low_bounds=low_bounds).map(tenths),
            D.problems(min_trains=2, max_trains=4).map(lambda p: {"kind": "dispatch", "p": p})] if fractions else []
    return st.one_of(
        *more,
        free_programs(low_bounds=low_bounds),
        free_programs(low_bounds=low_bounds, tiny=True),
        D.problems(min_trains=2, max_trains=4, half=False).map(lambda p: {"kind": "dispatch", "p": p}),
        D.problems(min_trains=1, max_trains=3, max_stations=3, half=False, small=True).map(
            lambda p: {"kind": "dispatch", "p": p}),
    )


def build(case):
    """the integer program of a case"""
    rs, _ = load()
    if case["kind"] == "dispatch":
        ts, tt, d_max = D.to_input(case["p"])
        return guarded("building the program of a valid problem", rs.create_linear_problem, ts, tt, d_max, "Integer")
    import pulp

    prob = pulp.LpProblem("P", pulp.LpMinimize)
    vs = [pulp.LpVariable(n, a, b, cat="Integer") for n, a, b in case["vars"]]
    for name, terms, sense, k in case["rows"]:
        prob += pulp.LpConstraint(pulp.lpSum([c * vs[v] for v, c in terms]) + k, sense, name)
    prob += pulp.lpSum([c * vs[v] for v, c in case["obj"]]) + case["const"]
    return prob


def describe(prob):
    """what the program says, in plain numbers"""
    vs = [(v.name, int(v.lowBound), int(v.upBound)) for v in prob.variables()]
    rows = []
    for name, c in prob.constraints.items():
        rows.append((name, [(v.name, Fraction(float(x))) for v, x in c.items()], c.sense, Fraction(float(c.constant))))
    obj = [(v.name, Fraction(float(x))) for v, x in prob.objective.items()] if prob.objective else []
    const = Fraction(float(prob.objective.constant)) if prob.objective else Fraction(0)
    return Plain(vs, rows, obj, const)


class Plain:
    def __init__(self, vs, rows, obj, const):
        self.vars, self.rows, self.obj, self.const = vs, rows, obj, const

    def value(self, row, x):
        return row[3] + sum(c * x[n] for n, c in row[1])

    def excess(self, row, x):
        """by how much the constraint is broken"""
        v, sense = self.value(row, x), row[2]
        if sense == 0:
            return abs(v)
        return max(Fraction(0), -v * sense)

    def objective(self, x):
        return self.const + sum(c * x[n] for n, c in self.obj)

    def feasible(self, x):
        return all(self.excess(r, x) == 0 for r in self.rows)

    def satisfiable_alone(self):
        """every constraint can be met by some values in the bounds"""
        b = {n: (lo, hi) for n, lo, hi in self.vars}
        for name, terms, sense, k in self.rows:
            lo = k + sum(c * b[n][0 if c > 0 else 1] for n, c in terms)
            hi = k + sum(c * b[n][1 if c > 0 else 0] for n, c in terms)
            if (sense >= 0 and hi < 0) or (sense <= 0 and lo > 0):
                return False
        return True

    def whole(self):
        return all(k.denominator == 1 and all(c.denominator == 1 for _, c in t) for _, t, _, k in self.rows)

    def solution(self):
        """a feasible solution, or None"""
        from pulp.solving import highs

        idx = {n: i for i, (n, _, _) in enumerate(self.vars)}
        out = highs({
            "n": len(self.vars), "lb": [float(v[1]) for v in self.vars], "ub": [float(v[2]) for v in self.vars],
            "int": [1] * len(self.vars),
            "rows": [[[[idx[n], float(c)] for n, c in t], s, float(k)] for _, t, s, k in self.rows],
            "obj": [[idx[n], float(c)] for n, c in self.obj], "sense": 1,
        })
        if out["x"] is None:
            return None
        x = {v[0]: int(round(a)) for v, a in zip(self.vars, out["x"])}
        return x if self.feasible(x) else None


def assignments():
    """recipes of values for the variables"""
    return st.lists(st.lists(I(0, 60), min_size=1, max_size=9), min_size=1, max_size=4)


def values(plain, recipes, solution=True):
    """assignments within the bounds: corners, random ones, a solution and its neighbours"""
    out = [{n: lo for n, lo, hi in plain.vars}, {n: hi for n, lo, hi in plain.vars}]
    for i, r in enumerate(recipes):
        x = {}
        for k, (n, lo, hi) in enumerate(plain.vars):
            a = r[k % len(r)]
            x[n] = (lo if a % 2 else hi) if i % 3 == 2 else lo + a % (hi - lo + 1)
        out.append(x)
    if solution:
        x = plain.solution()
        if x:
            out.append(x)
            for r in recipes:
                k = r[0] % max(1, len(plain.vars))
                n, lo, hi = plain.vars[k]
                y = dict(x)
                y[n] = x[n] + 1 if x[n] < hi else x[n] - 1
                out.append(y)
    seen, res = set(), []
    for x in out:
        k = tuple(x[v[0]] for v in plain.vars)
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


class Bits:
    """the unconstrained model as seen from outside"""

    def __init__(self, bqm, interpreter, plain):
        self.bqm = bqm
        self.labels = list(bqm.variables)
        self.pos = {b: i for i, b in enumerate(self.labels)}
        n = len(self.labels)
        self.lin = np.array([float(bqm.linear[b]) for b in self.labels])
        self.Q = np.zeros((n, n))
        for (u, v), c in bqm.quadratic.items():
            self.Q[self.pos[u], self.pos[v]] += c / 2
            self.Q[self.pos[v], self.pos[u]] += c / 2
        self.offset = float(bqm.offset)
        self.interpreter = interpreter
        self.plain = plain
        rows = np.vstack([np.zeros((1, n), dtype=int), np.eye(n, dtype=int)])
        dec = [d for d, _ in self.decode(rows)]
        self.base = dec[0]
        self.of = {v[0]: [] for v in plain.vars}
        self.slack = []
        for i in range(n):
            ch = [v for v in self.of if dec[i + 1][v] != self.base[v]]
            if len(ch) > 1:
                raise Violation("decoding", "bit %s changes %s at once" % (self.labels[i], ch))
            if ch:
                self.of[ch[0]].append((i, dec[i + 1][ch[0]] - self.base[ch[0]]))
            else:
                self.slack.append(i)
        self.codes = {}
        for v, bits in self.of.items():
            c = {}
            for m in range(1 << len(bits)):
                x = self.base[v] + sum(w for k, (_, w) in enumerate(bits) if m >> k & 1)
                c.setdefault(x, []).append([b for k, (b, _) in enumerate(bits) if m >> k & 1])
            self.codes[v] = c
        self._components()

    def decode(self, rows):
        """[(values, energy)], in the order of the rows"""
        import dimod

        e = list(range(len(rows)))
        ss = dimod.SampleSet.from_samples(([[int(v) for v in r] for r in rows], self.labels), "BINARY", e)
        out = guarded("interpreting samples", self.interpreter, ss)
        res = {}
        for d in out.data():
            res[int(d.energy)] = dict(d.sample)
        if sorted(res) != e:
            raise Violation("decoding", "%d samples in, %d out" % (len(e), len(out)))
        want = {v[0] for v in self.plain.vars}
        for x in res.values():
            if set(x) != want:
                raise Violation("decoding", "variables %s instead of %s" % (sorted(x)[:6], sorted(want)[:6]))
        return [(res[i], i) for i in e]

    def _components(self):
        left = set(self.slack)
        self.comps = []
        adj = {i: [j for j in self.slack if self.Q[i, j] != 0 and i != j] for i in self.slack}
        while left:
            i = min(left)
            comp, todo = [], [i]
            left.discard(i)
            while todo:
                k = todo.pop()
                comp.append(k)
                for j in adj[k]:
                    if j in left:
                        left.discard(j)
                        todo.append(j)
            comp.sort()
            if len(comp) > 14:
                raise HarnessError("%d slack bits hang together" % len(comp))
            T = ((np.arange(1 << len(comp))[:, None] >> np.arange(len(comp))) & 1).astype(float)
            sub = self.Q[np.ix_(comp, comp)]
            self.comps.append((comp, T, np.einsum("ri,ij,rj->r", T, sub, T)))

    def energy(self, b):
        return self.offset + self.lin @ b + b @ self.Q @ b

    def least(self, x, choice=0):
        """(least energy, bits) among the bit assignments that stand for x"""
        b = np.zeros(len(self.labels))
        for v, val in x.items():
            codes = self.codes[v].get(val)
            if not codes:
                raise Violation("encoding", "no bits stand for %s = %s" % (v, val))
            for i in codes[choice % len(codes)]:
                b[i] = 1
        for comp, T, q in self.comps:
            field = self.lin[comp] + 2 * (self.Q[comp] @ b)
            k = int(np.argmin(T @ field + q))
            b[comp] = T[k]
        return self.energy(b), b
