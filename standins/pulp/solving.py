"""Solves a problem with HiGHS: in this process, or in python3-vt when there is no scipy."""
import json
import math
import subprocess
import sys

SMALL = 80


def data(prob):
    vs = prob.variables()
    idx = {id(v): i for i, v in enumerate(vs)}
    rows = []
    for c in prob.constraints.values():
        rows.append([[[idx[id(v)], float(x)] for v, x in c.items()], int(c.sense), float(c.constant)])
    obj = prob.objective
    return {
        "n": len(vs),
        "lb": [None if v.lowBound is None else float(v.lowBound) for v in vs],
        "ub": [None if v.upBound is None else float(v.upBound) for v in vs],
        "int": [1 if v.cat == "Integer" else 0 for v in vs],
        "rows": rows,
        "obj": [[idx[id(v)], float(x)] for v, x in obj.items()] if obj else [],
        "sense": prob.sense,
    }


def highs(d):
    import numpy as np
    from scipy.optimize import Bounds, LinearConstraint, milp
    from scipy.sparse import coo_matrix

    n = d["n"]
    c = np.zeros(max(n, 1))
    for i, x in d["obj"]:
        c[i] += x * d["sense"]
    if n == 0:
        for _, sense, k in d["rows"]:
            if (sense == 0 and abs(k) > 1e-9) or k * sense < -1e-9:
                return {"status": -1, "x": None}
        return {"status": 1, "x": []}
    I, J, V, lo, hi = [], [], [], [], []
    for r, (terms, sense, k) in enumerate(d["rows"]):
        for i, x in terms:
            I.append(r)
            J.append(i)
            V.append(x)
        lo.append(-k if sense >= 0 else -np.inf)
        hi.append(-k if sense <= 0 else np.inf)
    cons = []
    if d["rows"]:
        A = coo_matrix((V, (I, J)), shape=(len(d["rows"]), n)).tocsr()
        cons = [LinearConstraint(A, np.array(lo), np.array(hi))]
    lb = np.array([-np.inf if x is None else x for x in d["lb"]])
    ub = np.array([np.inf if x is None else x for x in d["ub"]])
    def once(presolve):
        r = milp(c, constraints=cons, integrality=np.array(d["int"]), bounds=Bounds(lb, ub),
                 options={"mip_rel_gap": 0.0, "time_limit": d.get("limit", 600), "presolve": presolve})
        if r.status == 0:
            return {"status": 1, "x": [float(v) for v in r.x]}
        if r.status == 2:
            return {"status": -1, "x": None}
        if r.status == 3:
            return {"status": -2, "x": None}
        return {"status": 0, "x": None if r.x is None else [float(v) for v in r.x]}

    # the presolve of HiGHS has been seen to lose the optimum of a small program,
    # so small ones are solved twice and the better answer is taken
    out = once(True)
    if n <= SMALL:
        other = once(False)
        if other["status"] == 1:
            worth = lambda o: float(np.dot(c, o["x"]))
            if out["status"] != 1 or worth(other) < worth(out) - 1e-4:
                out = other
    return out


_server = []


def elsewhere(d):
    """the answer of a solving process, which is started once and ends with this one"""
    if not _server or _server[0].poll() is not None:
        _server[:] = [subprocess.Popen(["python3-vt", __file__], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, universal_newlines=True, bufsize=1)]
    p = _server[0]
    p.stdin.write(json.dumps(d) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the solving process ended")
    return json.loads(line)


def solve(prob):
    d = data(prob)
    out = highs(d) if sys.implementation.name == "cpython" else elsewhere(d)
    if out["x"] is not None:
        for v, x in zip(prob.variables(), out["x"]):
            if v.cat == "Integer" and abs(x - round(x)) < 1e-5:
                x = float(round(x))
            v.varValue = x
    prob.assignStatus(out["status"])
    return prob.status


if __name__ == "__main__":
    for request in sys.stdin:
        sys.stdout.write(json.dumps(highs(json.loads(request))) + "\n")
        sys.stdout.flush()
