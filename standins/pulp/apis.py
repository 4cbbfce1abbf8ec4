"""Solver classes: names only, every problem is solved by HiGHS."""
from . import solving

CALLS = []  # (solver, settings) of every problem solved with a chosen solver


class LpSolver(object):
    name = "LpSolver"

    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def available(self):
        return True

    def actualSolve(self, lp, **kw):
        CALLS.append((self.name, dict(self.kwargs)))
        return solving.solve(lp)

    solve = actualSolve


def _make(n):
    return type(n, (LpSolver,), {"name": n})


_NAMES = ["PULP_CBC_CMD", "COIN_CMD", "CPLEX_CMD", "CPLEX_PY", "GUROBI", "GUROBI_CMD", "GLPK_CMD", "HiGHS_CMD", "SCIP_CMD"]
for _n in _NAMES:
    globals()[_n] = _make(_n)


class PulpSolverError(Exception):
    pass


def getSolver(solver, *args, **kwargs):
    if solver not in _NAMES:
        raise PulpSolverError("The solver %s does not exist in PuLP" % solver)
    return globals()[solver](*args, **kwargs)


def listSolvers(onlyAvailable=False):
    return list(_NAMES)
