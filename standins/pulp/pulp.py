"""Stand-in for pulp.pulp: linear expressions, variables, constraints, problems.

Follows the documented behaviour of PuLP 2.5; solved by HiGHS.
"""
import math
import re
from collections import OrderedDict

from .constants import *  # noqa
from . import constants as const
from . import solving


def _number(x):
    return hasattr(x, "__float__") and not isinstance(x, (str, LpElement, LpAffineExpression))


class LpElement(object):
    illegal_chars = "-+[] ->/"
    expression = re.compile("[{}]".format(re.escape(illegal_chars)))
    trans = str.maketrans(illegal_chars, "________")

    def setName(self, name):
        self.__name = str(name).translate(self.trans) if name else None

    def getName(self):
        return self.__name

    name = property(fget=lambda self: self.getName(), fset=lambda self, v: self.setName(v))

    def __init__(self, name):
        self.name = name
        self.hash = id(self)
        self.modified = True

    def __hash__(self):
        return self.hash

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name

    def __neg__(self):
        return -LpAffineExpression(self)

    def __pos__(self):
        return self

    def __bool__(self):
        return True

    def __add__(self, other):
        return LpAffineExpression(self) + other

    def __radd__(self, other):
        return LpAffineExpression(self) + other

    def __sub__(self, other):
        return LpAffineExpression(self) - other

    def __rsub__(self, other):
        return other - LpAffineExpression(self)

    def __mul__(self, other):
        return LpAffineExpression(self) * other

    def __rmul__(self, other):
        return LpAffineExpression(self) * other

    def __truediv__(self, other):
        return LpAffineExpression(self) / other

    def __rtruediv__(self, other):
        raise TypeError("Expressions cannot be divided by a variable")

    def __le__(self, other):
        return LpAffineExpression(self) <= other

    def __ge__(self, other):
        return LpAffineExpression(self) >= other

    def __eq__(self, other):
        return LpAffineExpression(self) == other

    def __ne__(self, other):
        if isinstance(other, LpVariable):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            return 1
        return 1


class LpVariable(LpElement):
    def __init__(self, name, lowBound=None, upBound=None, cat=LpContinuous, e=None):
        LpElement.__init__(self, name)
        self.lowBound = lowBound
        self.upBound = upBound
        self.cat = cat
        self.varValue = None
        self.dj = None
        if cat == LpBinary:
            self.lowBound = 0
            self.upBound = 1
            self.cat = LpInteger

    @classmethod
    def matrix(cls, name, indices=None, lowBound=None, upBound=None, cat=LpContinuous, indexStart=[], indexs=None):
        indices = indexs if indices is None else indices
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index, rest = indices[0], indices[1:]
        if not rest:
            return [LpVariable(name % tuple(indexStart + [i]), lowBound, upBound, cat) for i in index]
        return [LpVariable.matrix(name, rest, lowBound, upBound, cat, indexStart + [i]) for i in index]

    @classmethod
    def dicts(cls, name, indices=None, lowBound=None, upBound=None, cat=LpContinuous, indexStart=[], indexs=None):
        indices = indexs if indices is None else indices
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index, rest = indices[0], indices[1:]
        d = {}
        for i in index:
            if not rest:
                d[i] = LpVariable(name % tuple(indexStart + [str(i)]), lowBound, upBound, cat)
            else:
                d[i] = LpVariable.dicts(name, rest, lowBound, upBound, cat, indexStart + [i])
        return d

    @classmethod
    def dict(cls, name, indices, lowBound=None, upBound=None, cat=LpContinuous):
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        import itertools

        out = {}
        for i in itertools.product(*indices):
            out[i if len(indices) > 1 else i[0]] = LpVariable(name % i, lowBound, upBound, cat)
        return out

    def getLb(self):
        return self.lowBound

    def getUb(self):
        return self.upBound

    def bounds(self, low, up):
        self.lowBound = low
        self.upBound = up

    def positive(self):
        self.bounds(0, None)

    def value(self):
        return self.varValue

    def roundedValue(self, eps=1e-5):
        if (
            self.cat == LpInteger
            and self.varValue is not None
            and abs(self.varValue - round(self.varValue)) <= eps
        ):
            return round(self.varValue)
        return self.varValue

    def valueOrDefault(self):
        if self.varValue is not None:
            return self.varValue
        if self.lowBound is not None:
            return self.lowBound
        return 0

    def setInitialValue(self, val, check=True):
        self.varValue = val
        return True

    def fixValue(self):
        if self.varValue is not None:
            self.bounds(self.varValue, self.varValue)

    def isBinary(self):
        return self.cat == LpInteger and self.lowBound == 0 and self.upBound == 1

    def isInteger(self):
        return self.cat == LpInteger

    def isFree(self):
        return self.lowBound is None and self.upBound is None

    def isConstant(self):
        return self.lowBound is not None and self.upBound == self.lowBound

    def isPositive(self):
        return self.lowBound == 0 and self.upBound is None


class LpAffineExpression(OrderedDict):
    trans = str.maketrans("-+[] ", "_____")

    def setName(self, name):
        self.__name = str(name).translate(self.trans) if name else None

    def getName(self):
        return self.__name

    name = property(fget=lambda self: self.getName(), fset=lambda self, v: self.setName(v))

    def __init__(self, e=None, constant=0, name=None):
        self.name = name
        if e is None:
            e = {}
        if isinstance(e, LpAffineExpression):
            self.constant = e.constant
            super(LpAffineExpression, self).__init__(list(e.items()))
        elif isinstance(e, dict):
            self.constant = constant
            super(LpAffineExpression, self).__init__(list(e.items()))
        elif isinstance(e, LpElement):
            self.constant = 0
            super(LpAffineExpression, self).__init__([(e, 1)])
        elif hasattr(e, "__iter__"):
            self.constant = constant
            super(LpAffineExpression, self).__init__(e)
        else:
            self.constant = e
            super(LpAffineExpression, self).__init__()

    def isAtomic(self):
        return len(self) == 1 and self.constant == 0 and list(self.values())[0] == 1

    def isNumericalConstant(self):
        return len(self) == 0

    def atom(self):
        return list(self.keys())[0]

    def __bool__(self):
        return (float(self.constant) != 0.0) or len(self) > 0

    def value(self):
        s = self.constant
        for v, x in self.items():
            if v.varValue is None:
                return None
            s += v.varValue * x
        return s

    def valueOrDefault(self):
        return self.constant + sum(v.valueOrDefault() * x for v, x in self.items())

    def addterm(self, key, value):
        y = self.get(key, 0)
        if y:
            y += value
            self[key] = y
        else:
            self[key] = value

    def emptyCopy(self):
        return LpAffineExpression()

    def copy(self):
        return LpAffineExpression(self)

    def sorted_keys(self):
        return sorted(self.keys(), key=lambda v: v.name)

    def __str__(self, constant=1):
        s = ""
        for v in self.sorted_keys():
            val = self[v]
            if val < 0:
                s += " - " if s else "-"
                val = -val
            elif s:
                s += " + "
            s += str(v) if val == 1 else str(val) + "*" + str(v)
        if constant:
            if s == "":
                s = str(self.constant)
            elif self.constant < 0:
                s += " - " + str(-self.constant)
            elif self.constant > 0:
                s += " + " + str(self.constant)
        elif s == "":
            s = "0"
        return s

    def __repr__(self):
        return " + ".join(str(self[v]) + "*" + str(v) for v in self.sorted_keys()) + " + " + str(self.constant)

    def addInPlace(self, other):
        if isinstance(other, int) and (other == 0):
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, 1)
        elif isinstance(other, LpAffineExpression):
            self.constant += other.constant
            for v, x in other.items():
                self.addterm(v, x)
        elif isinstance(other, dict):
            for e in other.values():
                self.addInPlace(e)
        elif isinstance(other, list) or hasattr(other, "__next__"):
            for e in other:
                self.addInPlace(e)
        else:
            self.constant += other
        return self

    def subInPlace(self, other):
        if isinstance(other, int) and (other == 0):
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, -1)
        elif isinstance(other, LpAffineExpression):
            self.constant -= other.constant
            for v, x in other.items():
                self.addterm(v, -x)
        elif isinstance(other, dict):
            for e in other.values():
                self.subInPlace(e)
        elif isinstance(other, list) or hasattr(other, "__next__"):
            for e in other:
                self.subInPlace(e)
        else:
            self.constant -= other
        return self

    def __neg__(self):
        e = self.emptyCopy()
        e.constant = -self.constant
        for v, x in self.items():
            e[v] = -x
        return e

    def __pos__(self):
        return self

    def __add__(self, other):
        return self.copy().addInPlace(other)

    def __radd__(self, other):
        return self.copy().addInPlace(other)

    def __iadd__(self, other):
        return self.addInPlace(other)

    def __sub__(self, other):
        return self.copy().subInPlace(other)

    def __rsub__(self, other):
        return (-self).addInPlace(other)

    def __isub__(self, other):
        return self.subInPlace(other)

    def __mul__(self, other):
        e = self.emptyCopy()
        if isinstance(other, LpAffineExpression):
            e.constant = self.constant * other.constant
            if len(other):
                if len(self):
                    raise TypeError("Non-constant expressions cannot be multiplied")
                c = self.constant
                if c != 0:
                    for v, x in other.items():
                        e[v] = c * x
            else:
                c = other.constant
                if c != 0:
                    for v, x in self.items():
                        e[v] = c * x
        elif isinstance(other, LpVariable):
            return self * LpAffineExpression(other)
        else:
            if other != 0:
                e.constant = self.constant * other
                for v, x in self.items():
                    e[v] = other * x
        return e

    def __rmul__(self, other):
        return self * other

    def __truediv__(self, other):
        if isinstance(other, (LpAffineExpression, LpVariable)):
            if len(other):
                raise TypeError("Expressions cannot be divided by a non-constant expression")
            other = other.constant
        e = self.emptyCopy()
        e.constant = self.constant / other
        for v, x in self.items():
            e[v] = x / other
        return e

    def __rtruediv__(self, other):
        if len(self):
            raise TypeError("Expressions cannot be divided by a non-constant expression")
        return LpAffineExpression(other / self.constant)

    def __le__(self, other):
        return LpConstraint(self - other, LpConstraintLE)

    def __ge__(self, other):
        return LpConstraint(self - other, LpConstraintGE)

    def __eq__(self, other):
        return LpConstraint(self - other, LpConstraintEQ)

    def __hash__(self):
        return id(self)

    # numpy scalars hand the operation over to the expression
    __array_ufunc__ = None


LpElement.__array_ufunc__ = None


class LpConstraint(LpAffineExpression):
    def __init__(self, e=None, sense=LpConstraintEQ, name=None, rhs=None):
        LpAffineExpression.__init__(self, e, name=name)
        if rhs is not None:
            self.constant -= rhs
        self.sense = sense
        self.pi = None
        self.slack = None
        self.modified = True

    def changeRHS(self, RHS):
        self.constant = -RHS

    def getLb(self):
        if self.sense in (LpConstraintGE, LpConstraintEQ):
            return -self.constant
        return None

    def getUb(self):
        if self.sense in (LpConstraintLE, LpConstraintEQ):
            return -self.constant
        return None

    def __str__(self):
        s = LpAffineExpression.__str__(self, 0)
        return s + " " + LpConstraintSenses[self.sense] + " " + str(-self.constant)

    def copy(self):
        return LpConstraint(self, self.sense)

    def emptyCopy(self):
        return LpConstraint(sense=self.sense)

    def valid(self, eps=0):
        val = self.value()
        if self.sense == LpConstraintEQ:
            return abs(val) <= eps
        return val * self.sense >= -1 * eps

    def __eq__(self, other):
        return LpConstraint(self - other, LpConstraintEQ)

    __hash__ = LpAffineExpression.__hash__


class LpProblem(object):
    def __init__(self, name="NoName", sense=LpMinimize):
        if " " in name:
            name = name.replace(" ", "_")
        self.objective = None
        self.constraints = OrderedDict()
        self.name = name
        self.sense = sense
        self.sos1 = {}
        self.sos2 = {}
        self.status = LpStatusNotSolved
        self.sol_status = LpSolutionNoSolutionFound
        self.noOverlap = 1
        self.solver = None
        self._variables = []
        self._variable_ids = {}
        self.dummyVar = None
        self.solutionTime = 0
        self.lastUnused = 0

    def __repr__(self):
        return "%s: %d variables, %d constraints" % (self.name, len(self.variables()), len(self.constraints))

    def copy(self):
        lp = LpProblem(self.name, self.sense)
        lp.objective = self.objective
        lp.constraints = self.constraints.copy()
        for v in self._variables:
            lp.addVariable(v)
        return lp

    deepcopy = copy

    def addVariable(self, variable):
        if variable.hash not in self._variable_ids:
            self._variables.append(variable)
            self._variable_ids[variable.hash] = variable

    def addVariables(self, variables):
        for v in variables:
            self.addVariable(v)

    def variables(self):
        if self.objective:
            self.addVariables(list(self.objective.keys()))
        for c in self.constraints.values():
            self.addVariables(list(c.keys()))
        self._variables.sort(key=lambda v: v.name)
        return self._variables

    def variablesDict(self):
        return {v.name: v for v in self.variables()}

    def unusedConstraintName(self):
        self.lastUnused += 1
        while 1:
            s = "_C%d" % self.lastUnused
            if s not in self.constraints:
                break
            self.lastUnused += 1
        return s

    def addConstraint(self, constraint, name=None):
        if not isinstance(constraint, LpConstraint):
            raise TypeError("Can only add LpConstraint objects")
        if name:
            constraint.name = name
        try:
            if constraint.name:
                name = constraint.name
            else:
                name = self.unusedConstraintName()
        except AttributeError:
            raise TypeError("Can only add LpConstraint objects")
        if name in self.constraints:
            if self.noOverlap:
                raise PulpError("overlapping constraint names: " + name)
            print("Warning: overlapping constraint names:", name)
        self.constraints[name] = constraint
        self.addVariables(list(constraint.keys()))

    def setObjective(self, obj):
        if isinstance(obj, LpVariable):
            obj = obj + 0.0
        try:
            obj = obj.constraint
            name = obj.name
        except AttributeError:
            name = None
        self.objective = obj
        self.objective.name = name
        self.resolveOK = False

    def __iadd__(self, other):
        if isinstance(other, tuple):
            other, name = other
        else:
            name = None
        if other is True:
            return self
        elif other is False:
            raise TypeError("A False object cannot be passed as a constraint")
        elif isinstance(other, LpConstraint):
            self.addConstraint(other, name)
        elif isinstance(other, LpAffineExpression):
            if self.objective is not None:
                print("Warning: Overwriting previously set objective.")
            self.objective = other
            if name is not None:
                self.objective.name = name
        elif isinstance(other, LpVariable) or isinstance(other, (int, float)):
            if self.objective is not None:
                print("Warning: Overwriting previously set objective.")
            self.objective = LpAffineExpression(other)
            self.objective.name = name
        else:
            raise TypeError("Can only add LpConstraintVar, LpConstraint, LpAffineExpression or True objects")
        return self

    def extend(self, other, use_objective=True):
        cs = other.constraints if isinstance(other, LpProblem) else other
        for name, c in (cs.items() if isinstance(cs, dict) else cs):
            self.addConstraint(c, name)

    def numVariables(self):
        return len(self.variables())

    def numConstraints(self):
        return len(self.constraints)

    def isMIP(self):
        return any(v.cat == LpInteger for v in self.variables())

    def valid(self, eps=0):
        return all(c.valid(eps) for c in self.constraints.values())

    def infeasibilityGap(self, mip=1):
        return 0

    def roundSolution(self, epsInt=1e-5, eps=1e-7):
        for v in self.variables():
            v.varValue = v.roundedValue(epsInt)

    def assignVarsVals(self, values):
        d = self.variablesDict()
        for k, v in values.items():
            if k != "__dummy":
                d[k].varValue = v

    def assignStatus(self, status, sol_status=None):
        self.status = status
        self.sol_status = status if sol_status is None else sol_status
        return True

    def solve(self, solver=None, **kwargs):
        self.solver = solver
        return solving.solve(self) if solver is None else solver.actualSolve(self, **kwargs)

    def writeLP(self, filename, *args, **kwargs):
        with open(filename, "w") as f:
            f.write(str(self))
        return self.variables()

    def __str__(self):
        s = self.name + ":\n" + ("MINIMIZE\n" if self.sense == 1 else "MAXIMIZE\n")
        s += repr(self.objective) + "\n"
        if self.constraints:
            s += "SUBJECT TO\n"
            for n, c in self.constraints.items():
                s += "%s: %s\n\n" % (n, c)
        return s + "VARIABLES\n" + "\n".join(v.name for v in self.variables())


def lpSum(vector):
    return LpAffineExpression().addInPlace(vector)


def lpDot(v1, v2):
    return lpSum([a * b for a, b in zip(v1, v2)])


def value(x):
    if _number(x):
        return x
    return x.value()


def valueOrDefault(x):
    if _number(x):
        return x
    return x.valueOrDefault()
