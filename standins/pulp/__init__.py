"""Small pure-Python stand-in for PuLP (see /verif/DESIGN.md)."""
from .constants import *  # noqa
from .pulp import *  # noqa
from .pulp import LpAffineExpression, LpConstraint, LpElement, LpProblem, LpVariable, lpDot, lpSum, value
from .apis import *  # noqa
from .apis import getSolver, listSolvers
from . import apis, constants, pulp

__version__ = "2.5.1"
VERSION = "2.5.1"
