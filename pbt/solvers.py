"""The solver package of the project, imported into this process.

The libraries it needs that are not installed are replaced by the stand-ins
in standins/ (see DESIGN.md).
"""
import contextlib
import io
import os
import sys

from .client import REPO, VERIF, HarnessError
from .engine import Violation

_loaded = {}


def load():
    """(railway_solvers package, helpers module)"""
    if not _loaded:
        sys.dont_write_bytecode = True
        for p in (REPO, os.path.join(VERIF, "standins_cpython"), os.path.join(VERIF, "standins")):
            if p not in sys.path:
                sys.path.insert(0, p)
        try:
            import dimod, dwave.system, neal, pulp, pyqubo  # noqa: stand-ins
        except Exception as e:
            raise HarnessError("stand-ins cannot be imported: %r" % e)
        import railway_solvers.railway_solvers as rs
        import helpers

        for m in (rs, helpers):
            if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO)):
                raise HarnessError("%s is not the project's" % m.__file__)
        _loaded["rs"], _loaded["helpers"] = rs, helpers
    return _loaded["rs"], _loaded["helpers"]


def guarded(what, f, *a, **k):
    """runs code under test on valid input, quietly; raising is a violation"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        raise Violation("crash", "%s raises %s: %s" % (what, type(e).__name__, str(e)[:300]))
