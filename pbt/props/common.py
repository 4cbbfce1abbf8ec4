"""shared by the data preparation checks"""
from hypothesis import strategies as st

from ..client import Outcome
from ..engine import Property, Violation
from .. import worlds as W
from ..ref import Ref

ABSENT = "~absent~"  # a second version of a function that is not there


def run_world(ctx, world, calls):
    """outcomes of the calls; building the tables must succeed"""
    r = ctx.call("world", world=world, calls=calls)
    b = Outcome(r["build"])
    if not b.ok:
        raise Violation("valid data rejected", "building the timetables of a valid schedule %r" % b)
    return [Outcome(c) for c in r["calls"]]


def must(out, what):
    if not out.ok:
        raise Violation("crash", "%s %r" % (what, out))
    return out.value


def fail(kind, text):
    raise Violation(kind, text)


def expect(cond, kind, text):
    if not cond:
        raise Violation(kind, text() if callable(text) else text)


def part_of(w):
    """some stations of the world, listed in another order"""
    names = list(w["stations"])
    got = [s for i, s in enumerate(names) if w["only"] >> i & 1]
    return got if w["only"] % 3 else got[::-1]


class WorldProperty(Property):
    parts = False  # also ask for some of the stations only
    forks = False  # also parallel tracks with common blocks
    min_trains, max_trains, pairs, crowd = 2, 5, True, False

    def prepare(self, ctx):
        W.prepare_real(ctx)

    def strategy(self, ctx):
        base = W.mixed(ctx, min_trains=self.min_trains, max_trains=self.max_trains, pairs=self.pairs,
                       crowd=self.crowd)
        if self.forks:
            base = st.one_of(base, base, W.forked())
        if not self.parts:
            return base
        return st.tuples(base, st.integers(0, 2 ** 20 - 1)).map(lambda x: dict(x[0], only=x[1]))

    assumptions = [
        "each train meets a station once, on one block, and no block twice (the shipped format)",
        "schedule tables are read the way the project's own loader reads them",
    ]


def table_equal(a, b):
    return a == b or (a != a and b != b)
