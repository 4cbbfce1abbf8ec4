"""Solutions in the form they are stored for diagrams: generator and expected drawings."""
from hypothesis import strategies as st

from .dispatch import I, chance, pick

ROUTES = [
    ["GLC", "ZZ", "RCB", "CB", "KTC", "KO", "KO(STM)", "KZ"],
    ["KZ", "KO(STM)", "KO", "KL", "Mc", "Ty"],
    ["KZ", "KO(STM)", "KO", "Bry", "KL", "KtP", "Katowice Podlesie", "Mc", "Ty"],
    ["GLC", "ZZ", "RCB", "CB", "KTC", "KO", "KL", "Ty"],
    ["KO(STM)", "KO", "KL", "MJ", "Mi"],
    ["CM", "CB", "KTC", "KO", "KO(KS)"],
    ["KO(IC)", "KO(STM)", "KO", "CB", "GLC"],
    ["Gt", "KO", "Zabrze", "Gliwice"],
]


@st.composite
def train(draw):
    route = pick(draw, ROUTES)
    i = draw(I(0, len(route) - 1))
    j = draw(I(i, len(route) - 1))
    if chance(draw, 2, 3):
        i, j = min(i, 1), max(j, len(route) - 2)
    path = route[i:j + 1]
    if len(path) > 2 and chance(draw, 1, 4):
        path = path[:1] + path[2:]
    if chance(draw, 1, 2):
        path = path[::-1]
    t = draw(I(0, 1000))
    c = t - draw(I(0, min(t, 40)))
    out, ties = [], False
    last = None
    for k, s in enumerate(path):
        d = {}
        if k:
            r = draw(I(0, 15))
            t, c = t + r, c + r
            d["arrive"], d["conflicted_arrive"] = ["t", t], ["t", c]
            ties = ties or t == last
            last = t
        if k < len(path) - 1 or chance(draw, 1, 2):
            t += draw(I(0, 10))
            c = min(t, c + draw(I(0, 10)))
            delay = pick(draw, [0, 0, 0, 1, 3, 17])
            d["departure"], d["conflicted_departure"] = ["t", t], ["t", c]
            d["secondary delay"] = delay
            d["impact_to_objective"] = delay / 40
        out.append([s, d])
    if not ties and chance(draw, 1, 4):
        out = list(draw(st.permutations(out)))
    return out


@st.composite
def solution(draw, most=5):
    n = draw(I(1, most))
    numbers = draw(st.lists(st.one_of(I(1, 9), I(1, 99999)), min_size=n, max_size=n, unique=True))
    return [[no, draw(train())] for no in numbers]


def ordered(stations):
    """stations of a train in order of travel"""
    return sorted(stations, key=lambda x: (x[1]["arrive"][1] if "arrive" in x[1] else -1))


def clock(minutes):
    return "%02d:%02d" % (minutes // 60, minutes % 60)
