"""What the programs of the main directory are asked to do: files, delays, settings."""
from hypothesis import strategies as st

from . import worlds as W
from .worlds import I, chance, pick

STATIONS = {0: "important_stations", 1: "important_stations_Gt"}
# case: (station list, schedule)
REAL = {
    0: ("important_stations", "trains_schedules"),
    1: ("important_stations", "trains_schedules"),
    2: ("important_stations", "trains_schedules"),
    3: ("important_stations", "trains_schedules"),
    4: ("important_stations_Gt", "trains_schedules_Gt"),
    5: ("important_stations_Gt", "trains_schedules_Gt"),
    6: ("important_stations", "trains_schedules_1track"),
    7: ("important_stations_Gt", "trains_schedules_1track_Gt"),
    8: ("important_stations_Gt", "trains_schedules_1track_Gt"),
    9: ("important_stations_Gt", "trains_schedules_1track_Gt"),
}
MANY = {94766: 30, 26013: 12, 5312: 18, 40518: 5, 34319: 30, 14006: 23, 40150: 3, 41004: 21, 45101: 35, 4500: 10,
        49317: 25, 64359: 7, 44862: 5, 73000: 16}
REAL_DELAYS = {
    0: {}, 4: {},
    1: {14006: 12},
    2: {94766: 15, 40518: 12, 41004: 13, 44862: 6, 4120: 21},
    3: MANY, 5: MANY, 6: MANY, 7: MANY,
    8: {94766: 28, 26013: 10, 42009: 12, 5312: 7, 34319: 30, 14006: 13, 94611: 3, 40150: 10, 41004: 28, 45101: 30,
        94113: 11, 40673: 5, 54101: 7},
    9: {94766: 30, 26013: 11, 42009: 15, 5312: 19, 40518: 5, 34319: 28, 14006: 21, 40150: 4, 41004: 21, 45101: 34,
        4500: 11, 49317: 25, 64359: 7, 44862: 5, 73000: 5},
}
GENERIC = {
    1: ("KO_GLC/important_stations_KO_GLC", "KO_GLC/trains_schedules_KO_GLC"),
    2: ("KO_GLC/important_stations_KO_GLC_R", "KO_GLC/trains_schedules_KO_RCB_ZZ_GLC"),
    3: ("KO_GLC/important_stations_KO_GLC_R", "KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2"),
}
DOUBLE = {
    0: {},
    1: {4602: 2},
    2: {6401: 3, 4604: 13},
    3: {1: 2, 3: 2, 5: 7},
    4: {2: 2, 4: 2, 6405: 3, 6407: 3},
    5: {1: 5, 2: 3, 3: 7, 4: 2, 5: 1, 6401: 2},
    6: {3: 7, 4: 2, 5: 1, 23: 6, 1: 6, 6407: 2, 101: 4, 4602: 7},
    7: {1: 5, 11: 3, 21: 3, 25: 2, 2: 4, 4: 6, 6: 6, 8: 3, 10: 3, 22: 6, 24: 1},
    8: {1: 3, 2: 5, 3: 7, 4: 25, 5: 8, 6: 12, 7: 17, 23: 4, 25: 3, 24: 8, 10: 4, 6401: 3, 6403: 7, 101: 8},
    9: {2: 3, 4602: 1, 4: 10, 102: 2, 6: 15, 8: 7, 4604: 4, 10: 1, 12: 7, 1: 10, 101: 8, 3: 2, 6401: 6, 5: 15, 7: 1,
        103: 30, 9: 7, 6403: 8},
}
SINGLE = {
    0: {},
    1: {2: 18},
    2: {2: 36, 4602: 20},
    3: {101: 18, 1: 29, 3: 25},
    4: {101: 18, 1: 29, 3: 25, 5: 15, 2: 18},
    5: {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12},
    6: {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12, 103: 15, 10: 50, 4606: 30},
    7: {2: 50, 4602: 32, 4: 10, 102: 5, 1: 12, 101: 10},
    8: {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 3: 20},
    9: {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 10: 25},
    10: {1: 29, 2: 36, 4602: 20, 9: 12, 4606: 30, 102: 45, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60,
         4604: 10, 10: 25},
    11: {2: 92, 4602: 70, 4: 72, 102: 46, 101: 45, 6401: 33, 6403: 20, 5: 25, 103: 28, 3: 59, 4604: 12, 10: 25},
}
D_MAX = 40


def generic_delays(case, trains):
    """{instance: {train: minutes}}"""
    if case == 3:
        return SINGLE
    return dict(DOUBLE, **{}) | {10: {j: j % 3 for j in trains}, 11: {j: j % 10 for j in trains}}


def generic_numbers(case):
    d = SINGLE if case == 3 else DOUBLE
    return sorted({j for x in d.values() for j in x})


@st.composite
def renumbered(draw, base, numbers):
    """some trains of the world get numbers from this list"""
    w = draw(base)
    taken = {t["no"] for t in w["trains"]}
    pool = list(draw(st.permutations(numbers)))
    new = []
    for t in w["trains"]:
        n = t["no"]
        paired = n * 10 + 9 in taken or (n % 10 == 9 and n // 10 in taken)
        if pool and not paired and chance(draw, 3, 4):
            x = pool.pop()
            if x not in taken and not (x * 10 + 9 in taken or (x % 10 == 9 and x // 10 in taken)):
                taken.discard(n)
                taken.add(x)
                n = x
        new.append(dict(t, no=n))
    return dict(w, trains=new)


@st.composite
def numbered(draw, base, numbers):
    """exactly one train with each of these numbers"""
    w = draw(base)
    ts = w["trains"]
    order = draw(st.permutations(numbers))
    return dict(w, trains=[dict(ts[i % len(ts)], no=n) for i, n in enumerate(order)])


def files(names, w):
    """the data files of a case, with this schedule on this network"""
    stations, schedule = names
    rows = [[(str(v) if i == 5 and v is not None else v) for i, v in enumerate(r)] for r in w["rows"]]
    return [["data/network_paths.ods", "network", rows], ["data/%s.npz" % stations, "stations", w["stations"]],
            ["data/%s.csv" % schedule, "schedule", w["trains"]]]


def flat_switches(w):
    """the same world with switches written as text, as in most cells of the shipped table"""
    rows = []
    for r in w["rows"]:
        r = list(r)
        if isinstance(r[5], float):
            r[5] = ",".join(repr(r[5]).split("."))
        elif r[5] is not None:
            r[5] = str(r[5])
        rows.append(r)
    return dict(w, rows=rows)


# the problem of the Wisla program: six trains between stations 1, 3, 5 and 10, single tracks throughout
WISLA_NAMES = {1: "Ks1", 3: "Ks3", 11: "Ic1", 2: "Ks2", 4: "Ks4", 12: "Ic2"}


def wisla():
    up, down = [1, 3, 11], [2, 4, 12]
    way = [1, 3, 5, 10]
    runs = {"Ks": {(1, 3): 4, (3, 5): 6, (5, 10): 6}, "Ic": {(1, 3): 4, (3, 5): 4, (5, 10): 5}}
    legs = list(zip(way, way[1:]))
    tau = {"pass": {}, "headway": {}, "stop": {}, "prep": {"12_10": 20}, "res": 1}
    for js, turn in ((up, False), (down, True)):
        for j in js:
            for a, b in legs:
                x, y = (b, a) if turn else (a, b)
                tau["pass"]["%d_%d_%d" % (j, x, y)] = runs[WISLA_NAMES[j][:2]][a, b]
                for k in js:
                    if k != j:
                        tau["headway"]["%d_%d_%d_%d" % (j, k, x, y)] = 2
            for s in way:
                tau["stop"]["%d_%d" % (j, s)] = 1
    leave = {1: 0, 3: 60, 11: 30, 2: 40, 4: 100, 12: 95}
    ic = {"%d_%d" % (j, 1 if j in up else 10): t for j, t in leave.items()}
    return {
        "J": [1, 3, 11, 2, 4, 12],
        "paths": {str(j): way if j in up else way[::-1] for j in up + down},
        "skip": {str(j): 10 if j in up else 1 for j in up + down},
        "Jd": [[a, b, [up]] for a, b in legs] + [[b, a, [down]] for a, b in legs],
        "Josingle": [[a, b, [[j, k] for j in up for k in down]] for a, b in legs],
        "Jtrack": [], "Jswitch": [],
        "Jround": [[10, [[11, 12]]]],
        "tau": tau, "ic": ic, "sched": dict(ic, **{"11_1": 10}),
        "weights": {"1_5": 0.9, "3_5": 0.9, "11_5": 0.9, "2_3": 1, "2_5": 1, "12_3": 1.5},
        "d_max": 10,
    }
