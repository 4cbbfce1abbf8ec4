"""Operations the driver can ask for.  They only use what the repository exports."""
import io
import os
import random

import numpy as np
import pandas as pd

from __main__ import REPO, call, enc

COLS = [
    "speed",
    "Arr",
    "Dep",
    "Approx_enter",
    "Label",
    "Shunting",
    "Turnaround_time_minutes",
]
KEYS = ["sp", "arr", "dep", "app", "lab", "sh", "ta"]

_cache = {}


def DF():
    if "df" not in _cache:
        import data_formatting.data_formatting as m

        _cache["df"] = m
    return _cache["df"]


def UT():
    """the tools module: some of its functions have a second version elsewhere"""
    import data_formatting.data_formatting.utils as m

    return m


ABSENT = "~absent~"


def tool(name, *a, **k):
    """calls a function of the tools module, if there is one of this name"""
    f = getattr(UT(), name, None)
    return ABSENT if f is None else f(*a, **k)


def HLP():
    if "h" not in _cache:
        import helpers as m

        _cache["h"] = m
    return _cache["h"]


def RS():
    if "rs" not in _cache:
        import railway_solvers.railway_solvers as m

        _cache["rs"] = m
    return _cache["rs"]


def read_csv(text):
    """the way helpers.build_timetables reads a schedule file"""
    return pd.read_csv(io.StringIO(text), sep=";", engine="python")


def paths_frame(rows):
    cols = [
        "previous_block",
        "next_block",
        "direction",
        "default_A-B",
        "default_B-A",
        "switches",
        "time_inter_city_A-B",
        "time_regional_train_A-B",
        "time_inter_city_B-A",
        "time_regional_train_B-A",
    ]
    data = {c: pd.Series([], dtype=object) for c in cols}
    for i, c in enumerate(cols):
        vals = [r[i] for r in rows]
        if c == "switches":
            vals = [np.nan if v is None else v for v in vals]
        data[c] = pd.Series(vals, dtype=object)
    return pd.DataFrame(data)


def csv_text(trains):
    def cell(v):
        if v is None:
            return ""
        s = str(v)
        if '"' in s or ";" in s:
            s = '"' + s.replace('"', '""') + '"'
        return s

    lines = [";".join([""] + COLS)]
    for t in trains:
        for head in ["####", t["type"], str(t["no"]), t["name"], t["from"]]:
            lines.append(cell(head) + ";" * len(COLS))
        for r in t["rows"]:
            lines.append(
                ";".join([cell(r["b"])] + [cell(r.get(k)) for k in KEYS])
            )
        lines.append(cell(t["to"]) + ";" * len(COLS))
    return "\n".join(lines) + "\n"


def build(world):
    """train dictionary exactly as helpers.build_timetables makes it"""
    m = DF()
    td = m.timetable_to_train_dict(read_csv(csv_text(world["trains"])))
    dp = paths_frame(world["rows"])
    td = m.update_all_timetables(td, dp, world["stations"], save=False)
    return td, dp, world["stations"]


def _key(d):
    """JSON turned integer keys into strings: undo"""
    return {int(k): v for k, v in d.items()}


def op_world(world, calls):
    """build the world, then answer the calls in order"""
    box = {}

    def mk():
        box["w"] = build(world)
        return None

    r = call(mk)
    if "exc" in r:
        return {"build": r, "calls": None}
    td, dp, imp = box["w"]
    m = DF()
    out = []
    for name, kw in calls:
        out.append(call(lambda: one(m, name, kw, td, dp, imp, box)))
    return {"build": {"ok": None}, "calls": out}


def one(m, name, kw, td, dp, imp, box):
    kw = dict(kw)
    if name == "tables":
        return {t: [v[0], v[1]] for t, v in td.items()}
    if name == "get_J":
        return m.get_J(td)
    if name == "get_Paths":
        return m.get_Paths(td)
    if name == "get_skip_stations":
        return m.get_skip_stations(td)
    if name == "get_trains_at_station":
        return m.get_trains_at_station(td, imp, **kw)
    if name == "blocks_list_4station":
        return m.blocks_list_4station(td[kw["train"]][1], kw["station"], imp)
    if name == "is_train_passing_thru_station":
        return m.is_train_passing_thru_station(td[kw["train"]][1], kw["station"])
    if name == "subsequent_station":
        return m.subsequent_station(td[kw["train"]][1], kw["station"])
    if name == "train_important_stations":
        return m.train_important_stations(td[kw["train"]][1])
    if name == "get_blocks_b2win_station4train":
        return m.get_blocks_b2win_station4train(
            td[kw["train"]][1], kw["s1"], kw["s2"], verbose=False
        )
    if name == "check_common_station":
        return m.check_common_station(td, kw["t1"], kw["t2"])
    if name == "common_blocks_dir":
        return m.get_common_blocks_and_direction_b2win_trains(
            td, kw["t1"], kw["t2"], kw["s1"], kw["s2"]
        )
    if name == "get_arr_dep_vals":
        return m.get_arr_dep_vals(td[kw["train"]][1])
    if name == "check_path_continuity":
        return m.check_path_continuity(td[kw["train"]][1]["path"], dp.iloc[:, :2])
    if name == "get_trains_pair9":
        return m.get_trains_pair9(td)
    if name == "get_jround":
        return m.get_jround(td, imp)
    if name in ("josingle", "jtrack", "jd"):
        return getattr(m, name)(td, imp, **kw)
    if name == "jswitch":
        return m.jswitch(td, imp, dp, **kw)
    if name in ("z_in", "z_out"):
        paths = m.get_Paths(td)
        s = kw["station"]
        trains = [t for t in td if s in paths[t]]
        sb = {t: m.blocks_list_4station(td[t][1], s, imp) for t in trains}
        bl = {t: td[t][1]["path"].tolist() for t in trains}
        return getattr(m, name)(dp, kw["train"], s, paths, sb, bl)
    if name == "get_taus_pass":
        return m.get_taus_pass(td, **kw)
    if name == "get_taus_stop":
        return m.get_taus_stop(td, imp, **kw)
    if name == "get_taus_prep":
        return m.get_taus_prep(td, imp, **kw)
    if name == "get_taus_headway":
        return m.get_taus_headway(td, imp, **kw)
    if name == "get_schedule":
        return m.get_schedule(td, **kw)
    if name == "get_initial_conditions":
        return m.get_initial_conditions(td, **kw)
    if name in ("tool get_schedule", "tool get_initial_conditions"):
        return tool(name[5:], td, **kw)
    if name in ("tool get_trains_with_same_stations",):
        r = tool(name[5:], td)
        return r if r == ABSENT else {k: list(v) for k, v in r.items()}
    if name == "tool check_common_blocks_elements":
        return tool(name[5:], td, kw["t1"], kw["t2"])
    if name == "tool subsequent_block":
        return tool(name[5:], td[kw["train"]][1]["path"].tolist(), kw["block"])
    if name == "tool get_block_speed":
        return tool(name[5:], td[kw["train"]][1], kw["block"])
    if name == "tool get_block_station":
        return tool(name[5:], kw["block"], imp)
    if name == "tool train_important_stations1":
        import data_formatting.data_formatting.time_table_check as tt

        f = getattr(tt, name[5:], None)
        return ABSENT if f is None else f(td[kw["train"]][1], imp)
    if name == "tool common_path":
        return tool(name[5:], td[kw["t1"]][1], td[kw["t2"]][1], kw["s1"], kw["s2"])
    if name in ("tool get_all_important_station", "tool get_blocks_b2win_station4train_deprecable"):
        np.savez("important_stations.npz", imp)
        if name.endswith("station"):
            return tool(name[5:])
        return tool(name[5:], td, kw["train"], kw["s1"], kw["s2"], verbose=False)
    if name == "make_weights":
        skip = kw.pop("skip", None)
        skip = m.get_skip_stations(td) if skip is None else _key(skip)
        return m.make_weights(td, skip, **kw)
    raise KeyError(name)


def op_parse(text=None, trains=None):
    """read a schedule file and list what came out"""
    if text is None:
        text = csv_text(trains)
    data = read_csv(text)
    before = data.copy(deep=True)

    def go():
        td = DF().timetable_to_train_dict(data)
        return {t: [v[0], v[1]] for t, v in td.items()}

    r = call(go)
    r["unchanged"] = bool(before.equals(data))
    return r


def op_add_delay(ic, delays, tools=False):
    m = UT() if tools else DF()
    if not hasattr(m, "add_delay"):
        m = DF()
    src = dict(ic)

    def go():
        cur = src
        for train, delay in delays:
            cur = m.add_delay(cur, train, delay)
        return cur

    r = call(go)
    r["src"] = enc(src)
    return r


def op_continuity(path, rows, whole=False):
    dp = paths_frame(rows)
    return call(lambda: DF().check_path_continuity(pd.Series(path), dp if whole else dp.iloc[:, :2]))


def op_passing(table, rows):
    """table: list of [block, speed]"""
    dp = paths_frame(rows)
    tt = pd.DataFrame(
        {"path": [r[0] for r in table], "speed": [r[1] for r in table]}
    )
    m = DF()
    return {
        "all": call(lambda: m.passing_times_4blocks(tt, dp)),
        "single": [
            call(lambda: m.single_passing_time((a[0], b[0], a[1]), dp))
            for a, b in zip(table, table[1:])
        ],
    }


def op_lists(list1, list2, nested):
    m = DF()
    return {
        "flatten": call(lambda: m.flatten(nested)),
        "size": call(lambda: m.getSizeOfNestedList(nested)),
        "sub": call(lambda: tool("sub_lists", list1)),
        "sub2": call(lambda: tool("sub_lists", list1, True)),
        "common": call(lambda: m.common_elements(list1, list2)),
    }


def op_export_real():
    """the shipped network, station lists and schedules as plain data"""
    d = pd.read_excel(os.path.join(REPO, "data/network_paths.ods"), engine="odf")
    rows = []
    for r in d.iloc[:, :10].values.tolist():
        rows.append(
            [
                None if (isinstance(v, float) and v != v) else v
                for v in r
            ]
        )
    sets = [
        ("important_stations", "trains_schedules"),
        ("important_stations_Gt", "trains_schedules_Gt"),
        ("important_stations", "trains_schedules_1track"),
        ("important_stations_Gt", "trains_schedules_1track_Gt"),
        ("KO_GLC/important_stations_KO_GLC", "KO_GLC/trains_schedules_KO_GLC"),
        ("KO_GLC/important_stations_KO_GLC_R", "KO_GLC/trains_schedules_KO_RCB_ZZ_GLC"),
        (
            "KO_GLC/important_stations_KO_GLC_R",
            "KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2",
        ),
    ]
    out = []
    for st, sc in sets:
        imp = np.load(
            os.path.join(REPO, "data", st + ".npz"), allow_pickle=True
        )["arr_0"][()]
        data = pd.read_csv(
            os.path.join(REPO, "data", sc + ".csv"), sep=";", engine="python"
        )
        cells = [
            [None if (isinstance(v, float) and v != v) else v for v in r]
            for r in data.iloc[:, :8].values.tolist()
        ]
        out.append(
            {"stations": {k: list(v) for k, v in imp.items()}, "cells": cells, "name": sc, "list": st}
        )
    return {"rows": rows, "sets": out}


def op_station_lists(rels):
    """the station lists written by the scripts, run beside copies of the other lists"""
    import contextlib
    import runpy
    import shutil
    import tempfile

    out = []
    for rel in rels:
        here = os.getcwd()
        tmp = tempfile.mkdtemp(dir=here)

        def go():
            with contextlib.redirect_stdout(io.StringIO()):
                runpy.run_path(os.path.join(REPO, "data", rel + ".py"), run_name="__main__")
            imp = np.load(os.path.basename(rel) + ".npz", allow_pickle=True)["arr_0"][()]
            return {k: list(v) for k, v in imp.items()}

        try:
            where = os.path.dirname(os.path.join(REPO, "data", rel))
            for name in os.listdir(where):
                if name.endswith(".npz") and name != os.path.basename(rel) + ".npz":
                    shutil.copy(os.path.join(where, name), tmp)
            os.chdir(tmp)
            out.append(call(go))
        finally:
            os.chdir(here)
            shutil.rmtree(tmp, ignore_errors=True)
    return out


# ---------------------------------------------------------------- diagrams and statistics

D4D = os.path.join("solutions_quantum", "data4diagrams")


def _day(x):
    """times travel as minutes of one day"""
    import datetime

    if isinstance(x, dict):
        return {k: _day(v) for k, v in x.items()}
    if isinstance(x, list) and len(x) == 2 and x[0] == "t":
        return datetime.datetime(2020, 1, 1) + datetime.timedelta(minutes=x[1])
    return x


def sched(trains):
    """what helpers.print_optimisation_results returns"""
    return {no: {s: _day(d) for s, d in stations} for no, stations in trains}


def unpack(content):
    kind, x = content
    if kind == "sched":
        return sched(x)
    if kind == "scheds":
        return {k: sched(v) for k, v in x}
    if kind == "runs":
        return dict([(k, v) for k, v in x])
    raise KeyError(kind)


def script_dir(rel):
    return os.path.join(REPO, os.path.dirname(rel))


def _paths(rel):
    import sys

    for d in (script_dir(rel), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "standins_plot")):
        if d not in sys.path:
            sys.path.append(d)


def op_script(rel, argv, files):
    """run a script of the repository in an empty directory holding these files; its output"""
    import contextlib
    import pickle
    import runpy
    import shutil
    import sys
    import tempfile

    _paths(rel)
    here = os.getcwd()
    tmp = tempfile.mkdtemp(dir=here)
    out = io.StringIO()
    old = sys.argv
    try:
        for name, content in files:
            with open(os.path.join(tmp, name), "wb") as f:
                pickle.dump(unpack(content), f)
        os.chdir(tmp)
        sys.argv = [os.path.join(REPO, rel)] + argv

        def go():
            with contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(REPO, rel), run_name="__main__")
            return out.getvalue()

        import matplotlib.pyplot as plt

        del plt.SAVED[:]
        r = call(go)
        r["saved"] = enc(list(plt.SAVED))
    finally:
        sys.argv = old
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    return r


def _module(rel):
    import importlib

    if rel not in _cache:
        _paths(rel)
        _cache[rel] = importlib.import_module(os.path.basename(rel)[:-3])
    return _cache[rel]


def op_lines(tables, calls):
    """questions about lines and segments, with further ones added to the tables"""
    m = _module(D4D + "/railway_lines.py")
    added = []
    try:
        for which, name, stations in tables:
            t = getattr(m, which)
            t[name] = tuple({"name": n, "callsign": c, "type": "st", "km": k} for n, c, k in stations)
            added.append((t, name))
        out = []
        for name, kw in calls:
            if name == "table":
                out.append(call(lambda: {k: [dict(s) for s in v] for k, v in getattr(m, kw["which"]).items()}))
            elif name == "train_on_segment":
                t = type("T", (), {"route": kw["route"]})()
                ex = {} if kw["exceptions"] is None else {"exceptions": kw["exceptions"]}
                out.append(call(lambda: m.train_on_segment(t, kw["segment"], **ex)))
            else:
                kw = {k: v for k, v in kw.items() if v is not None}
                out.append(call(lambda: getattr(m, name)(**kw)))
        return out
    finally:
        for t, name in added:
            t.pop(name, None)


def op_statistics(realisations, stations):
    """delays collected over realisations and the numbers printed about them"""
    m = _module(D4D + "/visualise_statistics.py")
    box = {}

    def go():
        delays = {}
        for r in realisations:
            m.add_delays_one_realisation(delays, sched(r))
        box["d"] = {k: list(v) for k, v in delays.items()}
        return box["d"]

    a = call(go)
    b = call(lambda: m.get_print_statistics(dict(box["d"]), stations)) if "ok" in a else None
    return [a, b]


def op_figures(rel, fn, args, files):
    """run a plotting function on pickled results; the figures it saved"""
    import pickle
    import shutil
    import tempfile

    _paths(rel)
    import matplotlib.pyplot as plt

    m = _module(rel)
    here = os.getcwd()
    tmp = tempfile.mkdtemp(dir=here)
    try:
        for name, content in files:
            with open(os.path.join(tmp, name), "wb") as f:
                pickle.dump(unpack(content), f)
        os.chdir(tmp)
        del plt.SAVED[:]
        # JSON has no integer keys: [["case", k, v]] stands for {k: v}
        args = [{a[1]: a[2] for a in x} if isinstance(x, list) and x and isinstance(x[0], list) and x[0][0] == "case"
                else x for x in args]
        r = call(lambda: getattr(m, fn)(*args))
        r["saved"] = enc(list(plt.SAVED))
        return r
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- the whole preparation


def op_pipeline(world, t1, delays, stored, default_taus):
    """what the drivers of the project do before they solve anything"""
    m, h = DF(), HLP()
    here = os.getcwd()

    def go():
        with open("schedules.csv", "w", encoding="utf-8") as f:
            f.write(csv_text(world["trains"]))
        np.savez("stations.npz", world["stations"])
        imp = h.load_important_stations("stations.npz")
        dp = paths_frame(world["rows"])
        td = h.build_timetables("schedules.csv", stored, imp, dp)
        if stored:
            td = h.load_timetables("update_tables.pkl")
        skip = m.get_skip_stations(td)
        shown = h.make_taus(td, imp, 0)
        train_set = h.make_train_set(td, imp, dp, skip)
        if default_taus:
            timetable = h.make_timetable(td, imp, skip, t1)
        else:
            timetable = h.make_timetable(td, imp, skip, t1, h.make_taus(td, imp, 1))
        for train, minutes in delays:
            timetable["initial_conditions"] = m.add_delay(timetable["initial_conditions"], train, minutes)
        return {"train_set": train_set, "timetable": timetable, "shown": shown, "skip": skip}

    try:
        return call(go)
    finally:
        os.chdir(here)
        for f in ("schedules.csv", "stations.npz", "update_tables.pkl"):
            if os.path.exists(f):
                os.remove(f)


# ---------------------------------------------------------------- programs run from the command line

DIRS = ["solutions_quantum/data4diagrams", "solutions_quantum/wisla/data4diagrams", "results_KO_GLC", "data/KO_GLC"]


def _write(name, kind, content):
    if kind == "schedule":
        with open(name, "w", encoding="utf-8") as f:
            f.write(csv_text(content))
    elif kind == "stations":
        np.savez(name, content)
    elif kind == "network":
        paths_frame(content).to_excel(name, engine="odf", index=False)
    else:
        raise KeyError(kind)


def _answer(answers):
    import dimod

    left = list(answers)

    def f(model):
        a = left.pop(0) if len(left) > 1 else left[0]
        if "random" in a:
            rng = random.Random(a["random"])
            rows = [[rng.randint(0, 1) for _ in model.variables] for _ in range(3)]
            return dimod.SampleSet.from_samples_bqm((rows, list(model.variables)), model, info={})
        return dimod.SampleSet.from_samples((a["rows"], a["labels"]), a["kind"], a["energies"], info=a["info"])

    return f


def op_driver(rel, runs, files, answers):
    """run a program of the main directory, with each list of arguments in turn, in a directory with these files"""
    import contextlib
    import glob
    import pickle
    import runpy
    import shutil
    import sys
    import tempfile

    import dwave.system
    import neal
    import pulp.apis

    here = os.getcwd()
    tmp = tempfile.mkdtemp(dir=here)
    old = sys.argv
    out = []
    try:
        os.chdir(tmp)
        for d in DIRS:
            os.makedirs(d)
        for name, kind, content in files:
            _write(name, kind, content)
        for argv in runs:
            seen = {f: os.stat(f).st_mtime_ns for f in glob.glob("**/*.pkl", recursive=True)}
            for m in (neal, dwave.system):
                m.CALLS.clear()
                m.ANSWER = _answer(answers) if answers else None
            pulp.apis.CALLS[:] = []
            text = io.StringIO()
            sys.argv = [os.path.join(REPO, rel)] + list(argv)

            def go():
                with contextlib.redirect_stdout(text):
                    runpy.run_path(os.path.join(REPO, rel), run_name="__main__")

            r = call(go)
            r["text"] = text.getvalue()[-20000:]
            r["files"] = {}
            for f in sorted(glob.glob("**/*.pkl", recursive=True)):
                if seen.get(f) != os.stat(f).st_mtime_ns:
                    with open(f, "rb") as g:
                        r["files"][f] = enc(pickle.load(g)) if os.path.dirname(f) else None
            r["lp"] = enc([list(c) for c in pulp.apis.CALLS])
            r["calls"] = [
                {k: enc(v) for k, v in c.items() if k in (
                    "solver", "time_limit", "num_reads", "num_sweeps", "beta_range", "annealing_time", "chain_strength")}
                for c in list(neal.CALLS) + list(dwave.system.CALLS)]
            out.append(r)
            if "exc" in r:
                break
    finally:
        for m in (neal, dwave.system):
            m.ANSWER = None
        sys.argv = old
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    return out
