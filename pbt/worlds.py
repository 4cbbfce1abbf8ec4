"""Generators of railway data: network table, station lists, train schedules.

A world is plain JSON:
  rows      rows of the network table (ten columns, see worker/wops.py)
  stations  {station: [blocks]}
  trains    [{no, type, name, from, to, rows: [{b, sp, arr, dep, app, lab, sh, ta}]}]
"""
from hypothesis import strategies as st

TYPES = ["KS - Os", "PR - R", "KS - OsP", "IC - TLK", "IC - IC", "IC - EIP", "IC - EIC"]

STATION_NAMES = [
    "KO", "KO(STM)", "KZ", "CB", "CM", "GLC", "KL", "Ty", "KO(IC)", "KO(KS)",
    "MJ", "Mi", "KTC", "RCB", "ZZ", "AB", "BC",
]

# lines on which one block between two trains is enough
CLOSE = [("KO(STM)", "KZ"), ("CB", "CM")]

I = st.integers
P9 = {"KO": 0.5}


def pick(draw, seq):
    return seq[draw(I(0, len(seq) - 1))]


def chance(draw, num, den):
    """true num times out of den; shrinks towards false"""
    return draw(I(0, den - 1)) >= den - num


def clock(m):
    m %= 24 * 60
    return "%02d:%02d" % (m // 60, m % 60)


def tenth(draw):
    return "%.1f" % (draw(I(3, 41)) / 10.0)


@st.composite
def switch_cell(draw, pool):
    """what a cell of the 'switches' column can hold: see the shipped table"""
    kind = draw(I(0, 9))
    nums = sorted(set(draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3))))
    if kind == 9:
        return None
    if kind == 8:
        return nums[0]
    if kind == 7 and len(nums) >= 2:
        a, b = nums[0], nums[1]
        if b % 10 != 0:  # 16,20 is stored as 16.2 and cannot be told from 16,2
            return float("%d.%d" % (a, b))
    return ",".join(str(n) for n in nums)


def station_block(name, i, alike=False):
    """a block of a station; alike: numbered like the depot tracks"""
    if name in ("KO(IC)", "KO(KS)"):
        return '"%s", "B-M", %d, "(N/A)"' % (name, 500 + i)
    if name == "KO(STM)":
        return ('"KO", "ST-M", %d, "(N/A)"' % [117, 1114, 119, 1113, 1118][i]) if i < 5 else (
            '"KO", "ST-M", %d, "(N/A)"' % (200 + i))
    if alike:
        return '"%s", "ST", %d, "(N/A)"' % (name, [1114, 1113, 117, 1118, 119][i] if i < 5 else 200 + i)
    return '"%s", "ST", %d, "(%d)"' % (name, i + 1, i // 2 + 1)


@st.composite
def networks(draw, max_stations=5, max_tracks=3, max_blocks=4, close=False, forks=False):
    """stations in a row or a small tree, joined by one or more tracks each; close: on
    the first line trains may follow each other with one block between them; forks: all
    lines have several tracks that have some of their blocks in common"""
    n = draw(I(2, max_stations))
    names = []
    if close:
        names = list(pick(draw, CLOSE))
        if chance(draw, 1, 2):
            names.reverse()
    for _ in range(n - len(names)):
        rest = [s for s in STATION_NAMES if s not in names]
        names.append(pick(draw, rest))
    stations = {}
    for s in names:
        k = draw(I(1, max_tracks))
        alike = chance(draw, 1, 6)
        stations[s] = [station_block(s, i, alike) for i in range(k)]
    # station order in the file is not the geographical one
    order = draw(st.permutations(names))
    links = []  # (a, b, [blocks from a to b])
    pool = list(range(1, 8)) + [12, 47, 53, 112]

    def mkblocks(tag, k):
        return ['"%s-%d", "SBL", %d, "%d", "(%d)"' % (tag, i + 1, 1, i + 1, k) for i in range(k)]

    for i in range(1, n):
        a = names[i - 1] if not chance(draw, 1, 4) else names[draw(I(0, i - 1))]
        b = names[i]
        tracks = 1 + (1 if chance(draw, 1, 2) else 0) + (1 if chance(draw, 1, 6) else 0)
        first = None
        if forks:
            first = mkblocks("%s-%s-a" % (a, b), draw(I(2, 5)))
            links.append((a, b, first))
            for t in range(draw(I(1, 2))):
                own = mkblocks("%s-%s-%s" % (a, b, "bc"[t]), len(first))
                kinds = [draw(I(0, 5)) for _ in first]  # common, own, left out
                bl = [f if k <= 2 else o for f, o, k in zip(first, own, kinds) if k < 5]
                if bl not in [x[2] for x in links]:
                    links.append((a, b, bl))
            tracks = 0
        for t in range(tracks):
            k = draw(I(0, max_blocks))
            if first is None and k == 0 and chance(draw, 1, 2):
                k = 1
            bl = mkblocks("%s-%s-%s" % (a, b, "abc"[t]), k)
            if first and bl and chance(draw, 1, 2):
                # tracks that share part of their blocks with the first one
                for x in range(len(bl)):
                    if x < len(first) and chance(draw, 1, 2):
                        bl[x] = first[x]
            if first is None:
                first = list(bl)
            links.append((a, b, bl))
    stubs = {}
    for s in names:
        stubs[s] = mkblocks("out-" + s, draw(I(0, 2))) if chance(draw, 1, 2) else []
    rows = {}

    def hop(x, y):
        if (x, y) in rows or (y, x) in rows or x == y:
            return
        if chance(draw, 1, 2):
            x, y = y, x
        r = draw(I(0, 3))
        times = [tenth(draw) for _ in range(4)]
        rows[(x, y)] = [x, y, "L", "Y" if r else "N", "N" if r else "Y",
                        draw(switch_cell(pool)), times[0], times[1], times[2], times[3]]

    for a, b, bl in links:
        seqs = list(zip(bl, bl[1:]))
        for x, y in seqs:
            hop(x, y)
        if bl:
            for t in stations[a]:
                hop(t, bl[0])
            for t in stations[b]:
                hop(bl[-1], t)
        else:
            for t in stations[a]:
                for u in stations[b]:
                    hop(t, u)
    for s, bl in stubs.items():
        for x, y in zip(bl, bl[1:]):
            hop(x, y)
        if bl:
            for t in stations[s]:
                hop(bl[-1], t)
    out = list(rows.values())
    if out and chance(draw, 1, 2):
        out = list(draw(st.permutations(out)))
    return {
        "rows": out,
        "stations": {s: stations[s] for s in order},
        "links": links,
        "stubs": stubs,
    }


@st.composite
def routes(draw, net, start=None):
    """a way through the network: station after station, no station twice"""
    names = list(net["stations"])
    cur = start or pick(draw, names)
    path = []
    sts = [cur]
    ent = net["stubs"][cur]
    if ent and chance(draw, 2, 3):
        path += list(ent)
    path.append(pick(draw, net["stations"][cur]))
    while True:
        nxt = [(a, b, bl) for a, b, bl in net["links"] if a == cur and b not in sts]
        nxt += [(b, a, bl[::-1]) for a, b, bl in net["links"] if b == cur and a not in sts]
        if not nxt or (len(sts) > 1 and chance(draw, 1, 6)):
            break
        a, b, bl = pick(draw, nxt)
        if any(x in path for x in bl):
            break
        path += list(bl)
        path.append(pick(draw, net["stations"][b]))
        sts.append(b)
        cur = b
    out = net["stubs"][cur]
    if out and len(sts) > 1 and chance(draw, 2, 3):
        path += list(out)[::-1]
    return path, sts


def _numbers(draw, n):
    out = []
    while len(out) < n:
        kind = draw(I(0, 6))
        if kind == 0 or not out:
            x = draw(I(1, 99))
        elif kind == 1:
            x = draw(I(100, 99999))
        elif kind == 2:
            x = out[draw(I(0, len(out) - 1))] * 10 + draw(I(0, 8))
        elif kind == 3:
            x = int(str(draw(I(1, 9))) + str(out[draw(I(0, len(out) - 1))]))
        elif kind == 4:  # looks like a shunting number of some other train
            x = int("%d%d9" % (out[draw(I(0, len(out) - 1))], draw(I(0, 99))))
        else:
            x = draw(I(1, 999))
        if x in out or (x % 10 == 9 and x // 10 in out) or x * 10 + 9 in out:
            continue_x = x
            while (continue_x in out or continue_x * 10 + 9 in out
                   or (continue_x % 10 == 9 and continue_x // 10 in out)):
                continue_x += 1
            x = continue_x
        out.append(x)
    return out


def dress(draw, no, path, smap, rich=True):
    """turn a block sequence into a schedule entry"""
    typ = pick(draw, TYPES)
    base = draw(I(0, 23 * 60 + 30)) if chance(draw, 1, 2) else 16 * 60 + draw(I(-40, 60))
    speed = "IC" if chance(draw, 1, 2) else "R"
    rows = []
    t = base
    first = True
    for b in path:
        if chance(draw, 1, 8):
            speed = "R" if speed == "IC" else "IC"
        r = {"b": b, "sp": speed, "arr": None, "dep": None, "app": None, "lab": None,
             "sh": None, "ta": None}
        t += draw(I(0, 4))
        if b in smap:
            kind = draw(I(0, 5))
            if kind <= 2:
                if chance(draw, 1, 2):
                    r["arr"] = clock(t)
                t += draw(I(0, 3))
                r["dep"] = clock(t)
            elif kind == 3:
                r["app"] = clock(t)
            elif kind == 4:
                r["dep"] = clock(t)
                r["app"] = clock(t - 1)
            if chance(draw, 1, 4):
                r["ta"] = draw(I(1, 12)) if chance(draw, 2, 3) else draw(I(10, 125)) / 10.0
            if chance(draw, 1, 3):
                r["lab"] = "Label " + smap[b]
            if first and chance(draw, 3, 4) and not r["dep"] and not r["app"]:
                r["app"] = clock(t)
            first = False
        elif rich and chance(draw, 1, 6):
            r["arr"] = r["dep"] = clock(t)
            r["lab"] = pick(draw, ["Stop", "Stop (x)", "Zażęże"])
        elif rich and chance(draw, 1, 12):
            r["app"] = clock(t)
        if rich and chance(draw, 1, 10):
            r["sh"] = "Y"
        rows.append(r)
    a = path[0].replace('"', "").split(",")[0]
    z = path[-1].replace('"', "").split(",")[0]
    return {
        "no": no,
        "type": typ,
        "name": pick(draw, ["S1", "Ondraszek", "Os/R", "IC Ślązak", "Train x 4", "EIP"]),
        "from": pick(draw, ["from ", "departs in "]) + a,
        "to": pick(draw, ["to ", "terminates in "]) + z,
        "rows": rows,
    }


def station_map(stations):
    m = {}
    for s, bl in stations.items():
        for b in bl:
            m.setdefault(b, s)
    return m


def usable(rows, path):
    """every hop of the path is in the table, with a number for this direction"""
    idx = {}
    for r in rows:
        idx[(r[0], r[1])] = r
    for x, y in zip(path, path[1:]):
        if (x, y) in idx:
            t = idx[(x, y)][6:8]
        elif (y, x) in idx:
            t = idx[(y, x)][8:10]
        else:
            return False
        for v in t:
            try:
                float(v)
            except (TypeError, ValueError):
                return False
    return True


def path_ok(path, smap):
    """the data format: a station is met once, on one block; blocks do not repeat"""
    sts = [smap[b] for b in path if b in smap]
    return len(path) >= 2 and len(sts) >= 1 and len(set(sts)) == len(sts) and len(set(path)) == len(path)


@st.composite
def worlds(draw, min_trains=1, max_trains=5, pairs=True, min_stations=1, follow=False, **kw):
    """a synthetic network with trains on it; follow: mostly trains on the same blocks"""
    net = draw(networks(**kw))
    smap = station_map(net["stations"])
    n = draw(I(min_trains, max_trains))
    paths = []
    for _ in range(n):
        kind = draw(I(0, 5)) if paths else 5
        if kind <= 1 or follow and kind <= 4:
            p = list(paths[draw(I(0, len(paths) - 1))])
            if kind == 1:
                p = p[::-1]
            if kind <= 1 and chance(draw, 1, 2):
                p = _retrack(draw, p, net)
            if chance(draw, 1, 3):
                p = _cut(draw, p, smap)
        else:
            p, _ = draw(routes(net))
        if len(p) < 2 or not path_ok(p, smap):
            p, _ = draw(routes(net))
        if len(p) >= 2 and path_ok(p, smap):
            paths.append(p)
    while not paths:
        # smallest possible way: there is always a link between two stations
        a, b, bl = net["links"][0]
        paths.append([net["stations"][a][0]] + list(bl) + [net["stations"][b][0]])
    nos = _numbers(draw, len(paths))
    trains = [dress(draw, no, p, smap) for no, p in zip(nos, paths)]
    if pairs and chance(draw, 1, 2):
        trains = _add_pair9(draw, trains, net, smap)
    if min_stations > 1:
        trains = [t for t in trains if len([r for r in t["rows"] if r["b"] in smap]) >= min_stations] or trains
    return {"rows": net["rows"], "stations": net["stations"], "trains": trains}


def _retrack(draw, p, net):
    out = []
    for b in p:
        for s, bl in net["stations"].items():
            if b in bl:
                b = pick(draw, bl)
                break
        out.append(b)
    return out


def _cut(draw, p, smap):
    idx = [i for i, b in enumerate(p) if b in smap]
    if len(idx) < 2:
        return p
    i = draw(I(0, len(idx) - 2))
    j = draw(I(i + 1, len(idx) - 1))
    lo = idx[i] if chance(draw, 1, 2) else 0
    hi = idx[j] + 1 if chance(draw, 1, 2) else len(p)
    return p[lo:hi]


def _add_pair9(draw, trains, net, smap):
    """a shunting movement that shares the rolling stock with one of the trains"""
    k = draw(I(0, len(trains) - 1))
    base = trains[k]
    p = [r["b"] for r in base["rows"]]
    nos = {t["no"] for t in trains}
    no = base["no"] * 10 + 9
    if no in nos or no * 10 + 9 in nos or (base["no"] % 10 == 9 and base["no"] // 10 in nos):
        return trains
    before = chance(draw, 1, 2)  # shunting train brings the stock / takes it away
    joint = p[0] if before else p[-1]
    if joint not in smap:
        # cut the train so that it starts (ends) at a station
        idx = [i for i, b in enumerate(p) if b in smap]
        q = p[idx[0]:] if before else p[: idx[-1] + 1]
        if len(q) < 2:
            return trains
        base["rows"] = base["rows"][idx[0]:] if before else base["rows"][: idx[-1] + 1]
        p = q
        joint = p[0] if before else p[-1]
    s = smap[joint]
    q, _ = draw(routes(net, start=s))
    while q and q[0] not in smap:
        q = q[1:]
    if len(q) < 2:
        return trains
    q[0] = joint
    if before:
        q = q[::-1]
    if not path_ok(q, smap) or not usable(net["rows"], q):
        return trains
    if joint == (p[-1] if before else p[0]):
        return trains
    new = dress(draw, no, q, smap)
    if q[0] == p[-1] and q[-1] == p[0]:
        return trains  # both ends meet: the order of the two is ambiguous
    pos = draw(I(0, len(trains)))
    return trains[:pos] + [new] + trains[pos:]


# ---------------------------------------------------------------- shipped data


def real_sets(export):
    """shipped schedules in world form"""
    out = []
    for s in export["sets"]:
        trains, cur, i = [], None, 0
        cells = s["cells"]
        while i < len(cells):
            c = cells[i][0]
            if c == "####":
                cur = {"type": cells[i + 1][0], "no": int(cells[i + 2][0]), "name": cells[i + 3][0],
                       "from": cells[i + 4][0], "rows": []}
                i += 5
                while not cells[i][0][:2] in ("to", "te"):
                    r = cells[i]
                    cur["rows"].append({"b": r[0], "sp": r[1], "arr": r[2], "dep": r[3], "app": r[4],
                                        "lab": r[5], "sh": r[6],
                                        "ta": None if r[7] is None else (int(r[7]) if r[7] == int(r[7]) else r[7])})
                    i += 1
                cur["to"] = cells[i][0]
                trains.append(cur)
            i += 1
        # a number listed twice: the loader keeps the later train (see known_findings.jsonl)
        last = list({t["no"]: t for t in trains}.values())
        out.append({"rows": export["rows"], "stations": s["stations"], "trains": last, "name": s["name"],
                    "file": trains, "list": s["list"]})
    return out


def slim(world):
    """keep only the rows of the network table that the trains can touch"""
    used = set()
    for t in world["trains"]:
        used.update(r["b"] for r in t["rows"])
    rows = [r for r in world["rows"] if r[0] in used and r[1] in used]
    stations = {s: [b for b in bl if b in used] for s, bl in world["stations"].items()}
    return {"rows": rows, "stations": {s: b for s, b in stations.items() if b}, "trains": world["trains"]}


@st.composite
def real_subsets(draw, sets, min_trains=2, max_trains=6, mutate=True, keep_numbers=False):
    """some trains of a shipped schedule, on the shipped network"""
    w = sets[draw(I(0, len(sets) - 1))]
    smap = station_map(w["stations"])
    k = draw(I(min_trains, max_trains))
    idx = []
    start = draw(I(0, len(w["trains"]) - 1))
    for _ in range(k):
        i = draw(I(0, len(w["trains"]) - 1)) if chance(draw, 1, 2) else (start + len(idx)) % len(w["trains"])
        if i not in idx:
            idx.append(i)
    nos = [w["trains"][i]["no"] for i in idx]
    for i, t in enumerate(w["trains"]):  # keep rolling stock together
        if i not in idx and (t["no"] * 10 + 9 in nos or (t["no"] % 10 == 9 and t["no"] // 10 in nos)):
            idx.append(i)
    trains = []
    for i in idx:
        t = w["trains"][i]
        if mutate and chance(draw, 1, 2):
            t = dict(dress(draw, t["no"], [r["b"] for r in t["rows"]], smap), type=t["type"])
        elif mutate and chance(draw, 1, 2):
            shift = draw(I(-60, 60))
            rows = []
            for r in t["rows"]:
                r = dict(r)
                for f in ("arr", "dep", "app"):
                    if r[f]:
                        h, m = str(r[f]).split(":")
                        r[f] = clock(min(max(int(h) * 60 + int(m) + shift, 0), 1439))
                rows.append(r)
            t = dict(t, rows=rows)
        trains.append(t)
    return slim({"rows": w["rows"], "stations": w["stations"], "trains": trains})


@st.composite
def real_walks(draw, sets, min_trains=2, max_trains=4):
    """new trains on new ways through the shipped network"""
    w = sets[draw(I(0, len(sets) - 1))]
    smap = station_map(w["stations"])
    adj = {}
    for r in w["rows"]:
        x, y = r[0], r[1]
        if usable([r], [x, y]):
            adj.setdefault(x, []).append(y)
        if usable([r], [y, x]):
            adj.setdefault(y, []).append(x)
    n = draw(I(min_trains, max_trains))
    paths = []
    for _ in range(n):
        if paths and chance(draw, 1, 2):
            p = list(paths[draw(I(0, len(paths) - 1))])
            if chance(draw, 1, 2):
                p = p[::-1]
            p = _cut(draw, p, smap)
        else:
            anchors = [b for b in smap if b in adj]
            p = [pick(draw, anchors)]
            want = draw(I(3, 16))
            while len(p) < want:
                seen = {smap[b] for b in p if b in smap}
                opts = [y for y in adj.get(p[-1], []) if y not in p and smap.get(y) not in seen]
                if not opts:
                    break
                p.append(pick(draw, opts))
        if path_ok(p, smap) and usable(w["rows"], p):
            paths.append(p)
    if not paths:
        paths = [[r["b"] for r in w["trains"][0]["rows"]]]
    nos = _numbers(draw, len(paths))
    return slim({"rows": w["rows"], "stations": w["stations"],
                 "trains": [dress(draw, no, p, smap) for no, p in zip(nos, paths)]})


@st.composite
def crowds(draw, base):
    """many trains on the ways of a few"""
    w = draw(base)
    trains = list(w["trains"])
    nos = {t["no"] for t in trains}
    no = draw(I(1, 40000))
    for i in range(draw(I(6, 14))):
        t = trains[draw(I(0, len(w["trains"]) - 1))]
        while no in nos or no // 10 in nos or no * 10 + 9 in nos:
            no += 1
        nos.add(no)
        trains.append(dict(t, no=no))
        no += draw(I(1, 12))
    return dict(w, trains=trains)


def forked():
    """trains on parallel tracks that have some of their blocks in common"""
    return worlds(min_trains=3, max_trains=5, pairs=False, min_stations=2, max_stations=3, max_tracks=2, forks=True)


def mixed(ctx, min_trains=2, max_trains=5, pairs=True, real_max=5, crowd=False, **kw):
    """synthetic worlds mostly, shipped data for the rest"""
    sets = ctx.data["sets"]
    few = worlds(min_trains=min_trains, max_trains=max_trains, pairs=pairs, **kw)
    return st.one_of(
        crowds(few) if crowd else few,
        worlds(min_trains=min_trains, max_trains=max_trains, pairs=pairs, **kw),
        worlds(min_trains=min_trains, max_trains=max_trains, pairs=pairs, **kw),
        worlds(min_trains=min_trains, max_trains=max_trains, pairs=pairs, **kw),
        real_walks(sets, min_trains=min_trains, max_trains=min(max_trains, 4)),
        real_subsets(sets, min_trains=min_trains, max_trains=real_max),
    )


def prepare_real(ctx):
    ctx.data["export"] = ctx.call("export_real")
    ctx.data["sets"] = real_sets(ctx.data["export"])
