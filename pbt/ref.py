"""Independent model of what the data preparation must produce.

Works on worlds (plain data), with exact decimal arithmetic.
"""
from fractions import Fraction as F

from .worlds import station_map

DEPOT_STATIONS = ("KO(KS)", "KO(IC)")
DEPOT_BLOCKS = (
    '"KO", "ST-M", 1114, "(N/A)"',
    '"KO", "ST-M", 1113, "(N/A)"',
    '"KO", "ST-M", 1118, "(N/A)"',
)
ONE_BLOCK = [{"KO(STM)", "KZ"}, {"CB", "CM"}, {"KTC-CB", "via Gt"}]


class Ref:
    def __init__(self, world):
        self.w = world
        self.smap = station_map(world["stations"])
        self.tr = {t["no"]: t for t in world["trains"]}
        self.J = [t["no"] for t in world["trains"]]
        self.row = {}
        for r in world["rows"]:
            self.row[(r[0], r[1])] = r
        self.path = {j: [r["b"] for r in self.tr[j]["rows"]] for j in self.J}
        self.st = {j: [self.smap[b] for b in self.path[j] if b in self.smap] for j in self.J}
        self.blk = {j: {self.smap[b]: b for b in self.path[j] if b in self.smap} for j in self.J}
        self.time = {j: self._times(j) for j in self.J}
        self.leg = {j: self._legs(j) for j in self.J}

    def hop(self, x, y):
        """(row, forward?)"""
        if (x, y) in self.row:
            return self.row[(x, y)], True
        if (y, x) in self.row:
            return self.row[(y, x)], False
        return None, None

    def hop_time(self, x, y, speed):
        r, fwd = self.hop(x, y)
        if r is None:
            return None
        v = r[6:10][(0 if fwd else 2) + (0 if speed == "IC" else 1)]
        try:
            return F(str(v))
        except ValueError:
            return None

    def _times(self, j):
        rows = self.tr[j]["rows"]
        out = {}
        for a, b in zip(rows, rows[1:]):
            out[a["b"]] = self.hop_time(a["b"], b["b"], a["sp"])
        out[rows[-1]["b"]] = None
        return out

    def t(self, j, b):
        v = self.time[j][b]
        return F(0) if v is None else v

    def _legs(self, j):
        """{(s, s2): [blocks strictly between]} for consecutive stations"""
        out, last, cur = {}, None, []
        for b in self.path[j]:
            if b in self.smap:
                if last is not None:
                    out[(last, self.smap[b])] = cur
                last, cur = self.smap[b], []
            else:
                cur.append(b)
        return out

    def nxt(self, j, s):
        st = self.st[j]
        if s in st and st.index(s) + 1 < len(st):
            return st[st.index(s) + 1]
        return None

    def skip(self):
        return {j: self.smap[self.path[j][-1]] for j in self.J if self.path[j][-1] in self.smap}

    def between(self, j, s1, s2):
        p, st = self.path[j], self.st[j]
        if s1 not in st or s2 not in st:
            return [], None
        if st.index(s1) > st.index(s2):
            return [], True
        a, b = p.index(self.blk[j][s1]), p.index(self.blk[j][s2])
        return p[a + 1 : b], False

    # ---- conflict sets

    def jd(self):
        out = {}
        for j in self.J:
            for leg, bl in self.leg[j].items():
                out.setdefault(leg, {}).setdefault(tuple(bl), []).append(j)
        return {leg: [set(v) for v in g.values()] for leg, g in out.items()}

    def josingle(self):
        out = set()
        for a in self.J:
            for (s, s2), bl in self.leg[a].items():
                for b in self.J:
                    o = self.leg[b].get((s2, s))
                    if a != b and bl and o is not None and o == bl[::-1]:
                        out.add(frozenset([(a, s, s2), (b, s2, s)]))
        return out

    def jtrack(self):
        out = {}
        for s in self.w["stations"]:
            if s in DEPOT_STATIONS:
                continue
            g = {}
            for j in self.J:
                if s in self.st[j]:
                    b = self.blk[j][s]
                    if b not in DEPOT_BLOCKS:
                        g.setdefault(b, set()).add(j)
            out[s] = list(g.values())
        return out

    def switches(self, x, y):
        r, _ = self.hop(x, y)
        if r is None or r[5] is None:
            return set()
        v = r[5]
        if isinstance(v, float):
            return set(int(p) for p in repr(v).split("."))
        if isinstance(v, int):
            return {v}
        return set(int(p) for p in v.split(","))

    def z(self, j, s, where):
        st, p = self.st[j], self.path[j]
        i = p.index(self.blk[j][s])
        if where == "in":
            return set() if st[0] == s else self.switches(p[i - 1], p[i])
        return set() if st[-1] == s else self.switches(p[i], p[i + 1])

    def jswitch(self):
        out = {}
        for s in self.w["stations"]:
            pairs = set()
            js = [j for j in self.J if s in self.st[j]]
            if s not in DEPOT_STATIONS:
                for i, a in enumerate(js):
                    for b in js[i + 1 :]:
                        for da in ("in", "out"):
                            for db in ("in", "out"):
                                if not self.z(a, s, da) & self.z(b, s, db):
                                    continue
                                if s == "KO(STM)" and (self._at_ko(a, da) or self._at_ko(b, db)):
                                    continue
                                pairs.add(frozenset([(a, da), (b, db)]))
            out[s] = pairs
        return out

    def _at_ko(self, j, where):
        """movement between KO and KO(STM): counted at KO"""
        if where == "in":
            return self.nxt(j, "KO") == "KO(STM)"
        return self.nxt(j, "KO(STM)") == "KO"

    def pairs9(self):
        return [(j, j * 10 + 9) for j in self.J if j * 10 + 9 in self.tr]

    def jround(self):
        """{station: {(first, second)}}; None when a pair does not meet"""
        out = {}
        for a, b in self.pairs9():
            pa, pb = self.path[a], self.path[b]
            if pa[0] == pb[-1]:
                s, pr = pa[0], (b, a)
            elif pb[0] == pa[-1]:
                s, pr = pb[0], (a, b)
            else:
                return None
            out.setdefault(self.smap.get(s), set()).add(pr)
        return out

    # ---- times

    def taus_pass(self):
        return {
            (j, s, s2): sum((self.t(j, b) for b in bl), F(0))
            for j in self.J
            for (s, s2), bl in self.leg[j].items()
        }

    def turnaround(self, j, s):
        b = self.blk[j][s]
        for r in self.tr[j]["rows"]:
            if r["b"] == b:
                return F(str(r["ta"])) if r["ta"] is not None else F(0)

    def taus_stop(self):
        out = {}
        for j in self.J:
            for i, s in enumerate(self.st[j]):
                if self.path[j][-1] == self.blk[j][s]:
                    continue
                v = self.t(j, self.blk[j][s])
                if i > 0:
                    v += self.turnaround(j, s)
                out[(j, s)] = v
        return out

    def taus_prep(self):
        out = {}
        for j in self.J:
            v = self.turnaround(j, self.st[j][0])
            if v:
                out[(j, self.st[j][0])] = v
        return out

    def headway(self, a, b, s, s2):
        """smallest departure distance keeping the required number of blocks free

        Only defined when both trains use the same blocks.
        """
        bl = self.leg[a][(s, s2)]
        if not bl:
            return F(0)
        k = 1 if {s, s2} in ONE_BLOCK else 2
        best = None
        for x in range(len(bl)):
            # a is clear of the k blocks starting at x ...
            clear = sum((self.t(a, q) for q in bl[: x + k]), F(0))
            # ... before b comes to block x
            reach = sum((self.t(b, q) for q in bl[:x]), F(0))
            v = clear - reach
            best = v if best is None or v > best else best
        return best

    # ---- schedule

    @staticmethod
    def minutes(t1, t2):
        h1, m1 = t1.split(":")
        h2, m2 = t2.split(":")
        return (int(h2) * 60 + int(m2)) - (int(h1) * 60 + int(m1))

    def schedule(self, t1):
        out = {}
        for j in self.J:
            for r in self.tr[j]["rows"]:
                if r["b"] in self.smap and r["dep"]:
                    out[(j, self.smap[r["b"]])] = self.minutes(t1, r["dep"])
        return out

    def initial(self, t1):
        out = {}
        for j in self.J:
            for r in self.tr[j]["rows"]:
                if r["b"] in self.smap:
                    v = r["dep"] or r["app"]
                    out[(j, self.smap[r["b"]])] = self.minutes(t1, v) if v else 0
                    break
        return out


def rounded_ok(got, exact):
    """got is exact rounded to a whole minute; at exactly half either way is accepted"""
    if isinstance(got, bool) or got != got or got != int(got):
        return False
    return abs(F(int(got)) - exact) <= F(1, 2)


def close(got, exact, eps=1e-6):
    try:
        return abs(float(got) - float(exact)) <= eps
    except (TypeError, ValueError):
        return False


def key(*parts):
    return "_".join(str(p) for p in parts)
