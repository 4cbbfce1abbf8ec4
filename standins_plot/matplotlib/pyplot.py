"""Records the series put into each figure and the figures saved."""
import numbers

from . import rcParams  # noqa: F401

SAVED = []  # (file name, [axes as dictionaries]) in the order of saving
_state = {"fig": None, "ax": None}


class _Quiet(object):
    """accepts any further call that only changes looks"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: _Quiet()


def _seq(x):
    if isinstance(x, numbers.Number) or isinstance(x, str):
        return [x]
    return [v if isinstance(v, str) else float(v) for v in x]


class Axes(object):
    def __init__(self):
        self.series, self.title = [], None

    def _add(self, kind, x, y, kw, **more):
        d = {"kind": kind, "x": _seq(x), "y": _seq(y), "label": kw.get("label"), "color": kw.get("color", kw.get("c"))}
        if isinstance(d["color"], (list, tuple)):
            d["color"] = list(d["color"])
        d.update(more)
        self.series.append(d)
        return _Quiet()

    def plot(self, *args, **kw):
        args = list(args)
        fmt = args.pop() if args and isinstance(args[-1], str) and len(args) > 1 else kw.get("marker")
        if len(args) == 1:
            args = [list(range(len(args[0]))), args[0]]
        return self._add("plot", args[0], args[1], kw, fmt=fmt)

    def scatter(self, x, y, s=None, c=None, **kw):
        if c is not None:
            kw["c"] = c
        return self._add("scatter", x, y, kw, fmt=kw.get("marker"))

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", **kw):
        e = None if yerr is None else [_seq(r) for r in yerr]
        return self._add("errorbar", x, y, kw, fmt=fmt, yerr=e)

    def bar(self, x, height, *args, **kw):
        return self._add("bar", x, height, kw)

    def set_title(self, t, *args, **kw):
        self.title = t

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: _Quiet()


class Figure(object):
    def __init__(self):
        self.axes = []

    def add_subplot(self, *args, **kw):
        self.axes.append(Axes())
        return self.axes[-1]

    def savefig(self, name, *args, **kw):
        SAVED.append([str(name), [{"title": a.title, "series": list(a.series)} for a in self.axes]])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: _Quiet()


def figure(*args, **kw):
    _state["fig"], _state["ax"] = Figure(), None
    return _state["fig"]


def gcf():
    return _state["fig"] or figure()


def gca():
    if _state["ax"] is None:
        _state["ax"] = gcf().add_subplot()
    return _state["ax"]


def subplots(nrows=1, ncols=1, *args, **kw):
    f = figure()
    n = nrows * ncols
    axs = [f.add_subplot() for _ in range(n)]
    _state["ax"] = axs[-1]
    return f, (axs[0] if n == 1 else axs)


def savefig(name, *args, **kw):
    gcf().savefig(name)


def clf():
    f = gcf()
    f.axes[:] = []
    _state["ax"] = None


def close(*args):
    _state["fig"] = _state["ax"] = None


def plot(*args, **kw):
    return gca().plot(*args, **kw)


def scatter(*args, **kw):
    return gca().scatter(*args, **kw)


def errorbar(*args, **kw):
    return gca().errorbar(*args, **kw)


def title(t, *args, **kw):
    gca().title = t


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return lambda *args, **kwargs: _Quiet()

