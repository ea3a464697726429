"""
The plotting libraries as environment: nothing is drawn; while a scenario asks for it, every call on them (and on the
plotting accessor of pandas) is recorded with its arguments.
"""
import numpy as np

LOG = None          # list of (function, args, kwargs), or None
POINTS = None       # symbolic runs: at most this many points per axis of a plot in two dimensions
PLACES = None       # symbolic runs: the points of an axis are at this many different places
INERT = ("gca", "gcf", "figure", "add_subplot", "twinx", "axes")


class Pen:
    """A stand-in for plotting / display libraries: every attribute is a function that does nothing."""

    def __init__(self, name):
        self.__dict__["__name__"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Pen(n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        name = self.__dict__["__name__"]
        if LOG is not None and name == "subplots":
            rows, cols = (list(a) + [1, 1])[:2]
            rows, cols = k.get("nrows", rows), k.get("ncols", cols)
            cells = [[Pen("axes") for _ in range(cols)] for _ in range(rows)]
            ax = cells[0][0] if rows * cols == 1 else [c for r in cells for c in r] if 1 in (rows, cols) else cells
            return Pen("figure"), ax
        if LOG is not None and name not in INERT:
            LOG.append((name, a, k))
            if name == "plot":
                # one line per curve, in the order of curves()
                pairs = len([x for x in a if not isinstance(x, str)])
                first = sum(len([x for x in b if not isinstance(x, str)]) + 1 >> 1 for n, b, _ in LOG[:-1] if n == "plot")
                return [Line("line", first + i) for i in range(pairs + 1 >> 1)]
        return self

    def __iter__(self):
        return iter(())


class Line(Pen):
    """A drawn curve."""

    def __init__(self, name, index):
        super().__init__(name)
        self.__dict__["index"] = index


class FramePen:
    """The plotting accessor of a data frame."""

    def __init__(self, df):
        self.df = df

    def __call__(self, *a, **k):
        kind = k.pop("kind", "line")
        return self._draw(kind, a, k)

    def __getattr__(self, kind):
        if kind.startswith("_"):
            raise AttributeError(kind)
        return lambda *a, **k: self._draw(kind, a, k)

    def _draw(self, kind, a, k):
        if "ax" in k and any(n == "heatmap" and j.get("cbar", True) and not (j.get("cbar_kws") or {}).get("use_gridspec", True) for n, _, j in LOG):
            # pandas looks at the place of every axes of the figure in its grid, where this color bar has none
            raise AttributeError("'NoneType' object has no attribute 'rowspan'")
        x, y = (list(a) + [None, None])[:2]
        x, y = k.get("x", x), k.get("y", y)
        df = self.df
        labels = list(df[x]) if x is not None else list(df.index)
        if y is None:
            y = [c for c in df.columns if c != x]
        for col in y if isinstance(y, (list, tuple)) else [y]:
            LOG.append(("frame." + kind, (labels, list(df[col])), {"column": col}))
        return Pen("axes")


_PANDAS = []


def record(points=None, places=None):
    """Starts a new recording."""
    global LOG, POINTS, PLACES
    import pandas as pd
    if not _PANDAS:
        original = pd.DataFrame.__dict__["plot"]
        _PANDAS.append(original)
        pd.DataFrame.plot = property(lambda df: FramePen(df) if LOG is not None else original.__get__(df, pd.DataFrame))
    LOG, POINTS, PLACES = [], points, places
    return LOG


def stop():
    global LOG, POINTS, PLACES
    LOG = POINTS = PLACES = None


def drawn(log, kind):
    return [(a, k) for n, a, k in log if n == kind]


def curves(log):
    """The curves drawn, as lists of points."""
    out = []
    for a, _ in drawn(log, "plot"):
        args = [x for x in a if not isinstance(x, str)]
        if len(args) == 1:
            args = [range(len(args[0])), args[0]]
        for x, y in zip(args[::2], args[1::2]):
            out.append((list(x), y))
    return out


def legend(log):
    """The texts of the legend, by curve (None: there is no legend)."""
    hits = drawn(log, "legend")
    if not hits:
        return None
    a, k = hits[-1]
    handles, labels = (list(a) + [None])[:2] if len(a) > 1 else (None, a[0] if a else None)
    handles, labels = k.get("handles", handles), k.get("labels", labels)
    if labels is None:
        own = [j["label"] for _, j in drawn(log, "plot") if "label" in j]
        return own if len(own) == len(curves(log)) else []
    if handles is None:
        return list(labels)
    by = {getattr(h, "index", None): t for h, t in zip(handles, labels)}
    return [by.get(i) for i in range(len(curves(log)))]


def last(log, *kinds):
    """The first argument of the last of these calls (set_xlabel: also ax.set(xlabel=...))."""
    short = [n[4:] for n in kinds if n.startswith("set_")]
    hits = [a[0] if a else next(iter(k.values()), None) for n, a, k in log if n in kinds]
    hits += [k[s] for n, a, k in log if n == "set" for s in short if s in k]
    return hits[-1] if hits else None
