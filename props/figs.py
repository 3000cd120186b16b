"""Figures that record what is drawn."""
import numpy as np

from .common import Patches


class Any:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any()

    def __call__(self, *a, **k):
        return Any()

    def __iter__(self):
        return iter(())


LINES = ("loglog", "plot", "semilogx", "semilogy")
# drawing that the checks do not interpret: the harness gives no verdict
OTHER = {"scatter", "vlines", "hlines", "step", "stairs", "fill", "fill_betweenx", "bar", "barh", "stackplot",
         "add_collection", "add_patch", "add_line", "add_artist", "add_container", "eventplot", "broken_barh",
         "axline", "axhspan", "hist2d", "imshow", "pcolormesh", "contour", "contourf", "boxplot", "arrow",
         "annotate", "quiver", "violinplot", "inset_axes", "twinx", "twiny", "ecdf"}


class Strict:
    """stand-in of which only the stated attributes are interpreted"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise NotImplementedError("%s.%s" % (type(self).__name__, name))


class Axes:
    def __init__(self, log, name):
        self.log, self.name, self.labels = log, name, {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in OTHER:
            raise NotImplementedError("axes." + name)

        def f(*a, **k):
            self.log.append((self.name, name, a, k))
            return Any()
        return Any() if name in ("yaxis", "xaxis", "transAxes") else f

    def axis(self, *a):
        return (1e-3, 1e3, 1e-40, 1e-35)

    def get_xticklabels(self):
        return []

    def get_xlabel(self):
        return self.labels.get("x", "")

    def get_ylabel(self):
        return self.labels.get("y", "")

    def get_title(self):
        return self.labels.get("title", "")

    def set_xlabel(self, xlabel, *a, **k):
        self.labels["x"] = xlabel

    def set_ylabel(self, ylabel, *a, **k):
        self.labels["y"] = ylabel

    def set_title(self, label, *a, **k):
        self.labels["title"] = label

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)


class Figure:
    def __init__(self):
        self.log, self.axes = [], []

    def add_subplot(self, *a, **k):
        if a and isinstance(a[0], Axes):
            if a[0] not in self.axes:
                self.axes.append(a[0])
            return a[0]
        self.axes.append(Axes(self.log, "ax%d" % len(self.axes)))
        return self.axes[-1]

    def subplots_adjust(self, *a, **k):
        pass

    def grid(self, shape, loc, *a, **k):
        """stands for pyplot.subplot2grid"""
        return Axes(self.log, "main" if loc[0] == 0 else "residuals")

    def calls(self, what, axes=None):
        if what in LINES:
            return self.lines(axes)
        return [(a, k) for n, m, a, k in self.log if m == what and axes in (None, n)]

    def lines(self, axes=None):
        """((x, y), options) of all lines, however they were drawn"""
        out = []
        for n, m, a, k in self.log:
            if m not in LINES or axes not in (None, n):
                continue
            a = [getattr(v, "value", v) for v in a if not isinstance(v, str)]
            if not 1 <= len(a) <= 2:
                raise NotImplementedError("%d arguments of %s" % (len(a), m))
            y = a[-1] if isinstance(a[-1], np.ndarray) else np.array(a[-1], dtype=object)
            x = a[0] if len(a) == 2 else np.arange(len(y))
            for yy in (y.T if y.ndim == 2 else [y]):
                out.append(((x, yy), k))
        return out

    def best_last(self):
        """the lines of the main axes, the one drawn thickest (if there is one) last"""
        ll = self.lines()
        w = [k.get("lw", k.get("linewidth", 0)) for _, k in ll]
        if w and w.count(max(w)) == 1:
            ll.append(ll.pop(w.index(max(w))))
        return ll

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise NotImplementedError("figure." + name)


class SerialPool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def starmap(self, f, args, *r):
        return [f(*a) for a in args]

    def map(self, f, args, *r):
        return [f(a) for a in args]

    def close(self):
        pass

    join = close


def unknown(name):
    def f(*a, **k):
        raise NotImplementedError("pyplot." + name)
    return f


PYPLOT = ("subplots", "subplot", "axes", "gca", "gcf", "subplot_mosaic", "plot", "loglog", "errorbar",
          "fill_between", "hist")


def patched(fig):
    """context: pyplot draws on the recording figure, pools are serial"""
    import matplotlib

    matplotlib.use("Agg")
    import multiprocessing

    import matplotlib.pyplot as plt
    import naima.plot

    rng = np.random.default_rng
    np.random.seed(7)           # the same draws in every execution
    items = [(np.random, "default_rng", lambda s=None: rng(7 if s is None else s)),
             (plt, "subplot2grid", fig.grid), (plt, "figure", lambda *a, **k: fig),
             (multiprocessing, "Pool", SerialPool)]
    items += [(plt, n, unknown(n)) for n in PYPLOT]
    if hasattr(naima.plot, "Pool"):
        items.append((naima.plot, "Pool", SerialPool))
    return Patches(items)


def arg(call, i, name):
    a, k = call
    return k[name] if name in k else a[i]
