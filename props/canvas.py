"""A drawing surface that only remembers what was drawn"""
from contextlib import contextmanager
from types import SimpleNamespace as NS

import numpy as np
import matplotlib.pyplot as plt


class Any:
    """Accepts every call"""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, *a, **kw):
        self.log.append((self.name, a, kw))
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any(self.log, self.name + "." + name)

    def __getitem__(self, k):
        return self


class Line:
    def __init__(self, x, y, fmt, kw):
        self.x, self.y = [list(np.atleast_1d(np.asarray(k))) for k in (x, y)]
        self.fmt, self.kw = fmt, kw
        self.label = kw.get("label")

    def __repr__(self):
        return f"<{self.label} {self.fmt} {len(self.x)} {self.kw}>"


class Axes:
    def __init__(self):
        self.lines, self.calls, self.scale = [], [], "linear"
        self.ylabel = self.title = self.xlabel = None

    def plot(self, x, y, fmt=None, **kw):
        if getattr(y, "ndim", 1) == 2:
            new = [Line(x, y[:, k], fmt, kw) for k in range(y.shape[1])]
        else:
            new = [Line(x, y, fmt, kw)]
        self.lines += new
        return new

    def set_yscale(self, s):
        self.scale = s

    def set_ylabel(self, s):
        self.ylabel = s

    def set_xlabel(self, s):
        self.xlabel = s

    def set_title(self, s):
        self.title = s

    def get_legend_handles_labels(self):
        return self.lines, [k.label for k in self.lines]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any(self.calls, name)


class Figure:
    def __init__(self, **kw):
        self.kw, self.axes, self.calls = kw, [], []

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        out = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                out[i, j] = Axes()
                self.axes.append(out[i, j])
        if squeeze:
            return out.item() if out.size == 1 else np.squeeze(out)
        return out

    def add_subplot(self, *a, **kw):
        self.axes.append(Axes())
        return self.axes[-1]

    def add_axes(self, *a, **kw):
        return self.add_subplot()

    def key(self):
        """What legends say: (line, the name it is given)"""
        out = []
        for ax in [*self.axes, self]:
            own = [k for a in self.axes for k in a.lines] \
                if ax is self else ax.lines
            own = [k for k in own if k.label is not None]
            for name, a, kw in ax.calls:
                if name != "legend":
                    continue
                handles, labels = kw.get("handles"), kw.get("labels")
                if len(a) == 2:
                    handles, labels = a
                elif len(a) == 1:
                    labels, = a
                if handles is None:
                    handles = own
                if labels is None:
                    labels = [k.label for k in handles]
                out += list(zip(handles, labels))
        return out

    @property
    def drawn(self):
        return [a for a in self.axes if a.lines]

    def said(self, name):
        return [c for c in self.calls if c[0] == name]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any(self.calls, name)


@contextmanager
def surface(env):
    """All figures made, shown and closed inside"""
    log = NS(figures=[], shown=0, closed=[])

    def figure(*a, **kw):
        log.figures.append(Figure(**kw))
        return log.figures[-1]

    def subplots(nrows=1, ncols=1, *, sharex=False, gridspec_kw=None, **kw):
        fig = figure(**kw)
        return fig, fig.subplots(nrows, ncols)

    def show(*a, **kw):
        log.shown += 1

    with env.patch(plt, figure=figure, subplots=subplots, show=show,
                   close=log.closed.append):
        yield log
