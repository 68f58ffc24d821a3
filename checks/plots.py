"""a stand-in for matplotlib's drawing calls that records what is drawn"""
import types


def arr(x):
    import numpy as np
    return [x[i] for i in range(len(x))] if not hasattr(x, "reshape") else list(np.asarray(x, dtype=object).reshape(-1)) if type(x) is np.ndarray else list(x.reshape(-1))


class Mappable:
    """what a drawing call returns; `drawn`: it belongs to a pair of axes"""
    drawn = True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self


class Norm:
    """linear normalisation"""

    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax

    def __call__(self, v):
        return (v - self.vmin) / (self.vmax - self.vmin)


class Color(tuple):
    pass


class Colormap:
    def __init__(self, name):
        self.name = name

    def __call__(self, v, *a, **k):
        return Color((self.name, v))


class Axes:
    """one pair of axes: lines, scatters, polygons, contours, horizontal lines, scales"""

    def __init__(self, rec):
        self.rec = rec
        self.lines, self.points, self.polygons, self.fields, self.levels = [], [], [], [], []
        self.scale = {"x": "linear", "y": "linear"}

    def plot(self, *a, **k):
        a = [v for v in a if not isinstance(v, str)]
        x, y = (None, a[0]) if len(a) == 1 else a[:2]
        self.lines.append(dict(x=None if x is None else arr(x), y=arr(y), label=k.get("label")))
        return [Mappable()]

    def semilogy(self, *a, **k):
        self.scale["y"] = "log"
        return self.plot(*a, **k)

    def loglog(self, *a, **k):
        self.scale["x"] = self.scale["y"] = "log"
        return self.plot(*a, **k)

    def scatter(self, x, y, *a, **k):
        self.points.append(dict(x=arr(x), y=arr(y), label=k.get("label")))
        return Mappable()

    def fill(self, x, y, *a, **k):
        self.polygons.append(dict(x=arr(x), y=arr(y), color=k.get("color", k.get("facecolor", k.get("fc")))))
        return [Mappable()]

    def contourf(self, *a, **k):
        self.fields.append([arr(v) for v in a[:3]])
        self.rec.fig().image = Mappable()
        return self.rec.fig().image

    contour = pcolormesh = tricontourf = contourf

    def hlines(self, y, xmin, xmax, *a, **k):
        self.levels.append(dict(y=y, label=k.get("label")))
        return Mappable()

    def axhline(self, y=0, *a, **k):
        self.levels.append(dict(y=y, label=k.get("label")))
        return Mappable()

    def yscale(self, s, *a, **k):
        self.scale["y"] = s

    def xscale(self, s, *a, **k):
        self.scale["x"] = s

    set_yscale, set_xscale = yscale, xscale

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Mappable()


class Figure:
    def __init__(self, rec):
        self.rec = rec
        self.axes = [Axes(rec)]

    image = None

    def gca(self, *a, **k):
        return self.axes[-1]

    def colorbar(self, mappable=None, cax=None, ax=None, **k):
        # matplotlib: without axes the mappable's own are used; without a mappable the last image drawn
        mappable = mappable if mappable is not None else self.image
        if mappable is None:
            raise RuntimeError("No mappable was found to use for colorbar creation")
        if cax is None and ax is None and not mappable.drawn:
            raise ValueError("Unable to determine Axes to steal space for Colorbar")
        return Mappable()

    add_subplot = add_axes = gca

    def savefig(self, name, *a, **k):
        A = self.axes[0]
        self.rec.saved.append((str(name), dict(lines=list(A.lines), points=list(A.points), polygons=list(A.polygons),
                                               fields=list(A.fields), levels=list(A.levels), scale=dict(A.scale))))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Mappable()


class Recorder:
    """replaces the drawing functions of matplotlib.pyplot"""
    DRAW = ("plot", "semilogy", "loglog", "scatter", "fill", "contourf", "contour", "pcolormesh", "tricontourf", "hlines", "axhline",
            "yscale", "xscale")
    QUIET = ("title", "suptitle", "xlabel", "ylabel", "xlim", "ylim", "axis", "grid", "legend", "tight_layout",
             "text", "annotate", "sca", "xticks", "yticks", "pause", "draw", "show")

    def __init__(self, h):
        self.saved = []
        self.stack = []
        P = "matplotlib.pyplot"
        for n in self.DRAW:
            h.patch(P, n, lambda *a, _n=n, **k: getattr(self.fig().axes[0], _n)(*a, **k))
        for n in self.QUIET:
            h.patch(P, n, lambda *a, **k: Mappable())
        h.patch(P, "colorbar", lambda *a, **k: self.fig().colorbar(*a, **k))
        h.patch(P, "figure", self.figure)
        h.patch(P, "subplots", lambda *a, **k: (lambda f: (f, f.axes[0]))(self.figure()))
        h.patch(P, "subplot", lambda *a, **k: self.fig().axes[0])
        h.patch(P, "axes", lambda *a, **k: self.fig().axes[0])
        h.patch(P, "gca", lambda *a, **k: self.fig().axes[0])
        h.patch(P, "gcf", self.fig)
        h.patch(P, "savefig", lambda *a, **k: self.fig().savefig(*a, **k))
        h.patch(P, "close", self.close)
        h.patch(P, "clf", self.clear)
        h.patch(P, "cla", self.clear)
        jet = Colormap("jet")
        maps = types.SimpleNamespace(jet=jet, get_cmap=lambda n=None, *a: jet if n == "jet" else Colormap(n),
                                     ScalarMappable=self.mappable)
        h.patch(P, "cm", maps)
        h.patch(P, "get_cmap", maps.get_cmap)
        h.patch("matplotlib.colors", "Normalize", Norm)
        h.patch("matplotlib.cm", "ScalarMappable", self.mappable)

    def mappable(self, *a, **k):
        m = Mappable()
        m.drawn = False
        return m

    def leave_open(self, v):
        """a figure somebody left open, with a curve, points and a polygon in it"""
        A = self.figure().axes[0]
        A.plot([v, v], label="left over")
        A.scatter([v], [v])
        A.fill([v, v, v], [v, v, v])

    def figure(self, *a, **k):
        self.stack.append(Figure(self))
        return self.stack[-1]

    def fig(self, *a, **k):
        return self.stack[-1] if self.stack else self.figure()

    def close(self, *a, **k):
        if a and a[0] == "all":
            self.stack = []
        elif self.stack:
            self.stack.pop()

    def clear(self, *a, **k):
        if self.stack:
            self.stack[-1].axes = [Axes(self)]

    def picture(self, h, name):
        """what the saved picture shows"""
        r = [p for n, p in self.saved if n.replace("//", "/") == str(name).replace("//", "/")]
        h.true("saved-once", len(r) == 1, "%s is saved %d times (saved: %s)" % (name, len(r), [n for n, _ in self.saved]))
        return r[0]
