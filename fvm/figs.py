"""What a figure shows at the moment it is saved."""
import contextlib
import os

import matplotlib

matplotlib.use("Agg")
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np


def _axes(ax):
    d = {
        "title": ax.get_title(),
        "xlabel": ax.get_xlabel(),
        "ylabel": ax.get_ylabel(),
        "xscale": ax.get_xscale(),
        "yscale": ax.get_yscale(),
        "lines": [],
        "points": [],
        "polygons": [],
        "segments": [],
        "contours": None,
        "legend": [],
    }
    for l in ax.get_lines():
        d["lines"].append((np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_label(), l.get_visible()))
    for p in ax.patches:
        if hasattr(p, "get_xy") and isinstance(p, matplotlib.patches.Polygon):
            d["polygons"].append((np.array(p.get_xy(), float), tuple(float(v) for v in p.get_facecolor())))
    for c in ax.collections:
        if isinstance(c, matplotlib.collections.PathCollection) and c.get_offsets().size and len(c.get_paths()) == 1:
            d["points"].append((np.array(c.get_offsets(), float), c.get_label(), c.get_visible()))
        elif isinstance(c, matplotlib.collections.LineCollection):
            d["segments"].append(([np.array(s, float) for s in c.get_segments()], c.get_label()))
        elif isinstance(c, matplotlib.collections.PolyCollection):
            for q, path in enumerate(c.get_paths()):
                fc = c.get_facecolor()
                d["polygons"].append((np.array(path.vertices, float), tuple(float(v) for v in fc[min(q, len(fc) - 1)])))
    leg = ax.get_legend()
    if leg is not None:
        d["legend"] = [t.get_text() for t in leg.get_texts()]
    return d


class Capture:
    """Records every figure that is saved; the files are written, at a low resolution."""

    def __init__(self, write=True):
        self.saved, self.contours, self.write, self.colorbars = [], [], write, []

    def __enter__(self):
        cap = self
        self._savefig = matplotlib.figure.Figure.savefig
        self._contourf = matplotlib.axes.Axes.contourf
        self._tricontourf = matplotlib.axes.Axes.tricontourf

        def savefig(fig, fname, *a, **kw):
            cap.saved.append({"path": str(fname), "axes": [_axes(x) for x in fig.axes], "open": len(plt.get_fignums()), "kw": {k: kw.get(k) for k in ("dpi", "format")}})
            if cap.write:
                kw["dpi"] = 30
                return cap._savefig(fig, fname, *a, **kw)
            with open(fname if os.path.splitext(str(fname))[1] else str(fname) + ".png", "wb") as f:
                f.write(b"x" * 64)

        def contour(kind, orig):
            def f(ax, *a, **kw):
                out = orig(ax, *a, **kw)
                cap.contours.append({"kind": kind, "args": [np.array(v) if not np.isscalar(v) else v for v in a], "levels": np.array(out.levels), "zmin": float(out.zmin), "zmax": float(out.zmax), "extent": ax.dataLim.extents.tolist(), "axes": id(ax)})
                return out

            return f

        matplotlib.figure.Figure.savefig = savefig
        matplotlib.axes.Axes.contourf = contour("grid", self._contourf)
        matplotlib.axes.Axes.tricontourf = contour("tri", self._tricontourf)
        return self

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self._savefig
        matplotlib.axes.Axes.contourf = self._contourf
        matplotlib.axes.Axes.tricontourf = self._tricontourf
        return False
