"""P28: plots show the data they are given, in the file that is documented."""
import os

import matplotlib.pyplot as plt
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.figs import Capture
from fastvpinns.utils import plot_utils as PU


def series(r, n=None, kind=None):
    n = n or int(r.integers(1, 200))
    k = int(r.integers(0, 4)) if kind is None else kind
    a = [
        lambda: np.exp(-np.linspace(0, 9, n)) * (1 + 0.3 * r.uniform(-1, 1, n)),
        lambda: 10.0 ** r.uniform(-12, 6, n),
        lambda: np.abs(r.normal(size=n)) + 1e-6,
        lambda: np.full(n, float(r.uniform(0.1, 3))),
    ][k]()
    form = int(r.integers(0, 4))
    return [a, a.tolist(), a.astype(np.float32), [np.float64(v) for v in a]][form]


def png(path):
    with open(path, "rb") as f:
        return f.read(8) == b"\x89PNG\r\n\x1a\n"


def saved(ctx, cap, path, n=1, at=0):
    ctx.check(len(cap.saved) == n, f"{len(cap.saved)} figures were saved ({[s['path'] for s in cap.saved]}), documented are {n}")
    s = cap.saved[at]
    ctx.check(os.path.realpath(s["path"]) == os.path.realpath(path), f"the figure was saved as {s['path']}, documented is {path}")
    ctx.check(os.path.exists(path) and os.path.getsize(path) > 0, f"{path} was not written")
    ctx.note("figures_observed")
    return s


def curve(ctx, line, x, y, what):
    gx, gy = line[0], line[1]
    ctx.close(gy, np.asarray(y, float).ravel(), 1e-12, f"{what}: drawn values", scale=max(1e-300, float(np.max(np.abs(np.asarray(y, float))))))
    ctx.close(gx, np.asarray(x, float).ravel(), 1e-12, f"{what}: drawn abscissae")
    ctx.check(line[3], f"{what}: the curve is invisible")
    ctx.note("values_observed", len(gy))


def closed(ctx, before, what):
    ctx.check(len(plt.get_fignums()) == before, f"{what} leaves {len(plt.get_fignums()) - before} figures open")


def kept(ctx, pairs, what):
    for a, b in pairs:
        ctx.same(np.asarray(a), b, f"{what} changed the data it was given")


def one(ctx, name, d, r, size=None, a=None):
    """One call of one routine of the plotting utilities."""
    before = len(plt.get_fignums())
    a = series(r, size) if a is None else a
    keep = np.array(a)
    n = len(a)
    tails = ["", "", "", "_lr0.001", ".5", " 2", "-a.b.c", "_1e-3", ".png", "%d", "(1)"]
    w = lambda: "".join(chr(97 + int(c)) for c in r.integers(0, 26, int(r.integers(1, 8)))) + tails[int(r.integers(0, len(tails)))]
    simple = {
        "plot_loss_function": (lambda: PU.plot_loss_function(a, d), "loss_function.png", "Epochs", "Loss", "Loss Function"),
        "plot_inverse_test_loss_function": (lambda: PU.plot_inverse_test_loss_function(a, d), "test_inverse_loss_function.png", "Epochs", "Loss", "Loss Function"),
    }
    if name == "plot_array":
        fn, t, xl, yl = w(), w(), w(), w()
        if r.integers(0, 2):
            simple[name] = (lambda: PU.plot_array(a, d, fn, t, x_label=xl, y_label=yl), fn + ".png", xl, yl, t)
        else:
            simple[name] = (lambda: PU.plot_array(a, d, fn, t), fn + ".png", "Epochs", "Loss", t)
    if name == "plot_test_loss_function":
        pre = ["", w()][int(r.integers(0, 2))]
        file = (pre + "_" if pre else "") + "test_loss_function.png"
        simple[name] = ((lambda: PU.plot_test_loss_function(a, d, pre)) if pre else (lambda: PU.plot_test_loss_function(a, d)), file, "Epochs", "Loss", "Loss Function")
    with Capture() as cap:
        if name in simple:
            call, file, xl, yl, t = simple[name]
            call()
            s = saved(ctx, cap, os.path.join(d, file))
            ax = s["axes"][0]
            ctx.check(len(ax["lines"]) == 1, f"{name} draws {len(ax['lines'])} curves")
            curve(ctx, ax["lines"][0], np.arange(n), keep, name)
            ctx.check((ax["xlabel"], ax["ylabel"], ax["title"]) == (xl, yl, t), f"{name} is labelled {(ax['xlabel'], ax['ylabel'], ax['title'])}, documented is {(xl, yl, t)}")
            ctx.check(ax["yscale"] == "log" and ax["xscale"] == "linear", f"{name}: the axes are {ax['xscale']}, {ax['yscale']}")
            kept(ctx, [(a, keep)], name)
        elif name == "plot_multiple_loss_function":
            k = int(r.integers(1, 13))
            many = [series(r, size if size and j % 3 == 0 else None) for j in range(k)]
            keeps = [np.array(v) for v in many]
            labels = [w() + str(j) for j in range(k)]
            if k > 1 and r.integers(0, 2):  # legends may repeat
                labels = [labels[int(j)] for j in r.integers(0, max(1, k // 2), k)]
            fn, t, yl = w(), w(), w()
            PU.plot_multiple_loss_function(many, d, fn, labels, yl, t)
            ax = saved(ctx, cap, os.path.join(d, fn + ".png"))["axes"][0]
            ctx.check(len(ax["lines"]) == k, f"{name} draws {len(ax['lines'])} of {k} curves")
            for j in range(k):
                curve(ctx, ax["lines"][j], np.arange(len(keeps[j])), keeps[j], f"{name}, curve {j}")
                ctx.check(ax["lines"][j][2] == labels[j], f"{name}: curve {j} is labelled {ax['lines'][j][2]}")
            ctx.check(ax["legend"] == labels, f"{name}: the legend shows {ax['legend']}, given {labels}")
            ctx.check((ax["xlabel"], ax["ylabel"], ax["title"], ax["yscale"]) == ("Epochs", yl, t, "log"), f"{name}: labels and scale {(ax['xlabel'], ax['ylabel'], ax['title'], ax['yscale'])}")
            kept(ctx, zip(many, keeps), name)
        elif name == "plot_test_time_loss_function":
            tm = np.cumsum(r.uniform(0.01, 2, n))
            kt = tm.copy()
            PU.plot_test_time_loss_function(tm, a, d)
            ax = saved(ctx, cap, os.path.join(d, "test_time_loss_function.png"))["axes"][0]
            ctx.check(len(ax["lines"]) == 1, f"{name} draws {len(ax['lines'])} curves")
            curve(ctx, ax["lines"][0], kt, keep, name)
            ctx.check(ax["xscale"] == "log" and ax["yscale"] == "log", f"{name}: the axes are {ax['xscale']}, {ax['yscale']}")
            kept(ctx, [(a, keep), (tm, kt)], name)
        elif name == "plot_inverse_param_function":
            v, pn, pre = float(r.uniform(0.1, 2)), w(), w()
            arr = np.asarray(keep, float) if r.integers(0, 2) else [float(x) for x in keep]
            PU.plot_inverse_param_function(arr, pn, v, d, pre)
            ax = saved(ctx, cap, os.path.join(d, pre + ".png"), 2)["axes"][0]
            curve(ctx, ax["lines"][0], np.arange(n), np.asarray(keep, float), name)
            seg = [q for c in ax["segments"] for q in c[0]] + [np.stack(l[:2], 1) for l in ax["lines"][1:]]
            ctx.check(any(len(q) >= 2 and np.allclose(q[:, 1], v, rtol=1e-12) for q in seg), f"{name}: the actual value {v} is not drawn")
            ctx.check(ax["legend"] == ["Predicted " + pn, "Actual " + pn] and ax["ylabel"] == pn, f"{name}: labels {ax['legend']}, {ax['ylabel']}")
            ax = saved(ctx, cap, os.path.join(d, pre + "_absolute_error.png"), 2, 1)["axes"][0]
            err = np.abs(np.asarray(keep, float) - v)
            ctx.check(len(ax["lines"]) == 1, f"{name} draws {len(ax['lines'])} curves of the error")
            ctx.close(ax["lines"][0][1], err, 1e-6 if np.asarray(keep).dtype == np.float32 else 1e-12, f"{name}: drawn error", scale=float(np.max(np.abs(keep)) + abs(v)))
            curve(ctx, ax["lines"][0], np.arange(n), ax["lines"][0][1], name)
            ctx.check(ax["yscale"] == "log", f"{name}: the error is drawn on a {ax['yscale']} axis")
            kept(ctx, [(arr, keep)], name)
        elif name == "plot_contour":
            nx, ny = (int(r.integers(2, 12)), int(r.integers(2, 12))) if size is None else (int(r.integers(60, 300)), int(r.integers(60, 300)))
            x, y = np.meshgrid(np.sort(r.uniform(-2, 2, nx)) + 1e-3 * np.arange(nx), np.sort(r.uniform(-2, 2, ny)) + 1e-3 * np.arange(ny))
            z = r.normal(size=x.shape) * 10 ** r.uniform(-4, 4)
            k3 = x.copy(), y.copy(), z.copy()
            fn, t = w(), w()
            PU.plot_contour(x, y, z, d, fn, t)
            s = saved(ctx, cap, os.path.join(d, fn + ".png"))
            ctx.check(len(cap.contours) == 1, f"{name} draws {len(cap.contours)} fields")
            c = cap.contours[0]
            ctx.check(len(c["args"]) == 3, f"{name} draws the field without its coordinates")
            for got, want, q in zip(c["args"], k3, "xyz"):
                ctx.same(got, want, f"{name}: drawn {q}")
            lv = c["levels"]
            ctx.check(lv.min() <= z.min() + 1e-9 * abs(z).max() and lv.max() >= z.max() - 1e-9 * abs(z).max() and len(lv) >= 50, f"{name}: {len(lv)} levels from {lv.min()} to {lv.max()} for values from {z.min()} to {z.max()}")
            ctx.check(s["axes"][0]["title"] == t and len(s["axes"]) == 2, f"{name}: title {s['axes'][0]['title']!r}, {len(s['axes']) - 1} colour bars")
            ctx.note("values_observed", z.size)
            kept(ctx, zip((x, y, z), k3), name)
    for p in [s["path"] for s in cap.saved]:
        ctx.check(png(p), f"{p} is not a png file")
    closed(ctx, before, name)
    ctx.distinct(name, n, float(np.sum(np.asarray(keep, float))))


NAMES = [
    "plot_loss_function", "plot_array", "plot_multiple_loss_function", "plot_inverse_test_loss_function", "plot_test_loss_function",
    "plot_test_time_loss_function", "plot_contour", "plot_inverse_param_function",
]


def k_utils(ctx):
    one(ctx, NAMES[ctx.i % 8], ctx.scratch, ctx.rng)
    ctx.desc(routine=NAMES[ctx.i % 8])


def k_history(ctx):
    """A sequence of plots over foreign open figures: nothing of one appears in another, nobody else's figure is touched."""
    r = ctx.rng
    mine = plt.figure()
    ax = mine.add_subplot()
    ax.plot([1, 2, 3], [3, 1, 2])
    style = {k: plt.rcParams[k] for k in ("axes.prop_cycle", "xtick.labelsize", "legend.fontsize", "figure.figsize")}
    order = [NAMES[int(k)] for k in r.integers(0, 8, 6)]
    for name in order:
        one(ctx, name, ctx.scratch, r)
        ctx.check(plt.fignum_exists(mine.number), f"{name} closed a figure of somebody else")
        ctx.check(len(ax.get_lines()) == 1 and not ax.collections and ax.get_yscale() == "linear", f"{name} drew into a figure of somebody else")
        ctx.check({k: plt.rcParams[k] for k in style} == style, f"{name} changed the plotting defaults")
        ctx.note("histories")
    plt.close(mine)
    ctx.desc(order=order)


def same_ring(poly, cell):
    """poly is the closed outline of cell, from any vertex and in any direction."""
    p = np.asarray(poly, float)
    if len(p) == 5 and np.allclose(p[0], p[-1], atol=1e-14):
        p = p[:-1]
    if len(p) != 4:
        return False
    s = 1e-9 * max(1.0, np.abs(cell).max())
    for q in (cell, cell[::-1]):
        for k in range(4):
            if np.max(np.abs(np.roll(q, k, 0) - p)) < s:
                return True
    return False


def k_mesh(ctx):
    """The plot of the mesh: outline and quadrature points of every cell, points of every boundary tag with its own label."""
    r = ctx.rng
    m = W.quad_mesh(r, nmax=3, style=W.STYLES[ctx.i % 8])
    cells = np.array([O.order_ccw(c) for c in m.cells])
    nb = [1, 4, 15, 16, 17, 40][ctx.i % 6]
    ids = [int(v) for v in r.choice(5000, size=nb, replace=False)]
    bd = {k: r.uniform(-1, 1, (int(r.integers(1, 6)), 2)) for k in ids}
    q = int(r.integers(3, 6))
    ctx.desc(cells=len(cells), tags=nb, quad_order=q)
    before = {k: v.copy() for k, v in bd.items()}
    at_start = bool(r.integers(0, 2))
    for name in ("mesh.png", "mesh.svg"):
        if os.path.exists(name):
            os.remove(name)
    with Capture() as cap:
        fs = api.fespace(cells, bd, 2, "legendre", q, out=ctx.scratch, plot=at_start)
        quads = [fs.get_quadrature_actual_coordinates(c) for c in range(fs.n_cells)]
        if not at_start:
            ctx.check(not cap.saved, "a space that is not asked for a plot makes one")
            fs.generate_plot(ctx.scratch)
    want = {os.path.realpath(os.path.join(ctx.scratch, n)) for n in ("mesh.png", "mesh.svg")}
    ctx.check({os.path.realpath(s["path"]) for s in cap.saved} == want, f"saved files are {[s['path'] for s in cap.saved]}")
    ctx.check(png(os.path.join(ctx.scratch, "mesh.png")) and b"<svg" in open(os.path.join(ctx.scratch, "mesh.svg"), "rb").read(2000), "mesh.png or mesh.svg has another format")
    for s in cap.saved:
        ax = s["axes"][0]
        rings = [np.stack(l[:2], 1) for l in ax["lines"] if l[3]] + [p for p, _ in ax["polygons"]]
        ctx.check(len(rings) == len(cells), f"{len(rings)} cells are drawn, the mesh has {len(cells)}")
        left = list(range(len(rings)))
        for c in cells:
            hit = [k for k in left if same_ring(rings[k], c)]
            ctx.check(hit, f"no outline of the cell {c.tolist()} is drawn")
            left.remove(hit[0])
            ctx.note("cells_observed")
        drawn = {}
        for p, label, vis in ax["points"]:
            ctx.check(vis, "points are drawn invisibly")
            drawn.setdefault("Bd" if label.startswith("Bd-id") else "Quad", []).append((p, label))
        Q = np.concatenate([p for p, _ in drawn.get("Quad", [])])
        WQ = np.concatenate(quads)
        ctx.check(Q.shape == WQ.shape, f"{len(Q)} quadrature points are drawn of {len(WQ)}")
        ctx.close(Q[np.lexsort(Q.round(9).T)], WQ[np.lexsort(WQ.round(9).T)], 1e-8, "drawn quadrature points")
        labels = [l for _, l in drawn["Bd"]]
        ctx.check(sorted(labels) == sorted(f"Bd-id : {k}" for k in ids), f"the boundary ids drawn are {sorted(labels)[:20]}, given {sorted(ids)[:20]}")
        for p, l in drawn["Bd"]:
            w = before[int(l.split(":")[1])]
            have = {tuple(v) for v in p.round(12)}
            ctx.check(have == {tuple(v) for v in w.round(12)}, f"{l} is drawn at other points than given")
            ctx.note("values_observed", len(w))
        ctx.check(set(ax["legend"]) == set(labels) | {"Quad Pts"}, f"the legend names {len(ax['legend'])} entries")
        ctx.note("figures_observed")
    for k in ids:
        ctx.same(bd[k], before[k], "plotting the mesh changed the boundary points")
    for c in range(fs.n_cells):
        ctx.same(fs.get_quadrature_actual_coordinates(c), quads[c], "plotting the mesh moved quadrature points")
    plt.close("all")
    ctx.distinct(len(cells), ids, q)


def rank_of(color):
    """Position of a colour on the jet scale."""
    base = plt.cm.jet(np.linspace(0, 1, 256))
    d = np.abs(base[:, :3] - np.asarray(color)[:3]).sum(1)
    k = int(np.argmin(d))
    return k / 255.0, float(d[k])


def k_large(ctx):
    """Long histories, fine fields, residuals of many cells with single outliers."""
    r = ctx.rng
    if ctx.i % 4 == 3:
        nx, ny = int(r.integers(9, 14)), int(r.integers(9, 14))
        P, Q, E, side = W.structured(r, nx, ny, "perturbed")
        cells = np.array([O.order_ccw(c) for c in P[np.array(Q)]])
        loss = r.uniform(0, 1, len(cells))
        k = r.permutation(len(cells))
        loss[k[0]] = float(r.uniform(2, 50))
        loss[k[1]] = -float(r.uniform(0, 5))
        residual(ctx, cells, loss)
        ctx.distinct(nx, ny)
        return
    size = int(r.choice([2047, 9_999, 25_000, 100_001]))
    one(ctx, NAMES[(ctx.i // 4 + 2 * (ctx.i % 4)) % 8], ctx.scratch, r, size)
    ctx.note("long_curves_observed")
    ctx.desc(size=size)


def k_special(ctx):
    """Values that a logarithmic axis cannot show: zeros, negative numbers; single values; very small and very large ones."""
    r = ctx.rng
    name = NAMES[ctx.i % 8]
    for k in range(5):
        n = int(r.integers(1, 40))
        a = [np.zeros(n), r.normal(size=n), np.where(r.uniform(size=n) < 0.4, 0.0, 1e-3), 10.0 ** r.uniform(-300, -200, n), 10.0 ** r.uniform(100, 200, n)][k]
        if name == "plot_inverse_param_function" and k > 2:
            continue
        one(ctx, name, ctx.scratch, r, None, a if r.integers(0, 2) else a.tolist())
    ctx.desc(routine=name)


def k_residual(ctx):
    """The plot of cell residuals: every cell once, coloured by its own value on the common scale."""
    r = ctx.rng
    m = W.quad_mesh(r, nmax=4, style=W.STYLES[ctx.i % 8])
    cells = np.array([O.order_ccw(c) for c in m.cells])
    n = len(cells)
    residual(ctx, cells, [r.uniform(0, 1, n), 10.0 ** r.uniform(-6, 3, n), r.normal(size=n), np.arange(n) * 1.0][ctx.i % 4])


def k_many(ctx):
    """Plots of residuals with hundreds to thousands of cells."""
    r = ctx.rng
    P, Q, _E, _s = W.structured(r, int(r.integers(15, 40)), int(r.integers(30, 50)), ["unit", "perturbed", "stretched"][ctx.i % 3])
    cells = np.array([O.order_ccw(P[list(q)]) for q in Q])
    cells = cells[r.permutation(len(cells))]
    n = len(cells)
    residual(ctx, cells, [r.uniform(0, 1, n), 10.0 ** r.uniform(-6, 3, n), np.arange(n) * 1.0][ctx.i % 3])
    ctx.note("many_cells_observed", n)


def residual(ctx, cells, loss):
    r, n = ctx.rng, len(cells)
    given = [loss, loss.tolist(), tf.constant(loss), loss.reshape(-1, 1)][int(r.integers(0, 4))]
    g = api.Geometry_2D("quadrilateral", "internal", 3, 3, ctx.scratch)
    epoch = int(r.integers(0, 10**6))
    name = ["cell_residual", "res"][ctx.i % 2]
    keep = cells.copy()
    arg = [cells, list(cells)][int(r.integers(0, 2))]
    with Capture() as cap:
        g.plot_adaptive_mesh(arg, given, epoch, *([] if name == "cell_residual" else [name]))
    s = saved(ctx, cap, os.path.join(ctx.scratch, f"{name}_{epoch}.png"))
    ax = s["axes"][0]
    ctx.check(len(ax["polygons"]) == n, f"{len(ax['polygons'])} of {n} cells are filled")
    left = list(range(n))
    lo, hi = float(np.min(loss)), float(np.max(loss))
    for c in range(n):
        # (in the given order as a rule, but any order shows the same)
        hit = [left[0]] if left and same_ring(ax["polygons"][left[0]][0], keep[c]) else [k for k in left if same_ring(ax["polygons"][k][0], keep[c])]
        ctx.check(hit, f"cell {c} is not drawn")
        left.remove(hit[0])
        pos, off = rank_of(ax["polygons"][hit[0]][1])
        ctx.check(off < 0.02, f"cell {c} has a colour that is not on the scale")
        if hi > lo:
            want = (loss[c] - lo) / (hi - lo)
            ctx.check(abs(pos - want) <= 0.012, f"cell {c} with the value {loss[c]} of [{lo}, {hi}] is drawn at {pos:.3f} of the scale instead of {want:.3f}")
        ctx.note("cells_observed")
    ctx.check(len(s["axes"]) == 2, "there is no colour bar")
    ctx.same(cells, keep, "the plot changed the cells")
    plt.close("all")
    ctx.desc(cells=n, epoch=epoch, name=name)
    ctx.distinct(n, epoch, name)


KINDS = {"many": k_many, "large": k_large, "special": k_special, "utils": k_utils, "history": k_history, "mesh": k_mesh, "residual": k_residual}
