"""P27: a failed operation does not poison later ones."""
import os
import shutil

import gmsh
import meshio
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D
from fvm.checks.p24 import snap_space, snap_handler, snap_model, same, settings, same_settings
from fvm.faults import Fault, Plan
from fvm.figs import Capture
from fvm.train import Run, MODELS
from fastvpinns.utils import plot_utils as PU

SEAMS = [
    (gmsh, "write"),
    (gmsh.model.geo, "add_point"),
    (gmsh.model.geo, "add_line"),
    (gmsh.model.geo, "add_curve_loop"),
    (gmsh.model.geo, "add_plane_surface"),
    (gmsh.model.geo, "synchronize"),
    (gmsh.model.mesh, "generate"),
    (meshio, "read"),
    (meshio.gmsh, "read"),
    (meshio.vtk, "write"),
    (np, "savetxt"),
    (np, "linspace"),
    (plt, "savefig"),
    (plt, "figure"),
    (plt, "tight_layout"),
    (pd, "read_csv"),
]
KINDS_OF_ERROR = [ValueError, ZeroDivisionError, KeyError, OSError, MemoryError, KeyboardInterrupt, RuntimeError, ArithmeticError, IndexError, EOFError, AttributeError, TypeError]


class Boom:
    """A user's function that fails at its k-th evaluation."""

    def __init__(self, f):
        self.f, self.n, self.at, self.exc = f, 0, None, None

    def __call__(self, *a):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise self.exc("the user's function fails")
        return self.f(*a)

    def arm(self, k, exc):
        self.n, self.at, self.exc = 0, k, exc

    def count(self):
        self.n, self.at = 0, None


def tree(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in sorted(names):
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


class World:
    """Objects that exist while other operations fail; their results must not move."""

    def __init__(self, ctx, kind=None):
        r = ctx.rng
        self.dir = os.path.join(ctx.scratch, "world")
        os.makedirs(self.dir)
        self.geo, self.cells, self.bd = api.internal([0, 1], [0, 2], 2, 2, 16, self.dir)
        self.P = api.Problem(r, "cd2d", nmax=2, order=3, quad=4)
        self.X = tf.constant(r.uniform(-1, 1, (6, 2)), tf.float64)
        self.P.reference()
        self.m = api.DenseModel(**self.P.common([2, 5, 1]))
        api.randomize(self.m, r)
        m = W.quad_mesh(r, nmax=2)
        self.file = W.write_medit(os.path.join(self.dir, "m.mesh"), m)
        self.ext = api.Geometry_2D("quadrilateral", "external", 5, 5, self.dir)
        self.ecells, self.ebd = self.ext.read_mesh(mesh_file=self.file, boundary_point_refinement_level=2, bd_sampling_method="uniform", refinement_level=0)
        self.ecells = np.array(self.ecells)
        self.ref = self.snap()
        self.files = tree(self.dir)
        self.settings = settings()

    def snap(self):
        out = snap_space(self.P.fs) + snap_handler(self.P.dh) + snap_model(self.m, self.X)
        out += [np.array(self.cells), np.array(self.geo.mesh.points), np.array(self.geo.get_test_points()), np.array(self.ext.get_test_points()), np.array(self.ext.mesh.points)]
        out += [np.asarray(self.bd[k]) for k in sorted(self.bd)] + [np.asarray(self.ebd[k]) for k in sorted(self.ebd)]
        return out

    def check(self, ctx, what):
        same_settings(ctx, self.settings, what)
        same(ctx, self.ref, self.snap(), f"{what}: an object that existed before")
        now = tree(self.dir)
        ctx.check(now == self.files, f"{what}: files of other objects changed: {[k for k in set(now) | set(self.files) if now.get(k) != self.files.get(k)]}")
        ctx.note("worlds_compared")


# ---------------------------------------------------------------- user functions
def k_user(ctx):
    """Each evaluation of each user's function fails once; with every kind of error."""
    r = ctx.rng
    w = World(ctx)
    P = w.P
    f, g = Boom(W.smooth(r)[0]), Boom(W.smooth(r)[0])
    exact = Boom(lambda x, y: np.sin(x) + y)
    coef = Boom(lambda: {"eps": 0.5, "b_x": 1.0, "b_y": 2.0, "c": 0.0})
    fv, gv = Boom(lambda x, y: [x + y, x * y, 1.0 + 0.0 * x]), Boom(lambda x, y: [x - y, 2.0 * x, y * y])

    def spaces():
        fs = api.fespace(P.cells, P.bd, 2, P.family, 3, "gauss-legendre", "bilinear", f, {k: g for k in P.bd}, out=w.dir, cond=None)
        dh = DataHandler2D(fs, w.geo, dtype=tf.float64)
        fs.mesh = w.ext.mesh
        fw = api.fespace(P.cells, P.bd, 2, P.family, 3, "gauss-legendre", "bilinear", fv, {k: api.zero for k in P.bd}, out=w.dir)
        fw.bound_function_dict = {k: gv for k in P.bd}
        return fs, dh, fw

    def columns(xy):
        return [np.array([np.ravel(v) for v in xy[0]]), np.array([np.ravel(v) for v in xy[1]])]

    def operations_on(fs, dh, fw):
        return {
            "building a handler": (f, lambda: snap_tensors(DataHandler2D(fs, w.geo, dtype=tf.float64))),
            "the load of the last cell": (f, lambda: [fs.get_forcing_function_values(fs.n_cells - 1)]),
            "boundary data": (g, lambda: [t.numpy() for t in dh.get_dirichlet_input()]),
            "sensor data": (exact, lambda: [t.numpy() for t in seeded(lambda: dh.get_sensor_data(exact, 11, "internal"))]),
            "coefficients": (coef, lambda: [dh.get_bilinear_params_dict_as_tensors(coef)[k].numpy() for k in ("eps", "b_x", "b_y", "c")]),
            "boundary data, component 2": (gv, lambda: columns(fw.generate_dirichlet_boundary_data_vector(2))),
            "boundary data of the space": (g, lambda: columns(fs.generate_dirichlet_boundary_data())),
            "a component of the load": (fv, lambda: [fw.get_forcing_function_values_vector(fw.n_cells - 1, 1)]),
            "building a space": (g, lambda: columns(api.fespace(P.cells, P.bd, 2, P.family, 3, f=f, bf={k: g for k in P.bd}, out=w.dir).generate_dirichlet_boundary_data())),
            "unknowns": (coef, lambda: [dh.get_inverse_params(coef)[k].numpy() for k in ("eps", "b_x", "b_y", "c")]),
        }

    fs, dh, fw = spaces()
    ops = operations_on(fs, dh, fw)
    for name, (fun, op) in ops.items():
        fun.count()
        ref = op()
        n = fun.n
        ctx.check(n > 0, f"{name} did not evaluate the given function")
        ks = sorted({1, n, *[int(v) for v in r.integers(1, n + 1, 3 if ctx.tier == "quick" else 12)]})
        for k in ks:
            # one of them is the error that a loop may take for its end (in a generator it becomes a RuntimeError)
            exc = StopIteration if k == ks[len(ks) // 2] else KINDS_OF_ERROR[int(r.integers(0, len(KINDS_OF_ERROR)))]
            seen = (exc, RuntimeError) if exc is StopIteration else (exc,)
            fun.arm(k, exc)
            try:
                op()
                ok = False
            except BaseException as e:
                ok = isinstance(e, seen)
                if not ok:
                    raise
            ctx.check(ok, f"{name}: a {exc.__name__} in evaluation {k} of {n} of the user's function did not reach the caller")
            fun.count()
            same(ctx, ref, op(), f"{name}, repeated after evaluation {k} of {n} failed with {exc.__name__}")
            # the very first use of new objects fails
            _, new = operations_on(*spaces())[name]
            fun.arm(k, exc)
            ctx.raises(new, f"{name}: a {exc.__name__} in evaluation {k} of {n} of the user's function did not reach the caller", seen)
            fun.count()
            same(ctx, ref, new(), f"{name}, on new objects, repeated after evaluation {k} of {n} failed with {exc.__name__}")
            ctx.note("faults_injected")
            ctx.distinct(name, k, exc.__name__)
        w.check(ctx, name)
    ctx.desc(operations=sorted(ops), cells=fs.n_cells)


def snap_tensors(dh):
    from fvm.checks.p24 import TENSORS

    return [getattr(dh, t).numpy().copy() for t in TENSORS]


def seeded(fn, s=5):
    st = np.random.get_state()
    np.random.seed(s)
    try:
        return fn()
    finally:
        np.random.set_state(st)


# ---------------------------------------------------------------- training
def k_train(ctx):
    """A loss, a constraint or the coefficients fail during training; training then goes on as if nothing had been."""
    r = ctx.rng
    kind = ["forward", "hard", "inverse", "domain"][ctx.i % 4]
    w = World(ctx)
    run = Run(ctx, kind)
    loss = Boom(None)
    orig = run.kw["loss_function"]

    def failing(**kw):
        loss.n += 1
        if loss.at is not None and loss.n == loss.at:
            raise loss.exc("the user's loss fails")
        return orig(**kw)

    kw = {**run.kw, "loss_function": failing}
    if kind == "hard":
        hc, base = Boom(None), run.kw["hard_constraint_function"] or (lambda x, u: u * 1.0)
        hc.f = base
        kw["hard_constraint_function"] = hc
        for k in (1,):
            hc.arm(k, ValueError)
            ctx.raises(lambda: MODELS[kind](**kw), "a failing constraint function did not stop the model from being built")
            hc.count()
    a, b = MODELS[kind](**kw), MODELS[kind](**{**kw, "loss_function": orig})
    ws = [r.normal(size=x.shape) * 0.5 if np.ndim(x) else x for x in a.get_weights()]
    a.set_weights([np.asarray(x) for x in ws]), b.set_weights([np.asarray(x) for x in ws])
    p = run.tensors(run.params())
    X = tf.constant(r.uniform(-1, 1, (6, 2)), run.dtype)
    before = snap_model(a, X)
    for exc in (ValueError, ArithmeticError, KeyError):
        loss.arm(1, exc)
        ctx.raises(lambda: a.train_step(beta=2, bilinear_params_dict=p), f"a {exc.__name__} in the loss did not reach the caller")
        loss.count()
        same(ctx, before, snap_model(a, X), f"the {kind} model after a failed training step")
        ctx.note("faults_injected")
    bad = dict(p)
    gone = sorted(bad)[0] if bad else None
    if gone:
        bad.pop(gone)
        ctx.raises(lambda: a.train_step(beta=2, bilinear_params_dict=bad), f"training without the coefficient {gone} did not fail")
        ctx.note("faults_injected")
    if kind != "hard":
        ctx.raises(lambda: a.train_step(beta="x", bilinear_params_dict=p), "training with a text as weight did not fail")
    same(ctx, before, snap_model(a, X), f"the {kind} model after failed training steps")
    if kind == "hard":
        hc.arm(1, RuntimeError)
        ctx.raises(lambda: a(X), "a failing constraint function did not stop a prediction")
        hc.count()
        same(ctx, before, snap_model(a, X), "predictions after one failed")
    for s in range(4):
        oa, ob = (m.train_step(beta=2, bilinear_params_dict=p) for m in (a, b))
        for k in ob:
            if k != "inverse_params":
                ctx.same(np.ravel(oa[k]), np.ravel(ob[k]), f"step {s} after failures: {k}")
        if s == 1:
            # a failure in the middle of training
            if gone:
                ctx.raises(lambda: a.train_step(beta=2, bilinear_params_dict=bad), "training without a coefficient did not fail")
            ctx.raises(lambda: a(tf.ones((3, 5), run.dtype)), "a prediction at points with five coordinates did not fail")
            ctx.note("faults_injected", 2)
    same(ctx, snap_model(b, X), snap_model(a, X), f"{kind} trained after failures against one without")
    w.check(ctx, "training")
    ctx.desc(**run.describe())
    ctx.distinct(run.describe())


# ---------------------------------------------------------------- files, plots, mesh generation
def saved_figures(fn):
    # (figures that a failed attempt left open stay open for its repetition)
    with Capture(write=False) as c:
        fn()
    plt.close("all")
    return [figure(s) for s in c.saved]


def figure(s):
    return repr([s["path"], [[a["title"], [(x.tolist(), y.tolist(), l) for x, y, l, v in a["lines"]], [(p.tolist()) for p, l, v in a["points"]], [(q.tolist(), c) for q, c in a["polygons"]], a["legend"]] for a in s["axes"]]])


def operations(ctx, w, d):
    """name -> operation on objects made here, in directory d; returns comparable results."""
    r = ctx.rng
    nx, ny = int(r.integers(1, 4)), int(r.integers(1, 4))
    m = W.quad_mesh(r, nmax=2)
    geo = api.Geometry_2D("quadrilateral", "internal", 4, 3, d, is_optimized=False)

    def generate():
        cells, bd = seeded(lambda: geo.generate_quad_mesh_internal(x_limits=[0, 1], y_limits=[-1, 1], n_cells_x=nx, n_cells_y=ny, num_boundary_points=12))
        return [np.array(cells), *[np.asarray(bd[k]) for k in sorted(bd)], np.frombuffer(open(os.path.join(d, "internal.vtk"), "rb").read(), np.uint8)]

    fname = W.write_medit(os.path.join(d, "e.mesh"), m)
    ext = api.Geometry_2D("quadrilateral", "external", 4, 3, d)
    samp = ["uniform", "lhs"][ctx.i % 2]

    def read():
        cells, bd = seeded(lambda: ext.read_mesh(mesh_file=fname, boundary_point_refinement_level=2, bd_sampling_method=samp, refinement_level=0))
        return [np.array(cells), *[np.asarray(bd[k]) for k in sorted(bd)], np.array(ext.get_test_points()), np.frombuffer(open(os.path.join(d, "external.vtk"), "rb").read(), np.uint8)]

    read()
    npts = len(ext.get_test_points())
    sol = r.normal(size=(npts, 3))

    def write():
        ext.write_vtk(sol, d, "out.vtk", ["Sol", "Exact", "Error"])
        return [np.frombuffer(open(os.path.join(d, "out.vtk"), "rb").read(), np.uint8)]

    def points():
        return [np.array(ext.get_test_points())]

    bd = {k: np.asarray(v, float) for k, v in w.bd.items()}
    fs = api.fespace(w.cells, bd, 2, "legendre", 3, f=lambda x, y: x + y, out=d)
    fs.mesh = w.ext.mesh
    dh = DataHandler2D(fs, w.geo, dtype=tf.float64)
    csv = os.path.join(d, "s.csv")
    np.savetxt(csv, r.normal(size=(20, 3)), delimiter=",", header="x,y,u", comments="")
    arr = np.abs(r.normal(size=9)) + 0.1
    loss = [float(v) for v in np.abs(r.normal(size=len(w.cells))) + 0.1]

    def build():
        s = api.fespace(w.cells, bd, 3, "jacobi", 3, f=lambda x, y: x - y, out=d, plot=True)
        return [s.get_shape_function_grad_x(0), s.get_forcing_function_values(0)]

    plots = {
        "plot of the mesh": lambda: fs.generate_plot(d),
        "plot of the residuals": lambda: w.geo_in(d).plot_adaptive_mesh(w.cells, loss, 3, "res"),
        "plot_loss_function": lambda: PU.plot_loss_function(arr, d),
        "plot_array": lambda: PU.plot_array(arr, d, "arr", "t"),
        "plot_multiple_loss_function": lambda: PU.plot_multiple_loss_function([arr, 2 * arr], d, "multi", ["a", "b"], "y", "t"),
        "plot_inverse_test_loss_function": lambda: PU.plot_inverse_test_loss_function(arr, d),
        "plot_test_loss_function": lambda: PU.plot_test_loss_function(arr, d, "p"),
        "plot_test_time_loss_function": lambda: PU.plot_test_time_loss_function(arr.cumsum(), arr, d),
        "plot_contour": lambda: PU.plot_contour(*np.meshgrid(np.arange(4.0), np.arange(3.0)), np.arange(12.0).reshape(3, 4), d, "contour", "t"),
        "plot_inverse_param_function": lambda: PU.plot_inverse_param_function(arr, "eps", 0.5, d, "eps"),
    }
    ops = {
        "generating a mesh": generate,
        "reading a mesh": read,
        "writing a solution": write,
        "test points": points,
        "building a space with a plot": build,
        "sensor data": lambda: [t.numpy() for t in seeded(lambda: dh.get_sensor_data(lambda x, y: x * y, 8, "internal"))],
        "sensor data from a file": lambda: [t.numpy() for t in seeded(lambda: dh.get_sensor_data(None, 8, "external", csv))],
    }
    for k, v in plots.items():
        ops[k] = (lambda v=v: saved_figures(v))
    return ops


def equal_results(ctx, a, b, what):
    if a and isinstance(a[0], str):
        ctx.check(a == b, f"{what}: the figures differ")
        ctx.note("figures_compared", len(a))
    else:
        same(ctx, a, b, what)


def k_files(ctx):
    """Every seam of every operation fails once: library calls, opening files, single writes."""
    r = ctx.rng
    w = World(ctx)
    d = os.path.join(ctx.scratch, "work")
    os.makedirs(d)

    def geo_in(dd):
        g = api.Geometry_2D("quadrilateral", "internal", 3, 3, dd)
        return g

    w.geo_in = geo_in
    ops = operations(ctx, w, d)
    names = sorted(ops)
    mine = names if ctx.total <= 1 else [n for k, n in enumerate(names) if (k + ctx.i) % 4 == 0]
    for name in mine:
        op = ops[name]
        plt.close("all")
        ref = op()
        with Plan(d, SEAMS) as plan:
            op()
        n = plan.n
        ctx.check(n > 0, f"{name}: no seam was seen")
        uses = {}
        for k, what in enumerate(plan.log, 1):
            uses.setdefault(what, []).append(k)
        ks = []
        for what, at in sorted(uses.items()):
            lim = 3 if ctx.tier == "quick" else 12
            ks += at if len(at) <= lim else sorted({at[0], at[-1], *[at[int(v)] for v in r.integers(0, len(at), lim)]})
        for k in ks:
            with Plan(d, SEAMS, at=k) as plan:
                try:
                    op()
                    reached = False
                except BaseException:
                    reached = True
            ctx.check(plan.fired, f"{name}: use {k} of a seam was not reached again")
            ctx.check(reached, f"{name}: the failure of '{plan.fired}' (use {k} of {n}) did not reach the caller")
            if r.integers(0, 2):
                w.check(ctx, f"{name}, failure of '{plan.fired}'")
            equal_results(ctx, ref, op(), f"{name}, repeated after '{plan.fired}' (use {k} of {n}) failed")
            ctx.note("faults_injected")
            ctx.distinct(name, plan.fired, k)
        w.check(ctx, name)
    ctx.desc(operations=mine)


def k_places(ctx):
    """Places that do not exist: missing folders and files, folders that are files, files cut short."""
    r = ctx.rng
    w = World(ctx)
    top = ctx.scratch
    blocked = os.path.join(top, "afile")
    open(blocked, "w").write("x")
    for bad in (os.path.join(top, "nowhere"), os.path.join(blocked, "below")):
        arr = np.abs(r.normal(size=5)) + 0.1
        bd = {k: np.asarray(v, float) for k, v in w.bd.items()}
        fs = api.fespace(w.cells, bd, 2, "legendre", 3, out=bad)
        ops = {
            "generating a mesh": lambda d: api.internal([0, 1], [0, 1], 1, 2, 8, d, optimized=False),
            "writing a solution": lambda d: w.ext.write_vtk(np.ones((len(w.ext.get_test_points()), 1)), d, "o.vtk", ["u"]),
            "plot of the mesh": lambda d: fs.generate_plot(d),
            "plot of the residuals": lambda d: api.Geometry_2D("quadrilateral", "internal", 3, 3, d).plot_adaptive_mesh(w.cells, [1.0] * len(w.cells), 1),
            "plot_loss_function": lambda d: PU.plot_loss_function(arr, d),
            "plot_array": lambda d: PU.plot_array(arr, d, "a", "t"),
            "plot_contour": lambda d: PU.plot_contour(*np.meshgrid(np.arange(3.0), np.arange(3.0)), np.arange(9.0).reshape(3, 3), d, "c", "t"),
            "plot_inverse_param_function": lambda d: PU.plot_inverse_param_function(arr, "e", 0.5, d, "e"),
        }
        for name, op in ops.items():
            with Capture():
                ctx.raises(lambda: op(bad), f"{name} in a folder that does not exist is not reported")
                ctx.note("faults_injected")
                good = os.path.join(top, "good_" + str(len(os.listdir(top))))
                os.makedirs(good)
                op(good)
            ctx.check(os.listdir(good), f"{name} wrote nothing after a failure")
            plt.close("all")
        w.check(ctx, "operations in missing folders")
    # a mesh file that is cut short, empty or missing, then the right one, with the same object
    m = W.quad_mesh(r, nmax=2)
    path = W.write_medit(os.path.join(top, "cut.mesh"), m)
    text = open(path).read()
    geo = api.Geometry_2D("quadrilateral", "external", 4, 4, top)
    read = lambda: seeded(lambda: geo.read_mesh(mesh_file=path, boundary_point_refinement_level=2, bd_sampling_method=["uniform", "lhs"][ctx.i % 2], refinement_level=0))
    result = lambda: (lambda c, b: [np.array(c), *[np.asarray(b[k]) for k in sorted(b)], np.array(geo.get_test_points())])(*read())
    ref = result()
    cuts = sorted({0, *[int(v) for v in r.integers(0, len(text), 8)]})
    for c in cuts:
        with open(path, "w") as f:
            f.write(text[:c])
        try:
            read()
        except (Exception, SystemExit):
            ctx.note("faults_injected")
        with open(path, "w") as f:
            f.write(text)
        same(ctx, ref, result(), f"a mesh read after its file was cut at {c} of {len(text)} bytes")
    os.remove(path)
    ctx.raises(read, "a missing mesh file is not reported", (Exception, SystemExit))
    with open(path, "w") as f:
        f.write(text)
    same(ctx, ref, result(), "a mesh read after its file was missing")
    # tables of sensor data
    bd = {k: np.asarray(v, float) for k, v in w.bd.items()}
    dh = DataHandler2D(api.fespace(w.cells, bd, 2, "legendre", 3, out=top), w.geo, dtype=tf.float64)
    csv = os.path.join(top, "t.csv")
    get = lambda: [t.numpy() for t in seeded(lambda: dh.get_sensor_data(None, 6, "external", csv))]
    ctx.raises(get, "a missing table is not reported")
    for bad in ("", "x,y\n1,2\n", "x,y,u\n1,2,text\n"):
        open(csv, "w").write(bad)
        ctx.raises(get, f"the table {bad!r} is not rejected")
        ctx.note("faults_injected")
    data = r.normal(size=(9, 3))
    np.savetxt(csv, data, delimiter=",", header="x,y,u", comments="")
    for row in np.concatenate(get(), axis=1):
        ctx.check(np.min(np.max(np.abs(data - row), axis=1)) < 1e-12, "a table read after failures gives other lines")
    w.check(ctx, "unreadable files")
    ctx.desc(cuts=cuts)


KINDS = {"user": k_user, "train": k_train, "files": k_files, "places": k_places}
