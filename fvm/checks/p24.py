"""P24: objects are isolated from each other and from their inputs."""
import copy
import importlib
import io
import contextlib
import subprocess
import sys

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D
from fvm.train import Run, Shadow

GETTERS = [
    "get_shape_function_val",
    "get_shape_function_grad_x",
    "get_shape_function_grad_x_ref",
    "get_shape_function_grad_y",
    "get_shape_function_grad_y_ref",
    "get_quadrature_actual_coordinates",
    "get_quadrature_weights",
    "get_forcing_function_values",
]
TENSORS = ["shape_val_mat_list", "grad_x_mat_list", "grad_y_mat_list", "x_pde_list", "forcing_function_list"]


def settings():
    """What a process shares: settings that no operation has to change."""
    import os
    import threading
    import warnings

    import matplotlib

    rc = {k: str(v) for k, v in matplotlib.rcParams.items() if k != "backend"}
    return {
        "numpy's print options": {k: str(v) for k, v in np.get_printoptions().items()}, "numpy's error handling": np.geterr(), "the working directory": os.getcwd(),
        "the environment": {k: v for k, v in os.environ.items() if k not in ("LINES", "COLUMNS")}, "keras's default type": tf.keras.backend.floatx(),
        "matplotlib's settings": rc, "the recursion limit": sys.getrecursionlimit(),
        "the warning filters": len(warnings.filters), "the output streams": (id(sys.stdout), id(sys.stderr)), "eager execution": tf.config.functions_run_eagerly(),
        "the mixed precision policy": tf.keras.mixed_precision.global_policy().name, "the module path": list(sys.path), "the umask": _umask(),
        "the backend": matplotlib.get_backend(), "builtins": id(open),
    }


def _umask():
    import os

    m = os.umask(0o22)
    os.umask(m)
    return m


def same_settings(ctx, a, what):
    b = settings()
    for k in a:
        ctx.check(a[k] == b[k], lambda: f"{what} changed {k}: " + (str([(n, a[k].get(n), b[k].get(n)) for n in set(a[k]) | set(b[k]) if a[k].get(n) != b[k].get(n)])[:300] if isinstance(a[k], dict) else f"{a[k]!r} became {b[k]!r}"))
    ctx.note("settings_compared", len(a))


def snap_space(fs):
    out = []
    for c in range(fs.n_cells):
        out += [np.array(getattr(fs, g)(c)) for g in GETTERS]
    x, y = fs.generate_dirichlet_boundary_data()
    return out + [np.array(x), np.array(y)]


def snap_handler(dh):
    a, b = dh.get_dirichlet_input()
    return [getattr(dh, t).numpy().copy() for t in TENSORS] + [a.numpy(), b.numpy()]


def snap_model(m, X):
    return [np.array(w) for w in m.get_weights()] + [m(X).numpy()]


def same(ctx, a, b, what):
    ctx.check(len(a) == len(b), f"{what}: {len(b)} results instead of {len(a)}")
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.same(y, x, f"{what} (result {k})")
        ctx.note("snapshots_compared")


def k_copies(ctx):
    """What a space hands out can be modified freely."""
    r = ctx.rng
    P = api.Problem(r, nmax=3, family=O.FAMILIES[ctx.i % 5], qtype=["gauss-legendre", "gauss-jacobi"][ctx.i % 2])
    ctx.desc(**P.describe())
    ref = snap_space(P.fs)
    th = snap_handler(P.dh)
    two = api.fespace(P.cells, P.bd, P.N, P.family, P.q, P.qtype, P.trans, lambda x, y: [P.f(x, y), x - y], P.bf)

    def snap_two():
        return [np.array(two.get_forcing_function_values_vector(c, k)) for c in range(two.n_cells) for k in (0, 1)]

    tv = snap_two()
    for turn in range(3):
        for c in range(P.fs.n_cells):
            for g in GETTERS:
                a = getattr(P.fs, g)(c)
                if isinstance(a, np.ndarray):
                    a[...] = r.normal(size=a.shape)
                ctx.note("arrays_modified")
        x, y = P.fs.generate_dirichlet_boundary_data()
        for v in list(x) + list(y):
            np.asarray(v)[...] = 1e9
        for c in range(P.fs.n_cells):
            for k in (0, 1):
                np.asarray(two.get_forcing_function_values_vector(c, k))[...] = np.nan
                ctx.note("arrays_modified")
        same(ctx, tv, snap_two(), f"turn {turn}: vector-valued loads, after the returned arrays were modified")
        same(ctx, ref, snap_space(P.fs), f"turn {turn}: after the returned arrays were modified")
        same(ctx, th, snap_handler(P.dh), f"turn {turn}: tensors of the handler")
    again = DataHandler2D(P.fs, None, dtype=P.dtype)
    same(ctx, th, snap_handler(again), "a second handler over the same space")
    ctx.distinct(P.describe())


def k_inputs(ctx):
    """Building and training leaves every argument as it was."""
    r = ctx.rng
    kind = ["forward", "hard", "inverse", "domain"][ctx.i % 4]
    m = W.quad_mesh(r, nmax=3, style=["unit", "perturbed", "rotated"][ctx.i % 3])
    cells = np.array([W.roll(r, q)[0] for q in m.cells])
    bd = {3: r.uniform(-1, 1, (4, 2)), 8: r.uniform(-1, 1, (3, 2))}
    if ctx.i % 8:
        bd[8] = [list(map(float, v)) for v in bd[8]]
    f, _ = W.smooth(r)
    bf, cond = {3: f, 8: api.zero}, {3: "dirichlet", 8: "dirichlet"}
    mesh = api.fake_mesh(cells)
    before = copy.deepcopy((cells, bd, cond, mesh.points, mesh.cells_dict))
    sets = settings()
    ids = {k: id(v) for k, v in {**bd}.items()}, {k: id(v) for k, v in bf.items()}
    fs = api.Fespace2D(
        mesh=mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=3, fe_type=O.FAMILIES[ctx.i % 5], quad_order=4,
        quad_type="gauss-legendre", fe_transformation_type="bilinear", bound_function_dict=bf, bound_condition_dict=cond,
        forcing_function=f, output_path=ctx.scratch, generate_mesh_plot=bool(ctx.i % 8 == 0),
    )
    dh = DataHandler2D(fs, None, dtype=tf.float64)
    snap_space(fs)

    def check(when):
        now = (cells, bd, cond, mesh.points, mesh.cells_dict)
        for a, b, n in zip(before, now, ("cells", "boundary points", "boundary conditions", "mesh points", "mesh cells")):
            ctx.check(repr(_plain(a)) == repr(_plain(b)), f"{when} changed the given {n}")
        ctx.check(({k: id(v) for k, v in bd.items()}, {k: id(v) for k, v in bf.items()}) == ids, f"{when} replaced entries of a given dictionary")
        ctx.note("inputs_compared", 6)

    check("building a space")
    lr = api.lr_dict(float(10 ** r.uniform(-4, -2)), bool((ctx.i // 4) % 2), int(r.integers(1, 50)), float(r.uniform(0.3, 1)), bool(r.integers(0, 2)))
    run = Run(ctx, kind, P=None, lr=lr, attention=bool((ctx.i // 8) % 2))
    kw = run.kw
    deep = run.given
    tens = {k: [t.numpy().copy() for t in _tensors(kw[k])] for k in ("input_tensors_list", "orig_factor_matrices", "force_function_list")}
    kinds = {k: (list(kw[k]), [id(v) for v in kw[k].values()]) for k in ("inverse_params_dict",) if k in kw}
    sens = [t.numpy().copy() for t in kw.get("sensor_list", [])]
    p = run.params()
    tp = run.tensors(p)
    keep = dict(tp)
    for s in range(4):
        run.model.train_step(beta=5, bilinear_params_dict=tp)
    run.model.get_config()
    ctx.check(set(tp) == set(keep) and all(tp[k] is keep[k] for k in tp), "training changed the given coefficients")
    for k, v in deep.items():
        ctx.check(_plain(kw[k]) == _plain(v), f"building or training a model changed the given {k}: {v} became {kw[k]}")
    for k, v in tens.items():
        now = [t.numpy() for t in _tensors(kw[k])]
        same(ctx, v, now, f"the given {k} after training")
    for k, (names, vid) in kinds.items():
        ctx.check(list(kw[k]) == names and [id(v) for v in kw[k].values()] == vid, f"a model replaced entries of the given {k}")
    same(ctx, sens, [t.numpy() for t in kw.get("sensor_list", [])], "the given sensor data after training")
    ctx.note("models_observed")
    check("training")
    same_settings(ctx, sets, "building and training")
    ctx.desc(model=kind, cells=len(cells))


def _tensors(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def _plain(v):
    if isinstance(v, dict):
        return {k: _plain(w) for k, w in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_plain(w) for w in v]
    return v


def k_shared(ctx):
    """Two users of the same arguments: the same results as with arguments of their own."""
    r = ctx.rng
    d = {"eps": 0.7 + float(r.uniform(0, 1)), "b_x": float(r.normal()), "k": 3}
    first = dict(d)
    P = api.Problem(r, nmax=2)
    h32, h64 = DataHandler2D(P.fs, None, dtype=tf.float32), P.dh
    for h in [h32, h64, h32] if ctx.i % 2 else [h64, h32, h64]:
        for get in (h.get_bilinear_params_dict_as_tensors, h.get_inverse_params):
            out = get(lambda: d)
            for k in first:
                ctx.check(d[k] is first[k], "a coefficient dictionary the caller keeps was changed")
                want = first[k] if h is h64 else float(np.float32(first[k]))
                ctx.check(out[k].dtype == h.dtype and float(out[k]) == want, f"coefficient {k} = {float(out[k])!r} ({out[k].dtype.name}), given {first[k]!r}")
                ctx.note("coefficients_compared")
    lr, layers = api.lr_dict(0.01, True, 3, 0.5), [2, 5, 1]
    X = tf.constant(r.uniform(-1, 1, (7, 2)), tf.float64)
    P.reference()
    kw = P.common(layers, lr)
    a, b = api.DenseModel(**kw), api.DenseModel(**kw)
    api.randomize(a, r), api.randomize(b, r)
    tp = {k: tf.constant(v, tf.float64) for k, v in P.params().items() if k in api.PARAMS["poisson"]}
    for s in range(8):
        k = int(r.integers(0, 2))
        u, v = [(a, b), (b, a)][k]
        keep = snap_model(v, X)
        own = snap_model(u, X)
        u.train_step(beta=3, bilinear_params_dict=tp)
        same(ctx, keep, snap_model(v, X), f"step {s}: the other model while one is trained")
        ctx.check(any(not np.array_equal(p, q) for p, q in zip(own, snap_model(u, X))), f"step {s}: the trained model did not move")
    # the optimisers are separate, too: a and b at the same state move alike from fresh optimisers only
    c, e = api.DenseModel(**kw), api.DenseModel(**kw)
    w = [r.normal(size=x.shape) for x in c.get_weights()]
    c.set_weights(w), e.set_weights(w)
    for s in range(3):
        c.train_step(beta=3, bilinear_params_dict=tp)
    for s in range(3):
        e.train_step(beta=3, bilinear_params_dict=tp)
    same(ctx, snap_model(c, X), snap_model(e, X), "two models from the same arguments and weights, one trained after the other")
    # arguments changed after construction have no influence
    layers.append(9), lr.update(initial_learning_rate=5.0, use_lr_scheduler=False)
    kw["params_dict"].update(n_cells=1)
    for m in (c, e):
        m.train_step(beta=3, bilinear_params_dict=tp)
    same(ctx, snap_model(c, X), snap_model(e, X), "after the arguments were changed")
    ctx.desc(coefficients=first)


class Actor:
    """One whole pipeline; a list of operations and, after each, a snapshot."""

    def __init__(self, ctx, seed, scratch):
        self.r = np.random.default_rng(seed)
        self.ops = []
        r = self.r
        self.kind = ["forward", "hard", "inverse", "domain"][int(r.integers(0, 4))]
        self.form = {"forward": "cd2d", "hard": "poisson", "inverse": "poisson_inverse", "domain": "cd2d_inverse_domain"}[self.kind]
        self.st = 0
        self.out = []
        self.scratch = scratch

    def advance(self):
        r, s = self.r, self.st
        self.st += 1
        if s == 0:
            self.geo, self.cells, bd = api.internal([0, 1], [0, float(r.uniform(1, 2))], int(r.integers(1, 4)), int(r.integers(1, 4)), 16, self.scratch)
            # boundary points are drawn from the global generator: replaced by known ones
            self.bd = {k: np.stack([np.linspace(0, 1, 3) + 0.1 * k % 1, np.linspace(0, 2, 3)], 1) for k in bd}
            self.X = tf.constant(r.uniform(0, 1, (5, 2)), tf.float64)
        elif s == 1:
            fam = O.FAMILIES[int(r.integers(0, 5))]
            f, g = W.smooth(r)[0], W.smooth(r)[0]
            self.P = api.Problem(r, self.form, order=int(r.integers(2, 5)), quad=int(r.integers(3, 6)), family=fam, cells=np.array(self.cells), bd=self.bd, f=f, g=g)
        elif s == 2:
            self.P.reference()
            kw = self.P.common([2, 6, 2 if self.kind == "domain" else 1])
            if self.kind in ("inverse", "domain"):
                kw["sensor_list"] = [tf.constant(r.uniform(0, 1, (4, 2)), tf.float64), tf.constant(r.normal(size=(4, 1)), tf.float64)]
            if self.kind == "inverse":
                kw["inverse_params_dict"] = {"eps": tf.constant(0.5, tf.float64)}
            if self.kind == "hard":
                k0, k1 = (float(v) for v in r.uniform(0.5, 2, 2))
                kw["hard_constraint_function"] = lambda x, u: k0 * u * x[:, 0:1] + k1
            from fvm.train import MODELS

            self.m = MODELS[self.kind](**kw)
            self.m.set_weights([r.normal(size=w.shape) * 0.5 if np.ndim(w) else w for w in self.m.get_weights()])
            self.p = {k: tf.constant(v, tf.float64) for k, v in self.P.params().items() if k in api.PARAMS[self.form] and not (self.kind == "inverse" and k == "eps")}
        else:
            o = self.m.train_step(beta=tf.constant(float(s), tf.float64), bilinear_params_dict=self.p)
            self.out.append(np.array([np.ravel(v)[0] for k, v in sorted(o.items()) if k != "inverse_params"]))
        return s

    def snapshot(self):
        s = self.st
        out = [np.array(self.cells), np.array(self.geo.mesh.points), np.array(self.geo.get_test_points())] if s > 0 else []
        if s > 1:
            out += snap_space(self.P.fs) + snap_handler(self.P.dh)
        if s > 2:
            out += snap_model(self.m, self.X) + list(self.out)
            if self.kind == "inverse":
                out.append(np.array(self.m.inverse_params_dict["eps"].numpy()))
        return out


def k_interleaved(ctx):
    """Pipelines run alone, and interleaved at random: the same results, and nothing moves that is not at work."""
    r = ctx.rng
    n = 3
    seeds = [int(r.integers(0, 2**31)) for _ in range(n)]
    steps = 3 + 3
    alone = []
    for k, sd in enumerate(seeds):
        a = Actor(ctx, sd, ctx.scratch)
        for _ in range(steps):
            a.advance()
        alone.append(a.snapshot())
    order = r.permutation(np.repeat(np.arange(n), steps))
    actors = [Actor(ctx, sd, ctx.scratch) for sd in seeds]
    last = [[] for _ in range(n)]
    for t, k in enumerate(order):
        actors[k].advance()
        last[k] = actors[k].snapshot()
        for j in range(n):
            if j != k:
                same(ctx, last[j], actors[j].snapshot(), f"turn {t}: pipeline {j} ({actors[j].kind}) while pipeline {k} ({actors[k].kind}) works")
        ctx.note("turns_observed")
    for k in range(n):
        same(ctx, alone[k], actors[k].snapshot(), f"pipeline {k} ({actors[k].kind}) interleaved against alone")
    ctx.desc(order=[int(v) for v in order], models=[a.kind for a in actors])
    ctx.distinct([int(v) for v in order])


MODULES = None


def modules():
    import os, pkgutil
    import fastvpinns

    global MODULES
    if MODULES is None:
        MODULES = sorted(
            m.name for m in pkgutil.walk_packages(fastvpinns.__path__, "fastvpinns.") if ".tests" not in m.name and "hyperparameter" not in m.name and not m.ispkg
        )
    return MODULES


def small_result():
    from fastvpinns.FE.fespace2d import Fespace2D

    cells = np.array([[[0, 0], [1, 0], [1.2, 1], [0, 1.1]]], float)
    out = []
    for fam in O.FAMILIES:
        fs = Fespace2D(
            mesh=api.fake_mesh(cells), cells=cells, boundary_points={1: [[0, 0]]}, cell_type="quadrilateral", fe_order=3, fe_type=fam, quad_order=4,
            quad_type="gauss-jacobi", fe_transformation_type="bilinear", bound_function_dict={1: api.zero}, bound_condition_dict={1: "dirichlet"},
            forcing_function=lambda x, y: np.sin(x) + y, output_path=".",
        )
        out += [fs.get_shape_function_val(0), fs.get_shape_function_grad_x(0), fs.get_shape_function_grad_y(0), fs.get_forcing_function_values(0)]
    return out


def k_imports(ctx):
    """Every order of importing the package's modules gives the same functions."""
    r = ctx.rng
    names = modules()
    ref = small_result()
    saved = {k: v for k, v in sys.modules.items() if k == "fastvpinns" or k.startswith("fastvpinns.")}
    attrs = {}
    for rep in range(6 if ctx.tier == "quick" else 20):
        order = [names[int(k)] for k in r.permutation(len(names))]
        if rep == 0:
            order = [names[ctx.i % len(names)]] + [n for n in order if n != names[ctx.i % len(names)]]
        try:
            for k in saved:
                sys.modules.pop(k, None)
            for n in order:
                try:
                    importlib.import_module(n)
                except Exception as e:
                    ctx.check(False, f"importing {n} fails with {type(e).__name__}: {e} after {order[: order.index(n)]}")
                ctx.note("modules_imported")
            same(ctx, ref, small_result(), f"functions after importing in the order {order[:4]}...")
        finally:
            for k in [k for k in sys.modules if k == "fastvpinns" or k.startswith("fastvpinns.")]:
                sys.modules.pop(k, None)
            sys.modules.update(saved)
        ctx.distinct(order)
        ctx.note("import_orders")
    ctx.desc(modules=len(names))


def k_process(ctx):
    """One module first, in a process of its own."""
    names = [n for n in modules() if ".FE." in n or ".Geometry." in n or ".data." in n or ".physics." in n or ".utils." in n]
    n = names[(7 * ctx.i) % len(names)]
    code = f"import {n}\nimport fastvpinns.FE.fespace2d, fastvpinns.Geometry.geometry_2d, fastvpinns.data.datahandler2d\nprint('imported')"
    p = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, timeout=300)
    ctx.check(p.returncode == 0 and "imported" in p.stdout, f"a process that imports {n} first fails: {p.stderr[-400:]}")
    ctx.desc(first=n)
    ctx.note("processes_observed")


def k_domain(ctx):
    """One geometry object used for several meshes, its results overwritten by the caller; several geometries alive."""
    r = ctx.rng
    geos = []
    for k in range(2):
        tx, ty = int(r.integers(2, 12)), int(r.integers(2, 12))
        geos.append([api.Geometry_2D("quadrilateral", "internal", tx, ty, ctx.scratch, is_optimized=True), tx, ty, None])
    files = []
    for k in range(2):
        m = W.quad_mesh(r, nmax=3, style=["unit", "perturbed"][k])
        files.append(W.write_medit(ctx.scratch + f"/m{k}.mesh", m, 2, "VEQ"))
    ext = api.Geometry_2D("quadrilateral", "external", 10, 10, ctx.scratch)
    wild = lambda a: np.asarray(a).__setitem__(Ellipsis, r.normal(size=np.shape(a)) * 1e3)
    for turn in range(10):
        k = int(r.integers(0, 2))
        g, tx, ty, dom = geos[k]
        if dom is None or r.integers(0, 3) == 0:
            dom = W.limits(r, int(r.integers(0, 7))), W.limits(r, int(r.integers(0, 7))), int(r.integers(1, 5)), int(r.integers(1, 5)), 4 * int(r.integers(1, 12))
            geos[k][3] = dom
            other = api.internal(list(dom[0]), list(dom[1]), *dom[2:])
            cells, bd = g.generate_quad_mesh_internal(x_limits=list(dom[0]), y_limits=list(dom[1]), n_cells_x=dom[2], n_cells_y=dom[3], num_boundary_points=dom[4])
            same(ctx, [np.array(other[1])], [np.array(cells)], f"turn {turn}: the cells of a geometry that was used before")
            for t in bd:
                # (the points along a side are drawn at random)
                ctx.check(np.shape(bd[t]) == np.shape(other[2][t]), f"turn {turn}: side {t} has {np.shape(bd[t])} points, expected {np.shape(other[2][t])}")
                ctx.check(np.all(np.min(np.abs(np.asarray(bd[t])[:, None, :] - np.array([*zip(*dom[:2])])[None]), axis=(1, 2)) <= 1e-12 * np.max(np.abs(dom[:2]))), f"turn {turn}: a point of side {t} is not on the boundary of the present domain")
            wild(cells)
            for t in bd:
                wild(bd[t])
            again = api.internal(list(dom[0]), list(dom[1]), *dom[2:])
            same(ctx, [np.array(other[1])], [np.array(again[1])], f"turn {turn}: the same mesh made again")
        for rep in range(2):
            T = g.get_test_points()
            xs, ys = np.linspace(*dom[0], tx), np.linspace(*dom[1], ty)
            want = np.array([[a, b] for b in ys for a in xs])
            ctx.check(np.shape(T) == want.shape, f"turn {turn}: {np.shape(T)} test points, expected {want.shape}")
            ctx.same(np.asarray(T), want, f"turn {turn}: test points of the present domain" + (", asked again after the caller changed the first answer" if rep else ""))
            wild(T)
            ctx.note("test_points_observed", len(want))
        f = files[int(r.integers(0, 2))]
        fresh = api.Geometry_2D("quadrilateral", "external", 10, 10, ctx.scratch)
        a = fresh.read_mesh(f, 0, "uniform", 0)
        b = ext.read_mesh(f, 0, "uniform", 0)
        same(ctx, [np.array(a[0]), *[np.array(a[1][t]) for t in sorted(a[1])]], [np.array(b[0]), *[np.array(b[1][t]) for t in sorted(b[1])]], f"turn {turn}: a mesh read by a reader that was used before")
        ta, tb = np.array(fresh.get_test_points()), ext.get_test_points()
        ctx.same(np.asarray(tb), ta, f"turn {turn}: test points of a mesh that was read")
        for v in [b[0], tb, *b[1].values()]:
            wild(v)
        ctx.note("arrays_modified", 6)
    ctx.note("domains_observed")
    ctx.desc(files=2, geometries=2)
    ctx.distinct(str([g[3] for g in geos]))


def k_factory(ctx):
    """Functions made by one factory (the same code, other values), and functions that read a value that changes: each is asked anew."""
    r = ctx.rng
    dt = [tf.float64, tf.float32][ctx.i % 2]
    cells = np.array([O.order_ccw(c) for c in W.quad_mesh(r, nmax=3).cells])
    bd = {3: r.uniform(-1, 1, (5, 2)), 8: r.uniform(-1, 1, (4, 2))}

    def make(v):
        return lambda x, y: v * (1.0 + x - 2 * y)

    def params(v):
        return lambda: {"eps": v, "b_x": 2 * v}

    def build(vf, v3, v8):
        fs = api.Fespace2D(
            mesh=api.fake_mesh(cells), cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=3, fe_type="legendre", quad_order=4,
            quad_type="gauss-legendre", fe_transformation_type="bilinear", bound_function_dict={3: make(v3), 8: make(v8)},
            bound_condition_dict={3: "dirichlet", 8: "dirichlet"}, forcing_function=make(vf), output_path=ctx.scratch, generate_mesh_plot=False,
        )
        return fs, DataHandler2D(fs, None, dtype=dt)

    base = np.array(build(1.0, 1.0, 1.0)[1].forcing_function_list.numpy(), float)
    eps = 1e-12 if dt == tf.float64 else 1e-5
    objs = []
    for k in range(3):
        vf, v3, v8 = (float(v) for v in r.uniform(0.5, 3, 3))
        objs.append((vf, v3, v8) + build(vf, v3, v8))
    for turn in range(2):
        for vf, v3, v8, fs, dh in objs:
            ctx.close(dh.forcing_function_list.numpy(), vf * base, eps, "forcing of a function from a factory", scale=3 * np.abs(base).max())
            ctx.close(fs.get_forcing_function_values(0)[:, 0], vf * base[:, 0], 1e-5, "forcing of a function from a factory", scale=3 * np.abs(base).max())
            x, y = dh.get_dirichlet_input()
            shape = 1 + bd[3][:, 0] - 2 * bd[3][:, 1], 1 + bd[8][:, 0] - 2 * bd[8][:, 1]
            ctx.close(y.numpy().ravel(), np.r_[v3 * shape[0], v8 * shape[1]], eps, "boundary values of functions from a factory", scale=10)
            for v in r.uniform(0.5, 3, 2):
                for got, names in ((dh.get_bilinear_params_dict_as_tensors(params(float(v))), "coefficients"), (dh.get_inverse_params(params(float(v))), "unknowns")):
                    for key, want in (("eps", v), ("b_x", 2 * v)):
                        ctx.check(abs(float(got[key]) - want) <= eps * 10, f"{names} of a function from a factory: {key} = {float(got[key])!r} instead of {want!r}")
            ctx.note("factories_observed")
    # a function whose values change between the calls
    state = {"v": 1.0}
    dh = objs[0][4]
    fs = objs[0][3]
    fs.bound_function_dict = {3: lambda x, y: state["v"] * x, 8: lambda x, y: state["v"] * y}
    for v in (2.0, 5.0, 2.0):
        state["v"] = v
        got = float(dh.get_bilinear_params_dict_as_tensors(lambda: {"eps": state["v"]})["eps"]), float(dh.get_inverse_params(lambda: dict(eps=state["v"]))["eps"])
        ctx.check(got == (v, v), f"coefficients of a function that returns {v} now: {got}")
    out = {"eps": 1.0}
    keep = lambda: out
    a = dh.get_bilinear_params_dict_as_tensors(keep)
    a["eps"] = None
    out["eps"] = 4.0
    b = dh.get_bilinear_params_dict_as_tensors(keep)
    ctx.check(float(b["eps"]) == 4.0 and out == {"eps": 4.0}, f"coefficients after the function's dictionary changed: {float(b['eps'])}")
    ctx.distinct(ctx.i)


def k_class(ctx):
    """Several models of one class with different arguments: each keeps to its own."""
    r = ctx.rng
    kind = ["forward", "hard", "inverse", "domain"][ctx.i % 4]
    X = r.uniform(-1, 1, (9, 2))
    runs = []
    for k in range(3):
        runs.append(Run(ctx, kind, nmax=1, cons=["tanh", "poly", "zero"][k] if kind == "hard" else None, act=["tanh", "sigmoid", "softplus"][k], attention=k == 1, lr=api.lr_dict(float(10 ** r.uniform(-4, -2)), bool(k), int(r.integers(1, 4)), 0.7)))
    ctx.desc(models=[u.describe() for u in runs])
    shadows = [Shadow(u) for u in runs]
    for s in range(9):
        k = int(r.integers(0, 3)) if s > 2 else [2, 0, 1][s]
        u = runs[k]
        beta, p = float(r.uniform(0, 20)), u.params()
        if u.attention:
            u.step(beta, p)
        else:
            out, (W0, i0), _ = shadows[k].observe(beta, p)
            u.compare_losses(out, u.expected(W0, i0, beta, p), f"{kind} {k} of three, step {s}")
        for j, v in enumerate(runs):
            want = v.predict(v.net(), X)[0]
            for how, got in (("called", v.model(tf.constant(X))), ("call", v.model.call(tf.constant(X)))):
                ctx.close(np.asarray(got), want, 1e-9, f"{kind} {j} of three ({how}) after a step of {k}", scale=float(np.max(np.abs(want))) + 10)
            ctx.note("class_predictions")
    ctx.distinct([u.describe() for u in runs])


KINDS = {"class": k_class, "factory": k_factory, "domain": k_domain, "copies": k_copies, "inputs": k_inputs, "shared": k_shared, "interleaved": k_interleaved, "imports": k_imports, "process": k_process}
