"""P29: the requested precision is honoured everywhere."""
import os

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D
from fvm.checks.p24 import TENSORS
from fvm.train import FORMS, Run, MODELS

KIND = ["forward", "hard", "inverse", "domain"]
PAIR = {"shape_val_mat_list": "get_shape_function_val", "grad_x_mat_list": "get_shape_function_grad_x", "grad_y_mat_list": "get_shape_function_grad_y"}


def awkward(r, *shape):
    """Numbers whose low bits single precision would lose."""
    a = r.uniform(-1, 1, shape) + 1.0 / 3.0
    return np.where(a.astype(np.float32) == a, a + 1e-11, a)


def exact(ctx, got, want, dt, what):
    """Bit for bit the value in double precision; its rounding in single precision."""
    ctx.check(tf.is_tensor(got) or isinstance(got, tf.Variable), f"{what} is not a tensor")
    ctx.check(got.dtype == dt, f"{what} has the type {got.dtype.name}, requested {dt.name}")
    w = np.asarray(want, np.float64).astype(dt.as_numpy_dtype)
    g = got.numpy()
    ctx.check(g.size == w.size, f"{what} has {g.size} entries instead of {w.size}")
    bad = np.flatnonzero(g.ravel() != w.ravel())
    ctx.check(bad.size == 0, lambda: f"{what}: entry {bad[0]} is {g.ravel()[bad[0]]!r}, the {dt.name} value of the data is {w.ravel()[bad[0]]!r}")
    ctx.note("values_observed", w.size)
    if dt == tf.float64:
        ctx.note("beyond_single", int(np.sum(w.astype(np.float32).astype(np.float64) != w)))


def k_data(ctx):
    """Everything a handler hands out, in both precisions, from one space."""
    r = ctx.rng
    P = api.Problem(r, nmax=3, family=O.FAMILIES[ctx.i % 5])
    fs = P.fs
    for order in ([tf.float32, tf.float64], [tf.float64, tf.float32])[ctx.i % 2]:
        dt = order
        # a domain for test points
        geo, _, _ = api.internal([0.1, 1.0 / 3], [-0.7, 0.9], 2, 2, 8, ctx.scratch, tx=5, ty=6)
        dh = DataHandler2D(fs, geo, dtype=dt)
        n = fs.n_cells
        for t, g in PAIR.items():
            exact(ctx, getattr(dh, t), np.stack([getattr(fs, g)(c) for c in range(n)]), dt, t)
        exact(ctx, dh.x_pde_list, np.concatenate([fs.get_quadrature_actual_coordinates(c) for c in range(n)]), dt, "quadrature points")
        exact(ctx, dh.forcing_function_list, np.concatenate([fs.get_forcing_function_values(c) for c in range(n)], 1), dt, "load vectors")
        x, y = fs.generate_dirichlet_boundary_data()
        di, do = dh.get_dirichlet_input()
        exact(ctx, di, np.array(x).reshape(-1, 2), dt, "boundary points")
        exact(ctx, di, np.concatenate([np.asarray(v)[:, :2] for v in P.bd.values()]), dt, "boundary points")
        exact(ctx, do, np.array(y).reshape(-1, 1), dt, "boundary values")
        exact(ctx, dh.get_test_points(), geo.get_test_points(), dt, "test points")
        vals = {"eps": float(awkward(r)), "b_x": 0.1, "c": np.float64(1.0 / 3), "k": 7, "b_y": float(np.pi)}
        for get in (dh.get_bilinear_params_dict_as_tensors, dh.get_inverse_params):
            out = get(lambda: dict(vals))
            for k, v in vals.items():
                exact(ctx, out[k], v, dt, f"coefficient {k}")
        # sensors, from a function and from a file
        seen = []

        def sol(a, b):
            seen.append((np.array(a), np.array(b)))
            return np.sin(a) + b / 3.0

        fs.mesh = geo.mesh
        pts, sv = dh.get_sensor_data(sol, 23, "internal")
        a, b = (np.ravel(np.concatenate([np.ravel(s[k]) for s in seen])) for k in (0, 1))
        exact(ctx, pts, np.stack([a, b], 1), dt, "sensor points")
        exact(ctx, sv, np.sin(a) + b / 3.0, dt, "sensor values")
        tab = awkward(r, 30, 3)
        f = os.path.join(ctx.scratch, "t.csv")
        np.savetxt(f, tab, delimiter=",", header="x,y,u", comments="", fmt="%.17g")
        pts, sv = dh.get_sensor_data(None, 9, "external", f)
        ctx.check(pts.dtype == dt and sv.dtype == dt, f"sensor data from a file have the types {pts.dtype.name}, {sv.dtype.name}")
        rows = np.concatenate([pts.numpy(), sv.numpy()], 1)
        T = tab.astype(dt.as_numpy_dtype)
        for row in rows:
            # the reader of tables may be off by a unit in the last place
            ctx.check(np.min(np.max(np.abs(T - row), 1)) <= (1e-15 if dt == tf.float64 else 0.0) * 4 + (1e-9 if dt == tf.float32 else 0), "sensor data from a file lost digits")
            ctx.note("values_observed", 3)
    for c in range(fs.n_cells):
        for g in PAIR.values():
            ctx.check(getattr(fs, g)(c).dtype == np.float64, f"{g} is not double precision")
    # two components of the boundary values and of the loads
    pair = lambda a, b: [np.sin(a) + b / 3.0, a / 7.0 + 0.1]
    two = api.fespace(P.cells, P.bd, f=pair, bf={k: pair for k in P.bd})
    at = np.concatenate([np.asarray(v, float)[:, :2] for v in P.bd.values()])
    for k in (0, 1):
        x, y = two.generate_dirichlet_boundary_data_vector(k)
        for what, got, want in (("points", x, at), ("values", y, np.array([pair(a, b)[k] for a, b in at]))):
            got = np.array(got)
            ctx.check(got.dtype == np.float64 and np.array_equal(got.ravel(), np.ravel(want)), f"boundary {what} of component {k} of a vector-valued problem are not those in double precision")
            ctx.note("vector_values_observed", got.size)
        for c in range(two.n_cells):
            X, B = two.get_quadrature_actual_coordinates(c), two.get_shape_function_val(c)
            v = np.array([pair(a, b)[k] for a, b in X])
            got = np.ravel(two.get_forcing_function_values_vector(c, k))
            err = np.abs(got - B @ v) / np.maximum(np.abs(B) @ np.abs(v), 1e-300)
            ctx.check(err.max() <= 1e-13, f"load vector of component {k}, cell {c}: off by {err.max():.1e} of the size of its terms")
            ctx.note("vector_values_observed", len(got))
    ctx.desc(**P.describe())
    ctx.distinct(P.describe())


def k_large(ctx):
    """The same for large tables, many boundary points, many sensors: size is no reason for fewer digits."""
    r = ctx.rng
    dt = [tf.float64, tf.float32][ctx.i // 3 % 2]
    N, q, side = [(int(r.integers(16, 21)), int(r.integers(17, 23)), 1), (int(r.integers(3, 5)), int(r.integers(48, 60)), 2), (2, 3, 22)][ctx.i % 3]
    m = W.structured(r, side, side, "perturbed")
    bd = {3: r.uniform(-1, 1, (int(r.integers(2, 4)) * 5000 + 7, 2)), 8: awkward(r, 30, 2)}
    P = api.Problem(r, dtype=dt, order=N, quad=q, cells=m[0][np.array(m[1])], bd=bd, family=O.FAMILIES[ctx.i % 5]).reference()
    fs, dh = P.fs, P.dh
    for t, g, want in (("shape_val_mat_list", "get_shape_function_val", P.V), ("grad_x_mat_list", "get_shape_function_grad_x", P.GX), ("grad_y_mat_list", "get_shape_function_grad_y", P.GY)):
        got = [getattr(fs, g)(c) for c in range(fs.n_cells)]
        ctx.check(all(v.dtype == np.float64 for v in got), f"{g} is not double precision")
        got = np.stack(got)
        ctx.close(got, want, 1e-11, f"{g} of {fs.n_cells} cells with {N * N} functions and {q * q} points")
        exact(ctx, getattr(dh, t), got, dt, t)
    X = np.concatenate([fs.get_quadrature_actual_coordinates(c) for c in range(fs.n_cells)])
    ctx.check(X.dtype == np.float64, "the quadrature points are not double precision")
    ctx.close(X, P.X, 1e-13, "quadrature points", scale=np.abs(P.X).max())
    exact(ctx, dh.x_pde_list, X, dt, "quadrature points")
    F = np.concatenate([fs.get_forcing_function_values(c) for c in range(fs.n_cells)], 1)
    ctx.close(F, P.F, 1e-11, "load vectors")
    exact(ctx, dh.forcing_function_list, F, dt, "load vectors")
    exact(ctx, P.din, P.DX, dt, "boundary points")
    exact(ctx, P.dout, P.DY, dt, "boundary values")
    n = int(r.integers(3000, 9000))
    geo, _, _ = api.internal([0.1, 1.0 / 3], [-0.7, 0.9], 2, 2, 8, ctx.scratch, tx=151, ty=160)
    fs.mesh = geo.mesh
    h = DataHandler2D(api.fespace(P.cells[:1], P.bd), geo, dtype=dt)
    h.fespace.mesh = geo.mesh
    seen = []

    def sol(a, b):
        seen.append((np.array(a), np.array(b)))
        return np.sin(a) + b / 3.0

    pts, sv = h.get_sensor_data(sol, n, "internal")
    a, b = (np.ravel(np.concatenate([np.ravel(s[k]) for s in seen])) for k in (0, 1))
    exact(ctx, pts, np.stack([a, b], 1), dt, "sensor points")
    exact(ctx, sv, np.sin(a) + b / 3.0, dt, "sensor values")
    exact(ctx, h.get_test_points(), geo.get_test_points(), dt, "test points")
    ctx.desc(**P.describe(), sensors=n)
    ctx.note("large_observed")
    ctx.distinct(P.describe(), n)


def k_cells(ctx):
    """Models of many cells, boundary points and sensors."""
    r = ctx.rng
    n = int(r.integers(8, 21))
    m = W.structured(r, n, n, "perturbed")
    bd = {2: r.uniform(-1, 1, (int(r.integers(2, 4)) * 1000 + 3, 2))}
    form = FORMS[KIND[ctx.i % 4]][ctx.i // 4 % len(FORMS[KIND[ctx.i % 4]])]
    P = api.Problem(r, form, tf.float64, order=2, quad=3, cells=m[0][np.array(m[1])], bd=bd, family=O.FAMILIES[ctx.i % 5])
    k_model(ctx, P, int(r.integers(1000, 3000)))
    ctx.note("many_cells_observed", n * n)


def k_model(ctx, P=None, nsens=None):
    """Predictions, losses and variables of every model; inputs that single precision cannot hold."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    dt = tf.float64 if P else [tf.float64, tf.float64, tf.float32][ctx.i % 3]
    fx = tf.keras.backend.floatx()
    run = Run(ctx, kind, P and P.form, dt, act=["tanh", "sigmoid", "swish", "softplus"][(ctx.i // 4) % 4], lr=api.lr_dict(1e-3), P=P, nsens=nsens)
    m = run.model
    ctx.desc(**run.describe())
    ctx.check(tf.keras.backend.floatx() == fx, "building a model changed the default precision")
    for v in list(m.weights) + list(m.trainable_variables):
        ctx.check(v.dtype == dt, f"a variable of the {kind} model has the type {v.dtype.name}, requested {dt.name}")
    P = run.P
    for name, t, w in (("points", "input_tensor", P.dh.x_pde_list), ("boundary points", "dirichlet_input", P.din), ("boundary values", "dirichlet_actual", P.dout)):
        t = getattr(m, t, w)
        ctx.check(t.dtype == dt and np.array_equal(t.numpy(), w.numpy()), f"the {kind} model changed its {name}")
    m.set_weights([awkward(r, *a.shape).astype(a.dtype) * 0.6 if np.ndim(a) else a for a in m.get_weights()])
    tol = 2e-14 if dt == tf.float64 else 2e-5
    for rep in range(3):
        X = awkward(r, int(r.integers(1, 60)), 2)
        W0 = run.net()
        want = run.predict(W0, run.cast(X))[0]
        for given in (tf.constant(X, dt), np.asarray(X, dt.as_numpy_dtype)):
            got = m(given)
            ctx.check(got.dtype == dt, f"the {kind} model predicts {got.dtype.name}, requested {dt.name}")
            size = np.max(np.abs(want)) + sum(np.abs(a).max() for a in W0) * max(a.shape[0] for a in W0)
            ctx.close(got.numpy(), want, tol, f"prediction of the {kind} model in {dt.name}", scale=float(size))
        # neighbouring points that are one in single precision
        if dt == tf.float64:
            d = 1e-9
            s = (m(tf.constant(X + [[d, 0]], dt)).numpy() - m(tf.constant(X, dt)).numpy()) / d
            w = run.predict(W0, X + [[d, 0]])[0] - want
            ctx.close(s, w / d, 3e-5, "difference of predictions at points that differ by 1e-9", scale=float(np.max(np.abs(w / d)) + size))
            ctx.note("close_points_observed", len(X))
        ctx.note("predictions_observed", len(X))
    p = run.params()
    for s in range(3):
        W0, inv = run.net(), run.invs()
        beta = float(run.cast(r.uniform(1, 9)))
        # tensors, or plain numbers
        plain = s == 1 and dt == tf.float64
        out = m.train_step(beta=beta if plain else tf.constant(beta, dt), bilinear_params_dict=p if plain else run.tensors(p))
        ctx.note("plain_numbers", int(plain))
        for k, v in out.items():
            for t in v.values() if isinstance(v, dict) else [v]:
                if tf.is_tensor(t) or isinstance(t, tf.Variable):
                    if kind == "hard" and k == "loss_dirichlet":
                        continue
                    ctx.check(t.dtype == dt, f"the reported {k} has the type {t.dtype.name}, requested {dt.name}")
        want = run.expected(W0, inv, beta, p)
        for k in ("loss_pde", "loss"):
            g = float(np.ravel(out[k])[0])
            e = abs(g - want[k]) / max(want["mag"], abs(want["loss"]), 1e-300)
            ctx.check(e <= (1e-12 if dt == tf.float64 else 1e-3), f"step {s} of the {kind} model in {dt.name}: {k} = {g!r}, in exact terms {want[k]!r} ({e:.1e})")
            ctx.note("losses_observed")
    for v in m.trainable_variables:
        ctx.check(v.dtype == dt, f"after training a variable has the type {v.dtype.name}")
    ctx.distinct(run.describe())


def k_mixed(ctx):
    """Models of both precisions alive at once, trained alternately."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    runs = [Run(ctx, kind, None, dt, lr=api.lr_dict(1e-3)) for dt in (tf.float32, tf.float64, tf.float32, tf.float64)]
    for t in range(16):
        run = runs[int(r.integers(0, 4))]
        X = awkward(r, 5, 2)
        want = run.predict(run.net(), run.cast(X))[0]
        got = run.model(tf.constant(X, run.dtype))
        ctx.check(got.dtype == run.dtype, f"turn {t}: the prediction has the type {got.dtype.name}")
        size = np.max(np.abs(want)) + sum(np.abs(a).max() for a in run.net()) * 12
        ctx.close(got.numpy(), want, 1e-14 if run.dtype == tf.float64 else 2e-5, f"turn {t}: {kind} in {run.dtype.name}", scale=float(size))
        run.step(float(run.cast(r.uniform(0, 5))), run.params())
        for v in run.model.trainable_variables:
            ctx.check(v.dtype == run.dtype, f"turn {t}: a variable has the type {v.dtype.name}")
        ctx.note("predictions_observed", 5)
    ctx.desc(kind=kind)
    ctx.note("histories")


def k_attention(ctx):
    """The attention option keeps the precision, too."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    dt = [tf.float64, tf.float64, tf.float32][ctx.i % 3]
    run = Run(ctx, kind, None, dt, act="tanh", lr=api.lr_dict(1e-3), attention=True)
    m = run.model
    ctx.desc(**run.describe(), attention=True)
    for rep in range(3):
        X = awkward(r, int(r.integers(1, 40)), 2)
        want = run.predict(run.net(), run.cast(X))[0]
        got = m(tf.constant(X, dt))
        ctx.check(got.dtype == dt, f"the {kind} model with attention predicts {got.dtype.name}, requested {dt.name}")
        size = np.max(np.abs(want)) + sum(np.abs(a).max() for a in run.net()) * max(a.shape[0] for a in run.net())
        ctx.close(got.numpy(), want, 1e-13 if dt == tf.float64 else 5e-5, f"prediction of the {kind} model with attention in {dt.name}", scale=float(size))
        ctx.note("predictions_observed", len(X))
    run.step(1.0, run.params())
    for v in m.trainable_variables:
        ctx.check(v.dtype == dt, f"after training a variable has the type {v.dtype.name}")
    ctx.note("attention_observed")


KINDS = {"cells": k_cells, "large": k_large, "attention": k_attention, "data": k_data, "model": k_model, "mixed": k_mixed}
