"""P18: unknown constants are trained together with the network, from the given start value, and reported truthfully."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O
from fvm.api import DataHandler2D
from fvm.train import Run, Shadow

SETS = [["eps"], ["eps"], ["eps", "b_x"], ["eps", "b_x", "b_y", "c"], ["c"], ["b_y", "c"]]


def general(names):
    """A loss with any set of unknown coefficients, written over the published equation."""
    base = api.LOSS["cd2d"]

    def loss(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_dict):
        return base(
            test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function,
            {**bilinear_params, **{k: tf.convert_to_tensor(inverse_params_dict[k]) for k in names}},
        )

    return loss


def start(ctx, names=None, dt=tf.float64, form=None):
    r = ctx.rng
    form = form or ["poisson_inverse", "cd2d_inverse"][ctx.i % 2]
    loss = None
    if names is None or names == ["eps"]:
        names = ["eps"]
    else:
        form, loss = "cd2d_inverse", general(names)
    inv = {k: float(r.uniform(0.2, 2)) for k in names}
    if dt == tf.float64 and r.integers(0, 2):
        # small, zero, negative or large start values; small ones change their sign during training
        for k in inv:
            inv[k] = float(r.choice([inv[k], 0.0, -inv[k], float(10 ** r.uniform(-7, -2)), -float(10 ** r.uniform(-7, -2)), float(10 ** r.uniform(1, 3))]))
    return Run(ctx, "inverse", form, dt, inv=inv, loss=loss, lr=api.lr_dict(float(10 ** r.uniform(-4, -1.5)), bool(r.integers(0, 2)), 2, 0.8, bool(r.integers(0, 2))))


def k_steps(ctx):
    r = ctx.rng
    run = start(ctx, SETS[ctx.i % 6], [tf.float64, tf.float32][(ctx.i // 6) % 4 == 3])
    ctx.desc(**run.describe(), unknowns=run.inv0)
    for k, v in run.inv0.items():
        ctx.check(abs(run.invs()[k] - float(run.cast(v))) <= 1e-12, f"{k} starts at {run.invs()[k]} instead of {v}")
    sh = Shadow(run)
    run.P.hostile = run.dtype == tf.float64
    for s in range(9):
        beta, p = float(run.cast(r.uniform(0, 20))), run.params()
        out, (W0, i0), (W1, i1) = sh.observe(beta, p)
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        ctx.check(set(out["inverse_params"]) == set(run.inv0), f"the step reports the unknowns {sorted(out['inverse_params'])}, trained are {sorted(run.inv0)}")
        for k, v in out["inverse_params"].items():
            ctx.check(v == i1[k], f"step {s}: {k} is reported as {v!r} but is {i1[k]!r}")
            ctx.note("parameter_reports")
    ctx.distinct(run.describe(), sorted(run.inv0))


def k_same(ctx):
    """Several unknowns that start from one object stay unknowns of their own."""
    r = ctx.rng
    names = [n for n in SETS if len(n) > 1][ctx.i % 3]
    run = start(ctx, names, [tf.float64, tf.float64, tf.float32][(ctx.i // 3) % 3])
    v = float(r.uniform(0.3, 1.5))
    one = [tf.constant(v, run.dtype), tf.Variable(v, dtype=run.dtype), v, np.float64(v)][ctx.i % 4]
    run.inv0 = {k: v for k in names}
    run.kw["inverse_params_dict"] = {k: one for k in names}
    run.model = api.DenseModel_Inverse(**run.kw)
    run.set_random()
    ctx.desc(**run.describe(), unknowns=names, start=type(one).__name__)
    ctx.check(len({id(x) for x in run.model.inverse_params_dict.values()}) == len(names), "two unknowns are one variable")
    sh = Shadow(run)
    for s in range(6):
        beta, p = float(run.cast(r.uniform(0, 20))), run.params()
        out, (W0, i0), (W1, i1) = sh.observe(beta, p)
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        for k, x in out["inverse_params"].items():
            ctx.check(x == i1[k], f"step {s}: {k} is reported as {x!r} but is {i1[k]!r}")
        ctx.note("same_start_steps")
    vals = list(run.invs().values())
    ctx.check(len(set(vals)) == len(vals), f"unknowns with different gradients stay equal: {run.invs()}")


def k_start(ctx):
    """Start values of several types; through the data handler; the caller's dictionary is left alone."""
    r = ctx.rng
    dt = [tf.float64, tf.float32][ctx.i % 2]
    v = [float(r.uniform(0.1, 3)), -float(r.uniform(0.1, 3)), float(10 ** r.uniform(-9, -3)), float(10 ** r.uniform(2, 6)), 0.0, -float(10 ** r.uniform(-9, -3))][(ctx.i + ctx.i // 6) % 6]
    run0 = start(ctx, ["eps"], dt)
    forms = [v, np.float64(v), np.float32(v), tf.constant(v, dtype=dt), tf.Variable(v, dtype=dt), int(np.ceil(v))]
    for f in forms:
        given = {"eps": f}
        m = api.DenseModel_Inverse(**{**run0.kw, "inverse_params_dict": given})
        ctx.check(given["eps"] is f and list(given) == ["eps"], "the caller's dictionary of start values was changed")
        got = float(m.inverse_params_dict["eps"].numpy())
        ctx.check(abs(got - float(f)) <= 2e-7 * abs(float(f)), f"start value {f!r} became {got!r}")
        ctx.check(m.inverse_params_dict["eps"].dtype == dt, "the unknown does not have the requested precision")
        ctx.note("starts_observed")
    src = {"eps": v, "c": -1, "b_x": 0.25}
    fresh = run0.P.dh.get_inverse_params(lambda: dict(src))
    ctx.check(set(fresh) == set(src) and all(fresh[k].dtype == dt and abs(float(fresh[k]) - src[k]) <= 1e-6 * abs(src[k]) for k in src), f"start values from a function: {fresh}")
    ctx.desc(value=v, dtype=dt.name)


def k_shared(ctx):
    """Two models started from the same dictionary do not share their unknowns."""
    r = ctx.rng
    a = start(ctx)
    b = Run(ctx, "inverse", a.form, P=a.P, inv=a.inv0, lr=a.lr)
    b.kw["inverse_params_dict"] = a.kw["inverse_params_dict"]
    b.model = api.DenseModel_Inverse(**b.kw)
    b.set_random()
    S = [Shadow(a), Shadow(b)]
    for s in range(10):
        k = int(r.integers(0, 2))
        other = [b, a][k]
        keep = other.invs(), other.net()
        S[k].observe(float(r.uniform(0, 20)), [a, b][k].params(), f"model {k}, ")
        ctx.check(other.invs() == keep[0], "training one model moved the unknown of another")
        for x, y in zip(other.net(), keep[1]):
            ctx.same(x, y, "training one model moved the weights of another")
    ctx.desc(**a.describe())
    ctx.note("histories")


def k_far(ctx):
    """Hundreds of steps of the unknown constants."""
    r = ctx.rng
    run = start(ctx, SETS[(1 + ctx.i) % 6])
    ctx.desc(**run.describe())
    run.fast = True
    sh = Shadow(run)
    p, beta = run.params(), float(r.uniform(0.5, 20))
    for s in range(300 if ctx.tier == "quick" else 2500):
        if s % 50 == 49:
            p, beta = run.params(), float(r.uniform(0.5, 20))
        out, (W0, i0), (W1, i1) = sh.observe(beta, p)
        if s % 10 == 9:
            run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        for k, v in out["inverse_params"].items():
            ctx.check(v == i1[k], f"step {s}: {k} is reported as {v!r} but is {i1[k]!r}")
            ctx.note("parameter_reports")
        ctx.note("far_steps")
    ctx.distinct(run.describe())


KINDS = {"same": k_same, "far": k_far, "steps": k_steps, "start": k_start, "shared": k_shared}
