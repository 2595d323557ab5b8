"""P19: in the domain-inverse model, the first output is the solution and the second its diffusion coefficient."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O
from fvm.train import Run, Shadow


def k_steps(ctx):
    r = ctx.rng
    run = Run(ctx, "domain", dtype=[tf.float64, tf.float32][ctx.i % 4 == 3])
    ctx.desc(**run.describe())
    sh = Shadow(run)
    run.P.hostile = run.dtype == tf.float64
    for s in range(8):
        if s == 5:
            run.set_random(1.2)
        beta, p = float(run.cast(r.uniform(0, 20))), run.params()
        out, (W0, i0), _ = sh.observe(beta, p)
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
    X = run.cast(r.uniform(-1, 1, (20, 2)))
    got = run.model(tf.constant(X, dtype=run.dtype)).numpy()
    ctx.close(got, run.predict(run.net(), X)[0], 1e-10 if run.dtype == tf.float64 else 1e-5, "prediction of solution and coefficient", scale=10.0)
    ctx.distinct(run.describe())


def k_roles(ctx):
    """Moving one output at a time shows which loss it enters."""
    r = ctx.rng
    run = Run(ctx, "domain", lr=api.lr_dict(1e-300))
    ctx.desc(**run.describe())
    p = {k: float(v) for k, v in run.params().items()}
    for rep in range(3):
        run.set_random(0.8)
        base = run.step(3.0, p)
        for col in (0, 1):
            w = [a.copy() for a in run.model.get_weights()]
            w[-2][:, col] += r.normal(size=w[-2][:, col].shape)
            w[-1][col] += 1.0
            keep = run.model.get_weights()
            run.model.set_weights(w)
            new = run.step(3.0, p)
            run.model.set_weights(keep)
            moved = {k: abs(float(new[k]) - float(base[k])) > 1e-9 * (1e-3 + abs(float(base[k]))) for k in ("loss_dirichlet", "sensor_loss", "loss_pde")}
            ctx.check(moved["loss_pde"], f"output {col} does not enter the equation")
            for k in ("loss_dirichlet", "sensor_loss"):
                ctx.check(moved[k] == (col == 0), f"{k} {'ignores' if col == 0 else 'depends on'} output {col}")
            ctx.note("roles_observed")
    ctx.distinct(run.describe())


def k_constant(ctx):
    """With a constant coefficient the loss is that of the forward equation with that coefficient."""
    r = ctx.rng
    run = Run(ctx, "domain", lr=api.lr_dict(1e-300), nmax=3)
    for rep in range(3):
        run.set_random(0.8)
        eps = float(r.uniform(-1, 3))
        w = run.model.get_weights()
        w[-2][:, 1] = 0.0
        w[-1][1] = eps
        run.model.set_weights(w)
        p = run.params()
        got = run.step(2.0, p)
        n, nq = run.V.shape[0], run.V.shape[2]
        u, ux, uy = run.predict(run.net(), run.X)
        R = lambda a: a[:, 0].reshape(n, nq)
        want = O.losses("cd2d", run.V, run.GX, run.GY, R(u), R(ux), R(uy), run.F, {**p, "eps": eps}).sum()
        ctx.check(abs(float(got["loss_pde"]) - want) <= 1e-8 * max(want, run.expected(run.net(), {}, 2.0, p)["mag"]), f"constant coefficient {eps}: loss {got['loss_pde']!r}, the forward equation gives {want!r}")
        ctx.note("constant_coefficients")
    ctx.desc(**run.describe())
    ctx.distinct(run.describe())


def k_outputs(ctx):
    """Networks with further outputs: the first two keep their roles, the others play none."""
    r = ctx.rng
    out = 3 + ctx.i % 3
    run = Run(ctx, "domain", layers=[2, int(r.integers(3, 9)), int(r.integers(3, 9)), out])
    ctx.desc(**run.describe())
    sh = Shadow(run)
    for s in range(4):
        beta, p = float(r.uniform(0, 20)), run.params()
        o, (W0, i0), _ = sh.observe(beta, p)
        run.compare_losses(o, run.expected(W0, i0, beta, p), f"{out} outputs, step {s}")
    X = r.uniform(-1, 1, (20, 2))
    got = run.model(tf.constant(X)).numpy()
    ctx.check(got.shape == (20, out), f"the prediction of a network with {out} outputs has the shape {got.shape}")
    ctx.close(got, run.predict(run.net(), X)[0], 1e-10, "prediction of all outputs", scale=10.0)
    # the idle outputs: changing them changes nothing
    base = run.step(2.0, p)
    w = run.model.get_weights()
    for rep in range(2):
        lr0 = Run(ctx, "domain", P=run.P, layers=run.layers, act=run.act, lr=api.lr_dict(1e-300))
        lr0.model.set_weights([a for a in lr0.model.get_weights()])
        a = lr0.step(2.0, p)
        v = lr0.model.get_weights()
        v[-2][:, 2:] += r.normal(size=v[-2][:, 2:].shape)
        v[-1][2:] -= 3.0
        lr0.model.set_weights(v)
        b = lr0.step(2.0, p)
        for k in ("loss_pde", "loss_dirichlet", "sensor_loss", "loss"):
            ctx.check(abs(float(np.ravel(a[k])[0]) - float(np.ravel(b[k])[0])) <= 1e-10 * (1e-3 + abs(float(np.ravel(a[k])[0]))), f"{k} depends on an output after the second")
        ctx.note("roles_observed", out - 2)
    ctx.note("outputs_observed", out)
    ctx.distinct(run.describe())


def k_far(ctx):
    """Hundreds of steps of the two-output model."""
    r = ctx.rng
    run = Run(ctx, "domain", lr=api.lr_dict(float(10 ** r.uniform(-3.5, -2))), nmax=1)
    ctx.desc(**run.describe())
    run.fast = True
    sh = Shadow(run)
    p, beta = run.params(), float(r.uniform(0.5, 20))
    for s in range(300 if ctx.tier == "quick" else 2500):
        if s % 50 == 49:
            p, beta = run.params(), float(r.uniform(0.5, 20))
        out, (W0, i0), (W1, i1) = sh.observe(beta, p)
        if s % 10 == 9:
            run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        ctx.note("far_steps")
    ctx.distinct(run.describe())


def k_small(ctx):
    """Coefficients of every size, where nothing else is left in the equation."""
    r = ctx.rng
    P = api.Problem(r, "cd2d_inverse_domain", tf.float64, nmax=2, f=lambda x, y: 0.0 * x)
    run = Run(ctx, "domain", P=P, lr=api.lr_dict(1e-300))
    ctx.desc(**run.describe())
    p = {k: 0.0 for k in run.params()}
    for rep in range(8):
        run.set_random(0.8)
        s = float(10.0 ** r.uniform(-14, 6))
        w = run.model.get_weights()
        w[-2][:, 1] *= s
        w[-1][1] *= s
        run.model.set_weights(w)
        want = run.expected(run.net(), run.invs(), 2.0, p)
        run.compare_losses(run.step(2.0, p), want, f"a coefficient of size {s:.1e}")
        ctx.note("small_observed")
    ctx.distinct(run.describe(), s)


def k_sensors(ctx):
    """Thousands of sensors, and boundaries of thousands of points."""
    r = ctx.rng
    run = Run(ctx, "domain", nsens=int(r.integers(1000, 9000)), nmax=1)
    ctx.desc(**run.describe())
    sh = Shadow(run)
    for s in range(3):
        beta, p = float(run.cast(r.uniform(0, 20))), run.params()
        out, (W0, i0), _ = sh.observe(beta, p)
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"{len(run.sens[0])} sensors, step {s}")
        ctx.note("sensors_observed", len(run.sens[0]))
    ctx.distinct(run.describe())


KINDS = {"sensors": k_sensors, "small": k_small, "far": k_far, "outputs": k_outputs, "steps": k_steps, "roles": k_roles, "constant": k_constant}
