"""P17: with a hard constraint, the prediction satisfies the boundary data whatever the weights are."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.train import Run, Shadow, Hard


def rectangle(r, dtype, form="poisson"):
    lo = r.uniform(-2, 2, 2)
    hi = lo + r.uniform(0.4, 2.5, 2)
    nx, ny = int(r.integers(1, 4)), int(r.integers(1, 4))
    g, cells, bd = api.internal([lo[0], hi[0]], [lo[1], hi[1]], nx, ny, 4 * int(r.integers(1, 20)))
    return api.Problem(r, form, dtype, cells=cells, bd=bd), (lo, hi)


def on_boundary(r, lo, hi, n=40):
    t = r.uniform(0, 1, (n, 2))
    X = lo + t * (hi - lo)
    side = r.integers(0, 4, n)
    for k in range(n):
        X[k, side[k] // 2] = (lo, hi)[side[k] % 2][side[k] // 2]
    X[0], X[1], X[2], X[3] = lo, hi, (lo[0], hi[1]), (hi[0], lo[1])
    return X


def k_boundary(ctx):
    r = ctx.rng
    dt = [tf.float64, tf.float32][ctx.i % 3 == 2]
    form = ["poisson", "cd2d", "helmholtz"][ctx.i % 3]
    P, (lo, hi) = rectangle(r, dt, form)
    run = Run(ctx, "hard", form, P=P, cons=["poly", "tanh", "zero", "none"][ctx.i % 4], lr=api.lr_dict(float(10 ** r.uniform(-3, -1))))
    ctx.desc(**run.describe())
    B = run.cast(on_boundary(r, lo, hi))
    tol = 1e-11 if dt == tf.float64 else 3e-4
    for s in range(8):
        run.set_random(float(10 ** r.uniform(-1, 1.2))) if s % 3 == 0 else run.step(10.0, run.params())
        Wt = run.net()
        if run.cons.kind != "none":
            _, _, _, g, _, _ = run.cons.derivs(B)
            amp = 1 + np.abs(O.mlp(Wt, B, run.act)[0]).max() * (1e-5 if dt == tf.float64 else 1)
            ctx.close(run.model(tf.constant(B, dtype=dt)).numpy(), g, tol * amp, f"state {s}: prediction on the boundary", scale=1.0)
            ctx.note("boundary_predictions", len(B))
        # everywhere: the constraint applied to the plain network
        X = run.cast(lo + r.uniform(0, 1, (30, 2)) * (hi - lo))
        want = run.predict(Wt, X)[0]
        got = run.model(tf.constant(X, dtype=dt)).numpy()
        ctx.close(got, want, 1e-10 if dt == tf.float64 else 2e-4, f"state {s}: constrained prediction", scale=1 + np.abs(O.mlp(Wt, X, run.act)[0]).max())
        ctx.note("predictions", len(X))
    out = run.step(10.0, run.params())
    ctx.check(float(out["loss_dirichlet"]) == 0.0, "a boundary loss is reported although the boundary is satisfied by construction")
    ctx.check(abs(float(out["loss"]) - float(out["loss_pde"])) <= 1e-6 * abs(float(out["loss_pde"])), "the total loss is not the equation's loss")
    ctx.distinct(run.describe())


def k_training(ctx):
    """The constrained network is what is trained: losses and Adam steps with the constraint in the derivatives."""
    r = ctx.rng
    form = ["poisson", "cd2d", "helmholtz"][ctx.i % 3]
    P, _ = rectangle(r, tf.float64, form)
    run = Run(ctx, "hard", form, P=P, cons=["poly", "tanh", "none", "zero"][ctx.i % 4])
    ctx.desc(**run.describe())
    sh = Shadow(run)
    for s in range(6):
        beta, p = float(r.uniform(0, 50)), run.params()
        out, (W0, i0), _ = sh.observe(beta, p)
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
    ctx.distinct(run.describe())


def k_data(ctx):
    """Boundary data and boundary weight cannot influence the constrained training."""
    r = ctx.rng
    P, _ = rectangle(r, tf.float64, "poisson")
    a = Run(ctx, "hard", "poisson", P=P, cons="poly")
    kw = dict(a.kw)
    t = list(kw["input_tensors_list"])
    t[1] = tf.constant(r.uniform(-1, 1, t[1].shape))
    t[2] = tf.constant(r.normal(size=t[2].shape) * 100)
    kw["input_tensors_list"] = t
    b = api.DenseModel_Hard(**kw)
    b.set_weights(a.model.get_weights())
    for s in range(4):
        p = a.params()
        a.step(1.0, p)
        b.train_step(beta=tf.constant(50.0, tf.float64), bilinear_params_dict=a.tensors(p))
        for x, y in zip(a.model.get_weights(), b.get_weights()):
            ctx.same(x, y, "boundary data changed the training of a hard-constrained model")
    ctx.desc(**a.describe())
    ctx.note("independence_observed")


def k_attention(ctx):
    """The constraint sees the true points also when the network sees attention-weighted ones."""
    r = ctx.rng
    dt = [tf.float64, tf.float32][ctx.i % 2]
    P, (lo, hi) = rectangle(r, dt, "poisson")
    run = Run(ctx, "hard", ["poisson", "cd2d", "helmholtz"][ctx.i % 3], P=P, cons=["poly", "tanh", "zero"][ctx.i % 3], attention=True)
    ctx.desc(**run.describe(), attention=True)
    B = run.cast(on_boundary(r, lo, hi))
    f32 = dt == tf.float32
    for s in range(4):
        run.set_random(float(10 ** r.uniform(-1, 0.7))) if s % 2 == 0 else run.step(10.0, run.params())
        Wt = run.net()
        g = run.cons.derivs(B)[3]
        amp = 1 + np.abs(O.mlp(Wt, B, run.act)[0]).max() * (1 if f32 else 1e-5)
        ctx.close(run.model(tf.constant(B, dtype=dt)).numpy(), g, (3e-4 if f32 else 1e-11) * amp, f"state {s}, with attention: prediction on the boundary", scale=1.0)
        X = run.cast(lo + r.uniform(0, 1, (30, 2)) * (hi - lo))
        ctx.close(run.model(tf.constant(X, dtype=dt)).numpy(), run.predict(Wt, X)[0], 3e-4 if f32 else 1e-10, f"state {s}, with attention: constrained prediction", scale=1 + np.abs(O.mlp(Wt, X, run.act)[0]).max())
        ctx.note("boundary_predictions", len(B))
        ctx.note("attention_observed")


def k_counts(ctx):
    """Any number of points: none special, from a single one to very many, as tensors and as arrays."""
    r = ctx.rng
    dt = [tf.float64, tf.float32][ctx.i % 3 == 2]
    att = ctx.i % 4 == 1
    P, (lo, hi) = rectangle(r, dt)
    run = Run(ctx, "hard", None, P=P, cons=["poly", "tanh"][ctx.i % 2], attention=att)
    Wt, f32 = run.net(), dt == tf.float32
    for n in [1, 2, 3, int(r.integers(4, 200)), int(r.integers(1000, 2100)), 2 ** int(r.integers(8, 14)) + int(r.integers(-1, 2)), int(r.integers(5000, 30000))]:
        if att:
            n = min(n, int(r.integers(2100, 4300)))  # attention takes memory with the square of the number
        B = run.cast(on_boundary(r, lo, hi, max(n, 4))[:n] if n < 4 else on_boundary(r, lo, hi, n))
        X = run.cast(lo + r.uniform(0, 1, (n, 2)) * (hi - lo))
        g = run.cons.derivs(B)[3]
        for t in (tf.constant(B, dtype=dt), B.astype(dt.as_numpy_dtype)):
            amp = 1 + np.abs(O.mlp(Wt, B, run.act)[0]).max() * (1e-5 if not f32 else 1)
            ctx.close(run.model(t).numpy(), g, (3e-4 if f32 else 1e-11) * amp, f"prediction on the boundary at {n} points", scale=1.0)
        ctx.close(run.model(tf.constant(X, dtype=dt)).numpy(), run.predict(Wt, X)[0], 3e-4 if f32 else 1e-10, f"constrained prediction at {n} points", scale=1 + np.abs(O.mlp(Wt, X, run.act)[0]).max())
        ctx.note("boundary_predictions", n)
        ctx.note("counts_observed")
    ctx.desc(**run.describe(), attention=att)
    ctx.distinct(run.describe())


def k_far(ctx):
    """Hundreds of steps of the constrained network."""
    r = ctx.rng
    P, _ = rectangle(r, tf.float64, ["poisson", "cd2d", "helmholtz"][ctx.i % 3])
    run = Run(ctx, "hard", ["poisson", "cd2d", "helmholtz"][ctx.i % 3], P=P, cons=["poly", "tanh"][ctx.i % 2], lr=api.lr_dict(float(10 ** r.uniform(-3.5, -2))))
    ctx.desc(**run.describe())
    run.fast = True
    sh = Shadow(run)
    p, beta = run.params(), float(r.uniform(0.5, 20))
    for s in range(300 if ctx.tier == "quick" else 2500):
        if s % 50 == 49:
            p, beta = run.params(), float(r.uniform(0.5, 20))
        out, (W0, i0), (W1, i1) = sh.observe(beta, p)
        if s % 10 == 9:
            run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        ctx.note("far_steps")
    ctx.distinct(run.describe())


def k_forms(ctx):
    """Constraint functions that are not affine in the output of the network: bounded, never negative, with branches."""
    r = ctx.rng
    wrap = ["tanh", "square", "branch", "exp", "mixed"][ctx.i % 5]
    form = ["poisson", "cd2d", "helmholtz"][int(r.integers(0, 3))]
    P, (lo, hi) = rectangle(r, tf.float64, form)
    run = Run(ctx, "hard", form, P=P, cons=["poly", "tanh", "zero"][int(r.integers(0, 3))] + "/" + wrap)
    ctx.desc(**run.describe(), outer=wrap)
    sh = Shadow(run)
    for s in range(5):
        Wt = run.net()
        size = 1 + np.abs(O.mlp(Wt, P.X, run.act)[0]).max()
        B = on_boundary(r, lo, hi)
        ctx.close(run.model(tf.constant(B)).numpy(), run.cons.boundary(B), 1e-10 * size**2, f"step {s}: prediction on the boundary", scale=1.0)
        X = lo + r.uniform(0, 1, (40, 2)) * (hi - lo)
        ctx.close(run.model(tf.constant(X)).numpy(), run.predict(Wt, X)[0], 1e-9, f"step {s}: constrained prediction", scale=size**2)
        ctx.note("boundary_predictions", len(B))
        beta, p = float(r.uniform(0, 50)), run.params()
        out, (W0, i0), _ = sh.observe(beta, p)
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        ctx.note("forms_observed")
    ctx.distinct({**run.describe(), "outer": wrap})


KINDS = {"forms": k_forms, "far": k_far, "counts": k_counts, "attention": k_attention, "boundary": k_boundary, "training": k_training, "data": k_data}
