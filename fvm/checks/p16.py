"""P16: a training step is one Adam step on the total loss, at the scheduled learning rate."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O
from fvm.train import Run, Shadow, FORMS, perfect

KIND = ["forward", "hard", "inverse", "domain"]


def schedule(r, i):
    lr = float(10 ** r.uniform(-4, -1.3))
    k = i % 5
    if k == 0:
        return api.lr_dict(lr)
    if k == 1:
        return api.lr_dict(lr, True, int(r.integers(1, 5)), float(r.uniform(0.3, 0.95)), True)
    if k == 2:
        return api.lr_dict(lr, True, int(r.integers(1, 9)), float(r.uniform(0.3, 0.95)), False)
    if k == 3:  # off: the other entries must not matter
        return api.lr_dict(lr, False, 1, 0.1, bool(r.integers(0, 2)))
    return api.lr_dict(lr, True, 1, float(r.uniform(0.5, 1.2)), True)


def beta_of(run, r):
    wide = [] if run.dtype == tf.float32 else [float(10 ** r.uniform(-6, 7)), float(10 ** r.uniform(3, 7))]
    return float(run.cast(r.choice([0.0, 1.0, 10.0, 100.0, float(r.uniform(0, 30)), *wide])))


def k_steps(ctx):
    kind = KIND[ctx.i % 4]
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    run = Run(ctx, kind, form, [tf.float64, tf.float64, tf.float64, tf.float32][(ctx.i // 3) % 4], lr=schedule(ctx.rng, ctx.i))
    ctx.desc(**run.describe())
    sh = Shadow(run)
    run.P.hostile = run.dtype == tf.float64 and ctx.i % 2 == 0
    for s in range(9):
        sh.observe(beta_of(run, ctx.rng), run.params())
    ctx.distinct(run.describe())


def k_long(ctx):
    """Many steps, so that the schedule decays several times and the moments have a memory."""
    kind = KIND[ctx.i % 4]
    run = Run(ctx, kind, lr=schedule(ctx.rng, 1 + ctx.i % 2), nmax=1)
    ctx.desc(**run.describe())
    sh = Shadow(run)
    p, b = run.params(), [10.0, 1e6, 1e-4, 3e4][(ctx.i // 4) % 4]
    for s in range(40):
        sh.observe(b, p)
    ctx.distinct(run.describe())


def k_history(ctx):
    """Weights replaced from outside, and two models trained alternately: the moments are each model's own."""
    r = ctx.rng
    runs = [Run(ctx, KIND[(ctx.i + k) % 4], lr=schedule(r, ctx.i + k)) for k in range(2)]
    sh = [Shadow(x) for x in runs]
    for s in range(14):
        k = int(r.integers(0, 2))
        if r.integers(0, 4) == 0:
            runs[k].set_random()
        if r.integers(0, 4) == 0:  # a prediction between two steps changes nothing
            runs[k].model(tf.constant(r.uniform(-1, 1, (5, 2)), dtype=runs[k].dtype))
        sh[k].observe(beta_of(runs[k], r), runs[k].params(), f"model {k}, ")
    ctx.desc(models=[x.kind + "/" + x.form for x in runs])
    ctx.note("histories")


def k_perfect(ctx):
    """Parts of the loss that are exactly zero contribute nothing, and nothing that is not finite."""
    kind = KIND[ctx.i % 4]
    r = ctx.rng
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    for part in range(4):
        v = [0.0, 0.0, 0.0]
        if part:
            v[part - 1] = float(r.uniform(0.2, 2))
        if kind == "hard" and part > 1 or kind == "forward" and part == 3:
            continue
        run = perfect(ctx, kind, form, lr=schedule(r, ctx.i), f=v[0], g=v[1], s=v[2], acts=["tanh", "swish"][part % 2])
        sh = Shadow(run)
        p = run.params()
        for s in range(4):
            sh.observe(float(r.uniform(0.1, 20)), p, f"a zero network, forcing {v[0]}, boundary {v[1]}, sensors {v[2]}: ")
        ctx.note("perfect_observed")
    ctx.desc(**run.describe())
    ctx.distinct(run.describe())


def k_far(ctx):
    """Hundreds of steps of all models, under every form of the schedule."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    run = Run(ctx, kind, lr=[api.lr_dict(float(10 ** r.uniform(-4, -2.5))), api.lr_dict(float(10 ** r.uniform(-3.5, -2)), True, int(r.integers(20, 90)), float(r.uniform(0.7, 0.99)), bool(r.integers(0, 2)))][(ctx.i // 4 + ctx.i) % 2], nmax=1)
    ctx.desc(**run.describe())
    run.fast = True
    sh = Shadow(run)
    p, beta = run.params(), float(r.uniform(0.5, 20))
    for s in range(300 if ctx.tier == "quick" else 2500):
        if s % 50 == 49:
            p, beta = run.params(), float(r.uniform(0.5, 20))
        out, (W0, i0), (W1, i1) = sh.observe(beta, p)
        if s % 10 == 9:
            run.compare_losses(out, run.expected(W0, i0, beta, p), f"step {s}")
        ctx.note("far_steps")
    ctx.distinct(run.describe())


def k_later(ctx):
    """Training that continues after many steps: the count of the optimiser is set far ahead."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    lrs = [
        api.lr_dict(1e-2, True, 1, 0.01, False),
        api.lr_dict(float(10 ** r.uniform(-3, -2)), True, int(r.integers(50, 400)), float(r.uniform(0.9, 0.995)), bool(r.integers(0, 2))),
        api.lr_dict(float(10 ** r.uniform(-4, -2))),
        api.lr_dict(1e-6, True, 1000, 1.5, bool(r.integers(0, 2))),
    ]
    run = Run(ctx, kind, lr=lrs[(ctx.i // 4) % 4], nmax=1)
    ctx.desc(**run.describe())
    run.fast = True
    sh = Shadow(run)
    p, beta = run.params(), float(r.uniform(0.5, 20))
    for s in range(3):
        sh.observe(beta, p)
    # (powers and round numbers just ahead; the rates stay in the range of single precision, which keras computes them in)
    ahead = [8, 12] if lrs.index(run.lr) == 0 else [int(v) for v in (96, 252, 997, 1996, 4093, 9997, 19996, 20000 + r.integers(0, 5000))]
    for t in ahead:
        run.model.optimizer.iterations.assign(t)
        sh.t = t
        for s in range(6 if len(ahead) > 2 else 2):
            out, (W0, i0), _ = sh.observe(beta, p, f"{t} steps taken, ")
        run.compare_losses(out, run.expected(W0, i0, beta, p), f"after {t} steps")
        ctx.note("later_steps", 6 if len(ahead) > 2 else 2)
    ctx.distinct(run.describe(), t)


KINDS = {"later": k_later, "far": k_far, "perfect": k_perfect, "steps": k_steps, "long": k_long, "history": k_history}
