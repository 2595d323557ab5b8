"""P15: the losses a training step reports are those of the current network."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.train import Run, FORMS, MODELS, perfect

KIND = ["forward", "hard", "inverse", "domain"]


def watch(ctx, run, steps, what=""):
    r = ctx.rng
    run.P.hostile = bool(r.integers(0, 2))
    for s in range(steps):
        beta = float(run.cast(r.choice([0.0, 1.0, 10.0, 137.5, float(r.uniform(0, 50)), float(10 ** r.uniform(-6, 6))])))
        p = run.params()
        if s % 3 == 2:
            run.set_random(float(r.uniform(0.2, 1.5)))
        before, inv = run.net(), run.invs()
        got = run.step(beta, p)
        run.compare_losses(got, run.expected(before, inv, beta, p), f"{what}step {s} ({run.kind}, {run.form}, beta={beta})")
        ctx.note("steps_observed")


def k_steps(ctx):
    kind = KIND[ctx.i % 4]
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    run = Run(ctx, kind, form, [tf.float64, tf.float64, tf.float32][ctx.i % 3])
    ctx.desc(**run.describe())
    watch(ctx, run, 7 if ctx.tier == "quick" else 12)
    ctx.distinct(run.describe())


def k_default(ctx):
    """The documented default weight of the boundary term; plain numbers as weights."""
    kind = KIND[ctx.i % 4]
    run = Run(ctx, kind)
    ctx.desc(**run.describe())
    for s, beta in enumerate([None, 3, 0, 2.5, 0.0, None, 3, 0.1, 1234567.1, 0, 1]):
        p = run.params()
        before, inv = run.net(), run.invs()
        if beta is None:
            out = run.model.train_step(bilinear_params_dict=run.tensors(p))
            got = {k: np.asarray(v) for k, v in out.items() if not isinstance(v, dict)}
        else:
            got = run.step(beta, p, as_tensor=False)
        run.compare_losses(got, run.expected(before, inv, 10.0 if beta is None else beta, p), f"step {s} ({kind}, beta={beta})")
        ctx.note("steps_observed")
    ctx.distinct(run.describe())


def k_many(ctx):
    """Many cells, many boundary points, wide networks."""
    kind = KIND[ctx.i % 4]
    r = ctx.rng
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    P = api.Problem(r, form, tf.float64, nmax=9, order=2, quad=3, nb=int(r.integers(100, 800)))
    run = Run(ctx, kind, form, P=P, layers=[2, 40, 30, 2 if kind == "domain" else 1], nsens=200, scale=0.3)
    ctx.desc(**run.describe())
    watch(ctx, run, 4)
    ctx.distinct(run.describe())


def k_huge(ctx):
    """Thousands of quadrature points, boundary points and sensors."""
    kind = KIND[ctx.i % 4]
    r = ctx.rng
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    cells = W.structured(r, int(r.integers(20, 40)), int(r.integers(10, 30)), "perturbed")
    cells = cells[0][np.array(cells[1])]
    P = api.Problem(r, form, [tf.float64, tf.float32][(ctx.i // 4) % 2], cells=cells, order=2, quad=int(r.integers(3, 6)), nb=int(r.integers(3000, 9000)))
    run = Run(ctx, kind, form, P=P, layers=[2, 9, 9, 2 if kind == "domain" else 1], nsens=int(r.integers(2000, 9000)), scale=0.5)
    ctx.desc(**run.describe())
    watch(ctx, run, 3)
    ctx.note("huge_observed")
    ctx.distinct(run.describe())


def k_history(ctx):
    """Several models trained alternately: each reports its own losses."""
    r = ctx.rng
    P = api.Problem(r, "poisson", tf.float64, nmax=2)
    runs = [Run(ctx, "forward", f, P=P) for f in ("poisson", "cd2d")]
    runs.append(Run(ctx, KIND[1 + ctx.i % 3]))
    for k in range(12):
        run = runs[int(r.integers(0, 3))]
        watch(ctx, run, 1, f"turn {k}: ")
    ctx.desc(models=[x.kind + "/" + x.form for x in runs])
    ctx.note("histories")


def k_perfect(ctx):
    """Losses that are zero, in all parts or in some, and losses of all sizes."""
    kind = KIND[ctx.i % 4]
    r = ctx.rng
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    dt = [tf.float64, tf.float32][(ctx.i // 2) % 2]
    for part in range(4):
        v = [0.0, 0.0, 0.0]
        if part:
            v[part - 1] = float(r.choice([-1, 1]) * 2.0 ** int(r.integers(-20, 8)))
        run = perfect(ctx, kind, form, dt, f=v[0], g=v[1], s=v[2])
        beta, p = float(run.cast(r.uniform(0, 20))), run.params()
        before, inv = run.net(), run.invs()
        got, want = run.step(beta, p), run.expected(before, inv, beta, p)
        what = f"{kind}, {run.form}: a zero network, forcing {v[0]}, boundary {v[1]}, sensors {v[2]}"
        for k in ("loss_pde", "loss_dirichlet", "loss", "sensor_loss"):
            if k in want:
                x = float(np.ravel(got[k])[0])
                ctx.check(abs(x - want[k]) <= run.tol * want[k], f"{what}: {k} is {x!r}, expected {want[k]!r}")
                ctx.note("losses_observed")
        if part == 0:
            for k in range(3):
                got = run.step(beta, p)
                ctx.check(float(np.ravel(got["loss"])[0]) == 0.0, f"{what}: after {k + 1} steps the loss is {got['loss']!r}")
            for a, b in zip(before, run.net()):
                ctx.same(b, a, f"{what}: a weight")
        ctx.note("perfect_observed")
    # all sizes: the solution, the data and the output layer times one factor
    for a in (2.0 ** -int(r.integers(8, 19)), 2.0 ** int(r.integers(8, 12))):
        P = api.Problem(r, form, dt, nmax=2)
        F, G = P.f, P.g
        P = api.Problem(r, form, dt, cells=P.cells, f=lambda x, y: a * F(x, y), g=lambda x, y: a * G(x, y), bd=P.bd)
        run = Run(ctx, kind, form, P=P, sval=a * float(r.normal()))
        w = run.model.get_weights()
        last = [k for k in range(len(w)) if np.ndim(w[k]) > 0][-2:]
        for k in last:
            w[k] = w[k] * a
        run.model.set_weights(w)
        watch(ctx, run, 2, f"data of size {a}: ")
    ctx.desc(**run.describe())
    ctx.distinct(run.describe())


def k_infinite(ctx):
    """Undefined or infinite data: the reported losses are finite exactly where those of the network are."""
    kind = KIND[ctx.i % 4]
    r = ctx.rng
    form = FORMS[kind][(ctx.i // 4) % len(FORMS[kind])]
    dt = [tf.float64, tf.float32][(ctx.i // 2) % 2]
    parts = ["forcing", "none"] + ([] if kind == "hard" else ["boundary"]) + (["sensors"] if kind in ("inverse", "domain") else [])
    for part in parts:
        bad = [np.nan, np.inf, -np.inf][int(r.integers(0, 3))]
        run = Run(ctx, kind, form, dt)
        t = None
        kw = dict(run.kw)
        if part == "forcing":
            F = kw["force_function_list"].numpy()
            F[int(r.integers(0, F.shape[0])), int(r.integers(0, F.shape[1]))] = bad
            kw["force_function_list"] = tf.constant(F, dt)
        elif part == "boundary":
            t = [*kw["input_tensors_list"]]
            D = t[2].numpy()
            D[int(r.integers(0, len(D))), 0] = bad
            t[2] = tf.constant(D, dt)
            kw["input_tensors_list"] = t
        elif part == "sensors":
            S = kw["sensor_list"][1].numpy()
            S[int(r.integers(0, len(S))), 0] = bad
            kw["sensor_list"] = [kw["sensor_list"][0], tf.constant(S, dt)]
        m = MODELS[kind](**kw)
        m.set_weights(run.model.get_weights())
        run.model = m
        beta, p = float(run.cast(r.uniform(1, 9))), run.params()
        want = run.expected(run.net(), run.invs(), beta, p)
        got = run.step(beta, p)
        hit = {"forcing": ["loss_pde", "loss"], "boundary": ["loss_dirichlet", "loss"], "sensors": ["sensor_loss", "loss"], "none": []}[part]
        for k in ("loss_pde", "loss_dirichlet", "sensor_loss", "loss"):
            if k not in want:
                continue
            v = float(np.ravel(got[k])[0])
            what = f"{kind}, {run.form}, {bad} in the {part}: {k} = {v!r}"
            if k in hit:
                ctx.check(not np.isfinite(v), what + ", but the loss of the network is not finite")
            else:
                sc = {"loss_pde": want["mag"], "loss": max(want["mag"], want["loss"]), "loss_dirichlet": want["loss_dirichlet"] + 1e-6 * want.get("bmag", 0), "sensor_loss": want.get("sensor_loss", 0) + 1e-6 * want.get("smag", 0)}[k]
                ctx.check(abs(v - want[k]) <= run.tol * max(sc, 1e-300), what + f", the network has {want[k]!r}")
            ctx.note("losses_observed")
        ctx.note("undefined_observed")
    ctx.desc(**run.describe())
    ctx.distinct(run.describe())


KINDS = {"huge": k_huge, "infinite": k_infinite, "perfect": k_perfect, "steps": k_steps, "default": k_default, "many": k_many, "history": k_history}
