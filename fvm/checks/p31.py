"""P31: training makes progress and stays finite."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.train import MODELS, Run, perfect

FORM = {"forward": ["poisson", "cd2d", "helmholtz"], "hard": ["poisson", "cd2d"], "inverse": ["poisson_inverse", "cd2d_inverse"], "domain": ["cd2d_inverse_domain"]}
KIND = ["forward", "hard", "inverse", "domain"]


def params(r):
    return {"eps": float(r.uniform(0.5, 1.5)), "b_x": float(r.uniform(-1, 1)), "b_y": float(r.uniform(-1, 1)), "c": float(r.uniform(0, 1)), "k": float(r.uniform(0.5, 2))}


class Net:
    """A one-layer network as the exact solution: every equation's forcing in closed form."""

    def __init__(self, r, n=6, out=1):
        self.K = r.uniform(-1.5, 1.5, (2, n))
        self.b = r.uniform(-1, 1, n)
        self.w = r.uniform(-1, 1, (n, 1))
        self.c = r.uniform(-0.5, 0.5, 1)

    def __call__(self, x, y):
        return self.all(x, y)[0]

    def all(self, x, y):
        z = np.multiply.outer(x, self.K[0]) + np.multiply.outer(y, self.K[1]) + self.b
        t = np.tanh(z)
        d = 1 - t * t
        w = self.w[:, 0]
        u = t @ w + self.c[0]
        lap = (-2 * t * d) @ (w * (self.K**2).sum(0))
        return u, d @ (w * self.K[0]), d @ (w * self.K[1]), lap

    def forcing(self, form, p, coef=None):
        def f(x, y):
            u, ux, uy, lap = self.all(x, y)
            if form.startswith("poisson"):
                return -p["eps"] * lap
            if form == "helmholtz":
                return p["eps"] * lap + p["k"] ** 2 * u
            a = p["eps"] if coef is None else coef
            return -a * lap + p["b_x"] * ux + p["b_y"] * uy + p["c"] * u

        return f


class Linear:
    def __init__(self, r):
        self.a, self.b, self.c = (float(v) for v in r.uniform(-1.5, 1.5, 3))

    def __call__(self, x, y):
        return self.a + self.b * x + self.c * y

    def forcing(self, form, p):
        def f(x, y):
            u = self(x, y)
            if form.startswith("poisson"):
                return 0.0 * x
            if form == "helmholtz":
                return p["k"] ** 2 * u
            return p["b_x"] * self.b + p["b_y"] * self.c + p["c"] * u

        return f


def boundary(n):
    s = np.linspace(0, 1, n)
    return {1000: np.stack([s, 0 * s], 1), 1001: np.stack([0 * s + 1, s], 1), 1002: np.stack([s, 0 * s + 1], 1), 1003: np.stack([0 * s, s], 1)}


def grid(nx, ny, r=None):
    xs, ys = np.linspace(0, 1, nx + 1), np.linspace(0, 1, ny + 1)
    P = np.array([[x, y] for x in xs for y in ys])
    if r is not None:
        i = (P > 0).all(1) & (P < 1).all(1)
        P[i] += r.uniform(-0.12, 0.12, (int(i.sum()), 2)) / max(nx, ny)
    v = lambda a, b: P[a * (ny + 1) + b]
    return np.array([[v(a, b), v(a + 1, b), v(a + 1, b + 1), v(a, b + 1)] for a in range(nx) for b in range(ny)])


def problem(ctx, form, u, p, dtype=tf.float64, quad=6):
    r = ctx.rng
    cells = grid(int(r.integers(1, 4)), int(r.integers(1, 4)), r)
    fam = O.BUBBLES[int(r.integers(0, 4))]
    return api.Problem(r, form, dtype, order=int(r.integers(2, 4)), quad=quad, family=fam, trans="bilinear", cells=cells, bd=boundary(9), f=u.forcing(form, p), g=u)


def train(ctx, model, beta, tp, steps, what):
    b = tf.constant(beta, dtype=model.get_weights()[0].dtype)
    out = []
    for k in range(steps):
        o = model.train_step(beta=b, bilinear_params_dict=tp)
        v = float(np.ravel(o["loss"])[0])
        ctx.check(np.isfinite(v), f"{what}: the loss is {v} at step {k}")
        out.append(v)
    for w in model.get_weights():
        ctx.check(np.all(np.isfinite(w)), f"{what}: a weight is not finite after {steps} steps")
    ctx.note("steps_observed", steps)
    return np.array(out)


TEST = np.array([[x, y] for x in np.linspace(0.02, 0.98, 13) for y in np.linspace(0.02, 0.98, 13)])


def error(ctx, model, u, what):
    p = np.asarray(model(TEST.astype(model.get_weights()[0].dtype)), float)
    ctx.check(np.all(np.isfinite(p)), f"{what}: a prediction is not finite")
    e = u(TEST[:, 0], TEST[:, 1])
    return float(np.sqrt(np.mean((p[:, 0] - e) ** 2)))


def k_linear(ctx):
    """A linear solution, and a network without hidden layers: everything is representable and convex."""
    r = ctx.rng
    form = FORM["forward"][ctx.i % 3]
    p, u = params(r), Linear(r)
    dt = tf.float32 if ctx.i % 2 else tf.float64
    P = problem(ctx, form, u, p, dt)
    m = MODELS["forward"](**P.common([2, 1], api.lr_dict(0.05, True, 25, 0.8)))
    m.set_weights([r.uniform(-1, 1, w.shape).astype(w.dtype) for w in m.get_weights()])
    tp = {k: tf.constant(p[k], dtype=P.dtype) for k in api.PARAMS[form]}
    what = f"{form}, linear solution"
    e0 = error(ctx, m, u, what)
    L = train(ctx, m, 10.0, tp, 700, what)
    e1 = error(ctx, m, u, what)
    ctx.desc(**P.describe(), start=L[0], end=L[-1], error_start=e0, error_end=e1)
    ctx.check(L[-1] < 0.05 * L[0], f"{what}: the loss goes from {L[0]:.3e} to {L[-1]:.3e} only in 700 steps")
    ctx.check(e1 < 0.15 * e0, f"{what}: the error goes from {e0:.3e} to {e1:.3e} only in 700 steps")
    ctx.note("convergences_observed")


def near(r, u, scale):
    return [u.K + scale * r.uniform(-1, 1, u.K.shape), u.b + scale * r.uniform(-1, 1, u.b.shape), u.w + scale * r.uniform(-1, 1, u.w.shape), u.c + scale * r.uniform(-1, 1, u.c.shape)]


def k_network(ctx):
    """The solution is a network of the same size, and training starts in its neighbourhood."""
    r = ctx.rng
    form = FORM["forward"][ctx.i % 3]
    p, u = params(r), Net(r)
    P = problem(ctx, form, u, p, quad=8)
    m = MODELS["forward"](**P.common([2, 6, 1], api.lr_dict(0.01, True, 25, 0.85)))
    w = near(r, u, 0.15)
    m.set_weights(w)
    tp = {k: tf.constant(p[k], dtype=P.dtype) for k in api.PARAMS[form]}
    what = f"{form}, solution is a network"
    e0 = error(ctx, m, u, what)
    L = train(ctx, m, 10.0, tp, 500, what)
    e1 = error(ctx, m, u, what)
    ctx.desc(**P.describe(), start=L[0], end=L[-1], error_start=e0, error_end=e1)
    ctx.check(L[-1] < 0.1 * L[0], f"{what}: the loss goes from {L[0]:.3e} to {L[-1]:.3e} only in 500 steps")
    ctx.check(e1 < 0.5 * e0, f"{what}: the error goes from {e0:.3e} to {e1:.3e} only in 500 steps")
    ctx.note("convergences_observed")


def k_constant(ctx):
    """The unknown constant approaches the one the data were made with."""
    r = ctx.rng
    form = FORM["inverse"][ctx.i % 2]
    p, u = params(r), Net(r)
    P = problem(ctx, form, u, p, quad=8)
    s = r.uniform(0.05, 0.95, (25, 2))
    kw = P.common([2, 6, 1], api.lr_dict(0.01, True, 100, 0.8))
    kw["sensor_list"] = [tf.constant(s, P.dtype), tf.constant(u(s[:, 0], s[:, 1]).reshape(-1, 1), P.dtype)]
    start = p["eps"] * float(r.choice([r.uniform(0.6, 0.8), r.uniform(1.25, 1.5)]))
    kw["inverse_params_dict"] = {"eps": tf.constant(start, P.dtype)}
    m = MODELS["inverse"](**kw)
    w = near(r, u, 0.03)
    full = m.get_weights()
    it = iter(w)
    m.set_weights([a if np.ndim(a) == 0 else next(it) for a in full])
    tp = {k: tf.constant(p[k], dtype=P.dtype) for k in api.PARAMS[form] if k != "eps"}
    what = f"{form}, eps {p['eps']:.3f} from {start:.3f}"
    L = train(ctx, m, 10.0, tp, 1200, what)
    end = float(m.inverse_params_dict["eps"].numpy())
    ctx.desc(**P.describe(), start=L[0], end=L[-1], eps=p["eps"], eps_start=start, eps_end=end)
    ctx.check(np.isfinite(end) and abs(end - p["eps"]) < 0.8 * abs(start - p["eps"]), f"{what}: training ends at {end!r}")
    ctx.note("constants_observed")


def k_fitted(ctx):
    """The network fits boundary and sensors already, and only the constant is wrong: its first step goes the right way.

    With the solution in place of the network the residual is linear in the constant and vanishes at the right one only, so
    the gradient points away from it."""
    r = ctx.rng
    form = FORM["inverse"][ctx.i % 2]
    p, u = params(r), Net(r)
    dt = [tf.float64, tf.float32][ctx.i // 2 % 2]
    P = problem(ctx, form, u, p, dt, quad=8)
    tp = {k: tf.constant(p[k], dtype=P.dtype) for k in api.PARAMS[form] if k != "eps"}
    for noise in (0.0, 1e-9, 1e-5, 1e-2):
        s = r.uniform(0.05, 0.95, (25, 2))
        kw = P.common([2, 6, 1], api.lr_dict(1e-3))
        v = u(s[:, 0], s[:, 1]).reshape(-1, 1) + noise * r.uniform(-1, 1, (25, 1))
        kw["sensor_list"] = [tf.constant(s, P.dtype), tf.constant(v, P.dtype)]
        start = p["eps"] * float(r.choice([r.uniform(0.5, 0.8), r.uniform(1.25, 2)]))
        kw["inverse_params_dict"] = {"eps": tf.constant(start, P.dtype)}
        m = MODELS["inverse"](**kw)
        it = iter([u.K, u.b, u.w, u.c])
        m.set_weights([a if np.ndim(a) == 0 else next(it) for a in m.get_weights()])
        start = float(m.inverse_params_dict["eps"].numpy())
        what = f"{form}, a network that fits the sensors to {noise:.0e}, eps {p['eps']:.3f} from {start:.3f}"
        L = train(ctx, m, 10.0, tp, 1, what)
        end = float(m.inverse_params_dict["eps"].numpy())
        ctx.desc(**P.describe(), loss=L[0], eps=p["eps"], eps_start=start, eps_end=end)
        if L[0] > 1e-6:
            ctx.check(abs(end - p["eps"]) < abs(start - p["eps"]) - 1e-4, f"{what}: after a step of 0.001 the constant is {end!r}")
            ctx.note("fitted_observed")


def k_decrease(ctx):
    """Any start, any model: the loss goes down with a small learning rate."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    run = Run(ctx, kind, lr=api.lr_dict(3e-5), act=["tanh", "sigmoid", "swish", "softplus"][(ctx.i // 4) % 4])
    p = run.params()
    beta = float(r.uniform(0.5, 20))
    L = train(ctx, run.model, beta, run.tensors(p), 60, f"{kind}, {run.form}")
    ctx.desc(**run.describe(), start=L[0], end=L[-1])
    ctx.check(L[-1] < L[0], f"{kind}, {run.form}: the loss goes from {L[0]!r} to {L[-1]!r} in 60 small steps")
    W1 = run.net()
    want = run.expected(W1, run.invs(), beta, p)["loss"]
    ctx.check(np.isfinite(want) and want < L[0] * (1 + 1e-6), f"{kind}, {run.form}: the loss of the trained weights is {want!r}, it was {L[0]!r}")
    ctx.note("decreases_observed")


def k_long(ctx):
    """Long training at an ordinary learning rate stays finite, and the best loss is far below the first."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    form = FORM[kind][(ctx.i // 4) % len(FORM[kind])]
    dt = tf.float32 if (ctx.i // 2) % 2 else tf.float64
    p, u = params(r), Net(r, 4)
    cells = grid(2, 2)
    f = u.forcing(form, p, coef=p["eps"] if kind == "domain" else None)
    P = api.Problem(r, form, dt, order=3, quad=5, family=O.BUBBLES[ctx.i % 4], trans="bilinear", cells=cells, bd=boundary(9), f=f, g=u)
    run = Run(ctx, kind, form=form, lr=api.lr_dict(2e-3), act="tanh", layers=[2, 12, 12, 2 if kind == "domain" else 1], P=P, cons="tanh", scale=None)
    L = train(ctx, run.model, 10.0, run.tensors({k: p[k] for k in api.PARAMS[form] if not (kind == "inverse" and k == "eps")}), 800, f"{kind}, {form}")
    ctx.desc(**run.describe(), start=L[0], end=L[-1])
    ctx.check(L.min() < 0.75 * L[0], f"{kind}, {form}: the loss starts at {L[0]:.3e} and is never below {L.min():.3e} in 800 steps")
    y = np.asarray(run.model(TEST.astype(run.dtype.as_numpy_dtype)))
    ctx.check(np.all(np.isfinite(y)), f"{kind}, {form}: a prediction is not finite")
    ctx.note("long_runs_observed")


def k_perfect(ctx):
    """Training that starts where a part of the loss, or all of it, is zero stays finite."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    form = FORM[kind][(ctx.i // 4) % len(FORM[kind])]
    dt = [tf.float64, tf.float32][(ctx.i // 2) % 2]
    for part in range(4):
        v = [0.0, 0.0, 0.0]
        if part:
            v[part - 1] = float(r.uniform(0.2, 2))
        run = perfect(ctx, kind, form, dt, api.lr_dict(1e-3), *v, acts=["tanh", "sigmoid", "swish", "softplus"][(ctx.i + part) % 4])
        what = f"{kind}, {form}, from a zero network, forcing {v[0]}, boundary {v[1]}, sensors {v[2]}"
        L = train(ctx, run.model, 10.0, run.tensors(run.params()), 30, what)
        if part == 0:
            ctx.check(np.all(L == 0), f"{what}: the loss becomes {L.max()!r}")
        elif L[0] > 0 and not (kind == "hard" and part > 1):
            ctx.check(L[-1] < 1.5 * L[0], f"{what}: the loss goes from {L[0]!r} to {L[-1]!r} in 30 small steps")
        y = np.asarray(run.model(TEST.astype(run.dtype.as_numpy_dtype)))
        ctx.check(np.all(np.isfinite(y)), f"{what}: a prediction is not finite")
        ctx.note("perfect_observed")
    ctx.desc(**run.describe())
    ctx.distinct(run.describe())


def k_units(ctx):
    """The same problem in other units: solution, forcing and measurements of any size."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    form = FORM[kind][(ctx.i // 4) % len(FORM[kind])]
    s = float(10.0 ** r.uniform(-7, -4.5)) if ctx.i // 4 % 2 == 0 else float(10.0 ** r.uniform(1, 5))
    p, u = params(r), Net(r)
    P = api.Problem(r, form, tf.float64, order=3, quad=5, family=O.BUBBLES[ctx.i % 4], trans="bilinear", cells=grid(2, 2), bd=boundary(7), f=(lambda f: lambda x, y: s * f(x, y))(u.forcing(form, p)), g=lambda x, y: s * (1.0 + x + 0.3 * y))
    run = Run(ctx, kind, form=form, lr=api.lr_dict(3e-5 * min(s, 1.0)), act=["tanh", "sigmoid"][ctx.i // 8 % 2], P=P, cons="none", sval=s * float(r.uniform(0.5, 2)))
    # (all weights are moved by about as much in a step: the last layer is the one in units of the solution)
    full, last = run.model.get_weights(), len(run.net())
    k = -1
    for i, a in enumerate(full):
        if np.ndim(a):
            k += 1
            full[i] = a * s if k >= last - 2 else a
    run.model.set_weights(full)
    q, beta = run.params(), float(r.uniform(0.5, 20))
    w0 = run.net()
    what = f"{kind}, {form}, solution of size {s:.1e}"
    L = train(ctx, run.model, beta, run.tensors(q), 60, what)
    ctx.desc(**run.describe(), unit=s, start=L[0], end=L[-1])
    ctx.check(L[0] > 0 and L[-1] < L[0], f"{what}: the loss goes from {L[0]!r} to {L[-1]!r} in 60 small steps")
    ctx.check(any(not np.array_equal(a, b) for a, b in zip(w0, run.net())), f"{what}: no weight moves")
    ctx.note("units_observed")
    ctx.distinct(run.describe(), s)


KINDS = {"fitted": k_fitted, "units": k_units, "perfect": k_perfect, "linear": k_linear, "network": k_network, "constant": k_constant, "decrease": k_decrease, "long": k_long}
