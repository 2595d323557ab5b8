"""P33: the model is the declared dense network."""
import functools

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.train import Run

KIND = ["forward", "hard", "inverse", "domain"]
ACTS = ["tanh", "sigmoid", "swish", "softplus", "linear", "relu", "elu", "softsign", "sin"]


def layers(r, kind):
    out = 2 if kind == "domain" else 1
    k = int(r.integers(0, 7))
    if k == 0:
        return [2, out]
    if k == 1:
        return [2, 1, out]
    if k == 2:
        return [2] + [int(r.integers(30, 120))] * int(r.integers(1, 5)) + [out]
    if k == 3:
        return [2] + [int(r.integers(2, 9)) for _ in range(int(r.integers(6, 13) if r.integers(0, 2) else r.integers(13, 40)))] + [out]
    if k == 4:
        return [2, int(r.choice([300, 513, 1100])), out]
    return [2] + [int(r.integers(1, 40)) for _ in range(int(r.integers(1, 6)))] + [out]


def make(ctx, kind=None, dtype=None, act=None, lay=None, attention=False):
    r = ctx.rng
    kind = kind or KIND[ctx.i % 4]
    dtype = dtype or (tf.float32 if r.integers(0, 2) else tf.float64)
    act = act or ACTS[(ctx.i // 4) % len(ACTS)]
    arg = {"sin": tf.sin}.get(act) or (getattr(tf.nn, act) if act in ("tanh", "relu", "softplus") and r.integers(0, 4) == 0 else act)
    run = Run(ctx, kind, dtype=dtype, act=act, act_arg=arg, layers=lay or layers(r, kind), nmax=1, scale=None, attention=attention)
    return run


def weights(ctx, run):
    """Shapes of the declared network, and nothing else but the unknown constants."""
    L = run.layers
    want = []
    for a, b in zip(L, L[1:]):
        want += [(a, b), (b,)]
    got = [w.shape for w in run.net()]
    ctx.check(got == want, f"{run.kind}: layers {L} give weights {got}")
    n = sum(int(np.prod(s)) for s in want) + (len(run.inv0) if run.kind == "inverse" else 0)
    tr = sum(int(np.prod(v.shape)) for v in run.model.trainable_variables)
    ctx.check(tr == n, f"{run.kind}: {tr} trainable numbers, the declared network has {n}")
    for w in run.model.get_weights():
        ctx.check(np.all(np.isfinite(w)), "a weight is not finite")
        ctx.check(w.dtype == run.dtype.as_numpy_dtype, f"weights of type {w.dtype}")
    for k, w in enumerate(run.net()):
        if w.ndim == 2 and w.size > 3:
            ctx.check(np.std(w) > 0, f"the kernel of layer {k // 2} starts constant")
    ctx.note("networks_observed")


def ask(run, X, how=0):
    X = np.asarray(X, run.dtype.as_numpy_dtype)
    m = run.model
    if how == 0:
        y = m(X)
    elif how == 1:
        y = m(tf.constant(X, dtype=run.dtype))
    elif how == 2:
        y = m.predict(tf.constant(X, dtype=run.dtype), verbose=0)  # keras casts numpy arrays to single precision
    elif how == 3:
        y = m.call(tf.constant(X, dtype=run.dtype))
    else:
        y = tf.function(m)(tf.constant(X, dtype=run.dtype))
    return np.asarray(y, np.float64)


def named(name, fn):
    fn.__name__ = name
    fn.__qualname__ = name
    return fn


# functions of the user's own, some with the names of known ones
OWN = {
    "own tanh": lambda a: named("tanh", lambda z: tf.tanh(a * z)),
    "own relu": lambda a: named("relu", lambda z: tf.tanh(z) + a * z),
    "own lambda": lambda a: (lambda z: tf.sin(a * z)),
    "own partial": lambda a: functools.partial(lambda c, z: c * tf.sin(z), a),
    "own object": lambda a: Callable(a),
    "own sigmoid": lambda a: named("sigmoid", lambda z: tf.sigmoid(z) - a),
}
OWN_NUMPY = {
    "own tanh": lambda a, z: np.tanh(a * z),
    "own relu": lambda a, z: np.tanh(z) + a * z,
    "own lambda": lambda a, z: np.sin(a * z),
    "own partial": lambda a, z: a * np.sin(z),
    "own object": lambda a, z: a * z / (1 + z * z),
    "own sigmoid": lambda a, z: 1 / (1 + np.exp(-z)) - a,
}


class Callable:
    def __init__(self, a):
        self.a = a

    def __call__(self, z):
        return self.a * z / (1 + z * z)


def k_own(ctx):
    """Activations given as functions of the user's own, whatever their names."""
    r = ctx.rng
    name = list(OWN)[ctx.i % len(OWN)]
    a = float(r.uniform(0.4, 1.7))
    kind = KIND[int(r.integers(0, 4))]
    run = Run(ctx, kind, dtype=tf.float64, act="tanh", act_arg=OWN[name](a), layers=[2] + [int(r.integers(2, 9)) for _ in range(int(r.integers(1, 4)))] + [2 if kind == "domain" else 1], nmax=1, scale=None, cons="none")
    ctx.desc(**run.describe(), own=name, factor=a)
    for state in range(2):
        X = points(r, 20, run)
        Wt, h = run.net(), X
        for i in range(len(Wt) // 2):
            h = h @ Wt[2 * i] + Wt[2 * i + 1]
            h = OWN_NUMPY[name](a, h) if i < len(Wt) // 2 - 1 else h
        for how in (0, 1, 3):
            ctx.close(ask(run, X, how), h, 1e-11, f"{kind}: the network with the activation '{name}'", scale=1 + np.max(np.abs(h)))
        ctx.note("own_activations_observed")
        run.step(10.0, run.params())
    ctx.distinct(name, kind, tuple(run.layers))


def points(r, n, run):
    k = int(r.integers(0, 4))
    if k == 0:
        X = r.uniform(0, 1, (n, 2))
    elif k == 1:
        X = r.uniform(-3, 3, (n, 2))
    elif k == 2:
        X = np.stack([r.uniform(0, 1, n), np.full(n, 0.25)], 1)
    else:
        X = np.repeat(r.uniform(-1, 1, (max(1, n // 3), 2)), 3, 0)[:n]
        X = np.concatenate([X, r.uniform(-1, 1, (n - len(X), 2))])
    return run.cast(X)


def compare(ctx, run, X, got, what):
    want = run.predict(run.net(), X)[0]
    # how much rounding there is depends on the sizes that are added up
    Wt = run.net()
    mag, h = 1.0, np.asarray(X, float)
    f = O.ACT[run.act][0]
    for i in range(len(Wt) // 2):
        mag = max(mag, float(np.max(np.abs(h) @ np.abs(Wt[2 * i]) + np.abs(Wt[2 * i + 1]))))
        h = h @ Wt[2 * i] + Wt[2 * i + 1]
        h = f(h) if i < len(Wt) // 2 - 1 else h
    f32 = run.dtype == tf.float32
    tol = (3e-5 if f32 else 1e-12) * len(run.layers)
    sc = mag * max(1.0, float(np.max(np.abs(run.cons.derivs(X)[0]))) if run.cons else 1.0)
    sc = max(sc, float(np.max(np.abs(want))))
    ctx.close(got, want, tol, f"{run.kind} {run.layers} {run.act}: {what}", scale=sc)
    ctx.note("predictions_observed", len(X))
    return tol * sc


def k_random(ctx):
    r = ctx.rng
    run = make(ctx)
    ctx.desc(**run.describe())
    weights(ctx, run)
    X = points(r, int(r.integers(1, 60)), run)
    compare(ctx, run, X, ask(run, X), "initial weights")
    for k in range(2):
        run.set_random(float(r.uniform(0.2, 1.2)) / np.sqrt(max(1, max(run.layers) / 12)))
        X = points(r, int(r.integers(1, 200)), run)
        hows = [0, 1, 3, 4] + ([2] if ctx.i % 6 == 0 else [])
        how = int(ctx.pick(hows))
        compare(ctx, run, X, ask(run, X, how), f"asked in way {how}")


def k_subsets(ctx):
    """A prediction does not depend on its company."""
    r = ctx.rng
    run = make(ctx)
    ctx.desc(**run.describe())
    run.set_random(0.9 / np.sqrt(max(1, max(run.layers) / 12)))
    n = int(r.integers(2, 300))
    X = points(r, n, run)
    all_ = ask(run, X)
    eps = compare(ctx, run, X, all_, "all points")
    near = lambda a, b, what: ctx.close(a, b, 1.0, f"{run.kind} {run.layers} {run.act}: {what}", scale=max(eps, 1e-300))
    ctx.same(ask(run, X), all_, "the same question asked again")
    p = r.permutation(n)
    near(ask(run, X[p]), all_[p], "points in another order")
    for j in r.integers(0, n, 5):
        near(ask(run, X[j : j + 1]), all_[j : j + 1], f"point {j} alone")
        ctx.note("subsets_observed")
    k = int(r.integers(1, n))
    near(np.concatenate([ask(run, X[:k]), ask(run, X[k:])]), all_, "points asked in two batches")
    s = r.permutation(n)[: int(r.integers(1, n + 1))]
    near(ask(run, X[s]), all_[s], "some of the points")
    far = np.concatenate([X, run.cast(r.uniform(-1, 1, (int(r.integers(1, 50)), 2)) * 10)])
    near(ask(run, far)[:n], all_, "points together with others")
    dup = np.concatenate([X, X])
    near(ask(run, dup), np.concatenate([all_, all_]), "every point twice")
    ctx.same(ask(run, X), all_, "the first question asked again at the end")
    ctx.note("subsets_observed", 6)


def k_history(ctx):
    """Training and new weights change the prediction as the weights say, and nothing else does."""
    r = ctx.rng
    run = make(ctx, act=["tanh", "sigmoid", "swish", "softplus"][(ctx.i // 4) % 4])
    ctx.desc(**run.describe())
    X = points(r, 40, run)
    old = None
    for k in range(4):
        if k:
            run.step(10.0, run.params())
        got = ask(run, X, int(r.integers(0, 2)))
        compare(ctx, run, X, got, f"after {k} training steps")
        if old is not None:
            ctx.check(not np.array_equal(got, old), "training does not change the prediction")
        old = got
        before = [w.copy() for w in run.model.get_weights()]
        ask(run, points(r, 17, run))
        for a, b in zip(before, run.model.get_weights()):
            ctx.same(b, a, "a prediction changes the weights")
    run.set_random(0.5)
    compare(ctx, run, X, ask(run, X), "new weights after training")
    weights(ctx, run)
    ctx.note("histories_observed")


def k_large(ctx):
    """Many points at once."""
    r = ctx.rng
    run = make(ctx, lay=[2, 20, 20, 2 if KIND[ctx.i % 4] == "domain" else 1])
    ctx.desc(**run.describe())
    run.set_random(0.6)
    n = int(r.integers(20000, 60000))
    X = points(r, n, run)
    got = ask(run, X, int(r.integers(0, 3)))
    compare(ctx, run, X, got, f"{n} points")
    s = r.integers(0, n, 50)
    compare(ctx, run, X[s], ask(run, X[s]), "some of them")


def k_deep(ctx):
    """Networks far deeper, wider or longer than those of the examples."""
    r = ctx.rng
    kind = KIND[ctx.i % 4]
    out = 2 if kind == "domain" else 1
    if ctx.i // 4 % 2 == 0:
        lay = [2] + [int(r.integers(2, 7)) for _ in range(int(r.integers(13, 48)))] + [out]
    else:
        lay = [2] + [int(r.integers(257, 1300)) for _ in range(int(r.integers(1, 3)))] + [out]
    run = make(ctx, kind, dtype=tf.float64, act=["tanh", "sin", "linear", "softplus"][int(r.integers(0, 4))], lay=lay)
    ctx.desc(**run.describe())
    weights(ctx, run)
    run.set_random(1.0 / np.sqrt(max(lay)))
    X = points(r, 30, run)
    compare(ctx, run, X, ask(run, X, int(r.choice([0, 1, 3]))), "a deep or wide network")
    run.step(10.0, run.params())
    compare(ctx, run, X, ask(run, X), "after a training step")
    weights(ctx, run)
    ctx.note("deep_observed")


def k_attention(ctx):
    """With the attention option the network is applied to the attention-weighted points; training reports its losses."""
    r = ctx.rng
    run = make(ctx, attention=True)
    ctx.desc(**run.describe(), attention=True)
    weights(ctx, run)
    run.set_random(float(r.uniform(0.2, 0.9)) / np.sqrt(max(1, max(run.layers) / 12)))
    for how in (0, 1, 3, 4):
        X = points(r, int(r.choice([1, 2, 3, 120])) if how % 2 else int(r.integers(1, 120)), run)
        compare(ctx, run, X, ask(run, X, how), f"with attention, asked in way {how}")
        ctx.note("attention_observed")
    f32 = run.dtype == tf.float32
    for s in range(3):
        beta = float(run.cast(r.uniform(0, 20)))
        Wt = run.net()
        out = run.step(beta, run.params())
        get = lambda k: float(np.ravel(out[k])[0])
        ctx.check(all(np.isfinite(get(k)) for k in ("loss", "loss_pde", "loss_dirichlet")), "a loss is not finite")
        want = get("loss_pde")
        terms = [abs(want)]
        if run.kind != "hard":
            b = np.mean((run.predict(Wt, run.DX)[0][:, 0:1] - run.DY) ** 2)
            ctx.close(get("loss_dirichlet"), b, 3e-4 if f32 else 1e-9, f"step {s}, {run.kind} with attention: boundary loss", scale=max(b, 1e-2))
            want += beta * get("loss_dirichlet")
        if run.sens:
            b = np.mean((run.predict(Wt, run.sens[0])[0][:, 0:1] - run.sens[1]) ** 2)
            ctx.close(get("sensor_loss"), b, 3e-4 if f32 else 1e-9, f"step {s}, {run.kind} with attention: sensor loss", scale=max(b, 1e-2))
            want += 10 * get("sensor_loss")
        ctx.close(get("loss"), want, 1e-5 if f32 else 1e-12, f"step {s}, {run.kind} with attention: total loss", scale=max(want, 1e-300))
        ctx.check(any(not np.array_equal(a, b) for a, b in zip(Wt, run.net())), "a training step changes no weight")


def k_again(ctx):
    """The same tensor object is asked again after training, after new weights, and by another model; arrays are changed in place."""
    r = ctx.rng
    run = make(ctx, act=["tanh", "sigmoid", "swish", "softplus"][(ctx.i // 4) % 4])
    other = make(ctx, run.kind, run.dtype, run.act, run.layers)
    ctx.desc(**run.describe())
    run.set_random(0.7), other.set_random(0.7)
    n = int(r.choice([1, 7, 300, 2500, 12000]))
    X = points(r, n, run)
    A = X.astype(run.dtype.as_numpy_dtype)
    T = tf.constant(A)
    V = tf.Variable(A)
    ways = [("tensor", lambda m: m(T)), ("tensor by keyword", lambda m: m(inputs=T)), ("array", lambda m: m(A)), ("call", lambda m: m.call(T)), ("variable", lambda m: m(V))]
    graph = {id(m): tf.function(m) for m in (run.model, other.model)}
    ways.append(("graph", lambda m: graph[id(m)](T)))
    for k in range(8):
        for m in (run, other):
            # one way again and again at first, then all in any order
            use = [ways[(ctx.i // 2) % len(ways)]] if k < 4 else [ways[int(j)] for j in r.permutation(len(ways))]
            if k < 4 and m is other and ctx.i % 2:
                continue
            for name, way in use:
                compare(ctx, m, X if name != "variable" else np.asarray(V.numpy(), float), np.asarray(way(m.model), np.float64), f"the same {name} asked again, round {k}")
                ctx.note("repetitions_observed")
        what = int(r.integers(0, 4)) if k > 2 else k
        if what == 0:
            run.step(10.0, run.params())
        elif what == 1:
            run.set_random(0.6)
        elif what == 2:
            v = run.model.trainable_variables[int(r.integers(0, len(run.net())))]
            if v.shape.rank:
                v.assign(v + 0.1)
        else:
            A[...] = points(r, n, run).astype(A.dtype)
            X = A.astype(float)
            T = tf.constant(A)
            V.assign(A)
    ctx.distinct(n, run.describe())


def k_counts(ctx):
    """Every number of points, from a single one on, with and without attention."""
    r = ctx.rng
    att = bool(ctx.i % 2)
    run = make(ctx, KIND[(ctx.i // 2) % 4], attention=att, act=ACTS[(ctx.i // 2) % len(ACTS)])
    ctx.desc(**run.describe(), attention=att)
    run.set_random(float(r.uniform(0.2, 0.9)) / np.sqrt(max(1, max(run.layers) / 12)))
    for n in [1, 2, 3, 1, int(r.integers(4, 60)), 2 ** int(r.integers(5, 13)) + int(r.integers(-1, 2)), 1000 * int(r.integers(1, 4 if att else 9)) + int(r.integers(1, 999)), 1]:
        X = points(r, n, run)
        compare(ctx, run, X, ask(run, X, [0, 1, 3, 4][int(r.integers(0, 4))]), f"{n} points" + (" with attention" if att else ""))
        ctx.note("counts_observed")
    ctx.distinct(run.describe())


KINDS = {"own": k_own, "deep": k_deep, "counts": k_counts, "again": k_again, "attention": k_attention, "random": k_random, "subsets": k_subsets, "history": k_history, "large": k_large}
