"""P30: the tuner's objective evaluates the suggested configuration."""
import contextlib
import inspect
import os
import sys
import threading

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.core import Inconclusive
from fvm.api import DataHandler2D, DenseModel, Fespace2D, Geometry_2D

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs"))
import optuna  # noqa: E402  (the stand-in)
import sin_cos  # noqa: E402  (the stand-in)

from fastvpinns.hyperparameter_tuning import objective as OB  # noqa: E402
from fastvpinns.hyperparameter_tuning import optuna_tuner as OT  # noqa: E402


def objective(trial, n):
    f = OB if callable(OB) else OB.objective
    return f(trial, n)


class Watch:
    """What each thread's trial builds and does; the classes are wrapped while it is active."""

    def __init__(self):
        self.by = {}
        self.lock = threading.Lock()
        self.old = []

    def log(self):
        with self.lock:
            return self.by.setdefault(threading.get_ident(), {"models": [], "spaces": [], "grids": []})

    def fresh(self):
        with self.lock:
            self.by[threading.get_ident()] = {"models": [], "spaces": [], "grids": []}

    def wrap(self, cls, name, make):
        orig = cls.__dict__[name]
        self.old.append((cls, name, orig))
        setattr(cls, name, make(orig))

    def __enter__(self):
        w = self

        def model_init(orig):
            sig = inspect.signature(orig)

            def __init__(self, *a, **k):
                orig(self, *a, **k)
                args = sig.bind(self, *a, **k)
                args.apply_defaults()
                w.log()["models"].append({"model": self, "args": dict(args.arguments), "w0": [x.copy() for x in self.get_weights()], "steps": []})

            return __init__

        def model_step(orig):
            def train_step(self, *a, **k):
                for m in w.log()["models"]:
                    if m["model"] is self:
                        m["steps"].append((a, k))
                return orig.__get__(self, type(self))(*a, **k)

            return train_step

        def space_init(orig):
            sig = inspect.signature(orig)

            def __init__(self, *a, **k):
                orig(self, *a, **k)
                args = sig.bind(self, *a, **k)
                args.apply_defaults()
                w.log()["spaces"].append((self, dict(args.arguments)))

            return __init__

        def points(orig):
            def get_test_points(self, *a, **k):
                p = orig(self, *a, **k)
                w.log()["grids"].append(np.array(p))
                return p

            return get_test_points

        self.wrap(DenseModel, "__init__", model_init)
        self.wrap(DenseModel, "train_step", model_step)
        self.wrap(Fespace2D, "__init__", space_init)
        self.wrap(Geometry_2D, "get_test_points", points)
        return self

    def __exit__(self, *a):
        for cls, name, orig in reversed(self.old):
            setattr(cls, name, orig)
        self.old = []


class World:
    """The user's problem."""

    def __init__(self, ctx):
        r = ctx.rng
        a, b, c, d = (float(v) for v in r.uniform(-2, 2, 4))
        self.eps = float(r.uniform(0.3, 2))
        self.u = lambda x, y: np.sin(a * x + b) * np.cos(c * y) + d * x + 0.7
        self.f = lambda x, y: self.eps * (a * a + c * c) * np.sin(a * x + b) * np.cos(c * y)
        sin_cos._P.update(u=self.u, f=self.f, eps=self.eps)


NAMES = ["n_cells_x", "n_cells_y", "n_boundary_points", "fe_order", "fe_type", "quad_order", "quad_type", "n_layers", "initial_learning_rate", "decay_steps", "decay_rate"]
SMALL = {"n_cells_x": (2, 5), "n_cells_y": (2, 5), "fe_order": (2, 5), "quad_order": (3, 7), "n_boundary_points": (100, 200)}


def plan_of(ctx, small=True, **fixed):
    r = ctx.rng
    p = {k: int(r.integers(a, b + 1)) for k, (a, b) in SMALL.items()} if small else {}
    p.update(fixed)
    return p


def verify(ctx, world, trial, log, value, epochs, what, replay=True):
    """The trial's execution must be the training of the suggested configuration."""
    s = trial.params
    if not log["models"]:
        raise Inconclusive("no model was seen to be built")
    for n in NAMES:
        ctx.check(n in s, f"{what}: the trial is never asked for {n}")
    layers = [2] + [s.get(f"layer_{i}") for i in range(s["n_layers"])] + [1]
    ctx.check(None not in layers, f"{what}: {s['n_layers']} layers are suggested, but not every one's size: {sorted(s)}")
    ctx.check(len([k for k in s if k.startswith("layer_")]) == s["n_layers"], f"{what}: sizes for other layers than the {s['n_layers']} suggested")
    trained = [m for m in log["models"] if m["steps"]] or log["models"][-1:]
    ctx.check(len(trained) == 1, f"{what}: {len(trained)} models are trained")
    m = trained[0]
    model, a = m["model"], m["args"]
    ctx.check(len(m["steps"]) == epochs, f"{what}: {len(m['steps'])} training steps, {epochs} epochs are asked for")
    shapes = [w.shape for w in m["w0"]]
    want = []
    for i in range(len(layers) - 1):
        want += [(layers[i], layers[i + 1]), (layers[i + 1],)]
    ctx.check(shapes == want, f"{what}: weights {shapes}, the suggested layers are {layers}")
    sug = {"initial_learning_rate": s["initial_learning_rate"], "use_lr_scheduler": True, "decay_steps": s["decay_steps"], "decay_rate": s["decay_rate"]}
    given = dict(a["learning_rate_dict"])
    for t in (0, 1, s["decay_steps"] - 1, s["decay_steps"], 5 * s["decay_steps"] + 1):
        x, y = O.lr_at(given, t), O.lr_at(sug, t)
        ctx.check(abs(x - y) <= 1e-6 * y, f"{what}: learning rate {x!r} at step {t}, the suggested schedule has {y!r}")
    # the tensors of the suggested discretisation
    xs, ys = np.linspace(0, 1, s["n_cells_x"] + 1), np.linspace(0, 1, s["n_cells_y"] + 1)
    space = log["spaces"][-1][0]
    cells = np.array(space.cells, float)
    boxes = sorted((round(float(c[:, 0].min()), 9), round(float(c[:, 1].min()), 9), round(float(c[:, 0].max()), 9), round(float(c[:, 1].max()), 9)) for c in cells)
    want = sorted((round(x0, 9), round(y0, 9), round(x1, 9), round(y1, 9)) for x0, x1 in zip(xs, xs[1:]) for y0, y1 in zip(ys, ys[1:]))
    ctx.check(np.shape(boxes) == np.shape(want) and np.allclose(boxes, want, atol=1e-8), f"{what}: {len(cells)} cells are not the suggested {s['n_cells_x']} x {s['n_cells_y']} mesh")
    A = [O.Assembled(c, s["fe_type"], s["fe_order"], s["quad_type"], s["quad_order"], "bilinear") for c in cells]
    X = np.concatenate([k.pts for k in A])
    pde, bin_, bout = [np.asarray(t, np.float64) for t in a["input_tensors_list"]]
    ctx.close(pde, X, 2e-6, f"{what}: quadrature points the model is trained on")
    for t, ref, name in zip(a["orig_factor_matrices"], ([k.Vw for k in A], [k.Gxw for k in A], [k.Gyw for k in A]), ("values", "x derivatives", "y derivatives")):
        ctx.close(np.asarray(t, np.float64), np.array(ref), 1e-5, f"{what}: {name} of the test functions")
    F = np.array([k.load(world.f) for k in A]).T
    ctx.close(np.asarray(a["force_function_list"], np.float64), F, 1e-5, f"{what}: forcing", scale=max(np.max(np.abs(F)), np.max(np.abs([np.abs(k.Vw).sum(1).max() for k in A]))))
    n = int(s["n_boundary_points"])
    ctx.check(n - 4 < len(bin_) <= n, f"{what}: {len(bin_)} boundary points, {n} are suggested")
    on = np.minimum(np.abs(bin_), np.abs(bin_ - 1)).min(axis=1)
    ctx.check(on.max() < 1e-6, f"{what}: boundary points off the boundary")
    ctx.close(bout[:, 0], world.u(bin_[:, 0], bin_[:, 1]), 1e-5, f"{what}: boundary values", scale=3.0)
    ctx.note("configurations_observed")
    # the value is the error of the trained network
    Wt = [np.asarray(w, np.float64) for w in model.get_weights()]
    T = log["grids"][-1] if log["grids"] else np.array([[x, y] for x in np.linspace(0, 1, 100) for y in np.linspace(0, 1, 100)])
    ctx.check(len(T) > 1000 and T.min() >= 0 and T.max() <= 1 and len({(round(x, 7), round(y, 7)) for x, y in T}) == len(T), f"{what}: test grid of {len(T)} points")
    e = world.u(T[:, 0], T[:, 1])
    p = O.mlp(Wt, T, "tanh")[0][:, 0]
    err = np.sqrt(np.sum((p - e) ** 2)) / np.sqrt(np.sum(e**2))
    ctx.check(np.ndim(value) == 0 and abs(float(value) - err) <= 2e-4 * err + 1e-6, lambda: f"{what}: the objective is {value!r}, the trained network's relative L2 error is {err!r}")
    ctx.note("objectives_observed")
    if not replay:
        return
    # an independently built model, trained the same way from the same start
    lr = {"initial_learning_rate": s["initial_learning_rate"], "use_lr_scheduler": True, "decay_steps": s["decay_steps"], "decay_rate": s["decay_rate"]}
    ref = DenseModel(
        layer_dims=layers,
        learning_rate_dict=lr,
        params_dict={"n_cells": len(cells)},
        loss_function=api.LOSS["poisson"],
        input_tensors_list=[tf.constant(X, tf.float32), tf.constant(bin_, tf.float32), tf.constant(world.u(bin_[:, 0], bin_[:, 1]).reshape(-1, 1), tf.float32)],
        orig_factor_matrices=[tf.constant(np.array(v), tf.float32) for v in ([k.Vw for k in A], [k.Gxw for k in A], [k.Gyw for k in A])],
        force_function_list=tf.constant(F, tf.float32),
        tensor_dtype=tf.float32,
        activation="tanh",
    )
    ref.set_weights(m["w0"])
    beta = tf.constant(10.0, tf.float32)
    for _ in range(epochs):
        ref.train_step(beta=beta, bilinear_params_dict={"eps": tf.constant(world.eps, tf.float32)})
    moved = max(float(np.max(np.abs(x - y))) for x, y in zip(m["w0"], ref.get_weights()))
    diff = max(float(np.max(np.abs(x - y))) for x, y in zip(model.get_weights(), ref.get_weights()))
    # rounding decides the direction of an entry without gradient, for one step at most
    med = max(float(np.mean(np.abs(x - y))) for x, y in zip(model.get_weights(), ref.get_weights()))
    tol = 0.02 * moved + 1e-7
    ctx.check(med <= tol, f"{what}: after {epochs} steps the weights differ by {diff:.3e} (mean {med:.3e}) from training the suggested configuration (which moves them by {moved:.3e})")
    rp = O.mlp([np.asarray(w, np.float64) for w in ref.get_weights()], T, "tanh")[0][:, 0]
    p0 = O.mlp([np.asarray(w, np.float64) for w in m["w0"]], T, "tanh")[0][:, 0]
    step = np.max(np.abs(rp - p0))
    ctx.check(np.max(np.abs(rp - p)) <= 0.03 * step + 1e-5, f"{what}: the trained network is not the one that the suggested configuration gives")
    ctx.note("trainings_replayed")


def k_single(ctx):
    world = World(ctx)
    t = optuna.Trial(int(ctx.rng.integers(0, 50)), ctx.rng, plan_of(ctx, small=ctx.i % 4 != 0))
    epochs = ctx.pick([1, 2, 5, 20])
    with Watch() as w:
        w.fresh()
        v = objective(t, epochs)
        log = w.log()
    ctx.desc(params=t.params, epochs=epochs, value=float(v))
    verify(ctx, world, t, log, v, epochs, "trial")


def k_diverged(ctx):
    """A trial whose training diverges has no error to report: it must not look like a good one."""
    r = ctx.rng
    for j, bad in enumerate([float("nan"), float("inf")]):
        world = World(ctx)
        sin_cos._P.update(f=lambda x, y, bad=bad: bad)
        t = optuna.Trial(j, r, plan_of(ctx))
        with Watch() as w:
            w.fresh()
            try:
                v = objective(t, 2)
            except Exception:
                # (refusing the trial is not pretending)
                ctx.note("diverged_observed")
                continue
            log = w.log()
        Wt = [x for m in log["models"] for x in m["model"].get_weights()]
        if all(np.all(np.isfinite(x)) for x in Wt):
            raise Inconclusive("the training did not diverge")
        ctx.check(not np.isfinite(v), f"the objective of a trial whose weights are not finite is {v!r}")
        ctx.note("diverged_observed")
    ctx.desc(params=t.params)


def k_zero(ctx):
    """No epochs: the error of the initial network."""
    world = World(ctx)
    t = optuna.Trial(0, ctx.rng, plan_of(ctx))
    with Watch() as w:
        w.fresh()
        v = objective(t, 0)
        log = w.log()
    ctx.desc(params=t.params)
    verify(ctx, world, t, log, v, 0, "trial", replay=False)


def k_long(ctx):
    """Long enough that the suggested schedule decides."""
    world = World(ctx)
    t = optuna.Trial(3, ctx.rng, {"n_cells_x": 2, "n_cells_y": 2, "fe_order": 2, "quad_order": 3, "n_layers": 1, "layer_0": 10, "n_boundary_points": 100, "decay_steps": 1000, "decay_rate": 0.9, "initial_learning_rate": 1e-3})
    epochs = 1700
    with Watch() as w:
        w.fresh()
        v = objective(t, epochs)
        log = w.log()
    ctx.desc(params=t.params, epochs=epochs)
    verify(ctx, world, t, log, v, epochs, "trial")
    ctx.note("schedules_observed")


def k_sequence(ctx):
    """Several trials one after another in one folder: each is its own configuration."""
    world = World(ctx)
    for j in range(3):
        t = optuna.Trial(j, ctx.rng, plan_of(ctx))
        with Watch() as w:
            w.fresh()
            v = objective(t, 3)
            log = w.log()
        ctx.desc(**{f"trial{j}": t.params})
        verify(ctx, world, t, log, v, 3, f"trial {j} of a sequence")
        ctx.note("trials_in_sequence")


@contextlib.contextmanager
def racing_folders():
    """Another trial creates the same folder just before this one does."""
    real, n = os.makedirs, [0]

    def makedirs(name, mode=0o777, exist_ok=False):
        if not os.path.isdir(name):
            n[0] += 1
            real(name, mode, exist_ok=True)
        return real(name, mode, exist_ok=exist_ok)

    os.makedirs = makedirs
    try:
        yield n
    finally:
        os.makedirs = real


def k_parallel(ctx):
    """Trials at the same time, in one folder, which does not exist before."""
    world = World(ctx)
    k = ctx.pick([2, 3, 4, 6])
    epochs = ctx.pick([2, 4, 8])
    rngs = [np.random.default_rng(ctx.rng.integers(0, 2**31)) for _ in range(k)]
    plans = [plan_of(ctx) for _ in range(k)]
    trials = [optuna.Trial(j, rngs[j], plans[j]) for j in range(k)]
    res, logs, errs = [None] * k, [None] * k, [None] * k
    gate = threading.Barrier(k)
    with Watch() as w, racing_folders() as race:

        def work(j):
            w.fresh()
            try:
                gate.wait(60)
                res[j] = objective(trials[j], epochs)
            except BaseException as e:  # noqa: B902
                errs[j] = e
            logs[j] = w.log()

        ts = [threading.Thread(target=work, args=(j,)) for j in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    ctx.desc(trials=k, epochs=epochs, params=[t.params for t in trials])
    for e in errs:
        if e is not None:
            raise e
    for j in range(k):
        verify(ctx, world, trials[j], logs[j], res[j], epochs, f"trial {j} of {k} in parallel")
        ctx.note("trials_in_parallel")
    ctx.note("folder_races", race[0])


class Gpu:
    device_type = "GPU"

    def __init__(self, i):
        self.name = f"/physical_device:GPU:{i}"


@contextlib.contextmanager
def accelerators(k):
    """k pretended GPUs; the devices that are asked for are recorded and their work runs on the CPU."""
    used = []
    real = tf.config.list_physical_devices, tf.device, tf.config.experimental.set_memory_growth

    def listing(device_type=None):
        rest = [d for d in real[0]() if d.device_type != "GPU"]
        g = [Gpu(i) for i in range(k)]
        return g if device_type == "GPU" else [d for d in rest if device_type in (None, d.device_type)] + (g if device_type is None else [])

    def device(name):
        used.append(str(name))
        return real[1]("/device:CPU:0")

    tf.config.list_physical_devices, tf.device, tf.config.experimental.set_memory_growth = listing, device, lambda *a: None
    try:
        yield used
    finally:
        tf.config.list_physical_devices, tf.device, tf.config.experimental.set_memory_growth = real


def k_tuner(ctx):
    world = World(ctx)
    gpus = [0, 0, 1, 2, 3][ctx.i % 5]
    n = int(ctx.rng.integers(1, 6))
    jobs = ctx.pick([0, 1, 1, 2, 3, -1])
    epochs = int(ctx.rng.integers(1, 4))
    name = f"study_{ctx.i}"
    seed = int(ctx.rng.integers(0, 2**31))
    plans = [plan_of(ctx) for _ in range(n + 3)]
    optuna.CONFIG["make"] = lambda j: optuna.Trial(j, np.random.default_rng([seed, j]), plans[j % len(plans)])
    optuna.CONFIG["studies"] = []
    seen, lock = {}, threading.Lock()
    with accelerators(gpus) as used, Watch() as w:
        tuner = OT.OptunaTuner(n_trials=n, study_name=name, n_jobs=jobs, n_epochs=epochs)
        make = optuna.CONFIG["make"]

        def fresh(j):
            w.fresh()
            with lock:
                seen[j] = w.by[threading.get_ident()]
            return make(j)

        optuna.CONFIG["make"] = fresh
        best = tuner.run()
    ctx.desc(gpus=gpus, trials=n, jobs=jobs, epochs=epochs)
    st = optuna.CONFIG["studies"]
    ctx.check(len(st) == 1, f"{len(st)} studies are created")
    st = st[0]
    ctx.check(st.kw["study_name"] in (None, name), f"the study is named {st.kw['study_name']!r}, not {name!r}")
    ctx.check("min" in st.direction, f"the study is to {st.direction}")
    ctx.check(len(st.trials) == n, f"{len(st.trials)} trials are run, {n} are requested")
    ctx.check(all(t.value is not None for t in st.trials), "a trial has no value")
    if jobs > 0:
        ctx.check(st.peak <= jobs, f"{st.peak} trials at the same time with n_jobs={jobs}")
    lowest = min(st.trials, key=lambda t: t.value)
    ctx.check(best == lowest.params, f"reported {best}, the trial with the lowest error ({lowest.value}) has {lowest.params}")
    for t in st.trials:
        verify(ctx, world, t, seen[t.number], t.value, epochs, f"trial {t.number} of the study", replay=t.number % 2 == 0)
        ctx.note("trials_of_studies")
    for d in used:
        if "GPU" in d.upper():
            i = int(d.upper().split("GPU:")[1]) if "GPU:" in d.upper() else 0
            ctx.check(i < gpus, f"device {d} is used, there are {gpus} GPUs")
            ctx.note("devices_observed")
    ctx.note("studies_observed")


KINDS = {"single": k_single, "zero": k_zero, "diverged": k_diverged, "long": k_long, "sequence": k_sequence, "parallel": k_parallel, "tuner": k_tuner}
