"""P26: a model can be rebuilt from its configuration, and training resumed from what it saves."""
import inspect
import json
import os
import signal
import subprocess
import sys
import time

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O
from fvm.train import Run, MODELS

KIND = ["forward", "hard", "inverse", "domain"]
TYPES = {"forward": api.DenseModel, "hard": api.DenseModel_Hard, "inverse": api.DenseModel_Inverse, "domain": api.DenseModel_Inverse_Domain}


def new_run(ctx, kind=None, dt=None, attention=False):
    r = ctx.rng
    lr = api.lr_dict(float(10 ** r.uniform(-4, -1.5)), bool(r.integers(0, 2)), int(r.integers(1, 5)), float(r.uniform(0.5, 1)), bool(r.integers(0, 2)))
    return Run(ctx, kind or KIND[ctx.i % 4], None, dt or [tf.float64, tf.float64, tf.float32][ctx.i % 3], lr=lr, attention=attention)


def losses(out):
    return {k: (float(np.ravel(v)[0]) if not isinstance(v, dict) else {a: float(b) for a, b in v.items()}) for k, v in out.items()}


def train(model, n, p, betas, at=0):
    return [losses(model.train_step(beta=betas[at + s], bilinear_params_dict=p)) for s in range(n)]


def weights(m):
    out = [np.array(w) for w in m.get_weights()]
    if hasattr(m, "inverse_params_dict"):
        out += [np.array(m.inverse_params_dict[k].numpy()) for k in sorted(m.inverse_params_dict)]
    return out


def same_state(ctx, a, b, X, what):
    wa, wb = weights(a), weights(b)
    ctx.check(len(wa) == len(wb), f"{what}: {len(wb)} weights instead of {len(wa)}")
    for x, y in zip(wa, wb):
        ctx.same(y, x, f"{what}: weights")
    ctx.same(b(X).numpy(), a(X).numpy(), f"{what}: predictions")
    ctx.note("states_compared")


def same_losses(ctx, a, b, what):
    ctx.check(a == b, lambda: f"{what}: the losses are {b}, expected {a}")
    ctx.note("losses_compared", len(a))


def ctor_names(kind):
    return [n for n in inspect.signature(TYPES[kind].__init__).parameters if n != "self"]


def k_config(ctx):
    r = ctx.rng
    run = new_run(ctx, attention=bool((ctx.i // 4) % 2))
    m, kw = run.model, run.kw
    ctx.desc(**run.describe())
    p = run.tensors(run.params())
    betas = [tf.constant(float(b), run.dtype) for b in r.uniform(0, 20, 12)]
    X = tf.constant(r.uniform(-1, 1, (9, 2)), run.dtype)
    gen = m
    for generation in range(2 if ctx.tier == "quick" else 3):
        train(gen, 2, p, betas)
        cfg = gen.get_config()
        for n in ctor_names(run.kind):
            ctx.check(n in cfg, f"the configuration of the {run.kind} model has no {n}")
            if n == "inverse_params_dict":
                ctx.check(set(cfg[n]) == set(kw[n]), "the configuration has other unknowns")
                continue
            if n == "hard_constraint_function" and kw.get(n) is None and callable(cfg[n]):
                # no constraint: whatever stands for it leaves the network's output as it is
                a = tf.constant(r.normal(size=(4, 1)), run.dtype)
                ctx.same(np.asarray(cfg[n](X[:4], a)), a.numpy(), "the configuration has a constraint, the model was built without")
                continue
            ctx.check(equal(cfg[n], kw[n]), f"the configuration gives {n} = {cfg[n]!r}, the model was built with {kw[n]!r}")
            ctx.note("arguments_compared")
        new = TYPES[run.kind](**{n: cfg[n] for n in ctor_names(run.kind)})
        wa = gen.get_weights()
        ctx.check([w.shape for w in new.get_weights()] == [w.shape for w in wa], f"the rebuilt model (generation {generation}) has weights of the shapes {[w.shape for w in new.get_weights()]} instead of {[w.shape for w in wa]}")
        ctx.check(len(new.trainable_variables) == len(gen.trainable_variables), "the rebuilt model trains another number of variables")
        new.set_weights(wa)
        same_state(ctx, gen, new, X, f"rebuilt model, generation {generation}")
        # the two models train independently, and alike from here but for the memory of the optimiser
        a = losses(new.train_step(beta=betas[5], bilinear_params_dict=p))
        b = losses(gen.train_step(beta=betas[5], bilinear_params_dict=p))
        drop = lambda d: {k: v for k, v in d.items() if k != "inverse_params"}
        same_losses(ctx, [drop(b)], [drop(a)], f"first step of the rebuilt model, generation {generation}")
        ref = TYPES[run.kind](**kw)
        ref.set_weights(wa)
        twin = TYPES[run.kind](**{n: cfg[n] for n in ctor_names(run.kind)})
        twin.set_weights(wa)
        keep = weights(gen)
        same_losses(ctx, train(ref, 4, p, betas), train(twin, 4, p, betas), f"training of the rebuilt model, generation {generation}")
        for x, y in zip(keep, weights(gen)):
            ctx.same(y, x, "training the rebuilt model moved the original")
        gen = new
    ctx.distinct(run.describe())


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if tf.is_tensor(a) and tf.is_tensor(b):
        return a.dtype == b.dtype and np.array_equal(a.numpy(), b.numpy())
    try:
        return bool(a == b)
    except Exception:
        return False


def k_resume(ctx):
    """Saved at every step of a run; restored into freshly built models, in any order."""
    r = ctx.rng
    run = new_run(ctx)
    ctx.desc(**run.describe())
    n = 7
    p = run.tensors(run.params())
    betas = [tf.constant(float(b), run.dtype) for b in r.uniform(0, 20, n)]
    X = tf.constant(r.uniform(-1, 1, (9, 2)), run.dtype)
    ref, states = [], []
    for s in range(n):
        run.model.save_weights(os.path.join(ctx.scratch, f"w{s}"), save_format="tf")
        states.append([weights(run.model), run.model(X).numpy()])
        ref += train(run.model, 1, p, betas, s)
    for s in [int(v) for v in r.permutation(n)[:4]]:
        m = TYPES[run.kind](**run.kw)
        if s > 0 and r.integers(0, 2):
            train(m, int(r.integers(1, 3)), p, betas)  # a model that is already in use
        m.load_weights(os.path.join(ctx.scratch, f"w{s}"))
        for x, y in zip(states[s][0], weights(m)):
            ctx.same(y, x, f"weights restored from step {s}")
        ctx.same(m(X).numpy(), states[s][1], f"prediction restored from step {s}")
        same_losses(ctx, ref[s:], train(m, n - s, p, betas, s), f"{run.kind} resumed from step {s}")
        ctx.note("resumes_observed")
    ctx.distinct(run.describe())


# ---------------------------------------------------------------- a real process that is killed
CHILD = """
import sys, os, json
sys.path.insert(0, {here!r})
from fvm.checks import p26
p26.child({spec!r})
"""


class _Ctx:
    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.i = 0

    def note(self, *a):
        pass


def job(spec):
    """The same problem and model from a description, in any process."""
    ctx = _Ctx(spec["seed"])
    run = Run(ctx, spec["kind"], None, tf.float64, lr=api.lr_dict(0.01, True, 2, 0.9, False))
    p = run.tensors(run.params())
    betas = [tf.constant(float(b), run.dtype) for b in ctx.rng.uniform(0, 20, spec["n"])]
    return run, p, betas


def child(spec):
    """Trains, saving each state under a name of its own; resumes from the last one that is there; may kill itself."""
    run, p, betas = job(spec)
    d = spec["dir"]
    at = 0
    last = tf.train.latest_checkpoint(d)
    if last:
        at = int(last.rsplit("_", 1)[1])
        run.model.load_weights(last)
    with open(os.path.join(d, "log.jsonl"), "a") as log:
        log.write(json.dumps({"start": at}) + "\n")
        log.flush()
        for s in range(at, spec["n"]):
            out = train(run.model, 1, p, betas, s)[0]
            log.write(json.dumps({"step": s, "out": out}) + "\n")
            log.flush()
            if spec["kill"] == s and spec["when"] == "before save":
                os.kill(os.getpid(), signal.SIGKILL)
            if spec["kill"] == s and spec["when"] == "during save":
                import threading

                threading.Timer(spec["delay"], lambda: os.kill(os.getpid(), signal.SIGKILL)).start()
            run.model.save_weights(os.path.join(d, f"state_{s + 1}"), save_format="tf")
            if spec["kill"] == s:
                os.kill(os.getpid(), signal.SIGKILL)
        log.write(json.dumps({"end": [w.tolist() for w in weights(run.model)]}) + "\n")


def k_kill(ctx):
    """A training process is killed at some point of some step; another one goes on from what it left."""
    r = ctx.rng
    n = 6
    spec = {"seed": int(r.integers(0, 2**31)), "kind": KIND[ctx.i % 4], "n": n, "dir": ctx.scratch}
    run, p, betas = job(spec)
    ref = train(run.model, n, p, betas)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    kills = sorted(int(k) for k in r.choice(n, size=2 if ctx.tier == "quick" else 3, replace=False))
    whens = ["before save", "during save", "after save"]
    for k in kills + [-1]:
        s = {**spec, "kill": k, "when": whens[int(r.integers(0, 3))], "delay": float(r.uniform(0, 0.01))}
        q = subprocess.run([sys.executable, "-B", "-c", CHILD.format(here=here, spec=s)], cwd=ctx.scratch, capture_output=True, text=True, timeout=400)
        if k < 0:
            ctx.check(q.returncode == 0, f"resuming fails: {q.stderr[-500:]}")
        else:
            ctx.check(q.returncode == -signal.SIGKILL, f"the process ended with {q.returncode} before it could be killed: {q.stderr[-500:]}")
            ctx.note("processes_killed")
    log = [json.loads(l) for l in open(os.path.join(ctx.scratch, "log.jsonl"))]
    want = [json.loads(json.dumps(v)) for v in ref]
    starts = [v["start"] for v in log if "start" in v]
    ctx.check(len(starts) == len(kills) + 1, f"{len(starts)} starts were logged")
    for v in log:
        if "step" in v:
            ctx.check(v["out"] == want[v["step"]], f"{spec['kind']}: step {v['step']} (starts at {starts}) has the losses {v['out']}, without interruption {want[v['step']]}")
            ctx.note("losses_compared")
    end = [v["end"] for v in log if "end" in v]
    ctx.check(len(end) == 1, "the last process did not finish")
    for x, y in zip(weights(run.model), end[0]):
        ctx.same(np.asarray(y, x.dtype), x, "final weights")
    ctx.desc(kind=spec["kind"], kills=kills, starts=starts)
    ctx.note("resumes_observed", len(kills))
    ctx.distinct(spec["kind"], kills, starts)


KINDS = {"config": k_config, "resume": k_resume, "kill": k_kill}
