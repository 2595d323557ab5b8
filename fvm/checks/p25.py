"""P25: the same seed gives the same run."""
import hashlib
import json
import os
import subprocess
import sys

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D
from fvm.train import MODELS

KIND = ["forward", "hard", "inverse", "domain"]
FORM = {"forward": "poisson", "hard": "cd2d", "inverse": "poisson_inverse", "domain": "cd2d_inverse_domain"}


def seeded(s):
    tf.keras.utils.set_random_seed(s)  # Python, numpy and TensorFlow


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
    return h.hexdigest()


def f(x, y):
    return np.sin(3 * x) * y + 1


def build(spec, scratch, steps):
    """A whole run from a description; [(what, digest)] of everything it produced."""
    out = []
    if spec["external"]:
        m = W.quad_mesh(np.random.default_rng(spec["mesh"]), nmax=3, style="perturbed")
        path = W.write_medit(os.path.join(scratch, "m.mesh"), m)
        g = api.Geometry_2D("quadrilateral", "external", 5, 5, scratch)
        cells, bd = g.read_mesh(mesh_file=path, boundary_point_refinement_level=3, bd_sampling_method=spec["sampling"], refinement_level=0)
    else:
        g, cells, bd = api.internal([0, 2], [-1, 1], spec["nx"], spec["ny"], spec["nb"], scratch)
    out.append(("cells", digest(cells)))
    for k in sorted(bd):
        out.append((f"boundary points {k}", digest(np.asarray(bd[k], float))))
    dt = tf.float32 if spec["f32"] else tf.float64
    P = api.Problem(np.random.default_rng(spec["mesh"] + 1), FORM[spec["kind"]], dt, order=3, quad=4, cells=np.asarray(cells), bd=bd, f=f, g=f)
    P.fs.mesh = g.mesh if g.mesh is not None else P.fs.mesh
    out.append(("tensors", digest(*[getattr(P.dh, t).numpy() for t in ("shape_val_mat_list", "grad_x_mat_list", "x_pde_list", "forcing_function_list")], P.din.numpy(), P.dout.numpy())))
    kw = P.common([2, 9, 7, 2 if spec["kind"] == "domain" else 1], api.lr_dict(0.01, True, 2, 0.9))
    if spec["kind"] in ("inverse", "domain"):
        if spec["external"]:
            name = os.path.join(scratch, "sol.csv")
            rr = np.random.default_rng(3)
            np.savetxt(name, rr.normal(size=(50, 3)), delimiter=",", header="x,y,u", comments="")
            kw["sensor_list"] = list(P.dh.get_sensor_data(f, 12, "external", name))
        else:
            kw["sensor_list"] = list(P.dh.get_sensor_data(f, 12, "internal"))
        out.append(("sensors", digest(*[t.numpy() for t in kw["sensor_list"]])))
    if spec["kind"] == "inverse":
        kw["inverse_params_dict"] = P.dh.get_inverse_params(lambda: {"eps": 0.7})
    if spec["kind"] == "hard":
        kw["hard_constraint_function"] = lambda x, u: u * x[:, 0:1]
    model = MODELS[spec["kind"]](**kw)
    for k, w in enumerate(model.get_weights()):
        # (biases start at zero)
        out.append((f"initial {'weights' if np.ndim(w) > 1 else 'biases'} {k}", digest(w)))
    p = P.dh.get_bilinear_params_dict_as_tensors(lambda: {k: v for k, v in {"eps": 0.8, "b_x": 1.0, "b_y": -0.5, "c": 0.3}.items() if k in api.PARAMS[P.form]})
    for s in range(steps):
        o = model.train_step(beta=10, bilinear_params_dict=p)
        out.append((f"losses of step {s}", digest(*[np.ravel(v) for k, v in sorted(o.items()) if k != "inverse_params"])))
    X = tf.constant(np.random.default_rng(5).uniform(0, 1, (11, 2)), dt)
    out.append(("prediction", digest(model(X).numpy())))
    return out


def spec_of(ctx):
    r = ctx.rng
    return {
        "kind": KIND[ctx.i % 4],
        "external": bool((ctx.i // 4) % 2),
        "sampling": ["uniform", "lhs"][int(r.integers(0, 2))],
        "mesh": int(r.integers(0, 10**6)),
        "nx": int(r.integers(1, 4)),
        "ny": int(r.integers(1, 4)),
        "nb": int(r.integers(2, 15) if r.integers(0, 3) else r.integers(300, 1500)) * 4,
        "f32": bool(r.integers(0, 3) == 0),
        "seed": int(r.integers(0, 2**31)),
    }


def disturb(r):
    """Arbitrary use of the generators and of the package before a seed is set."""
    np.random.uniform(size=int(r.integers(1, 99)))
    tf.random.uniform([int(r.integers(1, 9))])
    import random

    random.seed(int(r.integers(0, 999)))
    if r.integers(0, 2):
        api.internal([0, 1], [0, 1], 2, 2, 24, ".")
    if r.integers(0, 2):
        tf.keras.layers.Dense(3).build((None, 2))


RANDOM = ("boundary points", "sensors", "initial weights")


def compare(ctx, a, b, what):
    ctx.check([k for k, _ in a] == [k for k, _ in b], f"{what}: not the same results")
    for (k, x), (_, y) in zip(a, b):
        ctx.check(x == y, f"{what}: {k} differ although the seeds are the same")
        ctx.note("digests_compared")


def k_repeat(ctx):
    r = ctx.rng
    spec = spec_of(ctx)
    ctx.desc(**spec)
    runs = []
    for rep in range(2):
        disturb(r)
        seeded(spec["seed"])
        runs.append(build(spec, ctx.scratch, 5))
    compare(ctx, runs[0], runs[1], "repeated in one process")
    seeded(spec["seed"] ^ 0x5A5A5A)
    other = dict(build(spec, ctx.scratch, 1))
    for k, v in runs[0]:
        if k.startswith("boundary points") and spec["external"] and spec["sampling"] == "uniform":
            continue
        if k.startswith(RANDOM):
            ctx.check(other[k] != v, f"another seed gives the same {k}")
            ctx.note("seeds_told_apart")
    ctx.distinct(spec)


def k_history(ctx):
    """Seeds interleaved: what is drawn depends on the last seed only."""
    r = ctx.rng
    seen = {}
    for t in range(30):
        s = int(r.integers(0, 4))
        disturb(r)
        seeded(s)
        nb = 4 * (5 + s)
        g, cells, bd = api.internal([0, 1], [0, 3], 2, 1 + s, nb, ctx.scratch)
        P = seen.get("P") or api.Problem(np.random.default_rng(1), "poisson", cells=cells, bd=bd)
        seen["P"] = P
        pts = P.dh.get_sensor_data(f, 10 + s, "internal")[0].numpy()
        w = tf.keras.layers.Dense(4)
        w.build((None, 2))
        d = digest(*[bd[k] for k in sorted(bd)], pts, w.get_weights()[0])
        ctx.check(seen.setdefault(s, d) == d, f"turn {t}: seed {s} gives other samples than before")
        ctx.note("digests_compared")
    ctx.check(len({seen[k] for k in seen if k != "P"}) == len(seen) - 1, "different seeds give the same samples")
    ctx.desc(turns=30)


CHILD = """
import sys, json
sys.path.insert(0, {here!r})
from fvm.checks import p25
spec = json.loads({spec!r})
p25.seeded(spec["seed"])
out = p25.build(spec, {scratch!r}, {steps})
print("@@" + json.dumps(out))
"""


def k_process(ctx):
    """A fresh process (with another hash seed) gives the same run."""
    r = ctx.rng
    spec = spec_of(ctx)
    ctx.desc(**spec)
    disturb(r)
    seeded(spec["seed"])
    mine = build(spec, ctx.scratch, 4)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = {**os.environ, "PYTHONHASHSEED": str(int(r.integers(1, 9999)))}
    d = os.path.join(ctx.scratch, "child")
    os.makedirs(d)
    p = subprocess.run([sys.executable, "-B", "-c", CHILD.format(here=here, spec=json.dumps(spec), scratch=d, steps=4)], cwd=d, env=env, capture_output=True, text=True, timeout=400)
    ctx.check(p.returncode == 0 and "@@" in p.stdout, f"the run fails in a fresh process: {p.stderr[-600:]}")
    theirs = [tuple(v) for v in json.loads(p.stdout.split("@@")[1].splitlines()[0])]
    compare(ctx, mine, theirs, "in a fresh process")
    ctx.note("processes_observed")
    ctx.distinct(spec)


KINDS = {"repeat": k_repeat, "history": k_history, "process": k_process}
