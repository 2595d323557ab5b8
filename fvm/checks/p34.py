"""P34: the shipped programs pose consistent problems, follow their configuration and save what they computed."""
import importlib.util
import json
import os
import pickle
import shutil
import subprocess
import sys

import meshio
import numpy as np
import tensorflow as tf
import yaml

from .. import api, oracle as O, plans, workloads as W
from ..core import Inconclusive
from ..train import Hard, Run
from .p30 import plan_of

REPO = os.environ.get("FVM_REPO", "/repo")
EX = os.path.join(REPO, "examples")
F2, I2 = "forward_problems_2d", "inverse_problems_2d"

# where, script, problem, configuration, equation, model, the exact solution is known, mesh
PROGRAMS = [
    (f"{F2}/uniform_mesh/poisson_2d", "main_poisson2d.py", "sin_cos.py", "input.yaml", "poisson", "forward", True),
    (f"{F2}/uniform_mesh/helmholtz_2d", "main_helmholtz.py", "helmholtz_example.py", "input.yaml", "helmholtz", "forward", True),
    (f"{F2}/hard_boundary_constraints/poisson_2d", "main_poisson2d_hard.py", "sin_cos.py", "input.yaml", "poisson", "hard", True),
    (f"{F2}/complex_mesh/poisson2d", "main_poisson2d.py", "sin_cos.py", "input.yaml", "poisson", "forward", True),
    (f"{F2}/complex_mesh/cd2d", "main_cd2d.py", "cd2d_example.py", "input.yaml", "cd2d", "forward", True),
    (f"{F2}/complex_mesh/cd2d_gear", "main_gear_cd2d.py", "cd2d_gear_example.py", "input.yaml", "cd2d", "forward", False),
    (f"{F2}/complex_mesh/helmholtz2d", "main_helmholtz.py", "helmholtz_example.py", "input.yaml", "helmholtz", "forward", True),
    (f"{F2}/complex_mesh/USA", "main_poisson2d.py", "sin_cos.py", "input.yaml", "poisson", "forward", True),
    (f"{I2}/const_inverse_poisson2d", "main_inverse.py", "inverse_uniform.py", "input_inverse.yaml", "poisson_inverse", "inverse", True),
    (f"{I2}/domain_inverse_cd2d/circle", "main_inverse_domain_circle.py", "cd2d_inverse_circle_example.py", "input_inverse_domain.yaml", "cd2d_inverse_domain", "domain", False),
    (f"{I2}/domain_inverse_cd2d/USA", "main_inverse_domain_usa.py", "cd2d_inverse_usa_example.py", "input_inverse_domain.yaml", "cd2d_inverse_domain", "domain", True),
    ("optuna_examples", "main.py", "sin_cos.py", None, "poisson", "forward", True),
]
FULL = 3  # programs with an internal mesh come first


def plan(tier):
    return plans.cases("P34", tier)


def load(path):
    spec = importlib.util.spec_from_file_location("problem_" + str(abs(hash(path))), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


# ------------------------------------------------------------ the problems
STENCIL = {1: 4 / 5, 2: -1 / 5, 3: 4 / 105, 4: -1 / 280}


def diff(f, axis, h=1e-3):
    a, b = (h, 0.0) if axis == 0 else (0.0, h)
    return lambda x, y: sum(c * (f(x + k * a, y + k * b) - f(x - k * a, y - k * b)) for k, c in STENCIL.items()) / h


def k_problems(ctx):
    where, script, problem, cfg, form, kind, known = PROGRAMS[ctx.i % len(PROGRAMS)]
    ctx.desc(program=where)
    m = load(os.path.join(EX, where, problem))
    r = ctx.rng
    x, y = r.uniform(-0.95, 0.95, (2, 400))
    p = m.get_bilinear_params_dict()
    bf, bc = m.get_boundary_function_dict(), m.get_bound_cond_dict()
    ctx.check(set(bf) == set(bc), f"boundary functions for {sorted(bf)}, conditions for {sorted(bc)}")
    need = set(api.PARAMS[form]) - {"eps"}
    ctx.check(need <= set(p), f"coefficients {sorted(p)}, the equation needs {sorted(need)}")
    if known:
        u, f = m.exact_solution, m.rhs
        ux, uy = diff(u, 0), diff(u, 1)
        if kind == "domain":
            E = lambda a, b: m.get_inverse_params_actual_dict(a, b)["eps"]
            Lu = -(diff(lambda a, b: E(a, b) * ux(a, b), 0)(x, y) + diff(lambda a, b: E(a, b) * uy(a, b), 1)(x, y))
        elif kind == "inverse":
            Lu = -m.get_inverse_params_actual_dict()["eps"] * (diff(ux, 0)(x, y) + diff(uy, 1)(x, y))
        else:
            Lu = -p["eps"] * (diff(ux, 0)(x, y) + diff(uy, 1)(x, y))
        if form == "helmholtz":
            Lu = -Lu + p["k"] ** 2 * u(x, y)
        else:
            Lu = Lu + p.get("b_x", 0) * ux(x, y) + p.get("b_y", 0) * uy(x, y) + p.get("c", 0) * u(x, y)
        fv = f(x, y) + 0.0 * x
        ctx.close(fv, Lu, 1e-7, "the forcing is not that of the exact solution", scale=max(1.0, np.max(np.abs(Lu))))
        ctx.note("points_of_problems", x.size)
        # the boundary values are those of the exact solution
        conf = yaml.safe_load(open(os.path.join(EX, where, cfg))) if cfg else None
        if conf is None or conf["geometry"]["mesh_generation_method"] == "internal":
            q = conf["geometry"]["internal_mesh_params"] if conf else {"x_min": 0, "x_max": 1, "y_min": 0, "y_max": 1}
            t = r.uniform(0, 1, 50)
            X, Y = q["x_min"] + t * (q["x_max"] - q["x_min"]), q["y_min"] + t * (q["y_max"] - q["y_min"])
            sides = {1000: (X, 0 * X + q["y_min"]), 1001: (0 * Y + q["x_max"], Y), 1002: (X, 0 * X + q["y_max"]), 1003: (0 * Y + q["x_min"], Y)}
        else:
            mesh = meshio.read(os.path.join(EX, where, conf["geometry"]["external_mesh_params"]["mesh_file_name"]))
            tags, lines = mesh.cell_data_dict["medit:ref"]["line"], mesh.cells_dict["line"]
            sides = {int(k): tuple(mesh.points[np.unique(lines[tags == k])][:, :2].T) for k in np.unique(tags)}
        ctx.check(set(sides) <= set(bf), f"boundary functions for {sorted(bf)}, the boundary has {sorted(sides)}")
        for k, (a, b) in sides.items():
            got = np.array([float(np.ravel(bf[k](s, t))[0]) for s, t in zip(a, b)])
            ctx.close(got, u(a, b) + 0.0 * a, 1e-9, f"boundary values of tag {k} are not those of the exact solution", scale=max(1.0, np.max(np.abs(u(x, y)))))
            ctx.note("boundary_values_of_problems", got.size)
    # data files belong to the points of their mesh
    for name in os.listdir(os.path.join(EX, where)):
        if name.endswith(".csv"):
            conf = yaml.safe_load(open(os.path.join(EX, where, cfg)))
            mesh = meshio.read(os.path.join(EX, where, conf["geometry"]["external_mesh_params"]["mesh_file_name"]))
            data = np.loadtxt(os.path.join(EX, where, name), delimiter=",")
            ctx.check(len(data) == len(mesh.points), f"{name} has {len(data)} lines, the mesh {len(mesh.points)} points")
            ctx.close(data[:, :2], mesh.points[:, :2], 2e-5, f"{name}: the points are not those of the mesh")
            ctx.note("lines_of_data", len(data))
    ctx.note("problems_observed")


# ------------------------------------------------------------ the programs
def cut_mesh(src, dst, rng, keep):
    """The mesh with a part of its quadrilaterals (its points and edges stay as they are)."""
    text = open(src).read().split("\n")
    at = next(i for i, l in enumerate(text) if l.strip() == "Quadrilaterals")
    n = int(text[at + 1])
    rows = text[at + 2 : at + 2 + n]
    if n > keep:
        k = np.sort(rng.choice(n, keep, replace=False))
        rows = [rows[i] for i in k]
    with open(dst, "w") as f:
        f.write("\n".join(text[: at + 1] + [f" {len(rows)}"] + rows + text[at + 2 + n :]))


def configure(ctx, conf, kind, random_one):
    r = ctx.rng
    conf["model"]["epochs"] = int(r.integers(2, 6))
    for k in conf["logging"]:
        conf["logging"][k] = int(r.integers(1, 4))
    geo = conf["geometry"]
    q = geo["internal_mesh_params"]
    q["n_test_points_x"], q["n_test_points_y"] = (int(v) for v in r.integers(5, 30, 2))
    out = 2 if kind == "domain" else 1
    if random_one:
        q["n_cells_x"], q["n_cells_y"] = (int(v) for v in r.integers(1, 6, 2))
        q["n_boundary_points"] = int(r.integers(10, 200))
        fe = conf["fe"]
        fe["fe_order"], fe["quad_order"] = int(r.integers(2, 6)), int(r.integers(3, 9))
        fe["fe_type"] = O.FAMILIES[int(r.integers(0, 5))]
        fe["quad_type"] = ctx.pick(["gauss-legendre", "gauss-jacobi"])
        conf["pde"]["beta"] = float(np.round(10 ** r.uniform(-1, 2), 3))
        mo = conf["model"]
        mo["model_architecture"] = [2] + [int(v) for v in r.integers(3, 25, int(r.integers(1, 5)))] + [out]
        mo["activation"] = ctx.pick(["tanh", "sigmoid", "swish", "softplus"])
        mo["dtype"] = ctx.pick(["float32", "float64"])
        mo["learning_rate"] = {
            "initial_learning_rate": float(10 ** r.uniform(-4, -2)),
            "use_lr_scheduler": bool(r.integers(0, 2)),
            "decay_steps": int(r.integers(1, 4)),
            "decay_rate": float(r.uniform(0.5, 1)),
            "staircase": bool(r.integers(0, 2)),
        }
        geo["external_mesh_params"]["boundary_refinement_level"] = int(r.integers(1, 5))
        geo["external_mesh_params"]["boundary_sampling_method"] = ctx.pick(["uniform", "lhs"])
        if "inverse" in conf:
            conf["inverse"]["num_sensor_points"] = int(r.integers(2, 80))
    else:
        # the shipped configuration, with fewer points of the rule where it is very large
        conf["fe"]["quad_order"] = min(conf["fe"]["quad_order"], 12)
        q["n_boundary_points"] = min(q["n_boundary_points"], 400)
    return conf


def run_program(ctx, entry, random_one, keep, arguments=None, extra=None):
    where, script, problem, cfg, form, kind, known = entry
    here = os.path.join(ctx.scratch, "examples")
    os.makedirs(os.path.join(here, os.path.dirname(where)), exist_ok=True)
    d = os.path.join(here, where)
    shutil.copytree(os.path.join(EX, where), d, ignore=shutil.ignore_patterns("output*", "*.png", "*.ipynb", "__pycache__"))
    conf = yaml.safe_load(open(os.path.join(EX, where, cfg) if cfg else os.path.join(REPO, "input.yaml")))
    ext = conf["geometry"]["mesh_generation_method"] == "external"
    if ext:
        name = conf["geometry"]["external_mesh_params"]["mesh_file_name"]
        to = os.path.normpath(os.path.join(d, name))
        os.makedirs(os.path.dirname(to), exist_ok=True)
        cut_mesh(os.path.join(EX, where, name), to, ctx.rng, keep)
    conf = configure(ctx, conf, kind, random_one)
    with open(os.path.join(d, "case.yaml"), "w") as f:
        yaml.safe_dump(conf, f)
    ctx.desc(program=where, script=script, configuration=conf)
    out = os.path.join(ctx.scratch, "record.pkl")
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + verif, TF_CPP_MIN_LOG_LEVEL="3")
    if kind == "forward" and where == "optuna_examples":
        env["PYTHONPATH"] += os.pathsep + os.path.join(verif, "fvm", "stubs")
    env.update(extra or {})
    log = open(os.path.join(ctx.scratch, "log"), "w")
    run = [sys.executable, os.path.join(verif, "fvm", "exrun.py"), out, str(int(ctx.rng.integers(0, 2**31))), script, *(arguments or ["case.yaml"])]
    try:
        code = subprocess.run(run, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, timeout=600).returncode
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{where} did not end in time")
    log.close()
    text = open(log.name, errors="replace").read()
    if code < 0:
        raise Inconclusive(f"{where} was killed by signal {-code}")
    ctx.check(code == 0, lambda: f"the program {where} fails with its configuration: {text.strip().splitlines()[-1][:300] if text.strip() else code}")
    rec = pickle.load(open(out, "rb"))
    rec["log"] = text
    return d, conf, rec, load(os.path.join(d, problem))


def follow(ctx, entry, random_one, keep):
    where, script, problem, cfg, form, kind, known = entry
    d, conf, rec, prob = run_program(ctx, entry, random_one, keep)
    outdir = os.path.join(d, conf["experimentation"]["output_path"])
    mo, fe, geo = conf["model"], conf["fe"], conf["geometry"]
    n = mo["epochs"]
    steps = rec["steps"]
    ctx.check(rec["models"] == 1 and len(steps) == n, f"{rec['models']} models, {len(steps)} steps; {n} epochs are configured")
    ctx.check(all(s["kind"] == kind for s in steps), f"the model is of kind {steps[0]['kind']}")
    # the mesh of the configuration
    cells, bd = rec["meshes"][-1]
    if geo["mesh_generation_method"] == "internal":
        q = geo["internal_mesh_params"]
        ctx.check(len(cells) == q["n_cells_x"] * q["n_cells_y"], f"{len(cells)} cells, configured are {q['n_cells_x']} x {q['n_cells_y']}")
        lo, hi = cells.reshape(-1, 2).min(0), cells.reshape(-1, 2).max(0)
        ctx.close([*lo, *hi], [q["x_min"], q["y_min"], q["x_max"], q["y_max"]], 1e-12, "limits of the mesh")
        ctx.check(sum(map(len, bd.values())) == 4 * (q["n_boundary_points"] // 4), "number of boundary points")
        want = sum(1 for _ in rec["test_points"][-1])
        ctx.check(want == q["n_test_points_x"] * q["n_test_points_y"], f"{want} test points")
    # the network of the configuration
    dtype = tf.float32 if mo["dtype"] == "float32" else tf.float64
    shapes = [w.shape for w in steps[0]["weights"] if np.ndim(w) > 0]
    arch = mo["model_architecture"]
    want = [s for a, b in zip(arch[:-1], arch[1:]) for s in ((a, b), (b,))]
    # (a network of its own is reported at the end, when all else is right)
    own = shapes != want and shapes == [(2, 30), (30,), (30, 30), (30,), (30, 30), (30,), (30, 1), (1,)]
    ctx.check(shapes == want or own, f"the model has layers {[s[0] for s in shapes[::2]] + [shapes[-1][0]]}, configured are {arch}")
    ctx.check(all(w.dtype == dtype.as_numpy_dtype for w in steps[0]["weights"]), f"weights are not of type {mo['dtype']}")
    # every step against the reference, built from the cells and the problem
    R = Run.__new__(Run)
    R.ctx, R.kind, R.form, R.dtype, R.act, R.attention = ctx, kind, form, dtype, mo["activation"], False
    cast = (lambda a: np.asarray(a, np.float32).astype(np.float64)) if dtype == tf.float32 else (lambda a: np.asarray(a, np.float64))
    R.cast = cast
    A = [O.Assembled(c, fe["fe_type"], fe["fe_order"], fe["quad_type"], fe["quad_order"], "bilinear") for c in cells]
    R.V, R.GX, R.GY = (cast(np.array([getattr(a, k) for a in A])) for k in ("Vw", "Gxw", "Gyw"))
    R.X = cast(np.concatenate([a.pts for a in A]))
    R.F = cast(np.array([a.Vw @ np.ravel(prob.rhs(a.pts[:, 0], a.pts[:, 1]) + 0.0 * a.pts[:, 0]) for a in A]).T)
    bf = prob.get_boundary_function_dict()
    R.DX = cast(np.concatenate([v[:, :2] for v in bd.values()]))
    R.DY = cast(np.concatenate([[float(np.ravel(bf[k](s, t))[0]) for s, t in v[:, :2]] for k, v in bd.items()]).reshape(-1, 1))
    R.sens = tuple(cast(v.reshape(-1, w)) for v, w in zip(rec["sensors"][-1], (2, 1))) if rec["sensors"] else None
    R.cons = None
    if kind == "hard":
        R.cons = Hard(np.random.default_rng(0), "tanh", ((0.0, 1.0), (0.0, 1.0)), dtype)
        R.cons.k, R.cons.a, R.cons.c = 4 * np.pi, 0.0, 0.0
    R.tol = 1e-3 if dtype == tf.float32 else 1e-8
    params = {k: float(v) for k, v in prob.get_bilinear_params_dict().items()}
    beta = conf["pde"]["beta"]
    if R.sens is not None:
        ctx.check(len(R.sens[0]) <= conf["inverse"]["num_sensor_points"], f"{len(R.sens[0])} sensors")
        if known:
            e = prob.exact_solution(R.sens[0][:, 0], R.sens[0][:, 1])
            ctx.close(R.sens[1][:, 0], e, 1e-4 if dtype == tf.float32 else 1e-9, "sensor values", scale=1 + np.max(np.abs(e)))
    for k, s in enumerate(steps):
        Wt = [np.asarray(w, np.float64) for w in s["weights"] if np.ndim(w) > 0]
        inv = {a: float(b) for a, b in s["inverse"].items()}
        if kind == "inverse" and k == 0:
            ini = prob.get_inverse_params_dict()
            ctx.close([inv[a] for a in sorted(ini)], [ini[a] for a in sorted(ini)], 1e-6, "start values of the unknown constants")
        want = R.expected(Wt, inv, beta, {a: cast(b) for a, b in params.items()})
        R.compare_losses(s["out"], want, f"{where}, step {k + 1}")
        ctx.note("steps_observed")
    # what was saved
    read = lambda name: np.loadtxt(os.path.join(outdir, name), ndmin=1)
    ctx.close(read("loss_function.txt"), [float(s["out"]["loss"]) for s in steps], 1e-12, "loss_function.txt")
    tp = rec["test_points"][-1]
    Wt = [np.asarray(w, np.float64) for w in rec["weights"] if np.ndim(w) > 0]
    X = cast(tp)
    u = O.mlp(Wt, X, mo["activation"])[0]
    if R.cons is not None:
        u = R.predict(Wt, X)[0]
    ptol = 3e-5 if dtype == tf.float32 else 1e-10
    size = 1 + np.max(R.size(Wt, X))
    pred = read("prediction.txt").ravel()
    ctx.close(pred, u[:, 0], ptol, "prediction.txt is not the prediction of the trained network", scale=size)
    exact = read("exact.txt").ravel()
    csv = [f for f in os.listdir(d) if f.endswith(".csv")]
    if csv and not known:
        data = np.loadtxt(os.path.join(d, csv[0]), delimiter=",")
        e = data[:, 2]
    else:
        e = prob.exact_solution(tp[:, 0], tp[:, 1]) + 0.0 * tp[:, 0]
    ctx.close(exact, e, 1e-11, "exact.txt", scale=1 + np.max(np.abs(e)))
    ctx.close(np.abs(read("error.txt").ravel()), np.abs(exact - pred), 1e-6 if dtype == tf.float32 else 1e-12, "error.txt", scale=1 + np.max(np.abs(e)) + np.max(np.abs(pred)))
    ctx.note("values_saved", 3 * len(pred))
    if kind == "domain":
        inv = read("inverse_prediction.txt").ravel()
        ctx.close(inv, u[:, 1], ptol, "inverse_prediction.txt is not the second output", scale=size)
    if kind == "inverse":
        name = sorted(steps[0]["out"]["inverse_params"])[0]
        ctx.close(read("inverse_params.txt"), [float(s["out"]["inverse_params"][name]) for s in steps], 1e-12, "inverse_params.txt")
    ck = tf.train.load_checkpoint(os.path.join(outdir, "model_weights"))
    saved = [ck.get_tensor(k) for k in ck.get_variable_to_shape_map() if "VARIABLE_VALUE" in k and "optimizer" not in k.lower() and "save_counter" not in k]
    for w in rec["weights"]:
        ctx.check(any(np.shape(v) == w.shape and np.array_equal(v, w) for v in saved), f"the saved weights do not contain those of shape {w.shape} of the trained model")
    for f in sorted(os.listdir(outdir)):
        if f.startswith("prediction_") and f.endswith(".vtk"):
            m = meshio.read(os.path.join(outdir, f))
            ctx.close(m.points[:, :2], tp, 1e-6, f"{f}: points", scale=1 + np.max(np.abs(tp)))
            ctx.check(len(m.cells_dict["quad"]) == len(cells), f"{f}: {len(m.cells_dict['quad'])} cells")
            if f == f"prediction_{n}.vtk":
                col = {k: np.ravel(v) for k, v in m.point_data.items()}
                ctx.check(any(np.allclose(v, pred, rtol=0, atol=1e-5 * size) for v in col.values()), f"{f} does not hold the prediction")
                ctx.check(any(np.allclose(v, exact, rtol=0, atol=1e-5 * (1 + np.max(np.abs(exact)))) for v in col.values()), f"{f} does not hold the exact solution")
            ctx.note("solution_files")
    names = os.listdir(outdir)
    if geo["mesh_generation_method"] == "internal":
        ctx.check("loss_function.png" in names, "loss_function.png is missing")
        ctx.check("internal.msh" in names and "internal.vtk" in names, "the files of the mesh are missing")
    if geo.get("generate_mesh_plot"):
        ctx.check("mesh.png" in names and "mesh.svg" in names, "the plot of the mesh is missing")
    ctx.note("programs_observed")
    ctx.distinct(where, random_one, ctx.i)
    ctx.check(not own, f"{where}/{script} builds the network [2, 30, 30, 30, 1] whatever model_architecture is configured (here {arch})")


def k_shipped(ctx):
    follow(ctx, PROGRAMS[ctx.i % len(PROGRAMS)], False, 150 if ctx.tier == "quick" else 10**6 if ctx.i % 12 != 5 else 1500)


def k_configured(ctx):
    follow(ctx, PROGRAMS[(5 * ctx.i + 1) % len(PROGRAMS)], True, 40)


def k_tuned(ctx):
    """The program that tunes the hyperparameters (with a stand-in for optuna, on a machine without accelerators)."""
    r = ctx.rng
    n, epochs = int(r.integers(1, 4)), int(r.integers(1, 4))
    trials = [plan_of(ctx) for _ in range(n)]
    args = ["--optimized", "--n-trials", str(n), "--n-epochs", str(epochs)]
    d, conf, rec, prob = run_program(ctx, PROGRAMS[-1], False, 0, args, {"FVM_TRIALS": json.dumps(trials)})
    ctx.desc(trials=n, epochs=epochs)
    ctx.check(len(rec["studies"]) == 1, f"{len(rec['studies'])} studies")
    st = rec["studies"][0]
    ctx.check(len(st) == n and all(v is not None and np.isfinite(v) for _, _, v in st), f"{n} trials are requested, the values are {[v for _, _, v in st]}")
    ctx.check(rec["models"] == n and len(rec["steps"]) == n * epochs, f"{rec['models']} models and {len(rec['steps'])} steps for {n} trials of {epochs} epochs")
    best = min(st, key=lambda t: t[2])[1]
    lines = [l.strip() for l in rec["log"].split("\n")]
    at = lines.index("Best hyperparameters:")
    said = dict(l.split(": ", 1) for l in lines[at + 1 :] if ": " in l)
    for k, v in best.items():
        ctx.check(said.get(k) == str(v), f"reported {k} = {said.get(k)}, the best trial has {v}")
    ctx.note("tuned_observed")
    ctx.distinct(n, epochs, ctx.i)


KINDS = {"tuned": k_tuned, "problems": k_problems, "shipped": k_shipped, "configured": k_configured}
