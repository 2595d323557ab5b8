"""Runs one shipped program in a process of its own and records what crosses the public interface of the package.

    exrun.py OUT SEED SCRIPT [ARGUMENTS...]

Nothing of the script is changed. Recorded are: what meshing returned, the test points that were
handed out, the sensor data given to the model, and for each training step the model's weights before it, its arguments and what it reported.
"""
import os
import pickle
import random
import runpy
import sys

import numpy as np


def main(out, seed, script, *arguments):
    random.seed(seed)
    np.random.seed(seed)
    import tensorflow as tf

    tf.random.set_seed(seed)
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.model import model, model_hard, model_inverse, model_inverse_domain

    rec = {"steps": [], "meshes": [], "test_points": [], "sensors": []}
    num = lambda t: np.asarray(t.numpy() if hasattr(t, "numpy") else t)
    flat = lambda o: {k: flat(v) for k, v in o.items()} if isinstance(o, dict) else num(o)

    def watch(cls, name, after):
        real = getattr(cls, name)

        def wrapped(self, *a, **k):
            r = real(self, *a, **k) if not hasattr(real, "__get__") else real.__get__(self, cls)(*a, **k)
            after(r)
            return r

        setattr(cls, name, wrapped)

    mesh = lambda r: rec["meshes"].append((np.array(r[0]), {k: np.array(v) for k, v in r[1].items()}))
    watch(Geometry_2D, "generate_quad_mesh_internal", mesh)
    watch(Geometry_2D, "read_mesh", mesh)
    watch(Geometry_2D, "get_test_points", lambda r: rec["test_points"].append(np.array(r)))
    models = []
    for kind, cls in (
        ("forward", model.DenseModel),
        ("hard", model_hard.DenseModel_Hard),
        ("inverse", model_inverse.DenseModel_Inverse),
        ("domain", model_inverse_domain.DenseModel_Inverse_Domain),
    ):
        def step(self, *a, _real=cls.train_step, _kind=kind, _cls=cls, **k):
            if not any(m is self for m in models):
                models.append(self)
            before = [np.array(w) for w in self.get_weights()]
            inv = flat(getattr(self, "inverse_params_dict", {}) or {})
            r = _real.__get__(self, _cls)(*a, **k)
            rec["steps"].append({"kind": _kind, "weights": before, "inverse": inv, "args": flat(dict(enumerate(a)) | k), "out": flat(r)})
            return r

        def init(self, *a, _real=cls.__init__, **k):
            if "sensor_list" in k:
                rec["sensors"].append(tuple(num(v) for v in k["sensor_list"]))
            _real(self, *a, **k)

        cls.train_step, cls.__init__ = step, init
    if os.environ.get("FVM_TRIALS"):
        import json

        import optuna  # the stand-in

        plans = json.loads(os.environ["FVM_TRIALS"])
        optuna.CONFIG["make"] = lambda j: optuna.Trial(j, np.random.default_rng([seed, j]), plans[j % len(plans)])
    sys.argv = [script, *arguments]
    sys.path.insert(0, os.getcwd())
    try:
        runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        if e.code not in (0, None):
            raise
    if os.environ.get("FVM_TRIALS"):
        rec["studies"] = [[(t.number, t.params, t.value) for t in st.trials] for st in optuna.CONFIG["studies"]]
    rec["models"] = len(models)
    rec["weights"] = [np.array(w) for w in models[-1].get_weights()] if models else []
    with open(out, "wb") as f:
        pickle.dump(rec, f)


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), *sys.argv[3:])
