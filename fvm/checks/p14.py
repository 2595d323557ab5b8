"""P14: each equation's loss is the mean squared weighted residual of its weak form, cell by cell."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.checks.p13 import FORMS

DT = {"float32": tf.float32, "float64": tf.float64}


def signs(r, n, nq):
    """Coefficient fields: positive, of any sign, tiny, mostly zero."""
    a = np.abs(r.normal(size=(n, nq))) + 0.1
    return [a, a, r.normal(size=(n, nq)), a * 10.0 ** r.uniform(-8, 1, (n, nq)), np.where(r.uniform(size=(n, nq)) < 0.8, 0.0, -a)][int(r.integers(0, 5))]


def inputs(r, n, nt, nq, scale):
    g = lambda *s: r.normal(size=s) * scale
    return dict(V=g(n, nt, nq), GX=g(n, nt, nq), GY=g(n, nt, nq), u=g(n, nq), ux=g(n, nq), uy=g(n, nq), F=g(nt, n), coef=signs(r, n, nq))


def rand_params(r, k, large=5.0):
    p = {"eps": float(r.uniform(0.05, 3)), "b_x": float(r.normal()), "b_y": float(r.normal()), "c": float(r.normal()), "k": float(r.uniform(0.1, 5))}
    if k % 8 == 7:
        j = ["eps", "b_x", "b_y", "c", "k"][int(r.integers(0, 5))]
        p[j] = float(r.choice([-1, 1]) * 10.0 ** r.uniform(2, large))
        return p
    if k % 4 == 3:
        return W.hostile(r, p, 0.6)
    z = [None, "b_x", "b_y", "c", "eps", "k"][k % 6]
    if z:
        p[z] = 0.0 if k % 12 < 6 else -p[z]
    return p


def evaluate(form, D, p, dt, ptype="tensor", graph=False):
    T = lambda a: tf.constant(a, dtype=dt)
    conv = {"tensor": lambda v: tf.constant(v, dtype=dt), "float": float, "variable": lambda v: tf.Variable(v, dtype=dt)}[ptype]
    kw = dict(
        test_shape_val_mat=T(D["V"]),
        test_grad_x_mat=T(D["GX"]),
        test_grad_y_mat=T(D["GY"]),
        pred_nn=T(D["u"]),
        pred_grad_x_nn=T(D["ux"]),
        pred_grad_y_nn=T(D["uy"]),
        forcing_function=T(D["F"]),
    )
    tp = {k: conv(p[k]) for k in api.PARAMS[form]}
    if form.endswith("_inverse"):
        kw["bilinear_params"] = {k: v for k, v in tp.items() if k != "eps"}
        kw["inverse_params_dict"] = {"eps": tf.Variable(p["eps"], dtype=dt)}
    elif form == "cd2d_inverse_domain":
        kw["bilinear_params"] = tp
        kw["inverse_params_list"] = [T(D["coef"])]
    else:
        kw["bilinear_params"] = tp
    f = api.LOSS[form]
    return np.asarray((tf.function(f) if graph else f)(**kw))


def reference(form, D, p, dt):
    R = {k: v.astype(dt.as_numpy_dtype).astype(float) for k, v in D.items()}
    pr = {k: float(dt.as_numpy_dtype(v)) for k, v in p.items()}
    a = (R["V"], R["GX"], R["GY"], R["u"], R["ux"], R["uy"], R["F"], pr)
    want = O.losses(form, *a, coef=R["coef"])
    # a bound for the size of the terms, to judge rounding by
    A = {k: np.abs(v) for k, v in R.items()}
    pa = {k: abs(v) for k, v in pr.items()}
    mag = O.losses("cd2d_inverse_domain" if form == "cd2d_inverse_domain" else "cd2d", A["V"], A["GX"], A["GY"], A["u"], A["ux"], A["uy"], -A["F"], {**pa, "c": pa["c"] + pa["k"] ** 2}, coef=A["coef"])
    return want, mag


def observe(ctx, form, D, p, dtn, ptype="tensor", graph=False, what=""):
    dt = DT[dtn]
    got = evaluate(form, D, p, dt, ptype, graph)
    want, mag = reference(form, D, p, dt)
    ctx.check(got.shape == want.shape, f"{what}{form}: losses of shape {got.shape}, expected {want.shape}")
    ctx.check(got.dtype == dt.as_numpy_dtype, f"{what}{form}: losses are {got.dtype} for {dtn} data")
    tol = 2e-5 if dtn == "float32" else 1e-12
    err = np.abs(got - want) / np.maximum(mag, 1e-300)
    c = int(np.argmax(err))
    ctx.check(err[c] <= tol, f"{what}{form} ({dtn}): loss of cell {c} is {got[c]!r}, the weak form gives {want[c]!r}")
    ctx.note("losses_observed", len(got))
    return got


def size(r, i):
    return [
        (int(r.integers(1, 6)), int(r.integers(1, 10)), int(r.integers(1, 12))),
        (1, 4, 9),
        (int(r.integers(40, 200)), 4, 9),
        (3, int(r.integers(30, 100)), 16),
        (4, 4, int(r.integers(60, 200))),
        [(int(r.integers(1000, 4000)), 4, 9), (2, int(r.integers(200, 500)), 9), (2, 4, int(r.integers(400, 1500))), (int(r.integers(260, 700)), 9, 16)][(i // 6) % 4],
        (5, 5, 5),  # equal sizes hide no transposition from the oracle
    ][i % 7]


def k_random(ctx):
    r = ctx.rng
    n, nt, nq = size(r, ctx.i)
    for form in FORMS:
        for dtn in DT:
            D = inputs(r, n, nt, nq, [1.0, 1e-3, 1e2][ctx.i % 3])
            p = rand_params(r, ctx.i + FORMS.index(form), 9.0 if dtn == "float64" else 4.0)
            ptype = ["tensor", "float", "variable"][(ctx.i + (dtn == "float64")) % 3]
            ctx.desc(form=form, dtype=dtn, shape=[n, nt, nq], params=p, parameters_as=ptype)
            observe(ctx, form, D, p, dtn, ptype, graph=bool(ctx.i % 8 == 7))
            ctx.distinct(form, dtn, n, nt, nq, ptype, ctx.i % 12)


def k_terms(ctx):
    """One term at a time: everything else zero, so that no term can hide behind another."""
    r = ctx.rng
    for form in FORMS:
        for live in ("ux", "uy", "u", "F"):
            for dtn in DT:
                D = inputs(r, 3, 4, 5, 1.0)
                for k in ("ux", "uy", "u", "F"):
                    if k != live:
                        D[k] = np.zeros_like(D[k])
                observe(ctx, form, D, rand_params(r, ctx.i), dtn, what=f"only {live}: ")
                ctx.distinct(form, live, dtn)
    ctx.desc(terms=["ux", "uy", "u", "F"])


def k_local(ctx):
    """Changing one cell changes that cell's loss only; permuting cells permutes the losses."""
    r = ctx.rng
    for form in FORMS:
        n = int(r.integers(2, 9))
        D = inputs(r, n, 4, 6, 1.0)
        p = rand_params(r, ctx.i)
        base = observe(ctx, form, D, p, "float64")
        c = int(r.integers(0, n))
        E = {k: v.copy() for k, v in D.items()}
        for k in ("u", "ux", "uy", "coef"):
            E[k][c] += r.normal(size=E[k][c].shape)
        E["F"][:, c] += 1.0
        new = evaluate(form, E, p, tf.float64)
        others = [k for k in range(n) if k != c]
        ctx.check(np.allclose(base[others], new[others], rtol=1e-12, atol=0), f"{form}: a change in cell {c} changed the loss of another cell")
        ctx.check(abs(base[c] - new[c]) > 1e-9, f"{form}: a change in cell {c} did not reach its loss")
        perm = r.permutation(n)
        G = {k: (v[:, perm] if k == "F" else v[perm]) for k, v in D.items()}
        ctx.check(np.allclose(evaluate(form, G, p, tf.float64), base[perm], rtol=1e-11, atol=1e-300), f"{form}: losses do not follow a permutation of the cells")
        ctx.note("locality_observed", n)
    ctx.desc(cells=n)


def k_extreme(ctx):
    """One coefficient far larger or smaller than the others, in each role."""
    r = ctx.rng
    for form in FORMS:
        for name in ("eps", "b_x", "b_y", "c", "k"):
            for dtn, hi in (("float64", 12.0), ("float32", 4.0)):
                if name not in api.PARAMS[form] and not (name == "eps" and form.endswith("_inverse")):
                    continue
                p = rand_params(r, 0)
                p[name] = float(r.choice([-1, 1]) * 10.0 ** (r.uniform(1, hi) * r.choice([-1, 1])))
                D = inputs(r, 3, 4, 5, 1.0)
                if abs(p[name]) < 1 and r.integers(0, 2):
                    # nothing else, so that the small term is all there is
                    D["F"] *= 0.0
                    p = {k: (v if k == name else 0.0) for k, v in p.items()}
                    D["coef"] *= 0.0
                observe(ctx, form, D, p, dtn, what=f"{name} = {p[name]!r}: ")
                ctx.note("extremes_observed")
                ctx.distinct(form, name, dtn, p[name])
    ctx.desc(forms=len(FORMS))


def k_history(ctx):
    """The same traced loss used again with other sizes, precisions and parameter values."""
    r = ctx.rng
    for step in range(12):
        form = FORMS[int(r.integers(0, 6))]
        n, nt, nq = int(r.integers(1, 5)), int(r.integers(1, 5)), int(r.integers(1, 5))
        D = inputs(r, n, nt, nq, 1.0)
        for rep in range(2):
            observe(ctx, form, D, rand_params(r, step + rep), list(DT)[int(r.integers(0, 2))], what=f"step {step}: ")
    ctx.desc(steps=12)
    ctx.note("histories")


KINDS = {"extreme": k_extreme, "random": k_random, "terms": k_terms, "local": k_local, "history": k_history}
