"""P13: the exact solution of an equation has zero variational residual, on any mesh."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W

FORMS = ["poisson", "cd2d", "helmholtz", "poisson_inverse", "cd2d_inverse", "cd2d_inverse_domain"]


def strong(form, u, p, a=None):
    ux, uy = u.d(0), u.d(1)
    if form.startswith("poisson"):
        return lambda x, y: -p["eps"] * u.lap(x, y)
    if form in ("cd2d", "cd2d_inverse"):
        return lambda x, y: -p["eps"] * u.lap(x, y) + p["b_x"] * ux(x, y) + p["b_y"] * uy(x, y) + p["c"] * u(x, y)
    if form == "helmholtz":
        return lambda x, y: p["eps"] * u.lap(x, y) + p["k"] ** 2 * u(x, y)
    ax, ay = a.d(0), a.d(1)
    return (
        lambda x, y: -(a(x, y) * u.lap(x, y) + ax(x, y) * ux(x, y) + ay(x, y) * uy(x, y))
        + p["b_x"] * ux(x, y)
        + p["b_y"] * uy(x, y)
        + p["c"] * u(x, y)
    )


def call(form, dh, u, ux, uy, p, coef=None):
    """Feeds given values and derivatives to the loss of the equation."""
    dt = dh.x_pde_list.dtype
    n, _, nq = dh.shape_val_mat_list.shape
    T = lambda v: tf.constant(np.reshape(v, (n, nq)), dtype=dt)
    kw = dict(
        test_shape_val_mat=dh.shape_val_mat_list,
        test_grad_x_mat=dh.grad_x_mat_list,
        test_grad_y_mat=dh.grad_y_mat_list,
        pred_nn=T(u),
        pred_grad_x_nn=T(ux),
        pred_grad_y_nn=T(uy),
        forcing_function=dh.forcing_function_list,
    )
    tp = {k: tf.constant(p[k], dtype=dt) for k in api.PARAMS[form]}
    if form.endswith("_inverse"):
        kw["bilinear_params"] = {k: v for k, v in tp.items() if k != "eps"}
        kw["inverse_params_dict"] = {"eps": tf.Variable(tp["eps"])}
    elif form == "cd2d_inverse_domain":
        kw["bilinear_params"] = tp
        kw["inverse_params_list"] = [T(coef)]
    else:
        kw["bilinear_params"] = tp
    return np.asarray(api.LOSS[form](**kw))


def build(ctx, form, cells, deg, fam, N, qt, extra=0):
    r = ctx.rng
    mid = cells.reshape(-1, 2).mean(0)
    h = np.abs(cells - mid).max()
    u = W.poly2(r, deg, mid[0], mid[1], h)
    a = W.poly2(r, 2, mid[0], mid[1], h)
    p = {"eps": float(r.uniform(0.2, 2)), "b_x": float(r.uniform(-2, 2)), "b_y": float(r.uniform(-2, 2)), "c": float(r.uniform(-1, 2)), "k": float(r.uniform(0.5, 3))}
    f = strong(form, u, p, a)
    need = O.degree1d(fam, N) + deg + 2 + (2 if form == "cd2d_inverse_domain" else 0)
    q = max(3, (need + 1) // 2 + (2 if qt == "gauss-jacobi" else 1) + extra)
    return u, a, p, f, q, h, mid


def observe(ctx, form, cells, deg, fam, N, qt, trans):
    u, a, p, f, q, h, mid = build(ctx, form, cells, deg, fam, N, qt)
    ctx.desc(form=form, cells=len(cells), degree=deg, fe_type=fam, fe_order=N, quad_type=qt, quad_order=q, map=trans, params=p)
    P = api.Problem(ctx.rng, form, tf.float64, order=N, quad=q, family=fam, qtype=qt, trans=trans, cells=cells, f=f)
    X = P.dh.x_pde_list.numpy()
    x, y = X[:, 0], X[:, 1]
    ux, uy = u.d(0), u.d(1)
    got = call(form, P.dh, u(x, y), ux(x, y), uy(x, y), p, a(x, y))
    ctx.check(got.shape == (len(cells),), f"{form}: losses of shape {got.shape}, expected one per cell")
    # size of the terms that have to cancel
    o = np.abs(mid).max() / h
    for c in range(len(cells)):
        A = O.Assembled(cells[c], fam, N, qt, q, trans)
        pts = A.pts
        s = (np.abs(A.Gxw) @ np.abs(ux(pts[:, 0], pts[:, 1])) + np.abs(A.Gyw) @ np.abs(uy(pts[:, 0], pts[:, 1]))) * (p["eps"] + 2) + np.abs(A.Vw) @ (np.abs(f(pts[:, 0], pts[:, 1])) + np.abs(u(pts[:, 0], pts[:, 1])) * 10)
        scale = max(s.max(), 1e-300)
        cond = h * h / np.abs(A.det).min() / len(cells)
        tol = 1e-10 + 1e-13 * o * (1 + cond)
        ctx.check(got[c] >= 0 and np.sqrt(got[c]) <= tol * scale, f"{form}: the exact solution has residual {np.sqrt(got[c]):.3e} in cell {c} (terms of size {scale:.3e})")
    ctx.note("exact_solutions_observed", len(cells))
    # another function is not a solution: the loss is that of the weak form
    v = W.poly2(ctx.rng, deg + 1, mid[0], mid[1], h)
    got = call(form, P.dh, v(x, y), v.d(0)(x, y), v.d(1)(x, y), p, a(x, y))
    P.reference()
    sh = (len(cells), q * q)
    R = lambda z: np.reshape(np.broadcast_to(z, x.shape), sh)
    want = O.losses(form, P.V, P.GX, P.GY, R(v(x, y)), R(v.d(0)(x, y)), R(v.d(1)(x, y)), P.F, p, R(a(x, y)))
    ctx.close(got, want, 1e-8 + 1e-10 * o, f"{form}: loss of a function that is not the solution", scale=want.max())
    ctx.check(want.max() > 0 and got.max() > 0, "the monitor saw no residual at all")
    ctx.note("other_functions_observed", len(cells))


def k_meshes(ctx):
    r = ctx.rng
    form = FORMS[ctx.i % 6]
    fam = O.BUBBLES[int(r.integers(0, 4))]
    N, deg, qt = int(r.integers(2, 5)), int(r.integers(1, 5)), ["gauss-legendre", "gauss-jacobi"][int(r.integers(0, 2))]
    m = W.quad_mesh(r, nmax=3, style=["unit", "perturbed", "rotated", "sheared", "ring", "far", "stretched"][(ctx.i // 6) % 7])
    cells = np.array([O.order_ccw(c) for c in m.cells])
    par = np.abs(cells[:, 0] - cells[:, 1] + cells[:, 2] - cells[:, 3]).max() < 1e-12 * np.abs(cells).max()
    trans = "affine" if par and r.integers(0, 2) else "bilinear"
    observe(ctx, form, cells, deg, fam, N, qt, trans)
    ctx.distinct(form, fam, N, deg, qt, trans, m.style, len(cells))


def k_cells(ctx):
    """Single cells of every shape, start vertex and orientation."""
    r = ctx.rng
    for rep in range(3):
        form = FORMS[(ctx.i + rep) % 6]
        fam = O.BUBBLES[int(r.integers(0, 4))]
        c, style = W.random_quad(r)
        c, s, cw = W.roll(r, c)
        observe(ctx, form, c[None], int(r.integers(1, 4)), fam, int(r.integers(2, 6)), ["gauss-legendre", "gauss-jacobi"][rep % 2], "bilinear")
        ctx.distinct(form, fam, style, s, cw)


def k_generated(ctx):
    """From the generator: rectangles of many scales."""
    r = ctx.rng
    form = FORMS[ctx.i % 6]
    xl, yl = W.limits(r, [0, 1, 2, 3, 6, 7][(ctx.i // 2) % 6]), W.limits(r, [0, 1, 2, 3, 6, 7][(ctx.i // 3) % 6])
    g, cells, bd = api.internal(list(xl), list(yl), int(r.integers(1, 5)), int(r.integers(1, 5)), 8)
    observe(ctx, form, cells, int(r.integers(1, 5)), O.BUBBLES[ctx.i % 4], int(r.integers(2, 5)), ["gauss-legendre", "gauss-jacobi"][ctx.i % 2], ["affine", "bilinear"][(ctx.i // 2) % 2])
    ctx.distinct(form, xl, yl, len(cells))


def k_scales(ctx):
    """Cells of extreme proportions and sizes, one at a time, from any vertex in either orientation."""
    r = ctx.rng
    for rep in range(3):
        form = FORMS[(ctx.i + rep) % 6]
        fam = O.BUBBLES[int(r.integers(0, 4))]
        c, style = W.random_quad(r, ["general", "kite", "trapezoid", "rotated", "square"][int(r.integers(0, 5))])
        c = c - c.mean(0)
        if rep == 1:
            # the Lobatto rule has a point where the map of such a cell is singular: the Gauss rule only
            c, style = W.hanging(r), "hanging"
            c = c - c.mean(0)
        c, s, cw = W.roll(r, c)
        k = int(r.integers(-12, 13))
        S = np.array([2.0**k, 2.0 ** (k + int(r.integers(-7, 8)))]) if rep else np.array([2.0**k] * 2)
        observe(ctx, form, (c * S)[None], int(r.integers(1, 4)), fam, int(r.integers(2, 5)), ["gauss-jacobi", "gauss-legendre", "gauss-jacobi"][rep], "bilinear")
        ctx.note("scaled_observed")
        ctx.distinct(form, fam, style, s, cw, S.tolist())


def k_alike(ctx):
    """Cells that agree in some respect; nearly but not quite parallelograms; long tapered ones; small ones far away; all listed from any vertex."""
    r = ctx.rng
    form = FORMS[ctx.i % 6]
    fam = O.BUBBLES[int(r.integers(0, 4))]
    trans = "bilinear"
    k = (ctx.i // 6) % 4
    if k == 0:
        trans = ["bilinear", "affine"][int(r.integers(0, 2))]
        cells = W.lookalike(r, 6, trans == "affine")
    elif k == 1:
        cells = []
        for _ in range(6):
            q = W.random_quad(r, ["rect", "square", "parallelogram", "rotated"][int(r.integers(0, 4))])[0]
            h = np.abs(q - q.mean(0)).max()
            q = q + r.uniform(-1, 1, q.shape) * h * 10.0 ** r.uniform(-8, -2)
            cells.append(W.roll(r, q)[0])
        cells = np.array(cells)
    elif k == 2:
        cells = np.array([W.roll(r, W.spike(r))[0] for _ in range(4)])
    else:
        trans = ["bilinear", "affine"][int(r.integers(0, 2))]
        cells = W.remote(r, 4, trans == "affine", 4.0)
    # one at a time: what has to cancel is as large as the cell, not as the distance between the cells
    for c in cells if k >= 2 else [cells]:
        observe(ctx, form, c.reshape(-1, 4, 2), int(r.integers(1, 4)), fam, int(r.integers(2, 6)), "gauss-legendre" if k == 2 else ["gauss-legendre", "gauss-jacobi"][int(r.integers(0, 2))], trans)
    ctx.note("alike_observed", len(cells))
    ctx.distinct(form, fam, trans, k, float(cells[0, 0, 0]))


def k_large(ctx):
    """Many cells, high orders."""
    r = ctx.rng
    form = FORMS[ctx.i % 6]
    if ctx.i % 2:
        m = W.structured(r, int(r.integers(15, 24)), int(r.integers(15, 24)), ["perturbed", "unit"][(ctx.i // 2) % 2])
        cells = m[0][np.array(m[1])]
        observe(ctx, form, cells[r.permutation(len(cells))], 2, O.BUBBLES[int(r.integers(0, 4))], 2, "gauss-legendre", "bilinear")
    else:
        c = W.roll(r, W.random_quad(r, "general")[0])[0]
        observe(ctx, form, c[None], int(r.integers(1, 4)), O.BUBBLES[int(r.integers(0, 4))], int(r.integers(7, 13)), ["gauss-legendre", "gauss-jacobi"][(ctx.i // 2) % 2], "bilinear")
    ctx.note("large_observed")
    ctx.distinct(form, ctx.i)


KINDS = {"alike": k_alike, "large": k_large, "scales": k_scales, "meshes": k_meshes, "cells": k_cells, "generated": k_generated}
