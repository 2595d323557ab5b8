"""P32: residuals do not depend on how the domain is described."""
import os

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D, Geometry_2D
from fvm.checks.p13 import FORMS, call

AFFINE = ["unit", "sheared", "stretched"]


class Field:
    """A random dense network with two outputs (solution, coefficient), in the coordinates of the cells."""

    def __init__(self, r, cells):
        self.mid = cells.reshape(-1, 2).mean(0)
        self.h = float(np.abs(cells - self.mid).max())
        n = int(r.integers(3, 9))
        K = r.normal(size=(2, n)) / self.h
        self.W = [K, r.normal(size=n) - self.mid @ K, r.normal(size=(n, 2)), r.normal(size=2)]

    def moved(self, R, t, s=1.0):
        """The same function of the points x' = s R x + t."""
        g = object.__new__(Field)
        K = R @ self.W[0] / s
        g.W = [K, self.W[1] - t @ K, self.W[2], self.W[3]]
        return g

    def times(self, a):
        g = object.__new__(Field)
        out = np.array([a, 1.0])
        g.W = [self.W[0], self.W[1], self.W[2] * out, self.W[3] * out]
        return g

    def plus(self, o, sign=1.0):
        g = object.__new__(Field)
        out = np.array([sign, 0.0])
        g.W = [np.hstack([self.W[0], o.W[0]]), np.concatenate([self.W[1], o.W[1]]), np.vstack([self.W[2], o.W[2] * out]), self.W[3] + o.W[3] * out]
        return g

    def __call__(self, X):
        return O.mlp(self.W, X, "tanh")


class Load:
    def __init__(self, r, mid, h):
        self.f = W.smooth(r, h, mid[0], mid[1])[0]

    def __call__(self, x, y):
        return self.f(x, y)


def setup(ctx, style=None, nmax=3, form=None, family=None):
    r = ctx.rng
    form = form or FORMS[ctx.i % 6]
    style = style or ["unit", "perturbed", "rotated", "sheared", "ring", "stretched", "tiny", "spikes"][(ctx.i // 6 + 3 * (ctx.i % 6)) % 8]
    cells = np.array([W.spike(r) for _ in range(int(r.integers(1, 4)))]) if style == "spikes" else W.quad_mesh(r, nmax=nmax, style=style).cells
    cfg = dict(
        order=int(r.integers(2, 6)),
        quad=int(r.integers(3, 8)),
        family=family or O.FAMILIES[(ctx.i // 2) % 5],
        qtype=["gauss-legendre", "gauss-jacobi"][int(r.integers(0, 2))],
        trans=["affine", "bilinear"][int(r.integers(0, 2))] if style in AFFINE else "bilinear",
    )
    p = {"eps": float(r.uniform(0.2, 2)), "b_x": float(r.uniform(-2, 2)), "b_y": float(r.uniform(-2, 2)), "c": float(r.uniform(-1, 2)), "k": float(r.uniform(0.5, 3))}
    u = Field(r, cells)
    f = Load(r, u.mid, u.h)
    ctx.desc(form=form, style=style, cells=len(cells), params=p, **cfg)
    ctx.distinct(form, style, len(cells), cfg["order"], cfg["family"], cfg["trans"])
    return form, cells, cfg, p, u, f


def losses(ctx, form, cells, cfg, p, u, f, bd=None):
    """The losses per cell by the code under test, and the size of the terms."""
    P = api.Problem(ctx.rng, form, tf.float64, cells=np.asarray(cells), f=f, bd=bd or {1: np.array([[0.0, 0.0]])}, **cfg)
    v, vx, vy = u(P.dh.x_pde_list.numpy())
    a = call(form, P.dh, v[:, 0], vx[:, 0], vy[:, 0], p, v[:, 1])
    ctx.check(a.shape == (len(cells),), f"{form}: losses of shape {a.shape} for {len(cells)} cells")
    n, nq = len(cells), cfg["quad"] ** 2
    R = lambda z: np.abs(z.reshape(n, nq))
    ab = [np.abs(t.numpy()) for t in (P.dh.shape_val_mat_list, P.dh.grad_x_mat_list, P.dh.grad_y_mat_list)]
    q = {k: abs(w) for k, w in p.items()}
    q["c"] += q["k"] ** 2
    F = -np.abs(P.dh.forcing_function_list.numpy())
    dom = form == "cd2d_inverse_domain"
    mag = O.losses("cd2d_inverse_domain" if dom else "cd2d", *ab, R(v[:, 0]), R(vx[:, 0]), R(vy[:, 0]), F, q, R(v[:, 1]) if dom else None)
    ctx.note("losses_observed", n)
    return a, mag


def agree(ctx, a, b, mag, what, tol=1e-11):
    ctx.note("comparisons", len(a))
    ctx.check(np.shape(a) == np.shape(b), f"{what}: {np.shape(a)} and {np.shape(b)} losses")
    err = np.abs(a - b) / np.maximum(mag, 1e-300)
    c = int(np.argmax(err))
    ctx.check(err[c] <= tol, lambda: f"{what}: the loss of cell {c} is {a[c]!r} and {b[c]!r} in the other description (terms of size {mag[c]:.3e})")
    ctx.note("relations_observed", len(a))


def k_permute(ctx):
    form, cells, cfg, p, u, f = setup(ctx)
    a, mag = losses(ctx, form, cells, cfg, p, u, f)
    for _ in range(2):
        s = ctx.rng.permutation(len(cells))
        b, _m = losses(ctx, form, cells[s], cfg, p, u, f)
        agree(ctx, b, a[s], mag[s], f"{form}: cells in another order")


def k_vertices(ctx):
    form, cells, cfg, p, u, f = setup(ctx)
    a, mag = losses(ctx, form, cells, cfg, p, u, f)
    for k in range(3):
        new, rolls = [], []
        for c in cells:
            q, s, cw = W.roll(ctx.rng, c)
            new.append(q), rolls.append((s, cw))
        b, _m = losses(ctx, form, np.array(new), cfg, p, u, f)
        agree(ctx, b, a, mag, f"{form}: cells listed from other vertices and in other orientations {rolls}", 1e-10)


def k_split(ctx):
    form, cells, cfg, p, u, f = setup(ctx, style=None if ctx.i % 3 else "perturbed", nmax=4)
    if len(cells) < 2:
        cells = np.concatenate([cells, cells + 2.5 * u.h])
    a, mag = losses(ctx, form, cells, cfg, p, u, f)
    k = int(ctx.rng.integers(1, len(cells)))
    b1, _m = losses(ctx, form, cells[:k], cfg, p, u, f)
    b2, _m = losses(ctx, form, cells[k:], cfg, p, u, f)
    agree(ctx, np.concatenate([b1, b2]), a, mag, f"{form}: {len(cells)} cells in two spaces of {k} and {len(cells) - k}")
    j = int(ctx.rng.integers(0, len(cells)))
    b, _m = losses(ctx, form, cells[j : j + 1], cfg, p, u, f)
    agree(ctx, b, a[j : j + 1], mag[j : j + 1], f"{form}: cell {j} in a space of its own")
    d = np.concatenate([cells, cells[j : j + 1]])
    b, _m = losses(ctx, form, d, cfg, p, u, f)
    agree(ctx, b, np.append(a, a[j]), np.append(mag, mag[j]), f"{form}: cell {j} listed twice")


def k_nearly(ctx):
    """Cells that are nearly, but not quite, parallelograms, next to some that are, in any unit: each has the loss that it has alone."""
    r = ctx.rng
    form, cells, cfg, p, u, f = setup(ctx, style=["unit", "sheared", "stretched"][ctx.i % 3], nmax=3)
    cfg["trans"] = "bilinear"
    s = float(10 ** r.uniform(-8, 2)) if ctx.i % 2 else 1.0
    d = float(10 ** r.uniform(-7, -2))
    size = np.abs(cells[:, 2] - cells[:, 0]).max(1)[:, None, None]
    moved = cells + r.uniform(-d, d, cells.shape) * size * (r.uniform(0, 1, (len(cells), 1, 1)) < 0.7)
    cells = np.concatenate([cells[:1], moved]) * s
    u = Field(r, cells)
    f = Load(r, u.mid, u.h)
    a, mag = losses(ctx, form, cells, cfg, p, u, f)
    for t in ([np.arange(len(cells))[::-1]] + [r.permutation(len(cells)) for _ in range(2)]):
        b, _m = losses(ctx, form, cells[t], cfg, p, u, f)
        agree(ctx, b, a[t], mag[t], f"{form}: cells of size {s:.1e}, distorted by {d:.1e}, in another order")
    for j in r.permutation(len(cells))[:3]:
        b, _m = losses(ctx, form, cells[j : j + 1], cfg, p, u, f)
        agree(ctx, b, a[j : j + 1], mag[j : j + 1], f"{form}: cell {j} (size {s:.1e}, distorted by {d:.1e}) in a space of its own")
    ctx.note("nearly_observed", len(cells))


def k_graded(ctx):
    """Cells of very different sizes in one space: each has the loss that it has alone."""
    r = ctx.rng
    form, cells, cfg, p, u, f = setup(ctx, nmax=2)
    # shrunken copies of the cells next to the given ones
    mid, n = u.mid, len(cells)
    parts, fields = [cells], []
    sizes = [float(10 ** -r.uniform(a, a + 2)) for a in (1, 3, 5, 7)]
    for s in sizes:
        t = mid + r.uniform(-2, 2, 2) * u.h
        parts.append(s * (cells[int(r.integers(0, n))] - mid)[None] + t)
    order = r.permutation(n + len(sizes))
    every = np.concatenate(parts)[order]
    a, mag = losses(ctx, form, every, cfg, p, u, f)
    for k in range(len(every)):
        b, _m = losses(ctx, form, every[k : k + 1], cfg, p, u, f)
        # the coordinates of a small cell carry the rounding of its place
        agree(ctx, b, a[k : k + 1], mag[k : k + 1], f"{form}: cell {k} of a mesh with cells {sizes} times as large, in a space of its own", 1e-11)
    ctx.note("graded_observed", len(every))


def k_move(ctx):
    """Rigid motions, reflections and changes of the unit of length."""
    r = ctx.rng
    form, cells, cfg, p, u, f = setup(ctx)
    a, mag = losses(ctx, form, cells, cfg, p, u, f)
    for k in range(3):
        th = float(r.uniform(0, 2 * np.pi)) if k else 0.0
        R = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
        if k == 2 and r.integers(0, 2):
            R = R @ np.diag([1.0, -1.0])
        s = 1.0 if k < 2 else float(10 ** r.uniform(-2, 2))
        t = r.uniform(-5, 5, 2) * u.h * s * (float(10 ** r.uniform(1, 4)) if k == ctx.i % 4 else 1.0)
        # row vectors: x' = s x R + t, so the columns of gradients turn by R as well
        new = s * cells @ R + t
        v = u.moved(R.T, t, s)

        def g(x, y, R=R, s=s, t=t):
            z = (np.array([x, y]) - t) / s @ R.T
            return f(z[0], z[1]) / s**2

        b = np.array([p["b_x"], p["b_y"]]) @ R / s
        q = {"eps": p["eps"], "b_x": float(b[0]), "b_y": float(b[1]), "c": p["c"] / s**2, "k": p["k"] / s}
        v = u.moved(R.T, t, s)
        got, _m = losses(ctx, form, new, cfg, q, v, g)
        agree(ctx, got, a, mag, f"{form}: everything turned by {th:.3f}, moved by {t.tolist()} and scaled by {s:.3g}", 1e-9)


def k_linear(ctx):
    r = ctx.rng
    form, cells, cfg, p, u, f = setup(ctx)
    a, mag = losses(ctx, form, cells, cfg, p, u, f)
    for al in (float(r.uniform(-3, 3)), float(10 ** r.uniform(-4, 4)), float(10 ** r.uniform(-40, -8)), float(10 ** r.uniform(6, 40)), -1.0, 0.0):
        b, _m = losses(ctx, form, cells, cfg, p, u.times(al), lambda x, y: al * f(x, y))
        agree(ctx, b, a * al * al, mag * al * al, f"{form}: solution and forcing times {al:.3g}")
    # the loss is a quadratic form of (solution, forcing)
    v = Field(r, cells)
    g = Load(r, u.mid, u.h)
    if form == "cd2d_inverse_domain":  # one coefficient for all
        w = v.plus(u)
        one = np.array([[1.0, 0.0]])
        n = len(v.W[1])
        v0 = object.__new__(Field)
        v0.W = [w.W[0], w.W[1], np.vstack([v.W[2] * one, u.W[2] * np.array([0.0, 1.0])]), v.W[3] * one[0] + u.W[3] * np.array([0.0, 1.0])]
        v = v0
    c, mv = losses(ctx, form, cells, cfg, p, v, g)
    sp, _m = losses(ctx, form, cells, cfg, p, u.plus(v), lambda x, y: f(x, y) + g(x, y))
    sm, _m = losses(ctx, form, cells, cfg, p, u.plus(v, -1.0), lambda x, y: f(x, y) - g(x, y))
    agree(ctx, sp + sm, 2 * a + 2 * c, mag + mv, f"{form}: the parallelogram law of two solutions")


def k_files(ctx):
    """One mesh written to two files with other numbers and orders."""
    r = ctx.rng
    form, _c, cfg, p, _u, f = setup(ctx, style=["unit", "perturbed", "sheared", "rotated", "ring"][ctx.i % 5])
    cfg["trans"] = "bilinear"
    m = W.quad_mesh(r, nmax=4, style=["unit", "perturbed", "sheared", "rotated", "ring"][ctx.i % 5], shuffle=False)
    u = Field(r, m.cells)
    f = Load(r, u.mid, u.h)
    got = []
    for k in range(2):
        if k:
            perm = r.permutation(len(m.P))
            inv = np.argsort(perm)
            Q = [[int(inv[v]) for v in q] for q in m.Q]
            Q = [Q[j] for j in r.permutation(len(Q))]
            Q = [(q[s:] + q[:s]) for q in Q for s in [int(r.integers(0, 4))]]
            Q = [q[::-1] if r.integers(0, 2) else q for q in Q]
            m2 = W.QuadMesh(m.P[perm], Q, [[int(inv[v]) for v in e] for e in m.E], m.tags, m.style)
        else:
            m2 = m
        path = W.write_medit(os.path.abspath(f"m{k}.mesh"), m2, dim=2 + k, order="VEQ" if k else "VQE")
        d = Geometry_2D("quadrilateral", "external", 5, 5, ".")
        cells, bd = d.read_mesh(mesh_file=path, boundary_point_refinement_level=2, bd_sampling_method="uniform", refinement_level=0)
        cells = np.asarray(cells, float)
        fs = api.fespace(cells, {k: np.asarray(v) for k, v in bd.items()}, cfg["order"], cfg["family"], cfg["quad"], cfg["qtype"], "bilinear", f, mesh=d.mesh)
        a, mag = losses(ctx, form, cells, cfg, p, u, f)
        dh = DataHandler2D(fs, d, dtype=tf.float64)
        v, vx, vy = u(dh.x_pde_list.numpy())
        b = call(form, dh, v[:, 0], vx[:, 0], vy[:, 0], p, v[:, 1])
        agree(ctx, b, a, mag, f"{form}: the space of the mesh that was read")
        got.append((cells.mean(axis=1), a, mag))
    (c0, a0, m0), (c1, a1, _m) = got
    D = np.linalg.norm(c0[:, None] - c1[None], axis=2)
    j = D.argmin(axis=1)
    ctx.check(len(c0) == len(c1) and len(set(j.tolist())) == len(j) and D[np.arange(len(j)), j].max() < 1e-9 * u.h, "the two files do not give the same cells")
    agree(ctx, a1[j], a0, m0, f"{form}: one mesh in two files", 1e-9)
    ctx.note("files_observed", 2)


def k_swap(ctx):
    """x and y change their roles on a generated mesh."""
    r = ctx.rng
    form = FORMS[ctx.i % 6]
    xl, yl = W.limits(r, [0, 1, 2, 3, 6][ctx.i % 5]), W.limits(r, [0, 1, 2, 3, 6][(ctx.i // 2) % 5])
    nx, ny = int(r.integers(1, 6)), int(r.integers(1, 6))
    g1, ca, bd = api.internal(list(xl), list(yl), nx, ny, 8)
    g2, cb, bd = api.internal(list(yl), list(xl), ny, nx, 8)
    ca, cb = np.array(ca), np.array(cb)
    cfg = dict(order=int(r.integers(2, 5)), quad=int(r.integers(3, 7)), family=O.FAMILIES[ctx.i % 5], qtype=["gauss-legendre", "gauss-jacobi"][ctx.i % 2], trans=["affine", "bilinear"][(ctx.i // 2) % 2])
    p = {"eps": float(r.uniform(0.2, 2)), "b_x": float(r.uniform(-2, 2)), "b_y": float(r.uniform(-2, 2)), "c": float(r.uniform(-1, 2)), "k": float(r.uniform(0.5, 3))}
    ctx.desc(form=form, x=xl, y=yl, nx=nx, ny=ny, params=p, **cfg)
    u = Field(r, ca)
    f = Load(r, u.mid, u.h)
    a, mag = losses(ctx, form, ca, cfg, p, u, f)
    S = np.array([[0.0, 1.0], [1.0, 0.0]])
    b, _m = losses(ctx, form, cb, cfg, {**p, "b_x": p["b_y"], "b_y": p["b_x"]}, u.moved(S, np.zeros(2)), lambda x, y: f(y, x))
    D = np.linalg.norm(ca.mean(axis=1)[:, None] - cb.mean(axis=1)[None, :, ::-1], axis=2)
    j = D.argmin(axis=1)
    ctx.check(len(set(j.tolist())) == len(ca) == len(cb), "the two meshes do not have the same cells")
    off = max(abs(v) for v in (*xl, *yl)) / min(xl[1] - xl[0], yl[1] - yl[0]) * max(nx, ny)
    agree(ctx, b[j], a, mag, f"{form}: x and y swapped", 1e-10 * (1 + off))


def k_model(ctx):
    """The whole training step: total loss and the step itself are the same for both descriptions."""
    r = ctx.rng
    kind, form = [("forward", "poisson"), ("forward", "cd2d"), ("forward", "helmholtz"), ("inverse", "poisson_inverse"), ("inverse", "cd2d_inverse"), ("domain", "cd2d_inverse_domain")][ctx.i % 6]
    from fvm.train import MODELS

    _f, cells, cfg, p, u, f = setup(ctx, form=form, style=["perturbed", "sheared", "ring", "unit"][(ctx.i // 6) % 4])
    bd = {1: cells.reshape(-1, 2)[:3].copy(), 7: cells.reshape(-1, 2)[-2:].copy()}
    lay = [2, 9, 7, 2 if kind == "domain" else 1]
    sens = (r.uniform(-1, 1, (5, 2)) * u.h + u.mid, r.normal(size=(5, 1)))

    def build(cells, f, bd, sens, g):
        P = api.Problem(r, form, tf.float64, cells=np.asarray(cells), f=f, g=g, bd=bd, **cfg)
        kw = P.common(lay, api.lr_dict(1e-3))
        if kind != "forward":
            kw["sensor_list"] = [tf.constant(a, tf.float64) for a in sens]
        if kind == "inverse":
            kw["inverse_params_dict"] = {"eps": tf.constant(p["eps"], tf.float64)}
        return MODELS[kind](**kw)

    g = W.smooth(r, u.h, u.mid[0], u.mid[1])[0]
    A = build(cells, f, bd, sens, g)
    t = r.uniform(-2, 2, 2) * u.h
    s = r.permutation(len(cells))
    new = np.array([W.roll(r, c)[0] for c in cells[s]]) + t
    B = build(new, lambda x, y: f(x - t[0], y - t[1]), {k: v + t for k, v in bd.items()}, (sens[0] + t, sens[1]), lambda x, y: g(x - t[0], y - t[1]))
    w = [r.uniform(-0.7, 0.7, a.shape) if np.ndim(a) else a for a in A.get_weights()]
    iK = next(i for i, a in enumerate(w) if np.shape(a) == (2, 9))
    ib = next(i for i, a in enumerate(w) if np.shape(a) == (9,))
    w[iK] = w[iK] / u.h
    w[ib] = w[ib] - u.mid @ w[iK]
    A.set_weights(w)
    v = [np.array(a) for a in w]
    v[ib] = w[ib] - t @ w[iK]
    B.set_weights(v)
    need = [k for k in api.PARAMS[form] if not (kind == "inverse" and k == "eps")]
    tp = {k: tf.constant(p[k], tf.float64) for k in need}
    beta = tf.constant(float(r.uniform(0.1, 20)), tf.float64)
    a, b = (m.train_step(beta=beta, bilinear_params_dict=tp) for m in (A, B))
    for k in ("loss_pde", "loss_dirichlet", "loss") + (("sensor_loss",) if kind != "forward" else ()):
        x, y = float(np.ravel(a[k])[0]), float(np.ravel(b[k])[0])
        ctx.check(abs(x - y) <= 1e-8 * abs(x) + 1e-12, f"{form}: {k} is {x!r}, and {y!r} when the same problem is moved and its cells are listed differently")
    ctx.note("model_steps_observed")


KINDS = {"nearly": k_nearly, "permute": k_permute, "vertices": k_vertices, "split": k_split, "graded": k_graded, "move": k_move, "linear": k_linear, "files": k_files, "swap": k_swap, "model": k_model}
