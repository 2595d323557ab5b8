"""P12: every boundary point is paired with the value of its own boundary function."""
from collections import Counter

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D
from fvm.checks.p03 import reader

CELL = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]]], float)


def random_bd(r, i):
    tags = [int(t) for t in r.permutation([0, 1, 2, 7, 99, 1000, 1001, 1002, 1003, 65536])[: int(r.integers(1, 7))]]
    if i % 4 == 1:
        tags = [np.int64(t) for t in tags]
    if i % 4 == 2:
        tags = [np.int32(t) for t in tags]
    cols = 3 if i % 5 == 3 else 2
    bd = {}
    for t in tags:
        p = r.uniform(-3, 3, (int(r.integers(1, 30)), cols)) * 10.0 ** r.integers(-2, 3)
        if len(p) > 2 and r.integers(0, 2):
            p[0] = 0.0
        bd[t] = p
    # a corner shared by all tags
    corner = r.uniform(-1, 1, cols)
    for t in tags:
        bd[t] = np.vstack([bd[t], corner])
    return bd


def make_fun(r, tag, kind):
    f, d = W.smooth(r)
    off = float(r.uniform(-5, 5))
    forms = {
        0: lambda x, y: float(f(x, y)) + off,
        1: lambda x, y: f(x, y) + off,
        2: lambda x, y: off,
        3: lambda x, y: int(round(off)),
        4: lambda x, y: np.array(float(f(x, y)) + off),
        5: lambda x, y: np.ones_like(x) * off,
        6: lambda x, y: np.float32(round(off)),
        7: lambda x, y: 1e-8 * (f(x, y) + off),
    }
    if kind >= 8:
        return W.mixed(r)[0]
    return forms[kind]


def pairs(bd, bf, pick=lambda v: v):
    return [(np.array([p[0], p[1]], float), float(pick(bf[t](p[0], p[1])))) for t, pts in bd.items() for p in pts]


def match(ctx, X, Y, want, what, rtol=0.0):
    """As multisets of (point, value)."""
    X, Y = np.asarray(X, float).reshape(-1, 2), np.asarray(Y, float).reshape(-1)
    ctx.check(len(X) == len(Y) == len(want), f"{what}{len(X)} points and {len(Y)} values for {len(want)} boundary points")
    A = np.array([[*p, v] for p, v in want])
    B = np.column_stack([X, Y])
    sc = np.abs(A).max(axis=0) + 1e-300
    if np.all(np.abs(A - B) <= (rtol + 1e-13) * np.maximum(np.abs(A), 1e-12 * sc)):
        ctx.note("pairs_observed", len(A))
        return
    # any other order is as good, as long as every pair is there exactly once
    digits = 9 if rtol == 0 else 5
    key = lambda M: Counter(tuple(np.round(row / sc, digits) + 0.0) for row in M)
    ka, kb = key(A), key(B)
    missing = list((ka - kb).elements())
    ctx.check(not missing, lambda: f"{what}the pair (x, y, value) = {(np.array(missing[0]) * sc).tolist()} is missing; e.g. found {(np.array(next((kb - ka).elements())) * sc).tolist()}")
    ctx.note("pairs_observed", len(A))


def k_scalar(ctx):
    r = ctx.rng
    bd = random_bd(r, ctx.i)
    bf = {t: make_fun(r, t, int(r.integers(0, 10))) for t in bd}
    extra = dict(bf)
    if ctx.i % 2:  # the function dictionary may list tags in another order, and more of them
        extra = {424242: (lambda x, y: 1e9), **dict(reversed(list(bf.items())))}
    keep = {t: v.copy() for t, v in bd.items()}
    fs = api.fespace(CELL, bd, 2, "legendre", 3, bf=extra, cond={t: "dirichlet" for t in extra})
    want = pairs(bd, bf)
    for rep in range(2):
        x, y = fs.generate_dirichlet_boundary_data()
        match(ctx, x, y, want, f"call {rep}: ")
    ctx.check(fs.total_dirichlet_dofs == len(want), "the number of boundary points is misreported")
    for dt, rt in ((tf.float64, 0.0), (tf.float32, 3e-7)):
        dh = DataHandler2D(fs, None, dtype=dt)
        X, Y = dh.get_dirichlet_input()
        ctx.check(X.dtype == dt and Y.dtype == dt, f"boundary data are {X.dtype}, {Y.dtype}, requested {dt}")
        ctx.check(tuple(X.shape) == (len(want), 2) and tuple(Y.shape) == (len(want), 1), f"boundary data of shapes {tuple(X.shape)}, {tuple(Y.shape)}")
        match(ctx, X.numpy(), Y.numpy(), want, f"{dt.name} tensors: ", rt)
    for t in keep:
        ctx.same(bd[t], keep[t], "the boundary points passed in were changed")
    ctx.desc(tags=[int(t) for t in bd], points=len(want))
    ctx.distinct([int(t) for t in bd], len(want))


def k_vector(ctx):
    r = ctx.rng
    bd = random_bd(r, ctx.i)
    nc = int(r.integers(2, 5))
    comp = {t: [make_fun(r, t, int(r.integers(0, 10))) for _ in range(nc)] for t in bd}
    kind = ctx.i % 3
    wrap = [lambda v: list(v), lambda v: tuple(v), lambda v: np.array([float(c) for c in v])][kind]
    bf = {t: (lambda x, y, fs=comp[t]: wrap([f(x, y) for f in fs])) for t in bd}
    # the space evaluates the scalar data once when it is built: give it a scalar view first
    sc = {t: comp[t][0] for t in bd}
    fs = api.fespace(CELL, bd, 2, "legendre", 3, bf=dict(sc))
    fs.bound_function_dict = bf
    for step in range(6):
        c = int(r.integers(0, nc))
        x, y = fs.generate_dirichlet_boundary_data_vector(c)
        match(ctx, x, y, pairs(bd, bf, lambda v: v[c]), f"step {step}, component {c}: ")
        ctx.note("vector_calls")
    ctx.desc(tags=[int(t) for t in bd], components=nc)
    ctx.distinct([int(t) for t in bd], nc, kind)


def k_meshes(ctx):
    """Generated and read meshes: every sampled boundary point carries its side's value."""
    r = ctx.rng
    if ctx.i % 2:
        xl, yl = W.limits(r, ctx.pick([0, 1, 2, 3, 4, 6, 7])), W.limits(r, ctx.pick([0, 1, 2, 3, 4, 6, 7]))
        g, cells, bd = api.internal(list(xl), list(yl), int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(8, 200)))
    else:
        m = W.quad_mesh(r, nmax=3)
        path = W.write_medit(ctx.scratch + "/d.mesh", m, 2 + int(r.integers(0, 2)), ["VEQ", "VQE", "VEQEQ", "VQQEE"][int(r.integers(0, 4))])
        g = reader(ctx)
        cells, bd = g.read_mesh(path, int(r.integers(0, 4)), ["uniform", "lhs"][int(r.integers(0, 2))], 1)
    bf = {t: make_fun(r, t, int(r.integers(0, 3))) for t in bd}
    fs = api.fespace(cells, bd, 2, "legendre", 3, bf=bf, mesh=g.mesh)
    want = pairs(bd, bf)
    x, y = fs.generate_dirichlet_boundary_data()
    match(ctx, x, y, want, "")
    X, Y = DataHandler2D(fs, g, dtype=tf.float64).get_dirichlet_input()
    match(ctx, X.numpy(), Y.numpy(), want, "tensors: ")
    ctx.desc(tags=[int(t) for t in bd], points=len(want))
    ctx.distinct(len(want), [int(t) for t in bd], float(want[0][1]))


def k_history(ctx):
    """Several spaces with the same tags and different functions; a function whose data change between calls."""
    r = ctx.rng
    live = []
    for step in range(4):
        bd = random_bd(r, 0)
        box = {"a": 1.0}
        g = {t: make_fun(r, t, 1) for t in bd}
        bf = {t: (lambda x, y, t=t, g=g, box=box: box["a"] * g[t](x, y)) for t in bd}
        live.append((api.fespace(CELL, bd, 2, "legendre", 3, bf=bf), bd, bf, box))
        for fs, bd, bf, box in live:
            box["a"] = float(r.uniform(-2, 2))
            x, y = fs.generate_dirichlet_boundary_data()
            match(ctx, x, y, pairs(bd, bf), f"step {step}: ")
    ctx.desc(spaces=len(live))
    ctx.note("histories")


def k_pieces(ctx):
    """Functions with pieces of different types; far more points than a block; negative tags; data given as lists of rows."""
    r = ctx.rng
    tags = [int(t) for t in r.permutation([-7, -1, 0, 3, 12, 10**9])[: int(r.integers(1, 5))]]
    big = [0, 3000, 700, 20000][ctx.i % 4]
    bd = {t: r.uniform(-3, 3, (max(1, int(r.integers(1, 60)) + (big if k == 0 else 0)), 2)) for k, t in enumerate(tags)}
    bf = {t: W.mixed(r)[0] if r.integers(0, 4) else make_fun(r, t, int(r.integers(0, 8))) for t in bd}
    fs = api.fespace(CELL, bd, 2, "legendre", 3, bf=bf)
    want = pairs(bd, bf)
    x, y = fs.generate_dirichlet_boundary_data()
    match(ctx, x, y, want, "")
    for dt, rt in ((tf.float64, 0.0), (tf.float32, 3e-7)):
        X, Y = DataHandler2D(fs, None, dtype=dt).get_dirichlet_input()
        match(ctx, X.numpy(), Y.numpy(), want, f"{dt.name} tensors: ", rt)
    if big < 5000:
        bv = {t: (lambda x, y, f=bf[t]: [1.0, f(x, y)]) for t in bd}
        fs.bound_function_dict = bv
        x, y = fs.generate_dirichlet_boundary_data_vector(1)
        match(ctx, x, y, want, "component 1: ")
        ctx.note("vector_calls")
    ctx.desc(tags=tags, points=len(want))
    ctx.note("pieces_observed", len(want))
    ctx.distinct(tags, len(want))


def k_near(ctx):
    """Boundaries of every size: points that differ in the last digits only, values that vary on that scale."""
    r = ctx.rng
    h = [10.0 ** r.uniform(-14, -6), 10.0 ** r.uniform(-300, -20), 10.0 ** r.uniform(-10, 0), 10.0 ** r.uniform(3, 200)][ctx.i % 4]
    off = [0.0, 0.0, float(r.uniform(-2, 2)), 0.0][ctx.i % 4]
    if off:
        h = max(h, 1e-12)
    tags = [int(t) for t in r.permutation([0, 1, 2, 1000, 1001])[: int(r.integers(1, 4))]]
    bd = {t: off + h * r.uniform(-1, 1, (int(r.integers(2, 40)), 2)) for t in tags}
    one = W.smooth(r, h, off, off)[0]
    # one function for all tags, and one function per tag
    bf = {t: one if ctx.i % 3 == 0 else W.smooth(r, h, off, off)[0] for t in tags}
    fs = api.fespace(CELL, bd, 2, "legendre", 3, bf=bf)
    want = np.array([v for _, v in pairs(bd, bf)])
    pts = np.concatenate([bd[t] for t in tags])
    x, y = fs.generate_dirichlet_boundary_data()
    ctx.same(np.asarray(x, float).reshape(-1, 2), pts, "boundary points")
    ctx.close(np.ravel(y), want, 1e-13, "boundary values", scale=np.abs(want).max())
    X, Y = DataHandler2D(fs, None, dtype=tf.float64).get_dirichlet_input()
    ctx.same(X.numpy(), pts, "boundary points as tensors")
    ctx.close(np.ravel(Y.numpy()), want, 1e-13, "boundary values as tensors", scale=np.abs(want).max())
    fs.bound_function_dict = {t: (lambda x, y, f=bf[t]: [0.0, f(x, y)]) for t in tags}
    x, y = fs.generate_dirichlet_boundary_data_vector(1)
    ctx.close(np.ravel(y), want, 1e-13, "boundary values of a component", scale=np.abs(want).max())
    ctx.note("vector_calls")
    ctx.note("pairs_observed", 3 * len(want))
    # functions that reduce what they are given, or work on single numbers only
    import math

    red = [
        lambda x, y: np.linalg.norm([x, y]),
        lambda x, y: math.hypot(x, y) + math.sin(x),
        lambda x, y: max(x, y) - min(x, 0.5),
        lambda x, y: np.max([x, y]) + np.sum([x, 2 * y]),
        lambda x, y: np.dot([x, y], [1.0, 2.0]),
        lambda x, y: x if x > y else -y,
    ]
    b2 = {t: r.uniform(-2, 2, (int(r.integers(1, 20)), 2)) for t in tags}
    f2 = {t: red[int(r.integers(0, 6))] for t in tags}
    fs = api.fespace(CELL, b2, 2, "legendre", 3, bf=f2)
    x, y = fs.generate_dirichlet_boundary_data()
    match(ctx, x, y, pairs(b2, f2), "functions of single numbers: ")
    ctx.desc(size=h, at=off, tags=tags)
    ctx.note("near_observed", len(want))
    ctx.distinct(h, off, tags)


def k_sizes(ctx):
    """Values from 1e-300 to 1e300 on one boundary: each is as exact as the largest."""
    r = ctx.rng
    tags = [int(t) for t in r.permutation([0, 1, 2, 1000, 1001])[: int(r.integers(1, 4))]]
    top = float([300, 30, 18][ctx.i % 3])
    bd = {t: r.uniform(-1, 1, (int(r.integers(2, 60)), 2)) for t in tags}

    def fun(a, s):
        return [lambda x, y: s * 10.0 ** (a * x), lambda x, y: s * 10.0 ** -abs(a * x), lambda x, y: float(s * 10.0 ** (a * y)), lambda x, y: [s * 10.0 ** (a * y)]][int(r.integers(0, 4))]

    bf = {t: fun(top * float(r.choice([-1, 1])), float(r.choice([-1, 1])) * float(r.uniform(1, 9))) for t in tags}
    want = np.array([float(np.ravel(bf[t](p[0], p[1]))[0]) for t in tags for p in bd[t]])
    pts = np.concatenate([bd[t] for t in tags])
    fs = api.fespace(CELL, bd, 2, "legendre", 3, bf=bf)

    def compare(x, y, what):
        x, y = np.asarray(x, float).reshape(-1, 2), np.asarray(y, float).ravel()
        ctx.check(x.shape == pts.shape and y.shape == want.shape, f"{what}: {len(x)} points and {len(y)} values for {len(want)} boundary points")
        # the points are distinct, so that they tell which value is whose
        a, b = np.lexsort(x.T), np.lexsort(pts.T)
        ctx.same(x[a], pts[b], f"{what}: boundary points")
        bad = np.flatnonzero(np.abs(y[a] - want[b]) > 1e-12 * np.abs(want[b]))
        ctx.check(bad.size == 0, lambda: f"{what}: the value at {x[a][bad[0]].tolist()} is {y[a][bad[0]]!r}, its function gives {want[b][bad[0]]!r}")
        ctx.note("sizes_observed", len(want))

    compare(*fs.generate_dirichlet_boundary_data(), "space")
    X, Y = DataHandler2D(fs, None, dtype=tf.float64).get_dirichlet_input()
    compare(X.numpy(), Y.numpy(), "tensors")
    fs.bound_function_dict = {t: (lambda x, y, f=bf[t]: [0.0, f(x, y)]) for t in tags}
    compare(*fs.generate_dirichlet_boundary_data_vector(1), "component 1")
    ctx.desc(tags=tags, points=len(want), decades=top)
    ctx.distinct(tags, len(want), top)


KINDS = {"sizes": k_sizes, "near": k_near, "pieces": k_pieces, "scalar": k_scalar, "vector": k_vector, "meshes": k_meshes, "history": k_history}
