"""P11: the tensors handed to the network are the cells' matrices, in order."""
import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D

DT = [tf.float32, tf.float64]


def tol(dt):
    return 3e-7 if dt == tf.float32 else 1e-11


def observe(ctx, P, dh, dt, what=""):
    """P is a Problem with its reference; dh the handler."""
    n, nt, nq = len(P.cells), P.N**2, P.q**2
    for name, got, want in (
        ("test function values", dh.shape_val_mat_list, P.V),
        ("x-derivatives", dh.grad_x_mat_list, P.GX),
        ("y-derivatives", dh.grad_y_mat_list, P.GY),
    ):
        ctx.check(tuple(got.shape) == (n, nt, nq), f"{what}{name}: shape {tuple(got.shape)}, expected {(n, nt, nq)}")
        ctx.check(got.dtype == dt, f"{what}{name}: {got.dtype}, requested {dt}")
        got = got.numpy().astype(float)
        for c in range(n):
            ctx.close(got[c], want[c], tol(dt), f"{what}{name} of cell {c} (function, point)", scale=np.abs(want[c]).max())
    ctx.check(tuple(dh.x_pde_list.shape) == (n * nq, 2), f"{what}points: shape {tuple(dh.x_pde_list.shape)}")
    ctx.check(dh.x_pde_list.dtype == dt, f"{what}points: {dh.x_pde_list.dtype}, requested {dt}")
    ctx.close(dh.x_pde_list.numpy(), P.X, tol(dt), f"{what}points, cell by cell", scale=np.abs(P.X).max())
    F = dh.forcing_function_list
    ctx.check(tuple(F.shape) == (nt, n), f"{what}forcing: shape {tuple(F.shape)}, expected {(nt, n)}")
    ctx.check(F.dtype == dt, f"{what}forcing: {F.dtype}, requested {dt}")
    for c in range(n):
        vals = np.abs([float(P.f(x, y)) for x, y in P.A[c].pts]).max()
        ctx.close(F.numpy()[:, c], P.F[:, c], tol(dt), f"{what}forcing of cell {c}", scale=np.abs(P.A[c].Vw).sum(axis=1).max() * vals + 1e-300)
    ctx.note("cells_observed", n)
    # what is stored is what the space hands out, rounded once
    np_dt = dt.as_numpy_dtype
    for c in {0, n - 1, int(ctx.rng.integers(0, n))}:
        ctx.same(dh.shape_val_mat_list.numpy()[c], P.fs.get_shape_function_val(c).astype(np_dt), f"{what}cell {c}: values differ from the space's")
        ctx.same(dh.x_pde_list.numpy()[c * nq : (c + 1) * nq], P.fs.get_quadrature_actual_coordinates(c).astype(np_dt), f"{what}cell {c}: points differ from the space's")


def k_problems(ctx):
    dt = DT[ctx.i % 2]
    P = api.Problem(ctx.rng, dtype=dt, nmax=5, order=int(ctx.rng.integers(2, 7)), quad=int(ctx.rng.integers(3, 9)), family=O.FAMILIES[(ctx.i // 2) % 5]).reference()
    ctx.desc(**P.describe())
    observe(ctx, P, P.dh, dt)
    # a second handler over the same space, in the other precision
    other = DT[1 - ctx.i % 2]
    d2 = DataHandler2D(P.fs, None, dtype=other)
    observe(ctx, P, d2, other, "second handler: ")
    observe(ctx, P, P.dh, dt, "first handler again: ")
    ctx.distinct(P.describe())


def k_large(ctx):
    """Many cells."""
    r = ctx.rng
    nx, ny = [(1, 90), (70, 1), (11, 11), (16, 9)][ctx.i % 4]
    m = W.structured(r, nx, ny, "perturbed")
    cells = m[0][np.array(m[1])]
    dt = DT[(ctx.i // 4) % 2]
    P = api.Problem(r, dtype=dt, order=2, quad=3, cells=cells, family=O.FAMILIES[ctx.i % 5]).reference()
    ctx.desc(**P.describe())
    observe(ctx, P, P.dh, dt)
    ctx.distinct(P.describe())


def k_huge(ctx):
    """Very many cells, no two alike, along one or two directions."""
    r = ctx.rng
    # (many cells of few points; few cells of many)
    deep = ctx.i % 3 == 2
    nx, ny = (int(r.integers(4, 9)), int(r.integers(4, 9))) if deep else [(1, int(r.integers(600, 1400))), (int(r.integers(24, 34)), int(r.integers(24, 34)))][ctx.i % 2]
    m = W.structured(r, nx, ny, "unit")
    P = np.array(m[0])
    for ax in (0, 1):
        # graded: every cell has its own size
        P[:, ax] = P[:, ax] + float(r.uniform(0.2, 0.8)) * P[:, ax] ** 2 + 0.1 * P[:, ax] * P[:, 1 - ax]
    cells = P[np.array(m[1])]
    dt = DT[(ctx.i // 2) % 2]
    P = api.Problem(r, dtype=dt, order=2, quad=int(r.integers(45, 61)) if deep else int(r.integers(3, 5)), cells=cells, family=O.FAMILIES[ctx.i % 5]).reference()
    ctx.desc(**P.describe())
    observe(ctx, P, P.dh, dt)
    ctx.note("huge_observed", len(cells))
    ctx.note("deep_observed", len(P.X) if deep else 0)
    ctx.distinct(P.describe())


def k_tables(ctx):
    """High orders: large tables per cell."""
    r = ctx.rng
    N, q = int(r.integers(12, 21)), int(r.integers(12, 23))
    m = W.structured(r, 1 + ctx.i % 2, 1, "perturbed")
    dt = DT[(ctx.i // 2) % 2]
    P = api.Problem(r, dtype=dt, order=N, quad=q, cells=m[0][np.array(m[1])], family=O.FAMILIES[ctx.i % 5]).reference()
    ctx.desc(**P.describe())
    observe(ctx, P, P.dh, dt)
    ctx.note("tables_observed")
    ctx.distinct(P.describe())


def k_internal(ctx):
    """The whole path from a generated mesh, with test points and parameters as tensors."""
    r = ctx.rng
    dt = DT[ctx.i % 2]
    xl, yl = W.limits(r, [0, 1, 2, 3, 6][ctx.i % 5]), W.limits(r, [0, 1, 2, 3, 6][(ctx.i // 5) % 5])
    nx, ny = int(r.integers(1, 5)), int(r.integers(1, 5))
    tx, ty = int(r.integers(2, 12)), int(r.integers(2, 12))
    g, cells, bd = api.internal(list(xl), list(yl), nx, ny, 20, out=ctx.scratch, tx=tx, ty=ty)
    P = api.Problem(r, dtype=dt, cells=cells, bd=bd)
    P.reference()
    dh = DataHandler2D(P.fs, g, dtype=dt)
    observe(ctx, P, dh, dt)
    tp = dh.get_test_points()
    ctx.check(tp.dtype == dt, f"test points are {tp.dtype}, requested {dt}")
    ctx.same(tp.numpy(), np.asarray(g.get_test_points()).astype(dt.as_numpy_dtype), "test points differ from the domain's")
    d = {"eps": float(r.uniform(0.1, 3)), "b_x": float(r.normal()), "k": int(r.integers(1, 9)), "c": 0.0}
    for get in (dh.get_bilinear_params_dict_as_tensors, dh.get_inverse_params):
        for rep in range(2):
            out = get(lambda: dict(d))
            ctx.check(set(out) == set(d), f"parameters {sorted(out)}, given {sorted(d)}")
            for k, v in out.items():
                ctx.check(tf.is_tensor(v) and v.dtype == dt, f"parameter {k} is not a tensor of the requested precision")
                ctx.close(v.numpy(), d[k], tol(dt), f"parameter {k}", scale=abs(d[k]) or 1)
    ctx.desc(x=xl, y=yl, nx=nx, ny=ny, dtype=dt.name)
    ctx.note("parameter_sets", 4)
    ctx.distinct(xl, yl, nx, ny, dt.name)


def k_history(ctx):
    """Handlers over different spaces alive at once."""
    r = ctx.rng
    live = []
    for step in range(4):
        dt = DT[int(r.integers(0, 2))]
        live.append((api.Problem(r, dtype=dt, nmax=3).reference(), dt))
        for P, dt in live:
            observe(ctx, P, P.dh, dt, f"step {step}: ")
    ctx.desc(handlers=len(live), **live[-1][0].describe())
    ctx.note("histories")


def k_alike(ctx):
    """Cells that agree in some respect."""
    r = ctx.rng
    dt = DT[ctx.i % 2]
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    P = api.Problem(r, dtype=dt, cells=W.lookalike(r, 10, trans == "affine"), trans=trans, family=O.FAMILIES[ctx.i % 5]).reference()
    ctx.desc(**P.describe(), first=P.cells[0])
    observe(ctx, P, P.dh, dt)
    ctx.note("alike_observed", 10)
    ctx.distinct(P.describe(), float(P.cells[0, 0, 0]))


def k_scales(ctx):
    """The same in every unit of length."""
    r = ctx.rng
    dt = DT[ctx.i % 2]
    s = float(10.0 ** r.uniform(-14, 12)) if dt == tf.float64 else float(10.0 ** r.uniform(-9, 9))
    if ctx.i // 2 % 2:
        cells = s * W.lookalike(r, 8, False)
    else:
        m = W.structured(r, int(r.integers(1, 6)), int(r.integers(1, 6)), "perturbed")
        cells = s * (np.array(m[0])[np.array(m[1])])
    P = api.Problem(r, dtype=dt, cells=cells, trans="bilinear", order=int(r.integers(2, 4)), quad=int(r.integers(3, 6)), family=O.FAMILIES[ctx.i % 5]).reference()
    ctx.desc(**P.describe(), first=P.cells[0], unit=s)
    observe(ctx, P, P.dh, dt)
    ctx.note("scales_observed", len(cells))
    ctx.distinct(P.describe(), s)


KINDS = {"tables": k_tables, "scales": k_scales, "huge": k_huge, "alike": k_alike, "problems": k_problems, "large": k_large, "internal": k_internal, "history": k_history}
