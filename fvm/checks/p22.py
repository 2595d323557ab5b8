"""P22: solution files hold the mesh and the given values, point by point; test points are the points they belong to."""
import os

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D, Geometry_2D
from fvm.core import Violation


def parse(path):
    """A legacy VTK file: points, cells, cell types and the point scalars, in order."""
    with open(path) as f:
        head = [f.readline() for _ in range(3)]
        tok = f.read().split()
    if not head[0].startswith("# vtk DataFile") or head[2].strip() != "ASCII":
        raise Violation(f"not an ASCII VTK file: {head}")
    out = {"scalars": []}
    i = 0
    try:
        while i < len(tok):
            t = tok[i]
            if t == "DATASET":
                i += 2
            elif t == "POINTS":
                n = int(tok[i + 1])
                out["points"] = np.array(tok[i + 3 : i + 3 + 3 * n], float).reshape(n, 3)
                i += 3 + 3 * n
            elif t == "CELLS":
                n, m = int(tok[i + 1]), int(tok[i + 2])
                v, cells, k = [int(a) for a in tok[i + 3 : i + 3 + m]], [], 0
                while k < m:
                    cells.append(tuple(v[k + 1 : k + 1 + v[k]]))
                    k += v[k] + 1
                if len(cells) != n:
                    raise ValueError("number of cells")
                out["cells"] = cells
                i += 3 + m
            elif t == "CELL_TYPES":
                n = int(tok[i + 1])
                out["types"] = [int(a) for a in tok[i + 2 : i + 2 + n]]
                i += 2 + n
            elif t == "POINT_DATA":
                out["n_data"] = int(tok[i + 1])
                i += 2
            elif t == "SCALARS":
                name, k = tok[i + 1], i + 3
                if tok[k] != "LOOKUP_TABLE":
                    k += 1
                k += 2
                vals = np.array(tok[k : k + out["n_data"]], float)
                if len(vals) != out["n_data"]:
                    raise ValueError("too few values of " + name)
                out["scalars"].append((name, vals))
                i = k + out["n_data"]
            elif t in ("CELL_DATA", "FIELD", "METADATA"):
                break
            else:
                raise ValueError("unexpected " + t)
    except (ValueError, IndexError, KeyError) as e:
        raise Violation(f"the solution file cannot be read: {e}")
    return out


def mesh_of(path):
    d = parse(path)
    return d["points"], d["cells"], d["types"]


def values(r, n, k):
    s = 10.0 ** r.integers(-12, 13)
    A = r.normal(size=(n, k)) * s
    kind = int(r.integers(0, 8))
    if kind == 1:
        A = A.astype(np.float32)
    elif kind == 2:
        A = np.asfortranarray(A)
    elif kind == 3:
        A = r.integers(-9, 9, (n, k)).astype(float)
    elif kind == 4 and n > 2:
        A[1] = 0.0
        A[2] = 1e-300
    elif kind == 5:
        A = r.normal(size=(n, k)) * 10.0 ** r.uniform(-310, 300, (n, k))
    elif kind == 6:
        A[r.uniform(size=(n, k)) < 0.2] = np.nan
        A[r.uniform(size=(n, k)) < 0.2] = np.inf
    return A


def observe(ctx, g, folder, base, n, what=""):
    """Writes one solution and reads it back."""
    r = ctx.rng
    k = int(r.integers(1, 6))
    names = [str(s) for s in r.permutation(["Sol", "Exact", "Error", "u_1", "eps", "POINT", "x"])[:k]]
    A = values(r, n, k)
    keep = A.copy()
    file = f"out_{int(r.integers(0, 4))}.vtk"
    before = open(base, "rb").read()
    g.write_vtk(A, folder, file, names)
    ctx.same(A, keep, "the solution passed in was changed")
    ctx.check(open(base, "rb").read() == before, "writing a solution changed the mesh file")
    d = parse(os.path.join(folder, file))
    P, C, T = mesh_of(base)
    ctx.same(d["points"], P, f"{what}points of the solution file")
    ctx.check(d["cells"] == C and d["types"] == T, f"{what}the cells of the solution file are not those of the mesh")
    ctx.check(d["n_data"] == len(P), f"{what}the file announces {d['n_data']} values for {len(P)} points")
    ctx.check([s for s, _ in d["scalars"]] == names, f"{what}fields {[s for s, _ in d['scalars']]} instead of {names}")
    for j, (s, v) in enumerate(d["scalars"]):
        want = A[:, j].astype(float)
        got = np.asarray(v, float)
        with np.errstate(invalid="ignore"):
            ok = (got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= 1e-12 * np.abs(want) + 5e-324)
        ctx.check(got.shape == want.shape and ok.all(), lambda: f"{what}field {s}: written is {got[~ok][0]!r} for {want[~ok][0]!r} at point {int(np.argmin(ok))}")
        ctx.note("values_observed", n)


def k_external(ctx):
    r = ctx.rng
    m = W.quad_mesh(r, nmax=5)
    if ctx.i % 3 == 2:
        m = W.with_isolated(r, m, int(r.integers(1, 6)))
        ctx.note("isolated_observed")
    path = W.write_medit(ctx.scratch + "/m.mesh", m, 2 + int(r.integers(0, 2)), ["VEQ", "VQE", "VEQEQ"][ctx.i % 3])
    out = ctx.scratch + "/out"
    os.makedirs(out, exist_ok=True)
    g = Geometry_2D("quadrilateral", "external", 5, 5, out)
    g.read_mesh(path, 1, "uniform", 1)
    tp = g.get_test_points()
    ctx.close(tp, m.P, 1e-14, "test points are not the points of the mesh file", scale=max(1e-300, np.abs(m.P).max()))
    P, C, T = mesh_of(out + "/external.vtk")
    ctx.close(P[:, :2], m.P, 1e-14, "points of the mesh file", scale=max(1e-300, np.abs(m.P).max()))
    quads = sorted(tuple(sorted(c)) for c, t in zip(C, T) if t == 9)
    ctx.check(quads == sorted(tuple(sorted(int(v) for v in q)) for q in m.Q), "the quadrilaterals of the file are not those of the mesh")
    for dt in (tf.float64, tf.float32):
        fs = api.fespace(g.cell_points, g.bd_dict, 2, "legendre", 3, mesh=g.mesh)
        X = DataHandler2D(fs, g, dtype=dt).get_test_points()
        ctx.check(X.dtype == dt, f"test points of {X.dtype} for {dt}")
        ctx.close(X.numpy(), m.P, 1e-14 if dt == tf.float64 else 1e-6, "test points as tensors", scale=max(1e-300, np.abs(m.P).max()))
        ctx.note("test_points", len(m.P))
    for rep in range(4):
        observe(ctx, g, out if rep % 2 else ctx.scratch, out + "/external.vtk", len(m.P), f"file {rep}: ")
    ctx.desc(style=m.style, points=len(m.P))
    ctx.distinct(m.style, len(m.P), float(m.P[0, 0]))


def k_internal(ctx):
    r = ctx.rng
    out = ctx.scratch + "/out"
    os.makedirs(out, exist_ok=True)
    xl, yl = W.limits(r, ctx.pick([0, 1, 2, 3])), W.limits(r, ctx.pick([0, 1, 2, 3]))
    # bounded aspect, so that the test mesh stays small
    hi = yl[0] + max(yl[1] - yl[0], (xl[1] - xl[0]) / 4)
    yl = (yl[0], min(hi, yl[0] + 4 * (xl[1] - xl[0])))
    g, cells, bd = api.internal(list(xl), list(yl), 2, 2, 8, out=out, optimized=False, tx=int(r.integers(3, 9)), ty=int(r.integers(3, 9)))
    P, C, T = mesh_of(out + "/internal.vtk")
    s = np.array([xl[1] - xl[0], yl[1] - yl[0]])
    t = (P[:, :2] - [xl[0], yl[0]]) / s
    ctx.check(t.min() > -1e-9 and t.max() < 1 + 1e-9, "the test mesh leaves the domain")
    area = sum(abs(O.signed_area(P[list(c), :2])) for c, k in zip(C, T) if k in (5, 9))
    ctx.check(abs(area / s.prod() - 1) < 1e-9, f"the test mesh covers {area / s.prod():.6f} of the domain")
    for rep in range(3):
        observe(ctx, g, [out, ctx.scratch][rep % 2], out + "/internal.vtk", len(P), f"file {rep}: ")
    ctx.desc(x=xl, y=yl, points=len(P))
    ctx.distinct(xl, yl, len(P))


def k_grid(ctx):
    """The generated test points: a full grid with the corners, x running fastest."""
    r = ctx.rng
    for rep in range(6):
        xl, yl = W.limits(r), W.limits(r)
        nx, ny = int(r.choice([1, 2, 3, 7, 40, 100])), int(r.choice([1, 2, 5, 11, 50]))
        g, cells, bd = api.internal(list(xl), list(yl), 1, 1, 4, tx=nx, ty=ny)
        tp = np.asarray(g.get_test_points())
        x = [xl[0] + (xl[1] - xl[0]) * (i / (nx - 1) if nx > 1 else 0) for i in range(nx)]
        y = [yl[0] + (yl[1] - yl[0]) * (i / (ny - 1) if ny > 1 else 0) for i in range(ny)]
        want = np.array([[a, b] for b in y for a in x], float)
        ctx.close(tp, want, 1e-13, f"{nx} x {ny} test points", scale=np.abs(want).max() + 1e-300)
        fs = api.fespace(cells, bd, 2, "legendre", 3, mesh=g.mesh)
        for dt in (tf.float64, tf.float32):
            X = DataHandler2D(fs, g, dtype=dt).get_test_points()
            ctx.check(X.dtype == dt, f"test points of {X.dtype} for {dt}")
            ctx.close(X.numpy(), want, 1e-13 if dt == tf.float64 else 1e-6, "test points as tensors", scale=np.abs(want).max() + 1e-300)
        ctx.note("test_points", len(want))
        ctx.distinct(nx, ny, xl, yl)
    ctx.desc(grids=6)


def k_history(ctx):
    """Several geometries with folders of their own, files written alternately and overwritten."""
    r = ctx.rng
    live = []
    for k in range(3):
        out = f"{ctx.scratch}/g{k}"
        os.makedirs(out)
        if k == ctx.i % 3:
            g, _, _ = api.internal([0, 1 + k], [0, 1], 1, 1, 4, out=out, optimized=False, tx=4, ty=4)
            live.append((g, out, out + "/internal.vtk"))
        else:
            m = W.quad_mesh(r, nmax=3)
            path = W.write_medit(out + "/m.mesh", m, 3)
            g = Geometry_2D("quadrilateral", "external", 5, 5, out)
            g.read_mesh(path, 0, "uniform", 1)
            live.append((g, out, out + "/external.vtk"))
    for step in range(12):
        g, out, base = live[int(r.integers(0, 3))]
        observe(ctx, g, out if step % 3 else ctx.scratch, base, len(parse(base)["points"]), f"step {step}: ")
    ctx.desc(geometries=3)
    ctx.note("histories")


def k_reuse(ctx):
    """One folder for one geometry after the other, other files of the same names left in it; one geometry reading again."""
    r = ctx.rng
    out = ctx.scratch + "/out"
    os.makedirs(out)
    for name in ("internal.vtk", "external.vtk", "out_0.vtk", "internal.msh"):
        if r.integers(0, 2):
            with open(f"{out}/{name}", "w") as f:
                f.write("left behind\n" * int(r.integers(0, 2000)))
    path = ctx.scratch + "/m.mesh"
    keep = None
    for step in range(5):
        if r.integers(0, 3):
            m = W.quad_mesh(r, nmax=4)
            W.write_medit(path, m, 2 + int(r.integers(0, 2)), ["VEQ", "VQE", "VEQEQ", "VQQEE"][int(r.integers(0, 4))])
            os.utime(path, (1_000_000_000, 1_000_000_000))
            g = keep if keep is not None and r.integers(0, 2) else Geometry_2D("quadrilateral", "external", 5, 5, out)
            keep = g
            g.read_mesh(path, 1, "uniform", 1)
            base, P0 = out + "/external.vtk", m.P
            P, C, T = mesh_of(base)
            ctx.close(P[:, :2], P0, 1e-14, f"step {step}: points of the mesh file", scale=max(1e-300, np.abs(P0).max()))
            quads = sorted(tuple(sorted(c)) for c, t in zip(C, T) if t == 9)
            ctx.check(quads == sorted(tuple(sorted(int(v) for v in q)) for q in m.Q), f"step {step}: the quadrilaterals of the file are not those of the mesh")
            ctx.close(g.get_test_points(), P0, 1e-14, f"step {step}: test points are not the points of the mesh file", scale=max(1e-300, np.abs(P0).max()))
        else:
            xl = (float(r.uniform(-2, 0)), float(r.uniform(0.5, 2)))
            yl = (float(r.uniform(-2, 0)), float(r.uniform(0.5, 2)))
            g, _, _ = api.internal(list(xl), list(yl), 1, 1, 4, out=out, optimized=False, tx=int(r.integers(3, 7)), ty=int(r.integers(3, 7)))
            base = out + "/internal.vtk"
            P, C, T = mesh_of(base)
            lo, hi = P[:, :2].min(0), P[:, :2].max(0)
            ctx.close(np.array([lo, hi]), np.array([[xl[0], yl[0]], [xl[1], yl[1]]]), 1e-9, f"step {step}: extent of the test mesh")
            area = sum(abs(O.signed_area(P[list(c), :2])) for c, k in zip(C, T) if k in (5, 9))
            want = (xl[1] - xl[0]) * (yl[1] - yl[0])
            ctx.check(abs(area / want - 1) < 1e-9, f"step {step}: the test mesh covers {area / want:.6f} of the domain")
        observe(ctx, g, out, base, len(P), f"step {step}: ")
        ctx.note("reuses_observed")
    ctx.desc(steps=5)
    ctx.distinct(float(P[0, 0]), len(P))


def k_large(ctx):
    """Meshes of thousands of points, values of all sizes in one column, many columns."""
    r = ctx.rng
    P, Q, E, side = W.structured(r, *((int(r.integers(40, 80)), int(r.integers(40, 80))) if ctx.i % 4 else [(int(r.integers(9000, 12000)), 1), (150, 140)][(ctx.i // 4) % 2]), ["unit", "perturbed", "offset"][ctx.i % 3])
    m = W.QuadMesh(P, Q, E, [s + 1 for s in side], "large")
    path = W.write_medit(ctx.scratch + "/m.mesh", m, 3)
    out = ctx.scratch + "/out"
    os.makedirs(out)
    g = Geometry_2D("quadrilateral", "external", 5, 5, out)
    g.read_mesh(path, 0, "uniform", 1)
    n, k = len(P), int(r.integers(5, 30))
    ctx.close(g.get_test_points(), P, 1e-14, "test points are not the points of the mesh file", scale=np.abs(P).max())
    names = [f"field_{j}" for j in r.permutation(k)]
    A = r.choice([-1, 1], (n, k)) * 10.0 ** r.uniform(-30, 30, (n, k))
    g.write_vtk(A, out, "big.vtk", names)
    d = parse(out + "/big.vtk")
    ctx.check([s for s, _ in d["scalars"]] == names, f"fields {[s for s, _ in d['scalars']]} instead of {names}")
    for j, (s, v) in enumerate(d["scalars"]):
        ctx.close(v / A[:, j], np.ones(n), 1e-12, f"field {s}, relative to its value")
        ctx.note("values_observed", n)
    ctx.note("largest_files", int(n > 16384))
    ctx.desc(points=n, columns=k)
    ctx.distinct(n, k)


KINDS = {"reuse": k_reuse, "large": k_large, "external": k_external, "internal": k_internal, "grid": k_grid, "history": k_history}
