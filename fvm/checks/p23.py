"""P23: what is not supported is rejected when it is asked for, and leaves nothing behind."""
import os

import numpy as np
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D, Fespace2D, Geometry_2D
from fvm.checks.p22 import parse

CELL = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]]], float)


def bad_names(r, good):
    """Names that look like the valid ones, and nonsense."""
    out = ["", "unknown", "None", "triangle", "quad", "Legendre2"]
    for g in good:
        out += [g.upper(), " " + g, g + " ", g[:-1], g + "s", g.replace("-", "_"), g.capitalize()]
    out = [o for o in dict.fromkeys(out) if o not in good]
    return [out[k] for k in r.permutation(len(out))]


def k_geometry(ctx):
    r = ctx.rng
    for n in bad_names(r, ["internal", "external"])[:6]:
        ctx.raises(lambda: Geometry_2D("quadrilateral", n, 5, 5, "."), f"mesh generation method {n!r} is accepted")
        ctx.distinct("method", n)
    for n in bad_names(r, ["quadrilateral"])[:6]:
        ctx.raises(lambda: Geometry_2D(n, "internal", 5, 5, "."), f"mesh type {n!r} is accepted")
        ctx.distinct("type", n)
    m = W.quad_mesh(r, nmax=2)
    path = W.write_medit(ctx.scratch + "/m.mesh", m, 3)
    g = Geometry_2D("quadrilateral", "external", 5, 5, ctx.scratch)
    cells, bd = g.read_mesh(path, 1, "uniform", 1)
    for n in bad_names(r, ["uniform", "lhs"])[:6]:
        ctx.raises(lambda: g.read_mesh(path, 1, n, 1), f"boundary sampling {n!r} is accepted")
        ctx.distinct("sampling", n)
    for ext in (".msh", ".vtk", ".txt", ".MESH", ".meshb", "", ".mesh.bak"):
        other = ctx.scratch + "/k" + ext
        open(other, "w").write(open(path).read())
        ctx.raises(lambda: g.read_mesh(other, 1, "uniform", 1), f"a mesh file with extension {ext!r} is accepted")
        ctx.distinct("extension", ext)
    ctx.raises(lambda: g.read_mesh(ctx.scratch + "/absent.mesh", 1, "uniform", 1), "a mesh file that does not exist is accepted")
    again, _ = g.read_mesh(path, 1, "uniform", 1)
    ctx.same(again, cells, "cells read after rejections")
    ctx.desc(kind="geometry")


def k_space(ctx):
    r = ctx.rng
    ok = lambda **k: api.fespace(CELL, None, **{"fe_order": 2, "fe_type": "legendre", "quad_order": 3, **k})
    for n in bad_names(r, O.FAMILIES)[:8]:
        ctx.raises(lambda: ok(fe_type=n), f"test function family {n!r} is accepted")
        ctx.distinct("family", n)
    for n in bad_names(r, ["gauss-legendre", "gauss-jacobi"])[:8]:
        ctx.raises(lambda: ok(quad_type=n), f"quadrature rule {n!r} is accepted")
        ctx.distinct("rule", n)
    for n in bad_names(r, ["affine", "bilinear"])[:8]:
        ctx.raises(lambda: ok(trans=n), f"cell map {n!r} is accepted")
        ctx.distinct("map", n)
    for n in (1, 0, -1, -7, 1000, 5000):
        ctx.raises(lambda: ok(fe_order=n), f"order {n} is accepted")
        ctx.distinct("order", n)
    for n in (2, 1, 0, -1, -10):
        for qt in ("gauss-legendre", "gauss-jacobi"):
            ctx.raises(lambda: ok(quad_order=n, quad_type=qt), f"quadrature order {n} ({qt}) is accepted")
            ctx.distinct("quadrature order", n, qt)
    bd = {1000: np.array([[0.0, 0.0]])}
    for n in ["triangle", *bad_names(r, ["quadrilateral"])[:4]]:

        def build(n=n):
            Fespace2D(api.fake_mesh(CELL), CELL, bd, n, 2, "legendre", 3, "gauss-legendre", "bilinear", {1000: api.zero}, {1000: "dirichlet"}, api.zero, ".", False)

        ctx.raises(build, f"cell type {n!r} is accepted")
        ctx.distinct("cell type", n)
    # a side without a boundary function
    two = {1000: np.array([[0.0, 0.0]]), 1001: np.array([[1.0, 0.0]])}
    ctx.raises(lambda: api.fespace(CELL, two, 2, "legendre", 3, bf={1000: api.zero}, cond={1000: "dirichlet"}), "a boundary without a function is accepted")
    fs = ok()
    ctx.check(fs.n_cells == 1, "a valid space is refused")
    ctx.desc(kind="space")


GETTERS = [
    "get_shape_function_val",
    "get_shape_function_grad_x",
    "get_shape_function_grad_x_ref",
    "get_shape_function_grad_y",
    "get_shape_function_grad_y_ref",
    "get_quadrature_actual_coordinates",
    "get_quadrature_weights",
    "get_forcing_function_values",
]


def k_index(ctx):
    r = ctx.rng
    n = int(r.integers(1, 6))
    cells = W.quad_mesh(r, nmax=3, style="unit").cells
    n = len(cells)
    fs = api.fespace(cells, None, 2, "legendre", 3, f=lambda x, y: 1.0 + x)
    vec = api.fespace(cells, None, 2, "legendre", 3, f=lambda x, y: [x, y])
    for g in GETTERS:
        f = getattr(fs, g)
        for i in (-1, -2, -n, -n - 1, n, n + 1, n + 100, 10**9, np.int64(n), np.int64(-1)):
            ctx.raises(lambda: f(i), f"{g}: index {i} of {n} cells is accepted")
            ctx.note("indices_rejected")
        for i in (0, n - 1, np.int64(n - 1), np.int32(0)):
            f(i)
        ctx.distinct(g, n)
    for i in (-1, -n, n, n + 1):
        ctx.raises(lambda: vec.get_forcing_function_values_vector(i, 0), f"vector forcing: index {i} of {n} cells is accepted")
    vec.get_forcing_function_values_vector(n - 1, 1)
    ctx.desc(cells=n)


def k_dtype(ctx):
    r = ctx.rng
    with_f = api.Problem(r, "poisson", tf.float64, nmax=1)
    bad = [np.float64, "float64", "float32", np.dtype("float32"), None, float, 64, tf.constant(1.0), "tf.float32"]
    for b in bad:
        ctx.raises(lambda: DataHandler2D(with_f.fs, None, dtype=b), f"data handler: dtype {b!r} is accepted")
        ctx.distinct("handler", str(b))
    base = with_f.common([2, 3, 1])
    s = [tf.zeros((1, 2), tf.float64), tf.zeros((1, 1), tf.float64)]
    extra = {"DenseModel": {}, "DenseModel_Hard": {}, "DenseModel_Inverse": {"sensor_list": s, "inverse_params_dict": {"eps": 1.0}}, "DenseModel_Inverse_Domain": {"sensor_list": s}}
    for name, e in extra.items():
        for b in ["float64", None, np.float32, 64]:
            ctx.raises(lambda: getattr(api, name)(**{**base, **e, "tensor_dtype": b}), f"{name}: dtype {b!r} is accepted")
            ctx.distinct(name, str(b))
    ctx.desc(kind="dtype")


def k_solution(ctx):
    """Solutions that do not fit the mesh or the names, without a file being written."""
    r = ctx.rng
    m = W.quad_mesh(r, nmax=3)
    path = W.write_medit(ctx.scratch + "/m.mesh", m, 3)
    out = ctx.scratch + "/o"
    os.makedirs(out)
    g = Geometry_2D("quadrilateral", "external", 5, 5, out)
    g.read_mesh(path, 1, "uniform", 1)
    n = len(m.P)
    good = r.normal(size=(n, 2))
    g.write_vtk(good, out, "a.vtk", ["u", "v"])
    keep = open(out + "/a.vtk", "rb").read()
    for A, names in [
        (r.normal(size=(n, 2)), ["u"]),
        (r.normal(size=(n, 2)), ["u", "v", "w"]),
        (r.normal(size=(n, 1)), ["u", "v"]),
        (r.normal(size=(n, 3)), []),
        (r.normal(size=(n + 1, 2)), ["u", "v"]),
        (r.normal(size=(n - 1, 2)), ["u", "v"]),
        (r.normal(size=(2 * n, 2)), ["u", "v"]),
        (r.normal(size=(1, 2)), ["u", "v"]),
        (r.normal(size=(0, 2)), ["u", "v"]),
    ]:
        for f in ("a.vtk", "b.vtk"):
            ctx.raises(lambda: g.write_vtk(A, out, f, names), f"a solution of shape {A.shape} with {len(names)} names for {n} points is accepted")
        ctx.check(open(out + "/a.vtk", "rb").read() == keep, f"a rejected solution of shape {A.shape} damaged the file written before")
        ctx.check(not os.path.exists(out + "/b.vtk"), f"a rejected solution of shape {A.shape} left a file behind")
        ctx.distinct(A.shape[0] - n, A.shape[1], len(names))
    g.write_vtk(good, out, "a.vtk", ["u", "v"])
    ctx.check(open(out + "/a.vtk", "rb").read() == keep, "the same solution gives another file")
    ctx.desc(points=n)


def k_files(ctx):
    """Measurements and meshes from files that are not there, or that hold none."""
    r = ctx.rng
    d = ctx.scratch + "/f"
    os.makedirs(d + "/folder.csv")
    open(d + "/empty.csv", "w").close()
    with open(d + "/head.csv", "w") as F:
        F.write("x,y,u\n")
    with open(d + "/two.csv", "w") as F:
        F.write("x,y\n0.1,0.2\n0.3,0.4\n")
    table = r.uniform(-1, 1, (12, 3))
    np.savetxt(d + "/good.csv", table, delimiter=",", header="x,y,u", comments="", fmt="%.17g")
    geo, cells, bd = api.internal([0, 1], [0, 2], 2, 2, 8, d, tx=4, ty=5)
    fs = api.fespace(cells, bd)
    fs.mesh = geo.mesh
    dh = DataHandler2D(fs, geo, dtype=tf.float64)
    sol = lambda x, y: x + y
    count = []

    def watched(x, y):
        count.append(1)
        return x + y

    for f in ("absent.csv", "no/good.csv", "folder.csv", "empty.csv", "head.csv", "two.csv", "good", "Good.csv", "good.txt", None):
        for exact in (sol, watched, None):
            name = None if f is None else os.path.join(d, f)
            ctx.raises(lambda: dh.get_sensor_data(exact, 7, "external", name), f"sensor data from {f!r} (absent or without data) are accepted")
            ctx.raises(lambda: fs.get_sensor_data_external(exact, 7, name), f"sensor data of the space from {f!r} (absent or without data) are accepted")
        ctx.distinct("table", str(f))
        pts, v = dh.get_sensor_data(None, 7, "external", d + "/good.csv")
        rows = np.concatenate([pts.numpy(), v.numpy()], 1)
        ctx.check(all(np.abs(table - row).max(1).min() < 1e-14 for row in rows), f"after {f!r} was rejected, sensor data are no rows of their table")
    for kind in ("extern", "External", "", "INTERNAL", "none"):
        ctx.raises(lambda: dh.get_sensor_data(sol, 7, kind, d + "/good.csv"), f"sensor data of the unknown kind {kind!r} are accepted")
        ctx.distinct("kind", kind)
    # solution files and test points of a mesh that was never written
    for method in ("internal", "external"):
        g = Geometry_2D("quadrilateral", method, 4, 5, d + "/folder.csv", is_optimized=True)
        ctx.raises(lambda: g.write_vtk(r.normal(size=(20, 1)), d, "s.vtk", ["u"]), f"a solution on an {method} mesh that was never written is accepted")
        ctx.check(not os.path.exists(d + "/s.vtk"), "a rejected solution left a file behind")
        if method == "external":
            ctx.raises(g.get_test_points, "test points of a mesh that was never read are accepted")
            for m in ("absent.mesh", "folder.csv", "no/x.mesh"):
                ctx.raises(lambda: g.read_mesh(os.path.join(d, m), 1, "uniform", 1), f"the mesh {m!r}, which does not exist, is accepted")
    ctx.note("files_rejected", 30)
    ctx.desc(folder=sorted(os.listdir(d)))


KINDS = {"files": k_files, "geometry": k_geometry, "space": k_space, "index": k_index, "dtype": k_dtype, "solution": k_solution}
