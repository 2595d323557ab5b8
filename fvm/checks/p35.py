"""P35: what is reported on the console is true."""
import contextlib
import io
import re

import numpy as np
import tensorflow as tf
from fastvpinns.utils.print_utils import print_table

from .. import api, oracle as O, plans, workloads as W
from ..train import MODELS, Run

BARS = "|│┃"


def plan(tier):
    return plans.cases("P35", tier)


class Said:
    """What was written to the standard output."""

    def __init__(self):
        self.out = io.StringIO()

    def __enter__(self):
        self.cm = contextlib.redirect_stdout(self.out)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def rows(self):
        """The rows of all tables, as lists of cells."""
        res = []
        for line in self.out.getvalue().split("\n"):
            if any(b in line for b in BARS):
                t = [c.strip() for c in re.split(f"[{BARS}]", line)]
                t = t[1:] if t and t[0] == "" else t
                t = t[:-1] if t and t[-1] == "" else t
                res.append(t)
        return res

    def value(self, label):
        """All that is said about a label, in tables or after '=' or ':'."""
        res = [r[1] for r in self.rows() if len(r) >= 2 and r[0] == label]
        for line in self.out.getvalue().split("\n"):
            m = re.match(r"^\[INFO\]\s*:\s*(.*?)\s*[=:]\s*(.*)$", line)
            if m and m.group(1) == label:
                res.append(m.group(2).strip())
        return res


def said(ctx, s, label, want):
    got = s.value(label)
    ctx.check(got, f"nothing is said about {label!r}")
    for g in got:
        ctx.check(re.sub(r"\s", "", g) == re.sub(r"\s", "", str(want)), f"reported {label} = {g}, it is {want}")
        ctx.note("facts_observed")


def k_table(ctx):
    r = ctx.rng
    n = int(r.choice([0, 1, 2, 5, 30, 200]))
    words = ["L2 Error", "Linf", "Time (s)", "a", "Number of Cells", "x=1", "50%", "naïve", "FE Type", "e", "1", "-"]
    names, vals = [], []
    for k in range(n):
        names.append(f"{ctx.pick(words)} {k}")
        t = int(r.integers(0, 17))
        vals.append(
            [
                lambda: float(r.normal() * 10 ** r.uniform(-3, 6)),
                lambda: int(r.integers(-(10**9), 10**9)),
                lambda: np.float64(r.normal()),
                lambda: "legendre",
                lambda: (int(r.integers(1, 99)), int(r.integers(1, 999))),
                lambda: True,
                lambda: None,
                lambda: 0.0,
                lambda: np.int64(r.integers(0, 10**6)),
                # (long, but within the eighty columns of the console)
                lambda: "".join(ctx.pick(list("abcdefghijkmnopqrstuvwxyz_./")) for _ in range(int(r.integers(20, 49)))),
                lambda: float(r.normal() * 10 ** r.uniform(10, 40)),
                lambda: int(r.integers(-(2**62), 2**62)) * 2 + 1,
                lambda: np.int64(r.integers(-(2**62), 2**62)),
                lambda: int(r.integers(2**60, 2**62)) ** 2 + 1,
                lambda: np.int32(r.integers(-(2**31), 2**31)),
                lambda: np.uint64(2**63 + int(r.integers(0, 2**62))),
                lambda: np.bool_(r.integers(0, 2)),
            ][t]()
        )
    heads = [f"Property{ctx.i}", "Value"]
    keep = (list(names), list(vals), list(heads))
    ctx.desc(rows=n, values=vals[:20])
    with Said() as s:
        res = print_table(f"Title {ctx.i}", heads, names, vals)
    ctx.check(res is None, "something is returned")
    ctx.check((names, vals, heads) == keep, "the arguments are modified")
    ctx.check(f"Title {ctx.i}" in s.out.getvalue(), "the title is missing")
    rows = s.rows()
    ctx.check(rows and rows[0] == heads, f"the heads are {rows[0] if rows else None}, not {heads}")
    rows = rows[1:]
    ctx.check(len(rows) == n, f"{len(rows)} rows for {n} pairs")
    for row, a, v in zip(rows, names, vals):
        ctx.check(row[0] == a and len(row) == 2, f"row {row}, expected {a!r}")
        if isinstance(v, float):
            ctx.check(abs(float(row[1]) - v) <= 5.001e-5 + 1e-15 * abs(v), f"{a}: shown is {row[1]}, given is {v!r}")
        else:
            ctx.check(row[1] == str(v), f"{a}: shown is {row[1]}, given is {v!r}")
        ctx.note("rows_observed")
    ctx.distinct(n, ctx.i)


def k_space(ctx):
    r = ctx.rng
    N, q = int(r.integers(1, 8)), int(r.integers(3, 12))
    fam = O.FAMILIES[int(r.integers(0, 5))]
    N = max(N, 2)
    qt = ctx.pick(["gauss-legendre", "gauss-jacobi"])
    if r.integers(0, 2):
        cells = W.quad_mesh(r, nmax=4).cells
        cells = np.array([O.order_ccw(c) for c in cells])
    else:
        cells = np.array([[[i, 0], [i + 1, 0], [i + 1, 1], [i, 1]] for i in range(int(r.integers(1, 120)))], float)
    trans = ctx.pick(["affine", "bilinear"])
    bd = {int(t): r.uniform(-1, 1, (int(r.integers(1, 60)), 2)) for t in r.choice(np.arange(1, 3000), int(r.integers(1, 7)), replace=False)}
    if ctx.i % 2:
        # points that belong to several parts of the boundary, or that a part names more than once
        tags = list(bd)
        for t in tags:
            u = ctx.pick(tags)
            bd[t] = np.vstack([bd[t], bd[u][r.integers(0, len(bd[u]), int(r.integers(1, 4)))]])
        ctx.note("repeated_boundary_points")
    nb = sum(map(len, bd.values()))
    ctx.desc(order=N, quad=q, family=fam, rule=qt, map=trans, cells=len(cells), boundary_points=nb)
    with Said() as s:
        fs = api.fespace(cells, bd, N, fam, q, qt, trans)
    said(ctx, s, "Number of Cells", len(cells))
    said(ctx, s, "Number of Quadrature Points", len(cells) * q * q)
    said(ctx, s, "Number of Dirichlet Boundary Points", nb)
    said(ctx, s, "Quadrature Order", q)
    said(ctx, s, "FE Order", N)
    said(ctx, s, "FE Type", fam)
    said(ctx, s, "FE Transformation Type", trans)
    nt = O.degree1d(fam, N)
    nt = len(O.basis1d(fam, N, np.array([0.0]))) ** 2
    said(ctx, s, "Shape function Matrix Shape", (nt, q * q))
    said(ctx, s, "Shape function Gradient Matrix Shape", (nt, q * q))
    said(ctx, s, "Quadrature Points Shape", (q * q,))
    said(ctx, s, "Quadrature Weights Shape", (q * q,))
    said(ctx, s, "Quadrature Actual Coordinates Shape", (q * q, 2))
    said(ctx, s, "Forcing Function Shape", (nt, 1))
    said(ctx, s, "Total number of Dirichlet boundary points", nb)
    ctx.check(int(fs.n_cells) == len(cells), f"n_cells = {fs.n_cells}")
    ctx.check(int(fs.total_dofs) == len(cells) * q * q, f"total_dofs = {fs.total_dofs}, there are {len(cells) * q * q} quadrature points")
    ctx.check(int(fs.total_dirichlet_dofs) == nb, f"total_dirichlet_dofs = {fs.total_dirichlet_dofs}, there are {nb} boundary points")
    # they stay so when the boundary data are asked for again, or a picture of the mesh is made
    with Said() as s:
        fs.generate_dirichlet_boundary_data()
    said(ctx, s, "Total number of Dirichlet boundary points", nb)
    ctx.check(int(fs.total_dirichlet_dofs) == nb and int(fs.total_dofs) == len(cells) * q * q, "the numbers change when the boundary data are asked for again")
    if ctx.i % 4 == 0 and len(cells) < 20:
        for _ in range(2 + ctx.i % 2):
            with Said() as s:
                fs.generate_plot(".")
            said(ctx, s, "Total number of quadrature points", len(cells) * q * q)
            said(ctx, s, "Total number of boundary points", nb)
            ctx.check(int(fs.total_dofs) == len(cells) * q * q and int(fs.total_dirichlet_dofs) == nb, "the numbers change when a picture of the mesh is made")
    ctx.note("spaces_observed")
    ctx.distinct(ctx.case)


def k_model(ctx):
    r = ctx.rng
    kind = list(MODELS)[ctx.i % 4]
    dtype = ctx.pick([tf.float32, tf.float64])
    with Said() as s:
        run = Run(ctx, kind, dtype=dtype)
    ctx.desc(**run.describe())
    n, nt, nq = run.V.shape
    want = {
        "input_tensor": (n * nq, 2),
        "force_matrix": (nt, n),
        "pre_multiplier_grad_x": (n, nt, nq),
        "pre_multiplier_grad_y": (n, nt, nq),
        "pre_multiplier_val": (n, nt, nq),
        "dirichlet_input": run.DX.shape,
        "dirichlet_actual": run.DY.shape,
    }
    for k, shape in want.items():
        said(ctx, s, k, tuple(int(v) for v in shape))
        row = [x for x in s.rows() if x and x[0] == k]
        ctx.check(all(dtype.name in x[-1] for x in row), f"{k}: reported type {row[0][-1]}, it is {dtype.name}")
    with Said() as s:
        run.model.summary()
    total = sum(a * b + b for a, b in zip(run.layers[:-1], run.layers[1:]))
    m = re.search(r"Trainable params: (\d+)", s.out.getvalue())
    inv = len(run.inv0) if kind == "inverse" else 0
    ctx.check(m and int(m.group(1)) in (total, total + inv), f"{m.group(1) if m else None} trainable parameters reported, the layers {run.layers} have {total}")
    ctx.note("models_observed")
    ctx.distinct(kind, run.layers, want)


def k_mesh(ctx):
    r = ctx.rng
    m = W.quad_mesh(r, nmax=6)
    W.write_medit("a.mesh", m, dim=int(r.integers(2, 4)), rng=r)
    level, how = int(r.integers(1, 6)), ctx.pick(["uniform", "lhs"])
    g = api.Geometry_2D("quadrilateral", "external", 5, 5, ".")
    with Said() as s:
        cells, bd = g.read_mesh("a.mesh", level, how, 1)
    ctx.desc(cells=len(m.cells), level=level, sampling=how)
    said(ctx, s, "Number of cells", len(m.cells))
    said(ctx, s, "Number of points per cell", (len(m.cells), 4, 2))
    for k, v in bd.items():
        said(ctx, s, str(k), len(v))
    said(ctx, s, "No of bound pts after refinement", sum(map(len, bd.values())))
    ctx.note("meshes_observed")


KINDS = {"table": k_table, "space": k_space, "model": k_model, "mesh": k_mesh}
