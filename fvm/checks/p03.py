"""P03: the cells of an external mesh are read one for one, anticlockwise."""
import os
from pathlib import Path

import numpy as np

from fvm import api, oracle as O, workloads as W

ORDERS = ["VEQ", "VQE", "VEQEQ", "VQQEE", "VQEQEQ"]


def reader(ctx):
    return api.Geometry_2D("quadrilateral", "external", 10, 10, ctx.scratch)


def observe(ctx, cells, want, what="", tol=1e-14, strict=0):
    cells, want = np.asarray(cells), np.asarray(want)
    ctx.check(cells.shape == want.shape, f"{what}cells have shape {cells.shape}, the file has {want.shape}")
    for k in range(len(want)):
        s = max(1e-30, np.abs(want[k]).max())
        got = cells[k]
        # the vertices of the k-th cell, each exactly once, in anticlockwise cyclic order
        d = np.abs(got[:, None, :] - want[k][None, :, :]).max(axis=2) / s
        m = d.argmin(axis=1)
        ctx.check(sorted(m) == [0, 1, 2, 3] and d[np.arange(4), m].max() <= tol, f"{what}cell {k} has other vertices than in the file: {got.tolist()} / {want[k].tolist()}")
        ctx.check(O.signed_area(got) > 0 and O.is_convex(got, strict), f"{what}cell {k} is not listed anticlockwise: {got.tolist()}")
        ctx.note("cells_observed")


def read(ctx, g, path, level=1, samp="uniform"):
    return g.read_mesh(mesh_file=path, boundary_point_refinement_level=level, bd_sampling_method=samp, refinement_level=1)


def k_meshes(ctx):
    r = ctx.rng
    style = W.STYLES[ctx.i % len(W.STYLES)]
    for rep in range(3):
        m = W.quad_mesh(r, nmax=7, style=style)
        dim = 2 + int(r.integers(0, 2))
        order = ORDERS[int(r.integers(0, len(ORDERS)))]
        extra = int(r.integers(0, 3))
        path = W.write_medit(ctx.scratch + f"/m{rep}.mesh", m, dim, order, extra_points=extra)
        ctx.desc(style=style, cells=len(m.Q), dim=dim, order=order, unused_points=extra)
        g = reader(ctx)
        text = open(path).read()
        cells, bd = read(ctx, g, path if rep % 2 else Path(path), int(r.integers(0, 4)), ["uniform", "lhs"][int(r.integers(0, 2))])
        observe(ctx, cells, m.cells)
        ctx.same(g.cell_points, cells, "the cells kept in the domain differ from those returned")
        ctx.check(open(path).read() == text, "the mesh file was changed")
        P = np.asarray(g.mesh.points)
        ctx.close(P[: len(m.P), :2], m.P, 1e-14, "the points of the mesh object are not those of the file")
        ctx.distinct(style, len(m.Q), dim, order, float(m.P[0, 0]))


def k_large(ctx):
    r = ctx.rng
    P, Q, E, side = W.structured(r, int(r.integers(15, 35)), int(r.integers(15, 35)), ["unit", "perturbed", "rotated"][ctx.i % 3])
    m = W.QuadMesh(P, Q, E, [s + 1 for s in side], "large")
    perm = r.permutation(len(m.Q))
    m.Q = np.array([np.roll(q if r.integers(0, 2) else q[::-1], int(r.integers(0, 4))) for q in m.Q[perm]])
    path = W.write_medit(ctx.scratch + "/m.mesh", m, 3, ORDERS[(ctx.i + ctx.i // 5) % len(ORDERS)])
    ctx.desc(cells=len(m.Q))
    g = reader(ctx)
    cells, bd = read(ctx, g, path)
    observe(ctx, cells, m.cells)
    ctx.distinct(len(m.Q), float(m.P[1, 1]))


def k_huge(ctx):
    """Ten thousand cells, numbered row by row or at random; strips."""
    r = ctx.rng
    nx, ny = [(int(r.integers(70, 110)), int(r.integers(70, 110))), (int(r.integers(5000, 9000)), 1), (2, int(r.integers(2500, 5000))), (int(r.integers(33000, 36000)), 1)][ctx.i % 4]
    P, Q, E, side = W.structured(r, nx, ny, "stretched" if ctx.i % 4 else "perturbed")
    m = W.QuadMesh(P, Q, E, [s + 1 for s in side], "huge")
    if (ctx.i // 4) % 2 or ctx.i % 4 == 3:
        perm = r.permutation(len(P))
        m = W.QuadMesh(P[perm], np.argsort(perm)[np.array(Q)], np.argsort(perm)[np.array(E)], [s + 1 for s in side], "huge")
    path = W.write_medit(ctx.scratch + "/m.mesh", m, 2 + ctx.i % 2, ORDERS[ctx.i % len(ORDERS)])
    ctx.desc(cells=len(m.Q), nx=nx, ny=ny)
    cells, bd = read(ctx, reader(ctx), path, 0)
    observe(ctx, cells, m.cells)
    ctx.note("huge_observed", len(m.Q))
    ctx.distinct(len(m.Q), float(m.P[1, 1]))


def k_single(ctx):
    """One-cell meshes of every shape, every start vertex, both orientations."""
    r = ctx.rng
    for rep in range(8):
        q, style = W.random_quad(r)
        q, s, cw = W.roll(r, q)
        m = W.QuadMesh(q, np.array([[0, 1, 2, 3]]), np.array([[0, 1], [1, 2], [2, 3], [3, 0]]), [1, 2, 3, 4], style)
        path = W.write_medit(ctx.scratch + "/s.mesh", m, 2 + rep % 2, ORDERS[rep % 2])
        ctx.desc(style=style, cell=q, start=s, clockwise=cw)
        cells, bd = read(ctx, reader(ctx), path)
        observe(ctx, cells, m.cells)
        ctx.distinct(style, s, cw, float(q[0, 0]))


def k_history(ctx):
    """One reader reads several files, one of them rewritten in between; other readers stay untouched."""
    r = ctx.rng
    g, other = reader(ctx), reader(ctx)
    kept = []
    paths = [ctx.scratch + f"/f{k}.mesh" for k in range(2)]
    for step in range(6):
        m = W.quad_mesh(r, nmax=4)
        p = paths[step % 2]
        W.write_medit(p, m, 2 + step % 2, ORDERS[int(r.integers(0, len(ORDERS)))])
        cells, bd = read(ctx, g if step % 3 else other, p)
        observe(ctx, cells, m.cells, f"step {step}: ")
        kept.append((cells, cells.copy()))
        for t, (a, b) in enumerate(kept):
            ctx.same(a, b, f"the cells read at step {t} were changed at step {step}")
        # reading the same file again gives the same cells
        again, _ = read(ctx, reader(ctx), p)
        ctx.same(again, cells, f"step {step}: a second reading differs")
    ctx.desc(style=m.style, cells=len(m.Q))
    ctx.note("histories")


def k_shipped(ctx):
    """The meshes shipped with the repository, parsed here without meshio."""
    files = sorted(
        os.path.join(d, f)
        for d, _, fs in os.walk("/repo")
        for f in fs
        if f.endswith(".mesh") and "wrong" not in f and ".git" not in d
    )
    if not files:
        return
    f = files[ctx.i % len(files)]
    tok = open(f).read().split()
    at = lambda name: next((k for k, t in enumerate(tok) if t == name), None)
    if at("Quadrilaterals") is None or at("Edges") is None:
        ctx.desc(file=os.path.basename(f), skipped="not a quadrilateral mesh")
        return
    dim = int(tok[at("Dimension") + 1])
    v, q = at("Vertices"), at("Quadrilaterals")
    nv, nq = int(tok[v + 1]), int(tok[q + 1])
    P = np.array(tok[v + 2 : v + 2 + nv * (dim + 1)], float).reshape(nv, dim + 1)[:, :2]
    Q = np.array(tok[q + 2 : q + 2 + nq * 5], int).reshape(nq, 5)[:, :4] - 1
    ctx.desc(file=os.path.basename(f), cells=nq)
    cells, bd = read(ctx, reader(ctx), f)
    observe(ctx, cells, P[Q])


def k_offset(ctx):
    """Meshes that are small compared with their distance from the origin."""
    r = ctx.rng
    for rep in range(3):
        m = W.quad_mesh(r, nmax=6, style="offset", far=8.0)
        dim = 2 + int(r.integers(0, 2))
        path = W.write_medit(ctx.scratch + f"/o{rep}.mesh", m, dim, ORDERS[int(r.integers(0, len(ORDERS)))])
        ctx.desc(style="offset", cells=len(m.Q), dim=dim, first=m.P[0], size=float(np.ptp(m.P, axis=0).max()))
        cells, bd = read(ctx, reader(ctx), path, int(r.integers(0, 3)))
        observe(ctx, cells, m.cells)
        ctx.note("offset_observed")
        ctx.distinct(len(m.Q), dim, float(m.P[0, 0]))


def k_hanging(ctx):
    """Cells with a vertex in the middle of a straight side, and nearly so, listed from any vertex in either orientation."""
    r = ctx.rng
    for rep in range(8):
        q = W.hanging(r)
        if rep % 2:
            # nearly straight, towards the outside
            q[1] += 10.0 ** r.uniform(-9, -2) * (q[1] - q[3])
        q, s, cw = W.roll(r, q)
        m = W.QuadMesh(q, np.array([[0, 1, 2, 3]]), np.array([[0, 1], [1, 2], [2, 3], [3, 0]]), [1, 2, 3, 4], "hanging")
        path = W.write_medit(ctx.scratch + "/h.mesh", m, 2 + rep % 2, ORDERS[int(r.integers(0, len(ORDERS)))])
        ctx.desc(cell=q, start=s, clockwise=cw)
        cells, bd = read(ctx, reader(ctx), path)
        observe(ctx, cells, m.cells, strict=-1e-12 * (1 + np.abs(q).max() / np.abs(q - q.mean(0)).max()))
        ctx.note("hanging_observed")
        ctx.distinct(s, cw, float(q[0, 0]))


def k_scales(ctx):
    """Meshes in every unit of length, and cells of very different sizes in one file."""
    r = ctx.rng
    for rep in range(3):
        m = W.quad_mesh(r, nmax=5, style=["unit", "perturbed", "sheared", "ring", "rotated"][(ctx.i + rep) % 5])
        s = float(10 ** [r.uniform(-14, -3), r.uniform(3, 12), r.uniform(-30, 30)][(ctx.i // 5) % 3])
        P, Q, E, tags = m.P * s, [list(q) for q in m.Q], [list(e) for e in m.E], list(m.tags)
        if rep:
            # a tiny cell in a corner of its own, cut off the rest
            h = float(10 ** -r.uniform(2, 9)) * s
            q = W.random_quad(r)[0]
            q = (q - q.mean(0)) / np.abs(q - q.mean(0)).max() * h
            k = len(P)
            P, Q = np.concatenate([P, q]), Q + [[k, k + 1, k + 2, k + 3]]
            E, tags = E + [[k + j, k + (j + 1) % 4] for j in range(4)], tags + [1] * 4
        m = W.QuadMesh(P, np.array(Q), np.array(E), tags, "scales")
        dim = 2 + int(r.integers(0, 2))
        path = W.write_medit(ctx.scratch + f"/z{rep}.mesh", m, dim, ORDERS[int(r.integers(0, len(ORDERS)))])
        ctx.desc(style="scales", cells=len(m.Q), dim=dim, unit=s)
        cells, bd = read(ctx, reader(ctx), path, int(r.integers(0, 3)))
        observe(ctx, cells, m.cells)
        ctx.note("scales_observed", len(m.Q))
        ctx.distinct(len(m.Q), dim, float(m.P[0, 0]))


KINDS = {"scales": k_scales, "huge": k_huge, "hanging": k_hanging, "offset": k_offset, "meshes": k_meshes, "large": k_large, "single": k_single, "history": k_history, "shipped": k_shipped}
