"""P01: an internally generated mesh tiles its rectangle."""
import numpy as np

from fvm import api, oracle as O, workloads as W


def observe(ctx, g, cells, mesh, xl, yl, nx, ny, what=""):
    x0, x1, y0, y1 = float(xl[0]), float(xl[1]), float(yl[0]), float(yl[1])
    hx, hy = (x1 - x0) / nx, (y1 - y0) / ny
    cells = np.asarray(cells)
    ctx.check(cells.shape == (nx * ny, 4, 2), f"{what}cells have shape {cells.shape}, expected {(nx * ny, 4, 2)}")
    ctx.check(np.issubdtype(cells.dtype, np.floating), f"{what}cells are not floating point")
    # integer position of every vertex in the uniform grid
    px, py = (cells[:, :, 0] - x0) / hx, (cells[:, :, 1] - y0) / hy
    tol = 1e-9 + 1e-12 * max(abs(x0), abs(x1)) / hx + 1e-12 * max(abs(y0), abs(y1)) / hy
    ix, iy = np.rint(px), np.rint(py)
    ctx.check(np.max(np.abs(px - ix)) < tol and np.max(np.abs(py - iy)) < tol, f"{what}a vertex is off the uniform grid")
    seen = set()
    for k in range(len(cells)):
        a, b = int(ix[k].min()), int(iy[k].min())
        want = {(a, b), (a + 1, b), (a + 1, b + 1), (a, b + 1)}
        got = [(int(u), int(v)) for u, v in zip(ix[k], iy[k])]
        ctx.check(set(got) == want, f"{what}cell {k} is not one box of the grid: {cells[k].tolist()}")
        ctx.check(O.signed_area(np.array(got, float)) > 0.5, f"{what}cell {k} is not anticlockwise: {cells[k].tolist()}")
        ctx.check(0 <= a < nx and 0 <= b < ny, f"{what}cell {k} lies outside the rectangle")
        ctx.check((a, b) not in seen, f"{what}box {(a, b)} is covered twice")
        seen.add((a, b))
    ctx.check(len(seen) == nx * ny, f"{what}only {len(seen)} of {nx * ny} boxes are covered")
    ctx.note("cells_observed", len(cells))
    # the extreme lines are the limits themselves
    sx, sy = 1e-12 * max(abs(x0), abs(x1), x1 - x0), 1e-12 * max(abs(y0), abs(y1), y1 - y0)
    for got, want, s in ((cells[..., 0].min(), x0, sx), (cells[..., 0].max(), x1, sx), (cells[..., 1].min(), y0, sy), (cells[..., 1].max(), y1, sy)):
        ctx.check(abs(got - want) <= s, f"{what}the mesh ends at {got!r} instead of {want!r}")
    # the mesh object describes the same cells
    pts = np.asarray(mesh.points)[:, :2]
    conn = np.concatenate([np.asarray(b.data) for b in mesh.cells if b.type == "quad"])
    mc = pts[conn]
    key = lambda c: sorted(tuple(np.rint([(v[0] - x0) / hx, (v[1] - y0) / hy]).astype(int)) for v in c)
    ctx.check(sorted(map(key, mc)) == sorted(map(key, cells)), f"{what}the mesh object has other cells than the returned array")


def one(ctx, nx, ny, xl, yl, optimized=True, nb=40):
    x_in, y_in = W.as_kind(ctx.rng, xl), W.as_kind(ctx.rng, yl)
    keep = (list(map(float, x_in)), list(map(float, y_in)))
    g, cells, bd = api.internal(x_in, y_in, nx, ny, nb, out=ctx.scratch, optimized=optimized)
    observe(ctx, g, cells, g.mesh, xl, yl, nx, ny)
    ctx.check(keep == (list(map(float, x_in)), list(map(float, y_in))), "the limits passed in were changed")
    ctx.close(g.cell_points, cells, 0, "the cells kept in the domain differ from those returned")
    ctx.distinct(nx, ny, keep, optimized)
    return g


def k_grid(ctx):
    """Every small nx x ny, each with its own limits."""
    n = 12
    for nx in range(1, n + 1):
        ny = (ctx.i % n) + 1
        xl, yl = W.limits(ctx.rng, (ctx.i + nx) % 8), W.limits(ctx.rng, (ctx.i // 2 + 3 * nx) % 8)
        ctx.desc(nx=nx, ny=ny, x=xl, y=yl)
        one(ctx, nx, ny, xl, yl)


def k_large(ctx):
    r = ctx.rng
    nx, ny = [(1, int(r.integers(50, 300))), (int(r.integers(50, 300)), 1), (int(r.integers(20, 60)), int(r.integers(20, 60)))][ctx.i % 3]
    if ctx.i % 8 == 7:
        nx, ny = int(r.integers(80, 130)), int(r.integers(80, 130))
    xl, yl = W.limits(r), W.limits(r)
    ctx.desc(nx=nx, ny=ny, x=xl, y=yl)
    one(ctx, nx, ny, xl, yl, nb=int(r.integers(4, 400)))


def k_vtk(ctx):
    """With the gmsh test mesh written too: it covers the same rectangle."""
    import meshio

    r = ctx.rng
    nx, ny = int(r.integers(1, 6)), int(r.integers(1, 6))
    xl, yl = W.limits(r, [0, 1, 2, 3, 6][ctx.i % 5]), W.limits(r, [1, 2, 3, 6, 0][ctx.i % 5])
    ctx.desc(nx=nx, ny=ny, x=xl, y=yl)
    one(ctx, nx, ny, xl, yl, optimized=False)
    m = meshio.read(ctx.scratch + "/internal.vtk")
    P = m.points[:, :2]
    for k, lim in ((0, xl), (1, yl)):
        s = 1e-6 * max(1e-3, abs(lim[0]), abs(lim[1]))
        ctx.check(abs(P[:, k].min() - lim[0]) < s and abs(P[:, k].max() - lim[1]) < s, "the written test mesh does not span the rectangle")
    ctx.note("vtk_meshes")


def k_history(ctx):
    """Several domains alive at once, and one regenerated with other parameters."""
    r = ctx.rng
    kept = []
    g = api.Geometry_2D("quadrilateral", "internal", 5, 5, ctx.scratch, is_optimized=True)
    for step in range(6):
        nx, ny = int(r.integers(1, 9)), int(r.integers(1, 9))
        xl, yl = W.limits(r), W.limits(r)
        if step % 2:
            h, c, b = api.internal(list(xl), list(yl), nx, ny, 16)
        else:
            h = g
            c, b = g.generate_quad_mesh_internal(list(xl), list(yl), nx, ny, 16)
        observe(ctx, h, c, h.mesh, xl, yl, nx, ny, f"step {step}: ")
        kept.append((c, c.copy(), xl, yl, nx, ny))
        for t, (old, copy, *_rest) in enumerate(kept):
            ctx.same(old, copy, f"the cells returned at step {t} changed at step {step}")
    ctx.desc(steps=[k[2:] for k in kept])
    ctx.note("histories")


def k_scales(ctx):
    """Rectangles in every unit of length."""
    r = ctx.rng
    for rep in range(4):
        s, t = float(10.0 ** r.uniform(-16, 14)), float(10.0 ** r.uniform(-3, 3))
        xl, yl = ([s * k * v for v in W.limits(r)] for k in (1.0, t))
        nx, ny = int(r.integers(1, 12)), int(r.integers(1, 12))
        ctx.desc(nx=nx, ny=ny, x=xl, y=yl)
        one(ctx, nx, ny, xl, yl)
        ctx.note("scales_observed")


KINDS = {"scales": k_scales, "grid": k_grid, "large": k_large, "vtk": k_vtk, "history": k_history}
