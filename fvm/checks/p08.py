"""P08: quadrature points and weights of a cell are those of its reference map."""
import numpy as np

from fastvpinns.FE.quad_affine import QuadAffin
from fastvpinns.FE.quad_bilinear import QuadBilinear
from fvm import api, oracle as O, workloads as W

TYPES = ["gauss-legendre", "gauss-jacobi"]


def polygon_moments(q):
    """Area and first and second moments of a quadrilateral, about its vertex mean (Green's theorem)."""
    c = q.mean(axis=0)
    p = q - c
    x, y = p[:, 0], p[:, 1]
    X, Y = np.roll(x, -1), np.roll(y, -1)
    cr = x * Y - X * y
    a = cr.sum() / 2
    mx, my = ((x + X) * cr).sum() / 6, ((y + Y) * cr).sum() / 6
    xx = ((x * x + x * X + X * X) * cr).sum() / 12
    yy = ((y * y + y * Y + Y * Y) * cr).sum() / 12
    xy = ((x * Y + 2 * x * y + 2 * X * Y + X * y) * cr).sum() / 24
    s = np.sign(a)
    return c, np.array([a, mx, my, xx, yy, xy]) * s


def observe(ctx, fs, cells, k, qtype, q, trans, what=""):
    w = np.asarray(fs.get_quadrature_weights(k)).reshape(-1)
    P = np.asarray(fs.get_quadrature_actual_coordinates(k))
    cell = cells[k]
    what = f"{what}cell {k} ({trans}, {qtype} {q}): "
    ctx.check(P.shape == (q * q, 2) and w.shape == (q * q,), f"{what}shapes {P.shape}, {w.shape}")
    ctx.check(np.all(w > 0), f"{what}a weight is not positive")
    c, M = polygon_moments(cell)
    h = np.abs(cell - c).max()
    off = 1e-13 * np.abs(c).max() / h
    d = P - c
    got = np.array([w.sum(), (w * d[:, 0]).sum(), (w * d[:, 1]).sum(), (w * d[:, 0] ** 2).sum(), (w * d[:, 1] ** 2).sum(), (w * d[:, 0] * d[:, 1]).sum()])
    sc = M[0] * np.array([1, h, h, h * h, h * h, h * h])
    tol = 1e-11 + 10 * off * max(1.0, h * h / M[0])
    ctx.close(got / sc, M / sc, tol, what + "area and moments of the cell", scale=1.0)
    # the points are the images of the rule's points, each with its own weight
    m = O.Map(cell, trans)
    w0, xi, eta = O.rule2d(qtype, q)
    want, det = m.points(xi, eta), np.abs(m.det(xi, eta))
    ctx.close((P - c) / h, (want - c) / h, 1e-12 + 10 * off, what + "position of a quadrature point", scale=1.0)
    ctx.close(w, w0 * det, 1e-11 + 10 * off * max(1.0, h * h / M[0]), what + "weight of a quadrature point", scale=(w0 * det).max())
    # and inside the cell
    qq = cell if O.signed_area(cell) > 0 else cell[::-1]
    e = np.roll(qq, -1, 0) - qq
    n = np.stack([-e[:, 1], e[:, 0]], 1) / np.linalg.norm(e, axis=1)[:, None]
    dist = ((P[:, None, :] - qq[None]) * n[None]).sum(axis=2)
    ctx.check(dist.min() > -1e-9 * h - 1e-12 * np.abs(c).max(), f"{what}a quadrature point lies outside the cell")
    ctx.note("cells_observed")
    ctx.note("points_observed", q * q)


def k_shapes(ctx):
    """Cells of every shape, listed from every vertex, both ways round."""
    r = ctx.rng
    cells, styles = [], []
    affine_ok = ["rect", "square", "parallelogram", "rotated"]
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    for _ in range(5):
        c, s = W.random_quad(r, affine_ok[int(r.integers(0, 4))] if trans == "affine" else None)
        c, st, cw = W.roll(r, c)
        cells.append(c)
        styles.append((s, st, cw))
    cells = np.array(cells)
    q, qt = int(r.integers(3, 12)), TYPES[int(r.integers(0, 2))]
    keep = cells.copy()
    ctx.desc(map=trans, quad_order=q, quad_type=qt, cells=styles, first=cells[0])
    fs = api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt, trans=trans)
    for k in r.permutation(5):
        observe(ctx, fs, cells, int(k), qt, q, trans)
    observe(ctx, fs, cells, 0, qt, q, trans, "asked again, ")
    ctx.same(cells, keep, "the cells passed in were changed")
    for s in styles:
        ctx.distinct(trans, qt, q, s)


def k_mesh(ctx):
    """Whole meshes: the weights sum to the area of the domain."""
    r = ctx.rng
    m = W.quad_mesh(r, nmax=9)
    cells = np.array([O.order_ccw(c) for c in m.cells])
    q, qt = int(r.integers(3, 6)), TYPES[int(r.integers(0, 2))]
    fs = api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt)
    total = 0.0
    for k in range(len(cells)):
        observe(ctx, fs, cells, k, qt, q, "bilinear")
        total += fs.get_quadrature_weights(k).sum()
    area = sum(abs(O.signed_area(c)) for c in cells)
    ctx.check(abs(total - area) < 1e-9 * area, "the weights do not sum to the area of the domain")
    ctx.check(fs.n_cells == len(cells) and fs.total_dofs == len(cells) * q * q, "the number of cells or quadrature points is misreported")
    ctx.desc(style=m.style, cells=len(cells), quad_order=q, quad_type=qt)
    ctx.distinct(m.style, len(cells), q, qt)


def k_maps(ctx):
    """The maps themselves, at arbitrary reference points, scalar and array."""
    r = ctx.rng
    for rep in range(10):
        trans = ["affine", "bilinear"][rep % 2]
        c, s = W.random_quad(r, ["rect", "parallelogram", "rotated", "square"][int(r.integers(0, 4))] if trans == "affine" else None)
        c, st, cw = W.roll(r, c)
        T = (QuadAffin if trans == "affine" else QuadBilinear)(c)
        T.set_cell()
        m = O.Map(c, trans)
        xi, eta = r.uniform(-1, 1, 12), r.uniform(-1, 1, 12)
        xi[:4], eta[:4] = [-1, 1, 1, -1], [-1, -1, 1, 1]
        h, o = np.abs(c - c.mean(0)).max(), np.abs(c).max()
        got = np.array([np.asarray(T.get_original_from_ref(a, b)).reshape(2) for a, b in zip(xi, eta)])
        ctx.close((got - c.mean(0)) / h, (m.points(xi, eta) - c.mean(0)) / h, 1e-12 + 1e-14 * o / h, f"{trans} map of a reference point", scale=1.0)
        ctx.close((got[:4] - c.mean(0)) / h, (c - c.mean(0)) / h, 1e-12 + 1e-14 * o / h, f"{trans} map of the corners", scale=1.0)
        J = np.broadcast_to(np.asarray(T.get_jacobian(xi, eta), float), (12,))
        det = np.abs(m.det(xi, eta))
        ctx.close(J, det, 1e-10 + 1e-13 * o / h * h * h / det.max(), f"{trans} Jacobian", scale=det.max())
        ctx.note("points_observed", 12)
        ctx.distinct(trans, s, st, cw)
    ctx.desc(map=trans, cell=c)


def k_history(ctx):
    """Spaces alive at once, read in random order; caller overwrites what it was given."""
    r = ctx.rng
    live = []
    for step in range(5):
        cells = np.array([W.roll(r, W.random_quad(r)[0])[0] for _ in range(int(r.integers(1, 4)))])
        q, qt = int(r.integers(3, 8)), TYPES[int(r.integers(0, 2))]
        live.append((api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt), cells, q, qt))
        for fs, cs, q0, t0 in live:
            k = int(r.integers(0, len(cs)))
            observe(ctx, fs, cs, k, t0, q0, "bilinear", f"step {step}: ")
            fs.get_quadrature_weights(k)[...] = 5.0
            fs.get_quadrature_actual_coordinates(k)[...] = 5.0
            observe(ctx, fs, cs, k, t0, q0, "bilinear", f"step {step}, after the caller overwrote the result: ")
    ctx.desc(spaces=len(live))
    ctx.note("histories")


def k_alike(ctx):
    """Cells that agree in some respect, in one space and in several; long tapered cells."""
    r = ctx.rng
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    if ctx.i % 4 == 3:
        trans = "bilinear"
        cells = np.array([W.roll(r, W.spike(r))[0] for _ in range(10)])
    else:
        cells = W.lookalike(r, 10, trans == "affine")
    q, qt = int(r.integers(3, 10)), TYPES[int(r.integers(0, 2))]
    ctx.desc(map=trans, quad_order=q, quad_type=qt, first=cells[0])
    fs = api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt, trans=trans)
    for k in r.permutation(10):
        observe(ctx, fs, cells, int(k), qt, q, trans)
    ctx.note("alike_observed", 10)
    ctx.distinct(trans, qt, q, float(cells[0, 0, 0]))


def k_scales(ctx):
    """Cells of extreme size and proportion: scaling a cell along the axes scales its points and weights, exactly."""
    r = ctx.rng
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    q, qt = int(r.integers(3, 10)), TYPES[int(r.integers(0, 2))]
    base, grown, S = [], [], []
    for _ in range(6):
        c = W.random_quad(r, ["rect", "square", "parallelogram", "rotated"][int(r.integers(0, 4))] if trans == "affine" else ["general", "kite", "trapezoid", "rotated", "square"][int(r.integers(0, 5))])[0]
        c = W.roll(r, c)[0]
        s = np.array(W.stretch(r))
        base.append(c), grown.append(c * s), S.append(s)
    ctx.desc(map=trans, quad_order=q, quad_type=qt, first=grown[0], scales=[s.tolist() for s in S])
    fb = api.fespace(np.array(base), fe_order=2, quad_order=q, quad_type=qt, trans=trans)
    fg = api.fespace(np.array(grown), fe_order=2, quad_order=q, quad_type=qt, trans=trans)
    for k in range(6):
        observe(ctx, fb, base, k, qt, q, trans)
        what = f"cell {k} ({trans}, {qt} {q}) scaled by {S[k].tolist()}: "
        w, P = np.ravel(fg.get_quadrature_weights(k)), np.asarray(fg.get_quadrature_actual_coordinates(k))
        w0, P0 = np.ravel(fb.get_quadrature_weights(k)), np.asarray(fb.get_quadrature_actual_coordinates(k))
        ctx.close(w / S[k].prod(), w0, 1e-11, what + "weights", scale=w0.max())
        ctx.close(P / S[k], P0, 1e-12, what + "points", scale=np.abs(P0).max())
        ctx.note("scaled_observed")
    ctx.distinct(trans, qt, q, [s.tolist() for s in S])


def k_remote(ctx):
    """Small cells far from the origin."""
    r = ctx.rng
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    cells = W.remote(r, 8, trans == "affine")
    q, qt = int(r.integers(3, 10)), TYPES[int(r.integers(0, 2))]
    ctx.desc(map=trans, quad_order=q, quad_type=qt, first=cells[0])
    fs = api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt, trans=trans)
    for k in range(8):
        observe(ctx, fs, cells, k, qt, q, trans)
    ctx.note("remote_observed", 8)
    ctx.distinct(trans, qt, q, float(cells[0, 0, 0]))


KINDS = {"remote": k_remote, "scales": k_scales, "alike": k_alike, "shapes": k_shapes, "mesh": k_mesh, "maps": k_maps, "history": k_history}
