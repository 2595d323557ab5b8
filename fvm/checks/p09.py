"""P09: gradients of test functions on a cell obey the chain rule of its map."""
import numpy as np

from fastvpinns.FE.quad_affine import QuadAffin
from fastvpinns.FE.quad_bilinear import QuadBilinear
from fvm import api, oracle as O, workloads as W

TYPES = ["gauss-legendre", "gauss-jacobi"]


def observe(ctx, fs, cell, k, fam, N, qt, q, trans, what=""):
    A = O.Assembled(cell, fam, N, qt, q, trans)
    what = f"{what}cell {k} ({trans}, {fam} {N}, {qt} {q}): "
    h, o = np.abs(cell - cell.mean(0)).max(), np.abs(cell).max()
    cond = h * h / np.abs(A.det).min()
    tol = 1e-10 + 1e-13 * (o / h) * cond + 1e-14 * cond
    # every function on its own scale: the bound of its factors over the interval
    g = np.linspace(-1, 1, 101)
    b0, b1 = (np.abs(O.basis1d(fam, N, g, d)).max(axis=1) for d in (0, 1))
    mult = A.mult.max()
    jinv = np.abs(np.linalg.inv(A.map.jac(A.xi, A.eta))).max()
    sv = (np.outer(b0, b0).ravel() * mult)[:, None]
    sg = ((np.outer(b1, b0) + np.outer(b0, b1)).ravel() * mult * jinv)[:, None] + 1e-300
    sg[sg < 1e-3 * sg.max()] = 1e-3 * sg.max()
    for name, got, want in (("x", fs.get_shape_function_grad_x(k), A.Gxw), ("y", fs.get_shape_function_grad_y(k), A.Gyw)):
        got = np.asarray(got)
        ctx.check(got.shape == want.shape, f"{what}shape {got.shape}, expected {want.shape}")
        s = sg
        ctx.close(got / s, want / s, tol, f"{what}weighted {name}-derivative of a test function (function, point)", scale=1.0)
        ctx.note("values_observed", got.size)
    s = sv
    ctx.close(np.asarray(fs.get_shape_function_val(k)) / s, A.Vw / s, tol, f"{what}weighted value of a test function (function, point)", scale=1.0)
    if fam in O.BUBBLES and O.exact_degree(qt, q) >= 2 * O.degree1d(fam, N):
        # a function that vanishes on the boundary has gradients of mean zero (no reference model needed)
        for got in (fs.get_shape_function_grad_x(k), fs.get_shape_function_grad_y(k)):
            ctx.check(np.all(np.abs(got.sum(axis=1)) <= (1e-9 + tol) * np.abs(got).sum(axis=1).max()), f"{what}a gradient of a bubble does not integrate to zero")
            ctx.note("divergence_identities", len(got))
        # integration by parts with linear functions: int x dv/dx = - int v
        P, V = fs.get_quadrature_actual_coordinates(k) - cell.mean(0), fs.get_shape_function_val(k)
        for ax, got in ((0, fs.get_shape_function_grad_x(k)), (1, fs.get_shape_function_grad_y(k))):
            lhs, rhs = got @ P[:, ax], -V.sum(axis=1)
            sc = np.abs(got).sum(axis=1).max() * h
            ctx.check(np.all(np.abs(lhs - rhs) <= (1e-9 + tol) * sc), f"{what}integration by parts fails")


def setting(r, i):
    return O.FAMILIES[i % 5], int(r.integers(2, 8)), TYPES[int(r.integers(0, 2))], int(r.integers(3, 11))


def k_shapes(ctx):
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    cells, styles = [], []
    for _ in range(4):
        c, s = W.random_quad(r, ["rect", "square", "parallelogram", "rotated"][int(r.integers(0, 4))] if trans == "affine" else None)
        c, st, cw = W.roll(r, c)
        cells.append(c)
        styles.append((s, st, cw))
        ctx.distinct(trans, fam, s, st, cw)
    cells = np.array(cells)
    ctx.desc(fe_type=fam, fe_order=N, quad_type=qt, quad_order=q, map=trans, cells=styles, first=cells[0])
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans)
    for k in r.permutation(4):
        observe(ctx, fs, cells[k], int(k), fam, N, qt, q, trans)
    observe(ctx, fs, cells[0], 0, fam, N, qt, q, trans, "asked again, ")


def k_orders(ctx):
    """High orders on a general cell."""
    N = 2 + ctx.i
    r = ctx.rng
    for fam in (O.FAMILIES[ctx.i % 5], O.FAMILIES[(ctx.i + 2) % 5]):
        c = W.roll(r, W.random_quad(r, "general")[0])[0]
        q, qt = min(N + 3, 14), TYPES[ctx.i % 2]
        ctx.desc(fe_type=fam, fe_order=N, quad_order=q, cell=c)
        fs = api.fespace(c[None], fe_order=N, fe_type=fam, quad_order=q, quad_type=qt)
        observe(ctx, fs, c, 0, fam, N, qt, q, "bilinear")
        ctx.distinct(fam, N)


def k_maps(ctx):
    """The derivative transformation applied to arbitrary reference gradients at arbitrary points."""
    r = ctx.rng
    for rep in range(8):
        trans = ["affine", "bilinear"][rep % 2]
        c, s = W.random_quad(r, ["rect", "parallelogram", "rotated", "square"][int(r.integers(0, 4))] if trans == "affine" else None)
        c, st, cw = W.roll(r, c)
        T = (QuadAffin if trans == "affine" else QuadBilinear)(c)
        T.set_cell()
        n, t = int(r.integers(1, 30)), int(r.integers(1, 9))
        xi, eta = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
        gx, gy = r.normal(size=(t, n)), r.normal(size=(t, n))
        keep = gx.copy(), gy.copy()
        m = O.Map(c, trans)
        wx, wy = m.grad(gx, gy, xi, eta)
        ox, oy = T.get_orig_from_ref_derivative(gx, gy, xi, eta)
        sc = max(np.abs(wx).max(), np.abs(wy).max())
        h, o = np.abs(c - c.mean(0)).max(), np.abs(c).max()
        tol = 1e-11 + 1e-13 * (o / h + 1) * h * h / np.abs(m.det(xi, eta)).min()
        ctx.close(ox, wx, tol, f"{trans}: x-derivative", scale=sc)
        ctx.close(oy, wy, tol, f"{trans}: y-derivative", scale=sc)
        ctx.same(gx, keep[0], "the gradients passed in were changed")
        ctx.same(gy, keep[1], "the gradients passed in were changed")
        ctx.note("values_observed", 2 * n * t)
        ctx.distinct(trans, s, st, cw, n)
    ctx.desc(map=trans, cell=c)


def k_second(ctx):
    """Second derivatives of the affine map: those of a quadratic are its coefficients."""
    r = ctx.rng
    for rep in range(6):
        c, s = W.random_quad(r, ["rect", "parallelogram", "rotated", "square"][int(r.integers(0, 4))])
        c, st, cw = W.roll(r, c)
        T = QuadAffin(c)
        T.set_cell()
        J = O.Map(c, "affine").jac(np.zeros(1), np.zeros(1))[0]
        n, t = int(r.integers(1, 20)), int(r.integers(1, 9))
        H = r.normal(size=(t, n, 2, 2))
        H = H + H.transpose(0, 1, 3, 2)
        R = np.einsum("ai,tnab,bj->tnij", J, H, J)
        xx, xy, yy = T.get_orig_from_ref_second_derivative(R[..., 0, 0], R[..., 0, 1], R[..., 1, 1], r.uniform(-1, 1, n), r.uniform(-1, 1, n))
        cond = np.linalg.cond(J) ** 2
        for got, want, name in ((xx, H[..., 0, 0], "xx"), (xy, H[..., 0, 1], "xy"), (yy, H[..., 1, 1], "yy")):
            ctx.close(got, want, 1e-12 * cond + 1e-11, f"second derivative {name} of an affine cell", scale=np.abs(H).max())
        ctx.note("second_derivatives", 3 * n * t)
        ctx.distinct(s, st, cw, n, t)
    ctx.desc(cell=c)


def k_history(ctx):
    r = ctx.rng
    live = []
    for step in range(5):
        fam, N, qt, q = O.FAMILIES[int(r.integers(0, 5))], int(r.integers(2, 6)), TYPES[int(r.integers(0, 2))], int(r.integers(3, 8))
        cells = np.array([W.roll(r, W.random_quad(r)[0])[0] for _ in range(int(r.integers(1, 4)))])
        live.append((api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt), cells, fam, N, qt, q))
        for fs, cs, fam, N, qt, q in live:
            k = int(r.integers(0, len(cs)))
            observe(ctx, fs, cs[k], k, fam, N, qt, q, "bilinear", f"step {step}: ")
            for g in (fs.get_shape_function_grad_x, fs.get_shape_function_grad_y, fs.get_shape_function_val, fs.get_shape_function_grad_x_ref, fs.get_shape_function_grad_y_ref):
                g(k)[...] = 3.0
            observe(ctx, fs, cs[k], k, fam, N, qt, q, "bilinear", f"step {step}, after the caller overwrote the result: ")
    ctx.desc(spaces=len(live))
    ctx.note("histories")


def k_alike(ctx):
    """Cells that agree in some respect; long tapered cells."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i)
    N = min(N, 5)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    if ctx.i % 4 == 3:
        trans = "bilinear"
        cells = np.array([W.roll(r, W.spike(r))[0] for _ in range(8)])
    else:
        cells = W.lookalike(r, 8, trans == "affine")
    ctx.desc(map=trans, fe_type=fam, fe_order=N, quad_order=q, quad_type=qt, first=cells[0])
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans)
    for k in r.permutation(8):
        observe(ctx, fs, cells[k], int(k), fam, N, qt, q, trans)
    ctx.note("alike_observed", 8)
    ctx.distinct(trans, fam, qt, q, float(cells[0, 0, 0]))


def k_scales(ctx):
    """Cells of extreme size and proportion: derivatives along an axis scale with that axis, values with the area."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i)
    N = min(N, 5)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    base, grown, S = [], [], []
    for _ in range(5):
        c = W.random_quad(r, ["rect", "square", "parallelogram", "rotated"][int(r.integers(0, 4))] if trans == "affine" else ["general", "kite", "trapezoid", "rotated", "square"][int(r.integers(0, 5))])[0]
        c = W.roll(r, c)[0]
        s = np.array(W.stretch(r))
        base.append(c), grown.append(c * s), S.append(s)
    ctx.desc(map=trans, fe_type=fam, fe_order=N, quad_order=q, quad_type=qt, first=grown[0], scales=[s.tolist() for s in S])
    fb = api.fespace(np.array(base), fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans)
    fg = api.fespace(np.array(grown), fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans)
    for k in range(5):
        observe(ctx, fb, base[k], k, fam, N, qt, q, trans)
        what = f"cell {k} ({trans}, {fam} {N}, {qt} {q}) scaled by {S[k].tolist()}: "
        for name, s, f in (("value", S[k].prod(), "get_shape_function_val"), ("x-derivative", S[k][1], "get_shape_function_grad_x"), ("y-derivative", S[k][0], "get_shape_function_grad_y")):
            a, b = np.asarray(getattr(fg, f)(k)) / s, np.asarray(getattr(fb, f)(k))
            ctx.close(a, b, 1e-10, what + "weighted " + name, scale=np.abs(b).max())
        for f in ("get_shape_function_val_ref", "get_shape_function_grad_x_ref", "get_shape_function_grad_y_ref"):
            if hasattr(fg, f):
                a, b = np.asarray(getattr(fg, f)(k)), np.asarray(getattr(fb, f)(k))
                ctx.close(a, b, 1e-12, what + f, scale=np.abs(b).max())
        ctx.note("scaled_observed")
    # the maps by themselves, second derivatives included
    for rep in range(6):
        tr = ["affine", "bilinear"][rep % 2]
        c = W.roll(r, W.random_quad(r, ["rect", "parallelogram", "rotated", "square"][int(r.integers(0, 4))] if tr == "affine" else "general")[0])[0]
        s = np.array(W.stretch(r))
        n, t = int(r.integers(1, 10)), int(r.integers(1, 6))
        xi, eta = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
        g = [r.normal(size=(t, n)) for _ in range(3)]
        T = [(QuadAffin if tr == "affine" else QuadBilinear)(v) for v in (c, c * s)]
        for v in T:
            v.set_cell()
        a, b = [v.get_orig_from_ref_derivative(g[0], g[1], xi, eta) for v in T]
        for ax in (0, 1):
            ctx.close(np.asarray(b[ax]) * s[ax], a[ax], 1e-10, f"{tr} map scaled by {s.tolist()}: derivative {ax}", scale=np.abs(a[ax]).max())
        if tr == "affine":
            a, b = [v.get_orig_from_ref_second_derivative(g[0], g[1], g[2], xi, eta) for v in T]
            for j, f in enumerate((s[0] ** 2, s[0] * s[1], s[1] ** 2)):
                ctx.close(np.asarray(b[j]) * f, a[j], 1e-9, f"affine map scaled by {s.tolist()}: second derivative {j}", scale=max(np.abs(np.asarray(v)).max() for v in a))
            ctx.note("second_derivatives", 3 * n * t)
    ctx.distinct(trans, fam, N, qt, q, [s.tolist() for s in S])


def k_remote(ctx):
    """Small cells far from the origin."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i)
    N = min(N, 5)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    cells = W.remote(r, 6, trans == "affine")
    ctx.desc(map=trans, fe_type=fam, fe_order=N, quad_order=q, quad_type=qt, first=cells[0])
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans)
    for k in range(6):
        observe(ctx, fs, cells[k], k, fam, N, qt, q, trans)
    ctx.note("remote_observed", 6)
    ctx.distinct(trans, fam, qt, q, float(cells[0, 0, 0]))


KINDS = {"remote": k_remote, "scales": k_scales, "alike": k_alike, "shapes": k_shapes, "orders": k_orders, "maps": k_maps, "second": k_second, "history": k_history}
