"""P10: the load vector integrates the forcing function against every test function."""
import numpy as np

from fvm import api, oracle as O, workloads as W

TYPES = ["gauss-legendre", "gauss-jacobi"]


class Watched:
    """A forcing function that records where it was evaluated."""

    def __init__(self, f):
        self.f, self.log = f, []

    def __call__(self, x, y):
        self.log.append((np.array(x, float).reshape(-1), np.array(y, float).reshape(-1)))
        return self.f(x, y)

    def points(self):
        X = np.concatenate([np.broadcast_to(a, np.broadcast(a, b).shape) for a, b in self.log])
        Y = np.concatenate([np.broadcast_to(b, np.broadcast(a, b).shape) for a, b in self.log])
        return np.stack([X, Y], 1)


def forcing(r):
    """(function, description): smooth, polynomial, discontinuous, constant, zero, large, tiny."""
    k = int(r.integers(0, 10))
    f, d = W.smooth(r)
    a = float(r.uniform(-1, 1))
    return [
        (f, d),
        (W.poly2(r, int(r.integers(0, 6))), "polynomial"),
        (lambda x, y: np.where(np.asarray(x) + 0.3 * np.asarray(y) > a, 2.0, -1.0) * 1.0, "jump"),
        (lambda x, y: a + 2.0, "constant"),
        (lambda x, y: 0.0 * x, "zero"),
        (lambda x, y: 1e6 * f(x, y), "large"),
        (lambda x, y: 1e-6 * f(x, y), "tiny"),
        (lambda x, y: np.abs(x - a) + np.maximum(y, 0.1), "kinks"),
        W.mixed(r),
        W.mixed(r),
    ][k]


def reducing(r):
    """Forcing functions that take one point at a time: they reduce, compare or use the math module."""
    import math

    a = float(r.uniform(-1, 1))
    k = int(r.integers(0, 7))
    return [
        lambda x, y: np.linalg.norm([x, y]),
        lambda x, y: np.max([x, y]) + a,
        lambda x, y: np.dot([x, y], [1.0, a]),
        lambda x, y: np.sum([x, a * y]) ** 2,
        lambda x, y: math.sin(x) * math.cosh(min(y, 3.0)) + a,
        lambda x, y: max(x, y) - min(x, a),
        lambda x, y: (1.0 if x > a else -2.0) + y,
    ][k], f"reducing {k}"


def setting(r, i, lo=2, hi=8):
    return O.FAMILIES[i % 5], int(r.integers(lo, hi)), TYPES[int(r.integers(0, 2))], int(r.integers(3, 9))


def compare(ctx, A, got, f, what):
    """f in floating point at the reference points; the quadrature points may differ by rounding."""
    vals = np.array([float(f(x, y)) for x, y in A.pts])
    want = A.Vw @ vals
    got = np.asarray(got)
    ctx.check(got.shape == (len(want), 1), f"{what}shape {got.shape}, expected {(len(want), 1)}")
    sc = np.abs(A.Vw).sum(axis=1).max() * max(np.abs(vals).max(), 1e-300)
    ctx.close(got[:, 0], want, 1e-10, f"{what}integral of forcing times test function", scale=sc)
    ctx.note("integrals_observed", len(want))


def k_scalar(ctx):
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i)
    m = W.quad_mesh(r, nmax=3, style=["unit", "perturbed", "rotated", "ring", "sheared"][ctx.i % 5])
    cells = np.array([O.order_ccw(c) for c in m.cells])
    if ctx.i % 3 == 0:
        cells = np.array([W.roll(r, c)[0] for c in cells])
    f, d = forcing(r)
    w = Watched(f)
    ctx.desc(fe_type=fam, fe_order=N, quad_type=qt, quad_order=q, cells=len(cells), forcing=d)
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, f=w)
    for k in list(r.permutation(len(cells))) + [0]:
        A = O.Assembled(cells[k], fam, N, qt, q)
        w.log.clear()
        got = fs.get_forcing_function_values(int(k))
        compare(ctx, A, got, f, f"cell {k}: ")
        P = w.points()
        dd = np.abs(P[:, None, :] - A.pts[None]).max(axis=2)
        h = np.abs(A.pts).max()
        ctx.check(dd.min(axis=1).max() < 1e-11 * h and dd.min(axis=0).max() < 1e-11 * h, f"cell {k}: the forcing was evaluated at other points than the quadrature points")
        ctx.note("evaluations_observed", len(P))
        if r.integers(0, 2):
            got[...] = 9.0
            compare(ctx, A, fs.get_forcing_function_values(int(k)), f, f"cell {k}, after the caller overwrote the result: ")
    ctx.distinct(fam, N, qt, q, len(cells), m.style, d)


def k_vector(ctx):
    """Vector-valued forcing: every component, in any order, mixed with scalar use elsewhere."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i, 2, 6)
    nc = int(r.integers(1, 5))
    fs_list = [forcing(r) for _ in range(nc)]
    kind = ctx.i % 3

    def f(x, y):
        v = [g(x, y) for g, _ in fs_list]
        if kind == 2:
            return np.array([np.broadcast_to(c, np.shape(x)) for c in v])
        return tuple(v) if kind else v

    m = W.quad_mesh(r, nmax=2, style=["unit", "perturbed", "rotated"][ctx.i % 3])
    cells = np.array([O.order_ccw(c) for c in m.cells])
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, f=f)
    sc = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, f=fs_list[0][0])
    ctx.desc(fe_type=fam, fe_order=N, quad_type=qt, quad_order=q, components=[d for _, d in fs_list])
    for step in range(10):
        k, c = int(r.integers(0, len(cells))), int(r.integers(0, nc))
        A = O.Assembled(cells[k], fam, N, qt, q)
        compare(ctx, A, fs.get_forcing_function_values_vector(k, c), fs_list[c][0], f"step {step}, cell {k}, component {c}: ")
        compare(ctx, A, sc.get_forcing_function_values(k), fs_list[0][0], f"step {step}, cell {k}, scalar: ")
        ctx.note("vector_integrals")
    # a scalar space through the vector interface of a one-component forcing
    one = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, f=lambda x, y: [fs_list[0][0](x, y)])
    for k in range(len(cells)):
        ctx.close(one.get_forcing_function_values_vector(k, 0), sc.get_forcing_function_values(k), 1e-10, "scalar and one-component vector forcing disagree", scale=np.abs(sc.get_forcing_function_values(k)).max() + 1e-12 * (1 + abs(float(np.max(fs_list[0][0](0.1, 0.2))))) + 1e-300)
    ctx.distinct(fam, N, qt, q, nc, kind)


def k_exact(ctx):
    """Where the rule is exact, the load is the exact integral (checked with a much finer rule)."""
    r = ctx.rng
    fam, N = O.FAMILIES[ctx.i % 5], int(r.integers(2, 7))
    d = int(r.integers(0, 5))
    qt = TYPES[ctx.i % 2]
    need = O.degree1d(fam, N) + d + 1
    q = (need + 1) // 2 + (2 if qt == "gauss-jacobi" else 1)
    q = max(q, 3)
    c, style = W.random_quad(r)
    c, st, cw = W.roll(r, c)
    h, mid = np.abs(c - c.mean(0)).max(), c.mean(0)
    p = W.poly2(r, d, mid[0], mid[1], h)
    fs = api.fespace(c[None], fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, f=p)
    A = O.Assembled(c, fam, N, "gauss-legendre", q + 8)
    got = fs.get_forcing_function_values(0)[:, 0]
    want = A.load(p)
    o = np.abs(c).max() / h
    ctx.close(got, want, 1e-10 + 1e-13 * o * o, "exact integral of a polynomial forcing", scale=np.abs(A.Vw).sum(axis=1).max())
    ctx.note("exact_integrals", len(want))
    ctx.desc(fe_type=fam, fe_order=N, degree=d, quad_order=q, quad_type=qt, style=style)
    ctx.distinct(fam, N, d, qt, style, st, cw)


def k_history(ctx):
    """A forcing function whose parameter changes between calls is integrated anew; spaces do not share loads."""
    r = ctx.rng
    cells = np.array([W.random_quad(r)[0] for _ in range(3)])
    box = {"a": 1.0}
    g = lambda x, y: box["a"] * (1.0 + x - 0.5 * y)
    g2, d2 = forcing(r)
    N, q, qt = int(r.integers(2, 5)), int(r.integers(3, 6)), TYPES[ctx.i % 2]
    s1 = api.fespace(cells, fe_order=N, quad_order=q, quad_type=qt, f=g)
    s2 = api.fespace(cells[::-1], fe_order=N, quad_order=q, quad_type=qt, f=g2)
    for step in range(8):
        box["a"] = float(r.uniform(-3, 3))
        k = int(r.integers(0, 3))
        compare(ctx, O.Assembled(cells[k], "legendre", N, qt, q), s1.get_forcing_function_values(k), g, f"step {step}: ")
        compare(ctx, O.Assembled(cells[::-1][k], "legendre", N, qt, q), s2.get_forcing_function_values(k), g2, f"step {step}, other space: ")
    ctx.desc(fe_order=N, quad_order=q, quad_type=qt)
    ctx.note("histories")


def k_alike(ctx):
    """Cells that agree in some respect; scalar and vector integrals of each, in any order, repeatedly."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i, 2, 5)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    cells = W.lookalike(r, 8, trans == "affine")
    (f, df), (g, dg) = forcing(r), forcing(r)
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=f)
    fv = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=lambda x, y: [g(x, y), f(x, y)])
    ctx.desc(map=trans, fe_type=fam, fe_order=N, quad_type=qt, quad_order=q, forcing=[df, dg])
    A = [O.Assembled(c, fam, N, qt, q, trans) for c in cells]
    for step, k in enumerate(list(r.permutation(8)) + list(r.permutation(8))):
        c = int(r.integers(0, 2))
        compare(ctx, A[k], fv.get_forcing_function_values_vector(int(k), c), (g, f)[c], f"step {step}, cell {k}, component {c}: ")
        compare(ctx, A[k], fs.get_forcing_function_values(int(k)), f, f"step {step}, cell {k}, scalar: ")
        ctx.note("vector_integrals")
        ctx.note("alike_observed")
    ctx.distinct(trans, fam, N, qt, q, df, dg)


def k_scales(ctx):
    """Cells of extreme size and proportion: the load of the scaled problem is the load of the base problem times the area factor."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i, 2, 5)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    f, d = W.smooth(r)
    cells = np.array([W.roll(r, W.random_quad(r, ["rect", "square", "parallelogram", "rotated"][int(r.integers(0, 4))] if trans == "affine" else ["general", "kite", "trapezoid", "square"][int(r.integers(0, 4))])[0])[0] for _ in range(4)])
    ctx.desc(map=trans, fe_type=fam, fe_order=N, quad_order=q, quad_type=qt, forcing=d, first=cells[0])
    fb = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=f)
    for rep in range(4):
        s = np.array(W.stretch(r))
        amp = float(2.0 ** int(r.integers(-40, 41)))
        g = lambda x, y: amp * f(x / s[0], y / s[1])
        fg = api.fespace(cells * s, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=g)
        fv = api.fespace(cells * s, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=lambda x, y: (0.0 * x, g(x, y)))
        for k in range(4):
            if rep == 0:
                compare(ctx, O.Assembled(cells[k], fam, N, qt, q, trans), fb.get_forcing_function_values(k), f, f"cell {k}: ")
            want = fb.get_forcing_function_values(k)
            vals = np.abs(f(*fb.get_quadrature_actual_coordinates(k).T)).max()
            sc = np.abs(fb.get_shape_function_val(k)).sum(axis=1).max() * max(vals, 1e-300)
            for how, got in (("scalar", fg.get_forcing_function_values(k)), ("vector", fv.get_forcing_function_values_vector(k, 1))):
                ctx.close(got / s.prod() / amp, want, 1e-10, f"cell {k} scaled by {s.tolist()}, forcing by {amp}: {how} load", scale=sc)
                ctx.note("scaled_observed")
    ctx.distinct(trans, fam, N, qt, q, d)


def k_single(ctx):
    """Forcings that only work point by point."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i, 2, 5)
    m = W.quad_mesh(r, nmax=3, style=["unit", "perturbed", "rotated", "sheared"][ctx.i % 4])
    cells = np.array([O.order_ccw(c) for c in m.cells])
    for rep in range(3):
        f, d = reducing(r)
        fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, f=f)
        for k in range(len(cells)):
            compare(ctx, O.Assembled(cells[k], fam, N, qt, q), fs.get_forcing_function_values(k), f, f"{d}, cell {k}: ")
            ctx.note("single_observed")
    ctx.desc(fe_type=fam, fe_order=N, quad_type=qt, quad_order=q, cells=len(cells), forcing=d)
    ctx.distinct(fam, N, qt, q, len(cells), d)


def k_remote(ctx):
    """Small cells far away: the load is that of the cell as it is, whatever its distance."""
    r = ctx.rng
    fam, N, qt, q = setting(r, ctx.i, 2, 5)
    trans = ["bilinear", "bilinear", "affine"][ctx.i % 3]
    cells = W.remote(r, 5, trans == "affine")
    for k, c in enumerate(cells):
        mid, h = c.mean(axis=0), np.abs(c - c.mean(axis=0)).max()
        f, d = W.smooth(r, h)
        g = lambda x, y: f(x - mid[0], y - mid[1])
        A = O.Assembled(c, fam, N, qt, q, trans)
        vals = g(A.pts[:, 0], A.pts[:, 1])
        o = np.abs(c).max() / h
        cond = h * h / np.abs(A.det).min()
        sc = np.abs(A.Vw).sum(axis=1).max() * max(np.abs(vals).max(), 1.0)
        fs = api.fespace(c[None], fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=g)
        fv = api.fespace(c[None], fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=trans, f=lambda x, y: (g(x, y), 0.0 * x))
        for how, got in (("scalar", fs.get_forcing_function_values(0)), ("vector", fv.get_forcing_function_values_vector(0, 0))):
            ctx.close(np.ravel(got), A.Vw @ vals, 1e-10 + 1e-14 * o * (cond + 10), f"cell {k} of size {h:.1e}, {o:.1e} sizes away ({trans}): {how} load", scale=sc)
        ctx.note("remote_observed")
    ctx.desc(map=trans, fe_type=fam, fe_order=N, quad_order=q, quad_type=qt, first=cells[0])
    ctx.distinct(trans, fam, N, qt, q, float(cells[0, 0, 0]))


def k_many(ctx):
    """Many cells."""
    r = ctx.rng
    m = W.structured(r, int(r.integers(18, 30)), int(r.integers(18, 30)), "perturbed")
    cells = m[0][np.array(m[1])]
    cells = cells[r.permutation(len(cells))]
    f, d = forcing(r)
    q, qt = int(r.integers(3, 5)), TYPES[ctx.i % 2]
    fs = api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt, f=f)
    fv = api.fespace(cells, fe_order=2, quad_order=q, quad_type=qt, f=lambda x, y: (0.0 * x, f(x, y)))
    for k in range(len(cells)):
        A = O.Assembled(cells[k], "legendre", 2, qt, q)
        compare(ctx, A, fs.get_forcing_function_values(k), f, f"cell {k} of {len(cells)}: ")
        if k % 7 == 0:
            compare(ctx, A, fv.get_forcing_function_values_vector(k, 1), f, f"cell {k} of {len(cells)}, component: ")
    ctx.desc(cells=len(cells), forcing=d)
    ctx.note("many_observed", len(cells))
    ctx.distinct(len(cells), q, qt, d)


KINDS = {"many": k_many, "single": k_single, "remote": k_remote, "scales": k_scales, "alike": k_alike, "scalar": k_scalar, "vector": k_vector, "exact": k_exact, "history": k_history}
