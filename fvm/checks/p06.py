"""P06: the test functions are the products of the polynomials of the declared family."""
import numpy as np

from fastvpinns.FE import basis_function_2d as BF
from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
from fvm import api, oracle as O

CLASSES = {
    "legendre": BF.Basis2DQNLegendre,
    "legendre_special": BF.Basis2DQNLegendreSpecial,
    "jacobi_plain": BF.Basis2DQNJacobi,
    "chebyshev_2": BF.Basis2DQNChebyshev2,
}
NAMES = {"value": (0, 0), "gradx": (1, 0), "grady": (0, 1), "gradxx": (2, 0), "gradxy": (1, 1), "gradyy": (0, 2)}


def points(rng, n):
    """Random points, corners, edges, the centre, and points very near them."""
    c = np.array([-1.0, 1.0, 0.0])
    g = np.array([(a, b) for a in c for b in c])
    e = rng.uniform(-1, 1, (max(4, n // 4), 2))
    e[::2, 0] = np.sign(e[::2, 0])
    e[1::2, 1] = np.sign(e[1::2, 1])
    near = np.clip(g + rng.uniform(-1e-9, 1e-9, g.shape), -1, 1)
    p = np.concatenate([g, e, near, rng.uniform(-1, 1, (n, 2))])
    p = p[rng.permutation(len(p))]
    return p[:, 0].copy(), p[:, 1].copy()


def get(fam, N):
    """Through the element set-up, as a finite element space does."""
    return FE2DSetupMain("quadrilateral", N, fam, 3, "gauss-legendre").assign_basis_function()


def observe(ctx, fam, N, xi, eta, got, name, tol=1e-11, what=""):
    kx, ky = NAMES[name]
    want = O.basis2d(fam, N, xi, eta, kx, ky)
    got = np.asarray(got)
    what = f"{what}{fam}, order {N}, {name}: "
    ctx.check(got.shape == want.shape, f"{what}shape {got.shape}, expected {want.shape}")
    # every function on its own scale: the bound of its factors over the interval
    g = np.linspace(-1, 1, 101)
    sx = np.abs(O.basis1d(fam, N, g, kx)).max(axis=1)
    sy = np.abs(O.basis1d(fam, N, g, ky)).max(axis=1)
    s = np.maximum(np.outer(sx, sy).ravel(), 1.0)[:, None]
    ctx.close(got / s, want / s, tol, what + "wrong function value (function index, point)", scale=1.0)
    ctx.note("values_observed", got.size)


def k_orders(ctx, N=None):
    """Every order, every family, values at hostile points."""
    N = N or 2 + ctx.i
    xi, eta = points(ctx.rng, 40)
    keep = xi.copy(), eta.copy()
    ctx.desc(order=N, points=len(xi))
    for fam in O.FAMILIES:
        b = get(fam, N)
        ctx.check(b.num_shape_functions == N * N, f"{fam}: {b.num_shape_functions} functions for order {N}")
        observe(ctx, fam, N, xi, eta, b.value(xi, eta), "value")
        observe(ctx, fam, N, xi, eta, b.value(xi, eta), "value", what="asked again, ")
        if fam in CLASSES:
            observe(ctx, fam, N, xi, eta, CLASSES[fam](N * N).value(xi, eta), "value", what="directly built, ")
        if fam in O.BUBBLES:
            t = ctx.rng.uniform(-1, 1, 25)
            o = np.ones_like(t)
            for a, c in ((t, o), (t, -o), (o, t), (-o, t)):
                v = b.value(a, c)
                ctx.check(np.abs(v).max() < 1e-11, f"{fam}, order {N}: a test function does not vanish on the boundary ({np.abs(v).max():.3e})")
                ctx.note("boundary_values_observed", v.size)
        ctx.distinct(fam, N)
    ctx.same(xi, keep[0], "the points passed in were changed")
    ctx.same(eta, keep[1], "the points passed in were changed")


def k_history(ctx):
    """Functions of several orders and families evaluated in turn at point sets of several sizes."""
    r = ctx.rng
    live = {}
    trail = []
    size = int(r.integers(1, 60))
    for step in range(30):
        fam, N = O.FAMILIES[int(r.integers(0, 5))], int(r.integers(2, 9))
        if (fam, N) not in live or r.integers(0, 3) == 0:
            live[fam, N] = get(fam, N)
        # often as many points as before, so that nothing can be told from their number
        n = size if r.integers(0, 3) else int(r.integers(1, 60))
        size = n
        xi, eta = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
        name = list(NAMES)[int(r.integers(0, 6))] if step % 2 else "value"
        v = getattr(live[fam, N], name)(xi, eta)
        observe(ctx, fam, N, xi, eta, v, name, what=f"step {step}: ")
        c = np.array(v)
        trail.append((v, c))
        for a, b in trail[-8:]:
            ctx.same(a, b, f"values returned earlier were changed at step {step}")
        if step % 3 == 1:
            # points of which one is a hair away from where it was
            x2, y2, h = xi.copy(), eta.copy(), float(r.choice([1e-6, 1e-7, 3e-8, 1e-8, 2e-9]))
            j = int(r.integers(0, n))
            x2[j] -= np.copysign(h, x2[j])
            y2[j] -= np.copysign(h, y2[j])
            b2 = np.asarray(getattr(live[fam, N], name)(x2, y2))
            observe(ctx, fam, N, x2, y2, b2, name, what=f"step {step}, a point moved by {h:.0e}: ")
            ctx.note("hairs_observed")
        if step % 3 == 0:
            # the same object, the same number of points, some of them the same
            x2, y2 = xi.copy(), eta.copy()
            j = int(r.integers(0, 3))
            if j == 0:
                x2, y2 = y2, x2
            elif j == 1:
                x2[int(r.integers(0, n))] = r.uniform(-1, 1)
                y2[int(r.integers(0, n))] = r.uniform(-1, 1)
            else:
                x2, y2 = x2[::-1].copy(), r.uniform(-1, 1, n)
            observe(ctx, fam, N, x2, y2, getattr(live[fam, N], name)(x2, y2), name, what=f"step {step}, other points of the same number: ")
        if step % 4 == 1:
            # the caller's arrays change in place
            xi[...] = r.uniform(-1, 1, n)
            if r.integers(0, 2):
                eta *= -1.0
            observe(ctx, fam, N, xi, eta, getattr(live[fam, N], name)(xi, eta), name, what=f"step {step}, the arrays of points changed in place: ")
            trail.clear()
            continue
        if r.integers(0, 4) == 0:
            v[...] = 7.0
            trail.pop()
            observe(ctx, fam, N, xi, eta, getattr(live[fam, N], name)(xi, eta), name, what=f"step {step}, after the caller overwrote the result: ")
    ctx.desc(spaces=len(live))
    ctx.note("histories")


def k_spaces(ctx):
    """The functions a finite element space stores at its quadrature points."""
    r = ctx.rng
    fam = O.FAMILIES[ctx.i % 5]
    N, q = int(r.integers(2, 12)), int(r.integers(3, 14))
    qt = ["gauss-legendre", "gauss-jacobi"][(ctx.i // 5) % 2]
    h = r.uniform(0.1, 4, 2)
    o = r.uniform(-3, 3, 2)
    cells = np.array([[[0, 0], [h[0], 0], [h[0], h[1]], [0, h[1]]]]) + o
    cells = np.concatenate([cells, cells + [h[0], 0], cells * 0.5])
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=["affine", "bilinear"][(ctx.i // 3) % 2])
    w, xi, eta = O.rule2d(qt, q)
    ctx.desc(fe_order=N, fe_type=fam, quad_order=q, quad_type=qt)
    for c in (2, 0, 1, 0):
        A = fs.get_quadrature_actual_coordinates(c)
        wt = fs.get_quadrature_weights(c).reshape(1, -1)
        lo, hi = cells[c].min(0), cells[c].max(0)
        ref = 2 * (A - lo) / (hi - lo) - 1
        observe(ctx, fam, N, ref[:, 0], ref[:, 1], fs.get_shape_function_val(c) / wt, "value", 1e-9, f"cell {c}: ")
    ctx.distinct(fam, N, q, qt)


def k_high(ctx):
    """Orders above, one here and there."""
    k_orders(ctx, int(ctx.rng.integers(38 + 4 * (ctx.i % 6), 42 + 4 * (ctx.i % 6))))


def grids(r, i):
    """Tensor grids of many points, and as many scattered ones."""
    n = int(r.integers(31, 72))
    t = [np.polynomial.legendre.leggauss(n)[0], np.sort(r.uniform(-1, 1, n)), np.linspace(-1, 1, n), O.rule1d("gauss-jacobi", n)[0]][i % 4]
    if i % 5 == 4:
        return r.uniform(-1, 1, n * n), r.uniform(-1, 1, n * n)
    X, Y = np.meshgrid(t, t, indexing="ij" if i % 2 else "xy")
    return X.ravel(), Y.ravel()


def k_grids(ctx):
    """Thousands of points at once."""
    r = ctx.rng
    xi, eta = grids(r, ctx.i)
    ctx.desc(points=len(xi))
    for fam in O.FAMILIES:
        N = int(r.integers(2, 12))
        b = get(fam, N)
        observe(ctx, fam, N, xi, eta, b.value(xi, eta), "value", what=f"{len(xi)} points: ")
        ctx.note("grids_observed")
        ctx.distinct(fam, N, len(xi))


KINDS = {"grids": k_grids, "high": k_high, "orders": k_orders, "history": k_history, "spaces": k_spaces}
