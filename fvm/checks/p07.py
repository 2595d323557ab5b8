"""P07: derivatives of the test functions are the derivatives of their values."""
import numpy as np

from fvm import api, oracle as O
from fvm.checks.p06 import CLASSES, NAMES, get, grids, observe, points

DERIV = ["gradx", "grady", "gradxx", "gradxy", "gradyy"]


def k_orders(ctx, N=None):
    N = N or 2 + ctx.i
    xi, eta = points(ctx.rng, 40)
    keep = xi.copy(), eta.copy()
    ctx.desc(order=N, points=len(xi))
    for fam in O.FAMILIES:
        b = get(fam, N)
        for name in ctx.rng.permutation(DERIV):
            observe(ctx, fam, N, xi, eta, getattr(b, name)(xi, eta), name, 1e-10)
            observe(ctx, fam, N, xi, eta, getattr(b, name)(xi, eta), name, 1e-10, "asked again, ")
            if fam in CLASSES:
                observe(ctx, fam, N, xi, eta, getattr(CLASSES[fam](N * N), name)(xi, eta), name, 1e-10, "directly built, ")
        ctx.distinct(fam, N)
    ctx.same(xi, keep[0], "the points passed in were changed")
    ctx.same(eta, keep[1], "the points passed in were changed")


def k_self(ctx):
    """No reference family needed: the values observed along a line determine their derivatives.

    At Chebyshev points the observed values of a function are interpolated exactly (degree <= 20), and the
    interpolant is differentiated."""
    r = ctx.rng
    fam = O.FAMILIES[ctx.i % 5]
    N = int(r.integers(2, 10))
    b = get(fam, N)
    n = 24
    t = np.cos(np.pi * (np.arange(n) + 0.5) / n)
    # barycentric differentiation matrix
    wb = (-1.0) ** np.arange(n) * np.sin(np.pi * (np.arange(n) + 0.5) / n)
    dt = t[:, None] - t[None, :] + np.eye(n)
    D1 = (wb[None, :] / wb[:, None]) / dt
    D1[np.arange(n), np.arange(n)] = 0.0
    D1[np.arange(n), np.arange(n)] = -D1.sum(axis=1)
    fixed = np.full(n, float(r.uniform(-1, 1)))
    for ax in (0, 1):
        at = (t, fixed) if ax == 0 else (fixed, t)
        first, second, mixed = ("gradx", "gradxx", "gradxy") if ax == 0 else ("grady", "gradyy", "gradxy")
        base, d1, d2 = (np.asarray(getattr(b, k)(*at)) for k in ("value", first, second))
        sc = np.abs(d2).max(axis=1, keepdims=True) + np.abs(base).max(axis=1, keepdims=True) + 1
        ctx.close((base @ D1.T) / sc, d1 / sc, 1e-9, f"{fam}, order {N}: {first} is not the derivative of the values", scale=1.0)
        ctx.close((d1 @ D1.T) / sc, d2 / sc, 1e-8, f"{fam}, order {N}: {second} is not the derivative of {first}", scale=1.0)
        other = np.asarray(getattr(b, "grady" if ax == 0 else "gradx")(*at))
        m = np.asarray(b.gradxy(*at))
        sc = np.abs(m).max(axis=1, keepdims=True) + 1
        ctx.close((other @ D1.T) / sc, m / sc, 1e-8, f"{fam}, order {N}: the mixed derivative is not that of the gradient", scale=1.0)
        ctx.note("values_observed", base.size)
    ctx.desc(fe_type=fam, order=N)
    ctx.distinct(fam, N, ctx.i)


def k_spaces(ctx):
    """Reference derivatives a finite element space hands out, for every cell."""
    r = ctx.rng
    fam = O.FAMILIES[ctx.i % 5]
    N, q = int(r.integers(2, 12)), int(r.integers(3, 14))
    qt = ["gauss-legendre", "gauss-jacobi"][(ctx.i // 5) % 2]
    h, o = r.uniform(0.1, 4, 2), r.uniform(-3, 3, 2)
    cells = np.array([[[0, 0], [h[0], 0], [h[0], h[1]], [0, h[1]]]]) + o
    cells = np.concatenate([cells, cells + [h[0], 0], cells * 0.5])
    fs = api.fespace(cells, fe_order=N, fe_type=fam, quad_order=q, quad_type=qt, trans=["affine", "bilinear"][(ctx.i // 3) % 2])
    ctx.desc(fe_order=N, fe_type=fam, quad_order=q, quad_type=qt)
    for c in (2, 0, 1, 0):
        A = fs.get_quadrature_actual_coordinates(c)
        lo, hi = cells[c].min(0), cells[c].max(0)
        ref = 2 * (A - lo) / (hi - lo) - 1
        for name, g in (("gradx", fs.get_shape_function_grad_x_ref), ("grady", fs.get_shape_function_grad_y_ref)):
            observe(ctx, fam, N, ref[:, 0], ref[:, 1], g(c), name, 1e-8, f"cell {c}: ")
    ctx.distinct(fam, N, q, qt)


def k_history(ctx):
    r = ctx.rng
    live, trail = {}, []
    size = int(r.integers(1, 60))
    for step in range(30):
        fam, N = O.FAMILIES[int(r.integers(0, 5))], int(r.integers(2, 9))
        if (fam, N) not in live or r.integers(0, 3) == 0:
            live[fam, N] = get(fam, N)
        n = size if r.integers(0, 3) else int(r.integers(1, 60))
        size = n
        xi, eta = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
        name = DERIV[int(r.integers(0, 5))] if step % 5 else "value"
        v = getattr(live[fam, N], name)(xi, eta)
        observe(ctx, fam, N, xi, eta, v, name, 1e-10, f"step {step}: ")
        trail.append((v, np.array(v)))
        for a, b in trail[-8:]:
            ctx.same(a, b, f"values returned earlier were changed at step {step}")
        if step % 3 == 1:
            # points of which one is a hair away from where it was
            x2, y2, h = xi.copy(), eta.copy(), float(r.choice([1e-6, 1e-7, 3e-8, 1e-8, 2e-9]))
            j = int(r.integers(0, n))
            x2[j] -= np.copysign(h, x2[j])
            y2[j] -= np.copysign(h, y2[j])
            b2 = np.asarray(getattr(live[fam, N], name)(x2, y2))
            observe(ctx, fam, N, x2, y2, b2, name, 1e-10, what=f"step {step}, a point moved by {h:.0e}: ")
            ctx.note("hairs_observed")
        if step % 3 == 0:
            x2, y2 = [(eta.copy(), xi.copy()), (xi.copy(), r.uniform(-1, 1, n)), (xi[::-1].copy(), eta.copy())][int(r.integers(0, 3))]
            observe(ctx, fam, N, x2, y2, getattr(live[fam, N], name)(x2, y2), name, 1e-10, f"step {step}, other points of the same number: ")
        if step % 4 == 1:
            # the caller's arrays change in place
            xi[...] = r.uniform(-1, 1, n)
            if r.integers(0, 2):
                eta *= -1.0
            observe(ctx, fam, N, xi, eta, getattr(live[fam, N], name)(xi, eta), name, 1e-10, f"step {step}, the arrays of points changed in place: ")
            trail.clear()
            continue
        if r.integers(0, 4) == 0:
            v[...] = 7.0
            trail.pop()
            observe(ctx, fam, N, xi, eta, getattr(live[fam, N], name)(xi, eta), name, 1e-10, f"step {step}, after the caller overwrote the result: ")
    ctx.desc(spaces=len(live))
    ctx.note("histories")


def k_high(ctx):
    """Orders above, one here and there."""
    k_orders(ctx, int(ctx.rng.integers(32 + 4 * (ctx.i % 4), 36 + 4 * (ctx.i % 4))))


def k_grids(ctx):
    """Thousands of points at once."""
    r = ctx.rng
    xi, eta = grids(r, ctx.i)
    ctx.desc(points=len(xi))
    for fam in O.FAMILIES:
        N = int(r.integers(2, 10))
        b = get(fam, N)
        for name in DERIV:
            observe(ctx, fam, N, xi, eta, getattr(b, name)(xi, eta), name, 1e-10, f"{len(xi)} points: ")
        ctx.note("grids_observed")
        ctx.distinct(fam, N, len(xi))


KINDS = {"grids": k_grids, "high": k_high, "orders": k_orders, "self": k_self, "spaces": k_spaces, "history": k_history}
