"""P05: quadrature rules integrate polynomials exactly up to their degree."""
import numpy as np
from numpy.polynomial import legendre as L

from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D as Rule
from fvm import api, oracle as O

TYPES = ["gauss-legendre", "gauss-jacobi"]


def observe(ctx, q, qtype, w, xi, eta, what=""):
    w, xi, eta = np.asarray(w), np.asarray(xi), np.asarray(eta)
    what = f"{what}order {q}, {qtype}: "
    for a, name in ((w, "weights"), (xi, "xi"), (eta, "eta")):
        ctx.check(a.shape == (q * q,), f"{what}{name} have shape {a.shape}, expected {(q * q,)}")
        ctx.check(np.all(np.isfinite(a)), f"{what}{name} not finite")
    ctx.check(w.min() > 0, f"{what}a weight is not positive ({w.min()!r})")
    ctx.check(abs(w.sum() - 4) < 1e-11, f"{what}the weights sum to {w.sum()!r} instead of 4")
    m = max(np.abs(xi).max(), np.abs(eta).max())
    ctx.check(m <= 1 + 1e-14, f"{what}a point lies outside the reference square ({m!r})")
    d = O.exact_degree(qtype, q)
    # integrals of P_a(xi) P_b(eta) for all a, b <= d: 4 for a = b = 0, else 0
    A, B = L.legvander(xi, d), L.legvander(eta, d)
    G = A.T @ (w[:, None] * B)
    want = np.zeros((d + 1, d + 1))
    want[0, 0] = 4.0
    ctx.close(G, want, 2e-12, what + "integral of a product of Legendre polynomials", scale=4.0)
    pts = np.unique(np.round(np.stack([xi, eta], 1), 12), axis=0)
    ctx.check(len(pts) == q * q, f"{what}points coincide")
    ends = np.abs(xi).max() > 1 - 1e-12
    if qtype == "gauss-jacobi":
        ctx.check(ends and np.abs(eta).max() > 1 - 1e-12, f"{what}the boundary is not among the points")
    # the set of points is symmetric, and so are the weights
    for s, t in ((-xi, eta), (xi, -eta), (eta, xi)):
        dd = np.abs(xi[None] - s[:, None]) + np.abs(eta[None] - t[:, None])
        k = dd.argmin(axis=1)
        ctx.check(dd.min(axis=1).max() < 1e-12, f"{what}the points are not symmetric")
        ctx.close(w[k], w, 1e-11, what + "weights of symmetric points", scale=w.max())
    ctx.note("moments_observed", (d + 1) ** 2)
    ctx.distinct(q, qtype)


def k_orders(ctx):
    """Every order of the range, both types."""
    q = 3 + ctx.i
    ctx.desc(order=q)
    for t in TYPES if ctx.i % 2 else TYPES[::-1]:
        R = Rule(q, t)
        observe(ctx, q, t, *R.get_quad_values())
        ctx.check(R.get_num_quad_points() == q * q, "the number of points is misreported")
        observe(ctx, q, t, *R.get_quad_values(), what="asked again, ")


def k_spaces(ctx):
    """The rule a finite element space uses on a unit cell: weights, and the points' positions."""
    q = 3 + ctx.i
    cell = np.array([[[-1, -1], [1, -1], [1, 1], [-1, 1]]], float)
    for t in TYPES:
        for trans in ("affine", "bilinear"):
            fs = api.fespace(cell, fe_order=2, quad_order=q, quad_type=t, trans=trans)
            P = fs.get_quadrature_actual_coordinates(0)
            observe(ctx, q, t, fs.get_quadrature_weights(0).reshape(-1), P[:, 0], P[:, 1], f"{trans} space, ")
    ctx.desc(order=q)


def k_history(ctx):
    """Rules of several orders and types alive at once; what they return is not disturbed by others or by callers."""
    r = ctx.rng
    live = []
    for step in range(14):
        q, t = int(r.integers(3, 14)), TYPES[int(r.integers(0, 2))]
        R = Rule(q, t)
        vals = R.get_quad_values()
        observe(ctx, q, t, *vals, what=f"step {step}, ")
        live.append((q, t, R, [v.copy() for v in vals]))
        for q0, t0, R0, c in live:
            for got, want in zip(R0.get_quad_values(), c):
                ctx.same(got, want, f"rule ({q0}, {t0}) changed when ({q}, {t}) was built")
    # a caller that overwrites its arrays does not damage a rule built later
    for q in (int(r.integers(3, 10)), int(r.integers(10, 26)), int(r.integers(26, 41))):
        for t in TYPES:
            w, xi, eta = Rule(q, t).get_quad_values()
            w *= 0.5
            xi += 1.0
            eta[...] = 0.25
            observe(ctx, q, t, *Rule(q, t).get_quad_values(), what="after a caller overwrote its arrays, ")
            ctx.note("overwritten")
    ctx.desc(orders=[l[0] for l in live])
    ctx.note("histories")


def k_high(ctx):
    """Orders well above those anybody uses, one here and there."""
    q = int(ctx.rng.integers(51 + 8 * (ctx.i % 9), 60 + 8 * (ctx.i % 9)))
    ctx.desc(order=q)
    for t in TYPES:
        observe(ctx, q, t, *Rule(q, t).get_quad_values())


KINDS = {"high": k_high, "orders": k_orders, "spaces": k_spaces, "history": k_history}
