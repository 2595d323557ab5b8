"""P04: boundary points of an external mesh lie on the edges that carry their tag."""
import numpy as np

from fvm import api, workloads as W
from fvm.checks.p03 import ORDERS, read, reader


def observe(ctx, bd, m, level, samp, dim, what=""):
    n = 2**level + 1
    want_tags = sorted(set(int(t) for t in m.tags))
    ctx.check(sorted(int(k) for k in bd) == want_tags, f"{what}tags {sorted(bd)}, the file has {want_tags}")
    for tag in want_tags:
        p = np.asarray(next(v for k, v in bd.items() if int(k) == tag))
        ctx.check(p.ndim == 2 and p.shape[1] >= 2 and len(p), f"{what}tag {tag}: points of shape {p.shape}")
        p = p[:, :2]
        edges = [m.P[e] for e, t in zip(m.E, m.tags) if t == tag]
        A, B = np.array([e[0] for e in edges]), np.array([e[1] for e in edges])
        L = np.linalg.norm(B - A, axis=1)
        size = max(np.abs(m.P).max(), L.max())
        tol = 1e-12 * size
        # position of every point on every edge
        d = p[:, None, :] - A[None]
        t = np.einsum("pek,ek->pe", d, B - A) / L**2
        dist = np.linalg.norm(d - t[:, :, None] * (B - A)[None], axis=2)
        out = np.maximum(np.maximum(-t, t - 1), 0) * L
        near = np.maximum(dist, out) <= 10 * tol
        ctx.check(near.any(axis=1).all(), lambda: f"{what}tag {tag}: point {p[~near.any(axis=1)][0].tolist()} is on no edge of that tag")
        ctx.check(len(np.unique(p, axis=0)) == len(p), f"{what}tag {tag}: a point is listed twice")
        if samp == "uniform":
            s = np.linspace(0, 1, n)
            want = (A[:, None, :] * (1 - s)[None, :, None] + B[:, None, :] * s[None, :, None]).reshape(-1, 2)
            dd = np.abs(p[:, None, :] - want[None]).max(axis=2)
            ctx.check((dd.min(axis=0) <= 10 * tol).all(), lambda: f"{what}tag {tag}: the uniform point {want[np.argmax(dd.min(axis=0))].tolist()} is missing")
            ctx.check((dd.min(axis=1) <= 10 * tol).all(), lambda: f"{what}tag {tag}: {p[np.argmax(dd.min(axis=1))].tolist()} is no uniform point of its edge")
        else:
            ctx.check(len(p) == n * len(edges), f"{what}tag {tag}: {len(p)} sampled points on {len(edges)} edges, expected {n} each")
            own = np.where(near, np.maximum(dist, out), np.inf).argmin(axis=1)
            for e in range(len(edges)):
                s = np.sort(t[own == e, e])
                k = np.arange(n)
                eps = 1e-9 + 100 * tol / L[e]
                ctx.check(len(s) == n and np.all(s >= k / n - eps) and np.all(s <= (k + 1) / n + eps), f"{what}tag {tag}: the points of an edge are not one per {n}-th of it: {s.tolist()}")
        ctx.note("points_observed", len(p))
    ctx.note("tags_observed", len(want_tags))


def go(ctx, m, level, samp, dim, order, g=None, name="/b.mesh", what="", extra=0):
    path = W.write_medit(ctx.scratch + name, m, dim, order, extra_points=extra)
    g = g or reader(ctx)
    cells, bd = read(ctx, g, path, level, samp)
    observe(ctx, bd, m, level, samp, dim, what)
    ctx.check(set(g.bd_dict) == set(bd), f"{what}the domain keeps other boundary tags than it returns")
    for k in bd:
        ctx.same(g.bd_dict[k], bd[k], f"{what}the boundary points kept in the domain differ")
    return bd


def k_meshes(ctx):
    r = ctx.rng
    style = W.STYLES[ctx.i % len(W.STYLES)]
    for samp in ("uniform", "lhs"):
        for order in ORDERS:
            m = W.quad_mesh(r, nmax=5, style=style, ntags=[None, 1, 2, 4, 9][(ctx.i // 8) % 5])
            level, dim, extra = int(r.integers(0, 6)), 2 + int(r.integers(0, 2)), int(r.integers(0, 2))
            ctx.desc(style=style, tags=sorted(set(map(int, m.tags))), edges=len(m.E), level=level, sampling=samp, order=order, dim=dim)
            go(ctx, m, level, samp, dim, order, extra=extra)
            ctx.distinct(style, samp, order, dim, level, len(m.E), len(set(m.tags)))


def k_levels(ctx):
    """Every refinement level 0..9 on a small mesh."""
    level = ctx.i % 10
    for samp in ("uniform", "lhs"):
        m = W.quad_mesh(ctx.rng, nmax=2)
        ctx.desc(level=level, sampling=samp, style=m.style)
        go(ctx, m, level, samp, 2 + ctx.i % 2, ORDERS[(ctx.i // 2) % len(ORDERS)])
        ctx.distinct(level, samp)


def k_sparse(ctx):
    """Interior edges tagged too, isolated edges, a tag with one edge, many tags."""
    r = ctx.rng
    m = W.quad_mesh(r, nmax=5, shuffle=True)
    E, tags = m.E.tolist(), m.tags.tolist()
    q = m.Q[int(r.integers(0, len(m.Q)))]
    E.append([int(q[0]), int(q[1])])
    tags.append(int(r.integers(20, 60)))
    if ctx.i % 2:
        tags = [int(500 + k) for k in range(len(E))]
    # drop some edges
    keep = [k for k in range(len(E)) if r.uniform() > 0.3] or [0]
    m.E, m.tags = np.array([E[k] for k in keep]), np.array([tags[k] for k in keep])
    samp, level = ["uniform", "lhs"][(ctx.i // 2) % 2], int(r.integers(0, 4))
    ctx.desc(edges=len(E), tags=len(set(tags)), sampling=samp, level=level)
    go(ctx, m, level, samp, 2 + int(r.integers(0, 2)), ORDERS[(ctx.i + ctx.i // 5) % len(ORDERS)])
    ctx.distinct(len(keep), samp, level, ctx.i)


def k_history(ctx):
    r = ctx.rng
    g = reader(ctx)
    kept = []
    for step in range(5):
        m = W.quad_mesh(r, nmax=4)
        samp, level = ["uniform", "lhs"][int(r.integers(0, 2))], int(r.integers(0, 4))
        bd = go(ctx, m, level, samp, 2 + step % 2, ORDERS[int(r.integers(0, len(ORDERS)))], g, f"/h{step % 2}.mesh", f"step {step}: ")
        kept.append((bd, {k: v.copy() for k, v in bd.items()}))
        for old, copy in kept:
            ctx.check(set(old) == set(copy), "boundary tags returned earlier were changed")
            for k in copy:
                ctx.same(old[k], copy[k], "boundary points returned earlier were changed")
        if samp == "lhs":
            bd2 = go(ctx, m, level, samp, 2, "VEQ", None, "/again.mesh")
            ctx.check(not all(np.array_equal(bd[k][:, :2], bd2[k][:, :2]) for k in bd), "two samplings gave the same points")
    ctx.desc(style=m.style, edges=len(m.E))
    ctx.note("histories")


def k_offset(ctx):
    """Meshes that are small compared with their distance from the origin."""
    r = ctx.rng
    for samp in ("uniform", "lhs"):
        m = W.quad_mesh(r, nmax=5, style="offset", far=5.0)
        level, dim, order = int(r.integers(0, 5)), 2 + int(r.integers(0, 2)), ORDERS[int(r.integers(0, len(ORDERS)))]
        ctx.desc(style="offset", level=level, sampling=samp, order=order, dim=dim, first=m.P[0], size=float(np.ptp(m.P, axis=0).max()))
        go(ctx, m, level, samp, dim, order)
        ctx.note("offset_observed")
        ctx.distinct(samp, order, dim, level, float(m.P[0, 0]))


def k_tiny(ctx):
    """Meshes of a tiny or huge size."""
    r = ctx.rng
    for samp in ("uniform", "lhs"):
        m = W.quad_mesh(r, nmax=5)
        m.P = m.P * 10.0 ** r.choice([r.uniform(-14, -7), r.uniform(7, 12)])
        level, dim, order = int(r.integers(0, 7)), 2 + int(r.integers(0, 2)), ORDERS[int(r.integers(0, len(ORDERS)))]
        ctx.desc(style=m.style, level=level, sampling=samp, order=order, dim=dim, size=float(np.ptp(m.P, axis=0).max()))
        go(ctx, m, level, samp, dim, order)
        ctx.note("tiny_observed")
        ctx.distinct(samp, order, dim, level, float(m.P[0, 0]))


KINDS = {"tiny": k_tiny, "offset": k_offset, "meshes": k_meshes, "levels": k_levels, "sparse": k_sparse, "history": k_history}
