"""P02: boundary points of an internal mesh lie on the side of their tag, spread over it."""
import numpy as np

from fvm import api, workloads as W

SIDES = {1000: ("y", 0), 1001: ("x", 1), 1002: ("y", 1), 1003: ("x", 0)}


def observe(ctx, bd, xl, yl, nb, what=""):
    m = nb // 4
    ctx.check(sorted(int(k) for k in bd) == sorted(SIDES), f"{what}tags {sorted(bd)}, expected 1000..1003")
    params = {}
    for tag, (ax, end) in SIDES.items():
        p = np.asarray(bd[tag])
        ctx.check(p.shape == (m, 2), f"{what}tag {tag}: {p.shape} points, expected {(m, 2)}")
        ctx.check(p.dtype == np.float64, f"{what}tag {tag}: points are {p.dtype}")
        fixed, lim_f = (p[:, 0], xl) if ax == "x" else (p[:, 1], yl)
        run, lim_r = (p[:, 1], yl) if ax == "x" else (p[:, 0], xl)
        want = float(lim_f[end])
        tol = 1e-12 * max(abs(float(lim_f[0])), abs(float(lim_f[1])))
        ctx.check(np.all(np.abs(fixed - want) <= tol), f"{what}tag {tag}: a point is off its side ({ax}={fixed[np.argmax(np.abs(fixed - want))]!r}, side at {want!r})")
        lo, hi = float(lim_r[0]), float(lim_r[1])
        t = (run - lo) / (hi - lo)
        e = 1e-9 + 1e-12 * max(abs(lo), abs(hi)) / (hi - lo)
        ctx.check(t.min() >= -e and t.max() <= 1 + e, f"{what}tag {tag}: a point is beyond the corners of its side")
        # one point in each of the m equal parts of the side
        s = np.sort(t)
        k = np.arange(m)
        ctx.check(np.all(s >= k / m - e) and np.all(s <= (k + 1) / m + e), f"{what}tag {tag}: the points are not one per m-th of the side: {s[:6].tolist()}...")
        params[tag] = t
        ctx.note("points_observed", m)
    if m >= 3:
        tags = sorted(params)
        for a in range(4):
            for b in range(a):
                ctx.check(np.max(np.abs(np.sort(params[tags[a]]) - np.sort(params[tags[b]]))) > 1e-12, f"{what}sides {tags[a]} and {tags[b]} were given the same sample")


def k_sizes(ctx):
    for nb in range(4 + ctx.i * 12, 4 + ctx.i * 12 + 12):
        xl, yl = W.limits(ctx.rng), W.limits(ctx.rng)
        nx, ny = int(ctx.rng.integers(1, 7)), int(ctx.rng.integers(1, 7))
        ctx.desc(n=nb, x=xl, y=yl, nx=nx, ny=ny)
        g, c, bd = api.internal(W.as_kind(ctx.rng, xl), W.as_kind(ctx.rng, yl), nx, ny, nb)
        observe(ctx, bd, xl, yl, nb)
        for k in bd:
            ctx.same(g.bd_dict[k], bd[k], "the boundary points kept in the domain differ")
        ctx.distinct(nb, xl, yl)


def k_large(ctx):
    nb = int(ctx.rng.integers(500, 8000)) if ctx.i % 4 else int(ctx.rng.integers(20000, 120000))
    xl, yl = W.limits(ctx.rng), W.limits(ctx.rng)
    ctx.desc(n=nb, x=xl, y=yl)
    g, c, bd = api.internal(list(xl), list(yl), int(ctx.rng.integers(1, 30)), int(ctx.rng.integers(1, 30)), nb)
    observe(ctx, bd, xl, yl, nb)
    ctx.distinct(nb, xl, yl)


def k_history(ctx):
    r = ctx.rng
    g = api.Geometry_2D("quadrilateral", "internal", 5, 5, ctx.scratch, is_optimized=bool(ctx.i % 4))
    last, kept = None, []
    for step in range(5):
        nb = int(r.integers(12, 200))
        xl, yl = W.limits(r, int(r.integers(0, 4))), W.limits(r, int(r.integers(0, 4)))
        nx, ny = int(r.integers(1, 6)), int(r.integers(1, 6))
        c, bd = g.generate_quad_mesh_internal(list(xl), list(yl), nx, ny, nb)
        observe(ctx, bd, xl, yl, nb, f"step {step}: ")
        c2, bd2 = g.generate_quad_mesh_internal(list(xl), list(yl), nx, ny, nb)
        observe(ctx, bd2, xl, yl, nb, f"step {step} again: ")
        ctx.check(not np.array_equal(bd[1000], bd2[1000]), "two samplings gave the same points")
        kept.append((bd, {k: v.copy() for k, v in bd.items()}))
        for old, copy in kept:
            for k in copy:
                ctx.same(old[k], copy[k], "boundary points returned earlier were changed")
    ctx.note("histories")
    ctx.desc(last_n=nb, x=xl, y=yl)


def k_scales(ctx):
    """Rectangles in every unit of length."""
    r = ctx.rng
    for rep in range(4):
        s, t = float(10.0 ** r.uniform(-16, 14)), float(10.0 ** r.uniform(-3, 3))
        xl, yl = ([s * k * v for v in W.limits(r)] for k in (1.0, t))
        nb = int(r.integers(8, 200))
        ctx.desc(n=nb, x=xl, y=yl)
        g, c, bd = api.internal(W.as_kind(r, xl), W.as_kind(r, yl), int(r.integers(1, 7)), int(r.integers(1, 7)), nb)
        observe(ctx, bd, xl, yl, nb)
        ctx.note("scales_observed")
        ctx.distinct(nb, xl, yl)


KINDS = {"scales": k_scales, "sizes": k_sizes, "large": k_large, "history": k_history}
