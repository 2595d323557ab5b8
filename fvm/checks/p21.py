"""P21: every reported error measure is its textbook value, in the documented order."""
import math

import numpy as np

from fastvpinns.utils import compute_utils as cu

NAMES = ["l2", "linf", "relative l2", "relative linf", "l1", "relative l1"]


def oracle(e, a):
    e = [float(v) for v in np.asarray(e).ravel()]
    a = [float(v) for v in np.asarray(a).ravel()]
    n = len(e)
    d = [abs(p - q) for p, q in zip(e, a)]
    m = [abs(v) for v in e]
    l2, li, l1 = math.sqrt(math.fsum(v * v for v in d) / n), max(d), math.fsum(d) / n
    n2, ni, n1 = math.sqrt(math.fsum(v * v for v in m) / n), max(m), math.fsum(m) / n
    return [l2, li, l2 / n2, li / ni, l1, l1 / n1]


FUN = [cu.compute_l2_error, cu.compute_linf_error, cu.compute_l2_error_relative, cu.compute_linf_error_relative, cu.compute_l1_error, cu.compute_l1_error_relative]


def observe(ctx, e, a, what=""):
    ke, ka = e.copy(), a.copy()
    want = oracle(e, a)
    f32 = np.float32 in (e.dtype, a.dtype)
    tol = 2e-5 if f32 else 1e-11
    all6 = cu.compute_errors_combined(e, a)
    ctx.check(len(all6) == 6, f"{len(all6)} measures are returned")
    for k in range(6):
        one = float(FUN[k](e, a))
        for got, src in ((one, "function"), (float(all6[k]), "combined")):
            ctx.check(abs(got - want[k]) <= tol * max(abs(want[k]), 1e-300) + (1e-7 * want[1] if f32 else 0), f"{what}{NAMES[k]} ({src}) is {got!r}, expected {want[k]!r}")
        ctx.note("measures_observed", 2)
    ctx.same(e, ke, "the exact solution was changed")
    ctx.same(a, ka, "the approximation was changed")
    ctx.check(all6[4] <= all6[0] * (1 + 1e-5) and all6[0] <= all6[1] * (1 + 1e-5), "l1 <= l2 <= linf does not hold")


def k_random(ctx):
    r = ctx.rng
    for rep in range(12):
        n = int(r.choice([1, 2, 3, 10, 100, 5000]))
        s = 10.0 ** r.integers(-8, 9)
        e = r.normal(size=n) * s + r.choice([0, 1, -5]) * s
        a = e + r.normal(size=n) * s * 10.0 ** r.integers(-6, 2)
        dt = [np.float64, np.float32][rep % 4 == 3]
        e, a = e.astype(dt), a.astype(dt)
        if rep % 4 == 1:  # the same values in other shapes
            e = e.reshape(-1, 1)
        if rep % 4 == 2:
            a = a.reshape(-1, 1)
        if rep % 6 == 4 and n % 10 == 0:
            e, a = e.reshape(10, -1), a.reshape(10, -1)
        if rep % 6 == 5:
            e, a = np.asfortranarray(e.reshape(-1, 1)), a[::-1][::-1]
        observe(ctx, e, a, f"n={n}: ")
        ctx.distinct(n, rep, float(s))
    ctx.desc(arrays=12)


def k_special(ctx):
    """One wrong entry, no error at all, integers, views, sign and scale."""
    r = ctx.rng
    n = int(r.integers(2, 200))
    e = r.normal(size=n)
    a = e.copy()
    observe_zero = cu.compute_errors_combined(e, a)
    ctx.check(all(v == 0 for v in observe_zero), "equal arrays have an error")
    k = int(r.choice([0, n - 1, n // 2]))
    a[k] += float(r.normal())
    observe(ctx, e, a, "one wrong entry: ")
    observe(ctx, e, -a, "sign: ")
    i1, i2 = r.integers(-50, 50, n), r.integers(-50, 50, n)
    i1[0] = 7
    observe(ctx, i1, i2, "integers: ")
    M = r.normal(size=(n, 6))
    observe(ctx, M[:, 1], M[:, 4], "views: ")
    observe(ctx, M[::-1, 2], M[:, 3:4], "reversed view: ")
    c = 10.0 ** r.integers(-6, 7)
    A, B = cu.compute_errors_combined(M[:, 0], M[:, 1]), cu.compute_errors_combined(c * M[:, 0], c * M[:, 1])
    for j in range(6):
        f = 1.0 if j in (2, 3, 5) else c
        ctx.check(abs(B[j] - f * A[j]) <= 1e-10 * abs(B[j]), f"{NAMES[j]} does not scale with the data")
    # errors of the two arguments are not exchangeable in the relative measures
    ctx.desc(n=n, wrong=k)
    ctx.distinct(n, k, float(e[0]))


def k_network(ctx):
    """As the examples use it: grid matrices and columns from a network."""
    r = ctx.rng
    nx, ny = int(r.integers(2, 40)), int(r.integers(2, 40))
    x, y = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny))
    e = np.sin(3 * x) * np.cos(2 * y) + 0.1
    a = (e + 0.01 * r.normal(size=e.shape)).astype(np.float32)
    observe(ctx, e, a.reshape(-1, 1), "grid and column: ")
    observe(ctx, e.reshape(-1, 1), a, "column and grid: ")
    ctx.desc(nx=nx, ny=ny)


def layouts(v, r):
    """The same matrix of values in several layouts of memory."""
    big = np.zeros((2 * v.shape[0], 3 * v.shape[1]), v.dtype)
    big[::2, ::3] = v
    neg = np.ascontiguousarray(v[::-1, ::-1])[::-1, ::-1]
    return [np.ascontiguousarray(v), np.asfortranarray(v), np.ascontiguousarray(v.T).T, big[::2, ::3], neg, np.ascontiguousarray(v[:, ::-1])[:, ::-1]][int(r.integers(0, 6))]


def k_layouts(ctx):
    """Matrices of values, stored by rows, by columns, in steps and backwards; the two arrays differently; columns and rows."""
    r = ctx.rng
    for rep in range(16):
        n, m = int(r.integers(1, 60)), int(r.integers(1, 60))
        e = r.normal(size=(n, m)) + r.choice([0, 3])
        a = e + r.normal(size=(n, m)) * 10.0 ** r.integers(-5, 1)
        E, A = layouts(e, r), layouts(a, r)
        k = rep % 4
        if k == 1:
            A = A.reshape(-1, 1) if rep % 8 == 1 else np.asarray(A).reshape(1, -1)
        if k == 2:
            E = np.asarray(E).reshape(-1)
        if k == 3 and rep % 8 == 3:
            E, A = E.reshape(n, m, 1).transpose(0, 2, 1), A.reshape(n, 1, m)
        observe(ctx, E, A, f"{n} x {m}, strides {E.strides}, {A.strides}: ")
        ctx.note("layouts_observed")
        ctx.distinct(n, m, E.strides, A.strides)
    ctx.desc(arrays=16)


def k_large(ctx):
    """Many values; one outlier anywhere; masses of equal values."""
    r = ctx.rng
    n = int(r.choice([70_001, 250_000, 1_100_000]))
    e = r.normal(size=n)
    a = e.copy()
    s = 10.0 ** r.integers(-6, 6)
    for k in (0, n - 1, int(r.integers(0, n)), n // 2):
        b = a.copy()
        b[k] += s
        d = cu.compute_errors_combined(e, b)
        want = [s / np.sqrt(n), s, s / np.sqrt(n) / np.sqrt(np.mean(e * e)), s / np.abs(e).max(), s / n, s / n / np.mean(np.abs(e))]
        for j in range(6):
            for got in (float(d[j]), float(FUN[j](e, b))):
                ctx.check(abs(got - want[j]) <= 1e-7 * want[j], f"one error of {s} among {n} values at {k}: {NAMES[j]} is {got!r}, expected {want[j]!r}")
            ctx.note("measures_observed", 2)
    ctx.desc(n=n, error=s)
    ctx.distinct(n, s)


def k_undefined(ctx):
    """A value that is undefined or infinite is not passed over; extreme scales."""
    r = ctx.rng
    for rep in range(8):
        n = int(r.choice([1, 2, 7, 300]))
        e, a = r.normal(size=n) + 3, r.normal(size=n)
        for dt in (np.float64, np.float32):
            for bad in (np.nan, np.inf, -np.inf):
                for which in (0, 1):
                    pair = [e.astype(dt), a.astype(dt)]
                    pair[which][int(r.integers(0, n))] = bad
                    if rep % 2:
                        pair[int(r.integers(0, 2))].shape = (n, 1)
                    with np.errstate(all="ignore"):
                        six = cu.compute_errors_combined(*pair)
                        ones = [f(*pair) for f in FUN]
                    for j in range(6):
                        for got in (float(six[j]), float(ones[j])):
                            ctx.check(not np.isfinite(got), f"{NAMES[j]} of arrays with {bad} in the {['exact', 'approximate'][which]} solution is {got!r}")
                            ctx.note("undefined_observed")
        s = 10.0 ** r.uniform(-100, 100)
        observe(ctx, e * s, a * s, f"scale {s}: ")
    ctx.desc(arrays=8)


KINDS = {"undefined": k_undefined, "layouts": k_layouts, "large": k_large, "random": k_random, "special": k_special, "network": k_network}
