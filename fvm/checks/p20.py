"""P20: sensor data are genuine samples of the given solution, inside the domain."""
from collections import Counter

import os

import numpy as np
import pandas as pd
import tensorflow as tf

from fvm import api, oracle as O, workloads as W
from fvm.api import DataHandler2D

DT = [tf.float64, tf.float32]


def k_internal(ctx):
    r = ctx.rng
    xl, yl = W.limits(r, ctx.pick([0, 1, 2, 3, 6, 7])), W.limits(r, ctx.pick([0, 1, 2, 3, 4, 6, 7]))
    g, cells, bd = api.internal(list(xl), list(yl), int(r.integers(1, 5)), int(r.integers(1, 5)), 8)
    fs = api.fespace(cells, bd, 2, "legendre", 3, mesh=g.mesh)
    f, fd = W.smooth(r)
    seen = []

    def exact(x, y):
        seen.append((np.array(x, float).copy(), np.array(y, float).copy()))
        return f(x, y)

    for rep in range(3):
        n = int(r.choice([2, 3, 5, 10, 37, int(r.integers(2, 400))]))
        if ctx.i % 8 == 7 and rep == 1:
            n = int(r.integers(1000, 6000))
            ctx.note("many_sensors", n)
        dt = DT[(ctx.i + rep) % 2]
        seen.clear()
        P, V = DataHandler2D(fs, g, dtype=dt).get_sensor_data(exact, n, mesh_type="internal")
        ctx.check(P.dtype == dt and V.dtype == dt, f"sensor data of {P.dtype}, {V.dtype} for {dt}")
        ctx.check(len(P.shape) == 2 and P.shape[1] == 2 and tuple(V.shape) == (P.shape[0], 1), f"sensor data of shapes {tuple(P.shape)}, {tuple(V.shape)}")
        m = int(P.shape[0])
        ctx.check(1 <= m <= n, f"{m} sensor points for {n} requested")
        A = P.numpy().astype(float)
        rt = 0.0 if dt == tf.float64 else 1e-6
        for ax, (lo, hi) in enumerate((xl, yl)):
            s = (A[:, ax] - lo) / (hi - lo)
            e = 1e-9 + rt * max(abs(lo), abs(hi)) / (hi - lo)
            ctx.check(s.min() >= -e and s.max() <= 1 + e, f"a sensor lies outside the domain: axis {ax}, {A[:, ax].min()}..{A[:, ax].max()} not in {lo}..{hi}")
            if rt == 0.0:
                # spread over the whole side, not over a part of it
                ctx.check(m < 30 or (s.min() < 0.5 and s.max() > 0.5 and np.ptp(s) > 0.5), f"{m} sensors cover only {np.ptp(s):.2f} of axis {ax}")
        # the points in full precision, as the solution was asked for them; those returned otherwise
        x64, y64 = (np.concatenate([np.ravel(s[k]) for s in seen]) if seen else np.zeros(0) for k in (0, 1))
        if len(x64) != m:
            x64, y64 = A.T
        want = np.asarray(f(x64, y64), float).reshape(-1, 1)
        ctx.close(A, np.column_stack([x64, y64]), 1e-12 + rt, "sensor points", scale=max(1, np.abs(A).max()))
        ctx.close(V.numpy(), want, 1e-12 + rt, "sensor values are not the solution at the sensor points", scale=max(1.0, np.abs(want).max()))
        ctx.note("sensors_observed", m)
    ctx.desc(x=xl, y=yl, f=fd)
    ctx.distinct(xl, yl)


def k_external(ctx):
    r = ctx.rng
    rows = int(r.choice([1, 2, 5, 20, 300]))
    T = r.normal(size=(rows, int(r.integers(3, 6)))) * 10.0 ** r.integers(-2, 3)
    if rows > 3:
        T[1] = T[0]  # repeated lines are allowed
    f = "%s/d%d.csv" % (ctx.scratch, ctx.i)
    pd.DataFrame(T, columns=["x", "y", "u", "v", "w"][: T.shape[1]]).to_csv(f, index=False)
    T = pd.read_csv(f).values
    cell = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]]], float)
    fs = api.fespace(cell, None, 2, "legendre", 3)
    keys = lambda M, d: [tuple(x) for x in np.asarray(M, np.float32 if d else float).tolist()]
    for rep in range(3):
        dt = DT[(ctx.i + rep) % 2]
        n = int(r.choice([1, 2, rows, 7, 60 * rows if rows <= 20 else 500]))
        P, V = DataHandler2D(fs, None, dtype=dt).get_sensor_data(lambda x, y: 1 / 0, n, mesh_type="external", file_name=f)
        ctx.check(tuple(P.shape) == (n, 2) and tuple(V.shape) == (n, 1), f"sensor data of shapes {tuple(P.shape)}, {tuple(V.shape)} for {n} requested")
        ctx.check(P.dtype == dt and V.dtype == dt, f"sensor data of {P.dtype}, {V.dtype} for {dt}")
        have = Counter(keys(T[:, :3].astype(dt.as_numpy_dtype), dt == tf.float32))
        got = keys(np.column_stack([P.numpy(), V.numpy()]), dt == tf.float32)
        for k in got:
            ctx.check(k in have, f"the sensor {k} is no line of the file")
        if n >= 60 * rows:
            ctx.check(len(set(got)) == len(have), f"of {len(have)} different lines only {len(set(got))} are ever drawn in {n} samples")
            ctx.note("coverage_observed")
        ctx.note("sensors_observed", n)
    ctx.desc(rows=rows, columns=T.shape[1])
    ctx.distinct(rows, float(T[0, 0]))


def k_shipped(ctx):
    """The shipped solution files."""


    base = os.environ.get("FVM_REPO", "/repo")
    f = [base + "/tests/support_files/fem_output_circle2.csv", base + "/examples/inverse_problems_2d/domain_inverse_cd2d/circle/fem_output_circle2.csv"][ctx.i % 2]
    T = pd.read_csv(f).values
    have = set(map(tuple, T[:, :3].tolist()))
    cell = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]]], float)
    fs = api.fespace(cell, None, 2, "legendre", 3)
    P, V = DataHandler2D(fs, None, dtype=tf.float64).get_sensor_data(None, 400, mesh_type="external", file_name=f)
    for k in map(tuple, np.column_stack([P.numpy(), V.numpy()]).tolist()):
        ctx.check(k in have, f"the sensor {k} is no line of the file")
    ctx.check(len(set(map(tuple, P.numpy().tolist()))) > 200, "the sensors are not spread over the file")
    ctx.note("sensors_observed", 400)
    ctx.desc(file=f)


def k_long(ctx):
    """Long files, few sensors: every part of the file is drawn from."""
    r = ctx.rng
    rows = int(r.choice([5_000, 30_000, 120_000]))
    T = np.column_stack([np.arange(rows) * 1.0, r.normal(size=rows), r.normal(size=rows)])
    f = "%s/l%d.csv" % (ctx.scratch, ctx.i)
    np.savetxt(f, T, delimiter=",", header="x,y,u", comments="", fmt="%.17g")
    cell = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]]], float)
    fs = api.fespace(cell, None, 2, "legendre", 3)
    dh = DataHandler2D(fs, None, dtype=tf.float64)
    n = int(r.choice([2, 10, 50]))
    hit = np.zeros(10, int)
    total = 0
    for rep in range(260 // n + 3):
        P, V = dh.get_sensor_data(None, n, mesh_type="external", file_name=f)
        P, V = P.numpy(), V.numpy()
        ctx.check(P.shape == (n, 2) and V.shape == (n, 1), f"sensor data of shapes {P.shape}, {V.shape} for {n} requested")
        k = np.rint(P[:, 0]).astype(int)
        ctx.check(np.all((k >= 0) & (k < rows)) and np.allclose(P, T[k, :2], 1e-13, 1e-14) and np.allclose(V[:, 0], T[k, 2], 1e-13, 1e-14), "a sensor is no line of the file")
        hit += np.bincount(k * 10 // rows, minlength=10)
        total += n
        ctx.note("sensors_observed", n)
    # a tenth that is never drawn in 260 draws has probability 1e-12
    ctx.check(hit.min() > 0, f"of {total} sensors none are from one tenth of the file of {rows} lines: {hit.tolist()}")
    ctx.desc(rows=rows, sensors=n)
    ctx.note("coverage_observed")
    ctx.distinct(rows, n, float(T[0, 1]))


def k_same(ctx):
    """The file is rewritten under the same name; other files of the same size; relative names."""
    r = ctx.rng
    cell = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]]], float)
    fs = api.fespace(cell, None, 2, "legendre", 3)
    dh = DataHandler2D(fs, None, dtype=tf.float64)
    files = [f"{ctx.scratch}/a.csv", f"{ctx.scratch}/b.csv"]
    for step in range(8):
        f = files[int(r.integers(0, 2))]
        T = np.round(r.normal(size=(12, 3)), 4)
        np.savetxt(f, T, delimiter=",", header="x,y,u", comments="", fmt="%9.4f")
        os.utime(f, (1_000_000_000, 1_000_000_000))
        T = pd.read_csv(f).values
        P, V = dh.get_sensor_data(None, 30, mesh_type="external", file_name=f)
        have = set(map(tuple, T.tolist()))
        for k in map(tuple, np.column_stack([P.numpy(), V.numpy()]).tolist()):
            ctx.check(k in have, f"step {step}: the sensor {k} is no line of the file as it is now")
        ctx.note("sensors_observed", 30)
    ctx.desc(steps=8)
    ctx.distinct(float(T[0, 0]))


KINDS = {"long": k_long, "same": k_same, "internal": k_internal, "external": k_external, "shipped": k_shipped}
