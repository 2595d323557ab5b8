"""Case context, verdicts and counters shared by all monitors.

A check is a set of *kinds* of cases; a case is determined by (VERIF_SEED, property, kind, index), so that it
can be replayed. A case drives the real code and compares what it observes with an independent oracle.
Verdicts are three-valued: held on what was observed / violated (with a replay file) / inconclusive.
"""
import hashlib
import json
import os
import random
import traceback
import zlib

import numpy as np


class Violation(Exception):
    """The property is broken by the observed execution."""


class Inconclusive(Exception):
    """Nothing can be said (a resource ran out, the harness could not reach what it watches)."""


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 64 else f"array{o.shape}"
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Ctx:
    """What one case sees: its random generator, its scratch directory and the observation log."""

    def __init__(self, pid, tier, seed, kind, index, total, scratch):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.kind, self.i, self.total = kind, index, total
        self.scratch = scratch
        key = [seed, zlib.crc32(pid.encode()), zlib.crc32(kind.encode()), index]
        self.rng = np.random.default_rng(key)
        s32 = int(self.rng.integers(0, 2**31 - 1))
        random.seed(s32)
        np.random.seed(s32)
        try:
            import tensorflow as tf

            tf.random.set_seed(s32)
        except Exception:  # pragma: no cover
            pass
        self.case = {}
        self.counters = {}
        self.keys = set()
        self.samples = []

    # ---- description and coverage of the case
    def desc(self, **kw):
        self.case.update(jsonable(kw))
        return self

    def note(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def distinct(self, *key):
        self.keys.add(digest([self.kind, jsonable(key)]))

    # ---- oracles
    def check(self, cond, msg):
        self.note("comparisons")
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, tol, msg, scale=None):
        """|got-want| <= tol * max(1-ish scale) elementwise; shapes must agree."""
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        self.note("comparisons", max(1, got.size))
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        if not np.all(np.isfinite(got)) and np.all(np.isfinite(want)):
            raise Violation(f"{msg}: not finite")
        if scale is None:
            scale = np.max(np.abs(want))
            scale = scale if scale > 0 else 1.0
        err = np.abs(got - want) / scale
        k = np.unravel_index(int(np.argmax(err)), err.shape) if err.shape else ()
        if not (err[k] <= tol):
            raise Violation(
                f"{msg}: at {tuple(int(j) for j in k)} got {got[k]!r}, expected {want[k]!r} (error {float(err[k]):.3e} > {tol:.1e})"
            )

    def same(self, got, want, msg):
        got, want = np.asarray(got), np.asarray(want)
        self.note("comparisons", max(1, got.size))
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}")
        if not np.array_equal(got, want, equal_nan=got.dtype.kind == want.dtype.kind == "f"):
            raise Violation(f"{msg}: differs (max {np.max(np.abs(got.astype(float) - want.astype(float)))!r})")

    def raises(self, fn, msg, exc=Exception):
        """fn must be rejected with an error."""
        self.note("rejections_expected")
        try:
            fn()
        except exc:
            return
        raise Violation(msg)

    def pick(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]


def run_case(mod, pid, tier, seed, kind, index, total, scratch):
    """Runs one case; returns a result dict with a three-valued status."""
    ctx = Ctx(pid, tier, seed, kind, index, total, scratch)
    old = os.getcwd()
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    status, msg, tb = "held", None, None
    try:
        mod.KINDS[kind](ctx)
        if not ctx.keys:
            ctx.distinct(ctx.i, ctx.case)
    except Violation as e:
        status, msg, tb = "violated", str(e), traceback.format_exc()
    except (Inconclusive, MemoryError, KeyboardInterrupt) as e:
        status, msg, tb = "inconclusive", f"{type(e).__name__}: {e}", traceback.format_exc()
    except OSError as e:
        import errno

        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM):
            status, msg, tb = "inconclusive", f"{type(e).__name__}: {e}", traceback.format_exc()
        else:
            status, msg, tb = "violated", f"valid use failed with {type(e).__name__}: {e}", traceback.format_exc()
    except BaseException as e:  # the code under test refused a valid use
        status = "violated"
        msg = f"valid use failed with {type(e).__name__}: {str(e)[:400]}"
        tb = traceback.format_exc()
    finally:
        os.chdir(old)
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass
    return {
        "kind": kind,
        "index": index,
        "status": status,
        "msg": msg,
        "traceback": tb,
        "case": ctx.case,
        "counters": ctx.counters,
        "keys": sorted(ctx.keys),
    }
