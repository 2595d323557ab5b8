"""Training runs watched step by step against an independent model of the network, the loss and the optimiser."""
import copy

import numpy as np
import tensorflow as tf

from . import api, oracle as O, workloads as W

FORMS = {
    "forward": ["poisson", "cd2d", "helmholtz"],
    "hard": ["poisson", "cd2d", "helmholtz"],
    "inverse": ["poisson_inverse", "cd2d_inverse"],
    "domain": ["cd2d_inverse_domain"],
}
MODELS = {
    "forward": api.DenseModel,
    "hard": api.DenseModel_Hard,
    "inverse": api.DenseModel_Inverse,
    "domain": api.DenseModel_Inverse_Domain,
}
ACTS = ["tanh", "tanh", "sigmoid", "swish", "softplus"]


class Hard:
    """u = g(x, y) + d(x, y) * N(x, y) with d = 0 on the boundary of a rectangle; also None (no constraint)."""

    def __init__(self, rng, kind, box, dtype):
        # "poly/square": the constraint "poly", and then a function that is not affine in the network's output
        self.kind, _, self.wrap = kind.partition("/")
        self.box, self.dtype = box, dtype
        self.a, self.b, self.c = (float(v) for v in rng.uniform(-1.5, 1.5, 3))
        self.k = float(rng.uniform(1, 4))

    def parts(self, x, y, m):
        """d, g on any of numpy or tensorflow (m)."""
        (x0, x1), (y0, y1) = self.box
        if self.kind == "tanh":
            k = self.k
            d = m.tanh(k * (x - x0)) * m.tanh(k * (x - x1)) * m.tanh(k * (y - y0)) * m.tanh(k * (y - y1))
        else:
            d = (x - x0) * (x1 - x) * (y - y0) * (y1 - y)
        g = self.a * m.sin(self.b * x) * m.cos(y) + self.c if self.kind != "zero" else 0.0 * x
        return d, g

    def function(self):
        if self.kind == "none":
            return None

        def constrain(inputs, out):
            d, g = self.parts(inputs[:, 0:1], inputs[:, 1:2], tf)
            v = g + d * out
            return v if not self.wrap else self.outer(tf, v, inputs[:, 0:1])[0]

        return constrain

    def outer(self, m, v, x):
        """The outer function of a constraint that is not affine: its value and its derivatives in v and in x."""
        one, zero = m.ones_like(v), m.zeros_like(v)
        if self.wrap == "tanh":  # a bounded solution
            t = m.tanh(v / 2)
            return 2 * t, 1 - t * t, zero
        if self.wrap == "square":  # a solution that is not negative
            return v * v + v / 4, 2 * v + 0.25, zero
        if self.wrap == "branch":
            return m.where(v > 0, v, v / 5), m.where(v > 0, one, one / 5), zero
        if self.wrap == "exp":
            e = m.exp(-(v * v))
            return v * e, e * (1 - 2 * v * v), zero
        if self.wrap == "mixed":
            return v + x * v * v, 1 + 2 * x * v, v * v
        return v, one, zero

    def apply(self, m, X, u, ux, uy):
        """The constrained field and its derivatives from those of the network (numpy or tensorflow)."""
        d, dx, dy, g, gx, gy = self.derivs(X)
        u, ux, uy = g + d * u, gx + dx * u + d * ux, gy + dy * u + d * uy
        if self.wrap:
            u, f, fx = self.outer(m, u, X[:, 0:1])
            ux, uy = f * ux + fx, f * uy
        return u, ux, uy

    def boundary(self, X):
        g = self.derivs(X)[3]
        return self.outer(np, g, X[:, 0:1])[0] if self.wrap else g

    def derivs(self, X):
        """d, dx, dy, g, gx, gy as columns, from numpy."""
        x, y = X[:, 0:1], X[:, 1:2]
        if self.kind == "none":
            o, z = np.ones_like(x), np.zeros_like(x)
            return o, z, z, z, z, z
        (x0, x1), (y0, y1) = self.box
        d, g = self.parts(x, y, np)
        if self.kind == "tanh":
            t = lambda z: np.tanh(self.k * z)
            s = lambda z: self.k * (1 - np.tanh(self.k * z) ** 2)
            A, B = t(x - x0) * t(x - x1), t(y - y0) * t(y - y1)
            dA = s(x - x0) * t(x - x1) + t(x - x0) * s(x - x1)
            dB = s(y - y0) * t(y - y1) + t(y - y0) * s(y - y1)
        else:
            A, B = (x - x0) * (x1 - x), (y - y0) * (y1 - y)
            dA, dB = x0 + x1 - 2 * x, y0 + y1 - 2 * y
        dx, dy = dA * B, A * dB
        if self.kind == "zero":
            gx = gy = 0.0 * x
        else:
            gx = self.a * self.b * np.cos(self.b * x) * np.cos(y)
            gy = -self.a * np.sin(self.b * x) * np.sin(y)
        return d, dx, dy, g + 0.0 * x, gx, gy


class Run:
    """One model under observation, with its reference."""

    def __init__(self, ctx, kind, form=None, dtype=tf.float64, lr=None, act=None, layers=None, P=None, nsens=None, loss=None, inv=None, scale=0.7, cons=None, nmax=2, act_arg=None, attention=False, sval=None):
        r = ctx.rng
        self.ctx, self.kind, self.rng = ctx, kind, r
        self.form = form or FORMS[kind][int(r.integers(0, len(FORMS[kind])))]
        self.P = P or api.Problem(r, self.form, dtype, nmax=nmax)
        self.P.form = self.form
        self.dtype = self.P.dtype
        self.P.reference()
        self.act = act or ACTS[int(r.integers(0, len(ACTS)))]
        out = 2 if kind == "domain" else 1
        self.layers = layers or [2] + [int(r.integers(3, 12)) for _ in range(int(r.integers(1, 4)))] + [out]
        self.lr = lr or api.lr_dict(lr=float(10 ** r.uniform(-4, -1.5)))
        kw = self.P.common(self.layers, self.lr, act_arg or self.act, loss)
        kw["use_attention"] = self.attention = attention
        self.sens = self.inv = self.cons = None
        if kind in ("inverse", "domain"):
            n = nsens or int(r.integers(1, 15))
            self.sens = (r.uniform(-1, 1, (n, 2)), r.normal(size=(n, 1)) if sval is None else np.full((n, 1), float(sval)))
            kw["sensor_list"] = [tf.constant(a, dtype=self.dtype) for a in self.sens]
        if kind == "inverse":
            self.inv0 = inv or {"eps": float(r.uniform(0.2, 2))}
            kw["inverse_params_dict"] = {k: tf.constant(v, dtype=self.dtype) for k, v in self.inv0.items()}
        if kind == "hard":
            lo, hi = self.P.cells.reshape(-1, 2).min(0), self.P.cells.reshape(-1, 2).max(0)
            self.cons = Hard(r, cons or ["poly", "tanh", "zero", "none"][int(r.integers(0, 4))], ((lo[0], hi[0]), (lo[1], hi[1])), self.dtype)
            kw["hard_constraint_function"] = self.cons.function()
        self.kw = kw
        self.given = copy.deepcopy({k: kw[k] for k in ("layer_dims", "learning_rate_dict", "params_dict")})
        self.model = MODELS[kind](**kw)
        if scale:
            self.set_random(scale)
        f32 = self.dtype == tf.float32
        self.cast = (lambda a: np.asarray(a, np.float32).astype(np.float64)) if f32 else (lambda a: np.asarray(a, np.float64))
        self.V, self.GX, self.GY, self.F = (self.cast(a) for a in (self.P.V, self.P.GX, self.P.GY, self.P.F))
        self.X, self.DX, self.DY = (self.cast(a) for a in (self.P.X, self.P.DX, self.P.DY))
        if self.sens:
            self.sens = tuple(self.cast(a) for a in self.sens)
        self.tol = 2e-4 if f32 else 1e-9

    def describe(self):
        return {"model": self.kind, **self.P.describe(), "layers": self.layers, "activation": self.act, "learning_rate": self.lr, "constraint": self.cons.kind if self.cons else None, "sensors": len(self.sens[0]) if self.sens else 0}

    # ---- state
    def net(self):
        return [np.asarray(w, np.float64) for w in self.model.get_weights() if np.ndim(w) > 0]

    def set_random(self, scale=0.7):
        w = self.model.get_weights()
        self.model.set_weights([a if np.ndim(a) == 0 else self.rng.uniform(-scale, scale, a.shape).astype(a.dtype) for a in w])

    def invs(self):
        return {k: float(v.numpy()) for k, v in self.model.inverse_params_dict.items()} if self.kind == "inverse" else {}

    # ---- reference
    def predict(self, Wt, X):
        # with attention only the values are meant: the derivatives are those of the network alone
        u, ux, uy = O.mlp(Wt, O.attend(X) if self.attention else X, self.act)
        if self.cons is not None:
            u, ux, uy = self.cons.apply(np, X, u, ux, uy)
        return u, ux, uy

    def size(self, Wt, X):
        """What is added up in the output of the network: the size of the rounding."""
        f, h = O.ACT[self.act][0], np.asarray(O.attend(X) if self.attention else X, float)
        n = len(Wt) // 2
        for i in range(n):
            m = np.abs(h) @ np.abs(Wt[2 * i]) + np.abs(Wt[2 * i + 1])
            h = f(h @ Wt[2 * i] + Wt[2 * i + 1])
        return m[:, 0:1]

    def expected(self, Wt, inv, beta, params):
        """The losses of the network with the given weights, and the size of the terms in the residual."""
        n, nq = self.V.shape[0], self.V.shape[2]
        u, ux, uy = self.predict(Wt, self.X)
        R = lambda a: a.reshape(n, nq)
        coef = R(u[:, 1]) if self.kind == "domain" else None
        p = {**params, **inv}
        c = O.losses(self.form, self.V, self.GX, self.GY, R(u[:, 0]), R(ux[:, 0]), R(uy[:, 0]), self.F, p, coef)
        ab = np.abs
        pa = {k: ab(v) for k, v in p.items()}
        mag = O.losses(
            "cd2d_inverse_domain" if self.kind == "domain" else "cd2d",
            ab(self.V), ab(self.GX), ab(self.GY), ab(R(u[:, 0])), ab(R(ux[:, 0])), ab(R(uy[:, 0])), -ab(self.F),
            {"eps": pa.get("eps", 1.0), "b_x": pa.get("b_x", 0), "b_y": pa.get("b_y", 0), "c": pa.get("c", 0) + pa.get("k", 0) ** 2},
            None if coef is None else ab(coef),
        )
        out = {"loss_pde": c.sum(), "cells": c, "mag": mag.sum()}
        if self.kind == "hard":
            out["loss_dirichlet"] = 0.0
            out["loss"] = out["loss_pde"]
        else:
            b = self.predict(Wt, self.DX)[0][:, 0:1]
            out["bmag"] = np.mean((self.size(Wt, self.DX) + np.abs(self.DY)) ** 2)
            out["loss_dirichlet"] = np.mean((b - self.DY) ** 2)
            out["loss"] = out["loss_pde"] + beta * out["loss_dirichlet"]
            if self.sens:
                s = self.predict(Wt, self.sens[0])[0][:, 0:1]
                out["smag"] = np.mean((self.size(Wt, self.sens[0]) + np.abs(self.sens[1])) ** 2)
                out["sensor_loss"] = np.mean((s - self.sens[1]) ** 2)
                out["loss"] += 10 * out["sensor_loss"]
        return out

    def gradients(self, Wt, inv, beta, params):
        """Gradients of the total loss, by reverse mode through a forward-mode network (independent of the model)."""
        if self.fast:
            # traced once, for histories of many steps
            if self._traced is None:
                self._traced = tf.function(self._gradients)
            c = lambda v: tf.constant(v, tf.float64)
            g, gi = self._traced([c(w) for w in Wt], {k: c(v) for k, v in inv.items()}, c(beta), {k: c(v) for k, v in params.items()})
        else:
            g, gi = self._gradients([tf.constant(w, tf.float64) for w in Wt], {k: tf.constant(v, tf.float64) for k, v in inv.items()}, beta, {k: tf.constant(v, tf.float64) for k, v in params.items()})
        return [v.numpy() for v in g], {k: float(v) for k, v in gi.items()}

    fast, _traced = False, None

    def _gradients(self, ws, iv, beta, params):
        act = {"tanh": tf.tanh, "sigmoid": tf.sigmoid, "swish": lambda z: z * tf.sigmoid(z), "softplus": tf.math.softplus, "linear": lambda z: z}[self.act]
        dact = {
            "tanh": lambda z: 1 - tf.tanh(z) ** 2,
            "sigmoid": lambda z: tf.sigmoid(z) * (1 - tf.sigmoid(z)),
            "swish": lambda z: tf.sigmoid(z) + z * tf.sigmoid(z) * (1 - tf.sigmoid(z)),
            "softplus": tf.sigmoid,
            "linear": tf.ones_like,
        }[self.act]

        def net(X, deriv):
            h = tf.constant(X, tf.float64)
            t = [tf.tile(tf.constant([[1.0, 0.0]], tf.float64), [len(X), 1]), tf.tile(tf.constant([[0.0, 1.0]], tf.float64), [len(X), 1])]
            n = len(ws) // 2
            for i in range(n):
                z = h @ ws[2 * i] + ws[2 * i + 1]
                if deriv:
                    t = [v @ ws[2 * i] for v in t]
                if i < n - 1:
                    if deriv:
                        t = [dact(z) * v for v in t]
                    h = act(z)
                else:
                    h = z
            u, ux, uy = h, t[0], t[1]
            if self.cons is not None:
                u, ux, uy = self.cons.apply(tf, X, u, ux, uy)
            return u, ux, uy

        n, nq = self.V.shape[0], self.V.shape[2]
        with tf.GradientTape() as tape:
            tape.watch(ws), tape.watch(iv)
            u, ux, uy = net(self.X, True)
            R = lambda a: tf.reshape(a, [n, nq])
            uu, vx, vy = R(u[:, 0]), R(ux[:, 0]), R(uy[:, 0])
            ein = lambda M, g: tf.einsum("ctq,cq->tc", tf.constant(M), g)
            p = {**params, **iv}
            if self.form in ("poisson", "poisson_inverse"):
                r = p["eps"] * (ein(self.GX, vx) + ein(self.GY, vy)) - self.F
            elif self.form in ("cd2d", "cd2d_inverse"):
                r = p["eps"] * (ein(self.GX, vx) + ein(self.GY, vy)) + p["b_x"] * ein(self.V, vx) + p["b_y"] * ein(self.V, vy) + p["c"] * ein(self.V, uu) - self.F
            elif self.form == "helmholtz":
                r = -p["eps"] * (ein(self.GX, vx) + ein(self.GY, vy)) + p["k"] ** 2 * ein(self.V, uu) - self.F
            else:
                co = R(u[:, 1])
                r = ein(self.GX, co * vx) + ein(self.GY, co * vy) + p["b_x"] * ein(self.V, vx) + p["b_y"] * ein(self.V, vy) + p["c"] * ein(self.V, uu) - self.F
            total = tf.reduce_sum(tf.square(r)) / self.F.shape[0]
            if self.kind != "hard":
                total += beta * tf.reduce_mean(tf.square(net(self.DX, False)[0][:, 0:1] - self.DY))
                if self.sens:
                    total += 10 * tf.reduce_mean(tf.square(net(self.sens[0], False)[0][:, 0:1] - self.sens[1]))
        g = tape.gradient(total, ws + list(iv.values()), unconnected_gradients="zero")
        return g[: len(ws)], dict(zip(iv, g[len(ws) :]))

    # ---- the real thing
    def tensors(self, params):
        return {k: tf.constant(params[k], dtype=self.dtype) for k in params}

    def params(self):
        p = self.P.params()
        need = [k for k in api.PARAMS[self.form] if not (self.kind == "inverse" and k in self.inv0)]
        # what the model computes with
        return {k: float(self.cast(p[k])) for k in need}

    def step(self, beta, params, as_tensor=True):
        b = tf.constant(beta, dtype=self.dtype) if as_tensor else beta
        out = self.model.train_step(beta=b, bilinear_params_dict=self.tensors(params))
        return {k: ({a: float(c) for a, c in v.items()} if isinstance(v, dict) else np.asarray(v, np.float64)) for k, v in out.items()}

    def compare_losses(self, got, want, what):
        ctx = self.ctx
        sc = {"loss_pde": max(want["mag"], 1e-300)}
        # near a perfect fit the squares of the rounding remain, on the scale of what cancels
        part = 1e-3 if self.dtype == tf.float32 else 1e-6
        sc["loss_dirichlet"] = max(want["loss_dirichlet"] + part * want.get("bmag", 0), 1e-300)
        sc["sensor_loss"] = max(want.get("sensor_loss", 0) + part * want.get("smag", 0), 1e-300)
        sc["loss"] = max(abs(want["loss"]), want["mag"], 1e-300)
        keys = ["loss_pde", "loss_dirichlet", "loss"] + (["sensor_loss"] if self.sens else [])
        for k in keys:
            ctx.check(k in got, f"{what}: the step does not report {k}")
            v = np.asarray(got[k]).reshape(-1)
            ctx.check(v.size == 1, f"{what}: {k} has {v.size} values")
            e = abs(v[0] - want[k]) / sc[k]
            ctx.check(e <= self.tol, lambda: f"{what}: reported {k} = {v[0]!r}, the network before the step has {want[k]!r} (error {e:.2e})")
            ctx.note("losses_observed")


def perfect(ctx, kind, form=None, dtype=tf.float64, lr=None, f=0.0, g=0.0, s=0.0, acts=None):
    """A model whose network is zero: with f = g = s = 0 every loss is exactly zero, and so is every gradient."""
    r = ctx.rng
    form = form or FORMS[kind][int(r.integers(0, len(FORMS[kind])))]
    P = api.Problem(r, form, dtype, nmax=2, f=lambda x, y: f + 0.0 * x, g=lambda x, y: g + 0.0 * x)
    run = Run(ctx, kind, form, P=P, lr=lr, sval=s, cons="zero", act=acts)
    w = run.model.get_weights()
    last = [k for k in range(len(w)) if np.ndim(w[k]) > 0][-2:]
    for k in last:
        w[k] = np.zeros_like(w[k])
    run.model.set_weights(w)
    return run


class Shadow:
    """The optimiser, followed from observed weights: only the moments are carried along, from reference gradients."""

    def __init__(self, run):
        self.run, self.t, self.m, self.v = run, 0, None, None
        self.names = None

    def flat(self, Wt, inv):
        return [*Wt, *[np.array(inv[k]) for k in sorted(inv)]]

    def observe(self, beta, params, what="", as_tensor=True):
        """One real step; the weights after it must be those of Adam from the weights before it."""
        run, ctx = self.run, self.run.ctx
        W0, i0 = run.net(), run.invs()
        gW, gi = run.gradients(W0, i0, beta, params)
        out = run.step(beta, params, as_tensor)
        W1, i1 = run.net(), run.invs()
        p, g, q = self.flat(W0, i0), self.flat(gW, gi), self.flat(W1, i1)
        if self.m is None:
            self.m = [np.zeros_like(a) for a in g]
            self.v = [np.zeros_like(a) for a in g]
        lr = float(O.lr_at(run.lr, self.t))
        self.t += 1
        alpha = lr * np.sqrt(1 - 0.999**self.t) / (1 - 0.9**self.t)
        gmax = max(float(np.max(np.abs(a))) for a in g)
        f32 = run.dtype == tf.float32
        worst = 0.0
        n = live = 0
        for k, (a, b, c) in enumerate(zip(p, g, q)):
            self.m[k] = 0.9 * self.m[k] + 0.1 * b
            self.v[k] = 0.999 * self.v[k] + 0.001 * b * b
            want = a - alpha * self.m[k] / (np.sqrt(self.v[k]) + 1e-7)
            err = np.abs(np.asarray(c) - want) / lr
            if f32:
                # rounding of the gradient turns into the direction where the gradient is small
                noise = 3e-4 * gmax / np.maximum(np.sqrt(self.v[k] / (1 - 0.999**self.t)), 1e-12) + 2e-6 * np.abs(a) / lr
                tol = np.minimum(2.5, 2e-3 + 10 * noise)
            else:
                # (keras keeps 0.999 in single precision: a relative 7e-6 in the correction of the start)
                tol = 1e-5 * np.maximum(1.0, 2 * np.abs(want - a) / lr) + 1e-9 * gmax / (np.sqrt(self.v[k] / (1 - 0.999**self.t)) + 1e-7) + 1e-13 * np.abs(a) / lr
            bad = err > tol
            n += np.size(c)
            live += int(np.sum(np.abs(np.asarray(c) - a) > 0.01 * lr))
            if np.any(bad):
                j = np.unravel_index(int(np.argmax(np.where(bad, err, 0))), np.shape(err)) if np.ndim(err) else ()
                name = f"weight {k}{tuple(int(z) for z in j)}" if k < len(W0) else "inverse parameter " + sorted(i0)[k - len(W0)]
                raise _violation(
                    f"{what}step {self.t} ({run.kind}, {run.form}): {name} moved from {float(a[j])!r} to {float(np.asarray(c)[j])!r}, "
                    f"Adam with learning rate {lr:.4g} moves it to {float(want[j])!r}"
                )
        ctx.note("comparisons", n)
        ctx.note("updates_observed", n)
        ctx.note("moved_weights", live)
        ctx.note("steps_observed")
        return out, (W0, i0), (W1, i1)


def _violation(msg):
    from .core import Violation

    return Violation(msg)
