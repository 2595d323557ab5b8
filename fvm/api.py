"""Thin helpers over the public interface of the code under test."""
import numpy as np
import tensorflow as tf

from fastvpinns.data.datahandler2d import DataHandler2D
from fastvpinns.FE.fespace2d import Fespace2D
from fastvpinns.Geometry.geometry_2d import Geometry_2D
from fastvpinns.model.model import DenseModel
from fastvpinns.model.model_hard import DenseModel_Hard
from fastvpinns.model.model_inverse import DenseModel_Inverse
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
from fastvpinns.physics import cd2d as _cd
from fastvpinns.physics import cd2d_inverse as _cdi
from fastvpinns.physics import cd2d_inverse_domain as _cdd
from fastvpinns.physics import helmholtz2d as _hh
from fastvpinns.physics import poisson2d as _po
from fastvpinns.physics import poisson2d_inverse as _poi

from . import oracle as O
from . import workloads as W

LOSS = {
    "poisson": _po.pde_loss_poisson,
    "cd2d": _cd.pde_loss_cd2d,
    "helmholtz": _hh.pde_loss_helmholtz,
    "poisson_inverse": _poi.pde_loss_poisson_inverse,
    "cd2d_inverse": _cdi.pde_loss_cd2d,
    "cd2d_inverse_domain": _cdd.pde_loss_cd2d_inverse_domain,
}
PARAMS = {
    "poisson": ["eps"],
    "cd2d": ["eps", "b_x", "b_y", "c"],
    "helmholtz": ["eps", "k"],
    "poisson_inverse": ["eps"],
    "cd2d_inverse": ["eps", "b_x", "b_y", "c"],
    "cd2d_inverse_domain": ["b_x", "b_y", "c"],
}
FORWARD = ["poisson", "cd2d", "helmholtz"]


def zero(x, y):
    return 0.0 * x


def fake_mesh(cells):
    import meshio

    c = np.asarray(cells)
    return meshio.Mesh(points=c.reshape(-1, 2).copy(), cells=[("quad", np.arange(4 * len(c)).reshape(-1, 4))])


def fespace(cells, bd=None, fe_order=3, fe_type="legendre", quad_order=5, quad_type="gauss-jacobi", trans="bilinear", f=zero, bf=None, out=".", mesh=None, plot=False, cond=None):
    cells = np.asarray(cells, dtype=np.float64)
    if bd is None:
        bd = {1000: np.array([[0.0, 0.0], [1.0, 0.0]])}
    if bf is None:
        bf = {k: zero for k in bd}
    if cond is None:
        cond = {k: "dirichlet" for k in bd}
    return Fespace2D(
        mesh=fake_mesh(cells) if mesh is None else mesh,
        cells=cells,
        boundary_points=bd,
        cell_type="quadrilateral",
        fe_order=fe_order,
        fe_type=fe_type,
        quad_order=quad_order,
        quad_type=quad_type,
        fe_transformation_type=trans,
        bound_function_dict=bf,
        bound_condition_dict=cond,
        forcing_function=f,
        output_path=out,
        generate_mesh_plot=plot,
    )


def internal(xl, yl, nx, ny, nb, out=".", optimized=True, tx=7, ty=5):
    g = Geometry_2D("quadrilateral", "internal", tx, ty, out, is_optimized=optimized)
    cells, bd = g.generate_quad_mesh_internal(x_limits=xl, y_limits=yl, n_cells_x=nx, n_cells_y=ny, num_boundary_points=nb)
    return g, cells, bd


def lr_dict(lr=0.01, sched=False, steps=10, rate=0.9, stair=True):
    return {"initial_learning_rate": lr, "use_lr_scheduler": sched, "decay_steps": steps, "decay_rate": rate, "staircase": stair}


class Problem:
    """Geometry, finite element space and data of one random problem, with the reference model of its tensors."""

    def __init__(self, rng, form="poisson", dtype=tf.float64, nmax=3, order=None, quad=None, family=None, qtype=None, trans=None, style=None, nb=None, cells=None, bd=None, f=None, g=None):
        self.rng, self.form, self.dtype = rng, form, dtype
        self.N = order or int(rng.integers(2, 5))
        self.q = quad or int(rng.integers(3, 7))
        self.family = family or O.FAMILIES[int(rng.integers(0, 5))]
        self.qtype = qtype or ["gauss-legendre", "gauss-jacobi"][int(rng.integers(0, 2))]
        self.hostile = False
        if cells is None:
            m = W.quad_mesh(rng, nmax=nmax, style=style or ["unit", "perturbed", "rotated", "sheared", "ring"][int(rng.integers(0, 5))])
            cells = m.cells
            cells = np.array([O.order_ccw(c) for c in cells])
        self.cells = cells
        par = np.abs(cells[:, 0] - cells[:, 1] + cells[:, 2] - cells[:, 3]).max() < 1e-12
        self.trans = trans or (["affine", "bilinear"][int(rng.integers(0, 2))] if par else "bilinear")
        nb = nb or int(rng.integers(1, 12))
        self.bd = bd or {5: rng.uniform(-1, 1, (nb, 2)), 9: rng.uniform(-1, 1, (max(1, nb // 2), 2))}
        self.f, self.fd = (f, None) if f else W.smooth(rng)
        self.g, self.gd = (g, None) if g else W.smooth(rng)
        self.bf = {k: self.g for k in self.bd}
        self.fs = fespace(self.cells, self.bd, self.N, self.family, self.q, self.qtype, self.trans, self.f, self.bf)
        self.dh = DataHandler2D(self.fs, None, dtype=dtype)
        self.din, self.dout = self.dh.get_dirichlet_input()

    def params(self):
        r = self.rng
        p = {"eps": float(r.uniform(0.2, 2)), "b_x": float(r.uniform(-2, 2)), "b_y": float(r.uniform(-2, 2)), "c": float(r.uniform(-1, 2)), "k": float(r.uniform(0.5, 3))}
        return W.hostile(r, p, 0.15) if self.hostile else p

    def describe(self):
        return {
            "form": self.form,
            "cells": len(self.cells),
            "fe_order": self.N,
            "fe_type": self.family,
            "quad_order": self.q,
            "quad_type": self.qtype,
            "map": self.trans,
            "dtype": self.dtype.name,
            "boundary_points": int(sum(len(v) for v in self.bd.values())),
        }

    def reference(self):
        A = [O.Assembled(c, self.family, self.N, self.qtype, self.q, self.trans) for c in self.cells]
        self.A = A
        self.V = np.array([a.Vw for a in A])
        self.GX = np.array([a.Gxw for a in A])
        self.GY = np.array([a.Gyw for a in A])
        self.X = np.concatenate([a.pts for a in A])
        self.F = np.array([a.load(self.f) for a in A]).T
        self.DX = np.concatenate([np.asarray(v)[:, :2] for v in self.bd.values()])
        self.DY = np.concatenate([[float(self.bf[k](p[0], p[1])) for p in v] for k, v in self.bd.items()]).reshape(-1, 1)
        return self

    def common(self, layers, lr=None, act="tanh", loss=None):
        d = self.dh
        return dict(
            layer_dims=layers,
            learning_rate_dict=lr or lr_dict(),
            params_dict={"n_cells": self.fs.n_cells},
            loss_function=loss or LOSS[self.form],
            input_tensors_list=[d.x_pde_list, self.din, self.dout],
            orig_factor_matrices=[d.shape_val_mat_list, d.grad_x_mat_list, d.grad_y_mat_list],
            force_function_list=d.forcing_function_list,
            tensor_dtype=self.dtype,
            use_attention=False,
            activation=act,
            hessian=False,
        )


def randomize(model, rng, scale=0.8):
    """Random weights and biases (the initial biases are zero, which would hide mistakes)."""
    w = [rng.uniform(-scale, scale, a.shape).astype(a.dtype) for a in model.get_weights()]
    model.set_weights(w)
    return model


def net_weights(model):
    return [np.asarray(v, np.float64) for v in model.get_weights()]


def tparams(d, dtype):
    return {k: tf.constant(v, dtype=dtype) for k, v in d.items()}
