"""Reference models, written from the mathematics and not from the code under test.

Only numpy is used: test function families from numpy.polynomial, quadrature from leggauss, reference maps,
weak forms, a dense network with its spatial derivatives, and Adam.
"""
import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial import legendre as L

FAMILIES = ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]
BUBBLES = ["legendre", "jacobi", "legendre_special", "chebyshev_2"]


# ------------------------------------------------------------ test functions
def poly1d(family, n):
    """The n-th (1-based) one-dimensional test function as a numpy polynomial object."""
    if family == "jacobi_plain":
        return L.Legendre.basis(n - 1)
    cls = C.Chebyshev if family == "chebyshev_2" else L.Legendre
    return cls.basis(n + 1) - cls.basis(n - 1)


def basis1d(family, N, x, k=0):
    """(N, npts) values of the k-th derivative of the 1-D test functions."""
    x = np.asarray(x, dtype=np.float64)
    out = []
    for n in range(1, N + 1):
        p = poly1d(family, n)
        out.append((p.deriv(k) if k else p)(x))
    return np.array(out).reshape(N, x.size)


def basis2d(family, N, xi, eta, kx=0, ky=0):
    """(N*N, npts): function i*N+j is (i-th in x) * (j-th in y)."""
    a, b = basis1d(family, N, xi, kx), basis1d(family, N, eta, ky)
    return (a[:, None, :] * b[None, :, :]).reshape(N * N, -1)


def degree1d(family, N):
    return N - 1 if family == "jacobi_plain" else N + 1


# ------------------------------------------------------------ quadrature
def lobatto(q):
    """Gauss-Lobatto-Legendre nodes and weights by Newton iteration on P'_{q-1}."""
    n = q - 1
    x = -np.cos(np.pi * np.arange(q) / n)
    Pn = L.Legendre.basis(n)
    d1, d2 = Pn.deriv(1), Pn.deriv(2)
    for _ in range(60):
        xi = x[1:-1]
        step = d1(xi) / d2(xi)
        x[1:-1] = xi - step
        if step.size == 0 or np.max(np.abs(step)) < 1e-15:
            break
    w = 2.0 / (n * q * Pn(x) ** 2)
    return x, w


def rule1d(qtype, q):
    return L.leggauss(q) if qtype == "gauss-legendre" else lobatto(q)


def exact_degree(qtype, q):
    return 2 * q - 1 if qtype == "gauss-legendre" else 2 * q - 3


def rule2d(qtype, q):
    """Points with xi running fastest: (weights, xi, eta)."""
    x, w = rule1d(qtype, q)
    xi, eta = np.meshgrid(x, x)
    return np.outer(w, w).ravel(), xi.ravel(), eta.ravel()


# ------------------------------------------------------------ cells
def order_ccw(cell):
    """Vertices sorted by the angle about their mean, in (-pi, pi]."""
    c = cell.mean(axis=0)
    return cell[np.argsort(np.arctan2(cell[:, 1] - c[1], cell[:, 0] - c[0]))]


def signed_area(cell):
    x, y = cell[:, 0] - cell[0, 0], cell[:, 1] - cell[0, 1]
    return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)


def is_convex(cell, tol=1e-9):
    e = np.roll(cell, -1, axis=0) - cell
    cr = e[:, 0] * np.roll(e[:, 1], -1) - e[:, 1] * np.roll(e[:, 0], -1)
    s = np.max(np.sum(e**2, axis=1))
    return np.all(cr > tol * s) or np.all(cr < -tol * s)


class Map:
    """The map of the reference square onto a cell: bilinear, or affine through vertices 0, 1 and 3."""

    def __init__(self, cell, kind="bilinear"):
        v = np.asarray(cell, dtype=np.float64)
        if kind == "affine":
            v = np.array([v[0], v[1], v[1] + v[3] - v[0], v[3]])
        self.v = v

    def N(self, xi, eta):
        return 0.25 * np.array([(1 - xi) * (1 - eta), (1 + xi) * (1 - eta), (1 + xi) * (1 + eta), (1 - xi) * (1 + eta)])

    def dN(self, xi, eta):
        dx = 0.25 * np.array([-(1 - eta), (1 - eta), (1 + eta), -(1 + eta)])
        dy = 0.25 * np.array([-(1 - xi), -(1 + xi), (1 + xi), (1 - xi)])
        return dx, dy

    def points(self, xi, eta):
        return self.N(xi, eta).T @ self.v

    def jac(self, xi, eta):
        """(npts, 2, 2) with J[:, a, b] = d x_a / d ref_b."""
        # differences to the first vertex keep far-away cells accurate
        d = self.v - self.v[0]
        dx, dy = self.dN(xi, eta)
        return np.stack([dx.T @ d, dy.T @ d], axis=2)

    def det(self, xi, eta):
        J = self.jac(xi, eta)
        return J[:, 0, 0] * J[:, 1, 1] - J[:, 0, 1] * J[:, 1, 0]

    def grad(self, gxi, geta, xi, eta):
        """Physical gradient of functions with reference gradient (gxi, geta), each (n, npts)."""
        J = self.jac(xi, eta)
        det = J[:, 0, 0] * J[:, 1, 1] - J[:, 0, 1] * J[:, 1, 0]
        gx = (J[:, 1, 1] * gxi - J[:, 1, 0] * geta) / det
        gy = (-J[:, 0, 1] * gxi + J[:, 0, 0] * geta) / det
        return gx, gy


class Assembled:
    """Everything a cell contributes, from the reference model."""

    def __init__(self, cell, family, N, qtype, q, kind="bilinear"):
        self.map = Map(cell, kind)
        self.w, self.xi, self.eta = rule2d(qtype, q)
        self.pts = self.map.points(self.xi, self.eta)
        self.det = self.map.det(self.xi, self.eta)
        self.mult = self.w * np.abs(self.det)
        self.V = basis2d(family, N, self.xi, self.eta)
        self.Gxi = basis2d(family, N, self.xi, self.eta, 1, 0)
        self.Geta = basis2d(family, N, self.xi, self.eta, 0, 1)
        gx, gy = self.map.grad(self.Gxi, self.Geta, self.xi, self.eta)
        self.Vw, self.Gxw, self.Gyw = self.V * self.mult, gx * self.mult, gy * self.mult

    def load(self, f):
        return self.Vw @ np.array([float(f(x, y)) for x, y in self.pts])


# ------------------------------------------------------------ polynomials
class Poly2:
    """A polynomial in (x - x0)/s, (y - y0)/s with exact derivatives."""

    def __init__(self, coef, x0=0.0, y0=0.0, s=1.0):
        self.c, self.x0, self.y0, self.s = np.asarray(coef, dtype=np.float64), x0, y0, s

    def __call__(self, x, y):
        from numpy.polynomial.polynomial import polyval2d

        return polyval2d((np.asarray(x) - self.x0) / self.s, (np.asarray(y) - self.y0) / self.s, self.c)

    def d(self, ax):
        from numpy.polynomial.polynomial import polyder

        c = polyder(self.c, axis=ax) / self.s
        if c.size == 0:
            c = np.zeros((1, 1))
        return Poly2(c, self.x0, self.y0, self.s)

    @property
    def lap(self):
        a, b = self.d(0).d(0), self.d(1).d(1)
        return lambda x, y: a(x, y) + b(x, y)


# ------------------------------------------------------------ weak forms
def residual(form, V, GX, GY, u, ux, uy, F, p, coef=None):
    """Weighted residual matrix (ntest, ncells) of one of the supported equations.

    V, GX, GY: (ncells, ntest, nquad); u, ux, uy, coef: (ncells, nquad); F: (ntest, ncells)."""
    V, GX, GY, u, ux, uy, F = (np.asarray(t, dtype=np.float64) for t in (V, GX, GY, u, ux, uy, F))
    ein = lambda M, g: np.einsum("ctq,cq->tc", M, g)
    if form in ("poisson", "poisson_inverse"):
        return p["eps"] * (ein(GX, ux) + ein(GY, uy)) - F
    if form in ("cd2d", "cd2d_inverse"):
        return (
            p["eps"] * (ein(GX, ux) + ein(GY, uy))
            + p["b_x"] * ein(V, ux)
            + p["b_y"] * ein(V, uy)
            + p["c"] * ein(V, u)
            - F
        )
    if form == "helmholtz":
        return -p["eps"] * (ein(GX, ux) + ein(GY, uy)) + p["k"] ** 2 * ein(V, u) - F
    if form == "cd2d_inverse_domain":
        coef = np.asarray(coef, dtype=np.float64)
        return (
            ein(GX, coef * ux) + ein(GY, coef * uy) + p["b_x"] * ein(V, ux) + p["b_y"] * ein(V, uy) + p["c"] * ein(V, u) - F
        )
    raise KeyError(form)


def losses(form, *a, **k):
    """Mean over the test functions of the squared residual, one value per cell."""
    return np.mean(residual(form, *a, **k) ** 2, axis=0)


# ------------------------------------------------------------ a dense network
def _sig(z):
    return 0.5 * (1 + np.tanh(0.5 * z))


ACT = {
    "tanh": (np.tanh, lambda z: 1 - np.tanh(z) ** 2),
    "sigmoid": (_sig, lambda z: _sig(z) * (1 - _sig(z))),
    "swish": (lambda z: z * _sig(z), lambda z: _sig(z) + z * _sig(z) * (1 - _sig(z))),
    "softplus": (lambda z: np.logaddexp(0, z), _sig),
    "linear": (lambda z: z, lambda z: np.ones_like(z)),
    "relu": (lambda z: np.maximum(z, 0), lambda z: (z > 0) * 1.0),
    "elu": (lambda z: np.where(z > 0, z, np.expm1(np.minimum(z, 0))), lambda z: np.where(z > 0, 1.0, np.exp(np.minimum(z, 0)))),
    "softsign": (lambda z: z / (1 + np.abs(z)), lambda z: 1 / (1 + np.abs(z)) ** 2),
    "sin": (np.sin, np.cos),
}


def mlp(W, x, act="tanh"):
    """W = [K0, b0, K1, b1, ...]: values (n, out) and derivatives (n, out) with respect to x and y."""
    f, df = ACT[act]
    h = np.asarray(x, dtype=np.float64)
    t = [np.tile(np.eye(h.shape[1])[k], (h.shape[0], 1)) for k in range(h.shape[1])]
    n = len(W) // 2
    for i in range(n):
        K, b = np.asarray(W[2 * i], np.float64), np.asarray(W[2 * i + 1], np.float64)
        z = h @ K + b
        t = [ti @ K for ti in t]
        if i < n - 1:
            t = [df(z) * ti for ti in t]
            h = f(z)
        else:
            h = z
    return h, t[0], t[1]


def attend(x):
    """Every point replaced by the average of all points, weighted with the softmax of the scalar products."""
    x = np.asarray(x, np.float64)
    s = x @ x.T
    w = np.exp(s - s.max(axis=1, keepdims=True))
    return (w / w.sum(axis=1, keepdims=True)) @ x


class Adam:
    """Kingma & Ba, with the bias correction folded into the step, eps added to sqrt(v) (Keras 2.13)."""

    def __init__(self, b1=0.9, b2=0.999, eps=1e-7):
        self.b1, self.b2, self.eps, self.t, self.m, self.v = b1, b2, eps, 0, None, None

    def step(self, params, grads, lr):
        self.t += 1
        if self.m is None:
            self.m = [np.zeros_like(g) for g in grads]
            self.v = [np.zeros_like(g) for g in grads]
        a = lr * np.sqrt(1 - self.b2**self.t) / (1 - self.b1**self.t)
        out = []
        for i, (p, g) in enumerate(zip(params, grads)):
            self.m[i] = self.b1 * self.m[i] + (1 - self.b1) * g
            self.v[i] = self.b2 * self.v[i] + (1 - self.b2) * g * g
            out.append(p - a * self.m[i] / (np.sqrt(self.v[i]) + self.eps))
        return out


def lr_at(cfg, step):
    if not cfg["use_lr_scheduler"]:
        return cfg["initial_learning_rate"]
    p = step / cfg["decay_steps"]
    if cfg.get("staircase", True):
        p = np.floor(p)
    return cfg["initial_learning_rate"] * cfg["decay_rate"] ** p
