"""Generators of realistic and hostile inputs."""
import numpy as np

from . import oracle as O


# ------------------------------------------------------------ rectangles
def limits(rng, extreme=None):
    """(lo, hi) over many scales, offsets and Python types."""
    k = int(rng.integers(0, 8)) if extreme is None else extreme
    if k == 0:
        lo, hi = 0.0, 1.0
    elif k == 1:
        lo, hi = -1.0, 1.0
    elif k == 2:
        a = int(rng.integers(-5, 5))
        return a, a + int(rng.integers(1, 6))
    elif k == 3:
        lo = float(rng.uniform(-10, 10))
        hi = lo + float(rng.uniform(0.1, 20))
    elif k == 4:
        lo = float(rng.uniform(-1, 1)) * 1e-4
        hi = lo + float(rng.uniform(0.2, 3)) * 1e-4
    elif k == 5:
        lo = float(rng.uniform(-1, 1)) * 1e4
        hi = lo + float(rng.uniform(0.2, 3)) * 1e4
    elif k == 6:
        hi = -float(rng.uniform(0.1, 5))
        lo = hi - float(rng.uniform(0.1, 5))
    else:
        lo = 100.0 + float(rng.uniform(0, 10))
        hi = lo + float(rng.uniform(0.5, 2))
    return lo, hi


def as_kind(rng, pair):
    k = int(rng.integers(0, 4))
    return [list(pair), tuple(pair), np.array(pair, dtype=np.float64), list(pair)][k]


# ------------------------------------------------------------ quadrilaterals
def random_quad(rng, style=None):
    """A strictly convex, anticlockwise quadrilateral."""
    styles = ["rect", "square", "parallelogram", "trapezoid", "general", "thin", "tiny", "far", "rotated", "kite"]
    style = style or styles[int(rng.integers(0, len(styles)))]
    while True:
        if style == "square":
            q = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]], float) * rng.uniform(0.2, 3) + rng.uniform(-2, 2, 2)
        elif style == "rect":
            q = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]], float) * rng.uniform(0.1, 3, 2) + rng.uniform(-2, 2, 2)
        elif style == "rotated":
            a = rng.uniform(0, 2 * np.pi)
            R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            q = (np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]], float) * rng.uniform(0.3, 2, 2)) @ R.T + rng.uniform(-2, 2, 2)
        elif style == "parallelogram":
            a, b = rng.uniform(-1, 1, 2), rng.uniform(-1, 1, 2)
            p = rng.uniform(-3, 3, 2)
            q = np.array([p, p + a, p + a + b, p + b])
            if O.signed_area(q) < 0:
                q = q[[0, 3, 2, 1]]
        elif style == "trapezoid":
            h, w1, w2, s = rng.uniform(0.2, 2), rng.uniform(0.3, 2), rng.uniform(0.3, 2), rng.uniform(-0.5, 0.5)
            q = np.array([[0, 0], [w1, 0], [s + w2, h], [s, h]]) + rng.uniform(-2, 2, 2)
        elif style == "thin":
            q = np.array([[0, 0], [1, 0], [1, 1], [0, 1]], float) + rng.uniform(-0.15, 0.15, (4, 2))
            q = q * np.array([1.0, rng.uniform(1e-3, 3e-2)])
        elif style == "tiny":
            q = (np.array([[0, 0], [1, 0], [1, 1], [0, 1]], float) + rng.uniform(-0.2, 0.2, (4, 2))) * 10.0 ** rng.uniform(-5, -2)
        elif style == "far":
            q = np.array([[0, 0], [1, 0], [1, 1], [0, 1]], float) + rng.uniform(-0.25, 0.25, (4, 2)) + rng.uniform(-300, 300, 2)
        elif style == "kite":
            q = np.array([[0, -rng.uniform(0.3, 1)], [rng.uniform(0.3, 2), 0], [0, rng.uniform(0.3, 1)], [-rng.uniform(0.3, 1), 0]]) + rng.uniform(-2, 2, 2)
        else:
            q = np.array([[0, 0], [1, 0], [1, 1], [0, 1]], float) + rng.uniform(-0.3, 0.3, (4, 2))
            q = q * rng.uniform(0.3, 3) + rng.uniform(-2, 2, 2)
        if O.signed_area(q) > 0 and O.is_convex(q, 1e-4 if style == "thin" else 2e-2):
            sides = np.linalg.norm(np.roll(q, -1, 0) - q, axis=1)
            if style == "thin" or sides.min() > 0.05 * sides.max():
                return q, style


def spike(rng):
    """A long, strongly tapered cell, oblique to the axes."""
    while True:
        a, b, h = rng.uniform(0.3, 1), rng.uniform(2, 8), rng.uniform(0.3, 1.5)
        q = np.array([[-a, -h], [a, -h], [b + rng.uniform(-0.3, 0.3) * b, h], [-b, h]]) + rng.uniform(-0.1, 0.1, (4, 2)) * a
        t = rng.uniform(0, 2 * np.pi)
        q = q @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]) * 10.0 ** rng.uniform(-1, 1) + rng.uniform(-3, 3, 2)
        if O.signed_area(q) > 0 and O.is_convex(q, 1e-3):
            return q


def lookalike(rng, n=8, par=False):
    """Different cells that agree in some respect: a vertex, the centre, the area, the shape, the bounding box, all but one vertex ..."""
    base = random_quad(rng, ["parallelogram", "rect", "rotated", "square"][int(rng.integers(0, 4))] if par else ["general", "kite", "trapezoid", "general"][int(rng.integers(0, 4))])[0]
    base = np.roll(base, int(rng.integers(0, 4)), axis=0)
    c = base.mean(axis=0)
    h = np.abs(base - c).max()
    out = [base]
    while len(out) < n:
        q = out[int(rng.integers(0, len(out)))].copy()
        k = int(rng.integers(0, 13))
        a = [np.pi / 2, np.pi, float(rng.uniform(0.3, 6))][int(rng.integers(0, 3))]
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        if k == 0:
            q = q + rng.uniform(-3, 3, 2) * h
        elif k == 1:
            q = q + np.eye(2)[int(rng.integers(0, 2))] * h * float(rng.uniform(0.5, 3))
        elif k == 2:
            q = (q - c) @ R.T + c
        elif k == 3:
            q = (q - q[0]) @ R.T + q[0]
        elif k == 4:
            q = q[0] + (q - q[0]) * float(rng.uniform(0.3, 2))
        elif k == 5:
            q = c + (q - c) * float(rng.uniform(0.3, 2))
        elif k == 6:
            s = float(rng.uniform(0.5, 2))
            q = c + (q - c) * np.array([s, 1 / s])
        elif k == 7:
            q = c + (q - c) * np.array([[-1.0, 1.0], [1.0, -1.0]][int(rng.integers(0, 2))])
        elif k == 8:
            q = q[:, ::-1].copy()
        elif k == 9:
            q = np.roll(q, int(rng.integers(1, 4)), axis=0)
        elif k == 10:
            q = q[::-1].copy()
        elif k == 11:
            # all vertices but one (parallelograms: but two)
            d = rng.uniform(-1, 1, 2) * h * 10.0 ** rng.uniform(-4, -0.7)
            j = int(rng.integers(0, 4))
            q[j] += d
            if par:
                q[(j + 1) % 4] += d
        else:
            # a neighbour across an edge: two vertices shared
            j = int(rng.integers(0, 4))
            A, B = q[j], q[(j + 1) % 4]
            t = (B - A) / np.linalg.norm(B - A)
            p = q - A
            q = A + 2 * np.outer(p @ t, t) - p
            if rng.integers(0, 2):
                q = q[::-1].copy()
        if O.is_convex(q, 2e-2):
            out.append(q)
    return np.array([out[k] for k in rng.permutation(n)])


def stretch(rng, kmax=30):
    """(sx, sy): powers of two, so that scaling by them is exact in floating point."""
    a = int(rng.integers(-kmax, kmax + 1))
    b = a if rng.integers(0, 3) == 0 else int(np.clip(a + rng.integers(-20, 21), -kmax, kmax))
    return float(2.0**a), float(2.0**b)


def remote(rng, n=5, par=False, far=9.0):
    """Small cells far from the origin (up to 10**far cell sizes away), nothing special in their shape."""
    out = []
    while len(out) < n:
        q = random_quad(rng, ["rect", "square", "parallelogram", "rotated"][int(rng.integers(0, 4))] if par else ["general", "kite", "trapezoid", "general"][int(rng.integers(0, 4))])[0]
        q = roll(rng, q)[0]
        q = (q - q.mean(axis=0)) * 10.0 ** rng.uniform(-10, 2)
        h = np.abs(q).max()
        # both coordinates large, or one of them; what is left after rounding is the cell
        c = rng.choice([-1, 1], 2) * h * 10.0 ** rng.uniform(2, far, 2)
        if rng.integers(0, 3) == 0:
            c[int(rng.integers(0, 2))] = 0.0
        if par:
            # keep it a parallelogram: a coarse grid around the centre
            u = 2.0 ** np.ceil(np.log2(np.abs(c).max() + h)) * 2.0**-50
            q, c = np.round(q / u) * u, np.round(c / u) * u
            q[3] = q[0] + q[2] - q[1]
        q = q + c
        if O.is_convex(q, 2e-2):
            out.append(q)
    return np.array(out)


def hanging(rng):
    """A cell with a vertex on the straight line between its neighbours (a triangle with a hanging node)."""
    while True:
        t = rng.uniform(-1, 1, (3, 2)) * 10.0 ** rng.uniform(-2, 2) + rng.uniform(-2, 2, 2)
        if O.signed_area(t) < 0:
            t = t[::-1]
        e = np.linalg.norm(np.roll(t, -1, 0) - t, axis=1)
        if O.signed_area(t) > 0.1 * e.max() ** 2:
            return np.array([t[0], t[0] + (t[1] - t[0]) * rng.uniform(0.25, 0.75), t[1], t[2]])


def roll(rng, q, clockwise=None):
    """The same cell, listed from another vertex and possibly clockwise."""
    s = int(rng.integers(0, 4))
    cw = bool(rng.integers(0, 2)) if clockwise is None else clockwise
    q = np.roll(q, s, axis=0)
    return (q[::-1].copy() if cw else q.copy()), s, cw


class QuadMesh:
    """A conforming quadrilateral mesh with tagged boundary edges."""

    def __init__(self, P, Q, E, tags, style):
        self.P, self.Q, self.E, self.tags, self.style = P, np.asarray(Q), np.asarray(E), np.asarray(tags), style

    @property
    def cells(self):
        return self.P[self.Q]


def structured(rng, nx, ny, style, far=6.0):
    i, j = np.meshgrid(np.arange(nx + 1), np.arange(ny + 1), indexing="ij")
    s, t = i.ravel() / nx, j.ravel() / ny
    vid = lambda a, b: a * (ny + 1) + b
    inner = ((i > 0) & (i < nx) & (j > 0) & (j < ny)).ravel()
    h = 0.22 / max(nx, ny)
    if style == "ring":
        r = 1.0 + 1.3 * s
        a0 = rng.uniform(0, 2 * np.pi)
        th = a0 + t * rng.uniform(0.6, 1.6) * np.pi
        P = np.stack([r * np.cos(th), r * np.sin(th)], 1)
    else:
        P = np.stack([s, t], 1)
        if style in ("perturbed", "rotated", "far", "tiny"):
            P[inner] += rng.uniform(-h, h, (int(inner.sum()), 2))
        if style == "sheared":
            P = P @ np.array([[1.0, rng.uniform(-0.5, 0.5)], [rng.uniform(-0.5, 0.5), 1.0]])
        if style == "rotated":
            a = rng.uniform(0, 2 * np.pi)
            P = P @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
        if style == "far":
            P = P + rng.uniform(-200, 200, 2)
        if style == "tiny":
            P = P * 1e-3
        if style == "stretched":
            P = P * np.array([rng.uniform(0.5, 20), rng.uniform(0.05, 1)])
        if style == "offset":
            P[inner] += rng.uniform(-h, h, (int(inner.sum()), 2))
            P = P * 10.0 ** rng.uniform(-3, 1)
            P = P + rng.uniform(-1, 1, 2) * np.ptp(P, axis=0).max() * 10.0 ** rng.uniform(3, far)
    Q = [[vid(a, b), vid(a + 1, b), vid(a + 1, b + 1), vid(a, b + 1)] for a in range(nx) for b in range(ny)]
    E, side = [], []
    for a in range(nx):
        E.append([vid(a, 0), vid(a + 1, 0)]), side.append(0)
        E.append([vid(a, ny), vid(a + 1, ny)]), side.append(2)
    for b in range(ny):
        E.append([vid(nx, b), vid(nx, b + 1)]), side.append(1)
        E.append([vid(0, b), vid(0, b + 1)]), side.append(3)
    return P, Q, E, side


STYLES = ["unit", "perturbed", "rotated", "sheared", "ring", "far", "tiny", "stretched"]


def quad_mesh(rng, nmax=5, style=None, shuffle=True, ntags=None, far=6.0):
    style = style or STYLES[int(rng.integers(0, len(STYLES)))]
    nx, ny = int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1))
    if style == "ring":
        ny = max(ny, 3)
    P, Q, E, side = structured(rng, nx, ny, style, far)
    Q, E, side = [list(q) for q in Q], [list(e) for e in E], list(side)
    k = ntags if ntags is not None else int(rng.integers(1, 6))
    pool = rng.permutation(np.concatenate([np.arange(0, 12), [99, 1000, 1001, 1002, 1003, 2**15, 10**6]]))
    names = [int(t) for t in pool[: max(k, 4)]]
    if k == 1:
        tags = [names[0]] * len(E)
    elif k <= 4:
        tags = [names[s % k] for s in side]
    else:
        tags = [names[int(rng.integers(0, len(names)))] for _ in side]
    if shuffle:
        # renumber the points, permute cells and edges, roll and reverse vertex lists
        perm = rng.permutation(len(P))
        inv = np.empty(len(P), int)
        inv[perm] = np.arange(len(P))
        P = P[perm]
        Q = [[int(inv[v]) for v in q] for q in Q]
        E = [[int(inv[v]) for v in e] for e in E]
        Q = [Q[a] for a in rng.permutation(len(Q))]
        for a, q in enumerate(Q):
            s = int(rng.integers(0, 4))
            q = q[s:] + q[:s]
            Q[a] = q[::-1] if rng.integers(0, 2) else q
        o = rng.permutation(len(E))
        E = [E[a] if rng.integers(0, 2) else E[a][::-1] for a in o]
        tags = [tags[a] for a in o]
    return QuadMesh(P, Q, E, tags, style)


def with_isolated(rng, m, k):
    """The same mesh with k further points, which belong to no cell and no edge, anywhere in the list of points."""
    n = len(m.P) + k
    lo, s = m.P.min(0), np.ptp(m.P, axis=0).max()
    P = np.concatenate([m.P, lo + rng.uniform(-0.5, 1.5, (k, 2)) * s])
    perm = rng.permutation(n)
    inv = np.argsort(perm)
    return QuadMesh(P[perm], inv[np.asarray(m.Q)], inv[np.asarray(m.E)], m.tags, m.style)


def write_medit(path, m, dim=3, order="VEQ", precision=17, extra_points=0, extra_triangles=False, corners=False, rng=None):
    """Writes a Medit .mesh file; order gives the sections (V)ertices, (E)dges, (Q)uadrilaterals."""
    P = m.P
    lines = ["MeshVersionFormatted 2", "Dimension %d" % dim]
    sec = {}
    n = len(P) + extra_points
    V = ["Vertices", str(n)]
    z = ["0"] if dim == 3 else []
    for p in P:
        V.append(" ".join(["%.*g" % (precision, p[0]), "%.*g" % (precision, p[1])] + z + ["1"]))
    for k in range(extra_points):
        V.append(" ".join(["%.*g" % (precision, P[0, 0]), "%.*g" % (precision, P[0, 1])] + z + ["0"]))
    sec["V"] = V
    sec["E"] = ["Edges", str(len(m.E))] + ["%d %d %d" % (e[0] + 1, e[1] + 1, t) for e, t in zip(m.E, m.tags)]
    sec["Q"] = ["Quadrilaterals", str(len(m.Q))] + ["%d %d %d %d %d" % (*(q + 1), 7) for q in m.Q]
    # a section that is named more than once is written in parts
    for k, o in enumerate(order):
        n = order.count(o)
        if n == 1:
            lines += sec[o]
        else:
            j, body = order[:k].count(o), sec[o][2:]
            part = body[j * len(body) // n : (j + 1) * len(body) // n]
            if part:
                lines += [sec[o][0], str(len(part))] + part
    lines.append("End")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path


# ------------------------------------------------------------ functions
def smooth(rng, scale=1.0, x0=0.0, y0=0.0):
    """A smooth function of (x, y) that works on scalars and arrays, with a printable description."""
    a, b, c, d = (float(v) for v in rng.uniform(-2, 2, 4))
    k = int(rng.integers(0, 6))
    X = lambda x: (x - x0) / scale
    Y = lambda y: (y - y0) / scale
    f = [
        lambda x, y: a * np.sin(b * X(x) + c) * np.cos(d * Y(y)) + 0.3,
        lambda x, y: a + b * X(x) + c * Y(y) + d * X(x) * Y(y),
        lambda x, y: a * np.exp(np.sin(0.3 * b * X(x))) + c * Y(y) ** 2,
        lambda x, y: a * X(x) ** 3 - b * X(x) * Y(y) ** 2 + c,
        lambda x, y: np.tanh(a * X(x) + b * Y(y)) + c,
        lambda x, y: a * np.cos(3 * X(x)) + b * np.sin(2 * Y(y)) + c * X(x),
    ][k]
    return f, {"k": k, "abcd": [a, b, c, d]}


def mixed(rng, forms=6):
    """A piecewise function whose values at single points have different types: int, bool, float, numpy scalars, 0-d arrays.

    Some pieces are whole numbers; arrays of points are taken as well."""
    f, d = smooth(rng)
    n = int(rng.integers(2, 5))
    cut = np.sort(rng.uniform(-2, 2, n))
    whole = [int(v) for v in rng.integers(-3, 4, n + 1)]
    kind = [int(v) for v in rng.integers(0, forms + 2, n + 1)]
    a, b = (float(v) for v in rng.uniform(-1, 1, 2))

    def one(x, y):
        j = int(np.searchsorted(cut, a * x + b * y))
        k, w = kind[j], whole[j]
        if k == 0:
            return w
        if k == 1:
            return w > 0
        if k == 2:
            return np.int64(w)
        if k == 3:
            return np.array(float(w) + 0.25)
        if k == 4:
            return np.float32(w)
        if k == 5:
            return np.bool_(w > 0)
        return float(f(x, y))

    def g(x, y):
        if np.ndim(x) == 0:
            return one(x, y)
        return np.array([float(one(s, t)) for s, t in zip(np.ravel(x), np.ravel(y))]).reshape(np.shape(x))

    return g, {"pieces": kind, "smooth": d}


def hostile(rng, p, rate=0.2):
    """Some of the coefficients replaced by zero, negative, tiny, large or whole values, or by one another."""
    for k in p:
        if rng.uniform() < rate:
            j = int(rng.integers(0, 8))
            p[k] = [
                0.0,
                -p[k],
                float(10 ** rng.uniform(-9, -2)),
                -float(10 ** rng.uniform(-9, -2)),
                float(10 ** rng.uniform(1, 3)),
                -float(10 ** rng.uniform(1, 3)),
                float(rng.integers(-3, 4)),
                p[list(p)[int(rng.integers(0, len(p)))]],
            ][j]
    return p


def poly2(rng, deg, x0=0.0, y0=0.0, s=1.0):
    c = rng.uniform(-1, 1, (deg + 1, deg + 1))
    c[np.add.outer(np.arange(deg + 1), np.arange(deg + 1)) > deg] = 0.0
    return O.Poly2(c, x0, y0, s)
