"""Reference finite element geometry in numpy (no sfepy code)."""
import numpy as np
from .ref_topo import EDGES, FACES

VERT = {
    '1_2': [[0], [1]],
    '2_3': [[0, 0], [1, 0], [0, 1]],
    '2_4': [[0, 0], [1, 0], [1, 1], [0, 1]],
    '3_4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
    '3_8': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
            [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]],
    '3_6': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]],
}
VERT = {k: np.array(v, float) for k, v in VERT.items()}

def shape(g, xi):
    """Vertex shape functions and gradients: (n, nv), (n, d, nv)."""
    xi = np.atleast_2d(xi)
    n, d = xi.shape
    V = VERT[g]
    if g in ('1_2', '2_3', '3_4'):
        N = np.c_[1 - xi.sum(1), xi]
        G = np.zeros((n, d, d + 1))
        G[:, :, 0] = -1
        for i in range(d):
            G[:, i, i + 1] = 1
        return N, G
    if g == '3_6':
        Nt, Gt = shape('2_3', xi[:, :2])
        z = xi[:, 2]
        l = np.c_[1 - z, z]
        N = np.hstack([Nt * l[:, :1], Nt * l[:, 1:]])
        G = np.zeros((n, 3, 6))
        G[:, :2, :3] = Gt * l[:, :1, None]
        G[:, :2, 3:] = Gt * l[:, 1:, None]
        G[:, 2, :3] = -Nt
        G[:, 2, 3:] = Nt
        return N, G
    one = [np.where(V[:, i] == 1, xi[:, i:i+1], 1 - xi[:, i:i+1]) for i in range(d)]
    N = np.prod(one, axis=0)
    G = np.zeros((n, d, len(V)))
    for i in range(d):
        t = [one[j] for j in range(d) if j != i] + [np.where(V[:, i] == 1, 1., -1.)[None]]
        G[:, i] = np.prod(np.broadcast_arrays(*t), axis=0)
    return N, G

def mapped(g, X, conn, xi):
    """Physical points (c, q, dim) and dX/dxi (c, q, dim, tdim)."""
    N, G = shape(g, xi)
    E = X[conn]
    return np.einsum('qn,cnd->cqd', N, E), np.einsum('qin,cnd->cqdi', G, E)

def measure(J):
    """Volume factor of dX/dxi."""
    if J.shape[-1] == J.shape[-2]:
        return np.linalg.det(J)
    return np.sqrt(np.linalg.det(np.swapaxes(J, -1, -2) @ J))

def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w

def rule(g, n=4):
    """A quadrature exact for polynomials of degree 2n - 2 (collapsed Gauss)."""
    x, w = gauss01(n)
    if g == '1_2':
        return x[:, None], w
    if g in ('2_4', '3_8'):
        d = int(g[0])
        P = np.array(np.meshgrid(*[x] * d, indexing='ij')).reshape(d, -1).T
        W = np.prod(np.array(np.meshgrid(*[w] * d, indexing='ij')).reshape(d, -1), axis=0)
        return P, W
    if g == '2_3':
        P, W = rule('2_4', n)
        return np.c_[P[:, 0], P[:, 1] * (1 - P[:, 0])], W * (1 - P[:, 0])
    if g == '3_4':
        P, W = rule('3_8', n + 1)
        a, b, c = P.T
        return np.c_[a, b * (1 - a), c * (1 - a) * (1 - b)], W * (1 - a)**2 * (1 - b)
    if g == '3_6':
        P, W = rule('2_3', n)
        return (np.c_[np.repeat(P, n, 0), np.tile(x, len(P))],
                np.repeat(W, n) * np.tile(w, len(P)))
    raise ValueError(g)

def facets(g):
    """Local facets (vertex lists, outward cyclic in 3D)."""
    if g == '1_2':
        return [(0,), (1,)]
    if g[0] == '2':
        return [tuple(e) for e in EDGES[g]]
    if g == '3_6':
        return [(0, 2, 1), (0, 3, 5, 2), (0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 5)]
    return FACES[g]

FG = {1: None, 2: '1_2', 3: '2_3', 4: '2_4'}

def facet_geometry(X, cell_vertices, g, loc, xi=None, n=4):
    """
    Points, normals * measure and weights of a facet of a cell by own
    quadrature; the normal points out of the cell.
    """
    vs = [cell_vertices[i] for i in facets(g)[loc]]
    dim = X.shape[1]
    if dim == 1:
        other = cell_vertices[1 - loc]
        return X[vs], np.sign(X[vs] - X[other]), np.ones(1)
    fg = FG[len(vs)]
    P, W = rule(fg, n)
    Y, J = mapped(fg, X, np.array([vs]), P)
    Y, J = Y[0], J[0]
    if dim == 2:
        t = J[:, :, 0]
        nn = np.c_[t[:, 1], -t[:, 0]]
    else:
        nn = np.cross(J[:, :, 0], J[:, :, 1])
    c = X[list(cell_vertices)].mean(0)
    if ((Y - c) * nn).sum() < 0:
        nn = -nn
    return Y, nn, W

class PolyF:
    """A random polynomial in `dim` variables of total degree `deg`
    (centred and scaled)."""

    def __init__(self, rng, dim, deg, x0=None, h=1.0, full=False):
        import itertools
        self.e = [e for e in itertools.product(range(deg + 1), repeat=dim)
                  if full or sum(e) <= deg]
        self.c = rng.randn(len(self.e))
        self.x0 = np.zeros(dim) if x0 is None else np.asarray(x0)
        self.h = h
        self.dim = dim

    def __call__(self, x):
        y = (x - self.x0) / self.h
        return sum(c * np.prod([y[..., i]**k for i, k in enumerate(e)], axis=0)
                   for c, e in zip(self.c, self.e))

    def grad(self, x):
        y = (x - self.x0) / self.h
        out = np.zeros(y.shape)
        for c, e in zip(self.c, self.e):
            for j in range(self.dim):
                if e[j]:
                    out[..., j] += c * e[j] / self.h * np.prod(
                        [y[..., i]**(k - (i == j)) for i, k in enumerate(e)], axis=0)
        return out
