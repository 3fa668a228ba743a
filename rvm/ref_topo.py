"""Reference topology computed directly from the cells (no sfepy code)."""
import numpy as np
from itertools import combinations

EDGES = {
    '1_2': [(0, 1)],
    '2_3': [(0, 1), (1, 2), (2, 0)],
    '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    '3_4': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    '3_8': [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4),
            (0, 4), (1, 5), (2, 6), (3, 7)],
    '3_6': [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
}
# Cyclic, seen from outside counter-clockwise.
FACES = {
    '3_4': [(0, 2, 1), (0, 3, 2), (0, 1, 3), (1, 2, 3)],
    '3_8': [(0, 3, 2, 1), (0, 4, 7, 3), (0, 1, 5, 4), (4, 5, 6, 7),
            (1, 2, 6, 5), (3, 7, 6, 2)],
    '3_6': [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (0, 3, 5, 2)],
}

class Topo:
    """entities[d]: list of frozensets of vertices; cells in the given order."""

    def __init__(self, cells, tdim, n_coor):
        self.cells = cells
        self.D = tdim
        self.nv = n_coor
        self.cell_sets = [frozenset(c) for _, c in cells]
        self.ents = {0: [frozenset([i]) for i in range(n_coor)],
                     tdim: self.cell_sets}
        self.cell_sub = {}
        self.face_cycle = {}
        if tdim >= 2:
            self._sub(1, EDGES)
        if tdim == 3:
            self._sub(2, FACES)

    def _sub(self, d, table):
        found = {}
        sub = []
        for desc, c in self.cells:
            s = []
            for loc in table[desc]:
                vs = tuple(c[i] for i in loc)
                key = frozenset(vs)
                if key not in found:
                    found[key] = len(found)
                    if d == 2:
                        self.face_cycle[key] = vs
                s.append(key)
            sub.append(s)
        self.ents[d] = list(found)
        self.cell_sub[d] = sub

    def incidence(self, d1, d2):
        """dict: entity key of dimension d1 -> set of keys of dimension d2.
        Cells are keyed by ('c', index), as cells could share vertex sets."""
        if (d1, d2) in getattr(self, '_inc', {}):
            return self._inc[d1, d2]
        if not hasattr(self, '_inc'):
            self._inc = {}
        K1, K2 = self.keys(d1), self.keys(d2)
        v1, v2 = self.vsets(d1), self.vsets(d2)
        byv = {}
        for k, s in zip(K2, v2):
            for v in s:
                byv.setdefault(v, []).append((k, s))
        out = {}
        for k, s in zip(K1, v1):
            if d1 == d2:
                if d1 == 0:
                    r = set()
                    for c in self._cells_of_vertex(next(iter(s))):
                        r |= {('v', w) for w in self.cell_sets[c]}
                    r.discard(k)
                else:
                    r = {kk for v in s for kk, ss in byv.get(v, []) if kk != k}
            elif d1 > d2:
                if d1 == self.D and d2 > 0:
                    i = k[1]
                    r = {('e%d' % d2, key) for key in self.cell_sub[d2][i]}
                else:
                    r = {kk for v in s for kk, ss in byv.get(v, []) if ss <= s}
            else:
                inc = self.incidence(d2, d1)
                r = None
            out[k] = r
        if d1 < d2:
            out = {k: set() for k in K1}
            for kk, rr in inc.items():
                for k in rr:
                    out[k].add(kk)
        self._inc[d1, d2] = out
        return out

    def _cells_of_vertex(self, v):
        if not hasattr(self, '_cv'):
            self._cv = {}
            for i, s in enumerate(self.cell_sets):
                for w in s:
                    self._cv.setdefault(w, []).append(i)
        return self._cv.get(v, [])

    def keys(self, d):
        if d == self.D:
            return [('c', i) for i in range(len(self.cells))]
        if d == 0:
            return [('v', i) for i in range(self.nv)]
        return [('e%d' % d, k) for k in self.ents[d]]

    def vsets(self, d):
        return self.ents[d]

def volume_of(desc, X):
    """Exact measure of the isoparametric cell with vertices X (n, dim)."""
    X = np.asarray(X, float)
    if desc == '1_2':
        return float(np.linalg.norm(X[1] - X[0]))
    if desc == '2_3':
        return tri_area(X)
    if desc == '3_4':
        return abs(float(np.linalg.det(X[1:] - X[0]))) / 6.0
    g = np.sqrt(3.0 / 5.0)
    p1 = np.array([0.5 - g / 2, 0.5, 0.5 + g / 2])
    w1 = np.array([5.0, 8.0, 5.0]) / 18.0
    tot = 0.0
    if desc == '2_4':
        if X.shape[1] == 2:
            d = X[[1, 2, 3, 0]]
            return abs(0.5 * float(np.sum(X[:, 0] * d[:, 1] - d[:, 0] * X[:, 1])))
        p1, w1 = np.polynomial.legendre.leggauss(12)
        p1, w1 = (p1 + 1) / 2, w1 / 2
        for x, wx in zip(p1, w1):
            for y, wy in zip(p1, w1):
                dx = (X[1] - X[0]) * (1 - y) + (X[2] - X[3]) * y
                dy = (X[3] - X[0]) * (1 - x) + (X[2] - X[1]) * x
                G = np.array([[dx @ dx, dx @ dy], [dx @ dy, dy @ dy]])
                tot += wx * wy * np.sqrt(np.linalg.det(G))
        return float(tot)
    if desc == '3_8':
        sg = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                       [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]])
        for x, wx in zip(p1, w1):
            for y, wy in zip(p1, w1):
                for z, wz in zip(p1, w1):
                    q = np.array([x, y, z])
                    f = np.where(sg, q, 1 - q)
                    df = np.where(sg, 1.0, -1.0)
                    g = np.stack([df[:, 0] * f[:, 1] * f[:, 2],
                                  f[:, 0] * df[:, 1] * f[:, 2],
                                  f[:, 0] * f[:, 1] * df[:, 2]], 1)
                    tot += wx * wy * wz * np.linalg.det(X.T @ g)
        return abs(float(tot))
    if desc == '3_6':
        # Triangle rule of degree 2+ tensor Gauss.
        tp = [(1/6, 1/6), (2/3, 1/6), (1/6, 2/3)]
        for (x, y) in tp:
            for z, wz in zip(p1, w1):
                l = np.array([1 - x - y, x, y])
                dl = np.array([[-1, -1], [1, 0], [0, 1.]])
                g = np.zeros((6, 3))
                g[:3, :2] = dl * (1 - z)
                g[3:, :2] = dl * z
                g[:3, 2] = -l
                g[3:, 2] = l
                tot += wz / 6 * np.linalg.det(X.T @ g)
        return abs(float(tot))
    raise ValueError(desc)

def tri_area(X):
    a, b = X[1] - X[0], X[2] - X[0]
    g = (a @ a) * (b @ b) - (a @ b) ** 2
    return 0.5 * float(np.sqrt(max(g, 0.0)))
