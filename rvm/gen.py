"""
Independent generators of meshes.

raw mesh: dict(coors, conns={desc: (n, k) int array}, mats={desc: groups},
               vgroups, tdim, dim)
"""
import numpy as np
import itertools

# Orientation preserving symmetries of the reference cells (lists of local
# vertex permutations), with VTK-like local numbering.
def _hex_rotations():
    X = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                  [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]) * 2 - 1
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            R = np.zeros((3, 3), int)
            for i in range(3):
                R[i, p[i]] = s[i]
            if round(np.linalg.det(R)) != 1:
                continue
            Y = X @ R.T
            out.append([int(np.where((X == y).all(1))[0][0]) for y in Y])
    return np.array(out)

def _even(n):
    out = []
    for p in itertools.permutations(range(n)):
        M = np.eye(n)[list(p)]
        if np.linalg.det(M) > 0:
            out.append(p)
    return np.array(out)

SYM = {
    '1_2': np.array([[0, 1]]),
    '2_3': _even(3),
    '2_4': np.array([[0, 1, 2, 3], [1, 2, 3, 0], [2, 3, 0, 1], [3, 0, 1, 2]]),
    '3_4': _even(4),
    '3_8': _hex_rotations(),
    '3_6': np.array([[0, 1, 2, 3, 4, 5], [1, 2, 0, 4, 5, 3], [2, 0, 1, 5, 3, 4],
                     [3, 5, 4, 0, 2, 1], [5, 4, 3, 2, 1, 0], [4, 3, 5, 1, 0, 2]]),
}

def grid(shape, lims=None, jitter=0.0, rng=None):
    """Vertices of a tensor grid with random spacing; cells as quads/hexes."""
    dim = len(shape)
    axes = []
    for n in shape:
        if rng is None:
            t = np.linspace(0, 1, n)
        else:
            d = 0.6 + 0.8 * rng.rand(n - 1)
            t = np.r_[0, np.cumsum(d)]
            t /= t[-1]
        axes.append(t)
    X = np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, dim)
    idx = np.arange(len(X)).reshape(shape)
    if dim == 1:
        c = np.stack([idx[:-1], idx[1:]], -1).reshape(-1, 2)
    elif dim == 2:
        c = np.stack([idx[:-1, :-1], idx[1:, :-1], idx[1:, 1:], idx[:-1, 1:]],
                     -1).reshape(-1, 4)
    else:
        a, b = slice(None, -1), slice(1, None)
        c = np.stack([idx[a, a, a], idx[b, a, a], idx[b, b, a], idx[a, b, a],
                      idx[a, a, b], idx[b, a, b], idx[b, b, b], idx[a, b, b]],
                     -1).reshape(-1, 8)
    if jitter and rng is not None:
        h = np.array([np.diff(t).min() for t in axes])
        X = X + (rng.rand(*X.shape) - 0.5) * h * jitter
    return X, c

def connected_subset(rng, conn, frac):
    """Random subset of the cells."""
    n = len(conn)
    keep = rng.rand(n) < frac
    keep[rng.randint(n)] = True
    return np.nonzero(keep)[0]

def split_quads(rng, q):
    d = rng.randint(2, size=len(q))
    t0 = np.where(d[:, None] == 0, q[:, [0, 1, 2]], q[:, [0, 1, 3]])
    t1 = np.where(d[:, None] == 0, q[:, [0, 2, 3]], q[:, [1, 2, 3]])
    return np.vstack([t0, t1])

KUHN = []
for _p in itertools.permutations(range(3)):
    v = [(0, 0, 0)]
    for _i in _p:
        w = list(v[-1])
        w[_i] = 1
        v.append(tuple(w))
    KUHN.append(v)
_HEXI = {(0, 0, 0): 0, (1, 0, 0): 1, (1, 1, 0): 2, (0, 1, 0): 3,
         (0, 0, 1): 4, (1, 0, 1): 5, (1, 1, 1): 6, (0, 1, 1): 7}
KUHN = np.array([[_HEXI[v] for v in t] for t in KUHN])

def simplex_sign(X, c):
    v = X[c[:, 1:]] - X[c[:, :1]]
    return np.linalg.det(v)

def orient(X, c, desc):
    """Make the cells positively oriented."""
    c = c.copy()
    if desc in ('2_3', '3_4') and X.shape[1] == c.shape[1] - 1:
        s = simplex_sign(X, c) < 0
        c[s] = c[s][:, [0, 2, 1] + list(range(3, c.shape[1]))]
    return c

def raw_mesh(rng, kind, size=3, jitter=0.35, holes=0.0, affine=True,
             renumber=True, localperm=True, dim=None, isolated=False,
             shape=None, groups=True):
    """
    kind: '1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6', '2_3d' (Delaunay),
          '3_4d' (Delaunay); dim: dimension of the embedding space.
    """
    conns = {}
    tdim = 2 if kind == 'mixed2' else int(kind[0])
    if shape is None:
        if np.isscalar(size):
            shape = [int(size + rng.randint(0, 2)) for _ in range(tdim)]
        else:
            shape = list(size)
    if kind in ('1_2', '2_4', '3_8'):
        X, c = grid(shape, jitter=jitter, rng=rng)
        conns[kind] = c
    elif kind == '2_3':
        X, c = grid(shape, jitter=jitter, rng=rng)
        conns[kind] = split_quads(rng, c)
    elif kind == 'mixed2':
        X, c = grid(shape, jitter=jitter, rng=rng)
        m = rng.rand(len(c)) < 0.5
        if len(c) >= 2:
            m[0], m[1] = True, False
        rng.shuffle(m)
        if m.any():
            conns['2_3'] = split_quads(rng, c[m])
        if (~m).any():
            conns['2_4'] = c[~m]
    elif kind == '3_4':
        X, c = grid(shape, jitter=jitter, rng=rng)
        conns[kind] = orient(X, c[:, KUHN].reshape(-1, 4), kind)
    elif kind == '3_6':
        X2, q = grid(shape[:2], jitter=jitter, rng=rng)
        t = split_quads(rng, q)
        z = np.r_[0, np.cumsum(0.5 + rng.rand(shape[2] - 1))]
        z /= z[-1]
        n2 = len(X2)
        X = np.vstack([np.c_[X2, np.full(n2, zz)] for zz in z])
        conns[kind] = np.vstack([np.c_[t + k * n2, t + (k + 1) * n2]
                                 for k in range(shape[2] - 1)])
    elif kind in ('2_3d', '3_4d'):
        from scipy.spatial import Delaunay
        d = tdim
        n = int(np.prod(shape)) + d + 2
        kind = kind[:-1]
        while 1:
            X = rng.rand(n, d)
            X = np.vstack([X, np.array(list(itertools.product([0., 1.], repeat=d)))])
            tri = Delaunay(X)
            c = np.array(tri.simplices)
            s = np.abs(simplex_sign(X, c))
            L = np.max([np.linalg.norm(X[c[:, i]] - X[c[:, j]], axis=1)
                        for i in range(d + 1) for j in range(i)], axis=0)
            c = c[s > 0.02 * L**d]
            if len(c) > 2:
                break
        conns[kind] = orient(X, c, kind)
    else:
        raise ValueError(kind)
    if holes:
        for k in conns:
            c = conns[k]
            conns[k] = c[connected_subset(rng, c, 1.0 - holes)]
    # Remove unused vertices.
    used = np.unique(np.concatenate([c.ravel() for c in conns.values()]))
    if not isolated:
        new = -np.ones(len(X), int)
        new[used] = np.arange(len(used))
        X = X[used]
        conns = {k: new[c] for k, c in conns.items()}
    if localperm:
        for k, c in conns.items():
            S = SYM[k]
            w = rng.randint(len(S), size=len(c))
            conns[k] = np.take_along_axis(c, S[w], axis=1)
    if renumber:
        p = rng.permutation(len(X))     # new index of the old vertex
        Xn = np.empty_like(X)
        Xn[p] = X
        X = Xn
        conns = {k: p[c][rng.permutation(len(c))] for k, c in conns.items()}
    if dim is not None and dim > X.shape[1]:
        # Embed as a graph of a smooth function.
        Y = [X]
        for i in range(dim - X.shape[1]):
            a = rng.randn(X.shape[1])
            Y.append((X @ a * 0.3 + 0.2 * np.sin(2 * X @ rng.randn(X.shape[1])))[:, None])
        X = np.hstack(Y)
    if affine:
        A = random_affine(rng, X.shape[1], one_d_positive=(X.shape[1] == 1))
        X = X @ A.T + rng.randn(X.shape[1])
    n_cell = sum(len(c) for c in conns.values())
    raw = dict(coors=X, conns=conns, tdim=tdim, dim=X.shape[1])
    if groups:
        raw['vgroups'] = rng.randint(0, 4, size=len(X))
        raw['mats'] = {k: rng.randint(0, 4, size=len(c)) for k, c in conns.items()}
    else:
        raw['vgroups'] = np.zeros(len(X), int)
        raw['mats'] = {k: np.zeros(len(c), int) for k, c in conns.items()}
    return raw

def random_affine(rng, d, one_d_positive=False, cond=3.0):
    if d == 1:
        return np.array([[0.5 + rng.rand()]])
    Q, _ = np.linalg.qr(rng.randn(d, d))
    Q2, _ = np.linalg.qr(rng.randn(d, d))
    s = np.exp(rng.rand(d) * np.log(cond)) * 0.7
    A = Q @ np.diag(s) @ Q2
    if np.linalg.det(A) < 0:
        A[0] *= -1
    return A

def rotation(rng, d):
    if d == 1:
        return np.eye(1)
    Q, _ = np.linalg.qr(rng.randn(d, d))
    if np.linalg.det(Q) < 0:
        Q[0] *= -1
    return Q

ORDER = ['1_2', '2_3', '2_4', '3_4', '3_8', '3_6']

def to_mesh(raw, name='m'):
    from sfepy.discrete.fem import Mesh
    descs = [d for d in ORDER if d in raw['conns']]
    return Mesh.from_data(name, np.ascontiguousarray(raw['coors'], dtype=np.float64),
                          np.asarray(raw['vgroups'], dtype=np.int32),
                          [np.ascontiguousarray(raw['conns'][d], dtype=np.int32)
                           for d in descs],
                          [np.asarray(raw['mats'][d], dtype=np.int32) for d in descs],
                          descs)

def to_domain(raw, name='d'):
    from sfepy.discrete.fem import FEDomain
    return FEDomain(name, to_mesh(raw, name))

def all_cells(raw):
    """Cells in the order used by sfepy: list of (desc, vertices)."""
    out = []
    for d in ORDER:
        if d in raw['conns']:
            out += [(d, tuple(int(v) for v in c)) for c in raw['conns'][d]]
    return out

def rngof(case, salt=0):
    return np.random.RandomState((int(case['seed']) * 31 + salt * 977 + 7) % 2**32)
