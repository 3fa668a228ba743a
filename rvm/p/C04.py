"""
C04: reference bases.

Monitor: the values, gradients and second derivatives returned by the real
polynomial spaces at recorded points are observed; the oracle fits each observed
function in the documented polynomial space (no residual allowed, full rank),
differentiates the fit exactly and compares it with the returned derivatives,
and decides nodality, partition of unity, vanishing on foreign facets,
positivity, orthogonality.  Evaluation routes (batches, permutations, several
point sets, contexts, pickled copies, transformed bases, after other
evaluations) have to give the same numbers.
"""
import itertools, pickle
import numpy as np
from .. import gen

REQUIRED = ['space', 'rank', 'nodal', 'unity', 'gradient', 'hessian', 'facet_zero',
            'positive', 'orthogonal', 'batch', 'point_sets', 'transform', 'copy',
            'outside', 'nodes', 'boundary_points', 'lobatto_ori', 'sem_mass',
            'interpol_scheme']
ASSUMPTIONS = ['documented space: P_k on simplices, Q_k on tensor cells (serendipity:'
               ' superlinear degree <= k), P_k x P_k on wedges; the Legendre basis on'
               ' 3D cells is not offered by the DG fields and raises or is marked untested',
               'second derivatives are offered by the Lagrange basis on simplices and'
               ' tensor cells']

SPACES = []
for g in ['1_2', '2_3', '2_4', '3_4', '3_8', '3_6']:
    d = int(g[0])
    mx = {1: 10, 2: 7, 3: 4}[d]
    for o in range(0, mx + 1):
        if g != '3_6' or o > 0:
            SPACES.append(('lagrange', g, o, False))
        if o >= 1 and g != '3_6':
            SPACES.append(('bernstein', g, o, False))
            if g in ('1_2', '2_4', '3_8'):
                SPACES.append(('lobatto', g, o, False))
                SPACES.append(('sem', g, o, False))
        if g in ('1_2', '2_3', '2_4') and (g != '2_3' or o <= 5):
            SPACES.append(('legendre', g, o, False))
    if g in ('2_4', '3_8'):
        SPACES += [('serendipity', g, o, False) for o in (1, 2, 3)]
    if g in ('2_3', '3_4'):
        SPACES += [('lagrange', g, o, True) for o in (1, 2)]

def cases(rng, tier):
    out = []
    for r in range(1 if tier == 'quick' else 8):
        for b, g, o, bub in SPACES:
            out.append(dict(kind='space', basis=b, geom=g, order=o, bubble=bub, rep=r,
                            cost=(o + 1)**(int(g[0]) - 1)))
            if not bub:
                out.append(dict(kind='routes', basis=b, geom=g, order=o, rep=r, cost=1))
    for o in range(1, 5):
        for g in ('2_4', '3_8'):
            out.append(dict(kind='lobatto_ori', geom=g, order=o))
    for g in ['1_2', '2_3', '2_4', '3_4', '3_8']:
        out.append(dict(kind='outside', geom=g))
    for o in range(0, 6):
        for g in ('2_3', '2_4'):
            out.append(dict(kind='scheme', geom=g, order=o))
    return out

def geometry(g):
    from sfepy.discrete.fem.geometry_element import GeometryElement
    ge = GeometryElement(g)
    return ge

def space(case, bubble=False):
    from sfepy.discrete import PolySpace
    ge = geometry(case['geom'])
    return PolySpace.any_from_args(None, ge, case['order'], basis=case['basis'],
                                   force_bubble=bubble)

def points(rng, g, n, boundary=0.3):
    d = int(g[0])
    if g in ('2_3', '3_4'):
        p = rng.dirichlet(np.ones(d + 1), n)
        m = rng.rand(n) < boundary
        z = rng.randint(0, d + 1, n)
        p[m, z[m]] = 0.0
        p /= p.sum(1, keepdims=True)
        return np.ascontiguousarray(p[:, :d])
    if g == '3_6':
        return np.hstack([points(rng, '2_3', n, boundary), points(rng, '1_2', n, boundary)])
    p = rng.rand(n, d)
    m = rng.rand(n) < boundary
    k = rng.randint(0, d, n)
    p[m, k[m]] = rng.randint(0, 2, n)[m]
    return p

VERT = {'1_2': [[0], [1]], '2_3': [[0, 0], [1, 0], [0, 1]],
        '2_4': [[0, 0], [1, 0], [1, 1], [0, 1]],
        '3_4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
        '3_8': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]],
        '3_6': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]]}

def superlinear(e):
    return sum(k for k in e if k > 1)

def exponents(basis, g, o, bubble=False):
    d = int(g[0])
    allq = [e for e in itertools.product(range(o + 1), repeat=d)]
    if basis == 'serendipity':
        big = itertools.product(range(max(o, 1) + 1), repeat=d)
        return [e for e in big if superlinear(e) <= o]
    if basis == 'legendre' and g in ('2_4', '3_8') or g in ('1_2', '2_4', '3_8'):
        return allq
    if g == '3_6':
        return [e for e in allq if sum(e[:2]) <= o]
    return [e for e in allq if sum(e) <= o]

class Poly:
    """Shifted Legendre products: values and exact derivatives."""

    def __init__(self, es, n):
        self.es = np.array(es)
        self.n = n

    def vander(self, X, der):
        from numpy.polynomial import legendre as L
        d = X.shape[1]
        out = np.ones((len(X), len(self.es)))
        for k in range(d):
            tab = np.empty((len(X), self.n + 1))
            for i in range(self.n + 1):
                c = np.zeros(i + 1)
                c[i] = 1
                if der[k]:
                    c = L.legder(c, der[k]) * 2.0**der[k]
                tab[:, i] = L.legval(2 * X[:, k] - 1, c)
            out *= tab[:, self.es[:, k]]
        return out

def run_space(mon, case):
    rng = gen.rngof(case)
    b, g, o, bub = case['basis'], case['geom'], case['order'], case['bubble']
    d = int(g[0])
    tag = '%s %s order %d%s' % (b, g, o, ' bubble' if bub else '')
    ps = space(case, bub)
    es = exponents(b, g, o)
    if b == 'legendre' and g == '3_8' and ps.n_nod != len(es):
        # Order is the total one if the basis is not the extended one.
        es = [e for e in es if sum(e) <= o]
    deg = max(o, 1)
    if bub:
        k = d + 1
        es = [e for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= max(k, o)]
        deg = max(k, o)
    P = Poly(es, deg)
    n = 2 * len(es) + 10
    X = points(rng, g, n)
    Y = points(rng, g, 40)
    val = ps.eval_basis(X)
    if val.ndim == 4 and val.shape[0] == 1:
        val = val[0]
    mon.ok('shape', val.shape == (n, 1, ps.n_nod), '%s: shape %s' % (tag, val.shape))
    val = val[:, 0, :]
    mon.ok('space', np.isfinite(val).all(), tag + ': non-finite values')
    V = P.vander(X, (0,) * d)
    C, res, rank, sv = np.linalg.lstsq(V, val, rcond=None)
    scale = max(np.abs(val).max(), 1.0)
    tol = 1e-10 * scale * (1 + o)**2
    mon.ok('space', np.abs(V @ C - val).max() < tol, '%s: functions are not in the polynomial'
           ' space, residual %g' % (tag, np.abs(V @ C - val).max()), n=val.size)
    # Out-of-sample: the functions are polynomials, not only at the samples.
    vy = ps.eval_basis(Y).reshape(40, ps.n_nod)
    mon.close('space', vy, P.vander(Y, (0,) * d) @ C, atol=tol * 10, msg=tag)
    if not bub:
        mon.ok('rank', ps.n_nod == len(es), '%s: number of functions %d, dimension of the space'
               ' %d' % (tag, ps.n_nod, len(es)))
    s = np.linalg.svd(C, compute_uv=False)
    mon.ok('rank', s[-1] > 1e-9 * s[0] and C.shape[1] <= C.shape[0],
           '%s: linearly dependent functions' % tag)
    mon.sig(b, g, o, bub)
    # Gradients.
    gr = np.asarray(ps.eval_basis(Y, diff=1))
    if gr.ndim == 4 and gr.shape[0] == 1:
        gr = gr[0]
    mon.ok('shape', gr.shape == (40, d, ps.n_nod), '%s: gradient shape %s' % (tag, gr.shape))
    for k in range(d):
        e = [0] * d
        e[k] = 1
        ref = P.vander(Y, e) @ C
        mon.close('gradient', gr[:, k], ref, atol=1e-8 * max(np.abs(ref).max(), 1.0) * (1 + o),
                  msg='%s: d/dx_%d' % (tag, k), points=Y)
    # At the vertices and centroids of the cell (special points).
    S = np.vstack([VERT[g], np.mean(VERT[g], axis=0)]).astype(float)
    gs = np.asarray(ps.eval_basis(S, diff=1)).reshape(len(S), d, ps.n_nod)
    vs = np.asarray(ps.eval_basis(S)).reshape(len(S), ps.n_nod)
    mon.close('boundary_points', vs, P.vander(S, (0,) * d) @ C, atol=tol * 10, msg=tag)
    for k in range(d):
        e = [0] * d
        e[k] = 1
        ref = P.vander(S, e) @ C
        mon.close('boundary_points', gs[:, k], ref,
                  atol=1e-8 * max(np.abs(ref).max(), 1.0) * (1 + o),
                  msg='%s: gradient at vertices' % tag)
    if b == 'lagrange' and g != '3_6' and not bub:
        for Z in (Y[:6], S):
            h = ps.eval_basis(Z, diff=2)
            mon.ok('shape', h.shape == (len(Z), d, d, ps.n_nod), '%s: hessian shape %s'
                   % (tag, h.shape))
            for i in range(d):
                for j in range(d):
                    e = [0] * d
                    e[i] += 1
                    e[j] += 1
                    ref = P.vander(Z, e) @ C
                    mon.close('hessian', h[:, i, j], ref,
                              atol=1e-7 * max(np.abs(ref).max(), 1.0) * (1 + o)**2,
                              msg='%s: d2/dx_%d dx_%d' % (tag, i, j))
    # Unity.
    if b in ('lagrange', 'serendipity', 'bernstein', 'sem'):
        m = vs.shape[1]
        both = np.vstack([vy, vs])[:, :m]
        mon.ok('unity', np.abs(both.sum(1) - 1).max() < 1e-10 * (1 + np.abs(both).sum(1).max()),
               '%s: sum of the functions' % tag, n=len(both))
        gg = gr[..., :m]
        mon.ok('unity', np.abs(gg.sum(-1)).max() < 1e-10 * (1 + np.abs(gg).sum(-1).max()) * (1 + o)**2,
               '%s: sum of the gradients' % tag, n=len(gr))
    if b == 'lobatto':
        nv = len(VERT[g])
        mon.ok('unity', np.abs(vy[:, :nv].sum(1) - 1).max() < 1e-12, '%s: vertex functions' % tag)
    if b == 'bernstein':
        mon.ok('positive', vy.min() > -1e-14, tag, n=vy.size)
    # Nodality.
    nc = getattr(ps, 'node_coors', None)
    if b in ('lagrange', 'sem', 'serendipity') and nc is not None:
        nc = np.asarray(nc, dtype=float)
        mon.ok('nodes', nc.shape == (ps.n_nod, d), '%s: node coordinates %s' % (tag, nc.shape))
        m = ps.n_nod - (1 if bub else 0)
        vn = np.asarray(ps.eval_basis(np.ascontiguousarray(nc[:m]))).reshape(m, ps.n_nod)
        mon.close('nodal', vn[:, :m], np.eye(m), atol=1e-11, msg='%s: values at nodes' % tag)
        mon.ok('nodes', len(np.unique(np.round(nc, 9), axis=0)) == ps.n_nod,
               tag + ': repeated nodes')
        if bub:
            mon.ok('nodal', np.abs(vn[:, m]).max() < 1e-12, tag + ': bubble at the nodes')
    if b in ('lobatto', 'bernstein', 'lagrange', 'serendipity', 'sem') and o > 0 and (g != '3_6' or o == 1):
        nv = len(VERT[g])
        vv = vs[:nv, :nv]
        mon.close('nodal', vv, np.eye(nv), atol=1e-12, msg='%s: vertex functions at vertices' % tag)
        mon.ok('nodal', np.abs(vs[:nv, nv:]).max() < 1e-12 if ps.n_nod > nv else True,
               '%s: other functions at vertices' % tag)
    # Node kinds and vanishing on foreign facets.
    if b != 'legendre' and o > 0:
        facet_structure(mon, rng, ps, b, g, o, tag, bub)
    if b == 'legendre':
        orthogonality(mon, ps, g, o, tag)
    if b == 'sem':
        w = ps.node_weights
        import math
        # Quadrature exact to degree 2 o - 1 in each direction.
        for e in itertools.product(range(2 * o), repeat=d):
            if rng.rand() > 30. / (2 * o)**d:
                continue
            q = np.prod(ps.node_coors**np.array(e), axis=1) @ w
            mon.close('sem_mass', q, np.prod([1. / (k + 1) for k in e]), atol=1e-11, rtol=0,
                      msg='%s: nodal quadrature of %s' % (tag, e))
    if b == 'lobatto' and g == '1_2' and o > 1:
        x, w = np.polynomial.legendre.leggauss(o + 2)
        x, w = (x[:, None] + 1) / 2, w / 2
        dd = np.asarray(ps.eval_basis(x, diff=1)).reshape(len(x), -1)
        K = (dd * w[:, None]).T @ dd
        off = K - np.diag(np.diag(K))
        off[:2, :2] = 0
        mon.ok('orthogonal', np.abs(off).max() < 1e-10 * np.abs(K).max(),
               '%s: H1 orthogonality of kernel functions' % tag, n=K.size)

def facet_structure(mon, rng, ps, b, g, o, tag, bub):
    from .. import ref_topo
    d = int(g[0])
    VX = np.array(VERT[g], dtype=float)
    nts = np.asarray(ps.nts)
    ge = geometry(g)
    faces = ref_topo.FACES.get(g) if d == 3 else (ref_topo.EDGES[g] if d == 2 else [(0,), (1,)])
    # The entity of every function from the nodes in the barycentric sense:
    # a function must vanish on the facets not containing its entity.
    ents = []
    for t, i in nts:
        if t == 0:
            ents.append({int(i)})
        elif t == 1:
            ents.append(set(int(v) for v in ge.edges[i]) if d > 1 else {0, 1})
        elif t == 2 and d == 3:
            ents.append(set(int(v) for v in np.atleast_1d(ge.faces[i])))
        else:
            ents.append(set(range(len(VX))))
    if g == '3_6' and o > 1:
        # Not offered by fields.
        return
    if not mon.ok('nodes', len(ents) == ps.n_nod, '%s: node description has %d rows, %d functions'
                  % (tag, len(ents), ps.n_nod)):
        return
    cnt = {}
    for e in ents:
        cnt[frozenset(e)] = cnt.get(frozenset(e), 0) + 1
    for f in faces:
        fv = VX[list(f)]
        w = rng.dirichlet(np.ones(len(f)), 12) if len(f) > 1 else np.ones((1, 1))
        Z = np.ascontiguousarray(w @ fv)
        v = np.asarray(ps.eval_basis(Z)).reshape(len(Z), -1)
        fs = set(f)
        for i, e in enumerate(ents):
            if not e <= fs:
                mon.ok('facet_zero', np.abs(v[:, i]).max() < 1e-11,
                       '%s: function %d (entity %s) on facet %s: %g'
                       % (tag, i, sorted(e), sorted(fs), np.abs(v[:, i]).max()))
        # ... and those of the facet form its trace space.
        own = [i for i, e in enumerate(ents) if e <= fs]
        big = np.ascontiguousarray(rng.dirichlet(np.ones(len(f)), 6 * len(own) + 8) @ fv)
        tr = np.asarray(ps.eval_basis(big)).reshape(len(big), -1)[:, own]
        mon.ok('facet_zero', np.linalg.matrix_rank(tr, tol=1e-9 * max(np.abs(tr).max(), 1e-30)) == len(own)
               or o > 5, '%s: dependent traces on facet %s' % (tag, sorted(fs)))
    # Nodes lie on their entities.
    nc = np.asarray(getattr(ps, 'node_coors'), dtype=float)
    for i, e in enumerate(ents):
        E = VX[sorted(e)]
        lo, hi = E.min(0), E.max(0)
        mon.ok('nodes', (nc[i] >= lo - 1e-12).all() and (nc[i] <= hi + 1e-12).all(),
               '%s: node %d at %s is not on its entity %s' % (tag, i, nc[i], sorted(e)))

def orthogonality(mon, ps, g, o, tag):
    d = int(g[0])
    x, w = np.polynomial.legendre.leggauss(o + 2)
    x, w = (x + 1) / 2, w / 2
    G = np.array(list(itertools.product(x, repeat=d)))
    W = np.array([np.prod(t) for t in itertools.product(w, repeat=d)])
    if g == '2_3':
        W = W * (1 - G[:, 0])
        G = np.c_[G[:, 0], G[:, 1] * (1 - G[:, 0])]
    v = np.asarray(ps.eval_basis(np.ascontiguousarray(G))).reshape(len(G), -1)
    M = (v * W[:, None]).T @ v
    dg = np.sqrt(np.diag(M))
    off = M / np.outer(dg, dg) - np.eye(len(M))
    mon.ok('orthogonal', np.abs(off).max() < 1e-10, '%s: L2 orthogonality %g' % (tag, np.abs(off).max()),
           n=M.size)
    mon.ok('orthogonal', np.abs(v[:, 0] - 1).max() < 1e-13, '%s: first function is not one' % tag)

def run_routes(mon, case):
    rng = gen.rngof(case)
    b, g, o = case['basis'], case['geom'], case['order']
    d = int(g[0])
    tag = '%s %s order %d' % (b, g, o)
    ps = space(case)
    n = int(rng.randint(2, 12))
    X = points(rng, g, n)
    r = [np.asarray(ps.eval_basis(X, diff=k)).reshape(n, -1) for k in (0, 1)]
    Xc = X.copy()
    diffs = [0, 1]
    if b == 'lagrange' and g != '3_6':
        diffs.append(2)
        r.append(ps.eval_basis(X, diff=2).reshape(n, -1))
    for k in diffs:
        kw = dict(atol=1e-13, rtol=1e-12)
        # Points one by one, in another order, with repetitions.
        q = np.vstack([np.asarray(ps.eval_basis(X[i:i + 1].copy(), diff=k)).reshape(1, -1) for i in range(n)])
        mon.close('batch', q, r[k], msg='%s: point by point, diff %d' % (tag, k), **kw)
        p = rng.randint(0, n, 2 * n)
        q = np.asarray(ps.eval_basis(X[p], diff=k)).reshape(2 * n, -1)
        mon.close('batch', q, r[k][p], msg='%s: permuted, diff %d' % (tag, k), **kw)
        q = np.asarray(ps.eval_basis(X.tolist(), diff=k)).reshape(n, -1)
        mon.close('batch', q, r[k], msg='%s: list input, diff %d' % (tag, k), **kw)
        if b != 'legendre' and k < 2:
            # Several point sets.
            X3 = np.stack([X, X[::-1], X[rng.permutation(n)]])
            q = ps.eval_basis(X3, diff=k)
            mon.ok('point_sets', q.shape == (3, n, d if k else 1, ps.n_nod), '%s %s' % (tag, q.shape))
            for i in range(3):
                ref = np.asarray(ps.eval_basis(X3[i].copy(), diff=k)).reshape(n, -1)
                mon.close('point_sets', q[i].reshape(n, -1), ref, msg=tag, **kw)
            q = ps.eval_basis(X, diff=k, force_axis=True)
            mon.ok('point_sets', q.ndim == 4 and q.shape[0] == 1, tag)
            mon.close('point_sets', q.reshape(n, -1), r[k], msg=tag, **kw)
            T = rng.randn(4, ps.n_nod, ps.n_nod)
            q = ps.eval_basis(X, diff=k, transform=T)
            base = r[k].reshape(n, -1, ps.n_nod)
            mon.close('transform', q, np.einsum('cij,qdj->cqdi', T, base), atol=1e-11,
                      rtol=1e-11, msg=tag)
    mon.equal('batch', X, Xc, tag + ': points changed')
    # A copy, another instance in between, after derivative evaluations.
    ps2 = pickle.loads(pickle.dumps(ps)) if b != 'serendipity' else space(case)
    other = space(dict(case, order=max(o - 1, 1)))
    other.eval_basis(X)
    for k in diffs:
        q = np.asarray(ps2.eval_basis(X, diff=k)).reshape(n, -1)
        mon.close('copy', q, r[k], atol=1e-13, rtol=1e-12, msg=tag)
        q = np.asarray(ps.eval_basis(X, diff=k)).reshape(n, -1)
        mon.close('batch', q, r[k], atol=0, rtol=1e-15, msg=tag + ': second evaluation')

def run_lobatto_ori(mon, case):
    """With per cell orientations: odd edge functions change the sign, face
    functions are the ones of the flipped/swapped axes."""
    case = dict(case, basis='lobatto')
    rng = gen.rngof(case)
    ps = space(case)
    g, o = case['geom'], case['order']
    d = int(g[0])
    n = 7
    X = points(rng, g, n)
    n_cell = 9
    ori = np.zeros((n_cell, ps.n_nod), dtype=np.int32)
    nts = np.asarray(ps.nts)
    ne = np.nonzero(nts[:, 0] == 1)[0]
    ori[:, ne] = rng.randint(0, 2, (n_cell, len(ne)))
    for k in (0, 1):
        b0 = np.asarray(ps.eval_basis(X, diff=k))
        b = ps.eval_basis(X, diff=k, ori=ori)
        ref = np.where(ori[:, None, None, :] == 1, -b0[None], b0[None])
        mon.close('lobatto_ori', b, ref, atol=1e-14, msg='%s order %d' % (g, o))
        b1 = np.asarray(ps.eval_basis(X, diff=k))
        mon.close('lobatto_ori', b1, b0, atol=0, msg='changed by an oriented evaluation')

def run_outside(mon, case):
    from sfepy.discrete import PolySpace
    rng = gen.rngof(case)
    g = case['geom']
    d = int(g[0])
    for o in (1, 2, 3):
        ps = PolySpace.any_from_args(None, geometry(g), o)
        X = points(rng, g, 5)
        # Extrapolation is the polynomial (no clipping) when errors are suppressed.
        far = X + 0.5 * np.sign(X - 0.4)
        v = ps.eval_basis(np.ascontiguousarray(far), suppress_errors=True).reshape(5, -1)
        es = exponents('lagrange', g, o)
        P = Poly(es, o)
        Z = points(rng, g, 3 * len(es))
        C = np.linalg.lstsq(P.vander(Z, (0,) * d), ps.eval_basis(Z).reshape(len(Z), -1),
                            rcond=None)[0]
        mon.close('outside', v, P.vander(far, (0,) * d) @ C, atol=1e-8, rtol=1e-8,
                  msg='extrapolated values')
    bad = np.full((1, d), 1.7)
    mon.raises('outside', Exception, ps.eval_basis, bad, msg='point outside of the cell')

def run_scheme(mon, case):
    """The gmsh interpolation scheme matrices describe the basis."""
    case = dict(case, basis='legendre')
    rng = gen.rngof(case)
    g = case['geom']
    ps = space(case)
    s = ps.get_interpol_scheme()
    if s is None or s.F is None:
        mon.event('interpol_scheme')
        return
    X = points(rng, g, 20)
    v = np.asarray(ps.eval_basis(X)).reshape(20, -1)
    # gmsh reference coordinates: [-1, 1] for quads, [0, 1] for triangles.
    U = 2 * X - 1 if g == '2_4' else X
    F, P = np.asarray(s.F), np.asarray(s.P)
    mon.close('interpol_scheme', (np.prod(U[:, None, :]**P[None, :, :2], axis=2) @ F.T), v,
              atol=1e-9, msg='%s order %d' % (g, case['order']))
