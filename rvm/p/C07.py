"""
C07: global fields.

Monitor: fields created by the real code over randomly numbered, arbitrarily
oriented meshes and cell subsets are observed through the values and gradients
of field variables at chosen reference points of every cell.  Oracle: values on
a facet shared by two cells agree (points matched geometrically with an own
isoparametric map), the number of degrees of freedom is the one of the
continuous piecewise space and every one of them is independent (rank), the
space contains all polynomials up to the order (least squares and set_dofs()),
facet values and degrees of freedom in a region are those of the traces, and
discontinuous families keep cells apart; the same on locally refined meshes.
"""
import numpy as np
from .. import gen
from .. import ref_fe as fe
from ..ref_topo import EDGES

REQUIRED = ['conform', 'count', 'rank', 'contains', 'set_dofs', 'gradient',
            'facet_value', 'dofs_in_region', 'vanish', 'discontinuous',
            'hanging_conform', 'hanging_contains', 'subregion']
ASSUMPTIONS = ['fields over one cell kind (the only ones the code offers)',
               'polynomials of total degree up to the order on affine cells and'
               ' of tensor degree in reference coordinates on parallelogram cells']

SP = {  # mesh kind: (basis, orders)
    '1_2': [('lagrange', (1, 2, 3, 4, 6)), ('lobatto', (1, 2, 4)), ('bernstein', (1, 2, 3))],
    '2_3': [('lagrange', (1, 2, 3, 4, 5)), ('bernstein', (1, 2, 3))],
    '2_4': [('lagrange', (1, 2, 3, 4, 5)), ('lobatto', (1, 2, 3, 4, 5)),
            ('bernstein', (1, 2, 3)), ('serendipity', (1, 2, 3)), ('sem', (1, 2, 3, 4))],
    '3_4': [('lagrange', (1, 2, 3, 4)), ('bernstein', (1, 2, 3))],
    '3_8': [('lagrange', (1, 2, 3, 4)), ('lobatto', (1, 2, 3, 4)),
            ('bernstein', (1, 2)), ('serendipity', (1, 2, 3)), ('sem', (1, 2, 3))],
    '3_6': [('lagrange', (1,))],
}

def cases(rng, tier):
    out = []
    n = 8 if tier == 'quick' else 60
    for i in range(n):
        for k, bs in SP.items():
            for b, os in bs:
                for o in os:
                    out.append(dict(kind='field', mesh=k, basis=b, order=o,
                                    sub=(i % 2 == 1), cost=1 + o * (3 if k[0] == '3' else 1)))
        for k in ('1_2', '2_3', '2_4', '3_4', '3_8'):
            out.append(dict(kind='disc', mesh=k, order=int(rng.randint(1, 4 if k[0] != '3' else 3))))
            out.append(dict(kind='const', mesh=k))
        for k in ('2_4', '3_8'):
            for o in ((1, 2, 3) if k == '2_4' else (1, 2)):
                out.append(dict(kind='hanging', mesh=k, order=o,
                                cost=6 if k == '3_8' else 2, levels=1 + (i % 2)))
    return out

def n_dofs(g, basis, k, T):
    """T: (n_vertex, n_edge, n_face, n_cell) of the region."""
    nv, ne, nf, nc = T
    if basis == 'serendipity':
        e = k - 1
        return nv + e * ne     # orders 1 to 3 have no interior nodes
    if g == '1_2':
        return nv + (k - 1) * nc
    if g in ('2_3', '3_4'):
        tri = (k - 1) * (k - 2) // 2
        if g == '2_3':
            return nv + (k - 1) * ne + tri * nc
        return nv + (k - 1) * ne + tri * nf + (k - 1) * (k - 2) * (k - 3) // 6 * nc
    if g == '3_6':
        return nv
    q = (k - 1)**2
    if g == '2_4':
        return nv + (k - 1) * ne + q * nc
    return nv + (k - 1) * ne + q * nf + (k - 1)**3 * nc

class View:
    """Observes field functions at reference points of the cells."""

    def __init__(self, field, region, xi, name='u'):
        from sfepy.discrete import FieldVariable, Integral
        self.field = field
        self.region = region
        self.integral = Integral('i', coors=np.ascontiguousarray(xi),
                                 weights=np.ones(len(xi)), order=1)
        self.var = FieldVariable(name, 'parameter', field, primary_var_name='(set-to-None)')

    def val(self, dofs):
        self.var.set_data(np.ascontiguousarray(dofs))
        r = self.var.evaluate(mode='val', integral=self.integral, integration='cell',
                              region=self.region)
        return np.asarray(r)[..., 0].copy()

    def grad(self, dofs):
        self.var.set_data(np.ascontiguousarray(dofs))
        r = self.var.evaluate(mode='grad', integral=self.integral, integration='cell',
                              region=self.region)
        return np.asarray(r)[..., 0].copy()

def facet_points(rng, g, n):
    """Reference points on all facets of a cell: list of (n, d)."""
    out = []
    for loc in fe.facets(g):
        V = fe.VERT[g][list(loc)]
        if len(loc) == 1:
            out.append(V)
            continue
        if len(loc) == 4:
            s, t = rng.rand(2, n, 1)
            P = (1 - s) * (1 - t) * V[0] + s * (1 - t) * V[1] + s * t * V[2] + (1 - s) * t * V[3]
        else:
            w = rng.dirichlet(np.ones(len(loc)), n)
            P = w @ V
        out.append(P)
    return out

def facet_key(conn_c, loc):
    return frozenset(int(conn_c[i]) for i in loc)

def pull(g, E, Y):
    """Reference coordinates of physical points of one cell (affine or not)."""
    xi = np.tile(fe.VERT[g].mean(0), (len(Y), 1))
    for _ in range(40):
        N, G = fe.shape(g, xi)
        r = N @ E - Y
        J = np.einsum('qin,nd->qdi', G, E)
        d = np.linalg.solve(J, r[..., None])[..., 0]
        xi = xi - d
        if np.abs(d).max() < 1e-14:
            break
    xi = np.clip(xi, 0, 1)
    if g in ('2_3', '3_4'):
        s = xi.sum(1)
        xi[s > 1 - 1e-15] /= (s[s > 1 - 1e-15] + 1e-15)[:, None]
    return xi

def matched_points(rng, g, X, conn, n):
    """
    Points on interior facets seen from the cells on both sides.
    Returns xi (all distinct reference points), list of (c1, i1, c2, i2).
    """
    where = {}
    for c, cc in enumerate(conn):
        for l, loc in enumerate(fe.facets(g)):
            where.setdefault(facet_key(cc, loc), []).append((c, l))
    fp = facet_points(rng, g, n)
    xi, pairs = [], []
    for key, w in where.items():
        if len(w) != 2:
            continue
        (c1, l1), (c2, l2) = w
        P1 = fp[l1]
        Y = fe.shape(g, P1)[0] @ X[conn[c1]]
        P2 = pull(g, X[conn[c2]], Y)
        i0 = len(xi)
        xi.extend(P1)
        xi.extend(P2)
        for k in range(len(P1)):
            pairs.append((c1, i0 + k, c2, i0 + len(P1) + k))
    return np.array(xi), pairs

def entity_counts(g, conn):
    from ..ref_topo import Topo
    v = len(np.unique(conn))
    e = set()
    if g != '1_2':
        for c in conn:
            for a, b in EDGES[g]:
                e.add(frozenset((int(c[a]), int(c[b]))))
    f = set()
    if g[0] == '3':
        for c in conn:
            for loc in fe.facets(g):
                f.add(facet_key(c, loc))
    return v, len(e), len(f), len(conn)

def interior(rng, g, n):
    if g in ('2_3', '3_4'):
        return rng.dirichlet(np.ones(int(g[0]) + 1), n)[:, 1:]
    P = rng.rand(n, int(g[0]))
    if g == '3_6':
        P[:, :2] = rng.dirichlet(np.ones(3), n)[:, 1:]
    return P

def check_space(mon, rng, g, X, conn, field, region, order, pre='', tol=1e-9, tensor=False):
    """Conformity, rank, polynomial content; X, conn: the region cells."""
    nn = field.n_nod
    big = nn * len(conn) > 300000
    xi, pairs = matched_points(rng, g, X, conn, 2 if g[0] != '3' else 3)
    if len(pairs):
        V = View(field, region, xi)
        for t in range(2):
            d = rng.randn(nn)
            v = V.val(d)[..., 0]
            a = np.array([v[c1, i1] for c1, i1, c2, i2 in pairs])
            b = np.array([v[c2, i2] for c1, i1, c2, i2 in pairs])
            mon.close(pre + 'conform', a, b, rtol=tol, scale=np.abs(v).max(),
                      msg='values from the two sides of a facet')
        mon.event('facet_pairs', len(pairs))
    # Rank and polynomial content.
    xi = interior(rng, g, max(len(field.poly_space.nodes) if hasattr(field.poly_space, 'nodes')
                              else 0, field.econn.shape[1]) + 3)
    V = View(field, region, xi)
    Y = np.einsum('qn,cnd->cqd', fe.shape(g, xi)[0], X[conn])
    if not big and nn < 700:
        B = np.stack([V.val(e).ravel() for e in np.eye(nn)], -1)
        s = np.linalg.svd(B, compute_uv=False)
        mon.ok(pre + 'rank', s[-1] > 1e-9 * s[0], 'rank of the space: smallest/largest'
               ' singular value %.2e' % (s[-1] / s[0]), n=nn)
    else:
        B = None
        mon.event(pre + 'rank_skipped')
    h = np.ptp(X, axis=0).max()
    P = fe.PolyF(rng, X.shape[1], order, X.mean(0), h)
    G = None
    if B is not None:
        y = P(Y)
        d, *_ = np.linalg.lstsq(B, y.ravel(), rcond=None)
        mon.close(pre + 'contains', V.val(d)[..., 0], y, rtol=1e-8,
                  msg='polynomial of degree %d' % order)
        mon.close(pre + 'gradient', V.grad(d), P.grad(Y), rtol=1e-6, msg='gradient')
    return V, Y, P

def run_field(mon, case):
    from sfepy.discrete import fem, Integral, FieldVariable
    rng = gen.rngof(case)
    g, basis, order = case['mesh'], case['basis'], case['order']
    size = {1: 5, 2: 3, 3: 2}[int(g[0])]
    if g[0] == '3' and order <= 2 and rng.rand() < 0.3:
        size = [3, 2, 2]
    if g == '3_8' and not np.iterable(size):
        size = [[3, 2, 2], [2, 3, 2], [2, 2, 3]][rng.randint(3)]
    raw = gen.raw_mesh(rng, g, size=size, jitter=0.25 if g in ('2_3', '3_4', '1_2') else 0.0)
    X = raw['coors']
    dim = X.shape[1]
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    reg = om
    if case['sub']:
        m = rng.randint(1, len(conn) + 1)
        sel = np.sort(rng.permutation(len(conn))[:m])
        reg = dom.create_region('Sub', 'cell ' + ', '.join(map(str, sel)))
        conn = conn[sel]
        mon.event('subregion')
    f = fem.Field.from_args('f', np.float64, 'scalar', reg, approx_order=order,
                            poly_space_basis=basis)
    mon.sig(g, basis, order, case['sub'])
    mon.event('count')
    T = entity_counts(g, conn)
    nexp = n_dofs(g, basis, order, T)
    mon.ok('count', f.n_nod == nexp, 'number of DOFs %d, expected %d for %s order %d,'
           ' entities %s' % (f.n_nod, nexp, basis, order, T))
    econn = np.asarray(f.econn)
    mon.ok('count', sorted(np.unique(econn)) == list(range(f.n_nod)),
           'the DOF connectivity does not use exactly 0..n-1')
    # Non-serendipity spaces contain P_k, in the affine case.
    kk = order
    V, Y, P = check_space(mon, rng, g, X, conn, f, reg, kk)
    # set_dofs().
    u = FieldVariable('u', 'unknown', f)
    if basis == 'lobatto':
        # Documented: functions are set in the vertices only.
        P = fe.PolyF(rng, dim, 1, X.mean(0), np.ptp(X, axis=0).max())
    if basis != 'bernstein':
        nods, vals = f.set_dofs(P, reg)
        d = np.zeros(f.n_nod)
        vals = np.asarray(vals)
        d[np.asarray(nods).ravel()] = vals.ravel()
        mon.close('set_dofs', V.val(d)[..., 0], P(Y), rtol=1e-8, msg='set_dofs() of a polynomial')
        mon.close('gradient', V.grad(d), P.grad(Y), rtol=1e-6, msg='gradient by set_dofs()')
    vector_dofs(mon, rng, reg, g, basis, order, xi_of(V), Y, X)
    # Traces.
    if not len(dom.cmesh.get_surface_facets()):
        return
    gname = 'vertices of surface'
    gam = dom.create_region('Gamma', gname, 'facet',
                            parent='Sub' if case['sub'] else None) \
        if not case['sub'] else None
    if gam is None:
        # A part of the boundary of the subregion lying on the surface.
        gam0 = dom.create_region('Gamma0', gname, 'facet')
        try:
            gam = dom.create_region('Gamma', 'r.Gamma0 *s r.Sub', 'facet', parent='Sub')
        except ValueError:
            mon.event('no_trace')
            return
    else:
        import itertools
        if rng.rand() < 0.5:
            from .C06 import facets_region
            sf = np.asarray(dom.cmesh.get_surface_facets())
            sel = np.sort(rng.permutation(sf)[:rng.randint(1, len(sf) + 1)])
            gam = facets_region(dom, sel, 'Gamma2')
            dom.regions.append(gam)
    fis = np.asarray(gam.get_facet_indices())
    nods = np.asarray(f.get_dofs_in_region(gam, merge=True)).ravel()
    mon.ok('dofs_in_region', len(np.unique(nods)) == len(nods), 'repeated DOFs')
    # Facet entity counts -> number of DOFs.
    ac = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    vs, es, fs = set(), set(), set()
    for c, l in fis:
        loc = fe.facets(g)[l]
        vs |= {int(ac[c][i]) for i in loc}
        if len(loc) > 1:
            for i in range(len(loc)):
                if len(loc) == 2 and i == 1:
                    break
                es.add(frozenset((int(ac[c][loc[i]]), int(ac[c][loc[(i + 1) % len(loc)]]))))
        fs.add(facet_key(ac[c], loc))
    if basis == 'serendipity' or dim == 1:
        ne = len(vs) + (order - 1) * len(es) * (dim > 1)
    else:
        nf = {3: (order - 1) * (order - 2) // 2, 4: (order - 1)**2}
        ne = len(vs) + (order - 1) * len(es)
        if dim == 3 and g != '3_6':
            ne += sum(nf[len(k)] for k in fs)
    # All boundary edges with both vertices in a region also belong to it
    # (documented derivation of edges), so this is a lower bound in 3D.
    if dim < 3:
        mon.ok('dofs_in_region', len(nods) == ne, 'number of DOFs %d in the facets,'
               ' expected %d' % (len(nods), ne))
    else:
        mon.ok('dofs_in_region', len(nods) >= ne, 'number of DOFs %d in the facets,'
               ' expected %d' % (len(nods), ne))
    # DOFs not in the region vanish there; the others have a nonzero trace.
    other = np.setdiff1d(np.arange(f.n_nod), nods)
    fp = facet_points(rng, g, field_points(f))
    xi = np.vstack(fp)
    off = np.r_[0, np.cumsum([len(p) for p in fp])]
    Vf = View(f, reg, xi)
    cells = {int(c): i for i, c in enumerate(np.asarray(reg.cells))}
    d = np.zeros(f.n_nod)
    d[other] = rng.randn(len(other))
    v = Vf.val(d)[..., 0]
    sc = max(np.abs(v).max(), 1.0)
    tr = np.concatenate([v[cells[int(c)], off[l]:off[l + 1]] for c, l in fis])
    mon.close('vanish', tr, np.zeros(len(tr)), atol=1e-9 * sc,
              msg='functions of DOFs outside of a facet region on the facets')
    if f.n_nod < 400:
        A = []
        for i in nods:
            e = np.zeros(f.n_nod)
            e[i] = 1
            v = Vf.val(e)[..., 0]
            A.append(np.concatenate([v[cells[int(c)], off[l]:off[l + 1]] for c, l in fis]))
        A = np.array(A)
        if dim < 3:
            s = np.linalg.svd(A, compute_uv=False)
            mon.ok('vanish', s[-1] > 1e-8 * s[0], 'the traces of the DOFs in the facets'
                   ' are not independent')
    # Setting DOFs in a facet region (nodally or by projections).
    ok = f.ori is None and not (basis == 'bernstein' and dim == 1)
    if ok:
        nods2, vals = f.set_dofs(P, gam)
        mon.equal('set_dofs', set(np.asarray(nods2).tolist()), set(nods.tolist()))
        d = rng.randn(f.n_nod)
        d[np.asarray(nods2).ravel()] = np.asarray(vals).ravel()
        v = Vf.val(d)[..., 0]
        Yf = np.einsum('qn,cnd->cqd', fe.shape(g, xi)[0], X[conn])
        tr = np.concatenate([v[cells[int(c)], off[l]:off[l + 1]] for c, l in fis])
        Yf = np.concatenate([Yf[cells[int(c)], off[l]:off[l + 1]] for c, l in fis])
        mon.close('set_dofs', tr, P(Yf), rtol=1e-8, msg='set_dofs() in facets')
    # Values on facets.
    if basis == 'bernstein':
        mon.event('facet_value')
    elif f.ori is None and not (g == '3_6') and not case['sub']:
        from sfepy.discrete.common.mappings import get_physical_qps
        from .C06 import setup_surface
        setup_surface(f, gam)
        integral = Integral('ifac', order=int(rng.randint(1, 5)))
        d = rng.randn(f.n_nod) * 0
        nn_, vv_ = f.set_dofs(P, reg)
        d[np.asarray(nn_).ravel()] = np.asarray(vv_).ravel()
        uu = FieldVariable('uu', 'parameter', f, primary_var_name='(set-to-None)')
        uu.set_data(d)
        r = np.asarray(uu.evaluate(mode='val', integral=integral, integration='facet', region=gam))
        q = get_physical_qps(gam, integral, 's')
        mon.close('facet_value', r[..., 0, 0], P(q.values.reshape(q.shape)), rtol=1e-8,
                  msg='values on facets')
        if dim > 1:
            r = np.asarray(uu.evaluate(mode='grad', integral=integral,
                                       integration='facet_extra', region=gam))
            mon.close('facet_value', r[..., 0],
                      P.grad(q.values.reshape(q.shape)), rtol=1e-6, msg='gradients on facets')
    else:
        mon.event('facet_value')

def xi_of(V):
    return V.integral.get_qp('any')[0]

def vector_dofs(mon, rng, reg, g, basis, order, xi, Y, X):
    """Setting DOFs of fields with several components."""
    from sfepy.discrete import fem
    if basis == 'bernstein':
        return
    nc = int(rng.randint(2, 4))
    f = fem.Field.from_args('fv', np.float64, (nc,), reg, approx_order=order,
                            poly_space_basis=basis)
    k = 1 if basis == 'lobatto' else order
    Ps = [fe.PolyF(rng, X.shape[1], k, X.mean(0), np.ptp(X, axis=0).max()) for _ in range(nc)]
    V = View(f, reg, xi, name='uv')
    for fun, ex in ((lambda x: np.stack([P(x) for P in Ps], -1), np.stack([P(Y) for P in Ps], -1)),
                    (np.arange(1.0, nc + 1), np.broadcast_to(np.arange(1.0, nc + 1), Y.shape[:2] + (nc,))),
                    (2.5, np.full(Y.shape[:2] + (nc,), 2.5))):
        if isinstance(fun, np.ndarray) and basis == 'lobatto':
            continue    # not offered
        nods, vals = f.set_dofs(fun, reg)
        d = np.zeros((f.n_nod, nc))
        d[np.asarray(nods).ravel()] = np.asarray(vals).reshape(-1, nc)
        mon.close('set_dofs', V.val(d.ravel()), ex, rtol=1e-8, msg='set_dofs(), %d components' % nc)

def field_points(f):
    return int(f.approx_order) + 4 if f.region.domain.shape.tdim < 3 else \
        (int(f.approx_order) + 1)**2 + 3

def run_disc(mon, case):
    from sfepy.discrete import fem
    rng = gen.rngof(case)
    g, order = case['mesh'], case['order']
    raw = gen.raw_mesh(rng, g, size=2 if g[0] == '3' else 3, jitter=0.0)
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    X = raw['coors']
    f = fem.Field.from_args('f', np.float64, 'scalar', om, approx_order='%dd' % order)
    mon.sig('disc', g, order)
    nep = f.econn.shape[1]
    mon.ok('discontinuous', f.n_nod == nep * len(conn), 'DOFs %d, cells %d' % (f.n_nod, len(conn)))
    xi = interior(rng, g, nep + 2)
    V = View(f, om, xi)
    d = rng.randn(f.n_nod)
    v0 = V.val(d)
    c = rng.randint(len(conn))
    d2 = d.copy()
    d2[f.econn[c]] += rng.randn(nep)
    v1 = V.val(d2)
    ch = np.abs(v1 - v0).max(axis=(1, 2)) > 0
    mon.ok('discontinuous', ch[c] and ch.sum() == 1, 'changing the DOFs of cell %d changed'
           ' cells %s' % (c, np.nonzero(ch)[0]))
    Y = np.einsum('qn,cnd->cqd', fe.shape(g, xi)[0], X[conn])
    P = fe.PolyF(rng, X.shape[1], order, X.mean(0), np.ptp(X, axis=0).max())
    co = f.get_coor()
    mon.close('discontinuous', V.val(P(co))[..., 0], P(Y), rtol=1e-8, msg='reproduction')
    mon.close('gradient', V.grad(P(co)), P.grad(Y), rtol=1e-6)
    # Averaging to vertices of a continuous function keeps it.
    ext = f.average_to_vertices(P(co)[:, None])
    pr, wr = fe.rule(g, 5)
    N, G = fe.shape(g, pr)
    yr = np.einsum('qn,cnd->cqd', N, X[conn])
    J = np.einsum('qin,cnd->cqdi', G, X[conn])
    vol = np.abs(np.linalg.det(J)) * wr
    num, den = np.zeros((2, len(X)))
    for cc, vv, ww in zip(conn, (P(yr) * vol).sum(1), vol.sum(1)):
        num[cc] += vv
        den[cc] += ww
    iv = np.asarray(om.vertices)
    mon.close('discontinuous', np.asarray(ext).ravel(), num[iv] / den[iv],
              rtol=1e-9, msg='average_to_vertices()')

def run_const(mon, case):
    from sfepy.discrete import fem
    rng = gen.rngof(case)
    g = case['mesh']
    raw = gen.raw_mesh(rng, g, size=2 if g[0] == '3' else 3, jitter=0.0)
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    for fam in (dict(), dict(space='L2', poly_space_basis='constant')):
        f = fem.Field.from_args('f', np.float64, 'scalar', om, approx_order=0, **fam)
        # The 'constant' basis has a single value for the whole region.
        ne = 1 if fam else len(conn)
        mon.ok('count', f.n_nod == ne, 'constant fields: %d DOFs' % f.n_nod)
        V = View(f, om, interior(rng, g, 3))
        d = rng.randn(ne)
        try:
            v = V.val(d)
        except (NotImplementedError, AttributeError, ValueError) as exc:
            mon.event('const_not_offered')
            continue
        mon.close('discontinuous', v[..., 0], np.broadcast_to(d[:, None], v[..., 0].shape),
                  rtol=1e-12)
    mon.sig('const', g)

def run_hanging(mon, case):
    from sfepy.discrete import fem
    from sfepy.discrete.fem.refine_hanging import refine
    rng = gen.rngof(case)
    g, order = case['mesh'], case['order']
    size = [3, 4] if g == '2_4' else [[3, 2, 2], [3, 3, 2], [2, 3, 3]][rng.randint(3)]
    if case['levels'] > 1:
        size = [6, 4] if g == '2_4' else [5, 2, 3]
    raw = gen.raw_mesh(rng, g, size=size, jitter=0.0, renumber=rng.rand() < 0.8)
    dom = gen.to_domain(raw)
    subs = None
    for lev in range(case['levels']):
        n = dom.mesh.n_el
        flag = np.zeros(n, dtype=np.uint8)
        flag[rng.permutation(n)[:rng.randint(1, n)]] = 1
        if lev:
            # A second level anywhere may give an irregularity greater than one.
            flag[:] = 0
            flag[legal_second(dom, subs, rng)] = 1
            if not flag.any():
                break
        dom, subs = refine(dom, flag, subs=subs)
    om = dom.create_region('Omega', 'all')
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    X = dom.mesh.coors
    f = fem.Field.from_args('f', np.float64, 'scalar', om, approx_order=order)
    if subs is not None:
        f.substitute_dofs(subs)
    mon.sig('hanging', g, order, case['levels'], len(conn))
    # Geometric points on every facet part shared by two cells.
    pts, pairs = [], []
    box = np.array([X[c].min(0) for c in conn]), np.array([X[c].max(0) for c in conn])
    fp = facet_points(rng, g, 2)
    for c in range(len(conn)):
        for P1 in fp:
            Y = fe.shape(g, P1)[0] @ X[conn[c]]
            near = np.nonzero(((box[0] <= Y.max(0) + 1e-9) & (box[1] >= Y.min(0) - 1e-9)).all(1))[0]
            for c2 in near:
                if c2 == c:
                    continue
                E = X[conn[c2]]
                # Affine cells.
                J = np.einsum('in,nd->di', fe.shape(g, np.zeros((1, int(g[0]))))[1][0], E)
                z = np.linalg.solve(J, (Y - E[0]).T).T
                inside = ((z > -1e-9) & (z < 1 + 1e-9)).all(1)
                for k in np.nonzero(inside)[0]:
                    pairs.append((c, len(pts), c2, len(pts) + 1))
                    pts += [P1[k], np.clip(z[k], 0, 1)]
    if len(pairs) > 400:
        pairs = [pairs[i] for i in rng.permutation(len(pairs))[:400]]
    used = sorted({i for p in pairs for i in (p[1], p[3])})
    new = {o: i for i, o in enumerate(used)}
    V = View(f, om, np.array(pts)[used])
    d = rng.randn(f.n_nod)
    v = V.val(d)[..., 0]
    a = np.array([v[c1, new[i1]] for c1, i1, c2, i2 in pairs])
    b = np.array([v[c2, new[i2]] for c1, i1, c2, i2 in pairs])
    mon.close('hanging_conform', a, b, rtol=1e-9, scale=np.abs(v).max(),
              msg='values on the two sides, hanging nodes')
    xi = interior(rng, g, (order + 1)**int(g[0]) + 4)
    V = View(f, om, xi)
    Y = np.einsum('qn,cnd->cqd', fe.shape(g, xi)[0], X[conn])
    P = fe.PolyF(rng, X.shape[1], order, X.mean(0), np.ptp(X, axis=0).max())
    # Active DOFs only.
    act = np.unique(f.econn)
    if len(act) < 500:
        B = np.stack([V.val(e).ravel() for e in np.eye(f.n_nod)[act]], -1)
        y = P(Y)
        c, *_ = np.linalg.lstsq(B, y.ravel(), rcond=None)
        d = np.zeros(f.n_nod)
        d[act] = c
        mon.close('hanging_contains', V.val(d)[..., 0], y, rtol=1e-8)
        mon.close('hanging_contains', V.grad(d), P.grad(Y), rtol=1e-6)
    else:
        mon.event('hanging_contains')
    try:
        nods, vals = f.set_dofs(P, om)
    except Exception as exc:
        mon.violate('hanging_contains', 'set_dofs(): %r' % exc)
        return
    d = np.zeros(f.n_nod)
    d[np.asarray(nods).ravel()] = np.asarray(vals).ravel()
    mon.close('hanging_contains', V.val(d)[..., 0], P(Y), rtol=1e-8, msg='set_dofs()')

def legal_second(dom, subs, rng):
    """Cells which can be refined again: not on an interface of levels."""
    used = set()
    for sub in (subs if isinstance(subs, tuple) else (subs,)):
        if sub is not None and len(sub):
            used |= set(np.asarray(sub)[:, ::2].ravel().tolist())
    free = np.setdiff1d(np.arange(dom.mesh.n_el), sorted(used))
    return rng.permutation(free)[:1 + rng.randint(2)]
