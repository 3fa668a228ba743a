"""C21: Isogeometric bases, mappings and refinement are exact.

Monitor: extraction operators, connectivities, mappings, evaluations, boundary restrictions, files and solutions of random NURBS patches (degrees,
knots of any range and multiplicity, weights, control nets) are observed in the Python and compiled implementations and compared with direct
Cox-de Boor evaluation of the basis.
"""
import os
import numpy as np
from rvm import gen

REQUIRED = ['extraction', 'support', 'bernstein', 'basis', 'positive', 'unity', 'gradient', 'jacobian', 'python', 'variable', 'parametric', 'ends',
            'bezier net', 'bezier topology', 'regions', 'field dofs', 'surface basis', 'boundary measure', 'mapping', 'volume', 'io', 'io twice',
            'output mesh', 'ebc', 'solution', 'projection', 'rational', 'multiple knots', 'point evaluation']
ASSUMPTIONS = ['igakit is not available: patches are built from own knots, control points and weights, degree elevation of fields is not covered',
               'fields on 2D and 3D patches; interior knot multiplicities up to the degree']

def cases(rng, tier):
    n = 2 if tier == 'quick' else 20
    out = [dict(kind='extraction') for _ in range(40 * n)]
    out += [dict(kind='patch', dim=2 + (i % 4 == 3), cost=2) for i in range(40 * n)]
    out += [dict(kind='regions', dim=2 + (i % 3 == 2), cost=2) for i in range(15 * n)]
    out += [dict(kind='io', dim=2 + (i % 3 == 2)) for i in range(8 * n)]
    out += [dict(kind='output', dim=2 + (i % 3 == 2)) for i in range(6 * n)]
    out += [dict(kind='solve', dim=2 + (i % 4 == 3), cost=6) for i in range(10 * n)]
    out += [dict(kind='points', dim=2 + (i % 3 == 2)) for i in range(8 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def prepare(tier):
    quiet()

def quiet():
    from sfepy.base.base import output
    output.set_output(quiet=True)

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

# Own B-splines.

def bspline(kv, p, u, side='auto'):
    """Values and derivatives of all basis functions in points, from the right except at the end."""
    kv = np.asarray(kv, dtype=float)
    n = len(kv) - p - 1
    u = np.atleast_1d(u)
    uk = np.unique(kv)
    span = np.clip(np.searchsorted(uk, u, side='right') - 1, 0, len(uk) - 2)
    if side == 'left':
        span = np.clip(np.searchsorted(uk, u, side='left') - 1, 0, len(uk) - 2)
    a, b = uk[span], uk[span + 1]
    N = ((kv[:-1][None] == a[:, None]) & (kv[1:][None] == b[:, None])).astype(float)
    for q in range(1, p + 1):
        M = np.zeros((len(u), len(kv) - 1 - q))
        last = N
        for i in range(M.shape[1]):
            d1, d2 = kv[i + q] - kv[i], kv[i + q + 1] - kv[i + 1]
            if d1 > 0:
                M[:, i] += (u - kv[i]) / d1 * N[:, i]
            if d2 > 0:
                M[:, i] += (kv[i + q + 1] - u) / d2 * N[:, i + 1]
        N = M
    D = np.zeros((len(u), n))
    if p > 0:
        for i in range(n):
            d1, d2 = kv[i + p] - kv[i], kv[i + p + 1] - kv[i + 1]
            if d1 > 0:
                D[:, i] += p / d1 * last[:, i]
            if d2 > 0:
                D[:, i] -= p / d2 * last[:, i + 1]
    return N, D

def knots(rng, p, n_el, cmax=False, lims=(0., 1.)):
    x = np.r_[0, np.cumsum(0.4 + rng.rand(n_el))]
    x = lims[0] + (lims[1] - lims[0]) * x / x[-1]
    kv = [x[0]] * (p + 1)
    for t in x[1:-1]:
        m = 1 if cmax or rng.rand() < 0.6 else rng.randint(1, p + 1)
        kv += [t] * m
    return np.array(kv + [x[-1]] * (p + 1))

class Patch:
    """Random patch and its own evaluation."""

    def __init__(self, rng, dim, rational=None, deg=None, n_el=None, lims=None, shape='curved', cmax=False):
        self.dim = dim
        dmax = 4
        self.p = np.array([rng.randint(1, dmax) for _ in range(dim)] if deg is None else deg)
        if dim == 3:
            # At most one of the degrees is three.
            self.p = np.where(np.arange(3) == self.p.argmax(), self.p, np.minimum(self.p, 2)) if deg is None else self.p
        self.n_el = [rng.randint(1, 4 if dim == 2 else 3) for _ in range(dim)] if n_el is None else n_el
        if lims is None:
            lims = (0., 1.)
        self.kv = [knots(rng, p, n, cmax, lims) for p, n in zip(self.p, self.n_el)]
        self.n = [len(k) - p - 1 for k, p in zip(self.kv, self.p)]
        grev = [np.array([k[i + 1:i + p + 1].mean() for i in range(n)]) for k, p, n in zip(self.kv, self.p, self.n)]
        g = np.stack(np.meshgrid(*grev, indexing='ij'), -1).reshape(-1, dim)
        g = (g - lims[0]) / (lims[1] - lims[0])
        if shape == 'curved':
            a = rng.randn(dim, dim) * 0.12
            g = g + 0.3 * np.sin(g @ a.T * 3 + rng.rand(dim)) * 0.5
        self.A = gen.random_affine(rng, dim, cond=2.0)
        self.cps = np.ascontiguousarray(g @ self.A.T + rng.randn(dim))
        rational = rng.rand() < 0.6 if rational is None else rational
        self.rational = rational
        self.w = 0.6 + 0.8 * rng.rand(len(g)) if rational else np.ones(len(g))
        if rational and shape != 'curved':
            pass

    def spans(self):
        return [np.unique(k) for k in self.kv]

    def basis(self, U, side='auto'):
        """Rational basis and derivatives w.r.t. parameters in scattered points (n, dim)."""
        Ns = [bspline(k, p, U[:, i], side) for i, (k, p) in enumerate(zip(self.kv, self.p))]
        def tp(parts):
            out = parts[0]
            for q in parts[1:]:
                out = np.einsum('na,nb->nab', out, q).reshape(len(U), -1)
            return out
        B = tp([N for N, _ in Ns])
        dB = [tp([Ns[j][1] if j == i else Ns[j][0] for j in range(self.dim)]) for i in range(self.dim)]
        W = B @ self.w
        R = B * self.w / W[:, None]
        dR = np.stack([(d * self.w - R * (d @ self.w)[:, None]) / W[:, None] for d in dB], axis=1)
        return R, dR

    def geometry(self, U):
        R, dR = self.basis(U)
        return R @ self.cps

    def extraction(self):
        from sfepy.discrete import iga
        cs = iga.compute_bezier_extraction(tuple(self.kv), self.p)
        n_els = [len(c) for c in cs]
        conn, bconn = iga.create_connectivity(n_els, tuple(self.kv), self.p)
        return cs, n_els, conn, bconn

    def domain(self):
        import sfepy.discrete.iga as iga
        from sfepy.discrete.iga.domain import NurbsPatch, IGDomain
        from sfepy.base.base import Struct
        cs, n_els, conn, bconn = self.extraction()
        ccs = iga.combine_bezier_extraction(cs)
        bcps, bw = iga.compute_bezier_control(self.cps, self.w, ccs, conn, bconn)
        nurbs = NurbsPatch(tuple(self.kv), self.p, self.cps, self.w, cs, conn)
        bmesh = Struct(name='bmesh', cps=bcps, weights=bw, conn=bconn)
        regions = iga.get_patch_box_regions(n_els, self.p)
        return IGDomain('iga', nurbs=nurbs, bmesh=bmesh, regions=regions)

    def params(self, ie, q):
        """Parameters of reference points of an element."""
        uk = self.spans()
        idx = np.unravel_index(ie, [len(k) - 1 for k in uk])
        return np.stack([k[i] + q[:, j] * (k[i + 1] - k[i]) for j, (k, i) in enumerate(zip(uk, idx))], -1), \
            np.array([k[i + 1] - k[i] for k, i in zip(uk, idx)])

def note(mon, P):
    if P.rational:
        mon.event('rational')
    if any((np.unique(k[p + 1:-p - 1], return_counts=True)[1] > 1).any() for k, p in zip(P.kv, P.p)):
        mon.event('multiple knots')

# Extraction.

def bernstein(p, x):
    from math import comb
    return np.stack([comb(p, i) * x**i * (1 - x)**(p - i) for i in range(p + 1)], -1)

def run_extraction(mon, case):
    from sfepy.discrete import iga
    from sfepy.discrete.iga.extmods import igac
    rng = gen.rngof(case)
    p = int(rng.randint(1, 6))
    n_el = int(rng.randint(1, 7))
    lims = pick(rng, [(0., 1.), (-1.5, 2.0), (0., 5.)])
    kv = knots(rng, p, n_el, lims=lims)
    mon.sig('extraction', p, n_el, len(kv))
    if len(kv) > 2 * (p + 1) + n_el - 1:
        mon.event('multiple knots')
    C = np.asarray(iga.compute_bezier_extraction_1d(kv, p))
    mon.ok('extraction', C.shape == (n_el, p + 1, p + 1), '%s operators of %d elements' % (C.shape, n_el))
    conn, bconn = iga.create_connectivity_1d(n_el, kv, p)
    mon.ok('support', conn.shape == (n_el, p + 1) and bconn.shape == (n_el, p + 1), 'shapes of connectivities')
    uk = np.unique(kv)
    t = np.r_[0.0, rng.rand(4), 1.0]
    n = len(kv) - p - 1
    mon.ok('support', conn.max() + 1 == n, '%d basis functions, expected %d' % (conn.max() + 1, n))
    for ie in range(n_el):
        u = uk[ie] + t * (uk[ie + 1] - uk[ie])
        # One sided values in the element.
        mid = np.array([0.5 * (uk[ie] + uk[ie + 1])])
        Nm, _ = bspline(kv, p, mid)
        mon.event('support')
        mon.equal('support', np.nonzero(Nm[0] > 1e-14)[0], np.sort(conn[ie]), msg='functions with support in element %d' % ie)
        N = np.empty((len(u), n))
        for k, uu in enumerate(u):
            # Limits from inside the element.
            side = 'left' if k == len(u) - 1 else 'auto'
            N[k] = bspline(kv, p, np.array([uu]), side)[0][0]
        B = bernstein(p, t)
        mon.event('extraction')
        mon.close('extraction', B @ C[ie].T, N[:, conn[ie]], rtol=1e-10, atol=1e-11, msg='degree %d, element %d of knots %s' % (p, ie, kv))
        mon.equal('bezier topology', bconn[ie], ie * p + np.arange(p + 1), msg='Bezier connectivity')
    for x in t:
        f1, d1 = iga.eval_bernstein_basis(x, p)
        f2, d2 = np.zeros(p + 1), np.zeros(p + 1)
        igac.eval_bernstein_basis(f2, d2, x, p)
        e = bernstein(p, np.array([x]))[0]
        dd = bernstein(p - 1, np.array([x]))[0]
        ed = p * (np.r_[0, dd] - np.r_[dd, 0])
        mon.event('bernstein')
        mon.close('bernstein', np.r_[f1, d1], np.r_[e, ed], rtol=1e-12, atol=1e-12, msg='Bernstein basis in Python')
        mon.close('bernstein', np.r_[f2, d2], np.r_[e, ed], rtol=1e-12, atol=1e-12, msg='compiled Bernstein basis')

# Mappings and evaluation.

def run_patch(mon, case):
    import sfepy.discrete.iga.iga as iga
    from sfepy.discrete.iga.extmods import igac
    from sfepy.discrete.iga.domain import NurbsPatch
    quiet()
    rng = gen.rngof(case)
    P = Patch(rng, case['dim'], lims=pick(rng, [None, None, (-1.0, 2.5)]))
    note(mon, P)
    cs, n_els, conn, bconn = P.extraction()
    nurbs = NurbsPatch(tuple(P.kv), P.p, P.cps, P.w, cs, conn)
    mon.sig('patch', P.dim, tuple(P.p), tuple(P.n_el), P.rational)
    mon.equal('regions', n_els, P.n_el, msg='numbers of elements')
    q = rng.rand(3, P.dim)
    ne = len(conn)
    cells = np.sort(rng.permutation(ne)[:max(1, rng.randint(1, ne + 1))]).astype(np.uint32)
    if rng.rand() < 0.5:
        cells = np.arange(ne, dtype=np.uint32)
    bfs, bfgs, dets = [np.asarray(x) for x in igac.eval_mapping_data_in_qp(q, P.cps, P.w, nurbs.degrees, nurbs.cs, nurbs.conn, cells)]
    nc = 1 + rng.randint(3)
    var = rng.randn(len(P.cps), nc)
    coors, vals, d2 = [np.asarray(x) for x in igac.eval_variable_in_qp(var, q, P.cps, P.w, nurbs.degrees, nurbs.cs, nurbs.conn, cells)]
    py = iga.eval_mapping_data_in_qp(q, P.cps, P.w, nurbs.degrees, cs, conn, cells[:2])
    pv = iga.eval_variable_in_qp(var, q, P.cps, P.w, nurbs.degrees, cs, conn, cells[:2])
    mon.event('python')
    for a, b, what in zip(py, (bfs, bfgs, dets), ('basis', 'gradients', 'Jacobians')):
        mon.close('python', np.asarray(a), b[:2], rtol=1e-9, atol=1e-10, msg='%s in Python and compiled' % what)
    m = len(pv[0])
    for a, b, what in zip(pv, (coors, vals, d2), ('coordinates', 'values', 'Jacobians')):
        mon.close('python', np.asarray(a), b[:m], rtol=1e-9, atol=1e-10, msg='%s in Python and compiled' % what)
    for k, ie in enumerate(cells):
        U, h = P.params(ie, q)
        R, dR = P.basis(U)
        mon.event('basis')
        cc = conn[ie]
        mon.close('basis', bfs[k, :, 0], R[:, cc], rtol=1e-9, atol=1e-11, msg='basis in element %d' % ie)
        oth = np.setdiff1d(np.arange(len(P.cps)), cc)
        mon.close('support', R[:, oth], np.zeros((len(q), len(oth))), atol=1e-13, rtol=0, msg='functions out of the connectivity')
        mon.event('positive')
        mon.ok('positive', (bfs[k] >= -1e-14).all(), 'negative values of basis')
        mon.event('unity')
        mon.close('unity', bfs[k].sum(axis=-1), np.ones((len(q), 1)), rtol=1e-12, atol=1e-12, msg='sum of basis')
        J = np.einsum('qia,aj->qij', dR, P.cps)             # dx_j / du_i
        dx = np.linalg.solve(J, dR)
        mon.event('gradient')
        sc = np.abs(dx).max()
        mon.close('gradient', bfgs[k], dx[:, :, cc], rtol=1e-8, scale=sc, atol=1e-10, msg='gradients in element %d' % ie)
        det = np.linalg.det(J) * np.prod(h)
        mon.event('jacobian')
        mon.close('jacobian', dets[k].ravel(), det, rtol=1e-9, atol=1e-12, msg='Jacobians in element %d' % ie)
        sl = slice(k * len(q), (k + 1) * len(q))
        mon.event('variable')
        mon.close('variable', vals[sl], R @ var, rtol=1e-9, atol=1e-11, msg='values in element %d' % ie)
        mon.close('variable', coors[sl], R @ P.cps, rtol=1e-9, atol=1e-10, msg='coordinates in element %d' % ie)
        mon.close('variable', d2[sl].ravel(), det, rtol=1e-9, atol=1e-12, msg='Jacobians with values')
    # Evaluation in parametric points (tensor products), knots and ends included.
    pars = []
    for kv in P.kv:
        uk = np.unique(kv)
        s = np.r_[uk[0] + (uk[-1] - uk[0]) * rng.rand(3), uk[rng.randint(len(uk))], uk[0], uk[-1]]
        if rng.rand() < 0.5:
            s = np.sort(s)
        pars.append(s)
    out = np.asarray(nurbs(*pars))
    U = np.stack(np.meshgrid(*pars, indexing='ij'), -1).reshape(-1, P.dim)
    mon.event('parametric')
    mon.event('ends')
    mon.close('parametric', out.reshape(-1, P.dim), P.geometry(U), rtol=1e-9, atol=1e-10, msg='points of the patch')
    R, _ = P.basis(U)
    out = np.asarray(nurbs.evaluate(var, *pars))
    mon.close('parametric', out.reshape(-1, nc), R @ var, rtol=1e-9, atol=1e-10, msg='values in parametric points')
    # Bezier control net gives the same geometry.
    ccs = iga.combine_bezier_extraction(cs)
    bcps, bw = iga.compute_bezier_control(P.cps, P.w, ccs, conn, bconn)
    mon.event('bezier net')
    for ie in range(ne):
        Bs = bernstein(P.p[0], q[:, 0])
        for j in range(1, P.dim):
            Bs = np.einsum('na,nb->nab', Bs, bernstein(P.p[j], q[:, j])).reshape(len(q), -1)
        wb = Bs * bw[bconn[ie]]
        x = (wb @ bcps[bconn[ie]]) / wb.sum(axis=1)[:, None]
        mon.close('bezier net', x, P.geometry(P.params(ie, q)[0]), rtol=1e-9, atol=1e-10, msg='rational Bezier element %d' % ie)

# Regions, boundary.

def side_of(name):
    return int(name[2]), int(name[3])

def run_regions(mon, case):
    from sfepy.discrete.iga.fields import IGField
    from sfepy.discrete import Integral
    quiet()
    rng = gen.rngof(case)
    P = Patch(rng, case['dim'])
    note(mon, P)
    dom = P.domain()
    mon.sig('regions', P.dim, tuple(P.p), tuple(P.n_el))
    uk = P.spans()
    # Topological mesh: vertices are images of knots.
    X = dom.mesh.coors
    mon.event('bezier topology')
    tc = dom.mesh.get_conn('%d_%d' % (P.dim, 2**P.dim))
    mon.ok('bezier topology', len(X) == np.prod([len(k) for k in uk]) and len(tc) == np.prod(P.n_el), 'sizes of the topological mesh')
    corners = np.array([[0, 0], [1, 0], [1, 1], [0, 1]]) if P.dim == 2 else \
        np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]])
    for ie in range(len(tc)):
        mon.close('bezier topology', X[tc[ie]], P.geometry(P.params(ie, corners.astype(float))[0]), rtol=1e-9, atol=1e-10, msg='vertices of element %d' % ie)
    om = dom.create_region('Omega', 'all')
    f = IGField('f', np.float64, 1, om)
    idx = np.arange(len(P.cps)).reshape(P.n)
    vol = None
    for ax in range(P.dim):
        for k in range(2):
            name = 'xi%d%d' % (ax, k)
            reg = dom.create_region('G' + name, 'vertices of set ' + name, 'facet')
            mon.event('regions')
            # Vertices in the side.
            pars = [u if j != ax else u[[0, -1][k]:][:1] if k == 0 else u[-1:] for j, u in enumerate(uk)]
            Y = P.geometry(np.stack(np.meshgrid(*pars, indexing='ij'), -1).reshape(-1, P.dim))
            a, b = X[reg.vertices], Y
            ok = len(a) == len(b) and all(np.abs(b - x).max(axis=1).min() < 1e-9 for x in a)
            mon.ok('regions', ok, 'vertices of the side %s' % name)
            nf = np.prod([len(u) - 1 for j, u in enumerate(uk) if j != ax])
            mon.ok('regions', len(reg.facets) == nf, '%d facets of the side %s, expected %d' % (len(reg.facets), name, nf))
            # Nonzero functions in the side.
            want = np.sort(np.take(idx, 0 if k == 0 else P.n[ax] - 1, axis=ax).ravel())
            mon.event('field dofs')
            mon.equal('field dofs', np.asarray(f.get_dofs_in_region(reg)), want, msg='DOFs in the side %s' % name)
            # Surface basis.
            qps, fbfs, dets = f.get_surface_basis(reg)
            conn = f.get_econn('facet', reg)
            mon.event('surface basis')
            tot = 0.0
            for qp, fb, dt, c in zip(qps, fbfs, dets, conn):
                mon.close('surface basis', fb.sum(axis=1), np.ones(len(fb)), rtol=1e-11, atol=1e-11, msg='sum of the facet basis')
                mon.close('surface basis', fb @ P.cps[c], qp, rtol=1e-9, atol=1e-10, msg='facet points')
                # Points lie in the side: own inversion by least squares over a fine sample is expensive, use the basis of the side.
                mon.ok('surface basis', np.isin(c, want).all(), 'facet functions out of the side %s' % name)
            # A function of the side is reproduced by the projection.
            dofs = rng.randn(len(P.cps), 1)
            lin = rng.randn(P.dim)
            nods, vals = f.set_dofs(lambda x: x @ lin + 0.5, reg)
            mon.event('projection')
            mon.equal('projection', np.sort(np.ravel(nods)), want, msg='projected DOFs')
            mon.close('projection', np.ravel(vals), P.cps[np.ravel(nods)] @ lin + 0.5, rtol=1e-8, atol=1e-9, msg='projection of a linear function in %s' % name)
    # Cells.
    it = Integral('i', order=(17 if P.dim == 2 else 11) if P.rational else P.dim * int(P.p.max()) + 1)
    q, w = it.get_qp(dom.gel.name)
    cm, mp = f.create_mapping(om, it, 'cell')
    mon.event('mapping')
    xq = np.asarray(mp.get_physical_qps(q))
    v = 0.0
    for ie in range(len(tc)):
        U, h = P.params(ie, q)
        R, dR = P.basis(U)
        mon.close('mapping', xq[ie], R @ P.cps, rtol=1e-9, atol=1e-10, msg='physical points of element %d' % ie)
        det = np.abs(np.linalg.det(np.einsum('qia,aj->qij', dR, P.cps))) * np.prod(h)
        mon.event('volume')
        mon.close('volume', np.ravel(np.asarray(cm.volume)[ie])[0], det @ w, rtol=1e-9, atol=1e-12, msg='volume of element %d' % ie)
        v += det @ w
    sub = dom.create_region('Sub', 'cell %s' % ', '.join('%d' % i for i in sorted(set(rng.randint(0, len(tc), size=2)))))
    cm2, mp2 = f.create_mapping(sub, it, 'cell')
    mon.close('volume', np.ravel(np.asarray(cm2.volume)), np.ravel(np.asarray(cm.volume)[sub.cells]), rtol=1e-12, atol=1e-13, msg='cells of a subregion')
    # Divergence theorem with own boundary integrals: volume = 1/d int x.n.
    mon.event('boundary measure')
    S = 0.0
    g, gw = np.polynomial.legendre.leggauss(9)
    g, gw = 0.5 * (g + 1), 0.5 * gw
    for ax in range(P.dim):
        for k in range(2):
            oth = [j for j in range(P.dim) if j != ax]
            for cell in np.ndindex(*[len(uk[j]) - 1 for j in oth]):
                pr, ww = [], []
                for j, c in zip(oth, cell):
                    pr.append(uk[j][c] + g * (uk[j][c + 1] - uk[j][c]))
                    ww.append(gw * (uk[j][c + 1] - uk[j][c]))
                if P.dim == 2:
                    U = np.zeros((len(g), 2))
                    U[:, oth[0]] = pr[0]
                    W = ww[0]
                else:
                    A, B = np.meshgrid(*pr, indexing='ij')
                    U = np.zeros((A.size, 3))
                    U[:, oth[0]], U[:, oth[1]] = A.ravel(), B.ravel()
                    W = np.outer(*ww).ravel()
                U[:, ax] = uk[ax][-1 if k else 0]
                R, dR = P.basis(U)
                J = np.einsum('qia,aj->qij', dR, P.cps)
                cof = np.linalg.det(J)[:, None] * np.linalg.inv(J)[:, :, ax]
                S += (1 if k else -1) * (W * np.einsum('qj,qj->q', cof, R @ P.cps)).sum() / P.dim
    mon.close('boundary measure', np.asarray(cm.volume).sum(), abs(S), rtol=1e-3 if P.rational else 1e-7, msg='volume and the boundary integral')

# Files.

def run_io(mon, case):
    from sfepy.discrete.iga.domain import IGDomain
    from sfepy.discrete.iga import io
    import sfepy.discrete.iga as iga
    import tables as pt
    quiet()
    rng = gen.rngof(case)
    P = Patch(rng, case['dim'])
    note(mon, P)
    dom = P.domain()
    mon.sig('io', P.dim, tuple(P.p), tuple(P.n_el))
    import tempfile
    with tempfile.TemporaryDirectory() as tmp:
        name = os.path.join(tmp, 'a.iga')
        cs, n_els, conn, bconn = P.extraction()
        ccs = iga.combine_bezier_extraction(cs)
        bcps, bw = iga.compute_bezier_control(P.cps, P.w, ccs, conn, bconn)
        regs = iga.get_patch_box_regions(n_els, P.p)
        io.write_iga_data(name, None, tuple(P.kv), P.p, P.cps, P.w, cs, conn, bcps, bw, bconn, regs)
        d1 = IGDomain.from_file(name)
        mon.event('io')
        same(mon, 'io', dom, d1)
        cur = d1
        for k in range(2):
            name = os.path.join(tmp, 'b%d.h5' % k)
            with pt.open_file(name, 'w') as fd:
                gr = fd.create_group('/', 'dom')
                cur.write_domain_to_hdf5(fd, gr)
            with pt.open_file(name, 'r') as fd:
                cur = IGDomain.read_domain_from_hdf5(fd, fd.root.dom)
            mon.event('io twice')
            same(mon, 'io twice', dom, cur)

def same(mon, kind, a, b):
    for x, y in zip(a.nurbs.knots, b.nurbs.knots):
        mon.close(kind, np.asarray(y), np.asarray(x), rtol=0, atol=0, msg='knots')
    mon.equal(kind, np.asarray(b.nurbs.degrees), np.asarray(a.nurbs.degrees), msg='degrees')
    for n in ('cps', 'weights', 'conn'):
        mon.close(kind, np.asarray(getattr(b.nurbs, n)), np.asarray(getattr(a.nurbs, n)), rtol=0, atol=0, msg=n)
        mon.close(kind, np.asarray(getattr(b.bmesh, n)), np.asarray(getattr(a.bmesh, n)), rtol=0, atol=0, msg='Bezier ' + n)
    for x, y in zip(a.nurbs.cs, b.nurbs.cs):
        mon.close(kind, np.asarray(y), np.asarray(x), rtol=0, atol=0, msg='extraction')
    mon.close(kind, b.mesh.coors, a.mesh.coors, rtol=0, atol=0, msg='topological mesh')
    mon.ok(kind, set(a.vertex_set_bcs) == set(b.vertex_set_bcs), 'names of regions')
    for n, v in a.vertex_set_bcs.items():
        mon.equal(kind, np.asarray(b.vertex_set_bcs[n]), np.asarray(v), msg='vertices of the side %s' % n)

# Output.

def run_output(mon, case):
    from sfepy.discrete.iga.fields import IGField
    quiet()
    rng = gen.rngof(case)
    P = Patch(rng, case['dim'], lims=pick(rng, [None, None, (0.0, 2.0)]), n_el=None)
    note(mon, P)
    dom = P.domain()
    om = dom.create_region('Omega', 'all')
    f = IGField('f', np.float64, pick(rng, [1, P.dim]), om)
    nc = f.n_components
    dofs = rng.randn(len(P.cps), nc)
    out = f.create_output(dofs, 'u', key='u')
    mesh = out['__mesh__']
    n = int(round(len(mesh.coors)**(1. / P.dim)))
    pars = [k[0] + np.linspace(0, 1, n) * (k[-1] - k[0]) for k in P.kv]
    mon.event('output mesh')
    mon.sig('output', P.dim, tuple(P.p), tuple(P.n_el), n)
    U = np.stack(np.meshgrid(*pars, indexing='ij'), -1).reshape(-1, P.dim)
    sel = np.sort(rng.permutation(len(U))[:200])
    sel = np.unique(np.r_[sel, 0, len(U) - 1])
    R, _ = P.basis(U[sel])
    x = mesh.coors[sel][:, :P.dim]
    mon.close('output mesh', x, R @ P.cps, rtol=1e-8, atol=1e-9, msg='vertices of the output mesh')
    mon.close('output mesh', np.asarray(out['u'].data)[sel], R @ dofs, rtol=1e-8, atol=1e-9, msg='values in the output mesh')

# Solutions.

def run_solve(mon, case):
    from sfepy.discrete import FieldVariable, Integral, Material, Equation, Equations, Problem, Function
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.iga.fields import IGField
    from sfepy.terms.terms import Term
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    quiet()
    rng = gen.rngof(case)
    dim = case['dim']
    affine = rng.rand() < 0.5
    if affine:
        P = Patch(rng, dim, rational=False, shape='affine', deg=[int(d) for d in rng.randint(2, 4 if dim == 2 else 3, size=dim)])
        deg = int(min(P.p))
    else:
        P = Patch(rng, dim)
        deg = 1
    note(mon, P)
    dom = P.domain()
    om = dom.create_region('Omega', 'all')
    x0 = P.cps.mean(axis=0)
    ex = [e for e in np.ndindex(*(deg + 1,) * dim) if sum(e) <= deg]
    cf = rng.randn(len(ex))

    def fun(x):
        y = np.asarray(x) - x0
        return sum(c * np.prod([y[..., i]**e[i] for i in range(dim)], axis=0) for c, e in zip(cf, ex))

    def lap(x):
        y = np.asarray(x) - x0
        out = np.zeros(y.shape[:-1])
        for c, e in zip(cf, ex):
            for i in range(dim):
                if e[i] >= 2:
                    t = c * e[i] * (e[i] - 1)
                    for j in range(dim):
                        t = t * y[..., j]**(e[j] - 2 * (i == j))
                    out = out + t
        return out
    f = IGField('f', np.float64, 1, om)
    u, v = FieldVariable('u', 'unknown', f), FieldVariable('v', 'test', f, primary_var_name='u')
    tol = 1e-6
    order = (dim if not affine else 2) * int(P.p.max()) + 1
    if P.rational:
        order, tol = (19, 1e-4) if dim == 2 else (15, 1e-3)
    it = Integral('i', order=order)
    kap = 0.5 + rng.rand()

    def mat(ts, coors, mode=None, **kw):
        if mode == 'qp':
            return {'k': np.full((len(coors), 1, 1), kap), 'f': (-kap * lap(coors)).reshape(-1, 1, 1)}
    m = Material('m', function=Function('mat', mat))
    t1 = Term.new('dw_laplace(m.k, v, u)', it, om, m=m, v=v, u=u)
    t2 = Term.new('dw_volume_lvf(m.f, v)', it, om, m=m, v=v)
    eqs = Equations([Equation('e', t1 - t2)])
    bcs = []
    bf = Function('bf', lambda ts, coors, bc=None, problem=None, **kw: fun(coors))
    sides = ['xi%d%d' % (ax, k) for ax in range(dim) for k in range(2)]
    for s in sides:
        reg = dom.create_region('G' + s, 'vertices of set ' + s, 'facet')
        bcs.append(EssentialBC('b' + s, reg, {'u.0': bf}))
    pb = Problem('p', equations=eqs)
    pb.set_bcs(ebcs=Conditions(bcs))
    pb.set_solver(Newton({'eps_a': 1e-11, 'eps_r': 1e-12, 'i_max': 2, 'problem': 'linear'}, lin_solver=ScipyDirect({})))
    try:
        variables = pb.solve(save_results=False, verbose=False)
    except (ValueError, AttributeError, IndexError):
        if int(np.prod([max(n - 2, 0) for n in P.n])) == 0:
            mon.sig('solve', 'no free')
            return
        raise
    x = variables.get_state_parts()['u']
    mon.sig('solve', dim, tuple(P.p), tuple(P.n_el), affine)
    rngq = rng.rand(4, dim)
    scale = np.abs(fun(P.cps)).max() + 1
    for ie in range(int(np.prod(P.n_el))):
        R, _ = P.basis(P.params(ie, rngq)[0])
        mon.event('solution')
        mon.close('solution', R @ x, fun(R @ P.cps), rtol=tol, scale=scale, atol=1e-8, msg='solution, degree %d, affine %s' % (deg, affine))
    mon.event('ebc')
    for ax in range(dim):
        for k in range(2):
            U = rng.rand(5, dim) * np.array([kv[-1] - kv[0] for kv in P.kv]) + np.array([kv[0] for kv in P.kv])
            U[:, ax] = P.kv[ax][-1 if k else 0]
            R, _ = P.basis(U)
            mon.close('ebc', R @ x, fun(R @ P.cps), rtol=1e-6, scale=scale, atol=1e-8, msg='boundary values in xi%d%d' % (ax, k))

# Evaluation in physical points.

def run_points(mon, case):
    from sfepy.discrete.iga.fields import IGField
    quiet()
    rng = gen.rngof(case)
    P = Patch(rng, case['dim'])
    note(mon, P)
    dom = P.domain()
    om = dom.create_region('Omega', 'all')
    f = IGField('f', np.float64, 1, om)
    ctx = f.create_basis_context()
    mon.sig('points', P.dim, tuple(P.p), tuple(P.n_el))
    for ie in range(int(np.prod(P.n_el))):
        q = 0.05 + 0.9 * rng.rand(3, P.dim)
        U, h = P.params(ie, q)
        R, dR = P.basis(U)
        cc = f.nurbs.conn[ie]
        ctx.iel = ie
        mon.event('point evaluation')
        bf = np.asarray(ctx.evaluate(np.ascontiguousarray(q))) if hasattr(ctx, 'evaluate') else None
        if bf is not None:
            mon.close('point evaluation', bf.reshape(len(q), -1), R[:, cc], rtol=1e-9, atol=1e-11, msg='basis by the context')
