"""C19: point location, evaluation and probing invert the mesh mapping.

Monitor: fields over random meshes and parts of them get random coefficients; their functions are observed in chosen
reference points of every cell by the evaluation of variables in quadrature points (decided by C06 and C07), and the own
mapping gives the places of these points.  Every evaluation of points - all strategies, caches, batches, modes, probes - has
to return the values of the function there, cells which contain the points and reference coordinates which map to them;
points outside have to be reported, or extrapolated from the returned cell within the given limit.
"""
import os
import shutil

import numpy as np

from .. import gen, core, ref_fe as fe
from .C07 import View, pull
from .C04 import points

REQUIRED = ['closest', 'value', 'gradient', 'located', 'mapped back', 'outside', 'extrapolated', 'nan', 'strategy', 'cache', 'batch', 'numbering',
            'vertices', 'facets', 'centroids', 'div', 'strain', 'complex', 'subregion', 'holes', 'discontinuous', 'scaled', 'points probe',
            'line probe', 'ray probe', 'circle probe', 'integral probe', 'adaptive', 'probe reuse', 'results file', 'set_from_other',
            'get_cells_fun', 'limit']
ASSUMPTIONS = ['inner points keep a distance from the facets of their cells where a single cell is expected',
               'evaluation of variables in quadrature points (decided by C06 and C07)']

SYM = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}
KINDS = ['2_3', '2_4', '3_4', '3_8', '2_3', '2_4']

def cases(rng, tier):
    n = dict(quick=12, thorough=250)[tier]
    out = []
    for i in range(n):
        for k in KINDS[:4]:
            for o in (0, 1, 2, 3):
                out.append(dict(kind='inside', mesh=k, order=o, sub=bool(rng.rand() < 0.3), cost=2 if k[0] == '2' else 4))
            out.append(dict(kind='inside', mesh=k, order=1, sub=False, scale=True, cost=2))
            out.append(dict(kind='disc', mesh=k, cost=1))
            for o in (1, 2):
                out.append(dict(kind='outside', mesh=k, order=o, sub=bool(rng.rand() < 0.3), cost=3))
                if k in ('2_4', '3_8'):
                    out.append(dict(kind='outside', mesh=k, order=o, equal=True, cost=3))
            for o in (1, 2):
                out.append(dict(kind='histories', mesh=k, order=o, cost=3))
                out.append(dict(kind='probes', mesh=k, order=o, cost=3))
                out.append(dict(kind='probe_histories', mesh=k, order=o, cost=3))
            out.append(dict(kind='other', mesh=k, order=1 + rng.randint(2), cost=2))
        for b in ('serendipity', 'sem', 'lobatto', 'bernstein'):
            out.append(dict(kind='bases', mesh=['2_4', '3_8'][rng.randint(2)], basis=b, order=1 + rng.randint(2), cost=2))
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def affine(X, conn, g):
    if g[-1] in '34' and g not in ('2_4',):
        return True
    return False

class World:
    """A mesh, a part of it, its cells and the placement of points."""

    def __init__(self, rng, g, sub=False, size=None, holes=None, scale=1.0, jitter=None, shift=None, equal=False):
        size = {2: 4, 3: 2}[int(g[0])] if size is None else size
        self.g, self.dim = g, int(g[0])
        if jitter is None:
            jitter = [0.0, 0.25][rng.randint(2)]
        raw = gen.raw_mesh(rng, g, size=size, jitter=jitter, holes=(0.3 if holes is None and rng.rand() < 0.3 else holes or 0.0))
        if equal:    # A uniform grid.
            raw = gen.raw_mesh(rng, g, size=size, jitter=0.0, affine=False)
            h = 0.3 + rng.rand(self.dim)
            raw['coors'] = np.stack([np.unique(np.round(x, 9), return_inverse=True)[1] * b for x, b in zip(raw['coors'].T, h)], -1)
        raw['coors'] = raw['coors'] * scale
        if shift is not None:
            raw['coors'] = raw['coors'] + shift
        self.raw = raw
        self.dom = gen.to_domain(raw)
        self.om = self.reg = self.dom.create_region('Omega', 'all')
        self.X = np.asarray(self.dom.get_mesh_coors())
        self.all = self.conn = np.asarray(self.dom.get_conn(tdim=self.dim))
        self.cells = np.arange(len(self.conn))
        if sub:
            self.cells = np.sort(rng.permutation(len(self.all))[:rng.randint(1, max(2, len(self.all)))])
            self.reg = self.dom.create_region('Sub', 'cell ' + ', '.join(map(str, self.cells)))
            self.conn = self.all[self.cells]
        E = self.X[self.conn]
        self.sizes = np.linalg.norm(E.max(1) - E.min(1), axis=1)
        self.h = self.sizes.max()

    def place(self, c, xi):
        """Points of the reference coordinates xi[i] in the cells c[i]."""
        N = fe.shape(self.g, xi)[0]
        return np.einsum('in,ind->id', N, self.X[self.conn[c]])

    def place_all(self, xi):
        return np.einsum('qn,cnd->cqd', fe.shape(self.g, xi)[0], self.X[self.conn])

    def ref(self, c, Y):
        """Reference coordinates of Y[i] in the cells c[i], not limited to the cell; nan where there are none."""
        E = self.X[self.conn[c]]
        xi = np.tile(fe.VERT[self.g].mean(0), (len(Y), 1))
        h = np.abs(E - E[:, :1]).max((1, 2))
        for _ in range(60):
            N, G = fe.shape(self.g, xi)
            r = np.einsum('in,ind->id', N, E) - Y
            J = np.einsum('inj,nid->ijd', np.swapaxes(G, 1, 2), np.swapaxes(E, 0, 1)) if False else np.einsum('qin,qnd->qdi', G, E)
            det = np.linalg.det(J)
            bad = np.abs(det) < 1e-12 * h**self.dim
            J[bad] = np.eye(self.dim)
            xi = xi - np.clip(np.linalg.solve(J, r[..., None])[..., 0], -5, 5)
        N = fe.shape(self.g, xi)[0]
        r = np.einsum('in,ind->id', N, E) - Y
        xi[np.abs(r).max(1) > 1e-9 * h] = np.nan
        return xi

    def dist(self, xi):
        """Distance in reference coordinates as documented in the code: 0 in the cell."""
        if self.g in ('2_3', '3_4'):
            d = np.maximum(-xi, 0)**2
            return np.sqrt(d.sum(-1) + np.maximum(xi.sum(-1) - 1, 0)**2)
        return np.sqrt((np.maximum(-xi, 0)**2 + np.maximum(xi - 1, 0)**2).sum(-1))

    def depth(self, Y):
        """The smallest distance (reference coordinates) of points to the cells."""
        out = np.full(len(Y), np.inf)
        for c in range(len(self.conn)):
            d = self.dist(self.ref(np.full(len(Y), c), Y))
            out = np.fmin(out, d)
        return out

    def field(self, order, shape='scalar', dtype=np.float64, reg=None, basis='lagrange', name='f'):
        from sfepy.discrete.fem import Field
        return Field.from_args(name, dtype, shape, reg or self.reg, approx_order=order, poly_space_basis=basis)

def variable(f, d, name='u'):
    from sfepy.discrete import FieldVariable
    v = FieldVariable(name, 'parameter', f, primary_var_name='(set-to-None)')
    v.set_data(d)
    return v

def values(w, f, xi, d, grad=False):
    """(n_cell, n_point, n_comp[, dim]) of the function of the coefficients."""
    V = View(f, f.region, xi)
    n = f.n_components
    if not grad:
        return V.val(d.ravel())
    V.var.set_data(np.ascontiguousarray(d.ravel()))
    r = V.var.evaluate(mode='grad', integral=V.integral, integration='cell', region=f.region)
    r = np.asarray(r).copy()
    # Gradients are (dim, n_comp).
    return np.swapaxes(r, -1, -2)

def sample(rng, g, n, edge=False):
    xi = points(rng, g, n, boundary=0.5 if edge else 0.0)
    if not edge:
        m = fe.VERT[g].mean(0)
        xi = m + (xi - m) * 0.97
    return xi

def setup(rng, case, **kw):
    w = World(rng, case['mesh'], sub=case.get('sub', False), **kw)
    nc = [1, w.dim, 2 if w.dim == 3 else 3][rng.randint(3)]
    if case['order'] == 0:
        f = w.field(0, (nc,))
    else:
        f = w.field(case['order'], (nc,))
    d = rng.randn(f.n_nod, nc)
    return w, nc, f, d

SCALE = [1e-6, 1e-3, 1.0, 1e3, 1e6]

def run_inside(mon, case):
    rng = gen.rngof(case)
    kw = {}
    s = 1.0
    if case.get('scale'):
        s = SCALE[rng.randint(5)]
        kw = dict(scale=s)
        if rng.rand() < 0.3:
            kw['shift'] = s * rng.uniform(-50, 50, int(case['mesh'][0]))
        mon.event('scaled')
    w, nc, f, d = setup(rng, case, **kw)
    mon.sig(case['mesh'], case['order'], case.get('sub'), w.raw.get('holes'), nc, s)
    if case.get('sub'):
        mon.event('subregion')
    if len(w.all) < np.prod([4] * w.dim if w.dim == 2 else [2] * 3):
        mon.event('holes')
    g = w.g
    xi = sample(rng, g, 4)
    V = values(w, f, xi, d)
    G = values(w, f, xi, d, grad=True)
    Y = w.place_all(xi)
    ic, iq = [a.ravel() for a in np.mgrid[:len(w.conn), :len(xi)]]
    perm = rng.permutation(len(ic))
    ic, iq = ic[perm], iq[perm]
    Yp = np.ascontiguousarray(Y[ic, iq])
    v = variable(f, d.ravel())
    cache = None
    how = ['variable', 'field', 'cache'][rng.randint(3)]
    if how == 'cache':
        cache = f.get_evaluate_cache(share_geometry=bool(rng.randint(2)))
        mon.event('cache')
    def ev(Y, **kw):
        if how == 'field':
            return f.evaluate_at(Y, d, **kw)
        return v.evaluate_at(Y, cache=cache, **kw)
    cl = [0.0, 0.1, 1e-3, 5.0][rng.randint(4)]
    strat = 'general'
    out, rc, cells, status = ev(Yp, close_limit=cl, ret_ref_coors=True, strategy=strat)
    mon.event('located')
    tag = '%s order %d, close limit %g, %s%s: ' % (g, case['order'], cl, how, ', subregion' if case.get('sub') else '')
    mon.ok('located', (np.asarray(status) == 0).all(), tag + 'status of inner points: %s' % np.unique(status))
    mon.ok('located', np.array_equal(cells, ic) if not case.get('sub') else len(cells) == len(ic), tag + 'cells of inner points')
    good = np.asarray(status) == 0
    if not good.any():
        return
    tol = 1e-7 if g in ('2_4', '3_8') else 1e-9
    sc = np.abs(d).max()
    if not case.get('sub'):
        mon.event('mapped back')
        mon.close('mapped back', np.asarray(rc)[good], xi[iq][good], atol=tol, rtol=0, msg=tag + 'reference coordinates')
    mon.event('value')
    mon.close('value', np.asarray(out)[good][..., 0], V[ic, iq][good], atol=10 * tol * sc, rtol=0, msg=tag + 'values')
    if case['order'] > 0:
        mon.event('gradient')
        gr = ev(Yp, close_limit=cl, mode='grad')
        mon.close('gradient', np.asarray(gr)[good], G[ic, iq][good], atol=1000 * tol * max(sc / w.sizes.min(), np.abs(G).max()), rtol=0,
                  msg=tag + 'gradients')
        if nc == w.dim:
            mon.event('div')
            mon.event('strain')
            dv = np.asarray(ev(Yp, mode='div', close_limit=cl)).ravel()
            mon.close('div', dv[good], np.trace(G, axis1=-2, axis2=-1)[ic, iq][good], atol=1000 * tol * np.abs(G).max(), rtol=0, msg=tag + 'div')
            st = np.asarray(ev(Yp, mode='cauchy_strain', close_limit=cl))
            st = st.reshape(len(Yp), -1)
            e = np.stack([0.5 * (G[..., i, j] + G[..., j, i]) * (1 if i == j else 2) for i, j in SYM[w.dim]], -1)
            mon.close('strain', st[good], e[ic, iq][good], atol=1000 * tol * np.abs(G).max(), rtol=0, msg=tag + 'strain')
    # On facets and vertices: any cell is right, functions are continuous.
    if case['order'] > 0:
        xe = np.concatenate([sample(rng, g, 6, edge=True), fe.VERT[g]])
        Ve = values(w, f, xe, d)
        Ye = w.place_all(xe)
        c = rng.randint(len(w.conn), size=12)
        q = rng.randint(len(xe), size=12)
        if rng.rand() < 0.5:
            q[:6] = len(xe) - 1 - rng.randint(len(fe.VERT[g]), size=6)
        mon.event('vertices')
        mon.event('facets')
        P = np.ascontiguousarray(Ye[c, q])
        o, st2 = [np.asarray(a) for a in ev(P, close_limit=max(cl, 1e-5), ret_status=True)][::2]
        mon.ok('located', (st2 <= 1).all(), tag + 'points of facets and vertices not found: %s' % np.unique(st2))
        mon.close('facets', o[st2 <= 1][..., 0], Ve[c, q][st2 <= 1], atol=100 * tol * sc, rtol=0, msg=tag + 'values in facets and vertices')
        # The coordinates of the vertices give the first coefficients.
        if case['order'] == 1 and how != 'field':
            vx = np.ascontiguousarray(f.get_coor())
            o = np.asarray(ev(vx, close_limit=max(cl, 1e-5)))[..., 0]
            mon.close('vertices', o, d, atol=100 * tol * sc, rtol=0, msg=tag + 'nodal values')
    m = fe.VERT[g].mean(0)[None]
    mon.event('centroids')
    Vc = values(w, f, m, d)[:, 0]
    Yc = np.ascontiguousarray(w.place_all(m)[:, 0])
    o, st3 = [np.asarray(a) for a in ev(Yc, close_limit=cl, ret_status=True)][::2]
    mon.ok('centroids', (st3 == 0).all(), tag + 'centroids not found: %s' % np.unique(st3))
    mon.close('centroids', o[..., 0], Vc, atol=100 * tol * sc, rtol=0, msg=tag + 'values in centroids')
    # Convex strategy.
    if case.get('sub') or len(w.conn) != len(w.raw['conns'][g]) or not box(w):
        return
    mon.event('strategy')
    for Z, want, what in ((Yp, V[ic, iq], 'inner points'), (Yc, Vc, 'centroids')):
        o, cc, st4 = [np.asarray(a) for a in ev(Z, close_limit=cl, ret_status=True, strategy='convex')]
        mon.ok('strategy', (st4 == 0).all(), tag + 'convex: %s not found: %s' % (what, np.unique(st4)))
        mon.close('strategy', o[st4 == 0][..., 0], want[st4 == 0], atol=100 * tol * sc, rtol=0, msg=tag + 'convex: values in %s' % what)
        if what == 'inner points' and case['order']:
            o = np.asarray(ev(Z, close_limit=cl, mode='grad', strategy='convex'))
            mon.close('strategy', o[st4 == 0], G[ic, iq][st4 == 0], atol=1000 * tol * max(sc / w.sizes.min(), np.abs(G).max()), rtol=0,
                      msg=tag + 'convex: gradients')
    if case['order'] > 0:
        o, st2 = [np.asarray(a) for a in ev(P, close_limit=max(cl, 1e-5), ret_status=True, strategy='convex')][::2]
        mon.ok('strategy', (st2 <= 1).all(), tag + 'convex: points of facets and vertices not found: %s' % np.unique(st2))
        mon.close('strategy', o[st2 <= 1][..., 0], Ve[c, q][st2 <= 1], atol=100 * tol * sc, rtol=0, msg=tag + 'convex: values in facets and vertices')

def box(w):
    """Is the domain convex: its volume is the one of the hull."""
    from scipy.spatial import ConvexHull
    xi, wt = fe.rule(w.g, 3)
    J = fe.mapped(w.g, w.X, w.conn, xi)[1]
    vol = (fe.measure(J) * wt).sum()
    hull = ConvexHull(w.X[np.unique(w.conn)]).volume
    return abs(vol - hull) < 1e-9 * hull

def uniform(w):
    """Do the cells form a grid of equal boxes?"""
    if w.g not in ('2_4', '3_8') or len(w.conn) != len(w.all):
        return False
    E = w.X[w.conn]
    lo, hi = E.min(1), E.max(1)
    tol = 1e-10 * w.h
    return (np.abs((hi - lo) - (hi - lo)[0]).max() < tol and
            (np.minimum(np.abs(E - lo[:, None]), np.abs(E - hi[:, None])).max() < tol) and box(w))

def run_disc(mon, case):
    """Discontinuous fields: values of the containing cell."""
    from sfepy.discrete.fem import Field
    rng = gen.rngof(case)
    w = World(rng, case['mesh'])
    g = w.g
    f = Field.from_args('f', np.float64, 'scalar', w.om, approx_order=1 + rng.randint(2), space='H1', poly_space_basis='lagrange') if False else \
        w.field(0)
    d = rng.randn(f.n_nod, 1)
    mon.event('discontinuous')
    xi = sample(rng, g, 3)
    V = values(w, f, xi, d)
    Y = w.place_all(xi).reshape(-1, w.dim)
    o = np.asarray(f.evaluate_at(np.ascontiguousarray(Y), d))[..., 0]
    mon.sig(g, len(w.conn))
    mon.close('discontinuous', o, V.reshape(-1, 1), rtol=1e-9, msg='%s: constants of the cells' % g)
    # Complex coefficients.
    f = w.field(1 + rng.randint(2), (2,), dtype=np.complex128)
    d = rng.randn(f.n_nod, 2) + 1j * rng.randn(f.n_nod, 2)
    fr = w.field(f.approx_order, (2,), name='r')
    mon.event('complex')
    for mode in ('val', 'grad'):
        o = np.asarray(f.evaluate_at(np.ascontiguousarray(Y), d, mode=mode))
        r = [np.asarray(fr.evaluate_at(np.ascontiguousarray(Y), np.ascontiguousarray(x), mode=mode)) for x in (d.real, d.imag)]
        mon.close('complex', o, r[0] + 1j * r[1], rtol=1e-12, msg='%s: complex %s' % (g, mode))
    v = variable(f, d.ravel())
    o = np.asarray(v.evaluate_at(np.ascontiguousarray(Y)))
    mon.close('complex', o, f.evaluate_at(np.ascontiguousarray(Y), d), rtol=1e-13, msg='complex variable')
    far = np.ascontiguousarray(w.X.max(0)[None] + 5 * w.h)
    o = np.asarray(v.evaluate_at(far))
    mon.ok('nan', np.isnan(o).all(), 'complex: outside points give %s' % o)

def run_outside(mon, case):
    rng = gen.rngof(case)
    w, nc, f, d = setup(rng, case, equal=case.get('equal', False))
    g = w.g
    mon.sig(g, case['order'], case.get('sub'), len(w.conn))
    # Around the domain (or the region) and in its holes.
    L = w.X.min(0), w.X.max(0)
    n = 60
    Y = L[0] + (L[1] - L[0]) * rng.uniform(-0.4, 1.4, (n, w.dim))
    # Points close to the boundary cells.
    c = rng.randint(len(w.conn), size=n)
    xi = fe.VERT[g].mean(0) + (sample(rng, g, n, edge=True) - fe.VERT[g].mean(0)) * rng.uniform(0.9, 1.3, (n, 1))
    Y = np.ascontiguousarray(np.r_[Y, w.place(c, xi)])
    Y = Y[rng.permutation(len(Y))]
    depth = w.depth(Y)
    inside = depth < 1e-9
    clear = depth > 1e-6
    cl = [0.0, 0.02, 0.1, 0.3, 1.0][rng.randint(5)]
    strats = ['general']
    if not case.get('sub') and box(w):
        strats.append('convex')
    v = variable(f, d.ravel())
    sc = np.abs(d).max()
    for strat in strats:
        o, rc, cells, st = [np.asarray(a) for a in v.evaluate_at(Y, strategy=strat, close_limit=cl, ret_ref_coors=True)]
        tag = '%s order %d %s, close limit %g%s: ' % (g, case['order'], strat, cl, ', subregion' if case.get('sub') else '')
        mon.event('outside')
        mon.ok('outside', (st[inside] == 0).all(), tag + 'status of points inside: %s' % np.unique(st[inside]))
        mon.ok('outside', (st[clear] != 0).all(), tag + 'points outside have status 0')
        mon.ok('outside', np.isin(st, [0, 1, 2, 3, 4, 5]).all(), tag + 'status %s' % np.unique(st))
        if cl == 0:
            mon.ok('outside', np.isin(st[clear], [3, 4, 5]).all(), tag + 'status of points outside: %s' % np.unique(st[clear]))
            mon.event('limit')
        else:
            mon.ok('outside', np.isin(st[clear], [1, 2, 4]).all(), tag + 'status of points outside: %s' % np.unique(st[clear]))
        # The limit applies to the distance from the returned cell.
        k = np.where(st <= 2)[0]
        if case.get('sub') and case['order'] == 0:
            continue
        xi = w.ref(cells[k], Y[k])
        ok = np.isfinite(xi).all(1)
        k, xi = k[ok], xi[ok]
        di = w.dist(xi)
        if cl > 0:
            mon.event('limit')
            one = st[k] == 1
            mon.ok('limit', (di[one] < cl * (1 + 1e-6) + 1e-7).all(), tag + 'extrapolated from the distance %s' % di[one].max(initial=0))
            two = st[k] == 2
            # Far from distorted cells there are other solutions.
            back = np.abs(w.place(cells[k], rc[k]) - Y[k]).max(1) < 1e-7 * w.h
            other = two & back & (np.abs(rc[k] - xi).max(1) > 1e-4)
            if other.any():
                mon.event('other solution')
            di = np.where(other, w.dist(rc[k]), di)
            mon.ok('limit', (di[two] > cl * (1 - 1e-6) - 1e-7).all(), tag + 'refused in the distance %s' % di[two].min(initial=np.inf))
        if strat == 'general' and uniform(w):
            # Cells of a uniform grid: those closest to the points are always found.
            mon.event('closest')
            mon.close('closest', di, depth[k], atol=1e-6, rtol=1e-6, msg=tag + 'distances from the returned and the closest cells')
            near = depth < cl * (1 - 1e-6) - 1e-7
            mon.ok('closest', (st[near] <= 1).all(), tag + 'refused points in the distance %s' % depth[near][st[near] > 1].min(initial=np.inf))
        # Values of the function of the returned cell.
        e = np.where((st[k] <= 1) & (di < 2))[0]
        if len(e):
            mon.close('mapped back', rc[k[e]], xi[e], atol=1e-6, rtol=0, msg=tag + 'reference coordinates of the returned cells')
            out = 0
            for i in e[:40]:
                if st[k[i]] == 1:
                    mon.event('extrapolated')
                    out += 1
                want = extrapolate(w, f, d, cells[k[i]], xi[i])
                mon.close('extrapolated' if st[k[i]] == 1 else 'value', o[k[i], :, 0], want, atol=1e-5 * sc * (1 + di[i])**3, rtol=1e-6,
                          msg=tag + 'value of the point %s, cell %d, status %d' % (Y[k[i]], cells[k[i]], st[k[i]]))
        # Without the status, values are nan where not allowed.
        o2 = np.asarray(v.evaluate_at(Y, strategy=strat, close_limit=cl))
        mon.event('nan')
        mon.ok('nan', np.array_equal(np.isnan(o2).all((1, 2)), st > 1) and np.array_equal(np.isnan(o2).any((1, 2)), st > 1),
               tag + 'nans do not agree with the status')
        mon.close('nan', o2[st <= 1], o[st <= 1], rtol=1e-13, msg=tag + 'values without the status')

def extrapolate(w, f, d, cell, xi):
    """The function of a cell in any reference coordinates: fit of its polynomial."""
    key = (id(f), 'fit')
    o = max(f.approx_order, 1)
    g = w.g
    rs = np.random.RandomState(0)
    P = points(rs, g, 80, boundary=0.0)
    es = exps(g, o)
    A = np.stack([np.prod(P**e, axis=1) for e in es], 1)
    cache = w.__dict__.setdefault('fits', {})
    if key not in cache:
        V = values(w, f, P, d)
        cache[key] = [np.linalg.lstsq(A, V[c], rcond=None)[0] for c in range(len(V))]
    return np.array([np.prod(xi**e) for e in es]) @ cache[key][cell]

def exps(g, o):
    import itertools
    out = []
    for e in itertools.product(range(o + 1), repeat=int(g[0])):
        if g in ('2_4', '3_8') or sum(e) <= o:
            out.append(np.array(e))
    return out

def run_histories(mon, case):
    """Caches, batches, orders of points, cell candidates and cell numbering."""
    rng = gen.rngof(case)
    w, nc, f, d = setup(rng, case)
    g = w.g
    tag = '%s order %d: ' % (g, case['order'])
    mon.sig(g, case['order'], len(w.conn))
    xi = sample(rng, g, 2, edge=False)
    Y = w.place_all(xi).reshape(-1, w.dim)
    Y = np.ascontiguousarray(np.r_[Y, w.X.min(0) + np.ptp(w.X, 0) * rng.uniform(-0.2, 1.2, (20, w.dim))])
    Y = Y[rng.permutation(len(Y))].copy()
    v = variable(f, d.ravel())
    cl = [0.0, 0.05, 0.3][rng.randint(3)]
    ref = np.asarray(v.evaluate_at(Y, close_limit=cl))
    def same(out, what, ev='cache', tol=1e-10):
        mon.event(ev)
        if mon.ok(ev, np.array_equal(np.isnan(out), np.isnan(want)), tag + what + ': other points are found'):
            mon.close(ev, np.nan_to_num(out), np.nan_to_num(want), atol=tol * np.abs(d).max(), rtol=0, msg=tag + what)
    want = ref
    # Batches and orders.
    p = rng.permutation(len(Y))
    o = np.empty_like(ref)
    o[p] = v.evaluate_at(np.ascontiguousarray(Y[p]), close_limit=cl)
    same(o, 'permuted points', 'batch')
    o = np.concatenate([v.evaluate_at(np.ascontiguousarray(y), close_limit=cl) for y in np.array_split(Y, [1, 3, 10])])
    same(o, 'batches', 'batch')
    # Layouts of the arrays.
    o = v.evaluate_at(np.asfortranarray(Y), close_limit=cl)
    same(np.asarray(o), 'fortran ordered points', 'batch')
    # Caches: the geometry, several evaluations, other coefficients.
    cache = f.get_evaluate_cache(share_geometry=True)
    same(np.asarray(v.evaluate_at(Y, close_limit=cl, cache=cache)), 'cache')
    same(np.asarray(v.evaluate_at(Y, close_limit=cl, cache=f.get_evaluate_cache(cache, share_geometry=True))), 'cache, second use')
    # Reference coordinates.
    o, rc, cells, st = v.evaluate_at(Y, close_limit=cl, ret_ref_coors=True)
    cache.ref_coors, cache.cells, cache.status = rc, cells, st
    same(np.asarray(v.evaluate_at(Y, close_limit=cl, cache=cache)), 'cached reference coordinates')
    f2 = w.field(3 - case['order'], (nc,), name='f2')
    d2 = rng.randn(f2.n_nod, nc)
    a = np.asarray(f2.evaluate_at(Y, d2, close_limit=cl))
    b = np.asarray(f2.evaluate_at(Y, d2, close_limit=cl, cache=cache))
    mon.ok('cache', np.array_equal(np.isnan(a), np.isnan(b)), tag + 'cached reference coordinates in another field: other points found')
    mon.close('cache', np.nan_to_num(b), np.nan_to_num(a), rtol=1e-9, atol=1e-9, msg=tag + 'cached reference coordinates in another field')
    # Candidates of cells.
    def all_cells(coors, cmesh, **kw):
        n = cmesh.n_el
        pc = np.tile(np.arange(n, dtype=np.int32), len(coors))
        return pc, (n * np.arange(len(coors) + 1)).astype(np.int32)
    mon.event('get_cells_fun')
    o, cc, s2 = [np.asarray(x) for x in v.evaluate_at(Y, close_limit=cl, get_cells_fun=all_cells, ret_status=True)]
    st = np.asarray(st)
    mon.ok('get_cells_fun', np.array_equal(st == 0, s2 == 0), tag + 'other points are inside with all the cells as candidates')
    k = st == 0
    mon.close('get_cells_fun', o[k], ref[k], rtol=1e-8, atol=1e-8, msg=tag + 'all the cells as candidates')
    # Another numbering of the cells and vertices.
    n = len(w.X)
    q = rng.permutation(n)
    qc = rng.permutation(len(w.conn))
    iq = np.argsort(q)
    raw = dict(w.raw, coors=w.X[q], conns={g: iq[w.conn][qc].astype(np.int32)})
    if 'mat_ids' in raw:
        raw['mat_ids'] = {g: np.zeros(len(qc), dtype=np.int32)}
    from sfepy.discrete.fem import Mesh, FEDomain, Field
    m = Mesh.from_data('q', np.ascontiguousarray(raw['coors']), None, [raw['conns'][g]], [np.zeros(len(qc), dtype=np.int32)], [g])
    dom = FEDomain('q', m)
    om = dom.create_region('Omega', 'all')
    f3 = Field.from_args('f3', np.float64, (nc,), om, approx_order=case['order'])
    # The same function: nodes by their places.
    from scipy.spatial import cKDTree
    dd, ii = cKDTree(np.asarray(f.get_coor())).query(np.asarray(f3.get_coor()))
    mon.ok('numbering', dd.max() < 1e-10, 'nodes do not match')
    mon.event('numbering')
    k = st == 0
    o, cc, s3 = [np.asarray(x) for x in f3.evaluate_at(Y, np.ascontiguousarray(d[ii]), close_limit=cl, ret_status=True)]
    mon.ok('numbering', np.array_equal(s3 == 0, k), tag + 'other points are inside of the renumbered mesh')
    mon.close('numbering', o[k], ref[k], rtol=1e-7, atol=1e-7, msg=tag + 'renumbered mesh')

def make_probe(rng, w, which, n=None):
    """A probe with its documented points for the parameters: probe, fun(pars)."""
    from sfepy.discrete import probes
    lo, hi = w.X.min(0), w.X.max(0)
    def pt():
        return lo + (hi - lo) * rng.uniform(0.05, 0.95, w.dim)
    share = bool(rng.randint(2))
    if which == 'points':
        P = np.array([pt() for _ in range(n or 7)])
        return probes.PointsProbe(P, share_geometry=share), lambda t: P[t.astype(int)]
    if which == 'line':
        a, b = pt(), pt()
        nv = (b - a) / np.linalg.norm(b - a)
        return probes.LineProbe(a, b, n, share_geometry=share), lambda t: a + t[:, None] * nv
    if which == 'ray':
        a, e = pt(), rng.randn(w.dim)
        s = 0.05 * np.linalg.norm(hi - lo)
        fun = [lambda x: s * x, lambda x: s * x**1.5, lambda x: s * (np.exp(0.2 * x) - 1)][rng.randint(3)]
        def p_fun(x):
            return fun(x)
        both = bool(rng.randint(2))
        p = probes.RayProbe(a, e, p_fun, n or 6, both, share_geometry=share)
        nv = e / np.linalg.norm(e)
        p.expected = (fun, both)
        return p, lambda t: a + t[:, None] * nv
    c = lo + (hi - lo) * rng.uniform(0.4, 0.6, w.dim)
    nv = rng.randn(3)
    if rng.rand() < 0.3:
        nv = np.array([[0, 0, 1.0], [0, 0, -2.0], [1.0, 0, 0], [0, 1e-3, 1.0]][rng.randint(4)])
    r = 0.3 * (hi - lo).min()
    return probes.CircleProbe(c, nv[:3] if w.dim == 3 else [0, 0, 1], r, n, share_geometry=share), (c, nv / np.linalg.norm(nv), r)

def check_geometry(mon, w, which, p, place, pars, pts, n):
    """The positions of the probe."""
    ev = which + ' probe'
    mon.event(ev)
    pars, pts = np.asarray(pars), np.asarray(pts)
    sc = np.ptp(w.X, 0).max()
    mon.ok(ev, pars.shape == (len(pts),) and pts.shape[1] == w.dim, '%s: shapes %s, %s' % (ev, pars.shape, pts.shape))
    if which == 'circle':
        c, nv, r = place
        y = pts - c
        mon.close(ev, np.linalg.norm(y, axis=1), np.full(len(y), r), rtol=1e-10, msg='%s: distance from the centre' % ev)
        if w.dim == 3:
            mon.close(ev, y @ nv, np.zeros(len(y)), atol=1e-9 * sc, rtol=0, msg='%s: distance from the plane of the circle' % ev)
        else:
            mon.close(ev, y, r * np.c_[np.cos(pars), np.sin(pars)], atol=1e-9 * sc, rtol=0, msg='%s: places' % ev)
        # Equal angles of the parameters and places.
        a = (y * y[0]).sum(1) / r**2
        mon.close(ev, a, np.cos(pars - pars[0]), atol=1e-9, rtol=0, msg='%s: angles' % ev)
        mon.ok(ev, (np.diff(pars) > 0).all() and pars[0] >= 0 and pars[-1] < 2 * np.pi, '%s: parameters' % ev)
        if n:
            mon.close(ev, pars, 2 * np.pi * np.arange(n) / n, rtol=1e-10, atol=1e-12, msg='%s: evenly spaced' % ev)
        return
    mon.close(ev, pts, place(pars), atol=1e-10 * sc, rtol=0, msg='%s: places' % ev)
    if which == 'line':
        mon.ok(ev, (np.diff(pars) > 0).all(), '%s: parameters' % ev)
        mon.close(ev, pts[[0, -1]], np.array([p.p0, p.p1]), atol=1e-10 * sc, rtol=0, msg='%s: ends' % ev)
        if n:
            mon.close(ev, pars, np.linspace(0, np.linalg.norm(p.p1 - p.p0), n), atol=1e-10 * sc, rtol=0, msg='%s: evenly spaced' % ev)
    if which == 'ray':
        fun, both = p.expected
        t = fun(np.arange(n or 6, dtype=float))
        t = np.r_[-t[::-1], t] if both else t
        mon.close(ev, pars, t, rtol=1e-12, msg='%s: parameters' % ev)
    if n and which != 'ray':
        mon.ok(ev, len(pars) == n, '%s: %d points, %d required' % (ev, len(pars), n))

def run_probes(mon, case):
    from sfepy.discrete import probes
    probes.Probe.cache = type(probes.Probe.cache)(name='probe_shared_evaluate_cache')
    rng = gen.rngof(case)
    w, nc, f, d = setup(rng, case)
    g = w.g
    v = variable(f, d.ravel())
    mon.sig(g, case['order'], len(w.conn), nc)
    results = {}
    for which in ('points', 'line', 'ray', 'circle'):
        n = [None, 2, 5, 13, -4][rng.randint(5)]
        if which in ('points', 'ray'):
            n = [3, 8][rng.randint(2)]
        p, place = make_probe(rng, w, which, n)
        cl = [None, 0.0, 0.3][rng.randint(3)]
        hint = None
        if cl is not None:
            p.set_options(close_limit=cl)
        if n is None or n <= 0:
            if rng.rand() < 0.4:
                hint = w.h * rng.uniform(0.2, 1.0)
                p.set_options(size_hint=hint)
        cl = 0.1 if cl is None else cl
        tag = '%s order %d, %s probe of %s points: ' % (g, case['order'], which, n)
        pars, pts, vals = p(v, ret_points=True)
        check_geometry(mon, w, which, p, place, pars, pts, n if n and n > 0 else None)
        # The values where decided.
        o, cells, st = [np.asarray(a) for a in v.evaluate_at(np.ascontiguousarray(pts), close_limit=cl, ret_status=True)]
        k = st <= 1
        vals = np.asarray(vals)
        mon.close('value', vals[k], o[k], rtol=1e-9, atol=1e-9, msg=tag + 'values in the points')
        if case['order'] and rng.rand() < 0.6:
            pars2, gr = p(v, mode='grad')
            mon.close('gradient', pars2, pars, rtol=1e-13, msg=tag + 'parameters of the second use')
            og = np.asarray(v.evaluate_at(np.ascontiguousarray(pts), close_limit=cl, mode='grad', ret_status=True)[0])
            mon.close('gradient', np.asarray(gr)[k], og[k], rtol=1e-8, atol=1e-8, msg=tag + 'gradients in the points')
        if which in ('line', 'circle') and (n is None or n <= 0):
            # Refined until neighbouring points are closer than the cells are large.
            mon.event('adaptive')
            dist = np.linalg.norm(np.diff(pts, axis=0), axis=1)
            if which == 'circle':
                dist = np.r_[dist, np.linalg.norm(pts[0] - pts[-1])]
            if hint is not None:
                lim = np.full(len(dist), hint)
            else:
                ed = np.asarray(v.get_element_diameters(cells.astype(np.int32), 0)).ravel()
                lim = 0.5 * (ed[1:] + ed[:-1])
                if which == 'circle':
                    lim = np.r_[lim, 0.5 * (ed[0] + ed[-1])]
            mon.ok('adaptive', (dist <= lim * (1 + 1e-9)).all(), tag + 'distances %s of neighbouring points, limits %s'
                   % (dist[dist > lim], lim[dist > lim]))
        results[which] = (p, pars, vals)
    # Written results.
    mon.event('results file')
    dn = core.scratch() if hasattr(core, 'scratch') else __import__('tempfile').mkdtemp(prefix='c19-')
    try:
        for which, (p, pars, vals) in results.items():
            fn = os.path.join(str(dn), 'r.txt')
            res = {'u': (pars, vals), 'v_2': (pars, 1e-7 * vals[..., 0])}
            probes.write_results(fn, p, res)
            hd, back = probes.read_results(fn)
            mon.ok('results file', hd.n_point == len(pars) and hd.probe_class == type(p).__name__ and set(back) == set(res),
                   '%s: header %s, names %s' % (which, hd.n_point, list(back)))
            for k in res:
                a = np.c_[pars, res[k][1].reshape(len(pars), -1)]
                mon.close('results file', np.nan_to_num(np.asarray(back[k])), np.nan_to_num(a), rtol=1e-14, msg='%s: results of %s' % (which, k))
            only = probes.read_results(fn, only_names=['v_2'])[1]
            mon.ok('results file', list(only) == ['v_2'], '%s: only_names gives %s' % (which, list(only)))
            if list(only) == ['v_2']:
                mon.close('results file', np.nan_to_num(np.asarray(only['v_2'])), np.nan_to_num(np.asarray(back['v_2'])), rtol=1e-14, msg='only_names')
            det = hd.details
            if which == 'points':
                mon.close('results file', np.array(det), p.points, atol=1e-7 * np.abs(w.X).max(), rtol=0, msg='points of the header')
            elif which == 'line':
                mon.close('results file', np.array(det), np.array([p.p0, p.p1]), atol=1e-7 * np.abs(w.X).max(), rtol=0, msg='ends of the header')
            elif which == 'ray':
                mon.ok('results file', bool(det[2]) == p.both_dirs, 'both directions: %s' % det[2])
                mon.close('results file', np.array(det[:2]), np.array([p.p0, p.dirvec]), atol=1e-7 * max(1, np.abs(w.X).max()), rtol=0, msg='ray of the header')
            else:
                mon.close('results file', det[0], p.centre, atol=1e-7 * np.abs(w.X).max(), rtol=0, msg='centre of the header')
                mon.close('results file', det[2], p.radius, rtol=1e-7, msg='radius of the header')
    finally:
        shutil.rmtree(str(dn), ignore_errors=True)
    integral_probe(mon, w, rng)

def integral_probe(mon, w, rng):
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Problem, Material
    from sfepy.discrete.probes import IntegralProbe
    from sfepy.terms import Term
    f = w.field(1, name='ip')
    from sfepy.discrete.fem.meshio import UserMeshIO
    from sfepy.base.conf import ProblemConf
    def hook(mesh, mode):
        if mode == 'read':
            return gen.to_mesh(w.raw)
    conf = dict(filename_mesh=UserMeshIO(hook), regions={'Omega': 'all'}, fields={'ip': ('real', 1, 'Omega', 1)},
                variables={'u': ('unknown field', 'ip', 0), 'v': ('test field', 'ip', 'u')},
                equations={'e': 'dw_laplace.2.Omega(v, u) = 0'}, solvers={'ls': ('ls.scipy_direct', {}), 'newton': ('nls.newton', {})})
    pb = Problem.from_conf(ProblemConf.from_dict(conf, __import__(__name__)))
    d = rng.randn(f.n_nod)
    u = FieldVariable('u', 'parameter', f, primary_var_name='(set-to-None)')
    u.set_data(d)
    ex = ['ev_integrate.2.Omega(u)', 'ev_volume.2.Omega(u)']
    p = IntegralProbe('ip', pb, ex, ['a', 'b'])
    xi, wt = fe.rule(w.g, 3)
    J = fe.mapped(w.g, w.X, w.conn, xi)[1]
    dv = fe.measure(J) * wt
    val = values(w, f, xi, d[:, None])[..., 0]
    mon.event('integral probe')
    for k, want in enumerate([(val * dv).sum(), dv.sum()]):
        got = p(k, None, var_dict={'u': u}, verbose=False)
        mon.close('integral probe', np.asarray(got).item(), want, rtol=1e-9, atol=1e-10, msg='integral probe of %s' % ex[k])

def run_probe_histories(mon, case):
    """Probes used repeatedly: other coefficients, fields, regions, points and limits."""
    from sfepy.discrete import probes
    probes.Probe.cache = type(probes.Probe.cache)(name='probe_shared_evaluate_cache')
    rng = gen.rngof(case)
    w = World(rng, case['mesh'], size={2: 4, 3: 2}[int(case['mesh'][0])])
    g = w.g
    n = len(w.all)
    sel = np.sort(rng.permutation(n)[:max(1, n // 2)])
    sub = w.dom.create_region('Sub', 'cell ' + ', '.join(map(str, sel)))
    fields = [w.field(case['order'], (1,), name='a'), w.field(3 - case['order'], (2,), name='b'), w.field(case['order'], (1,), reg=sub, name='c')]
    w2 = World(rng, case['mesh'])
    w2.share = False
    vs = [variable(f, rng.randn(f.n_nod * f.n_components), 'u%d' % i) for i, f in enumerate(fields)]
    ps = []
    for which in ('points', 'line', 'ray', 'circle'):
        k = [3, 9][rng.randint(2)] if which in ('points', 'ray') else [None, 4, 11][rng.randint(3)]
        ps.append((which,) + make_probe(rng, w, which, k))
    mon.sig(g, case['order'], len(w.conn))
    log = []
    limits = {}
    mon.event('probe reuse')
    for step in range(14):
        i = rng.randint(len(ps))
        which, p, place = ps[i]
        act = ['use', 'use', 'use', 'coefficients', 'limit', 'points'][rng.randint(6)]
        iv = rng.randint(len(vs))
        v = vs[iv]
        if act == 'coefficients':
            v.set_data(rng.randn(v.field.n_nod * v.field.n_components))
        elif act == 'limit':
            limits[i] = [0.0, 0.05, 0.5][rng.randint(3)]
            p.set_options(close_limit=limits[i])
        elif act == 'points' and which == 'points':
            # The places of a probe of points may be changed.
            lo, hi = w.X.min(0), w.X.max(0)
            P = lo + (hi - lo) * rng.rand(*p.points.shape)
            p.points = P
            ps[i] = (which, p, lambda t, P=P: P[t.astype(int)])
        log.append('%s %s %d(%s)' % (which, act, iv, 'abc'[iv]))
        cl = limits.get(i, 0.1)
        mode = ['val', 'val', 'grad'][rng.randint(3)]
        pars, pts, vals = p(v, ret_points=True, mode=mode)
        o, cells, st = [np.asarray(a) for a in v.evaluate_at(np.ascontiguousarray(pts), close_limit=cl, ret_status=True, mode=mode)]
        k = st <= 1
        tag = '%s, history %s, shared geometry: %s: ' % (g, '; '.join(log[-4:]), p.share_geometry)
        a, b = np.asarray(vals)[k], o[k]
        mon.close('probe reuse', a, b, rtol=1e-8, atol=1e-8 * max(1, np.abs(b).max(initial=0)), msg=tag + 'values (%s)' % mode)
        if st.max(initial=0) > 1:
            mon.ok('probe reuse', (np.asarray(vals)[~k] == 0).all() or np.isnan(np.asarray(vals)[~k]).all(), tag + 'values outside')
        if m_bad(mon):
            return

def m_bad(mon):
    return len(mon.violations) > 0

def run_other(mon, case):
    """set_from_other() and the like."""
    from sfepy.discrete import FieldVariable
    rng = gen.rngof(case)
    w = World(rng, case['mesh'], holes=0.0)
    o = case['order']
    nc = [1, w.dim][rng.randint(2)]
    f = w.field(o, (nc,))
    d = rng.randn(f.n_nod * nc)
    src = variable(f, d, 'u')
    mon.event('set_from_other')
    # Another mesh inside of the first one: exact in its nodes.
    w2 = World(rng, KINDS[:2][rng.randint(2)] if w.dim == 2 else KINDS[2:4][rng.randint(2)], holes=0.0)
    lo, hi = w.X.min(0), w.X.max(0)
    a, b = w2.X.min(0), w2.X.max(0)
    Z = lo + (hi - lo) * (0.1 + 0.9 * (w2.X - a) / (b - a))
    from sfepy.discrete.fem import Mesh, FEDomain, Field
    m = Mesh.from_data('o', Z, None, [w2.conn.astype(np.int32)], [np.zeros(len(w2.conn), dtype=np.int32)], [w2.g])
    om = FEDomain('o', m).create_region('Omega', 'all')
    f2 = Field.from_args('g', np.float64, (nc,), om, approx_order=1 + rng.randint(2))
    dst = FieldVariable('q', 'parameter', f2, primary_var_name='(set-to-None)')
    dst.set_constant(0.0)
    cl = [0.0, 0.1, 1.0][rng.randint(3)]
    mon.sig(w.g, w2.g, o, f2.approx_order, nc, cl)
    dst.set_from_other(src, strategy='interpolation', close_limit=cl)
    got = np.asarray(dst()).reshape(-1, nc)
    Y = np.ascontiguousarray(np.asarray(f2.get_coor()))
    want, cells, st = [np.asarray(x) for x in src.evaluate_at(Y, close_limit=cl, ret_status=True)]
    want[st > 1] = np.nan
    mon.ok('set_from_other', np.array_equal(np.isnan(got), np.isnan(want[..., 0])), 'undefined values')
    mon.close('set_from_other', np.nan_to_num(got), np.nan_to_num(want[..., 0]), rtol=1e-10, atol=1e-10, msg='interpolation to the nodes')
    dep = w.depth(Y)
    mon.ok('set_from_other', np.isfinite(got[dep < 1e-9]).all(), 'nodes in the source mesh are undefined')
    # The same mesh.
    f3 = w.field(o, (nc,), name='h')
    t = FieldVariable('t', 'parameter', f, primary_var_name='(set-to-None)')
    t.set_constant(0.0)
    t.set_from_other(src, strategy='interpolation')
    mon.close('set_from_other', np.asarray(t()), d, rtol=1e-10, atol=1e-10, msg='the same field')
    # A field of a higher order contains the function.
    f4 = w.field(o + 1, (nc,), name='k')
    t = FieldVariable('t4', 'parameter', f4, primary_var_name='(set-to-None)')
    t.set_constant(0.0)
    t.set_from_other(src, strategy='interpolation', close_limit=0.01)
    xi = sample(rng, w.g, 4)
    mon.close('set_from_other', values(w, f4, xi, np.asarray(t()).reshape(-1, nc)), values(w, f, xi, d.reshape(-1, nc)), rtol=1e-6,
              atol=1e-6 * np.abs(d).max(), msg='order %d to order %d on the same mesh' % (o, o + 1))

def run_bases(mon, case):
    """Fields of other bases: right values, or refusal."""
    rng = gen.rngof(case)
    w = World(rng, case['mesh'])
    f = w.field(case['order'], basis=case['basis'])
    d = rng.randn(f.n_nod, 1)
    xi = sample(rng, w.g, 3)
    V = values(w, f, xi, d)
    Y = np.ascontiguousarray(w.place_all(xi).reshape(-1, w.dim))
    mon.sig(w.g, case['basis'], case['order'])
    tag = '%s %s order %d: ' % (w.g, case['basis'], case['order'])
    mon.event('bases')
    try:
        o = np.asarray(f.evaluate_at(Y, d))[..., 0]
    except (NotImplementedError, ValueError):
        mon.event('bases refused')
        return
    mon.close('bases', o, V.reshape(-1, 1), rtol=1e-6, atol=1e-6, msg=tag + 'values')
    G = values(w, f, xi, d, grad=True)
    o = np.asarray(f.evaluate_at(Y, d, mode='grad'))
    mon.close('bases', o, G.reshape(o.shape), rtol=1e-5, atol=1e-5 * np.abs(G).max(), msg=tag + 'gradients')
