"""C26: Discontinuous Galerkin transport is conservative and bounded.

Monitor: DG fields on random meshes (intervals, triangles, quadrilaterals, holes, any numbering) are observed through their neighbour tables,
projections, flux terms (residuals and matrices), every stage of the explicit steppers and the limiters, and compared with own facet by facet
integration, the algebraic form of the schemes, conservation sums and total variation.
"""
import sys
import tempfile
import numpy as np
from rvm import gen, tdep

REQUIRED = ['neighbour', 'same facet', 'holes', 'normals', 'facet volumes', 'advection', 'advection matrix', 'conservation', 'diffusion avg_state',
            'diffusion avg_virtual', 'diffusion matrix', 'penalty', 'penalty matrix', 'nonlinear', 'nonlinear conservation', 'boundary data', 'projection',
            'nodal values', 'averages', 'orthogonal', 'step', 'mass', 'constant', 'hooks', 'periodic', 'limiter averages', 'limiter linear',
            'limiter reference', 'bounded', 'composed']
ASSUMPTIONS = ['constant velocities (values in the first quadrature point of a cell are used in all its facets)',
               'cells numbered along the interval with the 1D limiter; structured quadrilaterals with the 2D limiter',
               'data on boundaries do not depend on time in explicit steps; 3D cells and fields on subregions are not covered']

GEOMS = ['1_2', '2_3', '2_4']
RVERT = {'1_2': np.array([[0.], [1.]]), '2_3': np.array([[0., 0.], [1., 0.], [0., 1.]]),
         '2_4': np.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]])}
FACETS = {'1_2': [(0,), (1,)], '2_3': [(0, 1), (1, 2), (2, 0)], '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)]}

def cases(rng, tier):
    n = 2 if tier == 'quick' else 20
    out = []
    for g in GEOMS:
        out += [dict(kind='neighbour', mesh=g) for _ in range(12 * n)]
        out += [dict(kind='flux', mesh=g, cost=2) for _ in range(20 * n)]
        out += [dict(kind='project', mesh=g) for _ in range(10 * n)]
    for tss in ('ts.euler', 'ts.tvd_runge_kutta_3', 'ts.runge_kutta_4'):
        for g in GEOMS:
            for per in ((0, 1) if g != '2_3' else (0,)):
                out += [dict(kind='steps', tss=tss, mesh=g, periodic=per, cost=4) for _ in range(3 * n)]
    out += [dict(kind='limiter1') for _ in range(20 * n)]
    out += [dict(kind='limiter2', cost=2) for _ in range(20 * n)]
    out += [dict(kind='bounded', tss=t, cost=4) for t in ('ts.euler', 'ts.tvd_runge_kutta_3') for _ in range(4 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def prepare(tier):
    from sfepy.base.base import output
    output.set_output(quiet=True)

def quiet():
    from sfepy.base.base import output
    output.set_output(quiet=True)

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

# Meshes and reference evaluations.

def rmesh(rng, g, holes=None, affine_cells=False):
    shape = [4 + rng.randint(6)] if g == '1_2' else [3 + rng.randint(3), 3 + rng.randint(3)]
    if holes is None:
        holes = pick(rng, [0.0, 0.3]) if g != '1_2' else 0.0
    jit = 0.0 if affine_cells and (g == '2_4') else 0.3
    return gen.raw_mesh(rng, g, shape=shape, jitter=jit, holes=holes)

def grid_raw(rng, dim, shape, renumber=True):
    """Graded box."""
    raw = gen.raw_mesh(rng, '1_2' if dim == 1 else '2_4', shape=shape, jitter=0.0, affine=False, renumber=renumber, localperm=False)
    X = raw['coors']
    for i in range(dim):
        X[:, i] = (X[:, i] - X[:, i].min()) / (X[:, i].max() - X[:, i].min())
        X[:, i] = X[:, i] + 0.2 * (2 * rng.rand() - 1) * np.sin(np.pi * X[:, i])
        X[:, i] = (0.5 + rng.rand()) * X[:, i] + rng.randn()
    return raw

class Ref:
    """Own description of facets of a DG field."""

    def __init__(self, field, g, periodic=()):
        mesh = field.domain.mesh
        self.f, self.g = field, g
        self.X = mesh.coors.copy()
        self.C = np.asarray(mesh.get_conn(g))
        self.dim = self.X.shape[1]
        self.nc, self.nd = len(self.C), field.n_el_nod
        own = {}
        self.facets = []          # cell, local vertices
        for ic, c in enumerate(self.C):
            for lf, fv in enumerate(FACETS[g]):
                own.setdefault(tuple(sorted(c[list(fv)])), []).append((ic, lf))
                self.facets.append((ic, lf))
        self.nbr = {}
        for key, ff in own.items():
            if len(ff) == 2:
                self.nbr[ff[0]], self.nbr[ff[1]] = ff[1], ff[0]
        self.boundary = [ff[0] for ff in own.values() if len(ff) == 1]
        self.shift = {}
        for ax in periodic:
            lo, hi = self.X[:, ax].min(), self.X[:, ax].max()
            L = [ff for ff in self.boundary if np.allclose(self.xc(ff)[ax], lo)]
            R = [ff for ff in self.boundary if np.allclose(self.xc(ff)[ax], hi)]
            e = np.zeros(self.dim)
            e[ax] = hi - lo
            for a in L:
                d = [np.abs(self.xc(a) + e - self.xc(b)).max() for b in R]
                b = R[int(np.argmin(d))]
                assert min(d) < 1e-10
                self.nbr[a], self.nbr[b] = b, a
                self.shift[a], self.shift[b] = e, -e
        if self.dim == 1:
            self.s, self.w = np.array([0.5]), np.array([1.0])
        else:
            s, w = np.polynomial.legendre.leggauss(field.approx_order + 1)
            self.s, self.w = 0.5 * (s + 1), 0.5 * w

    def xv(self, ff):
        return self.X[self.C[ff[0]][list(FACETS[self.g][ff[1]])]]

    def xc(self, ff):
        return self.xv(ff).mean(axis=0)

    def qps(self, ff):
        v = self.xv(ff)
        if self.dim == 1:
            return v, 1.0
        return v[0] + self.s[:, None] * (v[1] - v[0]), np.linalg.norm(v[1] - v[0])

    def normal(self, ff):
        v = self.xv(ff)
        c = self.X[self.C[ff[0]]].mean(axis=0)
        if self.dim == 1:
            n = v[0] - c
        else:
            t = v[1] - v[0]
            n = np.array([t[1], -t[0]])
            if n @ (v.mean(axis=0) - c) < 0:
                n = -n
        return n / np.linalg.norm(n)

    def refpoints(self, ff, x):
        """Reference coordinates of points of a facet in its cell."""
        v = self.xv(ff)
        r = RVERT[self.g][list(FACETS[self.g][ff[1]])]
        if self.dim == 1:
            return r
        t = v[1] - v[0]
        s = ((x - v[0]) @ t) / (t @ t)
        return r[0] + s[:, None] * (r[1] - r[0])

    def basis(self, ff, x, diff=False):
        xi = np.ascontiguousarray(self.refpoints(ff, x))
        ps = self.f.poly_space
        if not diff:
            return np.asarray(ps.eval_basis(xi)).reshape(len(xi), self.nd)
        d = np.asarray(ps.eval_basis(xi, diff=1)).reshape(len(xi), self.dim, self.nd)
        v = self.X[self.C[ff[0]]]
        if self.g != '2_4':
            J = (v[1:] - v[0])[None].repeat(len(xi), 0)          # rows: dx/dxi_i
        else:
            a, b = xi[:, :1], xi[:, 1:]
            J = np.stack([(1 - b) * (v[1] - v[0]) + b * (v[2] - v[3]), (1 - a) * (v[3] - v[0]) + a * (v[2] - v[1])], axis=1)
        return np.linalg.solve(J, d)

    def both(self, ff, u, bfun=None, diff=False):
        """Inner and outer values (or gradients) of u in quadrature points."""
        x, _ = self.qps(ff)
        pin = self.basis(ff, x, diff) @ u[ff[0]]
        nb = self.nbr.get(ff)
        if nb is not None:
            y = x + self.shift.get(ff, 0.0)
            pout = self.basis(nb, y, diff) @ u[nb[0]]
        else:
            pout = np.zeros_like(pin) if bfun is None else bfun(x)
        return pin, pout

    def sum(self, fun):
        """fun(ff, x, normal) -> values in quadrature points multiplied by the test functions."""
        out = np.zeros((self.nc, self.nd))
        for ff in self.facets:
            x, L = self.qps(ff)
            val = fun(ff, x, self.normal(ff))
            if val.ndim == 1:
                val = val[:, None] * self.basis(ff, x)
            out[ff[0]] += L * (self.w @ val)
        return out

def make_field(rng, raw, order):
    import sfepy.discrete
    from sfepy.discrete.dg.fields import DGField
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    f = DGField('f', np.float64, 'scalar', om, approx_order=order)
    return dom, om, f

def make_vars(f):
    from sfepy.discrete import FieldVariable
    p = FieldVariable('p', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='p')
    return p, v

def eqs_of(terms, bcs=None):
    from sfepy.discrete import Equation, Equations
    e = Equations([Equation('e', terms)])
    e.time_update(None, ebcs=bcs)
    e.time_update_materials(None, verbose=False)
    e.init_state()
    return e

def matrix_of(e, x):
    mtx = e.create_matrix_graph(active_only=False) if 0 else None
    return mtx

def rdofs(rng, f):
    return rng.randn(f.n_cell, f.n_el_nod)

# Neighbours.

def run_neighbour(mon, case):
    rng = gen.rngof(case)
    quiet()
    g = case['mesh']
    raw = rmesh(rng, g)
    dom, om, f = make_field(rng, raw, int(rng.randint(0, 4)))
    p, v = make_vars(f)
    e = eqs_of(make_term('dw_dot(v, p)', f, p, v))
    ref = Ref(f, g)
    nb = np.asarray(f.get_facet_neighbor_idx(om, p.eq_map))
    mon.event('neighbour')
    mon.sig('neighbour', g, ref.nc, len(ref.boundary))
    mon.ok('neighbour', nb.shape == (ref.nc, len(FACETS[g]), 2), 'shape %s' % (nb.shape,))
    # Sets of neighbours of cells.
    want = [sorted(b[0] for a, b in ref.nbr.items() if a[0] == ic) for ic in range(ref.nc)]
    got = [sorted(int(i) for i in row if i >= 0) for row in nb[..., 0]]
    mon.ok('neighbour', want == got, 'cells have wrong neighbours: %s' % [(i, a, b) for i, (a, b) in enumerate(zip(want, got)) if a != b][:4])
    n_b = int((nb[..., 0] < 0).sum())
    if len(ref.boundary) > 2 * sum(raw['coors'].shape) * 0 and (g != '1_2'):
        mon.event('holes', int(n_b > 0))
    mon.ok('holes', n_b == len(ref.boundary), 'boundary facets: %d, expected %d' % (n_b, len(ref.boundary)))
    # Facet points of the local facets lie in the same positions on both sides.
    qp, _ = f.get_facet_qp()
    xq = np.asarray([[f_phys(ref, ic, qp[:, 0, k, :]) for k in range(qp.shape[2])] for ic in range(ref.nc)])
    nrm = np.asarray(f.get_cell_normals_per_facet(om))
    vol = np.asarray(f.get_facet_vols(om))
    for ic in range(ref.nc):
        # Identify the local facets by their points.
        for k in range(nb.shape[1]):
            cen = xq[ic, k].mean(axis=0)
            d = [np.abs(ref.xc((ic, lf)) - cen).max() for lf in range(len(FACETS[g]))]
            lf = int(np.argmin(d))
            mon.ok('same facet', min(d) < 1e-9, 'points of facet %d of cell %d are not in a facet' % (k, ic))
            b = ref.nbr.get((ic, lf))
            mon.event('same facet')
            if b is None:
                mon.ok('same facet', nb[ic, k, 0] < 0, 'boundary facet %d of cell %d has neighbour %s' % (k, ic, nb[ic, k]))
            else:
                jc, jk = nb[ic, k]
                ok = (jc == b[0]) and (0 <= jk < nb.shape[1])
                mon.ok('same facet', ok, 'facet %d of cell %d: neighbour %s, expected cell %d' % (k, ic, nb[ic, k], b[0]))
                if ok:
                    mon.close('same facet', xq[jc, jk][::-1], xq[ic, k], rtol=1e-9, atol=1e-9, msg='facet points from both cells')
                    mon.equal('same facet', nb[jc, jk], [ic, k], msg='neighbours are not mutual')
                    mon.close('normals', nrm[ic, k], -nrm[jc, jk], rtol=1e-9, atol=1e-9, msg='opposite normals')
            mon.event('normals')
            mon.close('normals', nrm[ic, k], ref.normal((ic, lf)), rtol=1e-9, atol=1e-9, msg='outer normal')
            mon.event('facet volumes')
            mon.close('facet volumes', np.ravel(vol[ic, k])[0], ref.qps((ic, lf))[1], rtol=1e-9, atol=1e-12, msg='facet volume')

def f_phys(ref, ic, xi):
    """Physical points by the vertices of the cell."""
    xi = np.atleast_2d(xi)
    v = ref.X[ref.C[ic]]
    if ref.g == '1_2':
        N = np.c_[1 - xi[:, 0], xi[:, 0]]
    elif ref.g == '2_3':
        N = np.c_[1 - xi.sum(axis=1), xi]
    else:
        a, b = xi.T
        N = np.c_[(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b]
    return N @ v

# Fluxes.

def make_term(text, f, p, v, order=None, **mats):
    from sfepy.discrete import Integral
    from sfepy.terms.terms import Term
    if order is None:
        order = 2 * max(f.approx_order, 1) + 1
    return Term.new(text, Integral('i', order=order), f.region, p=p, v=v, **mats)

def weak_matrix(e, x, n):
    """Matrix of the equations, all DOFs."""
    mtx = e.create_matrix_graph(active_only=False)
    mtx = mtx.astype(np.float64)
    mtx.data[:] = 0.0
    return e.eval_tangent_matrices(x, mtx)

def run_flux(mon, case):
    from sfepy.discrete import Material, Function
    from sfepy.discrete.conditions import Conditions, DGEssentialBC
    rng = gen.rngof(case)
    quiet()
    g = case['mesh']
    raw = rmesh(rng, g)
    order = int(rng.randint(0, 4))
    dom, om, f = make_field(rng, raw, order)
    dim = f.dim
    ref = Ref(f, g)
    u = rdofs(rng, f)
    x = u.ravel()
    mon.sig('flux', g, order, ref.nc)

    # Boundary data.
    bfun = gfun = bcs = None
    if rng.rand() < 0.5:
        cf = rng.randn(1 + dim)
        bfun = lambda y: np.cos(cf[0] + y @ cf[1:])
        gfun = lambda y: -np.sin(cf[0] + y @ cf[1:])[..., None] * cf[1:]
        facets = dom.create_region('Gamma', 'vertices of surface', 'vertex' if dim == 1 else 'facet')
        fun = Function('bf', lambda ts, coors, bc=None, problem=None: bfun(np.asarray(coors)))
        gf = Function('gf', lambda ts, coors, bc=None, problem=None: np.swapaxes(gfun(np.asarray(coors)), -1, -2))
        bcs = Conditions([DGEssentialBC('b', facets, {'p.all': fun}), DGEssentialBC('g', facets, {'p.all': gf}, diff=1)])
        mon.event('boundary data')
    bcon = 'boundary data' if bcs is not None else None

    def residual(text, **mats):
        p, v = make_vars(f)
        e = eqs_of(make_term(text, f, p, v, **mats), bcs)
        r = np.asarray(e.eval_residuals(x)).reshape(ref.nc, ref.nd).copy()
        return r, e

    def matrix(e, kind, r):
        """Matrix times DOFs is the residual without the boundary data."""
        mon.event(kind)
        m = weak_matrix(e, x, len(x))
        y = rng.randn(len(x))
        r2 = np.asarray(e.eval_residuals(y)).ravel()
        mon.close(kind, m @ (x - y), r.ravel() - r2, rtol=1e-9, atol=1e-9, msg='matrix and difference of residuals')

    def check(kind, got, want, what):
        mon.event(kind)
        sc = np.abs(want).max() + np.abs(got).max() + 1e-8
        mon.close(kind, got, want, rtol=1e-8, scale=sc, atol=1e-10, msg='%s, order %d' % (what, order))
        if bcon:
            mon.close(bcon, got, want, rtol=1e-8, scale=sc, atol=1e-10, msg='%s, order %d with boundary data' % (what, order))

    # Advection.
    a = rng.randn(dim)
    alpha = float(pick(rng, [0.0, 0.5, 1.0, rng.rand()]))
    mats = dict(a=Material('a', val=[a[:, None]]), al=Material('al', values={'.v': alpha}))
    given = rng.rand() < 0.7
    if not given:
        alpha = 0.0
    text = 'dw_dg_advect_laxfrie_flux(al.v, a.val, v, p)' if given else 'dw_dg_advect_laxfrie_flux(a.val, v, p)'
    if not given:
        mats.pop('al')
    r, e = residual(text, **mats)

    def adv(ff, y, n):
        pin, pout = ref.both(ff, u, bfun)
        return (a @ n) * 0.5 * (pin + pout) + 0.5 * (1 - alpha) * abs(a @ n) * (pin - pout)
    check('advection', r, ref.sum(adv), 'advection flux')
    matrix(e, 'advection matrix', r)
    # The first basis function is one: inner fluxes cancel.
    mon.event('conservation')
    bnd = 0.0
    for ff in ref.boundary:
        y, L = ref.qps(ff)
        bnd += L * (ref.w @ adv(ff, y, ref.normal(ff)))
    phi0 = ref.basis(ref.facets[0], ref.qps(ref.facets[0])[0])[0, 0]
    mon.close('conservation', r[:, 0].sum() / phi0, bnd, rtol=1e-9, scale=np.abs(r).max() + 1, msg='sum of fluxes and the boundary flux')

    # Nonlinear.
    def ff_lin(q):
        return q[..., None] * a
    def df_lin(q):
        return np.ones_like(q)[..., None] * a
    def ff_bur(q):
        return 0.5 * q[..., None]**2 * a
    def df_bur(q):
        return q[..., None] * a
    from sfepy.discrete.functions import Functions
    for nm_, fu, dfu in (('linear', ff_lin, df_lin), ('burgers', ff_bur, df_bur)):
        mon.event('nonlinear')
        # Functions are given directly as material parameters of special names.
        m = Material('n', values={'.f': fu, '.df': dfu, '.al': alpha})
        rn, _ = residual('dw_dg_nonlinear_laxfrie_flux(n.al, n.f, n.df, v, p)', n=m)

        def non(ff, y, n):
            pin, pout = ref.both(ff, u, bfun)
            C = np.abs(np.r_[dfu(pin) @ n, dfu(pout) @ n]).max()
            return 0.5 * ((fu(pin) + fu(pout)) @ n) + 0.5 * (1 - alpha) * C * (pin - pout)
        check('nonlinear', rn, ref.sum(non), nm_)
        mon.event('nonlinear conservation')
        bnd = sum(ref.qps(ff)[1] * (ref.w @ non(ff, None, ref.normal(ff))) for ff in ref.boundary)
        mon.close('nonlinear conservation', rn[:, 0].sum() / phi0, bnd, rtol=1e-9, scale=np.abs(rn).max() + 1, msg='sum of nonlinear fluxes')
        if nm_ == 'linear':
            mon.close('nonlinear', rn, r, rtol=1e-9, scale=np.abs(r).max() + 1e-8, msg='linear function and the advection flux')

    # Diffusion.
    D = 0.2 + rng.rand()
    m = Material('D', val=D)
    if order > 0:
        r, e = residual('dw_dg_diffusion_flux(D.val, p, v)', D=m)

        def ds(ff, y, n):
            gi, go = ref.both(ff, u, gfun, diff=True)
            return D * 0.5 * ((gi + go) @ n)
        check('diffusion avg_state', r, ref.sum(ds), 'avg_state')
        matrix(e, 'diffusion matrix', r)
        r, e = residual('dw_dg_diffusion_flux(D.val, v, p)', D=m)

        def dv(ff, y, n):
            pin, pout = ref.both(ff, u, bfun)
            gb = ref.basis(ff, y, diff=True)
            return D * 0.5 * (pin - pout)[:, None] * np.einsum('qkd,k->qd', gb, n)
        check('diffusion avg_virtual', r, ref.sum(dv), 'avg_virtual')
        matrix(e, 'diffusion matrix', r)

    Cw = float(1 + rng.rand())
    r, e = residual('dw_dg_interior_penalty(D.val, C.w, v, p)', D=m, C=Material('C', values={'.w': Cw}))

    def pen(ff, y, n):
        pin, pout = ref.both(ff, u, bfun)
        return D * Cw * order**2 / ref.qps(ff)[1] * (pin - pout)
    check('penalty', r, ref.sum(pen), 'penalty')
    matrix(e, 'penalty matrix', r)

# Projections.

def run_project(mon, case):
    rng = gen.rngof(case)
    quiet()
    g = case['mesh']
    raw = rmesh(rng, g, affine_cells=True)
    order = int(rng.randint(0, 5))
    dom, om, f = make_field(rng, raw, order)
    dim = f.dim
    ref = Ref(f, g)
    mon.sig('project', g, order, ref.nc)
    # Polynomials of the full degree.
    ex = [e for e in np.ndindex(*(order + 1,) * dim) if sum(e) <= order]
    cf = rng.randn(len(ex))
    X0 = ref.X.mean(axis=0)

    def fun(y):
        y = np.asarray(y) - X0
        return sum(c * np.prod([y[..., i]**e[i] for i in range(dim)], axis=0) for c, e in zip(cf, ex))
    mon.event('projection')
    nods, vals = f.set_dofs(lambda y: fun(y)[..., None] if False else fun(y)[..., None])
    vals = np.asarray(vals)
    mon.ok('projection', vals.size == ref.nc * ref.nd, 'shape of DOFs %s' % (vals.shape,))
    u = vals.reshape(ref.nc, ref.nd)
    n = 7
    xi = rng.dirichlet(np.ones(3), n)[:, :2] if g == '2_3' else rng.rand(n, dim)
    B = np.asarray(f.poly_space.eval_basis(np.ascontiguousarray(xi))).reshape(n, ref.nd)
    pts = np.array([f_phys(ref, ic, xi) for ic in range(ref.nc)])
    want = fun(pts)
    mon.close('projection', u @ B.T, want, rtol=1e-8, scale=np.abs(want).max() + 1e-8, msg='projection of a polynomial of degree %d' % order)

    # Nodal values in given reference points.
    mon.event('nodal values')
    _, nv = f.get_nodal_values(x_col(u), om, ref_nodes=np.ascontiguousarray(xi))
    nv = np.asarray(nv)
    nv = nv.reshape(nv.shape[:2])
    if nv.shape != want.shape:
        nv = nv.T
    mon.close('nodal values', nv, want, rtol=1e-8, scale=np.abs(want).max() + 1e-8, msg='nodal values')

    # Averages and orthogonality.
    s, w = np.polynomial.legendre.leggauss(8)
    s, w = 0.5 * (s + 1), 0.5 * w
    if dim == 1:
        q, wq = s[:, None], w
    else:
        a, b = np.meshgrid(s, s, indexing='ij')
        wq = np.outer(w, w).ravel()
        q = np.c_[a.ravel(), b.ravel()]
        if g == '2_3':
            wq = wq * (1 - q[:, 0])
            q = np.c_[q[:, 0], q[:, 1] * (1 - q[:, 0])]
    B = np.asarray(f.poly_space.eval_basis(np.ascontiguousarray(q))).reshape(len(q), ref.nd)
    G = np.einsum('q,qi,qj->ij', wq, B, B)
    mon.event('orthogonal')
    d = np.sqrt(np.diag(G))
    mon.close('orthogonal', G / np.outer(d, d), np.eye(ref.nd), rtol=1e-9, atol=1e-9, msg='orthogonal basis')
    mon.event('averages')
    u2 = rdofs(rng, f)
    av = (u2 @ B.T) @ wq / wq.sum()
    mon.close('averages', u2[:, 0] * B[0, 0], av, rtol=1e-9, atol=1e-9, msg='first DOF and the cell average')
    out = f.create_output(x_col(u2), 'p', key='p', extend=True)
    c0 = [o for k, o in out.items() if k.endswith('p_cell') or k.endswith('_modal_cell_nodes') or k == 'p_modal_cell0']
    # Scalars and functions of other orders give averages of constants.
    c = rng.randn()
    _, v1 = f.set_dofs(c)
    mon.close('projection', np.asarray(v1).reshape(ref.nc, ref.nd) @ B.T, np.full((ref.nc, len(q)), c), rtol=1e-9, atol=1e-10, msg='constant value')
    # A function not in the space: the projection keeps integrals with the basis.
    k = rng.randn(dim)
    if order >= 2:
        h = lambda y: (np.asarray(y) - X0) @ k
        _, v2 = f.set_dofs(lambda y: h(y)[..., None])
        mon.close('averages', np.asarray(v2).reshape(ref.nc, ref.nd)[:, 0], np.array([h(f_phys(ref, ic, q)) @ wq / wq.sum() for ic in range(ref.nc)]),
                  rtol=1e-8, atol=1e-9, msg='averages of a projected function')

def x_col(u):
    return np.ascontiguousarray(u).reshape(-1, 1)

# Steps.

def make_problem(rng, raw, g, order, tss, n_step, t1, a, alpha, u0, periodic=(), limiter=None, dirichlet=None):
    import sfepy.discrete.fem.periodic as per
    dim = int(g[0])
    X = raw['coors']
    lo, hi = X.min(axis=0), X.max(axis=0)
    fk = 'vertex' if dim == 1 else 'facet'
    eps = 1e-6
    regions = {'Omega': 'all'}
    names = [('left', 'right'), ('bottom', 'top')]
    if dirichlet is not None:
        regions['Gamma'] = ('vertices of surface', fk)
    for i in set(periodic):
        regions[names[i][0]] = ('vertices in (%s < %.12g)' % ('xy'[i], lo[i] + eps), fk)
        regions[names[i][1]] = ('vertices in (%s > %.12g)' % ('xy'[i], hi[i] - eps), fk)
    mesh = gen.to_mesh(raw)
    conf = dict(filename_mesh=tdep.mesh_hook(mesh), regions=regions, materials={'a': ({'val': [a[:, None]], '.flux': alpha},)},
                fields={'f': ('real', 'scalar', 'Omega', '%dd' % order, 'DG', 'legendre')},
                variables={'p': ('unknown field', 'f', 0, 1), 'v': ('test field', 'f', 'p')}, integrals={'i': max(2 * order, 1)},
                functions={'match_x_line': (per.match_x_line,), 'match_y_line': (per.match_y_line,), 'ic': (u0,)},
                ics={'i': ('Omega', {'p.0': 'ic'})},
                equations={'e': 'dw_dot.i.Omega(v, p) - dw_s_dot_mgrad_s.i.Omega(a.val, p[-1], v) '
                                '+ dw_dg_advect_laxfrie_flux.i.Omega(a.flux, a.val, v, p[-1]) = 0'},
                solvers={'tss': (tss, dict(t0=0.0, t1=t1, n_step=n_step, verbose=False, **({} if limiter is None else {'limiters': {'f': limiter}}))),
                         'nls': ('nls.newton', {}), 'ls': ('ls.scipy_direct', {})},
                options=dict(ts='tss', nls='nls', ls='ls', active_only=False, output_dir=tempfile.gettempdir()))
    for k, ax in enumerate(periodic):
        regs = list(names[ax])
        if rng.rand() < 0.5:
            regs = regs[::-1]
        conf['dgepbc_%d' % (k + 1)] = dict(name='e%d' % k, region=regs, dofs={'p.all': 'p.all'}, match='match_%s_line' % 'yx'[ax])
    if dirichlet is not None:
        conf['dgebcs'] = {'b': ('Gamma', {'p.all': dirichlet})}
    from sfepy.base.conf import ProblemConf
    from sfepy.discrete import Problem
    return Problem.from_conf(ProblemConf.from_dict(conf, sys.modules[__name__]))

def run_steps(mon, case):
    rng = gen.rngof(case)
    quiet()
    g, tss = case['mesh'], case['tss']
    dim = int(g[0])
    order = int(rng.randint(0, 4))
    if case['periodic']:
        raw = grid_raw(rng, dim, [4 + rng.randint(4) for _ in range(dim)])
        axes = [ax for ax in range(dim) if (dim == 1) or (rng.rand() < 0.8)]
    else:
        raw, axes = rmesh(rng, g), []
    full = len(axes) == dim
    a = rng.randn(dim)
    alpha = float(pick(rng, [0.0, 0.0, 0.5, 1.0]))
    n_step = 4 + rng.randint(4)
    t1 = 0.01 * (1 + rng.rand())
    const = full and rng.rand() < 0.3
    c0 = rng.randn(1 + dim)
    uf = (lambda y: np.full(np.asarray(y).shape[:-1] + (1,), c0[0])) if const \
        else (lambda y: np.sin(c0[0] + 3 * (np.asarray(y) @ c0[1:]))[..., None])
    ic = lambda x, ic=None: uf(x)
    bval = float(rng.randn()) if (not axes) and (rng.rand() < 0.5) else None
    pb = make_problem(rng, raw, g, order, tss, n_step, t1, a, alpha, ic, periodic=axes, dirichlet=bval)
    hist = []

    def hook(pb, ts, variables):
        hist.append((ts.step, ts.time, np.array(variables.get_state(), copy=True)))
    pb.solve(save_results=False, step_hook=hook, verbose=False)
    f = pb.fields['f']
    mon.sig('steps', tss, g, order, tuple(axes), f.n_cell)
    mon.event('hooks')
    mon.equal('hooks', [h[0] for h in hist], list(range(n_step)), msg='steps in the hook')
    dt = t1 / (n_step - 1)
    mon.close('hooks', [h[1] for h in hist], dt * np.arange(n_step), rtol=1e-9, atol=1e-12, msg='times in the hook')

    ref = Ref(f, g, periodic=axes)
    if axes:
        mon.event('periodic')
        nb = np.asarray(f.get_facet_neighbor_idx(f.region, None))
        want = [sorted(b[0] for aa, b in ref.nbr.items() if aa[0] == ic) for ic in range(ref.nc)]
        got = [sorted(int(i) for i in row if i >= 0) for row in nb[..., 0]]
        mon.ok('periodic', want == got, 'periodic neighbours: %s' % [(i, x, y) for i, (x, y) in enumerate(zip(want, got)) if x != y][:4])
    # Algebraic form.
    s, w = np.polynomial.legendre.leggauss(order + 2)
    s, w = 0.5 * (s + 1), 0.5 * w
    if dim == 1:
        q, wq = s[:, None], w
    elif g == '2_4':
        A, B = np.meshgrid(s, s, indexing='ij')
        q, wq = np.c_[A.ravel(), B.ravel()], np.outer(w, w).ravel()
    else:
        A, B = np.meshgrid(s, s, indexing='ij')
        wq = np.outer(w, w).ravel() * (1 - A.ravel())
        q = np.c_[A.ravel(), B.ravel() * (1 - A.ravel())]
    ps = f.poly_space
    phi = np.asarray(ps.eval_basis(np.ascontiguousarray(q))).reshape(len(q), ref.nd)
    dphi = np.asarray(ps.eval_basis(np.ascontiguousarray(q), diff=1)).reshape(len(q), dim, ref.nd)
    V, Minv, S = [], [], []
    for ic in range(ref.nc):
        v = ref.X[ref.C[ic]]
        if g != '2_4':
            J = np.repeat((v[1:] - v[0])[None], len(q), 0)
        else:
            xa, xb = q[:, :1], q[:, 1:]
            J = np.stack([(1 - xb) * (v[1] - v[0]) + xb * (v[2] - v[3]), (1 - xa) * (v[3] - v[0]) + xa * (v[2] - v[1])], axis=1)
        det = np.abs(np.linalg.det(J))
        gp = np.linalg.solve(J, dphi)
        M = np.einsum('q,qi,qj->ij', wq * det, phi, phi)
        Minv.append(np.linalg.inv(M))
        V.append(np.einsum('q,qi->i', wq * det, phi))
        S.append(np.einsum('q,qki,k,qj->ij', wq * det, gp, a, phi))
    Minv, S, V = np.array(Minv), np.array(S), np.array(V)
    # The mass and advection terms of the problem use the integral of order 2 * order: exact for affine cells.
    exact = (g != '2_4') or case['periodic']
    bf = None if bval is None else (lambda y: np.full(len(y), bval))
    # Flux matrix by columns is expensive: apply it.
    def L(u):
        def adv(ff, y, n):
            pin, pout = ref.both(ff, u, bf if ff in bset else None)
            return (a @ n) * 0.5 * (pin + pout) + 0.5 * (1 - alpha) * abs(a @ n) * (pin - pout)
        r = np.einsum('cij,cj->ci', S, u) - ref.sum(adv)
        return np.einsum('cij,cj->ci', Minv, r)
    bset = set(ref.boundary)
    U = [h[2].reshape(ref.nc, ref.nd) for h in hist]
    # First state: the projection.
    if exact:
        for k in range(len(U) - 1):
            u = U[k]
            if tss == 'ts.euler':
                want = u + dt * L(u)
            elif tss == 'ts.tvd_runge_kutta_3':
                u1 = u + dt * L(u)
                u2 = 0.75 * u + 0.25 * (u1 + dt * L(u1))
                want = u / 3. + 2. / 3. * (u2 + dt * L(u2))
            else:
                k1 = L(u)
                k2 = L(u + 0.5 * dt * k1)
                k3 = L(u + 0.5 * dt * k2)
                k4 = L(u + dt * k3)
                want = u + dt / 6. * (k1 + 2 * k2 + 2 * k3 + k4)
            mon.event('step')
            mon.close('step', U[k + 1], want, rtol=1e-8, scale=np.abs(want).max() + 1e-8, msg='%s, step %d' % (tss, k + 1))
    if full:
        mon.event('mass')
        m = [float((V * u).sum()) for u in U]
        mon.close('mass', m, np.full(len(m), m[0]), rtol=1e-10, scale=float(np.abs(V).sum()), msg='total mass in steps')
        if const:
            mon.event('constant')
            mon.close('constant', np.array(U), np.array([U[0]] * len(U)), rtol=1e-9, atol=1e-9, msg='constant state')

# Limiters.

def minmod(*aa):
    aa = [np.asarray(x) for x in aa]
    s = np.sign(aa[0])
    same = np.all([np.sign(x) == s for x in aa], axis=0)
    return np.where(same, s * np.min(np.abs(aa), axis=0), 0.0)

def run_limiter1(mon, case):
    from sfepy.discrete.dg.limiters import MomentLimiter1D, IdentityLimiter, ComposedLimiter
    rng = gen.rngof(case)
    quiet()
    order = int(rng.randint(0, 5))
    raw = grid_raw(rng, 1, [4 + rng.randint(8)], renumber=False)
    # Cells along the interval.
    c = raw['conns']['1_2']
    raw['conns']['1_2'] = c[np.argsort(raw['coors'][c, 0].mean(axis=1))]
    dom, om, f = make_field(rng, raw, order)
    lim = MomentLimiter1D(f, verbose=False)
    mon.sig('limiter1', order, f.n_cell)
    for _ in range(4):
        u = rdofs(rng, f)
        if rng.rand() < 0.5:
            u[:, 1:] *= 0.1
        if rng.rand() < 0.3:
            u = np.sort(u, axis=0)
        u_in = u.ravel().copy()
        r = np.asarray(lim(u_in)).reshape(u.shape)
        mon.event('limiter averages')
        mon.close('limiter averages', r[:, 0], u[:, 0], rtol=0, atol=0, msg='averages')
        # Own limiter: from the highest mode until nothing changes.
        want = u.copy()
        for ic in range(1, f.n_cell - 1):
            for ll in range(order, 0, -1):
                m = minmod(u[ic, ll], u[ic + 1, ll - 1] - u[ic, ll - 1], u[ic, ll - 1] - u[ic - 1, ll - 1])
                if m == u[ic, ll]:
                    break
                want[ic, ll] = m
        mon.event('limiter reference')
        mon.close('limiter reference', r, want, rtol=1e-13, atol=1e-14, msg='moment limiter, order %d' % order)
        # The result is a fixed point in modes of admissible data, signs do not matter.
        r2 = np.asarray(lim(-u_in.copy())).reshape(u.shape)
        mon.close('limiter reference', r2, -r, rtol=1e-13, atol=1e-14, msg='limiting of the opposite data')
    # Linear functions on uniform cells are not changed.
    mon.event('limiter linear')
    u = np.zeros((f.n_cell, f.n_el_nod))
    s = rng.randn()
    u[:, 0] = s * np.arange(f.n_cell) + rng.randn()
    if order:
        u[:, 1] = 0.5 * s
    mon.close('limiter linear', np.asarray(lim(u.ravel().copy())).reshape(u.shape), u, rtol=1e-12, atol=1e-13, msg='linear function')
    # Composed limiters.
    mon.event('composed')
    dom2, om2, f2 = make_field(rng, raw, int(rng.randint(0, 3)))
    f2.name = 'f2'
    cl = ComposedLimiter([f, f2], [MomentLimiter1D, IdentityLimiter])
    u = rng.randn(f.n_cell * f.n_el_nod + f2.n_cell * f2.n_el_nod)
    n1 = f.n_cell * f.n_el_nod
    r = np.asarray(cl(u.copy()))
    mon.close('composed', r[:n1], np.ravel(lim(u[:n1].copy())), rtol=0, atol=0, msg='first field')
    mon.close('composed', r[n1:], u[n1:], rtol=0, atol=0, msg='field without a limiter')

def run_limiter2(mon, case):
    from sfepy.discrete.dg.limiters import MomentLimiter2D
    rng = gen.rngof(case)
    quiet()
    order = int(rng.randint(0, 4))
    nx, ny = 4 + rng.randint(3), 4 + rng.randint(3)
    from sfepy.mesh.mesh_generators import gen_block_mesh
    from sfepy.discrete.fem import FEDomain
    import sfepy.discrete
    from sfepy.discrete.dg.fields import DGField
    mesh = gen_block_mesh([1.0 * nx, 1.0 * ny], [nx, ny], [0, 0], name='b', verbose=False)
    dom = FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    f = DGField('f', np.float64, 'scalar', om, approx_order=order)
    p, v = make_vars(f)
    eqs_of(make_term('dw_dot(v, p)', f, p, v))
    f.get_facet_neighbor_idx(om, p.eq_map)
    lim = MomentLimiter2D(f, verbose=False)
    ref = Ref(f, '2_4')
    cen = ref.X[ref.C].mean(axis=1)
    h = np.array([nx / (nx - 1.), ny / (ny - 1.)])
    def cell(x):
        d = np.abs(cen - x).max(axis=1)
        k = int(np.argmin(d))
        return k if d[k] < 1e-8 else -1
    ext = bool(getattr(lim, 'extended', False))
    modes = [(i, k - i) for k in range(order + 1) for i in range(k + 1)]
    if f.n_el_nod > len(modes):
        modes += [(i, k) for k in range(1, order + 1) for i in range(1, order + 1) if i + k > order]
    if f.n_el_nod != len(modes):
        mon.inconclusive('limiter reference', 'modes of the basis')
        return
    # Directions of the modes by the derivatives of the basis in the cells: x modes change along the first reference axis.
    col = {m: i for i, m in enumerate(modes)}
    ax = axes_of(ref, f, modes)
    mon.sig('limiter2', order, nx, ny)
    for _ in range(4):
        u = rdofs(rng, f)
        if rng.rand() < 0.4:
            u[:, 1:] *= 0.1
        elif rng.rand() < 0.4:
            gx = rng.randn(2)
            u[:, 0] = cen @ gx + 0.1 * rng.randn(ref.nc)
            u[:, 1:] *= 0.2
        r = np.asarray(lim(u.ravel().copy())).reshape(u.shape)
        mon.event('limiter averages')
        mon.close('limiter averages', r[:, 0], u[:, 0], rtol=0, atol=0, msg='averages in 2D')
        want = u.copy()
        for ic in range(ref.nc):
            nb = [[cell(cen[ic] + s * h[d] * np.eye(2)[d]) for s in (1, -1)] for d in range(2)]
            if min(nb[0] + nb[1]) < 0:
                continue
            for m in reversed(modes):
                if m == (0, 0):
                    break
                args = [u[ic, col[m]]]
                for d in range(2):
                    if m[d] >= 1:
                        low = list(m)
                        low[d] -= 1
                        k = col[tuple(low)]
                        alf = np.sqrt((2 * m[d] - 1.) / (2 * m[d] + 1.))
                        args += [alf * (u[nb[ax[d]][0], k] - u[ic, k]), alf * (u[ic, k] - u[nb[ax[d]][1], k])]
                val = minmod(*args)
                if val == u[ic, col[m]]:
                    break
                want[ic, col[m]] = val
        mon.event('limiter reference')
        mon.close('limiter reference', r, want, rtol=1e-12, atol=1e-13, msg='moment limiter in 2D, order %d' % order)
    if order:
        mon.event('limiter linear')
        gx = rng.randn(2)
        # Orthonormal scaling makes the linear data admissible; half of the slopes always is.
        u = np.zeros((f.n_cell, f.n_el_nod))
        u[:, 0] = cen @ gx
        u[:, col[(1, 0)]] = 0.5 * gx[ax[0]] * h[ax[0]]
        u[:, col[(0, 1)]] = 0.5 * gx[ax[1]] * h[ax[1]]
        r = np.asarray(lim(u.ravel().copy())).reshape(u.shape)
        mon.close('limiter linear', r, u, rtol=1e-12, atol=1e-12, msg='linear function in 2D')

def axes_of(ref, f, modes):
    """Physical axis of the first and second index of modes."""
    e = np.eye(2)
    q = np.ascontiguousarray(np.full((1, 2), 0.5))
    d = np.asarray(f.poly_space.eval_basis(q, diff=1)).reshape(2, ref.nd)
    v = ref.X[ref.C[0]]
    t = np.array([v[1] - v[0], v[3] - v[0]])
    phys = [int(np.argmax(np.abs(t[i]))) for i in range(2)]
    if (1, 0) not in modes:
        return phys
    i10 = int(np.argmax(np.abs(d[:, modes.index((1, 0))])))
    return [phys[i10], phys[1 - i10]]

def run_bounded(mon, case):
    from sfepy.discrete.dg.limiters import MomentLimiter1D
    rng = gen.rngof(case)
    quiet()
    n = 28 + rng.randint(10)
    raw = gen.raw_mesh(rng, '1_2', shape=[n + 1], jitter=0.0, affine=False, renumber=False, localperm=False)
    X = raw['coors']
    X[:] = (X - X.min()) / (X.max() - X.min())
    c = raw['conns']['1_2']
    raw['conns']['1_2'] = c[np.argsort(X[c, 0].mean(axis=1))]
    a = np.array([float(pick(rng, [1.0, -1.0]) * (0.5 + rng.rand()))])
    # The end cells are not limited: the data do not reach them.
    n_step = 9 if case['tss'] == 'ts.euler' else 4
    cfl = 0.45
    t1 = (n_step - 1) * cfl * np.diff(np.sort(X[:, 0])).min() / abs(a[0])
    kind = int(rng.randint(3))
    lv = rng.randn(n)
    xs = np.sort(X[:, 0])
    lv[:10] = lv[-10:] = 0.0

    def u0(x, ic=None):
        y = np.asarray(x)[..., 0]
        k = np.clip(np.searchsorted(np.sort(X[:, 0]), y) - 1, 0, n - 1)
        if kind == 0:
            v = lv[k]
        elif kind == 1:
            v = np.where((y > xs[10]) & (y < xs[-14]), 1.0, 0.0)
        else:
            v = np.where((y > xs[10]) & (y < xs[-11]), np.sin((y - xs[10]) / (xs[-11] - xs[10]) * np.pi)**2, 0.0)
        return v[..., None]
    pb = make_problem(rng, raw, '1_2', 1, case['tss'], n_step, t1, a, 0.0, u0, periodic=[0], limiter=MomentLimiter1D)
    U = []
    pb.solve(save_results=False, step_hook=lambda pb, ts, vs: U.append(np.array(vs.get_state(), copy=True).reshape(n, 2)), verbose=False)
    mon.sig('bounded', case['tss'], n, kind)
    av = np.array([u[:, 0] for u in U])
    tv = np.abs(np.diff(np.c_[av, av[:, :1]], axis=1)).sum(axis=1)
    # The initial projection is not limited.
    tol = 1e-10
    mon.event('bounded')
    mon.ok('bounded', (np.diff(tv[1:]) < tol).all(), 'total variation of averages grows: %s' % tv)
    mon.ok('bounded', (av[2:].max(axis=1) <= av[1].max() + tol).all() and (av[2:].min(axis=1) >= av[1].min() - tol).all(), 'new extrema of averages')
    h = np.abs(np.diff(X[raw['conns']['1_2'], 0], axis=1))[:, 0]
    mass = av @ h
    mon.close('bounded', mass, np.full(len(av), mass[0]), rtol=1e-10, scale=np.abs(av[0]).sum() + 1, msg='mass with the limiter')
