"""
C17: PDE solutions are exact for solutions in the FE space and invariant.

Monitor: linear problems with random polynomial solutions in the finite element space, of
random equations (diffusion with tensor and variable coefficients, advection, reaction, Robin
data, complex values, vector fields, isotropic and anisotropic elasticity, mixed Stokes and Biot
problems, piecewise solutions over material interfaces, equivalent terms, terms split over
regions, several bases and solvers, Problem or evaluation and solution by hand) and data derived by own
polynomial calculus are solved; watched are the solution in quadrature points and
nodes, the gradient, the reactions against tractions integrated by own rules, the energies, fluxes and the
work balance. Problems with general data are solved again on renumbered, rotated, translated and
rescaled meshes, with split regions, other terms, other orders of equations, cells and integration, in
refined spaces; convergence rates are measured for smooth solutions.
"""
import itertools
import numpy as np
from .. import gen, ref_fe

REQUIRED = ['diffusion', 'elasticity', 'stokes', 'biot', 'vector', 'complex', 'interface', 'dirichlet', 'neumann',
            'robin', 'advection', 'variable', 'reactions', 'energy', 'flux', 'renumbered', 'rotated', 'split',
            'superposition', 'rate', 'lagrange', 'serendipity', 'bernstein', 'solver', '1_2', '2_3', '2_4', '3_4', '3_8', '3_6',
            'galerkin', 'by hand', 'monotone energy', 'equations reordered']
ASSUMPTIONS = ['Integration orders are high enough that the (polynomial) integrands on the generated meshes are integrated exactly',
               'Rates are measured between two uniform meshes with a margin of 0.5 to 0.6']

GEOM = ['1_2', '2_3', '2_4', '3_4', '3_8', '3_6', '2_3d', '3_4d']

class Poly:
    """A polynomial: coefficients by exponents."""

    def __init__(self, d, dim):
        self.d = {k: v for k, v in d.items() if v != 0}
        self.dim = dim

    @staticmethod
    def random(rng, dim, deg, x0, h, cplx=False):
        """Total degree deg in (x - x0) / h."""
        lin = [Poly({tuple(int(i == j) for j in range(dim)): 1 / h, (0,) * dim: -x0[i] / h}, dim) for i in range(dim)]
        out = Poly({}, dim)
        for e in itertools.product(range(deg + 1), repeat=dim):
            if sum(e) > deg:
                continue
            c = rng.randn() + (1j * rng.randn() if cplx else 0)
            t = Poly({(0,) * dim: c}, dim)
            for i, k in enumerate(e):
                for _ in range(k):
                    t = t * lin[i]
            out = out + t
        return out

    def __call__(self, x):
        out = np.zeros(x.shape[:-1], dtype=complex if any(np.iscomplexobj(v) for v in self.d.values()) else float)
        for e, c in self.d.items():
            out = out + c * np.prod([x[..., i]**k for i, k in enumerate(e)], axis=0)
        return out

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d, self.dim)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly({k: v * o for k, v in self.d.items()}, self.dim)
        d = {}
        for (a, u), (b, v) in itertools.product(self.d.items(), o.d.items()):
            k = tuple(i + j for i, j in zip(a, b))
            d[k] = d.get(k, 0) + u * v
        return Poly(d, self.dim)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self + o * -1.0

    def diff(self, i):
        d = {}
        for e, c in self.d.items():
            if e[i]:
                k = list(e)
                k[i] -= 1
                d[tuple(k)] = d.get(tuple(k), 0) + c * e[i]
        return Poly(d, self.dim)

    def grad(self):
        return [self.diff(i) for i in range(self.dim)]

def at(ps, x):
    """Values of (nested lists of) polynomials, trailing axes of the nesting."""
    if isinstance(ps, Poly):
        return ps(x)
    v = np.array([at(p, x) for p in ps])
    return np.moveaxis(v, 0, x.ndim - 1)

def div(ps):
    out = ps[0].diff(0)
    for i, p in enumerate(ps[1:], 1):
        out = out + p.diff(i)
    return out

def msum(ps):
    out = ps[0]
    for p in ps[1:]:
        out = out + p
    return out

def cases(rng, tier):
    n = dict(quick=4, thorough=50)[tier]
    out = []
    for kind, reps, cost in (('scalar', 7, 1), ('vector', 5, 2), ('stokes', 2, 3), ('biot', 2, 3)):
        for g in GEOM:
            if kind == 'stokes' and g == '3_6':
                continue
            c = cost * (4 if g[0] == '3' else 1)
            out += [dict(kind=kind, g=g, cost=c) for _ in range(reps * n)]
    for g in ('1_2', '2_3', '2_4', '3_4', '3_8'):
        out += [dict(kind='interface', g=g, cost=2) for _ in range(3 * n)]
        out += [dict(kind='rate', g=g, cost=4) for _ in range(n if g[0] == '3' else 2 * n)]
    for g in GEOM:
        out += [dict(kind='invariance', g=g, cost=5 if g[0] == '3' else 2) for _ in range(4 * n)]
        out += [dict(kind='spaces', g=g, cost=3 if g[0] == '3' else 1) for _ in range(2 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def mat(name, dim, **fields):
    """A material of functions of coordinates."""
    from sfepy.discrete import Material, Function

    def fun(ts, coors, mode=None, **kw):
        if mode != 'qp':
            return None
        out = {}
        for k, f in fields.items():
            v = np.asarray(f(coors))
            if v.ndim == 1:
                v = v[:, None, None]
            elif v.ndim == 2:
                v = v[:, :, None]
            out[k] = np.ascontiguousarray(v)
        return out
    return Material(name, function=Function('fun_' + name, fun))

def uniform(raw):
    """The tensor grid with equidistant coordinates in the unit box."""
    X = np.asarray(raw['coors'])
    out = np.empty_like(X)
    for i in range(X.shape[1]):
        v, k = np.unique(np.round(X[:, i], 9), return_inverse=True)
        out[:, i] = k / (len(v) - 1.0)
    return out

class Setup:
    """A mesh with parts of the boundary."""

    def __init__(self, rng, g, raw=None, jitter=None, holes=True):
        self.g = g
        dim = int(g[0]) 
        self.dim = dim
        if raw is None:
            size = {1: 5, 2: 3, 3: 2}[dim]
            if g in ('2_3d', '3_4d'):
                size = {2: 3, 3: 1}[dim]
            kw = dict(size=size) if g != '3_6' else dict(shape=[4, 3 + rng.randint(2), 3 + rng.randint(2)])
            raw = gen.raw_mesh(rng, g, **kw, jitter=0.0 if g == '3_6' else [0.0, 0.25][rng.randint(2)] if jitter is None else jitter,
                               holes=0.25 if rng.rand() < 0.25 and dim == 2 and holes else 0.0)
        self.raw = raw
        self.dom = gen.to_domain(raw)
        self.X = np.asarray(self.dom.get_mesh_coors())
        self.x0 = self.X.mean(0)
        self.h = 0.7 * np.ptp(self.X, 0).max()
        self.om = self.dom.create_region('Omega', 'all')
        self.regions = {}

    def boundary(self, rng, all_dirichlet=False):
        """GD and GN: facets of the boundary in a half-space and the others."""
        from .C06 import facets_region
        cm = self.dom.cmesh
        surf = np.asarray(cm.get_surface_facets())
        conn = cm.get_conn(self.dim - 1, 0) if self.dim > 1 else None
        if self.dim > 1:
            fc = np.array([self.X[np.unique(conn.indices[conn.offsets[f]:conn.offsets[f + 1]])].mean(0) for f in surf])
        else:
            fc = self.X[surf]
        a = rng.randn(self.dim)
        s = fc @ a
        t = np.quantile(s, rng.choice([0.3, 0.6])) if not all_dirichlet and self.g != '3_6' else s.max()
        gd = surf[s <= t]
        gn = surf[s > t]
        self.gd = self.add('GD', gd)
        self.gn = self.add('GN', gn) if len(gn) else None
        return self.gd, self.gn

    def add(self, name, sel):
        from .C06 import facets_region
        reg = facets_region(self.dom, sel, name)
        self.dom.regions.append(reg)
        return reg

    def halves(self, rng):
        """Two disjoint sets of cells."""
        n = self.dom.shape.n_el
        m = rng.rand(n) < 0.5
        if not m.any() or m.all():
            m[0] = not m[0]
        r1 = self.dom.create_region('Om1', 'cell ' + ', '.join(map(str, np.where(m)[0])))
        r2 = self.dom.create_region('Om2', 'r.Omega -c r.Om1')
        return r1, r2

    def cells(self, n=6):
        """Own quadrature points with weights and the sizes: X (nq, dim), w (nq,)."""
        pts, ws = [], []
        for k, conn in self.raw['conns'].items():
            xi, w = ref_fe.rule(k, n)
            for c in conn:
                x, J = ref_fe.mapped(k, self.raw['coors'], np.asarray(c)[None], xi)[:2]
                pts.append(np.asarray(x).reshape(-1, self.dim))
                ws.append((np.asarray(ref_fe.measure(J)) * w).ravel())
        return np.concatenate(pts), np.concatenate(ws)

def basis(rng, g, order):
    """A basis which spans the polynomials in the field of the order."""
    if g == '3_6':
        return 'lagrange'
    r = rng.rand()
    if r < 0.2 and g[:3] in ('2_4', '3_8') and order <= 1:
        return 'serendipity'
    if r < 0.35 and g not in ('1_2',) and order >= 1:
        return 'bernstein'
    return 'lagrange'

def field(S, name, shape, order, base='lagrange', dtype=np.float64):
    from sfepy.discrete.fem import Field
    return Field.from_args(name, dtype, shape, S.om, approx_order=order, space='H1', poly_space_basis=base)

def make_solver(mon, rng, cplx=False):
    from sfepy.base.base import Struct
    from sfepy.solvers import Solver
    kinds = ['ls.scipy_superlu', 'ls.scipy_direct', 'ls.scipy_umfpack', 'ls.mumps']
    k = kinds[rng.randint(len(kinds))]
    try:
        s = Solver.any_from_conf(Struct(name='ls', kind=k))
    except Exception:
        s = Solver.any_from_conf(Struct(name='ls', kind='ls.scipy_superlu'))
    mon.event('solver')
    return s

def solve(mon, rng, eqs, ebcs=None, epbcs=None, functions=None, hand=None, strict=True):
    """The solution by Problem.solve() or by hand."""
    from sfepy.base.base import Struct, IndexedStruct
    from sfepy.discrete import Problem
    from sfepy.discrete.conditions import Conditions
    from sfepy.solvers import Solver
    pb = Problem('p', equations=eqs, functions=functions)
    pb.set_bcs(ebcs=Conditions(ebcs or []))
    ls = make_solver(mon, rng)
    hand = rng.rand() < 0.25 if hand is None else hand
    if hand:
        mon.event('by hand')
        pb.time_update()
        pb.update_materials(verbose=False)
        v = eqs.variables
        v.init_state()
        v.apply_ebc()
        ev = pb.get_evaluator()
        x = v.get_state(reduced=True)
        if not len(x):
            return pb, v
        r = ev.eval_residual(x, is_full=False) if 'is_full' in ev.eval_residual.__code__.co_varnames \
            else ev.eval_residual(x)
        A = ev.eval_tangent_matrix(x, is_full=False) if 'is_full' in ev.eval_tangent_matrix.__code__.co_varnames \
            else ev.eval_tangent_matrix(x)
        x = x - ls(r, mtx=A)
        v.set_state(x, reduced=True, force=True)
        return pb, v
    st = IndexedStruct()
    nls = Solver.any_from_conf(Struct(name='nls', kind='nls.newton', i_max=2, eps_a=1e-9, eps_r=1e-9,
                                      eps_mode='or', lin_red=None, report_status=False), lin_solver=ls, status=st)
    pb.set_solver(nls)
    v = pb.solve(save_results=False, verbose=False)
    if strict:
        mon.equal('one-iteration', st.condition, 0, 'condition of a linear problem: %s' % st)
    return pb, v

def solution_at(S, var, xi=None, order=5):
    """Values, gradients and coordinates in quadrature points of all cells."""
    from sfepy.discrete import Integral
    it = Integral('chk', order=order if S.g != '3_6' else 3)
    val = np.asarray(var.evaluate('val', integral=it, region=S.om))
    gr = np.asarray(var.evaluate('grad', integral=it, region=S.om))
    geo, _ = var.field.get_mapping(S.om, it, 'cell')[:2]
    from sfepy.discrete.common.mappings import get_physical_qps
    qps = np.asarray(get_physical_qps(S.om, it).values).reshape(val.shape[0], val.shape[1], S.dim)
    det = np.asarray(geo.det).reshape(val.shape[:2])
    return val, gr, qps, det

def check_solution(mon, S, var, u, cond=1e-8, what='solution'):
    """u: list of component polynomials."""
    val, gr, x, w = solution_at(S, var)
    ref = at(u, x)                                       # (cell, qp, comp)
    sc = abs(ref).max() + 1e-3
    mon.close(what, val[..., 0], ref, 0, cond * sc, msg='the solution in quadrature points')
    rg = np.moveaxis(np.array([at(p.grad(), x) for p in u]), 0, -1)      # (cell, qp, dim, comp)
    mon.close('gradient', gr, rg, 0, 100 * cond * (sc / S.h + abs(rg).max()), msg='the gradient of the solution')
    if 'lagrange' in var.field.family_name or 'serendipity' in var.field.family_name:
        X = np.asarray(var.field.get_coor())
        mon.close('nodes', np.asarray(var()).reshape(-1, len(u)), at(u, X), 0, cond * sc, msg='the nodal values')
    return x, w

def ebc(S, name, var, region, u, comps='all'):
    from sfepy.discrete import Function
    from sfepy.discrete.conditions import EssentialBC

    def fun(ts, coors, bc=None, problem=None, **kw):
        v = at(u, np.asarray(coors))
        return v[:, 0] if len(u) == 1 else v
    return EssentialBC(name, region, {'%s.all' % var: Function('ebc_' + name, fun)})


def full_residual(eqs, x):
    """The residual without boundary conditions."""
    eqs.time_update(None, None, None, None, None, verbose=False)
    eqs.time_update_materials(None, verbose=False)
    eqs.init_state()
    return np.asarray(eqs.eval_residuals(np.asarray(x).copy()))

def facet_rule(S, sel, n=6):
    """Points and outward normals multiplied by weights on the facets sel of the boundary."""
    cm = S.dom.cmesh
    P, N = [], []
    if S.dim == 1:
        want = {(int(f),) for f in sel}
    else:
        conn = cm.get_conn(S.dim - 1, 0)
        want = {tuple(sorted({int(i) for i in conn.indices[conn.offsets[f]:conn.offsets[f + 1]]})) for f in sel}
    for k, cells in S.raw['conns'].items():
        fl = ref_fe.facets(k)
        for c in cells:
            c = np.asarray(c)
            for loc, fv in enumerate(fl):
                t = tuple(sorted(int(i) for i in c[list(fv)]))
                if t in want:
                    want.discard(t)
                    x, nn, w = ref_fe.facet_geometry(S.X, c, k, loc, n=n)
                    P.append(x)
                    N.append(nn * w[:, None])
    assert not want
    return np.concatenate(P), np.concatenate(N)

def spd(rng, n):
    A = rng.randn(n, n)
    return A @ A.T / n + np.eye(n)

def pick_order(rng, g, max3=2):
    if g == '1_2':
        return int(rng.randint(1, 5))
    if g in ('3_6',):
        return 1
    return int(rng.randint(1, (4 if g[0] in '2m' else max3 + 1)))

def run_scalar(mon, case):
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations
    from sfepy.discrete import Material
    from sfepy.terms import Term
    rng = gen.rngof(case)
    S = Setup(rng, case['g'])
    dim = S.dim
    o = pick_order(rng, case['g'])
    base = basis(rng, case['g'], o)
    if case['g'] in ('2_4', '3_8') and o <= 3 and rng.rand() < 0.15:
        base = 'serendipity'
        S = Setup(rng, case['g'], jitter=0.0)
        if o > 1 and case['g'] == '3_8':
            o = 2
    cplx = rng.rand() < 0.2 and base == 'lagrange'
    dt = np.complex128 if cplx else np.float64
    u = Poly.random(rng, dim, o, S.x0, S.h, cplx)
    S.boundary(rng)
    kind = rng.choice(['laplace', 'tensor', 'variable', 'div_grad'])
    k0 = float(0.5 + rng.rand())
    K = np.eye(dim) * k0 if kind in ('laplace', 'div_grad') else spd(rng, dim)
    kp = Poly({(0,) * dim: 1.0}, dim)
    if kind == 'variable':
        q = Poly.random(rng, dim, 1, S.x0, S.h)
        kp = kp + 0.3 * (q * q)
        mon.event('variable')
    flux = [msum([kp * g * float(K[i, j]) for j, g in enumerate(u.grad())]) for i in range(dim)]
    c = float(rng.rand()) if rng.rand() < 0.5 else 0.0
    y = rng.randn(dim) if rng.rand() < 0.3 else None
    f = (div(flux) * -1.0) + u * c
    if y is not None:
        f = f + msum([g * float(t) for g, t in zip(u.grad(), y)])
        mon.event('advection')
    robin = rng.rand() < 0.3 and S.gn is not None and not cplx
    order = 2 * o + 2 + (2 if kind == 'variable' else 0) + (0 if dim == 1 else dim * o if base != 'serendipity' else o)
    order = min(order, 10 if dim < 3 else 8) if case['g'] != '3_6' else 3
    fld = field(S, 'f', 1, o, base, dt)
    var = FieldVariable('u', 'unknown', fld)
    tst = FieldVariable('v', 'test', fld, primary_var_name='u')
    it = Integral('i', order=order)
    lower = rng.rand() < 0.5 and kind == 'tensor'
    m = mat('m', dim, K=lambda x: kp(x)[:, None, None] * K[None], k=lambda x: kp(x) * k0,
            f=lambda x: f(x), c=lambda x: np.full(len(x), c), q=lambda x: at(flux, x),
            a=lambda x: np.full(len(x), 1.7), ue=lambda x: u(x))
    if y is not None:
        mc = Material('mc', y=y[:, None])

    def equations():
        def t(txt, reg=S.om, **kw):
            return Term.new(txt, it, reg, m=m, u=var, v=tst, **kw)
        out = {'laplace': lambda: t('dw_laplace(m.k, v, u)'), 'div_grad': lambda: t('dw_laplace(m.k, v, u)'),
               'tensor': lambda: t('dw_diffusion(m.K, v, u)'), 'variable': lambda: t('dw_diffusion(m.K, v, u)')}[kind]()
        if c:
            out = out + t('dw_dot(m.c, v, u)')
        if y is not None:
            out = out + Term.new('dw_s_dot_mgrad_s(mc.y, v, u)', it, S.om, mc=mc, v=tst, u=var)
        out = out - t('dw_volume_lvf(m.f, v)')
        if S.gn is not None:
            out = out - t('dw_surface_ndot(m.q, v)', S.gn)
            if robin:
                out = out + t('dw_bc_newton(m.a, m.ue, v, u)', S.gn)
        return Equations([Equation('e', out)])
    eqs = equations()
    pb, v = solve(mon, rng, eqs, [ebc(S, 'gd', 'u', S.gd, [u])])
    mon.event('diffusion')
    for key, flag in (('complex', cplx), ('neumann', S.gn is not None), ('robin', robin), (base, True), ('dirichlet', True),
                      ('galerkin', True)):
        if flag:
            mon.event(key)
    for k in S.raw['conns']:
        mon.event(k)
    cond = 1e-8 if base == 'lagrange' else 1e-7
    check_solution(mon, S, v['u'], [u], cond)
    # Reactions: r . w = int_GD w flux . n for polynomials w.
    x = np.asarray(v()).copy()
    r = full_residual(equations(), x)
    P, N = facet_rule(S, S.gd.facets if dim > 1 else S.gd.vertices)
    fn = (at(flux, P) * N).sum(-1)
    mon.event('reactions')
    if True:
        ones = Poly({(0,) * dim: 1.0}, dim)
        for w in (ones, Poly.random(rng, dim, 1, S.x0, S.h), u):
            if base in ('lagrange', 'serendipity'):
                wd = w(np.asarray(fld.get_coor()))
            elif w is ones and base == 'bernstein':
                wd = np.ones(fld.n_nod)
            elif w is u:
                wd = x
            else:
                continue
            ref = (w(P) * fn).sum()
            sc = (abs(w(P)) * abs(fn)).sum() + abs(wd).max() * abs(r).max() + 1e-6
            mon.close('reactions', r @ wd, ref, 0, 1e-6 * sc, msg='work of the reactions on the Dirichlet part')
    # Energy and total flux by evaluation.
    Xq, W = S.cells(n=8 if dim < 3 else 6)
    if not cplx:
        gq = np.array([p(Xq) for p in u.grad()]).T
        en = (np.einsum('qi,ij,qj->q', gq, K, gq) * kp(Xq) * W).sum()
        val = evaluate(S, 'dw_diffusion(m.K, u, u)', it, m=m, u=v['u'])
        mon.close('energy', val, en, 1e-7, 1e-9, msg='the energy of the solution')
        mon.event('energy')
        if base == 'lagrange' and S.g != '3_6':
            fx = evaluate(S, 'ev_surface_flux(m.K, u)', it, reg=S.gd, m=m, u=v['u'])
            mon.close('flux', fx, fn.sum(), 1e-7, 1e-7 * (abs(fn).sum() + 1e-3), msg='the flux through the Dirichlet part')
            mon.event('flux')
    mon.sig('scalar', case['g'], o, base, kind, bool(c), y is not None, robin)

def evaluate(S, txt, it, reg=None, mode='eval', **kw):
    from sfepy.discrete import Equation, Equations
    from sfepy.terms import Term
    t = Term.new(txt, it, reg if reg is not None else S.om, **kw)
    eqs = Equations([Equation('e', t)])
    eqs.time_update_materials(None, verbose=False)
    return eqs.evaluate(mode=mode)

def stiff(rng, dim, iso):
    from itertools import combinations  # noqa: F401
    n = dim * (dim + 1) // 2
    lam, mu = 0.5 + rng.rand(), 0.5 + rng.rand()
    if iso:
        D = np.zeros((n, n))
        D[:dim, :dim] = lam
        D[np.arange(dim), np.arange(dim)] += 2 * mu
        D[np.arange(dim, n), np.arange(dim, n)] = mu
    else:
        D = spd(rng, n) * (0.5 + rng.rand())
    return D, lam, mu

VOIGT = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

def stress(D, u, dim):
    """Matrix of stress polynomials of D and displacement polynomials."""
    G = [[u[i].diff(j) for j in range(dim)] for i in range(dim)]
    e = [G[i][j] if i == j else G[i][j] + G[j][i] for i, j in VOIGT[dim]]
    s = [msum([e[b] * float(D[a, b]) for b in range(len(e))]) for a in range(len(e))]
    out = [[None] * dim for _ in range(dim)]
    for a, (i, j) in enumerate(VOIGT[dim]):
        out[i][j] = out[j][i] = s[a]
    return out, s, e

def run_vector(mon, case):
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations
    from sfepy.terms import Term
    rng = gen.rngof(case)
    S = Setup(rng, case['g'], holes=False)     # No hinges.
    dim = S.dim
    o = pick_order(rng, case['g'])
    if dim == 3:
        o = min(o, 2)
    base = 'lagrange'
    S.boundary(rng)
    u = [Poly.random(rng, dim, o, S.x0, S.h) for _ in range(dim)]
    el = rng.rand() < 0.7
    c = float(rng.rand()) if rng.rand() < 0.4 else 0.0
    n = dim * (dim + 1) // 2
    forms = ['lin_elastic', 'iso', 'mixed'] if el else ['div_grad']
    form = str(rng.choice(forms))
    D, lam, mu = stiff(rng, dim, form != 'lin_elastic')
    if el:
        sig, sv, ev = stress(D, u, dim)
    else:
        sig = [[u[i].diff(j) * mu for j in range(dim)] for i in range(dim)]
    f = [div(sig[i]) * -1.0 + u[i] * c for i in range(dim)]
    order = min(2 * o + 2 + (0 if dim == 1 else dim * o), 10 if dim < 3 else 8) if case['g'] != '3_6' else 3
    fld = field(S, 'f', dim, o, base)
    var = FieldVariable('u', 'unknown', fld)
    tst = FieldVariable('v', 'test', fld, primary_var_name='u')
    it = Integral('i', order=order)
    par = rng.rand() < 0.5
    fields = dict(D=lambda x: np.tile(D, (len(x), 1, 1)), lam=lambda x: np.full(len(x), lam), mu=lambda x: np.full(len(x), mu),
                  f=lambda x: at(f, x), c=lambda x: np.full(len(x), c))
    if el:
        fields['t'] = lambda x: at(sv, x)
    m = mat('m', dim, **fields)
    ms = [mat('m%d' % i, dim, q=lambda x, i=i: at(sig[i], x)) for i in range(dim)]

    def equations():
        def t(txt, reg=S.om, **kw):
            return Term.new(txt, it, reg, m=m, u=var, v=tst, **kw)
        if form == 'lin_elastic':
            out = t('dw_lin_elastic(m.D, v, u)')
        elif form == 'iso':
            out = t('dw_lin_elastic_iso(m.lam, m.mu, v, u)')
        elif form == 'mixed':
            out = t('dw_lin_elastic_iso(m.lam, m.mu, v, u)') * 0.25 + 0.75 * t('dw_lin_elastic(m.D, v, u)')
        else:
            out = t('dw_div_grad(m.mu, v, u)')
        if c:
            out = out + t('dw_dot(m.c, v, u)')
        out = out - t('dw_volume_lvf(m.f, v)')
        if S.gn is not None and el:
            out = out - t('dw_surface_ltr(m.t, v)', S.gn)
        return Equations([Equation('e', out)])
    if not el:
        S.gd = S.dom.create_region('S', 'vertices of surface', 'facet')
    eqs = equations()
    pb, v = solve(mon, rng, eqs, [ebc(S, 'gd', 'u', S.gd, u)])
    mon.event('elasticity' if el else 'vector')
    check_solution(mon, S, v['u'], u, 1e-8)
    x = np.asarray(v()).copy()
    r = full_residual(equations(), x)
    P, N = facet_rule(S, S.gd.facets if dim > 1 else S.gd.vertices)
    tr = np.einsum('qij,qj->qi', at(sig, P).transpose(0, 1, 2), N)
    X = np.asarray(fld.get_coor())
    R = r.reshape(-1, dim)
    sc = abs(tr).sum() + abs(R).max() + 1e-6
    mon.close('reactions', R.sum(0), tr.sum(0), 0, 1e-7 * sc, msg='the sum of the reactions')
    mon.event('reactions')
    if el and dim > 1 and not c:
        i, j = (0, 1) if dim == 2 else tuple(rng.permutation(3)[:2])
        mon.close('moment', (X[:, i] * R[:, j] - X[:, j] * R[:, i]).sum(), (P[:, i] * tr[:, j] - P[:, j] * tr[:, i]).sum(),
                  0, 1e-7 * sc * (abs(X).max() + 1), msg='the moment of the reactions')
    if el:
        Xq, W = S.cells(n=8 if dim < 3 else 6)
        e = at(ev, Xq)
        en = (np.einsum('qi,ij,qj->q', e, D, e) * W).sum()
        mon.close('energy', evaluate(S, 'dw_lin_elastic(m.D, u, u)', it, m=m, u=v['u']), en, 1e-7, 1e-9, msg='the strain energy')
        work = (at(f, Xq) * at(u, Xq)).sum(-1) @ W - (c * (at(u, Xq)**2).sum(-1)) @ W
        surf = S.dom.create_region('Sall', 'vertices of surface', 'facet')
        Pa, Na = facet_rule(S, surf.facets if dim > 1 else surf.vertices)
        work = work + np.einsum('qi,qij,qj->', at(u, Pa), at(sig, Pa), Na)
        mon.close('work', en, work, 1e-6, 1e-8 * (abs(work) + 1), msg='own data')
        st = evaluate(S, 'ev_cauchy_stress(m.D, u)', it, mode='el_avg', m=m, u=v['u'])
        ref = evaluate(S, 'ev_integrate_mat(m.t, u)', it, mode='el_avg', m=m, u=v['u'])
        mon.close('stress', np.asarray(st).ravel(), np.asarray(ref).ravel(), 1e-6, 1e-6 * (abs(np.asarray(ref)).max() + 1e-3),
                  msg='averaged stresses')
        mon.event('energy')
    mon.sig('vector', case['g'], o, form, bool(c))

def run_stokes(mon, case):
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations
    from sfepy.discrete.conditions import EssentialBC
    from sfepy.terms import Term
    rng = gen.rngof(case)
    S = Setup(rng, case['g'], jitter=0.15)
    dim = S.dim
    o = int(rng.randint(1, 3)) if dim < 3 else 1
    S.boundary(rng)
    u = [Poly.random(rng, dim, o + 1, S.x0, S.h) for _ in range(dim)]
    p = Poly.random(rng, dim, o, S.x0, S.h)
    mu = float(0.5 + rng.rand())
    sig = [[u[i].diff(j) * mu - (p if i == j else Poly({}, dim)) for j in range(dim)] for i in range(dim)]
    f = [div(sig[i]) * -1.0 for i in range(dim)]
    g = msum([u[i].diff(i) for i in range(dim)])
    order = min(3 * o + 4, 8)
    fu, fp = field(S, 'fu', dim, o + 1), field(S, 'fp', 1, o)
    od = rng.permutation(2)
    var, tst = FieldVariable('u', 'unknown', fu, order=int(od[0])), FieldVariable('v', 'test', fu, primary_var_name='u')
    pv, q = FieldVariable('p', 'unknown', fp, order=int(od[1])), FieldVariable('q', 'test', fp, primary_var_name='p')
    it = Integral('i', order=order)
    m = mat('m', dim, mu=lambda x: np.full(len(x), mu), f=lambda x: at(f, x), g=lambda x: g(x))

    def t(txt):
        return Term.new(txt, it, S.om, m=m, u=var, v=tst, p=pv, q=q)
    e1 = t('dw_div_grad(m.mu, v, u)') - t('dw_stokes(v, p)') - t('dw_volume_lvf(m.f, v)')
    e2 = t('dw_stokes(u, q)') - t('dw_volume_lvf(m.g, q)')
    eq = [Equation('b', e1), Equation('c', e2)]
    eqs = Equations(eq if rng.rand() < 0.5 else eq[::-1])
    surf = S.dom.create_region('S', 'vertices of surface', 'facet')
    one = S.dom.create_region('One', 'vertex %d' % rng.randint(S.dom.shape.n_nod), 'vertex')
    # The discrete problem has a unique solution only on connected meshes with inner freedom.
    A = None
    try:
        pb, v = solve(mon, rng, eqs, [ebc(S, 'su', 'u', surf, u), ebc(S, 'sp', 'p', one, [p])], strict=False)
    except Exception as e:
        if 'singular' in str(e).lower() or 'infs or nans' in str(e) or 'MUMPS error' in str(e):
            mon.event('singular')
            return
        raise
    A = pb.get_evaluator().eval_tangent_matrix(v.get_state(reduced=True))
    cn = np.linalg.cond(A.toarray()) if A.shape[0] and A.shape[0] < 1200 else 1e6
    mon.event('stokes')
    if cn > 1e8 or not np.isfinite(cn):
        mon.event('singular')                  # Not inf-sup stable (few cells).
        return
    check_solution(mon, S, v['u'], u, 1e-8 * max(1, cn * 1e-5))
    check_solution(mon, S, v['p'], [p], 1e-8 * max(1, cn * 1e-5) * (1 + max(abs(at(u, S.X)).max(), 1)), what='pressure')
    mon.event('dirichlet')
    mon.sig('stokes', case['g'], o)

def run_biot(mon, case):
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations
    from sfepy.terms import Term
    rng = gen.rngof(case)
    S = Setup(rng, case['g'], holes=False)
    dim = S.dim
    o = int(rng.randint(1, 3)) if dim < 3 else 1
    op = int(rng.randint(1, o + 1))
    S.boundary(rng)
    u = [Poly.random(rng, dim, o, S.x0, S.h) for _ in range(dim)]
    p = Poly.random(rng, dim, op, S.x0, S.h)
    n = dim * (dim + 1) // 2
    D, lam, mu = stiff(rng, dim, rng.rand() < 0.5)
    al = rng.randn(n) * 0.5
    K = spd(rng, dim)
    s0, sv, ev = stress(D, u, dim)
    ts = [sv[a] - p * float(al[a]) for a in range(n)]
    sig = [[None] * dim for _ in range(dim)]
    for a, (i, j) in enumerate(VOIGT[dim]):
        sig[i][j] = sig[j][i] = ts[a]
    f = [div(sig[i]) * -1.0 for i in range(dim)]
    fl = [msum([g * float(K[i, j]) for j, g in enumerate(p.grad())]) for i in range(dim)]
    h = msum([ev[a] * float(al[a]) for a in range(n)]) - div(fl)
    order = min(2 * o + 2 + (0 if dim == 1 else dim * o), 10 if dim < 3 else 8) if case['g'] != '3_6' else 3
    fu, fp = field(S, 'fu', dim, o), field(S, 'fp', 1, op)
    var, tst = FieldVariable('u', 'unknown', fu), FieldVariable('v', 'test', fu, primary_var_name='u')
    pv, q = FieldVariable('p', 'unknown', fp), FieldVariable('q', 'test', fp, primary_var_name='p')
    it = Integral('i', order=order)
    m = mat('m', dim, D=lambda x: np.tile(D, (len(x), 1, 1)), K=lambda x: np.tile(K, (len(x), 1, 1)),
            al=lambda x: np.tile(al[:, None], (len(x), 1, 1)), f=lambda x: at(f, x), h=lambda x: h(x),
            t=lambda x: at(ts, x), q=lambda x: at(fl, x))

    def t(txt, reg=S.om):
        return Term.new(txt, it, reg, m=m, u=var, v=tst, p=pv, q=q)

    def equations():
        e1 = t('dw_lin_elastic(m.D, v, u)') - t('dw_biot(m.al, v, p)') - t('dw_volume_lvf(m.f, v)')
        e2 = t('dw_biot(m.al, u, q)') + t('dw_diffusion(m.K, q, p)') - t('dw_volume_lvf(m.h, q)')
        if S.gn is not None:
            e1 = e1 - t('dw_surface_ltr(m.t, v)', S.gn)
            e2 = e2 - t('dw_surface_ndot(m.q, q)', S.gn)
        return Equations([Equation('b', e1), Equation('c', e2)])
    pb, v = solve(mon, rng, equations(), [ebc(S, 'su', 'u', S.gd, u), ebc(S, 'sp', 'p', S.gd, [p])])
    mon.event('biot')
    check_solution(mon, S, v['u'], u, 1e-7)
    check_solution(mon, S, v['p'], [p], 1e-7)
    r = full_residual(equations(), np.asarray(v()).copy())
    P, N = facet_rule(S, S.gd.facets if dim > 1 else S.gd.vertices)
    tr = np.einsum('qij,qj->qi', at(sig, P), N)
    ru = r[v.di.indx['u']].reshape(-1, dim)
    rp = r[v.di.indx['p']]
    sc = abs(tr).sum() + abs(r).max() + 1e-6
    mon.close('reactions', ru.sum(0), tr.sum(0), 0, 1e-6 * sc, msg='the sum of the reactions')
    mon.close('flux', rp.sum(), (at(fl, P) * N).sum(), 0, 1e-6 * sc, msg='the balance of the fluid')
    mon.sig('biot', case['g'], o, op)

def run_interface(mon, case):
    """Piecewise solutions over a material interface given by regions or by a material function."""
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Material
    from sfepy.terms import Term
    rng = gen.rngof(case)
    dim = int(case['g'][0])
    shape = [[7], [5, 3], [5, 3, 2]][dim - 1]
    raw = gen.raw_mesh(rng, case['g'], shape=shape, jitter=0, affine=False)
    Y = uniform(raw)
    Q = gen.rotation(rng, dim)
    z = rng.randn(dim)
    S0 = Y.copy()
    raw['coors'] = Y @ Q.T + z
    S = Setup(rng, case['g'], raw)
    a = Q[:, 0]
    mid = 0.5
    k1, k2 = float(0.5 + rng.rand()), float(2 + 5 * rng.rand())
    o = int(rng.randint(1, 3 if dim == 3 else 4))
    # u = P(s) / k with the common flux P'(s) in the direction a, continuous at s = mid; tangential part only constant.
    cf = rng.randn(o + 1)

    def s_of(x):
        return (x - z) @ a

    def prim(s, d=0):
        t = s - mid
        return sum(c * (t**i if d == 0 else i * t**max(i - 1, 0) if d == 1 else i * (i - 1) * t**max(i - 2, 0))
                   for i, c in enumerate(cf) if i > 0)

    def uex(x):
        s = s_of(x)
        return cf[0] + prim(s) / np.where(s < mid, k1, k2)
    cen = {}
    ids = [[], []]
    conns = S.dom.mesh.get_conn
    for ic in range(S.dom.shape.n_el):
        cm = S.dom.cmesh
        cc = cm.get_conn(dim, 0)
        vs = cc.indices[cc.offsets[ic]:cc.offsets[ic + 1]]
        ids[int(s_of(S.X[vs].mean(0)) > mid)].append(ic)
    r1 = S.dom.create_region('Om1', 'cell ' + ', '.join(map(str, ids[0])))
    r2 = S.dom.create_region('Om2', 'cell ' + ', '.join(map(str, ids[1])))
    style = str(rng.choice(['regions', 'function', 'dict']))
    fld = field(S, 'f', 1, o)
    var = FieldVariable('u', 'unknown', fld)
    tst = FieldVariable('v', 'test', fld, primary_var_name='u')
    it = Integral('i', order=2 * o + 2)
    m1, m2 = Material('m1', k=k1), Material('m2', k=k2)
    m = mat('m', dim, k=lambda x: np.where(s_of(x) < mid, k1, k2), f=lambda x: -prim(s_of(x), 2))
    md = Material('md', values={'k': {'Om1': k1, 'Om2': k2}})

    def t(txt, reg=S.om):
        return Term.new(txt, it, reg, m=m, m1=m1, m2=m2, md=md, u=var, v=tst)
    if style == 'regions':
        e = t('dw_laplace(m1.k, v, u)', r1) + t('dw_laplace(m2.k, v, u)', r2)
    elif style == 'function':
        e = t('dw_laplace(m.k, v, u)')
    else:
        e = t('dw_laplace(md.k, v, u)')
    if rng.rand() < 0.5:
        e = e - t('dw_volume_lvf(m.f, v)')
    else:
        e = e - t('dw_volume_lvf(m.f, v)', r2) - t('dw_volume_lvf(m.f, v)', r1)
    from .C06 import facets_region
    from sfepy.discrete import Function
    from sfepy.discrete.conditions import EssentialBC
    cmn = s_of(S.X)
    ends = np.where((cmn < cmn.min() + 1e-9) | (cmn > cmn.max() - 1e-9))[0]
    reg = S.dom.create_region('E', 'vertex ' + ', '.join(map(str, ends)), 'facet' if dim > 1 else 'vertex')
    b = EssentialBC('b', reg, {'u.0': Function('b', lambda ts, coors, **kw: uex(np.asarray(coors)))})
    pb, v = solve(mon, rng, Equations([Equation('e', e)]), [b])
    val, gr, x, w = solution_at(S, v['u'])
    sc = abs(val).max() + 1e-3
    mon.close('interface', val[..., 0, 0], uex(x), 0, 1e-8 * sc, msg='the solution over a material interface (%s)' % style)
    fl = prim(s_of(x), 1)[..., None] * a / np.where(s_of(x) < mid, k1, k2)[..., None]
    mon.close('interface-gradient', gr[..., 0], fl, 0, 1e-6 * (sc + abs(fl).max()), msg='the gradient')
    # Equal flux through the interface from both sides.
    mon.event('interface')
    mon.sig('interface', case['g'], o, style)

class General:
    """A problem with general (not polynomial) data given by functions in a reference frame."""

    def __init__(self, rng, dim, vector):
        self.vector, self.dim = vector, dim
        self.w = rng.randn(3, dim) * 1.2
        self.K = spd(rng, dim)
        self.D, self.lam, self.mu = stiff(rng, dim, True)
        self.c = float(rng.rand())
        self.a = rng.randn(3, dim)
        self.nrm = rng.randn(dim)

    def f(self, y):
        v = np.array([np.sin(y @ self.w[i]) @ np.eye(1) if False else np.sin(y @ self.w[i]) + 0.5 for i in range(3)]).T
        return v[:, :self.dim] if self.vector else v[:, 0]

    def g(self, y):
        v = np.array([np.cos(y @ self.w[i]) for i in range(3)]).T
        return v[:, :self.dim] if self.vector else v[:, 0]

    def build(self, S, order, Q, z, tie=None, split=None, alt=False, qorder=None, scale=1.0, reorder=False, amp=(1.0, 1.0),
              rng=None, el='f'):
        """Equations and conditions on the frame x = z + Q y scale."""
        from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Function
        from sfepy.discrete.conditions import EssentialBC
        from sfepy.terms import Term
        dim = self.dim
        fld = field(S, el, dim if self.vector else 1, order)
        var = FieldVariable('u', 'unknown', fld)
        tst = FieldVariable('v', 'test', fld, primary_var_name='u')
        it = Integral('i', order=(qorder or 2 * order + 3) if S.g != '3_6' else 3)

        def back(x):
            return (np.asarray(x) - z) @ Q / scale

        def load(x):
            v = self.f(back(x)) * amp[0]
            return v @ Q.T if self.vector else v

        def bc(x):
            v = self.g(back(x)) * amp[1]
            return v @ Q.T * scale if self.vector else v
        K = Q @ self.K @ Q.T
        m = mat('m', dim, K=lambda x: np.tile(K, (len(x), 1, 1)) * scale**(2 if not self.vector else 0),
                D=lambda x: np.tile(self.D, (len(x), 1, 1)) * scale, lam=lambda x: np.full(len(x), self.lam * scale),
                mu=lambda x: np.full(len(x), self.mu * scale), f=load,
                c=lambda x: np.full(len(x), self.c / (scale if self.vector else 1.0)))

        def t(txt, reg=S.om):
            return Term.new(txt, it, reg, m=m, u=var, v=tst)

        def both(txt):
            if split is None:
                return t(txt)
            return t(txt, split[0]) + t(txt, split[1])
        if self.vector:
            parts = [both('dw_lin_elastic_iso(m.lam, m.mu, v, u)') if alt else both('dw_lin_elastic(m.D, v, u)')]
        elif alt:
            parts = [both('dw_diffusion(m.K, v, u)') * 0.5, both('de_diffusion(m.K, v, u)') * 0.5]
        else:
            parts = [both('dw_diffusion(m.K, v, u)')]
        parts += [both('dw_dot(m.c, v, u)'), both('dw_volume_lvf(m.f, v)') * -1.0]
        if reorder:
            parts = parts[::-1]
        e = parts[0]
        for p in parts[1:]:
            e = e + p
        eqs = Equations([Equation('e', e)])
        s = back(S.X) @ self.nrm
        cm = S.dom.cmesh
        surf = np.asarray(cm.get_surface_facets())
        conn = cm.get_conn(dim - 1, 0) if dim > 1 else None
        fc = np.array([back(S.X[np.unique(conn.indices[conn.offsets[f]:conn.offsets[f + 1]])]).mean(0) if dim > 1 else back(S.X[f])
                       for f in surf]) @ self.nrm
        if tie is None:
            ss = np.sort(fc)
            k = max(1, len(ss) // 2)
            tie = 0.5 * (ss[k - 1] + ss[k]) if len(ss) > k else ss[-1]
            gap = ss[k] - ss[k - 1] if len(ss) > k else 1.0
            i = k
            while gap < 1e-6 and i < len(ss) - 1:
                i += 1
                gap = ss[i] - ss[i - 1]
                tie = 0.5 * (ss[i] + ss[i - 1])
        S.tie = tie
        reg = S.add('GD%d' % len(S.dom.regions), surf[fc <= tie])
        S.gd = reg
        b = EssentialBC('b', reg, {'u.all': Function('b', lambda ts, coors, **kw: bc(coors))})
        return eqs, [b], fld

def match(A, B):
    """Index into B of the points A."""
    from scipy.spatial import cKDTree
    d, i = cKDTree(B).query(A)
    return d.max(), i

def run_invariance(mon, case):
    rng = gen.rngof(case)
    g = case['g']
    S = Setup(rng, g, holes=False)
    dim = S.dim
    P = General(rng, dim, bool(rng.rand() < 0.4))
    o = pick_order(rng, g) if dim < 3 or g == '3_6' else int(rng.randint(1, 3 if not P.vector else 2))
    eye, zero = np.eye(dim), np.zeros(dim)
    eqs, bcs, fld = P.build(S, o, eye, zero)
    pb, v = solve(mon, rng, eqs, bcs)
    X = np.asarray(fld.get_coor())
    nc = dim if P.vector else 1
    U = np.asarray(v()).reshape(-1, nc)
    sc = abs(U).max() + 1e-3

    def compare(S2, kw, what, Q=eye, z=zero, scale=1.0, perm=True):
        e2, b2, f2 = P.build(S2, o, Q, z, tie=S.tie, scale=scale, rng=rng, **kw)
        p2, v2 = solve(mon, rng, e2, b2)
        U2 = np.asarray(v2()).reshape(-1, nc)
        X2 = (np.asarray(f2.get_coor()) - z) @ Q / scale
        d, i = match(X, X2)
        if not mon.ok(what, d < 1e-7 and len(X) == len(X2), 'other nodes'):
            return
        V = U2[i] @ (Q if nc > 1 else np.eye(1)) / (scale if P.vector else 1.0)
        mon.close(what, V, U, 0, 1e-7 * sc, msg='the solution of the %s problem' % what)
        mon.event(what)
        return U2[i]
    # Renumbered, rotated, translated, rescaled.
    raw = S.raw
    p = rng.permutation(len(raw['coors']))
    Q = gen.rotation(rng, dim)
    z = rng.randn(dim) * 3
    scale = float(rng.choice([1.0, 1.0, 0.1, 7.0]))

    def other(Q, z, scale, renumber):
        new = dict(raw)
        Xn = np.empty_like(raw['coors'])
        q = p if renumber else np.arange(len(p))
        Xn[q] = raw['coors']
        new['coors'] = Xn @ Q.T * scale + z
        new['vgroups'] = np.asarray(raw['vgroups'])[np.argsort(q)]
        cs = {}
        for k, c in raw['conns'].items():
            c = q[np.asarray(c)]
            if renumber:
                S_ = gen.SYM[k]
                c = np.take_along_axis(c, S_[rng.randint(len(S_), size=len(c))], axis=1)
                c = c[rng.permutation(len(c))]
            cs[k] = c
        new['conns'] = cs
        return Setup(rng, g, new)
    compare(other(eye, zero, 1.0, True), {}, 'renumbered')
    compare(other(Q, z, scale, bool(rng.rand() < 0.5)), {}, 'rotated', Q, z, scale)
    kw = dict(split=S.halves(rng)) if rng.rand() < 0.6 and S.dom.shape.n_el > 1 else {}
    if kw:
        mon.event('split')
    kw.update(alt=bool(rng.rand() < 0.5), reorder=bool(rng.rand() < 0.5))
    compare(S, kw, 'equivalent')
    if kw['reorder']:
        mon.event('equations reordered')
    # Superposition.
    a = compare_amp(P, S, rng, mon, o, (1.0, 0.0), nc)
    b = compare_amp(P, S, rng, mon, o, (0.0, 1.0), nc)
    mon.close('superposition', a + b, U, 0, 1e-8 * sc, msg='the sum of the solutions of two loads')
    mon.event('superposition')
    mon.sig('invariance', g, o, P.vector, bool(kw.get('split')), kw['alt'])

def compare_amp(P, S, rng, mon, o, amp, nc):
    e, b, f = P.build(S, o, np.eye(S.dim), np.zeros(S.dim), tie=S.tie, amp=amp)
    pb, v = solve(mon, rng, e, b)
    return np.asarray(v()).reshape(-1, nc)

def run_spaces(mon, case):
    """Energies of Ritz solutions in nested spaces and the Galerkin orthogonality."""
    rng = gen.rngof(case)
    g = case['g']
    S = Setup(rng, g, jitter=0.0, holes=False)
    dim = S.dim
    P = General(rng, dim, bool(rng.rand() < 0.3))
    top = 4 if dim == 1 else 3
    if dim == 3:
        top = 2 if g != '3_6' else 1
    J, us = [], []
    for o in range(1, top + 1):
        e, b, f = P.build(S, o, np.eye(dim), np.zeros(dim), tie=getattr(S, 'tie', None), amp=(1.0, 0.0), qorder=2 * top + 2)
        pb, v = solve(mon, rng, e, b)
        x = np.asarray(v()).copy()
        # J(u) = 1/2 a(u, u) - l(u) = 1/2 (r(u) + r(0)) . u
        e2 = P.build(S, o, np.eye(dim), np.zeros(dim), tie=S.tie, amp=(1.0, 0.0), qorder=2 * top + 2)[0]
        r = full_residual(e2, x)
        r0 = full_residual(e2, 0 * x)
        J.append(0.5 * (r + r0) @ x)
        us.append((x, r, r0))
        fixed = np.unique(np.concatenate(f.get_dofs_in_region(S.gd, merge=False))) if False else f.get_dofs_in_region(S.gd)
        nc = f.n_components
        fr = np.setdiff1d(np.arange(f.n_nod), fixed)
        R = r.reshape(-1, nc)
        mon.close('equilibrium', R[fr], 0 * R[fr], 0, 1e-8 * (abs(R).max() + 1e-6), msg='the residual in free nodes')
        mon.close('homogeneous', x.reshape(-1, nc)[fixed], 0 * R[fixed], 0, 1e-14, msg='fixed values')
    d = np.diff(J)
    mon.ok('ritz', (d <= 1e-9 * (1 + abs(np.array(J)).max())).all(), 'energies in nested spaces: %s' % J)
    mon.ok('ritz', J[0] <= 1e-12, 'energy above the zero state')
    mon.event('monotone energy')
    mon.sig('spaces', g, P.vector)

def run_rate(mon, case):
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Function
    from sfepy.discrete.conditions import EssentialBC
    from sfepy.terms import Term
    rng = gen.rngof(case)
    dim = int(case['g'][0])
    o = int(rng.randint(1, 4)) if dim < 3 else int(rng.randint(1, 3))
    w = np.array([0.8, 0.6, 0.5])[:dim] * (0.8 + 0.4 * rng.rand(dim)) * rng.choice([-1, 1], dim) * 2.0
    ph = rng.rand() * 6

    def u(x):
        return np.sin(x @ w + ph)
    K = spd(rng, dim)
    ns = {1: (9, 17), 2: (5, 9), 3: (3, 5)}[dim]
    err, best = [], []
    for n in ns:
        st = np.random.RandomState(case['seed'] % 1000)
        raw = gen.raw_mesh(st, case['g'], shape=[n] * dim, jitter=0.0, affine=False, localperm=False)
        raw['coors'] = uniform(raw)
        S = Setup(rng, case['g'], raw)
        fld = field(S, 'f', 1, o)
        var = FieldVariable('u', 'unknown', fld)
        tst = FieldVariable('v', 'test', fld, primary_var_name='u')
        it = Integral('i', order=2 * o + 3)
        m = mat('m', dim, K=lambda x: np.tile(K, (len(x), 1, 1)), f=lambda x: (w @ K @ w) * u(x))
        e = Term.new('dw_diffusion(m.K, v, u)', it, S.om, m=m, v=tst, u=var) \
            - Term.new('dw_volume_lvf(m.f, v)', it, S.om, m=m, v=tst)
        surf = S.dom.create_region('S', 'vertices of surface', 'facet' if dim > 1 else 'vertex')
        b = EssentialBC('b', surf, {'u.0': Function('b', lambda ts, coors, **kw: u(np.asarray(coors)))})
        pb, v = solve(mon, rng, Equations([Equation('e', e)]), [b])


        def norms(var):
            val, gr, x, det = solution_at(S, var, order=2 * o + 4)
            d = gr[..., 0] - np.cos(x @ w + ph)[..., None] * w
            return (np.sqrt((det * (val[..., 0, 0] - u(x))**2).sum()), np.sqrt((det * np.einsum('eqi,ij,eqj->eq', d, K, d)).sum()))
        err.append(norms(v['u']))
        iv = FieldVariable('w', 'parameter', fld, primary_var_name='(set-to-None)')
        iv.set_data(u(np.asarray(fld.get_coor())))
        best.append(norms(iv))
        # The solution is the best approximation in the energy norm.
        mon.ok('best-approximation', err[-1][1] <= best[-1][1] * (1 + 1e-3) + 1e-10,
               'error %s of the solution in the energy norm, %s of the interpolant' % (err[-1][1], best[-1][1]))
    r = np.log2(np.array(err[0]) / np.array(err[1]))
    ri = np.minimum(np.log2(np.array(best[0]) / np.array(best[1])), [o + 1, o])
    mon.ok('rate', (r > ri - 0.6).all(), 'rates %s, of the interpolant %s, for the order %d: %s' % (r, ri, o, err))
    mon.ok('rate', best[1][1] < best[0][1] and best[1][0] < best[0][0], 'errors of interpolants: %s' % best)
    mon.event('rate')
    mon.sig('rate', case['g'], o)
