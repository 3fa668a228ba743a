"""
C09: terms compute the integrals they document.

Monitor: every registered term having a closed documented integrand is
instantiated by a workbench (all argument shapes, call modes, integrations;
random meshes, sub-regions, facets, orders of approximation and quadrature,
real and complex unknowns, materials varying in space).  Observed residuals,
tested by random functions, values and averages are compared with the
quadrature of the documented formula written independently in numpy
(`rvm/formulas.py`) with own Jacobians in cells.  Multi-linear terms are
observed in all backends, layouts and optimization settings.  Shape
derivatives are in addition compared with difference quotients of their original
terms observed on moved meshes.  Materials given by constants, per-region
dictionaries, functions and times, and terms with derivatives in time, are
compared with what was given.
"""
import numpy as np
from .. import gen, tbench as tb, ref_fe as fe, formulas as fm

REQUIRED = ['residual', 'value', 'average', 'pointwise', 'complex', 'backend', 'shape',
            'material', 'history', 'bilinear_complex', 'again']
ASSUMPTIONS = ['Jacobians and normals in facets are those of the mapping (decided in'
               ' C06), values of fields in quadrature points those of variables (C07)',
               'constitutive formulas of large deformation terms belong to C22']

NOTEST = {'dw_jump', 'dw_ns_dot_grad_s'}
GEOM = ('2_3', '2_4', '3_4', '3_8')
BACKENDS = ['numpy', 'numpy_loop', 'numpy_qloop', 'opt_einsum', 'opt_einsum_loop',
            'opt_einsum_qloop', 'jax', 'jax_vmap', 'dask_single', 'dask_threads',
            'opt_einsum_dask_single', 'opt_einsum_dask_threads']
#: Not (multi-)linear in some argument.
NONLIN = {'dw_volume_nvf', 'dw_nl_diffusion', 'd_of_ns_min_grad', 'dw_electric_source',
          'ev_def_grad', 'dw_st_supg_c', 'dw_st_adj_supg_c', 'ev_sd_st_supg_c',
          'dw_bc_newton'}

def usable():
    cl = tb.classes()
    out = []
    for (name, i, j, it) in tb.entries():
        if fm.formula(name) is None or name in NOTEST:
            continue
        if it == 'custom':
            continue
        if name == 'ev_sd_surface_ltr' and \
                tb.shapes_of(cl[name])[i].get('opt_material') == 'D, 1':
            continue
        types, mode = tb.types_of(cl[name])[j]
        # Documented for evaluation only.
        if name in ('dw_surface_ltr',) and 'virtual' in types and \
                tb.shapes_of(cl[name])[i].get('opt_material') == 'D, D':
            continue
        out.append((name, i, j, it, list(types)))
    return out

def geoms(name, it):
    c = tb.classes()[name]
    gs = [g for g in ('1_2',) + GEOM if g in c.geometries]
    if it != 'cell':
        gs = [g for g in gs if g != '1_2'] or gs
    return gs

def cases(rng, tier):
    from .. import boot
    boot.boot('plain')
    n = 1 if tier == 'quick' else 8
    out = []
    ents = usable()
    S = lambda: int(rng.randint(1 << 30))
    for k in range(n):
        for e in ents:
            name, i, j, it, types = e
            gs = geoms(name, it)
            if not gs:
                continue
            for r in range(2):
                out.append(dict(kind='formula', term=name, ish=i, iat=j, integration=it,
                                geom=gs[rng.randint(len(gs))], s=S(), cplx=int(r == 1)))
            vk = [t for k_, t in zip(tb.get_kinds(types), types) if k_ == 'virtual_variable']
            if vk and k % 2 == 0:
                out.append(dict(kind='formula', term=name, ish=i, iat=j, integration=it,
                                geom=gs[rng.randint(len(gs))], s=S(), cplx=0, mixed=1))
            if name.startswith('de_'):
                g2 = [g for g in gs if g != '3_8']
                for r in range(2):
                    out.append(dict(kind='formula', term=name, ish=i, iat=j, integration=it,
                                    geom=g2[rng.randint(len(g2))], s=S(),
                                    cplx=int(rng.rand() < 0.3),
                                    backend=BACKENDS[rng.randint(len(BACKENDS))],
                                    optimize=['greedy', 'optimal', True, False]
                                    [rng.randint(4)],
                                    layout=None if rng.rand() < 0.3 else
                                    ''.join(rng.permutation(list('cqgvd0'))), cost=3))
        for (name, i, j, it) in shape_entries():
            out.append(dict(kind='shape', term=name, ish=i, iat=j, integration=it,
                            geom=GEOM[rng.randint(4)], s=S(), cost=4))
        for r in range(12):
            out.append(dict(kind='material', geom=GEOM[r % 4], s=S(), form=r % 6))
        for r in range(8):
            out.append(dict(kind='history', geom=GEOM[r % 3], s=S(), form=r % 4))
        for name in TH:
            for j in range(len(tb.types_of(tb.classes()[name]))):
                for der in (0, 1):
                    out.append(dict(kind='history', th=name, iat=j, deriv=der, s=S(),
                                    geom=GEOM[rng.randint(3)]))
    return out

class Ctx:
    pass

def quadrature(b):
    """Weights and context of integration."""
    from sfepy.discrete.common.mappings import get_physical_qps
    X = Ctx()
    it, reg, integral = b.integration, b.region, b.integral
    X.d = b.dim
    X.iat = 0
    var = [v for v in b.vars.values() if not v.is_virtual()] or \
        [v for v in b.vars.values()]
    field = var[0].field
    if it == 'cell':
        g = b.g
        qp, w = integral.get_qp(g)
        conn = np.asarray(b.dom.get_conn(tdim=b.dom.shape.tdim))
        coors = np.asarray(b.dom.get_mesh_coors())
        cells = np.asarray(reg.get_cells())
        x, J = fe.mapped(g, coors, conn[cells], np.asarray(qp))
        X.w = np.abs(fe.measure(J)) * np.asarray(w)
        X.x = x
        X.n = None
    else:
        from .C06 import setup_surface
        for v in b.vars.values():
            setup_surface(v.field, reg)
        geo = field.get_mapping(reg, integral, it if it != 'facet_extra' else 'facet_extra')[0]
        X.w = np.asarray(geo.det)[..., 0, 0].copy()
        X.n = np.asarray(geo.normal)[..., 0].copy()
        ps = get_physical_qps(reg, integral)
        X.x = np.asarray(ps.values).reshape(X.w.shape + (b.dim,))
    X.shape = X.w.shape
    X.sym = lambda c: False
    return X

def observe(v, b, X, need_grad=True, integration=None):
    """Values and gradients of a variable in quadrature points."""
    it = integration or b.integration
    val = np.asarray(v.evaluate(mode='val', integral=b.integral,
                                integration=it if it == 'cell' else 'facet',
                                region=b.region)).copy()[..., 0]
    G = None
    if it != 'facet' and need_grad:
        G = np.asarray(v.evaluate(mode='grad', integral=b.integral, integration=it,
                                  region=b.region)).copy()
        G = np.swapaxes(G, -1, -2)      # [i, j] = d u_i / d x_j
    return fm.Var(val, G)

def matvals(m, X):
    if m is None:
        return None
    if isinstance(m, tb.Mat) or (callable(m) and not hasattr(m, 'scalar')):
        v = np.asarray(m(X.x.reshape(-1, X.d)))
        return v.reshape(X.shape + v.shape[1:])
    return m

def arguments(b, X, test=None, complete=None):
    out = []
    for k, t in zip(b.kinds, b.types):
        if k.endswith('variable'):
            v = test if k == 'virtual_variable' else b.vars[t]
            it = None
            if b.integration == 'facet' and b.name in FACET_GRADS and t in FACET_GRADS[b.name]:
                it = 'facet_extra'
            out.append(observe(v, b, X, integration=it))
        elif k.endswith('material'):
            if t not in b.mats:
                out.append(None)
            elif isinstance(b.mats[t], tb.Mat) or t in getattr(b, 'posmats', ()):
                out.append(matvals(b.mats[t], X))
            else:
                out.append(b.mats[t])
        elif k == 'ts':
            out.append(b.ts)
        else:
            out.append(b.args['user_' + t])
    return out

FACET_GRADS = {'ev_sd_surface_integrate': ('parameter_mv',), 'ev_sd_surface_ltr':
               ('parameter_mv',), 'de_sd_surface_ltr': ('parameter_mv',)}

def natural(args, X):
    """A bound of rounding errors of integrands vanishing by cancellation."""
    p = 1e-6 * X.w.sum()
    for a in args:
        if isinstance(a, fm.Var):
            p *= abs(a.val).max() + (0 if a.G is None else abs(a.G).max())
    return max(p, 1e-300)

def bench(case, rng, dtype):
    from .C08 import bench as b8
    kw = {}
    if case.get('backend'):
        kw['backend'] = dict(backend=case['backend'], optimize=case['optimize'],
                             layout=case['layout'])
    if case['term'] in ('dw_lin_elastic_yp_ad',):
        kw['mats'] = {'material_2': tb.Mat(rng, (1, 1), True)}
        m = kw['mats']['material_2']
        m.a, m.b = np.array([[0.2]]), np.array([[0.35]])
        m.k = np.zeros_like(m.k)
    if case['term'].endswith('_ad') or case['term'] in PER_CELL:
        kw['const'] = True
    if case['term'] == 'de_grad' and case['ish'] in (1, 2):
        # The material is contracted with the derivatives.
        kw['nN'] = int(case['geom'][0])
    if case.get('mixed'):
        kw['mixed'] = True
    return b8(case, rng, dtype=dtype, **kw)

def rand(rng, n, dtype):
    x = rng.randn(n)
    return x + 1j * rng.randn(n) if dtype == np.complex128 else x

def run_formula(mon, case):
    try:
        formula_case(mon, case)
    except ValueError as exc:
        if 'vmap got inconsistent' in str(exc):
            mon.event('unsupported')    # Operands common to all cells.
            return
        if case.get('mixed'):
            mon.event('refused')
            return
        if 'warp' not in str(exc):
            raise
        mon.inconclusive('cells turned over')

def formula_case(mon, case):
    rng = np.random.RandomState(case['s'])
    name = case['term']
    cplx = case['cplx'] and name not in NONLIN and not name.endswith('_ad')
    dtype = np.complex128 if cplx else np.float64
    f = fm.formula(name)
    b = bench(case, rng, dtype)
    if b is None:
        mon.event('skipped')
        return
    b.set_params(rng)
    if case.get('mixed') and b.fake is None:
        mon.event('skipped')
        return
    if 'parameter_mv' in b.types and cplx:
        v = b.vars['parameter_mv']      # A velocity of the mesh is real.
        v.set_data(np.asarray(v()).real + 0j)
    kind = 'complex' if cplx else 'mixed' if case.get('mixed') else 'residual'
    what = '%s on %s' % (b.text, case['geom'])
    tol = 1e-9
    if case.get('backend'):
        what += ', %s, optimize %r, layout %s' % (case['backend'], case['optimize'],
                                                  case['layout'])
        kind = 'backend'
        if 'jax' in case['backend']:
            tol = 1e-4
    from sfepy.discrete import FieldVariable
    weak = any(k == 'virtual_variable' for k in b.kinds)
    if weak:
        b.setup()
        x = rand(rng, b.vec(), dtype)
        try:
            r = np.asarray(b.residual(x)).copy()
        except NotImplementedError as exc:
            mon.event('unsupported')
            return
        vt = rand(rng, b.test.n_dof, dtype)
        w = FieldVariable('w_test', 'parameter', b.test.field,
                          primary_var_name='(set-to-None)')
        w.set_data(vt)
        X = quadrature(b)
        X.iat = case['iat']
        args = arguments(b, X, test=w)
        q = f(X, *args)
        ref = (q * X.w).sum()
        sc = (np.abs(q) * X.w).sum()
        pri = [v for v in b.V if v.name == b.test.primary_var_name][0]
        val = vt @ r[b.indx(pri)]
        mon.close(kind, np.array([val]), np.array([ref]), rtol=tol, scale=max(sc, natural(args, X)),
                  msg=what)
        if case.get('backend'):
            # The state of another iteration.
            x = rand(rng, b.vec(), dtype)
            r = np.asarray(b.residual(x)).copy()
            args = arguments(b, X, test=w)
            q = f(X, *args)
            mon.close('again', np.array([vt @ r[b.indx(pri)]]), np.array([(q * X.w).sum()]),
                      rtol=tol, scale=max((np.abs(q) * X.w).sum(), natural(args, X)),
                      msg=what + ' (another state)')
        # By cells: only test functions of a part.
        part = rng.rand(b.test.n_dof) < 0.3
        w.set_data(vt * part)
        args = arguments(b, X, test=w)
        q = f(X, *args)
        mon.close(kind, np.array([(vt * part) @ r[b.indx(pri)]]), np.array([(q * X.w).sum()]),
                  rtol=tol, scale=max(sc, natural(args, X)), msg=what + ' (part)')
        if cplx or case.get('mixed'):
            K = b.matrix(x)
            lin = [v for v in b.states()]
            if K is not None and name not in QUADRATIC:
                y = K @ x
                r0 = b.residual(0 * x)
                mon.close('bilinear_complex' if cplx else 'mixed', y, r - r0, rtol=tol,
                          scale=max(np.abs(r).max(), 1e-300), msg=what)
        mon.sig(name, case['ish'], case['iat'], b.integration, case['geom'], cplx,
                case.get('backend'), case.get('layout'))
        return
    from sfepy.discrete import Equation, Equations
    eqs = Equations([Equation('v', b.term)])
    eqs.time_update_materials(None, verbose=False)
    X = quadrature(b)
    X.iat = case['iat']
    args = arguments(b, X)
    q = np.asarray(f(X, *args))
    q = q.reshape(X.shape + (-1,)) if q.ndim > 2 else q[..., None]
    wq = q * X.w[..., None]
    cell = wq.sum(1)
    vol = X.w.sum(1)
    sc = max(np.abs(wq).sum(), natural(args, X))
    kv = kind if kind != 'residual' else 'value'
    try:
        val = np.asarray(b.term.evaluate(mode='eval'))
    except NotImplementedError:
        mon.event('unsupported')
        return
    tot = order_like(name, val, cell.sum(0), X)
    mon.close(kv, val.ravel(), tot, rtol=tol, scale=sc, msg=what)
    if case.get('backend'):
        t = [t for t, v in b.vars.items() if v.is_parameter()]
        t = t[rng.randint(len(t))]
        b.vars[t].set_data((0.5 + rng.rand()) * np.asarray(b.vars[t]()))
        args = arguments(b, X)
        q = np.asarray(f(X, *args))
        q = q.reshape(X.shape + (-1,)) if q.ndim > 2 else q[..., None]
        wq = q * X.w[..., None]
        cell = wq.sum(1)
        sc = max(np.abs(wq).sum(), natural(args, X))
        val = np.asarray(b.term.evaluate(mode='eval'))
        mon.close('again', val.ravel(), order_like(name, val, cell.sum(0), X), rtol=tol,
                  scale=sc, msg=what + ' (another %s)' % t)
    mon.sig(name, case['ish'], case['iat'], b.integration, case['geom'], cplx,
            case.get('backend'))
    if name.startswith('d_') or name in NOLOCAL:
        return
    ka, kq = ('average', 'pointwise') if kind == 'residual' else (kind, kind)
    val = np.asarray(b.term.evaluate(mode='el_eval'))
    mon.close(kv, val.reshape(len(cell), -1),
              np.array([order_like(name, val[0], c, X) for c in cell]),
              rtol=tol, scale=sc, msg=what + ' el_eval')
    if name in AVERAGE or name.startswith('ev_integrate') or 'integrate' in name:
        val = np.asarray(b.term.evaluate(mode='el_avg'))
        av = cell / vol[:, None]
        mon.close(ka, val.reshape(len(cell), -1),
                  np.array([order_like(name, val[0], c, X) for c in av]),
                  rtol=tol, scale=max(np.abs(q).max(), natural(args, X) / X.w.sum()), msg=what + ' el_avg')
        if 'qloop' in case.get('backend', ''):
            return      # Points are summed.
        val = np.asarray(b.term.evaluate(mode='qp'))
        mon.close(kq, val.reshape(X.shape + (-1,)),
                  np.array([[order_like(name, val[0, 0], c, X) for c in qq] for qq in q]),
                  rtol=tol, scale=max(np.abs(q).max(), natural(args, X) / X.w.sum()), msg=what + ' qp')

AVERAGE = {'ev_grad', 'ev_div', 'ev_surface_grad', 'ev_surface_div', 'ev_cauchy_strain',
           'ev_cauchy_stress', 'ev_cauchy_strain_s', 'ev_biot_stress', 'ev_diffusion_velocity',
           'ev_piezo_strain', 'ev_piezo_stress', 'de_grad', 'de_cauchy_stress'}
#: Documented with coefficients constant in elements.
PER_CELL = {'dw_st_adj_supg_c', 'dw_st_adj1_supg_p', 'dw_st_adj2_supg_p'}
NOLOCAL = {'ev_of_ns_surf_min_d_press', 'd_of_ns_min_grad'}
#: Not linear in the unknowns.
QUADRATIC = {'dw_convect', 'de_convect', 'dw_convect_v_grad_s', 'dw_electric_source'}

def order_like(name, val, ref, X):
    """Storage of gradients: (d, components)."""
    if name in ('ev_grad', 'ev_surface_grad'):
        d = X.d
        return ref.reshape(-1, d).T.ravel()
    return np.asarray(ref).ravel()


# -- shape derivatives -------------------------------------------------------
_stokes = lambda X, c, v, p: fm.sca(c) * p.s * v.div
_lin = lambda X, D, w, u: fm.hook(fm.tens4(D, X.d), w.G, u.G)
_piezo = lambda X, g, u, p: fm.es('eqkij,eqij,eqk->eq', fm.tens3(g, X.d), u.G, p.g)
_vgs = lambda X, c, v, p: fm.sca(c) * fm.dot(v.val, p.g)
_swap = lambda f: (lambda X, c, a, b: f(X, c, a, b) if X.iat != 1 else f(X, c, b, a))
#: Integrands of the original terms, without the velocity of the mesh.
SHAPE = {
    'ev_sd_dot': lambda X, a, b: fm.dot(a.val, b.val),
    'ev_sd_volume_dot': lambda X, a, b: fm.dot(a.val, b.val),
    'ev_sd_div': lambda X, u, p: p.s * u.div,
    'ev_sd_div_grad': lambda X, c, u, w: fm.sca(c) * fm.dd(u.G, w.G),
    'ev_sd_convect': lambda X, u, w: fm.dot(fm.adv(u.val, u), w.val),
    'ev_sd_diffusion': fm.F['dw_diffusion'],
    'ev_sd_lin_elastic': _lin,
    'ev_sd_piezo_coupling': _piezo,
    'ev_sd_st_grad_div': lambda X, c, u, w: fm.sca(c) * u.div * w.div,
    'ev_sd_st_pspg_c': lambda X, c, b, u, r: fm.sca(c) * fm.dot(r.g, fm.adv(b.val, u)),
    'ev_sd_st_pspg_p': lambda X, c, r, p: fm.sca(c) * fm.dot(r.g, p.g),
    'ev_sd_st_supg_c': lambda X, c, b, u, w: fm.sca(c) * fm.dot(fm.adv(b.val, u),
                                                             fm.adv(b.val, w)),
    'ev_sd_surface_ltr': fm.F['dw_surface_ltr'],
    'de_sd_surface_ltr': fm.F['dw_surface_ltr'],
    'de_sd_dot': fm.F['dw_dot'],
    'de_sd_diffusion': fm.F['dw_diffusion'],
    'de_sd_div_grad': lambda X, c, u, w: fm.sca(c) * fm.dd(u.G, w.G),
    'de_sd_lin_elastic': _lin,
    'de_sd_piezo_coupling': _piezo,
    'de_sd_stokes': _stokes,
    'de_sd_v_dot_grad_s': _vgs,
}

def shape_entries():
    cl = tb.classes()
    out = []
    for (name, i, j, it) in tb.entries():
        if name not in SHAPE:
            continue
        types, mode = tb.types_of(cl[name])[j]
        if 'virtual' in types or 'state' in types:
            continue
        if name == 'ev_sd_surface_ltr' and tb.shapes_of(cl[name])[i].get('opt_material') \
                == 'D, 1':
            continue
        out.append((name, i, j, it))
    return out

def run_shape(mon, case):
    try:
        shape_case(mon, case)
    except ValueError as exc:
        if 'warp' not in str(exc):
            raise
        mon.inconclusive('cells turned over')

def shape_case(mon, case):
    name = case['term']
    rng = np.random.RandomState(case['s'])
    raw = tb.random_raw(rng, case['geom'])
    coors = np.array(raw['coors'])
    h0 = 1e-3
    seed = rng.randint(1 << 30)
    affine = rng.rand() < 0.4
    A, t = rng.randn(coors.shape[1], coors.shape[1]), rng.randn(coors.shape[1])
    V = coors @ A.T + t if affine else rng.randn(*coors.shape)
    order = None if affine else 1
    f = SHAPE[name]

    def value(h, term=False):
        dom = gen.to_domain(dict(raw, coors=coors + h * V))
        r = np.random.RandomState(seed)
        from .C08 import bench as b8
        b = b8(case, r, const=True, mesh=dom, order=order)
        b.set_params(r)
        mv = b.vars['parameter_mv']
        x = mv.field.get_coor()
        mv.set_data((x @ A.T + t if affine else V[nearest(x, coors)]).ravel()
                    if h == 0 else np.zeros(mv.n_dof))
        if term:
            from sfepy.discrete import Equation, Equations
            eqs = Equations([Equation('v', b.term)])
            eqs.time_update_materials(None, verbose=False)
            return float(np.sum(b.term.evaluate(mode='eval')))
        X = quadrature(b)
        X.iat = case['iat']
        args = arguments(b, X)
        del args[list(b.types).index('parameter_mv')]
        return (np.asarray(f(X, *args)) * X.w).sum()
    got = value(0.0, True)
    q = [(value(h) - value(-h)) / (2 * h) for h in (h0, h0 / 2)]
    ref = (4 * q[1] - q[0]) / 3
    scale = max(abs(got), abs(ref), abs(value(0.0)), 1e-3)
    err = 30 * abs(q[1] - q[0]) / 15 + 1e-7 * scale
    if err > 1e-2 * scale:
        mon.inconclusive('difference quotients do not converge')
        return
    mon.close('shape', np.array([got]), np.array([ref]), rtol=0, atol=err,
              msg='%s on %s (derivative along a moved mesh)' % (name, case['geom']))
    mon.sig('shape', name, case['ish'], case['geom'], affine)

def nearest(x, coors):
    d = ((x[:, None, :] - coors[None]) ** 2).sum(-1)
    return d.argmin(1)

# -- materials -----------------------------------------------------------------
def run_material(mon, case):
    from sfepy.base.base import Struct
    from sfepy.discrete import (Integral, FieldVariable, Equation, Equations, Material,
                                Function, fem)
    from sfepy.solvers.ts import TimeStepper
    from sfepy.terms import Term
    from .C06 import setup_surface
    from .C07 import interior  # noqa
    g = case['geom']
    form = case['form']
    rng = np.random.RandomState(case['s'])
    dom = gen.to_domain(tb.random_raw(rng, g))
    d = dom.shape.dim
    n = dom.shape.n_el
    om = dom.create_region('Omega', 'all')
    if n < 2:
        mon.event('skipped')
        return
    cut = int(rng.randint(1, n))
    perm = rng.permutation(n)
    R1 = dom.create_region('R1', 'cell ' + ', '.join(map(str, np.sort(perm[:cut]))))
    R2 = dom.create_region('R2', 'cell ' + ', '.join(map(str, np.sort(perm[cut:]))))
    ga = dom.create_region('Gamma', 'vertices of surface', 'facet')
    surf = np.asarray(dom.cmesh.get_surface_facets())
    from .C06 import facets_region
    part = facets_region(dom, np.sort(rng.permutation(surf)[:max(1, len(surf) // 2)]), 'Part')
    dom.regions.append(part)
    field = fem.Field.from_args('f', np.float64, (1,), om, approx_order=1)
    u = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
    u.set_data(rng.randn(u.n_dof))
    setup_surface(field, ga)
    ints = [Integral('i%d' % o, order=o) for o in (1, 3)]
    regs = [om, R1, R2, ga, part]
    prob = Struct(domain=dom)

    def bench_like(reg, integral):
        b = Struct(integration='facet' if reg in (ga, part) else 'cell', region=reg,
                   integral=integral, dim=d, vars={'u': u}, g=g, dom=dom)
        return quadrature(b)

    def check(m, names, expected, ts=None, use=None):
        """expected(name, X, reg) -> values in quadrature points"""
        use = use or [(r, i) for r in regs for i in ints if rng.rand() < 0.6] or \
            [(om, ints[0])]
        terms, where = [], []
        for (reg, integral) in use:
            for nm in names:
                t = Term.new('ev_integrate_mat(m.%s, u)' % nm, integral, reg, m=m, u=u)
                terms.append(t)
                where.append((nm, reg, integral))
        eqs = Equations([Equation('e%d' % i, t) for i, t in enumerate(terms)])
        return eqs, terms, where

    def compare(terms, where, expected, what):
        for t, (nm, reg, integral) in zip(terms, where):
            X = bench_like(reg, integral)
            q = np.asarray(expected(nm, X, reg))
            q = np.broadcast_to(q, X.shape + q.shape[-2:]) if q.ndim < 4 else q
            val = np.asarray(t.evaluate(mode='qp', standalone=False))
            w = '%s: m.%s in %s, order %d, %s' % (what, nm, reg.name, integral.order, g)
            mon.close('material', val, q, rtol=1e-12, msg=w)
            tot = (q * X.w[..., None, None]).sum((0, 1))
            mon.close('material', np.ravel(t.evaluate(mode='eval', standalone=False)), tot.ravel(), rtol=1e-10,
                      scale=(abs(q) * X.w[..., None, None]).sum(), msg=w + ' integral')

    S = d * (d + 1) // 2
    shapes = {'a': (1, 1), 'k': (d, 1), 'K': (d, d), 'D': (S, S)}
    if form == 0:       # Constants.
        vals = {nm: rng.randn(*s) for nm, s in shapes.items()}
        given = {'a': float(vals['a'][0, 0]), 'k': vals['k'].tolist(), 'K': vals['K'],
                 'D': vals['D']}
        m = Material('m', **given) if rng.rand() < 0.5 else Material('m', values=given)
        eqs, terms, where = check(m, list(shapes), None)
        eqs.time_update_materials(None, problem=prob, verbose=False)
        compare(terms, where, lambda nm, X, reg: vals[nm], 'constants')
    elif form == 1:     # By regions.
        vals = {nm: {r: rng.randn(*s) for r in ('R1', 'R2')} for nm, s in shapes.items()}
        m = Material('m', values={nm: {r: (float(v[0, 0]) if nm == 'a' else v)
                                       for r, v in vs.items()} for nm, vs in vals.items()})
        in1 = np.isin(np.arange(n), np.asarray(R1.cells))

        def expected(nm, X, reg):
            if reg in (ga, part):
                dom.cmesh.setup_connectivity(d - 1, d)
                cells = np.asarray([dom.cmesh.get_incident(d, np.array([f], np.uint32), d - 1)[0]
                                    for f in np.asarray(reg.facets)])
            else:
                cells = np.asarray(reg.cells)
            v = np.where(in1[cells][:, None, None], vals[nm]['R1'], vals[nm]['R2'])
            return np.broadcast_to(v[:, None], X.shape + v.shape[1:])
        eqs, terms, where = check(m, list(shapes), None)
        eqs.time_update_materials(None, problem=prob, verbose=False)
        compare(terms, where, expected, 'values by region')
    elif form in (2, 3, 4):     # Functions, times and kinds.
        M = {nm: tb.Mat(rng, s, True) for nm, s in shapes.items()}
        calls = []

        def fun(ts, coors, mode=None, scale=1.0, **kw):
            calls.append((mode, None if ts is None else ts.step))
            if mode != 'qp':
                return None
            tt = 0.0 if ts is None else ts.time
            return {nm: (1 + tt) * scale * np.asarray(M[nm](coors)) for nm in M}
        kind = ['time-dependent', 'stationary'][rng.randint(2)] if form > 2 else \
            'time-dependent'
        m = Material('m', kind=kind, function=fun if rng.rand() < 0.5
                     else Function('fun', fun))
        sc = 1.0
        if form == 4:
            sc = 2.5
            m.set_extra_args(scale=sc)
        eqs, terms, where = check(m, list(shapes), None)
        ts = TimeStepper(0.0, 1.0, 0.25, 5)
        first = None
        for step in range(3):
            ts.set_step(step)
            mode = ['normal', 'force', 'update'][rng.randint(3)] if step else 'normal'
            eqs.time_update_materials(ts, mode=mode, problem=prob, verbose=False)
            renew = step == 0 or mode == 'force' or (mode == 'normal' and
                                                     kind == 'time-dependent')
            if renew:
                first = ts.time

            def expected(nm, X, reg):
                v = np.asarray(M[nm](X.x.reshape(-1, d)))
                return ((1 + first) * sc * v).reshape(X.shape + v.shape[1:])
            compare(terms, where, expected, '%s function, step %d, mode %s'
                    % (kind, step, mode))
    else:       # Special parameters and parameters of all points.
        arr = rng.randn(3, 2)

        def fun(ts, coors, mode=None, **kw):
            if mode == 'special':
                return {'flag': arr}
            if mode == 'qp':
                return {'a': np.full((len(coors), 1, 1), 2.0) * coors[:, :1, None]}
        m = Material('m', function=fun)
        eqs, terms, where = check(m, ['a'], None)
        eqs.time_update_materials(None, problem=prob, verbose=False)
        compare(terms, where, lambda nm, X, reg: 2.0 * X.x[..., :1, None], 'function')
        key = terms[0].get_qp_key()
        mon.equal('material', np.asarray(m.get_data(key, 'flag')), arr,
                  'special parameters of a function')
        m2 = Material('m', values={'.flag': arr, 'a': 3.0})
        eqs, terms, where = check(m2, ['a'], None)
        eqs.time_update_materials(None, problem=prob, verbose=False)
        mon.equal('material', np.asarray(m2.get_data(terms[0].get_qp_key(), 'flag')), arr,
                  'special constants')
        compare(terms, where, lambda nm, X, reg: np.full((1, 1), 3.0), 'constants')
    mon.sig('material', form, g)

# -- history ----------------------------------------------------------------
TH = {'dw_volume_dot_w_scalar_th': ('dw_dot', 1), 'dw_lin_elastic_th': ('dw_lin_elastic', 'SS'),
      'dw_biot_th': ('dw_biot', 'S')}
DT = {0: ('dw_dot', 'du/dt'), 1: ('dw_laplace', 'du/dt'), 2: ('dw_dot', 'u[-1]'),
      3: ('dw_diffusion', 'u[-2]')}

def run_history(mon, case):
    from sfepy.discrete import Integral, FieldVariable
    from sfepy.solvers.ts import TimeStepper
    rng = np.random.RandomState(case['s'])
    g = case['geom']
    nstep = 5
    dt = 0.1 + rng.rand()
    dom = gen.to_domain(tb.random_raw(rng, g))
    dim = dom.shape.dim
    S = dim * (dim + 1) // 2
    om = dom.create_region('Omega', 'all')
    ts = TimeStepper(0.0, dt * (nstep - 1), dt, nstep)
    common = dict(mesh=dom, region=om, nN=1,
                  custom_integral=Integral('i', order=int(rng.randint(1, 4))))
    if 'th' in case:
        name = case['th']
        base, kind = TH[name]
        sh = {1: (1, 1), 'SS': (S, S), 'S': (S, 1)}[kind]
        kern = rng.randn(nstep, *sh)
        if kind == 'SS':
            kern = kern + np.swapaxes(kern, 1, 2)
        deriv = case['deriv']
        matn = [t for t in tb.types_of(tb.classes()[name])[case['iat']][0]
                if 'material' in t]
        b = tb.Bench(rng, name, 0, case['iat'], 'cell', g, overrides={'ts': ts, matn[0]: kern},
                     history=nstep, deriv={'state': 'd%s/dt'} if deriv else None,
                     **dict(common, nN=nstep))
    else:
        base, expr = DT[case['form']]
        deriv = 'dt' in expr
        ish = 0 if base != 'dw_dot' else int(rng.randint(2))
        types, _ = tb.types_of(tb.classes()[base])[0]
        b = tb.Bench(rng, base, ish, 0, 'cell', g, history=3,
                     deriv={'state': expr.replace('u', '%s', 1)}, **common)
    f = fm.formula(base)
    ts.set_step(0)
    b.setup(ts)
    n = b.vec()
    xs = [rng.randn(n) if case.get('th') is None else np.zeros(n)]
    b.eqs.set_state(xs[0])
    b.eqs.advance(ts)
    su = [t for t, k in zip(b.types, b.kinds) if k == 'state_variable'][0]
    u = b.vars[su]
    ul = FieldVariable('u_lin', 'parameter', u.field, primary_var_name='(set-to-None)')
    w = FieldVariable('w_test', 'parameter', b.test.field, primary_var_name='(set-to-None)')
    for step in range(1, nstep):
        x = rng.randn(n)
        xs.append(x)
        ts.set_step(step)
        b.eqs.time_update_materials(ts, verbose=False)
        r = np.asarray(b.residual(x)).copy()
        X = quadrature(b)
        X.iat = case.get('iat', 0)
        ref = sc = 0.0
        vt = rng.randn(b.test.n_dof)
        w.set_data(vt)

        def state(k):
            """The state k steps ago."""
            s = xs[step - k] if step >= k else 0 * x
            return s[b.indx(u)]
        if 'th' in case:
            todo = []
            for k in range(step + 1):
                s = state(k)
                if deriv:
                    s = (s - state(k + 1)) / dt
                K = np.broadcast_to(dt * kern[k], X.shape + kern[k].shape)
                todo.append((s, K))
        elif deriv:
            todo = [((state(0) - state(1)) / dt, None)]
        else:
            k = {'u[-1]': 1, 'u[-2]': 2}[expr]
            if step < k:
                b.eqs.advance(ts)
                continue
            todo = [(state(k), None)]
        for s, K in todo:
            ul.set_data(s)
            args = []
            for kd, t in zip(b.kinds, b.types):
                if kd == 'ts':
                    continue
                if kd == 'virtual_variable':
                    args.append(observe(w, b, X))
                elif kd == 'state_variable':
                    args.append(observe(ul, b, X))
                elif K is not None:
                    args.append(K)
                else:
                    args.append(matvals(b.mats.get(t), X))
            q = np.asarray(f(X, *args))
            ref += (q * X.w).sum()
            sc += (np.abs(q) * X.w).sum()
        pri = [v for v in b.V if v.name == b.test.primary_var_name][0]
        mon.close('history', np.array([vt @ r[b.indx(pri)]]), np.array([ref]), rtol=1e-9,
                  scale=sc, msg='%s on %s, step %d' % (b.text, g, step))
        b.eqs.advance(ts)
    mon.sig('history', b.text, g)
