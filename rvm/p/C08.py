"""
C08: every tangent matrix is the derivative of its residual.

Monitor: the registered terms are instantiated by a workbench in all argument
shapes, call modes and integration kinds on random meshes (sub-regions, facets),
fields, materials and states.  Residuals and tangent matrices assembled by the
real `Equations` are observed; the matrix times random directions is compared
with a fourth order difference quotient of observed residuals (whose own error
is estimated by step halving and which has to be informative).  On the same
observations: values evaluated by the code equal the observed residual tested
by the given arguments; matrices of swapped roles of virtual and state are
transposed; updated and total Lagrangian formulations of a term give the same
residual; contact, shell, membrane, truss, jump and history dependent terms
have their own workloads (contact active and inactive, histories of several
steps, derivatives in time).
"""
import numpy as np
from .. import gen, tbench as tb

REQUIRED = ['derivative',
            'derivative_nonlinear', 'tested', 'transposed', 'ul_tl', 'contact_ipc', 'contact_active',
            'ul_derivative', 'contact_plane', 'contact_sphere', 'contact_bodies',
            'shell', 'membrane', 'truss', 'jump', 'history', 'time_derivative',
            'th_eth', 'material_intact']
ASSUMPTIONS = ['states keep cells of large deformation terms well shaped',
               'the updated Lagrangian tangent is decided with the mesh of the'
               ' state, as assembled in each Newton iteration',
               'terms of discontinuous Galerkin fluxes belong to C26, terms'
               ' without a matrix or with user functions only'
               ' (dw_ns_dot_grad_s, *_ad duplicates) are not included']

# Own workloads or no matrix.
SPECIAL = {'dw_contact', 'dw_contact_ipc', 'dw_contact_plane', 'dw_contact_sphere',
           'dw_shell10x', 'dw_tl_membrane', 'dw_jump', 'dw_ns_dot_grad_s',
           'dw_ul_he_by_fun', 'dw_tl_he_neohook_ad', 'dw_tl_he_mooney_rivlin_ad',
           'dw_tl_he_ogden_ad', 'dw_lin_spring', 'dw_lin_truss', 'dw_lin_dspring',
           'dw_lin_dspring_rot', 'dw_point_load', 'dw_zero'}

LARGE = ('_tl_', '_ul_')
SCALE = 0.01

def usable(name, cls):
    if name in SPECIAL or 'dg_' in name or name.endswith(('_th', '_eth')):
        return False
    if name.startswith('dw_ul'):
        return False
    return not name.startswith('ev_')

def entries():
    cl = tb.classes()
    out = []
    for (name, i, j, it) in tb.entries():
        if not usable(name, cl[name]):
            continue
        types, mode = tb.types_of(cl[name])[j]
        out.append((name, i, j, it, list(types)))
    return out

def geoms(name):
    c = tb.classes()[name]
    g = [k for k in tb.GEOMS if k in c.geometries]
    return g

def cases(rng, tier):
    from .. import boot
    boot.boot('plain')
    n = 1 if tier == 'quick' else 10
    out = []
    ents = entries()
    for k in range(n):
        for (name, i, j, it, types) in ents:
            gs = geoms(name)
            if it != 'cell':
                gs = [g for g in gs if g != '1_2'] or gs
            if not gs:
                continue
            if 'virtual' in types and any(t.startswith('state') for t in types):
                pick = [gs[rng.randint(len(gs))]]
                if len(gs) > 1:
                    pick.append(gs[rng.randint(len(gs))])
                for g in pick:
                    out.append(dict(kind='deriv', term=name, ish=i, iat=j, integration=it,
                                    geom=g, s=int(rng.randint(1 << 30)),
                                    cost=3 if g == '3_8' else 1))
            if 'virtual' not in types and (name, i) != ('dw_surface_ltr', 3):
                out.append(dict(kind='tested', term=name, ish=i, iat=j, integration=it,
                                geom=gs[rng.randint(len(gs))], s=int(rng.randint(1 << 30))))
            elif j == 1 and any(t.startswith('state') for t in types):
                out.append(dict(kind='swap', term=name, ish=i, integration=it,
                                geom=gs[rng.randint(len(gs))], s=int(rng.randint(1 << 30))))
    for k in range(4 * n):
        for f in ('he_neohook', 'he_mooney_rivlin', 'bulk_penalty', 'bulk_pressure',
                  'volume'):
            out.append(dict(kind='ul', form=f, geom=['2_3', '2_4', '3_4', '3_8'][k % 4],
                            s=int(rng.randint(1 << 30)), cost=2))
        for f in ('plane', 'sphere'):
            out.append(dict(kind='contact', form=f, geom=['3_4', '3_8'][k % 2],
                            s=int(rng.randint(1 << 30)), cost=2))
        out.append(dict(kind='ipc', s=int(rng.randint(1 << 30)), cost=4))
        out.append(dict(kind='bodies', dim=2 + k % 2, s=int(rng.randint(1 << 30)), cost=4))
        out.append(dict(kind='shell', s=int(rng.randint(1 << 30)), cost=2))
        out.append(dict(kind='membrane', geom=['3_4', '3_8'][k % 2],
                        s=int(rng.randint(1 << 30)), cost=2))
        for f in ('dw_lin_spring', 'dw_lin_truss', 'dw_lin_dspring', 'dw_lin_dspring_rot'):
            out.append(dict(kind='truss', term=f, dim=1 + k % 3,
                            s=int(rng.randint(1 << 30))))
        out.append(dict(kind='jump', geom=['2_4', '3_8', '2_3', '3_4'][k % 4],
                        s=int(rng.randint(1 << 30))))
        for f in ('dw_lin_elastic', 'dw_biot', 'dw_volume_dot_w_scalar'):
            for j in range(2 if f == 'dw_biot' else 1):
                out.append(dict(kind='history', form=f, iat=j,
                                geom=['2_3', '2_4', '3_4', '3_8'][rng.randint(4)],
                                deriv=int(rng.randint(2)), s=int(rng.randint(1 << 30)),
                                cost=2))
    doc = lambda t: tb.classes()[t].__doc__ or ''
    ok = [e for e in ents if ('an use derivatives' in doc(e[0]) or e[0].startswith('de_'))
          and 'virtual' in e[4] and 'state' in e[4] and e[3] == 'cell'
          and not any(k in e[0] for k in LARGE) and geoms(e[0])]
    for k in range(20 * n):
        name, i, j, it, types = ok[rng.randint(len(ok))]
        gs = [g for g in geoms(name) if g != '3_8']
        out.append(dict(kind='dt', term=name, ish=i, iat=j, integration=it,
                        geom=gs[rng.randint(len(gs))], s=int(rng.randint(1 << 30))))
    return out

# -- difference quotients --------------------------------------------------
def quotient(fun, x, v, h):
    d = lambda h: (fun(x + h * v) - fun(x - h * v)) / (2 * h)
    return (4 * d(0.5 * h) - d(h)) / 3

def decide(mon, kind, fun, mul, x, v, h, what, floor=0.0):
    """
    Compare `mul(v)` with the derivative of `fun()` in the direction `v`.
    Returns True if the derivative could be determined well.
    """
    r = fun(x)
    kv = mul(v)
    q1 = quotient(fun, x, v, h)
    q2 = quotient(fun, x, v, 0.3 * h)
    if not (np.isfinite(q1).all() and np.isfinite(q2).all()):
        mon.inconclusive('values not finite')
        return False
    sc = max(np.abs(q2).max(), 1e-12 * np.abs(r).max() / h, floor)
    err = np.abs(q1 - q2).max()
    if not np.isfinite(kv).all():
        mon.violate(kind, '%s: matrix is not finite' % what)
        return False
    if sc == 0.0:
        mon.event('no_derivative')
        mon.close(kind, kv, q2, rtol=0, atol=1e-14, msg=what)
        return False
    if err > 1e-3 * sc:
        mon.inconclusive('difference quotients not settled')
        return False
    mon.close(kind, kv, q2, rtol=1e-6, atol=30 * err + 1e-13, scale=sc, msg=what)
    return True

def matmul(K, n):
    return (lambda v: K @ v) if K is not None else (lambda v: np.zeros(n))

def state_scale(name):
    return SCALE if any(k in name for k in LARGE) else 1.0


def bench(case, rng, **kw):
    name = case['term']
    over = {}
    if name == 'dw_tl_he_genyeoh':
        sh = (1, 6) if case['ish'] == 0 else (1, 2)
        m = np.array([[.6, .3, .2, 1, 2, 3]]) if case['ish'] == 0 else np.array([[.6, 2]])
        kw.setdefault('mats', {})['material'] = lambda c: np.tile(m, (len(c), 1, 1))
    if name == 'dw_s_dot_grad_i_s':
        over['material'] = np.array([[rng.randint(int(case['geom'][0]))]])
    if name in ('dw_of_ns_surf_min_d_press', 'dw_of_ns_surf_min_d_press_diff'):
        return None
    if name == 'dw_tl_fib_e':
        # Fibres in tension.
        kw.setdefault('mats', {})['material_3'] = \
            lambda c: np.full((len(c), 1, 1), -0.5)
    return tb.Bench(rng, name, case['ish'], case['iat'], case['integration'], case['geom'],
                    overrides=over, **kw)

def run_deriv(mon, case):
    try:
        deriv(mon, case)
    except ValueError as exc:
        if 'warp' not in str(exc):
            raise
        mon.inconclusive('cells turned over')

def deriv(mon, case):
    rng = np.random.RandomState(case['s'])
    name = case['term']
    large = any(k in name for k in LARGE)
    b = bench(case, rng)
    if b is None:
        mon.event('skipped')
        return
    scale = state_scale(name)
    b.set_params(rng, scale)
    b.setup()
    n = b.vec()
    x = rng.randn(n) * scale
    keep = {k: np.array(getattr(m, 'datas', None) is not None) for k, m in b.matobjs.items()}
    data = snapshot(b)
    nonlin = False
    for k in range(2):
        K = b.matrix(x)
        v = rng.randn(n)
        if k:
            # The state and direction of one variable only.
            var = b.states()[rng.randint(len(b.states()))]
            m = np.zeros(n)
            m[b.indx(var)] = 1
            v *= m
        if K is None:
            nonzero = False
        h = 0.02 * scale if large else 0.02
        good = decide(mon, 'derivative', b.residual, matmul(K, n), x, v, h,
                      '%s on %s' % (b.text, case['geom']), floor=1e-11)
        y = x + rng.randn(n) * scale
        if good and not k:
            K2 = b.matrix(y)
            if K is not None and abs(K2 - K).max() > 1e-8 * max(abs(K).max(), 1e-300):
                nonlin = True
        mon.sig(name, case['iat'], case['ish'], b.integration, case['geom'])
        x = y
    if nonlin:
        mon.event('derivative_nonlinear')
    # Evaluation must not change the materials.
    for key, val in snapshot(b).items():
        mon.equal('material_intact', val, data.get(key), msg='%s: %s' % (b.text, key))

def snapshot(b):
    out = {}
    for t, m in b.matobjs.items():
        for key, dat in (getattr(m, 'datas', None) or {}).items():
            if isinstance(dat, dict):
                for k, val in dat.items():
                    out[(t, str(key[:1]), k)] = np.array(val)
    return out

def setvec(b, pos, vec):
    b.vars[b.types[pos]].set_data(vec)

def weak_variant(name, types):
    """The weak call mode corresponding to an evaluation mode."""
    for j, (at, mode) in enumerate(tb.types_of(tb.classes()[name])):
        if len(at) == len(types) and 'virtual' in at:
            return j, at
    return None, None

def run_tested(mon, case):
    name = case['term']
    cls = tb.classes()[name]
    types, _ = tb.types_of(cls)[case['iat']]
    variants = [(j, at) for j, (at, m) in enumerate(tb.types_of(cls)) if 'virtual' in at]
    if not variants:
        mon.event('skipped')
        return
    rng = np.random.RandomState(case['s'])
    g = case['geom']
    order = int(rng.randint(1, 3)) if g != '3_8' else 1
    for (j, at) in variants:
        r2 = np.random.RandomState(case['s'] + 1)
        raw = tb.random_raw(r2, g)
        dom = gen.to_domain(raw)
        w = tb.Bench(r2, name, case['ish'], j, case['integration'], g, mesh=dom, order=order,
                     nN=2, overrides=tb.OVERRIDES.get(name))
        mats = dict(w.mats)
        over = {t: m for t, m in mats.items() if not isinstance(m, tb.Mat)}
        e = tb.Bench(np.random.RandomState(case['s'] + 2), name, case['ish'], case['iat'],
                     case['integration'], g, mesh=dom, order=order, region=w.region,
                     custom_integral=w.integral, mats=mats, overrides=over, nN=2)
        w.set_params(rng)
        w.setup()
        x = rng.randn(w.vec())
        vt = rng.randn(w.test.n_dof)
        # Transfer arguments position-wise.
        for p, (a, c) in enumerate(zip(at, types)):
            if a == 'virtual':
                setvec(e, p, vt)
            elif a.startswith('state'):
                setvec(e, p, x[w.indx(w.vars[a])].copy())
            elif a.startswith('parameter'):
                setvec(e, p, np.array(w.vars[a]()))
        r = w.residual(x)
        pri = [v for v in w.V if v.name == w.test.primary_var_name][0]
        rr = r[w.indx(pri)]
        from sfepy.discrete import Equation, Equations
        eqs = Equations([Equation('v', e.term)])
        eqs.time_update_materials(None, verbose=False)
        try:
            val = e.term.evaluate(mode='eval')
        except Exception as exc:
            mon.violate('tested', '%s: %r' % (e.text, exc))
            return
        ref = float(vt @ rr)
        mon.close('tested', np.array([val]).ravel(), [ref], rtol=1e-9,
                  scale=max(np.abs(vt) @ np.abs(rr), abs(ref), 1e-300),
                  msg='%s and %s on %s' % (e.text, w.text, g))
        mon.sig(name, j, g)

def run_swap(mon, case):
    name = case['term']
    cls = tb.classes()[name]
    g = case['geom']
    rng = np.random.RandomState(case['s'])
    order = int(rng.randint(1, 3)) if g != '3_8' else 1
    raw = tb.random_raw(rng, g)
    dom = gen.to_domain(raw)
    b0 = tb.Bench(rng, name, case['ish'], 0, case['integration'], g, mesh=dom, order=order,
                  nN=2)
    b1 = tb.Bench(rng, name, case['ish'], 1, case['integration'], g, mesh=dom, order=order,
                  region=b0.region, custom_integral=b0.integral, mats=dict(b0.mats),
                  overrides={t: m for t, m in b0.mats.items() if not isinstance(m, tb.Mat)},
                  nN=2)
    out = []
    par = {t: rng.randn(v.n_dof) for t, v in b0.vars.items() if v.is_parameter()}
    for b in (b0, b1):
        for t, v in b.vars.items():
            if v.is_parameter():
                v.set_data(par[t])
        b.setup()
        K = b.matrix(np.zeros(b.vec()))
        if K is None:
            mon.event('skipped')
            return
        K = K.toarray()
        pri = [v for v in b.V if v.name == b.test.primary_var_name][0]
        st = b.states()[0]
        out.append(K[b.indx(pri)][:, b.indx(st)])
    mon.close('transposed', out[0], out[1].T, rtol=1e-10,
              msg='%s and %s on %s' % (b0.text, b1.text, g))
    mon.sig(name, g, np.abs(out[0]).max() > 0)

# -- updated Lagrangian ------------------------------------------------------
def move(b, x, first=False):
    """The mesh follows the displacements, as in updated Lagrangian iterations."""
    dom = b.dom
    u = [v for v in b.states() if v.n_components == b.dim][0]
    if first:
        b.X0 = dom.get_mesh_coors().copy()
        b.residual(np.zeros(b.vec()))
        b.matrix(np.zeros(b.vec()))
        for f in {id(v.field): v.field for v in b.V}.values():
            f.save_mappings()
    for f in {id(v.field): v.field for v in b.V}.values():
        f.clear_mappings()
    c = b.X0 + x[b.indx(u)].reshape(-1, b.dim)
    from sfepy.discrete.problem import set_mesh_coors
    fields = {f.name: f for f in {id(v.field): v.field for v in b.V}.values()}
    set_mesh_coors(dom, fields, c, update_fields=False, actual=True, clear_all=False)

def run_ul(mon, case):
    form, g = case['form'], case['geom']
    rng = np.random.RandomState(case['s'])
    raw = tb.random_raw(rng, g)
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    scale = 0.015
    from sfepy.discrete import Integral
    integral = Integral('i', order=int(rng.randint(1, 4)))
    cl = tb.classes()
    bs, mats = [], None
    for pre in ('dw_tl_', 'dw_ul_'):
        b = tb.Bench(np.random.RandomState(case['s'] + 1), pre + form, 0, 0, 'cell', g,
                     mesh=dom, order=1, region=om, custom_integral=integral, mats=mats)
        mats = dict(b.mats)
        b.setup()
        bs.append(b)
    tl, ul = bs
    n = tl.vec()
    x = rng.randn(n) * scale
    for v in tl.states():
        if v.n_components == 1:
            x[tl.indx(v)] *= 50
    # Same ordering of unknowns in both.
    perm = np.full(n, -1)
    for v in tl.states() + ([tl.fake] if tl.fake is not None else []):
        w = [w for w in ul.V if w.name == v.name][0]
        perm[ul.indx(w)] = np.arange(n)[tl.indx(v)]
    rt = tl.residual(x)
    Kt = tl.matrix(x)
    xu = x[perm]
    move(ul, xu, first=True)
    ru = ul.residual(xu)
    Ku = ul.matrix(xu)
    if form == 'volume':
        # The updated Lagrangian term gives the change of volume.
        rt = rt - tl.residual(np.zeros(n))
    mon.close('ul_tl', ru, rt[perm], rtol=1e-9, msg='%s: residual of %s' % (g, form))
    if Ku is not None and Kt is not None:
        mon.close('ul_tl', Ku.toarray(), Kt.toarray()[np.ix_(perm, perm)], rtol=1e-8,
                  msg='%s: matrix of %s' % (g, form))

    def fun(y):
        move(ul, y)
        return ul.residual(y)
    v = rng.randn(n)
    decide(mon, 'ul_derivative', fun, matmul(Ku, n), xu, v, 0.02 * scale,
           '%s on %s' % (ul.text, g))
    mon.sig(form, g, integral.order)

# -- contact -----------------------------------------------------------------
def run_contact(mon, case):
    g, form = case['geom'], case['form']
    rng = np.random.RandomState(case['s'])
    raw = gen.raw_mesh(rng, g, size=[3, 2, 2], jitter=0.1)
    dom = gen.to_domain(raw)
    X = dom.get_mesh_coors()
    c0, L = X.mean(0), np.ptp(X, axis=0).max()
    k, f0 = 1 + rng.rand(), (0.1 + 0.2 * rng.rand()) * (rng.rand() < 0.7)
    mats = {'material_f': lambda c: np.tile([[[k, f0]]], (len(c), 1, 1))}
    if form == 'plane':
        nrm = rng.randn(3)
        nrm /= np.linalg.norm(nrm)
        t1 = np.cross(nrm, rng.randn(3))
        t1 /= np.linalg.norm(t1)
        t2 = np.cross(nrm, t1)
        A = c0 + 0.1 * L * rng.randn(3)
        w = (0.4 + rng.rand()) * L
        B = np.array([A + w * (a * t1 + b * t2) for a, b in
                      ((-1, -1), (1, -1), (1, 1), (-1, 1))])
        over = dict(material_n=nrm, material_a=A, material_b=B)
    else:
        over = dict(material_c=c0 + 0.3 * L * rng.randn(3), material_r=0.8 * L * (.5 + rng.rand()))
    b = tb.Bench(rng, 'dw_contact_' + form, 0, 0, 'facet', g, mesh=dom, overrides=over,
                 mats=mats, region=dom.create_region('Surf', 'vertices of surface', 'facet'),
                 order=1)
    b.setup()
    n = b.vec()
    x = 0.05 * L * rng.randn(n)
    K = b.matrix(x)
    r = b.residual(x)
    if np.abs(r).max() > 0:
        mon.event('contact_active')
    decide(mon, 'contact_' + form, b.residual, matmul(K, n), x, rng.randn(n), 1e-5 * L,
           '%s on %s, f0 %g' % (b.text, g, f0))
    mon.sig(form, g, f0 > 0, np.abs(r).max() > 0)

def two_blocks(dim, n1, n2, gap):
    """Two unit blocks above each other."""
    from sfepy.discrete.fem import Mesh, FEDomain
    from sfepy.mesh.mesh_generators import gen_block_mesh
    c1, c2 = np.zeros(dim), np.zeros(dim)
    c1[-1], c2[-1] = -0.5, 0.5 + gap
    ms = [gen_block_mesh([1.0] * dim, n, c, verbose=False) for n, c in ((n1, c1), (n2, c2))]
    desc = ms[0].descs[0]
    coors = np.concatenate([m.coors for m in ms])
    conn = np.concatenate([ms[0].get_conn(desc), ms[1].get_conn(desc) + ms[0].n_nod])
    body = np.repeat([0, 1], [m.n_nod for m in ms])
    mesh = Mesh.from_data('two', coors, body, [conn], [np.zeros(len(conn), int)], [desc])
    dom = FEDomain('two', mesh)
    dom.create_region('Omega', 'all')
    sel = np.where(np.abs(coors[:, -1] - gap * body) < 1e-9)[0]
    reg = dom.create_region('Contact', 'vertex ' + ', '.join(map(str, sel)), 'facet')
    return dom, reg, body

def run_bodies(mon, case):
    """
    Two blocks in contact.  The builtin term is decided by the forces acting
    on the bodies in relative translations (its tangent leaves out changes of
    normals by design).
    """
    dim = case['dim']
    rng = np.random.RandomState(case['s'])
    gap = -0.02 - 0.05 * rng.rand()
    n1, n2 = [2 + int(rng.randint(2))] * dim, [3 + int(rng.randint(2))] * dim
    dom, reg, body = two_blocks(dim, n1, n2, gap)
    eps = 2.0 + rng.rand()
    b = tb.Bench(rng, 'dw_contact', 0, 0, 'facet', '2_4' if dim == 2 else '3_8', mesh=dom,
                 overrides=dict(material=eps), region=reg, order=1, iorder=2)
    b.setup()
    n = b.vec()
    T = lambda a: a[body].ravel()
    a = 0.01 * rng.randn(2, dim) * ([0] * (dim - 1) + [1])
    x = T(a)
    r = b.residual(x)
    K = b.matrix(x)
    pen = -(gap + a[1, -1] - a[0, -1])
    if np.abs(r).max() > 0:
        mon.event('contact_active')
    v = T(rng.randn(2, dim) * np.array([0] * (dim - 1) + [1]))
    # The tangent of both passes together is approximated by one symmetric
    # matrix: the resulting forces on the bodies are decided.
    total = lambda r: np.array([r.reshape(-1, dim)[body == i].sum(0) for i in range(2)])
    mul = matmul(K, n)
    decide(mon, 'contact_bodies', lambda y: total(b.residual(y)), lambda y: total(mul(y)),
           x, v, 1e-4, 'dw_contact %dD' % dim)
    mon.close('contact_bodies', total(r).sum(0), np.zeros(dim), rtol=1e-9,
              scale=np.abs(r).sum() + 1e-300, msg='equilibrium')
    # No contact, no force.
    y = T(np.array([[0.] * dim, [0] * (dim - 1) + [0.2]]))
    mon.close('contact_bodies', b.residual(y), np.zeros(n), rtol=0, atol=1e-14,
              msg='separated bodies')
    mon.sig(dim, np.abs(r).max() > 0, pen > 0)

def run_ipc(mon, case):
    rng = np.random.RandomState(case['s'])
    dhat = 0.05
    gap = dhat * (0.3 + 0.4 * rng.rand())
    dom, reg, body = two_blocks(3, [2, 2, 2], [3, 3, 2], gap)
    b = tb.Bench(rng, 'dw_contact_ipc', 0, 0, 'facet', '3_8', mesh=dom, region=reg, order=1,
                 iorder=2, overrides=dict(material_m=1.0, material_k=10.0, material_d=dhat,
                                          material_p='NONE'))
    b.setup()
    n = b.vec()
    x = 0.003 * rng.randn(n)
    r = b.residual(x)
    K = b.matrix(x)
    if np.abs(r).max() > 0:
        mon.event('contact_active')
    decide(mon, 'contact_ipc', b.residual, matmul(K, n), x, rng.randn(n), 2e-6, 'ipc')
    rr = r.reshape(-1, 3)
    mon.close('contact_ipc', rr.sum(0), np.zeros(3), rtol=1e-9,
              scale=np.abs(rr).sum() + 1e-300, msg='equilibrium')
    mon.sig(np.abs(r).max() > 0)

# -- structures --------------------------------------------------------------
def run_shell(mon, case):
    import sfepy.mechanics.shell10x as sh
    from sfepy.discrete import Integral
    from sfepy.discrete.fem import Mesh, FEDomain
    rng = np.random.RandomState(case['s'])
    nx, ny = 3, 3
    raw = gen.raw_mesh(rng, '2_4', size=[nx, ny], jitter=0.15)
    flat = gen.to_mesh(raw)
    c2, conn = flat.coors, flat.get_conn('2_4')
    z = 0.1 * np.sin(c2[:, 0]) + 0.2 * c2[:, 1]
    coors = np.c_[c2, z]
    mesh = Mesh.from_data('shell', coors, None, [conn], [np.zeros(len(conn), int)], ['2_4'])
    dom = FEDomain('d', mesh)
    dom.create_region('Omega', 'all')
    thick = 0.05 + 0.1 * rng.rand()
    aux = Integral('i', order=3)
    qp_coors, qp_weights = aux.get_qp('3_8')
    qp_coors = qp_coors.copy()
    qp_coors[:, 2] = thick * (qp_coors[:, 2] - 0.5)
    qp_weights = qp_weights * thick
    integral = Integral('i', coors=qp_coors, weights=qp_weights, order='custom')
    D = sh.create_elastic_tensor(1 + rng.rand(), 0.3)
    b = tb.Bench(rng, 'dw_shell10x', 0, 0, 'custom', '3_2_4', mesh=dom, order=1,
                 basis='shell10x', custom_integral=integral, region=dom.regions['Omega'],
                 mats={'material_d': lambda c: np.tile(D, (len(c), 1, 1))},
                 overrides={'material_drill': 1e-3 + rng.rand()})
    b.setup()
    n = b.vec()
    x = rng.randn(n)
    K = b.matrix(x)
    decide(mon, 'shell', b.residual, matmul(K, n), x, rng.randn(n), 0.1, 'shell')
    M = K.toarray()
    mon.close('shell', M, M.T, rtol=1e-9, msg='symmetry')
    mon.sig(len(conn))

def run_membrane(mon, case):
    g = case['geom']
    rng = np.random.RandomState(case['s'])
    raw = gen.raw_mesh(rng, g, size=[3, 2, 2], jitter=0.1 * (g == '3_4'), affine=g == '3_4')
    dom = gen.to_domain(raw)
    b = tb.Bench(rng, 'dw_tl_membrane', 0, 0, 'facet', g, mesh=dom, order=1,
                 region=dom.create_region('Surf', 'vertices of surface', 'facet'))
    b.setup()
    n = b.vec()
    x = 0.05 * rng.randn(n)
    K = b.matrix(x)
    decide(mon, 'membrane', b.residual, matmul(K, n), x, rng.randn(n), 1e-3, 'membrane ' + g)
    mon.sig(g)

def run_truss(mon, case):
    from sfepy.discrete.fem import Mesh, FEDomain
    rng = np.random.RandomState(case['s'])
    dim = case['dim']
    name = case['term']
    nn = 5
    coors = rng.randn(nn, dim) * 2
    if dim == 1:
        coors = np.sort(coors, axis=0)
    conn = np.array([[0, 1], [1, 2], [2, 3], [3, 4], [0, 2]][:4 if dim == 1 else 5])
    if name == 'dw_lin_dspring_rot' and dim == 1 or name == 'dw_lin_dspring' and dim == 1:
        dim = 2 + int(rng.randint(2))
        coors = rng.randn(nn, dim) * 2
        conn = np.array([[0, 1], [1, 2], [2, 3], [3, 4], [0, 2]])
    g = {1: '1_2', 2: '2_1_2', 3: '3_1_2'}[dim]
    mesh = Mesh.from_data('truss', coors, None, [conn], [np.zeros(len(conn), int)], ['1_2'])
    dom = FEDomain('d', mesh)
    dom.create_region('Omega', 'all')
    cls = tb.classes()[name]
    for ish in range(len(tb.shapes_of(cls))):
        if g not in cls.geometries:
            continue
        b = tb.Bench(rng, name, ish, 0, 'cell', g, mesh=dom, order=1,
                     region=dom.regions['Omega'], const=True, iorder=0)
        b.setup()
        n = b.vec()
        x = rng.randn(n)
        K = b.matrix(x)
        decide(mon, 'truss', b.residual, matmul(K, n), x, rng.randn(n), 0.1,
               '%s, %s, shape %d' % (name, g, ish))
        # Rigid translations give no forces.
        nc = n // nn
        if nc == dim:
            t = np.tile(rng.randn(dim), nn)
            mon.close('truss', K @ t, np.zeros(n), rtol=1e-9, scale=abs(K).max(),
                      msg='%s, %s: rigid translation' % (name, g))
        mon.sig(name, g, ish)

def run_jump(mon, case):
    from sfepy.discrete import FieldVariable, Equation, Equations, Integral, fem
    from sfepy.terms import Term
    from sfepy.discrete.fem import Mesh, FEDomain
    g = case['geom']
    rng = np.random.RandomState(case['s'])
    raw = tb.random_raw(rng, g)
    b = tb.Bench(rng, 'dw_jump', int(rng.randint(2)), 0, 'facet', g, mesh=gen.to_domain(raw),
                 order=int(rng.randint(1, 3)) if g != '3_8' else 1, same_order=True)
    b.setup()
    n = b.vec()
    x = rng.randn(n)
    K = b.matrix(x)
    decide(mon, 'jump', b.residual, matmul(K, n), x, rng.randn(n), 0.1, b.text)
    mon.sig(g)

# -- histories -----------------------------------------------------------------
def run_history(mon, case):
    from sfepy.solvers.ts import TimeStepper
    form, g = case['form'], case['geom']
    rng = np.random.RandomState(case['s'])
    raw = tb.random_raw(rng, g)
    dom = gen.to_domain(raw)
    dim = dom.shape.dim
    nstep = 5
    dt = 0.1 + 0.2 * rng.rand()
    decay = 0.5 + rng.rand()
    N = nstep
    sym = dim * (dim + 1) // 2
    sh = {'dw_lin_elastic': (sym, sym), 'dw_biot': (sym, 1),
          'dw_volume_dot_w_scalar': (1, 1)}[form]
    k0 = rng.randn(*sh)
    if sh[0] == sh[1]:
        k0 = k0 @ k0.T + np.eye(sh[0])
    times = dt * np.arange(N)
    kern = k0[None] * np.exp(-decay * times)[:, None, None]
    der = {'state': 'd%s/dt'} if case['deriv'] else None
    from sfepy.discrete import Integral
    integral = Integral('i', order=2)
    om = dom.create_region('Omega', 'all')
    tss = [TimeStepper(0.0, dt * (nstep - 1), dt, nstep) for i in range(2)]
    common = dict(mesh=dom, order=1, region=om, custom_integral=integral, nN=N, history=N,
                  deriv=der)
    matn = [t for t in tb.types_of(tb.classes()[form + '_th'])[case['iat']][0]
            if 'material' in t]
    th = tb.Bench(np.random.RandomState(5), form + '_th', 0, case['iat'], 'cell', g,
                  overrides={'ts': tss[0], matn[0]: kern}, **common)
    mm = [t for t in tb.types_of(tb.classes()[form + '_eth'])[case['iat']][0]
          if 'material' in t]
    eth = tb.Bench(np.random.RandomState(5), form + '_eth', 0, case['iat'], 'cell', g,
                   overrides={'ts': tss[1]},
                   mats={mm[0]: lambda c: np.tile(kern[0], (len(c), 1, 1)),
                         mm[1]: lambda c: np.full((len(c), 1, 1), np.exp(-decay * dt))},
                   **common)
    bs = [th, eth]
    for b, ts in zip(bs, tss):
        ts.set_step(0)
        b.setup(ts)
    n = th.vec()
    # Initial conditions are zero: the memory starts with the first step.
    for b, ts in zip(bs, tss):
        b.eqs.set_state(np.zeros(n))
        b.eqs.advance(ts)
    for step in range(1, nstep):
        x = rng.randn(n)
        res = []
        for b, ts in zip(bs, tss):
            ts.set_step(step)
            b.eqs.time_update_materials(ts, verbose=False)
            r = b.residual(x)
            K = b.matrix(x)
            decide(mon, 'history', b.residual, matmul(K, n), x, rng.randn(n), 0.5,
                   '%s, step %d' % (b.text, step))
            # The state of the step is restored.
            r2 = b.residual(x)
            mon.close('history', r2, r, rtol=1e-12, msg='%s: evaluated again in step %d'
                      % (b.text, step))
            res.append(r)
            b.eqs.advance(ts)
        mon.close('th_eth', res[0], res[1], rtol=1e-9,
                  msg='%s on %s, step %d, derivative %d' % (form, g, step, case['deriv']))
    mon.sig(form, g, case['deriv'], case['iat'])

def run_dt(mon, case):
    """Terms applied to a time derivative of the state."""
    from sfepy.solvers.ts import TimeStepper
    rng = np.random.RandomState(case['s'])
    types, _ = tb.types_of(tb.classes()[case['term']])[case['iat']]
    dt = 0.1 + rng.rand()
    ts = TimeStepper(0.0, 2 * dt, dt, 3)
    b = bench(case, rng, history=2, deriv={'state': 'd%s/dt'})
    if b is None:
        mon.event('skipped')
        return
    b.set_params(rng)
    b.setup(ts)
    n = b.vec()
    x0 = rng.randn(n)
    b.residual(x0)
    b.eqs.advance(ts)
    ts.set_step(1)
    x = rng.randn(n)
    K = b.matrix(x)
    decide(mon, 'time_derivative', b.residual, matmul(K, n), x, rng.randn(n), 0.02,
           '%s on %s' % (b.text, case['geom']))
    mon.sig(case['term'], case['geom'])
