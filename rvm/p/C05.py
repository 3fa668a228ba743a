"""
C05: quadrature rules.

Monitor: every rule returned by the real rule selection (built-in tables of any
order, full-order rules, custom, bounded, symmetric rules, integrals created by
name or from a description) is observed and its sums over monomials are compared
with the exact integrals over the reference cell (the promised polynomial
space); position of the points, weight sums, dimension and the reported order
are decided on the same observation.  In addition integrals evaluated by the
code on affine meshes (cells and facets, several rules used on one field one
after another) are compared with exact polynomial integrals over the physical
entities.
"""
import itertools
from math import factorial
import numpy as np
from .. import gen

REQUIRED = ['exactness', 'inside', 'weights', 'order', 'custom', 'symmetric',
            'by_name', 'mesh_integral', 'facet_integral', 'several_rules']
ASSUMPTIONS = ['exactness is decided relative to the sum of absolute weights'
               ' (rules of high order on simplices have negative weights)',
               'total polynomial degree on simplices and for full order rules,'
               ' per-direction degree on quadrilaterals and hexahedra, triangle'
               ' total degree times line degree on wedges']
GEOMS = ['1_2', '2_3', '3_4', '2_4', '3_8', '3_6']
MAXO = {'1_2': 60, '2_3': 45, '3_4': 21, '2_4': 47, '3_8': 20, '3_6': 20}

def cases(rng, tier):
    out = []
    for g in GEOMS:
        for o in range(MAXO[g] + 1):
            if tier == 'quick' and o > 12 and rng.rand() < 0.5 and g != '1_2':
                continue
            for full in (False, True):
                out.append(dict(kind='rule', geom=g, order=o, full=full,
                                route=int(rng.randint(3)), cost=1 + (g[0] == '3') * o))
    n = 1 if tier == 'quick' else 20
    for i in range(20 * n):
        out.append(dict(kind='custom', geom=GEOMS[i % 6], order=int(rng.randint(1, 9))))
    out.append(dict(kind='names'))
    for i in range(8 * n):
        for k in ['1_2', '2_3', '2_4', '3_4', '3_8', '3_6', '2_3s', '2_4s']:
            out.append(dict(kind='mesh', mesh=k, order=int(rng.randint(0, 7)), cost=2))
    return out

def exact(g, e):
    if g in ('1_2', '2_3', '3_4'):
        r = 1.
        for k in e:
            r *= factorial(k)
        return r / factorial(sum(e) + len(e))
    if g == '3_6':
        return exact('2_3', e[:2]) / (e[2] + 1)
    return float(np.prod([1. / (k + 1) for k in e]))

def volume(g):
    return {'1_2': 1, '2_3': .5, '2_4': 1, '3_4': 1 / 6., '3_8': 1, '3_6': .5}[g]

def inside(g, c, tol=1e-13):
    ok = (c.min() > -tol) and (c.max() < 1 + tol)
    if g in ('2_3', '3_4'):
        ok = ok and c.sum(1).max() < 1 + tol
    if g == '3_6':
        ok = ok and c[:, :2].sum(1).max() < 1 + tol
    return ok

def exps(rng, g, o, full, limit=250):
    d = int(g[0])
    total = g in ('2_3', '3_4') or full
    es = [e for e in itertools.product(range(o + 1), repeat=d)
          if (not total or sum(e) <= o) and (g != '3_6' or sum(e[:2]) <= o)]
    es = np.array(es)
    if len(es) > limit:
        must = np.nonzero((es.sum(1) == es.sum(1).max()) | (es.max(1) == o) & (es.sum(1) == o)
                          | (es.sum(1) <= 1))[0]
        if len(must) > limit:
            must = must[rng.permutation(len(must))[:limit]]
        es = es[np.unique(np.r_[must, rng.permutation(len(es))[:limit]])]
    return es

def check_rule(mon, rng, g, o, full, c, w, what):
    d = int(g[0])
    mon.ok('shape', c.ndim == 2 and c.shape[1] == d and w.shape == (c.shape[0],), what)
    mon.ok('inside', inside(g, c), '%s: points outside the reference cell' % what, n=len(c),
           coors=c)
    mon.ok('weights', abs(w.sum() - volume(g)) < 1e-12 * np.abs(w).sum(),
           '%s: sum of weights %.16g' % (what, w.sum()))
    for e in exps(rng, g, o, full):
        v = np.prod(c**e, axis=1) @ w
        x = exact(g, e)
        err = abs(v - x) / np.abs(w).sum()
        mon.maxerr['exactness'] = max(mon.maxerr.get('exactness', 0), err)
        if not mon.ok('exactness', err < 2e-13, '%s: integral of the monomial %s is %.16g,'
                      ' should be %.16g' % (what, e, v, x)):
            break

def run_rule(mon, case):
    from sfepy.discrete import Integral
    from sfepy.discrete.quadratures import QuadraturePoints
    rng = gen.rngof(case)
    g, o, full = case['geom'], case['order'], case['full']
    what = 'rule %s order %d%s' % (g, o, ' full' if full else '')
    if case['route'] == 0:
        qp = QuadraturePoints.from_table(g, o, full_order=full)
        c, w = qp.coors, qp.weights
        if hasattr(qp, 'order'):
            need = o if (full or g in ('1_2', '2_3', '3_4')) else o * int(g[0])
            mon.ok('order', qp.order >= need, '%s: reported order %s' % (what, qp.order))
    else:
        I = Integral('i', order=o, full_order=full)
        # Other cells asked for first.
        others = [h for h in GEOMS if h != g]
        rng.shuffle(others)
        for h in others[:2]:
            I.get_qp(h)
        c, w = I.get_qp(g)
        if case['route'] == 2:
            c2, w2 = I.get_qp(g)
            mon.equal('repeat', c, c2, what)
            mon.equal('repeat', w, w2, what)
        # Integral.integrate with its own order.
        p = exps(rng, g, o, full)
        e = p[rng.randint(len(p))]
        v = I.integrate(lambda x: np.prod(x**e, axis=1), order=o, geometry=g)
        mon.close('integrate', v, exact(g, e), atol=2e-13 * np.abs(w).sum(), rtol=0, msg=what)
    mon.sig(g, o, full)
    check_rule(mon, rng, g, o, full, np.array(c), np.array(w), what)

def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w

def run_custom(mon, case):
    from sfepy.discrete import Integral
    rng = gen.rngof(case)
    o = case['order']
    if case['geom'] == '3_6':
        o = min(o, 3)
    # 1D rules on other intervals.
    n = o // 2 + 1
    x, w = gauss(n)
    a, b = sorted(rng.randn(2) * 2)
    xx = 0.5 * (a + b) + 0.5 * (b - a) * x
    ww = 0.5 * (b - a) * w
    f = float(rng.rand() + 0.5)
    I = Integral('i1', order='custom', coors=xx[:, None], weights=ww / f, bounds=(a, b),
                 weight_fix=f)
    c, w1 = I.get_qp('1_2')
    mon.event('custom')
    check_rule(mon, rng, '1_2', o, False, c, w1, 'custom rule with bounds')
    # Symmetric: only the nonnegative half.
    m = x > -1e-12
    xs = np.where(np.abs(x[m]) < 1e-12, 0, x[m])
    I = Integral('i2', order='custom', coors=xs[:, None], weights=w[m], bounds=(-1.0, 1.0),
                 symmetric=True)
    c, w2 = I.get_qp('1_2')
    mon.ok('symmetric', len(c) == n, 'number of points of a symmetric rule: %d, should be %d'
           % (len(c), n))
    check_rule(mon, rng, '1_2', o, False, c, w2, 'symmetric custom rule')
    # Tensor and simplex rules given on [-1, 1]^d.
    g = case['geom']
    B = Integral('b', order=o)
    c0, w0 = B.get_qp(g)
    d = int(g[0])
    I = Integral('i3', order='c', coors=2 * c0 - 1, weights=w0 * 2**d, bounds=(-1, 1),
                 tp_fix=volume(g))
    c3, w3 = I.get_qp(g)
    check_rule(mon, rng, g, o, True, c3, w3, 'custom %s rule on [-1, 1]' % g)
    # Without bounds the rule is used as given.
    I = Integral('i4', coors=c0, weights=w0)
    c4, w4 = I.get_qp(g)
    mon.equal('custom', c4, c0)
    mon.equal('custom', w4, w0)

def run_names(mon, case):
    from sfepy.discrete import Integral, Integrals
    from sfepy.base.base import Struct
    rng = gen.rngof(case)
    I = Integral('i', order=3)
    J = Integral('ij', order=5)
    ii = Integrals([I, J])
    mon.ok('by_name', ii.get('i') is I and ii.get('ij') is J)
    for o in rng.permutation(12):
        a = ii.get(str(o))
        b = ii.get(int(o))
        mon.ok('by_name', a is b, 'integral of order %d' % o)
        check_rule(mon, rng, '2_3', int(o), False, *a.get_qp('2_3'), what='by name %d' % o)
    mon.raises('by_name', ValueError, ii.get, 'i9')
    mon.raises('by_name', ValueError, ii.get, 'x')
    x, w = gauss(3)
    conf = {'a': Struct(name='i1', order=4), 'd': Struct(name='i4', order=3),
            'b': Struct(name='i2', order=7, full_order=True),
            'c': Struct(name='i3', order='custom', vals=(x[:, None] + 1) / 2, weights=w / 2)}
    ii = Integrals.from_conf(conf)
    for g in GEOMS:
        # (Wedge rules of order >= 4 are a known finding, see 'rule' cases.)
        check_rule(mon, rng, g, 3 if g == '3_6' else 4, False, *ii.get('i4' if g == '3_6' else 'i1').get_qp(g),
                   what='conf')
        check_rule(mon, rng, g, 7, True, *ii.get('i2').get_qp(g), what='conf full')
    check_rule(mon, rng, '1_2', 5, False, *ii.get('i3').get_qp('1_2'), what='conf custom')

#
# Integrals over physical meshes with affine cells.
#
def poly(rng, dim, o):
    """Random polynomial of total degree <= o as a function of the points."""
    es = [e for e in itertools.product(range(o + 1), repeat=dim) if sum(e) <= o]
    es = [es[i] for i in rng.permutation(len(es))[:5]]
    es.append(tuple(np.random.RandomState(rng.randint(1000)).multinomial(o, np.ones(dim) / dim)))
    cf = rng.randn(len(es))
    return lambda X: sum(c * np.prod(np.asarray(X)**np.array(e), axis=-1) for c, e in zip(cf, es))

def simplex_integral(f, V, o):
    """Exact integral of a polynomial of degree o over the simplex with the
    vertices V (n+1, dim): collapsed Gauss rule written here."""
    n = len(V) - 1
    if n == 0:
        return f(V)[0]
    m = (o + n) // 2 + 2
    x, w = gauss(m)
    x = (x + 1) / 2
    w = w / 2
    tot = 0.0
    J = V[1:] - V[0]
    vol = np.sqrt(max(np.linalg.det(J @ J.T), 0))
    for idx in itertools.product(range(m), repeat=n):
        lam, rest = [], 1.0
        for k, i in enumerate(idx):
            lam.append(rest * x[i])
            rest *= (1 - x[i])
        # Jacobian: prod (1 - x_k)^(n-1-k)
        jac = np.prod([(1 - x[i])**(n - 1 - k) for k, i in enumerate(idx)])
        wt = np.prod([w[i] for i in idx]) * jac
        tot += wt * f((V[0] + np.array(lam) @ J)[None])[0]
    return tot * vol

def split(desc, V):
    """Decomposition of an affine cell to simplices."""
    if desc in ('1_2', '2_3', '3_4'):
        return [V]
    if desc == '2_4':
        return [V[[0, 1, 2]], V[[0, 2, 3]]]
    if desc == '3_6':
        return [V[[0, 1, 2, 3]], V[[1, 2, 3, 4]], V[[2, 3, 4, 5]]]
    return [V[list(t)] for t in gen.KUHN]

def run_mesh(mon, case):
    from sfepy.discrete import Integral, Material, Function
    from sfepy.discrete.fem import Field
    from sfepy.terms.terms import Term
    rng = gen.rngof(case)
    k, s = case['mesh'].rstrip('s'), case['mesh'].endswith('s')
    o = case['order'] if k != '3_6' else min(case['order'], 3)
    # Affine cells only (no jitter for tensor cells).
    raw = gen.raw_mesh(rng, k, size=2, jitter=0.3 if k in ('2_3', '3_4') else 0.0, holes=0.1)
    if s:
        X = raw['coors']
        A = np.linalg.qr(rng.randn(3, 3))[0][:, :2] * (0.5 + rng.rand(2))
        w = rng.randint(4)
        if w == 0:      # facing up or down the z axis
            A = np.array([[1, 0], [0, rng.choice([-1, 1])], [0, 0]]) * (0.5 + rng.rand(2))
        elif w == 1:    # vertical
            A = np.array([[0, 1], [0, 0], [rng.choice([-1, 1]), 0]]) * (0.5 + rng.rand(2))
        raw['coors'] = X @ A.T + rng.randn(3)
        raw['dim'] = 3
    raw['coors'] = raw['coors'] / np.abs(raw['coors']).max()
    X = raw['coors']
    dim = X.shape[1]
    domain = gen.to_domain(raw)
    omega = domain.create_region('Omega', 'all')
    field = Field.from_args('f', np.float64, 'scalar', omega, approx_order=1) if k != 'mixed2' else None
    cells = gen.all_cells(raw)
    orders = [o] + [int(v) for v in rng.randint(0, 7 if k != '3_6' else 4, 2)]
    def value(f, region, integral):
        m = Material('m', function=Function('m', lambda ts, coors, mode=None, **kw:
                                            {'v': f(coors).reshape(-1, 1, 1)}
                                            if mode == 'qp' else None))
        t = Term.new('ev_integrate_mat(m.v, u)', integral, region, m=m, u=u)
        t.setup()
        return _ev(t, m)
    from sfepy.discrete import FieldVariable
    if field is not None:
        u = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
        u.set_constant(1.0)
        for oo in orders:
            f = poly(rng, dim, oo)
            x = sum(simplex_integral(f, S, oo) for d, c in cells for S in split(d, X[list(c)]))
            scale = sum(simplex_integral(lambda Y: np.ones(len(Y)), S, 0)
                        for d, c in cells for S in split(d, X[list(c)]))
            v = value(f, omega, Integral('i', order=oo))
            mon.close('mesh_integral', v, x, rtol=1e-11, atol=1e-11 * max(scale, 1), msg='order %d' % oo)
            mon.sig(k, s, oo)
        mon.event('several_rules')
        # Several rules of the same order on one field: the full order
        # rule and custom rules.
        g = k
        B = Integral('b', order=o)
        c0, w0 = B.get_qp(g)
        f = poly(rng, dim, o)
        vol = value(lambda Y: np.ones(len(Y)), omega, B)
        C1 = Integral('c1', coors=c0.mean(0, keepdims=True), weights=[w0.sum()])
        C2 = Integral('c2', coors=c0, weights=w0)
        F = Integral('f', order=o, full_order=True)
        x = sum(simplex_integral(f, S, o) for d, c in cells for S in split(d, X[list(c)]))
        mid = 0.0
        for d, c in cells:
            V = X[list(c)]
            vv = sum(simplex_integral(lambda Y: np.ones(len(Y)), S, 0) for S in split(d, V))
            mid += vv * f(V.mean(0)[None])[0]
        ref = {'C1': mid, 'C2': x, 'F': x, 'B': x}
        seq = ['B', 'C1', 'C2', 'F']
        rng.shuffle(seq)
        for nm in seq + seq[:2]:
            I = dict(B=B, C1=C1, C2=C2, F=F)[nm]
            mon.close('several_rules', value(f, omega, I), ref[nm], rtol=1e-11,
                      atol=1e-11 * max(abs(vol), 1), msg='rule %s of %s (order %d)' % (nm, seq, o))
    # Facets.
    if field is None or s or k == '1_2' or k == '3_6':
        if k == 'mixed2' or s or k == '3_6':
            mon.event('facet_skipped')
        return
    gamma = domain.create_region('Gamma', 'vertices of surface', 'facet')
    from ..ref_topo import Topo
    from .. import ref_topo
    T = ref_topo.EDGES if dim == 2 else ref_topo.FACES
    cnt = {}
    for d, c in cells:
        for fc in T[d]:
            vs = tuple(c[i] for i in fc)
            cnt.setdefault(frozenset(vs), []).append(vs)
    facets = [v[0] for v in cnt.values() if len(v) == 1]
    for oo in orders:
        f = poly(rng, dim, oo)
        x = 0.0
        for vs in facets:
            V = X[list(vs)]
            for S in ([V] if len(vs) < 4 else [V[[0, 1, 2]], V[[0, 2, 3]]]):
                x += simplex_integral(f, S, oo)
        v = value(f, gamma, Integral('i', order=oo))
        mon.close('facet_integral', v, x, rtol=1e-11, atol=1e-11, msg='facets, order %d' % oo)

def _ev(t, m):
    from sfepy.discrete import Equation, Equations
    eqs = Equations([Equation('e', t)])
    eqs.time_update_materials(None, mode='normal')
    return t.evaluate(mode='eval')
