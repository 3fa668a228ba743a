"""C30: Projections and output conversions keep the represented function.

Monitor: the functions represented by random fields before and after projections, averaging, transfers of data and conversions to output (also
adaptively linearised) are observed in own points and compared with own integrals, definitions and geometry.
"""
import numpy as np

from .. import gen, ref_fe as fe
from .C07 import View
from .C19 import World, values, sample, variable

REQUIRED = ['l2 exact', 'l2 orthogonal', 'l2 linear', 'l2 idempotent', 'l2 data', 'l2 variable', 'components', 'h1 exact', 'h1 orthogonal', 'mass matrix',
            'facet exact', 'facet orthogonal', 'average', 'average constant', 'interp_to_qp', 'set_from_qp', 'vertex values', 'mesh vertices', 'strip',
            'extend', 'fill', 'complex', 'cell data', 'full', 'discontinuous', 'linearized', 'linearized levels', 'linearized geometry', 'tolerance',
            'subregion', 'expression output', 'lobatto', 'bernstein', 'serendipity', 'written', 'variables output', 'create_mesh']
ASSUMPTIONS = ['evaluation of variables in quadrature points (decided by C06 and C07)',
               'the adaptive linearisation bounds second differences along edges of the finer elements, as documented in its code']

KINDS = ['2_3', '2_4', '3_4', '3_8']

def cases(rng, tier):
    n = dict(quick=4, thorough=40)[tier]
    out = []
    for i in range(n):
        for k in KINDS:
            for o in (0, 1, 2, 3):
                if o == 3 and k == '3_8':
                    continue
                b = ['lagrange', 'lagrange', 'bernstein', 'lobatto', 'serendipity', 'sem'] if k[-1] in '48' and k != '3_4' else ['lagrange', 'lagrange', 'bernstein']
                for j in range(2):
                    out.append(dict(kind='l2', mesh=k, order=o, basis=b[rng.randint(len(b))] if o else 'lagrange', sub=bool(rng.rand() < 0.4), cost=4))
                if o:
                    out.append(dict(kind='h1', mesh=k, order=o, basis=b[rng.randint(len(b))], sub=bool(rng.rand() < 0.4), cost=4))
                    out.append(dict(kind='linearize', mesh=k, order=o, basis=b[rng.randint(len(b))], sub=bool(rng.rand() < 0.4), cost=5))
                    out.append(dict(kind='linearize', mesh=k, order=o, basis=b[rng.randint(len(b))], sub=bool(rng.rand() < 0.4), cost=5))
                for j in range(3):
                    out.append(dict(kind='strip', mesh=k, order=o, basis=b[rng.randint(len(b))] if o else 'lagrange', sub=bool(rng.rand() < 0.5), cost=2))
                for j in range(2):
                    out.append(dict(kind='average', mesh=k, order=o, sub=bool(rng.rand() < 0.5), cost=2))
            for o in (1, 2):
                out.append(dict(kind='facets', mesh=k, order=o, basis='bernstein', cost=3))
                out.append(dict(kind='disc', mesh=k, order=o, cost=3))
                out.append(dict(kind='expression', mesh=k, order=o, cost=3))
                out.append(dict(kind='written', mesh=k, order=o, cost=3))
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def prepare(tier):
    quiet()

def quiet():
    from sfepy.base.base import output
    output.set_output(quiet=True)

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

def world(rng, case, **kw):
    w = World(rng, case['mesh'], sub=case.get('sub', False), size=kw.pop('size', 3 if case['mesh'][0] == '2' else 2), **kw)
    return w

def poly(rng, w, deg):
    h = np.ptp(w.X, axis=0).max()
    return fe.PolyF(rng, w.dim, deg, w.X.mean(0), h)

def full_degree(w, f, order):
    """Degree of polynomials contained in the space of the field."""
    return order

def target(f, name='t'):
    from sfepy.discrete import FieldVariable
    t = FieldVariable(name, 'parameter', f, primary_var_name='(set-to-None)')
    t.set_constant(0.0)
    return t

def qdata(w, f, order):
    """Points, weights times volumes of the rule used for the projection, basis functions in them."""
    from sfepy.discrete import Integral
    xi, wt = Integral('i', order=order).get_qp(w.g)
    N, G = fe.shape(w.g, xi)
    E = w.X[w.conn]
    Y = np.einsum('qn,cnd->cqd', N, E)
    J = np.einsum('qin,cnd->cqdi', G, E)
    return np.asarray(xi), Y, np.abs(np.linalg.det(J)) * wt

def note(mon, case, w, f):
    mon.sig(case['kind'], case['mesh'], case.get('order'), case.get('basis'), case.get('sub'), len(w.conn))
    if case.get('sub'):
        mon.event('subregion')
    b = case.get('basis')
    if b in ('lobatto', 'bernstein', 'serendipity'):
        mon.event(b)

def run_l2(mon, case):
    from sfepy.discrete.projections import make_l2_projection, make_l2_projection_data, project_by_component, create_mass_matrix
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    f = w.field(o, basis=case['basis'])
    note(mon, case, w, f)
    xi = sample(rng, w.g, 4)
    Y = w.place_all(xi)
    affine = w.g in ('2_3', '3_4')
    qo = 2 * o if affine else 2 * o + 2
    p = poly(rng, w, o)

    def data_of(p):
        def fun(ts, coors, mode=None, **kw):
            return p(coors).reshape(-1, 1, 1)
        return fun
    sc = np.abs(p(Y)).max() + 1e-3
    tag = '%s order %d %s: ' % (w.g, o, case['basis'])
    t = target(f)
    if affine or o > 0:
        make_l2_projection_data(t, data_of(p), order=pick(rng, [None, qo, qo + 1]))
        mon.event('l2 exact')
        # Serendipity spaces contain polynomials on parallelograms only.
        para = not (case['basis'] == 'serendipity' and o > 1) or parallel(w)
        if para:
            mon.close('l2 exact', values(w, f, xi, np.asarray(t()))[..., 0], p(Y), rtol=1e-7, scale=sc, msg=tag + 'projection of a polynomial')
    # Orthogonality of the error of a general function, in the used rule.
    k = rng.randn(w.dim) * 3 / np.ptp(w.X, axis=0).max()
    ph = rng.rand()
    fun = lambda x: np.sin(x @ k + ph) + 0.3
    def fund(ts, coors, mode=None, **kw):
        return fun(coors).reshape(-1, 1, 1)
    order = qo + rng.randint(2)
    xq, Yq, dV = qdata(w, f, order)
    make_l2_projection_data(t, fund, order=order)
    d1 = np.asarray(t()).copy()
    u = values(w, f, xq, d1)[..., 0]
    err = (u - fun(Yq)) * dV
    for j in range(4):
        z = rng.randn(f.n_nod)
        v = values(w, f, xq, z)[..., 0]
        mon.event('l2 orthogonal')
        mon.close('l2 orthogonal', (err * v).sum(), 0.0, rtol=0, atol=1e-8 * (np.abs(v) * dV).sum() * max(1.0, np.abs(u).max()), msg=tag + 'orthogonality')
    # Data in quadrature points.
    s = target(f, 's')
    make_l2_projection_data(s, np.ascontiguousarray(fun(Yq)), order=order)
    mon.event('l2 data')
    mon.close('l2 data', np.asarray(s()), d1, rtol=1e-7, scale=np.abs(d1).max(), msg=tag + 'data in quadrature points')
    # Linearity and idempotence.
    a, b = rng.randn(2)
    make_l2_projection_data(s, np.ascontiguousarray(a * fun(Yq) + b * p(Yq)), order=order)
    d3 = np.asarray(s()).copy()
    make_l2_projection_data(s, np.ascontiguousarray(p(Yq)), order=order)
    d2 = np.asarray(s()).copy()
    mon.event('l2 linear')
    mon.close('l2 linear', d3, a * d1 + b * d2, rtol=1e-7, scale=np.abs(d3).max() + np.abs(d1).max() + np.abs(d2).max(), msg=tag + 'linearity')
    make_l2_projection_data(s, np.ascontiguousarray(values(w, f, xq, d1)[..., 0]), order=order)
    mon.event('l2 idempotent')
    mon.close('l2 idempotent', np.asarray(s()), d1, rtol=1e-7, scale=np.abs(d1).max(), msg=tag + 'projected twice')
    # Conservation of the integral.
    xr, Yr, dr = qdata(w, f, order)
    mon.close('l2 orthogonal', (values(w, f, xr, d1)[..., 0] * dr).sum(), (fun(Yr) * dr).sum(), rtol=1e-8, msg=tag + 'integral')
    # Tensor data by components.
    nc = pick(rng, [2, 3, 4, 6, 9])
    ft = w.field(o, (nc,), basis=case['basis'], name='ft')
    tt = target(ft, 'tt')
    tq = np.stack([rng.randn() * fun(Yq) + rng.randn() * p(Yq) for _ in range(nc)], -1)[..., None]
    comp = target(f, 'comp')
    project_by_component(tt, np.ascontiguousarray(tq), comp, order)
    got = np.asarray(tt()).reshape(-1, nc)
    mon.event('components')
    for ic in range(nc):
        make_l2_projection_data(s, np.ascontiguousarray(tq[..., ic, 0]), order=order)
        mon.close('components', got[:, ic], np.asarray(s()), rtol=1e-8, scale=np.abs(got).max(), msg=tag + 'component %d' % ic)
    # Mass matrix.
    M = create_mass_matrix(f)
    xm, Ym, dM = qdata(w, f, 2 * o)
    y, z = rng.randn(2, f.n_nod)
    a = z @ (M @ y)
    b = (values(w, f, xm, y)[..., 0] * values(w, f, xm, z)[..., 0] * dM).sum()
    mon.event('mass matrix')
    mon.close('mass matrix', a, b, rtol=1e-9, scale=(np.abs(values(w, f, xm, y)[..., 0] * values(w, f, xm, z)[..., 0]) * dM).sum(), msg=tag + 'mass matrix')
    mon.close('mass matrix', np.asarray((M - M.T).todense()), np.zeros(M.shape), rtol=0, atol=1e-12 * np.abs(M.data).max(), msg=tag + 'symmetry')
    # A field function to a richer field.
    if case['basis'] in ('lagrange', 'bernstein', 'sem') and o < 3:
        src = w.field(max(o, 1), name='src')
        ds = rng.randn(src.n_nod)
        dst = w.field(max(o, 1) + rng.randint(2), name='dst')
        t2 = target(dst, 't2')
        make_l2_projection(t2, variable(src, ds, 'srcv'))
        mon.event('l2 variable')
        mon.close('l2 variable', values(w, dst, xi, np.asarray(t2()))[..., 0], values(w, src, xi, ds)[..., 0], rtol=1e-6, scale=np.abs(ds).max(),
                  msg=tag + 'variable of order %d to order %d' % (src.approx_order, dst.approx_order))

def parallel(w):
    E = w.X[w.conn]
    if w.g == '2_4':
        return np.abs(E[:, 0] - E[:, 1] + E[:, 2] - E[:, 3]).max() < 1e-10
    if w.g == '3_8':
        a = E[:, 1] - E[:, 0]
        return max(np.abs(E[:, i] - E[:, j] - a).max() for i, j in ((2, 3), (5, 4), (6, 7))) < 1e-10 and \
            np.abs(E[:, 3] - E[:, 0] - E[:, 7] + E[:, 4]).max() < 1e-10
    return True

def run_h1(mon, case):
    from sfepy.discrete.projections import make_h1_projection_data
    from sfepy.discrete import FieldVariable
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    f = w.field(o, basis=case['basis'])
    note(mon, case, w, f)
    tag = '%s order %d %s: ' % (w.g, o, case['basis'])
    xi = sample(rng, w.g, 4)
    Y = w.place_all(xi)
    p = poly(rng, w, o)

    def data_of(fun, grad):
        def data(ts, coors, mode, kind, **kw):
            if kind == 'val':
                return fun(coors).reshape(-1, 1, 1)
            return grad(coors).reshape(-1, w.dim, 1)
        return data
    t = FieldVariable('t', 'unknown', f)
    make_h1_projection_data(t, data_of(p, p.grad))
    sc = np.abs(p(Y)).max() + 1e-3
    if not (case['basis'] == 'serendipity' and o > 1) or parallel(w):
        mon.event('h1 exact')
        mon.close('h1 exact', values(w, f, xi, np.asarray(t()))[..., 0], p(Y), rtol=1e-6, scale=sc, msg=tag + 'projection of a polynomial')
    k = rng.randn(w.dim) * 3 / np.ptp(w.X, axis=0).max()
    ph = rng.rand()
    fun = lambda x: np.sin(x @ k + ph)
    grad = lambda x: np.cos(x @ k + ph)[..., None] * k
    t = FieldVariable('t', 'unknown', f)
    make_h1_projection_data(t, data_of(fun, grad))
    d = np.asarray(t()).copy()
    xq, Yq, dV = qdata(w, f, 2 * o)
    u, g = values(w, f, xq, d)[..., 0], values(w, f, xq, d, grad=True)[..., 0, :]
    for j in range(4):
        z = rng.randn(f.n_nod)
        v, gv = values(w, f, xq, z)[..., 0], values(w, f, xq, z, grad=True)[..., 0, :]
        r = (((u - fun(Yq)) * v + ((g - grad(Yq)) * gv).sum(-1)) * dV).sum()
        s = ((np.abs(u * v) + np.abs((g * gv)).sum(-1)) * dV).sum()
        mon.event('h1 orthogonal')
        mon.close('h1 orthogonal', r, 0.0, rtol=0, atol=1e-7 * s, msg=tag + 'orthogonality')

def run_facets(mon, case):
    """Projection to facets of a region."""
    from sfepy.discrete.projections import project_to_facets
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    nc = 1 + rng.randint(3)
    f = w.field(o, (nc,), basis=case['basis'])
    note(mon, case, w, f)
    tag = '%s order %d %s: ' % (w.g, o, case['basis'])
    ext = w.dom.create_region('Ext', 'vertices of surface', 'facet')
    nf = len(ext.facets)
    sel = np.sort(rng.permutation(nf)[:rng.randint(1, nf + 1)])
    if len(sel) == nf:
        reg = ext
    else:
        vs = np.unique(np.concatenate([facet_vertices(w, ext.facets[i]) for i in sel]))
        g0 = w.dom.create_region('G0', 'vertex %s' % ', '.join(str(i) for i in vs), 'facet', allow_empty=True)
        reg = w.dom.create_region('G', 'r.G0 *%s r.Ext' % 'ef'[w.dim - 2], 'facet', allow_empty=True)
        if not len(reg.facets):
            reg = ext
    w.dom.create_surface_group(reg)
    f.setup_surface_data(reg)
    qps, fbfs, dets = f.get_surface_basis(reg)
    lconn = f.get_econn('facet', reg, local=True)
    nods = np.unique(np.asarray(f.get_dofs_in_region(reg)))
    k = rng.randn(w.dim, nc) * 3 / np.ptp(w.X, axis=0).max()
    fun = lambda x: np.sin(x @ k + 0.3)
    vals = np.asarray(project_to_facets(reg, fun, nc, f))
    mon.ok('facet orthogonal', vals.shape == (len(nods), nc), 'shape of the projection %s' % (vals.shape,))
    z = rng.randn(len(nods))
    r = np.zeros(nc)
    s = 0.0
    for qp, fb, dt, c in zip(qps, fbfs, dets, lconn):
        r += ((fb @ vals[c] - fun(qp)) * (fb @ z[c])[:, None] * np.ravel(dt)[:, None]).sum(0)
        s += (np.abs(fb @ z[c]) * np.ravel(dt)).sum()
    mon.event('facet orthogonal')
    mon.close('facet orthogonal', r, np.zeros(nc), rtol=0, atol=1e-9 * s * max(1.0, np.abs(vals).max()), msg=tag + 'orthogonality')
    # Points and weights: own boundary measure.
    area = sum(np.ravel(dt).sum() for dt in dets)
    own = 0.0
    X = w.X
    from sfepy.discrete.fem import Mesh
    fc = np.asarray(w.dom.cmesh.get_conn(w.dim - 1, 0).indices)
    off = np.asarray(w.dom.cmesh.get_conn(w.dim - 1, 0).offsets)
    for i in np.asarray(reg.facets):
        v = X[fc[off[i]:off[i + 1]]]
        if w.dim == 2:
            own += np.linalg.norm(v[1] - v[0])
        elif len(v) == 3:
            own += 0.5 * np.linalg.norm(np.cross(v[1] - v[0], v[2] - v[0]))
        else:
            own = np.nan
    if np.isfinite(own):
        mon.close('facet exact', area, own, rtol=1e-9, msg=tag + 'measure of the facets')
    # Polynomials are reproduced.
    ps = [poly(rng, w, o) for _ in range(nc)]
    fun = lambda x: np.stack([p(x) for p in ps], -1)
    vals = np.asarray(project_to_facets(reg, fun, nc, f))
    mon.event('facet exact')
    for qp, fb, dt, c in zip(qps, fbfs, dets, lconn):
        mon.close('facet exact', fb @ vals[c], fun(qp), rtol=1e-7, scale=np.abs(vals).max() + 1, msg=tag + 'polynomial on a facet')

def facet_vertices(w, i):
    c = w.dom.cmesh.get_conn(w.dim - 1, 0)
    off = np.asarray(c.offsets)
    return np.asarray(c.indices)[off[i]:off[i + 1]]

# Averaging and interpolation.

def run_average(mon, case):
    from sfepy.discrete import Integral, FieldVariable
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    nc = 1 + rng.randint(3)
    f = w.field(o, (nc,))
    note(mon, case, w, f)
    tag = '%s order %d%s: ' % (w.g, o, ', subregion' if case['sub'] else '')
    iv = np.asarray(w.reg.vertices)
    mon.equal('average', iv, np.unique(w.conn), msg=tag + 'vertices of the region')
    io = 1 + rng.randint(4)
    integral = Integral('i', order=io)
    xi, Yq, dV = qdata(w, f, io)
    dq = rng.randn(len(w.conn), len(xi), nc, 1)

    def own(dq):
        num, den = np.zeros((len(w.X), nc)), np.zeros(len(w.X))
        for c, vv, ww in zip(w.conn, np.einsum('cqi,cq->ci', dq[..., 0], dV), dV.sum(1)):
            num[c] += vv
            den[c] += ww
        return num[iv] / den[iv][:, None]
    if o > 0:
        got = np.asarray(f.average_qp_to_vertices(np.ascontiguousarray(dq), integral))
        want = own(dq)
        mon.event('average')
        mon.close('average', got, want, rtol=1e-10, scale=np.abs(dq).max(), msg=tag + 'averages in vertices')
        c = rng.randn(nc)
        got = np.asarray(f.average_qp_to_vertices(np.ascontiguousarray(np.broadcast_to(c[:, None], dq.shape)), integral))
        mon.event('average constant')
        mon.close('average constant', got, np.broadcast_to(c, got.shape), rtol=1e-11, msg=tag + 'constants')
    d = rng.randn(f.n_nod, nc)
    qp, it = f.interp_to_qp(d)
    xi2, Y2, dV2 = qdata(w, f, it.order)
    mon.event('interp_to_qp')
    mon.close('interp_to_qp', np.asarray(qp)[..., 0], values(w, f, xi2, d), rtol=1e-10, scale=np.abs(d).max(), msg=tag + 'values in quadrature points')
    if o == 0:
        return
    # Vertex values.
    vv = rng.randn(len(iv), nc)
    full = np.zeros((len(w.X), nc))
    full[iv] = vv
    nv = np.asarray(f.interp_v_vals_to_n_vals(vv))
    xs = sample(rng, w.g, 3)
    lin = np.einsum('qn,cni->cqi', fe.shape(w.g, xs)[0], full[w.conn])
    mon.event('vertex values')
    mon.close('vertex values', values(w, f, xs, nv), lin, rtol=1e-8, scale=np.abs(vv).max() * 10, msg=tag + 'function given by vertex values')
    v = FieldVariable('q', 'parameter', f, primary_var_name='(set-to-None)')
    v.set_constant(0.0)
    v.set_from_qp(np.ascontiguousarray(dq), integral)
    full[iv] = own(dq)
    mon.event('set_from_qp')
    lin = np.einsum('qn,cni->cqi', fe.shape(w.g, xs)[0], full[w.conn])
    got = np.asarray(v.evaluate(mode='val', integral=Integral('i', coors=np.ascontiguousarray(xs), weights=np.ones(len(xs)), order=1),
                                integration='cell', region=w.reg))[..., 0]
    mon.close('set_from_qp', got, lin, rtol=1e-8, scale=np.abs(dq).max() * 10, msg=tag + 'set_from_qp()')
    v = FieldVariable('q', 'parameter', f, primary_var_name='(set-to-None)')
    v.set_constant(0.0)
    mv = rng.randn(len(w.X), nc)
    mon.event('mesh vertices')
    v.set_from_mesh_vertices(mv)
    lin = np.einsum('qn,cni->cqi', fe.shape(w.g, xs)[0], mv[w.conn])
    mon.close('mesh vertices', values(w, f, xs, np.asarray(v())), lin, rtol=1e-8, scale=np.abs(mv).max() * 10, msg=tag + 'set_from_mesh_vertices()')

# Output.

def parts(out, key):
    """Real or complex data of the output dictionary."""
    if key in out:
        return np.asarray(out[key].data), out[key]
    re, im = [k for k in out if k.startswith('real')], [k for k in out if k.startswith('imag')]
    return np.asarray(out[re[0]].data) + 1j * np.asarray(out[im[0]].data), out[re[0]]

def run_strip(mon, case):
    from sfepy.discrete import FieldVariable, Variables
    from sfepy.base.base import Struct
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    nc = 1 + rng.randint(3)
    cplx = rng.rand() < 0.35
    f = w.field(o, (nc,), basis=case['basis'], dtype=np.complex128 if cplx else np.float64)
    note(mon, case, w, f)
    tag = '%s order %d %s%s: ' % (w.g, o, case['basis'], ', subregion' if case['sub'] else '')
    d = rng.randn(f.n_nod, nc)
    if cplx:
        d = d + 1j * rng.randn(f.n_nod, nc)
        mon.event('complex')
    d0 = d.copy()
    key = pick(rng, ['u', 'out'])
    fill = pick(rng, [None, None, 0.0, -7.5])
    how = rng.randint(3)
    iv = np.unique(w.conn)
    # Values of the function in vertices of cells, from the same function in real and imaginary parts.
    fr = w.field(o, (nc,), basis=case['basis'], name='fr')
    V = values(w, fr, fe.VERT[w.g], d.real.copy())
    if cplx:
        V = V + 1j * values(w, fr, fe.VERT[w.g], d.imag.copy())
    wantv = np.full((len(w.X), nc), np.nan, dtype=V.dtype)
    for c, vv in zip(w.conn, V):
        wantv[c] = vv
    tol = dict(rtol=1e-9, scale=np.abs(d).max() * 10)
    for extend in (True, False):
        for kind in ('strip', None):
            lin = None if kind == 'strip' and rng.rand() < 0.5 else Struct(kind=kind)
            if how == 0:
                out = f.create_output(d, 'u', key=key, extend=extend, fill_value=fill, linearization=lin)
            else:
                u = FieldVariable('u', 'unknown', f)
                if how == 1:
                    u.set_data(d.ravel())
                    out = u.create_output(key=key, extend=extend, fill_value=fill, linearization=lin)
                    mon.event('variables output')
                else:
                    out = u.create_output(vec=d.ravel(), key=key, extend=extend, fill_value=fill, linearization=lin)
            data, s = parts(out, key)
            mon.ok('strip', s.var_name == 'u', 'variable name of the output')
            mon.equal('strip', d, d0, msg='coefficients changed by output')
            if kind is None:
                mon.event('full')
                mon.ok('full', s.mode == 'full', 'mode %s' % s.mode)
                mon.close('full', data.reshape(d.shape), d, rtol=0, atol=0, msg=tag + 'coefficients')
                continue
            # Zero for vectors, as in get_min_value().
            low = d.real.min() + (1j * d.imag.min() if cplx else 0.0) if nc == 1 else 0.0
            fv = low if fill is None else fill
            if o == 0:
                mon.event('cell data')
                mon.ok('cell data', s.mode == 'cell', 'mode %s' % s.mode)
                if extend:
                    want = np.full((len(w.all), nc), fv, dtype=d.dtype)
                    want[w.cells] = V[:, 0]
                else:
                    want = V[:, 0]
                mon.equal('cell data', data.shape, (len(want), 1, nc, 1), msg=tag + 'shape of cell data')
                if data.size == want.size:
                    mon.close('cell data', data.reshape(want.shape), want, msg=tag + 'cell data, extend %s' % extend, **tol)
                continue
            mon.event('strip')
            mon.ok('strip', s.mode == 'vertex', 'mode %s' % s.mode)
            if extend:
                want = np.where(np.isnan(wantv), fv, wantv)
                mon.event('extend')
                if len(iv) < len(w.X):
                    mon.event('fill')
            else:
                want = wantv[iv]
            mon.close('strip', data, want, msg=tag + 'vertex values, extend %s, fill %s' % (extend, fill), **tol)
    # Meshes of the field.
    if o > 0 and case['basis'] == 'lagrange' and not (w.g == '3_8' and o == 2 and 0):
        m = f.create_mesh(extra_nodes=False)
        mon.event('create_mesh')
        mon.close('create_mesh', np.asarray(m.coors)[np.asarray(m.get_conn(w.g))], w.X[w.conn], rtol=1e-12, msg=tag + 'mesh of the field')
    # Several variables.
    if not cplx:
        f2 = w.field(1, (1,), name='f2')
        u = FieldVariable('u', 'unknown', f, order=1)
        q = FieldVariable('q', 'unknown', f2, order=0)
        vs = Variables([u, q])
        vs.setup_dof_info()
        vs.init_state()
        x = np.zeros(vs.di.n_dof_total)
        dq = rng.randn(f2.n_nod)
        x[vs.di.indx['u']], x[vs.di.indx['q']] = d.ravel(), dq
        vs.set_state(x, force=True)
        out = vs.create_output()
        mon.event('variables output')
        mon.equal('variables output', sorted(out), ['q', 'u'], msg='names of the output')
        one = f.create_output(d, 'u', key='u')
        mon.close('variables output', np.asarray(out['u'].data), np.asarray(one['u'].data), rtol=0, atol=0, msg=tag + 'output of u')
        one = f2.create_output(dq[:, None], 'q', key='q')
        mon.close('variables output', np.asarray(out['q'].data), np.asarray(one['q'].data), rtol=0, atol=0, msg=tag + 'output of q')

def run_disc(mon, case):
    from sfepy.discrete.fem import Field
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    nc = 1 + rng.randint(2)
    f = Field.from_args('f', np.float64, (nc,), w.reg, approx_order=o, space='L2', poly_space_basis='lagrange') if 0 else \
        Field.from_args('f', np.float64, (nc,), w.reg, approx_order=o, space='H1', poly_space_basis='lagrange')
    try:
        from sfepy.discrete.fem.fields_nodal import H1DiscontinuousField
    except ImportError:
        return
    f = H1DiscontinuousField('f', np.float64, (nc,), w.reg, o)
    note(mon, case, w, f)
    tag = '%s order %d discontinuous: ' % (w.g, o)
    d = rng.randn(f.n_nod, nc)
    check_linearized(mon, rng, w, f, d, tag, o, case.get('cplx', False))
    out = f.create_output(d, 'u', key='u')
    xi, Yq, dV = qdata(w, f, o)
    num, den = np.zeros((len(w.X), nc)), np.zeros(len(w.X))
    vals = values(w, f, xi, d)
    for c, vv, ww in zip(w.conn, np.einsum('cqi,cq->ci', vals, dV), dV.sum(1)):
        num[c] += vv
        den[c] += ww
    mon.event('discontinuous')
    mon.close('discontinuous', np.asarray(out['u'].data)[np.unique(w.conn)], (num / np.maximum(den, 1e-300)[:, None])[np.unique(w.conn)],
              rtol=1e-9, scale=np.abs(d).max(), msg=tag + 'averaged output')

EDGES = {'2_3': [(0, 1), (1, 2), (2, 0)], '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
         '3_4': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
         '3_8': [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]}

def refvol(g, xi):
    """Volumes of small reference elements, vertices (n, nv, d)."""
    pr, wr = fe.rule(g, 3)
    N, G = fe.shape(g, pr)
    J = np.einsum('qin,cnd->cqdi', G, xi)
    return (np.abs(np.linalg.det(J)) * wr).sum(1)

def check_pieces(mon, w, f, coors, conn, vd, fun, tag, min_level, max_level, level, eps, rtol=1e-7):
    """The pieces: geometry, values, levels and tolerance; returns the parents."""
    E = coors[conn]                                         # (n, nv, dim)
    mid = E.mean(1)
    # Parents by inversion.
    par = np.full(len(E), -1)
    xis = np.zeros(E.shape)
    for c in range(len(w.conn)):
        todo = np.nonzero(par < 0)[0]
        if not len(todo):
            break
        box = w.X[w.conn[c]]
        near = ((mid[todo] >= box.min(0) - 1e-9) & (mid[todo] <= box.max(0) + 1e-9)).all(1)
        todo = todo[near]
        if not len(todo):
            continue
        r = w.ref(np.full(len(todo), c), mid[todo])
        ins = np.isfinite(r).all(1) & (w.dist(np.nan_to_num(r, nan=9.)) < 1e-7)
        par[todo[ins]] = c
    mon.ok('linearized geometry', (par >= 0).all(), tag + '%d pieces out of the cells' % (par < 0).sum())
    if (par < 0).any():
        return None
    nv = E.shape[1]
    for i in range(nv):
        xis[:, i] = w.ref(par, E[:, i])
    mon.event('linearized geometry')
    ok = np.isfinite(xis).all()
    mon.ok('linearized geometry', ok and w.dist(xis.reshape(-1, w.dim)).max() < 1e-6, tag + 'vertices of pieces out of their cells')
    if not ok:
        return None
    rv = refvol(w.g, xis)
    tot = np.bincount(par, rv, minlength=len(w.conn))
    full = {'2_3': 0.5, '3_4': 1. / 6}.get(w.g, 1.0)
    mon.close('linearized geometry', tot, np.full(len(tot), full), rtol=1e-6, msg=tag + 'volumes of the pieces of cells')
    lev = np.log2(full / rv) / w.dim
    mon.event('linearized levels')
    mon.close('linearized levels', lev, np.round(lev), atol=1e-5, rtol=0, msg=tag + 'levels of pieces')
    lev = np.round(lev).astype(int)
    mon.ok('linearized levels', lev.min() >= min(min_level, max_level) and lev.max() <= max_level, tag + 'levels %d - %d, required %d - %d' %
           (lev.min(), lev.max(), min_level, max_level))
    want = fun(par, xis)                                    # (n, nv, nc)
    mon.event('linearized')
    mon.close('linearized', vd[conn], want, rtol=rtol, scale=np.abs(want).max() + 1e-300, msg=tag + 'values in vertices of pieces')
    rng = want.max() - want.min()
    small = lev < max_level
    if small.any() and eps is not None:
        # Second differences along edges of accepted pieces.
        dev = np.zeros(small.sum())
        for a, b in EDGES[w.g]:
            m = 0.5 * (xis[small][:, a] + xis[small][:, b])
            vm = fun(par[small], m[:, None])[:, 0]
            dd = np.abs(want[small][:, a] + want[small][:, b] - 2 * vm).mean(-1)
            dev = np.maximum(dev, dd)
        # Range of the values in points of the finest level.
        t = np.linspace(0, 1, 2**(max_level + 1) + 1)
        pts = np.stack(np.meshgrid(*[t] * w.dim, indexing='ij'), -1).reshape(-1, w.dim)
        if w.g in ('2_3', '3_4'):
            pts = pts[pts.sum(1) <= 1 + 1e-12]
        V = fun(np.arange(len(w.conn)), np.broadcast_to(pts, (len(w.conn),) + pts.shape))
        full_rng = V.max() - V.min()
        mon.event('tolerance')
        mon.ok('tolerance', dev.max() <= eps * full_rng * (1 + 1e-6) + 1e-9 * np.abs(want).max(), tag + 'second differences %.3g in accepted pieces, tolerance %.3g, levels %s' %
               (dev.max(), eps * full_rng, np.unique(lev)))
    return lev

def function_of(w, f, d):
    """Values of the field function in reference points (n, m, dim) of cells (n,)."""
    def fun(par, xi):
        n, m = xi.shape[:2]
        # Distinct points: evaluate all of them in all cells by chunks.
        flat = xi.reshape(-1, w.dim)
        cells = np.repeat(par, m)
        key = np.round(flat, 7)
        uq, inv = np.unique(key, axis=0, return_inverse=True)
        inv = np.ravel(inv)
        V = values(w, f, np.ascontiguousarray(np.clip(uq, 0, 1)), d)
        return V[cells, inv].reshape(n, m, -1)
    return fun

def check_linearized(mon, rng, w, f, d, tag, o, cplx=False):
    from sfepy.base.base import Struct
    mx = 3 if w.dim == 2 else 2
    if w.g == '3_8':
        mx = 1 + (rng.rand() < 0.3)
    min_level = rng.randint(0, mx + 1) if rng.rand() < 0.4 else 0
    max_level = rng.randint(min_level, mx + 1)
    eps = 10.0**rng.uniform(-3, -0.3)
    mesh, vd, level = f.linearize(d, min_level=min_level, max_level=max_level, eps=eps)
    tag = tag + 'levels %d-%d, eps %.2g: ' % (min_level, max_level, eps)
    conn = np.asarray(mesh.get_conn(w.g))
    mon.sig('levels', w.g, o, min_level, max_level, len(conn))
    lev = check_pieces(mon, w, f, np.asarray(mesh.coors), conn, np.asarray(vd), function_of(w, f, d), tag, min_level, max_level, level, eps)
    if lev is not None:
        mon.ok('linearized levels', level == lev.max(), tag + 'returned level %s, used %d' % (level, lev.max()))
    out = f.create_output(d, 'u', key='u', linearization=Struct(kind='adaptive', min_level=min_level, max_level=max_level, eps=eps))
    mon.close('linearized', np.asarray(out['u'].data), np.asarray(vd), rtol=0, atol=0, msg=tag + 'output dictionary')
    mon.close('linearized', np.asarray(out['u'].mesh.coors), np.asarray(mesh.coors), rtol=0, atol=0, msg=tag + 'mesh of the output dictionary')

def run_linearize(mon, case):
    quiet()
    rng = gen.rngof(case)
    w = world(rng, case)
    o = case['order']
    nc = 1 + rng.randint(3)
    f = w.field(o, (nc,), basis=case['basis'])
    note(mon, case, w, f)
    tag = '%s order %d %s%s: ' % (w.g, o, case['basis'], ', subregion' if case['sub'] else '')
    d = rng.randn(f.n_nod, nc)
    if rng.rand() < 0.6 and case['basis'] == 'lagrange':
        # A front.
        k = rng.randn(w.dim) * 2 / np.ptp(w.X, axis=0).max()
        x = np.asarray(f.get_coor()) - w.X[rng.randint(len(w.X))]
        d = np.tanh(3 * (x @ k))[:, None] * rng.randn(nc) + 0.01 * d
    check_linearized(mon, rng, w, f, d, tag, o)

def run_expression(mon, case):
    from sfepy.discrete import FieldVariable, Variables, Materials
    from sfepy.discrete.fem.fields_base import create_expression_output
    quiet()
    rng = gen.rngof(case)
    w = world(rng, dict(case, sub=False))
    o = case['order']
    nc = pick(rng, [1, w.dim])
    f = w.field(o, (nc,), name='f')
    note(mon, case, w, f)
    d = rng.randn(f.n_nod, nc)
    u = FieldVariable('u', 'parameter', f, primary_var_name='(set-to-None)')
    u.set_data(d.ravel())
    kind = pick(rng, ['val', 'grad'])
    term = dict(val='ev_integrate', grad='ev_grad')[kind]
    mx = 2 if w.dim == 2 else 1
    min_level = rng.randint(2)
    max_level = rng.randint(min_level, mx + 1)
    eps = 10.0**rng.uniform(-3, -0.3)
    out = create_expression_output('%s.ie.Elements(u)' % term, 'e', 'f', {'f': f}, None, Variables([u]), mode='qp', verbose=False,
                                   min_level=min_level, max_level=max_level, eps=eps)
    s = out['e']
    tag = '%s order %d %s: ' % (w.g, o, kind)
    base = function_of(w, f, d)

    def fun(par, xi):
        if kind == 'val':
            return base(par, xi)
        n, m = xi.shape[:2]
        flat = xi.reshape(-1, w.dim)
        uq, inv = np.unique(np.round(flat, 7), axis=0, return_inverse=True)
        V = values(w, f, np.ascontiguousarray(np.clip(uq, 0, 1)), d, grad=True)   # (c, q, nc, dim)
        V = np.swapaxes(V, -1, -2) if nc > 1 else V
        V = V.reshape(V.shape[:2] + (-1,))
        return V[np.repeat(par, m), np.ravel(inv)].reshape(n, m, -1)
    vd = np.asarray(s.data)
    mon.event('expression output')
    if kind == 'grad' and nc > 1:
        # Only the first column of tensors is given.
        base_fun = fun
        fun = lambda par, xi: base_fun(par, xi).reshape(xi.shape[:2] + (w.dim, nc))[..., 0]
    if np.ndim(vd) == 2:
        check_pieces(mon, w, f, np.asarray(s.mesh.coors), np.asarray(s.mesh.get_conn(w.g)), vd, fun, tag, min_level, max_level, s.level, None, rtol=1e-6)

def run_written(mon, case):
    """Files with linearised output."""
    import os
    import tempfile
    from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Problem
    from sfepy.discrete.fem import Mesh
    from sfepy.base.base import Struct
    from sfepy.terms import Term
    import meshio
    quiet()
    rng = gen.rngof(case)
    w = world(rng, dict(case, sub=False))
    o = case['order']
    f = w.field(o, (1,))
    note(mon, case, w, f)
    d = rng.randn(f.n_nod, 1)
    u, v = FieldVariable('u', 'unknown', f), FieldVariable('v', 'test', f, primary_var_name='u')
    eqs = Equations([Equation('e', Term.new('dw_laplace(v, u)', Integral('i', order=2), w.reg, v=v, u=u))])
    pb = Problem('p', equations=eqs)
    with tempfile.TemporaryDirectory() as tmp:
        kind = pick(rng, ['strip', 'adaptive'])
        min_level, max_level = 0, 1 + (w.dim == 2)
        eps = 1e-2
        pb.setup_output(output_dir=tmp, output_filename_trunk='res', output_format='vtk',
                        linearization=Struct(kind=kind, min_level=min_level, max_level=max_level, eps=eps))
        pb.time_update()
        variables = pb.get_variables()
        variables.init_state()
        variables.set_state(d.ravel(), force=True)
        pb.save_state(os.path.join(tmp, 'res.vtk'), variables)
        names = sorted(os.listdir(tmp))
        mon.event('written')
        mon.ok('written', len(names) == 1, 'files %s' % names)
        name = os.path.join(tmp, names[0])
        m = meshio.read(name)
    pts = m.points[:, :w.dim]
    key = [k for k in m.point_data if k != 'node_groups']
    mon.ok('written', len(key) == 1, 'data in the file: %s' % list(m.point_data))
    vd = np.asarray(m.point_data[key[0]]).reshape(len(pts), -1)
    conn = np.asarray(m.cells[0].data)
    tag = '%s order %d %s: ' % (w.g, o, kind)
    if kind == 'strip':
        check_pieces(mon, w, f, pts, conn, vd, function_of(w, f, d), tag, 0, 0, 0, None, rtol=1e-6)
    else:
        check_pieces(mon, w, f, pts, conn, vd, function_of(w, f, d), tag, min_level, max_level, None, None, rtol=1e-6)
