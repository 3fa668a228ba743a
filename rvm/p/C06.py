"""
C06: reference element mappings.

Monitor: the mapping objects which the real fields hand to the terms (and the
values of the geometric evaluation terms) are observed for random cell and
facet subsets of random meshes.  Oracle: an own numpy isoparametric map (shape
functions, Jacobians, facet normals by cross products, own Gauss rules), the
divergence theorem for random polynomials between the observed cell and facet
mappings, and invariance under rigid motion, renumbering and cell selection.
"""
import numpy as np
from .. import gen
from .. import ref_fe as fe

REQUIRED = ['det', 'volume', 'grad', 'shape', 'facet_area', 'facet_normal',
            'facet_qps', 'divergence', 'facet_extra', 'tilted', 'rigid',
            'subset', 'warp', 'terms', 'surface_field', 'flux']
ASSUMPTIONS = ['the measure of a warped bilinear facet is what the Gauss rule of'
               ' the requested order gives; its vector area is exact',
               'one-dimensional cells are ordered from left to right']
KINDS = ['1_2', '2_3', '2_4', '3_4', '3_8', '3_6', '2_3d', '3_4d']
MAXQ = {'3_6': 3}

def cases(rng, tier):
    out = []
    n = 5 if tier == 'quick' else 60
    for i in range(n):
        for k in KINDS:
            out.append(dict(kind='cells', mesh=k, cost=3))
            out.append(dict(kind='facets', mesh=k, cost=4))
        for k in ('1_2', '2_3', '2_4'):
            out.append(dict(kind='tilted', mesh=k, dim=3 if k[0] == '2' else 2))
        out.append(dict(kind='warp', mesh=['2_3', '2_4', '3_4', '3_8'][i % 4]))
        for k in KINDS[:5]:
            out.append(dict(kind='terms', mesh=k, cost=3))
    return out

def conn_of(raw):
    g = list(raw['conns'])[0]
    return g, raw['conns'][g]

def make(rng, kind, **kw):
    size = dict(size=2) if kind[0] == '3' else dict(size=3)
    if kind == '1_2':
        size = dict(size=5)
    return gen.raw_mesh(rng, kind, jitter=kw.pop('jitter', 0.3), **size, **kw)

def order_of(rng, g):
    return int(rng.randint(1, 4 if g not in ('3_6', '3_8') else (2 if g == '3_6' else 3)))

def domain_field(raw, order, basis='lagrange', shape='scalar', name='f'):
    from sfepy.discrete import fem
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    f = fem.Field.from_args(name, np.float64, shape, om, approx_order=order,
                            poly_space_basis=basis)
    return dom, om, f

def cells_region(dom, rng, n_cell, name):
    m = rng.randint(1, n_cell + 1)
    sel = np.sort(rng.permutation(n_cell)[:m])
    return dom.create_region(name, 'cell ' + ', '.join(map(str, sel))), sel

def run_cells(mon, case):
    from sfepy.discrete import Integral
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'])
    g, conn = conn_of(raw)
    X = raw['coors']
    order = order_of(rng, g)
    basis = 'lagrange' if g in ('3_6', '1_2') or rng.rand() < 0.6 else \
        ['lobatto', 'bernstein'][rng.randint(2)] if g in ('2_4', '3_8') else \
        ['lagrange', 'bernstein'][rng.randint(2)]
    dom, om, f = domain_field(raw, order, basis)
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    mon.sig('cells', case['mesh'], order, basis)
    ps = f.poly_space
    regs = [(om, np.arange(len(conn)))]
    for i in range(2):
        regs.append(cells_region(dom, rng, len(conn), 'S%d' % i))
    orders = [int(rng.randint(0, MAXQ.get(g, 6) + 1)) for _ in range(2)]
    full = None
    for reg, sel in regs:
        for qo in orders:
            integral = Integral('i', order=qo)
            geo, _ = f.get_mapping(reg, integral, 'cell')
            P, W = integral.get_qp(g)
            Y, J = fe.mapped(g, X, conn[sel], P)
            detJ = fe.measure(J)
            sc = np.abs(detJ).max() * np.abs(W).max()
            mon.close('det', np.asarray(geo.det)[..., 0, 0], detJ * W, rtol=1e-11,
                      scale=sc, msg='det x weights')
            mon.close('volume', np.asarray(geo.volume)[:, 0, 0, 0],
                      (detJ * W).sum(1), rtol=1e-10, msg='volume')
            if qo >= (2 if g != '1_2' else 0):
                Pe, We = fe.rule(g, 4)
                ve = (fe.measure(fe.mapped(g, X, conn[sel], Pe)[1]) * We).sum(1)
                mon.close('volume', np.asarray(geo.volume)[:, 0, 0, 0], ve,
                          rtol=1e-10, msg='exact volume')
            if f.ori is None:
                N = ps.eval_basis(P)[..., 0, :]
                mon.close('shape', np.broadcast_to(np.asarray(geo.bf)[..., 0, :],
                                                   (len(sel),) + N.shape),
                          np.broadcast_to(N, (len(sel),) + N.shape), rtol=1e-12)
                G = np.broadcast_to(ps.eval_basis(P, diff=True)[None],
                                    (len(sel), len(P), len(P[0]), ps.n_nod))
            else:
                G = ps.eval_basis(P, diff=True, ori=f.ori[sel])
            iJ = np.linalg.inv(J)          # dxi/dx
            Gx = np.einsum('cqij,cqin->cqjn', iJ, G)
            mon.close('grad', np.asarray(geo.bfg), Gx, rtol=1e-9, msg='gradients')
            mon.event('maps')
            if reg is om and qo == orders[0]:
                full = geo
            if reg is not om and qo == orders[0]:
                mon.close('subset', np.asarray(geo.det), np.asarray(full.det)[sel],
                          rtol=1e-13)
                mon.close('subset', np.asarray(geo.bfg), np.asarray(full.bfg)[sel],
                          rtol=1e-13)
    # Public helpers.
    from sfepy.discrete.common.mappings import get_jacobian, get_mapping_data, get_physical_qps
    integral = Integral('i', order=orders[0])
    reg, sel = regs[1]
    P, W = integral.get_qp(g)
    Y, J = fe.mapped(g, X, conn[sel], P)
    detJ = fe.measure(J)
    mon.close('det', np.asarray(get_jacobian(f, integral, reg, integration='cell'))[..., 0, 0],
              detJ * W, rtol=1e-11, scale=sc)
    mon.close('volume', np.asarray(get_mapping_data('volume', f, integral, reg,
              'cell'))[:, 0, 0, 0], (detJ * W).sum(1), rtol=1e-10)
    qps = get_physical_qps(reg, integral)
    mon.close('qps', qps.values.reshape(Y.shape), Y, rtol=1e-12)
    mon.equal('qps', np.array(qps.shape), np.array(Y.shape))
    if g != '1_2':
        d = dom.get_element_diameters(sel, full.volume, 0, square=False)
        ref = [max(np.linalg.norm(X[c[a]] - X[c[b]]) for a, b in fe.EDGES[g])
               for c in conn[sel]]
        mon.close('diameter', d, ref, rtol=1e-12)
    # Rigid motion.
    R, t = gen.rotation(rng, X.shape[1]), rng.randn(X.shape[1])
    raw2 = dict(raw, coors=X @ R.T + t)
    dom2, om2, f2 = domain_field(raw2, order, basis)
    g2, _ = f2.get_mapping(om2, integral, 'cell')
    mon.close('rigid', np.asarray(g2.det), np.asarray(full.det), rtol=1e-10,
              scale=np.abs(np.asarray(full.det)).max())
    mon.close('rigid', np.asarray(g2.bfg),
              np.einsum('ij,cqjn->cqin', R, np.asarray(full.bfg)), rtol=1e-9)

def facets_region(dom, sel, name):
    from sfepy.discrete.common.region import Region
    reg = Region.from_facets(np.asarray(sel, dtype=np.uint32), dom, name=name, kind='facet')
    reg.update_shape()
    return reg

def facet_regions(dom, rng, g):
    out = [('vertices of surface', dom.create_region('Gamma', 'vertices of surface', 'facet'))]
    # A random part of the boundary (and some of the interior facets).
    cm = dom.cmesh
    D = cm.tdim
    nf = cm.num[D - 1]
    surf = np.asarray(cm.get_surface_facets())
    sel = np.sort(rng.permutation(surf)[:rng.randint(1, len(surf) + 1)])
    out.append(('part', facets_region(dom, sel, 'Part')))
    inner = np.setdiff1d(np.arange(nf), surf)
    if len(inner):
        sel = np.sort(rng.permutation(inner)[:rng.randint(1, len(inner) + 1)])
        out.append(('inner', facets_region(dom, sel, 'Inner')))
    return out

def run_facets(mon, case):
    from sfepy.discrete import Integral, fem
    from sfepy.discrete.common.mappings import get_physical_qps, get_normals
    rng = gen.rngof(case)
    planar = rng.rand() < 0.5
    raw = make(rng, case['mesh'], jitter=0.0 if planar else 0.3)
    g, _ = conn_of(raw)
    X = raw['coors']
    dim = X.shape[1]
    order = order_of(rng, g)
    basis = 'bernstein' if g not in ('3_6', '1_2') and rng.rand() < 0.2 else 'lagrange'
    dom, om, f = domain_field(raw, order, basis)
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    f1 = f if order == 1 and basis == 'lagrange' else \
        fem.Field.from_args('f1', np.float64, 'scalar', om, approx_order=1)
    mon.sig('facets', case['mesh'], order, basis, planar)
    h = np.ptp(X, axis=0).max()
    x0 = X.mean(0)
    # The quad facets of a generic hexahedron or wedge are not planar.
    nonplanar = g in ('3_8', '3_6') and not planar
    for kind, reg in facet_regions(dom, rng, g):
        fis = np.asarray(reg.get_facet_indices())
        qo = int(rng.randint(2 if nonplanar else 0, 7))
        if g == '3_6':
            qo = min(qo, 3)
        integral = Integral('i', order=qo)
        for ff in (f, f1):
            setup_surface(ff, reg)
        geo, _ = f.get_mapping(reg, integral, 'facet')
        geo1, _ = f1.get_mapping(reg, integral, 'facet')
        det = np.asarray(geo.det)[..., 0, 0]
        nrm = np.asarray(geo.normal)[..., 0]
        mon.ok('facet_count', len(det) == len(fis), 'number of facets: %d, %d'
               % (len(det), len(fis)))
        if len(det) != len(fis):
            return
        mon.close('facet_normal', np.linalg.norm(nrm, axis=-1),
                  np.ones(nrm.shape[:2]), rtol=1e-12, msg='unit normals') \
            if g != '3_6' else mon.event('facet_normal')
        # Points where the facet basis lives (order 1: coordinates).
        sd = f1.domain.surface_groups[reg.name]
        fc = np.asarray(sd.get_connectivity())
        bf = np.broadcast_to(np.asarray(geo1.bf)[..., 0, :],
                             det.shape + (np.asarray(geo1.bf).shape[-1],))
        Y = np.einsum('cqn,cnd->cqd', bf[..., :fc.shape[1]], X[fc])
        det1 = np.asarray(geo1.det)[..., 0, 0]
        mon.close('det', det, det1, rtol=1e-12, msg='geometry by field order')
        q = get_physical_qps(reg, integral, 's')
        used = det != 0.0
        mon.close('facet_qps', q.values.reshape(Y.shape)[used], Y[used], rtol=1e-11,
                  scale=h, msg='physical quadrature points')
        for i, (c, loc) in enumerate(fis):
            y, nn, w = fe.facet_geometry(X, conn[c], g, loc)
            nfv = len(fe.facets(g)[loc])
            area = (np.linalg.norm(nn, axis=1) * w).sum()
            va = (nn * w[:, None]).sum(0)
            if not (nfv == 4 and nonplanar):
                mon.close('facet_area', det[i].sum(), area, rtol=1e-10, msg='facet %d' % i)
            ng = nrm[i][used[i]]
            mon.close('facet_normal', (ng * det[i][used[i], None]).sum(0), va,
                      rtol=1e-9, scale=area, msg='vector area, outward, facet %d (%s)'
                      % (i, kind))
            # Centroid of the facet: first moment.
            if not (nfv == 4 and nonplanar) and qo >= (2 if nfv == 4 else 1):
                mon.close('facet_qps', (Y[i] * det[i][:, None]).sum(0),
                          (y * (np.linalg.norm(nn, axis=1) * w)[:, None]).sum(0),
                          rtol=1e-9, scale=h * area, msg='first moment')
            if not nonplanar or nfv == 3:
                u = va / np.linalg.norm(va)
                mon.close('facet_normal', ng, np.tile(u, (len(ng), 1)), rtol=1e-9,
                          msg='normal of planar facet')
        try:
            nn2 = get_normals(f, integral, reg)
        except Exception as exc:
            mon.violate('facet_normal', 'get_normals(): %r' % exc)
        else:
            mon.close('facet_normal', np.asarray(nn2), np.asarray(geo.normal), rtol=1e-13)
        # Gradients on facets.
        if g != '3_6':
            try:
                ge, _ = f.get_mapping(reg, integral, 'facet_extra')
            except ValueError as exc:
                if dim == 1:
                    ge = None
                else:
                    raise
            if ge is not None and dim > 1:
                mon.close('facet_extra', np.asarray(ge.det), np.asarray(geo.det), rtol=1e-12)
                # Reference gradients at the pre-images of Y (own Newton).
                xi = invert(g, X, conn[fis[:, 0]], Y)
                _, G0 = fe.shape(g, xi.reshape(-1, xi.shape[-1]))
                E = X[conn[fis[:, 0]]]
                G0 = G0.reshape(xi.shape[:2] + G0.shape[1:])
                J = np.einsum('cqin,cnd->cqdi', G0, E)
                iJ = np.linalg.inv(J)
                bfg = np.asarray(ge.bfg)
                Gr = np.array([f.poly_space.eval_basis(clip(g, x), diff=True) for x in xi])
                ref = np.einsum('cqij,cqin->cqjn', iJ, Gr)
                mon.close('facet_extra', bfg, ref, rtol=1e-7, msg='gradients on facets')
        # Surface field.
        if kind != 'inner' and basis == 'lagrange' and g not in ('1_2', '3_6'):
            sf = fem.Field.from_args('sf' + kind[:2], np.float64, 'scalar', reg,
                                     approx_order=1)
            sg, _ = sf.get_mapping(reg, integral, 'facet')
            sdet = np.asarray(sg.det)[..., 0, 0]
            if g != '3_6':
                mon.close('surface_field', sdet.sum(1), det.sum(1), rtol=1e-10)
                sn = np.asarray(sg.normal)[..., 0]
                mon.close('surface_field', (sn * sdet[..., None]).sum(1),
                          (nrm * det[..., None]).sum(1), rtol=1e-10, scale=det.sum(1).max())
                mon.event('surface_field_n')
        # Divergence theorem, all cells and all boundary facets.
        if kind == 'vertices of surface' and (g != '3_6' or planar):
            deg = min(qo - (2 if g in ('3_8', '3_6', '2_4') else 0), 3)
            if nonplanar:
                deg = min(deg, (qo - 2))
            if g == '3_8' and nonplanar:
                # F(x) of degree k times a vector of degree 2 in each variable.
                deg = min(deg, max(qo - 2, 0))
            if deg >= 1:
                qv = Integral('v', order=min(qo + 2, 3 if g == '3_6' else 9))
                gv, _ = f.get_mapping(om, qv, 'cell')
                Yv = get_physical_qps(om, qv, 'v')
                Yv = Yv.values.reshape(Yv.shape)
                P = [fe.PolyF(rng, dim, deg, x0, h) for _ in range(dim)]
                F = np.stack([p(Y) for p in P], -1)
                surf = np.einsum('cqd,cqd,cq->', F, nrm, det)
                div = sum(P[d].grad(Yv)[..., d] for d in range(dim))
                vol = np.einsum('cq,cq->', div, np.asarray(gv.det)[..., 0, 0])
                sc = np.einsum('cqd,cq->', np.abs(F), det) + abs(vol)
                mon.close('divergence', surf, vol, rtol=1e-10, scale=sc,
                          msg='divergence theorem, degree %d, quadrature %d' % (deg, qo))

def setup_surface(field, reg):
    field.domain.create_surface_group(reg)
    field.setup_surface_data(reg)

def clip(g, x):
    x = np.clip(x, 0, 1)
    if g in ('2_3', '3_4'):
        x = x / np.maximum(1 + 4e-16, x.sum(1))[:, None] * (1 + 4e-16) \
            if (x.sum(1) <= 1).all() else x / np.maximum(1 + 1e-15, x.sum(1) + 1e-15)[:, None]
    return x

def invert(g, X, conn, Y):
    """Own Newton inversion of the mapping, all points."""
    E = X[conn]
    xi = np.tile(fe.VERT[g].mean(0), Y.shape[:2] + (1,))
    for _ in range(30):
        N, G = fe.shape(g, xi.reshape(-1, xi.shape[-1]))
        N = N.reshape(xi.shape[:2] + N.shape[1:])
        G = G.reshape(xi.shape[:2] + G.shape[1:])
        r = np.einsum('cqn,cnd->cqd', N, E) - Y
        J = np.einsum('cqin,cnd->cqdi', G, E)
        d = np.linalg.solve(J, r[..., None])[..., 0]
        xi = xi - d
        if np.abs(d).max() < 1e-14:
            break
    return xi

def run_tilted(mon, case):
    """Cells of lower dimension than the space."""
    from sfepy.discrete import Integral
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'])
    g, conn = conn_of(raw)
    X = raw['coors']
    R = gen.rotation(rng, case['dim'])
    if rng.rand() < 0.25:
        R = np.eye(case['dim'])[rng.permutation(case['dim'])]
    Z = np.c_[X, np.zeros((len(X), case['dim'] - X.shape[1]))] @ R.T + rng.randn(case['dim'])
    if g == '2_3' and rng.rand() < 0.5:
        # A non-planar surface of planar triangles.
        raw = dict(raw, coors=X)
        Z = Z + 0.2 * np.sin(Z[:, ::-1] * 2)
    raw2 = dict(raw, coors=np.ascontiguousarray(Z))
    order = int(rng.randint(1, 3))
    dom, om, f = domain_field(raw2, order)
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    integral = Integral('i', order=int(rng.randint(1, 5)))
    geo, _ = f.get_mapping(om, integral, 'cell')
    P, W = integral.get_qp(g)
    Y, J = fe.mapped(g, Z, conn, P)
    mon.close('tilted', np.asarray(geo.det)[..., 0, 0], fe.measure(J) * W, rtol=1e-9,
              msg='measure of tilted cells')
    # In-plane gradients: the Gram matrix of basis gradients is frame invariant.
    G = f.poly_space.eval_basis(P, diff=True)
    M = np.linalg.inv(np.swapaxes(J, -1, -2) @ J)
    ref = np.einsum('qin,cqij,qjm->cqnm', G, M, G)
    b = np.asarray(geo.bfg)
    mon.close('tilted', np.einsum('cqin,cqim->cqnm', b, b), ref, rtol=1e-8,
              msg='products of in-plane gradients')
    mon.sig('tilted', g, order)

def run_warp(mon, case):
    """An inverted cell is diagnosed."""
    from sfepy.discrete import Integral, fem
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], localperm=False)
    g, conn = conn_of(raw)
    conn = conn.copy()
    bad = rng.randint(len(conn))
    c = conn[bad]
    sw = {'2_3': [1, 0, 2], '2_4': [3, 2, 1, 0], '3_4': [1, 0, 2, 3],
          '3_8': [4, 5, 6, 7, 0, 1, 2, 3]}[g]
    raw2 = dict(raw, conns={g: conn})
    mesh = gen.to_mesh(raw2)
    dom = fem.FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    f = fem.Field.from_args('f', np.float64, 'scalar', om, approx_order=1)
    integral = Integral('i', order=2)
    geo, _ = f.get_mapping(om, integral, 'cell')
    mon.ok('warp', (np.asarray(geo.det) > 0).all(), 'valid mesh')
    # Move a vertex through the opposite facet.
    X = mesh.coors.copy()
    v = int(c[rng.randint(len(c))])
    cell = X[c].mean(0)
    X[v] = X[v] + 3.0 * (cell - X[v])
    _, J = fe.mapped(g, X, np.asarray(dom.get_conn(tdim=dom.shape.tdim)),
                     integral.get_qp(g)[0])
    if fe.measure(J).min() < -1e-6:
        mesh2 = fem.Mesh.from_data('b', X, None, [conn.astype(np.int32)],
                                   [np.zeros(len(conn), np.int32)], [g])
        try:
            d2 = fem.FEDomain('d2', mesh2)
        except RuntimeError:
            # Also a way of saying that the mesh is not valid.
            mon.event('warp')
            return
        o2 = d2.create_region('Omega', 'all')
        f2 = fem.Field.from_args('f', np.float64, 'scalar', o2, approx_order=1)
        conn2 = np.asarray(d2.get_conn(tdim=d2.shape.tdim))
        _, J = fe.mapped(g, X, conn2, integral.get_qp(g)[0])
        if fe.measure(J).min() < -1e-6:
            mon.raises('warp', ValueError, f2.get_mapping, o2, integral, 'cell',
                       msg='inverted cell')

def run_terms(mon, case):
    """Integrals of constants and fluxes through evaluation terms."""
    from sfepy.discrete import Integral, FieldVariable, Material
    from sfepy.terms import Term
    rng = gen.rngof(case)
    planar = rng.rand() < 0.7
    raw = make(rng, case['mesh'], jitter=0.0 if planar else 0.25)
    g, _ = conn_of(raw)
    X = raw['coors']
    dim = X.shape[1]
    order = order_of(rng, g)
    dom, om, f = domain_field(raw, order, shape='vector')
    conn = np.asarray(dom.get_conn(tdim=dom.shape.tdim))
    gamma = dom.create_region('Gamma', 'vertices of surface', 'facet')
    sub, sel = cells_region(dom, rng, len(conn), 'Sub')
    u = FieldVariable('u', 'parameter', f, primary_var_name='(set-to-None)')
    integral = Integral('i', order=max(2 * order, 4))
    def ev(text, reg, mode='eval', **kw):
        t = Term.new(text, integral, reg, u=u, **kw)
        t.setup()
        return t.evaluate(mode=mode, term_mode=kw.get('term_mode'))
    Pe, We = fe.rule(g, 4)
    vols = (fe.measure(fe.mapped(g, X, conn, Pe)[1]) * We).sum(1)
    u.set_constant(1.0)
    mon.close('terms', ev('ev_volume(u)', om), vols.sum(), rtol=1e-10)
    mon.close('terms', ev('ev_volume(u)', sub), vols[sel].sum(), rtol=1e-10)
    mon.close('terms', np.asarray(ev('ev_integrate(u)', sub)).ravel(),
              np.full(dim, vols[sel].sum()), rtol=1e-10)
    mon.close('terms', np.asarray(ev('ev_integrate(u)', sub, 'el_avg')).ravel(),
              np.ones(dim * len(sel)), rtol=1e-10)
    fis = np.asarray(gamma.get_facet_indices())
    fg = [fe.facet_geometry(X, conn[c], g, l) for c, l in fis]
    areas = np.array([(np.linalg.norm(n, axis=1) * w).sum() for y, n, w in fg])
    nonpl = g == '3_8' and not planar
    mon.close('terms', ev('ev_volume(u)', gamma), areas.sum(),
              rtol=1e-10 if not nonpl else 0.05)
    mon.close('terms', np.asarray(ev('ev_volume_surface(u)', gamma)), vols.sum(),
              rtol=1e-9, scale=vols.sum() + areas.sum() * np.abs(X).max(),
              msg='volume by surface integral')
    # Surface moment.
    x0 = rng.randn(dim)
    m = Material('m', values={'.x0': x0})
    if dim > 1:
        t = Term.new('ev_surface_moment(m.x0, u)', integral, gamma, m=m, u=u)
        t.setup()
        val = np.asarray(t.evaluate(mode='eval'))
        mom = sum(np.einsum('qi,qj,q->ij', n, y - x0, w) for y, n, w in fg)
        mon.close('terms', val, mom, rtol=1e-9, scale=np.abs(mom).max() + areas.sum(),
                  msg='surface moment')
    # Fluxes of a linear field.
    A, b = rng.randn(dim, dim), rng.randn(dim)
    u.set_data((f.get_coor() @ A.T + b).ravel())
    flux = np.array([np.einsum('qi,qi,q->', y @ A.T + b, n, w) for y, n, w in fg])
    def evf(mode):
        t = Term.new('ev_integrate(u)', integral, gamma, u=u)
        t.setup()
        return np.asarray(t.evaluate(mode=mode, term_mode='flux'))
    sc = np.abs(flux).max() + areas.max() * np.abs(u()).max()
    mon.close('flux', np.ravel(evf('eval')), [flux.sum()], rtol=1e-9, scale=sc * len(fis),
              msg='flux')
    if not nonpl:
        mon.close('flux', evf('el_avg').ravel(), flux / areas, rtol=1e-9,
                  scale=sc / areas.min(), msg='average flux')
    qf = evf('qp')
    setup_surface(f, gamma)
    geo, _ = f.get_mapping(gamma, integral, 'facet')
    det = np.asarray(geo.det)
    mon.ok('flux', qf.shape[:2] == det.shape[:2], 'shape of the flux in QPs %s' % (qf.shape,))
    mon.close('flux', (qf * det).sum((1, 2, 3)), flux, rtol=1e-9, scale=sc, msg='flux in QPs')
    mon.close('flux', flux.sum(), np.trace(A) * vols.sum(), rtol=1e-9, scale=sc * len(fis))
    mon.sig('terms', g, order, planar)
