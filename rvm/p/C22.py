"""C22: Constitutive and tensor algebra identities hold.

Monitor: Random admissible materials, tensors, rotations, unit systems, arrays, simplices and contact bodies are passed
to the public functions.  Elastic constants are decided against the defining relations and the other constants, stiffness
matrices against the stresses they produce for strains in the full storage, plane reductions against the eliminated
three-dimensional law, transformations against explicit sums over full tensors, units against a dimensional analysis, and
the linear algebra helpers against their definitions evaluated item by item.
"""
import itertools
import numpy as np
from rvm import gen

REQUIRED = ['constants', 'stiffness', 'rotation', 'orthotropic', 'plane', 'piezo', 'storage', 'invariants', 'vectors', 'fourth order',
            'cylindrical', 'stress', 'prefix', 'unit set', 'multipliers', 'dot', 'rows', 'assemble', 'blocks', 'sparse', 'insert',
            'circumcentre', 'barycentric', 'polygon', 'tube', 'plane body', 'sphere body', 'membrane', 'shell', 'inverse mapping']
ASSUMPTIONS = ['admissible isotropic materials have positive Young and bulk moduli; where a pair of constants admits two materials, '
               'any of them is accepted',
               'the unit multipliers of a quantity follow from its dimension in time, length and mass']

def cases(rng, tier):
    n = 40 if tier == "quick" else 1500
    out = []
    for kind, k in (('elastic', 3), ('plane', 2), ('tensors', 3), ('transform', 2), ('stress', 2), ('units', 2), ('arrays', 3),
                    ('geometry', 3), ('sparse', 2), ('bodies', 2), ('shells', 2)):
        out += [dict(kind=kind) for _ in range(n * k)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

VOIGT = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

def full(v):
    """Full symmetric tensors of vectors in the last axis."""
    v = np.asarray(v)
    dim = {1: 1, 3: 2, 6: 3}[v.shape[-1]]
    out = np.zeros(v.shape[:-1] + (dim, dim), dtype=v.dtype)
    for k, (i, j) in enumerate(VOIGT[dim]):
        out[..., i, j] = out[..., j, i] = v[..., k]
    return out

def vec(t):
    return np.stack([t[..., i, j] for i, j in VOIGT[t.shape[-1]]], axis=-1)

def strain(t):
    """Engineering shear strains."""
    return np.stack([t[..., i, j] * (1 if i == j else 2) for i, j in VOIGT[t.shape[-1]]], axis=-1)

def full4(d):
    dim = {3: 2, 6: 3, 1: 1}[d.shape[-1]]
    out = np.zeros(d.shape[:-2] + (dim,) * 4)
    for a, (i, j) in enumerate(VOIGT[dim]):
        for b, (k, l) in enumerate(VOIGT[dim]):
            for p, q in ((i, j), (j, i)):
                for r, s in ((k, l), (l, k)):
                    out[..., p, q, r, s] = d[..., a, b]
    return out

def rotation(rng, dim=3):
    q, r = np.linalg.qr(rng.randn(dim, dim))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q

def batch(rng):
    return [(), (1,), (4,), (2, 3), (2, 1, 3)][rng.randint(5)]

def isotropic(rng, shape=()):
    nu = rng.uniform(-0.8, 0.49, shape) if rng.rand() < 0.4 else rng.uniform(0.02, 0.48, shape)
    E = 10**rng.uniform(-3, 9) * (0.5 + rng.rand(*shape))
    return E, nu

def constants(E, nu):
    lam = E * nu / ((1 + nu) * (1 - 2 * nu))
    mu = E / (2 * (1 + nu))
    return dict(young=E, poisson=nu, lam=lam, mu=mu, bulk=lam + 2 * mu / 3, p_wave=lam + 2 * mu)

def sig(mon, kind, *a):
    mon.sig(kind, *a)

def run_elastic(mon, case):
    from sfepy.mechanics import matcoefs as mc
    rng = gen.rngof(case)
    sh = batch(rng)
    E, nu = isotropic(rng, sh)
    c = constants(E, nu)
    lam, mu = mc.lame_from_youngpoisson(E, nu)
    mon.close('lame', lam, c['lam'], 1e-11, 0, msg='lame_from_youngpoisson')
    mon.close('lame', mu, c['mu'], 1e-11, 0, msg='lame_from_youngpoisson')
    mon.close('bulk', mc.bulk_from_lame(lam, mu), c['bulk'], 1e-11, 1e-11 * np.max(mu), msg='bulk_from_lame')
    mon.close('bulk', mc.bulk_from_youngpoisson(E, nu), c['bulk'], 1e-11, 1e-11 * np.max(mu), msg='bulk_from_youngpoisson')
    rho = 0.5 + rng.rand(*sh)
    vp, vs = mc.wave_speeds_from_youngpoisson(E, nu, rho)
    mon.close('waves', vp, np.sqrt(c['p_wave'] / rho), 1e-11, msg='P-wave speed')
    mon.close('waves', vs, np.sqrt(c['mu'] / rho), 1e-11, msg='S-wave speed')
    E2, nu2 = mc.youngpoisson_from_wave_speeds(vp, vs, rho)
    mon.close('waves', E2, E, 1e-9, msg='E from wave speeds')
    mon.close('waves', nu2, nu, 1e-9, 1e-11, msg='nu from wave speeds')
    for dim in (1, 2, 3):
        sym = (dim + 1) * dim // 2
        D = mc.stiffness_from_lame(dim, lam, mu)
        mon.equal('shape', D.shape, sh + (sym, sym), 'shape of the stiffness')
        e = rng.randn(*(sh + (dim, dim)))
        e = e + np.swapaxes(e, -1, -2)
        lm, mm = np.asarray(lam)[..., None, None], np.asarray(mu)[..., None, None]
        s = lm * np.trace(e, axis1=-2, axis2=-1)[..., None, None] * np.eye(dim) + 2 * mm * e
        got = np.einsum('...ij,...j->...i', D, strain(e))
        mon.close('stiffness', got, vec(s), 1e-10, 1e-11 * abs(s).max(), msg='stress from the stiffness in %dD' % dim)
        mon.close('stiffness', D, np.swapaxes(D, -1, -2), 0, 0, msg='symmetry of the stiffness')
        mon.ok('positive', bool((np.linalg.eigvalsh(D) > 0).all()) or dim == 3 and np.max(np.abs(nu)) > 0.49,
               'stiffness in %dD is not positive definite' % dim)
        plane = str(rng.choice(['strain', 'stress']))
        mon.close('pair', mc.stiffness_from_youngpoisson(dim, E, nu), D, 1e-10, 1e-12 * abs(D).max(), msg='stiffness from another pair')
        M = mc.stiffness_from_lame_mixed(dim, lam, mu)
        one = np.zeros(sym)
        one[:dim] = 1
        K = np.asarray(c['bulk'])[..., None, None]
        mon.close('mixed', M + K * np.outer(one, one), D, 1e-10, 1e-11 * abs(D).max(), msg='recombined mixed split')
        Dp = mc.stiffness_from_youngpoisson(dim, E, nu, plane=plane)
        Mp = mc.stiffness_from_youngpoisson_mixed(dim, E, nu, plane=plane)
        Kp = np.asarray(mc.bulk_from_youngpoisson(E, nu, plane=plane))[..., None, None]
        mon.close('mixed', Mp + Kp * np.outer(one, one), Dp, 1e-10, 1e-11 * abs(Dp).max(), msg='recombined mixed split, plane %s' % plane)
        if dim > 1:
            l2, m2 = mc.lame_from_stiffness(Dp, plane=plane)
            mon.close('inverse', l2, lam, 1e-8, 1e-9 * np.max(mu), msg='lame from the stiffness, plane %s' % plane)
            mon.close('inverse', m2, mu, 1e-10, msg='mu from the stiffness, plane %s' % plane)
            E2, nu2 = mc.youngpoisson_from_stiffness(Dp, plane=plane)
            mon.close('inverse', E2, E, 1e-8, msg='E from the stiffness, plane %s' % plane)
            mon.close('inverse', nu2, nu, 1e-8, 1e-9, msg='nu from the stiffness, plane %s' % plane)
            Q = rotation(rng, dim)
            t4 = np.einsum('...pqrs,ip,jq,kr,ls->...ijkl', full4(D), Q, Q, Q, Q)
            mon.close('isotropy', t4, full4(D), 1e-10, 1e-11 * abs(D).max(), msg='rotated isotropic stiffness')
            mon.event('rotation')
        mon.event('stiffness')
    # All pairs of constants.
    E, nu = isotropic(rng)
    c = {k: float(v) for k, v in constants(E, nu).items()}
    unit = float(np.max(np.abs([c['bulk'], c['mu']])))
    pair = sorted(rng.choice(sorted(c), 2, replace=False))
    ec = mc.ElasticConstants(**{k: c[k] for k in pair})
    for again in range(2):
        got = {k: getattr(ec, k) for k in c}
        real = all(np.isreal(v) and np.isfinite(v) for v in got.values())
        mon.ok('constants', real, '%s gives %r' % (pair, got))
        if real:
            for k in pair:
                mon.close('constants', got[k], c[k], 1e-12, msg='the given %s' % k)
            e2 = constants(got['young'], got['poisson'])
            for k in c:
                mon.close('constants', got[k], e2[k], 1e-6, 1e-7 * (1 if k == 'poisson' else unit), msg='%s from %s does not agree with E, nu' % (k, pair))
            if pair != ['p_wave', 'young']:
                for k in c:
                    mon.close('constants', got[k], c[k], 1e-6, 1e-7 * (1 if k == 'poisson' else unit), msg='%s from %s' % (k, pair))
            names = list(rng.permutation(sorted(c)))
            mon.equal('get', ec.get(names), [got[n] for n in names], 'ElasticConstants.get()')
        E, nu = isotropic(rng)
        c = {k: float(v) for k, v in constants(E, nu).items()}
        unit = float(np.max(np.abs([c['bulk'], c['mu']])))
        pair = sorted(rng.choice(sorted(c), 2, replace=False))
        ec.init(**{k: c[k] for k in pair})
    for k in (0, 1, 3):
        mon.raises('constants', ValueError, mc.ElasticConstants, **{n: c[n] for n in sorted(c)[:k]}, msg='%d constants' % k)
    mon.event('constants')
    # Orthotropic materials: uniaxial and shear tests.
    y = 1 + 3 * rng.rand(3)
    p = rng.uniform(-0.2, 0.35, 3)
    g = 0.3 + rng.rand(3)
    D = mc.stiffness_from_yps_ortho3(y, p, g)
    mon.close('orthotropic', D, D.T, 0, 1e-12 * abs(D).max(), msg='symmetry of the orthotropic stiffness')
    for i in range(3):
        e = np.linalg.solve(D, np.eye(6)[i])
        mon.close('orthotropic', e[i], 1 / y[i], 1e-10, msg='Young modulus %d' % i)
        for q, (a, b) in enumerate(((0, 1), (0, 2), (1, 2))):
            if i == a:
                mon.close('orthotropic', -e[b] / e[a], p[q], 1e-9, 1e-12, msg='Poisson ratio %d%d' % (a, b))
        e = np.linalg.solve(D, np.eye(6)[3 + i])
        mon.close('orthotropic', e, np.eye(6)[3 + i] / g[i], 1e-10, 1e-12, msg='shear modulus %d' % i)
    E, nu = isotropic(rng)
    mon.close('orthotropic', mc.stiffness_from_yps_ortho3([E] * 3, [nu] * 3, [E / (2 * (1 + nu))] * 3), mc.stiffness_from_youngpoisson(3, E, nu),
              1e-7, 1e-9 * E, msg='orthotropic isotropic material')
    mon.event('orthotropic')
    sig(mon, 'elastic', len(sh), *pair)

def run_plane(mon, case):
    from sfepy.mechanics import matcoefs as mc
    rng = gen.rngof(case)
    ip = [[0, 1], [0, 2], [1, 2]][rng.randint(3)]
    A = rng.randn(6, 6)
    C = A @ A.T + 2 * np.eye(6)
    tp = mc.TransformToPlane(ip if rng.rand() < 0.8 or ip != [0, 1] else None)
    inpl = [k for k, (i, j) in enumerate(VOIGT[3]) if i in ip and j in ip]
    outp = [k for k in range(6) if k not in inpl]
    c2 = tp.tensor_plane_stress(C)
    e = rng.randn(3)
    full_e = np.zeros(6)
    full_e[inpl] = e
    full_e[outp] = np.linalg.solve(C[np.ix_(outp, outp)], -C[np.ix_(outp, inpl)] @ e)
    s = C @ full_e
    mon.close('stress', s[outp], 0 * s[outp], 0, 1e-10 * abs(s).max(), msg='harness')
    mon.close('plane', c2 @ e, s[inpl], 1e-9, 1e-10 * abs(s).max(), msg='plane stress in %s' % ip)
    E, nu = isotropic(rng)
    mon.close('plane', tp.tensor_plane_stress(mc.stiffness_from_youngpoisson(3, E, nu)), mc.stiffness_from_youngpoisson(2, E, nu, plane='stress'),
              1e-7, 1e-9 * E, msg='plane stress of an isotropic material')
    mon.event('plane')
    # The piezoelectric law s = C e - B^T E, D = B e + d E with s = 0 and D = 0 out of plane.
    B = rng.randn(3, 6) * (rng.rand() < 0.8)
    d = rng.randn(3, 3)
    d = d @ d.T + np.eye(3)
    if rng.rand() < 0.3:
        d = np.diag(np.diag(d))
    c2, d2, b2 = tp.tensor_plane_stress(C, d, B)
    om = [i for i in range(3) if i not in ip]
    L = np.block([[C, -B.T], [B, d]])
    I = inpl + [6 + i for i in ip]
    O = outp + [6 + i for i in om]
    x = np.zeros(9)
    x[I] = rng.randn(5)
    x[O] = np.linalg.solve(L[np.ix_(O, O)], -L[np.ix_(O, I)] @ x[I])
    y = L @ x
    sc = abs(y).max()
    mon.close('piezo', c2 @ x[I][:3] - b2.T @ x[I][3:], y[I][:3], 1e-8, 1e-9 * sc, msg='plane piezoelectric stress in %s' % ip)
    mon.close('piezo', b2 @ x[I][:3] + d2 @ x[I][3:], y[I][3:], 1e-8, 1e-9 * sc, msg='plane electric displacement in %s' % ip)
    mon.event('piezo')
    sig(mon, 'plane', tuple(ip))

def run_tensors(mon, case):
    from sfepy.mechanics import tensors as mt
    rng = gen.rngof(case)
    dim = 2 + rng.randint(2)
    n = 1 + rng.randint(5)
    for k in range(1, 8):
        mon.equal('sizes', mt.sym2dim(mt.dim2sym(k)), k, 'sym2dim')
        mon.equal('sizes', mt.dim2sym(k), k * (k + 1) // 2, 'dim2sym')
    v = rng.randn(n, len(VOIGT[dim])) * 10**rng.uniform(-3, 3)
    t = full(v)
    mon.close('storage', v[:, mt.get_full_indices(dim)], t, 0, 0, msg='full storage')
    mon.close('storage', t.reshape(n, -1)[:, mt.get_sym_indices(dim)], v, 0, 0, msg='symmetric storage')
    i1, i2 = mt.get_non_diagonal_indices(dim)
    g = rng.randn(n, dim, dim)
    gf = g.reshape(n, -1)
    mon.close('storage', np.sort(np.c_[gf[:, i1], gf[:, i2]], axis=1), np.sort(gf[:, [k for k in range(dim * dim) if k // dim != k % dim]], axis=1),
              0, 0, msg='non-diagonal indices')
    mon.close('storage', gf[:, i2], np.swapaxes(g, 1, 2).reshape(n, -1)[:, i1], 0, 0, msg='non-diagonal pairs')
    d = rng.randn(len(VOIGT[dim]), len(VOIGT[dim]))
    mon.close('storage', mt.get_t4_from_t2s(d), full4(d), 0, 0, msg='fourth order tensor')
    mon.event('storage')
    ns = rng.randn(n, dim, dim)
    tr = np.trace(t, axis1=1, axis2=2)
    sc = abs(v).max()
    mon.close('trace', mt.get_trace(v), tr, 1e-12, 1e-13 * sc, msg='trace')
    mon.close('trace', mt.get_trace(ns, sym_storage=False), np.trace(ns, axis1=1, axis2=2), 1e-12, 1e-13, msg='trace of full tensors')
    vol = tr[:, None, None] / dim * np.eye(dim)
    mon.close('volumetric', mt.get_volumetric_tensor(v), vec(vol), 1e-12, 1e-13 * sc, msg='volumetric part')
    mon.close('volumetric', mt.get_volumetric_tensor(t, sym_storage=False), vol, 1e-12, 1e-13 * sc, msg='volumetric part of full tensors')
    mon.close('deviator', mt.get_deviator(v), vec(t - vol), 1e-12, 1e-13 * sc, msg='deviator')
    mon.close('deviator', mt.get_deviator(t, sym_storage=False), t - vol, 1e-12, 1e-13 * sc, msg='deviator of full tensors')
    s3 = np.zeros((n, 3, 3))
    s3[:, :dim, :dim] = t
    dv = s3 - np.trace(s3, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
    vm = np.sqrt(1.5 * np.einsum('aij,aij->a', dv, dv))[:, None]
    mon.close('mises', mt.get_von_mises_stress(v), vm, 1e-10, 1e-12 * sc, msg='von Mises stress')
    mon.close('mises', mt.get_von_mises_stress(t, sym_storage=False), vm, 1e-10, 1e-12 * sc, msg='von Mises stress of full tensors')
    Q = rotation(rng, dim)
    r = Q @ t @ Q.T
    mon.close('mises', mt.get_von_mises_stress(vec(r)), vm, 1e-9, 1e-11 * sc, msg='von Mises stress of rotated tensors')
    for dm in (1, 2, 3):
        g = rng.randn(n, dm, dm)
        if rng.rand() < 0.2:
            g = g + 1j * rng.randn(n, dm, dm)
        e = 0.5 * (g + np.swapaxes(g, 1, 2))
        mon.close('strain', mt.get_cauchy_strain(g)[..., 0], strain(e), 1e-12, 1e-13, msg='Cauchy strain in %dD' % dm)
    mon.event('invariants')
    sig(mon, 'tensors', dim, n)

def run_transform(mon, case):
    from sfepy.mechanics import tensors as mt
    from sfepy.linalg import make_axis_rotation_matrix, rotation_matrix2d
    rng = gen.rngof(case)
    n = 1 + rng.randint(6)
    M = np.array([rotation(rng) for _ in range(n)])
    v = rng.randn(n, 3)
    mon.close('vectors', mt.transform_data(v, mtx=M), np.einsum('aij,aj->ai', M, v), 1e-12, 1e-13, msg='transformed vectors')
    mon.close('vectors', mt.transform_data(v[..., None], mtx=M)[..., 0], np.einsum('aij,aj->ai', M, v), 1e-12, 1e-13, msg='transformed vectors')
    t = rng.randn(n, 6)
    ref = vec(np.einsum('aip,ajq,apq->aij', M, M, full(t)))
    mon.close('tensors', mt.transform_data(t, mtx=M), ref, 1e-11, 1e-12, msg='transformed tensors')
    mon.close('tensors', mt.transform_data(t[..., None], mtx=M)[..., 0], ref, 1e-11, 1e-12, msg='transformed tensors')
    mon.event('vectors')
    d = rng.randn(n, 6, 6)
    f4 = np.einsum('aip,ajq,akr,als,apqrs->aijkl', M, M, M, M, full4(d))
    ref = np.stack([vec(np.moveaxis(f4[:, i, j], 0, 0)) for i, j in VOIGT[3]], axis=1)
    mon.close('fourth', mt.transform_data(d, mtx=M), ref, 1e-10, 1e-11, msg='transformed fourth order tensors')
    mon.event('fourth order')
    # The cylindrical coordinates.
    x = rng.randn(n, 3)
    if rng.rand() < 0.3:
        x[0, rng.randint(2)] = 0.0
    org = rng.randn(3)
    for o, mode in ((org, 'axes'), (org, 'data'), (np.zeros(3), 'axes')):
        mm = mt.prepare_cylindrical_transform(x, o, mode=mode)
        rel = x - o
        th = np.arctan2(rel[:, 1], rel[:, 0])
        z = 0 * th
        er = np.stack([np.cos(th), np.sin(th), z], axis=1)
        et = np.stack([-np.sin(th), np.cos(th), z], axis=1)
        ref = np.stack([er, et, np.tile([0, 0, 1.0], (n, 1))], axis=1)
        if mode == 'data':
            ref = np.swapaxes(ref, 1, 2)
        mon.close('cylindrical', mm, ref, 1e-12, 1e-12, msg='cylindrical transformation, mode %s' % mode)
    er0 = x[:, :2] / np.linalg.norm(x[:, :2], axis=1)[:, None]
    got = mt.transform_data(v, coors=x)
    mon.close('cylindrical', got[:, 0], (v[:, :2] * er0).sum(1), 1e-11, 1e-12, msg='radial components')
    mon.close('cylindrical', got[:, 2], v[:, 2], 1e-12, 1e-13, msg='axial components')
    got = mt.transform_data(t, coors=x)
    mon.close('cylindrical', got[:, 0], np.einsum('ai,aij,aj->a', er0, full(t)[:, :2, :2], er0), 1e-11, 1e-12, msg='radial normal components')
    mon.raises('errors', ValueError, mt.transform_data, v, msg='no coordinates nor matrix')
    mon.raises('errors', ValueError, mt.transform_data, np.zeros((n, 4)), mtx=M, msg='a wrong shape')
    mon.raises('errors', ValueError, mt.transform_data, np.zeros((n + 1, 3)), mtx=M, msg='a wrong number of points')
    mon.event('cylindrical')
    ax = rng.randn(3) * 10**rng.uniform(-2, 2)
    al = rng.uniform(-7, 7)
    R = make_axis_rotation_matrix(ax, al)
    u = ax / np.linalg.norm(ax)
    w = rng.randn(3)
    rot = u * (u @ w) + np.cos(al) * (w - u * (u @ w)) + np.sin(al) * np.cross(u, w)
    mon.close('axis', R.T @ w, rot, 1e-11, 1e-12, msg='vector given in the rotated system')
    mon.close('axis', R @ R.T, np.eye(3), 1e-12, 1e-13, msg='orthogonality')
    a = rng.uniform(-400, 400)
    r2 = rotation_matrix2d(a)
    p = rng.randn() + 1j * rng.randn()
    q = p * np.exp(1j * np.deg2rad(a))
    mon.close('axis', r2 @ [p.real, p.imag], np.array([q.real, q.imag]), 1e-11, 1e-12, msg='plane rotation')
    sig(mon, 'transform', n)

def run_stress(mon, case):
    from sfepy.mechanics.tensors import StressTransform
    rng = gen.rngof(case)
    dim = 2 + rng.randint(2)
    ne, nq = 1 + rng.randint(4), 1 + rng.randint(4)
    F = np.eye(dim) + 0.3 * rng.randn(ne, nq, dim, dim)
    J = np.linalg.det(F)
    F[J < 0.05] = np.eye(dim)
    J = np.linalg.det(F)
    S = rng.randn(ne, nq, len(VOIGT[dim]), 1) * 10**rng.uniform(-2, 6)
    st = StressTransform(F, jacobian=None if rng.rand() < 0.5 else J[..., None, None])
    Sf = full(S[..., 0])
    sc = abs(S).max()
    mon.close('first', st.get_1pk_from_2pk(S), np.einsum('eqik,eqkj->eqij', F, Sf), 1e-10, 1e-11 * sc, msg='first Piola-Kirchhoff stress')
    ref = np.einsum('eqik,eqkl,eqjl->eqij', F, Sf, F) / J[..., None, None]
    mon.close('cauchy', st.get_cauchy_from_2pk(S)[..., 0], vec(ref), 1e-10, 1e-10 * sc, msg='Cauchy stress')
    mon.event('stress')
    # Superposed rotations.
    Q = rotation(rng, dim)
    st2 = StressTransform(Q @ F)
    mon.close('objective', full(st2.get_cauchy_from_2pk(S)[..., 0]), Q @ ref @ Q.T, 1e-9, 1e-9 * sc, msg='Cauchy stress after a rigid rotation')
    sig(mon, 'stress', dim, ne, nq)

DIMS = dict(one=(0, 0, 0), time=(1, 0, 0), length=(0, 1, 0), mass=(0, 0, 1), frequency=(-1, 0, 0), wave_number=(0, -1, 0), velocity=(-1, 1, 0),
            acceleration=(-2, 1, 0), density=(0, -3, 1), force=(-2, 1, 1), stress=(-2, -1, 1), dyn_viscosity=(-1, -1, 1),
            compressibility=(2, 1, -1), energy=(-2, 2, 1))
SI = dict(p=1e-12, n=1e-9, mu=1e-6, m=1e-3, c=1e-2, d=1e1, k=1e3, M=1e6, G=1e9, T=1e12)
SI[''] = 1.0
QDIM = dict(density=(0, -3, 1, 0), force=(-2, 1, 1, 0), stress=(-2, -1, 1, 0), energy=(-2, 2, 1, 0), thermal_expandability=(-2, -1, 1, -1))
QSYM = dict(density='kg / m**3', force='Newton', stress='Pa', energy='J', thermal_expandability='Pa / C')

def run_units(mon, case):
    from sfepy.mechanics import units as mu
    rng = gen.rngof(case)
    names = [k for k in SI if k]
    for _ in range(6):
        p = str(rng.choice(names + ['']))
        b = str(rng.choice(['m', 'g', 's', 'Pa', 'N', 'C']))
        if p == '' and b in ('m',) or p + b in ('mus',) and False:
            pass
        u = mu.Unit(p + b)
        mon.equal('unit', (u.prefix, u.unit), (p, b), 'parts of %s' % (p + b))
        mon.close('unit', u.coef, SI[p], 1e-13, msg='coefficient of %s' % (p + b))
    for _ in range(6):
        coef = 10**rng.uniform(-14, 14)
        omit = None if rng.rand() < 0.4 else [str(k) for k in rng.choice(names, rng.randint(1, 6), replace=False)]
        bias = float(rng.choice([0.1, 1.0, 0.01]))
        p, m = mu.Unit.get_prefix(coef, bias=bias, omit=omit)
        mon.ok('prefix', p in SI and p not in (omit or ()), 'prefix %r, omitted %r' % (p, omit))
        if p in SI:
            mon.close('prefix', m * SI[p], coef, 1e-12, msg='multiplied prefix')
        mon.event('prefix')
    us = dict(length=str(rng.choice(['', 'm', 'c', 'mu', 'k', 'd'])) + 'm', time=str(rng.choice(['', 'm', 'mu', 'k'])) + 's',
              mass=str(rng.choice(['', 'k', 'm', 'M'])) + 'g', temperature=str(rng.choice(['C', 'mC'])))
    scale = np.array([SI[us['time'][:-1]], SI[us['length'][:-1]], SI[us['mass'][:-1]] / 1e3, SI[us['temperature'][:-1]]])
    keep = [k for k in us if rng.rand() < 0.8]
    for k, d in (('time', 0), ('length', 1), ('mass', 2), ('temperature', 3)):
        if k not in keep:
            scale[d] = 1.0
    out = mu.get_consistent_unit_set(**{k: us[k] for k in keep})
    mon.equal('unit set', sorted(out), sorted(QDIM), 'derived quantities')
    full_set = [mu.Unit(us[k] if k in keep else mu.default_units_of_basic_quantities[k]) for k in ('length', 'time', 'mass', 'temperature')]
    for q, s in sorted(out.items()):
        ref = float(np.prod(scale ** np.array(QDIM[q])))
        qq = mu.Quantity(q, full_set)
        mon.close('unit set', qq.coef, ref, 1e-10, msg='coefficient of %s in %s' % (q, us))
        for txt, pr in [(s, None), (qq(), None)] + [(qq(p), p) for p in ('m', '', 'k', 'M')]:
            num, rest = txt.split(' ', 1)
            okk = rest.endswith(QSYM[q]) and rest[:len(rest) - len(QSYM[q])] in SI
            mon.ok('unit set', okk, 'the unit %r of %s' % (txt, q))
            if okk:
                p = rest[:len(rest) - len(QSYM[q])]
                mon.close('unit set', float(num) * SI[p], ref, 1e-9, msg='%s given as %r in %s' % (q, txt, us))
                if pr is not None:
                    mon.equal('unit set', p, pr, 'the requested prefix')
    mon.event('unit set')
    mult = 10**rng.uniform(-6, 6, 3)
    kinds = [str(k) for k in rng.permutation(sorted(DIMS))[:1 + rng.randint(len(DIMS))]]
    vals = [float(rng.randn()) if rng.rand() < 0.5 else (rng.randn(3) if rng.rand() < 0.5 else [1, 2.5]) for _ in kinds]
    new = mu.apply_unit_multipliers(vals, kinds, mult)
    for v, k, w in zip(vals, kinds, new):
        mon.close('multipliers', w, np.asarray(v) / np.prod(mult ** np.array(DIMS[k])), 1e-10, msg='%s in new units' % k)
    pars = {'p%d' % i: v for i, v in enumerate(vals)}
    np2 = mu.apply_units_to_pars(pars, {'p%d' % i: k for i, k in enumerate(kinds)}, mult)
    mon.equal('multipliers', list(np2), list(pars), 'names of parameters')
    for i, w in enumerate(new):
        mon.close('multipliers', np2['p%d' % i], w, 1e-12, msg='parameters in new units')
    mon.event('multipliers')
    sig(mon, 'units', *[us[k] if k in keep else '-' for k in sorted(us)])

def run_arrays(mon, case):
    from sfepy.linalg import utils as lu
    rng = gen.rngof(case)
    a = rng.randn(1 + rng.randint(6), 1 + rng.randint(5)) * 10**rng.uniform(-2, 2)
    ni = None if rng.rand() < 0.5 else 1 + rng.randint(6)
    ax = rng.randint(2)
    b = a if ni is None else (a[:, :ni] if ax == 1 else a[:ni])
    ref = np.sqrt((b**2).sum(axis=ax))
    mon.close('norm', lu.norm_l2_along_axis(a, axis=ax, n_item=ni), ref, 1e-12, msg='norms')
    mon.close('norm', lu.norm_l2_along_axis(a, axis=ax, n_item=ni, squared=True), ref**2, 1e-12, msg='squared norms')
    c = np.r_[a, np.zeros((1, a.shape[1]))]
    d = c.copy()
    lu.normalize_vectors(d)
    mon.close('norm', d[:-1] * np.linalg.norm(c[:-1], axis=1)[:, None], c[:-1], 1e-11, 1e-12, msg='normalized vectors')
    mon.close('norm', d[-1], c[-1], 0, 0, msg='a normalized zero vector')
    n = 1 + rng.randint(3)
    m = rng.randn(1 + rng.randint(3), 1 + rng.randint(4), n, n) + 1.5 * np.eye(n)
    if rng.rand() < 0.2:
        m = m + 1j * rng.randn(*m.shape)
    det = np.array([[np.linalg.det(x) for x in r] for r in m])
    mon.close('dets', lu.dets_fast(m[0]), det[0], 1e-9, 1e-11, msg='determinants')
    if abs(det).min() > 1e-3:
        inv = lu.invs_fast(m, det=None if rng.rand() < 0.5 else det)
        ref = np.array([[np.linalg.inv(x) for x in r] for r in m])
        mon.close('dets', inv, ref, 1e-8, 1e-9 * abs(ref).max(), msg='inverses')
    # Dot products.
    bs = [(), (3,), (2, 3)][rng.randint(1, 3)]
    p, q, r = 1 + rng.randint(4, size=3)
    for mode in ('AB', 'ATB', 'ABT', 'ATBT'):
        x, y = rng.randn(*(bs + (p, q))), rng.randn(*(bs + (q, r)))
        ref = np.einsum('...ij,...jk->...ik', x, y)
        xx = np.swapaxes(x, -1, -2) if 'AT' in mode else x
        yy = np.swapaxes(y, -1, -2) if 'BT' in mode else y
        if rng.rand() < 0.5:
            xx, yy = xx.copy(), yy.copy()
        mon.close('dot', lu.dot_sequences(xx, yy, mode=mode), ref, 1e-12, 1e-12, msg='dot_sequences, mode %s' % mode)
        v = rng.randn(*(bs + (q,)))
        mon.close('dot', lu.dot_sequences(xx, v, mode=mode), np.einsum('...ij,...j->...i', x, v), 1e-12, 1e-12,
                  msg='dot_sequences with vectors, mode %s' % mode)
    mon.event('dot')
    # Rows.
    z = rng.randint(0, 3, (rng.randint(1, 12), 1 + rng.randint(3))).astype([np.int32, np.int64, np.float64][rng.randint(3)])
    if rng.rand() < 0.3:
        z = np.asfortranarray(z)
    u, idx, inv = lu.unique_rows(z, return_index=True, return_inverse=True)
    ref = np.array(sorted(set(map(tuple, z.tolist()))), dtype=z.dtype).reshape(-1, z.shape[1])
    mon.equal('rows', u.tolist(), ref.tolist(), 'unique rows')
    mon.equal('rows', lu.unique_rows(z).tolist(), ref.tolist(), 'unique rows')
    mon.equal('rows', z[idx].tolist(), u.tolist(), 'indices of unique rows')
    mon.equal('rows', u[np.ravel(inv)].tolist(), z.tolist(), 'inverse indices of unique rows')
    s = lu.argsort_rows(z)
    mon.equal('rows', z[s].tolist(), sorted(z.tolist()), 'sorted rows')
    perm = rng.permutation(len(z))
    im = lu.map_permutations(z, z[perm], check_same_items=True)
    mon.equal('rows', z[im].tolist(), z[perm].tolist(), 'mapped rows')
    mon.equal('rows', sorted(im), list(range(len(z))), 'mapped rows are not a permutation')
    w = z[:, 0]
    mon.equal('rows', w[lu.map_permutations(w, w[perm])].tolist(), w[perm].tolist(), 'mapped items')
    ch = 1 + rng.randint(5)
    got = list(lu.chunk_arrays([z, w], ch))
    mon.equal('rows', [len(g[0]) for g in got], [min(ch, len(z) - k) for k in range(0, len(z), ch)], 'sizes of chunks')
    mon.equal('rows', np.concatenate([g[0] for g in got]).tolist(), z.tolist(), 'chunks')
    mon.equal('rows', np.concatenate([g[1] for g in got]).tolist(), w.tolist(), 'chunks')
    mon.event('rows')
    n = 1 + rng.randint(8)
    ind = rng.randint(0, n, rng.randint(0, 15)).astype(np.int32)
    val = rng.randn(len(ind))
    if rng.rand() < 0.3:
        val = val + 1j * rng.randn(len(ind))
    o = rng.randn(n) + 0 * (val[:1].sum() if len(val) else 0)
    ref = o.copy()
    for i, v in zip(ind, val):
        ref[i] += v
    lu.assemble1d(o, ind, val)
    mon.close('assemble', o, ref, 1e-12, 1e-12, msg='assemble1d')
    mon.event('assemble')
    b = [int(k) for k in rng.randint(1, 4, 1 + rng.randint(3))]
    mon.equal('cycle', [tuple(x) for x in lu.cycle(b)], list(itertools.product(*map(range, b))), 'cycle')
    e = rng.randn(2, 3, 2)
    k, ln = rng.randint(0, 4), rng.randint(1, 4)
    mon.close('strided', lu.insert_strided_axis(e, k, ln), np.repeat(np.expand_dims(e, k), ln, axis=k), 0, 0, msg='insert_strided_axis')
    mon.close('apply', lu.apply_to_sequence(e, lambda x: np.array([x.sum(), x[0]]), 1, (2,)),
              np.stack([e.sum(-1), e[..., 0]], axis=-1), 1e-12, 1e-13, msg='apply_to_sequence')
    A = rng.randn(5, 6)
    sr, sc = [slice(0, 2), slice(2, 5)], [slice(0, 1), slice(1, 4), slice(4, 6)]
    st = lu.get_blocks_stats(A, sr, sc)
    for i, x in enumerate(sr):
        for j, y in enumerate(sc):
            bl = A[x, y]
            for nm, f in (('min', bl.min()), ('max', bl.max()), ('mean', bl.mean()), ('maxabs', abs(bl).max())):
                mon.close('blocks', st[nm][i, j], f, 1e-12, 1e-14, msg='block %s' % nm)
            mon.equal('blocks', tuple(st['shape'][i, j]), bl.shape, 'block shape')
    mon.event('blocks')
    sig(mon, 'arrays', len(bs), ni is None, ax, z.dtype.char)

def run_sparse(mon, case):
    import os, tempfile
    import scipy.sparse as sp
    from sfepy.linalg import sparse as ls
    rng = gen.rngof(case)
    nr, nc = 1 + rng.randint(3), 1 + rng.randint(3)
    rs, cs = rng.randint(1, 5, nr), rng.randint(1, 5, nc)
    fmts = [sp.csr_array, sp.coo_array, sp.csc_array, sp.csr_matrix]
    dense = [[rng.randn(r, c) * (rng.rand(r, c) < 0.6) for c in cs] for r in rs]
    zero = rng.rand(nr, nc) < 0.35
    zero.flat[rng.randint(nr * nc)] = False
    blocks = [[0 if zero[i, j] else fmts[rng.randint(4)](dense[i][j]) for j in range(nc)] for i in range(nr)]
    ref = np.block([[0 * dense[i][j] if zero[i, j] else dense[i][j] for j in range(nc)] for i in range(nr)])
    kw = {}
    lost = zero.all(axis=1).any() or zero.all(axis=0).any()
    if lost or rng.rand() < 0.4:
        mode = rng.randint(2)
        if mode:
            ro, co = np.r_[0, np.cumsum(rs)], np.r_[0, np.cumsum(cs)]
            kw = dict(row_sizes=[slice(int(a), int(b)) for a, b in zip(ro[:-1], ro[1:])],
                      col_sizes=[slice(int(a), int(b)) for a, b in zip(co[:-1], co[1:])])
        else:
            kw = dict(row_sizes=[int(k) for k in rs], col_sizes=[int(k) for k in cs])
    got = ls.compose_sparse(blocks, **kw)
    mon.equal('sparse', got.shape, ref.shape, 'shape of the composed matrix')
    if got.shape == ref.shape:
        mon.close('sparse', got.toarray(), ref, 0, 0, msg='composed matrix')
    if lost:
        mon.raises('incomplete', ValueError, ls.compose_sparse, blocks, msg='blocks of unknown sizes')
    bad = [list(r) for r in blocks]
    if nr > 1 and not zero[0].all() and not zero[:, 0].all():
        i, j = np.argwhere(~zero)[0]
        if (~zero[:, j]).sum() > 1:
            bad[i][j] = sp.csr_array(rng.randn(rs[i], cs[j] + 1))
            mon.raises('incompatible', ValueError, ls.compose_sparse, bad, msg='incompatible blocks')
    mon.event('sparse')
    # Insertion.
    n, m = rng.randint(2, 8, 2)
    big = rng.randn(n, m) * (rng.rand(n, m) < 0.8) + 0.0
    ir = np.sort(rng.choice(n, rng.randint(1, n + 1), replace=False)).astype(np.int32)
    ic = np.sort(rng.choice(m, rng.randint(1, m + 1), replace=False)).astype(np.int32)
    if rng.rand() < 0.3:
        rng.shuffle(ir), rng.shuffle(ic)
    sub = rng.randn(len(ir), len(ic)) * (rng.rand(len(ir), len(ic)) < 0.7)
    if (sub != 0).any():
        pat = big.copy()
        pat[np.ix_(ir, ic)] = np.where(sub != 0, 7.0, big[np.ix_(ir, ic)])
        csr = sp.csr_array(pat)
        csr.sort_indices()
        full_ = csr.toarray()
        exp = full_.copy()
        exp[np.ix_(ir, ic)] += sub
        s2 = fmts[rng.randint(3)](sub)
        a, b = ir, ic
        if rng.rand() < 0.3 and (np.diff(ir) == 1).all() and len(ir) > 1:
            a = slice(int(ir[0]), int(ir[-1]) + 1, 1)
        ls.insert_sparse_to_csr(csr, s2, a, b)
        mon.close('insert', csr.toarray(), exp, 1e-12, 1e-13, msg='inserted matrix')
        mon.event('insert')
    A = rng.randn(n, m) * (rng.rand(n, m) < 0.7)
    for x in (A, sp.csr_array(A), sp.csc_array(A), sp.coo_array(A)):
        mon.close('norm', ls.infinity_norm(x), abs(A).sum(1).max(), 1e-12, 1e-13, msg='infinity norm')
    fd, fn = tempfile.mkstemp()
    os.close(fd)
    try:
        for x in (sp.csr_array(A), sp.csc_array(A)):
            ls.save_sparse_txt(fn, x, fmt='%d %d %.17e\n')
            rows = [r.split() for r in open(fn)]
            mon.equal('text', [int(k) for k in rows[0] + rows[1]], [n, m, int((A != 0).sum())], 'header')
            B = np.zeros((n, m))
            for r in rows[2:]:
                B[int(r[0]), int(r[1])] += float(r[2])
            mon.close('text', B, A, 1e-15, 0, msg='saved matrix')
    finally:
        os.remove(fn)
    sig(mon, 'sparse', nr, nc, bool(lost), sorted(kw) != [])

def run_geometry(mon, case):
    from sfepy.linalg import geometry as lg
    from sfepy.discrete import PolySpace
    from sfepy.discrete.fem.geometry_element import GeometryElement
    rng = gen.rngof(case)
    dim = 1 + rng.randint(3)
    nv = 2 + rng.randint(dim)
    ns = 1 + rng.randint(4)
    c = rng.randn(ns, nv, dim)
    cc = lg.get_simplex_circumcentres(c)
    dist = np.linalg.norm(c - cc[:, None], axis=2)
    e = c[:, 1:] - c[:, :1]
    g = np.einsum('aij,akj->aik', e, e)
    good = np.linalg.cond(g) < 1e5
    if good.any():
        mon.close('circumcentre', dist[good] / dist[good].mean(1)[:, None], np.ones_like(dist[good]), 1e-6, 1e-6, msg='distances of the circumcentre')
        w = np.einsum('aij,aj->ai', e, cc - c[:, 0])
        al = np.array([np.linalg.lstsq(x.T, y, rcond=None)[0] for x, y in zip(e[good], (cc - c[:, 0])[good])])
        mon.close('circumcentre', np.einsum('ai,aij->aj', al, e[good]), (cc - c[:, 0])[good], 1e-6, 1e-6 * dist.max(), msg='the circumcentre out of plane')
        mon.event('circumcentre')
        eps = rng.uniform(0, 0.2)
        ci = lg.get_simplex_circumcentres(c, force_inside_eps=eps)
        if nv == dim + 1 and nv > 2:
            for x, p, q, ok in zip(c, ci, cc, good):
                if not ok:
                    continue
                A = np.r_[x.T, np.ones((1, nv))]
                b0, b = np.linalg.solve(A, np.r_[q, 1]), np.linalg.solve(A, np.r_[p, 1])
                mon.close('inside', b.min(), max(b0.min(), eps), 1e-6, 1e-6, msg='circumcentre forced inside by %g' % eps)
                if b0.min() >= eps:
                    mon.close('inside', p, q, 1e-8, 1e-8, msg='an inner circumcentre')
    # Barycentric coordinates of full simplices.
    s = rng.randn(dim + 1, dim)
    if abs(np.linalg.det(s[1:] - s[0])) > 0.05:
        b = rng.dirichlet(np.ones(dim + 1), 5)
        b[3:] = b[3:] + (rng.rand(2, 1) + 0.1) * (np.eye(dim + 1)[0] - np.eye(dim + 1)[1])
        x = b @ s
        mon.close('barycentric', lg.barycentric_coors(x, s), b.T, 1e-8, 1e-9, msg='barycentric coordinates')
        mon.close('barycentric', lg.transform_bar_to_space_coors(b, np.tile(s, (5, 1, 1))), x, 1e-10, 1e-11, msg='space coordinates')
        flag = lg.points_in_simplex(x, s)
        mon.equal('barycentric', flag.tolist(), ((b > -1e-8) & (b < 1 + 1e-8)).all(1).tolist(), 'points in the simplex')
        cells = np.array([rng.permutation(dim + 1) for _ in range(3)])
        v = lg.get_simplex_volumes(cells, s)
        from math import factorial
        mon.close('barycentric', abs(v), np.full(3, abs(np.linalg.det(s[1:] - s[0])) / factorial(dim)), 1e-9, 1e-11, msg='simplex volumes')
        mon.event('barycentric')
    # Star-shaped polygons.
    n = 3 + rng.randint(6)
    th = np.sort(rng.uniform(0, 2 * np.pi, n))
    if np.max(np.diff(np.r_[th, th[0] + 2 * np.pi])) < 3.0:
        r = 0.5 + rng.rand(n)
        org = rng.randn(2)
        poly = org + np.c_[r * np.cos(th), r * np.sin(th)]
        if rng.rand() < 0.5:
            poly = poly[::-1]
        pts = org + rng.uniform(-1.5, 1.5, (40, 2))
        P = (poly - org)[:, 0] + 1j * (poly - org)[:, 1]
        z = (pts - org)[:, 0] + 1j * (pts - org)[:, 1]
        rel = P[None, :] - z[:, None]
        ang = np.angle(np.roll(rel, -1, axis=1) / rel).sum(1) / (2 * np.pi)
        mon.equal('polygon', lg.flag_points_in_polygon2d(poly, pts).tolist(), (abs(ang) > 0.5).tolist(), 'points in a polygon')
        mon.event('polygon')
    # Perpendiculars, face areas.
    v = rng.randn(2 + rng.randint(2))
    if len(v) == 3 and rng.rand() < 0.4:
        v = np.array([0.01 * rng.randn(), 0.01 * rng.randn(), -1.0 if rng.rand() < 0.5 else 1.0])
    ps = lg.get_perpendiculars(v.copy())
    ps = [ps] if len(v) == 2 else list(ps)
    G = np.array(ps + [v / np.linalg.norm(v)])
    mon.close('perpendicular', G @ G.T, np.eye(len(v)), 1e-11, 1e-12, msg='perpendicular vectors of %r' % (v,))
    d3 = 2 + rng.randint(2)
    th = np.sort(rng.uniform(0, 2 * np.pi, (3, 4)), axis=1)
    nfv = 3 + rng.randint(2)
    th = th[:, :nfv]
    pl = np.stack([np.cos(th) * 2, np.sin(th)], axis=-1)
    ref = 0.5 * abs((pl[..., 0] * np.roll(pl[..., 1], -1, 1) - pl[..., 1] * np.roll(pl[..., 0], -1, 1)).sum(1))
    co = pl.reshape(-1, 2)
    if d3 == 3:
        co = np.c_[co, np.zeros(len(co))] @ rotation(rng).T + rng.randn(3)
    mon.close('areas', lg.get_face_areas(np.arange(3 * nfv).reshape(3, nfv), co), ref, 1e-9, 1e-11, msg='face areas')
    # Tubes and balls.
    x = rng.uniform(-2, 2, (60, 3))
    ctr, ax = 0.3 * rng.randn(3), rng.randn(3) * float(rng.choice([1, 1, 0.1, 5]))
    u = ax / np.linalg.norm(ax)
    L, r1, r2 = 0.5 + 2 * rng.rand(), 0.3 + 0.5 * rng.rand(), 1 + rng.rand()
    rel = x - ctr
    dl = rel @ u
    dr = np.linalg.norm(rel - dl[:, None] * u, axis=1)
    near = (abs(abs(dl) - L / 2) < 1e-9) | (abs(dr - r1) < 1e-9) | (abs(dr - r2) < 1e-9)
    x, dl, dr = x[~near], dl[~near], dr[~near]
    for ins in (True, False):
        got = lg.get_coors_in_tube(x, ctr, ax, r1, r2, L, inside_radii=ins)
        inr = (dr >= r1) & (dr <= r2)
        ref = np.where((abs(dl) <= L / 2) & (inr if ins else ~inr))[0]
        mon.equal('tube', got.tolist(), ref.tolist(), 'points in a tube of the axis %r, inside_radii=%s' % (ax, ins))
    rr = np.linalg.norm(x - ctr, axis=1)
    for ins in (True, False):
        for q in (None, r1):
            got = lg.get_coors_in_ball(x, ctr, r2, radius2=q, inside=ins)
            ref = (rr <= r2) & (True if q is None else rr >= q) if ins else (rr >= r2) | (False if q is None else rr <= q)
            mon.equal('ball', got.tolist(), np.where(ref)[0].tolist(), 'points in a ball, inside=%s, radius2=%s' % (ins, q))
    mon.event('tube')
    # Inverse mappings of single points.
    name = str(rng.choice(['1_2', '2_3', '2_4', '3_4', '3_8']))
    gel = GeometryElement(name)
    ps = PolySpace.any_from_args('b', gel, 1)
    A = np.eye(gel.dim) + 0.25 * rng.randn(gel.dim, gel.dim)
    if np.linalg.det(A) > 0.2:
        ec = gel.coors @ A.T + rng.randn(gel.dim) + (0.05 * rng.randn(*gel.coors.shape) if name in ('2_4', '3_8') else 0)
        xi = rng.dirichlet(np.ones(gel.dim + 1))[:-1]
        x = ps.eval_basis(xi[None, :]).squeeze() @ ec
        got = lg.inverse_element_mapping(x, ec, ps.eval_basis, gel.coors, suppress_errors=True) if name in ('2_4', '3_8') else \
            lg.inverse_element_mapping(x[None], ec, ps.eval_basis, gel.coors)[0]
        back = ps.eval_basis(np.atleast_2d(got), suppress_errors=True).squeeze() @ ec
        mon.close('inverse mapping', back, x, 1e-6, 1e-6, msg='image of the inverse mapping in %s' % name)
        mon.event('inverse mapping')
    sig(mon, 'geometry', dim, nv, name, len(v))

def run_bodies(mon, case):
    from sfepy.mechanics.contact_bodies import ContactPlane, ContactSphere
    rng = gen.rngof(case)
    # A plane.
    mode = rng.randint(4)
    nrm = [rng.randn(3), np.array([0, 0, rng.choice([-1.0, 1.0])]), np.array([0, 0, rng.choice([-2.0, 2.0])]) + 10**rng.uniform(-12, -2) * rng.randn(3),
           np.eye(3)[rng.randint(3)] * rng.choice([-1, 3])][mode]
    u = nrm / np.linalg.norm(nrm)
    t1 = np.cross(u, np.eye(3)[np.argmin(abs(u))])
    t1 /= np.linalg.norm(t1)
    t2 = np.cross(u, t1)
    n = 4 + rng.randint(4)
    th = 2 * np.pi * (np.arange(n) + 0.4 * rng.rand(n)) / n
    r = 0.7 + 0.5 * rng.rand(n)
    anchor = rng.randn(3)
    p2 = np.c_[r * np.cos(th), r * np.sin(th)]
    bounds = anchor + p2 @ np.array([t1, t2])
    cp = ContactPlane(anchor, nrm, bounds)
    q2 = rng.uniform(-1.5, 1.5, (40, 2))
    h = rng.randn(40)
    x = anchor + q2 @ np.array([t1, t2]) + h[:, None] * u
    rel = (p2[:, 0] + 1j * p2[:, 1])[None, :] - (q2[:, 0] + 1j * q2[:, 1])[:, None]
    ang = np.angle(np.roll(rel, -1, axis=1) / rel)
    far = np.abs(abs(ang) - np.pi).min(1) > 1e-6
    ref = abs(ang.sum(1)) > np.pi
    mon.equal('plane', cp.mask_points(x)[far].tolist(), ref[far].tolist(), 'points above the plane of the normal %r' % (nrm,))
    mon.close('plane', cp.get_distance(x), h, 1e-10, 1e-10, msg='distances of the plane')
    mon.event('plane body')
    dim = 2 + rng.randint(2)
    ctr, R = rng.randn(dim), 0.5 + rng.rand()
    cs = ContactSphere(ctr, R)
    x = ctr + rng.uniform(-2, 2, (30, dim))
    dd = np.linalg.norm(x - ctr, axis=1)
    eps = float(rng.choice([0.0, 0.1]))
    far = abs(dd - (1 + eps) * R) > 1e-9
    mon.equal('sphere', cs.mask_points(x, eps)[far].tolist(), (dd <= (1 + eps) * R)[far].tolist(), 'points in the sphere')
    if rng.rand() < 0.5:
        x[rng.randint(len(x))] = ctr
    d, nn = cs.get_distance(x)
    dd = np.linalg.norm(x - ctr, axis=1)
    mon.close('sphere', d, R - dd, 1e-11, 1e-12, msg='penetration')
    mon.equal('sphere', nn.shape, x.shape, 'shape of normals')
    if nn.shape == x.shape:
        mon.close('sphere', nn * dd[:, None], ctr - x, 1e-10, 1e-11, msg='normals')
    mon.event('sphere body')
    sig(mon, 'bodies', mode, dim, n)

def run_shells(mon, case):
    from sfepy.mechanics import membranes as mm, shell10x as sh
    rng = gen.rngof(case)
    ne, nep = 1 + rng.randint(4), 3 + rng.randint(2)
    flat = (np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])[:4] if nep == 4 else np.array([[0, 0], [1, 0], [0, 1.0]]))
    R = np.array([rotation(rng) for _ in range(ne)])
    if rng.rand() < 0.3:
        # A coordinate plane.
        R[0] = np.eye(3)[:, rng.permutation(3)]
    fl = flat[None] + 0.15 * rng.randn(ne, nep, 2)
    co = np.einsum('aij,akj->aki', R, np.concatenate((fl, np.zeros((ne, nep, 1))), axis=2)) + rng.randn(ne, 1, 3)
    for T, nm in [(mm.create_transformation_matrix(co), 'membrane')] + ([(sh.create_transformation_matrix(co), 'shell')] if nep == 4 else []):
        mon.close('basis', np.einsum('aij,aik->ajk', T, T), np.tile(np.eye(3), (ne, 1, 1)), 1e-11, 1e-11, msg='%s transformation' % nm)
        mon.ok('basis', bool((np.linalg.det(T) > 0).all()), 'the %s transformation is a reflection' % nm)
        loc = np.einsum('aij,aki->akj', T, co - co[:, :1])
        mon.close('basis', loc[..., 2], 0 * loc[..., 2], 0, 1e-10, msg='%s in the plane' % nm)
    # Membrane deformation against 3D tensors.
    nq = 1 + rng.randint(3)
    bfg = rng.randn(ne, nq, 2, nep)
    u = 0.3 * rng.randn(ne, nep, 3)
    C, c33, B = mm.describe_deformation(u, bfg)
    F = np.einsum('eqan,eni->eqia', bfg, u) + np.eye(3, 2)
    Cr = np.einsum('eqia,eqib->eqab', F, F)
    mon.close('membrane', C, Cr, 1e-10, 1e-11, msg='in-plane Cauchy-Green tensor')
    C3 = np.zeros((ne, nq, 3, 3))
    C3[..., :2, :2] = Cr
    C3[..., 2, 2] = 1 / np.linalg.det(Cr)
    s = abs(C3).max()
    mon.close('membrane', c33, C3[..., 2, 2], 1e-7, 1e-9 * s, msg='C33 of incompressible membranes')
    i1, i2 = mm.get_invariants(C, c33)
    tr = np.trace(C3, axis1=2, axis2=3)
    mon.close('membrane', i1, tr, 1e-8, 1e-9 * s, msg='the first invariant')
    mon.close('membrane', i2, 0.5 * (tr**2 - np.einsum('eqij,eqji->eq', C3, C3)), 1e-6, 1e-8 * s**2, msg='the second invariant')
    mon.close('membrane', mm.get_green_strain_sym3d(C, c33)[..., 0], vec(0.5 * (C3 - np.eye(3))), 1e-7, 1e-9 * s, msg='Green strain')
    w = rng.randn(ne, nep, 3)
    G = np.einsum('eqan,eni->eqia', bfg, w)
    dE = 0.5 * (np.einsum('eqia,eqib->eqab', F, G) + np.einsum('eqia,eqib->eqab', G, F))
    wv = np.swapaxes(w, 1, 2).reshape(ne, 1, -1)
    mon.close('membrane', np.einsum('eqij,eqj->eqi', B, np.repeat(wv, nq, 1)), strain(dE), 1e-9, 1e-10 * (1 + abs(B).max()), msg='variation of the Green strain')
    S = rng.randn(ne, nq, 3, 1)
    K = mm.get_tangent_stress_matrix(S, bfg)
    z = rng.randn(ne, nep, 3)
    H = np.einsum('eqan,eni->eqia', bfg, z)
    Sf = full(S[..., 0])
    ref = np.einsum('eqia,eqab,eqib->eq', G, Sf, H)
    zv = np.swapaxes(z, 1, 2).reshape(ne, -1)
    mon.close('membrane', np.einsum('ei,eqij,ej->eq', wv[:, 0], K, zv), ref, 1e-9, 1e-10 * (1 + abs(K).max()), msg='tangent stress matrix')
    mon.event('membrane')
    # Shells.
    if nep == 4:
        eb = sh.create_local_bases(co)
        fin = bool(np.isfinite(eb).all())
        mon.ok('shell', fin, 'local bases are not finite')
        if fin:
            mon.close('shell', np.einsum('avij,avkj->avik', eb, eb), np.tile(np.eye(3), (ne, 4, 1, 1)), 1e-9, 1e-9, msg='local bases')
            nr = R[:, :, 2] * np.linalg.det(R)[:, None]
            mon.close('shell', abs(np.einsum('avi,ai->av', eb[:, :, 2], nr)), np.ones((ne, 4)), 1e-8, 1e-8, msg='normals of local bases')
            ro = sh.create_rotation_ops(eb)
            om = rng.randn(3)
            # The operator rotates directors.
            mon.close('shell', np.einsum('avij,j->avi', ro, om), np.cross(np.broadcast_to(om, eb[:, :, 2].shape), eb[:, :, 2]), 1e-9, 1e-9,
                      msg='rotation operators') if np.linalg.det(eb).min() > 0 else None
        mon.event('shell')
    Ts = np.array([[rotation(rng) for _ in range(2)] for _ in range(ne)])
    Qs = sh.create_strain_transform(Ts)
    e = rng.randn(3, 3)
    e = e + e.T
    ref = strain(np.einsum('abip,pq,abjq->abij', Ts, e, Ts))
    mon.close('shell', np.einsum('abij,j->abi', Qs, strain(e)), ref, 1e-10, 1e-10, msg='strain transformation')
    E, nu = isotropic(rng)
    corr = bool(rng.rand() < 0.5)
    D = sh.create_elastic_tensor(E, nu, shear_correction=corr)
    mu = E / (2 * (1 + nu))
    ref = np.zeros((6, 6))
    ref[:2, :2] = E / (1 - nu**2) * np.array([[1, nu], [nu, 1]])
    ref[3:, 3:] = mu * np.diag([1, 5 / 6, 5 / 6] if corr else [1, 1, 1])
    k = [0, 1, 3, 4, 5]
    mon.close('shell', D[np.ix_(k, k)], ref[np.ix_(k, k)], 1e-8, 1e-10 * E, msg='elastic tensor')
    sig(mon, 'shells', ne, nep, nq)
