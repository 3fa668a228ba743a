"""C27: Spline parametrisations reproduce and deform geometry consistently.

Monitor: Bases, curves and surfaces evaluated by the B-spline classes are compared with SciPy's B-splines and the definitions, spline
boxes and regions with tensor products of the bases over the recorded control points, before and after moves of control points;
approximations are checked for optimality, inserted knots for unchanged curves, and written files are parsed back.
"""
import os
import tempfile
import numpy as np
from rvm import gen

REQUIRED = ['basis', 'partition', 'ends', 'curve', 'cyclic', 'knots', 'insert', 'optimal', 'interpolate', 'reproduce', 'surface',
            'surface approx', 'box', 'undisturbed', 'outside', 'moved', 'derivative', 'field', 'written', 'initial', 'region', 'arguments']
ASSUMPTIONS = ['SplineRegion2D finds parameters of points by minimisation, positions are compared with the tolerance of it']

def cases(rng, tier):
    n = 5 if tier == 'quick' else 50
    out = [dict(kind='curve') for _ in range(60 * n)]
    out += [dict(kind='insert') for _ in range(20 * n)]
    out += [dict(kind='approx') for _ in range(30 * n)]
    out += [dict(kind='surface') for _ in range(15 * n)]
    out += [dict(kind='box', cost=2) for _ in range(40 * n)]
    out += [dict(kind='region', cost=30) for _ in range(2 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

def ref_basis(knots, degree, t):
    """B-spline basis by SciPy, right end of the range included."""
    from scipy.interpolate import BSpline
    n = len(knots) - degree - 1
    out = np.empty((len(t), n))
    for i in range(n):
        c = np.zeros(n)
        c[i] = 1
        out[:, i] = BSpline(np.asarray(knots, dtype=float), c, degree, extrapolate=True)(t)
    return out

def ranges(rng):
    a = float(np.round(pick(rng, [0.0, rng.randn(), -5 * rng.rand() - 1, 10 * rng.rand(), 1e3 * rng.randn()]), 3))
    return a, a + float(np.round(pick(rng, [1.0, 0.01, 3.0, 20.0]) * (1 + rng.rand()), 3))

def params(rng, a, b, n=None):
    n = n or rng.randint(5, 30)
    t = a + (b - a) * rng.rand(n)
    t[rng.randint(n)] = a
    t[rng.randint(n)] = b
    return t

def make(rng, cyclic=False):
    """A spline with a knot vector over a range."""
    from sfepy.mesh.bspline import BSpline
    dg = int(rng.randint(1, 5))
    ncp = dg + int(rng.randint(1, 6)) + (cyclic and dg)
    s = BSpline(dg, is_cyclic=cyclic, ncp=ncp)
    return s, dg, ncp

def run_curve(mon, case):
    rng = gen.rngof(case)
    s, dg, ncp = make(rng, cyclic=rng.rand() < 0.3)
    a, b = ranges(rng) if rng.rand() < 0.7 else (0.0, 1.0)
    dim = pick(rng, [1, 2, 3])
    cp = rng.randn(ncp, dim)
    if s.is_cyclic:
        cp[-dg:] = cp[:dg]
        s.set_control_points(cp[:-dg])
        mon.equal('cyclic', s.get_control_points(), cp[:-dg], 'control points')
        mon.equal('cyclic', s.cp_coors, cp, 'all control points')
    else:
        s.set_control_points(cp)
        mon.equal('curve', s.get_control_points(), cp, 'control points')
    mon.ok('curve', s.ncp == ncp, 'ncp %d' % s.ncp)
    user = rng.rand() < 0.4 and not s.is_cyclic
    if user:
        inner = np.sort(a + (b - a) * (0.05 + 0.9 * rng.rand(ncp - dg - 1)))
        if len(inner) > 1 and rng.rand() < 0.4:
            inner[1] = inner[0]
        s.set_knot_vector(np.r_[[a] * (dg + 1), inner, [b] * (dg + 1)])
    elif (a, b) == (0.0, 1.0) and rng.rand() < 0.5:
        s.make_knot_vector()
    else:
        s.make_knot_vector(knot_range=(a, b))
    k = s.get_knot_vector()
    n_in = ncp - dg + 1
    grid = np.linspace(a, b, n_in)
    L = max(abs(a), abs(b))
    if not user:
        d = grid[1] - grid[0]
        ref = np.r_[[a] * dg, grid, [b] * dg] if not s.is_cyclic else np.r_[a - d * np.arange(dg, 0, -1), grid, b + d * np.arange(1, dg + 1)]
        mon.event('knots')
        mon.close('knots', k, ref, 1e-12, 1e-13 * L, msg='range (%g, %g), degree %d%s' % (a, b, dg, ', cyclic' * s.is_cyclic))
    t = params(rng, a, b)
    t0 = t.copy()
    B = s.eval_basis(t=t, return_val=True)
    mon.event('arguments')
    mon.equal('arguments', t, t0, 'the given parameters')
    w = 'degree %d, knots %s' % (dg, np.round(k, 4))
    mon.event('basis')
    ref = ref_basis(k, dg, t)
    tol = 1e-9 + 1e-13 * L / (b - a)
    mon.close('basis', B, ref, tol, tol, msg=w)
    mon.event('partition')
    mon.close('partition', B.sum(axis=1), np.ones(len(t)), tol, tol, msg=w)
    mon.ok('partition', (B >= -tol).all(), 'negative basis')
    X = s.eval(t=t)
    mon.event('curve')
    mon.close('curve', X, ref @ cp, tol, tol * 5, msg=w)
    E = s.eval(t=np.array([a, b]))
    if s.is_cyclic:
        mon.event('cyclic')
        mon.close('cyclic', E[0], E[1], tol, tol * 5, msg='a closed curve')
    else:
        mon.event('ends')
        mon.close('ends', E, cp[[0, -1]], tol, tol * 5, msg='ends')
    # The evaluation with other control points and automatic parameters.
    cp2 = rng.randn(ncp - (dg if s.is_cyclic else 0), dim)
    X = s.eval(t=t, cp_coors=cp2)
    mon.close('curve', X, ref @ (np.vstack([cp2, cp2[:dg]]) if s.is_cyclic else cp2), tol, tol * 5, msg=w)
    n = int(rng.randint(2, 20))
    s.set_param_n(n, knot_range=(a, b))
    X = s.eval()
    mon.close('curve', X, ref_basis(k, dg, np.linspace(a, b, n)) @ s.cp_coors, tol, tol * 5, msg='set_param_n()')
    mon.sig('curve', dg, ncp, s.is_cyclic, user, dim)

def run_insert(mon, case):
    rng = gen.rngof(case)
    s, dg, ncp = make(rng)
    a, b = pick(rng, [(0.0, 1.0), ranges(rng)])
    s.set_control_points(rng.randn(ncp, pick(rng, [2, 3])))
    s.make_knot_vector(knot_range=(a, b))
    t = params(rng, a, b)
    X = s.eval(t=t)
    L = max(abs(a), abs(b))
    tol = 1e-9 + 1e-13 * L / (b - a)
    for _ in range(rng.randint(1, 6)):
        k = s.get_knot_vector().copy()
        new = float(a + (b - a) * rng.rand()) if rng.rand() < 0.6 else float(pick(rng, k[:-dg - 1]))
        mult = int((k == new).sum())
        n0 = s.ncp
        s.insert_knot(new)
        mon.event('insert')
        if mult < dg:
            mon.equal('insert', s.get_knot_vector(), np.sort(np.r_[k, new]), 'knots after insertion')
            mon.ok('insert', s.ncp == n0 + 1 == len(s.get_control_points()), 'number of control points')
        else:
            mon.equal('insert', s.get_knot_vector(), k, 'knots of full multiplicity')
        mon.close('insert', s.eval(), X, tol, tol * 5, msg='the curve after insertion of %.4f (multiplicity %d) into %s' % (new, mult, np.round(k, 3)))
        mon.close('insert', s.eval(t=t), X, tol, tol * 5, msg='the curve after insertion')
    mon.sig('insert', dg, ncp)

def run_approx(mon, case):
    rng = gen.rngof(case)
    from sfepy.mesh.bspline import BSpline
    dg = int(rng.randint(1, 4))
    cyclic = bool(rng.rand() < 0.3)
    n = int(rng.randint(12, 40))
    ncp = int(rng.randint(dg + 1, dg + 5)) + (2 if cyclic else 0)
    dim = pick(rng, [2, 3])
    alpha = pick(rng, [0.5, 1.0, 0.8])
    T = np.sort(rng.rand(n))
    P = np.stack([np.cos(6 * T), np.sin(5 * T), T**2][:dim], axis=1) + 0.02 * rng.randn(n, dim)
    if cyclic:
        th = 2 * np.pi * np.arange(n + 1) / n
        P = (np.stack([np.cos(th), np.sin(th), np.cos(2 * th)][:dim], axis=1) + 0.05 * rng.randn(n + 1, dim))
        P[-1] = P[0]
    s = BSpline(dg, is_cyclic=cyclic)
    P0 = P.copy()
    if not cyclic and rng.rand() < 0.3:
        s.approximate(P, knots=np.r_[[0.0] * (dg + 1), np.sort(0.1 + 0.8 * rng.rand(ncp - dg - 1)), [1.0] * (dg + 1)], alpha=alpha, do_eval=True)
    else:
        s.approximate(P, ncp=ncp, alpha=alpha, do_eval=True)
    mon.equal('arguments', P, P0, 'the given points')
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)**alpha
    t = np.r_[0, np.cumsum(d) / d.sum()]
    B = ref_basis(s.get_knot_vector(), dg, np.minimum(t, 1 - 1e-15))
    R = np.vstack([np.eye(ncp), np.eye(ncp)[:dg]]) if cyclic else np.eye(B.shape[1])
    A = B @ R
    if np.linalg.cond(A) > 1e5:
        mon.sig('approx', 'ill')
        return
    cp = s.get_control_points()
    ref = np.linalg.lstsq(A, P, rcond=None)[0]
    mon.event('optimal')
    mon.close('optimal', cp, ref, 1e-5, 1e-6, msg='approximation, degree %d, %d control points' % (dg, ncp))
    mon.close('optimal', A.T @ (A @ cp - P), np.zeros((A.shape[1], dim)), 1e-5, 1e-6, msg='orthogonality')
    mon.close('optimal', s.curve_coors, A @ cp, 1e-7, 1e-7, msg='evaluated')
    # Interpolation: as many control points as points.
    m = int(rng.randint(dg + 2, dg + 6))
    Q = np.cumsum(0.5 + rng.rand(m, dim), axis=0)
    q = BSpline(dg)
    q.approximate(Q, ncp=m, alpha=alpha, do_eval=True)
    d = np.linalg.norm(np.diff(Q, axis=0), axis=1)**alpha
    B = ref_basis(q.get_knot_vector(), dg, np.minimum(np.r_[0, np.cumsum(d) / d.sum()], 1 - 1e-15))
    if np.linalg.cond(B) < 1e4:
        mon.event('interpolate')
        mon.close('interpolate', q.curve_coors, Q, 1e-6, 1e-6, msg='interpolation of %d points by the degree %d' % (m, dg))
    # Points of lines are in the space.
    c, v = rng.randn(dim), rng.randn(dim)
    Q = c + np.linspace(0, 1, n)[:, None] * v
    q = BSpline(dg)
    q.approximate(Q, ncp=dg + 2, alpha=alpha, do_eval=True)
    mon.event('reproduce')
    mon.close('reproduce', q.curve_coors, Q, 1e-6, 1e-6, msg='points of a line')
    mon.sig('approx', dg, cyclic, ncp, alpha)

def read_vtk(fn):
    """Legacy ASCII VTK: points, connectivity, point data."""
    tok = open(fn).read().split('\n')
    pts, conn, data, i = None, [], {}, 0
    while i < len(tok):
        w = tok[i].split()
        if w[:1] == ['POINTS']:
            n = int(w[1])
            pts = np.array([[float(x) for x in l.split()] for l in tok[i + 1:i + 1 + n]])
            i += n
        elif w[:1] in (['CELLS'], ['POLYGONS'], ['LINES']):
            n, m = int(w[1]), int(w[2])
            conn = [[int(x) for x in l.split()] for l in tok[i + 1:i + 1 + n]]
            if sum(len(c) for c in conn) != m:
                raise ValueError('size %d of the connectivity %d' % (m, sum(len(c) for c in conn)))
            i += n
        elif w[:1] == ['SCALARS']:
            n = len(pts)
            data[w[1]] = np.array([float(x) for x in tok[i + 2:i + 2 + n]])
            i += n + 1
        i += 1
    return pts, conn, data

def grid_edges(shape, conv):
    out = set()
    for idx in np.ndindex(*shape):
        for a in range(len(shape)):
            if idx[a] + 1 < shape[a]:
                j = list(idx)
                j[a] += 1
                out.add(frozenset((conv(idx), conv(j))))
    return out

def run_surface(mon, case):
    rng = gen.rngof(case)
    from sfepy.mesh.bspline import BSplineSurf
    dg = (int(rng.randint(1, 4)), int(rng.randint(1, 4)))
    cyc = (bool(rng.rand() < 0.3), bool(rng.rand() < 0.3))
    nu = [d + int(rng.randint(1, 4)) + (d if c else 0) for d, c in zip(dg, cyc)]
    s = BSplineSurf(dg, is_cyclic=cyc)
    cp = rng.randn(nu[0], nu[1], 3)
    s.set_control_points(cp)
    mon.equal('surface', s.get_control_points(), cp, 'control points')
    s.make_knot_vector()
    t = (params(rng, 0, 1), params(rng, 0, 1))
    X = s.eval(t=t)
    full = cp
    for a in range(2):
        if cyc[a]:
            full = np.concatenate([full, np.take(full, range(dg[a]), axis=a)], axis=a)
    B = [ref_basis(s.splines[a].get_knot_vector(), dg[a], t[a]) for a in range(2)]
    mon.event('surface')
    mon.close('surface', X, np.einsum('ai,bj,ijc->abc', B[0], B[1], full), 1e-9, 1e-9, msg='degrees %s, cyclic %s' % (dg, cyc))
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, 's.vtk')
        s.write_surface_vtk(fn, float_format='%.12e')
        pts, conn, _ = read_vtk(fn)
        n0, n1 = X.shape[:2]
        mon.event('written')
        mon.close('written', pts, X.reshape(-1, 3), 1e-9, 1e-9, msg='points of the surface')
        ref = {frozenset((i * n1 + j, i * n1 + j + 1, (i + 1) * n1 + j, (i + 1) * n1 + j + 1)) for i in range(n0 - 1) for j in range(n1 - 1)}
        mon.ok('written', {frozenset(c[1:]) for c in conn} == ref and len(conn) == len(ref), 'cells of the surface')
        s.write_control_polygon_vtk(fn, float_format='%.12e')
        pts, conn, _ = read_vtk(fn)
        mon.close('written', pts, full.reshape(-1, 3), 1e-9, 1e-9, msg='control points')
        got = [frozenset(p) for c in conn for p in zip(c[1:-1], c[2:])]
        mon.ok('written', sorted(map(sorted, got)) == sorted(map(sorted, grid_edges(full.shape[:2], lambda i: int(i[0] * full.shape[1] + i[1])))),
               'lines of the control polygon')
    # Approximation: parameters of the rows are the same.
    n = [int(rng.randint(10, 16)) for _ in range(2)]
    g0, g1 = [np.linspace(0, 1, k) for k in n]
    if cyc[1]:
        th = 2 * np.pi * g1
        P = np.stack([np.outer(1 + g0, np.cos(th)), np.outer(1 + g0, np.sin(th)), np.outer(g0, np.ones(n[1]))], axis=-1)
        cy = (False, True)
        tol = 0.25 if dg[1] < 2 else 0.12
    else:
        P = np.stack([np.outer(g0, np.ones(n[1])), np.outer(np.ones(n[0]), g1), 2 * g0[:, None] - 3 * g1[None]], axis=-1)
        cy = (False, False)
        tol = 1e-6
    m = (dg[0] + 1, max(7, dg[1] + 1) if cy[1] else dg[1] + 2)
    q = BSplineSurf(dg, is_cyclic=cy)
    q.approximate(P, m)
    C = q.get_control_points()
    mon.event('surface approx')
    mon.ok('surface approx', C.shape == m + (3,), '%s control points requested, got %s' % (m, C.shape))
    q2 = BSplineSurf(dg, is_cyclic=cy)
    q2.set_control_points(C)
    q2.make_knot_vector()
    mon.close('surface approx', q2.eval(t=(g0, g1)), P, tol, tol, msg='approximated surface, cyclic %s' % (cy,))
    mon.close('surface approx', q.eval(t=(g0, g1)), q2.eval(t=(g0, g1)), 1e-9, 1e-9, msg='the approximating surface itself')
    mon.sig('surface', dg, cyc, cy)

def run_box(mon, case):
    rng = gen.rngof(case)
    from sfepy.mesh.splinebox import SplineBox
    dim = int(rng.randint(2, 4))
    scale = pick(rng, [1.0, 1.0, 10.0, 1e-2])
    shift = pick(rng, [0.0, 0.0, 5.0, -20.0]) * rng.rand(dim) * scale
    n = int(rng.randint(20, 80))
    X = rng.rand(n, dim)
    if rng.rand() < 0.7:    # Points on a grid, with the corners.
        k = 4 if dim == 2 else 3
        X = np.stack(np.meshgrid(*[np.linspace(0, 1, k + a) for a in range(dim)], indexing='ij'), axis=-1).reshape(-1, dim)
        X = X[rng.permutation(len(X))]
    X = X * scale + shift
    lo, hi = X.min(axis=0), X.max(axis=0)
    part = rng.rand() < 0.4
    if part:
        i, j = lo + (hi - lo) * 0.3 * rng.rand(dim), hi - (hi - lo) * 0.3 * rng.rand(dim)
    else:
        i, j = lo.copy(), hi.copy()
    bbox = np.stack([i, j], axis=1)
    inside = ((X >= bbox[:, 0]) & (X <= bbox[:, 1])).all(axis=1)
    if inside.sum() < 2:
        mon.sig('box', 'empty')
        return
    nsg = pick(rng, [None, rng.randint(1, 4, size=dim).tolist()])
    X0 = X.copy()
    S = SplineBox(bbox, X, nsg=nsg)
    ns = np.array(nsg) if nsg is not None else np.ones(dim, dtype=int)
    ncp = ns + 3
    L = np.abs(X).max()
    tol = 1e-9
    at = 1e-10 * L
    mon.event('box')
    mon.equal('box', np.asarray(S.ncp), ncp, 'numbers of control points')
    mon.equal('arguments', X, X0, 'the given coordinates')
    B, G = [], []
    for a in range(dim):
        k = np.r_[[i[a]] * 3, np.linspace(i[a], j[a], ns[a] + 1), [j[a]] * 3]
        B.append(ref_basis(k, 3, X[inside, a]))
        G.append(np.array([k[m + 1:m + 4].mean() for m in range(ncp[a])]))
    # The first index is the fastest.
    if dim == 2:
        M = np.einsum('ni,nj->nji', *B).reshape(inside.sum(), -1)
    else:
        M = np.einsum('ni,nj,nk->nkji', *B).reshape(inside.sum(), -1)
    mon.close('box', S.get_box_matrix(), M, 1e-8, 1e-8, msg='box matrix')
    cp = np.stack([g.T.ravel() if False else g.ravel(order='F') for g in np.meshgrid(*G, indexing='ij')], axis=1)
    mon.close('initial', S.get_control_points(), cp, tol, at, msg='initial control points')
    mon.event('undisturbed')
    mon.close('undisturbed', S.evaluate(), X, tol, at, msg='undisturbed box %s' % bbox.tolist())
    mon.close('undisturbed', S.evaluate(outside=False), X[inside], tol, at, msg='undisturbed box, inner points')
    # Moves.
    C = cp.copy()
    for _ in range(rng.randint(1, 4)):
        idx = [int(rng.randint(m)) for m in ncp]
        flat = int(np.dot(idx, np.r_[1, np.cumprod(ncp)[:-1]]))
        v = rng.randn(dim) * scale
        S.move_control_point(pick(rng, [idx, tuple(idx), flat]), v)
        C[flat] += v
        d = rng.randn(dim)
        mon.event('derivative')
        dv = S.evaluate_derivative(pick(rng, [idx, flat]), d)
        mon.close('derivative', dv, M[:, [flat]] * d, 1e-8, 1e-8, msg='derivative')
    if rng.rand() < 0.5:
        D = rng.randn(*C.shape) * scale
        S.set_control_points(D, add=True)
        C = C + D
    ref = X.copy()
    ref[inside] = M @ C
    got = S.evaluate()
    mon.event('moved')
    mon.close('moved', got, ref, tol, at + 1e-9 * scale, msg='moved control points')
    mon.event('outside')
    mon.equal('outside', got[~inside], X[~inside], 'points out of the box')
    mon.close('moved', S.get_control_points(), C, tol, at, msg='control points')
    mon.event('initial')
    mon.close('initial', S.get_control_points(init=True), cp, tol, at, msg='initial control points after moves')
    E = rng.randn(*C.shape)
    mon.close('moved', S.evaluate(cp_values=E, outside=False), M @ E, 1e-8, 1e-8, msg='given control points')
    mon.close('moved', S.evaluate(), ref, tol, at + 1e-9 * scale, msg='the control points are not changed by evaluation')
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, 'n.vtk')
        for deform in (True, False):
            S.write_control_net(fn, deform_by_values=deform)
            pts, conn, data = read_vtk(fn)
            mon.event('written')
            mon.close('written', pts[:, :dim], C if deform else cp, 1e-5, 1e-6 * L + 1e-5 * scale, msg='control net (deformed: %s)' % deform)
            m1 = np.r_[1, np.cumprod(ncp)[:-1]]
            e = sorted(sorted(c[1:]) for c in conn)
            mon.ok('written', e == sorted(map(sorted, grid_edges(tuple(ncp), lambda q: int(np.dot(q, m1))))), 'lines of the control net')
            for a in range(dim):
                mon.close('written', data['cp_value_%d' % (a + 1)], C[:, a], 1e-5, 1e-6 * L + 1e-5 * scale, msg='values of the control net')
    # Fields in the spline space.
    W = rng.randn(len(cp), pick(rng, [1, 2]))
    if np.linalg.matrix_rank(M) == M.shape[1] and np.linalg.cond(M) < 1e6:
        F = rng.randn(len(X), W.shape[1])
        F[inside] = M @ W
        F0 = F.copy()
        T = SplineBox(bbox, X, nsg=nsg, field=F)
        mon.event('field')
        mon.close('field', T.get_control_points(), W, 1e-6, 1e-6, msg='control values of a field')
        mon.close('field', T.evaluate(), F0, 1e-6, 1e-6, msg='a field in the spline space')
        T.move_control_point(0, 1.0)
        W[0] += 1.0
        mon.close('field', T.evaluate(outside=False), M @ W, 1e-6, 1e-6, msg='moved values')
        mon.equal('field', F, F0, 'the given field')
        W0 = W.copy()
        W0[0] -= 1.0
        mon.close('field', T.get_control_points(init=True), W0, 1e-6, 1e-6, msg='initial control values of a field')
    else:    # The constants are always in the space.
        F = np.full(len(X), 3.5)
        T = SplineBox(bbox, X, nsg=nsg, field=F)
        mon.event('field')
        mon.close('field', T.evaluate()[inside], F[inside][:, None], 1e-7, 1e-7, msg='a constant field')
    mon.sig('box', dim, nsg, part, scale)

def run_region(mon, case):
    rng = gen.rngof(case)
    from sfepy.mesh.splinebox import SplineRegion2D
    from sfepy.mesh.bspline import BSpline
    w, h = 1 + rng.rand(2)
    # Splines of the sides, counterclockwise.
    nx, ny = int(rng.randint(4, 6)), int(rng.randint(4, 6))
    c = np.array([[0, 0], [w, 0], [w, h], [0, h]]) + 0.1 * rng.randn(4, 2)
    sides = []
    for i in range(4):
        n = nx if i % 2 == 0 else ny
        a, b = c[i], c[(i + 1) % 4]
        cp = a + np.linspace(0, 1, n)[:, None] * (b - a)
        cp[1:-1] += 0.04 * rng.randn(n - 2, 2)
        s = BSpline(3, ncp=n)
        s.set_control_points(cp)
        s.make_knot_vector()
        sides.append(s)
    # Points of a mesh of the region: some out of it.
    X = np.stack(np.meshgrid(np.linspace(-0.3, w + 0.3, 6), np.linspace(-0.3, h + 0.3, 5)), axis=-1).reshape(-1, 2)
    X += 0.02 * rng.rand(*X.shape)
    S = SplineRegion2D(sides, X, rho=200)
    # Winding by the dense boundary.
    P = np.vstack([s.eval(t=np.linspace(0, 1, 400))[:-1] for s in sides])
    from matplotlib.path import Path
    ins = Path(P).contains_points(X)
    dist = np.array([np.linalg.norm(P - x, axis=1).min() for x in X])
    sure = dist > 0.02
    got = np.zeros(len(X), dtype=bool)
    got[S.idxs_inside] = True
    mon.event('region')
    mon.equal('region', got[sure], ins[sure], 'points in the region')
    cp = S.get_control_points().copy()
    N = np.stack([s.eval(t=np.array([0.0, 0.25, 0.5, 1.0])) for s in sides])
    Y = S.evaluate()
    mon.close('region', Y, X, 1e-4, 2e-3, msg='undisturbed region')
    mon.equal('region', Y[~got], X[~got], 'points out of the region')
    # Boundary control points, by sides.
    gr = cp.reshape(ny, nx, 2)
    for k, (s, row) in enumerate(zip(sides, [gr[0], gr[:, -1], gr[-1, ::-1], gr[::-1, 0]])):
        mon.close('region', row, s.get_control_points(), 1e-12, 1e-12, msg='control points of the side %d' % k)
    M = S.get_box_matrix()
    kx, ky = sides[0].get_knot_vector(), sides[1].get_knot_vector()
    Bx, By = ref_basis(kx, 3, S.ts[:, 0]), ref_basis(ky, 3, S.ts[:, 1])
    mon.close('region', M, np.einsum('ni,nj->nji', Bx, By).reshape(len(M), -1), 1e-7, 1e-7, msg='matrix')
    i = int(rng.randint(len(cp)))
    v = 0.1 * rng.randn(2)
    S.move_control_point(i, v)
    Z = S.evaluate()
    D = np.zeros_like(X)
    D[got] = M[:, [i]] * v
    mon.close('region', Z - Y, D, 1e-9, 1e-10, msg='moved control point')
    mon.close('initial', S.get_control_points(init=True), cp, 1e-12, 1e-12, msg='initial control points of a region')
    mon.close('region', S.evaluate_derivative(i, v), D[got], 1e-9, 1e-10, msg='derivative')
    mon.sig('region', nx, ny)
