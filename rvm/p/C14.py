"""C14: Eigenvalue solvers return true, requested, consistent eigenpairs.

Monitor: Random standard, generalised and quadratic problems with prescribed or densely computed spectra (definite,
indefinite, with multiple values, non-symmetric, complex) are passed to every available eigenvalue solver with random
selections and options.  Residuals of the returned pairs, the membership and the selection of the values, the agreement
of runs with and without vectors, realness, ordering and orthogonality are decided; the same is done for the eigenvalue
application with finite element matrices and for the Lanczos estimates.
"""
import numpy as np
from rvm import gen

REQUIRED = ['dense', 'sparse', 'inverse operator', 'lapack', 'lobpcg', 'primme', 'standard', 'generalised', 'indefinite', 'multiple', 'complex',
            'non-symmetric', 'values only', 'orthogonal', 'selection', 'zero requested', 'quadratic', 'inverted', 'application', 'lanczos', 'not definite']
ASSUMPTIONS = ['the smallest values of non-symmetric problems are requested by shifts, as ARPACK can miss some without them',
               'iterative solvers are given a spectrum with gaps at the selection boundary and enough iterations',
               'LOBPCG and PRIMME get Hermitian problems with a positive definite mass matrix']

def cases(rng, tier):
    n = 1 if tier == 'quick' else 25
    out = []
    for kind, k in (('dense', 70), ('sparse', 70), ('lapack', 50), ('lobpcg', 40), ('primme', 40), ('quadratic', 60), ('lanczos', 40), ('app', 14)):
        out += [dict(kind=kind, cost=8 if kind == 'app' else 1) for _ in range(n * k)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def unitary(rng, n, cplx):
    q, _ = np.linalg.qr(rng.randn(n, n) + (1j * rng.randn(n, n) if cplx else 0))
    return q

class P:
    """A Hermitian or general problem with a known spectrum."""

    def __init__(self, mon, rng, sym=True, cplx=False, gen_=None, definite=None, nmax=30, multiple=None):
        self.n = n = 3 + rng.randint(nmax - 2)
        gen_ = rng.rand() < 0.5 if gen_ is None else gen_
        definite = rng.rand() < 0.5 if definite is None else definite
        # Separated moduli.
        mod = np.cumsum(0.3 + rng.rand(n)) * 10**rng.uniform(-2, 2)
        if sym:
            l = mod * (1 if definite else rng.choice([-1, 1], n))
            self.mult = (rng.rand() < 0.2 if multiple is None else multiple) and n > 4
            if self.mult:
                k = rng.randint(n - 1)
                l[k + 1] = l[k]
        else:
            self.mult = False
            l = mod * (np.exp(1j * rng.uniform(0, 2 * np.pi, n)) if cplx else 1)
            l = l.astype(complex)
        B = None
        L = np.eye(n)
        if gen_:
            L = unitary(rng, n, cplx) @ np.diag(0.7 + rng.rand(n)) @ unitary(rng, n, cplx)
            B = L @ L.conj().T
            B = 0.5 * (B + B.conj().T)
        if sym:
            Q = unitary(rng, n, cplx)
            A = (L @ Q) @ np.diag(l) @ (L @ Q).conj().T
            A = 0.5 * (A + A.conj().T)
        else:
            X = unitary(rng, n, cplx) + 0.2 * (rng.randn(n, n) + (1j * rng.randn(n, n) if cplx else 0)) / np.sqrt(n)
            D = np.diag(l)
            if not cplx:
                D = np.zeros((n, n))
                i = 0
                while i < n:
                    if i + 1 < n and rng.rand() < 0.5:
                        a = rng.uniform(0, np.pi)
                        m = mod[i]
                        D[i:i + 2, i:i + 2] = m * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
                        l[i], l[i + 1] = m * np.exp(1j * a), m * np.exp(-1j * a)
                        i += 2
                    else:
                        D[i, i] = l[i] = mod[i] * rng.choice([-1, 1])
                        i += 1
            A = L @ X @ D @ np.linalg.inv(X) @ L.conj().T
        self.A, self.B, self.l, self.sym, self.cplx, self.definite = A, B, np.array(l), sym, cplx, definite
        self.scale = np.abs(self.l).max()
        mon.event('generalised' if gen_ else 'standard')
        for k, f in (('indefinite', sym and not definite and (self.l < 0).any() and (self.l > 0).any()), ('multiple', self.mult), ('complex', cplx),
                     ('non-symmetric', not sym)):
            if f:
                mon.event(k)

    def forms(self, rng, dense=True):
        import scipy.sparse as sp
        f = [sp.csr_array, sp.csc_array, sp.csr_matrix] + ([np.array] if dense else [])
        a = f[rng.randint(len(f))](self.A)
        b = None if self.B is None else f[rng.randint(len(f))](self.B)
        return a, b

KEY = {'SM': np.abs, 'LM': lambda x: -np.abs(x), 'SA': np.real, 'LA': lambda x: -np.real(x), 'SR': np.real, 'LR': lambda x: -np.real(x),
       'LI': lambda x: -abs(np.imag(x)), 'SI': lambda x: abs(np.imag(x))}

def pairs(mon, p, vals, vecs, tol, what, orth=True):
    A, B = p.A, p.B
    vals, vecs = np.asarray(vals), np.asarray(vecs)
    mon.equal('shape', vecs.shape, (p.n, len(vals)), 'shape of vectors, ' + what)
    if vecs.shape != (p.n, len(vals)):
        return
    nrm = np.linalg.norm(vecs, axis=0)
    mon.ok('shape', bool((nrm > 1e-6).all() and np.isfinite(nrm).all()), 'zero or infinite vectors, ' + what)
    if not (nrm > 1e-6).all():
        return
    x = vecs / nrm
    r = A @ x - (x if B is None else B @ x) * vals
    mon.ok('residual', bool(np.linalg.norm(r, axis=0).max() <= tol * p.scale * 10), 'residuals %s of the scale %g, %s'
           % (np.linalg.norm(r, axis=0)[:5], p.scale, what))
    if p.sym and orth:
        bx = x if B is None else B @ x
        G = x.conj().T @ bx
        d = np.sqrt(np.abs(np.diag(G)))
        G = G / d[:, None] / d
        # Vectors of close values are determined less accurately.
        gap = np.abs(vals[:, None] - vals[None, :])
        lim = np.where(gap > 1e-3 * p.scale, 1e5 * tol, 1e-2 if tol > 1e-9 else 1e6 * tol)
        off = np.abs(G - np.diag(np.diag(G)))
        mon.ok('orthogonality', bool((off <= lim).all()), 'the largest product %g of vectors, %s' % (off.max(), what))
        mon.event('orthogonal')

def decide(mon, p, vals, which, k, tol, what):
    """The values are the requested part of the spectrum."""
    vals = np.asarray(vals)
    key = KEY[which](p.l)
    o = np.argsort(key, kind='stable')
    mon.equal('number', len(vals), min(k, p.n), 'number of values, ' + what)
    if len(vals) != min(k, p.n):
        return
    if p.sym:
        mon.ok('real', bool(np.isrealobj(vals) or (np.abs(vals.imag) <= 10 * tol * p.scale).all()), 'complex values of a Hermitian problem, ' + what)
    left = list(p.l)
    for v in vals:
        d = np.abs(np.array(left) - v)
        j = int(np.argmin(d))
        mon.ok('membership', bool(d[j] <= 100 * tol * p.scale), '%s is not an eigenvalue, %s: %s' % (v, what, np.sort_complex(p.l)[:8]))
        left.pop(j)
    if k < p.n and len(vals):
        # Every returned value precedes every value that was left.
        a, b = KEY[which](vals).max(), KEY[which](np.array(left)).min()
        mon.ok('selection', bool(a <= b + 1e-6 * p.scale), '%s requested, got %s but not %s, %s' % (which, vals[:6], np.array(left)[np.argmin(KEY[which](np.array(left)))], what))
        mon.event('selection')

def call(mon, p, a, b, k, rtol, what, kind, orth=True, **kw):
    from sfepy.solvers.eigen import eig
    t = [None]
    vals, vecs = eig(a, b, n_eigs=k, eigenvectors=True, return_time=t, solver_kind=kind, **kw)
    mon.ok('time', t[0] is not None and t[0] >= 0, 'the time of the solution is %r' % (t[0],))
    pairs(mon, p, vals, vecs, rtol, what, orth)
    v2 = eig(a, b, n_eigs=k, eigenvectors=False, solver_kind=kind, **kw)
    mon.equal('values only', np.shape(v2), np.shape(vals), 'shape of the values without vectors, ' + what)
    if np.shape(v2) == np.shape(vals):
        # The order of values with equal moduli or parts is arbitrary.
        left = list(vals)
        for v in v2:
            j = int(np.argmin(np.abs(np.array(left) - v)))
            mon.ok('values only', bool(abs(left[j] - v) <= 200 * rtol * p.scale), '%s without vectors, %s with them, %s' % (v2, vals, what))
            left.pop(j)
    mon.event('values only')
    if np.isrealobj(vals) and kind == 'eig.scipy' and len(vals) > 1:
        d = np.diff(np.asarray(vals))
        e = np.diff(np.abs(vals))
        s = 100 * rtol * p.scale
        mon.ok('order', bool((d >= -s).all() or (d <= s).all() or (e >= -s).all() or (e <= s).all()), 'unordered values %s, %s' % (vals, what))
    return np.asarray(vals), np.asarray(vecs)

def zero(mon, rng, a, b, n, kind, **kw):
    from sfepy.solvers.eigen import eig
    vals, vecs = eig(a, b, n_eigs=0, eigenvectors=True, solver_kind=kind, **kw)
    mon.equal('zero', list(np.shape(vals) + np.shape(vecs)), [0, n, 0], 'no requested values')
    mon.equal('zero', np.shape(eig(a, b, n_eigs=0, eigenvectors=False, solver_kind=kind, **kw)), (0,), 'no requested values')
    mon.event('zero requested')

def run_dense(mon, case):
    rng = gen.rngof(case)
    sym = bool(rng.rand() < 0.6)
    p = P(mon, rng, sym=sym, cplx=bool(rng.rand() < 0.3))
    a, b = p.forms(rng)
    method = 'eigh' if sym and rng.rand() < 0.7 else 'eig'
    which = str(rng.choice(['SM', 'LM']))
    k = None if rng.rand() < 0.3 else 1 + rng.randint(p.n)
    if k is not None and k < p.n:
        # Do not separate values of equal moduli.
        m = np.sort(np.abs(p.l))
        m = m if which == 'SM' else m[::-1]
        while k < p.n and abs(m[k] - m[k - 1]) < 1e-6 * p.scale:
            k += 1
    what = 'eig.scipy %s %s, n_eigs %s of %d, %s' % (method, which, k, p.n, 'generalised' if b is not None else 'standard')
    vals, vecs = call(mon, p, a, b, k, 1e-9, what, 'eig.scipy', orth=method == 'eigh', method=method, which=which)
    decide(mon, p, vals, which, p.n if k is None else k, 1e-9, what)
    mon.event('dense')
    if rng.rand() < 0.2:
        zero(mon, rng, a, b, p.n, 'eig.scipy', method=method)
    mon.sig('dense', method, which, k is None, b is None, p.cplx, p.definite)

def gap(rng, p, which, nmax):
    """A number of values with a gap at the selection boundary."""
    key = np.sort(KEY[which](p.l))
    ks = [k for k in range(1, min(nmax, p.n - 1) + 1) if key[k] - key[k - 1] > 0.02 * p.scale / p.n]
    return int(rng.choice(ks)) if ks else None

def run_sparse(mon, case):
    rng = gen.rngof(case)
    sym = bool(rng.rand() < 0.6)
    cplx = bool(rng.rand() < 0.25)
    p = P(mon, rng, sym=sym, cplx=cplx, multiple=False)
    if p.n < 6:
        p = P(mon, rng, sym=sym, cplx=cplx, multiple=False, nmax=40)
    if p.n < 6:
        return
    a, b = p.forms(rng)
    method = 'eigsh' if sym and rng.rand() < 0.7 else 'eigs'
    kw = dict(method=method, tol=1e-12, maxiter=20000)
    import scipy.sparse as sp
    mode = rng.randint(3)
    which = str(rng.choice(['SM', 'LM', 'SA', 'LA'] if method == 'eigsh' and not cplx else ['LM', 'LR'] if method == 'eigs' else ['SM', 'LM']))
    q = p
    real_which = which
    if mode:
        # Shift and invert: the values closest to the shift.
        sigma = 0.0 if rng.rand() < 0.4 else float((0.5 + rng.rand()) * np.abs(p.l).mean() * (1 if p.definite else rng.choice([-1, 1])))
        d = np.abs(p.l - sigma)
        if np.sort(d)[0] < 1e-3 * p.scale / p.n:
            return
        kw.update(sigma=sigma)
        which = real_which = 'LM'
        KEY['sigma'] = lambda x, s=sigma: np.abs(x - s)
        real_which = 'sigma'
        if mode == 2:
            a, b = sp.csc_array(p.A), None if b is None else sp.csc_array(p.B)
            kw['linear_solver'] = (str(rng.choice(['ls.scipy_superlu', 'ls.scipy_umfpack', 'ls.mumps'] if not cplx else ['ls.scipy_superlu', 'ls.scipy_umfpack'])), {})
    k = gap(rng, p, real_which, p.n - 3)
    if k is None:
        return
    what = 'eig.scipy %s %s%s, n_eigs %d of %d, %s' % (method, which, {0: '', 1: ', sigma %g' % kw.get('sigma', 0), 2: ', sigma %g by %s' % (kw.get('sigma', 0), kw.get('linear_solver'))}[mode],
                                                     k, p.n, 'generalised' if b is not None else 'standard')
    from scipy.sparse.linalg import ArpackError
    try:
        vals, vecs = call(mon, p, a, b, k, 1e-8, what, 'eig.scipy', orth=method == 'eigsh', which=which, **kw)
    except ArpackError:
        mon.inconclusive('no convergence')
        return
    decide(mon, p, vals, real_which, k, 1e-8, what)
    mon.event('sparse')
    if mode == 2:
        mon.event('inverse operator')
    mon.sig('sparse', method, which, mode, b is None, p.cplx, kw.get('sigma', None) == 0.0)

def run_lapack(mon, case):
    from sfepy.solvers.eigen import eig
    rng = gen.rngof(case)
    cplx = bool(rng.rand() < 0.4)
    p = P(mon, rng, cplx=cplx)
    if cplx and p.B is not None and rng.rand() < 0.3:
        # Only one of the matrices is complex.
        if rng.rand() < 0.5:
            p.A = p.A.real.copy()
        else:
            p.B = p.B.real.copy()
        import scipy.linalg as sl
        p.l = sl.eigh(p.A, p.B, eigvals_only=True)
        p.scale = np.abs(p.l).max()
    a, b = p.forms(rng)
    A0, B0 = p.A.copy(), None if p.B is None else p.B.copy()
    k = None if rng.rand() < 0.3 else 1 + rng.randint(p.n)
    what = 'eig.sgscipy, n_eigs %s of %d, %s' % (k, p.n, 'generalised' if b is not None else 'standard')
    vals, vecs = call(mon, p, a, b, k, 1e-9, what, 'eig.sgscipy')
    decide(mon, p, vals, 'SA', p.n if k is None else k, 1e-9, what)
    mon.ok('order', bool((np.diff(vals) >= -1e-9 * p.scale).all()), 'unordered values, ' + what)
    for x, y in ((a, A0), (b, B0)):
        if x is not None:
            mon.close('inputs', x.toarray() if hasattr(x, 'toarray') else x, y, 0, 0, msg='the matrix was changed')
    mon.event('lapack')
    if rng.rand() < 0.3:
        zero(mon, rng, a, b, p.n, 'eig.sgscipy')
    if rng.rand() < 0.3:
        # No eigenvalues can be computed with an indefinite mass matrix.
        B = np.eye(p.n)
        B[rng.randint(p.n)] *= -1
        try:
            vals, vecs = eig(a, B, eigenvectors=True, solver_kind='eig.sgscipy')
        except Exception:
            pass
        else:
            r = p.A @ vecs - (B @ vecs) * vals
            mon.ok('residual', bool(np.abs(r).max() <= 1e-7 * p.scale), 'not eigenpairs for an indefinite matrix, residual %g' % np.abs(r).max())
        mon.event('not definite')
    mon.sig('lapack', k is None, b is None, p.cplx, p.definite)

def run_lobpcg(mon, case):
    rng = gen.rngof(case)
    p = P(mon, rng, multiple=False, nmax=60)
    a, b = p.forms(rng, dense=False)
    largest = bool(rng.rand() < 0.5)
    which = 'LA' if largest else 'SA'
    k = None if rng.rand() < 0.1 else gap(rng, p, which, max(1, p.n // 5))
    import scipy.sparse as sp
    pre = None
    if p.definite and rng.rand() < 0.4 and not largest:
        pre = sp.csr_array(np.linalg.inv(p.A))
    what = 'eig.scipy_lobpcg, largest %s, n_eigs %s of %d, %s' % (largest, k, p.n, 'generalised' if b is not None else 'standard')
    vals, vecs = call(mon, p, a, b, k, 1e-7, what, 'eig.scipy_lobpcg', i_max=4000, eps_a=1e-9 * p.scale, largest=largest, precond=pre)
    decide(mon, p, vals, which, p.n if k is None else k, 1e-6, what)
    mon.event('lobpcg')
    mon.sig('lobpcg', largest, k is None, b is None, pre is None)

def run_primme(mon, case):
    rng = gen.rngof(case)
    p = P(mon, rng, multiple=False, nmax=40, cplx=bool(rng.rand() < 0.2))
    a, b = p.forms(rng, dense=False)
    which = str(rng.choice(['SM', 'LM', 'SA', 'LA']))
    k = gap(rng, p, which, p.n - 1)
    if k is None:
        return
    what = 'eig.primme %s, n_eigs %s of %d, %s' % (which, k, p.n, 'generalised' if b is not None else 'standard')
    w2 = which.lower() if rng.rand() < 0.3 else which
    try:
        vals, vecs = call(mon, p, a, b, k, 1e-8, what, 'eig.primme', which=w2, tol=1e-11)
    except Exception as e:
        if 'Primme' in type(e).__name__:
            mon.inconclusive('PRIMME error')
            return
        raise
    decide(mon, p, vals, which, k, 1e-7, what)
    mon.event('primme')
    mon.sig('primme', which, b is None, p.cplx, p.definite)

def run_quadratic(mon, case):
    import scipy.sparse as sp
    from sfepy.base.base import Struct
    from sfepy.solvers import Solver
    rng = gen.rngof(case)
    n = 2 + rng.randint(9)
    cplx = bool(rng.rand() < 0.3)
    def rnd(sym, pd=False):
        x = rng.randn(n, n) + (1j * rng.randn(n, n) if cplx and not pd else 0)
        if pd:
            return x @ x.T / n + np.eye(n)
        return 0.5 * (x + x.conj().T) if sym else x
    sym = bool(rng.rand() < 0.5)
    M = rnd(sym, pd=True) * (0.5 + rng.rand())
    D = rnd(sym) if rng.rand() < 0.8 else 0.1 * M
    K = rnd(sym, pd=sym and not cplx) + 2 * np.eye(n)
    mode = str(rng.choice(['normal', 'inverted']))
    debug = bool(rng.rand() < 0.3)
    k = None if rng.rand() < 0.5 else 1 + rng.randint(2 * n)
    which = str(rng.choice(['SM', 'LM']))
    f = [sp.csr_array, sp.csc_array, sp.coo_array][rng.randint(3)]
    st = {}
    sol = Solver.any_from_conf(Struct(name='q', kind='eig.qevp', mode=mode, debug=debug, method='companion',
                                      solver=dict(kind='eig.scipy', method='eig', which=which)))
    w, x = sol(f(M), f(D), f(K), n_eigs=k, eigenvectors=True, status=st)
    mon.equal('number', [len(w)] + list(x.shape), [2 * n if k is None else k, n, 2 * n if k is None else k], 'numbers of values and vectors')
    x = x / np.linalg.norm(x, axis=0)
    s = np.linalg.norm(M, 2) * np.abs(w)**2 + np.linalg.norm(D, 2) * np.abs(w) + np.linalg.norm(K, 2)
    r = np.linalg.norm(M @ x * w**2 + D @ x * w + K @ x, axis=0)
    mon.ok('residual', bool((r <= 1e-8 * s * max(1, np.linalg.cond(M))).all()), 'quadratic residuals %s of the scale %s' % (r[:5], s[:5]))
    C = np.block([[np.zeros((n, n)), np.eye(n)], [-np.linalg.solve(M, K), -np.linalg.solve(M, D)]])
    ref = np.linalg.eigvals(C)
    left = list(ref)
    for v in w:
        d = np.abs(np.array(left) - v)
        j = int(np.argmin(d))
        mon.ok('membership', bool(d[j] <= 1e-4 * np.abs(ref).max()), '%s is not an eigenvalue of %s' % (v, ref[:6]))
        left.pop(j)
    if k is not None and k < 2 * n:
        # The selection applies to the linearised problem.
        sg = 1 if (which == 'SM') == (mode == 'normal') else -1
        a, b = (sg * np.abs(w)).max(), (sg * np.abs(left)).min()
        mon.ok('selection', bool(a <= b + 1e-6 * np.abs(ref).max()), '%s requested in the %s mode: %s left %s' % (which, mode, w[:5], left[:5]))
    w2 = sol(f(M), f(D), f(K), n_eigs=k, eigenvectors=False, status={})
    mon.equal('values only', np.shape(w2), np.shape(w), 'shape of the values without vectors')
    if np.shape(w2) == np.shape(w):
        mon.close('values only', np.sort(np.abs(w2)), np.sort(np.abs(w)), 1e-6, 1e-7 * np.abs(ref).max(), msg='moduli of the values without vectors')
    mon.event('quadratic')
    if mode == 'inverted':
        mon.event('inverted')
    mon.sig('quadratic', mode, debug, k is None, which, cplx, sym)

def run_lanczos(mon, case):
    import scipy.sparse as sp
    from sfepy.linalg.eigen import cg_eigs, sym_tri_eigen
    rng = gen.rngof(case)
    n = 2 + rng.randint(9)
    d, e = rng.randn(n), rng.randn(n)
    T = np.diag(d) + np.diag(e[:-1], 1) + np.diag(e[:-1], -1)
    ref = np.linalg.eigvalsh(T)
    mon.close('tridiagonal', sym_tri_eigen(np.array([d, e])), ref, 1e-10, 1e-11, msg='values of a tridiagonal matrix')
    lo = rng.randint(n)
    hi = lo + rng.randint(n - lo)
    mon.close('tridiagonal', sym_tri_eigen(np.array([d, e]), select_indices=(lo, hi)), ref[lo:hi + 1], 1e-10, 1e-11, msg='values %d to %d' % (lo, hi))
    mon.close('tridiagonal', sym_tri_eigen(np.array([d, e]), select_indices=(lo, n + 3)), ref[lo:], 1e-10, 1e-11, msg='values from %d' % lo)
    l = np.cumsum(0.5 + rng.rand(n)) * 10**rng.uniform(-1, 1)
    sh = None
    if rng.rand() < 0.4:
        l = l - 0.5 * l[-1]
        sh = -float(1.0 + rng.rand()) if rng.rand() < 0.5 else float(l[-1] + 1)
    Q = unitary(rng, n, False)
    A = Q @ np.diag(l) @ Q.T
    A = 0.5 * (A + A.T)
    rhs = Q @ (0.5 + rng.rand(n)) * 10**rng.uniform(-2, 2)
    sel = None if rng.rand() < 0.6 else (0, rng.randint(n))
    fm = [sp.csr_array, np.array, sp.csc_array][rng.randint(2)] if sh is None else sp.csr_array
    pre = None if rng.rand() < 0.6 else sp.csr_array(np.diag(0.5 + rng.rand(n)))
    x, it, rs, eigs = cg_eigs(fm(A), rhs=rhs, precond=pre, shift=sh, select_indices=sel, eps_r=1e-13, i_max=n)
    s = 0.0 if sh is None else sh if sh > 0 else -sh * np.abs(A).sum(1).max()
    As = A + s * np.eye(n)
    mon.close('lanczos', As @ x, rhs, 0, 1e-5 * np.linalg.norm(rhs), msg='solution by conjugate gradients')
    mon.close('lanczos', rs[0], np.linalg.norm(rhs), 1e-12, msg='the initial residual')
    ref = l if pre is None else np.sort(np.linalg.eigvals(pre.toarray() @ As).real) - s
    if len(rs) == n + 1:
        r2 = ref if sel is None else ref[sel[0]:sel[1] + 1]
        mon.close('lanczos', eigs, r2, 1e-3, 1e-4 * (np.abs(ref).max() + s), msg='Lanczos values')
    else:
        mon.ok('lanczos', bool((eigs >= ref[0] - 1e-4 * (np.abs(ref).max() + s)).all() and (eigs <= ref[-1] + 1e-4 * (np.abs(ref).max() + s)).all()), 'Lanczos values out of the spectrum')
    mon.event('lanczos')
    mon.sig('lanczos', sh is None, sel is None, pre is None)

def run_app(mon, case):
    import os
    import shutil
    import tempfile
    import scipy.linalg as sl
    from sfepy.applications.evp_solver_app import EVPSolverApp
    from sfepy.base.base import Struct, IndexedStruct
    from sfepy.base.conf import ProblemConf
    from rvm import tdep
    rng = gen.rngof(case)
    tmp = tempfile.mkdtemp()
    try:
        kind = str(rng.choice(['2_3', '2_4', '3_4', '3_8']))
        raw = gen.raw_mesh(rng, kind, size=3 if kind[0] == '2' else 2, jitter=0, holes=False, affine=False)
        mesh = gen.to_mesh(raw)
        dim = mesh.dim
        vector = bool(rng.rand() < 0.4)
        n_eigs = None if rng.rand() < 0.2 else int(rng.randint(1, 6))
        only = bool(rng.rand() < 0.25)
        rhs = bool(rng.rand() < 0.8)
        solver = [('eig.scipy', dict(method='eigh')), ('eig.sgscipy', {}), ('eig.scipy', dict(method='eig'))][rng.randint(3)]
        x0 = float(np.min(mesh.coors[:, 0]))
        k, c = float(0.5 + rng.rand()), float(0.5 + rng.rand())
        sh = 'vector' if vector else 1
        lhs = 'dw_lin_elastic.2.Omega(m.D, v, u)' if vector else 'dw_laplace.2.Omega(m.k, v, u) + dw_dot.2.Omega(m.c, v, u)'
        from sfepy.mechanics.matcoefs import stiffness_from_lame
        desc = dict(filename_mesh=tdep.mesh_hook(mesh), options=dict(n_eigs=n_eigs, eigs_only=only, evps='eig', output_dir=tmp),
                    regions={'Omega': 'all', 'Left': ('vertices in (x < %.12e)' % (x0 + 1e-8), 'facet')},
                    materials={'m': ({'k': k, 'c': c, 'D': stiffness_from_lame(dim, 1.0, 0.7)},)},
                    fields={'f': ('real', sh, 'Omega', 1)}, variables={'u': ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u')},
                    ebcs={'e': ('Left', {'u.all': 0.0})} if vector or rng.rand() < 0.6 else {},
                    equations=dict([('lhs', lhs)] + ([('rhs', 'dw_dot.2.Omega(m.c, v, u)')] if rhs else [])),
                    solvers={'eig': solver})
        conf = ProblemConf.from_dict(desc, Struct(__file__=__file__))
        app = EVPSolverApp(conf, Struct(output_filename_trunk=None, save_ebc=False, save_ebc_nodes=False, save_regions=False, save_regions_as_groups=False, solve_not=False), 'evp:')
        status = IndexedStruct()
        pb, evp = app(status=status) if rng.rand() < 0.5 else app()
        var = pb.get_variables()
        from sfepy.discrete import Problem
        p2 = Problem.from_conf(ProblemConf.from_dict(dict(desc), Struct(__file__=__file__)))
        p2.time_update()
        A = p2.evaluate(desc['equations']['lhs'], mode='weak', auto_init=True, dw_mode='matrix').toarray()
        B = p2.evaluate(desc['equations']['rhs'], mode='weak', dw_mode='matrix').toarray() if rhs else None
        ref = sl.eigh(A, B, eigvals_only=True)
        kk = len(ref) if n_eigs is None else min(n_eigs, len(ref))
        s = np.abs(ref).max()
        what = 'EVPSolverApp with %s' % (solver,)
        mon.equal('app', len(evp.eigs), kk, 'number of values')
        if hasattr(status, 'nls_status'):
            mon.equal('app', status.nls_status.conditions, (n_eigs or kk) - kk, 'the status after all requested values were found')
        mon.close('app', np.sort(np.real(evp.eigs)), ref[:kk], 1e-7, 1e-9 * s, msg='values of ' + what)
        rows = np.loadtxt(app.eig_results_name, dtype=complex if np.iscomplexobj(evp.eigs) else float, ndmin=1) if not np.iscomplexobj(evp.eigs) else None
        if rows is not None:
            mon.close('app', np.ravel(rows), np.asarray(evp.eigs), 1e-12, 1e-12 * s, msg='saved values')
        if only:
            mon.ok('app', evp.vecs is None, 'vectors that were not requested')
        else:
            mon.equal('app', evp.vecs.shape, (var.di.n_dof_total, kk), 'shape of the full vectors')
            for i in range(kk):
                full = evp.vecs[:, i]
                red = var.reduce_vec(full)
                r = A @ red - evp.eigs[i] * (red if B is None else B @ red)
                mon.ok('residual', bool(np.linalg.norm(r) <= 1e-7 * max(s, np.abs(A).max()) * np.linalg.norm(red)), 'residual %g of the pair %d, %s' % (np.linalg.norm(r), i, what))
                if desc['ebcs']:
                    u = np.real(full).reshape(-1, dim if vector else 1)
                    mon.close('app', u[mesh.coors[:, 0] < x0 + 1e-8], 0 * u[mesh.coors[:, 0] < x0 + 1e-8], 0, 0, msg='vectors on the clamped side')
    finally:
        shutil.rmtree(tmp)
    mon.event('application')
    mon.sig('app', kind, vector, n_eigs is None, only, rhs, solver[0])
