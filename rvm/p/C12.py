"""
C12: Linear solvers solve the current system or say they did not.

Monitor: random histories of calls of each available solver object (direct: SuperLU, UMFPACK,
automatic, MUMPS, PARDISO; iterative: SciPy, PyAMG multigrid and Krylov methods; automatic
fallbacks; MUMPS with a Schur complement): the matrix is kept, changed in place
(all values, a single entry), replaced (same or other sparsity, size, symmetry, number type,
sparse format, unsorted indices, duplicates), factorisations are reused, forced to be recomputed,
prepared in advance, cleared; new right-hand sides, start vectors, tolerances and limits.
Watched in each call: the residual of the system given in that call, computed
independently in a dense matrix before the call, rounding level for direct solvers, the documented tolerance
for iterative ones which stopped before the limit; reports (number of iterations equal to
the number of callbacks, limits respected, convergence messages) agree with the
residuals; arguments are not changed; singular systems are not solved silently.
"""
import warnings
import numpy as np
import scipy.sparse as sp
from .. import gen

DIRECT = ['ls.scipy_direct', 'ls.scipy_superlu', 'ls.scipy_umfpack', 'ls.mumps', 'ls.pypardiso',
          'ls.auto_direct', 'ls.cholesky']
SCIPY = ['cg', 'bicg', 'bicgstab', 'cgs', 'gmres', 'minres', 'qmr', 'lgmres', 'tfqmr', 'gcrotmk']
KRYLOV = ['cg', 'bicgstab', 'gmres', 'fgmres', 'cr', 'cgne', 'cgnr', 'steepest_descent', 'minimal_residual']

REQUIRED = ['large', 'swap', 'ls.scipy_direct', 'ls.scipy_superlu', 'ls.scipy_iterative', 'same', 'inplace', 'entry',
            'values', 'pattern', 'size', 'dtype', 'presolve', 'reused', 'clear', 'no digest', 'not converged',
            'precond', 'callback', 'singular', 'fallback', 'x0', 'problem', 'solve()']
ASSUMPTIONS = ['Solvers which are not installed (PETSc, the required version of CHOLMOD) are skipped',
               'Tolerances of Krylov solvers are decided on well conditioned systems with a factor of ten, after which the recursive and true residuals may differ by rounding (TFQMR with a larger one; MINRES, which uses another criterion, is not decided)',
               'With use_mtx_digest=False the matrix changes only after clear(), as required']

_avail = {}

def make(kind, **conf):
    """A solver or None where the solver is not installed."""
    from sfepy.base.base import Struct
    import sfepy.discrete  # noqa: F401
    from sfepy.solvers import Solver
    conf = Struct(name='s', kind=kind, **conf)
    if kind == 'ls.cholesky':
        try:
            from sksparse.cholmod import Factor  # noqa: F401
        except ImportError:
            return None                         # Another version.
    try:
        return Solver.any_from_conf(conf)
    except (ImportError, OSError):
        return None
    except ValueError as e:
        if 'cannot import' in str(e) or 'not available' in str(e):
            return None
        raise

def cases(rng, tier):
    n = dict(quick=3, thorough=100)[tier]
    out = []
    for k in DIRECT:
        for i in range(14 * n):
            out.append(dict(kind='direct', ls=k, presolve=i % 2))
    for m in SCIPY:
        for i in range(4 * n):
            out.append(dict(kind='scipy', method=m))
    for i in range(16 * n):
        out.append(dict(kind='pyamg', method=['smoothed_aggregation_solver', 'ruge_stuben_solver'][i % 2]))
    for m in KRYLOV:
        for i in range(3 * n):
            out.append(dict(kind='krylov', method=m))
    for k in DIRECT:
        for i in range(2 * n):
            out.append(dict(kind='singular', ls=k))
    for k in DIRECT:
        out.append(dict(kind='large', ls=k, cost=3))
    for i in range(8 * n):
        out.append(dict(kind='fallback'))
    for i in range(8 * n):
        out.append(dict(kind='problem', cost=3))
    for i in range(6 * n):
        out.append(dict(kind='schur', cost=3))
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

# -- systems ------------------------------------------------------------------------------------

def matrix(rng, n, sym, cplx=False, density=0.3, cls='spd'):
    """A well conditioned matrix (dense array)."""
    if rng.rand() < 0.1:
        A = np.zeros((n, n))                    # A diagonal matrix.
    elif cls == 'fe' or rng.rand() < 0.3:
        A = np.zeros((n, n))                    # A chain with branches.
        for i in range(1, n):
            j = i - 1 if rng.rand() < 0.7 else int(rng.randint(i))
            v = 0.2 + rng.rand()
            A[i, j] -= v
            A[j, i] -= v if sym else v * (0.3 + rng.rand())
    else:
        A = rng.randn(n, n) * (rng.rand(n, n) < density)
        A = 0.5 * (A + A.T) if sym else A
    if not sym and cls != 'spd' and rng.rand() < 0.4 and n > 3:
        # The same number of entries below and above the diagonal, other places.
        A = np.zeros((n, n))
        v = np.round(rng.rand(n // 2) + 0.1, 2)
        for q in v:
            i, j = sorted(rng.choice(n, 2, replace=False))
            A[i, j] = q
            i, j = sorted(rng.choice(n, 2, replace=False))
            A[j, i] = q
    if cplx:
        B = rng.randn(n, n) * (A != 0)
        A = A + 1j * (0.5 * (B + B.T) if sym else B)
    np.fill_diagonal(A, 0)
    d = abs(A).sum(1) + 0.1 + rng.rand(n)
    if cls == 'general' and rng.rand() < 0.5:
        d = d * rng.choice([-1, 1], n)
    A = A + np.diag(d * (1 if not cplx else (1 + 0.2j)))
    s = 10.0 ** rng.uniform(-3, 3) if rng.rand() < 0.3 else 1.0
    return A * s

def sparse(rng, A, fmt='csr', messy=False):
    """The given matrix in a sparse format, possibly with unsorted indices and zeros stored."""
    mask = A != 0
    if messy:
        mask = mask | (rng.rand(*A.shape) < 0.1)
    r, c = np.where(mask)
    M = sp.csr_array((A[r, c], (r, c)), shape=A.shape)
    M.indices, M.indptr = M.indices.astype(np.int32), M.indptr.astype(np.int32)
    M.sort_indices()
    if messy and rng.rand() < 0.5:
        for i in range(A.shape[0]):
            s = slice(M.indptr[i], M.indptr[i + 1])
            p = rng.permutation(s.stop - s.start)
            M.indices[s] = M.indices[s][p]
            M.data[s] = M.data[s][p]
        M.has_sorted_indices = False
    if fmt == 'csr':
        return M
    return M.tocsc() if fmt == 'csc' else M.tocoo()

class History:
    """A sequence of systems."""

    def __init__(self, mon, rng, sym, cls, real_only=False, fmts=('csr',), messy=True, n=None):
        self.mon, self.rng, self.sym, self.cls = mon, rng, sym, cls
        self.real_only, self.fmts, self.messy = real_only, fmts, messy
        self.n = int(rng.randint(2 if self.real_only else 1, 40)) if n is None else n
        self.cplx = (not real_only) and rng.rand() < 0.2
        self.new()

    def new(self):
        rng = self.rng
        self.A = matrix(rng, self.n, self.sym, self.cplx, cls=self.cls)
        self.fmt = self.fmts[rng.randint(len(self.fmts))]
        self.M = sparse(rng, self.A, self.fmt, self.messy and rng.rand() < 0.4)

    def step(self):
        """Change the matrix; returns the kind of the change."""
        rng = self.rng
        what = ['same', 'same', 'inplace', 'entry', 'values', 'copy', 'pattern', 'size', 'dtype', 'perm', 'swap'][rng.randint(11)]
        if what == 'inplace':
            s = 1.0 + rng.rand()
            self.A = self.A * s
            self.M.data *= s
        elif what == 'entry':
            # One diagonal entry in place.
            i = int(rng.randint(self.n))
            d = self.A[i, i] * (0.5 + rng.rand())
            if self.fmt == 'coo':
                k = np.where((self.M.row == i) & (self.M.col == i))[0]
            else:
                sl = np.arange(self.M.indptr[i], self.M.indptr[i + 1])
                k = sl[self.M.indices[sl] == i]
            self.M.data[k] += d
            self.A = self.A.copy()
            self.A[i, i] += d
        elif what == 'swap' and self.fmt != 'coo':
            # Two diagonal entries exchanged in place: the same values.
            A = self.A
            def places(i):
                sl = np.arange(self.M.indptr[i], self.M.indptr[i + 1])
                return sl[self.M.indices[sl] == i]
            off = np.maximum(np.abs(A).sum(0), np.abs(A).sum(1)) - np.abs(np.diag(A))
            ok = [(i, j) for i in range(self.n) for j in range(i) if A[i, i] != A[j, j] and abs(A[j, j]) > 1.05 * off[i] and abs(A[i, i]) > 1.05 * off[j]
                  and len(places(i)) == len(places(j)) == 1]
            if not ok:
                self.mon.event('same')
                return 'same'
            i, j = ok[rng.randint(len(ok))]
            k, l = places(i)[0], places(j)[0]
            self.M.data[[k, l]] = self.M.data[[l, k]]
            self.A = A.copy()
            self.A[i, i], self.A[j, j] = A[j, j], A[i, i]
        elif what == 'values':
            B = matrix(rng, self.n, self.sym, self.cplx, cls=self.cls)
            A = self.A * 0.5 + 0.25 * np.diag(np.diag(self.A)) * rng.rand() + 0 * B
            k = self.M.data * 0.5
            self.A = A
            self.M = sparse(rng, A, self.fmt)
        elif what == 'copy':
            self.M = self.M.copy()
        elif what == 'pattern':
            self.new()
        elif what == 'size':
            self.n = int(rng.randint(2 if self.real_only else 1, 40))
            self.new()
        elif what == 'dtype':
            if not self.real_only:
                self.cplx = not self.cplx
            self.new()
        elif what == 'perm':
            # The same entries and sums, other places.
            p = rng.permutation(self.n)
            self.A = self.A[np.ix_(p, p)]
            self.M = sparse(rng, self.A, self.fmt)
        self.mon.event(what)
        return what

    def rhs(self):
        rng = self.rng
        k = rng.randint(12)
        if k == 0:
            return np.zeros(self.n, dtype=self.A.dtype)
        b = rng.randn(self.n) * 10.0 ** rng.uniform(-2, 2)
        if np.iscomplexobj(self.A):
            b = b + 1j * rng.randn(self.n)
        if k == 1:
            b = np.repeat(b, 2)[::2]
        return b

def snapshot(M):
    c = M.tocoo()
    return c.toarray(), M.data.copy()

def decide(mon, kind, A, x, b, tol, msg):
    x = np.asarray(x)
    mon.equal(kind, x.shape, b.shape, 'shape of the solution')
    r = A @ x - b
    s = abs(A).sum(1).max() * abs(x).max(initial=0) + abs(b).max(initial=0)
    mon.close(kind, r, np.zeros_like(r), atol=tol * s + 1e-300, msg=msg)

# -- direct solvers -----------------------------------------------------------------------------

def run_direct(mon, case):
    import scipy.sparse as sps  # noqa: F401
    rng = gen.rngof(case)
    ls = case['ls']
    conf = {}
    digest = True
    if ls != 'ls.pypardiso':
        conf['use_presolve'] = bool(case['presolve'])
        if case['presolve'] and rng.rand() < 0.3:
            conf['use_mtx_digest'] = digest = False
    solver = make(ls, **conf)
    if solver is None:
        mon.ok('skipped', True, '')
        return
    sym = ls == 'ls.cholesky' or rng.rand() < 0.4
    H = History(mon, rng, sym, 'spd' if ls == 'ls.cholesky' else 'general',
                real_only=ls in ('ls.cholesky', 'ls.pypardiso'),
                fmts=('csr', 'csr', 'csr', 'csc') if ls not in ('ls.pypardiso',) else ('csr',),
                messy=ls not in ('ls.pypardiso',))
    mon.event(ls)
    status = {}
    for k in range(int(rng.randint(3, 9))):
        if ls in ('ls.mumps', 'ls.auto_direct'):
            H.sym = rng.rand() < 0.5
        what = H.step() if k else 'first'
        M, A = H.M, H.A.copy()
        dense0 = M.toarray()
        mon.close('harness', dense0, A, rtol=1e-14, msg='matrix')
        changed = what not in ('same', 'first')
        if not digest and changed:
            solver.clear()
            mon.event('no digest')
        elif rng.rand() < 0.1:
            solver.clear()
            mon.event('clear')
        for j in range(int(rng.randint(1, 3))):
            b = H.rhs()
            b0, d0 = b.copy(), M.data.copy()
            kw = {}
            if rng.rand() < 0.3:
                kw['x0'] = rng.randn(H.n)
            if rng.rand() < 0.3 and digest:
                try:
                    solver.presolve(M)
                except TypeError:
                    pass
                mon.event('presolve')
            if rng.rand() < 0.5:
                kw['status'] = status
            with warnings.catch_warnings(record=True) as wrn:
                warnings.simplefilter('always')
                x = solver(b, mtx=M, **kw)
            said = [w for w in wrn if 'singular' in str(w.message).lower() or 'Singular' in w.category.__name__]
            if said:
                mon.ok('direct', False, 'a regular system was reported as singular: %s' % said[0].message)
                continue
            decide(mon, ls, A, x, b0, 1e-9, 'residual after: %s, call %d, size %d, format %s, symmetric %s, presolve %s'
                   % (what, k, H.n, H.fmt, H.sym, case['presolve']))
            mon.equal('arguments', b, b0, 'right-hand side changed')
            mon.equal('arguments', M.toarray(), dense0, 'matrix changed')
            if 'status' in kw:
                mon.ok('status', status.get('time', -1.0) >= 0.0 and 'n_iter' in status, 'status not set')
            if j or what == 'same':
                mon.event('reused')
        mon.sig(ls, what, case['presolve'], digest, H.fmt)
    # The convenience function.
    if ls == 'ls.scipy_direct':
        from sfepy.solvers.ls import solve
        b = H.rhs()
        decide(mon, 'solve', H.A, solve(H.M, b), b, 1e-9, 'solve()')
        mon.event('solve()')

def run_large(mon, case):
    """Changes of single entries anywhere in matrices with many entries."""
    import scipy.sparse as sps
    rng = gen.rngof(case)
    ls = case['ls']
    solver = make(ls, **(dict(use_presolve=True) if ls != 'ls.pypardiso' else {}))
    if solver is None:
        mon.ok('skipped', True, '')
        return
    n = int(rng.randint(370, 480))
    A = rng.rand(n, n)
    A = A + A.T + 4 * n * np.eye(n)
    M = sps.csr_array(A)
    mon.event('large')
    for k in range(10):
        b = rng.randn(n)
        decide(mon, ls, A, solver(b, mtx=M), b, 1e-11, 'residual, %d entries, change %d' % (M.nnz, k))
        i, j = rng.randint(n, size=2)
        d = 0.5 * n
        for i, j in {(i, j), (j, i)}:
            A[i, j] += d
            M.data[M.indptr[i] + j] += d
    mon.sig(ls, n)

def run_singular(mon, case):
    """Exactly singular inconsistent systems."""
    rng = gen.rngof(case)
    ls = case['ls']
    conf = {} if ls == 'ls.pypardiso' else dict(use_presolve=bool(rng.randint(2)))
    solver = make(ls, **conf)
    if solver is None or ls == 'ls.pypardiso':     # PARDISO perturbs pivots.
        mon.ok('skipped', True, '')
        return
    n = int(rng.randint(3, 12))
    A = matrix(rng, n, True, cls='spd')
    i = int(rng.randint(n))
    A[i] = 0.0
    A[:, i] = 0.0
    b = rng.randn(n)
    M = sparse(rng, A)
    if rng.rand() < 0.5:
        M = sp.csr_array((np.r_[M.data, 0.0], (np.r_[M.tocoo().row, i], np.r_[M.tocoo().col, i])), shape=A.shape)
    loud, x = None, None
    with warnings.catch_warnings(record=True) as wrn:
        warnings.simplefilter('always')
        try:
            x = solver(b, mtx=M)
        except Exception as e:
            loud = type(e).__name__
    if wrn:
        loud = loud or wrn[0].category.__name__
    if loud is None and not np.isfinite(x).all():
        loud = 'not finite'
    if loud is None and abs(x).max() > 1e8 * abs(b).max():
        loud = 'huge'
    mon.ok('singular', loud is not None, '%s solved a singular system silently' % ls)
    mon.event('singular')
    mon.sig(ls, loud)
    # The solver works afterwards.
    A = matrix(rng, n, True, cls='spd')
    solver2 = solver
    x = solver2(b, mtx=sparse(rng, A))
    decide(mon, 'after_singular', A, x, b, 1e-9, 'a regular system after a singular one: %s' % ls)

# -- iterative solvers --------------------------------------------------------------------------

class Record:
    """Messages of the solvers."""

    def __init__(self, mod):
        self.mod, self.lines = mod, []
        self.old = getattr(mod, 'output', None)

    def __enter__(self):
        if self.old is not None:
            def out(*a, **kw):
                if kw.get('verbose', True):
                    self.lines.append(' '.join(map(str, a)))
            self.mod.output = out
        return self

    def __exit__(self, *a):
        if self.old is not None:
            self.mod.output = self.old

def run_scipy(mon, case):
    iterative(mon, case, 'ls.scipy_iterative')

def run_krylov(mon, case):
    iterative(mon, case, 'ls.pyamg_krylov')

def run_pyamg(mon, case):
    iterative(mon, case, 'ls.pyamg')

def iterative(mon, case, ls):
    from sfepy.solvers import ls as mod
    rng = gen.rngof(case)
    method = case['method']
    symm = method in ('cg', 'minres', 'cr', 'steepest_descent', 'smoothed_aggregation_solver', 'ruge_stuben_solver')
    eps_r = 10.0 ** rng.uniform(-10, -3)
    conf = dict(method=method, eps_r=eps_r, i_max=int(rng.choice([500, 500, 500, 2])))
    eps_a = 0.0
    if ls == 'ls.scipy_iterative':
        eps_a = conf['eps_a'] = float(rng.choice([0.0, 1e-12, 1e-3]))
    conf['verbose'] = int(rng.choice([1, 1, 2, 3]))
    calls, pre = [], []
    own_cb = rng.rand() < 0.5
    if own_cb:
        conf['callback'] = lambda x: calls.append(np.array(x, copy=True))
    use_pre = rng.rand() < 0.4 and ls != 'ls.pyamg' and method not in ('qmr', 'cgne', 'cgnr', 'steepest_descent', 'tfqmr', 'minres',
                                                                       'minimal_residual', 'cr')
    ctx = object()

    def setup(mtx, context):
        pre.append((mtx, context))
        return sp.csr_array(np.diag(1.0 / mtx.diagonal().real))
    if use_pre:
        conf['setup_precond'] = setup
    solver = make(ls, **conf)
    if solver is None:
        mon.ok('skipped', True, '')
        return
    solver.context = ctx
    H = History(mon, rng, symm or rng.rand() < 0.3, 'fe' if symm else 'spd', real_only=True, messy=False,
                n=int(rng.randint(3, 40)))
    mon.event(ls)
    status = {}
    for k in range(int(rng.randint(2, 6))):
        what = H.step() if k else 'first'
        if H.n < 3:
            H.n = 5
            H.new()
        A, M = H.A.copy(), H.M
        dense0 = M.toarray()
        b = H.rhs()
        b0 = b.copy()
        kw = dict(status=status)
        if rng.rand() < 0.4:
            kw['x0'] = rng.randn(H.n)
            if rng.rand() < 0.2:
                kw['x0'] = np.linalg.solve(A, b)
            mon.event('x0')
            x00 = kw['x0'].copy()
        er, ea, im = eps_r, eps_a, conf['i_max']
        if rng.rand() < 0.3:
            er = kw['eps_r'] = 10.0 ** rng.uniform(-10, -3)
        if rng.rand() < 0.2:
            im = kw['i_max'] = int(rng.choice([1, 3, 400]))
        if rng.rand() < 0.2 and ls == 'ls.scipy_iterative':
            ea = kw['eps_a'] = 10.0 ** rng.uniform(-8, -1)
        del calls[:]
        del pre[:]
        with Record(mod) as rec:
            x = np.asarray(solver(b, mtx=M, **kw))
        mon.equal('arguments', b, b0, 'right-hand side changed')
        mon.equal('arguments', M.toarray(), dense0, 'matrix changed')
        if 'x0' in kw:
            mon.equal('arguments', kw['x0'], x00, 'start vector changed')
        it = status.get('n_iter')
        mon.ok('status', it is not None and status.get('time', -1) >= 0, 'status not set')
        if own_cb:
            mon.equal('callback', len(calls), it, '%s: user callbacks for the reported number of iterations' % method)
            mon.event('callback')
        if use_pre:
            mon.ok('precond', len(pre) == 1 and pre[0][0] is M and pre[0][1] is ctx,
                   'the preconditioner is set up once with the current matrix and context')
            mon.event('precond')
        r = np.linalg.norm(A @ x - b)
        nb = np.linalg.norm(b)
        tol = max(er * nb, ea)
        if ls != 'ls.scipy_iterative' and nb == 0.0:
            tol = er                            # PyAMG uses a unit norm then.
        rnd = 1e-12 * (np.linalg.norm(A) * np.linalg.norm(x) + nb)
        inner = {'gmres': H.n, 'lgmres': 40, 'gcrotmk': 40, 'fgmres': H.n}.get(method, 1)
        lim = im * max(inner, 1)
        mon.ok('limit', it <= lim + 1, '%s: %d iterations, limit %d' % (method, it, im))
        text = [t for t in rec.lines if 'convergence:' in t]
        said = None
        if conf['verbose'] and ls != 'ls.pyamg':
            mon.ok('report', len(text) == 1, 'no convergence report: %s' % rec.lines[-1:])
            if text:
                said = '(successful exit' in text[0]
        factor = 10.0
        if method in ('cgne', 'cgnr', 'smoothed_aggregation_solver', 'ruge_stuben_solver'):
            factor = 30.0
        if method == 'tfqmr':
            factor = 1e4
        good = method == 'minres' or r <= factor * tol + 30 * rnd
        msg = ('%s %s: residual %.3e > %.3e after: %s, %d iterations (limit %d), %s'
               % (ls, method, r, tol, what, it, im, text[:1]))
        if said is not None:
            if said:
                mon.ok('truth', good, msg)
            else:
                mon.event('not converged')
                mon.ok('truth', it >= min(im, H.n) - 1 or r > 0, 'failure reported without reason: ' + msg)
        elif ls == 'ls.pyamg':
            mon.ok('converged', good or it >= im, msg)
            if not good:
                mon.event('not converged')
        mon.sig(ls, method, what, said, im < 5)

# -- fallbacks ----------------------------------------------------------------------------------

def run_fallback(mon, case):
    from sfepy.base.base import Struct
    from sfepy.solvers import Solver, use_first_available
    rng = gen.rngof(case)
    H = History(mon, rng, True, 'fe', real_only=True, messy=False, n=8)
    b = rng.randn(8)
    ctx = object()
    mode = rng.randint(4)
    A, M = H.A, H.M
    if mode == 0:
        # A solver which is not installed, with a fallback by conf.
        from sfepy.solvers.solvers import use_first_available
        confs = [('ls.petsc', Struct(name='a', kind='ls.petsc')),
                 ('ls.scipy_direct', Struct(name='b', kind='ls.scipy_direct'))]
        s = use_first_available(confs, context=ctx)
        ok = type(s).name in ('ls.petsc', 'ls.scipy_direct')
        mon.ok('fallback', ok, 'fallback to %s' % s)
    elif mode == 1:
        from sfepy.solvers.ls import ScipyDirect, ScipyIterative
        cls = [ScipyDirect, ScipyIterative][rng.randint(2)]
        extra = dict(eps_r=1e-10) if cls is ScipyIterative else dict(use_presolve=True)
        s = use_first_available([(cls, Struct(name='a', kind=cls.name, **extra))], context=ctx)
        for k, v in extra.items():
            mon.equal('fallback', getattr(s.conf, k), v, 'option %s' % k)
    elif mode == 2:
        conf = {'kind': 'ls.auto_direct', 'use_presolve': True, 'name': 'q'}
        s = Solver.any_from_conf(Struct(**conf), context=ctx)
        mon.equal('fallback', s.conf.use_presolve, True, 'options of the automatic solver')
    else:
        from sfepy.solvers.auto_fallback import AutoIterative, AutoDirect
        cls = [AutoIterative, AutoDirect][rng.randint(2)]
        conf = {'kind': cls.name, 'eps_r': 1e-9, 'i_max': 77} if cls is AutoIterative else {'kind': cls.name}
        c0 = dict(conf)
        s = cls(conf, context=ctx)
        mon.equal('fallback', conf, c0, 'the given configuration was changed')
        for k, v in c0.items():
            if k != 'kind':
                mon.equal('fallback', getattr(s.conf, k), v, 'option %s' % k)
    mon.ok('fallback', s.context is ctx, 'the context was lost (%s)' % type(s).__name__)
    for _ in range(3):
        x = s(b, mtx=M)
        decide(mon, 'fallback_solution', A, x, b, 1e-6, 'residual of %s' % type(s).__name__)
        H.step()
        A, M = H.A, H.M
        b = rng.randn(H.n)
    mon.raises('fallback', ValueError, lambda: use_first_available([('ls.nonsense', Struct(name='x', kind='ls.nonsense'))]))
    mon.event('fallback')
    mon.sig(mode, type(s).__name__)

# -- systems of problems ------------------------------------------------------------------------

def fe_problem(rng, mon=None):
    from . import C11
    B = C11.Box(rng, ['2_3', '2_4', '3_4', '3_8'][rng.randint(4)])
    eqs = B.equations()
    return B, eqs

def run_problem(mon, case):
    """One solver object in a sequence of FE systems with changing conditions and materials."""
    from sfepy.discrete import Problem, Functions
    from sfepy.discrete.conditions import Conditions
    from sfepy.solvers.nls import Newton
    from . import C11
    rng = gen.rngof(case)
    B = C11.Box(rng, ['2_3', '2_4', '3_4', '3_8'][rng.randint(4)])
    ls = [k for k in DIRECT if k != 'ls.cholesky'][rng.randint(6)]
    conf = {} if ls == 'ls.pypardiso' else dict(use_presolve=bool(rng.randint(2)))
    solver = make(ls, **conf)
    if solver is None:
        ls, solver = 'ls.scipy_direct', make('ls.scipy_direct', **conf)
    pb = Problem('p', equations=B.equations())
    nls = Newton({'i_max': 1, 'eps_a': 1e-8, 'is_linear': True, 'lin_red': None}, lin_solver=solver, status={})
    pb.set_solver(nls)
    for k in range(3):
        S = C11.Sys(B, pb.equations)
        todo, f1 = C11.make_ebcs(mon, rng, B, S)
        C11.put_ebcs(B, S, todo)
        pb.functions = Functions(f1)
        pb.set_bcs(ebcs=Conditions([t[1] for t in todo]))
        m = pb.equations.materials['m']
        for j in range(2):
            st = pb.solve(save_results=False, verbose=False)
            x = np.array(st())
            C, d, _ = S.system(x)
            err = C @ x - d
            mon.close('problem', err, np.zeros_like(err), atol=1e-9 * max(1.0, abs(x).max()), msg='conditions')
            N = C11.null(C, S.n)
            r = C11.residual(B, x)
            mon.close('problem', N.T @ r, np.zeros(N.shape[1]), atol=1e-7 * max(1.0, abs(r).max()),
                      msg='%s: unconstrained equations, round %d' % (ls, k))
        mon.event('problem')
    mon.sig(ls, case['seed'] % 4, str(conf))

def run_schur(mon, case):
    """The Schur complement solver with blocks of variables."""
    from sfepy.base.base import Struct
    rng = gen.rngof(case)
    B, eqs = fe_problem(rng)
    eqs.time_update(None, None, None, None, None, verbose=False)
    eqs.init_state()
    from ..p.C10 import dense  # noqa: F401
    adi = eqs.variables.adi
    n = adi.n_dof_total
    name = 'up'[rng.randint(2)]
    relax = int(rng.choice([20, 1000]))
    solver = make('ls.schur_mumps', schur_variables=[name], use_presolve=bool(rng.randint(2)), memory_relaxation=relax)
    if solver is None:
        mon.ok('skipped', True, '')
        return
    solver.context = Struct(equations=eqs)
    for k in range(3):
        A = matrix(rng, n, bool(rng.randint(2)), cls='spd')
        b = rng.randn(n)
        try:
            x = solver(b.copy(), mtx=sparse(rng, A))
        except (RuntimeError, ValueError) as e:
            # MUMPS needs more memory than allowed: said, not solved silently.
            if relax == 20 and ('MUMPS error' in str(e) or 'NaN' in str(e)):
                mon.event('schur refused')
                continue
            raise
        decide(mon, 'schur', A, x, b, 1e-9, 'Schur complement solver, call %d' % k)
    mon.event('schur')
    mon.sig(name, k)
