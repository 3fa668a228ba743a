"""
C13: Nonlinear and optimisation solvers report convergence truthfully.

Monitor: the residual, its gradient and the linear solver given to each solver are replaced
by recording proxies, on random systems: linear, mildly and strongly nonlinear, without
solution, with residuals which cannot be computed in a part of the space (the "warp"
failure), return infinities, or are complex, with exact, inexact, kept and wrong Jacobians,
and random configurations. The recorded trace of calls is checked against the described
algorithm: iterates, trial steps of the line search and their acceptance, evaluations of the
Jacobian, limits; and the report (condition, norms, iterations, warnings) against the residual recomputed
independently at the returned vector. Complementarity problems are checked against an enumeration,
minimisation against the objective and its gradient, flows and nonlinear diffusion
against their assembled residuals.
"""
import warnings
import numpy as np
import numpy.linalg as nla
import scipy.sparse as sp
from .. import gen
from .C12 import Record

REQUIRED = ['linear', 'mild', 'hard', 'unsolvable', 'complex', 'warp', 'gave up', 'converged', 'not converged', 'line search',
            'line search failed', 'error mode', 'or', 'modified', 'is_linear', 'inexact', 'warning', 'iterative',
            'scaled', 'nan', 'hook', 'ainc', 'semismooth', 'nonsmooth', 'active', 'root', 'sd', 'sd full', 'fmin',
            'oseen', 'problem', 'steps', 'failed step', 'step_red', 'raised', 'check']
ASSUMPTIONS = ['Convergence itself is required only where it is known (linear systems, monotone complementarity problems without line search, strongly convex objectives); otherwise only the agreement of the report with the performed iteration']

class Sys:
    """f(x) = A x + c g(x) - b with analytical gradient."""

    def __init__(self, rng, kind, n, cplx=False):
        self.kind, self.n = kind, n
        self.dtype = np.complex128 if cplx else np.float64
        r = lambda *s: rng.normal(size=s) + (1j * rng.normal(size=s) if cplx else 0)
        self.A = r(n, n) / np.sqrt(n) + 3 * np.diag(rng.choice([-1, 1], n))
        if rng.rand() < 0.5:
            self.A = self.A @ self.A.conj().T + np.eye(n)
        self.xs = r(n)
        self.c = dict(linear=0.0, mild=0.3, hard=rng.uniform(2, 20), unsolvable=1.0)[kind]
        self.fun = rng.choice(['cube', 'atan', 'exp']) if not cplx else 'cube'
        self.lim = np.inf
        self.nan = np.inf
        self.b = self.A @ self.xs + self.c * self.g(self.xs)

    def g(self, x):
        if self.fun == 'cube':
            return x**3
        if self.fun == 'atan':
            return 5 * np.arctan(3 * x)
        return np.exp(np.clip(x, -50, 50))

    def dg(self, x):
        if self.fun == 'cube':
            return 3 * x**2
        if self.fun == 'atan':
            return 15 / (1 + 9 * x**2)
        return np.exp(np.clip(x, -50, 50))

    def f(self, x):
        if self.kind == 'unsolvable':
            return np.concatenate([(x[:1] - self.xs[:1])**2 + 1, (self.A @ (x - self.xs))[1:]])
        return self.A @ x + self.c * self.g(x) - self.b

    def J(self, x):
        if self.kind == 'unsolvable':
            out = self.A.copy()
            out[0] = 0
            out[0, 0] = 2 * (x[0] - self.xs[0]) or 1.0
            return out
        return self.A + np.diag(self.c * self.dg(x))

class Trace:
    """Recording proxies."""

    def __init__(self, sys, jac='exact', lin='exact', rng=None, fmt=sp.csr_array):
        self.sys, self.ev, self.jac, self.lin, self.rng, self.fmt = sys, [], jac, lin, rng, fmt
        self.hooks = []
        self.D = None

    def fun(self, x):
        x = x.copy()
        if nla.norm(x) > self.sys.lim:
            self.ev.append(('f', x, None))
            raise ValueError('warp')
        r = self.sys.f(x)
        if nla.norm(x) > self.sys.nan:
            r[-1] = np.nan
        self.ev.append(('f', x, r.copy()))
        return r

    def grad(self, x):
        self.ev.append(('g', x if isinstance(x, str) else x.copy(), None))
        J = self.sys.J(np.zeros(self.sys.n, self.sys.dtype) if isinstance(x, str) else x)
        if self.jac == 'wrong':
            J = -J
        elif self.jac == 'diag':
            J = np.diag(np.diag(J) + 0.1)
        self.M = J.copy()
        return self.fmt(J)

    def hook(self, context, nls, x, it, err, err0):
        self.hooks.append((it, np.array(x), err, err0))

def lin_solver(rng, tr, kind):
    from sfepy.base.base import Struct
    import sfepy.discrete  # noqa: F401
    from sfepy.solvers import Solver
    if kind == 'iterative':
        s = Solver.any_from_conf(Struct(name='ls', kind='ls.scipy_iterative', method='gmres',
                                        eps_r=1e-10, eps_a=1e-12, i_max=1000, verbose=0))
    else:
        s = Solver.any_from_conf(Struct(name='ls', kind='ls.scipy_superlu'))
    cls = type(s)

    class Proxy(cls):
        name = cls.name + '_recorded'
        _no_register = True

        def __call__(self, rhs, x0=None, conf=None, eps_a=None, eps_r=None, i_max=None,
                     mtx=None, status=None, **kwargs):
            r = np.array(rhs)
            old = None if mtx is None else mtx.copy()
            out = cls.__call__(self, rhs, x0=x0, conf=conf, eps_a=eps_a, eps_r=eps_r,
                               i_max=i_max, mtx=mtx, status=status, **kwargs)
            if kind == 'inexact':
                out = out * (1 + 0.02 * np.sin(np.arange(len(out)) + len(tr.ev)))
            tr.ev.append(('s', r, np.array(out), old, eps_a, eps_r,
                          None if status is None else dict(status).get('n_iter', None)))
            return out
    s.__class__ = Proxy
    return s

def cases(rng, tier):
    n = dict(quick=5, thorough=250)[tier]
    out = []
    for kind, c in (('newton', 260), ('warp', 60), ('linear', 40), ('special', 40), ('semi', 70), ('root', 20),
                    ('sd', 60), ('fmin', 24), ('oseen', 3), ('problem', 16)):
        out += [dict(kind=kind, cost=dict(oseen=10, problem=5).get(kind, 1)) for i in range(c * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31))
    return out

def config(rng, **kw):
    c = dict(i_max=int(rng.choice([0, 1, 2, 5, 20])), eps_a=float(10.0**rng.randint(-12, 1)),
             eps_r=float(rng.choice([1.0, 1e-3, 1e-8])), eps_mode=str(rng.choice(['and', 'or'])),
             ls_on=float(rng.choice([0.99999, 0.5, 1e10, 2.0])), ls_red=float(rng.choice([0.1, 0.5])),
             ls_red_warp=float(rng.choice([0.001, 0.3])), ls_min=float(rng.choice([1e-5, 0.3, 1e-2])),
             step_red=float(rng.choice([1.0, 1.0, 0.7])), ls_mode='error' if rng.rand() < 0.3 else 'residual',
             lin_red=[1.0, 1e-3, None][rng.randint(3)], report_status=bool(rng.rand() < 0.3))
    if rng.rand() < 0.3:
        c['lin_precision'] = float(rng.choice([1e-2, 1e-6]))
    c.update(kw)
    return c

def make(kind, conf, **kw):
    from sfepy.base.base import Struct
    import sfepy.discrete  # noqa: F401
    from sfepy.solvers import Solver
    return Solver.any_from_conf(Struct(name='nls', kind=kind, **conf), **kw)

def criterion(c, it, err, err0):
    a = err <= c['eps_a']
    if it == 0:
        return a
    rel = 0.0 if abs(err0) < np.finfo(float).eps else err / err0
    b = rel <= c['eps_r']
    return (a or b) if c.get('eps_mode') == 'or' else (a and b)

def run_newton(mon, case):
    rng = gen.rngof(case)
    kind = str(rng.choice(['linear', 'mild', 'hard', 'hard', 'unsolvable']))
    cplx = kind in ('mild', 'hard') and rng.rand() < 0.2
    s = Sys(rng, kind, int(rng.randint(1, 9)) + (kind == 'unsolvable'), cplx)
    newton(mon, rng, s, config(rng), str(rng.choice(['exact', 'exact', 'exact', 'diag', 'wrong'])))

def run_warp(mon, case):
    rng = gen.rngof(case)
    s = Sys(rng, str(rng.choice(['linear', 'mild', 'hard'])), int(rng.randint(1, 6)))
    c = config(rng, ls_mode='residual', give_up_warp=bool(rng.rand() < 0.4))
    if rng.rand() < 0.8:
        s.lim = nla.norm(s.xs) * rng.uniform(0.5, 1.5)
    else:
        s.nan = nla.norm(s.xs) * rng.uniform(0.5, 1.5)
    newton(mon, rng, s, c, 'exact')

def newton(mon, rng, s, c, jac, ls=None):
    lsk = ls or str(rng.choice(['exact', 'exact', 'inexact', 'iterative']))
    tr = Trace(s, jac, lsk, rng, [sp.csr_array, sp.csc_array][rng.randint(2)])
    mode = {}
    if rng.rand() < 0.3:
        k = int(rng.randint(2, 4))
        c['is_new_jacobian_fun'] = lambda it, it_jac, r1, r0, x1, x0, context=None: (it - it_jac) >= k
        mode['k'] = k
    scaled = rng.rand() < 0.2
    if scaled:
        D = rng.uniform(0.5, 2, s.n)
        S = sp.diags_array(D).tocsr()
        c['scale_system_fun'] = lambda mtx, rhs, x0, context: (S @ mtx @ S, D * rhs, x0 / D)
        c['scale_solution_fun'] = lambda x, context: D * x
        c['scaled_error'] = bool(rng.rand() < 0.5)
        tr.D = D
    lin = lin_solver(rng, tr, lsk)
    st = {}
    late = rng.rand() < 0.5
    kw = dict(fun=tr.fun, fun_grad=tr.grad, lin_solver=lin, status=st)
    nls = make('nls.newton', c, iter_hook=tr.hook, **({} if late else kw))
    if s.lim < np.inf or s.nan < np.inf:
        x0 = rng.normal(size=s.n)
        x0 *= min(s.lim, s.nan) * rng.uniform(0.1, 1.2) / nla.norm(x0)
    else:
        x0 = (s.xs + 10.0**rng.uniform(-3, 1) * rng.normal(size=s.n)).astype(s.dtype)
    if s.kind == 'unsolvable' and rng.rand() < 0.5:
        x0 = s.xs + 1e-6
    keep = x0.copy()
    mon.event('%s%s' % (s.kind, ' complex' if s.dtype == np.complex128 else ''))
    if s.dtype == np.complex128:
        mon.event('complex')
    mon.event(s.kind)
    from sfepy.solvers import nls as mod
    x = exc = None
    with Record(mod) as rec, warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            x = nls(x0, **(kw if late else {}))
        except ValueError as e:
            if 'warp' not in str(e) and 'infs or nans' not in str(e):
                raise
            exc = e
    mon.equal('start-unchanged', x0, keep, 'the initial guess was changed')
    check_trace(mon, c, s, tr, keep, x, exc, st, mode, lsk, [str(m) for m in rec.lines])
    if tr.hooks:
        mon.event('hook', len(tr.hooks))
    for key, ev in (('k', 'modified'),):
        if key in mode:
            mon.event(ev)
    if scaled:
        mon.event('scaled')
    if lsk in ('inexact', 'iterative'):
        mon.event(lsk)
    if c['step_red'] != 1:
        mon.event('step_red')
    if x is not None:
        mon.sig(s.kind, c['ls_mode'], st.get('condition'), min(st.get('n_iter', -1), 6), c['eps_mode'])
    return x, st

def check_trace(mon, c, s, tr, x0, x, exc, st, mode, lsk, msgs):
    """The recorded calls follow the described algorithm and the report agrees with it."""
    tol = 1e-12
    ev = list(tr.ev)
    it, xl, errl, err0 = 0, x0, None, None
    itj, M = 0, None
    dx = np.zeros_like(x0)
    raw = None
    iters = 0
    final = None
    its = []
    gave = False
    warn = []
    while True:
        # The trials of this iteration.
        ls, first = 1.0, True
        acc = None
        while True:
            if not ev or ev[0][0] != 'f':
                break
            _, xt, r = ev.pop(0)
            xe = xl - ls * dx
            mon.close('trial', xt, xe, tol, tol * (1 + abs(xe).max()),
                      msg='iteration %d: trial step with the factor %g' % (it, ls))
            ok = r is not None
            if not ok:
                last = (it == 0) or ls < c['ls_min']
                mon.ok('warp-trials', not (last and ev), 'evaluated after a failed residual')
                if last:
                    mon.ok('raised', exc is not None, 'no exception after a failed residual, iteration %d, step %g'
                           % (it, ls))
                    mon.event('raised')
                    return
                if c.get('give_up_warp'):
                    mon.event('gave up')
                    mon.ok('give-up', not ev, 'continued after a failed residual with give_up_warp')
                    gave = True
                    break
                mon.event('warp')
                ls *= c['ls_red_warp']
                continue
            err = nla.norm(r)
            if not np.isfinite(err):
                mon.event('nan')
                mon.ok('raised', exc is not None and not ev, 'a residual with infinities or nans was accepted')
                return
            if it == 0:
                acc = (xt, r, err)
                break
            if c['ls_mode'] == 'error':
                e = ev.pop(0) if ev and ev[0][0] == 's' else None
                if not mon.ok('error-mode', e is not None, 'no error estimate in the error mode'):
                    return
                mon.event('error mode')
                D = np.ones(s.n) if tr.D is None else tr.D
                mon.close('error-rhs', e[1], D * r, tol, tol, msg='the right-hand side of the error estimate')
                d2 = D * e[2]
                if lsk == 'exact':
                    mon.close('error-solve', M @ d2, r, 1e-8, 1e-8 * (1 + abs(r).max()),
                              msg='the error estimate does not use the current matrix')
                small = nla.norm(d2), nla.norm(dx) * c['ls_on']
            else:
                small = err, errl * c['ls_on']
            if abs(small[0] - small[1]) <= 1e-12 * abs(small[1]):
                mon.event('undecided')
                good = not (ev and ev[0][0] == 'f')
            else:
                good = small[0] < small[1]
            if good:
                acc = (xt, r, err)
                break
            if ls < c['ls_min']:
                mon.event('line search failed')
                acc = (xt, r, err)
                break
            mon.event('line search')
            ls *= c['ls_red']
        if gave:
            final = (xl, None, errl)
            its.append(errl)
            break
        if not mon.ok('trials', acc is not None, 'iteration %d: no further trial step, factor %g, %s'
                      % (it, ls, exc)):
            return
        xt, r, err = acc
        if it == 0:
            err0 = err
        its.append(err)
        final = acc
        done = criterion(c, it, err, err0)
        near = abs(err - c['eps_a']) < 1e-13 * c['eps_a'] or abs(err - c['eps_r'] * err0) < 1e-13 * err0
        if near:
            mon.event('undecided')
            done = not ev
        if done or it >= c['i_max']:
            mon.ok('stop', not ev, 'continued in iteration %d: err %g, err0 %g, %s' % (it, err, err0, c))
            break
        # The matrix.
        want = M is None or mode.get('k') is None or it - itj >= mode['k']
        has = bool(ev) and ev[0][0] == 'g'
        if not mon.ok('stop-early', bool(ev), 'stopped in iteration %d: err %g, err0 %g, %s %s' % (it, err, err0, c, exc)):
            break
        mon.ok('jacobian', has == want, 'iteration %d: the Jacobian was %sevaluated' % (it, '' if has else 'not '))
        if has:
            _, xg, _ = ev.pop(0)
            if c.get('is_linear'):
                mon.ok('is-linear', isinstance(xg, str), 'no pre-assembled matrix with is_linear')
            else:
                mon.close('jacobian-point', xg, xt, tol, tol, msg='the Jacobian at another point')
                M = s.J(xg)
                if tr.jac == 'wrong':
                    M = -M
                elif tr.jac == 'diag':
                    M = np.diag(np.diag(M) + 0.1)
            if c.get('is_linear'):
                M = s.J(np.zeros(s.n))
            itj = it
        # The linear system.
        if not mon.ok('solve', bool(ev) and ev[0][0] == 's', 'iteration %d: no linear system solved' % it):
            return
        e = ev.pop(0)
        D = np.ones(s.n) if tr.D is None else tr.D
        mon.close('linear-rhs', e[1], D * r, tol, tol * (1 + abs(r).max()), msg='the right-hand side')
        if e[3] is not None:
            mon.close('linear-matrix', e[3].toarray(), D[:, None] * M * D, tol, tol * abs(M).max(),
                      msg='the matrix of the linear system')
        raw = D * e[2]
        iters += -1 if e[6] is None else e[6]
        if c['lin_red'] is not None and c.get('lin_precision') is None:
            res = nla.norm(D * (M @ raw - r) if c.get('scaled_error') and tr.D is not None else M @ raw - r)
            lim = c['eps_a'] * c['lin_red']
            warn.append(None if abs(res - lim) < 0.1 * lim + 1e-13 * nla.norm(M) * nla.norm(raw) else res > lim)
        if c.get('lin_precision') and lsk == 'iterative':
            mon.ok('lin-precision', e[4] is not None and e[4] >= 0.99 * min(err * c['lin_precision'], 1.0),
                   'the tolerance %s for the residual %g' % (e[4], err))
        dx = raw * c['step_red']
        it += 1
        xl, errl = xt, err
    if not mon.ok('no-exception', exc is None, 'exception: %s' % exc) or final is None:
        return
    xf, rf, errf = final
    mon.close('returned', x, xf, tol, tol * (1 + abs(xf).max()), msg='the returned vector is not the last iterate')
    with np.errstate(all='ignore'):
        errx = nla.norm(s.f(x))
    mon.close('err', st['err'], errx, 1e-9, 1e-12 * (1 + nla.norm(s.b)),
              msg='the reported norm, condition %s' % st['condition'])
    mon.close('err0', st['err0'], err0, 1e-12, 0, msg='the reported initial norm')
    mon.equal('n_iter', st['n_iter'], it, 'the reported number of iterations')
    mon.equal('ls_n_iter', st['ls_n_iter'], iters if iters >= 0 else -1, 'iterations of the linear solver')
    done = criterion(c, it, st['err'], st['err0'])
    cond = st['condition']
    if gave:
        mon.equal('gave-up-condition', cond, 2, 'the condition after giving up')
    else:
        mon.ok('condition', cond == (0 if done else 1), 'condition %s: iteration %d, err %g, err0 %g, %s'
               % (cond, it, st['err'], st['err0'], c))
    mon.event('converged' if cond == 0 else 'not converged')
    if cond == 0 and c['eps_mode'] == 'or':
        mon.event('or')
    mon.equal('hooks', [h[0] for h in tr.hooks], list(range(it + 1)), 'the iteration hook')
    for i, h in enumerate(tr.hooks[1:]):
        mon.close('hook-err', h[2], its[i], 1e-12, 0, msg='the norm given to the hook')
    if warn and lsk != 'iterative' and c['ls_mode'] == 'residual':
        n = sum('precision is lower' in m for m in msgs)
        lo, hi = sum(w is True for w in warn), sum(w is not False for w in warn)
        mon.ok('warnings', lo <= n <= hi, '%d warnings, %d to %d expected' % (n, lo, hi))
        if n:
            mon.event('warning')

def run_linear(mon, case):
    """One full step solves a linear problem."""
    rng = gen.rngof(case)
    s = Sys(rng, 'linear', int(rng.randint(1, 12)))
    c = config(rng, i_max=int(rng.randint(1, 4)), eps_a=1e-9 * (1 + nla.norm(s.b)), eps_r=1.0, step_red=1.0,
               ls_mode='residual', ls_on=0.99999)
    c.pop('lin_precision', None)
    c['is_linear'] = bool(rng.rand() < 0.6)
    if c['is_linear']:
        mon.event('is_linear')
    tr = Trace(s)
    st = {}
    nls = make('nls.newton', c, fun=tr.fun, fun_grad=tr.grad, lin_solver=lin_solver(rng, tr, 'exact'),
               status=st, iter_hook=tr.hook)
    for rep in range(2):
        tr.ev, tr.hooks = [], []
        x0 = rng.normal(size=s.n) * 5
        keep = x0.copy()
        x = nls(x0)
        mon.equal('start-unchanged', x0, keep, 'the initial guess was changed')
        mon.close('solution', x, s.xs, 1e-8, 1e-8, msg='a linear problem after one step')
        mon.equal('one-step', (st['condition'], st['n_iter']), (0, 1), 'condition and iterations')
        check_trace(mon, c, s, tr, keep, x, None, st, {}, 'exact', [])
    mon.sig('linear', s.n, c['is_linear'])

def run_special(mon, case):
    """Line search of the affine invariant Newton; checks of the tangent matrix; arguments in the call."""
    from functools import partial  # noqa: F401
    from sfepy.solvers import nls as mod
    rng = gen.rngof(case)
    s = Sys(rng, 'mild', int(rng.randint(1, 6)))
    s.A = s.A @ s.A.T + np.eye(s.n)
    s.fun = 'cube'
    s.b = s.A @ s.xs + s.c * s.g(s.xs)
    which = ['ainc', 'check', 'args'][rng.randint(3)]
    c = config(rng, ls_mode='residual', i_max=30, eps_a=1e-8, eps_r=1.0, step_red=1.0, ls_on=0.99999)
    c.pop('lin_precision', None)
    tr = Trace(s)
    st = {}
    x0 = s.xs + 0.5 * rng.normal(size=s.n)
    keep = x0.copy()
    if which == 'ainc':
        c['line_search_fun'] = mod.apply_line_search_ainc
        c['ls_red'] = 0.5
    elif which == 'check':
        c['check'] = 1
    lin = lin_solver(rng, tr, 'exact')
    kw = dict(fun=tr.fun, fun_grad=tr.grad, lin_solver=lin)
    if which == 'args':
        nls = make('nls.newton', config(rng, i_max=0), fun=lambda x: 1 / 0, fun_grad=None, lin_solver=None)
        from sfepy.base.base import Struct
        conf = make('nls.newton', c).conf
        x = nls(x0, conf=conf, status=st, **kw)
    else:
        nls = make('nls.newton', c, status=st, **kw)
        import sfepy.base.plotutils as plu
        old = plu.plot_matrix_diff

        def diff(m0, m1, delta, legend, mode, *a, **k):
            mon.event('check')
            mon.close('tangent-check', m0.toarray(), m1.toarray(), 1e-5, 1e-6 * abs(s.A).max(),
                      msg='the matrix by differences')
        plu.plot_matrix_diff = diff
        try:
            x = nls(x0)
        finally:
            plu.plot_matrix_diff = old
    if which != 'check':
        mon.event({'args': 'arguments'}.get(which, which))
    mon.equal('start-unchanged', x0, keep, 'the initial guess was changed')
    mon.close('err', st['err'], nla.norm(s.f(x)), 1e-9, 1e-13 * (1 + nla.norm(s.b)), msg='the reported norm')
    mon.ok('condition', st['condition'] == (0 if criterion(c, st['n_iter'], st['err'], st['err0']) else 1), str(st))
    mon.ok('converged', st['condition'] == 0, 'a monotone system with an exact Jacobian: %s %s' % (which, st))
    mon.equal('n_iter', st['n_iter'], sum(e[0] == 's' for e in tr.ev), 'iterations')
    if which == 'args':
        check_trace(mon, c, s, tr, keep, x, None, st, {}, 'exact', []) if tr.hooks else None
    mon.sig(which, s.n, st['n_iter'])

def run_semi(mon, case):
    """Obstacle problems: F = K u - f - l = 0, l >= 0, u - psi >= 0, l (u - psi) = 0."""
    from itertools import product
    rng = gen.rngof(case)
    n = int(rng.randint(1, 7))
    K = np.diag(rng.uniform(2.0, 3.0, n)) - np.diag(rng.uniform(0.1, 1.0, n - 1), 1)
    K = K - np.diag(rng.uniform(0.1, 1.0, n - 1), -1)        # An M-matrix.
    f = rng.normal(size=n) * 2
    psi = rng.normal(size=n)
    if rng.rand() < 0.2:                                   # Biactive.
        psi = nla.solve(K, f)
    ref = None
    for act in product([0, 1], repeat=n):
        a = np.array(act, bool)
        u = psi.copy()
        i = ~a
        if i.any():
            u[i] = nla.solve(K[np.ix_(i, i)], f[i] - K[np.ix_(i, a)] @ psi[a])
        lam = K @ u - f
        if (u >= psi - 1e-12).all() and (lam >= -1e-12).all() and abs(lam[i]).max(initial=0) < 1e-9:
            ref = np.r_[u, lam]
            break
    semi = bool(rng.rand() < 0.6)
    c = dict(semismooth=semi, i_max=int(rng.choice([0, 2, 4 * n + 10])), eps_a=1e-9, eps_r=1.0,
             ls_on=float(rng.choice([0.99999, 1e10])), ls_min=float(rng.choice([1e-5, 0.05])))
    if rng.rand() < 0.3:
        c['ls_red'] = {'regular': 0.5, 'steepest_descent': 0.1}
    order = rng.rand() < 0.5
    log = []
    Z, I = sp.csr_array((n, n)), sp.eye_array(n, format='csr')
    Ma, Mb = sp.hstack([Z, I]).tocsr(), sp.hstack([I, Z]).tocsr()

    def smooth(y):
        log.append(('f', y.copy()))
        return K @ y[:n] - f - y[n:]

    def grad(y):
        log.append(('g', y.copy()))
        return sp.hstack([sp.csr_array(K), -I]).tocsr()
    fa, fb = (lambda y: y[n:].copy()), (lambda y: y[:n] - psi)
    ga, gb = (lambda y: Ma.copy()), (lambda y: Mb.copy())
    if order:
        fa, fb, ga, gb = fb, fa, gb, ga
    st = {}
    tr = Trace(None)
    lin = lin_solver(rng, tr, 'exact')
    nls = make('nls.semismooth_newton', c, fun_smooth=smooth, fun_smooth_grad=grad, fun_a=fa, fun_a_grad=ga,
               fun_b=fb, fun_b_grad=gb, lin_solver=lin, status=st)
    start = int(rng.randint(4))
    y0 = np.r_[psi, np.zeros(n)] if start == 0 else rng.normal(size=2 * n)
    if start == 1:
        m = rng.rand(n) < 0.5
        y0[:n][m], y0[n:][m] = psi[m], 0.0
    if ref is not None and start == 2:
        y0 = ref + 1e-3 * rng.normal(size=2 * n)
    keep = y0.copy()
    a0, b0 = fa(y0), fb(y0)
    if semi and c['i_max'] and ((a0 == 0) & (b0 == 0)).any():
        mon.event('active')
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        y = nls(y0)
    mon.event('semismooth' if semi else 'nonsmooth')
    mon.equal('start-unchanged', y0, keep, 'the initial guess was changed')

    def norm(y):
        a, b = fa(y), fb(y)
        phi = np.sqrt(a**2 + b**2) - a - b if semi else np.minimum(a, b)
        return nla.norm(np.r_[K @ y[:n] - f - y[n:], phi])
    mon.close('err', st['err'], norm(y), 1e-8, 1e-13, msg='the reported norm, %s' % c)
    mon.close('err0', st['err0'], norm(keep), 1e-8, 1e-13, msg='the reported initial norm')
    ni = sum(e[0] == 's' for e in tr.ev)
    cond = st['condition']
    mon.ok('condition', cond == (0 if criterion(c, ni, st['err'], st['err0']) else 1), '%s %s %s' % (st, c, ni))
    mon.ok('limit', st.get('n_iter', ni) <= c['i_max'] and ni <= c['i_max'], 'iterations %s' % st)
    mon.ok('n_iter-reported', 'n_iter' in st, 'the number of iterations is not reported')
    if cond == 0:
        mon.close('solution', y, ref, 1e-6, 1e-6, msg='the solution of the complementarity problem')
        mon.event('converged')
    elif c['i_max'] > 4 and c['ls_on'] > 1 and (not semi or start == 2):
        mon.ok('converged', False, 'the method did not converge: %s, %s, start %d' % (c, st, start))
    mon.sig('semi', n, semi, cond, start)

def run_root(mon, case):
    rng = gen.rngof(case)
    s = Sys(rng, str(rng.choice(['linear', 'mild', 'mild', 'hard'])), int(rng.randint(1, 6)))
    s.fun = 'cube'
    s.b = s.A @ s.xs + s.c * s.g(s.xs)
    m = str(rng.choice(['hybr', 'lm', 'broyden1', 'broyden2', 'anderson', 'krylov', 'df-sane', 'linearmixing',
                        'diagbroyden', 'excitingmixing']))
    usej = m in ('hybr', 'lm') and rng.rand() < 0.6
    opts = {} if rng.rand() < 0.5 else {'hybr': dict(maxfev=200), 'lm': dict(maxiter=200),
                                          'df-sane': dict(maxfev=200)}.get(m, dict(maxiter=30))
    opts0 = dict(opts)
    c = dict(method=m, use_jacobian=usej, tol=1e-8 if rng.rand() < 0.5 else None, options=opts,
             report_status=bool(rng.rand() < 0.3), verbose=False)
    st = {} if rng.rand() < 0.8 else None
    tr = Trace(s)
    tr.fmt = np.asarray
    nls = make('nls.scipy_root', c, fun=tr.fun, fun_grad=tr.grad)
    x0 = s.xs + 0.1 * rng.normal(size=s.n)
    keep = x0.copy()
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            x = nls(x0, status=st)
        except (ValueError, OverflowError, nla.LinAlgError) as e:       # Of SciPy with divergent methods.
            import traceback
            if 'scipy' in ''.join(traceback.format_tb(e.__traceback__)[-3:]):
                mon.event('scipy failed')
                return
            raise
    mon.event('root')
    mon.equal('start-unchanged', x0, keep, 'the initial guess was changed')
    mon.equal('options-unchanged', opts, opts0, 'the options were changed')
    if st is None:
        return
    err = nla.norm(s.f(x))
    if np.isfinite(err):
        mon.close('err', st['err'], err, 1e-6, 1e-12 * (1 + nla.norm(s.b)), msg='the reported norm')
    from scipy.optimize import root
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        ref = root(s.f, keep, method=m, jac=s.J if usej else None, tol=c['tol'], options=opts0)
    good = st['condition'] == 0
    tolx = 1e-3 * (1 + nla.norm(s.b))
    if good:
        mon.ok('truth', ref.success or err < tolx, 'success reported: err %g, SciPy: %s' % (err, ref.message))
    if not ref.success:
        mon.ok('failure-reported', not good, 'SciPy did not converge: %s, condition %s' % (ref.message, st['condition']))
        mon.event('not converged')
    elif np.isfinite(err):
        mon.ok('success-reported', good, 'SciPy converged: %s, condition %s' % (ref.message, st['condition']))
        mon.event('converged')
    mon.sig('root', m, usej, good)

class Obj:
    """Convex objective with minimum value m in xs."""

    def __init__(self, rng, n):
        q, _ = nla.qr(rng.normal(size=(n, n)))
        self.H = q @ np.diag(rng.uniform(0.3, 3, n)) @ q.T
        self.xs = rng.normal(size=n)
        self.m = float(rng.choice([0.0, 1.0]))
        self.q = float(rng.choice([0.0, 0.3]))
        self.calls = []
        self.grads = []

    def val(self, x):
        d = x - self.xs
        return self.m + 0.5 * d @ self.H @ d + self.q * (d**4).sum()

    def der(self, x):
        d = x - self.xs
        return self.H @ d + 4 * self.q * d**3

    def f(self, x, *args):
        self.calls.append((np.array(x), args))
        return self.val(x)

    def g(self, x, *args):
        self.grads.append((np.array(x), args))
        return self.der(x)

def run_sd(mon, case):
    rng = gen.rngof(case)
    o = Obj(rng, int(rng.randint(1, 6)))
    full = rng.rand() < 0.5
    c = dict(i_max=int(rng.choice([0, 3, 60])), eps_rd=float(rng.choice([1e-5, 1e-12])),
             eps_of=float(rng.choice([1e-4, 1e-10])), eps_ofg=float(rng.choice([1e-8, 1e-3])),
             ls=bool(full or rng.rand() < 0.8), ls_method='full' if full else 'backtracking',
             ls0=float(rng.choice([1.0, 0.2, 0.5])), ls_red=float(rng.choice([0.5, 0.1])),
             ls_min=float(rng.choice([1e-5, 0.05])), norm=[np.inf, 2][rng.randint(2)])
    if not c['ls']:
        c['ls0'] = 0.05
    args = [(), None, (1, 'a')][rng.randint(3)]
    lim = np.inf
    x0 = o.xs + rng.normal(size=len(o.xs)) * 2
    warp = not full and rng.rand() < 0.2
    fun = o.f
    if warp:
        lim = nla.norm(x0 - o.xs) * 1.05

        def fun(x, *a):
            v = o.f(x, *a)
            return None if nla.norm(x - o.xs) > lim else v
    st = {}
    outs = []
    c['output'] = (lambda *a, **k: outs.append(a)) if rng.rand() < 0.3 else None
    s = make('opt.fmin_sd', c, obj_fun=fun, obj_fun_grad=o.g, status=st, obj_args=args)
    keep = x0.copy()
    import sfepy.solvers.optimize as mod
    outp = mod.output
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            x = s(x0)
        except RuntimeError as e:
            mon.ok('warp-error', warp and 'giving up' in str(e), str(e))
            return
        finally:
            mon.ok('output', mod.output is outp, 'the module output function was replaced')
            mod.output = outp
    mon.event('sd full' if full else 'sd')
    if not c['ls'] and not np.isfinite(o.val(x)):       # Divergence with a fixed step.
        mon.ok('diverged', st['status'] == 1, 'status %s with an infinite objective' % st['status'])
        return
    mon.equal('start-unchanged', x0, keep, 'the initial guess was changed')
    mon.ok('arguments', all(a[1] == tuple(args or ()) for a in o.calls + o.grads), 'the arguments of the objective')
    mon.close('of', st['of'], o.val(x), 1e-12, 1e-14, msg='the reported objective')
    mon.close('of0', st['of0'], o.val(keep), 1e-12, 1e-14, msg='the reported initial objective')
    mon.equal('nc', (st['nc_of'], st['nc_ofg']), (len(o.calls), len(o.grads)), 'the reported numbers of calls')
    mon.ok('limit', st['it'] <= c['i_max'], 'iterations: %d' % st['it'])
    flag = st['status']
    if not mon.ok('flag', isinstance(flag, (int, np.integer)), 'the status is %s' % type(flag).__name__):
        return
    gn = nla.norm(o.der(x), c['norm'])
    if flag == 0:
        mon.ok('small-of', abs(o.val(x)) < c['eps_of'], 'of %g' % o.val(x))
    elif flag == 1:
        mon.ok('limit-reached', st['it'] >= c['i_max'], 'iterations: %d' % st['it'])
    elif flag == 2:
        mon.ok('small-ofg', gn < c['eps_ofg'], 'gradient %g' % gn)
    else:
        mon.ok('flag-value', flag == 3, str(flag))
    if c['ls'] and c['ls_min'] == 1e-5:
        mon.ok('decrease', o.val(x) <= o.val(keep) * (1 + 1e-9), 'the objective increased from %g to %g, %s'
               % (o.val(keep), o.val(x), c))
    if full and c['i_max'] == 60:
        # Every iterate of a line search with the Wolfe conditions decreases.
        vals = [o.val(g[0]) for g in o.grads]
        mon.ok('progress', o.val(x) - o.m <= 0.05 * (o.val(keep) - o.m) + 1e-3, 'from %g to %g in %d iterations, flag %s, %s, %s'
               % (o.val(keep), o.val(x), st['it'], flag, vals[:5], c))
    mon.event('converged' if flag != 1 else 'not converged')
    mon.sig('sd', full, flag, min(st['it'], 10), c['ls0'])

def run_fmin(mon, case):
    import scipy.optimize as so
    rng = gen.rngof(case)
    o = Obj(rng, int(rng.randint(1, 5)))
    m = str(rng.choice(['fmin', 'fmin_bfgs', 'fmin_cg', 'fmin_l_bfgs_b', 'fmin_ncg', 'fmin_powell', 'fmin_slsqp',
                        'fmin_tnc', 'fmin_cobyla']))
    c = dict(method=m, i_max=int(rng.choice([5, 1000])), verbose=False)
    par = {}
    if m == 'fmin_cobyla':
        par = dict(cons=[lambda x, *a: 1e3 - abs(x).max()])
    elif m == 'fmin' and rng.rand() < 0.5:
        par = dict(xtol=1e-8, ftol=1e-12)
    elif m == 'fmin_bfgs' and rng.rand() < 0.5:
        par = dict(gtol=1e-9)
    c.update(par)
    args = [(), None, (3,)][rng.randint(3)]
    st = {}
    s = make('nls.scipy_fmin_like', c, obj_fun=o.f, obj_fun_grad=o.g, status=st, obj_args=args)
    x0 = o.xs + rng.normal(size=len(o.xs))
    keep = x0.copy()
    x = s(x0)
    x = np.asarray(x[0] if isinstance(x, tuple) else x)
    mon.event('fmin')
    mon.equal('start-unchanged', x0, keep, 'the initial guess was changed')
    mon.ok('arguments', all(a[1] == tuple(args or ()) for a in o.calls + o.grads), 'the arguments of the objective')
    lim = {'fmin_cobyla': 'maxfun', 'fmin_l_bfgs_b': 'maxfun', 'fmin_slsqp': 'iter', 'fmin_tnc': 'maxfun'}.get(m, 'maxiter')
    kw = dict(par)
    kw[lim] = c['i_max']
    if m in ('fmin_bfgs', 'fmin_cg', 'fmin_l_bfgs_b', 'fmin_ncg', 'fmin_slsqp', 'fmin_tnc'):
        kw['fprime'] = o.der
        mon.ok('gradient', len(o.grads) > 0, 'the gradient was not used')
    if m in ('fmin_l_bfgs_b',):
        pass
    elif m == 'fmin_slsqp':
        kw['disp'] = False
    else:
        kw['disp'] = 0
    ref = getattr(so, m)(o.val, keep.copy(), **kw)
    ref = np.asarray(ref[0] if isinstance(ref, tuple) else ref)
    mon.close('minimum', x, ref, 1e-7, 1e-9, msg='the result of %s' % m)
    mon.ok('time', 'time_stats' in st, 'no statistics')
    mon.sig('fmin', m, c['i_max'])

# ---------------------------------------------------------------- problems

def run_problem(mon, case):
    """Nonlinear diffusion -div((1 + c u^2) grad u) = f in time steps or without."""
    from sfepy.base.base import Struct, IndexedStruct
    from sfepy.discrete import (FieldVariable, Material, Integral, Equation, Equations, Problem, Function)
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.fem import Field
    from sfepy.terms import Term
    from sfepy.solvers import Solver
    rng = gen.rngof(case)
    dom = gen.to_domain(gen.raw_mesh(rng, ['2_4', '2_3', '1_2'][rng.randint(3)], 5))
    om = dom.create_region('Omega', 'all')
    x = dom.get_mesh_coors()[:, 0]
    lo, hi = x.min(), x.max()
    G = dom.create_region('G', 'vertices in (x < %r)' % float(lo + 1e-3 * (hi - lo) + 0.2 * (hi - lo)), 'vertex')
    fld = Field.from_args('f', np.float64, 1, om, int(rng.randint(1, 3)))
    u = FieldVariable('u', 'unknown', fld, history=1)
    v = FieldVariable('v', 'test', fld, primary_var_name='u')
    cc = float(rng.choice([0.0, 0.5, 5.0]))
    it = Integral('i', order=4)
    fun, dfun = (lambda u: 1 + cc * u**2), (lambda u: 2 * cc * u)
    load = Material('m', val=float(rng.uniform(1, 20)))
    texts = [Term.new('dw_nl_diffusion(fun, dfun, v, u)', it, om, v=v, u=u, fun=fun, dfun=dfun)]
    texts = texts[0] - Term.new('dw_volume_lvf(m.val, v)', it, om, m=load, v=v)
    steps = rng.rand() < 0.5
    if steps:
        texts = texts + Term.new('dw_dot(v, du/dt)', it, om, v=v, u=u)
    eqs = Equations([Equation('e', texts)])
    pb = Problem('p', equations=eqs)
    amp = float(rng.choice([1.0, 100.0]))
    n_fail = int(rng.randint(2, 4))

    def val(ts, coor, **kw):
        return np.full(coor.shape[0], amp * (ts.time if steps else 1.0) if ts is not None else amp)
    pb.set_bcs(ebcs=Conditions([EssentialBC('b', G, {'u.0': Function('val', val)})]))
    ls = Solver.any_from_conf(Struct(name='ls', kind='ls.scipy_superlu'))
    i_max = int(rng.choice([1, 2, 30]))
    c = dict(i_max=i_max, eps_a=1e-8 * amp**3, eps_r=1.0, report_status=False)
    st = IndexedStruct()
    nst = IndexedStruct()
    nls = make('nls.newton', c, lin_solver=ls, status=nst)
    seen = []

    if steps:
        n = 4
        ts = Solver.any_from_conf(Struct(name='ts', kind='ts.simple', t0=0.0, t1=1.0, dt=None, n_step=n,
                                         is_linear=False, quasistatic=bool(rng.rand() < 0.3), verbose=0),
                                  nls=nls, context=pb)
        pb.set_solver(ts)
        from sfepy.solvers import nls as mod

        def hook(pb_, ts_, variables):
            vec = variables.get_state(reduced=True)
            seen.append((ts_.step, dict(nst.to_dict()), vec.copy(), nla.norm(pb.get_evaluator().eval_residual(vec))))
        pb.solve(save_results=False, step_hook=hook, status=st, verbose=False)
        mon.event('steps', len(seen))
    else:
        pb.set_solver(nls)
        var = pb.solve(save_results=False, status=st, verbose=False)
        vec = var.get_state(reduced=True)
        seen.append((0, dict(nst.to_dict()), vec, nla.norm(pb.get_evaluator().eval_residual(vec))))
        mon.event('problem')
    for step, s, vec, err in seen:
        if steps and step == 0 and not s:
            continue                            # Initial conditions only.
        if not mon.ok('step-report', 'err' in s, 'no report in step %d' % step):
            return
        mon.close('step-err', s['err'], err, 1e-6, 1e-11 * (1 + amp**3), msg='step %d: the norm of the residual' % step)
        want = 0 if criterion(c, s['n_iter'], s['err'], s['err0']) else 1
        mon.equal('step-condition', s['condition'], want, 'step %d: %s' % (step, s))
        if s['condition']:
            mon.event('failed step')
        if cc == 0.0:
            mon.ok('linear-step', s['n_iter'] <= 1 and s['condition'] == 0, 'a linear problem: %s' % s)
    mon.sig('problem', steps, cc, amp, i_max)

def run_oseen(mon, case):
    """Stabilised stationary flow in a channel."""
    from sfepy.base.base import Struct
    from sfepy.discrete import Equations, Function, Functions, Material, Materials, Integral, Integrals, Problem
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.fem import Field
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.variables import Variables
    from sfepy.solvers import Solver
    from sfepy.solvers.oseen import StabilizationFunction
    rng = gen.rngof(case)
    dim = 3 if rng.rand() < 0.3 else 2
    raw = gen.raw_mesh(rng, '2_4' if dim == 2 else '3_8', None, jitter=0, holes=False, affine=False,
                       shape=(6, 5) if dim == 2 else (4, 4, 4))
    dom = gen.to_domain(raw)
    xx = dom.get_mesh_coors()
    lo, hi = xx.min(0), xx.max(0)
    om = dom.create_region('Omega', 'all')
    t = 1e-6
    inl = dom.create_region('Inlet', 'vertices in (x < %r)' % float(lo[0] + t), 'facet')
    out = dom.create_region('Outlet', 'vertices in (x > %r)' % float(hi[0] - t), 'facet')  # noqa: F841
    wall = dom.create_region('Walls', 'vertices of surface -v (r.Outlet +v r.Inlet)', 'facet')
    fv = Field.from_args('velocity', np.float64, dim, om, 1)
    fp = Field.from_args('pressure', np.float64, 1, om, 1)
    V = [FieldVariable('u', 'unknown', fv), FieldVariable('v', 'test', fv, primary_var_name='u'),
         FieldVariable('b', 'parameter', fv, primary_var_name='u'), FieldVariable('p', 'unknown', fp),
         FieldVariable('q', 'test', fp, primary_var_name='p')]
    nm = {k: k for k in ('p', 'q', 'u', 'b', 'v', 'fluid', 'i1', 'i2', 'viscosity', 'velocity', 'gamma', 'delta', 'tau')}
    nm['omega'] = 'Omega'
    sf = StabilizationFunction(nm)
    nu = float(rng.choice([1.0, 0.05]))
    fluid, stab = Material('fluid', viscosity=nu, density=1.0), Material('stabil', function=Function('stabil', sf))
    txt = {'balance': """dw_div_grad.i2.Omega(fluid.viscosity, v, u) + dw_lin_convect.i2.Omega(v, b, u)
           - dw_stokes.i1.Omega(v, p) + dw_st_grad_div.i1.Omega(stabil.gamma, v, u)
           + dw_st_supg_c.i1.Omega(stabil.delta, v, b, u) + dw_st_supg_p.i1.Omega(stabil.delta, v, b, p) = 0""",
           'inc': """dw_stokes.i1.Omega(u, q) + dw_st_pspg_c.i1.Omega(stabil.tau, q, b, u)
           + dw_st_pspg_p.i1.Omega(stabil.tau, q, p) = 0"""}
    integrals = Integrals([Integral('i1', order=2), Integral('i2', order=3)])
    eqs = Equations.from_conf({k: ' '.join(v_.split()) for k, v_ in txt.items()}, Variables(V), dom.regions,
                              Materials([fluid, stab]), integrals, verbose=False)
    pb = Problem('p', equations=eqs, functions=Functions())
    pb.domain = dom
    pb.fields = {'velocity': fv, 'pressure': fp}
    pb.integrals = integrals
    bc = {'u.0': 1.0}
    bc.update({'u.%d' % i: 0.0 for i in range(1, dim)})
    pb.set_bcs(ebcs=Conditions([EssentialBC('w', wall, {'u.all': 0.0}), EssentialBC('i', inl, bc)]))
    tr = Trace(None)
    ls = lin_solver(rng, tr, 'exact')
    i_max = int(rng.choice([2, 30]))
    c = dict(stabil_mat='stabil', i_max=i_max, eps_a=1e-7, eps_r=1.0, macheps=1e-16, lin_red=1e-2)
    from sfepy.base.base import IndexedStruct
    st = IndexedStruct()
    from sfepy.solvers import oseen as mod
    pb.time_update()
    pb.update_materials()
    var = pb.equations.variables
    var.init_state()
    var.apply_ebc()
    vec0 = var.get_state(pb.active_only)
    ev = pb.get_evaluator()
    log = []

    def fun(x):
        r = ev.eval_residual(x)
        log.append((x.copy(), r.copy()))
        return r
    nls = make('nls.oseen', c, context=pb, fun=fun, fun_grad=ev.eval_tangent_matrix, lin_solver=ls, status=st)
    keep = vec0.copy()
    with Record(mod) as rec:
        x = nls(vec0)
    mon.event('oseen')
    mon.equal('start-unchanged', vec0, keep, 'the initial guess was changed')
    it = len(log) - 1
    mon.equal('n_iter', st.n_iter, it, 'iterations')
    mon.ok('limit', it <= i_max, 'iterations')
    mon.close('returned', x, log[-1][0], 1e-12, 1e-14, msg='the returned vector is not the last iterate')
    dx = log[-1][0] - log[-2][0] if it else np.zeros(1)
    err = nla.norm(log[-1][1]) + nla.norm(dx)
    mon.close('err', st.err, err, 1e-8, 1e-11, msg='the reported norm')
    mon.close('err0', st.err0, nla.norm(log[0][1]), 1e-10, 0, msg='the reported initial norm')
    mon.equal('condition', st.condition, 0 if criterion(c, it, st.err, st.err0) else 1, str(st))
    if i_max == 30:
        mon.equal('converged', st.condition, 0, 'the flow: %s' % st)
    msgs = [str(m) for m in rec.lines]
    mon.equal('warnings', [m for m in msgs if 'not solved' in m], [], 'the linear systems were solved')
    if st.condition == 0:
        # The residual with the convection velocity of the solution, with the lagged parameters.
        full = pb.equations.variables.make_full_vec(x)
        var['b'].set_data(full, var['u'].indx)
        stab.function.set_extra_args(b_norm=abs(full[var['u'].indx]).max())
        stab.time_update(None, pb.equations, mode='force', problem=pb)
        r = nla.norm(ev.eval_residual(x))
        mon.close('stationary', r, 0, 0, 1e-4, msg='the residual with the velocity of the solution')
    mon.sig('oseen', dim, nu, st.condition, it)
