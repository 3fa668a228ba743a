"""C18: Homogenised coefficients are right and schedule independent.

Monitor: the coefficients and correctors computed by the homogenization application (in own processes; serially and by pools of worker processes) are
compared with own laminate formulas and averages, checked for symmetry, positive definiteness and the Voigt and Reuss bounds, and observed to be the same
for all orders of declaration, subsets of coefficients, schedules and groupings of the microstructures; the orders of evaluation are checked against the graphs.
"""
import json, os, pickle, shutil, subprocess, sys, tempfile

import numpy as np

from .. import gen

REQUIRED = ['laminate conductivity', 'laminate stiffness', 'laminate eigenstrain', 'homogeneous', 'symmetry', 'definite', 'bounds', 'average', 'volume', 'fractions',
            'forms', 'evaluated', 'auxiliary', 'order', 'subset', 'repeated', 'multi', 'chunks', 'micro', 'micro parameters', 'correctors', 'files', 'stored',
            'coefficient file', 'sorted', 'closure', 'circular', 'undefined', 'chunk table', 'dechunk', 'chunk store', 'volume coefficients', 'blocks', 'resolve order', 'lattice']
ASSUMPTIONS = ['layers of piecewise constant parameters aligned with the cells of the mesh have piecewise linear correctors, that are in the approximation spaces',
               'the coefficients of Galerkin approximations satisfy the Voigt and Reuss bounds']

KINDS = ['2_3', '2_4', '3_4', '3_8']
EXAMPLES = ['linear_homogenization', 'linear_homogenization_up', 'homogenization_opt', 'perfusion_micro', 'nonlinear_homogenization']
SYM = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

def cases(rng, tier):
    n = dict(quick=1, thorough=10)[tier]
    out = []
    for i in range(n):
        for k in KINDS:
            out.append(dict(kind='single', mesh=k, layers=True, cost=6 + 6 * (k[0] == '3')))
            out.append(dict(kind='single', mesh=k, layers=True, cost=6 + 6 * (k[0] == '3')))
            out.append(dict(kind='single', mesh=k, layers=False, cost=6 + 6 * (k[0] == '3')))
        for k in ('2_3', '2_4', '3_8') if i % 2 == 0 else ('2_4', '2_3', '3_4'):
            out.append(dict(kind='schedule', mesh=k, layers=bool(rng.rand() < 0.5), cost=20))
        for k in ('2_3', '2_4', '3_4') if i % 2 == 0 else ('2_4', '2_3', '3_8'):
            out.append(dict(kind='micro', mesh=k, layers=bool(rng.rand() < 0.6), cost=25))
        out.append(dict(kind='units', cost=5))
        out.append(dict(kind='units', cost=5))
        for e in EXAMPLES if i == 0 or tier != 'quick' else []:
            for part in ['serial', 'multi'] if e == 'homogenization_opt' else ['all']:
                out.append(dict(kind='example', name=e, part=part, cost=20))
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def pick(rng, x):
    return x[rng.randint(len(x))]

def run(mon, d, runs, timeout=800, delay=None):
    with open(os.path.join(d, 'runs.json'), 'w') as f:
        json.dump(runs, f)
    env = dict(os.environ, RVM_SCRATCH=d)
    if delay:
        env['RVM_DELAY'] = str(delay)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env['PYTHONPATH'] = root + os.pathsep + env.get('PYTHONPATH', '')
    out = os.path.join(d, 'out.pickle')
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'rvm.hom', os.path.join(d, 'runs.json'), out], cwd=d, env=env, capture_output=True, text=True,
                       stdin=subprocess.DEVNULL, timeout=timeout)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError('the homogenization process failed: %s %s' % (r.returncode, r.stderr[-1500:]))
    with open(out, 'rb') as f:
        return pickle.load(f)

def spd(rng, n, lo=0.4, hi=3.0):
    q = np.linalg.qr(rng.randn(n, n))[0]
    return (q * (lo + (hi - lo) * rng.rand(n))) @ q.T

class Cell:
    """A periodic microstructure."""
    def __init__(self, rng, kind, layers, d):
        self.kind, self.layers = kind, layers
        self.dim = dim = int(kind[0])
        size = [int(rng.randint(3, 6)) for _ in range(dim)] if dim == 2 else [int(rng.randint(3, 5)) for _ in range(dim)]
        raw = gen.raw_mesh(rng, kind, shape=size, jitter=0.0, affine=False)
        lbn = rng.randn(dim).round(3) * (rng.rand() < 0.7)
        size = 0.5 + rng.rand(dim)
        X = raw['coors']
        X = (X - X.min(0)) / (X.max(0) - X.min(0)) * size + lbn
        raw['coors'] = X
        self.lbn, self.rtf = lbn, lbn + size
        c = raw['conns'][kind]
        self.np = npx = int(rng.randint(2, 4))
        self.axis = int(rng.randint(dim))
        self.grids = [np.unique(X[:, i].round(10)) for i in range(dim)]
        cen = X[c].mean(1)
        if layers:
            g = self.grids[self.axis]
            nl = len(g) - 1
            ph = np.r_[np.arange(min(npx, nl)), rng.randint(0, npx, size=max(nl - npx, 0))]
            self.np = npx = min(npx, nl)
            ph = rng.permutation(ph)
            self.layer_phase = ph
            self.cell_phase = ph[np.searchsorted(g, cen[:, self.axis]) - 1]
        else:
            ph = rng.randint(0, npx, size=len(c))
            ph[:npx] = np.arange(npx)
            self.cell_phase = rng.permutation(ph)
        raw['mats'] = {kind: self.cell_phase + 1}
        self.raw = raw
        self.homogeneous = rng.rand() < 0.15
        ns = len(SYM[dim])
        self.phases = [dict(K=spd(rng, dim), D=spd(rng, ns), r=float(rng.randn())) for _ in range(npx)]
        if rng.rand() < 0.3:
            for p in self.phases:
                # isotropic
                l, m = 0.3 + rng.rand(2)
                I = np.r_[np.ones(dim), np.zeros(ns - dim)]
                p['D'] = l * np.outer(I, I) + m * np.diag(np.r_[2 * np.ones(dim), np.ones(ns - dim)])
                p['K'] = np.eye(dim) * m
        if self.homogeneous:
            self.phases = [self.phases[0]] * npx
        self.d = d
        self.mesh = os.path.join(d, 'cell.vtk')
        gen.to_mesh(raw).write(self.mesh, io='auto')
        self.order = 1 if dim == 3 or rng.rand() < 0.6 else 2
        self.n_run = 0

    def vols(self, X=None):
        X = self.raw['coors'] if X is None else X
        c = self.raw['conns'][self.kind]
        if self.kind in ('2_3', '3_4'):
            v = np.abs(np.linalg.det(X[c[:, 1:]] - X[c[:, :1]])) / (2.0 if self.dim == 2 else 6.0)
        else:
            v = np.prod(X[c].max(1) - X[c].min(1), axis=1)
        return np.array([v[self.cell_phase == i].sum() for i in range(self.np)])

    def conf(self, rng, **kw):
        """Write a configuration file, return a run."""
        P = dict(dim=self.dim, mesh=self.mesh, lbn=self.lbn.tolist(), rtf=self.rtf.tolist(), fe_order=self.order, flip=int(rng.randint(2)), linear=bool(rng.rand() < 0.7),
                 phases=[dict(K=p['K'].tolist(), D=p['D'].tolist(), r=p['r']) for p in self.phases], evals=[], use=None, rank={}, filenames=False,
                 volume=0.0, by_value=False, micro=None, grow=None, factors=None, options={}, base=None)
        n_micro = kw.pop('n_micro', None)
        repeat = kw.pop('repeat', 1)
        P.update(kw)
        name = 'micro_%d' % self.n_run
        self.n_run += 1
        P['output_dir'] = os.path.join(self.d, 'out_' + name)
        os.makedirs(P['output_dir'])
        from ..homconf import CONF
        fn = os.path.join(self.d, name + '.py')
        with open(fn, 'w') as f:
            f.write(CONF)
        with open(os.path.join(self.d, name + '.json'), 'w') as f:
            json.dump(P, f)
        return dict(conf=fn, n_micro=n_micro, repeat=repeat)

    def laminate(self, frac):
        """Exact coefficients for volume fractions of phases."""
        dim = self.dim
        n = np.eye(dim)[self.axis]
        av = lambda f: sum(w * f(p) for w, p in zip(frac, self.phases))
        N = np.zeros((len(SYM[dim]), dim))
        for i, (r, s) in enumerate(SYM[dim]):
            for a in range(dim):
                N[i, a] = (n[s] if a == r else 0.0) + (n[r] if (a == s and r != s) else 0.0)
        def lam(key, N):
            inv = lambda p: np.linalg.inv(N.T @ p[key] @ N)
            M = av(lambda p: p[key] @ N @ inv(p))
            Z = np.linalg.inv(av(inv))
            return av(lambda p: p[key] - p[key] @ N @ inv(p) @ N.T @ p[key]) + M @ Z @ M.T
        K, D = lam('K', n[:, None]), lam('D', N)
        # div of the localised strains in the first phase.
        I = np.r_[np.ones(dim), np.zeros(len(SYM[dim]) - dim)]
        inv = lambda p: np.linalg.inv(N.T @ p['D'] @ N)
        M = av(lambda p: p['D'] @ N @ inv(p))
        Z = np.linalg.inv(av(inv))
        # strain_i = e + N a_i, a_i = A_i^-1 (t - N^T D_i e), t = Z M^T e
        p = self.phases[0]
        L = np.eye(len(I)) + N @ inv(p) @ (Z @ M.T - N.T @ p['D'])
        return K, D, frac[0] * I @ L

def check_coefs(mon, cell, c, X=None, factor=1.0, evals=(), use=None, by_value=None):
    """Check coefficients of one microstructure."""
    dim = cell.dim
    has = lambda *ks: all(k in c for k in ks)
    V = cell.vols(X)
    total = V.sum()
    frac = V / total
    tag = '%s order %d %s' % (cell.kind, cell.order, 'layers %d' % cell.axis if cell.layers else 'random')
    tol = dict(rtol=1e-8, atol=1e-9)
    if cell.layers:
        K, D, E = cell.laminate(frac)
        if has('K'):
            mon.close('laminate conductivity', c['K'], K, msg=tag, **tol)
        if has('D'):
            mon.close('laminate stiffness', c['D'], D, msg=tag, **tol)
        if has('E'):
            mon.close('laminate eigenstrain', c['E'], E, msg=tag, **tol)
    for key in 'KD':
        if not has(key):
            continue
        A = np.asarray(c[key])
        if cell.homogeneous:
            mon.close('homogeneous', A, cell.phases[0][key], msg=tag, **tol)
        mon.close('symmetry', A, A.T, msg=tag, **tol)
        voigt = sum(w * p[key] for w, p in zip(frac, cell.phases))
        reuss = np.linalg.inv(sum(w * np.linalg.inv(p[key]) for w, p in zip(frac, cell.phases)))
        S = 0.5 * (A + A.T)
        mon.ok('definite', np.linalg.eigvalsh(S).min() > 0, '%s is not positive definite: %s' % (key, tag))
        mon.ok('bounds', np.linalg.eigvalsh(voigt - S).min() > -1e-8, '%s above the arithmetic mean: %s' % (key, tag))
        mon.ok('bounds', np.linalg.eigvalsh(S - reuss).min() > -1e-8, '%s below the harmonic mean: %s' % (key, tag))
    if has('K', 'K1'):
        mon.close('forms', c['K1'], c['K'], msg='K1 ' + tag, **tol)
    if has('D', 'D9'):
        ii = [[[(a, b) in ((r, s), (s, r)) for r, s in SYM[dim]].index(True) for b in range(dim)] for a in range(dim)]
        ii = np.array(ii).ravel()
        mon.close('forms', c['D9'], np.asarray(c['D'])[np.ix_(ii, ii)], msg='D9 ' + tag, **tol)
    if has('E', 'E0', 'E1'):
        mon.close('forms', c['E'], np.asarray(c['E0']) - np.asarray(c['E1']), msg='E ' + tag, **tol)
        mon.close('average', c['E0'], frac[0] * np.r_[np.ones(dim), np.zeros(len(SYM[dim]) - dim)], msg='E0 ' + tag, **tol)
    if has('Df') and cell.homogeneous:
        mon.close('homogeneous', c['Df'], cell.phases[0]['D'], msg='Df ' + tag, **tol)
    if has('r'):
        mon.close('average', c['r'], sum(w * p['r'] for w, p in zip(frac, cell.phases)), msg='r ' + tag, **tol)
    if has('f'):
        mon.close('average', c['f'], factor, msg='f ' + tag, **tol)
    if has('vol'):
        for i in range(cell.np):
            mon.close('fractions', c['vol']['volume_Y%d' % i], V[i], msg=tag, **tol)
            mon.close('fractions', c['vol']['fraction_Y%d' % i], frac[i], msg=tag, **tol)
    mon.close('volume', c['Volume_total'], total, msg='%s by_value=%s' % (tag, by_value), rtol=1e-10, atol=1e-12)
    mon.close('volume', c['Volume_first'], V[0], msg=tag, rtol=1e-10, atol=1e-12)
    # The evaluated expressions.
    vals = {k: np.asarray(v) for k, v in c.items() if not isinstance(v, (dict, str, list))}
    for name, reqs, expr, status in evals:
        if use is not None and name not in use:
            continue
        if all(r in vals for r in reqs):
            if expr is None:
                want = sum(vals[r] for r in reqs)
            else:
                want = eval(expr.replace('c.', 'V.'), dict(np=np, nm=np, V=type('V', (), vals)))
            if status == 'auxiliary':
                vals[name] = want
            elif mon.ok('evaluated', name in c, 'missing %s' % name):
                mon.close('evaluated', c[name], want, msg='%s = %s of %s' % (name, expr, reqs), rtol=1e-10, atol=1e-12)
        if status == 'auxiliary':
            mon.ok('auxiliary', name not in c, 'auxiliary %s in the result' % name)

def make_evals(rng):
    """Random graphs of coefficients defined by expressions; the names contain each other."""
    pool = ['A', 'AA', 'A_1', 'A_11', 'B', 'BK', 'rA', 'fr', 'Kr', 'r2', 'f1', 'K1A', 'Dr']
    names = [pool[i] for i in rng.permutation(len(pool))[:rng.randint(2, 7)]]
    out, scal = [], ['r', 'f']
    for n in names:
        if rng.rand() < 0.25:
            reqs = [['K', 'K1'], ['D', 'D'][:1], ['K', 'K1'], scal][rng.randint(4)]
            reqs = list(reqs)
            expr = None
            if reqs == scal:
                reqs = [scal[i] for i in rng.permutation(len(scal))[:rng.randint(1, len(scal) + 1)]]
                scal = scal + [n]
        else:
            k = rng.randint(1, min(len(scal), 4) + 1)
            reqs = [scal[i] for i in rng.permutation(len(scal))[:k]]
            expr = ' + '.join('%.3f * c.%s' % (rng.randn(), r) for r in reqs) + ' - %.2f * c.%s' % (rng.rand(), pick(rng, reqs))
            scal = scal + [n]
        out.append((n, reqs, expr, 'auxiliary' if rng.rand() < 0.25 else 'main'))
    return out

def rank(rng, evals):
    ks = ['K', 'K1', 'D', 'D9', 'Df', 'E', 'E0', 'E1', 'r', 'f', 'vol', 'pis_t', 'pis_u', 'corrs_t', 'corrs_u', 'corrs_e'] + [e[0] for e in evals]
    return {k: int(v) for k, v in zip(ks, rng.permutation(len(ks)))}

SERIAL = dict(multiprocessing=False)

def same(mon, kind, a, b, msg, rtol=1e-9, atol=1e-10, keys=None):
    """The same coefficients; also lists of these."""
    ks = set(a) | set(b) if keys is None else keys
    for k in sorted(ks):
        if k in ('save_names',):
            continue
        if not mon.ok(kind, k in a and k in b, '%s: %s is only in one of the results' % (msg, k)):
            continue
        x, y = a[k], b[k]
        if not isinstance(x, list):
            x, y = [x], [y]
        if not mon.ok(kind, len(x) == len(y), '%s: %s of different numbers of microstructures' % (msg, k)):
            continue
        for u, v in zip(x, y):
            if isinstance(u, dict):
                for kk in u:
                    mon.close(kind, v[kk], u[kk], rtol, atol, msg='%s: %s %s' % (msg, k, kk))
            else:
                mon.close(kind, v, u, rtol, atol, msg='%s: %s' % (msg, k))

def same_deps(mon, kind, a, b, msg):
    if not mon.ok(kind, set(a) == set(b), '%s: dependencies %s, %s' % (msg, sorted(a), sorted(b))):
        return
    for k in sorted(a):
        x, y = a[k], b[k]
        if not isinstance(x[0], list):
            x, y = [x], [y]
        if not mon.ok(kind, len(x) == len(y), '%s: correctors %s of different numbers of microstructures' % (msg, k)):
            continue
        for u, v in zip(x, y):
            if mon.ok(kind, [i[0] for i in u] == [i[0] for i in v], '%s: components of %s' % (msg, k)):
                for (key, s), (_, t) in zip(u, v):
                    for var in s:
                        mon.close(kind, t[var], s[var], 1e-8, 1e-9, msg='%s: %s %s' % (msg, k, key))

def good(mon, res, what):
    for i, r in enumerate(res):
        if isinstance(r, str):
            raise RuntimeError("%s run %d: ... %s" % (what, i, r[-450:]))

def run_single(mon, case):
    rng = gen.rngof(case)
    d = tempfile.mkdtemp(prefix='c18-', dir=os.getcwd())
    try:
        cell = Cell(rng, case['mesh'], case['layers'], d)
        evals = make_evals(rng)
        by_value = bool(rng.rand() < 0.5)
        vol = float(cell.vols().sum())
        kw = dict(evals=evals, by_value=by_value, volume=vol, options=SERIAL)
        runs = [cell.conf(rng, rank=rank(rng, evals), repeat=2, filenames=True, **kw),
                cell.conf(rng, rank=rank(rng, evals), **kw)]
        res = run(mon, d, runs)
        good(mon, res, case['mesh'])
        c0 = res[0][0]['coefs']
        check_coefs(mon, cell, c0, evals=evals, by_value=by_value)
        same(mon, 'repeated', c0, res[0][1]['coefs'], 'second call')
        same(mon, 'order', c0, res[1][0]['coefs'], 'another order of declaration')
        check_corrs(mon, cell, res[0][0])
        mon.ok('files', set(c0.get('save_names', {})) == {'corrs_t', 'corrs_u'} and 'save_names' not in res[1][0]['coefs'], 'names of files %s' % c0.get('save_names'))
        from sfepy.homogenization.coefficients import Coefficients
        for r in res[0]:
            fc = Coefficients.from_file_hdf5(os.path.join(r['dir'], 'coefs.h5'))
            same(mon, 'coefficient file', c0, fc.to_dict(), 'coefficients from a file', keys=[k for k in c0 if k != 'save_names'])
        mon.sig('single', case['mesh'], cell.order, cell.layers, cell.axis, cell.np, cell.homogeneous)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def periodic_pairs(cell, X):
    out = []
    for i in range(cell.dim):
        a = np.nonzero(np.abs(X[:, i] - cell.lbn[i]) < 1e-9)[0]
        b = np.nonzero(np.abs(X[:, i] - cell.rtf[i]) < 1e-9)[0]
        o = [j for j in range(cell.dim) if j != i]
        a = a[np.lexsort(X[a][:, o].round(9).T)]
        b = b[np.lexsort(X[b][:, o].round(9).T)]
        out.append((a, b))
    return out

def check_corrs(mon, cell, r, X=None):
    """Correctors are periodic and vanish in the corners; the linear parts are exact."""
    X = cell.raw['coors'] if X is None else X
    nv = len(X)
    for name, var, nc in (('corrs_t', 't', 1), ('corrs_u', 'u', cell.dim), ('corrs_e', 'u', cell.dim)):
        if name not in r['deps']:
            continue
        for key, s in r['deps'][name]:
            v = np.asarray(s[var]).reshape(-1, nc)[:nv]
            for a, b in periodic_pairs(cell, X):
                mon.close('correctors', v[a], v[b], 1e-9, 1e-10, msg='%s %s is not periodic' % (name, key))
            cor = np.all((np.abs(X - cell.lbn) < 1e-9) | (np.abs(X - cell.rtf) < 1e-9), axis=1)
            mon.close('correctors', v[cor], 0 * v[cor], 1e-9, 1e-10, msg='%s %s in the corners' % (name, key))
            if cell.homogeneous and name != 'corrs_e':
                mon.close('correctors', v, 0 * v, 1e-9, 1e-9, msg='%s of a homogeneous cell' % name)
    if 'pis_t' in r['deps']:
        for key, s in r['deps']['pis_t']:
            mon.close('correctors', np.asarray(s['t'])[:nv], X[:, int(key)], 1e-12, 1e-12, msg='pis_t %s' % key)
    if 'pis_u' in r['deps']:
        for key, s in r['deps']['pis_u']:
            w = np.zeros((nv, cell.dim))
            w[:, int(key[0])] = X[:, int(key[1])]
            mon.close('correctors', np.asarray(s['u']).reshape(-1, cell.dim)[:nv], w, 1e-12, 1e-12, msg='pis_u %s' % key)

def run_schedule(mon, case):
    """Subsets of coefficients and several processes."""
    rng = gen.rngof(case)
    d = tempfile.mkdtemp(prefix='c18-', dir=os.getcwd())
    try:
        cell = Cell(rng, case['mesh'], case['layers'], d)
        evals = make_evals(rng)
        kw = dict(evals=evals)
        runs = [cell.conf(rng, rank=rank(rng, evals), options=SERIAL, **kw)]
        what = ['']
        names = ['K', 'K1', 'D', 'D9', 'Df', 'E', 'E0', 'E1', 'r', 'f', 'vol'] + [e[0] for e in evals]
        only = [names[i] for i in rng.permutation(len(names))[:rng.randint(1, 5)]]
        only += [x for x in ('Volume_total', 'Volume_first') if rng.rand() < 0.5]
        runs.append(cell.conf(rng, rank=rank(rng, evals), options=dict(SERIAL, compute_only=only), **kw))
        runs.append(cell.conf(rng, rank=rank(rng, evals), options=dict(multiprocessing=True, max_workers=int(rng.randint(1, 4))), repeat=2, filenames=True, **kw))
        runs.append(cell.conf(rng, rank=rank(rng, evals), options=dict(multiprocessing=True, max_workers=int(rng.randint(1, 4)), compute_only=only), **kw))
        res = run(mon, d, runs, delay=pick(rng, [None, 0.02, 0.1]))
        good(mon, res, case['mesh'])
        c0 = res[0][0]['coefs']
        check_coefs(mon, cell, c0, evals=evals)
        status = {e[0]: e[3] for e in evals}
        # The required coefficients.
        deps = {e[0]: e[1] for e in evals}
        need, todo = set(), list(only)
        while todo:
            k = todo.pop()
            if k not in need:
                need.add(k)
                todo += deps.get(k, [])
        need = {k for k in need if status.get(k, 'main') != 'auxiliary'}
        for i in (1, 3):
            c = res[i][0]['coefs']
            mon.ok('subset', need <= set(c) <= need | {'Volume_total', 'Volume_first'}, 'computed %s instead of %s' % (sorted(c), sorted(need)))
            same(mon, 'subset', c0, c, 'compute_only', keys=[k for k in c if k in need])
        for r in res[2]:
            same(mon, 'multi', c0, r['coefs'], 'more processes')
            same_deps(mon, 'multi', res[0][0]['deps'], r['deps'], 'more processes')
            check_corrs(mon, cell, r)
            mon.ok('files', set(r['coefs'].get('save_names', {})) == {'corrs_t', 'corrs_u'}, 'names of files %s' % r['coefs'].get('save_names'))
            mon.ok('files', {'corrs_t.h5', 'corrs_u.h5', 'coefs.h5'} <= set(r['files']), 'files %s' % r['files'])
        mon.sig('schedule', case['mesh'], cell.order, len(evals), len(only))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_micro(mon, case):
    """More microstructures at once."""
    rng = gen.rngof(case)
    d = tempfile.mkdtemp(prefix='c18-', dir=os.getcwd())
    try:
        cell = Cell(rng, case['mesh'], case['layers'], d)
        evals = make_evals(rng)[:3]
        n = int(rng.randint(2, 6))
        base = cell.raw['coors']
        maps, coors = [], []
        for im in range(n):
            m, X = [], base.copy()
            for ia, g in enumerate(cell.grids):
                h = np.diff(g) * (0.4 + rng.rand(len(g) - 1))
                t = np.r_[0, np.cumsum(h)] / h.sum() * (g[-1] - g[0]) + g[0]
                t[-1] = g[-1]
                m.append([g.tolist(), t.tolist()])
                X[:, ia] = np.interp(base[:, ia], g, t)
            maps.append(m)
            coors.append(X)
        factors = (0.5 + rng.rand(n)).tolist()
        store = sorted(int(i) for i in rng.permutation(n)[:rng.randint(0, n + 1)])
        kw = dict(evals=evals, micro=maps, base=base.tolist(), factors=factors, n_micro=n, filenames=True)
        runs = [cell.conf(rng, rank=rank(rng, evals), options=dict(SERIAL, store_micro_idxs=store), repeat=2, **kw)]
        sizes = [1, int(rng.randint(1, n + 1)), n + 1, None]
        for s in sizes:
            runs.append(cell.conf(rng, rank=rank(rng, evals), options=dict(multiprocessing=True, max_workers=int(rng.randint(1, 4)), chunk_size=s, store_micro_idxs=store), **kw))
        runs.append(cell.conf(rng, rank=rank(rng, evals), options=dict(multiprocessing=True, max_workers=int(rng.randint(1, 4)), chunks_per_worker=1, store_micro_idxs=store), **kw))
        # A callback applied just once.
        runs.append(cell.conf(rng, rank=rank(rng, evals), options=SERIAL, evals=evals, grow=1.25, micro=maps, base=base.tolist(), factors=factors, n_micro=1,
                              use=['vol', 'r', 'K']))
        res = run(mon, d, runs, delay=pick(rng, [None, 0.02, 0.1]))
        good(mon, res[:6], case['mesh'])
        c0 = res[0][0]['coefs']
        for im in range(n):
            c = {k: v[im] for k, v in c0.items() if isinstance(v, list)}
            mon.ok('micro', len(c) == len([k for k in c0 if k != 'save_names']), 'coefficients that are not lists: %s' % sorted(set(c0) - set(c)))
            check_coefs(mon, cell, c, X=coors[im], factor=factors[im], evals=evals)
            check_corrs(mon, cell, dict(deps={k: v[im] for k, v in res[0][0]['deps'].items()}), X=coors[im])
        mon.event('micro parameters')
        mon.close('micro parameters', c0['f'], factors, 1e-10, 1e-12)
        same(mon, 'repeated', c0, res[0][1]['coefs'], 'second call')
        for s, r in zip(sizes + ['one per worker'], res[1:6]):
            same(mon, 'chunks', c0, r[0]['coefs'], 'chunks of %s of %d' % (s, n))
            same_deps(mon, 'chunks', res[0][0]['deps'], r[0]['deps'], 'chunks of %s of %d' % (s, n))
        # The stored correctors.
        want = sorted('corrs_%s_%04d.h5' % (v, i) for v in 'tu' for i in store)
        for s, r in zip(['serial'] + sizes + ['one per worker'], res[:6]):
            got = [f for f in r[0]['files'] if f.startswith('corrs')]
            mon.ok('stored', got == want, 'stored files %s instead of %s for %s of %d' % (got, want, s, n))
            sn = r[0]['coefs'].get('save_names')
            if mon.ok('stored', isinstance(sn, dict), 'no names of files'):
                sn = {k: sorted(os.path.basename(f) for f in ([v] if isinstance(v, str) else v)) for k, v in sn.items()}
                wn = {'corrs_%s' % v: ['corrs_%s_%04d' % (v, i) for i in store] for v in 'tu'} if store else {}
                mon.ok('stored', sn == wn, 'names of stored files %s instead of %s for %s of %d' % (sn, wn, s, n))
            for f in sorted(set(got) & set(want)):
                stored(mon, cell, os.path.join(r[0]['dir'], f), res[0][0]['deps'], f, s)
        if mon.ok('micro', not isinstance(res[6], str), 'callback: %s' % res[6]):
            mon.close('micro', res[6][0]['coefs']['Volume_total'][0], cell.vols(1.25 * base).sum(), 1e-10, 1e-12, msg='the callback of coordinates called more than once')
        mon.sig('micro', case['mesh'], n, tuple(sizes), len(store))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_example(mon, case):
    """The microproblems of the shipped examples."""
    import sfepy
    rng = gen.rngof(case)
    d = tempfile.mkdtemp(prefix='c18-', dir=os.getcwd())
    try:
        fn = os.path.join(os.path.dirname(sfepy.__file__), 'examples', 'homogenization', case['name'] + '.py')
        if not os.path.exists(fn):
            mon.inconclusive('no example %s' % case['name'])
            return
        runs, what = [], []
        nonl = case['name'] == 'nonlinear_homogenization'
        for i, (w, o) in enumerate([('serial', dict(multiprocessing=False)), ('reversed', dict(multiprocessing=False)), ('multi', dict(multiprocessing=True, max_workers=2)),
                                    ('chunks', dict(multiprocessing=True, max_workers=2, chunk_size=2))]):
            if (w == 'chunks' and not nonl) or (w == 'multi' and case['part'] == 'serial') or (w == 'reversed' and case['part'] == 'multi'):
                continue
            out = os.path.join(d, 'out%d' % i)
            os.makedirs(out)
            run_ = dict(conf=fn, options=dict(o, output_dir=out), reverse=w == 'reversed', repeat=2 if nonl else 1)
            if nonl:
                # More calls deform the microstructures by the correctors.
                run_['options']['store_micro_idxs'] = []
                F = 0.02 * gen.rngof(case, 3).randn(3, 2, 2)
                run_['macro'] = {'mtx_e': F.tolist()}
            runs.append(run_)
            what.append(w)
        res = run(mon, d, runs, delay=None)
        good(mon, res, case['name'])
        for w, r in zip(what[1:], res[1:]):
            kind = dict(reversed='order', multi='multi', chunks='chunks')[w]
            for a, b in zip(res[0], r):
                rel(mon, kind, a['coefs'], b['coefs'], case['name'] + ' ' + w)
        mon.sig('example', case['name'])
    finally:
        shutil.rmtree(d, ignore_errors=True)

def rel(mon, kind, a, b, msg):
    if not mon.ok(kind, set(a) == set(b), '%s: coefficients %s, %s' % (msg, sorted(a), sorted(b))):
        return
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict) and k != 'save_names':
            rel(mon, kind, x, y, msg + ' ' + k)
        elif isinstance(x, list):
            mon.ok(kind, len(x) == len(y), '%s: %s' % (msg, k))
            rel(mon, kind, dict(enumerate(x)), dict(enumerate(y)), msg + ' ' + k)
        elif not isinstance(x, (str, dict)) and x is not None:
            x, y = np.asarray(x), np.asarray(y)
            if x.dtype.kind in 'fci':
                s = np.abs(x).max() if x.size else 0.0
                mon.close(kind, y, x, 1e-7, 1e-8 * s + 1e-30, msg='%s: %s' % (msg, k))

def stored(mon, cell, fn, deps, name, what):
    from sfepy.discrete.fem.meshio import HDF5MeshIO
    out = HDF5MeshIO(fn).read_data(0)
    k, im = name[:7], int(name[8:12])
    var = k[-1]
    for key, s in deps[k][im]:
        nc = 1 if var == 't' else cell.dim
        f = out.get('%s_%s' % (var, key))
        if mon.ok('stored', f is not None, '%s: no %s in %s' % (what, key, sorted(out))):
            mon.close('stored', np.asarray(f.data).reshape(-1, nc), np.asarray(s[var]).reshape(-1, nc), 1e-8, 1e-9, msg='%s: %s %s' % (what, name, key))

def graph(rng):
    """Random definitions of requirements and coefficients; also with equal names, cycles and undefined names."""
    nr, nc = int(rng.randint(0, 6)), int(rng.randint(1, 6))
    rn = [['a', 'b', 'ab', 'c', 'cc', 'X'][i] for i in rng.permutation(6)[:nr]]
    cn = [['A', 'B', 'AB', 'C', 'X', 'a'][i] for i in rng.permutation(6)[:nc]]
    nodes = ['r' + n for n in rn] + ['c' + n for n in cn]
    pos = {n: i for i, n in enumerate(rng.permutation(nodes))}
    info = {}
    back = rng.rand() < 0.25
    miss = rng.rand() < 0.15
    for n in nodes:
        r = [m for m in nodes if m != n and (pos[m] < pos[n] or (back and rng.rand() < 0.3)) and rng.rand() < 0.4]
        # Correctors do not depend on coefficients as a rule.
        if n[0] == 'r' and rng.rand() < 0.7:
            r = [m for m in r if m[0] == 'r']
        if miss and rng.rand() < 0.3:
            r.append(pick(rng, ['runknown', 'cunknown']))
        r = [r[i] for i in rng.permutation(len(r))]
        info[n] = r
    ext = lambda m: m[1:] if m[0] == 'r' else 'c.' + m[1:]
    def entry(n):
        return {'requires': [ext(m) for m in info[n]]} if info[n] or rng.rand() < 0.5 else {}
    reqs = {n: entry('r' + n) for n in rn}
    coefs = {n: entry('c' + n) for n in cn}
    only = None if rng.rand() < 0.4 else [cn[i] for i in rng.permutation(nc)[:rng.randint(1, nc + 1)]]
    # Own closure.
    start = ['c' + n for n in (cn if only is None else only)]
    need, todo, undef = set(), list(start), False
    while todo:
        k = todo.pop()
        if k not in info:
            undef = True
        elif k not in need:
            need.add(k)
            todo += info[k]
    order, state, cyc = [], {}, [False]
    def visit(k):
        if k not in info:
            return
        if state.get(k) == 1:
            cyc[0] = True
        elif k not in state:
            state[k] = 1
            for m in info[k]:
                visit(m)
            state[k] = 2
    for k in start:
        visit(k)
    return reqs, coefs, only, {ext(k) for k in need}, cyc[0], undef, {ext(k): [ext(m) for m in v] for k, v in info.items()}

def run_units(mon, case):
    rng = gen.rngof(case)
    d = tempfile.mkdtemp(prefix='c18-', dir=os.getcwd())
    try:
        jobs, known = [], []
        for i in range(300):
            g = graph(rng)
            jobs.append(dict(what='sort', reqs=g[0], coefs=g[1], only=g[2]))
            known.append(g)
            if not (g[4] or g[5]) and not set(g[0]) & set(g[1]) and g[2] is None:
                n = int(rng.randint(1, 12))
                size = int(rng.randint(1, n + 3))
                store = sorted(int(k) for k in rng.permutation(n)[:rng.randint(0, n + 1)])
                jobs.append(dict(what='chunk', reqs=g[0], coefs=g[1], n=n, size=size, store=store))
                known.append(g)
        for i in range(60):
            n = int(rng.randint(1, 8))
            names = ['u', 'v', 'w', 'p', 'q', 'uv', 't', 's'][:n]
            p = pick(rng, [0.1, 0.25, 0.5])
            jobs.append(dict(what='resolve', deps={a: [b for b in names if b == a or rng.rand() < p] for a in names}))
            known.append(None)
        for i in range(20):
            vols = {k: ({'value': float(np.exp(4 * rng.randn()))} if rng.rand() < 0.6 else {'expression': 'ev_volume.i.%s(u)' % k}) for k in ['total', 'a', 'b'][:rng.randint(1, 4)]}
            shared = ['a', 'b']
            jobs.append(dict(what='volume', coefs={'A': {'requires': ['a']}, 'B': {}, 'C': {'requires': ['a', 'c.A']}}, volumes=vols))
            known.append(None)
        res = run(mon, d, jobs)
        for job, g, r in zip(jobs, known, res):
            globals()['unit_' + job['what']](mon, job, g, r)
        from sfepy.homogenization import utils
        for i in range(20):
            dim = int(rng.randint(2, 4))
            a = rng.randn(dim, dim)
            if np.linalg.det(a) < 0:
                a = a[::-1].copy() if dim == 2 and rng.rand() < 0.5 else np.vstack([a[1], a[0], a[2:]]) if dim == 3 else a
            v = np.abs(np.linalg.det(a))
            mon.close('lattice', utils.get_lattice_volume(a if rng.rand() < 0.5 else a.tolist()), v, 1e-10, 1e-12, msg='volume of a %d-dimensional lattice cell' % dim)
            lbn = rng.randn(dim)
            size = 0.1 + rng.rand(dim)
            mon.close('lattice', utils.get_box_volume(dim, lbn, lbn + size), np.prod(size), 1e-10, 1e-12)
            mon.close('lattice', utils.get_box_volume(dim, tuple(size)), np.prod(2 * size), 1e-10, 1e-12, msg='box given by distances')
    finally:
        shutil.rmtree(d, ignore_errors=True)

def unit_sort(mon, job, g, r):
    reqs, coefs, only, need, cyc, undef, info = g
    txt = 'requirements %s coefficients %s compute_only %s' % (reqs, coefs, only)
    if cyc or undef:
        kind = 'circular' if cyc else 'undefined'
        mon.ok(kind, isinstance(r, tuple) and r[0] == 'ValueError', '%s dependencies not reported: %s -> %s' % (kind, txt, r))
        return
    if not mon.ok('sorted', isinstance(r, list), 'refused: %s -> %s' % (txt, r)):
        return
    mon.ok('closure', sorted(r) == sorted(need), '%s: computed %s instead of %s' % (txt, sorted(r), sorted(need)))
    pos = {k: i for i, k in enumerate(r)}
    for k in r:
        for m in info.get(k, []):
            mon.ok('sorted', m in pos and pos[m] < pos[k], '%s: %s not before %s in %s' % (txt, m, k, r))
    mon.sig('sort', len(r), len(need))

def unit_chunk(mon, job, g, r):
    reqs, coefs, only, need, cyc, undef, info = g
    n, size, store = job['n'], job['size'], job['store']
    if not mon.ok('chunk table', isinstance(r, dict), 'failed: %s' % (r,)):
        return
    flat = [i for a, b in r['tab'] for i in range(a, b)]
    mon.ok('chunk table', flat == list(range(n)) and all(0 < b - a <= size for a, b in r['tab']), 'chunks %s of %d by %d' % (r['tab'], n, size))
    nch = len(r['tab'])
    mon.ok('chunk table', sorted(r['names']) == sorted('%s|ch:%d' % (k, i) for k in need for i in range(nch)), 'tasks %s' % r['names'])
    pos = {k: i for i, k in enumerate(r['names'])}
    for k in r['names']:
        base, tag = k.split('|')
        for m in info.get(base, []):
            mon.ok('chunk table', pos.get(m + '|' + tag, 1e9) < pos[k], '%s not before %s' % (m, k))
    for k in need:
        mon.ok('dechunk', r['out'].get(k) == [(k, i) for i in range(n)], '%s: %s' % (k, r['out'].get(k)))
    for name in reqs:
        got = []
        for i, (a, b) in enumerate(r['tab']):
            e = r['reqs']['%s|ch:%d' % (name, i)]
            if 'store_idxs' in e:
                ii, off = e['store_idxs']
                got += [k + off for k in ii]
                mon.ok('chunk store', all(0 <= k < b - a for k in ii), 'indices %s of the chunk %s' % (ii, (a, b)))
        mon.ok('chunk store', sorted(got) == store, 'stored %s instead of %s' % (sorted(got), store))

def unit_volume(mon, job, g, r):
    if not mon.ok('volume coefficients', isinstance(r, dict), 'failed: %s' % (r,)):
        return
    vols = job['volumes']
    for k, v in vols.items():
        c = r.get('Volume_' + k)
        if mon.ok('volume coefficients', c is not None, 'no volume %s' % k) and 'value' in v:
            mon.close('volume coefficients', float(eval(c['expression'])), v['value'], 1e-14, 0, msg='the volume given by value')
    for k in 'ABC':
        mon.ok('volume coefficients', {'c.Volume_' + v for v in vols} <= set(r[k].get('requires', [])), '%s requires %s' % (k, r[k].get('requires')))

def unit_resolve(mon, job, g, r):
    deps = job['deps']
    if not mon.ok('blocks', isinstance(r, list), 'failed: %s' % (r,)):
        return
    names = sorted(deps)
    mon.ok('blocks', sorted(n for b in r for n in b) == names, '%s: blocks %s' % (deps, r))
    done = set()
    for b in r:
        for n in b:
            mon.ok('resolve order', set(deps[n]) <= done | set(b), '%s: %s before its prerequisites in %s' % (deps, n, r))
        done |= set(b)
    # The blocks are mutually dependent names.
    reach = {n: set(deps[n]) for n in names}
    for _ in names:
        for n in names:
            reach[n] = reach[n].union(*[reach[m] for m in reach[n]]) if reach[n] else reach[n]
    comps = {tuple(sorted({m for m in reach[n] if n in reach[m]} | {n})) for n in names}
    mon.ok('blocks', {tuple(sorted(b)) for b in r} == comps, '%s: blocks %s instead of %s' % (deps, r, sorted(comps)))
    mon.sig('resolve', len(names), len(comps))
