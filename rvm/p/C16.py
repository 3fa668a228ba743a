"""C16: a restarted computation continues exactly as the original.

Monitor: a transient computation records times, states, histories, derivatives and saved steps of all its steps and writes
restart data of each of them; fresh problems are then started from the restart data of every step and the recorded
continuations have to agree with the original, as have chains of restarts; damaged or foreign data have to be refused.
"""
import glob
import os
import shutil

import numpy as np

from .. import gen, tdep, core
from . import C15

REQUIRED = ['loaded', 'loaded history 1', 'loaded history 2', 'simple', 'adaptive', 'quasistatic', 'history', 'long history', 'several unknowns', 'newmark', 'generalized_alpha', 'bathe',
            'central_difference', 'velocity_verlet', 'ed_basic', 'ed_linear', 'ed_pid', 'time_sequence', 'chain', 'keep last', 'refused',
            'stationary', 'output file', 'constraints', 'save times', 'rejected', 'enlarged', 'restarted']
ASSUMPTIONS = ['the solvers used are deterministic', 'time stepping itself is decided by C15']

def cases(rng, tier):
    n = dict(quick=1, thorough=12)[tier]
    out = []
    out += [dict(kind='parabolic', cost=4) for _ in range(24 * n)]
    for s in C15.ED:
        out += [dict(kind='ed', scheme=s, cost=4) for _ in range(8 * n)]
    out += [dict(kind='stationary', cost=1) for _ in range(4 * n)]
    out += [dict(kind='refused', cost=1) for _ in range(6 * n)]
    out += [dict(kind='output', cost=2) for _ in range(6 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

class Dir:
    def __enter__(self):
        self.path = core.scratch() if hasattr(core, 'scratch') else __import__('tempfile').mkdtemp(prefix='c16-')
        return str(self.path)

    def __exit__(self, *a):
        shutil.rmtree(str(self.path), ignore_errors=True)

class NLS:
    """Exit statuses which depend on the time only."""

    def __init__(self, nls, ts, fun):
        self.__dict__.update(nls=nls, ts=ts, script=fun)

    def __getattr__(self, name):
        return getattr(self.nls, name)

    def __call__(self, vec, status=None, **kw):
        out = self.nls(vec, **kw)
        cond, n_iter = self.script(self.ts)
        for s in (self.nls.status, status):
            if s is not None:
                s['condition'], s['n_iter'] = cond, n_iter
        return out

class Run:
    """One run of a problem."""

    def __init__(self, make, tmp, load=None, mode=1, names=('u',), hist=(), script=None, save=False, limit=400):
        from sfepy.base.base import IndexedStruct
        d = make()
        d['options'] = dict(d['options'])
        d['options'].update(save_restart=mode, output_dir=tmp, output_format='h5')
        if load is not None:
            d['options']['load_restart'] = load
        self.pb = pb = tdep.problem(d)
        pb.setup_output(output_filename_trunk='p', output_dir=tmp, output_format='h5', file_format='hdf5')
        self.saved = []
        pb.save_state = lambda fn, *a, **kw: self.saved.append((kw['ts'].step, kw['ts'].time))
        pb.init_solvers()
        self.tss = tss = pb.get_solver()
        if script is not None:
            tss.nls = NLS(tss.nls, tss.ts, script)
        self.files = {}

        def extra(pb, ts, variables):
            out = {}
            for n, h in hist:
                v = variables[n]
                for k in range(1, h + 1):
                    if ts.step >= 1:
                        out['%s-%d' % (n, k)] = np.array(v(step=-k), copy=True) if v.data[k] is not None else None
                if ts.step >= 1:
                    out['d%s/dt' % n] = np.array(v(derivative='dt'), copy=True)
            if variables.r_vec is not None:
                out['r'] = np.array(variables.r_vec, copy=True)
            if len(self.tr.rows) > limit:
                raise RuntimeError('too many steps')
            self.files[int(ts.step)] = pb.get_restart_filename(ts=ts)
            return out
        self.tr = tdep.Trace(list(names), extra)
        self.status = IndexedStruct()
        self.var = pb.solve(status=self.status, save_results=save, step_hook=self.tr, verbose=False)
        self.rows = self.tr.rows
        self.last = {n: np.array(self.var[n](), copy=True) for n in names}

def compare(mon, a, b, k, names, what, tol=1e-9):
    """Run b restarted after the step k of the run a."""
    ra, rb = a.rows[k + 1:], b.rows
    mon.equal('steps', [r['step'] for r in rb], [r['step'] for r in ra], 'steps after %s' % what)
    if len(ra) != len(rb):
        return
    T = abs(a.rows[-1]['time'] - a.rows[0]['time'])
    for x, y in zip(ra, rb):
        for key in ('time', 'dt', 'nt'):
            mon.close('times', y[key], x[key], 1e-11, 1e-12 * T, msg='%s of the step %d after %s' % (key, x['step'], what))
        mon.equal('keys', sorted(y), sorted(x), 'recorded data')
        for key in x:
            if key in ('time', 'dt', 'nt', 'step', 'n_step') or y.get(key) is None or x[key] is None:
                mon.equal('present', key in y and (y[key] is None), x[key] is None, 'presence of %s' % key)
                continue
            s = max(abs(r[key]).max() for r in a.rows if r.get(key) is not None and np.size(r[key])) if np.size(x[key]) else 0.0
            mon.close('state' if key in names else 'history', y[key], x[key], 0, tol * (s + 1e-10),
                      msg='%s of the step %d after %s' % (key, x['step'], what))
    for n in names:
        s = abs(a.last[n]).max()
        mon.close('result', b.last[n], a.last[n], 0, tol * (s + 1e-10), msg='the returned %s after %s' % (n, what))
    mon.equal('saved', [s[0] for s in b.saved], [s[0] for s in a.saved if s[0] > a.rows[k]['step']], 'saved steps after %s' % what)
    mon.event('restarted')

def loaded(mon, make, a, k, names, hist, tol, what):
    """The state and the history in the restart file of the step k."""
    pb = tdep.problem(make())
    pb.init_solvers()
    ts = pb.get_solver().ts
    pb.init_time(ts)
    variables = pb.load_restart(a.files[k], ts=ts)
    row = a.rows[k]
    mon.ok('loaded', ts.step == row['step'] and abs(ts.time - row['time']) <= 1e-11 * (1 + abs(row['time'])), 'time of the step %d of %s' % (k, what))
    for n in names:
        v = variables[n]
        s = max(abs(r[n]).max() for r in a.rows)
        mon.close('loaded', v(), row[n], 0, tol * (s + 1e-10), msg='%s of the step %d of %s' % (n, k, what))
        for j in range(1, dict(hist).get(n, 0) + 1):
            x = row.get('%s-%d' % (n, j))
            if x is not None:
                mon.event('loaded history %d' % j)
                mon.close('loaded', v(step=-j), x, 0, tol * (s + 1e-10), msg='%s, history %d of the step %d of %s' % (n, j, k, what))
    mon.event('loaded')

def decide(mon, rng, make, names, hist=(), script=None, save=False, what='', tol=1e-9, finish=True):
    with Dir() as tmp:
        one = os.path.join(tmp, 'a')
        os.mkdir(one)
        a = Run(make, one, names=names, hist=hist, script=script, save=save)
        N = len(a.rows)
        mon.equal('files', sorted(os.path.basename(f) for f in glob.glob(one + '/*restart*.h5')),
                  sorted(os.path.basename(f) for f in a.files.values()), 'restart files')
        ks = list(range(N - 1)) if N <= 6 else sorted(set([0, 1, N - 2] + list(rng.choice(N - 1, 3))))
        for k in ks:
            two = os.path.join(tmp, 'b%d' % k)
            os.mkdir(two)
            b = Run(make, two, load=a.files[k], names=names, hist=hist, script=script, save=save, limit=N + 20)
            compare(mon, a, b, k, names, 'the step %d of %s' % (k, what), tol)
            if len(b.rows) >= 2 and rng.rand() < 0.5:
                j = rng.randint(len(b.rows) - 1)
                three = os.path.join(tmp, 'c%d' % k)
                os.mkdir(three)
                c = Run(make, three, load=b.files[b.rows[j]['step']], names=names, hist=hist, script=script, save=save)
                compare(mon, a, c, k + 1 + j, names, 'the steps %d and %d of %s' % (k, k + 1 + j, what), tol)
                mon.event('chain')
            shutil.rmtree(two)
        loaded(mon, make, a, int(rng.choice([N - 1, rng.randint(N)])), names, hist, tol, what)
        if finish and N > 1:
            # There is nothing to continue after the last step.
            two = os.path.join(tmp, 'e')
            os.mkdir(two)
            try:
                b = Run(make, two, load=a.files[N - 1], names=names, hist=hist, script=script)
            except (ValueError, IOError):
                b = None
            if b is not None:
                mon.equal('end', [r['step'] for r in b.rows], [], 'steps after the last step of %s' % what)
                for n in names:
                    mon.close('end', b.last[n], a.last[n], 0, tol * (abs(a.last[n]).max() + 1e-10), msg='the state after the last step')
            mon.event('last step')
        if rng.rand() < 0.3:
            two = os.path.join(tmp, 'k')
            os.mkdir(two)
            b = Run(make, two, mode=-1, names=names, hist=hist, script=script)
            fs = sorted(os.path.basename(f) for f in glob.glob(two + '/*restart*.h5'))
            mon.equal('files', fs, [os.path.basename(b.files[b.rows[-1]['step']])], 'the kept restart file')
            mon.event('keep last')
        return a

def run_parabolic(mon, case):
    """Diffusion-like equations of one or two unknowns with histories."""
    rng = gen.rngof(case)
    S = C15.Setting(rng, vector=False)
    two = bool(rng.rand() < 0.5)
    adaptive = bool(rng.rand() < 0.5)
    active_only = bool(rng.rand() < 0.5)
    long = 2 if rng.rand() < 0.4 else 1
    scheme = str(rng.choice(['euler', 'euler', 'multistep', 'quasistatic']))
    lc = bool(rng.rand() < 0.3) and S.dim > 1
    nonlin = bool(rng.rand() < 0.3)
    S.par = dict(k=float(0.3 + rng.rand()), c=float(0.5 + rng.rand()), c1=float(2 + rng.rand()), c2=float(-rng.rand()), lam=0.0, mu=0.0,
                 g=float(rng.randn()), k2=float(0.5 + rng.rand()))
    t0 = float(rng.choice([0.0, 0.5, -1.0]))
    L = 0.5 + rng.rand()
    n = 4 + rng.randint(7)
    F = S.forms()
    ini = rng.randn(S.dim) * 1.5
    par = dict(dt_red_factor=0.5, dt_red_max=0.05, dt_inc_factor=float(rng.choice([1.25, 1.6])), dt_inc_on_iter=3,
               dt_inc_wait=int(rng.choice([0, 1, 2])))
    sv = rng.randint(3)
    save_times = ['all', 3 + rng.randint(2), [t0, t0 + 0.31 * L, t0 + 0.33 * L, t0 + 0.71 * L, t0 + L]][sv]
    lsc = C15.ls_conf(rng)
    key = case['seed'] % 9973

    def ic(coors, ic_=None, **kw):
        return np.cos(np.asarray(coors) @ ini)

    def make():
        d = S.base()
        h = 0 if scheme == 'quasistatic' and not two else long
        d['variables'] = {'u': ('unknown field', 'f', 0, h) if h else ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u')}
        eq = F['K'] % ('v', 'u') + ' - ' + F['F'] % 'v'
        if scheme == 'euler':
            eq += ' + ' + F['M'] % ('c', 'v', 'du/dt')
        elif scheme == 'multistep':
            eq += ' + ' + F['M'] % ('c1', 'v', 'u') + ' + ' + F['M'] % ('c2', 'v', 'u[-1]')
        if nonlin:
            d['get_n'] = lambda u: 0.5 * u**3
            d['get_dn'] = lambda u: 1.5 * u**2
            eq += ' + dw_volume_nvf.i.Omega(get_n, get_dn, v, u)'
        d['equations'] = {'e': eq + ' = 0'}
        d['ebcs'] = {'left': ('Left', {'u.all': 'wall0'})}
        d['ics'] = {'ic': ('Omega', {'u.all': 'ic'})}
        d['functions']['ic'] = (ic,)
        if two:
            d['fields']['w'] = ('real', 'vector', 'Omega', 1)
            d['variables'].update({'p': ('unknown field', 'w', 1, 1), 'q': ('test field', 'w', 'p')})
            d['equations']['e2'] = 'dw_dot.i.Omega(m.c, q, dp/dt) + dw_div_grad.i.Omega(m.k2, q, p) + dw_s_dot_grad_i_s.i.Omega(q, u)' \
                if False else 'dw_dot.i.Omega(m.c, q, dp/dt) + dw_div_grad.i.Omega(m.k2, q, p) - dw_v_dot_grad_s.i.Omega(m.g, q, u) = 0'
            d['ics']['icp'] = ('Omega', {'p.all': 0.3})
            # Steps 0 of quasistatic problems have no time derivatives.
            d['ebcs']['leftp'] = ('Left', {'p.all' if scheme == 'quasistatic' else 'p.0': 0.1})
        if lc:
            d['regions']['Right'] = ('vertices in (x > %r)' % (1 - 1e-8), 'facet')
            d['lcbcs'] = {'flat': ('Right', {'u.all': None}, None, 'integral_mean_value')}
        d['solvers'] = dict(lsc)
        d['solvers']['newton'] = ('nls.newton', {'i_max': 15, 'eps_a': 1e-12, 'eps_r': 1e-12, 'eps_mode': 'or'})
        ts = dict(t0=t0, t1=t0 + L, n_step=n, dt=None, quasistatic=scheme == 'quasistatic', verbose=0)
        if adaptive:
            ts.update(par)
        d['solvers']['ts'] = ('ts.adaptive' if adaptive else 'ts.simple', ts)
        d['options'] = dict(ts='ts', nls='newton', ls='ls', active_only=active_only, save_times=save_times)
        return d

    def script(ts):
        r = np.random.RandomState(int(abs(ts.time - t0) / L * 1e6 + 0.5) % (2**31) + key)
        bad = r.rand() < 0.3 and ts.dt > 0.1 * L / n
        if bad:
            mon.event('rejected')
        return int(bad), int(r.randint(0, 5))
    if lc:
        active_only = True
    names = ['u', 'p'] if two else ['u']
    hist = [('u', long)] if scheme != 'quasistatic' or two else []
    if two:
        hist.append(('p', 1))
    a = decide(mon, rng, make, names, hist, script if adaptive else None, save=True, what='%s %s' % ('adaptive' if adaptive else 'simple', scheme))
    dts = [r['dt'] for r in a.rows]
    if any(y > x * 1.0001 for x, y in zip(dts, dts[1:])):
        mon.event('enlarged')
    for k, f in (('adaptive', adaptive), ('simple', not adaptive), ('quasistatic', scheme == 'quasistatic'), ('history', bool(hist)),
                 ('long history', bool(hist) and long == 2), ('several unknowns', two), ('constraints', lc), ('save times', sv > 0)):
        if f:
            mon.event(k)
    mon.sig('parabolic', S.g, S.order, scheme, adaptive, active_only, two, lc, nonlin, sv)

def run_ed(mon, case):
    rng = gen.rngof(case)
    scheme = case['scheme']
    S = C15.Setting(rng, g=str(rng.choice(['1_2', '2_3', '2_4'])))
    C15.set_par(rng, S)
    kind = str(rng.choice(['fixed', 'fixed', 'ed_basic', 'ed_linear', 'ed_pid', 'time_sequence']))
    conf, pars = C15.parameters(rng, scheme)
    if scheme == 'newmark':
        conf, pars = dict(beta=0.25, gamma=0.5), (0.25, 0.5, 0, 0)
    explicit = scheme in ('central_difference', 'velocity_verlet')
    damp, load = bool(rng.rand() < 0.5), bool(rng.rand() < 0.6)
    lin = bool(rng.rand() < 0.6)
    active_only = bool(rng.rand() < 0.5) if kind in ('fixed', 'time_sequence') or scheme != 'bathe' else True
    transform = bool(rng.rand() < 0.3)
    t0 = float(rng.choice([0.0, 1.0]))
    n = 6 + rng.randint(4)
    h = (0.01 if explicit else 0.1) * (0.5 + rng.rand())
    if explicit and S.order > 1:
        h *= 0.3
    t1 = t0 + h * (n - 1)
    seq = None
    tsc = None
    if kind == 'time_sequence':
        x = np.cumsum(0.2 + rng.rand(7))
        seq = [float(v) for v in t0 + (t1 - t0) * x / x[-1]]
        seq[-1] = t1
        tsc = ('tsc.time_sequence', dict(times=seq))
    elif kind != 'fixed':
        tc = dict(eps_r=[0.3, 0.3], eps_a=[float(10.0**-rng.randint(1, 4)), float(10.0**-rng.randint(0, 2))], fmin=0.3,
                  fmax=float(rng.choice([1.5, 2.5])), fsafety=float(rng.choice([0.8, 0.9])))
        if kind == 'ed_linear':
            tc.update(fred=float(rng.choice([1.0, 0.9])), inc_wait=int(rng.choice([1, 2])), min_finc=1.1)
        elif kind == 'ed_pid':
            tc.update(pcoef=float(rng.choice([0.2, 0.4])), icoef=float(rng.choice([0.3, 1.0])), dcoef=float(rng.choice([0, 0.1])))
        if rng.rand() < 0.25:
            tc['guess_dt0'] = True
        tsc = ('tsc.' + kind, tc)
    seed = rng.randint(2**31 - 1)

    def make():
        return C15.ed_desc(mon, np.random.RandomState(seed), S, scheme, t0, t1, n=n, lin=lin, damp=damp, load=load,
                           active_only=active_only, transform=transform, tsc=tsc, pars=conf)
    decide(mon, rng, make, ['u', 'du', 'ddu'], save=True, what='%s with %s steps' % (scheme, kind), tol=1e-8)
    mon.event(scheme)
    mon.event(kind)
    mon.sig('ed', scheme, kind, S.g, S.order, S.vector, lin, damp, load, active_only, transform)

def run_stationary(mon, case):
    rng = gen.rngof(case)
    S = C15.Setting(rng, vector=False)
    S.par = dict(k=float(0.3 + rng.rand()), c=1.0, lam=0.0, mu=0.0)
    F = S.forms()
    lsc = C15.ls_conf(rng)
    ao = bool(rng.rand() < 0.5)

    def make():
        d = S.base()
        d['variables'] = {'u': ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u')}
        d['equations'] = {'e': F['K'] % ('v', 'u') + ' + ' + F['M'] % ('c', 'v', 'u') + ' - ' + F['F'] % 'v' + ' = 0'}
        d['ebcs'] = {'left': ('Left', {'u.all': 'wall0'})}
        d['solvers'] = dict(lsc)
        d['solvers']['newton'] = ('nls.newton', {'i_max': 2, 'eps_a': 1e-10, 'eps_r': 1e-10})
        d['options'] = dict(nls='newton', ls='ls', active_only=ao)
        return d
    with Dir() as tmp:
        a = Run(make, tmp)
        fs = glob.glob(tmp + '/*restart*.h5')
        mon.equal('files', len(fs), 1, 'restart files of a stationary problem')
        two = os.path.join(tmp, 'b')
        os.mkdir(two)
        b = Run(make, two, load=fs[0])
        mon.equal('steps', len(b.rows), len(a.rows), 'steps of a restarted stationary problem')
        mon.close('result', b.last['u'], a.last['u'], 0, 1e-9 * (abs(a.last['u']).max() + 1e-10), msg='the restarted stationary problem')
        mon.event('restarted')
    mon.event('stationary')
    mon.sig('stationary', S.g, S.order)

def simple_make(S, n=5, var='u', order=None, comps=None, hist=1, t1=1.0, kind='ts.simple'):
    F = S.forms()

    def make():
        d = S.base()
        o = order or S.order
        d['fields'] = {'f': ('real', 'scalar', 'Omega', o)}
        d['variables'] = {var: ('unknown field', 'f', 0, hist), 'v': ('test field', 'f', var)}
        d['equations'] = {'e': F['K'] % ('v', var) + ' + ' + F['M'] % ('c', 'v', 'd%s/dt' % var) + ' - ' + F['F'] % 'v' + ' = 0'}
        d['ebcs'] = {'left': ('Left', {var + '.all': 'wall0'})}
        d['functions']['ic'] = (lambda coors, ic=None, **kw: np.cos(3 * coors[:, 0]),)
        d['ics'] = {'ic': ('Omega', {var + '.all': 'ic'})}
        d['solvers'] = {'ls': ('ls.scipy_superlu', {}), 'newton': ('nls.newton', {'i_max': 2, 'eps_a': 1e-10, 'eps_r': 1e-10}),
                        'ts': (kind, dict(t0=0.0, t1=t1, n_step=n, verbose=0))}
        d['options'] = dict(ts='ts', nls='newton', ls='ls')
        return d
    return make

def run_refused(mon, case):
    """Data of other problems are refused."""
    rng = gen.rngof(case)
    S = C15.Setting(rng, vector=False, g=str(rng.choice(['2_3', '2_4'])), order=1)
    S.par = dict(k=float(0.3 + rng.rand()), c=1.0, lam=0.0, mu=0.0)
    what = str(rng.choice(['size', 'name', 'steps', 'file', 'missing', 'title']))
    with Dir() as tmp:
        make = simple_make(S, n=6)
        a = Run(make, tmp)
        f = a.files[4]
        exc = (Exception,)
        other = make
        if what == 'size':
            other = simple_make(S, n=6, order=2)
        elif what == 'name':
            other = simple_make(S, n=6, var='w')
        elif what == 'steps':
            other = simple_make(S, n=3)
        elif what == 'file':
            f = os.path.join(tmp, 'x.h5')
            with open(f, 'w') as fd:
                fd.write('nonsense')
        elif what == 'missing':
            f = os.path.join(tmp, 'none.h5')
        else:
            import tables
            f = os.path.join(tmp, 'y.h5')
            tables.open_file(f, 'w', title='Something else').close()
        two = os.path.join(tmp, 'b')
        os.mkdir(two)
        var = 'w' if what == 'name' else 'u'
        ok, msg = False, ''
        try:
            b = Run(other, two, load=f, names=[var])
            msg = 'steps %s' % [r['step'] for r in b.rows]
        except Exception as e:
            ok = True
        mon.ok('refused', ok, 'wrong restart data (%s) are not refused: %s' % (what, msg))
        import tables
        tables.file._open_files.close_all()
        # The problem can be restarted from correct data afterwards.
        three = os.path.join(tmp, 'c')
        os.mkdir(three)
        compare(mon, a, Run(make, three, load=a.files[3]), 3, ['u'], 'refused data')
    mon.event('refused')
    mon.sig('refused', what, S.g)

def run_output(mon, case):
    """Regular output files in place of restart files."""
    rng = gen.rngof(case)
    S = C15.Setting(rng, vector=False, g=str(rng.choice(['2_3', '2_4', '1_2', '3_8'])), order=1)
    S.par = dict(k=float(0.3 + rng.rand()), c=1.0, lam=0.0, mu=0.0)
    with Dir() as tmp:
        d = simple_make(S, n=6)()
        d['options'].update(output_dir=tmp, output_format='h5')
        pb = tdep.problem(d)
        pb.setup_output(output_filename_trunk='p', output_dir=tmp, output_format='h5', file_format='hdf5')
        tr = tdep.Trace(['u'])
        pb.solve(save_results=True, step_hook=tr, verbose=False)
        f = pb.get_output_name()
        if not os.path.exists(f):
            f = glob.glob(tmp + '/*.h5')[0]
        for k in (0, 2, 5, rng.randint(6)):
            p2 = tdep.problem(simple_make(S, n=6)())
            p2.init_solvers()
            ts = p2.get_solver().ts
            p2.set_default_state() if hasattr(p2, 'set_default_state') else None
            p2.time_update(ts)
            ts.set_step(k)
            var = p2.load_restart(f, ts=ts)
            mon.close('output', np.asarray(var['u']()), tr[k]['u'], 1e-12, msg='the state of the step %d from an output file' % k)
    mon.event('output file')
    mon.sig('output', S.g)
