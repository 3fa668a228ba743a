"""C15: time stepping covers the interval and integrates consistently.

Monitor: steppers are driven through random intervals, lengths and scripted changes and their times, steps and
normalised times are compared with an own model; the general time stepping solvers are run with scripted nonlinear
solvers and all calls of their hooks are recorded and decided by a model of the documented step control; real
transient problems are solved and every step of the recorded trace is substituted into the discrete update formulas of
the scheme with matrices assembled independently and with loads, boundary values and histories of the right time.
"""
import numpy as np

from .. import gen, tdep

REQUIRED = ['fixed stepper', 'variable stepper', 'dt', 'n_step', 'adaptive script', 'rejected', 'enlarged', 'given up', 'simple script',
            'quasistatic', 'parabolic', 'history', 'adaptive parabolic', 'varying conditions', 'newmark', 'generalized_alpha', 'bathe',
            'central_difference', 'velocity_verlet', 'linear', 'nonlinear', 'active only', 'full', 'loads', 'damping', 'energy', 'order',
            'ed_basic', 'ed_linear', 'ed_pid', 'time_sequence', 'step accepted', 'step rejected', 'transformed', 'extra variables',
            'stationary', 'save times']
ASSUMPTIONS = ['bilinear forms and loads are assembled correctly (C10)', 'single nonlinear and linear solutions are correct (C12, C13)']

ED = ['newmark', 'generalized_alpha', 'bathe', 'central_difference', 'velocity_verlet']

def cases(rng, tier):
    n = dict(quick=3, thorough=60)[tier]
    out = []
    out += [dict(kind='fixed', cost=0.2) for _ in range(40 * n)]
    out += [dict(kind='variable', cost=0.2) for _ in range(40 * n)]
    out += [dict(kind='script', cost=0.2) for _ in range(30 * n)]
    out += [dict(kind='parabolic', cost=2) for _ in range(24 * n)]
    for s in ED:
        out += [dict(kind='ed', scheme=s, cost=2) for _ in range(12 * n)]
        out += [dict(kind='energy', scheme=s, cost=2) for _ in range(2 * n)]
        out += [dict(kind='order', scheme=s, cost=3) for _ in range(2 * n)]
        out += [dict(kind='control', scheme=s, cost=3) for _ in range(6 * n)]
    out += [dict(kind='stalled', cost=1) for _ in range(2)]
    out += [dict(kind='extra', cost=2) for _ in range(6 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def interval(rng):
    L = 10.0**rng.randint(-6, 4) * (0.5 + rng.rand())
    t0 = float(rng.choice([0.0, 0.0, 1.0, -1.0, 3.3, -7.0])) * L
    if rng.rand() < 0.4:
        t0, L = float(rng.choice([0.0, 1.0, 0.1])), float(rng.choice([1.0, 2.0, 0.7, 10.0]))
    return t0, t0 + L

def steps(rng, t0, t1):
    """(dt, n_step, expected number of times)"""
    n = int(rng.choice([2, 3, 4, 7, 10, 11, 12, 21, 51, 100, 101, 102, 300]))
    L = t1 - t0
    mode = rng.randint(4)
    if mode == 0:
        return None, n, n
    if mode == 1:
        return L / (n - 1), None, n
    if mode == 2:
        return L * (0.1 + rng.rand()), n, n                        # n_step has the precedence
    k = L / (n - 1) * (1 + 0.3 * (rng.rand() - 0.5) / (n - 1))
    return k, None, int(np.floor(L / k + 0.5)) + 1

def conf(t0, t1, dt, n, quasi=False):
    from sfepy.base.base import Struct
    return Struct(t0=t0, t1=t1, dt=dt, n_step=n, quasistatic=quasi)

def run_fixed(mon, case):
    from sfepy.solvers.ts import TimeStepper
    rng = gen.rngof(case)
    t0, t1 = interval(rng)
    dt, n, N = steps(rng, t0, t1)
    mon.event('fixed stepper')
    mon.event('dt' if dt is not None else 'n_step')
    if rng.rand() < 0.5:
        ts = TimeStepper(t0, t1, dt=dt, n_step=n)
    else:
        ts = TimeStepper.from_conf(conf(t0, t1, dt, n))
    L = t1 - t0
    eps = 1e-12 * max(abs(t0), abs(t1))
    mon.equal('count', ts.n_step, N, 'number of steps')
    mon.equal('start', (ts.step, ts.time, ts.nt), (0, t0, 0.0), 'the state at the start')
    mon.close('length', ts.dt, L / (N - 1), 1e-9, eps, msg='the step length')
    seen, suffixes = [], []

    def check(step, time):
        mon.equal('iteration', (step, time), (ts.step, ts.time), 'the state in an iteration')
        mon.close('normalised', ts.nt, (time - t0) / L, 0, 1e-12, msg='normalised time')
        seen.append((step, time))
        suffixes.append(ts.suffix % ts.step)
    for i, t in ts:
        check(i, t)
    times = np.array([t for _, t in seen])
    mon.equal('steps', [i for i, _ in seen], list(range(N)), 'numbers of steps')
    mon.ok('increasing', (np.diff(times) > 0).all(), 'times do not increase')
    mon.equal('ends', (times[0], times[-1]), (t0, t1), 'the first and the last times')
    mon.close('equidistant', times, np.linspace(t0, t1, N), 0, eps + 1e-12 * L, msg='times')
    mon.ok('suffix', len({len(s) for s in suffixes}) == 1 and suffixes == sorted(set(suffixes)), 'suffixes: %s' % suffixes[:12])
    mon.ok('suffix', '%s' % (ts.format % (N, N)) != '', 'format')
    mon.equal('end', ts.nt, 1.0, 'normalised time at the end')
    ts.advance()
    mon.equal('end', (ts.step, ts.time), (N - 1, t1), 'advancing past the end')
    # Random access.
    for _ in range(4):
        k = rng.randint(N)
        seen.clear()
        for i, t in ts.iter_from(k):
            check(i, t)
        mon.equal('partial', [i for i, _ in seen], list(range(k, N)), 'iteration from a step')
        k = rng.randint(N)
        ts.set_step(k - N if rng.rand() < 0.3 else k)
        mon.equal('access', (ts.step, ts.time), (k, times[k]), 'set_step')
        mon.close('access', ts.nt, (times[k] - t0) / L, 0, 1e-12)
        st = ts.get_state()
        o = TimeStepper(t0, t1, dt=dt, n_step=n)
        o.set_state(**st)
        mon.equal('state', (o.step, o.time, o.nt), (ts.step, ts.time, ts.nt), 'the restored state')
        o = TimeStepper(0.0, 3.0, n_step=5)
        o.set_from_ts(ts)
        mon.equal('copied', (o.step, o.time, o.n_step, o.t0, o.t1), (ts.step, ts.time, ts.n_step, t0, t1), 'set_from_ts')
        sub = (rng.rand() - 0.5) * ts.dt
        ts.set_substep_time(sub)
        mon.close('substep', ts.time, times[k] + sub, 0, eps, msg='time in a substep')
        ts.restore_step_time()
        mon.equal('substep', ts.time, times[k], 'time after a substep')
        ts.restore_step_time()
        mon.equal('substep', ts.time, times[k], 'time after a substep')
    for bad in (N, -N - 1, N + 5):
        mon.raises('range', ValueError, ts.set_step, bad, msg='a step out of the range')
    k = rng.rand()
    ts.set_step(None, nt=k)
    mon.ok('nearest', abs(ts.step - k * (N - 1)) <= 0.5 + 1e-9, 'the step of a normalised time')
    same = TimeStepper(t0, t1, n_step=N)
    mon.ok('equality', bool(ts == same), 'equal steppers differ')
    for o in (TimeStepper(t0, t1 + L, n_step=N), TimeStepper(t0 - L, t1, n_step=N), TimeStepper(t0, t1, n_step=N + 1)):
        mon.ok('equality', not (ts == o), 'different steppers are equal')
    mon.sig('fixed', N, dt is None)

class VModel:
    """The variable stepper."""

    def __init__(self, t0, t1, dt):
        self.t0, self.L, self.dt = t0, t1 - t0, dt
        self.times = [t0]

    @property
    def done(self):
        return (self.times[-1] - self.t0) / self.L >= 1.0 - 1e-10

def run_variable(mon, case):
    from sfepy.solvers.ts import VariableTimeStepper
    rng = gen.rngof(case)
    t0, t1 = interval(rng)
    dt, n, N = steps(rng, t0, t1)
    L = t1 - t0
    mon.event('variable stepper')
    mk = (lambda: VariableTimeStepper(t0, t1, dt=dt, n_step=n)) if rng.rand() < 0.5 else \
        (lambda: VariableTimeStepper.from_conf(conf(t0, t1, dt, n)))
    ts = mk()
    eps = 1e-11 * max(abs(t0), abs(t1), L)
    d0 = L / (N - 1)
    mon.close('default', (ts.dt, ts.get_default_time_step()), (d0, d0), 1e-12, msg='the default step length')
    seen = [(i, t) for i, t in ts]
    mon.equal('default-steps', [i for i, _ in seen], list(range(N)), 'numbers of steps with the default length')
    mon.close('default-steps', [t for _, t in seen], np.linspace(t0, t1, N), 0, eps, msg='times with the default length')
    mon.event('constant')
    # Scripted changes.
    ts = mk()
    m = VModel(t0, t1, d0)
    changes = 0
    it = iter(ts)
    step = 0
    for i, t in it:
        mon.equal('iteration', (i, t), (ts.step, ts.time), 'the state in an iteration')
        mon.equal('iteration', ts.n_step, i + 1, 'the number of steps')
        if i > 0:
            m.times.append(m.times[-1] + m.dt)
        mon.close('times', t, m.times[-1], 0, eps, msg='time of the step %d' % i)
        if i > 0 and rng.rand() < 0.2:
            for _ in range(1 + rng.randint(2)):                # The step is repeated with another length.
                m.dt = m.dt * (0.3 + 0.6 * rng.rand())
                ts.set_time_step(m.dt, update_time=True)
                m.times[-1] = m.times[-2] + m.dt
                mon.close('repeated', ts.time, m.times[-1], 0, eps, msg='time of a repeated step')
            changes += 1
        if rng.rand() < 0.2:
            m.dt = max(m.dt * (0.5 + 1.5 * rng.rand()), 0.1 * d0)
            ts.set_time_step(m.dt)
            changes += 1
        m.dt = max(m.dt, 0.1 * d0)
        if ts.dt != m.dt:
            ts.set_time_step(m.dt)
        mon.close('times', ts.times, m.times, 0, eps, msg='the history of times')
        mon.close('normalised', ts.nt, (m.times[-1] - t0) / L, 0, 1e-11, msg='normalised time')
        mon.equal('dt', ts.dt, m.dt, 'the step length')
        if rng.rand() < 0.1:
            st = ts.get_state()
            o = mk()
            o.set_state(**{k: (list(v) if isinstance(v, list) else v) for k, v in st.items()})
            mon.equal('state', (o.step, o.time, o.nt, o.dt), (ts.step, ts.time, ts.nt, ts.dt), 'the restored state')
            mon.equal('state', list(o.times), list(ts.times), 'the restored times')
            o.advance()
            mon.close('state', o.time, m.times[-1] + m.dt, 0, eps, msg='the step after the restored state')
            mon.equal('state', (o.step, o.n_step), (i + 1, i + 2), 'the step after the restored state')
        step = i
        if i > 5000:
            break
    mon.ok('end', m.done and (len(m.times) < 2 or (m.times[-2] - t0) / L < 1 - 1e-11), 'the last times: %s' % m.times[-3:])
    mon.ok('increasing', (np.diff(ts.times) > 0).all(), 'times do not increase')
    k = rng.randint(1, 5)
    mon.raises('set-step', ValueError, ts.set_step, ts.step + k, msg='setting a future step')
    ts.set_step(0)
    mon.equal('reset', (ts.step, ts.time, ts.n_step), (0, t0, 1), 'the state after a reset')
    mon.equal('reset', list(ts.times), [t0], 'times after a reset')
    mon.sig('variable', N, changes > 0)

# Scripted nonlinear solvers.

class Script:
    """A nonlinear solver which follows a script; vectors are [number of the call, ...]."""

    def __init__(self, log, script):
        from sfepy.base.base import IndexedStruct
        self.status = IndexedStruct()
        self.log = log
        self.script = script
        self.k = 0
        self.fun = lambda v: np.zeros(2)

    def __call__(self, vec, status=None, **kw):
        cond, n_iter = self.script(self.k)
        self.k += 1
        for s in (self.status, status):
            if s is not None:
                s['condition'], s['n_iter'] = cond, n_iter
        out = np.array([float(self.k), vec[0]])
        self.log.append(('nls', float(vec[0]), self.k, cond, n_iter))
        return out

    def copy(self, *a, **k):
        return self

def hooks(log):
    def init_fun(ts, v):
        log.append(('init', ts.step, ts.time))
        return v

    def pre(ts, v):
        log.append(('pre', ts.step, ts.time, ts.dt, float(v[0])))
        return v

    def post(ts, v):
        log.append(('post', ts.step, ts.time, ts.dt, float(v[0])))
        return v
    return init_fun, pre, post

def run_script(mon, case):
    from sfepy.base.base import Struct, IndexedStruct
    from sfepy.solvers import Solver
    rng = gen.rngof(case)
    t0, t1 = interval(rng)
    n = int(rng.choice([2, 3, 6, 11, 21]))
    L = t1 - t0
    adaptive = rng.rand() < 0.65
    quasi = bool(rng.rand() < 0.3)
    kw = dict(name='ts', kind='ts.adaptive' if adaptive else 'ts.simple', t0=t0, t1=t1, dt=None, n_step=n, quasistatic=quasi,
              verbose=False)
    par = dict(dt_red_factor=float(rng.choice([0.2, 0.5, 0.8])), dt_red_max=float(rng.choice([1e-3, 0.1])),
               dt_inc_factor=float(rng.choice([1.25, 2.0])), dt_inc_on_iter=int(rng.choice([1, 4])), dt_inc_wait=int(rng.choice([0, 1, 3])))
    if adaptive:
        kw.update({k: v for k, v in par.items() if rng.rand() < 0.8})
    dflt = dict(dt_red_factor=0.2, dt_red_max=1e-3, dt_inc_factor=1.25, dt_inc_on_iter=4, dt_inc_wait=5)
    par = {k: kw.get(k, dflt[k]) for k in par}
    pfail = float(rng.choice([0.0, 0.1, 0.4])) if adaptive else 0.0
    given = bool(rng.rand() < 0.2)
    ss = np.random.RandomState(case['seed'] % 100003)
    fails = ss.rand(400000) < pfail
    iters = ss.randint(0, 7, size=400000)
    fails[40:] = False
    if given and adaptive:
        a = 3 + ss.randint(8)
        fails[a:a + 6] = True
    log = []
    nls = Script(log, lambda k: (int(fails[k]), int(iters[k])))
    if rng.rand() < 0.2:
        kw['kind'] = 'ts.stationary'
        adaptive = False
        tss = Solver.any_from_conf(Struct(name='ts', kind='ts.stationary'), nls=nls)
        i, p, q = hooks(log)
        v = tss(np.array([-1.0, 0.0]), init_fun=i, prestep_fun=p, poststep_fun=q, status=IndexedStruct())
        mon.event('stationary')
        mon.equal('stationary', [e[0] for e in log], ['init', 'pre', 'nls', 'post'], 'calls of the stationary solver')
        mon.equal('stationary', (log[2][1], v[0]), (-1.0, 1.0), 'data of the stationary solver')
        return
    tss = Solver.any_from_conf(Struct(**kw), nls=nls)
    st = IndexedStruct()
    i, p, q = hooks(log)
    out = tss(np.array([-1.0, 0.0]), init_fun=i, prestep_fun=p, poststep_fun=q, status=st)
    # The model.
    ref = [('init', 0, t0)]
    eps = 1e-11 * max(abs(t0), abs(t1), L)
    dt0 = L / (n - 1)
    k = 0
    vec = -1.0
    ref.append(('pre', 0, t0, dt0, vec))
    if quasi:
        ref.append(('nls', vec, 1, int(fails[0]), int(iters[0])))
        k, vec = 1, 1.0
        mon.event('quasistatic')
    ref.append(('post', 0, t0, dt0, vec))
    t, dt, red, wait, step = t0, dt0, 1.0, 0, 0
    while 1:
        step += 1
        prev = t
        t = t + dt if adaptive else t0 + L * step / (n - 1)
        ref.append(('pre', step, t, dt, vec))
        while 1:
            ref.append(('nls', vec, k + 1, int(fails[k]), int(iters[k])))
            bad, ni = fails[k], iters[k]
            k += 1
            if not adaptive:
                break
            if not bad:
                if ni <= par['dt_inc_on_iter']:
                    wait += 1
                    if wait > par['dt_inc_wait']:
                        if red < 1.0:
                            red *= par['dt_inc_factor']
                            dt = dt0 * red
                            mon.event('enlarged')
                        wait = 0
                else:
                    wait = 0
                break
            red *= par['dt_red_factor']
            if red < par['dt_red_max']:
                mon.event('given up')
                break
            dt = dt0 * red
            t = prev + dt
            wait = 0
            mon.event('rejected')
            ref.append(('pre', step, t, dt, vec))
        vec = float(k)
        ref.append(('post', step, t, dt, vec))
        if len(ref) > 600000:
            return                                                       # Extremely short steps after giving up.
        if (t - t0) / L >= 1 - 1e-10:
            break
    mon.event('adaptive script' if adaptive else 'simple script')
    mon.equal('calls', [e[0] for e in log], [e[0] for e in ref], 'the sequence of calls (%s)' % kw)
    if len(log) == len(ref):
        for a, b in zip(log, ref):
            if a[0] == 'nls':
                mon.equal('nls', a, b, 'a call of the nonlinear solver')
            else:
                mon.equal('hook', a[:2], b[:2], 'a call of a hook')
                mon.close('hook', a[2:], b[2:], 1e-9, eps, msg='time, step and vector in %s' % a[0])
    mon.equal('result', out[0], vec, 'the returned vector is not the last state')
    times = [e[2] for e in log if e[0] == 'post']
    if min(e[3] for e in log if e[0] == 'post') > 1e-13 * max(abs(t0), abs(t1)):
        mon.ok('increasing', (np.diff(times) > 0).all(), 'times do not increase')
    mon.equal('status', st.get('n_step'), len(times), 'the number of steps in the status')
    mon.sig('script', adaptive, quasi, pfail, given, n)

# Real problems.

class Setting:
    """A scalar or vector field over a small mesh with conditions varying in time."""

    def __init__(self, rng, g=None, order=None, vector=None, fix=True):
        from sfepy.discrete.fem import Mesh
        self.rng = rng
        self.g = str(g or rng.choice(['1_2', '2_3', '2_4', '3_8']))
        self.dim = int(self.g[0])
        sh = {1: [4 + rng.randint(4)], 2: [3, 3], 3: [2, 2, 2]}[self.dim]
        raw = gen.raw_mesh(rng, self.g, shape=sh, jitter=0.0, affine=False, localperm=False)
        X = np.asarray(raw['coors'], dtype=float)
        X = (X - X.min(0)) / np.ptp(X, 0)
        raw['coors'] = X
        self.raw = raw
        self.mesh = gen.to_mesh(raw)
        self.order = int(order or (rng.randint(1, 3) if self.dim < 3 else 1))
        self.vector = bool(rng.rand() < 0.3) if vector is None else vector
        self.nc = self.dim if self.vector else 1
        self.T = [tdep.Time(rng) for _ in range(4)]
        self.w = rng.randn(4, self.dim) * 1.5
        self.bt = bool(rng.rand() < 0.5) if fix else False
        self.pat = rng.randn(2, self.nc)

    # Spatial patterns.
    def pattern(self, x, k):
        s = np.sin(np.asarray(x) @ self.w[k]) + 0.4
        return s[:, None] * self.pat[k % 2]

    def load(self, x, t):
        return self.pattern(x, 0) * self.T[0](t) + self.pattern(x, 1) * self.T[1](t)

    def wall(self, x, t, d=0):
        if not self.bt:
            return np.zeros((len(x), self.nc))
        return self.pattern(x, 2) * self.T[2](t, d)

    loads = None

    def forms(self):
        """Terms of the mass, stiffness and load."""
        if self.vector:
            return dict(M='dw_dot.i.Omega(m.%s, %s, %s)', K='dw_lin_elastic_iso.i.Omega(m.lam, m.mu, %s, %s)',
                        F='dw_volume_lvf.i.Omega(f.f, %s)')
        return dict(M='dw_dot.i.Omega(m.%s, %s, %s)', K='dw_laplace.i.Omega(m.k, %s, %s)', F='dw_volume_lvf.i.Omega(f.f, %s)')

    def base(self):
        st = self

        def get_f(ts, coors, mode=None, **kw):
            if mode == 'qp':
                return {'f': st.load(coors, ts.time).reshape(-1, st.nc, 1)}

        def ebc(d):
            def fun(ts, coors, bc=None, problem=None, **kw):
                v = st.wall(coors, ts.time, d)
                return v if st.nc > 1 else v[:, 0]
            return fun
        d = dict(
            filename_mesh=tdep.mesh_hook(self.mesh),
            regions={'Omega': 'all', 'Left': ('vertices in (x < 1e-8)', 'facet' if self.dim > 1 else 'vertex')},
            fields={'f': ('real', 'vector' if self.vector else 'scalar', 'Omega', self.order)},
            integrals={'i': 2 * self.order + 2},
            materials={'m': ({k: v for k, v in self.par.items()},), 'f': 'get_f'},
            functions={'get_f': (get_f,), 'wall0': (ebc(0),), 'wall1': (ebc(1),), 'wall2': (ebc(2),)},
        )
        return d

    def assemble(self, pb, names):
        """Dense matrices by independent equations."""
        from sfepy.discrete import Integral
        fld = pb.fields['f']
        om = pb.domain.regions['Omega']
        it = Integral('i', order=2 * self.order + 2)
        txt = {}
        f = self.forms()
        for n in names:
            if n == 'K':
                txt[n] = (f['K'].replace('.i.Omega', '') % ('v', 'u'), fld, {k: self.par[k] for k in ('lam', 'mu', 'k')})
            else:
                txt[n] = (f['M'].replace('.i.Omega', '') % (names[n], 'v', 'u'), fld, {names[n]: self.par[names[n]]})
        out = tdep.matrices(None, txt, om, it)
        from sfepy.discrete import Material, Function
        vs = []
        for k in (0, 1):
            m = Material('f', function=Function('f', lambda ts, coors, mode=None, k=k, **kw:
                                                {'f': self.pattern(coors, k).reshape(-1, self.nc, 1)} if mode == 'qp' else None))
            fun = tdep.vector('dw_volume_lvf(f.f, v)', fld, it, om, {'f': m})
            vs.append(fun(np.zeros(fld.n_nod * self.nc)))
        self.F = lambda t: vs[0] * self.T[0](t) + vs[1] * self.T[1](t)
        left = pb.domain.regions['Left']
        nods = np.unique(np.asarray(fld.get_dofs_in_region(left)))
        self.X = np.asarray(fld.get_coor())
        fixed = (nods[:, None] * self.nc + np.arange(self.nc)).ravel()
        self.fixed = fixed
        self.free = np.setdiff1d(np.arange(fld.n_nod * self.nc), fixed)
        self.nods = nods
        return out

    def bvals(self, t, d=0):
        return self.wall(self.X[self.nods], t, d).ravel()

def ls_conf(rng):
    return {'ls': ('ls.scipy_superlu' if rng.rand() < 0.6 else 'ls.auto_direct', {'use_presolve': bool(rng.rand() < 0.4)})}

def solve(mon, pb, tr, **kw):
    from sfepy.base.base import IndexedStruct
    st = IndexedStruct()
    out = pb.solve(status=st, save_results=bool(kw.pop('save', False)), step_hook=tr, verbose=False, **kw)
    mon.equal('status', st.get('n_step'), len(tr), 'the number of steps in the status')
    return out, st

def times_of(mon, tr, t0, t1, n=None):
    t = tr.col('time')
    L = t1 - t0
    mon.equal('steps', list(tr.col('step')), list(range(len(t))), 'numbers of steps')
    mon.ok('increasing', (np.diff(t) > 0).all(), 'times do not increase')
    mon.equal('start', t[0], t0, 'the first time')
    mon.close('normalised', tr.col('nt'), (t - t0) / L, 0, 1e-9, msg='normalised times')
    mon.close('length', tr.col('dt')[1:], np.diff(t), 1e-9, 1e-12 * L, msg='step lengths')
    if n is not None:
        mon.close('times', t, np.linspace(t0, t1, n), 0, 1e-12 * L, msg='times')
    else:
        mon.ok('end', t[-1] >= t1 - 1e-9 * L and t[-2] < t1 - 1e-10 * L, 'the last times: %s of %s' % (t[-2:], t1))
    return t

def run_parabolic(mon, case):
    rng = gen.rngof(case)
    S = Setting(rng)
    scheme = str(rng.choice(['euler', 'multistep', 'none']))
    quasi = bool(rng.rand() < 0.6) if scheme == 'none' else False
    adaptive = bool(rng.rand() < 0.4) and scheme != 'multistep'
    active_only = bool(rng.rand() < 0.5)
    vary = not active_only and rng.rand() < 0.5
    S.par = dict(lam=float(0.5 + rng.rand()), mu=float(0.5 + rng.rand()), k=float(0.3 + rng.rand()), c=float(0.5 + rng.rand()),
                 c1=float(2 + rng.rand()), c2=float(-rng.rand()), c3=float(0.4 * rng.randn()))
    kt = tdep.Time(rng, 0.2)
    tk = bool(rng.rand() < 0.4)
    fac = (lambda t: 1.0 + 0.3 * np.sin(2 * t + kt.c)) if tk else (lambda t: 1.0)
    t0, t1 = float(rng.choice([0.0, 0.5, -1.0])), 0.0
    t1 = t0 + 0.5 + rng.rand()
    n = 4 + rng.randint(8)
    d = S.base()
    if tk:
        def get_m(ts, coors, mode=None, **kw):
            if mode == 'qp':
                one = np.ones((len(coors), 1, 1))
                return {k: v * one * (fac(ts.time) if k in ('lam', 'mu', 'k') else 1.0) for k, v in S.par.items()}
        d['materials']['m'] = 'get_m'
        d['functions']['get_m'] = (get_m,)
    hist = dict(euler=1, multistep=2, none=0)[scheme]
    d['variables'] = {'u': ('unknown field', 'f', 0, hist) if hist else ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u')}
    F = S.forms()
    eq = F['K'] % ('v', 'u') + ' - ' + F['F'] % 'v'
    if scheme == 'euler':
        eq += ' + ' + F['M'] % ('c', 'v', 'du/dt')
    elif scheme == 'multistep':
        eq += ' + ' + F['M'] % ('c1', 'v', 'u') + ' + ' + F['M'] % ('c2', 'v', 'u[-1]')
    d['equations'] = {'e': eq + ' = 0'}
    d['ebcs'] = {'left': ('Left', {'u.all': 'wall0'})}
    win = None
    if vary:
        win = (t0 + 0.3 * (t1 - t0), t0 + 0.7 * (t1 - t0))
        d['regions']['Right'] = ('vertices in (x > %r)' % (1 - 1e-8), 'facet' if S.dim > 1 else 'vertex')
        d['ebcs']['right'] = ('Right', [win], {'u.all': 'wall0'})
        mon.event('varying conditions')
    ini = rng.randn(S.dim) * 1.5

    def ic(coors, ic_=None, **kw):
        v = np.cos(np.asarray(coors) @ ini)[:, None] * S.pat[0]
        return v if S.nc > 1 else v[:, 0]
    d['functions']['ic'] = (ic,)
    d['ics'] = {'ic': ('Omega', {'u.all': 'ic'})}
    lin = bool(rng.rand() < 0.5) and not tk and not adaptive and not vary
    d['solvers'] = dict(ls_conf(rng))
    d['solvers']['newton'] = ('nls.newton', {'i_max': 3, 'eps_a': 1e-11, 'eps_r': 1e-9, 'eps_mode': 'or', 'is_linear': lin})
    if lin:
        mon.event('linear')
    ts = dict(t0=t0, t1=t1, n_step=n, dt=None, quasistatic=quasi, verbose=0)
    rec = []
    if adaptive:
        ss = np.random.RandomState(case['seed'] % 99991)

        def adapt(ts_, status, adt, context, verbose=False):
            rec.append(('try', ts_.time, ts_.dt))
            r = ss.rand()
            if r < 0.3 and len(rec) < 60:
                ts_.set_time_step(ts_.dt * (0.4 + 0.5 * ss.rand()), update_time=True)
                mon.event('step rejected')
                return False
            if r < 0.6:
                ts_.nxt = ts_.dt * (0.8 + ss.rand())
                ts_.set_time_step(ts_.nxt)
            return True
        ts['adapt_fun'] = adapt
        mon.event('adaptive parabolic')
    d['solvers']['ts'] = ('ts.adaptive' if adaptive else 'ts.simple', ts)
    d['options'] = dict(ts='ts', nls='newton', ls='ls', active_only=active_only, output_format='h5')
    sv = rng.randint(3)
    d['options']['save_times'] = ['all', 3, [t0, t0 + 0.55 * (t1 - t0), t1]][sv]
    pb = tdep.problem(d)
    A = S.assemble(pb, {'K': None, 'c': 'c'} if False else ['K'])
    from sfepy.discrete import Integral
    it = Integral('i', order=2 * S.order + 2)
    mm = tdep.matrices(None, {'M': ('dw_dot(m.c, v, u)', pb.fields['f'], {'c': 1.0})}, pb.domain.regions['Omega'], it)['M']
    K = A['K']
    saved = []
    pb.save_state = lambda fn, *a, **kw: saved.append((fn, kw['ts'].step, kw['ts'].time))
    tr = tdep.Trace(['u'])
    var, st = solve(mon, pb, tr, save=True)
    mon.event('parabolic')
    if hist:
        mon.event('history')
    if quasi:
        mon.event('quasistatic')
    mon.event('active only' if active_only else 'full')
    t = tr.col('time')
    if adaptive:
        mon.equal('steps', list(tr.col('step')), list(range(len(t))), 'numbers of steps')
        mon.ok('increasing', (np.diff(t) > 0).all(), 'times do not increase')
        mon.ok('end', t[-1] >= t1 - 1e-9 and t[-2] < t1 - 1e-10, 'the last times: %s of %s' % (t[-2:], t1))
    else:
        times_of(mon, tr, t0, t1, n)
    U = tr.col('u')
    mon.close('result', np.asarray(var['u']()), U[-1], 0, 1e-14, msg='the returned state is not the last one')
    right = np.zeros(0, int)
    if vary:
        rn = np.unique(np.asarray(pb.fields['f'].get_dofs_in_region(pb.domain.regions['Right'])))
        right = (rn[:, None] * S.nc + np.arange(S.nc)).ravel()
    sc = abs(U).max() + 1e-3
    X = S.X
    # Initial data.
    u0 = ic(X).reshape(-1)
    pat = S.wall(X, t[0]).reshape(-1)
    fixed = S.fixed if not (vary and win[0] <= t[0] < win[1]) else np.union1d(S.fixed, right)
    u0[fixed] = pat[fixed]
    if not quasi:
        mon.close('initial', U[0], u0, 0, 1e-12 * sc, msg='the initial state')
    prev2 = prev = u0
    for i in range(len(t)):
        if i == 0 and not quasi:
            continue
        dt = t[i] - t[i - 1] if i else 1.0
        on = vary and win[0] <= t[i] < win[1]
        fixed = np.union1d(S.fixed, right) if on else S.fixed
        free = np.setdiff1d(np.arange(len(u0)), fixed)
        g = S.wall(X, t[i]).reshape(-1)
        mon.close('boundary', U[i][fixed], g[fixed], 0, 1e-12 * sc, msg='boundary values of the step %d' % i)
        r = fac(t[i]) * (K @ U[i]) - S.F(t[i])
        if scheme == 'euler':
            r = r + S.par['c'] * (mm @ (U[i] - prev)) / dt
        elif scheme == 'multistep':
            r = r + S.par['c1'] * (mm @ U[i]) + S.par['c2'] * (mm @ prev)
        s = abs(K).max() * sc + abs(S.F(t[i])).max() + abs(mm).max() * sc / dt
        mon.close('residual', r[free], 0 * r[free], 0, 1e-8 * s, msg='the residual of the step %d of %s' % (i, scheme))
        prev2, prev = prev, U[i]
    # Saved steps.
    if sv == 0:
        want = list(range(len(t)))
    else:
        req = np.linspace(t0, t1, 3) if sv == 1 else np.array([t0, t0 + 0.55 * (t1 - t0), t1])
        want = sorted({int(np.where(t >= q - 1e-12)[0][0]) for q in req if (t >= q - 1e-12).any()})
    if sv == 0 or len(want) == 3:
        mon.equal('saved', [s[1] for s in saved], want, 'saved steps for save_times = %s' % d['options']['save_times'])
        mon.equal('saved', [s[2] for s in saved], [t[k] for k in want], 'times of saved steps')
        mon.event('save times')
    mon.sig('parabolic', S.g, S.order, S.vector, scheme, quasi, adaptive, active_only, bool(vary), tk, lin)

def ed_desc(mon, rng, S, scheme, t0, t1, dt=None, n=None, lin=True, damp=True, nonlin=False, active_only=True, transform=False,
            tsc=None, pars=None, load=True, order=None):
    d = S.base()
    F = S.forms()
    co = ['', '2.0 * '][rng.randint(2)] if not nonlin else ''         # A factor of the whole equation.
    if transform:
        d['variables'] = {'u': ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u')}
        eq = (F['M'] % ('rho', 'v', 'ddu')).replace('dw_dot', co + 'dw_dot')
        if damp:
            eq += ' + ' + (F['M'] % ('c', 'v', 'du')).replace('dw_dot', co + 'dw_dot')
    else:
        d['variables'] = {'u': ('unknown field', 'f', 0), 'du': ('unknown field', 'f', 1), 'ddu': ('unknown field', 'f', 2),
                          'v': ('test field', 'f', 'u'), 'dv': ('test field', 'f', 'du'), 'ddv': ('test field', 'f', 'ddu')}
        eq = (F['M'] % ('rho', 'ddv', 'ddu')).replace('dw_dot', co + 'dw_dot')
        eq += ' + ' + ((F['M'] % ('c', 'dv', 'du')).replace('dw_dot', co + 'dw_dot') if damp else 'dw_zero.i.Omega(dv, du)')
    eq += ' + %s%s' % (co, F['K'] % ('v', 'u'))
    if load:
        eq += ' - %s%s' % (co, F['F'] % 'v')
    if nonlin:
        d['get_n'] = lambda u: 2.0 * u**3
        d['get_dn'] = lambda u: 6.0 * u**2
        eq += ' + dw_volume_nvf.i.Omega(get_n, get_dn, v, u)'
    d['equations'] = {'e': eq + ' = 0'}
    d['ebcs'] = {'left': ('Left', {'u.all': 'wall0', 'du.all': 'wall1', 'ddu.all': 'wall2'})}
    w = rng.randn(2, S.dim) * 1.5

    def ic(k):
        def fun(coors, ic_=None, **kw):
            v = np.sin(np.asarray(coors) @ w[k] + k)[:, None] * S.pat[k]
            return v if S.nc > 1 else v[:, 0]
        return fun
    d['functions'].update(icu=(ic(0),), icv=(ic(1),))
    S.ic = [ic(0), ic(1)]
    d['ics'] = {'ic': ('Omega', {'u.all': 'icu', 'du.all': 'icv'})}
    d['solvers'] = dict(ls_conf(rng))
    d['solvers']['newton'] = ('nls.newton', {'i_max': 20 if nonlin else 2, 'eps_a': 1e-11, 'eps_r': 1e-11 if nonlin else 1e-9,
                                             'eps_mode': 'or', 'is_linear': False})
    ts = dict(t0=t0, t1=t1, n_step=n, dt=dt, is_linear=lin, verbose=0)
    if not transform:
        ts['var_names'] = {'u': 'u', 'du': 'du', 'ddu': 'ddu'}
    ts.update(pars or {})
    d['solvers']['ts'] = ('ts.' + scheme, ts)
    d['options'] = dict(ts='ts', nls='newton', ls='ls', active_only=active_only, output_format='h5', auto_transform_equations=transform)
    if tsc:
        d['solvers']['tsc'] = tsc
        d['options']['tsc'] = 'tsc'
    return d

class Dynamics:
    """Residuals of the equations of motion by independently assembled matrices."""

    def __init__(self, S, pb, damp, nonlin, load):
        A = S.assemble(pb, {'K': None} and ['K'])
        from sfepy.discrete import Integral
        it = Integral('i', order=2 * S.order + 2)
        om = pb.domain.regions['Omega']
        fld = pb.fields['f']
        self.K = A['K']
        mm = tdep.matrices(None, {'M': ('dw_dot(m.c, v, u)', fld, {'c': 1.0})}, om, it)['M']
        self.M = mm * S.par['rho']
        self.C = mm * (S.par['c'] if damp else 0.0)
        self.S = S
        self.load = load
        self.nl = None
        if nonlin:
            self.nl = tdep.vector('dw_volume_nvf(get_n, get_dn, v, u)', fld, it, om,
                                  dict(get_n=lambda u: 2.0 * u**3, get_dn=lambda u: 6.0 * u**2))

    def r(self, u, v, a, t):
        r = self.M @ a + self.C @ v + self.K @ u
        if self.load:
            r = r - self.S.F(t)
        if self.nl is not None:
            r = r + self.nl(u)
        return r

    def scale(self, u, v, a, t):
        return abs(self.M).max() * abs(a).max() + abs(self.C).max() * abs(v).max() + abs(self.K).max() * abs(u).max() \
            + abs(self.S.F(t)).max() + 1e-6

def check_step(mon, D, scheme, pars, q0, q1, t0, t1, tol=1e-8, exact=True):
    """One step (u, v, a) -> (u, v, a)."""
    S = D.S
    fr, fx = S.free, S.fixed
    (u0, v0, a0), (u1, v1, a1) = q0, q1
    dt = t1 - t0
    for k, x in enumerate(q1):
        mon.close('boundary', x[fx], S.bvals(t1, k), 0, 1e-11 * (1 + abs(x).max()), msg='boundary values (derivative %d)' % k)

    def balance(u, v, a, t, what):
        # Boundary values at the given time.
        u, v, a = u.copy(), v.copy(), a.copy()
        for k, x in enumerate((u, v, a)):
            x[fx] = S.bvals(t, k)
        r = D.r(u, v, a, t)[fr]
        mon.close('balance', r, 0 * r, 0, tol * D.scale(u, v, a, t), msg='equilibrium of %s (%s)' % (scheme, what))

    def formula(x, y, what, s=None):
        s = max(abs(x[fr]).max(), abs(y[fr]).max()) if s is None else s
        mon.close('update', x[fr], y[fr], 0, tol * (s + 1e-6), msg='the formula of %s for %s' % (scheme, what))
    if scheme in ('newmark', 'central_difference', 'velocity_verlet', 'generalized_alpha'):
        beta, gamma, am, af = pars
        formula(u1, u0 + dt * v0 + dt**2 * ((0.5 - beta) * a0 + beta * a1), 'displacements')
        formula(v1, v0 + dt * ((1 - gamma) * a0 + gamma * a1), 'velocities', abs(v1).max() + dt * abs(a1).max())
        balance((1 - af) * u1 + af * u0, (1 - af) * v1 + af * v0, (1 - am) * a1 + am * a0, t1 - af * dt, 'the step')
    else:
        um = (u0 + 3 * u1 - dt * v1) / 4
        vm = (v0 + 3 * v1 - dt * a1) / 4
        am = 4 / dt * (vm - v0) - a0
        big = 30 / dt * (abs(u0).max() + abs(u1).max())
        formula(vm, 4 / dt * (um - u0) - v0, 'velocities in the first substep', big)
        s2 = 30 / dt * (big + abs(v1).max())
        ok = tol
        r = None
        u, v, a = um.copy(), vm.copy(), am.copy()
        tm = t1 - 0.5 * dt
        for k, x in enumerate((u, v, a)):
            x[fx] = S.bvals(tm, k)
        r = D.r(u, v, a, tm)[fr]
        mon.close('balance', r, 0 * r, 0, ok * (D.scale(u, v, a, tm) + abs(D.M).max() * s2), msg='equilibrium of bathe (the first substep)')
        balance(u1, v1, a1, t1, 'the second substep')

def parameters(rng, scheme):
    """(conf, (beta, gamma, alpha_m, alpha_f))"""
    if scheme == 'newmark':
        b, g = [(0.25, 0.5), (1 / 6, 0.5), (0.3, 0.55), (0.0, 0.5)][rng.randint(4)]
        return dict(beta=b, gamma=g), (b, g, 0.0, 0.0)
    if scheme == 'generalized_alpha':
        r = float(rng.choice([0.0, 0.3, 0.5, 0.9, 1.0]))
        am, af = (2 * r - 1) / (r + 1), r / (r + 1)
        conf = dict(rho_inf=r)
        if rng.rand() < 0.3:
            am = 0.0
            af = 0.3
            conf.update(alpha_m=am, alpha_f=af)
        b, g = 0.25 * (1 - am + af)**2, 0.5 - am + af
        if rng.rand() < 0.2:
            b, g = 0.3, 0.6
            conf.update(beta=b, gamma=g)
        return conf, (b, g, am, af)
    return {}, (0.0, 0.5, 0.0, 0.0)

def omega_max(M, K, fr):
    import scipy.linalg as sl
    return np.sqrt(sl.eigh(K[np.ix_(fr, fr)], M[np.ix_(fr, fr)], eigvals_only=True)[-1])

def set_par(rng, S):
    S.par = dict(lam=float(0.5 + rng.rand()), mu=float(0.5 + rng.rand()), k=float(0.5 + rng.rand()), c=float(0.2 + rng.rand()),
                 rho=float(0.5 + rng.rand()))

def trace_of(tr):
    return tr.col('time'), tr.col('u'), tr.col('du'), tr.col('ddu')

def initial(mon, S, D, tr, t0):
    t, U, V, A = trace_of(tr)
    for k, x in enumerate((U, V)):
        w = S.ic[k](S.X).reshape(-1).copy()
        w[S.fixed] = S.bvals(t0, k)
        mon.close('initial', x[0], w, 0, 1e-12 * (1 + abs(w).max()), msg='the initial state (derivative %d)' % k)
    a = A[0].copy()
    mon.close('boundary', a[S.fixed], S.bvals(t0, 2), 0, 1e-11 * (1 + abs(a).max()), msg='the initial boundary accelerations')
    r = D.r(U[0], V[0], a, t0)[S.free]
    mon.close('initial', r, 0 * r, 0, 1e-8 * D.scale(U[0], V[0], a, t0), msg='equilibrium with the initial accelerations')

def run_ed(mon, case):
    rng = gen.rngof(case)
    scheme = case['scheme']
    S = Setting(rng)
    set_par(rng, S)
    nonlin = bool(rng.rand() < 0.3) and not S.vector
    lin = bool(rng.rand() < 0.6) and not nonlin
    damp = bool(rng.rand() < 0.6)
    load = bool(rng.rand() < 0.8)
    transform = bool(rng.rand() < 0.3)
    active_only = bool(rng.rand() < 0.5)
    conf, pars = parameters(rng, scheme)
    t0 = float(rng.choice([0.0, 0.0, 1.0, -0.5]))
    h = 0.02 if scheme in ('central_difference', 'velocity_verlet') or pars[0] < 0.2 and scheme == 'newmark' else 0.1
    h *= 0.5 + rng.rand()
    if h < 0.04:
        h *= 0.3 if S.order > 1 or S.dim > 1 else 1.0
    n = 5 + rng.randint(6)
    t1 = t0 + h * (n - 1)
    d = ed_desc(mon, rng, S, scheme, t0, t1, n=n, lin=lin, damp=damp, nonlin=nonlin, active_only=active_only, transform=transform,
                pars=conf, load=load)
    pb = tdep.problem(d)
    D = Dynamics(S, pb, damp, nonlin, load)
    tr = tdep.Trace(['u', 'du', 'ddu'])
    var, st = solve(mon, pb, tr)
    times_of(mon, tr, t0, t1, n)
    t, U, V, A = trace_of(tr)
    initial(mon, S, D, tr, t0)
    for i in range(1, n):
        check_step(mon, D, scheme, pars, (U[i - 1], V[i - 1], A[i - 1]), (U[i], V[i], A[i]), t[i - 1], t[i],
                   tol=1e-7 if nonlin else 1e-8)
    for name, x in (('u', U), ('du', V), ('ddu', A)):
        mon.close('result', np.asarray(var[name]()), x[-1], 0, 1e-12 * (1 + abs(x[-1]).max()),
                  msg='the returned state is not the last one (%s)' % name)
    mon.event(scheme)
    for k, f in (('linear', lin), ('nonlinear', nonlin), ('damping', damp), ('loads', load), ('transformed', transform),
                 ('active only', active_only), ('full', not active_only)):
        if f:
            mon.event(k)
    mon.sig('ed', scheme, S.g, S.order, S.vector, lin, nonlin, damp, load, transform, active_only, S.bt)

def run_energy(mon, case):
    rng = gen.rngof(case)
    scheme = case['scheme']
    S = Setting(rng, fix=False)
    set_par(rng, S)
    conf, pars = {}, (0.25, 0.5, 0, 0)
    rho = None
    if scheme == 'newmark':
        conf = dict(beta=0.25, gamma=0.5)
    elif scheme == 'generalized_alpha':
        rho = float(rng.choice([1.0, 0.8, 0.5]))
        conf = dict(rho_inf=rho)
    d = ed_desc(mon, rng, S, scheme, 0.0, 1.0, n=2, lin=True, damp=False, load=False, pars=conf, active_only=bool(rng.rand() < 0.5))
    D = Dynamics(S, tdep.problem(d), False, False, False)
    om = omega_max(D.M, D.K, S.free)
    n = 60
    h = (0.3 / om) if scheme in ('central_difference', 'velocity_verlet') else float(rng.choice([0.3, 1.0, 5.0])) / om
    kind, ts = d['solvers']['ts']
    ts.update(t1=h * (n - 1), n_step=n)
    pb = tdep.problem(d)
    tr = tdep.Trace(['u', 'du', 'ddu'])
    solve(mon, pb, tr)
    t, U, V, A = trace_of(tr)
    E = 0.5 * np.einsum('ti,ij,tj->t', U, D.K, U) + 0.5 * np.einsum('ti,ij,tj->t', V, D.M, V)
    if scheme == 'newmark' or rho == 1.0:
        mon.close('conserved', E, E[0] + 0 * E, 1e-7, msg='the energy of %s %s' % (scheme, conf))
    elif scheme in ('central_difference', 'velocity_verlet'):
        # The modified energy is conserved.
        Em = E - 0.125 * h**2 * np.einsum('ti,ij,tj->t', A, D.M, A) * 0
        Em = 0.5 * np.einsum('ti,ij,tj->t', V, D.M, V) + 0.5 * np.einsum('ti,ij,tj->t', U, D.K, U) \
            - 0.125 * h**2 * np.einsum('ti,ij,tj->t', A, D.M, A)
        mon.close('conserved', Em, Em[0] + 0 * Em, 1e-7, msg='the modified energy of %s' % scheme)
    else:
        mon.ok('dissipated', E[-1] <= E[0] * (1 + 1e-6) and E.max() <= E[0] * 1.25, 'energies of %s: %s' % (scheme, E[::10]))
    mon.event('energy')
    mon.sig('energy', scheme, S.g, rho)

def exact(D, S, t0, t, u0, v0):
    """The solution of the linear system with harmonic loads and boundary values by the matrix exponential."""
    import scipy.linalg as sl
    fr, fx = S.free, S.fixed
    n = len(fr)
    M, C, K = (m[np.ix_(fr, fr)] for m in (D.M, D.C, D.K))
    # F(t) - boundary terms as a combination of 1, sin(w t), cos(w t): state augmented by (1, s_k, c_k).
    fun = S.T[:3]
    m = 1 + 2 * len(fun)
    G = np.zeros((n, m))
    e = np.eye(m)
    # Coefficients: T(t) = a sin(om t + c) + b.
    def row(T, d=0):
        k = fun.index(T)
        r = np.zeros(m)
        s = [1, 0, -1, 0][d % 4] * T.om**d
        c = [0, 1, 0, -1][d % 4] * T.om**d
        r[1 + 2 * k] = T.a * s
        r[2 + 2 * k] = T.a * c
        if d == 0:
            r[0] = T.b
        return r
    if D.load:
        for k in (0, 1):
            vec = S.loads[k]
            G += vec[fr][:, None] * row(fun[k])
    if S.bt:
        g = S.pattern(S.X[S.nods], 2).ravel()
        for A, dd in ((D.K, 0), (D.C, 1), (D.M, 2)):
            G -= (A[np.ix_(fr, fx)] @ g)[:, None] * row(fun[2], dd)
    Mi = np.linalg.inv(M)
    N = 2 * n + m
    B = np.zeros((N, N))
    B[:n, n:2 * n] = np.eye(n)
    B[n:2 * n, :n] = -Mi @ K
    B[n:2 * n, n:2 * n] = -Mi @ C
    B[n:2 * n, 2 * n:] = Mi @ G
    for k, T in enumerate(fun):
        B[2 * n + 1 + 2 * k, 2 * n + 2 + 2 * k] = T.om
        B[2 * n + 2 + 2 * k, 2 * n + 1 + 2 * k] = -T.om
    y = np.zeros(N)
    y[:n], y[n:2 * n] = u0[fr], v0[fr]
    y[2 * n] = 1.0
    for k, T in enumerate(fun):
        y[2 * n + 1 + 2 * k] = np.sin(T.om * t0 + T.c)
        y[2 * n + 2 + 2 * k] = np.cos(T.om * t0 + T.c)
    y = sl.expm(B * (t - t0)) @ y
    return y[:n], y[n:2 * n]

def run_order(mon, case):
    rng = gen.rngof(case)
    scheme = case['scheme']
    S = Setting(rng, g=str(rng.choice(['1_2', '2_3'])), order=1, vector=False)
    set_par(rng, S)
    conf, pars = parameters(rng, scheme)
    conf.pop('beta', None), conf.pop('gamma', None)
    if scheme == 'newmark':
        conf = dict(beta=float(rng.choice([0.25, 0.3])), gamma=0.5)
    damp, load = bool(rng.rand() < 0.6), bool(rng.rand() < 0.8)
    err = []
    for n in (None, 2, 4):
        d = ed_desc(mon, np.random.RandomState(case['seed'] % 9973), S, scheme, 0.0, 1.0, n=2, lin=True, damp=damp, load=load, pars=conf,
                    active_only=True)
        if n is None:
            D = Dynamics(S, tdep.problem(d), damp, False, load)
            S.loads = [(S.F(0.0) - S.F(0.0)) for _ in range(2)]
            # Separate load vectors.
            a = np.array([[S.T[0](x), S.T[1](x)] for x in (0.0, 0.31, 0.73)])
            b = np.array([S.F(x) for x in (0.0, 0.31, 0.73)])
            S.loads = list(np.linalg.lstsq(a, b, rcond=None)[0])
            om = omega_max(D.M, D.K, S.free)
            tol = 0.25 / max(om, 3.0)
            n0 = int(np.ceil(1.0 / tol))
            continue
        d['solvers']['ts'][1].update(t1=1.0, n_step=n0 * n + 1)
        pb = tdep.problem(d)
        tr = tdep.Trace(['u', 'du', 'ddu'])
        solve(mon, pb, tr)
        t, U, V, A = trace_of(tr)
        eu, ev = exact(D, S, 0.0, 1.0, U[0], V[0])
        err.append((abs(U[-1][S.free] - eu).max(), abs(V[-1][S.free] - ev).max()))
        sc = abs(U).max(), abs(V).max()
    r = np.log2(np.array(err[0]) / np.maximum(err[1], 1e-14))
    for k, name in ((0, 'displacements'), (1, 'velocities')):
        mon.ok('order', r[k] > 1.6 or err[1][k] < 2e-4 * sc[k] and r[k] > 1.3 or err[1][k] < 1e-6 * sc[k],
               'the order %s of %s of %s %s, errors %s' % (r[k], name, scheme, conf, err))
    mon.event('order')
    mon.sig('order', scheme, S.g, damp, load, S.bt)

class Control:
    """Recorder of a step controller."""

    def __init__(self, tsc):
        self.tsc = tsc
        self.rec = []

def run_control(mon, case):
    rng = gen.rngof(case)
    scheme = case['scheme']
    S = Setting(rng, order=1)
    set_par(rng, S)
    kind = str(rng.choice(['ed_basic', 'ed_linear', 'ed_pid', 'time_sequence']))
    t0, t1 = float(rng.choice([0.0, 1.0])), 0.0
    t1 = t0 + 0.5 + 0.5 * rng.rand()
    n = 12 if scheme not in ('central_difference', 'velocity_verlet') else 40
    conf, pars = parameters(rng, scheme)
    if scheme == 'newmark':
        conf, pars = dict(beta=0.25, gamma=0.5), (0.25, 0.5, 0, 0)
    damp, load = bool(rng.rand() < 0.5), bool(rng.rand() < 0.6)
    seq = None
    if kind == 'time_sequence':
        k = 8
        x = np.cumsum(0.2 + rng.rand(k))
        seq = [float(v) for v in t0 + (t1 - t0) * x / x[-1]]
        seq[-1] = t1
        tc = dict(times=list(seq))
    else:
        tc = dict(eps_r=[float(10.0**-rng.randint(1, 4)), float(10.0**-rng.randint(1, 3))],
                  eps_a=[float(10.0**-rng.randint(2, 4)), float(10.0**-rng.randint(1, 3))],
                  fmin=0.3, fmax=float(rng.choice([1.5, 2.5])), fsafety=float(rng.choice([0.8, 0.9])))
        if kind == 'ed_linear':
            tc.update(fred=float(rng.choice([1.0, 0.9])), inc_wait=int(rng.choice([0, 2, 5])), min_finc=float(rng.choice([1.0, 1.5])))
        elif kind == 'ed_pid':
            tc.update(pcoef=float(rng.choice([0, 0.4])), icoef=float(rng.choice([0.3, 1.0])), dcoef=float(rng.choice([0, 0.1])))
        if rng.rand() < 0.25:
            tc['guess_dt0'] = True
    lin = bool(rng.rand() < 0.6)
    active_only = bool(rng.rand() < 0.5)
    if scheme == 'bathe' and S.bt and kind != 'time_sequence':
        active_only = True                                              # See run_stalled().
    d = ed_desc(mon, rng, S, scheme, t0, t1, n=n, lin=lin, damp=damp, load=load, active_only=active_only,
                tsc=('tsc.' + kind, tc), pars=conf)
    pb = tdep.problem(d)
    D = Dynamics(S, pb, damp, False, load)
    pb.init_solvers()
    tss = pb.get_solver()
    rec = []
    mon.ok('controller', tss.tsc.conf.kind == 'tsc.' + kind, 'another controller: %s' % tss.tsc)
    call = type(tss.tsc).__call__

    class Proxy:
        def __init__(self, tsc):
            self.__dict__['tsc'] = tsc

        def __getattr__(self, name):
            return getattr(self.tsc, name)

        def __call__(self, ts, vec0, vec1, **kw):
            dt, t = ts.dt, ts.time
            new, status = self.tsc(ts, vec0, vec1, **kw)
            rec.append(dict(dt=dt, t=t, new=new, result=status.result, q0=[np.array(x) for x in tss.unpack(vec0)],
                            q1=[np.array(x) for x in tss.unpack(vec1)], status=status, step=ts.step))
            if len(rec) > 3000:
                raise RuntimeError('too many steps')
            return new, status
    tss.tsc = Proxy(tss.tsc)
    tr = tdep.Trace(['u', 'du', 'ddu'])
    var, st = solve(mon, pb, tr)
    t, U, V, A = trace_of(tr)
    L = t1 - t0
    mon.equal('steps', list(tr.col('step')), list(range(len(t))), 'numbers of steps')
    mon.ok('increasing', (np.diff(t) > 0).all(), 'times do not increase')
    mon.equal('start', t[0], t0, 'the first time')
    mon.ok('end', t[-1] >= t1 - 1e-9 * L and t[-2] < t1 - 1e-10 * L, 'the last times: %s of %s' % (t[-3:], t1))
    initial(mon, S, D, tr, t0)
    for i in range(1, len(t)):
        check_step(mon, D, scheme, pars, (U[i - 1], V[i - 1], A[i - 1]), (U[i], V[i], A[i]), t[i - 1], t[i], tol=1e-7)
    for name, x in (('u', U), ('du', V), ('ddu', A)):
        mon.close('result', np.asarray(var[name]()), x[-1], 0, 1e-12 * (1 + abs(x[-1]).max()),
                  msg='the returned state is not the last one (%s)' % name)
    if seq is not None:
        mon.close('sequence', t, [t0] + seq, 0, 1e-10, msg='times of a given sequence')
    # The decisions of the controller.
    acc = [r for r in rec if r['result'] == 'accept']
    mon.equal('accepted', len(acc), len(t) - 1, 'the number of accepted steps')
    mon.close('accepted', [r['t'] for r in acc], t[1:], 0, 1e-10 * L, msg='times of accepted steps')
    count, e0, e00 = 0, 1.0, 1.0
    prev = t0
    for i, r in enumerate(rec):
        mon.close('dt', r['t'] - prev, r['dt'], 1e-8, 1e-10 * L, msg='length of a tried step')
        if i + 1 < len(rec):
            mon.close('dt', rec[i + 1]['dt'], r['new'], 1e-12, msg='the proposed length is not used')
        if r['result'] == 'accept':
            prev = r['t']
            mon.event('step accepted')
        else:
            mon.event('step rejected')
        if seq is not None:
            continue
        uu0, uu1 = r['q0'], r['q1']
        u0, v0 = uu0[0], uu0[-2]
        u1, v1, a1 = uu1[0], uu1[-2], uu1[-1]
        dt = r['dt']
        e = []
        for k, te in enumerate((u1 - u0 - dt * v1, v1 - v0 - dt * a1)):
            e.append(np.sqrt(np.mean((te / (tc['eps_r'][k] * abs(te) + tc['eps_a'][k]))**2)))
        em = max(e)
        mon.close('errors', (r['status'].u_err, r['status'].v_err, r['status'].emax), (e[0], e[1], em), 1e-6, 1e-10, msg='error estimates')
        mon.equal('decision', r['result'], 'accept' if r['status'].emax <= 1 else 'reject', 'the decision for the error %s' % em)
        base = tc['fsafety'] / max(em, 1e-300)**0.5
        ok = em <= 1
        if kind == 'ed_pid':
            p, ii, dd = tc['pcoef'] / 2, tc['icoef'] / 2, tc['dcoef'] / 2
            f = tc['fsafety'] * em**-(p + ii + dd) * e0**(p + 2 * dd) * e00**-dd
            new = dt * min(tc['fmax'], max(tc['fmin'], f))
            e00, e0 = e0, em
        else:
            new = dt * (min(tc['fmax'], base) if ok else max(tc['fmin'], base))
            if kind == 'ed_linear':
                if not ok:
                    count = 0
                    new *= tc['fred']
                elif count < tc['inc_wait']:
                    count += 1
                    new = dt
                elif new / dt >= tc['min_finc']:
                    count = 0
                else:
                    new = dt
        mon.close('proposal', r['new'], new, 1e-6, msg='the proposed step length of %s' % kind)
    mon.event(kind)
    mon.sig('control', scheme, kind, lin, damp, load, bool(tc.get('guess_dt0')), S.bt)

def run_stalled(mon, case):
    """The step control has to accept sufficiently short steps also with moving boundaries in all DOFs."""
    rng = gen.rngof(case)
    for scheme in ED:
        S = Setting(rng, g='2_4', order=1, vector=False)
        S.bt = True
        set_par(rng, S)
        tc = dict(eps_r=[1e-1, 1e-1], eps_a=[1e-2, 1e-2], fmin=0.3, fmax=2.0, fsafety=0.8)
        d = ed_desc(mon, rng, S, scheme, 0.0, 0.01, n=3, lin=True, damp=False, load=False, active_only=False, tsc=('tsc.ed_basic', tc))
        pb = tdep.problem(d)
        pb.init_solvers()
        tss = pb.get_solver()
        call = tss.tsc
        n = []

        class Stop(Exception):
            pass

        class Proxy:
            def __getattr__(self, name):
                return getattr(call, name)

            def __call__(self, ts, *args, **kw):
                out = call(ts, *args, **kw)
                n.append(ts.dt)
                if len(n) > 40 and n[-1] < 1e-9:
                    raise Stop
                return out
        tss.tsc = Proxy()
        try:
            solve(mon, pb, tdep.Trace(['u']))
            ok = True
        except Stop:
            ok = False
        mon.ok('progress', ok, 'steps of %s with active_only=False and moving boundaries are rejected for any length' % scheme)
        mon.event('moving boundary')
    mon.sig('stalled')

def run_extra(mon, case):
    """Newmark with further variables: rho u'' + c u' + K u + b p = f, d u + e p + h p' + K p = 0."""
    rng = gen.rngof(case)
    S = Setting(rng, vector=False, order=1, fix=False)
    set_par(rng, S)
    S.par.update(b=float(0.5 * rng.randn()), d=float(0.5 * rng.randn()), e=float(1 + rng.rand()), h=float(0.5 + rng.rand()))
    der = bool(rng.rand() < 0.5)
    lin = bool(rng.rand() < 0.5)
    transform = bool(rng.rand() < 0.6)
    active_only = bool(rng.rand() < 0.5)
    b, g = [(0.25, 0.5), (0.3, 0.55)][rng.randint(2)]
    n = 6 + rng.randint(4)
    t1 = 0.1 * (n - 1)
    d = S.base()
    F = S.forms()
    if transform:
        d['variables'] = {'u': ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u'), 'p': ('unknown field', 'f', 1, 1),
                          'q': ('test field', 'f', 'p')}
        M1, C1 = F['M'] % ('rho', 'v', 'ddu'), F['M'] % ('c', 'v', 'du')
    else:
        d['variables'] = {'u': ('unknown field', 'f', 0), 'v': ('test field', 'f', 'u'), 'p': ('unknown field', 'f', 1, 1),
                          'q': ('test field', 'f', 'p'), 'du': ('unknown field', 'f', 2), 'ddu': ('unknown field', 'f', 3),
                          'dv': ('test field', 'f', 'du'), 'ddv': ('test field', 'f', 'ddu')}
        M1, C1 = F['M'] % ('rho', 'ddv', 'ddu'), F['M'] % ('c', 'dv', 'du')
    d['equations'] = {
        'e1': ' + '.join((M1, C1, F['K'] % ('v', 'u'), F['M'] % ('b', 'v', 'p'))) + ' - ' + F['F'] % 'v' + ' = 0',
        'e2': ' + '.join((F['M'] % ('d', 'q', 'u'), F['M'] % ('e', 'q', 'p'), F['K'] % ('q', 'p')))
              + (' + ' + F['M'] % ('h', 'q', 'dp/dt') if der else '') + ' = 0'}
    d['ebcs'] = {'left': ('Left', {'u.all': 'wall0', 'du.all': 'wall1', 'ddu.all': 'wall2', 'p.all': 'pw'})}
    pt = tdep.Time(rng)
    d['functions']['pw'] = (lambda ts, coors, **kw: pt(ts.time) * np.ones(len(coors)),)
    w = rng.randn(3, S.dim)
    ic = [lambda coors, ic_=None, k=k, **kw: np.sin(np.asarray(coors) @ w[k] + k) for k in range(3)]
    d['functions'].update(icu=(ic[0],), icv=(ic[1],), icp=(ic[2],))
    d['ics'] = {'ic': ('Omega', {'u.all': 'icu', 'du.all': 'icv', 'p.all': 'icp'})}
    d['solvers'] = dict(ls_conf(rng))
    d['solvers']['newton'] = ('nls.newton', {'i_max': 2, 'eps_a': 1e-11, 'eps_r': 1e-9, 'eps_mode': 'or'})
    ts = dict(t0=0.0, t1=t1, n_step=n, is_linear=lin, beta=b, gamma=g, verbose=0, has_time_derivatives=True)
    if not transform:
        ts['var_names'] = {'u': 'u', 'du': 'du', 'ddu': 'ddu', 'extra': {'p'}}
    d['solvers']['ts'] = ('ts.newmark', ts)
    seq = None
    if rng.rand() < 0.4:
        x = np.cumsum(0.3 + rng.rand(n - 1))
        seq = [float(v) for v in t1 * x / x[-1]]
        d['solvers']['tsc'] = ('tsc.time_sequence', dict(times=list(seq)))
    d['options'] = dict(ts='ts', nls='newton', ls='ls', active_only=active_only, output_format='h5', auto_transform_equations=transform)
    if seq:
        d['options']['tsc'] = 'tsc'
    pb = tdep.problem(d)
    D = Dynamics(S, pb, True, False, True)
    mm = D.M / S.par['rho']
    tr = tdep.Trace(['u', 'du', 'ddu', 'p'])
    var, st = solve(mon, pb, tr)
    if seq is None:
        times_of(mon, tr, 0.0, t1, n)
    else:
        mon.close('sequence', tr.col('time'), [0.0] + seq, 0, 1e-10, msg='times of a given sequence')
        mon.event('further variables with variable steps')
    t, U, V, A = trace_of(tr)
    P = tr.col('p')
    fr, fx = S.free, S.fixed
    par = S.par
    for i in range(n):
        r1 = (D.r(U[i], V[i], A[i], t[i]) + par['b'] * (mm @ P[i]))[fr]
        s = D.scale(U[i], V[i], A[i], t[i]) + abs(P[i]).max()
        mon.close('balance', r1, 0 * r1, 0, 1e-8 * s, msg='equilibrium with further variables')
        mon.close('boundary', P[i][fx], pt(t[i]) + 0 * P[i][fx], 0, 1e-11, msg='boundary values of the further variable')
        if i:
            dt = t[i] - t[i - 1]
            r2 = par['d'] * (mm @ U[i]) + par['e'] * (mm @ P[i]) + D.K @ P[i]
            if der:
                r2 = r2 + par['h'] * (mm @ (P[i] - P[i - 1])) / dt
            mon.close('extra', r2[fr], 0 * r2[fr], 0, 1e-8 * (s + abs(D.K).max() * abs(P[i]).max() + abs(P).max() / dt),
                      msg='the equation of the further variable')
            x = U[i - 1] + dt * V[i - 1] + dt**2 * ((0.5 - b) * A[i - 1] + b * A[i])
            mon.close('update', U[i][fr], x[fr], 0, 1e-9 * (abs(x).max() + 1e-3), msg='displacements')
            x = V[i - 1] + dt * ((1 - g) * A[i - 1] + g * A[i])
            mon.close('update', V[i][fr], x[fr], 0, 1e-9 * (abs(x).max() + 1e-3), msg='velocities')
    mon.close('result', np.asarray(var['p']()), P[-1], 0, 1e-12 * (1 + abs(P[-1]).max()), msg='the returned state is not the last one (p)')
    mon.event('extra variables')
    mon.sig('extra', S.g, der, lin, transform, active_only)
