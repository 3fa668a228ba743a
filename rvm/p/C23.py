"""C23: Re-evaluation after any change equals evaluation from scratch.

Monitor: Random histories of changes (states, history, material parameters, time, conditions, mesh coordinates, equations,
solvers) and evaluations are applied to one problem, one variable or one evaluable; each result is compared with that of a
freshly created object put directly into the recorded situation, and pure evaluations are checked to leave states, materials and
subsequent results unchanged.
"""
import numpy as np
from rvm import gen, tdep

REQUIRED = ['variable', 'derivative', 'evaluate', 'assemble', 'solution', 'pure', 'evaluable', 'hyperelastic', 'after coordinates', 'after equations', 'time steps']
ASSUMPTIONS = ['changed material parameters are announced by Problem.update_materials() in the mode documented for the kind of the material']
GEOMS = ['1_2', '2_3', '2_4', '3_4', '3_8']

def cases(rng, tier):
    n = 2 if tier == 'quick' else 16
    out = []
    for g in GEOMS:
        for _ in range(6 * n):
            out.append(dict(kind='variable', mesh=g, cost=2))
    for g in GEOMS[1:]:
        for eq in ('laplace', 'nonlinear', 'two', 'transient', 'elasticity', 'hyper'):
            for _ in range(2 * n):
                out.append(dict(kind='problem', mesh=g, eq=eq, cost=4))
        for _ in range(3 * n):
            out.append(dict(kind='evaluable', mesh=g, cost=2))
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def moved(rng, X, h=0.03):
    return X @ (np.eye(X.shape[1]) + h * rng.randn(X.shape[1], X.shape[1])) + 0.1 * rng.randn(X.shape[1])

# Variables.

def run_variable(mon, case):
    from sfepy.discrete import FieldVariable, Integral
    from sfepy.discrete.fem import FEDomain, Field, Mesh
    from sfepy.discrete.fem.fields_base import set_mesh_coors
    from sfepy.solvers.ts import TimeStepper
    rng = gen.rngof(case)
    raw = gen.raw_mesh(rng, case['mesh'], 2 + rng.randint(2), 0.1, 0.0, True)
    D = raw.coors.shape[1] if hasattr(raw, 'coors') else int(case['mesh'][0])
    nc = [1, D][rng.randint(2)]
    order = 1 + rng.randint(2)
    history = rng.randint(3)
    cplx = rng.rand() < 0.2

    def make(X=None):
        mesh = gen.to_mesh(raw)
        dom = FEDomain('d', mesh)
        om = dom.create_region('Omega', 'all')
        x = dom.mesh.coors[:, 0]
        mid = 0.5 * (x.min() + x.max())
        regs = {'Omega': om, 'Om1': dom.create_region('Om1', 'vertices in x < %.8f' % (mid + 1e-6 + 0.3 * np.ptp(x)), 'cell', allow_empty=True)}
        if D > 1:
            regs['G'] = dom.create_region('G', 'vertices of surface', 'facet')
        f = Field.from_args('f', np.complex128 if cplx else np.float64, nc, om, approx_order=order)
        v = FieldVariable('u', 'parameter', f, history=history or None, primary_var_name='(set-to-None)')
        v.init_history()
        if 'G' in regs:
            dom.create_surface_group(regs['G'])
            f.setup_surface_data(regs['G'])
        return dom, regs, f, v
    dom, regs, f, v = make()
    X0 = dom.mesh.coors.copy()
    names = [n for n in regs if not regs[n].is_empty and n != 'G' or n == 'G']
    names = [n for n in names if len(regs[n].cells if n != 'G' else regs[n].facets)]
    dt = 0.5
    rnd = lambda: (rng.randn(f.n_nod * nc) + (1j * rng.randn(f.n_nod * nc) if cplx else 0))
    data = [rnd() for _ in range(history + 1)]
    ts = TimeStepper(0.0, 10.0, dt=dt)
    for k in range(history + 1):
        v.set_data(data[k].copy(), step=-k)
    v.dt = dt
    X = X0.copy()
    start = True
    ops = ['set', 'old', 'advance', 'dt', 'coors', 'const', 'inplace', 'dofs']
    integrals = {(n, o): Integral('i%d' % o, order=o) for n in ('a',) for o in (1, 2, 4)}
    last = []
    for it in range(14):
        op = ops[rng.randint(len(ops))]
        if op == 'set':
            data[0] = rnd()
            v.set_data(data[0].copy())
        elif op == 'old' and history:
            k = 1 + rng.randint(history)
            data[k] = rnd()
            v.set_data(data[k].copy(), step=-k)
        elif op == 'advance':
            v.advance(ts)
            start = start and not history
            data = [data[0].copy()] + data[:-1] if history else data
        elif op == 'dt':
            dt = float(0.1 + rng.rand())
            tsd = TimeStepper(0.0, 10.0, dt=dt)
            v.time_update(tsd, None)
            dt = tsd.dt
        elif op == 'coors':
            X = moved(rng, X0)
            set_mesh_coors(dom, {'f': f}, X.copy(), update_fields=True)
            # Centroids and normals of regions do not matter here.
        elif op == 'const':
            data[0] = np.full(len(data[0]), 0.7, dtype=data[0].dtype)
            v.set_constant(0.7)
        elif op == 'dofs' and not cplx:
            # set_from_function() evaluates in the current nodal coordinates.
            data[0] = np.repeat(np.sin(f.get_coor()[:, 0]), nc)
            v.set_from_function(lambda x: np.repeat(np.sin(x[:, :1]), nc, axis=1))
        else:
            op = None
        last = (last + [op])[-4:]
        # Evaluations.
        dom2, regs2, f2, v2 = make()
        if (X != X0).any():
            set_mesh_coors(dom2, {'f': f2}, X.copy(), update_fields=True)
        for k in range(history + 1):
            v2.set_data(data[k].copy(), step=-k)
        v2.dt = dt
        if not start:
            v2.step = v.step
        for _ in range(3):
            name = names[rng.randint(len(names))]
            mode = ['val', 'grad', 'div', 'cauchy_strain'][rng.randint(4 if nc == D and D > 1 else 2)]
            itg = integrals[('a', [1, 2, 4][rng.randint(3)])]
            if name == 'G' and mode != 'val':
                integration = 'facet_extra'
            else:
                integration = 'facet' if name == 'G' else 'cell'
            step = -rng.randint(history + 1)
            kw = {}
            if history and -step < history and rng.rand() < 0.4:
                kw['time_derivative'] = 'dt'
                if rng.rand() < 0.3:
                    kw['dt'] = float(0.1 + rng.rand())
            a = v.evaluate(mode=mode, integral=itg, integration=integration, region=regs[name], step=step, **kw)
            b = v2.evaluate(mode=mode, integral=itg, integration=integration, region=regs2[name], step=step, **kw)
            msg = '%s of step %d in %s, %s, after %s' % (mode, step, name, sorted(kw), last)
            if mon.ok('variable', a.shape == b.shape, 'shape: ' + msg):
                mon.close('derivative' if kw else 'variable', a, b, rtol=1e-11, scale=1 + np.abs(b).max(), msg=msg)
            if 'coors' in last:
                mon.event('after coordinates')
            mon.sig('variable', case['mesh'], op, mode, name, step, tuple(sorted(kw)), nc, order)
        for k in range(history + 1):
            mon.close('pure', v(step=-k), data[0 if start and k == 1 else k], rtol=0, atol=0, msg='data of step %d after evaluations' % -k)
        if rng.rand() < 0.2 and D > 1:
            mon.close('variable', [v.evaluate(mode='val', integral=integrals['a', 2]).sum(), np.abs(v.get_element_diameters(np.arange(len(regs['Omega'].cells)), 0)).sum()],
                      [v2.evaluate(mode='val', integral=integrals['a', 2]).sum(), np.abs(v2.get_element_diameters(np.arange(len(regs['Omega'].cells)), 0)).sum()],
                      rtol=1e-9, msg='element diameters after %s' % last)
            p = X[rng.randint(len(X), size=3)] * 0.5 + 0.5 * X.mean(axis=0)
            if not cplx:
                mon.close('variable', v.evaluate_at(p), v2.evaluate_at(p), rtol=1e-9, atol=1e-9, msg='values in points after %s' % last)

# Problems.

def fun_f(ts, coors, mode=None, equations=None, term=None, problem=None, amp=1.0, **kwargs):
    if mode != 'qp':
        return None
    t = 0.0 if ts is None else ts.time
    x = coors[:, 0]
    val = amp * (1 + t) * (2 + np.sin(3 * x))
    return {'c': val[:, None, None], 'g': (val**2)[:, None, None]}

def fun_s(ts, coors, mode=None, amp=1.0, **kwargs):
    if mode != 'qp':
        return None
    return {'c': (amp * (1 + coors[:, -1]**2))[:, None, None]}

def fun_n(ts, coors, mode=None, equations=None, term=None, problem=None, **kwargs):
    """Depends on the current state."""
    if mode != 'qp':
        return None
    u = problem.evaluate('ev_integrate.%s.Omega(u)' % term.integral.name, mode='qp', verbose=False, copy_materials=False) if problem.equations is not None else 0 * coors[:, :1]
    return {'c': (1 + np.asarray(u).reshape(len(coors), -1)[:, :1, None]**2)}

def fun_bc(ts, coors, bc=None, problem=None, **kwargs):
    return np.cos(coors[:, 0]) * (1 + (0 if ts is None else ts.time))

def phi(u):
    return u + u**3

def dphi(u):
    return 1 + 3 * u**2

EQS = {
    'laplace': {'e': 'dw_laplace.i.Omega(m.k, v, u) + dw_dot.i.Omega(f.c, v, u) = dw_integrate.i.Omega(f.g, v)'},
    'laplace2': {'e': 'de_laplace.i.Omega(s.c, v, u) + de_dot.i.Omega(f.c, v, u) + 3 * dw_dot.i2.Omega(v, u) = dw_volume_lvf.i2.Omega(f.g, v) + dw_integrate.i.Right(m.k, v)'},
    'nonlinear': {'e': 'dw_laplace.i.Omega(m.k, v, u) + dw_volume_nvf.i2.Omega(phi, dphi, v, u) = dw_volume_lvf.i.Omega(f.g, v)'},
    'nonlinear2': {'e': 'dw_laplace.i.Omega(n.c, v, u) + dw_dot.i2.Omega(s.c, v, u) = dw_volume_lvf.i.Omega(f.g, v)'},
    'two': {'e': 'dw_laplace.i.Omega(m.k, v, u) + dw_dot.i.Omega(f.c, v, p) = dw_integrate.i.Omega(f.g, v)', 'e2': 'dw_dot.i.Omega(q, p) - dw_dot.i.Omega(s.c, q, u) = 0'},
    'two2': {'e': 'dw_laplace.i.Omega(m.k, v, u) = dw_integrate.i.Omega(f.g, v)', 'e2': 'dw_laplace.i2.Omega(q, p) + dw_dot.i.Omega(f.c, q, p) - dw_dot.i.Omega(q, w) = 0'},
    'transient': {'e': 'dw_dot.i.Omega(s.c, v, du/dt) + dw_laplace.i.Omega(m.k, v, u) + dw_dot.i.Omega(f.c, v, u) = 0'},
    'transient2': {'e': 'de_dot.i2.Omega(v, du/dt) + de_laplace.i.Omega(f.c, v, u) = dw_dot.i.Omega(s.c, v, u[-1])'},
    'elasticity': {'e': 'de_lin_elastic.i.Omega(m.D, v, u) + dw_lin_elastic.i2.Omega(m.D, v, u) + dw_dot.i.Omega(f.c, v, u) = dw_volume_lvf.i.Omega(m.load, v)'},
    'elasticity2': {'e': 'dw_lin_elastic_iso.i2.Omega(s.c, f.g, v, u) - dw_surface_ltr.i.Right(m.load, v) = 0'},
    'hyper': {'e': 'dw_tl_he_neohook.i.Omega(m.k, v, u) + dw_tl_bulk_penalty.i.Omega(m.K, v, u) = dw_volume_lvf.i.Omega(m.load, v)'},
    'hyper2': {'e': 'dw_tl_he_neohook.i2.Omega(m.k, v, u) + dw_tl_he_mooney_rivlin.i2.Omega(s.c, v, u) + dw_tl_bulk_penalty.i2.Omega(m.K, v, u) = dw_volume_lvf.i.Omega(m.load, v)'},
}

class World:
    """Creates problems in a recorded situation."""

    def __init__(self, rng, case):
        from sfepy.mechanics.matcoefs import stiffness_from_lame
        self.D = int(case['mesh'][0])
        self.raw = gen.raw_mesh(rng, case['mesh'], 2 + rng.randint(2) if self.D == 2 else 2, 0.1, 0.0, True)
        self.X0 = np.array(gen.to_mesh(self.raw).coors)
        self.family = case['eq']
        self.vector = self.family in ('elasticity', 'hyper')
        self.order = 1 + rng.randint(2)
        self.complex = False
        self.sit = dict(eq=self.family, X=None, state=None, prev=None, w=None, amp=None, samp=None, k=1.3, time=None, ebc=0, ls='direct', n_iter=None)
        self.stiff = stiffness_from_lame(self.D, 1.5, 1.0)

    def values(self, k):
        v = {'k': k, 'K': 20.0 * k}
        if self.vector:
            v.update({'D': k * self.stiff, 'load': 0.03 * k * np.arange(1, self.D + 1, dtype=float)[:, None]})
        return v

    def desc(self):
        X = self.X0
        lo, hi = X[:, 0].min(), X[:, 0].max()
        h = 0.02 * (hi - lo)
        nc = 'vector' if self.vector else 'scalar'
        d = dict(
            filename_mesh=tdep.mesh_hook(gen.to_mesh(self.raw)),
            regions={'Omega': 'all', 'Left': ('vertices in x < %.12g' % (lo + 0.3 * (hi - lo)), 'facet' if False else 'vertex'),
                     'Right': ('vertices of surface', 'facet')},
            fields={'fu': ('real', nc, 'Omega', self.order), 'fp': ('real', 'scalar', 'Omega', 1)},
            variables={'u': ('unknown field', 'fu', 0) + ((1,) if self.family == 'transient' else ()), 'v': ('test field', 'fu', 'u'),
                       'w': ('parameter field', 'fp', '(set-to-None)')},
            functions={'fun_f': (fun_f,), 'fun_s': (fun_s,), 'fun_n': (fun_n,), 'fun_bc': (fun_bc,)},
            materials={'m': (self.values(1.3),), 'f': 'fun_f', 'n': 'fun_n', 's': (None, 'fun_s', 'stationary')},
            integrals={'i': 2, 'i2': 3},
            ebcs={'e1': ('Left', {'u.all': 0.0})},
            equations=dict(EQS[self.family]),
            solvers={'ls': ('ls.scipy_direct', {}), 'nls': ('nls.newton', {'i_max': 15, 'eps_a': 1e-12, 'eps_r': 1e-14, 'lin_red': None, 'is_linear': False})},
            options={'nls': 'nls', 'ls': 'ls'}, phi=phi, dphi=dphi)
        if self.family == 'two':
            d['variables'].update({'p': ('unknown field', 'fp', 1), 'q': ('test field', 'fp', 'p')})
        if self.family == 'transient':
            d['solvers']['ts'] = ('ts.simple', {'t0': 0.0, 't1': 0.6, 'n_step': 4, 'quasistatic': True})
            d['options']['ts'] = 'ts'
        return d

    def ebcs(self, pb, k):
        from sfepy.discrete.conditions import Conditions, EssentialBC
        L, R = pb.domain.regions['Left'], pb.domain.regions['Right']
        if k == 0:
            return Conditions([EssentialBC('e1', L, {'u.all': 0.0})])
        if k == 1:
            return Conditions([EssentialBC('e1', L, {'u.0' if self.vector else 'u.all': 0.05}), EssentialBC('e2', R, {'u.all': 0.0})])
        if k == 2:
            return Conditions([EssentialBC('e1', R, {'u.all': 0.0})])
        if self.vector:
            return Conditions([EssentialBC('e1', L, {'u.all': 0.01})])
        return Conditions([EssentialBC('e1', L, {'u.all': pb.functions['fun_bc']})])

    def ls(self, name):
        return {'direct': ('ls.scipy_direct', {}), 'superlu': ('ls.scipy_superlu', {}), 'presolve': ('ls.scipy_superlu', {'use_presolve': True}), 'umfpack': ('ls.scipy_umfpack', {}),
                'bicgstab': ('ls.scipy_iterative', {'method': 'bicgstab', 'eps_r': 1e-14, 'eps_a': 1e-16, 'i_max': 2000}), 'mumps': ('ls.mumps', {})}[name]

    def set_ls(self, pb, name):
        from sfepy.base.base import Struct
        kind, par = self.ls(name)
        pb.init_solvers(ls_conf=Struct(name='ls', kind=kind, **par))

    def fresh(self):
        """A new problem in the situation."""
        s = self.sit
        pb = tdep.problem(self.desc())
        if s['X'] is not None:
            pb.set_mesh_coors(s['X'].copy(), update_fields=True)
        if s['eq'] != self.family:
            pb.set_equations(dict(EQS[s['eq']]))
        pb.set_bcs(ebcs=self.ebcs(pb, s['ebc']))
        self.set_ls(pb, s['ls'])
        self.put(pb)
        return pb

    def put(self, pb):
        s = self.sit
        mats = pb.get_materials()
        for m in mats:
            if m.name == 'm':
                self.constants(m, s['k'])
        for n, a in (('f', s['amp']), ('s', s['samp'])):
            if a is not None and n in mats.names:
                mats[n].set_extra_args(amp=a)
        self.default(pb)
        self.states(pb)
        pb.update_materials(self.ts(pb), mode='force', verbose=False)

    def default(self, pb):
        pb.time_update(self.ts(pb))
        pb.set_default_state()
        w = pb.get_variables()
        if 'w' in w.names:
            w['w'].set_data(np.zeros(w['w'].n_dof) if self.sit['w'] is None else self.sit['w'].copy())

    def constants(self, m, k):
        from sfepy.discrete.functions import ConstantFunction
        m.set_function(ConstantFunction(self.values(k), no_tile=True))

    def ts(self, pb):
        ts = pb.get_timestepper()
        if self.sit['time'] is not None:
            ts.set_step(self.sit['time'])
        else:
            ts.set_step(0)
        return ts

    def states(self, pb):
        s = self.sit
        v = pb.get_variables()
        if s['state'] is None:
            s['state'] = np.zeros(v.di.n_dof_total)
        if s['prev'] is not None and self.family == 'transient':
            v.set_state(s['prev'].copy(), False)
            for var in v.iter_state():
                var.advance(pb.ts)
        v.set_state(s['state'].copy(), False)

def run_problem(mon, case):
    rng = gen.rngof(case)
    W = World(rng, case)
    s = W.sit
    pb = W.fresh()
    ops = ['state', 'amp', 'samp', 'k', 'time', 'ebc', 'coors', 'equations', 'ls', 'w', 'none', 'state']
    last = []
    amplitude = 0.02 if W.family == 'hyper' else 0.3
    for it in range(10):
        op = ops[rng.randint(len(ops))]
        mats = pb.get_materials()
        if op == 'state':
            s['state'] = amplitude * rng.randn(len(s['state']))
            if W.family == 'transient' and rng.rand() < 0.5:
                s['prev'] = amplitude * rng.randn(len(s['state']))
            W.states(pb)
        elif op in ('amp', 'samp'):
            name = 'f' if op == 'amp' else 's'
            if name in mats.names:
                s[op] = 0.5 + rng.rand()
                mats[name].set_extra_args(amp=s[op])
                pb.update_materials(mode='force' if name == 's' else 'normal', verbose=False)
        elif op == 'k' and 'm' in mats.names:
            s['k'] = 0.5 + rng.rand()
            W.constants(mats['m'], s['k'])
            pb.update_materials(verbose=False)
        elif op == 'time':
            if W.family == 'transient':
                s['time'] = rng.randint(4)
                pb.time_update(W.ts(pb))
                pb.update_materials(W.ts(pb), verbose=False)
        elif op == 'ebc':
            s['ebc'] = rng.randint(4)
            pb.set_bcs(ebcs=W.ebcs(pb, s['ebc']))
            pb.time_update()
        elif op == 'coors':
            s['X'] = moved(rng, W.X0)
            pb.set_mesh_coors(s['X'].copy(), update_fields=True)
            # Values of conditions and materials depend on coordinates.
            pb.time_update()
            pb.update_materials(mode='force', verbose=False)
        elif op == 'equations':
            s['eq'] = W.family + ['', '2'][rng.randint(2)]
            s.update(prev=None, amp=None, samp=None, k=1.3, state=None, ls='direct', w=None)
            pb.set_equations(dict(EQS[s['eq']]))
            # Changing the equations resets also the conditions.
            pb.set_bcs(ebcs=W.ebcs(pb, s['ebc']))
            W.set_ls(pb, 'direct')
            W.put(pb)
        elif op == 'ls':
            s['ls'] = ['direct', 'superlu', 'presolve', 'umfpack', 'mumps'][rng.randint(5)]
            W.set_ls(pb, s['ls'])
            # A new solver has a new time stepper.
            W.ts(pb)
        elif op == 'w' and 'w' in pb.get_variables().names:
            v = pb.get_variables()['w']
            s['w'] = rng.randn(v.n_dof)
            v.set_data(s['w'].copy())
        else:
            op = None
        last = (last + [op])[-5:]
        # State dependent materials.
        pb.update_materials(verbose=False)
        if op in ('coors', 'equations'):
            mon.event('after ' + ('coordinates' if op == 'coors' else op))
        ref = W.fresh()
        if not ref.get_variables().adi.n_dof_total:
            continue
        for what in rng.permutation(7)[:3]:
            observe(mon, rng, W, pb, ref, int(what), last)
        mon.sig('problem', case['mesh'], s['eq'], op)
        if rng.rand() < 0.3:
            if not solve(mon, W, pb, ref, last):
                break
            mon.sig('solve', case['mesh'], s['eq'], s['ls'])
        if len(mon.violations) > 3:
            break

def both(mon, kind, pb, ref, fun, msg, rtol=1e-9):
    a = fun(pb)
    b = fun(ref)
    a, b = [x.toarray() if hasattr(x, 'toarray') else np.asarray(x) for x in (a, b)]
    if mon.ok(kind, a.shape == b.shape, 'shapes %s, %s: %s' % (a.shape, b.shape, msg)):
        mon.close(kind, a, b, rtol=rtol, scale=1e-3 + np.abs(b).max() if b.size else 1.0, msg=msg)
    return a

def snapshot(pb):
    """Copies of states, material data and coordinates."""
    out = {'state': pb.get_variables().get_state(False, force=True).copy()}
    for m in pb.get_materials():
        for key, d in m.datas.items():
            if isinstance(d, dict):
                out.update({(m.name, str(key), k): np.array(x, dtype=float) for k, x in d.items() if x is not None})
    for name, f in pb.fields.items():
        out['field', name] = np.array(f.get_coor())
    out['mesh'] = np.array(pb.get_mesh_coors())
    return out

def pure(mon, before, after, msg):
    for k in before:
        if not mon.ok('pure', k in after and np.array_equal(before[k], after[k]), '%s changed by %s' % (k, msg)):
            break

def observe(mon, rng, W, pb, ref, what, last):
    s = W.sit
    msg = 'equations %s after %s' % (s['eq'], last)
    kind = 'hyperelastic' if W.family == 'hyper' else None
    before = snapshot(pb)
    cm = bool(rng.rand() < 0.5)
    if what == 0:
        expr = ['ev_integrate.i.Omega(u)', 'ev_grad.i2.Omega(u)', 'ev_volume.i.Omega(u)', 'ev_integrate.i.Right(u)', 'dw_dot.i2.Omega(u, u)'][rng.randint(5)]
        mode = ['eval', 'el_avg', 'qp'][rng.randint(3)]
        if 'volume' in expr or 'dot' in expr:
            mode = 'eval'
        both(mon, 'evaluate', pb, ref, lambda p: p.evaluate(expr, mode=mode, copy_materials=cm, verbose=False), '%s, %s, %s' % (expr, mode, msg))
    elif what == 1:
        expr = 'ev_integrate_mat.i.Omega(%s, u)' % ['f.c', 's.c', 'm.k'][rng.randint(3)]
        if expr.split('(')[1][0] in pb.get_materials().names:
            both(mon, 'evaluate', pb, ref, lambda p: p.evaluate(expr, copy_materials=cm, verbose=False), '%s, %s' % (expr, msg))
    elif what == 2 and pb.get_variables().adi.n_dof['u']:
        dw = ['vector', 'matrix'][rng.randint(2)]
        expr = EQS[s['eq']]['e'].split('=')[0]
        kw = dict(phi=phi, dphi=dphi) if 'phi' in expr else {}
        both(mon, kind or 'assemble', pb, ref, lambda p: p.evaluate(expr, mode='weak', dw_mode=dw, copy_materials=cm, verbose=False, active_only=True, **kw),
             'weak %s of %s, %s' % (dw, expr[:60], msg))
    elif what == 3:
        dw = ['vector', 'matrix'][rng.randint(2)]
        both(mon, kind or 'assemble', pb, ref, lambda p: p.eval_equations(mode='weak', dw_mode=dw, verbose=False), 'equations, %s, %s' % (dw, msg))
    elif what == 4:
        v = pb.get_variables()
        vec = v.get_state(True, force=True)
        y = vec + 0.01 * rng.randn(len(vec))

        def fun(p, m):
            ev = p.get_evaluator()
            old = p.get_variables().get_state(False, force=True).copy()
            out = getattr(ev, m)(y.copy())
            out = out.copy()
            p.get_variables().set_state(old, False)
            return out
        both(mon, kind or 'assemble', pb, ref, lambda p: fun(p, 'eval_residual'), 'residual, ' + msg)
        both(mon, kind or 'assemble', pb, ref, lambda p: fun(p, 'eval_tangent_matrix'), 'tangent matrix, ' + msg)
    elif what == 5:
        from sfepy.discrete import Integral
        mode = ['val', 'grad'][rng.randint(2)]
        o = 1 + rng.randint(3)
        both(mon, 'evaluate', pb, ref, lambda p: p.get_variables()['u'].evaluate(mode, integral=Integral('j%d' % o, order=o)), 'variable, %s, %s' % (mode, msg))
    elif what == 6:
        X = pb.get_mesh_coors()
        pts = 0.7 * X[rng.randint(len(X), size=4)] + 0.3 * X.mean(axis=0)
        both(mon, 'evaluate', pb, ref, lambda p: p.get_variables()['u'].evaluate_at(pts), 'values in points, ' + msg)
    pure(mon, before, snapshot(pb), 'evaluation %d, %s' % (what, msg))

def converged(pb):
    st = getattr(pb.get_nls(), 'status', None)
    return st is None or st.get('condition', 0) in (0, None)

def solve(mon, W, pb, ref, last):
    s = W.sit
    msg = 'equations %s, solver %s after %s' % (s['eq'], s['ls'], last)
    res, stat, conv = [], [], []
    for p in (pb, ref):
        # Start from the initial conditions.
        tss = p.get_solver()
        if tss is None:
            p.init_solvers()
            tss = p.get_solver()
        if W.family == 'transient':
            tss.ts.set_step(0)
        rec = []

        def hook(p_, ts, variables):
            rec.append(variables.get_state(False, force=True).copy())
        try:
            v = p.solve(save_results=False, step_hook=hook, verbose=False)
        except ValueError as exc:
            if not ('warp' in str(exc) or 'nans' in str(exc)):
                raise
            return False
        conv.append(converged(p))
        res.append(rec)
        stat.append(v.get_state(False, force=True).copy())
    a, b = res
    if mon.ok('solution', len(a) == len(b), 'numbers of steps %d, %d: %s' % (len(a), len(b), msg)):
        if W.family == 'transient':
            mon.event('time steps', len(a))
        if not (all(np.isfinite(x).all() for x in b) and all(conv)):
            # A diverging iteration amplifies rounding errors.
            mon.event('not converged')
            if W.family not in ('hyper', 'nonlinear'):
                mon.ok('solution', conv[0] == conv[1], 'convergence %s: %s' % (conv, msg))
            return False
        mon.close('solution', np.array(a), np.array(b), rtol=1e-6, scale=1e-3 + max(np.abs(x).max() for x in b), msg=msg)
        s['state'] = stat[0].copy()
        s['prev'] = None
        if W.family == 'transient':
            # The time stepper is at the last step now.
            s['time'] = 3
            v = pb.get_variables()
            s['prev'] = 0.0 * s['state']
            W.states(pb)
        pb.time_update(W.ts(pb))
        pb.update_materials(W.ts(pb), mode='force', verbose=False)
        return True
    return False

# Evaluables.

def run_evaluable(mon, case):
    from sfepy.discrete.evaluate import eval_equations
    rng = gen.rngof(case)
    W = World(rng, dict(case, eq='laplace'))
    W.sit['k'] = 1.3
    pb = W.fresh()
    exprs = ['ev_integrate.i.Omega(u)', 'dw_dot.i2.Omega(u, u)', 'ev_grad.i.Omega(u)', 'ev_integrate_mat.i.Omega(f.c, u)', 'dw_laplace.i.Omega(f.c, u, u)', 'ev_integrate.i.Right(u)',
             'dw_dot.i2.Omega(w, u)']
    objs = {}
    base = pb.get_variables()['u']().copy()
    for it in range(12):
        expr = exprs[rng.randint(len(exprs))]
        mode = 'eval' if expr[:2] == 'dw' or 'dot' in expr else ['eval', 'qp', 'el_avg'][rng.randint(3)]
        w = pb.get_variables()
        var = pb.create_variables(['u', 'w'])
        uv = var['u']
        uv.set_data(rng.randn(len(base)))
        kw = dict(u=uv)
        if '(w' in expr:
            wv = var['w']
            wd = rng.randn(wv.n_dof)
            wv.set_data(wd)
            kw['w'] = wv
        if (expr, mode) not in objs:
            objs[expr, mode] = pb.create_evaluable(expr, mode=mode, verbose=False, **kw)
        eqs, variables = objs[expr, mode]
        x = rng.randn(len(base))
        variables['u'].set_data(x.copy())
        if 'w' in kw:
            variables['w'].set_data(wd.copy())
        a = eval_equations(eqs, variables, mode=mode, verbose=False)
        b = eval_equations(eqs, variables, mode=mode, verbose=False)
        W.sit['state'] = x.copy()
        ref = W.fresh()
        kr = {}
        if 'w' in kw:
            kr = dict(w=ref.create_variables(['w'])['w'])
            kr['w'].set_data(wd.copy())
        c = ref.evaluate(expr, mode=mode, verbose=False, **kr)
        msg = '%s, %s' % (expr, mode)
        for r in (a, b):
            mon.close('evaluable', np.asarray(r), np.asarray(c), rtol=1e-10, scale=1e-3 + np.abs(np.asarray(c)).max(), msg=msg)
        mon.close('pure', pb.get_variables()['u'](), base, rtol=0, atol=0, msg='state of the problem changed by evaluable ' + msg)
        mon.sig('evaluable', expr, mode, case['mesh'])
        if rng.rand() < 0.2:
            objs.clear()
            W.sit['state'] = base = rng.randn(len(base))
            pb.get_variables().set_state(base.copy(), False)
