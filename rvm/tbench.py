"""
A workbench instantiating any registered term on random meshes, fields,
materials and states.
"""
import itertools
import numpy as np
from . import gen

SKIP_DG = ('dg', )

#: Shapes of terms which do not describe them.
DOT = [{'opt_material': '1, 1', 'virtual': (1, 'state'), 'state': 1,
        'parameter_1': 1, 'parameter_2': 1},
       {'opt_material': None},
       {'opt_material': '1, 1', 'virtual': ('D', 'state'), 'state': 'D',
        'parameter_1': 'D', 'parameter_2': 'D'},
       {'opt_material': 'D, D'},
       {'opt_material': None}]

def _nl(u):
    return 0.7 + 0.3 * u + 0.2 * u**2

def _dnl(u):
    return 0.3 + 0.4 * u

OVERRIDES = {
    'dw_volume_nvf': dict(fun=_nl, dfun=_dnl),
    'dw_nl_diffusion': dict(fun=_nl, dfun=_dnl),
    'de_mass': dict(material_lumping='none'),
}

def classes():
    import sfepy.discrete
    from sfepy.terms import term_table
    return dict(term_table)

def shapes_of(cls):
    sh = cls.arg_shapes
    if cls.name in ('dw_dot', 'dw_volume_dot', 'dw_surface_dot'):
        sh = DOT
    if not isinstance(sh, list):
        sh = [sh]
    out, prev = [], {}
    for s in sh:
        prev = dict(prev)
        prev.update(s)
        out.append(prev)
    return out

def types_of(cls):
    at = cls.arg_types
    if not isinstance(at[0], tuple):
        at = (at,)
    modes = getattr(cls, 'modes', None)
    if modes is not None and len(modes) != len(at):
        modes = None
    return [(a, modes[i] if modes is not None else None) for i, a in enumerate(at)]

def integrations(cls):
    it = cls.integration
    return (it,) if isinstance(it, str) else tuple(it)

GEOMS = ('1_2', '2_3', '2_4', '3_4', '3_8')

def entries(skip=()):
    """All (term, shapes index, argument types index, integration)."""
    out = []
    for name, cls in sorted(classes().items()):
        if name in skip:
            continue
        for i, sh in enumerate(shapes_of(cls)):
            for j, (at, mode) in enumerate(types_of(cls)):
                for it in integrations(cls):
                    out.append((name, i, j, it))
    return out

def sym_of(dim):
    return dim * (dim + 1) // 2

class Dims:
    def __init__(self, dim, n):
        self.t = dict(D=dim, D2=dim**2, D3=dim**3, S=sym_of(dim), SD=sym_of(dim) * dim, N=n)

    def one(self, s):
        if isinstance(s, str):
            s = s.strip()
            return self.t[s] if s in self.t else int(s)
        return int(s)

    def many(self, s):
        if isinstance(s, str):
            return tuple(self.one(i) for i in s.split(','))
        return (int(s),)

class Mat:
    """A smooth random tensor function of coordinates."""

    def __init__(self, rng, shape, positive, const=False, sym=None):
        self.shape = shape
        n = shape[-1]
        self.k = rng.randn(3) * (0 if const else 1)
        self.ph = rng.rand() * 6
        self.a = self.draw(rng, shape, positive, sym)
        self.b = self.draw(rng, shape, positive, sym)

    @staticmethod
    def draw(rng, shape, positive, sym):
        if positive and shape == (1, 1):
            return 0.5 + rng.rand(1, 1)
        if len(shape) >= 2 and shape[-1] == shape[-2] and positive:
            n = shape[-1]
            R = rng.randn(*shape)
            if sym:
                R = R + np.swapaxes(R, -1, -2)
            return np.eye(n) * (1.0 + rng.rand()) + 0.25 / np.sqrt(n) * R
        return rng.randn(*shape)

    def __call__(self, x):
        t = 0.5 + 0.4 * np.sin(x @ self.k[:x.shape[1]] + self.ph)
        t = t.reshape((-1,) + (1,) * len(self.shape))
        return self.a * t + self.b * (1 - t)

def make_material(name, key, mat):
    from sfepy.discrete import Material, Function
    def fun(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            return {key: mat(coors)}
    return Material(name, function=Function('fun_' + name, fun))

def get_kinds(types):
    from sfepy.terms.terms import get_arg_kinds
    return get_arg_kinds(types)

class Bench:
    """
    One instance of a term.

    Attributes
    ----------
    term, eqs, variables (by argument type), mats (by argument type: Mat or
    value), dim, g, field orders.
    """

    def __init__(self, rng, name, ish, iat, integration, g, mesh=None, order=None,
                 overrides=None, nN=None, special=None, names=None, dtype=np.float64,
                 const=False, basis=None, iorder=None, region=None, deriv=None,
                 backend=None, fields_from=None, custom_integral=None, nel=None,
                 same_order=False, mats=None, history=None, mixed=False):
        from sfepy.discrete import (Integral, FieldVariable, Equation, Equations, fem)
        from sfepy.terms import Term
        from sfepy.terms.terms import get_arg_kinds
        import copy
        cls = classes()[name]
        self.cls, self.name, self.g, self.rng = cls, name, g, rng
        self.shapes = shapes_of(cls)[ish]
        self.types, self.mode = types_of(cls)[iat]
        self.kinds = get_arg_kinds(self.types)
        if mesh is None:
            raw = random_raw(rng, g)
            self.raw = raw
            dom = gen.to_domain(raw)
        else:
            dom = mesh
        self.dom = dom
        dim = dom.shape.dim
        self.dim = dim
        N = nN if nN is not None else int(rng.randint(1, 4))
        self.D = Dims(dim, N)
        self.omega = dom.regions['Omega'] if 'Omega' in [r.name for r in dom.regions] \
            else dom.create_region('Omega', 'all')
        self.integration = integration
        self.region = self.make_region(rng, integration, region)
        maxo = 1 if (order is None and (g == '3_8' or rng.rand() < 0.4)) else 2
        self.order0 = order
        overrides = dict(OVERRIDES.get(name, {}), **(overrides or {}))
        self.fields, self.vars, self.mats, self.matobjs = {}, {}, {}, {}
        self.args, parts = {}, []
        pick = {}
        for k, t in zip(self.kinds, self.types):
            if k.endswith('variable'):
                sh = self.shape_of(t)
                pick[t] = sh
        o = order if order is not None else int(rng.randint(1, maxo + 1))
        self.basis = basis or 'lagrange'

        def field(key, nc):
            if key not in self.fields:
                oo = o if (order is not None or same_order or rng.rand() < 0.4) \
                    else int(rng.randint(1, maxo + 1))
                self.fields[key] = fem.Field.from_args('f_' + key, dtype, (nc,), self.omega,
                                                       approx_order=oo,
                                                       poly_space_basis=self.basis)
            return self.fields[key]
        for k, t in zip(self.kinds, self.types):
            if k == 'virtual_variable' or not k.endswith('variable'):
                continue
            f = field(t, self.D.one(pick[t]))
            nm_ = (names or {}).get(t, 'x_' + t)
            if k == 'state_variable':
                v = FieldVariable(nm_, 'unknown', f, history=history)
            else:
                v = FieldVariable(nm_, 'parameter', f, primary_var_name='(set-to-None)')
            self.vars[t] = v
        self.fake = None
        for k, t in zip(self.kinds, self.types):
            if k != 'virtual_variable':
                continue
            sh = pick[t]
            st = sh[1] if isinstance(sh, tuple) else None
            if st is not None and st in self.vars and not mixed and \
                    self.vars[st].kind == 'unknown' and \
                    self.D.one(sh[0]) == self.fields[st].n_components:
                pri = self.vars[st]
                f = self.fields[st]
            else:
                if mixed:
                    # Another order than the one of the states.
                    oo = [f.approx_order for f in self.fields.values()]
                    oo = 3 - oo[0] if oo and oo[0] < 3 else 1
                    f = self.fields[t] = fem.Field.from_args(
                        'f_' + t, dtype, (self.D.one(sh[0]),), self.omega, approx_order=oo,
                        poly_space_basis=self.basis)
                else:
                    f = field(t, self.D.one(sh[0]))
                pri = FieldVariable('x_fake', 'unknown', f)
                self.fake = pri
            self.pri = pri
            self.vars[t] = FieldVariable('x_' + t, 'test', f, primary_var_name=pri.name)
        # Materials and other arguments.
        for k, t in zip(self.kinds, self.types):
            if k.endswith('variable'):
                s = self.vars[t].name
                if deriv and t in deriv:
                    s = deriv[t] % s
                parts.append(s)
                self.args[self.vars[t].name] = self.vars[t]
            elif k.endswith('material'):
                sh = self.shape_of(t)
                if t in overrides and overrides[t] is None:
                    continue
                if sh is None:
                    continue
                sh = str(sh)
                nm_ = 'm_' + t
                special_ = isinstance(sh, str) and ':' in sh
                if special_:
                    sh = sh.split(':')[1]
                if t in overrides and not isinstance(overrides[t], Mat):
                    from sfepy.discrete import Material
                    mo = Material(nm_, values={'.c': overrides[t]})
                    self.mats[t] = overrides[t]
                elif special_:
                    from sfepy.discrete import Material
                    s = self.D.many(sh)
                    val = rng.rand(*s) + 0.5
                    if s == (1,):
                        val = float(val[0])
                    mo = Material(nm_, values={'.c': val})
                    self.mats[t] = val
                else:
                    s = self.D.many(sh)
                    if len(s) == 1:
                        s = (s[0], 1) if s[0] > 1 else (1, 1)
                    m = overrides.get(t)
                    if mats is not None and t in mats:
                        m = mats[t]
                    if m is None:
                        m = Mat(rng, s, True, const, sym=(sh.replace(' ', '') in
                                                          ('S,S', 'SD,SD')))
                    self.mats[t] = m
                    mo = make_material(nm_, 'c', m)
                self.matobjs[t] = mo
                self.args[nm_] = mo
                parts.append(nm_ + '.c')
            elif k == 'ts':
                from sfepy.solvers.ts import TimeStepper
                self.ts = overrides.get('ts') or TimeStepper(0.0, 1.0, 0.25, 5)
                self.args['ts'] = self.ts
                parts.append('ts')
            else:
                nm_ = 'user_' + t
                self.args[nm_] = overrides.get(t)
                parts.append(nm_)
        if custom_integral is not None:
            self.integral = custom_integral
        else:
            self.integral = Integral('i', order=iorder if iorder is not None
                                     else int(rng.randint(1, 5)))
        self.text = '%s(%s)' % (name, ', '.join(parts))
        self.term = Term.new(self.text, self.integral, self.region, **self.args)
        if backend is not None:
            self.term.set_backend(**backend)
        self.term.setup(allow_derivatives=bool(deriv))
        self.eqs = None

    def shape_of(self, t):
        ex = t + ('/%s' % self.mode if self.mode is not None else '')
        if t in self.shapes:
            return self.shapes[t]
        if ex in self.shapes:
            return self.shapes[ex]
        # Names of materials in user function terms.
        return self.shapes['material_' + t]

    def make_region(self, rng, integration, region):
        dom = self.dom
        if region is not None:
            return region
        if integration in ('cell', 'custom'):
            if rng.rand() < 0.5 or dom.shape.n_el < 3:
                return self.omega
            n = dom.shape.n_el
            sel = np.sort(rng.permutation(n)[:rng.randint(1, n)])
            return dom.create_region('Sub', 'cell ' + ', '.join(map(str, sel)))
        if integration == 'point':
            n = dom.shape.n_nod
            sel = np.sort(rng.permutation(n)[:rng.randint(1, min(4, n) + 1)])
            return dom.create_region('Pts', 'vertex ' + ', '.join(map(str, sel)), 'vertex')
        if rng.rand() < 0.5 or dom.shape.dim == 1:
            return dom.create_region('Gamma', 'vertices of surface', 'facet')
        from .p.C06 import facets_region
        surf = np.asarray(dom.cmesh.get_surface_facets())
        sel = np.sort(rng.permutation(surf)[:rng.randint(1, len(surf) + 1)])
        reg = facets_region(dom, sel, 'Part')
        dom.regions.append(reg)
        return reg

    # -- assembling -------------------------------------------------------
    def setup(self, ts=None):
        from sfepy.discrete import Equation, Equations
        from sfepy.terms import Term
        eqs = [Equation('e', self.term)]
        test = [v for v in self.vars.values() if v.is_virtual()][0]
        self.test = test
        if self.fake is not None:
            z = Term.new('dw_zero(%s, x_fake)' % test.name, self.integral, self.omega,
                         **{test.name: test, 'x_fake': self.fake})
            eqs.append(Equation('z', z))
        from sfepy.discrete import FieldVariable
        for v in self.states():
            # Complete the system by equations for all unknowns.
            if v.name != test.primary_var_name:
                w = FieldVariable('y_' + v.name, 'test', v.field, primary_var_name=v.name)
                z = Term.new('dw_zero(%s, %s)' % (w.name, v.name), self.integral, self.omega,
                             **{w.name: w, v.name: v})
                eqs.append(Equation('z_' + v.name, z))
        self.eqs = Equations(eqs)
        self.eqs.time_update(ts, None, None, None, None, None)
        self.eqs.time_update_materials(ts, verbose=False)
        self.eqs.init_state()
        self.V = self.eqs.variables
        self.n = self.V.adi.n_dof_total if hasattr(self.V, 'adi') else self.V.di.n_dof_total
        return self

    def vec(self):
        return self.V.di.n_dof_total

    def residual(self, x):
        return self.eqs.eval_residuals(np.array(x))

    def matrix(self, x, any_dof_conn=True):
        mtx = self.eqs.create_matrix_graph(any_dof_conn=any_dof_conn)
        if mtx is None:
            return None
        return self.eqs.eval_tangent_matrices(np.array(x), mtx)

    def indx(self, var):
        return self.V.di.indx[var.name]

    def states(self):
        return [v for v in self.vars.values() if v.is_state()]

    def set_params(self, rng, scale=1.0, smooth=()):
        for t, v in self.vars.items():
            if v.is_parameter():
                x = rng.randn(v.n_dof) * scale
                if v.dtype == np.complex128:
                    x = x + 1j * rng.randn(v.n_dof) * scale
                v.set_data(x)

def random_raw(rng, g, small=True):
    if g[0] == '3':
        size = [[2, 2, 2], [3, 2, 2], [2, 2, 3]][rng.randint(3)]
        return gen.raw_mesh(rng, g, size=size, jitter=0.15)
    if g[0] == '2':
        return gen.raw_mesh(rng, g, size=[3, 3] if rng.rand() < 0.6 else [4, 3], jitter=0.2)
    return gen.raw_mesh(rng, g, size=int(rng.randint(4, 7)), jitter=0.2)
