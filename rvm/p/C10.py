"""
C10: global assembly.

Monitor: residuals and matrices assembled by the real `Equations` for generated
systems (several scalar/vector unknowns, fields on sub-regions, cell, facet,
point and trace terms, nonlinear and time derivative terms, real and complex,
multipliers and right-hand sides written in the equation text, essential and
periodic conditions) are observed.  Oracle: element contributions of every
term, observed one by one on separate unsigned term objects, scattered with
the element connectivities by an own numbering, weighted by the known multipliers and
restricted by an own constraint operator.  On the same systems: blocks, terms
and selections of terms, assembling in any order and repeatedly, permuted
equations and terms, split regions, permuted variables, renumbered meshes,
chunked graphs, full (not reduced) matrices have to give the same numbers, and
all nonzeros have to be in the pattern created in advance.
"""
import numpy as np
import scipy.sparse as sps
from .. import gen
from ..core import Inconclusive
from .C06 import facets_region

REQUIRED = ['residual', 'matrix', 'pattern', 'repeat', 'by_blocks', 'by_terms',
            'select', 'permuted', 'split', 'renumbered', 'chunks', 'full',
            'reduced_vec', 'bsearch', 'complex', 'trace', 'eval_sum', 'sensitivity',
            'periodic', 'subequations', 'callback', 'shared', 'order']
ASSUMPTIONS = ['element contributions themselves are decided by C08 and C09',
               'up to 4 unknowns, meshes of up to 100 cells']

GEOMS = ['1_2', '2_3', '2_4', '3_4', '3_8']

def cases(rng, tier):
    out = []
    n = 60 if tier == 'quick' else 700
    for i in range(n):
        g = GEOMS[i % 5]
        out.append(dict(kind='system', mesh=g, dtype='complex' if i % 4 == 3 else 'real',
                        bc=['none', 'ebc', 'epbc', 'both'][rng.randint(4)],
                        cost=4 if g[0] == '3' else 2))
    for i in range(12 if tier == 'quick' else 120):
        out.append(dict(kind='trace', mesh=GEOMS[1 + i % 4]))
    for i in range(10 if tier == 'quick' else 100):
        out.append(dict(kind='renumber', mesh=GEOMS[i % 5]))
    for i in range(6 if tier == 'quick' else 60):
        out.append(dict(kind='big', mesh=['3_8', '3_4', '2_4'][i % 3], cost=8))
        out.append(dict(kind='sens', mesh=['2_3', '2_4', '3_4'][i % 3], cost=8))
    for i in range(8 if tier == 'quick' else 60):
        out.append(dict(kind='shared', mesh=GEOMS[i % 5]))
    for i in range(6 if tier == 'quick' else 40):
        out.append(dict(kind='order'))
    return out

# -- system generator ------------------------------------------------------
def domain(rng, g, periodic):
    if g == '1_2':
        size = int(rng.randint(4, 8))
    elif g[0] == '2':
        size = [int(rng.randint(3, 5)), int(rng.randint(3, 5))]
    else:
        size = [int(rng.randint(3, 5)), 2, 2]
    if periodic:
        raw = gen.raw_mesh(rng, g, size=size, jitter=0.0, affine=False)
    else:
        raw = gen.raw_mesh(rng, g, size=size, jitter=0.15)
    return raw

class System:
    """Fields, variables, regions and materials to be used by terms."""

    def __init__(self, rng, raw, g, dtype, order_names=None, orders=None, part=None,
                 only=None, neg=False):
        from sfepy.discrete import FieldVariable, Material, Integrals, Integral
        from sfepy.discrete import Variables, Materials
        from sfepy.discrete.fem import Field
        self.raw = raw
        self.dom = dom = gen.to_domain(raw)
        self.dim = dim = dom.shape.dim
        self.npdt = np.complex128 if dtype == 'complex' else np.float64
        n = dom.shape.n_el
        self.part = part if part is not None else \
            np.sort(rng.permutation(n)[:rng.randint(1, max(n, 2))])
        rest = np.setdiff1d(np.arange(n), self.part)
        sel = lambda ids: 'cell ' + ', '.join(map(str, ids))
        R = dom.create_region
        self.omega = R('Omega', 'all')
        R('Om1', sel(self.part))
        R('Om2', sel(rest))
        R('Gam', 'vertices of surface', 'facet')
        self.facets = dim > 1
        if self.facets:
            surf = np.asarray(dom.cmesh.get_surface_facets())
            k = rng.randint(1, len(surf))
            perm = rng.permutation(surf)
            for nm_, s in (('Gam1', perm[:k]), ('Gam2', perm[k:])):
                dom.regions.append(facets_region(dom, np.sort(s), nm_))
        nv = dom.shape.n_nod
        pts = np.sort(rng.permutation(nv)[:rng.randint(1, 4)])
        R('Pts', 'vertex ' + ', '.join(map(str, pts)), 'vertex')
        om = {r: dom.regions[r] for r in ('Omega', 'Om1')}
        mo = 2 if g != '3_8' else 1
        if orders is None:
            orders = [int(rng.randint(1, 3)), int(rng.randint(1, mo + 1)), int(rng.randint(1, 3))]
        self.orders = orders
        fa = lambda nm_, nc, reg, o: Field.from_args(nm_, self.npdt, (nc,), om[reg],
                                                     approx_order=o)
        self.fields = F = {'fu': fa('fu', 1, 'Omega', orders[0]),
                           'fv': fa('fv', dim, 'Omega', orders[1]),
                           'fw': fa('fw', 1, 'Om1', orders[2])}
        spec = [('u', 'fu'), ('p', 'fu'), ('v', 'fv'), ('w', 'fw')]
        if only is not None:
            spec = [s for s in spec if s[0] in only]
        elif rng.rand() < 0.6:
            k = rng.randint(2, 4)
            spec = [spec[i] for i in sorted(rng.permutation(4)[:k])]
        self.spec = spec
        order = list(range(len(spec)))
        if order_names is not None:
            order = [order_names.index(s[0]) for s in spec]
        elif rng.rand() < 0.7:
            order = [int(i) for i in rng.permutation(len(spec))]
        else:
            order = [None] * len(spec)
        self.order = order
        vs = []
        for (nm_, f), o in zip(spec, order):
            vs.append(FieldVariable(nm_, 'unknown', F[f], order=o, history=1))
            vs.append(FieldVariable('t' + nm_, 'test', F[f], primary_var_name=nm_))
        vs.append(FieldVariable('pu', 'parameter', F['fu'], primary_var_name='(set-to-None)'))
        vs.append(FieldVariable('pv', 'parameter', F['fv'], primary_var_name='(set-to-None)'))
        self.vars = Variables(vs)
        for nm_ in ('pu', 'pv'):
            v = self.vars[nm_]
            v.set_data(self.rand(rng, v.n_dof))
        d = dim
        s = d * (d + 1) // 2
        val = dict(c=1.5, k=0.7, b=rng.rand(d, 1), K=rng.rand(d, d) + np.eye(d),
                   D=rng.rand(s, s) + np.eye(s), A=rng.rand(s, 1), f=0.3, p=1.1,
                   alpha=0.4, val=2.0, s=rng.rand(s, 1))
        self.matvals = val
        self.mat = Material('m', values={'c': 1.5, **{k: x for k, x in val.items()
                                                                 if k not in ('c',)}})
        self.mats = Materials([self.mat, Material('ml', values={'.p': 0.9})])
        self.ints = Integrals([Integral('i', order=2), Integral('i3', order=3)])
        self.user = dict(fun=lambda x: x**2 + x, dfun=lambda x: 2 * x + 1.0)
        from sfepy.solvers.ts import TimeStepper
        self.ts = TimeStepper(0.0, 1.0, 0.25, 5)
        self.ts.set_step(1)
        self.ts0 = TimeStepper(0.0, 1.0, 0.25, 5)

    def rand(self, rng, n):
        x = rng.randn(n)
        return x + 1j * rng.randn(n) if self.npdt == np.complex128 else x

    def term_pool(self):
        """(text without multiplier, test, region) of possible terms."""
        names = [s[0] for s in self.spec]
        sc = [n for n in names if n in 'upw']
        cplx = self.npdt == np.complex128
        out = []
        for a in sc:
            for b in sc:
                regs = ['Om1'] if 'w' in (a, b) else ['Omega', 'Om1', 'Om2']
                for r in regs:
                    same = (a == 'w') == (b == 'w') or self.orders[0] == self.orders[2]
                    out += [(t % dict(r=r, a=a, b=b), a, r) for t in (
                        'dw_dot.i.%(r)s(m.c, t%(a)s, %(b)s)', 'dw_laplace.i.%(r)s(m.k, t%(a)s, %(b)s)',
                        'dw_diffusion.i3.%(r)s(m.K, t%(a)s, %(b)s)',
                        'dw_dot.i.%(r)s(t%(a)s, %(b)s)',
                        'dw_dot.i.%(r)s(m.c, t%(a)s, d%(b)s/dt)',
                        'dw_advect_div_free.i.%(r)s(m.b, t%(a)s, %(b)s)')
                        if same or not t.startswith(('dw_laplace', 'dw_diffusion'))]
                if not (a == 'w' or b == 'w') and self.facets:
                    for r in ('Gam', 'Gam1', 'Gam2'):
                        out += [('dw_dot.i.%s(m.c, t%s, %s)' % (r, a, b), a, r),
                                ('dw_bc_newton.i.%s(m.alpha, m.val, t%s, %s)' % (r, a, b), a, r)]
            r = 'Om1' if a == 'w' else 'Omega'
            out += [('dw_volume_lvf.i.%s(m.f, t%s)' % (r, a), a, r),
                    ('dw_integrate.i.%s(m.f, t%s)' % (r, a), a, r)]
            if a != 'w':
                out += [('dw_point_load.0.Pts(ml.p, t%s)' % a, a, 'Pts'),
                        ('dw_dot.i.Omega(m.c, t%s, pu)' % a, a, 'Omega')]
                if self.facets:
                    out += [('dw_integrate.i.Gam1(m.f, t%s)' % a, a, 'Gam1')]
            if not cplx:
                out += [('dw_volume_nvf.i3.%s(fun, dfun, t%s, %s)' % (r, a, a), a, r)]
        if 'v' in names:
            for r in ('Omega', 'Om1', 'Om2'):
                out += [(t % r, 'v', r) for t in (
                    'dw_lin_elastic.i.%s(m.D, tv, v)', 'dw_dot.i.%s(m.c, tv, v)',
                    'dw_div_grad.i.%s(m.k, tv, v)', 'dw_dot.i.%s(m.c, tv, dv/dt)',
                    'dw_lin_convect.i3.%s(tv, pv, v)')]
                if not cplx:
                    out += [('dw_convect.i3.%s(tv, v)' % r, 'v', r)]
            if self.facets:
                out += [('dw_surface_ltr.i.%s(m.s, tv)' % r, 'v', r) for r in ('Gam', 'Gam1')]
                out += [('dw_dot.i.Gam2(m.c, tv, v)', 'v', 'Gam2')]
            for q in sc:
                r = 'Om1' if q == 'w' else 'Omega'
                if q == 'w':
                    continue
                out += [('dw_stokes.i.%s(tv, %s)' % (r, q), 'v', r),
                        ('dw_stokes.i.%s(v, t%s)' % (r, q), q, r),
                        ('dw_biot.i.%s(m.A, tv, %s)' % (r, q), 'v', r),
                        ('dw_biot.i.%s(m.A, v, t%s)' % (r, q), q, r),
                        ('dw_v_dot_grad_s.i.%s(m.c, tv, %s)' % (r, q), 'v', r),
                        ('dw_vm_dot_s.i.%s(m.b, v, t%s)' % (r, q), q, r)]
                if not cplx:
                    out += [('dw_convect_v_grad_s.i3.%s(t%s, v, %s)' % (r, q, q), q, r)]
        return out

    def base(self):
        out = []
        for nm_, f in self.spec:
            r = 'Om1' if nm_ == 'w' else 'Omega'
            out.append(('dw_dot.i.%s(m.c, t%s, %s)' % (r, nm_, nm_), nm_, r))
        return out

    def pick(self, rng, n):
        pool = self.term_pool()
        terms = self.base() + [pool[i] for i in rng.permutation(len(pool))[:n]]
        if rng.rand() < 0.5:
            terms.append(terms[rng.randint(len(terms))])       # a repeated term
        return terms

    def equations(self, conf, ts=None):
        from sfepy.discrete import Equations
        return Equations.from_conf(conf, self.vars, self.dom.regions, self.mats, self.ints,
                                   user=self.user, allow_derivatives=False, verbose=False)

    def start(self, eqs, ebcs=None, epbcs=None, functions=None, **kw):
        eqs.time_update(self.ts, ebcs, epbcs, None, functions, verbose=False, **kw)
        eqs.time_update_materials(self.ts, verbose=False)
        eqs.variables.init_history()
        eqs.init_state()
        # The previous step.
        h = eqs.create_vec()
        for v in eqs.variables.iter_state():
            h[eqs.variables.di.indx[v.name]] = np.cos(np.arange(v.n_dof) + ord(v.name))
        eqs.set_state(h, force=True)
        eqs.advance(self.ts0)
        return eqs

    def single(self, text, eqs):
        """A separate term object for `text`."""
        from sfepy.discrete.equations import Equation
        eq = Equation.from_desc('x', text, self.vars,
                                self.dom.regions, self.mats, self.ints, user=self.user,
                                allow_derivatives=False)
        return eq.terms[0]

def mult(rng, dtype):
    """A multiplier: text and value."""
    k = rng.randint(8)
    if dtype == 'complex' and k < 3:
        return [('2.0j *', 2j), ('(1.0 + 2.0j) *', 1 + 2j), ('- 0.5j *', -0.5j)][k]
    return [('', 1.0), ('', 1.0), ('2.0 *', 2.0), ('(1 - 3) *', -2.0), ('1e-1 *', 0.1),
            ('-', -1.0), ('- 2.5 *', -2.5), ('0.5 *', 0.5)][k]

def write(rng, items):
    """An equation text from [(text, multiplier text, value)], some terms on the right."""
    lhs, rhs = [], []
    for i, (t, ms, m) in enumerate(items):
        right = i > 0 and rng.rand() < 0.3
        if right:
            m2 = -m
            s = '%r * %s' % (m2, t) if not isinstance(m2, complex) else \
                '(%r + %rj) * %s' % (m2.real, m2.imag, t)
            rhs.append(s if s[0] == '-' else '+ ' + s)
        else:
            s = '%s %s' % (ms, t) if ms else t
            if lhs and ms[:1] not in ('-', '+'):
                s = '+ ' + s
            lhs.append(s)
    sep = ['\n', ' ', '\n    ', '  '][rng.randint(4)]
    txt = sep.join(lhs)
    if rhs:
        r = sep.join(rhs)
        txt += ' = ' + (r[2:] if r.startswith('+ ') and rng.rand() < 0.5 else r)
    elif rng.rand() < 0.7:
        txt += ' = 0'
    return txt

def econn_of(field, term, region, dct):
    field_conn = np.asarray(field.get_econn(dct, region))
    if dct == 'cell' and field.region.name == 'Omega':
        own = np.asarray(field.econn)[region.cells]
        if own.shape != field_conn.shape or (own != field_conn).any():
            raise AssertionError('connectivity of a sub-region')
    return field_conn

def dofs_of(field, conn):
    nc = field.n_components
    return np.concatenate([conn * nc + c for c in range(nc)], axis=1)

class Oracle:
    """Full (not reduced) residual and matrix by own scattering."""

    def __init__(self, S, eqs, names):
        self.S, self.eqs = S, eqs
        self.off, n = {}, 0
        for nm_ in names:
            v = S.vars[nm_]
            self.off[nm_] = n
            n += v.field.n_nod * v.field.n_components
        self.n = n
        self.cache = {}

    def term(self, text):
        if text not in self.cache:
            t = self.S.single(text, self.eqs)
            t.time_update(self.S.ts)
            self.cache[text] = t
        return self.cache[text]

    def dofs(self, t, var, nm_):
        f = var.field
        dct = t.get_dof_conn_type(var.name)
        tr = t.arg_trace_regions.get(var.name)
        if tr is not None:
            conn = np.asarray(f.get_econn(dct, t.region, tr))
        else:
            conn = econn_of(f, t, t.region, dct)
        return dofs_of(f, conn) + self.off[nm_]

    def residual(self, text):
        t = self.term(text)
        val, iels, status = t.evaluate(mode='weak', standalone=False, ret_status=True)
        vv = t.get_virtual_variable()
        d = self.dofs(t, vv, vv.primary_var_name)
        r = np.zeros(self.n, dtype=self.S.npdt)
        np.add.at(r, d[iels], val[:, 0, :, 0])
        return r

    def matrix(self, text):
        t = self.term(text)
        vv = t.get_virtual_variable()
        rd = self.dofs(t, vv, vv.primary_var_name)
        A = np.zeros((self.n, self.n), dtype=self.S.npdt)
        for sv in t.get_state_variables(unknown_only=True):
            val, iels, status = t.evaluate(mode='weak', diff_var=sv.name, standalone=False,
                                           ret_status=True)
            cd = self.dofs(t, sv, sv.name)
            k = 1.0
            if t.arg_derivatives[sv.name] == 'dt':
                k = 1.0 / self.S.ts.dt
            np.add.at(A, (rd[iels][:, :, None], cd[iels][:, None, :]), k * val[:, 0])
        return A

def order_of(eqs):
    di = eqs.variables.di
    return sorted(di.var_names, key=lambda n: di.indx[n].start)

def dense(A):
    return np.asarray(A.todense()) if sps.issparse(A) else np.asarray(A)

def build_bcs(rng, S, names, which):
    """Conditions and the constraint x = P y + g of full vectors (own)."""
    from sfepy.discrete import Functions, Function
    from sfepy.discrete.conditions import Conditions, EssentialBC, PeriodicBC
    dom = S.dom
    ebcs, epbcs = [], []
    ms = {}           # full dof -> full dof (periodic master -> slave)
    fixed = {}
    off, n = {}, 0
    for nm_ in names:
        v = S.vars[nm_]
        off[nm_] = n
        n += v.field.n_nod * v.field.n_components
    funs = []
    if which in ('epbc', 'both'):
        X = np.asarray(dom.mesh.coors)
        lo, hi = X.min(0), X.max(0)
        eps = 1e-6 * (hi - lo).max()
        ax = int(rng.randint(S.dim))
        # Regions of the two opposite sides.
        for nm_, val in (('Lo', lo[ax]), ('Hi', hi[ax])):
            ids = np.where(abs(X[:, ax] - val) < eps)[0]
            dom.create_region(nm_, 'vertex ' + ', '.join(map(str, ids)),
                              'facet' if S.dim > 1 else 'vertex')

        def match(c1, c2):
            i1 = np.lexsort(np.round(np.delete(c1, ax, 1), 6).T) if S.dim > 1 else np.arange(len(c1))
            i2 = np.lexsort(np.round(np.delete(c2, ax, 1), 6).T) if S.dim > 1 else np.arange(len(c2))
            return i1, i2
        funs.append(Function('match', match))
        for k, nm_ in enumerate(names):
            f = S.vars[nm_].field
            if f.region.name != 'Omega' or rng.rand() < 0.4:
                continue
            nc = f.n_components
            comp = int(rng.randint(nc)) if (nc > 1 and rng.rand() < 0.4) else None
            spec = '%s.%s' % (nm_, 'all' if comp is None else comp)
            epbcs.append(PeriodicBC('per%d' % k, [dom.regions['Lo'], dom.regions['Hi']],
                                    {spec: spec}, 'match', key='epbc_%d' % k))
            Y = np.asarray(f.get_coor())
            a = np.where(abs(Y[:, ax] - lo[ax]) < eps)[0]
            b = np.where(abs(Y[:, ax] - hi[ax]) < eps)[0]
            for i in a:
                d = abs(np.delete(Y[b] - Y[i], ax, 1)).max(1) if S.dim > 1 else np.zeros(len(b))
                j = b[int(np.argmin(d))]
                for c in (range(nc) if comp is None else [comp]):
                    ms[off[nm_] + i * nc + c] = off[nm_] + j * nc + c
    if which in ('ebc', 'both'):
        for k, nm_ in enumerate(names):
            f = S.vars[nm_].field
            if rng.rand() < 0.3:
                continue
            nc = f.n_components
            rn = ['Pts', 'Gam1' if S.facets else 'Gam'][rng.randint(2)]
            reg = dom.regions[rn]
            comp = int(rng.randint(nc)) if (nc > 1 and rng.rand() < 0.5) else None
            val = float(rng.randint(-3, 4))
            ebcs.append(EssentialBC('fix%d' % k, reg,
                                    {'%s.%s' % (nm_, 'all' if comp is None else comp): val},
                                    key='ebc_%d' % k))
            Y = np.asarray(f.get_coor())
            nods = f.get_dofs_in_region(reg)
            for i in np.unique(nods):
                if i < 0:
                    continue
                for c in (range(nc) if comp is None else [comp]):
                    fixed[off[nm_] + int(i) * nc + c] = val
        for m, s in ms.items():
            if m in fixed:
                fixed[s] = fixed[m]
        for m, s in ms.items():
            if s in fixed:
                fixed[m] = fixed[s]
    root = np.arange(n)
    for m, s in ms.items():
        root[m] = s
    free = [i for i in range(n) if i not in fixed and root[i] == i]
    pos = {d: k for k, d in enumerate(free)}
    P = np.zeros((n, len(free)))
    g = np.zeros(n)
    for i in range(n):
        if i in fixed:
            g[i] = fixed[i]
        else:
            P[i, pos[int(root[i])]] = 1.0
    return (Conditions(ebcs) if ebcs else None, Conditions(epbcs) if epbcs else None,
            Functions(funs), P, g, len(ms), len(fixed))

def by_test(rng, S, items):
    """Group the terms into equations."""
    groups = {}
    for it in items:
        groups.setdefault(it[0][1], []).append(it)
    names = list(groups)
    rng.shuffle(names)
    conf, where = {}, {}
    if rng.rand() < 0.3:
        # Several equations for one test function.
        for nm_ in names:
            gr = groups[nm_]
            k = rng.randint(1, len(gr) + 1)
            for j, part in enumerate((gr[:k], gr[k:])):
                if part:
                    conf['e_%s_%d' % (nm_, j)] = part
    else:
        for nm_ in names:
            conf['e_' + nm_] = groups[nm_]
    return conf

def texts(rng, conf):
    return {k: write(rng, [(it[0][0], it[1], it[2]) for it in v]) for k, v in conf.items()}

def observe(eqs, x, order='rm', any_dof=True):
    """Residual, matrix (and its pattern) assembled by the code."""
    mtx = eqs.create_matrix_graph(any_dof_conn=any_dof, verbose=False)
    out = {}
    for o in order:
        if o == 'r':
            out['r'] = np.array(eqs.eval_residuals(x))
        else:
            out['A'] = eqs.eval_tangent_matrices(x, mtx)
    return out['r'], out['A'].copy(), mtx

def run_system(mon, case):
    rng = gen.rngof(case)
    raw = domain(rng, case['mesh'], case['bc'] in ('epbc', 'both'))
    S = System(rng, raw, case['mesh'], case['dtype'])
    dt = case['dtype']
    items = []
    for t in S.pick(rng, int(rng.randint(3, 14))):
        ms, m = mult(rng, dt)
        items.append((t, ms, m))
    conf = by_test(rng, S, items)
    txt = texts(rng, conf)
    eqs = S.equations(txt)
    names = order_of(eqs)
    if S.order[0] is not None:
        exp = [s[0] for _, s in sorted(zip(S.order, S.spec))]
        mon.equal('order', names, exp, 'order of variables')
    ebcs, epbcs, funs, P, g, n_per, n_fix = build_bcs(rng, S, names, case['bc'])
    S.start(eqs, ebcs, epbcs, funs)
    O = Oracle(S, eqs, names)
    n = O.n
    mon.equal('size', (eqs.variables.di.n_dof_total, eqs.variables.adi.n_dof_total),
              (n, P.shape[1]), 'numbers of DOFs')
    if n_per:
        mon.event('periodic')
    y = S.rand(rng, P.shape[1])
    x = P @ y + g
    full = np.asarray(eqs.make_full_vec(y.copy()))
    mon.close('reduced_vec', full, x, rtol=1e-13, msg='make_full_vec')
    mon.close('reduced_vec', np.asarray(eqs.reduce_vec(x)), y, rtol=1e-13, msg='reduce_vec')
    if not P.shape[1]:
        mon.event('all fixed')
        return
    order = ['rm', 'mr', 'rmrm', 'mmr'][rng.randint(4)]
    r, A, mtx = observe(eqs, x, order)
    if dt == 'complex':
        mon.event('complex')
        mon.ok('dtype', r.dtype == np.complex128 and A.dtype == np.complex128,
               'dtype of a complex problem')
    eqs.set_state(x, force=True)
    # Own assembling.
    rf = np.zeros(n, dtype=S.npdt)
    Af = np.zeros((n, n), dtype=S.npdt)
    parts_r, parts_A = {}, {}
    scale_r = np.zeros(n)
    scale_A = np.zeros((n, n))
    for t, ms, m in items:
        if t[0] not in parts_r:
            parts_r[t[0]] = O.residual(t[0])
            parts_A[t[0]] = O.matrix(t[0])
        rf += m * parts_r[t[0]]
        Af += m * parts_A[t[0]]
        scale_r += abs(m * parts_r[t[0]])
        scale_A += abs(m * parts_A[t[0]])
    sr, sA = max(scale_r.max(), 1e-12), max(scale_A.max(), 1e-12)
    mon.sig(case['mesh'], tuple(sorted(t[0][0] for t in items)), case['bc'])
    rr, Ar = P.T @ rf, P.T @ Af @ P
    mon.close('residual', r, rr, rtol=1e-11, scale=sr, msg='assembled residual\n%s' % txt)
    mon.close('matrix', dense(A), Ar, rtol=1e-11, scale=sA, msg='assembled matrix\n%s' % txt)
    pat = np.zeros(mtx.shape, dtype=bool)
    co = mtx.tocoo()
    pat[co.row, co.col] = True
    mon.ok('pattern', not ((abs(Ar) > 1e-12 * sA) & ~pat).any(), 'nonzeros outside of the pattern')
    mon.ok('pattern', mtx.has_canonical_format and len(set(zip(co.row.tolist(), co.col.tolist())))
           == mtx.nnz, 'the pattern has repeated entries')
    # Repeated.
    r2 = np.array(eqs.eval_residuals(x.copy()))
    A2 = eqs.eval_tangent_matrices(x.copy(), mtx)
    mon.ok('repeat', np.array_equal(r, r2) and np.array_equal(dense(A), dense(A2)),
           'assembling repeated in the same state differs')
    mon.ok('repeat', np.array_equal(np.asarray(eqs.variables()), x), 'state changed by assembling')
    # Assembled with own vector/matrix objects, adding.
    acc = np.ones(P.shape[1], dtype=S.npdt)
    eqs.evaluate(mode='weak', dw_mode='vector', asm_obj=acc)
    mon.close('repeat', acc, rr + 1.0, rtol=1e-11, scale=sr, msg='assembling adds')
    # Full residual -> reduced.
    mon.close('reduced_vec', np.asarray(eqs.reduce_vec(rf, follow_epbc=True)), rr, rtol=1e-11,
              scale=sr, msg='reduce_vec(follow_epbc)')
    # By terms.
    roff = {nm_: eqs.variables.adi.indx[nm_] for nm_ in names}
    bt = eqs.eval_residuals(x, by_terms=True)
    btA = eqs.eval_tangent_matrices(x, mtx, by_terms=True)
    expk = {(k, i) for k, v in conf.items() for i in range(len(v))}
    mon.equal('by_terms', set(bt), expk, 'keys')
    for k, v in conf.items():
        # The order of terms: left-hand side first.
        for i, t in enumerate(eqs[k].terms):
            txt_i = None
            for it in v:
                if same_term(t, it[0][0]):
                    txt_i = it
            if txt_i is None:
                continue
            ms = [it[2] for it in v if it[0][0] == txt_i[0][0]]
            cand = [P.T @ (m * parts_r[txt_i[0][0]]) for m in ms]
            got = np.asarray(bt[(k, i)])
            ref = [c[roff[txt_i[0][1]]] for c in cand]
            errs = [abs(got - c).max(initial=0) for c in ref]
            mon.close('by_terms', got, ref[int(np.argmin(errs))], rtol=1e-11, scale=sr,
                      msg='residual of a term %s in\n%s' % (txt_i[0][0], txt[k]))
            candA = [(P.T @ (m * parts_A[txt_i[0][0]]) @ P)[roff[txt_i[0][1]]] for m in ms]
            got = dense(btA[(k, i)])
            errs = [abs(got - c).max(initial=0) for c in candA]
            mon.close('by_terms', got, candA[int(np.argmin(errs))], rtol=1e-11, scale=sA,
                      msg='matrix of a term %s in\n%s' % (txt_i[0][0], txt[k]))
    tot = np.zeros(P.shape[1], dtype=S.npdt)
    for (k, i), val in bt.items():
        tot[roff[eqs[k].terms[i].get_virtual_variable().primary_var_name]] += val
    mon.close('by_terms', tot, rr, rtol=1e-11, scale=sr, msg='sum over terms')
    # Selected terms.
    pickn = items[rng.randint(len(items))][0][0].split('.')[0]
    rs = np.array(eqs.eval_residuals(x, select_term=lambda t: t.name == pickn))
    As = eqs.eval_tangent_matrices(x, mtx, select_term=lambda t: t.name == pickn)
    er = sum(m * parts_r[t[0]] for t, ms, m in items if t[0].split('.')[0] == pickn)
    eA = sum(m * parts_A[t[0]] for t, ms, m in items if t[0].split('.')[0] == pickn)
    mon.close('select', rs, P.T @ er, rtol=1e-11, scale=sr, msg='select_term residual')
    mon.close('select', dense(As), P.T @ eA @ P, rtol=1e-11, scale=sA, msg='select_term matrix')
    # A callback instead of assembling.
    seen = []

    def callback(equation, it, term, asm_obj, vals, iels, mode='vector', diff_var=None):
        seen.append(equation.terms[it] is term)
        return term.assemble_to(asm_obj, vals, iels, mode=mode, diff_var=diff_var)
    rc = np.array(eqs.eval_residuals(x, assemble=callback))
    mon.ok('callback', np.array_equal(rc, r) and len(seen) == len(items), 'assemble callback')
    eqs.eval_tangent_matrices(x, mtx, assemble=callback, select_term=lambda t: t.name == pickn)
    mon.ok('callback', all(seen), 'the order of terms passed to a callback')
    # Matrix in the full numbering.
    full_matrix(mon, S, txt, ebcs, epbcs, funs, x, P, g, Af, rf, sA, sr)
    # Chunks.
    eqs2 = S.start(S.equations(txt), ebcs, epbcs, funs)
    m1 = eqs2.create_matrix_graph(any_dof_conn=True, chunk_size=int(rng.randint(1, 6)),
                                  verbose=False)
    mon.ok('chunks', np.array_equal(m1.indptr, mtx.indptr) and
           np.array_equal(m1.indices, mtx.indices), 'graph assembled by chunks')
    m2 = eqs2.create_matrix_graph(verbose=False)
    A3 = eqs2.eval_tangent_matrices(x, m2)
    mon.close('pattern', dense(A3), Ar, rtol=1e-11, scale=sA, msg='graph by default')
    # Written differently.
    permute(mon, rng, S, items, ebcs, epbcs, funs, x, rr, Ar, sr, sA, dt, names)
    blocks(mon, rng, S, items, ebcs, epbcs, funs, x, P, parts_r, parts_A, sr, sA)
    subeqs(mon, rng, S, items, txt, x, parts_r, parts_A, O, sr, sA)
    eval_sum(mon, rng, S)

def same_term(t, text):
    nm_ = text.split('(')[0].split('.')
    if t.name != nm_[0] or t.region.name != nm_[2] or t.integral.name != nm_[1]:
        return False
    args = [a.strip() for a in text.split('(')[1].rstrip(')').split(',')]
    return [a.strip() for a in t.arg_str.split(',')] == args

def full_matrix(mon, S, txt, ebcs, epbcs, funs, x, P, g, Af, rf, sA, sr):
    eqs = S.start(S.equations(txt), ebcs, epbcs, funs, active_only=False)
    mtx = eqs.create_matrix_graph(any_dof_conn=True, active_only=False, verbose=False)
    n = len(x)
    mon.equal('full', tuple(mtx.shape), (n, n), 'size of the full matrix')
    A = dense(eqs.eval_tangent_matrices(x, mtx))
    r = np.array(eqs.eval_residuals(x))
    # Rows and columns of periodic masters are moved to slaves, those of fixed are empty.
    R = P.sum(0)
    slave = [int(np.where(P[:, j])[0][-1]) for j in range(P.shape[1])]
    eqm = {}
    for nm_ in eqs.variables.di.var_names:
        v = eqs.variables[nm_]
        o = eqs.variables.di.indx[nm_].start
        for i, e in enumerate(np.asarray(v.eq_map.eqi) + 0):
            eqm[o + int(e)] = True
    act = np.array(sorted(eqm), dtype=int)
    Q = np.zeros((n, P.shape[1]))
    if len(act) != P.shape[1]:
        # The reduced numbering of active DOFs is not given here.
        act = np.array([i for i in range(n) if P[i].any() and
                        abs(A[i]).max(initial=0) + abs(A[:, i]).max(initial=0) > 0])
    order = [int(np.argmax(P[i])) for i in act]
    if len(act) == P.shape[1] and sorted(order) == list(range(len(order))):
        ref = (P.T @ Af @ P)[np.ix_(order, order)]
        mon.close('full', A[np.ix_(act, act)], ref, rtol=1e-11, scale=sA,
                  msg='full matrix, active part\n%s' % txt)
        mon.close('full', r[act], (P.T @ rf)[order], rtol=1e-11, scale=sr, msg='full residual')
        rest = np.setdiff1d(np.arange(n), act)
        mon.ok('full', not A[rest].any() and not A[:, rest].any() and not r[rest].any(),
               'entries of constrained DOFs in the full matrix')
    else:
        mon.inconclusive('active DOFs of the full matrix')

def split_items(rng, S, items, dt):
    """The same forms written with regions split into disjoint parts."""
    out = []
    for t, ms, m in items:
        txt, test, r = t
        parts = None
        if r == 'Omega' and rng.rand() < 0.6:
            parts = ['Om1', 'Om2']
        elif r == 'Gam' and S.facets and rng.rand() < 0.6:
            parts = ['Gam1', 'Gam2']
        if parts is None:
            out.append((t, ms, m))
        else:
            for q in parts:
                out.append(((txt.replace('.%s(' % r, '.%s(' % q), test, q), ms, m))
    return out

def permute(mon, rng, S, items, ebcs, epbcs, funs, x, rr, Ar, sr, sA, dt, names):
    for kind in ('permuted', 'split'):
        its = list(items)
        if kind == 'split':
            its = split_items(rng, S, its, dt)
            if len(its) == len(items):
                continue
        its = [its[i] for i in rng.permutation(len(its))]
        # Multipliers written as repeated terms.
        if rng.rand() < 0.5:
            k = rng.randint(len(its))
            t, ms, m = its[k]
            c = 0.25
            its[k] = (t, '%r *' % (m - c) if not isinstance(m, complex) else
                      '(%r + %rj) *' % (m.real - c, m.imag), m - c)
            its.append((t, '%r *' % c, c))
        txt = texts(rng, by_test(rng, S, its))
        eqs = S.start(S.equations(txt), ebcs, epbcs, funs)
        nn = order_of(eqs)
        r, A, mtx = observe(eqs, reorder(S, x, names, nn), ['rm', 'mr'][rng.randint(2)])
        q = index(S, eqs, names, nn)
        mon.close(kind, r, rr[q], rtol=1e-11, scale=sr, msg='residual of equations written as\n%s' % txt)
        mon.close(kind, dense(A), Ar[np.ix_(q, q)], rtol=1e-11, scale=sA, msg='matrix')

def sizes(S, names):
    return {nm_: S.vars[nm_].field.n_nod * S.vars[nm_].field.n_components for nm_ in names}

def reorder(S, x, names, nn):
    sz, o, out = sizes(S, names), 0, {}
    for nm_ in names:
        out[nm_] = x[o:o + sz[nm_]]
        o += sz[nm_]
    return np.concatenate([out[nm_] for nm_ in nn])

def index(S, eqs, names, nn):
    """Indices of the reduced DOFs in the order `names` for the order `nn`."""
    cnt = {nm_: eqs.variables.adi.n_dof[nm_] for nm_ in nn}
    o, st = 0, {}
    for nm_ in names:
        st[nm_] = o
        o += cnt[nm_]
    return np.concatenate([np.arange(st[nm_], st[nm_] + cnt[nm_]) for nm_ in nn]).astype(int)

def blocks(mon, rng, S, items, ebcs, epbcs, funs, x, P, parts_r, parts_A, sr, sA):
    """One equation per (test, state) block."""
    conf = {}
    for t, ms, m in items:
        args = [a.strip() for a in t[0].split('(')[1].rstrip(')').split(',')]
        sts = [a for a in args if a in [s[0] for s in S.spec]]
        sts += [a[1:-3] for a in args if a.startswith('d') and a.endswith('/dt')]
        if len(set(sts)) != 1:
            sts = [t[1]]
            if any(a in [s[0] for s in S.spec] and a != t[1] for a in args):
                continue
        conf.setdefault((t[1], sts[0]), []).append((t, ms, m))
    txt = {'b%s%s, t%s, %s' % (a, b, a, b): write(rng, [(i[0][0], i[1], i[2]) for i in v])
           for (a, b), v in conf.items()}
    eqs = S.start(S.equations(txt), ebcs, epbcs, funs)
    names = order_of(eqs)
    if S.order[0] is None:
        # The order of variables is not determined; the reference uses another one.
        return
    mtx = eqs.create_matrix_graph(any_dof_conn=True, verbose=False)
    R = eqs.eval_residuals(x, by_blocks=True)
    A = eqs.eval_tangent_matrices(x, mtx, by_blocks=True)
    ix = eqs.variables.adi.indx
    some = list(txt)[:1]
    R1 = eqs.eval_residuals(x, by_blocks=True, names=some)
    mon.equal('by_blocks', sorted(R1), [some[0].split(',')[0]], 'names')
    for (a, b), v in conf.items():
        key = 'b%s%s' % (a, b)
        er = P.T @ sum(m * parts_r[t[0]] for t, ms, m in v)
        eA = P.T @ sum(m * parts_A[t[0]] for t, ms, m in v) @ P
        mon.close('by_blocks', np.asarray(R[key]), er[ix[a]], rtol=1e-11, scale=sr,
                  msg='residual block ' + key)
        mon.close('by_blocks', dense(A[key]), eA[ix[a], ix[b]], rtol=1e-11, scale=sA,
                  msg='matrix block ' + key)

def subeqs(mon, rng, S, items, txt, x, parts_r, parts_A, O, sr, sA):
    """Sub-equations of one unknown with the others known."""
    eqs = S.start(S.equations(txt))
    names = order_of(eqs)
    x = reorder(S, x, list(O.off), names)
    r0 = np.array(eqs.eval_residuals(x))
    eqs.set_state(np.zeros_like(x))
    a = names[rng.randint(len(names))]
    others = [n for n in names if n != a]
    for t, ms, m in items:
        if t[1] == a and any(('d%s/dt' % o) in t[0] for o in others):
            return
    sub = eqs.create_subequations(['t' + a], known_var_names=others)
    # The original equations still depend on all the unknowns.
    mon.close('subequations', np.array(eqs.eval_residuals(x)), r0, rtol=1e-11, scale=sr,
              msg='residual of the original equations after sub-equations\n%s' % txt)
    eqs.set_state(x)
    sub = eqs.create_subequations(['t' + a], known_var_names=others)
    S.start(sub)
    ia = slice(O.off[a], O.off[a] + sizes(S, [a])[a])
    xa = x[eqs.variables.di.indx[a]]
    r = np.array(sub.eval_residuals(xa))
    mtx = sub.create_matrix_graph(any_dof_conn=True, verbose=False)
    A = sub.eval_tangent_matrices(xa, mtx)
    its = [it for it in items if it[0][1] == a]
    er = sum(m * parts_r[t[0]] for t, ms, m in its)[ia]
    eA = sum(m * parts_A[t[0]] for t, ms, m in its)[ia, ia]
    mon.close('subequations', r, er, rtol=1e-11, scale=sr, msg='residual of sub-equations\n%s' % txt)
    mon.close('subequations', dense(A), eA, rtol=1e-11, scale=sA, msg='matrix of sub-equations')

def eval_sum(mon, rng, S):
    """Evaluation of expressions with several terms."""
    from sfepy.discrete import Equations
    ex = [('ev_integrate.i.Om1(pu)', 2.0), ('ev_integrate.i.Om2(pu)', -0.5),
          ('ev_volume.i.Omega(pu)', 1.5), ('ev_integrate.i3.Omega(m.c, pu)', 1.0)]
    k = rng.randint(2, 5)
    sel = [ex[i] for i in rng.permutation(4)[:k]]
    vals = []
    for t, m in sel:
        e = S.equations({'a': t})
        e.time_update_materials(S.ts, verbose=False)
        vals.append(e.evaluate(mode='eval'))
    e = S.equations({'a': write(rng, [(t, '%r *' % m, m) for t, m in sel]), 'b': sel[0][0]})
    e.time_update_materials(S.ts, verbose=False)
    out = e.evaluate(mode='eval')
    mon.close('eval_sum', out['a'], sum(v * m for v, (t, m) in zip(vals, sel)), rtol=1e-12,
              scale=sum(abs(v * m) for v, (t, m) in zip(vals, sel)), msg='sum of evaluated terms')
    mon.close('eval_sum', e.evaluate(names='b', mode='eval'), vals[0], rtol=1e-12)

def run_renumber(mon, case):
    """The same system on a mesh with other numbers of vertices and cells."""
    rng = gen.rngof(case)
    raw = gen.raw_mesh(rng, case['mesh'], size=4 if case['mesh'] == '1_2' else 3 if
                       case['mesh'][0] == '2' else [3, 2, 2], jitter=0.15)
    S1 = System(rng, raw, case['mesh'], 'real')
    # Permuted vertices and cells.
    nv = len(raw['coors'])
    pv = rng.permutation(nv)                      # new numbers of old vertices
    key = case['mesh']
    raw2 = dict(raw)
    for k, v in raw.items():
        if isinstance(v, np.ndarray) and len(v) == nv:
            w = np.empty_like(v)
            w[pv] = v
            raw2[k] = w
    c = np.asarray(raw['conns'][key])
    pc = rng.permutation(len(c))
    raw2['conns'] = {key: pv[c][pc].astype(c.dtype)}
    inv = np.argsort(pc)
    names = [s[0] for s in S1.spec]
    order_names = list(np.array(names)[rng.permutation(len(names))])
    S1 = System(np.random.RandomState(5), raw, case['mesh'], 'real', orders=S1.orders, part=S1.part,
                only=names, order_names=order_names)
    S2 = System(np.random.RandomState(5), raw2, case['mesh'], 'real', orders=S1.orders,
                part=np.sort(inv[S1.part]), only=names, order_names=order_names)
    items = []
    for t in S1.pick(rng, 8):
        if t[2] in ('Gam1', 'Gam2', 'Pts') or '/dt' in t[0]:
            continue
        ms, m = mult(rng, 'real')
        items.append((t, ms, m))
    txt = texts(rng, by_test(rng, S1, items))
    xs, res = {}, []
    maps = {}
    for nm_ in names + ['pu', 'pv']:
        f1, f2 = S1.vars[nm_].field, S2.vars[nm_].field
        y1, y2 = np.asarray(f1.get_coor()), np.asarray(f2.get_coor())
        from scipy.spatial import cKDTree
        d, j = cKDTree(y2).query(y1)
        mon.ok('renumbered', d.max() < 1e-9 and len(set(j.tolist())) == len(y1),
               'nodes of renumbered meshes')
        nc = f1.n_components
        maps[nm_] = (j[:, None] * nc + np.arange(nc)).ravel()
    for nm_ in ('pu', 'pv'):
        v = rng.randn(S1.vars[nm_].n_dof)
        w = np.empty_like(v)
        w[maps[nm_]] = v
        S1.vars[nm_].set_data(v)
        S2.vars[nm_].set_data(w)
    nn = order_names
    x1, x2, q, o = [], [], [], 0
    for nm_ in nn:
        v = rng.randn(S1.vars[nm_].n_dof)
        w = np.empty_like(v)
        w[maps[nm_]] = v
        x1.append(v)
        x2.append(w)
        q.append(maps[nm_] + o)
        o += len(v)
    x1, x2, q = np.concatenate(x1), np.concatenate(x2), np.concatenate(q)
    r1, A1, _ = observe(S1.start(S1.equations(txt)), x1)
    r2, A2, _ = observe(S2.start(S2.equations(txt)), x2)
    A1, A2 = dense(A1), dense(A2)
    mon.close('renumbered', r1, r2[q], rtol=1e-9, scale=max(abs(r1).max(), 1e-8),
              msg='residual on a renumbered mesh\n%s' % txt)
    mon.close('renumbered', A1, A2[np.ix_(q, q)], rtol=1e-9, scale=abs(A1).max(),
              msg='matrix on a renumbered mesh')

def run_big(mon, case):
    """Rows with many nonzeros (the binary search branch of assembling)."""
    rng = gen.rngof(case)
    g = case['mesh']
    size = {'3_8': [3, 3, 2], '3_4': [3, 3, 3], '2_4': [6, 5]}[g]
    raw = gen.raw_mesh(rng, g, size=size, jitter=0.1)
    S = System(rng, raw, g, 'complex' if rng.rand() < 0.3 else 'real',
               orders=[2, 2 if g != '2_4' else 3, 1], only=['u', 'v'])
    items = [(('dw_lin_elastic.i.Omega(m.D, tv, v)', 'v', 'Omega'), '', 1.0),
             (('dw_v_dot_grad_s.i.Omega(m.c, tv, u)', 'v', 'Omega'), '2.0 *', 2.0),
             (('dw_dot.i.Omega(m.c, tu, u)', 'u', 'Omega'), '', 1.0),
             (('dw_biot.i.Om1(m.A, v, tu)', 'u', 'Om1'), '-', -1.0),
             (('dw_dot.i.Om1(m.c, tv, v)', 'v', 'Om1'), '', 1.0)]
    items = [items[i] for i in rng.permutation(len(items))]
    txt = texts(rng, by_test(rng, S, items))
    eqs = S.start(S.equations(txt))
    names = order_of(eqs)
    O = Oracle(S, eqs, names)
    x = S.rand(rng, O.n)
    r, A, mtx = observe(eqs, x)
    nnz = np.diff(mtx.indptr).max()
    if nnz >= 100:
        mon.event('bsearch')
    eqs.set_state(x)
    ref = sum(m * O.residual(t[0]) for t, ms, m in items)
    mon.close('residual', r, ref, rtol=1e-11, scale=abs(ref).max(), msg='large system')
    # Sparse reference.
    err, sc = 0.0, 0.0
    refA = None
    for t, ms, m in items:
        a = sparse_matrix(O, t[0]) * m
        refA = a if refA is None else refA + a
    D = (A - refA).tocoo()
    sc = abs(refA).max()
    mon.close('matrix', abs(D.data).max() if D.nnz else 0.0, 0.0, atol=1e-11 * sc,
              msg='large matrix')
    mon.sig(g, txt)

def sparse_matrix(O, text):
    t = O.term(text)
    vv = t.get_virtual_variable()
    rd = O.dofs(t, vv, vv.primary_var_name)
    out = sps.csr_matrix((O.n, O.n), dtype=O.S.npdt)
    for sv in t.get_state_variables(unknown_only=True):
        val, iels, status = t.evaluate(mode='weak', diff_var=sv.name, standalone=False,
                                       ret_status=True)
        cd = O.dofs(t, sv, sv.name)
        a, b = rd[iels], cd[iels]
        i = np.broadcast_to(a[:, :, None], val[:, 0].shape).ravel()
        j = np.broadcast_to(b[:, None, :], val[:, 0].shape).ravel()
        out = out + sps.coo_matrix((val[:, 0].ravel(), (i, j)), shape=out.shape).tocsr()
    return out

def run_trace(mon, case):
    """Terms coupling two sides of an interface by traces."""
    from sfepy.discrete import FieldVariable, Material, Materials, Integrals, Integral, \
        Variables, Equations
    from sfepy.discrete.fem import Field
    rng = gen.rngof(case)
    g = case['mesh']
    raw = gen.raw_mesh(rng, g, size=4 if g[0] == '2' else [3, 2, 3], jitter=0.1)
    dom = gen.to_domain(raw)
    n = dom.shape.n_el
    X = np.asarray(dom.mesh.coors)
    C = np.asarray(dom.cmesh.get_centroids(dom.shape.dim))
    d = rng.randn(dom.shape.dim)
    s = C @ d
    k = int(rng.randint(1, n))
    a = np.sort(np.argsort(s)[:k])
    b = np.setdiff1d(np.arange(n), a)
    R = dom.create_region
    om = R('Omega', 'all')
    sel = lambda ids: 'cell ' + ', '.join(map(str, ids))
    r1, r2 = R('Om1', sel(a)), R('Om2', sel(b))
    # Cells of one side can have all vertices on the interface -> by facets.
    op = '*e' if g[0] == '2' else '*f'
    R('G1', 'r.Om1 %s r.Om2' % op, 'facet', parent='Om1')
    R('G2', 'r.Om1 %s r.Om2' % op, 'facet', parent='Om2')
    nc = dom.shape.dim if rng.rand() < 0.4 else 1
    o = int(rng.randint(1, 3)) if g[0] == '2' else 1
    f1 = Field.from_args('f1', np.float64, (nc,), r1, approx_order=o)
    f2 = Field.from_args('f2', np.float64, (nc,), r2, approx_order=o)
    vs = [FieldVariable('u1', 'unknown', f1, order=0), FieldVariable('v1', 'test', f1, primary_var_name='u1'),
          FieldVariable('u2', 'unknown', f2, order=1), FieldVariable('v2', 'test', f2, primary_var_name='u2')]
    V = Variables(vs)
    mats = Materials([Material('m', values=dict(c=1.5, k=2.0))])
    ints = Integrals([Integral('i', order=3)])
    t1 = 'dw_dot.i.G1(m.c, v1, u1) - 2.0 * dw_dot.i.G1(m.c, v1, tr(G2, u2)) + dw_dot.i.Om1(v1, u1)'
    t2 = 'dw_dot.i.G2(m.c, v2, u2) - 2.0 * dw_dot.i.G2(m.c, v2, tr(G1, u1)) + dw_dot.i.Om2(v2, u2)'
    eqs = Equations.from_conf({'a': t1, 'b': t2}, V, dom.regions, mats, ints, verbose=False)
    eqs.time_update(None, None, None, None, None, verbose=False)
    eqs.time_update_materials(None, verbose=False)
    eqs.init_state()
    nt = eqs.variables.di.n_dof_total
    x = rng.randn(nt)
    r, A, mtx = observe(eqs, x, any_dof=True)
    A = dense(A)
    # A pattern by default has to contain the traces, too.
    m0 = eqs.create_matrix_graph(verbose=False)
    A0 = dense(eqs.eval_tangent_matrices(x, m0))
    mon.close('trace', A0, A, rtol=1e-12, scale=abs(A).max(), msg='default pattern')
    mon.event('trace')
    mon.close('trace', r, A @ x, rtol=1e-11, scale=abs(r).max(), msg='linear')
    # The coupling: the bilinear form of continuous functions.
    n1 = f1.n_nod * nc
    y1, y2 = np.asarray(f1.get_coor()), np.asarray(f2.get_coor())

    def fun(X, s):
        out = np.cos(s + X @ np.arange(1, X.shape[1] + 1))
        return np.repeat(out, nc) + np.tile(np.arange(nc), len(X))
    B12, B21, M1, M2 = A[:n1, n1:], A[n1:, :n1], None, None
    from scipy.spatial import cKDTree
    dd, j = cKDTree(y2).query(y1)
    pairs = [(i, int(j[i])) for i in range(len(y1)) if dd[i] < 1e-9]
    # tr(u2) tested by v1: the mass matrix of the interface with columns of the other side.
    e1 = Equations.from_conf({'a': 'dw_dot.i.G1(m.c, v1, u1)'}, Variables(vs[:2]), dom.regions,
                             mats, ints, verbose=False)
    e1.time_update(None, None, None, None, None, verbose=False)
    e1.time_update_materials(None, verbose=False)
    e1.init_state()
    M = dense(e1.eval_tangent_matrices(np.zeros(n1), e1.create_matrix_graph(any_dof_conn=True, verbose=False)))
    ref = np.zeros_like(B12)
    for i, k_ in pairs:
        for c in range(nc):
            ref[:, k_ * nc + c] = -2.0 * M[:, i * nc + c]
    mon.close('trace', B12, ref, rtol=1e-10, scale=abs(M).max(), msg='coupling by traces')
    mon.close('trace', B21, ref.T, rtol=1e-10, scale=abs(M).max(), msg='coupling by traces, transposed')
    mon.sig(g, k, nc, o)

def run_sens(mon, case):
    """Derivatives with respect to materials in the sensitivity mode."""
    from sfepy.discrete import FieldVariable, Material, Materials, Integrals, Integral, \
        Variables, Equations
    from sfepy.discrete.fem import Field
    rng = gen.rngof(case)
    raw = gen.raw_mesh(rng, case['mesh'], size=3 if case['mesh'][0] == '2' else 2, jitter=0.1)
    dom = gen.to_domain(raw)
    om = dom.create_region('Omega', 'all')
    d = dom.shape.dim
    f = Field.from_args('f', np.float64, (d,), om, approx_order=1)
    u = FieldVariable('u', 'unknown', f)
    v = FieldVariable('v', 'test', f, primary_var_name='u')

    def make(lam, mu, rho):
        m = Material('m', values=dict(lam=lam, mu=mu, rho=rho))
        eqs = Equations.from_conf(
            {'e': 'dw_lin_elastic_l_ad.i.Omega(m.lam, m.mu, v, u)'
                  ' - 0.5 * dw_mass_ad.i.Omega(m.rho, v, u)'}, Variables([u, v]), dom.regions,
            Materials([m]), Integrals([Integral('i', order=2)]), verbose=False)
        eqs.time_update(None, None, None, None, None, verbose=False)
        eqs.time_update_materials(None, verbose=False)
        eqs.init_state()
        return eqs
    p = rng.rand(3) + 0.5
    eqs = make(*p)
    x = rng.randn(eqs.variables.di.n_dof_total)
    eqs.set_state(x)
    names = ['lam', 'mu', 'rho']
    names = [names[i] for i in rng.permutation(3)]
    out = np.zeros((len(x), 3), order='F')
    eqs.evaluate(mode='weak', dw_mode='sensitivity', diff_vars=names, asm_obj=out)
    r0 = np.array(eqs.eval_residuals(x))
    ref = np.zeros_like(out)
    for k, nm_ in enumerate(names):
        i = ['lam', 'mu', 'rho'].index(nm_)
        q = p.copy()
        q[i] += 1.0                              # the residual is linear in materials
        ref[:, k] = np.array(make(*q).eval_residuals(x)) - r0
    mon.close('sensitivity', out, ref, rtol=1e-9, scale=abs(ref).max(), msg='sensitivity')

def run_shared(mon, case):
    """Variables sharing their degrees of freedom (the same order)."""
    from sfepy.discrete import FieldVariable, Variables
    from sfepy.discrete.fem import Field
    rng = gen.rngof(case)
    raw = domain(rng, case['mesh'], False)
    S = System(rng, raw, case['mesh'], 'real', only=['u', 'p'], order_names=['u', 'p'])
    F = S.fields['fu']
    vs = [FieldVariable('u', 'unknown', F, order=0), FieldVariable('tu', 'test', F, primary_var_name='u'),
          FieldVariable('p', 'unknown', F, order=1), FieldVariable('tp', 'test', F, primary_var_name='p')]
    S.vars = Variables(vs)
    conf = {'a': 'dw_dot.i.Omega(m.c, tu, u) + 2 * dw_laplace.i.Om1(m.k, tu, p)',
            'b': 'dw_dot.i.Om1(tp, p) - dw_dot.i.Om2(m.c, tp, u)'}
    eqs = S.start(S.equations(conf))
    names = order_of(eqs)
    O = Oracle(S, eqs, names)
    x = rng.randn(O.n)
    r, A, mtx = observe(eqs, x)
    eqs.set_state(x)
    its = [('dw_dot.i.Omega(m.c, tu, u)', 1.0), ('dw_laplace.i.Om1(m.k, tu, p)', 2.0),
           ('dw_dot.i.Om1(tp, p)', 1.0), ('dw_dot.i.Om2(m.c, tp, u)', -1.0)]
    refr = sum(m * O.residual(t) for t, m in its)
    refA = sum(m * O.matrix(t) for t, m in its)
    mon.close('residual', r, refr, rtol=1e-11, scale=abs(refr).max())
    mon.close('matrix', dense(A), refA, rtol=1e-11, scale=abs(refA).max())
    # The same with one unknown in place of both.
    vs2 = [FieldVariable('u', 'unknown', F, order=0), FieldVariable('tu', 'test', F, primary_var_name='u'),
           FieldVariable('p', 'unknown', F, order=0), FieldVariable('tp', 'test', F, primary_var_name='p')]
    S.vars = Variables(vs2)
    eqs = S.start(S.equations(conf))
    n = F.n_nod
    mon.equal('shared', eqs.variables.di.n_dof_total, n, 'size with shared DOFs')
    y = rng.randn(n)
    eqs.set_state(y)
    r, A, mtx = observe(eqs, y)
    S.vars = Variables([FieldVariable('u', 'unknown', F), FieldVariable('tu', 'test', F, primary_var_name='u')])
    one = {k: t.replace('tp', 'tu').replace(' p)', ' u)') for k, t in conf.items()}
    e1 = S.start(S.equations(one))
    r1, A1, _ = observe(e1, y)
    mon.close('shared', r, r1, rtol=1e-11, scale=abs(r1).max(), msg='residual, shared DOFs')
    mon.close('shared', dense(A), dense(A1), rtol=1e-11, scale=abs(A1).max(), msg='matrix, shared DOFs')
    # Another unknown after those sharing DOFs, in another space, coupled to both.
    S = System(rng, raw, case['mesh'], 'real', only=['u', 'p', 'w'], order_names=['u', 'p', 'w'])
    F, W = S.fields['fu'], S.fields['fw']
    text = {'a': 'dw_dot.i.Omega(m.c, tu, u) + 2 * dw_laplace.i.Om1(m.k, tu, p)',
            'b': 'dw_dot.i.Om1(tp, p) - dw_dot.i.Om2(m.c, tp, u) + dw_dot.i.Om1(tp, w)',
            'c': 'dw_dot.i.Om1(tw, w) + 3.0 * dw_dot.i.Om1(m.c, tw, p)'}
    mk = lambda o: Variables([
        FieldVariable('u', 'unknown', F, order=0), FieldVariable('tu', 'test', F, primary_var_name='u'),
        FieldVariable('p', 'unknown', F, order=o), FieldVariable('tp', 'test', F, primary_var_name='p'),
        FieldVariable('w', 'unknown', W, order=2), FieldVariable('tw', 'test', W, primary_var_name='w')])
    nf, nw = F.n_nod, W.n_nod
    y = rng.randn(nf)
    out = {}
    for o in (0, 1):
        S.vars = mk(o)
        eqs = S.start(S.equations(text))
        mon.equal('shared', eqs.variables.di.n_dof_total, nf + nw + o * nf, 'size with shared DOFs (3 unknowns)')
        full = np.concatenate([y] + [y] * o + [np.cos(np.arange(nw))])
        r, A, mtx = observe(eqs, full, any_dof=True)
        out[o] = r, dense(A)
    P = np.vstack([np.hstack([np.eye(nf), np.zeros((nf, nw))])] * 2
                  + [np.hstack([np.zeros((nw, nf)), np.eye(nw)])])
    mon.close('shared', out[0][0], P.T @ out[1][0], rtol=1e-11, scale=abs(out[1][0]).max(),
              msg='residual, shared DOFs, 3 unknowns')
    mon.close('shared', out[0][1], P.T @ out[1][1] @ P, rtol=1e-11, scale=abs(out[1][1]).max(),
              msg='matrix, shared DOFs, 3 unknowns')

def run_order(mon, case):
    """The numbering of unknowns without a given order is the same in all repetitions."""
    from sfepy.discrete import Equation, Equations, FieldVariable, Integral, Material
    from sfepy.discrete.fem import Field
    from sfepy.terms.terms import Term
    rng = gen.rngof(case)
    dom = gen.to_domain(gen.raw_mesh(rng, '2_3', 2))
    om = dom.create_region('Omega', 'all')
    f = Field.from_args('f', np.float64, 1, om, approx_order=1)
    it = Integral('i', order=2)
    n = rng.randint(3, 7)
    names = list({''.join(chr(97 + k) for k in rng.randint(0, 26, size=1 + rng.randint(4))) for _ in range(n)})
    names.sort()
    rng.shuffle(names)
    keep, seen = [], []
    for k in range(12):
        us = [FieldVariable(nm, 'unknown', f) for nm in names]
        keep.append([object() for _ in range(rng.randint(1, 50))])
        vs = [FieldVariable('t' + nm, 'test', f, primary_var_name=nm) for nm in names]
        ms = [Material('m' + nm, val=1.0) for nm in names]
        perm = rng.permutation(len(names))
        keep.append([us[i] for i in perm])
        eqs = Equations([Equation('e%d' % i, Term.new('dw_dot(m%s.val, t%s, %s)' % (nm, nm, nm), it, om,
                                                      **{'m' + nm: m, 't' + nm: v, nm: u}))
                         for i, (nm, u, v, m) in enumerate(zip(names, us, vs, ms))])
        keep.append(eqs)
        seen.append((tuple(eqs.variables.ordered_state), tuple(m.name for m in eqs.materials)))
        mon.event('order')
    mon.sig('order', len(names))
    mon.ok('order', len(set(seen)) == 1, 'different orders of variables in the same equations: %s' % sorted(set(seen))[:3])
