"""
C11: Boundary, periodic and linear-combination conditions hold exactly.

Monitor: an own statement of all conditions as one linear system C x = d for the full
vectors of degrees of freedom: nodes are selected by coordinates of a box domain, essential
conditions are applied in the order of their keys (constants, sequences, arrays, functions of
coordinates and time, active in given times), periodic matches are found by coordinates
(classes of equal values by union-find, including corners and edges common to several
matches), linear combinations (rigid, rigid2, average force, rigid twist, no penetration,
normal and edge directions, mean value, nodal and multi-node combinations, shifted periodic,
matched DOFs) are written from their documentation.  Watched: the affine space of vectors made
from reduced vectors is exactly the space of solutions of C x = d (every vector satisfies
the conditions, the number of active DOFs is n - rank C, the map is injective), reducing and
expanding loses nothing, conditions applied to given vectors change only constrained
entries, solutions of stationary and time-dependent problems satisfy the conditions of each step, and their
full unconstrained residual (other equations without conditions) is orthogonal to all admissible variations;
initial conditions; matching functions called repeatedly with various points.
"""
import numpy as np
from .. import gen
from .C10 import dense

REQUIRED = ['ebc', 'ebc function', 'ebc times', 'epbc', 'epbc chain', 'lcbc', 'rigid', 'rigid2', 'rotation',
            'average_force', 'rigid_twist', 'no_penetration', 'normal_direction',
            'edge_direction', 'integral_mean_value', 'nodal_combination', 'shifted_periodic',
            'match_dofs', 'multi_node_combination', 'solved', 'match', 'ic', 'transient',
            'lcbc times', 'lcbc + epbc', 'cleared']
ASSUMPTIONS = ['Where a class of periodic DOFs is given several different values, any of them is accepted',
               'Linear-combination conditions are given in regions disjoint with those of essential conditions, as required',
               'Domains are boxes of simplices, quadrilaterals and hexahedra, with fields of orders 1 and 2']

GEOMS = ['2_3', '2_4', '3_4', '3_8', '1_2']
LC = ['rigid', 'rigid2', 'average_force', 'rigid_twist', 'no_penetration', 'normal_direction',
      'edge_direction', 'integral_mean_value', 'nodal_combination', 'shifted_periodic',
      'match_dofs', 'multi_node_combination']

def cases(rng, tier):
    n = dict(quick=3, thorough=50)[tier]
    out = []
    for i in range(40 * n):
        out.append(dict(kind='bcs', mesh=GEOMS[i % 5], epbc=i % 3, cost=2))
    for k in LC:
        for i in range(5 * n):
            out.append(dict(kind='lcbc', lc=k, mesh=GEOMS[i % 4], cost=2))
    for i in range(10 * n):
        out.append(dict(kind='times', mesh=GEOMS[i % 5], cost=3))
    for i in range(8 * n):
        out.append(dict(kind='lctimes', mesh=GEOMS[i % 4], cost=3))
    for i in range(10 * n):
        out.append(dict(kind='both', mesh=GEOMS[i % 4], cost=2))
    for i in range(8 * n):
        out.append(dict(kind='ic', mesh=GEOMS[i % 5]))
    for i in range(8 * n):
        out.append(dict(kind='match'))
    for i in range(8 * n):
        out.append(dict(kind='rotation'))
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

class Box:
    """A box domain with named parts, two fields and equations."""

    def __init__(self, rng, g, order=None, min_size=2):
        from sfepy.discrete import FieldVariable, Material, Integral, Integrals, Materials, Variables
        from sfepy.discrete.fem import Field
        self.g = g
        dim = self.dim = int(g[0])
        if dim == 1:
            shape = [int(rng.randint(4, 8))]
        elif dim == 2:
            shape = [int(rng.randint(3, 5)), int(rng.randint(3, 5))]
        else:
            shape = [int(rng.randint(2, 4)), int(rng.randint(2, 4)), 2]
            shape = [shape[i] for i in rng.permutation(3)]
        shape = [max(s, min_size) for s in shape]
        raw = gen.raw_mesh(rng, g, shape=shape, jitter=0.0, affine=False)
        X = np.asarray(raw['coors'], dtype=float)
        X = (X - X.min(0)) / np.ptp(X, 0)
        self.L = 0.5 + rng.rand(dim) * 1.5
        self.x0 = rng.randn(dim) * 0.3
        raw['coors'] = self.x0 + X * self.L
        self.dom = gen.to_domain(raw)
        self.lo, self.hi = self.x0, self.x0 + self.L
        self.rng = rng
        om = self.dom.create_region('Omega', 'all')
        self.parts = {}
        self.order = o = int(rng.randint(1, 3)) if order is None else order
        self.fu = Field.from_args('fu', np.float64, (dim,), om, approx_order=o)
        self.fp = Field.from_args('fp', np.float64, (1,), om, approx_order=int(rng.randint(1, 3)) if order is None else order)
        self.fields = dict(u=self.fu, p=self.fp)
        self.ints = Integrals([Integral('i', order=4)])
        self.kd = rng.permutation(2)
        self.np = Materials

    def variables(self, history=None):
        from sfepy.discrete import FieldVariable, Variables
        return Variables([
            FieldVariable('u', 'unknown', self.fu, order=int(self.kd[0]), history=history),
            FieldVariable('v', 'test', self.fu, primary_var_name='u'),
            FieldVariable('p', 'unknown', self.fp, order=int(self.kd[1]), history=history),
            FieldVariable('q', 'test', self.fp, primary_var_name='p')])

    def equations(self, transient=False):
        from sfepy.discrete import Equations, Material, Materials
        dim = self.dim
        rng = np.random.RandomState(7)
        mats = Materials([Material('m', values=dict(k=1.3, f=rng.randn(dim, 1), s=0.7,
                                                    a=rng.randn(dim * (dim + 1) // 2, 1)))])
        t = ' + dw_dot.i.Omega(v, du/dt)' if transient else ''
        s = ' + dw_dot.i.Omega(q, dp/dt)' if transient else ''
        conf = dict(
            e1='dw_div_grad.i.Omega(m.k, v, u) + dw_dot.i.Omega(v, u)'
               ' - dw_stokes.i.Omega(v, p)%s = dw_volume_lvf.i.Omega(m.f, v)' % t,
            e2='dw_laplace.i.Omega(q, p) + 2.0 * dw_dot.i.Omega(q, p)'
               ' + dw_stokes.i.Omega(u, q)%s = dw_volume_lvf.i.Omega(m.s, q)' % s)
        return Equations.from_conf(conf, self.variables(1 if transient else None), self.dom.regions, mats, self.ints,
                                   verbose=False)

    # -- parts of the boundary ------------------------------------------------------------
    def part(self, spec):
        """A region of nodes with given coordinates: ((axis, 0|1), ...)."""
        spec = tuple(sorted(spec))
        name = 'R' + ''.join('%d%d' % s for s in spec)
        if name not in self.parts:
            X = np.asarray(self.dom.mesh.coors)
            ids = np.where(self.on(X, spec))[0]
            d = self.dim - len(spec)
            kind = {0: 'vertex', 1: 'edge', 2: 'face'}[d]
            if d == self.dim - 1 and self.rng.rand() < 0.5 and self.dim > 1:
                kind = 'facet'
            # Vertices suffice: all entities of boxes with these vertices lie in the part.
            self.dom.create_region(name, 'vertex ' + ', '.join(map(str, ids)), kind)
            self.parts[name] = spec
        return self.dom.regions[name]

    def on(self, X, spec):
        m = np.ones(len(X), dtype=bool)
        for a, s in spec:
            m &= abs(X[:, a] - (self.hi if s else self.lo)[a]) < 1e-8
        return m

    def nodes(self, field, spec):
        return np.where(self.on(np.asarray(field.get_coor()), spec))[0]

class Sys:
    """The own system of conditions C x = d."""

    def __init__(self, B, eqs):
        self.B = B
        names = [v.name for v in eqs.variables.iter_state()]
        di = {}
        n = 0
        order = sorted('up', key=lambda k: B.kd['up'.index(k)])
        for k in order:
            di[k] = n
            n += B.fields[k].n_nod * B.fields[k].n_components
        self.off, self.n = di, n
        self.fixed = {}
        self.pairs = []
        self.rows, self.rhs = [], []
        self.ok_order = (set(names) == {'u', 'p'}) and all(
            eqs.variables.di.indx[k].start == di[k] for k in 'up')

    def dof(self, name, node, comp):
        return self.off[name] + int(node) * self.B.fields[name].n_components + comp

    def fix(self, name, nodes, comps, vals):
        for i, nod in enumerate(nodes):
            for j, c in enumerate(comps):
                self.fixed[self.dof(name, nod, c)] = float(vals[i, j])

    def row(self, entries, d=0.0):
        r = np.zeros(self.n)
        for i, c in entries:
            r[i] += c
        self.rows.append(r)
        self.rhs.append(d)

    def span(self, dofs, basis, x0=None):
        """Values in dofs lie in the span of columns."""
        u, s, _ = np.linalg.svd(basis, full_matrices=True)
        k = int((s > 1e-10 * s[0]).sum())
        for w in u[:, k:].T:
            r = np.zeros(self.n)
            np.add.at(r, dofs, w)
            self.rows.append(r)
            self.rhs.append(0.0)

    def system(self, x=None):
        """C, d; conflicting values resolved by x."""
        root = list(range(self.n))

        def find(i):
            while root[i] != i:
                i = root[i]
            return i
        for a, b in self.pairs:
            ra, rb = find(a), find(b)
            if ra != rb:
                root[rb] = ra
        vals = {}
        for i, v in self.fixed.items():
            vals.setdefault(find(i), set()).add(v)
        rows, rhs = list(self.rows), list(self.rhs)
        bad = []
        for i in range(self.n):
            r = find(i)
            e = np.zeros(self.n)
            if r in vals:
                vs = sorted(vals[r])
                v = vs[0]
                if len(vs) > 1:
                    if x is None:
                        v = None
                    else:
                        v = min(vs, key=lambda t: abs(t - x[i]))
                        first = min(vs, key=lambda t: abs(t - x[r]))
                        if v != first:
                            bad.append((i, r))
                e[i] = 1.0
                rows.append(e)
                rhs.append(np.nan if v is None else v)
            elif r != i:
                e[i], e[r] = 1.0, -1.0
                rows.append(e)
                rhs.append(0.0)
        C = np.array(rows).reshape(-1, self.n)
        return C, np.array(rhs), bad

def null(C, n):
    if not len(C):
        return np.eye(n)
    u, s, vt = np.linalg.svd(C)
    k = int((s > 1e-9 * max(1.0, s[0])).sum())
    return vt[k:].T

def check_space(mon, rng, eqs, S, what, roundtrip=True):
    """Vectors made from reduced ones against the own system."""
    V = eqs.variables
    na = (V.lcdi if V.has_lcbc else V.adi).n_dof_total
    x0 = np.asarray(eqs.make_full_vec(np.zeros(na)))
    C, d, bad = S.system(x0)
    mon.ok(what, not bad, 'periodic DOFs with different values')
    sc = max(1.0, abs(d).max(initial=0), abs(x0).max(initial=0))
    N = null(C, S.n)
    mon.equal(what, na, N.shape[1], 'number of active DOFs')
    for _ in range(2):
        y = rng.randn(na)
        x = np.asarray(eqs.make_full_vec(y.copy()))
        err = C @ x - d
        mon.close(what, err, np.zeros_like(err), atol=1e-8 * max(sc, abs(x).max(initial=0)),
                  msg='conditions of a vector made from a reduced one')
        if not V.has_lcbc:
            mon.close('reduce', np.asarray(eqs.reduce_vec(x)), y, rtol=1e-13, msg='reduce_vec')
    if na and na <= 400:
        T = np.array([np.asarray(eqs.make_full_vec(e)) for e in np.eye(na)]).T - x0[:, None]
        s = np.linalg.svd(T, compute_uv=False)
        mon.ok(what, s[-1] > 1e-8, 'reduced vectors are not independent')
        mon.close(what, N @ (N.T @ T), T, rtol=1e-9, scale=abs(T).max(), msg='span of reduced vectors')
    return C, d, N

def check_apply(mon, rng, eqs, S):
    """Conditions applied to a given vector."""
    x = rng.randn(S.n)
    z = x.copy()
    eqs.apply_ebc(z)
    fin = [i for i in S.fixed]
    C, d, bad = S.system(z)
    n_lc = len(S.rows)
    err = (C @ z - d)[n_lc:]
    mon.close('apply', err, np.zeros_like(err), atol=1e-12 * max(1, abs(z).max()), msg='apply_ebc')
    free = np.setdiff1d(np.arange(S.n), np.where(abs(C[n_lc:]).sum(0) > 0)[0]) if len(C) > n_lc \
        else np.arange(S.n)
    mon.equal('apply', z[free], x[free], 'apply_ebc changed other DOFs')
    if not len(S.rows):
        mon.ok('apply', bool(eqs.variables.has_ebc(z)), 'has_ebc of a vector with conditions applied')
        i = [k for k in fin if abs(z[k]) > 1e-8]
        if i:
            w = z.copy()
            w[i[0]] += 1.0
            mon.ok('apply', not eqs.variables.has_ebc(w), 'has_ebc of a violating vector')

def solvers(mon):
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    ls = ScipyDirect({})
    return Newton({'eps_a': 1e-11, 'eps_r': 1e-13, 'i_max': 4, 'lin_red': None, 'is_linear': False},
                  lin_solver=ls, status={})

def residual(B, x, transient=None):
    """The residual without conditions."""
    eqs = B.equations(transient is not None)
    ts = transient[0] if transient is not None else None
    eqs.time_update(ts, None, None, None, None, verbose=False)
    eqs.time_update_materials(ts, verbose=False)
    eqs.variables.init_history()
    eqs.init_state()
    if transient is not None:
        from sfepy.base.base import Struct
        from sfepy.solvers.ts import TimeStepper
        eqs.set_state(np.asarray(transient[1]), force=True)
        eqs.advance(ts)
    r = np.array(eqs.eval_residuals(np.asarray(x)))
    return r

def solve(mon, B, S, ebcs, epbcs, lcbcs, functions, what='solved'):
    from sfepy.discrete import Problem
    pb = Problem('p', equations=B.equations(), functions=functions)
    pb.set_bcs(ebcs=ebcs, epbcs=epbcs, lcbcs=lcbcs)
    pb.set_solver(solvers(mon))
    v = pb.solve(save_results=False, verbose=False)
    x = np.asarray(v())
    C, d, bad = S.system(x)
    N = null(C, S.n)
    err = C @ x - d
    sc = max(1.0, abs(x).max())
    mon.close(what, err, np.zeros_like(err), atol=1e-8 * sc, msg='conditions of a solution')
    r = residual(B, x)
    mon.close(what, N.T @ r, np.zeros(N.shape[1]), atol=1e-7 * max(1.0, abs(r).max()),
              msg='the remaining equations')
    mon.event('solved')
    return pb, x

# -- essential and periodic conditions -------------------------------------------------------

def sides(B):
    return [((a, s),) for a in range(B.dim) for s in (0, 1)]

def parts(B):
    out = sides(B)
    if B.dim > 1:
        out += [((a, s), (b, t)) for a in range(B.dim) for b in range(a) for s in (0, 1) for t in (0, 1)]
    if B.dim > 2:
        out += [((0, r), (1, s), (2, t)) for r in (0, 1) for s in (0, 1) for t in (0, 1)]
    return out

def make_ebcs(mon, rng, B, S, avail=None, n_max=5, t=0.0, timed=False, names='up', tag=''):
    """Conditions with own values, applied in the order of keys."""
    from sfepy.discrete.conditions import EssentialBC
    from sfepy.discrete import Function
    funs, todo = [], []
    avail = parts(B) if avail is None else avail
    if not avail:
        return [], []
    keys = list(rng.permutation(26)[:n_max])
    for k in range(int(rng.randint(1, n_max + 1))):
        spec = avail[rng.randint(len(avail))]
        name = names[rng.randint(len(names))]
        nc = B.fields[name].n_components
        comps = list(range(nc))
        txt = name + '.all'
        if nc > 1:
            m = rng.randint(3)
            if m == 1:
                comps = [int(rng.randint(nc))]
                txt = '%s.%d' % (name, comps[0])
            elif m == 2:
                comps = [int(c) for c in rng.permutation(nc)[:2]]
                if rng.rand() < 0.5 or nc == 2:
                    comps = sorted(comps)
                txt = '%s.[%s]' % (name, ','.join(map(str, comps)))
        vk = rng.randint(5)
        c0 = np.round(rng.randn(len(comps)), 2)
        g = np.round(rng.randn(B.dim, len(comps)), 2)
        fname = 'fun%d%s' % (k, tag)
        key = 'ebc_' + chr(97 + keys[k]) + tag
        val = lambda X, t, c=c0[:1], nn=len(comps): np.tile(c, (len(X), nn))
        if vk == 0:
            v = float(c0[0])
        elif vk == 1:
            v, val = [c0.tolist(), tuple(c0)][rng.randint(2)], (lambda X, t, c=c0: np.tile(c, (len(X), 1)))
        elif vk == 2:
            v, val = c0.copy(), (lambda X, t, c=c0: np.tile(c, (len(X), 1)))
        else:
            own = lambda X, t, c=c0, g=g: c + X @ g + (X**2) @ g * t
            style = rng.randint(2)

            def fun(ts, coors, bc=None, problem=None, own=own, style=style, **kw):
                mon.event('ebc function')
                tt = ts.time if ts is not None else 0.0
                out = own(np.asarray(coors), tt)
                return out if style else out.ravel()
            v, val = (fname if rng.rand() < 0.5 else Function(fname, fun)), own
            funs.append(Function(fname, fun))
        times, act = None, (lambda t: True)
        if timed and rng.rand() < 0.6:
            if rng.rand() < 0.6:
                a = sorted(np.round(rng.rand(4), 1))
                times = [(a[0], a[1]), (a[2], a[3])][:rng.randint(1, 3)]
                act = lambda t, times=times: any(s <= t < e for s, e in times)
            else:
                nm = 'act%d%s' % (k, tag)
                funs.append(Function(nm, lambda ts: ts.step % 2 == 0))
                times = nm
                act = lambda t: None
            mon.event('ebc times')
        todo.append((key, EssentialBC('b%d%s' % (k, tag), B.part(spec), {txt: v}, key=key, times=times),
                     name, spec, comps, val, act))
        mon.event('ebc')
    todo.sort(key=lambda a: a[0])
    return todo, funs

def put_ebcs(B, S, todo, t=0.0, step=0):
    S.fixed.clear()
    for key, bc, name, spec, comps, val, act in todo:
        a = act(t)
        if a is None:
            a = step % 2 == 0
        if not a:
            continue
        f = B.fields[name]
        nods = B.nodes(f, spec)
        S.fix(name, nods, comps, val(np.asarray(f.get_coor())[nods], t))

def make_epbcs(mon, rng, B, S, n_axes=None, names='up', only_all=False):
    from sfepy.discrete.conditions import PeriodicBC
    from sfepy.discrete import Function
    from sfepy.discrete.fem import periodic as per
    out, funs = [], []
    if n_axes is None:
        n_axes = int(rng.randint(1, B.dim + 1))
    axes = rng.permutation(B.dim)[:n_axes]
    k = 0
    for a in axes:
        a = int(a)
        for name in names:
            if rng.rand() < 0.3:
                continue
            nc = B.fields[name].n_components
            c = None if (nc == 1 or only_all or rng.rand() < 0.6) else int(rng.randint(nc))
            txt = name + ('.all' if c is None else '.%d' % c)
            comps = range(nc) if c is None else [c]
            fl = rng.randint(2)
            s = [((a, fl),), ((a, 1 - fl),)]
            fun = {1: per.match_x_line if B.dim == 1 else None,
                   2: [per.match_y_line, per.match_x_line][a] if B.dim == 2 else None,
                   3: [per.match_x_plane, per.match_y_plane, per.match_z_plane][a]}[B.dim]
            if B.dim == 2 and rng.rand() < 0.3:
                fun = [per.match_x_plane, per.match_y_plane][a]
            if B.dim == 1:
                fun = lambda c1, c2: (np.arange(len(c1)), np.arange(len(c2)))
            nm_ = 'match%d' % k
            funs.append(Function(nm_, fun))
            out.append(PeriodicBC('per%d' % k, [B.part(s[0]), B.part(s[1])], {txt: txt}, nm_,
                                  key='epbc_%d' % k))
            f = B.fields[name]
            Y = np.asarray(f.get_coor())
            n0, n1 = B.nodes(f, s[0]), B.nodes(f, s[1])
            for i in n0:
                d = abs(np.delete(Y[n1] - Y[i], a, 1)).max(1) if B.dim > 1 else np.zeros(len(n1))
                j = n1[int(np.argmin(d))]
                assert d.min() < 1e-8
                for cc in comps:
                    S.pairs.append((S.dof(name, i, cc), S.dof(name, j, cc)))
            k += 1
            mon.event('epbc')
    if n_axes > 1 and k > 1:
        mon.event('epbc chain')
    return out, funs

def run_bcs(mon, case):
    from sfepy.discrete import Functions
    from sfepy.discrete.conditions import Conditions
    rng = gen.rngof(case)
    B = Box(rng, case['mesh'])
    eqs = B.equations()
    S = Sys(B, eqs)
    mon.ok('order', S.ok_order, 'offsets of variables')
    epbcs, f2 = make_epbcs(mon, rng, B, S) if case['epbc'] else ([], [])
    todo, f1 = make_ebcs(mon, rng, B, S)
    put_ebcs(B, S, todo)
    bcs = [t[1] for t in todo]
    order = rng.permutation(len(bcs))
    ebcs = Conditions([bcs[i] for i in order])
    pcs = Conditions(epbcs) if epbcs else None
    F = Functions(f1 + f2)
    from sfepy.base.base import Struct
    eqs.time_update(None, ebcs, pcs, None, F, verbose=False)
    eqs.init_state()
    check_space(mon, rng, eqs, S, 'bcs')
    check_apply(mon, rng, eqs, S)
    C, d, _ = S.system()
    if null(C, S.n).shape[1]:
        solve(mon, B, S, Conditions([t[1] for t in todo]), pcs, None, F)
    # Conditions removed.
    eqs.time_update(None, None, None, None, F, verbose=False)
    S.fixed.clear()
    S.pairs = []
    check_space(mon, rng, eqs, S, 'cleared')
    mon.event('cleared')
    mon.sig(case['mesh'], B.order, len(bcs), len(epbcs))

# -- linear combinations ----------------------------------------------------------------------

def spin(X):
    """Rotations about the origin."""
    n, dim = X.shape
    if dim == 2:
        return np.stack([-X[:, 1], X[:, 0]], 1).reshape(n * dim, 1)
    out = np.zeros((n, 3, 3))
    for k, w in enumerate(np.eye(3)):
        out[:, :, k] = np.cross(w, X)
    return out.reshape(n * 3, 3)

def facet_normals(B, spec):
    n = np.zeros(B.dim)
    a, s = spec[0]
    n[a] = 1.0 if s else -1.0
    return n

def make_lcbc(mon, rng, B, S, kind, name='u', times=None, active=True):
    """A linear combination condition; returns (bcs, functions, used sides)."""
    from sfepy.discrete.conditions import LinearCombinationBC
    from sfepy.discrete import Function
    dim = B.dim
    f = B.fields[name]
    nc = f.n_components
    Y = np.asarray(f.get_coor())
    ax = int(rng.randint(dim))
    sd = ((ax, int(rng.randint(2))),)
    opp = ((ax, 1 - sd[0][1]),)
    nod, nop = B.nodes(f, sd), B.nodes(f, opp)
    dofs = lambda nods: np.array([S.dof(name, i, c) for i in nods for c in range(nc)])
    allc = name + '.all'
    L = lambda regs, dd, fun, args, kd=kind: LinearCombinationBC(
        'lc', regs, dd, fun, kd, key='lcbc_1', times=times, arguments=args)
    none = [B.part(sd), None]
    used = [sd]
    funs = []
    row = S.row if active else (lambda *a: None)
    span = S.span if active else (lambda *a: None)
    mon.event(kind)
    mon.event('lcbc')
    if kind == 'rigid':
        bc = L(none, {allc: None}, None, ())
        X = Y[nod]
        span(dofs(nod), np.hstack([np.tile(np.eye(dim), (len(X), 1)), spin(X)]))
    elif kind == 'integral_mean_value':
        c = int(rng.randint(nc)) if rng.rand() < 0.7 else None
        bc = L(none, {allc if c is None else '%s.%d' % (name, c): None}, None, ())
        dd = dofs(nod) if c is None else np.array([S.dof(name, i, c) for i in nod])
        span(dd, np.ones((len(dd), 1)))
    elif kind in ('no_penetration', 'normal_direction'):
        bc = L(none, {allc: None}, None, (None,))
        n = facet_normals(B, sd)
        for i in nod:
            if kind == 'no_penetration':
                row([(S.dof(name, i, c), n[c]) for c in range(dim)])
            else:
                for c in range(dim):
                    if c != ax:
                        row([(S.dof(name, i, c), 1.0)])
    elif kind == 'edge_direction':
        if dim == 3:
            b = (ax + 1) % 3
            spec = (sd[0], (b, int(rng.randint(2))))
            t = np.eye(3)[3 - ax - b]
        else:
            spec = sd
            t = np.eye(2)[1 - ax]
        used = [sd, spec]
        bc = L([B.part(spec), None], {allc: None}, None, (None,))
        P = np.eye(dim) - np.outer(t, t)
        for i in B.nodes(f, spec):
            for c in range(dim):
                if t[c] == 0.0:
                    row([(S.dof(name, i, c), 1.0)])
    elif kind == 'nodal_combination':
        m = int(rng.randint(1, dim)) if dim > 1 else 1
        A = np.round(rng.randn(m, dim), 2) + 0.1
        Z = A * (rng.rand(m, dim) < 0.7)
        if np.linalg.svd(Z, compute_uv=False)[-1] > 0.1:
            A = Z
        b = np.round(rng.randn(m), 2)
        if rng.rand() < 0.5:
            g = np.round(rng.randn(dim, m), 2)

            def con(ts, coors, region):
                return np.tile(A, (len(coors), 1, 1)), b + np.asarray(coors) @ g
            funs.append(Function('con', con))
            arg = 'con'
        else:
            g = np.zeros((dim, m))
            arg = (A, b)
        bc = L(none, {allc: None}, None, (arg,))
        for i in nod:
            rhs = b + Y[i] @ g
            for k in range(m):
                row([(S.dof(name, i, c), A[k, c]) for c in range(dim)], rhs[k])
    elif kind in ('shifted_periodic', 'match_dofs'):
        def match(c1, c2):
            r = np.round(np.delete(c1, ax, 1), 6), np.round(np.delete(c2, ax, 1), 6)
            i1, i2 = np.lexsort(r[0].T), np.lexsort(r[1].T)
            p = np.random.RandomState(3).permutation(len(i1))
            return i1[p], i2[p]
        g = np.round(rng.randn(dim, nc), 2)

        def shift(ts, coors, region):
            t = ts.time if ts is not None else 0.0
            return (1.0 + t) + np.asarray(coors) @ g[:, list(comps)]
        funs += [Function('match', match), Function('shift', shift)]
        comps = list(range(nc)) if rng.rand() < 0.6 else [int(rng.randint(nc))]
        dd = allc if len(comps) == nc else '%s.%d' % (name, comps[0])
        bc = L([B.part(sd), B.part(opp)], {dd: dd}, 'match',
               ('shift',) if kind == 'shifted_periodic' else ())
        used = [sd, opp]
        for i in nod:
            d = abs(np.delete(Y[nop] - Y[i], ax, 1)).max(1)
            j = nop[int(np.argmin(d))]
            s = (1.0 + Y[j] @ g) if kind == 'shifted_periodic' else np.zeros(nc)
            for c in comps:
                row([(S.dof(name, i, c), 1.0), (S.dof(name, j, c), -1.0)], s[c])
    elif kind == 'multi_node_combination':
        # Nodes of one side by their two neighbours in the other one.
        nn = min(2, len(nop))
        w = np.round(rng.rand(nn) + 0.2, 2)

        def near(c1, c2):
            out = []
            for x in c1:
                d = np.linalg.norm(np.delete(c2 - x, ax, 1), axis=1)
                out.append(np.lexsort((np.arange(len(d)), np.round(d, 6)))[:nn])
            return np.array(out)

        def fun(c1, c2):
            i2 = near(c1, c2)
            if const:
                return np.arange(len(c1)), i2.ravel()
            return np.arange(len(c1)), i2.ravel(), weights(c1)
        const = rng.rand() < 0.5
        weights = lambda X: w[None] * (1.0 if const else (1.0 + 0.3 * X[:, :1]))
        funs.append(Function('near', fun))
        bc = L([B.part(sd), B.part(opp)], {allc: allc}, 'near', (w if const else None,))
        used = [sd, opp]
        nb = near(Y[nod], Y[nop])
        W = weights(Y[nod]) * np.ones((len(nod), nn))
        for a, i in enumerate(nod):
            for c in range(nc):
                row([(S.dof(name, i, c), 1.0)] + [(S.dof(name, nop[k], c), -W[a, b])
                                                    for b, k in enumerate(nb[a])])
    elif kind in ('rigid2', 'average_force'):
        corner = tuple((a, int(rng.randint(2))) if a != ax else opp[0] for a in range(dim))
        used = [sd, opp]
        single = B.nodes(f, corner)[0]
        sw = np.round(0.5 + rng.rand(), 2)
        if kind == 'rigid2':
            bc = L([B.part(sd), B.part(corner)], {allc: allc}, None, ())
            for i in nod:
                for c in range(nc):
                    row([(S.dof(name, i, c), 1.0), (S.dof(name, single, c), -1.0)])
        else:
            own = rng.rand() < 0.5

            def weights(mc, sc):
                out = np.ones((len(sc), dim * (dim + 1) // 2))
                out[:, :dim] = (sw + abs(sc - mc).sum(1))[:, None] * np.arange(1, dim + 1)
                return out
            if own:
                funs.append(Function('wei', weights))
                w = weights(Y[[single]], Y[nod])[:, :dim]
            else:
                w = np.ones((len(nod), dim))
            # (independent, dependent)
            bc = L([B.part(sd), B.part(corner)], {allc: allc}, 'wei' if own else None, ())
            for c in range(nc):
                row([(S.dof(name, single, c), 1.0)]
                    + [(S.dof(name, i, c), -w[k, c] / w[:, c].sum()) for k, i in enumerate(nod)])
    elif kind == 'rigid_twist':
        anchor = np.round(rng.randn(dim), 2)
        h = float(np.round(rng.randn(), 2))
        rs = B.part(opp)
        if dim == 3:
            axis = rng.randn(3)
            axis /= np.linalg.norm(axis)
        else:
            axis = np.array([1.0])
        bc = L(none, {allc: None}, None, (rs.name, anchor.tolist(), axis.tolist(), h))
        used = [sd, opp]
        Xm, Xs = Y[nod] - anchor, Y[nop] - anchor
        E = lambda X: np.tile(np.eye(dim), (len(X), 1))
        A = np.vstack([np.hstack([E(Xm), spin(Xm)]), np.hstack([E(Xs), spin(Xs)])])
        if dim == 3:
            w = np.concatenate([-0.5 * (spin(Xm) @ axis + h * np.tile(axis, len(Xm))),
                                0.5 * (spin(Xs) @ axis + h * np.tile(axis, len(Xs)))])
        else:
            raise AssertionError
        span(dofs(np.concatenate([nod, nop])), np.hstack([A, w[:, None]]))
    return bc, funs, used

def touches(B, a, b):
    """Do two parts have common points?"""
    return not any(x == y and s != t for x, s in a for y, t in b)

def dims_for(kind, g):
    return kind != 'rigid_twist' or g[0] == '3'

def run_lcbc(mon, case):
    from sfepy.discrete import Functions
    from sfepy.discrete.conditions import Conditions
    rng = gen.rngof(case)
    kind = case['lc']
    g = case['mesh']
    if kind == 'rigid_twist':
        g = ['3_4', '3_8'][rng.randint(2)]
    B = Box(rng, g, order=1 if kind == 'edge_direction' else None,
            min_size=2)
    eqs = B.equations()
    S = Sys(B, eqs)
    bc, funs, used = make_lcbc(mon, rng, B, S, kind)
    lcs = [bc]
    if rng.rand() < 0.4:
        # The other variable, too.
        bc2, f2, u2 = make_lcbc(mon, rng, B, S, ['integral_mean_value', 'match_dofs'][rng.randint(2)], 'p')
        bc2.key = 'lcbc_2'
        for f in f2:
            f.name = f.name + '2'
        if isinstance(bc2.dof_map_fun, str):
            bc2.dof_map_fun += '2'
        lcs.append(bc2)
        funs += f2
        used_p = u2
    else:
        used_p = []
    order = rng.permutation(len(lcs))
    # Essential conditions elsewhere.
    todo = []
    f1 = []
    for name, us in (('u', used), ('p', used_p)):
        av = [p for p in parts(B) if not any(touches(B, p, q) for q in us)]
        if av and rng.rand() < 0.7:
            t, ff = make_ebcs(mon, rng, B, S, av, n_max=2, names=name, tag=name)
            todo += t
            f1 += ff
    todo.sort(key=lambda a: a[0])
    put_ebcs(B, S, todo)
    ebcs = Conditions([t[1] for t in todo]) if todo else None
    F = Functions(funs + f1)
    eqs.time_update(None, ebcs, None, Conditions([lcs[i] for i in order]), F, verbose=False)
    eqs.init_state()
    what = kind if len(lcs) == 1 else kind
    check_space(mon, rng, eqs, S, what)
    for l in lcs:
        l.dofs = dict(l.dofs)
    C, d, _ = S.system()
    if null(C, S.n).shape[1]:
        solve(mon, B, S, Conditions([t[1] for t in todo]) if todo else None, None, Conditions(lcs), F, kind)
    # The conditions are removed.
    eqs.time_update(None, None, None, None, F, verbose=False)
    S.rows, S.rhs = [], []
    S.fixed.clear()
    check_space(mon, rng, eqs, S, 'cleared')
    mon.event('cleared')
    mon.sig(case['mesh'], kind, len(lcs), len(todo))

def run_both(mon, case):
    """Linear combination and periodic conditions together."""
    from sfepy.discrete import Functions
    from sfepy.discrete.conditions import Conditions
    rng = gen.rngof(case)
    B = Box(rng, case['mesh'])
    eqs = B.equations()
    S = Sys(B, eqs)
    mode = rng.randint(2)
    if mode == 0:
        # Different variables.
        kind = ['rigid', 'no_penetration', 'integral_mean_value', 'nodal_combination'][rng.randint(4)]
        bc, funs, used = make_lcbc(mon, rng, B, S, kind, 'u')
        ep, f2 = make_epbcs(mon, rng, B, S, names='p')
    else:
        # Both on one variable: the sides of the periodicity end on the side of the combination.
        kind = ['no_penetration', 'normal_direction'][rng.randint(2)]
        bc, funs, used = make_lcbc(mon, rng, B, S, kind, 'u')
        ax = used[0][0][0]
        ep, f2 = [], []
        st = rng.get_state()
        others = [a for a in range(B.dim) if a != ax]
        if others:
            from sfepy.discrete.conditions import PeriodicBC
            from sfepy.discrete import Function
            from sfepy.discrete.fem import periodic as per
            a = others[rng.randint(len(others))]
            fl = rng.randint(2)
            s = [((a, fl),), ((a, 1 - fl),)]
            fun = [per.match_x_plane, per.match_y_plane, per.match_z_plane][a]
            f2 = [Function('mm', fun)]
            ep = [PeriodicBC('per', [B.part(s[0]), B.part(s[1])], {'u.all': 'u.all'}, 'mm', key='epbc_1')]
            f = B.fu
            Y = np.asarray(f.get_coor())
            n1 = B.nodes(f, s[1])
            for i in B.nodes(f, s[0]):
                j = n1[int(np.argmin(abs(np.delete(Y[n1] - Y[i], a, 1)).max(1)))]
                for c in range(B.dim):
                    S.pairs.append((S.dof('u', i, c), S.dof('u', j, c)))
    F = Functions(funs + f2)
    eqs.time_update(None, None, Conditions(ep) if ep else None, Conditions([bc]), F, verbose=False)
    eqs.init_state()
    what = 'both_' + ('separate' if mode == 0 else kind)
    check_space(mon, rng, eqs, S, what)
    bc.dofs = dict(bc.dofs)
    solve(mon, B, S, None, Conditions(ep) if ep else None, Conditions([bc]), F, what)
    mon.event('lcbc + epbc')
    mon.sig(case['mesh'], kind, mode, len(ep))

# -- time -------------------------------------------------------------------------------------

def run_times(mon, case):
    """Conditions of the current time in each step."""
    from sfepy.discrete import Functions, Problem
    from sfepy.discrete.conditions import Conditions, InitialCondition
    from sfepy.solvers.ts_solvers import SimpleTimeSteppingSolver
    rng = gen.rngof(case)
    B = Box(rng, case['mesh'])
    eqs = B.equations(True)
    S = Sys(B, eqs)
    epbcs, f2 = make_epbcs(mon, rng, B, S) if rng.rand() < 0.4 else ([], [])
    todo, f1 = make_ebcs(mon, rng, B, S, timed=True)
    F = Functions(f1 + f2)
    om = B.dom.regions['Omega']
    i0 = np.round(rng.randn(2), 2)
    ics = Conditions([InitialCondition('i1', om, {'u.all': float(i0[0])}, key='ic_1'),
                      InitialCondition('i2', om, {'p.all': float(i0[1])}, key='ic_2')])
    # Conditions changing in time require the full-size systems.
    pb = Problem('p', equations=eqs, functions=F, active_only=False)
    pb.set_bcs(ebcs=Conditions([t[1] for t in todo]), epbcs=Conditions(epbcs) if epbcs else None)
    pb.set_ics(ics)
    n = int(rng.randint(3, 7))
    tss = SimpleTimeSteppingSolver({'t0': 0.0, 't1': 1.0, 'n_step': n, 'quasistatic': False},
                                   nls=solvers(mon), context=pb, verbose=False)
    pb.set_solver(tss)
    hist = []

    def hook(pb, ts, variables):
        hist.append((ts.step, ts.time, np.array(variables()), ts.dt))
    pb.solve(save_results=False, step_hook=hook, verbose=False)
    mon.equal('times', [h[0] for h in hist], list(range(n)), 'steps')
    from sfepy.solvers.ts import TimeStepper
    for k, (step, t, x, dt) in enumerate(hist):
        put_ebcs(B, S, todo, t, step)
        C, d, bad = S.system(x)
        err = C @ x - d
        mon.close('times', err, np.zeros_like(err), atol=1e-9 * max(1.0, abs(x).max()),
                  msg='conditions of step %d' % step)
        mon.ok('times', not bad, 'periodic DOFs with different values')
        N = null(C, S.n)
        if k and N.shape[1]:
            ts = TimeStepper(0.0, 1.0, n_step=n)
            ts.set_step(step)
            r = residual(B, x, (ts, hist[k - 1][2]))
            mon.close('times', N.T @ r, np.zeros(N.shape[1]), atol=1e-6 * max(1.0, abs(r).max()),
                      msg='the remaining equations of step %d' % step)
        elif not k:
            # The initial state: initial conditions with the essential ones.
            z = np.zeros(S.n)
            for q, nm in enumerate('up'):
                f = B.fields[nm]
                z[S.off[nm]:S.off[nm] + f.n_nod * f.n_components] = i0[q]
            free = np.where(abs(C).sum(0) == 0)[0] if len(C) else np.arange(S.n)
            mon.close('times', x[free], z[free], rtol=1e-13, msg='initial state')
        mon.event('transient')
    mon.sig(case['mesh'], n, len(todo), len(epbcs))

def run_lctimes(mon, case):
    """Linear combinations active in given times, with shifts depending on time."""
    from sfepy.discrete import Functions, Problem
    from sfepy.discrete.conditions import Conditions
    from sfepy.solvers.ts_solvers import SimpleTimeSteppingSolver
    from sfepy.solvers.ts import TimeStepper
    rng = gen.rngof(case)
    B = Box(rng, case['mesh'])
    eqs = B.equations()
    S = Sys(B, eqs)
    kind = ['rigid', 'integral_mean_value', 'no_penetration', 'shifted_periodic', 'nodal_combination'][rng.randint(5)]
    a = sorted(np.round(rng.rand(2), 2))
    n = int(rng.randint(3, 6))
    times = [(a[0], a[1] + 0.3)] if kind != 'shifted_periodic' or rng.rand() < 0.5 else None
    st = rng.get_state()
    bc, funs, used = make_lcbc(mon, rng, B, S, kind, times=times)
    rows, rhs = S.rows, S.rhs
    F = Functions(funs)
    if times is not None:
        # The set of conditions changes: the spaces of each step.
        for step in range(n):
            ts = TimeStepper(0.0, 1.0, n_step=n)
            ts.set_step(step)
            t = ts.time
            act = any(s <= t < e for s, e in times)
            eqs.time_update(ts, None, None, Conditions([bc]), F, verbose=False)
            S.rows, S.rhs = (rows, [v + (t if kind == 'shifted_periodic' else 0.0) for v in rhs]) if act else ([], [])
            check_space(mon, rng, eqs, S, 'lctimes')
            mon.event('lcbc times')
        mon.sig(case['mesh'], kind, n, True)
        return
    pb = Problem('p', equations=eqs, functions=F)
    pb.set_bcs(lcbcs=Conditions([bc]))
    tss = SimpleTimeSteppingSolver({'t0': 0.0, 't1': 1.0, 'n_step': n, 'quasistatic': True},
                                   nls=solvers(mon), context=pb, verbose=False)
    pb.set_solver(tss)
    hist = []

    def hook(pb, ts, variables):
        hist.append((ts.step, ts.time, np.array(variables())))
    pb.solve(save_results=False, step_hook=hook, verbose=False)
    for step, t, x in hist:
        act = times is None or any(s <= t < e for s, e in times)
        S.rows, S.rhs = (rows, [v + (t if kind == 'shifted_periodic' else 0.0) for v in rhs]) if act else ([], [])
        C, d, bad = S.system(x)
        err = C @ x - d
        mon.close('lctimes', err, np.zeros_like(err), atol=1e-8 * max(1.0, abs(x).max()),
                  msg='%s in step %d, time %f, times %s' % (kind, step, t, times))
        N = null(C, S.n)
        r = residual(B, x)
        mon.close('lctimes', N.T @ r, np.zeros(N.shape[1]), atol=1e-7 * max(1.0, abs(r).max()),
                  msg='the remaining equations, %s in step %d' % (kind, step))
        mon.event('lcbc times')
    mon.sig(case['mesh'], kind, n, times is None)

def run_ic(mon, case):
    """Initial conditions by constants, sequences and functions, in the order of keys."""
    from sfepy.discrete import Functions, Function
    from sfepy.discrete.conditions import Conditions, InitialCondition
    rng = gen.rngof(case)
    B = Box(rng, case['mesh'])
    eqs = B.equations()
    eqs.time_update(None, None, None, None, None, verbose=False)
    eqs.init_state()
    S = Sys(B, eqs)
    todo, funs = [], []
    keys = rng.permutation(26)
    for k in range(int(rng.randint(1, 5))):
        nm = 'up'[rng.randint(2)]
        nc = B.fields[nm].n_components
        spec = ((),) if rng.rand() < 0.5 else None
        if spec:
            reg, sp = B.dom.regions['Omega'], ()
        else:
            ps = parts(B)
            sp = ps[rng.randint(len(ps))]
            reg = B.part(sp)
        comps = list(range(nc)) if rng.rand() < 0.6 else [int(rng.randint(nc))]
        dd = nm + ('.all' if len(comps) == nc else '.%d' % comps[0])
        c0 = np.round(rng.randn(len(comps)), 2)
        g = np.round(rng.randn(B.dim, len(comps)), 2)
        if rng.rand() < 0.5:
            own = lambda X, c=c0, g=g: c + np.sin(X) @ g
            fn = 'ic%d' % k

            def fun(coors, ic=None, own=own):
                return own(np.asarray(coors)).ravel()
            funs.append(Function(fn, fun))
            v = fn
        else:
            v = float(c0[0]) if len(c0) == 1 else c0.tolist()
            own = lambda X, c=c0: np.tile(c, (len(X), 1))
        key = 'ic_' + chr(97 + keys[k])
        todo.append((key, InitialCondition('i%d' % k, reg, {dd: v}, key=key), nm, sp, comps, own))
    ics = [todo[i][1] for i in rng.permutation(len(todo))]
    eqs.setup_initial_conditions(Conditions(ics), Functions(funs))
    x = np.asarray(eqs.create_vec()).copy()
    x[:] = rng.randn(len(x))
    eqs.variables.apply_ic(x)
    exp = np.zeros(S.n)
    have = {t[2] for t in todo}
    for key, ic, nm, sp, comps, own in sorted(todo, key=lambda t: t[0]):
        f = B.fields[nm]
        nods = B.nodes(f, sp)
        vals = own(np.asarray(f.get_coor())[nods])
        for i, nd in enumerate(nods):
            for j, c in enumerate(comps):
                exp[S.dof(nm, nd, c)] = vals[i, j]
    for nm in have:
        f = B.fields[nm]
        sl = slice(S.off[nm], S.off[nm] + f.n_nod * f.n_components)
        mon.close('ic', x[sl], exp[sl], rtol=1e-13, msg='initial conditions of ' + nm)
    mon.event('ic')
    mon.sig(case['mesh'], B.order, len(todo))

def run_match(mon, case):
    """Matching functions with various points, repeatedly."""
    from sfepy.discrete.fem import periodic as per
    rng = gen.rngof(case)
    for it in range(12):
        dim = int(rng.randint(2, 4))
        ax = int(rng.randint(dim))
        n = int(rng.randint(3, 6))
        P = rng.rand(n, dim)
        if dim == 2:
            k = ['x', 'y'][1 - ax]
            P[:, 1 - ax] = (rng.permutation(n) + 0.5 * rng.rand(n)) / n
        P[:, ax] = 0.0
        Q = P.copy()
        Q[:, ax] = 1.0
        p1, p2 = rng.permutation(n), rng.permutation(n)
        P, Q = P[p1], Q[p2]
        name = ['match_%s_plane' % 'xyz'[ax], 'match_coors'][0]
        if dim == 2 and rng.rand() < 0.6:
            name = 'match_%s_line' % 'xy'[1 - ax]
        elif rng.rand() < 0.2:
            name = 'match_coors'
            Q[:, ax] = 0.0
        i1, i2 = getattr(per, name)(P.copy(), Q.copy())
        d = abs(np.delete(P[i1] - Q[i2], ax, 1)).max()
        mon.ok('match', d < 1e-7 and sorted(i1) == list(range(n)) and sorted(i2) == list(range(n)),
               '%s: points %s and %s matched as %s and %s (call %d)' % (name, P.tolist(), Q.tolist(),
                                                                       list(i1), list(i2), it))
        mon.event('match')
    mon.sig('match', dim, n)

def run_rotation(mon, case):
    """Multi-point constraints of a node with rotations."""
    from sfepy.discrete import FieldVariable, Variables, Equations, Equation, Integral, Function, Functions
    from sfepy.discrete.conditions import Conditions, LinearCombinationBC
    from sfepy.discrete.fem import Field
    from sfepy.terms.terms import Term
    rng = gen.rngof(case)
    g = ['2_3', '2_4', '3_4', '3_8'][rng.randint(4)]
    dom = gen.to_domain(gen.raw_mesh(rng, g, 2, 0.2))
    dim = dom.shape.dim
    om = dom.create_region('Omega', 'all')
    X = dom.mesh.coors
    perm = rng.permutation(len(X))
    m = rng.randint(2, min(6, len(X)))
    many, one = np.sort(perm[:m]), int(perm[m])
    R1 = dom.create_region('R1', 'vertex %s' % ', '.join('%d' % i for i in many), 'vertex')
    R2 = dom.create_region('R2', 'vertex %d' % one, 'vertex')
    nr = dim * (dim - 1) // 2
    fu = Field.from_args('fu', np.float64, dim, om, approx_order=int(rng.randint(1, 3)))
    fw = Field.from_args('fw', np.float64, dim + nr, om, approx_order=1)
    u, v = FieldVariable('u', 'unknown', fu), FieldVariable('v', 'test', fu, primary_var_name='u')
    w, z = FieldVariable('w', 'unknown', fw), FieldVariable('z', 'test', fw, primary_var_name='w')
    integral = Integral('i', order=2)
    eqs = Equations([Equation('a', Term.new('dw_dot(v, u)', integral, om, v=v, u=u)),
                     Equation('b', Term.new('dw_dot(z, w)', integral, om, z=z, w=w))])
    kind = ['rigid2', 'average_force'][rng.randint(2)]
    own = kind == 'average_force' and rng.rand() < 0.6
    c = rng.rand()

    def weights(mc, sc):
        out = np.ones((len(sc), dim + nr))
        out[:] = (0.5 + c + np.abs(sc - mc).sum(1))[:, None] * np.linspace(1, 2, dim + nr)
        return out
    bc = LinearCombinationBC('l', [R1, R2], {'u.all': 'w.all'}, Function('weights', weights) if own else None, kind)
    eqs.time_update(None, None, None, Conditions([bc]), Functions([]), verbose=False)
    eqs.init_state()
    mon.event('rotation')
    D = X[many] - X[one]
    if dim == 3:
        S = np.array([[[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]] for d in D])
    else:
        S = np.array([[[-d[1]], [d[0]]] for d in D])
    for _ in range(2):
        ndof = eqs.variables.adi.n_dof_total
        lc = eqs.get_lcbc_operator()
        red = rng.randn(eqs.variables.get_matrix_shape()[1] if lc is None else eqs.variables.lcdi.n_dof_total)
        eqs.set_state(red, reduced=True, force=True)
        U, W = u().reshape(-1, dim)[many], w().reshape(-1, dim + nr)[one]
        if kind == 'rigid2':
            ref = W[:dim] + S @ W[dim:]
            mon.close('rotation', U, ref, 1e-11, 1e-12, msg='rigid2 with rotations on %s' % g)
        else:
            wt = weights(X[[one]], X[many]) if own else np.ones((m, dim + nr))
            wt = wt.copy()
            wt[:, dim:] *= np.linalg.norm(D, axis=1).mean()**2
            A, b = 0, 0
            for k in range(m):
                T = np.eye(dim + nr)
                T[:dim, dim:] = S[k]
                A = A + T.T @ np.diag(wt[k]) @ T
                b = b + T.T @ (wt[k] * np.r_[U[k], np.zeros(nr)])
            mon.close('rotation', W, np.linalg.solve(A, b), 1e-9, 1e-11, msg='average_force with rotations on %s' % g)
        mon.ok('rotation', np.unique(np.round(red, 12)).size == red.size, 'data')
    n_free = u.n_dof + w.n_dof - (m * dim if kind == 'rigid2' else dim + nr)
    mon.ok('rotation', len(red) == n_free, '%d active DOFs, not %d' % (len(red), n_free))
    mon.sig('rotation', g, kind, own)
