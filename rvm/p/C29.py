"""C29: Domain decomposition assigns and numbers every unknown exactly once.

Monitor: Random meshes (with holes, any numbering), fields and partitions (metis, naive, random, given by groups of cells) are
distributed by the real code over a communicator and a PETSc stand-in that record messages and global objects; owners, ranges,
numberings, cells and messages are compared with the definition, and local problems of all tasks are assembled through the maps and
compared entry by entry with the serial residual and matrix.
"""
import queue
import numpy as np
import scipy.sparse as sps
from rvm import gen

REQUIRED = ['partition', 'owners', 'numbering', 'cells', 'overlap', 'verify', 'messages', 'composite', 'expand', 'residual', 'matrix', 'rows',
            'prealloc', 'no overlap', 'evaluator', 'solution', 'sizes', 'single task']
ASSUMPTIONS = ['petsc4py is replaced by a stand-in keeping global vectors and matrices in one process, tasks run one after another',
               'the first task does not wait for messages of others']

GEOMS = ['2_3', '2_4', '3_4', '3_8']

def cases(rng, tier):
    n = 4 if tier == 'quick' else 40
    out = [dict(kind='partition') for _ in range(12 * n)]
    out += [dict(kind='maps', mesh=GEOMS[i % 4], cost=2) for i in range(40 * n)]
    out += [dict(kind='assemble', mesh=GEOMS[i % 4], cost=4) for i in range(32 * n)]
    out += [dict(kind='expand') for _ in range(3 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

# Stand-ins.

class World:
    """Objects shared by the tasks."""

    def __init__(self, mon, size):
        self.mon, self.size = mon, size
        self.queues = {(i, j): queue.Queue() for i in range(size) for j in range(size)}
        self.objects = {}
        self.n_msg = 0

class FakeMPI:
    def __init__(self, comm):
        self.comm = comm

    def send(self, obj, dest, tag=0):
        self.comm.world.n_msg += 1
        self.comm.world.queues[(self.comm.rank, dest)].put(('obj', obj))

    def Send(self, buf, dest, tag=0):
        self.comm.world.n_msg += 1
        self.comm.world.queues[(self.comm.rank, dest)].put(('buf', np.array(buf[0], copy=True)))

    def recv(self, buf=None, source=0, tag=0):
        kind, obj = self.comm.world.queues[(source, self.comm.rank)].get_nowait()
        self.comm.world.mon.ok('messages', kind == 'obj', 'an object is received but a buffer was sent')
        return obj

    def Recv(self, buf, source=0, tag=0):
        kind, arr = self.comm.world.queues[(source, self.comm.rank)].get_nowait()
        mon = self.comm.world.mon
        out = buf[0]
        mon.event('messages')
        mon.ok('messages', kind == 'buf' and arr.size == out.size and arr.dtype.itemsize == 4 and arr.flags.c_contiguous,
               'buffer of %s %s (item size %d) is received into %s %s' % (arr.shape, arr.dtype, arr.dtype.itemsize, out.shape, out.dtype))
        out[...] = arr.reshape(out.shape)

class FakeComm:
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def tompi4py(self):
        return FakeMPI(self)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        pass

class Enum:
    def __init__(self, **kw):
        self.__dict__.update(kw)

class FakeVec:
    Option = Enum(IGNORE_NEGATIVE_INDICES='ini')

    def __init__(self, data=None, range_=None, world=None):
        self.data, self.range, self.world, self.options = data, range_, world, {}

    def create(self, comm=None):
        return self

    def setSizes(self, n):
        self.data = np.zeros(n)

    def setUp(self):
        pass

    def setOption(self, opt, val):
        self.options[opt] = val

    def getOwnershipRange(self):
        return self.range

    def setValues(self, idx, vals, mode):
        idx, vals = np.asarray(idx), np.asarray(vals)
        keep = idx >= 0
        if not keep.all() and not self.options.get('ini'):
            self.world.mon.ok('rows', False, 'negative indices are set')
        if mode == 'insert':
            self.data[idx[keep]] = vals[keep]
            self.world.rows.append(idx[keep])
        else:
            np.add.at(self.data, idx[keep], vals[keep])

    def assemble(self):
        pass

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, v):
        self.data[i] = v

class FakeMat:
    def create(self, comm):
        self.comm, self.world = comm, comm.world
        return self

    def setType(self, t):
        pass

    def setSizes(self, sizes):
        (self.n_loc, self.n), _ = sizes

    def setPreallocationCSR(self, csr):
        self.prealloc = csr

    def setUp(self):
        w = self.world
        w.objects.setdefault('mat', np.zeros((self.n, self.n)))
        w.objects.setdefault('count', np.zeros((self.n, self.n), dtype=int))
        w.objects.setdefault('rhs', np.zeros(self.n))
        w.objects.setdefault('sol', np.zeros(self.n))
        # The ranges follow each other in the order of ranks.
        locs = w.objects.setdefault('locs', {})
        locs[self.comm.rank] = self.n_loc

    def getOwnershipRange(self):
        locs = self.world.objects['locs']
        i0 = sum(locs[r] for r in range(self.comm.rank))
        return (i0, i0 + self.n_loc)

    def getVecs(self):
        r = self.getOwnershipRange()
        o = self.world.objects
        return FakeVec(o['sol'], r, self.world), FakeVec(o['rhs'], r, self.world)

    def setLGMap(self, a, b):
        self.map = np.asarray(a.dofs)

    def setValuesLocalCSR(self, indptr, indices, data, mode):
        m = self.map
        rows = np.repeat(m[:len(indptr) - 1], np.diff(indptr))
        cols = m[indices]
        w = self.world
        if mode == 'insert':
            r = self.getOwnershipRange()
            w.mon.event('rows')
            w.mon.ok('rows', ((rows >= r[0]) & (rows < r[1])).all(), 'a task inserts into rows of other tasks')
            if getattr(self, 'prealloc', None) is not None:
                ptr, idx = self.prealloc
                w.mon.event('prealloc')
                w.mon.ok('prealloc', len(ptr) == self.n_loc + 1, '%d rows are preallocated, not %d' % (len(ptr) - 1, self.n_loc))
                pairs = set(zip((np.repeat(np.arange(len(ptr) - 1), np.diff(ptr)) + r[0]).tolist(), np.asarray(idx).tolist()))
                used = set(zip(rows.tolist(), cols.tolist()))
                w.mon.ok('prealloc', used <= pairs, '%d entries are not preallocated' % len(used - pairs))
            w.objects['mat'][rows, cols] = data
        else:
            np.add.at(w.objects['mat'], (rows, cols), data)

    def assemble(self):
        pass

class FakeLGMap:
    def create(self, dofs, comm=None):
        self.dofs = dofs
        return self

class FakeIS:
    def createGeneral(self, dofs, comm=None):
        self.dofs = np.asarray(dofs)
        return self

class FakeScatter:
    def create(self, vec, isg, vec_i, ist):
        self.dofs = isg.dofs
        return self

    def scatter(self, src, dst, mode, smode='forward'):
        if smode == 'forward':
            dst.data[:] = src.data[self.dofs]
        else:
            dst.data[self.dofs] = src.data

    def toZero(self, vec):
        out = FakeScatter()
        out.dofs = slice(None)
        return out, FakeVec(np.zeros_like(vec.data))

FakePETSc = Enum(Vec=FakeVec, Mat=FakeMat, LGMap=FakeLGMap, IS=FakeIS, Scatter=FakeScatter, COMM_SELF=None, COMM_WORLD=None,
                 InsertMode=Enum(INSERT='insert', INSERT_VALUES='insert', ADD_VALUES='add'),
                 ScatterMode=Enum(FORWARD='forward', REVERSE='reverse'))

class Patched:
    def __enter__(self):
        import sfepy.parallel.parallel as pl
        self.pl, self.old = pl, (pl.PETSc, pl.MPI)
        pl.PETSc = FakePETSc
        if pl.MPI is None:
            pl.MPI = Enum(INTEGER4='i4')
        return pl

    def __exit__(self, *a):
        self.pl.PETSc, self.pl.MPI = self.old

# Meshes and partitions.

def some_raw(rng, g, size=None):
    size = size or (3 if g[0] == '2' else 2)
    return gen.raw_mesh(rng, g, size + rng.randint(2) * (g[0] == '2'), 0.2, holes=pick(rng, [0.0, 0.0, 0.2]))

def connected_parts(mesh):
    """Numbers of components of the graph of neighbouring cells."""
    cm = mesh.cmesh
    cm.setup_connectivity(cm.tdim, cm.tdim)
    cc = cm.get_conn(cm.tdim, cm.tdim)
    n = mesh.n_el
    a = sps.csr_array((np.ones(len(cc.indices)), cc.indices.astype(int), cc.offsets.astype(int)), shape=(n, n))
    return sps.csgraph.connected_components(a)

def manifold(mesh, tasks):
    """Do all tasks sharing a vertex share it through facets?"""
    cm = mesh.cmesh
    D = cm.tdim
    cm.setup_connectivity(0, D)
    cm.setup_connectivity(D - 1, D)
    cm.setup_connectivity(D - 1, 0)
    vc, fc, fv = cm.get_conn(0, D), cm.get_conn(D - 1, D), cm.get_conn(D - 1, 0)
    vt = [set() for _ in range(mesh.n_nod)]
    for f in range(fc.num):
        cells = fc.indices[fc.offsets[f]:fc.offsets[f + 1]]
        if len(cells) == 2 and tasks[cells[0]] != tasks[cells[1]]:
            for v in fv.indices[fv.offsets[f]:fv.offsets[f + 1]]:
                vt[v] |= {tasks[cells[0]], tasks[cells[1]]}
    for v in range(mesh.n_nod):
        own = set(tasks[vc.indices[vc.offsets[v]:vc.offsets[v + 1]]])
        if len(own) > 1 and own != vt[v]:
            return False
    return True

def partition(mon, rng, pl, mesh, size):
    """Tasks of the cells, all tasks are used."""
    n = mesh.n_el
    size = min(size, n)
    kind = pick(rng, ['metis', 'naive', 'random', 'blocks', 'balls'])
    if kind in ('metis', 'naive'):
        t = pl.partition_mesh(mesh, size, use_metis=kind == 'metis')
        t = np.asarray(t)
        if kind == 'naive':
            cnt = np.bincount(t, minlength=size)
            mon.ok('partition', cnt.max() - cnt.min() <= 1 and (np.diff(t) >= 0).all(), 'naive partition %s' % cnt)
        mon.ok('partition', t.shape == (n,) and t.min() >= 0 and t.max() < size, 'partition of %d cells in %d: %s' % (n, size, t[:10]))
    elif kind == 'random':
        t = rng.randint(size, size=n)
    elif kind == 'blocks':
        t = (np.arange(n) * size) // n
        t = rng.permutation(size)[t]
    else:
        X = np.array([mesh.coors[c].mean(axis=0) for d in mesh.descs for c in mesh.get_conn(d)])
        seeds = X[rng.permutation(n)[:size]]
        t = ((X[:, None] - seeds[None])**2).sum(-1).argmin(axis=1)
    used, t = np.unique(t, return_inverse=True)
    mon.event('partition')
    return t.astype(np.int32), len(used), kind

def run_partition(mon, case):
    rng = gen.rngof(case)
    with Patched() as pl:
        mesh = gen.to_mesh(some_raw(rng, pick(rng, GEOMS + ['mixed2', '3_6', '2_3d'])))
        t, size, kind = partition(mon, rng, pl, mesh, rng.randint(1, 6))
        inter = pl.get_inter_facets(_dom(mesh), t)
        cm = mesh.cmesh
        D = cm.tdim
        cm.setup_connectivity(D - 1, D)
        fc = cm.get_conn(D - 1, D)
        ref = {}
        for f in range(fc.num):
            c = fc.indices[fc.offsets[f]:fc.offsets[f + 1]]
            if len(c) == 2 and t[c[0]] != t[c[1]]:
                for a, b in ((t[c[0]], t[c[1]]), (t[c[1]], t[c[0]])):
                    ref.setdefault(int(a), {}).setdefault(int(b), []).append(f)
        got = {int(a): {int(b): sorted(int(f) for f in v) for b, v in x.items() if len(v)} for a, x in inter.items()}
        got = {a: x for a, x in got.items() if x}
        mon.ok('partition', got == ref, 'interfaces of tasks %s != %s' % (str(got)[:100], str(ref)[:100]))
    mon.sig('partition', kind, size)

def _dom(mesh):
    from sfepy.discrete.fem import FEDomain
    return FEDomain('d', mesh)

def make_field(rng, name, om, g):
    from sfepy.discrete.fem import Field
    nc = int(pick(rng, [1, 1, 2, 3]))
    order = pick(rng, [1, 1, 2, 3]) if g[0] == '2' else pick(rng, [1, 1, 2])
    basis = 'lagrange'
    if g in ('2_4', '3_8') and rng.rand() < 0.2:
        basis = pick(rng, ['lobatto', 'serendipity'])
        order = 2
    if basis == 'lagrange' and g in ('2_3', '3_4') and order == 1 and rng.rand() < 0.2:
        order = '1B'
    f = Field.from_args(name, np.float64, nc, om, approx_order=order, space='H1', poly_space_basis=basis)
    return f

def check_maps(mon, field, tasks, size, dof_maps, id_map, cell_parts, overlap, expanded, is_overlap):
    """Owners, numbering and cells of one field."""
    nc = field.n_components if expanded else 1
    n = field.n_nod * nc
    mon.event('owners')
    mon.ok('owners', sorted(dof_maps) == list(range(size)), 'tasks with maps %s of %d' % (sorted(dof_maps), size))
    if sorted(dof_maps) != list(range(size)):
        return None
    owner = -np.ones(n, dtype=int)
    of_cells = []
    econn = field.econn
    for r in range(size):
        m = dof_maps[r]
        own = np.concatenate([np.asarray(m[0])] + [np.asarray(a) for a in m[1]]).astype(int)
        mon.ok('owners', (owner[own] == -1).all() and np.unique(own).size == own.size, 'DOFs owned twice (task %d)' % r)
        owner[own] = r
        mon.ok('owners', len(own) == m[3], 'task %d owns %d DOFs, not %d' % (r, len(own), m[3]))
        rng_ = np.sort(np.asarray(id_map)[own].astype(int))
        mon.event('numbering')
        mon.equal('numbering', rng_, np.arange(m[4], m[4] + m[3]), 'numbers of the task %d' % r)
        cells = np.flatnonzero(tasks == r)
        mon.event('cells')
        mon.equal('cells', np.sort(np.asarray(cell_parts[r]).astype(int)), cells, 'cells of the task %d' % r)
        d = np.unique(econn[cells])
        d = (d[:, None] * nc + np.arange(nc)).ravel() if expanded else d
        mon.ok('owners', np.isin(own, d).all(), 'task %d owns DOFs out of its cells' % r)
        only = np.setdiff1d(d, np.concatenate([np.unique(econn[tasks != r]), [-1]])) if not expanded else None
        if only is not None:
            mon.ok('owners', np.isin(only, own).all(), 'task %d does not own all DOFs only of its cells' % r)
        # All cells of the owned DOFs.
        need = np.flatnonzero(np.isin(econn, np.unique(own // nc)).any(axis=1))
        mon.event('overlap')
        have = np.union1d(cells, np.asarray(overlap[r]).astype(int)) if is_overlap else need
        mon.ok('overlap', np.isin(need, have).all(), 'task %d misses cells %s of its DOFs' % (r, np.setdiff1d(need, have)[:5]))
        if not is_overlap:
            mon.ok('overlap', len(overlap[r]) == 0, 'overlap without overlap')
    mon.ok('owners', (owner >= 0).all(), '%d DOFs without owners' % (owner < 0).sum())
    mon.equal('numbering', np.sort(np.asarray(id_map).astype(int)), np.arange(n), 'numbers')
    mon.ok('numbering', [dof_maps[r][4] for r in range(size)] == np.cumsum([0] + [dof_maps[r][3] for r in range(size)])[:-1].tolist(), 'offsets')
    return owner

def run_maps(mon, case):
    rng = gen.rngof(case)
    g = case['mesh']
    with Patched() as pl:
        dom = gen.to_domain(some_raw(rng, g))
        om = dom.create_region('Omega', 'all')
        field = make_field(rng, 'f', om, g)
        t, size, kind = partition(mon, rng, pl, dom.mesh, pick(rng, [1, 2, 3, 4, 5]))
        if size == 1:
            mon.event('single task')
        n_reg = len(dom.regions)
        inter = pl.get_inter_facets(dom, t)
        for expanded in (False, True):
            is_overlap = bool(rng.randint(2))
            out = pl.create_task_dof_maps(field, t, inter, is_overlap=is_overlap, use_expand_dofs=expanded)
            owner = check_maps(mon, field, t, size, *out, expanded, is_overlap)
            if owner is None:
                return
            vec = pl.verify_task_dof_maps(out[0], out[1], field, use_expand_dofs=expanded)
            mon.event('verify')
            mon.equal('verify', vec.astype(int), owner, 'owners by verify_task_dof_maps()')
        mon.ok('cells', len(dom.regions) == n_reg, 'regions are left in the domain')
    mon.sig('maps', g, kind, size, field.approx_order, field.n_components)

def distribute(mon, pl, mesh_fun, field_fun, tasks, size, is_overlap, expanded):
    """Results of all tasks, each with its own domain and fields."""
    w = World(mon, size)
    w.rows = []
    res = []
    for rank in range(size):
        dom = mesh_fun()
        om = dom.create_region('Omega', 'all')
        fields = field_fun(om)
        comm = FakeComm(w, rank)
        lfds, gfds = pl.distribute_fields_dofs(fields, tasks if rank == 0 else None, is_overlap=is_overlap, use_expand_dofs=expanded, comm=comm)
        res.append(Enum(dom=dom, fields=fields, lfds=lfds, gfds=gfds, comm=comm))
    mon.ok('messages', all(q.empty() for q in w.queues.values()), 'messages are left')
    return w, res

def local_region(dom, cells):
    from sfepy.discrete.common.region import Region
    r = Region.from_cells(np.asarray(cells), dom)
    r.finalize()
    r.update_shape()
    return r

class Equ:
    """The equations on a domain."""

    def __init__(self, dom, spec, box, ebc):
        from sfepy.discrete import FieldVariable, Material, Integral, Equation, Equations, Problem, Function
        from sfepy.discrete.conditions import Conditions, EssentialBC
        from sfepy.discrete.fem import Field
        from sfepy.terms.terms import Term
        om = dom.create_region('Omega', 'all')
        dim = dom.shape.dim
        integral = Integral('i', order=3)
        V, eqs, self.fields = {}, [], []
        for i, (nc, order) in enumerate(spec):
            f = Field.from_args('f%d' % i, np.float64, nc, om, approx_order=order)
            self.fields.append(f)
            V['u%d' % i] = FieldVariable('u%d' % i, 'unknown', f, order=i)
            V['v%d' % i] = FieldVariable('v%d' % i, 'test', f, primary_var_name='u%d' % i)
        c = Material('c', function=Function('c', lambda ts, coors, mode=None, **kw:
                                            {'c': (1 + coors[:, :1]**2)[:, :, None]} if mode == 'qp' else None))
        l = Material('l', function=Function('l', lambda ts, coors, mode=None, **kw: {
            'l%d' % n: np.sin(coors.sum(axis=1))[:, None, None] * np.arange(1, n + 1)[None, :, None] for n in (1, 2, 3)} if mode == 'qp' else None))
        for i, (nc, order) in enumerate(spec):
            T = lambda s, **kw: Term.new(s, integral, om, **kw)
            u, v = V['u%d' % i], V['v%d' % i]
            t = T('dw_laplace(c.c, v%d, u%d)' % (i, i), c=c, **{v.name: v, u.name: u}) if nc == 1 else \
                T('dw_div_grad(c.c, v%d, u%d)' % (i, i), c=c, **{v.name: v, u.name: u})
            t = t + T('dw_dot(v%d, u%d)' % (i, i), **{v.name: v, u.name: u})
            if nc == 1:
                t = t + T('dw_volume_integrate(l.l1, v%d)' % i, l=l, **{v.name: v})
            elif nc == dim:
                t = t - T('dw_volume_lvf(l.l%d, v%d)' % (nc, i), l=l, **{v.name: v})
            for j, (mc, mo) in enumerate(spec):
                if j != i and mc == 1 and nc == dim:
                    t = t + 2 * T('dw_stokes(v%d, u%d)' % (i, j), **{v.name: v, 'u%d' % j: V['u%d' % j]})
                elif j != i and mc == nc:
                    t = t - 0.5 * T('dw_dot(v%d, u%d)' % (i, j), **{v.name: v, 'u%d' % j: V['u%d' % j]})
            eqs.append(Equation('e%d' % i, t))
        self.eqs = Equations(eqs)
        self.pb = Problem('p', equations=self.eqs, active_only=False)
        conds = []
        if ebc:
            for k, (a, side, vals) in enumerate(ebc):
                x = box[side, a]
                op = '<' if side == 0 else '>'
                reg = dom.create_region('G%d' % k, 'vertices in (%s %s %.14f)' % ('xyz'[a], op, x + (1e-8 if side == 0 else -1e-8)), 'facet',
                                        allow_empty=True)
                conds.append(EssentialBC('b%d' % k, reg, {'u%d.all' % k: vals}))
        self.pb.time_update(ebcs=Conditions(conds))
        self.pb.update_materials()
        self.vs = self.pb.get_initial_state() if hasattr(self.pb, 'get_initial_state') else self.eqs.variables

    def system(self, x, add=False):
        from sfepy.discrete.evaluate import apply_ebc_to_matrix
        r = self.eqs.eval_residuals(x)
        m = self.eqs.eval_tangent_matrices(x, self.pb.mtx_a.copy())
        if not add:
            eb = np.concatenate([v.eq_map.eq_ebc + self.eqs.variables.di.indx[v.name].start for v in self.eqs.variables.iter_state(ordered=True)])
            apply_ebc_to_matrix(m, eb)
        return r, m

def run_assemble(mon, case):
    from sfepy.discrete.fem import Mesh, FEDomain, Field
    from sfepy.discrete.evaluate import Evaluator
    rng = gen.rngof(case)
    g = case['mesh']
    dim = int(g[0])
    with Patched() as pl:
        from sfepy.parallel.evaluate import PETScParallelEvaluator
        raw = some_raw(rng, g)
        mesh_fun = lambda: gen.to_domain(raw)
        gdom = mesh_fun()
        nf = pick(rng, [1, 1, 2, 2, 3])
        spec = [(int(pick(rng, [1, dim])), int(pick(rng, [1, 1, 2]))) for _ in range(nf)]
        field_fun = lambda om: [Field.from_args('f%d' % i, np.float64, nc, om, approx_order=o) for i, (nc, o) in enumerate(spec)]
        t, size, kind = partition(mon, rng, pl, gdom.mesh, pick(rng, [1, 2, 3, 4]))
        is_overlap = rng.rand() < 0.75
        # The single-field scripts of scalar fields do not expand the DOFs.
        plain = nf == 1 and spec[0][0] == 1 and rng.rand() < 0.4
        if not is_overlap:
            mon.event('no overlap')
        box = gdom.get_mesh_bounding_box()
        ebc = [(int(rng.randint(dim)), int(rng.randint(2)), float(np.round(rng.randn(), 2))) for _ in range(nf)] if is_overlap and rng.rand() < 0.7 else None
        w, res = distribute(mon, pl, mesh_fun, field_fun, t, size, is_overlap, not plain)
        gfds = res[0].gfds
        ntot = sum(f.n_nod * f.n_components for f in res[0].fields)
        # The composite numbering.
        ids = [np.asarray(gfd.id_map).astype(int) for gfd in gfds]
        allids = np.concatenate(ids)
        mon.event('composite')
        mon.equal('composite', np.sort(allids), np.arange(ntot), 'composite numbers')
        off = 0
        for r in range(size):
            for i, gfd in enumerate(gfds):
                m = gfd.dof_maps[r]
                own = np.concatenate([np.asarray(m[0])] + [np.asarray(a) for a in m[1]]).astype(int)
                mon.equal('composite', np.sort(ids[i][own]), np.arange(off, off + m[3]), 'field %d in the task %d' % (i, r))
                lr = res[r].lfds[i].petsc_dofs_range
                mon.ok('composite', tuple(int(k) for k in lr) == (off, off + m[3]), 'range %s of the field %d in the task %d' % (lr, i, r))
                off += m[3]
        # The serial problem.
        S = Equ(gdom, spec, box, ebc)
        st = S.eqs.variables.di.indx
        x = rng.randn(ntot)
        S.eqs.variables.apply_ebc(x)
        order = np.concatenate([ids[i] for i in range(nf)])    # serial -> PETSc
        rr, mm = S.system(x, add=not is_overlap)
        ref_r, ref_m = np.zeros(ntot), np.zeros((ntot, ntot))
        ref_r[order] = rr
        ref_m[np.ix_(order, order)] = mm.toarray()
        # The local problems.
        loc = []
        for r in range(size):
            R = res[r]
            for i, lfd in enumerate(R.lfds):
                mon.equal('cells', np.asarray(lfd.cells), np.asarray(R.lfds[0].cells), 'cells of fields') if not is_overlap else None
            cells = np.unique(np.concatenate([np.asarray(l.cells) for l in R.lfds]))
            if any(len(l.cells) != len(cells) for l in R.lfds):
                mon.ok('cells', False, 'fields of the task %d are on different cells' % r)
                return
            om = local_region(R.dom, cells)
            ldom = FEDomain('loc', Mesh.from_region(om, R.dom.mesh, localize=True))
            E = Equ(ldom, spec, box, ebc)
            if plain:
                lfd = R.lfds[0]
                sizes, drange = pl.get_sizes(lfd.petsc_dofs_range, R.fields[0].n_nod, 1)
                pdofs = pl.get_local_ordering(E.fields[0], lfd.petsc_dofs_conn)
            else:
                sizes, drange, pdofs = pl.setup_composite_dofs(R.lfds, R.fields, E.eqs.variables)
            mon.event('sizes')
            own = [sum(gfd.dof_maps[k][3] for gfd in gfds) for k in range(size)]
            mon.ok('sizes', tuple(int(k) for k in sizes) == (own[r], ntot) and tuple(int(k) for k in drange) == (sum(own[:r]), sum(own[:r + 1])),
                   'sizes %s, range %s of the task %d' % (sizes, drange, r))
            mon.ok('sizes', np.unique(pdofs).size == pdofs.size == E.eqs.variables.di.n_dof_total, 'local ordering')
            # The same points.
            X, k0 = np.zeros((ntot, dim)), 0
            for i, f in enumerate(res[0].fields):
                X[ids[i]] = np.repeat(f.get_coor(), f.n_components if not plain else 1, axis=0)
            Y = np.concatenate([np.repeat(f.get_coor(), f.n_components, axis=0) for f in E.fields])
            mon.close('sizes', X[pdofs], Y, 1e-12, 1e-12, msg='points of the local DOFs of the task %d' % r)
            loc.append(Enum(E=E, pdofs=pdofs, drange=tuple(int(k) for k in drange), sizes=tuple(int(k) for k in sizes), comm=R.comm))
        xp = np.zeros(ntot)
        xp[order] = x
        for L in loc:
            L.system = pl.create_petsc_system(L.E.pb.mtx_a.copy(), L.sizes, L.pdofs, L.drange, is_overlap=is_overlap, comm=L.comm)
        for L in loc:
            r_, m_ = L.E.system(xp[L.pdofs], add=not is_overlap)
            pmtx, psol, prhs = L.system
            pl.assemble_rhs_to_petsc(prhs, r_, L.pdofs, L.drange, is_overlap=is_overlap, comm=L.comm)
            pl.assemble_mtx_to_petsc(pmtx, m_, L.pdofs, L.drange, is_overlap=is_overlap, comm=L.comm)
        o = w.objects
        scale = np.abs(ref_m).max()
        mon.event('residual')
        mon.event('matrix')
        mon.close('residual', o['rhs'], ref_r, 1e-10, 1e-11 * max(np.abs(ref_r).max(), 1), msg='%d tasks, %d fields, %s' % (size, nf, kind))
        mon.close('matrix', o['mat'], ref_m, 1e-10, 1e-11 * scale, msg='%d tasks, %d fields, %s' % (size, nf, kind))
        if is_overlap:
            rows = np.sort(np.concatenate(w.rows))
            mon.equal('rows', rows, np.arange(ntot), 'set rows of the residual')
            # The evaluators.
            ref2 = Evaluator(S.pb).eval_residual(x, is_full=True)
            m2 = Evaluator(S.pb).eval_tangent_matrix(x, is_full=True)
            o['rhs'][:] = 0
            o['mat'][:] = 0
            for L in loc:
                pmtx, psol, prhs = L.system
                psol.data[:] = xp
                ev = PETScParallelEvaluator(L.E.pb, L.pdofs, L.drange, is_overlap, psol, L.comm)
                ev.eval_residual(None, psol, prhs)
                ev.eval_tangent_matrix(None, psol, pmtx, pmtx)
                mon.ok('evaluator', np.array_equal(psol.data, xp), 'the solution is changed')
            mon.event('evaluator')
            mon.close('evaluator', o['rhs'][order], ref2, 1e-10, 1e-11 * max(np.abs(ref2).max(), 1), msg='residual')
            mon.close('evaluator', o['mat'][np.ix_(order, order)], m2.toarray(), 1e-10, 1e-11 * scale, msg='matrix')
            # Gathering.
            sol = rng.randn(ntot)
            psol = loc[0].system[1]
            psol.data[:] = 0
            for L in loc:
                pv = pl.create_local_petsc_vector(L.pdofs)
                gather, scatter = pl.create_gather_scatter(L.pdofs, pv, psol, comm=L.comm)
                pv[...] = sol[L.pdofs]
                gather(psol, pv)
            mon.event('solution')
            mon.equal('solution', psol.data, sol, 'gathered')
            mon.equal('solution', np.asarray(pl.create_gather_to_zero(psol)(psol)[...]), sol, 'gathered to zero')
    mon.sig('assemble', g, kind, size, nf, is_overlap, plain, bool(ebc))

def run_expand(mon, case):
    rng = gen.rngof(case)
    with Patched() as pl:
        for _ in range(10):
            nc = int(rng.randint(1, 5))
            d = rng.permutation(30)[:rng.randint(1, 20)].astype(np.int32)
            mon.event('expand')
            mon.equal('expand', pl.expand_dofs(d, nc), (d[:, None] * nc + np.arange(nc)).ravel(), 'expand_dofs()')
            e = rng.randint(20, size=(rng.randint(1, 6), rng.randint(1, 5))).astype(np.int32)
            mon.equal('expand', pl.expand_dofs(e, nc), (e[:, :, None] * nc + np.arange(nc)).reshape(e.shape[0], -1), 'expand_dofs() of a connectivity')
            a = sorted(rng.randint(50, size=2).tolist())
            s, dr = pl.get_sizes((a[0], a[1]), 60, nc)
            mon.ok('expand', s == (nc * (a[1] - a[0]), 60 * nc) and dr == (nc * a[0], nc * a[1]), 'get_sizes()')
    mon.sig('expand')
