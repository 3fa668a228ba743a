"""C28: Stored results and data objects read back as they were saved.

Monitor: Random nested data objects, matrices, dictionaries, coefficients, step results, probe results and logs are stored and read
back, and what is read is compared with what was stored, including identities of shared objects; results files are written for
random subsets of steps, by the mesh interface and by solved problems, and every reader (steps, times, data, histories, dumps,
extractions, restoring of variables) is compared with the recorded data.
"""
import io
import os
import pickle
import shutil
import tempfile
import numpy as np
import scipy.sparse as sps
from rvm import gen

REQUIRED = ['object', 'shared', 'sparse', 'dictionary', 'coefs', 'steps', 'data', 'history', 'variables history', 'extracted', 'element history',
            'dump', 'solved', 'restored', 'probe', 'log', 'names', 'split', 'command', 'selected']
ASSUMPTIONS = ['keys of stored dictionaries are strings usable as names of nodes', 'strings contain no zero characters']

def cases(rng, tier):
    n = 3 if tier == 'quick' else 12
    out = [dict(kind='objects') for _ in range(30 * n)]
    out += [dict(kind='sparse') for _ in range(6 * n)]
    out += [dict(kind='dicts') for _ in range(10 * n)]
    out += [dict(kind='results', cost=2) for _ in range(30 * n)]
    out += [dict(kind='solved', cost=4) for _ in range(16 * n)]
    out += [dict(kind='probes') for _ in range(8 * n)]
    out += [dict(kind='log') for _ in range(10 * n)]
    out += [dict(kind='names') for _ in range(4 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def pick(rng, seq):
    return seq[rng.randint(len(seq))]

class Dir:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='c28-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

class Thing:
    def __init__(self, a):
        self.a = a

    def __eq__(self, other):
        return type(other) is Thing and other.a == self.a

# Data objects.

WORDS = ['alpha', 'b_1', 'C', 'delta long', 'řeka', 'x.y', '-', 'True', '']

def array(rng, small=True):
    shape = tuple(rng.randint(1, 4, rng.randint(1, 5)))
    d = pick(rng, ['f', 'c', 'i', 'u', 'b', 'F', 's'])
    a = rng.randn(*shape)
    if d == 'c':
        a = a + 1j * rng.randn(*shape)
    elif d == 'i':
        a = (100 * a).astype(np.int32)
    elif d == 'u':
        a = np.abs(100 * a).astype(np.uint8)
    elif d == 'b':
        a = a > 0
    elif d == 'F':
        # PyTables store arrays with dimensions of one item and negative strides wrongly.
        a = np.asfortranarray(a)[..., ::-1] if min(a.shape) > 1 else a
    elif d == 's':
        a = np.float64(a.flat[0]) * np.ones(())
    return a

def sparse(rng):
    n, m = rng.randint(1, 7, 2)
    a = sps.random(n, m, 0.4, random_state=rng)
    if rng.rand() < 0.3:
        a = a + 1j * a
    elif rng.rand() < 0.2:
        a = (10 * a).astype(np.int64)
    cls = pick(rng, [sps.csr_array, sps.csc_array, sps.csr_matrix, sps.csc_matrix])
    return cls(a)

def obj(rng, depth, pool):
    """A random object; `pool` holds the shared objects."""
    from sfepy.base.base import Struct
    r = rng.randint(14)
    if (r >= 9) and depth <= 0:
        r = rng.randint(9)
    if r == 0:
        return pick(rng, [True, False, None])
    elif r == 1:
        return pick(rng, [0, 1, -7, 2**40, 3.5, -1e-300, 1e22, float('inf'), 2 - 3j])
    elif r == 2:
        return pick(rng, WORDS[:-1])
    elif r in (3, 4):
        return array(rng)
    elif r == 5:
        return sparse(rng)
    elif r == 6:
        return pick(rng, [b'bytes\x01', {1, 2, 3}, Thing(5), np.float32(1.5), np.int64(3), range(4), frozenset('ab'), np.bool_(True)])
    elif r == 7:
        return pick(rng, pool) if pool else 1
    elif r == 8:
        return pick(rng, pool) if pool else 1.5
    n = rng.randint(0, 12) if rng.rand() < 0.2 else rng.randint(0, 4)
    if r in (9, 10):
        keys = ['k%d' % i for i in rng.permutation(15)[:n]]
        if rng.rand() < 0.3:
            keys = [pick(rng, ['u', 'data_x', 'type', 'len', 'cache', 'data', 'a b', 'x.y']) for _ in keys]
        return {k: obj(rng, depth - 1, pool) for k in keys}
    elif r == 11:
        return [obj(rng, depth - 1, pool) for _ in range(n)]
    elif r == 12:
        return tuple(obj(rng, depth - 1, pool) for _ in range(n))
    else:
        return Struct(name=pick(rng, WORDS[:-1]), **{'a%d' % i: obj(rng, depth - 1, pool) for i in range(n)})

def same_mesh(a, b):
    ca, cb = a._get_io_data(), b._get_io_data()
    return (a.name == b.name and np.array_equal(ca[0], cb[0]) and np.array_equal(ca[1], cb[1]) and list(ca[4]) == list(cb[4])
            and all(np.array_equal(x, y) for x, y in zip(ca[2], cb[2])) and all(np.array_equal(x, y) for x, y in zip(ca[3], cb[3]))
            and a.nodal_bcs.keys() == b.nodal_bcs.keys()
            and all(np.array_equal(np.asarray(a.nodal_bcs[k]), np.asarray(b.nodal_bcs[k])) for k in a.nodal_bcs))

def unmark(a):
    from sfepy.base.ioutils import DataMarker
    return a.data if isinstance(a, DataMarker) else a

def differ(a, b, path=''):
    """The first difference of the stored `a` and of the read `b`."""
    from sfepy.base.base import Struct
    from sfepy.discrete.fem import Mesh
    a, b = unmark(a), unmark(b)
    if a is None or isinstance(a, (bool, str, bytes)):
        return None if type(a) is type(b) and a == b else '%s: %r != %r' % (path, a, b)
    if isinstance(a, (int, float, complex)) and not isinstance(a, np.generic):
        ok = np.ndim(b) == 0 and a == b and np.asarray(b).dtype.kind == np.asarray(a).dtype.kind
        return None if ok else '%s: %r != %r' % (path, a, b)
    if isinstance(a, np.generic):
        return None if a == b else '%s: %r != %r' % (path, a, b)
    if isinstance(a, np.ndarray):
        b = np.asarray(b)
        ok = a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
        return None if ok else '%s: array %s %s != %s %s' % (path, a.shape, a.dtype, b.shape, b.dtype)
    if sps.issparse(a):
        ok = sps.issparse(b) and a.format == b.format and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a.toarray(), b.toarray())
        return None if ok else '%s: sparse %r != %r' % (path, a, b)
    if isinstance(a, Mesh):
        return None if isinstance(b, Mesh) and same_mesh(a, b) else '%s: meshes differ' % path
    if isinstance(a, Struct):
        if type(b) is not Struct:
            return '%s: %s is not a Struct' % (path, type(b))
        a, b = a.__dict__, b.__dict__
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return '%s: keys %s != %s' % (path, sorted(a), sorted(b) if isinstance(b, dict) else type(b))
        for k in a:
            d = differ(a[k], b[k], path + '/' + k)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %s of %d != %s' % (path, type(a).__name__, len(a), type(b).__name__)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %r != %r' % (path, a, b)

def walk(a, b, pairs):
    """Pairs of the stored and read objects."""
    from sfepy.base.base import Struct
    a, b = unmark(a), unmark(b)
    pairs.append((a, b))
    if isinstance(a, Struct) and isinstance(b, Struct) and type(a) is Struct:
        a, b = a.__dict__, b.__dict__
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            walk(a[k], b[k], pairs)
    elif isinstance(a, (list, tuple)):
        for x, y in zip(a, b):
            walk(x, y, pairs)

def some_mesh(rng):
    mesh = gen.to_mesh(gen.raw_mesh(rng, pick(rng, ['2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6', '1_2']), 2))
    mesh.name = pick(rng, ['mesh', 'a mesh', 'm-1'])
    if rng.rand() < 0.4:
        mesh.nodal_bcs['bc1'] = np.array([0, 1], dtype=np.int32)
    return mesh

def run_objects(mon, case):
    import tables as pt
    from sfepy.base.ioutils import write_to_hdf5, read_from_hdf5, Cached, Uncached, DataSoftLink, SoftLink
    rng = gen.rngof(case)
    pool = []
    for _ in range(rng.randint(0, 4)):
        r = rng.randint(5)
        if r == 0:
            pool.append(some_mesh(rng))
        elif r == 1:
            pool.append(sparse(rng))
        elif r == 2:
            pool.append(Cached({'x': array(rng), 'y': 'shared'}))
        elif r == 3:
            pool.append(Cached([1, array(rng), 'q']))
        else:
            pool.append(Uncached(array(rng)))
    datas = [obj(rng, rng.randint(1, 4), pool) for _ in range(rng.randint(1, 4))]
    if pool:
        datas.append([pool[0], {'again': pool[0], 'last': pool[-1]}, (pool[-1], pool[0])])
    mon.event('object', len(datas))
    with Dir() as d:
        fn = os.path.join(d, 'a.h5')
        cache = {} if rng.rand() < 0.7 else None
        with pt.open_file(fn, 'w') as fd:
            g = fd.create_group('/', 'top')
            for i, data in enumerate(datas):
                before = pickle.dumps(i)
                write_to_hdf5(fd, g, 'item%d' % i, data, cache=cache)
            # A link to raw data and to an object.
            if rng.rand() < 0.5:
                arr = rng.randn(3, 2)
                fd.create_array('/', 'raw', arr)
                write_to_hdf5(fd, g, 'l1', DataSoftLink('raw', '/raw', cache=True))
                write_to_hdf5(fd, g, 'l2', [DataSoftLink('raw', '/raw', cache=True), 1])
                write_to_hdf5(fd, g, 'l3', SoftLink('/top/item0'))
                links = arr
            else:
                links = None
        with pt.open_file(fn, 'r') as fd:
            rc = {} if cache is not None else None
            outs = []
            for i in rng.permutation(len(datas)):
                outs.append((i, read_from_hdf5(fd, fd.get_node('/top/item%d' % i), cache=rc)))
            outs = [o for _, o in sorted(outs, key=lambda x: x[0])]
            for i, (a, b) in enumerate(zip(datas, outs)):
                msg = differ(a, b)
                mon.ok('object', msg is None, '%s' % msg)
                if msg is not None:
                    return
                again = read_from_hdf5(fd, fd.get_node('/top/item%d' % i))
                mon.ok('object', differ(a, again) is None, 'second read: %s' % differ(a, again))
            if links is not None:
                c = {}
                l1, l2 = read_from_hdf5(fd, fd.root.top.l1, cache=c), read_from_hdf5(fd, fd.root.top.l2, cache=c)
                mon.equal('object', l1, links, 'data link')
                mon.ok('shared', l2[0] is l1 and l2[1] == 1, 'the target of links is read twice')
                msg = differ(datas[0], read_from_hdf5(fd, fd.get_node('/top/l3'), cache=c))
                mon.ok('object', msg is None, 'soft link: %s' % msg)
    # References.
    from sfepy.discrete.fem import Mesh
    scopes = [list(zip(datas, outs))] if cache is not None else [[p] for p in zip(datas, outs)]
    for scope in scopes:
        pairs, marked = [], set()
        for a, b in scope:
            walk(a, b, pairs)
        marked = {id(p.data) for p in pool if isinstance(p, Cached)}
        first = {}
        for a, b in pairs:
            if isinstance(a, Mesh) or sps.issparse(a) or id(a) in marked:
                mon.event('shared')
                mon.ok('shared', first.setdefault(id(a), b) is b, 'a shared %s is read as several objects' % type(a).__name__)
        owners = {}
        for a, b in pairs:
            if isinstance(b, (np.ndarray, Mesh)) and not isinstance(a, np.generic):
                mon.ok('shared', owners.setdefault(id(b), id(a)) == id(a) or not isinstance(b, Mesh), 'two meshes are read as one')
    mon.sig('objects', len(datas), len(pool))

def run_sparse(mon, case):
    from sfepy.base.ioutils import write_sparse_matrix_hdf5, read_sparse_matrix_hdf5
    rng = gen.rngof(case)
    with Dir() as d:
        for _ in range(3):
            a = sparse(rng)
            fn = os.path.join(d, 'm.h5')
            write_sparse_matrix_hdf5(fn, a, name='x')
            b = read_sparse_matrix_hdf5(fn)
            mon.event('sparse')
            mon.ok('sparse', differ(a, b) is None, '%s' % differ(a, b))
            b = read_sparse_matrix_hdf5(fn, output_format=a.format)
            mon.ok('sparse', b.format == a.format and np.array_equal(a.toarray(), b.toarray()) and b.has_sorted_indices, 'output_format')
            mon.sig('sparse', a.format, a.dtype.kind)

def plain(rng, depth):
    out = {}
    for i in range(rng.randint(1, 5)):
        r = rng.randint(6)
        key = pick(rng, ['a_%d', '_b%d', 'C%d', 'u_x%d']) % i
        if r == 0 and depth:
            out[key] = plain(rng, depth - 1)
        elif r == 1:
            out[key] = pick(rng, ['text', 'ř', 'two words'])
        elif r == 2:
            out[key] = pick(rng, [1, 2.5, -1e-12, 10**10])
        else:
            a = array(rng)
            out[key] = a
    return out

def run_dicts(mon, case):
    from sfepy.base.ioutils import write_dict_hdf5, read_dict_hdf5
    from sfepy.homogenization.coefficients import Coefficients
    rng = gen.rngof(case)
    with Dir() as d:
        fn = os.path.join(d, 'd.h5')
        a = plain(rng, 2)
        write_dict_hdf5(fn, a)
        b = read_dict_hdf5(fn)
        mon.event('dictionary')
        mon.ok('dictionary', differ(a, b) is None, '%s' % differ(a, b))
        c = Coefficients(**plain(rng, 1))
        c.A = rng.randn(6, 6)
        c.phi = float(rng.rand())
        c.filename = 'some/file.h5'
        c.to_file_hdf5(fn)
        e = Coefficients.from_file_hdf5(fn)
        mon.event('coefs')
        mon.ok('coefs', differ(dict(c.__dict__), dict(e.__dict__)) is None, '%s' % differ(dict(c.__dict__), dict(e.__dict__)))
        # Text.
        f2 = os.path.join(d, 'c.txt')
        names = {'A': 'elastic', 'phi': 'fraction'}
        c.to_file_txt(f2, names, '%.12e')
        nums = []
        for line in open(f2):
            for w in line.replace(';', ' ').replace(',', ' ').split():
                try:
                    nums.append(float(w))
                except ValueError:
                    pass
        nums = np.array(nums)
        missing = [v for v in np.r_[c.A.ravel(), c.phi] if not np.any(np.abs(nums - v) <= 1e-6 * abs(v))]
        mon.ok('coefs', not missing, 'to_file_txt() lacks %s' % missing[:3])

# Results.

class TS:
    """The times of a computation with variable steps."""

    def __init__(self, rng, n):
        from sfepy.base.base import Struct
        self.t0 = float(pick(rng, [0.0, 0.0, -1.0, 5.0]))
        self.times = self.t0 + np.r_[0.0, np.cumsum(rng.rand(n - 1) + 0.05)] if n > 1 else np.array([self.t0])
        self.t1 = float(self.times[-1]) if n > 1 else self.t0 + 1.0
        self.n = n

    def at(self, i):
        from sfepy.base.base import Struct
        t = float(self.times[i])
        return Struct(step=int(i), time=t, nt=(t - self.t0) / (self.t1 - self.t0), t0=self.t0, t1=self.t1, dt=(self.t1 - self.t0) / max(self.n - 1, 1),
                      n_step=self.n)

def run_results(mon, case):
    from sfepy.base.base import Struct
    from sfepy.base.ioutils import read_dict_hdf5
    from sfepy.discrete.fem import Mesh
    from sfepy.discrete.fem.meshio import MeshIO
    from sfepy.postprocess import time_history as th
    rng = gen.rngof(case)
    g = pick(rng, ['2_3', '2_4', '3_4', '3_8', '3_6'])
    mesh = gen.to_mesh(gen.raw_mesh(rng, g, 2))
    n_nod, n_el, dim = mesh.n_nod, mesh.n_el, mesh.dim
    n = int(pick(rng, [1, 2, 3, 5, 9, 12, 14]))
    ts = TS(rng, n)
    saved = sorted(set([0]) | set(np.flatnonzero(rng.rand(n) < pick(rng, [0.3, 0.7, 1.1])).tolist()))
    nc = pick(rng, [1, dim])
    full = rng.rand() < 0.4
    data = {}
    for i in range(n):
        out = {'u': Struct(name='output_data', mode='vertex', data=rng.randn(n_nod, nc), dofs=['u.%d' % k for k in range(nc)], var_name='u'),
               'w-2': Struct(name='output_data', mode='vertex', data=rng.randn(n_nod, 1)),
               'stress': Struct(name='output_data', mode='cell', data=rng.randn(n_el, 1, 3, 1), dofs=None)}
        if full:
            out['q'] = Struct(name='output_data', mode='full', data=rng.randn(n_nod + 5, 1), dofs=['q.0'], var_name='q', field_name='fq', shape=(1,))
        if rng.rand() < 0.3:
            out['extra'] = Struct(name='x', mode='custom', data={'a': rng.randn(3), 'n': int(i)})
        data[i] = out
    with Dir() as d:
        fn = os.path.join(d, 'res.h5')
        for i in saved:
            mesh.write(fn, io='auto', out=data[i], ts=ts.at(i))
        i0 = saved[-1]
        mon.raises('data', ValueError, lambda: mesh.write(fn, io='auto', out=data[i0], ts=ts.at(i0))) if i0 > 0 else None
        reader = MeshIO.any_from_filename(fn)
        mon.event('steps', len(saved))
        steps, times, nts, dts = th.extract_times(fn)
        mon.ok('steps', steps.tolist() == saved, 'steps %s != %s' % (steps, saved))
        if steps.tolist() != saved:
            return
        mon.close('steps', times, ts.times[saved], 1e-15, msg='times')
        mon.close('steps', nts, (ts.times[saved] - ts.t0) / (ts.t1 - ts.t0), 1e-13, 1e-14, msg='normalized times')
        mon.close('steps', dts, np.r_[np.diff(ts.times[saved]), 0.0], 1e-13, 1e-14, msg='time steps')
        mon.ok('steps', int(reader.read_last_step()) == saved[-1], 'last step')
        mon.close('steps', np.array([float(v) for v in reader.read_time_stepper()]), np.array([ts.t0, ts.t1, (ts.t1 - ts.t0) / max(n - 1, 1), n]), 1e-14)
        m2 = Mesh.from_file(fn)
        mon.ok('data', np.array_equal(m2.coors, mesh.coors) and np.array_equal(m2.get_conn(g), mesh.get_conn(g)), 'mesh')

        def compare(a, b, what):
            mon.event('data')
            mon.ok('data', sorted(a) == sorted(b), '%s: %s != %s' % (what, sorted(a), sorted(b)))
            for k in a:
                if a[k].mode == 'custom':
                    msg = differ(a[k].data, b[k])
                    mon.ok('data', msg is None, '%s: %s' % (what, msg))
                    continue
                mon.ok('data', a[k].mode == b[k].mode, '%s: %s is %s' % (what, k, b[k].mode))
                mon.equal('data', a[k].data, b[k].data, '%s: %s' % (what, k))
                if a[k].get('dofs') is not None:
                    mon.ok('data', tuple(a[k].dofs) == tuple(b[k].dofs), 'DOF names of %s' % k)
                if a[k].mode == 'full':
                    mon.ok('data', b[k].field_name == 'fq' and tuple(b[k].shape) == (1,), 'field of %s' % k)
        for i in rng.permutation(saved):
            compare(data[i], reader.read_data(int(i)), 'step %d' % i)
        compare(data[saved[0]], reader.read_data(None), 'the first step')
        absent = [i for i in range(n + 2) if i not in saved]
        mon.ok('data', all(reader.read_data(i) is None for i in absent), 'data of steps never saved')
        mon.raises('data', KeyError, lambda: reader.read_data_header('none'))
        mon.ok('data', reader.read_data_header('stress')[0] == 'cell' and reader.read_data_header('w-2')[0] == 'vertex', 'modes')
        # Histories.
        inods = [int(k) for k in rng.permutation(n_nod)[:rng.randint(1, 4)]]
        iels = [int(k) for k in rng.permutation(n_el)[:rng.randint(1, 4)]]
        mode, node = reader.read_data_header('u')
        hist = reader.read_time_history(node, inods)
        mon.event('history')
        for ii in inods:
            mon.equal('history', np.asarray(hist[ii]), np.array([data[i]['u'].data[ii] for i in saved]), 'node %d' % ii)
        ths, ets = th.extract_time_history(fn, 'u n %s, stress e %s,w-2 e %s' % (' '.join(map(str, inods)), ' '.join(map(str, iels)),
                                                                            ' '.join(map(str, iels))), verbose=False)
        mon.event('extracted')
        mon.ok('extracted', sorted(ths) == ['stress', 'u', 'w-2'], '%s' % sorted(ths))
        mon.close('extracted', ets.times, ts.times[saved], 1e-15)
        for ii in inods:
            mon.equal('extracted', np.asarray(ths['u'][ii]), np.array([data[i]['u'].data[ii] for i in saved]), 'u in %d' % ii)
        conn = mesh.get_conn(g)
        for ie in iels:
            mon.equal('extracted', np.asarray(ths['stress'][ie]), np.array([data[i]['stress'].data[ie, 0, :, 0] for i in saved]), 'stress in %d' % ie)
            mon.event('element history')
            mon.ok('element history', sorted(ths['w-2'][ie]) == sorted(conn[ie].tolist()), 'nodes of the element %d' % ie)
            for k in conn[ie]:
                mon.equal('element history', np.asarray(ths['w-2'][ie][k]), np.array([data[i]['w-2'].data[k] for i in saved]), 'node %d' % k)
        av = th.average_vertex_var_in_cells({k: ths[k] for k in ths})
        for ie in iels:
            ref = np.array([data[i]['w-2'].data[conn[ie]].mean(axis=0) for i in saved])
            mon.close('element history', np.asarray(av['w-2'][ie]), ref, 1e-12, 1e-13, msg='average in %d' % ie)
            mon.equal('element history', np.asarray(av['stress'][ie]), np.array([data[i]['stress'].data[ie, 0, :, 0] for i in saved]), 'stress')
            for k in conn[ie]:
                mon.equal('element history', np.asarray(ths['w-2'][ie][k]), np.array([data[i]['w-2'].data[k] for i in saved]),
                          'history of the node %d after the averaging' % k)
        for bad in ['u n %d' % n_nod, 'u n -1', 'stress e %d' % n_el, 'stress n 0']:
            mon.raises('extracted', ValueError, lambda: th.extract_time_history(fn, bad, verbose=False))
        th.save_time_history(dict(ths), ets, os.path.join(d, 'th.h5'))
        back = read_dict_hdf5(os.path.join(d, 'th.h5'))
        mon.close('extracted', back['times'], ts.times[saved], 1e-15)
        for ii in inods:
            mon.equal('extracted', np.asarray(back['u'][str(ii)]), np.asarray(ths['u'][ii]), 'saved history')
        for k in conn[iels[0]]:
            mon.equal('extracted', np.asarray(back['w-2'][str(iels[0])][str(k)]), np.asarray(ths['w-2'][iels[0]][k]), 'saved element history')
        if len(saved) == n:
            vth = reader.read_variables_time_history(['u', 'w-2'], Struct(n_step=n))
            mon.event('variables history')
            for k in ['u', 'w-2']:
                mon.equal('variables history', np.array(vth[k]), np.array([data[i][k].data for i in range(n)]), k)
        # Dumps.
        if not full:
            sel = sorted(int(k) for k in rng.permutation(saved)[:rng.randint(1, len(saved) + 1)]) if rng.rand() < 0.4 and len(saved) == n else None
            kw = {} if sel is None else dict(steps=np.array(sel, dtype=np.int32))
            step0 = int(rng.randint(0, n)) if sel is None and rng.rand() < 0.5 else 0
            for o in data.values():
                o.pop('extra', None)
            if not any('extra' in reader.read_data(i) for i in saved):
                th.dump_to_vtk(fn, output_filename_trunk=os.path.join(d, 'dump'), step0=step0, **kw)
                files = sorted(f for f in os.listdir(d) if f.endswith('.vtk'))
                want = sel if sel is not None else [i for i in saved if i >= step0]
                mon.event('dump')
                nums = [int(f.split('.')[-2]) if f.count('.') > 1 and f.split('.')[-2].isdigit() else 0 for f in files]
                mon.ok('dump', nums == want, 'steps dumped %s != %s (files %s)' % (nums, want, files[:3]))
                for f, i in zip(files, want):
                    rd = MeshIO.any_from_filename(os.path.join(d, f)).read_data(0)
                    a = np.asarray(rd['w-2'].data).reshape(n_nod, -1)
                    mon.close('dump', a[:, :1], data[i]['w-2'].data, 1e-6, 1e-6, msg='step %d' % i)
        mon.sig('results', g, n, len(saved), full)

def run_solved(mon, case):
    import subprocess, sys
    from sfepy.base.base import Struct
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.fem.meshio import MeshIO
    from sfepy.postprocess import time_history as th
    from .. import tdep
    rng = gen.rngof(case)
    g = pick(rng, ['2_3', '2_4', '3_4', '3_8'])
    mesh = tdep.mesh_of(rng, g)[1]
    dim = mesh.dim
    n = int(rng.randint(2, 13))
    order = pick(rng, [1, 1, 2])
    kind = pick(rng, ['all', 'list', 'int', 'call'])
    fixed = rng.rand() < 0.6
    dt = 1.0 / (n - 1)
    save = {'all': 'all', 'list': sorted([0.0] + (rng.rand(3)).tolist()), 'int': int(rng.randint(2, n + 1)), 'call': lambda ts: ts.step % 3 == 0}[kind]
    split = pick(rng, [None, None, 'variable'])
    with Dir() as d:
        desc = dict(filename_mesh=tdep.mesh_hook(mesh), fields={'t': ('real', 1, 'Omega', order), 'v': ('real', dim, 'Omega', 1)},
                    variables={'T': ('unknown field', 't', 0, 1), 's': ('test field', 't', 'T'), 'u': ('unknown field', 'v', 1), 'w': ('test field', 'v', 'u')},
                    regions={'Omega': 'all', 'G': ('vertices of surface', 'facet')}, materials={'m': ({'a': 0.3, 'f': np.ones((dim, 1))},)},
                    integrals={'i': 4}, ebcs={'e': ('G', {'u.all': 0.0})} if rng.rand() < 0.5 else {},
                    ics={'ic': ('Omega', {'T.0': 'ic0'})}, functions={'ic0': (lambda coor, ic=None, **kw: coor[:, 0]**2 - coor[:, -1],)},
                    equations={'e1': 'dw_dot.i.Omega(s, dT/dt) + dw_laplace.i.Omega(m.a, s, T) = 0',
                               'e2': 'dw_dot.i.Omega(w, u) = dw_volume_lvf.i.Omega(m.f, w) + dw_v_dot_grad_s.i.Omega(w, T)'},
                    solvers={'ls': ('ls.scipy_direct', {}), 'newton': ('nls.newton', {'i_max': 2, 'eps_a': 1e-9, 'eps_r': 1.0, 'verbose': False}),
                             'ts': ('ts.simple', {'t0': 0.0, 't1': 1.0, 'n_step': n, 'verbose': False})},
                    options=dict(ts='ts', nls='newton', ls='ls', save_times=save, output_format='h5', output_dir=d,
                                 **(dict(split_results_by=split) if split else {})))
        pb = tdep.problem(desc, d)
        pb.setup_output(output_filename_trunk='run', output_dir=d, output_format='h5', split_results_by=split)
        states = []

        def hook(pb, ts, variables):
            states.append((ts.step, ts.time, {v: variables[v]().copy() for v in ['T', 'u']}))
        var = pb.solve(save_results=True, step_hook=hook, verbose=False)
        mon.event('solved')
        times = np.array([s[1] for s in states])
        if kind == 'all':
            want = list(range(n))
        elif kind == 'call':
            want = list(range(0, n, 3))
        else:
            st = np.array(save) if kind == 'list' else np.linspace(0, 1, save)
            want = sorted({int(np.flatnonzero(times + 1e-12 >= t)[0]) for t in st})
        files = sorted(f for f in os.listdir(d) if f.endswith('.h5'))
        names = ['run_T.h5', 'run_u.h5'] if split else ['run.h5']
        mon.ok('solved', files == names, 'files %s' % files)
        if files != names:
            return
        for f in files:
            fn = os.path.join(d, f)
            steps, ft, nts, dts = th.extract_times(fn)
            mon.ok('solved', steps.tolist() == want, '%s: saved %s, not %s (%s)' % (f, steps, want, kind))
            mon.close('solved', ft, times[steps], 1e-14)
            rd = MeshIO.any_from_filename(fn)
            if split:
                mon.event('split')
            for step in steps:
                out = rd.read_data(int(step))
                ref = states[step][2]
                keys = sorted(out)
                mon.ok('solved', keys == ([f[4]] if split else ['T', 'u']), 'step %d has %s' % (step, keys))
                for k in keys:
                    field = pb.fields['t' if k == 'T' else 'v']
                    nv = field.n_vertex_dof
                    a = ref[k].reshape(-1, field.n_components)[:nv]
                    mon.equal('solved', np.asarray(out[k].data)[:nv], a, '%s in step %d' % (k, step))
                    # Restored.
                    nf = FieldVariable('z', 'parameter', field, primary_var_name='(set-to-None)')
                    if order == 1 or k == 'u':
                        nf.set_from_mesh_vertices(out[k].data)
                        mon.event('restored')
                        mon.equal('restored', nf(), ref[k], '%s in step %d' % (k, step))
        # The full DOFs.
        fn = os.path.join(d, 'full.h5')
        out = var.create_output(linearization=Struct(kind=None, min_level=0, max_level=0, eps=1e-2))
        if not split and (all(o.mode == "full" for o in out.values()) or order == 1):
            pb.save_state(fn, out=out)
            back = MeshIO.any_from_filename(fn).read_data(0)
            for k, v in back.items():
                mon.equal('restored', np.asarray(v.data).ravel()[:len(states[-1][2][k])], states[-1][2][k], 'full data of %s' % k)
        # The extracting script.
        if rng.rand() < 0.35:
            k = pick(rng, ['T', 'u'])
            fn = os.path.join(d, 'run_%s.h5' % k if split else 'run.h5')
            ii = int(rng.randint(mesh.n_nod))
            env = dict(os.environ, HOME=d)
            root = os.path.dirname(os.path.dirname(os.path.abspath(__import__('sfepy').__file__)))
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(root, 'sfepy', 'scripts', 'extractor.py'), '--times', '-e', '%s n %d' % (k, ii),
                                '-o', os.path.join(d, 'ex'), fn], capture_output=True, text=True, cwd=d, env=dict(env, PYTHONPATH=os.pathsep.join(sys.path)))
            mon.event('command')
            mon.ok('command', r.returncode == 0, 'extractor failed: %s' % r.stderr[-300:])
            if r.returncode == 0:
                rows = []
                for line in r.stdout.splitlines():
                    w = line.split()
                    try:
                        rows.append([float(x) for x in w]) if len(w) == 4 else None
                    except ValueError:
                        pass
                rows = np.array(rows)
                mon.ok('command', rows.shape == (len(want), 4), '%d rows of times' % len(rows))
                if rows.shape == (len(want), 4):
                    mon.close('command', rows[:, :2], np.c_[want, times[want]], 2e-6, 1e-6)
                from sfepy.base.ioutils import read_dict_hdf5
                b = read_dict_hdf5(os.path.join(d, 'ex.h5'))
                nc = 1 if k == 'T' else dim
                mon.equal('command', np.asarray(b[k][str(ii)]), np.array([states[i][2][k].reshape(-1, nc)[ii] for i in want]), 'extracted')
    mon.sig('solved', g, kind, order, split, n)

def run_probes(mon, case):
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.fem import Field
    from sfepy.discrete.probes import PointsProbe, LineProbe, CircleProbe, write_results, read_results
    rng = gen.rngof(case)
    dom = gen.to_domain(gen.raw_mesh(rng, pick(rng, ['2_3', '2_4', '3_4', '3_8']), 2, 0.0))
    dim = dom.shape.dim
    om = dom.create_region('Omega', 'all')
    bb = dom.get_mesh_bounding_box()
    c, h = bb.mean(axis=0), bb[1] - bb[0]
    P = lambda: c + 0.6 * h * (rng.rand(dim) - 0.5)
    with Dir() as d:
        res = {}
        kind = pick(rng, ['points', 'line', 'circle'])
        npt = int(rng.randint(2, 30))
        if kind == 'points':
            probe = PointsProbe(np.array([P() for _ in range(npt)]))
        elif kind == 'line':
            probe = LineProbe(P(), P(), npt)
        else:
            normal = [0.0, 0.0, 1.0] if dim == 3 else [0.0, 0.0, 1.0]
            probe = CircleProbe(c if dim == 3 else np.r_[c], normal, 0.1 * h.min(), npt)
        for i in range(rng.randint(1, 4)):
            nc = pick(rng, [1, dim])
            f = Field.from_args('f%d' % i, np.float64, nc, om, approx_order=1)
            v = FieldVariable('v%d' % i, 'parameter', f, primary_var_name='(set-to-None)')
            v.set_data(rng.randn(v.n_dof) * 10.0**rng.randint(-12, 12))
            mode = pick(rng, ['val', 'grad']) if nc == 1 else 'val'
            try:
                res[pick(rng, ['u', 'cauchy_strain', 'T-x']) + str(i)] = probe(v, mode=mode)
            except ValueError:
                if kind == 'circle':
                    mon.inconclusive('circle in %dD' % dim)
                    return
                raise
        fn = os.path.join(d, 'p.txt')
        if rng.rand() < 0.5:
            write_results(fn, probe, res)
        else:
            with open(fn, 'w') as fd:
                write_results(fd, probe, res)
        header, back = read_results(fn)
        mon.event('probe')
        mon.ok('probe', list(back) == list(res), '%s != %s' % (list(back), list(res)))
        mon.ok('probe', header.probe_class == type(probe).__name__ and header.n_point == npt, '%s %s' % (header.probe_class, header.n_point))
        for k in res:
            pars, vals = res[k]
            mon.close('probe', back[k], np.c_[pars, vals.reshape(npt, -1)], 1e-14, 1e-300, msg=k)
        if kind == 'points' and dim > 1:
            mon.close('probe', np.array(header.details), probe.points, 1e-6, 1e-7, msg='points')
        elif kind == 'line':
            mon.close('probe', np.array(header.details), np.array([probe.p0, probe.p1]), 1e-6, 1e-7, msg='ends')
        only = [k for k in res if rng.rand() < 0.5]
        header, back = read_results(fn, only_names=only)
        mon.event('selected')
        mon.ok('selected', list(back) == only, '%s != %s' % (list(back), only))
        for k in back:
            mon.close('selected', back[k], np.c_[res[k][0], res[k][1].reshape(npt, -1)], 1e-14, 1e-300, msg=k)
        mon.sig('probe', kind, dim)

def run_log(mon, case):
    from sfepy.base.base import Output
    from sfepy.base.log import Log, read_log, write_log
    rng = gen.rngof(case)
    ng = rng.randint(1, 4)
    names, k = [], 0
    for ig in range(ng):
        m = rng.randint(1, 4)
        names.append(['name %d' % (k + i) for i in range(m)])
        k += m
    xl = [pick(rng, ['x', 'time', 'iteration']) for _ in range(ng)]
    yl = [pick(rng, ['y', 'log of y', '']) for _ in range(ng)]
    ys = [pick(rng, ['linear', 'log']) for _ in range(ng)]
    pk = [pick(rng, [{}, {'ls': '--'}, [{'color': 'r'}] * len(names[i])]) for i in range(ng)]
    fmts = None if rng.rand() < 0.5 else [['%.16e' for _ in nn] if rng.rand() < 0.5 else ['{:.16e}' for _ in nn] for nn in names]
    with Dir() as d:
        fn = os.path.join(d, 'log.txt')
        log = Log(names, plot_kwargs=pk, xlabels=xl, ylabels=yl, yscales=ys, is_plot=False, log_filename=fn, formats=fmts)
        ref = {i: ([], [], []) for i in range(k)}
        owner = [ig for ig, nn in enumerate(names) for _ in nn]
        last = [None] * ng
        cplx = rng.rand() < 0.2 and fmts is None
        for it in range(rng.randint(1, 12)):
            vals = rng.randn(k) * 10.0**rng.randint(-8, 8, k)
            vals = [(v + 1j * rng.randn()) if cplx and i == 0 else (np.array([v]) if rng.rand() < 0.2 else float(v)) for i, v in enumerate(vals)]
            mode = rng.randint(3)
            if mode == 0:
                x = [float(it) + rng.rand() for _ in range(ng)]
                log(*vals, x=x)
                igs = list(range(ng))
                for g in igs:
                    last[g] = x[g]
            elif mode == 1:
                log(*vals)
                igs = list(range(ng))
                for g in igs:
                    last[g] = 0 if last[g] is None else last[g] + 1
            else:
                igs = sorted(int(g) for g in rng.permutation(ng)[:rng.randint(1, ng + 1)])
                log(*[vals[i] for i in range(k) if owner[i] in igs], igs=igs)
                for g in igs:
                    last[g] = 0 if last[g] is None else last[g] + 1
            for i in range(k):
                if owner[i] in igs:
                    ref[i][0].append(last[owner[i]])
                    ref[i][1].append(np.asarray(vals[i]).ravel()[0])
            if rng.rand() < 0.2:
                log.plot_vlines()
                for i in range(k):
                    if len(ref[i][0]):
                        ref[i][2].append(ref[i][0][-1])
        log(finished=True)

        def compare(data, info, what, vl=True):
            mon.event('log')
            mon.ok('log', sorted(data) == [i for i in range(k) if ref[i][0]], '%s: data %s' % (what, sorted(data)))
            for i in data:
                a, b = data[i], ref[i]
                rt = 1e-14 if (fmts is not None or what == 'rewritten') else 1e-5
                mon.close('log', np.asarray(a[0], float), np.asarray(b[0], float), 1e-12, 1e-14, msg='%s: x of %d' % (what, i))
                mon.close('log', np.asarray(a[1]), np.asarray(b[1]), 2e-3 if fmts is None else 1e-14, msg='%s: y of %d' % (what, i))
                if vl:
                    mon.close('log', np.asarray(a[2], float), np.asarray(b[2], float), 1e-12, 1e-14, msg='%s: vlines of %d' % (what, i))
            mon.ok('log', sorted(info) == list(range(ng)), 'groups')
            for g in range(ng):
                mon.ok('log', tuple(info[g][:4]) == (xl[g], yl[g], ys[g], names[g]), '%s: info %s' % (what, info[g]))
                want = tuple(pk[g]) if isinstance(pk[g], list) else (pk[g],) * len(names[g])
                got = tuple(info[g][4])
                mon.ok('log', got == want or set(map(str, got)) == set(map(str, want)), '%s: plot_kwargs %s != %s' % (what, got, want))
        data, info = read_log(fn)
        compare(data, info, 'log')
        if not cplx and len(data) == k:
            f2 = os.path.join(d, 'log2.txt')
            out = Output('', filename=f2, quiet=False) if False else Output('', filename=f2)
            write_log(out, data, info)
            d2, i2 = read_log(f2)
            compare(d2, i2, 'rewritten', vl=False)
        mon.sig('log', ng, k, cplx)

def run_names(mon, case):
    from sfepy.base.ioutils import get_print_info, edit_filename, get_trunk
    from sfepy.solvers.ts import TimeStepper
    rng = gen.rngof(case)
    for _ in range(20):
        n = int(pick(rng, [2, 3, 9, 10, 11, 12, 99, 100, 101, 102, 999, 1000, 1001, 1002, rng.randint(2, 3000)]))
        mon.event('names')
        nd, fmt = get_print_info(n)
        nd2, suf = get_print_info(n, fill='0')
        files = [suf % i for i in range(n)]
        mon.ok('names', sorted(files) == files and len(set(files)) == n and len({len(f) for f in files}) == 1, 'suffixes of %d steps: %s .. %s' % (n, files[0], files[-1]))
        mon.ok('names', len(fmt % (n - 1)) == nd == nd2 == len(str(n - 1)), 'digits of %d steps: %d' % (n, nd))
        ts = TimeStepper(0.0, 1.0, n_step=n)
        mon.ok('names', [ts.suffix % 0, ts.suffix % (n - 1)] == [files[0], files[-1]], 'suffix of a time stepper: %s' % ts.suffix)
    for _ in range(10):
        dr = pick(rng, ['', 'a', '/a.b/c', 'x/y.z'])
        base = pick(rng, ['file', 'a.b', 'n-1', 'x y'])
        ext = pick(rng, ['.vtk', '.h5', '.mesh'])
        fn = os.path.join(dr, base + ext)
        mon.ok('names', edit_filename(fn, 'p_', '_s', '.new') == os.path.join(dr, 'p_' + base + '_s.new'), 'edit_filename(%r)' % fn)
        mon.ok('names', edit_filename(fn, suffix='_s') == os.path.join(dr, base + '_s' + ext), 'edit_filename(%r)' % fn)
        mon.ok('names', get_trunk(fn) == base, 'get_trunk(%r)' % fn)
