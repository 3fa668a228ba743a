"""
C03: mesh file input/output.

Monitor: every mesh written by the real writers and read back by the real
readers is compared with the arrays the mesh was made of (coordinates, cells of
each type in their order, vertex and cell groups, vertex sets), after one
write/read, after chains of conversions, and together with attached point and
cell data and HDF5 time series of randomly chosen steps; the written mesh is
re-observed for changes.
"""
import os
import numpy as np
from .. import gen

REQUIRED = ['coors', 'cells', 'cell_groups', 'vertex_groups', 'unchanged',
            'dimension', 'bbox', 'chain', 'vertex_data', 'cell_data',
            'h5_times', 'h5_history', 'nodal_bcs', 'omit_facets', 'repo_mesh',
            'dg_data', 'refused']
ASSUMPTIONS = ['formats whose writer or reader needs packages that are not'
               ' installed, or which meshio itself cannot write, are not'
               ' exercised (cgns, exodus, h5m, med, xdmf, nastran, dolfin-xml,'
               ' ugrid, gmsh2/4 variants)',
               'vtk/vtu: planar meshes with constant z are read as 2D'
               ' (documented)']

A = ['1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6', '2_3s', '2_4s', '3_4f', '1_2s']
# format: (write name, read name, suffix, kinds, pads to 3D, relative precision)
FORMATS = {
    'abaqus': ('abaqus', 'abaqus', '.inp', A, False, 1e-14),
    'flac3d': ('flac3d', 'flac3d', '.f3grid', ['3_4', '3_8'], False, 1e-14),
    'gmsh': ('gmsh', 'gmsh', '.msh', ['2_3', '2_3s', '2_4', '2_4s', '3_4', '3_6', '3_8'],
             True, 0),
    'gmsh-dg': ('gmsh-dg', 'gmsh', '.msh', ['2_3', '2_3s', '2_4', '3_4', '3_6', '3_8'],
                True, 1e-14),
    'hdf5': ('hdf5', 'hdf5', '.h5', A, False, 0),
    'hdf5-xdmf': ('hdf5-xdmf', 'hdf5-xdmf', '.h5x', ['2_3', '2_3s', '2_4', '3_4', '3_8', '3_6',
                                                     '3_4f', 'mixed2'], True, 0),
    'mdpa': ('mdpa', 'mdpa', '.mdpa', ['2_3', '2_3s', '2_4', '3_4', '3_4f', '3_6', '3_8',
                                       'mixed2'], True, 1e-14),
    'medit': ('medit', 'medit', '.mesh', A, False, 1e-14),
    'medit-b': ('medit', 'medit', '.meshb', [k for k in A if k != '1_2'], False, 1e-14),
    'netgen': ('netgen', 'netgen', '.vol', A, False, 1e-14),
    'obj': ('obj', 'obj', '.obj', ['2_3s'], False, 1e-14),
    'permas': ('permas', 'permas', '.dato', ['2_3', '2_3s', '2_4', '3_4', '3_6', '3_8'],
               True, 1e-14),
    'su2': ('su2', 'su2', '.su2', ['2_3', '2_4', '3_4', '3_6', '3_8', 'mixed2'], False, 1e-14),
    'tetgen': ('tetgen', 'tetgen', '.node', ['3_4'], False, 1e-14),
    'vtk': ('vtk', 'vtk', '.vtk', A, False, 0),
    'vtk-ascii': ('vtk-ascii', 'vtk', '.vtk', A, False, 1e-14),
    'vtk-binary': ('vtk-binary', 'vtk', '.vtk', A, False, 0),
    'vtu': ('vtu', 'vtu', '.vtu', A, False, 1e-10),
    'xyz': ('xyz', 'xyz', '.xyz', ['1_2', '2_3', '2_4', '3_4', '3_8', '3_6'], False, 1e-14),
}
CORE = ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu', 'medit', 'hdf5', 'abaqus', 'gmsh', 'xyz']
DATA = ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu', 'hdf5', 'gmsh']

def cases(rng, tier):
    n = 3 if tier == 'quick' else 30
    out = []
    for i in range(n):
        for f, v in FORMATS.items():
            for k in v[3]:
                out.append(dict(kind='roundtrip', fmt=f, mesh=k, size=2 + int(rng.randint(3)),
                                how=int(rng.randint(3))))
    for i in range(40 if tier == 'quick' else 600):
        m = A[rng.randint(len(A))]
        fs = [f for f in FORMATS if m in FORMATS[f][3]]
        out.append(dict(kind='chain', mesh=m, size=2 + int(rng.randint(2)),
                        fmts=[fs[j] for j in rng.randint(0, len(fs), size=4)]))
    for i in range(3 if tier == 'quick' else 40):
        for f in DATA:
            for k in ['2_3', '2_4', 'mixed2', '3_4', '3_8', '2_3s', '3_4f']:
                if k in FORMATS[f][3]:
                    out.append(dict(kind='data', fmt=f, mesh=k))
    for i in range(24 if tier == 'quick' else 200):
        out.append(dict(kind='h5', mesh=A[i % len(A)], n_step=int(rng.randint(1, 14)),
                        xdmf=False))
    for i in range(8 if tier == 'quick' else 60):
        out.append(dict(kind='facets', mesh=['3_4', '3_8', '2_3', '2_4'][i % 4],
                        fmt=['medit', 'vtk', 'vtu', 'abaqus'][int(rng.randint(4))]))
        out.append(dict(kind='dg', mesh=['2_3', '2_4'][i % 2], n_step=int(rng.randint(1, 12))))
    out.append(dict(kind='refuse'))
    for i, fn in enumerate(repo_meshes()):
        out.append(dict(kind='repo', fn=fn, cost=3))
    return out

def repo_meshes():
    from ..build import REPO
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'meshes')):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.splitext(f)[1] in ('.mesh', '.vtk', '.msh', '.inp', '.bdf', '.mesh3d',
                                          '.node', '.xyz', '.cdb', '.neu', '.hmascii', '.h5') \
                    and os.path.getsize(p) < 600000:
                out.append(os.path.relpath(p, REPO))
    return sorted(out)

def make(rng, kind, size=3):
    k, dim = kind.rstrip('sf'), None
    if kind.endswith('s'):
        dim = 3 if k[0] == '2' else 2
    raw = gen.raw_mesh(rng, k, size=size, dim=dim, jitter=0.4, holes=0.15)
    s = float(rng.choice([1.0, 1e-4, 1e3]))
    raw['coors'] = raw['coors'] * s
    big = rng.rand() < 0.3
    if big:
        raw['vgroups'] = raw['vgroups'] * 37 + 1
        raw['mats'] = {d: m * 1001 + 5 for d, m in raw['mats'].items()}
    if kind.endswith('f'):
        t = raw['conns']['3_4']
        n = rng.randint(1, 2 * len(t))
        raw['conns']['2_3'] = t[rng.randint(0, len(t), n)][:, [0, 2, 1]]
        raw['mats']['2_3'] = rng.randint(5, 9, n)
    return raw

def arrays(mesh):
    coors, vg, conns, mats, descs = mesh._get_io_data()
    return dict(coors=np.array(coors), vg=np.array(vg),
                conns={d: np.array(c) for d, c in zip(descs, conns)},
                mats={d: np.array(c) for d, c in zip(descs, mats)})

def compare(mon, tag, mesh, raw, pad, prec, flags, what='', cells='cells', scale=None):
    a = arrays(mesh)
    X = raw['coors']
    if pad and X.shape[1] < 3:
        X = np.pad(X, [(0, 0), (0, 3 - X.shape[1])])
    pre = '' if cells == 'cells' else cells
    k = lambda s: pre or s
    mon.close(k('coors'), a['coors'], X, rtol=prec, msg=what + ' coordinates')
    ok = mon.ok(cells, sorted(a['conns']) == sorted(raw['conns']), '%s cell types %s != %s'
                % (what, sorted(a['conns']), sorted(raw['conns'])))
    if not ok:
        return
    for d, c in raw['conns'].items():
        mon.ok(cells, a['conns'][d].shape == np.shape(c) and np.array_equal(a['conns'][d], c),
               '%s %s cells differ' % (what, d), n=len(c))
        if 'c' in flags:
            mon.equal(k('cell_groups'), a['mats'][d], raw['mats'][d], '%s groups of %s' % (what, d))
    mon.ok(cells, all(np.issubdtype(m.dtype, np.integer) for m in list(a['mats'].values()) + [a['vg']]),
           what + ' group types')
    if 'v' in flags:
        mon.equal(k('vertex_groups'), a['vg'], raw['vgroups'], what + ' vertex groups')
    mon.ok(k('cells'), mesh.dim == X.shape[1] and mesh.n_nod == len(X) and
           mesh.n_el == sum(len(c) for c in raw["conns"].values()),
           '%s shape information %s' % (what, (mesh.dim, mesh.n_nod, mesh.n_el)))

def flags_of(fmt, raw=None):
    from sfepy.discrete.fem.meshio import supported_formats
    flags = supported_formats[FORMATS[fmt][0]][2]
    if fmt == 'abaqus' and raw is not None and len(raw['conns']) > 1:
        # meshio writes a set once per cell block and reads only the last one.
        flags = flags.replace('c', '')
    return flags

def write(mesh, fn, fmt, out=None, **kw):
    mesh.write(fn, io='auto', file_format=FORMATS[fmt][0], out=out, **kw)

def read(fn, fmt, **kw):
    from sfepy.discrete.fem import Mesh
    return Mesh.from_file(fn, file_format=FORMATS[fmt][1], **kw)

def run_roundtrip(mon, case):
    from sfepy.discrete.fem import Mesh, MeshIO
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], case['size'])
    fmt = case['fmt']
    w, r, suf, kinds, pad, prec = FORMATS[fmt]
    flags = flags_of(fmt, raw)
    mesh = gen.to_mesh(raw)
    if w == 'hdf5':
        for k in ('a', 'b c', '12')[:rng.randint(4)]:
            mesh.nodal_bcs[k] = np.sort(rng.permutation(len(raw['coors']))[:3]).astype(np.int32)
    before = arrays(mesh)
    fn = 'm_%s%s' % (case['seed'], suf)
    auto = supported_default(fmt)
    if case['how'] == 0 and auto:
        mesh.write(fn, io='auto')
        m2 = Mesh.from_file(fn)
    elif case['how'] == 1 and auto:
        MeshIO.any_from_filename(fn).write(fn, mesh)
        m2 = Mesh('x')
        m2 = MeshIO.any_from_filename(fn).read(m2)
        m2._set_shape_info()
    else:
        write(mesh, fn, fmt)
        m2 = read(fn, fmt)
    after = arrays(mesh)
    mon.ok('unchanged', all(np.array_equal(before[k], after[k]) for k in ('coors', 'vg')) and
           all(np.array_equal(before[k][d], after[k][d]) for k in ('conns', 'mats')
               for d in before[k]), 'writing changed the mesh')
    compare(mon, fmt, m2, raw, pad, prec, flags, '%s %s' % (fmt, case['mesh']))
    mon.sig(fmt, case['mesh'], len(raw['coors']))
    if w == 'hdf5':
        mon.ok('nodal_bcs', sorted(m2.nodal_bcs) == sorted(mesh.nodal_bcs) and
               all(np.array_equal(m2.nodal_bcs[k], v) for k, v in mesh.nodal_bcs.items()),
               'vertex sets', n=1 + len(mesh.nodal_bcs))
    io = MeshIO.any_from_filename(fn, file_format=r)
    X = m2.coors
    if r in ('hdf5', 'hdf5-xdmf', 'xyz') or hasattr(io, 'squeeze'):
        mon.ok('dimension', io.read_dimension() == X.shape[1], 'read_dimension()')
        bb = io.read_bounding_box()
        mon.close('bbox', bb, np.vstack([X.min(0), X.max(0)]), rtol=1e-14, msg='read_bounding_box()')
        bb, d = io.read_bounding_box(ret_dim=True)
        mon.ok('bbox', d == X.shape[1], 'dimension with the bounding box')
    # Reading again gives the same.
    m3 = read(fn, fmt)
    b, c = arrays(m2), arrays(m3)
    mon.ok('unchanged', np.array_equal(b['coors'], c['coors']) and
           all(np.array_equal(b['conns'][d], c['conns'][d]) for d in b['conns']), 'second reading')

def supported_default(fmt):
    """Is the format chosen by the suffix?"""
    return fmt in ('abaqus', 'gmsh', 'hdf5', 'hdf5-xdmf', 'mdpa', 'medit', 'medit-b', 'netgen',
                   'obj', 'permas', 'su2', 'tetgen', 'vtk', 'vtu', 'xyz', 'flac3d')

def run_chain(mon, case):
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], case['size'])
    mesh = gen.to_mesh(raw)
    flags, prec, pad = 'cv', 0.0, False
    kinds = None
    for i, fmt in enumerate(case['fmts']):
        if kinds is not None and case['mesh'] not in FORMATS[fmt][3]:
            continue
        if pad and case['mesh'] + 's' not in FORMATS[fmt][3] and case['mesh'][0] != '3' and \
                case['mesh'][-1] != 's':
            continue
        if pad and fmt.startswith('vt') and case['mesh'][0] in '2m' and case['mesh'][-1] != 's':
            continue        # read as 2D again
        if pad and fmt == 'xyz' and case['mesh'][0] in '2m':
            continue
        fn = 'c_%s_%d%s' % (case['seed'], i, FORMATS[fmt][2])
        write(mesh, fn, fmt)
        mesh = read(fn, fmt)
        if 'c' not in flags_of(fmt, raw):
            flags = flags.replace('c', '')
        if 'v' not in flags_of(fmt, raw):
            flags = flags.replace('v', '')
        prec += FORMATS[fmt][5]
        pad = pad or FORMATS[fmt][4]
        compare(mon, fmt, mesh, raw, pad, prec, flags, 'chain %s at %s' % (case['fmts'], fmt),
                cells='chain')
        mon.sig(tuple(case['fmts'][:i + 1]), case['mesh'])

def run_data(mon, case):
    from sfepy.base.base import Struct
    from sfepy.discrete.fem import MeshIO
    from sfepy.discrete.fem.meshio import convert_complex_output
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], 3)
    fmt = case['fmt']
    mesh = gen.to_mesh(raw)
    dim = raw['coors'].shape[1]
    nv = mesh.n_nod
    nc = sum(len(c) for d, c in raw['conns'].items() if int(d[0]) == mesh.cmesh.tdim)
    sym = dim * (dim + 1) // 2
    out, want = {}, {}
    for i, nm in enumerate(['u', 'p x', 'stress_1', 'full', 'cplx', 'ints']):
        for mode in ('vertex', 'cell'):
            key = '%s %s' % (nm, mode) if i % 2 else '%s_%s' % (nm, mode)
            if fmt == 'gmsh' or fmt.startswith('vtk'):
                key = key.replace(' ', '_')
            ncomp = {0: dim, 1: 1, 2: sym, 3: dim * dim, 4: 1, 5: 1}[i]
            if fmt == 'gmsh' and ncomp not in (1, 3, 9):
                ncomp = 1
            val = rng.randn(nv if mode == 'vertex' else nc, ncomp)
            if i == 4:
                val = val + 1j * rng.randn(*val.shape)
            if i == 5:
                val = np.round(val * 100)
            data = val if mode == 'vertex' else val[:, None, :, None]
            out[key] = Struct(name='output_data', mode=mode, data=data.copy(), dofs=None)
            want[key] = (mode, val)
    out = convert_complex_output(out)
    for key in list(want):
        if np.iscomplexobj(want[key][1]):
            mode, val = want.pop(key)
            want['real.' + key] = (mode, val.real)
            want['imag.' + key] = (mode, val.imag)
    mon.ok('vertex_data', set(out) == set(want), 'names of complex data: %s' % sorted(out))
    fn = 'd_%s%s' % (case['seed'], FORMATS[fmt][2])
    write(mesh, fn, fmt, out=out)
    m2 = read(fn, fmt)
    compare(mon, fmt, m2, raw, FORMATS[fmt][4], FORMATS[fmt][5], flags_of(fmt, raw), 'mesh with data')
    got = MeshIO.any_from_filename(fn, file_format=FORMATS[fmt][1]).read_data(0)
    for key, (mode, val) in want.items():
        kk = '%s_data' % mode
        if not mon.ok(kk, key in got, '%s: %r is missing, there are %s' % (fmt, key, sorted(got))):
            continue
        g = got[key]
        mon.ok(kk, g.mode == mode, '%s: mode of %s: %s' % (fmt, key, g.mode))
        d = np.asarray(g.data)
        if mode == 'cell':
            d = d.reshape((d.shape[0], -1))
        elif d.ndim == 1:
            d = d[:, None]
        if dim < 3 and d.shape[1] == dim and val.shape[1] == 3 and dim == 2 \
                and fmt != 'hdf5':
            # 3-component data in 2D cannot be told from a padded 2D vector.
            val = val[:, :2]
        if fmt == 'gmsh' and d.shape[1] > val.shape[1]:
            mon.ok(kk, not d[:, val.shape[1]:].any(), 'padding')
            d = d[:, :val.shape[1]]
        mon.close(kk, d, val, rtol=max(FORMATS[fmt][5], 1e-15), msg='%s %s data %s'
                  % (fmt, case['mesh'], key))
    # The data given by the user are not changed.
    for key, (mode, val) in want.items():
        d = np.asarray(out[key].data)
        mon.equal(mode + '_data', d.reshape(val.shape), val, 'the input data')

class TS:
    def __init__(self, times):
        self.times = times
        self.t0, self.t1 = times[0], times[-1]
        self.n_step = len(times)
        self.dt = times[1] - times[0] if len(times) > 1 else 0.0
        self.step = 0
    def set(self, i):
        self.step = i
        self.time = self.times[i]
        self.nt = i / max(self.n_step - 1, 1)

def run_h5(mon, case):
    from sfepy.base.base import Struct
    from sfepy.discrete.fem import MeshIO
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], 2)
    mesh = gen.to_mesh(raw)
    n = case['n_step']
    times = np.cumsum(rng.rand(n)) - 0.3
    ts = TS(times)
    steps = [0] + [i for i in range(1, n) if rng.rand() < 0.8]
    if rng.rand() < 0.4:
        steps = list(range(n))
    fn = 'h_%s.h5' % case['seed']
    io = MeshIO.any_from_filename(fn)
    hist = {}
    nv, nc = mesh.n_nod, mesh.n_el
    for s in steps:
        ts.set(s)
        u = rng.randn(nv, 2)
        c = rng.randn(nc, 1, 3, 1)
        f = rng.randn(nv * 2 + 1)
        hist[s] = (u, c, f)
        out = {'u': Struct(name='output_data', mode='vertex', data=u, var_name='u',
                           dofs=('u.0', 'u.1'), shape=(nv, 2)),
               'c-x': Struct(name='output_data', mode='cell', data=c, dofs=None),
               'full': Struct(name='full_data', mode='full', data=f, field_name='fff',
                              dofs=('q.0',), shape=(len(f),), var_name='full', region_name='Om'),
               'cust': Struct(name='cc', mode='custom', data={'a': s, 'b': [1.5, 'x', None]})}
        if rng.rand() < 0.5:
            io.write(fn, mesh, out, ts=ts)
        else:
            mesh.write(fn, io='auto', out=out, ts=ts)
    st, tt, nt = io.read_times()
    mon.equal('h5_times', st, steps, 'steps')
    mon.equal('h5_times', tt, times[steps], 'times')
    mon.close('h5_times', nt, np.array(steps) / max(n - 1, 1), rtol=1e-14, msg='normalized times')
    mon.ok('h5_times', int(io.read_last_step()) == steps[-1], 'last step')
    t0, t1, dt, ns = io.read_time_stepper()
    mon.ok('h5_times', (t0, t1, dt, ns) == (ts.t0, ts.t1, ts.dt, n), 'time stepper')
    for s in rng.permutation(steps):
        out = io.read_data(int(s))
        u, c, f = hist[int(s)]
        mon.ok('h5_history', set(out) == {'u', 'c-x', 'full', 'cust'}, 'names %s' % sorted(out))
        mon.equal('h5_history', out['u'].data, u, 'vertex data')
        mon.equal('h5_history', out['c-x'].data, c, 'cell data')
        mon.equal('h5_history', out['full'].data, f, 'full data')
        mon.ok('h5_history', (out['u'].mode, out['c-x'].mode, out['full'].mode)
               == ('vertex', 'cell', 'full') and tuple(out['u'].dofs) == ('u.0', 'u.1')
               and tuple(out['u'].shape) == (nv, 2) and out['full'].field_name == 'fff', 'attributes')
        mon.ok('h5_history', out['cust'] == {'a': int(s), 'b': [1.5, 'x', None]}
               or getattr(out['cust'], 'data', None) == {'a': int(s), 'b': [1.5, 'x', None]},
               'custom data %s' % (out['cust'],))
    mon.ok('h5_history', io.read_data(10**6) is None, 'a missing step')
    out = io.read_data(None)
    mon.equal('h5_history', out['u'].data, hist[steps[0]][0], 'default step')
    for nm, k, j in (('u', 'vertex', 0), ('c-x', 'cell', 1)):
        mode, node = io.read_data_header(nm, step=steps[-1])
        mon.ok('h5_history', mode == k, 'header')
        idx = sorted(set(rng.randint(0, nv if j == 0 else nc, 3).tolist()))
        th = io.read_time_history(node, idx)
        for i in idx:
            want = np.array([hist[s][j][i] for s in steps])
            if j == 1:
                want = want[:, 0, :, 0]
            mon.equal('h5_history', th[i], want, 'time history of %s[%d]' % (nm, i))
    mon.raises('h5_history', KeyError, io.read_data_header, 'nope', msg='missing data')
    if steps == list(range(n)):
        ths = io.read_variables_time_history(['u', 'full'], ts)
        for j, nm in ((0, 'u'), (2, 'full')):
            for s in steps:
                mon.equal('h5_history', ths[nm][s], hist[s][j], 'variables time history')
    # An already saved step is refused and kept.
    if steps[-1] > 0:
        mon.raises('h5_history', ValueError, io.write, fn, mesh,
                   {'u': Struct(name='o', mode='vertex', data=u * 0, dofs=None)}, ts=ts,
                   msg='saving a step twice')
        mon.equal('h5_history', io.read_data(steps[-1])['u'].data, hist[steps[-1]][0],
                  'refused saving changed the data')
    m2 = read(fn, 'hdf5')
    compare(mon, 'hdf5', m2, raw, False, 0, 'cv', 'mesh of a time series')
    # A new computation starts a new file.
    ts.set(0)
    io.write(fn, mesh, {'u': Struct(name='o', mode='vertex', data=u, dofs=None)}, ts=ts)
    st, tt, nt = io.read_times()
    mon.equal('h5_times', st, [0], 'a new file at step 0')

def run_facets(mon, case):
    """Cells of lower dimension in files, with and without omit_facets."""
    from sfepy.discrete.fem import Mesh
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], 3)
    desc = case['mesh']
    fd = {'3_4': '2_3', '3_8': '2_4', '2_3': '1_2', '2_4': '1_2'}[desc]
    c = raw['conns'][desc]
    k = int(fd[2])
    n = rng.randint(1, len(c) + 1)
    cols = list(range(k))
    raw['conns'][fd] = c[rng.permutation(len(c))[:n]][:, cols]
    raw['mats'][fd] = rng.randint(10, 15, n)
    order = [fd, desc] if rng.rand() < 0.7 else [desc, fd]
    mesh = Mesh.from_data('m', raw['coors'], raw['vgroups'].astype(np.int32),
                          [raw['conns'][d].astype(np.int32) for d in order],
                          [raw['mats'][d].astype(np.int32) for d in order], order)
    fmt = case['fmt']
    fn = 'f_%s%s' % (case['seed'], FORMATS[fmt][2])
    write(mesh, fn, fmt)
    m2 = read(fn, fmt)
    compare(mon, fmt, m2, raw, False, FORMATS[fmt][5], flags_of(fmt, raw), 'with facets, order %s' % order,
            cells='omit_facets')
    m3 = read(fn, fmt, omit_facets=True)
    r2 = dict(raw, conns={desc: c}, mats={desc: raw['mats'][desc]})
    compare(mon, fmt, m3, r2, False, FORMATS[fmt][5], 'cv', 'omitted facets, order %s' % order,
            cells='omit_facets')

def run_dg(mon, case):
    """Element node data of the DG gmsh format."""
    from sfepy.base.base import Struct
    from sfepy.discrete.fem import MeshIO
    rng = gen.rngof(case)
    raw = make(rng, case['mesh'], 3)
    mesh = gen.to_mesh(raw)
    n = case['n_step']
    ne = mesh.n_el
    nd = 3 if case['mesh'] == '2_3' else 4
    scheme = Struct(name='sch', desc=case['mesh'], F=rng.randn(nd, nd),
                    P=rng.randint(0, 3, (nd, 3)).astype(float))
    times = np.cumsum(rng.rand(n))
    ts = TS(times)
    base = 'g%d' % case['seed']
    data = []
    w = len(str(n)) + 1
    for s in rng.permutation(n):
        s = int(s)
        ts.set(s)
        d = np.random.RandomState(s).randn(ne, nd)
        out = {'u': Struct(mode='cell_nodes', data=d, scheme=scheme)}
        mesh.write('%s.%0*d.msh' % (base, w, s), io='auto', file_format='gmsh-dg', out=out, ts=ts)
    data = [np.random.RandomState(s).randn(ne, nd) for s in range(n)]
    fn = '%s.%0*d.msh' % (base, w, 0)
    io = MeshIO.any_from_filename(fn, file_format='gmsh-dg')
    for what, steps in (('all', list(range(n))), ('last', [n - 1]), ('first', [0]), (None, [0])):
        got = io.read_data(what)['u']
        mon.ok('dg_data', list(got.time_n) == steps, 'steps of %s: %s' % (what, got.time_n))
        if list(got.time_n) == steps:
            mon.close('dg_data', np.array(got.time), times[steps], rtol=1e-14, msg='times')
            for s, d in zip(steps, got.data):
                mon.close('dg_data', d, data[s], rtol=1e-13, msg='element node data')
        mon.close('dg_data', got.scheme.F, scheme.F, rtol=1e-13, msg='scheme')
        mon.close('dg_data', got.scheme.P, scheme.P, rtol=1e-13, msg='scheme')
        mon.ok('dg_data', got.scheme_name == 'sch' and got.mode == 'cell_nodes')
    m2 = read(fn, 'gmsh-dg')
    compare(mon, 'dg', m2, raw, True, 1e-14, '', 'mesh with DG data')

def run_refuse(mon, case):
    """Unsupported requests are diagnosed and leave nothing wrong behind."""
    from sfepy.discrete.fem import Mesh, MeshIO
    rng = gen.rngof(case)
    mesh = gen.to_mesh(make(rng, '2_3', 2))
    for fn, ff in (('x.cdb', None), ('x.neu', None), ('x.hmascii', None), ('x.mesh3d', None),
                   ('x.unknown', None), ('x.vtk', 'nonsense')):
        mon.raises('refused', ValueError, mesh.write, fn, io='auto', file_format=ff, msg=fn)
    mon.raises('refused', Exception, Mesh.from_file, 'does_not_exist.vtk', msg='missing file')
    for k in ('mixed2', '2_3s', '3_4f'):
        m = gen.to_mesh(make(rng, k, 3))
        try:
            m.write('mix.xyz', io='auto')
        except Exception:
            mon.event('refused')
            continue
        m2 = Mesh.from_file('mix.xyz')
        mon.ok('refused', m2.descs == m.descs and m2.n_el == m.n_el,
               'xyz: %s written without complaint, but read as %s' % (k, m2.descs))
    # Truncated files are diagnosed.
    m = gen.to_mesh(make(rng, '3_4', 3))
    for fmt in ('vtk', 'vtk-ascii', 'vtu', 'medit', 'hdf5', 'abaqus', 'gmsh'):
        fn = 'trunc' + FORMATS[fmt][2]
        write(m, fn, fmt)
        s = open(fn, 'rb').read()
        with open(fn, 'wb') as f:
            f.write(s[:len(s) // 3])
        def rd():
            m2 = read(fn, fmt)
            a, b = arrays(m), arrays(m2)
            if all(np.array_equal(a['conns'][d], b['conns'][d]) for d in a['conns']) and \
                    np.allclose(a['coors'], b['coors']):
                raise EOFError('all was there')
            return m2
        mon.raises('refused', BaseException, rd, msg='truncated %s' % fmt)

def run_repo(mon, case):
    from ..build import REPO
    from sfepy.discrete.fem import Mesh
    rng = gen.rngof(case)
    fn = os.path.join(REPO, case['fn'])
    try:
        mesh = Mesh.from_file(fn)
    except (ImportError, ModuleNotFoundError):
        return
    a = arrays(mesh)
    raw = dict(coors=a['coors'], vgroups=a['vg'], conns=a['conns'], mats=a['mats'])
    X = a['coors']
    mon.ok('repo_mesh', np.isfinite(X).all() and all(c.min() >= 0 and c.max() < len(X)
                                                     for c in a['conns'].values()), 'valid')
    planar = X.shape[1] > 1 and np.ptp(X[:, -1]) < 1e-14
    for fmt in ('hdf5', 'medit', 'vtk', 'vtu', 'vtk-ascii', 'abaqus'):
        if planar and fmt.startswith('vt'):
            continue
        f2 = 'r_%s%s' % (case['seed'], FORMATS[fmt][2])
        write(mesh, f2, fmt)
        m2 = read(f2, fmt)
        compare(mon, fmt, m2, raw, False, FORMATS[fmt][5], flags_of(fmt, raw), '%s to %s' % (case['fn'], fmt),
                cells='repo_mesh')
