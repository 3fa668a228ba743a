"""C24: Compiled kernels never touch memory they do not own.

Monitor: Workloads of the other checks (meshes, regions, bases, mappings, fields, terms, assembling, conditions, time
stepping, point location, mesh transformations) and workloads with invalid input run in processes with AddressSanitizer and
UndefinedBehaviorSanitizer compiled into the extension modules; each report pointing to the extension modules is a violation.
Allocations of the C core left over by a repeated workload are counted (leaks), and the numbers computed by the same workloads
with differently filled fresh memory have to agree (uninitialised reads).
"""
import glob
import importlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from rvm import gen

REQUIRED = ['workload', 'leak', 'fill', 'hostile', 'kernels', 'rejected', 'allocated', 'values']
ASSUMPTIONS = ['invalid input is given through meshes, regions, entity indices, points, materials and states, not by direct calls of kernels with inconsistent arrays',
               'leaks are those counted by the allocator of the C core']
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# Modules with workloads, numbers of cases in one batch and of batches in the quick tier.
WORK = [('C01', 30, 1), ('C02', 30, 1), ('C03', 15, 1), ('C04', 30, 1), ('C06', 30, 1), ('C07', 20, 1), ('C08', 70, 4), ('C09', 50, 3), ('C10', 7, 2), ('C11', 15, 2),
        ('C13', 8, 1), ('C15', 7, 1), ('C17', 20, 1), ('C19', 25, 2), ('C20', 30, 1), ('C22', 20, 1), ('C21', 20, 2), ('C23', 8, 1), ('C26', 6, 1), ('C29', 10, 1), ('C30', 20, 1)]
FILL = [('C01', 10), ('C06', 20), ('C07', 10), ('C09', 40), ('C10', 4), ('C11', 6), ('C17', 10), ('C19', 15), ('C22', 10), ('C21', 10)]
HOSTILE = ('badmesh', 'badentity', 'badregion', 'badpoint', 'badstate')

def have(name):
    return os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py'))

def cases(rng, tier):
    n = 1 if tier == 'quick' else 8
    out = []
    for m, k, b in WORK:
        out += [dict(kind='workload', module=m, n=k, cost=20 if m in ('C10', 'C15', 'C08') else 10) for _ in range(b * n)] if have(m) else []
    for m, k in FILL:
        out += [dict(kind='fill', module=m, n=k, cost=15) for _ in range(n)] if have(m) else []
    for m in ('C01', 'C02', 'C06', 'C08', 'C09', 'C19', 'C21'):
        out += [dict(kind='leak', module=m, n=8, cost=8) for _ in range(n)] if have(m) else []
    for m in ('C04', 'C07', 'C11', 'C20', 'C22', 'C26', 'C29', 'C30'):
        out += [dict(kind='leak', module=m, n=5, cost=8) for _ in range(n)] if have(m) else []
    for i in range(3 * n):
        out.append(dict(kind='workload', module='terms', part=i % 3, n=3, cost=15))
        out.append(dict(kind='leak', module='terms', part=i % 3, n=3, cost=12))
        out.append(dict(kind='fill', module='terms', part=i % 3, n=3, cost=12))
    for i in range(4 * n):
        out.append(dict(kind='leak', module='others', part=i % 4, n=4, cost=18))
    for m in HOSTILE:
        out += [dict(kind='hostile', what=m, n=30, cost=10) for _ in range(n)]
    out += [dict(kind='hostile', what='badmat', n=150, cost=15) for _ in range(2 * n)]
    for c in out:
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

def spread(name, n, rng):
    """Cases of a module, evenly by terms and kinds."""
    mod = importlib.import_module('rvm.p.' + name)
    cs = mod.cases(np.random.RandomState(rng.randint(2**31 - 1)), 'quick')
    for c in cs:
        c.setdefault('seed', int(rng.randint(2**31 - 1)))
    by = {}
    for i in rng.permutation(len(cs)):
        c = cs[i]
        by.setdefault((c['kind'], c.get('term') or c.get('name')), []).append(c)
    out = []
    keys = sorted(by, key=str)
    # Rare kinds first, then random terms.
    kinds = {}
    for k in keys:
        kinds.setdefault(k[0], []).append(k)
    for k in kinds:
        kinds[k] = [kinds[k][i] for i in rng.permutation(len(kinds[k]))]
    names = sorted(kinds)
    w = np.array([np.sqrt(sum(len(by[k]) for k in kinds[a])) for a in names])
    pos = dict.fromkeys(names, 0)
    for a in rng.choice(names, size=20 * n, p=w / w.sum()):
        a = str(a)
        lst = [k for k in kinds[a] if by[k]]
        if not lst:
            continue
        k = lst[pos[a] % len(lst)]
        pos[a] += 1
        out.append((name, by[k].pop()))
        if len(out) == n:
            break
    return out

_libs = []

def libs():
    if not _libs:
        for lib in ('libasan.so', 'libubsan.so', 'libstdc++.so.6'):
            _libs.append(subprocess.check_output(['gcc', '-print-file-name=' + lib], text=True).strip())
    return ' '.join(_libs)

def unlimited():
    # Shadow memory of the sanitizer needs a large address space.
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)

def launch(kind, job, fill=None, timeout=500):
    """Run the job in a new process: (return code, output)."""
    d = tempfile.mkdtemp()
    try:
        with open(d + '/in.json', 'w') as f:
            json.dump(job, f)
        env = {k: v for k, v in os.environ.items() if k not in ('RVM_SCRATCH', 'LD_PRELOAD')}
        env['RVM_SCRATCH'] = d
        # Extension modules are built for the process starting this one.
        if kind == 'asan':
            env['LD_PRELOAD'] = libs()
            env['ASAN_OPTIONS'] = ('detect_leaks=0:halt_on_error=0:log_path=%s/log:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0'
                                   ':max_malloc_fill_size=1073741824:malloc_fill_byte=%d:quarantine_size_mb=64' % (d, 190 if fill is None else fill))
            env['UBSAN_OPTIONS'] = 'log_path=%s/log-ub:print_stacktrace=1' % d
        elif fill is not None:
            env['MALLOC_PERTURB_'] = str(fill)
            env['PYTHONMALLOC'] = 'malloc'
        with open(d + '/out.txt', 'w') as fo:
            p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'rvm.sanrun', kind, d + '/in.json', d + '/out.json', d + '/log'], cwd=VERIF, env=env,
                                 stdout=fo, stderr=fo, stdin=subprocess.DEVNULL, preexec_fn=unlimited)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
        try:
            out = json.load(open(d + '/out.json'))
        except Exception:
            out = dict(done=[], called={}, complete=False)
        try:
            out['at'] = json.load(open(d + '/out.json.at'))
        except Exception:
            out['at'] = None
        out['tail'] = open(d + '/out.txt', errors='replace').read()[-2000:]
        out['log'] = ''
        if not out['complete']:
            for f in sorted(glob.glob(d + '/log*')):
                out['log'] += open(f, errors='replace').read()[-6000:]
        return rc, out
    finally:
        shutil.rmtree(d, ignore_errors=True)

FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)')

def reports(text):
    """Sanitizer reports in the extension modules: [(kind, place, text)]."""
    out = []
    for part in re.split(r'(?=^=+$|^\S+:\d+:\d+: runtime error)', text, flags=re.M):
        m = re.search(r'ERROR: AddressSanitizer: (\S+)', part)
        u = re.search(r'^(\S+?):\d+:\d+: runtime error: (.*)', part, re.M)
        if not (m or u):
            continue
        kind = m.group(1) if m else re.sub(r'[-0-9.e+x]+', '#', u.group(2))[:60]
        place = None
        for fun, path in FRAME.findall(part):
            if 'sfepy/' in path or 'extmods' in path or fun.startswith('__pyx'):
                place = fun
                break
        if u and place is None and 'sfepy' in u.group(1):
            place = os.path.basename(u.group(1))
        if place is None:
            continue
        out.append((kind, place, part[:2500]))
    return out

def watch(mon, rc, out, what, total):
    """Decide reports of the process."""
    n = len(out['done'])
    mon.event('cases', n)
    for k, v in out['called'].items():
        mon.event('kernels', v)
        mon.sig('kernel', k)
    text = [(r['report'], r['module'], r['case']) for r in out['done'] if r.get('report')]
    if not out['complete']:
        text.append((out['log'], *(out['at'] or ('?', {}))))
    bad = 0
    for t, m, c in text:
        for kind, place, part in reports(t):
            bad += 1
            mon.violate('sanitizer', '%s in %s, %s, case %s %s' % (kind, place, what, m, json.dumps(c)[:300]), report=part)
    mon.event('sanitizer', n)
    if not out['complete'] and not bad:
        if isinstance(rc, int) and rc < 0 and -rc in (4, 7, 8, 11, 6):
            mon.violate('crash', 'signal %d, %s, case %s' % (-rc, what, json.dumps(out['at'])[:300]), tail=out['tail'])
        elif n == 0:
            mon.inconclusive('%s: process ended with %s: %s' % (what, rc, out['tail'][-600:]))
    return n

def run_workload(mon, case):
    rng = gen.rngof(case)
    cs = batch(case, rng)
    rc, out = launch('asan', dict(cases=cs))
    mon.event('workload', watch(mon, rc, out, 'workload of ' + case['module'], len(cs)))
    mon.sig('workload', case['module'])

def run_hostile(mon, case):
    rng = gen.rngof(case)
    what = case['what']
    if what == 'badmat':
        cs = [('C24', dict(kind='badmat', sub=c, seed=int(rng.randint(2**31 - 1)))) for _, c in spread('C08', case['n'], rng) if c['kind'] == 'deriv']
    else:
        cs = [('C24', dict(kind=what, seed=int(rng.randint(2**31 - 1)))) for _ in range(case['n'])]
    while cs:
        rc, out = launch('asan', dict(cases=cs))
        mon.event('hostile', watch(mon, rc, out, 'invalid input ' + what, len(cs)))
        for r in out['done']:
            f = r['full']
            for k, v in f['events'].items():
                mon.event(k, v)
            for v in f['violations']:
                mon.violate(v['kind'], v['msg'])
            mon.sigs.update(f['sigs'])
        if out['complete'] or rc == 'timeout' or len(out['done']) + 1 >= len(cs) or len(mon.violations) > 5:
            break
        cs = cs[len(out['done']) + 1:]

def batch(case, rng):
    if case['module'] == 'terms':
        return benches(rng, case['part'], case['n'])
    if case['module'] == 'others':
        return others(rng, case['part'], case['n'])
    return spread(case['module'], case['n'], rng)

def run_leak(mon, case):
    rng = gen.rngof(case)
    cs = batch(case, rng)
    rc, out = launch('plain', dict(cases=cs, leak=True, trace=False))
    watch(mon, rc, out, 'repeated workload of ' + case['module'], len(cs))
    for r in out['done']:
        use, peak = r['usage'], r['peak']
        mon.event('leak')
        for k in peak:
            if peak[k]:
                mon.event('allocated', 1)
        mon.ok('leak', not (use[0] < use[1] < use[2] < use[3]), 'memory held by the extension modules after repeated runs of %s %s: %s'
               % (r['module'], json.dumps(r['case'])[:300], use))
    mon.sig('leak', case['module'])

def run_fill(mon, case):
    rng = gen.rngof(case)
    cs = batch(case, rng)
    outs = []
    # Fresh bytes are 0x55 (doubles about 1e103) and 0x08 (about 1e-268).
    for fill in (0xaa, 0xf7):
        rc, out = launch('plain', dict(cases=cs, values=True, trace=False), fill=fill)
        watch(mon, rc, out, 'workload of %s with filled memory' % case['module'], len(cs))
        outs.append(out['done'])
    for a, b in zip(*outs):
        mon.event('fill')
        if any('no_progress' in v[0] for v in a['vio'] + b['vio']):
            continue
        what = '%s %s' % (a['module'], json.dumps(a['case'])[:300])
        ka, kb = [(k, n) for k, n, _ in a['values']], [(k, n) for k, n, _ in b['values']]
        if not mon.ok('values', ka == kb, 'different numbers of values with differently filled memory: %s' % what):
            continue
        for (k, n, x), (_, _, y) in zip(a['values'], b['values']):
            mon.event('values')
            tol = 1e-6 * (abs(x) + abs(y)) + 1e-7 * n
            if not (abs(x - y) <= tol or (np.isnan(x) and np.isnan(y)) or x == y):
                mon.violate('values', 'values of %s depend on the contents of fresh memory: %r, %r, %s' % (k, x, y, what))
                break
    mon.sig('fill', case['module'])

# Invalid input, run under the sanitizers.

def attempt(mon, fun, *args, **kw):
    """Either a result or a Python exception."""
    try:
        out = fun(*args, **kw)
    except Exception as exc:
        mon.event('rejected')
        mon.sig('rejected', type(exc).__name__, str(exc)[:25])
        return None
    mon.event('accepted')
    return out

KINDS = ['1_2', '2_3', '2_4', '3_4', '3_8', 'mixed2']

def data(rng, kinds=KINDS):
    raw = gen.raw_mesh(rng, str(rng.choice(kinds)), 2 + rng.randint(2), 0.1, 0.0, True)
    mesh = gen.to_mesh(raw)
    return list(mesh._get_io_data())

def use(mesh):
    from sfepy.discrete.fem import FEDomain
    dom = FEDomain('d', mesh)
    cm = dom.mesh.cmesh
    D = cm.tdim
    cm.get_volumes(D), cm.get_centroids(D)
    cm.setup_connectivity(D - 1, D)
    if D > 1:
        cm.get_volumes(D - 1), cm.get_facet_normals()
    cm.setup_connectivity(0, 0)
    cm.setup_connectivity(D, D)
    cm.get_surface_facets()
    dom.create_region('Omega', 'all')
    return dom

def field(rng, dom, order=None, nc=None):
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.fem import Field
    om = dom.create_region('Omega%d' % rng.randint(1 << 30), 'all')
    f = Field.from_args('f', np.float64, 1 if nc is None else nc, om, approx_order=int(rng.randint(1, 3)) if order is None else order)
    v = FieldVariable('u', 'unknown', f)
    v.set_data(rng.randn(v.n_dof))
    return f, v

def run_badmesh(mon, case):
    """Invalid mesh data."""
    from sfepy.discrete.fem import Mesh
    rng = gen.rngof(case)
    X, vg, conns, mids, descs = data(rng)
    conns, mids = [np.array(c) for c in conns], [np.array(m) for m in mids]
    k = rng.randint(len(conns))
    how = rng.randint(12)
    c = conns[k]
    i, j = rng.randint(c.shape[0]), rng.randint(c.shape[1])
    n = len(X)
    if how < 5:
        c[i, j] = [n, n + 1 + rng.randint(1000), -1, 2**31 - 1, -1 - rng.randint(10)][how]
    elif how == 5:
        conns[k] = c[:, :-1]
    elif how == 6:
        conns[k] = np.c_[c, c[:, :1]]
    elif how == 7:
        c[i, j] = c[i, j - 1]
    elif how == 8:
        X = X[:max(len(X) // 2, 1)]
    elif how == 9:
        X = X.copy()
        X[rng.randint(n)] = [np.nan, np.inf, 1e308][rng.randint(3)]
    elif how == 10:
        mids[k] = mids[k][:-1]
    elif how == 11:
        vg = np.zeros(max(n - 3, 0), dtype=np.int32)
    mon.sig('badmesh', how, tuple(descs))

    def go():
        m = Mesh.from_data('m', X, vg, conns, mids, descs)
        dom = use(m)
        for sel in ('vertices of group 1', 'cells of group 1', 'vertices of surface'):
            attempt(mon, dom.create_region, 'r%d' % rng.randint(1 << 30), sel, 'facet' if 'surface' in sel else 'cell' if sel[0] == 'c' else 'vertex')
        if how < 7 or how == 8:
            return dom
        f, v = field(rng, dom)
        v.evaluate_at(rng.rand(3, X.shape[1]))
        dom.refine()
        return dom
    out = attempt(mon, go)
    if how in (0, 1, 2, 3, 4, 8):
        # Indices out of range have to be diagnosed.
        mon.ok('rejected', out is None, 'a mesh with vertex indices out of range is accepted (%d)' % how)

def run_badentity(mon, case):
    """Invalid entities and dimensions."""
    rng = gen.rngof(case)
    from sfepy.discrete.fem import Mesh
    dom = use(Mesh.from_data('m', *data(rng)))
    cm = dom.mesh.cmesh
    for _ in range(10):
        d, e = int(rng.randint(-1, 5)), int(rng.randint(-1, 5))
        num = int(cm.num[e]) if 0 <= e <= 3 else 5
        ii = np.array([0, num - 1 + rng.randint(3), rng.choice([num, 10 * num, 2**31, 2**32 - 1])], dtype=np.int64)[:1 + rng.randint(3)].astype(np.uint32)
        how = rng.randint(9)
        mon.sig('badentity', how, d, e, cm.tdim)
        if how == 0:
            attempt(mon, cm.get_incident, d, ii, e, ret_offsets=bool(rng.randint(2)))
        elif how == 1:
            attempt(mon, cm.get_complete, d, ii, e)
        elif how == 2:
            attempt(mon, cm.create_new, ii, e, localize=bool(rng.randint(2)))
        elif how == 3:
            attempt(mon, cm.get_local_ids, ii, e, np.arange(4, dtype=np.uint32), np.arange(len(ii) + rng.randint(3), dtype=np.uint32), d)
        elif how == 4:
            attempt(mon, cm.setup_connectivity, d, e)
        elif how == 5:
            attempt(mon, cm.get_volumes, d), attempt(mon, cm.get_centroids, d)
        elif how == 6:
            attempt(mon, cm.get_orientations, d)
        elif how == 7:
            attempt(mon, cm.get_conn_as_graph, d, e)
        elif how == 8:
            attempt(mon, cm.free_connectivity, d, e)
            attempt(mon, cm.get_incident, 0, np.array([0], dtype=np.uint32), cm.tdim)
    # Still usable.
    if cm.get_conn(cm.tdim, 0) is not None:
        mon.ok('usable', np.isfinite(cm.get_volumes(cm.tdim)).all(), 'volumes after invalid requests')

def run_badregion(mon, case):
    """Regions of nonexistent entities."""
    from sfepy.discrete.common.region import Region
    from sfepy.discrete.fem import Mesh
    rng = gen.rngof(case)
    dom = use(Mesh.from_data('m', *data(rng)))
    cm = dom.mesh.cmesh
    big = int(rng.choice([dom.shape.n_nod, dom.shape.n_el, 1000, 10**6]))
    for _ in range(6):
        sel = str(rng.choice(['cell %d', 'cell 0, %d', 'vertex %d', 'vertex 0, %d', 'cells of group %d', 'vertices of group %d', 'cell %d +c cell 0', 'vertices in (x > %d)'])) % big
        kind = str(rng.choice(['cell', 'facet', 'edge', 'vertex']))
        r = attempt(mon, dom.create_region, 'r%d' % rng.randint(1 << 30), sel, kind, allow_empty=bool(rng.randint(2)))
        if r is not None:
            for a in ('vertices', 'edges', 'faces', 'facets', 'cells'):
                attempt(mon, getattr, r, a)
            attempt(mon, r.get_edge_graph) if cm.tdim > 1 else None
            attempt(mon, r.get_n_cells, True)
            attempt(mon, Mesh.from_region, r, dom.mesh, localize=True)
        mon.sig('badregion', sel.split()[0], kind, cm.tdim)
    ii = np.array([0, big], dtype=np.uint32)
    for fun in (Region.from_vertices, Region.from_facets):
        r = attempt(mon, fun, ii, dom)
        if r is not None:
            attempt(mon, getattr, r, 'cells')

def run_badpoint(mon, case):
    """Evaluation in wrong points."""
    from sfepy.discrete.fem import Mesh
    rng = gen.rngof(case)
    dom = use(Mesh.from_data('m', *data(rng, ['1_2', '2_3', '2_4', '3_4', '3_8'])))
    f, v = field(rng, dom, nc=int(rng.randint(1, 4)))
    d = dom.shape.dim
    for _ in range(6):
        P = rng.rand(4, d)
        how = rng.randint(8)
        if how < 5:
            P[rng.randint(4), rng.randint(d)] = [np.nan, np.inf, -np.inf, 1e308, 1e160][how]
        elif how == 5:
            P = P[:0]
        elif how == 6:
            P = rng.rand(4, d + 1)
        else:
            P = rng.rand(4)
        attempt(mon, v.evaluate_at, P, mode=str(rng.choice(['val', 'grad'])), strategy=str(rng.choice(['general', 'convex'])), close_limit=[0.1, np.inf, np.nan, -1, 1e30][rng.randint(5)])
        mon.sig('badpoint', how, d)
    x = attempt(mon, v.evaluate_at, dom.mesh.cmesh.get_centroids(d))
    mon.ok('usable', x is not None and np.isfinite(x).all(), 'evaluation after invalid points')

def run_badstate(mon, case):
    """Wrong states, points of quadrature and mesh coordinates."""
    from sfepy.discrete import Integral
    from sfepy.discrete.fem import Mesh
    from sfepy.discrete.variables import FieldVariable
    from sfepy.terms import Term
    rng = gen.rngof(case)
    dom = use(Mesh.from_data('m', *data(rng, ['2_3', '2_4', '3_4', '3_8'])))
    nc = dom.shape.dim if rng.rand() < 0.5 else 1
    f, v = field(rng, dom, nc=nc)
    for how in rng.permutation(8)[:5]:
        mon.sig('badstate', how, nc)
        if how == 0:
            attempt(mon, v.set_data, rng.randn(v.n_dof + rng.randint(1, 3) * (-1)**rng.randint(2)))
        elif how == 1:
            attempt(mon, v.set_data, np.full(v.n_dof, np.nan))
        elif how == 2:
            attempt(mon, f.set_dofs, rng.randn(3), f.region)
        elif how == 3:
            attempt(mon, f.get_dofs_in_region, dom.create_region('q%d' % rng.randint(1 << 30), 'vertex 10000', 'vertex', allow_empty=True))
        elif how == 4:
            attempt(mon, f.create_mapping, f.region, Integral('i', order=int(rng.choice([-1, 0, 25, 60]))), 'cell')
        elif how == 5:
            attempt(mon, f.set_coors, rng.rand(2, dom.shape.dim))
        elif how == 6:
            attempt(mon, f.evaluate_at, rng.rand(2, dom.shape.dim), rng.rand(3, 1))
        else:
            attempt(mon, f.average_to_vertices, rng.rand(3), f.region, Integral('i', order=1))
        t = attempt(mon, Term.new, 'ev_integrate(u)', Integral('i', order=2), f.region, u=v)
        if t is not None:
            t.setup()
            attempt(mon, t.evaluate)

def run_bench(mon, case):
    """Residual and matrix of a term."""
    from rvm.p import C08
    sub = dict(case['sub'])
    b = C08.bench(sub, np.random.RandomState(sub['s']))
    if b is None:
        return
    b.setup()
    x = 0.02 * np.random.RandomState(sub['s']).randn(b.vec())
    try:
        r, m = b.residual(x), b.matrix(x)
    except ValueError as exc:
        if 'warp' not in str(exc):
            raise
        return
    m = m.toarray() if hasattr(m, 'toarray') else np.asarray(m)
    mon.close('residual', r, r)
    mon.close('matrix', m, m)

def benches(rng, part, of):
    """Cases of all terms."""
    from rvm.p import C08
    cs = [c for c in C08.cases(rng, 'quick') if c['kind'] == 'deriv']
    cs = [cs[i] for i in rng.permutation(len(cs))]
    seen, out = {}, []
    for c in cs:
        k = (c['term'], c['ish'], c['integration'])
        if seen.setdefault(k, 0) < 1:
            seen[k] += 1
            out.append(('C24', dict(kind='bench', sub=c)))
    out.sort(key=lambda x: x[1]['sub']['term'])
    return out[part::of]

def others(rng, part, of):
    """One case of every kind, shape and mode of all terms."""
    out, seen = [], set()
    for name in ('C08', 'C09'):
        mod = importlib.import_module('rvm.p.' + name)
        cs = mod.cases(np.random.RandomState(rng.randint(2**31 - 1)), 'quick')
        for i in rng.permutation(len(cs)):
            c = cs[i]
            k = (name, c['kind'], c.get('term'), c.get('ish'), c.get('iat'), c.get('integration'))
            if (name == 'C08' and c['kind'] == 'deriv') or k in seen:
                continue
            seen.add(k)
            c.setdefault('seed', int(rng.randint(2**31 - 1)))
            out.append((name, c))
    out.sort(key=lambda x: (x[0], str(x[1].get('term')), x[1]['kind']))
    return out[part::of]

def run_badmat(mon, case):
    """Materials of wrong shapes and types in terms."""
    from rvm.p import C08
    rng = gen.rngof(case)
    sub = dict(case['sub'])
    b = C08.bench(sub, np.random.RandomState(sub['s']))
    names = sorted(b.mats) if b is not None else []
    if not names:
        return
    name = names[rng.randint(len(names))]
    r, c = [int(k) for k in rng.randint(1, 10, 2)]
    how = rng.randint(6)
    val = [lambda x: rng.rand(len(x), r, c), lambda x: rng.rand(len(x), r, 1), lambda x: rng.rand(len(x), 1, 1), lambda x: np.full((len(x), r, c), np.nan),
           lambda x: rng.rand(max(len(x) - 1, 1), r, r), lambda x: rng.rand(len(x), r, r).astype(np.float32)][how]
    b = attempt(mon, C08.bench, sub, np.random.RandomState(sub['s']), mats={name: val})
    if b is None:
        return
    mon.sig('badmat', sub['term'], how)

    def go():
        b.setup()
        x = np.full(b.vec(), 0.01)
        b.residual(x)
        b.matrix(x)
    attempt(mon, go)
