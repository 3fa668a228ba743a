"""C20: Mesh transformations preserve the domain they represent.

Monitor: Uniform and local refinement, merging of meshes and of double vertices, splitting to simplices, extrusion,
revolution, mirroring, tiling, extraction, smoothing and the parametric generators are applied to random meshes.  The
produced meshes are decided by own geometry: cells with positive volumes, no repeated, dangling or coinciding vertices,
facets shared by at most two cells, the expected measure of the domain, of its boundary and of groups, nesting in the
originating cells and the expected coordinates.
"""
import numpy as np
from rvm import gen, ref_fe

REQUIRED = ['refined', 'refined twice', 'nested', 'hanging', 'merged', 'double vertices', 'triple vertices', 'triangulated', 'extruded', 'tetrahedra of wedges',
            'mixed', 'twisted', 'revolved', 'closed revolution', 'mirrored', 'tiled', 'node map', 'cells by group', 'cells by vertices', 'region', 'surface mesh',
            'smoothed', 'volume correction', 'block', 'cylinder', 'extended', 'voxels', 'surface faces', 'outline', 'script', 'combined', 'conforming', 'measure', 'boundary measure', 'groups']
ASSUMPTIONS = ['revolved meshes do not touch the axis, tensor product numbering of split hexahedra', 'cells of simplicial meshes after reflections are oriented by FEDomain']

def cases(rng, tier):
    n = 1 if tier == 'quick' else 25
    out = []
    for kind, k in (('refine', 60), ('hanging', 20), ('merge', 40), ('double', 30), ('triangulate', 16), ('extrude', 40), ('revolve', 40), ('mirror', 30),
                    ('tile', 30), ('submesh', 40), ('smooth', 30), ('block', 20), ('cylinder', 40), ('extended', 10), ('voxels', 24), ('outline', 20), ('script', 42)):
        out += [dict(kind=kind, cost=2 if kind in ('hanging', 'script') else 1) for _ in range(n * k)]
    k_script = 0
    for c in out:
        if c['kind'] == 'script':
            c['op'] = int(k_script % len(OPS))
            k_script += 1
        c['seed'] = int(rng.randint(2**31 - 1))
    return out

OPS = ['scale', 'center', 'rot', 'refine', 'tri', 'merge', 'vertices', 'per mat', 'tile', 'matid', 'nodegroup', 'extrude', 'revolve', 'mirror', 'remap', 'surface', 'print', 'edges', '3d', 'combine', 'celldim']

class Geo:
    """Geometry of a mesh by own means."""

    def __init__(self, mesh):
        self.X = X = np.array(mesh.coors, dtype=float)
        self.tdim = int(max(int(d[0]) for d in mesh.descs))
        self.dim = X.shape[1]
        self.groups = np.array(mesh.cmesh.cell_groups)
        self.vgroups = np.array(mesh.cmesh.vertex_groups)
        self.n = int(mesh.n_el)
        self.conns = {}
        self.cells = {}
        self.vol = np.full(self.n, np.nan)
        self.jac = np.full(self.n, np.nan)
        for d in mesh.descs:
            c, ii = mesh.get_conn(d, ret_cells=True)
            self.conns[d], self.cells[d] = np.asarray(c), np.asarray(ii)
            if len(c) and c.min() >= 0 and c.max() < len(X):
                p, w = ref_fe.rule(d, 3)
                J = ref_fe.measure(ref_fe.mapped(d, X, self.conns[d], p)[1])
                self.vol[ii] = J @ w
                self.jac[ii] = J.min(axis=1) if J.mean() > 0 else J.max(axis=1)
        self.measure = float(np.nansum(self.vol))

    def all(self):
        out = [None] * self.n
        for d in self.conns:
            for i, c in zip(self.cells[d], self.conns[d]):
                out[i] = (d, tuple(int(k) for k in c))
        return out

    def facets(self):
        """Facet vertices: (count, the ordered vertices, a cell)."""
        out = {}
        for i, (d, c) in enumerate(self.all()):
            for f in ref_fe.facets(d):
                v = tuple(c[k] for k in f)
                key = frozenset(v)
                n = out.get(key, (0,))[0]
                out[key] = (n + 1, v, i)
        return out

    def surface(self):
        return [(v, i) for n, v, i in self.facets().values() if n == 1]

    def boundary(self, fs=None):
        """The measure of the boundary."""
        fs = self.surface() if fs is None else fs
        tot = 0.0
        for k in set(len(v) for v, _ in fs):
            c = np.array([v for v, _ in fs if len(v) == k])
            if k == 1:
                tot += len(c)
                continue
            g = ref_fe.FG[k]
            p, w = ref_fe.rule(g, 4)
            X = self.X if self.dim > 1 else np.c_[self.X, 0 * self.X]
            tot += float((ref_fe.measure(ref_fe.mapped(g, X, c, p)[1]) @ w).sum())
        return tot

    def by_group(self):
        return {int(g): float(self.vol[self.groups == g].sum()) for g in np.unique(self.groups)}

    def key(self, i=None):
        """Sets of vertex coordinates of cells."""
        return [np.array(sorted(map(tuple, np.round(self.X[list(c)], 9) + 0.0))) for _, c in self.all()]

def valid(mon, mesh, what, sign='+', dup=True, dangling=True, degenerate=False, conform=True, n_facets=None):
    """General validity of a mesh."""
    g = Geo(mesh)
    mon.ok('finite', bool(np.isfinite(g.X).all()), 'infinite coordinates, ' + what)
    nv = len(g.X)
    allc = [c for d in g.conns for c in g.conns[d]]
    mon.ok('range', all((c >= 0).all() and (c < nv).all() for c in allc), 'vertices out of range, ' + what)
    if not degenerate:
        mon.ok('degenerate', all(len(set(c)) == len(c) for c in allc), 'cells with repeated vertices, ' + what)
    mon.equal('same cells', len(set(frozenset(map(int, c)) for c in allc)), len(allc), 'repeated cells, ' + what)
    used = np.unique(np.concatenate([np.ravel(c) for c in allc])) if allc else []
    if dangling:
        mon.equal('dangling', len(used), nv, 'vertices used by cells, ' + what)
    if dup and nv > 1:
        from scipy.spatial import cKDTree
        s = np.ptp(g.X, axis=0).max()
        mon.equal('coinciding', len(cKDTree(g.X).query_pairs(1e-9 * s)), 0, 'coinciding vertices, ' + what)
    mon.ok('degenerate', bool((np.abs(g.vol) > 1e-13 * np.nanmax(np.abs(g.vol))).all()), 'zero volume of cells %s, %s' % (np.nonzero(np.abs(g.vol) <= 1e-13)[0][:5], what))
    if g.tdim == g.dim:
        s = np.nanmax(np.abs(g.vol)) * 1e-9
        if sign == '+':
            mon.ok('inverted', bool((g.vol > 0).all() and (g.jac > -s).all()), 'inverted cells, volumes %s, %s' % (g.vol[g.vol <= 0][:4], what))
        elif sign == 'same':
            mon.ok('inverted', bool((g.vol > 0).all() or (g.vol < 0).all()), 'cells of both orientations, ' + what)
            g.vol, g.measure = np.abs(g.vol), abs(g.measure)
        elif sign == 'any':
            g.vol, g.measure = np.abs(g.vol), float(np.abs(g.vol).sum())
    if conform and g.tdim > 0 and not degenerate:
        cnt = [n for n, _, _ in g.facets().values()]
        mon.ok('conforming', max(cnt) <= 2, 'a facet shared by %d cells, %s' % (max(cnt), what))
        if n_facets is not None:
            mon.equal('conforming', cnt.count(1), n_facets, 'number of boundary facets, ' + what)
        mon.event('conforming')
    mon.equal('sizes', [mesh.n_nod, mesh.n_el, mesh.dim, len(g.vgroups), len(g.groups)], [nv, g.n, g.dim, nv, g.n], 'declared sizes, ' + what)
    return g

def measures(mon, g, m, b, what, bg=None):
    if m is not None:
        mon.close('measure', g.measure, m, 1e-10, msg='measure, ' + what)
        mon.event('measure')
    if b is not None:
        mon.close('boundary', g.boundary(), b, 1e-9, msg='measure of the boundary, ' + what)
        mon.event('boundary measure')
    if bg is not None:
        a = g.by_group()
        mon.equal('groups', sorted(a), sorted(bg), 'cell groups, ' + what)
        for k in a:
            mon.close('groups', a[k], bg.get(k, np.nan), 1e-10, msg='measure of the group %d, %s' % (k, what))
        mon.event('groups')

def mesh_of(rng, kinds=None, **kw):
    kind = str(rng.choice(kinds or ['1_2', '2_3', '2_4', '3_4', '3_8', '2_3d', '3_4d']))
    kw.setdefault('size', 3 if kind[0] != '3' else 2)
    kw.setdefault('jitter', 0.25)
    if 'holes' not in kw:
        kw['holes'] = 0.2 if rng.rand() < 0.3 and kind[0] != '1' else 0.0
    raw = gen.raw_mesh(rng, kind, **kw)
    return kind, raw, gen.to_mesh(raw)

# Dyadic reference points of children.
def children(desc):
    from itertools import product
    d = int(desc[0])
    return np.array(list(product([0, 0.5, 1], repeat=d)))

def run_refine(mon, case):
    from sfepy.discrete.fem import FEDomain
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['1_2', '2_3', '2_4', '3_4', '3_8', '2_3d', '3_4d'])
    if kind == '1_2':
        kind, raw, mesh = mesh_of(rng, ['1_2'], renumber=False, localperm=False, size=4)
        if rng.rand() < 0.5:
            p = rng.permutation(len(raw['conns']['1_2']))
            raw['conns']['1_2'] = raw['conns']['1_2'][p]
            mesh = gen.to_mesh(raw)
    elif kind in ('2_3', '2_4') and rng.rand() < 0.2:
        kind, raw, mesh = mesh_of(rng, [kind], dim=3)
    what = 'refined %s' % kind
    dom = FEDomain('d', mesh)
    level = 2 if rng.rand() < 0.4 else 1
    desc = kind[:3]
    for _ in range(level):
        a = Geo(dom.mesh)
        top = len(a.facets()), len(a.surface())
        dom = dom.refine()
        b = valid(mon, dom.mesh, what)
        mon.equal('number', list(b.conns), [desc], 'types of cells, ' + what)
        k = 2**a.tdim
        mon.equal('number', b.n, k * a.n, 'number of cells, ' + what)
        if b.n != k * a.n:
            return
        exact = not (desc == '2_4' and a.dim == 3)
        if exact:
            measures(mon, b, a.measure, a.boundary() if desc != '3_8' else None, what, a.by_group())
        mon.equal('groups', b.groups, np.repeat(a.groups, k), 'inherited groups, ' + what)
        mon.equal('conforming', len(b.surface()), top[1] * 2**(a.tdim - 1), 'number of boundary facets, ' + what)
        if exact:
            mon.close('nested', b.vol.reshape(a.n, k).sum(1), a.vol, 1e-10, 1e-12, msg='volumes of the children, ' + what)
        if desc in ('2_3', '3_4', '1_2'):
            mon.close('nested', b.vol, np.repeat(a.vol, k) / k, 1e-9, 1e-12, msg='children of simplices have equal volumes, ' + what)
        # The vertices of the children of every cell.
        new = b.conns[desc].reshape(a.n, -1)
        c = a.conns[desc]
        if desc in ('2_4', '3_8'):
            P = ref_fe.mapped(desc, a.X, c, children(desc))[0]
        else:
            nn = c.shape[1]
            P = np.stack([0.5 * (a.X[c[:, i]] + a.X[c[:, j]]) for i in range(nn) for j in range(i, nn)], axis=1)
        for i in range(a.n):
            Y = b.X[np.unique(new[i])]
            D = np.linalg.norm(Y[:, None] - P[i][None], axis=2)
            s = np.ptp(a.X, axis=0).max() * 1e-12
            mon.ok('nested', bool(len(Y) == len(P[i]) and D.min(1).max() <= s and D.min(0).max() <= s), 'vertices of the children of the cell %d, %s' % (i, what))
        mon.event('nested')
        if kind != '1_2':
            mon.close('vertices', b.X[:len(a.X)], a.X, 0, 0, msg='the original vertices come first, ' + what)
    mon.event('refined')
    if level > 1:
        mon.event('refined twice')
    mon.sig('refine', kind, level, a.dim)

def run_hanging(mon, case):
    from sfepy.discrete.fem import FEDomain
    from sfepy.discrete.fem.refine_hanging import refine
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['2_4', '3_8'], size=3, holes=0.0)
    dom = FEDomain('d', mesh)
    for it in range(1 + rng.randint(2)):
        a = Geo(dom.mesh)
        a0 = a.groups.copy()
        flag = (rng.rand(a.n) < rng.choice([0.1, 0.3, 0.6])).astype(int)
        if not flag.any():
            flag[rng.randint(a.n)] = 1
        dom, subs, sub = refine(dom, flag, ret_sub_cells=True)
        what = 'locally refined %s' % kind
        b = valid(mon, dom.mesh, what, conform=False, dup=False)
        k = 2**a.tdim
        mon.equal('number', b.n, a.n + (k - 1) * int(flag.sum()), 'number of cells, ' + what)
        measures(mon, b, a.measure, None, what, a.by_group())
        keep = np.nonzero(flag == 0)[0]
        d = kind
        mon.equal('coarse cells', b.conns[d][keep], a.conns[d][keep], 'the cells that are not refined keep their places, ' + what)
        if len(keep):
            mon.equal('coarse cells', b.groups[keep], a0[keep], 'their groups')
            vs = np.unique(a.conns[d][keep])
            mon.equal('coarse cells', b.vgroups[vs], a.vgroups[vs], 'vertex groups of the cells that are not refined')
        mon.equal('sub cells', np.sort(sub[:, 0]), np.nonzero(flag)[0], 'refined cells')
        seen = np.concatenate([sub[:, 1:].ravel(), keep])
        mon.equal('sub cells', np.sort(seen), np.arange(b.n), 'the sub-cells and coarse cells form the mesh')
        for row in sub:
            mon.close('nested', b.vol[row[1:]].sum(), a.vol[row[0]], 1e-10, msg='volume of sub-cells')
            P = ref_fe.mapped(d, a.X, a.conns[d][row[:1]], children(d))[0][0]
            Y = b.X[np.unique(b.conns[d][row[1:]])]
            D = np.linalg.norm(Y[:, None] - P[None], axis=2)
            mon.ok('nested', bool(len(Y) == len(P) and D.min(1).max() <= 1e-9), 'vertices of the sub-cells of the cell %d, %s' % (row[0], what))
            mon.equal('groups', b.groups[row[1:]], np.full(k, a0[row[0]]), 'groups of sub-cells')
    mon.event('hanging')
    # Nothing to do.
    out = refine(dom, np.zeros(dom.mesh.n_el, dtype=int), subs=subs)
    mon.ok('hanging', out[0] is dom or out[0].mesh.n_el == dom.mesh.n_el, 'nothing was refined')
    mon.ok('hanging', (out[1] is None) == (subs is None), 'the substitutions are kept when nothing is refined')
    mon.sig('hanging', kind, int(flag.sum()))

def part(rng, raw, desc, idx, shuffle=True):
    """A mesh of selected cells with own vertex numbers."""
    from sfepy.discrete.fem import Mesh
    c = raw['conns'][desc][idx]
    vs = np.unique(c)
    if shuffle:
        vs = rng.permutation(vs)
    new = -np.ones(len(raw['coors']), int)
    new[vs] = np.arange(len(vs))
    return Mesh.from_data('part', np.ascontiguousarray(raw['coors'][vs]), raw['vgroups'][vs].astype(np.int32), [new[c].astype(np.int32)],
                          [raw['mats'][desc][idx].astype(np.int32)], [desc]), vs

def run_merge(mon, case):
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng)
    desc = kind[:3]
    nc = len(raw['conns'][desc])
    k = min(2 + rng.randint(3), nc)
    w = rng.permutation(np.r_[np.arange(k), rng.randint(k, size=nc - k)])
    parts = [np.nonzero(w == i)[0] for i in range(k)]
    ms = [part(rng, raw, desc, p)[0] for p in parts]
    out = ms[0]
    for m in ms[1:]:
        out = out + m
    what = 'merged %d parts of %s' % (k, kind)
    ref = Geo(mesh)
    g = valid(mon, out, what)
    measures(mon, g, ref.measure, ref.boundary(), what, ref.by_group())
    mon.equal('merged', [len(g.X), g.n, len(g.facets())], [len(ref.X), ref.n, len(ref.facets())], 'vertices, cells and facets, ' + what)
    order = np.concatenate(parts)
    mon.close('merged', g.X[g.conns[desc]], raw['coors'][raw['conns'][desc][order]], 0, 1e-9, msg='coordinates of the cells, ' + what)
    mon.equal('groups', g.groups, raw['mats'][desc][order], 'groups of cells, ' + what)
    mon.equal('groups', g.vgroups[g.conns[desc]], raw['vgroups'][raw['conns'][desc][order]], 'groups of vertices, ' + what)
    # Vertices of the first mesh come first.
    mon.close('merged', g.X[:ms[0].n_nod], ms[0].coors, 0, 0, msg='vertices of the first mesh')
    mon.event('merged')
    # Disjoint meshes.
    m2 = mesh.copy()
    m2.coors[:] += 10.0 * np.ptp(ref.X, axis=0).max()
    both = mesh + m2
    g = valid(mon, both, 'disjoint meshes')
    measures(mon, g, 2 * ref.measure, 2 * ref.boundary(), 'disjoint meshes')
    mon.sig('merge', kind, k)

def explode(rng, raw, desc, mult=None):
    """Vertices are repeated for cells."""
    from sfepy.discrete.fem import Mesh
    c = raw['conns'][desc]
    if mult == 'all':
        src = c.ravel()
        new = np.arange(src.size).reshape(c.shape)
    else:
        # Some vertices are repeated once.
        m = rng.rand(*c.shape) < 0.2
        nv = len(raw['coors'])
        rep = rng.rand(nv) < 0.5
        use = m & rep[c]
        extra = np.unique(c[use])
        where = -np.ones(nv, int)
        where[extra] = nv + np.arange(len(extra))
        new = np.where(use, where[c], c)
        src = np.r_[np.arange(nv), extra]
        # Only used vertices.
        us = np.unique(new)
        re = -np.ones(len(src), int)
        re[us] = np.arange(len(us))
        new, src = re[new], src[us]
    p = rng.permutation(len(src))
    new = p[new]
    X = np.empty((len(src), raw['coors'].shape[1]))
    X[p] = raw['coors'][src]
    vg = np.empty(len(src), np.int32)
    vg[p] = raw['vgroups'][src]
    return Mesh.from_data('exploded', X, vg, [new.astype(np.int32)], [raw['mats'][desc].astype(np.int32)], [desc])

def run_double(mon, case):
    from sfepy.discrete.fem import Mesh
    from sfepy.discrete.fem.mesh import fix_double_nodes
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng)
    desc = kind[:3]
    mult = 'all' if rng.rand() < 0.5 else None
    ex = explode(rng, raw, desc, mult)
    ref = Geo(mesh)
    if rng.rand() < 0.5:
        what = 'fix_double_nodes() of %s' % kind
        coor, ng, conns = fix_double_nodes(ex.coors, ex.cmesh.vertex_groups, [ex.get_conn(desc)])
        out = Mesh.from_data('m', coor, ng, conns, [ex.cmesh.cell_groups], [desc])
    else:
        what = 'merge_nodes() of %s' % kind
        out = mt.merge_nodes(ex, eps=1e-10)
    g = valid(mon, out, what)
    measures(mon, g, ref.measure, ref.boundary(), what, ref.by_group())
    mon.equal('merged', [len(g.X), g.n, len(g.facets())], [len(ref.X), ref.n, len(ref.facets())], 'vertices, cells and facets, ' + what)
    mon.close('merged', g.X[g.conns[desc]], raw['coors'][raw['conns'][desc]], 0, 1e-9, msg='coordinates of the cells, ' + what)
    mon.equal('groups', g.groups, raw['mats'][desc], 'groups of cells, ' + what)
    mon.equal('groups', g.vgroups[g.conns[desc]], raw['vgroups'][raw['conns'][desc]], 'groups of vertices, ' + what)
    mon.event('triple vertices' if mult else 'double vertices')
    mon.sig('double', kind, mult, what[:5])

def run_triangulate(mon, case):
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['2_4', '3_8'], localperm=False, size=3, jitter=0.0 if rng.rand() < 0.7 else 0.15, holes=0.0)
    flat = kind == '2_4' or np.allclose(raw['coors'], np.round(raw['coors'], 12)) and True
    ref = Geo(mesh)
    out = mt.triangulate(mesh)
    what = 'triangulated %s' % kind
    n = 2 if kind == '2_4' else 6
    g = valid(mon, out, what, n_facets=len(ref.surface()) * (1 if kind == '2_4' else 2))
    mon.equal('number', g.n, n * ref.n, 'number of cells, ' + what)
    mon.equal('groups', g.groups, np.repeat(ref.groups, n), 'groups, ' + what)
    mon.equal('groups', g.vgroups, ref.vgroups, 'vertex groups, ' + what)
    if kind == '2_4':
        measures(mon, g, ref.measure, ref.boundary(), what, ref.by_group())
    mon.close('vertices', g.X, ref.X, 0, 0, msg='coordinates')
    # Plain boxes.
    from sfepy.mesh.mesh_generators import gen_block_mesh
    d = 2 + rng.randint(2)
    dims = 0.3 + rng.rand(d)
    m = mt.triangulate(gen_block_mesh(dims, 2 + rng.randint(3, size=d), rng.randn(d), verbose=False))
    g = valid(mon, m, 'triangulated block')
    measures(mon, g, dims.prod(), sum(2 * dims.prod() / x for x in dims), 'triangulated block')
    # Simplices are not changed.
    kind, raw, mesh = mesh_of(rng, ['2_3', '3_4'])
    mon.equal('triangulated', mt.triangulate(mesh).n_el, mesh.n_el, 'simplices are kept')
    mon.event('triangulated')
    mon.sig('triangulate', n, d)

def run_extrude(mon, case):
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['2_3', '2_4', 'mixed2', '2_3d'], size=3)
    a = Geo(mesh)
    wt = bool(rng.rand() < 0.6)
    nq = len(a.conns.get('2_4', []))
    ntri = len(a.conns.get('2_3', []))
    if kind == 'mixed2' and ntri and nq and wt:
        wt = False
    nb = len(a.surface())
    cc = np.r_[a.X.mean(0), 0.0]
    if rng.rand() < 0.5:
        dz, nz = float(0.1 + rng.rand()), 1 + rng.randint(3)
        if rng.rand() < 0.3 and wt and not nq:
            out = mt.expand2d(mesh, dz, nz)
        else:
            out = mt.extrude(mesh, (dz, nz), wedge_to_tetra=wt)
        L = dz * nz
        what = 'extruded %s, %s' % (kind, 'tetrahedra' if wt else 'wedges')
        line = np.array([cc + [0, 0, i * dz] for i in range(nz + 1)])
    else:
        nz = 1 + rng.randint(3)
        size = np.ptp(a.X, axis=0).max()
        line = cc + np.cumsum(np.r_[np.zeros((1, 3)), np.c_[0.05 * size * rng.randn(nz, 2), size * (0.5 + rng.rand(nz))]], axis=0)
        kw = {}
        if rng.rand() < 0.4:
            kw['twist'] = float(rng.uniform(-0.1, 0.1)) if rng.rand() < 0.5 else rng.uniform(-0.1, 0.1, nz)
        if rng.rand() < 0.4:
            kw['scale'] = 0.85 + 0.3 * rng.rand(nz)
        out = mt.extrude(mesh, [list(x) for x in line], wedge_to_tetra=wt, **kw)
        L = None
        what = 'extruded %s along a line, %s %s' % (kind, 'tetrahedra' if wt else 'wedges', sorted(kw))
    nf = 2 * nq + 2 * ntri + nb * nz
    if wt and ntri:
        nf += nb * nz
    # Slender twisted cells along lines can be inverted.
    g = valid(mon, out, what, n_facets=nf, sign='+' if L is not None else 'any')
    nt = 3 if wt else 1
    mon.equal('number', g.n, nz * (nq + nt * ntri), 'number of cells, ' + what)
    mon.equal('vertices', len(g.X), len(a.X) * (nz + 1), 'number of vertices, ' + what)
    if L is not None:
        measures(mon, g, a.measure * L, 2 * a.measure + a.boundary() * L, what, {k: v * L for k, v in a.by_group().items()})
    else:
        for d in g.conns:
            # Cells by the originating ones.
            pass
    mon.equal('groups', g.vgroups, np.tile(a.vgroups, nz + 1), 'vertex groups, ' + what)
    Y = g.X.reshape(nz + 1, -1, 3)
    mon.close('layers', Y.mean(axis=1), line, 1e-9, 1e-9 * np.abs(line).max(), msg='centres of the layers, ' + what)
    R0 = np.linalg.norm(a.X - a.X.mean(0), axis=1)
    tw = np.zeros(nz)
    if L is None and 'twist' in kw:
        tw = kw['twist'] * np.arange(1, nz + 1) if np.ndim(kw['twist']) == 0 else kw['twist']
        mon.event('twisted')
    for k in range(1, nz + 1):
        t = line[k] - line[k - 1]
        t = t / np.linalg.norm(t)
        d = Y[k] - line[k]
        s = kw['scale'][k - 1] if L is None and 'scale' in kw else 1.0
        mon.close('layers', d @ t, 0 * d[:, 0], 0, 1e-9 * np.abs(g.X).max(), msg='planes perpendicular to the line, ' + what)
        mon.close('layers', np.linalg.norm(d, axis=1), s * R0, 1e-9, 1e-9, msg='sizes of the layers, ' + what)
        # The rotation of the layer: the least rotation of the z axis followed by the twist.
        v = np.cross([0, 0, 1.0], t)
        from scipy.spatial.transform import Rotation
        R = Rotation.from_rotvec(v / np.linalg.norm(v) * np.arctan2(np.linalg.norm(v), t[2])) if np.linalg.norm(v) > 1e-14 else Rotation.identity()
        R = Rotation.from_rotvec(t * tw[k - 1]) * R
        mon.close('layers', d, s * R.apply(np.c_[a.X - a.X.mean(0), 0 * R0]), 1e-8, 1e-9 * np.abs(g.X).max(), msg='coordinates of the layer %d, %s' % (k, what))
    mon.event('extruded')
    if wt and ntri:
        mon.event('tetrahedra of wedges')
    if nq and ntri:
        mon.event('mixed')
        if L is not None:
            # With tetrahedra of wedges only the volumes of groups are decided (faces of quadrilaterals are not split).
            g = valid(mon, mt.extrude(mesh, (L, 1)), 'extruded mixed mesh', conform=False)
            measures(mon, g, a.measure * L, None, 'extruded mixed mesh', {k: v * L for k, v in a.by_group().items()})
    mon.sig('extrude', kind, wt, nz, L is None)

def run_revolve(mon, case):
    from scipy.spatial.transform import Rotation
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['2_3', '2_4', '2_3d', 'mixed2'], size=3)
    a = Geo(mesh)
    wt = bool(rng.rand() < 0.5) and not (len(a.conns) > 1)
    closed = bool(rng.rand() < 0.5)
    phi = None if closed else float(rng.choice([30.0, 90.0, 180.0, rng.uniform(10, 350)]))
    n = (3 if closed else 1 + int((phi or 0) // 120)) + rng.randint(5)
    al = float(rng.choice([0.0, 0.5 * np.pi, np.pi, rng.uniform(0, 2 * np.pi)]))
    v = np.array([np.cos(al), np.sin(al), 0.0])
    nrm = np.array([-v[1], v[0]])
    h = (a.X @ nrm)
    size = np.ptp(h)
    # The axis lies below or above of the mesh.
    side = 1 if rng.rand() < 0.5 else -1
    off = h.min() - (0.1 + rng.rand()) * size if side > 0 else h.max() + (0.1 + rng.rand()) * size
    p = np.r_[nrm * off + v[:2] * rng.randn(), 0.0]
    ln = 1.0 if rng.rand() < 0.6 else float(0.3 + 2 * rng.rand())
    out = mt.revolve(mesh, n, list(p), list(ln * v), phi_max=phi, wedge_to_tetra=wt)
    what = 'revolved %s, %s, n %d, angle %s' % (kind, 'tetrahedra' if wt else 'wedges', n, phi)
    tot = 2 * np.pi if closed else np.deg2rad(phi)
    ntri, nq = len(a.conns.get('2_3', [])), len(a.conns.get('2_4', []))
    nb = len(a.surface())
    nf = nb * n * (2 if wt and ntri else 1) + (0 if closed else 2 * (ntri + nq))
    g = valid(mon, out, what, sign='same', n_facets=nf)
    mon.equal('vertices', len(g.X), len(a.X) * (n if closed else n + 1), 'number of vertices, ' + what)
    # Pappus' theorem for chords.
    I = {}
    for d in a.conns:
        P, W = ref_fe.rule(d, 3)
        x, J = ref_fe.mapped(d, a.X, a.conns[d], P)
        r = np.abs(x @ nrm - off)
        q = np.einsum('cq,cq,q->c', r, np.abs(ref_fe.measure(J)), W)
        for m, gr in zip(q, a.groups[a.cells[d]]):
            I[int(gr)] = I.get(int(gr), 0.0) + m * n * abs(np.sin(tot / n))
    measures(mon, g, sum(I.values()), None, what, I)
    # The vertices.
    X0 = np.c_[a.X, np.zeros(len(a.X))] - p
    for k in range(0, n if closed else n + 1):
        Y = Rotation.from_rotvec(v * k * tot / n).apply(X0) + p
        D = np.linalg.norm(Y[:, None] - g.X[None], axis=2)
        mon.ok('layers', bool(D.min(1).max() <= 1e-9 * np.abs(g.X).max()), 'rotated vertices at the angle %g, %s' % (k * tot / n, what))
        j = D.argmin(1)
        mon.equal('groups', g.vgroups[j], a.vgroups, 'vertex groups, ' + what)
    mon.event('revolved')
    if closed:
        mon.event('closed revolution')
    mon.sig('revolve', kind, closed, wt, ln == 1.0, side)

def run_mirror(mon, case):
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6'], jitter=0.0, affine=False, size=3 if rng.rand() < 0.5 else 2)
    # A side of the box lies in the mirror plane.
    X = raw['coors']
    ax = rng.randint(X.shape[1])
    touch = bool(rng.rand() < 0.7)
    lim = X[:, ax].min() if rng.rand() < 0.5 else X[:, ax].max()
    on = np.abs(X[:, ax] - lim) < 1e-9
    Q = np.eye(3)
    d = X.shape[1]
    Q[:d, :d] = gen.rotation(rng, d)
    sh = np.zeros(3)
    sh[:d] = rng.randn(d)
    v = np.zeros(3)
    v[ax] = 1.0
    p = np.zeros(3)
    p[ax] = lim
    if not touch:
        p[ax] += -0.5 if lim == X[:, ax].min() else 0.5
        on[:] = False
    raw = dict(raw)
    raw['coors'] = X @ Q[:d, :d].T + sh[:d]
    mesh = gen.to_mesh(raw)
    p = Q @ p + sh
    v = Q @ v * float(rng.choice([1.0, -2.0, 0.3]))
    t = np.cross(v, rng.randn(3)) if d == 3 else np.r_[-v[1], v[0], 0.0]
    p = p + t * rng.randn()
    a = Geo(mesh)
    out = mt.mirror(mesh, list(p), list(v))
    what = 'mirrored %s' % kind
    fs = [f for f in a.surface() if on[list(f[0])].all()]
    g = valid(mon, out, what, n_facets=2 * (len(a.surface()) - len(fs)))
    mon.equal('vertices', len(g.X), 2 * len(a.X) - int(on.sum()), 'number of vertices, ' + what)
    measures(mon, g, 2 * a.measure, 2 * (a.boundary() - a.boundary(fs)), what, {k: 2 * m for k, m in a.by_group().items()})
    # The cells are the original ones and their images.
    A3 = np.c_[a.X, np.zeros((len(a.X), 3 - a.dim))]
    vn = v / np.linalg.norm(v)
    M3 = A3 - 2 * ((A3 - p) @ vn)[:, None] * vn
    G3 = np.c_[g.X, np.zeros((len(g.X), 3 - g.dim))]
    for dd in a.conns:
        n = len(a.conns[dd])
        c = g.conns[dd]
        mon.close('images', G3[c[:n]], A3[a.conns[dd]], 1e-9, 1e-9, msg='original cells, ' + what)
        x = np.sort(np.round(G3[c[n:]], 7), axis=1)
        y = np.sort(np.round(M3[a.conns[dd]], 7), axis=1)
        mon.close('images', G3[c[n:]].mean(1), M3[a.conns[dd]].mean(1), 1e-9, 1e-9, msg='images of cells, ' + what)
        mon.close('images', x, y, 0, 1e-6, msg='vertices of images of cells, ' + what)
        mon.equal('groups', g.groups[g.cells[dd]], np.tile(a.groups[a.cells[dd]], 2), 'groups, ' + what)
    if g.dim == a.dim + 1:
        # Planar cells keep their orientation.
        z = np.concatenate([np.cross(G3[c[:, 1]] - G3[c[:, 0]], G3[c[:, -1]] - G3[c[:, 0]])[:, 2] for c in g.conns.values()])
        mon.ok('inverted', bool((z > 0).all()), 'inverted planar cells, ' + what)
    mon.event('mirrored')
    mon.sig('mirror', kind, touch, d)

def run_tile(mon, case):
    from sfepy.mesh.mesh_generators import gen_tiled_mesh
    rng = gen.rngof(case)
    kind = str(rng.choice(['2_3', '2_4', '3_4', '3_8']))
    raw = gen.raw_mesh(rng, kind, size=3 if kind[0] == '2' else 2, jitter=0.0, holes=0.0, affine=False)
    X = raw['coors'] = np.array(raw['coors'], float)
    d = X.shape[1]
    lo, hi = X.min(0), X.max(0)
    inner = ((X > lo + 1e-9) & (X < hi - 1e-9)).all(axis=1)
    X[inner] += 0.05 * rng.randn(int(inner.sum()), d) * 0.2
    s = 10**rng.uniform(-1, 1, d)
    X *= s
    X += rng.randn(d)
    mesh = gen.to_mesh(raw)
    a = Geo(mesh)
    lo, hi = X.min(0), X.max(0)
    P = hi - lo
    if rng.rand() < 0.2:
        k = 1 + rng.randint(3)
        grid, scale = None, 1.0 / k
        rep = np.full(d, k)
    else:
        rep = 1 + rng.randint(3, size=d)
        grid = [int(i) for i in rep]
        scale = 1.0 if rng.rand() < 0.5 else float(0.2 + rng.rand())
    nd = bool(rng.rand() < 0.5)
    out = gen_tiled_mesh(mesh, grid, scale, ret_ndmap=nd)
    if nd:
        out, ndmap = out
    what = 'tiled %s %s' % (kind, list(rep))
    g = valid(mon, out, what)
    N = int(rep.prod())
    L = P * rep * scale
    measures(mon, g, a.measure * N * scale**d, sum(2 * L.prod() / x for x in L), what, {k: m * N * scale**d for k, m in a.by_group().items()})
    mon.close('box', np.r_[g.X.min(0), g.X.max(0)], np.r_[lo * scale, lo * scale + L], 1e-10, 1e-10, msg='bounding box, ' + what)
    mon.equal('groups', g.groups, np.tile(a.groups, N), 'cell groups, ' + what)
    # Every copy of a cell is a translated one.
    c = g.conns[kind].reshape(N, a.n, -1)
    for i in range(N):
        D = g.X[c[i]] / scale - a.X[a.conns[kind]]
        k = np.round(D[0, 0] / P)
        mon.close('copies', D, np.broadcast_to(k * P, D.shape), 1e-8, 1e-8 * P.max(), msg='the copy %d, %s' % (i, what))
    if nd:
        D = (g.X / scale - a.X[ndmap]) / P
        mon.close('node map', D, np.round(D), 0, 1e-7, msg='vertices of the cell of vertices, ' + what)
        mon.event('node map')
    mon.event('tiled')
    mon.sig('tile', kind, tuple(rep), grid is None, nd)

def run_submesh(mon, case):
    from sfepy.discrete.fem import FEDomain, Mesh
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '2_3d'])
    a = Geo(mesh)
    cells = a.all()

    def against(out, sel, what, verts=None, exact=None):
        """out consists of the selected cells."""
        g = valid(mon, out, what, dangling=exact is None, conform=False)
        mon.equal('extracted', g.n, len(sel), 'number of cells, ' + what)
        if g.n != len(sel):
            return
        new = g.all()
        mon.equal('extracted', [c[0] for c in new], [cells[i][0] for i in sel], 'types of cells, ' + what)
        for k, i in enumerate(sel):
            mon.close('extracted', g.X[list(new[k][1])], a.X[list(cells[i][1])], 0, 0, msg='coordinates of the cell %d, %s' % (i, what))
            mon.equal('groups', g.vgroups[list(new[k][1])], a.vgroups[list(cells[i][1])], 'vertex groups, ' + what)
        mon.equal('groups', g.groups, a.groups[sel], 'cell groups, ' + what)
        if exact is not None:
            mon.equal('extracted', len(g.X), exact, 'number of vertices, ' + what)
    only = bool(rng.rand() < 0.7)
    for fun, attr in ((mt.get_mesh_by_cgroup, a.groups), (mt.get_mesh_by_ngroup, a.vgroups)):
        vals = np.unique(attr)
        r = rng.randint(3)
        if r == 0:
            val = int(rng.choice(vals))
            m = attr == val
        elif r == 1:
            k = sorted(rng.choice(vals, 2))
            val = (int(k[0]), int(k[1]))
            m = (attr >= k[0]) & (attr <= k[1])
        else:
            val = [int(i) for i in rng.choice(vals, 1 + rng.randint(len(vals)), replace=False)]
            m = np.isin(attr, val)
        if attr is a.vgroups:
            sel = [i for i, (d, c) in enumerate(cells) if m[list(c)].all()]
            ex = int(m.sum())
        else:
            sel = np.nonzero(m)[0]
            ex = len(a.X)
        if not len(sel):
            continue
        out = fun(mesh, val, cell_vertices_only=only)
        against(out, sel, '%s with %s of %s' % (fun.__name__, val, kind), exact=None if only else ex)
        mon.event('cells by group' if attr is a.groups else 'cells by vertices')
    # Regions.
    dom = FEDomain('d', mesh)
    sel = np.sort(rng.choice(a.n, 1 + rng.randint(a.n), replace=False))
    from sfepy.discrete import Functions, Function
    reg = dom.create_region('R', 'cells by f', functions=Functions([Function('f', lambda coors, domain=None: sel)]))
    loc = bool(rng.rand() < 0.6)
    # The domain can reorient cells.
    a = Geo(mesh)
    cells = a.all()
    out = Mesh.from_region(reg, mesh, localize=loc)
    against(out, sel, 'mesh of a region of %s' % kind, exact=None if loc else len(a.X))
    mon.event('region')
    if a.tdim > 1 and a.tdim == a.dim:
        surf = dom.create_region('S', 'vertices of surface', 'facet')
        sm = Mesh.from_region(surf, mesh, localize=True, is_surface=True)
        g = valid(mon, sm, 'surface of %s' % kind, conform=False)
        fs = a.surface()
        mon.equal('surface', g.n, len(fs), 'number of surface facets')
        mon.close('surface', g.measure, a.boundary(), 1e-3, msg='measure of the surface mesh')
        mon.event('surface mesh')
    # Dangling vertices.
    io = list(mesh._get_io_data())
    k = 1 + rng.randint(3)
    pos = rng.permutation(len(a.X) + k)
    X = np.empty((len(pos), a.dim))
    X[pos[:len(a.X)]] = a.X
    X[pos[len(a.X):]] = 100 + rng.rand(k, a.dim)
    vg = np.zeros(len(pos), np.int32)
    vg[pos[:len(a.X)]] = a.vgroups
    m2 = Mesh.from_data('d', X, vg, [pos[c].astype(np.int32) for c in io[2]], io[3], io[4])
    against(mt.get_cell_vertices_only(m2), np.arange(a.n), 'mesh without dangling vertices')
    mon.sig('submesh', kind, only, loc)

def run_smooth(mon, case):
    from sfepy.discrete.fem import FEDomain
    from sfepy.mesh import mesh_tools as mt
    from rvm.ref_topo import EDGES
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['2_3', '2_4', '3_4', '3_8', '2_3d'], size=3)
    a = Geo(mesh)
    n = len(a.X)
    it = 1 + rng.randint(5)
    lam, mu = (0.6307, -0.6347) if rng.rand() < 0.5 else (float(rng.uniform(0.1, 0.7)), float(-rng.uniform(0.1, 0.7)))
    bc = bool(rng.rand() < 0.6)
    corr = bool(rng.rand() < 0.5)
    what = 'smoothing of %s, bconstr %s' % (kind, bc)
    desc = kind[:3]
    A = np.zeros((n, n), bool)
    for c in a.conns[desc]:
        for i, j in EDGES[desc]:
            A[c[i], c[j]] = A[c[j], c[i]] = True
    lev = np.zeros(n, int)
    if bc:
        lev[np.unique(np.concatenate([v for v, _ in a.surface()]))] = 1
    # Vertices follow the neighbours of at least their level.
    W = np.where(A & (lev[None, :] >= lev[:, None]), 1.0, 0.0)
    W /= W.sum(1, keepdims=True)
    y = a.X.copy()
    for i in range(it):
        y = y + (lam if i % 2 == 0 else mu) * (W @ y - y)
    out = mt.smooth_mesh(mesh, n_iter=it, lam=lam, mu=mu, bconstr=bc)
    mon.close('smoothed', out, y, 1e-10, 1e-11 * np.abs(y).max(), msg='coordinates, ' + what)
    mon.close('smoothed', mesh.coors, a.X, 0, 0, msg='the mesh itself is not changed')
    if rng.rand() < 0.5:
        import scipy.sparse as sp
        w = rng.rand(n, n) * A
        w /= w.sum(1, keepdims=True)
        y2 = a.X.copy()
        for i in range(it):
            y2 = y2 + (lam if i % 2 == 0 else mu) * (w @ y2 - y2)
        mon.close('smoothed', mt.smooth_mesh(mesh, n_iter=it, lam=lam, mu=mu, weights=sp.csr_array(w)), y2, 1e-10, 1e-11 * np.abs(y2).max(), msg='coordinates with given weights')
    mon.event('smoothed')
    if corr:
        m2 = mesh.copy()
        m2.coors[:] = y
        v = Geo(m2)
        if (v.vol <= 0).any() or v.measure < 0.05 * a.measure:
            return
        z = mt.smooth_mesh(mesh, n_iter=it, lam=lam, mu=mu, bconstr=bc, volume_corr=True)
        m2.coors[:] = z
        w = Geo(m2)
        if desc != '3_8':
            mon.close('volume', w.measure, a.measure, 1e-9, msg='volume after the correction, ' + what)
        else:
            mon.close('volume', w.measure, a.measure, 0.05, msg='volume after the correction, ' + what)
        # The correction is a scaling.
        s = (w.measure / v.measure)**(1.0 / a.dim)
        D = z - s * y
        mon.close('volume', D, np.broadcast_to(D.mean(0), D.shape), 1e-8, 1e-8 * np.abs(y).max(), msg='the correction is a scaling, ' + what)
        if abs(s - 1) > 1e-3 and desc != '3_8':
            # It keeps the barycentre of the original body.
            P, Wq = ref_fe.rule(desc, 3)
            x, J = ref_fe.mapped(desc, a.X, a.conns[desc], P)
            b = np.einsum('cqi,cq,q->i', x, ref_fe.measure(J), Wq) / a.measure
            mon.close('volume', D.mean(0) / (1 - s), b, 1e-6, 1e-6 * np.abs(y).max(), msg='fixed point of the scaling is the barycentre, ' + what)
        mon.event('volume correction')
    mon.sig('smooth', kind, bc, corr, it)

def run_block(mon, case):
    from sfepy.mesh.mesh_generators import gen_block_mesh, get_tensor_product_conn
    rng = gen.rngof(case)
    d = 1 + rng.randint(3)
    shape = 2 + rng.randint(4, size=d)
    dims = 10**rng.uniform(-3, 3, d)
    cen = rng.randn(d) * 10
    mat = int(rng.randint(5))
    if rng.rand() < 0.3:
        # Longer arguments are cut.
        m = gen_block_mesh(np.r_[dims, 1.0], shape, np.r_[cen, 1.0], mat_id=mat, verbose=False)
    else:
        m = gen_block_mesh(list(dims), list(shape), list(cen), mat_id=mat, verbose=False)
    what = 'block %s' % list(shape)
    g = valid(mon, m, what)
    mon.equal('number', [len(g.X), g.n], [int(shape.prod()), int((shape - 1).prod())], 'vertices and cells, ' + what)
    measures(mon, g, dims.prod(), sum(2 * dims.prod() / x for x in dims), what, {mat: dims.prod()})
    grids = [cen[i] + dims[i] * (np.arange(shape[i]) / (shape[i] - 1.0) - 0.5) for i in range(d)]
    ref = np.array(np.meshgrid(*grids, indexing='ij')).reshape(d, -1).T
    mon.close('vertices', g.X, ref, 1e-12, 1e-12 * (np.abs(cen).max() + dims.max()), msg='coordinates, ' + what)
    conn, desc = get_tensor_product_conn(shape)
    mon.equal('block', desc, {1: '1_2', 2: '2_4', 3: '3_8'}[d], 'cell kind')
    mon.equal('block', conn, g.conns[desc], 'connectivity')
    # Given coordinates.
    X = ref + 0.05 * rng.rand(*ref.shape) * dims / shape
    m = gen_block_mesh(dims, shape, cen, coors=X, verbose=False)
    mon.close('vertices', m.coors, X, 0, 0, msg='given coordinates')
    # Transformations.
    m.set_centre(cen * 2)
    mon.close('vertices', 0.5 * (m.coors.min(0) + m.coors.max(0)), 2 * cen, 1e-10, 1e-10 * (dims.max() + 1), msg='the new centre')
    T = rng.randn(d, d + rng.randint(2))
    Y = m.coors.copy()
    m.transform_coors(T)
    mon.close('vertices', m.coors, Y @ T[:, :d].T + (T[:, d] if T.shape[1] > d else 0), 1e-12, 1e-12 * np.abs(Y).max(), msg='transformed coordinates')
    mon.event('block')
    mon.sig('block', d, tuple(shape))

def run_cylinder(mon, case):
    from sfepy.mesh.mesh_generators import gen_cylinder_mesh
    rng = gen.rngof(case)
    nr, nfi, nl = 2 + rng.randint(3), 4 + rng.randint(8), 2 + rng.randint(3)
    hollow = bool(rng.rand() < 0.6)
    force = bool(rng.rand() < 0.2) and not hollow
    open_ = bool(rng.rand() < 0.4)
    oa = float(rng.uniform(0.05, 2.0)) if open_ else 0.0
    plan = int(rng.randint(4))
    a2, b2 = 0.5 + rng.rand(2)
    a1, b1 = (np.array([a2, b2]) * rng.uniform(0.2, 0.6) * rng.uniform(0.95, 1.05, 1 if open_ else 2)) if hollow else (0.0, 0.0)
    L = 0.0 if plan == 1 else float(0.3 + rng.rand())
    flat = plan in (1, 2)
    ax = str(rng.choice(['x', 'y', 'z']))
    cen = rng.randn(3)
    nu = bool(rng.rand() < 0.4)
    if force and (rng.rand() < 0.7 or True):
        # Hollow with zero radii is degenerate, use an elliptical slit.
        force = False
    m = gen_cylinder_mesh([a1, b1, a2, b2, L], [nr, nfi, nl], cen, axis=ax, force_hollow=force, is_open=open_, open_angle=oa, non_uniform=nu, make_2d=plan == 2, verbose=False)
    what = 'cylinder hollow %s open %s %s %s' % (hollow, open_, ax, '2D' if plan == 2 else 'flat' if plan == 1 else '3D')
    df = 2 * (np.pi - oa) / nfi
    if df >= np.pi - 1e-9:
        return
    g = valid(mon, m, what, degenerate=not hollow)
    nn = nfi + 1 if open_ else nfi
    n2 = nr * nn if hollow else (nr - 1) * nn + 1
    mon.equal('number', [len(g.X), g.n], [n2 * (1 if flat else nl), (nr - 1) * nfi * (1 if flat else nl - 1)], 'vertices and cells, ' + what)
    area = 0.5 * nfi * np.sin(df) * (a2 * b2 - a1 * b1)
    mon.close('measure', g.measure, area if flat else area * L, 1e-9, msg='measure, ' + what)
    # Vertices on ellipses.
    if plan == 2:
        x, y, z = np.zeros(len(g.X)), g.X[:, 0] - cen[1], g.X[:, 1] - cen[2]
    else:
        # The centre rotates with the axes.
        x, y, z = {'x': g.X, 'z': g.X[:, [2, 0, 1]], 'y': g.X[:, [1, 2, 0]]}[ax].T
        x, y, z = x - cen[0], y - cen[1], z - cen[2]
        mon.close('box', [x.min(), x.max()], [-0.5 * L, 0.5 * L], 1e-9, 1e-9, msg='length, ' + what)
    r = np.sqrt((y / a2)**2 + (z / b2)**2)
    mon.ok('ellipse', bool(r.max() <= 1 + 1e-9 and abs(r.max() - 1) < 1e-9), 'the outer surface, ' + what)
    mon.equal('ellipse', int((r > 1 - 1e-9).sum()), nn * (1 if flat else nl), 'number of vertices of the outer surface')
    if hollow:
        ri = np.sqrt((y / a1)**2 + (z / b1)**2)
        mon.equal('ellipse', int((np.abs(ri - 1) < 1e-9).sum()), nn * (1 if flat else nl), 'number of vertices of the inner surface')
        if not nu or abs(a1 / a2 - b1 / b2) < 1e-9:
            mon.ok('ellipse', bool(ri.min() > 1 - 1e-9), 'the inner surface, ' + what)
    if open_:
        fi = np.mod(np.arctan2(z / b2, y / a2), 2 * np.pi)
        fi = fi[r > 1 - 1e-9]
        mon.ok('ellipse', bool(fi.min() > oa - 1e-9 and fi.max() < 2 * np.pi - oa + 1e-9), 'the opening, ' + what)
    if nu and a1 * b2 == a2 * b1:
        # Equal volumes of cells.
        mon.close('uniform', g.vol, np.full(g.n, g.vol.mean()), 1e-8, msg='equal volumes of cells, ' + what)
    mon.event('cylinder')
    mon.sig('cylinder', hollow, open_, plan, ax, nu)

def run_extended(mon, case):
    from sfepy.discrete.fem import FEDomain
    from sfepy.mesh.mesh_generators import gen_extended_block_mesh
    rng = gen.rngof(case)
    bs = 2 + rng.randint(3, size=3)
    bd = 0.5 + rng.rand(3)
    ed = bd + 2 * (bd / (bs - 1)).min() * (1.5 + 3 * rng.rand(3))
    es = 2 + rng.randint(4)
    cen = rng.randn(3)
    fun = None if rng.rand() < 0.6 else (lambda x: x**2)
    m = gen_extended_block_mesh(list(bd), list(bs), list(ed), int(es), list(cen), grading_fun=fun, name='e')
    what = 'extended block %s %d' % (list(bs), es)
    g = valid(mon, m, what, sign='any')
    measures(mon, g, ed.prod(), sum(2 * ed.prod() / x for x in ed), what)
    bg = g.by_group()
    mon.equal('groups', sorted(bg), [0, 10, 11, 20, 21, 30, 31], 'material ids')
    mon.close('groups', bg[0], bd.prod(), 1e-9, msg='the central block')
    for i in (10, 20, 30):
        mon.close('groups', bg[i], bg[i + 1], 1e-9, msg='opposite extensions %d' % i)
    mon.close('box', np.r_[g.X.min(0), g.X.max(0)], np.r_[cen - ed / 2, cen + ed / 2], 1e-9, 1e-9, msg='bounding box')
    dom = FEDomain('d', m)
    valid(mon, dom.mesh, what + ' in a domain')
    mon.event('extended')
    mon.sig('extended', tuple(bs), int(es), fun is None)

def run_voxels(mon, case):
    from sfepy.mesh.mesh_generators import gen_mesh_from_voxels
    rng = gen.rngof(case)
    d = 2 + rng.randint(2)
    shape = [int(i) for i in 1 + rng.randint(5 if d == 2 else 4, size=d)]
    vox = (rng.rand(*shape) < rng.choice([0.3, 0.7, 1.0])).astype(int)
    if not vox.any():
        vox.flat[rng.randint(vox.size)] = 1
    dims = 0.2 + rng.rand(d)
    et = str(rng.choice(['q', 't']))
    m = gen_mesh_from_voxels(vox, dims, etype=et)
    what = 'voxels %s %s' % (shape, et)
    g = valid(mon, m, what)
    nv = int(vox.sum())
    mon.equal('number', g.n, nv * (1 if et == 'q' else 2 if d == 2 else 6), 'number of cells, ' + what)
    # Rows are along the y axis.
    order = [1, 0] + ([2] if d == 3 else [])
    V = np.transpose(vox, order)
    pts = np.argwhere(V)
    cen = (pts + 0.5) * dims
    k = g.n // nv
    got = np.concatenate([g.X[c].mean(1) for c in g.conns.values()]).reshape(nv, k, d).mean(1)
    D = np.linalg.norm(got[:, None] - cen[None], axis=2) if et == 'q' or d == 2 else None
    if D is not None:
        mon.ok('voxels', bool(D.min(0).max() < 1e-9 and D.min(1).max() < 1e-9), 'centres of voxels, ' + what)
    # The boundary of the voxels.
    b = 0.0
    pad = np.pad(V, 1)
    for i in range(d):
        b += np.abs(np.diff(pad, axis=i)).sum() * dims.prod() / dims[i]
    measures(mon, g, nv * dims.prod(), b if max(n for n, _, _ in g.facets().values()) <= 2 else None, what)
    corners = set()
    for q in pts:
        for e in np.ndindex(*[2] * d):
            corners.add(tuple(int(i) for i in q + e))
    mon.equal('vertices', len(g.X), len(corners), 'number of vertices, ' + what)
    mon.equal('vertices', sorted(tuple(int(i) for i in r) for r in np.round(g.X / dims)), sorted(corners), 'corners of voxels, ' + what)
    mon.event('voxels')
    mon.sig('voxels', tuple(shape), et)

def run_outline(mon, case):
    from scipy.sparse.csgraph import connected_components
    import scipy.sparse as sp
    from sfepy.discrete.fem import FEDomain
    from sfepy.mesh import mesh_tools as mt
    rng = gen.rngof(case)
    kind, raw, mesh = mesh_of(rng, ['3_4', '3_8', '3_6'], holes=0.3 if rng.rand() < 0.5 else 0.0, size=3)
    dom = FEDomain('d', mesh)
    a = Geo(dom.mesh)
    lst, sf = mt.get_surface_faces(dom)
    fs = a.surface()
    ref = {frozenset(v): i for v, i in fs}
    got = [frozenset(int(k) for k in r) for c in sf for r in c]
    mon.equal('faces', len(got), len(ref), 'number of surface faces of %s' % kind)
    mon.ok('faces', set(got) == set(ref), 'vertices of surface faces of %s' % kind)
    cells = a.all()
    seen = set()
    for c, f in np.asarray(lst):
        d, v = cells[int(c)]
        # Wedges and others: local faces of the reference cells.
        ff = frozenset(v[k] for k in ref_fe.facets(d)[int(f)])
        seen.add(ff)
    mon.ok('faces', seen == set(ref), '[cell, face] pairs of %s' % kind)
    gr = mt.surface_graph(sf, mesh.n_nod)
    n, comps = mt.surface_components(gr, sf)
    rows, cols = [], []
    for v, _ in fs:
        for x in v:
            rows.append(v[0])
            cols.append(x)
    nv = len(a.X)
    nr, lab = connected_components(sp.coo_array((np.ones(len(rows)), (rows, cols)), shape=(nv, nv)), directed=False)
    on = np.unique(rows + cols)
    mon.equal('components', n, len(np.unique(lab[on])) + nv - len(on), 'number of components with isolated vertices')
    for c, q in zip(sf, comps):
        for r, l in zip(c, q):
            pass
    m = {}
    for c, q in zip(sf, comps):
        for r, l in zip(c, q):
            m.setdefault(int(l), set()).add(int(lab[r[0]]))
    mon.ok('components', all(len(x) == 1 for x in m.values()) and len(m) == len(np.unique(lab[on])), 'components of faces')
    mon.event('surface faces')
    # The outline of boxes.
    from sfepy.mesh.mesh_generators import gen_block_mesh
    from sfepy.discrete.fem import Mesh
    d = 2 + rng.randint(2)
    dims = 0.5 + rng.rand(d)
    shape = 2 + rng.randint(3, size=d)
    bm = gen_block_mesh(dims, shape, rng.randn(d), verbose=False)
    out = mt.extract_edges(bm, eps=1e-12)
    X, ng, conns, mats, descs = out
    L = np.linalg.norm(X[conns[0][:, 0]] - X[conns[0][:, 1]], axis=1)
    mon.close('outline', L.sum(), dims.sum() * (2 if d == 2 else 4), 1e-9, msg='the length of the outline')
    mon.equal('outline', len(L), int((shape - 1).sum()) * (2 if d == 2 else 4), 'number of edges of the outline')
    X2, ng2, conns2, mats2, _ = mt.merge_lines((X.copy(), ng.copy(), [conns[0].copy()], mats, descs), eps=1e-8)
    L2 = np.linalg.norm(X2[conns2[0][:, 0]] - X2[conns2[0][:, 1]], axis=1)
    mon.close('outline', np.sort(L2), np.sort(np.repeat(dims, 2 if d == 2 else 4)), 1e-9, msg='lengths of merged lines')
    mon.equal('outline', [len(X2), len(mats2[0])], [2**d, len(L2)], 'number of corners and lines')
    mon.event('outline')
    mon.sig('outline', kind, int(n), d)

def convert(argv):
    import sys
    from sfepy.scripts import convert_mesh
    old = sys.argv
    sys.argv = ['convert-mesh'] + argv
    try:
        convert_mesh.main()
    finally:
        sys.argv = old

def run_script(mon, case):
    import os
    import shutil
    import tempfile
    from sfepy.base.base import Struct
    from sfepy.discrete.fem import Mesh
    rng = gen.rngof(case)
    tmp = tempfile.mkdtemp()
    try:
        op = OPS[case.get('op', 0)]
        kinds = {'tri': ['2_4', '3_8'], 'extrude': ['2_3', '2_4'], 'revolve': ['2_3', '2_4'], '3d': ['2_3', '2_4'], 'surface': ['3_4', '3_8'], 'print': ['3_4', '3_8'], 'edges': ['3_8'],
                 'tile': ['2_4', '3_8', '3_4']}
        kind, raw, mesh = mesh_of(rng, kinds.get(op, ['2_3', '2_4', '3_4', '3_8']), jitter=0.0 if op in ('tile', 'edges', 'mirror', 'tri') else 0.2, affine=op not in ('tile', 'edges', 'mirror', 'tri'),
                                  localperm=op != 'tri', holes=0.0, size=3 if op in ('surface', 'print') else 2)
        fin, fout = os.path.join(tmp, 'in.vtk'), os.path.join(tmp, 'out.vtk')
        desc = kind[:3]
        if op == 'merge':
            mesh = explode(rng, raw, desc, 'all' if rng.rand() < 0.5 else None)
        if op == 'vertices':
            io = list(mesh._get_io_data())
            mesh = Mesh.from_data('m', np.r_[io[0], io[0][:2] + 50], np.r_[io[1], io[1][:2]], *io[2:])
        mesh.write(fin, io='auto')
        mesh = Mesh.from_file(fin)
        a = Geo(mesh)
        d = a.dim
        what = 'convert-mesh %s of %s' % (op, kind)
        mon.event('script')
        mon.sig('script', op, kind)
        if op == 'combine':
            from sfepy.scripts import combine_meshes as cm
            P = np.ptp(a.X, axis=0)
            sh = P * (1.5 + rng.rand())
            n = 2 + rng.randint(2)
            cs = [np.arange(d) * 0.5 + i * sh for i in range(n)]
            infos = ["'%s'=[%s]" % (fin, ','.join('%.17g' % x for x in c)) for c in cs]
            try:
                cm.combine_meshes(Struct(meshes=[s.replace("'", '') for s in infos], output_filename=fout, format=None))
            except Exception:
                raise
            g = valid(mon, Mesh.from_file(fout), what)
            measures(mon, g, n * a.measure, n * a.boundary(), what, {k: n * v for k, v in a.by_group().items()})
            mon.equal('combined', [len(g.X), g.n], [n * len(a.X), n * a.n], 'vertices and cells')
            mon.event('combined')
            return
        num = lambda v: '%.17g' % v
        vec = lambda v: ','.join(num(x) for x in np.atleast_1d(v))

        def go(*args):
            convert(list(args) + [fin, fout])
            return Mesh.from_file(fout)
        if op == 'scale':
            s = 0.3 + rng.rand(1 if rng.rand() < 0.5 else d)
            g = valid(mon, go('--scale=' + vec(s)), what)
            mon.close('script', g.X, a.X * s, 1e-12, 1e-12, msg=what)
            measures(mon, g, a.measure * np.prod(np.broadcast_to(s, d)), None, what)
        elif op == 'center':
            c = rng.randn(d)
            g = valid(mon, go('--center=' + vec(c)), what)
            mon.close('script', g.X - a.X, np.broadcast_to(c - 0.5 * (a.X.min(0) + a.X.max(0)), a.X.shape), 1e-9, 1e-9, msg=what)
        elif op == 'rot':
            if d == 2:
                return
            axn = str(rng.choice(['x', 'y', 'z']))
            ang = float(rng.uniform(-180, 180))
            g = valid(mon, go('--rot-axis=' + axn, '--rot-angle=' + num(ang)), what)
            from scipy.spatial.transform import Rotation
            R = Rotation.from_euler(axn, ang, degrees=True).as_matrix()
            e1 = np.abs(g.X - a.X @ R.T).max()
            e2 = np.abs(g.X - a.X @ R).max()
            # Rotations of coordinates or of points.
            mon.ok('script', bool(min(e1, e2) < 1e-9), 'rotated coordinates, errors %g, %g' % (e1, e2))
            measures(mon, g, a.measure, a.boundary(), what)
        elif op == 'refine':
            k = 1 + rng.randint(2 if d == 2 else 1)
            g = valid(mon, go('-r', str(k)), what)
            mon.equal('number', g.n, a.n * 2**(d * k), what)
            measures(mon, g, a.measure, None, what, a.by_group())
        elif op == 'tri':
            g = valid(mon, go('-t'), what)
            measures(mon, g, a.measure, a.boundary(), what, a.by_group())
            mon.equal('number', list(g.conns), ['%d_%d' % (d, d + 1)], what)
        elif op == 'merge':
            g = valid(mon, go('-m'), what)
            r = Geo(gen.to_mesh(raw))
            measures(mon, g, r.measure, r.boundary(), what, r.by_group())
            mon.equal('merged', len(g.X), len(r.X), what)
        elif op == 'vertices':
            g = valid(mon, go('--cell-vertices-only'), what)
            mon.equal('number', len(g.X), len(a.X) - 2, what)
            measures(mon, g, a.measure, None, what, a.by_group())
        elif op == 'per mat':
            go('--save-per-mat')
            for k, v in a.by_group().items():
                g = valid(mon, Mesh.from_file(os.path.join(tmp, 'out_matid_%d.vtk' % k)), what, dangling=False, conform=False)
                measures(mon, g, v, None, what, {k: v})
        elif op == 'tile':
            rep = 1 + rng.randint(3, size=d)
            g = valid(mon, go('--tile=' + ','.join(str(int(i)) for i in rep), '--eps=1e-8'), what)
            L = np.ptp(a.X, axis=0) * rep
            measures(mon, g, a.measure * rep.prod(), sum(2 * L.prod() / x for x in L), what, {k: v * rep.prod() for k, v in a.by_group().items()})
        elif op == 'matid':
            v = int(rng.choice(a.groups))
            r = rng.randint(3)
            arg, m = [(str(v), a.groups == v), ('(%d,%d)' % (0, v), a.groups <= v), ('[%d,%d]' % (v, 3), np.isin(a.groups, [v, 3]))][r]
            g = valid(mon, go('-i', arg), what, conform=False)
            measures(mon, g, float(a.vol[m].sum()), None, what)
            mon.equal('number', g.n, int(m.sum()), what)
        elif op == 'nodegroup':
            m = a.vgroups <= 2
            sel = [i for i, (_, c) in enumerate(a.all()) if m[list(c)].all()]
            if not sel:
                return
            g = valid(mon, go('-n', '(0,2)'), what, conform=False)
            measures(mon, g, float(a.vol[sel].sum()), None, what)
        elif op == 'extrude':
            h, k = 0.1 + rng.rand(), 1 + rng.randint(3)
            g = valid(mon, go('--extrude=c%s,%d' % (num(h), k)), what)
            measures(mon, g, a.measure * h * k, 2 * a.measure + a.boundary() * h * k, what, {i: v * h * k for i, v in a.by_group().items()})
        elif op == 'revolve':
            n = 3 + rng.randint(6)
            y0 = a.X[:, 1].min() - 0.5
            g = valid(mon, go('--revolve=p[0,%s,0] v[1,0,0] n%d' % (num(y0), n)), what, sign='same')
            P, W = ref_fe.rule(kind, 3)
            x, J = ref_fe.mapped(kind, a.X, a.conns[kind], P)
            I = np.einsum('cq,cq,q->', x[..., 1] - y0, ref_fe.measure(J), W)
            measures(mon, g, I * n * np.sin(2 * np.pi / n), None, what)
        elif op == 'mirror':
            x0 = a.X[:, 0].max()
            g = valid(mon, go('--mirror=p[%s,0,0] v[1,0,0]' % num(x0)), what)
            measures(mon, g, 2 * a.measure, None, what, {k: 2 * v for k, v in a.by_group().items()})
        elif op == 'remap':
            m = go('--remap-vertex-groups', '--remap-cell-groups')
            g = valid(mon, m, what)
            mon.equal('groups', g.groups, np.unique(a.groups, return_inverse=True)[1], 'cell groups')
            mon.equal('groups', g.vgroups, np.unique(a.vgroups, return_inverse=True)[1], 'vertex groups')
        elif op == 'surface':
            m = go('--extract-surface')
            g = valid(mon, m, what, conform=False)
            mon.close('measure', g.measure, a.boundary(), 1e-3, msg=what)
        elif op == 'print':
            fo = os.path.join(tmp, 'surf.txt')
            go('--print-surface=' + fo)
            rows = np.loadtxt(fo, dtype=int, ndmin=2)
            cells = a.all()
            got = set(frozenset(cells[c][1][k] for k in ref_fe.facets(cells[c][0])[f]) for c, f, _ in rows)
            mon.ok('faces', got == set(frozenset(v) for v, _ in a.surface()), 'printed faces')
        elif op == 'edges':
            m = go('--extract-edges')
            P = np.ptp(a.X, axis=0)
            L = Geo(m).measure
            mon.close('outline', L, 4 * P.sum(), 1e-8, msg='the length of the outline')
        elif op == '3d':
            fin3 = os.path.join(tmp, 'in.mesh')
            convert(['-3', fin, fin3])
            mon.equal('script', Mesh.from_file(fin3).coors.shape, (len(a.X), 3), 'dimension')
            fin = fin3
            m = go('-2')
            mon.close('script', m.coors[:, :2], a.X, 1e-12, 1e-12, msg='coordinates after -3 and -2')
            mon.equal('script', m.dim, 2, 'dimension after -2')
        elif op == 'celldim':
            m = go('-d', str(d))
            g = valid(mon, m, what)
            measures(mon, g, a.measure, a.boundary(), what, a.by_group())
    finally:
        shutil.rmtree(tmp)
