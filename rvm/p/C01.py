"""
C01: mesh topology and entity geometry.

Monitor: the incidence relations, orientations and geometry answered by the
CMesh are compared, after every operation of a random sequence of
create/free/query operations, with relations computed from the cells by
enumerating vertex sets (rvm/ref_topo.py).
"""
import numpy as np
from .. import gen
from ..ref_topo import Topo, EDGES, FACES, volume_of, tri_area

REQUIRED = ['incidence', 'entities', 'cell_subs', 'orientation', 'surface',
            'incident_query', 'complete_query', 'local_ids', 'volume',
            'centroid', 'normal', 'copy', 'submesh', 'orient_fix', 'graph',
            'conn_graph']
ASSUMPTIONS = ['valid conforming meshes (no cell uses a vertex twice); 1D'
               ' facet normals only for cells ordered left to right']

KINDS = ['1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6', '2_3d', '3_4d']

def cases(rng, tier):
    n = 26 if tier == 'quick' else 220
    out = []
    for i in range(n):
        for kind in KINDS:
            size = int(rng.choice([2, 2, 3, 4] if kind[0] == '2' else [2, 2, 3]))
            if kind == '1_2':
                size = int(rng.randint(2, 9))
            dim = None
            if kind in ('1_2', '2_3', '2_4', 'mixed2') and rng.rand() < 0.3:
                dim = 3 if kind[0] in '2m' else int(rng.choice([2, 3]))
            out.append(dict(kind='topology', mesh=kind, size=size, dim=dim,
                            holes=float(rng.choice([0, 0.0, 0.3, 0.6])),
                            isolated=bool(rng.rand() < 0.15),
                            jitter=float(rng.choice([0.0, 0.4])),
                            cost=3 if kind[0] == '3' else 1))
    for i in range(6 if tier == 'quick' else 60):
        for kind in ['2_3', '2_4', '3_4', '3_8', '3_6', '2_3d', '3_4d', '1_2']:
            out.append(dict(kind='orient', mesh=kind, size=2 + i % 2))
    for i in range(6 if tier == 'quick' else 50):
        out.append(dict(kind='mixed_dim', mesh=['3_4', '3_8', '2_3', '2_4'][i % 4]))
    if tier != 'quick':
        for kind in ['2_3', '2_4', '3_4', '3_8', '3_6']:
            out.append(dict(kind='topology', mesh=kind, dim=None, holes=0.1,
                            isolated=False, jitter=0.3, cost=30,
                            size=30 if kind[0] == '2' else 6))
    return out

def rows(conn):
    ind, off = np.asarray(conn.indices), np.asarray(conn.offsets)
    return [ind[off[i]:off[i + 1]].tolist() for i in range(len(off) - 1)]

def conn_rows(cm, d1, d2):
    """Incidence rows, creating the connectivity."""
    cm.setup_connectivity(d1, d2)
    return rows(cm.get_conn(d1, d2))

class Checked:
    """Binds a CMesh to the reference topology."""

    def __init__(self, mon, cm, topo, raw):
        self.mon, self.cm, self.t = mon, cm, topo
        self.raw = raw
        self.D = topo.D
        self.wedge = any(c[0] == '3_6' for c in topo.cells)
        self.key = {}       # (d) -> list of reference keys by sfepy index

    def number(self):
        """Match sfepy numbering of edges/faces with the reference."""
        t, cm, mon = self.t, self.cm, self.mon
        self.key = {0: t.keys(0), self.D: t.keys(self.D)}
        for d in range(1, self.D):
            rr = conn_rows(cm, d, 0)
            sets = [frozenset(r) for r in rr]
            mon.ok('entities', len(sets) == len(set(sets)) and set(sets) == set(t.ents[d]),
                   '%d-dim. entities are not the distinct sub-entities: %d given, %d distinct,'
                   ' %d expected' % (d, len(sets), len(set(sets)), len(t.ents[d])))
            mon.ok('entities', int(cm.num[d]) == len(t.ents[d]), 'num[%d]' % d)
            self.key[d] = [('e%d' % d, s) for s in sets]
            if d == 2:
                # Vertices of a face are listed along its boundary.
                for r, s in zip(rr, sets):
                    cyc = t.face_cycle.get(s)
                    if cyc is None or len(set(r)) != len(cyc):
                        continue
                    u = [r[i] for i in range(len(r)) if r[i] != r[i - 1]]
                    if len(u) < 4:
                        continue
                    nb = {frozenset((cyc[i], cyc[i - 1])) for i in range(len(cyc))}
                    mon.ok('entities', all(frozenset((u[i], u[i - 1])) in nb
                                           for i in range(len(u))),
                           'face vertices %s not along the boundary %s' % (u, cyc))
        mon.ok('entities', int(cm.num[0]) == t.nv and int(cm.num[self.D]) == len(t.cells),
               'numbers of vertices/cells %s' % list(cm.num))

    def check_rel(self, d1, d2, how=''):
        cm, t = self.cm, self.t
        conn = cm.get_conn(d1, d2)
        if conn is None:
            cm.setup_connectivity(d1, d2)
            conn = cm.get_conn(d1, d2)
        rr = rows(conn)
        ref = t.incidence(d1, d2)
        K1, K2 = self.key[d1], self.key[d2]
        ok = len(rr) == len(K1)
        bad = None
        if ok:
            for i, r in enumerate(rr):
                got = [K2[j] if j < len(K2) else ('bad', j) for j in r]
                if (d1, d2) in ((0, 2), (2, 0)) and self.wedge:
                    good = set(got) == ref[K1[i]]       # a vertex is repeated
                else:
                    good = len(got) == len(set(got)) and set(got) == ref[K1[i]]
                if not good:
                    ok, bad = False, (i, sorted(map(str, got)), sorted(map(str, ref[K1[i]])))
                    break
        self.mon.ok('incidence', ok, '%d -> %d %s: %s rows, %s' % (d1, d2, how, len(rr), bad),
                    n=max(len(rr), 1))
        return rr

    def check_cell_subs(self, gels):
        """cell -> edges/faces in local order, orientations."""
        cm, t, mon = self.cm, self.t, self.mon
        conn = rows(cm.get_conn(self.D, 0))
        for d in range(1, self.D):
            cc = conn_rows(cm, self.D, d)
            oris = np.asarray(cm.get_orientations(d))
            kd = self.key[d]
            k = 0
            bad = obad = None
            for i, (desc, _) in enumerate(t.cells):
                loc = gels[desc].edges if d == 1 else gels[desc].faces
                if len(cc[i]) != len(loc):
                    bad = (i, cc[i])
                    break
                for j, l in enumerate(loc):
                    gv = [conn[i][m] for m in l]
                    if kd[cc[i][j]][1] != frozenset(gv):
                        bad = (i, j, gv, kd[cc[i][j]])
                    g = [gv[m] for m in range(len(gv)) if m == 0 or gv[m] != gv[m - 1]]
                    if len(g) == len(gv):
                        pairs = {2: [(0, 1)], 3: [(0, 1), (0, 2), (1, 2)],
                                 4: [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)]}[len(g)]
                        want = sum((g[a] < g[b]) << m for m, (a, b) in enumerate(pairs))
                        if want != oris[k]:
                            obad = (i, j, gv, int(oris[k]), want)
                    k += 1
            mon.ok('cell_subs', bad is None, 'local order of %d-dim. entities: %s' % (d, bad),
                   n=len(t.cells))
            mon.ok('orientation', obad is None and k == len(oris),
                   'orientations of %d-dim. entities: %s' % (d, obad), n=max(k, 1))

    def check_geometry(self):
        cm, t, mon, raw = self.cm, self.t, self.mon, self.raw
        X = raw['coors']
        mon.close('coors', cm.coors, X, rtol=0, atol=0, msg='coordinates')
        L = np.ptp(X, axis=0).max()
        for d in range(1, self.D + 1):
            conn_rows(cm, d, 0)
            cen = cm.get_centroids(d)
            if d == self.D:
                ref = np.array([X[list(c)].mean(0) for _, c in t.cells])
            else:
                ref = np.array([X[list(k[1])].mean(0) for k in self.key[d]])
            mon.close('centroid', cen, ref.reshape(cen.shape), rtol=1e-12, scale=np.abs(X).max(),
                      msg='centroids of dimension %d' % d)
            vol = cm.get_volumes(d)
            if d == self.D and d != 2 or d == 2 and self.D == 2 and X.shape[1] == 2:
                ref = np.array([volume_of(k, X[list(c)]) for k, c in t.cells])
            elif d == 1:
                ref = np.array([np.linalg.norm(np.subtract(*X[list(k[1])]))
                                for k in self.key[1]])
            else:
                # Faces in 3D: bilinear ones are documented as approximate
                # (the mean of the two triangulations).
                ref = np.empty(len(vol))
                cyc = ([c for _, c in t.cells] if self.D == 2 else
                       [t.face_cycle[k[1]] for k in self.key[2]])
                for i, c in enumerate(cyc):
                    Y = X[list(c)]
                    if len(c) == 3:
                        ref[i] = tri_area(Y)
                    else:
                        ref[i] = 0.5 * sum(tri_area(Y[[a, (a + 1) % 4, (a + 2) % 4]])
                                           for a in range(4))
            mon.close('volume', vol, ref, rtol=1e-11, scale=L**d,
                      msg='volumes of dimension %d' % d)
        mon.raises('volume', Exception, cm.get_volumes, 0, msg='vertex volumes')
        # Outward normals.
        if X.shape[1] == self.D and self.D >= 2:
            c2f = conn_rows(cm, self.D, self.D - 1)
            off = np.asarray(cm.get_conn(self.D, self.D - 1).offsets)
            corner = {}
            for which in (-1, 0, 1):
                nrm = cm.get_facet_normals(which=which)
                bad = None
                for i, (desc, c) in enumerate(t.cells):
                    cc = X[list(c)].mean(0)
                    for j, f in enumerate(c2f[i]):
                        key = self.key[self.D - 1][f][1]
                        n = nrm[off[i] + j]
                        if self.D == 2:
                            a, b = X[list(key)]
                            e = (b - a) / np.linalg.norm(b - a)
                            r = np.array([e[1], -e[0]])
                            tol = 1e-9
                        else:
                            cyc = [m for m in FACES[desc]]
                            cyc = [[c[m] for m in q] for q in cyc]
                            cyc = [q for q in cyc if frozenset(q) == key][0]
                            Y = X[cyc]
                            # Candidate corner normals.
                            nn = len(Y)
                            cand = [np.cross(Y[(a + 1) % nn] - Y[a], Y[a - 1] - Y[a])
                                    for a in range(nn)]
                            if nn == 3:
                                cand = cand[:1]
                            elif which == -1:
                                cand = [cand[0] + cand[2], cand[1] + cand[3]]
                            cand = [q / np.linalg.norm(q) for q in cand]
                            dist = [np.abs(q - n).max() for q in cand]
                            r = cand[int(np.nanargmin(dist))] if np.isfinite(dist).any() else cand[0]
                            tol = 1e-9
                            if nn == 4 and len(dist) > 1 and np.isfinite(dist).all() \
                                    and np.partition(dist, 1)[1] > 1e-7:
                                corner.setdefault((i, j), {})[which] = int(np.argmin(dist))
                        if self.D == 2 and (X[list(key)].mean(0) - cc) @ r < 0:
                            r = -r
                        if not np.abs(n - r).max() < tol:
                            bad = (i, j, n.tolist(), r.tolist())
                mon.ok('normal', bad is None, 'outward normals (which=%d): %s' % (which, bad),
                       n=len(nrm))

            # The two normals of a warped face, which are averaged, are those of opposite corners.
            bad = [(k, v) for k, v in corner.items() if 0 in v and 1 in v
                   and v[1] != (v[0] + 2) % 4]
            mon.ok('normal', not bad, 'corners of the normals of warped faces: %s' % bad[:2],
                   n=len(corner))

    def check_queries(self, rng):
        cm, t, mon = self.cm, self.t, self.mon
        D = self.D
        for _ in range(4):
            dent = rng.randint(0, D + 1)
            dim = rng.randint(0, D + 1)
            n = len(self.key[dent])
            m = rng.randint(0, n + 1)
            ents = rng.permutation(n)[:m].astype(np.uint32)
            if rng.rand() < 0.5:
                ents.sort()
            if dim != dent:
                conn_rows(cm, dim, dent)
            conn_rows(cm, dent, dim)
            inc, off = cm.get_incident(dim, ents, dent, ret_offsets=True)
            inc1 = cm.get_incident(dim, ents, dent)
            mon.equal('incident_query', inc, inc1, 'with/without offsets')
            ref = t.incidence(dent, dim)
            ok = m == 0 and len(inc) == 0 or (len(off) == m + 1 and off[0] == 0
                                              and off[-1] == len(inc))
            bad = None
            if m and ok:
                for i, e in enumerate(ents):
                    got = [self.key[dim][j] for j in inc[off[i]:off[i + 1]]]
                    if set(got) != ref[self.key[dent][e]]:
                        bad = (int(e), got)
                        break
            mon.ok('incident_query', ok and bad is None, 'incident dim %d of dent %d: %s'
                   % (dim, dent, bad), n=max(m, 1))
            if dim > dent and m and ok and bad is None:
                # Local ids of the entities within the incident ones.
                loc = cm.get_local_ids(ents, dent, inc, off, dim)
                rr = rows(cm.get_conn(dim, dent))
                bad = None
                for i, e in enumerate(ents):
                    for k in range(off[i], off[i + 1]):
                        l = loc[k]
                        if not (l < len(rr[inc[k]]) and rr[inc[k]][l] == e):
                            bad = (int(e), int(inc[k]), int(l))
                mon.ok('local_ids', len(loc) == len(inc) and bad is None, 'local ids: %s' % (bad,),
                       n=len(loc))
            if dim > dent:
                got = cm.get_complete(dim, ents, dent)
                sel = {self.key[dent][e] for e in ents}
                inv = t.incidence(dim, dent)
                want = {k for k in self.key[dim] if inv[k] and inv[k] <= sel} if m else set()
                gk = [self.key[dim][j] for j in got]
                mon.ok('complete_query', len(gk) == len(set(gk)) and set(gk) == want
                       and list(got) == sorted(got),
                       'complete dim %d of dent %d: %d != %d' % (dim, dent, len(gk), len(want)))

    def check_surface(self):
        cm, t = self.cm, self.t
        D = self.D
        got = cm.get_surface_facets()
        inc = t.incidence(D - 1, D)
        want = {k for k, v in inc.items() if len(v) == 1}
        gk = [self.key[D - 1][j] for j in got]
        self.mon.ok('surface', len(gk) == len(set(gk)) and set(gk) == want,
                    'surface facets: %d != %d' % (len(gk), len(want)), n=max(len(want), 1))

    def all(self, rng, gels):
        self.number()
        D = self.D
        pairs = [(a, b) for a in range(D + 1) for b in range(D + 1)]
        for k in rng.permutation(len(pairs)):
            self.check_rel(*pairs[k])
        self.check_surface()
        self.check_cell_subs(gels)
        self.check_queries(rng)

    def history(self, rng, gels):
        """Random create/free/query sequence."""
        cm, mon, D = self.cm, self.mon, self.D
        ops = []
        for _ in range(rng.randint(6, 16)):
            a, b = rng.randint(0, D + 1, size=2)
            op = rng.randint(0, 6)
            ops.append((int(op), int(a), int(b)))
            if op == 0 and not (a == D and b == 0) and not (b == 0 and 0 < a < D):
                cm.free_connectivity(a, b)
                mon.event('free')
            elif op == 1 and D > 1:
                # Entities re-created from scratch.
                d = rng.randint(1, D)
                cm.free_connectivity(D, d)
                cm.free_connectivity(d, 0)
                cm.setup_entities()
                self.number()
            elif op == 2:
                g = cm.get_conn_as_graph(int(a), int(b))
                ref = self.t.incidence(int(a), int(b))
                ok = g.shape[0] == len(self.key[a])
                if ok:
                    for i in range(g.shape[0]):
                        ii = g.indices[g.indptr[i]:g.indptr[i + 1]]
                        if {self.key[b][j] for j in ii} != ref[self.key[a][i]]:
                            ok = False
                mon.ok('graph', ok, 'conn. graph %d -> %d' % (a, b))
            else:
                self.check_rel(int(a), int(b), how='after %s' % ops)
        mon.sig(tuple(ops))

def run_topology(mon, case):
    rng = gen.rngof(case)
    raw = gen.raw_mesh(rng, case['mesh'], size=case['size'], jitter=case['jitter'],
                       holes=case['holes'], dim=case['dim'], isolated=case['isolated'])
    cells = gen.all_cells(raw)
    t = Topo(cells, raw['tdim'], len(raw['coors']))
    mon.sig(tuple(sorted(cells)))
    domain = gen.to_domain(raw)
    cm = domain.cmesh
    from sfepy.discrete.fem.geometry_element import create_geometry_elements
    gels = create_geometry_elements()
    for desc in raw['conns']:
        g = gels[desc]
        if raw['tdim'] >= 2:
            mon.ok('tables', {frozenset(e) for e in g.edges.tolist()}
                   == {frozenset(e) for e in EDGES[desc]} and len(g.edges) == len(EDGES[desc]),
                   'edges of %s' % desc)
        if raw['tdim'] == 3:
            mon.ok('tables', {frozenset(e) for e in g.faces.tolist()}
                   == {frozenset(e) for e in FACES[desc]} and len(g.faces) == len(FACES[desc]),
                   'faces of %s' % desc)
    # The cells are those given.
    for desc in raw['conns']:
        mon.equal('cells', domain.mesh.get_conn(desc), raw['conns'][desc], 'cells %s' % desc)
    mon.equal('groups', cm.vertex_groups, raw['vgroups'], 'vertex groups')
    mon.equal('groups', cm.cell_groups, np.concatenate(
        [raw['mats'][d] for d in gen.ORDER if d in raw['conns']]), 'cell groups')
    c = Checked(mon, cm, t, raw)
    c.all(rng, gels)
    c.check_geometry()
    c.history(rng, gels)
    c.check_geometry()
    c.all(rng, gels)
    if case['isolated'] is False or t.D == 1:
        pass
    # Vertex graph of the mesh.
    g = domain.mesh.create_conn_graph(verbose=False)
    ref = set()
    for s in t.cell_sets:
        ref |= {(a, b) for a in s for b in s}
    gc = g.tocoo()
    mon.ok('conn_graph', {(int(a), int(b)) for a, b in zip(gc.coords[0], gc.coords[1])
                          } == ref, 'mesh connectivity graph: %d != %d entries' % (gc.nnz, len(ref)),
           n=len(ref))
    # A copy.
    cm2 = cm.create_new()
    cm2.set_local_entities(gels)
    cm2.setup_entities()
    c2 = Checked(mon, cm2, t, raw)
    c2.all(rng, gels)
    c2.check_geometry()
    mon.equal('copy', cm2.cell_groups, cm.cell_groups)
    mon.equal('copy', cm2.vertex_groups, cm.vertex_groups)
    old = cm.coors.copy()
    cm2.coors[:] += 1.0
    mon.equal('copy', cm.coors, old, 'coordinates shared by a copy')
    m3 = domain.mesh.copy()
    for desc in raw['conns']:
        mon.equal('copy', m3.get_conn(desc), raw['conns'][desc])
    import pickle
    m4 = pickle.loads(pickle.dumps(domain.mesh))
    for desc in raw['conns']:
        mon.equal('copy', m4.get_conn(desc), raw['conns'][desc], 'pickled')
    mon.equal('copy', m4.coors, raw['coors'], 'pickled')
    mon.equal('copy', m4.cmesh.cell_groups, cm.cell_groups, 'pickled')
    # Sub-meshes of cells and of lower dimensional entities.
    for loc in (False, True):
        dent = rng.randint(1, t.D + 1)
        n = len(c.key[dent])
        ents = np.sort(rng.permutation(n)[:rng.randint(1, n + 1)]).astype(np.uint32)
        if t.D > dent:
            conn_rows(cm, dent, 0)
        cs = cm.create_new(ents, dent, localize=loc)
        src = rows(cm.get_conn(dent, 0))
        vs = np.unique(np.concatenate([src[e] for e in ents]))
        remap = np.arange(t.nv) if not loc else None
        if loc:
            remap = -np.ones(t.nv, int)
            remap[vs] = np.arange(len(vs))
        sub_cells = []
        for e in ents:
            if dent == t.D:
                sub_cells.append((cells[e][0], tuple(remap[list(cells[e][1])])))
            else:
                r = src[e]
                r = [r[k] for k in range(len(r)) if r[k] != r[k - 1]]
                sub_cells.append(({2: '1_2', 3: '2_3', 4: '2_4'}[len(r)],
                                  tuple(int(remap[v]) for v in r)))
        Xs = raw['coors'][vs] if loc else raw['coors']
        mon.close('submesh', cs.coors, Xs, rtol=0, msg='sub-mesh coordinates')
        mon.equal('submesh', cs.vertex_groups, raw['vgroups'][vs] if loc else raw['vgroups'])
        if dent == t.D:
            mon.equal('submesh', cs.cell_groups, cm.cell_groups[ents])
        if '3_6' in raw['conns'] and dent == 2:
            # triangular faces of wedges as cells: vertex sets only.
            mon.equal('submesh', [sorted(set(r)) for r in rows(cs.get_cell_conn())].__repr__(),
                      [sorted(s[1]) for s in sub_cells].__repr__())
            continue
        ts = Topo(sub_cells, dent, len(Xs))
        cs.set_local_entities(gels)
        cs.setup_entities()
        k = Checked(mon, cs, ts, dict(raw, coors=Xs))
        k.all(rng, gels)
        k.check_geometry()

REFL = {'1_2': [1, 0], '2_3': [0, 2, 1], '2_4': [0, 3, 2, 1], '3_4': [0, 2, 1, 3],
        '3_8': [4, 5, 6, 7, 0, 1, 2, 3], '3_6': [3, 4, 5, 0, 1, 2]}

def signed(X, desc, c):
    Y = X[list(c)]
    if desc == '1_2':
        return Y[1, 0] - Y[0, 0]
    i = {'2_3': [0, 1, 2], '2_4': [0, 1, 3], '3_4': [0, 1, 2, 3],
         '3_8': [0, 1, 3, 4], '3_6': [0, 1, 2, 3]}[desc]
    return np.linalg.det(Y[i[1:]] - Y[i[0]])

def run_orient(mon, case):
    """Cells given with the wrong orientation are corrected, keeping vertices."""
    rng = gen.rngof(case)
    raw = gen.raw_mesh(rng, case['mesh'], size=case['size'], jitter=0.2)
    desc = list(raw['conns'])[0]
    c = raw['conns'][desc].copy()
    flip = rng.rand(len(c)) < rng.choice([0.2, 0.5, 1.0])
    flip[rng.randint(len(c))] = True
    cf = c.copy()
    cf[flip] = c[flip][:, REFL[desc]]
    raw2 = dict(raw, conns={desc: cf})
    domain = gen.to_domain(raw2)
    got = domain.mesh.get_conn(desc)
    X = raw['coors']
    bad = [i for i in range(len(c)) if set(got[i]) != set(c[i])]
    mon.ok('orient_fix', not bad, 'vertices changed: %s' % bad[:5], n=len(c))
    neg = [i for i in range(len(c)) if not signed(X, desc, got[i]) > 0]
    mon.ok('orient_fix', not neg, 'cells not positively oriented: %s' % neg[:5], n=len(c))
    good = ~flip
    mon.equal('orient_fix', got[good], c[good], 'well oriented cells changed')
    es = {frozenset(frozenset((q[a], q[b])) for a, b in EDGES[desc]) for q in got.tolist()}
    ref = {frozenset(frozenset((q[a], q[b])) for a, b in EDGES[desc]) for q in c.tolist()}
    mon.ok('orient_fix', es == ref, 'edges of the cells changed')
    mon.close('volume', domain.cmesh.get_volumes(raw['tdim']),
              [volume_of(desc, X[q]) for q in c], rtol=1e-11, scale=1.0)

def run_mixed_dim(mon, case):
    """Meshes having also cells of a lower dimension."""
    rng = gen.rngof(case)
    from sfepy.discrete.fem import Mesh, FEDomain
    from sfepy.discrete.fem.geometry_element import create_geometry_elements
    gels = create_geometry_elements()
    raw = gen.raw_mesh(rng, case['mesh'], size=2, jitter=0.2)
    desc = case['mesh']
    cells = gen.all_cells(raw)
    t = Topo(cells, raw['tdim'], len(raw['coors']))
    inc = t.incidence(t.D - 1, t.D)
    fac = [k[1] for k, v in inc.items() if len(v) == 1]
    fac = [fac[i] for i in rng.permutation(len(fac))[:max(1, len(fac) // 2)]]
    if t.D == 3:
        fc = np.array([t.face_cycle[f] for f in fac])
        fdesc = {3: '2_3', 4: '2_4'}[fc.shape[1]]
    else:
        fc = np.array([sorted(f) for f in fac])
        fdesc = '1_2'
    fm = rng.randint(0, 5, len(fc))
    order = rng.rand() < 0.5
    L = [(raw['conns'][desc], raw['mats'][desc], desc), (fc, fm, fdesc)]
    if order:
        L.reverse()
    mesh = Mesh.from_data('m', raw['coors'], raw['vgroups'],
                          [np.asarray(l[0], np.int32) for l in L],
                          [np.asarray(l[1], np.int32) for l in L], [l[2] for l in L])
    domain = FEDomain('d', mesh)
    mon.equal('submesh', mesh.get_conn(desc), raw['conns'][desc])
    mon.equal('submesh', mesh.get_conn(fdesc, tdim=t.D - 1), fc)
    for cm, tt in ((domain.cmesh, t),
                   (mesh.cmesh_tdim[t.D - 1],
                    Topo([(fdesc, tuple(int(v) for v in f)) for f in fc], t.D - 1, t.nv))):
        c = Checked(mon, cm, tt, raw)
        c.all(rng, gels)
        c.check_geometry()
        c.history(rng, gels)
    mon.equal('groups', mesh.cmesh_tdim[t.D - 1].cell_groups, fm)
    mon.equal('groups', domain.cmesh.cell_groups, raw['mats'][desc])
    mon.ok('submesh', mesh.n_el == len(cells) + len(fc), 'n_el')
