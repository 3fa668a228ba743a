"""
C02: regions.

Monitor: every region created by the real parser/factory is compared, entity
kind by entity kind, with the sets computed by a reference evaluator of the
selector/operator expressions working on vertex sets of the cells
(rvm/ref_topo.py); earlier regions are re-observed after every later
operation, and the derived queries (facet indices, cells, parents, mirrors,
characteristic functions, copies, edge graphs) are checked on those sets.
"""
import numpy as np
from .. import gen
from ..ref_topo import Topo

REQUIRED = ['entities', 'frozen', 'order', 'facet_indices', 'get_cells',
            'cell_indices', 'charfun', 'edge_graph', 'copy', 'contains',
            'empty', 'error', 'mirror', 'from_entities', 'pickle', 'parent',
            'submesh']
ASSUMPTIONS = ['operator chains are parenthesised (the associativity of mixed'
               ' chains is not documented)',
               'a bare r.<name> definition is a reference and is not used as'
               ' a whole definition']

KINDS = ['1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6', '2_3d', '3_4d']

def cases(rng, tier):
    n = 60 if tier == 'quick' else 400
    out = []
    for i in range(n):
        for kind in KINDS:
            size = int(rng.choice([3, 4]) if kind[0] == '2' or kind == 'mixed2'
                       else rng.choice([2, 3]))
            if kind == '1_2':
                size = int(rng.randint(4, 9))
            dim = None
            if kind in ('2_3', '2_4', '1_2') and rng.rand() < 0.25:
                dim = 3 if kind[0] == '2' else 2
            out.append(dict(kind='regions', mesh=kind, size=size, dim=dim,
                            holes=float(rng.choice([0, 0.2, 0.4])), n_reg=8,
                            cost=3 if kind[0] == '3' else 1))
    for i in range(4 if tier == 'quick' else 30):
        for kind in ['2_3', '2_4', '3_4', '3_8']:
            out.append(dict(kind='mirror', mesh=kind, size=2 + i % 3))
    return out

class Model:
    """Reference semantics of regions."""

    def __init__(self, raw):
        self.raw = raw
        self.t = Topo(gen.all_cells(raw), raw['tdim'], len(raw['coors']))
        self.D = raw['tdim']
        t = self.t
        # vertex sets per dimension, keyed by reference keys
        self.keys = {d: t.keys(d) for d in range(self.D + 1)}
        self.vs = {d: dict(zip(t.keys(d), t.vsets(d))) for d in range(self.D + 1)}

    def complete(self, d, verts):
        """Entities of dimension d all of whose vertices are in verts."""
        verts = {k[1] for k in verts}
        if d == 0:
            return {('v', i) for i in verts}
        return {k for k, s in self.vs[d].items() if s <= verts}

    def sub(self, d, ents, dent):
        """Entities of dimension d of the entities of dimension dent."""
        if d == dent:
            return set(ents)
        inc = self.t.incidence(dent, d)
        out = set()
        for e in ents:
            out |= inc[e]
        return out

    def complete2(self, d, ents, dent):
        """Entities of dimension d all of whose sub-entities are in ents."""
        if d == dent:
            return set(ents)
        inc = self.t.incidence(d, dent)
        ents = set(ents)
        return {k for k in self.keys[d] if inc[k] and inc[k] <= ents}

class Reg:
    """kind dimension `top`, base dimension and entities."""

    def __init__(self, m, top, base, ents):
        self.m, self.top, self.base = m, top, base
        self.ents = set(ents)

    def get(self, d):
        m = self.m
        if d > self.top:
            return set()
        if d == self.base:
            return set(self.ents)
        if d < self.base:
            return m.sub(d, self.ents, self.base)
        # d > base: cells complete w.r.t. the vertices; the other entities are
        # those of the entities one dimension higher, if any, otherwise those
        # complete w.r.t. the base entities.
        if d == self.top:
            return m.complete(d, m.sub(0, self.ents, self.base))
        up = self.get(d + 1)
        return m.sub(d, up, d + 1) if up else m.complete2(d, self.ents, self.base)

    def final(self, kind_dim):
        r = Reg(self.m, kind_dim, self.base, self.ents)
        return Reg(self.m, kind_dim, kind_dim, r.get(kind_dim))

OPN = {'v': 0, 'e': 1, 'f': 2}
SET = {'+': lambda a, b: a | b, '-': lambda a, b: a - b, '*': lambda a, b: a & b}

class Gen:
    """Random expressions with their reference values."""

    def __init__(self, rng, m, funs, named, vsets):
        self.rng, self.m, self.funs = rng, m, funs
        self.named = named      # name -> (Reg, kind_dim, only)
        self.vsets = vsets

    def leaf(self):
        rng, m = self.rng, self.m
        X = m.raw['coors']
        n = len(X)
        D = m.D
        nc = len(m.t.cells)
        c = rng.randint(0, 14)
        if c == 0:
            return 'all', Reg(m, D, 0, m.keys[0])
        if c == 1:
            return ('vertices of surface',
                    Reg(m, D - 1, D - 1, {k for k, v in m.t.incidence(D - 1, D).items()
                                          if len(v) == 1}))
        if c in (2, 3, 4):
            s, mask = self.relation()
            return 'vertices in ' + s, Reg(m, D, 0, {('v', i) for i in np.nonzero(mask)[0]})
        if c == 5:
            g = rng.randint(0, 4)
            return ('vertices of group %d' % g,
                    Reg(m, D, 0, {('v', i) for i in np.nonzero(m.raw['vgroups'] == g)[0]}))
        if c in (6, 7):
            g = int(rng.choice(np.unique(self.cgroups())))
            return ('cells of group %d' % g,
                    Reg(m, D, D, {('c', i) for i in np.nonzero(self.cgroups() == g)[0]}))
        if c == 8:
            k = rng.randint(len(self.funs['v']))
            return ('vertices by %s' % self.funs['v'][k][0],
                    Reg(m, D, 0, {('v', i) for i in self.funs['v'][k][1]}))
        if c == 9:
            k = rng.randint(len(self.funs['c']))
            return ('cells by %s' % self.funs['c'][k][0],
                    Reg(m, D, D, {('c', i) for i in self.funs['c'][k][1]}))
        if c == 10:
            ids = rng.permutation(n)[:rng.randint(1, n)]
            return ('vertex ' + ', '.join(map(str, ids)),
                    Reg(m, D, 0, {('v', int(i)) for i in ids}))
        if c == 11:
            ids = rng.permutation(nc)[:rng.randint(1, nc + 1)]
            return ('cell ' + ', '.join(map(str, ids)),
                    Reg(m, D, D, {('c', int(i)) for i in ids}))
        if c == 12 and self.vsets:
            k = sorted(self.vsets)[rng.randint(len(self.vsets))]
            return ('vertices of set %s' % k, Reg(m, D, 0, {('v', i) for i in self.vsets[k]}))
        if self.named:
            k = sorted(self.named)[rng.randint(len(self.named))]
            r, kd = self.named[k]
            return (('copy ' if rng.rand() < 0.3 else '') + 'r.%s' % k, r)
        return 'all', Reg(m, D, 0, m.keys[0])

    def cgroups(self):
        r = self.m.raw
        return np.concatenate([r['mats'][d] for d in gen.ORDER if d in r['conns']])

    def relation(self, depth=0):
        rng, X = self.rng, self.m.raw['coors']
        if depth < 2 and rng.rand() < 0.45:
            a, ma = self.relation(depth + 1)
            b, mb = self.relation(depth + 1)
            op = '&' if rng.rand() < 0.5 else '|'
            return ('((%s) %s (%s))' % (a.strip('()') if 0 else a, op, b),
                    (ma & mb) if op == '&' else (ma | mb))
        i = rng.randint(X.shape[1])
        q = np.round(np.quantile(X[:, i], rng.rand()), 5)
        op = ['<', '>', '<=', '>=', '!=', '=='][rng.choice(6, p=[.24, .24, .24, .24, .02, .02])]
        f = {'<': np.less, '>': np.greater, '<=': np.less_equal, '>=': np.greater_equal,
             '!=': np.not_equal, '==': np.equal}[op]
        s = '%.5f' % q if abs(q) < 1e4 else '%.5e' % q
        if rng.rand() < 0.2:
            s = '%.8e' % float(s)
        v = float(s)
        return '(%s %s %s)' % ('xyz'[i], op, s), f(X[:, i], v)

    def expr(self, depth):
        rng, m = self.rng, self.m
        if depth == 0 or rng.rand() < 0.15:
            return self.leaf()
        a, ra = self.expr(depth - 1)
        b, rb = self.expr(rng.randint(0, depth))
        ops = ['v', 'c', 's']
        if m.D >= 2:
            ops.append('e')
        if m.D == 3:
            ops.append('f')
        o = ops[rng.randint(len(ops))]
        s = '+-*'[rng.randint(3)]
        d = {'c': m.D, 's': m.D - 1}.get(o, OPN.get(o))
        if d > ra.top:
            o, d = 'v', 0
        ents = SET[s](ra.get(d), rb.get(d))
        chain = lambda x: any(' %s%s ' % (p, q) in x for p in '+-*' for q in 'vefsc')
        aa = wrap(a) if chain(a) or rng.rand() < 0.3 else a
        bb = wrap(b) if chain(b) or rng.rand() < 0.3 else b
        if not ra.ents or not rb.ents:
            self.empty_operand = True
        return '%s %s%s %s' % (aa, s, o, bb), Reg(m, ra.top, d, ents)

def wrap(s):
    """Parenthesise: a relation takes all the parentheses that follow it, so it
    must not be the last thing in a group."""
    last = s.rsplit('vertices in ', 1)
    if len(last) == 2 and not any(w in last[1] for w in ('v', 'c', 'r', 'l')):
        s += ' *v all'
    return '(%s)' % s

class Binding:
    """Numbering of entities by the code -> reference keys."""

    def __init__(self, m, cmesh):
        t = m.t
        self.key = {0: t.keys(0), m.D: t.keys(m.D)}
        for d in range(1, m.D):
            cmesh.setup_connectivity(d, 0)
            c = cmesh.get_conn(d, 0)
            ind, off = np.asarray(c.indices), np.asarray(c.offsets)
            self.key[d] = [('e%d' % d, frozenset(ind[off[i]:off[i + 1]].tolist()))
                           for i in range(len(off) - 1)]
        self.idx = {d: {k: i for i, k in enumerate(v)} for d, v in self.key.items()}

KNAMES = {1: {0: ['vertex', 'facet'], 1: ['cell']},
          2: {0: ['vertex'], 1: ['facet', 'edge'], 2: ['cell']},
          3: {0: ['vertex'], 1: ['edge'], 2: ['facet', 'face'], 3: ['cell']}}

def entity_sets(region, b, D, rng=None):
    """Sets of all entities in a random order of access."""
    out = {}
    order = list(range(D + 1)) if rng is None else rng.permutation(D + 1)
    for d in order:
        d = int(d)
        if d == D and (rng is None or rng.rand() < 0.7):
            e = region.cells
        elif d == 0 and (rng is None or rng.rand() < 0.7):
            e = region.vertices
        elif d == D - 1 and (rng is None or rng.rand() < 0.5):
            e = region.facets
        elif d == 1 and D > 1:
            e = region.edges
        else:
            e = region.get_entities(d)
        e = np.asarray(e)
        out[d] = ([b.key[d][i] for i in e.tolist()])
    return out

def check_sets(mon, what, region, b, ref, D, rng, kind='entities', only=False):
    got = entity_sets(region, b, D, rng)
    for d in range(D + 1):
        g = got[d]
        w = ref.get(d) if not (only and d != ref.top) else set()
        mon.ok(kind, set(g) == w and (len(g) == len(set(g))),
               '%s: dimension %d: %d entities (%d distinct), %d expected, missing %s, extra %s'
               % (what, d, len(g), len(set(g)), len(w), sorted(map(str, w - set(g)))[:4],
                  sorted(map(str, set(g) - w))[:4]), n=max(1, len(w)))
    return got

def run_regions(mon, case):
    from sfepy.discrete.fem import FEDomain, Mesh
    from sfepy.discrete import Functions, Function
    from sfepy.discrete.common.region import Region, are_disjoint
    from sfepy.base.base import Struct
    rng = gen.rngof(case)
    raw = gen.raw_mesh(rng, case['mesh'], size=case['size'], holes=case['holes'],
                       dim=case['dim'], jitter=0.3)
    m = Model(raw)
    D = m.D
    X = raw['coors']
    vsets = {}
    if rng.rand() < 0.6:
        for k in ('10', 'abc', 'set_2'):
            vsets[k] = np.sort(rng.permutation(len(X))[:rng.randint(1, len(X))]).astype(np.int32)
    descs = [d for d in gen.ORDER if d in raw['conns']]

    def make_mesh():
        return Mesh.from_data('m', X.copy(), raw['vgroups'].astype(np.int32),
                              [raw['conns'][d].astype(np.int32) for d in descs],
                              [raw['mats'][d].astype(np.int32) for d in descs], descs,
                              nodal_bcs={k: v.copy() for k, v in vsets.items()})
    cen = np.array([X[list(c)].mean(0) for _, c in m.t.cells])
    funs = {'v': [], 'c': []}
    flist = []
    for i in range(2):
        for w, Y in (('v', X), ('c', cen)):
            a = rng.randn(Y.shape[1])
            q = np.quantile(Y @ a, rng.rand())
            ids = np.nonzero(Y @ a <= q)[0]
            if len(ids) == 0:
                ids = np.array([0])
            name = 'fun_%s%d' % (w, i)

            def f(coors, domain=None, a=a, q=q, Y=Y, perm=rng.permutation(len(ids)), ids=ids):
                seen.append((coors.shape == Y.shape) and np.allclose(coors, Y, rtol=0, atol=1e-12))
                r = np.nonzero(coors @ a <= q)[0] if coors.shape == Y.shape else ids
                return r
            funs[w].append((name, ids))
            flist.append(Function(name, f))
    seen = []
    functions = Functions(flist)

    domain = FEDomain('d', make_mesh())
    b = Binding(m, domain.cmesh)
    named, defs, refs = {}, [], {}
    g = Gen(rng, m, funs, named, vsets)
    for i in range(case['n_reg']):
        g.empty_operand = False
        expr, r = g.expr(int(rng.choice([0, 1, 1, 2, 2, 3])))
        if expr.strip('(').startswith('r.') and ' ' not in expr:
            expr = 'copy ' + expr.strip('()')
        kd = int(rng.randint(0, r.top + 1))
        if rng.rand() < 0.4:
            kd = r.top
        kind = KNAMES[D][kd][rng.randint(len(KNAMES[D][kd]))]
        fin = r.final(kd)
        name = 'R%d' % i
        mon.sig(expr, kind, case['mesh'])
        ents = fin.get(kd)
        only = False
        if (r.base == kd) and rng.rand() < 0.15 and not expr.startswith('copy') \
                and 'r.' not in expr and (kd == 0 or ' ' in expr) and r.top >= kd \
                and not any(' %s%s ' % (x, y) in expr for x in '+-*' for y in 'vefsc'):
            only = True
            kind = kind + '_only'
        if not ents:
            # Empty regions are diagnosed, or allowed on request.
            ok = mon.raises('error', ValueError, domain.create_region, name, expr, kind,
                            functions=functions, msg='empty region %s' % expr)
            if ok and rng.rand() < 0.5:
                try:
                    er = domain.create_region(name, expr, kind, functions=functions,
                                              allow_empty=True, add_to_regions=False)
                except ValueError:
                    if not g.empty_operand:
                        raise
                    continue
                got = entity_sets(er, b, D, rng)
                mon.ok('empty', all(len(v) == 0 for v in got.values()),
                       'empty region %s has entities' % expr)
            continue
        try:
            reg = domain.create_region(name, expr, kind, functions=functions)
        except ValueError as exc:
            # An empty operand may be refused.
            if not (g.empty_operand and 'no entities' in str(exc)):
                raise
            mon.event('refused')
            continue
        check_sets(mon, '%s = %s [%s]' % (name, expr, kind), reg, b, fin, D, rng, only=only)
        mon.ok('entities', reg.name == name and domain.regions[name] is reg, 'name')
        if not only:
            named[name] = (fin, kd)
            defs.append((name, expr, kind))
        refs[name] = (reg, fin, only)
    # Functions got the right coordinates.
    if seen:
        mon.ok('function_coors', all(seen), 'coordinates passed to region functions', n=len(seen))
    # Invalid definitions are diagnosed and do no harm.
    for bad in ('r.Nope +v all', 'all +v', 'vertices in (x < 1', 'cells of group 77',
                'vertices of set nonexistent', 'all +q all', 'vertices by nonexistent'):
        mon.raises('error', Exception, domain.create_region, 'bad', bad, functions=functions,
                   msg='invalid definition %r' % bad)
    # Nothing done later changed the earlier regions.
    for name, (reg, fin, only) in refs.items():
        check_sets(mon, name + ' re-observed', reg, b, fin, D, rng, kind='frozen', only=only)
        queries(mon, rng, domain, reg, fin, b, m, only)
    # parents
    facs = [n for n in named if named[n][1] == D - 1]
    cels = [n for n in named if named[n][1] == D]
    for n in facs[:3]:
        for p in cels[:2]:
            fin = named[n][0]
            pr = named[p][0]
            if not fin.get(D - 1):
                continue
            reg = domain.create_region('P_%s_%s' % (n, p), 'copy r.%s' % n, 'facet', parent=p)
            fis = reg.get_facet_indices()
            inc = m.t.incidence(D - 1, D)
            want = {(c[1], k) for k in fin.get(D - 1) for c in inc[k] if c in pr.get(D)}
            check_fis(mon, 'parent', fis, want, domain, b, D, reg)
            cells = reg.get_cells(true_cells_only=False)
            mon.ok('parent', sorted(cells.tolist()) == sorted(c for c, _ in want),
                   'get_cells() with a parent')
            mon.equal('parent', cells, fis[:, 0], 'get_cells() consistent with get_facet_indices()')
    # pairs
    names = sorted(named)
    for _ in range(6):
        if len(names) < 2:
            break
        a, c = names[rng.randint(len(names))], names[rng.randint(len(names))]
        ra, rc = refs[a][0], refs[c][0]
        fa, fc = named[a][0], named[c][0]
        mon.ok('contains', bool(ra.contains(rc)) == (fc.get(fc.top) <= fa.get(fc.top)),
               'contains: %s %s (%s)' % (a, c, ra.contains(rc)))
        if a != c:
            mon.ok('contains', are_disjoint(ra, rc) == (not (fa.get(0) & fc.get(0))),
                   'are_disjoint: %s %s' % (a, c))
    # The order of the definitions does not matter.
    if defs:
        d2 = FEDomain('d', make_mesh())
        rd = {}
        for k in rng.permutation(len(defs)):
            n, e, kk = defs[k]
            rd['region_%d' % k] = Struct(name=n, select=e, kind=kk,
                                         get=lambda key, default=None, kk=kk:
                                         {'kind': kk}.get(key, default))
        d2.create_regions(rd, functions)
        b2 = Binding(m, d2.cmesh)
        for n, e, kk in defs:
            check_sets(mon, '%s (permuted definitions)' % n, d2.regions[n], b2,
                       named[n][0], D, rng, kind='order')
        mon.ok('order', len(d2.regions) == len(defs), 'number of regions')
        # reset and pickled domains
        import pickle
        d3 = pickle.loads(pickle.dumps(d2))
        b3 = Binding(m, d3.cmesh)
        for n, e, kk in defs:
            check_sets(mon, '%s (pickled)' % n, d3.regions[n], b3, named[n][0], D, rng,
                       kind='pickle')
            mon.ok('pickle', d3.regions[n].kind == d2.regions[n].kind, 'kind')
    # Regions from given entities.
    for d in range(D + 1):
        n = len(b.key[d])
        ids = np.sort(rng.permutation(n)[:rng.randint(1, n + 1)]).astype(np.uint32)
        kind = KNAMES[D][d][0]
        if d == 0:
            r = Region.from_vertices(ids, domain, kind='vertex')
        elif d == D:
            r = Region.from_cells(ids, domain)
        elif d == D - 1:
            r = Region.from_facets(ids, domain, kind='facet')
        else:
            continue
        check_sets(mon, 'from entities of dimension %d' % d, r, b,
                   Reg(m, d, d, {b.key[d][i] for i in ids}), D, rng, kind='from_entities')

def check_fis(mon, kind, fis, want, domain, b, D, reg):
    cm = domain.cmesh
    got = []
    ok = True
    if D > 1:
        cm.setup_connectivity(D, D - 1)
        conn = cm.get_conn(D, D - 1)
    else:
        conn = cm.get_conn(1, 0)
    ind, off = np.asarray(conn.indices), np.asarray(conn.offsets)
    for c, l in fis.tolist():
        if not (0 <= l < off[c + 1] - off[c]):
            ok = False
            break
        got.append((c, b.key[D - 1][ind[off[c] + l]]))
    mon.ok(kind, ok and len(got) == len(set(got)) and set(got) == want,
           'facet indices of %s: %d != %d, missing %s, extra %s'
           % (reg.name, len(got), len(want), list(want - set(got))[:3], list(set(got) - want)[:3]),
           n=max(1, len(want)))

def queries(mon, rng, domain, reg, fin, b, m, only):
    D = m.D
    inc = m.t.incidence(D - 1, D)
    facets = fin.get(D - 1) if not only or fin.top == D - 1 else set()
    if facets:
        want = {(c[1], k) for k in facets for c in inc[k]}
        check_fis(mon, 'facet_indices', reg.get_facet_indices(), want, domain, b, D, reg)
    if fin.top == D:
        cells = {c[1] for c in fin.get(D)}
        gc = reg.get_cells()if reg.kind == 'cell' else reg.cells
        mon.ok('get_cells', set(gc.tolist()) == cells and len(gc) == len(cells), 'get_cells()')
        if reg.kind == 'cell':
            sub = rng.permutation(gc)[:rng.randint(1, len(gc) + 1)]
            ii = reg.get_cell_indices(sub)
            mon.equal('cell_indices', gc[ii], sub, 'get_cell_indices()')
            other = sorted(set(range(len(m.t.cells))) - cells)
            if other:
                mon.raises('cell_indices', ValueError, reg.get_cell_indices,
                           np.array([other[0]], dtype=np.uint32), msg='cells not in the region')
        ch = reg.get_charfun(by_cell=True)
        w = np.zeros(len(m.t.cells))
        w[sorted(cells)] = 1
        mon.equal('charfun', ch, w, 'by cell')
        w[sorted(cells)] = np.array(sorted(cells)) + 1
        mon.equal('charfun', reg.get_charfun(by_cell=True, val_by_id=True), w, 'by cell id')
        mon.ok('get_cells', reg.has_cells() and reg.get_n_cells() == len(cells), 'get_n_cells()')
        if reg.kind == 'cell':
            from sfepy.discrete.fem import Mesh
            loc = bool(rng.rand() < 0.5)
            sm = Mesh.from_region(reg, domain.mesh, localize=loc)
            vs = np.sort(reg.vertices)
            conns = {d: sm.get_conn(d) for d in sm.descs}
            got = sorted((d, tuple(r)) for d, c in conns.items() for r in
                         (vs[c] if loc else c).tolist())
            w = sorted((m.t.cells[c][0], tuple(int(v) for v in m.t.cells[c][1])) for c in cells)
            mon.ok('submesh', got == w, 'sub-mesh of a region: %s != %s' % (got[:2], w[:2]),
                   n=len(w))
    elif not only and fin.top == D - 1 and facets:
        mon.raises('get_cells', ValueError, reg.get_cells, msg='true cells of a facet region')
        gc = reg.get_cells(true_cells_only=False)
        want = sorted(c[1] for k in facets for c in inc[k])
        mon.ok('get_cells', sorted(gc.tolist()) == want, 'cells incident to facets')
        sub = rng.permutation(np.unique(gc))
        ii = reg.get_cell_indices(sub, true_cells_only=False)
        mon.equal('cell_indices', gc[ii], sub, 'get_cell_indices() of a facet region')
    if not only or fin.top == 0:
        w = np.zeros(m.t.nv)
        vs = sorted(k[1] for k in fin.get(0))
        w[vs] = 1
        mon.equal('charfun', reg.get_charfun(), w, 'by vertex')
    if not only:
        cp = reg.copy()
        check_sets(mon, reg.name + ' copy', cp, b, fin, D, rng, kind='copy')
        old = [e.copy() for e in reg.entities]
        cp.entities[fin.top][:] = 0
        for e, o in zip(reg.entities, old):
            mon.equal('copy', e, o, 'a copy shares entities')
        if D > 1 and fin.top >= 1:
            g = reg.get_edge_graph()
            if g is not None:
                c = g.tocoo()
                got = {(int(i), int(j)): int(v) - 1 for i, j, v in
                       zip(c.coords[0], c.coords[1], c.data)}
                want = {}
                for k in fin.get(1):
                    i, j = sorted(k[1])
                    e = b.idx[1][k]
                    want[i, j] = want[j, i] = e
                mon.ok('edge_graph', got == want, 'edge graph')

def run_mirror(mon, case):
    """Mirror regions: matching facets/vertices of two parallel sides."""
    from sfepy.discrete.fem import FEDomain
    rng = gen.rngof(case)
    kind = case['mesh']
    D = int(kind[0])
    # A grid with the same x1.. spacing on both ends in x0.
    n = [case['size'] + 1] * D
    Xg, c = gen.grid(n, rng=rng)
    if kind == '2_3':
        c = np.vstack([c[:, [0, 1, 2]], c[:, [0, 2, 3]]])
    elif kind == '3_4':
        c = gen.orient(Xg, c[:, gen.KUHN].reshape(-1, 4), kind)
    p = rng.permutation(len(Xg))
    X = np.empty_like(Xg)
    X[p] = Xg
    c = p[c][rng.permutation(len(c))]
    raw = dict(coors=X, conns={kind: c}, tdim=D, dim=D, vgroups=np.zeros(len(X), int),
               mats={kind: np.zeros(len(c), int)})
    domain = gen.to_domain(raw)
    axis = 0
    lo, hi = X[:, 0].min(), X[:, 0].max()
    L = domain.create_region('L', 'vertices in (x < %.10f)' % (lo + 1e-6), 'facet')
    R = domain.create_region('R', 'vertices in (x > %.10f)' % (hi - 1e-6), 'facet')
    if rng.rand() < 0.5:
        L.setup_mirror_region('R')
    else:
        L.extra_options = {'mirror_region': 'R'}
        name = L.setup_mirror_region(ret_name=True)
        mon.ok('mirror', name == 'R', 'name')
    mon.ok('mirror', L.get_mirror_region('R') is R and R.get_mirror_region('L') is L)
    cm = domain.cmesh
    cm.setup_connectivity(D - 1, 0)
    cc = cm.get_centroids(D - 1)
    a, bb = cc[L.facets], cc[R.facets]
    # map: facet i of R corresponds to facet map[i] of L, or the converse
    m1, m2 = L.mirror_maps['R'], R.mirror_maps['L']
    ok1 = np.allclose(a[m1][:, 1:], bb[:, 1:], atol=1e-9) if m1 is not None else False
    ok2 = np.allclose(bb[m2][:, 1:], a[:, 1:], atol=1e-9) if m2 is not None else False
    mon.ok('mirror', ok1 and ok2, 'mirror facet maps %s %s' % (ok1, ok2), n=len(a))
    # Incompatible mirrors are diagnosed.
    B = domain.create_region('B', 'vertices in ((x < %.10f) & (y < %.10f))'
                             % (lo + 1e-6, np.median(X[:, 1])), 'vertex')
    mon.raises('mirror', ValueError, L.setup_mirror_region, 'B', msg='incompatible mirror')
