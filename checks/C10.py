"""Regions: set operations, derived entities, selectors, order of evaluation."""
import itertools, random
import numpy as np
from engine.vc import Suite, main
from checks import felib

RG, DO, RD = 'sfepy.discrete.common.region', 'sfepy.discrete.common.domain', 'sfepy.base.resolve_deps'
PA, FU = 'sfepy.discrete.parse_regions', 'sfepy.discrete.functions'
S = Suite('C10', 'regions', level='exploration', assumptions=[
    'meshes are enumerated; sets of entities are all subsets or, for many entities, seeded random ones; coordinates in '
    'vertex selections are symbolic',
    'entity incidence is taken from the vertices of entities of the mesh (see C11)',
    'pyparsing is trusted'])
felib.use(S, RG, DO, RD, PA, FU)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

LETTER = {0: 'v', 1: 'e', 2: 'f'}
KIND = {0: 'vertex', 1: 'edge', 2: 'face'}
TDIM = {'line': 1, 'tri': 2, 'quad': 2, 'tet': 3, 'hex': 3, 'wedge1': 3, 'tri1': 2, 'tet1': 3}

class Ents:
    """Vertex sets of all entities of a mesh."""
    def __init__(self, dom):
        c, self.td = dom.cmesh, dom.shape.tdim
        c.setup_entities()
        self.of = [[frozenset([i]) for i in range(dom.shape.n_nod)]]
        for d in range(1, self.td + 1):
            c.setup_connectivity(d, 0)
            cn = c.get_conn(d, 0)
            off, ind = [int(x) for x in cn.offsets], [int(x) for x in cn.indices]
            self.of.append([frozenset(ind[a:b]) for a, b in zip(off[:-1], off[1:])])
    def n(self, d):
        return len(self.of[d])
    def down(self, d, ents, lo):
        vs = [self.of[d][e] for e in ents]
        return sorted(i for i, v in enumerate(self.of[lo]) if any(v <= w for w in vs))
    def complete(self, d, verts):
        return sorted(i for i, v in enumerate(self.of[d]) if v <= set(verts))

def kind_of(E, d):
    return 'cell' if d == E.td else KIND[d]

def ints(a):
    return [int(i) for i in a]

def ents_of(reg, E, d):
    return reg.cells if d == E.td else [lambda: reg.vertices, lambda: reg.edges, lambda: reg.faces][d]()

def consistent(W, tag, reg, E, d, want, n=None):
    """The region has exactly the entities `want` of dimension d, and those of other dimensions follow."""
    W.true(tag + ': entities', ints(ents_of(reg, E, d)) == sorted(want))
    for lo in range(d):
        W.true(tag + ': lower %d' % lo, ints(ents_of(reg, E, lo)) == E.down(d, want, lo))
    for hi in range(d + 1, E.td + 1):
        W.true(tag + ': higher %d' % hi, ints(ents_of(reg, E, hi)) == [])
    if reg.shape is not None:
        nf = E.td - 1
        num = lambda k: len(want) if k == d else len(E.down(d, want, k)) if k < d else 0
        sh = reg.shape
        W.true(tag + ': shape', (sh.n_vertex, sh.n_facet, sh.n_cell) == (num(0), num(nf), num(E.td))
               and sh.n_edge == (num(1) if E.td > 1 else 0) and sh.n_face == (num(2) if E.td > 2 else 0))

def subsets(n, r, m):
    if 2 ** n <= m:
        return [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]
    out = [[], list(range(n))]
    while len(out) < m:
        out.append(sorted(r.sample(range(n), r.randrange(1, n))))
    return out

def given(W, dom, E, d, ents, name):
    """A region of the kind of dimension d made of the given entities, added to the domain."""
    R = W.mod(RG).Region
    if d == E.td:
        reg = R.from_cells(ents, dom, name=name)
    elif d == 0:
        reg = R.from_vertices(ents, dom, name=name, kind='vertex')
    elif d == E.td - 1:
        reg = R.from_facets(ents, dom, name=name)
    else:
        reg = R(name, 'given', dom, '', kind=KIND[d])
        reg.edges = ents
    reg.finalize(allow_empty=True)
    return reg

OPS = {'+': lambda a, b: a | b, '-': lambda a, b: a - b, '*': lambda a, b: a & b}

@contract('set operations', [dict(m=m, d=d, op=op) for m in ('line', 'tri', 'quad', 'tet', 'hex')
                             for d in range(TDIM[m] + 1) for op in '+-*'])
def set_ops(W, m, d, op):
    dom = felib.domain(W, m)
    dom.reset_regions()
    E = Ents(dom)
    r = random.Random(7 * d + len(m))
    subs = subsets(E.n(d), r, 16)
    letters = ['c'] if d == E.td else [LETTER[d]] + ['s'] * (d == E.td - 1)
    pairs = list(itertools.product(subs, repeat=2))
    for k, (a, b) in enumerate(r.sample(pairs, min(60, len(pairs)))):
        dom.reset_regions()
        for nm, s in (('A', a), ('B', b)):
            s = s[:]
            r.shuffle(s)
            dom.regions.append(given(W, dom, E, d, np.array(s, dtype=np.uint32), nm))
        want = sorted(OPS[op](set(a), set(b)))
        for le in letters:
            reg = dom.create_region('C%s' % le, 'r.A %s%s r.B' % (op, le), kind_of(E, d), allow_empty=True)
            consistent(W, 'result', reg, E, d, want)
            W.true('operands kept', ints(ents_of(dom.regions['A'], E, d)) == sorted(a)
                   and ints(ents_of(dom.regions['B'], E, d)) == sorted(b))
            if len(want):
                dom.create_region('D', 'r.A %s%s r.B' % (op, le), kind_of(E, d))
            else:
                W.true('empty regions are refused', W.raises(
                    ValueError, dom.create_region, 'D', 'r.A %s%s r.B' % (op, le), kind_of(E, d)))

@contract('operands of another kind', [dict(m=m) for m in ('tri', 'quad', 'tet', 'hex')])
def mixed(W, m):
    """Operators work with the entities of their letter of both operands, whatever the kinds of these are."""
    dom = felib.domain(W, m)
    E = Ents(dom)
    r = random.Random(3)
    for _ in range(12):
        da, db = r.randrange(E.td + 1), r.randrange(E.td + 1)
        lo = r.randrange(0, min(da, db) + 1)
        a, b = [sorted(r.sample(range(E.n(d)), r.randrange(1, E.n(d) + 1))) for d in (da, db)]
        dom.reset_regions()
        dom.regions.append(given(W, dom, E, da, a, 'A'))
        dom.regions.append(given(W, dom, E, db, b, 'B'))
        for op in '+-*':
            want = OPS[op](set(E.down(da, a, lo) if lo < da else a), set(E.down(db, b, lo) if lo < db else b))
            le = 'c' if lo == E.td else LETTER[lo]
            if lo == 0 or lo == da:         # otherwise the kind of the first operand does not allow the result
                reg = dom.create_region('C', 'r.A %s%s r.B' % (op, le), kind_of(E, lo), allow_empty=True)
                consistent(W, 'result', reg, E, lo, want)

def by_fun(W, dom, name, verts, kind, sel='vertices', **kw):
    seen = []
    def fun(coors, domain=None):
        seen.append((coors, domain))
        return np.array(verts, dtype=np.int64)
    reg = dom.create_region(name, '%s by pick' % sel, kind, functions={'pick': fun}, **kw)
    W.true('the function gets the coordinates and the domain', len(seen) == 1 and seen[0][1] is dom)
    return reg, seen[0][0]

@contract('regions given by vertices', [dict(m=m, d=d) for m in ('line', 'tri', 'quad', 'tet', 'hex', 'wedge1')
                                        for d in range(TDIM[m] + 1)])
def by_vertices(W, m, d):
    dom = felib.domain(W, m)
    E = Ents(dom)
    r = random.Random(len(m) + d)
    kinds = [kind_of(E, d)] + ['facet'] * (d == E.td - 1)
    for vs in subsets(E.n(0), r, 32):
        ws = vs + [r.choice(vs)] if vs else vs
        r.shuffle(ws)
        for kind in kinds:
            dom.reset_regions()
            want = E.complete(d, vs)
            reg, x = by_fun(W, dom, 'A', ws, kind, allow_empty=True)
            consistent(W, 'region', reg, E, d, want)
            W.true('vertex coordinates', x.shape == dom.cmesh.coors.shape and bool((x == dom.cmesh.coors).all()))
            W.true('kind', reg.kind == ('facet' if d == E.td - 1 else kind) and reg.kind_tdim == d)
            if not want:
                W.true('empty regions are refused', W.raises(
                    ValueError, dom.create_region, 'B', 'vertices by pick', kind,
                    functions={'pick': lambda coors, domain=None: np.array(ws, dtype=np.int64)}))

@contract('cells by function', [dict(m=m) for m in ('line', 'tri', 'quad', 'tet', 'hex', 'shell')])
def by_cells(W, m):
    if m == 'shell':
        x = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 2], [0, 1, 0], [2, 0, 0], [2, 1, 0]], dtype=np.float64)
        mesh = W.mod(felib.FEM).Mesh.from_data('s', x, None, [np.array([[0, 1, 2, 3], [1, 4, 5, 2]], dtype=np.int32)],
                                               [np.zeros(2, dtype=np.int32)], ['2_4'])
        dom = W.mod(felib.FEM).FEDomain('s', mesh)
    else:
        dom = felib.domain(W, m)
    E = Ents(dom)
    for cs in [[0], [1], [1, 0], [1, 0, 1], []]:
        dom.reset_regions()
        reg, x = by_fun(W, dom, 'A', cs, 'cell', sel='cells', allow_empty=True)
        consistent(W, 'region', reg, E, E.td, sorted(set(cs)))
        for c in range(E.n(E.td)):
            vs = sorted(E.of[E.td][c])
            for k in range(dom.shape.dim):
                W.eq('centroids', x[c, k] * len(vs), sum(dom.cmesh.coors[v, k] for v in vs))
        if cs:
            reg = dom.create_region('B', 'cell ' + ', '.join(map(str, cs)))
            consistent(W, 'cell list', reg, E, E.td, sorted(set(cs)))

@contract('relations', [dict(m=m, rel=rel) for m, rels in (
    ('line', ['x < 1.5', '0 <= x', '(x > 0.5) & (x != 3)', '(x == 1) | (x >= 2.5e0)']),
    ('tri', ['x < y', '(x > 0.5) & (y <= 0.25)', '((x > 0.5) | (y > -1e-1)) & (x <= y)', '(x <= 0.5) | (y == 1)']),
    ('tet', ['(x < 0.5) & (y < z)', '(z >= 0.5) | (x > 0.75)'])) for rel in rels])
def relations(W, m, rel):
    dom = felib.domain(W, m)
    n = dom.shape.n_nod
    x = felib.coors(W, m)
    ns = 2 if len(rel) > 30 or m == 'tet' else n     # vertices with any coordinates
    x[:ns] = W.reals('x', ns, dom.shape.dim)
    felib.move(W, dom, x)
    reg = dom.create_region('A', 'vertices in ' + ('(%s)' % rel if rel[0] != '(' else rel), 'vertex', allow_empty=True)
    vs = ints(reg.vertices)
    W.true('sorted, unique', vs == sorted(set(vs)))
    F = W.frac
    def ev(i):
        e = dict(x=x[i, 0], y=x[i, 1] if x.shape[1] > 1 else None, z=x[i, 2] if x.shape[1] > 2 else None)
        X, Y, Z = e['x'], e['y'], e['z']
        return {
            'x < 1.5': lambda: X < F(3, 2), '0 <= x': lambda: X >= 0,
            '(x > 0.5) & (x != 3)': lambda: bool(X > F(1, 2)) and bool(X != 3),
            '(x == 1) | (x >= 2.5e0)': lambda: bool(X == 1) or bool(X >= F(5, 2)),
            'x < y': lambda: X < Y, '(x > 0.5) & (y <= 0.25)': lambda: bool(X > F(1, 2)) and bool(Y <= F(1, 4)),
            '((x > 0.5) | (y > -1e-1)) & (x <= y)':
                lambda: (bool(X > F(1, 2)) or bool(Y > (F(-1, 10) if not W.symbolic else W.num(-1e-1))))
                and bool(X <= Y),
            '(x <= 0.5) | (y == 1)': lambda: bool(X <= F(1, 2)) or bool(Y == 1),
            '(x < 0.5) & (y < z)': lambda: bool(X < F(1, 2)) and bool(Y < Z),
            '(z >= 0.5) | (x > 0.75)': lambda: bool(Z >= F(1, 2)) or bool(X > F(3, 4))}[rel]()
    for i in range(n):
        W.true('vertex %d' % i, bool(ev(i)) == (i in vs))

@contract('facet indices', [dict(m=m, parent=p) for m in ('line', 'tri', 'quad', 'tet', 'hex', 'wedge1')
                            for p in (None, 0, 1) if not (m == 'wedge1' and p == 1)])
def facet_indices(W, m, parent):
    """Pairs (cell, local facet) of all cells of the parent (or mesh) with each facet, in the order of facets."""
    dom = felib.domain(W, m)
    E = Ents(dom)
    r = random.Random(5)
    nf, nc = E.n(E.td - 1), E.n(E.td)
    conn = dom.get_conn()
    gel = list(dom.geom_els.values())[0]
    loc = [[0], [1]] if E.td == 1 else gel.edges.tolist() if E.td == 2 \
        else None if isinstance(gel.faces, dict) else gel.faces.tolist()
    for fs in subsets(nf, r, 20):
        dom.reset_regions()
        pcells = list(range(nc))
        if parent is not None:
            pcells = [parent]
            dom.regions.append(given(W, dom, E, E.td, pcells, 'P'))
        reg = W.mod(RG).Region.from_facets(np.array(fs, dtype=np.uint32), dom, name='F',
                                           parent=None if parent is None else 'P')
        fis = reg.get_facet_indices()
        want = [(c, f) for f in fs for c in pcells if E.of[E.td - 1][f] <= E.of[E.td][c]]
        W.true('cells and facets in order', len(fis) == len(want)
               and sorted(ints(fis[:, 0])) == sorted(c for c, f in want))
        pos, ok = 0, True
        for f in fs:
            cs = [c for c, g in want if g == f]
            for c, l in fis[pos:pos + len(cs)]:
                c, l = int(c), int(l)
                ok = ok and c in cs
                cs = [k for k in cs if k != c]
                if loc is not None:
                    ok = ok and frozenset(int(conn[c][i]) for i in loc[l]) == E.of[E.td - 1][f]
                else:
                    ok = ok and 0 <= l < gel.n_face
                pos += 1
        W.true('each pair is the facet', ok)
        W.true('cells of facets', ints(reg.get_cells(true_cells_only=False)) == ints(fis[:, 0]))
        W.true('no true cells', W.raises(ValueError, reg.get_cells))

@contract('region queries', [dict(m=m) for m in ('line', 'tri', 'quad', 'tet', 'hex')])
def queries(W, m):
    dom = felib.domain(W, m)
    E = Ents(dom)
    r = random.Random(11)
    M = W.mod(RG)
    for _ in range(25):
        da, db = r.randrange(E.td + 1), r.randrange(E.td + 1)
        a = sorted(r.sample(range(E.n(da)), r.randrange(1, E.n(da) + 1)))
        b = sorted(r.sample(range(E.n(db)), r.randrange(1, E.n(db) + 1)))
        dom.reset_regions()
        A, B = given(W, dom, E, da, a, 'A'), given(W, dom, E, db, b, 'B')
        va, vb = [set(E.down(d, s, 0) if d else s) for d, s in ((da, a), (db, b))]
        W.true('disjoint', bool(M.are_disjoint(A, B)) == (not (va & vb)))
        low = set(E.down(da, a, db)) if db < da else set(a) if db == da else set()
        W.true('contains', bool(A.contains(B)) == (set(b) <= low))
        for reg, d, s, v in ((A, da, a, va), (B, db, b, vb)):
            x = reg.get_charfun()
            W.true('characteristic function', len(x) == E.n(0) and all((x[i] == 1) == (i in v) for i in range(E.n(0)))
                   and all(x[i] == 0 for i in range(E.n(0)) if i not in v))
            x = reg.get_charfun(val_by_id=True)
            W.true('with ids', all(x[i] == (i + 1 if i in v else 0) for i in range(E.n(0))))
            cs = s if d == E.td else []
            x = reg.get_charfun(by_cell=True)
            W.true('cells', len(x) == E.n(E.td) and all(x[i] == (1 if i in cs else 0) for i in range(E.n(E.td))))
            x = reg.get_charfun(by_cell=True, val_by_id=True)
            W.true('cells with ids', all(x[i] == (i + 1 if i in cs else 0) for i in range(E.n(E.td))))
            W.true('has cells', bool(reg.has_cells()) == bool(cs))
            reg.update_shape()
            W.true('numbers of cells', reg.get_n_cells() == len(cs)
                   and reg.get_n_cells(True) == len(s if d == E.td - 1 else E.down(d, s, E.td - 1) if d == E.td else []))
            for k in range(E.td + 2):
                want = s if k == d else E.down(d, s, k) if k < d else []
                W.true('entities', ints(reg.get_entities(k)) == want)
            c = reg.copy()
            W.true('copy', c is not reg and c.kind == reg.kind and ints(ents_of(c, E, d)) == s)
            if d == E.td:
                W.true('cells of the region', ints(reg.get_cells()) == s)
                pick = np.array([r.choice(s) for _ in range(4)])
                ii = reg.get_cell_indices(pick)
                W.true('cell indices', [s[int(i)] for i in ii] == ints(pick))
                other = [c for c in range(E.n(d)) if c not in s]
                if other:
                    W.true('unknown cells', W.raises(ValueError, reg.get_cell_indices, np.array(other + s)))
            if E.td > 1 and d >= 1:
                es = s if d == 1 else E.down(d, s, 1)
                g = reg.get_edge_graph().toarray()
                want = {}
                for e in es:
                    i, j = sorted(E.of[1][e])
                    want[i, j] = want[j, i] = e + 1
                W.true('edge graph', g.shape == (max(v) + 1,) * 2 and all(
                    g[i, j] == want.get((i, j), 0) for i in range(g.shape[0]) for j in range(g.shape[1])))

@contract('entities of one dimension only', [dict(m=m) for m in ('tri', 'tet', 'hex')])
def only(W, m):
    dom = felib.domain(W, m)
    E = Ents(dom)
    R = W.mod(RG).Region
    for d in range(E.td + 1):
        kind = kind_of(E, d) + '_only'
        s = list(range(0, E.n(d), 2))
        reg = R('A', 'given', dom, '', kind=kind)
        setattr(reg, {0: 'vertices', 1: 'edges', 2: 'faces'}.get(d, 'cells') if d < E.td else 'cells', s[::-1])
        for k in range(E.td + 1):
            W.true('dimension %d' % k, ints(reg.get_entities(k)) == (s if k == d else []))
        if d == E.td:
            W.true('cells', ints(reg.get_cells()) == s and ints(reg.get_cells(False)) == s)
        for k in range(E.td + 1):
            if k != d:
                nm = {0: 'vertices', 1: 'edges', 2: 'faces'}[k] if k < E.td else 'cells'
                W.true('others cannot be set', W.raises(ValueError, setattr, reg, nm, [0]))

@contract('surface and groups', [dict(m=m) for m in ('line', 'tri', 'quad', 'tet', 'hex')])
def surface(W, m):
    conn = felib.MESHES[m][1]
    dom = felib.domain(W, m, groups=[3, 7], nodes=np.arange(len(felib.MESHES[m][0])) % 3)
    E = Ents(dom)
    reg = dom.create_region('S', 'vertices of surface', 'facet')
    count = [sum(v <= c for c in E.of[E.td]) for v in E.of[E.td - 1]]
    consistent(W, 'surface', reg, E, E.td - 1, [i for i, c in enumerate(count) if c == 1])
    for k, g in enumerate((3, 7)):
        reg = dom.create_region('G', 'cells of group %d' % g)
        consistent(W, 'group', reg, E, E.td, [k])
    W.true('unknown group', W.raises(ValueError, dom.create_region, 'G', 'cells of group 5'))
    for g in range(3):
        reg = dom.create_region('V', 'vertices of group %d' % g, 'vertex')
        consistent(W, 'vertex group', reg, E, 0, [i for i in range(E.n(0)) if i % 3 == g])
    dom.vertex_set_bcs = {'set0': np.array([2, 0]), '4': np.array([1])}
    consistent(W, 'set', dom.create_region('V', 'vertices of set set0', 'vertex'), E, 0, [0, 2])
    consistent(W, 'set', dom.create_region('V', 'vertices of set 4', 'vertex'), E, 0, [1])
    W.true('unknown set', W.raises(ValueError, dom.create_region, 'V', 'vertices of set none', 'vertex'))
    consistent(W, 'all', dom.create_region('O', 'all'), E, E.td, range(E.n(E.td)))
    consistent(W, 'ids', dom.create_region('I', 'vertex 2, 0, 2', 'vertex'), E, 0, [0, 2])
    reg = dom.create_region('one', 'vertex in r.I', 'vertex')
    W.true('one vertex of a region', len(reg.vertices) == 1 and int(reg.vertices[0]) in (0, 2))
    W.true('unknown region', W.raises(ValueError, dom.create_region, 'x', 'r.unknown')
           and W.raises(ValueError, dom.create_region, 'x', 'r.I *v r.unknown', 'vertex'))

@contract('references', [dict(m='tri', sel=s) for s in ('r.A', 'copy r.A', '(r.A)', '(copy r.A)')])
def references(W, m, sel):
    """A region defined by a reference has the same entities, the referenced region stays as it is."""
    dom = felib.domain(W, m)
    E = Ents(dom)
    a = dom.create_region('A', 'cell 0')
    b = dom.create_region('B', sel)
    W.true('both are available', dom.regions['A'] is a and a.name == 'A' and dom.regions['B'] is b and b is not a)
    consistent(W, 'reference', b, E, E.td, [0])
    b.cells = [1]
    b.finalize()
    consistent(W, 'referenced', a, E, E.td, [0])
    c = dom.create_region('C', '%s +c cell 1' % sel)
    consistent(W, 'referenced', a, E, E.td, [0])
    consistent(W, 'union', c, E, E.td, [0, 1])

def tree(r, depth):
    if depth == 0 or r.random() < 0.2:
        return r.sample(range(6), r.randrange(1, 5))
    return (r.choice('+-*'), tree(r, depth - 1), tree(r, depth - 1))

def value(t):
    return set(t) if isinstance(t, list) else OPS[t[0]](value(t[1]), value(t[2]))

def text(r, t, top=True, right=False):
    if isinstance(t, list):
        return 'vertex ' + ', '.join(map(str, t))
    a = text(r, t[1], False)
    b = text(r, t[2], right)
    if not isinstance(t[1], list):
        a = '(' + a + ')'
    if not isinstance(t[2], list) and not right:
        b = '(' + b + ')'
    return '%s %sv %s' % (a, t[0], b)

@contract('expressions', [dict(seed=s, right=q) for s in range(10) for q in (False, True)])
def expressions(W, seed, right):
    """Parentheses are respected; without them the operators group from the right."""
    dom = felib.domain(W, 'quad')
    E = Ents(dom)
    r = random.Random(seed)
    for _ in range(12):
        t = tree(r, 3)
        dom.reset_regions()
        sel = text(r, t, right=right)
        reg = dom.create_region('A', sel, 'vertex', allow_empty=True)
        W.true('expression', ints(reg.vertices) == sorted(value(t)))

# ------------------------------------------------------------ order of evaluation
def graphs(n):
    names = 'abcd'[:n]
    subs = [s for k in range(n + 1) for s in itertools.combinations(names, k)]
    return names, itertools.product(subs, repeat=n)

def acyclic(deps):
    done = set()
    while True:
        new = {k for k, v in deps.items() if k not in done and set(v) <= done}
        if not new:
            return len(done) == len(deps)
        done |= new

@contract('sort_by_dependency', [dict(n=n) for n in (1, 2, 3)] + [dict(n=n) for n in (5, 6)])
def sorting(W, n):
    """All graphs of up to three regions, random larger ones."""
    fn = W.mod(RG).sort_by_dependency
    if n <= 3:
        names, gs = graphs(n)
        gs = [dict(zip(names, g)) for g in gs]
    else:
        r, names = random.Random(n), 'abcdef'[:n]
        gs = [{k: [r.choice(names) for _ in range(r.choice((0, 0, 1, 1, 2)))] for k in r.sample(names, n)}
              for _ in range(200)]
        order = list(names)
        for _ in range(100):
            r.shuffle(order)
            g = {k: [r.choice(order[:i]) for _ in range(r.randrange(3))] if i else [] for i, k in enumerate(order)}
            gs.append({k: g[k] for k in r.sample(names, n)})
    ok = okc = True
    for g in gs:
        graph = {k: [0] + list(v) for k, v in g.items()}
        if acyclic(g):
            out = fn(graph)
            ok = ok and sorted(out) == sorted(g) and all(out.index(d) < out.index(k) for k in g for d in g[k])
        else:
            okc = okc and W.raises(ValueError, fn, graph)
    W.true('dependencies first', ok)
    W.true('circular dependencies are refused', okc)
    W.true('missing dependencies are refused', W.raises(ValueError, fn, {'a': [0, 'x'], 'b': [0]}))

@contract('region definitions', [dict(seed=s) for s in range(8)])
def definitions(W, seed):
    """create_regions() evaluates the definitions in the order of their dependencies."""
    r = random.Random(seed)
    dom = felib.domain(W, 'quad')
    E = Ents(dom)
    St = W.mod('sfepy.base.base').Struct
    vals, defs = {}, []
    for i in range(5):
        name = r.choice(['R%d', 'R-%d', 'R.%d_x', 'R_%dR_']) % i
        t = tree(r, 1)
        leaves = [k for k in vals]
        if leaves:
            p = r.choice(leaves)
            op = r.choice('+-*')
            q = r.choice(leaves)
            op2 = r.choice('+-*')
            sel = 'r.%s %sv (%s %sv r.%s)' % (p, op, text(r, t) if isinstance(t, list) else '(' + text(r, t) + ')', op2, q)
            v = OPS[op](vals[p], OPS[op2](value(t), vals[q]))
        else:
            sel, v = text(r, t), value(t)
        vals[name] = v
        defs.append((name, sel))
    r.shuffle(defs)
    conf = {'region_%d' % k: St(name=n, select=s, kind='vertex') for k, (n, s) in enumerate(defs)}
    regs = dom.create_regions(conf, allow_empty=True)
    W.true('all regions', sorted(x.name for x in regs) == sorted(vals))
    for n, v in vals.items():
        W.true('region', ints(dom.regions[n].vertices) == sorted(v))
    G = W.mod(RG).get_dependency_graph
    g, names = G(conf)
    W.true('graph', set(g) == set(vals) and all(
        g[n][0] == 0 and sorted(g[n][1:]) == sorted(W.mod(RG).get_parents(s)) for n, s in defs)
        and all(conf[names[n]].name == n for n in vals))
    conf['again'] = St(name=defs[0][0], select='all')
    W.true('repeated names are refused', W.raises(ValueError, G, conf))
    g, names = G({'a': St(name='A', select='vertex 0', parent='B'), 'b': St(name='B', select='all')})
    W.true('parents are dependencies', g['A'] == [0, 'B'] and g['B'] == [0])

@contract('parents', [dict(k=k) for k in range(3)])
def parents(W, k):
    """Regions with a parent get only facets of the parent's cells in facet indices, also through definitions."""
    dom = felib.domain(W, 'quad')
    E = Ents(dom)
    St = W.mod('sfepy.base.base').Struct
    conf = {'1': St(name='F', select='vertices in (x > 1.5) *v vertices in (x < 2.5)', kind='facet', parent='P'),
            '2': St(name='P', select='cell %d' % (k % 2))}
    if k == 2:
        conf['1'].parent = None
    regs = dom.create_regions(conf)
    fis = dom.regions['F'].get_facet_indices()
    want = [[0], [1], [0, 1]][k]
    W.true('cells', sorted(ints(fis[:, 0])) == want and dom.regions['F'].parent == (None if k == 2 else 'P'))

@contract('mirror regions', [dict(m=m, axis=ax, explicit=e) for m, ax in (('quad', 0), ('quad', 1), ('hex', 0),
                                                                          ('hex', 1), ('hex', 2)) for e in (0, 1)])
def mirror(W, m, axis, explicit):
    """Facets of a mirror region are paired with the facets shifted by the distance of the two regions."""
    dom = felib.domain(W, m)
    E = Ents(dom)
    hi = max(row[axis] for row in felib.MESHES[m][0])
    lo = 'xyz'[axis]
    opts = [{'mirror_region': 'B'}, None] if explicit else [None, None]
    a = dom.create_region('A', 'vertices in (%s < 0.01)' % lo, 'facet', extra_options=opts[0])
    b = dom.create_region('B', 'vertices in (%s > %s)' % (lo, hi - 0.01), 'facet')
    if explicit:
        W.true('name', a.setup_mirror_region(ret_name=True) == 'B')
    else:
        a.setup_mirror_region('B')
    W.true('regions', a.get_mirror_region('B') is b and b.get_mirror_region('A') is a)
    x = np.array([[float(c) for c in row] for row in felib.MESHES[m][0]])
    cen = lambda reg, i: x[sorted(E.of[E.td - 1][int(reg.facets[i])])].mean(0)
    sh = np.eye(x.shape[1])[axis] * hi
    mm, mi = a.mirror_maps['B'], b.mirror_maps['A']
    n = len(a.facets)
    W.true('maps', len(mm) == len(mi) == n
           and all(np.allclose(cen(b, i), cen(a, int(mm[i])) + sh) for i in range(n))
           and all(np.allclose(cen(a, i) + sh, cen(b, int(mi[i]))) for i in range(n)))
    c = dom.create_region('C', 'vertices in (%s < 0.01) *v vertex 0' % lo, 'vertex')
    W.true('incompatible regions', W.raises(ValueError, c.setup_mirror_region, 'B'))

@contract('groups of more dimensions')
def groups(W):
    """Cells of a group are taken from the mesh of the requested dimension."""
    x = np.array([[0, 0], [1, 0], [1, 1], [0, 1]], dtype=np.float64)
    for g1 in (1, 5):
        mesh = W.mod(felib.FEM).Mesh.from_data(
            'm', x, None, [np.array([[0, 1, 2], [0, 2, 3]], dtype=np.int32), np.array([[0, 1], [2, 3]], dtype=np.int32)],
            [np.array([1, 2], dtype=np.int32), np.array([g1, 6], dtype=np.int32)], ['2_3', '1_2'])
        dom = W.mod(felib.FEM).FEDomain('d', mesh)
        r = dom.create_region('A', 'cells of group 1')
        W.true('cells', r.tdim == 2 and ints(r.cells) == [0])
        r = dom.create_region('A1', 'cells of group 1', extra_options={'cell_tdim': 2})
        W.true('cells', r.tdim == 2 and ints(r.cells) == [0])
        r = dom.create_region('B', 'cells of group %d' % g1, extra_options={'cell_tdim': 1})
        W.true('lines', r.tdim == 1 and ints(r.cells) == [0] and ints(r.vertices) == [0, 1])
        r = dom.create_region('C', 'cells of group 6')
        W.true('lines', r.tdim == 1 and ints(r.cells) == [1] and ints(r.vertices) == [2, 3])

# ------------------------------------------------------------ blocks of equations
def blocks(deps):
    def rec(rest, known):
        if not rest:
            return []
        for k in range(1, len(rest) + 1):
            for B in itertools.combinations(sorted(rest), k):
                if set().union(*[deps[b] for b in B]) - known == set(B):
                    q = rec(rest - set(B), known | set(B))
                    if q is not None:
                        return [list(B)] + q
        return None
    return rec(frozenset(deps), frozenset())

@contract('resolve', [dict(n=n) for n in (1, 2, 3, 4)])
def resolving(W, n):
    """All dependencies of up to three names (random ones of four) that can be solved by blocks."""
    fn = W.mod(RD).resolve
    names, gs = graphs(n)
    gs = list(gs)
    if n == 4:
        gs = random.Random(1).sample(gs, 600)
    ok, num = True, 0
    for g in gs:
        deps = {k: set(v) for k, v in zip(names, g)}
        if blocks(deps) is None:
            continue
        num += 1
        out = fn({k: set(v) for k, v in deps.items()})
        known = set()
        ok = ok and sorted(itertools.chain(*out)) == sorted(deps)
        for B in out:
            need = set().union(*[deps[b] for b in B]) - known
            rest = set(deps) - known
            small = any(set().union(*[deps[b] for b in C]) - known == set(C)
                        for k in range(1, len(B)) for C in itertools.combinations(sorted(rest), k))
            ok = ok and need == set(B) and not small
            known |= set(B)
    W.true('each block needs only itself and the previous blocks, smallest blocks first', ok)
    W.true('some are solvable', num > 0)
    W.true('nothing to do', fn({}) == [])

if __name__ == '__main__':
    main(S)
