"""Mesh connectivities (cmesh.pyx, mesh.c)."""
import itertools, random
import numpy as np
from engine.vc import Suite, main
from checks import felib

GE, CM = 'sfepy.discrete.fem.geometry_element', 'sfepy.discrete.common.extmods.cmesh'
S = Suite('C11', 'mesh connectivities', level='exploration', assumptions=[
    'meshes are enumerated and seeded random conforming ones of all element types, with random vertex numbering; '
    'coordinates in the orientation contract are symbolic'])
felib.use(S, GE, CM)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

# vertex pairs compared by the orientation keys
PAIRS = {2: [(0, 1)], 3: [(0, 1), (0, 2), (1, 2)], 4: [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)]}

# ------------------------------------------------------------ meshes
def block(kind, n, seed):
    """Conforming meshes of a block: vertices, [(element type, cells)]."""
    r = random.Random(seed)
    if kind == 'line':
        return [[i] for i in range(n[0] + 1)], [('1_2', [[i, i + 1] for i in range(n[0])])]
    if kind in ('tri', 'quad', 'triquad'):
        nx, ny = n
        x = [[i, j] for i in range(nx + 1) for j in range(ny + 1)]
        idx = lambda i, j: i * (ny + 1) + j
        q = [[idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)] for i in range(nx) for j in range(ny)]
        if kind == 'quad':
            return x, [('2_4', q)]
        t = [c for k, a in enumerate(q) for c in (([a[0], a[1], a[2]], [a[0], a[2], a[3]]) if (k + seed) % 2
                                                   else ([a[0], a[1], a[3]], [a[1], a[2], a[3]]))]
        if kind == 'tri':
            return x, [('2_3', t)]
        k = len(q) // 2
        return x, [('2_4', q[:k]), ('2_3', t[2 * k:])]
    if kind == 'wedgetet':    # a wedge between two tetrahedra
        x = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1], [0, 0, 2], [0, 0, -1]]
        a, b = ('3_6', [rot([0, 1, 2, 3, 4, 5], seed)]), ('3_4', [[3, 4, 5, 6], [1, 0, 2, 7]])
        return x, [a, b] if seed % 2 else [b, a]
    nx, ny, nz = n
    x = [[i, j, k] for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    idx = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    h = [[idx(i, j, k), idx(i + 1, j, k), idx(i + 1, j + 1, k), idx(i, j + 1, k),
          idx(i, j, k + 1), idx(i + 1, j, k + 1), idx(i + 1, j + 1, k + 1), idx(i, j + 1, k + 1)]
         for i in range(nx) for j in range(ny) for k in range(nz)]
    if kind == 'hex':
        return x, [('3_8', h)]
    w = [c for a in h for c in ([a[0], a[1], a[3], a[4], a[5], a[7]], [a[1], a[2], a[3], a[5], a[6], a[7]])]
    if kind == 'wedge':
        return x, [('3_6', [rot(c, r.randrange(3)) for c in w])]
    if kind == 'tet':         # Kuhn subdivision
        t = []
        for i in range(nx):
            for j in range(ny):
                for k in range(nz):
                    for p in itertools.permutations(range(3)):
                        c = [i, j, k]
                        ch = [idx(*c)]
                        for ax in p:
                            c[ax] += 1
                            ch.append(idx(*c))
                        t.append(ch)
        return x, [('3_4', t)]
    if kind == 'wedgehex':    # wedges below, hexahedra above
        return x, [('3_6', [c for a in h[:len(h) // 2] for c in ([a[0], a[1], a[5], a[3], a[2], a[6]],
                                                                 [a[0], a[5], a[4], a[3], a[6], a[7]])]),
                   ('3_8', h[len(h) // 2:])]
    raise ValueError(kind)

def rot(c, k):
    return [c[(i + k) % 3] for i in range(3)] + [c[3 + (i + k) % 3] for i in range(3)]

class Oracle:
    """Entities as vertex sets, from the cells and the local entities of the geometry elements."""
    def __init__(self, W, parts):
        gels = W.mod(GE).create_geometry_elements()
        self.cells = [(et, c) for et, cs in parts for c in cs]
        self.td = td = max(int(et[0]) for et, _ in parts)
        self.wedges = any(et == '3_6' for et, _ in self.cells)
        self.local = {1: lambda g: [list(map(int, e)) for e in g.edges],
                      2: lambda g: [list(map(int, e)) for e in g.faces]}
        self.sub = {}
        for d in range(1, td):
            self.sub[d] = [[frozenset(c[i] for i in e) for e in self.local[d](gels[et])] for et, c in self.cells]
        self.sets = {d: set(itertools.chain(*s)) for d, s in self.sub.items()}
        self.loc_nodes = {d: [[[c[i] for i in e] for e in self.local[d](gels[et])] for et, c in self.cells]
                          for d in range(1, td)}

def make(W, kind, n, seed):
    x, parts = block(kind, n, seed)
    r = random.Random(100 + seed)
    p = list(range(len(x)))
    if seed:
        r.shuffle(p)
    xx = [None] * len(x)
    for i, k in enumerate(p):
        xx[k] = x[i]
    parts = [(et, [[p[i] for i in c] for c in cs]) for et, cs in parts]
    if seed:
        for _, cs in parts:
            r.shuffle(cs)
    C = W.mod(CM).CMesh
    cm = C.from_data(np.array(xx, dtype=np.float64), np.array([3 * i for i in range(len(x))], dtype=np.int32),
                     [np.array(cs, dtype=np.int32) for _, cs in parts],
                     np.array([10 + i for i in range(sum(len(c) for _, c in parts))], dtype=np.int32),
                     [et for et, _ in parts])
    cm.set_local_entities(W.mod(GE).create_geometry_elements())
    return cm, Oracle(W, parts), parts, xx

def rows(cn):
    off, ind = [int(i) for i in cn.offsets], [int(i) for i in cn.indices]
    return [ind[a:b] for a, b in zip(off[:-1], off[1:])]

KINDS = [('line', (3,)), ('tri', (2, 2)), ('quad', (2, 2)), ('triquad', (2, 2)), ('tet', (2, 1, 1)), ('hex', (2, 2, 1)),
         ('wedge', (1, 1, 2)), ('wedge', (2, 1, 1)), ('wedgehex', (2, 1, 1)), ('wedgetet', (0,)), ('tri', (1, 1)),
         ('quad', (1, 1)), ('hex', (1, 1, 1)), ('tet', (1, 1, 1))]

def exact(W, cm, o, nv):
    """All incidence relations."""
    td = o.td
    V = {0: [frozenset([i]) for i in range(nv)]}
    for d in range(1, td + 1):
        cm.setup_connectivity(d, 0)
        rr = rows(cm.get_conn(d, 0))
        V[d] = [frozenset(q) for q in rr]
        if d < td:
            W.true('each entity once %d' % d, len(V[d]) == len(o.sets[d]) and set(V[d]) == o.sets[d])
            W.true('number %d' % d, int(cm.num[d]) == len(V[d]))
        else:
            W.true('cells', rr == [c for _, c in o.cells] and int(cm.num[d]) == len(rr))
    W.true('number of vertices', int(cm.num[0]) == nv)
    pairs = list(itertools.product(range(td + 1), repeat=2))
    for d1, d2 in pairs:
        cm.setup_connectivity(d1, d2)
        rr = rows(cm.get_conn(d1, d2))
        W.true('size %d %d' % (d1, d2), len(rr) == len(V[d1]))
        if d2 == 0 and d1 > 0:
            continue
        if d1 == td and 0 < d2 < td:
            W.true('local order %d %d' % (d1, d2), all([V[d2][e] for e in q] == s for q, s in zip(rr, o.sub[d2])))
            continue
        ok = True
        for e, q in enumerate(rr):
            if d1 > d2:
                want = {k for k, v in enumerate(V[d2]) if v <= V[d1][e]}
            elif d1 < d2:
                want = {k for k, v in enumerate(V[d2]) if V[d1][e] <= v}
            elif d1 > 0:
                want = {k for k, v in enumerate(V[d2]) if (v & V[d1][e]) and k != e}
            else:
                want = {k for c in V[td] if e in c for k in c if k != e}
            # Triangular faces of wedges repeat a vertex.
            ok = ok and set(q) == want and (len(q) == len(want) or o.wedges and (d1, d2) == (0, 2))
        W.true('incidence %d %d' % (d1, d2), ok)
    return V

@contract('incidence', [dict(k=k, seed=s) for k in range(len(KINDS)) for s in (0, 1, 2)])
def incidence(W, k, seed):
    kind, n = KINDS[k]
    cm, o, parts, x = make(W, kind, n, seed)
    nv = len(x)
    r = random.Random(seed)
    if seed:                # in any order of requests
        ps = list(itertools.product(range(o.td + 1), repeat=2))
        r.shuffle(ps)
        for d1, d2 in ps[:seed * 2]:
            cm.setup_connectivity(d1, d2)
    V = exact(W, cm, o, nv)
    if seed:                # again after releasing some
        for d1, d2 in ps:
            if (d1, d2) != (o.td, 0) and r.random() < 0.5:
                cm.free_connectivity(d1, d2)
                if r.random() < 0.5:
                    cm.setup_connectivity(d1, d2)
        V2 = exact(W, cm, o, nv)
        W.true('the same after release', V2 == V)
    cm.setup_entities()
    for d in range(1, o.td):
        oris = [int(i) for i in cm.get_orientations(d)]
        want = []
        for c in o.loc_nodes[d]:
            for e in c:
                want.append(sum(2 ** i for i, (a, b) in enumerate(PAIRS[len(e)]) if e[a] < e[b]))
        W.true('orientation keys %d' % d, oris == want)
    if o.td > 1:
        W.true('facets', list(map(int, cm.facet_oris)) == list(map(int, cm.get_orientations(0, codim=1))))
    fs = [int(i) for i in cm.get_surface_facets()]
    W.true('surface', fs == [i for i, v in enumerate(V[o.td - 1]) if sum(v <= c for c in V[o.td]) == 1])
    for d1, d2 in itertools.product(range(o.td + 1), repeat=2):
        if d1 == d2 == 0:
            continue
        g = cm.get_conn_as_graph(d1, d2)
        rr = rows(cm.get_conn(d1, d2))
        W.true('graph', [int(i) for i in g.indices] == list(itertools.chain(*rr))
               and [int(i) for i in g.indptr] == list(itertools.accumulate([0] + [len(q) for q in rr])))

@contract('orientation keys', [dict(m=m) for m in ('tet1', 'hex1', 'wedge1')])
def keys(W, m):
    """The order of vertices of the local edges and faces, for all (24 of a tetrahedron) or random numberings."""
    et = felib.MESHES[m][2]
    nv = len(felib.MESHES[m][0])
    r = random.Random(nv)
    perms = list(itertools.permutations(range(4))) if nv == 4 else [r.sample(range(nv), nv) for _ in range(40)]
    gels = W.mod(GE).create_geometry_elements()
    for p in perms:
        cm = W.mod(CM).CMesh.from_data(np.zeros((nv, 3)), np.zeros(nv, dtype=np.int32), [np.array([p], dtype=np.int32)],
                                       np.zeros(1, dtype=np.int32), [et])
        cm.set_local_entities(gels)
        cm.setup_entities()
        for d, ents in ((1, gels[et].edges), (2, gels[et].faces)):
            want = [sum(2 ** i for i, (a, b) in enumerate(PAIRS[len(e)]) if p[e[a]] < p[e[b]]) for e in ents]
            W.true('keys %d' % d, [int(i) for i in cm.get_orientations(d)] == want)

@contract('selections', [dict(k=k, seed=s) for k in range(len(KINDS)) for s in (0, 1)])
def selections(W, k, seed):
    """Incident entities, their local numbers and complete entities of any selection."""
    kind, n = KINDS[k]
    cm, o, parts, x = make(W, kind, n, seed)
    td = o.td
    r = random.Random(seed)
    for d1, d2 in itertools.product(range(td + 1), repeat=2):
        cm.setup_connectivity(d1, d2)
    conn = {(a, b): rows(cm.get_conn(a, b)) for a, b in itertools.product(range(td + 1), repeat=2)}
    for d1, d2 in itertools.product(range(td + 1), repeat=2):
        nn = len(conn[d1, d2])
        for m in {0, 1, nn // 2, nn}:
            s = r.sample(range(nn), m)
            arr = np.array(s, dtype=np.uint32)
            want = [conn[d1, d2][e] for e in s]
            W.true('incident', [int(i) for i in cm.get_incident(d2, arr, d1)] == list(itertools.chain(*want)))
            ind, off = cm.get_incident(d2, arr, d1, ret_offsets=True)
            W.true('incident', [int(i) for i in ind] == list(itertools.chain(*want)))
            if s:
                W.true('offsets', [int(i) for i in off] == list(itertools.accumulate([0] + [len(q) for q in want])))
            loc = cm.get_local_ids(arr, d1, ind, off, d2)
            if d1 != d2:
                flat = [(e, i) for e, q in zip(s, want) for i in q]
                W.true('local numbers', len(loc) == len(flat)
                       and all(conn[d2, d1][i][int(l)] == e for (e, i), l in zip(flat, loc)))
            comp = [e for e in range(len(conn[d2, d1])) if set(conn[d2, d1][e]) <= set(s)]
            W.true('complete', [int(i) for i in cm.get_complete(d2, arr, d1)] == (comp if s else []))

@contract('submeshes', [dict(k=k, seed=s) for k in range(len(KINDS)) for s in (0, 1)])
def submeshes(W, k, seed):
    kind, n = KINDS[k]
    cm, o, parts, x = make(W, kind, n, seed)
    td = o.td
    r = random.Random(seed)
    gels = W.mod(GE).create_geometry_elements()
    key = {v: kk for kk, v in cm.key_to_index.items()}
    c2 = cm.create_new()
    W.true('copy', rows(c2.get_cell_conn()) == [c for _, c in o.cells]
           and [key[int(i)] for i in c2.cell_types] == [et for et, _ in o.cells]
           and bool((c2.coors == cm.coors).all()) and [int(i) for i in c2.cell_groups] == [10 + i for i in range(c2.n_el)]
           and [int(i) for i in c2.vertex_groups] == [3 * i for i in range(len(x))])
    c2.coors[0, 0] += 1
    W.true('a copy', not (c2.coors == cm.coors).all())
    c2.set_local_entities(gels)
    exact(W, c2, o, len(x))
    for d in range(1, td + 1):
        cm.setup_connectivity(d, 0)
        rr = rows(cm.get_conn(d, 0))
        if kind.startswith('wedge') and d == 2:
            continue            # degenerate quadrilaterals
        for m in {1, (len(rr) + 1) // 2, len(rr)}:
            s = sorted(r.sample(range(len(rr)), m))
            for localize in (False, True):
                c3 = cm.create_new(np.array(s, dtype=np.uint32), d, localize=localize)
                want = [rr[e] for e in s]
                if localize:
                    vs = sorted(set(itertools.chain(*want)))
                    want = [[vs.index(i) for i in q] for q in want]
                else:
                    vs = list(range(len(x)))
                W.true('cells', rows(c3.get_cell_conn()) == want and c3.n_el == m and c3.tdim == d)
                W.true('vertices', c3.n_coor == len(vs) and c3.coors.shape == (len(vs), cm.dim)
                       and all(float(c3.coors[i, j]) == x[v][j] for i, v in enumerate(vs) for j in range(cm.dim))
                       and [int(i) for i in c3.vertex_groups] == [3 * v for v in vs])
                types = [key[int(i)] for i in c3.cell_types]
                W.true('types and groups', types == ([o.cells[e][0] for e in s] if d == td else
                                                     [{2: '1_2', 3: '2_3', 4: '2_4'}[len(q)] for q in want])
                       and [int(i) for i in c3.cell_groups] == ([10 + e for e in s] if d == td else [0] * m))
                c3.set_local_entities(gels)
                exact(W, c3, Oracle(W, [(t, [q]) for t, q in zip(types, want)]), len(vs))

# ------------------------------------------------------------ orientation of elements
@contract('orientation', [dict(m=m) for m in ('line', 'tri1', 'tet1', 'quad1', 'hex1')])
def orientation(W, m):
    """Cells with a negative volume get reversed, others are kept, for any coordinates."""
    conn0 = felib.MESHES[m][1]
    x = felib.coors(W, m)
    dim = x.shape[1]
    if m in ('quad1', 'hex1'):      # affine images of the reference cell
        A = W.reals('A', dim, dim)
        A = A if W.symbolic else np.array([[float(W.rng.uniform(-2, 2)) for _ in range(dim)] for _ in range(dim)])
        ref = [[int(c > 0) for c in row] for row in felib.MESHES[m][0]]
        x[...] = [[sum(A[i, j] * ref[k][j] for j in range(dim)) for i in range(dim)] for k in range(len(ref))]
    else:
        x[...] = W.reals('x', *x.shape)
        if m == 'tet1':             # one vertex in the origin
            x[0] = 0
    def det(c):
        e = {'line': [(0, 1)], 'tri1': [(0, 1), (0, 2)], 'tet1': [(0, 1), (0, 2), (0, 3)],
             'quad1': [(0, 1), (0, 3)], 'hex1': [(0, 1), (0, 3), (0, 4)]}[m]
        v = [[x[c[b], i] - x[c[a], i] for i in range(dim)] for a, b in e]
        if dim == 1:
            return v[0][0]
        if dim == 2:
            return v[0][0] * v[1][1] - v[0][1] * v[1][0]
        a, b, c3 = v
        return (a[0] * (b[1] * c3[2] - b[2] * c3[1]) - a[1] * (b[0] * c3[2] - b[2] * c3[0])
                + a[2] * (b[0] * c3[1] - b[1] * c3[0]))
    for c in conn0:
        d = det(c)
        W.assume(d != 0)
    dom = W.mod(felib.FEM).FEDomain('d', felib.mesh(W, m, x=x))
    conn = dom.get_conn()
    for c, new in zip(conn0, conn):
        new = [int(i) for i in new]
        W.true('the same vertices', sorted(new) == sorted(c))
        if new == c:
            W.lt('positive', 0, det(c))
        else:
            W.lt('was negative', det(c), 0)
            W.eq('reversed', det(new), -det(c))

if __name__ == '__main__':
    main(S)
