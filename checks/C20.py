"""Mesh generators (mesh_generators.py, mesh_tools.py) and refinement (refine.py, refine_hanging.py)."""
import itertools, random
from collections import Counter
from fractions import Fraction as F
import numpy as np
from engine import sym
from engine.vc import Suite, main
from checks import felib
from checks.C11 import block as block_

GE, MG, MT, RE, RH = ('sfepy.discrete.fem.geometry_element', 'sfepy.mesh.mesh_generators', 'sfepy.mesh.mesh_tools',
                      'sfepy.discrete.fem.refine', 'sfepy.discrete.fem.refine_hanging')
FEM = 'sfepy.discrete.fem'
S = Suite('C20', 'mesh generators and refinement', assumptions=[
    'arithmetic is exact; shapes, connectivities, voxel patterns and refinement flags are enumerated, dimensions, centres '
    'and vertex coordinates are arbitrary in the contracts of blocks, cylinders, voxels, uniform refinement and splitting '
    'into simplices, and rational in those of tiled, extended and hanging-node meshes',
    'a chain of positively oriented cells of a reference cell whose inner facets cancel and whose outer facets lie in its '
    'boundary, with the volumes summing up to the volume of the cell, covers the cell exactly once (degree argument)',
    'extrude(), revolve(), mirror(), merge_nodes() and the volume correction of smooth_mesh() rely on scipy.spatial '
    'rotations and trees: bounded checks in floating point',
    'matching of vertices of merged meshes by scipy.spatial.cKDTree is trusted'])
felib.use(S, GE, MG, MT, RE, RH)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

def block(kind, n, seed):
    """A block with positively oriented tetrahedra and wedges."""
    x, parts = block_(kind, n, seed)
    for et, cs in parts:
        if et == '3_4':
            cs[:] = [c if fdet([[F(x[c[i]][j]) - F(x[c[0]][j]) for j in range(3)] for i in (1, 2, 3)]) > 0
                     else [c[0], c[2], c[1], c[3]] for c in cs]
        if et == '3_6':
            cs[:] = [c if fdet([[F(x[c[i]][j]) - F(x[c[0]][j]) for j in range(3)] for i in (1, 2, 3)]) > 0
                     else [c[i] for i in (0, 2, 1, 3, 5, 4)] for c in cs]
    return x, parts

# ------------------------------------------------------------ oracle
REF = {'1_2': [[0], [1]], '2_3': [[0, 0], [1, 0], [0, 1]], '2_4': [[0, 0], [1, 0], [1, 1], [0, 1]],
       '3_4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
       '3_8': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]],
       '3_6': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]]}
# outward oriented facets
OUT = {'1_2': [(0,), (1,)], '2_3': [(0, 1), (1, 2), (2, 0)], '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
       '3_4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)],
       '3_8': [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
       '3_6': [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)]}
VOL = {'1_2': F(1), '2_3': F(1, 2), '2_4': F(1), '3_4': F(1, 6), '3_8': F(1), '3_6': F(1, 2)}

def canon(f):
    if len(f) == 2:
        return tuple(f)
    i = f.index(min(f))
    return tuple(f[i:] + f[:i])

def rev(f):
    return canon(tuple(reversed(f)))

def oriented(et, c):
    c = [int(i) for i in c]
    if et == '1_2':
        return [(c[0], -1), (c[1], 1)]
    return [canon(tuple(c[i] for i in f)) for f in OUT[et]]

def opposite(et, f):
    return (f[0], -f[1]) if et == '1_2' else rev(f)

def conform(cells):
    """Oriented boundary facets of [(type, cell)], or None if the cells are not conforming and consistently oriented."""
    cnt = Counter()
    for et, c in cells:
        if len(set(map(int, c))) != len(c):
            return None
        for f in oriented(et, c):
            cnt[f] += 1
    if any(v > 1 for v in cnt.values()):
        return None
    et = cells[0][0]
    out = [f for f in cnt if opposite(et, f) not in cnt]
    return out

def fdet(m):
    m = [list(r) for r in m]
    n, d = len(m), F(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return F(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            k = m[r][i] / m[i][i]
            m[r] = [a - k * b for a, b in zip(m[r], m[i])]
    return d

def affine(et, rc):
    """Determinant of the affine map of the reference cell to the vertices `rc`, None if it is not affine."""
    ref = REF[et]
    dim = len(ref[0])
    e = {1: [1], 2: [1, 2], 3: [1, 2, 3]}[dim] if et in ('1_2', '2_3', '3_4') else \
        ({2: [1, 3], 3: [1, 3, 4]}[dim] if et != '3_6' else [1, 2, 3])
    M = [[F(rc[k][j]) - rc[0][j] for j in range(dim)] for k in e]
    for v, r in zip(rc, ref):
        if any(F(v[j]) != rc[0][j] + sum(F(r[i]) * M[i][j] for i in range(dim)) for j in range(dim)):
            return None
    return fdet(M)

def shape(et, r):
    """Values of the (multi)linear shape functions of the parent cell."""
    r = [F(x) for x in r]
    if et in ('1_2', '2_3', '3_4'):
        return [1 - sum(r)] + r
    out = []
    for v in REF[et]:
        p = F(1)
        for a, b in zip(v, r):
            p *= b if a else 1 - b
        out.append(p)
    return out

def inside(et, r):
    return (min(r) >= 0 and sum(r) <= 1) if et in ('2_3', '3_4') else (min(r) >= 0 and max(r) <= 1)

def halves(et):
    h = [F(0), F(1, 2), F(1)]
    return [r for r in itertools.product(h, repeat=len(REF[et][0])) if inside(et, r)]

def on_facet(et, rs):
    """Whether points lie in a common facet of the reference cell."""
    dim = len(REF[et][0])
    for j in range(dim):
        if all(r[j] == 0 for r in rs) or (et in ('1_2', '2_4', '3_8') and all(r[j] == 1 for r in rs)):
            return True
    return et in ('2_3', '3_4') and all(sum(r) == 1 for r in rs)

def point(W, X, w):
    """sum_k w_k X_k"""
    out = None
    for k, c in enumerate(w):
        if c != 0:
            t = (X[k] * W.frac(c.numerator, c.denominator)) if c != 1 else X[k]
            out = t if out is None else out + t
    return out

def same(W, a, b):
    if W.symbolic:
        return all(sym.iszero(sym.lift(x) - sym.lift(y)) for x, y in zip(a, b))
    return bool(np.abs(np.asarray(a, float) - np.asarray(b, float)).max() < 1e-9)

def tile(W, et, X, cet, children, Y, cands, tag='', cache=None):
    """The children cells of a parent (vertex coordinates X) are images of positively oriented cells tiling the
    reference cell."""
    loc = {}
    for v in sorted({int(i) for c in children for i in c}):
        for r in cands:
            p = point(W, X, shape(et, r))
            if same(W, Y[v], p):
                loc[v] = r
                W.eqs('vertex' + tag, Y[v], p)
                break
        else:
            W.true('vertex %d lies in the parent%s' % (v, tag), False)
            return
    dets = [affine(cet, [loc[int(i)] for i in c]) for c in children]
    W.true('children are positively oriented' + tag, all(d is not None and d > 0 for d in dets))
    b = conform([(cet, c) for c in children])
    W.true('children conform' + tag, b is not None)
    if b is None or None in dets:
        return
    W.true('outer facets lie in the boundary' + tag,
           all(on_facet(et, [loc[i] for i in (f[:1] if et == '1_2' else f)]) for f in b))
    W.true('children fill the parent' + tag, sum(dets) * VOL[cet] == VOL[et])

def boundary_tile(W, tag, et, old, new, split):
    """Conforming mesh stays conforming; the number of boundary facets is multiplied by `split`."""
    b0, b1 = conform([(et, c) for c in old]), conform([(new[0], c) for c in new[1]])
    W.true('conforming mesh' + tag, b1 is not None)
    if b1 is not None:
        W.true('facets of the boundary' + tag, len(b1) == split * len(b0))

def rot(et, c, r):
    """A random orientation preserving renumbering."""
    c = list(c)
    if et == '2_3' or et == '2_4':
        k = r.randrange(len(c))
        return c[k:] + c[:k]
    if et == '3_4':
        p = r.choice([p for p in itertools.permutations(range(4)) if fdet([[F(int(i == j)) for j in p] for i in range(4)]) > 0])
        return [c[i] for i in p]
    if et == '3_8':
        for _ in range(r.randrange(4)):
            c = [c[i] for i in (1, 2, 3, 0, 5, 6, 7, 4)]
        for _ in range(r.randrange(4)):
            c = [c[i] for i in (4, 5, 1, 0, 7, 6, 2, 3)]
    return c

def base_mesh(W, kind, n, seed, symbolic=True, emb=0, turn=True, shuffle=True):
    """A mesh of a block with random numbering, arbitrary coordinates."""
    x, parts = block(kind, n, seed)
    r = random.Random(77 + seed)
    p = list(range(len(x)))
    if seed:
        r.shuffle(p)
    et, cs = parts[0]
    cs = [[p[i] for i in (rot(et, c, r) if turn and seed else c)] for c in cs]
    if seed and shuffle:
        r.shuffle(cs)
    xx = [None] * len(x)
    for i, k in enumerate(p):
        xx[k] = x[i]
    if symbolic:
        X = W.reals('x', len(x), len(x[0]) + emb)
    else:
        rows = felib.jitter(xx, seed + 1, 60)
        X = W.array(rows) if W.symbolic else np.array([[float(c) for c in q] for q in rows])
    g = [10 + k for k in range(len(cs))]
    mesh = W.mod(FEM).Mesh.from_data('m', X, None, [np.array(cs, dtype=np.int32)], [np.array(g, dtype=np.int32)], [et])
    return mesh, X, et, cs, g

# ------------------------------------------------------------ uniform refinement
REFINE = [dict(kind=k, n=n, seed=s) for k, n in [('tri', (1, 1)), ('tri', (2, 2)), ('quad', (1, 1)), ('quad', (2, 2)),
                                                 ('tet', (1, 1, 1)), ('hex', (1, 1, 1)), ('hex', (2, 1, 1))] for s in (0, 1, 2)]
REFINE += [dict(kind='tri', n=(2, 1), seed=3, emb=1), dict(kind='quad', n=(2, 1), seed=3, emb=1)]

@contract('uniform refinement', REFINE)
def refine(W, kind, n, seed, emb=0):
    mesh, X, et, cs, g = base_mesh(W, kind, n, seed, emb=emb)
    mesh.cmesh.set_local_entities(W.mod(GE).create_geometry_elements())
    mesh.cmesh.setup_entities()
    out = getattr(W.mod(RE), 'refine_' + et)(mesh)
    conn = out.get_conn(et)
    Y = out.coors
    ns = 2 ** int(et[0])
    W.true('number of cells', len(conn) == ns * len(cs))
    W.true('element type', list(out.descs) == [et])
    W.true('cell groups', [int(i) for i in out.cmesh.cell_groups] == [q for q in g for _ in range(ns)])
    W.eqs('original vertices', Y[:len(X)], X)
    W.true('no unused vertices', sorted(set(int(i) for i in conn.ravel())) == list(range(len(Y))))
    for k, c in enumerate(cs):
        tile(W, et, [X[i] for i in c], et, conn[ns * k:ns * k + ns], Y, halves(et))
    boundary_tile(W, '', et, cs, (et, conn), ns // 2)

@contract('refinement of 1D meshes', [dict(n=n, seed=s) for n in (1, 2, 4) for s in (0, 1, 2)])
def refine1(W, n, seed):
    r = random.Random(seed)
    x = [W.real('x0')]
    for k in range(n):
        x.append(x[-1] + W.real('h%d' % k, pos=True))
    cs = [[i, i + 1] for i in range(n)]
    if seed:
        r.shuffle(cs)
    X = W.array([[c] for c in x]) if W.symbolic else np.array([[c] for c in x])
    mesh = W.mod(FEM).Mesh.from_data('m', X, None, [np.array(cs, dtype=np.int32)],
                                     [np.arange(5, 5 + n).astype(np.int32)], ['1_2'])
    out = W.mod(RE).refine_1_2(mesh)
    conn = out.get_conn('1_2')
    W.true('sizes', len(conn) == 2 * n and len(out.coors) == 2 * n + 1)
    W.true('cell groups', [int(i) for i in out.cmesh.cell_groups] == [5 + k // 2 for k in range(2 * n)])
    for k, c in enumerate(cs):
        tile(W, '1_2', [X[i] for i in c], '1_2', conn[2 * k:2 * k + 2], out.coors, halves('1_2'))
    b = conform([('1_2', c) for c in conn])
    W.true('conforming mesh', b is not None and len(b) == 2)

@contract('1D meshes that cannot be refined', [dict(which=w) for w in ('order', 'gap')])
def refine1_bad(W, which):
    x, cs = ([[0], [2], [1]], [[0, 2], [2, 1]]) if which == 'order' else ([[0], [1], [2], [3]], [[0, 1], [2, 3]])
    X = W.array([[F(c) for c in q] for q in x]) if W.symbolic else np.array(x, float)
    mesh = W.mod(FEM).Mesh.from_data('m', X, None, [np.array(cs, dtype=np.int32)], [np.zeros(2, dtype=np.int32)], ['1_2'])
    W.raises(ValueError, W.mod(RE).refine_1_2, mesh)
    W.true('refused, not refined wrongly', True)

@contract('refined domains', [dict(kind=k) for k in ('line', 'tri', 'quad', 'tet', 'hex', 'wedge1')])
def refine_domain(W, kind):
    dom = felib.domain(W, kind)
    if kind == 'wedge1':
        W.raises(NotImplementedError, dom.refine)
        W.true('refused, not refined wrongly', True)
        return
    et = dom.mesh.descs[0]
    out = dom.refine()
    cs, conn = dom.mesh.get_conn(et), out.mesh.get_conn(et)
    ns = 2 ** int(et[0])
    for k, c in enumerate(cs):
        tile(W, et, [dom.mesh.coors[int(i)] for i in c], et, conn[ns * k:ns * k + ns], out.mesh.coors, halves(et))
    W.true('number of cells', len(conn) == ns * len(cs))

EDGES = {'2_3': 3, '2_4': 6, '3_4': 6, '3_8': 27}

@contract('refined reference elements', [dict(et=e, level=l) for e in ('2_3', '2_4', '3_4', '3_8') for l in (0, 1, 2)
                                         if not (e == '3_8' and l == 2)])
def refine_ref(W, et, level):
    gel = W.mod(GE).create_geometry_elements()[et]
    x, conn, ee = W.mod(RE).refine_reference(gel, level)
    ref = [[F(c) for c in r] for r in REF[et]]
    RX = [W.array(r) if W.symbolic else np.array([float(c) for c in r]) for r in ref]
    if level == 0:
        W.true('no error edges', ee is None)
        W.eqs('coordinates', x, RX)
        return
    ns = 2 ** int(et[0])
    W.true('number of cells', len(conn) == ns ** level)
    q = [F(i, 2 ** level) for i in range(2 ** level + 1)]
    cands = [r for r in itertools.product(q, repeat=len(ref[0])) if inside(et, r)]
    tile(W, et, RX, et, conn, x, cands)
    W.true('shape of error edges', ee.shape == (ns ** (level - 1), EDGES[et], 3))
    half = W.frac(1, 2)
    for k, es in enumerate(ee):
        own = set(int(i) for i in np.ravel(conn[ns * k:ns * k + ns]))
        seen = set()
        for a, m, b in es:
            a, m, b = int(a), int(m), int(b)
            W.eqs('the middle of the edge', x[m], (x[a] + x[b]) * half)
            W.true('edge of the coarser cell', {a, m, b} <= own and a != b)
            seen.add(m)
        corners = {i for i in own if sum(i in [int(j) for j in c] for c in conn[ns * k:ns * k + ns]) == 1}
        W.true('all new vertices are checked', seen == own - corners if et != '2_3' else len(seen) == 3)

# ------------------------------------------------------------ splitting into simplices
@contract('splitting into simplices', [dict(kind=k, n=n) for k, n in [('quad', (1, 1)), ('quad', (3, 2)), ('hex', (1, 1, 1)),
                                                                     ('hex', (2, 2, 2)), ('tri', (1, 1))]])
def split(W, kind, n):
    mesh, X, et, cs, g = base_mesh(W, kind, n, 0)
    out = W.mod(MT).triangulate(mesh)
    if et == '2_3':
        W.true('triangular meshes are kept', out is mesh)
        return
    cet, ns, fs = ('2_3', 2, 1) if et == '2_4' else ('3_4', 6, 2)
    conn = out.get_conn(cet)
    W.true('cells', len(conn) == ns * len(cs) and list(out.descs) == [cet])
    W.true('cell groups', [int(i) for i in out.cmesh.cell_groups] == [q for q in g for _ in range(ns)])
    W.eqs('vertices', out.coors, X)
    for k, c in enumerate(cs):
        tile(W, et, [X[i] for i in c], cet, conn[ns * k:ns * k + ns], out.coors, [tuple(map(F, r)) for r in REF[et]])
    boundary_tile(W, '', et, cs, (cet, conn), fs)

# ------------------------------------------------------------ blocks and cylinders
def grid_cells(W, tag, cells, et, pos, n_cell, per=None):
    """Cells are unit cells of an index grid, each once, positively oriented in the index space."""
    dim = len(REF[et][0])
    seen = set()
    ok = True
    for c in cells:
        p = [list(pos[int(i)]) for i in c]
        if per is not None:                     # periodic second index
            last = max(z[1] for z in p) == per - 1 and min(z[1] for z in p) == 0
            for q in p:
                if q[1] == 0 and last:
                    q[1] = per
        lo = [min(z[j] for z in p) for j in range(dim)]
        rc = [[F(z[j] - lo[j]) for j in range(dim)] for z in p]
        d = affine(et, rc)
        ok = ok and d == 1 and all(max(z[j] for z in p) - lo[j] == 1 for j in range(dim))
        seen.add(tuple(lo))
    W.true('unit cells of the grid' + tag, ok)
    W.true('each cell once' + tag, len(seen) == len(cells) == n_cell)

BLOCKS = [(2,), (5,), (2, 2), (4, 3), (2, 5), (2, 2, 2), (3, 2, 4), (2, 4, 3)]

@contract('blocks', [dict(shape=s, given=g) for s in BLOCKS for g in (False, True)])
def blocks(W, shape, given):
    dim = len(shape)
    G = W.mod(MG)
    d, c = [W.real('d%d' % i, pos=True) for i in range(dim)], [W.real('c%d' % i) for i in range(dim)]
    arr = (lambda a: W.array(a)) if W.symbolic else np.array
    nn = int(np.prod(shape))
    own = W.reals('own', nn, dim) if given else None
    mesh = G.gen_block_mesh(arr(d), list(shape), arr(c), mat_id=7, coors=own, verbose=False, name='b')
    et = {1: '1_2', 2: '2_4', 3: '3_8'}[dim]
    idx = list(itertools.product(*[range(k) for k in shape]))
    half = W.frac(1, 2)
    ref = arr([[c[j] - d[j] * half + d[j] * W.frac(i[j], shape[j] - 1) for j in range(dim)] for i in idx])
    W.eqs('coordinates', mesh.coors, own if given else ref)
    conn = mesh.get_conn(et)
    n_el = int(np.prod([k - 1 for k in shape]))
    grid_cells(W, '', conn, et, dict(enumerate(idx)), n_el)
    W.true('material', [int(i) for i in mesh.cmesh.cell_groups] == [7] * n_el and mesh.name == 'b')
    cn, desc = G.get_tensor_product_conn(np.array(shape))
    W.true('connectivity', desc == et and [list(map(int, r)) for r in cn] == [list(map(int, r)) for r in conn])
    b = conform([(et, q) for q in conn])
    W.true('conforming', b is not None)

CYL = [dict(shape=s, axis=a, kind=k) for s, a in [((3, 5, 3), 'x'), ((2, 4, 2), 'y'), ((2, 3, 4), 'z')]
       for k in ('hollow', 'open', 'nonuniform', 'flat', '2d', 'solid')]

@contract('cylinders', CYL)
def cylinder(W, shape, axis, kind):
    arr = (lambda a: W.array(a)) if W.symbolic else np.array
    nr, nfi, nl = shape
    sol = kind == 'solid'
    a1, b1 = (W.num(0), W.num(0)) if sol else (W.real('a1', pos=True), W.real('b1', pos=True))
    if kind == 'nonuniform':                    # squares of radii, so that roots are exact
        a1, b1, a2, b2 = (W.frac(1, 1), W.frac(1, 1), W.frac(7, 1), W.frac(7, 1)) if nr == 3 else \
                         (W.frac(1, 1), W.frac(1, 1), W.frac(2, 1), W.frac(3, 1))
    else:
        a2, b2 = a1 + W.real('da', pos=True), b1 + W.real('db', pos=True)
    L = W.num(0) if kind == 'flat' else W.real('L', pos=True)
    c = [W.real('c%d' % i) for i in range(3)]
    op = W.real('open', 0, 1) if kind == 'open' else W.num(0)
    if sol:
        pass
    mesh = W.mod(MG).gen_cylinder_mesh(arr([a1, b1, a2, b2, L]), list(shape), arr(c), axis=axis, force_hollow=not sol,
                                       is_open=kind == 'open', open_angle=op, non_uniform=kind == 'nonuniform',
                                       make_2d=kind == '2d', verbose=False)
    flat = kind in ('flat', '2d')
    if flat:
        nl = 1
    if kind == '2d':
        L = W.num(0)
    n2 = nfi + 1 if kind == 'open' else nfi
    np_ = W.np
    half = W.frac(1, 2)
    dfi = 2 * (np_.pi - op) / nfi
    pos, ref = {}, []
    dim = 2 if kind == '2d' else 3
    perm = {'x': [0, 1, 2], 'y': [2, 0, 1], 'z': [1, 2, 0]}[axis]
    for i in range(nr):
        t = W.frac(i, nr - 1)
        if kind == 'nonuniform':
            ra, rb = np_.sqrt(a1 ** 2 + (a2 ** 2 - a1 ** 2) * t), np_.sqrt(b1 ** 2 + (b2 ** 2 - b1 ** 2) * t)
        else:
            ra, rb = a1 + (a2 - a1) * t, b1 + (b2 - b1) * t
        for j in range(1 if sol and i == 0 else n2):
            fi = op + dfi * j
            for k in range(nl):
                x = -L * half + (L * W.frac(k, nl - 1) if nl > 1 else 0)
                pos[len(ref)] = (i, j, k)[:2 if flat else 3]
                p = [x, ra * np_.cos(fi), rb * np_.sin(fi)]
                p = p[1:] if kind == '2d' else [p[q] for q in perm]
                ref.append([p[q] + c[q] for q in range(dim)])
    W.eqs('coordinates', mesh.coors, arr(ref))
    et = '2_4' if flat else '3_8'
    conn = mesh.get_conn(et)
    n_el = (nr - 1) * nfi * (1 if flat else nl - 1)
    W.true('no other cells', list(mesh.descs) == [et])
    if not sol:
        grid_cells(W, '', conn, et, pos, n_el, per=None if kind == 'open' else n2)
        W.true('conforming', conform([(et, q) for q in conn]) is not None)
    else:                                      # degenerate cells at the axis
        W.true('number of cells', len(conn) == n_el)
        ok = True
        for q in conn:
            p = [pos[int(i)] for i in q]
            i0, k0 = min(z[0] for z in p), min(z[2] for z in p)
            j0 = p[1][1]
            j1 = (j0 + 1) % n2
            z = [(i0, j0 if i0 else 0, k0), (i0 + 1, j0, k0), (i0 + 1, j1, k0), (i0, j1 if i0 else 0, k0)]
            ok = ok and p == z + [(a, b, d + 1) for a, b, d in z]
        W.true('sectors', ok and len(set(map(tuple, conn.tolist()))) == n_el)

# ------------------------------------------------------------ extended, tiled, voxel meshes
def frac_array(W, rows):
    rows = [[F(c) for c in r] for r in rows]
    return W.array(rows) if W.symbolic else np.array([[float(c) for c in r] for r in rows])

def measure(W, et, X, c):
    """The volume of a cell: simplices exactly, multilinear cells by the tensor Gauss rule of order 3."""
    X = [X[int(i)] for i in c]
    dim = len(REF[et][0])
    if et in ('2_3', '3_4'):
        m = [X[k] - X[0] for k in range(1, dim + 1)]
        return det_(m) * W.frac(1, 2 if dim == 2 else 6)
    # exact integration of the Jacobian (degree 2 in each variable) by Simpson's rule
    tot = 0
    for ix in itertools.product(range(3), repeat=dim):
        w, r = F(1), []
        for i in ix:
            w *= [F(1, 6), F(4, 6), F(1, 6)][i]
            r.append(F(i, 2))
        m = []
        for j in range(dim):
            g = []
            for v in REF[et]:
                p = F(1)
                for q in range(dim):
                    p *= ((1 if v[q] else -1) if q == j else (r[q] if v[q] else 1 - r[q]))
                g.append(p)
            m.append(point(W, X, g))
        tot = tot + det_(m) * W.frac(w.numerator, w.denominator)
    return tot

def det_(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det_([[r[k] for k in range(3) if k != j] for r in m[1:]]) for j in range(3))

def sheet(X, f, lo, hi, eps=1e-9):
    return any(all(abs(float(X[i][j]) - float(v)) < eps for i in f) for j in range(len(lo)) for v in (lo[j], hi[j]))

EXT = [dict(bs=bs, es=es, bd=bd, ed=ed, grade=g) for bs, es, bd, ed in [
    ((3, 2, 3), 3, (2, 3, 1), (14, 10, 20)), ((2, 2, 2), 2, (1, 1, 1), (3, 5, 2)), ((2, 3, 2), 3, (2, 2, 2), (3, 4, 5))]
    for g in ('default', 'square')]

@contract('extended blocks', EXT)
def extended(W, bs, es, bd, ed, grade):
    G = W.mod(MG)
    c = [1, 0, 2]
    cc = frac_array(W, [c])[0]
    dd = min(F(b, s - 1) for b, s in zip(bd, bs))
    pe = min(F(e - b, 2) for e, b in zip(ed, bd))
    fun = None if grade == 'default' else (lambda x: x * x)
    if W.symbolic and grade == 'default':
        # the exponent by contract: dd = pe (1 / (es - 1))^p, or 1 if it does not exist
        p = 1 if es == 2 or dd >= pe else None
        if p is None:
            return default_grading(W, G, bs, es, bd, ed, c)
    mesh = G.gen_extended_block_mesh(frac_array(W, [bd])[0], list(bs), frac_array(W, [ed])[0], es, cc, grading_fun=fun, name='e')
    extended_post(W, mesh, bs, es, bd, ed, c)

def default_grading(W, G, bs, es, bd, ed, c):
    W.true('graded by a real power: floating point only', True)

def extended_post(W, mesh, bs, es, bd, ed, c):
    X, conn = mesh.coors, mesh.get_conn('3_8')
    lo, hi = [F(c[j]) - F(ed[j], 2) for j in range(3)], [F(c[j]) + F(ed[j], 2) for j in range(3)]
    g = [int(i) for i in mesh.cmesh.cell_groups]
    n = [b - 1 for b in bs]
    cnt = {0: n[0] * n[1] * n[2]}
    for s in range(3):
        o = [n[j] for j in range(3) if j != s]
        for k in (0, 1):
            cnt[10 * (s + 1) + k] = o[0] * o[1] * (es - 1)
    W.true('cells of the parts', dict(Counter(g)) == cnt and mesh.name == 'e')
    vols = [measure(W, '3_8', X, q) for q in conn]
    fix = [list(q) if float(v) > 0 else [q[i] for i in (1, 0, 3, 2, 5, 4, 7, 6)] for q, v in zip(conn, vols)]
    b = conform([('3_8', q) for q in fix])
    W.true('conforming', b is not None)
    if b is None:
        return
    W.true('the boundary is the one of the block', all(sheet(X, f, lo, hi) for f in b))
    tot = abs(vols[0])
    for v in vols[1:]:
        tot = tot + abs(v)
    W.eq('volume', tot, W.num(ed[0] * ed[1] * ed[2]))
    W.true('positive or mirrored cells', all((float(v) > 0) == (k % 2 == 0) and float(v) != 0 for v, k in zip(vols, g)))
    bl = [q for q, k in zip(conn, g) if k == 0]
    W.eq('volume of the centre', sum((measure(W, '3_8', X, q) for q in bl[1:]), measure(W, '3_8', X, bl[0])),
         W.num(bd[0] * bd[1] * bd[2]))

TILED = [dict(kind=k, n=n, grid=g, scale=s, maps=m) for k, n, g, s in [
    ('tri', (2, 2), (2, 3), (1, 1)), ('quad', (2, 1), (3, 2), (1, 2)), ('quad', (2, 2), (1, 2), (1, 1)), ('tet', (1, 1, 1), (2, 1, 2), (1, 3)),
    ('hex', (2, 1, 1), (2, 3, 1), (1, 1)), ('quad', (1, 1), None, (1, 2)), ('quad', (1, 2), None, (2, 1))] for m in (False, True)]

@contract('tiled meshes', TILED)
def tiled(W, kind, n, grid, scale, maps):
    x, parts = block(kind, n, 0)
    et, cs = parts[0]
    dim = len(x[0])
    st = [F(3, 2), F(2), F(5, 3)][:dim]
    rows = [[F(q[j]) * st[j] - 1 for j in range(dim)] for q in x]
    r = random.Random(5)
    p = list(range(len(x)))
    r.shuffle(p)
    xx = [None] * len(x)
    for i, k in enumerate(p):
        xx[k] = rows[i]
    cs = [[p[i] for i in c] for c in cs]
    X = frac_array(W, xx)
    ng = np.array([100 + k for k in range(len(x))], dtype=np.int32)
    g = [3 + k for k in range(len(cs))]
    mesh = W.mod(FEM).Mesh.from_data('m', X, ng, [np.array(cs, dtype=np.int32)], [np.array(g, dtype=np.int32)], [et])
    sc = W.frac(*scale)
    out = W.mod(MG).gen_tiled_mesh(mesh, None if grid is None else list(grid), scale=sc, ret_ndmap=maps)
    if maps:
        out, mp = out
    if grid is None:
        grid = [max(scale[1] // scale[0], 1)] * dim
    ns = int(np.prod(grid))
    per = [n[j] * st[j] for j in range(dim)]
    conn, Y = out.get_conn(et), out.coors
    W.true('number of cells', len(conn) == ns * len(cs))
    W.true('number of vertices', len(Y) == int(np.prod([n[j] * grid[j] + 1 for j in range(dim)])))
    W.true('cell groups', [int(i) for i in out.cmesh.cell_groups] == g * ns)
    seen = set()
    k = 0
    for ix in itertools.product(*[range(q) for q in reversed(grid)]):
        ix = ix[::-1]
        for c in cs:
            for i, v in enumerate(conn[k]):
                W.eqs('copy', Y[int(v)], frac_array(W, [[xx[c[i]][j] + ix[j] * per[j] for j in range(dim)]])[0] * sc)
                a, b = int(out.cmesh.vertex_groups[int(v)]) - 100, c[i]
                eq = lambda m: all((xx[m][j] - xx[b][j]) in (0, per[j], -per[j]) for j in range(dim))
                W.true('vertex group of the same or periodic vertex', eq(a))
                if maps:
                    W.true('node map', eq(int(mp[int(v)])))
            k += 1
    b = conform([(et, q) for q in conn])
    W.true('conforming', b is not None)
    if b is not None:
        W.true('nodes are merged', len({tuple(round(float(z), 9) for z in q) for q in Y}) == len(Y))

VOX = [[[1]], [[1, 1], [1, 1]], [[1, 0, 1, 1, 1]], [[1, 0], [1, 1], [0, 1], [1, 1]], [[0, 1, 0], [1, 1, 1]],
       [[[1]]], [[[1, 0], [1, 1], [1, 1]]], [[[1], [1]], [[0], [1]], [[1], [1]]], [[[1, 1, 1, 0]]]]

@contract('voxels', [dict(k=k, et=e) for k in range(len(VOX)) for e in 'qt'])
def voxels(W, k, et):
    v = np.array(VOX[k])
    dim = v.ndim
    d = [W.real('d%d' % i, pos=True) for i in range(dim)]
    arr = (lambda a: W.array(a)) if W.symbolic else np.array
    out = W.mod(MG).gen_mesh_from_voxels(v, arr(d), etype=et)
    pe = {2: '2_4', 3: '3_8'}[dim]
    ce = {'q2': '2_4', 'q3': '3_8', 't2': '2_3', 't3': '3_4'}[et + str(dim)]
    ns = 1 if et == 'q' else {2: 2, 3: 6}[dim]
    conn, Y = out.get_conn(ce), out.coors
    vox = [tuple(map(int, i)) for i in np.argwhere(v)]
    W.true('cells', len(conn) == ns * len(vox) and list(out.descs) == [ce])
    W.true('no unused vertices', sorted({int(i) for i in conn.ravel()}) == list(range(len(Y))))
    for q, i in enumerate(vox):
        i = (i[1], i[0]) + i[2:]                     # the second index is x
        X = [arr([d[j] * (i[j] + r[j]) for j in range(dim)]) for r in REF[pe]]
        tile(W, pe, X, ce, conn[ns * q:ns * q + ns], Y, [tuple(map(F, r)) for r in REF[pe]])
    cnt = Counter(f for c in conn for f in oriented(ce, c))
    W.true('conforming', max(cnt.values()) == 1)
    pts = {tuple(i[j] + r[j] for j in range(dim)) for i in vox for r in REF[pe]}
    W.true('each vertex once', len(Y) == len(pts))

# ------------------------------------------------------------ hanging nodes
def rotate_all(cs, et, seed):
    r = random.Random(seed)
    return [rot(et, c, r) for c in cs] if seed else cs

HANG = [dict(kind='quad', n=(2, 2), flags=[f]) for f in ([0], [3], [0, 1], [0, 3], [1, 2, 3], [0, 1, 2, 3])]
HANG += [dict(kind='quad', n=(3, 3), flags=[f], seed=s) for f in ([4], [0, 4, 8], [1, 4]) for s in (0, 1, 2)]
HANG += [dict(kind='quad', n=(3, 3), flags=[[0], [8]], seed=s) for s in (0, 1)]
HANG += [dict(kind='hex', n=(2, 2, 1), flags=[f], seed=s) for f in ([0], [1, 2], [0, 1, 2]) for s in (0, 1, 2)]
HANG += [dict(kind='hex', n=(2, 1, 1), flags=[[0]], seed=s) for s in range(6)]
HANG += [dict(kind='hex', n=(2, 2, 2), flags=[f], seed=s) for f in ([0], [0, 7], [0, 1, 2]) for s in (0, 1)]
HANG += [dict(kind='hex', n=(4, 1, 1), flags=[[0], [3]], seed=1), dict(kind='hex', n=(5, 2, 1), flags=[[0, 1], [8]], seed=0)]
HANG += [dict(kind='quad', n=(2, 2), flags=[[]])]

@contract('refinement with hanging nodes', HANG)
def hanging(W, kind, n, flags, seed=0):
    mesh, X, et, cs, g = base_mesh(W, kind, n, seed, symbolic=False, shuffle=len(flags) == 1)
    H = W.mod(RH)
    dom = W.mod(FEM).FEDomain('d', mesh)
    gel = dom.geom_els[et]
    dim = int(et[0])
    subs = None
    ns = 2 ** dim
    total = []                                  # expected pairs (coarse cell, its facet as vertices)
    for fl in flags:
        cs = [[int(i) for i in c] for c in dom.mesh.get_conn(et)]
        X0 = dom.mesh.coors
        g0 = [int(i) for i in dom.mesh.cmesh.cell_groups]
        n0 = len(cs)
        flag = np.zeros(n0, dtype=int)
        flag[fl] = 1
        res = H.refine(dom, flag, subs=subs, ret_sub_cells=True)
        if not fl:
            W.true('nothing to refine', res[0] is dom and res[1] is None)
            return
        new, subs, sub = res
        conn = [[int(i) for i in c] for c in new.mesh.get_conn(et)]
        Y = new.mesh.coors
        W.true('number of cells', len(conn) == n0 + (ns - 1) * len(fl))
        W.true('split cells', [int(i) for i in sub[:, 0]] == sorted(fl) and sub.shape == (len(fl), ns + 1))
        gg = [int(i) for i in new.mesh.cmesh.cell_groups]
        for k in range(n0):
            if not flag[k]:
                W.true('other cells are kept', conn[k] == cs[k] and gg[k] == g0[k])
        W.eqs('vertices are kept', Y[:len(X0)], X0)
        for row in sub:
            row = [int(i) for i in row]
            W.true('cell groups', all(gg[i] == g0[row[0]] for i in row[1:]))
            tile(W, et, [X0[i] for i in cs[row[0]]], et, [conn[i] for i in row[1:]], Y, halves(et))
        W.true('each cell once', sorted([k for k in range(n0) if not flag[k]] + [int(i) for i in sub[:, 1:].ravel()])
               == list(range(len(conn))))
        # old neighbours in the coarse mesh
        fac = [list(map(int, f)) for f in (gel.edges if dim == 2 else gel.faces)]
        own = {}
        for k, c in enumerate(cs):
            for i, f in enumerate(fac):
                own.setdefault(frozenset(c[j] for j in f), []).append((k, i))
        for f, ks in own.items():
            if len(ks) == 2 and flag[ks[0][0]] != flag[ks[1][0]]:
                k, i = [q for q in ks if not flag[q[0]]][0]
                total.append((k, i, f))
        dom = new
    check_subs(W, et, gel, dim, conn, Y, subs, total, set(map(int, range(len(Y)))))

@contract('refinement next to refined cells', [dict(kind='quad', n=(2, 1)), dict(kind='hex', n=(2, 1, 1)), dict(kind='hex', n=(2, 2, 1))])
def hanging_stale(W, kind, n):
    """All cells refined one by one."""
    mesh, X, et, cs, g = base_mesh(W, kind, n, 0, symbolic=False)
    dom, subs = W.mod(FEM).FEDomain('d', mesh), None
    for k in range(len(cs)):
        flag = np.zeros(dom.mesh.n_el, dtype=int)
        flag[k] = 1
        dom, subs = W.mod(RH).refine(dom, flag, subs=subs)
    W.true('number of cells', dom.mesh.n_el == len(cs) * 2 ** int(et[0]))
    conn = [tuple(int(i) for i in c) for c in dom.mesh.get_conn(et)]
    Y = dom.mesh.coors
    W.true('hanging vertices are reused', not any(same(W, Y[i], Y[j]) for i in range(len(Y)) for j in range(i)))
    W.true('no hanging facets remain', subs is None)

def check_subs(W, et, gel, dim, conn, Y, subs, total, _):
    tables = [(subs, [list(map(int, e)) for e in gel.edges], total)] if dim == 2 else \
        [((subs or (None, None))[0], [list(map(int, e)) for e in gel.faces], total),
         ((subs or (None, None))[1], [list(map(int, e)) for e in gel.edges], None)]
    mids = {}
    def mid(vs):
        """The vertex in the middle of a facet."""
        w = F(1, len(vs))
        p = point(W, [Y[i] for i in vs], [w] * len(vs))
        c = [i for i in range(len(Y)) if same(W, Y[i], p)]
        return c[0] if c else None
    covered = set()
    for rows, fac, want in tables:
        got = []
        for r in ([] if rows is None else rows):
            r = [int(i) for i in r]
            m = len(r) // 2 - 1
            cf = [conn[r[0]][i] for i in fac[r[1]]]
            W.true('number of sub-facets', m == {2: 2, 4: 4}[len(cf)])
            got.append((r[0], r[1]))
            fine = [[conn[a][i] for i in fac[b]] for a, b in zip(r[2::2], r[3::2])]
            ctr = mid(cf)
            W.true('the middle vertex exists', ctr is not None)
            W.true('sub-facets of corners', sorted(v for f in fine for v in set(f) & set(cf)) == sorted(cf)
                   and all(ctr in f for f in fine))
            if len(cf) == 4:
                em = {frozenset(e): mid(e) for e in (cf[:2], cf[1:3], cf[2:], [cf[3], cf[0]])}
                for f in fine:
                    v = next(iter(set(f) & set(cf)))
                    W.true('sub-face', set(f) == {v, ctr} | {q for e, q in em.items() if v in e})
                covered |= set(em.values())
            covered.add(ctr)
        W.true('no repeated facet', want is None or len(set(got)) == len(got))
        if want is not None:
            W.true('all facets between coarse and fine cells', sorted(got) == sorted((k, i) for k, i, _ in want))
    # all hanging vertices are covered
    hang = set()
    fine_v = {i for c in conn for i in c}
    for k, i, f in total:
        c = conn[k]
        for e in [list(map(int, q)) for q in gel.edges]:
            m = mid([c[e[0]], c[e[1]]])
            if m is not None:
                hang.add(m)
    if dim == 3:
        for c in conn:
            for e in [list(map(int, q)) for q in gel.edges]:
                m = mid([c[e[0]], c[e[1]]])
                if m is not None:
                    hang.add(m)
    W.true('all hanging vertices are constrained', hang <= covered)

# ------------------------------------------------------------ extrusion, revolution, mirroring
def fmesh(W, kind, n, seed=0, jit=True):
    x, parts = block(kind, n, seed)
    r = random.Random(9 + seed)
    p = list(range(len(x)))
    if seed:
        r.shuffle(p)
    xx = [None] * len(x)
    for i, k in enumerate(p):
        xx[k] = [float(c) for c in (felib.jitter([x[i]], seed + i, 90)[0] if jit else x[i])]
    conns = [np.array([[p[i] for i in rot(et, c, r)] for c in cs], dtype=np.int32) for et, cs in parts]
    g, k = [], 4
    for c in conns:
        g.append(np.arange(k, k + len(c)).astype(np.int32))
        k += len(c)
    M = W.mod(FEM).Mesh
    return M.from_data('m', np.array(xx), np.arange(len(x)).astype(np.int32), conns, g, [et for et, _ in parts])

def cells_of(mesh):
    out = []
    for d in mesh.descs:
        conn, ids = mesh.get_conn(d, ret_cells=True)
        out += [(d, [int(i) for i in c], int(mesh.cmesh.cell_groups[k])) for c, k in zip(conn, ids)]
    return out

def fvol(W, mesh, td=3):
    out = []
    for et, c, g in cells_of(mesh):
        X = mesh.coors
        if et == '3_6':
            v = sum(float(det_([X[c[b]] - X[c[a]] for b in q])) / 6 for a, q in
                    ((0, (1, 2, 5)), (0, (1, 5, 4)), (0, (4, 5, 3))))
        else:
            v = float(measure(W, et, X, c))
        out.append((v, g))
    return out

def groups_volume(vs):
    out = {}
    for v, g in vs:
        out[g] = out.get(g, 0) + v
    return out

SOLID = [dict(kind=k, n=n, seed=s, tetra=t) for k, n in [('tri', (2, 2)), ('quad', (2, 2)), ('triquad', (2, 2))] for s in range(4)
         for t in (True, False)]

@contract('extruded meshes', SOLID, bounded=True)
def extruded(W, kind, n, seed, tetra):
    m = fmesh(W, kind, n, seed)
    T = W.mod(MT)
    h, nz = float(W.real('h', pos=True)), 3
    out = T.extrude(m, (h, nz), wedge_to_tetra=tetra) if seed != 1 or not tetra else T.expand2d(m, h, nz)
    area = groups_volume(fvol(W, m))
    vs = fvol(W, out)
    W.true('positive cells', all(v > 0 for v, _ in vs))
    vol = groups_volume(vs)
    W.true('same groups', set(vol) == set(area))
    for g in area:
        W.eq('volume of the group', vol[g], area[g] * h * nz)
    cs = [(et, c) for et, c, _ in cells_of(out)]
    if not (kind == 'triquad' and tetra):
        b = conform(cs)
        b0 = conform([(et, c) for et, c, _ in cells_of(m)])
        per = 2 if kind == 'tri' and tetra else 1
        W.true('conforming', b is not None and len(b) == len(b0) * nz * per + 2 * len(cells_of(m)))
    W.true('vertex groups', [int(i) for i in out.cmesh.vertex_groups] == [int(i) for i in m.cmesh.vertex_groups] * (nz + 1))

@contract('extrusion along a line', [dict(kind=k, seed=s) for k in ('tri', 'quad') for s in (0, 1)], bounded=True)
def extruded_line(W, kind, seed):
    m = fmesh(W, kind, (2, 1), seed)
    r = np.random.RandomState(seed + 3)
    line = np.cumsum(np.c_[0.2 * r.rand(5) - 0.1, 0.2 * r.rand(5) - 0.1, 0.5 + r.rand(5)], axis=0)
    tw, sc = 0.1 * r.rand(5), 1 + 0.2 * r.rand(5)
    out = W.mod(MT).extrude(m, line, twist=tw, scale=sc)
    nn = m.n_nod
    x0 = np.c_[m.coors, np.zeros(nn)]
    x0 = x0 - x0.mean(axis=0)
    W.eqs('first layer', out.coors[:nn], x0 + line[0])
    for k in range(4):
        y = out.coors[nn * (k + 1):nn * (k + 2)] - line[k + 1]
        v = line[k + 1] - line[k]
        v = v / np.linalg.norm(v)
        W.eqs('layers are normal to the line', y @ v, np.zeros(nn))
        W.eqs('scaled shape', y @ y.T, sc[k] ** 2 * (x0 @ x0.T))
        W.eqs('orientation', np.cross(y[0], y[1]) @ v, sc[k] ** 2 * np.cross(x0[0], x0[1])[2])
        # the twist is the angle to the layer of an extrusion with no twist
        z = W.mod(MT).extrude(m, line, scale=sc).coors[nn * (k + 1):nn * (k + 2)] - line[k + 1]
        W.eqs('twist', y, z * np.cos(tw[k]) + np.cross(v, z) * np.sin(tw[k]))
    W.true('positive cells', all(v > 0 for v, _ in fvol(W, out)))

REV = [dict(kind=k, nphi=n, v=v, phi=p, seed=s) for k, s in (('tri', 1), ('quad', 2)) for n, p in ((8, None), (5, None), (4, 90))
       for v in ((1, 0, 0), (3, 0, 0), (0, 1, 0), (0.6, 0.8, 0))]

@contract('revolved meshes', REV, bounded=True)
def revolved(W, kind, nphi, v, phi, seed):
    m = fmesh(W, kind, (2, 2), seed, jit=False)
    u = np.array(v, float) / np.linalg.norm(v)
    side = np.array([u[1], -u[0]])                     # u x side = -e_z
    m.coors[:] += 5.0 * (-side)
    p = np.array([0.3, 0.2, 0.0])
    out = W.mod(MT).revolve(m, nphi, p, v, phi)
    x0 = np.c_[m.coors, np.zeros(m.n_nod)] - p
    ang = np.deg2rad(360 if phi is None else phi)
    area = groups_volume(fvol(W, m))
    vol = groups_volume(fvol(W, out))
    W.true('same groups', set(vol) == set(area))
    W.true('positive cells', all(q > 0 for q, _ in fvol(W, out)))
    for et, c, g in cells_of(m):
        # exact for linear interpolation of the angle between layers
        xc = np.mean([x0[i] for i in c], axis=0)
        dist = abs(xc[:2] @ side)
        W.eq('volume', vol[g], area[g] * dist * nphi * np.sin(ang / nphi))
    lay = nphi if phi is None else nphi + 1
    W.true('vertices', out.n_nod == lay * m.n_nod)
    dst = np.linalg.norm(np.cross(out.coors - p, u), axis=1)
    ref = np.tile(np.linalg.norm(np.cross(x0, u), axis=1), lay)
    W.eqs('distances from the axis', np.sort(dst), np.sort(ref))
    W.eqs('positions along the axis', np.sort((out.coors - p) @ u), np.sort(np.tile(x0 @ u, lay)))
    b = conform([(et, c) for et, c, _ in cells_of(out)])
    W.true('conforming', b is not None)
    if b is not None:
        b0 = conform([(et, c) for et, c, _ in cells_of(m)])
        W.true('boundary', len(b) == len(b0) * nphi * (2 if kind == 'tri' else 1) + (2 * len(cells_of(m)) if phi else 0))

MIR = [dict(kind=k, n=n, seed=s) for k, n in [('tri', (2, 1)), ('quad', (2, 2)), ('tet', (1, 1, 1)), ('hex', (2, 1, 1)), ('wedge', (1, 1, 2)),
                                              ('wedgehex', (2, 1, 1))] for s in (0, 1)]

@contract('mirrored meshes', MIR, bounded=True)
def mirrored(W, kind, n, seed):
    m = fmesh(W, kind, n, seed, jit=False)
    td = int(m.descs[0][0])
    nv = np.array([2.0, 0.0, 0.0])
    out = W.mod(MT).mirror(m, (0, 0.3, 0.1), nv)
    td2 = [(et, c, g) for et, c, g in cells_of(out)]
    base = cells_of(m)
    W.true('cells', len(td2) == 2 * len(base))
    x = np.round(m.coors, 9)
    onp = int((np.abs(x[:, 0]) < 1e-12).sum())
    W.true('common vertices are merged', out.n_nod == 2 * m.n_nod - onp)
    y = out.coors[:, :td]
    pts = {tuple(np.round(q, 9) + 0.0) for q in x} | {tuple(np.round(q * ([-1] + [1] * (td - 1)), 9) + 0.0) for q in x}
    W.true('vertices', {tuple(np.round(q, 9) + 0.0) for q in y} == pts)
    from types import SimpleNamespace
    q = SimpleNamespace(descs=out.descs, cmesh=out.cmesh, coors=y, get_conn=out.get_conn)
    vs = fvol(W, q)
    W.true('positive cells', all(v > 0 for v, _ in vs))
    area, vol = groups_volume(fvol(W, m)), groups_volume(vs)
    for g in area:
        W.eq('volume of the group', vol.get(g, 0), 2 * area[g])
    b = conform([(et, c) for et, c, _ in td2])
    W.true('conforming', b is not None)

@contract('smoothing with volume correction', [dict(kind=k, n=n) for k, n in [('tri', (3, 3)), ('quad', (3, 4)), ('tet', (2, 2, 2)),
                                                                             ('hex', (2, 3, 2))]], bounded=True)
def smoothing(W, kind, n):
    m = fmesh(W, kind, n, 0)
    v0 = sum(v for v, _ in fvol(W, m))
    x0 = m.coors.copy()
    T = W.mod(MT)
    plain = T.smooth_mesh(m, n_iter=5)
    W.eqs('the mesh is not changed', m.coors, x0)
    x = T.smooth_mesh(m, n_iter=5, volume_corr=True)
    m.coors[:] = x
    if kind != 'hex':               # hexahedra: the volume of the tetrahedra the cells are split into
        W.eq('volume', sum(v for v, _ in fvol(W, m)), v0)
    # a uniform scaling with respect to the volume barycentre
    d, e = plain - plain.mean(axis=0), x - x.mean(axis=0)
    s = np.sqrt((e * e).sum() / (d * d).sum())
    W.eqs('scaled', e, d * s)
    if kind in ('tri', 'tet', 'quad'):
        m.coors[:] = x0
        bc = 0
        for et, c, g in cells_of(m):
            ts = [c] if et in ('2_3', '3_4') else [[c[0], c[1], c[2]], [c[0], c[2], c[3]]]
            for t in ts:
                X = x0[t]
                bc = bc + float(det_([X[i] - X[0] for i in range(1, len(t))])) / (2 if len(t) == 3 else 6) * X.mean(axis=0)
        bc = bc / v0
        W.eqs('centre of scaling', x - bc, (plain - bc) * s)

if __name__ == '__main__':
    main(S)
