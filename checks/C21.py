"""Reference coordinates of physical points (refcoors.c, lagrange.c, crefcoors.pyx, global_interp.py)."""
import itertools, random
from fractions import Fraction as F
import numpy as np
from engine import sym
from engine.vc import Suite, main
from checks import felib
from checks.C20 import block, rot

CRC, GI, PS = 'sfepy.discrete.common.extmods.crefcoors', 'sfepy.discrete.common.global_interp', 'sfepy.discrete.fem.poly_spaces'
FEM = 'sfepy.discrete.fem'
S = Suite('C21', 'reference coordinates of physical points', assumptions=[
    'arithmetic is exact in the contracts of simplices and of the evaluation of fields; cells and meshes are enumerated',
    'the Newton iteration of tensor product cells and the walk through convex meshes are explored in floating point only (bounded)',
    'scipy.spatial.cKDTree is trusted; tolerances of the code (1e-15 inside, 1e-8 Newton) are treated as given'])
felib.use(S, CRC, GI, PS)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

REF = {2: '2_3', 3: '3_4', 1: '1_2'}

def arr(W, rows):
    return W.array(rows) if W.symbolic else np.array([[float(c) for c in r] for r in rows])

def p1(xi):
    """Linear simplex basis."""
    s = 1
    for c in xi:
        s = s - c
    return [s] + list(xi)

def ml(et, xi):
    """Basis of linear cells."""
    if et in ('1_2', '2_3', '3_4'):
        return p1(xi)
    V = {'2_4': [(0, 0), (1, 0), (1, 1), (0, 1)],
         '3_8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}[et]
    out = []
    for v in V:
        w = 1
        for c, k in zip(xi, v):
            w = w * (c if k else 1 - c)
        out.append(w)
    return out

def back(et, X, xi):
    b = ml(et, list(xi))
    out = []
    for j in range(len(X[0])):
        s = 0
        for w, x in zip(b, X):
            s = s + w * x[j]
        out.append(s)
    return out

def outside(et, xi):
    """Squared distance of the reference coordinates from the cell, as documented in get_xi_dist()."""
    d = sum(max(0 - c, 0) ** 2 for c in xi)
    if et in ('1_2', '2_3', '3_4'):
        return d + max(sum(xi) - 1, 0) ** 2
    return d + sum(max(c - 1, 0) ** 2 for c in xi)

def set_up(W, et, x, cs):
    M = W.mod(FEM)
    mesh = M.Mesh.from_data('m', x, None, [np.array(cs, dtype=np.int32)], [np.zeros(len(cs), dtype=np.int32)], [et])
    return mesh

def find(W, field, cmesh, pts, cand, offs, limit):
    n = len(pts)
    xi = W.np.zeros((n, pts.shape[1])) if W.symbolic else np.zeros((n, pts.shape[1]))
    cells, status = np.zeros(n, dtype=np.int32) - 1, np.zeros(n, dtype=np.int32) - 1
    W.mod(CRC).find_ref_coors(xi, cells, status, pts, cmesh, np.array(cand, dtype=np.int32), np.array(offs, dtype=np.int32),
                              int(limit > 0), F(1, 10 ** 15) if W.symbolic else 1e-15, F(limit) if W.symbolic else float(limit),
                              field.create_basis_context())
    return xi, [int(i) for i in cells], [int(i) for i in status]

def simplex_mesh(kind, n, seed):
    x, parts = block(kind, n, 0)
    r = random.Random(31 + seed)
    et, cs = parts[0]
    rows = felib.jitter(x, seed + 1, 60)
    p = list(range(len(x)))
    r.shuffle(p)
    xx = [None] * len(x)
    for i, k in enumerate(p):
        xx[k] = rows[i]
    cs = [[p[i] for i in rot(et, c, r)] for c in cs]
    r.shuffle(cs)
    return xx, et, cs

MESHES = [dict(kind=k, n=n, seed=s) for k, n in (('tri', (2, 2)), ('tet', (1, 1, 1))) for s in (0, 1, 2)]

# ------------------------------------------------------------ simplices, exactly
@contract('points inside of simplices', [dict(m, order=o) for m in MESHES for o in (1, 2)])
def inside(W, kind, n, seed, order):
    """Points with arbitrary positive barycentric coordinates in each cell."""
    xx, et, cs = simplex_mesh(kind, n, seed)
    mesh = set_up(W, et, arr(W, xx), cs)
    dom = W.mod(FEM).FEDomain('d', mesh)
    cs = mesh.get_conn(et)
    field = felib.field(W, dom.create_region('Omega', 'all'), order)
    dim = len(xx[0])
    b = [W.real('b%d' % i, pos=True) for i in range(dim)]
    if W.symbolic:
        b0 = 1 - sum(b[1:], b[0])
        W.assume(b0 > 0)
    else:
        q = 1 + sum(b)
        b = [c / q for c in b]
    r = random.Random(seed)
    for k, c in enumerate(cs):
        X = [mesh.coors[int(i)] for i in c]
        P = back(et, X, b)
        xi, cells, status = find(W, field, dom.mesh.cmesh, arr(W, [P]), [k], [0, 1], 0)
        W.true('inside', status == [0] and cells == [k])
        W.eqs('reference coordinates', xi[0], b)
        W.eqs('the point', back(et, X, xi[0]), P)

@contract('arbitrary points and simplices', [dict(dim=d) for d in (1, 2, 3)])
def arbitrary(W, dim):
    """get_xi_simplex() inverts the mapping of every nondegenerate simplex; rational points, also far from the cell."""
    et = REF[dim]
    r = random.Random(dim)
    ref = [[0] * dim] + [[F(int(i == j)) for j in range(dim)] for i in range(dim)]
    for t in range(8):
        rows = [[c + F(r.randint(-8, 8), 20) for c in v] for v in ref]
        mesh = set_up(W, et, arr(W, rows), [list(range(dim + 1))])
        dom = W.mod(FEM).FEDomain('d', mesh)
        c = mesh.get_conn(et)[0]
        field = felib.field(W, dom.create_region('Omega', 'all'), 1)
        pts = [[F(r.randint(-40, 40), 20) for _ in range(dim)] for _ in range(5)]
        xi, cells, status = find(W, field, dom.mesh.cmesh, arr(W, pts), [0] * 5, list(range(6)), 3)
        for q in range(5):
            X = [mesh.coors[int(i)] for i in c]
            W.eqs('the point', back(et, X, xi[q]), arr(W, [pts[q]])[0])
            d = outside(et, [F(float(z)).limit_denominator(10 ** 9) for z in xi[q]])
            W.true('status', status[q] == (0 if d < F(1, 10 ** 12) else 1 if d < 9 else 2))

@contract('points and candidate cells', MESHES)
def candidates(W, kind, n, seed):
    """All points, several candidates in arbitrary order: the closest cell with its reference coordinates."""
    xx, et, cs = simplex_mesh(kind, n, seed)
    mesh = set_up(W, et, arr(W, xx), cs)
    dom = W.mod(FEM).FEDomain('d', mesh)
    cs = [[int(i) for i in c] for c in mesh.get_conn(et)]
    field = felib.field(W, dom.create_region('Omega', 'all'), 1)
    r = random.Random(seed)
    dim = len(xx[0])
    pts, cand, offs = [], [], [0]
    for k in range(24):
        if k % 3 == 0:                        # a vertex, a point of a facet, an inner point
            c = r.choice(cs)
            w = [F(r.randint(0, 2)) for _ in c]
            if not any(w):
                w[0] = F(1)
            pts.append([sum(a * xx[i][j] for a, i in zip(w, c)) / sum(w) for j in range(dim)])
        else:
            pts.append([F(r.randint(-20, 60), 20) for _ in range(dim)])
        q = r.sample(range(len(cs)), r.randint(0 if k % 8 == 5 else 1, len(cs)))
        cand += q
        offs.append(len(cand))
    for limit in (0, F(1, 2)):
        xi, cells, status = find(W, field, dom.mesh.cmesh, arr(W, pts), cand, offs, limit)
        for k, P in enumerate(pts):
            q = cand[offs[k]:offs[k + 1]]
            if not q:
                W.true('no candidates', status[k] == 5)
                continue
            W.true('a candidate', cells[k] in q)
            X = [mesh.coors[i] for i in cs[cells[k]]]
            W.eqs('the point', back(et, X, xi[k]), arr(W, [P])[0])
            ds = []
            for c in q:                       # exact distances
                d = solve_simplex([[F(z) for z in xx[i]] for i in cs[c]], P)
                ds.append(outside(et, d))
            own = ds[q.index(cells[k])]
            if min(ds) == 0:
                W.true('found inside', status[k] == 0 and own == 0)
                W.true('the first containing cell', cells[k] == q[ds.index(0)])
            else:
                W.true('the closest cell', own <= min(ds) + (0 if W.symbolic else F(1, 10 ** 9)))
                W.true('status', status[k] == (3 if limit == 0 else 1 if min(ds) < limit ** 2 else 2))

def solve_simplex(X, P):
    """Exact reference coordinates of a point."""
    dim = len(P)
    m = [[X[k + 1][j] - X[0][j] for k in range(dim)] + [P[j] - X[0][j]] for j in range(dim)]
    for i in range(dim):
        p = next(k for k in range(i, dim) if m[k][i] != 0)
        m[i], m[p] = m[p], m[i]
        m[i] = [c / m[i][i] for c in m[i]]
        for k in range(dim):
            if k != i:
                m[k] = [a - m[k][i] * b for a, b in zip(m[k], m[i])]
    return [m[i][dim] for i in range(dim)]

# ------------------------------------------------------------ values in the reference coordinates
EVAL = [dict(name=n, order=o, nc=c) for n, o, c in [('tri', 1, 1), ('tri', 2, 2), ('quad', 1, 2), ('quad', 2, 1), ('tet', 1, 3), ('tet', 2, 1),
                                                    ('hex', 1, 1), ('tri', 3, 1), ('tri', 1, 3), ('tet', 1, 2), ('hex', 1, 2)]]

@contract('values in reference coordinates', EVAL)
def evaluate(W, name, order, nc):
    """evaluate_in_rc() for all DOFs in rational points; zeros where the status is a failure."""
    dom = felib.domain(W, name, distort=1 if name in ('tri', 'tet') else 0)
    et = dom.mesh.descs[0]
    field = felib.field(W, dom.create_region('Omega', 'all'), order, (nc,) if nc > 1 else 1)
    dim = int(et[0])
    n = field.n_nod
    U = W.reals('u', n, nc)
    econn = field.get_econn(('cell', dim), field.region)
    r = random.Random(order)
    k = 4
    rc = [[F(r.randint(1, 5), 20) for _ in range(dim)] for _ in range(k)]
    cells = np.array([r.randrange(len(econn)) for _ in range(k)], dtype=np.int32)
    status = np.array([0, 1, 2, 0], dtype=np.int32)
    xi = arr(W, rc)
    for diff, shape in ((0, (k, nc, 1)), (1, (k, nc, dim))):
        out = W.reals('o', *shape)
        W.mod(CRC).evaluate_in_rc(out, xi, cells, status, U, econn, diff, field.create_basis_context())
        for p in range(k):
            if status[p] > 1:
                W.eqs('failed points', out[p], np.zeros(shape[1:]))
                continue
            c = int(cells[p])
            bf = field.poly_space.eval_basis(xi[p:p + 1], diff=diff)[0]
            if diff:
                X = [dom.mesh.coors[int(i)] for i in dom.mesh.get_conn(et)[c]]
                g = W.mod(PS).PolySpace.any_from_args('g', field.gel, 1).eval_basis(xi[p:p + 1], diff=1)[0]
                J = [[sum((X[a][i] * g[j, a] for a in range(1, len(X))), X[0][i] * g[j, 0]) for j in range(dim)] for i in range(dim)]
            for a in range(nc):
                if not diff:
                    W.eq('value', out[p, a, 0], sum((bf[0, q] * U[int(econn[c, q]), a] for q in range(1, bf.shape[1])),
                                                    bf[0, 0] * U[int(econn[c, 0]), a]))
                else:
                    for j in range(dim):      # chain rule
                        lhs = sum((out[p, a, i] * J[i][j] for i in range(1, dim)), out[p, a, 0] * J[0][j])
                        W.eq('gradient', lhs, sum((bf[j, q] * U[int(econn[c, q]), a] for q in range(1, bf.shape[1])),
                                                  bf[j, 0] * U[int(econn[c, 0]), a]))

# ------------------------------------------------------------ all cells and strategies (floating point)
def fmesh(W, kind, n, seed, jit):
    x, parts = block(kind, n, 0)
    r = random.Random(51 + seed)
    et, cs = parts[0]
    x = np.array([[float(c) for c in q] for q in x])
    if jit == 'affine':
        a = np.eye(x.shape[1]) + 0.3 * np.array([[r.random() - 0.5 for _ in x[0]] for _ in x[0]])
        x = x @ a.T
    elif jit:
        x = x + 0.2 * np.array([[r.random() - 0.5 for _ in q] for q in x])
    cs = [rot(et, c, r) for c in cs]
    r.shuffle(cs)
    return set_up(W, et, x, cs)

ALL = [dict(kind=k, n=n, seed=s, jit=j, strategy=st) for k, n in (('tri', (3, 2)), ('quad', (3, 2)), ('tet', (2, 2, 1)), ('hex', (2, 2, 1)))
       for s, j in ((0, None), (1, 'affine'), (2, 'all')) for st in ('general', 'convex') if not (st == 'convex' and j == 'all')]

@contract('points and fields', ALL, bounded=True)
def points(W, kind, n, seed, jit, strategy):
    mesh = fmesh(W, kind, n, seed, jit)
    dom = W.mod(FEM).FEDomain('d', mesh)
    mesh = dom.mesh
    et = mesh.descs[0]
    conn = mesh.get_conn(et)
    dim = int(et[0])
    field = felib.field(W, dom.create_region('Omega', 'all'), 2 if jit != 'all' or kind == 'tri' else 1)
    x = mesh.coors
    ins, own = [], []
    for c, k in enumerate(conn):
        for t in range(4):
            xi = np.array([0.02 + 0.96 * W.rng.random() for _ in range(dim)])
            if kind in ('tri', 'tet'):
                while xi.sum() > 0.98:
                    xi = np.array([0.02 + 0.96 * W.rng.random() for _ in range(dim)])
            if t == 3:                                    # on a facet
                xi[W.rng.randrange(dim)] = 0.0
            ins.append(back(et, x[k], xi))
            own.append(c)
    lo, hi = x.min(axis=0), x.max(axis=0)
    out = [lo - 0.6 + (hi - lo + 1.2) * np.array([W.rng.random() for _ in lo]) for _ in range(60)]
    P = np.array(ins + list(out) + [q for q in x])
    G = W.mod(GI)
    for limit in (0.0, 0.3):
        xi, cells, status = G.get_ref_coors(field, P, strategy=strategy, close_limit=limit)
        for p in range(len(P)):
            if p < len(ins) and p % 4 != 3:
                W.true('points in cells are found', status[p] == 0 and cells[p] == own[p])
            if status[p] in (0, 1, 2, 3):
                W.true('mapped back', np.allclose(back(et, x[conn[cells[p]]], xi[p]), P[p], rtol=0, atol=1e-7))
                d = outside(et, list(xi[p]))
                if status[p] == 0:
                    W.true('inside', d < 1e-14)
                elif status[p] == 1:
                    W.true('extrapolation within the limit', limit > 0 and d < limit ** 2 * (1 + 1e-9))
                elif status[p] == 2:
                    W.true('extrapolation outside the limit', limit > 0 and d > limit ** 2 * (1 - 1e-9))
                else:
                    W.true('no extrapolation', limit == 0)
            elif status[p] == 5:
                W.true('no cells', limit == 0 and strategy == 'general')
            else:
                W.true('Newton iterations fail only outside', status[p] == 4 and p >= len(ins) and kind in ('quad', 'hex'))
    # the cells of points of the mesh are among the potential cells
    cand, offs = G.get_potential_cells(P, dom.mesh.cmesh, extrapolate=True)
    for p in range(len(ins)):
        W.true('potential cells', p % 4 == 3 or own[p] in cand[offs[p]:offs[p + 1]])
    W.true('candidates of all points', (np.diff(offs) > 0).all())
    # polynomials of the space are evaluated exactly
    nod = field.get_coor()
    z = [W.rng.random() for _ in range(8)]
    quad = field.approx_order == 2 and jit != 'all'
    fun = lambda q: z[0] + q @ np.array(z[1:1 + dim]) + (z[4] * q[:, 0] * q[:, 1] if quad else 0)
    grd = lambda q: np.array(z[1:1 + dim]) + (z[4] * np.c_[q[:, 1], q[:, 0], np.zeros((len(q), dim - 2))] if quad else 0 * q)
    u = fun(nod)[:, None]
    n_in = len(ins)
    v, cl, st = field.evaluate_at(P, u, strategy=strategy, close_limit=0.3, ret_status=True)
    for p in range(len(P)):
        if st[p] <= 1:
            W.true('value of a polynomial', abs(v[p, 0, 0] - fun(P[p:p + 1])[0]) < 1e-6)
    v = field.evaluate_at(P[:n_in], u * (1 + 2j), strategy=strategy)
    W.true('complex values', np.allclose(v[:, 0, 0], fun(P[:n_in]) * (1 + 2j), rtol=0, atol=1e-6))
    g = field.evaluate_at(P[:n_in], u, strategy=strategy, mode='grad')
    W.true('gradients', np.allclose(g[:, 0], grd(P[:n_in]), rtol=0, atol=1e-5))
    vf = felib.field(W, field.region, 1, 'vector', name='v')
    A = np.array([[W.rng.random() for _ in range(dim)] for _ in range(dim)])
    uv = vf.get_coor() @ A.T
    dv = vf.evaluate_at(P[:n_in], uv, strategy=strategy, mode='div')
    W.true('divergence', np.allclose(dv.ravel(), np.trace(A), atol=1e-6))
    e = vf.evaluate_at(P[:n_in], uv, strategy=strategy, mode='cauchy_strain')
    ref = [A[i, i] for i in range(dim)] + [A[i, j] + A[j, i] for i, j in ((0, 1), (0, 2), (1, 2))[:1 if dim == 2 else 3]]
    W.true('strain', np.allclose(e.reshape(n_in, -1), ref, atol=1e-6))
    bad = vf.evaluate_at(np.array([lo - 10.0]), uv, strategy=strategy, close_limit=0.1)
    W.true('no values far from the mesh', np.isnan(bad).all())

if __name__ == '__main__':
    main(S)
