"""Isogeometric analysis: Bezier extraction and NURBS bases (iga.py, nurbs.c, igac.pyx, NurbsPatch, IGMapping)."""
import itertools, random
from fractions import Fraction as F
from math import comb
import numpy as np
from engine import sym
from engine.vc import Suite, main
from checks import felib

IGA, IGAC = 'sfepy.discrete.iga.iga', 'sfepy.discrete.iga.extmods.igac'
DOM, MAP = 'sfepy.discrete.iga.domain', 'sfepy.discrete.iga.mappings'
S = Suite('C19', 'Bezier extraction, NURBS bases', assumptions=[
    'arithmetic is exact; degrees, numbers and multiplicities of knots and numbers of elements are enumerated',
    'lengths of knot spans, weights, control points, evaluation points and DOFs are arbitrary (in 3D the control points and some weights are fixed rational numbers)'])
felib.use(S, IGA, IGAC, DOM, MAP)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

# ------------------------------------------------------------ oracles
def bernstein(x, p):
    return [comb(p, i) * x ** i * (1 - x) ** (p - i) for i in range(p + 1)]

def dbernstein(x, p):
    b = bernstein(x, p - 1) if p else []
    return [p * ((b[i - 1] if 0 < i else 0) - (b[i] if i < p else 0)) if p else 0 for i in range(p + 1)]

class Knots:
    """Open knot vector: breakpoints, interior multiplicities; `group` tells which breakpoint a knot is."""
    def __init__(self, W, p, mults, name='k', exact=None):
        n = len(mults) + 1
        L = [W.real('%s%d' % (name, i), lo=F(1, 10), hi=5) for i in range(n)] if exact is None else [W.num(c) for c in exact]
        x0 = W.real(name + 's', -3, 3) if exact is None else W.num(0)
        self.br = [x0]
        for c in L:
            self.br.append(self.br[-1] + c)
        self.group = [0] * (p + 1)
        for i, m in enumerate(mults):
            self.group += [i + 1] * m
        self.group += [n] * (p + 1)
        self.U = [self.br[g] for g in self.group]
        self.p, self.n_el = p, n
        self.start = [max(k for k, g in enumerate(self.group) if g == e) for e in range(n)]   # knot index of the span
        self.n_fun = len(self.U) - p - 1

    def basis(self, e, u, p=None):
        """Cox - de Boor: all the functions in the span e."""
        p = self.p if p is None else p
        N = [0] * (len(self.U) - 1)
        N[self.start[e]] = 1
        for q in range(1, p + 1):
            M = [0] * (len(self.U) - 1 - q)
            for i in range(len(M)):
                v = 0
                if self.group[i + q] != self.group[i]:
                    v = v + (u - self.U[i]) / (self.U[i + q] - self.U[i]) * N[i]
                if self.group[i + q + 1] != self.group[i + 1]:
                    v = v + (self.U[i + q + 1] - u) / (self.U[i + q + 1] - self.U[i + 1]) * N[i + 1]
                M[i] = v
            N = M
        return N

    def dbasis(self, e, u):
        p, U, g = self.p, self.U, self.group
        N = self.basis(e, u, p - 1)
        out = []
        for i in range(self.n_fun):
            v = 0
            if g[i + p] != g[i]:
                v = v + p / (U[i + p] - U[i]) * N[i]
            if g[i + p + 1] != g[i + 1]:
                v = v - p / (U[i + p + 1] - U[i + 1]) * N[i + 1]
            out.append(v)
        return out

    def conn(self):
        return [[self.start[e] - self.p + a for a in range(self.p + 1)] for e in range(self.n_el)]

def arr(W, v):
    return W.array(v) if W.symbolic else np.array(v, dtype=np.float64)

# ------------------------------------------------------------ Bernstein bases
@contract('Bernstein bases', [dict(p=p, impl=i) for p in range(0, 7) for i in ('C', 'Python')])
def bern(W, p, impl):
    """Values and derivatives of all the Bernstein polynomials in all points."""
    x = W.real('x', -2, 3)
    if impl == 'C':
        f, d = arr(W, [W.num(7)] * (p + 1)), arr(W, [W.num(9)] * (p + 1))     # filled by the function
        W.mod(IGAC).eval_bernstein_basis(f, d, x, p)
    else:
        f, d = W.mod(IGA).eval_bernstein_basis(x, p)
    W.eqs('values', f, bernstein(x, p))
    W.eqs('derivatives', d, dbernstein(x, p))

# ------------------------------------------------------------ Bezier extraction
PAT = {1: [[], [1], [1, 1]], 2: [[], [1], [2], [1, 1], [2, 1], [1, 2], [1, 1, 1]],
       3: [[], [1], [2], [3], [1, 1], [1, 2], [2, 1], [3, 1], [1, 3]], 4: [[], [1], [2], [3], [4], [1, 2]], 5: [[2], [4]]}

@contract('extraction in 1D', [dict(p=p, mults=m) for p, ms in PAT.items() for m in ms])
def extraction(W, p, mults):
    """N_a = sum_b C_ab B_b in every span, for all lengths of spans and all points; the connectivity selects these functions."""
    K = Knots(W, p, mults)
    M = W.mod(IGA)
    knots = arr(W, K.U)
    cs = M.compute_bezier_extraction_1d(knots, p)
    W.true('number of elements', len(cs) == K.n_el)
    conn, bconn = M.create_connectivity_1d(K.n_el, knots, p)
    conn = [[int(i) for i in c] for c in conn]
    W.true('connectivity', conn == K.conn())
    W.true('Bezier connectivity', [[int(i) for i in c] for c in bconn] == [[p * e + a for a in range(p + 1)] for e in range(K.n_el)])
    t = W.real('t', 0, 1)
    B = bernstein(t, p)
    for e in range(K.n_el):
        u = K.br[e] + t * (K.br[e + 1] - K.br[e])
        N = K.basis(e, u)
        for a in range(p + 1):
            v = 0
            for b in range(p + 1):
                v = v + cs[e][a][b] * B[b]
            W.eq('function %d in span %d' % (a, e), v, N[K.start[e] - p + a])
        for b in range(p + 1):
            s = 0
            for a in range(p + 1):
                s = s + cs[e][a][b]
            W.eq('partition of unity', s, 1)
    W.eqs('knots are not changed', knots, K.U)

@contract('non-negative extraction', [dict(p=p, mults=m) for p, ms in PAT.items() for m in ms if p < 4 and len(m) < 3])
def nonneg(W, p, mults):
    """The entries of the operators are non-negative, hence so are the functions."""
    K = Knots(W, p, mults, exact=[F(c, 7) for c in (5, 2, 9, 4)[:len(mults) + 1]])
    cs = W.mod(IGA).compute_bezier_extraction_1d(arr(W, K.U), p)
    for c in cs:
        for row in c:
            for v in row:
                W.le('non-negative', -F(1, 10 ** 12), v)

# ------------------------------------------------------------ tensor products
def patch(W, ps, mults, exact=True):
    return [Knots(W, p, m, name='k%d' % i, exact=[F(c + i, 3) for c in (2, 4, 3)[:len(m) + 1]] if exact else None)
            for i, (p, m) in enumerate(zip(ps, mults))]

TP = [((1,), ([1],)), ((2,), ([2],)), ((1, 1), ([1], [])), ((2, 1), ([1], [1])), ((1, 2), ([1, 1], [2])), ((2, 2), ([], [1])), ((3, 2), ([1], [])),
      ((1, 1, 1), ([1], [], [1])), ((2, 1, 1), ([], [1], [])), ((1, 2, 1), ([1], [1], [])), ((1, 1, 2), ([], [1], [2]))]
TPC = [dict(ps=list(p), mults=[list(m) for m in ms]) for p, ms in TP]

def ravel(i, shape):
    out = 0
    for k, n in zip(i, shape):
        out = out * n + k
    return out

@contract('tensor product connectivity and operators', TPC)
def tp_conn(W, ps, mults):
    """Elements and functions in the C order of their 1D numbers; Kronecker products of the operators."""
    Ks = patch(W, ps, mults)
    M = W.mod(IGA)
    knots = tuple(arr(W, K.U) for K in Ks)
    n_els = [K.n_el for K in Ks]
    conn, bconn = M.create_connectivity(n_els, knots, ps)
    nf, nb = [K.n_fun for K in Ks], [p * n + 1 for p, n in zip(ps, n_els)]
    for ie, el in enumerate(itertools.product(*map(range, n_els))):
        for il, loc in enumerate(itertools.product(*[range(p + 1) for p in ps])):
            W.true('functions', int(conn[ie][il]) == ravel([K.conn()[e][a] for K, e, a in zip(Ks, el, loc)], nf))
            W.true('Bezier functions', int(bconn[ie][il]) == ravel([p * e + a for p, e, a in zip(ps, el, loc)], nb))
    cs = M.compute_bezier_extraction(knots, ps)
    ccs = M.combine_bezier_extraction(cs)
    W.true('number of operators', len(ccs) == len(conn))
    for ie, el in enumerate(itertools.product(*map(range, n_els))):
        for i, ii in enumerate(itertools.product(*[range(p + 1) for p in ps])):
            for j, jj in enumerate(itertools.product(*[range(p + 1) for p in ps])):
                v = 1
                for c, e, a, b in zip(cs, el, ii, jj):
                    v = v * c[e][a][b]
                W.eq('operator', ccs[ie][i][j], v)

@contract('vertices, boundaries and entities of Bezier elements', TPC)
def topology(W, ps, mults):
    M = W.mod(IGA)
    dim = len(ps)
    n_els = [len(m) + 1 for m in mults]
    Ks = patch(W, ps, mults)
    _, bconn = M.create_connectivity(n_els, tuple(arr(W, K.U) for K in Ks), ps)
    tconn = M.get_bezier_topology(bconn, ps)
    nb = [p * n + 1 for p, n in zip(ps, n_els)]
    REF = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
           3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}[dim]
    pos = {}
    for ie, el in enumerate(itertools.product(*map(range, n_els))):
        for k, v in enumerate(REF):
            g = ravel([p * (e + a) for p, e, a in zip(ps, el, v)], nb)
            W.true('corners', int(tconn[ie][k]) == g)
            pos[g] = [e + a for e, a in zip(el, v)]
    regions = M.get_patch_box_regions(n_els, ps)
    W.true('all sides', len(regions) == 2 * dim)
    for a in range(dim):
        for side in (0, 1):
            r = [int(i) for i in regions['xi%d%d' % (a, side)]]
            want = [g for g, x in pos.items() if x[a] == side * n_els[a]]
            W.true('vertices of sides', sorted(r) == sorted(want))
    ref = [list(v) for v in itertools.product(*[range(p + 1) for p in ps])]      # positions of local functions
    faces, edges, vertices = M.get_bezier_element_entities(ps)
    W.true('vertices', [[int(i) for i in v] for v in vertices] == [[ref.index([p * c for p, c in zip(ps, v)])] for v in REF])
    ENT = {2: [[(0, 1), (1, 2), (2, 3), (3, 0)]], 3: [[(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (3, 7), (2, 6), (1, 5)],
           [(0, 1, 2, 3), (0, 3, 4, 7), (0, 1, 4, 5), (4, 5, 6, 7), (1, 2, 5, 6), (2, 3, 6, 7)]], 1: []}[dim]
    for ents, vs in zip([edges, faces], ENT):
        W.true('number of entities', len(ents) == len(vs))
        for ent, v in zip(ents, vs):
            box = [{REF[i][a] for i in v} for a in range(dim)]
            want = [i for i, x in enumerate(ref) if all(len(b) == 2 or x[a] == ps[a] * next(iter(b)) for a, b in enumerate(box))]
            W.true('entities', sorted(int(i) for i in ent) == want)
    if dim == 1:
        return
    # facet quadrature points lie in the facets, the tangential coordinates and degrees correspond
    facets = faces if dim == 3 else edges
    q = [[W.real('q%d%d' % (i, j), 0, 1) for j in range(dim - 1)] for i in range(2)]
    bq = M.create_boundary_qp(arr(W, q), dim)
    axes, coors = M.get_facet_axes(dim)
    sd = M.get_surface_degrees(ps)
    for f, ent in enumerate(facets):
        fixed = [a for a in range(dim) if len({ref[int(i)][a] for i in ent}) == 1]
        W.true('one fixed coordinate', len(fixed) == 1 and int(axes[f][-1]) == fixed[0])
        c = ref[int(ent[0])][fixed[0]] // ps[fixed[0]]
        for i in range(2):
            W.eq('fixed coordinate', bq[f][i][fixed[0]], c)
            for j in range(dim - 1):
                W.eq('facet coordinates', bq[f][i][int(axes[f][j])], q[i][j])
        d = sd[f]
        W.true('degrees of facets', sorted(int(k) for k in (d if dim == 3 else [d])) == sorted(ps[a] for a in range(dim) if a != fixed[0]))

# ------------------------------------------------------------ NURBS bases
def data(W, ps, mults, kind, exact=True):
    """Patch: knots exact (extraction is proved above), weights and control points."""
    Ks = patch(W, ps, mults, exact)
    M = W.mod(IGA)
    knots = tuple(arr(W, K.U) for K in Ks)
    cs = M.compute_bezier_extraction(knots, ps)
    conn, bconn = M.create_connectivity([K.n_el for K in Ks], knots, ps)
    shape = [K.n_fun for K in Ks]
    n, dim = int(np.prod(shape)), len(ps)
    r = random.Random(n + dim)
    affine = kind == 'point' and len(ps) == 2 and list(ps) != [1, 1]     # keeps the gradients polynomial
    if kind == 'ones' or affine:
        w = [W.num(1)] * n
    elif kind == 'weights':
        # all weights in 1D, a few of them in more dimensions
        w = [W.real('w%d' % i, lo=F(1, 2), hi=3) if dim == 1 or (dim == 2 and i in (0, n // 2 + 1)) or (dim == 3 and i == n // 2) else
             W.num(F(r.randint(5, 15), 10)) for i in range(n)]
    else:
        w = [W.num(F(r.randint(5, 15), 10)) for i in range(n)]
    x = []
    for idx in itertools.product(*map(range, shape)):
        if affine:                            # Greville abscissae
            g = [sum(K.U[i + 2:i + 1 + K.p], K.U[i + 1]) / K.p for K, i in zip(Ks, idx)]
            x.append([3 * g[0] + g[1], 2 * g[1] - g[0]])
            continue
        x.append([W.num(F(4 * c) + F(r.randint(-6, 6), 10) + F(idx[(k + 1) % dim], 5)) for k, c in enumerate(idx)])
    return Ks, knots, cs, conn, bconn, arr(W, w), arr(W, x)

def tensor(Ks, conn, ie, qp, w):
    """Rational basis functions of an element with derivatives w.r.t. the reference coordinates."""
    el = list(itertools.product(*[range(K.n_el) for K in Ks]))[ie]
    N, dN = [], []
    for K, e, t in zip(Ks, el, qp):
        h = K.br[e + 1] - K.br[e]
        u = K.br[e] + t * h
        i0 = K.start[e] - K.p
        N.append(K.basis(e, u)[i0:i0 + K.p + 1])
        dN.append([h * v for v in K.dbasis(e, u)[i0:i0 + K.p + 1]])
    dim = len(Ks)
    num, dnum = [], []
    for a, loc in enumerate(itertools.product(*[range(K.p + 1) for K in Ks])):
        wa = w[int(conn[ie][a])]
        v = wa
        for k, i in enumerate(loc):
            v = v * N[k][i]
        num.append(v)
        dv = []
        for j in range(dim):
            z = wa
            for k, i in enumerate(loc):
                z = z * (dN[k][i] if k == j else N[k][i])
            dv.append(z)
        dnum.append(dv)
    s = sum(num[1:], num[0])
    ds = [sum([d[j] for d in dnum[1:]], dnum[0][j]) for j in range(dim)]
    R = [v / s for v in num]
    dR = [[(d[j] - r * ds[j]) / s for j in range(dim)] for d, r in zip(dnum, R)]
    return R, dR

def det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((m[0][j] * (m[1][(j + 1) % 3] * m[2][(j + 2) % 3] - m[1][(j + 2) % 3] * m[2][(j + 1) % 3]) for j in (1, 2)),
               m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]))

def points(W, dim, kind, n=2):
    if kind == 'point':                       # arbitrary in one direction (each in turn by the degrees)
        return [[W.real('x%d' % j, 0, 1) if j == dim - 1 else W.num(F(3, 7)) for j in range(dim)],
                [W.real('x%d' % j, 0, 1) if j == 0 else W.num(F(2, 5)) for j in range(dim)]]
    r = random.Random(dim)
    return [[W.num(F(r.randint(0, 10), 10)) for j in range(dim)] for i in range(n)]

def check_basis(W, Ks, conn, ie, qp, w, x, bf, bfg, d, what=''):
    """bfg (dim, n): gradients w.r.t. physical coordinates; None skips."""
    dim = len(Ks)
    R, dR = tensor(Ks, conn, ie, qp, w)
    W.eqs(what + 'values', bf, R)
    if bfg is None:
        return R
    X = [x[int(i)] for i in conn[ie]]
    J = [[sum([X[a][i] * dR[a][j] for a in range(1, len(X))], X[0][i] * dR[0][j]) for j in range(dim)] for i in range(dim)]
    if d is not None:
        W.eq(what + 'Jacobian', d, det(J))
    for a in range(len(R)):
        for j in range(dim):
            W.eq(what + 'gradients', sum([bfg[i][a] * J[i][j] for i in range(1, dim)], bfg[0][a] * J[0][j]), dR[a][j])
    return R

NURBS = [dict(c, kind=k) for c in TPC for k in ('weights', 'ones', 'point') if not (len(c['ps']) == 3 and k == 'weights' and 2 in c['ps'])]

def pts_of(W, dim, kind):
    return points(W, dim, 'point' if kind == 'point' and dim < 3 else 'fixed')

@contract('mapping data, Python', NURBS)
def mapping_py(W, ps, mults, kind):
    run_mapping(W, ps, mults, kind, IGA)

@contract('mapping data, C', NURBS)
def mapping_c(W, ps, mults, kind):
    run_mapping(W, ps, mults, kind, IGAC)

def i32(v):
    return np.array(v, dtype=np.int32)

def c4(W, cs):
    return [W.np.ascontiguousarray(W.np.asarray(c)[:, None]) for c in cs] if W.symbolic else [np.ascontiguousarray(np.asarray(c)[:, None]) for c in cs]

def run_mapping(W, ps, mults, kind, impl):
    """Basis functions, gradients w.r.t. physical coordinates, Jacobians in all elements and in selected ones."""
    Ks, knots, cs, conn, bconn, w, x = data(W, ps, mults, kind)
    qps = pts_of(W, len(ps), kind)
    q = arr(W, qps)
    if impl == IGAC:
        cs = c4(W, cs)
    n = len(conn)
    for cells in (None, list(range(n))[::-1][:2]):
        M = W.mod(impl)
        cc = cells if cells is None else np.array(cells, dtype=np.uint32)
        bf, bfg, d = M.eval_mapping_data_in_qp(q, x, w, i32(ps), cs, conn, cc)
        W.true('shapes', tuple(bf.shape) == (n if cells is None else len(cells), len(qps), 1, conn.shape[1]) and bfg.shape[2] == len(ps))
        for k, ie in enumerate(range(n) if cells is None else cells):
            for iq, p in enumerate(qps):
                check_basis(W, Ks, conn, ie, p, w, x, bf[k][iq][0], bfg[k][iq], d[k][iq][0][0])

@contract('variables in quadrature points, Python', [c for c in NURBS if c['kind'] != 'weights'])
def variable_py(W, ps, mults, kind):
    run_variable(W, ps, mults, kind, IGA)

@contract('variables in quadrature points, C', NURBS)
def variable_c(W, ps, mults, kind):
    run_variable(W, ps, mults, kind, IGAC)

def run_variable(W, ps, mults, kind, impl):
    Ks, knots, cs, conn, bconn, w, x = data(W, ps, mults, kind)
    dim = len(ps)
    qps = pts_of(W, dim, kind)
    n, nc = len(x), 2
    u = W.reals('u', n, nc)
    if impl == IGAC:
        cs = c4(W, cs)
    cells = list(range(len(conn)))[1:] or [0]
    for cl in (None, cells):
        cc = None if cl is None else np.array(cl, dtype=np.uint32)
        co, vals, dets = W.mod(impl).eval_variable_in_qp(u, arr(W, qps), x, w, i32(ps), cs, conn, cc)
        k = 0
        for ie in (range(len(conn)) if cl is None else cl):
            for p in qps:
                R, dR = tensor(Ks, conn, ie, p, w)
                ec = [int(i) for i in conn[ie]]
                for c in range(nc):
                    W.eq('values', vals[k][c], sum([R[a] * u[i][c] for a, i in list(enumerate(ec))[1:]], R[0] * u[ec[0]][c]))
                for c in range(dim):
                    W.eq('coordinates', co[k][c], sum([R[a] * x[i][c] for a, i in list(enumerate(ec))[1:]], R[0] * x[ec[0]][c]))
                J = [[sum([x[ec[a]][i] * dR[a][j] for a in range(1, len(ec))], x[ec[0]][i] * dR[0][j]) for j in range(dim)] for i in range(dim)]
                W.eq('Jacobian', dets[k][0], det(J))
                k += 1
        W.true('number of values', len(vals) == k == len(co))

@contract('evaluation context', NURBS)
def context(W, ps, mults, kind):
    """CNURBSContext: values and gradients in the current element, also after changing the element and reusing buffers."""
    Ks, knots, cs, conn, bconn, w, x = data(W, ps, mults, kind)
    qps = pts_of(W, len(ps), kind)
    ctx = W.mod(IGAC).CNURBSContext(x, w, i32(ps), c4(W, cs), conn)
    for ie in [len(conn) - 1, 0]:
        ctx.iel = ie
        bf = ctx.evaluate(arr(W, qps))
        bfg = ctx.evaluate(arr(W, qps), diff=True)
        for iq, p in enumerate(qps):
            check_basis(W, Ks, conn, ie, p, w, x, bf[iq][0], bfg[iq], None)

@contract('control points of the Bezier elements', [dict(c, kind=k) for c in TPC for k in ('weights', 'ones') if not (len(c['ps']) == 3 and k == 'weights')])
def control(W, ps, mults, kind):
    """The rational Bezier form of each element is the NURBS patch, for all control points."""
    Ks, knots, cs, conn, bconn, w, _ = data(W, ps, mults, kind)
    M = W.mod(IGA)
    dim = len(ps)
    x = W.reals('x', len(w), dim)
    bcp, bw = M.compute_bezier_control(x, w, M.combine_bezier_extraction(cs), conn, bconn)
    qp = points(W, dim, 'point' if dim == 1 else 'fixed', 1)[0]
    for ie in range(len(conn)):
        R, _ = tensor(Ks, conn, ie, qp, w)
        Bs = [bernstein(t, p) for t, p in zip(qp, ps)]
        num, den = [0] * dim, 0
        for a, loc in enumerate(itertools.product(*[range(p + 1) for p in ps])):
            b = int(bconn[ie][a])
            v = bw[b]
            for B, i in zip(Bs, loc):
                v = v * B[i]
            den = den + v
            for c in range(dim):
                num[c] = num[c] + v * bcp[b][c]
        for c in range(dim):
            W.eq('point', num[c] / den, sum([R[a] * x[int(i)][c] for a, i in list(enumerate(conn[ie]))[1:]], R[0] * x[int(conn[ie][0])][c]))

# ------------------------------------------------------------ NurbsPatch
@contract('evaluation of patches', [dict(c, kind=k) for c in TPC for k in ('weights', 'ones', 'exact') if not (len(c['ps']) == 3 and k == 'weights')])
def evaluate(W, ps, mults, kind):
    """NurbsPatch: geometry and fields in a grid of parameters (C order), also in the knots."""
    Ks, knots, cs, conn, bconn, w, x = data(W, ps, mults, kind)
    dim = len(ps)
    P = W.mod(DOM).NurbsPatch(knots, ps, x, w, cs, conn)
    pars, loc = [], []
    for K in Ks:
        row, lr = [], []
        for e in range(K.n_el):
            for t in (F(0), F(1, 3), F(1)) if dim < 3 else (F(0), F(2, 5)):
                if e and t == 0:
                    continue
                row.append(K.br[e] + t * (K.br[e + 1] - K.br[e]))
                lr.append((e, W.num(t)))
        order = list(range(len(row)))
        random.Random(dim).shuffle(order)
        pars.append(arr(W, [row[i] for i in order]))
        loc.append([lr[i] for i in order])
    u = W.reals('u', len(x), 2)
    n_els = [K.n_el for K in Ks]
    for field, out in ((x, P(*pars)), (u, P.evaluate(u, *pars))):
        nc = len(field[0])
        W.true('number of points', len(out) == int(np.prod([len(l) for l in loc])))
        for k, c in enumerate(itertools.product(*loc)):
            ie = ravel([e for e, t in c], n_els)
            R, _ = tensor(Ks, conn, ie, [t for e, t in c], w)
            ec = [int(i) for i in conn[ie]]
            for j in range(nc):
                W.eq('values', out[k][j], sum([R[a] * field[i][j] for a, i in list(enumerate(ec))[1:]], R[0] * field[ec[0]][j]))

@contract('isogeometric mapping', [dict(c, kind='exact') for c in TPC if len(c['ps']) > 1])
def mapping(W, ps, mults, kind):
    """IGMapping: physical points, weighted Jacobians and volumes of selected cells."""
    Ks, knots, cs, conn, bconn, w, x = data(W, ps, mults, kind)
    from types import SimpleNamespace as NS
    dim = len(ps)
    P = W.mod(DOM).NurbsPatch(knots, ps, x, w, cs, conn)
    cells = np.array(list(range(len(conn)))[::-1], dtype=np.uint32)
    m = W.mod(MAP).IGMapping(NS(nurbs=P, shape=NS(dim=dim), gel=None), cells)
    qps = points(W, dim, 'fixed', 3)
    wq = W.reals('q', 3, pos=True)
    qp = m.get_physical_qps(arr(W, qps))
    g = m.get_mapping(arr(W, qps), wq)
    for k, ie in enumerate(int(i) for i in cells):
        vol = 0
        for iq, p in enumerate(qps):
            R, dR = tensor(Ks, conn, ie, p, w)
            ec = [int(i) for i in conn[ie]]
            W.eqs('physical points', qp[k][iq], [sum([R[a] * x[i][c] for a, i in list(enumerate(ec))[1:]], R[0] * x[ec[0]][c]) for c in range(dim)])
            J = [[sum([x[ec[a]][i] * dR[a][j] for a in range(1, len(ec))], x[ec[0]][i] * dR[0][j]) for j in range(dim)] for i in range(dim)]
            d = det(J)
            d = (d if d > 0 else -d) * wq[iq]
            W.eq('weighted Jacobian', g.det[k][iq][0][0], d)
            vol = vol + d
            W.eqs('basis', g.bf[k][iq][0], R)
            for a in range(len(R)):
                for j in range(dim):
                    W.eq('gradients', sum([g.bfg[k][iq][i][a] * J[i][j] for i in range(1, dim)], g.bfg[k][iq][0][a] * J[0][j]), dR[a][j])
        W.eq('volume', W.np.asarray(g.volume)[k].ravel()[0] if W.symbolic else np.asarray(g.volume)[k].ravel()[0], vol)

if __name__ == '__main__':
    main(S)
