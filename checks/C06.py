"""Reference element bases."""
import itertools
from fractions import Fraction
from math import factorial
import numpy as np
from engine.vc import Suite, main
from engine import pyworld, sym

PS, GE = 'sfepy.discrete.fem.poly_spaces', 'sfepy.discrete.fem.geometry_element'
S = Suite('C06', 'element bases', assumptions=[
    'approximation orders are enumerated up to a limit per geometry (orders are not symbolic); the points are symbolic',
    'floating-point evaluation is treated as exact arithmetic'], conc=1)
pyworld.cython(S, PS, GE, 'sfepy.discrete.fem.extmods.bases', 'sfepy.discrete.fem.extmods.lobatto_bases',
               'sfepy.discrete.iga.extmods.igac')

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

SIMPLEX = ('1_2', '2_3', '3_4')
TENSOR = ('2_4', '3_8')

def point(W, geometry, n=1, name='x', closed=True):
    """Arbitrary points of the closed reference element."""
    d = int(geometry[0])
    x = W.reals(name, n, d)
    if not W.symbolic:
        for i in range(n):
            r = [0.02 + 0.96 * W.rng.random() for _ in range(d)]
            k = {'2_3': 2, '3_4': 3, '3_6': 2}.get(geometry, 0)
            while k and sum(r[:k]) > 0.98:
                r = [0.02 + 0.96 * W.rng.random() for _ in range(d)]
            x[i] = r
        return x
    for i in range(n):
        for j in range(d):
            W.assume(x[i, j] >= 0)
            W.assume(x[i, j] <= 1)
        k = {'2_3': 2, '3_4': 3, '3_6': 2}.get(geometry, 0)
        if k:
            W.assume(sum(x[i, :k]) <= 1)
            for j in range(k):                       # consequences
                W.assume(1 - sum(x[i, :k]) + x[i, j] >= 0)
            W.assume(1 - sum(x[i, :k]) >= 0)
        for j in range(d):
            W.assume(1 - x[i, j] >= 0)
    return x

def deriv(W, f, x, k):
    """d f(x) / d x[:, k]"""
    if W.symbolic:
        v = f(x)
        out = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(v.shape):
            e = sym.lift(v[ix])
            d = sym.ZERO
            for i in range(x.shape[0]):
                d = d + sym.diff(e, x[i, k])
            out[ix] = d
        return out
    h = 1e-3
    e = np.zeros_like(x)
    e[:, k] = h

    def c(s):
        return (f(x + s * e) - f(x - s * e)) / (2 * s * h)
    a, b, c4 = c(1.0), c(0.5), c(0.25)
    r1, r2 = (4 * b - a) / 3, (4 * c4 - b) / 3
    return (16 * r2 - r1) / 15

def geom(W, name):
    return W.mod(GE).GeometryElement(name)

def space(W, kind, geometry, order):
    P = W.mod(PS)
    return getattr(P, kind)('ps', geom(W, geometry), order)

LS, LB, LT, LW = ('LagrangeSimplexPolySpace', 'LagrangeSimplexBPolySpace',
                  'LagrangeTensorProductPolySpace', 'LagrangeWedgePolySpace')
SER, LOB, BS, BT, SEM = ('SerendipityTensorProductPolySpace', 'LobattoTensorProductPolySpace',
                         'BernsteinSimplexPolySpace', 'BernsteinTensorProductPolySpace',
                         'SEMTensorProductPolySpace')

def cs(kind, **kw):
    return [dict(kind=kind, geometry=g.strip('g'), order=o) for g, os in kw.items() for o in os]

def mk(kind, spec):
    return [dict(kind=kind, geometry=g, order=o) for g, os in spec.items() for o in os]

NODAL = (mk(LS, {'1_2': range(0, 7), '2_3': range(0, 6), '3_4': range(0, 5)})
         + mk(LT, {'2_4': range(1, 5), '3_8': range(1, 4)})
         + mk(LW, {'3_6': range(1, 3)})
         + mk(SER, {'2_4': (1, 2, 3), '3_8': (1, 2, 3)}))
OTHER = (mk(LB, {'2_3': (1, 2), '3_4': (1, 2)})
         + mk(BS, {'1_2': range(1, 5), '2_3': range(1, 5), '3_4': range(1, 4)})
         + mk(BT, {'1_2': range(1, 5), '2_4': range(1, 4), '3_8': range(1, 3)}))
LOBS = mk(LOB, {'1_2': range(1, 11), '2_4': range(1, 6), '3_8': range(1, 4)})

@contract('kronecker', [c for c in NODAL if c['order'] > 0])
def kronecker(W, kind, geometry, order):
    ps = space(W, kind, geometry, order)
    x = np.array(ps.node_coors)
    if W.symbolic:
        x = W.array(x)
    b = ps.eval_basis(x)
    W.true('shape', b.shape == (ps.n_nod, 1, ps.n_nod))
    W.eqs('value at node', b[:, 0, :], np.eye(ps.n_nod, dtype=int))

@contract('unity', NODAL + OTHER)
def unity(W, kind, geometry, order):
    ps = space(W, kind, geometry, order)
    x = point(W, geometry)
    b = ps.eval_basis(x)
    W.true('shape', b.shape == (1, 1, ps.n_nod))
    W.eq('sum of the values', b[0, 0].sum(), 1)
    if kind in (BS, BT):
        for i in range(ps.n_nod if order <= 2 else 0):
            W.le('nonnegative %d' % i, 0, b[0, 0, i])
    g = ps.eval_basis(x, diff=1) if order > 0 or kind == LS else None
    d = int(geometry[0])
    W.true('shape of the gradient', g.shape == (1, d, ps.n_nod))
    W.eqs('sum of the gradients', g[0].sum(1), np.zeros(d, dtype=int))

@contract('gradient', NODAL + OTHER + LOBS)
def gradient(W, kind, geometry, order):
    ps = space(W, kind, geometry, order)
    x = point(W, geometry)
    g = ps.eval_basis(x, diff=1)
    for k in range(int(geometry[0])):
        d = deriv(W, lambda z: ps.eval_basis(z, suppress_errors=not W.symbolic)[:, 0, :], x, k)
        W.eqs('derivative %d' % k, g[:, k, :], d)

def boundary_points(geometry):
    """Vertices, midpoints of all vertex pairs (edges, diagonals) and the center."""
    g = {'1_2': [(0,), (1,)], '2_3': [(0, 0), (1, 0), (0, 1)],
         '3_4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
         '2_4': [(i, j) for i in (0, 1) for j in (0, 1)],
         '3_8': [(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)],
         '3_6': [p + (k,) for k in (0, 1) for p in ((0, 0), (1, 0), (0, 1))]}[geometry]
    out = set(tuple(2 * i for i in p) for p in g)
    out.update(tuple(i + j for i, j in zip(p, q)) for p in g for q in g)
    return sorted(out)                                        # in halves

@contract('gradient/boundary', NODAL + OTHER + LOBS)
def gradient_boundary(W, kind, geometry, order):
    """
    The basis functions are polynomials: their derivatives also in the vertices and on
    the edges are given exactly by the differences of enough values.
    """
    d = int(geometry[0])
    pts = boundary_points(geometry)
    if kind == LOB and d == 3:
        pts = pts[::3]
    ps = space(W, kind, geometry, order)
    n = len(pts)
    x = W.array([[W.frac(i, 2) for i in p] for p in pts])
    g = ps.eval_basis(x, diff=1)
    W.true('shape', g.shape == (n, d, ps.n_nod))
    m = (max(order, 1) + 4) // 2                              # exact up to the degree 2 m
    for k in range(d):
        ref = 0
        for j in range(1, m + 1):
            c = Fraction(1)
            for i in range(1, m + 1):
                if i != j:
                    c *= Fraction(i * i, i * i - j * j)
            c = c * 10 / (2 * j)
            e = [[W.frac(j, 10) if i == k else 0 for i in range(d)]] * n
            e = W.array(e)
            dv = (ps.eval_basis(x + e, suppress_errors=True)[:, 0, :]
                  - ps.eval_basis(x - e, suppress_errors=True)[:, 0, :])
            ref = ref + dv * W.frac(c.numerator, c.denominator)
        for i in range(n):
            if not W.symbolic:
                W.true('finite %d %d' % (k, i), bool(np.isfinite(g[i, k]).all()))
            W.eqs('derivative %d in %s' % (k, [v / 2 for v in pts[i]]), g[i, k], ref[i])

HESS = (mk(LS, {'1_2': range(0, 5), '2_3': range(0, 4), '3_4': range(0, 3)})
        + mk(LT, {'2_4': range(1, 4), '3_8': range(1, 3)}))

@contract('hessian', HESS)
def hessian(W, kind, geometry, order):
    ps = space(W, kind, geometry, order)
    x = point(W, geometry)
    h = ps.eval_basis(x, diff=2)
    d = int(geometry[0])
    W.true('shape', h.shape == (1, d, d, ps.n_nod))
    for k in range(d):
        e = deriv(W, lambda z: ps.eval_basis(z, diff=1, suppress_errors=not W.symbolic), x, k)
        for j in range(d):
            W.eqs('second derivative %d %d' % (j, k), h[:, j, k, :], e[:, j, :])

@contract('reproduces', [c for c in NODAL if c['order'] > 0])
def reproduces(W, kind, geometry, order):
    """Nodal interpolation is exact on the polynomials of the space."""
    ps = space(W, kind, geometry, order)
    x = point(W, geometry)
    b = ps.eval_basis(x)[0, 0]
    d = int(geometry[0])
    X = ps.node_coors
    for e in itertools.product(range(order + 1), repeat=d):
        if kind in (LS, SER) and sum(e) > order or kind == LW and e[0] + e[1] > order:
            continue
        v = np.ones(ps.n_nod, dtype=int)
        m = 1
        for i in range(d):
            v = v * X[:, i] ** e[i]
            m = m * x[0, i] ** e[i]
        W.eq('interpolant of x^%s' % (e,), (v * b).sum(), m)

@contract('nodes/facets', [c for c in NODAL + OTHER if c['order'] > 0 and c['kind'] != LW])
def node_facets(W, kind, geometry, order):
    """Vertex, edge, face and bubble nodes lie where their type says."""
    g = geom(W, geometry)
    ps = space(W, kind, geometry, order)
    X = ps.node_coors
    nd = ps.describe_nodes()
    V = g.coors
    W.true('number of nodes', X.shape == (ps.n_nod, int(geometry[0])))
    W.eqs('vertex nodes', X[nd.vertex], V)
    W.true('vertex numbers', list(nd.vertex) == list(range(g.n_vertex)))

    def on(label, p, verts, interior=True):
        """p is a convex combination of the vertices, in the facet's interior."""
        lo, hi = verts.min(0), verts.max(0)
        for a, l, h in zip(p, lo, hi):
            W.le(label, l, a)
            W.le(label, a, h)
        # off the other vertices' supporting planes
        # the facet is the set where its constant coordinates (or the sum) are fixed
        if len(verts) == 2:
            t = verts[1] - verts[0]
            r = p - verts[0]
            for a in range(len(p)):
                for b in range(a):
                    W.eq(label + ' on the line', t[a] * r[b], t[b] * r[a])
        elif len(verts) in (3, 4) and len(p) == 3:
            n = np.array(np.cross(np.array(verts[1] - verts[0], dtype=float),
                                  np.array(verts[2] - verts[0], dtype=float)))
            n = [int(round(z)) for z in n]
            W.eq(label + ' in the plane', sum(n[i] * (p[i] - verts[0][i]) for i in range(3)), 0)
    if nd.edge is not None:
        W.true('all edges', len(nd.edge) == len(g.edges))
        for ie, (e, nn) in enumerate(zip(g.edges, nd.edge)):
            W.true('edge nodes', len(nn) == nd.n_edge_nod == order - 1)
            for i, k in enumerate(nn):
                # equidistant, from the first to the second vertex of the edge
                on('edge %d node %d' % (ie, i), X[k], V[e])
                if kind not in (BT,):
                    W.eqs('edge %d node %d position' % (ie, i), X[k] * order,
                          V[e[0]] * (order - 1 - i) + V[e[1]] * (i + 1))
    if nd.face is not None:
        W.true('all faces', len(nd.face) == len(g.faces))
        for ie, (e, nn) in enumerate(zip(g.faces, nd.face)):
            W.true('face nodes', len(nn) == nd.n_face_nod)
            for i, k in enumerate(nn):
                on('face %d node %d' % (ie, i), X[k], V[e])
                W.true('face interior', all(max(abs(float(z)) for z in (X[k] - X[v])) > 0 for v in nd.vertex))
    tot = nd.n_vertex_nod + nd.n_bubble_nod
    tot += sum(len(z) for z in nd.edge or ()) + sum(len(z) for z in nd.face or ())
    W.true('every node has one place', tot == ps.n_nod)
    # distinct nodes
    W.true('distinct nodes', len({tuple(str(z) for z in r) for r in ps.nodes.tolist()}) == ps.n_nod)

@contract('facet support', [c for c in NODAL + mk(LB, {'2_3': (1, 2), '3_4': (1, 2)}) + LOBS
                            if c['order'] > 0 and c['kind'] != LW])
def facet_support(W, kind, geometry, order):
    """On a facet only the functions of its nodes are nonzero (continuity)."""
    g = geom(W, geometry)
    ps = space(W, kind, geometry, order)
    d = int(geometry[0])
    V = g.coors
    nts = ps.nts
    facets = [[i] for i in range(2)] if d == 1 else (g.edges if d == 2 else g.faces)
    for ifa, fv in enumerate(facets):
        fv = [int(i) for i in fv]
        # a point of the facet
        s = point(W, {1: '1_2', 2: '1_2', 3: '2_3' if len(fv) == 3 else '2_4'}[d], name='s%d_' % ifa)[0]
        if d == 1:
            p = [V[fv[0]][0]]
        elif d == 2:
            p = [V[fv[0]][i] * (1 - s[0]) + V[fv[1]][i] * s[0] for i in range(2)]
        else:
            o, a, b = V[fv[0]], V[fv[1]], V[fv[-1]]
            p = [o[i] + (a[i] - o[i]) * s[0] + (b[i] - o[i]) * s[1] for i in range(3)]
        bf = ps.eval_basis(W.array([p]), suppress_errors=not W.symbolic)[0, 0]
        keep = set()
        for k in range(ps.n_nod):
            t, i = int(nts[k, 0]), int(nts[k, 1])
            if t == 0:
                own = {i}
            elif t == 1 and d > 1:
                own = {int(z) for z in g.edges[i]}
            elif t == 2:
                own = {int(z) for z in g.faces[i]}
            else:
                own = None
            if own is not None and own <= set(fv):
                keep.add(k)
            else:
                W.eq('function %d (type %d) on facet %d' % (k, t, ifa), bf[k], 0)
        W.true('facet functions', len(keep) > 0)

@contract('bubble', mk(LB, {'2_3': (1, 2), '3_4': (1, 2)}))
def bubble(W, kind, geometry, order):
    """The last function is the bubble; the others still sum to one with it."""
    ps = space(W, kind, geometry, order)
    n = ps.geometry.n_vertex
    lag = space(W, LS, geometry, order)
    x = point(W, geometry)
    b = ps.eval_basis(x)[0, 0]
    l = lag.eval_basis(x)[0, 0]
    W.true('one more function', ps.n_nod == lag.n_nod + 1)
    bc = [1 - x[0].sum()] + list(x[0])
    p = 1
    for v in bc:
        p = p * v
    # the bubble: prod of the barycentric coordinates times (order)^(n)
    f = b[-1]
    W.eq('bubble', f, p * n ** n)
    W.eqs('corrected functions', b[:-1] + f / W.num(lag.n_nod), l)

# ----------------------------------------------------------- hierarchic
@contract('lobatto/1d', [dict(order=k) for k in range(0, 11)])
def lobatto1d(W, order):
    """l_k(+-1) = 0 and the derivatives are orthonormal."""
    L = W.mod('sfepy.discrete.fem.extmods.lobatto_bases')
    one = W.array([1, -1, 0])
    v = L.eval_lobatto1d(one, order)
    if order == 0:
        W.eqs('ends', v[:2], [0, 1])
    elif order == 1:
        W.eqs('ends', v[:2], [1, 0])
    else:
        W.eqs('ends', v[:2], [0, 0])
        x = W.reals('x', 1)
        f = L.eval_lobatto1d(x, order)[0]
        # l_k(x) = sqrt((2k - 1)/2) * int_{-1}^x P_{k-1}
        W.eq('lobatto function', f * f * 2 * (2 * order - 1),
             (leg(W, order, x[0]) - leg(W, order - 2, x[0])) ** 2)

def leg(W, n, x):
    a, b = 1 + 0 * x, x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, ((2 * k + 1) * x * b - k * a) / W.num(k + 1)
    return b

@contract('lobatto/sum', mk(LOB, {'1_2': range(1, 6), '2_4': range(1, 4), '3_8': (1, 2)}))
def lobatto_sum(W, kind, geometry, order):
    """The vertex functions are the (multi)linear ones."""
    ps = space(W, kind, geometry, order)
    lag = space(W, LS if geometry == '1_2' else LT, geometry, 1)
    x = point(W, geometry)
    b = ps.eval_basis(x)[0, 0]
    l = lag.eval_basis(x)[0, 0]
    W.eqs('vertex functions', b[:lag.n_nod], l)

@contract('eval/outside', [dict(kind=k, geometry=g) for k, g in
                           ((LS, '1_2'), (LS, '2_3'), (LS, '3_4'), (LT, '2_4'), (LT, '3_8'))])
def outside(W, kind, geometry):
    """A point further than eps from the element is reported."""
    ps = space(W, kind, geometry, 1)
    d = int(geometry[0])
    eps = W.num('1e-6')
    for j in range(d):
        for sgn in (-1, 1):
            p = W.array([[W.frac(1, 5)] * d])
            t = W.real('t', pos=True) if not W.symbolic else W.real('t%d%d' % (j, sgn), pos=True)
            p[0, j] = (-eps - t) if sgn < 0 else 1 + eps + t
            W.true('error %d %d' % (j, sgn), W.raises(RuntimeError, ps.eval_basis, p, eps=eps)
                   or W.raises(ValueError, ps.eval_basis, p, eps=eps))
            # the failed call leaves no trace
            b = ps.eval_basis(W.array([[W.frac(1, 5)] * d]), eps=eps)
            W.eq('after the error %d %d' % (j, sgn), b.sum(), 1)
            b = ps.eval_basis(p, suppress_errors=True, eps=eps)
            W.true('no error %d %d' % (j, sgn), b.shape == (1, 1, ps.n_nod))
            q = p.copy()
            q[0, j] = (-eps / 2) if sgn < 0 else 1 + eps / 2
            if kind == LT or sgn < 0:
                r = q.copy()
                r[0, j] = 0 if sgn < 0 else 1
                b = ps.eval_basis(q, eps=eps)
                if kind == LT:
                    W.eqs('snapped %d %d' % (j, sgn), b, ps.eval_basis(r, eps=eps))

@contract('eval/sets', [dict(kind=k, geometry=g, diff=df) for k, g in
                        ((LS, '2_3'), (LT, '2_4'), (LOB, '2_4'), (BS, '2_3')) for df in (0, 1)])
def sets(W, kind, geometry, diff):
    """Several point sets; one more axis; the transformed basis."""
    ps = space(W, kind, geometry, 2)
    x = np.array([point(W, geometry, 2, 'x'), point(W, geometry, 2, 'y')])
    b = ps.eval_basis(x, diff=diff)
    for i in range(2):
        W.eqs('set %d' % i, b[i], ps.eval_basis(x[i].copy(), diff=diff))
        for j in range(2):
            W.eqs('point %d %d' % (i, j), b[i, j], ps.eval_basis(x[i, j:j + 1].copy(), diff=diff)[0])
    W.eqs('axis', ps.eval_basis(x[0].copy(), diff=diff, force_axis=True)[0], b[0])
    n = ps.n_nod
    T = W.reals('T', 1, n, n)
    tb = ps.eval_basis(x[0].copy(), diff=diff, transform=T)
    for q in range(2):
        for k in range(b.shape[2]):
            for i in range(n):
                W.eq('transformed', tb[0, q, k, i], sum(T[0, i, j] * b[0, q, k, j] for j in range(n)))
    W.true('dimension checked', W.raises(ValueError, ps.eval_basis, W.array([[W.frac(1, 2)]])))

if __name__ == '__main__':
    main(S)
