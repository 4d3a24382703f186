"""Reference element mappings."""
import itertools
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from engine import pyworld, sym
from checks import felib

MP, CM, LU = 'sfepy.discrete.fem.mappings', 'sfepy.discrete.common.mappings', 'sfepy.linalg.utils'
PS, GE = 'sfepy.discrete.fem.poly_spaces', 'sfepy.discrete.fem.geometry_element'
S = Suite('C12', 'element mappings', assumptions=[
    'numbers of elements and quadrature points are enumerated (1-3); coordinates, weights and basis gradients are symbolic',
    'in the end-to-end contracts the vertex coordinates are symbolic for affine elements and distorted rational ones otherwise'], conc=1)
felib.use(S, MP, CM, LU, PS, GE)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det([[r[k] for k in range(n) if k != j] for r in m[1:]])
               for j in range(n))

def minor(m, i, j):
    return det([[m[a][b] for b in range(len(m)) if b != j] for a in range(len(m)) if a != i]) if len(m) > 1 else 1

CONN = {(1, 2): [[0, 1], [1, 2]], (2, 3): [[0, 1, 2], [2, 1, 3]], (2, 4): [[0, 1, 2, 3], [1, 4, 5, 2]],
        (3, 4): [[0, 1, 2, 3], [1, 4, 2, 3]], (2, 2): [[0, 1], [1, 2]], (3, 3): [[0, 1, 2], [3, 2, 1]],
        (3, 8): [[0, 1, 2, 3, 4, 5, 6, 7]]}

def geometry_data(W, dim, rdim, n_ep, n_el, n_qp, what, percell=False):
    """Coordinates, connectivity, gradients of the geometry basis; one of them symbolic."""
    conn = np.array(CONN[dim, n_ep][:n_el], dtype=np.int32)
    n_nod = conn.max() + 1
    sh = (n_qp, rdim, n_ep) if not percell else (n_el, n_qp, rdim, n_ep)
    cx = np.empty((n_nod, dim), dtype=object)
    for i in range(n_nod):
        for j in range(dim):
            cx[i, j] = Fraction((i * i + 3 * i * (j + 1) + 5 * j) % 11 - 4, 2)
    cg = np.empty(sh, dtype=object)
    for k, ix in enumerate(np.ndindex(*sh)):
        cg[ix] = Fraction((k * k * 3 + 5 * k + 2) % 13 - 6, 3)
    f = (lambda a: W.array(a)) if W.symbolic else (lambda a: a.astype(np.float64))
    x = W.reals('x', n_nod, dim) if what in ('x', 'both') else f(cx)
    g = W.reals('g', *sh) if what in ('g', 'both') else f(cg)
    return x, conn, g

def jac(x, conn, g, c, q):
    gq = g[c, q] if g.ndim == 4 else g[q]
    rdim, n = gq.shape
    return [[sum(gq[i, a] * x[conn[c, a], k] for a in range(n)) for k in range(x.shape[1])]
            for i in range(rdim)]

VOL = [dict(dim=d, n_ep=n, n_el=e, n_qp=q, what=w, percell=pc)
       for d, n, e, q, w, pc in [(1, 2, 2, 2, 'both', False), (1, 2, 2, 1, 'both', True), (2, 3, 2, 2, 'x', False),
                                 (2, 3, 2, 2, 'g', False), (2, 3, 2, 1, 'g', True), (2, 4, 2, 1, 'x', False),
                                 (2, 4, 1, 2, 'g', False), (2, 3, 1, 1, 'both', False), (3, 4, 1, 1, 'x', False),
                                 (3, 4, 2, 1, 'g', False), (3, 4, 1, 2, 'g', True)]]

def positive(W, dets):
    for d in dets:
        if W.symbolic:
            W.assume(d > 0)
            W.assume(d != 0)
        else:
            W.assume(d > 0.05)

@contract('volume', [dict(c, egrad=e) for c in VOL for e in ('none', 'shared', 'cells')])
def volume(W, dim, n_ep, n_el, n_qp, what, percell, egrad):
    x, conn, g = geometry_data(W, dim, dim, n_ep, n_el, n_qp, what, percell)
    w = W.reals('w', n_qp, pos=True)
    J = {(c, q): jac(x, conn, g, c, q) for c in range(n_el) for q in range(n_qp)}
    D = {k: det(m) for k, m in J.items()}
    if W.symbolic:
        for c, q in D:
            W.assume(D[c, q] > 0)
    elif min(D.values()) <= 0.05:           # a valid mapping by a reflection and a shift of the gradients
        for t in range(400):
            x, conn, g = redraw(W, x, conn, g, what)
            J = {(c, q): jac(x, conn, g, c, q) for c in range(n_el) for q in range(n_qp)}
            D = {k: det(m) for k, m in J.items()}
            if min(D.values()) > 0.05:
                break
        W.assume(min(D.values()) > 0.05)
    eg = None
    if egrad != 'none':
        eg = W.reals('e', *((1 if egrad == 'shared' else n_el), n_qp, dim, 3))
    de, vol, bfg, normal = W.mod(MP).eval_mapping_data_in_qp(x, conn, g, w, ebf_g=eg)
    W.true('shapes', de.shape == (n_el, n_qp, 1, 1) and vol.shape == (n_el, 1, 1, 1))
    W.true('no normal', normal is None)
    for c in range(n_el):
        for q in range(n_qp):
            W.eq('det %d %d' % (c, q), de[c, q, 0, 0], D[c, q] * w[q])
        W.eq('volume %d' % c, vol[c, 0, 0, 0], sum(D[c, q] * w[q] for q in range(n_qp)))
    if eg is None:
        W.true('no gradient', bfg is None)
        return
    W.true('shape of the gradient', bfg.shape == (n_el, n_qp, dim, 3))
    for c in range(n_el):
        for q in range(n_qp):
            m = J[c, q]
            e = eg[c if egrad == 'cells' else 0, q]
            for k in range(dim):
                for a in range(3):
                    W.eq('gradient %d %d %d %d' % (c, q, k, a), bfg[c, q, k, a],
                         sum((-1) ** (i + k) * minor(m, i, k) * e[i, a] for i in range(dim)) / D[c, q])

def redraw(W, x, conn, g, what):
    if what in ('x', 'both'):
        x = W.rng.random_sample(x.shape) * 4 - 2 if hasattr(W.rng, 'random_sample') else \
            np.array([W.rng.random() * 4 - 2 for _ in range(x.size)]).reshape(x.shape)
    if what in ('g', 'both'):
        g = np.array([W.rng.random() * 4 - 2 for _ in range(g.size)]).reshape(g.shape)
    return x, conn, g

@contract('warped', [dict(dim=d) for d in (1, 2, 3)])
def warped(W, dim):
    """A cell with a nonpositive determinant is refused."""
    n = dim + 1
    x = W.reals('x', n, dim)
    conn = np.arange(n, dtype=np.int32)[None]
    g = np.zeros((1, dim, n), dtype=object if W.symbolic else np.float64)
    for i in range(dim):
        g[0, i, 0], g[0, i, i + 1] = -1, 1
    g = W.array(g)
    D = det(jac(x, conn, g, 0, 0))
    w = W.reals('w', 1, pos=True)
    if W.symbolic:
        bad = D <= 0
        bad = bool(bad)
    else:
        W.assume(abs(D) > 1e-3)
        bad = D <= 0
    W.true('refused', W.raises(ValueError, W.mod(MP).eval_mapping_data_in_qp, x, conn, g, w) == bad)

FACE = [dict(dim=d, n_ep=n, n_el=e, n_qp=q, what=w)
        for d, n, e, q, w in [(2, 2, 2, 2, 'x'), (2, 2, 2, 2, 'g'), (2, 2, 1, 1, 'both'), (3, 3, 1, 1, 'x'),
                              (3, 3, 2, 1, 'x'), (3, 3, 1, 2, 'g'), (3, 4, 1, 1, 'x')]]

@contract('face', FACE)
def face(W, dim, n_ep, n_el, n_qp, what):
    """Area element and normal: the cross product of the tangents."""
    x, conn, g = geometry_data(W, dim, dim - 1, n_ep, n_el, n_qp, what)
    w = W.reals('w', n_qp, pos=True)
    N = {}
    for c in range(n_el):
        for q in range(n_qp):
            t = jac(x, conn, g, c, q)
            if dim == 2:
                N[c, q] = [t[0][1], -t[0][0]]
            else:
                a, b = t
                N[c, q] = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    L = {}
    for k, v in N.items():
        s = sum(y * y for y in v)
        W.assume(s >= (W.num('1e-4') if not W.symbolic else 1))
        L[k] = W.fn('sqrt', s)
        if W.symbolic:
            W.assume(L[k] >= 1)
    ww = w if what != 'x' else np.tile(w, (n_el, 1))
    de, vol, bfg, normal = W.mod(MP).eval_mapping_data_in_qp(x, conn, g, ww, is_face=True)
    W.true('shapes', de.shape == (n_el, n_qp, 1, 1) and vol.shape == (n_el, 1, 1, 1)
           and normal.shape == (n_el, n_qp, dim, 1) and bfg is None)
    for c in range(n_el):
        for q in range(n_qp):
            W.eq('area %d %d' % (c, q), de[c, q, 0, 0], L[c, q] * w[q])
            for k in range(dim):
                W.eq('normal %d %d %d' % (c, q, k), normal[c, q, k, 0] * L[c, q], N[c, q][k])
        W.eq('face area %d' % c, vol[c, 0, 0, 0], sum(L[c, q] * w[q] for q in range(n_qp)))

@contract('face1d')
def face1d(W):
    x = W.reals('x', 3, 1)
    conn = np.array([[0], [1], [2]], dtype=np.int32)
    g = W.array([[[0]]])
    w = W.reals('w', 1, pos=True)
    de, vol, bfg, normal = W.mod(MP).eval_mapping_data_in_qp(x, conn, g, w, is_face=True)
    for c in range(3):
        W.eq('measure %d' % c, de[c, 0, 0, 0], w[0])
    W.true('outward', [int(normal[c, 0, 0, 0]) for c in range(3)] == [-1, 1, 1])

@contract('face_gradient', [dict(dim=2, n_ep=3), dict(dim=3, n_ep=4), dict(dim=2, n_ep=4)])
def face_gradient(W, dim, n_ep):
    """Gradients on faces use the Jacobian of the neighbouring cell."""
    x, conn, g = geometry_data(W, dim, dim - 1, dim, 2, 1, 'x')
    n = max(max(max(r) for r in CONN[dim, n_ep]), conn.max()) + 1
    if what_n(x) < n:
        x = W.reals('y', n, dim)
    cells = np.array(CONN[dim, n_ep], dtype=np.int32)
    bg = np.empty((2, 1, dim, n_ep), dtype=object)
    for k, ix in enumerate(np.ndindex(*bg.shape)):
        bg[ix] = Fraction((k * k * 3 + 5 * k + 2) % 13 - 6, 3)
    bg = W.array(bg)
    eg = W.reals('e', 2, 1, dim, 2)
    w = W.reals('w', 1, pos=True)
    J = [jac(x, cells, bg, c, 0) for c in range(2)]
    D = [det(m) for m in J]
    for d in D:
        if W.symbolic:
            W.assume(d != 0)
        else:
            W.assume(abs(d) > 0.05)
    for c in range(2):
        t = jac(x, conn, g, c, 0)
        v = [t[0][1], -t[0][0]] if dim == 2 else [t[0][1] * t[1][2] - t[0][2] * t[1][1],
                                                t[0][2] * t[1][0] - t[0][0] * t[1][2],
                                                t[0][0] * t[1][1] - t[0][1] * t[1][0]]
        s = sum(y * y for y in v)
        W.assume(s >= (W.num('1e-4') if not W.symbolic else 1))
        if W.symbolic:
            W.assume(W.fn('sqrt', s) >= 1)
    de, vol, bfg, normal = W.mod(MP).eval_mapping_data_in_qp(x, conn, g, np.tile(w, (2, 1)), ebf_g=eg, is_face=True,
                                                            se_conn=cells, se_bf_bg=bg)
    for c in range(2):
        for k in range(dim):
            for a in range(2):
                W.eq('gradient %d %d %d' % (c, k, a), bfg[c, 0, k, a] * D[c],
                     sum((-1) ** (i + k) * minor(J[c], i, k) * eg[c, 0, i, a] for i in range(dim)))

def what_n(x):
    return x.shape[0]

@contract('plane', [dict(dim=3, n=n, cells=c, kind=k) for n in (3, 4) for c in (1, 2) for k in ('flat', 'general')]
          + [dict(dim=2, n=2, cells=c, kind='general') for c in (1, 2, 3)])
def plane(W, dim, n, cells, kind):
    """The transformation of flat elements to a lower dimension is an isometry keeping the orientation."""
    to = dim - 1
    x = W.reals('x', cells, n, dim)
    if dim == 3:
        if kind == 'flat':                     # parallel to the XY plane
            for c in range(cells):
                for a in range(1, n):
                    x[c, a, 2] = x[c, 0, 2]
        elif n == 4:                           # coplanar
            s = W.reals('s', cells, 2)
            for c in range(cells):
                x[c, 2] = x[c, 0] + s[c, 0] * (x[c, 1] - x[c, 0]) + s[c, 1] * (x[c, 3] - x[c, 0])
        for c in range(cells):
            a, b = x[c, 1] - x[c, 0], x[c, -1] - x[c, 0]
            v = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            if kind == 'general':
                W.assume(v[0] ** 2 + v[1] ** 2 >= (1 if W.symbolic else 1e-3))
                if W.symbolic:
                    W.assume(W.fn('sqrt', v[0] ** 2 + v[1] ** 2) >= 1)
            elif W.symbolic:
                W.assume(v[2] != 0)
            else:
                W.assume(abs(v[2]) > 0.05)
    else:
        for c in range(cells):
            a = x[c, 1] - x[c, 0]
            W.assume(a[0] ** 2 + a[1] ** 2 >= (1 if W.symbolic else 1e-3))
            if W.symbolic:
                W.assume(W.fn('sqrt', a[0] ** 2 + a[1] ** 2) >= 1)
    y = W.mod(MP).transform_coors_to_lower_dim(x, to)
    W.true('shape', y.shape == (cells, n, to))
    for c in range(cells):
        for a in range(1, n):
            for b in range(a, n):
                W.eq('product %d %d %d' % (c, a, b), sum((y[c, a] - y[c, 0]) * (y[c, b] - y[c, 0])),
                     sum((x[c, a] - x[c, 0]) * (x[c, b] - x[c, 0])))
        p, q = y[c, 1] - y[c, 0], y[c, -1] - y[c, 0]
        a, b = x[c, 1] - x[c, 0], x[c, -1] - x[c, 0]
        if to == 2:
            v = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            W.eq('orientation %d' % c, p[0] * q[1] - p[1] * q[0], W.fn('sqrt', sum(t * t for t in v)))
        else:
            W.eq('orientation %d' % c, p[0], W.fn('sqrt', sum(t * t for t in a)))

@contract('inverse', [dict(dim=d, given=g) for d in (1, 2, 3) for g in (False, True)])
def inverse(W, dim, given):
    a = W.reals('a', 2, 1 if dim == 3 else 2, dim, dim)
    D = np.empty(a.shape[:2], dtype=a.dtype)
    for ix in np.ndindex(*D.shape):
        D[ix] = det(a[ix].tolist())
        W.assume(D[ix] != 0 if W.symbolic else abs(D[ix]) > 0.05)
    LUm = W.mod(LU)
    W.eqs('determinant', LUm.dets_fast(a), D)
    b = LUm.invs_fast(a, D) if given else LUm.invs_fast(a)
    W.true('shape', b.shape == a.shape)
    for c, q in np.ndindex(*D.shape):
        for i in range(dim):
            for j in range(dim):
                W.eq('entry %d %d %d %d' % (c, q, i, j), b[c, q, i, j] * D[c, q],
                     (-1) ** (i + j) * minor(a[c, q].tolist(), j, i))

@contract('integrate', [dict(mode=m, comp=k) for m in (0, 1) for k in (1, 2, 3)])
def integrate(W, mode, comp):
    n_el, n_qp, dim = 2, 2, 2
    de = W.reals('d', n_el, n_qp, 1, 1, pos=True)
    vol = W.reals('v', n_el, 1, 1, 1, pos=True)
    bf = W.reals('b', 1, n_qp, 1, 3)
    bfg = W.reals('g', n_el, n_qp, dim, 3)
    f = W.reals('f', n_el, n_qp, comp, 2)
    m = W.mod(CM).PyCMapping(bf, de, vol, bfg, None, dim)
    out = W.array(np.zeros((n_el, 1, comp, 2), dtype=int))
    st = m.integrate(out, f, mode)
    W.true('status', st == 0)
    for c, i, j in np.ndindex(n_el, comp, 2):
        s = sum(f[c, q, i, j] * de[c, q, 0, 0] for q in range(n_qp))
        W.eq('value %d %d %d' % (c, i, j), out[c, 0, i, j], s if mode == 0 else s / vol[c, 0, 0, 0])
    W.true('sizes', (m.n_el, m.n_qp, m.n_ep, m.dim) == (n_el, n_qp, 3, dim))

# ---------------------------------------------------------------- through the fields
AFF = ['line', 'tri', 'tet']
CURVED = ['quad', 'hex1', 'hex', 'wedge1']
TOL = '1e-11'

def close(W, label, a, b):
    """Equality up to the rounding of the quadrature table."""
    d = a - b
    t = W.num(TOL) if W.symbolic else 1e-8
    W.le(label, d, t)
    W.le(label + ' (-)', -d, t)

def setup(W, mesh, order, symbolic):
    dom = felib.domain(W, mesh, 0 if symbolic else 2)
    om = dom.create_region('Omega', 'all')
    f = felib.field(W, om, order)
    if symbolic:
        x = felib.coors(W, mesh)
        y = W.reals('x', *x.shape)
        if not W.symbolic:
            y = x + 0.1 * y
        dom.mesh.coors[...] = y
        conn = dom.get_conn()
        for c in conn:
            m = [[y[c[i + 1], k] - y[c[0], k] for k in range(y.shape[1])] for i in range(y.shape[1])]
            if W.symbolic:
                W.assume(det(m) > 0)
    return dom, om, f

@contract('cells', [dict(mesh=m, order=o, symbolic=True) for m in AFF for o in (1, 2)]
          + [dict(mesh=m, order=o, symbolic=False) for m in CURVED + AFF for o in (1, 2) if (m, o) not in
             (('hex', 2), ('wedge1', 2))])
def cells(W, mesh, order, symbolic):
    """Gradients of the coordinates are the identity, the cell volumes are exact."""
    dom, om, f = setup(W, mesh, order, symbolic)
    ig = felib.integral(W, 2)
    mp, _ = f.get_mapping(om, ig, 'cell')
    x = dom.mesh.coors
    conn = dom.get_conn()
    gel = f.gel.name
    qp, w = ig.get_qp(gel)
    dim = x.shape[1]
    gps = f.geom_poly_space
    bg = gps.eval_basis(qp, diff=True)
    b0 = gps.eval_basis(qp)
    eg = f.poly_space.eval_basis(qp, diff=True)
    e0 = f.poly_space.eval_basis(qp)
    W.true('shapes', mp.det.shape == (len(conn), len(w), 1, 1) and mp.bfg.shape == (len(conn), len(w), dim, eg.shape[2]))
    W.eqs('basis', mp.bf[0], e0)
    for c, row in enumerate(conn):
        vol = 0
        for q in range(len(w)):
            J = [[sum(bg[q, i, a] * x[row[a], k] for a in range(len(row))) for k in range(dim)] for i in range(dim)]
            D = det(J)
            W.eq('det %d %d' % (c, q), mp.det[c, q, 0, 0], D * w[q])
            vol = vol + D * w[q]
            g = mp.bfg[c, q]
            for a in range(eg.shape[2]):
                for i in range(dim):
                    W.eq('gradient %d %d %d %d' % (c, q, a, i), sum(J[i][k] * g[k, a] for k in range(dim)), eg[q, i, a])
        W.eq('volume %d' % c, mp.volume[c, 0, 0, 0], vol)
    qps = W.mod(CM).get_physical_qps(om, ig)
    W.true('number of points', qps.num == len(conn) * len(w) and qps.values.shape == (qps.num, dim))
    for c, row in enumerate(conn):
        for q in range(len(w)):
            for k in range(dim):
                W.eq('point %d %d %d' % (c, q, k), qps.values[c * len(w) + q, k],
                     sum(b0[q, 0, a] * x[row[a], k] for a in range(len(row))))

@contract('cell_geometry', [dict(mesh=m, symbolic=True) for m in AFF[1:]] + [dict(mesh=m, symbolic=False) for m in CURVED + AFF])
def cell_geometry(W, mesh, symbolic):
    """The mesh volumes and centroids agree with the mapping."""
    dom, om, f = setup(W, mesh, 1, symbolic)
    ig = felib.integral(W, 2)
    mp, _ = f.get_mapping(om, ig, 'cell')
    x, conn = dom.mesh.coors, dom.get_conn()
    n = conn.shape[1]
    cen = dom.cmesh.get_centroids(dom.cmesh.tdim)
    for c, row in enumerate(conn):
        for k in range(x.shape[1]):
            W.eq('centroid %d %d' % (c, k), cen[c, k], sum(x[a, k] for a in row) / n)
    if mesh == 'line':
        return
    vol = dom.cmesh.get_volumes(dom.cmesh.tdim)
    if mesh in AFF:
        for c in range(len(conn)):
            s = W.num(sum(Fraction(str(z)) for z in [1])) if False else None
            row = conn[c]
            m = [[x[row[i + 1], k] - x[row[0], k] for k in range(x.shape[1])] for i in range(x.shape[1])]
            W.eq('volume %d' % c, vol[c], det(m) / (2 if x.shape[1] == 2 else 6))

@contract('surface', [dict(mesh=m, order=o, kind=k) for m in ('tri', 'quad', 'tet', 'hex1', 'hex', 'wedge1') for o in (1, 2)
                      for k in ('facet', 'facet_extra') if (m, o) != ('hex', 2) and (m != 'wedge1' or (o, k) == (1, 'facet'))])
def surface(W, mesh, order, kind):
    """On the boundary: unit outward normals, divergence theorem, gradients of the coordinates."""
    dom, om, f = setup(W, mesh, order, False)
    g = dom.create_region('Gamma', 'vertices of surface', 'facet')
    dom.create_surface_group(g)
    f.setup_surface_data(g)
    ig = felib.integral(W, 4)
    mp, _ = f.get_mapping(g, ig, kind)
    x = dom.mesh.coors
    dim = x.shape[1]
    conn = dom.get_conn()
    sd = dom.surface_groups['Gamma']
    fis = g.get_facet_indices()
    sc = sd.get_connectivity()
    qps = W.mod(CM).get_physical_qps(g, ig)
    qv = qps.values.reshape(qps.shape)
    nf, nq = mp.det.shape[:2]
    W.true('number of facets', nf == len(g.facets) and qv.shape[:2] == (nf, nq))
    tot = [0] * dim
    mom = [[0] * dim for _ in range(dim)]
    area = 0
    for i in range(nf):
        row = conn[fis[i, 0]]
        cen = [sum(x[a, k] for a in row) / len(row) for k in range(dim)]
        s = 0
        for q in range(nq):
            n = mp.normal[i, q, :, 0]
            if mesh == 'wedge1' and not mp.det[i, q, 0, 0]:
                continue                    # padding of triangular facets
            W.eq('unit normal %d %d' % (i, q), sum(n * n), 1)
            W.lt('outward normal %d %d' % (i, q), 0, sum(n[k] * (qv[i, q, k] - cen[k]) for k in range(dim)))
            d = mp.det[i, q, 0, 0]
            s = s + d
            for k in range(dim):
                tot[k] = tot[k] + n[k] * d
                for j in range(dim):
                    mom[j][k] = mom[j][k] + qv[i, q, j] * n[k] * d
        W.eq('facet area %d' % i, mp.volume[i, 0, 0, 0], s)
    om_mp, _ = f.get_mapping(om, felib.integral(W, 3 if mesh == 'wedge1' else 4), 'cell')
    vol = om_mp.det.sum()
    for k in range(dim):
        close(W, 'closed surface %d' % k, tot[k], 0)
        for j in range(dim):
            close(W, 'divergence theorem %d %d' % (j, k), mom[j][k], vol if j == k else 0)
    if kind == 'facet_extra':
        econn = f.econn[fis[:, 0]]
        nc = f.get_coor()
        W.true('gradient shape', mp.bfg.shape == (nf, nq, dim, econn.shape[1]))
        for i in range(nf):
            for q in range(nq):
                for k in range(dim):
                    W.eq('gradient of one %d %d %d' % (i, q, k), sum(mp.bfg[i, q, k]), 0)
                    for j in range(dim):
                        W.eq('gradient of x %d %d %d %d' % (i, q, j, k),
                             sum(mp.bfg[i, q, k, a] * nc[econn[i, a], j] for a in range(econn.shape[1])), int(j == k))

if __name__ == '__main__':
    main(S)
