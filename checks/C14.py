"""Elastic constants, constitutive matrices and tensor utilities."""
import itertools
from engine.vc import Suite, main
from engine import pyworld
import numpy as np

MC, TN = 'sfepy.mechanics.matcoefs', 'sfepy.mechanics.tensors'
S = Suite('C14', 'elastic constants and tensors', assumptions=[
    'isotropic constants: lambda > 0, mu > 0 (so 0 < nu < 1/2) for the conversions with two algebraic branches',
    'array arguments have 1 to 3 rows; the number of rows is not symbolic'])
S.pre.append(pyworld.preload(MC, TN))

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

PLANES = [dict(plane=p) for p in ('strain', 'stress')]
SHAPES = [dict(shape=s) for s in ((), (1,), (2,), (2, 2))]

def cross(*lists):
    out = []
    for t in itertools.product(*lists):
        d = {}
        for x in t:
            d.update(x)
        out.append(d)
    return out

def pars(W, names, shape):
    """Positive values, arrays of the given shape, or scalars."""
    if shape == ():
        return [W.real(n, pos=True) for n in names]
    return [W.reals(n, *shape, pos=True) for n in names]

def at(x, ix):
    return x[ix] if ix != () else x

def lam_of(E, nu):
    return E * nu / ((1 + nu) * (1 - 2 * nu))

def yp(W, shape):
    """Young, Poisson with 0 < nu < 1/2, from lam, mu > 0."""
    lam, mu = pars(W, ['lam', 'mu'], shape)
    if shape == ():
        return mu * (3 * lam + 2 * mu) / (lam + mu), lam / (2 * (lam + mu)), lam, mu
    E, nu = lam.copy(), lam.copy()
    for ix in np.ndindex(*shape):
        l, m = lam[ix], mu[ix]
        E[ix] = m * (3 * l + 2 * m) / (l + m)
        nu[ix] = l / (2 * (l + m))
    return E, nu, lam, mu

def plane_lam(plane, l, m):
    return l if plane == 'strain' else 2 * l * m / (l + 2 * m)

def hooke(dim, l, m, i, j):
    """Engineering-strain stiffness in the storage 11, 22, 33, 12, 13, 23."""
    if i < dim and j < dim:
        return l + (2 * m if i == j else 0)
    return m if i == j else 0 * m

@contract('lame_from_youngpoisson', cross(PLANES, SHAPES))
def lame_from_youngpoisson(W, plane, shape):
    E, nu, lam, mu = yp(W, shape)
    l, m = W.mod(MC).lame_from_youngpoisson(E, nu, plane=plane)
    for ix in np.ndindex(*shape):
        W.eq('lam%s' % (ix,), at(l, ix), plane_lam(plane, at(lam, ix), at(mu, ix)))
        W.eq('mu%s' % (ix,), at(m, ix), at(mu, ix))

@contract('lame_from_youngpoisson/formula', PLANES)
def lame_formula(W, plane):
    """For all E and nu (also negative ones) with non-zero denominators."""
    E, nu = W.real('E', pos=True), W.real('nu', lo=-0.9 if not W.symbolic else None,
                                          hi=0.49 if not W.symbolic else None)
    l, m = W.mod(MC).lame_from_youngpoisson(E, nu, plane=plane)
    W.eq('mu', m * 2 * (1 + nu), E)
    if plane == 'strain':
        W.eq('lam', l * (1 + nu) * (1 - 2 * nu), E * nu)
    else:
        W.eq('lam', l * (1 + nu) * (1 - nu), E * nu)

DIMS = [dict(dim=d) for d in (1, 2, 3)]

def sym_(dim):
    return dim * (dim + 1) // 2

@contract('stiffness_from_lame', cross(DIMS, SHAPES))
def stiffness_from_lame(W, dim, shape):
    lam, mu = (W.real('lam'), W.real('mu')) if shape == () else \
        (W.reals('lam', *shape), W.reals('mu', *shape))
    D = W.mod(MC).stiffness_from_lame(dim, lam, mu)
    n = sym_(dim)
    W.true('shape', tuple(D.shape) == tuple(shape) + (n, n))
    for ix in np.ndindex(*shape):
        for i in range(n):
            for j in range(n):
                W.eq('D%s[%d,%d]' % (ix, i, j), D[ix + (i, j)],
                     hooke(dim, at(lam, ix), at(mu, ix), i, j))

@contract('stiffness_from_youngpoisson', cross(DIMS, PLANES, SHAPES[::2]))
def stiffness_from_youngpoisson(W, dim, plane, shape):
    E, nu, lam, mu = yp(W, shape)
    D = W.mod(MC).stiffness_from_youngpoisson(dim, E, nu, plane=plane)
    n = sym_(dim)
    for ix in np.ndindex(*shape):
        l, m = at(lam, ix), at(mu, ix)
        l = plane_lam(plane, l, m)
        for i in range(n):
            for j in range(n):
                W.eq('D%s[%d,%d]' % (ix, i, j), D[ix + (i, j)], hooke(dim, l, m, i, j))

@contract('stiffness_mixed', cross(DIMS, PLANES, SHAPES[::2]))
def stiffness_mixed(W, dim, plane, shape):
    """The mixed matrix plus the volumetric part of the bulk modulus is the
    full stiffness (3D), i.e. lambda is replaced by -2/3 mu."""
    E, nu, lam, mu = yp(W, shape)
    D = W.mod(MC).stiffness_from_youngpoisson_mixed(dim, E, nu, plane=plane)
    D2 = W.mod(MC).stiffness_from_lame_mixed(dim, lam, mu)
    K = W.mod(MC).bulk_from_youngpoisson(E, nu, plane=plane)
    n = sym_(dim)
    for ix in np.ndindex(*shape):
        l, m = at(lam, ix), at(mu, ix)
        l = plane_lam(plane, l, m)
        W.eq('K%s' % (ix,), 3 * at(K, ix), 3 * l + 2 * m)
        for i in range(n):
            for j in range(n):
                one = 1 if i < dim and j < dim else 0
                W.eq('D%s[%d,%d]' % (ix, i, j), D[ix + (i, j)] + one * at(K, ix),
                     hooke(dim, l, m, i, j))
                W.eq('D2%s[%d,%d]' % (ix, i, j), 3 * D2[ix + (i, j)],
                     3 * hooke(dim, 0 * m, m, i, j) - one * 2 * m)

@contract('bulk_from_lame', SHAPES)
def bulk_from_lame(W, shape):
    lam, mu = (W.real('lam'), W.real('mu')) if shape == () else \
        (W.reals('lam', *shape), W.reals('mu', *shape))
    K = W.mod(MC).bulk_from_lame(lam, mu)
    for ix in np.ndindex(*shape):
        W.eq('K%s' % (ix,), 3 * at(K, ix), 3 * at(lam, ix) + 2 * at(mu, ix))

@contract('from_stiffness', cross(DIMS[1:], PLANES, SHAPES))
def from_stiffness(W, dim, plane, shape):
    """Round trip: constants recovered from the matrix they generate."""
    E, nu, lam, mu = yp(W, shape)
    M = W.mod(MC)
    D = M.stiffness_from_youngpoisson(dim, E, nu, plane=plane)
    l, m = M.lame_from_stiffness(D, plane=plane)
    E2, nu2 = M.youngpoisson_from_stiffness(D, plane=plane)
    for ix in np.ndindex(*shape):
        W.eq('lam%s' % (ix,), at(l, ix), at(lam, ix))
        W.eq('mu%s' % (ix,), at(m, ix), at(mu, ix))
        W.eq('E%s' % (ix,), at(E2, ix), at(E, ix))
        W.eq('nu%s' % (ix,), at(nu2, ix), at(nu, ix))

@contract('stiffness_from_yps_ortho3')
def ortho3(W):
    E = W.reals('E', 3, pos=True)
    # small coupling in the concrete world keeps the matrix regular
    nu = W.reals('nu', 3)
    if not W.symbolic:
        nu = nu * 0.1
    G = W.reals('G', 3, pos=True)
    D = W.mod(MC).stiffness_from_yps_ortho3(E, nu, G)
    C = {(0, 0): 1 / E[0], (1, 1): 1 / E[1], (2, 2): 1 / E[2], (0, 1): -nu[0] / E[0],
         (0, 2): -nu[1] / E[0], (1, 2): -nu[2] / E[1],
         (3, 3): 1 / G[0], (4, 4): 1 / G[1], (5, 5): 1 / G[2]}
    for i, j in list(C):
        C[j, i] = C[i, j]
    for i in range(6):
        for j in range(6):
            s = 0 * E[0]
            for k in range(6):
                if (i, k) in C:
                    s = s + C[i, k] * D[k, j]
            W.eq('CD[%d,%d]' % (i, j), s, 1 if i == j else 0)

NAMES = ['bulk', 'lam', 'mu', 'young', 'poisson', 'p_wave']

def all_constants(W):
    l, m = W.real('l', pos=True), W.real('m', pos=True)
    return dict(bulk=l + m * W.frac(2, 3), lam=l, mu=m,
                young=m * (3 * l + 2 * m) / (l + m),
                poisson=l / (2 * (l + m)), p_wave=l + 2 * m)

PAIRS = [dict(a=a, b=b) for a, b in itertools.combinations(NAMES, 2)]

@contract('ElasticConstants', PAIRS)
def elastic_constants(W, a, b):
    v = all_constants(W)
    ec = W.mod(MC).ElasticConstants(**{a: v[a], b: v[b]})
    for n, x in zip(NAMES, ec.get(NAMES)):
        W.eq(n, x, v[n])

@contract('ElasticConstants.init', PAIRS[::4])
def elastic_reinit(W, a, b):
    v = all_constants(W)
    ec = W.mod(MC).ElasticConstants(young=W.frac(1, 2), poisson=W.frac(1, 4))
    ec.init(**{a: v[a], b: v[b]})
    for n in NAMES:
        W.eq(n, getattr(ec, n), v[n])

@contract('ElasticConstants.count')
def elastic_count(W):
    """Any number of constants other than two is refused."""
    v = all_constants(W)
    EC = W.mod(MC).ElasticConstants
    for k in (0, 1, 3, 6):
        for ns in list(itertools.combinations(NAMES, k))[:6]:
            W.true('refused %s' % (ns,), W.raises(ValueError, EC, **{n: v[n] for n in ns}))

def sym_mtx(W, name, n, dom=None):
    a = W.reals(name, n, n)
    for i in range(n):
        for j in range(i):
            a[i, j] = a[j, i]
        if dom and not W.symbolic:
            a[i, i] = a[i, i] + dom
    return a

IPL = [dict(iplane=p) for p in ((0, 1), (0, 2), (1, 2), (1, 0), (2, 1))]

@contract('TransformToPlane/elastic', IPL)
def plane_elastic(W, iplane):
    """c2 e is the in-plane stress when the out-of-plane stresses vanish."""
    c3 = sym_mtx(W, 'c', 6, 8)
    t = W.mod(MC).TransformToPlane(list(iplane))
    c2 = t.tensor_plane_stress(c3)
    im = {(0, 1): [0, 1, 3], (0, 2): [0, 2, 4], (1, 2): [1, 2, 5]}[tuple(sorted(iplane))]
    is_ = [i for i in range(6) if i not in im]
    Ai = inverse(W, c3[np.ix_(is_, is_)])
    W.true('shape', c2.shape == (3, 3))
    for j in range(3):
        es = -np.dot(Ai, c3[is_, im[j]])
        for i in range(3):
            W.eq('c2[%d,%d]' % (i, j), c2[i, j], c3[im[i], im[j]] + np.dot(c3[im[i], is_], es))

def inverse(W, a):
    return W.np.linalg.inv(a)

@contract('TransformToPlane/piezo', IPL[:3], timeout=400)
def plane_piezo(W, iplane):
    """Condensation of sigma = C e - B^T E, D = B e + d E under vanishing
    out-of-plane stresses and electric displacement."""
    c3, d3 = sym_mtx(W, 'c', 6, 8), sym_mtx(W, 'd', 3, 8)
    b3 = W.reals('b', 3, 6)
    # (the full generic 4x4 inverse is kept as an atom: only 1/det is shared)
    t = W.mod(MC).TransformToPlane(list(iplane))
    c2, d2, b2 = t.tensor_plane_stress(c3, d3, b3)
    m = list(iplane)
    s = [i for i in range(3) if i not in m]
    im = {(0, 1): [0, 1, 3], (0, 2): [0, 2, 4], (1, 2): [1, 2, 5]}[tuple(iplane)]
    is_ = [i for i in range(6) if i not in im]
    n = 4
    A = W.array(np.zeros((n, n)))
    A[:3, :3] = c3[np.ix_(is_, is_)]
    A[:3, 3:] = -b3[np.ix_(s, is_)].T
    A[3:, :3] = b3[np.ix_(s, is_)]
    A[3:, 3:] = d3[np.ix_(s, s)]
    Ai = inverse(W, A)
    for j in range(5):
        # unit in-plane strain j, or unit in-plane field
        if j < 3:
            rhs = list(c3[is_, im[j]]) + list(b3[s, im[j]])
        else:
            rhs = list(-b3[m[j - 3], is_]) + list(d3[s, m[j - 3]])
        x = -np.dot(Ai, np.array(rhs, dtype=A.dtype))
        es, Es = x[:3], x[3:]
        for i in range(3):
            sig = np.dot(c3[im[i], is_], es) - np.dot(b3[s, im[i]], Es)
            if j < 3:
                W.eq('c2[%d,%d]' % (i, j), c2[i, j], c3[im[i], im[j]] + sig)
            else:
                W.eq('b2s[%d,%d]' % (i, j), -b2[j - 3, i], -b3[m[j - 3], im[i]] + sig)
        for i in range(2):
            D = np.dot(b3[m[i], is_], es) + np.dot(d3[m[i], s], Es)
            if j < 3:
                W.eq('b2[%d,%d]' % (i, j), b2[i, j], b3[m[i], im[j]] + D)
            else:
                W.eq('d2[%d,%d]' % (i, j), d2[i, j - 3], d3[m[i], m[j - 3]] + D)

@contract('wave_speeds', SHAPES)
def wave_speeds(W, shape):
    E, nu, lam, mu = yp(W, shape)
    rho, = pars(W, ['rho'], shape)
    M = W.mod(MC)
    vp, vs = M.wave_speeds_from_youngpoisson(E, nu, rho)
    E2, nu2 = M.youngpoisson_from_wave_speeds(vp, vs, rho)
    for ix in np.ndindex(*shape):
        r = at(rho, ix)
        W.eq('vp2%s' % (ix,), at(vp, ix) * at(vp, ix) * r, at(lam, ix) + 2 * at(mu, ix))
        W.eq('vs2%s' % (ix,), at(vs, ix) * at(vs, ix) * r, at(mu, ix))
        W.le('vp>=0', 0, at(vp, ix))
        W.le('vs>=0', 0, at(vs, ix))
        W.eq('E%s' % (ix,), at(E2, ix), at(E, ix))
        W.eq('nu%s' % (ix,), at(nu2, ix), at(nu, ix))

# ------------------------------------------------------------- tensors
SI = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
      3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

def si(dim, i, j):
    return SI[dim].index((min(i, j), max(i, j)))

@contract('indices')
def indices(W):
    T = W.mod(TN)
    for dim in (1, 2, 3, 4, 7):
        W.eq('dim2sym %d' % dim, T.dim2sym(dim), sym_(dim))
        W.eq('sym2dim %d' % dim, T.sym2dim(sym_(dim)), dim)
    for bad in (2, 4, 5, 7, 8, 9):
        W.true('sym2dim(%d) refused' % bad, W.raises(ValueError, T.sym2dim, bad))
    for dim in (2, 3):
        f, s = T.get_full_indices(dim), T.get_sym_indices(dim)
        a, b = T.get_non_diagonal_indices(dim)
        for i in range(dim):
            for j in range(dim):
                W.eq('full[%d,%d]' % (i, j), f[i][j], si(dim, i, j))
        W.true('sym', list(s) == [i * dim + j for i, j in SI[dim]])
        W.true('offdiag', list(a) == [i * dim + j for i, j in SI[dim] if i != j])
        W.true('offdiagT', list(b) == [j * dim + i for i, j in SI[dim] if i != j])

NC = [dict(nc=n) for n in (1, 2, 3)]
ST = [dict(st=s) for s in (True, False)]
D23 = [dict(dim=2), dict(dim=3)]

def tens(W, nc, dim, st):
    """Symmetric or full storage data and the accessor of its components."""
    if st:
        t = W.reals('t', nc, sym_(dim))
        return t, (lambda a, i, j: t[a, si(dim, i, j)])
    t = W.reals('t', nc, dim, dim)
    return t, (lambda a, i, j: t[a, i, j])

@contract('get_trace, volumetric, deviator', cross(D23, NC, ST))
def deviator(W, dim, nc, st):
    T = W.mod(TN)
    t, g = tens(W, nc, dim, st)
    t0 = t.copy()
    tr, vt, dv = T.get_trace(t, sym_storage=st), T.get_volumetric_tensor(t, sym_storage=st), \
        T.get_deviator(t, sym_storage=st)
    W.true('shapes', tr.shape == (nc,) and vt.shape == t.shape and dv.shape == t.shape)
    for a in range(nc):
        s = sum(g(a, i, i) for i in range(dim))
        W.eq('trace %d' % a, tr[a], s)
        for i in range(dim):
            for j in range(dim):
                v = (vt[a, si(dim, i, j)] if st else vt[a, i, j])
                d = (dv[a, si(dim, i, j)] if st else dv[a, i, j])
                W.eq('vol %d %d %d' % (a, i, j), dim * v, s if i == j else 0)
                W.eq('dev %d %d %d' % (a, i, j), d + v, g(a, i, j))
    W.eqs('input kept', t, t0)

@contract('get_cauchy_strain', cross(DIMS, NC))
def cauchy_strain(W, dim, nc):
    """Engineering strain of a gradient, row-wise."""
    g = W.reals('g', nc, dim, dim)
    e = W.mod(TN).get_cauchy_strain(g)
    W.true('shape', e.shape == (nc, sym_(dim), 1))
    for a in range(nc):
        for k, (i, j) in enumerate(SI[dim]):
            W.eq('e[%d,%d]' % (a, k), e[a, k, 0], g[a, i, j] if i == j else g[a, i, j] + g[a, j, i])

@contract('get_von_mises_stress', cross(D23, NC, ST))
def von_mises(W, dim, nc, st):
    t, g = tens(W, nc, dim, st)
    v = W.mod(TN).get_von_mises_stress(t, sym_storage=st)
    W.true('shape', v.shape == (nc, 1))
    for a in range(nc):
        s = lambda i, j: g(a, i, j)
        if dim == 2:
            q = 2 * (s(0, 0) * s(0, 0) - s(0, 0) * s(1, 1) + s(1, 1) * s(1, 1) + 3 * s(0, 1) * s(0, 1))
        else:
            d = lambda i, j: (s(i, i) - s(j, j)) * (s(i, i) - s(j, j))
            q = d(0, 1) + d(1, 2) + d(0, 2) + 6 * (s(0, 1) * s(0, 1) + s(0, 2) * s(0, 2) + s(1, 2) * s(1, 2))
        W.eq('vms2 %d' % a, 2 * v[a, 0] * v[a, 0], q)
        W.le('vms>=0 %d' % a, 0, v[a, 0])

@contract('get_t4_from_t2s', D23)
def t4(W, dim):
    n = sym_(dim)
    t2 = W.reals('t', n, n)
    t4 = W.mod(TN).get_t4_from_t2s(t2)
    W.true('shape', t4.shape == (dim,) * 4)
    for i, j, k, l in itertools.product(range(dim), repeat=4):
        W.eq('t4[%d%d%d%d]' % (i, j, k, l), t4[i, j, k, l], t2[si(dim, i, j), si(dim, k, l)])

@contract('make_axis_rotation_matrix')
def axis_rotation(W):
    """Orthogonal, keeps its axis, rotates by the angle (frame rotation)."""
    d = W.reals('d', 3, pos=True)
    al = W.real('al')
    M = W.mod('sfepy.linalg').make_axis_rotation_matrix(list(d), al)
    MMt, Md = np.dot(M, M.T), np.dot(M, d)
    for i in range(3):
        W.eq('axis %d' % i, Md[i], d[i])
        for j in range(3):
            W.eq('orthogonal %d %d' % (i, j), MMt[i, j], 1 if i == j else 0)
    W.eq('angle', M[0, 0] + M[1, 1] + M[2, 2], 1 + 2 * W.fn('cos', al))
    n = W.fn('sqrt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        W.eq('sense %d' % k, (M[i, j] - M[j, i]) * n, 2 * W.fn('sin', al) * d[k])

@contract('prepare_cylindrical_transform', cross(NC[:2], [dict(mode=m) for m in ('axes', 'data')]))
def cylindrical(W, nc, mode):
    """Axes mode: the radial direction is the first axis of the new system."""
    x, o = W.reals('x', nc, 3), W.reals('o', 3)
    for a in range(nc):
        r2 = (x[a, 0] - o[0]) * (x[a, 0] - o[0]) + (x[a, 1] - o[1]) * (x[a, 1] - o[1])
        W.assume(r2 > 0)
    M = W.mod(TN).prepare_cylindrical_transform(x, o, mode=mode)
    for a in range(nc):
        dx, dy = x[a, 0] - o[0], x[a, 1] - o[1]
        m = M[a] if mode == 'axes' else M[a].T
        e = np.dot(m, W.array([dx, dy, 0 * dx]))
        W.eq('radial %d' % a, e[0] * e[0], dx * dx + dy * dy)
        W.le('radial sense', 0, e[0])
        W.eq('tangential %d' % a, e[1], 0)
        W.eq('axial %d' % a, e[2], 0)
        for i in range(3):
            W.eq('z %d' % i, m[2, i], 1 if i == 2 else 0)
            for j in range(3):
                W.eq('orth %d%d' % (i, j), sum(m[i, k] * m[j, k] for k in range(3)), 1 if i == j else 0)
        W.eq('right-handed', m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0], 1)

@contract('transform_data', cross(NC[:2], [dict(kind=k) for k in ('v', 'v1', 't2', 't21')]))
def transform_data(W, nc, kind):
    m = W.reals('m', nc, 3, 3)
    T = W.mod(TN)
    if kind in ('v', 'v1'):
        x = W.reals('x', nc, 3) if kind == 'v' else W.reals('x', nc, 3, 1)
        y = T.transform_data(x, mtx=m)
        for a in range(nc):
            for i in range(3):
                ix = (a, i) if kind == 'v' else (a, i, 0)
                W.eq('y%s' % (ix,), y[ix], sum(m[a, i, k] * x[(a, k) + ix[2:]] for k in range(3)))
        return
    x = W.reals('x', nc, 6) if kind == 't2' else W.reals('x', nc, 6, 1)
    y = T.transform_data(x, mtx=m)
    W.true('shape', y.shape == x.shape)
    tail = () if kind == 't2' else (0,)
    for a in range(nc):
        for p, (i, j) in enumerate(SI[3]):
            W.eq('y[%d,%d]' % (a, p), y[(a, p) + tail],
                 sum(m[a, i, k] * m[a, j, l] * x[(a, si(3, k, l)) + tail]
                     for k in range(3) for l in range(3)))

@contract('transform_data/4', timeout=400)
def transform_data4(W):
    m, x = W.reals('m', 1, 3, 3), W.reals('x', 1, 6, 6)
    y = W.mod(TN).transform_data(x, mtx=m)
    W.true('shape', y.shape == x.shape)
    for p, (i, j) in enumerate(SI[3]):
        for q, (k, l) in enumerate(SI[3]):
            s = 0 * m[0, 0, 0]
            for a, b, c, d in itertools.product(range(3), repeat=4):
                s = s + m[0, i, a] * m[0, j, b] * m[0, k, c] * m[0, l, d] * x[0, si(3, a, b), si(3, c, d)]
            W.eq('y[%d,%d]' % (p, q), y[0, p, q], s)

@contract('transform_data/refused')
def transform_refused(W):
    T = W.mod(TN)
    x, m = W.reals('x', 2, 3), W.reals('m', 1, 3, 3)
    W.true('nothing given', W.raises(ValueError, T.transform_data, x))
    W.true('mode', W.raises(ValueError, T.transform_data, x, x, 'spherical'))
    W.true('counts', W.raises(ValueError, T.transform_data, x, mtx=m))
    W.true('shape', W.raises(ValueError, T.transform_data, W.reals('y', 1, 4), mtx=m))
    W.true('shape2', W.raises(ValueError, T.transform_data, W.reals('z', 1, 6, 2), mtx=m))

@contract('StressTransform', cross(D23, [dict(shape=s) for s in ((1, 1), (2, 1), (1, 2))],
                                   [dict(jac=j) for j in (0, 1)]))
def stress_transform(W, dim, shape, jac):
    """P = F S, sigma = F S F^T / J in each element and quadrature point."""
    n_el, n_qp = shape
    F = W.reals('F', n_el, n_qp, dim, dim)
    S2 = W.reals('S', n_el, n_qp, sym_(dim), 1)
    J = W.reals('J', n_el, n_qp, 1, 1, pos=True) if jac else None
    def det(e, q):
        f = F[e, q]
        if dim == 2:
            return f[0, 0] * f[1, 1] - f[0, 1] * f[1, 0]
        return sum(f[0, i] * (f[1, (i + 1) % 3] * f[2, (i + 2) % 3]
                              - f[1, (i + 2) % 3] * f[2, (i + 1) % 3]) for i in range(3))
    if not jac:
        for e in range(n_el):
            for q in range(n_qp):
                W.assume(det(e, q) > (0 if W.symbolic else 0.05))
    t = W.mod(TN).StressTransform(F, J)
    P, sg = t.get_1pk_from_2pk(S2), t.get_cauchy_from_2pk(S2)
    for e in range(n_el):
        for q in range(n_qp):
            j_ = J[e, q, 0, 0] if jac else det(e, q)
            s = lambda i, j: S2[e, q, si(dim, i, j), 0]
            f = F[e, q]
            for i in range(dim):
                for j in range(dim):
                    W.eq('P', P[e, q, i, j], sum(f[i, k] * s(k, j) for k in range(dim)))
            for p, (i, j) in enumerate(SI[dim]):
                W.eq('sigma %d' % p, sg[e, q, p, 0] * j_,
                     sum(f[i, k] * s(k, l) * f[j, l] for k in range(dim) for l in range(dim)))

if __name__ == '__main__':
    main(S)
