"""Discontinuous Galerkin bases, limiters and explicit time steps."""
import itertools
from fractions import Fraction
from math import comb
from types import SimpleNamespace as NS
import numpy as np
from engine.vc import Suite, main
from engine import sym
from checks import felib

PS, LI, TS, FI = ('sfepy.discrete.dg.poly_spaces', 'sfepy.discrete.dg.limiters',
                  'sfepy.solvers.ts_dg_solvers', 'sfepy.discrete.dg.fields')
GE = 'sfepy.discrete.fem.geometry_element'
S = Suite('C23', 'discontinuous Galerkin', assumptions=[
    'approximation orders are enumerated up to a limit per geometry (orders are not symbolic); the points, cell data, '
    'states, time steps and operators are symbolic',
    'scipy.special jacobi() and eval_jacobi() follow the definition of the Jacobi polynomials',
    'the numbers of cells and the neighbour tables are enumerated',
    'floating-point evaluation is treated as exact arithmetic'])
felib.use(S, PS, LI, TS, FI, GE)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

# ------------------------------------------------------------ bases
TOP = {'1_2': 7, '2_3': 5, '2_4': 3, '3_8': 2}
SP = [dict(geometry=g, order=o) for g, n in TOP.items() for o in range(n + 1)]

def space(W, geometry, order):
    """The basis as made by DGField."""
    gel = W.mod(GE).GeometryElement(geometry)
    return W.mod('sfepy.discrete').PolySpace.any_from_args('ps', gel, order, basis='legendre')

def point(W, geometry, n=1):
    d = int(geometry[0])
    x = W.reals('x', n, d)
    if W.symbolic:
        return x
    for i in range(n):
        r = [0.05 + 0.9 * W.rng.random() for _ in range(d)]
        if geometry == '2_3' and sum(r) > 0.95:
            r = [(1 - v) for v in r]
        x[i] = r
    return x

def padd(p, q, c=1):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0) + c * v
    return out

def pmul(p, q):
    out = {}
    for k, v in p.items():
        for l, w in q.items():
            m = tuple(a + b for a, b in zip(k, l))
            out[m] = out.get(m, 0) + v * w
    return out

def pone(d):
    return {(0,) * d: Fraction(1)}

def lin(d, c0, *c):
    out = {(0,) * d: Fraction(c0)}
    for i, v in enumerate(c):
        out[tuple(int(i == j) for j in range(d))] = Fraction(v)
    return out

def jac(n, a, x, y, d):
    """Homogeneous Jacobi polynomial y^n P_n^(a, 0)(x / y) of two polynomials."""
    out = {}
    for s in range(n + 1):
        p = {(0,) * d: Fraction(comb(n + a, n - s) * comb(n, s), 2 ** n)}
        for k in range(s):
            p = pmul(p, padd(x, y, -1))
        for k in range(n - s):
            p = pmul(p, padd(x, y))
        out = padd(out, p)
    return out

def definition(geometry, idx):
    """The basis function as a polynomial over the unit reference element."""
    d = int(geometry[0])
    if geometry == '2_3':
        one = pone(2)
        r, s = lin(2, -1, 2, 0), lin(2, -1, 0, 2)
        y = padd(one, s, -1)                                   # 1 - s
        x = padd(padd(pmul({(0, 0): Fraction(2)}, padd(one, r)), y, -1), {})
        return pmul(jac(idx[0], 0, x, y, 2), jac(idx[1], 2 * idx[0] + 1, s, one, 2))
    out = pone(d)
    for k, n in enumerate(idx):
        x = lin(d, -1, *[2 * int(j == k) for j in range(d)])
        out = pmul(out, jac(n, 0, x, pone(d), d))
    return out

def indices(geometry, order):
    """The index sets of the spaces: total degree for simplices, each degree otherwise."""
    d = int(geometry[0])
    al = itertools.product(range(order + 1), repeat=d)
    return {i for i in al if geometry not in ('2_3',) or sum(i) <= order}

def pint(geometry, p):
    """Integral over the reference element."""
    from math import factorial
    out = Fraction(0)
    for k, v in p.items():
        if geometry == '2_3':
            out += v * Fraction(factorial(k[0]) * factorial(k[1]), factorial(k[0] + k[1] + 2))
        else:
            c = Fraction(1)
            for e in k:
                c /= e + 1
            out += v * c
    return out

def pval(W, p, x):
    out = 0
    for k, v in sorted(p.items()):
        m = W.frac(v.numerator, v.denominator)
        for e, xx in zip(k, x):
            m = m * xx ** e
        out = out + m
    return out

def listed(W, geometry, order):
    return list(W.mod(PS).iter_by_order(order, int(geometry[0]), extended=geometry in ('2_4', '3_8')))

@contract('indices', SP[:-3] + [dict(geometry='2_3', order=9), dict(geometry='2_4', order=8)])
def indices_(W, geometry, order):
    """Every index exactly once, constant first, lower total degrees first; the number agrees."""
    d = int(geometry[0])
    ix = [tuple(i) for i in listed(W, geometry, order)]
    ext = geometry == '2_4'
    W.true('all of them', set(ix) == indices(geometry, order))
    W.true('once', len(set(ix)) == len(ix))
    W.true('constant first', sum(ix[0]) == 0)
    W.true('number', W.mod(PS).get_n_el_nod(order, d, ext) == len(ix))
    tot = [sum(i) for i in ix]
    W.true('lower degrees first', tot == sorted(tot) or ext and
           tot[:comb(order + 2, 2)] == sorted(tot[:comb(order + 2, 2)]))
    for o in range(order if not ext else 0):
        W.true('hierarchical %d' % o, ix[:W.mod(PS).get_n_el_nod(o, d)] == [tuple(i) for i in listed(W, geometry, o)])

@contract('indices/3D', [dict(order=o) for o in range(6)])
def indices_3d(W, order):
    ix = list(W.mod(PS).iter_by_order(order, 3))
    W.true('all of them', set(ix) == {i for i in itertools.product(range(order + 1), repeat=3) if sum(i) <= order})
    W.true('number', len(ix) == len(set(ix)) == W.mod(PS).get_n_el_nod(order, 3))

SP_ = [c for c in SP if c['geometry'] != '3_8']

@contract('values', SP_)
def values(W, geometry, order):
    """The values are those of the orthogonal polynomials."""
    ps = space(W, geometry, order)
    x = point(W, geometry, 2)
    b = ps.eval_basis(x)
    ix = listed(W, geometry, order)
    W.true('shape', b.shape == (2, 1, len(ix)) and ps.n_nod == len(ix))
    P = [definition(geometry, i) for i in ix]
    for q in range(2):
        W.eqs('values %d' % q, b[q, 0], [pval(W, p, x[q]) for p in P])
    # the reference polynomials are orthogonal
    for i, p in enumerate(P):
        for j, r in enumerate(P[:i + 1]):
            v = pint(geometry, pmul(p, r))
            W.true('orthogonal %d %d' % (i, j), (v > 0) if i == j else v == 0)

@contract('gradients', SP_)
def gradients(W, geometry, order):
    ps = space(W, geometry, order)
    d = int(geometry[0])
    x = point(W, geometry)
    g = ps.eval_basis(x, diff=1)
    W.true('shape', g.shape == (1, 1, d, ps.n_nod))
    P = [definition(geometry, i) for i in listed(W, geometry, order)]
    for k in range(d):
        ref = []
        for p in P:
            dp = {}
            for e, v in p.items():
                if e[k]:
                    dp[tuple(a - int(j == k) for j, a in enumerate(e))] = v * e[k]
            ref.append(pval(W, dp, x[0]))
        W.eqs('derivative %d' % k, g[0, 0, k], ref)

BP = {'1_2': [(0,), (1,), (Fraction(1, 2),)],
      '2_3': [(0, 0), (1, 0), (0, 1), (Fraction(1, 2), Fraction(1, 2)), (Fraction(1, 3), 0)],
      '2_4': [(0, 0), (1, 0), (0, 1), (1, 1), (Fraction(1, 2), 1)]}

@contract('vertices', SP_)
def vertices(W, geometry, order):
    """Values and derivatives in the vertices are the finite exact ones."""
    ps = space(W, geometry, order)
    d = int(geometry[0])
    # a = (1 + r) / (1 - s) is not defined for s = 1: the vertex (0, 1) is tried numerically only
    pts = [p for p in BP[geometry] if not (W.symbolic and geometry == '2_3' and p == (0, 1))]
    fr = [[Fraction(c) for c in p] for p in pts]
    x = W.array([[W.frac(c.numerator, c.denominator) for c in p] for p in fr])
    b = ps.eval_basis(x)
    g = ps.eval_basis(x, diff=1)
    P = [definition(geometry, i) for i in listed(W, geometry, order)]
    for q in range(len(pts)):
        W.eqs('values in %d' % q, b[q, 0], [pval(W, p, x[q]) for p in P])
        if not W.symbolic:
            W.true('finite %d' % q, bool(np.isfinite(b[q]).all() and np.isfinite(g[0, q]).all()))
        for k in range(d):
            ref = []
            for p in P:
                dp = {tuple(a - int(j == k) for j, a in enumerate(e)): v * e[k] for e, v in p.items() if e[k]}
                ref.append(pval(W, dp, x[q]))
            W.eqs('derivatives %d in %d' % (k, q), g[0, q, k], ref)

@contract('interpolation scheme', [c for c in SP_ if c['geometry'] != '1_2'])
def scheme(W, geometry, order):
    """The gmsh scheme written to files represents the basis (gmsh has quadrangles on [-1, 1]^2)."""
    ps = space(W, geometry, order)
    sc = ps.get_interpol_scheme()
    x = point(W, geometry)
    u = x[0] if geometry == '2_3' else 2 * x[0] - 1
    F, P = np.asarray(sc.F), np.asarray(sc.P)
    n = ps.n_nod
    W.true('shapes', F.shape == (n, n) and P.shape == (n, 3) and sc.desc == geometry)
    mono = [u[0] ** int(P[j, 0]) * u[1] ** int(P[j, 1]) * (1 if P[j, 2] == 0 else None) for j in range(n)]
    W.eqs('basis', [sum(F[i, j] * mono[j] for j in range(n)) for i in range(n)], ps.eval_basis(x)[0, 0])

@contract('1D functions', [dict(n=n) for n in range(9)])
def functions_1d(W, n):
    """The helpers get_nth_fun(), get_nth_fun_der()."""
    ps = space(W, '1_2', 1)
    x = point(W, '1_2', 2)[:, 0]
    p = definition('1_2', (n,))
    W.eqs('function', ps.get_nth_fun(n)(x), [pval(W, p, [v]) for v in x])
    for k in range(1, 4):
        p = {(e[0] - 1,): v * e[0] for e, v in p.items() if e[0]}
        W.eqs('derivative %d' % k, ps.get_nth_fun_der(n, k)(x), [pval(W, p, [v]) for v in x])

# ------------------------------------------------------------ minmod
def by_definition(args):
    """The minmod function; forks."""
    if all(a > 0 for a in args):
        r = args[0]
        for a in args[1:]:
            r = a if a < r else r
        return r
    if all(a < 0 for a in args):
        r = args[0]
        for a in args[1:]:
            r = a if a > r else r
        return r
    return 0

@contract('minmod')
def minmod(W):
    a = W.reals('a', 3, 1)
    r = W.mod(LI).minmod(a[0], a[1], a[2])
    W.true('shape', r.shape == (1,))
    W.eq('definition', r[0], by_definition(list(a[:, 0])))

@contract('minmod_seq', [dict(n=n) for n in (1, 2, 3)])
def minmod_seq(W, n):
    a = W.reals('a', n, 1, 1)
    r = W.mod(LI).minmod_seq(list(a))
    W.true('shape', r.shape == (1, 1))
    W.eq('definition', r[0, 0], by_definition(list(a[:, 0, 0])) if n > 1 else a[0, 0, 0])

@contract('minmod/several', [dict(fun='minmod'), dict(fun='minmod_seq')])
def minmod_several(W, fun):
    """The cells are treated independently."""
    f = getattr(W.mod(LI), fun)
    v = [[2, 3, 1], [-2, -3, -1], [2, -3, 1], [0, 1, 2], [1, 5, 7], [-4, -3, -4], [3, 2, -1], [-1, 2, 3]]
    a = W.array([[[W.num(x)] for x in c] for c in zip(*v)])
    r = f(a[0], a[1], a[2]) if fun == 'minmod' else f(list(a))
    W.eqs('definition', r[:, 0], [1, -1, 0, 0, 1, -3, 0, 0])

# ------------------------------------------------------------ limiters
def fake_field(n_cell, order, dim=1, nbr=None):
    nen = order + 1 if dim == 1 else (order + 1) ** 2
    return NS(name='f', family_name='dg', n_cell=n_cell, n_el_nod=nen, approx_order=order, extended=dim == 2,
              n_bubble_dof=n_cell * nen, get_facet_neighbor_idx=lambda *a: nbr)

def arbitrary_minmod(W, stop=None):
    """
    `minmod()` and `minmod_seq()` by their contracts: arbitrary functions of their arguments, cell by cell.
    With `stop` given, the coefficient of that position is not changed, all the others are increased.
    """
    def one(*a):
        if len(a) == 1:
            return a[0]
        v = W.fn('mm%d' % len(a), *a)
        if stop is not None:
            key = tuple(str(x) for x in a)
            k = seen.setdefault(key, len(seen))
            if k == stop:
                return a[0]
            v = a[0] + 1 + v * v
        return v
    seen = {}

    def mm(*args):
        out = W.array(np.zeros(np.shape(args[0]), dtype=int).tolist()) if np.size(args[0]) else np.zeros(np.shape(args[0]))
        for i in np.ndindex(out.shape):
            out[i] = one(*[a[i] for a in args])
        return out
    W.stub(LI, 'minmod', mm)
    W.stub(LI, 'minmod_seq', lambda abc: mm(*abc) if len(abc) > 1 else abc[0])
    return one

@contract('limiter 1D', [dict(n=n, order=o) for n in (1, 2, 3, 4) for o in (0, 1, 2, 3) if n < 4 or o < 3])
def limiter_1d(W, n, order):
    """Coefficients from the highest one are limited until one does not change; cell means and end cells are kept."""
    mm = arbitrary_minmod(W)
    m = W.mod(LI)
    lim = m.MomentLimiter1D(fake_field(n, order))
    u = W.reals('u', n * (order + 1))
    u0 = u.copy()
    r = lim(u)
    W.true('shape', r.shape == u0.shape)
    W.eqs('the argument is kept', u, u0)
    U = u0.reshape(n, order + 1)
    R = np.asarray(r).reshape(n, order + 1)
    W.eqs('cell means', R[:, 0], U[:, 0])
    for c in range(n):
        ref = list(U[c])
        if 0 < c < n - 1:
            for l in range(order, 0, -1):
                t = mm(U[c, l], U[c + 1, l - 1] - U[c, l - 1], U[c, l - 1] - U[c - 1, l - 1])
                if not (abs(t - U[c, l]) > m.MACHINE_EPS):
                    break
                ref[l] = t
        W.eqs('cell %d' % c, R[c], ref)

def tables():
    """Neighbour tables: (bottom, right, top, left) of each cell."""
    no = [-1] * 4
    out = []
    for c in range(5):
        o = [i for i in range(5) if i != c]
        out.append([o if i == c else no for i in range(5)])
    out.append([[1, 1, 1, 1], [0, 0, 0, 0]])                   # two cells, periodic
    out.append([[0, 0, 0, 0]])                                 # one periodic cell
    out.append([[1, 2, 1, -1], [2, 0, 2, 0], [0, 1, 0, 1]])
    return out
TABLES = tables()

@contract('limiter 2D', [dict(t=t, order=o) for t in range(len(TABLES)) for o in (0, 1)]
          + [dict(t=t, order=2, stop=k) for t in (0, 3, 6) for k in range(9)]
          + [dict(t=0, order=3, stop=k) for k in (0, 3, 7, 15)])
def limiter_2d(W, t, order, stop=None):
    mm = arbitrary_minmod(W, stop)
    m = W.mod(LI)
    T = TABLES[t]
    n = len(T)
    nbr = np.zeros((n, 4, 2), dtype=np.int32)
    nbr[..., 0] = T
    lim = m.MomentLimiter2D(fake_field(n, order, 2, nbr))
    nen = (order + 1) ** 2
    u = W.reals('u', n * nen)
    u0 = u.copy()
    r = lim(u)
    W.true('shape', r.shape == u0.shape)
    W.eqs('the argument is kept', u, u0)
    ix = [tuple(i) for i in listed(W, '2_4', order)]
    U = [dict(zip(ix, row)) for row in u0.reshape(n, nen)]
    R = np.asarray(r).reshape(n, nen)
    W.eqs('cell means', R[:, 0], u0.reshape(n, nen)[:, 0])
    for c in range(n):
        ref = dict(U[c])
        if min(T[c]) >= 0 and order:
            b, rr, tt, l = [U[k] for k in T[c]]
            for i, j in reversed(ix):
                args = [U[c][i, j]]
                if i:
                    alf = W.np.sqrt(W.frac(2 * i - 1, 2 * i + 1))
                    args += [alf * (rr[i - 1, j] - U[c][i - 1, j]), alf * (U[c][i - 1, j] - l[i - 1, j])]
                if j:
                    alf = W.np.sqrt(W.frac(2 * j - 1, 2 * j + 1))
                    args += [alf * (tt[i, j - 1] - U[c][i, j - 1]), alf * (U[c][i, j - 1] - b[i, j - 1])]
                v = mm(*args)
                if not (abs(v - U[c][i, j]) > m.MACHINE_EPS):
                    break
                ref[i, j] = v
        W.eqs('cell %d' % c, R[c], [ref[k] for k in ix])

@contract('limiter/no new extrema')
def no_new_extrema(W):
    """Linear approximation: the values in the cell ends lie between the means of the neighbours."""
    m = W.mod(LI)
    lim = m.MomentLimiter1D(fake_field(3, 1))
    eps = m.MACHINE_EPS                            # smaller changes are not made
    u = W.reals('u', 6)
    r = lim(u)
    a, b, c = u[0], u[2], u[4]
    lo, hi = a, a
    for v in (b, c):
        lo = v if v < lo else lo
        hi = v if v > hi else hi
    for s in (1, -1):
        W.le('not below %+d' % s, lo - eps, r[2] + s * r[3])
        W.le('not above %+d' % s, r[2] + s * r[3], hi + eps)

@contract('limiter/smooth data', [dict(n=n) for n in (3, 4, 5)])
def smooth(W, n):
    """A linear function is not changed, with any slope."""
    lim = W.mod(LI).MomentLimiter1D(fake_field(n, 1))
    a, b = W.real('a'), W.real('b')
    u = W.array([v for i in range(n) for v in (a + 2 * b * i, b)])
    W.eqs('unchanged', lim(u.copy()), u)

@contract('limiter/identity')
def identity(W):
    lim = W.mod(LI).IdentityLimiter(fake_field(3, 2))
    u = W.reals('u', 9)
    W.eqs('unchanged', lim(u.copy()), u)

@contract('limiter/composed', [dict(orders=o) for o in ((1,), (1, 2), (0, 2, 1))])
def composed(W, orders):
    """Every field is limited by its limiter, in its own part of the state vector."""
    m = W.mod(LI)
    fields = [fake_field(3 + i, o) for i, o in enumerate(orders)]
    for i, f in enumerate(fields):
        f.name = 'f%d' % i

    def make(field, verbose=False):
        def lim(u):
            W.true('size of %s' % field.name, u.shape == (field.n_bubble_dof,))
            return W.array([W.fn('lim' + field.name, v) for v in u])
        return lim
    comp = m.ComposedLimiter(fields, [make] * len(fields))
    n = [f.n_bubble_dof for f in fields]
    u = W.reals('u', sum(n))
    r = comp(u)
    names = [f.name for f in fields for _ in range(f.n_bubble_dof)]
    W.eqs('parts', r, [W.fn('lim' + k, v) for k, v in zip(names, u)])

@contract('ravel', [dict(n=n, c=c) for n in (1, 2, 3) for c in (1, 2, 4)])
def ravel(W, n, c):
    m = W.mod(FI)
    u = W.reals('u', n * c)
    v = m.get_unraveler(n, c)(u)
    W.true('shape', v.shape == (c, n, 1))
    W.eqs('cell by cell', np.array(v)[..., 0].reshape(-1), u)
    r = m.get_raveler(n, c)(v)
    W.true('back', r.shape == (n * c, 1))
    W.eqs('inverse', r[:, 0], u)

# ------------------------------------------------------------ explicit time steps
class Nls:
    """Residual M x + L(x) with an arbitrary operator L and a diagonal matrix M."""
    def __init__(self, W, n=2):
        self.W, self.n = W, n
        self.M = [W.real('m%d' % i, pos=True) for i in range(n)]
        self.times = []
        self.lin_solver = self.solver()

    def L(self, x):
        return self.W.array([self.W.fn('L%d' % i, *x) for i in range(self.n)])

    def rate(self, x):
        """The time derivative."""
        return -self.L(x) / self.W.array(self.M)

    def fun(self, x):
        self.times.append(self.ts.time)
        return self.L(x) + self.W.array(self.M) * x

    def fun_grad(self, x):
        return Mtx(self.W.array(self.M))

    def solver(self):
        def solve(rhs, x0=None, eps_a=None, eps_r=None, mtx=None, status=None):
            return rhs / mtx.m
        solve.get_tolerance = lambda: (None, None)
        return solve

class Mtx:
    def __init__(self, m):
        self.m = m

    def __mul__(self, v):
        return self.m * v

def tableau(name):
    """Stages by the definitions of the methods, as the functions of the rate."""
    h = lambda W, a, b=1: W.frac(a, b)
    if name == 'EulerStepSolver':
        return lambda W, f, u, dt: u + dt * f(u)
    if name == 'TVDRK3StepSolver':
        def tvd(W, f, u, dt):
            p1 = u + dt * f(u)
            p2 = h(W, 3, 4) * u + h(W, 1, 4) * p1 + h(W, 1, 4) * dt * f(p1)
            return h(W, 1, 3) * u + h(W, 2, 3) * p2 + h(W, 2, 3) * dt * f(p2)
        return tvd
    def rk4(W, f, u, dt):
        k1 = f(u)
        k2 = f(u + dt * k1 * h(W, 1, 2))
        k3 = f(u + dt * k2 * h(W, 1, 2))
        k4 = f(u + dt * k3)
        return u + dt * (k1 + 2 * k2 + 2 * k3 + k4) * h(W, 1, 6)
    return rk4

@contract('explicit step', [dict(cls=c) for c in ('EulerStepSolver', 'TVDRK3StepSolver', 'RK4StepSolver')])
def explicit_step(W, cls):
    """One step of the documented scheme for an arbitrary operator; the time of the step is kept."""
    m = W.mod(TS)
    sol = object.__new__(getattr(m, cls))
    sol.verbose = False
    sol.post_stage_hook = lambda x: x
    nls = Nls(W)
    t, dt = W.real('t'), W.real('dt', pos=True)
    ts = W.mod('sfepy.solvers.ts').TimeStepper.__new__(W.mod('sfepy.solvers.ts').TimeStepper)
    ts.time, ts.dt, ts.step, ts.step_start_time = t, dt, 1, None
    nls.ts = ts
    u = W.reals('u', 2)
    u0 = u.copy()
    r = sol.solve_step(ts, nls, u, prestep_fun=lambda ts, v: v, poststep_fun=lambda ts, v: v)
    W.eqs('state', r, tableau(cls)(W, nls.rate, u0, dt))
    W.eqs('the argument is kept', u, u0)
    W.eq('time', ts.time, t)

# ------------------------------------------------------------ fields
def rot(c, k):
    return c[k:] + c[:k]

# coordinates, cells, element type; facets have rational lengths
MESHES = {
    'line3': ([[0], [1], [3], [4]], [[0, 1], [1, 2], [2, 3]], '1_2'),
    'line/mixed': ([[3], [0], [1], [4]], [[0, 3], [1, 2], [2, 0]], '1_2'),
    'quad4': ([[i, j] for j in (0, 1, 3) for i in (0, 2, 3)],
              [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7]], '2_4'),
    'quad2r': ([[0, 0], [4, 0], [0, 3], [4, 6], [8, 3]], [[0, 1, 3, 2]], '2_4'),
    'quad/turned': ([[0, 0], [2, 0], [5, 0], [0, 1], [2, 1], [5, 1]], [[4, 3, 0, 1], [2, 5, 4, 1]], '2_4'),
    'quad/slanted': ([[0, 0], [4, 3], [8, 6], [0, 5], [4, 8], [8, 11]], [[0, 1, 4, 3], [5, 4, 1, 2]], '2_4'),
    'tri2': ([[0, 0], [4, 0], [4, 3], [0, 3]], [[0, 1, 2], [3, 0, 2]], '2_3'),
    'tri4': ([[0, 0], [6, 0], [6, 8], [0, 8], [3, 4]], [[0, 1, 4], [4, 1, 2], [2, 3, 4], [3, 0, 4]], '2_3'),
}
FACETS = {'1_2': [(0,), (1,)], '2_3': [(0, 1), (1, 2), (2, 0)], '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)]}
REF = {'1_2': [(0,), (1,)], '2_3': [(0, 0), (1, 0), (0, 1)], '2_4': [(0, 0), (1, 0), (1, 1), (0, 1)]}

def neighbours(conn, et):
    out = {}
    for c, cell in enumerate(conn):
        for f, fv in enumerate(FACETS[et]):
            s = {cell[i] for i in fv}
            out[c, f] = (-1, -1)
            for c2, cell2 in enumerate(conn):
                for f2, fv2 in enumerate(FACETS[et]):
                    if c2 != c and {cell2[i] for i in fv2} == s:
                        out[c, f] = (c2, f2)
    return out

def exact_rule(geometry, n):
    """A symmetric rule exact up to the degree n, on an even lattice inside of the element."""
    import sympy
    d = int(geometry[0])
    if geometry == '2_3':
        pts = [(Fraction(i + 1, n + 3), Fraction(j + 1, n + 3)) for i in range(n + 1) for j in range(n + 1 - i)]
        mon = [(i, j) for i in range(n + 1) for j in range(n + 1 - i)]
        A = sympy.Matrix([[sympy.Rational(p[0].numerator, p[0].denominator) ** m[0]
                           * sympy.Rational(p[1].numerator, p[1].denominator) ** m[1] for p in pts] for m in mon])
        b = sympy.Matrix([sympy.Rational(*(lambda v: (v.numerator, v.denominator))(pint('2_3', {m: Fraction(1)})))
                          for m in mon])
        w = A.LUsolve(b)
        return pts, [Fraction(int(v.p), int(v.q)) for v in w]
    pts = [Fraction(i + 1, n + 2) for i in range(n + 1)]
    A = sympy.Matrix([[sympy.Rational(p.numerator, p.denominator) ** m for p in pts] for m in range(n + 1)])
    w = A.LUsolve(sympy.Matrix([sympy.Rational(1, m + 1) for m in range(n + 1)]))
    w = [Fraction(int(v.p), int(v.q)) for v in w]
    if d == 1:
        return [(p,) for p in pts], w
    return [(p, q) for p in pts for q in pts], [a * b for a in w for b in w]

class Setting:
    """A DG field over a mesh with quadratures exact for the approximation order."""
    def __init__(self, W, mesh, order):
        self.W, self.order = W, order
        x, conn, et = MESHES[mesh]
        self.conn, self.et, self.dim = conn, et, int(et[0])
        self.x = [[Fraction(v) for v in r] for r in x]
        xx = W.array([[W.frac(v.numerator, v.denominator) for v in r] for r in self.x])
        m = W.mod('sfepy.discrete.fem').Mesh.from_data(
            'mesh', xx, None, [np.array(conn, dtype=np.int32)], [np.zeros(len(conn), dtype=np.int32)], [et])
        self.dom = W.mod('sfepy.discrete.fem').FEDomain('domain', m)
        self.omega = self.dom.create_region('Omega', 'all')
        n = 2 * order if order else 1
        self.facet_rule = exact_rule('1_2', n) if self.dim > 1 else ([(Fraction(0),)], [Fraction(1)])
        self.cell_rule = exact_rule(et, n)

        def get_qp(integral, geometry):
            pts, w = self.cell_rule if geometry == et else self.facet_rule
            fr = lambda v: W.frac(v.numerator, v.denominator)
            return W.array([[fr(v) for v in p] for p in pts]), W.array([fr(v) for v in w])
        W.stub('sfepy.discrete.integrals', 'Integral.get_qp', get_qp)
        self.field = W.mod(FI).DGField('f', np.float64, 'scalar', self.omega, approx_order=order)
        self.nbr = neighbours(conn, et)
        self.n_fa = len(FACETS[et])
        self.n_el = len(conn)
        self.P = [definition(et, i) for i in listed(W, et, order)]
        self.n_nod = len(self.P)
        self.periodic = []

    def state(self, dofs, ebc=None, vals=None, periodic=()):
        em = NS(n_epbc=0, n_dg_epbc=len(periodic), dg_epbc=list(periodic),
                dg_ebc=ebc or {}, dg_ebc_val=vals or {})
        for m, s in periodic:
            for (c, f), (c2, f2) in zip(m.tolist(), s.tolist()):
                self.nbr[c, f], self.nbr[c2, f2] = (c2, f2), (c, f)
        return NS(data=[dofs], eq_map=em)

    # ---- by definition
    def ref_point(self, c, f, t, c2=None, f2=None):
        """The reference coordinates, in c2, of the point t of the facet f of c."""
        fv = FACETS[self.et][f]
        if c2 is None:
            c2, f2 = c, f
        if self.dim == 1:
            return [Fraction(v) for v in REF[self.et][FACETS[self.et][f2][0]]]
        fv2 = FACETS[self.et][f2]
        a, b = [self.conn[c][i] for i in fv]
        if {a, b} == {self.conn[c2][i] for i in fv2}:
            i, j = [self.conn[c2].index(v) for v in (a, b)]
        else:                                                      # periodic: opposite facets
            j, i = fv2
        p, q = REF[self.et][i], REF[self.et][j]
        return [(1 - t) * Fraction(u) + t * Fraction(v) for u, v in zip(p, q)]

    def points(self):
        return [p[0] for p in self.facet_rule[0]]

    def physical(self, c, f, t):
        a = [self.x[self.conn[c][i]] for i in FACETS[self.et][f]]
        if self.dim == 1:
            return a[0]
        return [(1 - t) * u + t * v for u, v in zip(*a)]

    def jacobian(self, c, xi):
        """d physical / d reference"""
        X = [self.x[i] for i in self.conn[c]]
        d = self.dim
        if self.et == '1_2':
            g = [[-1], [1]]
        elif self.et == '2_3':
            g = [[-1, -1], [1, 0], [0, 1]]
        else:
            u, v = xi
            g = [[v - 1, u - 1], [1 - v, -u], [v, u], [-v, 1 - u]]
        return [[sum(g[i][k] * X[i][j] for i in range(len(X))) for k in range(d)] for j in range(d)]

    def basis(self, c, xi):
        return [sum(v * np.prod([Fraction(z) ** e for z, e in zip(xi, k)]) for k, v in p.items()) for p in self.P]

    def grads(self, c, xi):
        """Physical gradients of the basis, [d][k]"""
        J = self.jacobian(c, xi)
        d = self.dim
        if d == 1:
            I = [[1 / J[0][0]]]
        else:
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            I = [[J[1][1] / det, -J[0][1] / det], [-J[1][0] / det, J[0][0] / det]]
        return [[sum(g[k] * I[k][j] for k in range(d)) for j in range(d)] for g in self.ref_grads(xi)]

    def ref_grads(self, xi):
        """Reference gradients of the basis, [d][k]"""
        out = []
        for p in self.P:
            g = []
            for k in range(self.dim):
                g.append(sum((v * e[k] * np.prod([Fraction(z) ** (q - int(j == k)) for j, (z, q) in enumerate(zip(xi, e))])
                              for e, v in p.items() if e[k]), Fraction(0)))
            out.append(g)
        return out

    def normal(self, c, f):
        """The unit outward normal and the size."""
        if self.dim == 1:
            X = [self.x[i][0] for i in self.conn[c]]
            s = 1 if X[1] > X[0] else -1
            return [Fraction(s if f else -s)], Fraction(1)
        a, b = [self.x[self.conn[c][i]] for i in FACETS[self.et][f]]
        t = [b[0] - a[0], b[1] - a[1]]
        l2 = t[0] ** 2 + t[1] ** 2
        l = Fraction(round(float(l2) ** 0.5 * 1000), 1000)
        assert l * l == l2
        return [t[1] / l, -t[0] / l], l

    def fr(self, v):
        v = Fraction(v)
        return self.W.frac(v.numerator, v.denominator)

    def value(self, u, c, b):
        return sum(self.fr(v) * u[c * self.n_nod + d] for d, v in enumerate(b))

GRID = [dict(mesh=m, order=o) for m in MESHES for o in (0, 1, 2) if not (o == 2 and m in ('tri4', 'quad4'))]

@contract('field/neighbours', [dict(mesh=m) for m in MESHES])
def field_neighbours(W, mesh):
    s = Setting(W, mesh, 0)
    nb = s.field.get_facet_neighbor_idx(s.omega, s.state(None).eq_map)
    W.true('shape', nb.shape == (s.n_el, s.n_fa, 2))
    for (c, f), v in s.nbr.items():
        W.true('cell %d, facet %d' % (c, f), tuple(nb[c, f]) == v)

@contract('field/facets', GRID)
def field_facets(W, mesh, order):
    """Normals, sizes and quadrature points of the cell facets."""
    s = Setting(W, mesh, order)
    n = s.field.get_cell_normals_per_facet(s.omega)
    v = s.field.get_facet_vols(s.omega)
    qp, w = s.field.get_facet_qp()
    nq = len(s.points())
    W.true('shapes', qp.shape == (nq, 1, s.n_fa, s.dim) and w.shape == (1, nq, 1))
    W.eqs('weights', w[0, :, 0], [s.fr(x) for x in s.facet_rule[1]])
    for c in range(s.n_el):
        for f in range(s.n_fa):
            nn, vv = s.normal(c, f)
            W.eqs('normal %d %d' % (c, f), n[c, f], [s.fr(x) for x in nn])
            W.eq('size %d %d' % (c, f), v[c, f, 0], s.fr(vv))
    for f in range(s.n_fa):
        for q, t in enumerate(s.points()):
            W.eqs('point %d of facet %d' % (q, f), qp[q, 0, f], [s.fr(x) for x in s.ref_point(0, f, t)])

@contract('field/facet values', GRID)
def facet_values(W, mesh, order):
    """Inner and outer values in the same physical points, for all DOFs; zero outer values on the boundary."""
    s = Setting(W, mesh, order)
    u = W.reals('u', s.n_el * s.n_nod)
    st = s.state(u)
    i, o, w = s.field.get_both_facet_state_vals(st, s.omega)
    ib, ob, w2 = s.field.get_both_facet_basis_vals(st, s.omega)
    nq = len(s.points())
    W.true('shapes', i.shape == o.shape == w.shape == (s.n_el, s.n_fa, nq)
           and ib.shape == ob.shape == (s.n_el, s.n_nod, s.n_fa, nq))
    for (c, f), (c2, f2) in s.nbr.items():
        for q, t in enumerate(s.points()):
            k = '%d %d %d' % (c, f, q)
            b = s.basis(c, s.ref_point(c, f, t))
            W.eq('inner ' + k, i[c, f, q], s.value(u, c, b))
            W.eqs('inner basis ' + k, ib[c, :, f, q], [s.fr(x) for x in b])
            W.eq('weights ' + k, w[c, f, q], s.fr(s.facet_rule[1][q] * s.normal(c, f)[1]))
            if c2 >= 0:
                b = s.basis(c2, s.ref_point(c, f, t, c2, f2))
                W.eq('outer ' + k, o[c, f, q], s.value(u, c2, b))
                W.eqs('outer basis ' + k, ob[c, :, f, q], [s.fr(x) for x in b])
            else:
                W.eq('outer ' + k, o[c, f, q], 0)

@contract('field/boundary values', [dict(mesh=m, order=o, kind=k) for m in MESHES for o in (0, 1)
                                    for k in ('function', 'constant')])
def boundary_values(W, mesh, order, kind):
    """Values of the boundary conditions appear as the outer values in the same physical points."""
    s = Setting(W, mesh, order)
    bnd = s.dom.create_region('Gamma', 'vertices of surface', 'facet')
    c0 = W.real('c')
    f = lambda p: W.fn('g', *p)

    def fun(coors):
        W.true('coordinates', coors.shape[-1] == s.dim)
        out = W.array(np.zeros(coors.shape[:-1], dtype=int).tolist())
        for i in np.ndindex(out.shape):
            out[i] = f(coors[i])
        return out
    vals = s.field.get_bc_facet_values(fun if kind == 'function' else c0, bnd)
    idx = s.field.get_bc_facet_idx(bnd)
    u = W.reals('u', s.n_el * s.n_nod)
    st = s.state(u, {0: [idx]}, {0: [vals]})
    _, o, _ = s.field.get_both_facet_state_vals(st, s.omega)
    W.true('all boundary facets', sorted(map(tuple, idx.tolist())) == sorted(k for k, v in s.nbr.items() if v[0] < 0))
    for (c, fa), (c2, f2) in s.nbr.items():
        for q, t in enumerate(s.points()):
            k = '%d %d %d' % (c, fa, q)
            if c2 < 0:
                p = [s.fr(x) for x in s.physical(c, fa, t)]
                W.eq('outer ' + k, o[c, fa, q], f(p) if kind == 'function' else c0)
            else:
                W.eq('outer ' + k, o[c, fa, q], s.value(u, c2, s.basis(c2, s.ref_point(c, fa, t, c2, f2))))

@contract('field/projection', [dict(mesh=m, order=o) for m in ('line3', 'line/mixed', 'quad4', 'tri2', 'quad/turned')
                               for o in (0, 1, 2)])
def projection(W, mesh, order):
    """Functions from the space are reproduced."""
    s = Setting(W, mesh, order)
    x, conn, et = MESHES[mesh]
    u = W.reals('u', s.n_el * s.n_nod)

    def fun(coors):
        W.true('shape', coors.shape == (s.n_el, len(s.cell_rule[0]), s.dim))
        out = W.array(np.zeros(coors.shape[:-1], dtype=int).tolist())
        for c in range(s.n_el):
            for q, xi in enumerate(s.cell_rule[0]):
                out[c, q] = s.value(u, c, s.basis(c, xi))
        return out
    nods, vals = s.field.set_dofs(fun)
    W.true('all DOFs', nods.tolist() == list(range(len(u))))
    W.eqs('reproduced', np.asarray(vals).reshape(-1), u)

# ------------------------------------------------------------ flux terms
TD = 'sfepy.terms.terms_dg'

def periodic(s):
    """Left and right facets of the mesh quad4, or the end points of a line."""
    if s.et == '1_2':
        return [(np.array([[0, 0]]), np.array([[s.n_el - 1, 1]]))]
    return [(np.array([[0, 3], [2, 3]]), np.array([[1, 1], [3, 1]]))]

def term_cases(orders=(0, 1, 2)):
    out = []
    for m in MESHES:
        for o in orders:
            if o == 2 and m in ('tri4', 'quad4', 'tri2'):
                continue
            for bc in ('none', 'values') + (('periodic',) if m in ('line3', 'quad4') else ()):
                out.append(dict(mesh=m, order=o, bc=bc))
    return out

class Flux:
    def __init__(self, W, mesh, order, bc):
        self.s = s = Setting(W, mesh, order)
        self.W = W
        self.u = W.reals('u', s.n_el * s.n_nod)
        self.g, self.gd = {}, {}
        nq = len(s.points())
        if bc == 'values':
            bf = sorted(k for k, v in s.nbr.items() if v[0] < 0)
            bf = bf[:max(1, len(bf) - 1)]                          # one facet without any condition
            g = W.reals('g', len(bf), nq)
            gd = W.reals('gd', len(bf), s.dim, nq)
            self.g = {(c, f, q): g[i, nq - 1 - q] for i, (c, f) in enumerate(bf) for q in range(nq)}
            self.gd = {(c, f, q, k): gd[i, k, nq - 1 - q] for i, (c, f) in enumerate(bf)
                       for q in range(nq) for k in range(s.dim)}
            ix = np.array(bf)
            self.st = s.state(self.u, {0: [ix], 1: [ix]}, {0: [g], 1: [gd]})
            self.st2 = self.st
        elif bc == 'periodic':
            self.st = s.state(self.u, periodic=periodic(s))
        else:
            self.st = s.state(self.u)

    def traces(self, u):
        """Values and gradients from both sides in every facet point."""
        s = self.s
        for (c, f), (c2, f2) in s.nbr.items():
            for q, t in enumerate(s.points()):
                xi = s.ref_point(c, f, t)
                b, g = s.basis(c, xi), s.grads(c, xi)
                pi = s.value(u, c, b)
                gi = [s.value(u, c, [x[k] for x in g]) for k in range(s.dim)]
                if c2 >= 0:
                    xo = s.ref_point(c, f, t, c2, f2)
                    bo, go = s.basis(c2, xo), s.grads(c2, xo)
                    po = s.value(u, c2, bo)
                    gou = [s.value(u, c2, [x[k] for x in go]) for k in range(s.dim)]
                else:
                    po = self.g.get((c, f, q), 0)
                    gou = [self.gd.get((c, f, q, k), 0) for k in range(s.dim)]
                n, size = s.normal(c, f)
                yield c, f, q, b, g, pi, po, gi, gou, n, s.facet_rule[1][q] * size

    def check(self, term, args, residual):
        """The residual by its definition; the matrix is its derivative."""
        W, s = self.W, self.s
        n = s.n_nod
        out = W.array(np.full((s.n_el, 1, n, 1), 7).tolist())
        r, status = term.function(out, self.st, None, s.field, s.omega, *args)
        ref = residual(self.u)
        W.true('status', not status)
        for c in range(s.n_el):
            W.eqs('residual %d' % c, r[c, 0, :, 0], ref[c])
        r0 = W.array(np.zeros((s.n_el, 1, n, 1), dtype=int).tolist())
        m, status = term.function(r0, self.st, 'u', s.field, s.omega, *args)
        vals, ii, jj = m[:3]
        N = s.n_el * n
        W.true('indices', len(vals) == len(ii) == len(jj) and min(ii) >= 0 and max(ii) < N
               and min(jj) >= 0 and max(jj) < N)
        A = W.array(np.zeros((N, N), dtype=int).tolist())
        for v, i, j in zip(vals, ii, jj):
            A[i, j] = A[i, j] + v
        R = [x for c in range(s.n_el) for x in ref[c]]
        if W.symbolic:
            for i in range(N):
                W.eqs('matrix row %d' % i, A[i], [sym.diff(sym.lift(R[i]), self.u[j]) for j in range(N)])
        else:
            base = [x for row in residual(0 * self.u) for x in row]
            for j in range(N):
                e = 0 * self.u
                e[j] = 1
                col = [x for row in residual(e) for x in row]
                W.eqs('matrix column %d' % j, A[:, j], [a - b for a, b in zip(col, base)])

    def gather(self, contributions):
        """Sum of the point contributions to the test functions."""
        s = self.s
        out = [[0] * s.n_nod for _ in range(s.n_el)]
        for c, v in contributions:
            for d in range(s.n_nod):
                out[c][d] = out[c][d] + v[d]
        return out

def fr_(s, v):
    return s.fr(v)

@contract('flux/advection', term_cases())
def flux_advection(W, mesh, order, bc):
    """Lax-Friedrichs flux, for a constant velocity in every cell."""
    F = Flux(W, mesh, order, bc)
    s = F.s
    vel = [[Fraction(3, 2), Fraction(-2)], [Fraction(-1), Fraction(1, 3)], [Fraction(0), Fraction(2)],
           [Fraction(1), Fraction(5)]]
    a = [vel[c % 4][:s.dim] for c in range(s.n_el)]
    alpha = W.real('alpha')
    m = W.mod(TD)
    T = object.__new__(m.AdvectionDGFluxTerm)
    T.alpha = alpha
    A = W.array([[s.fr(v) for v in r] for r in a])

    def residual(u):
        def gen():
            for c, f, q, b, g, pi, po, gi, go, n, w in F.traces(u):
                an = sum(x * y for x, y in zip(a[c], n))
                fl = s.fr(an) * (pi + po) / 2 + (1 - alpha) * s.fr(abs(an)) * (pi - po) / 2
                yield c, [fl * s.fr(w * x) for x in b]
        return F.gather(gen())
    F.check(T, (A,), residual)

@contract('flux/penalty', term_cases())
def flux_penalty(W, mesh, order, bc):
    F = Flux(W, mesh, order, bc)
    s = F.s
    T = object.__new__(W.mod(TD).DiffusionInteriorPenaltyTerm)
    D = W.reals('D', s.n_el, 1, 1, pos=True)
    Cw = W.real('Cw')

    def residual(u):
        def gen():
            for c, f, q, b, g, pi, po, gi, go, n, w in F.traces(u):
                sg = D[c, 0, 0] * Cw * order ** 2 / s.fr(s.normal(c, f)[1])
                yield c, [sg * (pi - po) * s.fr(w * x) for x in b]
        return F.gather(gen())
    F.check(T, (Cw, D), residual)

@contract('flux/diffusion', [dict(c, mode=m) for c in term_cases() for m in ('avg_state', 'avg_virtual')])
def flux_diffusion(W, mesh, order, bc, mode):
    F = Flux(W, mesh, order, bc)
    s = F.s
    T = object.__new__(W.mod(TD).DiffusionDGFluxTerm)
    T.mode = mode
    D = W.reals('D', s.n_el, 1, 1, pos=True)

    def residual(u):
        def gen():
            for c, f, q, b, g, pi, po, gi, go, n, w in F.traces(u):
                if mode == 'avg_state':
                    fl = sum(s.fr(nk) * (x + y) for nk, x, y in zip(n, gi, go)) / 2
                    yield c, [D[c, 0, 0] * fl * s.fr(w * x) for x in b]
                else:
                    yield c, [D[c, 0, 0] * (pi - po) * s.fr(w * sum(nk * x for nk, x in zip(n, gd)) / 2) for gd in g]
        return F.gather(gen())
    F.check(T, (D,), residual)

@contract('flux/nonlinear', [c for c in term_cases((0, 1)) if c['mesh'] != 'tri4'])
def flux_nonlinear(W, mesh, order, bc):
    """Lax-Friedrichs flux of an arbitrary flux function; the wave speeds are the largest ones over the facets."""
    F = Flux(W, mesh, order, bc)
    s = F.s
    T = object.__new__(W.mod(TD).NonlinearHyperbolicDGFluxTerm)
    T.alf = alpha = W.real('alpha')
    nq = len(s.points())
    speed = lambda side, c, f, q, k: Fraction((3 * c + 5 * f + 7 * q + 2 * k + 11 * side) % 13 - 6, 2)
    sides = []

    def f(v):
        out = W.array(np.zeros(v.shape + (s.dim,), dtype=int).tolist())
        for i in np.ndindex(v.shape):
            for k in range(s.dim):
                out[i + (k,)] = W.fn('f%d' % k, v[i])
        return out

    def df(v):
        side = len(sides)
        sides.append(v)
        return W.array([[[[s.fr(speed(side, c, fa, q, k)) for k in range(s.dim)] for q in range(nq)]
                         for fa in range(s.n_fa)] for c in range(s.n_el)])
    out = W.array(np.full((s.n_el, 1, s.n_nod, 1), 7).tolist())
    r, status = T.function(out, F.st, s.field, s.omega, f, df)
    tr = list(F.traces(F.u))
    W.true('speeds of both sides', len(sides) == 2)
    for j, side in enumerate(sides):
        ref = iter([t[5 + j] for t in tr])
        W.eqs('states of the side %d' % j, side.reshape(-1), [x for x in ref])

    def gen():
        for i, (c, fa, q, b, g, pi, po, gi, go, n, w) in enumerate(tr):
            C = max(abs(sum(n[k] * speed(j, c, fa, p, k) for k in range(s.dim))) for j in range(2) for p in range(nq))
            fl = sum(s.fr(n[k]) * (W.fn('f%d' % k, pi) + W.fn('f%d' % k, po)) for k in range(s.dim)) / 2
            fl = fl + (1 - alpha) * s.fr(C) * (pi - po) / 2
            yield c, [fl * s.fr(w * x) for x in b]
    ref = F.gather(gen())
    for c in range(s.n_el):
        W.eqs('residual %d' % c, r[c, 0, :, 0], ref[c])

if __name__ == '__main__':
    main(S)
