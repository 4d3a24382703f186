"""Quadrature rules."""
import itertools
from fractions import Fraction
from math import factorial
from engine.vc import Suite, main
from engine import pyworld, sym
import numpy as np

QD, IT = 'sfepy.discrete.quadratures', 'sfepy.discrete.integrals'
S = Suite('C07', 'quadratures', assumptions=[
    'orders are enumerated up to a limit per geometry (orders are not symbolic)',
    'tabulated decimals are compared with exact integrals up to 4e-14 relative to the element volume'])
S.pre.append(pyworld.preload(QD, IT))
TOL = Fraction(4, 10**14)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

def integral(geometry, e):
    """Exact integral of the monomial x^e over the reference element."""
    d = int(geometry[0])
    if geometry in ('2_3', '3_4', '1_2'):
        num = 1
        for k in e:
            num *= factorial(k)
        return Fraction(num, factorial(sum(e) + d))
    if geometry == '3_6':
        return integral('2_3', e[:2]) * integral('1_2', e[2:])
    r = Fraction(1)
    for k in e:
        r = r / (k + 1)
    return r

VOL = {'0_1': 1, '1_2': 1, '2_3': Fraction(1, 2), '2_4': 1, '3_4': Fraction(1, 6), '3_6': Fraction(1, 2), '3_8': 1}

def small(W, label, d, tol):
    """|d| <= tol for a closed expression d."""
    if not W.symbolic:
        W.true(label, abs(d) <= max(1e-12, float(tol)))
        return
    if d.__class__ is sym.R:
        if sym.iszero(d):
            d = Fraction(0)
        else:
            c = d.const()
            d = Fraction(c) if c is not None else pyworld.closed_value(d)
    W.true('%s: error %.3g' % (label, d), abs(d) <= tol)

def powers(x, n):
    p = [x * 0 + 1]
    for _ in range(n):
        p.append(p[-1] * x)
    return p

def check_rule(W, geometry, qp, degs, loose=1):
    """degs: monomial exponents the rule has to integrate exactly."""
    d = int(geometry[0])
    x, w = qp.coors, qp.weights
    W.true('shapes', x.ndim == 2 and x.shape[1] == d and w.shape == (x.shape[0],))
    degs = list(degs)
    nmax = max([max(e) for e in degs] + [0])
    P = [powers(x[:, i], nmax) for i in range(d)]
    cache = {}
    for e in degs:
        k = e[:-1]
        a = cache.get(k)
        if a is None:
            a = w
            for i, n in enumerate(k):
                a = a * P[i][n]
            cache[k] = a
        s = np.sum(a * P[d - 1][e[-1]])
        small(W, 'integral of x^%s' % (e,), s - (integral(geometry, e) if W.symbolic
              else float(integral(geometry, e))), TOL * VOL[geometry] * loose)

def inside(W, geometry, qp, tol=Fraction(1, 10**13)):
    x = qp.coors
    for a in range(x.shape[0]):
        for i in range(x.shape[1]):
            small_ge(W, 'point %d inside' % a, x[a, i], tol)
            small_ge(W, 'point %d inside' % a, 1 - x[a, i], tol)
        if geometry in ('2_3', '3_4'):
            small_ge(W, 'point %d inside' % a, 1 - sum(x[a]), tol)
        elif geometry == '3_6':
            small_ge(W, 'point %d inside' % a, 1 - x[a, 0] - x[a, 1], tol)

def small_ge(W, label, v, tol):
    if v.__class__ is sym.R:
        v = pyworld.closed_value(v)
    W.true(label, v >= -tol)

def total(d, n):
    return [e for e in itertools.product(range(n + 1), repeat=d) if sum(e) <= n]

def tensor(d, n):
    return list(itertools.product(range(n + 1), repeat=d))

def orders(g, ns, **kw):
    return [dict(geometry=g, order=n, **kw) for n in ns]

# ------------------------------------------------------------ the rules
@contract('from_table/simplex', orders('1_2', range(0, 60)) + orders('2_3', range(0, 27))
          + orders('3_4', range(0, 14)), thorough=orders('2_3', range(27, 34)) + orders('3_4', range(14, 18)))
def from_table_simplex(W, geometry, order):
    Q = W.mod(QD)
    gm = order > Q.max_orders[geometry]
    if gm and not W.symbolic:
        # the weights of the generated rules cancel: rounding is not covered
        W.assume(order - Q.max_orders[geometry] <= 4 and order < 16)
    qp = Q.QuadraturePoints.from_table(geometry, order)
    W.true('order of the rule', qp.order >= order)
    d = int(geometry[0])
    if gm:
        check_rule(W, geometry, qp, total(d, order), 1 if W.symbolic else 1000)
    else:
        check_rule(W, geometry, qp, total(d, qp.order))
    inside(W, geometry, qp)

@contract('from_table/tensor', orders('2_4', range(0, 17)) + orders('3_8', range(0, 10)),
          thorough=orders('2_4', range(13, 30)) + orders('3_8', range(8, 12)), timeout=300)
def from_table_tensor(W, geometry, order):
    """Exact in each variable up to the (1D) order."""
    qp = W.mod(QD).QuadraturePoints.from_table(geometry, order)
    d = int(geometry[0])
    W.true('order of the rule', qp.order >= d * order)
    check_rule(W, geometry, qp, tensor(d, order))
    inside(W, geometry, qp)

@contract('from_table/full_order', orders('2_4', range(0, 10)) + orders('3_8', range(0, 8)), timeout=300)
def from_table_full(W, geometry, order):
    """Exact up to the total degree."""
    qp = W.mod(QD).QuadraturePoints.from_table(geometry, order, full_order=True)
    W.true('order of the rule', qp.order >= order)
    check_rule(W, geometry, qp, total(int(geometry[0]), order))
    inside(W, geometry, qp)

@contract('from_table/wedge', orders('3_6', range(0, 7)))
def from_table_wedge(W, geometry, order):
    """Triangle x line."""
    qp = W.mod(QD).QuadraturePoints.from_table(geometry, order)
    check_rule(W, geometry, qp, total(3, order))
    inside(W, geometry, qp)

@contract('from_table/point')
def from_table_point(W):
    qp = W.mod(QD).QuadraturePoints.from_table('0_1', 1)
    W.eq('weight', sum(qp.weights), 1)

@contract('tables', [dict(geometry=g) for g in ('1_2', '2_3', '2_4', '3_4', '3_6', '3_8')])
def tables(W, geometry):
    """Every tabulated rule: claimed total degree, volume, actual order lookup."""
    Q = W.mod(QD)
    t = Q.quadrature_tables[geometry]
    ks = sorted(t)
    W.eq('max order', Q.max_orders[geometry], ks[-1])
    for o, qp in t.items():
        d = int(geometry[0])
        W.eq('volume %d' % o, qp.volume, VOL[geometry] if W.symbolic else float(VOL[geometry]))
        W.eq('n_point', qp.n_point, qp.coors.shape[0])
        if geometry == '3_6':
            n = o // 3
            degs = [e for e in tensor(3, n) if e[0] + e[1] <= n]
        else:
            degs = total(d, o)
        check_rule(W, geometry, qp, degs)
        inside(W, geometry, qp)
    for o in range(0, ks[-1] + 3):
        up = [k for k in ks if k >= o]
        W.eq('actual order %d' % o, Q.get_actual_order(geometry, o), up[0] if up else ks[-1])

# --------------------------------------------------- user given rules
@contract('QuadraturePoints/bounds', [dict(dim=d, n=n, form=f) for d in (1, 2, 3) for n in (1, 3)
                                      for f in ('data', 'coors')])
def custom_bounds(W, dim, n, form):
    """Affine map of the points from the given bounds, volume scaling of weights."""
    Q = W.mod(QD)
    x, w = W.reals('x', n, dim), W.reals('w', n)
    a, b = W.real('a'), W.real('b')
    W.assume(b - a > W.frac(1, 10))
    tp, wf = W.real('tp', pos=True), W.real('wf', pos=True)
    x0, w0 = x.copy(), w.copy()
    if form == 'data':
        data = W.array([[x[i, j] for j in range(dim)] + [w[i]] for i in range(n)])
        qp = Q.QuadraturePoints(data, bounds=(a, b), tp_fix=tp, weight_fix=wf)
    else:
        qp = Q.QuadraturePoints(None, coors=x, weights=w, bounds=(a, b), tp_fix=tp, weight_fix=wf)
    W.true('shapes', qp.coors.shape == (n, dim) and qp.weights.shape == (n,))
    W.eq('volume', qp.volume, tp)
    for i in range(n):
        s = qp.weights[i]
        for j in range(dim):
            W.eq('x[%d,%d]' % (i, j), qp.coors[i, j] * (b - a), x0[i, j] - a)
            s = s * (b - a)
        W.eq('w[%d]' % i, s, w0[i] * wf)
    W.eqs('coors kept', x, x0)
    W.eqs('weights kept', w, w0)

@contract('QuadraturePoints/symmetric', [dict(n=n, zero=z, form=f) for n in (1, 2, 3) for z in (0, 1)
                                         for f in ('data', 'coors')])
def custom_symmetric(W, n, zero, form):
    """The rule is completed by the mirrored points; a centre point is not doubled."""
    Q = W.mod(QD)
    x, w = W.reals('x', n, pos=True), W.reals('w', n)
    if zero:
        x[0] = x[0] * 0
    x0, w0 = x.copy(), w.copy()
    if form == 'data':
        qp = Q.QuadraturePoints(W.array([[x[i], w[i]] for i in range(n)]), bounds=(-1, 1), symmetric=True)
    else:
        qp = Q.QuadraturePoints(None, coors=x[:, None], weights=w, bounds=(-1, 1), symmetric=True)
    m = 2 * n - zero
    W.true('count', qp.coors.shape == (m, 1) and qp.weights.shape == (m,))
    exp = [(-x0[i], w0[i]) for i in reversed(range(zero, n))] + [(x0[i], w0[i]) for i in range(n)]
    for i, (xx, ww) in enumerate(exp):
        W.eq('x[%d]' % i, 2 * qp.coors[i, 0], xx + 1)
        W.eq('w[%d]' % i, 2 * qp.weights[i], ww)
    W.true('2D refused', W.raises(ValueError, Q.QuadraturePoints, W.array([[0, 0, 1]]), symmetric=True))

@contract('Integral', [dict(geometry=g) for g in ('1_2', '2_3', '2_4', '3_4', '3_8')])
def integral_class(W, geometry):
    """get_qp and integrate use the rule of the requested order and geometry."""
    Q, I = W.mod(QD), W.mod(IT)
    d = int(geometry[0])
    for order in (1, 2, 3):
        for full in (False, True):
            obj = I.Integral('i', order=order, full_order=full)
            ref = Q.QuadraturePoints.from_table(geometry, order, full_order=full)
            for rep in range(2):
                x, w = obj.get_qp(geometry)
                W.eqs('x', x, ref.coors)
                W.eqs('w', w, ref.weights)
            c = W.reals('c%d%d' % (order, full), d + 1)
            f = lambda y: c[0] + sum(c[i + 1] * y[:, i] ** order for i in range(d))
            s = c[0] * (VOL[geometry] if W.symbolic else float(VOL[geometry]))
            for i in range(d):
                e = [0] * d
                e[i] = order
                v = integral(geometry, tuple(e))
                s = s + c[i + 1] * (v if W.symbolic else float(v))
            val = obj.integrate(f, order=order, geometry=geometry)
            if W.symbolic:
                # linear in c: compare the coefficients
                for i in range(d + 1):
                    small(W, 'integrate, coefficient %d' % i, sym.diff(val - s, c[i]), TOL)
            else:
                W.eq('integrate', val, s)
    obj = I.Integral('i', order=2)
    for g in ('1_2', '2_3', '3_8', '2_3'):
        x, w = obj.get_qp(g)
        W.eqs('several geometries', x, Q.QuadraturePoints.from_table(g, 2).coors)

@contract('Integral/custom')
def integral_custom(W):
    I = W.mod(IT)
    x, w = W.reals('x', 2, 2), W.reals('w', 2)
    obj = I.Integral('i', order='custom', coors=x, weights=w, bounds=(0, 2), tp_fix=1, weight_fix=2)
    X, V = obj.get_qp('2_4')
    for i in range(2):
        W.eq('w', 2 * V[i], w[i])
        for j in range(2):
            W.eq('x', 2 * X[i, j], x[i, j])

@contract('Integrals.get')
def integrals_get(W):
    I = W.mod(IT)
    a = I.Integral('i1', order=3)
    its = I.Integrals([a]) if False else I.Integrals()
    its.append(a)
    W.true('by name', its.get('i1') is a)
    b = its.get(2)
    W.eq('order', b.order, 2)
    W.true('cached', its.get('2') is b and its.get(2) is b)
    W.true('unknown', W.raises(ValueError, its.get, 'i7'))
    W.true('bad', W.raises(ValueError, its.get, 'x'))
    W.true('auto', W.raises(NotImplementedError, its.get, 'a'))

if __name__ == '__main__':
    main(S)
