"""
Symbolic execution of the real Python modules of sfepy.

The current source of every ``sfepy.*`` module a contract needs is parsed and
executed with exact numbers in place of floats:

- float literals become exact fractions (their decimal value), ``/`` is exact
  division, ``**`` with fractional exponents builds root atoms, ``%`` with a
  string on the left never evaluates symbolic values;
- ``numpy`` is a thin stand-in: float arrays are object arrays of exact
  scalars (engine.sym.R or Fraction), everything that is not float arithmetic
  is numpy itself;
- compiled extension modules are replaced by stubs that raise EngineError when
  called, unless a contract registers the callee's contract (W.stub).

Branches on symbolic conditions fork the path (engine.sym.explore).
"""
import ast, builtins, importlib, os, random, sys, types, math, numbers
from fractions import Fraction
import numpy as np

from . import sym
from .sym import (R, SymBool, EngineError, Undefined, Infeasible, lift, const,
                  to_coef, fun, rsqrt)
from .worlds import SymBase, ConBase

REPO = os.environ.get('VERIF_REPO', '/repo')

# ------------------------------------------------------------ scalars
class Uninit:
    """Element of an uninitialised array; any use is an error."""
    __slots__ = ()

    def _bad(self, *a, **k):
        raise Undefined('an uninitialised array element is used')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __int__ = _bad
    __index__ = sqrt = sin = cos = exp = log = _bad

    def __repr__(self):
        return 'UNINIT'

UNINIT = Uninit()

def is_exact(x):
    return x.__class__ in (R, Fraction)

def isnum(x):
    return isinstance(x, (R, Fraction, builtins.int, builtins.float, np.generic)) \
        and not isinstance(x, (np.str_,))

def ex(x):
    """Exact scalar (Fraction or R) of any real number."""
    c = x.__class__
    if c is R:
        k = x.const()
        return x if k is None else Fraction(k)
    if c is Fraction:
        return x
    if c is Uninit:
        return x
    if c is builtins.int or c is builtins.bool:
        return Fraction(x)
    if isinstance(x, builtins.float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Fraction(repr(builtins.float(x)))
    if isinstance(x, np.integer):
        return Fraction(builtins.int(x))
    if isinstance(x, np.bool_):
        return Fraction(builtins.int(x))
    if isinstance(x, builtins.complex) or isinstance(x, np.complexfloating):
        if x.imag == 0:
            return ex(x.real)
        raise EngineError('complex number')
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return ex(x.item())
    if x.__class__ is SymBool:
        return Fraction(builtins.int(builtins.bool(x)))
    if c.__module__.startswith('sympy.') and sym.to_coef(x) is not None:
        return Fraction(sym.to_coef(x))
    return x

def _is_int(x):
    if x.__class__ in (builtins.int, builtins.bool) or isinstance(x, np.integer):
        return True
    if x.__class__ is Fraction:
        return x.denominator == 1
    if x.__class__ is R:
        return all(sym.ATOMS[a].is_int for a in x.atoms()) and \
            all(c.__class__ is builtins.int or c.denominator == 1 for c in x.t.values()) \
            and all(e > 0 for m in x.t for a, e in m)
    return False

def closed_value(x):
    """Numeric value of an expression without free variables, or None."""
    def no(at, idx):
        raise EngineError('free')
    try:
        return builtins.float(sym.NumEnv(no)(x))
    except EngineError:
        return None

_u_ex = np.frompyfunc(ex, 1, 1)

def exarr(a):
    """Array of exact scalars."""
    a = np.asarray(a)
    if a.dtype.kind in 'biufO':
        r = _u_ex(a)
        if not isinstance(r, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = r
            return b
        return r
    if a.dtype.kind == 'c':
        return exarr_c(a)
    return a

def exarr_c(a):
    if np.any(a.imag):
        raise EngineError('complex array')
    return exarr(a.real)

def _inf(x):
    return isinstance(x, builtins.float) and x in (math.inf, -math.inf)

def _div1(a, b):
    if a.__class__ is Uninit or b.__class__ is Uninit:
        UNINIT._bad()
    if a.__class__ is R or b.__class__ is R:
        if _inf(b):
            return Fraction(0)
        return a / b if a.__class__ is R else lift(a) / b
    if isnum(a) and isnum(b):
        if _inf(a) or _inf(b):
            return builtins.float(a) / builtins.float(b)
        b = ex(b)
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return ex(a) / b
    return a / b

_u_div = np.frompyfunc(_div1, 2, 1)

def _arr(x):
    return isinstance(x, np.ndarray)

def hook_div(a, b):
    if _arr(a) or _arr(b):
        if _arr(a) and a.dtype.kind == 'c' or _arr(b) and b.dtype.kind == 'c':
            return a / b
        return _u_div(a, b)
    if isnum(a) and isnum(b):
        return _div1(a, b)
    if isinstance(a, (list, tuple)) and isnum(b):
        return a / b
    return a / b

def hook_idiv(a, b):
    if _arr(a):
        if a.dtype.kind in 'iu':
            raise TypeError('in-place true division of an integer array')
        a[...] = _u_div(a, b)
        return a
    return hook_div(a, b)

def _pow1(a, b):
    if a.__class__ is R or b.__class__ is R:
        if b.__class__ is Fraction and b.denominator == 1:
            b = b.numerator
        return lift(a) ** b
    if isinstance(b, np.generic):
        b = b.item()
    if b.__class__ is Fraction and b.denominator == 1:
        b = b.numerator
    if isinstance(a, np.generic):
        a = a.item()
    if a.__class__ in (builtins.int, Fraction) and b.__class__ is Fraction:
        return ex(sym.rpow(lift(a), b))
    if a.__class__ is builtins.int and b.__class__ is builtins.int and b < 0:
        return Fraction(a) ** b
    if a.__class__ is Uninit:
        UNINIT._bad()
    return a ** b

_u_pow = np.frompyfunc(_pow1, 2, 1)

def hook_pow(a, b):
    if _arr(a) or _arr(b):
        if _arr(a) and a.dtype.kind in 'iu' and not _arr(b) and \
                isinstance(b, builtins.int) and b >= 0:
            return a ** b
        return _u_pow(a, b)
    if isnum(a) and isnum(b):
        return _pow1(a, b)
    return a ** b

class _Q:
    """Stands for a value inside a formatted message."""
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return 0.0

    def __int__(self):
        return 0

    __index__ = __int__

    def __str__(self):
        return str(self.x)

    __repr__ = __str__

def _q(x):
    if x.__class__ is R:
        k = x.const()
        return builtins.float(k) if k is not None else _Q(x)
    if x.__class__ is Fraction:
        return builtins.float(x)
    return x

class _QF(builtins.float):
    pass

def hook_mod(a, b):
    if isinstance(a, str):
        try:
            if isinstance(b, tuple):
                return a % tuple(_q(x) for x in b)
            if isinstance(b, dict):
                return a % {k: _q(v) for k, v in b.items()}
            return a % _q(b)
        except (TypeError, EngineError):
            return a + repr(b)
    if a.__class__ is R or b.__class__ is R:
        return _fmod(a, b)
    return a % b

def _fmod(a, b):
    a, b = lift(a), lift(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return Fraction(ca) % Fraction(cb)
    raise EngineError('symbolic modulo')

def hook_floordiv(a, b):
    if (a.__class__ is Fraction or b.__class__ is Fraction) and isnum(a) and isnum(b):
        return Fraction(ex(a) // ex(b))
    return a // b

def hook_fc(s):
    return Fraction(s)

def _dt(dtype):
    """Is this dtype a float dtype? -> 'f', 'c', 'i', None"""
    if dtype is None:
        return None
    if dtype is FloatType:
        return 'f'
    if dtype is ComplexType:
        return 'c'
    if dtype is IntType:
        return 'i'
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return None
    return {'f': 'f', 'c': 'c', 'O': 'o', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k)

def _rdt(dtype):
    """A dtype numpy understands."""
    if dtype is IntType:
        return builtins.int
    return dtype

def _toint(x):
    x = ex(x)
    if x.__class__ is Fraction:
        return builtins.int(x)
    if x.__class__ is R:
        if _is_int(x):
            return x
        v = closed_value(x)
        if v is not None and abs(v - builtins.round(v)) > 1e-6:
            return builtins.int(v)
        raise EngineError('conversion of a symbolic real to an integer')
    return builtins.int(x)

def hook_astype(a, *args, **kw):
    if not _arr(a):
        if isinstance(a, np.generic):
            a = np.asarray(a)
        else:
            return a.astype(*args, **kw)
    dtype = args[0] if args else kw.get('dtype')
    k = _dt(dtype)
    if k in ('f', 'c'):
        return exarr(a).copy() if a.dtype.kind in 'biufO' else a.astype(np.float64)
    if a.dtype.kind == 'O':
        if k == 'o':
            return a.copy()
        if k == 'i':
            r = np.frompyfunc(_toint, 1, 1)(a)
            try:
                return np.asarray(r).astype(_rdt(dtype))
            except EngineError:
                return r
        return np.asarray(a).astype(_rdt(dtype))
    return a.astype(_rdt(dtype))

def hook_mean(a, *args, **kw):
    if _arr(a):
        return np_mean(a, *args, **kw)
    return a.mean(*args, **kw)

def hook_join(x):
    return x

# float() and friends ------------------------------------------------------
class _MetaFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Fraction, R, np.floating))

    def __subclasscheck__(cls, c):
        return c is FloatType or issubclass(c, (builtins.float, np.floating))

    def __hash__(cls):
        return hash(np.float64)

    def __eq__(cls, o):
        if cls is o:
            return True
        if isinstance(o, np.dtype):
            return o.kind in 'fO'
        return o in (np.float64, builtins.float)

class FloatType(metaclass=_MetaFloat):
    def __new__(cls, x=0):
        if isinstance(x, str):
            x = x.strip()
            try:
                return Fraction(x)
            except ValueError:
                return builtins.float(x)
        if _arr(x) and x.size == 1:
            x = x.ravel()[0]
        if x.__class__ is Uninit:
            UNINIT._bad()
        return ex(x)
    fromhex = builtins.float.fromhex
    __name__ = 'float64'

class _MetaComplex(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.complex, np.complexfloating))

    def __hash__(cls):
        return hash(np.complex128)

    def __eq__(cls, o):
        return cls is o or o in (np.complex128, builtins.complex)

class ComplexType(metaclass=_MetaComplex):
    def __new__(cls, *a):
        if len(a) == 1 and (isnum(a[0])):
            return ex(a[0])
        return builtins.complex(*a)

class _MetaInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (x.__class__ is R and _is_int(x))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __hash__(cls):
        return hash(builtins.int)

    def __eq__(cls, o):
        return cls is o or o is builtins.int

class IntType(metaclass=_MetaInt):
    def __new__(cls, x=0, *a):
        if a:
            return builtins.int(x, *a)
        if x.__class__ is R or x.__class__ is Fraction:
            return _toint(x)
        return builtins.int(x)

class _MetaC(type):
    pass

# ------------------------------------------------------------ numpy stand-in
def _elem(name, f):
    u = np.frompyfunc(f, 1, 1)

    def g(x, out=None, **kw):
        if isinstance(x, (list, tuple)):
            x = np.asarray(x)
        if kw.get('where', True) is not True:
            raise EngineError('ufunc where=')
        if _arr(x) and x.dtype.kind not in 'biufO':
            return getattr(np, name)(x)
        r = u(x)
        if _arr(x) and x.ndim == 0:
            pass
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    return g

def _sc(name):
    def f(x):
        if x.__class__ is Uninit:
            UNINIT._bad()
        if isinstance(x, builtins.float) and (x != x or _inf(x)):
            return builtins.float(getattr(np, name)(x))
        return ex(fun(name, lift(x)))
    return f

def _sqrt1(x):
    if x.__class__ is Uninit:
        UNINIT._bad()
    if _inf(x):
        return x
    return ex(rsqrt(lift(x)))

def _arctan2(y, x):
    y, x = lift(y), lift(x)
    cy, cx = y.const(), x.const()
    if cy == 0 and cx is not None and cx > 0:
        return Fraction(0)
    return fun('arctan2', y, x)

def _sign1(x):
    if x > 0:
        return Fraction(1)
    if x < 0:
        return Fraction(-1)
    return Fraction(0)

def _fl(x):
    x = ex(x)
    if x.__class__ is Fraction:
        return Fraction(math.floor(x))
    if _is_int(x):
        return x
    return x.floor()

def _ce(x):
    x = ex(x)
    if x.__class__ is Fraction:
        return Fraction(math.ceil(x))
    if _is_int(x):
        return x
    return x.ceil()

def _maxi(a, b):
    return a if a >= b else b

def _mini(a, b):
    return a if a <= b else b

_u_max = np.frompyfunc(_maxi, 2, 1)
_u_min = np.frompyfunc(_mini, 2, 1)

def np_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = exarr(a)
    s = np.sum(a, axis=axis, keepdims=keepdims)
    n = a.size if axis is None else np.prod([a.shape[i] for i in np.atleast_1d(axis)])
    return hook_div(s, builtins.int(n))

def det(m):
    n = m.shape[0]
    if n == 0:
        return Fraction(1)
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = Fraction(0)
    for j in range(n):
        c = m[0, j]
        if c.__class__ is Fraction and c == 0:
            continue
        if c.__class__ is R and not c.t:
            continue
        mm = np.delete(np.delete(m, 0, 0), j, 1)
        t = c * det(mm)
        r = r + t if j % 2 == 0 else r - t
    return r

def _nz(x):
    if x.__class__ is R:
        return not sym.iszero(x)
    return x != 0

def inv(m):
    n = m.shape[0]
    if n <= 4:
        d = det(m)
        if not _nz(d):
            raise np.linalg.LinAlgError('Singular matrix')
        out = np.empty((n, n), dtype=object)
        di = _div1(Fraction(1), d)
        for i in range(n):
            for j in range(n):
                mm = np.delete(np.delete(m, j, 0), i, 1)
                c = det(mm)
                out[i, j] = c * di if (i + j) % 2 == 0 else -(c * di)
        return out
    # blocks found by structure, else Gauss elimination
    comps = _components(m)
    if len(comps) > 1:
        out = exarr(np.zeros((n, n)))
        for c in comps:
            out[np.ix_(c, c)] = inv(m[np.ix_(c, c)])
        return out
    return _gauss(m, exarr(np.eye(n)))

def _components(m):
    n = m.shape[0]
    lab = list(range(n))
    def find(i):
        while lab[i] != i:
            i = lab[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and _nz(m[i, j]):
                lab[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())

def _gauss(a, b):
    a, b = a.copy(), b.copy()
    n = a.shape[0]
    for i in range(n):
        p = None
        for k in range(i, n):
            if _nz(a[k, i]):
                if p is None or (a[k, i].__class__ is Fraction and a[p, i].__class__ is R):
                    p = k
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != i:
            a[[i, p]] = a[[p, i]]
            b[[i, p]] = b[[p, i]]
        d = _div1(Fraction(1), a[i, i])
        a[i] = a[i] * d
        b[i] = b[i] * d
        for k in range(n):
            if k != i and _nz(a[k, i]):
                f = a[k, i]
                a[k] = a[k] - f * a[i]
                b[k] = b[k] - f * b[i]
    return b

def _stacked(f, nout):
    def g(a):
        a = exarr(a)
        if a.ndim == 2:
            return f(a)
        sh = a.shape[:-2]
        out = np.empty(sh + (a.shape[-2:] if nout == 2 else ()), dtype=object)
        for ix in np.ndindex(*sh):
            out[ix] = f(a[ix])
        return out
    return g

class Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        self.det = _stacked(det, 0)
        self.inv = _stacked(inv, 2)

    def solve(self, a, b):
        a, b = exarr(a), exarr(b)
        if a.ndim > 2:
            i = self.inv(a)
            return np.matmul(i, b) if b.ndim == a.ndim else np.matmul(i, b[..., None])[..., 0]
        one = b.ndim == 1
        r = np.dot(inv(a), b[:, None] if one else b)
        return r[:, 0] if one else r

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = exarr(x)
        if ord in (None, 2, 'fro') and (axis is None or isinstance(axis, builtins.int)):
            if ord == 2 and axis is None and x.ndim != 1:
                raise EngineError('matrix 2-norm')
            s = np.sum(x * x, axis=axis, keepdims=keepdims)
            return NP.sqrt(s)
        if ord == np.inf and (x.ndim == 1 or axis is not None):
            return np.max(np.abs(x), axis=axis)
        if ord == 1 and (x.ndim == 1 or axis is not None):
            return np.sum(np.abs(x), axis=axis)
        raise EngineError('norm ord=%r' % (ord,))

    def matrix_rank(self, *a, **k):
        raise EngineError('linalg.matrix_rank')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        def bad(*a, **kw):
            if all(_arr(x) and x.dtype.kind in 'fiu' for x in a):
                return getattr(np.linalg, k)(*a, **kw)
            raise EngineError('linalg.%s' % k)
        return bad

class NumpyProxy(types.ModuleType):
    """Everything not overridden is numpy."""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.linalg = Linalg()
        self.float64 = self.float32 = self.double = self.floating = FloatType
        self.complex128 = ComplexType
        self.pi = PI
        self.ufunc_names = ()
        for k in ('sin', 'cos', 'exp', 'log', 'arccos', 'arctan', 'arcsin', 'sinh', 'cosh', 'tanh'):
            setattr(self, k, _elem(k, _sc(k)))
        self.tan = _elem('tan', lambda x: ex(lift(x).tan()))
        self.sqrt = _elem('sqrt', _sqrt1)
        _sgn = _elem('sign', _sign1)
        self.sign = lambda x, *a, **k: (np.sign(x, *a, **k) if _arr(x) and x.dtype.kind in 'iu' else _sgn(x, *a, **k))
        self.floor = _elem('floor', _fl)
        self.ceil = _elem('ceil', _ce)
        self.fabs = _elem('fabs', abs)
        self.isnan = _elem_b(lambda x: isinstance(x, builtins.float) and x != x)
        self.isinf = _elem_b(_inf)
        self.isfinite = _elem_b(lambda x: not (isinstance(x, builtins.float)
                                               and (x != x or _inf(x))))
        self.arctan2 = np.frompyfunc(_arctan2, 2, 1)
        self.true_divide = self.divide = hook_div
        self.power = hook_pow
        self.mean = np_mean
        self.sum = lambda *a, **k: np_sum(*a, **k)
        self.average = self._average

    def __getattr__(self, k):
        v = getattr(np, k)
        return v

    # creation
    def _mk(self, shape, dtype, fill):
        k = _dt(dtype) if dtype is not None else 'f'
        if dtype is None or k in ('f', 'c', 'o'):
            a = np.empty(shape, dtype=object)
            a[...] = fill
            return a
        return None

    def zeros(self, shape, dtype=None, order=None, **kw):
        a = self._mk(shape, dtype, Fraction(0))
        return a if a is not None else np.zeros(shape, _rdt(dtype))

    def ones(self, shape, dtype=None, order=None, **kw):
        a = self._mk(shape, dtype, Fraction(1))
        return a if a is not None else np.ones(shape, _rdt(dtype))

    def empty(self, shape, dtype=None, order=None, **kw):
        a = self._mk(shape, dtype, UNINIT)
        return a if a is not None else np.empty(shape, _rdt(dtype))

    def full(self, shape, fill_value, dtype=None, order=None):
        if dtype is None and not isinstance(fill_value, (builtins.float, R, Fraction)):
            return np.full(shape, fill_value)
        a = self._mk(shape, dtype, Fraction(0))
        if a is None:
            return np.full(shape, fill_value, _rdt(dtype))
        a[...] = exarr(fill_value) if _arr(fill_value) else ex(fill_value)
        return a

    def _like(self, a, dtype, fill, f):
        a = np.asarray(a)
        d = dtype if dtype is not None else a.dtype
        r = self._mk(a.shape, d, fill)
        return r if r is not None else f(a, dtype=_rdt(d))

    def zeros_like(self, a, dtype=None, **kw):
        return self._like(a, dtype, Fraction(0), np.zeros_like)

    def ones_like(self, a, dtype=None, **kw):
        return self._like(a, dtype, Fraction(1), np.ones_like)

    def empty_like(self, a, dtype=None, **kw):
        return self._like(a, dtype, UNINIT, np.empty_like)

    def full_like(self, a, fill, dtype=None, **kw):
        return self._like(a, dtype, ex(fill), lambda a, dtype: np.full_like(a, fill, dtype=dtype))

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        a = np.eye(n, m, k)
        if dtype is None or _dt(dtype) in ('f', 'c', 'o'):
            return exarr(a)
        return a.astype(_rdt(dtype))

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def array(self, x, dtype=None, copy=True, ndmin=0, order=None, **kw):
        k = _dt(dtype)
        if k in ('i', 'b') or (k is None and dtype is not None):
            if k == 'i':
                a = np.array(x, ndmin=ndmin)
                if a.dtype.kind == 'O':
                    return hook_astype(a, dtype)
            return np.array(x, dtype=_rdt(dtype), ndmin=ndmin)
        a = np.array(x, ndmin=ndmin) if ndmin else np.array(x)
        if k in ('f', 'c') or a.dtype.kind in 'fO' or (k == 'o'):
            if a.dtype.kind in 'biufcO':
                a = exarr(a)
                return a
        return a

    def asarray(self, x, dtype=None, order=None, **kw):
        k = _dt(dtype)
        if _arr(x) and (dtype is None or (k in ('f', 'c', 'o') and x.dtype.kind == 'O')):
            return x
        return self.array(x, dtype=dtype)

    def ascontiguousarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        return np.ascontiguousarray(r)

    def asfortranarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        return np.asfortranarray(r) if isinstance(r, np.ndarray) else r

    def asanyarray(self, x, dtype=None, **kw):
        return self.asarray(x, dtype)

    def require(self, x, dtype=None, requirements=None):
        return self.asarray(x, dtype)

    def atleast_1d(self, *xs):
        r = np.atleast_1d(*xs)
        return r

    def arange(self, *a, dtype=None):
        a = [ex(x) if is_exact(x) else x for x in a]
        if any(x.__class__ is R for x in a):
            raise EngineError('arange with symbolic arguments')
        if any(x.__class__ is Fraction for x in a):
            start, stop, step = (0, a[0], 1) if len(a) == 1 else \
                (a[0], a[1], a[2] if len(a) > 2 else 1)
            start, stop, step = ex(start), ex(stop), ex(step)
            n = max(0, math.ceil((stop - start) / step))
            r = np.empty(n, dtype=object)
            for i in range(n):
                r[i] = start + i * step
            if dtype is not None and _dt(dtype) == 'i':
                return hook_astype(r, dtype)
            return r
        r = np.arange(*a)
        if dtype is None:
            return exarr(r) if r.dtype.kind == 'f' else r
        if _dt(dtype) in ('f', 'c'):
            return exarr(r)
        return r.astype(_rdt(dtype))

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        num = builtins.int(num)
        d = (num - 1) if endpoint else num
        if _arr(a) or _arr(b):
            a, b = exarr(a), exarr(b)
        else:
            a, b = ex(a), ex(b)
        step = hook_div(b - a, d) if d > 0 else None
        sh = np.shape(a + (b - a))
        r = np.empty((num,) + sh, dtype=object)
        for i in range(num):
            r[i] = a + step * i if i else a + 0 * b
        if num > 1 and endpoint:
            r[-1] = b
        return (r, step) if retstep else r

    def isscalar(self, x):
        return is_exact(x) or np.isscalar(x)

    def isrealobj(self, x):
        return True

    def iscomplexobj(self, x):
        return np.iscomplexobj(x)

    def where(self, c, *a):
        if _arr(c) and c.dtype.kind == 'O':
            c = c.astype(bool)
        elif c.__class__ is SymBool:
            c = builtins.bool(c)
        return np.where(c, *a)

    def logaddexp(self, a, b):
        return self.log(self.exp(a) + self.exp(b))

    def maximum(self, a, b, out=None):
        if np.asarray(a).dtype.kind in 'iub' and np.asarray(b).dtype.kind in 'iub':
            return np.maximum(a, b)
        return _u_max(a, b)

    def minimum(self, a, b, out=None):
        if np.asarray(a).dtype.kind in 'iub' and np.asarray(b).dtype.kind in 'iub':
            return np.minimum(a, b)
        return _u_min(a, b)

    def clip(self, a, lo, hi, out=None):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r

    def isclose(self, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        return np.frompyfunc(lambda x, y: builtins.bool(abs(x - y) <= ex(atol) + ex(rtol) * abs(y)),
                             2, 1)(exarr(a), exarr(b)).astype(bool)

    def allclose(self, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        a, b = np.broadcast_arrays(exarr(a), exarr(b))
        for x, y in zip(a.ravel(), b.ravel()):
            if x is y:
                continue
            d = lift(x) - lift(y)
            if sym.iszero(d):
                continue
            if not abs(d) <= ex(atol) + ex(rtol) * abs(y):
                return False
        return True

    def array_equal(self, a, b, **kw):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(builtins.bool(x == y) for x, y in zip(a.ravel(), b.ravel()))

    def dot(self, a, b, out=None):
        r = np.dot(_o(a), _o(b))
        if out is not None:
            out[...] = r
            return out
        return r

    def einsum(self, spec, *ops, **kw):
        kw.pop('optimize', None)
        out = kw.pop('out', None)
        ops = [np.asarray(o) for o in ops]
        if any(o.dtype.kind == 'O' for o in ops):
            ops = [o if o.dtype.kind == 'O' else exarr(o) for o in ops]
        r = np.einsum(spec, *ops, optimize='greedy' if len(ops) > 2 else False)
        if out is not None:
            out[...] = r
            return out
        return r

    def finfo(self, t=None):
        return np.finfo(np.float64)

    def iinfo(self, t):
        return np.iinfo(_rdt(t))

    def dtype(self, t, *a, **k):
        if t is FloatType or t is ComplexType:
            return np.dtype(object)
        return np.dtype(_rdt(t), *a, **k)

    def issubdtype(self, a, b):
        ka, kb = _dt(a), _dt(b)
        if kb == 'f':
            return ka in ('f', 'o')
        if kb == 'c':
            return ka == 'c'
        return np.issubdtype(_rdt(a), _rdt(b))

    def trapezoid(self, y, x=None, dx=1, axis=-1):
        y = exarr(y)
        if y.ndim != 1:
            raise EngineError('trapezoid')
        r = Fraction(0)
        for i in range(len(y) - 1):
            h = dx if x is None else x[i + 1] - x[i]
            r = r + h * (y[i] + y[i + 1]) * Fraction(1, 2)
        return r
    trapz = trapezoid

    def std(self, *a, **k):
        raise EngineError('std')
    var = std
    interp = std

    def _average(self, a, axis=None, weights=None):
        if weights is not None:
            raise EngineError('average with weights')
        return np_mean(a, axis)

def _o(a):
    return a

def _elem_b(f):
    def g(x, **kw):
        a = np.asarray(x)
        if a.dtype.kind in 'biu':
            return np.full(a.shape, f(0))[()] if a.ndim else f(0)
        if a.dtype.kind == 'f':
            return np.frompyfunc(f, 1, 1)(a).astype(bool) if a.ndim else f(a.item())
        if a.ndim == 0:
            return f(a.item())
        return np.frompyfunc(f, 1, 1)(a).astype(bool)
    return g

PI = sym.var('pi')
NP = NumpyProxy()

class _Reducible:
    """A binary ufunc with reduce()."""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, a, axis=0):
        a = np.moveaxis(np.asarray(a), axis, 0)
        r = a[0]
        for v in a[1:]:
            r = self.f(r, v)
        return r

NP.__dict__['minimum'] = _Reducible(NP.minimum)
NP.__dict__['maximum'] = _Reducible(NP.maximum)

class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        self.pi = PI
        for k in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'fabs'):
            setattr(self, k, getattr(NP, k))

    def __getattr__(self, k):
        return getattr(math, k)

MATH = MathProxy()

# ------------------------------------------------------------ sympy stand-in
class SX:
    """Expression tree with the few sympy operations the sources use."""

    def __init__(self, op, *a):
        self.op, self.a = op, a
        if op == 'sym':
            self.name = a[0]

    def n(self, subs=None):
        return self._ev({k.name: v for k, v in (subs or {}).items()})
    evalf = n

    def _ev(self, env):
        if self.op == 'sym':
            return env[self.name]
        if self.op == 'c':
            return self.a[0]
        x = [y._ev(env) for y in self.a]
        if self.op == '+':
            return x[0] + x[1]
        if self.op == '-':
            return x[0] - x[1]
        if self.op == '*':
            return x[0] * x[1]
        if self.op == '/':
            return hook_div(x[0], x[1])
        if self.op == '**':
            return hook_pow(x[0], x[1])

    def __hash__(self):
        return hash((self.op,) + tuple(x if not isinstance(x, SX) else hash(x) for x in self.a))

    def __eq__(self, o):
        return isinstance(o, SX) and self.op == o.op and self.a == o.a

def _sx(x):
    return x if isinstance(x, SX) else SX('c', ex(x))

for _n, _op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('pow', '**')):
    setattr(SX, '__%s__' % _n, lambda s, o, op=_op: SX(op, s, _sx(o)))
    setattr(SX, '__r%s__' % _n, lambda s, o, op=_op: SX(op, _sx(o), s))
SX.__neg__ = lambda s: SX('*', SX('c', Fraction(-1)), s)

class SympyProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'sympy')

    def symbols(self, names, **kw):
        if isinstance(names, str):
            names = names.replace(',', ' ').split()
        r = [SX('sym', n) for n in names]
        return r if len(r) > 1 else r[0]

    def sqrt(self, x):
        return SX('**', _sx(x), SX('c', Fraction(1, 2)))

    def lambdify(self, vs, expr):
        names = [v.name for v in vs]
        ex_ = _sx(expr)

        def f(*a):
            return ex_._ev(dict(zip(names, a)))
        return f

    REAL = ('Matrix', 'Symbol', 'Float', 'Integer', 'Rational', 'Number', 'Poly', 'Eq', 'S', 'solve', 'linsolve',
            'linear_eq_to_matrix', 'zeros', 'eye')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in self.REAL:
            # computer algebra with numbers: the real library, numbers as its floats
            import sympy
            o = getattr(sympy, k)
            if k in ('Matrix', 'solve', 'linsolve'):
                return lambda *a, **kw: o(*[_to_sympy(x) for x in a], **kw)
            return o
        raise EngineError('sympy.%s' % k)

def _to_sympy(x):
    import sympy
    if isinstance(x, np.ndarray):
        return [_to_sympy(v) for v in x]
    if isinstance(x, (list, tuple)):
        return type(x)(_to_sympy(v) for v in x)
    if x.__class__ is R:
        if not x.is_const():
            raise EngineError('sympy with a symbolic value')
        return sympy.Float(float(x.const()))
    if isinstance(x, Fraction):
        return sympy.Float(float(x))
    return x

# ------------------------------------------------------------ source transform
class Tr(ast.NodeTransformer):
    METHODS = {'astype': '__h_astype__', 'mean': '__h_mean__'}

    def visit_Constant(self, n):
        if n.value.__class__ is float:
            return ast.copy_location(ast.Call(
                ast.Name('__h_fc__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_match_case(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        h = {ast.Div: '__h_div__', ast.Pow: '__h_pow__', ast.Mod: '__h_mod__',
             ast.FloorDiv: '__h_floordiv__'}.get(n.op.__class__)
        if h is None:
            return n
        return ast.copy_location(ast.Call(ast.Name(h, ast.Load()), [n.left, n.right], []), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if n.op.__class__ not in (ast.Div, ast.Pow):
            return n
        h = '__h_idiv__' if n.op.__class__ is ast.Div else '__h_pow__'
        t = n.target
        if isinstance(t, ast.Name):
            ld = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            ld = ast.Attribute(t.value, t.attr, ast.Load())
        elif isinstance(t, ast.Subscript):
            import copy
            ld = copy.deepcopy(t)
            ld.ctx = ast.Load()
        else:
            import copy
            ld = copy.deepcopy(t)
            ld.ctx = ast.Load()
        return ast.copy_location(ast.Assign([t], ast.Call(
            ast.Name(h, ast.Load()), [ld, n.value], [])), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or n.ops[0].__class__ not in (ast.Eq, ast.NotEq):
            return n
        h = '__h_eq__' if n.ops[0].__class__ is ast.Eq else '__h_ne__'
        return ast.copy_location(ast.Call(ast.Name(h, ast.Load()), [n.left, n.comparators[0]], []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in self.METHODS \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            return ast.copy_location(ast.Call(
                ast.Name(self.METHODS[n.func.attr], ast.Load()),
                [n.func.value] + n.args, n.keywords), n)
        return n

def _dt_side(a, b):
    if a.__class__ in _DTS:
        if isinstance(b, _MetaFloat):
            return True, a.kind in 'fO'
        if isinstance(b, _MetaComplex):
            return True, a.kind == 'c'
        if isinstance(b, _MetaInt):
            return True, a.kind == 'i'
    return False, None

_DTS = tuple({type(np.dtype(x)) for x in 'dDilOfFhbB?'})

def np_sum(a, *args, **kw):
    r = np.sum(a, *args, **kw)
    return lift(r) if r.__class__ is Fraction else r

def hook_eq(a, b):
    if a.__class__ in _DTS or b.__class__ in _DTS:
        for x, y in ((a, b), (b, a)):
            hit, r = _dt_side(x, y)
            if hit:
                return r
    return a == b

def hook_ne(a, b):
    if a.__class__ in _DTS or b.__class__ in _DTS:
        return not hook_eq(a, b)
    return a != b

HOOKS = {'__h_eq__': hook_eq, '__h_ne__': hook_ne, '__h_fc__': hook_fc, '__h_div__': hook_div, '__h_idiv__': hook_idiv,
         '__h_pow__': hook_pow, '__h_mod__': hook_mod, '__h_floordiv__': hook_floordiv,
         '__h_astype__': hook_astype, '__h_mean__': hook_mean}

# ------------------------------------------------------------ loader
class StubModule(types.ModuleType):
    """A compiled module: anything used from it is out of reach unless stubbed."""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        full = '%s.%s' % (self.__name__, k)

        class Stub:
            def __init__(self, *a, **kw):
                raise EngineError('compiled %s is called' % full)
        Stub.__name__ = k
        return Stub

MODS = {}
CUTS = {}       # (module, qualname) -> {ordinal of the loop: spec name}

def _bi_sum(xs, start=0):
    return builtins.sum(xs, start)

def _max(*a, **k):
    return builtins.max(*a, **k)

def _round(x, n=None):
    x = ex(x) if isnum(x) else x
    return builtins.round(x, n) if n is not None else builtins.round(x)

def _builtins():
    b = dict(builtins.__dict__)
    b.update(HOOKS)
    b['__import__'] = _import
    b['float'] = FloatType
    b['int'] = IntType
    b['complex'] = ComplexType
    b['round'] = _round
    b['print'] = lambda *a, **k: None
    return b

def _find(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.exists(p + '.py'):
        return p + '.py', False
    return None, False

CYTHON = [False]    # translate the .pyx modules instead of leaving them out of reach
REPLACE = {}        # module name -> callable making a module

def load(name):
    m = MODS.get(name)
    if m is not None:
        return m
    parent, _, leaf = name.rpartition('.')
    if parent:
        load(parent)
        if name in MODS:
            return MODS[name]
    if name in REPLACE:
        m = REPLACE[name]()
        MODS[name] = m
        if parent:
            setattr(MODS[parent], leaf, m)
        return m
    path, ispkg = _find(name)
    if path is None:
        d = os.path.join(REPO, *name.split('.')[:-1])
        if CYTHON[0] and os.path.exists(os.path.join(d, leaf + '.pyx')):
            from . import cyx
            m = cyx.load(name)
            setattr(MODS[parent], leaf, m)
            return m
        if os.path.exists(os.path.join(d, leaf + '.pyx')) or any(
                f.startswith(leaf + '.') and f.endswith('.so')
                for f in (os.listdir(d) if os.path.isdir(d) else ())):
            m = StubModule(name)
            MODS[name] = m
            setattr(MODS[parent], leaf, m)
            return m
        raise ImportError('no module %s' % name)
    with open(path, encoding='utf-8') as f:
        src = f.read()
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__['__builtins__'] = BUILTINS
    m.__package__ = name if ispkg else parent
    if ispkg:
        m.__path__ = [os.path.dirname(path)]
    MODS[name] = m
    if parent and not hasattr_(MODS[parent], leaf):
        setattr(MODS[parent], leaf, m)      # what the fallback of IMPORT_FROM to sys.modules finds
    try:
        tree = ast.parse(src, path)
        cutter(name, tree)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
    except BaseException:
        MODS.pop(name, None)
        if parent and MODS[parent].__dict__.get(leaf) is m:
            delattr(MODS[parent], leaf)
        raise
    if parent:
        setattr(MODS[parent], leaf, m)
    return m

def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        name = pkg + ('.' + name if name else '')
    top = name.split('.')[0]
    if top == 'numpy':
        if name == 'numpy':
            return NP
        if name == 'numpy.linalg':
            return NP.linalg if fromlist else NP
        return builtins.__import__(name, None, None, fromlist, 0)
    if top == 'math':
        return MATH
    if top == 'sympy':
        return SympyProxy()
    if top == 'scipy':
        m = builtins.__import__(name, None, None, fromlist, 0)
        from . import spstand
        if name == 'scipy.sparse' and fromlist:
            return spstand.SP
        if name == 'scipy.special' and fromlist:
            return spstand.SPECIAL
        return m if fromlist and name != 'scipy' else spstand.SC
    if top != 'sfepy':
        return builtins.__import__(name, None, None, fromlist, 0)
    m = load(name)
    if not fromlist:
        return MODS[top]
    for k in fromlist:
        if k != '*' and not hasattr_(m, k):
            try:
                load(name + '.' + k)
            except ImportError:
                pass
    return m

def hasattr_(m, k):
    return k in m.__dict__

BUILTINS = _builtins()

def cutter(name, tree):
    """Loop cutting for the functions with registered loop invariants."""
    if not any(k[0] == name for k in CUTS):
        return
    from .pycut import cut
    cut(name, tree, CUTS)

# ------------------------------------------------------------ call tracing
_TOOL = 4
_seen = set()

def trace_on():
    mon = getattr(sys, 'monitoring', None)
    if mon is None or mon.get_tool(_TOOL) is not None:
        return
    mon.use_tool_id(_TOOL, 'verif')

    def start(code, off):
        if code.co_filename.startswith(REPO):
            q = code.co_qualname
            if '<' not in q.split('.')[-1]:
                _seen.add('%s:%s' % (os.path.relpath(code.co_filename, REPO), q))
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, start)
    mon.set_events(_TOOL, mon.events.PY_START)

# ------------------------------------------------------------ worlds
def _path(o, attr):
    ks = attr.split('.')
    for k in ks[:-1]:
        o = getattr(o, k)
    return o, ks[-1]

class _Common:
    def _stub(self, mod, attr, fn):
        o, k = _path(self.mod(mod), attr)
        old = o.__dict__.get(k, _NONE)
        self._undo.append((o, k, old))
        setattr(o, k, fn)

    def restore(self):
        for o, k, old in reversed(self._undo):
            if old is _NONE:
                try:
                    delattr(o, k)
                except AttributeError:
                    pass
            else:
                setattr(o, k, old)
        self._undo = []

    def stub(self, mod, attr, fn):
        """Replace a callee by its contract."""
        self._stub(mod, attr, fn)

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        return False

_NONE = object()
_live = []

def _fmt(self, spec, old=Fraction.__format__):
    # the numbers of the real program are floats
    try:
        return old(self, spec)
    except ValueError:
        return builtins.float(self).__format__(spec)
Fraction.__format__ = _fmt
numbers.Number.register(sym.R)

class SymPy(_Common, SymBase):
    def __init__(self, suite, con, case):
        SymBase.__init__(self, suite, con, case)
        while _live:
            _live.pop().restore()
        self._undo = []
        _live.append(self)
        sym.CTX.schemas = []
        trace_on()
        _seen.clear()
        mon = sys.monitoring
        mon.restart_events()
        if not getattr(suite, '_pi', False):
            pass
        if CYTHON[0]:
            from . import cyx
            cyx.prog().env['G'].g_error = 0
        sym.assume(PI > 3)
        sym.assume(PI < 4)
        self.np = NP

    def mod(self, name):
        return load(name)

    def called(self):
        return set(_seen)

    def finish(self):
        self.restore()

    def array(self, x, dtype=float):
        a = np.array(x, dtype=object)
        return exarr(a)

    def reals(self, name, *shape, pos=False):
        a = SymBase.reals(self, name, *shape, pos=pos)
        return a

    def num(self, x):
        return Fraction(str(x)) if not isinstance(x, (builtins.int, Fraction)) else Fraction(x)

    def fn(self, name, *a):
        if name == 'sqrt':
            return rsqrt(lift(a[0]))
        return fun(name, *a)

    def le(self, label, a, b):
        self.true(label, lift(a) <= b)

    def lt(self, label, a, b):
        self.true(label, lift(a) < b)

    def eq(self, label, a, b):
        for x in (a, b):
            if x.__class__ is Uninit:
                self.obs.append((label, 'refuted', 'uninitialised value'))
                return
        if _arr(a) and a.ndim == 0:
            a = a[()]
        if _arr(b) and b.ndim == 0:
            b = b[()]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, builtins.float) and (x != x or _inf(x)):
                self.obs.append((label, 'proved' if y == x else 'refuted', 'evaluated'))
                return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            ok = (a is b) if (a is None or b is None) else a == b
            self.obs.append((label, 'proved' if ok else 'refuted', 'evaluated'))
            return
        SymBase.eq(self, label, a, b)

class ConPy(_Common, ConBase):
    def __init__(self, suite, con, case, seed):
        ConBase.__init__(self, suite, con, case, seed)
        while _live:
            _live.pop().restore()
        self._undo = []
        _live.append(self)
        self.np = np

    def mod(self, name):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        return importlib.import_module(name)

    def finish(self):
        self.restore()

    def array(self, x, dtype=float):
        return np.array(x, dtype=np.float64)

    def num(self, x):
        return float(Fraction(str(x))) if not isinstance(x, (int, Fraction)) else float(x)

    def fn(self, name, *a):
        a = [float(x) for x in a]
        if not hasattr(np, name):
            # an arbitrary function of this name
            r = random.Random(name)
            return float(sum(np.sin(r.uniform(0.3, 2) * x + r.uniform(-1, 1)) for x in a) + r.uniform(-1, 1))
        return float(getattr(np, name)(*a))

    def le(self, label, a, b):
        self.true(label, a <= b + self.tol * (1 + abs(a) + abs(b)))

    def lt(self, label, a, b):
        self.le(label, a, b)

    def eq(self, label, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.true(label, (a is b) if (a is None or b is None) else a == b)
            return
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.ravel()[0]
        if isinstance(b, np.ndarray) and b.size == 1:
            b = b.ravel()[0]
        ConBase.eq(self, label, a, b)

def cython(suite, *names):
    """Python and Cython modules of a suite, compiled afresh for the replay."""
    CYTHON[0] = True
    suite.ext = True
    suite.pre.append(preload(*names, real=False))

    def cprog():
        from . import cyx
        cyx.prog()
    suite.pre.append(cprog)

    def real():
        for n in names:
            importlib.import_module(n)
    suite.pre_conc.append(real)

def preload(*names, real=True):
    """For Suite.pre: load the modules once in the parent."""
    def f():
        for n in names:
            try:
                load(n)
            except EngineError:
                raise
            except Exception as e:
                raise EngineError('loading %s: %s: %s' % (n, type(e).__name__, e))
        if real:
            if REPO not in sys.path:
                sys.path.insert(0, REPO)
            for n in names:
                importlib.import_module(n)
    return f
