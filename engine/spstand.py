"""
Stand-in for the scipy.sparse classes over exact values.

Arrays of integers and booleans go to the real scipy; arrays of exact numbers
(dtype object) get the storage formats and operations below.
"""
import builtins, itertools, types
from fractions import Fraction
import numpy as np
import scipy.sparse as rsp
from .sym import EngineError

def _obj(x):
    if isinstance(x, Base):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'O'
    if isinstance(x, (tuple, list)):
        return any(_obj(y) for y in x)
    return not isinstance(x, (int, np.generic, type(None), str)) and not rsp.issparse(x)

class _Meta(type):
    """The scipy name: makes either kind, recognizes both."""
    def __call__(cls, arg, shape=None, dtype=None, copy=False, **kw):
        real = getattr(rsp, cls.__name__)
        fl = dtype is not None and not isinstance(dtype, (str, np.dtype)) and np.dtype(_dt(dtype)).kind == 'O'
        if isinstance(arg, Base) or fl or _obj(arg[0] if isinstance(arg, tuple) and len(arg) == 2
                                               and isinstance(arg[1], (tuple, list)) else arg):
            o = type.__call__(cls)
            o._init(arg, shape, copy)
            return o
        return real(arg, shape=shape, dtype=dtype, copy=copy, **kw)

    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, getattr(rsp, cls.__name__, ()))

def _dt(d):
    from . import pyworld
    if d in (pyworld.FloatType, pyworld.ComplexType):
        return object
    if d is pyworld.IntType:
        return np.int64
    if d is builtins.bool or d is np.bool_:
        return np.bool_
    return d

def _z(n):
    a = np.empty(n, dtype=object)
    a.fill(Fraction(0))
    return _ex(a)

def _ex(a):
    from . import pyworld
    return pyworld.exarr(a)

class Base:
    __array_priority__ = 2000
    __array_ufunc__ = None
    ndim = 2
    matrix = False

    # ------------------------------------------------------ construction
    def _init(self, arg, shape, copy):
        if isinstance(arg, Base) or rsp.issparse(arg):
            c = arg.tocoo()
            d = c.data if isinstance(arg, Base) else _ex(c.data.astype(object))
            self._from(c.row, c.col, d, c.shape)
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list, np.ndarray)):
            d, (r, c) = arg
            d, r, c = np.asarray(d), np.asarray(r), np.asarray(c)
            if d.dtype.kind != 'O':
                d = d.astype(object)
            if not len(d) == len(r) == len(c):
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                shape = int(r.max()) + 1, int(c.max()) + 1
            if len(r) and (r.max() >= shape[0] or c.max() >= shape[1]):
                raise ValueError('axis index exceeds matrix dimension')
            if len(r) and (r.min() < 0 or c.min() < 0):
                raise ValueError('negative axis index')
            self._from(r, c, _ex(d), tuple(int(k) for k in shape))
        elif isinstance(arg, tuple) and len(arg) == 3:
            self._from3(arg, shape)
        elif isinstance(arg, tuple) and len(arg) == 2:
            e = np.empty(0, dtype=np.int32)
            self._from(e, e, _z(0), tuple(int(k) for k in arg))
        else:
            a = np.asarray(arg)
            if a.ndim != 2:
                raise EngineError('sparse array of %d dimensions' % a.ndim)
            ix = [(i, j) for i in range(a.shape[0]) for j in range(a.shape[1]) if not _zero(a[i, j])]
            d = np.empty(len(ix), dtype=object)
            for k, p in enumerate(ix):
                d[k] = a[p]
            r = np.array([p[0] for p in ix], dtype=np.int32)
            c = np.array([p[1] for p in ix], dtype=np.int32)
            self._from(r, c, _ex(d), a.shape)

    @property
    def dtype(self):
        return self.data.dtype

    def _like(self, r, c, d, shape, kind=None):
        k = kind or self.fmt
        cls = CLS[k, self.matrix]
        o = type.__call__(cls)
        o._from(np.asarray(r, dtype=np.int32), np.asarray(c, dtype=np.int32), d, shape)
        return o

    def tocoo(self, copy=True):
        r, c, d = self._coo()
        return self._like(r, c, d, self.shape, 'coo')

    def tocsr(self, copy=False):
        if self.fmt == 'csr' and not copy:
            return self
        return self._like(*self._coo(), self.shape, 'csr')

    def tocsc(self, copy=False):
        if self.fmt == 'csc' and not copy:
            return self
        return self._like(*self._coo(), self.shape, 'csc')

    def tolil(self, copy=False):
        raise EngineError('lil format')

    def asformat(self, f, copy=False):
        return getattr(self, 'to' + f)()

    def copy(self):
        o = type.__call__(type(self))
        for k, v in self.__dict__.items():
            o.__dict__[k] = v.copy() if isinstance(v, np.ndarray) else v
        return o

    def astype(self, dt, copy=True):
        if np.dtype(_dt(dt)).kind != 'O':
            raise EngineError('conversion of a sparse array')
        return self.copy()

    def toarray(self, order=None, out=None):
        a = _z(self.shape)
        for i, j, v in zip(*self._coo()):
            a[i, j] = a[i, j] + v
        return a

    def todense(self, **k):
        return self.toarray()

    A = property(toarray)

    @property
    def nnz(self):
        return len(self.data)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, axes=None, copy=False):
        r, c, d = self._coo()
        return self._like(c, r, d, self.shape[::-1], {'coo': 'coo', 'csr': 'csc', 'csc': 'csr'}[self.fmt])

    def conj(self, copy=True):
        return self.copy()

    conjugate = conj

    def diagonal(self, k=0):
        a = self.toarray()
        return _ex(np.array([a[i, i + k] for i in range(a.shape[0]) if 0 <= i + k < a.shape[1]] or [0],
                            dtype=object)[:max(0, sum(1 for i in range(a.shape[0]) if 0 <= i + k < a.shape[1]))])

    def sum(self, axis=None):
        a = self.toarray()
        return a.sum(axis)

    def nonzero(self):
        t = [(i, j) for i, j, v in zip(*self._coo()) if not _zero(v)]
        return np.array([p[0] for p in t], dtype=np.int32), np.array([p[1] for p in t], dtype=np.int32)

    # ------------------------------------------------------ arithmetics
    def _wrap(self, o):
        if isinstance(o, Base):
            return o
        if rsp.issparse(o):
            return CLS['csr', False](o, dtype=_float())
        return None

    def _sum(self, o, s):
        if isinstance(o, (int, Fraction)) and o == 0:
            return self.copy()
        w = self._wrap(o)
        if w is None:
            if isinstance(o, np.ndarray):
                return self.toarray() + s * o
            return NotImplemented
        if w.shape != self.shape:
            raise ValueError('inconsistent shapes')
        r0, c0, d0 = self._coo()
        r1, c1, d1 = w._coo()
        d = np.concatenate([d0, d1 if s == 1 else -d1])
        return self._like(np.concatenate([r0, r1]), np.concatenate([c0, c1]), _ex(d), self.shape,
                          'csr' if self.fmt == 'coo' else None)

    def __add__(self, o):
        return self._sum(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._sum(o, -1)

    def __rsub__(self, o):
        return (-self)._sum(o, 1)

    def __neg__(self):
        return self._map(lambda v: -v)

    def _map(self, f):
        o = self.copy()
        for i in range(len(o.data)):
            o.data[i] = f(o.data[i])
        return o

    def __matmul__(self, o):
        w = self._wrap(o)
        if w is not None:
            if self.shape[1] != w.shape[0]:
                raise ValueError('dimension mismatch')
            rows = {}
            for i, j, v in zip(*w._coo()):
                rows.setdefault(int(i), []).append((int(j), v))
            out = {}
            for i, j, v in zip(*self._coo()):
                for k, u in rows.get(int(j), ()):
                    p = int(i), k
                    out[p] = out[p] + v * u if p in out else v * u
            return self._dict(out, (self.shape[0], w.shape[1]), 'csr' if self.fmt == 'coo' else None)
        o = np.asarray(o)
        if o.ndim == 0:
            return NotImplemented
        if o.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        out = _z((self.shape[0],) + o.shape[1:])
        for i, j, v in zip(*self._coo()):
            out[i] = out[i] + v * o[j]
        return out

    def _dict(self, out, shape, kind=None):
        ks = sorted(out)
        d = np.empty(len(ks), dtype=object)
        for k, p in enumerate(ks):
            d[k] = out[p]
        return self._like([p[0] for p in ks], [p[1] for p in ks], _ex(d), shape, kind)

    def __rmatmul__(self, o):
        if rsp.issparse(o):
            return CLS['csr', False](o, dtype=_float()) @ self
        return (self.T @ np.asarray(o).T).T

    dot = __matmul__

    def __mul__(self, o):
        if self.matrix and (isinstance(o, (Base, np.ndarray)) or rsp.issparse(o)):
            return self @ o
        return self.multiply(o)

    def __rmul__(self, o):
        if self.matrix and (isinstance(o, np.ndarray) or rsp.issparse(o)):
            return self.__rmatmul__(o)
        return self.multiply(o)

    def multiply(self, o):
        w = self._wrap(o)
        if w is not None:
            a = {}
            for i, j, v in zip(*w._coo()):
                a[i, j] = a.get((i, j), 0) + v
            b = {}
            for i, j, v in zip(*self._coo()):
                b[i, j] = b.get((i, j), 0) + v
            return self._dict({p: v * a[p] for p, v in b.items() if p in a}, self.shape)
        if isinstance(o, np.ndarray) and o.size > 1:
            b = np.broadcast_to(o, self.shape)
            r = self.copy()
            for k, (i, j, v) in enumerate(zip(*r._coo())):
                r.data[k] = v * b[i, j]
            return r
        if isinstance(o, np.ndarray):
            o = o.ravel()[0]
        return self._map(lambda v: v * o)

    def __truediv__(self, o):
        return self._map(lambda v: v / o)

    def __imul__(self, o):
        for i in range(len(self.data)):
            self.data[i] = self.data[i] * o
        return self

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = ix, slice(None)
        i, j = ix
        if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
            return self.toarray()[i, j]
        ri = _sel(i, self.shape[0])
        ci = _sel(j, self.shape[1])
        if not isinstance(i, slice) and not isinstance(j, slice) and not isinstance(i, (int, np.integer)) \
                and not isinstance(j, (int, np.integer)) and np.ndim(i) == 1 and np.ndim(j) == 1:
            a = self.toarray()
            return _ex(np.array([a[p] for p in zip(ri, ci)], dtype=object))
        if (isinstance(i, (int, np.integer)) or isinstance(j, (int, np.integer))) and not self.matrix:
            a = self.toarray()
            return CLS1(a[i, j])
        out = {}
        rp, cp = {}, {}
        for k, v in enumerate(ri):
            rp.setdefault(int(v), []).append(k)
        for k, v in enumerate(ci):
            cp.setdefault(int(v), []).append(k)
        for a, b, v in zip(*self._coo()):
            for p in itertools.product(rp.get(int(a), ()), cp.get(int(b), ())):
                out[p] = out[p] + v if p in out else v
        return self._dict(out, (len(ri), len(ci)), 'csr' if self.fmt == 'coo' else None)

    def __setitem__(self, ix, v):
        if self.fmt == 'coo':
            raise TypeError('%r object does not support item assignment' % type(self).__name__)
        i, j = ix if isinstance(ix, tuple) else (ix, slice(None))
        if not all(isinstance(k, (slice, int, np.integer)) for k in (i, j)):
            raise EngineError('sparse item assignment by arrays')
        ri, ci = _sel(i, self.shape[0]), _sel(j, self.shape[1])
        a = {(int(r), int(c)): x for r, c, x in zip(*self._coo())}
        new = {}
        if isinstance(v, Base) or rsp.issparse(v):
            if tuple(v.shape) != (len(ri), len(ci)):
                raise ValueError('shape mismatch in assignment')
            for p in itertools.product(ri, ci):
                if (int(p[0]), int(p[1])) in a:
                    new[int(p[0]), int(p[1])] = Fraction(0)
            c = v.tocoo()
            for r, q, x in zip(c.row, c.col, c.data):
                new[int(ri[int(r)]), int(ci[int(q)])] = x
        else:
            b = np.broadcast_to(np.asarray(v, dtype=object), (len(ri), len(ci)))
            for r, q in np.ndindex(*b.shape):
                new[int(ri[r]), int(ci[q])] = b[r, q]
        a.update(new)
        ks = list(a)
        d = np.empty(len(ks), dtype=object)
        for k, p in enumerate(ks):
            d[k] = a[p]
        self._from([p[0] for p in ks], [p[1] for p in ks], _ex(d), self.shape)

    def __eq__(self, o):
        raise EngineError('comparison of sparse arrays')
    __hash__ = None

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

def CLS1(a):
    return a

def _float():
    from . import pyworld
    return pyworld.FloatType

def _zero(v):
    return bool(v == 0)

def _sel(i, n):
    if isinstance(i, slice):
        return range(*i.indices(n))
    a = np.atleast_1d(np.asarray(i))
    if a.dtype.kind == 'b':
        return np.nonzero(a.ravel())[0]
    a = a.ravel()
    return np.where(a < 0, a + n, a)

class _Coo(Base):
    fmt = format = 'coo'

    def _from(self, r, c, d, shape):
        self.row, self.col, self.data, self.shape = np.array(r, dtype=np.int32), np.array(c, dtype=np.int32), d, shape
        self.coords = self.row, self.col

    def _from3(self, arg, shape):
        raise EngineError('coo from compressed data')

    def _coo(self):
        return self.row, self.col, self.data

    def sum_duplicates(self):
        o = self.tocsr().tocoo()
        self._from(o.row, o.col, o.data, self.shape)

    def eliminate_zeros(self):
        k = [i for i, v in enumerate(self.data) if not _zero(v)]
        self._from(self.row[k], self.col[k], self.data[k], self.shape)

class _Comp(Base):
    def _from(self, r, c, d, shape):
        if self.fmt == 'csc':
            r, c = c, r
        n = shape[0 if self.fmt == 'csr' else 1]
        acc = {}
        for i, j, v in zip(r, c, d):
            p = int(i), int(j)
            acc[p] = acc[p] + v if p in acc else v
        ks = sorted(acc)
        self.data = _z(len(ks))
        for k, p in enumerate(ks):
            self.data[k] = acc[p]
        self.indices = np.array([p[1] for p in ks], dtype=np.int32)
        cnt = np.zeros(n + 1, dtype=np.int32)
        for p in ks:
            cnt[p[0] + 1] += 1
        self.indptr = np.cumsum(cnt).astype(np.int32)
        self.shape = tuple(shape)

    def _from3(self, arg, shape):
        d, ix, ptr = arg
        self.data = d if d.dtype.kind == 'O' else _ex(d.astype(object))
        self.indices, self.indptr = np.asarray(ix, dtype=np.int32), np.asarray(ptr, dtype=np.int32)
        n = len(self.indptr) - 1
        if shape is None:
            m = int(self.indices.max()) + 1 if len(self.indices) else 0
            shape = (n, m) if self.fmt == 'csr' else (m, n)
        self.shape = tuple(int(k) for k in shape)
        if n != self.shape[0 if self.fmt == 'csr' else 1]:
            raise ValueError('index pointer size %d should be %d' % (n + 1, self.shape[0] + 1))
        if len(self.indices) != len(self.data):
            raise ValueError('indices and data should have the same size')
        if self.indptr[-1] > len(self.indices):
            raise ValueError('Last value of index pointer should be less than the size of index and data arrays')
        if len(self.indices) and self.indices.max() >= self.shape[1 if self.fmt == 'csr' else 0]:
            raise ValueError('indices must be < %d' % self.shape[1])

    def _coo(self):
        n = len(self.indptr) - 1
        a = np.repeat(np.arange(n, dtype=np.int32), np.diff(self.indptr))
        return (a, self.indices, self.data) if self.fmt == 'csr' else (self.indices, a, self.data)

    @property
    def has_sorted_indices(self):
        return all((np.diff(self.indices[a:b]) > 0).all() for a, b in zip(self.indptr[:-1], self.indptr[1:]))

    has_canonical_format = has_sorted_indices

    def sort_indices(self):
        o = self.copy()
        r, c, d = o._coo()
        self._from(r, c, d, self.shape)

    sum_duplicates = sort_indices

    def eliminate_zeros(self):
        r, c, d = self._coo()
        k = [i for i, v in enumerate(d) if not _zero(v)]
        self._from(np.asarray(r)[k], np.asarray(c)[k], d[k], self.shape)

    def setdiag(self, v, k=0):
        a = {(int(i), int(j)): x for i, j, x in zip(*self._coo())}
        n = min(self.shape)
        for i in range(n):
            a[i, i] = v[i] if isinstance(v, np.ndarray) else v
        ks = list(a)
        d = np.empty(len(ks), dtype=object)
        for q, p in enumerate(ks):
            d[q] = a[p]
        self._from([p[0] for p in ks], [p[1] for p in ks], _ex(d), self.shape)

class _Csr(_Comp):
    fmt = format = 'csr'

class _Csc(_Comp):
    fmt = format = 'csc'

CLS = {}
def _mk(base, name, matrix):
    c = _Meta(name, (base,), dict(matrix=matrix, __module__='scipy.sparse'))
    CLS[base.fmt, matrix] = c
    return c

class _SpModule(types.ModuleType):
    def __getattr__(self, k):
        return getattr(rsp, k)

SP = _SpModule('scipy.sparse')
for b, n in ((_Coo, 'coo'), (_Csr, 'csr'), (_Csc, 'csc')):
    for s, m in (('_array', False), ('_matrix', True)):
        setattr(SP, n + s, _mk(b, n + s, m))

def _dia(name):
    def dia(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 2 and _obj(arg[0]):
            data, off = np.atleast_2d(arg[0]), np.atleast_1d(arg[1])
            if shape is None:
                raise ValueError('expected a shape argument')
            q = [(j - int(o), j, data[k, j]) for k, o in enumerate(off)
                 for j in range(min(data.shape[1], shape[1])) if 0 <= j - int(o) < shape[0]]
            d = np.empty(len(q), dtype=object)
            for i, t in enumerate(q):
                d[i] = t[2]
            return getattr(SP, 'coo_' + name)((_ex(d), (np.array([t[0] for t in q], dtype=np.int32),
                                                       np.array([t[1] for t in q], dtype=np.int32))), shape=shape)
        return getattr(rsp, 'dia_' + name)(arg, shape=shape, dtype=dtype, copy=copy)
    return dia

SP.dia_array, SP.dia_matrix = _dia('array'), _dia('matrix')

def find(a):
    """The entries; those that are not identically zero are kept."""
    if not isinstance(a, Base):
        return rsp.find(a)
    from .sym import iszero, lift
    a = a.tocsr().tocoo()
    k = [i for i, v in enumerate(a.data) if not iszero(lift(v))]
    return a.row[k], a.col[k], a.data[k]

SP.find = find

def issparse(x):
    return isinstance(x, Base) or rsp.issparse(x)

def eye_array(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    ix = [(i, i + k) for i in range(m) if 0 <= i + k < n]
    d = _z(len(ix))
    d.fill(Fraction(1))
    a = CLS['coo', False]((d, ([p[0] for p in ix], [p[1] for p in ix])), shape=(m, n))
    return a.asformat(format or 'csr')

def diags(d, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0:
        d, offsets = [d], [offsets]
    d = [np.atleast_1d(np.asarray(x)) for x in d]
    if shape is None:
        n = len(d[0]) + abs(offsets[0])
        shape = n, n
    acc = [(i, i + k, (x[min(i, i + k)] if len(x) > 1 else x[0])) for x, k in zip(d, offsets)
           for i in range(shape[0]) if 0 <= i + k < shape[1]]
    v = _z(len(acc))
    for q, t in enumerate(acc):
        v[q] = t[2]
    return CLS['coo', False]((v, ([t[0] for t in acc], [t[1] for t in acc])), shape=shape).asformat(format or 'csr')

def block_array(blocks, *, format=None, dtype=None):
    flat = [b for r in blocks for b in r if b is not None]
    if not any(isinstance(b, Base) or isinstance(b, np.ndarray) and b.dtype.kind == 'O' for b in flat):
        return rsp.block_array(blocks, format=format, dtype=dtype)
    w = [[b if b is None or isinstance(b, Base) else CLS['coo', False](b, dtype=_float()) for b in r] for r in blocks]
    nr, nc = len(w), len(w[0])
    hs, ws = [None] * nr, [None] * nc
    for i in range(nr):
        for j in range(nc):
            if w[i][j] is not None:
                s = w[i][j].shape
                if hs[i] not in (None, s[0]) or ws[j] not in (None, s[1]):
                    raise ValueError('incompatible dimensions')
                hs[i], ws[j] = s
    if None in hs or None in ws:
        raise ValueError('blocks are all None')
    R, C, Dt = [], [], []
    for i in range(nr):
        for j in range(nc):
            if w[i][j] is not None:
                for a, b, v in zip(*w[i][j]._coo()):
                    R.append(int(a) + sum(hs[:i]))
                    C.append(int(b) + sum(ws[:j]))
                    Dt.append(v)
    d = _z(len(Dt))
    for k, v in enumerate(Dt):
        d[k] = v
    return CLS['coo', False]((d, (R, C)), shape=(sum(hs), sum(ws))).asformat(format or 'coo')

def hstack(blocks, format=None, dtype=None):
    return block_array([list(blocks)], format=format)

def vstack(blocks, format=None, dtype=None):
    return block_array([[b] for b in blocks], format=format)

SP.issparse = SP.isspmatrix = issparse
SP.eye_array = SP.eye = SP.identity = eye_array
SP.diags = SP.diags_array = diags
SP.block_array = SP.bmat = block_array
SP.hstack, SP.vstack = hstack, vstack
SP.sparray = SP.spmatrix = type('sparray', (), {})

class _AnySparse(type):
    def __instancecheck__(cls, o):
        return issparse(o)
SP.sparray = _AnySparse('sparray', (), {})
SP.spmatrix = SP.sparray

class _Sc(types.ModuleType):
    def __getattr__(self, k):
        import scipy
        return getattr(scipy, k)
SC = _Sc('scipy')
SC.sparse = SP

# ------------------------------------------------------------ scipy.special
def jacobi_coefs(n, a, b):
    """Exact coefficients of the Jacobi polynomial P_n^(a, b) (integer a, b), from the constant one."""
    from fractions import Fraction
    from math import comb
    out = [Fraction(0)] * (n + 1)
    # sum_s C(n + a, n - s) C(n + b, s) ((x - 1) / 2)^s ((x + 1) / 2)^(n - s)
    for s in range(n + 1):
        c = Fraction(comb(n + a, n - s) * comb(n + b, s), 2 ** n)
        p = [Fraction(1)]
        for k in range(n):
            r = -1 if k < s else 1
            q = [Fraction(0)] * (len(p) + 1)
            for i, v in enumerate(p):
                q[i] += v * r
                q[i + 1] += v
            p = q
        for i, v in enumerate(p):
            out[i] += c * v
    return out

class ExactPoly:
    """The polynomial class of scipy.special.jacobi() with exact coefficients."""
    def __init__(self, c):
        self.c = list(c)

    @property
    def coef(self):
        out = np.empty(len(self.c), dtype=object)
        out[:] = [_ex1(v) for v in self.c[::-1]]
        return out
    coeffs = coefficients = c_ = coef

    @property
    def order(self):
        return len(self.c) - 1

    def deriv(self, m=1):
        c = self.c
        for _ in range(m):
            c = [i * v for i, v in enumerate(c)][1:] or [0 * c[0]]
        return ExactPoly(c)

    def __call__(self, x):
        r = 0 * x + _ex1(self.c[-1])
        for v in self.c[-2::-1]:
            r = r * x + _ex1(v)
        return r

def _ex1(v):
    from . import sym
    return sym.lift(v)

def _int(v):
    if int(v) != v:
        raise NotImplementedError('Jacobi polynomials with non-integer parameters')
    return int(v)

class _Special(types.ModuleType):
    def __getattr__(self, k):
        import scipy.special
        return getattr(scipy.special, k)

SPECIAL = _Special('scipy.special')

def _jacobi(n, a, b, monic=False):
    if monic:
        raise NotImplementedError('monic Jacobi polynomials')
    return ExactPoly(jacobi_coefs(_int(n), _int(a), _int(b)))

def _eval_jacobi(n, a, b, x):
    p = [_jacobi(i, j, k) for i, j, k in [(n, a, b)]][0]
    return p(x)

SPECIAL.jacobi, SPECIAL.eval_jacobi = _jacobi, _eval_jacobi
SPECIAL.legendre = lambda n, monic=False: _jacobi(n, 0, 0, monic)
SPECIAL.eval_legendre = lambda n, x: _eval_jacobi(n, 0, 0, x)
SC.special = SPECIAL
