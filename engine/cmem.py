"""Memory model of the symbolic C executor."""
import math
from fractions import Fraction
from .sym import (R, SymBool, EngineError, Undefined, const, lift, rsqrt, rpow,
                  fun, read, to_coef, ZERO, content, cmp_, iszero)
from . import sym

class MemError(Exception):
    """Out-of-bounds / uninitialised / null access in the real code."""

class _Uninit:
    def __repr__(self):
        return 'UNINIT'
UNINIT = _Uninit()

def _cidx(o):
    c = o.__class__
    if c is int:
        return o
    if c is R:
        k = o.const()
        if k is not None:
            if k.__class__ is not int:
                raise EngineError('non-integer index')
            return k
        return None
    if c is SymBool:
        return int(bool(o))
    return int(o)

class Born:
    """Objects know when they were created (loop summaries ignore what an
    iteration creates)."""
    clock = 0

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        Born.clock += 1
        o.__dict__['_birth'] = Born.clock
        return o

class Mem(Born):
    def __init__(self, a, name='mem'):
        self.a = a
        self.name = name

    def size(self):
        return len(self.a)

    def get(self, o):
        if o.__class__ is not int:
            k = _cidx(o)
            if k is None:
                return self._symget(o)
            o = k
        if o < 0 or o >= len(self.a):
            raise MemError('read out of bounds: %s[%s], size %d'
                           % (self.name, o, len(self.a)))
        v = self.a[o]
        if v is UNINIT:
            raise MemError('read of uninitialised %s[%s]' % (self.name, o))
        return v

    def set(self, o, v):
        if o.__class__ is not int:
            k = _cidx(o)
            if k is None:
                o = self._symidx(o, 'write')
            else:
                o = k
        if o < 0 or o >= len(self.a):
            raise MemError('write out of bounds: %s[%s], size %d'
                           % (self.name, o, len(self.a)))
        self.a[o] = v

    def _symidx(self, o, what='read'):
        for j in range(len(self.a)):
            if o == j:
                return j
        raise MemError('%s out of bounds: %s[%s]' % (what, self.name, o))

    def _symget(self, o):
        return self.get(self._symidx(o))

class NdMem(Mem):
    """A flat view of a contiguous numpy array."""
    def __init__(self, arr, name='arr'):
        f = arr.reshape(-1)
        if arr.size and f.base is None and f is not arr:
            raise EngineError('buffer of a non-contiguous array')
        if not arr.flags.c_contiguous:
            raise BufferError('ndarray is not C-contiguous')
        self.a = f
        self.name = name

    def get(self, o):
        v = Mem.get(self, o)
        if hasattr(v, 'dtype'):
            return v.item()
        return v

class FieldMem:
    def __init__(self, s, f):
        self.s = s
        self.f = f

    def size(self):
        return 1

    def get(self, o):
        if _cidx(o) != 0:
            raise MemError('field access out of bounds')
        return getattr(self.s, self.f)

    def set(self, o, v):
        if _cidx(o) != 0:
            raise MemError('field access out of bounds')
        setattr(self.s, self.f, v)

class P:
    __slots__ = ('_m', '_o')

    def __init__(self, m, o=0):
        object.__setattr__(self, '_m', m)
        object.__setattr__(self, '_o', o)

    # convenience for translated Cython code
    def __getattr__(self, f):
        if f.startswith('__'):
            raise AttributeError(f)
        return decay(getattr(self._m.get(self._o), f))

    def __setattr__(self, f, v):
        s = self._m.get(self._o)
        setattr(s, f, v)

    def __getitem__(self, i):
        return decay(self._m.get(self._o + i))

    def __setitem__(self, i, v):
        self._m.set(self._o + i, v)

    def __add__(self, n):
        return P(self._m, self._o + n)

    def __sub__(self, n):
        if n.__class__ is P:
            return psub(self, n)
        return P(self._m, self._o - n)

    def __eq__(self, o):
        if o is None:
            return False
        return peq(self, o)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash((id(self._m), self._o))

    def __bool__(self):
        return True

    def __repr__(self):
        return 'P(%s+%s)' % (getattr(self._m, 'name', self._m), self._o)

def decay(v):
    if v.__class__ is Mem:
        return P(v, 0)
    return v

class SObj(Born):
    """C struct value."""
    def __init__(self, tname, **kw):
        self.__dict__['_t'] = tname
        self.__dict__.update(kw)

    def __repr__(self):
        return '<struct %s>' % self._t

class RawAlloc:
    old = None
    def __init__(self, nbytes, zero):
        self.nbytes = nbytes
        self.zero = zero

def ld(p):
    if p is None:
        raise MemError('null pointer dereference')
    return p._m.get(p._o)

def st(p, v):
    if p is None:
        raise MemError('null pointer dereference')
    p._m.set(p._o, v)
    return v

def ldx(p, i):
    if p is None:
        raise MemError('null pointer dereference')
    return p._m.get(p._o + i)

def stx(p, i, v):
    if p is None:
        raise MemError('null pointer dereference')
    p._m.set(p._o + i, v)
    return v

def padd(p, n):
    if p is None:
        if n.__class__ is int and n == 0:
            return None
        return P(NULLMEM, n)
    return P(p._m, p._o + n)

class _NullMem:
    name = 'NULL'

    def size(self):
        return 0

    def get(self, o):
        raise MemError('null pointer dereference')

    def set(self, o, v):
        raise MemError('null pointer dereference')
NULLMEM = _NullMem()

def psub(a, b):
    if a is None and b is None:
        return 0
    if a is None or b is None or not same_mem(a._m, b._m):
        raise EngineError('difference of unrelated pointers')
    return a._o - b._o

def same_mem(a, b):
    if a is b:
        return True
    if a.__class__ is FieldMem and b.__class__ is FieldMem:
        return a.s is b.s and a.f == b.f
    return False

def peq(a, b):
    if a is None or b is None:
        return a is b
    if a.__class__ is not P or b.__class__ is not P:
        return a is b
    if not same_mem(a._m, b._m):
        return False
    return a._o == b._o

def plt(a, b):
    if (a is None or b is None) and a.__class__ in (P, type(None)) and b.__class__ in (P, type(None)):
        # comparison with the null pointer
        return (0 if a is None else 1) < (0 if b is None else 1)
    if a is None or b is None or not same_mem(a._m, b._m):
        raise EngineError('ordering of unrelated pointers')
    return a._o < b._o

def ple(a, b):
    if (a is None or b is None) and a.__class__ in (P, type(None)) and b.__class__ in (P, type(None)):
        # comparison with the null pointer
        return (0 if a is None else 1) <= (0 if b is None else 1)
    if a is None or b is None or not same_mem(a._m, b._m):
        raise EngineError('ordering of unrelated pointers')
    return a._o <= b._o

_M32 = 0xFFFFFFFF
_M64 = 0xFFFFFFFFFFFFFFFF

def u32(x):
    if x.__class__ is int:
        return x & _M32
    if x.__class__ is R:
        k = x.const()
        if k is not None:
            return int(k) & _M32
        return x
    if x.__class__ is SymBool:
        return x
    return int(x) & _M32

def u64(x):
    if x.__class__ is int:
        return x & _M64
    return x

def u8(x):
    if x.__class__ is int:
        return x & 0xFF
    return x

def i32(x):
    """Signed 32-bit conversion of an unsigned value."""
    if x.__class__ is int:
        x &= _M32
        return x - (1 << 32) if x >= (1 << 31) else x
    return x

def toint(x):
    c = x.__class__
    if c is int:
        return x
    if c is R:
        k = x.const()
        if k is None:
            if all(sym.ATOMS[a].is_int for a in x.atoms()):
                return x
            raise EngineError('(int) of a symbolic real')
        return int(k)
    return int(x)

def idiv(a, b):
    if a.__class__ is R or b.__class__ is R:
        a_, b_ = lift(a), lift(b)
        ka, kb = a_.const(), b_.const()
        if ka is not None and kb is not None:
            a, b = ka, kb
        elif kb is not None:
            q = a_ / b_
            if all(c.__class__ is int for c in q.t.values()):
                return q
            raise EngineError('symbolic integer division')
        else:
            raise EngineError('symbolic integer division')
    if b == 0:
        raise MemError('integer division by zero')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q

def imod(a, b):
    if a.__class__ is R or b.__class__ is R:
        ka, kb = lift(a).const(), lift(b).const()
        if ka is None or kb is None:
            raise EngineError('symbolic modulo')
        a, b = ka, kb
    if b == 0:
        raise MemError('integer modulo by zero')
    return a - b * idiv(a, b)

def fdiv(a, b):
    ca, cb = a.__class__, b.__class__
    if ca is float or cb is float:
        a, b = float(a), float(b)
        if b == 0.0:
            if a != a or a == 0.0:
                return float('nan')
            neg = math.copysign(1.0, a) * math.copysign(1.0, b) < 0
            return float('-inf') if neg else float('inf')
        return a / b
    if ca is R or cb is R:
        return lift(a) / lift(b)
    if b == 0:
        raise Undefined('division by zero')
    f = Fraction(a) / Fraction(b)
    return f.numerator if f.denominator == 1 else f

def c_sqrt(x):
    if x.__class__ is float:
        return math.sqrt(x) if x >= 0 else float('nan')
    return _unr(rsqrt(lift(x)))

def _unr(r):
    if r.__class__ is R:
        k = r.const()
        if k is not None:
            return k
    return r

def c_pow(a, b):
    if a.__class__ is float or b.__class__ is float:
        return math.pow(float(a), float(b))
    b = _unr(lift(b))
    return _unr(lift(a) ** b)

def _mf(name):
    f = getattr(math, name)

    def g(x):
        if x.__class__ is float:
            return f(x)
        return _unr(fun({'acos': 'arccos'}.get(name, name), lift(x)))
    return g

c_exp, c_log, c_sin, c_cos, c_acos = [_mf(n) for n in
                                      ('exp', 'log', 'sin', 'cos', 'acos')]

def c_tan(x):
    if x.__class__ is float:
        return math.tan(x)
    return fun('sin', lift(x)) / fun('cos', lift(x))

def c_fabs(x):
    return abs(x)

def c_floor(x):
    if x.__class__ is float:
        return math.floor(x)
    k = lift(x).const()
    if k is None:
        raise EngineError('floor')
    return Fraction(k).__floor__()

def c_ceil(x):
    if x.__class__ is float:
        return math.ceil(x)
    k = lift(x).const()
    if k is None:
        raise EngineError('ceil')
    return Fraction(k).__ceil__()

def copyval(v):
    """Value copy for struct assignment."""
    if v.__class__ is SObj:
        n = SObj(v._t)
        for k, x in v.__dict__.items():
            if k == '_birth':
                continue
            n.__dict__[k] = copyval(x) if x.__class__ in (SObj, Mem) else x
        return n
    if v.__class__ is Mem:
        return Mem([copyval(x) for x in v.a], v.name)
    return v
