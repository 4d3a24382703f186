"""
Exact symbolic scalars for the deductive verifier.

``R`` is an element of a field of rational functions over *atoms* (free
variables, array reads, inverses, roots, uninterpreted functions, bounded
sums).  Floats are treated as mathematical reals; float literals are taken as
their shortest decimal value.  Equalities are decided by a normal form
(`iszero`), orderings and path feasibility by z3.
"""
import sys
from fractions import Fraction
from math import gcd

class EngineError(Exception):
    """The construct is out of the verifier's reach (never a violation)."""

class Undefined(Exception):
    """Division by an identically zero expression, sqrt of a negative, ..."""

class SymBranchError(EngineError):
    pass

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'data', 'is_int')

    def __init__(self, id, kind, name, data, is_int):
        self.id = id
        self.kind = kind
        self.name = name
        self.data = data
        self.is_int = is_int

    def __repr__(self):
        return 'Atom(%s)' % self.name

ATOMS = []
_INTERN = {}

def _atom(kind, key, name, data=None, is_int=False):
    k = (kind, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name, data, is_int)
        ATOMS.append(a)
        _INTERN[k] = a
    return a

def _norm(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c

def to_coef(x):
    """A Python number -> exact coefficient or None."""
    c = x.__class__
    if c is int or c is bool:
        return int(x)
    if c is Fraction:
        return _norm(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return _norm(Fraction(repr(float(x))))
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        it = x.item()
        if it.__class__ is R or it is x:
            return None
        return to_coef(it)
    if c.__module__.startswith('sympy.') and getattr(x, 'is_number', False) and x.is_real:
        return to_coef(Fraction(int(x.p), int(x.q)) if x.is_Rational else float(x))
    return None

_MM = {}

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k)
    if r is not None:
        return r
    i = j = 0
    na, nb = len(a), len(b)
    out = []
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < na:
        out.extend(a[i:])
    if j < nb:
        out.extend(b[j:])
    r = tuple(out)
    if len(_MM) > 2000000:
        _MM.clear()
    _MM[k] = r
    return r

class R:
    __slots__ = ('t', '_h', '_sq')
    __array_priority__ = -1000

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- helpers
    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    # numpy scalars have these
    ndim, shape, size = 0, (), 1

    def squeeze(self, *a, **k):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        """Exact constant value or None."""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def atoms(self):
        out = set()
        for m in self.t:
            for a, e in m:
                out.add(a)
        return out

    # -- arithmetic
    def __add__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        a, b = self.t, o_.t
        if not b:
            return self
        if not a:
            return o_
        if len(a) < len(b):
            a, b = b, a
        t = dict(a)
        for m, c in b.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = _norm(v)
                else:
                    del t[m]
        return R(t)
    __radd__ = __add__

    def __neg__(self):
        return R({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return self + (-o_)

    def __rsub__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return o_ + (-self)

    def __mul__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        a, b = self.t, o_.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            c = b[()]
            if c == 1:
                return self
            return R({m: _norm(v * c) for m, v in a.items()})
        if len(a) == 1 and () in a:
            c = a[()]
            if c == 1:
                return o_
            return R({m: _norm(v * c) for m, v in b.items()})
        t = {}
        special = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = t.get(m)
                c = c1 * c2
                if v is None:
                    t[m] = c
                else:
                    t[m] = v + c
        t = {m: _norm(c) for m, c in t.items() if c}
        if len(t) > 200000:
            raise EngineError('polynomial too large')
        r = R(t)
        return _reduce_roots(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return self * inverse(o_)

    def __rtruediv__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return o_ * inverse(self)

    def __pow__(self, n):
        if isinstance(n, R):
            c = n.const()
            if c is None:
                return fun('pow', self, n)
            n = c
        c = to_coef(n)
        if c is None:
            raise EngineError('pow exponent %r' % (n,))
        return rpow(self, c)

    def __rpow__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return o_ ** self

    def __abs__(self):
        c = self.const()
        if c is not None:
            return const(abs(c))
        b = (self >= 0)
        return self if b else -self

    def __floordiv__(self, o):
        c = self.const()
        d = o if not isinstance(o, R) else o.const()
        if c is not None and d is not None:
            return const(Fraction(c) // Fraction(to_coef(d)))
        raise EngineError('symbolic floor division')

    def __mod__(self, o):
        c = self.const()
        d = o if not isinstance(o, R) else o.const()
        if c is not None and d is not None:
            return const(Fraction(c) % Fraction(to_coef(d)))
        raise EngineError('symbolic modulo')

    # numpy object-array ufunc method hooks
    def sqrt(self):
        return rsqrt(self)

    def sin(self):
        return fun('sin', self)

    def cos(self):
        return fun('cos', self)

    def tan(self):
        return fun('sin', self) / fun('cos', self)

    def exp(self):
        return fun('exp', self)

    def log(self):
        return fun('log', self)

    def arccos(self):
        return fun('arccos', self)

    def conjugate(self):
        return self

    conj = conjugate

    def rint(self):
        c = self.const()
        if c is None:
            return self._round_to('rint', lambda v: (2 * v <= 2 * self + 1, 2 * self <= 2 * v + 1))
        return const(round(c))

    def floor(self):
        c = self.const()
        if c is None:
            return self._round_to('floor', lambda v: (v <= self, self < v + 1))
        return const(Fraction(c).__floor__())

    def ceil(self):
        c = self.const()
        if c is None:
            return self._round_to('ceil', lambda v: (self <= v, v < self + 1))
        return const(Fraction(c).__ceil__())

    def integral(self):
        return all(ATOMS[a].is_int for a in self.atoms()) and all(
            Fraction(c).denominator == 1 for c in self.t.values()) and all(e > 0 for m in self.t for a, e in m)

    def _round_to(self, kind, conds):
        # an integer variable constrained by the definition of the rounding
        if self.integral():
            return self
        p = CTX.path
        if p is None:
            raise EngineError('%s of symbolic' % kind)
        memo = p.__dict__.setdefault('rounded', {})
        k = (kind, self.key())
        if k not in memo:
            v = memo[k] = fresh(kind, True)
            for c in conds(v):
                p.assume(c)
        return memo[k]

    __floor__ = floor
    __ceil__ = ceil

    def isnan(self):
        return False

    def isfinite(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    # -- comparisons
    def __eq__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return cmp_('eq', self - o_)

    def __ne__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        r = cmp_('eq', self - o_)
        return (not r) if r.__class__ is bool else ~r

    def __lt__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return cmp_('lt', self - o_)

    def __le__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return cmp_('le', self - o_)

    def __gt__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return cmp_('lt', o_ - self)

    def __ge__(self, o):
        o_ = _lift(o)
        if o_ is None:
            return NotImplemented
        return cmp_('le', o_ - self)

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        r = cmp_('eq', self)
        return not bool(r)

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return hash(self.key())

    def __float__(self):
        c = self.const()
        if c is None:
            raise EngineError('float() of a symbolic value %s' % self)
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise EngineError('int() of a symbolic value %s' % self)
        return int(c)

    def __index__(self):
        c = self.const()
        if c is None or Fraction(c).denominator != 1:
            raise EngineError('index() of a symbolic value %s' % self)
        return int(c)

    def __round__(self, n=None):
        c = self.const()
        if c is None:
            if n is None:
                return self.rint()
            raise EngineError('round of symbolic')
        return const(round(Fraction(c), n)) if n is not None else round(Fraction(c))

    def __repr__(self):
        return to_str(self)

    __str__ = __repr__

    def __format__(self, spec):
        return to_str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

ZERO = R({})
ONE = R({(): 1})

def const(c):
    if c.__class__ is R:
        return c
    v = to_coef(c)
    if v is None:
        raise EngineError('not a real constant: %r' % (c,))
    return R({(): v}) if v else ZERO

def _lift(x):
    if x.__class__ is R:
        return x
    c = x.__class__
    if c is int:
        return R({(): x}) if x else ZERO
    v = to_coef(x)
    if v is None:
        return None
    return R({(): v}) if v else ZERO

def lift(x):
    r = _lift(x)
    if r is None:
        raise EngineError('cannot lift %r' % (x,))
    return r

def _single(a, e=1):
    return R({((a.id, e),): 1})

def var(name, is_int=False):
    return _single(_atom('var', (name, is_int), name, None, is_int))

def ivar(name):
    return var(name, True)

_fresh = [0]

def fresh(name, is_int=False):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), is_int)

def read(arr, idx, is_int=False):
    """Array-read atom arr[idx...] with symbolic index expressions."""
    idx = tuple(lift(i) for i in idx)
    key = (arr, tuple(i.key() for i in idx))
    name = '%s[%s]' % (arr, ','.join(to_str(i) for i in idx))
    return _single(_atom('read', key, name, (arr, idx), is_int))

def content(p):
    """Positive rational content & leading sign -> primitive polynomial."""
    num = 0
    den = 1
    for c in p.t.values():
        if c.__class__ is int:
            num = gcd(num, c)
        else:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
    lead = p.t[max(p.t)]
    c = Fraction(num, den)
    if lead < 0:
        c = -c
    return _norm(c)

def inverse(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise Undefined('division by zero')
        return const(Fraction(1) / Fraction(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        # monomial
        out = ONE
        neg = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'inv' and e > 0:
                out = out * (at.data ** e)
            else:
                neg.append((a, -e))
        r = R({tuple(neg): _norm(Fraction(1) / Fraction(c))})
        r = _reduce_roots(r)
        return r * out if out is not ONE else r
    # pull out the common monomial
    c = content(p)
    q = R({m: _norm(Fraction(v) / Fraction(c)) for m, v in p.t.items()})
    m0 = None
    for m in q.t:
        d = dict(m)
        if m0 is None:
            m0 = d
        else:
            m0 = {a: min(e, d[a]) for a, e in m0.items() if a in d}
        if not m0:
            break
    pref = ONE
    if m0:
        m0 = {a: e for a, e in m0.items() if e != 0
              and ATOMS[a].kind != 'inv'}
        if m0:
            mm = tuple(sorted((a, -e) for a, e in m0.items()))
            q = R({mono_mul(m, mm): v for m, v in q.t.items()})
            pref = R({mm: 1})
    if iszero(q):
        raise Undefined('division by an identically zero expression')
    DENOMS.append(q)
    a = _atom('inv', q.key(), '1/(%s)' % _short(q), q)
    return _single(a) * pref * const(Fraction(1) / Fraction(c))

DENOMS = []

def _short(q):
    return to_str(q) if len(q.t) < 12 else '<%d terms>' % len(q.t)

def rpow(b, c):
    """b ** c for a rational constant c."""
    if c.__class__ is int:
        if c < 0:
            return inverse(rpow(b, -c))
        if len(b.t) == 1:
            (m, k), = b.t.items()
            return _reduce_roots(R({tuple((a, e * c) for a, e in m) if c else (): k ** c}))
        r = ONE
        x = b
        n = c
        while n:
            if n & 1:
                r = r * x
            n >>= 1
            if n:
                x = x * x
        return r
    if c.denominator > 64:
        # e.g. 0.3333333333 literal; keep uninterpreted
        return fun('pow', b, const(c))
    r = root(b, c.denominator)
    return rpow(r, c.numerator)

def root(b, n):
    cb = b.const()
    if cb is not None:
        f = Fraction(cb)
        if f < 0:
            raise Undefined('root of a negative constant')
        if f == 0:
            return ZERO
        num, den = _iroot(f.numerator, n), _iroot(f.denominator, n)
        if num is not None and den is not None:
            return const(Fraction(num, den))
    # root of a monomial power of the same root: (t^n)^(1/n)
    if len(b.t) == 1:
        (m, k), = b.t.items()
        kc = _iroot_q(k, n)
        if kc is not None and all(ATOMS[a].kind == 'root' and e % n == 0 and False
                                  for a, e in m):
            pass
    c = content(b) if cb is None else 1
    pref = ONE
    q = b
    if cb is None:
        if c < 0:
            c = -c
        kc = _iroot_q(c, n)
        if kc is not None and c != 1:
            pref = const(kc)
            q = b * const(Fraction(1) / Fraction(c))
    a = _atom('root', (n, q.key()), '(%s)^(1/%d)' % (_short(q), n), (q, n))
    return _single(a) * pref

def _iroot_q(c, n):
    f = Fraction(c)
    if f <= 0:
        return None
    a, b = _iroot(f.numerator, n), _iroot(f.denominator, n)
    if a is None or b is None:
        return None
    return Fraction(a, b)

def _iroot(k, n):
    if k in (0, 1):
        return k
    r = int(round(k ** (1.0 / n)))
    for d in (-1, 0, 1):
        if (r + d) >= 0 and (r + d) ** n == k:
            return r + d
    return None

def rsqrt(x):
    return root(lift(x), 2)

def _reduce_roots(r):
    """t^k, k >= n -> base * t^(k-n) for root atoms (keeps terms small)."""
    hit = False
    for m in r.t:
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'root' and e >= at.data[1]:
                hit = True
                break
        if hit:
            break
    if not hit:
        return r
    out = ZERO
    for m, c in r.t.items():
        f = None
        rest = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'root' and e >= at.data[1]:
                q, n = at.data
                k = e // n
                f = (f if f is not None else ONE) * rpow(q, k)
                e = e - k * n
            if e:
                rest.append((a, e))
        t = R({tuple(rest): c})
        out = out + (t if f is None else t * f)
    return out

def fun(name, *args):
    args = tuple(lift(a) for a in args)
    if name in ('sin', 'cos', 'exp', 'log', 'tan', 'arccos', 'arctan'):
        c = args[0].const()
        if c is not None:
            if c == 0 and name in ('sin', 'tan', 'arctan'):
                return ZERO
            if c == 0 and name in ('cos', 'exp'):
                return ONE
            if c == 1 and name == 'log':
                return ZERO
        else:
            # odd/even normalisation
            if name in ('sin', 'cos') and content(args[0]) < 0:
                r = fun(name, -args[0])
                return r if name == 'cos' else -r
            if name in ('sin', 'cos') and len(args[0].t) == 1:
                (m_, c_), = args[0].t.items()
                if c_ == 1 and len(m_) == 1 and m_[0][1] == 1:
                    at_ = ATOMS[m_[0][0]]
                    if at_.kind == 'fun' and at_.data[0] == 'arctan2':
                        y_, x_ = at_.data[1]
                        r_ = root(x_ * x_ + y_ * y_, 2)
                        return (x_ if name == 'cos' else y_) * inverse(r_)
                    if at_.kind == 'fun' and at_.data[0] == 'arctan':
                        y_ = at_.data[1][0]
                        r_ = root(ONE + y_ * y_, 2)
                        return (ONE if name == 'cos' else y_) * inverse(r_)
                    if at_.kind == 'fun' and at_.data[0] in ('arccos', 'arcsin'):
                        y_ = at_.data[1][0]
                        if (name, at_.data[0]) in (('cos', 'arccos'), ('sin', 'arcsin')):
                            return y_
                        return root(ONE - y_ * y_, 2)
    if name == 'I<':
        # indicator of (arg < 0)
        c = cmp_('lt', args[0])
        if c is True or c is False:
            return ONE if c else ZERO
        args = (c.a,)
    elif name == 'I=':
        c = cmp_('eq', args[0])
        if c is True or c is False:
            return ONE if c else ZERO
        args = (c.a,)
    elif name == 'exp' and len(args[0].t) >= 1:
        # exp(c log x + r) = x^c exp(r)   (log x requires x > 0)
        fac, rest = None, {}
        for m, c in args[0].t.items():
            if (len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fun'
                    and ATOMS[m[0][0]].data[0] == 'log'):
                x = ATOMS[m[0][0]].data[1][0]
                c = Fraction(c)
                f = rpow(x if c.denominator == 1 else root(x, c.denominator),
                         c.numerator)
                fac = f if fac is None else fac * f
            else:
                rest[m] = c
        if fac is not None:
            return fac * fun('exp', R(rest)) if rest else fac
    key = (name, tuple(a.key() for a in args))
    nm_ = '%s(%s)' % (name, ','.join(_short(a) for a in args))
    return _single(_atom('fun', key, nm_, (name, args)))

def ufun(name, args, is_int=False):
    args = tuple(lift(a) for a in args)
    key = (name, tuple(a.key() for a in args))
    nm_ = '%s(%s)' % (name, ','.join(_short(a) for a in args))
    return _single(_atom('fun', key, nm_, (name, args), is_int))

# ---------------------------------------------------------------- sums
def bound_sum(v, lo, hi, body):
    """
    Sum_{v=lo}^{hi-1} body, with v an integer variable (R of one atom).
    Linear: distributes over the terms of `body`; factors free of v are pulled
    out.  The bound variable is alpha-normalised.
    """
    lo, hi = lift(lo), lift(hi)
    body = lift(body)
    (m, _), = v.t.items()
    vid = m[0][0]
    out = ZERO
    depth = 0
    for m, c in body.t.items():
        free, bnd = [], []
        for a, e in m:
            if a == vid or depends(a, vid):
                bnd.append((a, e))
            else:
                free.append((a, e))
        if not bnd:
            out = out + R({tuple(free): c}) * (hi - lo)
        else:
            inner = R({tuple(bnd): 1})
            d = 1 + max_bound_depth(inner)
            bv = var('#%d' % d, True)
            inner = subst(inner, {vid: bv})
            key = (lo.key(), hi.key(), inner.key(), d)
            a = _atom('sum', key, 'Sum[#%d=%s..%s](%s)' % (d, lo, hi, _short(inner)),
                      (bv, lo, hi, inner, d))
            out = out + R({tuple(free): c}) * _single(a)
    return out

def max_bound_depth(r):
    d = 0
    for a in r.atoms():
        at = ATOMS[a]
        if at.kind == 'sum':
            d = max(d, at.data[4])
        elif at.kind == 'read':
            for i in at.data[1]:
                d = max(d, max_bound_depth(i))
        elif at.kind == 'fun':
            for i in at.data[1]:
                d = max(d, max_bound_depth(i))
        elif at.kind == 'inv':
            d = max(d, max_bound_depth(at.data))
        elif at.kind == 'root':
            d = max(d, max_bound_depth(at.data[0]))
    return d

_DEP = {}

def depends(aid, vid):
    k = (aid, vid)
    r = _DEP.get(k)
    if r is not None:
        return r
    at = ATOMS[aid]
    r = aid == vid
    for s in children(at):
        if r:
            break
        for b in s.atoms():
            if depends(b, vid):
                r = True
                break
    _DEP[k] = r
    return r

def children(at):
    if at.kind == 'read' or at.kind == 'fun':
        return at.data[1]
    if at.kind == 'inv':
        return (at.data,)
    if at.kind == 'root':
        return (at.data[0],)
    if at.kind == 'sum':
        return (at.data[1], at.data[2], at.data[3])
    return ()

def rdepends(r, v):
    (m, _), = v.t.items()
    vid = m[0][0]
    return any(depends(a, vid) for a in r.atoms())

def subst(r, mp, _memo=None):
    """Substitute atoms (id -> R) everywhere."""
    r = lift(r)
    if not mp:
        return r
    memo = {} if _memo is None else _memo
    need = False
    for a in r.atoms():
        if _subst_atom(a, mp, memo) is not None:
            need = True
    if not need:
        return r
    out = ZERO
    for m, c in r.t.items():
        t = R({(): c})
        keep = []
        for a, e in m:
            s = _subst_atom(a, mp, memo)
            if s is None:
                keep.append((a, e))
            else:
                t = t * rpow(s, e)
        out = out + t * R({tuple(keep): 1})
    return out

def _subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    if a in memo:
        return memo[a]
    at = ATOMS[a]
    ch = children(at)
    if not ch:
        memo[a] = None
        return None
    new = [subst(s, mp, memo) for s in ch]
    if all(n is s or n.t == s.t for n, s in zip(new, ch)):
        memo[a] = None
        return None
    if at.kind == 'read':
        r = read(at.data[0], new, at.is_int)
    elif at.kind == 'fun':
        if at.is_int:
            r = ufun(at.data[0], new, True)
        else:
            r = fun(at.data[0], *new)
    elif at.kind == 'inv':
        r = inverse(new[0])
    elif at.kind == 'root':
        r = root(new[0], at.data[1])
    elif at.kind == 'sum':
        r = bound_sum(at.data[0], new[0], new[1], new[2])
    memo[a] = r
    return r

# ---------------------------------------------------------------- derivative
def diff(r, v, _memo=None):
    """d r / d v, v a single-atom R."""
    (m, _), = v.t.items()
    vid = m[0][0]
    memo = {} if _memo is None else _memo
    out = ZERO
    for m, c in lift(r).t.items():
        for i, (a, e) in enumerate(m):
            da = _diff_atom(a, vid, v, memo)
            if da is None:
                continue
            rest = list(m)
            if e == 1:
                del rest[i]
            else:
                rest[i] = (a, e - 1)
            out = out + R({tuple(rest): _norm(c * e)}) * da
    return out

def _diff_atom(a, vid, v, memo):
    if a == vid:
        return ONE
    if a in memo:
        return memo[a]
    at = ATOMS[a]
    r = None
    if at.kind in ('fun', 'inv', 'root', 'sum'):
        if at.kind == 'inv':
            d = diff(at.data, v, memo)
            r = -_single(at, 2) * d if d.t else None
        elif at.kind == 'root':
            q, n = at.data
            d = diff(q, v, memo)
            if d.t:
                r = d * const(Fraction(1, n)) * _single(at, 1 - n)
        elif at.kind == 'fun':
            name, args = at.data
            d = diff(args[0], v, memo)
            if len(args) > 1:
                for x in args[1:]:
                    if diff(x, v, memo).t:
                        raise EngineError('derivative of %s' % name)
            if d.t:
                x = args[0]
                if name == 'sin':
                    r = fun('cos', x) * d
                elif name == 'cos':
                    r = -fun('sin', x) * d
                elif name == 'exp':
                    r = _single(at) * d
                elif name == 'log':
                    r = d / x
                elif name == 'pow':
                    r = args[1] * fun('pow', x, args[1]) / x * d
                else:
                    raise EngineError('derivative of %s' % name)
        else:
            raise EngineError('derivative of a sum atom')
    memo[a] = r
    return r

# ---------------------------------------------------------------- zero test
def normalize(r, limit=400000):
    """
    A polynomial that is zero iff r is (given non-zero denominators), with
    inverse atoms cleared and root exponents reduced.
    """
    r = lift(r)
    for _ in range(10000):
        if not r.t:
            return r
        cand = -1
        for m in r.t:
            for a, e in m:
                k = ATOMS[a].kind
                if a > cand:
                    if k == 'inv':
                        cand = a
                    elif k == 'root' and not (0 <= e < ATOMS[a].data[1]):
                        cand = a
                    elif k == 'fun' and ATOMS[a].data[0] == 'sin' and e >= 2:
                        cand = a
                    elif k == 'fun' and ATOMS[a].data[0] in ('I<', 'I=') and e >= 2:
                        cand = a
        if cand < 0:
            break
        at = ATOMS[cand]
        groups = {}
        for m, c in r.t.items():
            e = 0
            rest = m
            for i, (a, ee) in enumerate(m):
                if a == cand:
                    e = ee
                    rest = m[:i] + m[i + 1:]
                    break
            groups.setdefault(e, {})[rest] = c
        if at.kind == 'inv':
            p = at.data
            kmax = max(groups)
            out = ZERO
            for e, t in groups.items():
                out = out + R(t) * rpow(p, kmax - e)
        elif at.kind == 'root':
            q, n = at.data
            qmin = min(e // n for e in groups)
            out = ZERO
            for e, t in groups.items():
                k, rr = divmod(e, n)
                term = R(t) * rpow(q, k - qmin)
                if rr:
                    term = term * R({((cand, rr),): 1})
                out = out + term
        elif at.data[0] in ('I<', 'I='):
            out = ZERO
            for e, t in groups.items():
                out = out + (R(t) * R({((cand, 1),): 1}) if e else R(t))
        else:
            cs = fun('cos', *at.data[1])
            out = ZERO
            for e, t in groups.items():
                if e < 0:
                    raise EngineError('negative power of sin')
                k, rr = divmod(e, 2)
                term = R(t) * rpow(ONE - cs * cs, k)
                if rr:
                    term = term * R({((cand, rr),): 1})
                out = out + term
        r = out
        if len(r.t) > limit:
            raise EngineError('normal form too large')
    return r

def iszero(r):
    r = lift(r)
    if not r.t:
        return True
    if r.is_const():
        return False
    if not any(ATOMS[a].kind in ('inv', 'root', 'fun') for a in r.atoms()):
        return False
    return not normalize(r).t

# ---------------------------------------------------------------- printing
def to_str(r):
    if not r.t:
        return '0'
    parts = []
    for m, c in sorted(r.t.items(), key=lambda x: (len(x[0]), x[0])):
        s = '*'.join(ATOMS[a].name + ('' if e == 1 else '^%d' % e)
                     for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        parts.append(s)
        if len(parts) > 60:
            parts.append('...')
            break
    return ' + '.join(parts).replace('+ -', '- ')

# ---------------------------------------------------------------- numeric
class NumEnv:
    """Evaluates R numerically given values of base atoms."""

    def __init__(self, fn, exact=False):
        self.fn = fn        # fn(atom) -> value
        self.memo = {}
        self.exact = exact

    def __call__(self, r):
        r = lift(r)
        out = 0
        for m, c in r.t.items():
            v = c if self.exact else float(c)
            for a, e in m:
                v = v * self.atom(a) ** e
            out = out + v
        return out

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        import math
        at = ATOMS[a]
        k = at.kind
        if k == 'inv':
            d = self(at.data)
            v = (Fraction(1) / Fraction(d)) if self.exact and isinstance(d, (int, Fraction)) else 1.0 / d
        elif k == 'root':
            d = self(at.data[0])
            v = float(d) ** (1.0 / at.data[1])
        elif k == 'fun' and at.data[0] in ('sin', 'cos', 'exp', 'log'):
            v = getattr(math, at.data[0])(self(at.data[1][0]))
        elif k == 'fun' and at.data[0] == 'I<':
            v = 1 if self(at.data[1][0]) < 0 else 0
        elif k == 'fun' and at.data[0] == 'I=':
            v = 1 if self(at.data[1][0]) == 0 else 0
        elif k == 'fun' and at.data[0] in ('arccos', 'arcsin', 'arctan'):
            v = getattr(math, 'a' + at.data[0][3:])(self(at.data[1][0]))
        elif k == 'fun' and at.data[0] in ('sinh', 'cosh', 'tanh', 'tan'):
            v = getattr(math, at.data[0])(self(at.data[1][0]))
        elif k == 'fun' and at.data[0] == 'arctan2':
            v = math.atan2(self(at.data[1][0]), self(at.data[1][1]))
        elif k == 'fun' and at.data[0] == 'pow':
            v = float(self(at.data[1][0])) ** float(self(at.data[1][1]))
        elif k == 'sum':
            bv, lo, hi, inner, d = at.data
            lo, hi = int(self(lo)), int(self(hi))
            (m, _), = bv.t.items()
            v = 0
            for i in range(lo, hi):
                sub = NumEnv(self.fn, self.exact)
                sub.memo = {}
                sub.bind = dict(getattr(self, 'bind', {}))
                sub.bind[m[0][0]] = i
                v = v + sub(inner)
        elif a in getattr(self, 'bind', {}):
            v = self.bind[a]
        elif k == 'read':
            v = self.fn(at, tuple(int(self(i)) for i in at.data[1]))
        else:
            v = self.fn(at, ())
        self.memo[a] = v
        return v

# ---------------------------------------------------------------- booleans
class SymBool:
    """op in lt, le, eq (arg R compared with 0), not, and, or, z3."""
    __slots__ = ('op', 'a', '_k')

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ('lt', 'le', 'eq'):
                self._k = (self.op, self.a.key())
            elif self.op == 'not':
                self._k = ('not', self.a.key())
            elif self.op in ('and', 'or'):
                self._k = (self.op, tuple(x.key() for x in self.a))
            else:
                self._k = (self.op, self.a)
        return self._k

    def __invert__(self):
        if self.op == 'not':
            return self.a
        if self.op == 'lt':
            return SymBool('le', -self.a)
        if self.op == 'le':
            return SymBool('lt', -self.a)
        return SymBool('not', self)

    def __and__(self, o):
        if o.__class__ is not SymBool:
            return self if o else False
        return SymBool('and', (self, o))
    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ is not SymBool:
            return True if o else self
        return SymBool('or', (self, o))
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __bool__(self):
        if CTX.path is None:
            raise SymBranchError('branch on a symbolic condition outside '
                                 'exploration: %s' % (self,))
        return CTX.path.branch(self)

    # numpy: let boolean-ish arithmetic fork
    def __int__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.op in ('lt', 'le', 'eq'):
            return '(%s %s 0)' % (_short(self.a),
                                  {'lt': '<', 'le': '<=', 'eq': '=='}[self.op])
        if self.op == 'not':
            return '!%s' % (self.a,)
        return '%s%s' % (self.op, self.a)

def _sq_sign(r):
    """Cheap sign: all monomials even powers w/ same-sign coefs."""
    s = 0
    for m, c in r.t.items():
        for a, e in m:
            at = ATOMS[a]
            if e % 2 and not (at.kind == 'root' and at.data[1] % 2 == 0) \
                    and not (at.kind == 'fun' and at.data[0] == 'exp'):
                return None
        sg = 1 if c > 0 else -1
        if s == 0:
            s = sg
        elif s != sg:
            return None
    return s

def cmp_(op, d):
    c = d.const()
    if c is not None:
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]
    s = _sq_sign(d)
    if s is not None:
        # d >= 0 (s=1) or d <= 0 (s=-1)
        if op == 'lt' and s > 0:
            return False
        if op == 'le' and s < 0:
            return True
        if () in d.t:
            # strictly signed
            if op == 'eq':
                return False
            if op == 'lt':
                return s < 0
            if op == 'le':
                return s < 0
    if any(ATOMS[a].kind in ('inv', 'root', 'fun') for a in d.atoms()):
        try:
            if iszero(d):
                return op != 'lt'
        except EngineError:
            pass
    if op == 'eq':
        k = content(d)
        if k != 1:
            d = d * const(Fraction(1) / Fraction(k))
    else:
        k = abs(content(d))
        if k != 1:
            d = d * const(Fraction(1) / Fraction(k))
    return SymBool(op, d)

def band(*a):
    out = True
    for x in a:
        if x.__class__ is SymBool:
            out = x if out is True else (out & x if out is not False else False)
        elif not x:
            return False
    return out

def bor(*a):
    out = False
    for x in a:
        if x.__class__ is SymBool:
            out = x if out is False else (out | x if out is not True else True)
        elif x:
            return True
    return out

def bnot(x):
    return ~x if x.__class__ is SymBool else (not x)

def implies(a, b):
    return bor(bnot(a), b)

def indicator(c):
    """0/1 valued function of a condition."""
    if c is True or c is False:
        return ONE if c else ZERO
    if c.op == 'lt':
        return fun('I<', c.a)
    if c.op == 'le':
        return ONE - fun('I<', -c.a)
    if c.op == 'eq':
        return fun('I=', c.a)
    if c.op == 'not':
        return ONE - indicator(c.a)
    if c.op == 'and':
        r = ONE
        for x in c.a:
            r = r * indicator(x)
        return r
    if c.op == 'or':
        r = ONE
        for x in c.a:
            r = r * (ONE - indicator(x))
        return ONE - r
    raise EngineError('indicator')

def ite(c, a, b):
    i = indicator(c)
    return i * lift(a) + (ONE - i) * lift(b)

def _read_atoms(r, out, seen):
    for a in lift(r).atoms():
        if a in seen:
            continue
        seen.add(a)
        at = ATOMS[a]
        if at.kind == 'read':
            out.append(at)
        for c in children(at):
            _read_atoms(c, out, seen)

def bool_terms(c):
    if c.op in ('lt', 'le', 'eq'):
        return [c.a]
    if c.op == 'not':
        return bool_terms(c.a)
    r = []
    for x in c.a:
        r += bool_terms(x)
    return r

def instances(c):
    """Instances of the universally quantified preconditions at the array
    reads of the condition."""
    out = []
    if not CTX.schemas:
        return out
    ats, seen = [], set()
    for t in bool_terms(c):
        _read_atoms(t, ats, seen)
    done = set()
    for at in ats:
        for name, fn in CTX.schemas:
            if at.data[0] == name:
                k = (name, at.data[1][0].key())
                if k not in done:
                    done.add(k)
                    x = fn(at.data[1][0])
                    if x.__class__ is SymBool:
                        out.append(x)
    return out

def evalb(b, env):
    if b.__class__ is not SymBool:
        return bool(b)
    if b.op == 'lt':
        return env(b.a) < 0
    if b.op == 'le':
        return env(b.a) <= 0
    if b.op == 'eq':
        return env(b.a) == 0
    if b.op == 'not':
        return not evalb(b.a, env)
    if b.op == 'and':
        return all(evalb(x, env) for x in b.a)
    if b.op == 'or':
        return any(evalb(x, env) for x in b.a)
    raise EngineError('evalb')

# ---------------------------------------------------------------- z3
_Z3 = None

def z3mod():
    global _Z3
    if _Z3 is None:
        try:
            import z3
        except ImportError:
            p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
            if p not in sys.path:
                sys.path.append(p)
            import z3
        _Z3 = z3
    return _Z3

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'z3_unknown': 0}

class Z3Tr:
    def __init__(self):
        self.z3 = z3mod()
        self.memo = {}
        self.axioms = []
        self.funs = {}

    def num(self, c):
        z3 = self.z3
        if c.__class__ is int:
            return z3.RealVal(c)
        return z3.Q(c.numerator, c.denominator)

    def r(self, r):
        z3 = self.z3
        r = lift(r)
        allint = all(self._intatom(a) for a in r.atoms()) and \
            all(c.__class__ is int for c in r.t.values()) and \
            all(e > 0 for m in r.t for a, e in m)
        terms = []
        for m, c in r.t.items():
            t = z3.IntVal(c) if allint else self.num(c)
            f = None
            for a, e in m:
                x = self.atom(a)
                if not allint and z3.is_int(x):
                    x = z3.ToReal(x)
                if e < 0:
                    x = self.inv_of(a, x)
                    e = -e
                for _ in range(e):
                    f = x if f is None else f * x
            if f is not None:
                t = f if c == 1 else t * f
            terms.append(t)
        if not terms:
            return z3.IntVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def _intatom(self, a):
        return ATOMS[a].is_int

    def inv_of(self, a, x):
        k = ('inv', a)
        if k not in self.memo:
            v = self.z3.Real('inv!%d' % a)
            self.axioms.append(v * x == 1)
            self.memo[k] = v
        return self.memo[k]

    def atom(self, a):
        z3 = self.z3
        if a in self.memo:
            return self.memo[a]
        at = ATOMS[a]
        if at.kind == 'inv':
            v = z3.Real('i!%d' % a)
            self.memo[a] = v
            d = self.r(at.data)
            self.axioms.append(v * d == 1)
        elif at.kind == 'root':
            v = z3.Real('rt!%d' % a)
            self.memo[a] = v
            q, n = at.data
            p = v
            for _ in range(n - 1):
                p = p * v
            self.axioms.append(p == self.r(q))
            if n % 2 == 0:
                self.axioms.append(v >= 0)
            else:
                self.axioms.append((v > 0) == (self.r(q) > 0))
        elif at.kind == 'fun' and at.data[0] in ('I<', 'I='):
            x = self.r(at.data[1][0])
            v = z3.If(x < 0 if at.data[0] == 'I<' else x == 0,
                      z3.RealVal(1), z3.RealVal(0))
            self.memo[a] = v
        elif at.kind in ('read', 'fun') and at.data[1]:
            name = at.data[0]
            args = [self.r(x) for x in at.data[1]]
            sorts = tuple(x.sort() for x in args)
            rs = z3.IntSort() if at.is_int else z3.RealSort()
            k = ('F', at.kind, name, tuple(str(s) for s in sorts), at.is_int)
            f = self.funs.get(k)
            if f is None:
                f = z3.Function('%s_%s_%d' % (at.kind, name, len(self.funs)),
                                *(list(sorts) + [rs]))
                self.funs[k] = f
            v = f(*args)
            self.memo[a] = v
            if at.kind == 'fun' and name == 'exp':
                self.axioms.append(v > 0)
            if at.kind == 'fun' and name in ('sin', 'cos'):
                o = 'cos' if name == 'sin' else 'sin'
                ov = self.atom(list(fun(o, *at.data[1]).t)[0][0][0])
                self.axioms.append(v * v + ov * ov == 1)
        else:
            v = (z3.Int if at.is_int else z3.Real)('v!%d' % a)
            self.memo[a] = v
        return self.memo[a]

    def b(self, b):
        z3 = self.z3
        if b is True or b is False:
            return z3.BoolVal(b)
        if b.__class__ is not SymBool:
            if b.__class__.__name__ in ('bool', 'bool_'):
                return z3.BoolVal(bool(b))
            return b
        if b.op == 'lt':
            return self.r(b.a) < 0
        if b.op == 'le':
            return self.r(b.a) <= 0
        if b.op == 'eq':
            return self.r(b.a) == 0
        if b.op == 'not':
            return z3.Not(self.b(b.a))
        if b.op == 'and':
            return z3.And([self.b(x) for x in b.a])
        if b.op == 'or':
            return z3.Or([self.b(x) for x in b.a])
        if b.op == 'z3':
            return b.a
        raise EngineError('z3 bool %s' % b.op)

def z3_check(conds, timeout_ms=3000, want_model=False):
    """'sat' | 'unsat' | 'unknown' (+ model getter)."""
    import time
    z3 = z3mod()
    tr = Z3Tr()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    zs = [tr.b(c) for c in conds]
    for z in zs:
        s.add(z)
    for z in tr.axioms:
        s.add(z)
    t0 = time.time()
    r = s.check()
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.unknown:
        STATS['z3_unknown'] += 1
    res = str(r)
    if not want_model:
        return res
    model = None
    if res == 'sat':
        m = s.model()
        model = {}
        for a, v in tr.memo.items():
            if isinstance(a, int) and ATOMS[a].kind in ('var', 'read', 'fun'):
                val = m.eval(v, model_completion=True)
                try:
                    if z3.is_int_value(val):
                        model[a] = val.as_long()
                    elif z3.is_rational_value(val):
                        model[a] = Fraction(val.numerator_as_long(),
                                            val.denominator_as_long())
                    elif z3.is_algebraic_value(val):
                        ap = val.approx(20)
                        model[a] = float(Fraction(ap.numerator_as_long(),
                                                  ap.denominator_as_long()))
                except Exception:
                    pass
    return res, model

# ---------------------------------------------------------------- paths
class _Ctx:
    path = None
    schemas = []

CTX = _Ctx()

class Infeasible(Exception):
    pass

class Path:
    def __init__(self, prefix, assumptions, feas_timeout):
        self.prefix = prefix
        self.dec = []           # (value, has_alternative)
        self.pc = list(assumptions)
        self.known = {}
        for c in self.pc:
            self._learn(c, True)
        self.pos = 0
        self.feas_timeout = feas_timeout

    def _learn(self, c, v):
        if c.__class__ is not SymBool:
            return
        if c.op == 'and' and v:
            for x in c.a:
                self._learn(x, True)
        self.known[c.key()] = v
        n = ~c
        self.known[n.key()] = not v
        if c.op == 'eq' and v:
            for op in ('le',):
                self.known[(op, c.a.key())] = True
                self.known[(op, (-c.a).key())] = True
            self.known[('lt', c.a.key())] = False
            self.known[('lt', (-c.a).key())] = False
        if c.op == 'lt' and v:
            self.known[('le', c.a.key())] = True
            self.known[('eq', c.a.key())] = False
            self.known[('eq', (-c.a).key())] = False
            self.known[('lt', (-c.a).key())] = False

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if c.__class__ is not SymBool:
            if not c:
                raise Infeasible()
            return
        k = self.known.get(c.key())
        if k is False:
            raise Infeasible()
        if k is True:
            return
        self.pc.append(c)
        self._learn(c, True)

    def branch(self, c):
        k = self.known.get(c.key())
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            v, alt = self.prefix[self.pos]
            self.pos += 1
            self.dec.append((v, alt))
        else:
            t = z3_check(self.pc + [c], self.feas_timeout)
            if t == 'unsat':
                v, alt = False, False
            else:
                f = z3_check(self.pc + [~c], self.feas_timeout)
                v, alt = True, f != 'unsat'
            self.pos += 1
            self.dec.append((v, alt))
        cc = c if v else ~c
        self.pc.append(cc)
        self._learn(c, v)
        return v

def assume(c):
    CTX.path.assume(c)

class PathResult:
    def __init__(self, value, exc, path):
        self.value = value
        self.exc = exc
        self.path = path
        self.pc = path.pc

def explore(fn, assumptions=(), max_paths=4000, feas_timeout=2000):
    """
    Run fn() on every feasible path; yields PathResult.  EngineErrors
    propagate; other exceptions are captured as part of the path result.
    """
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        p = Path(prefix, assumptions, feas_timeout)
        old = CTX.path
        CTX.path = p
        exc = None
        val = None
        try:
            val = fn()
        except Infeasible:
            CTX.path = old
            _push(work, prefix, p)
            continue
        except EngineError:
            CTX.path = old
            raise
        except RecursionError:
            CTX.path = old
            raise EngineError('recursion')
        except Exception as e:
            exc = e
        finally:
            CTX.path = old
        n += 1
        if n > max_paths:
            raise EngineError('too many paths')
        yield PathResult(val, exc, p)
        _push(work, prefix, p)

def _push(work, prefix, p):
    for i in range(len(prefix), len(p.dec)):
        v, alt = p.dec[i]
        if alt:
            work.append([d for d in p.dec[:i]] + [(not v, False)])

# ---------------------------------------------------------------- equality under a path condition
def _linear_subs(pc):
    """Substitutions x := e from equalities of the path condition."""
    mp = {}
    eqs = [c.a for c in pc if c.__class__ is SymBool and c.op == 'eq']
    for c in pc:
        if c.__class__ is SymBool and c.op == 'and':
            eqs += [x.a for x in c.a if x.op == 'eq']
    for q in eqs:
        q = subst(q, mp)
        if not q.t:
            continue
        # find an atom occurring linearly and alone in its monomial
        best = None
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('var', 'read'):
                a = m[0][0]
                cnt = sum(1 for mm in q.t for (aa, e) in mm
                          if aa == a or depends(aa, a))
                if cnt == 1:
                    best = (a, c, m)
                    break
        if best is None:
            continue
        a, c, m = best
        rest = R({mm: v for mm, v in q.t.items() if mm != m})
        e = rest * const(Fraction(-1) / Fraction(c))
        mp = {k: subst(v, {a: e}) for k, v in mp.items()}
        mp[a] = e
    return mp


def _unfaithful(rs):
    """Do the terms contain atoms that z3 only sees as unknowns (sums,
    transcendental functions)?  Then 'sat' does not mean a real violation."""
    seen = set()
    def go(r):
        for a in lift(r).atoms():
            if a in seen:
                continue
            seen.add(a)
            at = ATOMS[a]
            if at.kind == 'sum':
                return True
            if at.kind == 'fun' and at.data[0] not in ('I<', 'I='):
                return True
            if any(go(c) for c in children(at)):
                return True
        return False
    return any(go(r) for r in rs)

class _Sampler:
    def __init__(self, seed, model=None):
        self.seed = seed
        self.model = model or {}
        self.vals = {}

    def __call__(self, at, idx):
        import random
        if not idx and at.id in self.model:
            return self.model[at.id]
        if at.kind == 'fun':
            idx = tuple(round(float(self.env(x)), 9) for x in at.data[1])
        k = (at.kind, at.data[0] if at.kind in ('read', 'fun') else at.name, idx)
        v = self.vals.get(k)
        if v is None:
            rg = random.Random('%s|%s' % (self.seed, k))
            if at.is_int:
                v = rg.randrange(0, 5) if self.seed % 2 else rg.randrange(1, 4)
            elif self.seed % 3 == 0:
                v = rg.uniform(0.2, 1.7)
            elif self.seed % 3 == 1:
                v = rg.uniform(-1.5, 1.5)
            else:
                v = rg.uniform(0.05, 0.6)
            self.vals[k] = v
        return v

def _env(seed, model=None):
    sm = _Sampler(seed, model)
    env = NumEnv(sm)
    sm.env = env
    return env

def sample(pc, test, need=4, tries=240, model=None):
    """
    Evaluate `test(env)` at numeric points satisfying pc.
    -> (number of points, values dict of a violating point or None)
    """
    import time
    t0 = time.time()
    mp = _linear_subs(pc)
    pc = [c for c in pc if c.__class__ is SymBool]
    pcs = [_bsubst(c, mp) for c in pc]
    ok = 0
    start = 0 if model is None else -1
    for sd in range(start, tries):
        env = _env(sd + 1, model if sd < 0 else None)
        try:
            if not all(evalb(c, env) for c in (pc if sd < 0 else pcs)):
                continue
            v = test(env, {} if sd < 0 else mp)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError, EngineError):
            continue
        if v is None:
            continue
        ok += 1
        if v:
            return ok, {str(k): val for k, val in list(env.fn.vals.items())[:12]}
        if ok >= need or time.time() - t0 > 20:
            break
    return ok, None

def _bsubst(c, mp):
    if not mp or c.__class__ is not SymBool:
        return c
    if c.op in ('lt', 'le', 'eq'):
        d = subst(c.a, mp)
        if d.is_const():
            k = d.const()
            return {'lt': k < 0, 'le': k <= 0, 'eq': k == 0}[c.op]
        return SymBool(c.op, d)
    if c.op == 'not':
        d = _bsubst(c.a, mp)
        return (not d) if d.__class__ is bool else ~d
    if c.op in ('and', 'or'):
        xs = [_bsubst(x, mp) for x in c.a]
        if c.op == 'and':
            if any(x is False for x in xs):
                return False
            xs = [x for x in xs if x is not True]
            return SymBool('and', tuple(xs)) if xs else True
        if any(x is True for x in xs):
            return True
        xs = [x for x in xs if x is not False]
        return SymBool('or', tuple(xs)) if xs else False
    return c

def _nonzero_test(r):
    def test(env, mp):
        rr = subst(r, mp)
        tot, mag = 0.0, 0.0
        for m, c in rr.t.items():
            v = float(c)
            for a, e in m:
                v = v * env.atom(a) ** e
            tot += v
            mag += abs(v)
        if tot != tot or mag == float('inf'):
            return None
        return abs(tot) > 1e-7 * mag + 1e-13
    return test

def prove_zero(r, pc=(), timeout_ms=8000):
    st, how = prove_zero_(r, pc, timeout_ms)
    if st != 'refuted' or lift(r).is_const():
        return st, how
    r = lift(r)
    try:
        n, bad = sample(pc, _nonzero_test(r), model=how if how.__class__ is dict else None)
    except EngineError:
        n, bad = 0, None
    if bad is not None:
        return 'refuted', bad
    if n >= 2:
        return 'unknown', 'normal forms differ, %d sample points agree' % n
    if _unfaithful([r]):
        return 'unknown', 'not confirmed numerically'
    return st, how

def prove_zero_(r, pc=(), timeout_ms=8000):
    """
    -> ('proved', how) | ('refuted', model or None) | ('unknown', why)
    """
    r = lift(r)
    if not r.t:
        return 'proved', 'normal-form'
    if not r.is_const():
        try:
            if iszero(r):
                return 'proved', 'normal-form'
        except EngineError as e:
            return 'unknown', str(e)
    mp = _linear_subs(pc)
    if mp:
        r2 = subst(r, mp)
        try:
            if iszero(r2):
                return 'proved', 'normal-form+eq'
        except (EngineError, Undefined) as e:
            pass
    if not pc:
        return 'refuted', None
    res, model = z3_check(list(pc) + [SymBool('not', SymBool('eq', r))] if not r.is_const() else list(pc),
                          timeout_ms, want_model=True)
    if res == 'unsat':
        return 'proved', 'z3'
    if res == 'sat':
        return 'refuted', model
    return 'unknown', 'z3 unknown'

def prove(c, pc=(), timeout_ms=8000):
    st, how = prove_(c, pc, timeout_ms)
    if st != 'refuted' or c.__class__ is not SymBool or c.op == 'eq':
        return st, how
    ts = bool_terms(c)
    for p in pc:
        if p.__class__ is SymBool:
            ts = ts + bool_terms(p)
    if not _unfaithful(ts):
        return st, how
    def test(env, mp):
        return not evalb(_bsubst(c, mp), env)
    n, bad = sample(pc, test, need=40, tries=400,
                    model=how if how.__class__ is dict else None)
    if bad is not None:
        return 'refuted', bad
    return 'unknown', 'not confirmed numerically (%d sample points agree)' % n

def prove_(c, pc=(), timeout_ms=8000):
    if c is True or (c.__class__ is not SymBool and bool(c)):
        return 'proved', 'trivial'
    if c.__class__ is SymBool and c.op == 'eq':
        return prove_zero(c.a, pc, timeout_ms)
    if c is False or c.__class__ is not SymBool:
        res, model = z3_check(list(pc), timeout_ms, want_model=True)
        if res == 'unsat':
            return 'proved', 'z3-infeasible'
        return ('refuted', model) if res == 'sat' else ('unknown', 'z3 unknown')
    res, model = z3_check(list(pc) + [~c], timeout_ms, want_model=True)
    if res == 'unsat':
        return 'proved', 'z3'
    if res == 'sat':
        return 'refuted', model
    return 'unknown', 'z3 unknown'
