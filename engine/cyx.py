"""
Cython modules of sfepy, translated on every run.

The current .pyx (and .pxd) text is parsed by Cython's own parser and printed
as Python over the memory model of the C executor (csym): pointers, address-of,
C structs and external C functions keep their meaning, the external functions
being the current C sources.  Dropped: C type widths of local integers other
than the conversion on assignment, the GIL, decorators of the cython module.
Conversions check what Cython checks (None, dtype, number of dimensions).
"""
import builtins, io, os, sys, types
from fractions import Fraction
import numpy as np

from . import cmem, csym, pyworld
from .cmem import P, Mem, NdMem, SObj, FieldMem, RawAlloc, MemError, padd
from .sym import R, EngineError, lift, SymBool

C = 'sfepy/discrete/common/extmods/'
C_FILES = [C + 'fmfield.c', C + 'geommech.c', C + 'sort.c', C + 'mesh.c', C + 'meshutils.c',
           C + 'refcoors.c', C + 'geomtrans.c',
           # nurbs.c and lagrange.c both define get_xi_dist() (separate shared libraries)
           'sfepy/discrete/iga/extmods/nurbs.c', 'sfepy/discrete/fem/extmods/lagrange.c',
           'sfepy/discrete/fem/extmods/lobatto.c', 'sfepy/discrete/fem/extmods/lobatto1d.c',
           'sfepy/mechanics/extmods/contres.c', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pyxmacros.c')]
T = 'sfepy/terms/extmods/'
T_FILES = [T + f for f in ('terms_basic.c', 'terms_diffusion.c', 'terms_dot.c', 'terms_elastic.c',
                           'terms_navier_stokes.c', 'terms_adj_navier_stokes.c', 'terms_biot.c',
                           'terms_electric.c', 'terms_hyperelastic.c', 'terms_op.c',
                           'terms_piezo.c', 'terms_surface.c', 'terms_volume.c', 'form_sdcc.c')]
_prog = {}

def prog():
    """The C program behind the extension modules."""
    p = _prog.get('p')
    if p is None:
        p = _prog['p'] = csym.Prog(C_FILES, repo=pyworld.REPO)
    return p

def use_terms():
    if 'p' in _prog:
        raise EngineError('load the term module first')
    _prog['p'] = csym.Prog(C_FILES + T_FILES, repo=pyworld.REPO)

# ------------------------------------------------------------ runtime
INTS = {'int32': (4, True), 'uint32': (4, False), 'int': (4, True), 'uint': (4, False),
        'size_t': (8, False), 'long': (8, True), 'char': (1, True), 'npy_intp': (8, True),
        'bint': (4, True), 'short': (2, True), 'int64': (8, True)}
FLTS = {'float64', 'double', 'float'}

def c_int(v, name='int32'):
    """Conversion of a value to a C integer."""
    c = v.__class__
    if c is builtins.int:
        r = v
    elif c is builtins.bool:
        r = builtins.int(v)
    elif c is R:
        k = v.const()
        if k is None:
            return v
        r = builtins.int(k)
    elif c is Fraction or isinstance(v, builtins.float):
        r = builtins.int(v)          # through __int__, as the compiled module does
    elif isinstance(v, np.generic) and v.dtype.kind in 'iub':
        r = builtins.int(v)
    elif c is SymBool:
        r = builtins.int(builtins.bool(v))
    elif v is cmem.UNINIT or v is None and name == 'ptr':
        return v
    elif isinstance(v, np.ndarray) and v.size == 1 and v.dtype.kind in 'iub':
        r = builtins.int(v.reshape(-1)[0])
    else:
        raise TypeError("an integer is required (got %s)" % type(v).__name__)
    if name == 'bint':
        return builtins.int(builtins.bool(r))
    n, s = INTS[name]
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)
    if r < lo or r > hi:
        if not s:
            if r < 0 and c is builtins.int:
                r &= hi
                return r
        raise OverflowError('value too large to convert to %s' % name)
    return r

def c_flt(v, name=None):
    if isinstance(v, np.ndarray) and v.size == 1:
        v = v.reshape(-1)[0]
    if v.__class__ is SymBool:
        v = builtins.int(builtins.bool(v))
    if v is cmem.UNINIT:
        return v
    if not pyworld.isnum(v):
        raise TypeError('must be real number, not %s' % type(v).__name__)
    if EXACT[0]:
        return pyworld.ex(v)
    return v

def c_cint(v, name):
    """<int32> cast."""
    if v.__class__ is Fraction:
        v = builtins.int(v)
    elif isinstance(v, builtins.float):
        v = builtins.int(v)
    elif v.__class__ is R and v.const() is None:
        return v
    n, s = INTS[name]
    v = builtins.int(v) & ((1 << (8 * n)) - 1)
    if s and v >= 1 << (8 * n - 1):
        v -= 1 << (8 * n)
    return v

EXACT = [True]
_KIND = {'float64': 'f', 'double': 'f', 'int32': np.dtype('int32'), 'uint32': np.dtype('uint32'),
         'complex128': 'c', 'int': np.dtype('int32'), 'npy_intp': np.dtype('int64')}

def c_buf(a, dt, nd, none_ok, mode):
    """Conversion to a typed memoryview / buffer: what Cython checks."""
    if a is None:
        if not none_ok:
            raise TypeError('Argument must not be None')
        return None
    if not isinstance(a, np.ndarray):
        raise TypeError('a buffer is required (got %s)' % type(a).__name__)
    if a.ndim != nd:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, a.ndim))
    k = _KIND.get(dt)
    if k == 'f' or k == 'c':
        if a.dtype.kind not in 'Of' and not (k == 'c' and a.dtype.kind == 'c'):
            raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (dt, a.dtype))
    elif k is not None and a.dtype.kind != 'O' and a.dtype != k:
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (dt, a.dtype))
    if mode == 'c' and not a.flags.c_contiguous:
        raise ValueError('ndarray is not C-contiguous')
    if mode == 'f' and not a.flags.f_contiguous:
        raise ValueError('ndarray is not Fortran contiguous')
    return a

def c_nd(a, none_ok):
    if a is None and none_ok:
        return a
    if not isinstance(a, np.ndarray):
        raise TypeError('Argument has incorrect type (expected ndarray, got %s)' % type(a).__name__)
    return a

def c_obj(a, cls, none_ok):
    if a is None:
        if none_ok:
            return a
        raise TypeError('Argument must not be None')
    if not isinstance(a, cls):
        raise TypeError('Argument has incorrect type (expected %s, got %s)'
                        % (cls.__name__, type(a).__name__))
    return a

def c_ucast(a):
    return a

class _Mems:
    """One memory object per array buffer (so that pointers compare)."""
    cache = {}

def mem_of(arr):
    if arr.flags.c_contiguous:
        return NdMem(arr)
    if arr.flags.f_contiguous:
        return NdMem(arr.T)
    raise EngineError('buffer of a strided array')

def c_addr(b, ix):
    """&b[ix]"""
    if b.__class__ is P:
        if len(ix) != 1:
            raise EngineError('pointer index')
        return padd(b, ix[0])
    if isinstance(b, np.ndarray):
        if len(ix) != b.ndim:
            raise EngineError('address of a slice')
        f = not b.flags.c_contiguous
        o = 0
        sh = b.shape
        idx = list(zip(ix, sh))
        if f:
            idx = idx[::-1]
        for i, n in idx:
            if i.__class__ is builtins.int and i < 0:
                i += n
            o = o * n + i
        return P(mem_of(b), o)
    if b is None:
        raise MemError('address of an element of None')
    raise EngineError('address of an element of %s' % type(b).__name__)

def c_addr_field(o, f):
    """&(o.f) for a struct pointer or struct value."""
    s = o
    if o.__class__ is P:
        s = o._m.get(o._o)
    v = getattr(s, f)
    if v.__class__ is Mem:
        return P(v, 0)
    if v.__class__ is SObj:
        return P(Mem([v]), 0)
    return P(FieldMem(s, f), 0)

def c_castp(v, t):
    if v.__class__ is RawAlloc:
        return prog().castp(v, ctype(t))
    if v.__class__ is Mem:
        return P(v, 0)
    if isinstance(v, Ext):
        return v.__self_fn__()
    return v

def ctype(name):
    p = prog()
    if name.endswith('*'):
        return ('p', ctype(name[:-1].strip()))
    if name in INTS:
        n, s = INTS[name]
        return ('i', n, s)
    if name in FLTS:
        return csym.DBL
    if name == 'void':
        return csym.VOID
    t = p.typedefs.get(name)
    if t is None:
        raise EngineError('unknown C type %s' % name)
    return t

def c_new(t, n=None, zero=False):
    """Storage of a C array (pointer to its first element)."""
    ty = ctype(t)
    return P(Mem([prog().default(ty, zero) for _ in range(1 if n is None else n)], t), 0)

def c_sizeof(t):
    return prog().sizeof(ctype(t))

class CError(RuntimeError):
    """An error set by the C code (errput / errset)."""

def _arg(v):
    if v.__class__ is builtins.bool:
        return builtins.int(v)
    if isinstance(v, np.generic):
        return v.item()
    if v.__class__ is Mem:
        return P(v, 0)
    if v.__class__ is Ext:
        return v.__self_fn__()
    return v

class Ext:
    """External C function."""

    def __init__(self, cname, params):
        self.cname = cname
        self.params = params

    def __self_fn__(self):
        return prog().fn(self.cname)

    def __call__(self, *a):
        p = prog()
        f = p.fn(self.cname)
        G = p.env['G']
        before = G.g_error           # stays set until it is cleared
        a = [_arg(x) for x in a]
        for i, t in enumerate(self.params[:len(a)]):
            if t in INTS:
                a[i] = c_int(a[i], t)
            elif t in FLTS:
                a[i] = c_flt(a[i])
        try:
            r = f(*a)
        except MemError:
            if G.g_error <= before:
                raise
            r = None                 # garbage computed after an error
        if G.g_error > before:
            p.msgs = []
            raise CError('C error')
        return r

def c_call(f, *a):
    """Call through a pointer or a name."""
    if isinstance(f, Ext):
        return f(*a)
    if isinstance(f, types.FunctionType) and f.__name__.startswith('c_') and f.__globals__ is prog().env:
        return Ext.__call__(_Fn(f), *a)
    return f(*a)

class _Fn(Ext):
    def __init__(self, f):
        self.f = f
        self.params = ()
        self.cname = f.__name__[2:]

def c_from_data(nd, shape, dt, ptr):
    """PyArray_SimpleNewFromData: an array over C memory."""
    n = builtins.int(shape[0])
    if nd != 1:
        raise EngineError('SimpleNewFromData nd')
    if ptr is None:
        if n:
            raise MemError('array over a null pointer')
        return np.empty(0, dtype=dt)
    m = ptr._m
    o = builtins.int(ptr._o)
    if isinstance(m, NdMem):
        return m.a[o:o + n]
    arr = np.array([0 if x is cmem.UNINIT else x for x in m.a], dtype=dt)
    m.a = arr
    m.__class__ = NdMem
    return arr[o:o + n]

class Npy:
    NPY_UINT32 = np.uint32
    NPY_INT32 = np.int32
    NPY_FLOAT64 = object
    PyArray_SimpleNewFromData = staticmethod(c_from_data)

class NpModule:
    """cimport numpy / import numpy"""

    def __getattr__(self, k):
        if k in ('PyArray_SimpleNewFromData', 'NPY_UINT32', 'NPY_INT32', 'NPY_FLOAT64'):
            return getattr(Npy, k)
        if k == 'import_array':
            return lambda: None
        return getattr(np if not EXACT[0] else pyworld.NP, k)

class CCell:
    """A global C variable."""
    def __init__(self, name):
        self.name = name

    def get(self):
        return getattr(prog().env['G'], self.name)

def c_global(name):
    return getattr(prog().env['G'], name)

class _Empty:
    pass

def c_memcpy(d, s, nb):
    e = 4
    m = d._m
    if isinstance(m, NdMem):
        e = m.a.dtype.itemsize
    for i in range(builtins.int(nb) // e):
        cmem.stx(d, i, cmem.ldx(s, i))

RT = {k: v for k, v in globals().items() if k.startswith('c_')}
RT.update(Ext=Ext, P_=P, Mem_=Mem)

# ------------------------------------------------------------ the printer
class Tp:
    """Declared type: kind in obj, int, flt, ptr, struct, mv, nd, cls, arr, fn."""
    def __init__(self, kind, name=None, sub=None, n=None, nd=0, mode=None):
        self.kind, self.name, self.sub, self.n, self.nd, self.mode = kind, name, sub, n, nd, mode

    def cname(self):
        if self.kind == 'ptr':
            return self.sub.cname() + '*'
        return self.name

OBJ = Tp('obj')

class Pr:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.out = []
        self.ind = 0
        self.consts = {}
        self.types = {}          # global names with a C type
        self.structs = set()
        self.classes = {}
        self.externs = {}
        self.globals_c = set()
        self.scopes = []
        self.modalias = {}
        self.tmp = 0

    # -- output
    def w(self, s, line=None):
        self.out.append('    ' * self.ind + s)

    # -- types
    def base(self, t):
        k = type(t).__name__
        if k == 'CSimpleBaseTypeNode':
            n = t.name
            if n is None:
                return OBJ
            mp = list(t.module_path or [])
            if n in INTS and n not in ('float',) or n in INTS:
                return Tp('int', n) if not (n == 'int' and not getattr(t, 'is_basic_c_type', 1) and False) else OBJ
            if n in FLTS:
                return Tp('flt', n)
            if n == 'complex128':
                return Tp('cplx', n)
            if n == 'void':
                return Tp('void', 'void')
            if n == 'ndarray':
                return Tp('nd')
            if n in ('list', 'dict', 'object', 'str', 'tuple'):
                return OBJ
            if n in self.classes:
                return Tp('cls', '.'.join(mp + [n]) if mp else n)
            if mp:
                return Tp('cls', '.'.join(mp + [n]))
            if n in self.structs:
                return Tp('struct', n)
            if n in ('FILE',):
                return Tp('void', 'void')
            return OBJ
        if k == 'TemplatedTypeNode':
            b = t.base_type_node
            args = [a for a in t.positional_args]
            nd, mode = 1, None
            if t.keyword_args is not None:
                for it in t.keyword_args.key_value_pairs:
                    if it.key.value == 'ndim':
                        nd = builtins.int(it.value.value)
                    elif it.key.value == 'mode':
                        mode = {'c': 'c', 'fortran': 'f'}[str(getattr(it.value, 'value', 'c'))]
            if getattr(b, 'name', None) == 'ndarray':
                a0 = args[0]
                dt = getattr(a0, 'name', None) or getattr(a0, 'attribute', None)
                return Tp('buf', dt, nd=nd, mode=mode)
            # T[n]: a C array
            n = args[0]
            return Tp('arr', sub=self.base(b), n=self.cint(n))
        if k == 'MemoryViewSliceTypeNode':
            nd = len(t.axes)
            c = any(type(a.step).__name__ == 'IntNode' for a in t.axes)
            b = self.base(t.base_type_node)
            last = type(t.axes[-1].step).__name__ == 'IntNode'
            return Tp('buf', b.name, nd=nd, mode=('c' if last else 'f') if c else None)
        if k == 'CComplexBaseTypeNode':
            _, tp = self.decl(t.declarator, self.base(t.base_type))
            return tp
        raise EngineError('%s: Cython type %s' % (self.path, k))

    def cint(self, n):
        if type(n).__name__ == 'IntNode':
            return builtins.int(n.value.rstrip('uUlL'))
        raise EngineError('C array dimension')

    def decl(self, d, b):
        """(name, type) of a declarator."""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, b
        if k == 'CPtrDeclaratorNode':
            return self.decl(d.base, Tp('ptr', sub=b))
        if k == 'CArrayDeclaratorNode':
            n = self.cint(d.dimension) if d.dimension is not None else None
            return self.decl(d.base, Tp('arr', sub=b, n=n))
        if k == 'CFuncDeclaratorNode':
            return self.decl(d.base, Tp('fn', sub=b))
        raise EngineError('declarator %s' % k)

    def dname(self, d):
        while type(d).__name__ != 'CNameDeclaratorNode':
            d = d.base
        return d

    def conv(self, v, tp, none_ok=True):
        k = tp.kind
        if k == 'int':
            return 'c_int(%s, %r)' % (v, tp.name)
        if k == 'flt':
            return 'c_flt(%s)' % v
        if k == 'buf':
            return 'c_buf(%s, %r, %d, %r, %r)' % (v, tp.name, tp.nd, none_ok, tp.mode)
        if k == 'nd':
            return 'c_nd(%s, %r)' % (v, none_ok)
        if k == 'cls':
            if v.startswith('c_ucast('):             # <cls> obj is not checked
                return v
            return 'c_obj(%s, %s, %r)' % (v, tp.name, none_ok)
        if k == 'ptr' and tp.sub.kind != 'void':
            return 'c_castp(%s, %r)' % (v, tp.sub.cname()) if tp.sub.kind in ('int', 'flt', 'struct', 'ptr') else v
        return v

    def storage(self, tp):
        """Initial value of a declared variable, or None."""
        if tp.kind == 'arr':
            return 'c_new(%r, %d)' % (tp.sub.cname(), tp.n)
        if tp.kind == 'struct':
            return 'c_new(%r)' % tp.name
        return None

    # -- module
    def module(self, tree, pxd=False):
        self.stats(tree.body)

    def stats(self, n):
        if n is None:
            return
        k = type(n).__name__
        if k == 'StatListNode':
            for s in n.stats:
                self.stats(s)
            return
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise EngineError('%s:%s: Cython statement %s' % (self.path, n.pos[1], k))
        m(n)

    def body(self, n):
        self.ind += 1
        l = len(self.out)
        self.stats(n)
        if len(self.out) == l:
            self.w('pass')
        self.ind -= 1

    def s_ExprStatNode(self, n):
        k = type(n.expr).__name__
        if k in ('UnicodeNode', 'StringNode'):
            return
        self.w(self.e(n.expr))

    def s_PassStatNode(self, n):
        self.w('pass')

    def s_CImportStatNode(self, n):
        if n.module_name in ('cython',):
            return
        if n.module_name == 'numpy':
            self.w('%s = __npmod__' % (n.as_name or 'numpy'))
            return
        self.w('import %s%s' % (n.module_name, ' as %s' % n.as_name if n.as_name else ''))
        self.modalias[n.as_name or n.module_name] = n.module_name
        self.cimported(n.module_name)

    def cimported(self, mod):
        """Struct names and classes a cimported module declares."""
        other = printer_of(mod)
        if other is not None:
            self.structs |= other.structs
        return other

    def s_FromCImportStatNode(self, n):
        if n.module_name in ('libc.stdio',):
            self.w('stdout = None')
            return
        if n.module_name.endswith('.types') or n.module_name in ('cython', 'libc.stdio', 'numpy'):
            return
        other = self.cimported(n.module_name)
        for it in n.imported_names:
            name, as_name = it[1], it[2]
            if other is not None and name in other.classes:
                self.classes[as_name or name] = other.classes[name]
            if other is not None and name in other.structs:
                continue
            self.w('from %s import %s%s' % (n.module_name, name, ' as %s' % as_name if as_name else ''))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            r = n.rhs
            mod = r.module_name.value
            a = n.lhs.name
            if mod == 'numpy':
                self.w('%s = __npmod__' % a)
            else:
                if a == mod.split('.')[0] and '.' in mod and not r.get_top_level_module is False:
                    self.w('import %s as %s' % (mod, a)) if a == mod else self.w('import %s' % mod if a == mod.split('.')[0] and getattr(r, 'get_top_level_module', True) else 'import %s as %s' % (mod, a))
                elif a == mod:
                    self.w('import %s' % mod)
                else:
                    self.w('import %s as %s' % (mod, a))
            return
        self.assign([n.lhs], n.rhs)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        for name, target in n.items:
            self.w('from %s import %s as %s' % (mod, name, target.name))

    def s_CascadedAssignmentNode(self, n):
        self.assign(n.lhs_list, n.rhs)

    def assign(self, lhs, rhs):
        if len(lhs) == 1:
            self.store(lhs[0], self.e(rhs))
            return
        self.tmp += 1
        t = '_t%d_' % self.tmp
        self.w('%s = %s' % (t, self.e(rhs)))
        for l in lhs:
            self.store(l, t)

    def store(self, l, v):
        k = type(l).__name__
        if k == 'NameNode':
            tp = self.vtype(l.name)
            if tp is not None:
                v = self.conv(v, tp)
                if self.boxed(l.name):
                    self.w('%s[0] = %s' % (self.box(l.name), v))
                    return
            self.w('%s = %s' % (l.name, v))
        elif k == 'AttributeNode':
            o = self.e(l.obj)
            if o == 'self' and self.cls is not None:
                tp = self.cls['attrs'].get(l.attribute)
                if tp is not None:
                    v = self.conv(v, tp)
            self.w('%s.%s = %s' % (o, l.attribute, v))
        elif k in ('IndexNode', 'SliceIndexNode'):
            self.w('%s = %s' % (self.e(l), v))
        elif k == 'TupleNode':
            ts = []
            for _ in l.args:
                self.tmp += 1
                ts.append('_t%d_' % self.tmp)
            self.w('%s = %s' % (', '.join(ts) + (',' if len(ts) == 1 else ''), v))
            for a, t in zip(l.args, ts):
                self.store(a, t)
        else:
            raise EngineError('%s:%s: assignment to %s' % (self.path, l.pos[1], k))

    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        cur = self.e(n.lhs)
        if type(n.lhs).__name__ == 'NameNode' and self.vtype(n.lhs.name) is not None:
            self.store(n.lhs, '%s %s (%s)' % (cur, op, self.e(n.rhs)))
        else:
            l = self.e(n.lhs)
            self.w('%s %s= %s' % (l, op, self.e(n.rhs)))

    # -- declarations
    def s_CVarDefNode(self, n):
        b = self.base(n.base_type)
        for d in n.declarators:
            name, tp = self.decl(d, b)
            if self.in_extern:
                if tp.kind == 'fn':
                    self.extern(d, name)
                else:
                    c = self.dname(d).cname or name
                    self.globals_c.add(name)
                    self.consts[name] = c
                continue
            if tp.kind == 'fn':
                continue         # forward declaration (pxd)
            if self.cls is not None and not self.scopes:
                self.cls['attrs'][name] = tp
                continue
            self.declare(name, tp, self.dname(d).default)

    def declare(self, name, tp, default=None):
        if self.scopes:
            self.scopes[-1]['t'][name] = tp
        else:
            self.types[name] = tp
        st = self.storage(tp)
        if st is not None:
            self.w('%s = %s' % (name, st))
            if default is not None:
                raise EngineError('initialized C array')
        if self.boxed(name):
            self.w('%s = c_new(%r)' % (self.box(name), tp.cname() if tp.kind != 'ptr' else 'void*'))
        if default is not None:
            v = self.conv(self.e(default), tp)
            if self.boxed(name):
                self.w('%s[0] = %s' % (self.box(name), v))
            else:
                self.w('%s = %s' % (name, v))

    def vtype(self, name):
        for s in reversed(self.scopes):
            if name in s['t']:
                return s['t'][name]
            if s['kind'] == 'def':
                break
        if not self.scopes:
            return self.types.get(name)
        return None

    def boxed(self, name):
        return bool(self.scopes) and name in self.scopes[-1]['box']

    def box(self, name):
        return '_box_' + name

    def s_CDefExternNode(self, n):
        self.in_extern = True
        self.stats(n.body)
        self.in_extern = False

    in_extern = False
    cls = None

    def extern(self, d, name):
        f = d
        while type(f).__name__ != 'CFuncDeclaratorNode':
            f = f.base
        nm = self.dname(d)
        cname = nm.cname or name
        ps = []
        for a in f.args:
            _, tp = self.decl(a.declarator, self.base(a.base_type))
            ps.append(tp.name if tp.kind in ('int', 'flt') else None)
        self.externs[name] = cname
        self.w('%s = Ext(%r, %r)' % (name, cname, ps))

    def s_CStructOrUnionDefNode(self, n):
        self.structs.add(n.name)

    def s_CTypeDefNode(self, n):
        pass

    def s_CEnumDefNode(self, n):
        pass

    # -- functions
    def args(self, n, args, cfunc=False):
        s, post = [], []
        for a in args:
            b = self.base(a.base_type)
            d = self.dname(a.declarator)
            name, tp = self.decl(a.declarator, b)
            if not name:
                # untyped argument: the name is parsed as a type
                name, tp = a.base_type.name, OBJ
            self.scopes[-1]['t'][name] = tp
            dflt = a.default
            none = dflt is not None and type(dflt).__name__ == 'NoneNode'
            none_ok = none or not getattr(a, 'not_none', False)
            if dflt is not None:
                s.append('%s=%s' % (name, self.e(dflt)))
            else:
                s.append(name)
            if tp.kind in ('int', 'flt', 'buf', 'nd', 'cls') or tp.kind == 'ptr' and cfunc:
                if none and tp.kind in ('buf', 'nd', 'cls'):
                    none_ok = True
                c = self.conv(name, tp, none_ok)
                if c != name:
                    post.append('%s = %s' % (name, c))
            if tp.kind == 'cls' and self.cls is not None and tp.name == self.cls['name']:
                pass
        return s, post

    def func(self, n, name, args, body, star=None, starstar=None, decos=(), cfunc=False):
        self.scopes.append(dict(kind='def', t={}, box=_address_taken(body)))
        s, post = self.args(n, args, cfunc)
        if star is not None:
            s.append('*' + star)
        if starstar is not None:
            s.append('**' + starstar)
        for d in decos:
            self.w(d)
        self.w('def %s(%s):' % (name, ', '.join(s)))
        self.ind += 1
        for p in post:
            self.w(p)
        for a in args:
            nm, tp = self.decl(a.declarator, self.base(a.base_type))
            if nm and self.boxed(nm):
                self.w('%s = c_new(%r); %s[0] = %s' % (
                    self.box(nm), tp.cname() if tp.kind != 'ptr' else 'void*', self.box(nm), nm))
        self.ind -= 1
        self.body(body)
        self.scopes.pop()

    def decos(self, n):
        r = []
        for d in n.decorators or []:
            x = d.decorator
            k = type(x).__name__
            root = x
            while type(root).__name__ in ('AttributeNode', 'SimpleCallNode'):
                root = root.obj if type(root).__name__ == 'AttributeNode' else root.function
            if type(root).__name__ == 'NameNode' and root.name == 'cython':
                continue
            r.append('@' + self.e(x))
        return r

    def s_DefNode(self, n):
        self.func(n, n.name, n.args, n.body, n.star_arg.name if n.star_arg else None,
                  n.starstar_arg.name if n.starstar_arg else None, self.decos(n))

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        self.func(n, self.dname(d).name, d.args, n.body, decos=self.decos(n) if getattr(n, 'decorators', None) else (),
                  cfunc=True)

    def s_CClassDefNode(self, n):
        name = n.class_name
        cls = self.classes.get(name)
        if cls is None:
            cls = self.classes[name] = dict(name=name, attrs={})
        if self.pxd_mode:
            # attributes only
            old, self.cls = self.cls, cls
            o, self.out = self.out, []
            sc, self.scopes = self.scopes, []
            self.stats(n.body)
            self.out, self.cls, self.scopes = o, old, sc
            return
        old, self.cls = self.cls, cls
        bases = [self.e(b) for b in (n.bases.args if n.bases is not None else [])]
        self.w('class %s(%s):' % (name, ', '.join(bases)))
        self.ind += 1
        mark = len(self.out)
        self.stats(n.body)
        body = self.out[mark:]
        del self.out[mark:]
        self.w('def __new__(__cls__, *a, **k):')
        self.ind += 1
        self.w('self = object.__new__(__cls__)')
        for an, tp in cls['attrs'].items():
            st = self.storage(tp)
            if tp.kind in ('arr', 'struct'):
                st = 'c_new(%r, %d, True)' % (tp.sub.cname() if tp.kind == 'arr' else tp.name,
                                              tp.n if tp.kind == 'arr' else 1)
            elif tp.kind in ('int', 'flt'):
                st = '0'
            else:
                st = 'None'
            self.w('self.%s = %s' % (an, st))
        if any(l.strip().startswith('def __cinit__') for l in body):
            self.w('self.__cinit__(*a, **k)')
        self.w('return self')
        self.ind -= 1
        if not any(l.strip().startswith('def __init__') for l in body):
            self.w('def __init__(self, *a, **k): pass')
        self.out += body
        self.ind -= 1
        self.cls = old

    pxd_mode = False

    def s_PropertyNode(self, n):
        fs = []
        for s in getattr(n.body, 'stats', [n.body]):
            if type(s).__name__ == 'DefNode':
                nm = '_prop_%s_%s' % (s.name.strip('_'), n.name)
                self.func(s, nm, s.args, s.body)
                fs.append((s.name, nm))
        g = dict(fs)
        self.w('%s = property(%s, %s)' % (n.name, g.get('__get__'), g.get('__set__')))

    # -- control
    def s_IfStatNode(self, n):
        kw = 'if'
        for c in n.if_clauses:
            self.w('%s %s:' % (kw, self.e(c.condition)))
            self.body(c.body)
            kw = 'elif'
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_ForInStatNode(self, n):
        t = n.target
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        if type(t).__name__ == 'NameNode' and not self.boxed(t.name):
            self.w('for %s in %s:' % (t.name, self.e(seq)))
            self.body(n.body)
        elif type(t).__name__ == 'TupleNode' and all(type(a).__name__ in ('NameNode', 'TupleNode') for a in t.args):
            self.w('for %s in %s:' % (self.e(t), self.e(seq)))
            self.body(n.body)
        else:
            self.tmp += 1
            v = '_t%d_' % self.tmp
            self.w('for %s in %s:' % (v, self.e(seq)))
            self.ind += 1
            self.store(t, v)
            self.ind -= 1
            self.body(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w('while %s:' % self.e(n.condition))
        self.body(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_BreakStatNode(self, n):
        self.w('break')

    def s_ContinueStatNode(self, n):
        self.w('continue')

    def s_ReturnStatNode(self, n):
        self.w('return' if n.value is None else 'return ' + self.e(n.value))

    def s_RaiseStatNode(self, n):
        self.w('raise' if n.exc_type is None else 'raise ' + self.e(n.exc_type))

    def s_AssertStatNode(self, n):
        v = getattr(n, 'value', None)
        if v is None and getattr(n, 'exception', None) is not None:
            v = None
        self.w('assert %s' % self.e(n.condition))

    def s_TryExceptStatNode(self, n):
        self.w('try:')
        self.body(n.body)
        for c in n.except_clauses:
            p = c.pattern
            if p:
                p = p if isinstance(p, list) else [p]
                t = getattr(c, 'target', None)
                self.w('except (%s,)%s:' % (', '.join(self.e(x) for x in p),
                                            ' as %s' % t.name if t is not None else ''))
            else:
                self.w('except:')
            self.body(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_ReraiseStatNode(self, n):
        self.w('raise')

    def s_TryFinallyStatNode(self, n):
        self.w('try:')
        self.body(n.body)
        self.w('finally:')
        self.body(n.finally_clause)

    def s_GlobalNode(self, n):
        self.w('global ' + ', '.join(n.names))

    def s_NonlocalNode(self, n):
        self.w('nonlocal ' + ', '.join(n.names))

    def s_GILStatNode(self, n):
        self.stats(n.body)

    def s_DelStatNode(self, n):
        self.w('del ' + ', '.join(self.e(a) for a in n.args))

    # -- expressions
    def e(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise EngineError('%s:%s: Cython expression %s' % (self.path, n.pos[1], type(n).__name__))
        return m(n)

    def e_NameNode(self, n):
        if self.boxed(n.name) and self.vtype(n.name) is not None:
            return '%s[0]' % self.box(n.name)
        if n.name in self.globals_c and not any(n.name in s['t'] for s in self.scopes):
            return 'c_global(%r)' % self.consts[n.name]
        return n.name

    def e_IntNode(self, n):
        return n.value.rstrip('uUlL')

    def e_FloatNode(self, n):
        return n.value

    def e_NoneNode(self, n):
        return 'None'

    def e_NullNode(self, n):
        return 'None'

    def e_BoolNode(self, n):
        return 'True' if n.value else 'False'

    def e_EllipsisNode(self, n):
        return '...'

    def e_UnicodeNode(self, n):
        return repr(str(n.value))
    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_TupleNode(self, n):
        return '(%s%s)' % (', '.join(self.e(a) for a in n.args), ',' if len(n.args) == 1 else '')

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.e(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.e(i.key), self.e(i.value)) for i in n.key_value_pairs)

    def e_AttributeNode(self, n):
        at = n.attribute                # dict.iteritems() is compiled as items()
        if at in ('iteritems', 'itervalues', 'iterkeys') and type(n.obj).__name__ == 'NameNode':
            at = at[4:]
        return '%s.%s' % (self.par(n.obj), at)

    def par(self, n):
        s = self.e(n)
        if type(n).__name__ in ('NameNode', 'AttributeNode', 'IndexNode', 'SimpleCallNode', 'GeneralCallNode',
                                'SliceIndexNode', 'TupleNode', 'ListNode', 'UnicodeNode'):
            return s
        return '(%s)' % s

    def e_SimpleCallNode(self, n):
        f = n.function
        a = ', '.join(self.e(x) for x in n.args)
        if type(f).__name__ == 'AttributeNode' and f.attribute in ('eval_basis', 'get_xi_dist'):
            return 'c_call(%s%s)' % (self.par(f), ', ' + a if a else '')
        return '%s(%s)' % (self.par(f), a)

    def e_GeneralCallNode(self, n):
        a = [self.e(x) for x in n.positional_args.args] if hasattr(n.positional_args, 'args') else \
            ['*' + self.e(n.positional_args)]
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for i in kw.key_value_pairs:
                    a.append('%s=%s' % (i.key.value, self.e(i.value)))
            else:
                a.append('**' + self.e(kw))
        return '%s(%s)' % (self.par(n.function), ', '.join(a))

    def index(self, n):
        k = type(n).__name__
        if k == 'TupleNode':
            return ', '.join(self.index(a) for a in n.args) + (',' if len(n.args) == 1 else '')
        if k == 'SliceNode':
            p = ['' if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
                 for x in (n.start, n.stop, n.step)]
            return '%s:%s' % (p[0], p[1]) + (':' + p[2] if p[2] else '')
        return self.e(n)

    def e_IndexNode(self, n):
        return '%s[%s]' % (self.par(n.base), self.index(n.index))

    def e_SliceIndexNode(self, n):
        return '%s[%s:%s]' % (self.par(n.base), '' if n.start is None else self.e(n.start),
                              '' if n.stop is None else self.e(n.stop))

    def e_SliceNode(self, n):
        return 'slice(%s)' % ', '.join('None' if x is None else self.e(x) for x in (n.start, n.stop, n.step))

    def e_AmpersandNode(self, n):
        o = n.operand
        k = type(o).__name__
        if k == 'NameNode':
            if self.boxed(o.name) and self.vtype(o.name) is not None:
                return self.box(o.name)
            tp = self.vtype(o.name)
            if tp is not None and tp.kind in ('arr', 'struct'):
                return o.name
            return o.name           # a function or struct pointer
        if k == 'IndexNode':
            ix = o.index
            ii = [self.e(a) for a in ix.args] if type(ix).__name__ == 'TupleNode' else [self.e(ix)]
            return 'c_addr(%s, (%s,))' % (self.e(o.base), ', '.join(ii))
        if k == 'AttributeNode':
            return 'c_addr_field(%s, %r)' % (self.e(o.obj), o.attribute)
        raise EngineError('%s:%s: address of %s' % (self.path, n.pos[1], k))

    def e_TypecastNode(self, n):
        _, tp = self.decl(n.declarator, self.base(n.base_type))
        v = self.e(n.operand)
        if tp.kind == 'int':
            return 'c_cint(%s, %r)' % (v, tp.name)
        if tp.kind == 'flt':
            return 'c_flt(%s)' % v
        if tp.kind == 'ptr' and tp.sub.kind != 'void':
            return 'c_castp(%s, %r)' % (v, tp.sub.cname())
        if tp.kind == 'cls':
            return 'c_ucast(%s)' % v
        return v

    def e_SizeofVarNode(self, n):
        o = n.operand
        return 'c_sizeof(%r)' % o.name

    def e_SizeofTypeNode(self, n):
        _, tp = self.decl(n.declarator, self.base(n.base_type))
        return 'c_sizeof(%r)' % tp.cname()

    def bin(self, n):
        return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = bin
    e_BitwiseOrNode = bin

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_NotNode(self, n):
        return '(not %s)' % self.e(n.operand)

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.e(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.e(n.operand)

    def e_TildeNode(self, n):
        return '(~%s)' % self.e(n.operand)

    def e_PrimaryCmpNode(self, n):
        s = '%s %s %s' % (self.e(n.operand1), n.operator.replace('_', ' '), self.e(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (c.operator.replace('_', ' '), self.e(c.operand2))
            c = c.cascade
        return '(%s)' % s

    def e_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.e(n.true_val), self.e(n.condition), self.e(n.false_val))

    def e_JoinedStrNode(self, n):
        return "''.join([%s])" % ', '.join(
            'str(%s)' % self.e(v.value) if type(v).__name__ == 'FormattedValueNode' else self.e(v)
            for v in n.values)

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.e(a) for a in n.args)

    def e_StarredUnpackingNode(self, n):
        return '*' + self.e(n.target)

    def e_LambdaNode(self, n):
        return '(lambda %s: %s)' % (', '.join(self.dname(a.declarator).name or a.base_type.name for a in n.args),
                                    self.e(n.result_expr))

    def e_ComprehensionNode(self, n):
        return self.compr(n.loop, '[]' if 'list' in str(getattr(n.type, 'name', 'list')) else '{}')

    def compr(self, loop, br):
        s = ''
        while type(loop).__name__ == 'ForInStatNode':
            it = loop.iterator
            seq = it.sequence if hasattr(it, 'sequence') else it
            s += ' for %s in %s' % (self.e(loop.target), self.e(seq))
            loop = loop.body
            while type(loop).__name__ == 'StatListNode' and len(loop.stats) == 1:
                loop = loop.stats[0]
            while type(loop).__name__ == 'IfStatNode':
                s += ' if %s' % self.e(loop.if_clauses[0].condition)
                loop = loop.if_clauses[0].body
                while type(loop).__name__ == 'StatListNode' and len(loop.stats) == 1:
                    loop = loop.stats[0]
        return '%s%s%s%s' % (br[0], self.e(loop.expr), s, br[1])

    def e_ImportNode(self, n):
        return '__import__(%r)' % n.module_name.value

def _address_taken(body):
    """Local scalars whose address is taken: they live in a box."""
    out = set()
    decl = {}

    def walk(n):
        k = type(n).__name__
        if k == 'CVarDefNode':
            for d in n.declarators:
                x, arr = d, False
                while type(x).__name__ != 'CNameDeclaratorNode':
                    arr = arr or type(x).__name__ == 'CArrayDeclaratorNode'
                    x = x.base
                bt = n.base_type
                st = type(bt).__name__ == 'TemplatedTypeNode' or (
                    type(bt).__name__ == 'CSimpleBaseTypeNode' and bt.name not in INTS and bt.name not in FLTS
                    and type(d).__name__ == 'CNameDeclaratorNode')
                if not arr and not st:
                    decl[x.name] = 1
        if k == 'AmpersandNode' and type(n.operand).__name__ == 'NameNode':
            out.add(n.operand.name)
        for a in n.child_attrs or []:
            c = getattr(n, a, None)
            if c is None:
                continue
            for x in (c if isinstance(c, list) else [c]):
                if x is not None and hasattr(x, 'child_attrs'):
                    walk(x)
    walk(body)
    return {x for x in out if x in decl}

_printers = {}

def _parse(name, path):
    # Cython is in the environment of the repository
    from Cython.Compiler.TreeFragment import parse_from_strings
    with open(path, encoding='utf-8') as f:
        return parse_from_strings(name.rpartition('.')[2], f.read())

def printer_of(mod):
    """The printed module, or None."""
    if mod in _printers:
        return _printers[mod]
    base = os.path.join(pyworld.REPO, *mod.split('.'))
    if not (os.path.exists(base + '.pyx') or os.path.exists(base + '.pxd')):
        return None
    pr = _printers[mod] = Pr(mod, base + '.pyx')
    if os.path.exists(base + '.pxd'):
        pr.pxd_mode = True
        pr.module(_parse(mod, base + '.pxd'))
        pr.pxd_mode = False
    if os.path.exists(base + '.pyx'):
        pr.module(_parse(mod, base + '.pyx'))
    return pr

def source(mod):
    return '\n'.join(printer_of(mod).out) + '\n'

import ast as _ast

class _Str(_ast.NodeTransformer):
    pass

def load(name):
    """Module object for a .pyx, registered like the Python ones."""
    pr = printer_of(name)
    src = '\n'.join(pr.out) + '\n'
    m = types.ModuleType(name)
    path = pr.path
    m.__file__ = path
    m.__package__ = name.rpartition('.')[0]
    b = dict(pyworld.BUILTINS)
    m.__dict__['__builtins__'] = b
    m.__dict__.update(RT)
    m.__dict__['__npmod__'] = NpModule()
    pyworld.MODS[name] = m
    setattr(pyworld.MODS[m.__package__], name.rpartition('.')[2], m)
    try:
        tree = _ast.parse(src, path)
        tree = pyworld.Tr().visit(tree)
        _ast.fix_missing_locations(tree)
        exec(compile(tree, path, 'exec'), m.__dict__)
    except BaseException:
        pyworld.MODS.pop(name, None)
        raise
    for k, v in list(m.__dict__.items()):
        if type(v) is types.FunctionType and v.__globals__ is m.__dict__:
            m.__dict__[k] = cython_function_or_method(v)
    return m

class cython_function_or_method:
    """The type of the functions of a compiled module."""
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__
        self.__doc__ = f.__doc__

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __get__(self, o, cls=None):
        return self if o is None else types.MethodType(self, o)
