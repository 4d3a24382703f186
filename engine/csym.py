"""
Symbolic executor for the C code of /repo.

The C files are preprocessed (clang -E) and parsed (pycparser) on every run,
then translated function by function to Python closures over the memory model
of `cmem`.  Nothing is dropped except: printing, source-position arguments of
the allocator, and machine rounding (floats are mathematical reals; 32-bit
unsigned arithmetic on concrete values wraps as in C).
"""
import os
import sys
import subprocess
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import pycparser
except ImportError:
    sys.path.append(_VT)
    import pycparser
from pycparser import c_ast, c_parser

from . import cmem
from .cmem import *
from .sym import EngineError, SymBool, R, lift

HERE = os.path.dirname(os.path.abspath(__file__))
FAKE = os.path.join(HERE, 'fakeinc')

EXT_DIRS = ['sfepy/discrete/common/extmods', 'sfepy/discrete/fem/extmods',
            'sfepy/discrete/iga/extmods', 'sfepy/mechanics/extmods',
            'sfepy/terms/extmods']

# ------------------------------------------------------------------ types
INT = ('i', 4, True)
UINT = ('i', 4, False)
LONG = ('i', 8, True)
ULONG = ('i', 8, False)
CHAR = ('i', 1, True)
DBL = ('f', 8)
VOID = ('v',)

_BASE = {
    'int': INT, 'signed int': INT, 'unsigned int': UINT, 'unsigned': UINT,
    'long': LONG, 'long int': LONG, 'unsigned long': ULONG,
    'long unsigned int': ULONG, 'unsigned long int': ULONG,
    'char': CHAR, 'unsigned char': ('i', 1, False), 'signed char': CHAR,
    'short': ('i', 2, True), 'unsigned short': ('i', 2, False),
    'double': DBL, 'float': ('f', 4), 'void': VOID, 'long double': DBL,
    'long long': LONG, 'unsigned long long': ULONG, 'long long int': LONG,
    '_Bool': UINT,
}

class Goto(Exception):
    def __init__(self, label):
        self.label = label

def is_int(t):
    return t[0] == 'i'

def is_flt(t):
    return t[0] == 'f'

def is_ptr(t):
    return t[0] in ('p', 'a')

def elem(t):
    return t[1]

def preprocess(path, repo, incdirs, defines=()):
    cmd = ['clang', '-E', '-P', '-nostdinc', '-undef', '-I', FAKE]
    for d in incdirs:
        cmd += ['-I', d]
    cmd += ['-D__SDIR__="x"', '-D__attribute__(x)='] + list(defines) + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineError('preprocessing %s failed: %s' % (path, r.stderr[-500:]))
    return r.stdout

class Prog:
    """A set of C files of the repository, ready for execution."""

    def __init__(self, files, repo='/repo', exact=True):
        self.repo = repo
        self.exact = exact
        self.typedefs = {}
        self.structs = {}      # name -> [(field, type)]
        self.enums = {}
        self.funcs = {}        # name -> FuncDef
        self.ftypes = {}       # name -> return type
        self.gtypes = {}       # globals
        self.ginit = {}
        self.env = {}          # runtime namespace
        self.loops = {}        # loop id -> (node, gen snapshot)
        self.compiled = {}
        self.overrides = {}    # contract substitution: name -> callable
        self.called = set()
        self._anon = 0
        self.msgs = []
        self._setup_env()
        incs = [os.path.join(repo, d) for d in EXT_DIRS]
        self.files = []
        for f in files:
            path = f if os.path.isabs(f) else os.path.join(repo, f)
            self.files.append(path)
            self._load(path, incs)
        self._init_globals()

    # -------------------------------------------------------- loading
    def _load(self, path, incs):
        src = preprocess(path, self.repo, [os.path.dirname(path)] + incs)
        try:
            ast = c_parser.CParser().parse(src, path)
        except Exception as e:
            raise EngineError('C parse error in %s: %s' % (path, e))
        for ext in ast.ext:
            if isinstance(ext, c_ast.Typedef):
                self.typedefs[ext.name] = self.typ(ext.type)
            elif isinstance(ext, c_ast.FuncDef):
                d = ext.decl
                self.ftypes[d.name] = self.typ(d.type.type)
                self.funcs[d.name] = ext
                self.compiled.pop(d.name, None)
            elif isinstance(ext, c_ast.Decl):
                if isinstance(ext.type, c_ast.FuncDecl):
                    self.ftypes.setdefault(ext.name, self.typ(ext.type.type))
                elif ext.name is None:
                    self.typ(ext.type)
                else:
                    t = self.typ(ext.type)
                    if 'extern' in ext.storage and ext.init is None:
                        self.gtypes.setdefault(ext.name, t)
                    else:
                        if t[0] == 'a' and t[2] is None and ext.init is not None:
                            t = ('a', t[1], len(ext.init.exprs))
                        self.gtypes[ext.name] = t
                        self.ginit[ext.name] = ext.init

    def typ(self, n):
        if isinstance(n, c_ast.TypeDecl):
            return self.typ(n.type)
        if isinstance(n, c_ast.IdentifierType):
            name = ' '.join(x for x in n.names)
            if name in _BASE:
                return _BASE[name]
            if name in self.typedefs:
                return self.typedefs[name]
            raise EngineError('unknown type %s' % name)
        if isinstance(n, c_ast.PtrDecl):
            return ('p', self.typ(n.type))
        if isinstance(n, c_ast.ArrayDecl):
            dim = None
            if n.dim is not None:
                dim = self.const_int(n.dim)
            return ('a', self.typ(n.type), dim)
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            name = n.name
            if name is None:
                self._anon += 1
                name = '_anon%d' % self._anon
                n.name = name
            if n.decls is not None:
                self.structs[name] = []
                self.structs[name] = [(d.name, self.typ(d.type))
                                      for d in n.decls]
            return ('s', name)
        if isinstance(n, c_ast.Enum):
            if n.values is not None:
                v = 0
                for e in n.values.enumerators:
                    if e.value is not None:
                        v = self.const_int(e.value)
                    self.enums[e.name] = v
                    v += 1
            return INT
        if isinstance(n, c_ast.FuncDecl):
            return ('fn', self.typ(n.type))
        if isinstance(n, c_ast.Typename):
            return self.typ(n.type)
        raise EngineError('type node %s' % type(n).__name__)

    def const_int(self, n):
        if isinstance(n, c_ast.Constant):
            return int(n.value.rstrip('uUlL'), 0)
        if isinstance(n, c_ast.ID) and n.name in self.enums:
            return self.enums[n.name]
        if isinstance(n, c_ast.UnaryOp) and n.op == '-':
            return -self.const_int(n.expr)
        if isinstance(n, c_ast.UnaryOp) and n.op == 'sizeof':
            return self.sizeof(self.typ(n.expr))
        if isinstance(n, c_ast.BinaryOp):
            a, b = self.const_int(n.left), self.const_int(n.right)
            return {'+': a + b, '-': a - b, '*': a * b,
                    '/': a // b if b else 0, '<<': a << b if 0 <= b < 64 else 0}[n.op]
        raise EngineError('constant expression')

    def sizeof(self, t):
        k = t[0]
        if k in ('i', 'f'):
            return t[1]
        if k in ('p', 'fn'):
            return 8
        if k == 'a':
            return t[2] * self.sizeof(t[1])
        if k == 's':
            o = 0
            al = 1
            for _, ft in self.structs[t[1]]:
                s = self.sizeof(ft)
                a = self.align(ft)
                al = max(al, a)
                o = (o + a - 1) // a * a + s
            return (o + al - 1) // al * al
        if k == 'v':
            return 1
        raise EngineError('sizeof %s' % (t,))

    def align(self, t):
        if t[0] == 'a':
            return self.align(t[1])
        if t[0] == 's':
            return max([self.align(ft) for _, ft in self.structs[t[1]]] or [1])
        return self.sizeof(t)

    # -------------------------------------------------------- values
    def default(self, t, zero=False):
        k = t[0]
        if k in ('i', 'f'):
            return 0 if zero else UNINIT
        if k == 'p' or k == 'fn':
            return None if zero else UNINIT
        if k == 'a':
            return Mem([self.default(t[1], zero) for _ in range(t[2])])
        if k == 's':
            s = SObj(t[1])
            for f, ft in self.structs[t[1]]:
                s.__dict__[f] = self.default(ft, zero)
            return s
        raise EngineError('default of %s' % (t,))

    def castp(self, v, t):
        """Pointer cast to element type t."""
        if v.__class__ is RawAlloc:
            sz = self.sizeof(t)
            n = v.nbytes
            if n.__class__ is R and n.const() is None:
                from .csum import SMem
                cnt = n / sz
                return P(SMem.alloc(cnt, zero=v.zero), 0)
            n = int(n) // sz
            if n > 3000000:
                raise EngineError('huge allocation')
            m = Mem([self.default(t, v.zero) for _ in range(n)], 'heap')
            if v.old is not None:
                k = min(n, len(v.old.a))
                m.a[:k] = v.old.a[:k]
                v.old.a = []
            return P(m, 0)
        return v

    def new(self, tname, zero=True):
        """A fresh struct object pointer (for harnesses)."""
        t = ('s', self._sname(tname))
        return P(Mem([self.default(t, zero)], tname), 0)

    def _sname(self, tname):
        t = self.typedefs.get(tname)
        if t is not None and t[0] == 's':
            return t[1]
        return tname

    # -------------------------------------------------------- globals
    def _init_globals(self):
        G = self.env['G']
        for n, t in self.gtypes.items():
            init = self.ginit.get(n)
            if init is None:
                if t[0] == 'i':
                    v = 0
                elif t[0] == 'f':
                    v = 0
                elif t[0] in ('p', 'fn'):
                    v = None
                elif t[0] == 's' and t[1] not in self.structs:
                    v = None
                else:
                    try:
                        v = self.default(t, True)
                    except EngineError:
                        v = None
            else:
                v = self._ginit_val(init, t)
            G.__dict__[n] = v

    def _ginit_val(self, init, t):
        if isinstance(init, c_ast.InitList):
            if t[0] == 'a':
                vals = [self._ginit_val(x, t[1]) for x in init.exprs]
                n = t[2] if t[2] is not None else len(vals)
                vals += [self.default(t[1], True) for _ in range(n - len(vals))]
                return Mem(vals)
            if t[0] == 's':
                s = self.default(t, True)
                for (f, ft), x in zip(self.structs[t[1]], init.exprs):
                    s.__dict__[f] = self._ginit_val(x, ft)
                return s
            return self._ginit_val(init.exprs[0], t)
        g = Gen(self, None, 'fast')
        code, ct = g.expr(init)
        return eval(code, self.env)

    # -------------------------------------------------------- runtime env
    def _setup_env(self):
        prog = self

        class _G:
            pass
        G = _G()
        env = self.env
        for k in dir(cmem):
            if not k.startswith('__'):
                env[k] = getattr(cmem, k)
        env['G'] = G
        env['Goto'] = Goto
        env['R'] = R
        env['SymBool'] = SymBool
        env['Fraction'] = Fraction
        env['castp'] = self.castp
        env['dflt'] = self.default
        env['UNINIT'] = UNINIT
        env['prog'] = self
        env['K'] = []

        def symloop(c):
            return c.__class__ is SymBool and prog.summarizer is not None \
                and prog.summarizer.wants(c)
        self.summarizer = None
        env['symloop'] = symloop

        def summarize(lid, names, vals):
            return prog.summarizer.run(prog, lid, names, vals)
        env['summarize'] = summarize

        def call(name):
            return prog.fn(name)
        env['call'] = call

        class FnProxy(dict):
            pass

        def sa(L, n, v):
            setattr(L, n, v)
            return v
        env['sa'] = sa

        # intrinsics -----------------------------------------------------
        def mem_alloc_mem(size, *a):
            if size.__class__ is int and size == 0:
                errput('zero allocation')
                return None
            return RawAlloc(size, True)

        def malloc(size):
            return RawAlloc(size, False)

        def calloc(n, m):
            return RawAlloc(n * m, True)

        def realloc_(p, size, *a):
            if p is None:
                return None
            if p._m.__class__ is not cmem.Mem or p._o.__class__ is not int or p._o != 0:
                raise EngineError('realloc')
            if size.__class__ is int and size == 0:
                errput('zero allocation')
                return None
            r = RawAlloc(size, False)
            r.old = p._m
            return r

        def mem_free(p, *a):
            return None

        def errput(*a):
            G.g_error = G.g_error + 1
            prog.msgs.append(a)

        def noop(*a):
            return 0
        intr = {
            'mem_alloc_mem': mem_alloc_mem, 'pyalloc': mem_alloc_mem,
            'malloc': malloc, 'calloc': calloc, 'PyMem_Malloc': malloc,
            'mem_realloc_mem': realloc_, 'realloc': realloc_,
            'mem_free_mem': mem_free, 'pyfree': mem_free, 'free': mem_free,
            'PyMem_Free': mem_free,
            'errput': errput, 'errset': errput, 'output': noop,
            'printf': noop, 'fprintf': noop, 'vprintf': noop, 'fflush': noop,
            'mem_statistics': noop, 'mem_checkIntegrity': noop,
            'fmf_print': noop, 'fmf_save': noop, 'assert': noop,
            'errclear': lambda: setattr(G, 'g_error', 0),
            'sqrt': cmem.c_sqrt, 'pow': cmem.c_pow, 'exp': cmem.c_exp,
            'log': cmem.c_log, 'sin': cmem.c_sin, 'cos': cmem.c_cos,
            'tan': cmem.c_tan, 'acos': cmem.c_acos, 'fabs': cmem.c_fabs,
            'abs': abs, 'floor': cmem.c_floor, 'ceil': cmem.c_ceil,
            'fmin': lambda a, b: a if a < b else b,
            'fmax': lambda a, b: a if a > b else b,
            'cbrt': lambda x: cmem.c_pow(x, Fraction(1, 3)),
        }
        self.intrinsics = intr

        def c_memcpy(d, s, nbytes, esz):
            n = idiv(nbytes, esz)
            if n.__class__ is R and n.const() is None:
                from .csum import sym_memcpy
                return sym_memcpy(prog, d, s, n)
            n = int(n)
            vals = [copyval(ldx(s, i)) for i in range(n)]
            for i in range(n):
                stx(d, i, vals[i])
            return d
        env['c_memcpy'] = c_memcpy

        def c_memset(d, c, nbytes, t):
            esz = prog.sizeof(t)
            n = idiv(nbytes, esz)
            if c != 0:
                if t[0] == 'i' and t[1] == 1:
                    for i in range(int(n)):
                        stx(d, i, c)
                    return d
                if t[0] == 'i':
                    b = c & 0xff
                    v = int.from_bytes(bytes([b] * t[1]), 'little',
                                       signed=t[2])
                    for i in range(int(n)):
                        stx(d, i, v)
                    return d
                raise EngineError('memset nonzero')
            if n.__class__ is R and n.const() is None:
                from .csum import sym_memset
                return sym_memset(prog, d, n)
            for i in range(int(n)):
                stx(d, i, prog.default(t, True))
            return d
        env['c_memset'] = c_memset

    # -------------------------------------------------------- functions
    def fn(self, name):
        f = self.compiled.get(name)
        if f is not None:
            return f
        if name in self.overrides:
            f = self.overrides[name]
        elif name in self.intrinsics:
            f = self.intrinsics[name]
        elif name in self.funcs:
            f = self.compile(name)
        else:
            raise EngineError('no definition of C function %s' % name)
        self.compiled[name] = f
        return f

    def __getattr__(self, name):
        if name.startswith('_') or 'funcs' not in self.__dict__:
            raise AttributeError(name)
        if name in self.funcs or name in self.intrinsics:
            return self.fn(name)
        raise AttributeError(name)

    def compile(self, name):
        node = self.funcs[name]
        g = Gen(self, name, 'fast')
        src = g.function(node)
        ns = self.env
        try:
            code = compile(src, '<C:%s>' % name, 'exec')
        except SyntaxError as e:
            raise EngineError('codegen %s: %s' % (name, e))
        exec(code, ns)
        self.called.add(name)
        f = ns['c_' + name]
        f.csource = src
        return f

    def loop_code(self, lid):
        """Frame-mode closures of a loop: (cond, body, step)."""
        key = ('loop', lid)
        if key in self.compiled:
            return self.compiled[key]
        node, snap = self.loops[lid]
        g = Gen(self, snap['fname'], 'frame')
        g.scopes = [dict(s) for s in snap['scopes']]
        g.vtypes = snap['vtypes']
        g.counter = snap['counter']
        g.addr = snap['addr']
        src = g.loop_closures(node)
        ns = self.env
        exec(compile(src, '<Cloop:%s:%s>' % (snap['fname'], lid), 'exec'), ns)
        out = (ns['loop_cond'], ns['loop_body'], ns['loop_step'], node)
        self.compiled[key] = out
        return out

# ------------------------------------------------------------------ codegen
class Gen:
    def __init__(self, prog, fname, mode):
        self.p = prog
        self.fname = fname
        self.mode = mode
        self.scopes = [{}]     # C name -> (pyname, type, boxed)
        self.vtypes = {}
        self.counter = [0]
        self.lines = []
        self.ind = 0
        self.addr = set()
        self.allvars = []
        self.cont = []         # stack of (continue handler)
        self.ret_t = VOID

    # -- output
    def emit(self, s):
        self.lines.append('    ' * self.ind + s)

    def lv(self, py):
        return py if self.mode == 'fast' else 'L.' + py

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    def declare(self, name, t):
        self.counter[0] += 1
        py = 'v_%s' % name
        if any(py == v[0] for sc in self.scopes for v in sc.values()) \
                or py in self.vtypes:
            py = 'v_%s_%d' % (name, self.counter[0])
        boxed = t[0] in ('a', 's') or name in self.addr
        self.scopes[-1][name] = (py, t, boxed)
        self.vtypes[py] = t
        self.allvars.append(py)
        return py, boxed

    # -- function
    def function(self, node):
        name = node.decl.name
        self.ret_t = self.p.ftypes[name]
        self.addr = _addr_taken(node)
        params = []
        pre = []
        args = node.decl.type.args
        if args is not None:
            for a in args.params:
                if isinstance(a, c_ast.EllipsisParam):
                    params.append('*va')
                    continue
                t = self.p.typ(a.type)
                if t == VOID:
                    continue
                if t[0] == 'a':
                    t = ('p', t[1])
                py, boxed = self.declare(a.name, t)
                if t[0] == 's':
                    pre.append('%s = Mem([copyval(%s)])' % (py, py))
                elif boxed:
                    pre.append('%s = Mem([%s])' % (py, py))
                params.append(py)
        pnames = [q for q in params]
        self.allvars = []
        self.ind = 1
        for s in pre:
            self.emit(s)
        body_start = len(self.lines)
        self.block_toplevel(node.body.block_items or [])
        body = self.lines[body_start:]
        head = ['def c_%s(%s):' % (name, ', '.join(params))]
        init = ['    %s = UNINIT' % v for v in self.allvars]
        self.lines = head + self.lines[:body_start] + init + body + ['    return None']
        return '\n'.join(self.lines) + '\n'

    def block_toplevel(self, items):
        """Handles top-level labels (forward gotos)."""
        labels = [i for i, x in enumerate(items) if isinstance(x, c_ast.Label)]
        if not labels:
            for x in items:
                self.stmt(x)
            return
        self._labels(items)

    def _labels(self, items):
        last = None
        for i, x in enumerate(items):
            if isinstance(x, c_ast.Label):
                last = i
        if last is None:
            if not items:
                self.emit('pass')
            for x in items:
                self.stmt(x)
            if not self.lines or not self.lines[-1].strip():
                self.emit('pass')
            return
        lab = items[last]
        # try: everything before; except Goto(lab): pass; then the rest
        self.emit('try:')
        self.ind += 1
        self.emit('pass')
        self._labels(items[:last])
        self.ind -= 1
        self.emit('except Goto as _g:')
        self.emit('    if _g.label != %r: raise' % lab.name)
        self.stmt(lab.stmt)
        for x in items[last + 1:]:
            self.stmt(x)

    # -- statements
    def stmts(self, node):
        n0 = len(self.lines)
        if node is None:
            pass
        elif isinstance(node, c_ast.Compound):
            self.scopes.append({})
            its = node.block_items or []
            if any(isinstance(x, c_ast.Label) for x in its):
                self._labels(its)
            else:
                for x in its:
                    self.stmt(x)
            self.scopes.pop()
        else:
            self.stmt(node)
        if len(self.lines) == n0:
            self.emit('pass')

    def stmt(self, n):
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.expr_stmt(n)

    def s_EmptyStatement(self, n):
        pass

    def s_Compound(self, n):
        self.scopes.append({})
        its = n.block_items or []
        if any(isinstance(x, c_ast.Label) for x in its):
            self._labels(its)
        else:
            for x in its:
                self.stmt(x)
        self.scopes.pop()

    def s_Decl(self, n):
        if isinstance(n.type, c_ast.FuncDecl):
            return
        if n.name is None:
            self.p.typ(n.type)
            return
        t = self.p.typ(n.type) if not _vla(n.type) else None
        if t is None:
            # variable length array
            et = self.p.typ(n.type.type)
            dim, _ = self.expr(n.type.dim)
            py, boxed = self.declare(n.name, ('a', et, None))
            self.emit('%s = Mem([dflt(%r) for _ in range(int(%s))], %r)'
                      % (self.lv(py), et, dim, n.name))
            return
        if t[0] == 'a' and t[2] is None and isinstance(n.init, c_ast.InitList):
            t = ('a', t[1], len(n.init.exprs))
        if 'static' in (n.storage or []):
            gname = '_st_%s_%s' % (self.fname, n.name)
            if gname not in self.p.gtypes:
                self.p.gtypes[gname] = t
                G = self.p.env['G']
                G.__dict__[gname] = (self.p._ginit_val(n.init, t)
                                     if n.init is not None
                                     else self.p.default(t, True))
            self.scopes[-1][n.name] = ('G:' + gname, t, False)
            return
        py, boxed = self.declare(n.name, t)
        lv = self.lv(py)
        if t[0] == 'a':
            if n.init is None:
                self.emit('%s = dflt(%r); %s.name = %r' % (lv, t, lv, n.name))
            else:
                self.emit('%s = dflt(%r, True); %s.name = %r' % (lv, t, lv, n.name))
                self._init_list('P(%s, 0)' % lv, n.init, t)
        elif t[0] == 's':
            if n.init is None:
                self.emit('%s = Mem([dflt(%r)], %r)' % (lv, t, n.name))
            elif isinstance(n.init, c_ast.InitList):
                self.emit('%s = Mem([dflt(%r, True)], %r)' % (lv, t, n.name))
                for (f, ft), x in zip(self.p.structs[t[1]], n.init.exprs):
                    c, ct = self.expr(x)
                    self.emit('%s.a[0].%s = %s' % (lv, f, self.conv(c, ct, ft)))
            else:
                c, ct = self.expr(n.init)
                self.emit('%s = Mem([copyval(%s)], %r)' % (lv, c, n.name))
        else:
            if n.init is None:
                if boxed:
                    self.emit('%s = Mem([UNINIT], %r)' % (lv, n.name))
                else:
                    self.emit('%s = UNINIT' % lv)
            else:
                init = n.init
                if isinstance(init, c_ast.InitList):
                    init = init.exprs[0]
                c, ct = self.expr(init)
                c = self.conv(c, ct, t)
                if boxed:
                    self.emit('%s = Mem([%s], %r)' % (lv, c, n.name))
                else:
                    self.emit('%s = %s' % (lv, c))

    def _init_list(self, ptr, init, t):
        et = t[1]
        if isinstance(init, c_ast.Constant) and init.type == 'string':
            return
        for i, x in enumerate(init.exprs):
            if et[0] == 'a':
                self._init_list('P(ldx(%s, %d), 0)' % (ptr, i), x, et)
            else:
                c, ct = self.expr(x)
                self.emit('stx(%s, %d, %s)' % (ptr, i, self.conv(c, ct, et)))

    def s_DeclList(self, n):
        for d in n.decls:
            self.s_Decl(d)

    def s_If(self, n):
        self.emit('if %s:' % self.cond(n.cond))
        self.ind += 1
        self.stmts(n.iftrue)
        self.ind -= 1
        if n.iffalse is not None:
            self.emit('else:')
            self.ind += 1
            self.stmts(n.iffalse)
            self.ind -= 1

    def s_Return(self, n):
        if self.mode == 'frame':
            self.emit("raise EngineError('return inside a summarised loop')")
            return
        if n.expr is None:
            self.emit('return None')
        else:
            c, t = self.expr(n.expr)
            self.emit('return %s' % self.conv(c, t, self.ret_t))

    def s_Goto(self, n):
        self.emit('raise Goto(%r)' % n.name)

    def s_Label(self, n):
        raise EngineError('label in an unsupported position')

    def s_Break(self, n):
        if not self.cont:
            raise EngineError('break')
        kind = self.cont[-1]
        if kind == 'frameloop':
            self.emit("raise EngineError('break in a summarised loop')")
        else:
            self.emit('break')

    def s_Continue(self, n):
        # innermost loop (skip switches)
        sw = []
        for c in reversed(self.cont):
            if isinstance(c, tuple) and c[0] == 'switch':
                sw.append(c)
                continue
            break
        else:
            raise EngineError('continue')
        if sw:
            # leave the switch pseudo-loops
            for c in sw:
                self.emit('%s = True' % self.lv(c[1]))
            self.emit('break')
            return
        if c == 'frameloop':
            self.emit('return')
            return
        c[1]()
        self.emit('continue')

    def _loop_header(self, node, cond):
        lid = None
        if cond is not None:
            lid = '%s:%d' % (self.fname, len(self.p.loops))
            self.p.loops[lid] = (node, dict(
                fname=self.fname, scopes=[dict(s) for s in self.scopes],
                vtypes=self.vtypes, counter=self.counter, addr=self.addr))
        return lid

    def _loop(self, node, cond, step, body):
        if self.mode == 'frame':
            pass
        lid = self._loop_header(node, cond)
        self.emit('while True:')
        self.ind += 1
        if cond is not None:
            code = self.cond(cond)
            simple = isinstance(cond, c_ast.BinaryOp) and \
                cond.op in ('<', '<=', '>', '>=', '!=')
            if simple:
                vs = [v[0] for s in self.scopes for v in s.values()
                      if not v[0].startswith('G:')]
                vs = sorted(set(vs))
                tup = ', '.join(self.lv(v) for v in vs)
                self.emit('_c = %s' % code)
                self.emit('if _c.__class__ is SymBool and symloop(_c):')
                self.emit('    (%s,) = summarize(%r, %r, (%s,))'
                          % (tup, lid, tuple(vs), tup))
                self.emit('    break')
                self.emit('if not _c: break')
            else:
                self.emit('if not (%s): break' % code)

        def do_step():
            if step is not None:
                self.expr_stmt(step)
        self.cont.append(('loop', do_step))
        self.stmts(body)
        self.cont.pop()
        do_step()
        self.ind -= 1

    def s_For(self, n):
        self.scopes.append({})
        if n.init is not None:
            self.stmt(n.init)
        self._loop(n, n.cond, n.next, n.stmt)
        self.scopes.pop()

    def s_While(self, n):
        c = n.cond
        if isinstance(c, c_ast.Constant) and c.value not in ('0',):
            self._loop(n, None, None, n.stmt)
        else:
            self._loop(n, c, None, n.stmt)

    def s_DoWhile(self, n):
        if isinstance(n.cond, c_ast.Constant) and n.cond.value == '0':
            if not _has_break(n.stmt):
                self.stmts(n.stmt)
                return
            self.emit('while True:')
            self.ind += 1
            self.cont.append(('loop', lambda: self.emit('break')))
            self.stmts(n.stmt)
            self.cont.pop()
            self.emit('break')
            self.ind -= 1
            return
        self.emit('while True:')
        self.ind += 1

        def check():
            self.emit('if not (%s): break' % self.cond(n.cond))
        self.cont.append(('loop', check))
        self.stmts(n.stmt)
        self.cont.pop()
        check()
        self.ind -= 1

    def s_Switch(self, n):
        self.counter[0] += 1
        k = self.counter[0]
        c, t = self.expr(n.cond)
        sv, mv, cv = '_sw%d' % k, '_mt%d' % k, '_ct%d' % k
        L = self.lv
        self.emit('%s = %s; %s = False; %s = False' % (L(sv), c, L(mv), L(cv)))
        self.emit('while True:')
        self.ind += 1
        self.cont.append(('switch', cv))
        items = n.stmt.block_items if isinstance(n.stmt, c_ast.Compound) \
            else [n.stmt]
        cases = []
        for it in items or []:
            if isinstance(it, (c_ast.Case, c_ast.Default)):
                cases.append(it)
            elif cases:
                cases[-1].stmts = (cases[-1].stmts or []) + [it]
        allvals = []
        for it in cases:
            if isinstance(it, c_ast.Case):
                allvals.append(self.expr(it.expr)[0])
        for it in cases:
            if isinstance(it, c_ast.Case):
                cc = '%s or %s == %s' % (L(mv), L(sv), self.expr(it.expr)[0])
            else:
                # default: matches if no case value equals (no fall-in earlier)
                cc = '%s or not (%s)' % (L(mv), ' or '.join(
                    '%s == %s' % (L(sv), v) for v in allvals) or 'False')
            self.emit('if %s:' % cc)
            self.ind += 1
            self.emit('%s = True' % L(mv))
            for x in it.stmts or []:
                self.stmt(x)
            self.ind -= 1
        self.emit('break')
        self.cont.pop()
        self.ind -= 1
        if _has_continue(n.stmt):
            # propagate continue to the enclosing loop
            outer = [x for x in self.cont]
            if outer:
                self.emit('if %s:' % L(cv))
                self.ind += 1
                self.s_Continue(None)
                self.ind -= 1

    def loop_closures(self, node):
        """Frame-mode source of loop_cond(L), loop_body(L), loop_step(L)."""
        if isinstance(node, c_ast.For):
            cond, step, body = node.cond, node.next, node.stmt
        else:
            cond, step, body = node.cond, None, node.stmt
        self.emit('def loop_cond(L):')
        self.ind = 1
        self.emit('return %s' % self.cond(cond))
        self.ind = 0
        self.emit('def loop_step(L):')
        self.ind = 1
        if step is not None:
            self.expr_stmt(step)
        self.emit('return')
        self.ind = 0
        self.emit('def loop_body(L):')
        self.ind = 1
        self.cont = ['frameloop']
        self.stmts(body)
        self.emit('return')
        self.ind = 0
        return '\n'.join(self.lines) + '\n'

    # -- expressions
    def expr_stmt(self, n):
        if isinstance(n, c_ast.ExprList):
            for x in n.exprs:
                self.expr_stmt(x)
            return
        if isinstance(n, c_ast.UnaryOp) and n.op in ('p++', '++', 'p--', '--'):
            op = '+' if '++' in n.op else '-'
            self.emit(self.assign(n.expr, lambda cur, t: self.arith(
                op, cur, t, '1', INT), stmt=True))
            return
        if isinstance(n, c_ast.Assignment):
            self.emit(self.assignment(n, stmt=True))
            return
        c, t = self.expr(n)
        self.emit(c)

    def assignment(self, n, stmt=False):
        if n.op == '=':
            c, t = self.expr(n.rvalue)
            return self.assign(n.lvalue, lambda cur, lt: (c, t), stmt=stmt,
                               needcur=False)
        op = n.op[:-1]
        c, t = self.expr(n.rvalue)
        return self.assign(n.lvalue, lambda cur, lt: self.arith(
            op, cur, lt, c, t), stmt=stmt)

    def assign(self, lval, f, stmt=False, needcur=True):
        """Code assigning to an lvalue; f(cur_code, type) -> (code, type)."""
        kind, data, t = self.lvalue(lval)
        if kind == 'var':
            py = data
            c, ct = f(self.lv(py), t)
            c = self.conv(c, ct, t)
            if stmt:
                return '%s = %s' % (self.lv(py), c)
            if self.mode == 'fast':
                return '(%s := %s)' % (py, c)
            return 'sa(L, %r, %s)' % (py, c)
        if kind == 'glob':
            c, ct = f('G.%s' % data, t)
            c = self.conv(c, ct, t)
            if stmt:
                return 'G.%s = %s' % (data, c)
            return 'sa(G, %r, %s)' % (data, c)
        if kind == 'field':
            so, fld = data
            simple = so.isidentifier() or not needcur
            if needcur and not simple:
                c, ct = f('%s.%s' % (so, fld), t)
            else:
                c, ct = f('%s.%s' % (so, fld), t)
            c = self.conv(c, ct, t)
            if stmt:
                return '%s.%s = %s' % (so, fld, c)
            return 'sa(%s, %r, %s)' % (so, fld, c)
        if kind == 'idx':
            p, i = data
            if needcur and (_effects(p) or _effects(i)):
                self.counter[0] += 1
                pv, iv = '_p%d' % self.counter[0], '_i%d' % self.counter[0]
                if self.mode == 'fast':
                    c, ct = f('ldx((%s := %s), (%s := %s))' % (pv, p, iv, i), t)
                    c = self.conv(c, ct, t)
                    # evaluation order: value first
                    return '(lambda _v: stx(_v[0], _v[1], _v[2]))((%s, %s, %s))' \
                        % ('(%s := %s)' % (pv, p), '(%s := %s)' % (iv, i),
                           self.conv(*f('ldx(%s, %s)' % (pv, iv), t), t))
                raise EngineError('side effects in a summarised lvalue')
            c, ct = f('ldx(%s, %s)' % (p, i), t)
            c = self.conv(c, ct, t)
            return 'stx(%s, %s, %s)' % (p, i, c)
        raise EngineError('lvalue')

    def lvalue(self, n):
        """-> ('var', py, t) | ('glob', name, t) | ('field', (obj, f), t)
        | ('idx', (ptr, idx), t)"""
        if isinstance(n, c_ast.ID):
            v = self.lookup(n.name)
            if v is None:
                t = self.p.gtypes.get(n.name)
                if t is None:
                    raise EngineError('unknown identifier %s' % n.name)
                return 'glob', n.name, t
            py, t, boxed = v
            if py.startswith('G:'):
                return 'glob', py[2:], t
            if boxed:
                if t[0] == 'a':
                    raise EngineError('assignment to an array')
                return 'idx', ('P(%s, 0)' % self.lv(py), '0'), t
            return 'var', py, t
        if isinstance(n, c_ast.ArrayRef):
            p, t = self.expr(n.name)
            i, it = self.expr(n.subscript)
            et = elem(t)
            return 'idx', (p, i), et
        if isinstance(n, c_ast.UnaryOp) and n.op == '*':
            p, t = self.expr(n.expr)
            return 'idx', (p, '0'), elem(t)
        if isinstance(n, c_ast.StructRef):
            so, t = self.structobj(n)
            return 'field', (so, n.field.name), t
        if isinstance(n, c_ast.Cast):
            return self.lvalue(n.expr)
        raise EngineError('lvalue %s' % type(n).__name__)

    def structobj(self, n):
        """Code of the SObj of a StructRef and the field's type."""
        if n.type == '->':
            p, t = self.expr(n.name)
            st_ = elem(t)
            so = 'ld(%s)' % p
        else:
            if isinstance(n.name, c_ast.ID):
                v = self.lookup(n.name.name)
                if v is None:
                    so, st_ = 'G.%s' % n.name.name, self.p.gtypes[n.name.name]
                else:
                    py, st_, boxed = v
                    so = 'ld(P(%s, 0))' % self.lv(py) if not py.startswith('G:') \
                        else 'G.' + py[2:]
            elif isinstance(n.name, c_ast.ArrayRef):
                p, t = self.expr(n.name.name)
                i, _ = self.expr(n.name.subscript)
                st_ = elem(t)
                so = 'ldx(%s, %s)' % (p, i)
            elif isinstance(n.name, c_ast.UnaryOp) and n.name.op == '*':
                p, t = self.expr(n.name.expr)
                st_ = elem(t)
                so = 'ld(%s)' % p
            elif isinstance(n.name, c_ast.StructRef):
                o, ft = self.structobj(n.name)
                st_ = ft
                so = '%s.%s' % (o, n.name.field.name)
            else:
                so, st_ = self.expr(n.name)
        if st_[0] != 's':
            raise EngineError('struct access on %s' % (st_,))
        for f, ft in self.p.structs.get(st_[1], []):
            if f == n.field.name:
                return so, ft
        raise EngineError('no field %s in %s' % (n.field.name, st_))

    def conv(self, c, ct, t):
        """Implicit conversion code."""
        if ct == t or t[0] == 'v':
            return c
        if is_int(t):
            if is_flt(ct):
                c = 'toint(%s)' % c
                if t == UINT:
                    return 'u32(%s)' % c
                return c
            if is_int(ct):
                if t[1] == 4 and not t[2]:
                    if _nonneg_const(c):
                        return c
                    return 'u32(%s)' % c
                if t[1] == 4 and t[2] and (not ct[2] or ct[1] > 4):
                    if _nonneg_const(c):
                        return c
                    return 'i32(%s)' % c
                if t[1] == 8 and not t[2] and ct[2]:
                    if _nonneg_const(c):
                        return c
                    return 'u64(%s)' % c
                if t == ('i', 1, False):
                    return 'u8(%s)' % c
            return c
        if t[0] == 'p':
            if is_int(ct):
                if c == '0':
                    return 'None'
                return 'None if not (%s) else _badptr()' % c
            if t[1] != VOID and ct[0] == 'p' and ct[1] == VOID:
                return 'castp(%s, %r)' % (c, t[1])
            return c
        if t[0] == 's':
            return 'copyval(%s)' % c
        return c

    def usual(self, a, b):
        """Usual arithmetic conversions."""
        if is_flt(a) or is_flt(b):
            return DBL
        if not (is_int(a) and is_int(b)):
            raise EngineError('arithmetic on %s %s' % (a, b))
        a = INT if a[1] < 4 else a
        b = INT if b[1] < 4 else b
        if a[1] != b[1]:
            return a if a[1] > b[1] else b
        if not a[2]:
            return a
        return b

    def arith(self, op, a, ta, b, tb):
        if is_ptr(ta) and op in '+-' and is_int(tb):
            if op == '-':
                return 'padd(%s, -(%s))' % (a, b), ('p', elem(ta))
            return 'padd(%s, %s)' % (a, b), ('p', elem(ta))
        if is_ptr(tb) and op == '+' and is_int(ta):
            return 'padd(%s, %s)' % (b, a), ('p', elem(tb))
        if is_ptr(ta) and is_ptr(tb) and op == '-':
            return 'psub(%s, %s)' % (a, b), LONG
        if op in ('<<', '>>', '&', '|', '^'):
            t = self.usual(ta, tb)
            c = '(%s %s %s)' % (a, op, b)
            return self._wrap(c, t), t
        t = self.usual(ta, tb)
        if op == '/':
            if is_int(t):
                return 'idiv(%s, %s)' % (a, b), t
            return 'fdiv(%s, %s)' % (a, b), t
        if op == '%':
            return 'imod(%s, %s)' % (a, b), t
        c = '(%s %s %s)' % (a, op, b)
        return self._wrap(c, t), t

    def _wrap(self, c, t):
        if is_int(t) and not t[2]:
            return '%s(%s)' % ('u32' if t[1] == 4 else 'u64', c)
        return c

    def cond(self, n):
        """Python condition code."""
        if isinstance(n, c_ast.BinaryOp):
            if n.op in ('<', '<=', '>', '>=', '==', '!='):
                return self.compare(n)
            if n.op == '&&':
                return '((%s) and (%s))' % (self.cond(n.left), self.cond(n.right))
            if n.op == '||':
                return '((%s) or (%s))' % (self.cond(n.left), self.cond(n.right))
        if isinstance(n, c_ast.UnaryOp) and n.op == '!':
            return '(not (%s))' % self.cond(n.expr)
        c, t = self.expr(n)
        if is_ptr(t) or t[0] == 'fn':
            return '(%s) is not None' % c
        return '(%s) != 0' % c

    def compare(self, n):
        a, ta = self.expr(n.left)
        b, tb = self.expr(n.right)
        if is_ptr(ta) or is_ptr(tb) or ta[0] == 'fn':
            if a == '0':
                a = 'None'
            if b == '0':
                b = 'None'
            if n.op == '==':
                return 'peq(%s, %s)' % (a, b)
            if n.op == '!=':
                return '(not peq(%s, %s))' % (a, b)
            return {'<': 'plt(%s, %s)', '<=': 'ple(%s, %s)',
                    '>': 'plt(%s, %s)', '>=': 'ple(%s, %s)'}[n.op] % (
                        (a, b) if n.op in ('<', '<=') else (b, a))
        t = self.usual(ta, tb)
        if is_int(t) and not t[2]:
            # signed/unsigned comparison
            a = self.conv(a, ta, t)
            b = self.conv(b, tb, t)
        return '(%s %s %s)' % (a, n.op, b)

    def expr(self, n):
        return getattr(self, 'e_' + type(n).__name__)(n)

    def e_Constant(self, n):
        if n.type == 'string':
            return n.value, ('p', CHAR)
        if n.type == 'char':
            return str(ord(eval(n.value))), INT
        v = n.value
        if n.type in ('float', 'double', 'long double') or (
                ('.' in v or 'e' in v.lower()) and not v.lower().startswith('0x')):
            v = v.rstrip('fFlL')
            f = Fraction(v)
            if not self.p.exact:
                return repr(float(v)), DBL
            if f.denominator == 1:
                return '%d' % f.numerator, DBL
            K = self.p.env['K']
            K.append(f)
            return 'K[%d]' % (len(K) - 1), DBL
        uns = 'u' in v.lower() and not v.lower().startswith('0x') or v.lower().endswith('u')
        lng = v.lower().rstrip('u').endswith('l')
        k = int(v.rstrip('uUlL'), 0)
        t = INT
        if k > 0x7fffffff:
            t = UINT if k <= 0xffffffff else LONG
        if uns:
            t = UINT
        if lng:
            t = ULONG if uns else LONG
        return str(k), t

    def e_ID(self, n):
        v = self.lookup(n.name)
        if v is None:
            if n.name in self.p.enums:
                return str(self.p.enums[n.name]), INT
            t = self.p.gtypes.get(n.name)
            if t is not None:
                if t[0] == 'a':
                    return 'P(G.%s, 0)' % n.name, ('p', t[1])
                return 'G.%s' % n.name, t
            if n.name in self.p.ftypes or n.name in self.p.intrinsics:
                return 'call(%r)' % n.name, ('fn', self.p.ftypes.get(n.name, INT))
            raise EngineError('unknown identifier %s' % n.name)
        py, t, boxed = v
        if py.startswith('G:'):
            py = 'G.' + py[2:]
            if t[0] == 'a':
                return 'P(%s, 0)' % py, ('p', t[1])
            return py, t
        if t[0] == 'a':
            return 'P(%s, 0)' % self.lv(py), ('p', t[1])
        if boxed:
            return 'ld(P(%s, 0))' % self.lv(py), t
        return self.lv(py), t

    def e_ArrayRef(self, n):
        p, t = self.expr(n.name)
        i, it = self.expr(n.subscript)
        if is_ptr(it) and is_int(t):
            p, t, i, it = i, it, p, t
        et = elem(t)
        if et[0] == 'a':
            return 'P(ldx(%s, %s), 0)' % (p, i), ('p', et[1])
        return 'ldx(%s, %s)' % (p, i), et

    def e_StructRef(self, n):
        so, t = self.structobj(n)
        c = '%s.%s' % (so, n.field.name)
        if t[0] == 'a':
            return 'P(%s, 0)' % c, ('p', t[1])
        return c, t

    def e_UnaryOp(self, n):
        op = n.op
        if op == '&':
            return self.addrof(n.expr)
        if op == '*':
            p, t = self.expr(n.expr)
            if t[0] == 'fn':
                return p, t
            if t[0] == 'p' and t[1][0] == 'fn':
                return p, t[1]
            et = elem(t)
            if et[0] == 'a':
                return 'P(ld(%s), 0)' % p, ('p', et[1])
            return 'ld(%s)' % p, et
        if op == '-':
            c, t = self.expr(n.expr)
            t = INT if is_int(t) and t[1] < 4 else t
            return self._wrap('(-(%s))' % c, t), t
        if op == '+':
            return self.expr(n.expr)
        if op == '~':
            c, t = self.expr(n.expr)
            return self._wrap('(~(%s))' % c, t), t
        if op == '!':
            return '(0 if (%s) else 1)' % self.cond(n.expr), INT
        if op == 'sizeof':
            if isinstance(n.expr, c_ast.Typename):
                return str(self.p.sizeof(self.p.typ(n.expr))), ULONG
            if isinstance(n.expr, c_ast.ID):
                v = self.lookup(n.expr.name)
                if v is not None:
                    return str(self.p.sizeof(v[1])), ULONG
            c, t = self.expr(n.expr)
            return str(self.p.sizeof(t)), ULONG
        if op in ('++', '--'):
            o = op[0]
            kind, data, t = self.lvalue(n.expr)
            return self.assign(n.expr, lambda cur, lt: self.arith(
                o, cur, lt, '1', INT)), t
        if op in ('p++', 'p--'):
            o = op[1]
            kind, data, t = self.lvalue(n.expr)
            c = self.assign(n.expr, lambda cur, lt: self.arith(
                o, cur, lt, '1', INT))
            inv, _ = self.arith('-' if o == '+' else '+', c, t, '1', INT)
            return inv, t
        raise EngineError('unary %s' % op)

    def addrof(self, e):
        if isinstance(e, c_ast.ID):
            v = self.lookup(e.name)
            if v is None:
                if e.name in self.p.gtypes:
                    t = self.p.gtypes[e.name]
                    if t[0] == 'a':
                        return 'P(G.%s, 0)' % e.name, ('p', t[1])
                    if t[0] == 's':
                        return 'P(Mem([G.%s]), 0)' % e.name, ('p', t)
                    return 'P(FieldMem(G, %r), 0)' % e.name, ('p', t)
                return self.e_ID(e)[0], ('p', ('fn', self.p.ftypes.get(e.name, INT)))
            py, t, boxed = v
            if py.startswith('G:'):
                if t[0] == 'a':
                    return 'P(G.%s, 0)' % py[2:], ('p', t)
                return 'P(FieldMem(G, %r), 0)' % py[2:], ('p', t)
            return 'P(%s, 0)' % self.lv(py), ('p', t if t[0] != 'a' else t)
        if isinstance(e, c_ast.ArrayRef):
            p, t = self.expr(e.name)
            i, _ = self.expr(e.subscript)
            return 'padd(%s, %s)' % (p, i), ('p', elem(t))
        if isinstance(e, c_ast.UnaryOp) and e.op == '*':
            return self.expr(e.expr)
        if isinstance(e, c_ast.StructRef):
            so, t = self.structobj(e)
            if t[0] == 's':
                return 'P(Mem([%s.%s]), 0)' % (so, e.field.name), ('p', t)
            if t[0] == 'a':
                return 'P(%s.%s, 0)' % (so, e.field.name), ('p', t[1])
            return 'P(FieldMem(%s, %r), 0)' % (so, e.field.name), ('p', t)
        if isinstance(e, c_ast.Cast):
            return self.addrof(e.expr)
        raise EngineError('address of %s' % type(e).__name__)

    def e_BinaryOp(self, n):
        if n.op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'):
            return '(1 if %s else 0)' % self.cond(n), INT
        a, ta = self.expr(n.left)
        b, tb = self.expr(n.right)
        return self.arith(n.op, a, ta, b, tb)

    def e_TernaryOp(self, n):
        a, ta = self.expr(n.iftrue)
        b, tb = self.expr(n.iffalse)
        if is_ptr(ta) or is_ptr(tb):
            t = ta if is_ptr(ta) else tb
            if a == '0':
                a = 'None'
            if b == '0':
                b = 'None'
        elif ta == tb:
            t = ta
        elif ta[0] == 'v' or tb[0] == 'v':
            t = VOID
        else:
            t = self.usual(ta, tb)
        return '(%s if %s else %s)' % (a, self.cond(n.cond), b), t

    def e_Assignment(self, n):
        kind, data, t = self.lvalue(n.lvalue)
        return self.assignment(n), t

    def e_ExprList(self, n):
        cs = [self.expr(x) for x in n.exprs]
        return '(%s)[-1]' % ('(' + ', '.join(c for c, t in cs) + ',)'), cs[-1][1]

    def e_Cast(self, n):
        t = self.p.typ(n.to_type)
        c, ct = self.expr(n.expr)
        if is_ptr(t):
            if is_int(ct):
                return ('None' if c == '0' else self.conv(c, ct, t)), t
            if elem(t) != VOID and (ct[0] == 'p' and ct[1] == VOID):
                return 'castp(%s, %r)' % (c, elem(t)), t
            return c, t
        if t[0] == 'v':
            return c, t
        return self.conv(c, ct, t), t

    def e_FuncCall(self, n):
        args = n.args.exprs if n.args is not None else []
        if isinstance(n.name, c_ast.ID):
            name = n.name.name
            v = self.lookup(name)
            if v is None:
                if name in ('memcpy', 'memmove'):
                    d, dt = self.expr(args[0])
                    s, st_ = self.expr(args[1])
                    nb, _ = self.expr(args[2])
                    et = elem(dt) if elem(dt) != VOID else elem(st_)
                    return 'c_memcpy(%s, %s, %s, %d)' % (
                        d, s, nb, self.p.sizeof(et)), dt
                if name == 'memset':
                    d, dt = self.expr(args[0])
                    c, _ = self.expr(args[1])
                    nb, _ = self.expr(args[2])
                    return 'c_memset(%s, %s, %s, %r)' % (d, c, nb, elem(dt)), dt
                rt = self.p.ftypes.get(name)
                if rt is None and name not in self.p.intrinsics:
                    raise EngineError('call of an unknown function %s' % name)
                rt = rt if rt is not None else INT
                fd = self.p.funcs.get(name)
                pts = None
                if fd is not None and fd.decl.type.args is not None:
                    pts = [self.p.typ(a.type) for a in fd.decl.type.args.params
                           if not isinstance(a, c_ast.EllipsisParam)]
                cs = []
                for i, a in enumerate(args):
                    c, ct = self.expr(a)
                    if pts is not None and i < len(pts):
                        pt = pts[i]
                        if pt[0] == 'a':
                            pt = ('p', pt[1])
                        c = self.conv(c, ct, pt)
                    cs.append(c)
                return 'call(%r)(%s)' % (name, ', '.join(cs)), rt
        f, ft = self.expr(n.name)
        if ft[0] == 'p':
            ft = ft[1]
        rt = ft[1] if ft[0] == 'fn' else INT
        cs = [self.expr(a)[0] for a in args]
        return '(%s)(%s)' % (f, ', '.join(cs)), rt

    def e_InitList(self, n):
        raise EngineError('initializer list in an expression')

def _nonneg_const(c):
    return c.isdigit()

def _effects(c):
    return ':=' in c or 'sa(' in c or 'call(' in c or 'stx(' in c

def _vla(t):
    if isinstance(t, c_ast.ArrayDecl) and t.dim is not None:
        return not isinstance(t.dim, (c_ast.Constant, c_ast.BinaryOp)) \
            and not _is_const_dim(t.dim)
    return False

def _is_const_dim(d):
    if isinstance(d, c_ast.Constant):
        return True
    if isinstance(d, c_ast.BinaryOp):
        return _is_const_dim(d.left) and _is_const_dim(d.right)
    return False

class _AddrVisitor(c_ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_UnaryOp(self, n):
        if n.op == '&':
            e = n.expr
            while isinstance(e, c_ast.Cast):
                e = e.expr
            if isinstance(e, c_ast.ID):
                self.names.add(e.name)
        self.generic_visit(n)

def _addr_taken(node):
    v = _AddrVisitor()
    v.visit(node)
    return v.names

def _has(node, kinds, stop):
    found = []

    def rec(n):
        for _, c in n.children():
            if isinstance(c, kinds):
                found.append(c)
                return
            if isinstance(c, stop):
                continue
            rec(c)
    if isinstance(node, kinds):
        return True
    rec(node)
    return bool(found)

def _has_break(node):
    return _has(node, (c_ast.Break, c_ast.Continue),
                (c_ast.For, c_ast.While, c_ast.DoWhile, c_ast.Switch))

def _has_continue(node):
    return _has(node, (c_ast.Continue,),
                (c_ast.For, c_ast.While, c_ast.DoWhile))
