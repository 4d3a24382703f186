"""Symbolic and concrete worlds in which contracts are evaluated."""
import ctypes as ct
import random
from fractions import Fraction
import numpy as np
from . import sym
from .sym import (R, SymBool, EngineError, Infeasible, var, ivar, fresh, lift,
                  bound_sum, prove_zero, prove, subst)

class Bad(Exception):
    """Harness misuse."""

# ============================================================ common
class World:
    symbolic = False

    def called(self):
        return set()

    def finish(self):
        pass

    # vector conveniences shared by contracts
    def eqs(self, label, A, B):
        A = np.asarray(A, dtype=object)
        B = np.asarray(B, dtype=object)
        if A.shape != B.shape:
            self.true(label + '/shape %s vs %s' % (A.shape, B.shape), False)
            return
        for ix in np.ndindex(*A.shape):
            self.eq('%s%s' % (label, list(ix) if ix else ''), A[ix], B[ix])

# ============================================================ symbolic
class SymBase(World):
    symbolic = True

    def __init__(self, suite, con, case):
        self.suite, self.con, self.case = suite, con, case
        self.obs = []

    def assume(self, c):
        sym.assume(c)

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        v = var(name)
        if pos:
            sym.assume(v > 0)
        if lo is not None:
            sym.assume(v >= lo)
        if hi is not None:
            sym.assume(v <= hi)
        if nonzero:
            sym.assume(v != 0)
        return v

    def size(self, name, lo=2):
        v = ivar(name)
        sym.assume(v >= lo)
        return v

    def index(self, name, n):
        if n.__class__ is int:
            if n == 1:
                return 0
        v = ivar(name)
        sym.assume(v >= 0)
        sym.assume(v < n)
        return v

    def sum(self, n, f, name='k'):
        if n.__class__ is int:
            r = lift(0)
            for i in range(n):
                r = r + f(i)
            return r
        k = fresh(name, True)
        p = sym.CTX.path
        old_pc, old_known = list(p.pc), dict(p.known)
        for c in (k >= 0, k < n):
            p.pc.append(c)
            p._learn(c, True)
        try:
            v = lift(f(k))
        finally:
            p.pc[:] = old_pc
            p.known.clear()
            p.known.update(old_known)
        return bound_sum(k, 0, n, v)

    def reals(self, name, *shape, pos=False):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + ''.join('_%d' % i for i in ix), pos=pos)
        return a

    def eq(self, label, a, b):
        try:
            d = lift(a) - lift(b)
        except EngineError:
            raise
        except Exception as e:
            self.obs.append((label, 'refuted', 'not comparable: %r %r' % (a, b)))
            return
        st, how = prove_zero(d, list(sym.CTX.path.pc))
        if st == 'refuted':
            if how is None:
                # confirm that the path itself is feasible
                st2, m = prove(False, list(sym.CTX.path.pc))
                if st2 == 'proved':
                    st, how = 'proved', 'path infeasible'
                elif st2 == 'unknown' :
                    how = 'difference %s' % _short(d)
                else:
                    how = 'difference %s %s' % (_short(d), _mod(m))
            else:
                how = 'difference %s %s' % (_short(d), _mod(how))
        self.obs.append((label, st, how))

    def true(self, label, c):
        if c.__class__ is not SymBool:
            if bool(c):
                self.obs.append((label, 'proved', 'evaluated'))
                return
        st, how = prove(c, list(sym.CTX.path.pc))
        if st == 'refuted':
            how = '%s fails %s' % (_short(c), _mod(how))
        self.obs.append((label, st, how))

    def implies(self, a, b):
        return sym.implies(a, b)

    def frac(self, a, b):
        return sym.const(Fraction(a, b))

def _short(x):
    s = str(x)
    return s if len(s) < 400 else s[:400] + '...'

def _mod(m):
    if not m:
        return ''
    if isinstance(m, dict):
        return 'at ' + ', '.join('%s=%s' % (k, v) for k, v in list(m.items())[:10])
    return str(m)[:200]

class ConBase(World):
    symbolic = False
    tol = 1e-7

    def __init__(self, suite, con, case, seed):
        self.suite, self.con, self.case = suite, con, case
        self.rng = random.Random(seed)
        self.fails = []
        self.nchecks = 0
        self.log = {}
        self.tol = con.opts.get('tol', 1e-7)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        if lo is not None or hi is not None:
            l = lo if lo is not None else hi - 3
            h = hi if hi is not None else lo + 3
            v = l + (h - l) * self.rng.random()
        elif pos:
            v = 0.2 + 1.5 * self.rng.random()
        else:
            v = self.rng.uniform(-1.5, 1.5)
        self.log[name] = v
        return float(v)

    def size(self, name, lo=2):
        v = lo + self.rng.randrange(3)
        self.log[name] = v
        return v

    def index(self, name, n):
        return self.rng.randrange(int(n))

    def sum(self, n, f, name='k'):
        return sum((f(i) for i in range(int(n))), 0.0)

    def reals(self, name, *shape, pos=False):
        a = np.empty(shape, dtype=float)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + ''.join('_%d' % i for i in ix), pos=pos)
        return a

    def eq(self, label, a, b):
        self.nchecks += 1
        try:
            if isinstance(a, R):
                a = float(a)
            if isinstance(b, R):
                b = float(b)
            if isinstance(a, complex) or isinstance(b, complex):
                ok = abs(a - b) <= self.tol * (1.0 + abs(a) + abs(b))
            else:
                a, b = float(a), float(b)
                # No reference value (overflow in the specification): nothing to compare.
                ok = b != b or a == b or abs(a - b) <= self.tol * (1.0 + abs(a) + abs(b))
        except Exception as e:
            ok = False
        if not ok:
            self.fails.append((label, 'got %r, specified %r' % (a, b)))

    def true(self, label, c):
        self.nchecks += 1
        if isinstance(c, SymBool):
            raise Bad('symbolic condition in the concrete world')
        if not bool(c):
            self.fails.append((label, 'false'))

    def implies(self, a, b):
        return (not a) or b

    def frac(self, a, b):
        return a / b

# ============================================================ C world
class SField:
    def __init__(self, p, m, dims):
        self.p, self.m = p, m
        self.nCell, self.nLev, self.nRow, self.nCol = dims

    def __call__(self, c, l, r, j):
        """Value now (after any calls made)."""
        if self.nCell.__class__ is int and self.nCell == 1:
            c = 0
        if self.nLev.__class__ is int and self.nLev == 1:
            l = 0
        q = lift(c) * self.nLev + l
        return self.m.get(q * (self.nRow * self.nCol) + r * self.nCol + j)

    def old(self, c, l, r, j):
        """Value before the call."""
        if self.nCell.__class__ is int and self.nCell == 1:
            c = 0
        if self.nLev.__class__ is int and self.nLev == 1:
            l = 0
        q = lift(c) * self.nLev + l
        return sym.read(self.m.name, (q, r * self.nCol + j))

    def set_cell(self, c):
        s = self.p._m.get(0)
        s.val = s.val0 + lift(c) * self.nLev * (self.nRow * self.nCol)

class SMapping:
    pass

class SymC(SymBase):
    def __init__(self, suite, con, case):
        SymBase.__init__(self, suite, con, case)
        self.prog = suite.prog()
        for k in list(getattr(self.prog, 'stubbed', ())):
            self.prog.compiled.pop(k, None)
        self.prog.stubbed = set()
        sym.CTX.schemas = []
        self.prog.env['G'].g_error = 0
        self.prog.called = set(self.prog.called)
        self.fields = []
        self.writes0 = {}

    def called(self):
        return set(self.prog.called)

    def field(self, name, nCell, nLev, nRow, nCol, out=False, pos=False,
              inout=False, full=None, offset=0):
        """full, offset: a sub-block view: rows of `full` columns, the block
        starts at `offset`; the returned accessor takes full coordinates."""
        from .csum import sfmf
        p, m = sfmf(self.prog, name, nCell, nLev, nRow, full or nCol,
                    'uninit' if out else 'read')
        if full:
            p._m.get(0).__dict__.update(nCol=nCol, nColFull=full, offset=offset,
                                        cellSize=nLev * (nRow * nCol))
        f = SField(p, m, (nCell, nLev, nRow, full or nCol))
        if not out and not inout:
            self.fields.append((name, m))
        return f

    def vec(self, name, stride, n=None, is_int=False, out=False):
        """A flat array of n*stride values; v(i, k)."""
        from .csum import SMem
        from .cmem import P
        m = SMem(name, stride, None if n is None else lift(n) * stride,
                 'uninit' if out else 'read', is_int)
        if not out:
            self.fields.append((name, m))

        class V:
            pass
        v = V()
        v.p = P(m, 0)
        v.m = m

        def at(i, k=0):
            return m.get(lift(i) * stride + k)
        v.at = at
        return v

    def forall(self, field, fn):
        """Precondition on every cell/level: fn(get) with get(r, c)."""
        m, nc = field.m, field.nCol
        st = field.nRow * nc

        def at(q):
            return fn(lambda r, c: sym.read(m.name, (q, r * nc + c)))
        sym.CTX.schemas.append((m.name, at))

    def stub(self, fname, handler):
        """Use the callee's contract instead of its body (modular)."""
        self.prog.compiled[fname] = handler
        self.prog.stubbed.add(fname)

    def stub_inverse(self):
        """geme_invert3x3() by its contract: level-wise inverse matrices."""
        from .csum import SMem
        prog = self.prog

        def inv(pI, p):
            A, B = p._m.get(p._o), pI._m.get(pI._o)
            n, dim = A.nLev, A.nRow
            if not (A.nCol == dim and B.nRow == dim and B.nCol == dim):
                raise Mismatch('geme_invert3x3: shapes')
            d2 = dim * dim
            mem, mi = A.val._m, B.val._m
            l = sym.fresh('lv', True)
            if not (mem.__class__ is SMem and mi.__class__ is SMem):
                raise EngineError('stub: memory')
            # the value of an arbitrary level
            sym.CTX.path.pc += [c for c in (l >= 0, l < n) if c.__class__ is SymBool]
            a = [mem.get(A.val._o + l * d2 + k) for k in range(d2)]
            for k in range(d2):
                e = self.minv(a, dim, k // dim, k % dim)
                q, kk = mi.decode(lift(B.val._o) + l * d2 + k)
                mi.put(kk, ('all', ((l, sym.ZERO, lift(n)),), q, e))
            return 0
        self.stub('geme_invert3x3', inv)

    def root3inv2(self, x):
        return sym.rpow(sym.root(lift(x), 3), -2)

    def pospart(self, x):
        return sym.ite(sym.cmp_('lt', -lift(x)), x, 0)

    def minv(self, a, dim, i, j):
        """Entry (i, j) of the inverse of the dim x dim matrix a (row list)."""
        return sym.fun('minv%d%d%d' % (dim, i, j), *a)

    def conn(self, name, nEl, nEP, nNod):
        v = self.vec(name, nEP, nEl, is_int=True)
        # every entry is a valid node index (representation invariant)
        v.m.inv = lambda x: (x >= 0, x < nNod)
        return v

    def state(self, name, dpn, offset=0):
        """FMField over a DOF vector; at(node, k) = value[offset + dpn * node + k]."""
        v = self.vec(name, dpn)
        p = self.prog.new('FMField')
        n = self.size(name + '_n', 1)
        p._m.get(0).__dict__.update(nCell=1, nLev=1, nRow=n, nCol=dpn,
                                    val0=v.p, val=v.p, nAlloc=-1,
                                    cellSize=n * dpn, offset=0, nColFull=dpn)
        w = SMapping()
        w.p = p
        w.at = lambda i, k=0: v.m.get(lift(i) * dpn + (k + offset))
        return w

    def mapping(self, name, nEl, nQP, dim, nEP, surface=False, nbf=None,
                bfcells=1, detcells=None):
        if self.case.get('_bf') and bfcells == 1:
            bfcells = nEl        # basis functions given per cell
        vg = SMapping()
        vg.bf = self.field(name + '_bf', bfcells, nQP, 1, nbf or nEP)
        vg.bfg = self.field(name + '_bfg', nEl, nQP, dim, nEP)
        vg.det = self.field(name + '_det', nEl, nQP, 1, 1)
        vg.volume = self.field(name + '_vol', nEl, 1, 1, 1)
        vg.normal = self.field(name + '_normal', nEl, nQP, dim, 1) if surface else None
        p = self.prog.new('Mapping')
        s = p._m.get(0)
        s.__dict__.update(nEl=nEl, nQP=nQP, dim=dim, nEP=nEP, bf=vg.bf.p,
                          bfGM=vg.bfg.p, det=vg.det.p, volume=vg.volume.p,
                          normal=vg.normal.p if surface else None)
        vg.p = p
        return vg

    def call(self, fname, *args):
        args = [a.p if hasattr(a, 'p') else a for a in args]
        ret = self.prog.fn(fname)(*args)
        return ret

    def finish(self):
        for name, m in self.fields:
            self.true('frame: %s unchanged' % name,
                      not any(m.w.get(k) for k in m.w))

    # small dense arrays
    def fmf(self, a):
        from . import ch
        return ch.fmf(self.prog, a)

    def arr(self, a):
        from . import ch
        return ch.ptr(a)

    def out_array(self, *shape, fill=None):
        from .cmem import UNINIT
        a = np.empty(shape, dtype=object)
        a.fill(UNINIT if fill is None else fill)
        return a

class ConC(ConBase):
    def __init__(self, suite, con, case, seed):
        ConBase.__init__(self, suite, con, case, seed)
        self.lib = suite.clib()
        self.keep = []
        self.frames = []

    def _fmf(self, a):
        S = self.lib.struct('FMField')
        sh = (1,) * (4 - a.ndim) + a.shape
        s = S()
        s.nCell, s.nLev, s.nRow, s.nCol = sh
        ptr = a.ctypes.data
        s.val0 = s.val = ptr
        s.nAlloc = -1
        s.cellSize = sh[1] * sh[2] * sh[3]
        s.offset = 0
        s.nColFull = sh[3]
        self.keep += [a, s]
        return ct.addressof(s)

    def field(self, name, nCell, nLev, nRow, nCol, out=False, pos=False,
              inout=False, full=None, offset=0):
        nc = full or nCol
        n = nCell * nLev * nRow * nc
        if out:
            a = np.full((nCell, nLev, nRow, nc), np.nan)
        else:
            a = np.array([self.real(name, pos=pos) for _ in range(n)]).reshape(
                (nCell, nLev, nRow, nc))
            if not inout:
                self.frames.append((name, a, a.copy()))
        a0 = a.copy()

        class F:
            pass
        f = F()
        f.p = self._fmf(a)
        f.a = a
        st = self.keep[-1]
        if full:
            st.nCol, st.nColFull, st.offset = nCol, full, offset
            st.cellSize = nLev * nRow * nCol

        class FF:
            p = f.p
            def __call__(s, c, l, r, j):
                return a[c if a.shape[0] > 1 else 0, l if a.shape[1] > 1 else 0, r, j]
            def old(s, c, l, r, j):
                return a0[c if a.shape[0] > 1 else 0, l if a.shape[1] > 1 else 0, r, j]
            def set_cell(s, c):
                st.val = st.val0 + 8 * int(c) * a[0].size
        return FF()

    def vec(self, name, stride, n=None, is_int=False, out=False):
        n = int(n if n is not None else 6)
        if is_int:
            a = np.zeros((n, stride), dtype=np.int32)
        elif out:
            a = np.full((n, stride), np.nan)
        else:
            a = np.array([self.real(name) for _ in range(n * stride)]).reshape((n, stride))
        if not out:
            self.frames.append((name, a, a.copy()))
        self.keep.append(a)

        class V:
            pass
        v = V()
        v.p = a.ctypes.data
        v.a = a
        v.at = lambda i, k=0: (int(a[int(i), k]) if is_int else a[int(i), k])
        return v

    def forall(self, field, fn):
        pass

    def stub_inverse(self):
        pass

    def root3inv2(self, x):
        return x ** (-2.0 / 3.0)

    def pospart(self, x):
        return max(x, 0.0)

    def minv(self, a, dim, i, j):
        return np.linalg.inv(np.array(a, dtype=float).reshape((dim, dim)))[i, j]

    def conn(self, name, nEl, nEP, nNod):
        v = self.vec(name, nEP, nEl, is_int=True)
        for ix in np.ndindex(*v.a.shape):
            v.a[ix] = self.rng.randrange(nNod)
        self.frames[-1] = (name, v.a, v.a.copy())
        return v

    def state(self, name, dpn, offset=0):
        v = self.vec(name, dpn, 16)
        S = self.lib.struct('FMField')
        f = S()
        f.nCell, f.nLev, f.nRow, f.nCol = 1, 1, 16, dpn
        f.val0 = f.val = v.p
        f.nAlloc, f.cellSize, f.offset, f.nColFull = -1, 16 * dpn, 0, dpn
        self.keep.append(f)

        class W:
            p = ct.addressof(f)
            @staticmethod
            def at(i, k=0):
                return v.a.reshape(-1)[offset + dpn * int(i) + k]
        return W

    def mapping(self, name, nEl, nQP, dim, nEP, surface=False, nbf=None,
                bfcells=1, detcells=None):
        if self.case.get('_bf') and bfcells == 1:
            bfcells = nEl        # basis functions given per cell
        class M:
            pass
        vg = M()
        vg.bf = self.field(name + '_bf', bfcells, nQP, 1, nbf or nEP)
        vg.bfg = self.field(name + '_bfg', nEl, nQP, dim, nEP)
        vg.det = self.field(name + '_det', nEl, nQP, 1, 1, pos=True)
        vg.volume = self.field(name + '_vol', nEl, 1, 1, 1, pos=True)
        vg.normal = self.field(name + '_normal', nEl, nQP, dim, 1) if surface else None
        s = self.lib.struct('Mapping')()
        s.nEl, s.nQP, s.dim, s.nEP = nEl, nQP, dim, nEP
        s.bf, s.bfGM, s.det, s.volume = vg.bf.p, vg.bfg.p, vg.det.p, vg.volume.p
        if surface:
            s.normal = vg.normal.p
        self.keep.append(s)
        vg.p = ct.addressof(s)
        return vg

    def call(self, fname, *args):
        args = [a.p if hasattr(a, 'p') else a for a in args]
        return self.lib.call(fname, *args)

    def finish(self):
        for name, a, b in self.frames:
            self.true('frame: %s unchanged' % name, np.array_equal(a, b))

    def fmf(self, a):
        return self._fmf(a)

    def arr(self, a):
        self.keep.append(a)
        return a.ctypes.data

    def out_array(self, *shape, fill=None):
        return np.full(shape, np.nan if fill is None else fill, dtype=float)

def sym_world(suite, con, case):
    if con.kind == 'c':
        return SymC(suite, con, case)
    from .pyworld import SymPy
    return SymPy(suite, con, case)

def conc_world(suite, con, case, seed):
    if con.kind == 'c':
        return ConC(suite, con, case, seed)
    from .pyworld import ConPy
    return ConPy(suite, con, case, seed)
