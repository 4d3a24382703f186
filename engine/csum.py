"""
Unbounded loops of the C executor.

A loop whose bound is a symbolic integer is replaced by its effect, justified
by an inductive argument that is checked on every run: the body is executed
once for an *arbitrary* iteration ``i`` from a state in which everything the
loop may write holds an arbitrary value.  Inferred (and thereby verified)
invariant shapes, per written location:

- unchanged;  - induction variable (init + (i - lo) * c);
- accumulation (init + Sum_{j<i} f(j), f free of loop state);
- last value (only the current iteration's value is ever read);
- array cells indexed injectively by the iteration (each iteration writes its
  own cells and reads no cell another iteration writes).

Anything else is out of reach (EngineError), never silently accepted.
"""
from . import cmem, sym
from .cmem import (P, Mem, NdMem, FieldMem, SObj, UNINIT, MemError, RawAlloc)
from .sym import (R, SymBool, EngineError, ivar, var, fresh, lift, const, read,
                  bound_sum, subst, depends, ATOMS, content, z3_check, CTX,
                  ZERO)
from pycparser import c_ast

class PoisonUse(Exception):
    def __init__(self, loc):
        self.loc = loc

class Poison:
    def __init__(self, loc):
        self.__dict__['loc'] = loc

    def _r(self, *a, **k):
        raise PoisonUse(self.loc)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise PoisonUse(self.loc)

for _n in ('add radd sub rsub mul rmul truediv rtruediv neg abs pow rpow lt le '
           'gt ge bool index int float mod rmod floordiv rfloordiv eq ne').split():
    setattr(Poison, '__%s__' % _n, Poison._r)
Poison.__hash__ = object.__hash__

# ------------------------------------------------------------ logging
class _Log:
    active = None       # current Log or None
    lenient = False

class Log:
    def __init__(self):
        self.undo = []
        self.written = {}     # loc key -> (obj, field/idx)
        self.smems = {}       # id -> SMem (written)
        self.sreads = []      # (smem, q, k) served by pre-iteration content
        self.parent = None

_orig_mem_set = Mem.set

def _mem_set(self, o, v):
    lg = _Log.active
    if lg is None:
        return _orig_mem_set(self, o, v)
    k = cmem._cidx(o)
    if k is None:
        raise EngineError('symbolic index write to a concrete buffer in a '
                          'summarised loop')
    if k < 0 or k >= len(self.a):
        raise MemError('write out of bounds: %s[%s], size %d'
                       % (self.name, k, len(self.a)))
    key = ('m', id(self), k)
    if key not in lg.written:
        lg.written[key] = (self, k)
    lg.undo.append(('m', self, k, self.a[k]))
    self.a[k] = v

def _sobj_set(self, f, v):
    lg = _Log.active
    d = self.__dict__
    if lg is not None:
        key = ('f', id(self), f)
        if key not in lg.written:
            lg.written[key] = (self, f)
        lg.undo.append(('f', self, f, d.get(f, UNINIT)))
    d[f] = v

import os as _os
DEBUG = _os.environ.get('VERIF_DEBUG')

class SMem(cmem.Born):
    """A buffer of symbolic length: cells (q, k), 0 <= k < stride."""
    def __init__(self, name, stride=1, count=None, base='read', is_int=False):
        self.name = name
        self.stride = stride
        self.count = count       # number of elements (R) or None
        self.base = base         # 'read' | 'zero' | 'uninit'
        self.is_int = is_int
        self.hv = {}             # k -> name: cells of unknown content
        self.inv = None          # representation invariant of the entries
        self.w = {}              # k -> list of entries (oldest first)

    @staticmethod
    def alloc(count, zero=True):
        c = lift(count)
        st = content(c) if not c.is_const() else 1
        sym._fresh[0] += 1
        return SMem('tmp!%d' % sym._fresh[0], int(st), c,
                    'zero' if zero else 'uninit')

    def size(self):
        return self.count

    def decode(self, off):
        off = lift(off)
        s = self.stride
        q = {}
        k = 0
        for m, c in off.t.items():
            if not m:
                if c.__class__ is not int:
                    raise EngineError('fractional index')
                k = c % s
                if c // s:
                    q[()] = c // s
            else:
                if c.__class__ is not int or c % s:
                    raise EngineError('index %s of %s does not follow the '
                                      'stride %d' % (off, self.name, s))
                q[m] = c // s
        return R(q), k

    @staticmethod
    def _unclassified_name(q):
        return any('pre!' in ATOMS[a].name for a in lift(q).atoms()
                   if ATOMS[a].kind == 'var')

    @staticmethod
    def _unclassified(q):
        # a location not yet classified; re-executed strictly afterwards
        return _Log.lenient and any('pre!' in ATOMS[a].name for a in q.atoms()
                                    if ATOMS[a].kind == 'var')

    def _check(self, q, what):
        """Bounds obligation: 0 <= q*stride + k < count."""
        if self.count is None:
            return
        n = self.count / self.stride
        if self._unclassified(q):
            return
        for c in (q >= 0, q < n):
            if not provable(c):
                r = z3_check(CTX.path.pc + [~c], 5000) if c.__class__ is SymBool else 'sat'
                if r == 'unsat':
                    continue
                if r != 'sat':
                    raise EngineError('bounds of %s[%s] undecided' % (self.name, q))
                raise OOB('%s of %s at index %s is not within %s'
                          % (what, self.name, q, n))

    def get(self, off):
        q, k = self.decode(off)
        self._check(q, 'read')
        for e in reversed(self.w.get(k, ())):
            if e[0] == 'pt':
                d = q - e[1]
                if not d.t:
                    return e[2]
                c = d.const()
                if c is not None:
                    continue
                if provable(sym.SymBool('not', sym.cmp_('eq', d))
                            if sym.cmp_('eq', d).__class__ is SymBool
                            else not sym.cmp_('eq', d)):
                    continue
                if provable(sym.cmp_('eq', d)):
                    return e[2]
                if self._unclassified(q):
                    return fresh('junk!pre!')
                raise EngineError('aliasing of %s[%s] and [%s] undecided'
                                  % (self.name, q, e[1]))
            else:
                _, vs, qe, val = e
                sol = solve(vs, qe, q)
                if sol is None:
                    if self._unclassified(q):
                        return fresh('junk!pre!')
                    raise EngineError('cannot match %s[%s] with the loop '
                                      'writes [%s]' % (self.name, q, qe))
                ok = all(provable(lift(lo) <= s_) and provable(s_ < hi)
                         for (v, lo, hi), s_ in zip(vs, sol))
                if ok:
                    mp = {_vid(v): s_ for (v, lo, hi), s_ in zip(vs, sol)}
                    return subst(val, mp) if val.__class__ is R else val
                out = any(provable(s_ < lo) or provable(lift(hi) <= s_)
                          for (v, lo, hi), s_ in zip(vs, sol))
                if out:
                    continue
                if self._unclassified(q):
                    return fresh('junk!pre!')
                raise EngineError('range of %s[%s] undecided' % (self.name, q))
        lg = _Log.active
        while lg is not None:
            lg.sreads.append((self, q, k))
            lg = lg.parent
        if k in self.hv:
            return read(self.hv[k], (q, k), self.is_int)
        if self.base == 'zero':
            return 0
        if self.base == 'uninit':
            raise MemError('read of uninitialised %s' % self.name)
        v = read(self.name, (q, k), self.is_int)
        if self.inv is not None:
            for c in self.inv(v):
                CTX.path.assume(c)
        return v

    def set(self, off, v):
        q, k = self.decode(off)
        self._check(q, 'write')
        self.put(k, ('pt', q, v))

    def put(self, k, entry):
        lg = _Log.active
        if lg is not None:
            if id(self) not in lg.smems:
                lg.smems[id(self)] = self
            lg.undo.append(('s', self, k, self.w.get(k)))
        l = self.w.get(k, ())
        if entry[0] == 'pt':
            l = tuple(e for e in l if not (e[0] == 'pt' and e[1].t == entry[1].t))
        else:
            # an earlier loop over the same cells is overwritten
            l = tuple(e for e in l if not (e[0] == 'all' and _same_cover(e, entry)))
        self.w[k] = l + (entry,)

class OOB(MemError):
    pass

def _same_cover(e1, e2):
    """Do two loop entries write the same set of cells?"""
    v1, v2 = e1[1], e2[1]
    if len(v1) != len(v2):
        return False
    mp = {}
    for (a, lo1, hi1), (b, lo2, hi2) in zip(v1, v2):
        if (subst(lift(lo1), mp).t != lift(lo2).t
            or subst(lift(hi1), mp).t != lift(hi2).t):
            return False
        mp[_vid(a)] = b
    return subst(e1[2], mp).t == e2[2].t

def band_(c):
    return c

def rollback(undo):
    for u in reversed(undo):
        if u[0] == 'm':
            u[1].a[u[2]] = u[3]
        elif u[0] == 'f':
            if u[3] is UNINIT and False:
                pass
            u[1].__dict__[u[2]] = u[3]
        else:
            if u[3] is None:
                u[1].w.pop(u[2], None)
            else:
                u[1].w[u[2]] = u[3]

def _vid(v):
    (m, _), = v.t.items()
    return m[0][0]

def solve(vs, qe, q):
    """Solve qe(vs) = q; each var must occur linearly with a monomial
    coefficient.  -> list of R or None (verified by substitution)."""
    coefs = []
    for (v, lo, hi) in vs:
        vid = _vid(v)
        cv = {}
        for m, c in qe.t.items():
            d = dict(m)
            if vid in d:
                if d[vid] != 1:
                    return None
                cv[tuple((a, e) for a, e in m if a != vid)] = c
        if len(cv) != 1:
            return None
        (m, c), = cv.items()
        coefs.append((m, c))
    rest = R({m: c for m, c in qe.t.items()
              if not any(a == _vid(v) for (v, lo, hi) in vs for a, e in m)})
    target = q - rest
    order = sorted(range(len(vs)), key=lambda i: -len(coefs[i][0]))
    sols = [None] * len(vs)
    rem = dict(target.t)
    for i in order:
        m, c = coefs[i]
        sol = {}
        for mm in list(rem):
            d = dict(mm)
            if all(d.get(a, 0) >= e for a, e in m):
                k = rem[mm]
                if c != 1:
                    if k % c:
                        continue
                    k = k // c
                for a, e in m:
                    d[a] -= e
                sol[tuple(sorted((a, e) for a, e in d.items() if e))] = k
                del rem[mm]
        sols[i] = R(sol)
    if rem:
        return None
    return sols

def provable(c):
    if c is True:
        return True
    if c is False:
        return False
    p = CTX.path
    if p is None:
        raise EngineError('no path')
    k = p.known.get(c.key())
    if k is not None:
        return k
    ck = ('prv', c.key(), len(p.pc))
    cache = p.__dict__.setdefault('_prv', {})
    if ck in cache:
        return cache[ck]
    r = z3_check(p.pc + [~c], 3000) == 'unsat'
    cache[ck] = r
    return r

class SubPath:
    """Branching inside the generic iteration: data-dependent branches fork
    the iteration; the results are merged by indicator functions."""
    def __init__(self, parent, extra, localdep, prefix=()):
        self.prefix = list(prefix)
        self.dec = []            # [(cond, value, alternative open)]
        self.parent = parent
        self.pc = parent.pc + extra
        self.known = dict(parent.known)
        self._extra = extra
        for c in extra:
            sym.Path._learn(self, c, True)
        self.localdep = localdep

    _learn = sym.Path._learn
    assume = sym.Path.assume

    def branch(self, c):
        k = self.known.get(c.key())
        if k is not None:
            return k
        if z3_check(self.pc + [~c], 2000) == 'unsat':
            self.known[c.key()] = True
            return True
        if z3_check(self.pc + [c], 2000) == 'unsat':
            self.known[c.key()] = False
            return False
        if self.localdep(c):
            for ax in sym.instances(c):
                self.pc.append(ax)
            if z3_check(self.pc + [~c], 2000) == 'unsat':
                self.known[c.key()] = True
                return True
            if z3_check(self.pc + [c], 2000) == 'unsat':
                self.known[c.key()] = False
                return False
            n = len(self.dec)
            if n < len(self.prefix):
                if self.prefix[n][0].key() != c.key():
                    raise EngineError('branches of an iteration differ')
                v = self.prefix[n][1]
                self.dec.append((c, v, False))
            else:
                if n >= 6:
                    raise EngineError('too many data-dependent branches in a '
                                      'summarised loop')
                v = True
                self.dec.append((c, v, True))
            cc = c if v else ~c
            self.pc.append(cc)
            self._learn(c, v)
            return v
        v = self.parent.branch(c)
        cc = c if v else ~c
        self.pc.append(cc)
        self._learn(c, v)
        return v

def cond_atoms(c):
    if c.op in ('lt', 'le', 'eq'):
        return c.a.atoms()
    if c.op == 'not':
        return cond_atoms(c.a)
    s = set()
    for x in c.a:
        s |= cond_atoms(x)
    return s

class _Assigned(c_ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Assignment(self, n):
        if isinstance(n.lvalue, c_ast.ID):
            self.names.add(n.lvalue.name)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if n.op in ('++', '--', 'p++', 'p--') and isinstance(n.expr, c_ast.ID):
            self.names.add(n.expr.name)
        self.generic_visit(n)

class Frame:
    pass

class Summarizer:
    def __init__(self):
        self.count = 0

    def install(self, prog):
        prog.summarizer = self
        Mem.set = _mem_set
        SObj.__setattr__ = _sobj_set

    def wants(self, c):
        if c.op not in ('lt', 'le', 'not', 'eq'):
            return False
        return all(ATOMS[a].is_int for a in cond_atoms(c))

    def run(self, prog, lid, names, vals):
        cond, body, step, node = prog.loop_code(lid)
        snap = prog.loops[lid][1]
        path = CTX.path
        if path is None:
            raise EngineError('summarisation outside exploration')
        av = _Assigned()
        av.visit(node)
        c2py = {}
        for s in snap['scopes']:
            for cn, v in s.items():
                c2py[cn] = v
        assigned = {c2py[n][0] for n in av.names if n in c2py}
        entry = dict(zip(names, vals))
        # loop variable: the operand of the condition assigned by the loop
        cn = node.cond
        cands = [x.name for x in (cn.left, cn.right)
                 if isinstance(x, c_ast.ID) and x.name in c2py
                 and c2py[x.name][0] in assigned]
        if len(cands) != 1:
            raise EngineError('loop variable not identified')
        lv = c2py[cands[0]][0]
        lo = lift(entry[lv])
        i = fresh('it', True)

        def frame(model):
            L = Frame()
            for n, v in entry.items():
                setattr(L, n, v)
            setattr(L, lv, model['__i'])
            return L
        # bound
        L = frame({'__i': i})
        c = cond(L)
        if c.__class__ is not SymBool:
            raise EngineError('loop condition')
        if c.op == 'not' and c.a.op == 'eq':
            a = c.a.a
            coef = a.t.get(((_vid(i), 1),))
            if coef is None:
                raise EngineError('loop bound')
            hi = i - a / coef
        elif c.op in ('lt', 'le'):
            a = c.a
            coef = a.t.get(((_vid(i), 1),))
            if coef != 1:
                raise EngineError('loop bound (direction)')
            hi = i - a
            if c.op == 'le':
                hi = hi + 1
        else:
            raise EngineError('loop bound')
        if sym.rdepends(hi, i):
            raise EngineError('loop bound')
        # does it run at all?
        nz = lo < hi
        if not nz if nz.__class__ is bool else not path.branch(nz):
            return vals
        cnt = hi - lo
        ck = content(cnt)
        block = int(ck) if (ck.__class__ is int and ck > 1) else 1
        n_it = cnt / block
        extra = [x for x in (i >= 0, i < n_it) if x.__class__ is SymBool]

        models = {}      # loc -> dict(kind=..., ...)
        havoc_mem = {}   # id(SMem) -> (SMem, fresh name)
        local_ids = {_vid(i)}
        locs = {('l', n): None for n in assigned if n in entry and n != lv}

        def init_of(loc):
            if loc[0] == 'l':
                return entry[loc[1]]
            if loc[0] == 'm':
                return self_objs[loc][0].a[loc[2]]
            if loc[0] == 'f':
                return self_objs[loc][0].__dict__.get(loc[2], UNINIT)
            if loc[0] == 's':
                m = self_objs[loc]
                return m[0].get(m[0].stride * m[1] + m[2])
        self_objs = {}
        def value_for(loc):
            md = models.get(loc)
            if md is None:
                return Poison(loc)
            if md['kind'] == 'sym':
                return md['val']
            if md['kind'] == 'ind':
                return md['at'](i)
        lenient0 = _Log.lenient
        lenient = True
        for attempt in range(200):
            _Log.lenient = lenient or lenient0
            def one(prefix):
                _Log.lenient = lenient or lenient0
                log = Log()
                log.start = cmem.Born.clock
                log.parent = _Log.active
                prev_active = _Log.active
                sub = SubPath(path, list(extra), lambda c: any(
                    any(depends(a, v) for v in local_ids) for a in cond_atoms(c)), prefix)
                lq0 = {}
                _Log.active = None
                pre_undo = []
                poison = None
                new = None
                snew = None
                hv = []
                try:
                    # install havocked / modelled values
                    for loc in list(locs):
                        if loc[0] == 'm':
                            o, k = self_objs[loc]
                            pre_undo.append(('m', o, k, o.a[k]))
                            o.a[k] = value_for(loc)
                        elif loc[0] == 'f':
                            o, f = self_objs[loc]
                            pre_undo.append(('f', o, f, o.__dict__.get(f, UNINIT)))
                            o.__dict__[f] = value_for(loc)
                        elif loc[0] == 's':
                            o, q, k = self_objs[loc]
                            pre_undo.append(('s', o, k, o.w.get(k)))
                            l = tuple(e for e in o.w.get(k, ())
                                      if not (e[0] == 'pt' and e[1].t == q.t))
                            o.w[k] = l + (('pt', q, value_for(loc)),)
                    for mid, (m, nme, ks) in havoc_mem.items():
                        hv.append((m, m.hv, m.w))
                        m.hv = {**m.hv, **{kk: nme for kk in ks}}
                        m.w = {kk: l for kk, l in m.w.items() if kk not in ks}
                    _Log.active = log
                    CTX.path = sub
                    L = frame({'__i': lo + block * i})
                    for loc in locs:
                        if loc[0] == 'l':
                            setattr(L, loc[1], value_for(loc))
                    g0 = dict(prog.env['G'].__dict__)
                    try:
                        for kk in range(block):
                            if kk > 0:
                                # the loop variable must have advanced by one
                                if not self._eq(getattr(L, lv), lo + block * i + kk):
                                    raise EngineError('loop step')
                                setattr(L, lv, lo + block * i + kk)
                            body(L)
                            step(L)
                        if not self._eq(getattr(L, lv), lo + block * i + block):
                            raise EngineError('loop step')
                        if any(g0.get(k_) is not v_ and not self._same(g0.get(k_), v_)
                               for k_, v_ in prog.env['G'].__dict__.items()):
                            raise EngineError('global state changed in a loop')
                    except PoisonUse as e:
                        poison = e.loc
                    # collect results before rollback
                    new = {}
                    if poison is None:
                        for loc in locs:
                            if loc[0] == 'l':
                                new[loc] = getattr(L, loc[1])
                            elif loc[0] == 'm':
                                new[loc] = self_objs[loc][0].a[loc[2]]
                            elif loc[0] == 'f':
                                new[loc] = self_objs[loc][0].__dict__[loc[2]]
                            else:
                                o, q, k = self_objs[loc]
                                for e in reversed(o.w.get(k, ())):
                                    if e[0] == 'pt' and e[1].t == q.t:
                                        new[loc] = e[2]
                                        break
                    snew = {}
                    for mid, m in log.smems.items():
                        if not self._old(m, log):
                            continue
                        snew[mid] = (m, {k: l for k, l in m.w.items()})
                finally:
                    _Log.active = None
                    _Log.lenient = lenient0
                    CTX.path = path
                    rollback(log.undo)
                    for m, h_, w_ in hv:
                        m.hv, m.w = h_, w_
                    rollback(pre_undo)
                    _Log.active = prev_active
                return poison, new, snew, log, sub
            work, runs = [[]], []
            while work:
                pf = work.pop()
                poison, new, snew, log, sub = one(pf)
                if poison is not None:
                    break
                runs.append(([d[:2] for d in sub.dec], (new, snew, log)))
                for kk in range(len(pf), len(sub.dec)):
                    if sub.dec[kk][2]:
                        work.append([d[:2] for d in sub.dec[:kk]]
                                    + [(sub.dec[kk][0], False)])
            if poison is None:
                try:
                    new, snew, log = self._merge(runs, 0)
                except PoisonUse as e:
                    poison = e.loc
            if DEBUG and attempt > 150:
                print('attempt', attempt, lid, lenient, 'poison', poison,
                      {l: (m['kind'], m['init']) for l, m in models.items()}
                      if attempt > 197 else '')
            if poison is not None:
                self._make_sym(poison, init_of(poison), models, local_ids, prog,
                               lo, snap)
                if poison[0] in 'ms':
                    # the other known cells of the same buffer likewise
                    for loc in list(locs):
                        if (loc[0] == poison[0] and loc[1] == poison[1]
                            and loc not in models):
                            try:
                                v0 = init_of(loc)
                            except MemError:
                                continue
                            if v0 is UNINIT or v0 is None or v0.__class__ in (Poison, P):
                                continue
                            self._make_sym(loc, v0, models, local_ids, prog,
                                           lo, snap)
                continue
            # newly discovered locations
            grew = False
            for key, (o, k) in log.written.items():
                if not self._old(o, log):
                    continue
                loc = ('m', key[1], k) if key[0] == 'm' else ('f', key[1], k)
                if loc not in locs:
                    locs[loc] = None
                    self_objs[loc] = (o, k)
                    grew = True
            # symbolic buffers
            for mid, (m, w) in snew.items():
                pre = m.w
                for k, l in w.items():
                    hk = mid in havoc_mem and k in havoc_mem[mid][2]
                    base_l = () if hk else pre.get(k, ())
                    for e in l:
                        if any(e is b for b in base_l):
                            continue
                        if e[0] == 'pt':
                            if lenient and m._unclassified_name(e[1]):
                                continue
                            if not self._dep(e[1], i):
                                loc = ('s', mid, k, e[1].key())
                                if loc not in locs and not hk:
                                    locs[loc] = None
                                    self_objs[loc] = (m, e[1], k)
                                    grew = True
                        else:
                            if lenient and m._unclassified_name(e[2]):
                                continue
                            if not self._dep(e[2], i):
                                if not hk:
                                    if mid not in havoc_mem:
                                        sym._fresh[0] += 1
                                        havoc_mem[mid] = (m, 'pre!%d' % sym._fresh[0], set())
                                    havoc_mem[mid][2].add(k)
                                    hk = True
                                    for loc in [x for x in locs if x[0] == 's' and x[1] == mid
                                                and self_objs[x][2] == k]:
                                        del locs[loc]
                                        models.pop(loc, None)
                                    grew = True
            if DEBUG and attempt > 197:
                print('attempt', 'grew', grew, [(l, self_objs[l][0].__class__, getattr(self_objs[l][0], 'name', '')) for l in locs if l[0] != 'l'][-6:], [(h[0].name, h[1:]) for h in havoc_mem.values()][-6:],
                      {l: (m['val'], new.get(l)) for l, m in models.items() if m['kind'] == 'sym'})
            if grew:
                continue
            # induction variables
            again = False
            for loc, md in models.items():
                if md['kind'] != 'sym' or loc not in new:
                    continue
                nv = new[loc]
                dlt = self._delta(nv, md['val'])
                if dlt is None:
                    continue
                if not dlt.t:
                    # unchanged by the loop: use the initial value
                    v0 = md['init']
                    models[loc] = dict(kind='ind', init=v0, c=ZERO,
                                       at=lambda it, v0=v0: v0)
                    again = True
                elif md['int'] and not any(depends(a, x) for a in dlt.atoms()
                                           for x in local_ids):
                    v0 = md['init']
                    models[loc] = dict(
                        kind='ind', init=v0, c=dlt,
                        at=lambda it, v0=v0, d=dlt: self._shift(v0, it * d))
                    again = True
            if again:
                continue
            if lenient:
                lenient = False
                continue
            break
        else:
            _Log.lenient = lenient0
            raise EngineError('loop summarisation did not stabilise')
        self.count += 1
        # -------- finalize
        for loc, md in models.items():
            if md['kind'] == 'sym' and md.get('stride', 1) != 1:
                raise EngineError('pointer %s does not move by whole strides'
                                  % (loc,))
        res = {}
        last = n_it - 1
        mp_last = {_vid(i): last}
        pre_ids = {}
        for loc, md in models.items():
            if md['kind'] == 'sym':
                pre_ids[_vid(md['sym'])] = loc
        havoc_names = {h[1] for h in havoc_mem.values()}

        def has_pre(v):
            if v.__class__ is P:
                return has_pre(v._o)
            if v.__class__ is not R:
                return False
            for a in v.atoms():
                for x in pre_ids:
                    if depends(a, x):
                        return True
                if havoc_names and _reads(a, havoc_names):
                    return True
            return False
        for loc in locs:
            nv = new[loc]
            md = models.get(loc)
            if nv.__class__ is Poison:
                # never written after all
                res[loc] = ('keep',) if nv.loc == loc else ('poison',)
                continue
            if md is not None and md['kind'] == 'ind':
                want = md['at'](i + 1)
                if not self._eqv(nv, want):
                    raise EngineError('induction not maintained')
                res[loc] = ('set', md['at'](n_it))
                continue
            if md is not None:
                d = self._delta(nv, md['val'])
                if d is not None and not has_pre(d):
                    if not d.t:
                        res[loc] = ('keep',)
                        continue
                    res[loc] = ('set', self._shift(md['init'],
                                                   bound_sum(i, 0, n_it, d)))
                    continue
            if has_pre(nv) or _obj_local(nv):
                res[loc] = ('poison',)
                continue
            if nv.__class__ is R:
                res[loc] = ('set', subst(nv, mp_last))
            elif nv.__class__ is P:
                res[loc] = ('set', P(nv._m, subst(lift(nv._o), mp_last)
                                     if nv._o.__class__ is R else nv._o))
            else:
                res[loc] = ('set', nv)
        # does any pre-symbol escape into array contents?
        puts = []
        for mid, (m, w) in snew.items():
            pre = m.w
            hks = havoc_mem[mid][2] if mid in havoc_mem else ()
            for k in hks:
                for e in w.get(k, ()):
                    qq = e[1] if e[0] == 'pt' else e[2]
                    if self._dep(qq, i):
                        raise EngineError('mixed writes to %s' % m.name)
            for k, l in w.items():
                if k in hks:
                    continue
                fresh_e = [e for e in l if not any(e is b for b in pre.get(k, ()))]
                dep = []
                for e in fresh_e:
                    if e[0] == 'pt':
                        if self._dep(e[1], i):
                            dep.append(((), e[1], e[2]))
                    else:
                        dep.append((tuple(e[1]), e[2], e[3]))
                if not dep:
                    continue
                if len(dep) > 1:
                    raise EngineError('several writes per iteration to %s' % m.name)
                vs, qe, val = dep[0]
                if has_pre(val) or has_pre(qe):
                    raise EngineError('loop-carried dependence through %s' % m.name)
                allv = ((i, ZERO, n_it),) + vs
                if not self._injective(allv, qe, path):
                    raise EngineError('writes to %s may collide' % m.name)
                # cross-iteration reads
                for (rm, rq, rk) in log.sreads:
                    if rm is m and rk == k:
                        if vs:
                            sol = solve(vs, qe, rq)
                            ok = sol is not None
                            # the read cell belongs to this iteration if qe can
                            # be matched with the same i (checked by subst)
                            if not ok:
                                raise EngineError('cross-iteration read of %s' % m.name)
                        elif rq.t != qe.t:
                            raise EngineError('cross-iteration read of %s' % m.name)
                puts.append((m, k, ('all', allv, qe, val)))
        # apply
        for loc, r in res.items():
            if r[0] == 'keep':
                continue
            v = r[1] if r[0] == 'set' else Poison(loc)
            if loc[0] == 'l':
                entry[loc[1]] = v
            elif loc[0] == 'm':
                o, k = self_objs[loc]
                o.set(k, v)
            elif loc[0] == 'f':
                o, f = self_objs[loc]
                setattr(o, f, v)
            else:
                o, q, k = self_objs[loc]
                o.put(k, ('pt', q, v))
        for m, k, e in puts:
            m.put(k, e)
        for mid, (m, nme, ks) in havoc_mem.items():
            lg = _Log.active
            if lg is not None:
                raise EngineError('nested whole-buffer havoc')
            sym._fresh[0] += 1
            m.hv = {**m.hv, **{kk: 'post!%d' % sym._fresh[0] for kk in ks}}
            m.w = {kk: l for kk, l in m.w.items() if kk not in ks}
        # nested logs see the reads of the inner loop generically
        entry[lv] = hi
        return tuple(entry[n] for n in names)

    # ---------------------------------------------------------- merging
    def _merge(self, runs, depth):
        if len(runs) == 1:
            return runs[0][1]
        c = runs[0][0][depth][0]
        g = {True: [], False: []}
        for r in runs:
            if r[0][depth][0].key() != c.key():
                raise EngineError('branches of an iteration differ')
            g[r[0][depth][1]].append(r)
        n1, s1, l1 = self._merge(g[True], depth + 1)
        n2, s2, l2 = self._merge(g[False], depth + 1)
        ind = sym.indicator(c)

        def mv(a, b):
            if a is b:
                return a
            if a.__class__ is P and b.__class__ is P and a._m is b._m:
                if self._eq(a._o, b._o):
                    return a
                raise EngineError('pointers differ after a branch')
            if a.__class__ is Poison and b.__class__ is Poison and a.loc == b.loc:
                return a
            for x in (a, b):
                if x.__class__ is Poison:
                    raise PoisonUse(x.loc)
            if a is UNINIT or b is UNINIT:
                return UNINIT
            num = (int, float, R, SymBool)
            from fractions import Fraction
            if not all(isinstance(x, num + (Fraction,)) for x in (a, b)):
                if a == b:
                    return a
                raise EngineError('values %r, %r differ after a branch' % (a, b))
            a, b = lift(a), lift(b)
            if a.t == b.t:
                return a
            return ind * a + (1 - ind) * b
        new = {}
        for loc in set(n1) | set(n2):
            if loc not in n1 or loc not in n2:
                raise EngineError('locations differ after a branch')
            new[loc] = mv(n1[loc], n2[loc])
        snew = {}
        for mid in set(s1) | set(s2):
            m = (s1.get(mid) or s2.get(mid))[0]
            w1 = s1[mid][1] if mid in s1 else m.w
            w2 = s2[mid][1] if mid in s2 else m.w
            out = {}
            for k in set(w1) | set(w2):
                a1, a2 = list(w1.get(k, ())), list(w2.get(k, ()))
                pre = list(m.w.get(k, ()))
                base = [e for e in a1 if any(e is x for x in pre)]
                f1 = [e for e in a1 if not any(e is x for x in pre)]
                f2 = [e for e in a2 if not any(e is x for x in pre)]
                res = []
                for e in f1:
                    if e[0] != 'pt':
                        o = [x for x in f2 if x[0] == 'all' and x[2].t == e[2].t]
                        if len(o) != 1 or e[3] is not o[0][3] and lift(e[3]).t != lift(o[0][3]).t:
                            raise EngineError('inner loops differ after a branch')
                        res.append(e)
                        continue
                    o = [x for x in f2 if x[0] == 'pt' and x[1].t == e[1].t]
                    v2 = o[0][2] if o else m.get(m.stride * e[1] + k)
                    res.append(('pt', e[1], mv(e[2], v2)))
                for e in f2:
                    if e[0] == 'pt':
                        if not any(x[0] == 'pt' and x[1].t == e[1].t for x in f1):
                            v1 = m.get(m.stride * e[1] + k)
                            res.append(('pt', e[1], mv(v1, e[2])))
                    elif not any(x[0] == 'all' and x[2].t == e[2].t for x in f1):
                        raise EngineError('inner loops differ after a branch')
                out[k] = tuple(base + res)
            snew[mid] = (m, out)
        l1.written.update({k: v for k, v in l2.written.items()
                           if k not in l1.written})
        l1.sreads += l2.sreads
        return new, snew, l1

    # ---------------------------------------------------------- helpers
    def _old(self, o, log):
        return o._birth <= log.start

    def _eq(self, a, b):
        try:
            return not (lift(a) - lift(b)).t
        except EngineError:
            return False

    def _same(self, a, b):
        if a is b:
            return True
        try:
            return bool(a == b)
        except Exception:
            return False

    def _eqv(self, a, b):
        if a.__class__ is P and b.__class__ is P:
            return cmem.same_mem(a._m, b._m) and self._eq(a._o, b._o)
        return self._eq(a, b)

    def _dep(self, r, i):
        return sym.rdepends(lift(r), i)

    def _delta(self, nv, s):
        if nv.__class__ is P and s.__class__ is P:
            if not cmem.same_mem(nv._m, s._m):
                return None
            return lift(nv._o) - lift(s._o)
        if nv.__class__ is P or s.__class__ is P or nv.__class__ is Poison:
            return None
        try:
            return lift(nv) - lift(s)
        except EngineError:
            return None

    def _shift(self, v0, d):
        if v0.__class__ is P:
            return P(v0._m, v0._o + d)
        return lift(v0) + d

    def _make_sym(self, loc, init, models, local_ids, prog, lo, snap):
        if loc in models:
            raise EngineError('poison loop')
        if init is UNINIT or init is None or init.__class__ is Poison:
            raise EngineError('loop reads an uninitialised location')
        is_int = init.__class__ in (P, int) or (
            init.__class__ is R and all(ATOMS[a].is_int for a in init.atoms())
            and not init.is_const())
        if loc[0] == 'l':
            t = snap['vtypes'].get(loc[1])
            if t is not None:
                is_int = t[0] != 'f'
        elif init.__class__ is not P:
            is_int = False
        s = fresh('pre', is_int)
        local_ids.add(_vid(s))
        stride = 1
        if init.__class__ is P:
            stride = getattr(init._m, 'stride', 1)
            # pointers into strided buffers are assumed to move by whole
            # strides; anything but such an induction variable is refused
            val = P(init._m, init._o + stride * s if stride != 1 else s)
        else:
            val = s
        models[loc] = dict(kind='sym', sym=s, val=val, init=init, int=is_int,
                           stride=stride)

    def _injective(self, vs, qe, path):
        """Different index tuples (within their ranges) write different q."""
        base = list(path.pc)
        r1, r2, eqs = {}, {}, []
        conds = list(base)
        same = []
        for (v, lo, hi) in vs:
            a, b = fresh('a', True), fresh('b', True)
            r1[_vid(v)] = a
            r2[_vid(v)] = b
            same.append(a - b)
        for (v, lo, hi) in vs:
            for r in (r1, r2):
                x = r[_vid(v)]
                for c in (x >= subst(lift(lo), r), x < subst(lift(hi), r)):
                    if c.__class__ is SymBool:
                        conds.append(c)
        d = subst(qe, r1) - subst(qe, r2)
        # common shape: q = v0*N + v1 with 0 <= v1 < N (N symbolic): help z3
        lin = solve(vs, qe, qe)
        if lin is None:
            return False
        eq = sym.cmp_('eq', d)
        if eq is False:
            return True
        ne = None
        for s_ in same:
            c = SymBool('not', SymBool('eq', s_))
            ne = c if ne is None else (ne | c)
        conds += [eq, ne]
        if z3_check(conds, 4000) == 'unsat':
            return True
        # Euclidean argument: coefficients of the variables form a mixed-radix
        # system: sort by coefficient size, each coefficient == product of the
        # next coefficient and the extent of the next variable (or a multiple)
        return _mixed_radix(vs, qe)

def _mixed_radix(vs, qe):
    """q = sum v_j * c_j with c_last = const and c_j = c_{j+1} * extent_{j+1},
    extents from zero: mixed-radix representation, hence injective."""
    items = []
    for (v, lo, hi) in vs:
        if lift(lo).t:
            return False
        vid = _vid(v)
        c = {}
        for m, k in qe.t.items():
            d = dict(m)
            if vid in d:
                if d[vid] != 1:
                    return False
                c[tuple((a, e) for a, e in m if a != vid)] = k
        c = R(c)
        if not c.t:
            return False
        items.append((c, lift(hi)))
    # try all orders (few variables)
    import itertools
    for perm in itertools.permutations(items):
        ok = True
        for j in range(len(perm) - 1):
            if (perm[j][0] - perm[j + 1][0] * perm[j + 1][1]).t:
                ok = False
                break
        if ok and perm[-1][0].is_const():
            return True
    return False

def _obj_local(v):
    return False

_RD = {}

def _reads(aid, names):
    at = ATOMS[aid]
    if at.kind == 'read' and at.data[0] in names:
        return True
    for s in sym.children(at):
        for b in s.atoms():
            if _reads(b, names):
                return True
    return False

def sym_memset(prog, d, n):
    """memset(d, 0, n elements), n symbolic."""
    m = d._m
    if m.__class__ is not SMem:
        raise EngineError('symbolic memset of a concrete buffer')
    st = m.stride
    cnt = lift(n) / st
    if any(c.__class__ is not int for c in cnt.t.values()):
        raise EngineError('memset stride')
    q0, k0 = m.decode(d._o)
    if k0:
        raise EngineError('memset offset')
    v = fresh('ms', True)
    for k in range(st):
        m.put(k, ('all', ((v, ZERO, cnt),), q0 + v, ZERO))
    return d

def sym_memcpy(prog, d, s, n):
    m, m2 = d._m, s._m
    if m.__class__ is not SMem or m2.__class__ is not SMem:
        raise EngineError('symbolic memcpy of a concrete buffer')
    st = m.stride
    cnt = lift(n) / st
    if any(c.__class__ is not int for c in cnt.t.values()):
        raise EngineError('memcpy stride')
    q0, k0 = m.decode(d._o)
    if k0:
        raise EngineError('memcpy offset')
    v = fresh('mc', True)
    vals = []
    path = CTX.path
    old_pc, old_known = list(path.pc), dict(path.known)
    for c in (v >= 0, v < cnt):
        path.pc.append(c)
        path._learn(c, True)
    try:
        for k in range(st):
            vals.append(m2.get(s._o + v * st + k))
    finally:
        path.pc[:] = old_pc
        path.known.clear()
        path.known.update(old_known)
    for k in range(st):
        m.put(k, ('all', ((v, ZERO, cnt),), q0 + v, vals[k]))
    return d

def sfmf(prog, name, nCell, nLev, nRow, nCol, base='read', check=True):
    """FMField * of symbolic size; cell (c, l, r, j) is name[c*nLev+l, r*nCol+j]."""
    p = prog.new('FMField')
    s = p._m.get(0)
    st = nRow * nCol
    cnt = lift(nCell) * nLev * st
    m = SMem(name, st, cnt if check else None, base)
    s.__dict__.update(nCell=nCell, nLev=nLev, nRow=nRow, nCol=nCol,
                      val0=P(m, 0), val=P(m, 0), nAlloc=-1,
                      cellSize=(nLev * st if nLev.__class__ is R else nLev * st),
                      offset=0, nColFull=nCol)
    return p, m
