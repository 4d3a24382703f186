"""Dense small-matrix kernels (fmfield.c, geommech.c)."""
from engine.vc import Suite, main
from engine.kern import *

S = Suite('C13', 'dense kernels', files=[EXT + 'fmfield.c', EXT + 'geommech.c'],
          assumptions=['geme_invert3x3/4x4: matrices with |det| >= 1e-55'])

DIMS = [1, 2, 3]

def lev(W, multi):
    return W.size('nLev', 2) if multi else 1

def allrc(W, label, out, c, l, nr, nc, f):
    for i in range(nr):
        for j in range(nc):
            W.eq('%s[%d,%d]' % (label, i, j), out(c, l, i, j), f(i, j))

SH = [dict(nr=1, nc=1), dict(nr=2, nc=3), dict(nr=3, nc=2), dict(nr=3, nc=3)]

def shapes(**kw):
    return [dict(s, **g) for s in SH for g in grid(**kw)]

# ------------------------------------------------- unary, current cell
@S.contract('fmf_fillC', shapes(multi=[0, 1]))
def fmf_fillC(W, nr, nc, multi):
    n, v = lev(W, multi), W.real('v')
    nCell = W.size('nCell', 2)
    R = W.field('R', nCell, n, nr, nc, inout=True)
    c = W.index('c', nCell)
    R.set_cell(c)
    W.eq('ret', W.call('fmf_fillC', R, v), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j: v)

@S.contract('fmf_mulC', shapes(multi=[0, 1]))
def fmf_mulC(W, nr, nc, multi):
    n, v = lev(W, multi), W.real('v')
    R = W.field('R', 1, n, nr, nc, inout=True)
    W.eq('ret', W.call('fmf_mulC', R, v), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j: R.old(0, l, i, j) * v)

@S.contract('fmf_mul', shapes(multi=[0, 1]))
def fmf_mul(W, nr, nc, multi):
    n = lev(W, multi)
    v = W.vec('v', 1, n)
    R = W.field('R', 1, n, nr, nc, inout=True)
    W.eq('ret', W.call('fmf_mul', R, v), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j: R.old(0, l, i, j) * v.at(l))

@S.contract('fmfc_fillC', shapes(many=[1, 0], multi=[0, 1]))
def fmfc_fillC(W, nr, nc, many, multi):
    nEl, n, v = nel_case(W, many), lev(W, multi), W.real('v')
    R = W.field('R', nEl, n, nr, nc, out=True)
    W.eq('ret', W.call('fmfc_fillC', R, v), 0)
    c, l = W.index('c', nEl), W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j: v)

@S.contract('fmfc_mulC', shapes(many=[1, 0], multi=[0, 1]))
def fmfc_mulC(W, nr, nc, many, multi):
    nEl, n, v = nel_case(W, many), lev(W, multi), W.real('v')
    R = W.field('R', nEl, n, nr, nc, inout=True)
    W.eq('ret', W.call('fmfc_mulC', R, v), 0)
    c, l = W.index('c', nEl), W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j: R.old(c, l, i, j) * v)

@S.contract('fmfc_fill', shapes(many=[1, 0], multi=[0, 1]))
def fmfc_fill(W, nr, nc, many, multi):
    nEl, n = nel_case(W, many), lev(W, multi)
    R = W.field('R', nEl, n, nr, nc, out=True)
    v = W.vec('v', nr * nc, nEl * n)
    W.eq('ret', W.call('fmfc_fill', R, v), 0)
    c, l = W.index('c', nEl), W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j: v.at(c * n + l, i * nc + j))

# ------------------------------------------------- R = f(A)
@S.contract('fmf_mulAC/mulAF/copyAmulC', shapes(
    fn=['fmf_mulAC', 'fmf_mulAF', 'fmf_copyAmulC'], multi=[0, 1]))
def fmf_mulA(W, fn, nr, nc, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, nr, nc)
    R = W.field('R', 1, n, nr, nc, out=True)
    v = W.vec('v', 1, n) if fn == 'fmf_mulAF' else W.real('v')
    W.eq('ret', W.call(fn, R, A, v), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j: A(0, l, i, j)
          * (v.at(l) if fn == 'fmf_mulAF' else v))

@S.contract('fmf_mulATC/mulATF', shapes(fn=['fmf_mulATC', 'fmf_mulATF'], multi=[0, 1]))
def fmf_mulAT(W, fn, nr, nc, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, nc, nr)
    R = W.field('R', 1, n, nr, nc, out=True)
    v = W.vec('v', 1, n) if fn == 'fmf_mulATF' else W.real('v')
    W.eq('ret', W.call(fn, R, A, v), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j: A(0, l, j, i)
          * (v.at(l) if fn == 'fmf_mulATF' else v))

@S.contract('fmf_copy', shapes(multi=[0, 1]))
def fmf_copy(W, nr, nc, multi):
    n = lev(W, multi)
    nCell = W.size('nCell', 2)
    A = W.field('A', nCell, n, nr, nc)
    R = W.field('R', 1, n, nr, nc, out=True)
    c = W.index('c', nCell)
    A.set_cell(c)
    W.eq('ret', W.call('fmf_copy', R, A), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j: A(c, l, i, j))

@S.contract('fmfc_copy', shapes(many=[1, 0], multi=[0, 1]))
def fmfc_copy(W, nr, nc, many, multi):
    nEl, n = nel_case(W, many), lev(W, multi)
    A = W.field('A', nEl, n, nr, nc)
    R = W.field('R', nEl, n, nr, nc, out=True)
    W.eq('ret', W.call('fmfc_copy', R, A), 0)
    c, l = W.index('c', nEl), W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j: A(c, l, i, j))

@S.contract('fmfc_copyAmulF/addAmulF', shapes(
    fn=['fmfc_copyAmulF', 'fmfc_addAmulF'], many=[1, 0], multi=[0, 1]))
def fmfc_AmulF(W, fn, nr, nc, many, multi):
    nEl, n = nel_case(W, many), lev(W, multi)
    A = W.field('A', nEl, n, nr, nc)
    add = 'add' in fn
    R = W.field('R', nEl, n, nr, nc, out=not add, inout=add)
    v = W.vec('v', 1, nEl * n)
    W.eq('ret', W.call(fn, R, A, v), 0)
    c, l = W.index('c', nEl), W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j:
          (R.old(c, l, i, j) if add else 0) + A(c, l, i, j) * v.at(c * n + l))

@S.contract('fmf_addAmulF', shapes(multi=[0, 1]))
def fmf_addAmulF(W, nr, nc, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, nr, nc)
    R = W.field('R', 1, n, nr, nc, inout=True)
    v = W.vec('v', 1, n)
    W.eq('ret', W.call('fmf_addAmulF', R, A, v), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j:
          R.old(0, l, i, j) + A(0, l, i, j) * v.at(l))

# ------------------------------------------------- sums over levels
@S.contract('fmf_sumLevels', shapes(fn=['fmf_sumLevelsMulF', 'fmf_sumLevelsTMulF']))
def fmf_sumLevels(W, fn, nr, nc):
    n = W.size('nLev', 1)
    T = 'TM' in fn
    A = W.field('A', 1, n, *((nc, nr) if T else (nr, nc)))
    R = W.field('R', 1, 1, nr, nc, out=True)
    v = W.vec('v', 1, n)
    W.eq('ret', W.call(fn, R, A, v), 0)
    allrc(W, 'R', R, 0, 0, nr, nc, lambda i, j: W.sum(
        n, lambda l: (A(0, l, j, i) if T else A(0, l, i, j)) * v.at(l)))

@S.contract('fmfr_sumLevels', shapes(fn=['fmfr_sumLevelsMulF', 'fmfr_sumLevelsTMulF'],
                                     full=[5], off=[0, 1, 2]))
def fmfr_sumLevels(W, fn, nr, nc, full, off):
    n = W.size('nLev', 1)
    T = 'TM' in fn
    A = W.field('A', 1, n, *((nc, nr) if T else (nr, nc)))
    R = W.field('R', 1, 1, nr, nc, inout=True, full=full, offset=off)
    v = W.vec('v', 1, n)
    W.eq('ret', W.call(fn, R, A, v), 0)
    for i in range(nr):
        for jj in range(full):
            j = jj - off
            if 0 <= j < nc:
                e = W.sum(n, lambda l: (A(0, l, j, i) if T else A(0, l, i, j)) * v.at(l))
            else:
                e = R.old(0, 0, i, jj)
            W.eq('R[%d,%d]' % (i, jj), R(0, 0, i, jj), e)

@S.contract('fmfr_fillC/copy', shapes(fn=['fmfr_fillC', 'fmfr_copy'], full=[5], off=[0, 1, 2], multi=[0, 1]))
def fmfr_fill(W, fn, nr, nc, full, off, multi):
    n = lev(W, multi)
    R = W.field('R', 1, n, nr, nc, inout=True, full=full, offset=off)
    v = W.real('v')
    A = W.field('A', 1, n, nr, nc)
    W.eq('ret', W.call(fn, R, v if 'fill' in fn else A), 0)
    l = W.index('l', n)
    for i in range(nr):
        for jj in range(full):
            j = jj - off
            if 0 <= j < nc:
                e = v if 'fill' in fn else A(0, l, i, j)
            else:
                e = R.old(0, l, i, jj)
            W.eq('R[%d,%d]' % (i, jj), R(0, l, i, jj), e)

@S.contract('fmfr_addA_blockNC', grid(fn=['fmfr_addA_blockNC', 'fmfr_addAT_blockNC'],
                                      ha=[1, 2], wa=[1, 3], row=[0, 1], col=[0, 2],
                                      off=[0, 1], multi=[0, 1]))
def fmfr_addA(W, fn, ha, wa, row, col, off, multi):
    n = lev(W, multi)
    T = 'AT' in fn
    nr, nc, full = 4, 5, 6
    R = W.field('R', 1, n, nr, nc, inout=True, full=full, offset=off)
    A = W.field('A', 1, n, *((wa, ha) if T else (ha, wa)))
    W.eq('ret', W.call(fn, R, A, row, col), 0)
    l = W.index('l', n)
    for i in range(nr):
        for jj in range(full):
            ai, aj = i - row, jj - off - col
            e = R.old(0, l, i, jj)
            if 0 <= ai < ha and 0 <= aj < wa:
                e = e + (A(0, l, aj, ai) if T else A(0, l, ai, aj))
            W.eq('R[%d,%d]' % (i, jj), R(0, l, i, jj), e)

# ------------------------------------------------- products
PR = {'fmf_mulAB_nn': (0, 0, 0, 0), 'fmf_mulAB_n1': (0, 0, 0, 1), 'fmf_mulAB_1n': (0, 0, 1, 0),
      'fmf_mulATB_nn': (1, 0, 0, 0), 'fmf_mulATB_1n': (1, 0, 1, 0), 'fmf_mulABT_nn': (0, 1, 0, 0),
      'fmf_mulATBT_nn': (1, 1, 0, 0), 'fmf_mulATBT_1n': (1, 1, 1, 0)}

@S.contract('products', grid(fn=list(PR), nr=[1, 3], nk=[1, 2, 3], nc=[1, 2], multi=[0, 1]))
def products(W, fn, nr, nk, nc, multi):
    n = lev(W, multi)
    ta, tb, a1, b1 = PR[fn]
    A = W.field('A', 1, 1 if a1 else n, *((nk, nr) if ta else (nr, nk)))
    B = W.field('B', 1, 1 if b1 else n, *((nc, nk) if tb else (nk, nc)))
    R = W.field('R', 1, n, nr, nc, out=True)
    W.eq('ret', W.call(fn, R, A, B), 0)
    l = W.index('l', n)
    a = lambda i, k: A(0, l, k, i) if ta else A(0, l, i, k)
    b = lambda k, j: B(0, l, j, k) if tb else B(0, l, k, j)
    allrc(W, 'R', R, 0, l, nr, nc, lambda i, j: isum(nk, lambda k: a(i, k) * b(k, j)))

@S.contract('sums', shapes(fn=['fmf_addAB_nn', 'fmf_subAB_nn', 'fmfc_addAB_nn', 'fmf_averageCACB'],
                           multi=[0, 1]))
def sums(W, fn, nr, nc, multi):
    n = lev(W, multi)
    nEl = W.size('nEl', 1) if 'fmfc' in fn else 1
    A = W.field('A', nEl, n, nr, nc)
    B = W.field('B', nEl, n, nr, nc)
    R = W.field('R', nEl, n, nr, nc, out=True)
    c1, c2 = W.real('c1'), W.real('c2')
    if fn == 'fmf_averageCACB':
        W.eq('ret', W.call(fn, R, c1, A, c2, B), 0)
    else:
        W.eq('ret', W.call(fn, R, A, B), 0)
        c1, c2 = 1, (-1 if 'sub' in fn else 1)
    c, l = W.index('c', nEl), W.index('l', n)
    allrc(W, 'R', R, c, l, nr, nc, lambda i, j: c1 * A(c, l, i, j) + c2 * B(c, l, i, j))

@S.contract('gMtx2Vec', grid(fn=['fmf_gMtx2VecDUL3x3', 'fmf_gMtx2VecDLU3x3'], dim=DIMS, multi=[0, 1]))
def gmtx(W, fn, dim, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, dim, dim)
    R = W.field('R', 1, n, dim * dim, 1, out=True)
    W.eq('ret', W.call(fn, R, A), 0)
    l = W.index('l', n)
    if 'DUL' in fn:
        order = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1), (1, 0)],
                 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)]}[dim]
    else:
        order = {1: [(0, 0)], 2: [(0, 0), (1, 1), (1, 0), (0, 1)],
                 3: [(0, 0), (1, 1), (2, 2), (1, 0), (2, 0), (2, 1), (0, 1), (0, 2), (1, 2)]}[dim]
    for k, (i, j) in enumerate(order):
        W.eq('R[%d]' % k, R(0, l, k, 0), A(0, l, i, j))

# ------------------------------------------------- geommech
def perm_det(a, n):
    import itertools
    r = 0
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        t = s
        for i in range(n):
            t = t * a(i, p[i])
        r = r + t
    return r

@S.contract('geme_invert', grid(dim=[1, 2, 3, 4], multi=[0, 1], sign=[1, -1]) + grid(dim=DIMS, multi=[0], sign=[0]))
def geme_invert(W, dim, multi, sign):
    n = lev(W, multi)
    A = W.field('A', 1, n, dim, dim)
    R = W.field('R', 1, n, dim, dim, out=True)
    l = W.index('l', n)
    a = lambda i, j: A(0, l, i, j)
    d = perm_det(a, dim)
    if sign == 0:
        if not W.symbolic:
            return
        W.assume(d < W.frac(1, 10**56))
        W.assume(-d < W.frac(1, 10**56))
    else:
        if multi:
            if W.symbolic:
                W.forall(A, lambda g: sign * perm_det(lambda i, j: g(i, j), dim) > W.frac(1, 10**54))
        else:
            W.assume(sign * d > W.frac(1, 10**54))
    W.eq('ret', W.call('geme_invert4x4' if dim == 4 else 'geme_invert3x3', R, A), 0)
    for i in range(dim):
        for j in range(dim):
            if sign == 0:
                W.eq('R[%d,%d]' % (i, j), R(0, l, i, j), 0)
            else:
                W.eq('(A R)[%d,%d]' % (i, j),
                     isum(dim, lambda k: a(i, k) * R(0, l, k, j)), 1 if i == j else 0)

SC = {'geme_det3x3': lambda W, a, d: perm_det(a, d),
      'geme_trace3x3': lambda W, a, d: isum(d, lambda i: a(i, i)),
      'geme_invar1': lambda W, a, d: isum(d, lambda i: a(i, i)) + (1 if d == 2 else 0)}

@S.contract('scalars', grid(fn=list(SC), dim=DIMS, multi=[0, 1]))
def scalars(W, fn, dim, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, dim, dim)
    v = W.vec('v', 1, n, out=True)
    W.eq('ret', W.call(fn, v, A), 0)
    l = W.index('l', n)
    W.eq('v', v.at(l), SC[fn](W, lambda i, j: A(0, l, i, j), dim))

@S.contract('geme_invar2', grid(dim=[2, 3], multi=[0, 1]))
def geme_invar2(W, dim, multi):
    """Symmetric tensors; plane strain: the 33 component is one."""
    n = lev(W, multi)
    A = W.field('A', 1, n, dim, dim)
    l = W.index('l', n)
    v = W.vec('v', 1, n, out=True)
    W.eq('ret', W.call('geme_invar2', v, A), 0)
    def a(i, j):
        if i > 1 and dim == 2 or j > 1 and dim == 2:
            return 1 if i == j else 0
        return A(0, l, min(i, j), max(i, j))
    W.eq('2 I2 = tr^2 - A:A', 2 * v.at(l),
         isum(3, lambda i: a(i, i)) ** 2
         - isum(3, lambda i: isum(3, lambda j: a(i, j) ** 2)))

@S.contract('geme_norm3', grid(dim=DIMS, multi=[0, 1]))
def geme_norm3(W, dim, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, dim, 1)
    v = W.vec('v', 1, n, out=True)
    W.eq('ret', W.call('geme_norm3', v, A), 0)
    l = W.index('l', n)
    W.eq('v^2', v.at(l) ** 2, isum(dim, lambda i: A(0, l, i, 0) ** 2))
    W.true('v >= 0', v.at(l) >= 0)

@S.contract('geme_tensor2vectorS3', grid(dim=DIMS, multi=[0, 1]))
def geme_t2v(W, dim, multi):
    n = lev(W, multi)
    A = W.field('A', 1, n, dim, dim)
    R = W.field('R', 1, n, NSYM[dim], 1, out=True)
    W.eq('ret', W.call('geme_tensor2vectorS3', R, A), 0)
    l = W.index('l', n)
    for k, (i, j) in enumerate(SYM[dim]):
        W.eq('R[%d]' % k, R(0, l, k, 0), A(0, l, i, j))

@S.contract('geme_mulAVSB3', grid(dim=DIMS, nc=[1, 3], multi=[0, 1]))
def geme_mulAVSB3(W, dim, nc, multi):
    n = lev(W, multi)
    V = W.field('V', 1, n, NSYM[dim], 1)
    B = W.field('B', 1, n, dim, nc)
    R = W.field('R', 1, n, dim, nc, out=True)
    W.eq('ret', W.call('geme_mulAVSB3', R, V, B), 0)
    l = W.index('l', n)
    allrc(W, 'R', R, 0, l, dim, nc, lambda i, j: isum(
        dim, lambda k: V(0, l, full_index(dim, i, k), 0) * B(0, l, k, j)))

@S.contract('geme_mulT2ST2S', grid(fn=['geme_mulT2ST2S_T4S_ikjl', 'geme_mulT2ST2S_T4S_iljk'],
                                   dim=DIMS, multi=[0, 1]))
def geme_mulT2ST2S(W, fn, dim, multi):
    n = lev(W, multi)
    ns = NSYM[dim]
    A = W.field('A', 1, n, ns, 1)
    B = W.field('B', 1, n, ns, 1)
    R = W.field('R', 1, n, ns, ns, out=True)
    W.eq('ret', W.call(fn, R, A, B), 0)
    q = W.index('q', n)
    f = lambda i, j: full_index(dim, i, j)
    for r, (i, j) in enumerate(SYM[dim]):
        for c, (k, l) in enumerate(SYM[dim]):
            e = (A(0, q, f(i, k), 0) * B(0, q, f(j, l), 0) if 'ikjl' in fn
                 else A(0, q, f(i, l), 0) * B(0, q, f(j, k), 0))
            W.eq('R[%d,%d]' % (r, c), R(0, q, r, c), e)

@S.contract('geme_mulT2S_AA', grid(dim=DIMS, multi=[0, 1]))
def geme_mulT2S_AA(W, dim, multi):
    n = lev(W, multi)
    ns = NSYM[dim]
    A = W.field('A', 1, n, ns, 1)
    R = W.field('R', 1, n, ns, 1, out=True)
    W.eq('ret', W.call('geme_mulT2S_AA', R, A), 0)
    q = W.index('q', n)
    f = lambda i, j: A(0, q, full_index(dim, i, j), 0)
    for r, (i, j) in enumerate(SYM[dim]):
        W.eq('R[%d]' % r, R(0, q, r, 0), isum(dim, lambda k: f(i, k) * f(k, j)))

@S.contract('geme_elementVolume')
def geme_elementVolume(W):
    n = W.size('nQP', 1)
    v = W.vec('v', 1, 1, out=True)
    j = W.vec('j', 1, n)
    W.eq('ret', W.call('geme_elementVolume', v, j, n), 0)
    W.eq('volume', v.at(0), W.sum(n, lambda q: j.at(q)))

@S.contract('geme_buildOpOmega_VS3', [dict(dim=3)])
def geme_buildOpOmega(W, dim):
    n = W.size('n', 1)
    d = W.vec('d', dim, n)
    o = W.vec('o', NSYM[dim], n, out=True)
    W.eq('ret', W.call('geme_buildOpOmega_VS3', o, d, n, dim, NSYM[dim]), 0)
    q = W.index('q', n)
    for r, (i, j) in enumerate(SYM[dim]):
        W.eq('omega[%d]' % r, o.at(q, r), d.at(q, i) * d.at(q, j))

@S.contract('geme_projectToDir', [dict(size=s) for s in (1, 3, 6)])
def geme_projectToDir(W, size):
    n = W.size('n', 1)
    d = W.vec('d', 1, n, out=True)
    o = W.vec('o', size, n)
    s = W.vec('s', size, n)
    W.eq('ret', W.call('geme_projectToDir', d, o, s, n, size), 0)
    q = W.index('q', n)
    W.eq('def', d.at(q), isum(size, lambda r: o.at(q, r) * s.at(q, r)))

# ------------------------------------------------- basis functions
@S.contract('bf_act', grid(dim=DIMS, nEP=[1, 3], multi=[0, 1]))
def bf_act(W, dim, nEP, multi):
    n = lev(W, multi)
    bf = W.field('bf', 1, n, 1, nEP)
    st = W.field('in', 1, 1, dim, nEP)
    R = W.field('R', 1, n, dim, 1, out=True)
    W.eq('ret', W.call('bf_act', R, bf, st), 0)
    q = W.index('q', n)
    for i in range(dim):
        W.eq('R[%d]' % i, R(0, q, i, 0), isum(nEP, lambda a: bf(0, q, 0, a) * st(0, 0, i, a)))

@S.contract('bf_ract', grid(nr=[1, 2], dim=DIMS, nEP=[1, 3], multi=[0, 1]))
def bf_ract(W, nr, dim, nEP, multi):
    n = lev(W, multi)
    bf = W.field('bf', 1, n, 1, nEP)
    A = W.field('A', 1, n, nr, dim)
    R = W.field('R', 1, n, nr, dim * nEP, out=True)
    W.eq('ret', W.call('bf_ract', R, bf, A), 0)
    q = W.index('q', n)
    for r in range(nr):
        for i in range(dim):
            for a in range(nEP):
                W.eq('R[%d,%d]' % (r, i * nEP + a), R(0, q, r, i * nEP + a), A(0, q, r, i) * bf(0, q, 0, a))

@S.contract('bf_actt', grid(nc=[1, 2], dim=DIMS, nEP=[1, 3], multi=[0, 1]))
def bf_actt(W, nc, dim, nEP, multi):
    n = lev(W, multi)
    bf = W.field('bf', 1, n, 1, nEP)
    A = W.field('A', 1, n, dim, nc)
    R = W.field('R', 1, n, dim * nEP, nc, out=True)
    W.eq('ret', W.call('bf_actt', R, bf, A), 0)
    q = W.index('q', n)
    for c in range(nc):
        for i in range(dim):
            for a in range(nEP):
                W.eq('R[%d,%d]' % (i * nEP + a, c), R(0, q, i * nEP + a, c), A(0, q, i, c) * bf(0, q, 0, a))

@S.contract('bf_actt_c1', grid(dim=DIMS, nEP=[1, 3], multi=[0, 1]))
def bf_actt_c1(W, dim, nEP, multi):
    n = lev(W, multi)
    bf = W.field('bf', 1, n, 1, nEP)
    A = W.field('A', 1, n, dim, 1)
    R = W.field('R', 1, n, dim * nEP, 1, out=True)
    W.eq('ret', W.call('bf_actt_c1', R, bf, A), 0)
    q = W.index('q', n)
    for i in range(dim):
        for a in range(nEP):
            W.eq('R[%d]' % (i * nEP + a), R(0, q, i * nEP + a, 0), A(0, q, i, 0) * bf(0, q, 0, a))

@S.contract('bf_buildFTF', grid(dim=DIMS, nr=[1, 2], nc=[1, 3], multi=[0, 1]))
def bf_buildFTF(W, dim, nr, nc, multi):
    n = lev(W, multi)
    F = W.field('F', 1, n, nr, nc)
    R = W.field('R', 1, n, dim * nr, dim * nc, out=True)
    W.eq('ret', W.call('bf_buildFTF', R, F), 0)
    q = W.index('q', n)
    allrc(W, 'R', R, 0, q, dim * nr, dim * nc, lambda r, c:
          F(0, q, r % nr, c % nc) if r // nr == c // nc else 0)

# ------------------------------------------------- gather
@S.contract('ele_extractNodalValues', grid(fn=['NBN', 'DBD'], nEP=[1, 2, 4], dpn=DIMS))
def ele_extract(W, fn, nEP, dpn):
    conn = W.conn('conn', 1, nEP, 6)
    st = W.state('st', dpn)
    R = W.field('R', 1, 1, *((nEP, dpn) if fn == 'NBN' else (dpn, nEP)), out=True)
    W.eq('ret', W.call('ele_extractNodalValues' + fn, R, st, conn), 0)
    for a in range(nEP):
        for k in range(dpn):
            W.eq('R[%d,%d]' % (a, k), R(0, 0, a, k) if fn == 'NBN' else R(0, 0, k, a),
                 st.at(conn.at(0, a), k))

if __name__ == '__main__':
    main(S)
