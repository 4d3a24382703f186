"""Assembling of element vectors and matrices into global vectors and CSR matrices."""
import itertools, random
import numpy as np
from engine.vc import Suite, main
from checks import felib

AS, VA, EQ = 'sfepy.discrete.common.extmods.assemble', 'sfepy.discrete.variables', 'sfepy.discrete.equations'
S = Suite('C08', 'global assembling', assumptions=[
    'element counts, DOF counts, connectivities and sparsity patterns are enumerated (up to 5 elements of up '
    'to 6 DOFs, random patterns with negative, repeated and unused DOFs); the values and the sign are symbolic',
    'complex values are treated as elements of a commutative ring (only +, * occur)',
    'scipy.sparse (construction and addition of COO/CSR/block arrays) is trusted'])
felib.use(S, 'sfepy.terms')

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

def vals(W, name, shape, cplx=False):
    if W.symbolic or not cplx:
        return W.reals(name, *shape)
    return W.reals(name, *shape) + 1j * W.reals(name + '_im', *shape)

def val(W, name, cplx=False):
    if W.symbolic or not cplx:
        return W.real(name)
    return complex(W.real(name), W.real(name + '_im'))

def i32(x):
    return np.array(x, dtype=np.int32)

def conns(seed, n_el, n_ep, n_dof, neg=0.3, rep=True):
    """A connectivity with negative entries and repeated DOFs."""
    r = random.Random(seed)
    out = []
    for _ in range(n_el):
        row = [r.randrange(n_dof) if rep else 0 for _ in range(n_ep)]
        if not rep:
            row = r.sample(range(n_dof), n_ep)
        out.append([-1 - r.randrange(n_dof) if r.random() < neg else d for d in row])
    return i32(out)

def elements(seed, n_el, num, dup=False):
    r = random.Random(seed)
    if dup:
        return i32([r.randrange(n_el) for _ in range(num)])
    return i32(r.sample(range(n_el), num))

VEC = [dict(n_el=a, n_ep=b, n_dof=c, num=d, col=e, dup=f, seed=s)
       for a, b, c, d in ((1, 1, 1, 1), (1, 3, 4, 1), (3, 2, 4, 3), (4, 3, 5, 2), (5, 4, 6, 5), (4, 6, 7, 3))
       for e, f, s in ((0, 0, 1), (1, 0, 2), (1, 1, 3), (0, 1, 4))]

@contract('vector', [dict(c, cplx=k) for c in VEC for k in (0, 1)])
def vector(W, n_el, n_ep, n_dof, num, col, dup, seed, cplx):
    fn = W.mod(AS).assemble_vector_complex if cplx else W.mod(AS).assemble_vector
    conn = conns(seed, n_el, n_ep, n_dof)
    iels = elements(seed, n_el, num, dup)
    vec = vals(W, 'v', (n_dof,), cplx)
    els = vals(W, 'e', (num, 1, n_ep, 1) if col else (num, 1, 1, n_ep), cplx)
    s = val(W, 's', cplx)
    ref = list(vec)
    els0, conn0, iels0 = els.copy(), conn.copy(), iels.copy()
    fn(vec, els, iels, s, conn)
    for k, iel in enumerate(iels0):
        for i in range(n_ep):
            d = int(conn0[iel, i])
            if d >= 0:
                ref[d] = ref[d] + s * els0[k].reshape(-1)[i]
    for d in range(n_dof):
        W.eq('dof%d' % d, vec[d], ref[d])
    W.eqs('frame', els, els0)
    W.true('frame: connectivity', (conn == conn0).all() and (iels == iels0).all())

def pattern(seed, n_row, n_col, pairs, extra=0.3, shuffle=False):
    """A CSR pattern with the given pairs and random others."""
    r = random.Random(seed + 77)
    rows = [set() for _ in range(n_row)]
    for i, j in pairs:
        rows[i].add(j)
    for i in range(n_row):
        for j in range(n_col):
            if r.random() < extra:
                rows[i].add(j)
    ptr, idx = [0], []
    for q in rows:
        q = sorted(q)
        if shuffle:
            r.shuffle(q)
        idx += q
        ptr.append(len(idx))
    return i32(ptr), i32(idx)

def pairs_of(iels, rc, cc):
    return [(int(a), int(b)) for e in iels for a in rc[e] if a >= 0 for b in cc[e] if b >= 0]

MAT = [dict(n_el=a, nr=b, nc=c, mr=d, mc=e, num=f, dup=g, seed=s, extra=x)
       for a, b, c, d, e, f, g in ((1, 1, 1, 1, 1, 1, 0), (1, 2, 3, 4, 5, 1, 0), (3, 2, 2, 4, 4, 3, 0),
                                   (4, 3, 2, 5, 3, 2, 0), (3, 2, 4, 4, 6, 4, 1), (4, 3, 3, 6, 6, 4, 0))
       for s, x in ((1, 0.), (2, .4), (3, 1.))]
KINDS = [dict(b=b, cplx=c) for b in (0, 1) for c in (0, 1)]

def mat_fn(W, b, cplx):
    return getattr(W.mod(AS), 'assemble_matrix%s%s' % ('_complex' if cplx else '', '_b' if b else ''))

@contract('matrix', [dict(c, **k) for c in MAT for k in KINDS]
          + [dict(c, b=0, cplx=k, shuffle=1) for c in MAT[3:] for k in (0, 1)])
def matrix(W, n_el, nr, nc, mr, mc, num, dup, seed, extra, b, cplx, shuffle=0):
    fn = mat_fn(W, b, cplx)
    rc, cc = conns(seed, n_el, nr, mr), conns(seed + 10, n_el, nc, mc)
    iels = elements(seed, n_el, num, dup)
    ptr, idx = pattern(seed, mr, mc, pairs_of(iels, rc, cc), extra, shuffle)
    if not len(idx):
        ptr, idx = pattern(seed, mr, mc, [(0, 0)], extra, shuffle)
    data = vals(W, 'm', (len(idx),), cplx)
    els = vals(W, 'e', (num, 1, nr, nc), cplx)
    s = val(W, 's', cplx)
    ref, els0 = list(data), els.copy()
    keep = [x.copy() for x in (ptr, idx, rc, cc, iels)]
    fn(data, ptr, idx, els, iels, s, rc, cc)
    where = {}
    for i in range(mr):
        for k in range(keep[0][i], keep[0][i + 1]):
            where[i, int(keep[1][k])] = k
    for k, e in enumerate(keep[4]):
        for i in range(nr):
            for j in range(nc):
                p = int(keep[2][e, i]), int(keep[3][e, j])
                if min(p) >= 0:
                    ref[where[p]] = ref[where[p]] + s * els0[k, 0, i, j]
    for k in range(len(ref)):
        W.eq('item%d' % k, data[k], ref[k])
    W.eqs('frame', els, els0)
    W.true('frame: pattern and connectivity',
           all((x == y).all() for x, y in zip(keep, (ptr, idx, rc, cc, iels))))

@contract('matrix/item outside of the pattern', [dict(k, row=r, col=c) for k in KINDS
                                                 for r, c in itertools.product(range(4), range(5))])
def missing(W, b, cplx, row, col):
    """The missing item raises IndexError, nothing outside of the row is touched."""
    fn = mat_fn(W, b, cplx)
    rows = [[1, 3], [0, 2, 3], [], [1]]
    ptr = i32(np.cumsum([0] + [len(r) for r in rows]))
    idx = i32(sum(rows, []))
    data = vals(W, 'm', (len(idx),), cplx)
    els = vals(W, 'e', (1, 1, 1, 1), cplx)
    s = val(W, 's', cplx)
    ref = list(data)
    args = (data, ptr, idx, els, i32([0]), s, i32([[row]]), i32([[col]]))
    if col in rows[row]:
        fn(*args)
        k = int(ptr[row]) + rows[row].index(col)
        ref[k] = ref[k] + s * els[0, 0, 0, 0]
    else:
        W.true('missing item raises', W.raises(IndexError, fn, *args))
    for k in range(len(ref)):
        W.eq('item%d' % k, data[k], ref[k])

@contract('shapes', [dict(kind=k, cplx=c) for k in ('vector', 'matrix', 'matrix_b') for c in (0, 1)])
def shapes(W, kind, cplx):
    """Numbers of element values and elements that differ are refused."""
    name = 'assemble_' + kind if not cplx else 'assemble_' + kind.replace('vector', 'vector_complex').replace(
        'matrix', 'matrix_complex')
    fn = getattr(W.mod(AS), name)
    conn = i32([[0, 1], [1, 2]])
    s = val(W, 's', cplx)
    if kind == 'vector':
        v = vals(W, 'v', (3,), cplx)
        args = v, vals(W, 'e', (1, 1, 2, 1), cplx), i32([0, 1]), s, conn
    else:
        v = vals(W, 'v', (9,), cplx)
        args = (v, i32([0, 3, 6, 9]), i32([0, 1, 2] * 3), vals(W, 'e', (1, 1, 2, 2), cplx), i32([0, 1]), s,
                conn, conn)
    v0 = v.copy()
    W.true('refused', W.raises(AssertionError, fn, *args))
    W.eqs('frame', v, v0)

if __name__ == '__main__':
    main(S)
