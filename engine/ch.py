"""Harness helpers: FMFields over symbolic arrays."""
import numpy as np
from .cmem import P, Mem, NdMem, SObj
from .sym import var, const, R, lift

def syms(name, shape, is_int=False):
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = var('%s%s' % (name, ''.join('_%d' % i for i in ix)), is_int)
    return a

def zeros(shape):
    a = np.empty(shape, dtype=object)
    a.fill(0)
    return a

def obj(a):
    """Any array -> C-contiguous object array of exact values."""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = a[ix]
        if isinstance(v, np.generic):
            v = v.item()
        out[ix] = lift(v) if not isinstance(v, R) else v
    return out

def fmf(prog, a):
    """FMField * over a C-contiguous array with up to 4 dims."""
    a = np.asarray(a)
    sh = (1,) * (4 - a.ndim) + a.shape
    p = prog.new('FMField')
    s = p._m.get(0)
    ptr = P(NdMem(a, 'fmf'), 0)
    s.nCell, s.nLev, s.nRow, s.nCol = sh
    s.val0 = s.val = ptr
    s.nAlloc = -1
    s.cellSize = sh[1] * sh[2] * sh[3]
    s.offset = 0
    s.nColFull = sh[3]
    return p

def ptr(a):
    return P(NdMem(np.asarray(a)), 0)

def flat(x):
    return list(np.asarray(x, dtype=object).reshape(-1))
