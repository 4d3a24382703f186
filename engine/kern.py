"""Shared notions for contracts of element kernels."""
import numpy as np

EXT = 'sfepy/discrete/common/extmods/'
TRM = 'sfepy/terms/extmods/'
TERM_FILES = ([EXT + f for f in ('fmfield.c', 'geommech.c')]
              + [TRM + f for f in (
                  'form_sdcc.c', 'terms_adj_navier_stokes.c', 'terms_basic.c',
                  'terms_biot.c', 'terms_diffusion.c', 'terms_dot.c',
                  'terms_elastic.c', 'terms_electric.c', 'terms_hyperelastic.c',
                  'terms_navier_stokes.c', 'terms_op.c', 'terms_piezo.c',
                  'terms_surface.c', 'terms_volume.c')])

NSYM = {1: 1, 2: 3, 3: 6}
# symmetric storage: position -> (i, j)
SYM = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)],
       3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

def grid(**axes):
    out = [{}]
    for k, vs in axes.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out

def nel_case(W, many):
    """Number of cells: any number >= 2 (symbolic), or exactly one."""
    return W.size('nEl', 2) if many else 1

def check_out(W, out, nEl, nQP, shape, integrand, det, name='out', scale=None,
              el=None):
    """out(el, 0, r, c) = Sum_q det(el, q) integrand(el, q, r, c), any el."""
    if el is None:
        el = W.index('el', nEl)
    for r in range(shape[0]):
        for c in range(shape[1]):
            v = W.sum(nQP, lambda q: det(el, q, 0, 0) * integrand(el, q, r, c))
            if scale is not None:
                v = v * scale(el)
            W.eq('%s[%d,%d]' % (name, r, c), out(el, 0, r, c), v)

def isum(n, f):
    r = 0
    for i in range(n):
        r = r + f(i)
    return r

def B_sym(bfg, el, q, dim, nEP, row, col):
    """Row `row` of the symmetric-gradient operator (strain in symmetric
    storage, engineering shear) applied to the unit DOF `col`."""
    i, j = SYM[dim][row]
    comp, a = divmod(col, nEP)
    if i == j:
        return bfg(el, q, i, a) if comp == i else 0
    if comp == i:
        return bfg(el, q, j, a)
    if comp == j:
        return bfg(el, q, i, a)
    return 0

def full_index(dim, i, j):
    return SYM[dim].index((min(i, j), max(i, j)))

def both_bf(S):
    """The basis functions of a mapping are shared by all cells (one block)
    or given per cell: contracts that mention them are checked for both."""
    import inspect
    for c in S.contracts:
        if c.kind != 'c' or not ('.bf(' in inspect.getsource(c.fn) or c.opts.get('bf')):
            continue
        c.cases += [dict(d, _bf=1) for d in c.cases if d.get('many', 0)]
