from engine.vc import Suite, main
from engine.kern import *

S = Suite('C02', 'elasticity element kernels', files=TERM_FILES)

DIMS = [1, 2, 3]
EP = {1: 2, 2: 3, 3: 3}

def base(W, dim, many, nc):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    return nEl, nQP, EP[dim], (1 if nc else nEl)

@S.contract('mat_le_stress', grid(dim=[2, 3], many=[1, 0], c1=[0, 1], c2=[0, 1]))
def mat_le_stress(W, dim, many, c1, c2):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    ns = NSYM[dim]
    lam = W.field('lam', nc, nQP, 1, 1)
    mu = W.field('mu', 1 if c2 else nEl, nQP, 1, 1)
    strain = W.field('strain', nEl, nQP, ns, 1)
    out = W.field('out', nEl, nQP, ns, 1, out=True)
    W.eq('ret', W.call('mat_le_stress', out, strain, lam, mu), 0)
    e, q = W.index('e', nEl), W.index('q', nQP)
    tr = isum(dim, lambda i: strain(e, q, i, 0))
    for k, (i, j) in enumerate(SYM[dim]):
        s = mu(e, q, 0, 0) * strain(e, q, k, 0) * (2 if i == j else 1)
        if i == j:
            s = s + lam(e, q, 0, 0) * tr
        W.eq('stress[%d]' % k, out(e, q, k, 0), s)

@S.contract('dw_lin_elastic', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]), timeout=400)
def dw_lin_elastic(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nEP = 2 if dim == 3 else nEP
    ns = NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, ns, ns)
    strain = W.field('strain', nEl, nQP, ns, 1)
    cf = W.real('coef')
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_lin_elastic', out, cf, strain, D, vg, diff), 0)
    def f(e, q, r, c):
        B = lambda k, m: B_sym(vg.bfg, e, q, dim, nEP, k, m)
        return isum(ns, lambda k: isum(ns, lambda l: B(k, r) * D(e, q, k, l) * (
            B(l, c) if diff else strain(e, q, l, 0))))
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det, scale=lambda e: cf)

@S.contract('d_lin_elastic', grid(dim=DIMS, many=[1, 0], c1=[0, 1]))
def d_lin_elastic(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    ns = NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, ns, ns)
    ev = W.field('ev', nEl, nQP, ns, 1)
    eu = W.field('eu', nEl, nQP, ns, 1)
    cf = W.real('coef')
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_lin_elastic', out, cf, ev, eu, D, vg), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: isum(ns, lambda k: isum(
        ns, lambda l: ev(e, q, k, 0) * D(e, q, k, l) * eu(e, q, l, 0))), vg.det,
        scale=lambda e: cf)

@S.contract('d_sd_lin_elastic', grid(dim=[2, 3], many=[1, 0], c1=[0, 1]), timeout=400)
def d_sd_lin_elastic(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    ns = NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, ns, ns)
    # gradients stored with row = derivative, column = component
    gv = W.field('gv', nEl, nQP, dim, dim)
    gu = W.field('gu', nEl, nQP, dim, dim)
    gw = W.field('gw', nEl, nQP, dim, dim)
    cf = W.real('coef')
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_lin_elastic', out, cf, gv, gu, gw, D, vg), 0)
    R = range(dim)
    def f(e, q, r, c):
        DD = lambda i, j, k, l: D(e, q, full_index(dim, i, j), full_index(dim, k, l))
        v = lambda i, j: gv(e, q, j, i)        # d v_i / d x_j
        u = lambda i, j: gu(e, q, j, i)
        w = lambda i, j: gw(e, q, j, i)
        divw = isum(dim, lambda i: w(i, i))
        # the shape derivative of  D_ijkl v_i,j u_k,l : div W times it, with
        # v_i,j -> v_i,m W_m,j and u_k,l -> u_k,m W_m,l subtracted; the code
        # relies on the major symmetry D_ijkl = D_klij (an elasticity tensor)
        # in the second of these, so it is stated with D_klij
        t = 0
        for i in R:
            for j in R:
                vt = isum(dim, lambda m: v(i, m) * w(m, j))
                for k in R:
                    for l in R:
                        ut = isum(dim, lambda m: u(k, m) * w(m, l))
                        t = (t + DD(i, j, k, l) * (divw * v(i, j) * u(k, l) - v(i, j) * ut)
                             - DD(k, l, i, j) * vt * u(k, l))
        return t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det, scale=lambda e: cf)

@S.contract('dw_lin_prestress', grid(dim=DIMS, nonsym=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_lin_prestress(W, dim, nonsym, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    k = dim * dim if nonsym else NSYM[dim]
    st = W.field('stress', nc, nQP, k, 1)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, 1, out=True)
    W.eq('ret', W.call('dw_lin_prestress', out, st, vg), 0)
    def f(e, q, r, c):
        if nonsym:
            i, a = divmod(r, nEP)
            return isum(dim, lambda j: st(e, q, i * dim + j, 0) * vg.bfg(e, q, j, a))
        return isum(k, lambda m: st(e, q, m, 0) * B_sym(vg.bfg, e, q, dim, nEP, m, r))
    check_out(W, out, nEl, nQP, (n, 1), f, vg.det)

@S.contract('dw_lin_strain_fib', grid(dim=DIMS, many=[1, 0], c1=[0, 1], c2=[0, 1]))
def dw_lin_strain_fib(W, dim, many, c1, c2):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    ns = NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, ns, ns)
    m = W.field('m', 1 if c2 else nEl, nQP, ns, 1)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, 1, out=True)
    W.eq('ret', W.call('dw_lin_strain_fib', out, D, m, vg), 0)
    check_out(W, out, nEl, nQP, (n, 1), lambda e, q, r, c: isum(ns, lambda k: isum(
        ns, lambda l: B_sym(vg.bfg, e, q, dim, nEP, k, r) * D(e, q, k, l) * m(e, q, l, 0))),
        vg.det)

@S.contract('de_cauchy_strain', grid(dim=DIMS, mode=[0, 1], many=[1, 0]))
def de_cauchy_strain(W, dim, mode, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    ns = NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    st = W.field('strain', nEl, nQP, ns, 1)
    out = W.field('out', nEl, 1, ns, 1, out=True)
    W.eq('ret', W.call('de_cauchy_strain', out, st, vg, mode), 0)
    check_out(W, out, nEl, nQP, (ns, 1), lambda e, q, r, c: st(e, q, r, 0), vg.det,
              scale=(lambda e: 1 / vg.volume(e, 0, 0, 0)) if mode else None)

@S.contract('de_cauchy_stress', grid(dim=DIMS, mode=[0, 1], many=[1, 0], c1=[0, 1]))
def de_cauchy_stress(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    ns = NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, ns, ns)
    st = W.field('strain', nEl, nQP, ns, 1)
    out = W.field('out', nEl, 1, ns, 1, out=True)
    W.eq('ret', W.call('de_cauchy_stress', out, st, D, vg, mode), 0)
    check_out(W, out, nEl, nQP, (ns, 1), lambda e, q, r, c: isum(
        ns, lambda l: D(e, q, r, l) * st(e, q, l, 0)), vg.det,
        scale=(lambda e: 1 / vg.volume(e, 0, 0, 0)) if mode else None)

@S.contract('dq_cauchy_strain', grid(dim=DIMS, off=[0, 4], many=[1, 0]))
def dq_cauchy_strain(W, dim, off, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    conn = W.conn('conn', nEl, nEP, 6)
    st = W.state('state', dim, off)
    ns = NSYM[dim]
    out = W.field('out', nEl, nQP, ns, 1, out=True)
    W.eq('ret', W.call('dq_cauchy_strain', out, st, off, vg, conn, nEl, nEP), 0)
    e, q = W.index('e', nEl), W.index('q', nQP)
    g = lambda i, j: isum(nEP, lambda a: vg.bfg(e, q, j, a) * st.at(conn.at(e, a), i))
    for k, (i, j) in enumerate(SYM[dim]):
        W.eq('strain[%d]' % k, out(e, q, k, 0), g(i, i) if i == j else g(i, j) + g(j, i))

@S.contract('dw_nonsym_elastic', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]), timeout=400)
def dw_nonsym_elastic(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nEP = 2 if dim == 3 else nEP
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d2 = dim * dim
    D = W.field('D', nc, nQP, d2, d2)
    g = W.field('grad', nEl, nQP, d2, 1)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_nonsym_elastic', out, g, D, vg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        if diff:
            k, b = divmod(c, nEP)
            return isum(dim, lambda j: isum(dim, lambda l: vg.bfg(e, q, j, a)
                        * D(e, q, i * dim + j, k * dim + l) * vg.bfg(e, q, l, b)))
        return isum(dim, lambda j: isum(d2, lambda m: vg.bfg(e, q, j, a)
                    * D(e, q, i * dim + j, m) * g(e, q, m, 0)))
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

# dense operators used by the kernels, one element
@S.contract('form_sdcc_strainCauchy_VS', grid(dim=DIMS))
def strain_vs(W, dim):
    nQP = W.size('nQP', 1)
    dg = W.field('dg', 1, nQP, dim, dim)
    out = W.field('out', 1, nQP, NSYM[dim], 1, out=True)
    W.eq('ret', W.call('form_sdcc_strainCauchy_VS', out, dg), 0)
    q = W.index('q', nQP)
    for k, (i, j) in enumerate(SYM[dim]):
        W.eq('strain[%d]' % k, out(0, q, k, 0),
             dg(0, q, i, i) if i == j else dg(0, q, i, j) + dg(0, q, j, i))

@S.contract('build_nonsym_grad', grid(dim=DIMS, nEP=[2, 3, 4]))
def nonsym_grad(W, dim, nEP):
    nQP = W.size('nQP', 1)
    gc = W.field('gc', 1, nQP, dim, nEP)
    out = W.field('out', 1, nQP, dim * dim, dim * nEP, out=True)
    W.eq('ret', W.call('build_nonsym_grad', out, gc), 0)
    q = W.index('q', nQP)
    for i in range(dim):
        for j in range(dim):
            for k in range(dim):
                for a in range(nEP):
                    W.eq('g[%d%d,%d]' % (i, j, k * nEP + a),
                         out(0, q, i * dim + j, k * nEP + a),
                         gc(0, q, j, a) if i == k else 0)

@S.contract('form_sdcc operators', grid(dim=DIMS, nEP=[2, 3], op=['GTV', 'GTM', 'GR']))
def sdcc_ops(W, dim, nEP, op):
    nQP = W.size('nQP', 1)
    ns = NSYM[dim]
    gc = W.field('gc', 1, nQP, dim, nEP)
    n = dim * nEP
    q = W.index('q', nQP)
    B = lambda k, m: B_sym(gc, 0, q, dim, nEP, k, m)
    if op == 'GTV':
        v = W.field('v', 1, nQP, ns, 1)
        out = W.field('out', 1, nQP, n, 1, out=True)
        W.eq('ret', W.call('form_sdcc_actOpGT_VS3', out, gc, v), 0)
        for r in range(n):
            W.eq('o[%d]' % r, out(0, q, r, 0), isum(ns, lambda k: B(k, r) * v(0, q, k, 0)))
    elif op == 'GTM':
        nc = 2
        m = W.field('m', 1, nQP, ns, nc)
        out = W.field('out', 1, nQP, n, nc, out=True)
        W.eq('ret', W.call('form_sdcc_actOpGT_M3', out, gc, m), 0)
        for r in range(n):
            for c in range(nc):
                W.eq('o[%d,%d]' % (r, c), out(0, q, r, c),
                     isum(ns, lambda k: B(k, r) * m(0, q, k, c)))
    else:
        nr = 2
        m = W.field('m', 1, nQP, nr, ns)
        out = W.field('out', 1, nQP, nr, n, out=True)
        W.eq('ret', W.call('form_sdcc_actOpG_RM3', out, m, gc), 0)
        for r in range(nr):
            for c in range(n):
                W.eq('o[%d,%d]' % (r, c), out(0, q, r, c),
                     isum(ns, lambda k: m(0, q, r, k) * B(k, c)))

both_bf(S)

if __name__ == '__main__':
    main(S)
