from engine.vc import Suite, main
from engine.kern import *

S = Suite('C03', 'flow element kernels', files=TERM_FILES)
DIMS = [1, 2, 3]
EP = {1: 2, 2: 3, 3: 2}

def base(W, dim, many, c1):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    return nEl, nQP, EP[dim], (1 if c1 else nEl)

def ugrad(vg, u, e, q, dim, a):
    """(u . grad) N_a"""
    return isum(dim, lambda j: u(e, q, j, 0) * vg.bfg(e, q, j, a))

@S.contract('term_ns_asm_div_grad', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def div_grad(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nES = 2 if diff else nEP
    vgv = W.mapping('vgv', nEl, nQP, dim, nEP)
    vgs = W.mapping('vgs', nEl, nQP, dim, nES)
    nu = W.field('nu', nc, nQP, 1, 1)
    g = W.field('grad', nEl, nQP, dim * dim, 1)
    nc_ = dim * nES if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, nc_, out=True)
    W.eq('ret', W.call('term_ns_asm_div_grad', out, g, nu, vgv, vgs, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        if diff:
            k, b = divmod(c, nES)
            v = isum(dim, lambda j: vgv.bfg(e, q, j, a) * vgs.bfg(e, q, j, b)) if i == k else 0
        else:
            v = isum(dim, lambda j: vgv.bfg(e, q, j, a) * g(e, q, i * dim + j, 0))
        return nu(e, q, 0, 0) * v
    check_out(W, out, nEl, nQP, (dim * nEP, nc_), f, vgv.det)

@S.contract('term_ns_asm_convect', grid(dim=DIMS, diff=[0, 1], many=[1, 0]))
def convect(W, dim, diff, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    g = W.field('grad', nEl, nQP, dim, dim)
    u = W.field('u', nEl, nQP, dim, 1)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('term_ns_asm_convect', out, g, u, vg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        if diff:
            k, b = divmod(c, nEP)
            v = g(e, q, i, k) * vg.bf(e, q, 0, b)
            if i == k:
                v = v + ugrad(vg, u, e, q, dim, b)
        else:
            v = isum(dim, lambda j: g(e, q, i, j) * u(e, q, j, 0))
        return vg.bf(e, q, 0, a) * v
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

@S.contract('dw_lin_convect', grid(dim=DIMS, diff=[0, 1, 2], many=[1, 0], c1=[0, 1]))
def lin_convect(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    g = W.field('grad', nEl, nQP, dim, dim)
    b = W.field('b', nc, nQP, dim, 1)
    n = dim * nEP
    conv = lambda e, q, i: isum(dim, lambda j: g(e, q, i, j) * b(e, q, j, 0))
    if diff == 2:
        out = W.field('out', nEl, nQP, dim, 1, out=True)
        W.eq('ret', W.call('dw_lin_convect', out, g, b, vg, diff), 0)
        e, q = W.index('e', nEl), W.index('q', nQP)
        for i in range(dim):
            W.eq('conv[%d]' % i, out(e, q, i, 0), conv(e, q, i))
        return
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_lin_convect', out, g, b, vg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        if diff:
            k, d = divmod(c, nEP)
            v = ugrad(vg, b, e, q, dim, d) if i == k else 0
        else:
            v = conv(e, q, i)
        return vg.bf(e, q, 0, a) * v
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

@S.contract('dw_div', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def div(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nP = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEP)
    svg = W.mapping('svg', nEl, nQP, dim, nP)
    cf = W.field('coef', nc, nQP, 1, 1)
    d = W.field('div', nEl, nQP, 1, 1)
    n = dim * nEP if diff else 1
    out = W.field('out', nEl, 1, nP, n, out=True)
    W.eq('ret', W.call('dw_div', out, cf, d, svg, vvg, diff), 0)
    def f(e, q, r, c):
        k, b = divmod(c, nEP)
        return cf(e, q, 0, 0) * svg.bf(e, q, 0, r) * (
            vvg.bfg(e, q, k, b) if diff else d(e, q, 0, 0))
    check_out(W, out, nEl, nQP, (nP, n), f, vvg.det)

@S.contract('dw_grad', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def gradt(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nP = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEP)
    svg = W.mapping('svg', nEl, nQP, dim, nP)
    cf = W.field('coef', nc, nQP, 1, 1)
    p = W.field('p', nEl, nQP, 1, 1)
    n = nP if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, n, out=True)
    W.eq('ret', W.call('dw_grad', out, cf, p, svg, vvg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        return cf(e, q, 0, 0) * vvg.bfg(e, q, i, a) * (
            svg.bf(e, q, 0, c) if diff else p(e, q, 0, 0))
    check_out(W, out, nEl, nQP, (dim * nEP, n), f, vvg.det)

@S.contract('dw_st_pspg_c', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def pspg_c(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nP = 3
    vg_u = W.mapping('vg_u', nEl, nQP, dim, nEP)
    vg_p = W.mapping('vg_p', nEl, nQP, dim, nP)
    b = W.field('b', nEl, nQP, dim, 1)
    cf = W.field('coef', nc, nQP, 1, 1)
    conn = W.conn('conn', nEl, nEP, 6)
    u = W.state('u', dim)
    n = dim * nEP if diff else 1
    out = W.field('out', nEl, 1, nP, n, out=True)
    W.eq('ret', W.call('dw_st_pspg_c', out, b, u, cf, vg_p, vg_u, conn, nEl, nEP, diff), 0)
    def f(e, q, r, c):
        if diff:
            k, d = divmod(c, nEP)
            v = vg_p.bfg(e, q, k, r) * ugrad(vg_u, b, e, q, dim, d)
        else:
            v = isum(dim, lambda i: vg_p.bfg(e, q, i, r) * isum(
                nEP, lambda d: ugrad(vg_u, b, e, q, dim, d) * u.at(conn.at(e, d), i)))
        return cf(e, q, 0, 0) * v
    check_out(W, out, nEl, nQP, (nP, n), f, vg_u.det)

@S.contract('dw_st_supg_p', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def supg_p(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nP = 3
    vg_u = W.mapping('vg_u', nEl, nQP, dim, nEP)
    vg_p = W.mapping('vg_p', nEl, nQP, dim, nP)
    b = W.field('b', nEl, nQP, dim, 1)
    gp = W.field('gradP', nEl, nQP, dim, 1)
    cf = W.field('coef', nc, nQP, 1, 1)
    n = nP if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, n, out=True)
    W.eq('ret', W.call('dw_st_supg_p', out, b, gp, cf, vg_u, vg_p, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        return cf(e, q, 0, 0) * ugrad(vg_u, b, e, q, dim, a) * (
            vg_p.bfg(e, q, i, c) if diff else gp(e, q, i, 0))
    check_out(W, out, nEl, nQP, (dim * nEP, n), f, vg_u.det)

@S.contract('dw_st_supg_c', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def supg_c(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    b = W.field('b', nEl, nQP, dim, 1)
    cf = W.field('coef', nc, nQP, 1, 1)
    conn = W.conn('conn', nEl, nEP, 6)
    u = W.state('u', dim)
    n = dim * nEP if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, n, out=True)
    W.eq('ret', W.call('dw_st_supg_c', out, b, u, cf, vg, conn, nEl, nEP, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        bg = lambda d: ugrad(vg, b, e, q, dim, d)
        if diff:
            k, d = divmod(c, nEP)
            v = bg(d) if i == k else 0
        else:
            v = isum(nEP, lambda d: bg(d) * u.at(conn.at(e, d), i))
        return cf(e, q, 0, 0) * bg(a) * v
    check_out(W, out, nEl, nQP, (dim * nEP, n), f, vg.det)

@S.contract('dw_st_grad_div', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def grad_div(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d = W.field('div', nEl, nQP, 1, 1)
    cf = W.field('coef', nc, nQP, 1, 1)
    n = dim * nEP if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, n, out=True)
    W.eq('ret', W.call('dw_st_grad_div', out, d, cf, vg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        k, b = divmod(c, nEP)
        return cf(e, q, 0, 0) * vg.bfg(e, q, i, a) * (
            vg.bfg(e, q, k, b) if diff else d(e, q, 0, 0))
    check_out(W, out, nEl, nQP, (dim * nEP, n), f, vg.det)

@S.contract('gradient operators', grid(dim=DIMS, nEP=[2, 3],
            op=['gtg', 'g_m', 'gt_m', 'vtg', 'vtbg']))
def ops(W, dim, nEP, op):
    nQP = W.size('nQP', 1)
    gc = W.field('gc', 1, nQP, dim, nEP)
    q = W.index('q', nQP)
    n = dim * nEP
    if op == 'gtg':
        gs = W.field('gs', 1, nQP, dim, 2)
        out = W.field('out', 1, nQP, n, dim * 2, out=True)
        W.eq('ret', W.call('divgrad_build_gtg', out, gc, gs), 0)
        for r in range(n):
            for c in range(dim * 2):
                i, a = divmod(r, nEP)
                k, b = divmod(c, 2)
                W.eq('o[%d,%d]' % (r, c), out(0, q, r, c), isum(
                    dim, lambda j: gc(0, q, j, a) * gs(0, q, j, b)) if i == k else 0)
    elif op == 'g_m':
        m = W.field('m', 1, nQP, n, 2)
        out = W.field('out', 1, nQP, dim * dim, 2, out=True)
        W.eq('ret', W.call('divgrad_act_g_m', out, gc, m), 0)
        for i in range(dim):
            for j in range(dim):
                for c in range(2):
                    W.eq('o[%d%d,%d]' % (i, j, c), out(0, q, i * dim + j, c), isum(
                        nEP, lambda a: gc(0, q, j, a) * m(0, q, i * nEP + a, c)))
    elif op == 'gt_m':
        m = W.field('m', 1, nQP, dim * dim, 2)
        out = W.field('out', 1, nQP, n, 2, out=True)
        W.eq('ret', W.call('divgrad_act_gt_m', out, gc, m), 0)
        for r in range(n):
            for c in range(2):
                i, a = divmod(r, nEP)
                W.eq('o[%d,%d]' % (r, c), out(0, q, r, c), isum(
                    dim, lambda j: gc(0, q, j, a) * m(0, q, i * dim + j, c)))
    else:
        v = W.field('v', 1, nQP, dim, 1)
        out = W.field('out', 1, nQP, dim, n, out=True)
        W.eq('ret', W.call('convect_build_' + op, out, gc, v), 0)
        for i in range(dim):
            for c in range(n):
                k, a = divmod(c, nEP)
                if op == 'vtg':
                    # only the block diagonal is written
                    if i == k:
                        W.eq('o[%d,%d]' % (i, c), out(0, q, i, c), isum(
                            dim, lambda j: v(0, q, j, 0) * gc(0, q, j, a)))
                else:
                    W.eq('o[%d,%d]' % (i, c), out(0, q, i, c), v(0, q, k, 0) * gc(0, q, i, a))

both_bf(S)

if __name__ == '__main__':
    main(S)
