from engine.vc import Suite, main
from engine.kern import *

S = Suite('C04', 'adjoint flow and shape sensitivity element kernels', files=TERM_FILES)
DIMS = [1, 2, 3]
EP = {1: 2, 2: 3, 3: 2}

def base(W, dim, many, c1):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    return nEl, nQP, EP[dim], (1 if c1 else nEl)

def ugrad(vg, u, e, q, dim, a):
    return isum(dim, lambda j: u(e, q, j, 0) * vg.bfg(e, q, j, a))

@S.contract('dw_adj_convect1', grid(dim=DIMS, diff=[0, 1], many=[1, 0]))
def adj_convect1(W, dim, diff, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    w = W.field('w', nEl, nQP, dim, 1)
    g = W.field('gradU', nEl, nQP, dim, dim)         # row = derivative
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_adj_convect1', out, w, g, vg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        if diff:
            k, b = divmod(c, nEP)
            v = g(e, q, i, k) * vg.bf(e, q, 0, b)
        else:
            v = isum(dim, lambda k: g(e, q, i, k) * w(e, q, k, 0))
        return vg.bf(e, q, 0, a) * v
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

@S.contract('dw_adj_convect2', grid(dim=DIMS, diff=[0, 1], many=[1, 0]))
def adj_convect2(W, dim, diff, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    w = W.field('w', nEl, nQP, dim, 1)
    u = W.field('u', nEl, nQP, dim, 1)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_adj_convect2', out, w, u, vg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        v = ugrad(vg, u, e, q, dim, a)
        if diff:
            k, b = divmod(c, nEP)
            return v * vg.bf(e, q, 0, b) if i == k else 0
        return v * w(e, q, i, 0)
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

@S.contract('dw_st_adj_supg_c', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def adj_supg_c(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nEP = 2
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    u = W.field('u', nEl, nQP, dim, 1)
    g = W.field('gradU', nEl, nQP, dim, dim)         # row = component
    cf = W.field('coef', nc, nQP, 1, 1)
    conn = W.conn('conn', nEl, nEP, 6)
    w = W.state('w', dim)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_st_adj_supg_c', out, w, u, g, cf, vg, conn, nEl, nEP, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        na = vg.bf(e, q, 0, a)
        ugu = lambda k: isum(dim, lambda j: g(e, q, k, j) * u(e, q, j, 0))
        # ((v.grad) u_k) ((u.grad) w_k) + ((u.grad) u_k) ((v.grad) w_k)
        def m(k, b):
            return na * (g(e, q, k, i) * ugrad(vg, u, e, q, dim, b)
                         + ugu(k) * vg.bfg(e, q, i, b))
        if diff:
            v = m(*divmod(c, nEP))
        else:
            v = isum(dim, lambda k: isum(nEP, lambda b: m(k, b) * w.at(conn.at(e, b), k)))
        return cf(e, q, 0, 0) * v
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

@S.contract('dw_st_adj1_supg_p', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def adj1_supg_p(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    gp = W.field('gradP', nEl, nQP, dim, 1)
    cf = W.field('coef', nc, nQP, 1, 1)
    conn = W.conn('conn', nEl, nEP, 6)
    w = W.state('w', dim)
    n = dim * nEP
    out = W.field('out', nEl, 1, n, n if diff else 1, out=True)
    W.eq('ret', W.call('dw_st_adj1_supg_p', out, w, gp, cf, vg, conn, nEl, nEP, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        m = lambda k, b: vg.bfg(e, q, i, b) * gp(e, q, k, 0)
        if diff:
            v = m(*divmod(c, nEP))
        else:
            v = isum(dim, lambda k: isum(nEP, lambda b: m(k, b) * w.at(conn.at(e, b), k)))
        return cf(e, q, 0, 0) * vg.bf(e, q, 0, a) * v
    check_out(W, out, nEl, nQP, (n, n if diff else 1), f, vg.det)

@S.contract('dw_st_adj2_supg_p', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def adj2_supg_p(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nR = 3
    vg_u = W.mapping('vg_u', nEl, nQP, dim, nEP)
    vg_r = W.mapping('vg_r', nEl, nQP, dim, nR)
    g = W.field('gradU', nEl, nQP, dim, dim)         # row = component
    cf = W.field('coef', nc, nQP, 1, 1)
    conn = W.conn('conn', nEl, nR, 6)
    r_ = W.state('r', 1)
    n = nR if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, n, out=True)
    W.eq('ret', W.call('dw_st_adj2_supg_p', out, g, r_, cf, vg_u, vg_r, conn, nEl, nR, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        m = lambda b: isum(dim, lambda k: g(e, q, k, i) * vg_r.bfg(e, q, k, b))
        v = m(c) if diff else isum(nR, lambda b: m(b) * r_.at(conn.at(e, b), 0))
        return cf(e, q, 0, 0) * vg_u.bf(e, q, 0, a) * v
    check_out(W, out, nEl, nQP, (dim * nEP, n), f, vg_u.det)

@S.contract('d_of_nsMinGrad', grid(dim=DIMS, many=[1, 0], c1=[0, 1]))
def of_min_grad(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d2 = dim * dim
    g = W.field('grad', nEl, nQP, d2, 1)
    nu = W.field('nu', nc, nQP, 1, 1)
    out = W.field('out', 1, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_of_nsMinGrad', out, g, nu, vg), 0)
    W.eq('out', out(0, 0, 0, 0), W.frac(1, 2) * W.sum(nEl, lambda e: W.sum(
        nQP, lambda q: vg.det(e, q, 0, 0) * nu(e, q, 0, 0)
        * isum(d2, lambda k: g(e, q, k, 0) * g(e, q, k, 0)))))

@S.contract('d_of_nsSurfMinDPress', grid(diff=[0, 1], many=[1, 0]))
def of_dpress(W, diff, many):
    nEl, nQP, nEP, _ = base(W, 2, many, 0)
    sg = W.mapping('sg', nEl, nQP, 2, nEP, surface=True)
    p = W.field('p', nEl, nQP, 1, 1)
    wt, bp = W.real('weight'), W.real('bpress')
    if diff:
        out = W.field('out', nEl, 1, nEP, 1, out=True)
        W.eq('ret', W.call('d_of_nsSurfMinDPress', out, p, wt, bp, sg, 1), 0)
        check_out(W, out, nEl, nQP, (nEP, 1), lambda e, q, r, c: sg.bf(e, q, 0, r), sg.det,
                  scale=lambda e: wt)
    else:
        out = W.field('out', 1, 1, 1, 1, out=True)
        W.eq('ret', W.call('d_of_nsSurfMinDPress', out, p, wt, bp, sg, 0), 0)
        W.eq('out', out(0, 0, 0, 0), wt * W.sum(nEl, lambda e: W.sum(
            nQP, lambda q: sg.det(e, q, 0, 0) * (p(e, q, 0, 0) - bp))))

@S.contract('d_sd_volume_dot', grid(nr=[1, 2, 3], mode=[0, 1], many=[1, 0]))
def sd_volume_dot(W, nr, mode, many):
    nEl, nQP, nEP, _ = base(W, 2, many, 0)
    vg = W.mapping('vg', nEl, nQP, 2, nEP)
    p = W.field('p', nEl, nQP, nr, 1)
    q_ = W.field('q', nEl, nQP, nr, 1)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_volume_dot', out, p, q_, dv, vg, mode), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: isum(
        nr, lambda k: p(e, q, k, 0) * q_(e, q, k, 0)) * (dv(e, q, 0, 0) if mode else 1), vg.det)

@S.contract('d_sd_div', grid(dim=DIMS, mode=[0, 1], many=[1, 0]))
def sd_div(W, dim, mode, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d2 = dim * dim
    du = W.field('divU', nEl, nQP, 1, 1)
    gu = W.field('gradU', nEl, nQP, d2, 1)
    p = W.field('p', nEl, nQP, 1, 1)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    gv = W.field('gradMV', nEl, nQP, d2, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_div', out, du, gu, p, dv, gv, vg, mode), 0)
    def f(e, q, r, c):
        P, D = p(e, q, 0, 0), du(e, q, 0, 0)
        if not mode:
            return P * D
        return P * (D * dv(e, q, 0, 0) - isum(dim, lambda k: isum(dim, lambda i: (
            gv(e, q, k * dim + i, 0) * gu(e, q, i * dim + k, 0)))))
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

@S.contract('d_sd_div_grad', grid(dim=DIMS, mode=[0, 1], many=[1, 0], c1=[0, 1]))
def sd_div_grad(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d2 = dim * dim
    gu = W.field('gradU', nEl, nQP, d2, 1)
    gw = W.field('gradW', nEl, nQP, d2, 1)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    gv = W.field('gradMV', nEl, nQP, d2, 1)
    nu = W.field('nu', nc, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_div_grad', out, gu, gw, dv, gv, nu, vg, mode), 0)
    def f(e, q, r, c):
        G = lambda g, i, j: g(e, q, i * dim + j, 0)
        R = [(i, j) for i in range(dim) for j in range(dim)]
        t = sum(G(gu, i, j) * G(gw, i, j) for i, j in R)
        if mode:
            t = t * dv(e, q, 0, 0)
            for i, j in R:
                for k in range(dim):
                    t = t - G(gu, i, k) * G(gv, k, j) * G(gw, i, j)
                    t = t - G(gw, i, k) * G(gv, k, j) * G(gu, i, j)
        return nu(e, q, 0, 0) * t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

@S.contract('d_sd_convect', grid(dim=DIMS, mode=[0, 1], many=[1, 0]))
def sd_convect(W, dim, mode, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d2 = dim * dim
    u = W.field('u', nEl, nQP, dim, 1)
    gu = W.field('gradU', nEl, nQP, d2, 1)
    w = W.field('w', nEl, nQP, dim, 1)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    gv = W.field('gradMV', nEl, nQP, d2, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_convect', out, u, gu, w, dv, gv, vg, mode), 0)
    def f(e, q, r, c):
        G = lambda g, i, j: g(e, q, i * dim + j, 0)
        t = isum(dim, lambda i: isum(dim, lambda k: u(e, q, k, 0) * G(gu, i, k) * w(e, q, i, 0)))
        if mode:
            t = t * dv(e, q, 0, 0)
            t = t - isum(dim, lambda i: isum(dim, lambda k: isum(dim, lambda j: (
                u(e, q, k, 0) * G(gv, j, k) * G(gu, i, j) * w(e, q, i, 0)))))
        return t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

@S.contract('d_sd_st_grad_div', grid(dim=DIMS, mode=[0, 1], many=[1, 0], c1=[0, 1]))
def sd_st_grad_div(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    d2 = dim * dim
    du, gu = W.field('divU', nEl, nQP, 1, 1), W.field('gradU', nEl, nQP, d2, 1)
    dw, gw = W.field('divW', nEl, nQP, 1, 1), W.field('gradW', nEl, nQP, d2, 1)
    dv, gv = W.field('divMV', nEl, nQP, 1, 1), W.field('gradMV', nEl, nQP, d2, 1)
    cf = W.field('coef', nc, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_st_grad_div', out, du, gu, dw, gw, dv, gv, cf, vg, mode), 0)
    def f(e, q, r, c):
        G = lambda g, i, j: g(e, q, i * dim + j, 0)
        D, E = du(e, q, 0, 0), dw(e, q, 0, 0)
        t = D * E
        if mode:
            t = t * dv(e, q, 0, 0)
            for i in range(dim):
                for k in range(dim):
                    t = t - G(gu, i, k) * G(gv, k, i) * E - G(gw, i, k) * G(gv, k, i) * D
        return cf(e, q, 0, 0) * t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

def bdot(b, g, e, q, dim, k):
    """(b . grad) g_k for a gradient stored with row = component"""
    return isum(dim, lambda j: b(e, q, j, 0) * g(e, q, k, j))

@S.contract('d_sd_st_supg_c', grid(dim=DIMS, mode=[0, 1], many=[1, 0], c1=[0, 1]))
def sd_st_supg_c(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    b = W.field('b', nEl, nQP, dim, 1)
    gu = W.field('gradU', nEl, nQP, dim, dim)
    gw = W.field('gradW', nEl, nQP, dim, dim)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    gv = W.field('gradMV', nEl, nQP, dim, dim)
    cf = W.field('coef', nc, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_st_supg_c', out, b, gu, gw, dv, gv, cf, vg, mode), 0)
    def f(e, q, r, c):
        B = lambda g, k: bdot(b, g, e, q, dim, k)
        t = isum(dim, lambda k: B(gu, k) * B(gw, k))
        if mode:
            t = t * dv(e, q, 0, 0)
            for k in range(dim):
                for i in range(dim):
                    t = t - B(gv, i) * (gu(e, q, k, i) * B(gw, k) + B(gu, k) * gw(e, q, k, i))
        return cf(e, q, 0, 0) * t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

@S.contract('d_sd_st_pspg_c', grid(dim=DIMS, mode=[0, 1], many=[1, 0], c1=[0, 1]))
def sd_st_pspg_c(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    b = W.field('b', nEl, nQP, dim, 1)
    gu = W.field('gradU', nEl, nQP, dim, dim)
    gr = W.field('gradR', nEl, nQP, dim, 1)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    gv = W.field('gradMV', nEl, nQP, dim, dim)
    cf = W.field('coef', nc, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_st_pspg_c', out, b, gu, gr, dv, gv, cf, vg, mode), 0)
    def f(e, q, r, c):
        B = lambda g, k: bdot(b, g, e, q, dim, k)
        R = lambda i: gr(e, q, i, 0)
        t = isum(dim, lambda i: R(i) * B(gu, i))
        if mode:
            t = t * dv(e, q, 0, 0)
            for k in range(dim):
                for i in range(dim):
                    t = t - R(k) * gv(e, q, k, i) * B(gu, i)
                    t = t - R(i) * B(gv, k) * gu(e, q, i, k)
        return cf(e, q, 0, 0) * t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

@S.contract('d_sd_st_pspg_p', grid(dim=DIMS, mode=[0, 1], many=[1, 0], c1=[0, 1]))
def sd_st_pspg_p(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    gr = W.field('gradR', nEl, nQP, dim, 1)
    gp = W.field('gradP', nEl, nQP, dim, 1)
    dv = W.field('divMV', nEl, nQP, 1, 1)
    gv = W.field('gradMV', nEl, nQP, dim, dim)
    cf = W.field('coef', nc, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_st_pspg_p', out, gr, gp, dv, gv, cf, vg, mode), 0)
    def f(e, q, r, c):
        R, P = (lambda i: gr(e, q, i, 0)), (lambda i: gp(e, q, i, 0))
        t = isum(dim, lambda i: R(i) * P(i))
        if mode:
            t = t * dv(e, q, 0, 0)
            for k in range(dim):
                for i in range(dim):
                    V = gv(e, q, k, i)
                    t = t - R(k) * V * P(i) - R(i) * V * P(k)
        return cf(e, q, 0, 0) * t
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

both_bf(S)

if __name__ == '__main__':
    main(S)
