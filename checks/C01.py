from engine.vc import Suite, main
from engine.kern import *

S = Suite('C01', 'scalar, dot and coupling element kernels', files=TERM_FILES)

DIMS = [1, 2, 3]
EP = {1: 2, 2: 3, 3: 3}

def base(W, dim, many, nc):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    return nEl, nQP, EP[dim], (1 if nc else nEl)

@S.contract('dw_laplace', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_laplace(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    coef = W.field('coef', nc, nQP, 1, 1)
    grad = W.field('grad', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, nEP, nEP if diff else 1, out=True)
    W.eq('ret', W.call('dw_laplace', out, grad, coef, vg, diff), 0)
    G = vg.bfg
    if diff:
        f = lambda e, q, r, c: coef(e, q, 0, 0) * isum(dim, lambda i: G(e, q, i, r) * G(e, q, i, c))
    else:
        f = lambda e, q, r, c: coef(e, q, 0, 0) * isum(dim, lambda i: G(e, q, i, r) * grad(e, q, i, 0))
    check_out(W, out, nEl, nQP, (nEP, nEP if diff else 1), f, vg.det)

@S.contract('d_laplace', grid(dim=DIMS, many=[1, 0], c1=[0, 1]))
def d_laplace(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    coef = W.field('coef', nc, nQP, 1, 1)
    g1 = W.field('g1', nEl, nQP, dim, 1)
    g2 = W.field('g2', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_laplace', out, g1, g2, coef, vg), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: coef(e, q, 0, 0)
              * isum(dim, lambda i: g1(e, q, i, 0) * g2(e, q, i, 0)), vg.det)

@S.contract('dw_diffusion', grid(dim=DIMS, diff=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_diffusion(W, dim, diff, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, dim, dim)
    grad = W.field('grad', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, nEP, nEP if diff else 1, out=True)
    W.eq('ret', W.call('dw_diffusion', out, grad, D, vg, diff), 0)
    G = vg.bfg
    f = lambda e, q, r, c: isum(dim, lambda i: isum(dim, lambda j: G(e, q, i, r)
            * D(e, q, i, j) * (G(e, q, j, c) if diff else grad(e, q, j, 0))))
    check_out(W, out, nEl, nQP, (nEP, nEP if diff else 1), f, vg.det)

@S.contract('d_diffusion', grid(dim=DIMS, many=[1, 0], c1=[0, 1]))
def d_diffusion(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, dim, dim)
    g1 = W.field('g1', nEl, nQP, dim, 1)
    g2 = W.field('g2', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_diffusion', out, g1, g2, D, vg), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: isum(dim, lambda i: isum(
        dim, lambda j: g1(e, q, i, 0) * D(e, q, i, j) * g2(e, q, j, 0))), vg.det)

@S.contract('d_sd_diffusion', grid(dim=[2, 3], many=[1, 0], c1=[0, 1]))
def d_sd_diffusion(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, dim, dim)
    gq = W.field('gq', nEl, nQP, dim, 1)
    gp = W.field('gp', nEl, nQP, dim, 1)
    gw = W.field('gw', nEl, nQP, dim, dim)
    dw = W.field('dw', nEl, nQP, 1, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_sd_diffusion', out, gq, gp, gw, dw, D, vg), 0)
    # div w (grad q . K grad p) - grad q . (grad w)^T K grad p
    #   - grad q . K (grad w) grad p,  w gradient stored as passed
    def f(e, q, r, c):
        K = lambda i, j: D(e, q, i, j)
        a = isum(dim, lambda i: isum(dim, lambda j: gq(e, q, i, 0) * K(i, j) * gp(e, q, j, 0)))
        b = isum(dim, lambda i: isum(dim, lambda j: isum(dim, lambda k:
                 gq(e, q, i, 0) * gw(e, q, k, i) * K(k, j) * gp(e, q, j, 0))))
        d = isum(dim, lambda i: isum(dim, lambda j: isum(dim, lambda k:
                 gq(e, q, i, 0) * K(i, k) * gw(e, q, k, j) * gp(e, q, j, 0))))
        return dw(e, q, 0, 0) * a - b - d
    check_out(W, out, nEl, nQP, (1, 1), f, vg.det)

@S.contract('dw_diffusion_r', grid(dim=DIMS, many=[1, 0], c1=[0, 1]))
def dw_diffusion_r(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    D = W.field('D', nc, nQP, dim, 1)
    out = W.field('out', nEl, 1, nEP, 1, out=True)
    W.eq('ret', W.call('dw_diffusion_r', out, D, vg), 0)
    check_out(W, out, nEl, nQP, (nEP, 1), lambda e, q, r, c: isum(
        dim, lambda i: vg.bfg(e, q, i, r) * D(e, q, i, 0)), vg.det)

@S.contract('d_surface_flux', grid(dim=[2, 3], mode=[0, 1], many=[1, 0], c1=[0, 1]))
def d_surface_flux(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    sg = W.mapping('sg', nEl, nQP, dim, nEP, surface=True)
    D = W.field('D', nc, nQP, dim, dim)
    g = W.field('g', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_surface_flux', out, g, D, sg, mode), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: isum(dim, lambda i: isum(
        dim, lambda j: sg.normal(e, q, i, 0) * D(e, q, i, j) * g(e, q, j, 0))), sg.det,
        scale=(lambda e: 1 / sg.volume(e, 0, 0, 0)) if mode else None)

@S.contract('dw_surface_flux', grid(dim=[2, 3], mode=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_surface_flux(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    sg = W.mapping('sg', nEl, nQP, dim, nEP, surface=True)
    D = W.field('D', nc, nQP, dim, dim)
    g = W.field('g', nEl, nQP, dim, 1)
    nF = 4
    bf = W.field('fbf', nF, nQP, 1, nEP)
    fis = W.conn('fis', nEl, 2, nF)
    out = W.field('out', nEl, 1, nEP, nEP if mode else 1, out=True)
    W.eq('ret', W.call('dw_surface_flux', out, g, D, bf, sg, fis, nEl, 2, mode), 0)
    def f(e, q, r, c):
        t = lambda j: sg.bfg(e, q, j, c) if mode else g(e, q, j, 0)
        return bf(fis.at(e, 1), q, 0, r) * isum(dim, lambda i: isum(
            dim, lambda j: sg.normal(e, q, i, 0) * D(e, q, i, j) * t(j)))
    check_out(W, out, nEl, nQP, (nEP, nEP if mode else 1), f, sg.det)

@S.contract('dw_convect_v_grad_s', grid(dim=[2, 3], diff=[0, 1, 2], many=[1, 0]))
def dw_convect_v_grad_s(W, dim, diff, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    nEPV = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEPV)
    svg = W.mapping('svg', nEl, nQP, dim, nEP)
    v = W.field('v', nEl, nQP, dim, 1)
    gs = W.field('gs', nEl, nQP, dim, 1)
    ncol = [1, nEP, dim * nEPV][diff]
    out = W.field('out', nEl, 1, nEP, ncol, out=True)
    W.eq('ret', W.call('dw_convect_v_grad_s', out, v, gs, vvg, svg, diff), 0)
    def f(e, q, r, c):
        if diff == 0:
            t = isum(dim, lambda i: v(e, q, i, 0) * gs(e, q, i, 0))
        elif diff == 1:
            t = isum(dim, lambda i: v(e, q, i, 0) * svg.bfg(e, q, i, c))
        else:
            i, a = divmod(c, nEPV)
            t = vvg.bf(e, q, 0, a) * gs(e, q, i, 0)
        return svg.bf(e, q, 0, r) * t
    check_out(W, out, nEl, nQP, (nEP, ncol), f, vvg.det)

@S.contract('dw_surface_v_dot_n_s', grid(dim=[2, 3], diff=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_surface_v_dot_n_s(W, dim, diff, many, c1):
    nEl, nQP, nEPR, nc = base(W, dim, many, c1)
    nEPC = 2
    rsg = W.mapping('rsg', nEl, nQP, dim, nEPR, surface=True)
    csg = W.mapping('csg', nEl, nQP, dim, nEPC, surface=True)
    coef = W.field('coef', nc, nQP, 1, 1)
    val = W.field('val', nEl, nQP, 1, 1)
    ncol = nEPC if diff else 1
    out = W.field('out', nEl, 1, dim * nEPR, ncol, out=True)
    W.eq('ret', W.call('dw_surface_v_dot_n_s', out, coef, val, rsg, csg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEPR)
        return (coef(e, q, 0, 0) * rsg.bf(e, q, 0, a) * rsg.normal(e, q, i, 0)
                * (csg.bf(e, q, 0, c) if diff else val(e, q, 0, 0)))
    check_out(W, out, nEl, nQP, (dim * nEPR, ncol), f, rsg.det)

@S.contract('dw_surface_s_v_dot_n', grid(dim=[2, 3], diff=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_surface_s_v_dot_n(W, dim, diff, many, c1):
    nEl, nQP, nEPR, nc = base(W, dim, many, c1)
    nEPC = 2
    rsg = W.mapping('rsg', nEl, nQP, dim, nEPR, surface=True)
    csg = W.mapping('csg', nEl, nQP, dim, nEPC, surface=True)
    coef = W.field('coef', nc, nQP, 1, 1)
    val = W.field('val', nEl, nQP, dim, 1)
    ncol = dim * nEPC if diff else 1
    out = W.field('out', nEl, 1, nEPR, ncol, out=True)
    W.eq('ret', W.call('dw_surface_s_v_dot_n', out, coef, val, rsg, csg, diff), 0)
    def f(e, q, r, c):
        if diff:
            i, a = divmod(c, nEPC)
            t = rsg.normal(e, q, i, 0) * csg.bf(e, q, 0, a)
        else:
            t = isum(dim, lambda i: rsg.normal(e, q, i, 0) * val(e, q, i, 0))
        return coef(e, q, 0, 0) * rsg.bf(e, q, 0, r) * t
    check_out(W, out, nEl, nQP, (nEPR, ncol), f, rsg.det)

@S.contract('dw_volume_dot_vector', grid(dim=[2, 3], diff=[0, 1], cc=[1, 0], many=[1, 0], c1=[0, 1]))
def dw_volume_dot_vector(W, dim, diff, cc, many, c1):
    nEl, nQP, nEPR, nc = base(W, dim, many, c1)
    nEPC = 2
    rvg = W.mapping('rvg', nEl, nQP, dim, nEPR)
    cvg = W.mapping('cvg', nEl, nQP, dim, nEPC)
    k = 1 if cc else dim
    coef = W.field('coef', nc, nQP, k, k)
    val = W.field('val', nEl, nQP, dim, 1)
    ncol = dim * nEPC if diff else 1
    out = W.field('out', nEl, 1, dim * nEPR, ncol, out=True)
    W.eq('ret', W.call('dw_volume_dot_vector', out, coef, val, rvg, cvg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEPR)
        cf = lambda i, j: (coef(e, q, 0, 0) if i == j else 0) if cc else coef(e, q, i, j)
        if diff:
            j, b = divmod(c, nEPC)
            t = cf(i, j) * cvg.bf(e, q, 0, b)
        else:
            t = isum(dim, lambda j: cf(i, j) * val(e, q, j, 0))
        return rvg.bf(e, q, 0, a) * t
    check_out(W, out, nEl, nQP, (dim * nEPR, ncol), f, rvg.det)

@S.contract('dw_volume_dot_scalar', grid(dim=[1, 2, 3], diff=[0, 1], many=[1, 0], c1=[0, 1]))
def dw_volume_dot_scalar(W, dim, diff, many, c1):
    nEl, nQP, nEPR, nc = base(W, dim, many, c1)
    nEPC = 2
    rvg = W.mapping('rvg', nEl, nQP, dim, nEPR)
    cvg = W.mapping('cvg', nEl, nQP, dim, nEPC)
    coef = W.field('coef', nc, nQP, 1, 1)
    val = W.field('val', nEl, nQP, 1, 1)
    ncol = nEPC if diff else 1
    out = W.field('out', nEl, 1, nEPR, ncol, out=True)
    W.eq('ret', W.call('dw_volume_dot_scalar', out, coef, val, rvg, cvg, diff), 0)
    check_out(W, out, nEl, nQP, (nEPR, ncol), lambda e, q, r, c: coef(e, q, 0, 0)
              * rvg.bf(e, q, 0, r) * (cvg.bf(e, q, 0, c) if diff else val(e, q, 0, 0)), rvg.det)

@S.contract('dw_v_dot_grad_s_vw', grid(dim=[2, 3], diff=[0, 1], cc=[1, 0], many=[1, 0], c1=[0, 1]))
def dw_v_dot_grad_s_vw(W, dim, diff, cc, many, c1):
    nEl, nQP, nEPS, nc = base(W, dim, many, c1)
    nEPV = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEPV)
    svg = W.mapping('svg', nEl, nQP, dim, nEPS)
    k = 1 if cc else dim
    coef = W.field('coef', nc, nQP, k, k)
    g = W.field('g', nEl, nQP, dim, 1)
    ncol = nEPS if diff else 1
    out = W.field('out', nEl, 1, dim * nEPV, ncol, out=True)
    W.eq('ret', W.call('dw_v_dot_grad_s_vw', out, coef, g, vvg, svg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEPV)
        cf = lambda i, j: (coef(e, q, 0, 0) if i == j else 0) if cc else coef(e, q, i, j)
        return vvg.bf(e, q, 0, a) * isum(dim, lambda j: cf(i, j) * (
            svg.bfg(e, q, j, c) if diff else g(e, q, j, 0)))
    check_out(W, out, nEl, nQP, (dim * nEPV, ncol), f, vvg.det)

@S.contract('dw_v_dot_grad_s_sw', grid(dim=[2, 3], diff=[0, 1], cc=[1, 0], many=[1, 0], c1=[0, 1]))
def dw_v_dot_grad_s_sw(W, dim, diff, cc, many, c1):
    nEl, nQP, nEPS, nc = base(W, dim, many, c1)
    nEPV = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEPV)
    svg = W.mapping('svg', nEl, nQP, dim, nEPS)
    k = 1 if cc else dim
    coef = W.field('coef', nc, nQP, k, k)
    val = W.field('val', nEl, nQP, dim, 1)
    ncol = dim * nEPV if diff else 1
    out = W.field('out', nEl, 1, nEPS, ncol, out=True)
    W.eq('ret', W.call('dw_v_dot_grad_s_sw', out, coef, val, vvg, svg, diff), 0)
    def f(e, q, r, c):
        cf = lambda i, j: (coef(e, q, 0, 0) if i == j else 0) if cc else coef(e, q, i, j)
        if diff:
            i, a = divmod(c, nEPV)
            return vvg.bf(e, q, 0, a) * isum(dim, lambda j: cf(i, j) * svg.bfg(e, q, j, r))
        return isum(dim, lambda i: isum(dim, lambda j: val(e, q, i, 0) * cf(i, j) * svg.bfg(e, q, j, r)))
    check_out(W, out, nEl, nQP, (nEPS, ncol), f, vvg.det)


# ------------------------------------------------------------ basic
@S.contract('dq_state_in_qp', grid(nc=[1, 2, 3], off=[0, 5], many=[1, 0]))
def dq_state_in_qp(W, nc, off, many):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    nEP = 3
    bf = W.field('bf', 1, nQP, 1, nEP)
    conn = W.conn('conn', nEl, nEP, 6)
    st = W.state('state', nc, off)
    out = W.field('out', nEl, nQP, nc, 1, out=True)
    W.eq('ret', W.call('dq_state_in_qp', out, st, off, bf, conn, nEl, nEP), 0)
    e = W.index('e', nEl)
    q = W.index('q', nQP)
    for i in range(nc):
        W.eq('out[%d]' % i, out(e, q, i, 0), isum(
            nEP, lambda a: bf(e, q, 0, a) * st.at(conn.at(e, a), i)))

@S.contract('dq_grad', grid(dim=DIMS, nc=[1, 2, 3], off=[0, 4], many=[1, 0]))
def dq_grad(W, dim, nc, off, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    conn = W.conn('conn', nEl, nEP, 6)
    st = W.state('state', nc, off)
    out = W.field('out', nEl, nQP, dim, nc, out=True)
    W.eq('ret', W.call('dq_grad', out, st, off, vg, conn, nEl, nEP), 0)
    e = W.index('e', nEl)
    q = W.index('q', nQP)
    for d in range(dim):
        for i in range(nc):
            W.eq('out[%d,%d]' % (d, i), out(e, q, d, i), isum(
                nEP, lambda a: vg.bfg(e, q, d, a) * st.at(conn.at(e, a), i)))

@S.contract('dq_div_vector', grid(dim=DIMS, off=[0, 4], many=[1, 0]))
def dq_div_vector(W, dim, off, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    conn = W.conn('conn', nEl, nEP, 6)
    st = W.state('state', dim, off)
    out = W.field('out', nEl, nQP, 1, 1, out=True)
    W.eq('ret', W.call('dq_div_vector', out, st, off, vg, conn, nEl, nEP), 0)
    e = W.index('e', nEl)
    q = W.index('q', nQP)
    W.eq('out', out(e, q, 0, 0), isum(dim, lambda i: isum(
        nEP, lambda a: vg.bfg(e, q, i, a) * st.at(conn.at(e, a), i))))

@S.contract('d_volume_surface', grid(dim=[2, 3], many=[1, 0]))
def d_volume_surface(W, dim, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    sg = W.mapping('sg', nEl, nQP, dim, nEP, surface=True)
    conn = W.conn('conn', nEl, nEP, 6)
    st = W.state('coor', dim)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_volume_surface', out, st, sg, conn, nEl, nEP), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: isum(dim, lambda i: isum(
        nEP, lambda a: sg.bf(e, q, 0, a) * st.at(conn.at(e, a), i)) * sg.normal(e, q, i, 0)),
        sg.det, scale=lambda e: W.frac(1, dim))

@S.contract('di_surface_moment', grid(dim=[2, 3], many=[1, 0]))
def di_surface_moment(W, dim, many):
    nEl, nQP, nEP, _ = base(W, dim, many, 0)
    sg = W.mapping('sg', nEl, nQP, dim, nEP, surface=True)
    conn = W.conn('conn', nEl, nEP, 6)
    st = W.state('coor', dim)
    out = W.field('out', nEl, 1, dim, dim, out=True)
    W.eq('ret', W.call('di_surface_moment', out, st, sg, conn, nEl, nEP), 0)
    check_out(W, out, nEl, nQP, (dim, dim), lambda e, q, r, c: sg.normal(e, q, r, 0) * isum(
        nEP, lambda a: sg.bf(e, q, 0, a) * st.at(conn.at(e, a), c)), sg.det)

# ------------------------------------------------------------ biot
@S.contract('dw_biot_grad', grid(dim=[2, 3], diff=[0, 1], sym=[1, 0], many=[1, 0], c1=[0, 1]))
def dw_biot_grad(W, dim, diff, sym, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nS = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEP)
    svg = W.mapping('svg', nEl, nQP, dim, nS)
    D = W.field('D', nc, nQP, NSYM[dim] if sym else dim * dim, 1)
    p = W.field('p', nEl, nQP, 1, 1)
    cf = W.real('coef')
    ncol = nS if diff else 1
    out = W.field('out', nEl, 1, dim * nEP, ncol, out=True)
    W.eq('ret', W.call('dw_biot_grad', out, cf, p, D, svg, vvg, diff), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        # alpha_ij grad_j v_i p; nonsymmetric storage D[j * dim + i]
        A = lambda j: D(e, q, full_index(dim, i, j) if sym else j * dim + i, 0)
        return isum(dim, lambda j: vvg.bfg(e, q, j, a) * A(j)) * (
            svg.bf(e, q, 0, c) if diff else p(e, q, 0, 0))
    check_out(W, out, nEl, nQP, (dim * nEP, ncol), f, vvg.det, scale=lambda e: cf)

@S.contract('dw_biot_div', grid(dim=[2, 3], diff=[0, 1], sym=[1, 0], many=[1, 0], c1=[0, 1]))
def dw_biot_div(W, dim, diff, sym, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    nS = 2
    vvg = W.mapping('vvg', nEl, nQP, dim, nEP)
    svg = W.mapping('svg', nEl, nQP, dim, nS)
    k = NSYM[dim] if sym else dim * dim
    D = W.field('D', nc, nQP, k, 1)
    strain = W.field('strain', nEl, nQP, k, 1)
    cf = W.real('coef')
    ncol = dim * nEP if diff else 1
    out = W.field('out', nEl, 1, nS, ncol, out=True)
    W.eq('ret', W.call('dw_biot_div', out, cf, strain, D, svg, vvg, diff), 0)
    def f(e, q, r, c):
        if diff:
            i, a = divmod(c, nEP)
            A = lambda j: D(e, q, full_index(dim, i, j) if sym else j * dim + i, 0)
            t = isum(dim, lambda j: vvg.bfg(e, q, j, a) * A(j))
        else:
            t = isum(k, lambda j: D(e, q, j, 0) * strain(e, q, j, 0))
        return svg.bf(e, q, 0, r) * t
    check_out(W, out, nEl, nQP, (nS, ncol), f, vvg.det, scale=lambda e: cf)

@S.contract('d_biot_div', grid(dim=[2, 3], many=[1, 0], c1=[0, 1]))
def d_biot_div(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    k = NSYM[dim]
    D = W.field('D', nc, nQP, k, 1)
    strain = W.field('strain', nEl, nQP, k, 1)
    p = W.field('p', nEl, nQP, 1, 1)
    cf = W.real('coef')
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_biot_div', out, cf, p, strain, D, vg), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: p(e, q, 0, 0) * isum(
        k, lambda j: D(e, q, j, 0) * strain(e, q, j, 0)), vg.det, scale=lambda e: cf)

# ------------------------------------------------- electric, piezo, forces
@S.contract('dw_electric_source', grid(dim=DIMS, many=[1, 0], c1=[0, 1]))
def dw_electric_source(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    coef = W.field('coef', nc, nQP, 1, 1)
    g = W.field('g', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, nEP, 1, out=True)
    W.eq('ret', W.call('dw_electric_source', out, g, coef, vg), 0)
    check_out(W, out, nEl, nQP, (nEP, 1), lambda e, q, r, c: coef(e, q, 0, 0)
              * vg.bf(e, q, 0, r) * isum(dim, lambda i: g(e, q, i, 0) ** 2), vg.det)

@S.contract('dw_piezo_coupling', grid(dim=[2, 3], mode=[0, 1, 2, 3], many=[1, 0], c1=[0, 1]))
def dw_piezo_coupling(W, dim, mode, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    nEPS = nEP + 1
    svg = W.mapping('svg', nEl, nQP, dim, nEPS)
    ns = NSYM[dim]
    G = W.field('G', nc, nQP, dim, ns)
    strain = W.field('strain', nEl, nQP, ns, 1)
    g = W.field('g', nEl, nQP, dim, 1)
    nU = dim * nEP
    shape = [(nU, 1), (nU, nEPS), (nEPS, 1), (nEPS, nU)][mode]
    out = W.field('out', nEl, 1, shape[0], shape[1], out=True)
    W.eq('ret', W.call('dw_piezo_coupling', out, strain, g, G, vg, svg, mode), 0)
    def f(e, q, r, c):
        u = {0: r, 1: r, 3: c}.get(mode)
        s_ = {1: c, 2: r, 3: r}.get(mode)
        t = 0
        for i in range(dim):
            for k in range(ns):
                E = (strain(e, q, k, 0) if mode == 2
                     else B_sym(vg.bfg, e, q, dim, nEP, k, u))
                P = g(e, q, i, 0) if mode == 0 else svg.bfg(e, q, i, s_)
                t = t + P * G(e, q, i, k) * E
        return t
    check_out(W, out, nEl, nQP, shape, f, vg.det)

@S.contract('d_piezo_coupling', grid(dim=[2, 3], many=[1, 0], c1=[0, 1]))
def d_piezo_coupling(W, dim, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    ns = NSYM[dim]
    G = W.field('G', nc, nQP, dim, ns)
    strain = W.field('strain', nEl, nQP, ns, 1)
    g = W.field('g', nEl, nQP, dim, 1)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_piezo_coupling', out, strain, g, G, vg), 0)
    check_out(W, out, nEl, nQP, (1, 1), lambda e, q, r, c: isum(dim, lambda i: isum(
        ns, lambda k: g(e, q, i, 0) * G(e, q, i, k) * strain(e, q, k, 0))), vg.det)

@S.contract('dw_surface_ltr', grid(dim=[2, 3], kind=['none', 'pressure', 'vector', 'tensor'],
                                   many=[1, 0], c1=[0, 1]))
def dw_surface_ltr(W, dim, kind, many, c1):
    nEl, nQP, nEP, nc = base(W, dim, many, c1)
    sg = W.mapping('sg', nEl, nQP, dim, nEP, surface=True)
    k = dict(none=0, pressure=1, vector=dim, tensor=NSYM[dim])[kind]
    t = W.field('t', nc, nQP, k, 1)
    out = W.field('out', nEl, 1, dim * nEP, 1, out=True)
    W.eq('ret', W.call('dw_surface_ltr', out, t, sg), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        n = lambda j: sg.normal(e, q, j, 0)
        v = dict(none=lambda: n(i), pressure=lambda: t(e, q, 0, 0) * n(i),
                 vector=lambda: t(e, q, i, 0),
                 tensor=lambda: isum(dim, lambda j: t(e, q, full_index(dim, i, j), 0) * n(j)))[kind]()
        return sg.bf(e, q, 0, a) * v
    check_out(W, out, nEl, nQP, (dim * nEP, 1), f, sg.det)

@S.contract('dw_volume_lvf', grid(dim=[1, 2, 3], nc=[1, 2, 3], many=[1, 0], c1=[0, 1]))
def dw_volume_lvf(W, dim, nc, many, c1):
    nEl, nQP, nEP, ncl = base(W, dim, many, c1)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    fq = W.field('f', ncl, nQP, nc, 1)
    out = W.field('out', nEl, 1, nc * nEP, 1, out=True)
    W.eq('ret', W.call('dw_volume_lvf', out, fq, vg), 0)
    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        return vg.bf(e, q, 0, a) * fq(e, q, i, 0)
    check_out(W, out, nEl, nQP, (nc * nEP, 1), f, vg.det)

# ------------------------------------------------------------ operators
@S.contract('mulAB_integrate', grid(mode=[0, 1, 2, 3], a1=[0, 1], b1=[0, 1], many=[1, 0]))
def mulAB_integrate(W, mode, a1, b1, many):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    vg = W.mapping('vg', nEl, nQP, 2, 2)
    r, k, c = 2, 3, 2
    A = W.field('A', 1 if a1 else nEl, nQP, *((k, r) if mode in (0, 3) else (r, k)))
    B = W.field('B', 1 if b1 else nEl, nQP, *((c, k) if mode in (2, 3) else (k, c)))
    out = W.field('out', nEl, 1, r, c, out=True)
    W.eq('ret', W.call('mulAB_integrate', out, A, B, vg, mode), 0)
    def f(e, q, i, j):
        a = lambda m: A(e, q, m, i) if mode in (0, 3) else A(e, q, i, m)
        b = lambda m: B(e, q, j, m) if mode in (2, 3) else B(e, q, m, j)
        return isum(k, lambda m: a(m) * b(m))
    check_out(W, out, nEl, nQP, (r, c), f, vg.det)

@S.contract('actBfT', grid(dim=[1, 2, 3], nc=[1, 2], many=[1, 0]))
def actBfT(W, dim, nc, many):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    nEP = 3
    bf = W.field('bf', 1, nQP, 1, nEP)
    A = W.field('A', nEl, nQP, dim, nc)
    out = W.field('out', nEl, nQP, dim * nEP, nc, out=True)
    W.eq('ret', W.call('actBfT', out, bf, A), 0)
    e, q = W.index('e', nEl), W.index('q', nQP)
    for a in range(nEP):
        for i in range(dim):
            for c in range(nc):
                W.eq('out[%d,%d]' % (i * nEP + a, c), out(e, q, i * nEP + a, c),
                     bf(0, q, 0, a) * A(e, q, i, c))

@S.contract('sym2nonsym', grid(dim=[2, 3], tan=[0, 1], many=[1, 0]))
def sym2nonsym(W, dim, tan, many):
    nEl = nel_case(W, many)
    nQP = W.size('nQP', 1)
    ns = NSYM[dim]
    A = W.field('A', nEl, nQP, ns, ns if tan else 1)
    n = dim * dim
    out = W.field('out', nEl, nQP, n, n, out=True)
    W.eq('ret', W.call('sym2nonsym', out, A), 0)
    e, q = W.index('e', nEl), W.index('q', nQP)
    for r in range(n):
        for c in range(n):
            (i, j), (k, l) = divmod(r, dim), divmod(c, dim)
            if tan:
                W.eq('out[%d,%d]' % (r, c), out(e, q, r, c),
                     A(e, q, full_index(dim, i, j), full_index(dim, k, l)))
            elif i == k:
                W.eq('out[%d,%d]' % (r, c), out(e, q, r, c),
                     A(e, q, full_index(dim, j, l), 0))

both_bf(S)

if __name__ == '__main__':
    main(S)
