from engine.vc import Suite, main
from engine.kern import *

S = Suite('C05', 'hyperelastic kernels', files=TERM_FILES,
          assumptions=['det F > 0 in every quadrature point (log, det F^(-2/3))',
                       'inverse matrices are taken by contract: geme_invert3x3() is proved in C13'])

DIMS = [2, 3]
DIMS1 = [1, 2, 3]

def base(W, many):
    return nel_case(W, many), W.size('nQP', 1)

def third(W):
    return W.frac(1, 3)

def dlt(i, j):
    return 1 if i == j else 0

class Law:
    """Material law data in one quadrature point: images (A, C, CI) of
    (unit, C, C^-1): TL: (1, C, C^-1), UL: (b, b^2, 1)."""
    def __init__(self, W, dim, A, C, CI, J, tr, I2, m):
        self.dim, self.A, self.C, self.CI = dim, A, C, CI
        self.J, self.tr, self.I2, self.m = J, tr, I2, m
        self.t = third(W)
        self.p = W.root3inv2(J) if J is not None else None

    # stress components and the derivative of each scalar/tensor w.r.t. C,
    # multiplied by 2 (tangent = 2 dS/dC), in the direction kl
    def stress(self, law, i, j):
        A, C, CI, J, tr, I2, m, p, t = (self.A, self.C, self.CI, self.J,
                                        self.tr, self.I2, self.m, self.p, self.t)
        if law == 'neohook':
            return m * p * (A(i, j) - t * tr * CI(i, j))
        if law == 'mooney_rivlin':
            return m * p * p * (tr * A(i, j) - C(i, j) - 2 * t * I2 * CI(i, j))
        if law == 'bulk':
            return m * J * (J - 1) * CI(i, j)
        if law == 'bulk_active':
            return m * J * CI(i, j)
        if law == 'pressure':
            return -m * J * CI(i, j)

    def tan(self, law, i, j, k, l):
        A, C, CI, J, tr, I2, m, p, t = (self.A, self.C, self.CI, self.J,
                                        self.tr, self.I2, self.m, self.p, self.t)
        # 2 d()/dC_kl of the ingredients
        dJ = lambda: J * CI(k, l)
        dp = lambda: -2 * t * p * CI(k, l)
        dtr = lambda: 2 * A(k, l)
        dI2 = lambda: 2 * (tr * A(k, l) - C(k, l))
        dCI = lambda: -(CI(i, k) * CI(j, l) + CI(i, l) * CI(j, k))
        dC = lambda: A(i, k) * A(j, l) + A(i, l) * A(j, k)
        if law == 'neohook':
            s = A(i, j) - t * tr * CI(i, j)
            return m * (dp() * s - p * t * (dtr() * CI(i, j) + tr * dCI()))
        if law == 'mooney_rivlin':
            s = tr * A(i, j) - C(i, j) - 2 * t * I2 * CI(i, j)
            ds = (dtr() * A(i, j) - dC()
                  - 2 * t * (dI2() * CI(i, j) + I2 * dCI()))
            return m * (2 * p * dp() * s + p * p * ds)
        if law == 'bulk':
            return m * ((2 * J - 1) * dJ() * CI(i, j) + J * (J - 1) * dCI())
        if law == 'bulk_active':
            return m * (dJ() * CI(i, j) + J * dCI())
        if law == 'pressure':
            return -m * (dJ() * CI(i, j) + J * dCI())

def law_setup(W, dim, many, c1, ul, law, need):
    nEl, nQP = base(W, many)
    sym = NSYM[dim]
    nc = 1 if c1 else nEl
    F = {}
    F['mat'] = W.field('mat', nc if law != 'pressure' else nEl, nQP, 1, 1)
    F['J'] = W.field('J', nEl, nQP, 1, 1, pos=True)
    for n, sh in (('tr', 1), ('I2', 1), ('vecC', sym), ('vecCI', sym)):
        if n in need:
            F[n] = W.field(n, nEl, nQP, sh, 1)

    def at(e, q):
        v = lambda n: lambda i, j: F[n](e, q, full_index(dim, i, j), 0)
        d = lambda i, j: dlt(i, j)
        if ul:
            A = v('vecC') if 'vecC' in need else None
            def C(i, j):
                return isum(dim, lambda k: A(i, k) * A(k, j))
            CI = d
        else:
            A, C, CI = d, (v('vecC') if 'vecC' in need else None), \
                (v('vecCI') if 'vecCI' in need else None)
        g = lambda n: F[n](e, q, 0, 0) if n in need else None
        return Law(W, dim, A, C, CI, F['J'](e, q, 0, 0), g('tr'), g('I2'),
                   F['mat'](e, q, 0, 0))
    return nEl, nQP, F, at

LAWS = [
    # law, formulation, extra inputs (C name order), argument order
    ('neohook', 0, ('tr', 'vecCI')), ('neohook', 1, ('tr', 'vecC')),
    ('mooney_rivlin', 0, ('tr', 'vecCI', 'vecC', 'I2')),
    ('mooney_rivlin', 1, ('tr', 'vecC', 'I2')),
    ('bulk', 0, ('vecCI',)), ('bulk', 1, ()),
    ('bulk_active', 0, ('vecCI',)),
    ('pressure', 0, ('vecCI',)), ('pressure', 1, ()),
]
STRESS = {('pressure', 0): 'dq_tl_stress_bulk_pressure', ('pressure', 1): 'dq_ul_stress_bulk_pressure'}
TAN = {('pressure', 0): 'dq_tl_tan_mod_bulk_pressure_u', ('pressure', 1): 'dq_ul_tan_mod_bulk_pressure_u'}

for _law, _ul, _need in LAWS:
    _n1 = STRESS.get((_law, _ul), 'dq_%s_he_stress_%s' % ('ul' if _ul else 'tl', _law))
    _n2 = TAN.get((_law, _ul), 'dq_%s_he_tan_mod_%s' % ('ul' if _ul else 'tl', _law))
    _c1 = [0] if _law == 'pressure' else [0, 1]
    _dims = DIMS1 if _law not in ('mooney_rivlin',) else DIMS

    def mk(law, ul, need, n1, n2):
        @S.contract(n1, grid(dim=_dims, many=[1, 0], c1=_c1))
        def stress(W, dim, many, c1):
            nEl, nQP, F, at = law_setup(W, dim, many, c1, ul, law, need)
            sym = NSYM[dim]
            out = W.field('out', nEl, nQP, sym, 1, out=True)
            args = [F['mat'], F['J']] + [F[n] for n in need]
            W.eq('ret', W.call(n1, out, *args), 0)
            el, q = W.index('el', nEl), W.index('q', nQP)
            L = at(el, q)
            for r, (i, j) in enumerate(SYM[dim]):
                W.eq('S[%d]' % r, out(el, q, r, 0), L.stress(law, i, j))

        @S.contract(n2, grid(dim=_dims, many=[1, 0], c1=_c1))
        def tan(W, dim, many, c1):
            nEl, nQP, F, at = law_setup(W, dim, many, c1, ul, law, need)
            sym = NSYM[dim]
            out = W.field('out', nEl, nQP, sym, sym, out=True)
            args = [F['mat'], F['J']] + [F[n] for n in need]
            W.eq('ret', W.call(n2, out, *args), 0)
            el, q = W.index('el', nEl), W.index('q', nQP)
            L = at(el, q)
            for r, (i, j) in enumerate(SYM[dim]):
                for c, (k, l) in enumerate(SYM[dim]):
                    W.eq('D[%d,%d]' % (r, c), out(el, q, r, c), L.tan(law, i, j, k, l))
    mk(_law, _ul, _need, _n1, _n2)

# ------------------------------------------------------------ kinematics
EPS = {1: 2, 2: 3, 3: 2}

def F_at(W, dim, nEP, state, conn, bfg, conn_el=None):
    def F(e, q, i, j):
        ce = conn_el(e) if conn_el is not None else e
        return dlt(i, j) + isum(nEP, lambda a: state.at(conn.at(ce, a), i) * bfg(e, q, j, a))
    return F

def det(dim, F):
    if dim == 1:
        return F(0, 0)
    if dim == 2:
        return F(0, 0) * F(1, 1) - F(0, 1) * F(1, 0)
    return (F(0, 0) * (F(1, 1) * F(2, 2) - F(1, 2) * F(2, 1))
            - F(0, 1) * (F(1, 0) * F(2, 2) - F(1, 2) * F(2, 0))
            + F(0, 2) * (F(1, 0) * F(2, 1) - F(1, 1) * F(2, 0)))

def strain(W, dim, many, off, ul):
    nEl, nQP = base(W, many)
    nEP = EPS[dim]
    sym = NSYM[dim]
    W.stub_inverse()
    nNod = W.size('nNod', 2)
    state = W.state('u', dim, off)
    conn = W.conn('conn', nEl, nEP, nNod)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    o = {}
    for n, r, c in (('F', dim, dim), ('J', 1, 1), ('C', sym, 1), ('tr', 1, 1),
                    ('I2', 1, 1), ('CI', sym, 1), ('E', sym, 1)):
        o[n] = W.field(n, nEl, nQP, r, c, out=True)
    if ul:
        W.eq('ret', W.call('dq_finite_strain_ul', o['F'], o['J'], o['C'], o['tr'], o['I2'],
                           o['E'], state, off, vg, conn, nEl, nEP), 0)
    else:
        W.eq('ret', W.call('dq_finite_strain_tl', o['F'], o['J'], o['C'], o['tr'], o['I2'],
                           o['CI'], o['E'], state, off, vg, conn, nEl, nEP), 0)
    el, q = W.index('el', nEl), W.index('q', nQP)
    F0 = F_at(W, dim, nEP, state, conn, vg.bfg)
    F = lambda i, j: F0(el, q, i, j)
    for i in range(dim):
        for j in range(dim):
            W.eq('F[%d,%d]' % (i, j), o['F'](el, q, i, j), F(i, j))
    W.eq('J', o['J'](el, q, 0, 0), det(dim, F))
    C = [[isum(dim, lambda k: (F(i, k) * F(j, k) if ul else F(k, i) * F(k, j)))
          for j in range(dim)] for i in range(dim)]
    for r, (i, j) in enumerate(SYM[dim]):
        W.eq('C[%d]' % r, o['C'](el, q, r, 0), C[i][j])
        g = isum(dim, lambda k: F(k, i) * F(k, j)) - dlt(i, j)
        W.eq('E[%d]' % r, o['E'](el, q, r, 0), W.frac(1, 2) * g)
    # invariants of the (plane strain) 3x3 tensor
    if dim > 1:
        X = lambda i, j: C[i][j] if i < dim and j < dim else dlt(i, j)
        W.eq('tr', o['tr'](el, q, 0, 0), isum(3, lambda i: X(i, i)))
        W.eq('I2', o['I2'](el, q, 0, 0),
             X(0, 0) * X(1, 1) + X(0, 0) * X(2, 2) + X(1, 1) * X(2, 2)
             - X(0, 1) * X(0, 1) - X(0, 2) * X(0, 2) - X(1, 2) * X(1, 2))
    if not ul:
        flat = [C[i][j] for i in range(dim) for j in range(dim)]
        for r, (i, j) in enumerate(SYM[dim]):
            W.eq('CI[%d]' % r, o['CI'](el, q, r, 0), W.minv(flat, dim, i, j))

@S.contract('dq_finite_strain_tl', grid(dim=DIMS1, many=[1, 0], off=[0, 2]))
def strain_tl(W, dim, many, off):
    strain(W, dim, many, off, 0)

@S.contract('dq_finite_strain_ul', grid(dim=DIMS1, many=[1, 0], off=[0, 2]))
def strain_ul(W, dim, many, off):
    strain(W, dim, many, off, 1)

@S.contract('dq_def_grad', grid(dim=DIMS1, many=[1, 0], mode=[0, 1]))
def dq_def_grad(W, dim, many, mode):
    nEl, nQP = base(W, many)
    nEP = EPS[dim]
    nNod = W.size('nNod', 2)
    state = W.state('u', dim, 0)
    conn = W.conn('conn', nEl, nEP, nNod)
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    sh = (1, 1) if mode else (dim, dim)
    out = W.field('out', nEl, nQP, sh[0], sh[1], out=True)
    W.eq('ret', W.call('dq_def_grad', out, state, vg, conn, nEl, nEP, mode), 0)
    el, q = W.index('el', nEl), W.index('q', nQP)
    F0 = F_at(W, dim, nEP, state, conn, vg.bfg)
    F = lambda i, j: F0(el, q, i, j)
    if mode:
        W.eq('J', out(el, q, 0, 0), det(dim, F))
    else:
        for i in range(dim):
            for j in range(dim):
                W.eq('F[%d,%d]' % (i, j), out(el, q, i, j), F(i, j))

@S.contract('dq_tl_finite_strain_surface', grid(dim=DIMS, many=[1, 0], off=[0, 2]))
def strain_surface(W, dim, many, off):
    nFa, nQP = base(W, many)
    nEl = W.size('nCells', 2)
    nEP = EPS[dim]
    W.stub_inverse()
    nNod = W.size('nNod', 2)
    state = W.state('u', dim, off)
    conn = W.conn('conn', nEl, nEP, nNod)
    fis = W.conn('fis', nFa, 2, nEl)
    sg = W.mapping('sg', nFa, nQP, dim, nEP, surface=True)
    o = {}
    for n, r, c in (('F', dim, dim), ('J', 1, 1), ('FI', dim, dim)):
        o[n] = W.field(n, nFa, nQP, r, c, out=True)
    W.eq('ret', W.call('dq_tl_finite_strain_surface', o['F'], o['J'], o['FI'], state, off, sg,
                       fis, nFa, 2, conn, nEl, nEP), 0)
    el, q = W.index('el', nFa), W.index('q', nQP)
    F0 = F_at(W, dim, nEP, state, conn, sg.bfg, lambda e: fis.at(e, 0))
    F = lambda i, j: F0(el, q, i, j)
    flat = [F(i, j) for i in range(dim) for j in range(dim)]
    W.eq('J', o['J'](el, q, 0, 0), det(dim, F))
    for i in range(dim):
        for j in range(dim):
            W.eq('F[%d,%d]' % (i, j), o['F'](el, q, i, j), F(i, j))
            W.eq('FI[%d,%d]' % (i, j), o['FI'](el, q, i, j), W.minv(flat, dim, i, j))

# ------------------------------------------------------------ weak forms
def B_tl(dim, nEP, F, bfg, e, q, row, col):
    """dE_ij / du_(comp,a) in symmetric storage (engineering shear)."""
    i, j = SYM[dim][row]
    comp, a = divmod(col, nEP)
    if i == j:
        return F(e, q, comp, i) * bfg(e, q, i, a)
    return F(e, q, comp, i) * bfg(e, q, j, a) + F(e, q, comp, j) * bfg(e, q, i, a)

@S.contract('dw_he_rtm', grid(dim=DIMS1, diff=[0, 1], ul=[0, 1], many=[1, 0]))
def dw_he_rtm(W, dim, diff, ul, many):
    nEl, nQP = base(W, many)
    nEP, sym = EPS[dim], NSYM[dim]
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    stress = W.field('stress', nEl, nQP, sym, 1)
    D = W.field('D', nEl, nQP, sym, sym)
    F = W.field('F', nEl, nQP, dim, dim)
    J = W.field('J', nEl, nQP, 1, 1, pos=True)
    nr = dim * nEP
    out = W.field('out', nEl, 1, nr, nr if diff else 1, out=True)
    W.eq('ret', W.call('dw_he_rtm', out, stress, D, F, J, vg, diff, ul), 0)
    G = vg.bfg
    if ul:
        B = lambda e, q, s, r: B_sym(G, e, q, dim, nEP, s, r)
        dt = lambda e, q, r, c: vg.det(e, q, r, c) / J(e, q, 0, 0)
    else:
        B = lambda e, q, s, r: B_tl(dim, nEP, F, G, e, q, s, r)
        dt = vg.det

    def f(e, q, r, c):
        if not diff:
            return isum(sym, lambda s: B(e, q, s, r) * stress(e, q, s, 0))
        v = isum(sym, lambda s: isum(sym, lambda t: B(e, q, s, r) * D(e, q, s, t) * B(e, q, t, c)))
        i, a = divmod(r, nEP)
        k, b = divmod(c, nEP)
        if i == k:
            v = v + isum(dim, lambda m: isum(dim, lambda n: G(e, q, m, a) * G(e, q, n, b)
                                             * stress(e, q, full_index(dim, m, n), 0)))
        return v
    check_out(W, out, nEl, nQP, (nr, nr if diff else 1), f, dt)

@S.contract('de_he_rtm', grid(dim=DIMS1, ul=[0, 1], many=[1, 0]))
def de_he_rtm(W, dim, ul, many):
    nEl, nQP = base(W, many)
    sym = NSYM[dim]
    nEA = W.size('nCells', 2)
    vg = W.mapping('vg', nEA, nQP, dim, 2)
    stress = W.field('stress', nEA, nQP, sym, 1)
    J = W.field('J', nEA, nQP, 1, 1, pos=True)
    el = W.conn('els', nEl, 1, nEA)
    out = W.field('out', nEl, 1, sym, 1, out=True)
    W.eq('ret', W.call('de_he_rtm', out, stress, J, vg, el, nEl, ul), 0)
    e = W.index('el', nEl)
    c = el.at(e, 0)
    for r in range(sym):
        W.eq('out[%d]' % r, out(e, 0, r, 0), W.sum(nQP, lambda q: stress(c, q, r, 0) * (
            vg.det(c, q, 0, 0) / J(c, q, 0, 0) if ul else vg.det(c, q, 0, 0))))

@S.contract('dw_tl_volume', grid(dim=DIMS, mode=[0, 1, -1, 2, 3], tr=[0, 1], many=[1, 0]))
def dw_tl_volume(W, dim, mode, tr, many):
    nEl, nQP = base(W, many)
    nEP, sym = EPS[dim], NSYM[dim]
    nP = 2
    vgv = W.mapping('vgv', nEl, nQP, dim, nEP)
    vgs = W.mapping('vgs', nEl, nQP, dim, nP)
    F = W.field('F', nEl, nQP, dim, dim)
    CI = W.field('CI', nEl, nQP, sym, 1)
    J = W.field('J', nEl, nQP, 1, 1, pos=True)
    nr = dim * nEP
    if mode == 0:
        sh = (nP, 1)
        f = lambda e, q, r, c: vgs.bf(e, q, 0, r) * J(e, q, 0, 0)
    elif mode in (1, -1):
        sh = (nr, nP) if tr else (nP, nr)
        # dJ = J C^-1 : dE
        def f(e, q, r, c):
            if tr:
                r, c = c, r
            return (mode * vgs.bf(e, q, 0, r) * J(e, q, 0, 0) * isum(sym, lambda s:
                    CI(e, q, s, 0) * B_tl(dim, nEP, F, vgv.bfg, e, q, s, c)))
    else:
        sh = (1, 1)
        f = lambda e, q, r, c: J(e, q, 0, 0)
    out = W.field('out', nEl, 1, sh[0], sh[1], out=True)
    W.eq('ret', W.call('dw_tl_volume', out, F, CI, J, vgs, vgv, tr, mode), 0)
    check_out(W, out, nEl, nQP, sh, f, vgv.det,
              scale=(lambda e: 1 / vgv.volume(e, 0, 0, 0)) if mode == 3 else None)

@S.contract('dw_ul_volume', grid(dim=DIMS, mode=[0, 1, -1, 2, 3], tr=[0, 1], many=[1, 0]))
def dw_ul_volume(W, dim, mode, tr, many):
    nEl, nQP = base(W, many)
    nEP = EPS[dim]
    nP = 2
    vgv = W.mapping('vgv', nEl, nQP, dim, nEP)
    vgs = W.mapping('vgs', nEl, nQP, dim, nP)
    J = W.field('J', nEl, nQP, 1, 1, pos=True)
    nr = dim * nEP
    if mode == 0:
        sh = (nP, 1)
        f = lambda e, q, r, c: vgs.bf(e, q, 0, r) * (1 - 1 / J(e, q, 0, 0))
    elif mode in (1, -1):
        sh = (nr, nP) if tr else (nP, nr)
        def f(e, q, r, c):
            if tr:
                r, c = c, r
            i, a = divmod(c, nEP)
            return mode * vgs.bf(e, q, 0, r) * vgv.bfg(e, q, i, a)
    else:
        sh = (1, 1)
        f = lambda e, q, r, c: J(e, q, 0, 0)
    out = W.field('out', nEl, 1, sh[0], sh[1], out=True)
    W.eq('ret', W.call('dw_ul_volume', out, J, vgs, vgv, tr, mode), 0)
    check_out(W, out, nEl, nQP, sh, f, vgv.det,
              scale=(lambda e: 1 / vgv.volume(e, 0, 0, 0)) if mode == 3 else None)

def porosity_coef(W, J, N):
    """max(0, 1 + (J - 1) / N)^2"""
    v = 1 + (J - 1) / N
    return W.pospart(v) * v

@S.contract('dw_tl_diffusion', grid(dim=DIMS, mode=[0, 1, 2], c1=[0, 1], c2=[0, 1], many=[1, 0]))
def dw_tl_diffusion(W, dim, mode, c1, c2, many):
    nEl, nQP = base(W, many)
    nEP = EPS[dim]
    nc = 1 if c1 else nEl
    W.stub_inverse()
    vg = W.mapping('vg', nEl, nQP, dim, nEP)
    gp = W.field('gp', nEl, nQP, dim, 1)
    D = W.field('D', nc, nQP, dim, dim)
    N = W.field('N', 1 if c2 else nEl, nQP, 1, 1, pos=True)
    F = W.field('F', nEl, nQP, dim, dim)
    J = W.field('J', nEl, nQP, 1, 1, pos=True)
    sh = [(nEP, 1), (nEP, nEP), (dim, 1)][mode]
    out = W.field('out', nEl, 1, sh[0], sh[1], out=True)
    W.eq('ret', W.call('dw_tl_diffusion', out, gp, D, N, F, J, vg, mode), 0)
    G = vg.bfg
    el = W.index('el', nEl)

    def parts(e, q):
        flat = [F(e, q, i, j) for i in range(dim) for j in range(dim)]
        return (porosity_coef(W, J(e, q, 0, 0), N(e, q, 0, 0)),
                lambda i, j: W.minv(flat, dim, i, j))

    def f(e, q, r, c):
        k, FI = parts(e, q)
        if mode == 2:
            return -k * isum(dim, lambda j: isum(dim, lambda l:
                   D(e, q, r, j) * FI(l, j) * gp(e, q, l, 0)))
        # F^-1 D F^-T
        K = lambda a, b: isum(dim, lambda i: isum(dim, lambda j: FI(a, i) * D(e, q, i, j) * FI(b, j)))
        rhs = lambda b: G(e, q, b, c) if mode == 1 else gp(e, q, b, 0)
        return k * J(e, q, 0, 0) * isum(dim, lambda a: isum(dim, lambda b: G(e, q, a, r) * K(a, b) * rhs(b)))
    check_out(W, out, nEl, nQP, sh, f, vg.det, el=el,
              scale=(lambda e: 1 / vg.volume(e, 0, 0, 0)) if mode == 2 else None)

@S.contract('d_tl_surface_flux', grid(dim=DIMS, mode=[0, 1], c1=[0, 1], c2=[0, 1], many=[1, 0]))
def d_tl_surface_flux(W, dim, mode, c1, c2, many):
    nEl, nQP = base(W, many)
    nc = 1 if c1 else nEl
    sg = W.mapping('sg', nEl, nQP, dim, 2, surface=True)
    gp = W.field('gp', nEl, nQP, dim, 1)
    D = W.field('D', nc, nQP, dim, dim)
    N = W.field('N', 1 if c2 else nEl, nQP, 1, 1, pos=True)
    FI = W.field('FI', nEl, nQP, dim, dim)
    J = W.field('J', nEl, nQP, 1, 1, pos=True)
    out = W.field('out', nEl, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_tl_surface_flux', out, gp, D, N, FI, J, sg, mode), 0)

    def f(e, q, r, c):
        K = lambda a, b: isum(dim, lambda i: isum(dim, lambda j: FI(e, q, a, i) * D(e, q, i, j) * FI(e, q, b, j)))
        return (porosity_coef(W, J(e, q, 0, 0), N(e, q, 0, 0)) * J(e, q, 0, 0)
                * isum(dim, lambda a: isum(dim, lambda b: sg.normal(e, q, a, 0) * K(a, b) * gp(e, q, b, 0))))
    check_out(W, out, nEl, nQP, (1, 1), f, sg.det,
              scale=(lambda e: 1 / sg.volume(e, 0, 0, 0)) if mode == 1 else None)

@S.contract('dw_tl_surface_traction', grid(dim=DIMS, mode=[0, 1], c1=[0, 1], many=[1, 0]))
def dw_tl_surface_traction(W, dim, mode, c1, many):
    nFa, nQP = base(W, many)
    nEP = EPS[dim]
    nc = 1 if c1 else nFa
    sg = W.mapping('sg', nFa, nQP, dim, nEP, surface=True)
    T = W.field('T', nc, nQP, dim, dim)
    FI = W.field('FI', nFa, nQP, dim, dim)
    J = W.field('J', nFa, nQP, 1, 1, pos=True)
    nF = W.size('nFaces', 2)
    bf = W.field('bfs', nF, nQP, 1, nEP)
    fis = W.conn('fis', nFa, 2, nF)
    nr = dim * nEP
    out = W.field('out', nFa, 1, nr, nr if mode else 1, out=True)
    W.eq('ret', W.call('dw_tl_surface_traction', out, T, J, FI, bf, sg, fis, nFa, 2, mode), 0)
    G = sg.bfg
    n2 = lambda e, q, i: isum(dim, lambda k: FI(e, q, k, i) * sg.normal(e, q, k, 0))
    g2 = lambda e, q, i, b: isum(dim, lambda k: FI(e, q, k, i) * G(e, q, k, b))

    def f(e, q, r, c):
        i, a = divmod(r, nEP)
        N = bf(fis.at(e, 1), q, 0, a)
        if mode == 0:
            # N_a sigma^T J F^-T n
            return N * J(e, q, 0, 0) * isum(dim, lambda k: T(e, q, k, i) * n2(e, q, k))
        # d(J F^-T n)_m = J (n2_m div u - (grad u)^T n2)_m
        k, b = divmod(c, nEP)
        return N * J(e, q, 0, 0) * isum(dim, lambda m: T(e, q, m, i) * (
            n2(e, q, m) * g2(e, q, k, b) - n2(e, q, k) * g2(e, q, m, b)))
    check_out(W, out, nFa, nQP, (nr, nr if mode else 1), f, sg.det)

@S.contract('d_tl_volume_surface', grid(dim=DIMS, many=[1, 0]))
def d_tl_volume_surface(W, dim, many):
    nFa, nQP = base(W, many)
    nFP = 2
    sg = W.mapping('sg', nFa, nQP, dim, 3, surface=True, nbf=nFP)
    FI = W.field('FI', nFa, nQP, dim, dim)
    J = W.field('J', nFa, nQP, 1, 1, pos=True)
    bf = W.field('bfs', 1, nQP, 1, nFP)
    nNod = W.size('nNod', 2)
    coors = W.state('x', dim, 0)
    conn = W.conn('conn', nFa, nFP, nNod)
    out = W.field('out', nFa, 1, 1, 1, out=True)
    W.eq('ret', W.call('d_tl_volume_surface', out, coors, J, FI, bf, sg, conn, nFa, nFP), 0)

    def f(e, q, r, c):
        x = lambda i: isum(nFP, lambda a: sg.bf(e, q, 0, a) * coors.at(conn.at(e, a), i))
        n2 = lambda i: isum(dim, lambda k: FI(e, q, k, i) * sg.normal(e, q, k, 0))
        return W.frac(1, dim) * J(e, q, 0, 0) * isum(dim, lambda i: x(i) * n2(i))
    check_out(W, out, nFa, nQP, (1, 1), f, sg.det)

both_bf(S)

if __name__ == '__main__':
    main(S)
