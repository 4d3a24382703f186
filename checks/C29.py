"""Hyperelastic terms: residuals from the documented stresses, exact tangents."""
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from checks import felib, termlib as tl
from checks.termlib import arr, zeros, SYM, Dual, Q

MT, MB, MU = 'sfepy.terms.terms_hyperelastic_tl', 'sfepy.terms.terms_hyperelastic_base', 'sfepy.terms.terms_hyperelastic_ul'
S = Suite('C29', 'hyperelastic terms', assumptions=[
    'det F > 0 in the quadrature points, unless stated otherwise',
    'the deformation data of the kernels dq_finite_strain_*() are taken by their contracts (C05): independent symbols '
    'F, J, C, tr C, I2, C^-1, E whose derivatives follow from dF',
    'the mapping data and bases the weak forms are written with are those of the fields (their correctness: C06, C12)',
    'small meshes with rational coordinates (1 or 2 cells)',
    'the principal stretches and directions (numpy.linalg.eigh) are taken by contract'], conc=1)
felib.use(S, 'sfepy.terms', 'sfepy.terms.extmods.terms', MT, MB, MU, 'sfepy.terms.terms_fibres')

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

def one(W, gel):
    """A rule with one quadrature point."""
    c, w = tl.qp(W, gel)
    return W.mod('sfepy.discrete').Integral('i', coors=c[:1], weights=w[:1], order='custom')

def root(W, x, k):
    """x ** (k / 3)"""
    if x.__class__ is Dual:
        r = root(W, x.a, k)
        return Dual(r, W.frac(k, 3) * r / x.a * x.b)
    return x ** Fraction(k, 3) if W.symbolic else x ** (k / 3)

def lin(*terms):
    """The sum of scalar * matrix."""
    A = terms[0][1]
    r = zeros(*A.shape)
    for x, A in terms:
        for ix in np.ndindex(*A.shape):
            r[ix] = r[ix] + A[ix] * x
    return r

def mul(*ms):
    a = ms[0]
    for b in ms[1:]:
        r = zeros(len(a), b.shape[1])
        for i, j in np.ndindex(*r.shape):
            r[i, j] = sum(a[i, k] * b[k, j] for k in range(len(b)))
        a = r
    return a

def full(m, dim):
    r = zeros(dim, dim)
    for k, (i, j) in enumerate(SYM[dim]):
        r[i, j] = r[j, i] = m[k]
    return r

def dd(a, b):
    return sum(x * y for x, y in zip(a.ravel(), b.ravel()))

def duals(a, b):
    r = zeros(*a.shape)
    for ix in np.ndindex(*a.shape):
        r[ix] = Dual(a[ix], b[ix])
    return r

def dmap(f, a):
    r = zeros(*a.shape)
    for ix in np.ndindex(*a.shape):
        r[ix] = f(a[ix])
    return r

class Family:
    """The contracts of dq_finite_strain_tl(), dq_finite_strain_ul(),
    dq_tl_finite_strain_surface(): fresh data in each quadrature point."""
    TL = ('F', 'J', 'C', 'tr', 'I2', 'CI', 'E')
    UL = ('F', 'J', 'b', 'tr', 'I2', 'E')
    SU = ('F', 'J', 'FI')

    def __init__(self, W, kind='TL', neg=False):
        self.W, self.kind, self.calls, self.post = W, kind, [], None
        self.d = {}
        mod, cls = {'TL': (MT, 'HyperElasticTLFamilyData'), 'UL': (MU, 'HyperElasticULFamilyData'),
                    'SU': (MT, 'HyperElasticSurfaceTLFamilyData')}[kind]
        names = getattr(self, kind)

        def fun(*args):
            outs, ins = args[:len(names)], args[len(names):]
            k = len(self.calls)
            self.calls.append(ins)
            d = self.d = {}
            for n, o in zip(names, outs):
                d[n] = W.reals('%s%d' % (n, k), *o.shape, pos=n == 'J' and not neg)
                if n == 'J' and neg:
                    d[n] = W.array(-abs(d[n])) if not W.symbolic else -W.reals('J%d' % k, *o.shape, pos=True)
                o[...] = d[n]
            if self.post is not None:
                self.post(d)
            return 0
        W.stub(mod, cls + '.family_function', staticmethod(fun))

class Kin:
    """The deformation in a point and, given H = grad du, its derivatives."""
    def __init__(self, W, fam, c, q, H=None):
        d = {n: a[c, q] for n, a in fam.d.items()}
        self.dim = dim = d['F'].shape[0]
        self.W = W
        self.I = np.eye(dim, dtype=int).astype(object)
        F, J = d['F'], d['J'][0, 0]
        if fam.kind == 'TL':
            C, CI, t, I2 = full(d['C'][:, 0], dim), full(d['CI'][:, 0], dim), d['tr'][0, 0], d['I2'][0, 0]
            if H is not None:
                M = mul(H.T, F)
                dC = lin((1, M), (1, M.T))
                F = duals(F, H)
                J = Dual(J, J * dd(CI, dC) * W.frac(1, 2))
                dt = sum(dC[i, i] for i in range(dim))
                I2 = Dual(I2, t * dt - dd(C, dC))
                t = Dual(t, dt)
                CI = duals(CI, lin((-1, mul(CI, dC, CI))))
                C = duals(C, dC)
            self.F, self.J, self.C, self.CI, self.tr, self.I2 = F, J, C, CI, t, I2
        elif fam.kind == 'UL':        # H: the gradient in the current configuration
            b, t, I2 = full(d['b'][:, 0], dim), d['tr'][0, 0], d['I2'][0, 0]
            if H is not None:
                J = Dual(J, J * sum(H[i, i] for i in range(dim)))
                M = mul(H, b)
                db = lin((1, M), (1, M.T))
                dt = sum(db[i, i] for i in range(dim))
                I2 = Dual(I2, t * dt - dd(b, db))
                t = Dual(t, dt)
                b = duals(b, db)
            self.F, self.J, self.b, self.tr, self.I2 = F, J, b, t, I2
        else:
            FI = d['FI']
            if H is not None:
                K = mul(FI, H)
                J = Dual(J, J * sum(K[i, i] for i in range(dim)))
                FI = duals(FI, lin((-1, mul(K, FI))))
            self.F, self.J, self.FI = F, J, FI
        self.E = full(d['E'][:, 0], dim) if 'E' in d else None

def stress(W, law, k, m):
    """The second Piola-Kirchhoff stresses, as documented."""
    t = W.frac(1, 3)
    if law == 'neohook':
        p = root(W, k.J, -2) * m
        return lin((p, k.I), (-(p * t * k.tr), k.CI))
    if law == 'mooney_rivlin':
        p = root(W, k.J, -4) * m
        return lin((p * k.tr, k.I), (-p, k.C), (-(2 * t * p * k.I2), k.CI))
    if law == 'bulk_penalty':
        return lin(((k.J - 1) * k.J * m, k.CI))
    if law == 'bulk_active':
        return lin((k.J * m, k.CI))
    if law == 'bulk_pressure':
        return lin((-(k.J * m), k.CI))

def kirchhoff(W, law, k, m):
    """The Kirchhoff stresses, as documented."""
    t = W.frac(1, 3)
    if law == 'neohook':
        p = root(W, k.J, -2) * m
        return lin((p, k.b), (-(p * t * k.tr), k.I))
    if law == 'mooney_rivlin':
        p = root(W, k.J, -4) * m
        return lin((p * k.tr, k.b), (-p, mul(k.b, k.b)), (-(2 * t * p * k.I2), k.I))
    if law == 'bulk_penalty':
        return lin(((k.J - 1) * k.J * m, k.I))
    if law == 'bulk_pressure':
        return lin((-(k.J * m), k.I))

def H_of(u):
    """The direction of a derivative, if any."""
    g = u.g
    if g is not None and any(x.__class__ is Dual for x in g.ravel()):
        return dmap(tl.eps, g)

def vir(W, k, Sg, v):
    """S : delta E"""
    d = k.dim
    return sum(Sg[i, j] * sum(k.F[a, i] * v.g[a, j] + k.F[a, j] * v.g[a, i] for a in range(d)) * W.frac(1, 2)
               for i in range(d) for j in range(d))

def vir_ul(W, k, tau, v, H):
    """tau : e(v) / J dv, dv / J = the reference volume element"""
    G = v.g
    if H is not None:
        G = duals(G, lin((-1, mul(G, H))))
    J = tl.val(k.J)
    return dd(tau, G) * (1 / J)

GEL = {'tri1': '2_3', 'tri': '2_3', 'tet1': '3_4', 'quad1': '2_4', 'line': 1}
SH = {'material': '1, 1', 'virtual': ('D', 'state'), 'state': 'D'}
AT = ('material', 'virtual', 'state')
LAWS = [('neohook', 'he_neohook'), ('mooney_rivlin', 'he_mooney_rivlin'), ('bulk_penalty', 'bulk_penalty'),
        ('bulk_active', 'bulk_active')]

def family_args(W, P, fam, at, n=1):
    """The deformation is evaluated once in each state: from its values, mapping and connectivity."""
    W.true('deformation evaluated', len(fam.calls) == n)
    var, f, nc, x, _ = P.vars[at]
    for a in fam.calls:
        g, econn, _, _ = P.ref[at]
        vec, vg, conn = a[0], a[1], a[-1]
        W.eqs('state', vec, x)
        W.true('connectivity', np.array_equal(np.asarray(conn), f.econn if fam.kind == 'SU' else econn))
        W.eqs('gradients', vg.bfg, g.bfg)
        if fam.kind == 'SU':
            sd = f.extra_data['sd_%s' % P.region.name]
            W.true('facets', np.array_equal(np.asarray(a[2]), sd.fis))

def check_he(W, P, fam, form, law_stress, at='state', mtx=True):
    """Weak mode, averages and values of strains and stresses."""
    tl.check_term(W, P, form, mtx=mtx)
    family_args(W, P, fam, at)
    check_ev(W, P, fam, law_stress)

def check_ev(W, P, fam, law_stress, modes=('el_avg', 'qp')):
    dim = P.dim
    for tm in ('strain', 'stress'):
        def form(c, *args):
            if tm == 'strain':
                return fam.d['E'][c.c, c.q]
            s = law_stress(c, args)
            return arr([s[i, j] for i, j in SYM[dim]])
        tl.check_term(W, P, form, modes=modes, weak=False, term_mode=tm)

def with_state(P, f):
    return lambda c, args: f(c, *args)

@contract('total Lagrangian', [dict(law=l, mesh=m) for l in range(4) for m in ('tri', 'tet1')]
          + [dict(law=l, mesh='quad1') for l in (0, 3)])
def tl_law(W, law, mesh):
    law, name = LAWS[law]
    fam = Family(W)
    P = tl.Problem(W, 'dw_tl_' + name, AT, SH, mesh=mesh)
    def form(c, m, v, u):
        k = Kin(W, fam, c.c, c.q, H_of(u))
        return vir(W, k, stress(W, law, k, m), v)
    check_he(W, P, fam, form, lambda c, a: stress(W, law, Kin(W, fam, c.c, c.q), a[0]))

@contract('updated Lagrangian', [dict(law=l, mesh=m) for l in range(3) for m in ('tri', 'tet1')])
def ul_law(W, law, mesh):
    law, name = LAWS[law]
    fam = Family(W, 'UL')
    P = tl.Problem(W, 'dw_ul_' + name, AT, SH, mesh=mesh)
    def form(c, m, v, u):
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        return vir_ul(W, k, kirchhoff(W, law, k, m), v, H)
    check_he(W, P, fam, form, lambda c, a: kirchhoff(W, law, Kin(W, fam, c.c, c.q), a[0]))

@contract('new states', [dict(ul=u, law=l) for u in (0, 1) for l in (0, 2)])
def new_states(W, ul, law):
    """The matrix belongs to the current state and material whatever was evaluated before."""
    law, name = LAWS[law]
    fam = Family(W, 'UL' if ul else 'TL')
    P = tl.Problem(W, 'dw_%s_%s' % ('ul' if ul else 'tl', name), AT, SH, mesh='tri1')
    P.values()
    P.term.evaluate(mode='weak', ret_status=True)
    var, f, nc, x, n = P.vars['state']
    x2 = W.reals('w', f.n_nod * nc)
    var.set_data(x2)
    P.vars['state'] = (var, f, nc, x2, n)
    P.new_data('w')
    K, iels, st = P.term.evaluate(mode='weak', diff_var=var.name, ret_status=True)
    W.true('new deformation', len(fam.calls) == 2)
    W.eqs('state', fam.calls[-1][0], x2)
    P.values()
    def form(c, m, v, u):
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        return vir_ul(W, k, kirchhoff(W, law, k, m), v, H) if ul else vir(W, k, stress(W, law, k, m), v)
    P.expect_weak(form)
    W.eqs('matrix', K[:, 0], P.expect_matrix(form, 'state'))

@contract('warped', [dict(ul=u) for u in (0, 1)])
def warped(W, ul):
    """Negative volumes are refused."""
    law, name = LAWS[2]
    fam = Family(W, 'UL' if ul else 'TL', neg=True)
    P = tl.Problem(W, 'dw_%s_%s' % ('ul' if ul else 'tl', name), AT, SH, mesh='tri1')
    W.true('refused', W.raises(ValueError, lambda: P.term.evaluate(mode='weak', ret_status=True)))

@contract('saved mapping', [dict(ul=u) for u in (0, 1)])
def saved(W, ul):
    """The deformation is relative to the saved mapping, the updated Lagrangian weak form uses the current one."""
    law, name = LAWS[2]
    fam = Family(W, 'UL' if ul else 'TL')
    P = tl.Problem(W, 'dw_%s_%s' % ('ul' if ul else 'tl', name), AT, SH, mesh='tri1')
    P.values()
    ref = P.ref
    f = P.vars['state'][1]
    f.save_mappings()
    x = felib.coors(W, 'tri1', 2)
    W.mod('sfepy.discrete.fem.fields_base').set_mesh_coors(P.dom, {'f': f}, x, update_fields=True, clear_all=False)
    P.values()
    W.true('mapping changed', not np.array_equal(np.asarray(ref['state'][0].bfg, dtype=float),
                                                 np.asarray(P.ref['state'][0].bfg, dtype=float)))
    def form(c, m, v, u):
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        return vir_ul(W, k, kirchhoff(W, law, k, m), v, H) if ul else vir(W, k, stress(W, law, k, m), v)
    tl.check_term(W, P, form)
    W.eqs('gradients', fam.calls[0][1].bfg, ref['state'][0].bfg)

@contract('Saint Venant-Kirchhoff', [dict(mesh=m, shared=s) for s in (0, 1) for m in ('tet1', 'tet')])
def svk(W, shared, mesh):
    fam = Family(W)
    kw = {}
    if shared:
        D = W.reals('D', 6, 6)
        for i in range(6):
            for j in range(i):
                D[i, j] = D[j, i]
        kw['const'] = {'material': D}
    else:
        def symm(W, n, k, dims):
            a = W.reals(n, k, *dims)
            for i in range(dims[0]):
                for j in range(i):
                    a[:, i, j] = a[:, j, i]
            return a
        kw['matfun'] = {'material': symm}
    P = tl.Problem(W, 'dw_tl_he_svk', AT, dict(SH, material='S, S'), mesh=mesh,
                   intg=one(W, '3_4') if mesh == 'tet' else None, **kw)
    def strs(c, m, dC=None):
        E = fam.d['E'][c.c, c.q][:, 0]
        if dC is not None:
            E = arr([Dual(E[a], dC[i, j] * W.frac(1, 2)) for a, (i, j) in enumerate(SYM[3])])
        return full([sum(E[b] * m[a, b] * (1 if b < 3 else 2) for b in range(6)) for a in range(6)], 3)
    def form(c, m, v, u):
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        return vir(W, k, strs(c, m, None if H is None else dmap(tl.eps, k.C)), v)
    if shared:
        Dn = np.array(D, copy=True)
    for rep in range(2):
        tl.check_term(W, P, form, mtx=rep == 0)
    check_ev(W, P, fam, lambda c, a: strs(c, a[0]))
    if shared:
        W.eqs('material data kept', D, Dn)


# ------------------------------------------------ laws written in Python
def arr3(W, x):
    return W.array([[x]]) if W.symbolic else np.array([[x]], dtype=np.float64)

def tensor_data(W, dtr=None):
    """det F, tr C, C^-1 in one point, as the stress functions get them."""
    J = W.real('J', 0.5, 2, pos=True)
    CI = W.reals('CI', 6)
    return J, CI

IDX = SYM[3]

@contract('generalized Yeoh', [dict(exps=e, two=t) for e, t in (
    ((1, 2, 3), 0), ((2, 3, 4), 0), ((3, 1, 2), 0), ((1,), 1), ((3,), 1))])
def yeoh(W, exps, two):
    """With the reduced invariant above the one of the undeformed state."""
    cls = W.mod(MT).GenYeohTLTerm
    t = object.__new__(cls)
    h = W.frac(1, 3)
    J = W.real('J', 0.5, 2, pos=True)
    d = W.real('b', 0.5, 2, pos=True)           # the bracket I1 J^-2/3 - 3
    p = root(W, J, -2)
    I1 = (d + 3) / p
    CI = W.reals('CI', 6)
    K = W.reals('K', len(exps))
    nc = 2                                      # two cells sharing the parameters
    asa = lambda x, *sh: (W.array([x]).reshape(sh) if W.symbolic else np.array([x], dtype=np.float64).reshape(sh))
    tile = lambda x, n: np.tile(asa(x, 1, 1, 1, 1), (n, 1, 1, 1))
    det_f, tr_c = tile(J, nc), tile(I1, nc)
    inv_c = np.zeros((nc, 1, 6, 1), dtype=CI.dtype)
    inv_c[:, 0, :, 0] = CI
    m = np.zeros((1, 1, 1, 2 * len(exps)), dtype=CI.dtype)
    if two:
        m[0, 0, 0] = [K[0], exps[0]]
    else:
        m[0, 0, 0, :3] = K
        m[0, 0, 0, 3:] = exps
    out = W.np.zeros((nc, 1, 6, 1))
    t.stress_function(out, m.copy(), det_f, tr_c, inv_c)
    dW = sum(e * k * d ** (e - 1) for e, k in zip(exps, K))
    ddW = sum(e * (e - 1) * k * d ** (e - 2) for e, k in zip(exps, K) if e > 1)
    g = lambda i, j: int(i == j) - h * I1 * CI[tl.SYM[3].index((min(i, j), max(i, j)))]
    ci = lambda i, j: CI[tl.SYM[3].index((min(i, j), max(i, j)))]
    for c in range(nc):
        for a, (i, j) in enumerate(IDX):
            W.eq('stress %d %d' % (c, a), out[c, 0, a, 0], 2 * p * dW * g(i, j))
    out = W.np.zeros((nc, 1, 6, 6))
    t.tan_mod_function(out, m.copy(), det_f, tr_c, inv_c)
    for a, (i, j) in enumerate(IDX):
        for b, (k, l) in enumerate(IDX):
            # 2 dS/dC: d(p I1)/dC = p g, dp/dC = -p C^-1 / 3
            v = (2 * ddW * p * g(k, l) * p * g(i, j) * 2
                 + 2 * dW * (-h * p * ci(k, l)) * g(i, j) * 2
                 + 2 * p * dW * (-h) * (int(k == l) * ci(i, j)
                                        - I1 * W.frac(1, 2) * (ci(i, k) * ci(j, l) + ci(i, l) * ci(j, k))) * 2)
            for c in range(nc):
                W.eq('tangent %d %d %d' % (c, a, b), out[c, 0, a, b], v)

def pw(x, n):
    """Powers of dual numbers, also negative."""
    return x ** n if n >= 0 else 1 / x ** (-n)

@contract('Ogden', [dict(al=a, eq=e) for a in (2, 3, 4, -2) for e in (0, 1)])
def ogden(W, al, eq):
    """eq: two equal principal stretches."""
    cls = W.mod(MT).OgdenTLTerm
    L = [W.real('L%d' % k, 0.8, 1.2, pos=True) for k in range(3)]
    if eq:
        L[1] = L[0]
    # det F is a separate argument, its derivatives are those of the product of the stretches
    J = W.real('J', 0.5, 2, pos=True)
    rho = root(W, J, 1)
    mu = W.real('mu')
    N = W.reals('N', 3, 3)            # N[k]: direction of the stretch k
    asa = lambda x: W.array(x) if W.symbolic else np.array(x, dtype=np.float64)

    def S(Ld):
        """Principal stresses from (dual) stretches."""
        j3 = rho
        if any(x.__class__ is Dual for x in Ld):
            j3 = Dual(rho, W.frac(1, 3) * rho * sum(x.b / x.a for x in Ld))
        x = [l / j3 for l in Ld]
        sa = sum(pw(y, al) for y in x)
        return [(pw(x[k], al - 2) - sa / (x[k] * x[k]) * W.frac(1, 3)) * mu / (j3 * j3) for k in range(3)]
    s = S(L)
    if W.symbolic:
        # lbds of different symbols differ
        if not eq:
            for i in range(3):
                for j in range(i):
                    W.assume(L[i] - L[j] != 0)
        else:
            W.assume(L[0] - L[2] != 0)
    out = cls._get_single_stress(asa(L), N.T.copy(), J, mu, al)
    for i in range(3):
        for j in range(3):
            W.eq('stress %d %d' % (i, j), out[i, j], sum(s[k] * N[k, i] * N[k, j] for k in range(3)))
    ds = [[tl.eps(S([Dual(L[j], int(j == i)) for j in range(3)])[k]) for i in range(3)] for k in range(3)]
    D = cls._get_single_tan_mod(asa(L), N.copy(), J, mu, al)
    # 2 dS/dC for S = sum_k s_k N_k N_k
    def c2(i, j):
        if i != j and (eq and {i, j} == {0, 1}):
            return (ds[j][j] - ds[i][j]) / (2 * L[j])
        return (s[j] - s[i]) / (L[j] * L[j] - L[i] * L[i])
    for m, n in IDX:
        for p, q in IDX:
            v = 0
            for i in range(3):
                for j in range(3):
                    v = v + ds[i][j] / L[j] * N[i, m] * N[i, n] * N[j, p] * N[j, q]
                    if i != j:
                        v = v + c2(i, j) * N[i, m] * N[j, n] * (N[i, p] * N[j, q] + N[j, p] * N[i, q])
            W.eq('tangent %d%d%d%d' % (m, n, p, q), D[m, n, p, q], v)

@contract('Ogden eigenvalues')
def ogden_eig(W):
    """Principal stretches and directions of each point, components in the symmetric storage."""
    M = W.mod(MT)
    cls = M.OgdenTLTerm
    t = object.__new__(cls)
    nc, nq = 2, 2
    ev, evec = W.reals('ev', nc, nq, 3, pos=True), W.reals('q', nc, nq, 3, 3)
    C = W.reals('C', nc, nq, 6, 1)
    det = W.reals('J', nc, nq, 1, 1, pos=True)
    got = []

    class LA:
        @staticmethod
        def eigh(c):
            got.append(c)
            return ev.copy(), evec.copy()
    old = M.nm

    class NM:
        linalg = LA()
        def __getattr__(self, k):
            return getattr(old, k)
    W.stub(MT, 'nm', NM())
    calls = []
    S1 = W.reals('S', nc * nq, 3, 3)
    D1 = W.reals('D', nc * nq, 3, 3, 3, 3)
    for x in (S1,):
        for i in range(3):
            for j in range(i):
                x[:, i, j] = x[:, j, i]
    W.stub(MT, 'OgdenTLTerm._get_single_stress', staticmethod(lambda *a: (calls.append(a), S1[len(calls) - 1])[1]))
    W.stub(MT, 'OgdenTLTerm._get_single_tan_mod', staticmethod(lambda *a: (calls.append(a), D1[len(calls) - 1])[1]))
    mt = W.reals('m', 1, nq, 1, 2)
    out = W.np.zeros((nc, nq, 6, 1))
    t.stress_function(out, mt, det, C, None, None)

    def check(tr):
        full_c = np.array([[full(C[c, q, :, 0], 3) for q in range(nq)] for c in range(nc)])
        W.eqs('C', got[-1], full_c)
        W.true('points', len(calls) == nc * nq)
        for k, a in enumerate(calls):
            c, q = divmod(k, nq)
            W.eqs('stretches', a[0] * a[0], ev[c, q])
            W.eqs('directions', a[1], evec[c, q].T if tr else evec[c, q])
            W.eqs('parameters', arr(list(a[2:])), arr([det[c, q, 0, 0], mt[0, q, 0, 0], mt[0, q, 0, 1]]))
    check(False)
    for k in range(nc * nq):
        c, q = divmod(k, nq)
        W.eqs('stress', out[c, q, :, 0], arr([S1[k, i, j] for i, j in IDX]))
    calls.clear()
    out = W.np.zeros((nc, nq, 6, 6))
    t.tan_mod_function(out, mt, det, C, None, None)
    check(True)
    for k in range(nc * nq):
        c, q = divmod(k, nq)
        for a, (i, j) in enumerate(IDX):
            W.eqs('tangent', out[c, q, a], arr([D1[(k, i, j) + kl] for kl in IDX]))

@contract('laws in Python', [dict(law=l) for l in range(2)])
def python_laws(W, law):
    """The terms take the stresses and moduli of their functions."""
    name, mat = [('dw_tl_he_genyeoh', '1, 6'), ('dw_tl_he_ogden', '1, 2')][law]
    fam = Family(W)
    P = tl.Problem(W, name, AT, dict(SH, material=mat), mesh='tet1')
    cls = ['GenYeohTLTerm', 'OgdenTLTerm'][law]
    need = [('J', 'tr', 'CI'), ('J', 'C', 'tr', 'CI')][law]
    got = []
    def fun(n):
        def f(self, out, m, *fargs, **kw):
            got.append((n, m, fargs))
            out[...] = W.reals(n, *out.shape)
            got.append(out)
            return out
        return f
    W.stub(MT, cls + '.stress_function', fun('S'))
    W.stub(MT, cls + '.tan_mod_function', fun('D'))
    P.values()
    vals, _, _ = P.term.evaluate(mode='weak', ret_status=True)
    Sg = got[-1].copy()
    K, _, _ = P.term.evaluate(mode='weak', diff_var='u2', ret_status=True)
    Sg2, D = [x.copy() for k, x in enumerate(got) if k % 2][-2:]
    for k, x in enumerate(got):
        if k % 2 == 0:
            W.true('data', len(x[2]) == len(need))
            for a, n in zip(x[2], need):
                W.eqs('data ' + n, a, fam.d[n])
            for q in range(P.nqp()):
                W.eqs('material', x[1][0, q].ravel(), P.mdata['material'](0, q).ravel())
    P.values()
    def form(Sx):
        def f(c, m, v, u):
            H = H_of(u)
            k = Kin(W, fam, c.c, c.q, H)
            s = Sx[c.c, c.q, :, 0]
            if H is not None:
                dE = dmap(tl.eps, k.C)
                e = [dE[i, j] * (W.frac(1, 2) if i == j else 1) for i, j in IDX]
                s = arr([Dual(s[a], sum(D[c.c, c.q, a, b] * e[b] for b in range(6))) for a in range(6)])
            return vir(W, k, full(s, 3), v)
        return f
    W.eqs('residual', vals[:, 0, :, 0], P.expect_weak(form(Sg)))
    P.expect_weak(form(Sg2))
    W.eqs('matrix', K[:, 0], P.expect_matrix(form(Sg2), 'state'))

# ---------------------------------------------------------- other terms
AP = ('virtual', 'state', 'state_p')

@contract('bulk pressure', [dict(ul=u, mesh=m) for u in (0, 1) for m in ('tri', 'tet1')])
def bulk_pressure(W, ul, mesh):
    fam = Family(W, 'UL' if ul else 'TL')
    P = tl.Problem(W, 'dw_%s_bulk_pressure' % ('ul' if ul else 'tl'), AP,
                   {'virtual': ('D', 'state'), 'state': 'D', 'state_p': 1}, mesh=mesh,
                   orders={'state': 2} if mesh == 'tri' else None,
                   intg=one(W, GEL[mesh]))
    def form(c, v, u, p):
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        if ul:
            return vir_ul(W, k, kirchhoff(W, 'bulk_pressure', k, p.v), v, H)
        return vir(W, k, stress(W, 'bulk_pressure', k, p.v), v)
    tl.check_term(W, P, form)
    family_args(W, P, fam, 'state')
    law = kirchhoff if ul else stress
    check_ev(W, P, fam, lambda c, a: law(W, 'bulk_pressure', Kin(W, fam, c.c, c.q), a[2].v), modes=('el_avg',))
    # a new state, matrices first
    for at in ('state', 'state_p'):
        var, f, nc, x, n = P.vars[at]
        x = W.reals(n + '_w', f.n_nod * nc)
        var.set_data(x)
        P.vars[at] = (var, f, nc, x, n)
    P.values()
    for at in ('state', 'state_p'):
        K, _, _ = P.term.evaluate(mode='weak', diff_var=P.vars[at][0].name, ret_status=True)
        P.expect_weak(form)
        W.eqs('new matrix d/d' + at, K[:, 0], P.expect_matrix(form, at))

@contract('volume', [dict(ul=u, mesh=m) for u in (0, 1) for m in ('tri', 'tet1')])
def volume(W, ul, mesh):
    fam = Family(W, 'UL' if ul else 'TL')
    P = tl.Problem(W, 'dw_%s_volume' % ('ul' if ul else 'tl'), ('virtual', 'state'),
                   {'virtual': (1, None), 'state': 'D'}, mesh=mesh, orders={'state': 2} if mesh == 'tri' else None,
                   intg=one(W, GEL[mesh]) if mesh == 'tri' else None)
    def form(c, v, u):
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        if ul:      # (J - 1) dV, dV = dv / J
            return v.v * (k.J - 1) * (1 / tl.val(k.J))
        return v.v * k.J
    tl.check_term(W, P, form)
    family_args(W, P, fam, 'state')
    modes = ('eval',) if ul else ('eval', 'el_eval')
    tl.check_term(W, P, lambda c, v, u: Kin(W, fam, c.c, c.q).J, modes=modes, weak=False, term_mode='volume')
    tl.check_term(W, P, lambda c, v, u: Kin(W, fam, c.c, c.q).J * (1 / c.volume), modes=modes, weak=False,
                  term_mode='rel_volume')

@contract('compressibility', [dict(mesh=m) for m in ('tri', 'tet1')])
def compressibility(W, mesh):
    fam = Family(W, 'UL')
    P = tl.Problem(W, 'dw_ul_compressible', ('material', 'virtual', 'state', 'parameter_u'),
                   {'material': '1, 1', 'virtual': (1, 'state'), 'state': 1, 'parameter_u': 'D'}, mesh=mesh,
                   orders={'parameter_u': 2} if mesh == 'tri' else None,
                   intg=one(W, GEL[mesh]) if mesh == 'tri' else None)
    tl.check_term(W, P, lambda c, m, v, p, u: m * p.v * v.v * (1 / Kin(W, fam, c.c, c.q).J))
    family_args(W, P, fam, 'parameter_u')

@contract('diffusion', [dict(mesh=m, neg=n) for m in ('tri1', 'tet1') for n in (0, 1)])
def diffusion(W, mesh, neg):
    fam = Family(W, 'TL')
    mat = sign(W, fam, neg)
    P = tl.Problem(W, 'dw_tl_diffusion', ('material_1', 'material_2', 'virtual', 'state', 'parameter'),
                   {'material_1': 'D, D', 'material_2': '1, 1', 'virtual': (1, 'state'), 'state': 1, 'parameter': 'D'},
                   mesh=mesh, matfun={'material_2': mat}, intg=one(W, GEL[mesh]))
    def coef(c, N):
        J = Kin(W, fam, c.c, c.q).J
        v = 1 + (J - 1) / N
        return J, v
    def form(c, K, N, v, p, u):
        J, w = coef(c, N)
        FI = inverse(fam.d['F'][c.c, c.q])
        k = mul(FI, K, FI.T)
        g = v.g
        return pos2(W, w) * J * sum(g[i] * k[i, j] * p.g[j] for i in range(c.dim) for j in range(c.dim))
    tl.check_term(W, P, form)
    family_args(W, P, fam, 'parameter')

def pos2(W, w):
    return w * w if W.box['w'] else 0

def sign(W, fam, neg):
    """The sign of 1 + (J - 1) / N in all the points."""
    W.box = dict(w=not neg)
    n = W.real('por', 0.05, 0.4, pos=True) if neg else W.real('por', 1.5, 2, pos=True)
    def post(d):
        J = d['J']
        for ix in np.ndindex(*J.shape):
            w = 1 + (J[ix] - 1) / n
            W.assume(w < 0 if neg else w > 0)
            if 'FI' not in d:       # not singular
                W.assume(det(d['F'][ix[:2]]) > W.frac(1, 10 ** 6))
    fam.post = post
    def mat(W, name, k, dims):
        a = W.reals(name, k, *dims)
        a[...] = n
        return a
    return mat

def det(F):
    if len(F) == 2:
        return F[0, 0] * F[1, 1] - F[0, 1] * F[1, 0]
    return (F[0, 0] * (F[1, 1] * F[2, 2] - F[1, 2] * F[2, 1]) - F[0, 1] * (F[1, 0] * F[2, 2] - F[1, 2] * F[2, 0])
            + F[0, 2] * (F[1, 0] * F[2, 1] - F[1, 1] * F[2, 0]))

def inverse(F):
    """Inverse matrix."""
    d = len(F)
    if d == 2:
        D = F[0, 0] * F[1, 1] - F[0, 1] * F[1, 0]
        return arr([[F[1, 1] / D, -F[0, 1] / D], [-F[1, 0] / D, F[0, 0] / D]])
    D = 0
    K = zeros(3, 3)
    for i in range(3):
        for j in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            e, f = (j + 1) % 3, (j + 2) % 3
            K[i, j] = F[a, e] * F[b, f] - F[a, f] * F[b, e]
    D = sum(F[0, j] * K[0, j] for j in range(3))
    return lin((1 / D, K.T))

@contract('surface traction', [dict(mesh=m, none=n) for m in ('tri', 'tet1') for n in (0, 1)])
def traction(W, mesh, none):
    fam = Family(W, 'SU')
    P = tl.Problem(W, 'dw_tl_surface_traction', ('opt_material', 'virtual', 'state'),
                   {'opt_material': None if none else 'D, D', 'virtual': ('D', 'state'), 'state': 'D'},
                   mesh=mesh, region='Gamma', integration='facet_extra',
                   where='vertices in (x < 1.9)' if mesh == 'tri' else None)
    P.vtypes = {}
    def form(c, m, v, u):
        k = Kin(W, fam, c.c, c.q, H_of(u))
        T = np.eye(c.dim, dtype=int).astype(object) if m is None else m
        n = c.n
        w = arr([sum(k.FI[a, i] * n[a] for a in range(c.dim)) for i in range(c.dim)])      # n . F^-1
        return k.J * sum(w[i] * T[i, j] * v.v[j] for i in range(c.dim) for j in range(c.dim))
    tl.check_term(W, P, form)
    family_args(W, P, fam, 'state', n=2)

@contract('volume by surface', [dict(mesh=m) for m in ('tri', 'tet1')])
def volume_surface(W, mesh):
    fam = Family(W, 'SU')
    P = tl.Problem(W, 'ev_tl_volume_surface', ('parameter',), {'parameter': 'D'},
                   mesh=mesh, region='Gamma', integration='facet_extra')
    f = P.vars['parameter'][1]
    X = f.get_coor()
    def form(c, u):
        k = Kin(W, fam, c.c, c.q)
        g, econn, nc, x = P.ref['parameter']
        b = g.bf[c.c, c.q, 0]
        pos = b @ X[econn[c.c]] + u.v
        w = [sum(k.FI[a, i] * c.n[a] for a in range(c.dim)) for i in range(c.dim)]
        return k.J * sum(w[i] * pos[i] for i in range(c.dim)) * W.frac(1, c.dim)
    tl.check_term(W, P, form, modes=('eval',))

@contract('surface flux', [dict(mesh=m, neg=n) for m in ('tri', 'tet1') for n in (0, 1)])
def surface_flux(W, mesh, neg):
    fam = Family(W, 'SU')
    mat = sign(W, fam, neg)
    P = tl.Problem(W, 'ev_tl_surface_flux', ('material_1', 'material_2', 'parameter_1', 'parameter_2'),
                   {'material_1': 'D, D', 'material_2': '1, 1', 'parameter_1': 1, 'parameter_2': 'D'},
                   mesh=mesh, region='Gamma', integration='facet_extra', matfun={'material_2': mat},
                   where='vertices in (x < 0.4)')
    def form(c, K, N, p, u):
        k = Kin(W, fam, c.c, c.q)
        M = mul(k.FI, K, k.FI.T)
        return pos2(W, 1 + (k.J - 1) / N) * k.J * sum(c.n[i] * M[i, j] * p.g[j] for i in range(c.dim)
                                                      for j in range(c.dim))
    tl.check_term(W, P, form, modes=('eval',))
    tl.check_term(W, P, form, modes=('el_avg',))

@contract('given functions', [dict(mesh=m, sym=s) for m in ('tri1', 'tet1') for s in (0, 1)])
def by_fun(W, mesh, sym):
    """Stresses and moduli of a user function."""
    fam = Family(W, 'UL')
    box = {}
    dim = 2 if mesh == 'tri1' else 3
    n2 = dim * dim
    def mat_fun(fd, mode=None):
        W.true('data', all(x is not None for x in (fd.mtx_f, fd.det_f, fd.sym_b)))
        n_el, n_qp = fd.mtx_f.shape[:2]
        if mode == 'stress':
            ns = len(SYM[dim]) if sym else n2
            box['s'] = W.reals('s', n_el, n_qp, ns, 1)
            return box['s']
        box['d'] = W.reals('d', n_el, n_qp, n2, n2)
        return box['d']
    P = tl.Problem(W, 'dw_ul_he_by_fun', ('fun', 'virtual', 'state'), {'virtual': ('D', 'state'), 'state': 'D'},
                   mesh=mesh, args={'fun': mat_fun})
    P.values()
    vals, _, _ = P.term.evaluate(mode='weak', ret_status=True)
    def form(c, v, u):
        J = fam.d['J'][c.c, c.q, 0, 0]
        s = box['s'][c.c, c.q, :, 0]
        return sum(x * y for x, y in zip(s, v.e if sym else v.gs)) * (1 / J)
    W.eqs('residual', vals[:, 0, :, 0], P.expect_weak(form))
    K, _, _ = P.term.evaluate(mode='weak', diff_var=P.vars['state'][0].name, ret_status=True)
    def formd(c, v, u):
        J = fam.d['J'][c.c, c.q, 0, 0]
        D = box['d'][c.c, c.q]
        return sum(v.gs[i] * sum(u.gs[j] * D[i, j] for j in range(n2)) for i in range(n2)) * (1 / J)
    P.expect_weak(formd)
    W.eqs('matrix', K[:, 0], P.expect_matrix(formd, 'state'))

def dexp(W, x):
    e = W.fn('exp', tl.val(x))
    return Dual(e, e * x.b) if x.__class__ is Dual else e

@contract('fibres', [dict(law=l, mesh=m) for l in ('a', 'e', 'e-', 'spe', 'spe_opt') for m in ('tri1', 'tet1')])
def fibres(W, law, mesh):
    """The tension in fibres depends on E : d d; the terms follow changes of the directions."""
    fam = Family(W)
    n = {'a': 5}.get(law, 4)
    ats = ['material_%d' % (i + 1) for i in range(n)]
    sh = dict(SH, **{a: '1, 1' for a in ats})
    sh['material_4'] = 'D, 1'
    if law.startswith('spe'):
        ats = ['opt_material_0'] + ats
        sh['opt_material_0'] = '.: 1' if law == 'spe_opt' else None
    positive = lambda W, n, k, dims: W.reals(n, k, *dims, pos=True)
    P = tl.Problem(W, 'dw_tl_fib_' + law.split('_')[0].strip('-'), tuple(ats) + ('virtual', 'state'), sh, mesh=mesh,
                   intg=one(W, GEL[mesh]), matfun={'material_3': positive} if law == 'a' else None)

    def tension(eps, m):
        if law == 'a':
            fmax, opt, s, d, act = m
            x = (eps - opt) / s
            return act * fmax * dexp(W, -(x * x))
        if law[0] == 'e':
            sigma, k, e0, d = m
            t = (dexp(W, k * (eps - e0)) - 1) * sigma
            return t if law == 'e' else 0
        al, sigma, k, e0, d = m
        al = 50 if al is None else al
        t = (dexp(W, k * (eps - e0)) - 1) * sigma * al
        e = 1 / (1 + dexp(W, -tl.val(t)))               # the derivative of log(1 + exp(t))
        v = (W.fn('log', 1 + W.fn('exp', tl.val(t))) if W.symbolic else np.logaddexp(0.0, tl.val(t))) / al
        return Dual(v, e * t.b / al) if t.__class__ is Dual else v

    if law[0] == 'e':       # tensile or not
        def post(d):
            for c, q in np.ndindex(*d['E'].shape[:2]):
                m = [P.mdata[a](c, q) for a in ats]
                E = full(d['E'][c, q, :, 0], P.dim)
                t = m[0] * (W.fn('exp', m[1] * (dd(E, np.outer(m[3], m[3])) - m[2])) - 1)
                W.assume(t > 0 if law == 'e' else t < 0)
        fam.post = post

    def strs(k, m, H):
        m = list(m)
        E = lin((1, full(fam_E(k), k.dim)))
        if H is not None:
            E = duals(E, lin((W.frac(1, 2), dmap(tl.eps, k.C))))
        d = m[3] if law[:3] != 'spe' else m[4]
        w = zeros(k.dim, k.dim)
        for i, j in np.ndindex(k.dim, k.dim):
            w[i, j] = d[i] * d[j]
        t = tension(dd(E, w), m)
        return lin((t, w))

    def fam_E(k):
        return k.E[[i for i, j in SYM[k.dim]], [j for i, j in SYM[k.dim]]]

    def form(c, *args):
        m, v, u = args[:-2], args[-2], args[-1]
        H = H_of(u)
        k = Kin(W, fam, c.c, c.q, H)
        return vir(W, k, strs(k, m, H), v)
    tl.check_term(W, P, form)
    check_ev(W, P, fam, lambda c, a: strs(Kin(W, fam, c.c, c.q), a[:-2], None), modes=('el_avg',))
    if law[0] != 'e':
        P.new_data('w')
        tl.check_term(W, P, form, mtx=False)

@contract('family data', [dict(kind=k) for k in ('TL', 'UL')])
def family_data(W, kind):
    """The deformation data belong to the region, rule and step they are asked for, in any order of the requests."""
    mod, cls = {'TL': (MT, 'HyperElasticTLFamilyData'), 'UL': (MU, 'HyperElasticULFamilyData')}[kind]
    names = getattr(Family, kind)
    calls = []

    def fun(*args):
        for o in args[:len(names)]:
            o[...] = 1 + len(calls)
        calls.append(args[len(names):])
        return 0
    W.stub(mod, cls + '.family_function', staticmethod(fun))
    dom = felib.domain(W, 'tri')
    omega = dom.create_region('Omega', 'all')
    regs = [omega] + [dom.create_region('R%d' % i, 'cell %d' % i) for i in (0, 1)]
    f = felib.field(W, omega, 1, 2)
    u = W.mod('sfepy.discrete').FieldVariable('u', 'unknown', f, history=1)
    u.init_history()
    xs = {}

    def data(step, k):
        xs[step] = W.reals('x%d' % k, f.n_nod * 2)
        u.set_data(xs[step], step=step)
    for k, step in enumerate((0, -1)):
        data(step, k)
    u.step = 1
    fd = getattr(W.mod(mod), cls)()
    ints = [felib.integral(W, o) for o in (1, 2)]
    steps = (0, -1)

    def ask(r, i, step):
        d = fd(u, r, i, ('cell', 2), step=step)
        vec, vg, econn = calls[int(np.ravel(d.det_f)[0]) - 1]
        lab = 'region %s, order %d, step %d: ' % (r.name, i.order, step)
        ref = f.get_mapping(r, i, 'cell')[0]
        W.eqs(lab + 'state', vec, xs[step])
        W.true(lab + 'number of cells and points', vg.bfg.shape == ref.bfg.shape)
        W.eqs(lab + 'mapping', vg.bfg, ref.bfg)
        W.true(lab + 'connectivity', (econn == f.get_econn('cell', r)).all())
        for n in d.names:
            W.true(lab + 'shape of ' + n, getattr(d, n).shape[:2] == ref.bfg.shape[:2])
    for order in (regs, regs[::-1]):
        for r in order:
            for i in ints:
                for step in steps:
                    ask(r, i, step)
        for k, step in enumerate(steps):        # the state changes
            data(step, 2 + k)

@contract('deformation gradient', [dict(mesh=m, tm=t) for m in ('tri', 'tet1') for t in (None, 'jacobian')])
def def_grad(W, mesh, tm):
    P = tl.Problem(W, 'ev_def_grad', ('parameter',), {'parameter': 'D'}, mesh=mesh,
                   intg=one(W, GEL[mesh]) if mesh == 'tet1' else None)
    def form(c, u):
        F = u.g + np.eye(c.dim, dtype=int)
        if tm is None:
            return F
        return det(F)
    tl.check_term(W, P, form, modes=('eval', 'el_avg', 'qp'), term_mode=tm)

if __name__ == '__main__':
    main(S)
