"""Multilinear (einsum) terms: all modes, backends and layouts against the weak forms."""
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from checks import felib, termlib as tl
from checks import C27 as B
from checks.C27 import dot, m1, bi, full, arr, zeros

S = Suite('C28', 'multilinear terms', assumptions=[
    'the mapping data and bases the weak forms are written with are those of the fields (their correctness: C06, C12)',
    'small meshes with distorted rational coordinates (1 or 2 cells, a part of the facets), 2 quadrature points with rational coordinates; '
    'states and material data in each quadrature point are symbolic',
    'numpy.einsum and numpy.einsum_path are trusted; the opt_einsum, dask and jax backends are not installed here'], conc=1)
felib.use(S, 'sfepy.terms', 'sfepy.terms.extmods.terms', 'sfepy.discrete.equations')

EV = ('eval', 'el_eval', 'el_avg', 'qp')

def f_grad(c, m, u):
    g = u.g.reshape(1, -1) if np.ndim(u.g) == 1 else u.g
    if m is None:
        return g
    if np.ndim(m) == 0:
        return m * g
    m = m.reshape(len(m), -1)
    return arr([[dot(g[i], m[:, k]) for k in range(m.shape[1])] for i in range(len(g))])

def strain9(g):
    """Strain of a displacement gradient stored as a vector, engineering storage."""
    n = int(round(len(g) ** .5))
    return arr([g[i * n + j] + g[j * n + i] if i != j else g[i * n + i] for i, j in tl.SYM[n]])

def sg(c, w):
    """e_{I,k} as the matrix (k, I)."""
    n = c.dim
    return arr([strain9(w.g[:, k]) for k in range(n)])

def f_sg(c, a, v, w):
    return dot(sg(c, v).reshape(-1), a @ sg(c, w).reshape(-1))

def f_flexo(c, f, w, p):
    return dot(p.g, f @ sg(c, w).reshape(-1))

def f_piezo_flux(c, g, q, u):
    return q.v * dot(c.n, g @ u.e)

FORMS = {
    'de_integrate': (lambda c, m, q: m1(m) * q.v, {}),
    'de_laplace': (lambda c, m, v, u: m1(m) * dot(v.g, u.g), {}),
    'de_dot': (lambda c, m, v, u: bi(m, v.v, u.v), dict(shapes='N')),
    'de_s_dot_mgrad_s': (None, dict(by={
        'grad_state': lambda c, y, q, p: q.v * dot(y, p.g), 'grad_virtual': lambda c, y, p, q: p.v * dot(y, q.g),
        'eval': lambda c, y, p, q: p.v * dot(y, q.g)})),
    'de_non_penetration_p': (lambda c, m, v, u: m * dot(c.n, v.v) * dot(c.n, u.v), {}),
    'de_div_grad': (lambda c, m, v, u: m1(m) * dot(v.g, u.g), {}),
    'de_stokes_traction': (lambda c, m, v, u: m1(m) * dot(v.v, u.g @ c.n), {}),
    'de_convect': (lambda c, m, v, u: m1(m) * dot(B.conv(u.v, u), v.v), {}),
    'de_lin_convect': (lambda c, v, w, u: dot(B.conv(w.v, u), v.v), {}),
    'de_div': (lambda c, m, v: m1(m) * v.div, {}),
    'de_grad': (f_grad, dict(shapes='G')),
    'de_stokes': (lambda c, m, v, p: m1(m) * p.v * v.div, {}),
    'de_lin_elastic': (lambda c, D, v, u: bi(D, v.e, u.e), {}),
    'de_cauchy_stress': (lambda c, D, u: D @ u.e, {}),
    'de_nonsym_elastic': (lambda c, D, v, u: bi(D, v.gs, u.gs), {}),
    'de_diffusion': (lambda c, K, q, p: bi(K, q.g, p.g), {}),
    'de_surface_ltr': (B.f_ltr, {}),
    'de_surface_flux': (None, dict(by={
        'grad_state': lambda c, K, q, p: q.v * bi(K, c.n, p.g), 'grad_virtual': lambda c, K, p, q: p.v * bi(K, c.n, q.g),
        'eval': lambda c, K, p, q: p.v * bi(K, c.n, q.g)})),
    'ev_surface_flux2': (lambda c, K, p: bi(K, c.n, p.g), {}),
    'de_surface_piezo_flux': (f_piezo_flux, {}),
    'ev_surface_piezo_flux': (lambda c, g, u: dot(c.n, g @ u.e), {}),
    'de_m_sg_elastic': (f_sg, {'aux': 1}),
    'de_m_flexo_coupling': (f_flexo, {'aux': 1}),
    'de_m_flexo': (lambda c, v, a: dot(v.gs, a.v), {}),
}

DOT = B.DOT_SHAPES[:5] + [
    dict(opt_material='1, 1', virtual=(2, 'state'), state=2, parameter_1=2, parameter_2=2),
    dict(opt_material='2, 2', virtual=(2, 'state'), state=2, parameter_1=2, parameter_2=2)]
GRAD = [dict(opt_material=m, parameter=n) for n in (1, 'D', 3) for m in (None, '1, 1', 'D, 1', 'D, D')]

def variants(name):
    t = B.TERMS[name]
    ats, modes = t['arg_types'], t['modes']
    if not isinstance(ats[0], tuple):
        ats = (ats,)
    o = FORMS[name][1].get('shapes')
    shapes = B.merged(t['arg_shapes'])
    if o == 'N':
        shapes = DOT
    if o == 'G':
        shapes = GRAD
    res = []
    for i, at in enumerate(ats):
        m = modes[i] if modes is not None and len(modes) == len(ats) else (modes[0] if modes else None)
        for sh in shapes:
            if all(a in sh or '%s/%s' % (a, m) in sh for a in at):
                v = (at, m, {a: sh.get(a, sh.get('%s/%s' % (a, m))) for a in at})
                if v not in res:
                    res.append(v)
    return res

BACKENDS = ['numpy', 'numpy_loop', 'numpy_qloop']
LAYOUTS = [None, 'qcgvd0', '0dvgqc', 'vd0gcq']

def cases():
    out = []
    for name in FORMS:
        t = B.TERMS[name]
        integ = t['integration'] or 'cell'
        integ = (integ,) if isinstance(integ, str) else integ
        for it in integ:
            for i, (at, m, sh) in enumerate(variants(name)):
                facet = it != 'cell'
                big = name == 'de_m_sg_elastic'
                for k, mesh in enumerate(('tri1' if big else 'tri',) if facet or big else ('tri', 'quad1', 'tet1')):
                    out.append(dict(term=name, var=i, it=it, mesh=mesh))
                    if k == 0:
                        for b in BACKENDS:
                            for l in LAYOUTS:
                                if b == 'numpy' and l is None:
                                    continue
                                out.append(dict(term=name, var=i, it=it, mesh='tri1', backend=b, layout=l))
                        if 'aux' in FORMS[name][1]:      # constant operands broadcast over cells
                            out += [dict(term=name, var=i, it=it, mesh='tri', backend=b) for b in BACKENDS[1:]]
    return out

def make(W, term, var, it, mesh, backend='numpy', layout=None, diff=True, **kw):
    form, o = FORMS[term]
    at, m, sh = variants(term)[var]
    if 'by' in o:
        form = o['by'][m]
    orders = None
    if mesh == 'tri' and it != 'facet':
        orders, k = {}, 0
        for a in at:
            if a.split('_')[0] in ('virtual', 'state', 'parameter') and not (a == 'virtual' and sh[a][1] is not None):
                orders[a] = 1 + (k % 2 if a != 'virtual' else 1)
                k += 1
    P = tl.Problem(W, term, at, sh, mode=m, mesh=mesh, region='Omega' if it == 'cell' else 'Gamma',
                   integration=it, orders=orders, where='vertices in (x < 1.9)' if it != 'cell' and mesh == 'tri' else None)
    if backend != 'numpy' or layout is not None or kw:
        P.term.set_backend(backend=backend, layout=layout, **kw)
    return P, form

@S.contract('term', cases(), kind='py')
def term(W, term, var, it, mesh, backend='numpy', layout=None):
    P, form = make(W, term, var, it, mesh, backend, layout)
    tl.check_term(W, P, form, modes=EV, loose=True)

FUNS = ['eval_einsum_orig', 'eval_einsum0', 'eval_einsum1', 'eval_einsum2', 'eval_einsum3', 'eval_einsum4']

@S.contract('numpy functions', [dict(term=t, var=v, fun=f, layout=l) for f in FUNS for l in (None, 'vd0gcq')
                                for t, v in (('de_convect', 0), ('de_convect', 2), ('de_lin_elastic', 0), ('de_cauchy_stress', 0),
                                             ('de_grad', 4), ('de_stokes', 0))], kind='py')
def functions(W, term, var, fun, layout):
    P, form = make(W, term, var, 'cell', 'tri1', layout=layout, eval_fun=fun)
    tl.check_term(W, P, form, modes=EV, loose=True)

@S.contract('repeated evaluation', [dict(term=t, var=v, backend=b, layout=l) for b in BACKENDS for l in LAYOUTS
                                    for t, v in (('de_convect', 0), ('de_convect', 2), ('de_laplace', 0), ('de_laplace', 2),
                                                 ('de_diffusion', 0), ('de_lin_convect', 1), ('de_lin_elastic', 1))], kind='py')
def repeated(W, term, var, backend, layout):
    """New states and material data are used, whatever was evaluated before;
    a second term with the same variables sees them as well."""
    P, form = make(W, term, var, 'cell', 'tri1', backend, layout)
    P2, _ = make(W, term, var, 'cell', 'tri1', backend, layout)
    T2 = W.mod(tl.TERMS).Term.new(P.source, P.integral, P.region, **P.args)
    T2.setup()
    T2.set_backend(backend=backend, layout=layout)
    tl.check_term(W, P, form, modes=('eval',))
    own = P.term
    for k in range(2):
        P.term = T2
        tl.check_term(W, P, form, modes=('eval', 'qp'), loose=True)
        for at in list(P.vars):
            v, f, nc, x, n = P.vars[at]
            if x is not None:
                x = W.reals('%s_%d' % (n, k), f.n_nod * nc)
                v.set_data(x)
                P.vars[at] = (v, f, nc, x, n)
        P.new_data('%d' % k)
        P.term = own
        tl.check_term(W, P, form, modes=('eval', 'el_avg'))

def nonsym(s, dim):
    """Work conjugate of the strains (rows k) for each component of the displacement gradient."""
    return arr([[full(s[k], dim).reshape(-1)[i] for k in range(dim)] for i in range(dim * dim)])

@S.contract('term modes', [dict(mode=m, mesh=k) for m in ('strain', 'grad_strain', 'double_stress', 'electric_displacement', 'flexo_double_stress')
                           for k in ('tri1', 'quad1')], kind='py')
def term_modes(W, mode, mesh):
    flexo = mode in ('electric_displacement', 'flexo_double_stress')
    name = 'de_m_flexo_coupling' if flexo else 'de_m_sg_elastic'
    at, m, sh = [v for v in variants(name) if v[1] == 'eval'][0]
    P = tl.Problem(W, name, at, sh, mode=m, mesh=mesh)
    form = FORMS[name][0]
    tl.check_term(W, P, form, modes=('eval',), loose=True)      # the caches now hold the basic mode
    two = {'strain': lambda c, a, v, w: strain9(w.v),
           'grad_strain': lambda c, a, v, w: sg(c, w).T,        # I, k
           'double_stress': lambda c, a, v, w: nonsym((a @ sg(c, w).reshape(-1)).reshape(c.dim, -1), c.dim),
           'electric_displacement': lambda c, f, w, p: f @ sg(c, w).reshape(-1),
           'flexo_double_stress': lambda c, f, w, p: nonsym((p.g @ f).reshape(c.dim, -1), c.dim)}[mode]
    P.values()
    out = P.term.evaluate(mode='eval', term_mode=mode.replace('flexo_', ''))
    out = np.asarray(out)
    E = P.expect_qp(two)
    tot = 0
    for c in range(P.n_el):
        for q in range(P.nqp()):
            tot = tot + E[c, q] * P.jw(c, q)
    W.true('size', out.size == tot.size)
    W.eqs('values', out.reshape(-1), tot.reshape(-1))

def rational(W, n, k, dims):
    a = zeros(k, *dims)
    for i in range(k):
        a[i] = W.frac(3 + i, 2)
    return W.array(a.tolist())

@S.contract('mass', [dict(lumping=l, beta=b, tm=t, mesh=m) for l in ('none', 'row_sum', 'hrz') for b in (0, 1, '1/4')
                     for t in (None, 'DPM', 'RMM') for m in ('tri1', 'quad1', 'line')
                     if not (t == 'RMM' and (m == 'quad1' or m == 'tri1' and b == 0))], kind='py')
def mass(W, lumping, beta, tm, mesh):
    b = Fraction(beta) if W.symbolic else float(Fraction(beta))
    at, m, sh = variants0('de_mass')
    P = tl.Problem(W, 'de_mass', at, sh, mode=m, mesh=mesh, special={'material_lumping': lumping, 'material_beta': b},
                   matfun={'material_rho': rational} if tm == 'RMM' else None)
    P.values()
    form = lambda c, rho, lu, be, v, u: rho * dot(v.v, u.v)
    t = P.term
    kw = {} if tm is None else dict(term_mode=tm)
    name = P.vars['state'][0].name
    got, _, _ = t.evaluate(mode='weak', diff_var=name, ret_status=True, **kw)
    res, _, _ = t.evaluate(mode='weak', ret_status=True, **kw)
    R = P.expect_weak(form)
    K = P.expect_matrix(form, 'state')
    n_el, nd = K.shape[:2]
    lump = lumping if tm is None or lumping != 'none' else 'row_sum'
    bb = 1 if tm == 'DPM' else b
    n_bf = nd // P.dim
    var, f, nc, x, _ = P.vars['state']
    econn = P.ref['state'][1]
    W.true('shapes', got.shape == (n_el, 1, nd, nd) and res.shape == (n_el, 1, nd, 1))
    for c in range(n_el):
        M = K[c]
        if lump == 'row_sum':
            ld = [sum(M[i]) for i in range(nd)]
        elif lump == 'hrz':
            tot = sum(P.mdata['material_rho'](c, q) * P.jw(c, q) for q in range(P.nqp()))
            al = tot / sum(M[i, i] for i in range(n_bf))
            ld = [al * M[i, i] for i in range(nd)]
        else:
            ld = None
        A = zeros(nd, nd)
        for i in range(nd):
            for j in range(nd):
                A[i, j] = M[i, j] if ld is None else (1 - bb) * M[i, j] + (bb * ld[i] if i == j else 0)
        if tm == 'RMM':     # C = L A^-1 L
            X = zeros(nd, nd)
            for i in range(nd):
                for j in range(nd):
                    X[i, j] = got[c, 0, i, j] / ld[j]
            for i in range(nd):
                for j in range(nd):
                    s = sum(X[i, k] * A[k, j] for k in range(nd))
                    W.eq('C L^-1 A = L [%d,%d]' % (i, j), s, ld[i] if i == j else 0)
            A = got[c, 0]
        else:
            W.eqs('matrix %d' % c, got[c, 0], A)
        dofs = x.reshape(-1, nc)[econn[c]].T.reshape(-1)
        W.eqs('residual %d' % c, res[c, 0, :, 0], A @ dofs)

def variants0(name):
    t = B.TERMS[name]
    return t['arg_types'], 'weak', B.merged(t['arg_shapes'])[0]

if __name__ == '__main__':
    main(S)
