"""Shape sensitivity terms: derivatives of the terms with respect to a motion of the mesh."""
import numpy as np
from engine.vc import Suite, main
from checks import felib, termlib as tl
from checks import C27 as B, C28 as M
from checks.termlib import Dual, Q, eps, arr, zeros
from checks.C27 import dot, bi, conv, m1

S = Suite('C30', 'sensitivity terms', assumptions=[
    'the mapping data and bases the weak forms are written with are those of the fields (their correctness: C06, C12)',
    'small meshes with distorted rational coordinates (1 or 2 cells, a part of the facets), 2 quadrature points with rational coordinates; '
    'states, mesh velocities and material data in each quadrature point are symbolic',
    'the states and the material data move with the mesh',
    'the elastic tensor of ev_sd_lin_elastic has the major symmetry'], conc=1)
felib.use(S, 'sfepy.terms', 'sfepy.terms.extmods.terms', 'sfepy.discrete.equations')

def lift(a, b=None):
    if a is None:
        return None
    if not isinstance(a, np.ndarray):
        return Dual(a, 0 if b is None else b)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = Dual(a[ix], 0 if b is None else b[ix])
    return r

def moved(u, V):
    """The variable moving with x + t V: constant values, grad u (I - t grad V)."""
    g = u.g
    return Q(lift(u.v), None if g is None else lift(g, -(g @ V.g)))

def derivative(base, n_mat):
    """d/dt of the integrand times the volume (area) of the moved cell."""
    def form(c, *args):
        mats, (V, *vars) = args[:n_mat], args[n_mat:][::-1]
        vars = [moved(u, V) for u in vars[::-1]]
        cc = tl.Ctx()
        cc.dim = c.dim
        if c.n is not None:     # n ds -> (div V I - grad V^T) n ds, the first part below
            cc.n = lift(c.n, -(V.g.T @ c.n))
        return eps(lift_(base(cc, *mats, *vars)) * Dual(1, V.div))
    return form

def lift_(x):
    return x if x.__class__ is Dual else Dual(x)

F, G = B.FORMS, M.FORMS
f_piezo = lambda c, g, v, p: dot(p.g, g @ v.e)
# sensitivity term: (base form with the variables in the order of the arguments, options)
FORMS = {
    'ev_sd_dot': (lambda c, p, q: dot(p.v, q.v), {}),
    'ev_sd_div': (lambda c, u, p: p.v * u.div, {}),
    'ev_sd_div_grad': (lambda c, m, u, w: m1(m) * dot(u.g, w.g), {}),
    'ev_sd_convect': (lambda c, u, w: dot(conv(u.v, u), w.v), {}),
    'ev_sd_st_grad_div': (lambda c, m, u, w: m * u.div * w.div, {}),
    'ev_sd_st_supg_c': (lambda c, m, b, u, w: m * dot(conv(b.v, u), conv(b.v, w)), {}),
    'ev_sd_st_pspg_c': (lambda c, m, b, u, r: m * dot(conv(b.v, u), r.g), {}),
    'ev_sd_st_pspg_p': (lambda c, m, r, p: m * dot(r.g, p.g), {}),
    'ev_sd_diffusion': (lambda c, K, q, p: bi(K, q.g, p.g), {}),
    'ev_sd_lin_elastic': (lambda c, D, w, u: bi(D, w.e, u.e), dict(matfun={'material': B.symmetric})),
    'ev_sd_piezo_coupling': (f_piezo, {}),
    'ev_sd_surface_ltr': (B.f_ltr, {}),
    'de_sd_lin_elastic': (lambda c, D, v, u: bi(D, v.e, u.e) if len(D) == len(v.e) else bi(D, v.gs, u.gs), {}),
    'de_sd_piezo_coupling': (f_piezo, {}),
    'de_sd_diffusion': (lambda c, K, q, p: bi(K, q.g, p.g), {}),
    'de_sd_stokes': (lambda c, m, v, p: m1(m) * p.v * v.div, {}),
    'de_sd_div_grad': (lambda c, m, v, u: m1(m) * dot(v.g, u.g), {}),
    'de_sd_dot': (B.f_dot, {}),
    'de_sd_surface_ltr': (B.f_ltr, {}),
    'de_sd_v_dot_grad_s': (lambda c, m, v, p: m1(m) * dot(v.v, p.g), {}),
}

def variants(name):
    t = B.TERMS[name]
    ats, modes = t['arg_types'], t['modes']
    if not isinstance(ats[0], tuple):
        ats = (ats,)
    res = []
    for i, at in enumerate(ats):
        m = modes[i] if modes is not None and len(modes) == len(ats) else (modes[0] if modes else None)
        for sh in B.merged(t['arg_shapes']):
            if all(a in sh or '%s/%s' % (a, m) in sh for a in at):
                v = (at, m, {a: sh.get(a, sh.get('%s/%s' % (a, m))) for a in at})
                if name == 'ev_sd_surface_ltr' and v[2]['opt_material'] == 'D, 1':
                    continue        # not the derivative of a documented term
                if v not in res:
                    res.append(v)
    return res

def cases():
    out = []
    for name in FORMS:
        facet = B.TERMS[name]['integration'] == 'facet'
        for i in range(len(variants(name))):
            for mesh in (('tri', 'tet1') if facet else ('tri', 'quad1', 'tet1')):
                out.append(dict(term=name, var=i, mesh=mesh))
    return out

def make(W, term, var, mesh):
    at, m, sh = variants(term)[var]
    facet = B.TERMS[term]['integration'] == 'facet'
    orders = None
    if mesh == 'tri' and not facet:
        orders, k = {}, 0
        for a in at:
            if a.split('_')[0] in ('virtual', 'state', 'parameter') and not (a == 'virtual' and sh[a][1] is not None):
                orders[a] = 1 + (k % 2 if a != 'virtual' else 1)
                k += 1
    P = tl.Problem(W, term, at, sh, mode=m, mesh=mesh, region='Gamma' if facet else 'Omega',
                   integration='facet' if facet else 'cell', orders=orders,
                   matfun=FORMS[term][1].get('matfun'),
                   where='vertices in (x < %s)' % ('1.9' if mesh == 'tri' else '0.5') if facet else None)
    if facet:
        P.vtypes = {'parameter_mv': 'facet_extra'}
    n_mat = sum('material' in a for a in at)
    return P, n_mat

@S.contract('term', cases(), kind='py')
def term(W, term, var, mesh):
    P, n_mat = make(W, term, var, mesh)
    form = derivative(FORMS[term][0], n_mat)
    tl.check_term(W, P, form, modes=('eval', 'el_eval'))

@S.contract('original', [dict(term=t, mesh=m) for t in FORMS if t in ('ev_sd_dot', 'ev_sd_div', 'ev_sd_div_grad', 'ev_sd_convect',
            'ev_sd_st_grad_div', 'ev_sd_st_supg_c', 'ev_sd_st_pspg_c', 'ev_sd_st_pspg_p') for m in ('tri', 'quad1', 'tet1')], kind='py')
def original(W, term, mesh):
    """The term mode 0: the value of the term itself."""
    P, n_mat = make(W, term, 0, mesh)
    base = FORMS[term][0]
    tl.check_term(W, P, lambda c, *a: base(c, *a[:-1]), modes=('eval', 'el_eval'), term_mode=0)

@S.contract('integrate', [dict(mesh=m) for m in ('tri', 'tet1', 'quad1')], kind='py')
def integrate(W, mesh):
    at, sh = ('parameter', 'parameter_mv'), {'parameter': 1, 'parameter_mv': 'D'}
    P = tl.Problem(W, 'ev_sd_surface_integrate', at, sh, mesh=mesh, region='Gamma', integration='facet')
    P.vtypes = {'parameter_mv': 'facet_extra'}
    tl.check_term(W, P, lambda c, p, V: p.v * V.div, modes=('eval', 'el_eval'))

if __name__ == '__main__':
    main(S)
