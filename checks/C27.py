"""Standard terms: all evaluation modes against their documented weak forms."""
import numpy as np
from engine.vc import Suite, main
from checks import felib, termlib as tl
from checks.termlib import arr, zeros, SYM

S = Suite('C27', 'terms in all call modes', assumptions=[
    'the mapping data and bases the weak forms are written with are those of the fields (their correctness: C06, C12)',
    'small meshes with distorted rational coordinates (1 or 2 cells, all facets or a part), 2 quadrature points with rational coordinates; '
    'states and material data in each quadrature point are symbolic'], conc=1)
felib.use(S, 'sfepy.terms', 'sfepy.terms.extmods.terms', 'sfepy.discrete.equations')

def dot(a, b):
    return sum(x * y for x, y in zip(np.ravel(a), np.ravel(b)))

def m1(m):
    return 1 if m is None else m

def outer_sym(d):
    """d_k d_l contracted with engineering strains."""
    return arr([d[i] * d[j] for i, j in SYM[len(d)]])

def wave(k, u):
    """Engineering storage of (u_i k_j + k_i u_j) / 2."""
    n = len(u)
    return arr([u[i] * k[j] + k[i] * u[j] if i != j else u[i] * k[i] for i, j in SYM[n]])

def full(m, dim):
    """Symmetric storage to a matrix."""
    r = zeros(dim, dim)
    for k, (i, j) in enumerate(SYM[dim]):
        r[i, j] = r[j, i] = m[k]
    return r

def conv(w, u):
    """(w . grad) u"""
    return arr([dot(w, u.g[i]) for i in range(len(u.g))])

def bi(m, v, u):
    if m is None:
        return dot(v, u)
    if np.ndim(m) == 0:
        return m * dot(v, u)
    return dot(v, m @ u)

def f_dot(c, m, v, u):
    nv, nu = np.ndim(v.v), np.ndim(u.v)
    if nv == nu:
        return bi(m, v.v, u.v)
    return m1(m) * (dot(v.v, c.n) * u.v if nv else v.v * dot(u.v, c.n))

def f_prestress(c, s, v):
    return dot(s, v.e) if np.ndim(s) == 1 else dot(s, v.g)

def f_biot(c, a, v, p):
    return p.v * (dot(a, v.e) if np.ndim(a) == 1 else dot(a, v.g))

def f_vgs(c, m, v, s):
    return bi(m, v.v, s.g)

def f_iso(c, lam, mu, v, u):
    return lam * v.div * u.div + mu * sum((v.g[i, j] + v.g[j, i]) * (u.g[i, j] + u.g[j, i])
                                          for i in range(c.dim) for j in range(c.dim)) / 2

def f_ltr(c, m, v):
    if m is None:
        return dot(v.v, c.n)
    if np.ndim(m) == 0:
        return m * dot(v.v, c.n)
    if len(m) == c.dim and np.ndim(m) == 1:
        return dot(v.v, m)
    if np.ndim(m) == 1:
        m = full(m, c.dim)
    return dot(v.v, m @ c.n)

def f_grad(c, m, u):
    g = u.g if np.ndim(u.g) == 1 else u.g.T
    if m is None:
        return g
    return m * g if np.ndim(m) == 0 else m @ g

def symmetric(W, n, k, dims):
    a = W.reals(n, k, *dims)
    for i in range(dims[0]):
        for j in range(i):
            a[:, i, j] = a[:, j, i]
    return a

EV = ('eval', 'el_avg', 'qp')
EV2 = ('eval', 'el_eval')
# term: (weak form over the materials and variables in the order of the arguments, options)
FORMS = {
    # diffusion
    'dw_laplace': (lambda c, m, v, u: m1(m) * dot(v.g, u.g), {}),
    'dw_diffusion': (lambda c, K, v, u: bi(K, v.g, u.g), {}),
    'dw_diffusion_coupling': (lambda c, K, a, b: None, dict(by={
        'weak0': lambda c, K, q, p: p.v * dot(K, q.g), 'weak1': lambda c, K, p, q: q.v * dot(K, p.g),
        'eval': lambda c, K, q, p: p.v * dot(K, q.g)})),
    'dw_diffusion_r': (lambda c, K, q: dot(K, q.g), {}),
    'dw_advect_div_free': (lambda c, y, q, p: dot(y, p.g) * q.v, dict(at=[(('material', 'virtual', 'state'), 'grad_state')])),
    'dw_convect_v_grad_s': (lambda c, q, u, p: q.v * dot(u.v, p.g), {}),
    'dw_surface_flux': (lambda c, K, q, p: q.v * bi(K, c.n, p.g), {}),
    'ev_diffusion_velocity': (lambda c, K, p: -(K @ p.g), dict(modes=EV)),
    'ev_surface_flux': (lambda c, K, p: dot(c.n, K @ p.g), dict(modes=('eval', 'el_eval', 'el_avg'))),
    # dot products
    'dw_dot': (f_dot, dict(shapes='dot')),
    'dw_bc_newton': (lambda c, a, po, q, p: a * q.v * (p.v - po), {}),
    'dw_s_dot_mgrad_s': (None, dict(by={
        'grad_state': lambda c, y, q, p: q.v * dot(y, p.g), 'grad_virtual': lambda c, y, p, q: p.v * dot(y, q.g)})),
    'dw_v_dot_grad_s': (f_vgs, {}),
    'dw_vm_dot_s': (lambda c, m, v, p: dot(v.v, m) * p.v, {}),
    # basic
    'dw_integrate': (lambda c, m, q: m1(m) * q.v, {}),
    'dw_zero': (lambda c, q, p: 0 * q.v * p.v, {}),
    'ev_integrate': (lambda c, m, p: m1(m) * p.v, dict(modes=EV, shapes='N')),
    'ev_integrate_mat': (lambda c, m, p: m, dict(modes=EV)),
    'ev_volume': (lambda c, p: 1, dict(modes=('eval', 'el_eval'))),
    # Biot
    'dw_biot': (f_biot, {}),
    'ev_biot_stress': (lambda c, a, p: -a * p.v, dict(modes=EV)),
    # flow
    'dw_convect': (lambda c, v, u: dot(conv(u.v, u), v.v), {}),
    'dw_lin_convect': (lambda c, v, w, u: dot(conv(w.v, u), v.v), {}),
    'dw_lin_convect2': (lambda c, w, v, u: dot(conv(w, u), v.v), {}),
    'dw_div': (lambda c, m, v: m1(m) * v.div, {}),
    'dw_div_grad': (lambda c, m, v, u: m1(m) * dot(v.g, u.g), {}),
    'dw_stokes': (lambda c, m, v, p: m1(m) * p.v * v.div, {}),
    'dw_st_grad_div': (lambda c, m, v, u: m * u.div * v.div, {}),
    'dw_st_pspg_c': (lambda c, m, q, b, u: m * dot(conv(b.v, u), q.g), {}),
    'dw_st_pspg_p': (lambda c, m, q, p: m1(m) * dot(q.g, p.g), {}),
    'dw_st_supg_c': (lambda c, m, v, b, u: m * dot(conv(b.v, u), conv(b.v, v)), {}),
    'dw_st_supg_p': (lambda c, m, v, b, p: m * dot(p.g, conv(b.v, v)), {}),
    'dw_stokes_wave': (lambda c, k, v, u: dot(k, v.v) * dot(k, u.v), {}),
    'dw_stokes_wave_div': (lambda c, k, v, u: dot(k, v.v) * u.div, {}),
    'ev_div': (lambda c, m, u: m1(m) * u.div, dict(modes=EV)),
    'ev_grad': (f_grad, dict(modes=EV, shapes='N')),
    # elasticity
    'dw_lin_elastic': (lambda c, D, v, u: bi(D, v.e, u.e), {}),
    'dw_lin_elastic_iso': (f_iso, {}),
    'dw_lin_prestress': (f_prestress, {}),
    'dw_lin_strain_fib': (lambda c, D, d, v: dot(v.e, D @ outer_sym(d)), {}),
    'dw_nonsym_elastic': (lambda c, D, v, u: bi(D, v.gs, u.gs), {}),
    'dw_elastic_wave': (lambda c, D, k, v, u: bi(D, wave(k, v.v), wave(k, u.v)), {}),
    'dw_elastic_wave_cauchy': (lambda c, D, k, v, u: bi(D, wave(k, v.v), u.e), dict(matfun={'material_1': symmetric})),
    'ev_cauchy_strain': (lambda c, u: u.e, dict(modes=EV)),
    'ev_cauchy_stress': (lambda c, D, u: D @ u.e, dict(modes=EV)),
    # electric, piezo
    'dw_electric_source': (lambda c, m, s, p: m * s.v * dot(p.g, p.g), {}),
    'dw_piezo_coupling': (lambda c, g, v, p: dot(p.g, g @ v.e), {}),
    'ev_piezo_strain': (lambda c, g, u: g @ u.e, dict(modes=EV)),
    'ev_piezo_stress': (lambda c, g, p: p.g @ g, dict(modes=EV)),
    # constraints
    'dw_non_penetration': (lambda c, m, v, l: m1(m) * l.v * dot(c.n, v.v), {}),
    'dw_non_penetration_p': (lambda c, m, v, u: m * dot(c.n, v.v) * dot(c.n, u.v), {}),
    # surface
    'dw_surface_ltr': (f_ltr, dict(modes=EV2)),
    # volume
    'dw_volume_lvf': (lambda c, f, v: dot(f, v.v), {}),
}

DOT_SHAPES = [dict(opt_material='1, 1', virtual=(1, 'state'), state=1, parameter_1=1, parameter_2=1),
              dict(opt_material=None, virtual=(1, 'state'), state=1, parameter_1=1, parameter_2=1),
              dict(opt_material='1, 1', virtual=('D', 'state'), state='D', parameter_1='D', parameter_2='D'),
              dict(opt_material='D, D', virtual=('D', 'state'), state='D', parameter_1='D', parameter_2='D'),
              dict(opt_material=None, virtual=('D', 'state'), state='D', parameter_1='D', parameter_2='D'),
              dict(opt_material='1, 1', virtual=('D', None), state=1),
              dict(opt_material=None, virtual=(1, None), state='D')]

def classes():
    """Argument types and shapes as the repository declares them."""
    import sys
    if '/repo' not in sys.path:
        sys.path.insert(0, '/repo')
    from engine.vc import REPO
    import os
    import ast
    import glob
    out = {}
    for p in sorted(glob.glob(os.path.join(REPO, 'sfepy/terms/terms*.py'))):
        with open(p, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        for n in tree.body:
            if not isinstance(n, ast.ClassDef):
                continue
            d = {'bases': [b.id for b in n.bases if isinstance(b, ast.Name)], 'cls': n.name}
            for s in n.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    try:
                        d[s.targets[0].id] = ast.literal_eval(s.value)
                    except ValueError:
                        pass
            out[p, n.name] = d
            out.setdefault(n.name, d)
            d['file'] = p
    res = {}

    def get(d, k):
        if k in d:
            return d[k]
        for b in d['bases']:
            if (d['file'], b) in out or b in out:
                r = get(out.get((d['file'], b)) or out[b], k)
                if r is not None:
                    return r
        return None
    for k, d in out.items():
        if isinstance(k, tuple) and d.get('name'):
            res[d['name']] = {k: get(d, k) for k in ('arg_types', 'arg_shapes', 'modes', 'integration', 'geometries')}
    return res

TERMS = classes()

def merged(shapes):
    if not isinstance(shapes, list):
        shapes = [shapes]
    out, prev = [], {}
    for s in shapes:
        prev = {**prev, **s}
        out.append(dict(prev))
    return out

def variants(name):
    """(arg_types, mode, shapes) triples of a term."""
    t = TERMS[name]
    ats, modes = t['arg_types'], t['modes']
    if not isinstance(ats[0], tuple):
        ats = (ats,)
    o = FORMS[name][1]
    shapes = merged(t['arg_shapes'])
    if o.get('shapes') == 'dot':
        shapes = DOT_SHAPES
    res = []
    for i, at in enumerate(ats):
        m = modes[i] if modes is not None and len(modes) == len(ats) else (modes[0] if modes else None)
        for sh in shapes:
            if all(a in sh or '%s/%s' % (a, m) in sh for a in at):
                if not any(r[0] == at and r[1] == m and all(
                        r[2].get(a, r[2].get('%s/%s' % (a, m))) == sh.get(a, sh.get('%s/%s' % (a, m))) for a in at)
                        for r in res):
                    res.append((at, m, sh))
    return res

def cases():
    out = []
    for name, (form, o) in FORMS.items():
        t = TERMS[name]
        integ = t['integration'] or 'cell'
        integ = (integ,) if isinstance(integ, str) else integ
        for it in integ:
            for i, (at, m, sh) in enumerate(variants(name)):
                facet = it != 'cell'
                if name == 'dw_surface_ltr' and m == 'weak' and sh.get('opt_material') == 'D, D':
                    continue        # documented to work in the eval mode only
                mixed = name == 'dw_dot' and at[1:] == ('virtual', 'state') and sh['virtual'][1] is None
                if mixed and not facet:
                    continue
                for mesh in (('tri',) if facet else ('tri', 'quad1', 'tet1')):
                    out.append(dict(term=name, var=i, it=it, mesh=mesh))
    return out

@S.contract('table', [dict()], kind='py')
def table(W):
    tt = W.mod('sfepy.terms').term_table
    for name in sorted(TERMS):
        if name.endswith('_ad') and name.startswith('dw_'):
            continue        # need jax
        W.true('%s is registered' % name, name in tt)
        if name in tt:
            W.true('%s is a Term' % name, tt[name].name == name)

@S.contract('term', cases(), kind='py')
def term(W, term, var, it, mesh):
    form, o = FORMS[term]
    at, m, sh = variants(term)[var]
    if 'by' in o:
        form = o['by'][m]
    nshape = None
    if o.get('shapes') == 'N':
        nshape = {'parameter': 2}
    orders = None
    if mesh == 'tri' and it == 'cell':      # different spaces of the independent variables
        orders, k = {}, 0
        for a in at:
            s = sh.get(a, sh.get('%s/%s' % (a, m)))
            if a.split('_')[0] in ('virtual', 'state', 'parameter') and not (a == 'virtual' and s[1] is not None):
                orders[a] = 1 + (k % 2 if a != 'virtual' else 1)
                k += 1
    P = tl.Problem(W, term, at, sh, mode=m, mesh=mesh, region='Omega' if it == 'cell' else 'Gamma',
                   integration=it, orders=orders, nshape=nshape, matfun=o.get('matfun'),
                   where='vertices in (x < 1.9)' if it != 'cell' and mesh == 'tri' else None)
    tl.check_term(W, P, form, modes=o.get('modes', EV2))

if __name__ == '__main__':
    main(S)
