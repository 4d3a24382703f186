"""Variables: DOF data, time history, derivatives and evaluation caches."""
import itertools
from types import SimpleNamespace
import numpy as np
from engine.vc import Suite, main
from checks import felib, termlib as tl
from checks import C27 as B, C28 as M

VA, TE = 'sfepy.discrete.variables', 'sfepy.terms'
S = Suite('C31', 'variables', assumptions=[
    'the ghost state is the list of the DOF vectors of the current and the previous steps; every operation is checked '
    'from an arbitrary state and any set of quantities already evaluated (cached) in that state, so that the histories are not bounded',
    'DOF values, time steps and prescribed values are symbolic, meshes, history lengths (1, 2) and fields enumerated',
    'values in quadrature points are compared with sums over the bases of the fields (C06, C12)',
    'terms with previous values or time derivatives are compared with the terms with these vectors as the current state '
    '(their correctness: C27, C28)'], conc=1)
felib.use(S, VA, TE, 'sfepy.terms.extmods.terms', 'sfepy.discrete.conditions', 'sfepy.discrete.functions',
          'sfepy.terms.terms_basic', 'sfepy.terms.terms_dot', 'sfepy.terms.terms_diffusion', 'sfepy.terms.terms_elastic',
          'sfepy.terms.terms_navier_stokes', 'sfepy.terms.terms_biot', 'sfepy.terms.terms_piezo', 'sfepy.terms.terms_surface',
          'sfepy.terms.terms_volume', 'sfepy.terms.terms_constraints', 'sfepy.terms.terms_multilinear', 'sfepy.terms.terms_mass')

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

class Ghost:
    """The specified state of a variable with history."""
    def __init__(self, W, u, hist, step, dt):
        self.W, self.u, self.hist, self.step, self.dt = W, u, list(hist), step, dt

    def dofs(self, step):
        """The current values in place of the previous ones in the initial step."""
        if self.step == 0 and step == -1:
            step = 0
        return self.hist[-step]

    def deriv(self, step):
        a, b = self.dofs(step), self.dofs(step - 1)
        return self.W.array([(x - y) / self.dt for x, y in zip(a, b)])

    def get(self, req):
        step, der = req
        return self.dofs(step) if der is None else self.deriv(step)

    def requests(self):
        h = len(self.hist) - 1
        return [(-k, None) for k in range(h + 1)] + [(-k, 'dt') for k in range(h)]

class Evaluator:
    """Evaluate the variable in the quadrature points by the methods of sfepy and by the definition."""
    def __init__(self, W, u, regions, integral):
        self.W, self.u, self.regions, self.i = W, u, regions, integral

    def evaluate(self, req, **kw):
        step, der = req
        return [(r, m, self.u.evaluate(m, region=r, integral=self.i, integration='cell', step=step,
                                       time_derivative=der, **kw)) for r in self.regions for m in ('val', 'grad')]

    def check(self, label, req, x, **kw):
        f = self.u.field
        nc = f.n_components
        for r, m, out in self.evaluate(req, **kw):
            g = f.get_mapping(r, self.i, 'cell')[0]
            econn = f.get_econn('cell', r)
            want = tl.zeros(*out.shape)
            X = np.asarray(x, dtype=object).reshape(-1, nc)
            for c, q in np.ndindex(*out.shape[:2]):
                Xc = X[econn[c]]
                for k in range(nc):
                    if m == 'val':
                        want[c, q, k, 0] = sum(g.bf[0, q, 0, a] * Xc[a, k] for a in range(len(Xc)))
                    else:
                        for d in range(g.bfg.shape[2]):
                            want[c, q, d, k] = sum(g.bfg[c, q, d, a] * Xc[a, k] for a in range(len(Xc)))
            self.W.eqs('%s: %s in %s, step %d%s' % (label, m, r.name, req[0], ', time derivative' if req[1] else ''), out, want)

def subsets(reqs):
    return [s for k in range(len(reqs) + 1) for s in itertools.combinations(reqs, k)]

def check_all(W, label, ev, gh):
    u = ev.u
    for req in gh.requests():
        W.eqs('%s: DOFs, step %d%s' % (label, req[0], ', time derivative' if req[1] else ''),
              u(step=req[0], derivative=req[1]), gh.get(req))
        ev.check(label, req, gh.get(req))

def setup(W, history, step, kind='parameter', shape=1):
    dom = felib.domain(W, 'line' if shape == 1 else 'tri')
    omega = dom.create_region('Omega', 'all')
    sub = dom.create_region('Sub', 'cell 1')
    f = felib.field(W, omega, 1, shape)
    D = W.mod('sfepy.discrete')
    u = D.FieldVariable('u', kind, f, history=history, **(dict(primary_var_name='(set-to-None)') if kind == 'parameter' else {}))
    u.init_history()
    n = f.n_nod * f.n_components
    hist = [W.reals('x%d' % k, n) for k in range(history + 1)]
    if step == 0:       # there is no previous step yet
        hist = [hist[0]] + [hist[0].copy() for _ in range(history)]
    return SimpleNamespace(dom=dom, omega=omega, sub=sub, f=f, u=u, n=n, hist=hist, i=felib.integral(W, 1), D=D)

OPS = ['set current', 'set previous', 'set part', 'set constant', 'set function', 'set vertices', 'set qp', 'advance', 'new time step', 'nothing']

@contract('operation', [dict(op=o, history=h, step=s, kind=k) for o in OPS for h in (1, 2) for s in (0, 3)
                        for k in ('parameter', 'unknown')])
def operation(W, op, history, step, kind):
    p = setup(W, history, step, kind)
    dt = W.real('dt', pos=True)
    probe = Ghost(W, p.u, p.hist, step, dt)
    reqs = probe.requests()
    subs = subsets(reqs)
    if history == 2:
        subs = [s for s in subs if len(s) in (0, 1, len(reqs))] + [((0, None), (-2, None)), ((-1, None), (0, 'dt'))]
    for k, pre in enumerate(subs):
        u = p.u
        u.clear_evaluate_cache()
        u.step = step
        u.dt = dt
        hist = [x.copy() for x in p.hist]
        for j, x in enumerate(hist):
            u.data[j] = x.copy()
        u.indx = slice(0, p.n)
        gh = Ghost(W, u, hist, step, dt)
        ev = Evaluator(W, u, [p.omega, p.sub], p.i)
        for req in pre:
            ev.evaluate(req)
        y = W.reals('y', p.n)
        if op == 'set current':
            u.set_data(y)
            gh.hist[0] = y
        elif op == 'set previous':
            for j in range(1, history + 1):
                y = W.reals('y%d' % j, p.n)
                u.set_data(y, step=-j)
                gh.hist[j] = y
            W.true('step out of the history', all(W.raises(ValueError, u.set_data, y, None, j) for j in (1, -history - 1)))
        elif op == 'set part':
            z = W.reals('z', p.n + 3)
            u.set_data(z, indx=slice(2, 2 + p.n))
            gh.hist[0] = z[2:2 + p.n]
        elif op == 'set constant':
            a = W.real('a')
            u.set_constant(a)
            gh.hist[0] = W.array([a] * p.n)
        elif op == 'set function':
            a = W.real('a')
            u.set_from_function(lambda c: a * c + 1)
            x = felib.coors(W, 'line')
            gh.hist[0] = W.array([a * x[j, 0] + 1 for j in range(p.n)])
        elif op == 'set vertices':
            u.set_from_mesh_vertices(y.reshape(-1, 1))
            gh.hist[0] = y
        elif op == 'set qp':        # a constant is kept by the averaging
            a = W.real('a')
            q = W.array([[[[a]]], [[[a]]]])
            for j in range(history + 1):
                u.set_from_qp(q, p.i, step=-j)
                gh.hist[j] = W.array([a] * p.n)
        elif op == 'advance':
            n = step
            u.advance(SimpleNamespace(step=n))
            gh.hist = [hist[0]] + hist[:-1]
            gh.step = n + 1
            W.true('step', u.step == n + 1)
        elif op == 'new time step':
            dt2 = W.real('dt2', pos=True)
            u.time_update(SimpleNamespace(dt=dt2, step=step), None)
            gh.dt = dt2
        lab = '%s; evaluated before: %s' % (op, pre)
        if op == 'set part':
            for req in gh.requests():
                if req == (0, None):
                    W.eqs(lab + ': DOFs', u(), gh.get(req))
                    ev.check(lab, req, gh.get(req))
            continue
        check_all(W, lab, ev, gh)
        check_all(W, lab + ', again', ev, gh)
        if op == 'nothing':
            dt3 = W.real('dt3', pos=True)
            ev.check(lab + ', own time step', (0, 'dt'), Ghost(W, u, gh.hist, step, dt3).get((0, 'dt')), dt=dt3)
            if step:
                for j in range(history + 1):
                    out = u.get_state_in_region(p.sub, step=-j)
                    nods = p.f.get_dofs_in_region(p.sub, merge=True)
                    W.eqs('values in a region, step -%d' % j, out[:, 0], gh.hist[j][nods])

@contract('no history')
def no_history(W):
    p = setup(W, 1, 0)
    u = p.D.FieldVariable('w', 'unknown', p.f)
    W.true('no data', W.raises(ValueError, u))
    x = W.reals('x', p.n)
    u.set_data(x)
    W.eqs('values', u(), x)
    W.true('no time derivative', W.raises(ValueError, u, 0, 'dt'))
    W.true('wrong size', W.raises(ValueError, u.set_data, x[:-1]))
    t = p.D.FieldVariable('v', 'test', p.f, primary_var_name='w')
    W.true('test variables have no values', W.raises(ValueError, t.set_data, x))
    w = p.D.FieldVariable('r', 'unknown', p.f, history=1)
    w.init_history()
    w.set_data(x)
    w.advance(SimpleNamespace(step=0))
    W.true('the history is a copy', w.data[1] is not w.data[0])
    x0 = [a for a in x]
    x[0] = x[0] + 1
    W.eqs('current', w(), x)
    W.eqs('previous', w(step=-1), x0)

# ------------------------------------------------ collections
class State:
    def __init__(self, W, history, step):
        p = self.p = setup(W, history, step, 'unknown')
        D, self.W = p.D, W
        g = felib.field(W, p.omega, 2, 1, 'g')
        C = W.mod('sfepy.discrete.conditions')
        self.u = p.D.FieldVariable('u', 'unknown', p.f, history=history, order=0)
        self.r = p.D.FieldVariable('r', 'unknown', g, history=history, order=1)
        v = p.D.FieldVariable('v', 'test', p.f, primary_var_name='u')
        s = p.D.FieldVariable('s', 'test', g, primary_var_name='r')
        left = p.dom.create_region('L', 'vertices in x < 0.1', 'vertex')
        right = p.dom.create_region('R', 'vertices in x > 2.9', 'vertex')
        self.vs = vs = D.Variables([self.u, v, self.r, s])
        vs.setup_dof_info()
        self.a = W.real('ebc')
        M = W.mod('sfepy.discrete.functions')
        fun = M.Function('match', lambda c1, c2: (np.array([0]), np.array([0])))
        vs.equation_mapping(C.Conditions([C.EssentialBC('e', left, {'u.0': self.a})]),
                            C.Conditions([C.PeriodicBC('p', [left, right], {'r.0': 'r.0'}, match='match')]), None, M.Functions([fun]))
        self.n = vs.di.n_dof_total
        self.iu, self.ir = vs.di.indx['u'], vs.di.indx['r']
        vs.init_state(W.reals('x', self.n))
        self.left_u = self.iu.start + 0
        em = self.r.eq_map
        self.pairs = [(self.ir.start + int(i), self.ir.start + int(j)) for i, j in zip(em.master, em.slave)]
        W.true('one periodic pair', len(self.pairs) == 1)

    def constrained(self, x):
        x = x.copy()
        x[self.left_u] = self.a
        for i, j in self.pairs:
            x[i] = x[j]
        return x

VOPS = ['set_state', 'set_state ebc', 'reduced', 'reduced ebc', 'apply_ebc', 'fill_state', 'parts', 'apply_ic', 'advance', 'twice',
        'preserve', 'update dt']

@contract('state vector', [dict(op=o, history=h) for o in VOPS for h in (1, 2)])
def state_vector(W, op, history):
    """Operations on the state vector are seen by the variables and everything evaluated afterwards."""
    for step in (0, 2):
        st = State(W, history, step)
        vs, dt = st.vs, W.real('dt', pos=True)
        hist = [W.reals('x%d' % k, st.n) for k in range(history + 1)]
        if step == 0:
            hist = [hist[0]] + [hist[0].copy() for _ in range(history)]
        ghs, evs = {}, {}
        vs.vec[:] = hist[0]
        for u, ix in ((st.u, st.iu), (st.r, st.ir)):
            u.step, u.dt = step, dt
            for k in range(1, history + 1):
                u.data[k] = hist[k].copy()
            u.clear_evaluate_cache()
            ghs[u.name] = Ghost(W, u, [h[ix] for h in hist], step, dt)
            evs[u.name] = Evaluator(W, u, [st.p.omega], st.p.i)
            for req in ghs[u.name].requests():
                evs[u.name].evaluate(req)
        W.true('locked', W.raises(ValueError, st.u.set_data, hist[0][st.iu]))
        y = W.reals('y', st.n)
        cur = hist[0].copy()
        if op == 'set_state':
            vs.set_state(y.copy())
            cur = y
        elif op == 'set_state ebc':
            vs.set_state(y.copy(), apply_ebc=True)
            cur = st.constrained(y)
        elif op in ('reduced', 'reduced ebc'):
            z = W.reals('z', vs.adi.n_dof_total)
            vs.set_state(z, reduced=True, apply_ebc='ebc' in op)
            for n, u, ix in (('u', st.u, st.iu), ('r', st.r, st.ir)):
                eq = u.eq_map.eq
                for k, e in enumerate(eq):
                    if e >= 0:
                        cur[ix.start + k] = z[vs.adi.indx[n].start + int(e)]
            cur = st.constrained(cur)
            W.eqs('reduced state', vs.get_state(reduced=True), z)
        elif op == 'apply_ebc':
            vs.apply_ebc()
            cur = st.constrained(cur)
            W.true('conditions hold', bool(vs.has_ebc()))
        elif op == 'fill_state':
            a = W.real('a')
            vs.fill_state(a)
            cur = W.array([a] * st.n)
        elif op == 'parts':
            vs.set_state_parts({'r': y[st.ir]})
            cur[st.ir] = y[st.ir]
            W.eqs('part', vs.get_state_parts()['r'], y[st.ir])
            vec = y.copy()
            vs.set_state_parts({'u': cur[st.iu]}, vec)
            W.eqs('given vector', vec[st.iu], cur[st.iu])
        elif op == 'apply_ic':
            a = W.real('a')
            vs.apply_ic(force_values={'u': a, 'r': 2 * a})
            for k in range(st.n):
                cur[k] = a if st.iu.start <= k < st.iu.stop else 2 * a
        elif op == 'advance':
            vs.advance(SimpleNamespace(step=step))
            for n, ix in (('u', st.iu), ('r', st.ir)):
                ghs[n].hist = ghs[n].hist[:1] + ghs[n].hist[:-1]
                ghs[n].step = step + 1
            vs.set_state(y.copy())      # the history is not changed by the new state
            cur = y
        elif op == 'twice':
            vs.set_state(y.copy())
            for n in evs:
                for req in ghs[n].requests():
                    evs[n].evaluate(req)
            cur = W.reals('w', st.n)
            vs.set_state(cur.copy())
        elif op == 'preserve':          # the same values: the caches may be kept
            vs.set_state(cur.copy(), preserve_caches=True)
        elif op == 'update dt':
            dt2 = W.real('dt2', pos=True)
            vs.time_update(SimpleNamespace(dt=dt2, step=step), None, verbose=False)
            for n in ghs:
                ghs[n].dt = dt2
        lab = '%s, step %d' % (op, step)
        W.eqs(lab + ': state', vs(), cur)
        for n, ix in (('u', st.iu), ('r', st.ir)):
            ghs[n].hist[0] = cur[ix]
            if step == 0 and op not in ('advance',):
                ghs[n].hist[1:] = [cur[ix]] + ghs[n].hist[2:]
            W.eqs(lab + ': part ' + n, vs(n), cur[ix])
            for req in ghs[n].requests():
                if step == 0 and op != 'advance' and req == (-1, 'dt'):
                    continue
                W.eqs('%s: %s, %s' % (lab, n, req), vs[n](step=req[0], derivative=req[1]), ghs[n].get(req))
                evs[n].check(lab + ': ' + n, req, ghs[n].get(req))

# ------------------------------------------------ terms
def term_cases():
    out = []
    for mod, k in ((B, 27), (M, 28)):
        for name in mod.FORMS:
            t = B.TERMS[name]
            integ = t['integration'] or 'cell'
            it = integ if isinstance(integ, str) else integ[0]
            done = set()
            for i, (at, m, sh) in enumerate(mod.variants(name)):
                states = tuple(a for a in at if a.startswith('state'))
                if 'virtual' in at and states and (at, m) not in done:
                    if name == 'dw_surface_ltr' and sh.get('opt_material') == 'D, D':
                        continue
                    mixed = name == 'dw_dot' and at[1:] == ('virtual', 'state') and sh['virtual'][1] is None
                    if mixed and it == 'cell':
                        continue
                    done.add((at, m))
                    for s in states:
                        out.append(dict(src=k, term=name, var=i, it=it, state=s))
    return out

@contract('term', term_cases())
def term(W, src, term, var, it, state):
    """A term with a previous value or a time derivative is the term with that vector in place of the current one."""
    mod = {27: B, 28: M}[src]
    at, m, sh = mod.variants(term)[var]
    P = tl.Problem(W, term, at, sh, mode=m, mesh='tri', region='Omega' if it == 'cell' else 'Gamma', integration=it,
                   where='vertices in (x < 1.9)' if it != 'cell' else None)
    u, f, nc, x, name = P.vars[state]
    dt = W.real('dt', pos=True)
    new = W.mod('sfepy.terms.terms').Term.new
    y = W.reals('y', len(x))
    d = W.array([(a - b) / dt for a, b in zip(x, y)])
    u.history = 1
    u.data = [x, y]
    u.indx = slice(0, len(x))
    u.step, u.dt = 2, dt
    base = P.source
    args = base[base.index('(') + 1:-1].split(', ')
    ref = {}
    for key, z in (('previous', y), ('derivative', d)):
        u.clear_evaluate_cache()
        u.data = [z, z]
        t = new(base, P.integral, P.region, **P.args)
        t.setup()
        ref[key] = (t.evaluate(mode='weak')[0].copy(), t.evaluate(mode='weak', diff_var=name)[0].copy())
    u.clear_evaluate_cache()
    u.data = [x, y]
    t0 = new(base, P.integral, P.region, **P.args)
    t0.setup()
    cur = t0.evaluate(mode='weak')[0].copy()

    def alt(a):
        s = '%s(%s)' % (term, ', '.join(a if b == name else b for b in args))
        t = new(s, P.integral, P.region, **P.args)
        t.setup()
        return t
    for a, key in ((name + '[-1]', 'previous'), ('d%s/dt' % name, 'derivative')):
        t = alt(a)
        for k in range(2):
            W.eqs('residual, %s' % a, t.evaluate(mode='weak')[0], ref[key][0])
        if key == 'derivative':
            W.eqs('matrix, %s' % a, t.evaluate(mode='weak', diff_var=name)[0], ref[key][1])
        else:
            W.true('does not depend on the unknown', name not in [v.name for v in t.get_state_variables(unknown_only=True)])
    W.eqs('residual, current', t0.evaluate(mode='weak')[0], cur)

if __name__ == '__main__':
    main(S)
