"""Elastodynamic time integrators."""
import itertools
import numpy as np
from engine.vc import Suite, main
from checks import felib

TS, TC, SO, BA, SL = ('sfepy.solvers.ts', 'sfepy.solvers.ts_controllers', 'sfepy.solvers.ts_solvers', 'sfepy.base.base',
                      'sfepy.solvers.solvers')
S = Suite('C16', 'elastodynamic time integrators', assumptions=[
    'arithmetic is exact',
    'the residual, its matrix and the linear and nonlinear solvers are arbitrary: the vectors they get are recorded, '
    'the values they return are symbols',
    '2 displacement and 1 other unknowns, the integrators do not depend on their number',
    'the residual and its matrix are block diagonal in displacements, velocities and accelerations'])
felib.use(S, TS, TC, SO, BA, SL, 'sfepy.linalg.sparse', 'sfepy.discrete.equations', 'sfepy.terms.terms')

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

N = 2

class LinSolver:
    def __init__(self, W):
        self.W, self.cleared, self.calls, self.copies = W, 0, [], []
    def copy(self):
        o = LinSolver(self.W)
        self.copies.append(o)
        return o
    def clear(self):
        self.cleared += 1
    def __call__(self, rhs, x0=None, mtx=None, **kw):
        self.calls.append((rhs, mtx))
        return self.W.reals('ls%d' % len(self.calls), len(rhs))

class NLS:
    """A nonlinear solver; the functions of its copies are checked."""
    def __init__(self, W, ne=0, log=None):
        self.W, self.n, self.ne, self.pos = W, 3 * N + ne, ne, False
        self.vecs, self.mvecs, self.F, self.M = [], [], [], []
        self.lin_solver = LinSolver(W)
        self.solved = []
        self.ts = None
        self.iter_hook = self.status = self.context = None
    def copy(self):
        o = object.__new__(NLS)
        o.__dict__.update(self.__dict__)
        o.orig = self
        return o
    def fun(self, vec):
        W = self.W
        self.vecs.append(vec)
        self.F.append(W.reals('F%d' % len(self.F), self.n))
        return self.F[-1].copy()
    def fun_grad(self, vec):
        W = self.W
        self.mvecs.append(vec)
        k = len(self.M)
        n, e = N, self.ne
        m = W.np.zeros((self.n, self.n))
        m[:n + e, :n + e] = W.reals('K%d' % k, n + e, n + e, pos=self.pos)
        m[n + e:2 * n + e, n + e:2 * n + e] = W.reals('C%d' % k, n, n, pos=self.pos)
        m[2 * n + e:, 2 * n + e:] = W.reals('M%d' % k, n, n, pos=self.pos)
        self.M.append(m)
        r, c = [], []
        for a, b in ((0, n + e), (n + e, 2 * n + e), (2 * n + e, 3 * n + e)):
            i, j = np.indices((b - a, b - a))
            r += list(i.ravel() + a)
            c += list(j.ravel() + a)
        sp = self.sp
        return sp.csr_matrix((m[r, c], (np.array(r), np.array(c))), shape=(self.n, self.n))
    def __call__(self, x):
        W = self.W
        self.solved.append((self, x, self.ts.time if self.ts is not None else None))
        self.orig.sub.append((self, x.copy(), self.ts.time if self.ts is not None else None))
        k = len(self.orig.sub)
        return W.reals('sol%d' % k, len(x))

def make(W, cls, ne=0, **kw):
    """An integrator, its (un)packing functions, and the nonlinear solver."""
    m, B = W.mod(SO), W.mod(BA)
    nls = NLS(W, ne)
    nls.sub = []
    nls.sp = W.mod('sfepy.linalg.sparse').sp
    W.stub(SO, 'output', lambda *a, **k: None)
    W.stub(SO, 'output_array_stats', lambda *a, **k: None)
    conf = dict(t0=0, t1=1, n_step=3, is_linear=False, verbose=False,
                var_names={'u': 'u', 'du': 'du', 'ddu': 'ddu', 'extra': set()})
    conf.update(kw)
    nls.pos = conf['is_linear']     # the values of explicit zeros are not explored
    o = getattr(m, cls)(conf, nls=nls)
    di = B.Struct(indx={'u': slice(0, N), 'p': slice(N, N + ne), 'du': slice(N + ne, 2 * N + ne),
                        'ddu': slice(2 * N + ne, 3 * N + ne)}, n_dof={'u': N, 'p': ne, 'du': N, 'ddu': N},
                  n_dof_total=3 * N + ne)
    o.di = di
    unpack, pack = m.gen_multi_vec_packing(di, {'u': 'u', 'du': 'du', 'ddu': 'ddu'},
                                           extra_variables=o.get('extra_variables', False))
    o.unpack, o.pack = unpack, pack
    return o, nls, unpack, pack

def blocks(vec, ne=0):
    """u, e, v, a"""
    return vec[:N], vec[N:N + ne], vec[N + ne:2 * N + ne], vec[2 * N + ne:]

def cat(*a):
    return [x for b in a for x in b]

# ------------------------------------------------------------ packing
@contract('gen_multi_vec_packing', [dict(ne=e, extra=x) for e in (0, 1, 3) for x in (False, True)])
def packing(W, ne, extra):
    m, B = W.mod(SO), W.mod(BA)
    di = B.Struct(indx={'u': slice(0, N), 'w': slice(N + ne, 2 * N + ne), 'a': slice(2 * N + ne, 3 * N + ne)},
                  n_dof={'u': N, 'w': N, 'a': N}, n_dof_total=3 * N + ne)
    names = {'u': 'u', 'du': 'w', 'ddu': 'a'}
    if ne and not extra:
        W.true('extra variables are not expected', W.raises(Exception, m.gen_multi_vec_packing, di, names))
        return
    unpack, pack = m.gen_multi_vec_packing(di, names, extra_variables=extra)
    vec = W.reals('x', 3 * N + ne)
    u, e, v, a = blocks(vec, ne)
    parts = unpack(vec)
    W.true('number of parts', len(parts) == (4 if extra else 3) == unpack.n_arg == pack.n_arg)
    W.eqs('parts', cat(*parts), cat(u, e, v, a))
    W.true('sizes', [len(p) for p in parts] == ([N, ne, N, N] if extra else [N, N, N]))
    W.eqs('packing is the inverse', list(pack(*parts)), list(vec))
    if extra:
        ae = W.reals('y', N + ne)
        p = unpack(ae, mode='nls')
        W.eqs('unknowns', list(p[0]), list(ae[:N]))
        W.eqs('extra unknowns', list(p[1]), list(ae[N:]))
    W.true('number of unknowns', pack.n_uedof == N + ne)

# ------------------------------------------------------------ initial state
@contract('get_matrices', [dict(cls=c, ne=e, lin=l, up=u) for c in ('NewmarkTS', 'VelocityVerletTS') for e in (0, 1)
                           for l in (False, True) for u in (False, True) if c == 'NewmarkTS' or e == 0 if u or e == 0])
def get_matrices(W, cls, ne, lin, up):
    o, nls, unpack, pack = make(W, cls, ne, is_linear=lin)
    vec = W.reals('x', 3 * N + ne)
    for k in range(2):
        y = vec + k
        M, C, K = o.get_matrices(nls, y, unpack if up else None)
        if k == 0 or not lin:
            m = nls.M[-1]
        n = N + ne
        W.eqs('M', list(W.np.ravel(M.toarray())), list(m[n + N:, n + N:].flat))
        W.eqs('C', list(W.np.ravel(C.toarray())), list(m[n:n + N, n:n + N].flat))
        W.eqs('K', list(W.np.ravel(K.toarray())), list(m[:n, :n].flat))
        if not lin:
            W.eqs('of the current state', list(nls.mvecs[-1]), list(y))
    if lin:
        c = nls.lin_solver.cleared
        k = len(nls.M)
        o.clear_lin_solver(clear_constant_matrices=False)
        o.get_matrices(nls, None, unpack if up else None)
        W.true('constant matrices kept', len(nls.M) == k and nls.lin_solver.cleared == c + 1 and o.matrix is None)
        o.clear_lin_solver()
        o.get_matrices(nls, None, unpack if up else None)
        W.true('constant matrices computed again', len(nls.M) > k)

CLS = ('VelocityVerletTS', 'CentralDifferenceTS', 'NewmarkTS', 'GeneralizedAlphaTS', 'BatheTS')

@contract('initial acceleration', [dict(cls=c, ne=e, lin=l, start=s) for c in CLS for e in (0, 1) for l in (False, True)
                                   for s in (0, 1) if c == 'NewmarkTS' or e == 0])
def initial(W, cls, ne, lin, start):
    """M a0 + f(u0, e0, v0, 0) = 0 for the initial state modified by the user functions."""
    o, nls, unpack, pack = make(W, cls, ne, is_linear=lin)
    n = 3 * N + ne
    vecs = [W.reals(q, n) for q in ('x', 'i', 'p', 'q')]
    log = []

    def fun(name, k):
        def f(ts, vec):
            W.true('times', ts is o.ts and ts.step == start)
            log.append((name, vec.copy()))
            return vecs[k].copy()
        return f
    o.ts.set_step(start)
    out, un, pk = o.get_initial_vec(nls, vecs[0].copy(), fun('init', 1), fun('pre', 2), fun('post', 3))
    names = [q[0] for q in log]
    W.eqs('initial vector', list(log[0][1]), list(vecs[0]))
    if start:
        W.true('a restart: no initial solution', names == ['init'] and o.ts.step == start and not nls.lin_solver.calls)
        W.eqs('the state', list(out), list(vecs[1]))
        return
    W.true('functions called', names == ['init', 'pre', 'post'])
    W.eqs('after init_fun()', list(log[1][1]), list(vecs[1]))
    u, e, v, a = blocks(vecs[2], ne)
    W.eqs('residual of the state without acceleration', list(nls.vecs[0]), cat(u, e, v, [0] * N))
    rhs, mtx = nls.lin_solver.calls[0]
    W.true('one solve, then cleared', len(nls.lin_solver.calls) == 1 and nls.lin_solver.cleared == 1)
    fu, fe, fv, fa = blocks(nls.F[0], ne)
    W.eqs('right-hand side', list(rhs), list(-(fu + fv + fa)))
    W.eqs('mass matrix', list(W.np.ravel(mtx.toarray())), list(nls.M[-1][-N:, -N:].flat))
    W.eqs('matrix of this state', list(nls.mvecs[-1]), cat(u, e, v, [0] * N))
    W.eqs('the initial state', list(log[2][1]), cat(u, e, v, W.reals('ls1', N) if W.symbolic else log[2][1][-N:]))
    W.eqs('the result', list(out), list(vecs[3]))
    W.true('the first step is next', o.ts.step == 1)

# ------------------------------------------------------------ steps
class Step:
    """Record of one nonlinear problem of a step: args(x) gives the state in its residual for unknowns x."""
    def __init__(self, W, nls, sub, nx, ne):
        self.W, self.nls, self.nl = W, nls, sub[0]
        self.x0, self.time = sub[1], sub[2]
        self.nx, self.ne = nx, ne
    def args(self, x):
        self.nl.fun(x)
        return self.nls.vecs[-1]

    def check(self, lab, expected):
        """The residual for arbitrary unknowns x is the sum of those of the expected state; the matrix is its
        derivative."""
        W, nls, ne = self.W, self.nls, self.ne
        x = W.reals(lab + 'x', self.nx)
        r = self.nl.fun(x)
        W.eqs(lab + 'state', list(nls.vecs[-1]), cat(*expected(x)))
        fu, fe, fv, fa = blocks(nls.F[-1], ne)
        W.eqs(lab + 'residual', list(r), cat(fu + fv + fa, fe))
        zero = self.args(0 * x)
        cols = []
        for j in range(self.nx):
            ej = 0 * x
            ej[j] = ej[j] + 1
            cols.append(self.args(ej) - zero)
        D = W.np.stack(cols, axis=1)             # d state / d unknowns
        k = len(nls.M)
        J = self.nl.fun_grad(x)
        full = nls.M[-1]
        n = N + ne
        T = (full @ D)
        tot = W.np.concatenate([T[:N] + T[n:n + N] + T[n + N:], T[N:n]])
        W.eqs(lab + 'tangent', list(W.np.ravel(J.toarray())), list(W.np.ravel(tot)))
        if len(nls.M) > k:
            if nls.mvecs[-1] is not None:
                W.eqs(lab + 'tangent state', list(nls.mvecs[-1]), cat(*expected(x)))
        return len(nls.M) > k

def setup_step(W, cls, ne, lin, **kw):
    o, nls, unpack, pack = make(W, cls, ne, is_linear=lin, **kw)
    ts = W.mod(TS).TimeStepper(0, 1, n_step=3)
    t, dt = W.real('t'), W.real('dt', pos=True)
    ts.step, ts.time, ts.dt = 1, t, dt
    nls.ts = ts
    o.ts = ts
    vec = W.reals('q', 3 * N + ne)
    if lin:         # as computed with the initial acceleration
        o.get_matrices(nls, vec, unpack)
    return o, nls, unpack, pack, ts, t, dt, vec

def lin_cases(*cls):
    return [dict(cls=c, lin=l) for c in cls for l in (False, True)]

def solution(W, out, k):
    return W.reals('sol%d' % k, N) if W.symbolic else None

def finish(W, ts, t):
    W.eq('time restored', ts.time, t)
    W.true('step', ts.step == 1)

@contract('step', lin_cases('VelocityVerletTS', 'CentralDifferenceTS'))
def step_explicit(W, cls, lin):
    """u1 = u0 + dt v0 + dt^2/2 a0, v1 = v0 + dt/2 (a0 + a1)."""
    o, nls, unpack, pack, ts, t, dt, vec = setup_step(W, cls, 0, lin)
    u0, _, v0, a0 = blocks(vec)
    out = o.step(ts, vec.copy(), nls, pack, unpack, prestep_fun=None)
    W.true('one nonlinear problem', len(nls.sub) == 1)
    st = Step(W, nls, nls.sub[0], N, 0)
    W.eq('time of the solution', st.time, t)
    u1, _, v1, a1 = blocks(out)
    if W.symbolic:
        W.eqs('acceleration', list(a1), list(solution(W, out, 1)))
    W.eqs('displacement', list(u1), list(u0 + dt * v0 + dt * dt / 2 * a0))
    W.eqs('velocity', list(v1), list(v0 + dt / 2 * (a0 + a1)))
    if cls == 'VelocityVerletTS':       # the mid-step velocity in the residual
        st.check('', lambda x: (u0 + dt * v0 + dt * dt / 2 * a0, v0 + dt / 2 * a0, x))
    else:
        st.check('', lambda x: (u0 + dt * v0 + dt * dt / 2 * a0, v0 + dt / 2 * (a0 + x), x))
    finish(W, ts, t)

@contract('CentralDifferenceTS with RMMSolver')
def step_rmm(W):
    """a1 = - M^-1 f(u1, 0, 0), M^-1 is in the linear solver."""
    o, nls, unpack, pack, ts, t, dt, vec = setup_step(W, 'CentralDifferenceTS', 0, True)
    m = W.mod(SO)
    calls = []
    ret = W.reals('a1', N)

    class Rmm(m.RMMSolver):
        def __init__(self):
            pass
        def __call__(self, rhs, **kw):
            calls.append(rhs)
            return ret
    nls.lin_solver = Rmm()
    u0, _, v0, a0 = blocks(vec)
    out = o.step(ts, vec.copy(), nls, pack, unpack, prestep_fun=None)
    u1, _, v1, a1 = blocks(out)
    W.eqs('acceleration', list(a1), list(ret))
    W.eqs('displacement', list(u1), list(u0 + dt * v0 + dt * dt / 2 * a0))
    W.eqs('velocity', list(v1), list(v0 + dt / 2 * (a0 + a1)))
    W.true('one solve', len(calls) == 1)
    W.eqs('forces', list(calls[0]), list(-nls.F[-1][:N]))
    W.eqs('state', list(nls.vecs[-1]), cat(u1, [0] * 2 * N))

@contract('NewmarkTS step', [dict(ne=e, lin=l) for e in (0, 1) for l in (False, True)])
def step_newmark(W, ne, lin):
    g, b = W.real('gamma'), W.real('beta')
    o, nls, unpack, pack, ts, t, dt, vec = setup_step(W, 'NewmarkTS', ne, lin, gamma=g, beta=b)
    u0, e0, v0, a0 = blocks(vec, ne)
    out = o.step(ts, vec.copy(), nls, pack, unpack, prestep_fun=None)
    u1, e1, v1, a1 = blocks(out, ne)
    W.true('one nonlinear problem', len(nls.sub) == 1)
    st = Step(W, nls, nls.sub[0], N + ne, ne)
    W.eqs('starts from the last state', list(st.x0), cat(a0, e0))
    if W.symbolic:
        W.eqs('acceleration and extra variables', cat(a1, e1), list(W.reals('sol1', N + ne)))
    h = W.frac(1, 2)
    fu = lambda a: u0 + dt * v0 + dt * dt * ((h - b) * a0 + b * a)
    fv = lambda a: v0 + dt * ((1 - g) * a0 + g * a)
    W.eqs('displacement', list(u1), list(fu(a1)))
    W.eqs('velocity', list(v1), list(fv(a1)))
    st.check('', lambda x: (fu(x[:N]), x[N:], fv(x[:N]), x[:N]))
    W.eq('time of the solution', st.time, t)
    finish(W, ts, t)

@contract('GeneralizedAlphaTS parameters', [dict(given=g) for g in itertools.product((False, True), repeat=4)])
def ga_parameters(W, given):
    r = W.real('rho', 0, 1)
    names = ('alpha_m', 'alpha_f', 'beta', 'gamma')
    vals = dict(zip(names, [W.real(n) for n in names]))
    o = make(W, 'GeneralizedAlphaTS', rho_inf=r, **{n: vals[n] for n, g in zip(names, given) if g})[0]
    am, af, ga, be = o.pars
    s = [vals['alpha_m'] if given[0] else (2 * r - 1) / (r + 1), vals['alpha_f'] if given[1] else r / (r + 1)]
    W.eqs('alpha', [am, af], s)
    W.eq('gamma', ga, vals['gamma'] if given[3] else W.frac(1, 2) - am + af)
    W.eq('beta', be, vals['beta'] if given[2] else (1 - am + af) * (1 - am + af) / 4)

@contract('GeneralizedAlphaTS step', [dict(lin=l) for l in (False, True)])
def step_ga(W, lin):
    p = dict(alpha_m=W.real('am'), alpha_f=W.real('af'), beta=W.real('beta'), gamma=W.real('gamma'))
    am, af, b, g = p['alpha_m'], p['alpha_f'], p['beta'], p['gamma']
    o, nls, unpack, pack, ts, t, dt, vec = setup_step(W, 'GeneralizedAlphaTS', 0, lin, **p)
    u0, _, v0, a0 = blocks(vec)
    out = o.step(ts, vec.copy(), nls, pack, unpack, prestep_fun=None)
    u1, _, v1, a1 = blocks(out)
    W.true('one nonlinear problem', len(nls.sub) == 1)
    st = Step(W, nls, nls.sub[0], N, 0)
    if W.symbolic:
        W.eqs('acceleration', list(a1), list(solution(W, out, 1)))
    h = W.frac(1, 2)
    fu = lambda a: u0 + dt * v0 + dt * dt * ((h - b) * a0 + b * a)
    fv = lambda a: v0 + dt * ((1 - g) * a0 + g * a)
    W.eqs('displacement', list(u1), list(fu(a1)))
    W.eqs('velocity', list(v1), list(fv(a1)))
    st.check('', lambda x: ((1 - af) * fu(x) + af * u0, (1 - af) * fv(x) + af * v0, (1 - am) * x + am * a0))
    W.eq('time of the solution', st.time, t - af * dt)
    finish(W, ts, t)

@contract('BatheTS step', [dict(lin=l) for l in (False, True)])
def step_bathe(W, lin):
    o, nls, unpack, pack, ts, t, dt, vec = setup_step(W, 'BatheTS', 0, lin)
    pre = []
    mod = W.reals('bc', 3 * N)

    def prestep(ts, v):
        pre.append((ts.time, v.copy()))
        return mod.copy() if len(pre) == 1 else v
    out = o.step(ts, vec.copy(), nls, pack, unpack, prestep_fun=prestep)
    W.eqs('times of the sub-steps', [q[0] for q in pre], [t - dt / 2, t])
    W.eqs('state before', list(pre[0][1]), list(vec))
    u0, _, v0, a0 = blocks(mod)
    W.true('two nonlinear problems', len(nls.sub) == 2)
    s1, s2 = [Step(W, nls, q, N, 0) for q in nls.sub]
    W.eqs('times of the solutions', [s1.time, s2.time], [t - dt / 2, t])
    W.true('different linear solvers', s1.nl.lin_solver is not s2.nl.lin_solver)
    um, _, vm, am = blocks(pre[1][1])
    u1, _, v1, a1 = blocks(out)
    if W.symbolic:
        W.eqs('displacements', cat(um, u1), cat(solution(W, out, 1), solution(W, out, 2)))
    # the trapezoidal rule
    W.eqs('first: displacement', list(um - u0), list(dt / 4 * (v0 + vm)))
    W.eqs('first: velocity', list(vm - v0), list(dt / 4 * (a0 + am)))
    # the three-point backward rule
    W.eqs('second: velocity', list(v1 * dt), list(u0 - 4 * um + 3 * u1))
    W.eqs('second: acceleration', list(a1 * dt), list(v0 - 4 * vm + 3 * v1))

    def first(x):
        v = 4 / dt * (x - u0) - v0
        return x, v, 4 / dt * (v - v0) - a0

    def second(x):
        v = (u0 - 4 * um + 3 * x) / dt
        return x, v, (v0 - 4 * vm + 3 * v) / dt
    s1.check('first: ', first)
    s2.check('second: ', second)
    finish(W, ts, t)

# ------------------------------------------------------------ time stepping
def loop_setup(W, cls, tsc, n_step, lin=True, htd=False):
    m, TCm = W.mod(SO), W.mod(TC)
    o, nls, unpack, pack = make(W, cls, n_step=n_step, is_linear=lin, has_time_derivatives=htd)
    o.tsc = tsc(W)
    T = W.mod(TS)
    if not isinstance(o.tsc, TCm.FixedTSC):
        o.ts = T.VariableTimeStepper(0, 1, n_step=n_step)
    return o, nls

@contract('ElastodynamicsBaseTS.__call__ fixed step', [dict(n=n, start=s) for n in (2, 3, 5) for s in range(1, n)])
def loop_fixed(W, n, start):
    """Each step starts from the state after the last one, modified by the user functions."""
    o, nls = loop_setup(W, 'VelocityVerletTS', lambda W: W.mod(TC).FixedTSC({}), n)
    ts = o.ts
    log = []
    st = [0]

    def fresh():
        st[0] += 1
        return W.reals('s%d' % st[0], 3 * N)

    def user(name):
        def f(ts_, vec):
            r = fresh()
            log.append((name, ts_.step, ts_.time, vec.copy(), r))
            return r.copy()
        return f
    def step(self, ts_, vec, nls_, pack, unpack, prestep_fun=None):
        r = fresh()
        log.append(('step', ts_.step, ts_.time, vec.copy(), r))
        return r.copy()
    W.stub(SO, 'VelocityVerletTS.step', step)
    x = W.reals('x', 3 * N)
    ts.set_step(start)
    out = o(vec0=x.copy(), nls=nls, init_fun=user('init'), prestep_fun=user('pre'), poststep_fun=user('post'))
    exp = [('init', start)]
    for k in range(start, n):
        exp += [('pre', k), ('step', k), ('post', k)]
    W.true('order of steps', [q[:2] for q in log] == exp)
    last = x
    for k, q in enumerate(log):
        W.eqs('argument of %s() %d' % (q[0], k), list(q[3]), list(last))
        W.eq('time', q[2], W.frac(q[1], n - 1))
        last = q[4]
    W.eqs('the last state is returned', list(out), list(last))
    W.true('the last step', ts.step == n - 1)

SCRIPTS = ('a', 'aa', 'ra', 'ara', 'rra', 'arra', 'raaa')

@contract('ElastodynamicsBaseTS.__call__ adaptive step', [dict(cls=c, script=s, same=q, htd=h) for s in SCRIPTS
                                                          for c in ('NewmarkTS', 'BatheTS') for q in (False, True)
                                                          for h in (False, True)])
def loop_adaptive(W, cls, script, same, htd):
    """Rejected steps are repeated from the same state; matrices depending on the time step are dropped when it
    changes."""
    B = W.mod(BA)
    ctl = []
    first = W.real('d0', W.frac(1, 1000), W.frac(1, 100))
    dts = [first if same else W.real('d%d' % (k + 1), W.frac(1, 1000), W.frac(1, 100)) for k in range(len(script))]

    class Tsc:
        def get_initial_dt(self, ts, vec, unpack=None):
            return first
        def __call__(self, ts, vec, vect, unpack=None):
            k = len(ctl)
            ctl.append((ts.time, ts.dt, vec.copy(), vect.copy()))
            # far enough: the last accepted step ends the solution
            return dts[k], B.Struct(result='accept' if script[k] == 'a' else 'reject')
    o, nls = loop_setup(W, cls, lambda W: Tsc(), 4, htd=htd)
    ts = o.ts
    log, st = [], [0]

    def fresh(n=None):
        st[0] += 1
        return W.reals('s%d' % st[0], 3 * N)

    def user(name):
        def f(ts_, vec):
            r = fresh()
            log.append((name, ts_.step, ts_.time, ts_.dt, vec.copy(), r, o.matrix, o.constant_matrices))
            if name == 'post' and sum(q[0] == 'post' for q in log) == script.count('a') + 1:
                ts_.nt = 1              # the end
            return r.copy()
        return f

    def step(self, ts_, vec, nls_, pack, unpack, prestep_fun=None):
        r = fresh()
        log.append(('step', ts_.step, ts_.time, ts_.dt, vec.copy(), r, o.matrix, o.constant_matrices))
        o.matrix, o.constant_matrices = 'matrix', 'constant'
        return r.copy()
    W.stub(SO, cls + '.step', step)
    o.matrix = 'old'
    x = W.reals('x', 3 * N)
    out = o(vec0=x.copy(), nls=nls, init_fun=lambda ts, v: v, prestep_fun=user('pre'), poststep_fun=user('post'))
    W.true('order', [q[0] for q in log] == ['pre', 'post'] + [a for c in script for a in
                                                              (('pre', 'step', 'post') if c == 'a' else ('pre', 'step'))])
    body = log[2:]
    t, dt, k, last, i = 0 * first, first, 1, log[1][5], 0
    for c in script:
        pre, stp = body[i], body[i + 1]
        i += 2
        W.true('step number', pre[1] == stp[1] == k)
        for q in (pre, stp):
            W.eqs('time and step size', [q[2], q[3]], [t + dt, dt])
        W.eqs('state before the step', list(pre[4]), list(last))
        W.eqs('modified by prestep_fun()', list(stp[4]), list(pre[5]))
        a = ctl[script_pos(body, i, ctl)]
        W.eqs('states given to the controller', list(a[2]) + list(a[3]), list(pre[5]) + list(stp[5]))
        new = dts[len([q for q in body[:i] if q[0] == 'step']) - 1]
        changed = bool(new != dt)
        nxt = body[i] if i < len(body) else None
        if nxt is not None:
            W.true('matrices for the step size', nxt[6] == (None if changed else 'matrix'))
            W.true('constant matrices', nxt[7] == (None if changed and htd else 'constant'))
        if c == 'a':
            post = body[i]
            i += 1
            W.eqs('accepted state', list(post[4]), list(stp[5]))
            W.eqs('at time', [post[2]], [t + dt])
            last, t, k = post[5], t + dt, k + 1
        else:
            last = pre[5]               # the state before the rejected step
        dt = new
    W.eqs('the last accepted state', list(out), list(last))

def script_pos(body, i, ctl):
    return len([q for q in body[:i] if q[0] == 'step']) - 1

# ------------------------------------------------------------ transformed equations
EQS = [
    ('mass and stiffness', {'1': 'dw_dot.i.Omega(m.rho, v, ddu) + dw_lin_elastic.i.Omega(m.D, v, u) = 0'},
     dict(M=[(1, 'dw_dot', 'm.rho,ddv,ddu')], C=[(0, 'dw_zero', 'dv,du')], K=[(1, 'dw_lin_elastic', 'm.D,v,u')]), {'p': 0}),
    ('coefficients', {'1': '-2.0 * dw_dot.i.Omega(m.rho, v, ddu) + 0.5 * dw_dot.i.Omega(m.c, v, du)'
                           ' - 3.0 * dw_lin_elastic.i.Omega(m.D, v, u) = - 5.0 * dw_dot.i2.Omega(m.c, v, ddu)'},
     dict(M=[(-2, 'dw_dot', 'm.rho,ddv,ddu'), (5, 'dw_dot', 'm.c,ddv,ddu')], C=[(0.5, 'dw_dot', 'm.c,dv,du')],
          K=[(-3, 'dw_lin_elastic', 'm.D,v,u')]), {'p': 0}),
    ('no material', {'1': 'dw_dot.i.Omega(v, ddu) + 4.0 * dw_dot.i.Omega(v, du) + dw_dot.i.Omega(v, u) = 0'},
     dict(M=[(1, 'dw_dot', 'ddv,ddu')], C=[(4, 'dw_dot', 'dv,du')], K=[(1, 'dw_dot', 'v,u')]), {'p': 0}),
    ('coupled', {'1': 'dw_dot.i.Omega(m.rho, v, ddu) + dw_lin_elastic.i.Omega(m.D, v, u) - dw_biot.i.Omega(m.a, v, p) = 0',
                 '2': 'dw_laplace.i.Omega(q, p) + 7.0 * dw_convect_v_grad_s.i.Omega(q, u, p) = 0'},
     dict(M=[(1, 'dw_dot', 'm.rho,ddv,ddu')], C=[(0, 'dw_zero', 'dv,du')],
          K=[(1, 'dw_lin_elastic', 'm.D,v,u'), (-1, 'dw_biot', 'm.a,v,p'), (1, 'dw_laplace', 'q,p'),
             (7, 'dw_convect_v_grad_s', 'q,u,p')]), {'p': 1}),
]

@contract('transform_equations_ed', [dict(name=e[0], i=i) for i, e in enumerate(EQS)])
def transform(W, name, i):
    """Every term is in exactly one of the new equations, with its coefficient, integral, region and material; second
    derivatives of u become ddu tested by ddv, first derivatives du tested by dv."""
    _, conf, exp, extra = EQS[i]
    D, B = W.mod('sfepy.discrete'), W.mod(BA)
    dom = felib.domain(W, 'quad1')
    om = dom.create_region('Omega', 'all')
    fu, fp = felib.field(W, om, shape=2, name='fu'), felib.field(W, om, shape=1, name='fp')
    vs = [D.FieldVariable('u', 'unknown', fu, order=0), D.FieldVariable('v', 'test', fu, primary_var_name='u')]
    if extra['p']:
        vs += [D.FieldVariable('p', 'unknown', fp, order=1), D.FieldVariable('q', 'test', fp, primary_var_name='p')]
    E = W.mod('sfepy.discrete.equations')
    mats = D.Materials([D.Material('m', rho=2.0, c=3.0, a=1.0, D=np.eye(3))])
    eqs = E.Equations.from_conf(conf, D.Variables(vs), dom.regions, mats,
                                D.Integrals([D.Integral('i', order=2), D.Integral('i2', order=3)]), user={},
                                allow_derivatives=True)
    new, names = W.mod(SO).transform_equations_ed(eqs, mats)
    W.true('variables', {k: names[k] for k in ('u', 'du', 'ddu')} == {'u': 'u', 'du': 'du', 'ddu': 'ddu'}
           and names['extra'] == ({'p'} if extra['p'] else set()))
    got = {eq.name: [(t.sign, t.name, t.arg_str.replace(' ', ''), t.integral.order, t.region.name) for t in eq.terms]
           for eq in new}
    W.true('equations', sorted(got) == ['C', 'K', 'M'])
    for k in 'MCK':
        W.true('terms of ' + k, [q[1:3] for q in got[k]] == [q[1:] for q in exp[k]])
        for a, b in zip(got[k], exp[k]):
            if a[1] != 'dw_zero':
                W.eq('coefficient of %s' % a[2], a[0], b[0])
            W.true('integral and region', a[3] == (3 if b[0] == 5 else 2) and a[4] == 'Omega')
    var = new.variables
    W.true('orders', [var[n]._order for n in ('u', 'du', 'ddu')] == [0, 1 + extra['p'], 2 + extra['p']]
           and (not extra['p'] or var['p']._order == 1))
    W.true('the same field', all(var[n].field is fu for n in ('du', 'ddu', 'dv', 'ddv')))
    W.true('pairs', var['dv'].primary_var_name == 'du' and var['ddv'].primary_var_name == 'ddu')
    W.true('layout', list(var.di.var_names) == ['u'] + ['p'] * extra['p'] + ['du', 'ddu'])

if __name__ == '__main__':
    main(S)
