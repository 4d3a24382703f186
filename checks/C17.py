"""Nonlinear solvers: convergence test, line searches, Newton iterations."""
import itertools
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from checks import felib

NL, SM, BA, TI = 'sfepy.solvers.nls', 'sfepy.solvers.semismooth_newton', 'sfepy.base.base', 'sfepy.base.timing'
S = Suite('C17', 'nonlinear solvers', assumptions=[
    'arithmetic is exact; the residual norm is a finite number',
    'the residual, tangent matrix, linear solver, scaling and hook functions are arbitrary: each call returns new values '
    'or raises ValueError as scripted by the case',
    'semi-smooth Newton: the generalized Jacobian rows where both complementary functions vanish are not covered',
    'residuals have two components in a fixed ratio, so that their norms are arbitrary non-negative numbers',
    'line searches are explored up to 3 trial steps, Newton iterations up to 4; each trial or iteration starts from an '
    'arbitrary state of the previous one'])
felib.use(S, NL, SM, BA, TI, terms=False)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

def quiet(W):
    for m in (NL, SM):
        W.stub(m, 'output', lambda *a, **k: None)

def vec(W, e):
    return W.array([3 * e, 4 * e])

# ------------------------------------------------------------ convergence test
@contract('conv_test', [dict(it=it, mode=m, tiny=t) for it in (0, 1, 5) for m in ('and', 'or', None)
                        for t in (False, True)])
def conv_test(W, it, mode, tiny):
    quiet(W)
    B = W.mod(BA)
    meps = W.real('macheps', pos=True)
    err, ea, er = W.real('err', 0), W.real('eps_a', 0), W.real('eps_r', 0)
    err0 = meps * W.real('q0', 0, W.frac(1, 2)) if tiny else meps * (1 + W.real('q0', 0))
    imax = W.size('i_max', 0)
    conf = B.Struct(eps_a=ea, eps_r=er, macheps=meps, i_max=imax)
    if mode:
        conf.eps_mode = mode
    c = W.mod(NL).conv_test(conf, it, err, err0)
    a = bool(err <= ea)
    r = True if tiny else bool(err <= er * err0)
    ok = a if it == 0 else ((a or r) if mode == 'or' else (a and r))
    W.true('0 iff the tolerances are met', (c == 0) == ok)
    if not ok:
        W.true('1 iff the iteration limit is reached', (c == 1) == bool(it >= imax))
        W.true('otherwise -1', c in (-1, 1))

# ------------------------------------------------------------ line search
class Fun:
    """A residual function returning arbitrary values; `script` tells which calls fail."""
    def __init__(self, W, script='', name='e'):
        self.W, self.script, self.name = W, script, name
        self.xs, self.rs, self.es = [], [], []
    def __call__(self, x):
        W, k = self.W, len(self.xs)
        self.xs.append(x.copy())
        if k < len(self.script) and self.script[k] == 'f':
            self.rs.append(None)
            self.es.append(None)
            raise ValueError('warp violation')
        e = W.real('%s%d' % (self.name, k), 0)
        self.es.append(5 * e)
        self.rs.append(vec(W, e))
        return self.rs[-1].copy()

def ls_conf(W, mode='residual', warp=False, on=None):
    B = W.mod(BA)
    return B.Struct(ls_mode=mode, ls_on=W.real('ls_on', pos=True) if on is None else on, ls_red=W.frac(1, 10),
                    ls_red_warp=W.frac(1, 20), ls_min=W.frac(1, 50), give_up_warp=warp)

def timers(W):
    return W.mod(TI).Timers(['residual', 'matrix', 'solve'])

@contract('apply_line_search_bt', [dict(it=it, mode=m, script=s, warp=w)
                                   for it in (0, 1, 3) for m in ('residual', 'error')
                                   for s in ('', 'f', 'ff', '.f', 'f.', '..f') for w in (False, True)
                                   if (s == '' and not w) or (s and m == 'residual')])
def line_search(W, it, mode, script, warp):
    quiet(W)
    m = W.mod(NL)
    conf = ls_conf(W, mode, warp)
    x0, r0 = W.reals('x0', 2), W.reals('r0', 2)
    d0 = W.real('d', pos=True)
    dx0 = vec(W, d0)
    last = W.real('err_last', 0)
    fun = Fun(W, script)
    resolved = []

    def solve(r, resolve=False):
        W.true('resolved with the same matrix', resolve is True)
        W.eqs('resolved residual', list(r), list(fun.rs[-1]))
        d = W.real('s%d' % len(resolved), 0)
        resolved.append(5 * d)
        return vec(W, d)
    logged = []
    args = (x0, r0, dx0, it, last, conf, fun, solve, timers(W))
    kw = dict(log=lambda e, i: logged.append((e, i)))
    raised = False
    try:
        x, r, err, ok = m.apply_line_search_bt(*args, **kw)
    except ValueError:
        raised = True
    # the trial steps
    ls, steps = Fraction(1), []
    for k in range(len(fun.xs)):
        steps.append(ls)
        f = fun.rs[k] is None
        W.eqs('trial %d' % k, list(fun.xs[k]), list(x0 - dx0 * W.frac(ls.numerator, ls.denominator)))
        ls = ls * (Fraction(1, 20) if f else Fraction(1, 10))
    n = len(steps)

    def accepted(k):
        if fun.rs[k] is None:
            return False
        if it == 0:
            return True
        if mode == 'residual':
            return bool(fun.es[k] < last * conf.ls_on)
        return bool(resolved[k] < 5 * d0 * conf.ls_on)
    for k in range(n - 1):
        W.true('trial %d was not acceptable' % k, not accepted(k))
        W.true('no smaller step than allowed', steps[k] >= Fraction(1, 50))
    if raised:
        W.true('raised only for a failed residual', fun.rs[-1] is None)
        W.true('raised only in the first iteration or with the smallest step', it == 0 or steps[-1] < Fraction(1, 50))
        return
    if ok:
        W.eqs('residual of the returned state', list(r), list(fun.rs[-1]))
        W.eqs('returned state', list(x), list(fun.xs[-1]))
        W.eq('error is the residual norm', err, fun.es[-1])
        W.true('accepted, or the smallest step', accepted(n - 1) or steps[-1] < Fraction(1, 50))
    else:
        W.true('not ok only when giving up', warp and fun.rs[-1] is None and it > 0)
        W.eqs('the last accepted state', list(x), list(x0))
        W.eqs('the last accepted residual', list(r), list(r0))
        W.eq('the last accepted error', err, last)
    good = [k for k in range(n) if fun.rs[k] is not None]
    W.true('logged', [i for _, i in logged] == [it] * len(good))
    W.eqs('logged errors', [e for e, _ in logged], [fun.es[k] for k in good])

@contract('apply_line_search_bt ls_mode')
def line_search_mode(W):
    quiet(W)
    conf = ls_conf(W, 'other')
    x0, dx0 = W.reals('x0', 2), W.reals('dx', 2)
    W.true('unknown mode', W.raises(ValueError, W.mod(NL).apply_line_search_bt, x0, None, dx0, 1, W.real('l', 0), conf,
                                    Fun(W), None, timers(W)))

@contract('apply_line_search_ainc', [dict(it=it, s=s) for it in (0, 1, 4) for s in (-1, 0, 1)])
def ainc(W, it, s):
    """alpha solves G alpha^2 / 2 + alpha - 1 = 0, G = ls_red |r . dx|^(1/2)."""
    quiet(W)
    m = W.mod(NL)
    conf = ls_conf(W)
    g = W.real('g', pos=True)
    a = W.real('a', pos=True)
    r0, dx0 = W.array([a, 0]), W.array([s * g * g / a, W.real('b')])
    x0 = W.reals('x0', 2)
    got = []

    def bt(x, r, d, it_, last, conf_, fun, solve, tm, log=None, context=None):
        got.append(list(d))
        W.true('arguments', x is x0 and r is r0 and it_ == it and conf_ is conf and fun == 'fun' and solve == 'solve'
               and tm == 'timers' and log == 'log' and context == 'context' and last == 7)
        return 'out'
    W.stub(NL, 'apply_line_search_bt', bt)
    out = m.apply_line_search_ainc(x0, r0, dx0, it, 7, conf, 'fun', 'solve', 'timers', log='log', context='context')
    W.true('result', out == 'out' and len(got) == 1)
    d = got[0]
    if it == 0 or s < 0:
        W.eqs('full step', d, list(dx0))
    elif s == 0:
        W.eqs('no decrease predicted', d, [0, 0])
    else:
        al = d[0] / dx0[0]
        W.eqs('direction kept', d, [al * dx0[0], al * dx0[1]])
        G = conf.ls_red * g
        W.eq('step size', G * al * al / 2 + al, 1)
        W.lt('positive', 0, al)

# ------------------------------------------------------------ linear solver call
@contract('Newton._apply_lin_solver', [dict(resolve=r, prec=p, tol=t, red=d, scaled=s)
                                       for r in (False, True) for p in (False, True)
                                       for t in ((None, None), ('a', None), (None, 'r'), ('a', 'r'))
                                       for d in (False, True) for s in (None, False, True)])
def lin_solver(W, resolve, prec, tol, red, scaled):
    m, B = W.mod(NL), W.mod(BA)
    outs = []
    W.stub(NL, 'output', lambda *a, **k: outs.append(str(a[0])))
    ea, er = (W.real('ls_eps_a', pos=True) if tol[0] else None), (W.real('ls_eps_r', pos=True) if tol[1] else None)
    p, err, eps = W.real('lin_precision', pos=True), W.real('err', 0), W.real('eps_a', pos=True)
    lr = W.real('lin_red', pos=True)
    A, r, x, sol = W.reals('A', 2, 2), W.reals('r', 2), W.reals('x', 2), W.reals('sol', 2)
    cs, ct = W.real('cs', nonzero=True), W.real('ct', nonzero=True)
    # make the linear system error an arbitrary number with a computable norm
    e = W.real('e', 0)
    status = {}
    calls = []

    class LS:
        mtx = None
        def get_tolerance(self):
            return ea, er
        def __call__(self, rhs, x0=None, eps_a=None, eps_r=None, mtx=None, status=None):
            calls.append((rhs, x0, eps_a, eps_r, mtx, status))
            return sol
    ls = LS()
    sA = cs * A
    ls.mtx = sA if resolve else None
    conf = B.Struct(lin_red=lr if red else None, eps_a=eps, lin_precision=p if prec else None, verbose=False,
                    scaled_error=scaled is True,
                    scale_system_fun=None if scaled is None else
                    (lambda mtx, rhs, x0, context: (None if mtx is None else cs * mtx, cs * rhs, x0 / ct)),
                    scale_solution_fun=None if scaled is None else (lambda v, context: ct * v))
    if scaled is None:
        sA = A
        ls.mtx = A if resolve else None
    nw = object.__new__(m.Newton)
    nw.context = 'ctx'
    # the residual of the linear system
    sc = scaled is True
    if scaled is None:
        r = A @ sol - vec(W, e)
    elif sc:
        r = (cs * A @ sol - vec(W, e)) / cs
    else:
        r = ct * (A @ sol) - vec(W, e)
    dx = nw._apply_lin_solver(r, A, x, ls, status, err, conf, timers(W), resolve=resolve)
    rhs, x0, a_, r_, mtx, st = calls[0]
    W.true('one solve', len(calls) == 1 and st is status)
    W.eqs('right-hand side', list(rhs), list(r if scaled is None else cs * r))
    W.eqs('initial guess', list(x0), list(x if scaled is None else x / ct))
    if resolve:
        W.true('the matrix is reused', mtx is None)
    else:
        W.eqs('matrix', list(mtx.flat), list(sA.flat))
        W.true('the matrix is kept', ls.mtx is mtx)
    W.eqs('solution', list(dx), list(sol if scaled is None else ct * sol))

    def mx(u, v):
        return u if u >= v else v
    qa, qr = 1 if ea is None else ea, 1 if er is None else er
    lim = eps * lr
    if prec:
        if ea is not None:
            qa = mx(err * p, ea)
        elif er is not None:
            qr = mx(p, er)
        lim = mx(qa, err * qr)
    W.eqs('tolerances', [a_, r_], [qa, qr])
    warned = any('precision is lower' in o for o in outs)
    if red:
        W.true('warned iff not solved', warned == bool(5 * e > lim))
    else:
        W.true('no check', not warned)

# ------------------------------------------------------------ Newton iterations
def newton_conf(W, cls='Newton', **kw):
    d = dict(name='nls', kind='nls.newton', i_max=9, verbose=False, report_status=False)
    d.update(kw)
    return d

@contract('Newton.__call__', [dict(n=n, end=e, lin=l, jac=j, given=g) for n in (0, 1, 2, 4) for e in (0, 1, 2)
                              for l in (False, True) for j in (None, 'never', 'alternate') for g in (False, True)
                              if not (l and j) and (e < 2 or n > 0)])
def newton(W, n, end, lin, jac, given):
    """Every iteration for arbitrary outcomes of the line search, the convergence test and the linear solver; the test
    stops after n iterations."""
    quiet(W)
    m = W.mod(NL)
    hooks, searches, tests, grads, solves, jacs = [], [], [], [], [], []
    x0 = W.reals('x0', 2)
    red = W.real('step_red', pos=True)
    X = [W.reals('x%d' % k, 2) for k in range(n + 1)]
    Rr = [W.reals('r%d' % k, 2) for k in range(n + 1)]
    E = [W.real('e%d' % k, 0) for k in range(n + 1)]
    D = [W.reals('d%d' % k, 2) for k in range(n + 1)]
    M = [W.reals('m%d' % k, 2, 2) for k in range(n + 1)]

    def search(vx, vr, vdx, it, last, conf, fun, solve, tm, log=None, context=None):
        k = len(searches)
        searches.append((vx.copy() if hasattr(vx, 'copy') else vx, vr, vdx, it, last, fun))
        return X[k], Rr[k], E[k], not (end == 2 and k == n)

    def test(conf, it, err, err0):
        k = len(tests)
        tests.append((it, err, err0))
        return end if (k == n and end < 2) else -1
    W.stub(NL, 'conv_test', test)

    def fun(x):
        raise RuntimeError('not called here')

    def grad(x):
        grads.append(x if isinstance(x, str) else x.copy())
        return M[len(grads) - 1]

    class LS:
        mtx = None
        def get_tolerance(self):
            return None, None
        def __call__(self, rhs, x0=None, eps_a=None, eps_r=None, mtx=None, status=None):
            solves.append((rhs, x0, mtx))
            status['n_iter'] = 3
            return D[len(solves) - 1].copy()

    def new_jac(it, it_jac, r1, r, x1, x, context=None):
        jacs.append((it, it_jac, r1, r, x1, x, context))
        return jac == 'alternate' and it % 2 == 0
    hook = lambda ctx, nls, x, it, err, err0: hooks.append((ctx, x.copy(), it, err, err0))
    conf = newton_conf(W, line_search_fun=search, step_red=red, is_linear=lin, lin_red=None, give_up_warp=end == 2,
                       is_new_jacobian_fun=new_jac if jac else None)
    status = {}
    if given:
        nls = m.Newton(conf, context='ctx')
        out = nls(x0.copy(), fun=fun, fun_grad=grad, lin_solver=LS(), iter_hook=hook, status=status)
    else:
        nls = m.Newton(conf, context='ctx', fun=fun, fun_grad=grad, lin_solver=LS(), iter_hook=hook, status=status)
        out = nls(x0.copy())
    W.eqs('the last accepted state is returned', list(out), list(X[n]))
    W.true('status', status['n_iter'] == n and status['condition'] == end and status['ls_n_iter'] == 3 * n)
    W.eqs('errors', [status['err'], status['err0']], [E[n], E[0]])
    W.true('timings', 'time' in status and set(status['time_stats']) == {'residual', 'matrix', 'solve'})
    W.true('one line search per iteration', [q[3] for q in searches] == list(range(n + 1)))
    W.true('one test per iteration', [q[0] for q in tests] == list(range(n + (end < 2))))
    for k, q in enumerate(tests):
        W.eqs('test %d of the current and initial error' % k, q[1:], [E[k], E[0]])
    gi = []                  # iterations with new matrices
    for k in range(n):
        if k == 0 or lin or jac is None or (jac == 'alternate' and k % 2 == 0):
            gi.append(k)
    W.true('number of matrices', len(grads) == len(gi))
    for i, k in enumerate(gi):
        if lin:
            W.true('linear', isinstance(grads[i], str) and grads[i] == 'linear')
        else:
            W.eqs('matrix %d at the current state' % i, list(grads[i]), list(X[k]))
    for k in range(n):
        i = max(j for j in range(len(gi)) if gi[j] <= k)
        rhs, g, mtx = solves[k]
        W.eqs('right-hand side %d' % k, list(rhs), list(Rr[k]))
        W.eqs('matrix used %d' % k, list(mtx.flat), list(M[i].flat))
        if jac:
            q = jacs[k]
            prev = X[k - 1] if k else x0
            W.true('is_new_jacobian_fun()', q[0] == k and q[1] == (gi[i - 1] if (gi[i] == k and i) else 0 if not i else gi[i])
                   and q[6] == 'ctx')
            W.eqs('states passed', list(q[4]) + list(q[5]), list(X[k]) + list(prev))
            W.eqs('residual passed', list(q[2]), list(Rr[k]))
    W.eqs('starts from x0', list(searches[0][0]), list(x0))
    W.eqs('zero first step', list(W.np.ravel(searches[0][2] + 0 * x0)), [0, 0])
    for k in range(1, n + 1):
        vx, vr, vdx, it, last, f = searches[k]
        W.eqs('search %d from the last state' % k, list(vx), list(X[k - 1]))
        W.eqs('last residual %d' % k, list(vr), list(Rr[k - 1]))
        W.eqs('reduced solution %d' % k, list(vdx), list(red * D[k - 1]))
        W.eq('last error %d' % k, last, E[k - 1])
    W.true('function', all(q[5] is fun for q in searches))
    W.true('hook before each iteration', [q[2] for q in hooks] == list(range(n + 1)) and all(q[0] == 'ctx' for q in hooks))
    for k in range(1, n + 1):
        W.eqs('hook state %d' % k, list(hooks[k][1]), list(X[k - 1]))
        W.eqs('hook errors %d' % k, hooks[k][3:], [E[k - 1], E[0]])

def same(W, x, y):
    """The same vector, without splitting cases."""
    return all(not d.t if hasattr(d, 't') else d == 0 for d in (a - b for a, b in zip(x, y)))

@contract('Newton solves', [dict(imax=i, mode=m, script=s, warp=w) for i in (0, 1, 2) for m in ('and', 'or')
                            for s, w in (('', False), ('.f', False), ('.f', True), ('..f', True)) if i < 2 or not s])
def newton_solves(W, imax, mode, script, warp):
    """The returned vector, condition and errors for arbitrary residuals, with all parts of the solver."""
    quiet(W)
    m = W.mod(NL)
    fun = Fun(W, script)
    ea, er = W.real('eps_a', pos=True), W.real('eps_r', pos=True)
    x0 = W.reals('x0', 2)
    A = W.array([[1, 0], [0, 1]])
    nd = []

    class LS:
        mtx = None
        def get_tolerance(self):
            return None, None
        def __call__(self, rhs, x0=None, eps_a=None, eps_r=None, mtx=None, status=None):
            status['n_iter'] = 1
            nd.append(rhs)
            return rhs.copy()
    status = {}
    nls = m.Newton(newton_conf(W, i_max=imax, eps_a=ea, eps_r=er, eps_mode=mode, macheps=0, ls_red=W.frac(1, 10),
                               ls_min=W.frac(1, 2), ls_red_warp=W.frac(1, 10), ls_on=1, lin_red=None,
                               give_up_warp=warp), fun=fun, fun_grad=lambda x: A, lin_solver=LS(), status=status)
    try:
        x = nls(x0)
    except ValueError:
        W.true('failed residual', fun.rs[-1] is None)
        return
    c = status['condition']
    ks = [k for k in range(len(fun.xs)) if fun.rs[k] is not None and fun.xs[k] is not None]
    # the returned vector is one of those with a residual computed
    hit = [k for k in ks if same(W, x, fun.xs[k])]
    W.true('returned state has a residual', bool(hit))
    W.true('no more iterations than allowed', status['n_iter'] <= imax)
    W.true('conditions', c in ((0, 1, 2) if warp else (0, 1)))
    if hit:
        e = fun.es[hit[-1]]
        W.eq('error of the returned vector', status['err'], e)
        a, r = bool(e <= ea), bool(e <= er * fun.es[0])
        met = a if status['n_iter'] == 0 else ((a or r) if mode == 'or' else (a and r))
        if c == 0:
            W.true('converged only when the tolerances are met', met)
        elif c == 1:
            W.true('not met, no more iterations', not met and status['n_iter'] == imax)
    W.eq('initial error', status['err0'], fun.es[0])


# ------------------------------------------------------------ semi-smooth Newton
def sm_conf(W, **kw):
    d = dict(name='nls', kind='nls.semismooth_newton', verbose=False, macheps=0, ls_on=1, lin_red=W.num(1),
             ls_red={'regular': W.frac(1, 10), 'steepest_descent': W.frac(1, 20)}, ls_red_warp=W.frac(1, 30), ls_min=W.frac(1, 15))
    d.update(kw)
    return d

def csr(sp, a):
    """All entries are stored."""
    r, c = np.indices(a.shape)
    return sp.csr_matrix((a.ravel(), (r.ravel(), c.ravel())), shape=a.shape)

@contract('SemismoothNewton.compute_jacobian', [dict(semi=s, ns=n, m=k) for s in (True, False) for n in (1, 2) for k in (1, 2)])
def sm_jacobian(W, semi, ns, m):
    """Rows of the derivative of the complementarity function: phi = |(a, b)| - (a + b), or min(a, b)."""
    quiet(W)
    M = W.mod(SM)
    n = ns + m
    nls = M.SemismoothNewton(sm_conf(W, semismooth=semi))
    F, A, B = W.reals('F', ns, n), W.reals('A', m, n), W.reals('B', m, n)
    a, b = W.reals('a', m), W.reals('b', m)
    for i in range(m):
        W.assume(a[i] != b[i])
        W.assume(a[i] != 0)
    sp = W.mod(SM).sp
    J = nls.compute_jacobian(W.reals('x', n), lambda x: csr(sp, F), lambda x: csr(sp, A),
                             lambda x: csr(sp, B), W.reals('f', ns), a, b)
    J = W.np.asarray(J.todense() if hasattr(J, 'todense') else J.toarray())
    W.true('shape', J.shape == (n, n))
    W.eqs('smooth part', list(J[:ns].flat), list(F.flat))
    for i in range(m):
        for j in range(n):
            if semi:
                s = W.np.sqrt(a[i] * a[i] + b[i] * b[i])
                W.eq('derivative', (J[ns + i, j] + A[i, j] + B[i, j]) * s, a[i] * A[i, j] + b[i] * B[i, j])
            else:
                W.eq('derivative', J[ns + i, j], A[i, j] if bool(a[i] < b[i]) else B[i, j])

@contract('SemismoothNewton.__call__', [dict(semi=s, imax=i, script=f, solved=v) for s in (True, False)
                                        for i, f in ((0, ''), (0, 'f'), (1, ''), (1, '.f'), (1, '..f'), (2, ''))
                                        for v in (True, False) if i or v])
def semismooth(W, semi, imax, script, solved):
    quiet(W)
    M = W.mod(SM)
    ea, er = W.real('eps_a', pos=True), W.real('eps_r', pos=True)
    x0 = W.reals('x0', 2)
    xs, rs, es, ts = [], [], [], []

    def smooth(x):
        k = len(xs)
        xs.append(x.copy())
        if k < len(script) and script[k] == 'f':
            rs.append(None), es.append(None), ts.append(None)
            raise ValueError('warp violation')
        t = W.real('t%d' % k, 0)
        ts.append(t)
        s = 3 * t / 2 if semi else 4 * t
        rs.append(W.array([s, -2 * t if semi else 3 * t]))
        es.append(5 * t / 2 if semi else 5 * t)
        return W.array([s])
    fa = lambda x: W.array([3 * ts[-1]])
    fb = lambda x: W.array([4 * ts[-1]])
    jx, Js, dxs = [], [], []

    def jac(self, x, *args):
        jx.append(x.copy())
        Js.append(W.reals('J%d' % len(jx), 2, 2))
        k = [i for i in range(len(xs)) if same(W, x, xs[i])]
        W.true('Jacobian of a state with a residual', bool(k))
        W.eqs('its residual', [args[3][0], args[4][0], args[5][0]], [rs[k[-1]][0], 3 * ts[k[-1]], 4 * ts[k[-1]]])
        return Js[-1]
    W.stub(SM, 'SemismoothNewton.compute_jacobian', jac)
    rhs = []

    def lin(r, mtx=None):
        k = [i for i in range(len(xs)) if same(W, jx[-1], xs[i])]
        W.true('matrix', mtx is Js[-1])
        W.eqs('right-hand side', list(r), list(rs[k[-1]]))
        # a solution, or not
        d = W.reals('d%d' % len(rhs), 2)
        rhs.append(r)
        if solved:
            J = W.array([[1, 0], [0, 1]]) if False else Js[-1]
            # choose the matrix so that d is the solution
            J[0, 0], J[1, 1] = (r[0] - J[0, 1] * d[1]) / d[0], (r[1] - J[1, 0] * d[0]) / d[1]
        else:
            J = Js[-1]
            # the error of the linear system is big
            J[0, 0], J[1, 1] = (r[0] + 2 * ea - J[0, 1] * d[1]) / d[0], (r[1] - J[1, 0] * d[0]) / d[1]
        return d
    status = {}
    nls = M.SemismoothNewton(sm_conf(W, semismooth=semi, i_max=imax, eps_a=ea, eps_r=er), status=status,
                             fun_smooth=smooth, fun_smooth_grad=None, fun_a=fa, fun_a_grad=None, fun_b=fb,
                             fun_b_grad=None, lin_solver=lin)
    try:
        x = nls(x0)
    except ValueError:
        W.true('failed residual', rs[-1] is None)
        return
    c = status['condition']
    hit = [k for k in range(len(xs)) if rs[k] is not None and same(W, x, xs[k])]
    W.true('returned state has a residual', bool(hit))
    W.true('conditions', c in (0, 1))
    W.true('no more iterations than allowed', len(jx) <= imax)
    if hit:
        e = es[hit[-1]]
        W.eq('error of the returned vector', status['err'], e)
        W.eq('initial error', status['err0'], es[0])
        a, r = bool(e <= ea), bool(e <= er * es[0])
        W.true('converged only when the tolerances are met', c != 0 or a)
        W.true('or only the absolute tolerance before the first step', c != 0 or r or len(xs) == 1)

@contract('SemismoothNewton steepest descent', [dict(how=h) for h in ('search', 'solver')])
def steepest(W, how):
    """The step is J^T r of the current state: after a failed line search in the restored state, or if the linear
    system is not solved."""
    quiet(W)
    M = W.mod(SM)
    x0, ts, xs = W.reals('x0', 2), [], []
    d, J = W.reals('d', 2), W.reals('J', 2, 2)

    def smooth(x):
        k = len(xs)
        xs.append(x.copy())
        ts.append(W.real('t%d' % k, 1) if k in (1, 2, 3) and how == 'search' else W.num(1) if k == 0 else W.num(0))
        return W.array([4 * ts[-1]])
    W.stub(SM, 'SemismoothNewton.compute_jacobian', lambda self, *a: J)
    status = {}
    nls = M.SemismoothNewton(sm_conf(W, semismooth=False, i_max=3, eps_a=W.frac(1, 100), eps_r=1,
                                     lin_red=W.frac(1, 10**6)), status=status,
                             fun_smooth=smooth, fun_smooth_grad=None, fun_a=lambda x: W.array([3 * ts[-1]]),
                             fun_a_grad=None, fun_b=lambda x: W.array([4 * ts[-1]]), fun_b_grad=None,
                             lin_solver=lambda r, mtx=None: d)
    if how == 'search':     # d is the solution
        J[0, 0], J[1, 1] = (4 - J[0, 1] * d[1]) / d[0], (3 - J[1, 0] * d[0]) / d[1]
    else:
        W.assume(W.frac(1, 10) < W.np.abs(J[0, 0] * d[0] + J[0, 1] * d[1] - 4))
    x = nls(x0)
    g = J.T @ W.array([4, 3])
    W.true('converged', status['condition'] == 0)
    if how == 'search':
        W.eqs('smallest step', list(xs[3]), list(x0 - W.frac(1, 100) * d))
        W.true('trials', len(xs) == 5)
    W.eqs('steepest descent step', list(x), list(x0 - g))
    W.eq('error', status['err'], 0)


# ------------------------------------------------------------ scipy
@contract('ScipyRoot', [dict(ok=o, jac=j, st=s) for o in (True, False) for j in (True, False) for s in (True, False)])
def scipy_root(W, ok, jac, st):
    quiet(W)
    m, B = W.mod(NL), W.mod(BA)
    e = W.real('e', 0)
    x, x0 = W.reals('x', 2), W.reals('x0', 2)
    calls = []

    def root(fun, x0, method=None, jac=None, tol=None, callback=None, options=None):
        calls.append((fun, x0, method, jac, tol, callback, options))
        r = dict(x=x, fun=vec(W, e), success=ok, status=1 if ok else 2, nfev=7, message='msg', nit=4)
        return B.IndexedStruct(**r) if False else Sol(r)
    nls = object.__new__(m.ScipyRoot)
    nls.__dict__.update(conf=B.Struct(method='anderson', use_jacobian=jac, tol=1, callback='cb', options={'a': 1},
                                      verbose=False, report_status=False), root=root, fun=None, fun_grad='grad',
                        status=None)
    status = {} if st else None
    out = nls(x0, fun='fun', status=status)
    f, y, method, j, tol, cb, opt = calls[0]
    W.true('arguments', len(calls) == 1 and f == 'fun' and y is x0 and method == 'anderson' and tol == 1 and cb == 'cb'
           and j == ('grad' if jac else None) and opt == {'a': 1, 'disp': False})
    W.eqs('solution', list(out), list(x))
    W.true('options unchanged', nls.conf.options == {'a': 1})
    if st:
        W.eq('error', status['err'], 5 * e)
        W.true('condition', (status['condition'] == 0) == ok)
        W.true('iterations', status['n_iter'] == 4 and status['n_fev'] == 7)

class Sol(dict):
    def __getattr__(self, k):
        return self[k]


if __name__ == '__main__':
    main(S)
