"""Time steppers, time step controllers and the time stepping loops."""
import itertools
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from checks import felib

TS, TC, SO, BA = 'sfepy.solvers.ts', 'sfepy.solvers.ts_controllers', 'sfepy.solvers.ts_solvers', 'sfepy.base.base'
S = Suite('C15', 'time steppers', assumptions=[
    'times and time steps are exact real numbers; a VariableTimeStepper accumulates rounding errors in floating point',
    'the initial and final times differ; the time step reduction factor is in (0, 1)',
    'loops over the time steps are unrolled up to 6 steps, the methods called in them have contracts for all steps',
    'the nonlinear solver, the user functions and the error estimates are replaced by arbitrary ones'])
felib.use(S, TS, TC, SO, BA, terms=False)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

class Times:
    """An arbitrary sequence of times."""
    def __init__(self, f):
        self.f = f
    def __getitem__(self, i):
        return self.f(i)

def interval(W):
    t0 = W.real('t0')
    T = W.real('T', pos=True)
    return t0, t0 + T, T

def times(t0, T, n):
    return [t0 + T * i / (n - 1) for i in range(n)] if n > 1 else [t0]

# ------------------------------------------------------------ fixed steps
@contract('_get_n_step')
def get_n_step(W):
    m = W.mod(TS)
    ts = object.__new__(m.TimeStepper)
    t0, dt, q = W.real('t0'), W.real('dt', pos=True), W.real('q', pos=True)
    n = ts._get_n_step(t0, t0 + q * dt, dt)
    # the step nearest to dt that divides the interval
    W.le('not too few', q - 1 - W.frac(1, 2), n - 2 + 0 * q)
    W.le('not too many', n - 1 + 0 * q, q + W.frac(1, 2))

def stepper(W, cls, n, given, T=None):
    """A time stepper with n steps set by n_step or by dt, `_get_n_step()` is replaced by its contract."""
    m = W.mod(TS)
    t0, t1, T = interval(W)
    dt = W.real('dt', pos=True)
    seen = []

    def gn(self, a, b, d):
        seen.append((a, b, d))
        return n
    W.stub(TS, 'TimeStepper._get_n_step', gn)
    C = getattr(m, cls)
    if given == 'n_step':
        ts = C(t0, t1, n_step=n)
    elif given == 'both':
        ts = C(t0, t1, dt, n)
    elif given == 'dt':
        ts = C(t0, t1, dt=dt)
    else:
        ts = C(t0, t1)
    if given in ('dt', 'both'):
        for a, b, d in seen:
            W.eqs('interval', [a, b], [t0, t1])
            W.eq('dt', d, dt)
        W.true('number of steps from dt', seen or given == 'both')
    elif given == 'none':
        W.eq('default dt', seen[-1][2], T)
    return ts, t0, t1, T

NS = (1, 2, 3, 4, 6)

def consistent(W, lab, ts, tt, k, t0, T):
    W.true(lab + ': step', ts.step == k)
    W.eq(lab + ': time', ts.time, tt[k])
    W.eq(lab + ': normalized time', ts.nt * T, tt[k] - t0)

@contract('TimeStepper.set_from_data', [dict(n=n, given=g) for n in NS for g in ('n_step', 'both', 'dt', 'none')])
def set_from_data(W, n, given):
    ts, t0, t1, T = stepper(W, 'TimeStepper', n, given)
    tt = times(t0, T, n)
    W.true('n_step', ts.n_step == n)
    W.eq('t0', ts.t0, t0)
    W.eq('t1', ts.t1, t1)
    W.eqs('times', list(ts.times), tt)
    if n > 1:
        W.true('the final time exactly', W.symbolic or ts.times[-1] == t1)
        W.eq('dt', ts.dt * (n - 1), T)
        W.true('not quasistatic', ts.is_quasistatic is False)
    else:
        W.eq('dt', ts.dt, T)
    consistent(W, 'start', ts, tt, 0, t0, T)

@contract('TimeStepper.from_conf', [dict(q=q) for q in (False, True)])
def from_conf(W, q):
    m, B = W.mod(TS), W.mod(BA)
    t0, t1, T = interval(W)
    for c in ('TimeStepper', 'VariableTimeStepper'):
        ts = getattr(m, c).from_conf(B.Struct(t0=t0, t1=t1, dt=None, n_step=4, quasistatic=q))
        W.true('class', type(ts) is getattr(m, c))
        W.eqs('interval', [ts.t0, ts.t1, ts.dt], [t0, t1, T / 3])
        W.true('quasistatic', ts.is_quasistatic is q)

@contract('TimeStepper.set_step', [dict(n=n) for n in NS])
def set_step(W, n):
    ts, t0, t1, T = stepper(W, 'TimeStepper', n, 'n_step')
    tt = times(t0, T, n)
    for k in range(-n, n):
        ts.set_step(k)
        consistent(W, 'set_step(%d)' % k, ts, tt, k % n, t0, T)
    for k in (-n - 1, n, n + 3):
        W.true('%d out of range' % k, W.raises(ValueError, ts.set_step, k))
        consistent(W, 'unchanged', ts, tt, n - 1, t0, T)
    for j in range(9):
        nt = W.frac(j, 8)
        ts.set_step(None, nt)
        x = Fraction(j * (n - 1), 8)
        W.true('nearest step to nt=%d/8' % j, abs(ts.step - x) <= Fraction(1, 2))
        consistent(W, 'nt', ts, tt, ts.step, t0, T)
    for k in range(n):
        ts.set_state(**dict(step=k))
        consistent(W, 'set_state', ts, tt, k, t0, T)
        W.true('get_state', ts.get_state() == {'step': k})

@contract('TimeStepper.advance')
def advance(W):
    m = W.mod(TS)
    t0, t1, T = interval(W)
    n = W.size('n', 1)
    k = W.index('k', n)
    ts = object.__new__(m.TimeStepper)
    tf = lambda i: W.fn('cos', i)           # arbitrary times
    ts.__dict__.update(t0=t0, t1=t1, n_step=n, times=Times(tf), step=k, time=tf(k), nt=(tf(k) - t0) / T,
                       step_start_time=None)
    ts.advance()
    W.true('next step, if any', (ts.step == k + 1) if k < n - 1 else (ts.step == k))
    W.eq('time', ts.time, tf(ts.step))
    W.eq('normalized time', ts.nt * T, tf(ts.step) - t0)

@contract('TimeStepper iteration', [dict(n=n, start=s, sub=b) for n in NS for s in [None] + list(range(n))
                                    for b in (False, True)])
def iteration(W, n, start, sub):
    ts, t0, t1, T = stepper(W, 'TimeStepper', n, 'n_step')
    tt = times(t0, T, n)
    if start is None:
        ts.set_step(n // 2)     # iteration starts from the beginning
    s = start or 0
    got = []
    for step, time in (ts if start is None else ts.iter_from(start)):
        got.append(step)
        W.eq('time %d' % step, time, tt[step])
        consistent(W, 'body %d' % step, ts, tt, step, t0, T)
        if sub:
            ts.set_substep_time(W.real('d%d' % step))
            ts.restore_step_time()
    W.true('steps visited in order', got == list(range(s, n)))
    consistent(W, 'end', ts, tt, n - 1, t0, T)
    if n > 1:
        W.eq('ends at the final time', ts.time, t1)

@contract('substeps', [dict(cls=c) for c in ('TimeStepper', 'VariableTimeStepper')])
def substeps(W, cls):
    ts, t0, t1, T = stepper(W, cls, 4, 'n_step')
    ts.advance()
    t, d = ts.time, W.real('d')
    ts.restore_step_time()
    W.eq('nothing to restore', ts.time, t)
    ts.set_substep_time(d)
    W.eq('substep time', ts.time, t + d)
    W.true('same step', ts.step == 1)
    ts.restore_step_time()
    W.eq('restored', ts.time, t)
    ts.time = t + 2 * d
    ts.restore_step_time()
    W.eq('restored only once', ts.time, t + 2 * d)

@contract('copies and comparison of steppers', [dict(n=n, k=k) for n in (2, 3, 5) for k in range(n)])
def copies(W, n, k):
    ts, t0, t1, T = stepper(W, 'TimeStepper', n, 'n_step')
    ts.set_step(k)
    m = W.mod(TS)
    o = m.TimeStepper(t0 - 1, t1 + 2, n_step=n + 1)
    W.true('different', not (o == ts))
    o.set_from_ts(ts)
    tt = times(t0, T, n)
    W.eqs('times', list(o.times), tt)
    consistent(W, 'copy', o, tt, k, t0, T)
    W.eq('dt', o.dt, ts.dt)
    W.true('equal', bool(o == ts) and bool(ts == ts))
    o.set_from_ts(ts, step=0)
    consistent(W, 'copy with step', o, tt, 0, t0, T)
    W.true('other t0', not (m.TimeStepper(t0 - 1, t1, n_step=n) == ts))
    W.true('other t1', not (m.TimeStepper(t0, t1 + 1, n_step=n) == ts))
    W.true('other n_step', not (m.TimeStepper(t0, t1, n_step=n + 1) == ts))
    W.true('other type', W.raises(ValueError, lambda: m.VariableTimeStepper(t0, t1, n_step=n) == ts))

@contract('get_print_info', [dict(n=n) for n in (1, 2, 9, 10, 11, 12, 99, 100, 101, 102, 999, 1000, 1001, 1002, 10001)])
def print_info(W, n):
    nd, fmt, suf = W.mod(TS).get_print_info(n)
    W.true('width', nd == len(str(n - 1)))
    W.true('suffixes sort in the order of steps', all(len(suf % k) == nd for k in (0, n // 2, n - 1)))
    W.true('format', fmt % (1, n) == '%*d of %*d' % (nd, 1, nd, n))

# ------------------------------------------------------------ variable steps
@contract('VariableTimeStepper.set_from_data', [dict(n=n, given=g) for n in NS for g in ('n_step', 'both', 'dt', 'none')])
def v_set_from_data(W, n, given):
    ts, t0, t1, T = stepper(W, 'VariableTimeStepper', n, given)
    d = T / (n - 1) if n > 1 else T
    W.eq('dt', ts.dt, d)
    W.eq('default dt', ts.get_default_time_step(), d)
    W.true('n_step0', ts.n_step0 == n and ts.n_step == 1)
    W.eqs('times', list(ts.times), [t0])
    consistent(W, 'start', ts, [t0], 0, t0, T)
    o = W.mod(TS).VariableTimeStepper(t0 - 1, t1 + 2, n_step=2)
    ts.set_time_step(W.real('d'))
    ts.advance()
    o.set_from_ts(ts)
    if given == 'n_step':
        W.eqs('copy', [o.t0, o.t1, o.get_default_time_step()], [t0, t1, d])
        consistent(W, 'copy starts anew', o, [t0], 0, t0, T)

@contract('VariableTimeStepper.advance')
def v_advance(W):
    m = W.mod(TS)
    t0, t1, T = interval(W)
    k, t, dt = W.size('k', 0), W.real('t'), W.real('dt', pos=True)
    ts = object.__new__(m.VariableTimeStepper)
    old = [t0, t]
    ts.__dict__.update(t0=t0, t1=t1, dt=dt, dt0=dt, times=list(old), step=k, n_step=k + 1, time=t, nt=(t - t0) / T,
                       step_start_time=None)
    ts.advance()
    W.true('step', ts.step == k + 1)
    W.true('n_step', ts.n_step == k + 2)
    W.eq('time', ts.time, t + dt)
    W.eq('normalized time', ts.nt * T, t + dt - t0)
    W.eqs('history', list(ts.times), old + [t + dt])

@contract('VariableTimeStepper.set_time_step', [dict(k=k) for k in range(5)])
def v_set_time_step(W, k):
    ts, t0, t1, T = stepper(W, 'VariableTimeStepper', 4, 'n_step')
    tt = [t0]
    for i in range(k):
        d = W.real('d%d' % i, pos=True)
        ts.set_time_step(d)
        consistent(W, 'only the next step changes', ts, tt, i, t0, T)
        ts.advance()
        tt.append(tt[-1] + d)
        consistent(W, 'step', ts, tt, i + 1, t0, T)
        d = W.real('e%d' % i, pos=True)
        ts.set_time_step(d, update_time=True)       # the current step is repeated
        tt[-1] = tt[-2] + d
        consistent(W, 'repeated step', ts, tt, i + 1, t0, T)
        W.eqs('times', list(ts.times), tt)
        W.eq('dt', ts.dt, d)
    W.true('n_step', ts.n_step == k + 1)
    st = ts.get_state()
    o = W.mod(TS).VariableTimeStepper(t0, t1, n_step=4)
    o.set_state(**st)
    consistent(W, 'restored', o, tt, k, t0, T)
    W.eq('restored dt', o.dt, ts.dt)
    W.true('wrong step', W.raises(ValueError, ts.set_step, k + 1))
    consistent(W, 'unchanged', ts, tt, k, t0, T)
    ts.set_step(k)
    consistent(W, 'the same step', ts, tt, k, t0, T)
    ts.set_step(0)
    consistent(W, 'reset', ts, [t0], 0, t0, T)
    W.true('reset history', len(ts.times) == 1 and ts.n_step == 1)

@contract('VariableTimeStepper iteration', [dict(n=n, var=v) for n in NS for v in (0, 1)])
def v_iteration(W, n, var):
    ts, t0, t1, T = stepper(W, 'VariableTimeStepper', n, 'n_step')
    if var:
        h = [T * W.real('h%d' % i, W.frac(1, 3), 1) for i in range(4)]      # at most 3 steps needed
    else:
        h = [T / max(n - 1, 1)] * 8
    tt = [t0]
    k = 0
    for step, time in ts:
        W.true('step', step == k)
        W.eq('time', time, tt[k])
        consistent(W, 'body', ts, tt, k, t0, T)
        if k:
            W.lt('below the final time before', tt[k - 1], t1)
        if var:
            ts.set_time_step(h[k])
        tt.append(tt[-1] + h[k])
        k += 1
    W.le('the final time reached', t1, ts.time)
    if not var and W.symbolic:
        W.true('number of steps', k == max(n, 2))
        W.eq('ends at the final time', ts.time, t1)

# ------------------------------------------------------------ time step controllers
def unpacker(n_arg):
    def unpack(vec, mode=None):
        return tuple(vec[2 * i:2 * i + 2] for i in range(n_arg))
    unpack.n_arg = n_arg
    return unpack

@contract('tsc.fixed')
def fixed(W):
    ts = W.mod(BA).Struct(dt=W.real('dt', pos=True))
    W.eq('initial', W.mod(TC).FixedTSC({}).get_initial_dt(ts, None, unpack=None), ts.dt)

@contract('tsc.time_sequence', [dict(n=n, rep=r) for n in (1, 2, 3, 4) for r in (0, 1)])
def sequence(W, n, rep):
    """Prescribed times are visited one after another, then the final one."""
    t0 = W.real('t0')
    h = [W.real('h%d' % i, pos=True) for i in range(n + 1)]
    tt = [t0]
    for x in h:
        tt.append(tt[-1] + x)
    ts = W.mod(TS).VariableTimeStepper(t0, tt[-1], n_step=3)
    tsc = W.mod(TC).TimesSequenceTSC({}, times=tt[1:n + 1])
    d = tsc.get_initial_dt(ts, None, unpack=None)
    W.eq('first', d, h[0])
    ts.set_time_step(d)
    for k in range(1, n + 1):
        ts.advance()
        W.eq('time %d' % k, ts.time, tt[k])
        d, st = tsc(ts, None, None, unpack=None)
        W.true('accepted', st.result == 'accept')
        W.eq('step %d' % k, d, h[k])
        ts.set_time_step(d)
    ts.advance()
    W.eq('the final time', ts.time, tt[-1])
    if W.symbolic:
        d, st = tsc(ts, None, None, unpack=None)
        W.lt('positive step at the end', 0, d)

@contract('eval_scaled_norm', [dict(n=n) for n in (1, 2, 3)])
def scaled_norm(W, n):
    x = W.reals('x', n)
    ea, er = W.real('ea', pos=True), W.real('er', pos=True)
    r = W.mod(TC).eval_scaled_norm(x, ea, er)
    s = 0
    for v in x:
        s = s + (v / (er * (v if v >= 0 else -v) + ea)) ** 2
    W.eq('mean square of the scaled errors', r * r * n, s)
    W.le('non-negative', 0, r)

@contract('get_scaled_errors', [dict(n_arg=n) for n in (3, 4)])
def scaled_errors(W, n_arg):
    v0, v1 = W.reals('a', 2 * n_arg), W.reals('b', 2 * n_arg)
    dt = W.real('dt', pos=True)
    eps = [W.real('e%d' % i, pos=True) for i in range(4)]
    calls = []

    def norm(e, a, r):
        calls.append((e, a, r))
        return len(calls)
    W.stub(TC, 'eval_scaled_norm', norm)
    out = W.mod(TC).ElastodynamicsBasicTSC.get_scaled_errors(dt, v0, v1, eps[:2], eps[2:], unpacker(n_arg))
    W.true('displacement and velocity errors', tuple(out) == (1, 2))
    u, v, a = [slice(2 * i, 2 * i + 2) for i in ((0, 1, 2) if n_arg == 3 else (0, 2, 3))]
    for c, x, y, k in zip(calls, (u, v), (v, a), (0, 1)):
        W.eqs('error w.r.t. the backward Euler step %d' % k, c[0], v1[x] - v0[x] - dt * v1[y])
        W.eqs('tolerances %d' % k, [c[1], c[2]], [eps[k], eps[2 + k]])

def controller(W, name, **conf):
    """A controller with arbitrary error estimates."""
    e = [W.real('ue', pos=True), W.real('ve', pos=True)]
    args = []

    def errors(*a):
        args.append(a)
        return tuple(e)
    W.stub(TC, 'ElastodynamicsBasicTSC.get_scaled_errors', staticmethod(errors))
    tsc = getattr(W.mod(TC), name)(dict(eps_a=[1, 2], eps_r=[3, 4], **conf))
    ts = W.mod(BA).Struct(dt=W.real('dt', pos=True))
    return tsc, ts, (e[0] if e[0] >= e[1] else e[1]), args

def factors(W):
    fmin, fmax, fs = W.real('fmin', 0, 1), 1 + W.real('fmax', pos=True), W.real('fs', 0, 1)
    W.assume(fmin < 1)
    W.assume(fmin > 0)
    W.assume(fs > 0)
    return dict(fmin=fmin, fmax=fmax, fsafety=fs)

def root(W, x, order):
    """x^(1/order)"""
    return {1: lambda: x, 2: lambda: W.fn('sqrt', x), Fraction(1, 2): lambda: x * x}[order]()

def num(W, order):
    return order if isinstance(order, int) else W.frac(order.numerator, order.denominator)

ORDERS = (1, 2, Fraction(1, 2))

@contract('tsc.ed_basic', [dict(order=o) for o in ORDERS])
def basic(W, order):
    f = factors(W)
    tsc, ts, emax, args = controller(W, 'ElastodynamicsBasicTSC', error_order=num(W, order), **f)
    dt = ts.dt
    vs = W.reals('a', 6), W.reals('b', 6)
    up = unpacker(3)
    new, st = tsc(ts, vs[0], vs[1], unpack=up)
    a = args[0]
    W.true('arguments', a[1] is vs[0] and a[2] is vs[1] and list(a[3]) == [1, 2] and list(a[4]) == [3, 4] and a[5] is up)
    W.eq('of the current step', a[0], dt)
    W.eq('dt unchanged', ts.dt, dt)
    W.eq('emax', st.emax, emax)
    ok = emax <= 1
    W.true('accept or reject', st.result == ('accept' if ok else 'reject'))
    x = root(W, emax, order)
    c = f['fsafety'] / x
    if ok:
        W.eq('new step after accept', new, dt * (c if c <= f['fmax'] else f['fmax']))
    else:
        W.eq('new step after reject', new, dt * (c if c >= f['fmin'] else f['fmin']))
        W.le('a rejected step is not reduced too much', f['fmin'] * dt, new)
        W.lt('a rejected step is reduced', new, dt)
    W.lt('positive', 0, new)
    W.le('not increased too much', new, f['fmax'] * dt)

@contract('tsc.ed_pid', [dict(order=o, p=p, i=i, d=d) for o in (1, 2) for p, i, d in
                         ((0, 1, 0), (1, 1, 0), (1, 1, 1), (2, 0, 0), (0, 0, 1), (0, 0, 0), (2, 2, 2))])
def pid(W, order, p, i, d):
    f = factors(W)
    tsc, ts, emax, args = controller(W, 'ElastodynamicsPIDTSC', error_order=order, pcoef=p, icoef=i, dcoef=d, **f)
    W.eqs('initial history', [tsc.emax0, tsc.emax00], [1, 1])
    e0, e00 = W.real('e0', pos=True), W.real('e00', pos=True)
    tsc.emax0, tsc.emax00 = e0, e00
    dt = ts.dt
    new, st = tsc(ts, W.reals('a', 6), W.reals('b', 6), unpack=unpacker(3))
    W.true('accept or reject', st.result == ('accept' if emax <= 1 else 'reject'))
    W.le('lower bound', f['fmin'] * dt, new)
    W.le('upper bound', new, f['fmax'] * dt)
    r = lambda x: root(W, x, order)
    c = f['fsafety'] * r(e0) ** (p + 2 * d) / (r(emax) ** (p + i + d) * r(e00) ** d)
    W.eq('PID formula', new, dt * (f['fmin'] if c < f['fmin'] else f['fmax'] if c > f['fmax'] else c))
    W.eqs('history', [tsc.emax0, tsc.emax00], [emax, e0])

@contract('tsc.ed_linear', [dict(order=o) for o in (1, 2)])
def linear(W, order):
    f = factors(W)
    fred, wait, mf = W.real('fred', 0, 1), W.size('wait', 0), 1 + W.real('mf', 0, 3)
    tsc, ts, emax, args = controller(W, 'ElastodynamicsLinearTSC', error_order=order, fred=fred, inc_wait=wait,
                                     min_finc=mf, **f)
    W.true('initial count', tsc.count == 0)
    k = tsc.count = W.size('count', 0)
    dt = ts.dt
    new, st = tsc(ts, W.reals('a', 6), W.reals('b', 6), unpack=unpacker(3))
    x = f['fsafety'] / root(W, emax, order)
    if emax > 1:
        W.true('reject', st.result == 'reject' and tsc.count == 0)
        W.eq('reduced', new, fred * dt * (x if x >= f['fmin'] else f['fmin']))
    else:
        W.true('accept', st.result == 'accept')
        x = x if x <= f['fmax'] else f['fmax']
        if k < wait:
            W.true('count', tsc.count == k + 1)
            W.eq('kept while waiting', new, dt)
        elif x >= mf:
            W.true('count reset', tsc.count == 0)
            W.eq('increased', new, dt * x)
        else:
            W.true('count kept', tsc.count == k)
            W.eq('kept when the increase is small', new, dt)

@contract('tsc.ed_linear arguments')
def linear_arg(W):
    C = W.mod(TC).ElastodynamicsLinearTSC
    W.true('min_finc < 1', W.raises(ValueError, C, W.mod(BA).Struct(eps_a=[1, 2], eps_r=[1, 2],
                                                                      min_finc=W.frac(1, 2))))

@contract('initial time step', [dict(guess=g, n_arg=n) for g in (False, True) for n in (3, 4)])
def initial(W, guess, n_arg):
    """Hairer, Norsett, Wanner: starting step size."""
    d = [W.real('n%d' % i, 0) for i in range(3)] if W.symbolic else [W.real('n%d' % i, 0, 1) for i in range(3)]
    got = []

    def norm(e, a, r):
        got.append((e, a, r))
        return d[len(got) - 1]
    W.stub(TC, 'eval_scaled_norm', norm)
    tsc = W.mod(TC).ElastodynamicsBasicTSC(dict(eps_a=[3, 2], eps_r=[3, 4], error_order=1, guess_dt0=guess))
    ts = W.mod(BA).Struct(dt=W.real('dt', pos=True))
    v = W.reals('v', 2 * n_arg)
    h = tsc.get_initial_dt(ts, v, unpack=unpacker(n_arg))
    if not guess:
        W.eq('the default', h, ts.dt)
        return
    for g, i in zip(got, (0, 1, 2) if n_arg == 3 else (0, 2, 3)):
        W.eqs('norm of the vector', g[0], v[2 * i:2 * i + 2])
        W.eqs('tolerances', g[1:], [2, 3])
    m = d[1] if d[1] >= d[2] else d[2]
    small = W.frac(1, 10 ** 5)
    h0 = W.frac(1, 10 ** 6) if (d[0] < small or d[1] < small) else d[0] / d[1] / 100
    if m < W.frac(1, 10 ** 15):
        a, b = W.frac(1, 10 ** 6), h0 / 1000
        h1 = a if a >= b else b
    else:
        h1 = W.frac(1, 100) / m
    W.eq('guess', h, 100 * h0 if 100 * h0 <= h1 else h1)
    W.lt('positive', 0, h)

# ------------------------------------------------------------ adaptive solver
def adt_of(W, red, wait, inc_on, inc_wait):
    rm = W.real('red_max', 0, 1)
    W.assume(rm > 0)
    rf = W.real('rf', 0, 1)
    W.assume(rf > 0)
    W.assume(rf < 1)
    return W.mod(BA).Struct(red_factor=rf, red_max=rm, inc_factor=1 + W.real('incf', pos=True), inc_on_iter=inc_on,
                            inc_wait=inc_wait, red=red, wait=wait, dt0=W.real('dt0', pos=True))

@contract('adapt_time_step', [dict(cond=c) for c in (0, 1, 2)])
def adapt(W, cond):
    """From every state with red_max <= red."""
    calls = []
    TSC = type('Stepper', (), dict(set_time_step=lambda s, dt, update_time=False: (calls.append((dt, update_time)),
                                                                               setattr(s, 'dt', dt)) and None))
    red, wait = W.real('red', pos=True), W.size('wait', 0)
    inc_on, inc_wait, n_iter = W.size('inc_on', 0), W.size('inc_wait', 0), W.size('n_iter', 0)
    adt = adt_of(W, red, wait, inc_on, inc_wait)
    W.assume(red >= adt.red_max)
    ts = TSC()
    d0 = ts.dt = adt.dt0 * red
    c0 = (adt.red_factor, adt.red_max, adt.inc_factor, adt.dt0)
    r = W.mod(SO).adapt_time_step(ts, W.mod(BA).Struct(condition=cond, n_iter=n_iter), adt)
    W.eqs('parameters unchanged', [adt.red_factor, adt.red_max, adt.inc_factor, adt.dt0], c0)
    if cond == 0:
        W.true('the step is done', r is True)
        if n_iter <= inc_on:
            if wait + 1 > inc_wait:
                W.true('waiting starts again', adt.wait == 0)
                if red < 1:
                    W.eq('increased', adt.red, red * adt.inc_factor)
                    W.true('set for the next step', len(calls) == 1 and calls[0][1] is False)
                else:
                    W.eq('kept', adt.red, red)
            else:
                W.true('wait', adt.wait == wait + 1)
                W.eq('kept', adt.red, red)
        else:
            W.true('no wait', adt.wait == 0)
            W.eq('kept', adt.red, red)
    elif red * adt.red_factor < adt.red_max:
        W.true('no more reductions', r is True and not calls)
    else:
        W.true('try again', r is False)
        W.eq('reduced', adt.red, red * adt.red_factor)
        W.true('the current step is repeated', len(calls) == 1 and calls[0][1] is True and adt.wait == 0)
    W.eq('the time step', ts.dt, adt.dt0 * adt.red)
    W.le('not below the prescribed minimum', adt.red_max, adt.red)
    if red <= 1:
        W.le('at most one increase above the initial step', adt.red, adt.inc_factor)
    else:
        W.le('not increased', adt.red, red)

@contract('get_min_dt', [dict(rf=a, rm=b) for a in ((1, 5), (1, 2), (9, 10), (1, 100)) for b in ((1, 1000), (1, 2), (1, 1), (1, 5))])
def min_dt(W, rf, rm):
    dt0 = W.real('dt0', pos=True)
    rf, rm = W.frac(*rf), W.frac(*rm)
    r = W.mod(SO).get_min_dt(W.mod(BA).Struct(red=1, red_max=rm, red_factor=rf, dt0=dt0))
    W.lt('below all time steps', r, dt0 * rm)
    W.le('not more than one reduction below', dt0 * rm * rf, r)

def make_solver(W, name, nls, t0, t1, n, **conf):
    m = W.mod(SO)
    cls = getattr(m, name)
    c = dict(t0=t0, t1=t1, n_step=n, verbose=False, **conf)
    return cls(c, nls=nls)

class NLS:
    """A nonlinear solver stand-in."""
    def __init__(self, W, log, status=None, conds=()):
        self.W, self.log, self.status, self.conds = W, log, status, list(conds)
        self.fun = lambda v: log.append(('fun', v)) or W.reals('f', 2)
        self.ts = None

    def __call__(self, vec, status=None):
        k = len([e for e in self.log if e[0] == 'nls'])
        out = self.W.reals('s%d' % k, 2)
        self.log.append(('nls', vec, out, self.ts.step, self.ts.time, self.ts.dt))
        if self.conds:
            self.status.condition, self.status.n_iter = self.conds.pop(0)
        return out

def hooks(W, log, ts):
    def init(ts_, vec):
        log.append(('init', vec))
        return vec

    def pre(ts_, vec):
        log.append(('pre', vec, ts.step, ts.time))
        return vec

    def post(ts_, vec):
        log.append(('post', vec, ts.step, ts.time))
        return vec
    return dict(init_fun=init, prestep_fun=pre, poststep_fun=post)

@contract('ts.stationary')
def stationary(W):
    log = []
    nls = NLS(W, log)
    s = W.mod(SO).StationarySolver({}, nls=nls)
    nls.ts = s.ts
    v = W.reals('v', 2)
    out = s(vec0=v, **hooks(W, log, s.ts))
    W.true('sequence', [e[0] for e in log] == ['init', 'pre', 'nls', 'post'])
    W.true('data flow', log[0][1] is v and log[1][1] is v and log[2][1] is v and log[3][1] is log[2][2] and out is log[3][1])

@contract('ts.simple', [dict(n=n, quasi=q, start=s) for n in (2, 3, 5) for q in (False, True) for s in range(n)])
def simple(W, n, quasi, start):
    t0, t1, T = interval(W)
    log = []
    nls = NLS(W, log)
    s = make_solver(W, 'SimpleTimeSteppingSolver', nls, t0, t1, n, quasistatic=quasi)
    ts = nls.ts = s.ts
    tt = times(t0, T, n)
    if start:
        ts.set_step(start)      # a restart
    v = W.reals('v', 2)
    out = s(vec0=v, **hooks(W, log, ts))
    exp = ['init']
    if not start:
        exp += ['pre', 'nls' if quasi else 'fun', 'post']
    first = start or 1
    exp += ['pre', 'nls', 'post'] * (n - first)
    W.true('sequence of calls', [e[0] for e in log] == exp)
    body = [e for e in log if e[0] in ('pre', 'post', 'nls')]
    posts = [e for e in log if e[0] == 'post']
    W.true('each step is finished once and in order', [e[2] for e in posts] == list(range(start, n)))
    for e in posts:
        W.eq('time of step %d' % e[2], e[3], tt[e[2]])
    for e in body:
        k, t = (e[3], e[4]) if e[0] == 'nls' else (e[2], e[3])
        W.eq('%s: time consistent with the step' % e[0], t, tt[k])
    last = v
    for e in log[1:]:
        if e[0] in ('pre', 'fun'):
            W.eqs('starts from the last state', e[1], last)
        elif e[0] == 'nls':
            W.eqs('starts from the last state', e[1], last)
            last = e[2]
        elif e[0] == 'post':
            W.eqs('the solution of the step', e[1], last)
    W.eqs('returns the last state', out, last)
    W.eq('ends at the final time', ts.time, t1)

SEQ = [c for c in itertools.product((0, 1), repeat=4)]

@contract('ts.adaptive', [dict(seq=s, inc_wait=w) for s in SEQ for w in (0, 1)])
def adaptive(W, seq, inc_wait):
    """Arbitrary sequences of convergence results."""
    t0, t1, T = interval(W)
    B = W.mod(BA)
    log = []
    conds = [(c, 1) for c in seq] + [(0, 9)] * 200
    nls = NLS(W, log, B.Struct(condition=0, n_iter=1), conds)
    rf, rm, incf = W.frac(1, 2), W.frac(3, 10), W.frac(3, 2)
    s = make_solver(W, 'AdaptiveTimeSteppingSolver', nls, t0, t1, 3, quasistatic=False, dt_red_factor=rf, dt_red_max=rm,
                    dt_inc_factor=incf, dt_inc_on_iter=3, dt_inc_wait=inc_wait)
    ts = nls.ts = s.ts
    h = T / 2
    v = W.reals('v', 2)
    out = s(vec0=v, **hooks(W, log, ts))
    log = log[1:]
    steps = [e for e in log if e[0] == 'nls']
    for e in steps:
        W.le('not below the prescribed minimum', h * rm, e[5] + 0 * h)
        W.le('not above the maximum', e[5], h * incf)
    posts = [e for e in log if e[0] == 'post']
    W.true('steps finished in order', [e[2] for e in posts] == list(range(len(posts))))
    for a, b in zip(posts[:-1], posts[1:]):
        W.lt('times increase', a[3], b[3])
        if W.symbolic:
            W.lt('stops when the final time is reached', a[3], t1)
    W.le('the final time reached', t1, posts[-1][3])
    W.eqs('visited times', [e[3] for e in posts], list(ts.times))
    prev = (0, t0)
    vec = v
    last = None
    for e in log[3:]:
        if e[0] == 'pre':
            W.eqs('every attempt starts from the last accepted state', e[1], vec)
            pre = e
        elif e[0] == 'nls':
            W.eqs('solves from the last accepted state', e[1], vec)
            W.true('prepared for this step', pre[2] == e[3] == prev[0] + 1)
            W.eq('prepared for this time', pre[3], e[4])
            W.eq('time = last time + dt', e[4], prev[1] + e[5])
            last = e
        else:
            W.eqs('the last attempt is taken', e[1], last[2])
            W.eq('at its time', e[3], last[4])
            prev, vec = (e[2], e[3]), e[1]
    W.eqs('returns the last state', out, vec)

if __name__ == '__main__':
    main(S)
