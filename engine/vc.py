"""
Check runner.

A suite is a set of contracts.  Each contract is an executable statement of
pre- and postconditions over one (or a few) functions of /repo, written
against a *world*:

- the symbolic world executes the current source of the functions on symbolic
  inputs and generates one obligation per postcondition and path, discharged
  by exact algebra or z3;
- the concrete world evaluates the same contract on the compiled/imported code
  with seeded inputs: cross-check of the engine, replay of refutations, and a
  bounded stand-in (labelled so, never counted as proved) where the function is
  outside the symbolic engine's subset.
"""
import argparse, hashlib, json, os, pickle, random, resource, select, shutil
import signal, sys, tempfile, time, traceback

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

from . import sym
from .sym import (EngineError, Undefined, Infeasible, SymBool, R, lift)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

class Mismatch(Exception):
    pass

class Contract:
    def __init__(self, name, fn, cases, kind, opts):
        self.name, self.fn, self.cases, self.kind, self.opts = \
            name, fn, cases, kind, opts

def case_str(case):
    return ','.join('%s=%s' % (k, v) for k, v in case.items())

GENERAL_ASSUMPTIONS = [
    'machine arithmetic is treated as mathematical: float64 as real numbers, int32/int64 as integers without overflow',
    'memory allocation succeeds; elementary functions (exp, log, sin, ...) are uninterpreted up to their basic algebra',
    'frame: arguments not declared as outputs are unchanged (checked for C functions)']

def trusted_base(suite):
    """External code and parts of the engine the verdicts rest on."""
    kinds = set(c.kind for c in suite.contracts)
    out = ['engine/sym.py (normal forms of rational functions), z3 (conditions of branches, inequalities)']
    if 'c' in kinds or suite.files or suite.ext or suite.pre:
        out.append('gcc -E, pycparser and engine/csym.py, cmem.py, csum.py (semantics of C)')
    if 'py' in kinds:
        out.append('CPython executing the current modules of the repository, with engine/pyworld.py in place of numpy, engine/spstand.py in '
                   'place of scipy.sparse; Cython files through the parser of Cython (engine/cyx.py)')
    return out

class Suite:
    def __init__(self, pid, title='', level='proof', files=(), assumptions=(),
                 trusted=(), timeout=150, conc=2, budget=780):
        self.pid = pid
        self.title = title
        self.level = level
        self.files = list(files)
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.contracts = []
        self.timeout = timeout
        self.conc = conc
        self.budget = budget
        self._prog = None
        self._clib = None
        self.tmp = None
        self.tier = 'quick'
        self.pre = []            # callables run in the parent before forking
        self.ext = False         # compile the extension modules for the replay
        self.pre_conc = []       # callables run in the parent before the concrete stage

    def contract(self, name, cases=({},), kind='c', thorough=(), **opts):
        def deco(fn):
            cs = [dict(c) for c in cases]
            c = Contract(name, fn, cs, kind, opts)
            c.thorough = [dict(x) for x in thorough]
            self.contracts.append(c)
            return fn
        return deco

    # ------------------------------------------------------ C back end
    def prog(self):
        if self._prog is None:
            from .csym import Prog
            from .csum import Summarizer
            self._prog = Prog(self.files, repo=REPO)
            Summarizer().install(self._prog)
        return self._prog

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % self.pid)
        return self.tmp

    def build_c(self):
        """In the parent: build the shared library of the current sources."""
        from . import cconc
        if getattr(self, '_so', None) is None:
            d = os.path.join(self.scratch(), 'c')
            os.makedirs(d, exist_ok=True)
            fs = [f if os.path.isabs(f) else os.path.join(REPO, f)
                  for f in self.files]
            common = os.path.join(REPO, 'sfepy/discrete/common/extmods/common_python.c')
            if common not in fs:
                fs.append(common)
            self._so = cconc.build(fs, d, REPO)
        return self._so

    def clib(self):
        from . import cconc
        if self._clib is None:
            self._clib = cconc.CLib(self.prog(), self._so)
        return self._clib

# ------------------------------------------------------------- tasks
def sym_task(suite, con, case):
    """-> dict(obs=[(label, status, how)], paths, called, exc)"""
    from .worlds import sym_world
    t0 = time.time()
    paths = 0
    allobs = []
    called = set()
    err = None
    vac = 0
    try:
        box = {}

        def run():
            W = sym_world(suite, con, case)
            box['W'] = W
            con.fn(W, **{k: v for k, v in case.items() if k[0] != '_'})
            W.finish()
        for r in sym.explore(run, max_paths=con.opts.get('max_paths', 600)):
            paths += 1
            W = box['W']
            called |= W.called()
            for (label, st, how) in W.obs:
                allobs.append((label, st, how, paths))
            if r.exc is not None:
                e = r.exc
                if isinstance(e, (RecursionError, MemoryError)) or 'RecursionError' in str(e):
                    raise EngineError('resources: %s' % type(e).__name__)
                if isinstance(e, Undefined):
                    kind = 'defined'
                else:
                    kind = 'no-error'
                st, model = sym.prove(False, r.pc)
                msg = '%s: %s' % (type(e).__name__, e)
                if os.environ.get('VERIF_TRACE'):
                    traceback.print_exception(e)
                if st == 'proved':
                    allobs.append((kind, 'proved', 'path infeasible', paths))
                else:
                    allobs.append((kind, st, msg + _m(model), paths))
            if time.time() - t0 > suite.timeout * 5:
                raise EngineError('time limit')
    except EngineError as e:
        err = 'out of reach: %s' % (e,)
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
    except RecursionError:
        err = 'out of reach: recursion limit'
    except MemoryError:
        err = 'out of reach: memory'
    return dict(obs=allobs, paths=paths, called=sorted(called), err=err,
                t=time.time() - t0, z3=dict(sym.STATS) if hasattr(sym, 'STATS') else {})

def _m(model):
    if not model:
        return ''
    if isinstance(model, dict):
        its = list(model.items())[:12]
        return ' at ' + ', '.join('%s=%s' % (k, v) for k, v in its)
    return ' ' + str(model)[:300]

def conc_task(suite, con, case, seed, n):
    """Evaluate the contract on the real code -> list of failures."""
    from .worlds import conc_world
    fails = []
    evals = 0
    skipped = 0
    t0 = time.time()
    err = None
    for j in range(n):
        sd = (seed * 1000003 + j * 7919 + int(hashlib.md5(
            (con.name + case_str(case)).encode()).hexdigest()[:6], 16)) % (2**31)
        W = conc_world(suite, con, case, sd)
        try:
            con.fn(W, **{k: v for k, v in case.items() if k[0] != '_'})
            W.finish()
        except Infeasible:
            skipped += 1
            continue
        except EngineError as e:
            err = 'concrete: %s' % e
            break
        except Exception as e:
            W.fails.append(('no-error', '%s: %s' % (type(e).__name__, e)))
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
        evals += W.nchecks
        if W.fails:
            fails.append(dict(seed=sd, failures=[(str(a), str(b)) for a, b in W.fails[:8]]))
            if len(fails) >= 2:
                break
        if time.time() - t0 > 60:
            break
    return dict(fails=fails, evals=evals, skipped=skipped, err=err)

def _child(fn, wfd, memlimit):
    os.setsid()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('VERIF_TRACE'):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        res = fn()
    except BaseException as e:
        res = dict(crash='%s: %s\n%s' % (type(e).__name__, e,
                                         traceback.format_exc()[-3000:]))
    data = pickle.dumps(res)
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)

def run_pool(jobs, nproc=8, deadline=None):
    """jobs: list of (key, fn, timeout) -> {key: result}"""
    jobs = list(jobs)
    jobs.reverse()
    live = {}
    out = {}
    import multiprocessing
    nproc = min(nproc, os.cpu_count() or 4)
    while jobs or live:
        while jobs and len(live) < nproc:
            key, fn, to = jobs.pop()
            if deadline and time.time() > deadline:
                out[key] = dict(timeout=True)
                continue
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(fn, w, 6 << 30)
            os.close(w)
            live[r] = [key, pid, time.time() + to, bytearray()]
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            d = os.read(r, 1 << 20)
            L = live[r]
            if d:
                L[3] += d
                continue
            os.close(r)
            _, st = os.waitpid(L[1], 0)
            if L[3]:
                out[L[0]] = pickle.loads(bytes(L[3]))
            else:
                out[L[0]] = dict(died=st)
            del live[r]
        now = time.time()
        for r in list(live):
            L = live[r]
            if now > L[2] or (deadline and now > deadline + 20):
                try:
                    os.killpg(L[1], signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(L[1], signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(L[1], 0)
                os.close(r)
                out[L[0]] = dict(timeout=True)
                del live[r]
    return out

# -------------------------------------------------------------- main
def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', [])
                if k['property'] == pid]

def main(suite, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noconc', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    suite.tier = a.tier
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
    deadline = t0 + (suite.budget if a.tier == 'quick' else 5400)
    if a.tier == 'thorough':
        suite.timeout *= 4
    rc = 2
    try:
        rc = _main(suite, a, seed, t0, deadline, rp if a.replay else None)
    finally:
        if suite.tmp:
            shutil.rmtree(suite.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def _main(suite, a, seed, t0, deadline, rp):
    pid = suite.pid
    load_err = None
    bg = None
    if suite.ext and not a.noconc:
        from . import cybuild
        bg = cybuild.Background(os.path.join(suite.scratch(), 'ext'), REPO)
    for p in suite.pre:
        try:
            p()
        except EngineError as e:
            load_err = 'engine could not load the sources: %s' % e
    if suite.files:
        try:
            suite.prog()
        except EngineError as e:
            load_err = 'engine could not load the sources: %s' % e
    build_err = None
    if suite.files:
        try:
            suite.build_c()
        except RuntimeError as e:
            build_err = str(e)
    todo = []
    for c in suite.contracts:
        cs = list(c.cases)
        if a.tier == 'thorough':
            cs += c.thorough
        for case in cs:
            nm = '%s[%s]' % (c.name, case_str(case)) if case else c.name
            if a.only and a.only not in nm:
                continue
            if rp and nm != rp['contract']:
                continue
            todo.append((nm, c, case))
    jobs = []
    conly = set()
    for nm, c, case in todo:
        if c.opts.get('bounded') or load_err:
            conly.add(nm)
            continue
        to = c.opts.get('timeout', suite.timeout)
        jobs.append((nm, (lambda c=c, case=case: sym_task(suite, c, case)), to))
    res = run_pool(jobs, deadline=deadline - 150)
    # concrete evaluation
    cres = {}
    if bg is not None:
        try:
            cybuild.install(bg.wait())
            if REPO not in sys.path:
                sys.path.insert(0, REPO)
            for p in suite.pre_conc:
                p()
        except Exception as e:
            build_err = '%s: %s' % (type(e).__name__, e)
    if not a.noconc and not (bg is not None and build_err):
        cj = []
        for nm, c, case in todo:
            if c.opts.get('noconc') or (c.kind == 'c' and build_err):
                continue
            r = res.get(nm, {})
            bad = nm in conly or not good(r)
            n = c.opts.get('nconc', 25 if bad else suite.conc)
            if bad:
                n = max(n, c.opts.get('nbad', 25))
            if a.tier == 'thorough':
                n *= 10
            cj.append((nm, (lambda c=c, case=case, n=n:
                            conc_task(suite, c, case, seed, n)), 120))
        cres = run_pool(cj, deadline=deadline - 20)
    # ------------------------------------------------------ verdicts
    n_ob = n_dis = 0
    how_cnt = {}
    bounded = []
    undecided = []
    violations = []
    called = set()
    samples = []
    paths = 0
    conc_evals = 0
    solver_t = 0.0
    slow = []
    for nm, c, case in todo:
        r = res.get(nm)
        cr = cres.get(nm)
        cfail = None
        if cr is not None:
            if 'died' in cr:
                cfail = dict(kind='crash', detail='the real code crashed (status %s)' % cr['died'])
            elif 'crash' in cr:
                undecided.append((nm, 'concrete harness: ' + cr['crash'][-600:]))
            elif 'timeout' in cr:
                pass
            else:
                conc_evals += cr['evals']
                if cr['fails']:
                    cfail = dict(kind='concrete', detail=cr['fails'])
                elif cr.get('err') and (nm in conly or not good(r or {})):
                    undecided.append((nm, cr['err']))
        if nm in conly:
            okc = cr is not None and 'fails' in cr and not cr['fails'] and cr['evals'] > 0
            if cfail:
                violations.append((nm, 'bounded', cfail, True))
            elif okc:
                bounded.append((nm, load_err or 'bounded by declaration', cr['evals']))
            else:
                undecided.append((nm, 'no concrete evaluation'))
            continue
        if r is None or 'crash' in r or 'died' in r or 'timeout' in r or r.get('err'):
            why = ('not run' if r is None else
                   'time limit' if 'timeout' in r else
                   'engine died (%s)' % r['died'] if 'died' in r else
                   r['crash'] if 'crash' in r else r['err'])
            if r is not None and 'crash' in r:
                sys.stderr.write('engine crash in %s: %s\n' % (nm, r['crash'][-1500:]))
            # partial obligations refuted before the engine gave up count
            refs = [o for o in (r or {}).get('obs', []) if o[1] == 'refuted']
            if cfail:
                violations.append((nm, 'stand-in', cfail, True))
            elif refs:
                violations.append((nm, 'refuted', dict(kind='proof', detail=[
                    (o[0], o[2]) for o in refs[:5]]), False))
            elif cr is not None and cr.get('evals', 0) > 0 and 'fails' in cr:
                bounded.append((nm, why.strip().split('\n')[-1][:300], cr['evals']))
            else:
                undecided.append((nm, why))
            continue
        called |= set(r['called'])
        paths += r['paths']
        if r['z3']:
            solver_t += r['z3'].get('z3_time', 0)
        slow.append((round(r['t'], 2), nm))
        if not r['obs']:
            undecided.append((nm, 'no obligations generated (vacuous)'))
            continue
        refs, unk = [], []
        for (label, st, how, pth) in r['obs']:
            n_ob += 1
            if st == 'proved':
                n_dis += 1
                h = str(how)
                how_cnt[h] = how_cnt.get(h, 0) + 1
            elif st == 'refuted':
                refs.append((label, str(how)))
            else:
                unk.append((label, str(how)))
        if len(samples) < 12:
            samples.append('%s: %s' % (nm, r['obs'][0][0]))
        if refs:
            if cfail:
                violations.append((nm, 'refuted', dict(
                    kind='proof+replay', detail=refs[:5], replay=cfail), True))
            else:
                violations.append((nm, 'refuted', dict(
                    kind='proof', detail=refs[:5]), False))
        elif cfail:
            # the engine proved what the real code does not do
            violations.append((nm, 'concrete', cfail, True))
        elif unk:
            if cr is not None and 'fails' in cr and cr.get('evals', 0) > 0:
                bounded.append((nm, 'undischarged: %s' % (unk[:2],), cr['evals']))
            else:
                undecided.append((nm, 'undischarged: %s' % (unk[:3],)))
    # known findings
    kf = known_findings(pid)
    shown = set()
    vio = []
    for v in violations:
        k = None
        for f in kf:
            if f.get('status') == 'fixed':
                continue
            if v[0] == f['contract'] and all(
                    any(l.startswith(x) for x in f['labels']) for l in labels(v[2])):
                k = f
        if k is not None:
            if k['what'] not in shown:
                shown.add(k['what'])
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            vio.append(v)
    rdir = os.path.join(VERIF, 'replay')
    lines = []
    if vio:
        os.makedirs(rdir, exist_ok=True)
        # violations replayed on the real code first
        vio.sort(key=lambda v: not v[3])
        for (nm, kind, d, replayed) in vio[:20]:
            p = os.path.join(rdir, '%s-%s.json' % (
                pid, hashlib.md5(nm.encode()).hexdigest()[:10]))
            with open(p, 'w') as f:
                json.dump(dict(property=pid, contract=nm, kind=kind, seed=seed,
                               failed_obligation=d, replayed_on_real_code=replayed,
                               how='%s/bin/check %s --replay %s' % (VERIF, pid, p)),
                          f, indent=1, default=str)
            lines.append((nm, d, p, replayed))
        for nm, d, p, replayed in lines:
            print('  failed: %s: %s' % (nm, json.dumps(d, default=str)[:700]))
        anyrep = [l for l in lines if l[3]]
        l = (anyrep or lines)[0]
        print('VIOLATION property=%s replay=%s%s' % (
            pid, l[2], '' if l[3] else ' no-failing-input-found'))
    slow.sort(reverse=True)
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick',
              seed=seed, level=suite.level, wall_s=round(time.time() - t0, 2),
              violations=len(vio), assumptions=suite.assumptions + GENERAL_ASSUMPTIONS,
              coverage=dict(
                  obligations=n_ob, discharged=n_dis,
                  checker_cmd='%s/bin/check %s' % (VERIF, pid),
                  trusted_base=suite.trusted + trusted_base(suite),
                  contracts=len(set(c.name for _, c, _ in todo)),
                  contract_cases=len(todo),
                  functions_under_contract=sorted(called),
                  functions_count=len(called),
                  paths=paths,
                  discharged_by=how_cnt,
                  solver_seconds=round(solver_t, 2),
                  slowest=slow[:5],
                  bounded_not_proved=[dict(contract=n, why=w, evaluations=e)
                                      for n, w, e in bounded],
                  undecided=[dict(contract=n, why=str(w)[:400]) for n, w in undecided],
                  concrete_crosscheck_evaluations=conc_evals,
                  samples=samples))
    if suite.level not in ('proof',):
        ev['coverage'].update(evaluations=conc_evals + n_ob,
                              distinct_nontrivial=len(todo),
                              rule='one contract case per listed configuration; seeded inputs',
                              explanation=suite.title)
    if not a.only and not rp:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s: %d contracts cases, %d/%d obligations discharged on %d paths, '
          '%d bounded, %d undecided, %d concrete evaluations, %.1f s'
          % (pid, len(todo), n_dis, n_ob, paths, len(bounded), len(undecided),
             conc_evals, time.time() - t0))
    if a.v or undecided:
        for n, w in undecided:
            print('  undecided %s: %s' % (n, str(w)[:600]))
    if a.v:
        for n, w, e in bounded:
            print('  bounded %s: %s' % (n, w))
        for s in slow[:6]:
            print('  slow', s)
    if build_err:
        print('build error:', build_err[-1500:])
    if vio:
        return 1
    if rp:
        return 0
    if build_err and not load_err and False:
        return 2
    if undecided or (n_ob == 0 and not bounded):
        return 3
    return 0

def labels(d):
    out = []
    if d.get('kind') in ('proof', 'proof+replay'):
        out += [str(x[0]) for x in d['detail']]
    if d.get('kind') == 'concrete':
        for f in d['detail']:
            out += [str(x[0]) for x in f['failures']]
    if d.get('kind') == 'crash':
        out.append('crash')
    if 'replay' in d:
        out += labels(d['replay'])
    return out

def good(r):
    return (bool(r) and not any(k in r for k in ('crash', 'died', 'timeout'))
            and not r.get('err') and bool(r.get('obs'))
            and all(o[1] == 'proved' for o in r['obs']))
