"""DOF information, equation mapping, essential and periodic conditions."""
import itertools, random
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from checks import felib

DI, VA, CO, FU = ('sfepy.discrete.common.dof_info', 'sfepy.discrete.variables', 'sfepy.discrete.conditions',
                  'sfepy.discrete.functions')
PE, LU = 'sfepy.discrete.fem.periodic', 'sfepy.linalg.utils'
S = Suite('C09', 'DOF mapping', assumptions=[
    'meshes, approximation orders, numbers of components and sets of conditions are enumerated (systematic and '
    'seeded random ones); DOF and prescribed values and times are symbolic',
    'where conditions prescribe several values on one group of periodically connected DOFs, only equality is required',
    'scipy.sparse is replaced by a stand-in over exact numbers'])
felib.use(S, DI, VA, CO, FU, PE, LU)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

# ------------------------------------------------------------ helpers
@contract('expand_nodes_to_equations', [dict(dpn=d, names=n, seed=s) for d in (1, 2, 3)
                                        for n in itertools.chain(*[itertools.permutations(range(d), k)
                                                                   for k in range(1, d + 1)]) for s in (0, 1)])
def expand(W, dpn, names, seed):
    r = random.Random(seed)
    nods = np.array(r.sample(range(9), r.randrange(5)), dtype=np.int32)
    m = W.mod(DI)
    allnames = ['u.%d' % i for i in range(dpn)]
    eq = m.expand_nodes_to_equations(nods, [allnames[i] for i in names], allnames)
    W.true('equations', list(eq) == [dpn * int(n) + i for n in nods for i in names])
    d = m.expand_nodes_to_dofs(nods, dpn)
    W.true('dofs', d.shape == (len(nods), dpn)
           and d.ravel().tolist() == [dpn * int(n) + i for n in nods for i in range(dpn)])

def components(pairs):
    comp = {}
    for a, b in pairs:
        sa, sb = comp.setdefault(a, {a}), comp.setdefault(b, {b})
        if sa is not sb:
            sa |= sb
            for k in sb:
                comp[k] = sa
    out = []
    for s in comp.values():
        if s not in out:
            out.append(s)
    return out

PAIRS = list(itertools.combinations(range(4), 2))

@contract('group_chains', [dict(n=n, seed=s) for n in (0, 1, 2, 3) for s in (None,)]
          + [dict(n=n, seed=s) for n in (4, 5, 7) for s in range(20)])
def group_chains(W, n, seed):
    """Groups are the connected components (all lists of up to three pairs of four DOFs)."""
    fn = W.mod(DI).group_chains
    if seed is None:
        allp = [p for p in itertools.permutations(range(4), 2)]
        lists = itertools.product(allp, repeat=n)
    else:
        r = random.Random(seed)
        lists = [[tuple(r.sample(range(9), 2)) for _ in range(n)] for _ in range(20)]
    ok = True
    for ps in lists:
        out = fn([tuple(p) for p in ps])
        want = components(ps)
        ok = ok and sorted(map(sorted, out)) == sorted(map(sorted, want))
    W.true('groups are the connected components', ok)

@contract('resolve_chains', [dict(n=n) for n in (2, 3, 4)])
def resolve(W, n):
    ok = True
    for ch in itertools.permutations(range(5), n):
        ms = np.zeros(6, dtype=np.int32)
        W.mod(DI).resolve_chains(ms, [list(ch)])
        ok = ok and all(ms[c] == ch[-1] + 1 for c in ch[:-1]) and ms[ch[-1]] < 0
        ok = ok and all(ms[c] == 0 for c in range(6) if c not in ch)
    W.true('one slave', ok)

@contract('DofInfo', [dict(seed=s) for s in range(8)])
def dof_info(W, seed):
    r = random.Random(seed)
    D = W.mod(DI).DofInfo
    di = D('di')
    names = ['a', 'b', 'c', 'd'][:r.randrange(1, 5)]
    sizes = [r.randrange(0, 7) for _ in names]

    class Var:
        def __init__(self, n, k):
            self.name, self.k = n, k

        def get_dof_info(self, active=False):
            return (self.k + (0 if not active else 10)), 'details ' + self.name
    raw = r.random() < 0.5
    for n, k in zip(names, sizes):
        if raw:
            di.append_raw(n, k)
        else:
            di.append_variable(Var(n, k))
    pos = 0
    for n, k in zip(names, sizes):
        i = di.get_info(n)
        W.true('slice of %s' % n, i.indx == slice(pos, pos + k) and i.n_dof == k and i.var_name == n
               and di.indx[n] == i.indx and i.shared_dofs_with is None)
        pos += k
    W.true('total', di.get_n_dof_total() == pos and di.n_var == len(names) and di.var_names == names)
    W.true('repeated variable', W.raises(ValueError, di.append_raw, names[0], 1))
    W.true('repeated variable', W.raises(ValueError, di.append_variable, Var(names[0], 1)))
    di.append_variable(Var('s', 99), shared=names[-1])
    W.true('shared', di.indx['s'] == di.indx[names[-1]] and di.n_dof['s'] == sizes[-1]
           and di.get_n_dof_total() == pos and di.get_info('s').shared_dofs_with == names[-1])
    sub = di.get_subset_info([n for n in reversed(names)] + ['nic'])
    pos = 0
    for n, k in reversed(list(zip(names, sizes))):
        W.true('subset', sub.indx[n] == slice(pos, pos + k))
        pos += k
    act = D('act')
    act.append_variable(Var('a', 3), active=True)
    W.true('active', act.n_dof['a'] == 13 and act.get_n_dof_total() == 13)

@contract('is_active_bc', [dict(kind=k, n=n) for k, n in (('none', 0), ('nots', 0), ('list', 0), ('list', 1), ('list', 2),
                                                         ('function', 0), ('name', 0), ('wrong', 0), ('nofun', 0))])
def is_active(W, kind, n):
    """Active exactly when the time lies in one of the half-open intervals."""
    m = W.mod(DI)

    class BC:
        name = 'bc'
        times = None

    class TS:
        pass
    ts, bc = TS(), BC()
    ts.time = W.real('t')
    if kind == 'none':
        W.true('active', m.is_active_bc(bc, ts=ts) is True)
    elif kind == 'nots':
        bc.times = [(0, 1)]
        W.true('active', m.is_active_bc(bc) is True)
    elif kind == 'list':
        bc.times = [(W.real('a%d' % i), W.real('b%d' % i)) for i in range(n)]
        got = m.is_active_bc(bc, ts=ts)
        want = False
        for a, b in bc.times:
            if a <= ts.time and ts.time < b:
                want = True
        W.true('active', got is want)
    elif kind in ('function', 'name'):
        F = W.mod(FU)
        for res in (True, False):
            f = F.Function('f', lambda t: res if t is ts else None)
            bc.times = f if kind == 'function' else 'f'
            W.true('active', m.is_active_bc(bc, ts=ts, functions={'f': f}) is res)
    else:
        bc.times = 'f' if kind == 'nofun' else 3.5
        W.true('refused', W.raises(ValueError, m.is_active_bc, bc, ts))

@contract('get_condition_value')
def condition_value(W):
    m, F = W.mod(CO), W.mod(FU)
    f = F.Function('f', lambda: None)
    g = m.get_condition_value
    W.true('named function', g('f', {'f': f}, 'EBC', 'x') is f)
    W.true('function', g(f, None, 'EBC', 'x') is f)
    W.true('scalar', g(2.0, None, 'EBC', 'x') == 2)
    a = W.reals('a', 2)
    W.true('array', g(a, None, 'EBC', 'x') is a)
    out = g([1.0, 2.0], None, 'EBC', 'x')
    W.true('sequence', isinstance(out, np.ndarray) and list(out) == [1, 2])
    W.true('no functions', W.raises(ValueError, g, 'f', None, 'EBC', 'x'))

# ------------------------------------------------------------ equation maps
# node sets of the regions are given by the vertices
GEOM = {
    'line': dict(regs={'a': [0], 'b': [2], 'c': [1], 'ac': [0, 1]}, pairs=[('a', 'b')]),
    'quad': dict(regs={'l': [0, 3], 'r': [2, 5], 't': [3, 4, 5], 'd': [0, 1, 2], 'm': [1, 4], 'x': [0], 'y': [5],
                       'z': [4], 'w': [1]},
                 pairs=[('l', 'r'), ('d', 't'), ('r', 'm'), ('m', 'l'), ('x', 'y'), ('y', 'z'), ('z', 'w'), ('w', 'x')]),
    'tet': dict(regs={'a': [0, 1, 2], 'b': [4, 1, 3], 'c': [0], 'e': [4], 'f': [2, 3]}, pairs=[('c', 'e')]),
}

def region_dofs(f, dom, verts, order):
    """The DOFs of a region given by its vertices, from the node coordinates."""
    x = dom.mesh.coors
    key = lambda c: tuple(Fraction(v).limit_denominator(10 ** 6) for v in c)
    at = {}
    for i, c in enumerate(f.get_coor()):
        at.setdefault(key(c), []).append(i)
    out = [i for v in verts for i in at[key(x[v])]]
    return out

class Setup:
    """Variables with conditions and the expected groups of DOFs."""
    def __init__(self, W, mesh, order, dpns, ebcs, epbcs, seed, virtual=False, dtype=None, times=None, ts=None):
        self.W = W
        D, C, F = W.mod('sfepy.discrete'), W.mod(CO), W.mod(FU)
        self.rnd = r = random.Random(seed)
        self.dom = dom = felib.domain(W, mesh)
        self.omega = omega = dom.create_region('Omega', 'all')
        self.regs = {}
        for n, vs in GEOM[mesh]['regs'].items():
            self.regs[n] = dom.create_region('R' + n, 'vertex ' + ', '.join(map(str, vs)), 'vertex')
        self.fields, self.vars, vs = {}, {}, []
        for i, dpn in enumerate(dpns):
            n = 'uvw'[i]
            f = felib.field(W, omega, order, dpn, 'f' + n, dtype=dtype)
            v = D.FieldVariable(n, 'unknown', f, history=None)
            v._order = i
            self.fields[n], self.vars[n] = f, v
            vs.append(v)
            if virtual:
                vs.append(D.FieldVariable('t' + n, 'test', f, primary_var_name=n))
        self.V = D.Variables(vs)
        self.V.setup_dof_info()
        self.value = {}         # (variable, dof) -> prescribed value
        self.links = {n: [] for n in self.vars}
        self.functions = F.Functions([])
        self.D, self.C, self.F = D, C, F
        self.order = order
        self.ebc_list = [self.make_ebc(k, e, times) for k, e in enumerate(ebcs)]
        self.epbc_list = [self.make_epbc(k, e) for k, e in enumerate(epbcs)]

    def make_ebc(self, k, spec, times=None):
        """spec: (variable, components or 'all', region, kind)."""
        W = self.W
        n, comps, reg, kind = spec
        f = self.fields[n]
        dpn = f.n_components
        ids = list(range(dpn)) if comps == 'all' else list(comps)
        if comps == 'all':
            key = n + '.all'
        elif len(ids) == 1:
            key = '%s.%d' % (n, ids[0])
        else:
            key = '%s.[%s]' % (n, ','.join('%s' % i for i in ids))
        nods = sorted(set(region_dofs(f, self.dom, GEOM_V(self, reg), self.order)))
        if kind == 'const':
            v = W.frac(2 * k + 3, 2) if W.symbolic else k + 1.5
            val = float(v)
            get = lambda p, j: v
        elif kind == 'array':
            a = W.reals('g%d' % k, len(ids))
            val, get = a, lambda p, j: a[j]
        elif kind == 'list':
            val = [float(j + k) for j in range(len(ids))]
            get = lambda p, j: j + k
        else:
            a = W.reals('g%d' % k, len(nods), len(ids))
            get = lambda p, j: a[p, j]
            want = self.fields[n]
            flat = kind == 'flat'
            x = want.get_coor(np.array(nods, dtype=np.int32))

            def fun(ts, coors, bc=None, problem=None):
                W.eqs('coordinates passed to the function', coors, x)
                return a.reshape(-1).copy() if flat else a.copy()
            fn = self.F.Function('fun%d' % k, fun)
            val = fn
            if kind == 'name':
                self.functions.append(fn)
                val = 'fun%d' % k
        for p, nod in enumerate(nods):
            for j, c in enumerate(ids):
                self.value[n, nod * dpn + c] = get(p, j)
        return self.C.EssentialBC('fix%d' % k, self.regs[reg], {key: val}, key='ebc_%02d' % k, times=times)

    def make_epbc(self, k, spec):
        """spec: (variable, components, master region, slave region)."""
        n, comps, r0, r1 = spec
        f = self.fields[n]
        dpn = f.n_components
        m = sorted(set(region_dofs(f, self.dom, GEOM_V(self, r0), self.order)))
        s = sorted(set(region_dofs(f, self.dom, GEOM_V(self, r1), self.order)))
        assert len(m) == len(s)
        i1, i2 = list(range(len(m))), list(range(len(s)))
        self.rnd.shuffle(i1)
        self.rnd.shuffle(i2)
        # DOF names of the master region: of the slave region
        c0, c1 = comps if isinstance(comps, tuple) else ('all', 'all')
        l0 = list(range(dpn)) if c0 == 'all' else [c0]
        l1 = list(range(dpn)) if c1 == 'all' else [c1]
        for a, b in zip(i1, i2):
            for p, q in zip(l0, l1):
                self.links[n].append((m[a] * dpn + p, s[b] * dpn + q))
        x0, x1 = f.get_coor(np.array(m, dtype=np.int32)), f.get_coor(np.array(s, dtype=np.int32))

        def match(c0_, c1_):
            self.W.eqs('master coordinates', c0_, x0)
            self.W.eqs('slave coordinates', c1_, x1)
            return np.array(i1), np.array(i2)
        name = lambda c: '%s.%s' % (n, c)
        return self.C.PeriodicBC('per%d' % k, [self.regs[r0], self.regs[r1]], {name(c0): name(c1)},
                                 self.F.Function('match%d' % k, match), key='epbc_%02d' % k)

    def map(self, ts=None, active_only=True):
        C = self.C
        return self.V.equation_mapping(
            C.Conditions(list(self.ebc_list)) if self.ebc_list else None,
            C.Conditions(list(self.epbc_list)) if self.epbc_list else None, ts, self.functions,
            active_only=active_only)

    def groups(self, n):
        """(groups of equal DOFs, prescribed value or None of each)."""
        nd = self.vars[n].n_dof
        gs = components(self.links[n] + [(i, i) for i in range(nd)])
        out = []
        for g in gs:
            vals = [self.value[n, d] for d in sorted(g) if (n, d) in self.value]
            out.append((g, vals))
        return out

def GEOM_V(P, reg):
    return list(P.regs[reg].vertices)

EB = {
    'line': [[], [('u', 'all', 'a', 'const')], [('u', (0,), 'a', 'fun'), ('u', 'all', 'b', 'array')],
             [('u', 'all', 'ac', 'name')]],
    'quad': [[], [('u', 'all', 'l', 'fun')], [('u', (0,), 'l', 'array'), ('u', 'all', 'z', 'const')],
             [('u', 'all', 'l', 'flat'), ('u', (0,), 'w', 'list')]],
    'tet': [[], [('u', 'all', 'a', 'fun'), ('u', (0,), 'e', 'list')], [('u', 'all', 'f', 'array')]],
}
EB2 = [[('u', (1, 0), 'l', 'fun'), ('u', (1,), 'w', 'array')], [('u', (1,), 't', 'name'), ('v', 'all', 'd', 'fun')],
       [('v', 'all', 'l', 'const')]]
EP = {
    'line': [[], [('u', None, 'a', 'b')], [('u', None, 'a', 'b'), ('u', None, 'b', 'c')]],
    'quad': [[], [('u', None, 'l', 'r')], [('u', None, 'l', 'r'), ('u', None, 'd', 't')],
             [('u', None, 'd', 't'), ('u', None, 'r', 'l')], [('u', None, 'l', 'r'), ('u', None, 'r', 'm')],
             [('u', None, 'l', 'r'), ('u', None, 'r', 'm'), ('u', None, 'l', 'm')],
             [('u', None, 'x', 'y'), ('u', None, 'y', 'z'), ('u', None, 'z', 'w')],
             [('u', None, 'x', 'y'), ('u', None, 'z', 'w'), ('u', None, 'y', 'z')],
             [('u', None, 'x', 'y'), ('u', None, 'z', 'w'), ('u', None, 'w', 'y'), ('u', None, 'l', 'r')]],
    'tet': [[], [('u', None, 'c', 'e')]],
}
EP2 = [[('u', (0, 1), 'l', 'r')], [('u', (0, 0), 'l', 'r'), ('u', (1, 1), 'd', 't')],
       [('u', None, 'l', 'r'), ('v', None, 'd', 't')]]
MAPS = [dict(mesh=m, order=o, dpns=d, ebcs=e, epbcs=p, seed=s, virtual=v)
        for m, o, d in (('line', 1, (1,)), ('line', 2, (1,)), ('quad', 1, (1,)), ('quad', 2, (1,)), ('quad', 1, (2,)),
                        ('tet', 1, (3,)))
        for e in EB[m] for p in EP[m] for s, v in ((1, 0), (2, 1)) if not (v and len(p) > 1)]
MAPS += [dict(mesh='quad', order=1, dpns=(2, 1), ebcs=e, epbcs=p, seed=s, virtual=s - 3)
         for e in EB2 for p in [[]] + EP2 for s in (3, 4)]
MAPS += [dict(mesh='quad', order=1, dpns=(1, 2, 1), ebcs=[('w', 'all', 'l', 'fun'), ('u', 'all', 'z', 'const')],
              epbcs=[('v', (1, 0), 'd', 't'), ('w', None, 'x', 'y')], seed=5, virtual=1)]

def mapping(W, c):
    P = Setup(W, c['mesh'], c['order'], c['dpns'], c['ebcs'], c['epbcs'], c['seed'], virtual=c['virtual'])
    return P

@contract('equation mapping', MAPS)
def equation_mapping(W, **c):
    """The equation map of each variable partitions the DOFs by the conditions."""
    P = mapping(W, c)
    act = P.map()
    want = {(b.key, b.name) for b in P.ebc_list + P.epbc_list}
    W.true('active conditions', {a[:2] for a in act} == want)
    V = P.V
    off = aoff = 0
    for n in P.vars:
        var = P.vars[n]
        eq = [int(k) for k in var.eq_map.eq]
        gs = P.groups(n)
        free = [g for g, v in gs if not v]
        W.true('number of active DOFs of ' + n, var.n_adof == len(free) == var.eq_map.n_eq)
        ok = len(eq) == var.n_dof
        for g, v in gs:
            ids = {eq[d] for d in g}
            ok = ok and len(ids) == 1 and (min(ids) >= 0) == (not v)
        W.true('equal numbers in the groups, negative for the prescribed DOFs of ' + n, ok)
        W.true('each free group has its equation of ' + n,
               sorted(eq[min(g)] for g in free) == list(range(len(free))))
        W.true('slices of ' + n, V.di.indx[n] == slice(off, off + var.n_dof)
               and V.adi.indx[n] == slice(aoff, aoff + len(free)))
        em = var.eq_map
        W.true('counts of ' + n, em.n_ebc == len(em.eq_ebc) and em.n_epbc == len(em.master) == len(em.slave))
        if c['virtual']:
            tv = V['t' + n]
            if tv.eq_map is not None:
                W.true('test variable ' + n, [int(k) for k in tv.eq_map.eq] == eq)
        op = em.get_operator().toarray()
        R = [[1 if eq[i] == j else 0 for j in range(len(free))] for i in range(var.n_dof)]
        W.true('shape of the operator of ' + n, op.shape == (var.n_dof, len(free)))
        for i in range(var.n_dof):
            for j in range(len(free)):
                W.eq('operator of %s %d,%d' % (n, i, j), op[i, j], R[i][j])
        off += var.n_dof
        aoff += len(free)
    W.true('matrix shape', V.get_matrix_shape() == (aoff, aoff))
    W.true('totals', V.di.get_n_dof_total() == off and V.adi.get_n_dof_total() == aoff)

@contract('expand and reduce', MAPS)
def expand_reduce(W, **c):
    P = mapping(W, c)
    P.map()
    V = P.V
    V.init_state()
    na, nd = V.adi.n_dof_total, V.di.n_dof_total
    r = W.reals('r', na)
    r0 = r.copy()
    vec = V.make_full_vec(r)
    for n in P.vars:
        var, o, ao = P.vars[n], V.di.indx[n].start, V.adi.indx[n].start
        eq = var.eq_map.eq
        for g, v in P.groups(n):
            for d in sorted(g):
                W.eq('full %s %d' % (n, d), vec[o + d],
                     v[0] if len(v) == 1 else vec[o + min(g)] if v else r[ao + int(eq[d])])
    W.eqs('reduce(expand(r)) = r', V.reduce_vec(vec), r)
    W.eqs('frame', r, r0)
    out = W.reals('buf', na)
    W.true('given buffer', V.reduce_vec(vec, svec=out) is out)
    W.eqs('reduce to a buffer', out, r)
    buf = W.reals('buf2', nd)
    W.true('given buffer', V.make_full_vec(r, vec=buf) is buf)
    W.eqs('expand to a buffer', buf, vec)
    # prescribed values overridden
    fv = V.make_full_vec(r, force_value=0.0)
    ap = W.reals('x', nd)
    x0 = ap.copy()
    red = V.reduce_vec(ap, follow_epbc=True)
    V.apply_ebc(ap)
    W.eqs('expand(reduce(apply_ebc)) = apply_ebc', V.make_full_vec(V.reduce_vec(ap)), ap)
    fo = x0.copy()
    V.apply_ebc(fo, force_values=0.0)
    fd = x0.copy()
    V.apply_ebc(fd, force_values={n: 7.0 for n in P.vars})
    for n in P.vars:
        var, o, ao = P.vars[n], V.di.indx[n].start, V.adi.indx[n].start
        eq = var.eq_map.eq
        for g, v in P.groups(n):
            g = sorted(g)
            for d in g:
                W.eq('force_value %s %d' % (n, d), fv[o + d], 0 if v else vec[o + d])
                W.eq('apply_ebc: equal in the group %s %d' % (n, d), ap[o + d], ap[o + g[0]])
                if len(v) == 1:
                    W.eq('apply_ebc: prescribed %s %d' % (n, d), ap[o + d], v[0])
                if v:
                    W.eq('apply_ebc: force_values %s %d' % (n, d), fo[o + d], 0)
                    W.eq('apply_ebc: dict force_values %s %d' % (n, d), fd[o + d], 7)
                elif len(g) == 1:
                    for q, lab in ((ap, 'apply_ebc'), (fo, 'force_values'), (fd, 'dict force_values')):
                        W.eq('%s: free DOF untouched %s %d' % (lab, n, d), q[o + d], x0[o + d])
            if not v:
                W.eq('reduce with follow_epbc sums the group %s %d' % (n, g[0]), red[ao + int(eq[g[0]])],
                     sum(x0[o + d] for d in g))

STATE = [c for c in MAPS if len(c['dpns']) > 1 or c['mesh'] == 'quad' and c['order'] == 1][::5]

@contract('state of the variables', STATE)
def state(W, **c):
    P = mapping(W, c)
    P.map()
    V = P.V
    V.init_state()
    na, nd = V.adi.n_dof_total, V.di.n_dof_total
    r = W.reals('r', na)
    full = V.make_full_vec(r)
    V.set_state(r, reduced=True)
    W.eqs('set_state(reduced)', V(), full)
    W.eqs('get_state', V.get_state(), full)
    W.eqs('get_state(reduced)', V.get_state(reduced=True), r)
    for n in P.vars:
        W.eqs('state of ' + n, V(n), full[V.di.indx[n]])
        W.eqs('variable data of ' + n, V[n](), full[V.di.indx[n]])
    x = W.reals('x', nd)
    x0 = x.copy()
    V.set_state(x)
    W.eqs('set_state(full)', V(), x0)
    for n in P.vars:
        W.eqs('variable data of ' + n, V[n](), x0[V.di.indx[n]])
    y = x0.copy()
    V.apply_ebc(y)
    V.set_state(x, apply_ebc=True)
    W.eqs('set_state(apply_ebc)', V(), y)
    W.eqs('the argument has the conditions applied', x, y)
    parts = V.get_state_parts()
    W.true('parts', list(parts) == list(P.vars))
    for n in P.vars:
        W.eqs('part ' + n, parts[n], y[V.di.indx[n]])
    new = {n: W.reals('p' + n, P.vars[n].n_dof) for n in P.vars}
    V.set_state_parts(new)
    for n in P.vars:
        W.eqs('set part ' + n, V()[V.di.indx[n]], new[n])
    z = W.reals('z', nd)
    z0 = z.copy()
    for n in P.vars:
        W.eqs('get_vec_part ' + n, V.get_vec_part(z, n), z0[V.di.indx[n]])
        rr = W.reals('rr', na)
        rr0 = rr.copy()
        part = W.reals('q' + n, P.vars[n].n_adof)
        V.set_vec_part(rr, n, part, reduced=True)
        for i in range(na):
            j = i - V.adi.indx[n].start
            W.eq('set_vec_part %d' % i, rr[i], part[j] if 0 <= j < len(part) else rr0[i])
        W.eqs('get_vec_part reduced ' + n, V.get_vec_part(rr, n, reduced=True), part)
    V.fill_state(3.0)
    for i in range(nd):
        W.eq('fill_state', V()[i], 3)
    W.true('wrong size', W.raises(ValueError, V.check_vec_size, W.reals('bad', nd + 1)))
    W.true('wrong reduced size', W.raises(ValueError, V.make_full_vec, W.reals('bad2', na + 1)))
    h = full.copy()
    if not W.symbolic and all(len(v) < 2 for n in P.vars for g, v in P.groups(n)):
        W.true('has_ebc', V.has_ebc(h))
        for n in P.vars:
            for g, v in P.groups(n):
                if v or len(g) > 1:
                    h2 = h.copy()
                    h2[V.di.indx[n].start + min(g)] += 1.0
                    W.true('not has_ebc', not V.has_ebc(h2))

@contract('conditions active in time', [dict(sel=s, epbc=e) for s in itertools.product((0, 1), repeat=2) for e in (0, 1)])
def in_time(W, sel, epbc):
    """Repeated mapping in a history: only the conditions active in the given step count."""
    c = dict(mesh='quad', order=1, dpns=(2,), ebcs=[('u', 'all', 'l', 'array'), ('u', (0,), 'w', 'array')],
             epbcs=[('u', (1, 1), 'd', 't')] if epbc else [], seed=1, virtual=0)
    P = mapping(W, c)

    class TS:
        step = 0
    for step, on in enumerate([(1, 1), sel, (1, 0), sel]):
        ts = TS()
        ts.step, ts.time = step, W.frac(step, 1) if W.symbolic else float(step)
        P2 = mapping(W, dict(c, ebcs=[e for e, k in zip(c['ebcs'], on) if k]))
        for b, k in zip(P.ebc_list, on):
            b.times = [(ts.time, ts.time + 1)] if k else [(ts.time + 1, ts.time + 2), (ts.time - 1, ts.time)]
        act = P.map(ts)
        P2.map(ts)
        W.true('active set', {a[1] for a in act} == {b.name for b, k in zip(P.ebc_list, on) if k}
               | {b.name for b in P.epbc_list})
        e, e2 = P.vars['u'].eq_map, P2.vars['u'].eq_map
        W.true('equations %d' % step, (e.eq == e2.eq).all() and e.n_eq == e2.n_eq)
        names = {b.name: b for b in P.ebc_list}
        r = W.reals('r%d' % step, e.n_eq)
        full = P.V.make_full_vec(r)
        for g, v in P2.groups('u'):
            for d in g:
                if not v:
                    W.eq('free', full[d], r[int(e.eq[d])])
        # the values come from the conditions of P
        fixed = {}
        for k, (spec, o) in enumerate(zip(c['ebcs'], on)):
            if o:
                val = P.ebc_list[k].dofs
                v = list(val.values())[0] if isinstance(val, dict) else val[1]
                ids = range(2) if spec[1] == 'all' else spec[1]
                for nod in GEOM_V(P, spec[2]):
                    for j, q in enumerate(ids):
                        fixed[int(nod) * 2 + q] = v[j]
        for d, v in fixed.items():
            W.eq('prescribed %d' % d, full[d], v)

@contract('initial conditions', [dict(kind=k, dpn=d) for k in ('const', 'array', 'fun') for d in (1, 2)])
def initial(W, kind, dpn):
    P = Setup(W, 'quad', 1, (dpn, 1), [], [], 1)
    V, f = P.V, P.fields['u']
    nods = GEOM_V(P, 'l')
    nd = V.di.n_dof_total
    if kind == 'const':
        val, get = 2.5, lambda p, j: W.frac(5, 2) if W.symbolic else 2.5
    elif kind == 'array':
        a = W.reals('a', dpn)
        val, get = a, lambda p, j: a[j]
    else:
        a = W.reals('a', len(nods), dpn)
        val, get = P.F.Function('f', lambda coors, ic=None: a.copy()), lambda p, j: a[p, j]
    ics = P.C.Conditions([P.C.InitialCondition('ic', P.regs['l'], {'u.all': val}, key='ic_0')])
    V.setup_initial_conditions(ics, None)
    x = W.reals('x', nd)
    x0 = x.copy()
    V['v'].initial_condition = None
    w = W.real('w')
    V['u'].apply_ic(x, V.di.indx['u'].start)
    o = V.di.indx['u'].start
    for i in range(nd):
        j = i - o
        if 0 <= j < f.n_nod * dpn:
            n, k = divmod(j, dpn)
            W.eq('initial value %d' % i, x[i], get(list(nods).index(n), k) if n in nods else 0)
        else:
            W.eq('frame %d' % i, x[i], x0[i])
    W.eqs('get_initial_condition', V['u'].get_initial_condition(), x[o:o + f.n_nod * dpn])

# ------------------------------------------------------------ matching of periodic nodes
def grid(W, seed, dim, axis, n):
    """Two shuffled copies of nodes in planes orthogonal to the axis."""
    r = random.Random(seed)
    pts = set()
    while len(pts) < n:
        pts.add(tuple(Fraction(r.randrange(-12, 13), 4) for _ in range(dim - 1)))
    pts = sorted(pts)
    out = []
    for v in (Fraction(-3, 2), Fraction(7, 4)):
        q = [list(p[:axis]) + [v] + list(p[axis:]) for p in pts]
        r.shuffle(q)
        out.append(q)
    f = lambda a: W.array(a) if W.symbolic else np.array([[float(c) for c in p] for p in a])
    return f(out[0]), f(out[1])

MATCH = [dict(fun='match_%s_%s' % ('xyz'[a], k), dim=d, axis=a, kind=k) for d in (2, 3) for a in range(d)
         for k in ('line', 'plane') if not (k == 'line' and d == 3)]

@contract('periodic matching', [dict(c, seed=s, n=n) for c in MATCH for s, n in ((1, 3), (2, 5), (3, 1))])
def matching(W, fun, dim, axis, kind, seed, n):
    """Matched nodes differ only in the direction of periodicity; each node is matched once, in each call."""
    m = W.mod(PE)
    m.periodic_cache.clear()
    other = 1 - axis if kind == 'line' else axis
    f = getattr(m, 'match_%s_%s' % ('xyz'[other], kind))
    for k in range(3):
        c1, c2 = grid(W, seed * 10 + k, dim, axis, n)
        i1, i2 = f(c1, c2)
        W.true('permutations', sorted(i1) == sorted(i2) == list(range(n)))
        for a, b in zip(i1, i2):
            for j in range(dim):
                if j != axis:
                    W.eq('call %d: coordinate %d' % (k, j), c1[a, j], c2[b, j])

@contract('periodic matching/equal coordinates', [dict(seed=s) for s in (1, 2)])
def match_coors(W, seed):
    m = W.mod(PE)
    m.periodic_cache.clear()
    for k in range(2):
        c1, _ = grid(W, seed + k, 3, 0, 4)
        p = random.Random(seed + k).sample(range(4), 4)
        c2 = c1[p]
        i1, i2 = m.match_coors(c1, c2)
        W.true('permutations', sorted(i1) == sorted(i2) == list(range(4)))
        for a, b in zip(i1, i2):
            W.eqs('call %d: coordinates' % k, c1[a], c2[b])

@contract('periodic matching/refused')
def match_refused(W):
    m = W.mod(PE)
    m.periodic_cache.clear()
    c1, c2 = grid(W, 1, 2, 0, 3)
    c3 = c2.copy()
    c3[0, 1] = c3[0, 1] + 1
    W.true('different coordinates', W.raises(ValueError, m.match_y_line, c1, c3))
    W.true('different numbers', W.raises(ValueError, m.match_y_line, c1, c2[:2]))

if __name__ == '__main__':
    main(S)
