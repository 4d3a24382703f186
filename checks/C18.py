"""Linear combination boundary conditions."""
import itertools, random
from fractions import Fraction
import numpy as np
from engine.vc import Suite, main
from engine import pyworld, sym
from checks import felib

OPS, CO, FU = 'sfepy.discrete.fem.lcbc_operators', 'sfepy.discrete.conditions', 'sfepy.discrete.functions'
UT = 'sfepy.discrete.fem.utils'
S = Suite('C18', 'linear combination conditions', assumptions=[
    'the meshes, constrained node sets and component subsets are enumerated; node coordinates, normals, weights, '
    'shifts and all DOF values are symbolic',
    'scipy.sparse by its contract (engine/spstand.py); sympy.solve is executed on enumerated constraint matrices',
    'floating-point evaluation is treated as exact arithmetic'], conc=1)
felib.use(S)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

class Prob:
    """Variables on a small mesh with symbolic coordinates."""
    def __init__(self, W, mesh, spec, regs, order=1, symbolic=True, facets=()):
        """spec: {variable: number of components}, regs: {name: vertices}."""
        self.W = W
        D = W.mod('sfepy.discrete')
        self.D, self.C, self.F = D, W.mod(CO), W.mod(FU)
        self.dom = dom = felib.domain(W, mesh)
        self.omega = dom.create_region('Omega', 'all')
        self.verts = regs
        self.regs = {n: dom.create_region('R' + n, 'vertex ' + ', '.join(map(str, vs)),
                                          'facet' if n in facets else 'vertex') for n, vs in regs.items()}
        if symbolic:
            x0 = dom.mesh.coors
            if W.symbolic:
                x = W.reals('x', *x0.shape)
            else:
                x = x0 + 0.2 * (np.array([[W.rng.random() for _ in r] for r in x0]) - 0.5)
            felib.move(W, dom, x)
        self.fields, self.vars, vs = {}, {}, []
        for i, (n, dpn) in enumerate(spec.items()):
            f = felib.field(W, self.omega, order, dpn, 'f' + n)
            v = D.FieldVariable(n, 'unknown', f)
            v._order = i
            self.fields[n], self.vars[n] = f, v
            vs += [v, D.FieldVariable('t' + n, 'test', f, primary_var_name=n)]
        self.V = D.Variables(vs)
        self.V.setup_dof_info()
        self.functions = self.F.Functions([])
        self.dpn = spec
        self.x = np.array(dom.mesh.coors)

    def nodes(self, reg, var='u'):
        return [int(i) for i in self.fields[var].get_dofs_in_region(self.regs[reg], merge=True)]

    def lc(self, kind, reg, dofs='u.all', reg2=None, dofs2=None, fun=None, args=None):
        k = getattr(self, 'nlc', 0)
        self.nlc = k + 1
        r2 = None if reg2 is None else self.regs[reg2]
        if callable(fun):
            fun = self.F.Function('map%d' % k, fun)
        return self.C.LinearCombinationBC('lc%d' % k, [self.regs[reg], r2], {dofs: dofs2}, fun, kind,
                                          key='lcbc_%d' % k, arguments=args)

    def setup(self, lcbcs, ebcs=(), epbcs=()):
        """ebcs: (variable, component, region, value), epbcs: (variable, region 0, region 1)"""
        C = self.C
        self.ebcs, self.epbcs = ebcs, epbcs
        es = [C.EssentialBC('e%d' % i, self.regs[r], {'%s.%d' % (n, c): v}, key='e%d' % i)
              for i, (n, c, r, v) in enumerate(ebcs)]
        ident = self.F.Function('ident', lambda a, b: (np.arange(len(a)), np.arange(len(b))))
        ps = [C.PeriodicBC('p%d' % i, [self.regs[a], self.regs[b]], {n + '.all': n + '.all'}, match=ident,
                           key='p%d' % i) for i, (n, a, b) in enumerate(epbcs)]
        V = self.V
        V.equation_mapping(C.Conditions(es) if es else None, C.Conditions(ps) if ps else None, None, self.functions)
        V.setup_lcbc_operators(C.Conditions(list(lcbcs)), None, self.functions)
        V.init_state()
        return self.solve()

    def solve(self):
        W, V = self.W, self.V
        self.q = q = W.reals('q', V.lcdi.n_dof_total)
        u = V.make_full_vec(q)
        W.true('shape', u.shape == (V.di.n_dof_total,))
        self.M = M = V.mtx_lcbc.toarray()
        W.true('shape of the operator', M.shape == (V.adi.n_dof_total, len(q)))
        W.true('names of the variables', list(V.lcdi.var_names) == list(self.dpn))
        off = 0
        for n in self.dpn:
            W.true('slices', V.lcdi.indx[n] == slice(off, off + V.lcdi.n_dof[n]))
            off += V.lcdi.n_dof[n]
        W.true('total', off == len(q))
        self.u = {n: u[V.di.indx[n]].reshape((-1, d)) for n, d in self.dpn.items()}
        for n, c, r, v in self.ebcs:
            W.eqs('prescribed values', self.u[n][self.nodes(r, n), c], np.full(len(self.nodes(r, n)), 1) * v)
        for n, a, b in self.epbcs:
            W.eqs('periodic values', self.u[n][sorted(self.nodes(a, n))], self.u[n][sorted(self.nodes(b, n))])
        V.set_state(q, reduced=True)
        W.eqs('state', V(), u)
        W.eqs('reduced state', V.get_state(reduced=True), q)
        W.true('state with the full vector', W.raises(ValueError, V.set_state, u))
        return self.u

    def free(self, con, dim=None):
        """
        con: {variable: [(node, component)]}, the DOFs determined by the conditions.
        All other DOFs are free: each is its own unknown. The operator has full column rank.
        """
        W, V, M = self.W, self.V, self.M
        used = []
        for n, d in self.dpn.items():
            eq = self.vars[n].eq_map.eq
            c = {int(eq[i * d + k]) for i, k in con.get(n, ())}
            a0 = V.adi.indx[n].start
            sl = V.lcdi.indx[n]
            for i in range(V.adi.n_dof[n]):
                if i in c:
                    continue
                row = M[a0 + i]
                nz = [j for j in range(len(row)) if not _zero(W, row[j])]
                ok = len(nz) == 1 and sl.start <= nz[0] < sl.stop
                W.true('free DOF %s %d' % (n, i), ok)
                if ok:
                    W.eq('free DOF value %s %d' % (n, i), row[nz[0]], 1)
                used += nz
        W.true('different unknowns', len(set(used)) == len(used))
        if dim is not None:
            W.true('number of the unknowns', len(self.q) == len(used) + dim)
        # rank: rows with a single entry in the remaining columns
        left = set(range(M.shape[1]))
        nzs = [[j for j in range(M.shape[1]) if not _zero(W, M[i, j])] for i in range(M.shape[0])]
        go = True
        while go and left:
            go = False
            for i, nz in enumerate(nzs):
                r = [j for j in nz if j in left]
                if len(r) == 1 and _one(W, M[i, r[0]]):
                    left.discard(r[0])
                    go = True
        if not W.symbolic:
            W.true('rank', np.linalg.matrix_rank(M.astype(float)) == M.shape[1])
        return left

def _zero(W, v):
    return sym.iszero(sym.lift(v)) if W.symbolic else v == 0

def _one(W, v):
    if W.symbolic:
        v = sym.lift(v)
        return v.is_const() and v.const() == 1
    return v == 1

def cross(W, r, x):
    """The displacement by the rotation r of the point x."""
    if len(x) == 2:
        return [0 - r[0] * x[1], r[0] * x[0]]
    return [r[1] * x[2] - r[2] * x[1], r[2] * x[0] - r[0] * x[2], r[0] * x[1] - r[1] * x[0]]

def pairs(nodes, comps):
    return [(i, c) for i in nodes for c in comps]

# ------------------------------------------------------------ rigid bodies
REGS = {
    'tri': {'r': [0, 1, 2], 'o': [3]},
    'quad': {'r': [0, 1, 4, 3], 'o': [2], 's': [5], 'l': [0, 3], 'm': [1, 4]},
    'tet': {'r': [0, 1, 2, 4], 'o': [3]},
    'hex': {'r': [0, 3, 6, 9, 1], 'o': [11], 's': [2, 5, 8]},
}
EBS = {'tri': [[], [('u', 0, 'o', 0.5)]], 'quad': [[], [('u', 1, 'o', 0.5), ('u', 0, 's', -1.5)]],
       'tet': [[('u', 2, 'o', 2.0)]], 'hex': [[('u', 1, 's', 1.0)]]}

@contract('rigid', [dict(mesh=m, ebc=e) for m in REGS for e in range(len(EBS[m]))])
def rigid(W, mesh, ebc):
    d = 3 if mesh in ('tet', 'hex') else 2
    P = Prob(W, mesh, {'u': d}, REGS[mesh])
    u = P.setup([P.lc('rigid', 'r')], EBS[mesh][ebc])['u']
    x = P.x
    nods = P.nodes('r')
    for a, b in itertools.combinations(nods, 2):
        W.eq('no length change %d %d' % (a, b), sum((u[a, k] - u[b, k]) * (x[a, k] - x[b, k]) for k in range(d)), 0)
    P.free({'u': pairs(nods, range(d))}, {2: 3, 3: 6}[d])

@contract('rigid/components', [dict(mesh=m, comps=c) for m in ('quad', 'hex')
                               for k in (1, 2) for c in itertools.permutations(range(3 if m == 'hex' else 2), k)])
def rigid_components(W, mesh, comps):
    """Only some components are constrained: they still follow from a rigid motion."""
    d = 3 if mesh == 'hex' else 2
    P = Prob(W, mesh, {'u': d}, REGS[mesh])
    u = P.setup([P.lc('rigid', 'r', 'u.%s' % ('[%s]' % ','.join(map(str, comps)) if len(comps) > 1 else comps[0]))])['u']
    x = P.x
    nods = P.nodes('r')
    dim = {(2, 1): 2, (2, 2): 3, (3, 1): 3, (3, 2): 5}[d, len(comps)]
    P.free({'u': pairs(nods, comps)}, dim)
    if d == 2:
        if len(comps) == 1:
            c = comps[0]
            o = 1 - c
            for a, b, e in itertools.combinations(nods, 3):
                W.eq('affine %d %d %d' % (a, b, e), (u[a, c] - u[e, c]) * (x[b, o] - x[e, o]),
                     (u[b, c] - u[e, c]) * (x[a, o] - x[e, o]))
        else:
            for a, b in itertools.combinations(nods, 2):
                W.eq('no length change %d %d' % (a, b),
                     sum((u[a, k] - u[b, k]) * (x[a, k] - x[b, k]) for k in range(d)), 0)
        return
    for c in comps:
        o = [k for k in range(3) if k != c]
        for qs in itertools.combinations(nods, 4):
            m = [[1, x[k, o[0]], x[k, o[1]], u[k, c]] for k in qs]
            W.eq('affine %s %d' % (qs, c), det(m), 0)
def det(m):
    if len(m) == 1:
        return m[0][0]
    s = 0
    for j in range(len(m)):
        s = s + (-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
    return s

MPC = [dict(d=2, rot=0), dict(d=2, rot=1), dict(d=3, rot=0), dict(d=3, rot=1)]

def mpc(W, d, rot, same=False, symbolic=True):
    """The displacements u of the body and w in the reference nodes, with rotations."""
    mesh = 'quad' if d == 2 else 'hex'
    spec = {'u': d} if same else {'u': d, 'w': d + ({2: 1, 3: 3}[d] if rot else 0)}
    return Prob(W, mesh, spec, REGS[mesh], symbolic=symbolic)

@contract('rigid2', [dict(c, same=0) for c in MPC] + [dict(d=d, rot=0, same=1) for d in (2, 3)])
def rigid2(W, d, rot, same):
    P = mpc(W, d, rot, same)
    n = 'u' if same else 'w'
    res = P.setup([P.lc('rigid2', 'r', 'u.all', 'o', n + '.all')])
    u, w = res['u'], res[n]
    nods, (o,) = P.nodes('r'), P.nodes('o', n)
    for a in nods:
        t = [w[o, k] for k in range(d)]
        if rot:
            r = cross(W, w[o, d:], P.x[a] - P.x[o])
            t = [t[k] + r[k] for k in range(d)]
        W.eqs('rigid motion of %d' % a, u[a], t)
    P.free({'u': pairs(nods, range(d))}, 0)

@contract('rigid2/refused')
def rigid2_refused(W):
    P = mpc(W, 2, 1)
    W.true('two independent nodes', W.raises(ValueError, P.setup, [P.lc('rigid2', 'r', 'u.all', 'm', 'w.all')]))

@contract('average force', [dict(c, weights=k) for c in MPC for k in (0, 1, 2)])
def average_force(W, d, rot, weights):
    """
    The motion of the dependent node is the weighted least squares fit of the motion of the
    independent nodes: the rigid motions are reproduced.
    """
    fixed = rot and (d == 3 or weights != 2)
    P = mpc(W, d, rot, symbolic=not fixed)
    sy = {2: 3, 3: 6}[d]
    nods, (o,) = P.nodes('r'), P.nodes('o', 'w')
    n = len(nods)
    if fixed:
        # points in rational distances
        c = P.fields['u'].coors
        off = [(3, 4), (-5, 12), (8, -15), (0, 2)] if d == 2 else [(1, 2, 2), (-2, 3, 6), (4, -4, 7), (2, -1, -2), (0, 3, 4)]
        for f in P.fields.values():
            for i, v in zip(nods, off):
                for k in range(d):
                    f.coors[i, k] = f.coors[o, k] + v[k]
        P.x = np.array(c)
    ws = np.ones((n, sy), dtype=int)
    fun = None
    if weights:
        # the rotations of the independent nodes are ignored
        ws = W.reals('w', n, sy, pos=True)
        if weights == 2:
            ws[:, d:] = 0
        if W.symbolic and d == 3 and rot:
            r = random.Random(3)
            ws = W.array([[W.frac(r.randint(1, 9), 4) if k < d or weights == 1 else 0 for k in range(sy)]
                          for i in range(n)])
        wc = ws.copy()
        if not rot:
            wc = wc[:, :d]

        def fun(mc, sc):
            W.eqs('coordinates of the dependent node', mc, P.x[[o]])
            W.eqs('coordinates of the independent nodes', sc, P.x[nods])
            return wc
    elif not rot:
        pass
    res = P.setup([P.lc('average_force', 'r', 'u.all', 'o', 'w.all', fun)])
    u, w = res['u'], res['w']
    P.free({'w': pairs([o], range(d + (sy - d if rot else 0)))}, 0)
    rel = [P.x[i] - P.x[o] for i in nods]
    if not rot:
        for k in range(d):
            W.eq('mean displacement %d' % k, w[o, k] * sum(ws[:, k]), sum(ws[i, k] * u[a, k] for i, a in enumerate(nods)))
        return
    # sum_k S_k^T W_k (S_k w - [u_k, 0]) = 0
    if weights != 2:
        lens = [W.num(float(np.sqrt(float(sum(c * c for c in v))))) for v in rel]
        ml = sum(lens) / n
        rs = ml * ml
    else:
        rs = 0
    for k in range(sy):
        e = [1 if j == k else 0 for j in range(sy)]
        s = 0
        for i, a in enumerate(nods):
            te, tw = cross(W, e[d:], rel[i]), cross(W, w[o, d:], rel[i])
            for j in range(d):
                s = s + (e[j] + te[j]) * ws[i, j] * (w[o, j] + tw[j] - u[a, j])
            for j in range(d, sy):
                s = s + e[j] * ws[i, j] * rs * w[o, j]
        W.eq('least squares %d' % k, s, 0)

@contract('rigid twist', [dict(axis=a) for a in range(4)])
def rigid_twist(W, axis):
    P = Prob(W, 'hex', {'u': 3}, {'m': [0, 3, 6, 9], 's': [2, 5, 8], 'o': [11]})
    A = W.reals('A', 3)
    h = W.real('h')
    if axis < 3:
        a = W.array([1 if k == axis else 0 for k in range(3)])
    else:
        a = W.array([W.frac(2, 7), W.frac(-3, 7), W.frac(6, 7)])
    ss = P.regs['s'].name
    u = P.setup([P.lc('rigid_twist', 'm', args=(ss, A, a, h))], [('u', 0, 'o', 0.5)])['u']
    x = P.x
    # rigid motions of both regions
    for r in 'ms':
        for p, q in itertools.combinations(P.nodes(r), 2):
            W.eq('no length change %d %d' % (p, q),
                 sum((u[p, k] - u[q, k]) * (x[p, k] - x[q, k]) for k in range(3)), 0)
    # the relative motion is the screw motion phi (a x r + h a)
    M = P.M
    eq = P.vars['u'].eq_map.eq
    row = lambda i, k: M[int(eq[3 * i + k])]
    ms, ss = P.nodes('m'), P.nodes('s')
    con = pairs(ms + ss, range(3))
    P.free({'u': con}, 7)
    vals = {}
    for j in range(M.shape[1]):
        if all(_zero(W, row(i, k)[j]) for i, k in con):
            continue
        vals[j] = {i: np.array([row(i, k)[j] for k in range(3)]) for i in ms + ss}
    W.true('new unknowns', len(vals) == 7)
    # the unknown of the relative motion: the only one with opposite motions
    scr = []
    for j, v in vals.items():
        spin = {i: np.array(cross(W, a, x[i] - A)) for i in ms + ss}
        hit = all(_zero(W, _r(W, v[i][k] * 2 - sg * (spin[i][k] + h * a[k])))
                  for l, sg in ((ms, -1), (ss, 1)) for i in l for k in range(3))
        if hit:
            scr.append(j)
    W.true('one unknown of the screw motion', len(scr) == 1)
    for j, v in vals.items():
        if j in scr:
            continue
        for p in ms:
            for q in ss:
                W.eq('common rigid motion %d %d %d' % (j, p, q),
                     sum((v[p][k] - v[q][k]) * (x[p, k] - x[q, k]) for k in range(3)), 0)

def _r(W, v):
    if W.symbolic:
        return sym.normalize(sym.lift(v))
    return 0 if abs(v) < 1e-12 else v

@contract('rigid twist/refused')
def rigid_twist_refused(W):
    P = Prob(W, 'hex', {'u': 3}, {'m': [0, 3, 6, 9], 's': [2, 5, 8], 'o': [11]})
    l = P.lc('rigid_twist', 'm', args=(P.regs['s'].name, [0, 0, 0], [1, 0, 0], 0.5))
    W.true('prescribed values', W.raises(ValueError, P.setup, [l], [('u', 0, 's', 0.5)]))

# ------------------------------------------------------------ normals
NRM = [dict(d=2, big=b, kind=k) for b in itertools.product(range(2), repeat=2) for k in ('no_penetration', 'normal_direction')]
NRM += [dict(d=3, big=b, kind=k) for b in ((0, 1, 2), (2, 2, 0), (1, 0, 1), (0, 0, 0), (1, 1, 1), (2, 1, 2))
        for k in ('no_penetration', 'normal_direction', 'edge_direction')]

@contract('nodal directions', NRM)
def nodal_directions(W, d, big, kind):
    mesh = 'quad' if d == 2 else 'hex'
    n = len(big)
    P = Prob(W, mesh, {'u': d, 'p': 1}, {'r': [[0, 3], [2, 5, 8]][d - 2], 'o': [1]})
    nv = W.reals('n', n, d)
    for i, b in enumerate(big):
        if W.symbolic:
            for k in range(d):
                if k != b:
                    W.assume(nv[i, k] < nv[i, b])
                    W.assume(-nv[i, b] < nv[i, k])
            W.assume(nv[i, b] > 0)
        else:
            nv[i, b] = 3 + W.rng.random()
    seen = []

    def normals(nodes, region, field, return_imap=False):
        seen.append(([int(k) for k in nodes], region, field))
        return nv.copy()
    W.stub(OPS, 'compute_nodal_edge_dirs' if kind == 'edge_direction' else 'compute_nodal_normals', normals)
    res = P.setup([P.lc(kind, 'r', args=(None,))], [('u', d - 1, 'o', 2.0)])
    u = res['u']
    nods = P.nodes('r')
    W.true('nodes, region and field', seen == [(nods, P.regs['r'], P.fields['u'])])
    con = []
    for i, a in enumerate(nods):
        if kind == 'no_penetration':
            W.eq('no normal component %d' % a, sum(nv[i, k] * u[a, k] for k in range(d)), 0)
            con.append((a, big[i]))
        else:
            for k in range(d):
                W.eq('along the direction %d %d' % (a, k), u[a, k] * nv[i, big[i]], u[a, big[i]] * nv[i, k])
    if kind == 'no_penetration':
        P.free({'u': con}, 0)
    else:
        P.free({'u': pairs(nods, range(d))}, n)

# ------------------------------------------------------------ sums, ties
@contract('integral mean value', [dict(mesh=m, dofs=s) for m in ('quad', 'hex') for s in ('all', '0', '[1,0]')])
def mean_value(W, mesh, dofs):
    d = 3 if mesh == 'hex' else 2
    P = Prob(W, mesh, {'p': 1, 'u': d}, REGS[mesh])
    u = P.setup([P.lc('integral_mean_value', 'r', 'u.' + dofs)], [('u', 1, 'o', 2.0)])['u']
    cs = {'all': range(d), '0': [0], '[1,0]': [0, 1]}[dofs]
    con = pairs(P.nodes('r'), cs)
    for a, k in con:
        W.eq('single value %d %d' % (a, k), u[a, k], u[con[0][0], con[0][1]])
    P.free({'u': con}, 1)

TIES = [dict(kind=k, vs=v, ebc=e, dofs=f) for k in ('shifted_periodic', 'match_dofs') for v in ('uu', 'uw', 'wu')
        for e in (0, 1) for f in ((None, None), (0, 1), ((1, 0), (0, 1)))]

@contract('ties', TIES)
def ties(W, kind, vs, ebc, dofs):
    """u = w + shift in the matching nodes."""
    P = Prob(W, 'quad', {'u': 2, 'p': 1, 'w': 2}, {'l': [0, 3], 'r': [2, 5], 'm': [1, 4], 'x': [3]})
    a, b = vs
    n0, n1 = P.nodes('l', a), P.nodes('r', b)
    perm = [1, 0] if ebc else [0, 1]

    def fun(mc, sc):
        W.eqs('master coordinates', mc, P.x[n0])
        W.eqs('slave coordinates', sc, P.x[n1])
        return np.array([0, 1]), np.array(perm)
    comp = [list(range(2)) if c is None else [c] if isinstance(c, int) else list(c) for c in dofs]
    nm = [n + '.' + ('all' if c is None else '%d' % c if isinstance(c, int) else '[%d,%d]' % c)
          for n, c in zip((a, b), dofs)]
    sh = W.reals('s', 2, len(comp[0])) if kind == 'shifted_periodic' else np.zeros((2, len(comp[0])), dtype=int)
    args = None
    if kind == 'shifted_periodic':
        def shift(ts, coors, region):
            W.eqs('coordinates for the shift', coors, P.x[n1][perm])
            W.true('region for the shift', region is P.regs['r'])
            return sh.copy()
        args = (P.F.Function('shift', shift),)
    res = P.setup([P.lc(kind, 'l', nm[0], 'r', nm[1], fun, args)], [(a, 1, 'x', 0.5)] if ebc else [])
    con = []
    for i in range(2):
        m, s = n0[i], n1[perm[i]]
        for j in range(len(comp[0])):
            if ebc and m == 3 and comp[0][j] == 1:
                continue                                       # prescribed
            W.eq('tie %d %d' % (i, j), res[a][m, comp[0][j]], res[b][s, comp[1][j]] + sh[i, j])
            con.append((m, comp[0][j]))
    P.free({a: con}, 0)

@contract('ties/refused')
def ties_refused(W):
    P = Prob(W, 'quad', {'u': 2, 'w': 2}, {'l': [0, 3], 'r': [2], 'm': [1, 4], 'k': [0, 1]})
    f = lambda a, b: (np.array([0, 1]), np.array([0, 1]))
    W.true('different numbers of nodes', W.raises(ValueError, P.setup, [P.lc('match_dofs', 'l', 'u.all', 'r', 'w.all', f)]))
    W.true('overlapping regions', W.raises(ValueError, P.setup, [
        P.lc('match_dofs', 'l', 'u.all', 'm', 'w.all', f), P.lc('rigid', 'k', 'u.all')]))
    W.true('unknown kind', W.raises(ValueError, P.setup, [P.lc('nonsense', 'l', 'u.all')]))

@contract('multi node combination', [dict(vs=v, own=o, dofs=f) for v in ('uu',) for o in (0, 1) for f in ('all', '1', '[1,0]')])
def multi_node(W, vs, own, dofs):
    P = Prob(W, 'quad', {'p': 1, 'u': 2, 'w': 2}, {'l': [0, 3], 'r': [2, 5, 4], 'x': [1]})
    a, b = vs
    n0, n1 = P.nodes('l', a), P.nodes('r', b)
    idx = np.array([[2, 0], [1, 2]])
    cw = W.reals('c', 2, 2) if own == 0 else np.tile(W.reals('c', 2), (2, 1))

    def fun(mc, sc):
        W.eqs('coordinates of the dependent nodes', mc, P.x[n0])
        W.eqs('coordinates of the independent nodes', sc, P.x[n1])
        out = (np.array([1, 0]), idx.ravel())
        return out if own else out + (cw.copy(),)
    res = P.setup([P.lc('multi_node_combination', 'l', '%s.%s' % (a, dofs), 'r', '%s.%s' % (b, dofs), fun,
                        (cw[0] if own else None,))], [('u', 0, 'x', 0.5)])
    comp = {'all': [0, 1], '1': [1], '[1,0]': [1, 0]}[dofs]
    con = []
    for i, m in enumerate((n0[1], n0[0])):
        for c in comp:
            W.eq('combination %d %d' % (i, c), res[a][m, c], sum(cw[i, j] * res[b][n1[idx[i, j]], c] for j in range(2)))
            con.append((m, c))
    P.free({a: con}, 0)

# ------------------------------------------------------------ nodal combinations
NLC = {
    '2d': (2, 'all', [[1.0, -2.0]], [3.0], 1), '2d fixed': (2, 'all', [[1.0, 0.0], [1.0, 2.0]], [3.0, 0.5], 2),
    '2d one fixed': (2, 'all', [[2.0, 0.0]], [3.0], 1), '2d second': (2, 'all', [[0.0, 2.0]], [0.0], 1),
    '2d zero': (2, 'all', [[1.0, 0.0], [0.0, 1.0]], [0.0, 0.0], 2),
    '2d part': (2, '1', [[2.0]], [-1.0], 1), '2d swapped': (2, '[1,0]', [[1.0, 4.0]], [0.0], 1),
    '3d': (3, 'all', [[1.0, -2.0, 0.5]], [3.0], 1), '3d two': (3, 'all', [[1.0, -2.0, 0.5], [2.0, 1.0, 0.0]], [3.0, -1.0], 2),
    '3d some': (3, 'all', [[1.0, 1.0, 0.0]], [0.0], 1), '3d some shifted': (3, 'all', [[0.0, 1.0, -1.0]], [2.0], 1),
    '3d fixed and free': (3, 'all', [[1.0, 0.0, 0.0], [0.0, 1.0, 2.0]], [0.5, 1.5], 2),
    '3d one fixed': (3, 'all', [[0.0, 2.0, 0.0]], [1.0], 1),
    '3d part': (3, '[2,1]', [[1.0, 4.0]], [2.0], 1),
    '4': (4, 'all', [[1.0, 0.0, -1.0, 0.0], [0.0, 1.0, 0.0, -2.0]], [0.0, 0.0], 2),
    '4 shifted': (4, 'all', [[1.0, 0.0, -1.0, 0.0], [0.0, 1.0, -0.5, -2.0]], [1.0, 2.0], 2),
    '4 one': (4, 'all', [[0.0, 1.0, 0.0, -2.0]], [1.0], 1),
}

@contract('nodal combination', [dict(case=k, fun=f, ebc=e) for k in NLC for f in (0, 1) for e in (0, 1)])
def nodal_combination(W, case, fun, ebc):
    d, dofs, A, b, rank = NLC[case]
    P = Prob(W, 'quad', {'p': 1, 'u': d}, {'l': [0, 3], 'x': [1, 2]}, symbolic=False)
    nods = P.nodes('l')
    As, bs = np.array([A] * len(nods)), np.array([b] * len(nods))
    if fun:                                           # different in the nodes
        As = np.array([As[0], As[1][::-1] * 2])
        bs = np.array([bs[0], bs[1][::-1] * 2 + 0.5])

        def f(ts, coors, region):
            W.eqs('coordinates', coors, P.x[nods])
            W.true('region', region is P.regs['l'])
            return As, bs
        con = P.F.Function('con', f)
    else:
        con = (np.array(A), np.array(b))
    u = P.setup([P.lc('nodal_combination', 'l', 'u.' + dofs, args=(con,))], [('u', 0, 'x', 0.5)] if ebc else [])['u']
    comp = {'all': list(range(d)), '1': [1], '[1,0]': [1, 0], '[2,1]': [2, 1]}[dofs]
    for i, a in enumerate(nods):
        for r in range(len(b)):
            W.eq('combination %d %d' % (a, r), sum(W.num(As[i][r, j]) * u[a, c] for j, c in enumerate(comp)), W.num(bs[i][r]))
    left = P.free({'u': pairs(nods, comp)}, len(nods) * (len(comp) - rank))
    W.true('full column rank', not left)

# ------------------------------------------------------------ more conditions together
@contract('several conditions', [dict(order=o) for o in itertools.permutations(range(4))][::3])
def several(W, order):
    P = Prob(W, 'hex', {'u': 3, 'p': 1, 'w': 3}, {'a': [0, 3, 6], 'b': [1, 4], 'c': [7, 10], 'd': [2, 5], 'e': [8], 'f': [11]})
    nv = W.reals('n', 2, 3)
    if W.symbolic:
        for i in range(2):
            for k in range(2):
                W.assume(nv[i, k] < nv[i, 2])
                W.assume(nv[i, k] > 0)
                W.assume(nv[i, 2] > 0)
    else:
        nv[:, 2] = 3
    W.stub(OPS, 'compute_nodal_normals', lambda *a, **k: nv.copy())
    sh = W.reals('s', 2, 1)
    f = lambda a, b: (np.array([0, 1]), np.array([1, 0]))
    lcs = [P.lc('rigid', 'a', 'u.all'), P.lc('no_penetration', 'b', 'u.all', args=(None,)),
           P.lc('shifted_periodic', 'c', 'p.all', 'd', 'p.all', f, (P.F.Function('s', lambda *a: sh.copy()),)),
           P.lc('integral_mean_value', 'b', 'w.all')]
    res = P.setup([lcs[k] for k in order], [('u', 0, 'e', 0.5), ('w', 1, 'f', 1.0), ('p', 0, 'f', 1.0)])
    u, p, w, x = res['u'], res['p'], res['w'], P.x
    for a, b in itertools.combinations(P.nodes('a'), 2):
        W.eq('rigid', sum((u[a, k] - u[b, k]) * (x[a, k] - x[b, k]) for k in range(3)), 0)
    nb, nc, nd = P.nodes('b'), P.nodes('c', 'p'), P.nodes('d', 'p')
    for i, a in enumerate(nb):
        W.eq('no penetration', sum(nv[i, k] * u[a, k] for k in range(3)), 0)
        W.eqs('mean value', w[a], [w[nb[0], 0]] * 3)
        W.eq('shift', p[nc[i], 0], p[nd[1 - i], 0] + sh[i, 0])
    P.free({'u': pairs(P.nodes('a'), range(3)) + pairs(nb, [2]), 'w': pairs(nb, range(3)), 'p': pairs(nc, [0])}, 7)

@contract('no condition')
def no_condition(W):
    P = Prob(W, 'quad', {'u': 2}, {'l': [0, 3]})
    P.V.equation_mapping(None, None, None, P.functions)
    P.V.setup_lcbc_operators(None, None, P.functions)
    W.true('no conditions', P.V.lcdi is P.V.adi and not P.V.has_lcbc)
    c = P.lc('rigid', 'l')
    c.times = [(0.0, 1.0)]
    T = W.mod('sfepy.solvers.ts').TimeStepper(0.0, 4.0, n_step=5)
    for k, has in ((0, True), (1, False), (2, False), (0, True)):
        T.set_step(k)
        P.V.setup_lcbc_operators(P.C.Conditions([c]), T, P.functions)
        W.true('active conditions %d' % k, P.V.has_lcbc == has)
        n = 2 * 4 + 3 if has else 12
        W.eqs('expanded vector', P.V.make_full_vec(np.zeros(n)), np.zeros(12))

# ------------------------------------------------------------ periodic conditions
@contract('periodic', [dict(kind=k, regs=r) for k in ('rigid', 'no_penetration', 'normal_direction', 'integral_mean_value')
                       for r in range(4) if k != 'rigid' or r in (1, 3)])
def periodic(W, kind, regs):
    """Conditions in regions with (some of) the periodic DOFs."""
    reg = [[0, 1, 2], [2, 1, 4], [0, 2], [0, 1, 4]][regs]
    P = Prob(W, 'quad', {'u': 2}, {'r': reg, 'a': [0, 3], 'b': [2, 5]})
    n = len(reg)
    nv = W.reals('n', n, 2)
    srt = sorted(reg)
    if 0 in reg and 2 in reg:
        nv[srt.index(2)] = nv[srt.index(0)]
    if W.symbolic:
        for i in range(n):
            W.assume(nv[i, 1] > 0)
            W.assume(nv[i, 0] > 0)
            W.assume(nv[i, 0] < nv[i, 1])
    else:
        nv[:, 1] = 3
    W.stub(OPS, 'compute_nodal_normals', lambda *a, **k: nv.copy())
    args = None if kind in ('rigid', 'integral_mean_value') else (None,)
    u = P.setup([P.lc(kind, 'r', args=args)], (), [('u', 'a', 'b')])['u']
    nods, x = P.nodes('r'), P.x
    if kind == 'rigid':
        for a, b in itertools.combinations(nods, 2):
            W.eq('no length change', sum((u[a, k] - u[b, k]) * (x[a, k] - x[b, k]) for k in range(2)), 0)
        return
    for i, a in enumerate(nods):
        if kind == 'no_penetration':
            W.eq('no penetration %d' % a, nv[i, 0] * u[a, 0] + nv[i, 1] * u[a, 1], 0)
        elif kind == 'normal_direction':
            W.eq('normal direction %d' % a, nv[i, 0] * u[a, 1] - nv[i, 1] * u[a, 0], 0)
        else:
            W.eqs('single value %d' % a, u[a], [u[nods[0], 0]] * 2)

# ------------------------------------------------------------ nodal normals
# outward facets of the reference meshes as vertex lists
FACETS = {
    'quad': [[0, 1], [1, 2], [2, 5], [5, 4], [4, 3], [3, 0]],
    'hex': [[0, 3, 9, 6], [2, 8, 11, 5], [0, 6, 7, 1], [1, 7, 8, 2], [3, 4, 10, 9], [4, 5, 11, 10],
            [0, 1, 4, 3], [1, 2, 5, 4], [6, 9, 10, 7], [7, 10, 11, 8]],
    'tri': [[0, 1], [1, 2], [2, 3], [3, 0]],
}
# boundary edges of rational lengths
PYTH = {'quad': [[0, 0], [3, -4], [7, -1], [-5, 12], [3, 6], [7, 9]], 'tri': [[0, 0], [4, -3], [7, 1], [3, 4]]}

def ref_normals(W, x, facets, nods, at):
    """Sums of the unit facet normals; at(facet, node): is the node in the facet?"""
    out = []
    for n in nods:
        s = np.zeros(len(x[0]), dtype=object)
        for f in facets:
            if at(f, n):
                a, b = x[f[1]] - x[f[0]], x[f[-1]] - x[f[0]]
                v = W.array([a[1], -a[0]]) if len(a) == 2 else np.array(cross(W, b, a))
                l2 = sum(c * c for c in v)
                l = Fraction(l2.const() if hasattr(l2, 'const') else l2) if W.symbolic else l2
                l = W.frac(int(round(float(l) ** 0.5 * 100)), 100) if W.symbolic else float(l) ** 0.5
                W.eq('length of the normal', l * l, l2)
                s = s + v / l
        out.append(s)
    return out

NN = [dict(mesh=m, sel=s, order=o) for m in ('quad', 'hex', 'tri') for s in range(3) for o in (1, 2)]

@contract('nodal normals', NN)
def nodal_normals(W, mesh, sel, order):
    """The normals in the nodes are the normalized sums of the unit normals of the facets."""
    fs = FACETS[mesh]
    pick = {'quad': [[5, 0, 1], [0, 1], [2, 3, 4]], 'tri': [[0, 3], [1, 2], [3]],
            'hex': [[0, 2, 3], [4, 5, 8, 9], [0, 2, 6]]}[mesh][sel]
    fs = [fs[k] for k in pick]
    dom = felib.domain(W, mesh)
    if mesh != 'hex':
        x = W.array(PYTH[mesh]) if W.symbolic else np.array(PYTH[mesh], dtype=float)
        felib.move(W, dom, x)
    elif not W.symbolic and sel != 1 and order == 1:
        # sheared: the facets stay plane
        A = np.eye(3) + 0.4 * np.array([[W.rng.random() for _ in range(3)] for _ in range(3)])
        felib.move(W, dom, dom.mesh.coors @ A)
    verts = sorted({v for f in fs for v in f})
    reg = dom.create_region('G', 'vertex ' + ', '.join(map(str, verts)), 'facet', add_to_regions=True)
    # the facets with all vertices in the set
    fs = [f for f in FACETS[mesh] if set(f) <= set(verts)]
    field = felib.field(W, dom.create_region('Omega', 'all'), order, len(dom.mesh.coors[0]))
    nods = [int(k) for k in field.get_dofs_in_region(reg, merge=True)]
    x = np.array(dom.mesh.coors)
    fx = field.get_coor()

    def at(f, n):
        """Facet nodes: combinations of the facet vertices with order."""
        if n < len(x):
            return n in f
        cand = [(x[a] + x[b]) / 2 for a, b in itertools.combinations(f, 2)] + [sum(x[k] for k in f) / len(f)]
        return any(all(_zero(W, _r(W, c[k] - fx[n][k])) for k in range(len(c))) for c in cand)
    nv = W.mod(UT).compute_nodal_normals(np.array(nods, dtype=np.int32), reg, field)
    ref = ref_normals(W, x, fs, nods, at)
    W.true('shape', nv.shape == (len(nods), len(x[0])))
    for i, n in enumerate(nods):
        W.eq('unit %d' % n, sum(c * c for c in nv[i]), 1)
        for j, k in itertools.combinations(range(len(x[0])), 2):
            W.eq('direction %d' % n, nv[i, j] * ref[i][k], nv[i, k] * ref[i][j])
        W.lt('orientation %d' % n, 0, sum(a * b for a, b in zip(nv[i], ref[i])))

@contract('nodal normals/refused')
def nodal_normals_refused(W):
    dom = felib.domain(W, 'quad')
    reg = dom.create_region('G', 'vertex 0, 1, 3', 'facet')
    field = felib.field(W, dom.create_region('Omega', 'all'), 1, 2)
    f = W.mod(UT).compute_nodal_normals
    W.true('a node without a facet', W.raises(ValueError, f, np.array([0, 1, 2, 3], dtype=np.int32), reg, field))

EDG = {'line': [0, 1, 2], 'bent': [2, 1, 4, 3], 'closed': [0, 1, 4, 3, 0], 'two': None}

@contract('nodal edge directions', [dict(mesh=m, case=c) for m in ('quad', 'hex') for c in EDG])
def nodal_edge_directions(W, mesh, case):
    """Unit tangents of the polygons, in the inner nodes the averages of both edges."""
    dom = felib.domain(W, mesh)
    if mesh == 'quad':
        x = W.array(PYTH[mesh]) if W.symbolic else np.array(PYTH[mesh], dtype=float)
        # 1-4 is (0, 10), 0-3 (-5, 12), 3-4 (8, -6), 0-1 (3, -4)
        felib.move(W, dom, x)
    paths = [EDG[case]] if EDG[case] else [[0, 1, 2], [3, 4]] if mesh == 'quad' else [[0, 1, 2], [9, 10, 11]]
    conn = sorted({tuple(sorted(e)) for p in paths for e in zip(p[:-1], p[1:])})
    edges = dom.cmesh.get_conn(1, 0)
    alle = [tuple(sorted(int(k) for k in edges.indices[a:b])) for a, b in zip(edges.offsets[:-1], edges.offsets[1:])]
    verts = sorted({v for p in paths for v in p})
    reg = dom.create_region('E', 'vertex ' + ', '.join(map(str, verts)), 'edge')
    got = {alle[int(k)] for k in reg.edges}
    if got != set(conn):
        reg.entities[1] = np.array([alle.index(e) for e in conn], dtype=np.uint32)
    field = felib.field(W, dom.create_region('Omega', 'all'), 1, len(dom.mesh.coors[0]))
    x = np.array(dom.mesh.coors)
    dv = W.mod(UT).compute_nodal_edge_dirs(np.array(verts, dtype=np.int32), reg, field)
    W.true('shape', dv.shape == (len(verts), len(x[0])))

    def unit(a, b):
        v = x[b] - x[a]
        l2 = sum(c * c for c in v)
        l = W.frac(int(round(float(l2) ** 0.5 * 100)), 100) if W.symbolic else float(l2) ** 0.5
        W.eq('length of the edge', l * l, l2)
        return v / l
    for p in paths:
        closed = p[0] == p[-1]
        m = len(p) - 1
        for k, n in enumerate(p[:-1] if closed else p):
            s = 0
            if k < m:
                s = s + unit(p[k], p[k + 1])
            if k > 0:
                s = s + unit(p[k - 1], p[k])
            elif closed:
                s = s + unit(p[-2], p[-1])
            d = dv[verts.index(n)]
            W.eq('unit %d' % n, sum(c * c for c in d), 1)
            for i, j in itertools.combinations(range(len(d)), 2):
                W.eq('direction %d' % n, d[i] * s[j], d[j] * s[i])

if __name__ == '__main__':
    main(S)
