"""
Weak forms of the terms, evaluated independently from the mappings and bases
(whose correctness is the subject of other properties) for comparison with the
term evaluation in all its modes.
"""
import inspect
from fractions import Fraction
import numpy as np
from engine import sym
from checks import felib

TERMS = 'sfepy.terms'

class Dual:
    """a + eps b: exact directional derivatives of the weak forms."""
    __slots__ = ('a', 'b')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, a, b=0):
        self.a, self.b = a, b

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o.__class__ is Dual:
            return Dual(self.a + o.a, self.b + o.b)
        return Dual(self.a + o, self.b)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if o.__class__ is Dual:
            return Dual(self.a * o.a, self.a * o.b + self.b * o.a)
        return Dual(self.a * o, self.b * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if o.__class__ is Dual:
            return Dual(self.a / o.a, (self.b - self.a / o.a * o.b) / o.a)
        return Dual(self.a / o, self.b / o)

    def __rtruediv__(self, o):
        return Dual(o / self.a, -o / (self.a * self.a) * self.b)

    def __pow__(self, n):
        return Dual(self.a ** n, n * self.a ** (n - 1) * self.b)

def eps(x):
    return x.b if x.__class__ is Dual else 0

def val(x):
    return x.a if x.__class__ is Dual else x

SYM = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

class Q:
    """A variable in a quadrature point."""
    def __init__(self, v, g):
        self.v, self.g = v, g

    @property
    def div(self):
        return sum(self.g[i, i] for i in range(len(self.g)))

    @property
    def e(self):
        """Strain in the engineering storage."""
        n = len(self.g)
        return arr([self.g[i, j] + self.g[j, i] if i != j else self.g[i, i] for i, j in SYM[n]])

    @property
    def gs(self):
        """All derivatives du_i / dx_j, row by row."""
        return self.g.reshape(-1)

def arr(x):
    a = np.empty(np.shape(x), dtype=object)
    a[...] = x
    return a

def zeros(*sh):
    a = np.empty(sh, dtype=object)
    a.fill(0)
    return a

class Ctx:
    pass

class Geo:
    def __init__(self, g, bf):
        self.bf, self.bfg, self.det, self.normal, self.volume = bf, g.bfg, g.det, g.normal, g.volume

# quadrature points on the reference cells with simple coordinates
POINTS = {0: ([[]], ['1']),
          1: ([['1/4'], ['2/3']], ['1/5', '4/7']),
          '2_3': ([['1/4', '1/2'], ['1/2', '1/8']], ['1/5', '2/7']),
          '2_4': ([['1/4', '1/2'], ['2/3', '1/8']], ['1/5', '4/7']),
          '3_4': ([['1/4', '1/2', '1/8'], ['1/8', '1/4', '1/3']], ['1/9', '1/30']),
          '3_8': ([['1/4', '1/2', '2/3'], ['1/8', '3/4', '1/3']], ['3/5', '2/7'])}

def qp(W, gel):
    c, w = POINTS[gel]
    c = [[Fraction(a) for a in r] for r in c]
    w = [Fraction(a) for a in w]
    if W.symbolic:
        return W.array(c), W.array(w)
    return np.array(c, dtype=np.float64), np.array(w, dtype=np.float64)

def integral(W, gel, name='i'):
    c, w = qp(W, gel)
    return W.mod('sfepy.discrete').Integral(name, coors=c, weights=w, order='custom')

def dim_of(name, sh, dim):
    if isinstance(sh, str):
        sh = sh.strip()
        if sh == 'D':
            return dim
        if sh == 'D2':
            return dim ** 2
        if sh == 'S':
            return dim * (dim + 1) // 2
        if sh == 'SD':
            return dim * dim * (dim + 1) // 2
        if sh == 'N':
            return 1
        return int(sh)
    return sh

FACET = {'line': 0, 'tri': 1, 'tri1': 1, 'quad': 1, 'quad1': 1, 'tet1': '2_3', 'tet': '2_3', 'hex1': '2_4', 'hex': '2_4'}

class Problem:
    """A term with its arguments over a small mesh."""
    def __init__(self, W, name, arg_types, shapes, mode=None, mesh='tri', region='Omega', orders=None,
                 integration='cell', suffix=None, args=None, static=(), where=None, distort=1, matfun=None,
                 nshape=None, intg=None, special=None, states=None, const=None):
        self.W, self.name, self.ats, self.mode = W, name, arg_types, mode
        self.boxes, self.suffix, self.special = [], '', special or {}
        self.const = const or {}
        self.dom = dom = felib.domain(W, mesh, distort)
        self.dim = dim = dom.shape.dim
        self.D = D = W.mod('sfepy.discrete')
        self.omega = dom.create_region('Omega', 'all')
        self.gamma = None
        if region != 'Omega':
            self.gamma = dom.create_region('Gamma', where or 'vertices of surface', 'facet')
        self.region = self.omega if region == 'Omega' else self.gamma
        gel = felib.MESHES[mesh][2]
        if gel == '1_2':
            gel = 1
        self.integral = intg or integral(W, gel if region == 'Omega' else FACET[mesh])
        self.itype = integration
        self.vars, self.mats, self.args, self.order, self.fields = {}, {}, {}, [], {}
        self.kinds = {}
        sargs = []
        kinds = [a.split('_')[0] for a in arg_types]
        for ii, (at, kind) in enumerate(zip(arg_types, kinds)):
            if args is not None and at in args:
                v = args[at]
                n = 'x%d' % ii
                self.args[n] = v
                self.kinds[at] = ('user', n)
                sargs.append(n)
                continue
            if kind == 'ts':
                n = 'ts'
                self.args[n] = None
                self.kinds[at] = ('user', n)
                sargs.append(n)
                continue
            sh = shapes.get(at, shapes.get('%s/%s' % (at, mode)))
            if kind in ('virtual', 'state', 'parameter'):
                nc = dim_of(name, sh[0] if isinstance(sh, tuple) else sh, dim)
                if nshape and at in nshape:
                    nc = nshape[at]
                o = (orders or {}).get(at, 1)
                f = felib.field(W, self.omega, o, nc, 'f%d' % ii)
                if kind == 'virtual':
                    if sh[1] is not None:
                        f = None        # shares the field of its primary variable
                        pv = sh[1]
                    else:
                        pv = None
                    self.vars[at] = (None, f, nc, pv, 'v')
                else:
                    self.vars[at] = (None, f, nc, None, ('u' if kind == 'state' else 'p') + str(ii))
            else:
                self.mats[at] = sh
        for at, (_, f, nc, pv, n) in list(self.vars.items()):
            if at.startswith('state') or at.startswith('parameter'):
                var = D.FieldVariable(n, 'unknown' if at.startswith('state') else 'parameter', f,
                                      **({} if at.startswith('state') else dict(primary_var_name='(set-to-None)')))
                if self.gamma is not None:
                    self._surf(f)
                if states and at in states:
                    x = states[at](W, n, f, nc)
                else:
                    x = W.reals(n, f.n_nod * nc)
                var.set_data(x)
                self.vars[at] = (var, f, nc, x, n)
        self.fake = None
        for at, (_, f, nc, pv, n) in list(self.vars.items()):
            if at == 'virtual':
                if pv is not None:
                    k = [a for a in self.vars if a == pv][0]
                    f = self.vars[k][1]
                    pn = self.vars[k][4]
                else:
                    pn = 'u0'
                    if self.gamma is not None:
                        self._surf(f)
                    self.fake = D.FieldVariable(pn, 'unknown', f)
                    self.fake.set_constant(0.0)
                self.vars[at] = (D.FieldVariable('v', 'test', f, primary_var_name=pn), f, nc, None, 'v')
        self.materials = {}
        self.mdata = {}
        for at, sh in self.mats.items():
            if sh is None:
                self.kinds[at] = ('none', None)
                continue
            self._material(at, sh, static, matfun)
        out = []
        for ii, (at, kind) in enumerate(zip(arg_types, kinds)):
            if at in self.vars:
                var = self.vars[at][0]
                self.args[var.name] = var
                out.append(var.name)
            elif at in self.mats:
                if self.kinds[at][0] == 'none':
                    continue
                m = self.materials[at]
                self.args[m.name] = m
                out.append('%s.%s' % (m.name, self.kinds[at][1]))
            else:
                out.append(self.kinds[at][1])
        self.source = '%s(%s)' % (name, ', '.join(out))
        self.term = W.mod(TERMS).Term.new(self.source, self.integral, self.region, **self.args)
        self.term.setup()

    def _surf(self, f):
        if self.gamma.name not in getattr(f, 'surface_data', {}):
            self.dom.create_surface_group(self.gamma)
            f.setup_surface_data(self.gamma)

    def _material(self, at, sh, static, matfun):
        W = self.W
        n = 'm' + at.replace('material', '').replace('opt_', 'o')
        special = False
        if at in self.special:
            x = self.special[at]
            self.mdata[at] = lambda c, q, x=x: x
            self.materials[at] = self.D.Material(n, values={'.c': x})
            self.kinds[at] = ('mat', 'c')
            return
        if at in self.const:        # shared by all the cells
            x = self.const[at]
            self.mdata[at] = lambda c, q, x=x: x
            self.materials[at] = self.D.Material(n, values={'c': x})
            self.kinds[at] = ('mat', 'c')
            return
        if isinstance(sh, str) and ':' in sh:
            special = True
            sh = sh.split(':')[1]
        if isinstance(sh, str):
            dims = tuple(dim_of(self.name, s, self.dim) for s in sh.split(','))
        else:
            dims = (sh,)
        if special:
            data = W.reals(n, *dims)
            if dims == (1,):
                x = data[0]
            else:
                x = data
            self.mdata[at] = lambda c, q, x=x: x
            self.materials[at] = self.D.Material(n, values={'.c': x})
            self.kinds[at] = ('mat', 'c')
            return
        if len(dims) == 1:
            dims = dims + (1,)
        box = {}
        self.boxes.append(box)

        def get(ts, coors, mode=None, **kw):
            if mode != 'qp':
                return None
            k = len(coors)
            if 'a' not in box:
                nn = n + self.suffix
                if matfun is not None and at in matfun:
                    box['a'] = matfun[at](W, nn, k, dims)
                else:
                    box['a'] = W.reals(nn, k, *dims)
            return {'c': box['a']}
        self.materials[at] = self.D.Material(n, function=get)
        self.kinds[at] = ('mat', 'c')

        def at_(c, q):
            a = box['a'][c * self.nqp() + q]
            return a[0, 0] if a.shape == (1, 1) else (a[:, 0] if a.shape[1] == 1 else a)
        self.mdata[at] = at_

    def new_data(self, suffix):
        """New material data, to be used from now on."""
        self.suffix = '_' + suffix
        for b in self.boxes:
            b.clear()
        for m in self.materials.values():
            m.reset()

    def nqp(self):
        return len(self.integral.weights)

    # ---------------------------------------------------- reference data
    def geo(self, f, itype=None):
        it = itype or self.itype
        g = f.get_mapping(self.region, self.integral, it)[0]
        econn = f.get_econn(('cell' if it == 'facet_extra' else it, self.region.tdim), self.region)
        bf = g.bf
        if it == 'facet_extra':     # all functions of the cells in the points of the facets
            sd = f.extra_data['sd_%s' % self.region.name]
            bf = f.eval_basis(sd.bkey, 0, self.integral)[sd.fis[:, 1]]
        return Geo(g, bf), econn

    def values(self):
        """Per variable argument: function (c, q) -> Q of the state."""
        self.ref = {}
        for at, (var, f, nc, x, n) in self.vars.items():
            g, econn = self.geo(f, getattr(self, 'vtypes', {}).get(at))
            self.ref[at] = (g, econn, nc, x)
        g = next(iter(self.ref.values()))[0]
        self.n_el = g.det.shape[0]
        self.g0 = g

    def basis(self, at, c, q, comp, node):
        g, econn, nc, x = self.ref[at]
        b = g.bf[c if g.bf.shape[0] > 1 else 0, q, 0, node]
        d = None if g.bfg is None else g.bfg[c, q, :, node]
        if nc == 1:
            return Q(b, d)
        v = zeros(nc)
        v[comp] = b
        gr = None
        if d is not None:
            gr = zeros(nc, len(d))
            gr[comp] = d
        return Q(v, gr)

    def state(self, at, c, q):
        g, econn, nc, x = self.ref[at]
        b = g.bf[c if g.bf.shape[0] > 1 else 0, q, 0]
        d = None if g.bfg is None else g.bfg[c, q]
        X = x.reshape(-1, nc)[econn[c]]       # node x comp
        if nc == 1:
            return Q(b @ X[:, 0], None if d is None else d @ X[:, 0])
        return Q(X.T @ b, None if d is None else X.T @ d.T)

    def pert(self, s, b):
        """State with the perturbation eps * basis function."""
        def du(a, e):
            if a is None:
                return None
            if not isinstance(a, np.ndarray):
                return Dual(a, e)
            r = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                r[ix] = Dual(a[ix], e[ix])
            return r
        return Q(du(s.v, b.v), du(s.g, b.g))

    def call(self, form, c, q, subs):
        ctx = Ctx()
        ctx.dim = self.dim
        g = self.g0
        ctx.n = None if g.normal is None else g.normal[c, q, :, 0]
        ctx.volume = g.volume[c, 0, 0, 0]
        ctx.c, ctx.q = c, q
        out = []
        for at in self.ats:
            if at in self.vars:
                out.append(subs[at])
        mats = []
        for at in self.ats:
            if at in self.mats:
                mats.append(self.mdata[at](c, q) if at in self.mdata else None)
        # materials first, then the variables: the test function (or the
        # parameter in its place) in the position the form declares
        return form(ctx, *mats, *out)

    def jw(self, c, q):
        return self.g0.det[c, q, 0, 0]

    def expect_weak(self, form):
        g, econn, nc, _ = self.ref['virtual']
        n_ep = econn.shape[1]
        states = [{at: self.state(at, c, q) for at in self.vars if at != 'virtual'}
                  for c in range(self.n_el) for q in range(self.nqp())]
        self._states = states
        R = zeros(self.n_el, nc * n_ep)
        for c in range(self.n_el):
            for k in range(nc):
                for a in range(n_ep):
                    r = 0
                    for q in range(self.nqp()):
                        s = dict(states[c * self.nqp() + q])
                        s['virtual'] = self.basis('virtual', c, q, k, a)
                        r = r + self.call(form, c, q, s) * self.jw(c, q)
                    R[c, k * n_ep + a] = r
        return R

    def expect_matrix(self, form, at):
        g, econn, nc, _ = self.ref['virtual']
        _, econn2, nc2, _ = self.ref[at]
        n_ep, n_ep2 = econn.shape[1], econn2.shape[1]
        K = zeros(self.n_el, nc * n_ep, nc2 * n_ep2)
        for c in range(self.n_el):
            for q in range(self.nqp()):
                s = dict(self._states[c * self.nqp() + q])
                w = self.jw(c, q)
                tests = [self.basis('virtual', c, q, k, a) for k in range(nc) for a in range(n_ep)]
                for k2 in range(nc2):
                    for a2 in range(n_ep2):
                        s2 = dict(s)
                        s2[at] = self.pert(s[at], self.basis(at, c, q, k2, a2))
                        for r, t in enumerate(tests):
                            s2['virtual'] = t
                            K[c, r, k2 * n_ep2 + a2] = K[c, r, k2 * n_ep2 + a2] + eps(self.call(form, c, q, s2)) * w
        return K

    def expect_qp(self, form):
        out = None
        for c in range(self.n_el):
            for q in range(self.nqp()):
                s = {at: self.state(at, c, q) if self.vars[at][3] is not None else None for at in self.vars}
                v = self.call(form, c, q, s)
                v = np.asarray(v, dtype=object)
                if v.ndim == 0:
                    v = v.reshape(1, 1)
                elif v.ndim == 1:
                    v = v.reshape(-1, 1)
                if out is None:
                    out = zeros(self.n_el, self.nqp(), *v.shape)
                out[c, q] = v
        return out

def check_term(W, P, form, modes=(), weak=True, mtx=True, term_mode=None, loose=False):
    """The generic postconditions of a term."""
    t = P.term
    P.values()
    kw = {} if term_mode is None else dict(term_mode=term_mode)
    if 'virtual' in P.vars and weak:
        vals, iels, st = t.evaluate(mode='weak', ret_status=True, **kw)
        R = P.expect_weak(form)
        W.true('residual shape', vals.shape == (R.shape[0], 1, R.shape[1], 1))
        W.eqs('residual', vals[:, 0, :, 0], R)
        W.eqs('cells', np.asarray(iels), np.arange(P.n_el))
        if mtx:
            for at in P.vars:
                if at.startswith('state'):
                    K, iels, st = t.evaluate(mode='weak', diff_var=P.vars[at][0].name, ret_status=True, **kw)
                    EK = P.expect_matrix(form, at)
                    W.true('matrix shape d/d%s' % at, K.shape == (EK.shape[0], 1) + EK.shape[1:])
                    W.eqs('matrix d/d%s' % at, K[:, 0], EK)
        return
    outs = {}
    for m in modes:
        out = t.evaluate(mode=m, **kw)
        outs[m] = np.asarray(out[0] if isinstance(out, tuple) else out)
    E = P.expect_qp(form)
    I = zeros(P.n_el, *E.shape[2:])
    V = zeros(P.n_el)
    for c in range(P.n_el):
        for q in range(P.nqp()):
            I[c] = I[c] + E[c, q] * P.jw(c, q)
            V[c] = V[c] + P.jw(c, q)
    for m in modes:
        out = outs[m]
        if m == 'eval':
            tot = zeros(*E.shape[2:])
            for c in range(P.n_el):
                tot = tot + I[c]
            W.true('eval size', out.size == tot.size)
            W.eqs('eval', out.reshape(-1), tot.reshape(-1))
        elif m == 'el_eval':
            W.eqs('el_eval', out.reshape(P.n_el, -1), I.reshape(P.n_el, -1))
        elif m == 'el_avg':
            A = I.copy()
            for c in range(P.n_el):
                A[c] = I[c] / V[c]
            W.eqs('el_avg', out.reshape(P.n_el, -1), A.reshape(P.n_el, -1))
        elif m == 'qp':
            W.true('qp shape', (out.size == E.size and out.shape[:2] == E.shape[:2]) if loose else out.shape == E.shape)
            W.eqs('qp', out.reshape(E.shape) if loose and out.size == E.size else out, E)
