"""Penalty contact: shape functions, search, gaps, residual and tangent (contres.c, ccontres.pyx, terms_contact.py)."""
import itertools, random
from fractions import Fraction as F
import numpy as np
from engine import sym
from engine.vc import Suite, main
from checks import felib

CC, TC = 'sfepy.mechanics.extmods.ccontres', 'sfepy.terms.terms_contact'
CF = 'sfepy/mechanics/extmods/contres.c'
S = Suite('C22', 'contact gaps, residual and tangent', files=[CF], assumptions=[
    'arithmetic is exact; segments and numbers of Gauss points are enumerated',
    'the iterative projection on nonplanar segments and contact of bodies in general position are explored in floating point only (bounded)'])
felib.use(S, CC, TC)

def contract(name, cases=({},), **kw):
    return S.contract(name, cases, kind='py', **kw)

# ------------------------------------------------------------ shape functions (C)
NODES = {2: [(-1,), (1,)], 4: [(-1, -1), (1, -1), (1, 1), (-1, 1)],
         6: [(0, 0), (1, 0), (0, 1), (F(1, 2), 0), (F(1, 2), F(1, 2)), (0, F(1, 2))],
         8: [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)]}

def shape(n, r, s=0):
    """Shape functions of segments and their derivatives."""
    h = F(1, 2)
    if n == 2:
        return [(1 - r) * h, (1 + r) * h], [[-h, h]]
    if n == 4:
        q = F(1, 4)
        return ([(1 + a * r) * (1 + b * s) * q for a, b in NODES[4]],
                [[a * (1 + b * s) * q for a, b in NODES[4]], [b * (1 + a * r) * q for a, b in NODES[4]]])
    if n == 6:
        t = 1 - r - s
        return ([t * (2 * t - 1), r * (2 * r - 1), s * (2 * s - 1), 4 * r * t, 4 * r * s, 4 * s * t],
                [[1 - 4 * t, 4 * r - 1, 0, 4 * (t - r), 4 * s, -4 * s], [1 - 4 * t, 0, 4 * s - 1, -4 * r, 4 * r, 4 * (t - s)]])
    H, dr, ds = [], [], []
    q = F(1, 4)
    for a, b in NODES[8]:
        if a and b:
            H.append(q * (1 + a * r) * (1 + b * s) * (a * r + b * s - 1))
            dr.append(q * a * (1 + b * s) * (2 * a * r + b * s))
            ds.append(q * b * (1 + a * r) * (2 * b * s + a * r))
        elif b:
            H.append(h * (1 - r * r) * (1 + b * s))
            dr.append(-r * (1 + b * s))
            ds.append(h * b * (1 - r * r))
        else:
            H.append(h * (1 - s * s) * (1 + a * r))
            dr.append(h * a * (1 - s * s))
            ds.append(-s * (1 + a * r))
    return H, [dr, ds]

@S.contract('shape functions of segments', [dict(n=n) for n in (2, 4, 6, 8)])
def shapes(W, n):
    """Values and derivatives in all points (nodal, complete: the formulas are the interpolating ones)."""
    dim = 1 if n == 2 else 2
    H, dH = W.vec('H', 1, n, out=True), W.vec('dH', 1, n * dim, out=True)
    x = [W.real('x%d' % i, -2, 2) for i in range(dim)]
    W.call('sfd%d' % n, H, dH, *x)
    h, dh = shape(n, *x)
    for i in range(n):
        W.eq('value', H.at(i), h[i])
        for k in range(dim):
            W.eq('derivative', dH.at(k * n + i), dh[k][i])

# ------------------------------------------------------------ helpers
class Seg:
    """A few segments of cells: connectivity of segments of elements, as ContactInfo prepares them."""
    def __init__(self, kind):
        self.nsd, self.nsn = {'line': (2, 2), 'quad': (3, 4), 'quad8': (3, 8), 'tri6': (3, 6)}[kind]
        self.npd = self.nsd - 1
        if kind == 'line':
            self.IEN = [[0, 1, 2, 3], [6, 5, 4, 7]]
            self.ef = [[0, 1], [1, 2], [2, 3], [3, 0]]
            self.nn = 8
        elif kind == 'quad':
            self.IEN = [[0, 1, 2, 3, 4, 5, 6, 7], [8, 11, 10, 9, 12, 15, 14, 13]]
            self.ef = [[0, 3, 2, 1], [0, 4, 7, 3], [0, 1, 5, 4], [4, 5, 6, 7], [1, 2, 6, 5], [2, 3, 7, 6]]
            self.nn = 16
        elif kind == 'quad8':
            self.IEN = [list(range(20)), list(range(39, 19, -1))]
            self.ef = [[0, 3, 2, 1, 11, 10, 9, 8], [4, 5, 6, 7, 16, 17, 18, 19]]
            self.nn = 40
        else:
            self.IEN = [list(range(10)), list(range(19, 9, -1))]
            self.ef = [[0, 2, 1, 6, 5, 4], [0, 3, 2, 7, 9, 6], [0, 1, 3, 4, 8, 7], [1, 2, 3, 5, 9, 8]]
            self.nn = 20
        self.fis = [(0, 1), (1, len(self.ef) - 2 if kind != 'quad8' else 0)]
        self.nodes = [[self.IEN[e][i] for i in self.ef[s]] for e, s in self.fis]
        self.neq = self.nn * self.nsd

    def args(self):
        i32 = lambda v: np.ascontiguousarray(np.array(v, dtype=np.int32))
        return dict(ISN=i32(np.array(self.ef).T), IEN=i32(self.IEN), el=np.array([e for e, s in self.fis], dtype=np.uint32),
                    sg=np.array([s for e, s in self.fis], dtype=np.uint32))

def farr(W, rows):
    if W.symbolic:
        return W.np.asfortranarray(W.array(rows))
    return np.asfortranarray(np.array(rows, dtype=np.float64))

def fempty(W, *sh):
    """Uninitialized output."""
    r = random.Random(3)
    return farr(W, [[W.num(r.randint(-9, 9)) for _ in range(sh[1])] for _ in range(sh[0])])

def varr(W, v):
    return W.array(v) if W.symbolic else np.array(v, dtype=np.float64)

def sqrt(W, x):
    return W.fn('sqrt', x) if W.symbolic else np.sqrt(float(x))

KINDS = ['line', 'quad', 'quad8', 'tri6']

# ------------------------------------------------------------ Gauss points and bounds
@contract('Gauss points and the longest edge', [dict(kind=k, ngp=g) for k in KINDS for g in (1, 2)])
def gps(W, kind, ngp):
    """Points of all segments from the shape functions and the coordinates; no contact is set; the largest distance of two nodes of a segment."""
    s = Seg(kind)
    r = random.Random(ngp)
    a = s.args()
    H = W.reals('H', ngp, s.nsn)
    x = [[W.num(F(r.randint(-30, 30), 7)) for _ in range(s.nsd)] for _ in range(s.nn)]
    GPs = fempty(W, 2 * ngp, 2 * s.nsd + 6)
    L, out = W.mod(CC).get_longest_edge_and_gps(GPs, s.neq, a['el'], a['sg'], a['ISN'], a['IEN'], farr(W, [list(h) for h in H]), farr(W, x))
    d2 = []
    for k, (e, sg) in enumerate(s.fis):
        nodes = s.nodes[k]
        d2 += [sum(((x[i][c] - x[j][c]) ** 2 for c in range(1, s.nsd)), (x[i][0] - x[j][0]) ** 2) for i, j in itertools.combinations(nodes, 2)]
        for g in range(ngp):
            p = out[k * ngp + g]
            for c in range(s.nsd):
                W.eq('coordinates', p[c], sum([H[g][j] * x[i][c] for j, i in list(enumerate(nodes))[1:]], H[g][0] * x[nodes[0]][c]))
                W.eq('parameters', p[s.nsd + 3 + c], 0)
            W.true('element and segment', p[s.nsd] == e and p[s.nsd + 1] == sg)
            W.true('no contact', p[s.nsd + 2] > 10 ** 30 and p[2 * s.nsd + 3] == 0)
    W.eq('longest edge', L * L, max(d2))
    W.true('positive', L > 0)

@contract('bounding box', [dict(kind=k, flat=f) for k in KINDS for f in (0, 1)])
def box(W, kind, flat):
    """The box of the nodes of the segments only, enlarged in directions shorter than the longest edge."""
    s = Seg(kind)
    a = s.args()
    r = random.Random(flat)
    x = [[W.num(F(r.randint(-30, 30), 7)) for _ in range(s.nsd)] for _ in range(s.nn)]
    if flat:
        for n in x:
            n[1] = W.num(F(5, 3))
    for L in (F(1, 3), F(5, 2), F(30)):
        lo, hi = W.mod(CC).get_AABB(farr(W, x), W.num(L), a['IEN'], a['ISN'], a['el'], a['sg'], s.neq)
        for c in range(s.nsd):
            v = [x[i][c] for n in s.nodes for i in n]
            d = L / 2 if max(v) - min(v) < L else 0
            W.eq('minimum', lo[c], min(v) - W.num(d))
            W.eq('maximum', hi[c], max(v) + W.num(d))

@contract('linked cells', [dict(dim=d, seed=s) for d in (2, 3) for s in range(4)])
def linked(W, dim, seed):
    """Every point of the box is in the list of the one cell that contains it, no other point is in any list."""
    r = random.Random(10 * dim + seed)
    N = [r.randint(1, 4) for _ in range(dim)]
    lo = [F(r.randint(-6, 0), 2) for _ in range(dim)]
    hi = [l + F(r.randint(2, 12), 2) for l in lo]
    pts = [[F(r.randint(-20, 24), 4) for _ in range(dim)] for _ in range(10)] + [hi, lo]
    pts += [[l + (h - l) * F(r.randint(0, n), n) for l, h, n in zip(lo, hi, N)] for _ in range(5)]
    if not W.symbolic:                        # keep away from cell boundaries in floating point
        pts = [p for p in pts if all((c - l) * n / (h - l) != int((c - l) * n / (h - l)) or c in (l, h) for c, l, h, n in zip(p, lo, hi, N))]
    head, nxt = W.mod(CC).init_global_search(np.array(N, dtype=np.int32), varr(W, [W.num(c) for c in lo]), varr(W, [W.num(c) for c in hi]),
                                             farr(W, [[W.num(c) for c in p] for p in pts]))
    n = int(np.prod(N))
    W.true('number of cells', len(head) == n)
    lists = []
    for c in range(n):
        v, l = int(head[c]), []
        while v != -1 and len(l) <= len(pts):
            l.append(v)
            v = int(nxt[v])
        lists.append(l)
    for i, p in enumerate(pts):
        own = [c for c in range(n) if i in lists[c]]
        if any(c < l or c > h for c, l, h in zip(p, lo, hi)):
            W.true('outside', own == [])
            continue
        c, stride = 0, 1
        for k in range(dim):
            j = min(int((p[k] - lo[k]) * N[k] / (hi[k] - lo[k])), N[k] - 1)
            c, stride = c + j * stride, stride * N[k]
        W.true('in its cell', own == [c] and lists[c].count(i) == 1)

# ------------------------------------------------------------ search
def run_search(W, s, x, pts, N=None, ngp=1):
    """evaluate_contact_constraints() with given slave points (element, segment, coordinates), all points in the lists of all cells."""
    a = s.args()
    nc = 2 * s.nsd + 6
    assert len(pts) % 2 == 0
    g = [[W.num(0)] * nc for _ in pts]
    for row, (e, sg, p) in zip(g, pts):
        row[:s.nsd] = p
        row[s.nsd], row[s.nsd + 1] = W.num(e), W.num(sg)
        row[s.nsd + 2] = W.num(55)
    N = np.array(N or [1] * s.nsd, dtype=np.int32)
    head = np.zeros(int(np.prod(N)), dtype=np.int32)
    nxt = np.array(list(range(1, len(pts))) + [-1], dtype=np.int32)
    lo, hi = varr(W, [W.num(-100)] * s.nsd), varr(W, [W.num(100)] * s.nsd)
    return W.mod(CC).evaluate_contact_constraints(farr(W, g), a['ISN'], a['IEN'], N, lo, hi, head, nxt, farr(W, x), a['el'], a['sg'],
                                                  s.npd, s.neq, W.num(2))

@contract('projection on line segments', [dict(side=i, dirn=d) for i in (-1, 1) for d in range(4)])
def project2(W, side, dirn):
    """All points beside a segment: the signed distance (negative inside of the body), parameter, master; points that project outside are free."""
    s = Seg('line')
    t = [(F(1), F(0)), (F(3, 5), F(4, 5)), (F(-5, 13), F(12, 13)), (F(0), F(-1))][dirn]
    n = (t[1], -t[0])
    L = F(5, 2)
    X0 = (F(1, 3), F(-2, 7))
    a, b = s.nodes[1]
    x = [[F(50 + 3 * i), F(70 - i)] for i in range(s.nn)]
    x[a], x[b] = list(X0), [X0[0] + L * t[0], X0[1] + L * t[1]]
    x = [[W.num(c) for c in row] for row in x]
    q, d = W.real('q', F(1, 100), F(99, 100)), W.real('d', F(1, 100), 3)
    dd = d if side > 0 else -d
    at = lambda u, v: [X0[k] + u * L * t[k] + v * n[k] for k in range(2)]
    e, sg = s.fis[0]
    out = run_search(W, s, x, [(e, sg, at(q, dd)), (e, sg, at(-q, -d)), (s.fis[1][0], s.fis[1][1], at(q, -d)), (e, sg, at(1 + q, d))], N=[2, 3])
    W.eq('gap', out[0][4], dd)
    W.true('active if penetrating', out[0][7] == (0 if side > 0 else 1))
    if side < 0:
        W.true('master', out[0][8] == s.fis[1][0] and out[0][9] == s.fis[1][1])
        W.eq('parameter', out[0][5], 2 * q - 1)
    W.true('projection outside', out[1][4] > 10 ** 30 and out[1][7] == 0)
    W.true('projection outside', out[3][4] > 10 ** 30 and out[3][7] == 0)
    W.true('own segment', out[2][4] > 10 ** 30 and out[2][7] == 0)
    for k in range(3):
        W.true('slave data kept', out[k][2] == (e, e, s.fis[1][0])[k] and out[k][3] == (sg, sg, s.fis[1][1])[k])

@contract('projection on planar quadrilaterals', [dict(side=i, dirn=d) for i in (-1, 1) for d in range(3)])
def project3(W, side, dirn):
    """All points beside a parallelogram."""
    s = Seg('quad')
    t1 = [(F(2), F(0), F(0)), (F(2, 3), F(2, 3), F(1, 3)), (F(0), F(0), F(-3))][dirn]
    t2 = [(F(1, 2), F(1), F(0)), (F(-4, 3), F(2, 3), F(4, 3)), (F(0), F(2), F(0))][dirn]
    n = [t1[1] * t2[2] - t1[2] * t2[1], t1[2] * t2[0] - t1[0] * t2[2], t1[0] * t2[1] - t1[1] * t2[0]]
    ln = {0: F(2), 1: F(2), 2: F(6)}[dirn]
    n = [c / ln for c in n]
    assert sum(c * c for c in n) == 1
    X0 = (F(1, 3), F(-2, 7), F(1))
    nd = s.nodes[1]
    x = [[F(50 + i * i), F(70 - 3 * i), F(60 + i)] for i in range(s.nn)]
    for i, (u, v) in zip(nd, [(0, 0), (1, 0), (1, 1), (0, 1)]):
        x[i] = [X0[k] + u * t1[k] + v * t2[k] for k in range(3)]
    x = [[W.num(c) for c in row] for row in x]
    u, d = W.real('u', F(1, 10), F(9, 10)), W.real('d', F(1, 100), 3)
    v = F(2, 7)
    dd = d if side > 0 else -d
    at = lambda u, v, w: [X0[k] + u * t1[k] + v * t2[k] + w * n[k] for k in range(3)]
    e, sg = s.fis[0]
    out = run_search(W, s, x, [(e, sg, at(u, v, dd)), (e, sg, at(-u, v, -d)), (s.fis[1][0], s.fis[1][1], at(u, v, -d)), (e, sg, at(u, v + 1, d))], N=[2, 3, 1])
    W.eq('gap', out[0][5], dd)
    W.true('active if penetrating', out[0][9] == (0 if side > 0 else 1))
    if side < 0:
        W.true('master', out[0][10] == s.fis[1][0] and out[0][11] == s.fis[1][1])
        W.eq('parameter r', out[0][6], 2 * u - 1)
        W.eq('parameter s', out[0][7], 2 * v - 1)
    W.true('projection outside', out[1][5] > 10 ** 30 and out[1][9] == 0)
    W.true('projection outside', out[3][5] > 10 ** 30 and out[3][9] == 0)
    W.true('own segment', out[2][5] > 10 ** 30 and out[2][9] == 0)

@contract('projection on curved segments', [dict(kind=k, side=i, seed=j) for k in ('quad', 'quad8', 'tri6') for i in (-1, 1) for j in range(3)], bounded=True)
def curved(W, kind, side, seed):
    """Points along normals of slightly curved segments: the distance and the parameters of the foot point."""
    s = Seg(kind)
    r = random.Random(seed)
    m = np.linalg.qr(np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]))[0]
    m *= np.sign(np.linalg.det(m))
    x = np.array([[50 + i * i % 31, 70 - 3 * i, 60 + i] for i in range(s.nn)], dtype=float)
    nd = s.nodes[1]
    for i, (u, v) in zip(nd, NODES[s.nsn]):
        x[i] = m @ np.array([float(u), float(v), 0.06 * (r.random() - 0.5)])
    pts, want = [], []
    for k in range(6):
        u, v = (r.uniform(-0.8, 0.8), r.uniform(-0.8, 0.8)) if s.nsn != 6 else (r.uniform(0.1, 0.4), r.uniform(0.1, 0.4))
        h, dh = shape(s.nsn, u, v)
        X = x[nd]
        P = np.array(h, dtype=float) @ X
        n = np.cross(np.array(dh[0], dtype=float) @ X, np.array(dh[1], dtype=float) @ X)
        n /= np.linalg.norm(n)
        d = side * (0.2 + 0.2 * r.random())
        pts.append((s.fis[0][0], s.fis[0][1], list(P + d * n)))
        want.append((d, u, v))
    out = run_search(W, s, x.tolist(), pts)
    for o, (d, u, v) in zip(out, want):
        W.true('gap', abs(o[5] - d) < 1e-4)
        W.true('active if penetrating', o[9] == (d < 0))
        if d < 0:
            W.true('parameters', abs(o[6] - u) < 2e-2 and abs(o[7] - v) < 2e-2)
            W.true('master', o[10] == s.fis[1][0] and o[11] == s.fis[1][1])

# ------------------------------------------------------------ residual and tangent
@contract('residual and tangent', [dict(kind=k, ngp=g, key=c, kc=t) for k in KINDS for g, c in ((1, 2), (2, 2), (2, 0)) for t in (0, 1)
                                   if not (t and k == 'quad8' and g == 2)])
def assemble(W, kind, ngp, key, kc):
    """R = - sum eps g H n w J on the slave nodes of the active points with g <= 0; the tangent is the sum of eps / 2 c c^T w J,
    c = (H n on the slave nodes, - Hm n on the master nodes).  n: the unit normal of the deformed slave segment, J: of the initial one;
    for all penalties, weights, gaps and displacements or initial coordinates of other nodes."""
    s = Seg(kind)
    a = s.args()
    r = random.Random(7)
    # slave segments 0 and 1 in planes with rational normals, deformed by scaling and shifts
    X, U = [[F(0)] * s.nsd for _ in range(s.nn)], [[F(0)] * s.nsd for _ in range(s.nn)]
    frames = {2: [((F(3, 5), F(4, 5)),), ((F(-1), F(0)),)],
              3: [((F(2, 3), F(2, 3), F(1, 3)), (F(-2, 3), F(1, 3), F(2, 3))), ((F(0), F(1), F(0)), (F(1), F(0), F(0)))]}[s.nsd]
    pnodes = [n if s.nsd == 3 else n for n in NODES[s.nsn]]
    for k, nodes in enumerate(s.nodes):
        for i, q in zip(nodes, pnodes):
            for c in range(s.nsd):
                X[i][c] = sum(F(z) * f[c] for z, f in zip(q, frames[k])) * (2 + k) + F(k)
                y = sum(F(z) * f[c] for z, f in zip(q, frames[1 - k])) * 3 + F(c, 3)
                U[i][c] = y - X[i][c]
    H = [[F(r.randint(1, 9), 10) for _ in range(s.nsn)] for _ in range(ngp)]
    # derivatives in Gauss points: of the shape functions in given parameters
    pars = [[F(r.randint(1, 4), 10) for _ in range(s.npd)] for _ in range(ngp)]
    dsh = [shape(s.nsn, *p)[1] for p in pars]
    dH = [[dsh[(k // s.npd)][k % s.npd][j] for j in range(s.nsn)] for k in range(s.npd * ngp)]
    dH = [[W.num(v) for v in row] for row in dH]
    eps = W.real('eps', pos=True)
    w = W.reals('w', ngp, pos=True)
    n_gp = 2 * ngp
    nc = 2 * s.nsd + 6
    G = [[W.num(0)] * nc for _ in range(n_gp)]
    act, gaps, mp = [], [], []
    for i in range(n_gp):
        k = i // ngp
        e, sg = s.fis[k]
        me, ms = s.fis[1 - k]
        rs = [F(r.randint(1, 4), 10) for _ in range(s.npd)]
        G[i][s.nsd], G[i][s.nsd + 1] = W.num(e), W.num(sg)
        G[i][2 * s.nsd + 4], G[i][2 * s.nsd + 5] = W.num(me), W.num(ms)
        for j, z in enumerate(rs):
            G[i][s.nsd + 3 + j] = W.num(z)
        mp.append(rs)
        g = W.real('g%d' % i, F(1, 100), 2)
        g = g if i == 1 and ngp == 2 else -g            # a point that is not in contact any more
        gaps.append(g)
        G[i][s.nsd + 2] = g
        act.append(i != n_gp - 1 or ngp == 1)           # an inactive point
        G[i][2 * s.nsd + 3] = W.num(int(act[-1]))
    GP = farr(W, G)
    N = lambda m: farr(W, [[W.num(c) for c in row] for row in m])
    neq = s.neq
    num0 = 4 * (s.nsd * s.nsn) ** 2 * n_gp if kc else 1
    Gc = varr(W, [W.num(3)] * neq)
    vals, rows, cols = varr(W, [W.num(0)] * num0), np.zeros(num0, dtype=np.int32), np.zeros(num0, dtype=np.int32)
    active = GP[:, 2 * s.nsd + 3]
    # displaced coordinates are exact
    out = W.mod(CC).assemble_contact_residual_and_stiffness(Gc, vals, rows, cols, GP, a['ISN'], a['IEN'], N(X), N(U), N(H), farr(W, dH), w, active,
                                                            neq, s.npd, eps, key, kc)
    Gc, vals, rows, cols, num = out
    R = {}
    K = {}
    for i in range(n_gp):
        if not act[i]:
            W.true('inactive point', GP[i][2 * s.nsd + 3] == 0)
            continue
        k, g = divmod(i, ngp)
        sl, ma = s.nodes[k], s.nodes[1 - k]
        tan = lambda Z: [[sum(dsh[g][p][j] * Z[n][c] for j, n in enumerate(sl)) for c in range(s.nsd)] for p in range(s.npd)]
        nrm = lambda t: [t[0][1], -t[0][0]] if s.nsd == 2 else [t[0][1] * t[1][2] - t[0][2] * t[1][1], t[0][2] * t[1][0] - t[0][0] * t[1][2],
                                                               t[0][0] * t[1][1] - t[0][1] * t[1][0]]
        xd = [[p + q for p, q in zip(X[n], U[n])] for n in range(s.nn)]
        NN, nn = nrm(tan(X)), nrm(tan(xd))
        J, l = sqrt(W, W.num(sum(c * c for c in NN))), sqrt(W, W.num(sum(c * c for c in nn)))
        n = [W.num(c) / l for c in nn]
        hm = shape(s.nsn, *mp[i])[0]
        if key:
            gap = gaps[i]
        else:                                 # from the coordinates
            Xp = [sum(h * xd[m][c] for h, m in zip(hm, ma)) for c in range(s.nsd)]
            Xg = [sum(h * xd[m][c] for h, m in zip(H[g], sl)) for c in range(s.nsd)]
            gap = sqrt(W, W.num(sum((p - q) ** 2 for p, q in zip(Xp, Xg))))
            if sum((p - q) * c for p, q, c in zip(Xp, Xg, nn)) <= 0:
                gap = -gap
            W.eq('gap', GP[i][s.nsd + 2], gap)
        on = not (gap > 0)
        W.true('active flag', GP[i][2 * s.nsd + 3] == int(on))
        if not on:
            continue
        c = {}
        for j, m in enumerate(sl):
            for q in range(s.nsd):
                R[m * s.nsd + q] = R.get(m * s.nsd + q, 0) - eps * gap * W.num(H[g][j]) * n[q] * w[g] * J
                c[m * s.nsd + q] = W.num(H[g][j]) * n[q]
        for j, m in enumerate(ma):
            for q in range(s.nsd):
                c[m * s.nsd + q] = c.get(m * s.nsd + q, 0) - W.num(hm[j]) * n[q]
        for p, q in itertools.product(c, c):
            K[p, q] = K.get((p, q), 0) + eps * c[p] * c[q] * w[g] * J / 2
    for k in range(neq):
        W.eq('residual', Gc[k], R.get(k, 0))
    if not kc:
        W.true('no tangent', num == 0)
        return
    W.true('room for the tangent', num <= num0)
    got = {}
    for v, p, q in zip(vals[:num], rows[:num], cols[:num]):
        got[int(p), int(q)] = got.get((int(p), int(q)), 0) + v
    W.true('some contact', len(K) > 0)
    for p, q in sorted(set(K) | set(got)):
        W.eq('tangent', got.get((p, q), 0), K.get((p, q), 0))

# ------------------------------------------------------------ the term
def bodies(dim, nA, nB, shift):
    """Two blocks with the interface y = 0 (z = 0): below and above, the upper one shifted along the interface."""
    from checks.C20 import block
    x, cs, gr = [], [], []
    for body, n in enumerate((nA, nB)):
        xx, parts = block('quad' if dim == 2 else 'hex', n, 0)
        et, cc = parts[0]
        size = [max(float(r[k]) for r in xx) for k in range(dim)]
        low = [min(float(r[k]) for r in xx) for k in range(dim)]
        o = len(x)
        for row in xx:
            z = [(float(c) - l) / (m - l) for c, l, m in zip(row, low, size)]
            z[-1] = z[-1] - 1 if body == 0 else z[-1]
            x.append([4 * c + (shift if body else 0) * (k < dim - 1) if k < dim - 1 else c for k, c in enumerate(z)])
        cs += [[o + i for i in c] for c in cc]
    return np.array(x), et, cs

@contract('contact of two bodies', [dict(dim=d, nA=a, nB=b, order=o, shift=sh) for d, a, b in ((2, (3, 1), (3, 1)), (2, (3, 1), (4, 2)), (3, (2, 2, 1), (2, 2, 1)), (3, (2, 1, 1), (3, 2, 1)))
                                    for o in (1,) for sh in (0.0, 0.3)
                                    # Gauss points on the inner edges of the triangles of the other quadrilateral may be missed by round-off: see known_findings.json
                                    if not (d == 3 and a == b and sh == 0)], bounded=True)
def two(W, dim, nA, nB, order, shift):
    """dw_contact: gaps of flat interfaces in any position, forces, tangent."""
    M, D = W.mod('sfepy.discrete.fem'), W.mod('sfepy.discrete')
    Term = W.mod('sfepy.terms').Term
    x, et, cs = bodies(dim, nA, nB, shift)
    r = random.Random(len(x))
    mesh = M.Mesh.from_data('m', x, None, [np.array(cs, dtype=np.int32)], [np.zeros(len(cs), dtype=np.int32)], [et])
    dom = M.FEDomain('d', mesh)
    om = dom.create_region('Omega', 'all')
    c = 'xyz'[dim - 1]
    con = dom.create_region('C', 'vertices in (%s > -1e-6) & (%s < 1e-6)' % (c, c), 'facet')
    field = M.Field.from_args('u', np.float64, dim, om, approx_order=order)
    u = D.FieldVariable('u', 'unknown', field)
    v = D.FieldVariable('v', 'test', field, primary_var_name='u')
    m = D.Material('m', eps=100.0)
    integral = D.Integral('i', order=2)
    t = Term.new('dw_contact(m.eps, v, u)', integral, con, m=m, v=v, u=u)
    dom.create_surface_group(con)
    field.setup_surface_data(con)
    t.setup()
    co = field.get_coor()
    upper = np.array([i >= (np.prod(np.array(nA) + 1)) for i in range(len(co))])
    q = np.eye(dim)
    if dim == 2:
        al = 0.7
        q = np.array([[np.cos(al), -np.sin(al)], [np.sin(al), np.cos(al)]])
    else:
        q = np.linalg.qr(np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]))[0]
        q *= np.sign(np.linalg.det(q))
    n = q[:, dim - 1]
    def force(d, diff=None):
        new = co.copy()
        new[upper, dim - 1] -= d
        new = new @ q.T
        u.set_data((new - co).ravel())
        fun, args = t.get_fargs(100.0, v, u, mode='weak', diff_var=diff)
        if diff is None:
            out = np.zeros(u.n_dof)
            np.add.at(out, args[1], args[0])
            return out.reshape((-1, dim)), t.ci
        K = np.zeros((u.n_dof, u.n_dof))
        np.add.at(K, (args[1], args[2]), args[0])
        return K
    size = 4 - shift                          # common part of the surfaces in each direction
    for d in (0.01, 0.05):
        R, ci = force(d)
        G = ci.GPs
        on = G[:, 2 * dim + 3] == 1
        P = G[:, :dim] @ q
        inside = np.ones(len(G), dtype=bool)
        for k in range(dim - 1):
            inside &= (P[:, k] > shift) & (P[:, k] < 4)
        W.true('some points', on.any())
        W.true('active points', (on == inside).all())
        W.true('gaps', np.abs(G[on, dim + 2] + d).max() < 1e-8)
        W.true('forces along the normal', np.abs(R - np.outer(R @ n, n)).max() < 1e-8)
        if shift == 0:
            for side, sgn in ((upper, -1), (~upper, 1)):
                W.true('total force', abs((R[side] @ n).sum() - sgn * 100 * d * size ** (dim - 1)) < 1e-6)
        K = force(d, 'u')
        W.true('symmetric tangent', np.abs(K - K.T).max() < 1e-8)
        if shift == 0:
            a = np.zeros((len(co), dim))
            a[upper] = n
            b = (K @ a.ravel()).reshape((-1, dim))
            for side, sgn in ((upper, 1), (~upper, -1)):
                W.true('stiffness of the approach', abs((b[side] @ n).sum() - sgn * 100 * size ** (dim - 1)) < 1e-6)
        if shift == 0 and tuple(nA) == tuple(nB):
            R2, _ = force(d + 1e-3)
            W.true('tangent is the derivative', np.abs((R - R2) / 1e-3 - b).max() < 1e-6)
    R, ci = force(-0.02)
    W.true('no contact', not (ci.GPs[:, 2 * dim + 3] == 1).any() and np.abs(R).max() == 0)
    gap = t.get_fargs(100.0, v, u, mode='qp', term_mode='gap')[1]
    W.true('no negative gaps', np.abs(gap).max() == 0)

if __name__ == '__main__':
    main(S)
