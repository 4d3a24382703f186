"""Small finite element set-ups shared by the checks of the Python layers."""
import os
from fractions import Fraction
import numpy as np
from engine import pyworld

FEM, DISC = 'sfepy.discrete.fem', 'sfepy.discrete'
MODULES = [DISC, FEM, 'sfepy.discrete.common.extmods.cmesh', 'sfepy.discrete.common.extmods.cmapping',
           'sfepy.discrete.common.extmods.assemble', 'sfepy.discrete.common.extmods.crefcoors',
           'sfepy.discrete.fem.extmods.bases', 'sfepy.discrete.fem.extmods.lobatto_bases',
           'sfepy.discrete.iga.extmods.igac', 'sfepy.discrete.common.extmods._fmfield',
           'sfepy.discrete.common.extmods._geommech']

def use(S, *more, terms=True):
    def pre():
        from engine import cyx
        cyx.use_terms()
    if terms:
        S.pre.append(pre)
    pyworld.cython(S, *MODULES, *more)

    def quiet():
        pyworld.load('sfepy.base.base').output.set_output(quiet=True)
    S.pre.append(quiet)

    def rquiet():
        import sfepy.base.base
        sfepy.base.base.output.set_output(quiet=True)
    S.pre_conc.append(rquiet)

# reference meshes: (coordinates, cells, element type)
MESHES = {
    'line': ([[0], [1], [3]], [[0, 1], [1, 2]], '1_2'),
    'tri': ([[0, 0], [2, 0], [2, 1], [0, 1]], [[0, 1, 2], [0, 2, 3]], '2_3'),
    'tri1': ([[0, 0], [2, 0], [0, 1]], [[0, 1, 2]], '2_3'),
    'quad': ([[0, 0], [2, 0], [5, 0], [0, 1], [2, 1], [5, 1]], [[0, 1, 4, 3], [1, 2, 5, 4]], '2_4'),
    'quad1': ([[0, 0], [2, 0], [2, 1], [0, 1]], [[0, 1, 2, 3]], '2_4'),
    'tet': ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]], [[0, 1, 2, 3], [4, 1, 3, 2]], '3_4'),
    'tet1': ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 2, 3]], '3_4'),
    'hex': ([[x, y, z] for z in (0, 1) for y in (0, 1) for x in (0, 1, 3)],
            [[0, 1, 4, 3, 6, 7, 10, 9], [1, 2, 5, 4, 7, 8, 11, 10]], '3_8'),
    'hex1': ([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]],
             [[0, 1, 2, 3, 4, 5, 6, 7]], '3_8'),
    'wedge1': ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1]],
               [[0, 1, 2, 3, 4, 5]], '3_6'),
}

def jitter(x, k, s):
    """A fixed small rational perturbation that keeps the elements valid."""
    out = []
    for i, row in enumerate(x):
        out.append([Fraction(c) + Fraction(((7 * i + 5 * j + 3 * k) * 11 % 13) - 6, s)
                    for j, c in enumerate(row)])
    return out

def coors(W, name, distort=0):
    x, conn, et = MESHES[name]
    x = [[Fraction(c) for c in r] for r in x]
    if distort:
        x = jitter(x, distort, 60)
    return W.array(x) if W.symbolic else np.array([[float(c) for c in r] for r in x])

def mesh(W, name, distort=0, x=None, groups=None, nodes=None):
    _, conn, et = MESHES[name]
    conn = np.array(conn, dtype=np.int32)
    if x is None:
        x = coors(W, name, distort)
    g = np.zeros(len(conn), dtype=np.int32) if groups is None else np.array(groups, dtype=np.int32)
    return W.mod(FEM).Mesh.from_data('mesh', x, nodes, [conn], [g], [et])

def domain(W, name, distort=0, **kw):
    return W.mod(FEM).FEDomain('domain', mesh(W, name, distort, **kw))

def move(W, dom, x):
    """Set the vertex coordinates of a domain."""
    dom.mesh.coors[...] = x
    dom.mesh._set_shape_info() if hasattr(dom.mesh, '_set_shape_info') else None

def field(W, region, order=1, shape=1, name='f', space='H1', basis='lagrange', dtype=None):
    return W.mod(FEM).Field.from_args(name, np.float64 if dtype is None else dtype, shape, region,
                                      approx_order=order, space=space, poly_space_basis=basis)

def integral(W, order):
    return W.mod(DISC).Integral('i', order=order)
