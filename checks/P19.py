"""Pose error: symmetry-aware geodesic rotation error and mean translation error."""
import math
from symex.api import *
from checks.P16 import bnd
from checks.P18 import make, obj

REG = Registry()
FUNCTIONS = ['Evaluator.rotation_error_1', 'symmetric_rot', 'cylindrical_symmetric_rot', 'pose_error', 'Rot3.Rx', 'Ry', 'Rz']
ASSUMPTIONS = ['the Frobenius norm of the logarithm of a rotation is sqrt(2) times its angle, '
               'which falls strictly with the trace', 'sin and cos obey the addition theorems']
EV = 'sumo.metrics.evaluator'
MODS = [EV, 'sumo.semantic.project_object_dict', 'sumo.semantic.project_object', 'sumo.semantic.object_symmetry',
        'sumo.threedee.box_3d', 'sumo.geometry.pose3', 'sumo.geometry.rot3', 'sumo.base.vector']
TOL = 1e-6
N = {0: 'none', 2: 'twoFold', 4: 'fourFold', 'c': 'cylindrical', 's': 'spherical'}
SYMS = ([(0, 0, 0), (2, 2, 2), (4, 4, 4), ('s', 's', 's')] +
        [tuple(v if j == i else 0 for j in range(3)) for i in range(3) for v in (2, 4, 'c')] +
        [tuple(v if j == i else 2 for j in range(3)) for i in range(3) for v in (4, 'c')])


class Bare(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def element(W, R, sym=(0, 0, 0), t=(0.0, 0.0, 0.0)):
    S = W.module('sumo.semantic.object_symmetry')
    P = W.module('sumo.geometry.pose3').Pose3
    T = S.SymmetryType
    return Bare(pose=P(t=W.module('sumo.base.vector').Vector3(*t), R=W.module('sumo.geometry.rot3').Rot3(R)),
                symmetry=S.ObjectSymmetry(*[getattr(T, N[s]) for s in sym]))


def evaluator(W):
    return make(W, [], [], {}, [0.5])


def axis(W, k, s, co):
    i, j = (k + 1) % 3, (k + 2) % 3
    m = [[0.0] * 3 for _ in range(3)]
    m[k][k] = 1.0
    m[i][i] = m[j][j] = co
    m[i][j], m[j][i] = -s, s
    return W.np.array(m)


def turns(W, k, n):
    """all turns of an n-fold axis"""
    q = [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)]
    return [axis(W, k, *q[i]) for i in range(0, 4, 4 // n)] if n else [axis(W, k, 0.0, 1.0)]


def group(c, W, sym, name='phi'):
    """generators of the symmetry group: a list of functions giving its elements"""
    out = [axis(W, 0, 0.0, 1.0)]
    for k in range(3):
        if sym[k] in (2, 4):
            out = [a.dot(b) for a in out for b in turns(W, k, sym[k])]
    # equal products occur more than once
    seen, uniq = set(), []
    for m in out:
        key = tuple(round(float(v), 3) for v in m.reshape(-1))
        if key not in seen:
            seen.add(key)
            uniq.append(m)
    return uniq


def theta(c, W, A):
    """rotation angle of the rotation A, from its trace"""
    x = (A[0, 0] + A[1, 1] + A[2, 2] - 1) / 2
    if c.concrete:
        return math.acos(max(-1.0, min(1.0, float(x))))
    from symex import stubs
    return stubs.angle_of(x)


def symmetric(sym):
    def h(c, W):
        g = group(c, W, sym)
        H = g[c.choice('turn', list(range(len(g))))]
        R, q = quat_rotation(c, W, 'R')
        if 'c' in sym:
            t, s, co = angle(c, 'phi')
            H = H.dot(axis(W, sym.index('c'), s, co))
        err = evaluator(W).rotation_error_1(element(W, R.dot(H)), element(W, R, sym))
        c.le(err, 0, 'a symmetric placement has no rotation error', tol=TOL)
    return h


def label(sym):
    return '_'.join(N[s] for s in sym)


def kind(sym):
    return 'symmetry ' + ', '.join(N[s] for s in sym)


for s in SYMS:
    if s[0] != 's':
        REG.add(symmetric(s), 'symmetric_' + label(s), 'any ground truth rotation, detection turned by any element of the group; ' + kind(s),
                MODS, 'thorough' if s == (4, 4, 4) else 'quick', normal=True, branch_timeout=500)


def nearest(sym, tilt):
    def h(c, W):
        g = group(c, W, sym)
        D, q = quat_rotation(c, W, 'D')
        R = quat_rotation(c, W, 'R')[0] if tilt else W.np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
        err = evaluator(W).rotation_error_1(element(W, D), element(W, R, sym))
        A = D.T.dot(R)
        th = [theta(c, W, A.dot(m)) for m in g]
        for t in th:
            c.le(err, t, 'no symmetric placement is nearer', tol=TOL)
        c.check(any_(c, [close(c, err, t, TOL) for t in th]), 'the error is that of a symmetric placement')
    return h


def any_matrix(c, W, name):
    """any 3x3 matrix with entries in [-1, 1]: the claims below need no orthogonality; replay uses the nearest rotation"""
    M = mat(c, W, name, 3, 3, -1, 1)
    if c.concrete:
        import numpy as np
        u, s, vt = np.linalg.svd(M)
        if np.linalg.det(u.dot(vt)) < 0:
            u[:, 2] = -u[:, 2]
        return u.dot(vt)
    return M


def cyl_nearest(sym):
    def h(c, W):
        g = group(c, W, sym)
        k = sym.index('c')
        m = g[c.choice('turn', list(range(len(g))))]
        D = any_matrix(c, W, 'D')
        t, s, co = angle(c, 'phi')
        R = W.np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
        err = evaluator(W).rotation_error_1(element(W, D), element(W, R, sym))
        c.le(err, theta(c, W, D.T.dot(m).dot(axis(W, k, s, co))), 'no symmetric placement is nearer', tol=TOL)
    return h


for s in SYMS:
    n = 1
    if s[0] == 's':
        continue
    if 'c' in s:
        REG.add(cyl_nearest(s), 'nearest_' + label(s), 'any detected rotation, ground truth unrotated, any turn of the '
                'group; ' + kind(s), MODS, normal=True, branch_timeout=500)
    else:
        REG.add(nearest(s, True), 'nearest_' + label(s), 'any detected and ground truth rotation; ' + kind(s),
                MODS, 'thorough' if s == (4, 4, 4) else 'quick', normal=True, branch_timeout=500, witness_optional=True,
                timeout=120, optional=True)


@REG.harness(bounds='any two rotations, spherical symmetry', mods=MODS, normal=True)
def spherical(c, W):
    D, q = quat_rotation(c, W, 'D')
    R, q = quat_rotation(c, W, 'R')
    c.eq(evaluator(W).rotation_error_1(element(W, D), element(W, R, ('s', 's', 's'))), 0, 'a ball has no rotation error')


def pose_errors(nd, ng, th):
    def h(c, W):
        from checks.P18 import data, greedy
        ds, gs, sim = data(c, nd, ng)
        ev = {g: g == 'g1' or bool(c.bool('ev_' + g)) for g in gs}
        V = W.module('sumo.base.vector').Vector3
        off = {d: c.real('off_' + d, -4, 4) for d, _ in ds}
        rot = [W.np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]), axis(W, 1, 1.0, 0.0)]
        deg = [0.0, math.pi / 2]
        Rot3 = W.module('sumo.geometry.rot3').Rot3
        def mk(i, t, k, **kw):
            o = obj(W, i, t=t, **kw)
            o.pose = W.module('sumo.geometry.pose3').Pose3(R=Rot3(rot[k]), t=V(*t))
            return o
        e = make(W, [mk(d, [off[d], 1.0, 2.0], i % 2, score=s) for i, (d, s) in enumerate(ds)],
                 [mk(g, [1.0, 1.0, 2.0], 0, ev=ev[g]) for g in gs], sim, th)
        got = [[(d, g) for d, g in greedy(ds, gs, sim, t).items() if ev[g]] for t in th]
        got = [m for m in got if m]
        r = e.pose_error()
        c.check(len(r) == 2, 'rotation and translation error')
        names = [d for d, _ in ds]
        if not got:
            c.check(r[0] == math.inf and r[1] == math.inf, 'without matches the errors are infinite')
            return
        rot_e = sum(sum(deg[names.index(d) % 2] for d, g in m) / len(m) for m in got) / len(got)
        tr_e = sum(sum(abs(off[d] - 1.0) for d, g in m) / len(m) for m in got) / len(got)
        c.eq(r[0], rot_e, 'rotation error is the mean over matches, then thresholds', tol=TOL)
        c.eq(r[1], tr_e, 'translation error is the mean over matches, then thresholds', tol=TOL)
    return h


for nd, ng, th in [(1, 2, [0.75, 0.25]), (2, 2, [0.5]), (2, 1, [0.25, 0.75])]:
    REG.add(pose_errors(nd, ng, th), 'pose_error_%dx%d_%d' % (nd, ng, len(th)), bnd(nd, ng, th) +
            ', any evaluated flag, any offset along x, two fixed rotations; no ties', MODS, normal=True)


@REG.harness(bounds='one match displaced by any vector', mods=MODS)
def translation(c, W):
    V = W.module('sumo.base.vector').Vector3
    a = [c.real('a' + k, -4, 4) for k in 'xyz']
    b = [c.real('b' + k, -4, 4) for k in 'xyz']
    e = make(W, [obj(W, 'd', t=a, score=1)], [obj(W, 'g', t=b)], {'d': {'g': 1}}, [0.5])
    r = e.pose_error()[1]
    c.le(0, r, 'translation error is not negative')
    c.eq(r * r, sum((x - y) * (x - y) for x, y in zip(a, b)), 'translation error is the distance', tol=TOL)
