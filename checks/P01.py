"""Rigid transforms: group laws, inverse, point transfer consistency."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['Pose3.__init__', 'Pose3.compose', 'Pose3.inverse', 'Pose3.__mul__', 'Pose3.transform_from',
             'Pose3.transform_to', 'Pose3.transform_all_from', 'Pose3.transform_all_to', 'Pose3.matrix34',
             'Pose3.matrix', 'Pose3.FromMatrix34', 'Rot3.__mul__', 'Rot3.inverse', 'Rot3.rotate', 'Rot3.unrotate',
             'Rot3.__call__', 'Rot3.FromScalars', 'Rot3.FromColumns']
ASSUMPTIONS = ['rotations are proper orthogonal matrices']
MODS = ['sumo.geometry.pose3', 'sumo.base.vector']


def G(W):
    m = W.module('sumo.geometry.pose3')
    return m.Pose3, W.module('sumo.geometry.rot3').Rot3, W.module('sumo.base.vector').Vector3


def pose(c, W, n):
    Pose3, Rot3, V = G(W)
    R = rotation(c, W, n + 'R')
    t = vec(c, W, n + 't', lo=-100, hi=100)
    return Pose3(Rot3(R), t), R, t


def pose_any(c, W, n):
    """no orthogonality assumed: for laws that are plain linear algebra"""
    Pose3, Rot3, V = G(W)
    R, t = mat(c, W, n + 'R', 3, 3, -2, 2), vec(c, W, n + 't', lo=-100, hi=100)
    return Pose3(Rot3(R), t), R, t


def same(c, a, b, label):
    c.check(tuple(a.shape) == tuple(b.shape), label + ' (shape)')
    for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
        c.eq(x, y, label)


@REG.harness(bounds='any 3x3 R, t in [-100,100]^3, any point in [-100,100]^3', mods=MODS)
def transform_matches_matrix(c, W):
    p, R, t = pose_any(c, W, 'p')
    x = vec(c, W, 'x', lo=-100, hi=100)
    want = W.np.array([sum(R[i, k] * x[k] for k in range(3)) + t[i] for i in range(3)])
    same(c, p * x, want, 'pose * point is R x + t')
    same(c, p.transform_from(x), want, 'transform_from is R x + t')
    M4 = p.matrix()
    c.check(M4.shape == (4, 4), 'homogeneous matrix shape')
    for i in range(3):
        for j in range(3):
            c.eq(M4[i, j], R[i, j], 'rotation block')
        c.eq(M4[i, 3], t[i], 'translation column')
        c.eq(M4[3, i], 0, 'last row')
    c.eq(M4[3, 3], 1, 'last row')
    same(c, p.matrix34(), M4[:3, :], 'matrix34 is the top of matrix')
    q = G(W)[0].FromMatrix34(p.matrix34())
    same(c, q.matrix(), M4, 'FromMatrix34 inverts matrix34')
    same(c, p.rotation().matrix(), R, 'rotation()')
    same(c, p.translation(), t, 'translation()')
    same(c, p.rotation() * x, p.rotation().rotate(x), 'rotate is the matrix product')


@REG.harness(bounds='any 3x3 matrix R, t in [-100,100]^3, 3xN arrays of points with N = 0..3', mods=MODS)
def batch_matches_single(c, W):
    p, R, t = pose_any(c, W, 'p')
    n = c.choice('n', [0, 1, 2, 3])
    X = mat(c, W, 'x', 3, n, -100, 100) if n else W.np.zeros((3, 0))
    for name, f, g in (('from', lambda a: p * a, lambda v: p * v),
                       ('all_from', p.transform_all_from, p.transform_from),
                       ('all_to', p.transform_all_to, p.transform_to)):
        Y = f(X)
        c.check(tuple(Y.shape) == (3, n), 'shape of transformed points')
        for j in range(n):
            same(c, Y[:, j], g(X[:, j]), 'a batch is transformed point by point (%s)' % name)


@REG.harness(bounds='any proper rotation, t in [-100,100]^3, any point in [-100,100]^3', mods=MODS)
def inverse_undoes(c, W):
    p, R, t = pose(c, W, 'p')
    x = vec(c, W, 'x', lo=-100, hi=100)
    same(c, p.transform_to(p.transform_from(x)), x, 'transform_to undoes transform_from')
    same(c, p.transform_from(p.transform_to(x)), x, 'transform_from undoes transform_to')
    q = p.inverse()
    same(c, q * x, p.transform_to(x), 'the inverse pose is transform_to')
    e = p * q
    I = W.np.eye(3)
    same(c, e.rotation().matrix(), I, 'p * inverse(p) rotation is the identity')
    same(c, e.translation(), W.np.zeros(3), 'p * inverse(p) translation is zero')
    e = q * p
    same(c, e.rotation().matrix(), I, 'inverse(p) * p rotation is the identity')
    same(c, e.translation(), W.np.zeros(3), 'inverse(p) * p translation is zero')
    same(c, p.rotation().unrotate(p.rotation().rotate(x)), x, 'unrotate undoes rotate')
    same(c, p.rotation().matrix(), R, 'the pose itself is unchanged')
    same(c, p.translation(), t, 'the pose itself is unchanged')


@REG.harness(bounds='three arbitrary affine poses (no orthogonality needed), one point, all entries in [-100,100]',
             mods=MODS)
def composition(c, W):
    a, Ra, ta = pose_any(c, W, 'a')
    b, Rb, tb = pose_any(c, W, 'b')
    x = vec(c, W, 'x', lo=-100, hi=100)
    same(c, (a * b) * x, a * (b * x), 'composition acts as one after the other')
    same(c, a.compose(b) * x, a * (b * x), 'compose acts as one after the other')
    same(c, (a * b).matrix(), a.matrix().dot(b.matrix()), 'composition is the matrix product')
    e = G(W)[0]()
    same(c, (e * a).matrix(), a.matrix(), 'left identity')
    same(c, (a * e).matrix(), a.matrix(), 'right identity')


@REG.harness(bounds='three rotations given as arbitrary 3x3 matrices', mods=MODS)
def associativity(c, W):
    a, Ra, ta = pose_any(c, W, 'a')
    b, Rb, tb = pose_any(c, W, 'b')
    d, Rd, td = pose_any(c, W, 'd')
    same(c, ((a * b) * d).matrix(), (a * (b * d)).matrix(), 'composition is associative')


@REG.harness(bounds='two proper rotations, t in [-100,100]^3', mods=MODS)
def products_stay_proper(c, W):
    a, Ra, ta = pose(c, W, 'a')
    b, Rb, tb = pose(c, W, 'b')
    inv = (a * b).inverse()
    other = b.inverse() * a.inverse()
    same(c, inv.matrix(), other.matrix(), 'inverse of a product is the reversed product of inverses')


@REG.harness(bounds='default pose and rotation used, composed and inverted; any t and point in [-100,100]^3', mods=MODS)
def defaults_are_identity(c, W):
    Pose3, Rot3, V = G(W)
    t = vec(c, W, 't', lo=-100, hi=100)
    x = vec(c, W, 'x', lo=-100, hi=100)
    p = Pose3(t=t)
    r = p.inverse()
    same(c, p * x, x + t, 'default rotation is the identity')
    same(c, r * x, x - t, 'inverse of a translation')
    same(c, Pose3() * x, x, 'default pose is the identity')
    same(c, Rot3() * x, x, 'default rotation is the identity')


@REG.harness(bounds='any nine scalars / three columns, any vector in [-100,100]^3', mods=MODS)
def rot_constructors(c, W):
    Pose3, Rot3, V = G(W)
    R = mat(c, W, 'R', 3, 3, -2, 2)
    x = vec(c, W, 'x', lo=-100, hi=100)
    a = Rot3.FromScalars(*[R[i, j] for i in range(3) for j in range(3)])
    b = Rot3.FromColumns(R[:, 0], R[:, 1], R[:, 2])
    same(c, a.matrix(), R, 'FromScalars is row by row')
    same(c, b.matrix(), R, 'FromColumns is column by column')
    for j in range(3):
        same(c, a(j), R[:, j], 'call gives a column')
    same(c, a.inverse().matrix(), R.T, 'inverse is the transpose')
    same(c, a.unrotate(x), R.T.dot(x), 'unrotate is the transpose product')
    same(c, (a * b).matrix(), R.dot(R), 'product is the matrix product')


@REG.harness(bounds='any affine pose, 1100 points of which two are symbolic', mods=MODS, timeout=300)
def large_batch(c, W):
    p, R, t = pose_any(c, W, 'p')
    n = 1100
    ps = [[(k * 7 + j * 5) % 64 / 4. + k for j in range(3)] for k in range(n)]
    for k in (0, n - 1):
        ps[k] = [c.real('x%d%d' % (k, j), -100, 100) for j in range(3)]
    X = W.np.array([[q[j] for q in ps] for j in range(3)], dtype='float64')
    Y, Z = p.transform_all_from(X), p.transform_all_to(X)
    c.check(tuple(Y.shape) == (3, n) and tuple(Z.shape) == (3, n), 'shape of transformed points')
    for k in [0, 1, 2, 3, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000,
              1001, 1023, 1024, 1025, 1098, 1099]:
        for j in range(3):
            c.eq(Y[j, k], sum(R[j, i] * ps[k][i] for i in range(3)) + t[j], 'every point of a batch is transformed', 1e-6)
            c.eq(Z[j, k], sum(R[i, j] * (ps[k][i] - t[i]) for i in range(3)), 'every point of a batch is transformed', 1e-6)
