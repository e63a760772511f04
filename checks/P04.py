"""Quaternion / Euler / matrix conversions of the metrics library denote the same rotation."""
from symex.api import *
from checks.P01 import G, same

REG = Registry()
FUNCTIONS = ['metrics.utils.matrix_to_quat', 'quat_to_matrix', 'quat_to_euler', 'euler_to_quat', 'euler_to_matrix',
             'matrix_to_euler']
ASSUMPTIONS = ['sin and cos obey the addition and half-angle theorems']
MODS = ['sumo.metrics.utils', 'sumo.geometry.rot3']


def U(W):
    return W.module('sumo.metrics.utils')


def rzyx(W, sz, cz, sy, cy, sx, cx):
    A = W.np.array([[cz, -sz, 0.0], [sz, cz, 0.0], [0.0, 0.0, 1.0]])
    B = W.np.array([[cy, 0.0, sy], [0.0, 1.0, 0.0], [-sy, 0.0, cy]])
    C = W.np.array([[1.0, 0.0, 0.0], [0.0, cx, -sx], [0.0, sx, cx]])
    return A.dot(B).dot(C)


def up_to_sign(c, p, q, label):
    c.check(len(p) == 4, label + ' (size)')
    for i in range(4):
        for j in range(i, 4):
            c.eq(p[i] * p[j], q[i] * q[j], label)


@REG.harness(bounds='any unit quaternion', mods=MODS, roots=True)
def quaternion_matrix(c, W):
    R, q = quat_rotation(c, W, 'q')
    u = U(W)
    same(c, u.quat_to_matrix(W.np.array(q)), R, 'matrix of a quaternion')


@REG.harness(bounds='any proper rotation', mods=MODS, roots=True)
def matrix_quaternion(c, W):
    R, q = quat_rotation(c, W, 'q')
    up_to_sign(c, U(W).matrix_to_quat(R), q, 'quaternion of a matrix, up to sign')


@REG.harness(bounds='any three Euler angles in (-pi, pi]', mods=MODS)
def euler_matrix(c, W):
    z, sz, cz = angle(c, 'z')
    y, sy, cy = angle(c, 'y')
    x, sx, cx = angle(c, 'x')
    u = U(W)
    R = rzyx(W, sz, cz, sy, cy, sx, cx)
    same(c, u.euler_to_matrix(W.np.array([z, y, x])), R, 'matrix of Euler angles is Rz Ry Rx')


@REG.harness(bounds='any three Euler angles in (-pi, pi]', mods=MODS)
def euler_quaternion(c, W):
    z, sz, cz = angle(c, 'z')
    y, sy, cy = angle(c, 'y')
    x, sx, cx = angle(c, 'x')
    R = rzyx(W, sz, cz, sy, cy, sx, cx)
    q = U(W).euler_to_quat(W.np.array([z, y, x]))
    w, a, b, d = q[0], q[1], q[2], q[3]
    M = W.np.array([[w*w + a*a - b*b - d*d, 2*(a*b - w*d), 2*(a*d + w*b)],
                    [2*(a*b + w*d), w*w - a*a + b*b - d*d, 2*(b*d - w*a)],
                    [2*(a*d - w*b), 2*(b*d + w*a), w*w - a*a - b*b + d*d]])
    same(c, M, R, 'quaternion of Euler angles')
    c.eq(w*w + a*a + b*b + d*d, 1, 'unit quaternion')


@REG.harness(bounds='any unit quaternion with |2(wy - zx)| <= 1 - 2^-20 (off gimbal lock)', mods=MODS, roots=True, branch_timeout=1500)
def quaternion_euler(c, W):
    R, q = quat_rotation(c, W, 'q')
    v = 2 * (q[0] * q[2] - q[1] * q[3])
    m = 1 - 2.0 ** -20
    c.assume(all_(c, [v <= m, v >= -m]))
    u = U(W)
    e = u.quat_to_euler(W.np.array(q))
    M = u.euler_to_matrix(e)
    c.check(tuple(M.shape) == (3, 3), 'matrix shape')
    for a, b in zip(M.reshape(-1), R.reshape(-1)):
        # times cos^2(pitch) > 0, which keeps the goal polynomial
        c.eq(a * (1 - v * v), b * (1 - v * v), 'Euler angles of a quaternion')


@REG.harness(bounds='any rotation with pitch exactly +-pi/2 (gimbal lock)', mods=MODS, roots=True, branch_timeout=1500)
def gimbal_lock(c, W):
    t, s, co = angle(c, 't')
    up = c.choice('sign', [1.0, -1.0])
    z, sz, cz = t, s, co
    R = rzyx(W, sz, cz, up, 0.0, 0.0, 1.0)
    # q = q_z(t) q_y(up pi/2)
    h = W.np.sqrt(0.5)
    u = U(W)
    e = u.matrix_to_euler(R)
    M = u.euler_to_matrix(e)
    c.check(tuple(M.shape) == (3, 3), 'matrix shape')
    for a, b in zip(M.reshape(-1), R.reshape(-1)):
        c.eq(a, b, 'Euler angles at gimbal lock', tol=1e-5)


@REG.harness(bounds='any quaternion of norm within 1e-12 of one (rounded input)', mods=MODS)
def rounding(c, W):
    q = [c.real('q%d' % i, -2, 2) for i in range(4)]
    n = sum(v * v for v in q)
    c.assume(all_(c, [n <= 1 + 1e-12, n >= 1 - 1e-12]))
    k, e = outcome(U(W).quat_to_euler, W.np.array(q))
    c.check(k == 'ok', 'a rounded unit quaternion has Euler angles')


@REG.harness(bounds='rotations about one coordinate axis by any angle off gimbal lock', mods=MODS, roots=True,
             branch_timeout=1500)
def matrix_euler_axis(c, W):
    t, s, co = angle(c, 't')
    k = c.choice('axis', [0, 1, 2])
    if k == 1:
        c.assume(co >= 0.125)
    one, z = 1.0, 0.0
    R = rzyx(W, *[v for i in (2, 1, 0) for v in ((s, co) if i == k else (z, one))])
    u = U(W)
    e = u.matrix_to_euler(R)
    c.check(len(e) == 3, 'three angles')
    same(c, u.euler_to_matrix(e), R, 'Euler angles of an axis rotation')
    for i in range(3):
        if 2 - i != k:
            c.eq(e[i], 0, 'no turn about the other axes')
