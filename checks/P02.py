"""Rotation constructors: proper, orthogonal, and turning in the documented sense."""
from symex.api import *
from checks.P01 import G, same

REG = Registry()
FUNCTIONS = ['Rot3.Rx', 'Rot3.Ry', 'Rot3.Rz', 'Rot3.AxisAngle', 'Rot3.ENU_camera', 'Rot3.Maya_camera',
             'Pose3.ENU_camera', 'Pose3.Maya_camera', 'Rot3.FromScalars', 'Rot3.__mul__']
ASSUMPTIONS = ['sin and cos of an angle are an arbitrary point of the unit circle, with the addition theorems; '
               'multiples of pi/2 are exact']
TURNS = (0, 1, -1)
MODS = ['sumo.geometry.pose3', 'sumo.base.vector']


def proper(c, W, M, label):
    for i in range(3):
        for j in range(i, 3):
            c.eq(sum(M[k, i] * M[k, j] for k in range(3)), 1.0 if i == j else 0.0, label + ': orthogonal')
        a, b = (i + 1) % 3, (i + 2) % 3
        for j in range(3):
            p, q = (j + 1) % 3, (j + 2) % 3
            c.eq(M[i, j], M[a, p] * M[b, q] - M[a, q] * M[b, p], label + ': determinant +1')


@REG.harness(bounds='any angle in (-3pi, 3pi]', mods=MODS)
def axis_rotations(c, W):
    Pose3, Rot3, V = G(W)
    t, s, co = angle(c, 't', TURNS)
    for k, f in enumerate((Rot3.Rx, Rot3.Ry, Rot3.Rz)):
        M = f(t).matrix()
        proper(c, W, M, 'Rx Ry Rz'[3 * k:3 * k + 2])
        a, b = (k + 1) % 3, (k + 2) % 3
        for i in range(3):
            c.eq(M[i, k], 1 if i == k else 0, 'the axis stays put')
            c.eq(M[i, a], {a: co, b: s, k: 0}[i], 'counterclockwise about the axis')
            c.eq(M[i, b], {a: -s, b: co, k: 0}[i], 'counterclockwise about the axis')


@REG.harness(bounds='any two angles', mods=MODS)
def axis_rotations_add(c, W):
    Pose3, Rot3, V = G(W)
    t, s, co = angle(c, 't')
    u, su, cu = angle(c, 'u')
    for f in (Rot3.Rx, Rot3.Ry, Rot3.Rz):
        same(c, (f(t) * f(u)).matrix(), f(t + u).matrix(), 'angles about one axis add')
        same(c, f(t).inverse().matrix(), f(-t).matrix(), 'the inverse turns back')


@REG.harness(bounds='any unit axis, any angle in (-3pi, 3pi], any vector in [-10,10]^3', mods=MODS)
def axis_angle(c, W):
    Pose3, Rot3, V = G(W)
    t, s, co = angle(c, 't', TURNS)
    d = vec(c, W, 'd', lo=-1, hi=1)
    if c.concrete:
        n = W.np.linalg.norm(d)
        if n < 1e-6:
            raise NotApplicable()
        d = d / n
    else:
        assume_eq(c, d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1)
        c.hint([d[0] == Fraction(1, 3), d[1] == Fraction(2, 3), d[2] == Fraction(-2, 3)],
               [d[0] == Fraction(6, 7), d[1] == Fraction(-2, 7), d[2] == Fraction(3, 7)])
    x = vec(c, W, 'x', lo=-10, hi=10)
    R = Rot3.AxisAngle(d, t)
    dx = [d[1] * x[2] - d[2] * x[1], d[2] * x[0] - d[0] * x[2], d[0] * x[1] - d[1] * x[0]]
    dot = sum(d[i] * x[i] for i in range(3))
    y = R * x
    for i in range(3):     # Rodrigues
        c.eq(y[i], dot * d[i] + co * (x[i] - dot * d[i]) + s * dx[i], 'rotation of a vector about the axis')
    same(c, R * d, d, 'the axis stays put')
    proper(c, W, R.matrix(), 'axis-angle')
    same(c, Rot3.AxisAngle(-d, -t).matrix(), R.matrix(), 'opposite axis and angle are the same rotation')
    same(c, Rot3.AxisAngle(d, -t).matrix(), R.inverse().matrix(), 'the opposite angle is the inverse')


@REG.harness(bounds='the three coordinate axes, any angle', mods=MODS)
def axis_angle_agrees(c, W):
    Pose3, Rot3, V = G(W)
    t, s, co = angle(c, 't')
    for k, f in enumerate((Rot3.Rx, Rot3.Ry, Rot3.Rz)):
        same(c, Rot3.AxisAngle(V(*[1.0 if i == k else 0.0 for i in range(3)]), t).matrix(), f(t).matrix(),
             'axis-angle agrees with the coordinate rotations')


def camera(c, W, kind):
    """columns of the camera rotation in terms of (east/right, up, forward) semantics"""
    Pose3, Rot3, V = G(W)
    roll, sr, cr = angle(c, 'roll', (0, 1))
    pitch, sp, cp = angle(c, 'pitch', (0, 1))
    yaw, sy, cy = angle(c, 'yaw', (0, -1))
    pos = vec(c, W, 'pos', lo=-100, hi=100)
    f = getattr(Rot3, kind)
    P = getattr(Pose3, kind)(roll=roll, pitch=pitch, yaw=yaw, position=pos)
    same(c, P.rotation().matrix(), f(roll=roll, pitch=pitch, yaw=yaw).matrix(), 'pose and rotation agree')
    same(c, P.rotation().matrix(), f(roll, pitch, yaw).matrix(), 'argument order is roll, pitch, yaw')
    same(c, P.translation(), pos, 'the camera centre is the position')
    if kind == 'ENU_camera':     # components along east, north, up
        basis = W.np.array([[1.0, 0, 0], [0, 1, 0], [0, 0, 1]])
    else:                        # right, forward, up in the Maya frame
        basis = W.np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]])
    look = basis.dot(P.rotation() * V(0, 0, 1))
    right = basis.dot(P.rotation() * V(1, 0, 0))
    up = basis.dot(P.rotation() * V(0, -1, 0))
    same(c, look, W.np.array([sy * cp, cy * cp, sp]), 'yaw turns right and pitch looks up')
    # unrolled right and up directions, then rolled so that the right side dips
    r0 = [cy, -sy, 0.0]
    u0 = [-sy * sp, -cy * sp, cp]
    same(c, right, W.np.array([cr * r0[i] - sr * u0[i] for i in range(3)]), 'positive roll dips the right side')
    same(c, up, W.np.array([cr * u0[i] + sr * r0[i] for i in range(3)]), 'positive roll dips the right side')
    if kind == 'ENU_camera':
        c.check(True, 'done')
    same(c, f().matrix() * 1.0, getattr(Pose3, kind)().rotation().matrix(), 'defaults agree')
    same(c, basis.dot(f() * V(0, 0, 1)), W.np.array([0.0, 1, 0]), 'the default camera looks forward')
    same(c, basis.dot(f() * V(1, 0, 0)), W.np.array([1.0, 0, 0]), 'the default camera is level')
    same(c, getattr(Pose3, kind)().translation(), W.np.zeros(3), 'the default position is the origin')


@REG.harness(bounds='any roll, pitch, yaw within one and a half turns; any position in [-100,100]^3', mods=MODS)
def enu_camera(c, W):
    camera(c, W, 'ENU_camera')


@REG.harness(bounds='any roll, pitch, yaw within one and a half turns; any position in [-100,100]^3', mods=MODS)
def maya_camera(c, W):
    camera(c, W, 'Maya_camera')
