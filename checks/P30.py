"""Small-vector helpers: constructors, unit vectors, and the side of a line."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['Vector2', 'Vector2f', 'Vector3', 'Vector3f', 'Vector4', 'Matrix3', 'unitize', 'on_left']
ASSUMPTIONS = ['exact reals; square roots are non-negative reals with the given square']
MODS = ['sumo.base.vector']


def B(W):
    return W.module('sumo.base.vector')


@REG.harness(bounds='every coordinate in [-2^20, 2^20]', mods=MODS)
def constructors(c, W):
    V = B(W)
    x = [c.real('x%d' % i, -2 ** 20, 2 ** 20) for i in range(4)]
    for f, n, t in ((V.Vector2, 2, 'float64'), (V.Vector2f, 2, 'float32'), (V.Vector3, 3, 'float64'),
                    (V.Vector3f, 3, 'float32'), (V.Vector4, 4, 'float64')):
        v = f(*x[:n])
        c.check(v.shape == (n,), 'number of coordinates')
        c.check(str(v.dtype) == t, 'type of the coordinates')
        for i in range(n):
            c.eq(v[i], x[i], 'coordinates are kept in order', tol=0.25 if t == 'float32' else 0)
    m = V.Matrix3([x[0], x[1], x[2]], [x[1], x[3], x[0]], [x[3], x[2], x[1]])
    c.check(m.shape == (3, 3), 'shape of the matrix')
    for i, row in enumerate(((0, 1, 2), (1, 3, 0), (3, 2, 1))):
        for j in range(3):
            c.eq(m[i, j], x[row[j]], 'rows of the matrix')


@REG.harness(bounds='every vector of 2, 3 or 4 coordinates in [-10^6, 10^6] other than zero, however short', mods=MODS,
             roots=True)
def unit_vectors(c, W):
    V = B(W)
    n = c.choice('n', [2, 3, 4])
    v = vec(c, W, 'v', n, -10 ** 6, 10 ** 6)
    c.assume(any_(c, [x != 0 for x in v]))
    before = list(v)
    u = V.unitize(v)
    c.check(u.shape == (n,), 'number of coordinates')
    c.eq(sum(a * a for a in u), 1, 'length one')
    for i in range(n):
        c.check(all_(c, [implies(c, v[i] > 0, u[i] > 0), implies(c, v[i] < 0, u[i] < 0), implies(c, v[i] == 0, u[i] == 0)]),
                'no coordinate changes its sign')
        c.eq(v[i], before[i], 'the vector itself is left alone')
        for j in range(i):
            c.eq(u[i] * v[j], u[j] * v[i], 'same direction', tol=1e-6)


@REG.harness(bounds='the zero vector of 1 to 5 coordinates', mods=MODS)
def zero_vectors(c, W):
    V = B(W)
    n = c.choice('n', [1, 2, 3, 4, 5])
    k = c.int('k', -3, 3)
    u = V.unitize(W.np.zeros(n) * k)
    c.check(u.shape == (n,), 'number of coordinates')
    for a in u:
        c.eq(a, 0, 'the zero vector is returned as it is')


@REG.harness(bounds='every normal, point and line in [-100, 100]^3', mods=MODS)
def sides(c, W):
    V = B(W)
    N, p, a, b = [vec(c, W, k, 3, -100, 100) for k in 'Npab']
    d, q = b - a, p - a
    s = (N[0] * (d[1] * q[2] - d[2] * q[1]) + N[1] * (d[2] * q[0] - d[0] * q[2]) + N[2] * (d[0] * q[1] - d[1] * q[0]))
    if c.concrete and abs(s) < 1e-9 and s != 0:
        raise NotApplicable()
    if V.on_left(N, p, a, b):
        c.check(s >= 0, 'on the left means counterclockwise about the normal')
    else:
        c.check(s < 0, 'on the right means clockwise about the normal')


@REG.harness(bounds='every line and normal in [-100, 100]^3, every point on the line', mods=MODS)
def on_the_line(c, W):
    V = B(W)
    N, a, d = [vec(c, W, k, 3, -16, 16, kind='int') for k in 'Nad']
    t = c.choice('t', [-2, 0, 1, 3])
    c.check(V.on_left(N * 1.0, a + t * d * 1.0, a * 1.0, (a + d) * 1.0), 'points on the line count as left')
