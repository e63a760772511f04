"""Point clouds keep their points and colours: storage, merging, registration, motion, thinning and the text file."""
import os
from symex.api import *
from checks.P01 import pose_any
from checks.P14 import scratch
from checks.P24 import pts, same_cols

CPP = True
REG = Registry()
FUNCTIONS = ['PointCloud.__init__', 'points', 'point', 'colors', 'color', 'merge', '__add__', '__radd__', 'append',
             'register', 'thin', 'transform_from', 'transform_to', 'save', 'C++ sumo::PointCloud (constructors, append, '
             'accessors)', 'Pose3.transform_all_from', 'Pose3.transform_all_to']
ASSUMPTIONS = ['coordinates are exact reals']
MODS = ['sumo.threedee.point_cloud', 'sumo.geometry.pose3', 'sumo.geometry.rot3']


def PC(W):
    return W.module('sumo.threedee.point_cloud').PointCloud


def colours(c, name, n):
    return [[c.int('%s%d%s' % (name, i, 'rgb'[j]), 0, 255) for j in range(3)] for i in range(n)]


def cols(W, rows, dtype=float):
    return W.np.array(rows, dtype=dtype).reshape(len(rows), 3).T


def raises(c, f, exc, label):
    c.check(outcome(f)[0] == exc.__name__, label + ' raises ' + exc.__name__)


class Cloud(object):
    def __init__(self, c, name, n, coloured):
        self.p = pts(c, name + 'p', n)
        self.c = colours(c, name + 'c', n) if coloured else []
        self.coloured = coloured

    def make(self, W):
        if self.coloured:
            return PC(W)(cols(W, self.p), cols(W, self.c, 'uint8'))
        return PC(W)(cols(W, self.p))


def is_cloud(c, k, p, col, label):
    c.check(k.num_points() == len(p), label + ': number of points')
    c.check(k.points().shape == (3, len(p)), label + ': shape of the points')
    same_cols(c, k.points(), p, label + ': points')
    c.check(bool(k.colored()) == (len(col) > 0), label + ': coloured')
    c.check(k.colors().shape == (3, len(col)), label + ': shape of the colours')
    for i, x in enumerate(col):
        for j in range(3):
            c.check(k.colors()[j, i] == x[j], label + ': colours')
    for i, x in enumerate(p):
        for j in range(3):
            c.eq(k.point(i)[j], x[j], label + ': point by index')
    for i, x in enumerate(col):
        for j in range(3):
            c.check(k.color(i)[j] == x[j], label + ': colour by index')


@REG.harness('0 to 3 points, with and without colours; the arrays passed in and out are overwritten', MODS)
def stores_its_arrays(c, W):
    n = c.choice('n', [0, 1, 3])
    C = Cloud(c, 'a', n, c.choice('coloured', [False, True]))
    p, col = cols(W, C.p), cols(W, C.c, 'uint8') if C.coloured else None
    k = PC(W)(p, col)
    is_cloud(c, k, C.p, C.c, 'new')
    c.check(k.points().dtype == W.np.float64 and k.colors().dtype == W.np.uint8, 'types')
    if n:
        p[0, 0] = 77
        k.points()[1, n - 1] = 99
        k.point(0)[2] = 99
        if C.coloured:
            col[0, 0] = 7
            k.colors()[1, 0] = 9
            k.color(0)[2] = 9
    is_cloud(c, k, C.p, C.c, 'after the arrays changed')
    e = PC(W)()
    is_cloud(c, e, [], [], 'empty')


@REG.harness('colours of another shape than the points; points of another shape than 3xN', MODS)
def bad_shapes(c, W):
    a = W.np.zeros((3, 2))
    raises(c, lambda: PC(W)(a, W.np.zeros((3, 3), dtype='uint8')), AssertionError, 'too many colours')
    raises(c, lambda: PC(W)(a, W.np.zeros((3, 1), dtype='uint8')), AssertionError, 'too few colours')
    raises(c, lambda: PC(W)(W.np.zeros((2, 3))), AssertionError, 'planar points')
    raises(c, lambda: PC(W)(W.np.zeros((3,))), AssertionError, 'a vector')


def pair(c, W, na, nb):
    col = c.choice('coloured', [False, True])
    A, B = Cloud(c, 'a', na, col), Cloud(c, 'b', nb, col)
    return A, B, A.make(W), B.make(W)


for na, nb in [(1, 2), (2, 0), (0, 2)]:
    def h(c, W, na=na, nb=nb):
        A, B, a, b = pair(c, W, na, nb)
        for label, m in [('merge', lambda: PC(W).merge(a, b)), ('sum', lambda: a + b), ('sum of a list', lambda: sum([a, b]))]:
            if label == 'merge' and A.coloured and (na == 0) != (nb == 0):
                continue        # an empty cloud has no colours
            if A.coloured and nb == 0:
                continue
            k = m()
            is_cloud(c, k, A.p + B.p, A.c + B.c, label)
            is_cloud(c, a, A.p, A.c, label + ' keeps the first')
            is_cloud(c, b, B.p, B.c, label + ' keeps the second')
        k = PC(W).merge(PC(W)(), b) if nb else PC(W)()
        k.append(b)
        is_cloud(c, k, B.p + B.p if nb else [], B.c + B.c if nb else [], 'merged with empty, then appended')
        is_cloud(c, b, B.p, B.c, 'append keeps the other')
        a.append(b)
        is_cloud(c, a, A.p + B.p, A.c + B.c, 'append')
        a.append(a)
        is_cloud(c, a, 2 * (A.p + B.p), 2 * (A.c + B.c), 'append to itself')
        is_cloud(c, b, B.p, B.c, 'append keeps the other')
    REG.add(h, 'joining_%d_%d' % (na, nb), 'a cloud of %d and one of %d points, both coloured or both not' % (na, nb), MODS)


@REG.harness('three clouds of 1, 2 and 1 points summed', MODS)
def summing(c, W):
    col = c.choice('coloured', [False, True])
    C = [Cloud(c, n, k, col) for n, k in [('a', 1), ('b', 2), ('d', 1)]]
    K = [x.make(W) for x in C]
    is_cloud(c, sum(K), C[0].p + C[1].p + C[2].p, C[0].c + C[1].c + C[2].c, 'sum')
    is_cloud(c, sum([K[1]]), C[1].p, C[1].c, 'sum of one')
    for x, k in zip(C, K):
        is_cloud(c, k, x.p, x.c, 'summands stay')


@REG.harness('a coloured and a plain cloud of 1 or 2 points, in both orders', MODS)
def mixed(c, W):
    A, B = Cloud(c, 'a', c.choice('na', [1, 2]), True), Cloud(c, 'b', c.choice('nb', [1, 2]), False)
    a, b = A.make(W), B.make(W)
    raises(c, lambda: PC(W).merge(a, b), ValueError, 'coloured with plain')
    raises(c, lambda: PC(W).merge(b, a), ValueError, 'plain with coloured')
    raises(c, lambda: a + b, ValueError, 'coloured plus plain')
    raises(c, lambda: b + a, ValueError, 'plain plus coloured')
    is_cloud(c, a, A.p, A.c, 'the coloured one stays')
    is_cloud(c, b, B.p, B.c, 'the plain one stays')


@REG.harness('0, 1, 2 and 3 clouds of up to 2 points under any pose', MODS)
def registering(c, W):
    col = c.choice('coloured', [False, True])
    n = c.choice('clouds', [0, 1, 3])
    sizes = [2, 1, 1][:n]
    C = [Cloud(c, 'abd'[i], k, col) for i, k in enumerate(sizes)]
    T = [pose_any(c, W, 'T%d' % i)[0] for i in range(n)]
    K = [x.make(W) for x in C]
    k = PC(W).register(zip(T, K)) if c.choice('lazy', [False, True]) else PC(W).register(list(zip(T, K)))
    want = []
    for t, x in zip(T, C):
        for p in x.p:
            want.append([sum(t.R.matrix()[i, j] * p[j] for j in range(3)) + t.t[i] for i in range(3)])
    c.check(k.num_points() == sum(sizes), 'number of points')
    same_cols(c, k.points(), want, 'points in the world frame')
    c.check(k.colors().shape == (3, sum(sizes) if col else 0), 'number of colours')
    for i, x in enumerate([y for x in C for y in x.c]):
        for j in range(3):
            c.check(k.colors()[j, i] == x[j], 'colours in the order of the points')
    for x, y in zip(C, K):
        is_cloud(c, y, x.p, x.c, 'the clouds stay')


@REG.harness('any pose, a cloud of 2 points', MODS)
def moving(c, W):
    A = Cloud(c, 'a', 2, c.choice('coloured', [False, True]))
    T, a = pose_any(c, W, 'T')[0], A.make(W)
    R, t = T.R.matrix(), T.t
    f = a.transform_from(T)
    b = a.transform_to(T)
    for i in range(2):
        for k in range(3):
            c.eq(f.points()[k, i], sum(R[k, j] * A.p[i][j] for j in range(3)) + t[k], 'from b to a')
            c.eq(b.points()[k, i], sum(R[j, k] * (A.p[i][j] - t[j]) for j in range(3)), 'from a to b')
    for x in (f, b):
        c.check(x.num_points() == 2 and bool(x.colored()) == A.coloured, 'size and colours stay')
        for i, y in enumerate(A.c):
            for j in range(3):
                c.check(x.colors()[j, i] == y[j], 'colours stay')
    is_cloud(c, a, A.p, A.c, 'the cloud stays')


@REG.harness('2 points thinned to 0, 1 and 4 (random numbers are any)', MODS)
def thinning(c, W):
    A = Cloud(c, 'a', 2, c.choice('coloured', [False, True]))
    k = c.choice('keep', [0, 1, 4])
    a = A.make(W)
    with randoms(c, W, None):
        b = a.thin(k)
    c.check(b.num_points() == k and b.points().shape == (3, k), 'number kept')
    c.check(bool(b.colored()) == (A.coloured and k > 0), 'colours kept')
    P, Q = b.points(), b.colors()
    for i in range(k):
        c.check(any_(c, [all_(c, [P[j, i] == A.p[s][j] for j in range(3)] +
                              ([Q[j, i] == A.c[s][j] for j in range(3)] if A.coloured else [])) for s in range(2)]),
                'a point of the cloud with its colour')
    is_cloud(c, a, A.p, A.c, 'the cloud stays')


def number(c, text):
    return float(text) if c.concrete or '<' not in text else c.user['text'][int(text[1:-1])]


@REG.harness('2 points saved as text, default and given colour', MODS)
def text_file(c, W):
    A = Cloud(c, 'a', 2, c.choice('coloured', [False, True]))
    given = c.choice('given', [False, True])
    a = A.make(W)
    with scratch() as d:
        f = os.path.join(d, 'cloud.txt')
        if given:
            a.save(f, W.np.array([1, 2, 3]))
        else:
            a.save(f)
        rows = [l.split() for l in open(f).read().splitlines()]
    c.check(len(rows) == 2 and all(len(r) == 6 for r in rows), 'one row of six numbers per point')
    for r, p in zip(rows, A.p):
        for j in range(3):
            c.eq(number(c, r[j]), p[j], 'coordinates')
            c.check(float(r[3 + j]) == ([1, 2, 3][j] if given else 255), 'the given colour')


BIG = 1100     # more points than the usual chunk sizes


class Large(Cloud):
    """BIG points and colours, a few of them symbolic"""
    def __init__(self, c, name, coloured):
        self.p = [[(k * 7 + j * 5) % 64 / 4. + k for j in range(3)] for k in range(BIG)]
        self.c = [[(k * 3 + j) % 256 for j in range(3)] for k in range(BIG)] if coloured else []
        self.coloured = coloured
        few = [0, BIG // 2, BIG - 1]
        for k, p in zip(few, pts(c, name + 'p', len(few))):
            self.p[k] = p
        if coloured:
            for k, p in zip(few, colours(c, name + 'c', len(few))):
                self.c[k] = p


@REG.harness('a cloud of %d points, a few of them symbolic: stored, appended to itself and to a small one, registered, '
             'moved and saved' % BIG, MODS, timeout=600)
def large(c, W):
    A, B = Large(c, 'a', True), Cloud(c, 'b', 1, True)
    what = c.choice('what', ['join', 'itself', 'register', 'move', 'save'])
    a = A.make(W)

    def holds(k, p, col, label):
        c.check(k.num_points() == len(p), label + ': number of points')
        same_cols(c, k.points(), p, label + ': points')
        same_cols(c, k.colors(), col, label + ': colours')

    if what == 'join':
        holds(a, A.p, A.c, 'stored')
        b = B.make(W)
        holds(PC(W).merge(b, a), B.p + A.p, B.c + A.c, 'merged')
        b.append(a)
        holds(b, B.p + A.p, B.c + A.c, 'appended')
        holds(a, A.p, A.c, 'stays')
    elif what == 'itself':
        a.append(a)
        holds(a, A.p + A.p, A.c + A.c, 'appended to itself')
    elif what in ('register', 'move'):
        T = pose_any(c, W, 'T')[0]
        R, t = T.R.matrix(), T.t
        k = PC(W).register([(T, B.make(W)), (T, a)]) if what == 'register' else a.transform_from(T)
        P, C = (B.p + A.p, B.c + A.c) if what == 'register' else (A.p, A.c)
        holds(k, [[sum(R[i, j] * p[j] for j in range(3)) + t[i] for i in range(3)] for p in P], C, what)
    else:
        with scratch() as d:
            f = os.path.join(d, 'cloud.txt')
            a.save(f)
            rows = [l.split() for l in open(f).read().splitlines()]
        c.check(len(rows) == BIG and all(len(r) == 6 for r in rows), 'one row of six numbers per point')
        for r, p in zip(rows, A.p):
            for j in range(3):
                c.eq(number(c, r[j]), p[j], 'coordinates', 1e-9)
