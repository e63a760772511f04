"""Bounding boxes of point sets, meshes and models contain everything and are tight."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['ComputeBbox.from_point_cloud', 'from_mesh', 'from_meshes', 'from_gltf_object', 'Box3d.merge']
ASSUMPTIONS = ['meshes and models are any objects with the documented accessors']
MODS = ['sumo.threedee.compute_bbox', 'sumo.threedee.box_3d']


class FakeMesh(object):
    def __init__(self, v):
        self.v = v

    def vertices(self):
        return self.v


class FakeModel(object):
    def __init__(self, ms):
        self.ms = ms

    def primitive_meshes(self):
        return list(self.ms)


def cloud(c, W, name, n, dtype='float64'):
    """3 x n, and the points"""
    ps = [[c.real('%s%d%s' % (name, i, k), -100, 100) for k in 'xyz'] for i in range(n)]
    return W.np.array([[p[k] for p in ps] for k in range(3)], dtype=dtype), ps


def tight(c, b, ps):
    c.check(len(b.min_corner) == 3 and len(b.max_corner) == 3, 'corners have three coordinates')
    for k in range(3):
        for p in ps:
            c.le(b.min_corner[k], p[k], 'every point is inside the box')
            c.le(p[k], b.max_corner[k], 'every point is inside the box')
        c.check(any_(c, [close(c, p[k], b.min_corner[k]) for p in ps]), 'every side of the box touches a point')
        c.check(any_(c, [close(c, p[k], b.max_corner[k]) for p in ps]), 'every side of the box touches a point')


def points(n):
    def h(c, W):
        a, ps = cloud(c, W, 'p', n, c.choice('dtype', ['float64', 'float32']))
        alg = W.module('sumo.threedee.compute_bbox').ComputeBbox()
        tight(c, alg.from_point_cloud(a), ps)
        tight(c, alg.from_mesh(FakeMesh(a)), ps)
    return h


for n, t in [(1, 'quick'), (2, 'quick'), (3, 'quick'), (4, 'quick'), (6, 'thorough')]:
    REG.add(points(n), 'points_%d' % n, '%d points with any coordinates' % n, MODS, t)


@REG.harness(bounds='no points', mods=MODS)
def empty(c, W):
    alg = W.module('sumo.threedee.compute_bbox').ComputeBbox()
    z = W.np.zeros((3, 0))
    for b in (alg.from_point_cloud(z), alg.from_meshes([]), alg.from_meshes([FakeMesh(z)]), alg.from_gltf_object(FakeModel([]))):
        for k in range(3):
            c.eq(b.min_corner[k], 0, 'nothing has an empty box at the origin')
            c.eq(b.max_corner[k], 0, 'nothing has an empty box at the origin')


def union(sizes):
    def h(c, W):
        cs = [cloud(c, W, 'm%d_' % i, n, 'float32') for i, n in enumerate(sizes)]
        ms = [FakeMesh(a) for a, ps in cs]
        ps = [p for a, qs in cs for p in qs]
        alg = W.module('sumo.threedee.compute_bbox').ComputeBbox()
        tight(c, alg.from_meshes(ms), ps)
        tight(c, alg.from_gltf_object(FakeModel(ms)), ps)
    return h


for sizes in [(1, 1), (2, 1), (1, 2, 1), (3, 2), (0, 2), (1, 0, 1)]:
    REG.add(union(sizes), 'meshes_' + '_'.join(map(str, sizes)), 'meshes of %s vertices with any coordinates'
            % ' and '.join(map(str, sizes)), MODS)


@REG.harness(bounds='1100 points, of which three (the first, the last and one in the middle) are anywhere', mods=MODS)
def many_points(c, W):
    n, few = 1100, (0, 550, 1099)
    ps = [[(k * 7 + j * 5) % 64 / 4. for j in range(3)] for k in range(n)]
    for k in few:
        ps[k] = [c.real('p%d%s' % (k, x), -100, 100) for x in 'xyz']
    alg = W.module('sumo.threedee.compute_bbox').ComputeBbox()
    b = alg.from_mesh(FakeMesh(W.np.array([[p[j] for p in ps] for j in range(3)], dtype='float32')))
    for j in range(3):
        fixed = [p[j] for k, p in enumerate(ps) if k not in few]
        lo, hi = min(fixed), max(fixed)
        for x in [lo, hi] + [ps[k][j] for k in few]:
            c.le(b.min_corner[j], x, 'every point is inside the box')
            c.le(x, b.max_corner[j], 'every point is inside the box')
        c.check(any_(c, [close(c, x, b.min_corner[j]) for x in [lo] + [ps[k][j] for k in few]]), 'touches')
        c.check(any_(c, [close(c, x, b.max_corner[j]) for x in [hi] + [ps[k][j] for k in few]]), 'touches')
