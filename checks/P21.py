"""Surface sampling: points lie on the faces, uniformly, in documented number, with interpolated texture colours."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['ModelSampler.run', '_sample_mesh', 'sample_element', 'sample_mesh', 'Pose3.transform_all_from',
             'Voxelizer.run']
ASSUMPTIONS = ['random numbers are any reals in [0, 1)', 'meshes are any objects with the documented accessors']
MODS = ['sumo.threedee.model_sampler', 'sumo.metrics.mesh_evaluator', 'sumo.metrics.evaluator', 'sumo.geometry.pose3',
        'sumo.base.vector', 'sumo.threedee.voxelizer', 'sumo.threedee.voxel_grid', 'sumo.threedee.compute_bbox',
        'sumo.threedee.box_3d']
WHICH = ['model', 'element']


class FakeMesh(object):
    def __init__(self, W, verts, idx, uv=None, tex=None):
        self.W, self.v, self.i, self.uv, self.tex = W, verts, idx, uv, tex

    def num_indices(self):
        return len(self.i)

    def indices(self):
        return self.W.np.array(self.i, dtype='int64')

    def vertices(self):
        return self.W.np.array([[p[k] for p in self.v] for k in range(3)], dtype='float64')

    def is_textured(self):
        return self.tex is not None

    def base_color(self):
        return self.tex

    def uv_coords(self):
        return self.W.np.array([[p[k] for p in self.uv] for k in range(2)], dtype='float64')

    def transform(self, pose):
        v = pose.transform_all_from(self.vertices())
        return FakeMesh(self.W, [[v[k, j] for k in range(3)] for j in range(len(self.v))], self.i, self.uv, self.tex)


class FakeModel(object):
    def __init__(self, ms):
        self.ms = ms

    def primitive_meshes(self):
        return list(self.ms)


class Bare(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def pose(W, t=(0, 0, 0)):
    V = W.module('sumo.base.vector').Vector3
    return W.module('sumo.geometry.pose3').Pose3(t=V(*t))


def sample(W, which, meshes, density, t=(0, 0, 0)):
    m = FakeModel(meshes)
    if which == 'model':
        return W.module('sumo.threedee.model_sampler').ModelSampler(density).run(m)
    return W.module('sumo.metrics.mesh_evaluator').sample_element(Bare(meshes=m, pose=pose(W, t)), density)


def face(c, name, z, axes, lo=0.25, hi=4.0):
    """a right triangle in the plane where the third coordinate is z: (vertices, legs)"""
    i, j = axes
    k = 3 - i - j
    p = [0, 0, 0]
    p[i], p[j], p[k] = c.real(name + 'x', -4, 4), c.real(name + 'y', -4, 4), z
    a = c.real(name + 'a', lo, hi)
    q, r = list(p), list(p)
    q[i], r[j] = p[i] + a, p[j] + 1
    return [p, q, r], (i, j, k, a)


def weights(P, tri, legs):
    i, j, k, a = legs
    u = (P[i] - tri[0][i]) / a
    v = P[j] - tri[0][j]
    return [1 - u - v, u, v]


def on_plane(c, x, z):
    return abs(x - z) < 1e-6 if c.concrete else bool(x == z)


def inside(c, P, tri, legs, label='every sample lies on its face'):
    for w in weights(P, tri, legs):
        c.le(0, w, label)


def every(name, bounds, fn, **kw):
    for w in WHICH:
        REG.add(lambda c, W, w=w: fn(c, W, w), '%s_%s' % (name, w), bounds, MODS, **kw)


AX = [(0, 1), (1, 2), (2, 0), (1, 0)]


def one_face(c, W, which):
    ax = c.choice('axes', AX)
    tri, legs = face(c, 'f', 2.0, ax)
    with randoms(c, W, unit_interval(c)):
        out = sample(W, which, [FakeMesh(W, tri, [0, 1, 2])], 0.125)
    c.check(tuple(out.shape) == (1, 6), 'at least one sample per face, with position and colour')
    c.eq(out[0, legs[2]], 2.0, 'every sample lies in the plane of its face')
    inside(c, list(out[0]), tri, legs)
    for k in range(3, 6):
        c.eq(out[0, k], 128, 'faces without texture are grey')


every('one_face', 'one right triangle of any place and size along each pair of axes, any random numbers', one_face)


def counts(c, W, which):
    d = c.choice('density', [1.0, 2.0])
    t1, l1 = face(c, 'f', 1.0, (0, 1), 0.25, 3.75 if d == 1 else 2.75)
    t2, l2 = face(c, 'g', 3.0, (0, 1), 0.25, 5.75 if d == 1 else 2.75)
    two = c.bool('two_meshes')
    ms = [FakeMesh(W, t1, [0, 1, 2]), FakeMesh(W, t2, [0, 1, 2])] if two else [FakeMesh(W, t1 + t2, [0, 1, 2, 3, 4, 5])]
    if c.concrete:
        for l in (l1, l2):
            x = d * l[3] / 2
            if abs(x - round(x)) < 1e-6:
                raise NotApplicable()
    with randoms(c, W, lambda k, lo, hi: [0.25, 0.5, 0.5625, 0.125][k % 4]):
        out = sample(W, which, ms, d)
    n = [0, 0]
    for P in out:
        k = 0 if on_plane(c, P[2], 1.0) else 1
        if k:
            c.eq(P[2], 3.0, 'every sample lies in the plane of a face')
        n[k] += 1
        inside(c, list(P), (t1, t2)[k], (l1, l2)[k])
    for k, l in enumerate((l1, l2)):
        x = d * l[3] / 2
        c.check(any_(c, [all_(c, [x < 1, n[k] == 1]), all_(c, [x >= n[k], x < n[k] + 1])]),
                'as many samples as density times area, rounded down, but at least one')


every('counts', 'two right triangles of any place and size, in one mesh or two, densities 1 and 2', counts)


def uniform(c, W, which):
    tri, legs = face(c, 'f', 2.0, (0, 1))
    r = [c.real('r0', 0.0625, 1), c.real('r1', 0.0625, 0.9375)]

    def run(v):
        with randoms(c, W, lambda k, lo, hi: v[k]):
            o = sample(W, which, [FakeMesh(W, tri, [0, 1, 2])], 0.125)
        return [o[0, 0], o[0, 1]]
    c.assume(r[0] < 1)
    f = run(r)
    if c.concrete:
        h = 1e-6
        g = [[(a - b) / h for a, b in zip(run([r[0] + h * (i == 0), r[1] + h * (i == 1)]), f)] for i in (0, 1)]
        J = abs(g[0][0] * g[1][1] - g[0][1] * g[1][0])
        c.check(abs(J - legs[3] / 2) < 1e-3, 'random numbers spread evenly over the face')
        return
    from symex import core
    g = [[core.derivative(y, x) for y in f] for x in r]
    J = g[0][0] * g[1][1] - g[0][1] * g[1][0]
    c.eq(4 * J * J, legs[3] * legs[3], 'random numbers spread evenly over the face')


every('uniform', 'one right triangle, any random numbers away from the corners: the map from random numbers to the face '
      'preserves area', uniform, normal=True)


def texture(h, w):
    def run(c, W, which):
        tex = [[[c.int('t%d%d%s' % (i, j, k), 0, 255) if k == 'r' else 16 * i + 4 * j for k in 'rgb'] for j in range(w)]
               for i in range(h)]
        tri, legs = face(c, 'f', 2.0, (0, 1))
        # one vertex anywhere, in one direction at a time
        b = c.choice('vertex', [0, 1, 2])
        uv = [[0.125, 0.125], [0.875, 0.25], [0.25, 0.875]]
        s = c.choice('dir', [0, 1])
        uv[b][s] = c.real('uv', -1.5, 2.25)
        if c.concrete and any(abs(x * n - round(x * n)) < 1e-6 for p in uv for x, n in zip(p, (w, h))):
            raise NotApplicable()
        with randoms(c, W, lambda k, lo, hi: [0.25, 0.5][k]):
            out = sample(W, which, [FakeMesh(W, tri, [0, 1, 2], uv, W.np.array(tex, dtype='uint8').reshape(h, w, 3))], 0.125)
        c.check(tuple(out.shape) == (1, 6), 'position and colour')
        ws = weights(list(out[0]), tri, legs)

        def texel(p):
            """the colour at texture coordinates, u along the width and v along the height"""
            col = row = None
            for q in range(-6, 10):
                if q <= p[0] * w < q + 1:
                    col = q % w
                if q <= p[1] * h < q + 1:
                    row = q % h
            return tex[row][col]
        cs = [texel(p) for p in uv]
        for k in range(3):
            c.eq(out[0, 3 + k], sum(x * col[k] for x, col in zip(ws, cs)), 'colours are those of the texture at the '
                 'vertices, interpolated')
    return run


every('texture_1x2', 'one textured triangle, textures of 1 x 2 texels, any texture coordinates in [-1.5, 2.25]', texture(1, 2))
every('texture_3x2', 'one textured triangle, textures of 3 x 2 texels, any texture coordinates in [-1.5, 2.25]', texture(3, 2))


def mixed(c, W, which):
    """two meshes, either of them textured: colours go to the right mesh"""
    kinds = [c.choice('kind%d' % i, ['plain', 'texture', 'empty texture']) for i in range(2)]
    cols = [[c.int('c%d%s' % (i, k), 0, 255) for k in 'rgb'] for i in range(2)]
    ms, fs = [], []
    for i in range(2):
        tri, legs = face(c, 'fg'[i], 1.0 + i, (0, 1))
        fs.append((tri, legs))
        tex = None
        if kinds[i] == 'texture':
            tex = W.np.array(cols[i], dtype='uint8').reshape(1, 1, 3)
        elif kinds[i] == 'empty texture':
            tex = W.np.zeros((0, 0, 3), dtype='uint8')
        # shared vertices, reversed index order
        ms.append(FakeMesh(W, [[9, 9, 9]] + tri, [3, 1, 2], [[0.5, 0.5]] * 4, tex))
    with randoms(c, W, lambda k, lo, hi: [0.25, 0.5][k % 2]):
        out = sample(W, which, ms, 0.125)
    c.check(tuple(out.shape) == (2, 6), 'one sample per face')
    seen = [0, 0]
    for P in out:
        i = 0 if on_plane(c, P[2], 1.0) else 1
        seen[i] += 1
        inside(c, list(P), *fs[i])
        for k in range(3):
            c.eq(P[3 + k], cols[i][k] if kinds[i] == 'texture' else 128, 'the colour belongs to the mesh of the face')
    c.check(seen == [1, 1], 'one sample per face')


every('mixed', 'two meshes with any colours, each plain, textured or with an empty texture', mixed)


@REG.harness(bounds='one face, any translation', mods=MODS)
def room(c, W):
    tri, legs = face(c, 'f', 2.0, (0, 1))
    t = [c.real('t' + k, -8, 8) for k in 'xyz']
    with randoms(c, W, lambda k, lo, hi: [0.25, 0.5][k]):
        a = sample(W, 'element', [FakeMesh(W, tri, [0, 1, 2])], 0.125)
    with randoms(c, W, lambda k, lo, hi: [0.25, 0.5][k]):
        b = sample(W, 'element', [FakeMesh(W, tri, [0, 1, 2])], 0.125, t)
    for k in range(3):
        c.eq(b[0, k], a[0, k] + t[k], 'elements are sampled in room coordinates')


def nothing(c, W, which):
    ms = c.choice('meshes', [0, 1, 2])
    out = sample(W, which, [FakeMesh(W, [[0, 0, 0]], []) for _ in range(ms)], 1.0)
    c.check(tuple(out.shape) == (0, 6), 'nothing to sample gives no points')


every('nothing', 'models without meshes or faces', nothing)


@REG.harness(bounds='one right triangle of any place and size, voxel sizes 1/2 and 1', mods=MODS)
def voxelize(c, W):
    s = c.choice('size', [0.5, 1.0])
    tri, legs = face(c, 'f', 2.0, (0, 1), 0.25, 1.75)
    draws = [0.25, 0.5]
    with randoms(c, W, lambda k, lo, hi: draws[k]):
        pts = sample(W, 'model', [FakeMesh(W, tri, [0, 1, 2])], 0.5)
    with randoms(c, W, lambda k, lo, hi: draws[k]):
        g = W.module('sumo.threedee.voxelizer').Voxelizer(0.5, s).run(FakeModel([FakeMesh(W, tri, [0, 1, 2])]))
    c.eq(g.voxel_size, s, 'voxels have the requested size')
    ctr = g.voxel_centers()
    c.check(tuple(ctr.shape) == (1, 3), 'one voxel per sample')
    for k in range(3):
        c.check(within(c, pts[0, k], ctr[0, k], s), 'voxels contain the sampled points')
        c.eq(g.min_corner[k], pts[0, k], 'the grid starts at the smallest sampled coordinates')
