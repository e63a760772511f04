"""Meshes keep their geometry: construction, merging, replacing, clean-up, motion and normals."""
from symex.api import *

CPP = True
REG = Registry()
FUNCTIONS = ['Mesh.__init__', 'indices', 'vertices', 'normals', 'rotate', 'transform', 'merge', 'replace_geometry',
             'cleanup_long_edges', 'cleanup_edges_to_origin', 'calculate_face_normals', 'estimate_normals', 'example',
             'has_same_material', 'C++ sumo::Mesh (constructors, merge, replaceGeometry, CalculateFaceNormals, '
             'EstimateNormals, cleanupLongEdges, cleanupEdgesToOrigin, Example, triangle iterator)']
ASSUMPTIONS = ['coordinates are exact reals (single precision rounding is outside the claim)']
MODS = ['sumo.threedee.mesh', 'sumo.geometry.pose3', 'sumo.geometry.rot3']


def M(W):
    return W.module('sumo.threedee.mesh').Mesh


def f32(W, cols, k=3):
    return W.np.array(cols, dtype='float32').reshape(len(cols), k).T


def u32(W, xs):
    return W.np.array(xs, dtype='uint32').reshape(len(xs))


def pts(c, name, n, k=3, lo=-8, hi=8):
    return [[c.real('%s%d%s' % (name, i, 'xyz'[j]), lo, hi) for j in range(k)] for i in range(n)]


def ids(c, name, n, top):
    return [c.int('%s%d' % (name, i), 0, top) for i in range(n)]


class Data(object):
    def __init__(self, c, name, tris, nv):
        self.i = ids(c, name + 'i', 3 * tris, nv - 1)
        self.v = pts(c, name + 'v', nv)
        self.n = pts(c, name + 'n', nv, lo=-1, hi=1)


def make(W, d):
    return M(W)(u32(W, d.i), f32(W, d.v), f32(W, d.n))


def same_cols(c, a, rows, label):
    c.check(a.shape == (len(rows[0]) if rows else a.shape[0], len(rows)), label + ': shape')
    for i, r in enumerate(rows):
        for k, x in enumerate(r):
            c.eq(a[k, i], x, label)


def same_ids(c, a, xs, label):
    c.check(len(a) == len(xs), label + ': count')
    for p, q in zip(a, xs):
        c.check(p == q, label)


def is_mesh(c, m, d, label):
    same_ids(c, m.indices(), d.i, label + ' triangles')
    same_cols(c, m.vertices(), d.v, label + ' vertices')
    same_cols(c, m.normals(), d.n, label + ' normals')
    c.check(m.num_indices() == len(d.i) and m.num_vertices() == len(d.v), label + ' counts')


@REG.harness('2 triangles over 4 vertices; the arrays passed in are overwritten afterwards', MODS)
def stores_its_arrays(c, W):
    d = Data(c, 'a', 2, 4)
    i, v, n = u32(W, d.i), f32(W, d.v), f32(W, d.n)
    m = M(W)(i, v, n)
    is_mesh(c, m, d, 'constructed')
    i[0] = 0
    v[0, 0] = 77
    n[2, 1] = 77
    m.vertices()[1, 1] = 99
    m.normals()[1, 1] = 99
    m.indices()[1] = 0
    is_mesh(c, m, d, 'after the arrays changed')
    c.check(not m.is_textured(), 'a plain mesh is not textured')
    c.check(bool(m.has_same_material(make(W, d))), 'plain meshes have the same material')
    c.check(m.same_size(make(W, d)), 'equal meshes have the same size')


@REG.harness('the default mesh', MODS)
def empty_mesh(c, W):
    m = M(W)()
    c.check(m.num_indices() == 0 and m.num_vertices() == 0, 'empty')
    c.check(m.vertices().shape == (3, 0) and m.normals().shape == (3, 0) and len(m.indices()) == 0, 'empty arrays')
    d = Data(c, 'a', 1, 3)
    m.merge(make(W, d))
    is_mesh(c, m, d, 'merged into the empty mesh')
    e = make(W, d)
    e.merge(M(W)())
    is_mesh(c, e, d, 'merged with the empty mesh')


def merging(ta, na, tb, nb, k):
    def h(c, W):
        A, B = Data(c, 'a', ta, na), Data(c, 'b', tb, nb)
        a, b = make(W, A), make(W, B)
        if k:
            a.merge(b, k)
        else:
            a.merge(b)
        is_mesh(c, b, B, 'the second mesh stays')
        c.check(a.num_vertices() == na + nb - k, 'vertex count')
        c.check(a.num_indices() == 3 * (ta + tb), 'index count')
        same_cols(c, a.vertices(), A.v + B.v[k:], 'vertices')
        same_cols(c, a.normals(), A.n + B.n[k:], 'normals')
        ix = a.indices()
        same_ids(c, ix[:3 * ta], A.i, 'triangles of the first mesh')
        for p, q in zip(ix[3 * ta:], B.i):
            c.check(any_(c, [all_(c, [q < k, p == q]), all_(c, [not_(c, q < k), p == q + na - k])]),
                    'triangles of the second mesh')
    return h


for t in [(1, 3, 1, 3, 0), (1, 3, 2, 4, 0), (2, 4, 1, 3, 2), (1, 4, 1, 4, 1), (1, 5, 1, 3, 3), (1, 3, 1, 4, 3)]:
    REG.add(merging(*t), 'merge_%d_%d_%d_%d_%d' % t,
            '%d triangles over %d vertices merged with %d over %d, %d vertices in common' % t, MODS)
for t in [(2, 6, 2, 6, 4), (3, 5, 3, 5, 2)]:
    REG.add(merging(*t), 'merge_%d_%d_%d_%d_%d' % t,
            '%d triangles over %d vertices merged with %d over %d, %d vertices in common' % t, MODS, tier='thorough')


@REG.harness('three meshes of one triangle merged one after the other', MODS)
def merge_chain(c, W):
    D = [Data(c, n, 1, 3) for n in 'abd']
    a, b, d = [make(W, x) for x in D]
    a.merge(b)
    a.merge(d)
    same_cols(c, a.vertices(), D[0].v + D[1].v + D[2].v, 'vertices')
    same_ids(c, a.indices(), D[0].i + [x + 3 for x in D[1].i] + [x + 6 for x in D[2].i], 'triangles')


@REG.harness('a mesh of 2 triangles over 4 vertices replaced by one of 1 over 3, and the reverse', MODS)
def replacing(c, W):
    A, B = Data(c, 'a', 2, 4), Data(c, 'b', 1, 3)
    a, b = make(W, A), make(W, B)
    a.replace_geometry(b)
    is_mesh(c, a, B, 'replaced')
    is_mesh(c, b, B, 'source stays')
    b.replace_geometry(make(W, A))
    is_mesh(c, b, A, 'replaced again')
    is_mesh(c, a, B, 'no sharing')


@REG.harness('a mesh of 2 triangles over 4 vertices merged with itself (0 or 2 vertices in common), then replaced by '
             'itself', MODS)
def with_itself(c, W):
    A = Data(c, 'a', 2, 4)
    k = c.choice('common', [0, 2])
    a = make(W, A)
    a.replace_geometry(a)
    is_mesh(c, a, A, 'replaced by itself')
    a.merge(a, k)
    same_cols(c, a.vertices(), A.v + A.v[k:], 'vertices')
    same_cols(c, a.normals(), A.n + A.n[k:], 'normals')
    ix = a.indices()
    c.check(len(ix) == 12, 'index count')
    same_ids(c, ix[:6], A.i, 'first copy')
    for p, q in zip(ix[6:], A.i):
        c.check(any_(c, [all_(c, [q < k, p == q]), all_(c, [not_(c, q < k), p == q + 4 - k])]), 'second copy')


# -- clean-up --------------------------------------------------------------------------

def d2(p, q):
    return sum((a - b) * (a - b) for a, b in zip(p, q))


def tri(d, i):
    return [d.v[d.i[3 * i + k]] for k in range(3)]


class Fixed(object):
    pass


def flat(c, tris, nv, name='v'):
    """vertices along a line, so that edge lengths are differences"""
    d = Fixed()
    d.i = [x for t in tris for x in t]
    d.v = [[c.real('%s%d' % (name, i), -8, 8), 0.5, -1.0] for i in range(nv)]
    d.n = [[0.0, 0.0, 1.0] for _ in range(nv)]
    return d


def dist(p, q):
    x = p[0] - q[0]
    return abs(x)


@REG.harness('2 triangles over 4 vertices on a line, any threshold', MODS, timeout=600)
def long_edges(c, W):
    d = flat(c, [(0, 1, 2), (1, 3, 2)], 4)
    t = c.real('t', 0, 8)
    m = make(W, d)
    m.cleanup_long_edges(t)
    want = []
    for i in range(2):
        p = tri(d, i)
        es = [dist(p[0], p[1]), dist(p[1], p[2]), dist(p[2], p[0])]
        if c.concrete and any(abs(e - t) < EPS for e in es):
            raise NotApplicable()
        if es[0] <= t and es[1] <= t and es[2] <= t:
            want += d.i[3 * i:3 * i + 3]
    same_ids(c, m.indices(), want, 'triangles kept')
    same_cols(c, m.vertices(), d.v, 'vertices stay')
    same_cols(c, m.normals(), d.n, 'normals stay')


@REG.harness('one triangle anywhere in space, any threshold', MODS, timeout=600, witness_optional=True)
def long_edges_3d(c, W):
    d = Fixed()
    d.i, d.v, d.n = [0, 1, 2], pts(c, 'v', 3), [[0.0, 0.0, 1.0]] * 3
    t = c.real('t', 0, 8)
    m = make(W, d)
    m.cleanup_long_edges(t)
    es = [d2(d.v[0], d.v[1]), d2(d.v[1], d.v[2]), d2(d.v[2], d.v[0])]
    if c.concrete and any(abs(e - t * t) < EPS for e in es):
        raise NotApplicable()
    keep = all_(c, [e <= t * t for e in es])
    n = m.num_indices()
    c.check(n in (0, 3), 'whole triangles')
    if n:
        c.check(keep, 'a kept triangle has no edge longer than the threshold')
        same_ids(c, m.indices(), d.i, 'kept triangle')
    else:
        c.check(not_(c, keep), 'a triangle is dropped only for a long edge')


@REG.harness('3 triangles over 5 vertices; any set of the vertices at the origin, the others off it by 0.5 or more',
             MODS, timeout=600)
def origin_edges(c, W):
    d = Fixed()
    d.i = [0, 1, 2, 2, 1, 3, 4, 3, 0]
    d.v, zero = [], []
    for i in range(5):
        z = c.choice('at%d' % i, ['origin', 'x', 'y', 'z'] if i == 2 else ['origin', 'x'])
        v = [c.real('v%d%s' % (i, k), 0.5, 8) if k == z else 0.0 for k in 'xyz']
        zero.append(z == 'origin')
        d.v.append(v)
    d.n = [[0.0, 1.0, 0.0]] * 5
    m = make(W, d)
    m.cleanup_edges_to_origin()
    want = []
    for i in range(3):
        t = d.i[3 * i:3 * i + 3]
        if not any(zero[k] for k in t):
            want += t
    same_ids(c, m.indices(), want, 'triangles kept')
    same_cols(c, m.vertices(), d.v, 'vertices stay')


# -- motion ----------------------------------------------------------------------------

def moved(what):
    def h(c, W):
        d = Data(c, 'a', 1, 3)
        R, q = quat_rotation(c, W, 'q')
        t = [c.real('t%s' % k, -4, 4) for k in 'xyz']
        m = make(W, d)
        r3 = W.module('sumo.geometry.rot3').Rot3
        if what == 'rotate':
            out = m.rotate(r3(R))
            t = [0, 0, 0]
        else:
            out = m.transform(W.module('sumo.geometry.pose3').Pose3(r3(R), W.np.array(t, dtype='float64')))
        same_ids(c, out.indices(), d.i, 'triangles stay')
        v, n = out.vertices(), out.normals()
        c.check(v.shape == (3, 3) and n.shape == (3, 3), 'shape')
        for i in range(3):
            for k in range(3):
                c.eq(v[k, i], sum(R[k, j] * d.v[i][j] for j in range(3)) + t[k], 'vertex moved', tol=1e-4)
                c.eq(n[k, i], sum(R[k, j] * d.n[i][j] for j in range(3)), 'normal turned', tol=1e-4)
        is_mesh(c, m, d, 'the mesh itself stays')
    return h


for w in ('rotate', 'transform'):
    REG.add(moved(w), w + '_mesh', 'one triangle, any rotation (and translation)', MODS, normal=True)


# -- normals ---------------------------------------------------------------------------

def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@REG.harness('one triangle with a vertex at any place, edges (a,b,0) and (0,e,f), in either order', MODS, normal=True,
             timeout=600)
def face_normal(c, W):
    a, b, e, f = [c.real(n, -4, 4) for n in 'abef']
    o = [c.real('o' + n, -4, 4) for n in 'xyz']
    v = [o, [o[0] + a, o[1] + b, o[2]], [o[0], o[1] + e, o[2] + f]]
    k = cross([a, b, 0], [0, e, f])
    c.assume(dot(k, k) >= 0.01)
    flip = c.choice('flip', [0, 1])
    n = M(W).calculate_face_normals(u32(W, [0, 2, 1] if flip else [0, 1, 2]), f32(W, v))
    c.check(n.shape == (3, 1), 'one normal per face')
    n = [n[i, 0] for i in range(3)]
    if flip:
        k = [-x for x in k]
    c.eq(dot(n, n), 1, 'unit length', tol=1e-4)
    x = cross(n, k)
    for y in x:
        c.eq(y, 0, 'normal to the face', tol=1e-3)
    c.check(dot(n, k) > 0, 'on the side the face is counter-clockwise from')


@REG.harness('a vertex shared by an xy-face and an xz-face of any shape, another in one face and one in none',
             MODS, timeout=600, normal=True)
def vertex_normals(c, W):
    a, b = [c.real(n, 0.25, 4) for n in 'ab']
    s = c.choice('s', [1, -1])
    v = [[0.0, 0.0, 0.0], [a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, b * s], [1.0, 1.0, 1.0]]
    n = M(W).estimate_normals(u32(W, [0, 1, 2, 0, 3, 1]), f32(W, v))
    c.check(n.shape == (3, 5), 'one normal per vertex')
    r = 0.5 ** 0.5
    want = [[0, r * s, r], [0, r * s, r], [0, 0, 1], [0, s, 0], [0, 0, 0]]
    for i in range(5):
        for k in range(3):
            c.eq(n[k, i], want[i][k], 'normal of vertex %d' % i, tol=1e-4)


@REG.harness('the example cube of any size, inward and outward', MODS, normal=True)
def example_cube(c, W):
    s = c.real('s', 0.125, 8)
    inward = c.choice('inward', [False, True])
    m = M(W).example(s, inward)
    v, n, ix = m.vertices(), m.normals(), [int(i) for i in m.indices()]
    c.check(v.shape[1] == 8 and len(ix) == 36, 'size')
    for k in range(3):
        for i in range(8):
            c.check(any_(c, [close(c, v[k, i], s / 2, 1e-4), close(c, v[k, i], -s / 2, 1e-4)]), 'corners of the cube')
    edges = {}
    vol = 0
    for t in range(12):
        p = ix[3 * t:3 * t + 3]
        for i in range(3):
            e = (p[i], p[(i + 1) % 3])
            c.check(e not in edges, 'faces turn the same way')
            edges[e] = t
        P = [[v[k, j] for k in range(3)] for j in p]
        vol = vol + dot(P[0], cross(P[1], P[2]))
    c.check(all((b, a) in edges for a, b in edges), 'closed surface')
    c.eq(vol, (-6 if inward else 6) * s * s * s, 'faces look out of (into) the cube', tol=1e-3)
    for i in range(8):
        d = dot([v[k, i] for k in range(3)], [n[k, i] for k in range(3)])
        c.check(d < 0 if inward else d > 0, 'normals look out of (into) the cube')
        c.eq(dot(n[:, i], n[:, i]), 1, 'unit normals', tol=1e-4)


def inward_cube(c, m, label=''):
    """24 vertices, 12 triangles: the six faces of the cube [-1,1]^3 seen from inside, each with its own 4 corners"""
    v, n, ix = m.vertices(), m.normals(), [int(i) for i in m.indices()]
    c.check(v.shape[1] == 24 and n.shape[1] == 24 and len(ix) == 36, label + 'size')
    used = [0] * 24
    total = 0
    for t in range(12):
        p = ix[3 * t:3 * t + 3]
        c.check(all(0 <= i < 24 for i in p), label + 'indices in range')
        P = [[v[k, j] for k in range(3)] for j in p]
        f = cross(sub(P[1], P[0]), sub(P[2], P[0]))
        for i in p:
            used[i] += 1
            for k in range(3):
                c.eq(f[k], 4 * n[k, i], label + 'vertex normals are the face normals', tol=1e-4)
        c.check(dot(P[0], f) < 0, label + 'faces look into the cube')
        total = total + dot(P[0], f)
        for i in p:
            for k in range(3):
                c.eq(v[k, i] * v[k, i], 1, label + 'corners of the cube', tol=1e-5)
    c.check(all(u in (1, 2) for u in used), label + 'all vertices used')
    c.eq(total, -48, label + 'closed cube', tol=1e-3)


@REG.harness('the inward cube (no input)', MODS)
def cube(c, W):
    inward_cube(c, M(W).cube())


BIG = 1100     # more vertices than the usual chunk sizes


class Large(Data):
    """A strip of BIG vertices, with a few symbolic coordinates, and BIG triangles, of which a few are symbolic."""
    def __init__(self, c, name):
        self.v = [[(k * 7 + j * 3) % 64 / 4. + k for j in range(3)] for k in range(BIG)]
        self.n = [[k % 2 * 1., 0., 1.] for k in range(BIG)]
        self.i = [(t // 3 + t % 3 * 5) % BIG for t in range(3 * BIG)]
        for k in (0, BIG - 2):
            self.v[k] = [c.real('%sv%d%s' % (name, k, x), -8, 8) for x in 'xyz']
        for t in (0, 3 * BIG - 1):
            self.i[t] = c.int('%si%d' % (name, t), 0, BIG - 1)


@REG.harness('%d triangles over %d vertices, a few of them symbolic, merged with as many, any or all but one vertices in '
             'common, then cleaned up' % (BIG, BIG), MODS, timeout=600)
def large(c, W):
    a, b = Data(c, 'a', 1, 3), Large(c, 'b')
    k = c.choice('common', [0, 1])
    first, second = (a, b) if c.choice('larger', ['second', 'first']) == 'second' else (b, a)
    m, o = make(W, first), make(W, second)
    is_mesh(c, m, first, 'new')
    m.merge(o, k)
    same_cols(c, m.vertices(), first.v + second.v[k:], 'merged vertices')
    same_cols(c, m.normals(), first.n + second.n[k:], 'merged normals')
    ix = m.indices()
    same_ids(c, ix[:len(first.i)], first.i, 'triangles of the first mesh')
    c.check(len(ix) == len(first.i) + len(second.i), 'number of triangles')
    for p, q in zip(ix[len(first.i):], second.i):
        c.check(any_(c, [all_(c, [q < k, p == q]), all_(c, [not_(c, q < k), p == q + len(first.v) - k])]),
                'triangles of the second mesh')
    is_mesh(c, o, second, 'merged keeps the other')
