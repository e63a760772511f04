"""Textured meshes keep texture coordinates and textures aligned with their geometry."""
from symex.api import *
from checks.P01 import pose_any
from checks.P24 import Data, f32, u32, same_cols, same_ids, pts, inward_cube, MODS as MESHMODS, Large, BIG

CPP = True
REG = Registry()
FUNCTIONS = ['TexturedMesh.__init__', 'uv_coords', 'base_color', 'metallic_roughness', 'from_mesh', 'cube', 'example',
             'rotate', 'transform', 'renumber', 'merge', 'replace_geometry', 'has_dual_texture_material',
             'merge_quadrant_meshes', 'C++ sumo::TexturedMesh (constructor, renumber, merge, replaceGeometry, '
             'hasDualTextureMaterial)', 'C++ sumo::Mesh', 'array_from_mat3b', 'mat3b_from_array']
ASSUMPTIONS = ['coordinates are exact reals (single precision rounding is outside the claim)',
               'one texture coordinate per vertex']
MODS = ['sumo.threedee.textured_mesh'] + MESHMODS


def T(W):
    return W.module('sumo.threedee.textured_mesh').TexturedMesh


class TData(Data):
    def __init__(self, c, name, tris, nv, base=(2, 1), rough=(1, 2)):
        Data.__init__(self, c, name, tris, nv)
        self.u = pts(c, name + 'u', nv, 2, 0, 1)
        self.base = image(c, name + 'b', *base)
        self.rough = image(c, name + 'r', *rough)


def image(c, name, h, w):
    return [[[c.int('%s%d_%d%s' % (name, i, j, k), 0, 255) for k in 'rgb'] for j in range(w)] for i in range(h)]


def u8(W, im):
    return W.np.array(im, dtype='uint8').reshape(len(im), len(im[0]), 3)


def make(W, d):
    return T(W)(u32(W, d.i), f32(W, d.v), f32(W, d.n), f32(W, d.u, 2), u8(W, d.base), u8(W, d.rough))


def same_image(c, a, im, label):
    c.check(a.shape == (len(im), len(im[0]), 3), label + ': size')
    for i, row in enumerate(im):
        for j, p in enumerate(row):
            for k in range(3):
                c.check(a[i, j, k] == p[k], label)


def geometry(c, m, d, label):
    same_ids(c, m.indices(), d.i, label + ' triangles')
    same_cols(c, m.vertices(), d.v, label + ' vertices')
    same_cols(c, m.normals(), d.n, label + ' normals')
    same_cols(c, m.uv_coords(), d.u, label + ' texture coordinates')


def is_mesh(c, m, d, label):
    geometry(c, m, d, label)
    same_image(c, m.base_color(), d.base, label + ' base colour')
    same_image(c, m.metallic_roughness(), d.rough, label + ' roughness')


@REG.harness('2 triangles over 4 vertices, textures of 2x1 and 1x2 pixels; all arrays are overwritten afterwards', MODS)
def stores_its_arrays(c, W):
    d = TData(c, 'a', 2, 4)
    A = [u32(W, d.i), f32(W, d.v), f32(W, d.n), f32(W, d.u, 2), u8(W, d.base), u8(W, d.rough)]
    m = T(W)(*A)
    is_mesh(c, m, d, 'constructed')
    for a in A:
        a[(0,) * a.ndim] = 7
    for a in (m.vertices(), m.normals(), m.uv_coords(), m.base_color(), m.metallic_roughness()):
        a[(1,) + (0,) * (a.ndim - 1) if a.shape[0] > 1 else (0,) * a.ndim] = 9
    is_mesh(c, m, d, 'after the arrays changed')
    c.check(bool(m.is_textured()) and bool(m.has_dual_texture_material()), 'textured, with both textures')
    c.check(m.num_vertices() == 4 and m.num_indices() == 6, 'counts')
    c.check(bool(m.has_same_material(make(W, d))), 'same material')


@REG.harness('arrays of lengths that do not fit', MODS)
def bad_shapes(c, W):
    np = W.np
    i, f = np.zeros((3,), dtype='uint32'), lambda k, n: np.zeros((k, n), dtype='float32')
    im = np.zeros((2, 2, 3), dtype='uint8')
    for a in [(i, f(3, 3), f(3, 2), f(2, 3), im, im), (i, f(3, 3), f(3, 3), f(2, 4), im, im)]:
        c.check(outcome(T(W), *a)[0] == 'AssertionError', 'assertion for lengths that do not fit')


def merging(ta, na, tb, nb, k):
    def h(c, W):
        A, B = TData(c, 'a', ta, na), TData(c, 'b', tb, nb, (1, 1), (2, 2))
        a, b = make(W, A), make(W, B)
        if k:
            a.merge(b, k)
        else:
            a.merge(b)
        is_mesh(c, b, B, 'the second mesh stays')
        same_cols(c, a.vertices(), A.v + B.v[k:], 'vertices')
        same_cols(c, a.normals(), A.n + B.n[k:], 'normals')
        same_cols(c, a.uv_coords(), A.u + B.u[k:], 'texture coordinates')
        same_image(c, a.base_color(), A.base, 'base colour of the first')
        same_image(c, a.metallic_roughness(), A.rough, 'roughness of the first')
        ix = a.indices()
        c.check(len(ix) == 3 * (ta + tb), 'index count')
        same_ids(c, ix[:3 * ta], A.i, 'triangles of the first')
        for p, q in zip(ix[3 * ta:], B.i):
            c.check(any_(c, [all_(c, [q < k, p == q]), all_(c, [not_(c, q < k), p == q + na - k])]),
                    'triangles of the second')
    return h


for t in [(1, 3, 1, 3, 0), (1, 3, 2, 4, 0), (1, 4, 1, 4, 2), (1, 3, 1, 3, 3)]:
    REG.add(merging(*t), 'merge_%d_%d_%d_%d_%d' % t,
            '%d triangles over %d vertices merged with %d over %d, %d vertices in common' % t, MODS)


@REG.harness('a mesh of 1 triangle over 4 vertices merged with itself (0 or 2 vertices in common), then replaced by '
             'itself; replaced by another mesh and the reverse', MODS)
def with_itself(c, W):
    A, B = TData(c, 'a', 1, 4), TData(c, 'b', 2, 3, (1, 1), (2, 2))
    k = c.choice('common', [0, 2])
    a, b = make(W, A), make(W, B)
    a.replace_geometry(a)
    is_mesh(c, a, A, 'replaced by itself')
    a.merge(a, k)
    same_cols(c, a.vertices(), A.v + A.v[k:], 'vertices')
    same_cols(c, a.normals(), A.n + A.n[k:], 'normals')
    same_cols(c, a.uv_coords(), A.u + A.u[k:], 'texture coordinates')
    ix = a.indices()
    c.check(len(ix) == 6, 'index count')
    same_ids(c, ix[:3], A.i, 'first copy')
    for p, q in zip(ix[3:], A.i):
        c.check(any_(c, [all_(c, [q < k, p == q]), all_(c, [not_(c, q < k), p == q + 4 - k])]), 'second copy')
    a.replace_geometry(b)
    geometry(c, a, B, 'replaced')
    same_image(c, a.base_color(), A.base, 'base colour stays')
    same_image(c, a.metallic_roughness(), A.rough, 'roughness stays')
    is_mesh(c, b, B, 'source stays')
    b.replace_geometry(make(W, A))
    geometry(c, b, A, 'replaced again')
    geometry(c, a, B, 'no sharing')


# -- renumbering -----------------------------------------------------------------------

def renumbering(nv, new, lists, tris=1):
    """lists: the new numbers of the first vertices"""
    def h(c, W):
        D = TData(c, 'a', tris, nv, (1, 1), (1, 1))
        a = make(W, D)
        r = c.choice('numbers', lists)
        k = len(r)
        a.renumber(new, list(r))
        n = new + nv - k
        V, N, U = a.vertices(), a.normals(), a.uv_coords()
        c.check(V.shape == (3, n) and N.shape == (3, n) and U.shape == (2, n), 'number of vertices')
        place = [r[j] if j < k else new + j - k for j in range(nv)]
        for j in range(nv):
            for x in range(3):
                c.eq(V[x, place[j]], D.v[j][x], 'vertex at its new number')
                c.eq(N[x, place[j]], D.n[j][x], 'normal at its new number')
            for x in range(2):
                c.eq(U[x, place[j]], D.u[j][x], 'texture coordinate at its new number')
        ix = a.indices()
        c.check(len(ix) == 3 * tris, 'triangles stay')
        for p, q in zip(ix, D.i):
            # known finding: with 0 < k < nv the later vertices get numbers that are k too large
            c.check(any_(c, [all_(c, [q == j, p == place[j]]) for j in range(nv) if j < k or k == 0] +
                         ([not_(c, q < k)] if 0 < k < nv else [])), 'triangles refer to the same points')
        same_image(c, a.base_color(), D.base, 'base colour stays')
    return h


import itertools
REG.add(renumbering(3, 3, list(itertools.permutations(range(3)))), 'renumber_all_3',
        'every permutation of 3 vertices', MODS)
REG.add(renumbering(4, 4, [(2, 0, 3, 1), (0, 2, 1, 3), (3, 0, 2, 1), (0, 3, 1, 2), (3, 2, 1, 0), (1, 2, 3, 0)]),
        'renumber_all_4', 'permutations of 4 vertices', MODS)
REG.add(renumbering(4, 4, list(itertools.permutations(range(4)))), 'renumber_every_4',
        'every permutation of 4 vertices', MODS, tier='thorough')
REG.add(renumbering(3, 5, [(4, 0, 2), (0, 1, 2), (1, 3, 4)]), 'renumber_gaps',
        '3 vertices into a block of 5', MODS)
REG.add(renumbering(3, 2, [()]), 'renumber_insert', '2 new vertices in front of 3', MODS)
REG.add(renumbering(4, 3, [(2, 0), (1,), (0, 2, 1)]), 'renumber_partial',
        'the first 1 to 3 of 4 vertices into a block of 3 (triangles of the later vertices: known finding)', MODS)


@REG.harness('four quads around a common corner, with any coordinates and any of four triangles each', MODS)
def quadrants(c, W):
    P = [pts(c, 'v', 9), pts(c, 'n', 9), pts(c, 'u', 9, 2)]
    names = [[0, 5, 4, 6], [5, 1, 6, 8], [4, 6, 2, 7], [6, 8, 7, 3]]
    tris = [[0, 1, 2], [1, 3, 2], [3, 0, 1], [2, 0, 3]]
    t = c.choice('triangle', tris)
    im = W.np.zeros((1, 1, 3), dtype='uint8')
    ms = []
    local = []
    for q, ns in enumerate(names):
        loc = [t[(q + j) % 3] for j in range(3)] + [1, 3, 2]
        local.append(loc)
        ms.append(T(W)(u32(W, loc), f32(W, [P[0][k] for k in ns]), f32(W, [P[1][k] for k in ns]),
                       f32(W, [P[2][k] for k in ns], 2), im, im))
    r = T(W).merge_quadrant_meshes(*ms)
    same_cols(c, r.vertices(), P[0], 'the nine vertices in their order')
    same_cols(c, r.normals(), P[1], 'normals in the order of the vertices')
    same_cols(c, r.uv_coords(), P[2], 'texture coordinates in the order of the vertices')
    same_ids(c, r.indices(), [names[q][i] for q in range(4) for i in local[q]], 'triangles refer to the same points')


# -- derived meshes --------------------------------------------------------------------

@REG.harness('a mesh of 1 triangle over 3 vertices, any pose', MODS)
def moving(c, W):
    D = TData(c, 'a', 1, 3)
    m = make(W, D)
    p = pose_any(c, W, 'T')[0]
    R, t = p.R.matrix(), p.t
    a, b = m.transform(p), m.rotate(p.R)
    for i in range(3):
        for k in range(3):
            v = sum(R[k, j] * D.v[i][j] for j in range(3))
            n = sum(R[k, j] * D.n[i][j] for j in range(3))
            c.eq(a.vertices()[k, i], v + t[k], 'transformed vertices')
            c.eq(b.vertices()[k, i], v, 'rotated vertices')
            c.eq(a.normals()[k, i], n, 'normals turn with the mesh')
            c.eq(b.normals()[k, i], n, 'normals turn with the mesh')
    for x in (a, b):
        same_ids(c, x.indices(), D.i, 'triangles stay')
        same_cols(c, x.uv_coords(), D.u, 'texture coordinates stay')
        same_image(c, x.base_color(), D.base, 'base colour stays')
        same_image(c, x.metallic_roughness(), D.rough, 'roughness stays')
        c.check(bool(x.is_textured()), 'stays textured')
    is_mesh(c, m, D, 'the mesh stays')


@REG.harness('a plain mesh of 1 triangle over 3 vertices and any colour', MODS)
def from_plain(c, W):
    D = Data(c, 'a', 1, 3)
    m = W.module('sumo.threedee.mesh').Mesh(u32(W, D.i), f32(W, D.v), f32(W, D.n))
    col = [c.int('c%d' % k, 0, 255) for k in range(3)]
    given = c.choice('given', [False, True])
    t = T(W).from_mesh(m, W.np.array(col, dtype='uint8').reshape(3, 1)) if given else T(W).from_mesh(m)
    same_ids(c, t.indices(), D.i, 'triangles')
    same_cols(c, t.vertices(), D.v, 'vertices')
    same_cols(c, t.normals(), D.n, 'normals')
    same_cols(c, t.uv_coords(), [[0, 0]] * 3, 'texture coordinates are zero')
    im = t.base_color()
    c.check(im.shape[0] > 0 and im.shape[1] > 0 and im.shape[2] == 3, 'a texture')
    for i in range(im.shape[0]):
        for j in range(im.shape[1]):
            for k in range(3):
                c.check(im[i, j, k] == (col[k] if given else 255), 'uniform texture in the given colour')


@REG.harness('cube textures of 1 and 2 pixels a side with any colours', MODS)
def cube(c, W):
    s = c.choice('side', [1, 2])
    base, rough = image(c, 'b', s, 6 * s), image(c, 'r', s, 6 * s)
    m = T(W).cube(u8(W, base), u8(W, rough))
    inward_cube(c, m)
    same_image(c, m.base_color(), base, 'base colour')
    same_image(c, m.metallic_roughness(), rough, 'roughness')
    # the texture is a strip of BACK, LEFT, FRONT, RIGHT, UP, DOWN seen from the centre: on each face u grows to the
    # viewer's right and v downwards; in this frame x is right, y up and z back
    faces = [((0, 0, 1), (-1, 0, 0), (0, -1, 0)), ((-1, 0, 0), (0, 0, -1), (0, -1, 0)),
             ((0, 0, -1), (1, 0, 0), (0, -1, 0)), ((1, 0, 0), (0, 0, 1), (0, -1, 0)),
             ((0, 1, 0), (1, 0, 0), (0, 0, -1)), ((0, -1, 0), (1, 0, 0), (0, 0, 1))]
    V, U = m.vertices(), m.uv_coords()
    c.check(U.shape == (2, 24), 'a texture coordinate for each vertex')
    for i in range(24):
        v = [V[k, i] for k in range(3)]
        f = i // 4
        ax, right, down = faces[f]
        c.eq(sum(a * b for a, b in zip(ax, v)), 1, 'vertex on its face', tol=1e-5)
        r = (sum(a * b for a, b in zip(right, v)) + 1) / 2
        d = (sum(a * b for a, b in zip(down, v)) + 1) / 2
        c.eq(U[0, i], (f + r) / 6, 'u runs to the right within the face', tol=1e-5)
        c.eq(U[1, i], d, 'v runs downwards', tol=1e-5)


@REG.harness('cube textures that are not six squares', MODS)
def bad_cube(c, W):
    for h, w in [(1, 5), (2, 6), (3, 12)]:
        im = W.np.zeros((h, w, 3), dtype='uint8')
        c.check(outcome(T(W).cube, im, im)[0] == 'AssertionError', 'texture must be six squares')


@REG.harness('the example mesh (no input)', MODS)
def example(c, W):
    m = T(W).example()
    inward_cube(c, m)
    im = m.base_color()
    c.check(im.shape[1] == 6 * im.shape[0] and im.shape[2] == 3, 'six squares')
    c.check(bool(m.has_dual_texture_material()), 'both textures')


@REG.harness('a mesh of %d vertices (a few symbolic) and a texture of 1 x 300 pixels merged with and into a small one, and '
             'renumbered' % BIG, MODS, timeout=600)
def large(c, W):
    A, B = TData(c, 'a', 1, 3), TData.__new__(TData)
    L = Large(c, 'b')
    B.i, B.v, B.n = L.i, L.v, L.n
    B.u = [[k % 7 / 8., k % 5 / 8.] for k in range(BIG)]
    B.u[0], B.u[-1] = pts(c, 'bu', 2, 2, 0, 1)
    B.base = [[[(k + j) % 256 for j in range(3)] for k in range(300)]]
    B.rough = [[[(2 * k + j) % 256 for j in range(3)]] for k in range(300)]
    B.base[0][299], B.rough[299][0] = image(c, 'bb', 1, 1)[0][0], image(c, 'br', 1, 1)[0][0]
    what = c.choice('what', ['into', 'small', 'renumber'])
    if what == 'renumber':
        B.i = [1, 2, BIG - 1] + list(range(3, 3 * 300))
        b = make(W, B)
        to = [(k + 7) % BIG for k in range(BIG)]
        b.renumber(BIG, to)
        back = {t: k for k, t in enumerate(to)}
        for name, got, want in (('vertices', b.vertices(), B.v), ('normals', b.normals(), B.n), ('uv', b.uv_coords(), B.u)):
            same_cols(c, got, [want[back[k]] for k in range(BIG)], 'renumbered ' + name)
        same_ids(c, b.indices(), [to[q] for q in B.i], 'triangles')
        return
    X, Y = (A, B) if what == 'into' else (B, A)
    x, y = make(W, X), make(W, Y)
    x.merge(y)
    geometry(c, y, Y, 'the second mesh stays')
    R = TData.__new__(TData)
    R.v, R.n, R.u, R.base, R.rough = X.v + Y.v, X.n + Y.n, X.u + Y.u, X.base, X.rough
    R.i = X.i + [q + len(X.v) for q in Y.i]
    is_mesh(c, x, R, 'merged')
