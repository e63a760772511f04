"""Voxel grid: index mapping, centres, bounds."""
from symex.api import *

REG = Registry()
FUNCTIONS = ['VoxelGrid.__init__', 'VoxelGrid.add_points', 'VoxelGrid.voxel_centers', 'VoxelGrid.bounds',
             'VoxelGrid.voxel_size', '_linearize_voxels', '_vectorize_voxels']
ASSUMPTIONS = ['voxel sizes are drawn from a stated list of concrete values or a stated range']
M = 'sumo.threedee.voxel_grid'


def grid(c, W, vs, mc=None):
    VG = W.module(M).VoxelGrid
    V3 = W.module('sumo.base.vector').Vector3f
    return VG(vs, None if mc is None else V3(mc[0], mc[1], mc[2]))


def pts(c, W, n, mc, lo, hi, tag='p'):
    return W.np.array([[c.real('%s%d%s' % (tag, i, k), lo, hi) for k in 'xyz'] for i in range(n)],
                      dtype='float64')


@REG.harness(bounds='1 point, voxel size any real in [1/8, 8], min corner any real in [-4,4]^3, '
             'point within 3 voxels of the min corner', mods=[M])
def centre_within_half_voxel(c, W):
    vs = c.real('vs', 0.125, 8)
    mc = [c.real('m' + k, -4, 4) for k in 'xyz']
    p = [c.real('p' + k) for k in 'xyz']
    for i in range(3):
        c.assume(p[i] >= mc[i])
        c.assume(p[i] < mc[i] + 3 * vs)
    g = grid(c, W, vs, mc)
    g.add_points(W.np.array([p], dtype='float64'))
    ct = g.voxel_centers()
    c.check(ct.shape == (1, 3), 'one point occupies one voxel')
    c.eq(g.voxel_size, vs, 'voxel size reported')
    for i in range(3):
        c.le(ct[0, i] - p[i], 0.5 * vs, 'centre at most half a voxel above the point')
        c.le(p[i] - ct[0, i], 0.5 * vs, 'centre at most half a voxel below the point')


@REG.harness(bounds='2 points added together, voxel size 1/2, min corner any real in [-2,2]^3, points within '
             '3 voxels of the min corner; set of voxels against floor((p - min)/size)', mods=[M],
             linearize=16)
def two_points_occupied_set(c, W):
    vs = 0.5
    mc = [c.real('m' + k, -2, 2) for k in 'xyz']
    ps = [[c.real('p%d%s' % (i, k)) for k in 'xyz'] for i in range(2)]
    for p in ps:
        for i in range(3):
            c.assume(p[i] >= mc[i])
            c.assume(p[i] < mc[i] + 3 * vs)
    g = grid(c, W, vs, mc)
    g.add_points(W.np.array(ps, dtype='float64'))
    ct = g.voxel_centers()
    box_holds(c, g, ct, ps, mc, vs)


def box_holds(c, g, ct, ps, mc, vs):
    n = ct.shape[0]
    c.check(1 <= n <= len(ps), 'no more voxels than points')
    for p in ps:        # every point lies in an occupied voxel
        c.check(any_(c, [all_(c, [within(c, p[k], ct[j, k], vs) for k in range(3)]) for j in range(n)]),
                'every point lies in an occupied voxel')
    for j in range(n):  # every occupied voxel holds a point, no voxel twice
        c.check(any_(c, [all_(c, [within(c, p[k], ct[j, k], vs) for k in range(3)]) for p in ps]),
                'every occupied voxel holds a point')
        for i in range(j):
            c.check(any_(c, [differs(c, ct[i, k], ct[j, k], vs) for k in range(3)]), 'no voxel is listed twice')
        for k in range(3):
            c.check(isint(c, (ct[j, k] - mc[k]) / vs - 0.5), 'centres lie on the voxel lattice')


@REG.harness(bounds='2 points, voxel size in {1/4, 1, 2}, min corner any real in [-2,2]^3, points within 3 voxels',
             mods=[M], linearize=16)
def bounds_box(c, W):
    vs = c.choice('vs', [0.25, 1.0, 2.0])
    mc = [c.real('m' + k, -2, 2) for k in 'xyz']
    ps = [[c.real('p%d%s' % (i, k)) for k in 'xyz'] for i in range(2)]
    for p in ps:
        for i in range(3):
            c.assume(p[i] >= mc[i])
            c.assume(p[i] < mc[i] + 3 * vs)
    g = grid(c, W, vs, mc)
    g.add_points(W.np.array(ps, dtype='float64'))
    b = g.bounds()
    lo, hi = b.min_corner, b.max_corner
    ct = g.voxel_centers()
    for k in range(3):
        for p in ps:
            c.le(lo[k], p[k], 'bounds start at or below every point')
            c.le(p[k], hi[k], 'bounds end at or above every point')
        m = [ct[j, k] for j in range(ct.shape[0])]
        c.check(any_(c, [close(c, lo[k], x - vs / 2) for x in m]), 'lower bound is the face of an occupied voxel')
        c.check(any_(c, [close(c, hi[k], x + vs / 2) for x in m]), 'upper bound is the face of an occupied voxel')


@REG.harness(bounds='voxel size any real in [-8, 8]; one point anywhere in [-4,4]^3, min corner in [-2,2]^3',
             mods=[M])
def rejects_bad_input(c, W):
    vs = c.real('vs', -8, 8)
    mc = [c.real('m' + k, -2, 2) for k in 'xyz']
    r, g = outcome(lambda: grid(c, W, vs, mc))
    if vs <= 0:
        c.check(r == 'ValueError', 'a voxel size that is not positive is rejected')
        return
    c.check(r == 'ok', 'a positive voxel size is accepted')
    if vs < 0.5:
        return
    p = [c.real('p' + k, -4, 4) for k in 'xyz']
    r, _ = outcome(g.add_points, W.np.array([p], dtype='float64'))
    below = p[0] < mc[0] or p[1] < mc[1] or p[2] < mc[2]
    c.check(r == ('ValueError' if below else 'ok'), 'exactly the points below the min corner are rejected')


@REG.harness(bounds='default grid (voxel size 1, min corner 0), 1 point in [0,5)^3 given to the constructor', mods=[M])
def constructor_points(c, W):
    p = [c.real('p' + k, 0, 4.9) for k in 'xyz']
    g = W.module(M).VoxelGrid(points=W.np.array([p], dtype='float64'))
    ct = g.voxel_centers()
    for k in range(3):
        c.check(within(c, p[k], ct[0, k], 1.0), 'default grid is the unit lattice at the origin')
        c.eq(g.min_corner[k], 0, 'default min corner')
