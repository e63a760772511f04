"""Voxel grid: the result does not depend on how points were batched; rejected batches leave no trace."""
from symex.api import *
from checks.P09 import M, box_holds

REG = Registry()
FUNCTIONS = ['VoxelGrid.add_points', 'VoxelGrid.voxel_centers',
             '_linearize_voxels', '_vectorize_voxels']
ASSUMPTIONS = []


def pt(c, i, hi=2.9, ks='xyz', zero=''):
    return [0.5 if k in zero else c.real('p%d%s' % (i, k), 0, hi) for k in ks]


def arr(W, *ps):
    return W.np.array([list(p) for p in ps], dtype='float64')


def grid(c, W):
    return W.module(M).VoxelGrid(1.0)


@REG.harness(bounds='2 batches of one point each, every coordinate any real in [0, 2.9], unit voxels',
             mods=[M], linearize=12)
def two_batches(c, W):
    g = grid(c, W)
    a, b = pt(c, 0), pt(c, 1)
    g.add_points(arr(W, a))
    g.add_points(arr(W, b))
    box_holds(c, g, g.voxel_centers(), [a, b], [0, 0, 0], 1.0)


@REG.harness(bounds='3 batches of one point each, x and y any real in [0, 1.9], z in one layer, unit voxels',
             mods=[M], linearize=12)
def three_batches_xy(c, W):
    g = grid(c, W)
    ps = [pt(c, i, 1.9, zero='z') for i in range(3)]
    for p in ps:
        g.add_points(arr(W, p))
    box_holds(c, g, g.voxel_centers(), ps, [0, 0, 0], 1.0)


@REG.harness(bounds='a batch of 2 points, then 1 point; x, y any real in [0, 1.9], z in one layer, unit voxels',
             mods=[M], linearize=12)
def pair_then_one(c, W):
    g = grid(c, W)
    ps = [pt(c, i, 1.9, zero='z') for i in range(3)]
    g.add_points(arr(W, ps[0], ps[1]))
    g.add_points(arr(W, ps[2]))
    box_holds(c, g, g.voxel_centers(), ps, [0, 0, 0], 1.0)


@REG.harness(bounds='one point, a batch of 2 with at least one point below the min corner, one more point; '
             'coordinates any real in [-2, 2.9] (y, z fixed for the first point)', mods=[M], linearize=12)
def rejected_batch_leaves_no_trace(c, W):
    g = grid(c, W)
    a = [c.real('ax', 0, 2.9), 0.5, 0.5]
    bad = [[c.real('b%d%s' % (i, k), -2, 2.9) for k in 'xy'] + [0.5] for i in range(2)]
    c.assume(any_(c, [v < 0 for p in bad for v in p]))
    d = [0.5, c.real('dy', 0, 1.9), c.real('dz', 0, 1.9)]
    g.add_points(arr(W, a))
    r, _ = outcome(g.add_points, arr(W, *bad))
    c.check(r == 'ValueError', 'the batch is rejected')
    ct = g.voxel_centers()
    c.check(ct.shape == (1, 3), 'no voxel appears or disappears')
    box_holds(c, g, ct, [a], [0, 0, 0], 1.0)
    g.add_points(arr(W, d))
    box_holds(c, g, g.voxel_centers(), [a, d], [0, 0, 0], 1.0)


@REG.harness(bounds='three points, then one more, in a grid of 50001 x 50001 x 3 voxels; any offsets within the voxels, any '
             'layer', mods=[M], linearize=12)
def wide_grid(c, W):
    g = grid(c, W)
    far = [[50000.5, 0.5], [0.5, 50000.5], [0.5, 0.5], [40000.5, 30000.5]]
    ps = [xy + [c.real('z%d' % i, 0, 2.9)] for i, xy in enumerate(far)]
    g.add_points(arr(W, *ps[:3]))
    g.add_points(arr(W, ps[3]))
    ct = g.voxel_centers()
    c.check(tuple(ct.shape) == (4, 3), 'every point has its voxel')
    for i, p in enumerate(ps):
        c.check(any_(c, [all_(c, [ct[k, j] - p[j] <= 0.5 for j in range(3)] + [p[j] - ct[k, j] <= 0.5 for j in range(3)])
                         for k in range(4)]), 'the voxel of every point is occupied')
