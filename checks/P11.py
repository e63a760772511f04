"""Voxel grid: a saved grid reloads as the same grid and keeps growing like the original."""
from symex.api import *
from checks.P09 import M, box_holds
from checks.P10 import pt, arr, grid

REG = Registry()
FUNCTIONS = ['VoxelGrid.save', 'VoxelGrid.load', 'VoxelGrid.from_file', 'VoxelGrid.add_points',
             'VoxelGrid.voxel_centers', 'VoxelGrid.bounds']
ASSUMPTIONS = ['h5py is a dictionary of arrays and attributes (in-memory stand-in; the real library on replay)']


@REG.harness(bounds='1 point, saved, loaded, one more point added; voxel size in {1/2, 1, 2}, min corner any real '
             'in [-1,1]^3, coordinates within 2.9 voxels (z within 1.9)', mods=[M], linearize=12)
def save_load_grow(c, W):
    vs = c.choice('vs', [0.5, 1.0, 2.0])
    mc = [c.real('m' + k, -1, 1) for k in 'xyz']
    V3 = W.module('sumo.base.vector').Vector3f
    g = W.module(M).VoxelGrid(vs, V3(*mc))
    u = [pt(c, 0), pt(c, 1)]
    ps = [[m + vs * v for m, v in zip(mc, p)] for p in u]
    g.add_points(arr(W, ps[0]))
    f = tmpfile(c, 'grid.h5')
    g.save(f)
    h = W.module(M).VoxelGrid.from_file(f)
    c.eq(h.voxel_size, vs, 'voxel size reloads')
    for k in range(3):
        c.eq(h.min_corner[k], mc[k], 'min corner reloads')
    box_holds(c, h, h.voxel_centers(), ps[:1], mc, vs)
    b1, b2 = g.bounds(), h.bounds()
    for k in range(3):
        c.eq(b1.min_corner[k], b2.min_corner[k], 'bounds reload')
        c.eq(b1.max_corner[k], b2.max_corner[k], 'bounds reload')
    h.add_points(arr(W, ps[1]))
    box_holds(c, h, h.voxel_centers(), ps, mc, vs)


@REG.harness(bounds='2 points saved and reloaded into a grid that already held another point, unit voxels, '
             'coordinates any real in [0, 2.9], z in one layer', mods=[M], linearize=12)
def load_replaces(c, W):
    g = grid(c, W)
    ps = [pt(c, i, zero='z') for i in range(2)]
    g.add_points(arr(W, *ps))
    f = tmpfile(c, 'grid.h5')
    g.save(f)
    h = W.module(M).VoxelGrid(2.0)
    h.add_points(arr(W, [7.5, 7.5, 7.5]))
    h.load(f)
    box_holds(c, h, h.voxel_centers(), ps, [0, 0, 0], 1.0)


@REG.harness(bounds='a file name that does not exist / a directory that does not exist', mods=[M])
def io_errors(c, W):
    VG = W.module(M).VoxelGrid
    write = c.bool('write')
    if write:
        g = grid(c, W)
        g.add_points(arr(W, pt(c, 0)))
        r, e = outcome(g.save, '/nonexistent/dir/x.h5')
    else:
        r, e = outcome(VG.from_file, tmpfile(c, 'missing.h5'))
    c.check(isinstance(e, IOError), 'an unreadable or unwritable file raises an I/O error')
