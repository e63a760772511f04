"""Point-set metrics (IoU, surface distance, colour distance) follow their definitions and are symmetric."""
import math
from symex.api import *

REG = Registry()
FUNCTIONS = ['metrics.utils.points_iou', 'nearest_neighbors', 'points_rmsssd', 'color_rmsssd',
             'ComputeBbox.from_point_cloud']
ASSUMPTIONS = ['the nearest-neighbour library returns a nearest point and its Euclidean distance',
               'points at equal distance may be resolved either way']
MODS = ['sumo.metrics.utils', 'sumo.threedee.compute_bbox', 'sumo.threedee.box_3d']


class Bare(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def points(c, W, name, n, dims, colors=False, lo=-4, hi=4):
    rows = []
    for i in range(n):
        p = [c.real('%s%d%s' % (name, i, k), lo, hi) if k in dims else 0.5 for k in 'xyz']
        if colors:
            p += [c.real('%s%d%s' % (name, i, k), 0, 255) if k in colors else 8.0 for k in 'RGB']
        rows.append(p)
    return rows


def arr(W, rows, k=3):
    return W.np.array(rows, dtype='float64').reshape(len(rows), k)


def box(W, rows):
    return W.module('sumo.threedee.compute_bbox').ComputeBbox().from_point_cloud(arr(W, rows).T)


def d2(p, q):
    s = 0
    for a, b in zip(p, q):
        if a is not b:
            s = s + (a - b) * (a - b)
    return s


def iou(c, W, A, B, t):
    u = W.module('sumo.metrics.utils')
    return u.points_iou(arr(W, A), box(W, A), arr(W, B), box(W, B), t)


def near(c, p, Q, t):
    """whether p has a point of Q within t; decided by forking"""
    for q in Q:
        if c.concrete and abs(d2(p, q) - t * t) < EPS:
            raise NotApplicable()
        if d2(p, q) <= t * t:
            return 1
    return 0


def overlap(na, nb, dims):
    def h(c, W):
        t = c.choice('thresh', [0.5, 1.0])
        A, B = points(c, W, 'a', na, dims), points(c, W, 'b', nb, dims)
        r = iou(c, W, A, B, t)
        c.le(0, r, 'IoU is at least 0')
        c.le(r, 1, 'IoU is at most 1')
        n = sum(near(c, p, B, t) for p in A) + sum(near(c, q, A, t) for q in B)
        c.eq(r * (na + nb), n, 'IoU is the fraction of points with a neighbour within the threshold')
        c.eq(iou(c, W, B, A, t), r, 'IoU is symmetric')
    return h


for na, nb, dims, tier in [(1, 1, 'xyz', 'quick'), (2, 2, 'y', 'quick'), (1, 2, 'xz', 'quick'), (3, 1, 'z', 'quick'),
                           (2, 2, 'xy', 'thorough'), (3, 2, 'x', 'thorough')]:
    REG.add(overlap(na, nb, dims), 'iou_%d_%d_%s' % (na, nb, dims), 'sets of %d and %d points, %s any reals in [-4, 4] '
            '(other coordinates equal), thresholds 0.5 and 1' % (na, nb, ', '.join(dims)), MODS, tier)


@REG.harness(bounds='one set of 3 points (x, y any reals), any positive threshold up to 2', mods=MODS)
def iou_identical(c, W):
    A = points(c, W, 'a', 3, 'xy')
    t = c.real('thresh', 0, 2)
    c.eq(iou(c, W, A, [list(p) for p in A], t), 1, 'identical sets overlap fully')


@REG.harness(bounds='1 and 2 points (x any reals), and the same sets moved by any vector', mods=MODS)
def iou_translation(c, W):
    A, B = points(c, W, 'a', 1, 'x'), points(c, W, 'b', 2, 'x')
    v = [c.real('v' + k, -4, 4) for k in 'xyz']
    move = lambda P: [[a + b for a, b in zip(p, v)] for p in P]
    for p in A:
        for q in B:
            if c.concrete and abs(d2(p, q) - 1) < EPS:
                raise NotApplicable()
    c.eq(iou(c, W, move(A), move(B), 1.0), iou(c, W, A, B, 1.0), 'IoU does not depend on where the objects are')


@REG.harness(bounds='an empty set and up to 2 points', mods=MODS)
def iou_empty(c, W):
    n = c.choice('n', [0, 1, 2])
    P = points(c, W, 'a', n, 'x')
    u = W.module('sumo.metrics.utils')
    B = W.module('sumo.threedee.box_3d').Box3d
    bx = lambda: B(W.np.array([-8.0] * 3), W.np.array([8.0] * 3))
    e = W.np.zeros((0, 3))
    c.eq(u.points_iou(e, bx(), arr(W, P), bx(), 0.5), 0, 'nothing overlaps an empty set')
    c.eq(u.points_iou(arr(W, P), bx(), e, bx(), 0.5), 0, 'nothing overlaps an empty set')


def neighbors(na, nb, dims):
    def h(c, W):
        A, B = points(c, W, 'a', na, dims), points(c, W, 'b', nb, dims)
        i12, i21, d12, d21 = W.module('sumo.metrics.utils').nearest_neighbors(arr(W, A), arr(W, B))
        for P, Q, ix, ds in ((A, B, i12, d12.reshape(-1)), (B, A, i21, d21.reshape(-1))):
            c.check(len(ix) == len(P) and len(ds) == len(P), 'one neighbour per point')
            for k, p in enumerate(P):
                j = int(ix[k])
                c.check(0 <= j < len(Q), 'the index is one of the other set')
                c.eq(ds[k] * ds[k], d2(p, Q[j]), 'the distance is that to the neighbour')
                for q in Q:
                    c.le(d2(p, Q[j]), d2(p, q), 'no point is nearer')
    return h


for na, nb, dims in [(1, 2, 'xyz'), (2, 2, 'x'), (3, 1, 'yz')]:
    REG.add(neighbors(na, nb, dims), 'neighbors_%d_%d_%s' % (na, nb, dims), 'sets of %d and %d points, %s any reals'
            % (na, nb, ', '.join(dims)), MODS)


def scene(W, table):
    return Bare(elements={k: Bare(posed_points=arr(W, v, len(v[0]))) for k, v in table.items()})


def fake(W, dets, gts, assoc, thresholds):
    return Bare(_settings={'thresholds': W.np.array(thresholds)}, _submission=scene(W, dets),
                _ground_truth=scene(W, gts),
                _agnostic_data_assoc={t: {d: Bare(det_id=d, gt_id=g) for d, g in assoc[t].items()} for t in thresholds})


def least(c, p, Q):
    best = None
    for q in Q:
        x = d2(p[:3], q[:3])
        if best is None or x < best:
            best = x
    return best


def mean_square(c, A, B):
    return (sum(least(c, p, B) for p in A) + sum(least(c, q, A) for q in B)) / (len(A) + len(B))


def rms(na, nb, dims):
    def h(c, W):
        A, B = points(c, W, 'a', na, dims), points(c, W, 'b', nb, dims)
        u = W.module('sumo.metrics.utils')
        e = fake(W, {'d': A}, {'g': B}, {0.5: {'d': 'g'}}, [0.5])
        r = u.points_rmsssd(e, e._submission, e._ground_truth)
        c.le(0, r, 'a distance is not negative')
        c.eq(r * r, mean_square(c, A, B), 'root mean square of the distances to the nearest points')
        e = fake(W, {'d': B}, {'g': A}, {0.5: {'d': 'g'}}, [0.5])
        s = u.points_rmsssd(e, e._submission, e._ground_truth)
        c.eq(s * s, r * r, 'the surface distance is symmetric')
    return h


for na, nb, dims in [(1, 1, 'xyz'), (1, 2, 'x'), (2, 1, 'yz'), (2, 2, 'z')]:
    REG.add(rms(na, nb, dims), 'rms_%d_%d_%s' % (na, nb, dims), 'one match of %d and %d points, %s any reals'
            % (na, nb, ', '.join(dims)), MODS)


@REG.harness(bounds='3 detections and 3 ground truth elements of one point each (any x), any of several associations '
             'at 2 thresholds', mods=MODS, squares=True)
def rms_mean(c, W):
    ds, gs = 'def', 'uvw'
    D = {k: points(c, W, k, 1, 'x') for k in ds}
    G = {k: points(c, W, k, 1, 'x') for k in gs}
    u = W.module('sumo.metrics.utils')
    a = c.choice('low', [{}, {'d': 'u'}, {'d': 'v', 'e': 'u'}, {'d': 'u', 'e': 'v', 'f': 'w'}])
    b = c.choice('high', [{}, {'d': 'u'}, {'e': 'u', 'f': 'v'}])
    e = fake(W, D, G, {0.25: a, 0.5: b}, [0.25, 0.5])
    r = u.points_rmsssd(e, e._submission, e._ground_truth)
    pairs = list(a.items()) + list(b.items())
    if not pairs:
        c.check(r == math.inf, 'no match: infinite')
        return
    c.eq(r * len(pairs), sum(abs(D[d][0][0] - G[g][0][0]) for d, g in pairs), 'mean over all matches at all thresholds')


def color(na, nb, dims, cols):
    def h(c, W):
        A = points(c, W, 'a', na, dims, cols)
        B = points(c, W, 'b', nb, dims, cols)
        for P, Q in ((A, B), (B, A)):
            for p in P:
                for i in range(len(Q)):
                    for j in range(i):
                        x, y = d2(p[:3], Q[i][:3]), d2(p[:3], Q[j][:3])
                        c.assume(any_(c, [x > y, x < y]) if not c.concrete else abs(x - y) > EPS)
        u = W.module('sumo.metrics.utils')
        e = fake(W, {'d': A}, {'g': B}, {0.5: {'d': 'g'}}, [0.5])
        r = u.color_rmsssd(e, e._submission, e._ground_truth)
        tot = 0
        for P, Q in ((A, B), (B, A)):
            for p in P:
                q = Q[0]
                for x in Q[1:]:
                    if d2(p[:3], x[:3]) < d2(p[:3], q[:3]):
                        q = x
                tot += d2(p[3:], q[3:])
        c.eq(r * r, tot / (na + nb), 'root mean square of the colour differences between nearest points')
        c.le(0, r, 'a colour distance is not negative')
    return h


for na, nb, dims, cols in [(1, 1, 'x', 'RGB'), (1, 2, 'xy', 'G'), (2, 1, 'z', 'RB'), (2, 2, 'x', 'R')]:
    REG.add(color(na, nb, dims, cols), 'color_%d_%d' % (na, nb), 'one match of %d and %d points, %s any reals, colours %s '
            'any reals; no equidistant points' % (na, nb, ', '.join(dims), cols), MODS)


@REG.harness(bounds='identical sets of 2 coloured points (x and colour any reals)', mods=MODS)
def identical(c, W):
    A = points(c, W, 'a', 2, 'x', 'G')
    c.assume(any_(c, [A[0][0] > A[1][0], A[0][0] < A[1][0]]))
    u = W.module('sumo.metrics.utils')
    e = fake(W, {'d': A}, {'g': [list(p) for p in A]}, {0.5: {'d': 'g'}}, [0.5])
    c.eq(u.points_rmsssd(e, e._submission, e._ground_truth), 0, 'identical sets have no surface distance')
    c.eq(u.color_rmsssd(e, e._submission, e._ground_truth), 0, 'identical sets have no colour distance')
