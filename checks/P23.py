"""Track evaluators compare elements in room coordinates by the documented similarity of their track."""
import math
from symex.api import *
from checks.P20 import d2, near

REG = Registry()
FUNCTIONS = ['BBEvaluator.__init__', 'BBEvaluator._shape_similarity', '_bbox2pymesh', 'BBEvaluator.evaluate_all',
             'VoxelEvaluator.__init__', 'VoxelEvaluator._shape_similarity', 'VoxelEvaluator.evaluate_all',
             'MeshEvaluator.__init__', 'MeshEvaluator._shape_similarity', 'MeshEvaluator.evaluate_all', 'points_iou',
             'points_rmsssd', 'color_rmsssd', 'Evaluator.__init__']
ASSUMPTIONS = ['pymesh is a model: signed mesh volume from vertices and faces; boolean intersection exact for boxes along '
               'the axes and any volume otherwise',
               'voxel grids are stand-ins with any centres; surface sampling (P21) is a stand-in with any points',
               'nearest-neighbour library modelled exactly']
B = 'sumo.metrics.bb_evaluator'
V = 'sumo.metrics.voxel_evaluator'
M = 'sumo.metrics.mesh_evaluator'
MODS = [B, V, M, 'sumo.metrics.evaluator', 'sumo.metrics.utils', 'sumo.threedee.compute_bbox', 'sumo.threedee.box_3d',
        'sumo.geometry.pose3', 'sumo.geometry.rot3', 'sumo.base.vector', 'sumo.semantic.project_object',
        'sumo.semantic.project_object_dict', 'sumo.semantic.project_scene', 'sumo.semantic.object_symmetry']
AXES = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
        [[1, 0, 0], [0, 0, -1], [0, 1, 0]], [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]]


def pose(c, W, R, t):
    P = W.module('sumo.geometry.pose3').Pose3
    return P(W.module('sumo.geometry.rot3').Rot3(W.np.array(R, dtype='float64')), W.module('sumo.base.vector').Vector3(*t))


def apply(R, t, p):
    return [sum(R[i][k] * p[k] for k in range(3) if R[i][k]) + t[i] for i in range(3)]


def scene(W, kind, os):
    D = W.module('sumo.semantic.project_object_dict').ProjectObjectDict()
    for o in os:
        D[o.id] = o
    return W.module('sumo.semantic.project_scene').ProjectScene(kind, D)


def settings(W, thresholds=(2.0,), **k):
    s = W.module('sumo.metrics.evaluator').Evaluator.default_settings()
    s['thresholds'] = W.np.array(list(thresholds))
    s['categories'] = ['chair', 'table']
    s.update(k)
    return s


class PM(object):
    """pymesh: meshes with signed volume, intersection given by `cut`"""
    def __init__(self, c, cut):
        self.c, self.cut, self.forms = c, cut, []

    class Mesh(object):
        def __init__(self, v, f, volume=None):
            self.vertices, self.faces, self.given = v, f, volume

        @property
        def volume(self):
            if self.given is not None:
                return self.given
            s = 0
            for f in self.faces:
                a, b, d = [[self.vertices[int(i), k] for k in range(3)] for i in f]
                s = s + (a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) +
                         a[2] * (b[0] * d[1] - b[1] * d[0]))
            return s / 6

    def form_mesh(self, vertices, faces):
        if isinstance(vertices, tuple):
            return self.Mesh(None, None, vertices[0])
        m = self.Mesh(vertices, faces)
        self.forms.append(m)
        return m

    def boolean(self, a, b, operation, **k):
        self.c.check(operation == 'intersection', 'the boxes are intersected')
        v = self.cut(a, b)
        return self.Mesh((v,), (v,), v)


def dedup(v, f, *a, **k):
    return v, f, {}


def closed(c, m, label):
    """8 vertices; every edge of the faces is used once in each direction"""
    es = {}
    for f in m.faces:
        i = [int(x) for x in f]
        for k in range(3):
            e = (i[k], i[(k + 1) % 3])
            es[e] = es.get(e, 0) + 1
    c.check(all(n == 1 and es.get((b, a)) == 1 for (a, b), n in es.items()), label)


class box(object):
    """a posed box element; sym: axes (in room coordinates) whose extent and position are symbolic"""
    def __init__(self, c, W, name, R, fixed, sym, category='chair', score=-1, ext=True):
        self.R = R
        lo, hi = [], []
        t = [0.0] * 3
        for i in range(3):
            if i in sym:
                t[i] = c.real('%st%d' % (name, i), -8, 8)
        for k in range(3):
            i = [j for j in range(3) if R[j][k]]
            if len(i) == 1 and i[0] in sym:
                a = c.real('%sl%d' % (name, k), -8, 8)
                e = c.real('%se%d' % (name, k), 0.0625, 8) if ext else fixed[k][1]
            else:
                a, e = fixed[k]
            lo.append(a)
            hi.append(a + e)
        self.lo, self.hi, self.t = lo, hi, t
        b = W.module('sumo.threedee.box_3d').Box3d(W.np.array(lo, dtype='float64'), W.np.array(hi, dtype='float64'))
        self.o = W.module('sumo.semantic.project_object').ProjectObject.gen_bounding_box_object(
            id=name, bounds=b, pose=pose(c, W, R, t), category=category, score=score)

    def corners(self):
        """in room coordinates"""
        return [apply(self.R, self.t, [(self.lo, self.hi)[(i >> k) & 1][k] for k in range(3)]) for i in range(8)]

    def volume(self):
        v = 1
        for a, b in zip(self.lo, self.hi):
            v = v * (b - a)
        return v

    def interval(self, i):
        """extent along room axis i (rotations along the axes)"""
        k = [j for j in range(3) if self.R[i][j]][0]
        a, b = self.R[i][k] * self.lo[k] + self.t[i], self.R[i][k] * self.hi[k] + self.t[i]
        return (a, b) if self.R[i][k] > 0 else (b, a)


def bb(c, W, pm, s, g, st):
    m = W.module(B)
    # scenes may be evaluated again, so elements are evaluated from copies of the poses and boxes
    with patched((m, 'pymesh', pm), (m, 'remove_duplicated_vertices_raw', dedup)):
        e = m.BBEvaluator(scene(W, 'bounding_box', s), scene(W, 'bounding_box', g), st)
        return e, e._shape_similarity(s[0], g[0])


def minmax(a, b):
    return (a, b) if a < b else (b, a)


def exact(sym, pairs):
    def h(c, W):
        Ra, Rb = c.choice('rotations', pairs)
        x = box(c, W, 'det', Ra, [(-1.0, 2.0), (0.0, 1.0), (-0.5, 2.5)], sym)
        y = box(c, W, 'gt', Rb, [(-0.5, 1.0), (-1.0, 2.5), (0.5, 3.0)], sym)
        sign = c.choice('sign', [1, -1])
        inter = 1
        touch = False
        for i in range(3):
            (a, b), (p, q) = x.interval(i), y.interval(i)
            lo, hi = minmax(a, p)[1], minmax(b, q)[0]
            w = hi - lo
            if w <= 0:
                touch = True
            inter = inter * w
        if touch:
            inter = 0
        pm = PM(c, lambda a, b: sign * inter)
        e, r = bb(c, W, pm, [x.o], [y.o], settings(W))
        c.eq(r * (x.volume() + y.volume() - inter), inter, 'similarity is the volume of the intersection over the union')
        c.le(0, r, 'similarity is between 0 and 1')
        c.le(r, 1, 'similarity is between 0 and 1')
        for m in pm.forms:
            closed(c, m, 'box meshes are closed')
    return h


I = AXES[0]
for k in range(3):
    REG.add(exact((k,), [(I, I), (AXES[1], I), (AXES[2], AXES[3]), (AXES[4], AXES[1])]), 'iou_axis_%d' % k,
            'boxes along the axes; position and extent along axis %d any reals' % k, MODS)
REG.add(exact((0, 1), [(I, I), (AXES[1], AXES[2])]), 'iou_plane', 'boxes along the axes; position and extent along '
        'x and y any reals', MODS, 'thorough')


R345 = [[[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]], [[1.0, 0.0, 0.0], [0.0, 0.8, 0.6], [0.0, -0.6, 0.8]],
        [[-0.28, 0.0, 0.96], [0.0, 1.0, 0.0], [-0.96, 0.0, -0.28]]]


@REG.harness(bounds='boxes turned by rational rotations, any position, any volume of the intersection', mods=MODS)
def iou_turned(c, W):
    ra, rb = c.choice('rotations', [(0, None), (1, 0), (2, 1)])
    q = lambda i: I if i is None else R345[i]
    x = box(c, W, 'det', q(ra), [(-1.0, 2.0), (0.0, 1.0), (-0.5, 2.5)], (0, 1, 2), ext=False)
    y = box(c, W, 'gt', q(rb), [(-0.5, 1.0), (-1.0, 2.5), (0.5, 3.0)], (0, 1, 2), ext=False)
    v = c.real('inter', 0, 5)
    used = []

    def cut(a, b):
        used.append((a, b))
        return c.choice('sign', [1, -1]) * v
    pm = PM(c, cut)
    m = W.module(B)
    with patched((m, 'pymesh', pm), (m, 'remove_duplicated_vertices_raw', dedup)):
        x.o.posed_bbox = y.o.posed_bbox = None
        e = m.BBEvaluator(scene(W, 'bounding_box', [x.o]), scene(W, 'bounding_box', []), settings(W))
        m.BBEvaluator(scene(W, 'bounding_box', []), scene(W, 'bounding_box', [y.o]), settings(W))
        r = e._shape_similarity(x.o, y.o)
    if used:
        for got, w in zip(used[0], (x, y)):
            closed(c, got, 'box meshes are closed')
            n = got.volume
            c.eq(n * n, w.volume() * w.volume(), 'box meshes have the volume of the box', 1e-6)
            for p in w.corners():
                c.check(any_(c, [all_(c, [close(c, got.vertices[j, k], p[k], 1e-6) for k in range(3)]) for j in range(8)]),
                        'box meshes have the corners of the posed box')
        c.eq(r * (x.volume() + y.volume() - v), v, 'similarity is the volume of the intersection over the union', 1e-6)
    else:
        c.eq(r, 0, 'boxes that are not intersected are apart')
        apart = []
        for i in range(3):
            A, D = [p[i] for p in x.corners()], [p[i] for p in y.corners()]
            apart += [all_(c, [a >= d - 1e-6 for a in A for d in D]), all_(c, [a <= d + 1e-6 for a in A for d in D])]
        c.check(any_(c, apart), 'boxes that are not intersected are apart')


# -- point based tracks ---------------------------------------------------------------

class FakeVoxels(object):
    def __init__(self, W, pts):
        self.W, self.pts = W, pts

    def voxel_centers(self):
        return self.W.np.array(self.pts, dtype='float64').reshape(len(self.pts), 3)

    def bounds(self):
        b = self.W.module('sumo.threedee.compute_bbox').ComputeBbox().from_point_cloud(self.voxel_centers().T)
        h = self.W.np.array([0.25] * 3)
        return self.W.module('sumo.threedee.box_3d').Box3d(b.min_corner - h, b.max_corner + h)


class cloud(object):
    """an element of n points with one symbolic coordinate, turned and moved along one room axis"""
    def __init__(self, c, W, track, name, n, R=I, dim=0, color=None):
        self.t = [0.0, 0.0, 0.0]
        self.t[dim] = c.real(name + 't', -4, 4)
        k = [j for j in range(3) if R[dim][j]][0]
        self.local = []
        for i in range(n):
            p = [0.5, -1.0, 2.0]
            p[k] = c.real('%s%d' % (name, i), -4, 4)
            self.local.append(p)
        self.room = [apply(R, self.t, p) for p in self.local]
        self.color = [[c.real('%sc%d' % (name, i), 0, 255) if color else 8.0, 16.0, 32.0] for i in range(n)]
        P = W.module('sumo.semantic.project_object').ProjectObject
        k = dict(id=name, pose=pose(c, W, R, self.t), category='chair', score=0.5)
        if track == V:
            self.o = P.gen_voxels_object(voxels=FakeVoxels(W, self.local), **k)
        else:
            self.o = P.gen_meshes_object(meshes=None, **k)

    def points(self, W):
        return W.np.array([p + q for p, q in zip(self.room, self.color)], dtype='float64').reshape(len(self.room), 6)


def evaluate(c, W, track, xs, ys, st, density=None):
    m = W.module(track)
    calls = []
    if track == V:
        return m.VoxelEvaluator(scene(W, 'voxels', [x.o for x in xs]), scene(W, 'voxels', [y.o for y in ys]), st)
    tab = {id(w.o): w for w in xs + ys}

    def sample(element, density=625):
        calls.append(density)
        return tab[id(element)].points(W)
    with patched((m, 'sample_element', sample)):
        e = m.MeshEvaluator(scene(W, 'meshes', [x.o for x in xs]), scene(W, 'meshes', [y.o for y in ys]), st)
    for d in calls:
        c.check(d == density, 'surfaces are sampled with the density of the settings')
    return e


def overlap(track, na, nb, ra, rb, dim):
    key, other = ('voxel_overlap_thresh', 'mesh_overlap_thresh') if track == V else ('mesh_overlap_thresh',
                                                                                     'voxel_overlap_thresh')

    def h(c, W):
        default = c.bool('default')
        st = None if default else settings(W, **{key: 0.5, other: 3.0, 'density': 10})
        d = W.module('sumo.metrics.evaluator').Evaluator.default_settings()
        t = d[key] if default else 0.5
        x = cloud(c, W, track, 'det', na, ra, dim)
        y = cloud(c, W, track, 'gt', nb, rb, dim)
        if default:
            # without association: thresholds fork on the similarity
            e = evaluate(c, W, track, [x], [], None, d['density'])
            evaluate(c, W, track, [], [y], None, d['density'])
        else:
            e = evaluate(c, W, track, [x], [y], st, 10)
        r = e._shape_similarity(x.o, y.o)
        s = e._shape_similarity(y.o, x.o)
        n = sum(near(c, p, y.room, t) for p in x.room) + sum(near(c, q, x.room, t) for q in y.room)
        c.eq(r * (na + nb), n, 'similarity is the share of points with a neighbour, in room coordinates')
        c.eq(s, r, 'similarity is symmetric')
    return h


for track, nm in ((V, 'voxels'), (M, 'meshes')):
    for na, nb, ra, rb, dim in [(1, 1, AXES[1], AXES[2], 0), (2, 1, AXES[3], I, 2), (1, 2, I, AXES[4], 1)]:
        REG.add(overlap(track, na, nb, ra, rb, dim), 'overlap_%s_%d_%d' % (nm, na, nb), '%d and %d points, any position '
                'along room axis %d and any motion along it; default and other settings' % (na, nb, dim), MODS)


def distances(track, nm):
    def h(c, W):
        na, nb = c.choice('n', [(1, 1), (1, 2), (2, 1)])
        x = cloud(c, W, track, 'det', na, I, 0, track == M and na == 1)
        y = cloud(c, W, track, 'gt', nb, AXES[1], 0, False)
        st = settings(W, thresholds=[0.25], voxel_overlap_thresh=100.0, mesh_overlap_thresh=100.0, density=10)
        e = evaluate(c, W, track, [x], [y], st, 10)
        r = e.rms_points_error()
        tot = 0
        best = {}
        for P, Q in ((x.room, y.room), (y.room, x.room)):
            for p in P:
                b = None
                for q in Q:
                    v = d2(p, q)
                    if b is None or v < b:
                        b = v
                tot = tot + b
        c.eq(r * r * (na + nb), tot, 'surface distance in room coordinates')
        q = e.rms_color_error()
        if track == V:
            c.eq(q, 0, 'voxels have no colour')
        elif na == 1 and nb == 1:
            d = x.color[0][0] - y.color[0][0]
            c.eq(q * q, d * d, 'colour distance of the samples')
        n = evaluate(c, W, track, [x], [], st, 10)
        c.check(n.rms_points_error() == math.inf and n.rms_color_error() == math.inf, 'no match: infinite')
    REG.add(h, 'distances_' + nm, 'up to 3 points, any position along x', MODS, squares=True)


distances(V, 'voxels')
distances(M, 'meshes')


def everything(track, nm):
    """evaluate_all reports each metric under its name"""
    NAMES = ['shape_score', 'rotation_error', 'translation_error', 'semantics_score', 'perceptual_score']

    def h(c, W):
        how = c.choice('how', ['match', 'no match'])
        st = settings(W, thresholds=[0.25, 0.5], voxel_overlap_thresh=1.0, mesh_overlap_thresh=1.0, density=10)
        vals = {k: c.real('v_' + k, 0, 100) for k in NAMES + ['rms_points_error', 'rms_color_error']}
        m = W.module(track)
        C = getattr(m, {B: 'BBEvaluator', V: 'VoxelEvaluator', M: 'MeshEvaluator'}[track])
        E = W.module('sumo.metrics.evaluator').Evaluator
        if track == B:
            pm = PM(c, lambda a, b: 6.0 if how == 'match' else 0.5)
            x = box(c, W, 'det', I, [(-1.0, 2.0), (0.0, 1.5), (0.0, 2.0)], ())
            y = box(c, W, 'gt', I, [(-1.0, 2.0), (0.0, 1.5), (0.0, 2.5)], ())
            e, r = bb(c, W, pm, [x.o], [y.o], st)
            c.eq(r, 6.0 / 7.5 if how == 'match' else 0.5 / 13, 'similarity is the volume of the intersection over the union')
            names = NAMES
        else:
            x, y = cloud(c, W, track, 'det', 1), cloud(c, W, track, 'gt', 1)
            e = evaluate(c, W, track, [x], [y], st, 10)
            names = NAMES + ['rms_points_error', 'rms_color_error']
        ret = {k: (lambda self, k=k: vals[k]) for k in names}
        with patched((C, 'shape_score', ret['shape_score']), (C, 'semantics_score', ret['semantics_score']),
                     (C, 'perceptual_score', ret['perceptual_score']),
                     (C, 'pose_error', lambda self: (vals['rotation_error'], vals['translation_error'])),
                     *([] if track == B else [(C, k, ret[k]) for k in names[5:]])):
            got = e.evaluate_all()
        c.check(sorted(got) == sorted(names), 'documented metrics')
        for k in names:
            c.eq(got[k], vals[k], 'each metric under its name')
    REG.add(h, 'metrics_' + nm, 'any value of each metric', MODS)


for track, nm in ((B, 'boxes'), (V, 'voxels'), (M, 'meshes')):
    everything(track, nm)


@REG.harness(bounds='a fixed match of two boxes; any detection score and shift along x up to half the box', mods=MODS)
def boxes_end_to_end(c, W):
    """one detection of the right category: every metric from its definition"""
    x = box(c, W, 'det', I, [(-1.0, 2.0), (0.0, 1.0), (0.0, 1.0)], (), score=c.real('score', 0, 1))
    y = box(c, W, 'gt', I, [(-1.0, 2.0), (0.0, 1.0), (0.0, 1.0)], ())
    d = c.real('d', -1, 1)
    Pose = W.module('sumo.geometry.pose3').Pose3
    x.o.pose = Pose(t=W.module('sumo.base.vector').Vector3(d, 0, 0))
    a = d if d >= 0 else -d
    pm = PM(c, lambda p, q: 2 - a)
    st = settings(W, thresholds=[0.25])
    m = W.module(B)
    with patched((m, 'pymesh', pm), (m, 'remove_duplicated_vertices_raw', dedup)):
        e = m.BBEvaluator(scene(W, 'bounding_box', [x.o]), scene(W, 'bounding_box', [y.o]), st)
        got = e.evaluate_all()
    # similarity (2 - a) / (2 + a) >= 1/3 for a <= 1: always a match
    c.eq(got['translation_error'], a, 'translation error is the distance of the match')
    c.eq(got['rotation_error'], 0, 'no rotation error')
    c.eq(got['shape_score'], 1, 'one detection, one ground truth, matched', 1e-9)
    c.eq(got['semantics_score'], 1, 'one detection of the right category', 1e-9)


def roles(track, nm):
    """a found and a missed ground truth element: half of the recall; turned around: one false detection"""
    def h(c, W):
        st = settings(W, thresholds=[0.25], voxel_overlap_thresh=1.0, mesh_overlap_thresh=1.0, density=10)
        turned = c.bool('turned')
        if track == B:
            x, y, z = [box(c, W, k, I, [(a, 2.0), (0.0, 1.5), (0.0, 2.0)], ()) for k, a in
                       (('det', c.real('x', -8, 8)), ('gt', c.real('y', -8, 8)), ('far', 50.0))]
            d = x.lo[0] - y.lo[0]
            c.assume(all_(c, [d <= 0.5, d >= -0.5]))
            pm = PM(c, lambda a, b: 4.5)
        else:
            x, y, z = [cloud(c, W, track, k, 1) for k in ('det', 'gt', 'far')]
            d = x.room[0][0] - y.room[0][0]
            c.assume(all_(c, [d <= 0.5, d >= -0.5]))
            z.room[0][0] = 50.0
            if track == V:
                z.o.voxels = FakeVoxels(W, [[50.0, -1.0, 2.0]])
        x.o.score, y.o.score, z.o.score = 0.5, 0.75, 0.25
        a, b = ([y, z], [x]) if turned else ([x], [y, z])
        if track == B:
            m = W.module(B)
            with patched((m, 'pymesh', pm), (m, 'remove_duplicated_vertices_raw', dedup)):
                e = m.BBEvaluator(scene(W, 'bounding_box', [v.o for v in a]), scene(W, 'bounding_box', [v.o for v in b]), st)
        else:
            e = evaluate(c, W, track, a, b, st, 10)
        c.eq(e.shape_score(), 1 if turned else 0.5, 'submission and ground truth keep their roles', 1e-9)
    REG.add(h, 'roles_' + nm, 'a pair within half a unit and one far away element, as detection or ground truth', MODS)


for track, nm in ((B, 'boxes'), (V, 'voxels'), (M, 'meshes')):
    roles(track, nm)
