"""Project objects keep every field through XML, files and rigid motion."""
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
from symex.api import *
from checks.P01 import G, pose_any, same
from checks.P12 import VALID, build, axes

REG = Registry()
FUNCTIONS = ['ProjectObject.__init__', 'gen_bounding_box_object', 'gen_voxels_object', 'gen_meshes_object', 'save', 'load',
             '_to_xml', '_parse_xml', 'transform_pose', 'almost_equal']
ASSUMPTIONS = ['printed decimals read back within half a unit of the last printed digit',
               'voxel and mesh files are replaced by stand-ins that record path and content (the voxel codec is P11)']
PO = 'sumo.semantic.project_object'
MODS = [PO, 'sumo.semantic.project_object_dict', 'sumo.semantic.project_scene', 'sumo.semantic.object_symmetry',
        'sumo.threedee.box_3d', 'sumo.threedee.compute_bbox', 'sumo.geometry.pose3', 'sumo.geometry.rot3', 'sumo.base.vector']
TYPES = ['bounding_box', 'voxels', 'meshes']
IDS = ['1', 'obj <a&b> "7"', 'st\u00fchl-3', '0002']
CATS = ['unknown', 'chair', 'wall & door', 'l\u00e1mpara']
SYMS = [('none',) * 3, ('none', 'twoFold', 'none'), ('fourFold', 'twoFold', 'twoFold'), ('twoFold', 'twoFold', 'cylindrical'),
        ('spherical',) * 3]
COMBOS = [(IDS[k % 4], CATS[(k // 2) % 4], SYMS[k % 5], ['/project/dir', 'rel'][k % 2]) for k in range(10)]
TOL = 1e-5


class FakeVoxels(object):
    """a voxel grid with any bounds"""
    disk = None

    def __init__(self, box):
        self.box = box

    def bounds(self):
        return self.box

    def save(self, path):
        self.disk[path] = self

    @classmethod
    def from_file(cls, path):
        if path not in cls.disk:
            raise IOError(path)
        return cls.disk[path]


class FakeMesh(object):
    def __init__(self, W, box):
        self.W, self.box = W, box

    def vertices(self):
        return self.W.np.column_stack([self.box.max_corner, self.box.min_corner])


class FakeModel(object):
    disk = None

    def __init__(self, W, box, n=1):
        self.ms, self.n = [FakeMesh(W, box)], n

    def primitive_meshes(self):
        return list(self.ms)

    def same_size(self, other):
        return self.n == other.n

    def save_as_glb(self, path):
        self.disk[path] = self

    @classmethod
    def load_from_glb(cls, path):
        if path not in cls.disk:
            raise IOError(path)
        return cls.disk[path]


class shapes(object):
    """voxel and mesh classes replaced by the stand-ins, with an empty disk"""
    def __init__(self, W):
        m = W.module(PO)
        self.p = patched((m, 'VoxelGrid', FakeVoxels), (m, 'GltfModel', FakeModel))

    def __enter__(self):
        FakeVoxels.disk, FakeModel.disk = {}, {}
        self.p.__enter__()

    def __exit__(self, *a):
        self.p.__exit__()
        FakeVoxels.disk = FakeModel.disk = None


def any_pose(c, W, name):
    Pose3, Rot3, V = G(W)
    return pose_any(c, W, name)[0]


def any_box(c, W, name):
    lo = vec(c, W, name + 'l', 3, -100, 100)
    return W.module('sumo.threedee.box_3d').Box3d(lo, lo + vec(c, W, name + 'e', 3, 0, 100))


def shape(W, kind, box):
    """keyword arguments that make the object with that box"""
    return dict(bounds=box, voxels=FakeVoxels(box) if kind == 'voxels' else None,
                meshes=FakeModel(W, box) if kind == 'meshes' else None)


def fields(c, W, name='', ids=IDS, cats=CATS, syms=SYMS):
    return dict(id=c.choice(name + 'id', ids), pose=any_pose(c, W, name + 'pose'), category=c.choice(name + 'cat', cats),
                symmetry=build(W, c.choice(name + 'sym', syms)), score=c.real(name + 'score', -1, 100),
                evaluated=bool(c.bool(name + 'ev')))


def make(W, kind, box, f):
    P = W.module(PO).ProjectObject
    return P(project_type=kind, **dict(f, **shape(W, kind, box)))


def check_fields(c, o, f, kind, label, tol=0):
    c.check(o.id == f['id'], label + ': id')
    c.check(o.project_type == kind, label + ': type')
    c.check(o.category == f['category'], label + ': category')
    c.check(axes(o.symmetry) == axes(f['symmetry']), label + ': symmetry')
    c.check(close(c, o.score, f['score']), label + ': score')
    c.check(bool(o.evaluated) == f['evaluated'], label + ': evaluated flag')
    for x, y in zip(o.pose.matrix().reshape(-1), f['pose'].matrix().reshape(-1)):
        c.check(close(c, x, y, tol), label + ': pose')


def check_box(c, a, b, label, tol=0):
    for x, y in zip(list(a.min_corner) + list(a.max_corner), list(b.min_corner) + list(b.max_corner)):
        c.check(close(c, x, y, tol), label + ': bounds')


def check_shape(c, o, ref, label):
    """o holds exactly the representation of its type, the one of ref"""
    c.check(o.voxels is ref.voxels and o.meshes is ref.meshes, label + ': shape')
    c.check((o.voxels is not None) == (o.project_type == 'voxels') and
            (o.meshes is not None) == (o.project_type == 'meshes'), label + ': only the shape of its type')


def wire(node):
    return ET.fromstring(ET.tostring(node))


def roundtrip(kind):
    def h(c, W):
        P = W.module(PO).ProjectObject
        with shapes(W):
            box = any_box(c, W, 'box')
            i, cat, sym, path = c.choice('names', COMBOS)
            f = fields(c, W, ids=[i], cats=[cat], syms=[sym])
            o = make(W, kind, box, f)
            node = wire(o.save(path))
            c.check(node.tag == 'element', 'documented tag')
            files = dict(FakeVoxels.disk, **FakeModel.disk)
            ext = {'voxels': '.h5', 'meshes': '.glb'}.get(kind)
            c.check(sorted(files) == ([os.path.join(path, f['id'] + ext)] if ext else []), 'one file, named by the id')
            r = P.load(kind, node, path)
            check_fields(c, r, f, kind, 'object survives saving', TOL)
            check_box(c, r.bounds, box, 'object survives saving', TOL)
            check_shape(c, r, o, 'object survives saving')
            check_fields(c, o, f, kind, 'saving leaves the object alone')
    return h


for k in TYPES:
    REG.add(roundtrip(k), 'roundtrip_' + k, 'any pose, box, score and flag; ids, categories and symmetries from lists', MODS)


@REG.harness(bounds='bounds given unlike the shape, any values', mods=MODS)
def bounds_from_shape(c, W):
    kind = c.choice('kind', ['voxels', 'meshes'])
    with shapes(W):
        box, other = any_box(c, W, 'box'), any_box(c, W, 'other')
        f = dict(id='a', pose=G(W)[0](), category='x', symmetry=None, score=0.5, evaluated=True)
        o = W.module(PO).ProjectObject(project_type=kind, **dict(f, **dict(shape(W, kind, box), bounds=other)))
        r = W.module(PO).ProjectObject.load(kind, wire(o.save('d')), 'd')
        check_box(c, r.bounds, box, 'stored bounds are those of the shape', TOL)


@REG.harness(bounds='each optional tag missing, any child order', mods=MODS)
def optional(c, W):
    P = W.module(PO).ProjectObject
    box = any_box(c, W, 'box')
    f = fields(c, W, ids=['7'], cats=['chair'], syms=SYMS[3:4])
    node = wire(make(W, 'bounding_box', box, f).save())
    gone = c.choice('missing', ['', 'category', 'pose', 'symmetry', 'detectionScore', 'evaluated', 'bounds', 'id'])
    kids = [k for k in node if k.tag != gone]
    for k in list(node):
        node.remove(k)
    s = c.choice('shift', [0, 3, 5])
    kids = kids[s:] + kids[:s]
    node.extend(kids[::-1] if c.bool('flip') else kids)
    if c.bool('extra'):
        ET.SubElement(node, 'comment').text = 'x'
    kind, r = outcome(P.load, 'bounding_box', node)
    if gone == 'id':
        c.check(kind == 'ValueError', 'an object without id is refused')
        return
    c.check(kind == 'ok', 'other tags are optional')
    d = P('0')
    f2 = dict(f)
    for tag, k in (('category', 'category'), ('pose', 'pose'), ('symmetry', 'symmetry'), ('detectionScore', 'score'),
                   ('evaluated', 'evaluated')):
        if gone == tag:
            f2[k] = getattr(d, k)
    check_fields(c, r, f2, 'bounding_box', 'missing tags take the defaults', TOL)
    if gone == 'bounds':
        c.check(r.bounds is None, 'missing tags take the defaults')
    else:
        check_box(c, r.bounds, box, 'child order is irrelevant', TOL)


@REG.harness(bounds='defaults of the constructor', mods=MODS)
def defaults(c, W):
    P = W.module(PO).ProjectObject
    how = c.choice('how', ['ctor', 'box', 'voxels', 'meshes'])
    o = {'ctor': P, 'box': P.gen_bounding_box_object, 'voxels': P.gen_voxels_object, 'meshes': P.gen_meshes_object}[how]('7')
    p = P('8')
    f = dict(id='7', pose=G(W)[0](), category='unknown', symmetry=build(W, ('none',) * 3), score=-1, evaluated=True)
    check_fields(c, o, f, {'ctor': 'bounding_box', 'box': 'bounding_box'}.get(how, how), 'documented defaults')
    c.check(o.pose is not p.pose and o.symmetry is not p.symmetry, 'objects do not share their defaults')


@REG.harness(bounds='every way of construction, every type, any values', mods=MODS)
def construction(c, W):
    P = W.module(PO).ProjectObject
    kind = c.choice('kind', TYPES + ['mesh', ''])
    box = any_box(c, W, 'box')
    f = fields(c, W, ids=['7', b'7'], cats=['chair'], syms=SYMS[:2])
    v, m = FakeVoxels(box), FakeModel(W, box)
    if c.bool('factory') and kind in TYPES:
        o = {'bounding_box': lambda: P.gen_bounding_box_object(bounds=box, **f),
             'voxels': lambda: P.gen_voxels_object(bounds=box, voxels=v, **f),
             'meshes': lambda: P.gen_meshes_object(bounds=box, meshes=m, **f)}[kind]()
    else:
        k, o = outcome(P, project_type=kind, bounds=box, voxels=v, meshes=m, **f)
        c.check(k == ('ok' if kind in TYPES else 'ValueError'), 'only the documented types')
        if kind not in TYPES:
            return
    check_fields(c, o, dict(f, id='7'), kind, 'every argument is kept')
    check_box(c, o.bounds, box, 'every argument is kept')
    c.check(o.voxels is (v if kind == 'voxels' else None) and o.meshes is (m if kind == 'meshes' else None),
            'only the shape of its type is kept')
    for n in ('id', 'project_type'):
        c.check(outcome(setattr, o, n, 'x')[0] == 'AttributeError', 'id and type are read only')


@REG.harness(bounds='wrong tag, wrong type', mods=MODS)
def refused(c, W):
    P = W.module(PO).ProjectObject
    node = wire(P('7', bounds=W.module('sumo.threedee.box_3d').Box3d()).save())
    if c.bool('tag'):
        node.tag = c.choice('name', ['object', 'elements'])
        c.check(outcome(P.load, 'bounding_box', node)[0] == 'ValueError', 'another tag is refused')
    else:
        c.check(outcome(P.load, c.choice('kind', ['', 'mesh', 'voxel']), node)[0] == 'ValueError', 'another type is refused')


@REG.harness(bounds='flag texts', mods=MODS)
def flag_text(c, W):
    P = W.module(PO).ProjectObject
    node = wire(P('7', bounds=W.module('sumo.threedee.box_3d').Box3d()).save())
    t = c.choice('text', ['True', 'true', 'False', 'false'])
    node.find('evaluated').text = t
    c.check(bool(P.load('bounding_box', node).evaluated) == (t.lower() == 'true'), 'the flag is read as written')


def moved(kind):
    def h(c, W):
        Pose3, Rot3, V = G(W)
        box = any_box(c, W, 'box')
        f = fields(c, W, ids=['7'], cats=['chair'], syms=SYMS[3:4])
        o = make(W, kind, box, f)
        before = [x for x in f['pose'].matrix().reshape(-1)]
        T = any_pose(c, W, 'T')
        r = o.transform_pose(T)
        want = T.matrix().dot(f['pose'].matrix())
        same(c, r.pose.matrix(), want, 'the object moves with the transform')
        check_fields(c, r, dict(f, pose=r.pose), kind, 'moving keeps everything else')
        check_shape(c, r, o, 'moving keeps everything else')
        check_box(c, r.bounds, box, 'moving keeps everything else')
        for x, y in zip(o.pose.matrix().reshape(-1), before):
            c.eq(x, y, 'the original stays where it is')
        c.check(r is not o, 'a new object')
    return h


for k in TYPES:
    REG.add(moved(k), 'moved_' + k, 'any pose and transform', MODS)


@REG.harness(bounds='two objects that agree or differ in one field', mods=MODS)
def comparison(c, W):
    kind = c.choice('kind', TYPES)
    box = any_box(c, W, 'box')
    f = fields(c, W, ids=['7'], cats=['chair'], syms=SYMS[1:3])
    what = c.choice('what', ['', 'id', 'category', 'symmetry', 'score', 'evaluated', 'pose', 'size'])
    g = dict(f)
    if what == 'id':
        g['id'] = '8'
    elif what == 'category':
        g['category'] = 'table'
    elif what == 'symmetry':
        g['symmetry'] = build(W, ('none',) * 3)
    elif what == 'score':
        g['score'] = f['score'] + c.real('ds', 0.0625, 4)
    elif what == 'evaluated':
        g['evaluated'] = not f['evaluated']
    elif what == 'pose':
        Pose3, Rot3, V = G(W)
        t = [0, 0, 0]
        t[c.choice('axis', [0, 1, 2])] = c.real('dt', 0.0625, 4)
        g['pose'] = Pose3(t=V(*t)).compose(f['pose'])
    a, b = make(W, kind, box, f), make(W, kind, box, g)
    if what == 'size':
        if kind != 'meshes':
            return
        b.meshes.n = 2
    c.check(bool(a.almost_equal(b)) == (what == ''), 'objects are almost equal iff their fields are')
    c.check(bool(b.almost_equal(a)) == (what == ''), 'the comparison is symmetric')
