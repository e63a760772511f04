"""Project conversion keeps everything but the shape, which is the documented one."""
from symex.api import *
from checks.P01 import G
from checks import P13, P14
from checks.P13 import PO, TYPES, shapes, any_pose, any_box, check_fields, check_box, check_shape, FakeVoxels
from checks.P14 import PS, PD, SETTINGS, IDS, scene, check_elements

REG = Registry()
FUNCTIONS = ['ProjectConverter.run', 'ProjectConverter.convert_element', 'ComputeBbox.from_gltf_object',
             'ProjectObject.gen_bounding_box_object', 'ProjectObject.gen_voxels_object']
ASSUMPTIONS = ['voxel grids and meshes are stand-ins with any bounds; the voxelizer (P21) is a stand-in that records its model']
PC = 'sumo.semantic.project_converter'
MODS = P13.MODS + [PC]
ALLOWED = [('meshes', 'voxels'), ('meshes', 'bounding_box'), ('voxels', 'bounding_box')]


class FakeVoxelizer(object):
    made = None

    def __init__(self, *a, **k):
        pass

    def run(self, model):
        self.made.append((model, FakeVoxels(self.box(model))))
        return self.made[-1][1]


class voxelizer(object):
    def __init__(self, c, W):
        self.p = patched((W.module(PC), 'Voxelizer', FakeVoxelizer))
        self.c, self.W = c, W

    def __enter__(self):
        FakeVoxelizer.made = []
        FakeVoxelizer.box = lambda s, m: any_box(self.c, self.W, 'v%d' % len(s.made))
        self.p.__enter__()
        return FakeVoxelizer.made

    def __exit__(self, *a):
        self.p.__exit__()
        FakeVoxelizer.made = None


def spoil(o):
    """change the source object"""
    o.score = o.score + 1000
    o.category = 'changed'


def check_converted(c, W, e, o, f, box, target, made, label):
    check_fields(c, e, f, target, label)
    c.check(e is not o, label + ': a new object')
    c.check(e.pose is not o.pose, label + ': its own pose')
    c.check(e.meshes is None, label + ': only the shape of its type')
    if target == 'voxels':
        v = [v for m, v in made if m is o.meshes]
        c.check(len(v) == 1 and e.voxels is v[0], label + ': the voxels are those of its mesh')
        check_box(c, e.bounds, v[0].box, label + ': bounds of the voxels')
    else:
        c.check(e.voxels is None, label + ': only the shape of its type')
        check_box(c, e.bounds, box, label + ': bounds of the shape')


@REG.harness(bounds='scenes of up to 3 elements with any pose, box, score and flag; every allowed conversion', mods=MODS)
def project(c, W):
    source, target = c.choice('conversion', ALLOWED)
    n = c.choice('n', [0, 1, 2, 3])
    with shapes(W), voxelizer(c, W) as made:
        s, parts = scene(c, W, source, n, dict(SETTINGS) if c.bool('custom') else None)
        st = dict(s.settings)
        r = W.module(PC).ProjectConverter().run(s, target)
        c.check(r is not s and type(r) is W.module(PS).ProjectScene, 'a new scene')
        c.check(r.project_type == target, 'target type')
        c.check(r.settings == st and s.settings == st, 'settings are kept')
        c.check(type(r.elements) is W.module(PD).ProjectObjectDict, 'elements are a project object dictionary')
        c.check(list(r.elements) == [f['id'] for o, f, b in parts], 'every element, once, keyed by id')
        for o, f, b in parts:
            check_converted(c, W, r.elements[f['id']], o, f, b, target, made, 'conversion keeps the element')
        check_elements(c, W, s.elements, parts, source, 'the input scene stays')
        c.check(s.project_type == source, 'the input scene stays')
        r.settings['version'] = 'changed'
        c.check(s.settings == st, 'the result has its own settings')
        for o, f, b in parts:
            e = r.elements[f['id']]
            e.score, e.category, e.evaluated = e.score + 1, 'changed', not e.evaluated
        check_elements(c, W, s.elements, parts, source, 'changing the result leaves the input alone')


@REG.harness(bounds='every pair of types', mods=MODS)
def not_allowed(c, W):
    source = c.choice('source', TYPES)
    target = c.choice('target', TYPES + ['', 'mesh'])
    n = c.choice('n', [0, 1])
    if (source, target) in ALLOWED:
        return
    with shapes(W), voxelizer(c, W):
        s, parts = scene(c, W, source, n, light=True)
        conv = W.module(PC).ProjectConverter()
        c.check(outcome(conv.run, s, target)[0] == 'ValueError', 'only the documented conversions')
        for o, f, b in parts:
            c.check(outcome(conv.convert_element, o, target)[0] == 'ValueError', 'only the documented conversions')
        check_elements(c, W, s.elements, parts, source, 'a refused conversion changes nothing')


@REG.harness(bounds='one element with any fields', mods=MODS)
def element(c, W):
    source, target = c.choice('conversion', ALLOWED)
    with shapes(W), voxelizer(c, W) as made:
        o, f, b = P14.element(c, W, source, '7', 'e')
        e = W.module(PC).ProjectConverter().convert_element(o, target)
        check_converted(c, W, e, o, f, b, target, made, 'conversion keeps the element')
        check_fields(c, o, f, source, 'the input element stays')


@REG.harness(bounds='meshes to voxels to boxes against meshes to boxes', mods=MODS)
def two_steps(c, W):
    with shapes(W), voxelizer(c, W) as made:
        s, parts = scene(c, W, 'meshes', c.choice('n', [1, 2]), dict(SETTINGS), light=True)
        conv = W.module(PC).ProjectConverter()
        r = conv.run(conv.run(s, 'voxels'), 'bounding_box')
        c.check(r.project_type == 'bounding_box' and r.settings == SETTINGS, 'settings survive two steps')
        for o, f, b in parts:
            e = r.elements[f['id']]
            check_fields(c, e, f, 'bounding_box', 'two steps keep the element')
            v = [v for m, v in made if m is o.meshes]
            check_box(c, e.bounds, v[0].box, 'two steps: bounds of the voxels')
