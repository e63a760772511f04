"""Project scenes keep elements, type and settings through disk and rigid motion."""
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
from symex.api import *
from checks.P01 import G, same
from checks import P13
from checks.P13 import (PO, MODS, TYPES, SYMS, shapes, any_pose, any_box, make, check_fields, check_box, check_shape,
                        shape, FakeVoxels, FakeModel, TOL)
from checks.P12 import build

REG = Registry()
FUNCTIONS = ['ProjectObjectDict.__setitem__', 'ProjectObjectDict.save', 'ProjectObjectDict.load',
             'ProjectObjectDict.almost_equal', 'ProjectScene.__init__', 'ProjectScene.save', 'ProjectScene.load',
             'ProjectScene.transform_pose', 'ProjectObject.save', 'ProjectObject.load', 'ProjectObject.transform_pose']
ASSUMPTIONS = ['voxel and mesh files are stand-ins that record path and content; XML files are real files in a scratch '
               'directory that holds every symbolic number as an exact token',
               'printed decimals read back within half a unit of the last printed digit']
PS, PD = 'sumo.semantic.project_scene', 'sumo.semantic.project_object_dict'
SETTINGS = {'version': '1.0 <b>', 'categories_id': 'my & ids', 'categories_url': 'http://x/?a=1&b="2"'}
IDS = ['1', '0002', 'b <&> "c"']


class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-p14-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def tree(d):
    """path -> content of everything below d"""
    r = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            r[os.path.join(root, n)] = None
        for n in files:
            with open(os.path.join(root, n), 'rb') as f:
                r[os.path.join(root, n)] = f.read()
    return r


def element(c, W, kind, i, name, light=False):
    """one object with its fields and box"""
    box = any_box(c, W, name + 'b')
    pose = G(W)[0](t=vec(c, W, name + 't', 3, -100, 100)) if light else any_pose(c, W, name + 'p')
    f = dict(id=i, pose=pose, category=['chair', 'wall & door', 'unknown'][len(i) % 3],
             symmetry=build(W, SYMS[len(i) % 5]), score=c.real(name + 's', -1, 100), evaluated=bool(c.bool(name + 'e')))
    return make(W, kind, box, f), f, box


def scene(c, W, kind, n, settings=None, light=False, pre='o'):
    D = W.module(PD).ProjectObjectDict()
    parts = []
    for k in range(n):
        parts.append(element(c, W, kind, IDS[k], pre + str(k), light or k > 0))
        D[IDS[k]] = parts[-1][0]
    return W.module(PS).ProjectScene(kind, D, settings), parts


def check_elements(c, W, es, parts, kind, label, tol=0):
    c.check(type(es) is W.module(PD).ProjectObjectDict, label + ': elements are a project object dictionary')
    c.check(list(es.keys()) == [f['id'] for o, f, b in parts], label + ': elements keyed by id, in order')
    for o, f, b in parts:
        check_fields(c, es[f['id']], f, kind, label, tol)
        check_box(c, es[f['id']].bounds, b, label, tol)
        check_shape(c, es[f['id']], o, label)


def roundtrip(kind):
    def h(c, W):
        S = W.module(PS).ProjectScene
        n = c.choice('n', [0, 1, 2, 3])
        name, st, deep = c.choice('setup', [('p', None, False), ('my project.1', dict(SETTINGS), True)])
        with shapes(W), scratch() as d:
            s, parts = scene(c, W, kind, n, st)
            want = dict(s.settings)
            base = os.path.join(d, 'new', 'dir') if deep else d
            s.save(base, name)
            pd = os.path.join(base, name)
            ext = {'voxels': '.h5', 'meshes': '.glb'}.get(kind)
            c.check(sorted(list(FakeVoxels.disk) + list(FakeModel.disk)) ==
                    sorted(os.path.join(pd, f['id'] + ext) for o, f, b in parts if ext), 'one shape file per element')
            c.check(os.listdir(pd) == [name + '.xml'], 'documented layout')
            r = S.load(base, name)
            c.check(r.project_type == kind, 'type survives saving')
            c.check(r.settings == want, 'settings survive saving')
            check_elements(c, W, r.elements, parts, kind, 'scene survives saving', TOL)
            check_elements(c, W, s.elements, parts, kind, 'saving leaves the scene alone')
            c.check(s.settings == want, 'saving leaves the settings alone')
    return h


for k in TYPES:
    REG.add(roundtrip(k), 'roundtrip_' + k, 'up to 3 elements, any pose, box, score and flag', MODS)


@REG.harness(bounds='saving over a directory or file that exists, saving twice', mods=MODS)
def existing(c, W):
    kind = c.choice('kind', TYPES)
    how = c.choice('how', ['empty', 'full', 'file', 'twice'])
    with shapes(W), scratch() as d:
        s, parts = scene(c, W, kind, 1, light=True)
        p = os.path.join(d, 'p')
        if how == 'file':
            with open(p, 'w') as f:
                f.write('x')
        elif how == 'twice':
            s.save(d, 'p')
        else:
            os.mkdir(p)
            if how == 'full':
                with open(os.path.join(p, 'p.xml'), 'w') as f:
                    f.write('keep')
        before, files = tree(d), dict(FakeVoxels.disk, **FakeModel.disk)
        s2, _ = scene(c, W, kind, 2, light=True, pre='q')
        c.check(outcome(s2.save, d, 'p')[0] != 'ok', 'an existing project is not overwritten')
        c.check(tree(d) == before and dict(FakeVoxels.disk, **FakeModel.disk) == files, 'an existing project is untouched')


@REG.harness(bounds='each header tag missing, moved or joined by unknown tags', mods=MODS)
def header(c, W):
    S = W.module(PS).ProjectScene
    gone = c.choice('missing', ['', 'version', 'categories', 'project_type', 'elements', 'id', 'url'])
    rot, extra, kind = c.choice('setup', [(0, True, 'voxels'), (1, False, 'bounding_box'), (2, True, 'bounding_box'),
                                          (3, False, 'voxels')])
    with shapes(W), scratch() as d:
        s, parts = scene(c, W, kind, 1, dict(SETTINGS), light=True)
        s.save(d, 'p')
        x = os.path.join(d, 'p', 'p.xml')
        t = ET.parse(x)
        root = t.getroot()
        cat = root.find('categories')
        for n in list(cat):
            if n.tag == gone:
                cat.remove(n)
        kids = [n for n in root if n.tag != gone]
        kids = kids[rot:] + kids[:rot]
        for n in list(root):
            root.remove(n)
        root.extend(kids)
        if extra:
            ET.SubElement(root, 'author').text = 'x'
            es = root.find('elements')
            if es is not None:
                ET.SubElement(es, 'group').text = 'y'
            ET.SubElement(cat, 'name').text = 'z'
        t.write(x, encoding='utf-8')
        k, r = outcome(S.load, d, 'p')
        if gone == 'project_type':
            c.check(k == 'ValueError', 'a project without type is refused')
            return
        c.check(k == 'ok', 'tag order, unknown tags and missing optional tags are accepted')
        want = {'version': SETTINGS['version'], 'categories_id': SETTINGS['categories_id'],
                'categories_url': SETTINGS['categories_url']}
        for tag, keys in (('version', ['version']), ('categories', ['categories_id', 'categories_url']),
                          ('id', ['categories_id']), ('url', ['categories_url'])):
            for q in keys if gone == tag else []:
                del want[q]
        c.check(r.settings == want, 'settings are those in the file')
        c.check(r.project_type == kind, 'type is that in the file')
        check_elements(c, W, r.elements, [] if gone == 'elements' else parts, kind, 'elements are those in the file', TOL)


@REG.harness(bounds='wrong root, wrong type, broken or missing file', mods=MODS)
def refused(c, W):
    S = W.module(PS).ProjectScene
    with shapes(W), scratch() as d:
        s, parts = scene(c, W, 'bounding_box', 1, light=True)
        s.save(d, 'p')
        x = os.path.join(d, 'p', 'p.xml')
        how = c.choice('how', ['root', 'type', 'broken', 'empty', 'no file', 'no directory'])
        if how in ('root', 'type'):
            t = ET.parse(x)
            if how == 'root':
                t.getroot().tag = c.choice('tag', ['project', 'Scene', 'elements'])
            else:
                t.getroot().find('project_type').text = c.choice('type', ['mesh', 'voxel', 'Bounding_box', ''])
            t.write(x)
        elif how in ('broken', 'empty'):
            b = tree(d)[x]
            with open(x, 'wb') as f:
                f.write(b[:len(b) // 2] if how == 'broken' else b'')
        elif how == 'no file':
            os.remove(x)
        k, _ = outcome(S.load, d, 'q' if how == 'no directory' else 'p')
        if how.startswith('no'):
            c.check(k in ('IOError', 'OSError', 'FileNotFoundError'), 'a missing project is an IO error')
        else:
            c.check(k == 'ValueError', 'a malformed project is refused')


@REG.harness(bounds='an element whose shape file is gone', mods=MODS)
def shape_gone(c, W):
    kind = c.choice('kind', ['voxels', 'meshes'])
    with shapes(W), scratch() as d:
        s, parts = scene(c, W, kind, 2, light=True)
        s.save(d, 'p')
        disk = FakeVoxels.disk if kind == 'voxels' else FakeModel.disk
        del disk[sorted(disk)[c.choice('which', [0, 1])]]
        c.check(outcome(W.module(PS).ProjectScene.load, d, 'p')[0] != 'ok', 'no element is dropped silently')


def moved(kind):
    def h(c, W):
        s, parts = None, None
        with shapes(W), scratch() as d:
            s, parts = scene(c, W, kind, c.choice('n', [0, 1, 2]), dict(SETTINGS) if c.bool('custom') else None, light=True)
            want = dict(s.settings)
            T = any_pose(c, W, 'T')
            r = s.transform_pose(T)
            c.check(r is not s and r.elements is not s.elements, 'a new scene')
            c.check(r.settings == want and r.project_type == kind, 'moving keeps settings and type')
            for o, f, b in parts:
                same(c, r.elements[f['id']].pose.matrix(), T.matrix().dot(f['pose'].matrix()), 'every element moves')
            check_elements(c, W, r.elements, [(o, dict(f, pose=r.elements[f['id']].pose), b) for o, f, b in parts], kind,
                           'moving keeps everything else')
            check_elements(c, W, s.elements, parts, kind, 'the original stays')
            r.settings['version'] = 'changed'
            c.check(s.settings == want, 'the copy has its own settings')
            r.settings = want
            r.save(d, 'p')
            q = W.module(PS).ProjectScene.load(d, 'p')
            c.check(list(q.elements) == [f['id'] for o, f, b in parts] and q.settings == want, 'the moved scene can be saved')
    return h


for k in TYPES:
    REG.add(moved(k), 'moved_' + k, 'up to 2 elements, any transform', MODS)


@REG.harness(bounds='defaults', mods=MODS)
def defaults(c, W):
    m = W.module(PS)
    S = m.ProjectScene
    kind = c.choice('kind', TYPES + ['mesh', '', 'voxel'])
    k, a = outcome(S, kind)
    c.check(k == ('ok' if kind in TYPES else 'ValueError'), 'only the documented types')
    if kind not in TYPES:
        return
    b = S(project_type=kind)
    c.check(a.settings == {'version': '2.0', 'categories_id': 'fb_categories_v1_0',
                           'categories_url': 'https://sumochallenge.org/en/categories-1_0.json'}, 'documented settings')
    c.check(len(a.elements) == 0, 'no elements by default')
    a.settings['version'] = 'x'
    a.elements['7'] = W.module(PO).ProjectObject('7')
    c.check(b.settings['version'] == '2.0' and S(kind).settings['version'] == '2.0' and len(b.elements) == 0 and
            len(S(kind).elements) == 0, 'scenes do not share their defaults')
    e, st = W.module(PD).ProjectObjectDict(), {}
    x = S(kind, e, st)
    c.check(x.elements is e and x.settings is st, 'given elements and settings are used, empty or not')


@REG.harness(bounds='anything but project objects', mods=MODS)
def members(c, W):
    P = W.module(PO).ProjectObject
    D = W.module(PD).ProjectObjectDict()
    x = P('1')
    D['1'] = x
    v = c.choice('value', [None, '1', 7, {}, object()])
    c.check(outcome(D.__setitem__, c.choice('key', ['1', '2']), v)[0] == 'AssertionError', 'only project objects can be stored')
    c.check(len(D) == 1 and D['1'] is x, 'a refused value changes nothing')
    c.check(outcome(D.__getitem__, '2')[0] == 'KeyError', 'unknown ids are an error')


@REG.harness(bounds='dictionaries that agree or differ in one place', mods=MODS)
def comparison(c, W):
    kind = c.choice('kind', TYPES)
    P = W.module(PD).ProjectObjectDict
    with shapes(W):
        n = c.choice('n', [0, 1, 2])
        s, parts = scene(c, W, kind, n, light=True)
        a, b = s.elements, P()
        what = c.choice('what', ['', 'order', 'gone', 'more', 'renamed', 'score'])
        ks = list(a)
        for k in ks[::-1] if what == 'order' else ks:
            b[k] = a[k].transform_pose(G(W)[0]())
        if what in ('gone', 'renamed', 'score') and not n:
            return
        q = ks[c.choice('k', list(range(n)))] if n else None
        if what == 'gone':
            dict.pop(b, q)
        elif what == 'more':
            b['zz'] = W.module(PO).ProjectObject('zz')
        elif what == 'renamed':
            b['zz'] = dict.pop(b, q)
        elif what == 'score':
            b[q].score = b[q].score + c.real('ds', 0.0625, 1)
        e = what in ('', 'order')
        c.check(bool(a.almost_equal(b)) == e, 'dictionaries are almost equal iff keys and objects are')
        c.check(bool(b.almost_equal(a)) == e, 'the comparison is symmetric')
