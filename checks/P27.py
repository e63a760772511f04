"""A glTF model gives back the meshes and materials that were put into it."""
import json
import os
import struct
from symex.api import *
from checks import P24, P28
from checks.P24 import Data, f32, u32, same_cols, same_ids, pts
from checks.P28 import TData, image, u8, same_image

CPP = True
REG = Registry()
FUNCTIONS = ['GltfModel.add_mesh', 'add_primitive_mesh', 'add_textured_primitive_mesh', 'from_textured_mesh', 'example',
             'primitive_meshes', 'extract_primitive_mesh', 'extract_textured_primitive_mesh', 'deepcopy', 'same_size',
             'add_colored_material', 'update_materials', 'num_*', 'image_size', 'image_uri',
             'C++ sumo::GltfModel (addPrimitiveMesh, addTexturedPrimitiveMesh, pushData, addTexture, extract*, '
             'getPolymorphicPrimitiveMeshes, updateMaterial, loadTexture, addColoredMaterial), GltfAccessor']
ASSUMPTIONS = ['coordinates are exact reals (single precision rounding is outside the claim)',
               'the structure of the model is read directly from the C++ object; a counterexample is replayed through '
               'the glTF file that the real library writes', 'image files are decoded by OpenCV instead of stb']
MODS = ['sumo.threedee.gltf_model'] + P28.MODS


def G(W):
    return W.module('sumo.threedee.gltf_model').GltfModel


def text(b):
    return b.decode() if isinstance(b, bytes) else b


def param(p):
    p = p.f
    if len(p['number_array']):
        return list(p['number_array'])
    if len(p['json_double_value']):
        return {text(k): v for k, v in dict(p['json_double_value']).items()}
    if p['string_value']:
        return text(p['string_value'])
    return p['number_value'] if p['has_number_value'] else bool(p['bool_value'])


def seen(c, g):
    """the model as it appears in its glTF file"""
    if c.concrete:
        folder = tmpfile(c, 'model%d' % len(c.user))
        c.user[folder] = 1
        os.mkdir(folder)
        path = g.save_as_gltf(folder, 'm')
        with open(path) as f:
            d = json.load(f)
        d['size'] = os.path.getsize(os.path.join(folder, 'm.bin')) if os.path.exists(os.path.join(folder, 'm.bin')) else 0
        d['materials'] = [m or {} for m in d.get('materials', [])]
        for m in d['materials']:
            m['pbr'] = m.get('pbrMetallicRoughness', {})
        return d
    p = g.c_ptr
    return {'accessors': [{'bufferView': a.bufferView, 'byteOffset': a.byteOffset, 'componentType': a.componentType,
                           'count': a.count, 'type': {65: 'SCALAR', 64 + 2: 'VEC2', 2: 'VEC2', 3: 'VEC3', 4: 'VEC4'}.get(
                               a.type), 'min': list(a.minValues), 'max': list(a.maxValues)} for a in p.accessors],
            'bufferViews': [{'buffer': v.buffer, 'byteOffset': v.byteOffset, 'byteLength': v.byteLength,
                             'byteStride': v.byteStride, 'target': v.target} for v in p.bufferViews],
            'scenes': [{'nodes': list(s.nodes)} for s in p.scenes], 'scene': p.defaultScene,
            'nodes': [{'mesh': n.mesh} for n in p.nodes],
            'meshes': [{'primitives': [{'attributes': {text(k): v for k, v in dict(q.attributes).items()},
                                        'indices': q.indices, 'material': q.material, 'mode': q.mode}
                                       for q in m.primitives]} for m in p.meshes],
            'materials': [{'name': text(m.name), 'pbr': {text(k): param(v) for k, v in dict(m.values).items()}}
                          for m in p.materials],
            'textures': [{'source': t.source, 'sampler': t.sampler} for t in p.textures],
            'images': [{'uri': text(i.uri)} for i in p.images],
            'samplers': [0 for s in p.samplers],
            'size': len(p.buffers[0].data) if len(p.buffers) else 0}


def prims(d):
    return [q for m in d['meshes'] for q in m['primitives']]


def build(c, W, kinds, tris=1, nv=3, sizes=((2, 1), (1, 2))):
    """meshes of these kinds: 't' textured, 'p' plain"""
    data, ms = [], []
    for k, kind in enumerate(kinds):
        t, n = (tris, nv) if k == 0 else (1, 3)
        if kind == 't':
            b, r = sizes if k == 0 else ((1, 1), (2, 1))
            data.append(TData(c, 'm%d' % k, t, n, b, r))
            ms.append(P28.make(W, data[-1]))
        else:
            data.append(Data(c, 'm%d' % k, t, n))
            ms.append(P24.make(W, data[-1]))
    return data, ms


def is_same(c, W, m, d, label):
    if isinstance(d, TData):
        c.check(isinstance(m, P28.T(W)) and bool(m.is_textured()), label + ': textured mesh')
        P28.is_mesh(c, m, d, label)
    else:
        c.check(not isinstance(m, P28.T(W)) and not bool(m.is_textured()), label + ': plain mesh')
        P24.is_mesh(c, m, d, label)


def holds(c, W, g, data, label):
    ms = g.primitive_meshes()
    c.check(len(ms) == len(data) and g.num_primitive_meshes() == len(data), label + ': number of meshes')
    for k, (m, d) in enumerate(zip(ms, data)):
        is_same(c, W, m, d, '%s, mesh %d' % (label, k))


def structure(c, g, data):
    """the arrays of every mesh are where the file says, with the right number and range"""
    d = seen(c, g)
    n = len(data)
    c.check(len(d['nodes']) == n and len(d['meshes']) == n and len(prims(d)) == n, 'one node and mesh for each')
    c.check(sorted(x['mesh'] for x in d['nodes']) == list(range(n)), 'nodes refer to the meshes')
    c.check(len(d['scenes']) == 1 and list(d['scenes'][0]['nodes']) == list(range(n)) and d.get('scene', 0) == 0,
            'all nodes are in the scene')
    spans = []
    for q, m in zip(prims(d), data):
        textured = isinstance(m, TData)
        c.check(set(q['attributes']) == {'POSITION', 'NORMAL'} | ({'TEXCOORD_0'} if textured else set()), 'attributes')
        c.check(q['mode'] == 4, 'triangles')
        c.check(0 <= q['material'] < len(d['materials']), 'material of the mesh')
        lists = [(q['indices'], [[x] for x in m.i], 'SCALAR', 5125, 34963), (q['attributes']['POSITION'], m.v, 'VEC3', 5126, 34962),
                 (q['attributes']['NORMAL'], m.n, 'VEC3', 5126, 34962)]
        if textured:
            lists.append((q['attributes']['TEXCOORD_0'], m.u, 'VEC2', 5126, 34962))
        for i, rows, kind, comp, target in lists:
            a = d['accessors'][i]
            v = d['bufferViews'][a['bufferView']]
            c.check(a['count'] == len(rows) and a['type'] == kind and a['componentType'] == comp, 'accessor %s' % kind)
            size = 4 * len(rows) * len(rows[0])
            lo = v.get('byteOffset', 0) + a.get('byteOffset', 0)
            c.check(v['byteLength'] == size + a.get('byteOffset', 0) and v.get('buffer', 0) == 0 and v.get('target') == target,
                    'buffer view %s' % kind)
            c.check(v.get('byteStride', 0) in (0, 4 * len(rows[0])), 'stride %s' % kind)
            c.check(lo % 4 == 0 and 0 <= lo and lo + size <= d['size'], 'inside the buffer')
            spans.append((lo, lo + size))
            c.check(len(a['min']) == len(rows[0]) and len(a['max']) == len(rows[0]), 'range has %s components' % kind)
            for k in range(len(rows[0])):
                col = [r[k] for r in rows]
                for name, less in (('min', lambda x, y: x <= y), ('max', lambda x, y: x >= y)):
                    z = a[name][k]
                    for x in col:
                        c.le(z, x, name + ' bounds ' + kind) if name == 'min' else c.le(x, z, name + ' bounds ' + kind)
                    c.check(any_(c, [close(c, z, x, 1e-6 * 16) for x in col]), name + ' is attained ' + kind)
    spans.sort()
    c.check(all(a[1] <= b[0] for a, b in zip(spans, spans[1:])), 'no overlap')
    return d


def textures(c, g, d, data):
    """images in the order in which the meshes need them"""
    want = []
    for q, m in zip(prims(d), data):
        p = d['materials'][q['material']]['pbr']
        if not isinstance(m, TData):
            c.check('baseColorTexture' not in p and 'metallicRoughnessTexture' not in p, 'no texture for a plain mesh')
            continue
        for key, im in (('baseColorTexture', m.base), ('metallicRoughnessTexture', m.rough)):
            t = d['textures'][int(p[key]['index'])]
            c.check(0 <= t['source'] < len(d['images']) and 0 <= t['sampler'] < len(d['samplers']), 'texture')
            want.append((t['source'], im))
    c.check(sorted(s for s, _ in want) == list(range(len(d['images']))) and g.num_images() == len(want), 'one image for each')
    for s, im in want:
        c.check(g.image_size(s) == 3 * len(im) * len(im[0]), 'image size')
        c.check(g.image_uri(s) == '%d.png' % s and d['images'][s]['uri'] == '%d.png' % s, 'image name')


def adding(kinds, tris=1, nv=3, **k):
    def h(c, W):
        data, ms = build(c, W, kinds, tris, nv, **k)
        g = G(W)()
        c.check(g.num_primitive_meshes() == 0 and g.num_nodes() == 0 and g.num_images() == 0, 'an empty model')
        for i, m in enumerate(ms):
            c.check(outcome(g.add_mesh, m)[0] == 'ok', 'mesh %d is added' % i)
            c.check(g.num_primitive_meshes() == i + 1 and g.num_nodes() == i + 1 and g.num_buffers() == 1, 'counts')
        holds(c, W, g, data, 'added')
        for m, d in zip(ms, data):
            is_same(c, W, m, d, 'source')
        textures(c, g, structure(c, g, data), data)
    return h


for kinds, t, n in [('t', 2, 4), ('p', 2, 4), ('tt', 1, 3), ('pt', 1, 3), ('tp', 1, 4)]:
    REG.add(adding(kinds, t, n), 'add_' + kinds, 'meshes %s in this order (t: textured, p: plain), the first with %d '
            'triangles over %d vertices, the others with 1 over 3' % (kinds, t, n), MODS)
for kinds, t, n in [('ptp', 2, 5), ('ttt', 1, 3), ('p', 3, 6)]:
    REG.add(adding(kinds, t, n), 'add_%s_%d' % (kinds, n), 'meshes %s' % kinds, MODS, tier='thorough')


@REG.harness('a mesh with coordinates and indices of any magnitude', MODS)
def any_magnitude(c, W):
    d = Data.__new__(Data)
    d.i = [c.int('i%d' % k, 0, 2 ** 32 - 1) for k in range(3)]
    d.v = pts(c, 'v', 2, lo=-10 ** 12, hi=10 ** 12)
    d.n = pts(c, 'n', 2, lo=-1, hi=1)
    g = G(W)()
    g.add_mesh(P24.make(W, d))
    structure(c, g, [d])


@REG.harness('a textured and a plain mesh; single meshes by index', MODS)
def by_index(c, W):
    order = c.choice('order', ['tp', 'pt'])
    data, ms = build(c, W, order)
    g = G(W)()
    if order == 'tp':
        g.add_textured_primitive_mesh(ms[0])
        g.add_primitive_mesh(ms[1])
    else:
        g.add_primitive_mesh(ms[0])
        g.add_textured_primitive_mesh(ms[1])
    t = order.index('t')
    for i in (1, 0):
        is_same(c, W, g.extract_primitive_mesh(i), data[i], 'mesh %d' % i)
    is_same(c, W, g.extract_primitive_mesh(), data[0], 'first by default')
    is_same(c, W, g.extract_textured_primitive_mesh(t), data[t], 'the textured one')
    c.check(outcome(g.extract_textured_primitive_mesh, 1 - t)[0] == 'AssertionError', 'the plain one is not textured')
    c.check(outcome(g.extract_primitive_mesh, 2)[0] == 'IndexError', 'index past the end')
    c.check(outcome(g.extract_textured_primitive_mesh, 2)[0] == 'IndexError', 'textured index past the end')
    c.check(outcome(G(W)().extract_primitive_mesh)[0] == 'IndexError', 'nothing in an empty model')
    for x in (None, 'mesh', 3, data[0]):
        c.check(outcome(g.add_mesh, x)[0] == 'ValueError', 'only meshes')
    c.check(g.num_primitive_meshes() == 2, 'still two')
    h = G(W).from_textured_mesh(ms[t])
    holds(c, W, h, [data[t]], 'from a textured mesh')
    c.check(outcome(G(W).from_textured_mesh, ms[1 - t])[0] == 'TypeError', 'from a plain mesh')


@REG.harness('a textured mesh; the extracted mesh is moved and overwritten, also the source', MODS)
def no_sharing(c, W):
    data, ms = build(c, W, 'tp')
    g = G(W)()
    for m in ms:
        g.add_mesh(m)
    e = g.primitive_meshes()
    for m in e + ms:
        m.rotate(W.np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]]))
    for m in (e[0], ms[0]):
        for a in (m.base_color(), m.metallic_roughness()):
            a[0, 0, 0] = 9
    holds(c, W, g, data, 'after the others changed')


@REG.harness('a model of 2 meshes and its copy; a mesh is added to one of them, materials of one are changed', MODS)
def copies(c, W):
    data, ms = build(c, W, 'tp')
    g = G(W)()
    g.add_mesh(ms[0])
    h = g.deepcopy()
    holds(c, W, h, data[:1], 'copy')
    a, b = (g, h) if c.choice('which', [0, 1]) else (h, g)
    a.add_mesh(ms[1])
    a.update_materials('', [{'color': W.np.array([1., 1., 1.]), 'uri': ''}])
    holds(c, W, a, data, 'with another mesh')
    holds(c, W, b, data[:1], 'the other one')
    c.check(b.num_nodes() == 1 and b.num_images() == 2 and b.num_primitive_meshes() == 1, 'counts')
    pa, pb = seen(c, a), seen(c, b)
    c.check('baseColorFactor' in pa['materials'][prims(pa)[0]['material']]['pbr'], 'changed')
    c.check('baseColorFactor' not in pb['materials'][prims(pb)[0]['material']]['pbr'], 'not changed')
    b.add_mesh(ms[0])
    holds(c, W, b, [data[0], data[0]], 'the other one, with its own again')
    holds(c, W, a, data, 'the first stays')


@REG.harness('models of 0 to 2 meshes of different sizes', MODS)
def sizes_compare(c, W):
    def model(spec):
        g = G(W)()
        for k, (t, n, tex) in enumerate(spec):
            i = W.np.zeros((3 * t,), dtype='uint32')
            v = W.np.zeros((3, n), dtype='float32')
            if tex:
                g.add_mesh(P28.T(W)(i, v, v, W.np.zeros((2, n), dtype='float32'), W.np.zeros((1, 1, 3), dtype='uint8')))
            else:
                g.add_mesh(P24.M(W)(i, v, v))
        return g
    specs = [[], [(1, 3, 0)], [(1, 3, 0), (2, 3, 0)], [(1, 3, 0), (1, 4, 0)], [(2, 3, 0), (1, 3, 0)], [(1, 3, 1)],
             [(1, 3, 1), (2, 3, 0)]]
    a, b = c.choice('a', specs), c.choice('b', specs)
    want = [(t, n) for t, n, _ in a] == [(t, n) for t, n, _ in b]
    c.check(bool(model(a).same_size(model(b))) == want, 'same size')


@REG.harness('any name, colour and factors; materials are added before and after a mesh', MODS)
def coloured(c, W):
    data, ms = build(c, W, 'p')
    first = c.choice('first', [0, 1])
    g = G(W)()
    if not first:
        g.add_mesh(ms[0])
    want = []
    for k in range(2):
        col = [c.real('c%d%d' % (k, j), 0, 1) for j in range(3)]
        met, rou = c.real('m%d' % k, 0, 1), c.real('r%d' % k, 0, 1)
        name = ['wood', 'Stoff \xe4'][k]
        i = g.add_colored_material(name, W.np.array(col), met, rou)
        c.check(i == k + (1 - first), 'number of the material')
        want.append((i, name, col, met, rou))
    if first:
        g.add_mesh(ms[0])
    holds(c, W, g, data, 'the mesh')
    d = seen(c, g)
    c.check(len(d['materials']) == 3, 'materials')
    c.check(prims(d)[0]['material'] == (2 if first else 0), 'the mesh keeps its material')
    for i, name, col, met, rou in want:
        m = d['materials'][i]
        c.check(m['name'] == name, 'name')
        p = m['pbr']
        c.check(set(p) == {'baseColorFactor', 'metallicFactor', 'roughnessFactor'}, 'properties')
        c.check(len(p['baseColorFactor']) == 4, 'colour has four components')
        for x, y in zip(p['baseColorFactor'], col + [1]):
            c.eq(x, y, 'colour')
        c.check(not isinstance(p['metallicFactor'], bool) and not isinstance(p['roughnessFactor'], bool), 'factors are numbers')
        c.eq(p['metallicFactor'], met, 'metallic')
        c.eq(p['roughnessFactor'], rou, 'roughness')


def picture(c, name, pixels):
    """a PNG file"""
    import cv2
    import numpy
    path = os.path.join(folder(c), name)
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    a = numpy.array(pixels, dtype=numpy.uint8)
    if not cv2.imwrite(path, a[:, :, ::-1] if a.shape[2] == 3 else a[:, :, [2, 1, 0, 3]]):
        raise IOError(path)


def folder(c):
    """a real scratch folder"""
    import tempfile
    if 'folder' not in c.user:
        c.user['folder'] = tempfile.mkdtemp(prefix='p27-')
    return c.user['folder']


def drop(c):
    import shutil
    if 'folder' in c.user:
        shutil.rmtree(c.user.pop('folder'))


def materials_of(d):
    return [d['materials'][q['material']] for q in prims(d)]


def colour_is(c, m, col, label):
    f = m['pbr'].get('baseColorFactor')
    if col is None:
        c.check(f is None, label + ': no colour')
        return
    c.check(f is not None and len(f) == 4, label + ': colour')
    for x, y in zip(f, list(col) + [1]):
        c.eq(x, y, label + ': colour')


@REG.harness('three meshes, of which any one gets any colour; lists shorter and longer than the model', MODS)
def new_colours(c, W):
    which = c.choice('which', [0, 1, 2])
    tail = c.choice('tail', [0, 1])
    data, ms = build(c, W, 'tpt')
    col = [c.real('c%d' % j, 0, 1) for j in range(3)]
    g = G(W)()
    for m in ms:
        g.add_mesh(m)
    before = seen(c, g)
    entry = {'color': W.np.array(col), 'uri': ''}
    mats = [None] * which + [entry] + ([None] * (2 - which) + [entry] if tail else [])
    c.check(outcome(g.update_materials, '/nowhere', mats)[0] == 'ok', 'materials are updated')
    holds(c, W, g, data, 'geometry and textures stay')
    after = seen(c, g)
    c.check(len(after['images']) == len(before['images']), 'no new image')
    black = all_(c, [x == 0 for x in col])
    for k, (p, q) in enumerate(zip(materials_of(before), materials_of(after))):
        for key in ('baseColorTexture', 'metallicRoughnessTexture'):
            c.check(p['pbr'].get(key) == q['pbr'].get(key), 'textures of the material')
        if k != which:
            colour_is(c, q, None, 'other mesh')
        elif bool(black):
            colour_is(c, q, None, 'zero means no colour')
        else:
            colour_is(c, q, col, 'given')
    if not bool(black):
        new = [c.real('n%d' % j, 0, 1) for j in range(3)]
        c.assume(any_(c, [x > 0.01 for x in new]))
        g.update_materials('', [None] * which + [{'color': W.np.array(new), 'uri': ''}])
        colour_is(c, materials_of(seen(c, g))[which], new, 'replaced')
        g.update_materials('', [None] * which + [{'color': W.np.array([0., 0, 0]), 'uri': ''}])
        colour_is(c, materials_of(seen(c, g))[which], new, 'kept')
    if which == 2:
        holds(c, W, g, data, 'geometry and textures at the end')


@REG.harness('a colour given to one of two meshes that then go through a second model', MODS)
def colours_travel(c, W):
    data, ms = build(c, W, 'tp')
    col = [c.real('c%d' % j, 0, 1) for j in range(3)]
    c.assume(col[1] > 0.01)
    which = c.choice('which', [0, 1])
    g, h = G(W)(), G(W)()
    for m in ms:
        g.add_mesh(m)
    g.update_materials('', [None] * which + [{'color': W.np.array(col), 'uri': ''}])
    first = c.choice('first', [0, 1])
    order = [1, 0] if first else [0, 1]
    e = g.primitive_meshes()
    c.check(bool(e[1 - which].has_same_material(ms[1 - which])) or which == 0, 'material of the other')
    c.check(not bool(e[which].has_same_material(ms[which])), 'material with the new colour')
    for k in order:
        h.add_mesh(e[k])
    holds(c, W, h, [data[k] for k in order], 'second model')
    for k, m in zip(order, materials_of(seen(c, h))):
        colour_is(c, m, col if k == which else None, 'second model')


PIX = {3: [[[10, 20, 30], [40, 50, 60], [70, 80, 90]], [[1, 2, 3], [4, 5, 6], [7, 8, 9]]],
       4: [[[10, 20, 30, 255], [40, 50, 60, 255]]]}


@REG.harness('a texture from a file (three or four channels, with and without folder in its name) for one of 2 meshes, '
             'with any colour or none', MODS)
def new_textures(c, W):
    which, depth = c.choice('which', [0, 1]), c.choice('depth', [3, 4])
    uri = c.choice('uri', ['x.png', 'deep/two/x.y.png'])
    given = c.choice('given', [0, 1])
    data, ms = build(c, W, 'tt')
    col = [c.real('c%d' % j, 0, 1) for j in range(3)] if given else [0.0, 0.0, 0.0]
    if given:
        c.assume(any_(c, [x > 0.01 for x in col]))
    g = G(W)()
    for m in ms:
        g.add_mesh(m)
    try:
        picture(c, uri, PIX[depth])
        r = outcome(g.update_materials, folder(c), [None] * which + [{'color': W.np.array(col), 'uri': uri}])
    finally:
        drop(c)
    c.check(r[0] == 'ok', 'the texture is read')
    c.check(g.num_images() == 5 and g.image_uri(4) == '4.png', 'a new image')
    c.check(g.image_size(4) == sum(len(p) for row in PIX[depth] for p in row), 'of the size of the file')
    d = seen(c, g)
    for k, m in enumerate(materials_of(d)):
        colour_is(c, m, col if k == which and given else None, 'mesh %d' % k)
    for k, (m, x) in enumerate(zip(g.primitive_meshes(), data)):
        P28.geometry(c, m, x, 'geometry')
        same_image(c, m.metallic_roughness(), x.rough, 'roughness stays')
        same_image(c, m.base_color(), [[p[:3] for p in row] for row in PIX[depth]] if k == which else x.base, 'base colour')


@REG.harness('texture files that are absent, empty or no image', MODS)
def bad_textures(c, W):
    what = c.choice('what', ['absent', 'empty', 'text'])
    data, ms = build(c, W, 't')
    g = G(W)()
    g.add_mesh(ms[0])
    try:
        if what != 'absent':
            with open(os.path.join(folder(c), 'a.png'), 'wb') as f:
                f.write(b'' if what == 'empty' else b'this is not a picture at all, it is text')
        r = outcome(g.update_materials, folder(c), [{'color': W.np.array([1., 1., 1.]), 'uri': 'a.png'}])
    finally:
        drop(c)
    c.check(r[0] == 'RuntimeError', 'error for a file that is ' + what)
    holds(c, W, g, data, 'the model still has its mesh')
    c.check(g.num_images() == 2, 'no image was added')
    colour_is(c, materials_of(seen(c, g))[0], None, 'no colour')


@REG.harness('the example model', MODS)
def example(c, W):
    g, t = G(W).example(), P28.T(W).example()
    m = g.extract_textured_primitive_mesh()
    c.check(g.num_primitive_meshes() == 1 and bool(m.same_size(t)) and bool(m.has_same_material(t)), 'one example mesh')
    for f in ('indices', 'vertices', 'normals', 'uv_coords', 'base_color', 'metallic_roughness'):
        c.check(bool(W.np.all(getattr(m, f)() == getattr(t, f)())), f)


KIND = {'float': ('f', 4, 5126), 'unsigned int': ('I', 4, 5125), 'unsigned short': ('H', 2, 5123),
        'unsigned char': ('B', 1, 5121)}
SHAPE = {1: 'SCALAR', 2: 'VEC2', 3: 'VEC3'}


class Scene(object):
    """a glTF document; buffers are lists of (kind, values)"""
    def __init__(self):
        self.buffers, self.views, self.accessors, self.meshes = [[]], [], [], []
        self.materials, self.textures, self.images = [], [], []

    def size(self, b):
        return sum(KIND[k][1] * len(v) for k, v in self.buffers[b])

    def put(self, kind, rows, pad=0, buffer=0, inner=0):
        """an accessor for these rows; pad bytes before the view, inner bytes before the data in the view"""
        while len(self.buffers) <= buffer:
            self.buffers.append([])
        if pad:
            self.buffers[buffer].append(('unsigned char', [170] * pad))
        start = self.size(buffer)
        if inner:
            self.buffers[buffer].append(('unsigned char', [85] * inner))
        flat = [x for r in rows for x in r]
        self.buffers[buffer].append((kind, flat))
        self.views.append((buffer, start, self.size(buffer) - start))
        self.accessors.append([len(self.views) - 1, inner, KIND[kind][2], len(rows), len(rows[0])])
        return len(self.accessors) - 1

    def texture(self, source):
        self.textures.append(source)
        return len(self.textures) - 1

    def real(self, c, W):
        path = tmpfile(c, 'scene.gltf')
        d = os.path.dirname(path)
        doc = {'asset': {'version': '2.0'}, 'scene': 0, 'scenes': [{'nodes': list(range(len(self.meshes)))}],
               'nodes': [{'mesh': i} for i in range(len(self.meshes))], 'buffers': []}
        for b, parts in enumerate(self.buffers):
            raw = b''.join(struct.pack('<%d%s' % (len(v), KIND[k][0]), *v) for k, v in parts)
            with open(os.path.join(d, 'b%d.bin' % b), 'wb') as f:
                f.write(raw)
            doc['buffers'].append({'uri': 'b%d.bin' % b, 'byteLength': len(raw)})
        doc['bufferViews'] = [{'buffer': b, 'byteOffset': o, 'byteLength': n} for b, o, n in self.views]
        doc['accessors'] = [{'bufferView': v, 'byteOffset': o, 'componentType': t, 'count': n, 'type': SHAPE[k]}
                            for v, o, t, n, k in self.accessors]
        doc['meshes'] = [{'primitives': [{'attributes': a, 'indices': i, 'material': m, 'mode': 4} for a, i, m in ps]}
                         for ps in self.meshes]
        doc['materials'] = [{'name': 'm', 'pbrMetallicRoughness': {
            k: ({'index': v} if k.endswith('Texture') else v) for k, v in m.items()}} for m in self.materials]
        if self.textures:
            doc['textures'] = [{'source': s} for s in self.textures]
        if self.images:
            import cv2
            import numpy
            for i, im in enumerate(self.images):
                a = numpy.array(im, dtype=numpy.uint8)
                cv2.imwrite(os.path.join(d, 'i%d.png' % i), a[:, :, {1: [0], 3: [2, 1, 0], 4: [2, 1, 0, 3]}[
                    a.shape[2]]])
            doc['images'] = [{'uri': 'i%d.png' % i} for i in range(len(self.images))]
        with open(path, 'w') as f:
            json.dump(doc, f)
        return G(W).load_from_gltf(path)

    def model(self, c, W):
        if c.concrete:
            return self.real(c, W)
        from symex import cppast
        new = lambda n, **f: fill(cppast.PROG.construct('tinygltf::' + n, []), f)

        def fill(o, f):
            for k, v in f.items():
                if isinstance(v, list):
                    o.f[k].extend(v)
                elif isinstance(v, dict):
                    o.f[k].update(v)
                else:
                    o.f[k] = v
            return o

        def param(k, v):
            if k.endswith('Texture'):
                return new('Parameter', json_double_value={b'index': float(v)})
            if isinstance(v, list):
                return new('Parameter', number_array=v)
            return new('Parameter', number_value=v, has_number_value=True)
        g = G(W)()
        p = g.c_ptr
        for parts in self.buffers:
            raw = []
            for k, vs in parts:
                n = KIND[k][1]
                raw += [x if n == 1 else cppast.ByteTok(x, j, k) for x in vs for j in range(n)]
            p.buffers.append(new('Buffer', data=raw))
        for b, o, n in self.views:
            p.bufferViews.append(new('BufferView', buffer=b, byteOffset=o, byteLength=n, byteStride=0, target=0))
        for v, o, t, n, k in self.accessors:
            p.accessors.append(new('Accessor', bufferView=v, byteOffset=o, componentType=t, count=n,
                                   type={1: 65, 2: 2, 3: 3}[k]))
        for ps in self.meshes:
            m = new('Mesh')
            for a, i, mat in ps:
                m.f['primitives'].append(new('Primitive', attributes={k.encode(): v for k, v in a.items()}, indices=i,
                                             material=mat, mode=4))
            p.meshes.append(m)
            p.nodes.append(new('Node', mesh=len(p.meshes) - 1))
        for m in self.materials:
            p.materials.append(new('Material', name=b'm', values={k.encode(): param(k, v) for k, v in m.items()}))
        for s in self.textures:
            p.textures.append(new('Texture', source=s))
        for im in self.images:
            p.images.append(new('Image', width=len(im[0]), height=len(im), component=len(im[0][0]),
                                image=[x for r in im for px in r for x in px]))
        return g


def image4(c, name, h, w):
    return [[p + [c.int('%sa%d%d' % (name, i, j), 0, 255)] for j, p in enumerate(r)]
            for i, r in enumerate(image(c, name, h, w))]


@REG.harness('a stored scene of 2 meshes with 3 primitives: shared vertices, indices of 8, 16 or 32 bits, data at '
             'offsets in two buffers, shared material, images in another order and with alpha', MODS)
def stored_scenes(c, W):
    kind = c.choice('kind', ['unsigned short', 'unsigned int', 'unsigned char'])
    swap = c.choice('swap', [0, 1])
    d = TData(c, 'a', 2, 4, (2, 1), (1, 2))
    e = TData(c, 'b', 1, 3, (1, 1), (1, 1))
    k = [c.int('k%d' % j, 0, 3) for j in range(3)]
    s = Scene()
    wide = image4(c, 'w', 2, 1)
    s.images = [image(c, 'unused', 1, 1), e.base, d.rough, wide]
    unused = s.texture(0)
    tb, tr, tw = s.texture(1), s.texture(2), s.texture(3)
    s.materials = [{'baseColorTexture': tw, 'metallicRoughnessTexture': tr}, {'baseColorFactor': [0.25, 0.5, 0.75, 1.0]},
                   {'baseColorTexture': tb}]
    s.put('float', [[1.0, 2.0, 3.0]])
    nb = s.put('float', d.n, pad=4, buffer=1, inner=8)
    ib = s.put(kind, [[x] for x in d.i], pad=4, inner=4 if swap else 0)
    if kind != 'unsigned int':
        s.buffers[0].append(('unsigned char', [7] * (-s.size(0) % 4)))
    vb = s.put('float', d.v, inner=0 if swap else 12)
    ub = s.put('float', d.u, pad=8, buffer=1)
    i2 = s.put('unsigned int', [[x] for x in k], buffer=1)
    ve, ne, ue = s.put('float', e.v), s.put('float', e.n, pad=4), s.put('float', e.u)
    ie = s.put('unsigned short', [[x] for x in e.i], inner=2)
    first = [({'POSITION': vb, 'NORMAL': nb, 'TEXCOORD_0': ub}, ib, 0), ({'POSITION': vb, 'NORMAL': nb}, i2, 1)]
    second = [({'POSITION': ve, 'NORMAL': ne, 'TEXCOORD_0': ue}, ie, 2)]
    s.meshes = [second, first] if swap else [first, second]
    g = s.model(c, W)
    c.check(g.num_primitive_meshes() == 3 and g.num_nodes() == 2, 'counts')
    ms = g.primitive_meshes()
    a, b, o = (ms[1], ms[2], ms[0]) if swap else ms
    T = P28.T(W)
    c.check(len(ms) == 3 and isinstance(a, T) and not isinstance(b, T) and isinstance(o, T), 'types')
    P28.geometry(c, a, d, 'first primitive')
    same_image(c, a.base_color(), [[p[:3] for p in r] for r in wide], 'image with alpha')
    same_image(c, a.metallic_roughness(), d.rough, 'roughness')
    same_ids(c, b.indices(), k, 'second primitive')
    same_cols(c, b.vertices(), d.v, 'shared vertices')
    same_cols(c, b.normals(), d.n, 'shared normals')
    P28.geometry(c, o, e, 'other mesh')
    same_image(c, o.base_color(), e.base, 'base colour')
    c.check(o.metallic_roughness().size == 0, 'no roughness texture')
    h = G(W)()
    for m in ms:
        h.add_mesh(m)
    x, y, z = (lambda r: (r[1], r[2], r[0]) if swap else r)(h.primitive_meshes())
    P28.geometry(c, x, d, 'copied')
    same_image(c, x.base_color(), [[p[:3] for p in r] for r in wide], 'copied image')
    same_image(c, x.metallic_roughness(), d.rough, 'copied roughness')
    same_ids(c, y.indices(), k, 'copied primitive')
    P28.geometry(c, z, e, 'copied other mesh')
    same_image(c, z.base_color(), e.base, 'copied base colour')
    colour_is(c, materials_of(seen(c, h))[2 if swap else 1], [0.25, 0.5, 0.75], 'copied colour')


BAD = ['texture', 'texture source', 'no texture source', 'material', 'no material', 'view', 'no view', 'buffer', 'no buffer',
       'positions', 'normals', 'indices', 'no indices', 'channels']


@REG.harness('references to missing textures, images, materials, accessors, views or buffers; images of other shapes', MODS)
def bad_references(c, W):
    what = c.choice('what', BAD)
    s = Scene()
    s.images = [[[[1, 2, 3]]]]
    s.materials = [{'baseColorTexture': s.texture(0)}]
    v, n, u = s.put('float', [[0., 0, 0]] * 3), s.put('float', [[0., 0, 1]] * 3), s.put('float', [[0., 0]] * 3)
    i = s.put('unsigned int', [[0], [1], [2]])
    at, mat = {'POSITION': v, 'NORMAL': n, 'TEXCOORD_0': u}, 0
    if what == 'texture':
        s.materials[0]['baseColorTexture'] = 1
    elif what == 'texture source':
        s.textures = [1]
    elif what == 'no texture source':
        s.textures = [-1]
    elif what == 'material':
        mat = 1
    elif what == 'no material':
        mat = -1
    elif what in ('view', 'no view'):
        s.accessors[n][0] = 4 if what == 'view' else -1
    elif what in ('buffer', 'no buffer'):
        s.views[v] = (1 if what == 'buffer' else -1,) + s.views[v][1:]
    elif what == 'positions':
        del at['POSITION']
    elif what == 'normals':
        del at['NORMAL']
    elif what == 'indices':
        i = 4
    elif what == 'no indices':
        i = -1
    elif what == 'channels':
        s.images = [[[[1], [2]]]]
    s.meshes = [[(at, i, mat)]]
    r = outcome(s.model, c, W)
    if r[0] == 'ok':
        r = outcome(r[1].primitive_meshes)
    c.check(r[0] in ('ValueError', 'RuntimeError', 'IndexError', 'OSError'), 'an error for a wrong reference: ' + what)


@REG.harness('a stored scene of 2 meshes with 1 and 2 primitives and one common material; any primitive gets any colour',
             MODS)
def common_material(c, W):
    which = c.choice('which', [0, 1, 2])
    old = [c.real('o%d' % j, 0, 1) for j in range(3)]
    c.assume(old[0] > 0.01)
    col = [c.real('c%d' % j, 0, 1) for j in range(3)]
    c.assume(col[2] > 0.01)
    d, e = Data(c, 'a', 1, 3), Data(c, 'b', 2, 3)
    s = Scene()
    s.materials = [{'baseColorFactor': [0.5, 0.5, 0.5, 1.0]}, {'baseColorFactor': old + [1.0]}]
    q = []
    for x in (d, e):
        i = s.put('unsigned int', [[k] for k in x.i])
        v = s.put('float', x.v)
        q.append(({'POSITION': v, 'NORMAL': s.put('float', x.n)}, i, 1))
    s.meshes = [[q[0], q[1]], [q[1]]] if c.choice('split', [0, 1]) else [[q[0]], [q[1], q[1]]]
    g = s.model(c, W)
    c.check(outcome(g.update_materials, '', [None] * which + [{'color': W.np.array(col), 'uri': ''}])[0] == 'ok', 'updated')
    holds(c, W, g, [d, e, e], 'geometry')
    for k, m in enumerate(materials_of(seen(c, g))):
        colour_is(c, m, col if k == which else old, 'primitive %d' % k)
    c.check(g.num_nodes() == 2 and g.num_primitive_meshes() == 3, 'counts')


@REG.harness('a textured and a plain mesh added to a stored scene with two buffers and more images than textures; a '
             'texture from a file for any of the three', MODS)
def add_to_stored(c, W):
    which = c.choice('which', [0, 1])
    d, f, p = TData(c, 'a', 1, 3, (1, 2), (1, 1)), TData(c, 'b', 1, 4, (2, 1), (1, 1)), Data(c, 'c', 1, 3)
    s = Scene()
    s.images = [image(c, 'x', 1, 1), d.base, d.rough]
    s.materials = [{'baseColorTexture': s.texture(1), 'metallicRoughnessTexture': s.texture(2)}]
    s.put('float', [[1.0, 2.0, 3.0]])
    i = s.put('unsigned int', [[k] for k in d.i], buffer=1)
    s.meshes = [[({'POSITION': s.put('float', d.v), 'NORMAL': s.put('float', d.n, buffer=1), 'TEXCOORD_0': s.put('float', d.u)},
                  i, 0)]]
    g = s.model(c, W)
    g.add_mesh(P24.make(W, p))
    g.add_mesh(P28.make(W, f))
    holds(c, W, g, [d, p, f], 'added to a stored scene')
    c.check(g.num_nodes() == 3 and g.num_buffers() == 2 and g.num_images() == 5, 'counts')
    k = 2 * which
    try:
        picture(c, 'x.png', PIX[3])
        r = outcome(g.update_materials, folder(c), [None] * k + [{'color': W.np.array([0., 0, 0]), 'uri': 'x.png'}])
    finally:
        drop(c)
    c.check(r[0] == 'ok', 'the texture is read')
    ms = g.primitive_meshes()
    for j, (m, x) in enumerate(zip(ms, [d, p, f])):
        if j == k:
            P28.geometry(c, m, x, 'geometry')
            same_image(c, m.metallic_roughness(), x.rough, 'roughness stays')
            same_image(c, m.base_color(), PIX[3], 'new base colour')
        else:
            is_same(c, W, m, x, 'mesh %d stays' % j)


@REG.harness('a mesh of 1100 vertices (a few symbolic, any indices) and as many triangles, before a small textured mesh', MODS,
             timeout=600)
def large(c, W):
    n = 1100
    L = Data.__new__(Data)
    L.v = [[(k * 7 + j * 3) % 64 / 4. for j in range(3)] for k in range(n)]
    L.n = [[k % 2 * 1., 0., 1.] for k in range(n)]
    L.i = [(t // 3 + t % 3 * 5) % n for t in range(3 * n)]
    L.v[-1], L.i[-1] = pts(c, 'v', 1)[0], c.int('far', 0, 2 ** 32 - 1)
    t = TData(c, 'a', 1, 3)
    g = G(W)()
    g.add_mesh(P24.make(W, L))
    g.add_mesh(P28.make(W, t))
    holds(c, W, g, [L, t], 'added')
