"""Colour, depth and label images survive the multi-page TIFF."""
import os
import struct
from symex.api import *
from symex import tiff as model

CPP = True
REG = Registry()
FUNCTIONS = ['rgbd_tiff.load', 'rgbd_tiff.save', '_validate', 'MultiImageTiff', 'opencv.wrap.mat*_from_array',
             'opencv.wrap.array_from_mat*', 'inverse_depth (image conversions)',
             'C++ readRgbdTiff, writeRgbdTiff, readImage, writeImage, readMetadata, writeMetadata, page names']
ASSUMPTIONS = ['libtiff and picojson are modelled: a directory holds the tags and row bytes it was given (the compression '
               'is lossless), numbers survive their JSON text; counterexamples are replayed with the real libraries',
               'depths and near planes are exact reals']
MODS = ['sumo.images.rgbd_tiff', 'sumo.images.multi_image_tiff', 'sumo.geometry.inverse_depth', 'sumo.opencv.wrap']
MAX = 65535
DEFAULT = 0.3


def T(W):
    return W.module('sumo.images.rgbd_tiff')


def grid(c, name, h, w, hi, ch=1):
    if ch == 1:
        return [[c.int('%s%d_%d' % (name, i, j), 0, hi) for j in range(w)] for i in range(h)]
    return [[[c.int('%s%d_%d%d' % (name, i, j, k), 0, hi) for k in range(ch)] for j in range(w)] for i in range(h)]


def arr(W, rows, kind):
    h, w = len(rows), len(rows[0])
    a = W.np.array(rows, dtype=kind)
    return a.reshape((h, w, 3) if isinstance(rows[0][0], list) else (h, w))


def same(c, a, rows, kind, label):
    h, w = len(rows), len(rows[0])
    ch = isinstance(rows[0][0], list)
    c.check(a is not None and tuple(a.shape) == ((h, w, 3) if ch else (h, w)) and str(a.dtype) == kind, label + ': shape and type')
    for i in range(h):
        for j in range(w):
            if ch:
                for k in range(3):
                    c.eq(a[i, j, k], rows[i][j][k], '%s pixel %d %d %d' % (label, i, j, k))
            else:
                c.eq(a[i, j], rows[i][j], '%s pixel %d %d' % (label, i, j))


def depth_is(c, a, inv, near, label, scale=MAX):
    """depth `near` / (inv / 65535), and infinity for 0"""
    h, w = len(inv), len(inv[0])
    c.check(tuple(a.shape) == (h, w) and str(a.dtype) == 'float32', label + ': shape and type')
    for i in range(h):
        for j in range(w):
            if inv[i][j] == 0:
                c.check(a[i, j] == float('inf'), '%s pixel %d %d is infinite' % (label, i, j))
            else:
                c.check(a[i, j] < 1e30, '%s pixel %d %d is finite' % (label, i, j))
                c.eq(a[i, j] * inv[i][j], near * scale, '%s pixel %d %d' % (label, i, j), 0 if near != DEFAULT else 0.01)


def depth_near(c, a, d, near, label):
    """the depth is the stored one to the resolution of 16-bit inverse depth"""
    for i in range(len(d)):
        for j in range(len(d[0])):
            l = '%s pixel %d %d' % (label, i, j)
            x, y = d[i][j], a[i, j]
            if x == 0:
                c.check(y == float('inf'), l + ': unknown depth is infinite')
            elif x <= near:
                c.eq(y, near, l + ': near plane')
            elif near * MAX < (x * 0.5):
                c.check(y == float('inf'), l + ': far depth is infinite')
            else:
                # |near * MAX / y - near * MAX / x| <= 1/2
                c.check(y < 1e30, l + ': finite')
                n = near * MAX
                c.check(all_(c, [(n * x - n * y) * 2 <= x * y * 1.000001, (n * y - n * x) * 2 <= x * y * 1.000001]),
                        l + ': resolution')


def nearplane(c, name='near'):
    """a near plane that a float holds"""
    n = c.real(name, 0.01, 4)
    if c.concrete:
        import numpy
        n = float(numpy.float32(n))
    return n


# -- files of other programs -------------------------------------------------------------------

class Page(object):
    def __init__(self, rows, bits, name=None, description=None, tags=()):
        self.rows, self.bits, self.name, self.description, self.tags = rows, bits, name, description, dict(tags)
        self.h, self.w = len(rows), len(rows[0])
        self.ch = len(rows[0][0]) if isinstance(rows[0][0], list) else 1

    def flat(self, y):
        return [v for p in self.rows[y] for v in (p if isinstance(p, list) else [p])]


def put(c, path, pages):
    """writes a TIFF without the code under test"""
    if not c.concrete:
        from symex import core, cppast
        ds = []
        for p in pages:
            d = model.Dir()
            d.tags = {model.WIDTH: p.w, model.LENGTH: p.h, model.SAMPLES: p.ch, model.BITS: p.bits, model.PLANAR: 1,
                      model.COMPRESSION: 1, model.SAMPLEFORMAT: 1}
            if p.name is not None:
                d.tags[model.PAGENAME] = p.name.encode()
            if p.description is not None:
                d.tags[model.DESCRIPTION] = p.description.encode()
            d.tags.update(p.tags)
            for y in range(p.h):
                d.rows[y] = [b for v in p.flat(y) for b in
                             ([v] if p.bits == 8 else [cppast.ByteTok(v, 0, 'unsigned short'),
                                                       cppast.ByteTok(v, 1, 'unsigned short')])]
            ds.append(d)
        core.CTX.user.setdefault('tiff', {})[path] = ds
        return
    out = bytearray(b'II*\0\0\0\0\0')
    link = 4
    for p in pages:
        data = b''.join(struct.pack('<B' if p.bits == 8 else '<H', int(v)) for y in range(p.h) for v in p.flat(y))
        texts = {}
        for tag, s in ((model.PAGENAME, p.name), (model.DESCRIPTION, p.description)):
            if s is not None:
                texts[tag] = s.encode() + b'\0'
        start = len(out)
        out += data + b'\0' * (len(data) % 2)
        tags = {model.WIDTH: (4, 1, p.w), model.LENGTH: (4, 1, p.h), model.COMPRESSION: (3, 1, 1),
                262: (3, 1, 2 if p.ch == 3 else 1), 273: (4, 1, start), model.SAMPLES: (3, 1, p.ch),
                model.ROWSPERSTRIP: (4, 1, p.h), 279: (4, 1, len(data)), model.PLANAR: (3, 1, 1),
                model.SAMPLEFORMAT: (3, 1, 1)}
        if p.ch == 1:
            tags[model.BITS] = (3, 1, p.bits)
        else:
            tags[model.BITS] = (3, p.ch, len(out))
            out += struct.pack('<%dH' % p.ch, *[p.bits] * p.ch) + b'\0' * (p.ch * 2 % 4)
        for tag, s in texts.items():
            if len(s) <= 4:
                tags[tag] = (2, len(s), int.from_bytes(s.ljust(4, b'\0'), 'little'))
            else:
                tags[tag] = (2, len(s), len(out))
                out += s + b'\0' * (len(s) % 2)
        out += b'\0' * (len(out) % 2)
        for tag, v in p.tags.items():
            tags[tag] = (3, 1, v)
        out[link:link + 4] = struct.pack('<I', len(out))
        out += struct.pack('<H', len(tags))
        for tag in sorted(tags):
            out += struct.pack('<HHII', tag, *tags[tag])
        link = len(out)
        out += b'\0\0\0\0'
    with open(path, 'wb') as f:
        f.write(out)


# -- what is saved is what is loaded ----------------------------------------------------------------

SHAPES = [(1, 1), (2, 3), (3, 1)]
ORDERS = [('rgb', 'invdepth', 'category', 'instance'), ('instance', 'category', 'invdepth', 'rgb'),
          ('category', 'rgb', 'instance', 'invdepth')]


def pages(c, h, w, want, depth_hi=MAX):
    data = {}
    for k in want:
        data[k] = grid(c, k[:2] + k[-1], h, w, 255 if k == 'rgb' else MAX, 3 if k == 'rgb' else 1)
    return data


KINDS = {'rgb': 'uint8', 'invdepth': 'uint16', 'category': 'uint16', 'instance': 'uint16', 'depth': 'float32'}


def loaded_is(c, back, data, near, label):
    c.check(set(back) == {'depth' if k == 'invdepth' else k for k in data}, label + ': pages')
    for k, rows in data.items():
        if k == 'invdepth':
            depth_is(c, back['depth'], rows, near, label + ' depth')
        elif k == 'depth':
            depth_near(c, back['depth'], rows, near, label + ' depth')
        else:
            same(c, back[k], rows, KINDS[k], '%s %s' % (label, k))


@REG.harness('images of 1x1, 2x3 and 3x1 symbolic pixels, all four pages in three orders of the dictionary, symbolic near plane (no unknown depth in the 2x3 image)', MODS)
def round_trip(c, W):
    h, w = c.choice('shape', SHAPES)
    order = c.choice('order', ORDERS)
    near = nearplane(c)
    data = pages(c, h, w, order)
    if h * w > 3:
        for row in data['invdepth']:
            for v in row:
                c.assume(v >= 1)
    images = {k: arr(W, data[k], KINDS[k]) for k in order}
    path = tmpfile(c, 'a.tif')
    T(W).save(images, path, near)
    loaded_is(c, T(W).load(path), data, near, 'loaded')
    for k in order:
        same(c, images[k], data[k], KINDS[k], 'saved %s unchanged' % k)


@REG.harness('every subset of the optional pages, 2x2 symbolic pixels', MODS)
def subsets(c, W):
    extra = c.choice('pages', [(), ('category',), ('instance',), ('category', 'instance')])
    near = nearplane(c)
    data = pages(c, 2, 2, ('rgb', 'invdepth') + extra)
    path = tmpfile(c, 'a.tif')
    T(W).save({k: arr(W, v, KINDS[k]) for k, v in data.items()}, path, near)
    loaded_is(c, T(W).load(path), data, near, 'loaded')


@REG.harness('a 1x2 depth image of symbolic depths up to 1e6 m, symbolic near plane', MODS, query_timeout=60000)
def depth_page(c, W):
    near = nearplane(c)
    d = [[c.real('d%d' % i, 0, 1e6) for i in range(2)]]
    if c.concrete:
        import numpy
        d = [[float(numpy.float32(x)) for x in d[0]]]
    data = {'rgb': grid(c, 'c', 1, 2, 255, 3), 'depth': d}
    path = tmpfile(c, 'a.tif')
    T(W).save({k: arr(W, v, KINDS[k]) for k, v in data.items()}, path, near)
    back = T(W).load(path)
    c.check(set(back) == {'rgb', 'depth'}, 'pages')
    same(c, back['rgb'], data['rgb'], 'uint8', 'rgb')
    I = W.module('sumo.geometry.inverse_depth')
    q = I.inverse_depth_map_of_depth_image(arr(W, d, 'float32'), near)
    depth_is(c, back['depth'], [[q[0, 0], q[0, 1]]], near, 'depth')


@REG.harness('a depth of every class (unknown, before the near plane, representable, too far), near plane 0.5', MODS, query_timeout=60000)
def depth_resolution(c, W):
    near = 0.5
    d = [[c.real('d', 0, 1e6)]]
    if c.concrete:
        import numpy
        d = [[float(numpy.float32(d[0][0]))]]
    path = tmpfile(c, 'a.tif')
    T(W).save({'rgb': arr(W, grid(c, 'c', 1, 1, 255, 3), 'uint8'), 'depth': arr(W, d, 'float32')}, path, near=near)
    depth_near(c, T(W).load(path)['depth'], d, near, 'depth')


@REG.harness('pages of different sizes', MODS)
def sizes(c, W):
    data = {'rgb': grid(c, 'r', 2, 1, 255, 3), 'invdepth': grid(c, 'd', 1, 2, MAX), 'category': grid(c, 'c', 1, 1, MAX),
            'instance': grid(c, 'i', 3, 1, MAX)}
    path = tmpfile(c, 'a.tif')
    near = nearplane(c)
    T(W).save({k: arr(W, v, KINDS[k]) for k, v in data.items()}, path, near)
    loaded_is(c, T(W).load(path), data, near, 'loaded')


@REG.harness('two files with their own near planes, one of them overwritten by fewer pages', MODS)
def files(c, W):
    n = [nearplane(c, 'n%d' % i) for i in range(3)]
    a = {'rgb': grid(c, 'ar', 1, 2, 255, 3), 'invdepth': grid(c, 'ad', 1, 2, MAX), 'category': grid(c, 'ac', 1, 2, MAX)}
    b = {'rgb': grid(c, 'br', 1, 1, 255, 3), 'invdepth': grid(c, 'bd', 1, 1, MAX), 'instance': grid(c, 'bi', 1, 1, MAX)}
    d = {'rgb': grid(c, 'dr', 1, 1, 255, 3), 'invdepth': grid(c, 'dd', 1, 1, MAX)}
    p, q = tmpfile(c, 'a.tif'), tmpfile(c, 'b.tif')
    for x, path, near in ((a, p, n[0]), (b, q, n[1])):
        T(W).save({k: arr(W, v, KINDS[k]) for k, v in x.items()}, path, near)
    loaded_is(c, T(W).load(p), a, n[0], 'first')
    T(W).save({k: arr(W, v, KINDS[k]) for k, v in d.items()}, p, n[2])
    loaded_is(c, T(W).load(p), d, n[2], 'overwritten')
    loaded_is(c, T(W).load(q), b, n[1], 'other')


@REG.harness('save without a near plane: 0.3', MODS)
def default_near(c, W):
    data = pages(c, 1, 2, ('rgb', 'invdepth'))
    path = tmpfile(c, 'a.tif')
    T(W).save({k: arr(W, v, KINDS[k]) for k, v in data.items()}, path)
    loaded_is(c, T(W).load(path), data, 0.3, 'loaded')


@REG.harness('loading twice gives independent images; a loaded file saved again is the same', MODS)
def again(c, W):
    data = pages(c, 1, 2, ORDERS[0])
    p, q = tmpfile(c, 'a.tif'), tmpfile(c, 'b.tif')
    near = nearplane(c)
    T(W).save({k: arr(W, v, KINDS[k]) for k, v in data.items()}, p, near)
    one, two = T(W).load(p), T(W).load(p)
    for k in ('rgb', 'category', 'instance', 'depth'):
        one[k][0, 0] = 1
    loaded_is(c, two, data, near, 'second')
    T(W).save({'rgb': two['rgb'], 'category': two['category'], 'instance': two['instance'],
               'invdepth': arr(W, data['invdepth'], 'uint16')}, q, near)
    loaded_is(c, T(W).load(q), data, near, 'copy')


@REG.harness('views with strides: written as they look or refused', MODS)
def strided(c, W):
    np = W.np
    data = {'rgb': grid(c, 'r', 2, 2, 255, 3), 'invdepth': grid(c, 'd', 2, 2, MAX), 'category': grid(c, 'c', 2, 2, MAX)}
    images = {k: arr(W, v, KINDS[k]) for k, v in data.items()}
    which = c.choice('which', ['rgb', 'invdepth', 'category'])
    how = c.choice('how', ['columns', 'rows', 'transposed', 'reversed'])
    full = np.zeros((4, 4, 3) if which == 'rgb' else (4, 4), dtype=KINDS[which])
    if how == 'transposed':
        t = np.array(np.transpose(images[which], (1, 0, 2) if which == 'rgb' else (1, 0)))
        v = np.transpose(t, (1, 0, 2) if which == 'rgb' else (1, 0))
    elif how == 'reversed':
        v = np.array(images[which][::-1])[::-1]
    else:
        v = full[1:3, :2] if how == 'columns' else full[::2, :2]
        v[:] = images[which]
    images[which] = v
    path = tmpfile(c, 'a.tif')
    o = outcome(lambda: T(W).save(images, path, 1.0))
    if o[0] != 'ok':
        c.check(isinstance(o[1], (ValueError, BufferError)), 'refused with %r' % (o[1],))
        return
    loaded_is(c, T(W).load(path), data, 1.0, 'loaded')


# -- files of earlier versions ---------------------------------------------------------------------

@REG.harness('two pages without names: by their channels; no metadata: near plane 1', MODS)
def unnamed(c, W):
    rgb, d = grid(c, 'r', 2, 2, 255, 3), grid(c, 'd', 2, 2, MAX)
    ps = [Page(rgb, 8), Page(d, 16)]
    if c.choice('order', [0, 1]):
        ps.reverse()
    path = tmpfile(c, 'a.tif')
    put(c, path, ps)
    loaded_is(c, T(W).load(path), {'rgb': rgb, 'invdepth': d}, 1.0, 'loaded')


@REG.harness('earlier page names, any order of pages', MODS)
def names(c, W):
    rgb, d, k, i = grid(c, 'r', 1, 2, 255, 3), grid(c, 'd', 1, 2, MAX), grid(c, 'k', 1, 2, MAX), grid(c, 'i', 1, 2, MAX)
    ps = [Page(rgb, 8, 'rgb'), Page(d, 16, c.choice('depth', ['depth', 'inv_depth'])),
          Page(k, 16, c.choice('label', ['semantic', 'category'])), Page(i, 16, 'instance')]
    near = nearplane(c)
    k0 = c.choice('first', [0, 1, 2, 3])
    ps = ps[k0:] + ps[:k0]
    ps[0].description = '{"near":%s,"version":1}' % (repr(near) if c.concrete else near)
    path = tmpfile(c, 'a.tif')
    put(c, path, ps)
    loaded_is(c, T(W).load(path), {'rgb': rgb, 'invdepth': d, 'category': k, 'instance': i}, near, 'loaded')


@REG.harness('metadata without version or near plane, with other keys, with integers, with spaces', MODS)
def metadata(c, W):
    rgb, d = grid(c, 'r', 1, 1, 255, 3), grid(c, 'd', 1, 1, MAX)
    near = nearplane(c)
    s = repr(near) if c.concrete else '%s' % near
    text, n = c.choice('text', [('{}', 1.0), ('{"version":1}', 1.0), ('{"near":%s}' % s, near), ('{"near": 2, "version": 0}', 2.0),
                                ('{ "other" : [1, {"near": 7}], "near" : %s , "version" : 1 }' % s, near), (None, 1.0)])
    path = tmpfile(c, 'a.tif')
    put(c, path, [Page(rgb, 8, 'rgb', text), Page(d, 16, 'inv_depth', '{"near":3}')])
    loaded_is(c, T(W).load(path), {'rgb': rgb, 'invdepth': d}, n, 'loaded')


@REG.harness('8-bit inverse depth is relative to a near plane of 1 m', MODS, query_timeout=60000)
def depth8(c, W):
    rgb, d = grid(c, 'r', 1, 1, 255, 3), [[c.int('d', 0, 255)]]
    path = tmpfile(c, 'a.tif')
    put(c, path, [Page(rgb, 8, c.choice('rgb', ['rgb', None])), Page(d, 8, c.choice('name', ['depth', None]))])
    back = T(W).load(path)
    c.check(set(back) == {'rgb', 'depth'}, 'pages')
    same(c, back['rgb'], rgb, 'uint8', 'rgb')
    a = back['depth']
    c.check(tuple(a.shape) == (1, 1) and str(a.dtype) == 'float32', 'shape and type')
    x = d[0][0]
    if x == 0:
        c.check(a[0, 0] == float('inf'), 'unknown depth is infinite')
    else:
        # depth 255 / x, to half a unit of 16-bit inverse depth at near plane 0.3
        n = 0.3 * MAX
        y = a[0, 0]
        c.check(all_(c, [y < 1e30, y > 0]), 'finite')
        c.check(all_(c, [(n * 255 - n * x * y) * 2 <= 255 * y * 1.0001, (n * x * y - n * 255) * 2 <= 255 * y * 1.0001]),
                'depth')


@REG.harness('8-bit labels are widened', MODS, optional=True)
def labels8(c, W):
    rgb, d, k = grid(c, 'r', 1, 2, 255, 3), grid(c, 'd', 1, 2, MAX), grid(c, 'k', 1, 2, 255)
    path = tmpfile(c, 'a.tif')
    put(c, path, [Page(rgb, 8, 'rgb'), Page(d, 16, 'depth'), Page(k, 8, 'semantic')])
    loaded_is(c, T(W).load(path), {'rgb': rgb, 'invdepth': d, 'category': k}, 1.0, 'loaded')


# -- errors --------------------------------------------------------------------------------------

def refused(c, fn, what, kinds=(Exception,)):
    o = outcome(fn)
    c.check(o[0] != 'ok' and isinstance(o[1], kinds), what + ' is an error: %r' % (o,))


@REG.harness('wrong types, shapes and pages are refused', MODS)
def bad_images(c, W):
    np = W.np
    case = c.choice('case', ['no rgb', 'no depth', 'grey rgb', 'four channels', 'rgb of uint16', 'rgb of float', 'depth of float64',
                             'depth of uint16', 'depth of 3 channels', 'invdepth of float32', 'invdepth of 3 channels',
                             'category of uint8', 'category of int32', 'category of 3 channels', 'instance of float32', 'unknown page'])
    im = {'rgb': arr(W, grid(c, 'r', 1, 2, 255, 3), 'uint8'), 'category': arr(W, grid(c, 'k', 1, 2, 200), 'uint16'),
          'instance': arr(W, grid(c, 'i', 1, 2, 200), 'uint16')}
    d = np.array([[1.5, 2.5]], dtype='float32')
    q = np.array([[7, 8]], dtype='uint16')
    if case.startswith('invdepth'):
        im['invdepth'] = q
    else:
        im['depth'] = d
    if case == 'no rgb':
        del im['rgb']
    elif case == 'no depth':
        del im['depth']
    elif case == 'grey rgb':
        im['rgb'] = np.zeros((1, 2), dtype='uint8')
    elif case == 'four channels':
        im['rgb'] = np.zeros((1, 2, 4), dtype='uint8')
    elif case == 'rgb of uint16':
        im['rgb'] = np.zeros((1, 2, 3), dtype='uint16')
    elif case == 'rgb of float':
        im['rgb'] = np.zeros((1, 2, 3), dtype='float32')
    elif case == 'depth of float64':
        im['depth'] = np.ones((1, 2), dtype='float64')
    elif case == 'depth of uint16':
        im['depth'] = q
    elif case == 'depth of 3 channels':
        im['depth'] = np.ones((1, 2, 3), dtype='float32')
    elif case == 'invdepth of float32':
        im['invdepth'] = d
    elif case == 'invdepth of 3 channels':
        im['invdepth'] = np.ones((1, 2, 3), dtype='uint16')
    elif case == 'category of uint8':
        im['category'] = np.zeros((1, 2), dtype='uint8')
    elif case == 'category of int32':
        im['category'] = np.zeros((1, 2), dtype='int32')
    elif case == 'category of 3 channels':
        im['category'] = np.zeros((1, 2, 3), dtype='uint16')
    elif case == 'instance of float32':
        im['instance'] = np.zeros((1, 2), dtype='float32')
    else:
        im['normals'] = np.zeros((1, 2), dtype='uint16')
    path = tmpfile(c, 'a.tif')
    refused(c, lambda: T(W).save(im, path, 1.0), case, (ValueError, KeyError, RuntimeError, TypeError))


@REG.harness('missing folders and files, files of another kind, unknown page names, other formats, missing pages, broken metadata', MODS)
def bad_files(c, W):
    rgb, d = grid(c, 'r', 1, 1, 255, 3), grid(c, 'd', 1, 1, MAX)
    case = c.choice('case', ['folder', 'file', 'empty', 'name', 'channels', 'bits', 'no depth', 'metadata list', 'metadata text',
                             'metadata empty', 'near text', 'version text'])
    path = tmpfile(c, 'a.tif')
    if case == 'folder':
        bad = os.path.join(os.path.dirname(path), 'missing', 'a.tif')
        refused(c, lambda: T(W).save({'rgb': arr(W, rgb, 'uint8'), 'invdepth': arr(W, d, 'uint16')}, bad, 1.0), case,
                (RuntimeError, OSError))
        return
    if case == 'file':
        refused(c, lambda: T(W).load(os.path.join(os.path.dirname(path), 'other.tif')), case, (RuntimeError, OSError))
        return
    ps = [Page(rgb, 8, 'rgb'), Page(d, 16, 'inv_depth')]
    if case == 'empty':
        ps = []
    elif case == 'name':
        ps[1].name = 'normals'
    elif case == 'channels':
        ps[0] = Page([[[c.int('x%d' % k, 0, 255) for k in range(4)]]], 8, 'rgb')
    elif case == 'bits':
        ps[1] = Page(d, 16, 'inv_depth')
        ps[1].tags[model.BITS] = 32
    elif case == 'no depth':
        ps = ps[:1]
    elif case == 'metadata list':
        ps[0].description = '[1, 2]'
    elif case == 'metadata text':
        ps[0].description = 'created by somebody'
    elif case == 'metadata empty':
        ps[0].description = ' '
    elif case == 'near text':
        ps[0].description = '{"near":"0.3"}'
    elif case == 'version text':
        ps[0].description = '{"near":0.3,"version":"1"}'
    put(c, path, ps)
    refused(c, lambda: T(W).load(path), case, (RuntimeError, ValueError, KeyError, IndexError, OSError))


# -- the class ------------------------------------------------------------------------------------------

@REG.harness('MultiImageTiff: attributes, saving and loading, for every subset of the optional pages', MODS)
def image_class(c, W):
    M = W.module('sumo.images.multi_image_tiff').MultiImageTiff
    extra = c.choice('pages', [(), ('category',), ('instance',), ('category', 'instance')])
    near = nearplane(c)
    data = pages(c, 1, 2, ('rgb', 'invdepth') + extra)
    m = M({k: arr(W, v, KINDS[k]) for k, v in data.items()})
    same(c, m.rgb, data['rgb'], 'uint8', 'rgb of the new object')
    c.check(m.range is None, 'no range yet')
    path = tmpfile(c, 'a.tif')
    if c.choice('near?', [0, 1]):
        m.save(path, near=near)
    else:
        m.save(path)
        near = 0.3
    b = M.load(path)
    same(c, b.rgb, data['rgb'], 'uint8', 'rgb')
    depth_is(c, b.range, data['invdepth'], near, 'range')
    for k, a in (('category', b.category), ('instance', b.instance)):
        if k in data:
            same(c, a, data[k], 'uint16', k)
        else:
            c.check(a is None, 'no ' + k)
    d = arr(W, [[1.0, 2.0]], 'float32')
    n = M({'depth': d})
    c.check(n.range is d and n.rgb is None and n.category is None and n.instance is None, 'attributes of an object with one image')


@REG.harness('images of 40 x 300 and 300 x 40 pixels, a few of them symbolic, all four pages', MODS, timeout=300)
def large(c, W):
    h, w = c.choice('shape', [(40, 300), (300, 40)])
    few = {(0, 0): 'a', (h - 1, w - 1): 'b', (h // 2, 5): 'd'}
    num = lambda s, i, j, k, top: c.int('%s%s%d' % (s, few[i, j], k), 0 if s != 'inv' else 1, top) if (i, j) in few else \
        (i * w + j) * (37 + k) % top + 1 - (s == 'rgb')
    data = {'rgb': [[[num('rgb', i, j, k, 255) for k in range(3)] for j in range(w)] for i in range(h)]}
    for k in ('invdepth', 'category', 'instance'):
        data[k] = [[num(k[:3], i, j, len(k), MAX) for j in range(w)] for i in range(h)]
    path = tmpfile(c, 'a.tif')
    T(W).save({k: arr(W, data[k], KINDS[k]) for k in data}, path, 0.5)
    back = T(W).load(path)
    c.check(set(back) == {'rgb', 'depth', 'category', 'instance'}, 'pages')
    spots = [(i, j) for i in range(h) for j in range(w) if (i, j) in few or (i * w + j) % 7 == 0 or j in (0, w - 1) or
             i in (0, h - 1) or 254 <= max(i, j) <= 258]
    for i, j in spots:
        for k in range(3):
            c.check(back['rgb'][i, j, k] == data['rgb'][i][j][k], 'colour')
        for k in ('category', 'instance'):
            c.check(back[k][i, j] == data[k][i][j], k)
        c.eq(back['depth'][i, j] * data['invdepth'][i][j], 0.5 * MAX, 'depth', 0.01)
