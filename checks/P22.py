"""glTF to GLB packing: container, padding, and every view and image keeps its bytes."""
import json
import os
import re
import struct
from symex.api import *
from checks.P14 import scratch, tree

REG = Registry()
FUNCTIONS = ['gltf2glb', 'BodyEncoder.add_to_body', 'GlbEncoder.export', 'GlbEncoder.export_string']
ASSUMPTIONS = ['file lengths cover every residue modulo 4; view offsets and lengths are any integers',
               'JSON numbers print and read back exactly']
MOD = 'sumo.threedee.glb_converter'


def js(c):
    """the json module, with symbolic numbers printed as quoted tokens"""
    def back(v):
        if isinstance(v, dict):
            return {k: back(x) for k, x in v.items()}
        if isinstance(v, list):
            return [back(x) for x in v]
        if isinstance(v, str) and not c.concrete and re.match(r'^<\d+>$', v):
            return c.user['text'][int(v[1:-1])]
        return v

    class J(object):
        JSONDecodeError = json.JSONDecodeError

        @staticmethod
        def loads(s, **k):
            return back(json.loads(s, **k))

        @staticmethod
        def load(f, **k):
            return back(json.load(f, **k))

        @staticmethod
        def dumps(x, **k):
            return json.dumps(x, default=str, **k)

        @staticmethod
        def dump(x, f, **k):
            return json.dump(x, f, default=str, **k)
    return J


def data(n, seed):
    return bytes((seed * 37 + 11 * i + 1) % 251 for i in range(n))


def up4(n):
    return n + (-n) % 4


def write(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def unpack(c, b, label='container'):
    """check the container; (json, body)"""
    c.check(len(b) >= 20 and struct.unpack('<I', b[:4])[0] == 0x46546C67, label + ': magic number')
    v, n, jn, jt = struct.unpack('<IIII', b[4:20])
    c.check(v == 2, label + ': version 2')
    c.check(n == len(b), label + ': total length')
    c.check(jt == 0x4E4F534A, label + ': first chunk is JSON')
    c.check(jn % 4 == 0 and 28 + jn <= len(b), label + ': JSON chunk is padded to 4 bytes')
    bn, bt = struct.unpack('<II', b[20 + jn:28 + jn])
    c.check(bt == 0x004E4942, label + ': second chunk is binary')
    c.check(bn % 4 == 0 and 28 + jn + bn == len(b), label + ': binary chunk is padded to 4 bytes and is the last')
    return js(c).loads(b[20:20 + jn].decode('utf-8')), b[28 + jn:]


def run(c, W, d, g, out=None, name='m.gltf'):
    J = js(c)
    p = os.path.join(d, name)
    write(p, J.dumps(g).encode('utf-8'))
    with patched((W.module(MOD), 'json', J)):
        W.module(MOD).gltf2glb(p, out)
    with open(out or p[:-5] + '.glb', 'rb') as f:
        return unpack(c, f.read())


def same_json(c, a, b, label):
    c.check(type(a) is type(b) or not isinstance(a, (dict, list, str)), label)
    if isinstance(a, dict):
        c.check(set(a) == set(b), label)
        for k in a:
            same_json(c, a[k], b[k], label)
    elif isinstance(a, list):
        c.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            same_json(c, x, y, label)
    elif isinstance(a, (str, bool)) or a is None:
        c.check(a == b, label)
    else:
        c.check(all_(c, [a == b]), label)


def views(c, lens, n):
    """n views of any part of their buffer; offset and length may be left out"""
    r = []
    for j in range(n):
        k = c.choice('v%db' % j, list(range(len(lens))))
        v = {'buffer': k, 'target': 34962 + j}
        off = 0
        if c.bool('v%dhas' % j):
            off = v['byteOffset'] = c.int('v%do' % j, 0, max(lens))
            c.assume(off <= lens[k])
        v['byteLength'] = c.int('v%dn' % j, 0, max(lens))
        c.assume(v['byteLength'] + off <= lens[k])
        r.append(v)
    return r


def check_views(c, out, vs, starts, label):
    c.check(len(out) >= len(vs), label + ': no view is lost')
    for a, v in zip(out, vs):
        c.check(all_(c, [a['buffer'] == 0]), label + ': every view refers to the binary chunk')
        c.eq(a.get('byteOffset', 0), v.get('byteOffset', 0) + starts[v['buffer']], label + ': the view keeps its bytes')
        c.eq(a['byteLength'], v['byteLength'], label + ': the view keeps its bytes')
        c.check(a['target'] == v['target'], label + ': other fields of a view are kept')


def check_body(c, body, lens, seeds, label):
    """the parts in order, each aligned; their starts"""
    starts, p = [], 0
    for n, s in zip(lens, seeds):
        starts.append(p)
        c.check(bytes(body[p:p + n]) == data(n, s), label + ': every byte is kept')
        p += up4(n)
    c.check(len(body) == p, label + ': nothing else in the binary chunk')
    return starts


def convert(lens_list, nv, images, tag):
    def h(c, W):
        lens = c.choice('lens', lens_list)
        imgs = c.choice('images', images)
        pad, declared = c.choice('pad', [(0, True), (1, False), (2, True), (3, False)])
        vs = views(c, lens, nv)
        g = {'asset': {'version': '2.0', 'generator': 'x' * pad + '\u00fc'}, 'scene': 0, 'scenes': [{'nodes': [0]}],
             'accessors': [{'bufferView': 0, 'count': c.int('count', 0, 2 ** 40), 'type': 'VEC3', 'min': [0.5, -1.25, 3]}],
             'buffers': [], 'bufferViews': vs}
        with scratch() as d:
            for k, n in enumerate(lens):
                write(os.path.join(d, 'b%d.bin' % k), data(n, k))
                g['buffers'].append({'uri': 'b%d.bin' % k})
                if declared:
                    g['buffers'][-1]['byteLength'] = n
            if imgs is not None:
                g['images'] = []
                for k, (n, ext, mime) in enumerate(imgs):
                    if mime is None:
                        g['images'].append({'bufferView': 0, 'mimeType': 'image/png'})
                        continue
                    write(os.path.join(d, 'i%d.%s' % (k, ext)), data(n, 10 + k))
                    g['images'].append({'uri': 'i%d.%s' % (k, ext), 'name': 'img%d' % k})
            want = json.loads(json.dumps({k: g[k] for k in ('asset', 'scene', 'scenes')}))
            acc = [dict(g['accessors'][0])]
            before = None
            o, body = run(c, W, d, g, c.choice('out', [None, os.path.join(d, 'else.glb')]) if len(lens) == 1 else None)
            files = [(n, 10 + k) for k, (n, e, m) in enumerate(imgs or []) if m]
            starts = check_body(c, body, list(lens) + [n for n, s in files], list(range(len(lens))) + [s for n, s in files],
                                'conversion')
            check_views(c, o['bufferViews'], vs, starts, 'conversion')
            c.check(len(o['buffers']) == 1 and 'uri' not in o['buffers'][0], 'one buffer, the binary chunk')
            c.check(all_(c, [o['buffers'][0]['byteLength'] == len(body)]), 'declared length of the binary chunk')
            for k in want:
                same_json(c, o[k], want[k], 'everything else is kept')
            same_json(c, o['accessors'], acc, 'everything else is kept')
            c.check(set(o) == set(g), 'everything else is kept')
            if imgs is not None:
                c.check(len(o['images']) == len(imgs), 'no image is lost')
                p, j = len(lens), len(vs)
                for k, (im, (n, ext, mime)) in enumerate(zip(o['images'], imgs)):
                    if mime is None:
                        same_json(c, im, {'bufferView': 0, 'mimeType': 'image/png'}, 'stored images are kept')
                        continue
                    c.check('uri' not in im and im['mimeType'] == mime and im['name'] == 'img%d' % k,
                            'an image is stored, with its type')
                    v = o['bufferViews'][im['bufferView']]
                    c.check(im['bufferView'] == j, 'every image has its own view')
                    c.check(all_(c, [v['buffer'] == 0, v['byteOffset'] == starts[p]]), 'the view of an image holds its bytes')
                    c.check(all_(c, [v['byteLength'] >= n, v['byteLength'] <= up4(n)]),
                            'the view of an image holds its bytes')
                    p, j = p + 1, j + 1
                c.check(len(o['bufferViews']) == j, 'no other views')
            else:
                c.check(len(o['bufferViews']) == len(vs), 'no other views')
    REG.add(h, tag, '%d views with any offset and length; buffers of %s bytes; images %s'
            % (nv, lens_list, [[n for n, e, m in i or []] for i in images]), [MOD])


convert([(0,), (1,), (4,), (6,), (7,)], 2, [None], 'one_buffer')
convert([(3, 4), (4, 2), (5, 0)], 2, [None], 'two_buffers')
convert([(1, 6, 3)], 2, [None], 'three_buffers')
convert([(70001, 3, 66000)], 2, [[(67003, 'png', 'image/png')]], 'large_buffers')
P, Q = ('png', 'image/png'), ('jpg', 'image/jpeg')
convert([(6,), (8,)], 1, [[(5,) + P], [(4,) + Q], [(3,) + P, (6,) + Q], []], 'images')
convert([(2, 5)], 1, [[(7,) + Q, (1,) + P, (4,) + P], [(5, 'jpeg', 'image/jpeg'), (2, 'JPG', 'image/jpeg')], [(0, '', None), (3,) + P]], 'buffers_and_images')


@REG.harness(bounds='up to 4 parts of 0 to 5 bytes', mods=[MOD])
def encoder(c, W):
    with scratch() as d:
        e = W.module(MOD).BodyEncoder(d)
        at = 0
        n = c.choice('parts', [1, 2, 3])
        declared = c.choice('declared', [None, 0, 99])
        lens = [c.choice('n%d' % k, [0, 1, 3, 4, 6] if k < 2 else [2, 5]) for k in range(n)]
        for k, x in enumerate(lens):
            write(os.path.join(d, 'f%d' % k), data(x, k))
            off, length = e.add_to_body('f%d' % k, declared)
            c.check(off == at and length == up4(x), 'offset and padded length of the part')
            at += up4(x)
            c.check(e.body_length == at, 'running length')
        h = bytearray(b'{"a":"' + b'b' * c.choice('pad', [0, 1, 2, 3]) + b'"}')
        want = json.loads(h.decode())
        g = W.module(MOD).GlbEncoder(h, e)
        p = os.path.join(d, 'o.glb')
        g.export(p)
        with open(p, 'rb') as f:
            b = f.read()
        o, body = unpack(c, b)
        c.check(o == want, 'the header is kept')
        check_body(c, body, lens, range(n), 'export')
        c.check(bytes(W.module(MOD).GlbEncoder(bytearray(h), e).export_string()) == b, 'exporting again gives the same bytes')


@REG.harness(bounds='wrong extension, empty or missing data files', mods=[MOD])
def refused(c, W):
    how = c.choice('how', ['extension', 'no input', 'no buffer file', 'no image file', 'empty image uri'])
    with scratch() as d:
        g = {'asset': {}, 'buffers': [{'uri': 'b.bin', 'byteLength': 4}], 'bufferViews': []}
        write(os.path.join(d, 'b.bin'), data(4, 0))
        if how.endswith('image file'):
            g['images'] = [{'uri': 'gone.png'}]
        elif how == 'empty image uri':
            g['images'] = [{'uri': ''}]
        p = os.path.join(d, 'm.json' if how == 'extension' else 'm.gltf')
        if how != 'no input':
            write(p, json.dumps(g).encode())
        if how == 'no buffer file':
            os.remove(os.path.join(d, 'b.bin'))
        before = tree(d)
        try:
            k = outcome(W.module(MOD).gltf2glb, p)[0]
        except SystemExit:
            k = 'exit'
        if how == 'extension':
            c.check(k == 'exit', 'only .gltf files')
        elif how == 'empty image uri':
            c.check(k == 'ValueError', 'an empty image uri is refused')
        else:
            c.check(k in ('FileNotFoundError', 'OSError', 'IOError'), 'a missing file is an IO error')
        c.check(tree(d) == before, 'nothing is written on failure')
