"""Axis-aligned boxes: corners, containment, merging, meshes and XML form are consistent."""
import xml.etree.ElementTree as ET
from symex.api import *

REG = Registry()
FUNCTIONS = ['Box3d.__init__', 'corners', 'volume', 'center', 'point_in_box', 'merge', 'almost_equal', '__eq__',
             'to_mesh', 'to_textured_mesh', '_to_mesh_helper', 'to_xml', 'from_xml']
ASSUMPTIONS = ['printed decimals read back within half a unit of the last printed digit',
               'single precision is exact (no rounding)']
MODS = ['sumo.threedee.box_3d', 'sumo.base.vector']
BM = 'sumo.threedee.box_3d'


def B(W):
    return W.module(BM).Box3d


def corner(c, W, name, lo=-100, hi=100):
    return vec(c, W, name, 3, lo, hi)


def box(c, W, name):
    """(box, lo, hi) from two opposite corners in any order"""
    a, b = corner(c, W, name + 'a'), corner(c, W, name + 'b')
    bx = B(W)(a, b)
    return bx, [a[k] if a[k] <= b[k] else b[k] for k in range(3)], [b[k] if a[k] <= b[k] else a[k] for k in range(3)]


def given(c, W, name):
    """a box given by its minimum and extents, (box, lo, hi)"""
    lo = corner(c, W, name + 'l')
    hi = lo + vec(c, W, name + 'e', 3, 0, 100)
    return B(W)(lo, hi), lo, hi


def same3(c, a, b, label, tol=0):
    c.check(len(a) == 3, label + ' (three numbers)')
    for x, y in zip(a, b):
        c.check(close(c, x, y, tol), label)


@REG.harness(bounds='any two corners in [-100, 100]^3', mods=MODS)
def corners(c, W):
    b, lo, hi = box(c, W, 'b')
    same3(c, b.min_corner, lo, 'smallest coordinates whatever the order of the corners')
    same3(c, b.max_corner, hi, 'largest coordinates whatever the order of the corners')


@REG.harness(bounds='any box', mods=MODS)
def derived(c, W):
    b, lo, hi = given(c, W, 'b')
    c.check(close(c, b.volume(), (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])), 'volume is the product of the extents')
    same3(c, b.center(), [(x + y) / 2 for x, y in zip(lo, hi)], 'centre is midway')
    k = b.corners()
    c.check(tuple(k.shape) == (3, 8), 'eight corners as columns')
    order = ['llh', 'hlh', 'hhh', 'lhh', 'lll', 'hll', 'hhl', 'lhl']
    for j, o in enumerate(order):
        same3(c, k[:, j], [(lo if ch == 'l' else hi)[i] for i, ch in enumerate(o)], 'corners in the documented order')


@REG.harness(bounds='any box, any point', mods=MODS)
def contains(c, W):
    b, lo, hi = given(c, W, 'b')
    p = corner(c, W, 'p', -250, 250)
    if c.concrete and any(abs(p[i] - v[i]) < EPS for v in (lo, hi) for i in range(3)):
        raise NotApplicable()
    want = all_(c, [p[i] > lo[i] for i in range(3)] + [p[i] < hi[i] for i in range(3)])
    got = bool(b.point_in_box(p))
    c.check(want if got else not_(c, want), 'a point is inside iff strictly between the corners on every axis')


def merge(n):
    def h(c, W):
        bs = [given(c, W, 'b%d' % i) for i in range(n)]
        m = B(W).merge([b[0] for b in bs])
        for i in range(3):
            for b, lo, hi in bs:
                c.le(m.min_corner[i], lo[i], 'the merged box contains every box')
                c.le(hi[i], m.max_corner[i], 'the merged box contains every box')
            c.check(any_(c, [close(c, m.min_corner[i], lo[i]) for b, lo, hi in bs]), 'the merged box is tight')
            c.check(any_(c, [close(c, m.max_corner[i], hi[i]) for b, lo, hi in bs]), 'the merged box is tight')
        for b, lo, hi in bs:
            same3(c, b.min_corner, lo, 'merging leaves the boxes alone')
            same3(c, b.max_corner, hi, 'merging leaves the boxes alone')
    return h


for n in (1, 2, 3):
    REG.add(merge(n), 'merge_%d' % n, '%d boxes of any size and place' % n, MODS)


@REG.harness(bounds='no boxes', mods=MODS)
def merge_none(c, W):
    m = B(W).merge([])
    same3(c, m.min_corner, [0, 0, 0], 'nothing merges to the empty box')
    same3(c, m.max_corner, [0, 0, 0], 'nothing merges to the empty box')


@REG.harness(bounds='two boxes; each coordinate equal or any other value', mods=MODS)
def equality(c, W):
    b, lo, hi = given(c, W, 'b')
    c.check(bool(b == B(W)(hi, lo)), 'equal to the box of the same corners')
    c.check(bool(b.almost_equal(B(W)(hi, lo))), 'almost equal to the box of the same corners')
    i, top = c.choice('axis', [0, 1, 2]), c.bool('top')
    d = c.real('d', 0.0625, 10)
    o = [(hi if top else lo)[k] + (d if top else -d) if k == i else (hi if top else lo)[k] for k in range(3)]
    x = B(W)(lo, W.np.array(o)) if top else B(W)(W.np.array(o), hi)
    c.check(not bool(b == x), 'boxes that differ in one coordinate are not equal')
    c.check(not bool(b.almost_equal(x)), 'boxes that differ clearly are not almost equal')


class Rec(object):
    def __init__(self, *a):
        self.args = a


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def check_mesh(c, args, lo, hi, out):
    idx, vert, norm = args[:3]
    idx = [int(i) for i in idx.reshape(-1)]
    c.check(tuple(vert.shape) == (3, 24) and tuple(norm.shape) == (3, 24) and len(idx) == 36, 'two triangles on six sides')
    c.check(all(0 <= i < 24 for i in idx), 'indices refer to vertices')
    V = [[vert[k, j] for k in range(3)] for j in range(24)]
    N = [[norm[k, j] for k in range(3)] for j in range(24)]
    sgn = 1 if out else -1
    total = 0
    area = {}
    for t in range(12):
        ia, ib, ic = idx[3 * t:3 * t + 3]
        a, b, d = V[ia], V[ib], V[ic]
        n = cross([x - y for x, y in zip(b, a)], [x - y for x, y in zip(d, a)])
        # one axis is constant over the triangle, on the face that the normal points to
        nn = [float(x) for x in N[ia]]
        c.check(sorted(abs(x) for x in nn) == [0, 0, 1], 'unit axis normals')
        c.check(nn == [float(x) for x in N[ib]] == [float(x) for x in N[ic]], 'one normal per side')
        k = [abs(x) for x in nn].index(1)
        s = nn[k]
        side = hi if s * sgn > 0 else lo
        for p in (a, b, d):
            c.check(close(c, p[k], side[k]), 'the side that faces along the normal')
        for j in range(3):
            if j != k:
                c.check(all_(c, [any_(c, [close(c, p[j], lo[j]), close(c, p[j], hi[j])]) for p in (a, b, d)]),
                        'vertices are corners')
        c.check(close(c, n[k] * s, (hi[(k + 1) % 3] - lo[(k + 1) % 3]) * (hi[(k + 2) % 3] - lo[(k + 2) % 3])),
                'winding agrees with the normal')
        key = (k, s)
        area.setdefault(key, []).append((ia, ib, ic))
    c.check(sorted(area) == [(k, s) for k in range(3) for s in (-1.0, 1.0)] and all(len(v) == 2 for v in area.values()),
            'two triangles per side')
    for (k, s), ts in area.items():
        # the two triangles of a side meet in a diagonal and cover all four corners
        pts = [frozenset(t) for t in ts]
        c.check(len(pts[0] & pts[1]) == 2 and len(pts[0] | pts[1]) == 4, 'the triangles of a side share its diagonal')
        vs = [V[i] for i in sorted(pts[0] | pts[1])]
        for j in range(3):
            if j != k:
                c.check(close(c, sum(v[j] for v in vs), 2 * (lo[j] + hi[j])), 'a side covers its four corners')
        i, j = (k + 1) % 3, (k + 2) % 3
        p, q = [V[x] for x in sorted(pts[0] & pts[1])]
        c.check(close(c, (p[i] - q[i]) * (p[i] - q[i]), (hi[i] - lo[i]) * (hi[i] - lo[i])), 'the diagonal spans the side')
        c.check(close(c, (p[j] - q[j]) * (p[j] - q[j]), (hi[j] - lo[j]) * (hi[j] - lo[j])), 'the diagonal spans the side')


@REG.harness(bounds='any box, normals out or in', mods=MODS)
def mesh(c, W):
    b, lo, hi = given(c, W, 'b')
    out = c.bool('out')
    m = W.module(BM)
    with patched((m, 'Mesh', Rec)):
        check_mesh(c, b.to_mesh(out).args, lo, hi, out)
        if out:
            check_mesh(c, b.to_mesh().args, lo, hi, True)


@REG.harness(bounds='any box, normals out or in, any colour', mods=MODS)
def textured_mesh(c, W):
    b, lo, hi = given(c, W, 'b')
    out = c.bool('out')
    col = [c.int('col' + k, 0, 255) for k in 'rgb']
    m = W.module(BM)
    with patched((m, 'TexturedMesh', Rec)):
        a = b.to_textured_mesh(out, W.np.array(col, dtype='uint8').reshape(3, 1)).args
    check_mesh(c, a, lo, hi, out)
    uv, tex = a[3], a[4]
    c.check(tuple(uv.shape) == (2, 24), 'a texture coordinate per vertex')
    c.check(len(tex.shape) == 3 and tex.shape[2] == 3, 'an image of colours')
    for i in range(tex.shape[0]):
        for j in range(tex.shape[1]):
            same3(c, list(tex[i, j]), col, 'every texel has the colour')


@REG.harness(bounds='any box in [-100, 200]^3', mods=MODS)
def xml(c, W):
    b, lo, hi = given(c, W, 'b')
    node = ET.fromstring(ET.tostring(b.to_xml()))
    c.check(node.tag == 'box3d' and [e.tag for e in node] == ['corner1', 'corner2'], 'documented tags')
    if c.bool('swap'):
        k = list(node)
        for e in k:
            node.remove(e)
        node.extend(k[::-1])
    r = B(W).from_xml(node)
    same3(c, r.min_corner, lo, 'a box survives the XML form', 1e-5)
    same3(c, r.max_corner, hi, 'a box survives the XML form', 1e-5)


@REG.harness(bounds='each single structural fault of the XML form', mods=MODS)
def xml_faults(c, W):
    b, lo, hi = given(c, W, 'b')
    node = b.to_xml()
    f = c.choice('fault', ['tag', 'missing', 'extra', 'short', 'long', 'empty'])
    k = c.choice('corner', [0, 1])
    e = list(node)[k]
    if f == 'tag':
        node.tag = 'bounds'
    elif f == 'missing':
        node.remove(e)
    elif f == 'extra':
        ET.SubElement(node, 'corner3').text = e.text
    elif f == 'short':
        e.text = e.text.rsplit(',', 1)[0]
    elif f == 'long':
        e.text += ', 1'
    elif f == 'empty':
        e.text = ' '
    c.check(outcome(B(W).from_xml, node)[0] == 'RuntimeError', 'malformed box XML is refused')
