"""Panoramas unproject to the point cloud of the documented cube map."""
from symex.api import *
from checks.P24 import dot, cross

CPP = True
REG = Registry()
FUNCTIONS = ['Rgbdci360.__init__', 'Rgbdci360.create_point_cloud', 'create_point_cloud_', 'C++ createPointCloud, '
             'pointFromRange', 'C++ CubeMap (constructor, unproject, sensorOfPixel, pixelCoordinates)',
             'C++ sumo::PointCloud']
ASSUMPTIONS = ['ranges are exact reals; directions are compared within 1e-6 (they have irrational entries)',
               'the OpenCV matrices are views of the numpy arrays']
MODS = ['sumo.images.rgbdci_360', 'sumo.threedee.point_cloud']



def tiff(_):
    """the TIFF codec is not used here"""
    import types
    m = types.ModuleType('sumo.images.rgbd_tiff')
    m.MultiImagePageType = type('MultiImagePageType', (), {'RGB': 'rgb', 'Depth': 'depth', 'Category': 'category',
                                                           'Instance': 'instance'})
    return {'sumo.images.rgbd_tiff': m}


# forward, right and down of each face, in the order of the image; x is right, y down, z forward
X, Y, Z = (1, 0, 0), (0, 1, 0), (0, 0, 1)
FACES = [((0, 0, -1), (-1, 0, 0), Y), ((-1, 0, 0), Z, Y), (Z, X, Y), (X, (0, 0, -1), Y), ((0, -1, 0), X, Z),
         (Y, X, (0, 0, -1))]


def ray(n, row, col):
    f, r, d = FACES[col // n]
    u = (col % n + 0.5) / n * 2 - 1
    v = (row + 0.5) / n * 2 - 1
    q = [f[k] + u * r[k] + v * d[k] for k in range(3)]
    m = sum(x * x for x in q) ** 0.5
    return [x / m for x in q]


class Pano(object):
    def __init__(self, c, W, h, w, rng):
        np = W.np
        self.h, self.w = h, w
        self.range = rng
        self.rgb = [[[c.int('c%d_%d%s' % (i, j, k), 0, 255) for k in 'rgb'] for j in range(w)] for i in range(h)]
        R = W.module('sumo.images.rgbdci_360').Rgbdci360
        z = np.zeros((h, w), dtype='uint16')
        self.img = R(np.array(self.rgb, dtype='uint8').reshape(h, w, 3), np.array(rng, dtype='float32').reshape(h, w),
                     z, z)

    def check(self, c, all_points, valid):
        """valid(i, j): the range counts; the same value for all symbolic inputs of one path"""
        k = self.img.create_point_cloud(all_points)
        P, C = k.points(), k.colors()
        m = 0
        for i in range(self.h):
            for j in range(self.w):
                ok = valid(i, j)
                if not ok and not all_points:
                    continue
                c.check(m < k.num_points(), 'a point for each pixel with a valid range')
                if ok:
                    d = ray(self.h, i, j)
                    for a in range(3):
                        c.eq(P[a, m], d[a] * self.range[i][j], 'point at the range along the ray of the pixel centre',
                             tol=1e-4)
                        c.check(C[a, m] == self.rgb[i][j][a], 'colour of the pixel')
                else:
                    for a in range(3):
                        c.eq(P[a, m], 0, 'zero point for an invalid range')
                        c.check(C[a, m] == 0, 'black for an invalid range')
                m += 1
        c.check(k.num_points() == m and C.shape == (3, m), 'no other points')


def decide(c, x):
    return bool(x > 0)


@REG.harness('height 1: any six ranges and colours, with and without all points', MODS, stubs=tiff)
def one_row(c, W):
    allp = c.choice('all', [False, True])
    rng = [[c.real('r%d' % j, -4, 100) for j in range(6)]]
    p = Pano(c, W, 1, 6, rng)
    v = [decide(c, x) for x in rng[0]]
    p.check(c, allp, lambda i, j: v[j])


for h, tier in [(2, 'quick'), (3, 'quick'), (5, 'thorough'), (8, 'thorough')]:
    def f(c, W, h=h):
        allp = c.choice('all', [False, True])
        p = Pano(c, W, h, 6 * h, [[c.real('r%d_%d' % (i, j), 0.125, 100) for j in range(6 * h)] for i in range(h)])
        p.check(c, allp, lambda i, j: True)
    REG.add(f, 'height_%d' % h, 'height %d: every pixel has a positive range' % h, MODS, tier=tier, stubs=tiff)


@REG.harness('height 2: infinite, undefined, zero and negative ranges among positive ones, at every offset', MODS, stubs=tiff)
def invalid_ranges(c, W):
    inf = float('inf')
    kinds = ['p', inf, 'p', float('nan'), 'n', 0.0, 'p', -inf]
    s = c.choice('offset', list(range(len(kinds))))
    allp = c.choice('all', [False, True])
    rng = [[None] * 12 for _ in range(2)]
    for i in range(2):
        for j in range(12):
            k = kinds[(12 * i + j + s) % len(kinds)]
            rng[i][j] = c.real('r%d_%d' % (i, j), 0.125, 100) if k == 'p' else \
                c.real('r%d_%d' % (i, j), -100, -0.125) if k == 'n' else k
    p = Pano(c, W, 2, 12, rng)
    p.check(c, allp, lambda i, j: kinds[(12 * i + j + s) % len(kinds)] == 'p')


@REG.harness('height 2, image cut off after 1 to 11 columns', MODS, stubs=tiff)
def narrow(c, W):
    w = c.choice('width', [1, 2, 3, 7, 11])
    p = Pano(c, W, 2, w, [[c.real('r%d_%d' % (i, j), 0.125, 100) for j in range(w)] for i in range(2)])
    p.check(c, False, lambda i, j: True)


@REG.harness('height 1 or 2, one or more columns past the sixth face: an error, unless the ranges there are invalid', MODS, stubs=tiff)
def wide(c, W):
    h = c.choice('height', [1, 2])
    w = 6 * h + c.choice('extra', [1, 2, 5])
    good = c.choice('valid', [False, True])
    rng = [[c.real('r%d_%d' % (i, j), 0.125, 100) if j < 6 * h or good else 0.0 for j in range(w)] for i in range(h)]
    p = Pano(c, W, h, w, rng)
    if good:
        k, e = outcome(p.img.create_point_cloud)
        c.check(k in ('IndexError', 'RuntimeError'), 'pixels past the cube map raise an error')
    else:
        p.check(c, False, lambda i, j: j < 6 * h)


@REG.harness('images of other types and sizes are refused', MODS, stubs=tiff)
def bad_images(c, W):
    np = W.np
    R = W.module('sumo.images.rgbdci_360').Rgbdci360
    rgb, rng, z = np.zeros((2, 12, 3), dtype='uint8'), np.ones((2, 12), dtype='float32'), np.zeros((2, 12), dtype='uint16')
    ok = [rgb, rng, z, z]
    bad = [(0, np.zeros((2, 12), dtype='uint8')), (0, np.zeros((2, 12, 4), dtype='uint8')), (0, np.zeros((2, 12, 3))),
           (1, np.ones((2, 12))), (1, np.ones((2, 12, 1), dtype='float32')), (2, np.zeros((2, 12), dtype='uint8')),
           (2, np.zeros((2, 12, 1), dtype='uint16')), (3, np.zeros((2, 12), dtype='int16')), (3, np.zeros((24,), dtype='uint16'))]
    for i, x in bad:
        a = list(ok)
        a[i] = x
        c.check(outcome(R, *a)[0] == 'TypeError', 'TypeError for image %d' % i)
    for s in [(2, 6), (1, 12), (4, 24)]:
        k = outcome(R(rgb, np.ones(s, dtype='float32'), z, z).create_point_cloud)[0]
        c.check(k == 'ValueError', 'ValueError when colour and range sizes differ')


@REG.harness('height 4: ranges and colours of three pixels are any, the others are fixed, some of them invalid', MODS, stubs=tiff)
def tall(c, W):
    allp = c.choice('all', [False, True])
    h, w = 4, 24
    few = [(0, 23), (2, 9), (3, 23)]
    bad = [float('inf'), float('nan'), 0.0, -1.5]
    rng = [[bad[(i + j) // 7 % 4] if (3 * i + j) % 7 == 0 else 0.5 + (i * 5 + j * 3) % 32 / 4. for j in range(w)] for i in range(h)]
    for i, j in few:
        rng[i][j] = c.real('r%d_%d' % (i, j), -4, 100)
    real = c.int
    fixed = lambda n, lo, hi: real(n, lo, hi) if tuple(map(int, n[1:-1].split('_'))) in few else sum(map(ord, n)) * 7 % 256
    with patched((c, 'int', fixed)):
        p = Pano(c, W, h, w, rng)
    v = {(i, j): decide(c, rng[i][j]) if rng[i][j] == rng[i][j] and rng[i][j] != bad[0] else False
         for i in range(h) for j in range(w)}
    p.check(c, allp, lambda i, j: v[i, j])
