"""Inverse-depth codec: decoding, nearest-value encoding, round trips, saturation, image forms."""
import math
from symex.api import *

REG = Registry()
FUNCTIONS = ['depth_of_inverse_depth', 'inverse_depth_of_depth', 'depth_of_uint8_inverse_depth',
             'uint8_inverse_depth_of_depth', 'inverse_depth_from_uint8', 'depth_image_of_inverse_depth_map',
             'inverse_depth_map_of_depth_image', 'uint8 image forms', 'uint16_of_uint8_inverse_depth_map']
ASSUMPTIONS = ['single precision results are within 2^-24 (relative) of the exact value']
MODS = ['sumo.geometry.inverse_depth']
M16, M8 = 65535, 255
KW = dict(single=True)
REL = 1e-6


def I(W):
    return W.module('sumo.geometry.inverse_depth')


def codec(W, bits):
    m = I(W)
    return (m.depth_of_inverse_depth, m.inverse_depth_of_depth, M16) if bits == 16 else \
        (m.depth_of_uint8_inverse_depth, m.uint8_inverse_depth_of_depth, M8)


def rel(c, a, b, label, tol=REL):
    """a equals b up to a relative error"""
    c.check(all_(c, [a - b <= b * tol, b - a <= b * tol]), label)


def both(name, bounds, fn, bits=(16, 8), **kw):
    for b in bits:
        REG.add(lambda c, W, b=b: fn(c, W, b), '%s_%d' % (name, b), bounds, MODS, **dict(KW, **kw))


def near_of(c):
    return c.real('near', 0.0625, 16)


def decode(c, W, bits):
    dec, enc, M = codec(W, bits)
    n = near_of(c)
    q = c.int('q', 0, M)
    d = dec(q, n)
    if q == 0:
        c.check(d == math.inf, 'zero is infinitely far')
    else:
        rel(c, d * q, n * M, 'depth is the near distance times the maximum over the value')
        c.check(d >= n - n * REL, 'nothing is nearer than the near distance')


def encode(c, W, bits):
    dec, enc, M = codec(W, bits)
    n = near_of(c)
    d = c.real('depth', 0.0078125, 4096)
    if c.concrete and abs(d - n) < EPS:
        raise NotApplicable()
    q = enc(d, n)
    c.check(all_(c, [q >= 0, q <= M]), 'the value is in range')
    if d <= n - n * REL:
        c.check(q == M, 'anything up to the near distance saturates')
    elif d > n + n * REL:
        # |q - n M / d| <= 1/2 up to rounding
        e = 0.5 + M * REL
        c.check(all_(c, [q * d - n * M <= d * e, n * M - q * d <= d * e]), 'the nearest value is chosen')


def special(c, W, bits):
    dec, enc, M = codec(W, bits)
    n = near_of(c)
    c.check(enc(0.0, n) == 0, 'unknown depth is stored as zero')
    c.check(enc(math.inf, n) == 0, 'infinite depth is stored as zero')
    rel(c, dec(M, n), n, 'the maximum is the near distance')


def roundtrip(c, W, bits):
    dec, enc, M = codec(W, bits)
    n = near_of(c)
    q = c.int('q', 0, M)
    c.check(enc(dec(q, n), n) == q, 'every stored value survives decoding and encoding')


def ordered(c, W, bits):
    dec, enc, M = codec(W, bits)
    n = near_of(c)
    a, b = c.real('a', 0.0078125, 4096), c.real('b', 0.0078125, 4096)
    c.assume(a <= b)
    c.check(enc(a, n) >= enc(b, n), 'a nearer depth never gets a smaller value')


both('decode', 'any value, any near distance in [1/16, 16]', decode)
both('encode', 'any depth in [1/128, 4096], any near distance in [1/16, 16]', encode)
both('special', 'any near distance in [1/16, 16]', special)
both('roundtrip', 'any value, any near distance in [1/16, 16]', roundtrip)
both('ordered', 'any two depths in [1/128, 4096], any near distance in [1/16, 16]; exact reals', ordered, single=False)


@REG.harness(bounds='any 8-bit value, any near distance in [1/16, 16]', mods=MODS, **KW)
def widen(c, W):
    m = I(W)
    n = near_of(c)
    v = c.int('v', 0, 255)
    q = m.inverse_depth_from_uint8(v, n)
    near16 = 0.30000001192092896          # default near plane in single precision
    if v == 0:
        c.check(q == 0, 'zero stays zero')
        return
    # depth n * 255 / v seen from the default near plane: q = near16 * 65535 * v / (255 n) = near16 * 257 * v / n
    num, e = near16 * 257 * v, 0.5 + M16 * REL
    if n * 255 <= near16 * v * (1 - REL):
        c.check(q == M16, 'nearer than the default near plane saturates')
    elif n * 255 > near16 * v * (1 + REL):
        c.check(all_(c, [q * n - num <= n * e, num - q * n <= n * e]), 'the widened value encodes the same depth')
    c.check(m.inverse_depth_from_uint8(v) == 257 * v, 'with default near plane the value scales to 16 bits')


def image(fn, elem, kind, two=True):
    def h(c, W):
        m = I(W)
        np = W.np
        n = c.choice('near', [0.25, 1.0, 4.0])
        if kind == 'float32':
            px = [[c.real('p%d%d' % (i, j), 0.0078125, 64) for j in range(3)] for i in range(2)]
        else:
            px = [[c.int('p%d%d' % (i, j), 1, 255 if kind == 'uint8' else M16) for j in range(3)] for i in range(2)]
        im = np.array(px, dtype=kind)
        out = getattr(m, fn)(im, n)
        c.check(tuple(out.shape) == (2, 3), 'the image keeps its shape')
        f = getattr(m, elem)
        for i in range(2):
            for j in range(3):
                c.eq(out[i, j], f(px[i][j], n), 'every pixel is converted in place')
    return h


for fn, elem, kind in [('depth_image_of_inverse_depth_map', 'depth_of_inverse_depth', 'uint16'),
                       ('depth_image_of_uint8_inverse_depth_map', 'depth_of_uint8_inverse_depth', 'uint8'),
                       ('inverse_depth_map_of_depth_image', 'inverse_depth_of_depth', 'float32'),
                       ('uint8_inverse_depth_map_of_depth_image', 'uint8_inverse_depth_of_depth', 'float32'),
                       ('uint16_of_uint8_inverse_depth_map', 'inverse_depth_from_uint8', 'uint8')]:
    REG.add(image(fn, elem, kind), fn, 'any image of 2 x 3 pixels, near distance 1/4, 1 or 4', MODS)


def large_image(fn, elem, kind):
    def h(c, W):
        m, np = I(W), W.np
        n = c.choice('near', [0.5, 1.0])
        top = 255 if kind == 'uint8' else M16
        px = [[((i * 40 + j) * 37 % top + 1) / (1. if kind != 'float32' else 8.) for j in range(40)] for i in range(30)]
        if kind != 'float32':
            px = [[int(v) for v in r] for r in px]
        few = [(0, 0), (29, 39)]
        for i, j in few:
            px[i][j] = c.real('p%d' % i, 0.0078125, 64) if kind == 'float32' else c.int('p%d' % i, 1, top)
        out = getattr(m, fn)(np.array(px, dtype=kind), n)
        c.check(tuple(out.shape) == (30, 40), 'the image keeps its shape')
        f = getattr(m, elem)
        for i in range(30):
            for j in range(40):
                c.eq(out[i, j], f(px[i][j], n), 'every pixel is converted in place')
    return h


for fn, elem, kind in [('depth_image_of_inverse_depth_map', 'depth_of_inverse_depth', 'uint16'),
                       ('depth_image_of_uint8_inverse_depth_map', 'depth_of_uint8_inverse_depth', 'uint8'),
                       ('inverse_depth_map_of_depth_image', 'inverse_depth_of_depth', 'float32'),
                       ('uint8_inverse_depth_map_of_depth_image', 'uint8_inverse_depth_of_depth', 'float32'),
                       ('uint16_of_uint8_inverse_depth_map', 'inverse_depth_from_uint8', 'uint8')]:
    REG.add(large_image(fn, elem, kind), 'large_' + fn, 'an image of 30 x 40 pixels, two of them any', MODS)
