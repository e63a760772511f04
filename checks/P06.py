"""Category colours: id, name and image lookups agree with the table; unknown categories are refused."""
import os
import tempfile
import shutil
from symex.api import *

REG = Registry()
FUNCTIONS = ['ColoredCategory.__init__', 'LUT', 'category_id_to_rgb', 'category_name_to_rgb', 'convert_to_rgb_im']
ASSUMPTIONS = ['integers print and read back exactly']
MODS = ['sumo.base.colored_category']
NAMES = ['empty', 'bed', 'a b', 'arm_chair', 'lamp']


class Table(object):
    """a category file with any colours"""
    def __init__(self, c, W, n, names=None, ids=None):
        self.n = n
        self.names = names or NAMES[:n]
        self.rgb = [[c.int('%s%d' % (k, i), 0, 255) for k in 'rgb'] for i in range(n)]
        d = tempfile.mkdtemp(prefix='symex-', dir=os.getcwd() if c.concrete else None)
        try:
            p = os.path.join(d, 'categories.csv')
            with open(p, 'w') as f:
                f.write('id,category,is_evaluated,color\n')
                for i in range(n):
                    f.write('%d,%s,%s,%s\n' % ((ids or range(n))[i], self.names[i], i % 2 == 0,
                                               ';'.join(str(v) for v in self.rgb[i])))
            self.cc = W.module('sumo.base.colored_category').ColoredCategory(p)
        finally:
            shutil.rmtree(d)


def same_rgb(c, a, b, label):
    c.check(len(a) == 3, 'a colour has three channels')
    for x, y in zip(a, b):
        c.eq(x, y, label)


@REG.harness(bounds='1 to 4 categories with any colours, any integer id in [-4, 8]', mods=MODS)
def by_id(c, W):
    n = c.choice('n', [1, 2, 3, 4])
    t = Table(c, W, n)
    i = c.int('id', -4, 8)
    kind, v = outcome(t.cc.category_id_to_rgb, i)
    if 0 <= i < n:
        c.check(kind == 'ok', 'every category has a colour')
        same_rgb(c, v, t.rgb[int(i)], 'the colour of that id')
    else:
        c.check(kind == 'KeyError', 'an id outside the table is refused')


@REG.harness(bounds='any order of the names, any ids in the first column, any colours', mods=MODS)
def by_name(c, W):
    names = c.choice('names', [NAMES[:3], NAMES[2::-1], NAMES[2:5]])
    t = Table(c, W, 3, names, c.choice('ids', [[0, 1, 2], [2, 1, 0], [7, 7, 7]]))
    q = c.choice('query', NAMES + ['', 'Bed'])
    kind, v = outcome(t.cc.category_name_to_rgb, q)
    if q in names:
        c.check(kind == 'ok', 'every category has a colour')
        same_rgb(c, v, t.rgb[names.index(q)], 'the colour of that name')
        same_rgb(c, t.cc.category_id_to_rgb(names.index(q)), v, 'id and name agree')
    else:
        c.check(kind == 'KeyError', 'an unknown name is refused')


@REG.harness(bounds='1 to 3 categories with any colours; table read twice', mods=MODS)
def table(c, W):
    n = c.choice('n', [1, 2, 3])
    t = Table(c, W, n)
    for k in range(2):
        lut = t.cc.LUT
        c.check(tuple(lut.shape) == (n, 3), 'one row of three channels per category')
        for i in range(n):
            same_rgb(c, list(lut[i]), t.rgb[i], 'row i holds the colour of category i')


@REG.harness(bounds='a 2 x 2 image of any indices in [0, 4], 3 categories with any colours', mods=MODS)
def image(c, W):
    t = Table(c, W, 3)
    ix = [[c.int('i%d%d' % (a, b), 0, 4) for b in range(2)] for a in range(2)]
    im = W.np.array(ix, dtype='int64')
    kind, out = outcome(t.cc.convert_to_rgb_im, im)
    if any(v > 2 for r in ix for v in r):
        c.check(kind == 'IndexError', 'an index outside the table is refused')
        return
    c.check(kind == 'ok' and tuple(out.shape) == (2, 2, 3), 'one colour per pixel')
    for a in range(2):
        for b in range(2):
            same_rgb(c, list(out[a, b]), t.rgb[int(ix[a][b])], 'the pixel has the colour of its category')


@REG.harness(bounds='a missing file', mods=MODS)
def missing(c, W):
    f = c.choice('path', ['/nonexistent/categories.csv', ''])
    c.check(outcome(W.module('sumo.base.colored_category').ColoredCategory, f)[0] in ('OSError', 'IOError', 'FileNotFoundError'),
            'a missing file is refused')


@REG.harness(bounds='300 categories (the first, number 255 to 257 and the last of any colour): ids, names, and an image of '
             '3 x 400 ids', mods=MODS)
def large_table(c, W):
    n, few = 300, (0, 255, 256, 257, 299)
    t = Table.__new__(Table)
    names = ['c%d' % i for i in range(n)]
    real = c.int
    fixed = lambda name, lo, hi: real(name, lo, hi) if int(name[1:]) in few else (int(name[1:]) * 7 + ord(name[0])) % 256
    with patched((c, 'int', fixed)):
        t.__init__(c, W, n, names)
    lut = t.cc.LUT
    c.check(tuple(lut.shape) == (n, 3), 'one row of three channels per category')
    for i in few + (100, 254, 258):
        same_rgb(c, list(lut[i]), t.rgb[i], 'row i holds the colour of category i')
        same_rgb(c, t.cc.category_id_to_rgb(i), t.rgb[i], 'the colour of the id')
        same_rgb(c, t.cc.category_name_to_rgb(names[i]), t.rgb[i], 'the colour of the name')
    dtype = c.choice('dtype', ['uint16', 'int64'])
    ids = [[(i * 400 + j) * 11 % n for j in range(400)] for i in range(3)]
    out = t.cc.convert_to_rgb_im(W.np.array(ids, dtype=dtype))
    c.check(tuple(out.shape) == (3, 400, 3), 'one colour per pixel')
    for i in range(3):
        for j in range(400):
            same_rgb(c, list(out[i, j]), t.rgb[ids[i][j]], 'the pixel has the colour of its category')
    ids[2][399] = n
    c.check(outcome(t.cc.convert_to_rgb_im, W.np.array(ids, dtype=dtype))[0] == 'IndexError', 'an unknown id is refused')
