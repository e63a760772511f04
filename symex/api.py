"""Harness registry and the concrete (replay) twin of SymCtx."""
import importlib
import math
import os
import sys
from fractions import Fraction

from . import stubs as _stubs


class Harness(object):
    def __init__(self, fn, name, bounds, mods, opts):
        self.fn, self.name, self.bounds, self.mods, self.opts = fn, name, bounds, mods, opts


class Registry(list):
    def harness(self, bounds, mods=(), tier='quick', name=None, **opts):
        def deco(fn):
            self.append(Harness(fn, name or fn.__name__, bounds, mods, dict(opts, tier=tier)))
            return fn
        return deco

    def add(self, fn, name, bounds, mods=(), tier='quick', **opts):
        self.append(Harness(fn, name, bounds, mods, dict(opts, tier=tier)))


class Violated(Exception):
    pass


class NotApplicable(Exception):
    """the concrete input does not satisfy the harness's assumptions"""


class ConcreteCtx(object):
    concrete = True

    def __init__(self, values):
        self.vals = values
        self.user = {}
        self.log = []

    def num(self, name):
        v = self.vals[name]
        if isinstance(v, str):
            n, d = v.split('/')
            return float(Fraction(int(n), int(d)))
        return v

    def real(self, name, lo=None, hi=None):
        return float(self.num(name)) if name in self.vals else float(lo or 0)

    def int(self, name, lo=None, hi=None):
        return int(self.num(name)) if name in self.vals else int(lo or 0)

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def choice(self, name, options):
        return options[int(self.num(name)) if name in self.vals else 0]

    def assume(self, cond):
        if not cond:
            raise NotApplicable()

    def check(self, cond, label, robust=None, info=None):
        if not bool(cond):
            raise Violated(label)

    def eq(self, a, b, label, tol=None):
        t = max(tol or 0, 1e-6 * (1 + abs(b)))
        if not (a == b or abs(a - b) <= t):      # NaN fails
            raise Violated('%s: %r != %r' % (label, a, b))

    def le(self, a, b, label, tol=0):
        t = max(tol, 1e-6 * (1 + abs(b)))
        if not a <= b + t:
            raise Violated('%s: %r > %r' % (label, a, b))


class RealWorld(object):
    """the compiled program in a scratch build"""
    concrete = True

    def __init__(self):
        import numpy
        self.np = numpy

    def module(self, name):
        return importlib.import_module(name)


def install_real_stubs():
    """third-party modules that are absent here"""
    from .stubs import Anything
    for n in ('pymesh', 'pymesh.meshutils', 'pyny3d', 'pyny3d.geoms', 'requests'):
        try:
            importlib.import_module(n)
        except Exception:
            sys.modules[n] = Anything(n)
    import matplotlib
    real_use = matplotlib.use
    matplotlib.use = lambda *a, **k: real_use('Agg')


# -- helpers usable in both modes --------------------------------------------------

def vec(c, W, name, n=3, lo=None, hi=None, kind='real'):
    f = c.real if kind == 'real' else c.int
    return W.np.array([f('%s%d' % (name, i), lo, hi) for i in range(n)],
                      dtype='float64' if kind == 'real' else 'int64')


def mat(c, W, name, r, k, lo=None, hi=None):
    return W.np.array([[c.real('%s%d%d' % (name, i, j), lo, hi) for j in range(k)]
                       for i in range(r)], dtype='float64')


def assume_eq(c, a, b):
    """an equality assumption; approximate when replaying"""
    if c.concrete:
        if abs(a - b) > 1e-6 * (1 + abs(b)):
            raise NotApplicable()
    else:
        c.assume(a == b)


def _rr(w, x, y, z):
    n = w*w + x*x + y*y + z*z
    return [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
            [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
            [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z], n]


QUATS = [(1, 2, 2, 4), (4, -2, 1, 2), (2, 4, -1, 2), (-2, 1, 4, 2)]      # norm 5
RATIONAL_ROTATIONS = [_rr(*q) for q in QUATS]


def rotation(c, W, name):
    """an arbitrary proper rotation matrix, as nine reals with R^T R = I, det R = 1"""
    R = mat(c, W, name, 3, 3, -1, 1)
    if c.concrete:
        import numpy as np
        u, s, vt = np.linalg.svd(R)
        if abs(s - 1).max() > 1e-5 or np.linalg.det(R) < 0:
            raise NotApplicable()
        return u.dot(vt)
    for i in range(3):
        for j in range(i, 3):
            c.assume(sum(R[k, i] * R[k, j] for k in range(3)) == (1 if i == j else 0))
            c.assume(sum(R[i, k] * R[j, k] for k in range(3)) == (1 if i == j else 0))
    # cofactor form of det = 1: R = cof(R)
    for i in range(3):
        a, b = (i + 1) % 3, (i + 2) % 3
        for j in range(3):
            p, q = (j + 1) % 3, (j + 2) % 3
            c.assume(R[i, j] == R[a, p] * R[b, q] - R[a, q] * R[b, p])
    c.hint(*[[R[i, j] == Fraction(m[i][j], m[3]) for i in range(3) for j in range(3)]
             for m in RATIONAL_ROTATIONS])
    return R


def quat_rotation(c, W, name):
    """an arbitrary proper rotation from a unit quaternion (w,x,y,z): (R, q)"""
    q = [c.real('%s_%s' % (name, k), -1, 1) for k in 'wxyz']
    if c.concrete:
        n = math.sqrt(sum(v * v for v in q))
        if n < 1e-6:
            raise NotApplicable()
        q = [v / n for v in q]
    else:
        c.assume(sum(v * v for v in q) == 1)
        c.square_rule(q[0].e, (1 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3]).e)
        c.hint(*[[a == Fraction(b, 5) for a, b in zip(q, m)] for m in QUATS])
    w, x, y, z = q
    R = W.np.array([[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
                    [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
                    [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]], dtype='float64')
    return R, q


def angle(c, name, turns=(0,)):
    """an arbitrary angle within pi of a multiple of a full turn: (t, sin t, cos t)"""
    s, co = c.real(name + '_sin', -1, 1), c.real(name + '_cos', -1, 1)
    k = c.choice(name + '_turns', list(turns)) if len(turns) > 1 else turns[0]
    if c.concrete:
        t = math.atan2(s, co) + 2 * math.pi * k
        return t, math.sin(t), math.cos(t)
    c.assume(s * s + co * co == 1)
    c.square_rule(co.e, (1 - s * s).e)
    c.hint(*[[s == Fraction(a, n), co == Fraction(b, n)] for a, b, n in
             ((3, 4, 5), (-5, 12, 13), (8, -15, 17), (-4, -3, 5))])
    from . import core, smath
    import z3
    t = z3.Real(name)
    smath._register(t, s.e, co.e, k == 0)
    pi = core._q(math.pi)
    u = t - 2 * k * pi
    c.add(z3.And(u > -pi, u <= pi))
    c.add((u > 0) == z3.Or(s.e > 0, z3.And(s.e == 0, co.e < 0)))
    c.add((u < 0) == (s.e < 0))
    c.add((co.e > 0) == z3.And(u > -pi / 2, u < pi / 2))
    c.add((co.e < 0) == z3.Or(u < -pi / 2, u > pi / 2))
    return core.Sym(t), s, co


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', exception class name)"""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return type(e).__name__, e


class patched(object):
    """temporarily replace attributes (module or class) in both modes"""
    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.old = []
        for o, n, v in self.items:
            self.old.append((o, n, getattr(o, n, None), n in vars(o)))
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v, had in self.old:
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)


class randoms(object):
    """uniform random numbers come from draw(k, lo, hi), in both modes"""
    def __init__(self, c, W, draw):
        self.c, self.W, self.draw, self.k = c, W, draw, 0

    def one(self, lo, hi):
        self.k += 1
        return self.draw(self.k - 1, lo, hi)

    def integer(self, lo, hi):
        self.k += 1
        return self.c.int('rndint%d' % (self.k - 1), lo, hi - 1)

    def __enter__(self):
        if not self.c.concrete:
            self.c.user['np_random'] = self.one
            self.c.user['np_randint'] = self.integer
            return self
        import numpy as np

        def uniform(low=0.0, high=1.0, size=None):
            if size is None:
                return self.one(low, high)
            n = int(np.prod(size))
            return np.array([self.one(low, high) for _ in range(n)], dtype='float64').reshape(size)
        def randint(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if size is None:
                return self.integer(lo, hi)
            n = int(np.prod(size))
            if n and hi <= lo:
                raise ValueError('low >= high')
            return np.array([self.integer(lo, hi) for _ in range(n)], dtype=dtype).reshape(size)

        def choice(a, size=None, replace=True, p=None):
            if isinstance(a, (int, np.integer)):
                return randint(0, a, size)
            return np.asarray(a)[randint(0, len(a), size)]
        f = lambda size=None: uniform(0, 1, size)
        self.p = patched((np.random, 'randint', randint), (np.random, 'choice', choice),
                         (np.random, 'uniform', uniform), (np.random, 'rand', lambda *s: uniform(0, 1, s or None)),
                         (np.random, 'random', f), (np.random, 'random_sample', f))
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        if not self.c.concrete:
            self.c.user.pop('np_random', None)
            self.c.user.pop('np_randint', None)
        else:
            self.p.__exit__()


def unit_interval(c, prefix='rnd'):
    def draw(k, lo, hi):
        v = c.real('%s%d' % (prefix, k), lo, hi)
        c.assume(v < hi)
        return v
    return draw


# -- logical helpers (no forking in symbolic mode, tolerant in concrete mode) ----------

EPS = 1e-6


def any_(c, xs):
    if c.concrete:
        return any(bool(x) for x in xs)
    from . import core
    return core.sor(list(xs))


def all_(c, xs):
    if c.concrete:
        return all(bool(x) for x in xs)
    from . import core
    return core.sand(list(xs))


def not_(c, x):
    if c.concrete:
        return not bool(x)
    from . import core
    return core.snot(x)


def implies(c, a, b):
    return any_(c, [not_(c, a), b])


def close(c, a, b, tol=0):
    if c.concrete:
        return a == b or abs(a - b) <= max(tol, EPS * (1 + abs(b)))
    from . import core
    d = a - b
    if not core.is_sym(d):
        return abs(d) <= max(tol, EPS)
    return (a == b) if not tol else core.sand([d <= tol, d >= -tol])


def within(c, p, ctr, size):
    """p lies in the half-open voxel around ctr"""
    d = p - ctr
    h = size / 2
    if c.concrete:
        return -h - EPS <= d <= h + EPS
    from . import core
    return core.sand([d >= -h, d < h])


def differs(c, a, b, unit):
    if c.concrete:
        return abs(a - b) > unit / 2
    return a != b


def isint(c, x):
    if c.concrete:
        return abs(x - round(x)) < 1e-5
    from . import core
    if not core.is_sym(x):
        return abs(x - round(x)) < 1e-9
    return x.is_integer()


def tmpfile(c, name):
    """a path in a scratch directory (a virtual one in symbolic mode)"""
    if not c.concrete:
        return '/virtual/' + name
    import tempfile
    if 'tmp' not in c.user:
        c.user['tmp'] = tempfile.mkdtemp(prefix='replay-', dir=os.getcwd())
    return os.path.join(c.user['tmp'], name)
