"""Environment stand-ins shared by the symbolic interpreter and the concrete replay."""
import sys
import types


def mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


class Anything(types.ModuleType):
    """accepts any attribute; calling it does nothing (plotting and the like)"""
    def __init__(self, name='any'):
        types.ModuleType.__init__(self, name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Anything(n)

    def __call__(self, *a, **k):
        return None


def _mean(xs):
    xs = list(xs)
    return sum(xs) / len(xs)


def _repmat(a, m, n):
    from . import snp
    return snp.NP.tile(snp.NP.atleast_2d(a), (m, n))


class H5Dataset(object):
    def __init__(self, data):
        self.data = data

    @property
    def shape(self): return self.data.shape

    @property
    def dtype(self): return self.data.dtype

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.data.copy()
        return self.data[k]

    def __len__(self): return len(self.data)

    def __array_sym__(self):
        return self.data

    @property
    def value(self): return self.data.copy()


class H5Attrs(dict):
    """attributes come back as numpy values"""
    def __setitem__(self, k, v):
        from . import snp
        import numpy as np
        if isinstance(v, (list, tuple, np.ndarray)):
            v = snp.NP.array(v)
            v = snp.SArr(np.array(v.view(np.ndarray), dtype=object), v.ldt)
        dict.__setitem__(self, k, v)

    def create(self, k, v, **kw):
        self[k] = v

    def __getitem__(self, k):
        import numpy as np
        from . import snp
        v = dict.__getitem__(self, k)
        return v.copy() if isinstance(v, np.ndarray) else snp.NP.float64(v) if isinstance(v, float) else v


def h5py_stub(world):
    """an in-memory HDF5 library: files live for one path, keyed by name"""
    def files():
        from . import core
        return core.CTX.user.setdefault('h5files', {})

    class File(object):
        def __init__(self, name, mode='r', **k):
            fs = files()
            name = str(name)
            self.mode = mode
            if name.startswith('/nonexistent') or not name:
                raise OSError('unable to open file')
            if mode in ('r', 'r+'):
                if name not in fs:
                    raise FileNotFoundError('unable to open file ' + name)
            elif mode == 'w':
                fs[name] = ({}, H5Attrs())
            elif mode in ('w-', 'x'):
                if name in fs:
                    raise OSError('exists')
                fs[name] = ({}, H5Attrs())
            elif mode == 'a':
                fs.setdefault(name, ({}, H5Attrs()))
            else:
                raise ValueError('Invalid mode')
            self.d, self.attrs = fs[name]

        def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
            from . import snp
            if self.mode == 'r':
                raise ValueError('no write intent on file')
            if name in self.d:
                raise ValueError('name already exists')
            a = snp.NP.array(data)
            if dtype is not None:
                a = a.astype(dtype)
            if shape is not None:
                if tuple(shape) != a.shape:
                    a = a.reshape(shape)
            self.d[name] = H5Dataset(a.copy())
            return self.d[name]

        def __getitem__(self, n): return self.d[n]
        def __setitem__(self, n, v): self.create_dataset(n, data=v)
        def __contains__(self, n): return n in self.d
        def keys(self): return self.d.keys()
        def get(self, n, default=None): return self.d.get(n, default)
        def close(self): pass
        def flush(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    return mod('h5py', File=File)


def angle_of(x):
    """the angle in [0, pi] whose cosine is x (rounding outside [-1, 1] clipped): strictly decreasing"""
    import z3
    from . import core
    c = core.CTX
    if not core.is_sym(x):
        import math
        x = core.Sym(core._q(x)) if abs(x) < 1 else core.Sym(core._q(1 if x > 0 else -1))
    e = z3.simplify(c.normal(core.real(x.e)), som=True)
    tab = c.opaque.setdefault('angle_of', [])
    for k, t in tab:
        if k.eq(e):
            return core.Sym(t)
    v = core.numval(e)
    if v is not None:
        import math
        t = core._q(math.acos(max(-1.0, min(1.0, float(v)))))
    else:
        t = c.fresh('theta')
        pi = core._q(core.math.pi)
        c.add(z3.And(t >= 0, t <= pi))
        c.add((t == 0) == (e >= 1))
        c.add((t == pi) == (e <= -1))
    for k, u in (tab if v is None else [(k, u) for k, u in tab if core.numval(k) is None]):
        c.add(z3.Implies(e <= k, t >= u))
        c.add(z3.Implies(e >= k, t <= u))
        c.add(z3.Implies(z3.And(e < k, k <= 1, e >= -1), t > u))
        c.add(z3.Implies(z3.And(e > k, e <= 1, k >= -1), t < u))
    tab.append((e, t))
    return core.Sym(t)


def logm_model(A, disp=True):
    """a matrix with the norm of the logarithm of the rotation A, turned so that its axis is z"""
    from . import snp
    A = snp.NP.asarray(A)
    if A.shape != (3, 3):
        raise ValueError('logm: 3x3 rotation expected')
    t = angle_of((A[0, 0] + A[1, 1] + A[2, 2] - 1) / 2)
    return snp.NP.array([[0.0, -t, 0.0], [t, 0.0, 0.0], [0.0, 0.0, 0.0]])


class BallTreeModel(object):
    """exact nearest neighbours by comparing all distances"""
    def __init__(self, X, leaf_size=40, metric='euclidean', **k):
        from . import snp
        self.X = snp.NP.asarray(X)
        if self.X.ndim != 2 or 0 in self.X.shape:
            raise ValueError('Found array with 0 sample(s)')

    def query(self, Y, k=1, return_distance=True, **kw):
        from . import core, snp
        Y = snp.NP.asarray(Y)
        if Y.ndim != 2 or 0 in Y.shape or Y.shape[1] != self.X.shape[1]:
            raise ValueError('bad query')
        if k != 1:
            raise core.Unsupported('k nearest neighbours')
        ds, ix = [], []
        for y in Y:
            best = bi = None
            for i, x in enumerate(self.X):
                d = 0
                for a, b in zip(x, y):
                    d = d + (a - b) * (a - b)
                if best is None or bool(d < best):
                    best, bi = d, i
            ds.append([core.sqrt(best, npy=True)])
            ix.append([bi])
        D, I = snp.NP.array(ds, dtype='float64'), snp.NP.array(ix, dtype='int64')
        return (D, I) if return_distance else I


def default_stubs(world):
    import copy
    mpl = Anything('matplotlib')
    return {
        'matplotlib': mpl, 'matplotlib.pyplot': Anything('pyplot'),
        'pyny3d': Anything('pyny3d'), 'pyny3d.geoms': Anything('geoms'),
        'pymesh': Anything('pymesh'), 'pymesh.meshutils': Anything('meshutils'),
        'numpy.matlib': mod('numpy.matlib', repmat=_repmat),
        'h5py': h5py_stub(world),
        'numpy.math': mod('numpy.math', INFINITY=float('inf')),
        'sklearn.neighbors': mod('sklearn.neighbors', BallTree=BallTreeModel, KDTree=BallTreeModel),
        'sklearn': Anything('sklearn'),
        'scipy.linalg': mod('scipy.linalg', logm=logm_model),
        'scipy': Anything('scipy'),
        'cv2': Anything('cv2'),
        'statistics': mod('statistics', mean=_mean, fmean=_mean),
        'copy': mod('copy', copy=copy.copy, deepcopy=copy.deepcopy, Error=copy.Error),
    }
