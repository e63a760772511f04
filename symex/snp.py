"""numpy facade: object arrays of symbolic numbers with a logical dtype.

`NP` is the module object the interpreted code gets for `import numpy as np`.
Arrays are `SArr` (an ndarray subclass holding Python objects); `ldt` is the
dtype the real program's array would have.  Casts on creation / assignment /
astype follow that dtype (float -> real, int -> truncation, uint8 -> mod 256).
"""
import math
import operator
import re
import builtins
import numpy as rnp
from . import core
from .core import Sym, SymBool, Unsupported, is_sym

DEF = object()


def dt(d):
    if d is None:
        return None
    if isinstance(d, rnp.dtype):
        return d
    if d is float or getattr(d, '__symshim__', None) == 'float':
        return rnp.dtype('float64')
    if d is int or getattr(d, '__symshim__', None) == 'int':
        return rnp.dtype('int64')
    if d is bool or getattr(d, '__symshim__', None) == 'bool':
        return rnp.dtype('bool')
    return rnp.dtype(d)


def dtype_of(x):
    if isinstance(x, SArr):
        return x.ldt
    if isinstance(x, rnp.ndarray):
        return x.dtype
    if isinstance(x, SymBool):
        return rnp.dtype('bool')
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, bool):
        return rnp.dtype('bool')
    if isinstance(x, int):
        return rnp.dtype('int64')
    if isinstance(x, float):
        return rnp.dtype('float64')
    if isinstance(x, core.Fraction):
        return rnp.dtype('float64')
    if isinstance(x, str):
        return rnp.dtype('O')
    return rnp.dtype('O')


def weak(x):
    return isinstance(x, (int, float, bool, Sym, SymBool, core.Fraction)) and \
        not isinstance(x, rnp.generic)


def result_dt(xs):
    strong = [dtype_of(x) for x in xs if not weak(x)]
    wk = [dtype_of(x) for x in xs if weak(x)]
    if any(d == rnp.dtype('O') for d in strong + wk):
        return rnp.dtype('O')
    if not strong:
        return rnp.result_type(*wk) if wk else rnp.dtype('float64')
    r = rnp.result_type(*strong)
    for w in wk:
        if w.kind == 'f' and r.kind in 'iub':
            r = rnp.dtype('float64')
        elif w.kind == 'i' and r.kind == 'b':
            r = rnp.dtype('int64')
    return r


def cast(v, d, trusted=False):
    """value v as an element of an array of logical dtype d"""
    if d is None or d == rnp.dtype('O'):
        return v
    k = d.kind
    if isinstance(v, rnp.ndarray):
        v = v[()] if v.shape == () else v
    if k == 'f':
        if isinstance(v, SymBool):
            v = v._num()
        if isinstance(v, Sym):
            return Sym(core.simp_toreal(v.e), True)
        if isinstance(v, core.Fraction):
            return rnp.float64(v) if core.Fraction(float(v)) == v else Sym(core._q(v), True)
        if v is None:
            return rnp.float64('nan')
        if d == rnp.dtype('float32'):
            return rnp.float64(rnp.float32(v))
        return rnp.float64(v)
    if k in 'iu':
        if isinstance(v, SymBool):
            v = v._num()
        if isinstance(v, Sym):
            v = core.trunc(v)
            if k == 'u' and d.itemsize <= 2 and not trusted:
                z = core.z3.simplify(v.e % (1 << (8 * d.itemsize)))
                return Sym(z, True)
            return Sym(v.e, True)
        if isinstance(v, core.Fraction):
            v = math.trunc(v)
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v):
                return int(rnp.array(v).astype(d))
            v = math.trunc(v)
        v = int(v)
        bits = 8 * d.itemsize
        if k == 'u':
            return v % (1 << bits)
        return (v + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
    if k == 'b':
        if isinstance(v, (SymBool, bool)):
            return v
        if isinstance(v, Sym):
            return core.wrapbool(core.z3.simplify(v.e != 0))
        return bool(v)
    return v


class SArr(rnp.ndarray):
    __array_priority__ = 100
    def __new__(cls, arr, ldt=None):
        o = rnp.asarray(arr, dtype=object).view(cls)
        o.ldt = ldt
        return o

    def __array_finalize__(self, obj):
        self.ldt = getattr(obj, 'ldt', None) or rnp.dtype('O')

    # the logical dtype is what the program sees
    @property
    def dtype(self):
        return self.ldt

    @property
    def itemsize(self):
        return self.ldt.itemsize

    @property
    def nbytes(self):
        return self.ldt.itemsize * self.size

    @property
    def strides(self):
        return tuple(k // 8 * self.ldt.itemsize for k in self.view(rnp.ndarray).strides)

    def raw(self):
        return self.view(rnp.ndarray)

    def __setitem__(self, key, val):
        key = fixkey(key)
        r = self.raw()
        if isinstance(key, SArr) or isinstance(key, tuple) and any(isinstance(k, SArr) for k in key):
            raise AssertionError
        if isinstance(val, (list, tuple)) or isinstance(val, rnp.ndarray):
            v = asobj(val)
            flat = rnp.empty(v.shape, dtype=object)
            fr = v.raw() if isinstance(v, SArr) else v
            for i in rnp.ndindex(*v.shape):
                flat[i] = cast(fr[i], self.ldt)
            if flat.shape == ():
                flat = flat[()]
            r[key] = flat
        else:
            r[key] = cast(val, self.ldt)

    def __getitem__(self, key):
        key = fixkey(key)
        r = self.raw()[key]
        if isinstance(r, rnp.ndarray):
            r = r.view(SArr)
            r.ldt = self.ldt
            return r
        return elem(r, self.ldt)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        return bool(core.sor([x == v for x in self.ravel().raw()]))

    def __array_ufunc__(self, uf, method, *args, **kw):
        return ufunc(uf, method, args, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__)
        if f is None:
            return generic(func, args, kwargs)
        return f(*args, **kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.'
                             ' Use a.any() or a.all()')
        return bool(self.raw().reshape(-1)[0])

    def __float__(self):
        return float(self.raw().reshape(-1)[0])

    def __int__(self):
        return int(self.raw().reshape(-1)[0])

    def __index__(self):
        return operator.index(self.raw().reshape(-1)[0])

    def item(self, *a):
        return self.raw().item(*a)

    def tolist(self):
        return self.raw().tolist()

    def astype(self, d, **k):
        d = dt(d)
        return mk_shape([cast(v, d) for v in self.raw().reshape(-1)], self.shape, d)

    def copy(self, order='C'):
        return SArr(self.raw().copy(), self.ldt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if a and a[0] in (rnp.ndarray, SArr):
            return rnp.ndarray.view(self, *a, **k)
        if not a and not k:
            return rnp.ndarray.view(self, SArr)
        raise Unsupported('ndarray.view(%r)' % (a,))

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, **k): return f_sum(self, axis, **k)
    def prod(self, axis=None, **k): return f_prod(self, axis, **k)
    def mean(self, axis=None, **k): return f_mean(self, axis, **k)
    def min(self, axis=None, **k): return f_amin(self, axis, **k)
    def max(self, axis=None, **k): return f_amax(self, axis, **k)
    def all(self, axis=None, **k): return f_all(self, axis, **k)
    def any(self, axis=None, **k): return f_any(self, axis, **k)
    def dot(self, b, out=None): return f_dot(self, b)
    def argmin(self, axis=None, **k): return f_argmin(self, axis, **k)
    def argmax(self, axis=None, **k): return f_argmax(self, axis, **k)
    def argsort(self, axis=-1, **k): return f_argsort(self, axis, **k)
    def cumsum(self, axis=None, **k): return f_cumsum(self, axis, **k)
    def nonzero(self): return f_nonzero(self)
    def clip(self, min=None, max=None, out=None): return f_clip(self, min, max, out)
    def round(self, decimals=0): return f_round(self, decimals)
    def repeat(self, repeats, axis=None): return FUNCS['repeat'](self, repeats, axis=axis)
    def take(self, indices, axis=None, out=None, mode='raise'): return f_take(self, indices, axis, None, mode)
    def choose(self, choices, out=None, mode='raise'): return f_choose(self, choices)
    def trace(self, *a): return f_trace(self)
    def std(self, axis=None, **k): return f_std(self, axis, **k)
    def var(self, axis=None, **k): return f_var(self, axis, **k)
    def tobytes(self, *a): raise Unsupported('tobytes of a symbolic array')

    def sort(self, axis=-1, **k):
        self[...] = f_sort(self, axis, **k)

    def __matmul__(self, o): return f_dot(self, o)
    def __rmatmul__(self, o): return f_dot(o, self)

    def __repr__(self): return 'SArr(%s)' % (self.shape,)
    def __str__(self): return 'SArr(%s)' % (self.shape,)
    def __format__(self, s): return str(self)

    def __reduce__(self):
        raise Unsupported('pickle')


# comparison / arithmetic operators on ndarray go through ufuncs -> __array_ufunc__


def elem(v, ldt):
    """scalar extracted from an array: numpy provenance"""
    if isinstance(v, Sym):
        return v if v.npy else Sym(v.e, True)
    if isinstance(v, (SymBool,)) or ldt is None:
        return v
    if ldt.kind == 'f':
        return rnp.float64(v)
    if ldt.kind in 'iu' and isinstance(v, (int, rnp.integer)):
        return ldt.type(v)
    if ldt.kind == 'b':
        return rnp.bool_(v)
    return v


def fixkey(key):
    if isinstance(key, tuple):
        return tuple(fixkey1(k) for k in key)
    return fixkey1(key)


def fixkey1(k):
    if isinstance(k, Sym):
        return operator.index(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda v: operator.index(v) if isinstance(v, Sym) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, SArr):
        if k.ldt.kind == 'b':
            out = rnp.empty(k.shape, dtype=bool)
            for i in rnp.ndindex(*k.shape):
                out[i] = bool(k.raw()[i])
            return out
        out = rnp.empty(k.shape, dtype=rnp.int64)
        if k.ldt.kind not in 'iu' and k.size:
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        for i in rnp.ndindex(*k.shape):
            out[i] = operator.index(k.raw()[i])
        return out
    if isinstance(k, list) and any(is_sym(x) for x in k):
        return fixkey1(mk(k))
    return k


def mk_shape(flat, shape, d):
    a = rnp.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        a[i] = v
    return SArr(a.reshape(shape), d)


def mk(flat, d=None):
    if d is None:
        d = result_dt(flat) if len(flat) else rnp.dtype('float64')
    return mk_shape([cast(v, d) for v in flat], (len(flat),), d)


def deep(x):
    """nested sequence -> (flat list, shape, strong dtypes)"""
    if isinstance(x, SArr):
        return list(x.raw().reshape(-1)), x.shape, [x.ldt]
    if isinstance(x, rnp.ndarray):
        return list(x.astype(object).reshape(-1)) if x.dtype != object else list(x.reshape(-1)), \
            x.shape, [x.dtype]
    if isinstance(x, (list, tuple)) or type(x).__name__ in (
            'range', 'dict_values', 'dict_keys', 'vector', 'map', 'zip', 'Vec'):
        x = list(x)
        if not x:
            return [], (0,), []
        parts = [deep(y) for y in x]
        sh = parts[0][1]
        for p in parts:
            if p[1] != sh:
                raise ValueError('setting an array element with a sequence. The requested array '
                                 'has an inhomogeneous shape')
        flat, ds = [], []
        for p in parts:
            flat += p[0]
            ds += p[2]
        return flat, (len(x),) + sh, ds
    if hasattr(x, '__sarr__'):
        return deep(x.__sarr__())
    return [x], (), [dtype_of(x)]


def asobj(x, d=None):
    """any array-like -> SArr"""
    if isinstance(x, SArr) and (d is None or d == x.ldt):
        return x
    if hasattr(x, '__array_sym__'):
        return asobj(x.__array_sym__(), d)
    flat, shape, ds = deep(x)
    if d is None:
        d = rnp.result_type(*ds) if ds else rnp.dtype('float64')
        if any(q == rnp.dtype('O') for q in ds):
            d = rnp.dtype('O')
    return mk_shape([cast(v, d) for v in flat], shape, d)


def unwrap0(a):
    """0-d arrays become scalars, as numpy functions do"""
    if isinstance(a, SArr) and a.shape == ():
        return elem(a.raw()[()], a.ldt)
    return a


# --------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------

def npdiv(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, SymBool): a = a._num()
        if isinstance(b, SymBool): b = b._num()
        if isinstance(a, Sym):
            return Sym(a.e, True) / b
        return a / Sym(b.e, True)
    with rnp.errstate(all='ignore'):
        return rnp.float64(a) / rnp.float64(b)


def npfloordiv(a, b):
    if is_sym(a) or is_sym(b):
        return core.floordiv(Sym(core.lift(a), True), b)
    with rnp.errstate(all='ignore'):
        return rnp.floor_divide(a, b)


def npmod(a, b):
    if is_sym(a) or is_sym(b):
        return core.mod(Sym(core.lift(a), True), b)
    with rnp.errstate(all='ignore'):
        return rnp.mod(a, b)


def one(fsym, rf):
    def g(x):
        if is_sym(x):
            return fsym(x)
        with rnp.errstate(all='ignore'):
            return rf(x)
    return g


def smath(name):
    from . import smath as sm
    return getattr(sm, name)


def land(a, b): return core.sand([tb(a), tb(b)])
def lor(a, b): return core.sor([tb(a), tb(b)])
def tb(x):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, Sym):
        return core.wrapbool(core.z3.simplify(x.e != 0))
    return bool(x)


def npnot(a): return core.snot(tb(a))


def invert(a):
    if isinstance(a, (bool, SymBool, rnp.bool_)):
        return npnot(a)
    return -a - 1


def bitand(a, b):
    if isinstance(a, (bool, SymBool, rnp.bool_)) and isinstance(b, (bool, SymBool, rnp.bool_)):
        return land(a, b)
    return a & b


def bitor(a, b):
    if isinstance(a, (bool, SymBool, rnp.bool_)) and isinstance(b, (bool, SymBool, rnp.bool_)):
        return lor(a, b)
    return a | b


def sabs(x):
    return abs(x)


def sign(x):
    if isinstance(x, Sym):
        z = core.z3
        return Sym(z.If(x.e > 0, z.IntVal(1), z.If(x.e < 0, z.IntVal(-1), z.IntVal(0))), True)
    return rnp.sign(x)


def isfin(x): return True if is_sym(x) else bool(rnp.isfinite(x))
def isnan(x): return False if is_sym(x) else bool(rnp.isnan(x))
def isinf(x): return False if is_sym(x) else bool(rnp.isinf(x))


def rint(x): return core.tofloat(core.round_half_even(x)) if is_sym(x) else rnp.rint(x)


def npfmod(a, b):
    if not (is_sym(a) or is_sym(b)):
        return rnp.fmod(a, b)
    r = npmod(sabs(a), sabs(b))
    return core.ite(a < 0, -r, r)


def copysign(a, b):
    if not is_sym(b):
        return sabs(a) if rnp.copysign(1, b) > 0 else -sabs(a)
    return core.ite(b < 0, -sabs(a), sabs(a))       # the sign of a zero is not tracked


def heaviside(a, b): return core.ite(a < 0, 0.0, core.ite(a > 0, 1.0, b))


def hyp(a, b): return core.sqrt(a * a + b * b, True)


B = 'b'
F = 'f'
UF = {
    'add': (operator.add, None), 'subtract': (operator.sub, None),
    'multiply': (operator.mul, None), 'true_divide': (npdiv, F), 'divide': (npdiv, F),
    'floor_divide': (npfloordiv, None), 'remainder': (npmod, None), 'mod': (npmod, None),
    'power': (operator.pow, None), 'float_power': (operator.pow, F),
    'negative': (operator.neg, None), 'positive': (lambda x: x, None),
    'absolute': (sabs, None), 'fabs': (sabs, F), 'sign': (sign, None),
    'maximum': (core.smax, None), 'minimum': (core.smin, None),
    'fmax': (core.smax, None), 'fmin': (core.smin, None),
    'greater': (operator.gt, B), 'greater_equal': (operator.ge, B),
    'less': (operator.lt, B), 'less_equal': (operator.le, B),
    'equal': (operator.eq, B), 'not_equal': (operator.ne, B),
    'logical_and': (land, B), 'logical_or': (lor, B), 'logical_not': (npnot, B),
    'bitwise_and': (bitand, None), 'bitwise_or': (bitor, None), 'invert': (invert, None),
    'left_shift': (operator.lshift, None), 'right_shift': (operator.rshift, None),
    'floor': (one(lambda x: core.tofloat(core.floor(x)), lambda x: float(rnp.floor(x))), F),
    'ceil': (one(lambda x: core.tofloat(core.ceil(x)), lambda x: float(rnp.ceil(x))), F),
    'trunc': (one(lambda x: core.tofloat(core.trunc(x)), lambda x: float(rnp.trunc(x))), F),
    'rint': (rint, F), 'square': (lambda x: x * x, None),
    'sqrt': (lambda x: core.sqrt(x, True), F),
    'isfinite': (isfin, B), 'isnan': (isnan, B), 'isinf': (isinf, B),
    'hypot': (hyp, F), 'reciprocal': (lambda x: npdiv(1.0, x), None),
    'conjugate': (lambda x: x, None), 'conj': (lambda x: x, None),
    'fix': (one(lambda x: core.tofloat(core.trunc(x)), lambda x: float(rnp.trunc(x))), F),
    'fmod': (npfmod, None), 'copysign': (copysign, F), 'heaviside': (heaviside, F),
}
UF.update(abs=UF['absolute'], bitwise_not=UF['invert'])
for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'arccos', 'arcsin', 'arctan', 'arctan2', 'tanh',
           'deg2rad', 'rad2deg', 'radians', 'degrees', 'exp2', 'log2', 'log10', 'log1p', 'expm1'):
    def _mkf(n):
        m = {'arccos': 'acos', 'arcsin': 'asin', 'arctan': 'atan', 'arctan2': 'atan2',
             'deg2rad': 'radians', 'rad2deg': 'degrees'}.get(n, n)

        def g(*a):
            if any(is_sym(x) for x in a):
                from . import smath as sm
                if not hasattr(sm, m):
                    raise Unsupported('np.' + n)
                return getattr(sm, m)(*a)
            with rnp.errstate(all='ignore'):
                r = getattr(rnp, n)(*a)
            if n in ('sin', 'cos') and abs(a[0]) > 1e-3 and abs(r - round(float(r))) < 1e-14:
                return float(round(float(r)))       # multiples of pi/2 are exact, as in smath
            return r
        return g
    UF[_n] = (_mkf(_n), F)


def apply_uf(name, args):
    fn, kind = UF[name]
    objs = [asobj(a) if isinstance(a, (rnp.ndarray, list, tuple)) else a for a in args]
    d = result_dt(objs)
    if kind == B:
        od = rnp.dtype('bool')
    elif kind == F:
        od = d if d.kind == 'f' else rnp.dtype('float64') if d.kind in 'iub' else d
    else:
        od = d
        if d.kind == 'b' and name in ('add', 'multiply'):
            fn = lor if name == 'add' else land
    scal = all(not isinstance(a, rnp.ndarray) for a in objs)
    if scal:
        return elem(cast(fn(*objs), od), od)
    raws = [a.raw() if isinstance(a, SArr) else rnp.array(_box(a), dtype=object) for a in objs]
    raws = [r if isinstance(r, rnp.ndarray) else _scalarr(r) for r in raws]
    bc = rnp.broadcast(*raws)
    out = rnp.empty(bc.shape, dtype=object)
    bs = rnp.broadcast_arrays(*raws, subok=False) if len(raws) > 1 else raws
    for i in rnp.ndindex(*bc.shape):
        out[i] = cast(fn(*[b[i] for b in bs]), od)
    r = SArr(out, od)
    return unwrap0(r)


def _box(a):
    return a


def _scalarr(v):
    a = rnp.empty((), dtype=object)
    a[()] = v
    return a


# a Sym has shape () so rnp.array(sym, dtype=object) is a 0-d object array


def ufunc(uf, method, args, kw):
    name = uf.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    d = kw.pop('dtype', None)
    if where is not True:
        raise Unsupported('ufunc where=')
    if name == 'matmul' and method == '__call__':
        r = f_dot(*args)
    elif name == 'divmod':
        r = (apply_uf('floor_divide', args), apply_uf('remainder', args))
        return r
    elif name == 'modf':
        raise Unsupported('modf')
    elif name not in UF:
        raise Unsupported('ufunc ' + name)
    elif method == '__call__':
        if name == 'rint' and kw:
            pass
        r = apply_uf(name, args)
    elif method == 'reduce':
        ax = kw.get('axis', 0)
        r = reduce_(name, args[0], ax, kw.get('keepdims', False), kw.get('initial', DEF))
    elif method == 'accumulate':
        r = f_cum(UF[name][0], args[0], kw.get('axis', 0))
    elif method == 'outer':
        a, b = asobj(args[0]), asobj(args[1])
        r = apply_uf(name, (a.reshape(a.shape + (1,) * b.ndim), b))
    else:
        raise Unsupported('ufunc method ' + method)
    if d is not None:
        r = asobj(r, dt(d)) if isinstance(r, SArr) else cast(r, dt(d))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SArr):
            o[...] = r
            return o
        raise Unsupported('ufunc out=')
    return r


def reduce_(name, a, axis=None, keepdims=False, initial=DEF):
    fn, kind = UF[name]
    a = asobj(a)
    if name in ('logical_and', 'logical_or'):
        neutral = name == 'logical_and'
    else:
        neutral = {'add': 0, 'multiply': 1}.get(name, DEF)
    d = a.ldt
    if name in ('add', 'multiply') and d.kind in 'bui':
        od = rnp.dtype('int64') if d.kind != 'u' else rnp.dtype('uint64')
        if d.kind == 'b':
            a = a.astype(od)
    elif kind == B:
        od = rnp.dtype('bool')
    else:
        od = d
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(x % a.ndim if a.ndim else 0 for x in axes)
    rest = [i for i in range(a.ndim) if i not in axes]
    t = a.raw().transpose(rest + list(axes)).reshape(tuple(a.shape[i] for i in rest) + (-1,)) \
        if a.size else rnp.empty(tuple(a.shape[i] for i in rest) + (
            int(rnp.prod([a.shape[i] for i in axes])),), dtype=object)
    out = rnp.empty(t.shape[:-1], dtype=object)
    for i in rnp.ndindex(*t.shape[:-1]):
        vs = list(t[i])
        acc = initial if initial is not DEF else DEF
        if acc is DEF and not vs:
            if neutral is DEF:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            acc = neutral
        if name in ('minimum', 'maximum') and len(vs) > 8 and not any(isinstance(v, float) and math.isnan(v) for v in vs):
            flat = [v for v in vs if isinstance(v, (int, float, rnp.integer, rnp.floating))]
            if 1 < len(flat) < len(vs):     # the order does not matter: the numbers first
                vs = [min(flat) if name == 'minimum' else max(flat)] + [
                    v for v in vs if not isinstance(v, (int, float, rnp.integer, rnp.floating))]
        for v in vs:
            acc = (tb(v) if kind == B else v) if acc is DEF else fn(acc, v)
        out[i] = cast(acc, od)
    r = SArr(out, od)
    if keepdims:
        sh = [1 if i in axes else a.shape[i] for i in range(a.ndim)]
        return r.reshape(sh)
    return unwrap0(r)


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------

def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=DEF, where=True):
    if where is not True:
        a = f_where(where, a, 0)
    if initial is not DEF:
        return f_sum(a, axis, dtype, out, keepdims) + initial
    if not isinstance(a, (rnp.ndarray, list, tuple)) and hasattr(a, '__iter__'):
        a = list(a)
    return reduce_('add', asobj(a, dt(dtype)) if dtype else a, axis, keepdims)


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_('multiply', a, axis, keepdims)


def f_amax(a, axis=None, out=None, keepdims=False, initial=DEF, where=True, **k):
    if where is not True:
        a = f_where(where, a, initial)
    return reduce_('maximum', a, axis, keepdims, initial)


def f_amin(a, axis=None, out=None, keepdims=False, initial=DEF, where=True, **k):
    if where is not True:
        a = f_where(where, a, initial)
    return reduce_('minimum', a, axis, keepdims, initial)


def f_ptp(a, axis=None, **k):
    return f_amax(a, axis) - f_amin(a, axis)


def f_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_('logical_and', a, axis, keepdims)


def f_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_('logical_or', a, axis, keepdims)


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asobj(a)
    n = a.size if axis is None else rnp.prod(
        [a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))])
    if n == 0:
        sh = () if axis is None else tuple(
            a.shape[i] for i in range(a.ndim) if i != axis % a.ndim)
        return unwrap0(mk_shape([rnp.float64('nan')] * int(rnp.prod(sh)), sh, rnp.dtype('float64')))
    if a.ldt.kind != 'f':
        a = a.astype('float64')
    return f_sum(a, axis, keepdims=keepdims) / float(n)


def f_var(a, axis=None, **k):
    a = asobj(a)
    m = f_mean(a, axis, keepdims=True)
    return f_mean((a - m) * (a - m), axis)


def f_std(a, axis=None, **k):
    return apply_uf('sqrt', (f_var(a, axis),))


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    a, w = asobj(a), asobj(weights)
    return f_sum(a * w, axis) / f_sum(w, axis)


def f_median(a, axis=None, **k):
    s = f_sort(asobj(a), -1 if axis is None else axis) if axis is not None else f_sort(asobj(a).ravel())
    if axis not in (None, -1, 0):
        raise Unsupported('median axis')
    n = s.shape[0]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def f_dot(a, b, out=None):
    a = asobj(a) if isinstance(a, (list, tuple, rnp.ndarray)) else a
    b = asobj(b) if isinstance(b, (list, tuple, rnp.ndarray)) else b
    if not isinstance(a, SArr) or not isinstance(b, SArr) or a.ndim == 0 or b.ndim == 0:
        return apply_uf('multiply', (a, b))
    d = result_dt([a, b])
    ra, rb = a.raw(), b.raw()
    if ra.ndim > 2 or rb.ndim > 2:
        raise Unsupported('dot of >2-d arrays')
    a2 = ra.reshape(1, -1) if ra.ndim == 1 else ra
    b2 = rb.reshape(-1, 1) if rb.ndim == 1 else rb
    if a2.shape[1] != b2.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    out = rnp.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            acc = 0
            for kk in range(a2.shape[1]):
                p = a2[i, kk] * b2[kk, j]
                acc = p if kk == 0 else acc + p
            out[i, j] = cast(acc, d)
    if ra.ndim == 1 and rb.ndim == 1:
        return elem(out[0, 0], d)
    if ra.ndim == 1:
        out = out[0]
    elif rb.ndim == 1:
        out = out[:, 0]
    return SArr(out, d)


def f_outer(a, b, out=None):
    a, b = asobj(a).ravel(), asobj(b).ravel()
    return apply_uf('multiply', (a.reshape(-1, 1), b.reshape(1, -1)))


def f_inner(a, b):
    a, b = asobj(a), asobj(b)
    return f_dot(a, b.T)


def f_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asobj(a), asobj(b)
    a = SArr(rnp.moveaxis(a.raw(), axisa, -1), a.ldt)
    b = SArr(rnp.moveaxis(b.raw(), axisb, -1), b.ldt)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    cs = [asobj(a1 * b2 - a2 * b1), asobj(a2 * b0 - a0 * b2), asobj(a0 * b1 - a1 * b0)]
    cs = [asobj(c) for c in cs]
    r = f_stack(cs, axis=-1)
    return SArr(rnp.moveaxis(r.raw(), -1, axisc), r.ldt) if r.ndim > 1 else r


def f_trace(a, *k):
    a = asobj(a)
    acc = a[0, 0]
    for i in range(1, builtins.min(a.shape)):
        acc = acc + a[i, i]
    return acc


def seq(xs):
    return [asobj(x) for x in (list(xs) if not isinstance(xs, rnp.ndarray) else xs)]


def joined(xs):
    d = rnp.result_type(*[x.ldt for x in xs]) if all(x.ldt != rnp.dtype('O') for x in xs) else rnp.dtype('O')
    return [x.astype(d).raw() if x.ldt != d else x.raw() for x in xs], d


def f_concatenate(xs, axis=0, out=None, **k):
    r, d = joined(seq(xs))
    return SArr(rnp.concatenate(r, axis=axis), d)


def f_stack(xs, axis=0, **k):
    r, d = joined(seq(xs))
    return SArr(rnp.stack(r, axis=axis), d)


def f_hstack(xs, **k):
    r, d = joined(seq(xs))
    return SArr(rnp.hstack(r), d)


def f_vstack(xs, **k):
    r, d = joined(seq(xs))
    return SArr(rnp.vstack(r), d)


def f_dstack(xs, **k):
    r, d = joined(seq(xs))
    return SArr(rnp.dstack(r), d)


def f_column_stack(xs):
    r, d = joined(seq(xs))
    return SArr(rnp.column_stack(r), d)


def f_append(a, v, axis=None):
    if axis is None:
        return f_concatenate([asobj(a).ravel(), asobj(v).ravel()])
    return f_concatenate([a, v], axis)


def _plain(x):
    """counts, axes and shapes as plain integers"""
    if isinstance(x, Sym):
        return operator.index(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_plain(y) for y in x)
    if isinstance(x, rnp.ndarray):
        x = asobj(x)
        if x.ldt.kind not in 'iub':
            raise TypeError('integers expected, got an array of %s' % x.ldt)
        r = rnp.empty(x.shape, dtype=x.ldt)
        for i in rnp.ndindex(*x.shape):
            v = x.raw()[i]
            r[i] = core.CTX.concretize(v.e) if isinstance(v, Sym) else bool(v) if x.ldt.kind == 'b' else v
        return r
    return x


def structural(name):
    rf = getattr(rnp, name)

    def g(a, *args, **k):
        a = asobj(a)
        args = tuple(_plain(x) for x in args)
        k = {n: _plain(x) for n, x in k.items() if n != 'subok'}
        r = rf(a.raw(), *args, **k)
        if isinstance(r, (list, tuple)):
            return [SArr(x, a.ldt) for x in r]
        return SArr(r, a.ldt)
    return g


def f_shape(a): return asobj(a).shape
def f_ndim(a): return asobj(a).ndim
def f_size(a, axis=None): return asobj(a).size if axis is None else asobj(a).shape[axis]


def f_where(c, x=DEF, y=DEF):
    if x is DEF:
        return f_nonzero(c)
    c = asobj(c, rnp.dtype('bool'))
    x = asobj(x) if isinstance(x, (rnp.ndarray, list, tuple)) else x
    y = asobj(y) if isinstance(y, (rnp.ndarray, list, tuple)) else y
    d = result_dt([x, y])
    rs = [c.raw()] + [q.raw() if isinstance(q, SArr) else _scalarr(q) for q in (x, y)]
    bs = rnp.broadcast_arrays(*rs)
    out = rnp.empty(bs[0].shape, dtype=object)
    for i in rnp.ndindex(*out.shape):
        cc = bs[0][i]
        out[i] = cast(core.ite(cc, cast(bs[1][i], d), cast(bs[2][i], d)), d)
    return unwrap0(SArr(out, d)) if out.shape == () else SArr(out, d)


def f_nonzero(a):
    a = asobj(a)
    m = rnp.empty(a.shape, dtype=bool)
    for i in rnp.ndindex(*a.shape):
        m[i] = bool(tb(a.raw()[i]))
    return tuple(SArr(x.astype(object), rnp.dtype('int64')) for x in rnp.nonzero(m))


def f_argwhere(a):
    return f_column_stack(f_nonzero(a))


def f_flatnonzero(a):
    return f_nonzero(asobj(a).ravel())[0]


def f_count_nonzero(a, axis=None):
    a = asobj(a)
    return f_sum(asobj([tb(x) for x in a.raw().reshape(-1)], rnp.dtype('bool')).reshape(a.shape), axis)


class Key(object):
    __slots__ = ('v',)

    def __init__(self, v): self.v = v
    def __lt__(self, o): return bool(self.v < o.v)


class LexKey(object):
    __slots__ = ('v',)

    def __init__(self, v): self.v = v

    def __lt__(self, o):
        for a, b in zip(self.v, o.v):
            if bool(a < b):
                return True
            if bool(b < a):
                return False
        return False


def sorted_idx(vals):
    return sorted(range(len(vals)), key=lambda i: Key(vals[i]))


def f_argsort(a, axis=-1, kind=None, order=None, **k):
    a = asobj(a)
    if a.ndim == 1:
        # a stable order; ties of the real (unstable) sort are outside the model
        return mk(sorted_idx(list(a.raw())), rnp.dtype('int64'))
    m = rnp.moveaxis(a.raw(), axis, -1)
    out = rnp.empty(m.shape, dtype=object)
    for i in rnp.ndindex(*m.shape[:-1]):
        out[i] = sorted_idx(list(m[i]))
    return SArr(rnp.moveaxis(out, -1, axis), rnp.dtype('int64'))


def f_sort(a, axis=-1, kind=None, order=None, **k):
    a = asobj(a)
    if axis is None:
        a, axis = a.ravel(), -1
    m = rnp.moveaxis(a.raw(), axis, -1)
    out = rnp.empty(m.shape, dtype=object)
    for i in rnp.ndindex(*m.shape[:-1]):
        vs = list(m[i])
        out[i] = [vs[j] for j in sorted_idx(vs)]
    return SArr(rnp.moveaxis(out, -1, axis), a.ldt)


def f_lexsort(keys, axis=-1):
    ks = [asobj(k) for k in keys]
    n = ks[0].shape[0]
    return mk(sorted(range(n), key=lambda i: LexKey([k.raw()[i] for k in reversed(ks)])),
              rnp.dtype('int64'))


def f_argmin(a, axis=None, **k):
    return argext(a, axis, lambda x, y: x < y)


def f_argmax(a, axis=None, **k):
    return argext(a, axis, lambda x, y: x > y)


def argext(a, axis, better):
    a = asobj(a)
    if axis is None:
        vs = list(a.raw().reshape(-1))
        if not vs:
            raise ValueError('attempt to get argmin of an empty sequence')
        b = 0
        for i in range(1, len(vs)):
            if better(vs[i], vs[b]):
                b = i
        return b
    m = rnp.moveaxis(a.raw(), axis, -1)
    out = rnp.empty(m.shape[:-1], dtype=object)
    for i in rnp.ndindex(*out.shape):
        out[i] = argext(list(m[i]), None, better)
    return SArr(out, rnp.dtype('int64'))


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asobj(a)
    if axis is not None:
        if axis != 0 or a.ndim != 2:
            raise Unsupported('unique axis')
        rows = [list(r) for r in a.raw()]
        order = sorted(range(len(rows)), key=lambda i: LexKey(rows[i]))
        same = lambda i, j: bool(core.sand([x == y for x, y in zip(rows[i], rows[j])]))
    else:
        vals = list(a.raw().reshape(-1))
        order = sorted_idx(vals)
        same = lambda i, j: bool(vals[i] == vals[j])
    firsts, inv, counts = [], {}, []
    for p, i in enumerate(order):
        if firsts and same(firsts[-1], i):
            counts[-1] += 1
        else:
            firsts.append(i)
            counts.append(1)
        inv[i] = len(firsts) - 1
    if axis is None:
        u = mk_shape([vals[i] for i in firsts], (len(firsts),), a.ldt)
    else:
        u = SArr(a.raw()[firsts] if firsts else a.raw()[:0], a.ldt)
    res = [u]
    i64 = rnp.dtype('int64')
    if return_index:
        res.append(mk(firsts, i64))
    if return_inverse:
        res.append(mk([inv[i] for i in range(len(order))], i64))
    if return_counts:
        res.append(mk(counts, i64))
    return res[0] if len(res) == 1 else tuple(res)


def f_union1d(a, b):
    return f_unique(f_concatenate([asobj(a).ravel(), asobj(b).ravel()]))


def f_intersect1d(a, b, **k):
    a, b = f_unique(a), f_unique(b)
    keep = [v for v in a.raw() if bool(core.sor([v == w for w in b.raw()]))]
    return mk_shape(keep, (len(keep),), a.ldt)


def f_setdiff1d(a, b, **k):
    a, b = f_unique(a), asobj(b).ravel()
    keep = [v for v in a.raw() if not bool(core.sor([v == w for w in b.raw()]))]
    return mk_shape(keep, (len(keep),), a.ldt)


def f_isin(a, b, **k):
    a, b = asobj(a), asobj(b).ravel()
    return mk_shape([core.sor([v == w for w in b.raw()]) for v in a.raw().reshape(-1)], a.shape,
                    rnp.dtype('bool'))


def f_cum(fn, a, axis=None):
    a = asobj(a)
    if axis is None:
        a, axis = a.ravel(), 0
    d = a.ldt if a.ldt.kind == 'f' else rnp.dtype('int64')
    a = a.astype(d)
    m = rnp.moveaxis(a.raw(), axis, 0).copy()
    for i in range(1, m.shape[0]):
        for j in rnp.ndindex(*m.shape[1:]):
            ix = (i,) + j
            m[ix] = fn(m[(i - 1,) + j], m[ix])
    return SArr(rnp.moveaxis(m, 0, axis), d)


def f_cumsum(a, axis=None, dtype=None, out=None):
    return f_cum(operator.add, a, axis)


def f_cumprod(a, axis=None, dtype=None, out=None):
    return f_cum(operator.mul, a, axis)


def f_diff(a, n=1, axis=-1, prepend=DEF, append=DEF):
    a = asobj(a)
    for x, front in ((prepend, True), (append, False)):
        if x is not DEF:
            x = asobj(x)
            if x.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                x = NP.broadcast_to(x, tuple(sh))
            a = f_concatenate([x, a] if front else [a, x], axis)
    for _ in range(n):
        m = SArr(rnp.moveaxis(a.raw(), axis, 0), a.ldt)
        r = m[1:] - m[:-1]
        a = SArr(rnp.moveaxis(r.raw(), 0, axis), a.ldt)
    return a


def f_searchsorted(a, v, side='left', sorter=None):
    a = asobj(a)
    if isinstance(v, (rnp.ndarray, list, tuple)):
        v = asobj(v)
        return mk_shape([f_searchsorted(a, x, side) for x in v.raw().reshape(-1)], v.shape,
                        rnp.dtype('int64'))
    for i, x in enumerate(a.raw()):
        if bool(x >= v if side == 'left' else x > v):
            return i
    return a.shape[0]


def f_ediff1d(a, to_end=None, to_begin=None):
    r = f_diff(asobj(a).reshape(-1))
    parts = [asobj(x).reshape(-1) for x in (to_begin,) if x is not None] + [r] + [
        asobj(x).reshape(-1) for x in (to_end,) if x is not None]
    return f_concatenate(parts)


def f_digitize(x, bins, right=False):
    bins = asobj(bins)
    if bool(f_all(bins[1:] >= bins[:-1])):
        return f_searchsorted(bins, x, 'left' if right else 'right')
    raise Unsupported('digitize with falling bins')


def f_select(conds, choices, default=0):
    r = default
    for k, v in reversed(list(zip(conds, choices))):
        r = f_where(k, v, r)
    return r


def f_compress(cond, a, axis=None, out=None):
    a = asobj(a)
    return a.reshape(-1)[asobj(cond)] if axis is None else f_take(a, f_flatnonzero(cond), axis)


def f_extract(cond, a): return asobj(a).reshape(-1)[asobj(cond).reshape(-1)]


def f_take(a, indices, axis=None, out=None, mode='raise'):
    a = asobj(a)
    if mode != 'raise':
        n = a.size if axis is None else a.shape[axis]
        ix = asobj(indices)
        indices = f_clip(ix, 0, n - 1) if mode == 'clip' else apply_uf('remainder', (ix, n))
    if axis is None:
        return a.reshape(-1)[asobj(indices) if isinstance(indices, (list, tuple, rnp.ndarray)) else indices]
    ix = asobj(indices) if isinstance(indices, (list, tuple, rnp.ndarray)) else indices
    return a[(slice(None),) * (axis % a.ndim) + (ix,)]


def f_take_along_axis(a, ix, axis):
    a, ix = asobj(a), asobj(ix)
    if axis is None:
        return a.reshape(-1)[ix]
    axis %= a.ndim
    out = rnp.empty(ix.shape, dtype=object)
    raw, jx = a.raw(), ix.raw()
    for p in rnp.ndindex(*ix.shape):
        j = jx[p]
        j = int(core.ctx().concretize(j.e)) if is_sym(j) else int(j)
        out[p] = raw[p[:axis] + (j,) + p[axis + 1:]]
    return SArr(out, a.ldt)


def f_insert(a, obj, values, axis=None):
    a = asobj(a)
    obj = _plain(obj)
    if isinstance(obj, (list, tuple, rnp.ndarray)) and rnp.size(obj) == 1:
        obj = rnp.reshape(obj, -1)[0]
    if not isinstance(obj, (int, rnp.integer)):
        raise Unsupported('insert at several places')
    if axis is None:
        a, axis = a.reshape(-1), 0
    if obj < 0:
        obj += a.shape[axis]
    v = asobj(values, a.ldt)
    sh = list(a.shape)
    sh[axis] = 1
    if v.ndim == a.ndim:
        sh[axis] = v.shape[axis]
    elif v.ndim == 1 and a.ndim == 1:
        sh[axis] = v.size
    v = NP.broadcast_to(v, tuple(sh))
    pre = (slice(None),) * axis
    return f_concatenate([a[pre + (slice(None, obj),)], v, a[pre + (slice(obj, None),)]], axis)


def f_block(xs):
    def depth(x): return 1 + depth(x[0]) if isinstance(x, list) else 0

    def go(x, axis):
        return f_concatenate([go(y, axis + 1) for y in x], axis) if isinstance(x, list) else x
    n = depth(xs)

    def lift(x):
        if isinstance(x, list):
            return [lift(y) for y in x]
        a = asobj(x)
        while a.ndim < n:
            a = a.reshape((1,) + a.shape)
        return a
    xs = lift(xs)
    dim = 0
    y = xs
    while isinstance(y, list):
        y = y[0]
    dim = y.ndim
    return go(xs, dim - n)


def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asobj(a)
    out = a.copy()
    flat = out.raw().reshape(-1)
    for i, v in enumerate(flat):
        if not is_sym(v):
            flat[i] = float(rnp.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)) if a.ldt.kind == 'f' else v
    return mk_shape(list(flat), a.shape, a.ldt)


def _without_nan(f):
    def g(a, *args, **k):
        a = asobj(a)
        if any(not is_sym(v) and v != v for v in a.raw().reshape(-1)):
            if args or k or f not in (f_amin, f_amax, f_sum, f_mean):
                raise Unsupported('nan function over an axis with nan')
            a = a.reshape(-1)[asobj([is_sym(v) or v == v for v in a.raw().reshape(-1)])]
        return f(a, *args, **k)
    return g


def f_array_equiv(a, b):
    a, b = asobj(a), asobj(b)
    try:
        return f_all(apply_uf('equal', (a, b)))
    except ValueError:
        return False


def f_isscalar(x): return is_sym(x) or bool(rnp.isscalar(x))
def f_iterable(x): return not is_sym(x) and (isinstance(x, SArr) and x.ndim > 0 or hasattr(x, '__iter__'))
def f_result_type(*xs): return result_dt([asobj(x) if isinstance(x, rnp.ndarray) else x for x in xs])


def f_may_share_memory(a, b, max_work=None):
    return bool(rnp.may_share_memory(rnp.asarray(a.raw() if isinstance(a, SArr) else a),
                                     rnp.asarray(b.raw() if isinstance(b, SArr) else b)))


f_shares_memory = f_may_share_memory


def f_pad(a, width, mode='constant', **k):
    a = asobj(a)
    if mode not in ('constant', 'edge') or set(k) - {'constant_values'}:
        raise Unsupported('pad ' + str(mode))
    v = k.get('constant_values', 0)
    if isinstance(v, (list, tuple, rnp.ndarray)):
        raise Unsupported('pad with several values')
    w = rnp.broadcast_to(rnp.asarray(width), (a.ndim, 2))
    for ax in range(a.ndim):
        parts = [a]
        pre = (slice(None),) * ax
        for n, at in ((int(w[ax][0]), 0), (int(w[ax][1]), 1)):
            if not n:
                continue
            if mode == 'edge':
                e = a[pre + (slice(0, 1) if at == 0 else slice(-1, None),)]
                x = NP.repeat(e, n, axis=ax)
            else:
                sh = list(a.shape)
                sh[ax] = n
                x = c_full(tuple(sh), v, a.ldt)
            parts = [x] + parts if at == 0 else parts + [x]
        a = f_concatenate(parts, ax)
    return a


def f_fill_diagonal(a, v, wrap=False):
    v = asobj(v)
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v.raw().reshape(-1)[i % v.size] if v.ndim else v.raw()[()]


def f_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


def f_bincount(x, weights=None, minlength=0):
    x = asobj(x).raw().reshape(-1)
    ids = [int(core.ctx().concretize(v.e)) if is_sym(v) else int(v) for v in x]
    if weights is not None:
        n = max(ids + [int(minlength) - 1]) + 1
        out = [0.0] * n
        for k, v in zip(ids, asobj(weights).raw().reshape(-1)):
            out[k] = out[k] + v
        return mk_shape(out, (n,), rnp.dtype('float64'))
    return asobj(rnp.bincount(rnp.array(ids, dtype=int), minlength=minlength))


def f_choose(ix, choices, out=None, mode='raise'):
    ix = asobj(ix)
    bs = NP.broadcast_arrays(ix, *[asobj(c) for c in choices]) if 0 else rnp.broadcast_arrays(
        ix.raw(), *[asobj(c).raw() for c in choices])
    flat = []
    for i in rnp.ndindex(*bs[0].shape):
        j = bs[0][i]
        j = int(core.ctx().concretize(j.e)) if is_sym(j) else int(j)
        if not 0 <= j < len(choices):
            raise ValueError('invalid entry in choice array')
        flat.append(bs[1 + j][i])
    return mk_shape(flat, bs[0].shape, result_dt([asobj(c) for c in choices]))


def f_ix_(*args):
    out = []
    for k, a in enumerate(args):
        a = asobj(a)
        if a.ldt.kind == 'b':
            a = f_nonzero(a)[0]
        out.append(a.reshape(tuple(-1 if i == k else 1 for i in range(len(args)))))
    return tuple(out)


def f_unravel_index(ix, shape, order='C'):
    shape = _plain(shape)
    one_ = not isinstance(ix, (list, tuple, rnp.ndarray))
    x = ix if one_ else asobj(ix)
    out = []
    for n in reversed(shape if isinstance(shape, tuple) else (shape,)):
        out.append(x % n)
        x = x // n
    return tuple(reversed(out))


def f_ravel_multi_index(ix, dims, mode='raise', order='C'):
    r = 0
    for x, n in zip(ix, _plain(dims)):
        r = r * n + (asobj(x) if isinstance(x, (list, tuple, rnp.ndarray)) else x)
    return r


def f_modf(x):
    whole = NP.trunc(x)
    return x - whole, whole


def f_histogram(a, bins=10, range=None, weights=None, density=None):
    a = asobj(a).reshape(-1)
    if isinstance(bins, int) or weights is not None or density:
        raise Unsupported('histogram with computed bins')
    bins = asobj(bins)
    n = bins.shape[0] - 1
    out = [0] * n
    for v in a.raw():
        for k in rnp.arange(n):
            lo, hi = bins.raw()[k], bins.raw()[k + 1]
            if bool(core.sand([v >= lo, v <= hi if k == n - 1 else v < hi])):
                out[k] += 1
                break
    return mk_shape(out, (n,), rnp.dtype('int64')), bins


def at_(n, a, ix, b=None):
    """ufunc.at: unbuffered, place by place"""
    if not isinstance(a, SArr):
        raise Unsupported('ufunc.at on a plain array')
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = [asobj(x) for x in ix]
    bs = rnp.broadcast_arrays(*[x.raw() for x in ix])
    if b is not None:
        tail = a.shape[len(ix):]
        b = NP.broadcast_to(asobj(b), bs[0].shape + tail)
    for i in rnp.ndindex(*bs[0].shape):
        key = tuple(x[i] for x in bs)
        a[key] = apply_uf(n, [a[key]] + ([] if b is None else [b[i]]))


def reduceat_(n, a, ix, axis=0):
    a, ix = asobj(a), [int(v) for v in _plain(asobj(ix))]
    if axis % a.ndim:
        raise Unsupported('reduceat over another axis')
    out = []
    for k, i in enumerate(ix):
        j = ix[k + 1] if k + 1 < len(ix) else a.shape[0]
        out.append(a[i] if j <= i else reduce_(n, a[i:j], 0))
    return asobj(out)


def f_cbrt(x): raise Unsupported('cbrt')


def f_trim_zeros(f, trim='fb'):
    f = asobj(f)
    i, j = 0, f.shape[0]
    if 'f' in trim.lower():
        while i < j and not bool(f[i] != 0):
            i += 1
    if 'b' in trim.lower():
        while j > i and not bool(f[j - 1] != 0):
            j -= 1
    return f[i:j]


def f_kron(a, b):
    a, b = asobj(a), asobj(b)
    if a.ndim == b.ndim == 1:
        return f_outer(a, b).reshape(-1)
    if a.ndim == b.ndim == 2:
        return f_block([[x * b for x in row] for row in a])
    raise Unsupported('kron')


def f_tensordot(a, b, axes=2):
    a, b = asobj(a), asobj(b)
    if not isinstance(axes, int):
        xa, xb = ([x] if isinstance(x, int) else list(x) for x in axes)
        xa, xb = [x % a.ndim for x in xa], [x % b.ndim for x in xb]
        a = NP.transpose(a, [i for i in range(a.ndim) if i not in xa] + xa)
        b = NP.transpose(b, xb + [i for i in range(b.ndim) if i not in xb])
        axes = len(xa)
    n = axes
    sa, sb = a.shape, b.shape
    k = int(rnp.prod(sa[a.ndim - n:], dtype=int))
    r = f_dot(a.reshape(-1, k), b.reshape(k, -1))
    return r.reshape(sa[:a.ndim - n] + sb[n:]) if a.ndim + b.ndim > 2 * n else r.reshape(-1)[0]


def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo, hi = a_min if min is None else min, a_max if max is None else max
    if out is not None:
        raise Unsupported('clip out')
    r = a
    if lo is not None:
        r = apply_uf('maximum', (r, lo))
    if hi is not None:
        r = apply_uf('minimum', (r, hi))
    return r


def f_round(a, decimals=0, out=None):
    if decimals:
        if isinstance(a, SArr) and any(is_sym(x) for x in a.raw().reshape(-1)) or is_sym(a):
            raise Unsupported('round decimals')
        return asobj(rnp.round(conc(a), decimals))
    return apply_uf('rint', (a,))


def tol(b, rtol, atol):
    return core.tofloat(abs(b)) * rtol + atol if is_sym(b) else abs(float(b)) * rtol + atol


def close(a, b, rtol, atol):
    if not is_sym(a) and not is_sym(b):
        return bool(rnp.isclose(float(a), float(b), rtol, atol))
    if isinstance(a, SymBool): a = a._num()
    if isinstance(b, SymBool): b = b._num()
    for x in (a, b):
        if not is_sym(x) and (math.isinf(x) or math.isnan(x)):
            return False
    return core.sand([abs(a - b) <= tol(b, rtol, atol)])


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asobj(a), asobj(b)
    bs = rnp.broadcast_arrays(a.raw(), b.raw())
    out = rnp.empty(bs[0].shape, dtype=object)
    for i in rnp.ndindex(*out.shape):
        out[i] = close(bs[0][i], bs[1][i], rtol, atol)
    return unwrap0(SArr(out, rnp.dtype('bool')))


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return f_all(r) if isinstance(r, SArr) else r


def f_array_equal(a, b, equal_nan=False):
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        return False
    return core.sand([x == y for x, y in zip(a.raw().reshape(-1), b.raw().reshape(-1))])


def f_linspace(a, b, num=50, endpoint=True, **k):
    if not is_sym(a) and not is_sym(b):
        return asobj(rnp.linspace(a, b, num, endpoint))
    n = num - 1 if endpoint else num
    return mk([a + (b - a) * core.Fraction(i, n) if n else a for i in range(num)],
              rnp.dtype('float64'))


def f_arange(*a, **k):
    a = [operator.index(x) if isinstance(x, Sym) else x for x in a]
    if k.get('dtype') is not None:
        k['dtype'] = dt(k['dtype'])
    return asobj(rnp.arange(*a, **k))


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = asobj(y)
    if x is None:
        return f_sum((y[1:] + y[:-1]) / 2.0) * dx
    x = asobj(x)
    return f_sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2.0)


def f_einsum(*a, **k):
    spec, ops = a[0], [asobj(x) for x in a[1:]]
    lhs, arrow, rhs = spec.replace(' ', '').partition('->')
    ins = lhs.split(',')
    if '.' in lhs:
        raise Unsupported('einsum with an ellipsis')
    if not arrow:
        letters = lhs.replace(',', '')
        rhs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in rhs]
    d = result_dt(ops)
    out = rnp.empty(tuple(dims[c] for c in rhs), dtype=object)
    for i in rnp.ndindex(*out.shape):
        env = dict(zip(rhs, i))
        acc = 0
        for j in rnp.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            p = 1
            for s, o in zip(ins, ops):
                p = p * o.raw()[tuple(env[c] for c in s)]
            acc = acc + p
        out[i] = cast(acc, d)
    return unwrap0(SArr(out, d))


def f_apply_along_axis(fn, axis, a, *args, **k):
    a = asobj(a)
    m = SArr(rnp.moveaxis(a.raw(), axis, -1), a.ldt)
    outs = [fn(m[i], *args, **k) for i in rnp.ndindex(*m.shape[:-1])]
    r = asobj(outs)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def f_vectorize(fn, **k):
    def g(*args):
        objs = [asobj(a) for a in args]
        bs = rnp.broadcast_arrays(*[o.raw() for o in objs])
        flat = [fn(*[b[i] for b in bs]) for i in rnp.ndindex(*bs[0].shape)]
        return mk(flat).reshape(bs[0].shape)
    return g


def conc(x):
    """SArr / nested -> real numpy (raises when symbolic)"""
    if isinstance(x, SArr):
        if any(is_sym(v) for v in x.raw().reshape(-1)):
            raise Unsupported('symbolic array passed to unmodelled numpy function')
        return x.raw().astype(x.ldt)
    if isinstance(x, (list, tuple)):
        return type(x)(conc(y) for y in x)
    if is_sym(x):
        raise Unsupported('symbolic scalar passed to unmodelled numpy function')
    return x


def generic(func, args, kwargs):
    try:
        a = [conc(x) for x in args]
        k = {n: conc(v) for n, v in kwargs.items()}
    except Unsupported:
        raise Unsupported('numpy function %s on symbolic data' % getattr(func, '__name__', func))
    r = func(*a, **k)
    return rewrap(r)


def rewrap(r):
    if isinstance(r, rnp.ndarray):
        return asobj(r)
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    return r


# -- creation ----------------------------------------------------------------

def c_array(obj, dtype=None, copy=True, order=None, ndmin=0, **k):
    d = dt(dtype)
    if order in ('F',):
        return forder(c_array(obj, dtype, ndmin=ndmin))
    if isinstance(obj, SArr):
        return obj.astype(d) if d is not None and d != obj.ldt else obj.copy()
    if hasattr(obj, '__array_sym__'):
        return c_array(obj.__array_sym__(), dtype)
    r = asobj(obj, d)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def c_asarray(obj, dtype=None, order=None, **k):
    d = dt(dtype)
    if isinstance(obj, SArr) and (d is None or d == obj.ldt):
        r = obj.raw()
        if order == 'F' and not r.flags['F_CONTIGUOUS']:
            return forder(obj)
        if order == 'C' and not r.flags['C_CONTIGUOUS']:
            return SArr(rnp.array(r, order='C'), obj.ldt)
        return obj
    return c_array(obj, d, order=order)


def forder(a):
    return SArr(rnp.asfortranarray(a.raw()), a.ldt)


def c_asfortran(a, dtype=None): return c_asarray(a, dtype, order='F')
def c_ascontiguous(a, dtype=None): return c_asarray(a, dtype, order='C')


def shp(s):
    if isinstance(s, (int, rnp.integer)):
        return (int(s),)
    if isinstance(s, Sym):
        return (operator.index(s),)
    return tuple(operator.index(x) for x in s)


def c_full(shape, v, dtype=None, order='C', **k):
    d = dt(dtype) if dtype is not None else result_dt([v])
    s = shp(shape)
    n = 1
    for x in s:
        if x < 0:
            raise ValueError('negative dimensions are not allowed')
        n *= x
    r = mk_shape([cast(v, d)] * n, s, d)
    return forder(r) if order == 'F' else r


def c_zeros(shape, dtype=float, order='C', **k): return c_full(shape, 0, dtype or float, order)
def c_ones(shape, dtype=float, order='C', **k): return c_full(shape, 1, dtype or float, order)


def c_empty(shape, dtype=float, order='C', **k):
    """uninitialised memory: fresh unconstrained values, so reading it is noticed"""
    d = dt(dtype or float)
    r = c_full(shape, 0, d, order)
    if core.CTX is not None and d.kind in 'fiu':
        raw = r.raw()
        for i in rnp.ndindex(*r.shape):
            raw[i] = Sym(core.CTX.fresh('uninit', 'R' if d.kind == 'f' else 'I'), True)
    return r


def like(fn):
    def g(a, dtype=None, **k):
        a = asobj(a)
        return fn(k.pop('shape', None) or a.shape, dtype or a.ldt)
    return g


def c_full_like(a, v, dtype=None, **k):
    a = asobj(a)
    return c_full(a.shape, v, dtype or a.ldt)


def c_eye(n, m=None, k=0, dtype=float, **kw): return asobj(rnp.eye(n, m, k), dt(dtype))
def c_identity(n, dtype=None, **k): return asobj(rnp.identity(n), dt(dtype or float))


def c_diag(v, k=0):
    v = asobj(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        r = c_zeros((n, n), v.ldt)
        for i in range(v.shape[0]):
            r[i + builtins.max(-k, 0), i + builtins.max(k, 0)] = v[i]
        return r
    return SArr(rnp.diag(v.raw(), k), v.ldt)


def c_finfo(d):
    return rnp.finfo(d if isinstance(d, type) and issubclass(d, rnp.generic) else dt(d) if not isinstance(
        d, SArr) else d.ldt)


def c_iinfo(d): return rnp.iinfo(d.ldt if isinstance(d, SArr) else dt(d))


def c_fromiter(it, dtype, count=-1): return c_array(list(it), dtype)


def c_frombuffer(buf, dtype=float, count=-1, offset=0):
    return asobj(rnp.frombuffer(buf, dt(dtype), count, offset))


def c_meshgrid(*xs, **k):
    xs = [asobj(x) for x in xs]
    rs = rnp.meshgrid(*[x.raw() for x in xs], **k)
    return [SArr(r, x.ldt) for r, x in zip(rs, xs)]


# text codec: numbers print as tokens; reading one back gives any value the printed digits allow

def t_array2string(a, max_line_width=None, precision=None, suppress_small=None, separator=' ', prefix='',
                   style=None, formatter=None, threshold=None, edgeitems=None, sign=None, floatmode=None,
                   suffix='', **k):
    a = asobj(a)
    if formatter or style:
        raise Unsupported('array2string formatter')
    if not any(is_sym(v) for v in a.raw().reshape(-1)):
        arr = rnp.array(a.raw().tolist(), dtype=a.ldt) if a.ldt != rnp.dtype('O') else a.raw()
        return rnp.array2string(arr, max_line_width, precision, suppress_small, separator, prefix,
                                threshold=threshold, edgeitems=edgeitems, sign=sign, floatmode=floatmode)
    if a.ndim != 1:
        raise Unsupported('array2string of a matrix')
    limit = 1000 if threshold is None else threshold
    if a.size > limit:
        raise Unsupported('summarised array2string')
    digits = 8 if precision is None else precision
    if floatmode == 'unique':
        digits = None
    if a.ldt == rnp.dtype('float32') and (digits is None or digits >= 8):
        digits = None
    toks = []
    for v in a.raw().reshape(-1):
        if isinstance(v, Sym):
            toks.append(core.text_token(v, digits))
        elif a.ldt.kind == 'f':
            toks.append(rnp.format_float_positional(v, precision=digits, unique=True))
        else:
            toks.append(str(v))
    return '[' + separator.join(toks) + ']'


def t_num(s):
    """inverse of the text codec for one token"""
    s = s.strip()
    if s.startswith('<') and s.endswith('>') and s[1:-1].isdigit():
        return core.CTX.user['text'][int(s[1:-1])]
    return rnp.float64(s)


def t_fromstring(s, dtype=float, count=-1, sep=''):
    if sep == '':
        raise Unsupported('binary fromstring')
    toks = s.split(sep) if sep.strip() else s.split()
    out = []
    for t in toks:
        if t.strip() == '' and len(toks) == 1:
            break
        try:
            out.append(t_num(t))
        except ValueError:
            # numpy 1.26: deprecated, stops at the first bad token
            break
    return mk(out, dt(dtype))


# -- linalg -------------------------------------------------------------------

class LinAlg(object):
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asobj(x)
        if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim == 2 and axis is None):
            if ord == 1 and x.ndim == 1:
                return f_sum(apply_uf('absolute', (x,)))
            if ord == rnp.inf and x.ndim == 1:
                return f_amax(apply_uf('absolute', (x,)))
            raise Unsupported('norm ord')
        x = x.astype('float64')
        return apply_uf('sqrt', (f_sum(x * x, axis, keepdims=keepdims),))

    @staticmethod
    def det(a):
        a = asobj(a).astype('float64').raw()
        return elem(_det([list(r) for r in a]), rnp.dtype('float64'))

    @staticmethod
    def inv(a):
        a = asobj(a).astype('float64')
        n = a.shape[0]
        m = [list(r) for r in a.raw()]
        d = _det(m)
        if is_sym(d):
            if bool(d == 0):
                raise rnp.linalg.LinAlgError('Singular matrix')
        elif d == 0:
            raise rnp.linalg.LinAlgError('Singular matrix')
        out = rnp.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = [r[:j] + r[j + 1:] for q, r in enumerate(m) if q != i]
                c = _det(minor) if minor else 1.0
                out[j, i] = cast(npdiv(c if (i + j) % 2 == 0 else -c, d), rnp.dtype('float64'))
        return SArr(out, rnp.dtype('float64'))

    @staticmethod
    def solve(a, b):
        return f_dot(LinAlg.inv(a), b)

    @staticmethod
    def multi_dot(xs):
        r = xs[0]
        for x in xs[1:]:
            r = f_dot(r, x)
        return r

    @staticmethod
    def matrix_power(a, n):
        r = c_identity(asobj(a).shape[0])
        for _ in range(n):
            r = f_dot(r, a)
        return r

    def __getattr__(self, n):
        f = getattr(rnp.linalg, n)
        return lambda *a, **k: generic(f, a, k)


def _det(m):
    n = len(m)
    if n == 0:
        return 1.0
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    acc = 0
    for j in range(n):
        c = _det([r[:j] + r[j + 1:] for r in m[1:]])
        t = m[0][j] * c
        acc = acc + t if j % 2 == 0 else acc - t
    return acc


class Testing(object):
    @staticmethod
    def assert_array_equal(a, b, *k, **kw):
        if not bool(f_array_equal(a, b)):
            raise AssertionError('arrays are not equal')

    @staticmethod
    def assert_array_almost_equal(a, b, decimal=6, *k, **kw):
        a, b = asobj(a), asobj(b)
        if a.shape != b.shape or not bool(f_all(apply_uf('less', (
                apply_uf('absolute', (a - b,)), 1.5 * 10.0 ** -decimal)))):
            raise AssertionError('arrays are not almost equal')

    @staticmethod
    def assert_allclose(a, b, rtol=1e-7, atol=0, **k):
        if not bool(f_allclose(a, b, rtol, atol)):
            raise AssertionError('arrays are not close')
    assert_equal = assert_array_equal


class RandomMod(object):
    """numpy.random: arbitrary values within the documented range"""

    def __init__(self):
        self.n = 0

    def _u(self, lo, hi):
        c = core.CTX
        f = c.user.get('np_random')
        if f is not None:
            return f(lo, hi)
        v = c.fresh('nprand')
        c.add(v >= core._q(lo))
        c.add(v < core._q(hi))
        return Sym(v, True)

    def random(self, size=None):
        return self.uniform(0, 1, size)
    random_sample = rand1 = random

    def uniform(self, lo=0.0, hi=1.0, size=None):
        if size is None:
            return self._u(lo, hi)
        s = shp(size)
        return mk_shape([self._u(lo, hi) for _ in range(int(rnp.prod(s)))], s, rnp.dtype('float64'))

    def rand(self, *s):
        return self.uniform(0, 1, s if s else None)

    def _i(self, lo, hi):
        if not core.is_sym(lo) and not core.is_sym(hi) and hi <= lo:
            raise ValueError('low >= high')
        f = core.CTX.user.get('np_randint')
        if f is not None:
            return f(lo, hi)
        v = Sym(core.CTX.fresh('nprandint', 'I'), True)
        core.CTX.assume(v >= lo)
        core.CTX.assume(v < hi)
        return v

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return self._i(lo, hi)
        s = shp(size)
        k = int(rnp.prod(s))
        if k and not core.is_sym(lo) and not core.is_sym(hi) and hi <= lo:
            raise ValueError('low >= high')
        return mk_shape([self._i(lo, hi) for _ in range(k)], s, rnp.dtype('int64'))

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise Unsupported('np.random.choice with probabilities')
        n = a if isinstance(a, int) else len(a)
        k = 1 if size is None else int(rnp.prod(shp(size)))
        if n <= 0 and k:
            raise ValueError('a must be greater than 0 unless no samples are taken')
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        xs = [self._i(0, n) for _ in range(k)]
        if not replace:
            for i in range(k):
                for j in range(i):
                    core.CTX.assume(xs[i] != xs[j])
        if not isinstance(a, int):
            xs = [asobj(a)[int(core.CTX.concretize(x.e)) if core.is_sym(x) else x] for x in xs]
        if size is None:
            return xs[0]
        return mk_shape(xs, shp(size), rnp.dtype('int64') if isinstance(a, int) else asobj(a).dtype)

    def seed(self, *a): pass

    def __getattr__(self, n):
        raise Unsupported('np.random.' + n)


def f_savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# '):
    """text file of real numbers; 17 digits and more read back exactly"""
    a = asobj(X)
    rows = a.raw() if isinstance(a, SArr) else rnp.asarray(a)
    if rows.ndim < 2:
        rows = rows.reshape(-1, 1)
    m = re.match(r'^%[^.a-zA-Z]*(?:\.(\d+))?([a-zA-Z])$', fmt) if isinstance(fmt, str) else None
    if not m:
        raise Unsupported('savetxt format %r' % (fmt,))

    def one(x):
        if not core.is_sym(x):
            return fmt % x
        if m.group(2) in 'eEgG' and int(m.group(1) or 6) >= 16 + (m.group(2) in 'gG'):
            return core.text_token(x)
        if m.group(2) == 'd':
            x = core.trunc(x)
        return core.text_format(x, fmt[1:])
    out = ''.join(comments + l + newline for l in header.split('\n')) if header else ''
    out += ''.join(delimiter.join(one(x) for x in r) + newline for r in rows)
    if footer:
        out += comments + footer + newline
    if isinstance(fname, (str, bytes)):
        with open(fname, 'w') as f:
            f.write(out)
    else:
        fname.write(out if 'b' not in getattr(fname, 'mode', '') else out.encode())


def _strict(f):
    """refuse keyword arguments that the function would swallow"""
    import dis
    import functools
    code = getattr(f, '__code__', None)
    if code is None or not code.co_flags & 8:
        return f
    kw = code.co_varnames[code.co_argcount + code.co_kwonlyargcount + bool(code.co_flags & 4)]
    if any(i.argval == kw and i.opname.startswith('LOAD') or isinstance(i.argval, tuple) and kw in i.argval
           for i in dis.get_instructions(code)):
        return f
    named = set(code.co_varnames[:code.co_argcount + code.co_kwonlyargcount])

    @functools.wraps(f)
    def g(*a, **k):
        for n, v in k.items():
            if n not in named and n not in ('kind', 'order', 'casting', 'subok', 'assume_unique', 'indexing', 'copy') \
                    and v is not None:
                raise Unsupported('%s(%s=...)' % (f.__name__, n))
        return f(*a, **k)
    return g


for _name, _f in list(globals().items()):
    if _name[:2] in ('f_', 'c_') and callable(_f):
        globals()[_name] = _strict(_f)

FUNCS = {}
for _name, _f in list(globals().items()):
    if _name.startswith('f_'):
        FUNCS[_name[2:]] = _f
FUNCS.update({
    'max': f_amax, 'min': f_amin, 'around': f_round, 'round_': f_round, 'row_stack': f_vstack,
    'in1d': f_isin, 'array2string': t_array2string, 'vdot': f_dot, 'matmul': f_dot,
    'zeros_like': like(c_zeros), 'ones_like': like(c_ones), 'empty_like': like(c_empty),
    'full_like': c_full_like, 'diag': c_diag, 'copy': lambda a, **k: asobj(a).copy(),
    'append': f_append, 'trapezoid': f_trapz,
    'alltrue': f_all, 'sometrue': f_any, 'product': f_prod,
    'real': lambda x: x, 'finfo': c_finfo, 'iinfo': c_iinfo, 'nanmin': _without_nan(f_amin),
    'nanmax': _without_nan(f_amax), 'nansum': _without_nan(f_sum), 'nanmean': _without_nan(f_mean),
    'concat': f_concatenate, 'permute_dims': structural('transpose'), 'astype': lambda a, d: asobj(a).astype(d),
})
for _n in ('reshape', 'transpose', 'squeeze', 'ravel', 'expand_dims', 'moveaxis', 'swapaxes',
           'roll', 'tile', 'repeat', 'resize', 'flip', 'fliplr', 'flipud', 'rot90', 'split',
           'array_split', 'hsplit', 'vsplit', 'delete', 'rollaxis', 'diagonal', 'atleast_1d',
           'atleast_2d', 'atleast_3d', 'broadcast_to', 'triu', 'tril'):
    FUNCS[_n] = structural(_n)


class MatLib(object):
    """numpy.matlib"""
    @staticmethod
    def repmat(a, m, n):
        return NP.tile(NP.atleast_2d(a), (m, n))


class NPMod(object):
    """stands for the numpy module"""
    matlib = MatLib()
    linalg = LinAlg()
    testing = Testing()
    random = RandomMod()
    ndarray = rnp.ndarray
    newaxis = None
    array = staticmethod(c_array)
    asarray = staticmethod(c_asarray)
    asanyarray = staticmethod(c_asarray)
    ascontiguousarray = staticmethod(c_ascontiguous)
    asfortranarray = staticmethod(c_asfortran)
    zeros = staticmethod(c_zeros)
    ones = staticmethod(c_ones)
    empty = staticmethod(c_empty)
    full = staticmethod(c_full)
    eye = staticmethod(c_eye)
    identity = staticmethod(c_identity)
    fromiter = staticmethod(c_fromiter)
    frombuffer = staticmethod(c_frombuffer)
    fromstring = staticmethod(t_fromstring)
    meshgrid = staticmethod(c_meshgrid)
    float = float
    bool8 = rnp.bool_

    def __getattr__(self, n):
        f = FUNCS.get(n)
        if f is not None:
            return f
        if n in UF or n in ('divmod',):
            u = getattr(rnp, n)

            def g(*a, **k):
                return ufunc(u, '__call__', a, k)
            g.__name__ = n
            g.reduce = lambda a, axis=0, **k: reduce_(n, a, axis)
            g.accumulate = lambda a, axis=0: f_cum(UF[n][0], a, axis)
            g.outer = lambda a, b: ufunc(u, 'outer', (a, b), {})
            g.at = lambda *a: at_(n, *a)
            g.reduceat = lambda a, ix, axis=0: reduceat_(n, a, ix, axis)
            return g
        if n in CTYPES:
            return rnp.dtype(CTYPES[n]).type
        v = getattr(rnp, n)
        if callable(v) and not isinstance(v, type):
            return lambda *a, **k: generic(v, a, k)
        return v


# C type names of `cimport numpy`
CTYPES = {'double_t': 'f8', 'float_t': 'f8', 'int_t': 'i8', 'intp_t': 'i8', 'uint_t': 'u8'}
for _k in (8, 16, 32, 64):
    CTYPES['int%d_t' % _k] = 'i%d' % (_k // 8)
    CTYPES['uint%d_t' % _k] = 'u%d' % (_k // 8)
    if _k > 16:
        CTYPES['float%d_t' % _k] = 'f%d' % (_k // 8)

NP = NPMod()
