"""Loads the current /repo sources into the symbolic interpreter.

`World(root)` is one fresh instance of the program: every `sumo.*` module is read
from disk, translated when it is Cython, and executed with builtins, numpy, math
and the environment replaced by their symbolic counterparts.
"""
import ast
import builtins as B
import functools
import inspect
import os
import re
import sys
import types
import warnings

import numpy as rnp

from . import core, snp, smath, decython, cpp
from .core import Sym, SymBool, Unsupported, is_sym

_code_cache = {}


# -- builtins ------------------------------------------------------------------

class _FloatMeta(type):
    __symshim__ = 'float'

    def __call__(cls, x=0.0):
        if is_sym(x):
            return core.tofloat(Sym(x.e) if isinstance(x, Sym) else x)
        if isinstance(x, str) and x.strip().startswith('<'):
            return core.tofloat(snp.t_num(x))
        if isinstance(x, snp.SArr):
            return core.tofloat(x.raw().reshape(-1)[0]) if x.size == 1 else float(x)
        return B.float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, B.float) or (isinstance(x, Sym) and not x.isint())

    def __subclasscheck__(cls, c):
        return issubclass(c, B.float)

    def __eq__(cls, o):
        return o is B.float or o is float_

    def __hash__(cls):
        return hash(B.float)


class float_(B.float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    __symshim__ = 'int'

    def __call__(cls, x=0, *a):
        if is_sym(x):
            r = core.trunc(x)
            return Sym(r.e)
        if isinstance(x, str) and x.strip().startswith('<'):
            v = snp.t_num(x)
            if isinstance(v, Sym) and v.isint():
                return v
            raise ValueError('invalid literal for int()')
        if isinstance(x, snp.SArr):
            return core.trunc(x.raw().reshape(-1)[0])
        return B.int(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, B.int) or (isinstance(x, Sym) and x.isint() and not x.npy)

    def __subclasscheck__(cls, c):
        return issubclass(c, B.int)

    def __eq__(cls, o):
        return o is B.int or o is int_

    def __hash__(cls):
        return hash(B.int)


class int_(B.int, metaclass=_IntMeta):
    pass


def isinstance_(x, cls):
    if isinstance(x, (Sym, SymBool)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(c, tuple):
                if isinstance_(x, c):
                    return True
                continue
            n = getattr(c, '__name__', str(c))
            if isinstance(x, SymBool):
                if n in ('bool', 'bool_', 'int', 'int_', 'Number', 'object'):
                    return True
                continue
            if n in ('object', 'Number', 'Real', 'generic', 'number'):
                return True
            if x.isint():
                if n in ('int', 'int_', 'Integral', 'Rational') and not x.npy or \
                        n in ('integer', 'int64', 'signedinteger', 'Integral') and x.npy:
                    return True
            elif n in ('float', 'float_', 'floating', 'inexact') or n == 'float64' and x.npy:
                return True
        return False
    return B.isinstance(x, cls)


def _mm(pick, real):
    def f(*a, **k):
        key = k.get('key')
        if key is not None:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            return real(xs, **k)
        if any(is_sym(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        return real(xs)
    return f


min_ = _mm(core.smin, B.min)
max_ = _mm(core.smax, B.max)


def sum_(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


class _Discard(object):
    def write(self, *a): pass
    def flush(self): pass


def print_(*a, **k):
    if os.environ.get('SYMEX_PRINT'):
        B.print(*a)


def pow_(a, b, m=None):
    return a ** b if m is None else B.pow(a, b, m)


def round_(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return B.round(x) if nd is None else B.round(x, nd)


def set_(xs=()):
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        out = []
        for x in xs:
            if not any(bool(x == y) for y in out):
                out.append(x)
        return out
    return B.set(xs)


# -- Cython support --------------------------------------------------------------

INT_BITS = {'int': 32, 'unsigned': 32, 'unsigned int': 32, 'short': 16, 'unsigned short': 16,
            'char': 8, 'unsigned char': 8, 'signed char': 8, 'long': 64, 'unsigned long': 64,
            'long long': 64, 'size_t': 64, 'Py_ssize_t': 64, 'np.int32_t': 32, 'np.uint32_t': 32,
            'np.uint8_t': 8, 'np.uint16_t': 16, 'np.int64_t': 64, 'np.uint64_t': 64, 'np.int8_t': 8,
            'np.int16_t': 16, 'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'int32_t': 32,
            'int64_t': 64, 'uint64_t': 64, 'np.int_t': 64}


def ctype_of(ty, types_):
    ty = ty.strip()
    for w in ('const ',):
        ty = ty.replace(w, '')
    seen = 0
    while ty in types_ and seen < 10:
        ty = types_[ty]
        seen += 1
    return ty


def c_unsigned(t):
    return t.startswith('unsigned') or t in ('size_t',) or t.startswith('np.uint') or t.startswith('uint')


def coerce(ty, v, types_, explicit=False, name=''):
    t = ctype_of(ty, types_)
    if t in ('object', '', 'void') or t.endswith('*') or t.endswith('&'):
        return v
    if t in ('double', 'np.float64_t', 'np.double_t', 'float', 'np.float32_t'):
        if isinstance(v, (Sym, SymBool)):
            v = core.tofloat(Sym(int_b(v).e))
            return core.round_single(v) if t in ('float', 'np.float32_t') and core.CTX.ex.single else v
        if isinstance(v, rnp.ndarray):
            if v.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            return coerce(ty, v.reshape(-1)[0], types_)
        if isinstance(v, str) or v is None:
            raise TypeError('must be real number, not ' + type(v).__name__)
        f = B.float(v)
        return f if t in ('double', 'np.float64_t', 'np.double_t') else B.float(rnp.float32(f))
    if t == 'bint':
        return v if isinstance(v, (bool, SymBool)) else B.bool(v)
    if t in INT_BITS:
        bits = INT_BITS[t]
        if isinstance(v, SymBool):
            v = v._num()
        if isinstance(v, rnp.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
        if isinstance(v, Sym):
            if not v.isint():
                if not explicit:
                    raise TypeError("an integer is required")
                v = core.trunc(v)
                # C float->int conversion: defined only in range; out of range is UB
                return Sym(v.e)
            lo, hi = (0, (1 << bits) - 1) if c_unsigned(t) else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            if explicit:
                return Sym(v.e) if bits >= 32 else Sym(core.z3.simplify(v.e % (1 << bits))) \
                    if c_unsigned(t) else Sym(v.e)
            if bits < 64 or c_unsigned(t):
                if not core.sand([v >= lo, v <= hi]):
                    raise OverflowError('value too large to convert to ' + t)
            return Sym(v.e)
        if isinstance(v, (B.float, rnp.floating)):
            if not explicit:
                raise TypeError("an integer is required")
            v = B.int(v)
        v = B.int(v)
        lo, hi = (0, (1 << bits) - 1) if c_unsigned(t) else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        if explicit:
            return v % (1 << bits) if c_unsigned(t) else v
        if v < lo or v > hi:
            raise OverflowError('value too large to convert to ' + t)
        return v
    if t.startswith('np.ndarray'):
        if v is not None and not isinstance(v, rnp.ndarray):
            raise TypeError("Argument %r has incorrect type (expected numpy.ndarray, got %s)"
                            % (name, type(v).__name__))
        if '[' in t and v is not None:
            inner = t[t.index('[') + 1:t.rindex(']')]
            ps = [p.strip() for p in inner.split(',')]
            want = {}
            for p in ps:
                k, eq, x = p.partition('=')
                want[k.strip() if eq else 'dtype'] = x.strip().strip('\'"') if eq else p
            nd = want.get('ndim')
            if 'dtype' in want and want['dtype'] != 'object':
                if v.ndim != B.int(nd or 1):
                    raise ValueError('Buffer has wrong number of dimensions')
                d = ctype_of(want['dtype'], types_)
                d = snp.CTYPES.get(d.split('.')[-1], {'double': 'f8', 'float': 'f4', 'int': 'i4', 'long': 'i8'}.get(d))
                have = v.dtype
                if d is None:
                    raise Unsupported('buffer of ' + want['dtype'])
                if have != rnp.dtype(d) and have != object:
                    raise ValueError("Buffer dtype mismatch, expected '%s' but got another type" % want['dtype'])
            if want.get('mode') == 'c' and not v.flags.c_contiguous:
                raise ValueError('ndarray is not C-contiguous')
        return v
    if t.endswith(']') and ':' in t:
        nd = t.count(':')
        nd = t[t.index('['):].count(',') + 1
        if isinstance(v, rnp.ndarray) and v.ndim != nd:
            raise ValueError('Buffer has wrong number of dimensions')
        return v
    if t in ('list', 'dict', 'tuple', 'str', 'bytes'):
        ok = {'list': list, 'dict': dict, 'tuple': tuple, 'str': str, 'bytes': bytes}[t]
        if v is not None and not isinstance(v, ok):
            raise TypeError('Expected %s, got %s' % (t, type(v).__name__))
        return v
    return cpp.coerce(t, v)


def int_b(v):
    return v._num() if isinstance(v, SymBool) else v


class CyCast(object):
    def __init__(self, ty, types_):
        self.ty, self.types = ty, types_

    def __pow__(self, v):
        return coerce(self.ty, v, self.types, explicit=True)


class Addr(object):
    def __pow__(self, v):
        return v


class Percent(ast.NodeTransformer):
    """'...' % x on a literal: numbers in x may be symbolic"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.JoinedStr) or isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str)):
            f = ast.copy_location(ast.Name('_percent_', ast.Load()), n)
            return ast.copy_location(ast.Call(f, [n.left, n.right], []), n)
        return n


SPEC = re.compile(r'%(\(\w+\))?([#0\- +]*)(\*|\d+)?(\.\d+)?([a-zA-Z%])')


def percent(fmt, args):
    vals = args if isinstance(args, tuple) else tuple(args.values()) if isinstance(args, dict) else (args,)
    if not any(is_sym(v) for v in vals):
        return fmt % args
    it = iter(vals)

    def one(m):
        key, flags, width, prec, kind = m.groups()
        if kind == '%':
            return '%'
        v = args[key[1:-1]] if key else next(it)
        if width == '*':
            raise Unsupported('%* format')
        if not is_sym(v):
            return ('%' + flags + (width or '') + (prec or '') + kind) % (v,)
        if isinstance(v, SymBool):
            v = bool(v)
            return ('%' + flags + (width or '') + (prec or '') + kind) % (v,)
        if kind in 'sr':
            return str(v)
        if kind in 'di':
            if not v.isint():
                v = core.trunc(v)
            return format(v, 'd')
        return format(core.tofloat(v), (prec or '.6') + kind)
    return SPEC.sub(one, fmt)


# -- the world --------------------------------------------------------------------

class Obj(object):
    """module-like bag"""
    def __init__(self, **k):
        self.__dict__.update(k)


class World(object):
    def __init__(self, root='/repo/sumo-api', stubs=None):
        self.root = root
        self.mods = {}
        self.stubs = {'numpy': snp.NP, 'math': smath}
        from . import stubs as st
        self.stubs.update(st.default_stubs(self))
        if stubs:
            self.stubs.update(stubs)
        self.loaded = []
        self.builtins = dict(vars(B))
        self.builtins.update({
            'float': float_, 'int': int_, 'isinstance': isinstance_, 'min': min_, 'max': max_,
            'sum': sum_, 'print': print_, 'pow': pow_, 'round': round_, 'set': set_, '_percent_': percent,
            '__import__': self.imp})

    # -- import machinery
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__name__'].rsplit('.', level)[0]
            name = pkg + ('.' + name if name else '')
        if name.split('.')[0] in ('sumo', 'libfb'):
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.find(name + '.' + f):
                        setattr(m, f, self.module(name + '.' + f))
                return m
            return self.module(name.split('.')[0])
        if name in self.stubs:
            m = self.stubs[name]
            top = name.split('.')[0]
            if fromlist or '.' not in name:
                return m
            return self.stubs.get(top, m)
        if name.split('.')[0] in self.stubs and name not in sys.modules and '.' in name:
            m = self.stubs[name.split('.')[0]]
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m if fromlist else self.stubs[name.split('.')[0]]
        if name == 'xml.etree.cElementTree':
            import xml.etree.cElementTree as ET
            return ET if fromlist else __import__(name)
        return __import__(name, globals, locals, fromlist, 0)

    def find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for q in (p + '.py', p + '.pyx'):
            if os.path.isfile(q):
                return q
        if os.path.isdir(p):
            return p
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            self.mods[name] = self.stubs[name]
            if '.' in name and name.split('.')[0] == 'sumo':
                setattr(self.module(name.rsplit('.', 1)[0]), name.rsplit('.', 1)[1], self.stubs[name])
            return self.stubs[name]
        path = self.find(name)
        if path is None:
            raise ImportError('No module named ' + name)
        m = types.ModuleType(name)
        self.mods[name] = m
        if '.' in name:
            par = self.module(name.rsplit('.', 1)[0])
            setattr(par, name.rsplit('.', 1)[1], m)
        if os.path.isdir(path):
            m.__path__ = [path]
            return m
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        code = self.compile(path)
        if path.endswith('.pyx'):
            self.cython_globals(m)
        self.loaded.append(path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if path.endswith('.pyx'):
            cpp.finish_module(self, m)
        return m

    def compile(self, path):
        src = open(path).read()
        bases = {}
        if path.endswith('.pyx'):
            bases = cpp.pxd_of(self, os.path.relpath(path, self.root)[:-4].replace(os.sep, '.'))[3]
        key = (path, hash(src), str(bases))
        if key not in _code_cache:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if path.endswith('.pyx'):
                    tree, _ = decython.translate(src, path, bases)
                else:
                    tree = compile(src, path, 'exec', ast.PyCF_ONLY_AST, dont_inherit=True)
                _code_cache[key] = compile(ast.fix_missing_locations(Percent().visit(tree)), path, 'exec',
                                           dont_inherit=True)
        return _code_cache[key]

    def cython_globals(self, m):
        def null_on_error(fn):
            @functools.wraps(fn)
            def w(*a, **k):
                try:
                    return fn(*a, **k)
                except Exception:
                    return None
            return w

        types_ = {}
        world = self

        def _cyargs(argtypes, ret):
            def deco(fn):
                if isinstance(fn, (classmethod, staticmethod, property)):
                    return fn
                if ret and ret.strip().endswith('*') and fn.__name__ in cpp.swallowed(world, m.__name__):
                    return null_on_error(checked(fn))
                return checked(fn)

            def checked(fn):
                if not argtypes and not ret:
                    return fn
                sig = inspect.signature(fn)

                @functools.wraps(fn)
                def w(*a, **k):
                    ba = sig.bind(*a, **k)
                    ba.apply_defaults()
                    for n, ty in argtypes.items():
                        if n in ba.arguments:
                            v = ba.arguments[n] = coerce(ty, ba.arguments[n], types_, name=n)
                            k = vars(m).get(ty)
                            if isinstance(k, type) and v is not None and str(k.__module__).startswith('sumo.') and \
                                    not isinstance(v, k):
                                raise TypeError('Argument %r has incorrect type (expected %s, got %s)'
                                                % (n, ty, type(v).__name__))
                    r = fn(*ba.args, **ba.kwargs)
                    if ret:
                        r = coerce(ret, r, types_, explicit=True)
                    return r
                return w
            return deco

        def _cimport(mod, name):
            if mod.split('.')[0] == 'sumo':
                e = cpp.entity(world, mod, name)
                if e is not None:
                    return e
                mm = world.module(mod)
                if hasattr(mm, name):
                    return getattr(mm, name)
                if cpp.has(name):
                    return cpp.get(world, name)
            if cpp.has(name):
                return cpp.get(world, name)
            return cpp.Missing(mod, name)

        def _ctypedef(name, ty):
            types_[name] = ty
            return cpp.Declared(world, name, ty)

        def _cyfun(q):
            if not q.startswith('sumo::'):
                return cpp.Missing(m.__name__, q)
            from . import cppast
            cppast.prepare(world.root)
            return cppast.Function(q)

        g = {
            '_cyargs': _cyargs,
            '_cyv': lambda ty, v: coerce(ty, v, types_, explicit=False),
            '_cydecl': lambda ty: cpp.default_of(world, ctype_of(ty, types_)),
            '_CyCast': lambda ty: CyCast(ty, types_),
            '_addr': Addr(),
            '_cimport': _cimport,
            '_ctypedef': _ctypedef,
            'sizeof': cpp.sizeof,
            '_cyenum': lambda q, names: cpp.declare_enum(world, q, names),
            '_cystruct': lambda q: cpp.declare_struct(world, q),
            '_cyfun': _cyfun,
        }
        m.__dict__.update(g)
        cpp.inject(world, m)
        m.__dict__.update(cpp.pxd_names(world, m.__name__))
        for mod, name, asn in cpp.pxd_of(world, m.__name__)[0]:
            if mod.startswith('sumo.') and mod != m.__name__:
                v = _cimport(mod, name)
                if not isinstance(v, cpp.Missing):
                    m.__dict__[asn] = v


def describe(world):
    """functions/classes of the loaded modules, for the evidence file"""
    out = []
    for p in world.loaded:
        out.append(os.path.relpath(p, world.root))
    from . import cppast
    if cppast.PROG is not None:
        out += ['C++ ' + x for x in sorted(cppast.PROG.executed)]
    return out
