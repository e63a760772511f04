"""Models of the C++ types the .pyx files use (Eigen and libc leaf types)."""
import re

import numpy as rnp
import z3
from . import core, snp
from .core import Sym, Unsupported, is_sym

SIZES = {'np.double_t': 8, 'double': 8, 'float': 4, 'np.float32_t': 4, 'np.uint8_t': 1,
         'np.uint16_t': 2, 'np.uint32_t': 4, 'np.int32_t': 4, 'int': 4}


class SizeOf(object):
    def __call__(self, t):
        if isinstance(t, type) and issubclass(t, rnp.generic):
            return rnp.dtype(t).itemsize
        if isinstance(t, str) and t in SIZES:
            return SIZES[t]
        if hasattr(t, '__csize__'):
            return t.__csize__
        if isinstance(t, (int, float)):
            return 8
        raise Unsupported('sizeof %r' % (t,))


sizeof = SizeOf()


class CT(object):
    def __init__(self, size):
        self.__csize__ = size


class Missing(object):
    """a cimported name with no model: any use of it is reported as unsupported"""
    def __init__(self, mod, name):
        self.__dict__['_n'] = mod + '.' + name

    def __call__(self, *a, **k):
        raise Unsupported('call of unmodelled C++ entity ' + self._n)

    def __getattr__(self, a):
        raise Unsupported('use of unmodelled C++ entity ' + self._n)


class Mem(object):
    """raw memory of an array, in storage order"""
    def __init__(self, arr, size):
        self.flat, self.item = arr, size


def mem_of(a):
    r = a.raw()
    if r.flags['C_CONTIGUOUS']:
        return Mem(r.reshape(-1), a.ldt.itemsize)
    if r.flags['F_CONTIGUOUS']:
        return Mem(r.T.reshape(-1), a.ldt.itemsize)
    raise Unsupported('data of a strided array')


snp.SArr.data = property(mem_of)


def memcpy(dst, src, n):
    k = n // dst.item
    if k * dst.item != n or src.item != dst.item:
        raise Unsupported('memcpy between different element sizes')
    if k > len(dst.flat) or k > len(src.flat):
        raise Unsupported('memcpy out of bounds')
    dst.flat[:k] = src.flat[:k]


class CVec(object):
    n = 3
    f32 = False

    def __init__(self, *a):
        if len(a) == 1 and isinstance(a[0], CVec):
            a = a[0].v
        if not a:
            a = [0.0] * self.n
        self.v = [core.tofloat(x) for x in a]

    def at(self, i):
        """component i; an uninitialised one (Eigen leaves default-constructed vectors so) holds some value"""
        v = self.v[i]
        if type(v).__name__ == 'Uninit':
            v = self.v[i] = core.Sym(core.CTX.fresh('unset'))
        return v

    def x(self): return self.at(0)
    def y(self): return self.at(1)
    def z(self): return self.at(2)
    def w(self): return self.at(3)
    def __getitem__(self, i): return self.at(i)
    def __setitem__(self, i, x): self.v[i] = x
    def __add__(self, o): return type(self)(*[a + b for a, b in zip(self.v, o.v)])
    def __sub__(self, o): return type(self)(*[a - b for a, b in zip(self.v, o.v)])
    def __mul__(self, s): return type(self)(*[a * s for a in self.v])
    def __truediv__(self, s): return type(self)(*[a / s for a in self.v])

    def norm(self):
        t = 0
        for a in self.v:
            t = t + a * a
        return core.sqrt(t)


def _vec(name, n):
    return type(name, (CVec,), {'n': n})


CVector2, CVector2f = _vec('CVector2', 2), _vec('CVector2f', 2)
CVector3, CVector3f = _vec('CVector3', 3), _vec('CVector3f', 3)
CVector4 = _vec('CVector4', 4)


class CMatrix3(object):
    """column-major 3x3 doubles"""
    def __init__(self, *a):
        self.flat = rnp.empty(9, dtype=object)
        for i in range(9):
            self.flat[i] = Sym(core.CTX.fresh('uninit'), False)

    def data(self):
        return Mem(self.flat, 8)

    def at(self, i, j):
        return self.flat[j * 3 + i]


class Quaterniond(object):
    """Eigen contract: from a matrix, any quaternion of that rotation; toRotationMatrix by formula"""
    def __init__(self, *a):
        if len(a) == 4:
            self.q = [core.tofloat(x) for x in a]       # w, x, y, z
        elif len(a) == 1 and isinstance(a[0], CMatrix3):
            self.q = self.from_matrix(a[0])
        else:
            raise Unsupported('Quaterniond constructor')

    @staticmethod
    def from_matrix(m):
        a = m.at
        t = a(0, 0) + a(1, 1) + a(2, 2)
        if t > 0:
            t = core.sqrt(t + 1.0)
            w = 0.5 * t
            t = 0.5 / t
            return [w, (a(2, 1) - a(1, 2)) * t, (a(0, 2) - a(2, 0)) * t, (a(1, 0) - a(0, 1)) * t]
        i = 0
        if a(1, 1) > a(0, 0):
            i = 1
        if a(2, 2) > a(i, i):
            i = 2
        j = (i + 1) % 3
        k = (j + 1) % 3
        t = core.sqrt(a(i, i) - a(j, j) - a(k, k) + 1.0)
        v = [None] * 3
        v[i] = 0.5 * t
        t = 0.5 / t
        w = (a(k, j) - a(j, k)) * t
        v[j] = (a(j, i) + a(i, j)) * t
        v[k] = (a(k, i) + a(i, k)) * t
        return [w] + v

    def w(self): return self.q[0]
    def x(self): return self.q[1]
    def y(self): return self.q[2]
    def z(self): return self.q[3]

    def normalized(self):
        n2 = sum((c * c for c in self.q), 0)
        if isinstance(n2, Sym):
            if bool(n2 == 1):
                return self
            if not bool(n2 > 0):
                return self
        elif n2 == 0:
            return self
        n = core.sqrt(n2)
        return Quaterniond(*[c / n for c in self.q])

    def toRotationMatrix(self):
        w, x, y, z = self.q
        tx, ty, tz = 2.0 * x, 2.0 * y, 2.0 * z
        twx, twy, twz = tx * w, ty * w, tz * w
        txx, txy, txz = tx * x, ty * x, tz * x
        tyy, tyz, tzz = ty * y, tz * y, tz * z
        m = CMatrix3()
        rows = [[1.0 - (tyy + tzz), txy - twz, txz + twy],
                [txy + twz, 1.0 - (txx + tzz), tyz - twx],
                [txz - twy, tyz + twx, 1.0 - (txx + tyy)]]
        for i in range(3):
            for j in range(3):
                m.flat[j * 3 + i] = rows[i][j]
        return m

    matrix = toRotationMatrix


def value_copy(x):
    if isinstance(x, CVec):
        r = type(x).__new__(type(x))
        r.v = list(x.v)
        return r
    return x


class Vector(list):
    """std::vector"""
    elem = None
    cap = gen = 0

    def push_back(self, x):
        if self.elem and not self.elem.strip().endswith('*'):
            x = to_elem(self.elem, x)
        self.append(x)

    def size(self): return len(self)
    def reserve(self, n): pass
    def resize(self, n):
        while len(self) < n:
            self.append(0)
        del self[n:]
    def empty(self): return len(self) == 0
    def begin(self): return 0
    def data(self): return self
    def at(self, i): return self[i]
    def clear(self): del self[:]


CPPTYPES = {'CColor': 'sumo::PointCloud::Color', 'CMesh': 'sumo::Mesh', 'CTexturedMesh': 'sumo::TexturedMesh',
            'CPointCloud': 'sumo::PointCloud'}


def mat_factory(ch, kind, item):
    class MatT(object):
        def __new__(cls, rows=0, cols=0, data=None, step=None):
            from . import cppast
            if data is None:
                return cppast.Mat(0, 0, ch, kind)
            if data.item != item:
                raise Unsupported('image over elements of %d bytes' % data.item)
            if step != cols * ch * item:
                raise Unsupported('image with padded rows')
            return cppast.Mat(rows, cols, ch, kind, data.flat)
    return MatT


class AnyMat(object):
    """cv::Mat(rows, cols, type, data, step)"""
    def __new__(cls, rows=0, cols=0, kind=0, data=None, step=None):
        from . import cppast
        ch, k = cppast.cv_type(kind)
        if data is None:
            return cppast.Mat(0, 0, ch, k)
        if data.item != (1 if k == 'uchar' else cppast.size_of(k)) or step != cols * ch * data.item:
            raise Unsupported('image over other elements, or with padded rows')
        return cppast.Mat(rows, cols, ch, k, data.flat)


class CyMap(object):
    """std::map as seen from Cython"""
    def __init__(self, m):
        self.m = m

    def key(self, k):
        return int(k) if isinstance(k, int) else k.encode() if isinstance(k, str) else k

    def insert(self, p):
        self.m.setdefault(self.key(p.first), p.second)

    def __setitem__(self, k, v): self.m[self.key(k)] = v
    def __getitem__(self, k): return self.m[self.key(k)]
    def count(self, k): return 1 if self.key(k) in self.m else 0
    def size(self): return len(self.m)
    def empty(self): return not self.m
    def clear(self): self.m.clear()
    def __iter__(self): return iter([CyPair(k, self.m[k]) for k in self.m.keys_sorted()])
    def begin(self): return CyIter(self, 0)
    def end(self): return CyIter(self, len(self.m))

    def find(self, k):
        ks = self.m.keys_sorted()
        return CyIter(self, ks.index(self.key(k)) if self.key(k) in ks else len(ks))


class CyPair(object):
    def __init__(self, first, second):
        self.first, self.second = first, second


class CyIter(object):
    def __init__(self, m, i):
        self.m, self.i = m, i

    def __eq__(self, o): return self.i == o.i
    def __ne__(self, o): return self.i != o.i
    def step(self, d):
        self.i += d
        return self
    @property
    def item(self): return list(self.m)[self.i]


def dereference(x):
    return x.item if isinstance(x, CyIter) else x


def postincrement(x):
    if not isinstance(x, CyIter):
        raise Unsupported('increment of ' + type(x).__name__)
    old = CyIter(x.m, x.i)
    x.step(1)
    return old


def preincrement(x):
    postincrement(x)
    return x


class Declared(object):
    """typedef of a C++ type, usable as a constructor"""
    def __init__(self, world, name, t):
        self.world, self.name, self.t = world, name, t

    def __call__(self, *a):
        if self.t.startswith('pair['):
            return CyPair(*a)
        raise Unsupported('construction of ' + self.name)


def declare_struct(world, q):
    CPPTYPES[q.split('::')[-1]] = q


def declare_enum(world, q, names):
    """Python enumeration of the C++ constants"""
    import enum
    from . import cppast
    cppast.load(world.root)
    for tu in cppast.PROG.tus:
        for n in tu.index.values():
            if n.get('kind') == 'EnumDecl' and n.get('_q') == q and n.get('inner'):
                vals = {c['name']: c['_value'] for c in n['inner'] if c.get('kind') == 'EnumConstantDecl'}
                return enum.IntEnum(q.split('::')[-1], [(k, vals[k]) for k in names])
    raise Unsupported('no enumeration ' + q)


REG = {
    'Mat': AnyMat, 'CV_8UC1': 0, 'CV_8UC3': 16, 'CV_16UC1': 2, 'dereference': dereference, 'deref': dereference,
    'postincrement': postincrement, 'preincrement': preincrement,
    'Mat3b': mat_factory(3, 'uchar', 1), 'Mat1b': mat_factory(1, 'uchar', 1),
    'Mat1w': mat_factory(1, 'unsigned short', 2), 'Mat1f': mat_factory(1, 'float', 4),
    'CVector2': CVector2, 'CVector2f': CVector2f, 'CVector3': CVector3, 'CVector3f': CVector3f,
    'CVector4': CVector4, 'CMatrix3': CMatrix3, 'Quaterniond': Quaterniond, 'memcpy': memcpy,
    'uint8_t': CT(1), 'uint16_t': CT(2), 'uint32_t': CT(4), 'int32_t': CT(4), 'int64_t': CT(8), 'uint64_t': CT(8),
    'INFINITY': float('inf'), 'NAN': float('nan'), 'vector': Vector,
}
MODREG = {}      # module name -> {name: model}, filled by other model files


def has(n): return n in REG
def get(world, n): return REG[n]


def inject(world, m):
    for n, v in REG.items():
        m.__dict__.setdefault(n, v)
    for n, v in MODREG.get(m.__name__, {}).items():
        m.__dict__[n] = v(world, m) if getattr(v, '__factory__', False) else v
    # C type names used as values (sizeof)
    for n, s in (('double', 8), ('uint32_t', 4), ('uint8_t', 1)):
        m.__dict__.setdefault(n, CT(s))


def to_elem(t, x):
    """a Cython value stored as an element of type t"""
    from . import load
    if type(x).__name__ == 'CppObj':
        from . import cppast
        return cppast.PROG.copy(x)
    if isinstance(x, CVec):
        return value_copy(x)
    return load.coerce(t, x, {}, explicit=False)


def new_vector(t, xs=()):
    v = Vector()
    v.elem = t[t.index('[') + 1:t.rindex(']')].strip()
    for x in xs:
        v.push_back(x)
    return v


def swallowed(world, mod):
    """functions of a module that return pointers and are declared `except +`: their Python exceptions are lost"""
    import os
    path = os.path.join(world.root, *mod.split('.')) + '.pxd'
    if path not in _lost:
        out = set()
        if os.path.isfile(path):
            txt = re.sub(r'#[^\n]*|"""[\s\S]*?"""', '', open(path).read())
            txt = re.sub(r'\(([^()]*)\)', lambda m: '(' + m.group(1).replace('\n', ' ') + ')', txt)
            for m in re.finditer(r'^cdef (?:inline )?\w[\w\[\], ]*\*\s*(\w+)\(.*\)\s*(?:except \+|noexcept)', txt, re.M):
                out.add(m.group(1))
        _lost[path] = out
    return _lost[path]


_lost = {}

# -- declarations of the .pxd files ----------------------------------------------------

_pxd = {}


def pxd_of(world, mod):
    """(cimports, cppclasses, extern functions, bases of the cdef classes) of the .pxd of a module"""
    import os
    path = os.path.join(world.root, *mod.split('.')) + '.pxd'
    if path not in _pxd:
        cims, classes, funcs, bases = [], {}, {}, {}
        if os.path.isfile(path):
            txt = open(path).read()
            txt = re.sub(r'#[^\n]*|"""[\s\S]*?"""', '', txt)
            flat = re.sub(r'\(([^()]*)\)', lambda m: '(' + m.group(1).replace('\n', ' ') + ')', txt)
            ns, extern = None, False
            for line in flat.split('\n'):
                m = re.match(r'\s*from\s+([\w.]+)\s+cimport\s+\(?([^()]*)\)?', line)
                if m:
                    for n in m.group(2).split(','):
                        if n.strip():
                            cims.append((m.group(1), n.strip().split(' as ')[0].strip(), n.strip().split()[-1]))
                    continue
                m = re.match(r'cdef extern from "[^"]*"(?:\s+namespace "([\w:]+)")?', line)
                if m:
                    ns, extern = m.group(1), True
                    continue
                if line.strip() and not line[0].isspace():
                    extern = False
                m = re.match(r'\s*cdef cppclass (\w+)(?:\s+"([\w:]+)")?', line)
                if m:
                    classes[m.group(1)] = m.group(2) or ('%s::%s' % (ns, m.group(1)) if ns else m.group(1))
                    continue
                m = re.match(r'cdef class (\w+)\s*\(\s*(\w+)\s*\)', line)
                if m:
                    bases[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'\s+cdef [^(]*?(\w+)\(.*\)', line)
                if m and extern:
                    funcs[m.group(1)] = '%s::%s' % (ns, m.group(1)) if ns else m.group(1)
        _pxd[path] = (cims, classes, funcs, bases)
    return _pxd[path]


def entity(world, mod, name):
    """model of a C++ name declared in the .pxd of `mod`; None when it is not a C++ name"""
    cims, classes, funcs, bases = pxd_of(world, mod)
    if name in REG:
        return REG[name]
    if name in classes or name in funcs:
        q = classes.get(name) or funcs[name]
        if q.startswith(('sumo::', 'tinygltf::')):
            from . import cppast
            if q in cppast.OUTSIDE:
                return Missing(mod, name)
            cppast.prepare(world.root)
            return cppast.Static(q) if name in classes else cppast.Function(q)
        return Missing(mod, name)
    return None


def pxd_names(world, mod):
    """names the .pxd of a module brings into it"""
    cims, classes, funcs, bases = pxd_of(world, mod)
    out = {}
    for n in list(classes) + list(funcs):
        out[n] = entity(world, mod, n)
    return out


def default_of(world, t):
    t = t.strip()
    for w in ('const ',):
        if t.startswith(w):
            t = t[len(w):].strip()
    if t in REG and isinstance(REG[t], type):
        return REG[t]()
    if t.startswith('vector['):
        return new_vector(t)
    if t.startswith('map['):
        from . import cppast
        return CyMap(cppast.MapObj(t[t.index(',') + 1:t.rindex(']')].strip()))
    if t in CPPTYPES and not t.endswith('*'):
        from . import cppast
        cppast.load(world.root)
        return cppast.PROG.make(CPPTYPES[t], [])
    if t.endswith('[]') or t.endswith('*'):
        return None
    return None


def coerce(t, v):
    if t.startswith('vector['):
        if isinstance(v, Vector):
            if v.elem is None:
                v.elem = t[t.index('[') + 1:t.rindex(']')].strip()
            return v
        if isinstance(v, (list, tuple)):
            return new_vector(t, v)
    if type(v).__name__ == 'Mat' and t in ('Mat1b', 'Mat1w', 'Mat1f', 'Mat3b', 'Mat'):
        return cast_image(t, v)
    if t in CPPTYPES and type(v).__name__ == 'CppObj':
        from . import cppast
        return cppast.PROG.copy(v)
    return v


def cast_image(t, v):
    """cv::Mat to cv::Mat_<T>: shares pixels of this type, converts others"""
    from . import cppast
    ch, kind = {'Mat1b': (1, 'uchar'), 'Mat1w': (1, 'unsigned short'), 'Mat1f': (1, 'float'),
                'Mat3b': (3, 'uchar'), 'Mat': (v.ch, v.kind)}[t]
    if v.empty():
        return cppast.Mat(0, 0, ch, kind)
    if (v.ch, v.kind) == (ch, kind):
        return v
    if v.ch != ch:
        raise RuntimeError('OpenCV: a reshape that does not fit')
    if v.kind == 'uchar' and kind == 'unsigned short' and ch == 1:
        return cppast.Mat(v.rows, v.cols, 1, kind, list(v.buf))
    if v.kind == 'unsigned short' and kind == 'uchar' and ch == 1:
        return cppast.Mat(v.rows, v.cols, 1, kind, [core.smin(x, 255) for x in v.buf])
    raise Unsupported('conversion of images')


def finish_module(world, m):
    """cdef classes: __cinit__ runs before __init__"""
    for n, c in list(vars(m).items()):
        if isinstance(c, type) and c.__module__ == m.__name__ and '__cinit__' in vars(c):
            _wire(c)


def _wire(c):
    ci = c.__dict__['__cinit__']
    has_init = '__init__' in c.__dict__
    init = c.__dict__.get('__init__')

    def __init__(self, *a, **k):
        ci(self, *a, **k)
        if has_init:
            init(self, *a, **k)
    c.__init__ = __init__
