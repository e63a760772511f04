"""Interprets the C++ sources of /repo symbolically, from the compiler's syntax tree.

clang++ dumps the typed AST of the current sources as JSON; functions are executed
on the values of the engine (core.Sym).  std:: containers, Eigen vectors, OpenCV
images and memory of the glTF buffers are models, everything in namespace sumo and
the data structures of tinygltf come from the source.
"""
import json
import os
import re
import subprocess
import struct
import math

import numpy as rnp

from . import core
from . import cpp, tiff
from .core import Sym, SymBool, Unsupported, is_sym
from .cpp import CVec, Mem, Vector

FLAGS = ['-std=c++14', '-DNDEBUG', '-DPICOJSON_USE_INT64', '-fwrapv', '-w', '-include', 'opencv2/imgproc/types_c.h', '-I.',
         '-I/usr/include/eigen3', '-I/usr/include/opencv4', '-fsyntax-only']
CLANG = '/usr/bin/clang++'


class Undefined(Exception):
    """undefined behaviour reached: reads or writes outside an object, uninitialised values"""


class Terminate(Exception):
    """a C++ exception leaves a function that Cython does not expect to throw"""


class CppThrow(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind, self.msg = kind, msg


PYEXC = [('invalid_argument', ValueError), ('domain_error', ValueError), ('out_of_range', IndexError),
         ('overflow_error', OverflowError), ('bad_alloc', MemoryError), ('', RuntimeError)]


def to_python(e):
    for k, t in PYEXC:
        if k in e.kind:
            return t(e.msg.decode() if isinstance(e.msg, bytes) else e.msg)


# -- types -------------------------------------------------------------------------

BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
        'unsigned int': 32, 'unsigned': 32, 'long': 64, 'unsigned long': 64, 'long long': 64,
        'unsigned long long': 64, 'uchar': 8, 'size_t': 64, 'std::size_t': 64, 'uint32_t': 32, 'uint8_t': 8,
        'uint16_t': 16, 'uint16': 16, 'uint32': 32, 'ushort': 16, 'std::ptrdiff_t': 64, 'ptrdiff_t': 64, 'int64_t': 64, 'uint64_t': 64}
UNSIGNED = {'unsigned char', 'unsigned short', 'unsigned int', 'unsigned', 'unsigned long', 'unsigned long long',
            'uchar', 'ushort', 'uint16', 'uint32', 'size_t', 'std::size_t', 'uint32_t', 'uint8_t', 'uint16_t', 'uint64_t'}
FLOATS = {'float': 4, 'double': 8}


def strip(t):
    t = t.strip()
    while True:
        o = t
        for w in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
            if t.startswith(w):
                t = t[len(w):].strip()
        for w in ('&&', '&', ' const', 'const'):
            if w == 'const' and not t.endswith('*const'):
                continue
            if t.endswith(w):
                t = t[:-len(w)].strip()
        if t == o:
            return t


def is_ptr(t):
    return strip(t).endswith('*')


def pointee(t):
    return strip(strip(t)[:-1])


def is_ref(t):
    return t.strip().endswith('&')


def targs(t):
    """template arguments of a type"""
    i = t.index('<')
    d, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def unstd(t):
    return t[5:] if t.startswith('std::') else t


ALIAS = {}      # names of typedefs of the source -> type
NOALIAS = {'Type', 'Array', 'Object'}
_resolved = {}


def resolve(t):
    """expands the typedef names of the source inside a type"""
    if t not in _resolved:
        r = t
        for _ in range(4):
            o = r
            for m in reversed(list(re.finditer(r'(?:\b\w+::)*\b(\w+)\b(?!\s*(::|<))', r))):
                if m.group(1) in ALIAS:
                    r = r[:m.start()] + ALIAS[m.group(1)] + r[m.end():]
            if r == o:
                break
        _resolved[t] = r
    return _resolved[t]


def canonical(t):
    t = re.sub(r'(\w+::)+', '', resolve(t))
    return re.sub(r'Matrix<(\w+), (\d), (\d)[^<>]*>', r'Matrix<\1, \2, \3>', t)


def ty(t):
    t = t or {}
    return resolve(t.get('desugaredQualType') or t.get('qualType', ''))


def qt(n):
    return ty(n.get('type'))


# -- references and pointers ---------------------------------------------------------

class Ref(object):
    __slots__ = ()


class Cell(Ref):
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v

    def get(self): return self.v
    def set(self, v): self.v = v


class FieldRef(Ref):
    __slots__ = ('o', 'n')

    def __init__(self, o, n):
        self.o, self.n = o, n

    def get(self): return self.o.f[self.n]
    def set(self, v): self.o.f[self.n] = v


class ItemRef(Ref):
    __slots__ = ('o', 'i')

    def __init__(self, o, i):
        self.o, self.i = o, i

    def get(self): return self.o[self.i]
    def set(self, v): self.o[self.i] = v


class Uninit(object):
    def __repr__(self): return 'uninitialised'


UNINIT = Uninit()


class Ptr(object):
    """pointer to element `off` of a list-like buffer"""
    __slots__ = ('buf', 'off', 'elem')
    parts = {}      # elements written byte by byte, until they are complete

    def __init__(self, buf, off, elem):
        self.buf, self.off, self.elem = buf, off, elem

    def move(self, n): return Ptr(self.buf, self.off + n, self.elem)

    def at(self, i):
        return element(self.buf, self.off + i, self.elem)

    def leaf(self):
        """list of leaf values from here on (scalars), and their type"""
        if self.elem in FLOATS or self.elem in BITS:
            return self.buf, self.off, self.elem
        n, kind = eigen_dim(self.elem)
        out = []
        for v in self.buf[self.off:]:
            out.extend(v.v)
        return out, 0, kind

    def get_byte(self, k):
        buf, off, kind = self.leaf()
        size = size_of(kind)
        i = off + k // size
        if not 0 <= i < len(buf):
            raise Undefined('read past the end of a buffer')
        v = buf[i]
        if size == 1:
            return v
        return ByteTok(v, k % size, kind)

    def set_byte(self, k, b):
        size = 1 if self.elem in ('uchar', 'char') else size_of(self.elem)
        if size != 1:
            buf, off, kind = self.leaf()
            size = size_of(kind)
            i = off + k // size
            if not 0 <= i < len(buf):
                raise Undefined('write past the end of a buffer')
            part = self.__class__.parts.setdefault((id(buf), i), [buf] + [None] * size)
            part[1 + k % size] = b
            if all(x is not None for x in part[1:]):
                del self.__class__.parts[id(buf), i]
                if buf is not self.buf:
                    vs = self.buf[self.off + i // len(self.buf[self.off].v)]
                    vs.v[i % len(vs.v)] = decode(part[1:], kind)
                else:
                    buf[i] = decode(part[1:], kind)
            return
        i = self.off + k
        if not 0 <= i < len(self.buf):
            raise Undefined('write past the end of a buffer')
        self.buf[i] = b


class BytePtr(object):
    """unsigned char* view of a typed pointer, moved by `off` bytes"""
    def __init__(self, base, off=0):
        self.base, self.off = base, off

    def move(self, n): return BytePtr(self.base, self.off + n)
    def get_byte(self, k): return self.base.get_byte(self.off + k)
    def set_byte(self, k, b): return self.base.set_byte(self.off + k, b)
    def at(self, i): return ByteRef(self, i)


class ByteRef(Ref):
    __slots__ = ('p', 'i')

    def __init__(self, p, i):
        self.p, self.i = p, i

    def get(self): return self.p.get_byte(self.i)
    def set(self, v): self.p.set_byte(self.i, v)


class TypedPtr(object):
    """typed view of byte memory"""
    def __init__(self, base, elem, off=0):
        self.base, self.elem, self.off = base, elem, off

    def move(self, n): return TypedPtr(self.base, self.elem, self.off + n * size_of(self.elem))

    def at(self, i):
        o = self.off + i * size_of(self.elem)
        if self.elem in FLOATS or self.elem in BITS:
            return decode([self.base.get_byte(o + k) for k in range(size_of(self.elem))], self.elem)
        n, kind = eigen_dim(self.elem)
        s = size_of(kind)
        return eigen(n, kind, [decode([self.base.get_byte(o + j * s + k) for k in range(s)], kind)
                               for j in range(n)])

    def get_byte(self, k): return self.base.get_byte(self.off + k)


class ByteTok(object):
    """byte k of the representation of a value"""
    __slots__ = ('v', 'k', 'kind')

    def __init__(self, v, k, kind):
        self.v, self.k, self.kind = v, k, kind

    def value(self):
        """the byte as a number"""
        if self.kind in FLOATS:
            if is_sym(self.v) or self.v is UNINIT:
                raise Unsupported('single byte of a symbolic float')
            return struct.pack('<f' if self.kind == 'float' else '<d', self.v)[self.k]
        return (self.v // 256 ** self.k) % 256


def decode(bs, kind):
    b0 = bs[0]
    if isinstance(b0, ByteTok) and size_of(b0.kind) == len(bs) and (b0.kind in FLOATS) == (kind in FLOATS) and all(
            isinstance(b, ByteTok) and b.v is b0.v and b.kind == b0.kind and b.k == i for i, b in enumerate(bs)):
        return b0.v
    xs = [b.value() if isinstance(b, ByteTok) else b for b in bs]
    if any(x is UNINIT for x in xs):
        return UNINIT
    if kind in FLOATS:
        if any(is_sym(x) for x in xs):
            raise Unsupported('float made of symbolic bytes')
        return struct.unpack('<f' if kind == 'float' else '<d', bytes(int(x) for x in xs))[0]
    t = 0
    for k, x in enumerate(xs):
        t = t + x * 256 ** k
    return t


def size_of(t):
    t = strip(t)
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        return int(m.group(2)) * size_of(m.group(1))
    if t in FLOATS:
        return FLOATS[t]
    if t in BITS:
        return max(1, BITS[t] // 8)
    if is_ptr(t):
        return 8
    n, k = eigen_dim(t)
    return n * FLOATS[k]


def eigen_dim(t):
    m = re.search(r'Matrix<(float|double|int), (\d), 1', t)
    if m:
        return int(m.group(2)), m.group(1)
    m = re.search(r'Vector(\d)([fd])?$', t)
    if m:
        return int(m.group(1)), 'float' if m.group(2) == 'f' else 'double'
    m = re.search(r'CVector(\d)(f)?$', t)
    if m:
        return int(m.group(1)), 'float' if m.group(2) else 'double'
    raise Unsupported('layout of ' + t)


CLS = {(2, 'double'): cpp.CVector2, (2, 'float'): cpp.CVector2f, (3, 'double'): cpp.CVector3,
       (3, 'float'): cpp.CVector3f, (4, 'double'): cpp.CVector4}


def eigen_class(n, kind):
    if (n, kind) not in CLS:
        CLS[n, kind] = cpp._vec('CVector%d%s' % (n, {'float': 'f', 'double': '', 'int': 'i'}[kind]), n)
        CLS[n, kind].kind = kind
    return CLS[n, kind]


def eigen(n, kind, v=None):
    c = eigen_class(n, kind)
    r = c.__new__(c)
    r.v = list(v) if v is not None else [UNINIT] * n
    return r


def kind_of(o):
    t = type(o).__name__
    return 'float' if t.endswith('f') else 'int' if t.endswith('i') else 'double'


def like(o, v):
    """a vector with the scalar type of o"""
    r = eigen(len(v), kind_of(o), v)
    if getattr(o, 'arr', False):
        r.arr = True
    return r


class View(object):
    """part of another list"""
    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def __len__(self): return self.n

    def __iter__(self): return iter([self[i] for i in range(self.n)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(self.n))]
        return self.base[self.off + (i if i >= 0 else i + self.n)]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            for k, x in zip(range(*i.indices(self.n)), list(v)):
                self[k] = x
        else:
            self.base[self.off + (i if i >= 0 else i + self.n)] = v


class Flat(View):
    """the coefficients of a list of Eigen vectors, one after the other"""
    def __init__(self, vecs):
        self.vecs = vecs
        self.k = len(vecs[0].v) if len(vecs) else 1

    n = property(lambda self: len(self.vecs) * self.k)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(self.n))]
        return self.vecs[i // self.k].v[i % self.k]

    def __setitem__(self, i, v):
        self.vecs[i // self.k].v[i % self.k] = v


class One(View):
    """a variable as an array of one element"""
    def __init__(self, ref):
        self.ref, self.n = ref, 1

    def __getitem__(self, i):
        return [self.ref.get()][i]

    def __setitem__(self, i, v):
        if not isinstance(i, slice):
            self.ref.set(v)


class Text(View):
    """the characters of a string variable"""
    def __init__(self, base):
        self.base = base

    n = property(lambda self: len(rval(self.base)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(rval(self.base)[i])
        return rval(self.base)[i]

    def __setitem__(self, i, v):
        t = bytearray(rval(self.base))
        t[i] = v
        self.base.set(bytes(t))


class Pixels(View):
    """the pixels of an image"""
    def __init__(self, m):
        self.m = m

    n = property(lambda self: self.m.rows * self.m.cols)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(self.n))]
        m = self.m
        return m.buf[i] if m.ch == 1 else Pixel(m.buf, i * m.ch, m.ch)

    def __setitem__(self, i, v):
        m = self.m
        if m.ch == 1:
            m.buf[i] = v
        else:
            m.buf[i * m.ch:(i + 1) * m.ch] = [v.at(k).get() for k in range(m.ch)]


def same_store(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Text):
        x, y = a.base, b.base
        return x is y or type(x) is type(y) and all(getattr(x, k) is getattr(y, k) or getattr(x, k) == getattr(y, k)
                                                    for k in type(x).__slots__)
    if isinstance(a, Pixels):
        return a.m is b.m or a.m.buf is b.m.buf
    if isinstance(a, Flat):
        return a.vecs is b.vecs
    if isinstance(a, One):
        return a.ref is b.ref
    if isinstance(a, View):
        return a.base is b.base
    return False


def default_elem(t):
    """a value-initialised element"""
    s = strip(t)
    if s in BITS:
        return 0
    if s in FLOATS:
        return 0.0
    if is_ptr(s):
        return None
    return PROG.make(s, [])


def element(buf, i, elem):
    if isinstance(i, Sym):
        i = concrete(i)
    if not 0 <= i < len(buf):
        return Dangling(i, len(buf))
    v = buf[i]
    if is_object(v) and not (elem and is_ptr(elem)):
        v_home(v, buf, i)
        return v
    return ItemRef(buf, i)


class Dangling(Ref):
    """element outside its container: harmless until it is used"""
    __slots__ = ('i', 'n')

    def __init__(self, i, n):
        self.i, self.n = i, n

    def get(self): raise Undefined('element %r of a container of %d' % (self.i, self.n))
    def set(self, v): raise Undefined('write to element %r of a container of %d' % (self.i, self.n))


def v_home(v, buf, i):
    if isinstance(v, CVec):
        v.home = (buf, i)


def concrete(i):
    return int(i) if not isinstance(i, Sym) else core.CTX.concretize(i.e)


def rval(x):
    if isinstance(x, Ref):
        x = x.get()
    if isinstance(x, rnp.generic):
        x = x.item()
    return x


def used(x):
    x = rval(x)
    if x is UNINIT:
        raise Undefined('use of an uninitialised value')
    return x


# -- class models ----------------------------------------------------------------------

class CppObj(object):
    """instance of a class of the source"""
    def __init__(self, cls):
        self.__dict__['cls'] = cls
        self.__dict__['f'] = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in self.f:
            return self.f[name]
        return Bound(self, name)

    def __setattr__(self, name, v):
        if name not in self.f:
            raise AttributeError(name)
        for n, t, _, _ in PROG.fields(self.cls):
            if n == name and strip(t) in BITS:
                from . import load
                v = load.coerce(strip(t), v, {})
        self.f[name] = v

    def __getitem__(self, i):
        if i != 0:
            raise Undefined('index into a single object')
        return self

    def __setitem__(self, i, v):
        PROG.assign(self, v)

    def __deepcopy__(self, memo):
        return PROG.copy(self)


class Function(object):
    """free function as seen from Cython"""
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        return PROG.free(self.name, list(a))


OUTSIDE = {'tinygltf::TinyGLTF', 'sumo::readPoints', 'sumo::writePoints', 'sumo::writePointsAndColors'}


class Bound(object):
    def __init__(self, o, name):
        self.o, self.name = o, name

    def __call__(self, *a):
        return PROG.from_python(self.o.cls, self.name, self.o, list(a))


class Static(object):
    """C++ class as seen from Cython"""
    def __init__(self, name):
        self.cls = name

    def __call__(self, *a):
        try:
            return PROG.construct(self.cls, list(a))
        except Terminate:
            raise
        except CppThrow as e:
            raise to_python(e)

    def __getattr__(self, name):
        return lambda *a: PROG.from_python(self.cls, name, None, list(a))


class PairObj(object):
    def __init__(self, *a):
        self.f = {({0: 'first', 1: 'second'}.get(i) if len(a) == 2 else i): x for i, x in enumerate(a)}

    def values(self):
        return [rval(x) for x in self.f.values()]

    # as the key of a map
    def __hash__(self):
        return hash(tuple(self.values()))

    def __eq__(self, o):
        return isinstance(o, PairObj) and self.values() == o.values()

    def __lt__(self, o):
        return self.values() < o.values()


def as_key(k):
    k = rval(k)
    if isinstance(k, (Sym, SymBool)):
        return concrete(k)
    if isinstance(k, PairObj):
        return PairObj(*[as_key(x) for x in k.f.values()])
    return k


class Smart(object):
    """unique_ptr or shared_ptr"""
    def __init__(self, p, shared=False, count=None):
        self.p, self.shared = p, shared
        self.count = count if count is not None else [1]


class Func(object):
    """std::function"""
    def __init__(self, fn=None):
        self.fn = fn


class Functor(object):
    """std::plus, std::less and so on"""
    def __init__(self, op):
        self.op = op


FUNCTORS = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'negate': 'neg',
            'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==',
            'not_equal_to': '!=', 'logical_and': '&&', 'logical_or': '||', 'logical_not': '!', 'bit_and': '&',
            'bit_or': '|'}


class Comma(object):
    """v << a, b, c"""
    def __init__(self, v):
        self.v, self.i = v, 0

    def add(self, x):
        for y in (x.v if isinstance(x, CVec) else [x]):
            if self.i >= len(self.v.v):
                raise Undefined('too many coefficients in a comma initialiser')
            self.v.v[self.i] = core.tofloat(used(y)) if kind_of(self.v) != 'int' else used(y)
            self.i += 1
        return self


class Mask(object):
    """coefficient-wise comparison"""
    def __init__(self, v):
        self.v = v


class Stream(object):
    """string stream, written to"""
    def __init__(self, text=b''):
        self.text = text


class TieObj(object):
    def __init__(self, refs):
        self.refs = refs


class MapObj(dict):
    unordered = False
    def __init__(self, vtype, *a):
        dict.__init__(self, *a)
        self.vtype = vtype

    def keys_sorted(self):
        return list(self) if self.unordered else sorted(self)


class Entry(object):
    """reference to a map entry"""
    def __init__(self, m, k):
        self.m, self.k = m, k


class Iter(object):
    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev, self.gen = c, i, rev, getattr(c, 'gen', 0)

    def deref(self):
        if self.gen != getattr(self.c, 'gen', 0):
            raise Undefined('use of an iterator into storage that was reallocated')
        if isinstance(self.c, MapObj):
            ks = self.c.keys_sorted()
            i = self.i - 1 if self.rev else self.i
            if not 0 <= i < len(ks):
                raise Undefined('dereferencing the end of a map')
            return Entry(self.c, ks[i])
        i = self.i - 1 if self.rev else self.i
        return element(self.c, i, getattr(self.c, 'elem', None))

    def move(self, n):
        r = Iter(self.c, self.i - n if self.rev else self.i + n, self.rev)
        r.gen = self.gen
        return r
    at = lambda self, n: self.move(n).deref()


def grow(v, n):
    """room for n more elements: the storage moves (and iterators die) when the capacity is exceeded"""
    size = len(v)
    cap = max(v.cap, size)
    if size + n > cap:
        v.cap = size + max(size, n)
        v.gen += 1
    else:
        v.cap = cap


class BackIns(object):
    def __init__(self, v):
        self.v = v


class Mat(object):
    """cv::Mat_<T>: rows x cols pixels of `ch` scalars in a flat row-major buffer"""
    def __init__(self, rows, cols, ch, kind, buf=None):
        self.rows, self.cols, self.ch, self.kind = rows, cols, ch, kind
        self.buf = buf

    def new(self):
        self.buf = [UNINIT] * (self.rows * self.cols * self.ch)

    def empty(self): return self.buf is None or self.rows * self.cols == 0

    def channels(self): return self.ch
    def type(self): return CV_DEPTH[self.kind] + (self.ch - 1) * 8

    def clone(self):
        return Mat(self.rows, self.cols, self.ch, self.kind, None if self.buf is None else list(self.buf))

    def __getitem__(self, i):
        if i != 0:
            raise Undefined('index into a single object')
        return self

    @property
    def data(self):
        if self.buf is None:
            return 0
        a = rnp.empty(len(self.buf), dtype=object)
        for i, v in enumerate(self.buf):
            a[i] = v
        return Mem(a, 1 if self.kind == 'uchar' else size_of(self.kind))

    def pixel(self, r, c):
        r, c = concrete(r), concrete(c)
        if not (0 <= r < self.rows and 0 <= c < self.cols):
            raise Undefined('pixel outside the image')
        o = (r * self.cols + c) * self.ch
        return ItemRef(self.buf, o) if self.ch == 1 else Pixel(self.buf, o, self.ch)


class MatExpr(object):
    """Mat::zeros and Mat::ones: the element type is that of the image they are assigned to"""
    def __init__(self, rows, cols, v):
        self.rows, self.cols, self.v = rows, cols, v

    def mat(self, ch, kind):
        r = Mat(self.rows, self.cols, ch, kind)
        v = float(self.v) if kind in FLOATS else self.v
        # Mat::ones fills only the first channel
        r.buf = [v if self.v == 0 or k == 0 else v * 0 for _ in range(r.rows * r.cols) for k in range(ch)]
        return r


class SetObj(Vector):
    """std::set, kept sorted, or std::unordered_set"""


class Pixel(object):
    def __init__(self, buf, off, n):
        self.buf, self.off, self.n = buf, off, n

    def at(self, i):
        i = concrete(i)
        if not 0 <= i < self.n:
            raise Undefined('channel outside the pixel')
        return ItemRef(self.buf, self.off + i)


class Closure(object):
    def __init__(self, tu, node, env):
        self.tu, self.node, self.env = tu, node, env


class Arr(object):
    """std::array"""
    def __init__(self, v, elem):
        self.v, self.elem = v, elem


class FuncPtr(object):
    def __init__(self, tu, node, name):
        self.tu, self.node, self.name = tu, node, name


class Opaque(object):
    """streams and the like"""


class ExcObj(object):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


OBJ = (tiff.Json, tiff.Handle, MatExpr, Smart, Func, Functor, Comma, Mask, Stream, CppObj, Vector, CVec, PairObj, TieObj, MapObj, Entry, Iter, BackIns, Mat, Pixel, Closure, Arr, Opaque, ExcObj)


def is_object(v):
    return isinstance(v, OBJ)


CV_DEPTH = {'uchar': 0, 'unsigned short': 2, 'int': 4, 'float': 5, 'double': 6}


def cv_type(t):
    """channels and element type of a type constant of OpenCV"""
    for k, d in CV_DEPTH.items():
        if d == t % 8:
            return t // 8 + 1, k
    raise Unsupported('image type %d' % t)


def mat_type(t):
    m = re.search(r'Mat(\d)([bfw])$', t)
    if m:
        return int(m.group(1)), {'b': 'uchar', 'f': 'float', 'w': 'unsigned short'}[m.group(2)]
    if t in ('cv::Mat', 'Mat'):
        return 0, None
    m = re.match(r'cv::Mat_<(.*)>$', t)
    if m:
        a = m.group(1)
        k = re.match(r'cv::Vec<(.*), (\d)>$', a)
        if k:
            return int(k.group(2)), {'unsigned char': 'uchar'}.get(k.group(1), k.group(1))
        return 1, {'unsigned char': 'uchar'}.get(a, a)
    return None


# -- the program ------------------------------------------------------------------------

def parse_docs(txt):
    d, i, out = json.JSONDecoder(), 0, []
    n = len(txt)
    while True:
        while i < n and txt[i] != '{':
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(txt, i)
        out.append(o)


class TU(object):
    def __init__(self, docs):
        self.index = {}
        self.parent = {}
        for ns, o in docs:
            if o.get('kind') == 'VarDecl':
                o['_top'] = True
            self.add(o, ns)

    def add(self, n, scope, cls=None):
        if not isinstance(n, dict):
            return
        i = n.get('id')
        k = n.get('kind', '')
        if i and (i not in self.index or not self.has_body(self.index[i])):
            if k.endswith('Decl'):
                self.index[i] = n
        s2 = scope
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'NamespaceDecl', 'EnumDecl') and n.get('name'):
            s2 = scope + '::' + n['name'] if scope else n['name']
            if k == 'ClassTemplateSpecializationDecl':
                s2 += '<%s>' % ', '.join((c.get('type') or {}).get('qualType', str(c.get('value')))
                                         for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument')
            n['_q'] = s2
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and cls is not None:
            n['_cls'] = cls
        c2 = n if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') else cls
        if k == 'EnumDecl':
            v = 0
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    e = [x for x in c.get('inner', []) if isinstance(x, dict)]
                    while e and 'value' not in e[0]:
                        e = [x for x in e[0].get('inner', []) if isinstance(x, dict)]
                    if e:
                        v = int(e[0]['value'])
                    c['_value'] = v
                    v += 1
        for c in n.get('inner', []):
            self.add(c, s2, c2)

    @staticmethod
    def has_body(n):
        return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []) if isinstance(c, dict))


class Program(object):
    def __init__(self, root, sources, data_source=None):
        self.root = root
        self.sources = list(sources)
        self.path, self.steps, self.executed = None, 0, set()
        ALIAS.clear()
        _resolved.clear()
        self.tus = []
        self.funcs = {}       # mangled name -> (tu, node with body)
        self.classes = {}     # qualified name -> (tu, node)
        jobs = []
        for s in sources:
            jobs.append((s, 'sumo::'))
        if data_source:
            jobs.append((data_source, 'tinygltf::'))
        procs = [(s, f, subprocess.Popen([CLANG] + FLAGS + ['-Xclang', '-ast-dump=json', '-Xclang',
                                                           '-ast-dump-filter=' + f, 'sumo/' + s],
                                         cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
                 for s, f in jobs]
        docs = {}
        for s, f, p in procs:
            out, err = p.communicate()
            if p.returncode != 0:
                raise Unsupported('clang++ fails on %s: %s' % (s, err.decode(errors='replace')[-800:]))
            docs.setdefault(s, []).extend((f[:-2], o) for o in parse_docs(out.decode(errors='replace')))
        for s in docs:
            tu = TU(docs[s])
            tu.source = s
            self.tus.append(tu)
            for n in list(tu.index.values()):
                if n.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and n.get('name') not in NOALIAS and \
                        '*' not in n['type']['qualType']:
                    t = n['type'].get('desugaredQualType') or n['type']['qualType']
                    if ALIAS.get(n['name'], t) != t:
                        raise Unsupported('two types called ' + n['name'])
                    ALIAS[n['name']] = t
                m = n.get('mangledName')
                if m and tu.has_body(n):
                    old = self.funcs.get(m)
                    if old is None:
                        self.funcs[m] = (tu, n)
                if n.get('_q') and n.get('completeDefinition') and n['kind'] != 'EnumDecl':
                    self.classes.setdefault(n['_q'], (tu, n))
        self.steps = 0
        self.specs = {canonical(q): q for q in self.classes if '<' in q}
        self.by_name = {}
        for q in self.classes:
            self.by_name.setdefault(q.split('::')[-1], []).append(q)
        for n in self.by_name:
            ALIAS.pop(n, None)      # the name of a nested class, and elsewhere an unused typedef
        _resolved.clear()
        self.pxd = {}
        self.virtuals = {}

    # -- classes
    def class_of(self, t):
        t = strip(t)
        if t in self.classes:
            return t
        for ns in ('sumo::', 'tinygltf::'):
            if ns + t in self.classes:
                return ns + t
        b = t.split('<')[0]
        if '<' not in t and len(self.by_name.get(t, ())) == 1:
            return self.by_name[t][0]
        if '<' in t:
            q = self.specs.get(canonical(t))
            if q:
                return q
            for ns in ('sumo::', 'tinygltf::', ''):
                if ns + b in self.classes and (ns + b).startswith('sumo::'):
                    return ns + b
        return None

    def bases(self, q):
        tu, n = self.classes[q]
        out = []
        for b in n.get('bases', []):
            c = self.class_of(ty(b['type']))
            if c:
                out.append(c)
        return out

    def fields(self, q):
        tu, n = self.classes[q]
        out = []
        for b in self.bases(q):
            out += self.fields(b)
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl' and c.get('name'):
                out.append((c['name'], qt(c), c, tu))
        return out

    def methods(self, q, name):
        """own and inherited methods called `name`"""
        tu, n = self.classes[q]
        out = [(tu, c) for c in n.get('inner', [])
               if c.get('name') == name and c.get('kind') in ('CXXMethodDecl', 'FunctionDecl')]
        if not out:
            for b in self.bases(q):
                out = self.methods(b, name)
                if out:
                    break
        return out

    def ctors(self, q):
        tu, n = self.classes[q]
        out = []
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and not c.get('explicitlyDefaulted'):
                out.append((tu, c))
            if c.get('kind') == 'FunctionTemplateDecl':
                out += [(tu, d) for d in c.get('inner', []) if d.get('kind') == 'CXXConstructorDecl']
        return out

    def body(self, tu, n):
        m = n.get('mangledName')
        if TU.has_body(n):
            return tu, n
        if m and m in self.funcs:
            return self.funcs[m]
        return None

    @staticmethod
    def params(n):
        return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def init_fields(self, o, q):
        for name, t, node, tu in self.fields(q):
            init = [c for c in node.get('inner', []) if isinstance(c, dict) and c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            if node.get('hasInClassInitializer') and init:
                o.f[name] = rval(self.ev(tu, init[-1], {'this': o}))
            else:
                o.f[name] = self.uninit(t)

    def uninit(self, t):
        """default initialisation"""
        s = strip(t)
        if s in BITS or s in FLOATS or is_ptr(s) or s in self.enum_names():
            return UNINIT
        m = re.match(r'(.*)\[(\d+)\]$', s)
        if m:
            return Arr([self.uninit(m.group(1)) for _ in range(int(m.group(2)))], strip(m.group(1)))
        return self.make(s, [])

    def enum_names(self):
        if not hasattr(self, '_enums'):
            self._enums = set()
            for tu in self.tus:
                for n in tu.index.values():
                    if n.get('kind') == 'EnumDecl' and n.get('_q'):
                        self._enums.add(n['_q'])
                        self._enums.add(n['name'])
        return self._enums

    def construct(self, q, args, sig=None):
        """object of a class of the source; args are values or references"""
        q = self.class_of(q) or q
        if q not in self.classes:
            raise Unsupported('construction of ' + q)
        o = CppObj(q)
        cands = self.ctors(q)
        pick = None
        if sig is not None:
            for tu, c in cands:
                if c['type']['qualType'].replace(' noexcept', '') == sig.replace(' noexcept', ''):
                    pick = (tu, c)
        if pick is None:
            fits = []
            for tu, c in cands:
                ps = self.params(c)
                need = len([p for p in ps if not p.get('init')])
                if need <= len(args) <= len(ps) and all(self.fits(rval(a), qt(p)) for a, p in zip(args, ps)):
                    fits.append((tu, c))
            if fits:
                pick = fits[0]
        if pick is None:
            if len(args) == 1 and isinstance(rval(args[0]), CppObj):
                self.memberwise(o, rval(args[0]))
                return o
            if not args:
                self.init_fields(o, q)
                return o
            fs = self.fields(q)
            if not cands and len(args) <= len(fs):      # aggregate
                self.init_fields(o, q)
                for (name, t, _, _), a in zip(fs, args):
                    o.f[name] = self.copy(rval(a))
                return o
            raise Unsupported('no constructor of %s for %d arguments' % (q, len(args)))
        self.run_ctor(o, q, pick, args)
        return o

    def fits(self, v, t):
        """rough overload check of a value against a parameter type"""
        s = strip(t)
        if isinstance(v, CppObj):
            c = self.class_of(pointee(s) if is_ptr(s) else s)
            return c is not None and (c == v.cls or c in self.all_bases(v.cls))
        if isinstance(v, Vector):
            if not re.match(r'(std::)?vector<', s):
                return False
            e = targs(s)[0]
            if not v:
                ve = getattr(v, 'elem', None)
                return ve is None or is_ptr(ve) == is_ptr(e)
            return self.fits(v[0], e)
        if isinstance(v, CVec):
            return 'Matrix<' in s or 'Vector' in s
        if isinstance(v, Mat):
            return mat_type(s) is not None
        if isinstance(v, (list, tuple)):
            return unstd(s).startswith('vector<')
        if isinstance(v, (bytes, str)):
            return 'string' in s or s == 'char *' or s.startswith('const char')
        return s in BITS or s in FLOATS or s == 'bool' or is_ptr(s) or s in self.enum_names()

    def all_bases(self, q):
        out = []
        for b in self.bases(q):
            out += [b] + self.all_bases(b)
        return out

    def run_ctor(self, o, q, pick, args):
        tu, c = pick
        b = self.body(tu, c)
        if b is None:
            raise Unsupported('constructor of %s has no body' % q)
        self.executed.add(c.get('mangledName') or q)
        tu, c = b
        self.init_fields_basic(o, q)
        env = {'this': o}
        self.bind(tu, c, args, env)
        done = set()
        for n in c.get('inner', []):
            if n.get('kind') != 'CXXCtorInitializer':
                continue
            e = [x for x in n.get('inner', []) if isinstance(x, dict)]
            if 'anyInit' in n:
                name = n['anyInit']['name']
                done.add(name)
                if e and e[0].get('kind') == 'CXXDefaultInitExpr':
                    continue
                if e:
                    o.f[name] = self.value_of(tu, e[0], env, n['anyInit']['type'])
            elif 'baseInit' in n:
                bt = ty(n['baseInit'])
                bq = self.class_of(bt)
                if bq and e:
                    x = e[0]
                    while x.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                        x = x['inner'][0]
                    if x.get('kind') in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr'):
                        bargs = [self.ev(tu, a, env) for a in x.get('inner', [])
                                 if a.get('kind') != 'CXXDefaultArgExpr']
                        base = self.construct(bq, bargs, x.get('ctorType', {}).get('qualType'))
                    else:
                        base = rval(self.ev(tu, x, env))
                    o.f.update(base.f)
        st = [x for x in c.get('inner', []) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
        if st:
            self.ex(tu, st[0], env)

    def init_fields_basic(self, o, q):
        self.init_fields(o, q)

    def value_of(self, tu, e, env, t=None):
        v = self.ev(tu, e, env)
        if is_ref(ty(t)):
            return v
        return rval(v)

    def memberwise(self, o, src):
        for k, v in src.f.items():
            o.f[k] = self.copy(rval(v)) if not self.ptr_field(src.cls, k) else v

    def ptr_field(self, q, name):
        for n, t, _, _ in self.fields(q):
            if n == name:
                return is_ptr(t)
        return False

    def copy(self, v):
        v = rval(v)
        if isinstance(v, CppObj):
            for tu, c in self.ctors(v.cls):
                ps = self.params(c)
                if len(ps) == 1 and is_ref(qt(ps[0])) and self.class_of(qt(ps[0])) == v.cls and \
                        not qt(ps[0]).strip().endswith('&&'):
                    o = CppObj(v.cls)
                    self.run_ctor(o, v.cls, (tu, c), [v])
                    return o
            o = CppObj(v.cls)
            self.memberwise(o, v)
            return o
        if isinstance(v, tiff.Json):
            return v.copy()
        if isinstance(v, Vector):
            r = type(v)([x if is_ptr(getattr(v, 'elem', '') or '') else self.copy(x) for x in v])
            if isinstance(v, SetObj):
                r.unordered, r.less = v.unordered, v.less
            r.elem = getattr(v, 'elem', None)
            return r
        if isinstance(v, CVec):
            return eigen(len(v.v), kind_of(v), v.v) if type(v) not in CLS.values() or len(v.v) != v.n else \
                self.plain(v)
        if isinstance(v, MapObj):
            r = MapObj(v.vtype, {k: x if is_ptr(v.vtype or '') else self.copy(x) for k, x in v.items()})
            r.unordered = v.unordered
            return r
        if isinstance(v, PairObj):
            return PairObj(*[self.copy(x) for x in v.f.values()])
        if isinstance(v, Smart):
            if v.shared:
                v.count[0] += 1
                return Smart(v.p, True, v.count)
            r = Smart(v.p)      # unique pointers can only be moved
            v.p = None
            return r
        if isinstance(v, Func):
            return Func(v.fn)
        if isinstance(v, Stream):
            return Stream(v.text)
        if isinstance(v, Iter):
            return v.move(0)
        if isinstance(v, Arr):
            return Arr([self.copy(x) for x in v.v], v.elem)
        if isinstance(v, Mat):
            return Mat(v.rows, v.cols, v.ch, v.kind, v.buf)      # shares the pixels
        if isinstance(v, Pixel):
            return Pixel(list(v.buf[v.off:v.off + v.n]), 0, v.n)
        return v

    def plain(self, v):
        r = type(v).__new__(type(v))
        r.v = list(v.v)
        return r

    def assign(self, dst, v):
        """dst = v for class objects"""
        v = rval(v)
        if isinstance(dst, Smart):
            if v is None:
                dst.p, dst.count = None, [0]
            elif v is not dst:
                n = self.copy(v)
                dst.p, dst.count = n.p, n.count
            return
        if isinstance(dst, tiff.Json):
            n = v.copy()
            dst.kind, dst.v = n.kind, n.v
            return
        if isinstance(dst, Func):
            dst.fn = v.fn if isinstance(v, Func) else v
            return
        if isinstance(dst, Mat) and isinstance(v, MatExpr):
            v = v.mat(dst.ch, dst.kind)
        if isinstance(dst, Mat) and not is_object(v):
            dst.buf[:] = [v] * len(dst.buf) if dst.ch == 1 else dst.buf
            if dst.ch != 1:
                raise Unsupported('image of several channels = number')
            return
        if isinstance(dst, Stream):
            dst.text = v.text
            return
        if isinstance(dst, Arr) and isinstance(v, Vector):
            dst.v[:] = list(v)
            return
        if isinstance(dst, Entry):
            raise Unsupported('assignment to a map entry')
        if dst is v:
            return
        if isinstance(dst, CppObj):
            tmp = CppObj(dst.cls)
            self.memberwise(tmp, v)
            for k in dst.f:
                if k in tmp.f:
                    dst.f[k] = tmp.f[k]
            return
        v = self.copy(v)
        if isinstance(dst, Vector):
            if not isinstance(v, Vector):
                raise Unsupported('vector = %s' % type(v).__name__)
            dst[:] = list(v)
        elif isinstance(dst, CVec):
            dst.v[:] = v.v
        elif isinstance(dst, MapObj):
            dst.clear()
            dst.update(v)
        elif isinstance(dst, TieObj):
            vals = list(v.f.values()) if isinstance(v, PairObj) else list(v.v)
            for r, x in zip(dst.refs, vals):
                if isinstance(r, Ref):
                    r.set(x)
                else:
                    self.assign(r, x)
        elif isinstance(dst, PairObj):
            for k, x in zip(dst.f, v.f.values()):
                dst.f[k] = x
        elif isinstance(dst, Iter):
            dst.c, dst.i, dst.rev = v.c, v.i, v.rev
        elif isinstance(dst, Mat):
            dst.rows, dst.cols, dst.ch, dst.kind, dst.buf = v.rows, v.cols, v.ch, v.kind, v.buf
        elif isinstance(dst, Pixel):
            for i in range(dst.n):
                dst.buf[dst.off + i] = v.buf[v.off + i]
        elif isinstance(dst, Arr):
            dst.v[:] = v.v
        else:
            raise Unsupported('assignment to ' + type(dst).__name__)

    # -- values of a type
    def make(self, t, args, sig=None, init_list=False):
        s = strip(t)
        q = self.class_of(s)
        if q:
            if len(args) == 1 and isinstance(rval(args[0]), CppObj) and (
                    rval(args[0]).cls == q or q in self.all_bases(rval(args[0]).cls)):
                v = rval(args[0])
                if v.cls == q:
                    return self.copy(v)
            return self.construct(q, args, sig)
        u = unstd(s)
        vals = [rval(a) for a in args]
        if 'iterator' in u.split('<')[0] or u.endswith('iterator'):
            return self.copy(vals[0]) if vals else Iter(None, 0)
        if u in ('picojson::value', 'value') :
            return tiff.make(u, vals, sig)
        w = u.split('<')[0].split('::')[-1] if '<' in u else ''
        if w in ('unique_ptr', 'shared_ptr', '__shared_ptr', '__uniq_ptr_impl'):
            if not vals or vals[0] is None:
                return Smart(None, 'shared' in w, [0])
            if isinstance(vals[0], Smart):
                r = self.copy(vals[0])
                r.shared = r.shared or 'shared' in w
                return r
            return Smart(vals[0], 'shared' in w)
        if w == 'function':
            f = vals[0] if vals else None
            return Func(f.fn if isinstance(f, Func) else f)
        if w in FUNCTORS and u.split('<')[0] in ('std::' + w, w):
            return Functor(FUNCTORS[w])
        if w in ('set', 'unordered_set', 'multiset') and 'initializer' not in u:
            r = SetObj()
            r.elem = targs(u)[0]
            r.unordered = w != 'set'
            r.less = None
            if w == 'multiset':
                raise Unsupported('multiset')
            if vals and isinstance(vals[0], SetObj):
                return self.copy(vals[0])
            src = []
            if vals and isinstance(vals[0], Vector):
                src = list(vals[0])
            elif len(vals) >= 2 and isinstance(vals[0], (Iter, Ptr)):
                src = self.span(vals[0], vals[1])
            if not r.unordered and len(targs(u)) > 1 and not targs(u)[1].split('<')[0].endswith('less'):
                r.less = vals[-1] if vals and isinstance(vals[-1], (Closure, FuncPtr, Functor)) else self.make(targs(u)[1], [])
            for x in src:
                self.set_insert(r, x)
            return r
        if u.startswith(('vector<', 'initializer_list<', 'deque<', 'list<')) or re.match(r'(\w+::)*(vector|list|deque)<', u):
            elem = targs(u)[0]
            if len(vals) == 1 and isinstance(vals[0], Vector):
                v = self.copy(vals[0])
            elif not vals:
                v = Vector()
            elif isinstance(vals[0], (Iter, Ptr, BytePtr, TypedPtr)) and len(vals) == 2:
                v = Vector([self.copy(x) for x in self.span(vals[0], vals[1])])
            elif len(vals) == 1:
                v = Vector([default_elem(elem) for _ in range(self.count(vals[0]))])
            elif len(vals) == 2:
                v = Vector([self.copy(vals[1]) for _ in range(self.count(vals[0]))])
            else:
                raise Unsupported('vector constructor')
            v.elem = elem
            return v
        if u.startswith('map<') or u.startswith('unordered_map<'):
            r = MapObj(targs(u)[1])
            r.unordered = u.startswith('unordered')
            if not vals or not is_object(vals[0]):
                return r
            if isinstance(vals[0], MapObj):
                return self.copy(vals[0])
            src = list(vals[0]) if isinstance(vals[0], Vector) else self.span(vals[0], vals[1])
            for p in src:
                r.setdefault(as_key(p.f['first']), self.copy(p.f['second']))
            return r
        if u.startswith('pair<') or u.startswith('tuple<'):
            if len(vals) == 1 and isinstance(vals[0], (PairObj, Entry)):
                if isinstance(vals[0], Entry):
                    return PairObj(vals[0].k, self.copy(vals[0].m[vals[0].k]))
                return self.copy(vals[0])
            if len(vals) == 1 and isinstance(vals[0], TieObj):
                return vals[0]
            a = targs(u)
            if not vals:
                return PairObj(*[default_elem(x) for x in a])
            return PairObj(*[self.copy(self.implicit(v, x)) for v, x in zip(vals, a)])
        if 'basic_string<' in u or u == 'string' or u.endswith('::string'):
            if not vals:
                return b''
            if isinstance(vals[0], bytes):
                return vals[0][:concrete(vals[1])] if len(vals) > 1 and not isinstance(vals[1], Opaque) else vals[0]
            if len(vals) == 2 and isinstance(vals[0], int):
                return bytes([vals[1]]) * vals[0]
            if isinstance(vals[0], (Iter, Ptr)) and len(vals) >= 2 and isinstance(vals[1], (Iter, Ptr)):
                return bytes(concrete(x) for x in self.span(vals[0], vals[1]))
            if isinstance(vals[0], Vector):
                return bytes(concrete(x) for x in vals[0])
            raise Unsupported('string constructor')
        if not u.startswith('array<') and ('Matrix<' in u or re.search(r'Vector\d[fd]?$', u) or 'Eigen::' in u):
            if len(vals) == 1 and isinstance(vals[0], CVec):
                return self.copy(vals[0])
            n, kind = eigen_dim(u)
            if not vals or len(vals) == 1 and isinstance(vals[0], int) and n > 1:
                return eigen(n, kind)
            if len(vals) == 1 and isinstance(vals[0], Vector):
                vals = list(vals[0])
            if len(vals) == n:
                return eigen(n, kind, [core.tofloat(used(x)) for x in vals])
            if len(vals) == 1 and isinstance(vals[0], Ptr):
                return eigen(n, kind, [used(vals[0].at(i)) for i in range(n)])
            raise Unsupported('Eigen constructor %s from %r' % (u, vals))
        if u.startswith('array<'):
            a = targs(u)
            if len(vals) == 1 and isinstance(vals[0], Arr):
                return self.copy(vals[0])
            n = int(re.sub(r'\D', '', a[1]))
            return Arr([self.copy(v) for v in vals] + [self.uninit(a[0]) for _ in range(n - len(vals))], a[0])
        m = mat_type(s)
        if m:
            ch, kind = m
            if not vals:
                return Mat(0, 0, ch, kind)
            if isinstance(vals[0], Mat):
                return self.copy(vals[0])
            if isinstance(vals[0], MatExpr):
                return vals[0].mat(ch, kind)
            if isinstance(vals[0], PairObj):      # a size
                vals = [vals[0].f['second'], vals[0].f['first']] + vals[1:]
            r = Mat(concrete(vals[0]), concrete(vals[1]), ch, kind)
            if len(vals) >= 3 and isinstance(vals[2], Mem):
                r.buf = vals[2].flat
            else:
                r.new()
                if len(vals) >= 3 and isinstance(vals[2], Pixel):
                    for i in range(len(r.buf)):
                        r.buf[i] = vals[2].buf[vals[2].off + i % ch]
                elif len(vals) >= 3 and not is_object(vals[2]) and vals[2] is not None:
                    r.buf = [vals[2]] * len(r.buf)
            return r
        if u.startswith('cv::Vec<'):
            if len(vals) == 1 and isinstance(vals[0], Pixel):
                return self.copy(vals[0])
            n = int(targs(u)[1])
            return Pixel(list(vals) + [0] * (n - len(vals)), 0, n)
        if u.startswith('cv::Size'):
            return self.copy(vals[0]) if len(vals) == 1 else PairObj(*(vals or [0, 0]))
        if w.startswith('cv::Scalar') or u.startswith('cv::Scalar'):
            return Pixel(list(vals) + [0] * (4 - len(vals)), 0, 4)
        if 'ostringstream' in u or 'stringstream' in u:
            return Stream(vals[0] if vals and isinstance(vals[0], bytes) else b'')
        if 'move_iterator' in u:
            return self.copy(vals[0])
        if 'back_insert_iterator' in u:
            return vals[0]
        if u.endswith(('runtime_error', 'invalid_argument', 'out_of_range', 'logic_error', 'domain_error',
                       'length_error', 'exception', 'overflow_error', 'range_error')):
            if vals and isinstance(vals[0], ExcObj):
                return vals[0]
            return ExcObj(u.split('::')[-1], vals[0] if vals else b'')
        if u.startswith('cv::_InputArray') or u.startswith('cv::_OutputArray') or u.startswith('cv::_InputOutputArray'):
            return vals[0] if vals else Opaque()
        if 'allocator' in u or 'less<' in u or 'stream' in u:
            return Opaque()
        if s in BITS:
            return 0 if not vals else vals[0]
        if s in FLOATS:
            return 0.0 if not vals else vals[0]
        if '(lambda at' in s:
            return vals[0]
        if len(vals) == 1 and is_object(vals[0]):
            return self.copy(vals[0])
        raise Unsupported('C++ type ' + s)

    def implicit(self, v, t):
        """conversions inside pair and tuple constructors"""
        s = strip(t)
        if isinstance(v, Vector) and not isinstance(v, SetObj) and not unstd(s).startswith(('vector', 'initializer', 'deque', 'list')):
            return self.make(s, [v])
        return v

    def less(self, f, a, b):
        if f is not None:
            return self.truth(self.invoke(f, [a, b]))
        a, b = rval(a), rval(b)
        if is_object(a) or isinstance(a, bytes):
            return self.truth(self.compare_less(a, b))
        return self.truth(self.num(a) < self.num(b))

    def compare_less(self, a, b):
        if isinstance(a, bytes):
            return a < b
        if isinstance(a, PairObj):
            for x, y in zip(a.f.values(), b.f.values()):
                if self.less(None, x, y):
                    return True
                if self.less(None, y, x):
                    return False
            return False
        if isinstance(a, (Vector, Arr)):
            x, y = (a, b) if isinstance(a, Vector) else (a.v, b.v)
            for p, q in zip(x, y):
                if self.less(None, p, q):
                    return True
                if self.less(None, q, p):
                    return False
            return len(x) < len(y)
        if isinstance(a, CppObj):
            for tu, m in self.methods(a.cls, 'operator<'):
                return self.call(tu, m, [b], a)
            got = self.find_function('operator<', [a, b])
            if got:
                return self.call(got[0], got[1], [a, b])
        if isinstance(a, Iter):
            return self.diff(a, b) < 0
        raise Unsupported('operator< on ' + type(a).__name__)

    def sorted(self, xs, f=None):
        """stable insertion sort"""
        out = []
        for x in xs:
            i = len(out)
            while i > 0 and self.less(f, x, out[i - 1]):
                i -= 1
            out.insert(i, x)
        return out

    def set_insert(self, o, x):
        x = self.copy(x)
        if o.unordered:
            for i, y in enumerate(o):
                if self.truth(self.equal(y, x)):
                    return i, False
            o.append(x)
            return len(o) - 1, True
        for i, y in enumerate(o):
            if self.less(o.less, x, y):
                o.insert(i, x)
                return i, True
            if not self.less(o.less, y, x):
                return i, False
        o.append(x)
        return len(o) - 1, True

    def set_find(self, o, x):
        for i, y in enumerate(o):
            if o.unordered:
                if self.truth(self.equal(y, x)):
                    return i
            elif not self.less(o.less, x, y) and not self.less(o.less, y, x):
                return i
        return len(o)

    def set_member(self, o, name, vals):
        if name in ('insert', 'emplace', 'emplace_hint') :
            if name == 'insert' and len(vals) == 2 and isinstance(vals[1], (Iter, Ptr)):
                for x in self.span(vals[0], vals[1]):
                    self.set_insert(o, x)
                return None
            if name == 'insert' and isinstance(vals[0], Vector) and not isinstance(vals[0], SetObj) and \
                    'vector' not in (o.elem or ''):
                for x in vals[0]:
                    self.set_insert(o, x)
                return None
            i, new = self.set_insert(o, vals[-1])
            return PairObj(Iter(o, i), new) if len(vals) == 1 else Iter(o, i)
        if name in ('find', 'lower_bound', 'upper_bound'):
            if name == 'find':
                return Iter(o, self.set_find(o, vals[0]))
            for i, y in enumerate(o):
                if (name == 'lower_bound' and not self.less(o.less, y, vals[0])) or (
                        name == 'upper_bound' and self.less(o.less, vals[0], y)):
                    return Iter(o, i)
            return Iter(o, len(o))
        if name in ('count', 'contains'):
            return 1 if self.set_find(o, vals[0]) < len(o) else 0
        if name == 'erase':
            if isinstance(vals[0], Iter):
                del o[vals[0].i]
                return Iter(o, vals[0].i)
            i = self.set_find(o, vals[0])
            if i < len(o):
                del o[i]
                return 1
            return 0
        if name in ('reserve', 'rehash'):
            return None
        if name in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'clear', 'swap'):
            return self.vector(o, name, vals, vals)
        raise Unsupported('set::' + name)

    def find_function(self, name, args):
        """a free function of the sources by name"""
        for tu in self.tus:
            for n in tu.index.values():
                if n.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and n.get('name') == name and tu.has_body(n) and \
                        (n['kind'] == 'FunctionDecl' or n.get('storageClass') == 'static'):
                    ps = self.params(n)
                    need = len([p for p in ps if not p.get('init')])
                    if need <= len(args) <= len(ps) and all(self.fits(rval(a), qt(p)) for a, p in zip(args, ps)):
                        return tu, n
        return None

    def count(self, n):
        n = concrete(n)
        if 300000 < n < 2 ** 40:
            raise Unsupported('a container of %d elements' % n)
        if n > 300000:
            raise CppThrow('length_error', b'cannot create std::vector larger than max_size()')
        return n

    def span(self, a, b):
        """values of the range [a, b)"""
        if isinstance(a, Iter) and isinstance(a.c, MapObj):
            return [PairObj(k, a.c[k]) for k in a.c.keys_sorted()[a.i:b.i]]
        n = self.diff(b, a)
        if n < 0:
            raise Undefined('range with its end before its start')
        return [used_obj(a.at(i)) for i in range(n)]

    def diff(self, b, a):
        if isinstance(a, Iter):
            if not same_store(a.c, b.c):
                raise Undefined('iterators of different containers')
            return concrete(a.i - b.i if a.rev else b.i - a.i)
        if isinstance(a, Ptr):
            return concrete(b.off - a.off)
        if isinstance(a, (BytePtr, TypedPtr)):
            return concrete(b.off - a.off) // (1 if isinstance(a, BytePtr) else size_of(a.elem))
        raise Unsupported('pointer difference')

    # -- calls
    def from_python(self, q, name, this, args):
        """call from the Cython layer"""
        ms = self.methods(q, name)
        if not ms:
            raise AttributeError(name)
        fits = []
        for tu, m in ms:
            ps = self.params(m)
            need = len([p for p in ps if not p.get('init')])
            if need <= len(args) <= len(ps) and all(self.fits(a, qt(p)) for a, p in zip(args, ps)):
                fits.append((tu, m))
        if not fits:
            raise Unsupported('no method %s::%s for these arguments' % (q, name))
        tu, m = fits[0]
        args = [self.convert(a, qt(p)) for a, p in zip(args, self.params(m))]
        try:
            return used_obj(self.call(tu, m, args, this))
        except CppThrow as e:
            if self.throws(q, name):
                raise to_python(e)
            raise Terminate('%s: %s' % (e.kind, e.msg))

    def free(self, q, args):
        args = [a.m if isinstance(a, cpp.CyMap) else a for a in args]
        for tu in self.tus:
            for n in tu.index.values():
                if n.get('kind') == 'FunctionDecl' and n.get('name') == q.split('::')[-1] and tu.has_body(n) and \
                        len(self.params(n)) == len(args):
                    try:
                        return used_obj(self.call(tu, n, args, None))
                    except CppThrow as e:
                        if self.throws(q.rpartition('::')[0], q.split('::')[-1]):
                            raise to_python(e)
                        raise Terminate('%s: %s' % (e.kind, e.msg))
        raise Unsupported('no function ' + q)

    def throws(self, q, name):
        return self.pxd.get((q, name), False)

    def read_pxd(self, path):
        """which declarations say `except +`"""
        cls, extern, cls_ind = None, None, 0
        txt = open(os.path.join(self.root, path)).read()
        txt = re.sub(r'#[^\n]*|"""[\s\S]*?"""', '', txt)
        txt = re.sub(r'\(([^()]*)\)(\s*\\?\n\s*(?=except))?', lambda m: '(' + m.group(1).replace('\n', ' ') + ') ', txt)
        for line in txt.split('\n'):
            if not line.strip():
                continue
            ind = len(line) - len(line.lstrip())
            if ind == 0:
                m = re.match(r'cdef extern from .*?(?: namespace "([\w:]+)")?\s*:', line)
                extern, cls = (m.group(1) or '') if m else None, None
                continue
            if extern is None:
                continue
            m = re.match(r'\s*cdef cppclass (\w+)(?: "([\w:]+)")?', line)
            if m:
                cls = m.group(2) or (extern + '::' if extern else '') + m.group(1)
                cls_ind = ind
                continue
            if cls and ind <= cls_ind:
                cls = None
            m = re.match(r'\s+[\w\[\]&*:, ]*?(\w+)\(', line)
            if m:
                last = (cls or extern, m.group(1))
                self.pxd[last] = self.pxd.get(last, False) or 'except +' in line

    def convert(self, v, t):
        """implicit conversion of a Python-side argument"""
        s = strip(t)
        if isinstance(v, (list, tuple)) and not isinstance(v, Vector) and unstd(s).startswith('vector<'):
            return cpp.new_vector('vector[%s]' % targs(s)[0], v)
        if 'basic_string' in s and isinstance(v, str):
            raise TypeError('expected bytes, str found')
        return v

    def bind(self, tu, n, args, env):
        ps = self.params(n)
        for i, p in enumerate(ps):
            t = qt(p)
            if i < len(args):
                a = args[i]
                if is_ref(t):
                    if isinstance(a, Ref) or is_object(a):
                        env[p['id']] = Cell(a) if not isinstance(a, Ref) else a
                    else:
                        env[p['id']] = Cell(a)
                else:
                    env[p['id']] = Cell(rval(a))
            else:
                init = [c for c in p.get('inner', []) if isinstance(c, dict)]
                if not init:
                    init = self.default_arg(tu, n, i)
                env[p['id']] = Cell(rval(self.ev(tu, init[-1], env)))

    def default_arg(self, tu, n, i):
        prev = n.get('previousDecl')
        while prev and prev in tu.index:
            p = self.params(tu.index[prev])
            if i < len(p) and p[i].get('inner'):
                return p[i]['inner']
            prev = tu.index[prev].get('previousDecl')
        for t2 in [tu]:
            for m in t2.index.values():
                if m.get('mangledName') == n.get('mangledName') and m is not n:
                    p = self.params(m)
                    if i < len(p) and p[i].get('inner'):
                        return p[i]['inner']
        raise Unsupported('default argument of ' + str(n.get('name')))

    def call(self, tu, n, args, this=None, env=None):
        b = self.body(tu, n)
        if b is None:
            raise Unsupported('call of %s, whose body is not in the sources' % n.get('name'))
        tu, n = b
        if self.path is not core.CTX:
            self.path, self.steps = core.CTX, 0
        self.steps += 1
        if self.steps > 400000:
            raise core.Inconclusive('C++ call budget')
        self.executed.add(n.get('mangledName') or n.get('name'))
        env = dict(env or {})
        if this is not None:
            env['this'] = this
        self.bind(tu, n, args, env)
        st = [x for x in n.get('inner', []) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')][0]
        r = self.ex(tu, st, env)
        if r is not None and r[0] == 'ret':
            rt = resolve(n['type']['qualType'].split('(')[0].strip())
            v = r[1]
            if is_ref(rt) or is_object(v):
                return v
            return rval(v)
        return None

    def invoke(self, f, args):
        """call a callable value"""
        f = rval(f)
        if isinstance(f, Func):
            if f.fn is None:
                raise CppThrow('bad_function_call', b'bad_function_call')
            f = rval(f.fn)
        if isinstance(f, Functor):
            v = [rval(a) for a in args]
            if f.op == 'neg':
                return -v[0]
            if f.op == '!':
                return not self.truth(v[0])
            if f.op in ('&&', '||'):
                return (self.truth(v[0]) and self.truth(v[1])) if f.op == '&&' else (
                    self.truth(v[0]) or self.truth(v[1]))
            if f.op in ('<', '>', '<=', '>='):
                if f.op in ('<', '>='):
                    r = self.less(None, v[0], v[1])
                else:
                    r = self.less(None, v[1], v[0])
                return r if f.op in ('<', '>') else not r
            if is_object(v[0]) or isinstance(v[0], bytes):
                return self.operator(f.op, v, '')
            return self.binary(f.op, self.num(v[0]), self.num(v[1]),
                               'double' if isinstance(v[0], float) or isinstance(v[1], float) else 'long')
        if isinstance(f, CppObj):
            for tu, m in self.methods(f.cls, 'operator()'):
                if len(self.params(m)) == len(args):
                    return self.call(tu, m, args, f)
        if isinstance(f, Closure):
            op = [c for c in f.node.get('inner', []) if c.get('kind') == 'CXXRecordDecl'][0]
            ops = []
            for c in op.get('inner', []):
                if c.get('name') == 'operator()':
                    if c['kind'] == 'CXXMethodDecl':
                        ops.append(c)
                    else:
                        ops += [d for d in c.get('inner', []) if d.get('kind') == 'CXXMethodDecl']
            ops = [c for c in ops if len(self.params(c)) == len(args) and 'auto' not in c['type']['qualType']
                   or True and len(self.params(c)) == len(args)]
            best = [c for c in ops if all(self.fits(rval(a), qt(p)) for a, p in zip(args, self.params(c)))] or ops
            return self.call(f.tu, best[0], args, env=f.env)
        if isinstance(f, FuncPtr):
            if f.node is not None:
                return self.call(f.tu, f.node, args)
            return self.std(f.name, args, None, None, None)
        raise Unsupported('call of %s' % type(f).__name__)

    # -- statements
    def ex(self, tu, n, env):
        k = n.get('kind')
        if k == 'CompoundStmt':
            for c in n.get('inner', []):
                r = self.ex(tu, c, env)
                if r is not None:
                    return r
            return None
        if k == 'DeclStmt':
            for c in n.get('inner', []):
                if c.get('kind') == 'VarDecl' and c.get('storageClass') == 'static':
                    env[c['id']] = self.static(tu, c)
                elif c.get('kind') == 'VarDecl':
                    self.declare(tu, c, env)
            return None
        if k == 'ReturnStmt':
            e = [c for c in n.get('inner', []) if isinstance(c, dict)]
            return ('ret', self.ev(tu, e[0], env) if e else None)
        if k == 'IfStmt':
            inner = list(n['inner'])
            if n.get('hasInit'):
                self.ex(tu, inner.pop(0), env)
            if n.get('hasVar'):
                self.ex(tu, inner.pop(0), env)
            cond = self.ev(tu, inner[0], env)
            if len(inner) == 2 and self.merged_if(tu, inner[0], used(cond), inner[1], env):
                return None
            if self.truth(cond):
                return self.ex(tu, inner[1], env)
            if len(inner) > 2:
                return self.ex(tu, inner[2], env)
            return None
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.loop(tu, n, env)
        if k == 'BreakStmt':
            return ('brk',)
        if k == 'ContinueStmt':
            return ('cnt',)
        if k == 'NullStmt' or not k:
            return None
        if k == 'SwitchStmt':
            return self.switch(tu, n, env)
        if k in ('CaseStmt', 'DefaultStmt', 'AttributedStmt', 'LabelStmt'):
            return self.ex(tu, n['inner'][-1], env)
        if k == 'CXXTryStmt':
            try:
                return self.ex(tu, n['inner'][0], env)
            except CppThrow as e:
                self.handling = getattr(self, 'handling', []) + [e]
                for h in n['inner'][1:]:
                    var = [c for c in h['inner'] if c.get('kind') == 'VarDecl']
                    t = strip(qt(var[0])) if var else '...'
                    if not var or self.catches(t, e.kind):
                        if var:
                            env[var[0]['id']] = Cell(ExcObj(e.kind, e.msg))
                        return self.ex(tu, h['inner'][-1], env)
                raise
        self.ev(tu, n, env)
        return None

    def catches(self, t, kind):
        t = t.split('::')[-1]
        up = {'invalid_argument': ['logic_error', 'exception'], 'out_of_range': ['logic_error', 'exception'],
              'runtime_error': ['exception'], 'logic_error': ['exception'], 'length_error': ['logic_error', 'exception']}
        return t == kind or t in up.get(kind, ['exception'])

    def static(self, tu, c):
        """a variable of static storage duration: one for the whole run of a path"""
        tab = core.CTX.user.setdefault('statics', {}) if core.CTX else {}
        key = (id(tu), c['id'])
        if key not in tab:
            g = {}
            if c.get('init'):
                self.declare(tu, c, g)
            else:
                g[c['id']] = Cell(default_elem(qt(c)))
            tab[key] = g[c['id']]
        return tab[key]

    def declare(self, tu, c, env):
        t = qt(c)
        e = [x for x in c.get('inner', []) if isinstance(x, dict) and not x.get('kind', '').endswith('Attr')]
        if not c.get('init') or not e:
            env[c['id']] = Cell(self.uninit(t))
            return
        v = self.ev(tu, e[-1], env)
        if is_ref(t):
            env[c['id']] = v if isinstance(v, Ref) else Cell(v)
        else:
            env[c['id']] = Cell(rval(v))

    def loop(self, tu, n, env):
        k = n['kind']
        inner = n['inner']
        if k == 'ForStmt':
            init, _, cond, inc, body = inner
            if init.get('kind'):
                self.ex(tu, init, env)
        elif k == 'WhileStmt':
            cond, body, inc = inner[-2], inner[-1], {}
        elif k == 'DoStmt':
            body, cond, inc = inner[0], inner[1], {}
            r = self.ex(tu, body, env)
            if r is not None and r[0] == 'ret':
                return r
            if r is not None and r[0] == 'brk':
                return None
        else:
            parts = [c for c in inner]
            decls = [c for c in parts[:-4] if c.get('kind') == 'DeclStmt']
            cond, inc, var, body = parts[-4:]
            for d in decls:
                self.ex(tu, d, env)
        steps = 0
        while True:
            if cond.get('kind') and not self.truth(self.ev(tu, cond, env)):
                return None
            steps += 1
            if steps > 5000:
                raise core.Inconclusive('C++ loop budget')
            if k == 'CXXForRangeStmt':
                self.ex(tu, var, env)
            r = self.ex(tu, body, env)
            if r is not None:
                if r[0] == 'ret':
                    return r
                if r[0] == 'brk':
                    return None
            if inc.get('kind'):
                self.ev(tu, inc, env)

    def switch(self, tu, n, env):
        v = used(self.ev(tu, n['inner'][-2], env))
        body = n['inner'][-1].get('inner', [])
        flat = []
        for s in body:
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels.append(s)
                s = s['inner'][-1]
            flat.append((labels, s))
        start, dflt = None, None
        for i, (ls, s) in enumerate(flat):
            for l in ls:
                if l['kind'] == 'DefaultStmt':
                    dflt = i
                elif start is None and self.truth(v == used(self.ev(tu, l['inner'][0], env))):
                    start = i
            if start is not None:
                break
        start = dflt if start is None else start
        if start is None:
            return None
        for ls, s in flat[start:]:
            r = self.ex(tu, s, env)
            if r is not None:
                return None if r[0] == 'brk' else r
        return None

    def truth(self, v):
        v = used(v)
        if isinstance(v, SymBool):
            return bool(v)
        if isinstance(v, Sym):
            return bool(v != 0)
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        return True

    # -- expressions
    def ev(self, tu, n, env):
        return getattr(self, 'e_' + n['kind'], self.e_unknown)(tu, n, env)

    def e_unknown(self, tu, n, env):
        raise Unsupported('C++ construct ' + n['kind'])

    def sub(self, tu, n, env):
        return self.ev(tu, n['inner'][0], env)

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = sub
    e_CXXStdInitializerListExpr = e_CXXDefaultInitExpr = e_SubstNonTypeTemplateParmExpr = sub

    def e_CXXThisExpr(self, tu, n, env): return env['this']

    def e_IntegerLiteral(self, tu, n, env): return int(n['value'])
    def e_FloatingLiteral(self, tu, n, env): return float(n['value'])
    def e_CXXBoolLiteralExpr(self, tu, n, env): return bool(n['value'])
    def e_CharacterLiteral(self, tu, n, env): return int(n['value'])
    def e_CXXNullPtrLiteralExpr(self, tu, n, env): return None
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, tu, n, env):
        return json.loads(n['value']).encode() if '\\x' not in n['value'] else eval(n['value']).encode()

    def e_UnaryExprOrTypeTraitExpr(self, tu, n, env):
        t = n.get('argType') or {}
        return size_of(ty(t) or qt(n['inner'][0]))

    def e_CXXDefaultArgExpr(self, tu, n, env):
        if n.get('inner'):
            return self.ev(tu, n['inner'][0], env)
        return Opaque()

    def e_InitListExpr(self, tu, n, env):
        t = qt(n)
        inner = [c for c in n.get('inner', [])]
        s = strip(t)
        if re.search(r'\[\d*\]$', s):
            v = Vector([rval(self.ev(tu, c, env)) for c in inner])
            v.elem = strip(s[:s.rindex('[')])
            return v
        if s in BITS or s in FLOATS or is_ptr(s):
            return self.ev(tu, inner[0], env) if inner else default_elem(s)
        q = self.class_of(s)
        if q and not self.ctors(q):
            o = CppObj(q)
            self.init_fields(o, q)
            fs = self.fields(q)
            for (name, ft, _, _), c in zip(fs, inner):
                if c.get('kind') != 'ImplicitValueInitExpr':
                    o.f[name] = rval(self.ev(tu, c, env))
                else:
                    o.f[name] = default_elem(ft)
            return o
        return self.make(s, [self.ev(tu, c, env) for c in inner])

    def e_ImplicitValueInitExpr(self, tu, n, env):
        return default_elem(qt(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, tu, n, env):
        d = n['referencedDecl']
        i, k = d['id'], d['kind']
        if i in env:
            c = env[i]
            if isinstance(c, Cell):
                v = c.v
                if is_object(v) and not is_ptr(qt(n)):
                    return v
            return c
        if k == 'EnumConstantDecl':
            for t in self.tus:
                if i in t.index and '_value' in t.index[i]:
                    return t.index[i]['_value']
            import cv2
            v = getattr(cv2, re.sub('^CV_', 'COLOR_', d.get('name', '')), None)
            if isinstance(v, int):
                return v        # of the older names in OpenCV
            raise Unsupported('enum constant ' + d.get('name', ''))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncPtr(tu, tu.index.get(i), d.get('name'))
        if k == 'VarDecl':
            nm = d.get('name')
            if nm in ('cerr', 'cout', 'clog'):
                return Opaque()
            if nm == 'npos':
                return (1 << 64) - 1
            v = tu.index.get(i)
            if v is None and re.match(r'[A-Za-z_]\w*$', str(nm)):
                for again in (0, 1):
                    for t2 in self.tus:
                        for m in t2.index.values():
                            if m.get('kind') == 'VarDecl' and m.get('name') == nm and 'init' in m and v is None and \
                                    m.get('_top'):
                                tu, v = t2, m
                    if v is not None or not self.read_outside(nm):
                        break
            if v is not None:
                g = self.static(tu, v)
                return g if not is_object(rval(g)) else rval(g)
            raise Unsupported('global variable ' + str(nm))
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        raise Unsupported('reference to %s %s' % (k, d.get('name')))

    def e_MemberExpr(self, tu, n, env):
        base = self.sub(tu, n, env)
        name = n['name']
        if n.get('isArrow') or isinstance(base, Ref):
            base = rval(base)
            if isinstance(base, Iter):
                base = base.deref()
        if base is None:
            raise Undefined('member of a null pointer')
        if isinstance(base, Ref):
            base = rval(base)
        if isinstance(base, (CppObj, PairObj)):
            if name in base.f:
                v = base.f[name]
                return v if is_object(v) and not is_ptr(qt(n)) else FieldRef(base, name)
            if isinstance(base, PairObj) and name in ('width', 'height'):
                return FieldRef(base, 'first' if name == 'width' else 'second')
            raise Unsupported('member ' + name)
        if isinstance(base, Entry):
            if name == 'first':
                return base.k
            v = base.m[base.k]
            return v if is_object(v) else ItemRef(base.m, base.k)
        if isinstance(base, Mat):
            if name in ('rows', 'cols'):
                return getattr(base, name)
            if name == 'data':
                if base.buf is None:
                    return None
                p = Ptr(base.buf, 0, base.kind)
                return p if base.kind == 'uchar' else BytePtr(p)
            if name == 'size':
                return PairObj(base.cols, base.rows)
            if name == 'dims':
                return 2
        if isinstance(base, Mat) and name == 'step':
            return base.cols * base.ch * size_of(base.kind)
        if isinstance(base, PairObj) and name in ('width', 'height'):
            return FieldRef(base, 'first' if name == 'width' else 'second')
        if isinstance(base, Pixel) and name == 'val':
            return Ptr(base.buf, base.off, 'uchar')
        raise Unsupported('member %s of %s' % (name, type(base).__name__))

    def e_ArraySubscriptExpr(self, tu, n, env):
        p = used(self.ev(tu, n['inner'][0], env))
        i = used(self.ev(tu, n['inner'][1], env))
        return self.index(p, i)

    def index(self, p, i):
        if isinstance(p, (Ptr, BytePtr, TypedPtr, Iter)):
            return p.at(concrete(i))
        if isinstance(p, Vector):
            return element(p, i, getattr(p, 'elem', None))
        if isinstance(p, Arr):
            return element(p.v, i, p.elem)
        if isinstance(p, (CppObj, Cell)):
            if concrete(i) == 0:
                return p
            raise Undefined('index into a single object')
        raise Unsupported('subscript of ' + type(p).__name__)

    # casts
    def cast(self, tu, n, env):
        k = n.get('castKind')
        v = self.sub(tu, n, env)
        t = strip(qt(n))
        if k == 'LValueToRValue':
            return rval(v)
        if k in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion', 'Dynamic', 'LValueBitCast', 'ToVoid'):
            return v
        if k == 'ArrayToPointerDecay':
            v = rval(v)
            if isinstance(v, Vector):
                return Ptr(v, 0, getattr(v, 'elem', None))
            if isinstance(v, Arr):
                return Ptr(v.v, 0, v.elem)
            return v
        if k == 'NullToPointer':
            return None
        v = rval(v)
        if k == 'BitCast':
            return self.bitcast(v, t)
        if v is UNINIT:
            return v
        if k == 'IntegralCast':
            return self.wrap(v, t, strip(qt(n['inner'][0])))
        if k == 'IntegralToFloating':
            return core.tofloat(self.num(v))
        if k == 'FloatingCast':
            if isinstance(v, float) and t == 'float' and not math.isinf(v) and not math.isnan(v):
                return float(rnp.float32(v))
            return v
        if k == 'FloatingToIntegral':
            if isinstance(v, Sym):
                r = Sym(core.trunc(v).e)
            else:
                if math.isnan(v) or math.isinf(v):
                    raise Undefined('conversion of %r to an integer' % v)
                r = int(v)
            lo, hi = self.limits(t)
            if not self.truth(core.sand([r >= lo, r <= hi]) if isinstance(r, Sym) else lo <= r <= hi):
                raise Undefined('floating-point value outside the range of ' + t)
            return r
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v)
        if k == 'IntegralToPointer':
            return None if v == 0 else v
        raise Unsupported('cast ' + str(k))

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = cast
    e_CXXConstCastExpr = e_CXXDynamicCastExpr = cast

    def e_CXXFunctionalCastExpr(self, tu, n, env):
        return self.cast(tu, n, env)

    def e_CXXReinterpretCastExpr(self, tu, n, env):
        v = rval(self.sub(tu, n, env))
        return self.bitcast(v, strip(qt(n)))

    def bitcast(self, v, t):
        if v is None or not is_ptr(t):
            return v
        e = pointee(t)
        if isinstance(v, CppObj):
            return v
        if e in ('void', 'char', 'unsigned char', 'uchar', 'signed char', 'std::byte'):
            if isinstance(v, (Ptr, TypedPtr)):
                return BytePtr(v) if not (isinstance(v, Ptr) and v.elem in ('unsigned char', 'uchar', 'char')) else v
            return v
        if isinstance(v, Ptr) and strip(v.elem) == e:
            return v
        if isinstance(v, BytePtr) and isinstance(v.base, Ptr) and strip(v.base.elem) == e and v.off == 0:
            return v.base
        if isinstance(v, (Ptr, BytePtr, TypedPtr)):
            return TypedPtr(v, e)
        raise Unsupported('reinterpretation of %s as %s' % (type(v).__name__, t))

    def num(self, v):
        return v._num() if isinstance(v, SymBool) else v

    def limits(self, t):
        b = BITS.get(t, 32)
        if t == 'bool':
            return 0, 1
        return (0, (1 << b) - 1) if t in UNSIGNED else (-(1 << (b - 1)), (1 << (b - 1)) - 1)

    def wrap(self, v, t, src=None):
        if isinstance(v, SymBool):
            return v._num()
        if isinstance(v, bool):
            v = int(v)
        if t not in BITS:
            return v
        lo, hi = self.limits(t)
        if src in BITS:
            slo, shi = self.limits(src)
            if slo >= lo and shi <= hi:
                return v
        if isinstance(v, Sym):
            if bool(core.sand([v >= lo, v <= hi])):
                return v
            return Sym((v % (hi - lo + 1)).e) if lo == 0 else Sym(((v - lo) % (hi - lo + 1) + lo).e)
        if not isinstance(v, int):
            return v
        if lo <= v <= hi:
            return v
        return (v - lo) % (hi - lo + 1) + lo

    # operators
    def e_UnaryOperator(self, tu, n, env):
        op = n['opcode']
        x = self.sub(tu, n, env)
        t = strip(qt(n))
        if op == '*':
            p = used(x)
            if p is None:
                raise Undefined('null pointer')
            if isinstance(p, (Ptr, BytePtr, TypedPtr)):
                return p.at(0)
            if isinstance(p, Iter):
                return p.deref()
            return p
        if op == '&':
            if isinstance(x, ItemRef) and isinstance(x.o, list):
                return Ptr(x.o, x.i, strip(qt(n['inner'][0])))
            if isinstance(x, CVec) and getattr(x, 'home', None):
                return Ptr(x.home[0], x.home[1], strip(qt(n['inner'][0])))
            st = strip(qt(n['inner'][0]))
            if isinstance(x, ItemRef) and isinstance(x.o, View):
                return Ptr(x.o, x.i, st)
            if isinstance(x, (Cell, FieldRef)) and (st in BITS or st in FLOATS):
                return Ptr(One(x), 0, st)
            return x
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            old = used(x)
            new = old.move(d) if isinstance(old, (Ptr, BytePtr, TypedPtr, Iter)) else self.wrap(self.num(old) + d, t)
            x.set(new)
            return old if n.get('isPostfix') else x
        v = used(x)
        if op == '-':
            return self.wrap(-self.num(v), t)
        if op == '+':
            return v
        if op == '!':
            return not self.truth(v)
        if op == '~':
            return self.wrap(-1 - self.num(v), t)
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, tu, n, env):
        op = n['opcode']
        a, b = n['inner']
        if op == '&&':
            return self.truth(self.ev(tu, a, env)) and self.truth(self.ev(tu, b, env))
        if op == '||':
            return self.truth(self.ev(tu, a, env)) or self.truth(self.ev(tu, b, env))
        if op == ',':
            self.ev(tu, a, env)
            return self.ev(tu, b, env)
        if op == '=':
            v = rval(self.ev(tu, b, env))
            x = self.ev(tu, a, env)
            if isinstance(x, Ref):
                x.set(v)
            else:
                self.assign(x, v)
            return x
        x, y = used(self.ev(tu, a, env)), used(self.ev(tu, b, env))
        return self.binary(op, x, y, strip(qt(n)))

    def binary(self, op, x, y, t):
        if op == '+' and isinstance(x, bytes) and isinstance(y, int) and is_ptr(t or ''):
            return x[y:]
        P = (Ptr, BytePtr, TypedPtr, Iter)
        if isinstance(x, P) or isinstance(y, P):
            if op == '+':
                return x.move(concrete(y)) if isinstance(x, P) else y.move(concrete(x))
            if op == '-':
                return self.diff(x, y) if isinstance(y, P) else x.move(-concrete(y))
            if op in ('==', '!='):
                if x is None or y is None:
                    return op == '!='
                same = self.same_pos(x, y)
                return same if op == '==' else not same
            if op in ('<', '>', '<=', '>='):
                d = self.diff(x, y)
                return {'<': d < 0, '>': d > 0, '<=': d <= 0, '>=': d >= 0}[op]
        if op in ('==', '!='):
            if is_object(x) or is_object(y) or x is None or y is None:
                same = x is y
                return same if op == '==' else not same
            return x == y if op == '==' else self.neg(x == y)
        x, y = self.num(x), self.num(y)
        if op == '<':
            return x < y
        if op == '>':
            return x > y
        if op == '<=':
            return x <= y
        if op == '>=':
            return x >= y
        if op == '+':
            return self.wrap(x + y, t)
        if op == '-':
            return self.wrap(x - y, t)
        if op == '*':
            return self.wrap(x * y, t)
        if op == '/':
            return self.divide(x, y, t)
        if op == '%':
            if self.truth(y == 0):
                raise Undefined('remainder by zero')
            if t in UNSIGNED:
                return x % y
            q = self.divide(x, y, t)
            return x - q * y
        if op in ('&', '|', '^', '<<', '>>'):
            if is_sym(x) or is_sym(y):
                if op == '>>' and not is_sym(y):
                    return x // 2 ** y
                if op == '<<' and not is_sym(y):
                    return self.wrap(x * 2 ** y, t)
                if op == '&' and not is_sym(y) and (y & (y + 1)) == 0:
                    return x % (y + 1)
                raise Unsupported('bit operation on symbolic values')
            return self.wrap({'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y,
                              '>>': lambda: x >> y}[op](), t)
        raise Unsupported('operator ' + op)

    def same_pos(self, x, y):
        if isinstance(x, Iter):
            return same_store(x.c, y.c) and self.truth(x.i == y.i)
        if isinstance(x, Ptr):
            return isinstance(y, Ptr) and same_store(x.buf, y.buf) and self.truth(x.off == y.off)
        return x.base is y.base and x.off == y.off

    def neg(self, b):
        return core.snot(b) if isinstance(b, SymBool) else not b

    def divide(self, x, y, t):
        if t in FLOATS:
            if not is_sym(x) and not is_sym(y):
                with rnp.errstate(all='ignore'):
                    return float(rnp.float64(x) / rnp.float64(y))
            if is_sym(y) and self.truth(y == 0):
                if self.truth(x == 0):
                    return float('nan')
                return float('inf') if self.truth(x > 0) else float('-inf')
            if not is_sym(y):
                if y == 0:
                    if self.truth(x == 0):
                        return float('nan')
                    return float('inf') if self.truth(x > 0) else float('-inf')
                if math.isinf(y):
                    return 0.0
            return x / y
        if self.truth(y == 0):
            raise Undefined('integer division by zero')
        if t in UNSIGNED:
            return x // y
        if not is_sym(x) and not is_sym(y):
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        neg = self.truth(x < 0) != self.truth(y < 0)
        q = abs(x) // abs(y)
        return -q if neg else q

    def e_CompoundAssignOperator(self, tu, n, env):
        x = self.ev(tu, n['inner'][0], env)
        y = used(self.ev(tu, n['inner'][1], env))
        old = used(x)
        ct = n.get('computeResultType') or {}
        t = strip(ty(ct) or qt(n))
        v = self.binary(n['opcode'][:-1], old, y, t)
        lt = strip(qt(n))
        if lt in BITS and t in FLOATS:
            v = core.trunc(v)
        x.set(self.wrap(v, lt))
        return x

    def e_ConditionalOperator(self, tu, n, env):
        c, a, b = n['inner']
        v = used(self.ev(tu, c, env))
        if isinstance(v, SymBool) and self.choosable(c, a, b, strip(qt(n))):
            try:
                x, y = used(self.ev(tu, a, env)), used(self.ev(tu, b, env))
                if isinstance(x, (int, float, Sym)) and isinstance(y, (int, float, Sym)):
                    return core.ite(v, x, y)
            except (Undefined, Unsupported, CppThrow):
                pass
        return self.ev(tu, a if self.truth(v) else b, env)

    # `if (x < m) m = x` is a choice between two values, not two paths
    PURE = {'DeclRefExpr', 'MemberExpr', 'ImplicitCastExpr', 'ParenExpr', 'FloatingLiteral', 'IntegerLiteral', 'UnaryOperator',
            'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr',
            'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXThisExpr', 'BinaryOperator', 'CXXMemberCallExpr'}

    def pure(self, n):
        k = n.get('kind')
        if k not in self.PURE or k == 'UnaryOperator' and n.get('opcode') not in ('-', '+', '*') or \
                k == 'BinaryOperator' and n.get('opcode') not in ('+', '-', '*', '<', '>', '<=', '>=', '==', '!='):
            return False
        if k == 'CXXOperatorCallExpr':
            f = n['inner'][0]
            while f.get('kind') == 'ImplicitCastExpr':
                f = f['inner'][0]
            if f.get('referencedDecl', {}).get('name') not in ('operator[]', 'operator()', 'operator*', 'operator->', 'operator-',
                                                               'operator+') or 'map<' in qt(n['inner'][1]):
                return False
            return all(self.pure(x) for x in n['inner'][1:])
        if k == 'CXXMemberCallExpr' and n['inner'][0].get('name') not in ('x', 'y', 'z', 'w', 'at', 'size', 'get'):
            return False
        return all(self.pure(x) for x in n.get('inner', []) if isinstance(x, dict) and x.get('kind'))

    def bare(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            n = n['inner'][0]
        return n

    def alike(self, a, b):
        a, b = self.bare(a), self.bare(b)
        if a.get('kind') != b.get('kind'):
            return False
        for k in ('opcode', 'name', 'value'):
            if a.get(k) != b.get(k):
                return False
        if a.get('referencedDecl', {}).get('id') != b.get('referencedDecl', {}).get('id'):
            return False
        x, y = a.get('inner', []), b.get('inner', [])
        return len(x) == len(y) and all(self.alike(p, q) for p, q in zip(x, y))

    def choosable(self, c, a, b, t):
        if not (self.pure(a) and self.pure(b)):
            return False
        if t in FLOATS:
            return True
        c = self.bare(c)
        if t not in BITS or c.get('kind') != 'BinaryOperator' or c.get('opcode') not in ('<', '>', '<=', '>='):
            return False
        l, r = c['inner']
        return self.alike(l, a) and self.alike(r, b) or self.alike(l, b) and self.alike(r, a)

    def merged_if(self, tu, c, v, body, env):
        if not isinstance(v, SymBool):
            return False
        while body.get('kind') in ('CompoundStmt', 'ExprWithCleanups') and len(body.get('inner', [])) == 1:
            body = body['inner'][0]
        if body.get('kind') != 'BinaryOperator' or body.get('opcode') != '=':
            return False
        l, r = body['inner']
        if not self.choosable(c, l, r, strip(qt(l))):
            return False
        try:
            x = self.ev(tu, l, env)
            y = used(self.ev(tu, r, env))
            old = x.get()
            if not isinstance(old, (int, float, Sym)) or not isinstance(y, (int, float, Sym)):
                return False
            if strip(qt(l)) in FLOATS:
                y = core.tofloat(y)
        except (Undefined, Unsupported, CppThrow, AttributeError):
            return False
        x.set(core.ite(v, y, old))
        return True

    def e_CXXThrowExpr(self, tu, n, env):
        if not n.get('inner'):
            raise self.handling[-1]
        v = rval(self.sub(tu, n, env))
        if isinstance(v, ExcObj):
            raise CppThrow(v.kind, v.msg)
        raise CppThrow('other', b'')

    def e_CXXNewExpr(self, tu, n, env):
        e = [c for c in n.get('inner', []) if c.get('kind') == 'CXXConstructExpr']
        if e:
            return self.ev(tu, e[0], env)
        t = pointee(strip(qt(n)))
        return Cell(self.uninit(t))

    def e_CXXDeleteExpr(self, tu, n, env):
        return None

    def e_LambdaExpr(self, tu, n, env):
        rec = n['inner'][0]
        fields = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        caps = [c for c in n['inner'][1:] if c.get('kind') != 'CompoundStmt']
        e2 = dict(env)
        for f, c in zip(fields, caps):
            x = c
            while x.get('kind') != 'DeclRefExpr' and x.get('inner'):
                x = x['inner'][-1]
            if not f.get('type') or self.init_capture(n, f, c, env, tu, e2):
                continue
            if x.get('kind') != 'DeclRefExpr':
                continue
            i = x['referencedDecl']['id']
            if not is_ref(qt(f)) and i in env:
                e2[i] = Cell(self.copy(rval(env[i])) if not is_ptr(qt(f)) else rval(env[i]))
        return Closure(tu, n, e2)

    def init_capture(self, n, f, c, env, tu, e2):
        """[name = expression]: the variable is only known from the uses of its name"""
        if '_caps' not in n:
            decl, used_, stack = set(), {}, [n]
            while stack:
                m = stack.pop()
                if not isinstance(m, dict):
                    continue
                if m.get('kind', '').endswith('Decl') and m.get('id'):
                    decl.add(m['id'])
                r = m.get('referencedDecl')
                if r and r.get('kind') == 'VarDecl':
                    used_[r['id']] = r
                stack.extend(m.get('inner', []))
            n['_caps'] = [i for i in sorted(used_, key=lambda i: int(i, 16)) if i not in decl and i not in env and
                          i not in tu.index]
            n['_done'] = {}
        src = c
        while src.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups') and len(src.get('inner', [])) == 1:
            src = src['inner'][0]
        plain = src.get('kind') == 'CXXThisExpr' or src.get('kind') == 'DeclRefExpr' and any(
            src['referencedDecl']['id'] == i for i in self.referenced(n['inner'][0]))
        if plain:
            return False
        k = n['_done'].setdefault(f.get('id'), len(n['_done']))
        if k >= len(n['_caps']):
            return True       # never used
        v = self.ev(tu, c, env)
        i = n['_caps'][k]
        if is_ref(qt(f)):
            e2[i] = v if isinstance(v, Ref) else Cell(v)
        else:
            e2[i] = Cell(self.copy(rval(v)))
        return True

    def referenced(self, n):
        if '_refs' not in n:
            out, stack = set(), [n]
            while stack:
                m = stack.pop()
                if isinstance(m, dict):
                    if m.get('referencedDecl'):
                        out.add(m['referencedDecl']['id'])
                    stack.extend(m.get('inner', []))
            n['_refs'] = out
        return n['_refs']

    def e_CXXConstructExpr(self, tu, n, env):
        t = qt(n)
        inner = [c for c in n.get('inner', []) if isinstance(c, dict)]
        args = [self.ev(tu, c, env) for c in inner if c.get('kind') != 'CXXDefaultArgExpr']
        if n.get('elidable') and len(args) == 1:
            return args[0]
        sig = n.get('ctorType', {}).get('qualType')
        return self.make(strip(t), args, sig, init_list=n.get('initializer_list', False))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXUnresolvedConstructExpr(self, tu, n, env):
        raise Unsupported('uninstantiated template')

    # calls
    def args(self, tu, nodes, env):
        return [self.ev(tu, c, env) for c in nodes if c.get('kind') != 'CXXDefaultArgExpr']

    def e_CallExpr(self, tu, n, env):
        callee = n['inner'][0]
        f = self.ev(tu, callee, env)
        ref = callee
        while ref.get('kind') not in ('DeclRefExpr', 'MemberExpr') and ref.get('inner'):
            ref = ref['inner'][0]
        args = self.args(tu, n['inner'][1:], env)
        f = rval(f)
        if isinstance(f, FuncPtr):
            if f.name in MODELLED:
                return MODELLED[f.name](self, args)
            if f.node is not None and self.body(f.tu, f.node):
                if f.node.get('kind') == 'CXXMethodDecl' and f.node.get('storageClass') != 'static':
                    return self.call(f.tu, f.node, args, env.get('this'))
                return self.call(f.tu, f.node, args)
            return self.std(f.name, args, n, tu, qt(ref))
        return self.invoke(f, args)

    def e_CXXMemberCallExpr(self, tu, n, env):
        m = n['inner'][0]
        while m.get('kind') == 'ParenExpr':
            m = m['inner'][0]
        args_n = n['inner'][1:]
        name = m['name']
        base = self.ev(tu, m['inner'][0], env)
        obj = base
        if isinstance(obj, Ref) or m.get('isArrow'):
            obj = rval(obj)
            if m.get('isArrow') and isinstance(obj, Iter):
                obj = obj.deref()
                obj = rval(obj) if isinstance(obj, Ref) else obj
        if obj is None and m.get('isArrow'):
            raise Undefined('call through a null pointer')
        if isinstance(obj, CppObj):
            args = self.args(tu, args_n, env)
            mid = m.get('referencedMemberDecl')
            d = tu.index.get(mid)
            if name.startswith('operator') and d is None:
                self.assign(obj, args[0])
                return obj
            qualified = self.declared_in(d)
            if d is not None and self.is_virtual(d, name) and qualified != obj.cls and m.get('hasQualifier') is None:
                for t2, c in self.methods(obj.cls, name):
                    if len(self.params(c)) == len(self.params(d)):
                        return self.call(t2, c, args, obj)
            if d is not None:
                if d.get('isImplicit') and name == 'operator=':
                    self.assign(obj, args[0])
                    return obj
                return self.call(tu, d, args, obj)
            for t2, c in self.methods(obj.cls, name):
                ps = self.params(c)
                need = len([p for p in ps if not p.get('init')])
                if need <= len(args) <= len(ps):
                    return self.call(t2, c, args, obj)
            raise Unsupported('method %s::%s' % (obj.cls, name))
        args = self.args(tu, args_n, env)
        return self.member(obj, name, args, base, n)

    def written_args(self, n, name):
        """template arguments of a call, from the text of the source"""
        m = n['inner'][0]
        while m.get('kind') == 'ParenExpr':
            m = m['inner'][0]
        r = m.get('range', {})
        e = r.get('end', {})
        e = e.get('expansionLoc', e)
        for s in self.sources:
            txt = self.__dict__.setdefault('_txt', {})
            if s not in txt:
                txt[s] = open(os.path.join(self.root, 'sumo', s), 'rb').read()
            part = txt[s][:e.get('offset', 0) + e.get('tokLen', 0)]
            k = re.search(rb'(?:\.|->)\s*(?:template\s+)?%s\s*<([^;{}]*)>$' % name.encode(), part[-200:])
            if k:
                return k.group(1).decode()
        raise Unsupported('template arguments of ' + name)

    def declared_in(self, d):
        return d.get('_cls', {}).get('_q') if d else None

    def is_virtual(self, d, name):
        if d.get('virtual'):
            return True
        return name in ('isTextured',)

    def e_CXXOperatorCallExpr(self, tu, n, env):
        c = n['inner'][0]
        while c.get('kind') != 'DeclRefExpr':
            c = c['inner'][0]
        ref = c['referencedDecl']
        name = ref['name']
        op = name[len('operator'):]
        nodes = n['inner'][1:]
        d = tu.index.get(ref['id'])
        if op == '=' and len(nodes) == 2:
            v = self.ev(tu, nodes[1], env)
            x = self.ev(tu, nodes[0], env)
            if isinstance(x, Ref):
                x.set(self.copy(rval(v)))
                return x
            if isinstance(x, CppObj) and d is not None and not d.get('isImplicit') and self.body(tu, d):
                return self.call(tu, d, [v], x)
            self.assign(x, v)
            return x
        args = self.args(tu, nodes, env)
        self.chars = op == '<<' and strip(qt(nodes[1])) in ('char', 'unsigned char', 'signed char')
        if op == '()':
            f = rval(args[0])
            if isinstance(f, PairObj):
                return f
            if isinstance(f, Closure):
                if d is None:
                    return self.invoke(f, args[1:])
                return self.call(tu, d, args[1:], env=f.env)
        if d is not None and self.body(tu, d):
            if ref['kind'] == 'CXXMethodDecl':
                return self.call(tu, d, args[1:], rval(args[0]))
            return self.call(tu, d, args)
        return self.operator(op, args, strip(qt(n)))

    def operator(self, op, args, t):
        lhs = args[0]
        a = rval(lhs)
        b = rval(args[1]) if len(args) > 1 else None
        if isinstance(a, Comma) and op == ',':
            return a.add(b)
        if isinstance(a, Smart) or isinstance(b, Smart):
            if op in ('->', '*') and b is None:
                if a.p is None:
                    raise Undefined('null smart pointer')
                if op == '*' and isinstance(a.p, (Ptr, BytePtr, TypedPtr)):
                    return a.p.at(0)
                return a.p
            if op == '[]':
                return self.index(a.p, b)
            x, y = (v.p if isinstance(v, Smart) else v for v in (a, b))
            if op in ('==', '!='):
                return (x is y) == (op == '==')
        if isinstance(a, (Func, Functor, FuncPtr, Closure)):
            if op == '()':
                return self.invoke(a, args[1:])
            if op in ('==', '!='):
                return (a.fn is None) == (op == '==')
        if isinstance(a, Stream):
            if op == '<<':
                a.text += self.show(b) if not self.chars or not isinstance(b, int) else bytes([concrete(b)])
                return a
        if op == '[]':
            if isinstance(a, SetObj):
                raise Unsupported('subscript of a set')
            if isinstance(a, Mat):
                if a.ch == 1:
                    return Ptr(a.buf, concrete(b) * a.cols, a.kind)
                return Ptr(Pixels(a), concrete(b) * a.cols, 'cv::Vec')
            if isinstance(a, MapObj):
                b = as_key(b)
                if b not in a:
                    a[b] = default_elem(a.vtype)
                v = a[b]
                return v if is_object(v) else ItemRef(a, b)
            if isinstance(a, Pixel):
                return a.at(b)
            if isinstance(a, CVec):
                i = concrete(b)
                if not 0 <= i < len(a.v):
                    raise Undefined('coefficient %d of a vector of %d' % (i, len(a.v)))
                return ItemRef(a.v, i)
            if isinstance(a, bytes):
                if isinstance(lhs, Ref):
                    if not 0 <= concrete(b) <= len(a):
                        raise Undefined('character outside a string')
                    return ItemRef(Text(lhs), concrete(b)) if concrete(b) < len(a) else 0
                return a[concrete(b)]
            return self.index(a, b)
        if op == '()':
            if isinstance(a, Mat):
                return a.pixel(b, rval(args[2])) if len(args) > 2 else a.pixel(0, b)
            if isinstance(a, CVec):
                return ItemRef(a.v, concrete(b))
            if isinstance(a, FuncPtr):
                return self.invoke(a, args[1:])
        if op == '*' and len(args) == 1 and isinstance(a, Iter):
            return a.deref()
        if op == '->' and isinstance(a, Iter):
            v = a.deref()
            return rval(v) if isinstance(v, Ref) else v
        if op in ('++', '--') and isinstance(a, Iter):
            d = 1 if op == '++' else -1
            new = a.move(d)
            if len(args) > 1:      # postfix
                old = self.copy(a)
                a.i = new.i
                return old
            a.i = new.i
            return a
        if op in ('+=', '-=') and isinstance(a, Iter):
            a.i = a.move(concrete(b) if op == '+=' else -concrete(b)).i
            return a
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.binary(op, a, b, t)
        if isinstance(a, CVec) or isinstance(b, CVec):
            return self.eigen_op(op, a, b, lhs)
        if isinstance(a, bytes) or isinstance(b, bytes):
            if op in ('+', '+='):
                y = bytes([b]) if isinstance(b, int) else b
                x = bytes([a]) if isinstance(a, int) else a
                if op == '+=':
                    lhs.set(x + y)
                    return lhs
                return x + y
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
                    '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
        if isinstance(a, Opaque) or op == '<<':
            return a
        if isinstance(a, Vector) and isinstance(b, Vector) and op in ('==', '!='):
            r = len(a) == len(b) and all(self.truth(self.equal(x, y)) for x, y in zip(a, b))
            return r if op == '==' else not r
        if isinstance(a, MapObj) and op in ('==', '!='):
            r = sorted(a) == sorted(b) and all(self.truth(self.equal(a[k], b[k])) for k in a)
            return r if op == '==' else not r
        if isinstance(a, Arr) and isinstance(b, Arr) and op in ('==', '!='):
            r = all(self.truth(self.equal(x, y)) for x, y in zip(a.v, b.v))
            return r if op == '==' else not r
        if isinstance(a, Pixel) and op in ('==', '!='):
            r = all(self.truth(a.at(k).get() == b.at(k).get()) for k in range(a.n))
            return r if op == '==' else not r
        if isinstance(a, PairObj) and isinstance(b, PairObj) and op in ('==', '!='):
            r = all(self.truth(self.equal(x, y)) for x, y in zip(a.f.values(), b.f.values()))
            return r if op == '==' else not r
        if op in ('<', '>', '<=', '>=') and type(a) is type(b):
            r = self.less(None, a, b) if op in ('<', '>=') else self.less(None, b, a)
            return r if op in ('<', '>') else not r
        raise Unsupported('operator%s on %s' % (op, type(a).__name__))

    def show(self, b):
        """what << prints"""
        b = rval(b)
        if isinstance(b, bytes):
            return b
        if isinstance(b, bool):
            return b'1' if b else b'0'
        if isinstance(b, int):
            return str(b).encode()
        if isinstance(b, float):
            return ('%g' % b).encode()
        if isinstance(b, Sym):
            return b'?'
        return b''

    def equal(self, a, b):
        a, b = rval(a), rval(b)
        if isinstance(a, CppObj):
            for tu, m in self.methods(a.cls, 'operator=='):
                return self.truth(self.call(tu, m, [b], a))
            got = self.find_function('operator==', [a, b])
            if got:
                return self.truth(self.call(got[0], got[1], [a, b]))
        if is_object(a):
            return self.operator('==', [a, b], 'bool')
        return a == b

    def eigen_op(self, op, a, b, lhs):
        if op == '<<':
            return Comma(a).add(b)
        arr = getattr(a, 'arr', False) or getattr(b, 'arr', False)

        def el(f):
            if isinstance(a, CVec) and isinstance(b, CVec):
                return [f(used(x), used(y)) for x, y in zip(a.v, b.v)]
            if isinstance(a, CVec):
                return [f(used(x), b) for x in a.v]
            return [f(a, used(y)) for y in b.v]
        if op in ('+', '-') and b is None:
            v = [-used(x) for x in a.v] if op == '-' else list(a.v)
        elif op in ('+', '+='):
            v = el(lambda x, y: x + y)
        elif op in ('-', '-='):
            v = el(lambda x, y: x - y)
        elif op in ('*', '*='):
            v = el(lambda x, y: x * y)
        elif op in ('/', '/='):
            v = el(lambda x, y: self.divide(x, y, 'double'))
        elif op in ('<', '>', '<=', '>=') or arr and op in ('==', '!='):
            return Mask(el(lambda x, y: {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y,
                                         '>=': lambda: x >= y, '==': lambda: x == y,
                                         '!=': lambda: self.neg(x == y)}[op]()))
        elif op in ('==', '!='):
            r = all(self.truth(x == y) for x, y in zip(a.v, b.v))
            return r if op == '==' else not r
        else:
            raise Unsupported('Eigen operator ' + op)
        if op.endswith('='):
            a.v[:] = v
            return a
        r = like(a if isinstance(a, CVec) else b, v)
        if arr:
            r.arr = True
        return r

    # -- members of the models
    def member(self, o, name, args, base, n):
        vals = [rval(a) for a in args]
        if name.startswith('operator ') and (not is_object(o) or isinstance(o, (Closure, FuncPtr))):
            return o
        if isinstance(o, SetObj):
            return self.set_member(o, name, vals)
        if isinstance(o, Vector):
            return self.vector(o, name, args, vals)
        if isinstance(o, CVec):
            return self.eigen_member(o, name, vals, n)
        if isinstance(o, Mask):
            if name in ('all', 'any'):
                for x in o.v:
                    if self.truth(x) != (name == 'all'):
                        return name == 'any'
                return name == 'all'
            if name == 'count':
                return sum(1 for x in o.v if self.truth(x))
        if isinstance(o, Smart):
            if name == 'operator bool':
                return o.p is not None
            if name == 'get':
                return o.p
            if name == 'release':
                p, o.p = o.p, None
                return p
            if name == 'reset':
                o.p, o.count = (vals[0] if vals else None), [1]
                return None
            if name == 'use_count':
                return o.count[0] if o.p is not None else 0
            if name == 'swap':
                o.p, vals[0].p = vals[0].p, o.p
                o.count, vals[0].count = vals[0].count, o.count
                return None
        if isinstance(o, tiff.Json):
            return tiff.member(o, name, vals, lambda: self.written_args(n, name))
        if isinstance(o, Func):
            if name == 'operator bool':
                return o.fn is not None
            if name == 'operator()':
                return self.invoke(o, args)
        if isinstance(o, Stream):
            if name == 'str':
                if vals:
                    o.text = vals[0]
                    return None
                return o.text
            return o
        if isinstance(o, Comma) and name == 'finished':
            return o.v
        if isinstance(o, MapObj):
            return self.map_member(o, name, vals)
        if isinstance(o, bytes):
            return self.string(o, name, vals, base)
        if isinstance(o, Arr):
            if name in ('at', 'operator[]'):
                i = concrete(vals[0])
                if name == 'at' and not 0 <= i < len(o.v):
                    raise CppThrow('out_of_range', b'array::at')
                return element(o.v, i, o.elem)
            if name in ('size', 'max_size'):
                return len(o.v)
            if name == 'empty':
                return not o.v
            if name in ('front', 'back'):
                return element(o.v, 0 if name == 'front' else len(o.v) - 1, o.elem)
            if name == 'data':
                return Ptr(o.v, 0, strip(o.elem))
            if name == 'swap':
                o.v[:], vals[0].v[:] = list(vals[0].v), list(o.v)
                return None
            if name in ('rbegin', 'crbegin'):
                return Iter(o.v, len(o.v), True)
            if name in ('rend', 'crend'):
                return Iter(o.v, 0, True)
            if name in ('begin', 'cbegin'):
                return Iter(o.v, 0)
            if name in ('end', 'cend'):
                return Iter(o.v, len(o.v))
            if name == 'fill':
                o.v[:] = [self.copy(vals[0]) for _ in o.v]
                return None
        if isinstance(o, Mat):
            if name == 'empty':
                return o.empty()
            if name == 'clone':
                return o.clone()
            if name == 'total':
                return o.rows * o.cols
            if name == 'channels':
                return o.ch
            if name == 'operator()':
                return o.pixel(*vals)
            if name == 'at':
                return o.pixel(*vals)
            if name == 'size':
                return PairObj(o.cols, o.rows)
            if name == 'release':
                o.rows = o.cols = 0
                o.buf = None
                return None
            if name == 'copyTo':
                self.assign(vals[0], o.clone())
                return None
            if name == 'create':
                if isinstance(vals[0], PairObj):
                    vals = [vals[0].f['second'], vals[0].f['first']] + vals[1:]
                new = concrete(vals[0]), concrete(vals[1])
                if len(vals) > 2:
                    new += cv_type(concrete(vals[2]))
                else:
                    new += (o.ch, o.kind)
                if (o.rows, o.cols, o.ch, o.kind) == new and o.buf is not None:
                    return None
                o.rows, o.cols, o.ch, o.kind = new
                o.new()
                return None
            if name in ('begin', 'end'):
                px = Pixels(o)
                return Iter(px, 0 if name == 'begin' else px.n)
            if name == 'isContinuous':
                return True
            if name in ('type', 'depth'):
                return CV_DEPTH[o.kind] + ((o.ch - 1) * 8 if name == 'type' else 0)
            if name == 'elemSize':
                return o.ch * size_of(o.kind)
            if name == 'elemSize1':
                return size_of(o.kind)
            if name == 'ptr':
                r = concrete(vals[0]) if vals else 0
                if not 0 <= r < max(1, o.rows):
                    raise Undefined('row outside the image')
                e = pointee(strip(qt(n))) if n else o.kind
                if e.startswith('cv::Vec') and o.ch > 1:
                    return Ptr(Pixels(o), r * o.cols, e)
                p = Ptr(o.buf, r * o.cols * o.ch, o.kind)
                return p if e in ('uchar', 'unsigned char') and o.kind == 'uchar' or e == o.kind else self.bitcast(p, e + ' *')
            if name == 'setTo':
                v = vals[0]
                o.buf[:] = [v.at(i % o.ch).get() if isinstance(v, Pixel) else v for i in range(len(o.buf))]
                return o
            if name == 'forEach':
                px = Pixels(o)
                for i in range(px.n):
                    self.invoke(vals[0], [element(px, i, None), None])
                return None
            if name in ('row', 'col', 'reshape', 'rowRange', 'colRange', 'convertTo'):
                raise Unsupported('Mat::' + name)
        if isinstance(o, ExcObj) and name == 'what':
            return o.msg
        if isinstance(o, PairObj) and name == 'swap':
            o.f, vals[0].f = vals[0].f, o.f
            return None
        if isinstance(o, PairObj) and name == 'area':
            return o.f['first'] * o.f['second']
        if isinstance(o, PairObj) and name == 'operator()':
            return o
        if isinstance(o, Iter) and name == 'base':
            return Iter(o.c, o.i)
        raise Unsupported('%s::%s' % (type(o).__name__, name))

    def vector(self, o, name, args, vals):
        elem = getattr(o, 'elem', None)
        keep = elem is not None and is_ptr(elem)
        cp = (lambda v: v) if keep else self.copy
        if name == 'size':
            return len(o)
        if name == 'empty':
            return len(o) == 0
        if name == 'push_back':
            grow(o, 1)
            o.append(cp(vals[0]))
            return None
        if name == 'emplace_back':
            grow(o, 1)
            if elem is None:
                raise Unsupported('emplace_back into an untyped vector')
            o.append(vals[0] if keep else self.make(elem, args) if vals else default_elem(elem))
            return element(o, len(o) - 1, elem)
        if name in ('push_front', 'emplace_front'):
            o.insert(0, cp(vals[0]) if name == 'push_front' or keep else self.make(elem, args))
            return None
        if name == 'pop_front':
            if not o:
                raise Undefined('pop_front of an empty container')
            del o[0]
            return None
        if name == 'flip':
            o[:] = [not self.truth(x) for x in o]
            return None
        if name in ('sort', 'unique', 'remove', 'remove_if', 'reverse') and (o.elem is not None):
            if name == 'sort':
                o[:] = self.sorted(list(o), vals[0] if vals else None)
            elif name == 'reverse':
                o[:] = list(o)[::-1]
            else:
                it = self.std(name, [Iter(o, 0), Iter(o, len(o))] + vals, None, None, None)
                del o[it.i:]
            return None
        if name == 'pop_back':
            if not o:
                raise Undefined('pop_back of an empty vector')
            o.pop()
            return None
        if name == 'reserve':
            k = self.count(vals[0])
            if k > max(o.cap, len(o)):
                o.cap = k
                o.gen += 1
            return None
        if name == 'shrink_to_fit':
            return None
        if name == 'capacity':
            return max(o.cap, len(o))
        if name == 'resize':
            k = self.count(vals[0])
            if k > len(o):
                grow(o, k - len(o))
            while len(o) < k:
                o.append(cp(vals[1]) if len(vals) > 1 else default_elem(elem))
            del o[k:]
            return None
        if name == 'clear':
            del o[:]
            return None
        if name in ('operator[]',):
            return element(o, vals[0], elem)
        if name == 'at':
            i = concrete(vals[0])
            if not 0 <= i < len(o):
                raise CppThrow('out_of_range', b'vector::_M_range_check')
            return element(o, i, elem)
        if name in ('front', 'back'):
            return element(o, 0 if name == 'front' else len(o) - 1, elem)
        if name in ('begin', 'cbegin'):
            return Iter(o, 0)
        if name in ('end', 'cend'):
            return Iter(o, len(o))
        if name in ('rbegin', 'crbegin'):
            return Iter(o, len(o), True)
        if name in ('rend', 'crend'):
            return Iter(o, 0, True)
        if name == 'data':
            return Ptr(o, 0, strip(elem) if elem else None)
        if name == 'swap':
            a, b = list(o), list(vals[0])
            o[:], vals[0][:] = b, a
            return None
        if name == 'assign':
            if isinstance(vals[0], (Iter, Ptr)):
                new = [cp(x) for x in self.span(vals[0], vals[1])]
            elif isinstance(vals[0], Vector):
                new = [cp(x) for x in vals[0]]
            else:
                new = [cp(vals[1]) for _ in range(self.count(vals[0]))]
            o[:] = new
            return None
        if name == 'emplace':
            vals = [vals[0], vals[1] if keep else self.make(elem, args[1:])]
            name = 'insert'
        if name == 'insert':
            pos = vals[0]
            if not isinstance(pos, Iter) or pos.c is not o:
                raise Undefined('insert at an iterator of another vector')
            i = concrete(pos.i)
            if not 0 <= i <= len(o):
                raise Undefined('insert outside the vector')
            if len(vals) == 3 and isinstance(vals[1], (Iter, Ptr, BytePtr)):
                if isinstance(vals[1], Iter) and vals[1].c is o and i < len(o):    # libstdc++ copies first
                    raise Undefined('insert of a range of the vector itself')
                new = [cp(x) for x in self.span(vals[1], vals[2])]
            elif len(vals) == 3:
                new = [cp(vals[2]) for _ in range(self.count(vals[1]))]
            elif isinstance(vals[1], Vector):
                new = [cp(x) for x in vals[1]]
            else:
                new = [cp(vals[1])]
            grow(o, len(new))
            o[i:i] = new
            return Iter(o, i)
        if name == 'erase':
            i = concrete(vals[0].i)
            j = concrete(vals[1].i) if len(vals) > 1 else i + 1
            if not 0 <= i <= j <= len(o):
                raise Undefined('erase outside the vector')
            del o[i:j]
            return Iter(o, i)
        raise Unsupported('vector::' + name)

    def eigen_member(self, o, name, vals, n=None):
        def new(v):
            return like(o, v)

        def view(off, k):
            if not 0 <= off <= off + k <= len(o.v):
                raise Undefined('part outside a vector')
            r = eigen(k, kind_of(o))
            r.v = View(o.v, off, k)
            return r
        if name in ('x', 'y', 'z', 'w'):
            return ItemRef(o.v, 'xyzw'.index(name))
        if name in ('head', 'tail', 'segment', 'topRows', 'bottomRows'):
            m = re.findall(r'(?:VectorBlock|Block)<.*, (\d+)(?:, 1, \w+)?>', qt(n)) if n else []
            k = [concrete(v) for v in vals]
            size = int(m[0]) if m and len(k) < (2 if name == 'segment' else 1) else (k[-1] if k else None)
            if size is None:
                raise Unsupported('Eigen ' + name)
            off = {'head': 0, 'topRows': 0, 'segment': k[0] if k else 0}.get(name, len(o.v) - size)
            return view(off, size)
        if name in ('begin', 'cbegin'):
            return Iter(o.v, 0)
        if name in ('end', 'cend'):
            return Iter(o.v, len(o.v))
        if name == 'data':
            h = getattr(o, 'home', None)
            if h and len(h[0]) > h[1] and h[0][h[1]] is o and all(isinstance(x, CVec) for x in h[0]):
                return Ptr(Flat(h[0]), h[1] * len(o.v), kind_of(o))
            return Ptr(o.v, 0, kind_of(o))
        if name in ('operator[]', 'operator()', 'coeff', 'coeffRef'):
            i = concrete(vals[0])
            if not 0 <= i < len(o.v):
                raise Undefined('coefficient outside the vector')
            return ItemRef(o.v, i)
        if name == 'size' or name == 'rows':
            return len(o.v)
        if name in ('cols',):
            return 1
        if name == 'setUnit':
            o.v[:] = [1.0 if i == concrete(vals[0]) else 0.0 for i in range(len(o.v))]
            return o
        if name == 'swap':
            o.v[:], vals[0].v[:] = list(vals[0].v), list(o.v)
            return None
        if name in ('array', 'matrix'):
            r = eigen(len(o.v), kind_of(o))
            r.v = o.v
            r.arr = name == 'array'
            return r
        if name in ('noalias', 'derived', 'transpose', 'const_cast_derived', 'asDiagonal', 'reverse', 'reverseInPlace'):
            if name in ('asDiagonal', 'reverse', 'reverseInPlace'):
                raise Unsupported('Eigen member ' + name)
            return o
        if name in ('setZero', 'setConstant', 'setOnes', 'fill'):
            c = {'setZero': 0.0, 'setOnes': 1.0}.get(name, vals[0] if vals else 0.0)
            o.v[:] = [c] * len(o.v)
            return o
        v = [used(x) for x in o.v]
        if name == 'cross':
            a, b = v, [used(x) for x in vals[0].v]
            return new([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
        if name == 'dot':
            return sum((a * used(b) for a, b in zip(v, vals[0].v)), 0.0)
        if name == 'squaredNorm':
            return sum((a * a for a in v), 0.0)
        if name in ('norm', 'stableNorm'):
            return core.sqrt(sum((a * a for a in v), 0.0))
        if name in ('normalized', 'normalize'):
            z = sum((a * a for a in v), 0.0)
            if self.truth(z > 0):
                s = core.sqrt(z)
                v = [a / s for a in v]
            if name == 'normalized':
                return new(v)
            o.v[:] = v
            return None
        if name == 'isZero':
            p = vals[0] if vals else 1e-5
            return all(self.truth(abs(x) <= p) for x in v)
        if name in ('cwiseQuotient', 'cwiseProduct'):
            f = (lambda a, b: self.divide(a, b, 'double')) if name == 'cwiseQuotient' else (lambda a, b: a * b)
            return new([f(a, used(b)) for a, b in zip(v, vals[0].v)])
        if name in ('cwiseAbs', 'abs'):
            return new([abs(a) for a in v])
        if name in ('cwiseAbs2', 'abs2', 'square'):
            return new([a * a for a in v])
        if name in ('cwiseSqrt', 'sqrt'):
            return new([core.sqrt(a) for a in v])
        if name in ('cwiseInverse', 'inverse'):
            return new([self.divide(1.0, a, 'double') for a in v])
        if name in ('cwiseMin', 'cwiseMax', 'min', 'max'):
            f = core.smin if name.lower().endswith('min') else core.smax
            w = [used(x) for x in vals[0].v] if isinstance(vals[0], CVec) else [vals[0]] * len(v)
            return new([f(a, b) for a, b in zip(v, w)])
        if name in ('floor', 'ceil'):
            return new([core.tofloat({'floor': core.floor, 'ceil': core.ceil}[name](a)) for a in v])
        if name in ('isApprox', 'isOnes', 'isConstant'):
            if name == 'isApprox':
                p = vals[1] if len(vals) > 1 else (1e-5 if kind_of(o) == 'float' else 1e-12)
                w = [used(x) for x in vals[0].v]
                d = sum(((a - b) * (a - b) for a, b in zip(v, w)), 0.0)
                return self.truth(d <= p * p * core.smin(sum((a * a for a in v), 0.0), sum((b * b for b in w), 0.0)))
            c, p = (1.0, vals[0] if vals else 1e-5) if name == 'isOnes' else (vals[0], vals[1] if len(vals) > 1 else 1e-5)
            return all(self.truth(abs(x - c) <= p) for x in v)
        if name in ('allFinite', 'hasNaN'):
            bad = any(not is_sym(x) and (math.isnan(x) or name == 'allFinite' and math.isinf(x)) for x in v)
            return bad if name == 'hasNaN' else not bad
        if name == 'lpNorm':
            raise Unsupported('Eigen lpNorm')     # the order is a template argument, not in the tree
        if name in ('unaryExpr', 'binaryExpr'):
            if name == 'unaryExpr':
                return new([rval(self.invoke(vals[0], [x])) for x in v])
            return new([rval(self.invoke(vals[1], [x, used(y)])) for x, y in zip(v, vals[0].v)])
        if name == 'prod':
            r = 1.0
            for a in v:
                r = r * a
            return r
        if name == 'mean':
            return sum(v, 0.0) / len(v)
        if name in ('all', 'any'):
            return (all if name == 'all' else any)(self.truth(x != 0) for x in v)
        if name == 'eval':
            return new(v)
        if name == 'distance':
            raise Unsupported('Eigen distance')
        if name == 'sum':
            return sum(v, 0.0)
        if name in ('maxCoeff', 'minCoeff'):
            if vals:
                best = 0
                for i in range(1, len(v)):
                    if self.truth(v[i] > v[best] if name == 'maxCoeff' else v[i] < v[best]):
                        best = i
                if isinstance(vals[0], Ptr):
                    vals[0].at(0).set(best)
                else:
                    raise Unsupported('Eigen maxCoeff')
                return v[best]
            r = v[0]
            for a in v[1:]:
                r = core.smax(r, a) if name == 'maxCoeff' else core.smin(r, a)
            return r
        if name == 'cast':
            m = re.search(r'scalar_cast_op<(\w+), (\w+)>', qt(n)) if n else None
            to = m.group(2) if m else kind_of(o)
            if to == 'int' and kind_of(o) != 'int':
                return eigen(len(v), 'int', [Sym(core.trunc(x).e) if isinstance(x, Sym) else int(x) for x in v])
            if to in ('float', 'double', 'int'):
                v = [float(rnp.float32(x)) if to == 'float' and isinstance(x, float) else
                     core.tofloat(x) if to != 'int' else x for x in v]
                return eigen(len(v), to, v)
            raise Unsupported('Eigen cast to ' + to)
        raise Unsupported('Eigen member ' + name)

    def map_member(self, o, name, vals):
        ks = o.keys_sorted()
        if vals and name in ('find', 'count', 'at', 'erase') and not isinstance(vals[0], Iter):
            vals = [as_key(vals[0])] + vals[1:]
        if name in ('reserve', 'rehash'):
            return None
        if name in ('rbegin', 'rend'):
            return Iter(o, len(ks) if name == 'rbegin' else 0, True)
        if name in ('lower_bound', 'upper_bound'):
            k = as_key(vals[0])
            for i, x in enumerate(ks):
                if not x < k if name == 'lower_bound' else k < x:
                    return Iter(o, i)
            return Iter(o, len(ks))
        if name == 'swap':
            a, b = dict(o), dict(vals[0])
            o.clear()
            o.update(b)
            vals[0].clear()
            vals[0].update(a)
            return None
        if name == 'size':
            return len(o)
        if name == 'empty':
            return not o
        if name == 'find':
            return Iter(o, ks.index(vals[0]) if vals[0] in o else len(ks))
        if name in ('begin', 'cbegin'):
            return Iter(o, 0)
        if name in ('end', 'cend'):
            return Iter(o, len(ks))
        if name == 'count':
            return 1 if vals[0] in o else 0
        if name == 'at':
            if vals[0] not in o:
                raise CppThrow('out_of_range', b'map::at')
            v = o[vals[0]]
            return v if is_object(v) else ItemRef(o, vals[0])
        if name == 'clear':
            o.clear()
            return None
        if name == 'erase':
            k = vals[0] if not isinstance(vals[0], Iter) else ks[vals[0].i]
            r = 1 if k in o else 0
            o.pop(k, None)
            return r
        if name == 'operator[]':
            return self.operator('[]', [o, vals[0]], '')
        if name in ('insert', 'emplace', 'insert_or_assign'):
            if name == 'insert' and len(vals) == 2 and isinstance(vals[0], (Iter, Ptr)):
                for p in self.span(vals[0], vals[1]):
                    o.setdefault(as_key(p.f['first']), self.copy(p.f['second']))
                return None
            if len(vals) == 1 and isinstance(vals[0], Vector):
                for p in vals[0]:
                    o.setdefault(as_key(p.f['first']), self.copy(p.f['second']))
                return None
            if len(vals) == 1 and isinstance(vals[0], Entry):
                k, v = vals[0].k, vals[0].m[vals[0].k]
            else:
                k, v = (vals[0].f['first'], vals[0].f['second']) if len(vals) == 1 else vals
            k = as_key(k)
            if k in o and name == 'insert_or_assign':
                o[k] = self.copy(v)
                return PairObj(Iter(o, o.keys_sorted().index(k)), False)
            if k not in o:
                o[k] = v if is_ptr(o.vtype or '') else self.copy(v)
            return PairObj(Iter(o, o.keys_sorted().index(k)), True)
        raise Unsupported('map::' + name)

    def string(self, s, name, vals, base):
        npos = (1 << 64) - 1
        if name in ('size', 'length'):
            return len(s)
        if name == 'empty':
            return not s
        if name in ('c_str', 'data'):
            return s
        if name in ('find_last_of', 'rfind'):
            c = bytes([vals[0]]) if isinstance(vals[0], int) else vals[0]
            if name == 'rfind' or len(c) == 1:
                i = s.rfind(c)
            else:
                i = max(s.rfind(bytes([x])) for x in c)
            return i if i >= 0 else npos
        if name in ('find', 'find_first_of'):
            c = bytes([vals[0]]) if isinstance(vals[0], int) else vals[0]
            at = vals[1] if len(vals) > 1 else 0
            if name == 'find_first_of':
                ix = [i for i in range(at, len(s)) if s[i] in c]
                return ix[0] if ix else npos
            i = s.find(c, at)
            return i if i >= 0 else npos
        if name == 'substr':
            p = vals[0] if vals else 0
            if p > len(s):
                raise CppThrow('out_of_range', b'basic_string::substr')
            return s[p:] if len(vals) < 2 or vals[1] >= npos else s[p:p + vals[1]]
        if name == 'append':
            base.set(s + (vals[0] if isinstance(vals[0], bytes) else bytes([vals[1]]) * concrete(vals[0])))
            return base
        if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend'):
            c = Text(base if isinstance(base, Ref) else Cell(s))
            back = name in ('rbegin', 'rend')
            return Iter(c, len(s) if name in ('end', 'cend', 'rbegin') else 0, back)
        if name == 'insert' and not isinstance(vals[0], Iter):
            i = concrete(vals[0])
            if i > len(s):
                raise CppThrow('out_of_range', b'basic_string::insert')
            base.set(s[:i] + (vals[1] if isinstance(vals[1], bytes) else bytes([vals[2]]) * concrete(vals[1])) + s[i:])
            return base
        if name == 'replace' and not isinstance(vals[0], Iter):
            i, k = concrete(vals[0]), concrete(vals[1])
            if i > len(s):
                raise CppThrow('out_of_range', b'basic_string::replace')
            base.set(s[:i] + vals[2] + s[i + k:])
            return base
        if name == 'erase':
            if vals and isinstance(vals[0], Iter):
                i = concrete(vals[0].i)
                j = concrete(vals[1].i) if len(vals) > 1 else i + 1
            else:
                i = concrete(vals[0]) if vals else 0
                j = len(s) if len(vals) < 2 else i + concrete(vals[1])
            base.set(s[:i] + s[j:])
            return base
        if name == 'pop_back':
            base.set(s[:-1])
            return None
        if name in ('reserve', 'shrink_to_fit'):
            return None
        if name == 'resize':
            k = concrete(vals[0])
            base.set(s[:k] + bytes([vals[1] if len(vals) > 1 else 0]) * max(0, k - len(s)))
            return None
        if name == 'assign':
            base.set(vals[0])
            return base
        if name == 'swap':
            raise Unsupported('string::swap')
        if name in ('find_first_not_of', 'find_last_not_of'):
            c = bytes([vals[0]]) if isinstance(vals[0], int) else vals[0]
            ix = [i for i, x in enumerate(s) if x not in c]
            return (ix[0] if name == 'find_first_not_of' else ix[-1]) if ix else npos
        if name == 'clear':
            base.set(b'')
            return None
        if name == 'compare':
            return (s > vals[0]) - (s < vals[0])
        if name in ('at', 'operator[]'):
            return s[concrete(vals[0])]
        if name in ('back', 'front'):
            i = len(s) - 1 if name == 'back' else 0
            return ItemRef(Text(base), i) if isinstance(base, Ref) else s[i]
        if name == 'push_back':
            base.set(s + bytes([vals[0]]))
            return None
        raise Unsupported('string::' + name)

    # -- std and library functions
    def std(self, name, args, n, tu, fty):
        vals = [rval(a) for a in args]
        if name in ('move', 'forward', 'as_const', 'ref', 'cref'):
            return args[0]
        if name in ('min', 'max') and vals:
            if len(vals) == 1 and isinstance(vals[0], Vector) or len(vals) == 3 or (
                    len(vals) == 2 and (is_object(vals[1]) and not is_object(vals[0]) or isinstance(vals[0], (bytes, PairObj, CppObj)))):
                f = vals[-1] if isinstance(vals[-1], (Closure, FuncPtr, Functor, Func)) else None
                src = list(vals[0]) if isinstance(vals[0], Vector) else vals[:2]
                if f is None and not is_object(src[0]) and not isinstance(src[0], bytes):
                    r = src[0]
                    for x in src[1:]:
                        r = core.smin(r, x) if name == 'min' else core.smax(r, x)
                    return r
                r = src[0]
                for x in src[1:]:
                    if (self.less(f, x, r) if name == 'min' else self.less(f, r, x)):
                        r = x
                return r
            if len(vals) == 2:
                a, b = used(vals[0]), used(vals[1])
                if not is_sym(a) and not is_sym(b):
                    return (b if b < a else a) if name == 'min' else (b if a < b else a)
                return core.smin(a, b) if name == 'min' else core.smax(a, b)
        if name in ('max', 'min', 'lowest', 'epsilon', 'infinity', 'quiet_NaN') and not vals:
            t = strip((fty or '').split('(')[0])
            if t in BITS:
                lo, hi = self.limits(t)
                return hi if name == 'max' else lo
            if name == 'infinity':
                return float('inf')
            if name == 'quiet_NaN':
                return float('nan')
            big = float(rnp.finfo(rnp.float32 if t == 'float' else rnp.float64).max)
            return big if name == 'max' else -big if name == 'lowest' else float(
                rnp.finfo(rnp.float32 if t == 'float' else rnp.float64).eps)
        if name in ('make_unique', 'make_shared'):
            t = targs(strip(qt(n)))[0] if '<' in qt(n) else None
            m = re.match(r'(.*)\[\]$', t)
            if m:
                v = Vector([default_elem(m.group(1)) for _ in range(self.count(vals[0]))])
                return Smart(Ptr(v, 0, strip(m.group(1))), name == 'make_shared')
            if strip(t) in BITS or strip(t) in FLOATS:
                return Smart(Cell(vals[0] if vals else 0), name == 'make_shared')
            return Smart(self.make(t, args), name == 'make_shared')
        if name == 'exchange':
            x = args[0]
            if isinstance(x, Ref):
                old = x.get()
                x.set(self.copy(vals[1]))
            else:
                old = self.copy(x)
                self.assign(x, vals[1])
            return old
        if name in ('make_pair', 'make_tuple', 'forward_as_tuple'):
            return PairObj(*[self.copy(v) for v in vals])
        if name == 'tie':
            return TieObj(args)
        if name in ('stoi', 'stol', 'stoul', 'stof', 'stod', 'atoi', 'atof'):
            try:
                m = re.match(rb'\s*[-+]?\d+' if name[-1] not in 'fd' else rb'\s*[-+]?[\d.]+(e[-+]?\d+)?', vals[0])
                return (int if name[-1] not in 'fd' else float)(m.group(0))
            except (AttributeError, ValueError):
                if name[0] == 'a':
                    return 0
                raise CppThrow('invalid_argument', name.encode())
        if name in ('toupper', 'tolower', 'isdigit', 'isalpha', 'isspace', 'isalnum'):
            ch = bytes([concrete(vals[0]) & 255])
            if name[:2] == 'to':
                return (ch.upper() if name == 'toupper' else ch.lower())[0]
            return int(getattr(ch, name)())
        if name in ('strlen', 'strcmp'):
            return len(vals[0]) if name == 'strlen' else (vals[0] > vals[1]) - (vals[0] < vals[1])
        if name == 'memset':
            for i in range(concrete(vals[2])):
                p = vals[0]
                if isinstance(p, Ptr) and size_of(p.elem) > 1:
                    if concrete(vals[1]) != 0 or concrete(vals[2]) % size_of(p.elem):
                        raise Unsupported('memset of typed memory')
                    if i < concrete(vals[2]) // size_of(p.elem):
                        p.at(i).set(0.0 if p.elem in FLOATS else 0)
                else:
                    p.set_byte(i, vals[1])
            return vals[0]
        if name == 'to_string':
            return str(concrete(vals[0]) if not isinstance(vals[0], float) else '%f' % vals[0]).encode()
        if name in ('memcpy', 'memmove'):
            k = concrete(vals[2])
            if k == 0:
                return vals[0]
            if vals[0] is None or vals[1] is None:
                raise Undefined('memcpy with a null pointer')
            bs = [vals[1].get_byte(i) for i in range(k)]
            for i, b in enumerate(bs):
                vals[0].set_byte(i, b)
            return vals[0]
        if name in ('copy', 'move_backward', 'transform', 'copy_if', 'copy_n', 'reverse_copy'):
            if name == 'copy_n':
                src, out, f = [used_obj(vals[0].at(i)) for i in range(concrete(vals[1]))], vals[2], None
            elif name == 'transform' and len(vals) == 5:
                src2 = self.span(vals[0], vals[1])
                src = [rval(self.invoke(vals[4], [x, vals[2].at(i)])) for i, x in enumerate(src2)]
                out, f = vals[3], None
            else:
                src, out = self.span(vals[0], vals[1]), vals[2]
                f = vals[3] if len(vals) > 3 else None
            if name == 'reverse_copy':
                src = src[::-1]
            if name == 'transform' and f is not None:
                src = [rval(self.invoke(f, [x])) for x in src]
            if name == 'copy_if':
                src = [x for x in src if self.truth(self.invoke(f, [x]))]
            return self.write(out, src)
        if name in ('sort', 'stable_sort', 'partial_sort', 'nth_element'):
            f = vals[-1] if isinstance(vals[-1], (Closure, FuncPtr, Functor, Func)) else None
            end = vals[2] if name in ('partial_sort', 'nth_element') else vals[1]
            src = [self.copy(x) for x in self.span(vals[0], end)]
            self.write(vals[0], self.sorted(src, f))
            return None
        if name in ('is_sorted', 'adjacent_find'):
            src = self.span(vals[0], vals[1])
            f = vals[2] if len(vals) > 2 else None
            for i in range(1, len(src)):
                if name == 'is_sorted' and self.less(f, src[i], src[i - 1]):
                    return False
                if name == 'adjacent_find' and (self.truth(self.invoke(f, src[i - 1:i + 1])) if f else
                                                self.truth(self.equal(src[i - 1], src[i]))):
                    return vals[0].move(i - 1)
            return True if name == 'is_sorted' else vals[1]
        if name in ('unique', 'unique_copy'):
            src = self.span(vals[0], vals[1])
            f = vals[-1] if isinstance(vals[-1], (Closure, FuncPtr, Functor, Func)) else None
            keep = []
            for x in src:
                if not keep or not (self.truth(self.invoke(f, [keep[-1], x])) if f else
                                    self.truth(self.equal(keep[-1], x))):
                    keep.append(x)
            return self.write(vals[0] if name == 'unique' else vals[2], keep)
        if name in ('lower_bound', 'upper_bound', 'binary_search', 'equal_range'):
            src = self.span(vals[0], vals[1])
            f = vals[3] if len(vals) > 3 else None
            lo = next((i for i, x in enumerate(src) if not self.less(f, x, vals[2])), len(src)) if \
                name != 'upper_bound' else 0
            if name == 'lower_bound':
                return vals[0].move(lo)
            if name == 'binary_search':
                return lo < len(src) and not self.less(f, vals[2], src[lo])
            hi = next((i for i, x in enumerate(src) if self.less(f, vals[2], x)), len(src))
            return vals[0].move(hi) if name == 'upper_bound' else PairObj(vals[0].move(lo), vals[0].move(hi))
        if name in ('partition', 'stable_partition', 'partition_copy'):
            src = [self.copy(x) for x in self.span(vals[0], vals[1])]
            t = [self.truth(self.invoke(vals[-1], [x])) for x in src]
            yes, no = [x for x, b in zip(src, t) if b], [x for x, b in zip(src, t) if not b]
            if name == 'partition_copy':
                return PairObj(self.write(vals[2], yes), self.write(vals[3], no))
            self.write(vals[0], yes + no)
            return vals[0].move(len(yes))
        if name in ('replace', 'replace_if'):
            for i, x in enumerate(self.span(vals[0], vals[1])):
                if self.truth(self.invoke(vals[2], [x])) if name == 'replace_if' else self.truth(self.equal(x, vals[2])):
                    self.write(vals[0].move(i), [vals[3]])
            return None
        if name in ('generate', 'generate_n'):
            k = self.diff(vals[1], vals[0]) if name == 'generate' else concrete(vals[1])
            if isinstance(vals[0], BackIns):
                return self.write(vals[0], [rval(self.invoke(vals[2], [])) for _ in range(k)])
            for i in range(k):
                self.write(vals[0].move(i), [rval(self.invoke(vals[2], []))])
            return vals[0].move(k)
        if name in ('inner_product', 'partial_sum', 'adjacent_difference'):
            src = self.span(vals[0], vals[1])
            add = lambda x, y: self.operator('+', [x, y], '') if is_object(x) else x + y
            if name == 'inner_product':
                r = vals[3]
                for i, x in enumerate(src):
                    y = rval(vals[2].at(i))
                    m = rval(self.invoke(vals[5], [x, y])) if len(vals) > 5 else x * y
                    r = rval(self.invoke(vals[4], [r, m])) if len(vals) > 4 else add(r, m)
                return r
            out = []
            for i, x in enumerate(src):
                if i == 0:
                    out.append(x)
                elif name == 'partial_sum':
                    out.append(rval(self.invoke(vals[3], [out[-1], x])) if len(vals) > 3 else add(out[-1], x))
                else:
                    out.append(rval(self.invoke(vals[3], [x, src[i - 1]])) if len(vals) > 3 else x - src[i - 1])
            return self.write(vals[2], out)
        if name in ('minmax', 'minmax_element'):
            if name == 'minmax':
                a, b = vals[:2]
                return PairObj(b, a) if self.less(None, b, a) else PairObj(a, b)
            f = vals[2] if len(vals) > 2 else None
            src, lo, hi = self.span(vals[0], vals[1]), 0, 0
            for i in range(1, len(src)):
                if self.less(f, src[i], src[lo]):
                    lo = i
                if not self.less(f, src[i], src[hi]):
                    hi = i
            return PairObj(vals[0].move(lo), vals[0].move(hi))
        if name in ('rotate',):
            a, b = self.span(vals[0], vals[1]), self.span(vals[1], vals[2])
            self.write(vals[0], [self.copy(x) for x in b + a])
            return vals[0].move(len(b))
        if name in ('set_intersection', 'set_union', 'set_difference', 'merge', 'includes'):
            a, b = self.span(vals[0], vals[1]), self.span(vals[2], vals[3])
            f = vals[-1] if isinstance(vals[-1], (Closure, FuncPtr, Functor, Func)) else None
            out, i, j = [], 0, 0
            while i < len(a) or j < len(b):
                if j >= len(b) or i < len(a) and self.less(f, a[i], b[j]):
                    if name in ('set_union', 'set_difference', 'merge'):
                        out.append(a[i])
                    i += 1
                elif i >= len(a) or self.less(f, b[j], a[i]):
                    if name in ('set_union', 'merge'):
                        out.append(b[j])
                    elif name == 'includes':
                        return False
                    j += 1
                else:
                    if name in ('set_union', 'set_intersection', 'merge'):
                        out.append(a[i])
                    if name == 'merge':
                        out.append(b[j])
                    i, j = i + 1, j + 1
            return True if name == 'includes' else self.write(vals[4], out)
        if name in ('mismatch', 'lexicographical_compare'):
            a = self.span(vals[0], vals[1])
            b = self.span(vals[2], vals[3]) if len(vals) > 3 and not isinstance(vals[3], (Closure, FuncPtr)) else None
            for i, x in enumerate(a):
                if b is not None and i >= len(b):
                    break
                y = b[i] if b is not None else rval(vals[2].at(i))
                if name == 'mismatch' and not self.truth(self.equal(x, y)):
                    return PairObj(vals[0].move(i), vals[2].move(i))
                if name != 'mismatch':
                    if self.less(None, x, y):
                        return True
                    if self.less(None, y, x):
                        return False
            if name == 'lexicographical_compare':
                return len(a) < len(b)
            return PairObj(vals[1], vals[2].move(len(a)))
        if name in ('make_move_iterator', 'make_reverse_iterator'):
            return vals[0] if name == 'make_move_iterator' else Iter(vals[0].c, vals[0].i, True)
        if name in ('fill', 'fill_n'):
            k = self.diff(vals[1], vals[0]) if name == 'fill' else concrete(vals[1])
            self.write(vals[0], [vals[2]] * k)
            return None
        if name == 'iota':
            self.write(vals[0], [vals[2] + i for i in range(self.diff(vals[1], vals[0]))])
            return None
        if name == 'reverse':
            src = [self.copy(x) for x in self.span(vals[0], vals[1])]
            self.write(vals[0], src[::-1])
            return None
        if name == 'for_each':
            for i in range(self.diff(vals[1], vals[0])):
                self.invoke(vals[2], [vals[0].at(i)])
            return vals[2]
        if name in ('all_of', 'any_of', 'none_of'):
            r = []
            for x in self.span(vals[0], vals[1]):
                b = self.truth(self.invoke(vals[2], [x]))
                if name == 'all_of' and not b:
                    return False
                if name != 'all_of' and b:
                    return name == 'any_of'
            return name != 'any_of'
        if name in ('equal',):
            n1 = self.span(vals[0], vals[1])
            f = vals[-1] if isinstance(vals[-1], (FuncPtr, Closure)) else None
            if isinstance(vals[2], Iter) and isinstance(vals[2].c, MapObj):
                n2 = self.span(vals[2], Iter(vals[2].c, len(vals[2].c)))[:len(n1)]
            else:
                n2 = [used_obj(vals[2].at(i)) for i in range(len(n1))]
            for x, y in zip(n1, n2):
                if not self.truth(self.invoke(f, [x, y]) if f else self.equal(x, y)):
                    return False
            return True
        if name == 'accumulate':
            r = vals[2]
            for x in self.span(vals[0], vals[1]):
                r = rval(self.invoke(vals[3], [r, x])) if len(vals) > 3 else (
                    self.operator('+', [r, x], '') if is_object(r) else r + x)
                if len(vals) <= 3 and not is_object(r) and n is not None and strip(qt(n)) in BITS:
                    r = self.wrap(r, strip(qt(n)))
            return r
        if name in ('find', 'find_if', 'find_if_not', 'count', 'count_if', 'remove', 'remove_if', 'remove_copy',
                    'remove_copy_if', 'max_element', 'min_element'):
            src = self.span(vals[0], vals[1])
            what = vals[3] if name.startswith('remove_copy') else vals[2] if len(vals) > 2 else None
            test = (lambda x: self.truth(self.invoke(what, [x]))) if name.endswith('_if') else (
                lambda x: not self.truth(self.invoke(what, [x]))) if name == 'find_if_not' else (
                lambda x: self.truth(self.equal(x, what)))
            if name.startswith('find'):
                for i, x in enumerate(src):
                    if test(x):
                        return vals[0].move(i)
                return vals[1]
            if name.startswith('count'):
                return sum(1 for x in src if test(x))
            if name.startswith('remove_copy'):
                return self.write(vals[2], [x for x in src if not test(x)])
            if name in ('remove_if', 'remove'):
                keep = [x for x in src if not test(x)]
                self.write(vals[0], keep)
                return vals[0].move(len(keep))
            best = 0
            for i in range(1, len(src)):
                if (self.less(what, src[best], src[i]) if name == 'max_element' else
                        self.less(what, src[i], src[best])):
                    best = i
            return vals[0].move(best) if src else vals[1]
        if name == 'swap' or name == 'iter_swap':
            a, b = args
            if isinstance(a, Ref):
                x, y = a.get(), b.get()
                a.set(y)
                b.set(x)
            else:
                t = self.copy(a)
                self.assign(a, b)
                self.assign(b, t)
            return None
        if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'data', 'empty'):
            return self.member(vals[0], name, [], None, None)
        if name in ('back_inserter', 'inserter'):
            return BackIns(vals[0])
        if name == 'distance':
            return self.diff(vals[1], vals[0])
        if name in ('next', 'prev'):
            k = concrete(vals[1]) if len(vals) > 1 else 1
            return vals[0].move(k if name == 'next' else -k)
        if name == 'advance':
            vals[0].i = vals[0].move(concrete(vals[1])).i
            return None
        if name == 'get':
            m = re.match(r'.*?(?:tuple_element(?:_t)?|_Array_element|pair_element)\w*<(\d+)U?L?,', fty or '') or \
                re.search(r'<(\d+)U?L?, ', fty or '')
            if m is None and n is not None:
                m = re.search(r'tuple_element\w*<(\d+)U?L?,', json.dumps(n['inner'][0]))
            if m is None and isinstance(vals[0], Arr):
                raise Unsupported('std::get of an array')
            if m is None:
                raise Unsupported('std::get')
            if isinstance(vals[0], Arr):
                return element(vals[0].v, int(m.group(1)), vals[0].elem)
            return FieldRef(vals[0], list(vals[0].f)[int(m.group(1))])
        if name in ('sqrt', 'sqrtf'):
            return core.sqrt(used(vals[0]))
        if name in ('abs', 'fabs', 'fabsf', 'labs'):
            return abs(used(vals[0]))
        if name in ('floor', 'floorf', 'ceil', 'ceilf', 'trunc', 'round'):
            f = {'floor': core.floor, 'floorf': core.floor, 'ceil': core.ceil, 'ceilf': core.ceil, 'trunc': core.trunc}.get(name)
            v = used(vals[0])
            if f is None:
                if not is_sym(v):
                    return math.copysign(math.floor(abs(v) + 0.5), v)
                return core.tofloat(core.floor(v + 0.5) if self.truth(v >= 0) else core.ceil(v - 0.5))
            return core.tofloat(f(v))
        if name in ('lround', 'llround', 'roundf', 'rint', 'nearbyint', 'lrint', 'truncf'):
            v = used(vals[0])
            if name in ('rint', 'nearbyint', 'lrint'):
                if is_sym(v):
                    raise Unsupported('C++ ' + name)
                r = float(rnp.rint(v))
            elif name == 'truncf':
                return core.tofloat(core.trunc(v))
            elif not is_sym(v):
                r = math.copysign(math.floor(abs(v) + 0.5), v)
            else:
                r = core.floor(v + 0.5) if self.truth(v >= 0) else core.ceil(v - 0.5)
            if name in ('roundf', 'rint', 'nearbyint'):
                return core.tofloat(r)
            return int(r) if not is_sym(r) else Sym(r.e)
        if name in ('fmin', 'fmax', 'fminf', 'fmaxf'):
            a, b = used(vals[0]), used(vals[1])
            return core.smin(a, b) if 'min' in name else core.smax(a, b)
        if name in ('fmod', 'copysign', 'signbit', 'cbrt', 'atan2', 'atan', 'acos', 'asin', 'tan', 'exp', 'log',
                    'log2', 'log10', 'fmodf', 'remainder') and not any(is_sym(used(v)) for v in vals):
            v = [used(x) for x in vals]
            return {'signbit': lambda x: math.copysign(1, x) < 0,
                    'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
                    'fmodf': math.fmod}.get(name, getattr(math, name, None))(*v)
        if name == 'copysign':
            return abs(vals[0]) if self.truth(vals[1] >= 0) else -abs(vals[0])
        if name == 'signbit':
            return self.truth(vals[0] < 0)
        if name in ('cos', 'sin') and not is_sym(used(vals[0])) and name not in EXTERN:
            return getattr(math, name)(used(vals[0]))
        if name in ('isinf', '__builtin_isinf', 'isnan', '__builtin_isnan', 'isfinite', '__builtin_isfinite'):
            v = used(vals[0])
            if is_sym(v):
                return name.endswith('isfinite')
            return {'isinf': math.isinf, 'isnan': math.isnan, 'isfinite': math.isfinite}[
                name.replace('__builtin_', '')](v)
        if name == 'isnormal':
            v = used(vals[0])
            return self.truth(v != 0) if is_sym(v) else v != 0 and math.isfinite(v)
        if name in ('__builtin_inff', '__builtin_inf', '__builtin_huge_val', '__builtin_huge_valf'):
            return float('inf')
        if name in ('__builtin_nanf', '__builtin_nan'):
            return float('nan')
        if name in ('pow',):
            return vals[0] ** vals[1]
        if name == 'hypot':
            return core.sqrt(sum((v * v for v in vals), 0.0))
        if name in ('Zero', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Random'):
            # the static type of the call tells the size
            m = re.search(r'Matrix<(float|double), (\d), 1', qt(n)) or \
                re.search(r'Matrix<(float|double), (\d), \d', qt(n))
            if not m:
                raise Unsupported('Eigen constant of ' + qt(n))
            k, kind = int(m.group(2)), m.group(1)
            if name == 'Random':
                raise Unsupported('Eigen Random')
            if name.startswith('Unit'):
                return eigen(k, kind, [1.0 if 'XYZ'[i] == name[4] else 0.0 for i in range(k)])
            return eigen(k, kind, [{'Zero': 0.0, 'Ones': 1.0}.get(name, vals[-1] if vals else 0.0)] * k)
        if name in ('zeros', 'ones') and 'MatExpr' in qt(n):
            if isinstance(vals[0], PairObj):
                vals = [vals[0].f['second'], vals[0].f['first']]
            return MatExpr(concrete(vals[0]), concrete(vals[1]), 0 if name == 'zeros' else 1)
        if name == 'cvtColor':
            return self.cvt(vals)
        if name in EXTERN:
            return EXTERN[name](self, args)
        got = self.outside(tu, name, args)
        if got is not None:
            return self.call(got[0], got[1], args)
        raise Unsupported('C++ function ' + str(name))

    def outside(self, tu, name, args):
        """a function of a source file outside the namespaces that were read"""
        got = self.find_function(name, args)
        if got is None and re.match(r'[A-Za-z_]\w*$', str(name)) and self.read_outside(name):
            got = self.find_function(name, args)
        return got

    def read_outside(self, name):
        asked = self.__dict__.setdefault('_asked', set())
        if name in asked:
            return False
        asked.add(name)
        new = False
        for s in SOURCES if not getattr(self, 'sources', None) else self.sources:
            if not re.search(r'\b%s\b' % name, open(os.path.join(self.root, 'sumo', s)).read()):
                continue
            p = subprocess.run([CLANG] + FLAGS + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name,
                                                  'sumo/' + s], cwd=self.root, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            tu = TU([('', o) for o in parse_docs(p.stdout.decode(errors='replace'))])
            self.tus.append(tu)
            new = True
        return new

    def write(self, out, src):
        if isinstance(out, BackIns):
            for x in src:
                out.v.append(self.copy(x))
            return out
        for i, x in enumerate(src):
            r = out.at(i)
            if isinstance(r, Ref):
                r.set(self.copy(x))
            else:
                self.assign(r, x)
        return out.move(len(src))

    def cvt(self, vals):
        src, dst, code = vals[0], vals[1], concrete(vals[2])
        # to and from four channels, with and without exchange of the first and third
        per = {0: [0, 1, 2, None], 1: [0, 1, 2], 2: [2, 1, 0, None], 3: [2, 1, 0], 4: [2, 1, 0], 5: [2, 1, 0, 3]}
        if code not in per:
            raise Unsupported('colour conversion %d' % code)
        if src.ch != (3 if code in (0, 2, 4) else 4):
            raise CppThrow('cv::Exception', b'Invalid number of channels in input image')
        m = per[code]
        old = src.buf
        dst.rows, dst.cols, dst.ch, dst.kind = src.rows, src.cols, len(m), src.kind
        dst.buf = []
        for p in range(src.rows * src.cols):
            dst.buf += [255 if j is None else old[p * (3 if code in (0, 2, 4) else 4) + j] for j in m]
        return None


EXTERN = dict(tiff.FUNCTIONS, parse=tiff.parse)


def read_whole_file(prog, args):
    """tinygltf::ReadWholeFile on the real file system"""
    out, path = rval(args[0]), rval(args[2])
    try:
        data = open(os.fsdecode(path), 'rb').read()
    except OSError:
        return 0
    if not data:
        return 0
    vec = rval(out.get()) if isinstance(out, Ref) else out
    del vec[:]
    vec.extend(data)
    return 1


def load_image_data(prog, args):
    """tinygltf::LoadImageData: the picture in these (concrete) bytes, decoded by OpenCV instead of stb"""
    image, ptr, size = rval(args[0]), rval(args[4]), concrete(rval(args[5]))
    import cv2
    import numpy
    data = bytes(concrete(ptr.get_byte(i)) for i in range(size))
    m = cv2.imdecode(numpy.frombuffer(data, dtype=numpy.uint8), cv2.IMREAD_UNCHANGED)
    if m is None:
        return 0
    if m.ndim == 2:
        m = m[:, :, None]
    if m.shape[2] >= 3:
        m = m[:, :, [2, 1, 0] + list(range(3, m.shape[2]))]
    image.f['height'], image.f['width'], image.f['component'] = m.shape
    vec = rval(image.f['image'])
    del vec[:]
    vec.extend(int(x) for x in m.ravel())
    return 1


# functions of the library with a body that is not executed
MODELLED = {'ReadWholeFile': read_whole_file, 'LoadImageData': load_image_data}


def used_obj(x):
    return rval(x)


PROG = None
_cache = {}
SOURCES = ['threedee/Mesh.cpp', 'threedee/TexturedMesh.cpp', 'images/Rgbdci360.cpp', 'threedee/GltfModel.cpp',
           'images/RgbdTiff.cpp']


class Later(object):
    """stands for the program until it is first used"""
    executed = frozenset()

    def __init__(self, root):
        self.root = root

    def __getattr__(self, name):
        return getattr(load(self.root), name)


def prepare(root):
    global PROG
    if PROG is None:
        PROG = _cache.get((root, tuple(SOURCES), True)) or Later(root)


def load(root, sources=tuple(SOURCES), data=True):
    global PROG
    key = (root, tuple(sources), data)
    if key not in _cache:
        _cache[key] = Program(root, list(sources), 'threedee/Mesh.cpp' if data else None)
        for d, _, fs in os.walk(os.path.join(root, 'sumo')):
            for f in sorted(fs):
                if f.endswith(('.pxd', '.pyx')):
                    _cache[key].read_pxd(os.path.relpath(os.path.join(d, f), root))
    PROG = _cache[key]
    return PROG
