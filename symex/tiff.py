"""Models of libtiff and picojson, as far as the sources of /repo use them.

A file is a list of directories; a directory holds its tags and the bytes of its rows.
The compression schemes in use are lossless, so a row read back is the row written.
"""
import os
import re

from . import core, snp
from .core import Sym, Unsupported, is_sym

# tags of the baseline and of the extensions in use
WIDTH, LENGTH, BITS, COMPRESSION, PHOTOMETRIC, DESCRIPTION = 256, 257, 258, 259, 262, 270
SAMPLES, ROWSPERSTRIP, PLANAR, PAGENAME, PAGENUMBER, SUBFILETYPE, SAMPLEFORMAT = 277, 278, 284, 285, 297, 254, 339
LOSSLESS = {1, 5, 8, 32773, 32946}
TEXT = {DESCRIPTION, PAGENAME, 305, 306, 315, 269}
DEFAULTS = {ROWSPERSTRIP: 0xffffffff, PLANAR: 1, SAMPLEFORMAT: 1, COMPRESSION: 1, SAMPLES: 1, BITS: 1}


def files():
    """path -> list of directories"""
    return core.CTX.user.setdefault('tiff', {})


class Dir(object):
    def __init__(self):
        self.tags, self.rows = {}, {}


class Handle(object):
    def __init__(self, path, mode):
        self.path, self.mode, self.n = path, mode, 0
        self.dirs = [Dir()] if mode == 'w' else files()[path]
        self.closed = False

    @property
    def dir(self):
        if self.closed:
            from . import cppast
            raise cppast.Undefined('use of a closed TIFF')
        return self.dirs[self.n]


def text(b):
    return b.decode() if isinstance(b, bytes) else b


def t_open(prog, args):
    path, mode = [text(prog_rval(a)) for a in args]
    path = os.path.normpath(path)
    if mode[0] == 'w':
        folder = os.path.dirname(path)
        if folder != '/virtual' and not os.path.isdir(folder or '.'):
            return None
        files()[path] = []
        return Handle(path, 'w')
    if mode[0] != 'r':
        raise Unsupported('TIFF mode ' + mode)
    if not files().get(path):
        return None
    return Handle(path, 'r')


def prog_rval(x):
    from . import cppast
    return cppast.rval(x)


def conc(x):
    from . import cppast
    return cppast.concrete(cppast.used(x))


def set_field(prog, args):
    h, tag = prog_rval(args[0]), conc(args[1])
    vals = [prog_rval(a) for a in args[2:]]
    if h.mode != 'w':
        raise Unsupported('tags of a TIFF that is read')
    if tag in TEXT:
        v = vals[0]
        v = bytes(v)
        h.dir.tags[tag] = v.split(b'\0')[0]
        return 1
    v = conc(vals[0])
    if tag == COMPRESSION and v not in LOSSLESS:
        raise Unsupported('TIFF compression %d' % v)
    if tag == PLANAR and v != 1:
        raise Unsupported('planar configuration %d' % v)
    h.dir.tags[tag] = v
    return 1


def get_field(prog, args):
    h, tag = prog_rval(args[0]), conc(args[1])
    if tag not in h.dir.tags:
        return 0
    out = args[2]
    from . import cppast
    while not isinstance(out, cppast.Ref) or isinstance(out.get(), cppast.Ref):
        if not isinstance(out, cppast.Ref):
            out = out.at(0)
        else:
            out = out.get()
    out.set(h.dir.tags[tag])
    return 1


def get_defaulted(prog, args):
    h, tag = prog_rval(args[0]), conc(args[1])
    if tag in h.dir.tags or tag not in DEFAULTS:
        return get_field(prog, args)
    h.dir.tags[tag] = DEFAULTS[tag]
    r = get_field(prog, args)
    del h.dir.tags[tag]
    return r


def line(h):
    t = h.dir.tags
    if WIDTH not in t:
        return 0
    return (t[WIDTH] * t.get(SAMPLES, 1) * t.get(BITS, 1) + 7) // 8


def byte_at(p, k):
    from . import cppast
    if p is None:
        raise cppast.Undefined('read through a null pointer')
    return p.get_byte(k)


def write_line(prog, args):
    h, p, y = prog_rval(args[0]), prog_rval(args[1]), conc(args[2])
    if WIDTH not in h.dir.tags or LENGTH not in h.dir.tags:
        return -1
    if y >= h.dir.tags[LENGTH]:
        h.dir.tags[LENGTH] = y + 1
    h.dir.rows[y] = [byte_at(p, k) for k in range(line(h))]
    return 1


def read_line(prog, args):
    h, p, y = prog_rval(args[0]), prog_rval(args[1]), conc(args[2])
    if y not in h.dir.rows:
        return -1
    for k, b in enumerate(h.dir.rows[y]):
        p.set_byte(k, b)
    return 1


def write_dir(prog, args):
    h = prog_rval(args[0])
    files()[h.path].append(h.dirs[0])
    h.dirs = [Dir()]
    return 1


def read_dir(prog, args):
    h = prog_rval(args[0])
    if h.n + 1 >= len(h.dirs):
        return 0
    h.n += 1
    return 1


def close(prog, args):
    h = prog_rval(args[0])
    if h.mode == 'w' and h.dir.tags and WIDTH in h.dir.tags and not h.closed:
        write_dir(prog, args)
    h.closed = True
    return None


FUNCTIONS = {
    'TIFFOpen': t_open, 'TIFFClose': close, 'TIFFSetField': set_field, 'TIFFGetField': get_field,
    'TIFFGetFieldDefaulted': get_defaulted, 'TIFFReadScanline': read_line, 'TIFFWriteScanline': write_line,
    'TIFFWriteDirectory': write_dir, 'TIFFReadDirectory': read_dir,
    'TIFFScanlineSize': lambda prog, args: line(prog_rval(args[0])),
    'TIFFNumberOfDirectories': lambda prog, args: len(prog_rval(args[0]).dirs),
    'TIFFSetDirectory': lambda prog, args: set_dir(prog_rval(args[0]), conc(args[1])),
    'TIFFDefaultStripSize': lambda prog, args: 1, 'TIFFSetErrorHandler': lambda prog, args: None,
    'TIFFSetWarningHandler': lambda prog, args: None, 'TIFFFlush': lambda prog, args: 1,
}


def set_dir(h, n):
    if not 0 <= n < len(h.dirs):
        return 0
    h.n = n
    return 1


# -- picojson ---------------------------------------------------------------------------------

class Json(object):
    """picojson::value: null, boolean, number, int64, string, array or object"""
    def __init__(self, kind='null', v=None):
        self.kind, self.v = kind, v

    def copy(self):
        if self.kind == 'object':
            from . import cppast
            m = cppast.MapObj('picojson::value')
            m.update({k: x.copy() for k, x in self.v.items()})
            return Json('object', m)
        if self.kind == 'array':
            from . import cppast
            r = cppast.Vector([x.copy() for x in self.v])
            r.elem = 'picojson::value'
            return Json('array', r)
        return Json(self.kind, self.v)

    def serialize(self):
        if self.kind == 'null':
            return b'null'
        if self.kind == 'boolean':
            return b'true' if self.v else b'false'
        if self.kind == 'int64':
            return ('%s' % (self.v,)).encode()
        if self.kind == 'number':
            if is_sym(self.v):
                return ('%s' % (self.v,)).encode()
            v = float(self.v)
            return (('%.f' if abs(v) < 1 << 53 and v == int(v) else '%.17g') % v).encode()
        if self.kind == 'string':
            out = b''
            for ch in self.v:
                c = bytes([ch])
                out += {b'"': b'\\"', b'\\': b'\\\\', b'/': b'\\/', b'\b': b'\\b', b'\f': b'\\f', b'\n': b'\\n',
                        b'\r': b'\\r', b'\t': b'\\t'}.get(c, c if ch >= 32 and ch != 127 else b'\\u%04x' % ch)
            return b'"' + out + b'"'
        if self.kind == 'array':
            return b'[' + b','.join(x.serialize() for x in self.v) + b']'
        return b'{' + b','.join(Json('string', k).serialize() + b':' + x.serialize()
                                for k, x in sorted(self.v.items())) + b'}'


def make(t, vals, sig):
    """picojson::value(...); sig is the constructor that the compiler chose"""
    if not vals:
        return Json()
    v = vals[0]
    if isinstance(v, Json):
        return v.copy()
    if isinstance(v, bytes):
        return Json('string', v)
    from . import cppast
    if isinstance(v, cppast.MapObj):
        return Json('object', v).copy()
    if isinstance(v, cppast.Vector):
        return Json('array', v).copy()
    p = (sig or '').partition('(')[2]
    if p.startswith(('int64_t', 'long')):
        return Json('int64', v)
    if p.startswith('double'):
        return Json('number', core.tofloat(v) if is_sym(v) else float(v))
    if p.startswith('bool'):
        return Json('boolean', v)
    raise Unsupported('picojson::value from ' + (sig or repr(v)))


KINDS = {'object': 'object', 'map<std::string, value>': 'object', 'double': 'number', 'int64_t': 'int64', 'long': 'int64',
         'std::string': 'string', 'string': 'string', 'bool': 'boolean', 'array': 'array', 'null': 'null'}


def kind_of(t):
    t = re.sub(r'\b(picojson|value)::', '', t.replace('const ', '').replace('&', '')).strip()
    if t not in KINDS:
        raise Unsupported('picojson type ' + t)
    return KINDS[t]


def member(o, name, vals, targ):
    from . import cppast
    if name == 'is':
        k = kind_of(targ())
        return o.kind == k or k == 'number' and o.kind == 'int64'
    if name == 'get' and not vals:
        k = kind_of(targ())
        if k == 'number' and o.kind == 'int64':
            o.kind, o.v = 'number', (core.tofloat(o.v) if is_sym(o.v) else float(o.v))
        if o.kind != k:
            raise cppast.CppThrow('runtime_error', b'type mismatch! call is<type>() before get<type>()')
        return o.v if cppast.is_object(o.v) else cppast.Cell(o.v)
    if name in ('get', 'contains'):
        if o.kind != 'object':
            if name == 'contains':
                return False
            raise Unsupported('picojson::value::get(key) of another value')
        if name == 'contains':
            return vals[0] in o.v
        return o.v.get(vals[0], Json())
    if name == 'serialize':
        return o.serialize()
    if name == 'to_str':
        return o.v if o.kind == 'string' else o.serialize()
    if name == 'operator=':
        n = vals[0].copy()
        o.kind, o.v = n.kind, n.v
        return o
    raise Unsupported('picojson::value::' + name)


WS = b' \t\n\r'


def parse(prog, args):
    """picojson::parse(value, first, last) or (value, string): errors leave null"""
    out = prog_rval(args[0])
    b = prog_rval(args[1])
    if len(args) > 2:
        last = prog_rval(args[2])
        if not isinstance(b, bytes) or not isinstance(last, bytes) or not b.endswith(last):
            raise Unsupported('picojson::parse of this range')
        b = b[:len(b) - len(last)]
    try:
        v, i = value(b, 0)
        out.kind, out.v = v.kind, v.v
        return b''
    except (IndexError, ValueError):
        out.kind, out.v = 'null', None
        return b'syntax error'


def skip(b, i):
    while i < len(b) and b[i] in WS:
        i += 1
    return i


def value(b, i):
    i = skip(b, i)
    ch = b[i:i + 1]
    if not ch:
        raise ValueError
    from . import cppast
    if ch == b'{':
        m = cppast.MapObj('picojson::value')
        i = skip(b, i + 1)
        if b[i:i + 1] == b'}':
            return Json('object', m), i + 1
        while True:
            i = skip(b, i)
            if b[i:i + 1] != b'"':
                raise ValueError
            k, i = string(b, i + 1)
            i = skip(b, i)
            if b[i:i + 1] != b':':
                raise ValueError
            m[k], i = value(b, i + 1)
            i = skip(b, i)
            if b[i:i + 1] == b'}':
                return Json('object', m), i + 1
            if b[i:i + 1] != b',':
                raise ValueError
            i += 1
    if ch == b'[':
        r = cppast.Vector()
        r.elem = 'picojson::value'
        i = skip(b, i + 1)
        if b[i:i + 1] == b']':
            return Json('array', r), i + 1
        while True:
            x, i = value(b, i)
            r.append(x)
            i = skip(b, i)
            if b[i:i + 1] == b']':
                return Json('array', r), i + 1
            if b[i:i + 1] != b',':
                raise ValueError
            i += 1
    if ch == b'"':
        s, i = string(b, i + 1)
        return Json('string', s), i
    for w, k, v in ((b'true', 'boolean', True), (b'false', 'boolean', False), (b'null', 'null', None)):
        if b.startswith(w, i):
            return Json(k, v), i + len(w)
    if ch == b'<':
        j = b.index(b'>', i) + 1
        v = snp.t_num(b[i:j].decode())
        return (Json('int64', v) if isinstance(v, Sym) and v.isint() else Json('number', v)), j
    m = re.match(rb'[-+.eE0-9]+', b[i:])
    if not m or ch not in b'-0123456789':
        raise ValueError
    s = m.group(0).decode()
    if re.fullmatch(r'-?\d+', s) and -(1 << 63) <= int(s) < 1 << 63:
        return Json('int64', int(s)), i + len(s)
    return Json('number', float(s)), i + len(s)


def string(b, i):
    out = b''
    while True:
        ch = b[i:i + 1]
        if not ch or ch < b' ':
            raise ValueError
        if ch == b'"':
            return out, i + 1
        if ch == b'\\':
            e = b[i + 1:i + 2]
            t = {b'"': b'"', b'\\': b'\\', b'/': b'/', b'b': b'\b', b'f': b'\f', b'n': b'\n', b'r': b'\r', b't': b'\t'}
            if e not in t:
                raise Unsupported('escape in JSON text')
            out += t[e]
            i += 2
            continue
        out += ch
        i += 1
