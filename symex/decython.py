"""Cython (.pyx) source -> Python source with the C type annotations kept as casts.

Works on logical lines from the tokenizer.  The generated module refers to
  _cyargs({...}, ret)   decorator: coerces typed arguments / return value
  _cyv('T', e)          value coerced to C type T (typed locals)
  _CyCast('T') ** e     a C cast <T>e
  _cimport, _ctypedef, _cydecl, _addr
which load.py supplies.
"""
import ast
import re
import io
import tokenize
from tokenize import NAME, OP, NUMBER, STRING, NEWLINE, NL, COMMENT, INDENT, DEDENT, ENDMARKER

FSTR = (tokenize.FSTRING_START, tokenize.FSTRING_MIDDLE, tokenize.FSTRING_END)
OPEN, CLOSE = '([{', ')]}'
CTYPES = {'int', 'float', 'double', 'unsigned', 'long', 'short', 'char', 'size_t', 'bint', 'void',
          'object', 'list', 'dict', 'str', 'tuple', 'bytes', 'bool', 'signed', 'set', 'const'}


class Line(object):
    def __init__(self, toks, indent, lineno):
        self.toks, self.indent, self.lineno = toks, indent, lineno


def logical_lines(src):
    out, cur, ind = [], [], 0
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == INDENT:
            ind += 1
        elif t.type == DEDENT:
            ind -= 1
        elif t.type in (NL, COMMENT):
            continue
        elif t.type in (NEWLINE, ENDMARKER):
            for part in split_semi(cur):
                out.append(Line(part, ind, part[0].start[0]))
            cur = []
        else:
            cur.append(t)
    return out


def split_semi(toks):
    return split_top(toks, ';') if any(t.type == OP and t.string == ';' for t in toks) \
        and toks[0].string not in ('if', 'for', 'while', 'def', 'else', 'elif', 'with', 'try') \
        else [toks] if toks else []


def join(toks):
    """tokens -> source text with safe spacing"""
    s = ''
    prev = None
    for t in toks:
        x = t.string
        if prev is not None:
            if prev.type in (NAME, NUMBER, STRING) and t.type in (NAME, NUMBER, STRING):
                s += ' '
            elif prev.type in (NAME, OP) and t.type in (NAME, OP, NUMBER, STRING) and getattr(prev, 'string', '') in ('if', 'else', 'return', 'in') and t.type == OP:
                s += ' '
            elif t.type in FSTR and prev.type in FSTR:
                s += ''
            elif prev.string in (',', '=', ':', 'in', 'not', 'and', 'or', 'is', 'if', 'else', 'return',
                                 'lambda') or x in ('=', 'in', 'not', 'and', 'or', 'is', 'if', 'else'):
                s += ' '
            elif prev.type == OP and t.type == OP and prev.string not in OPEN + CLOSE + '.,' \
                    and x not in OPEN + CLOSE + '.,':
                s += ' '
            elif getattr(prev, 'line', None) == getattr(t, 'line', None) and prev.end == t.start:
                pass
            elif prev.type != OP or t.type != OP:
                s += ' '
        s += x
        prev = t
    return s


def split_top(toks, sep=','):
    parts, cur, d = [], [], 0
    for t in toks:
        if t.string in OPEN:
            d += 1
        elif t.string in CLOSE:
            d -= 1
        if t.string == sep and d == 0 and t.type == OP:
            parts.append(cur)
            cur = []
        else:
            cur.append(t)
    parts.append(cur)
    return [p for p in parts if p]


class Fake(object):
    def __init__(self, typ, string):
        self.type, self.string = typ, string
        self.start = self.end = (0, 0)
        self.line = object()


def expr(toks):
    """rewrite casts, address-of and new in an expression / statement"""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        prev = out[-1] if out else None
        value_before = prev is not None and (
            (prev.type in (NAME, NUMBER, STRING) and prev.string not in
             ('return', 'in', 'and', 'or', 'not', 'if', 'else', 'is', 'lambda', 'yield', 'print',
              'assert', 'raise', 'elif', 'while', 'new'))
            or prev.string in (')', ']', '}'))
        if t.string == '<' and not value_before:
            j = i + 1
            d = 0
            ok = True
            ty = []
            while j < n:
                u = toks[j]
                if u.string == '<':
                    d += 1
                elif u.string == '>':
                    if d == 0:
                        break
                    d -= 1
                elif u.type not in (NAME, NUMBER) and u.string not in ('.', '*', '&', '[', ']', ':', ',', '**'):
                    ok = False
                    break
                ty.append(u)
                j += 1
            if ok and j < n and ty:
                for s in ("_CyCast", "(", repr(join(ty)), ")", "**"):
                    out.append(Fake(NAME if s[0] not in '(*)' else OP, s))
                i = j + 1
                continue
        if t.string == '&' and not value_before:
            # address-of the following postfix expression
            out.append(Fake(NAME, '_addr'))
            out.append(Fake(OP, '**'))
            i += 1
            continue
        if t.string == 'new' and t.type == NAME and i + 1 < n and toks[i + 1].type == NAME:
            i += 1
            continue
        if t.string == 'NULL' and t.type == NAME:
            out.append(Fake(NAME, 'None'))
            i += 1
            continue
        if t.string == '?' :
            i += 1
            continue
        out.append(t)
        i += 1
    return out


def is_ident(t):
    return t.type == NAME


def parse_arg(toks):
    """-> (python text, name, type or None)"""
    if toks[0].string in ('*', '**', '/'):
        return join(toks), None, None
    # split default
    d, eq = 0, None
    for i, t in enumerate(toks):
        if t.string in OPEN:
            d += 1
        elif t.string in CLOSE:
            d -= 1
        elif t.string == '=' and d == 0:
            eq = i
            break
    head = toks if eq is None else toks[:eq]
    default = None if eq is None else toks[eq + 1:]
    ann = None
    for i, t in enumerate(head):
        if t.string == ':' and i > 0 and all(u.string not in OPEN for u in head[:i]):
            ann = i
            break
    if ann is not None:
        name, ty = head[ann - 1].string, None
    else:
        head = [t for t in head]
        # trailing 'not None' / 'or None'
        while len(head) >= 2 and head[-1].string == 'None' and head[-2].string in ('not', 'or'):
            head = head[:-2]
        name = head[-1].string
        ty = join(head[:-1]) if len(head) > 1 else None
    text = name + ('' if default is None else '=' + join(expr(default)))
    return text, name, ty


def func_header(toks, kind):
    """toks of 'cdef T name(args) except +:' -> (ret, name, args, inline body) or None"""
    # first top-level '(' preceded by NAME
    d = 0
    for i, t in enumerate(toks):
        if t.string == '=' and d == 0:
            return None
        if t.string == '(' and d == 0 and i > 0 and toks[i - 1].type == NAME:
            depth = 0
            for j in range(i, len(toks)):
                if toks[j].string in OPEN:
                    depth += 1
                elif toks[j].string in CLOSE:
                    depth -= 1
                    if depth == 0:
                        break
            rest = toks[j + 1:]
            colon = [k for k, u in enumerate(rest) if u.string == ':']
            if not colon:
                return None
            ret = join(toks[:i - 1]) or None
            body = rest[colon[-1] + 1:] if rest[-1].string != ':' else []
            return ret, toks[i - 1].string, toks[i + 1:j], body
        if t.string in '[{':
            d += 1
        elif t.string in ']}':
            d -= 1
    return None


class Decython(object):
    def __init__(self, src, bases=None):
        self.lines = logical_lines(src)
        self.bases = bases or {}
        self.out = []

    def emit(self, indent, text):
        self.out.append('    ' * indent + text)

    def skip_block(self, i):
        """index after the block nested under line i"""
        base = self.lines[i].indent
        j = i + 1
        while j < len(self.lines) and self.lines[j].indent > base:
            j += 1
        return j

    def func(self, ln, toks, kind):
        h = func_header(toks, kind)
        if h is None:
            return False
        ret, name, args, body = h
        texts, types = [], {}
        for a in split_top(args):
            text, nm, ty = parse_arg(a)
            texts.append(text)
            if ty and ty != 'object':
                types[nm] = ty
        if kind != 'def' and ret:
            for w in ('inline ', 'public ', 'api '):
                ret = ret.replace(w, '')
        if kind == 'def':
            ret = None
        self.emit(ln.indent, '@_cyargs(%r, %r)' % (types, ret))
        self.emit(ln.indent, 'def %s(%s):%s' % (name, ', '.join(texts),
                                              ' ' + join(expr(body)) if body else ''))
        return True

    def decl(self, ln, toks, indent=None):
        """cdef variable declaration(s)"""
        indent = ln.indent if indent is None else indent
        parts = split_top(toks)
        # type = everything up to the first declared name
        first = parts[0]
        d, eq = 0, None
        for k, t in enumerate(first):
            if t.string in OPEN:
                d += 1
            elif t.string in CLOSE:
                d -= 1
            elif t.string == '=' and d == 0:
                eq = k
                break
        head = first if eq is None else first[:eq]
        # array declarators:  double a[9]
        name_i = len(head) - 1
        arr = ''
        if head[name_i].string == ']':
            dd = 0
            while True:
                if head[name_i].string == ']':
                    dd += 1
                elif head[name_i].string == '[':
                    dd -= 1
                    if dd == 0:
                        break
                name_i -= 1
            if name_i - 1 >= 1 and head[name_i - 1].type == NAME and name_i >= 2:
                arr = '[]'
                name_i -= 1
        ty = join(head[:name_i]).replace('public ', '').replace('readonly ', '')
        ty0 = ty.rstrip('*& ')
        names = []
        for q, p in enumerate(parts):
            if q == 0:
                p = first[name_i:]
            eqk = None
            for k, t in enumerate(p):
                if t.string == '=':
                    eqk = k
                    break
            nm = [t for t in (p if eqk is None else p[:eqk]) if t.type == NAME]
            nm = nm[0].string
            tq = ty if q == 0 else ty0
            if eqk is None:
                self.emit(indent, '%s = _cydecl(%r)' % (nm, tq + arr))
            else:
                self.emit(indent, '%s = _cyv(%r, %s)' % (nm, tq, join(expr(p[eqk + 1:]))))

    def extern(self, i, j):
        """declarations of a `cdef extern` block inside a .pyx file"""
        L = self.lines
        head = [x.string for x in L[i].toks]
        ns = head[head.index('namespace') + 1].strip('"\'') + '::' if 'namespace' in head else ''
        ind = L[i].indent
        k = i + 1
        while k < j:
            w = [x.string for x in L[k].toks]
            e = self.skip_block(k)
            if w[0] in ('cdef', 'cpdef') and w[1] == 'enum':
                names = [x for q in range(k + 1, e) for x in [y.string for y in L[q].toks] if re.match(r'[A-Za-z_]\w*$', x)]
                self.emit(ind, '%s = _cyenum(%r, %r)' % (w[-2], ns + w[-2], names))
            elif 'struct' in w[:2] and w[-1] == ':':
                self.emit(ind, '_cystruct(%r)' % (ns + w[-2]))
            elif w[0] == 'ctypedef' and w[-1] != ':':
                self.emit(ind, '%s = _ctypedef(%r, %r)' % (w[-1], w[-1], join(L[k].toks[1:-1])))
            elif 'cppclass' not in w and '(' in w:
                f = w[w.index('(') - 1]
                self.emit(ind, '%s = _cyfun(%r)' % (f, ns + f))
            k = e

    def run(self):
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            t = ln.toks
            s0 = t[0].string
            if s0 == 'cimport':
                self.emit(ln.indent, 'pass')
            elif s0 == 'from' and any(x.string == 'cimport' and x.type == NAME for x in t):
                k = [x.string for x in t].index('cimport')
                mod = ''.join(x.string for x in t[1:k])
                names = [x for x in t[k + 1:] if x.string not in '()']
                for p in split_top(names):
                    asn = p[-1].string
                    self.emit(ln.indent, '%s = _cimport(%r, %r)' % (asn, mod, p[0].string))
            elif s0 == 'ctypedef':
                if any(x.string in ('struct', 'union', 'enum', 'fused') for x in t):
                    i = self.skip_block(i)
                    continue
                nm = t[-1].string
                self.emit(ln.indent, '%s = _ctypedef(%r, %r)' % (nm, nm, join(t[1:-1])))
            elif s0 == 'include':
                self.emit(ln.indent, 'pass')
            elif s0 in ('cdef', 'cpdef') and len(t) > 1:
                s1 = t[1].string
                if s1 == 'extern' or s1 in ('struct', 'enum', 'union') or s1 == 'cppclass':
                    self.emit(ln.indent, 'pass')
                    j = self.skip_block(i)
                    if s1 == 'extern':
                        self.extern(i, j)
                    i = j
                    continue
                if s1 == 'class':
                    if t[2].string in self.bases and t[3].string == ':':
                        self.emit(ln.indent, 'class %s(%s):' % (t[2].string, self.bases[t[2].string]))
                    else:
                        self.emit(ln.indent, join(t[1:]))
                elif s1 == ':':
                    j = self.skip_block(i)
                    for q in range(i + 1, j):
                        self.decl(L[q], L[q].toks, ln.indent)
                    i = j
                    continue
                elif not self.func(ln, t[1:], s0):
                    # attribute / variable / forward declaration
                    if t[-1].string == ')' and not any(x.string == '=' for x in t):
                        self.emit(ln.indent, 'pass')      # forward declaration
                    else:
                        self.decl(ln, t[1:])
            elif s0 == 'def':
                if not self.func(ln, t[1:], 'def'):
                    self.emit(ln.indent, join(expr(t)))
            elif s0 == 'with' and len(t) > 1 and t[1].string in ('nogil', 'gil'):
                self.emit(ln.indent, 'if True:')
            elif s0 == 'del' and not any(x.string == '[' for x in t):
                self.emit(ln.indent, 'pass')            # frees a C++ object
            elif s0 == 'for' and any(x.string == 'from' for x in t):
                raise SyntaxError('for-from loop')
            else:
                self.emit(ln.indent, join(expr(t)))
            i += 1
        return '\n'.join(self.out) + '\n'


class TypedLocals(ast.NodeTransformer):
    """re-coerce every assignment to a C-typed local, and C integer division"""

    INTS = {'int', 'size_t', 'long', 'unsigned', 'short', 'Py_ssize_t', 'unsigned int', 'long long',
            'Uint8', 'Uint16', 'uint32_t', 'int32_t', 'np.int32_t', 'np.uint8_t', 'char',
            'unsigned char', 'np.int64_t', 'np.uint32_t', 'np.uint16_t', 'unsigned long'}

    def visit_FunctionDef(self, node):
        types = {}
        for d in node.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == '_cyargs':
                try:
                    types.update(ast.literal_eval(d.args[0]))
                except Exception:
                    pass
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                    getattr(n.value.func, 'id', '') in ('_cyv', '_cydecl') and \
                    isinstance(n.targets[0], ast.Name):
                types[n.targets[0].id] = n.value.args[0].value
        old = getattr(self, 'types', {})
        self.types = types
        node.body = [self.visit(b) for b in node.body]
        self.types = old
        return node

    def _wrap(self, name, value):
        return ast.Call(func=ast.Name('_cyv', ast.Load()),
                        args=[ast.Constant(self.types[name]), value], keywords=[])

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in getattr(self, 'types', {}) and not (
                isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', '') in ('_cyv', '_cydecl')):
            node.value = self._wrap(node.targets[0].id, node.value)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and node.target.id in getattr(self, 'types', {}):
            return ast.Assign(targets=[ast.Name(node.target.id, ast.Store())],
                              value=self._wrap(node.target.id, ast.BinOp(
                                  ast.Name(node.target.id, ast.Load()), node.op, node.value)))
        return node

    def cint(self, n):
        if isinstance(n, ast.Constant):
            return isinstance(n.value, int) and not isinstance(n.value, bool)
        if isinstance(n, ast.Name):
            return getattr(self, 'types', {}).get(n.id) in self.INTS
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv)):
            return self.cint(n.left) and self.cint(n.right)
        if isinstance(n, ast.UnaryOp):
            return self.cint(n.operand)
        return False

    def visit_BinOp(self, node):
        c = isinstance(node.op, ast.Div) and self.cint(node.left) and self.cint(node.right)
        self.generic_visit(node)
        if c:
            node.op = ast.FloorDiv()
        return node


def translate(src, filename='<pyx>', bases=None):
    py = Decython(src, bases).run()
    tree = ast.parse(py, filename)
    tree = TypedLocals().visit(tree)
    ast.fix_missing_locations(tree)
    return tree, py
