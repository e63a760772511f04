"""Symbolic values and the path explorer.

The code under test runs in the ordinary Python interpreter; its inputs are
`Sym` / `SymBool` proxies over z3 terms.  Numbers are mathematical integers and
reals.  A branch on a symbolic condition forks: the explorer re-executes the
harness once per feasible decision string, so every feasible path within the
bounds is visited, and each assertion is a solver query over the path condition.
"""
import math
import os
import re
import subprocess
import time
from fractions import Fraction

import z3

INF = float('inf')


class EngineStop(BaseException):
    """Control-flow exceptions of the engine (never catchable by `except Exception`)."""


class PathInfeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class Inconclusive(EngineStop):
    pass


class CexFound(EngineStop):
    def __init__(self, label, model, info):
        self.label, self.model, self.info = label, model, info
        EngineStop.__init__(self, label)


CTX = None     # the active symbolic context


def ctx():
    return CTX


# --------------------------------------------------------------------------
# lifting
# --------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _q(f):
    """exact rational z3 value of a python number"""
    if isinstance(f, float):
        fr = Fraction(f)
    else:
        fr = Fraction(f)
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 \
        else z3.RealVal(fr.numerator)


def conc_num(x):
    """x as a plain python number when it is concrete, else None"""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, float, Fraction)):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return None


def lift(x):
    """-> z3 arithmetic term, or None if x cannot be a finite number"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    c = conc_num(x)
    if c is None:
        if type(x).__name__ == 'ndarray' or hasattr(x, 'shape') and getattr(x, 'shape', None) == ():
            return lift(x.item() if not hasattr(x, 'ldt') else x[()])
        return None
    if isinstance(c, int):
        return z3.IntVal(c)
    if isinstance(c, float) and (math.isinf(c) or math.isnan(c)):
        return None
    return _q(c)


def real(e):
    if e.sort() != z3.IntSort():
        return e
    return z3.RealVal(e.as_long()) if z3.is_int_value(e) else z3.ToReal(e)


def _coerce(a, b):
    if a.sort() != b.sort():
        return real(a), real(b)
    return a, b


def numval(e):
    """python number of a z3 numeral term, or None"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def wrapnum(e, npy=False):
    return Sym(e, npy)


def wrapbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------

def boolterm(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return x.e != 0
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ in ('bool_', 'bool'):
            return wrapbool(z3.simplify(z3.And(self.e, boolterm(o))))
        if hasattr(o, 'shape') and o.shape != ():
            return NotImplemented
        return int_(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, 'shape') and o.shape != ():
            return NotImplemented
        return wrapbool(z3.simplify(z3.Or(self.e, boolterm(o))))
    __ror__ = __or__

    def __xor__(self, o):
        return wrapbool(z3.simplify(z3.Xor(self.e, boolterm(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return wrapbool(z3.simplify(z3.Not(self.e)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ('bool_', 'bool'):
            return wrapbool(z3.simplify(self.e == boolterm(o)))
        if conc_num(o) is not None or isinstance(o, Sym):
            return self._num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        raise Unsupported('hash of a symbolic boolean')

    def _num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __truediv__(self, o): return self._num() / o
    def __neg__(self): return -self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __int__(self): return CTX.concretize(self._num().e)
    def __index__(self): return CTX.concretize(self._num().e)
    def __float__(self): return float(CTX.concretize(self._num().e))

    def item(self): return self
    def __repr__(self): return 'True' if bool(self) else 'False'
    __str__ = __repr__
    def __format__(self, spec): return format(bool(self), spec)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    ndim = 0
    shape = ()

    def all(self, *a, **k): return self
    def any(self, *a, **k): return self


def int_(b):
    return b._num() if isinstance(b, SymBool) else b


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------

def _isnpy(x):
    return isinstance(x, Sym) and x.npy or type(x).__module__ == 'numpy'


class Sym(object):
    """symbolic integer or real (by the sort of .e); npy: came out of a numpy array"""
    __slots__ = ('e', 'npy')
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e, npy=False):
        self.e = e
        self.npy = npy

    # -- helpers
    def isint(self):
        return self.e.sort() == z3.IntSort()

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('int64' if self.isint() else 'float64')

    def _arith(self, o, fn, swap=False):
        e2 = lift(o)
        if e2 is None:
            return None
        a, b = _coerce(self.e, e2)
        if swap:
            a, b = b, a
        return Sym(arith(fn, a, b), self.npy or _isnpy(o))

    @staticmethod
    def _arr(o):
        return hasattr(o, 'shape') and getattr(o, 'shape') != () and not isinstance(o, (Sym, SymBool))

    def _special(self, o):
        c = conc_num(o)
        return isinstance(c, float) and (math.isinf(c) or math.isnan(c))

    def __add__(self, o):
        if self._arr(o): return NotImplemented
        if self._special(o): return o
        r = self._arith(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    def __radd__(self, o):
        if self._arr(o): return NotImplemented
        if self._special(o): return o
        r = self._arith(o, lambda a, b: a + b, True)
        return NotImplemented if r is None else r

    def __sub__(self, o):
        if self._arr(o): return NotImplemented
        if self._special(o): return -o
        r = self._arith(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if self._arr(o): return NotImplemented
        if self._special(o): return o
        r = self._arith(o, lambda a, b: a - b, True)
        return NotImplemented if r is None else r

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        if self._arr(o): return NotImplemented
        if self._special(o):
            if math.isnan(o): return o
            if CTX.branch(self.e > 0): return o
            if CTX.branch(self.e < 0): return -o
            return float('nan')
        r = self._arith(o, lambda a, b: a * b)
        return NotImplemented if r is None else r

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        if self._arr(o): return NotImplemented
        if self._special(o): return self.__mul__(o)
        r = self._arith(o, lambda a, b: a * b, True)
        return NotImplemented if r is None else r

    def __truediv__(self, o):
        if self._arr(o): return NotImplemented
        if self._special(o): return 0.0 if math.isinf(o) else o
        if lift(o) is None: return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if self._arr(o): return NotImplemented
        if self._special(o):
            if math.isnan(o): return o
            return o if CTX.branch(self.e >= 0) else -o
        if lift(o) is None: return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        if self._arr(o): return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if self._arr(o): return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if self._arr(o): return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        if self._arr(o): return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o, m=None):
        if self._arr(o): return NotImplemented
        c = conc_num(o)
        if c is None:
            raise Unsupported('symbolic exponent')
        if c == 0.5:
            return sqrt(self, npy=True)
        if float(c) == int(c):
            n = int(c)
            if n >= 0:
                r = Sym(real(self.e) if isinstance(c, float) else self.e, self.npy)
                if n == 0:
                    return Sym(lift(1), self.npy)
                out = r
                for _ in range(n - 1):
                    out = out * r
                return out
            return divide(1.0, self ** (-n))
        raise Unsupported('exponent %r' % (o,))

    def __rpow__(self, o):
        if conc_num(o) is not None and self.isint():
            return conc_num(o) ** int(self)
        raise Unsupported('symbolic exponent')

    def __neg__(self):
        return Sym(simp(-self.e), self.npy)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(simp(z3.If(self.e >= 0, self.e, -self.e)), self.npy)

    # -- bit operations on integers, for constants only where exact
    def __and__(self, o):
        c = conc_num(o)
        if self.isint() and isinstance(c, int) and c >= 0 and (c & (c + 1)) == 0:
            return mod(self, c + 1)
        raise Unsupported('bitwise and')
    __rand__ = __and__

    def _bits(self, *a, **k):
        raise Unsupported('bit operation on a symbolic number')
    __or__ = __ror__ = __xor__ = __rxor__ = to_bytes = bit_length = _bits

    def __invert__(self): return -self - 1

    def __rshift__(self, o):
        return floordiv(self, 1 << conc_num(o))

    def __lshift__(self, o):
        c = conc_num(o)
        return self * (1 << (int(o) if c is None else c))

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    # -- comparisons
    def _cmp(self, o, fn, onspecial):
        if self._arr(o): return NotImplemented
        if o is None or isinstance(o, (str, bytes)):
            return NotImplemented
        if self._special(o):
            return False if math.isnan(o) else onspecial(o)
        e2 = lift(o)
        if e2 is None:
            return NotImplemented
        a, b = _coerce(self.e, e2)
        return wrapbool(z3.simplify(fn(a, b)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return False if r is NotImplemented and not self._arr(o) else r

    def __ne__(self, o):
        if self._special(o):
            return True
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        return True if r is NotImplemented and not self._arr(o) else r

    def __hash__(self):
        v = numval(z3.simplify(self.e))
        if v is not None:
            return hash(v)
        if CTX is not None and CTX.hash_ok:
            return 0
        if CTX is not None and self.isint():
            return hash(CTX.concretize(self.e))
        raise Unsupported('hash of a symbolic number')

    # -- conversions
    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __index__(self):
        if not self.isint():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretize(self.e)

    def __int__(self):
        return CTX.concretize(trunc(self).e)

    def __float__(self):
        v = numval(z3.simplify(self.e))
        if v is not None:
            return float(v)
        raise Unsupported('float() of a symbolic number by C code')

    def __trunc__(self): return trunc(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)

    def __round__(self, nd=None):
        if nd:
            raise Unsupported('round to digits')
        return round_half_even(self)

    # numpy object-loop hooks
    def sqrt(self): return sqrt(self, npy=True)
    def floor(self): return tofloat(floor(self))
    def ceil(self): return tofloat(ceil(self))
    def conjugate(self): return self
    def item(self): return self
    def astype(self, dt, **k):
        from . import snp
        return snp.cast(self, snp.dt(dt))
    def copy(self): return self
    def tolist(self): return self
    def flatten(self):
        from . import snp
        return snp.mk([self])
    @property
    def T(self): return self
    @property
    def real(self): return self
    def is_integer(self):
        return wrapbool(z3.simplify(z3.IsInt(real(self.e))))
    def squeeze(self): return self
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return text_token(self)
    def __str__(self): return text_token(self)
    def __format__(self, spec): return text_format(self, spec)


def text_token(v, digits=None, relative=True):
    """printed form of a symbolic number; `digits` decimals lose precision: the number read back is
    any value within half a unit of the last printed digit"""
    c = CTX
    if c is None:
        return '<sym>'
    if digits is not None and not v.isint():
        y = c.fresh('txt')
        half = _q(Fraction(1, 2 * 10 ** digits) if digits >= 0 else Fraction(10 ** -digits, 2))
        x = v.e
        if relative:
            m = z3.If(x > 1, x, z3.If(x < -1, -x, z3.RealVal(1)))
            half = half * m
        c.add(y - x <= half)
        c.add(x - y <= half)
        v = Sym(y, v.npy)
    tab = c.user.setdefault('text', [])
    tab.append(v)
    return '<%d>' % (len(tab) - 1)


def text_format(v, spec):
    m = re.match(r'^[^.a-zA-Z%]*(?:\.(\d+))?([a-zA-Z%]?)$', spec)
    if not m:
        raise Unsupported('format ' + spec)
    prec, ty = m.groups()
    if ty == 'd' and not v.isint():
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    if ty in ('', 'r', 's', 'd') and prec is None:
        return text_token(v)
    if ty in ('f', 'F'):
        return text_token(v, int(prec or 6), relative=False)
    if ty in ('e', 'E'):
        return text_token(v, int(prec or 6))
    if ty in ('g', 'G', 'n', ''):
        return text_token(v, max(int(prec or 6) - 1, 0))
    raise Unsupported('format ' + spec)


def simp(e):
    if z3.is_app(e) and e.num_args() and all(
            z3.is_rational_value(c) or z3.is_int_value(c) for c in e.children()):
        return z3.simplify(e)
    # cheap unit laws keep terms small
    if z3.is_mul(e) and e.num_args() == 2:
        a, b = e.children()
        for x, y in ((a, b), (b, a)):
            v = numval(x)
            if v is not None:
                if v == 0:
                    return x
                if v == 1:
                    return y
    elif z3.is_add(e) and e.num_args() == 2:
        a, b = e.children()
        if numval(a) == 0:
            return b
        if numval(b) == 0:
            return a
    elif z3.is_sub(e) and e.num_args() == 2:
        a, b = e.children()
        if numval(b) == 0:
            return a
    return e


def as_int(e):
    """the integer term an (evidently) integer-valued real term converts, or None"""
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k == z3.Z3_OP_ANUM:
        v = numval(e)
        if v is not None and v == int(v):
            return z3.IntVal(int(v))
    return None


def arith(fn, a, b):
    if a.sort() == z3.RealSort():
        ia, ib = as_int(a), as_int(b)
        if ia is not None and ib is not None:
            r = arith(fn, ia, ib)
            v = numval(r)
            return _q(v) if v is not None else z3.ToReal(r)
    elif CTX is not None and CTX.ex.linearize and numval(a) is None and numval(b) is None:
        r = fn(a, b)
        if z3.is_mul(r):
            for x, y in ((a, b), (b, a)):
                n = CTX.small_range(x)
                if n is not None:
                    return z3.simplify(cases(x, n, lambda v: y * v))
        return simp(r)
    return simp(fn(a, b))


def cases(x, n, f):
    """f(x) by cases over the proven range lo..hi of the integer term x"""
    lo, hi = n
    r = f(hi)
    for v in range(hi - 1, lo - 1, -1):
        r = z3.If(x == v, f(v), r)
    return r


def tofloat(x):
    if isinstance(x, SymBool):
        x = x._num()
    if isinstance(x, Sym):
        return Sym(simp_toreal(x.e), x.npy)
    return float(x)


def simp_toreal(e):
    if e.sort() == z3.RealSort():
        return e
    v = numval(e)
    return _q(v) if v is not None else z3.ToReal(e)


def divide(a, b):
    npy = _isnpy(a) or _isnpy(b)
    ea, eb = real(lift(a)), real(lift(b))
    vb = numval(eb if numval(eb) is not None else z3.simplify(eb))
    if vb is not None:
        if vb == 0:
            iszero = True
        else:
            return Sym(simp(ea / eb if False else ea * _q(Fraction(1) / Fraction(vb))), npy)
    else:
        iszero = CTX.branch(eb == 0)
    if iszero:
        if not npy:
            raise ZeroDivisionError('float division by zero')
        if CTX.branch(ea > 0):
            return INF
        if CTX.branch(ea < 0):
            return -INF
        return float('nan')
    va = numval(ea)
    if va == 0:
        return Sym(_q(0), npy)
    # q*b == a : a definitional constraint, better for nlsat than '/'
    return Sym(CTX.define_div(ea, eb), npy)


def floordiv(a, b):
    npy = _isnpy(a) or _isnpy(b)
    ea, eb = _coerce(lift(a), lift(b))
    vb = numval(eb)
    if vb is None:
        if CTX.branch(eb == 0):
            if npy:
                return Sym(z3.IntVal(0), npy) if ea.sort() == z3.IntSort() else float('nan')
            raise ZeroDivisionError('integer division or modulo by zero')
    elif vb == 0:
        if npy:
            return Sym(z3.IntVal(0), npy) if ea.sort() == z3.IntSort() else float('nan')
        raise ZeroDivisionError('integer division or modulo by zero')
    if ea.sort() == z3.IntSort():
        if vb is not None and vb > 0:
            return Sym(ea / eb, npy)
        if vb is None and CTX.ex.linearize:
            n = CTX.small_range(eb)
            if n is not None and n[0] > 0:
                return Sym(z3.simplify(cases(eb, n, lambda v: ea / v)), npy)
        pos = True if vb is not None and vb > 0 else CTX.branch(eb > 0)
        if pos:
            return Sym(ea / eb, npy)
        return Sym((-ea) / (-eb), npy)
    ia, ib = as_int(ea), as_int(eb)
    if ia is not None and ib is not None:
        r = floordiv(Sym(ia), Sym(ib))
        return Sym(simp_toreal(r.e), npy)
    q = divide(Sym(ea), Sym(eb))
    return tofloat(floor(Sym(q.e, npy)))


def mod(a, b):
    npy = _isnpy(a) or _isnpy(b)
    ea, eb = _coerce(lift(a), lift(b))
    vb = numval(eb)
    if ea.sort() == z3.IntSort() and vb is not None and vb > 0:
        return Sym(ea % eb, npy)
    if vb == 0 or (vb is None and CTX.branch(eb == 0)):
        if npy:
            return 0 if ea.sort() == z3.IntSort() else float('nan')
        raise ZeroDivisionError('integer division or modulo by zero')
    if ea.sort() == z3.IntSort():
        if CTX.ex.linearize:
            n = CTX.small_range(eb)
            if n is not None and n[0] > 0:
                return Sym(z3.simplify(cases(eb, n, lambda v: ea % v)), npy)
        if CTX.branch(eb > 0):
            return Sym(ea % eb, npy)
        return -Sym((-ea) % (-eb), npy)
    ia, ib = as_int(ea), as_int(eb)
    if ia is not None and ib is not None:
        r = mod(Sym(ia), Sym(ib))
        return Sym(simp_toreal(r.e), npy)
    return Sym(ea, npy) - floordiv(Sym(ea), Sym(eb)) * Sym(eb)


def floor(x):
    if isinstance(x, SymBool):
        return x._num()
    if not isinstance(x, Sym):
        return math.floor(x)
    if x.isint():
        return x
    v = numval(x.e)
    if v is not None:
        return Sym(z3.IntVal(math.floor(v)), x.npy)
    return Sym(z3.ToInt(x.e), x.npy)


def ceil(x):
    if not isinstance(x, Sym):
        return math.ceil(x)
    return -floor(-x)


def trunc(x):
    if isinstance(x, SymBool):
        return x._num()
    if not isinstance(x, Sym):
        return math.trunc(x)
    if x.isint():
        return x
    v = numval(x.e)
    if v is not None:
        return Sym(z3.IntVal(math.trunc(v)), x.npy)
    return Sym(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)), x.npy)


def round_half_even(x):
    if not isinstance(x, Sym):
        return round(x)
    if x.isint():
        return x
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    half = _q(Fraction(1, 2))
    return Sym(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))), x.npy)


def sqrt(x, npy=False):
    if not is_sym(x):
        if x < 0:
            if npy:
                return float('nan')
            raise ValueError('math domain error')
        r = math.sqrt(x)
        if CTX is None or not CTX.ex.roots or r in (0.0, math.inf) or not math.isfinite(r) or \
                Fraction(r) ** 2 == Fraction(x):
            return r
    e = CTX.normal(real(lift(x)))
    v = numval(z3.simplify(e))
    if v is not None:
        if v < 0:
            if npy:
                return float('nan')
            raise ValueError('math domain error')
        # exact rational roots stay exact
        n, d = math.isqrt(v.numerator) if isinstance(v, Fraction) else math.isqrt(v), \
            math.isqrt(v.denominator) if isinstance(v, Fraction) else 1
        if Fraction(n * n, d * d) == v:
            return Sym(_q(Fraction(n, d)), npy)
    elif not CTX.known_nonneg(e) and CTX.branch(e < 0):
        if npy:
            return float('nan')
        raise ValueError('math domain error')
    return Sym(CTX.define_sqrt(e), npy)


def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrapbool(z3.simplify(z3.If(c.e, boolterm(a), boolterm(b))))
    ea, eb = lift(a), lift(b)
    if ea is None or eb is None:
        return a if c else b
    ea, eb = _coerce(ea, eb)
    return Sym(z3.If(c.e, ea, eb), _isnpy(a) or _isnpy(b))


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if b > a else a
    t = b if is_sym(b) else Sym(lift(b))
    if CTX.ex.roots:
        return b if bool(t > a) else a
    return ite(t > a, b, a)


def derivative(v, x):
    """partial derivative of a polynomial (with square roots) by the input x"""
    rad = CTX.user.get('radicand', {})
    x = x.e
    memo = {}

    def d(e):
        i = e.get_id()
        if i not in memo:
            memo[i] = (e, d1(e))
        return memo[i][1]

    def d1(e):
        if numval(e) is not None:
            return z3.RealVal(0)
        if e.eq(x):
            return z3.RealVal(1)
        ch = e.children()
        if not ch:
            if e.get_id() in rad:
                return d(rad[e.get_id()][1]) / (2 * e)
            return z3.RealVal(0)
        if z3.is_add(e):
            return z3.Sum([d(k) for k in ch])
        if z3.is_sub(e):
            return d(ch[0]) - z3.Sum([d(k) for k in ch[1:]])
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            return -d(ch[0])
        if z3.is_mul(e):
            return z3.Sum([z3.Product([d(k) if j == i else k for j, k in enumerate(ch)]) for i in range(len(ch))])
        if z3.is_div(e) and numval(ch[1]) is not None:
            return d(ch[0]) / ch[1]
        if e.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(ch[0], d(ch[1]), d(ch[2]))
        if e.decl().kind() == z3.Z3_OP_POWER and numval(ch[1]) is not None:
            return ch[1] * ch[0] ** (numval(ch[1]) - 1) * d(ch[0])
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return z3.RealVal(0)
        raise Unsupported('derivative of %s' % e.decl())
    return Sym(z3.simplify(d(v.e))) if isinstance(v, Sym) else 0.0


def round_single(v):
    """the single precision number nearest to v: any within the unit roundoff (no underflow)"""
    if v.isint():
        return v
    x = z3.simplify(v.e)
    tab = CTX.user.setdefault('single', {})
    k = x.get_id()
    if k not in tab:
        y = CTX.fresh('f32')
        d = y - x
        m = z3.If(x >= 0, x, -x) * _q(Fraction(1, 1 << 24))
        CTX.add(d <= m)
        CTX.add(-d <= m)
        tab[k] = (x, y)
        tab[y.get_id()] = (y, y)
    return Sym(tab[k][1], v.npy)


def _square(e):
    """(c, t) when e is c * t^2 for a number c >= 0 and a constant t"""
    co, ts = Fraction(1), []
    todo = [e]
    while todo:
        ch = todo.pop()
        v = numval(ch)
        if z3.is_mul(ch):
            todo += ch.children()
        elif v is not None:
            co *= v
        elif z3.is_app(ch) and ch.decl().kind() == z3.Z3_OP_POWER and numval(ch.arg(1)) == 2:
            ts += [ch.arg(0)] * 2
        else:
            ts.append(ch)
    if len(ts) == 2 and ts[0].eq(ts[1]) and z3.is_const(ts[0]) and co >= 0:
        return co, ts[0]


def _square_sum(e, limit=12):
    """(c, t) when the expanded polynomial e is c * t^2 for a linear form t of constants"""
    q = {}
    if not z3.is_add(e) or e.num_args() > limit:
        return None
    for m in e.children():
        co, ts = Fraction(1), []
        todo = [m]
        while todo:
            ch = todo.pop()
            v = numval(ch)
            if v is not None:
                co *= v
            elif z3.is_mul(ch):
                todo += ch.children()
            elif z3.is_app(ch) and ch.decl().kind() == z3.Z3_OP_POWER and numval(ch.arg(1)) == 2:
                ts += [ch.arg(0)] * 2
            elif z3.is_const(ch):
                ts.append(ch)
            else:
                return None
        if len(ts) != 2:
            return None
        ts.sort(key=lambda t: t.get_id())
        q[ts[0].get_id(), ts[1].get_id()] = (co, ts[0], ts[1])
    for (a, b), (co, x, y) in q.items():
        if a == b and co > 0:
            t = x
            for (i, j), (k, u, v) in q.items():
                if i != j and a in (i, j):
                    t = t + _q(k / (2 * co)) * (v if i == a else u)
            r = z3.simplify(e - _q(co) * t * t, som=True)
            return (co, z3.simplify(t)) if numval(r) == 0 else None
    return None


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return b if b < a else a
    t = b if is_sym(b) else Sym(lift(b))
    if CTX.ex.roots:
        return b if bool(t < a) else a
    return ite(t < a, b, a)


def sand(xs):
    ts = [boolterm(x) for x in xs]
    return wrapbool(z3.simplify(z3.And(ts))) if ts else True


def sor(xs):
    ts = [boolterm(x) for x in xs]
    return wrapbool(z3.simplify(z3.Or(ts))) if ts else False


def snot(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------

class Stats(object):
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.checks = {}      # label -> times reached with a satisfiable path
        self.unsat = 0
        self.maxpath = 0
        self.samples = []
        self.witnesses = []
        self.engines = {}


class SymCtx(object):
    """one path of one harness"""
    concrete = False

    def __init__(self, explorer, trace):
        self.ex = explorer
        self.trace = list(trace)
        self.pos = 0
        self.pc = []
        self.solver = None
        self.inputs = {}          # name -> z3 const
        self.order = []
        self.defs = {}
        self.trig = {}
        self.normaliser = None
        self.opaque = {}
        self.aux = 0
        self.stopped = None
        self.hash_ok = False
        self.nonneg = set()
        self.keep = []
        self.hints = []
        self.oplog = []
        self.user = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.branch_timeout)
        if explorer.seed:
            self.solver.set('random_seed', explorer.seed)

    # -- inputs ------------------------------------------------------------
    def _new(self, name, const):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = const
        self.order.append(name)
        return const

    def real(self, name, lo=None, hi=None):
        c = self._new(name, z3.Real(name))
        s = Sym(c)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def int(self, name, lo=None, hi=None):
        c = self._new(name, z3.Int(name))
        s = Sym(c)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def bool(self, name):
        return SymBool(self._new(name, z3.Bool(name)))

    def choice(self, name, options):
        """a symbolic pick from a concrete list (forks)"""
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize(i.e)]

    def fresh(self, prefix, sort='R'):
        self.aux += 1
        n = '%s!%d' % (prefix, self.aux)
        return z3.Real(n) if sort == 'R' else z3.Int(n)

    # -- path condition ----------------------------------------------------
    def add(self, term):
        self.pc.append(term)
        self.solver.add(term)

    def assume(self, cond):
        t = boolterm(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self.stop(PathInfeasible('assume'))
        self.add(t)

    def stop(self, exc):
        self.stopped = exc
        raise exc

    def _check(self, *extra):
        st = self.ex.stats
        t = time.time()
        st.queries += 1
        st.branch_queries += 1
        r = self.solver.check(*extra)
        st.solver_s += time.time() - t
        return r

    def branch(self, term):
        term = z3.simplify(self.normal_formula(z3.simplify(term)))
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            self.add(term if d else z3.Not(term))
            return d
        self.ex.tick()
        if self.ex.normal and refuted(self.pc + [term], 2000):
            rt, rf = z3.unsat, z3.sat
        elif self.ex.normal and refuted(self.pc + [z3.Not(term)], 2000):
            rt, rf = z3.sat, z3.unsat
        else:
            rt = self._check(term)
            rf = self._check(z3.Not(term)) if rt != z3.unsat else z3.sat
        if self.ex.roots:
            if rt == z3.unknown and engine('linear', self.pc + [term], 3000)[0] == 'unsat':
                rt = z3.unsat
            elif rf == z3.unknown and engine('linear', self.pc + [z3.Not(term)], 3000)[0] == 'unsat':
                rf = z3.unsat
        if rt == z3.unsat:
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            # an 'unknown' side is explored too: over-approximates the paths
            d = True
            self.ex.push(self.trace[:self.pos] + [False])
        self.trace.append(d)
        self.pos += 1
        self.add(term if d else z3.Not(term))
        return d

    def concretize(self, e):
        """fork over the values of an integer term"""
        e = z3.simplify(e)
        v = numval(e)
        if v is not None:
            return v
        n = 0
        while True:
            # the value tried must be a function of the decisions so far
            r = self._check()
            if r == z3.unsat:
                self.stop(PathInfeasible('concretize'))
            if r != z3.sat:
                self.stop(Inconclusive('cannot enumerate values of an index'))
            m = self.solver.model()
            # smallest feasible value first keeps re-execution deterministic
            val = self._least(e, m.eval(e, model_completion=True).as_long())
            if self.branch(e == val):
                return val
            n += 1
            if n > self.ex.max_values:
                self.stop(Inconclusive('index takes too many values'))

    def _least(self, e, v):
        key = (self.pos, 'least')
        memo = self.ex.least
        k = (tuple(self.trace[:self.pos]), e.sexpr())
        if k in memo:
            return memo[k]
        step = 1
        lo = None
        cur = v
        while True:
            r = self._check(e < cur)
            if r != z3.sat:
                break
            cur = self.solver.model().eval(e, model_completion=True).as_long()
            step += 1
            if step > 64:
                break
        memo[k] = cur
        return cur

    # -- definitional extensions -------------------------------------------
    def key(self, e):
        self.keep.append(e)
        return e.get_id()

    def define_div(self, a, b):
        a = z3.simplify(a, som=True) if False else a
        k = ('div', self.key(z3.simplify(a)), self.key(z3.simplify(b)))
        if k not in self.defs:
            q = self.fresh('q')
            self.defs[k] = q
            self.add(q * b == a)
        return self.defs[k]

    def small_range(self, e):
        """a proven range (lo, hi) of the integer term with at most ex.linearize values, or None"""
        e = z3.simplify(e)
        k = ('range', self.key(e))
        if k not in self.defs:
            K = self.ex.linearize
            res = None
            if self._check(z3.Or(e < 0, e > K)) == z3.unsat:
                lo, hi = 0, K
                while lo < hi and self._check(e == lo) == z3.unsat:
                    lo += 1
                while hi > lo and self._check(e == hi) == z3.unsat:
                    hi -= 1
                res = (lo, hi)
            self.defs[k] = res
        return self.defs[k]

    def square_rule(self, v, e):
        """v * v may be rewritten to e (which must be a fact of the path condition)"""
        if self.ex.normal:
            if self.normaliser is None:
                from . import polylin
                self.normaliser = polylin.Normal()
            self.normaliser.rule(v, e)

    def normal(self, e):
        return e if self.normaliser is None else self.normaliser(e)

    def normal_formula(self, t):
        if self.normaliser is None:
            return t
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            return t.decl()(*[self.normal_formula(c) for c in t.children()])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and \
                t.arg(0).sort() == z3.RealSort():
            d = self.normal(t.arg(0) - t.arg(1))
            z = z3.RealVal(0)
            return z3.simplify({z3.Z3_OP_EQ: d == z, z3.Z3_OP_LE: d <= z, z3.Z3_OP_LT: d < z,
                                z3.Z3_OP_GE: d >= z, z3.Z3_OP_GT: d > z}[k])
        return t

    def define_sqrt(self, e):
        e = self.normal(e)
        es = z3.simplify(e, som=True)
        k = ('sqrt', self.key(es))
        if k not in self.defs:
            if self.ex.roots:
                # radicands that are equal under the path condition share one root
                known = self.opaque.setdefault('roots', [(z3.RealVal(1), z3.RealVal(1))])
                for e2, s2 in known:
                    if self.prove_equal(e, e2):
                        self.defs[k] = s2
                        return s2
            elif True:
                m = _square(es) or self.ex.squares and _square_sum(es)
                if m:
                    co, t = m
                    r = float(co) ** 0.5
                    self.defs[k] = z3.simplify(_q(r) * (-t if self.branch(t < 0) else t))
                    return self.defs[k]
            s = self.fresh('sqrt')
            self.defs[k] = s
            self.user.setdefault('radicand', {})[s.get_id()] = (s, e)
            self.add(s >= 0)
            self.add(s * s == e)
            if self.ex.roots:
                known.append((e, s))
        return self.defs[k]

    def prove_equal(self, a, b, ms=3000):
        self.ex.stats.queries += 1
        t = time.time()
        r = engine('linear', self.pc + [a != b], ms)[0]
        if os.environ.get('SYMEX_ROOTS'): print('root', r, a, b)
        self.ex.stats.solver_s += time.time() - t
        return r == 'unsat'

    def known_nonneg(self, e):
        """syntactic sum of squares"""
        def sq(t):
            v = numval(t)
            if v is not None:
                return v >= 0
            if z3.is_mul(t):
                ch = list(t.children())
                ids = {}
                for c in ch:
                    v = numval(c)
                    if v is not None:
                        if v < 0:
                            return False
                        continue
                    ids[c.get_id()] = ids.get(c.get_id(), 0) + 1
                return all(n % 2 == 0 for n in ids.values())
            if t.decl().kind() == z3.Z3_OP_POWER:
                n = numval(t.arg(1))
                return n is not None and n % 2 == 0
            return False
        if z3.is_add(e):
            return all(self.known_nonneg(c) for c in e.children())
        return sq(e)

    # -- assertions ---------------------------------------------------------
    def check(self, cond, label, robust=None, info=None):
        """assert cond on this path; robust: a stronger violation to look for when replaying"""
        st = self.ex.stats
        t = boolterm(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        t = z3.simplify(self.normal_formula(z3.simplify(t)))
        self.ex.tick()
        if label not in st.checks:
            # vacuity witness: the assertion is reached by some input
            r = self.decide(z3.BoolVal(True))
            if r[0] == 'unsat':
                self.stop(PathInfeasible('check'))
            if r[0] == 'unknown':
                if not self.ex.witness_optional:
                    self.stop(Inconclusive('no reachability witness for ' + label))
                st.checks[label] = 0
            else:
                st.checks[label] = 0
                if len(st.samples) < 12:
                    st.samples.append({'label': label, 'input': self.values(r[1])})
        st.checks[label] += 1
        if z3.is_true(t):
            st.unsat += 1
            return
        r = self.decide(z3.Not(t))
        if r[0] == 'unsat':
            st.unsat += 1
            return
        if r[0] == 'unknown':
            if os.environ.get('SYMEX_SHOW'):
                print('\n'.join(str(x) for x in self.pc + [t]), flush=True)
            self.stop(Inconclusive('solver gave no answer for ' + label))
        models = [r[1]]
        cands = [self.values(r[1])]
        if robust is not None:
            rt = z3.simplify(boolterm(robust))
            if not z3.is_true(rt):
                r2 = self.ex.solve(self.pc + [z3.Not(rt)] + self.nice(), timeout=20000)
                if r2[0] != 'sat':
                    r2 = self.ex.solve(self.pc + [z3.Not(rt)], timeout=20000)
                if r2[0] == 'sat':
                    cands.insert(0, self.values(r2[1]))
        r3 = self.ex.solve(self.pc + [z3.Not(t)] + self.nice(), timeout=10000)
        if r3[0] == 'sat':
            cands.append(self.values(r3[1]))
        self.ex.cex(label, cands, info)

    def hint(self, *alternatives):
        """alternatives: lists of terms, each fixing some inputs to typical values (used only to find
        counterexamples faster, never to prove)"""
        self.hints.append([[boolterm(t) for t in a] for a in alternatives])

    def decide(self, neg):
        ex = self.ex
        extra = [] if z3.is_true(neg) else [neg]
        if not self.hints:
            return ex.solve(self.pc + extra)
        r = ex.solve(self.pc + extra, timeout=min(10000, ex.query_timeout))
        if r[0] != 'unknown':
            return r
        for i in range(max(len(h) for h in self.hints)):
            terms = [t for j, h in enumerate(self.hints) for t in h[(i + i * j + j) % len(h)]]
            r = ex.solve(self.pc + terms + extra, timeout=4000)
            if r[0] == 'sat':
                return r
        return ex.solve(self.pc + extra)

    def nice(self, bound=64):
        """keep counterexample inputs small"""
        out = []
        for n in self.order:
            c = self.inputs[n]
            if c.sort() in (z3.RealSort(), z3.IntSort()):
                out += [c <= bound, c >= -bound]
        return out

    def eq(self, a, b, label, tol=None):
        """assert numeric equality (within tol when given)"""
        ea, eb = lift(a), lift(b)
        if ea is None or eb is None:
            ca, cb = conc_num(a), conc_num(b)
            same = (ca == cb) or (isinstance(ca, float) and isinstance(cb, float)
                                  and math.isnan(ca) and math.isnan(cb))
            self.check(bool(same), label)
            return
        ea, eb = _coerce(ea, eb)
        if tol is None:
            t = ea == eb
        else:
            d = real(ea) - real(eb)
            t = z3.And(d <= _q(tol), d >= -_q(tol))
        d = real(ea) - real(eb)
        rob = z3.And(d <= _q(0.01), d >= -_q(0.01))
        if z3.is_true(z3.simplify(ea == eb)):
            t = z3.BoolVal(True)
        self.check(SymBool(t), label, robust=SymBool(rob))

    def le(self, a, b, label, tol=0):
        ea, eb = lift(a), lift(b)
        if ea is None or eb is None:
            self.check(bool(conc_num(a) <= conc_num(b)) if not (is_sym(a) or is_sym(b)) else a <= b, label)
            return
        t = real(ea) <= real(eb) + _q(tol)
        self.check(SymBool(t), label, robust=SymBool(real(ea) <= real(eb) + _q(0.01)))

    def values(self, model):
        out = {}
        for n in self.order:
            v = model.eval(self.inputs[n], model_completion=True)
            if z3.is_true(v) or z3.is_false(v):
                out[n] = bool(z3.is_true(v))
            elif z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
                out[n] = '%d/%d' % (fr.numerator, fr.denominator)
            elif z3.is_algebraic_value(v):
                a = v.approx(30)
                out[n] = '%d/%d' % (a.numerator_as_long(), a.denominator_as_long())
            else:
                out[n] = str(v)
        return out


PORTFOLIO = ['z3', 'linear', 'z3-arith2', 'nlsat', 'cvc5']


def abstract(terms):
    """the terms with every nonlinear subterm replaced by a variable (equal subterms share one)"""
    memo, keep, count = {}, [], [0]

    def var(e):
        count[0] += 1
        v = z3.Const('abs!%d' % count[0], e.sort())
        return v

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        keep.append(e)
        if not z3.is_app(e):
            r = e
        elif e.num_args() == 0:
            r = e
        else:
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(numval(c) is None for c in e.children()) > 1 or \
                    k in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or \
                    k == z3.Z3_OP_DIV and numval(e.arg(1)) is None:
                r = var(e)
            else:
                ch = [go(c) for c in e.children()]
                r = e.decl()(*ch)
        memo[i] = r
        return r
    out = [go(z3.simplify(t, som=True)) for t in terms]
    return out, count[0]


def refuted(terms, ms):
    """True when the terms contradict each other even with nonlinear subterms left open"""
    out, n = abstract(terms)
    if not n:
        return False
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(out)
    return s.check() == z3.unsat


def _has_int(t, seen):
    todo = [t]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if e.sort() == z3.IntSort():
            return True
        todo.extend(e.children())
    return False


class ModelFromText(object):
    """values read back from another solver, with the eval() the harness needs"""
    def __init__(self, vals):
        self.vals = vals

    def eval(self, c, model_completion=True):
        v = self.vals.get(c.decl().name())
        if v is not None:
            return v
        return {z3.IntSort(): z3.IntVal(0), z3.RealSort(): z3.RealVal(0)}.get(c.sort(), z3.BoolVal(False))


def _sexp(txt):
    toks = re.findall(r'\|[^|]*\||[()]|[^\s()]+', txt)
    out, stack = [], []
    cur = out
    for t in toks:
        if t == '(':
            n = []
            cur.append(n)
            stack.append(cur)
            cur = n
        elif t == ')':
            cur = stack.pop()
        else:
            cur.append(t)
    return out


def _numeral(x):
    if isinstance(x, str):
        return Fraction(x)
    if x[0] == '-' and len(x) == 2:
        return -_numeral(x[1])
    if x[0] == '/':
        return _numeral(x[1]) / _numeral(x[2])
    raise ValueError('not a numeral')


def cvc5_engine(terms, ms, seed):
    s = z3.Solver()
    s.add(*terms)
    consts = {}
    seen = set()
    todo = list(terms)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            consts[e.decl().name()] = e
        todo.extend(e.children())
    txt = '(set-option :produce-models true)\n(set-logic ALL)\n' + s.to_smt2()
    txt = txt.replace('(set-info :status unknown)', '')
    if consts:
        txt += '(get-value (%s))\n' % ' '.join(c.sexpr() for c in consts.values())
    try:
        r = subprocess.run(['cvc5', '-q', '--tlimit=%d' % max(1, int(ms)), '-'], input=txt.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000.0 + 20)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown', None
    out = r.stdout.decode()
    first = out.strip().split('\n')[0] if out.strip() else ''
    if first == 'unsat':
        return 'unsat', None
    if first == 'sat':
        try:
            vals = {}
            for n, v in _sexp(out[out.index('sat') + 3:])[0]:
                n = n.strip('|')
                if n not in consts:
                    continue
                if v in ('true', 'false'):
                    vals[n] = z3.BoolVal(v == 'true')
                else:
                    f = _numeral(v)
                    vals[n] = z3.IntVal(int(f)) if consts[n].sort() == z3.IntSort() else _q(f)
            return 'sat', ModelFromText(vals)
        except Exception:
            return 'unknown', None
    return 'unknown', None


def engine(name, terms, ms, seed=0):
    """one solver run -> (sat|unsat|unknown, model)"""
    try:
        if name == 'linear':
            from . import polylin
            return polylin.solve(terms, ms)
        if name == 'cvc5':
            return cvc5_engine(terms, ms, seed)
        if name in (None, 'z3'):
            s = z3.Solver()
        elif name == 'z3-arith2':
            s = z3.Solver()
            s.set('arith.solver', 2)
        elif name == 'nlsat':
            seen = set()
            if any(_has_int(t, seen) for t in terms):
                return 'unknown', None
            s = z3.Tactic('qfnra-nlsat').solver()
        elif callable(name):
            s = name()
        else:
            s = z3.Tactic(name).solver()
        s.set('timeout', int(ms))
        s.add(*terms)
        r = s.check()
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
    except z3.Z3Exception:
        pass
    return 'unknown', None


class Explorer(object):
    """explores every path of one harness"""

    def __init__(self, harness, timeout=None, branch_timeout=4000, query_timeout=30000,
                 max_paths=200000, max_values=64, seed=0, tactic=None, witness_optional=False,
                 name='', validate=0, linearize=0, roots=False, normal=False, squares=False, single=False):
        self.roots = roots
        self.normal = normal
        self.linearize = linearize
        self.squares = squares
        self.single = single        # model rounding to single precision
        self.harness = harness
        self.deadline = time.time() + timeout if timeout else None
        self.branch_timeout = branch_timeout
        self.query_timeout = query_timeout
        self.max_paths = max_paths
        self.max_values = max_values
        self.seed = seed
        self.tactic = tactic
        self.stats = Stats()
        self.work = [[]]
        self.least = {}
        self.cexs = []
        self.unexpected = []
        self.witness_optional = witness_optional
        self.name = name
        self.validate = validate
        self.order = (['linear'] if roots else []) + [p for p in PORTFOLIO if not (roots and p == 'linear')]

    def push(self, trace):
        self.work.append(trace)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget of the harness exhausted')

    def solve(self, terms, timeout=None):
        st = self.stats
        to = timeout or self.query_timeout
        t0 = time.time()
        st.queries += 1
        res = ('unknown', None)
        if self.normal and refuted(terms, 3000):
            res = ('unsat', None)
        elif self.tactic is not None:
            for tac in (self.tactic if isinstance(self.tactic, (list, tuple)) else [self.tactic]):
                res = engine(tac, terms, to, self.seed)
                if res[0] != 'unknown':
                    break
        else:
            # a portfolio, cheapest first; whoever answered last time goes first
            left = to
            for rnd, share in ((0, (2500, 5000, 3500, 6000, 10000)), (1, (to, to, to, to, to))):
                for name in list(self.order):
                    ms = min(share[PORTFOLIO.index(name)], left) if rnd == 0 else left
                    if ms <= 0 or rnd and name in ('nlsat', 'linear'):
                        continue
                    t1 = time.time()
                    res = engine(name, terms, ms, self.seed)
                    left -= (time.time() - t1) * 1000
                    if res[0] != 'unknown':
                        self.order.remove(name)
                        self.order.insert(0, name)
                        st.engines[name] = st.engines.get(name, 0) + 1
                        break
                if res[0] != 'unknown' or left <= 0:
                    break
        st.solver_s += time.time() - t0
        if os.environ.get('SYMEX_DEBUG') and time.time() - t0 > 2:
            print('   [slow query %.1fs %s]' % (time.time() - t0, res[0]), flush=True)
            if os.environ.get('SYMEX_DUMP') and res[0] == 'unknown':
                s = z3.Solver(); s.add(*terms)
                open(os.environ['SYMEX_DUMP'], 'w').write(s.to_smt2())
        return res

    def cex(self, label, cands, info):
        self.cexs.append({'label': label, 'candidates': cands, 'info': info})
        raise CexFound(label, cands, info)

    def run(self):
        """-> list of counterexamples (empty: every assertion holds on every path)"""
        global CTX
        while self.work:
            tr = self.work.pop()
            c = SymCtx(self, tr)
            CTX = c
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise Inconclusive('too many paths')
            try:
                self.harness(c)
                if c.stopped is not None:
                    raise c.stopped
                self.stats.maxpath = max(self.stats.maxpath, len(c.trace))
                if self.validate and len(self.stats.witnesses) < self.validate:
                    r = self.solve(c.pc)
                    if r[0] == 'sat':
                        self.stats.witnesses.append(c.values(r[1]))
            except PathInfeasible:
                pass
            except CexFound:
                # keep looking on other paths for a reproducing one, but not forever
                if len(self.cexs) >= 6:
                    break
            except EngineStop:
                raise
            except RecursionError as e:
                self._unexpected(c, e)
            except Exception as e:
                if c.stopped is not None:
                    if isinstance(c.stopped, PathInfeasible):
                        continue
                    raise c.stopped
                self._unexpected(c, e)
            finally:
                CTX = None
            if len(self.cexs) >= 6:
                break
        return self.cexs

    def _unexpected(self, c, e):
        """the code under test raised where the harness expects it not to"""
        import traceback
        tb = traceback.format_exc()
        r = self.solve(c.pc)
        if r[0] == 'unsat':
            return
        if os.environ.get('SYMEX_DEBUG'):
            print(tb)
        if r[0] == 'unknown':
            raise Inconclusive('exception %r on a path the solver cannot decide\n%s' % (e, tb))
        r2 = self.solve(c.pc + c.nice(), timeout=10000)
        cands = [c.values(r[1])]
        if r2[0] == 'sat':
            cands.insert(0, c.values(r2[1]))
        self.cexs.append({'label': 'unexpected exception %s: %s' % (type(e).__name__, e),
                          'candidates': cands, 'info': tb[-1500:]})
