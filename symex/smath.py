"""math facade: transcendental functions as opaque terms with their algebraic laws."""
import math as rmath
import z3
from fractions import Fraction
from . import core
from .core import Sym, SymBool, is_sym, Unsupported, _q, lift
from .core import real as real_

pi, e, inf, nan, tau = rmath.pi, rmath.e, rmath.inf, rmath.nan, rmath.tau
PI = rmath.pi


def _linear(t):
    """t as ({base sexpr: (coefficient, base)}, constant)"""
    t = z3.simplify(t, som=True)
    parts, const = {}, Fraction(0)
    for ch in (t.children() if z3.is_add(t) else [t]):
        v = core.numval(ch)
        if v is not None:
            const += v
            continue
        co, base = Fraction(1), ch
        if z3.is_mul(ch):
            nums = [core.numval(x) for x in ch.children()]
            rest = [x for x, n in zip(ch.children(), nums) if n is None]
            for n in nums:
                if n is not None:
                    co *= n
            base = rest[0] if len(rest) == 1 else z3.Product(*rest)
        k = base.sexpr()
        co0 = parts[k][0] if k in parts else 0
        parts[k] = (co0 + co, base)
    return {k: v for k, v in parts.items() if v[0] != 0}, const


def _mulc(a, b):
    """(sin, cos) of the sum of two angles"""
    (s1, c1), (s2, c2) = a, b
    return core.simp(core.simp(s1 * c2) + core.simp(c1 * s2)), \
        core.simp(core.simp(c1 * c2) - core.simp(s1 * s2))


def _multiple(sc, n):
    s, co = sc
    if n < 0:
        s, co = _multiple(sc, -n)
        return -s, co
    r = (_q(0), _q(1))
    for i in range(n):
        r = sc if i == 0 else _mulc(r, sc)
    return r


def _newpair():
    c = core.CTX
    s, co = c.fresh('sin'), c.fresh('cos')
    c.add(s * s + co * co == 1)
    c.square_rule(co, 1 - s * s)
    c.add(z3.And(s <= 1, s >= -1, co <= 1, co >= -1))
    return s, co


def _atom(k, base, coef):
    c = core.CTX
    units = c.trig.setdefault(k, [])      # list of [unit coefficient, (sin, cos), base]
    for u in units:
        n = coef / u[0]
        if n.denominator == 1 and abs(n) <= 8:
            return _multiple(u[1], int(n))
    for u in units:
        m = u[0] / coef
        if m.denominator == 1 and abs(m) <= 8:
            sc = _newpair()
            f = _multiple(sc, abs(int(m)))
            c.add(f[0] == u[1][0])
            c.add(f[1] == u[1][1])
            if u[3] and m == 2:            # half of an angle in (-pi, pi]
                c.add(sc[1] >= 0)
                c.add(sc[0] * u[1][0] >= 0)
            units.insert(0, [abs(coef), sc, base, False])
            return _multiple(sc, 1 if coef > 0 else -1)
    sc = _newpair()
    units.append([abs(coef), sc, base, False])
    return _multiple(sc, 1 if coef > 0 else -1)


def _const(v):
    """(sin, cos) of a constant angle; multiples of pi/2 are exact"""
    q = float(v) / (PI / 2)
    n = rmath.floor(q + 0.5)
    if abs(q - n) < 1e-12 and n != 0 or v == 0:
        return [(_q(0), _q(1)), (_q(1), _q(0)), (_q(0), _q(-1)), (_q(-1), _q(0))][n % 4]
    return _q(rmath.sin(float(v))), _q(rmath.cos(float(v)))


def _sc(x):
    """(sin, cos) terms of an angle, as a point on the unit circle; sums and integer multiples of
    angles already seen are expanded by the addition theorems"""
    if isinstance(x, SymBool):
        x = x._num()
    parts, const = _linear(core.real(x.e))
    r = None
    for k in sorted(parts):
        a = _atom(k, parts[k][1], parts[k][0])
        r = a if r is None else _mulc(r, a)
    if const != 0 or r is None:
        a = _const(const)
        r = a if r is None else _mulc(r, a)
    return r


def angle(x):
    """trig handles of the angle sym for harness use: (Sym sin, Sym cos)"""
    s, c = _sc(x)
    return Sym(s), Sym(c)


def _exact(v):
    return float(round(v)) if abs(v - round(v)) < 1e-14 else v


def sin(x):
    if not is_sym(x):
        return _exact(rmath.sin(x)) if abs(x) > 1e-3 else rmath.sin(x)
    return Sym(_sc(x)[0], x.npy if isinstance(x, Sym) else False)


def cos(x):
    if not is_sym(x):
        return _exact(rmath.cos(x)) if abs(x) > 1e-3 else rmath.cos(x)
    return Sym(_sc(x)[1], x.npy if isinstance(x, Sym) else False)


def tan(x):
    if not is_sym(x):
        return rmath.tan(x)
    s, c = _sc(x)
    return Sym(s) / Sym(c)


def _register(t, s, co, principal=True):
    parts, const = _linear(t)
    (k, (coef, base)), = parts.items()
    core.CTX.trig.setdefault(k, []).insert(0, [coef, (s, co), base, principal])


def atan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return rmath.atan2(y, x)
    c = core.CTX
    y = y if is_sym(y) else Sym(lift(y))
    x = x if is_sym(x) else Sym(lift(x))
    ey, ex = c.normal(core.real(y.e)), c.normal(core.real(x.e))
    k = ('atan2', z3.simplify(ey, som=True).sexpr(), z3.simplify(ex, som=True).sexpr())
    if k in c.opaque:
        return Sym(c.opaque[k])
    t = c.fresh('ang')
    if c.branch(z3.And(ey == 0, ex == 0)):
        c.add(t == 0)
        _register(t, _q(0), _q(1))
    else:
        s, co = c.fresh('sin'), c.fresh('cos')
        h = core.numval(z3.simplify(c.normal(ex * ex + ey * ey)))
        if c.ex.normal and h is not None and h > 0:
            # a constant hypotenuse needs no root
            r = c.define_sqrt(_q(h)) if c.ex.roots else core.sqrt(Sym(_q(h))).e
            s, co = z3.simplify(ey / r), z3.simplify(ex / r)
        elif c.ex.roots:
            r = c.define_sqrt(ex * ex + ey * ey)
        else:
            r = c.fresh('hyp')
            c.add(r * r == ex * ex + ey * ey)
        c.add(r > 0)
        c.add(s * r == ey)
        c.add(co * r == ex)
        c.add(s * s + co * co == 1)
        if z3.is_const(co) and core.numval(co) is None:
            c.square_rule(co, 1 - s * s)
            if c.ex.normal:
                # Cauchy-Schwarz: (x, y) reaches its length in its own direction only
                c.add(z3.simplify(ex * co + ey * s, som=True) == r)
                for us in list(c.trig.values()):
                    for u in us:
                        c.add(z3.simplify(ex * u[1][1] + ey * u[1][0], som=True) <= r)
        c.add(z3.And(t <= _q(PI), t > _q(-PI)))
        # sign of the angle is the sign of y
        c.add((t > 0) == z3.Or(ey > 0, z3.And(ey == 0, ex < 0)))
        c.add((t < 0) == (ey < 0))
        # quadrant
        c.add(z3.Implies(ex > 0, z3.And(t < _q(PI / 2), t > _q(-PI / 2))))
        c.add(z3.Implies(ex < 0, z3.Or(t > _q(PI / 2), t < _q(-PI / 2))))
        _register(t, s, co)
    c.opaque[k] = t
    return Sym(t)


def asin(x):
    if not is_sym(x):
        return rmath.asin(x)
    c = core.CTX
    ex = core.real(x.e)
    if c.branch(z3.Or(ex > 1, ex < -1)):
        raise ValueError('math domain error')
    k = ('asin', z3.simplify(ex, som=True).sexpr())
    if k not in c.opaque:
        t = c.fresh('ang')
        if c.ex.roots:
            co = c.define_sqrt(1 - ex * ex)
        else:
            co = c.fresh('cos')
            c.add(co >= 0)
            c.add(co * co + ex * ex == 1)
        c.add(z3.And(t <= _q(PI / 2), t >= _q(-PI / 2)))
        c.add((t > 0) == (ex > 0))
        c.add((t < 0) == (ex < 0))
        _register(t, ex, co)
        c.opaque[k] = t
    return Sym(c.opaque[k])


def acos(x):
    if not is_sym(x):
        return rmath.acos(x)
    c = core.CTX
    ex = core.real(x.e)
    if c.branch(z3.Or(ex > 1, ex < -1)):
        if x.npy:
            return float('nan')
        raise ValueError('math domain error')
    k = ('acos', z3.simplify(ex, som=True).sexpr())
    if k not in c.opaque:
        t = c.fresh('ang')
        s = c.fresh('sin')
        c.add(s >= 0)
        c.add(s * s + ex * ex == 1)
        c.add(z3.And(t <= _q(PI), t >= 0))
        # strictly decreasing, 0 at 1
        c.add((t == 0) == (ex == 1))
        tab = c.opaque.setdefault('acos_tab', [])
        for x2, t2 in tab:
            c.add((ex < x2) == (t > t2))
            c.add((ex == x2) == (t == t2))
        tab.append((ex, t))
        _register(t, s, ex)
        c.opaque[k] = t
    return Sym(c.opaque[k])


def atan(x):
    if not is_sym(x):
        return rmath.atan(x)
    return atan2(x, 1.0)


def sqrt(x):
    return core.sqrt(x, npy=isinstance(x, Sym) and False)


def exp(x):
    """opaque, positive, strictly monotone, exp(0)=1"""
    if not is_sym(x):
        return rmath.exp(x)
    c = core.CTX
    if isinstance(x, SymBool):
        x = x._num()
    ex = core.real(x.e)
    key = z3.simplify(ex, som=True)
    tab = c.opaque.setdefault('exp', [])
    for k, kx, r in tab:
        if k.eq(key):
            return Sym(r, x.npy)
    r = c.fresh('exp')
    c.add(r > 0)
    c.add((ex > 0) == (r > 1))
    c.add((ex < 0) == (r < 1))
    for k, kx, r2 in tab:
        c.add((kx < ex) == (r2 < r))
        c.add((kx == ex) == (r2 == r))
    tab.append((key, ex, r))
    return Sym(r, x.npy)


def log(x, base=None):
    if not is_sym(x):
        return rmath.log(x) if base is None else rmath.log(x, base)
    if base is not None:
        raise Unsupported('log base')
    c = core.CTX
    ex = core.real(x.e)
    if c.branch(ex <= 0):
        raise ValueError('math domain error')
    t = c.fresh('log')
    c.add((t > 0) == (ex > 1))
    c.add((t < 0) == (ex < 1))
    c.opaque.setdefault('exp', []).append((t, t, ex))
    return Sym(t, x.npy)


def floor(x): return core.floor(x)
def ceil(x): return core.ceil(x)
def trunc(x): return core.trunc(x) if is_sym(x) else rmath.trunc(x)
def fabs(x): return abs(core.tofloat(x))
def radians(x): return x * (PI / 180.0) if is_sym(x) else rmath.radians(x)
def degrees(x): return x * (180.0 / PI) if is_sym(x) else rmath.degrees(x)
def isnan(x): return False if is_sym(x) else rmath.isnan(x)
def isinf(x): return False if is_sym(x) else rmath.isinf(x)
def isfinite(x): return True if is_sym(x) else rmath.isfinite(x)
def hypot(*a): return core.sqrt(sum(x * x for x in a)) if any(is_sym(x) for x in a) else rmath.hypot(*a)
def pow(a, b): return core.tofloat(a) ** b
def copysign(a, b):
    if is_sym(a) or is_sym(b):
        neg = bool(b < 0) if is_sym(b) else rmath.copysign(1, b) < 0
        return -abs(a) if neg else abs(a)
    return rmath.copysign(a, b)
def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not is_sym(a) and not is_sym(b):
        return rmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m = core.smax(abs(a), abs(b))
    return core.sand([abs(a - b) <= core.smax(m * rel_tol, abs_tol)])
def fsum(xs): return sum(xs)
def dist(p, q): return core.sqrt(sum((a - b) * (a - b) for a, b in zip(p, q)))
def prod(xs):
    r = 1
    for x in xs: r = r * x
    return r
def fmod(a, b):
    if not (is_sym(a) or is_sym(b)):
        return rmath.fmod(a, b)
    r = core.mod(abs(core.tofloat(a)), abs(core.tofloat(b)))
    return core.ite(a < 0, -r, r)


def gcd(*a): return rmath.gcd(*a)


def __getattr__(n):
    v = getattr(rmath, n)

    def g(*a, **k):
        if any(is_sym(x) for x in a):
            raise Unsupported('math.' + n)
        return v(*a, **k)
    return g
