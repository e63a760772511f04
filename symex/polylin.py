"""Linearisation of polynomial goals: every monomial becomes a real variable, and the equalities of the
path condition are multiplied by monomials chosen so that the products meet the goal.  The resulting
linear problem is a consequence of the original one, so its unsatisfiability (decided by z3's exact
simplex) refutes the original.  A satisfiable or too large problem gives no answer."""
import time
from fractions import Fraction
import z3

from . import core


class TooBig(Exception):
    pass


class Poly(object):
    def __init__(self, cap=4000):
        self.atoms = {}        # ast id -> (index, term)
        self.memo = {}
        self.cap = cap
        self.keep = []
        self.mono = {}         # monomial -> z3 real var
        self.lin = {}
        self.deadline = None

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = len(self.atoms)
            self.keep.append(e)
        return {(self.atoms[i],): Fraction(1)}

    def mul(self, p, q):
        if len(p) * len(q) > 60 * self.cap or self.deadline and time.time() > self.deadline:
            raise TooBig()
        r = {}
        for m, a in p.items():
            for n, b in q.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + a * b
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > self.cap:
            raise TooBig()
        return r

    @staticmethod
    def add(p, q, f=1):
        r = dict(p)
        for k, v in q.items():
            w = r.get(k, 0) + f * v
            if w:
                r[k] = w
            else:
                r.pop(k, None)
        return r

    def poly(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        v = core.numval(e)
        k = e.decl().kind() if z3.is_app(e) else None
        if v is not None:
            r = {(): Fraction(v)} if v else {}
        elif k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = self.add(r, self.poly(c))
        elif k == z3.Z3_OP_SUB:
            r = self.poly(e.arg(0))
            for c in e.children()[1:]:
                r = self.add(r, self.poly(c), -1)
        elif k == z3.Z3_OP_UMINUS:
            r = self.add({}, self.poly(e.arg(0)), -1)
        elif k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = self.mul(r, self.poly(c))
        elif k == z3.Z3_OP_POWER and core.numval(e.arg(1)) is not None and \
                core.numval(e.arg(1)) == int(core.numval(e.arg(1))) and core.numval(e.arg(1)) >= 0:
            r = {(): Fraction(1)}
            b = self.poly(e.arg(0))
            for _ in range(int(core.numval(e.arg(1)))):
                r = self.mul(r, b)
        elif k == z3.Z3_OP_DIV and core.numval(e.arg(1)):
            r = self.mul(self.poly(e.arg(0)), {(): 1 / Fraction(core.numval(e.arg(1)))})
        elif k == z3.Z3_OP_TO_REAL:
            r = self.poly(e.arg(0))
        else:
            r = self.atom(e)
        self.memo[i] = r
        return r

    def var(self, m):
        if m not in self.mono:
            self.mono[m] = z3.Real('m' + '_'.join(map(str, m)))
        return self.mono[m]

    def term(self, p):
        ts = []
        for m, a in p.items():
            c = z3.RealVal('%d/%d' % (a.numerator, a.denominator))
            ts.append(c if m == () else c * self.var(m))
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def formula(self, f):
        """f with every polynomial replaced by its linear image"""
        k = f.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
                k == z3.Z3_OP_EQ and f.arg(0).sort() == z3.BoolSort() or \
                k == z3.Z3_OP_ITE and f.sort() == z3.BoolSort():
            return f.decl()(*[self.formula(c) for c in f.children()])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and \
                f.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
            p = self.add(self.poly(f.arg(0)), self.poly(f.arg(1)), -1)
            t = self.term(p)
            z = z3.RealVal(0)
            return {z3.Z3_OP_EQ: t == z, z3.Z3_OP_LE: t <= z, z3.Z3_OP_LT: t < z,
                    z3.Z3_OP_GE: t >= z, z3.Z3_OP_GT: t > z}[k]
        if k == z3.Z3_OP_DISTINCT and f.num_args() == 2:
            return z3.Not(self.formula(f.arg(0) == f.arg(1)))
        if f.num_args() == 0:
            return f
        return z3.Bool('b!%d' % f.get_id())     # opaque: the same term is the same unknown

    def poly_all(self, fs):
        for f in fs:
            if f.sort() != z3.BoolSort():
                continue
            k = f.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) \
                    and f.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
                self.poly(f.arg(0))
                self.poly(f.arg(1))
            else:
                self.poly_all(f.children())

    def monos(self, f, out):
        k = f.decl().kind()
        if f.sort() == z3.BoolSort() and k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) \
                and f.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
            out.update(self.add(self.poly(f.arg(0)), self.poly(f.arg(1)), -1))
        else:
            for c in f.children():
                if c.sort() == z3.BoolSort():
                    self.monos(c, out)


def equalities(terms):
    for t in terms:
        k = t.decl().kind()
        if k == z3.Z3_OP_AND:
            for e in equalities(t.children()):
                yield e
        elif k == z3.Z3_OP_EQ and t.arg(0).sort() != z3.BoolSort():
            yield t


def nonzero_atoms(P, terms):
    out = []
    for t in terms:
        k = t.decl().kind()
        if k == z3.Z3_OP_AND:
            out += nonzero_atoms(P, t.children())
        elif k == z3.Z3_OP_NOT and t.arg(0).decl().kind() == z3.Z3_OP_EQ or \
                k == z3.Z3_OP_DISTINCT and t.num_args() == 2 or k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
            e = t.arg(0) if k == z3.Z3_OP_NOT else t
            if e.arg(0).sort() not in (z3.RealSort(), z3.IntSort()):
                continue
            p = P.add(P.poly(e.arg(0)), P.poly(e.arg(1)), -1)
            if len(p) == 1 and len(list(p)[0]) == 1:
                out.append(list(p)[0][0])
    return list(dict.fromkeys(out))


def invert(P, terms, eqs):
    """atoms known to be nonzero get an inverse: b * b' = 1, and every equality mentioning b is also
    divided by b and b^2; equalities that then give an atom outright replace that atom"""
    P.poly_all(terms)
    nz = nonzero_atoms(P, terms[:-1])
    if not nz:
        return eqs, None
    inv = {}
    for b in nz:
        v = z3.Real('inv!%d' % b)
        inv[b] = list(P.atom(v))[0][0]

    def cancel(p):
        r = {}
        for m, a in p.items():
            m = list(m)
            for b, i in inv.items():
                while b in m and i in m:
                    m.remove(b)
                    m.remove(i)
            k = tuple(m)
            v = r.get(k, 0) + a
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return r
    out = list(eqs)
    for p in eqs:
        for b, i in inv.items():
            if any(b in m for m in p):
                q = cancel(P.mul(p, {(i,): Fraction(1)}))
                out.append(q)
                if any(b in m for m in q):
                    out.append(cancel(P.mul(q, {(i,): Fraction(1)})))
    for b, i in inv.items():
        out.append({tuple(sorted((b, i))): Fraction(1), (): Fraction(-1)})
    # definitions of quotients: a single linear occurrence of an atom, everything else in inverses
    sub = {}
    for p in out:
        lin = [m for m in p if len(m) == 1 and m[0] not in inv and m[0] not in inv.values() and
               not any(m[0] in n for n in p if n != m) and m[0] not in sub]
        if len(lin) == 1 and any(i in m for i in inv.values() for m in p):
            a = lin[0][0]
            rest = {m: -v / p[lin[0]] for m, v in p.items() if m != lin[0]}
            if not any(x in m for x in sub for m in rest):
                sub[a] = rest
                for b in sub:
                    sub[b] = subst(P, sub[b], {a: rest}) if b != a else sub[b]
    if not sub:
        return out, None
    P.sub = sub
    P.cancel = cancel
    res = []
    for p in out:
        q = cancel(subst(P, p, sub))
        if q and q not in res:
            res.append(q)
    P.memo = {k: cancel(subst(P, v, sub)) for k, v in P.memo.items()}
    return res, None


def subst(P, p, sub):
    r = {}
    for m, a in p.items():
        t = {(): a}
        for x in m:
            t = P.mul(t, sub.get(x, {(x,): Fraction(1)}))
        r = P.add(r, t)
    return r


def divide(t, m):
    """t / m as sorted tuples, or None"""
    r = list(t)
    for x in m:
        if x in r:
            r.remove(x)
        else:
            return None
    return tuple(r)


def solve(terms, ms):
    P = Poly()
    P.deadline = time.time() + ms / 1000.0
    try:
        return _solve(P, terms)
    except (TooBig, z3.Z3Exception, RecursionError):
        return 'unknown', None


def _solve(P, terms):
    goal = terms[-1]
    eqs = []
    for e in equalities(terms[:-1]):
        p = P.add(P.poly(e.arg(0)), P.poly(e.arg(1)), -1)
        if p:
            eqs.append(p)
    eqs, _ = invert(P, terms, eqs)
    targets = set()
    P.monos(goal, targets)
    if not eqs or max((len(m) for m in targets), default=0) < 2:
        return 'unknown', None
    s = z3.SolverFor('QF_LRA')
    s.add([P.formula(t) for t in terms])
    leads = [None, None]
    # one leading monomial per equality (degree, then lexicographic), then all of top degree
    leads[0] = [[max((m for m in p if m), key=lambda m: (len(m), m))] if any(p) else [] for p in eqs]
    leads[1] = [[m for m in p if m and len(m) == max(map(len, p))] for p in eqs]
    done = set()
    for mode, rounds in ((0, 8), (1, 3)):
        fresh = set(targets)
        seen = set(targets)
        for rnd in range(rounds):
            nxt = set()
            for i, p in enumerate(eqs):
                for lead in leads[mode][i]:
                    for t in fresh:
                        q = divide(t, lead)
                        if q is None or (i, q) in done:
                            if q is not None and mode == 1:
                                nxt.update(tuple(sorted(m + q)) for m in p)
                            continue
                        done.add((i, q))
                        if len(done) > 6000 or time.time() > P.deadline:
                            raise TooBig()
                        r = P.mul(p, {q: Fraction(1)})
                        nxt.update(r)
                        s.add(P.term(r) == 0)
            fresh = nxt - seen
            seen |= fresh
            if not nxt:
                break
            left = int((P.deadline - time.time()) * 1000)
            if left <= 0:
                raise TooBig()
            s.set('timeout', left)
            if s.check() == z3.unsat:
                return 'unsat', None
            if not fresh:
                break
    return 'unknown', None


class Normal(object):
    """normal form of polynomials modulo relations v^2 = p(other variables), one per variable v; the
    leading terms are coprime squares, so the normal form is unique"""
    def __init__(self):
        self.P = Poly(3000)
        self.rules = {}
        self.out = {}

    def rule(self, v, e):
        a = list(self.P.atom(v))[0][0]
        self.rules[a] = self.P.poly(e)
        self.out = {}

    def reduce(self, p):
        P = self.P
        while True:
            todo = [(m, v) for m in p for v in self.rules if m.count(v) >= 2]
            if not todo:
                return p
            r = dict(p)
            done = set()
            for m, v in todo:
                if m in done:
                    continue
                done.add(m)
                a = r.pop(m, 0)
                if not a:
                    continue
                rest = list(m)
                rest.remove(v)
                rest.remove(v)
                r = P.add(r, P.mul({tuple(rest): a}, self.rules[v]))
            p = r

    def __call__(self, e):
        k = e.get_id()
        if k in self.out:
            return self.out[k]
        self.P.keep.append(e)
        try:
            p = self.reduce(self.P.poly(e))
        except (TooBig, RecursionError):
            self.out[k] = e
            return e
        terms = {}
        for t in self.P.keep:
            i = self.P.atoms.get(t.get_id())
            if i is not None:
                terms[i] = t
        ts = []
        for m in sorted(p):
            c = core._q(p[m])
            ts.append(z3.Product([c] + [terms[i] for i in m]) if m else c)
        r = z3.simplify(z3.Sum(ts)) if ts else core._q(0)
        self.out[k] = r
        return r
