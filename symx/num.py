"""Symbolic numbers.  A Sym is (n/d)*10**e with n, d (d>0) rational constants or z3 terms and e a linear form over
exponent atoms.  Products, quotients, powers, square roots and log10/10** stay exact and linear in the exponents;
sums of unlike powers are materialised over atoms P(a)=10**a linked to a by monotonicity facts.
Machine floats are modelled as reals."""

import math
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Unsupported

REVLG = {}      # lg value -> constant it came from (to hit boundaries exactly on replay)
_lgcache = {}


def lg(c):
    """log10 of a positive constant, as the exact rational value of the nearest double"""
    r = _lgcache.get(c)
    if r is None:
        f = float(c)
        if f <= 0 or math.isinf(f):
            raise Unsupported(f'log of {f}')
        r = Fraction(math.log10(f))
        _lgcache[c] = r
        REVLG.setdefault(r, f)
    return r


def q(fr):
    return z3.RatVal(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def is_c(x):
    return type(x) is Fraction


def zr(x):
    """as z3 Real term"""
    if type(x) is Fraction:
        return q(x)
    if x.sort() == z3.IntSort():
        return z3.ToReal(x)
    return x


def mul(a, b):
    if is_c(a) and is_c(b):
        return a * b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 1:
            return a
        if b == 0:
            return Fraction(0)
        if not is_c(a) and a.sort() == z3.IntSort() and b.denominator == 1:
            return a * z3.IntVal(b.numerator)
        return zr(a) * q(b)
    if a.sort() == b.sort():
        return a * b
    return zr(a) * zr(b)


def add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return a
        if a.sort() == z3.IntSort() and b.denominator == 1:
            return a + z3.IntVal(b.numerator)
        return zr(a) + q(b)
    if a.sort() == b.sort():
        return a + b
    return zr(a) + zr(b)


def neg(a):
    return -a


def eqterm(a, b):
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    return a.eq(b)


# ---------------------------------------------------------------- linear forms over exponent atoms
class Lin:
    """const + sum coeff*atom; atoms are z3 real terms keyed by id (kept alive by the form)"""
    __slots__ = ('k', 't')

    def __init__(self, k=Fraction(0), t=None):
        self.k, self.t = k, t or {}

    def add(self, o, f=Fraction(1)):
        t = dict(self.t)
        for i, (a, c) in o.t.items():
            c0 = t[i][1] if i in t else 0
            n = c0 + c * f
            if n == 0:
                t.pop(i, None)
            else:
                t[i] = (a, n)
        return Lin(self.k + o.k * f, t)

    def scale(self, f):
        if f == 0:
            return Lin()
        return Lin(self.k * f, {i: (a, c * f) for i, (a, c) in self.t.items()})

    def const(self):
        return not self.t

    def z(self):
        r = [q(self.k)] if self.k != 0 or not self.t else []
        for a, c in self.t.values():
            r.append(a if c == 1 else q(c) * a)
        return z3.Sum(r) if len(r) > 1 else r[0]


def lin(t):
    """z3 real term (or constant) -> Lin"""
    if is_c(t):
        return Lin(t)
    t = z3.simplify(zr(t), som=True)
    k, d = Fraction(0), {}
    for s in (t.children() if z3.is_add(t) else [t]):
        c, a = _monomial(s)
        if a is None:
            k += c
        else:
            i = a.get_id()
            n = (d[i][1] if i in d else 0) + c
            if n == 0:
                d.pop(i, None)
            else:
                d[i] = (a, n)
    return Lin(k, d)


def frac_of(v):
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def _monomial(s):
    if z3.is_rational_value(s):
        return frac_of(s), None
    if z3.is_mul(s):
        ch = s.children()
        if z3.is_rational_value(ch[0]):
            rest = ch[1:]
            a = rest[0]
            for r in rest[1:]:
                a = a * r
            return frac_of(ch[0]), z3.simplify(a) if len(rest) > 1 else a
    return Fraction(1), s


def monomials(t, roots):
    """expanded sum -> [(coefficient, {id: (term, power)})]; whole powers of root atoms become their base"""
    ms = []
    for ch in t.children() if z3.is_add(t) else [t]:
        fs = [ch]
        c, at = Fraction(1), {}
        while fs:
            x = fs.pop()
            if z3.is_mul(x):
                fs += x.children()
            elif z3.is_rational_value(x):
                c *= frac_of(x)
            else:
                at[x.get_id()] = (x, at.get(x.get_id(), (x, 0))[1] + 1)
        for i, (x, k) in list(at.items()):
            if i in roots and k >= roots[i][1]:
                b, m = roots[i]
                at[i] = (x, k % m)
                if not k % m:
                    del at[i]
                at[b.get_id()] = (b, at.get(b.get_id(), (b, 0))[1] + k // m)
        ms.append((c, at))
    return ms


def factor_sum(t, roots):
    """leading coefficient (absolute), common factors, cofactor and canonical key of a sum in expanded form"""
    acc = {}
    for c, at in monomials(t, roots):
        k = tuple(sorted((i, p) for i, (x, p) in at.items()))
        acc[k] = (acc[k][0] + c if k in acc else c, at)
    ms = [acc[k] for k in sorted(acc) if acc[k][0] != 0]
    if not ms:
        return None
    common = {}
    for i, (x, k) in ms[0][1].items():
        k = min(at.get(i, (x, 0))[1] for c, at in ms)
        if k:
            common[i] = (x, k)
    c0 = abs(ms[0][0])
    terms, key = [], []
    for c, at in ms:
        z = q(c / c0)
        kk = []
        for i, (x, k) in sorted(at.items()):
            k -= common[i][1] if i in common else 0
            for _ in range(k):
                z = z * x
            if k:
                kk.append((i, k))
        terms.append(z)
        key.append((snap(c / c0), tuple(kk)))
    return c0, [x for x, k in common.values() for _ in range(k)], z3.simplify(z3.Sum(terms), som=True), tuple(key)


def snap(c):
    """constants equal up to rounding are identified"""
    return float(f'{float(c):.10e}')


class TooBig(Exception):
    pass


def polyfrac(t, roots, cap=6000):
    """rational function as (numerator, denominator) polynomials: {monomial: [coefficient, sum of absolute parts]}"""
    one = {(): [ONE, ONE]}

    def pmul(a, b):
        if len(a) * len(b) > cap * 4:
            raise TooBig()
        r = {}
        for m1, (c1, s1) in a.items():
            for m2, (c2, s2) in b.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for i, k in m2:
                        d[i] = d.get(i, 0) + k
                    for i in list(d):
                        if i in roots and d[i] >= roots[i][1]:
                            b_, dg = roots[i]
                            d[b_.get_id()] = d.get(b_.get_id(), 0) + d[i] // dg
                            d[i] %= dg
                            if not d[i]:
                                del d[i]
                    m = tuple(sorted(d.items()))
                e = r.get(m)
                if e is None:
                    r[m] = [c1 * c2, s1 * s2]
                else:
                    e[0] += c1 * c2
                    e[1] += s1 * s2
        if len(r) > cap:
            raise TooBig()
        return r

    def padd(a, b):
        r = {m: list(v) for m, v in a.items()}
        for m, (c, s) in b.items():
            e = r.get(m)
            if e is None:
                r[m] = [c, s]
            else:
                e[0] += c
                e[1] += s
        return r

    def fadd(x, y):
        if x[1] == y[1]:
            return padd(x[0], y[0]), x[1]
        return padd(pmul(x[0], y[1]), pmul(y[0], x[1])), pmul(x[1], y[1])
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_rational_value(t) or z3.is_int_value(t):
            c = frac_of(t) if z3.is_rational_value(t) else Fraction(t.as_long())
            r = ({(): [c, abs(c)]} if c else {}, one)
        elif z3.is_add(t) or z3.is_mul(t):
            ch = t.children()
            r = go(ch[0])
            for x in ch[1:]:
                y = go(x)
                r = fadd(r, y) if z3.is_add(t) else (pmul(r[0], y[0]), pmul(r[1], y[1]))
        elif z3.is_sub(t):
            ch = t.children()
            r = go(ch[0])
            for x in ch[1:]:
                y = go(x)
                r = fadd(r, ({m: [-c, s] for m, (c, s) in y[0].items()}, y[1]))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            y = go(t.arg(0))
            r = ({m: [-c, s] for m, (c, s) in y[0].items()}, y[1])
        elif z3.is_div(t):
            x, y = go(t.arg(0)), go(t.arg(1))
            r = (pmul(x[0], y[1]), pmul(x[1], y[0]))
        elif z3.is_to_real(t) and (z3.is_add(t.arg(0)) or z3.is_mul(t.arg(0)) or z3.is_int_value(t.arg(0))):
            r = go(t.arg(0))
        elif z3.is_to_real(t):
            r = ({((t.arg(0).get_id(), 1),): [ONE, ONE]}, one)
        else:
            r = ({((i, 1),): [ONE, ONE]}, one)
        memo[i] = (r, t)
        return r
    return go(t), pmul


def same_rational(a, b, roots, tol=Fraction(1, 10 ** 11), rtol=Fraction(0)):
    """the two terms are the same rational function up to one constant factor within rtol of 1, constants compared up to
    rounding; denominators are assumed non-zero"""
    try:
        (x, pmul), (y, _) = polyfrac(a, roots), polyfrac(b, roots)
        l, r = pmul(x[0], y[1]), pmul(y[0], x[1])
    except TooBig:
        return False
    f = Fraction(1)
    if rtol and l and r:
        m = max(r, key=lambda m: abs(r[m][0]))
        if m in l and r[m][0] and abs(l[m][0] / r[m][0] - 1) <= rtol * Fraction(99, 100):
            f = l[m][0] / r[m][0]
    for m in set(l) | set(r):
        c1, s1 = l.get(m, (0, 0))
        c2, s2 = r.get(m, (0, 0))
        if abs(c1 - c2 * f) > tol * max(s1, s2):
            return False
    return True


STEPS = [(q(Fraction(1, 10 ** 4)), q(Fraction('1.00023'))), (q(Fraction(3, 10)), q(Fraction('1.995')))]


class PowTable:
    """atoms of the current path: exponent atom -> value term 10**atom, and the reverse (logs of plain terms)"""

    def __init__(self, c):
        self.c = c
        self.p = {}      # (atom id, frac denominators) -> (value term, atom term)
        self.logs = {}   # id of plain term -> (atom, term)
        self.chain = []
        self.roots = {}  # id of a root atom -> (base atom, degree)
        self.sums = {}
        self.th = {}     # id of an exponent atom -> {threshold exponent: its power}
        self.dec = {}    # id of an exponent atom -> range of its power in decades
        self.nchain = 0

    @staticmethod
    def get():
        c = core.ctx()
        if not hasattr(c, 'powtable'):
            c.powtable = PowTable(c)
        return c.powtable

    def link(self, a, v):
        """facts for v = 10**a"""
        self.c.assume(v > 0)
        self.c.assume(z3.And((a > 0) == (v > 1), (a < 0) == (v < 1), (a >= 3) == (v >= 1000), (a >= -3) == (v >= q(Fraction(1, 1000)))))
        if len(self.chain) < 14:
            for a2, v2 in self.chain:
                self.c.assume(z3.And((a < a2) == (v < v2), (a > a2) == (v > v2)))
                for dl, g in STEPS:
                    self.c.assume(z3.And(z3.Implies(a2 - a >= dl, v2 >= g * v), z3.Implies(a - a2 >= dl, v >= g * v2)))
            self.chain.append((a, v))

    def threshold(self, df, c):
        """a comparison of 10**(one atom) with the constant c: its power atom must agree with it"""
        (i, (a, k)), = df.t.items()
        if abs(k) != 1:
            return
        l = (lg(c) - df.k) / k
        c = c if not df.k else Fraction(10. ** float(lg(c) - df.k))
        c = c if k == 1 else 1 / c
        th = self.th.setdefault(i, {})
        if len(th) < 60 and l not in th:
            th[l] = c
            if (i, ONE) in self.p:
                self.agree(a, l, self.p[(i, ONE)][0], c)

    def agree(self, a, l, v, c):
        self.c.assume(z3.And((a >= q(l)) == (v >= q(c)), (a <= q(l)) == (v <= q(c))))

    def linear_threshold(self, t, c):
        """a comparison of the exponent term t = k*atom + m with the constant c: the power of the atom must agree with it"""
        r = one_atom(t)
        if r is not None:
            a, k, m = r
            self.atom_threshold(a, (c - m) / k)

    def atom_threshold(self, a, l, cap=80):
        i = a.get_id()
        th = self.th.setdefault(i, {})
        if (i, ONE) in self.p and len(th) < cap and l not in th and abs(l) < 290:
            n = Fraction(round(l)) if abs(l - round(l)) < Fraction(1, 10 ** 14) else l
            th[l] = c = tenpow(n)
            self.agree(a, l, self.p[(i, ONE)][0], c)

    def decades(self, a):
        """decades the power of an atom can lie in on this path"""
        i = a.get_id()
        if i not in self.dec:
            c, v = self.c, self.p[(i, ONE)][0]
            c.feasible()
            m = frac_of(c.model.eval(v, model_completion=True)) if c.model is not None else Fraction(1)
            e = math.floor(lg(m)) if m > 0 else 0
            lo, hi = max(e, -12), min(e + 1, 12)
            while lo > -12 and c._check(v < q(tenpow(Fraction(lo)))) != z3.unsat:
                lo -= 1
            while hi < 12 and c._check(v > q(tenpow(Fraction(hi)))) != z3.unsat:
                hi += 1
            self.dec[i] = lo, hi
            for l in (lo, hi):
                self.agree(a, Fraction(l), v, tenpow(Fraction(l)))
        return self.dec[i]

    def floor_thresholds(self, r):
        a, k, m = r
        lo, hi = self.decades(a)
        for j in range(-12, 13):
            l = (j - m) / k
            if lo - 1 <= l <= hi + 1:
                self.atom_threshold(a, l, 1000)

    def pow_atom(self, a, frac=Fraction(1)):
        key = (a.get_id(), frac)
        if key in self.p:
            return self.p[key][0]
        v = self.c.fresh('P')
        self.p[key] = (v, a)
        self.link(a if frac == 1 else q(frac) * a, v)
        if frac == 1:
            for l, c in self.th.get(a.get_id(), {}).items():
                self.agree(a, l, v, c)
        if frac != 1:
            base = self.pow_atom(a)
            if frac.numerator == 1 and frac.denominator in (2, 3, 4):
                r = v
                for _ in range(frac.denominator - 1):
                    r = r * v
                self.c.assume(r == base)
                self.roots[v.get_id()] = (base, frac.denominator)
        return v

    def log_atom(self, term):
        """log10 of a positive plain term, as a Lin"""
        term = z3.simplify(zr(term), som=True)
        if z3.is_rational_value(term):
            return Lin(lg(frac_of(term)))
        c, m = _monomial(term)
        if c != 1 and c > 0 and m is not None:
            r = self.log_atom(m)
            return Lin(r.k + lg(c), r.t)
        if z3.is_mul(term) and c == 1:
            parts = term.children()
            if len(parts) >= 2 and all(self._pos(p) for p in parts):
                r = Lin()
                for p in parts:
                    r = r.add(self.log_atom(p))
                return r
        if z3.is_add(term):
            # common factor and leading coefficient of a sum are split off, so that proportional sums share an atom
            r = factor_sum(term, self.roots)
            if r is not None:
                c0, fac, rest, key = r
                if fac or c0 != 1 or not z3.is_add(rest):
                    if all(self._pos(a) for a in fac):
                        r = self.log_atom(rest)
                        r = Lin(r.k + lg(c0), r.t)
                        for a in fac:
                            r = r.add(self.log_atom(a))
                        return r
                elif key in self.sums:
                    term = self.sums[key]
                else:
                    self.sums[key] = term
        i = term.get_id()
        if i not in self.logs:
            # power atoms log back to their exponent
            for v, a in [x for k, x in self.p.items() if k[1] == 1]:
                if v.eq(term):
                    self.logs[i] = (a, term)
                    break
            else:
                L = self.c.fresh('L')
                self.logs[i] = (L, term)
                self.p[(L.get_id(), Fraction(1))] = (term, L)
                self.link(L, term)
        L = self.logs[i][0]
        return Lin(Fraction(0), {L.get_id(): (L, Fraction(1))})

    def _pos(self, t):
        s = self.c.solver
        return self.c._check(t <= 0) == z3.unsat

    def materialise(self, e):
        """10**e for a Lin, as (num, den) terms"""
        num = den = Fraction(1)
        for a, c in e.t.values():
            w = abs(c)
            if w.denominator > 10 ** 6:
                w = rnd12(w)     # exponents that differ by rounding of a constant only share one atom
            n, fr = divmod(w, 1)
            t = Fraction(1)
            if n > 8:
                v = self.pow_atom(a, w)
                t = v
            else:
                if n:
                    v = self.pow_atom(a)
                    for _ in range(int(n)):
                        t = mul(t, v)
                if fr:
                    t = mul(t, self.pow_atom(a, fr))
            if c > 0:
                num = mul(num, t)
            else:
                den = mul(den, t)
        if e.k != 0:
            num = mul(num, tenpow(e.k))
        return num, den


def one_atom(t):
    """(a, k, m) when the term is k*a + m for a single atom a"""
    k, m = ONE, Fraction(0)
    for _ in range(20):
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            k, t = -k, t.arg(0)
        elif z3.is_add(t):
            ch = [x for x in t.children() if not z3.is_rational_value(x)]
            if len(ch) != 1:
                return None
            m += k * sum((frac_of(x) for x in t.children() if z3.is_rational_value(x)), Fraction(0))
            t = ch[0]
        elif z3.is_mul(t):
            ch = t.children()
            if len(ch) != 2 or not z3.is_rational_value(ch[0]):
                return None
            k *= frac_of(ch[0])
            t = ch[1]
        else:
            break
    return (t, k, m) if k != 0 and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None


def rnd12(w):
    e = math.floor(math.log10(w)) - 11
    return round(w / Fraction(10) ** e) * Fraction(10) ** e


def tenpow(k):
    if k.denominator == 1 and abs(k) <= 300:
        return Fraction(10) ** int(k)
    if k in REVLG:
        return Fraction(REVLG[k])
    try:
        return Fraction(10. ** float(k))
    except OverflowError:
        raise Unsupported('overflow')


class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return core.ctx().decide(self.z)

    def __and__(self, o):
        return mkb(z3.And(self.z, bz(o)))

    def __or__(self, o):
        return mkb(z3.Or(self.z, bz(o)))

    def __xor__(self, o):
        return mkb(z3.Xor(self.z, bz(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return mkb(z3.Not(self.z))

    logical_not = __invert__

    def __eq__(self, o):
        return mkb(self.z == bz(o)) if isinstance(o, (SymBool, bool, np.bool_)) else NotImplemented

    def __hash__(self):
        return 0

    def _num(self):
        return Sym(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    def __mul__(self, o):
        return self._num() * o

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    __radd__, __rmul__ = __add__, __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f'SymBool({self.z})'


def bz(o):
    return o.z if isinstance(o, SymBool) else z3.BoolVal(bool(o))


def mkb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


class Inf(Exception):
    pass


def to_parts(x):
    """(n, d, e) of any number; raises TypeError for others"""
    if isinstance(x, Sym):
        return x.n, x.d, x.e
    if isinstance(x, SymBool):
        return x._num().n, ONE, None
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
        return to_parts(x)
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x)), ONE, None
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x)), ONE, None
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            raise Inf(x)
        return Fraction(x), ONE, None
    if isinstance(x, Fraction):
        return x, ONE, None
    raise TypeError(f'not a number: {type(x)}')


ONE = Fraction(1)


def mk(n, d=ONE, e=None):
    """normalise; fully concrete results become Python numbers"""
    if e is not None and e.const():
        if e.k != 0:
            n = mul(n, tenpow(e.k))
        e = None
    if is_c(n) and n == 0:
        return 0.0
    if is_c(d) and d != 1:
        n = mul(n, 1 / d)
        d = ONE
    if is_c(n) and is_c(d) and e is None:
        return float(n)
    return Sym(n, d, e)


def isnum(x):
    return isinstance(x, (Sym, int, float, np.number, np.bool_, Fraction)) or \
        (isinstance(x, np.ndarray) and x.ndim == 0)


def binop(f):
    def g(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if type(o) in (list, tuple) and f.__name__ in LISTOPS and not self.is_int():
            b = np.empty(len(o), dtype=object)      # numpy scalars broadcast over lists
            b[:] = list(o)
            return LISTOPS[f.__name__](self, b)
        try:
            p = to_parts(o)
        except TypeError:
            return NotImplemented
        except Inf as ex:
            return infop(f.__name__, self, ex.args[0])
        return f(self, o, *p)
    g.__name__ = f.__name__
    return g


LISTOPS = {'add': lambda a, b: b + a, 'mul': lambda a, b: b * a, 'div': lambda a, b: elementwise2(a, b, lambda x, y: x / y),
           'rdiv': lambda a, b: b / a}


def elementwise2(a, b, f):
    r = np.empty(len(b), dtype=object)
    r[:] = [f(a, x) for x in b]
    return r


def infop(name, a, v):
    if math.isnan(v):
        return {'lt': False, 'le': False, 'gt': False, 'ge': False, 'eq': False, 'ne': True}.get(name, v)
    if name in ('lt', 'le'):
        return v > 0
    if name in ('gt', 'ge'):
        return v < 0
    if name == 'eq':
        return False
    if name == 'ne':
        return True
    if name == 'add' or name == 'rsub':
        return v
    if name == 'sub':
        return -v
    if name in ('mul', 'rdiv'):
        s = a.sign()
        return v * s if s else math.nan
    if name == 'div':
        return 0.
    raise Unsupported(f'{name} with {v}')


class Sym:
    __slots__ = ('n', 'd', 'e')
    __array_priority__ = 0

    def __init__(self, n, d=ONE, e=None):
        self.n, self.d, self.e = n, d, e

    # -------------------------------------------------- views
    def plain(self):
        """(num, den) terms of the value"""
        if self.e is None:
            return self.n, self.d
        pn, pd = PowTable.get().materialise(self.e)
        return mul(self.n, pn), mul(self.d, pd)

    def z(self):
        n, d = self.plain()
        n = zr(n)
        return n if is_c(d) and d == 1 else n / zr(d)

    def is_int(self):
        return self.e is None and is_c(self.d) and not is_c(self.n) and self.n.sort() == z3.IntSort()

    def logcoef(self):
        return is_c(self.n) and is_c(self.d)

    # -------------------------------------------------- arithmetic
    @binop
    def add(self, o, n, d, e):
        if is_c(n) and n == 0:
            return self
        if self.e is None and e is None:
            return _addq(self.n, self.d, n, d, None)
        e1, e2 = self.e or Lin(), e or Lin()
        df = e2.add(e1, Fraction(-1))
        if df.const():
            return _addq(self.n, self.d, mul(n, tenpow(df.k)) if df.k else n, d, e1)
        n1, d1 = self.plain()
        n2, d2 = Sym(n, d, e).plain()
        return _addq(n1, d1, n2, d2, None)

    def sub(self, o):
        r = self.__neg__()
        r = r.add(o) if isinstance(r, Sym) else NotImplemented
        return r if r is NotImplemented else -r

    @binop
    def mul(self, o, n, d, e):
        if is_c(n) and n == 0:
            return 0.0
        ee = self.e if e is None else (e if self.e is None else self.e.add(e))
        n1, d1, n2, d2 = self.n, self.d, n, d
        if eqterm(n1, d2):
            n1 = d2 = ONE
        if eqterm(n2, d1):
            n2 = d1 = ONE
        return mk(mul(n1, n2), mul(d1, d2), ee)

    @binop
    def div(self, o, n, d, e):
        if is_c(n) and n == 0:
            return self.over0()
        if is_c(n) and is_c(d):
            ee = self.e if e is None else (self.e or Lin()).add(e, Fraction(-1))
            return mk(mul(self.n, d / n), self.d, ee)
        r = Sym(n, d, e).recip()
        if not isinstance(r, Sym) and not math.isfinite(r):
            return self.over0()
        return self.mul(r)

    def over0(self):
        s = self.sign()          # numpy semantics; a Python float would raise, which the replay shows
        return s * math.inf if s else math.nan

    @binop
    def rdiv(self, o, n, d, e):
        r = self.recip()
        return r * o if isinstance(r, Sym) else np.float64(r) * (o if not is_sym(o) else o.sign())

    def recip(self):
        e = None if self.e is None else self.e.scale(Fraction(-1))
        if is_c(self.n):
            return mk(mul(self.d, 1 / self.n), ONE, e)
        nz = zr(self.n)
        c = core.ctx()
        if c.decide(nz > 0):
            return mk(self.d, self.n, e)
        if c.decide(nz == 0):
            return math.inf
        return mk(neg(self.d), neg(self.n), e)

    def __neg__(self):
        return Sym(neg(self.n), self.d, self.e)

    def __pos__(self):
        return self

    def __add__(self, o):
        return self.add(o)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if type(o) in (list, tuple) and not self.is_int():
            return elementwise2(self, o, lambda x, y: x - y)
        return self.sub(o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if type(o) in (list, tuple) and not self.is_int():
            return elementwise2(self, o, lambda x, y: y - x)
        return (-self).add(o)

    def __mul__(self, o):
        return self.mul(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.div(o)

    def __rtruediv__(self, o):
        return self.rdiv(o)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        if self.is_int() and isinstance(o, (int, np.integer)) and o > 0:
            return Sym(self.n % int(o))
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o - (o / self).floor() * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k):
        if isinstance(k, np.ndarray):
            return NotImplemented
        if isinstance(k, Sym):
            return (self.log10() * k).exp10()
        k = Fraction(k)
        if k == 0:
            return 1.0
        if k == 1:
            return self
        if k < 0:
            r = self.__pow__(-k)
            return 1. / r
        if k.denominator == 1 and k <= 12 and not (self.e is not None and self.logcoef()):
            r = self
            for _ in range(int(k) - 1):
                r = r * self
            return r
        s = self.sign()
        if s == 0:
            return 0.0
        if s < 0:
            if k.denominator == 1:
                r = (-self).__pow__(k)
                return -r if k % 2 else r
            return math.nan
        L = self.lglin()
        return mk(ONE, ONE, L.scale(k))

    def __rpow__(self, b):
        if isinstance(b, np.ndarray):
            return NotImplemented
        if isinstance(b, Sym):
            return b ** self
        b = float(b)
        if b == 10.:
            return self.exp10()
        if b <= 0:
            raise Unsupported('power of non-positive base')
        return (self * float(lg(Fraction(b)))).exp10()

    def exp10(self):
        n, d = self.plain()
        if is_c(n) and is_c(d):
            return 10. ** float(n / d)
        if self.is_int():
            v = core.ctx().choose_value(self.n)     # whole decade: one path per value
            return 10. ** v
        t = zr(n) if is_c(d) and d == 1 else zr(n) / zr(d)
        return mk(ONE, ONE, lin(t))

    # -------------------------------------------------- functions (called by numpy's object loops)
    def sign(self):
        if is_c(self.n):
            return (self.n > 0) - (self.n < 0)
        c = core.ctx()
        z = zr(self.n)
        if c.decide(z > 0):
            return 1
        return 0 if c.decide(z == 0) else -1

    def lglin(self):
        """log10 as a Lin; value known positive"""
        t = PowTable.get()
        L = Lin(lg(self.n)) if is_c(self.n) else t.log_atom(self.n)
        if not is_c(self.d):
            L = L.add(t.log_atom(self.d), Fraction(-1))
        elif self.d != 1:
            L = L.add(Lin(lg(self.d)), Fraction(-1))
        return L if self.e is None else L.add(self.e)

    def log10(self):
        s = self.sign()
        if s == 0:
            return -math.inf
        if s < 0:
            return math.nan
        L = self.lglin()
        return float(L.k) if L.const() else Sym(L.z())

    def log(self):
        return self.log10() * math.log(10.)

    def log2(self):
        return self.log10() / math.log10(2.)

    def exp(self):
        return (self * math.log10(math.e)).exp10()

    def sqrt(self):
        s = self.sign()
        if s == 0:
            return 0.0
        if s < 0:
            return math.nan
        return mk(ONE, ONE, self.lglin().scale(Fraction(1, 2)))

    def cbrt(self):
        return self ** Fraction(1, 3)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def __abs__(self):
        return self if self.sign() >= 0 else -self

    fabs = __abs__

    def floor(self):
        if self.is_int():
            return self
        n, d = self.plain()
        if is_c(d) and d == 1:
            n = zr(n)
            r = one_atom(n)
            if r is not None and n.sort() == z3.RealSort() and (r[0].get_id(), ONE) in PowTable.get().p:
                PowTable.get().floor_thresholds(r)     # the power of ten a decimal logarithm rounds down to is exact
            return Sym(z3.ToInt(n))
        c = core.ctx()
        k = c.fresh('fl', 'int')
        c.assume(z3.And(z3.ToReal(k) * zr(d) <= zr(n), zr(n) < (z3.ToReal(k) + 1) * zr(d)))
        return Sym(k)

    def ceil(self):
        return self if self.is_int() else -((-self).floor())

    def trunc(self):
        return self if self.is_int() else (self.floor() if self.sign() >= 0 else self.ceil())

    def rint(self, digits=None):
        if digits:
            k = 10 ** digits
            return (self * k).rint() / k
        if self.is_int():
            return self
        f = (self + Fraction(1, 2)).floor()   # ties: resolve half to even
        if isinstance(f, Sym) and bool((self + Fraction(1, 2)) == f) and bool((f % 2) == 1):
            return f - 1
        return f

    __floor__, __ceil__, __trunc__ = floor, ceil, trunc

    def __round__(self, nd=None):
        return self.rint(nd)

    def is_integer(self):
        return mkb(z3.IsInt(self.z()))

    @property
    def real(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        if t in (int, np.int64, np.int32, np.intp, 'int', 'i8', 'int64'):
            return self.trunc()
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    # -------------------------------------------------- conversions that need a concrete value
    def __int__(self):
        t = self.trunc()
        return core.ctx().choose_value(t.n) if isinstance(t, Sym) else int(t)

    def __index__(self):
        if self.is_int():
            return core.ctx().choose_value(self.n)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __float__(self):
        c = core.ctx()
        if self.e is not None and self.logcoef():
            v = c.pin(self.e.z())
            return float(self.n / self.d) * 10. ** float(frac_of(v))
        v = c.pin(self.z())
        if z3.is_int_value(v):
            return float(v.as_long())
        return float(frac_of(v))

    def __bool__(self):
        return not (is_c(self.n) and self.n == 0) if is_c(self.n) else core.ctx().decide(zr(self.n) != 0)

    def __hash__(self):
        return core.ctx().choose_value(self.n) if self.is_int() else 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f'Sym({self.n}/{self.d}*10^{self.e and self.e.z()})'

    def __str__(self):
        raise Unsupported('str() of a symbolic number outside the instrumented code')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic number outside the instrumented code')

    # -------------------------------------------------- comparison
    def _cmp(self, n, d, e, op):
        """z3 condition self op (n/d*10^e)"""
        a, b = self.e, e
        if a is None and b is None or (is_c(n) and n == 0):
            l, r = mul(self.n, d), mul(n, self.d)
            if is_c(l) != is_c(r) and getattr(core.ctx(), 'powtable', None) is not None:
                x, y = (r, l) if is_c(l) else (l, r)
                core.ctx().powtable.linear_threshold(x, y)
        else:
            a, b = a or Lin(), b or Lin()
            df = a.add(b, Fraction(-1))
            if df.const():
                l, r = mul(mul(self.n, d), tenpow(df.k)), mul(n, self.d)
            elif self.logcoef() and is_c(n) and is_c(d):
                c1, c2 = self.n / self.d, n / d
                if len(df.t) == 1 and c1 * c2 > 0:
                    PowTable.get().threshold(df, c2 / c1)
                if c1 > 0 and c2 > 0:
                    l, r = df.add(Lin(lg(c1))).z(), q(lg(c2))
                elif c1 < 0 and c2 < 0:
                    l, r = q(lg(-c2)), df.add(Lin(lg(-c1))).z()
                else:
                    l, r = Fraction((c1 > 0) - (c1 < 0)), Fraction((c2 > 0) - (c2 < 0))
            else:
                pn, pd = PowTable.get().materialise(df)
                l, r = mul(mul(self.n, d), pn), mul(mul(n, self.d), pd)
        if is_c(l) and is_c(r):
            return {'lt': l < r, 'le': l <= r, 'gt': l > r, 'ge': l >= r, 'eq': l == r, 'ne': l != r}[op]
        if not is_c(l) and l.sort() == z3.IntSort() and (is_c(r) and r.denominator == 1 or not is_c(r) and r.sort() == z3.IntSort()):
            r = z3.IntVal(r.numerator) if is_c(r) else r
        else:
            l, r = zr(l), zr(r)
        return mkb({'lt': l < r, 'le': l <= r, 'gt': l > r, 'ge': l >= r, 'eq': l == r, 'ne': l != r}[op]
                   if op in ('eq', 'ne') else {'lt': l.__lt__, 'le': l.__le__, 'gt': l.__gt__, 'ge': l.__ge__}[op](r))

    @binop
    def lt(self, o, n, d, e):
        return self._cmp(n, d, e, 'lt')

    @binop
    def le(self, o, n, d, e):
        return self._cmp(n, d, e, 'le')

    @binop
    def gt(self, o, n, d, e):
        return self._cmp(n, d, e, 'gt')

    @binop
    def ge(self, o, n, d, e):
        return self._cmp(n, d, e, 'ge')

    @binop
    def eq(self, o, n, d, e):
        return self._cmp(n, d, e, 'eq')

    @binop
    def ne(self, o, n, d, e):
        return self._cmp(n, d, e, 'ne')

    def __lt__(self, o): return self.lt(o)
    def __le__(self, o): return self.le(o)
    def __gt__(self, o): return self.gt(o)
    def __ge__(self, o): return self.ge(o)

    def __eq__(self, o):
        r = self.eq(o)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self.ne(o)
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r


def _addq(n1, d1, n2, d2, e):
    if eqterm(d1, d2):
        return mk(add(n1, n2), d1, e)
    return mk(add(mul(n1, d2), mul(n2, d1)), mul(d1, d2), e)


def symreal(name):
    return Sym(z3.Real(name))


def symint(name):
    return Sym(z3.Int(name))


def symlog(name):
    """a positive number represented by its base-10 logarithm"""
    v = z3.Real('lg_' + name)
    return Sym(ONE, ONE, Lin(Fraction(0), {v.get_id(): (v, ONE)}))


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(x, depth=3):
    if isinstance(x, (Sym, SymBool)) or getattr(x, '_symx', False):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym(e, 0) for e in x.flat)
    return False
