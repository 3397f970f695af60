"""Symbolic strings: fixed length per path, every character either concrete or an Int code with a finite alphabet.
str methods, regular expressions (sre syntax trees) and number formatting are interpreted on them; a test on a
character becomes a formula over its code and forks the path."""

import re
from fractions import Fraction

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:     # pragma: no cover
    import sre_parse, sre_constants as sre_c
import z3

from . import core
from .core import Unsupported
from .num import Sym, SymBool, mkb, is_sym, q, zr, is_c, Lin


class Ch:
    """symbolic character"""
    __slots__ = ('z', 'alts')

    def __init__(self, z, alts):
        self.z, self.alts = z, tuple(alts)

    def test(self, pred):
        """bool or z3 formula: does pred hold of this character"""
        yes = [a for a in self.alts if pred(a)]
        if len(yes) == len(self.alts):
            return True
        if not yes:
            return False
        if len(yes) * 2 > len(self.alts):
            no = [a for a in self.alts if a not in yes]
            return z3.And([self.z != ord(a) for a in no])
        return z3.Or([self.z == ord(a) for a in yes]) if len(yes) > 1 else self.z == ord(yes[0])


def ctest(c, pred):
    """decide pred on a char (concrete or symbolic)"""
    if isinstance(c, str):
        return pred(c)
    t = c.test(pred)
    return t if isinstance(t, bool) else core.ctx().decide(t)


def ceq(a, b):
    """z3/bool equality of two chars"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(b, Ch) and isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        return a.test(lambda x: x == b)
    if a.z.eq(b.z):
        return True
    if not set(a.alts) & set(b.alts):
        return False
    return a.z == b.z


def mks(cs):
    cs = tuple(cs)
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    return SymStr(cs)


def chars(x):
    if isinstance(x, SymStr):
        return x.cs
    if isinstance(x, str):
        return tuple(x)
    raise TypeError(f'expected str, got {type(x)}')


WS = str.isspace


class SymStr:
    __slots__ = ('cs',)
    _symx = True

    def __init__(self, cs):
        self.cs = tuple(cs)

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __hash__(self):
        return hash(choose(self))      # exact: forks over the alphabets

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        return (mks((c,)) for c in self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mks(self.cs[i])
        return mks((self.cs[i],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mks(self.cs + chars(o))

    def __radd__(self, o):
        return mks(chars(o) + self.cs)

    def __mul__(self, k):
        return mks(self.cs * int(k))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        b = chars(o)
        if len(b) != len(self.cs):
            return False
        ts = [ceq(x, y) for x, y in zip(self.cs, b)]
        if any(t is False for t in ts):
            return False
        ts = [t for t in ts if t is not True]
        return mkb(z3.And(ts)) if ts else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        a, b = self.cs, chars(o)
        for x, y in zip(a, b):
            e = ceq(x, y)
            if e is True or (e is not False and core.ctx().decide(e)):
                continue
            return bool(mkb(code(x) < code(y)))
        return len(a) < len(b)

    def __gt__(self, o):
        return not self.__le__(o)

    def __le__(self, o):
        return bool(self.__lt__(o)) or bool(self == o)

    def __ge__(self, o):
        return not self.__lt__(o)

    def __repr__(self):
        return 'SymStr(' + ''.join(c if isinstance(c, str) else '?' for c in self.cs) + ')'

    def __str__(self):
        raise Unsupported('str() of a symbolic string outside the instrumented code')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic string outside the instrumented code')

    def __contains__(self, o):
        return contains(self, o)

    def __mod__(self, o):
        raise Unsupported('% formatting')

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is None:
            if hasattr(str, name):
                raise Unsupported(f'str.{name} on a symbolic string')
            raise AttributeError(f"'str' object has no attribute '{name}'")
        return lambda *a, **k: m(self, *a, **k)


def code(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c.z


def alts_of(c):
    return (c,) if isinstance(c, str) else c.alts


def match_at(cs, i, sub):
    for j, c in enumerate(sub):
        e = ceq(cs[i + j], c)
        if e is True:
            continue
        if e is False or not core.ctx().decide(e):
            return False
    return True


def could_match(cs, i, sub):
    return all(ceq(cs[i + j], c) is not False for j, c in enumerate(sub))


def find(s, sub, start=0, end=None):
    cs, sub = chars(s), chars(sub)
    start, end = norm(start, end, len(cs))
    for i in range(start, end - len(sub) + 1):
        if could_match(cs, i, sub) and match_at(cs, i, sub):
            return i
    return -1


def norm(start, end, n):
    r = slice(start, end).indices(n)
    return r[0], r[1]


def rfind(s, sub, start=0, end=None):
    cs, sub = chars(s), chars(sub)
    start, end = norm(start, end, len(cs))
    for i in range(end - len(sub), start - 1, -1):
        if could_match(cs, i, sub) and match_at(cs, i, sub):
            return i
    return -1


def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def contains(s, sub):
    return find(s, sub) >= 0


def stripset(arg):
    if arg is None:
        return WS
    a = chars(arg)
    if any(not isinstance(c, str) for c in a):
        raise Unsupported('strip with symbolic set')
    return lambda c: c in a


def lstrip(s, arg=None):
    cs, p = chars(s), stripset(arg)
    i = 0
    while i < len(cs) and ctest(cs[i], p):
        i += 1
    return mks(cs[i:])


def rstrip(s, arg=None):
    cs, p = chars(s), stripset(arg)
    i = len(cs)
    while i > 0 and ctest(cs[i - 1], p):
        i -= 1
    return mks(cs[:i])


def strip(s, arg=None):
    return rstrip(lstrip(s, arg), arg)


def split(s, sep=None, maxsplit=-1):
    cs = chars(s)
    out = []
    if sep is None:
        cur = []
        i = 0
        while i < len(cs):
            if ctest(cs[i], WS):
                if cur:
                    out.append(mks(cur))
                    cur = []
                i += 1
                continue
            if not cur and 0 <= maxsplit == len(out):
                return out + [rstrip(mks(cs[i:]))]
            cur.append(cs[i])
            i += 1
        if cur:
            out.append(mks(cur))
        return out
    sub = chars(sep)
    if not sub:
        raise ValueError('empty separator')
    i = st = 0
    while i <= len(cs) - len(sub):
        if (maxsplit < 0 or len(out) < maxsplit) and could_match(cs, i, sub) and match_at(cs, i, sub):
            out.append(mks(cs[st:i]))
            i += len(sub)
            st = i
        else:
            i += 1
    return out + [mks(cs[st:])]


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        raise Unsupported('rsplit')
    out = []
    while maxsplit:
        i = rfind(s, sep)
        if i < 0:
            break
        out.insert(0, s[i + len(sep):])
        s = s[:i]
        maxsplit -= 1
    return [s] + out


def partition(s, sep):
    i = find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def splitlines(s, keepends=False):
    cs = chars(s)
    brk = lambda c: len(('a' + c + 'b').splitlines()) == 2
    out, st, i = [], 0, 0
    while i < len(cs):
        if ctest(cs[i], brk):
            j = i + 1
            if ctest(cs[i], lambda c: c == '\r') and j < len(cs) and ctest(cs[j], lambda c: c == '\n'):
                j += 1
            out.append(mks(cs[st:j if keepends else i]))
            st = i = j
        else:
            i += 1
    if st < len(cs):
        out.append(mks(cs[st:]))
    return out


def replace(s, old, new, count=-1):
    if len(old) == 0:
        raise Unsupported('replace empty')
    parts = split(s, old, count)
    return join(new, parts)


def join(sep, it):
    out = []
    for k, p in enumerate(it):
        if not isinstance(p, str):
            raise TypeError(f'sequence item {k}: expected str instance, {type(p).__name__} found')
        if k:
            out += chars(sep)
        out += chars(p)
    return mks(out)


def startswith(s, p, start=0, end=None):
    if isinstance(p, tuple):
        return any(startswith(s, e, start, end) for e in p)
    cs, sub = chars(s[start:end]), chars(p)
    return len(sub) <= len(cs) and could_match(cs, 0, sub) and match_at(cs, 0, sub)


def endswith(s, p, start=0, end=None):
    if isinstance(p, tuple):
        return any(endswith(s, e, start, end) for e in p)
    cs, sub = chars(s[start:end]), chars(p)
    k = len(cs) - len(sub)
    return k >= 0 and could_match(cs, k, sub) and match_at(cs, k, sub)


def count(s, sub):
    return len(split(s, sub)) - 1


def casemap(f):
    def g(s):
        out = []
        for c in chars(s):
            if isinstance(c, str):
                out.append(f(c))
                continue
            m = {a: f(a) for a in c.alts}
            if all(a == b for a, b in m.items()):
                out.append(c)
                continue
            z = z3.IntVal(ord(m[c.alts[-1]]))
            for a in c.alts[:-1]:
                z = z3.If(c.z == ord(a), z3.IntVal(ord(m[a])), z)
            out.append(Ch(z, sorted(set(m.values()))))
        return mks(out)
    return g


def allof(f):
    return lambda s: len(s) > 0 and all(ctest(c, f) for c in chars(s))


def pad(kind):
    def g(s, w, fill=' '):
        n = int(w) - len(s)
        if n <= 0:
            return s
        if kind == 'l':
            return join('', [s, fill * n])
        if kind == 'r':
            return join('', [fill * n, s])
        return join('', [fill * (n // 2), s, fill * (n - n // 2)])
    return g


def removeprefix(s, p):
    return s[len(p):] if startswith(s, p) else s


def removesuffix(s, p):
    return s[:-len(p)] if p and endswith(s, p) else s


METHODS = dict(split=split, rsplit=rsplit, strip=strip, lstrip=lstrip, rstrip=rstrip, splitlines=splitlines,
               replace=replace, join=join, startswith=startswith, endswith=endswith, find=find, rfind=rfind,
               index=index, count=count, partition=partition, rpartition=rpartition, lower=casemap(str.lower),
               upper=casemap(str.upper), casefold=casemap(str.casefold), isdigit=allof(str.isdigit), isspace=allof(str.isspace), isalpha=allof(str.isalpha),
               isalnum=allof(str.isalnum), isdecimal=allof(str.isdecimal), isnumeric=allof(str.isnumeric),
               ljust=pad('l'), rjust=pad('r'), center=pad('c'),
               removeprefix=removeprefix, removesuffix=removesuffix,
               zfill=lambda s, w: pad('r')(s, w, '0'),
               expandtabs=lambda s, n=8: s, encode=lambda s, *a: s)


# ---------------------------------------------------------------- numbers <-> text
def digits_of(m, nd):
    """nd decimal digits (most significant first) of Int term m, as chars"""
    c = core.ctx()
    m = z3.simplify(m)
    if z3.is_int_value(m):
        return tuple(f'{m.as_long():0{nd}d}')
    ds = [c.fresh('dg', 'int') for _ in range(nd)]
    for d in ds:
        c.assume(z3.And(d >= 0, d <= 9))
    c.assume(z3.Sum([d * 10 ** (nd - 1 - i) for i, d in enumerate(ds)]) == m)
    return tuple(Ch(d + 48, '0123456789') for d in ds)


def sci(x, p):
    """|x| rounded to p significant digits: (digit term m with p digits, exponent); x a positive Sym"""
    c = core.ctx()
    k = decade(x)
    y = x * Fraction(10) ** (p - 1 - k)      # in [10^(p-1), 10^p)
    m = round_half_even(y)
    if c.decide(m == 10 ** p):
        return z3.IntVal(10 ** (p - 1)), k + 1
    return m, k


def decade(x):
    """floor(log10 x) by forking"""
    lo, hi = -30, 30
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if bool(x >= 10 ** Fraction(mid)) if mid >= 0 else bool(x >= Fraction(1, 10 ** -mid)):
            lo = mid
        else:
            hi = mid - 1
    return lo


def round_half_even(y):
    c = core.ctx()
    if isinstance(y, float):
        return z3.IntVal(round(y))
    if y.is_int():
        return y.n
    yn, yd = y.plain()
    m = c.fresh('rnd', 'int')
    d = zr(yn) - z3.ToReal(m) * zr(yd)
    h = zr(yd) / 2 if not (is_c(yd) and yd == 1) else q(Fraction(1, 2))
    # ties go either way: binary doubles are not exact decimals, and exact ties are outside the model
    c.assume(z3.And(d <= h, d >= -h))
    c.soft.append(z3.And(10 * d <= 8 * h, 10 * d >= -8 * h))
    return m


SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ]?)(z?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$')


def fmt(v, spec=''):
    if not is_sym(v) and not isinstance(v, SymStr):
        if isinstance(spec, SymStr):
            raise Unsupported('symbolic format spec')
        return format(v, spec)
    if isinstance(spec, SymStr):
        raise Unsupported('symbolic format spec')
    m = SPEC.match(spec)
    if not m:
        raise Unsupported(f'format spec {spec!r}')
    fill, align, sign, _, alt, zero, width, comma, prec, t = m.groups()
    if alt or comma:
        raise Unsupported(f'format spec {spec!r}')
    if isinstance(v, SymStr):
        s = v[:int(prec)] if prec else v
        align = align or '<'
    else:
        if isinstance(v, SymBool):
            v = v._num()
        align = align or '>'
        s = fmtnum(v, sign, None if prec is None else int(prec), t)
    if width:
        w = int(width)
        if zero and not m.group(2):
            fill, align = '0', '='
        n = w - len(s)
        if n > 0:
            f = (fill or ' ') * n
            if align == '=':
                k = 1 if s[0] in ('-', '+') else 0
                s = join('', [s[:k], f, s[k:]])
            elif align == '>':
                s = join('', [f, s])
            elif align == '<':
                s = join('', [s, f])
            else:
                s = join('', [f[:n // 2], s, f[n // 2:]])
    return s


def fmtnum(v, sign, prec, t):
    c = core.ctx()
    if t in ('d', 'n') or (t == '' and v.is_int()):
        if not v.is_int():
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        sg = v.sign()
        if sg == 0:
            return '0'
        a = v if sg > 0 else -v
        nd = decade(a) + 1
        return join('', ['-' if sg < 0 else ('+' if sign == '+' else ''), mks(digits_of(a.n, nd))])
    sg = v.sign()
    pre = '-' if sg < 0 else ('+' if sign == '+' else (' ' if sign == ' ' else ''))
    a = v if sg >= 0 else -v
    p = 6 if prec is None else prec
    tl = t.lower()
    if tl == 'e':
        if sg == 0:
            return format(0., f'.{p}e')
        m, k = sci(a, p + 1)
        d = digits_of(m, p + 1)
        return join('', [pre, mks(d[:1]), '.' if p else '', mks(d[1:]), t, '-' if k < 0 else '+', f'{abs(k):02d}'])
    if tl == 'f':
        if sg == 0:
            return format(0., f'.{p}f')
        m = round_half_even(a * 10 ** p)
        if c.decide(m == 0):
            return pre + format(0., f'.{p}f')
        nd = 1
        while not c.decide(m < 10 ** nd):
            nd += 1
            if nd > 40:
                raise Unsupported('too many digits')
        nd = max(nd, p + 1)
        d = digits_of(m, nd)
        return join('', [pre, mks(d[:nd - p]), '.' if p else '', mks(d[nd - p:])])
    if tl == 'g' or t == '':
        if sg == 0:
            return '0' if t else '0.0'
        if t == '' and prec is None:
            raise Unsupported('shortest repr of a symbolic float')
        p = p or 1
        m, k = sci(a, p)
        d = list(digits_of(m, p))
        while len(d) > 1 and ctest(d[-1], lambda x: x == '0'):
            d.pop()
        if -4 <= k < p:
            if k >= 0:
                d += ['0'] * (k + 1 - len(d))
                ip, fp = d[:k + 1], d[k + 1:]
            else:
                ip, fp = ['0'], ['0'] * (-k - 1) + d
            return join('', [pre, mks(ip), '.' if fp else '', mks(fp)])
        return join('', [pre, mks(d[:1]), '.' if len(d) > 1 else '', mks(d[1:]), 'E' if t == 'G' else 'e',
                         '-' if k < 0 else '+', f'{abs(k):02d}'])
    raise Unsupported(f'format type {t!r}')


NUMRE = re.compile(r'\s*([-+]?)(\d*)(?:\.(\d*))?(?:[eE]([-+]?\d+))?\s*$')


def digitval(c):
    return Sym(code(c) - 48) if isinstance(c, Ch) else int(c)


def tonum(s, integer=False):
    """float()/int() of a symbolic string, forking on its character classes"""
    s = strip(s)
    cs = list(chars(s))
    i, n = 0, len(cs)
    isd = lambda c: c in '0123456789'
    bad = ValueError('could not convert string to float (symbolic)')
    sg = 1
    if i < n and ctest(cs[i], lambda c: c in '+-'):
        sg = -1 if ctest(cs[i], lambda c: c == '-') else 1
        i += 1
    digs, point, seen = [], 0, False
    while i < n:
        if ctest(cs[i], isd):
            digs.append(cs[i])
            point += seen
        elif not seen and not integer and ctest(cs[i], lambda c: c == '.'):
            seen = True
        else:
            break
        i += 1
    if not digs:
        raise bad
    ex = 0
    if i < n:
        if integer or not ctest(cs[i], lambda c: c in 'eE'):
            raise bad
        i += 1
        es = 1
        if i < n and ctest(cs[i], lambda c: c in '+-'):
            es = -1 if ctest(cs[i], lambda c: c == '-') else 1
            i += 1
        if i >= n:
            raise bad
        while i < n:
            if not ctest(cs[i], isd):
                raise bad
            v = digitval(cs[i])
            ex = ex * 10 + (v if isinstance(v, int) else core.ctx().choose_value(v.n))
            i += 1
        ex *= es
    v = 0
    for d in digs:
        v = v * 10 + digitval(d)
    if integer:
        return v * sg
    return (v * sg) * (Fraction(10) ** (ex - point)) if is_sym(v) else float(v * sg * Fraction(10) ** (ex - point))


# ---------------------------------------------------------------- regular expressions
CATS = {
    'CATEGORY_DIGIT': lambda c: bool(re.match(r'\d', c)), 'CATEGORY_NOT_DIGIT': lambda c: bool(re.match(r'\D', c)),
    'CATEGORY_SPACE': lambda c: bool(re.match(r'\s', c)), 'CATEGORY_NOT_SPACE': lambda c: bool(re.match(r'\S', c)),
    'CATEGORY_WORD': lambda c: bool(re.match(r'\w', c)), 'CATEGORY_NOT_WORD': lambda c: bool(re.match(r'\W', c)),
}


def class_pred(items, flags):
    neg_ = False
    preds = []
    for op, av in items:
        n = str(op)
        if n == 'NEGATE':
            neg_ = True
        elif n == 'LITERAL':
            preds.append(lit_pred(av, flags))
        elif n == 'RANGE':
            lo, hi = av
            if flags & re.I:
                preds.append(lambda c, lo=lo, hi=hi: any(lo <= ord(x) <= hi for x in {c, c.lower()[:1], c.upper()[:1]}))
            else:
                preds.append(lambda c, lo=lo, hi=hi: lo <= ord(c) <= hi)
        elif n == 'CATEGORY':
            preds.append(CATS[str(av)])
        else:
            raise Unsupported(f'regex class {n}')
    return (lambda c: not any(p(c) for p in preds)) if neg_ else (lambda c: any(p(c) for p in preds))


def lit_pred(av, flags):
    ch = chr(av)
    if flags & re.I:
        return lambda c: c.lower() == ch.lower()
    return lambda c: c == ch


class SymMatch:
    def __init__(self, pat, s, groups, start, end):
        self.re, self.string, self._g, self._s, self._e = pat, s, groups, start, end

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return self._s, self._e
        return self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            a, b = self._span(g)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(default if (v := self.group(i)) is None else v for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(k) for k in self.re.groupindex}

    @property
    def lastindex(self):
        return max(self._g, default=None)

    def __bool__(self):
        return True


class Matcher:
    def __init__(self, pattern, flags=0):
        self.pat = re.compile(pattern, flags)
        self.tree = sre_parse.parse(self.pat.pattern, self.pat.flags & ~re.U if isinstance(self.pat.pattern, bytes) else self.pat.flags)
        self.flags = self.pat.flags
        self.groups, self.groupindex = self.pat.groups, self.pat.groupindex

    def run(self, s, i, full=False, must_advance=False):
        cs = chars(s)
        n = len(cs)
        self.steps = 0

        def seq(items, k, i, g, cont):
            self.steps += 1
            if self.steps > 200000:
                raise Unsupported('regex too long')
            if k == len(items):
                return cont(i, g)
            op, av = items[k]
            name = str(op)
            nxt = lambda j, g2: seq(items, k + 1, j, g2, cont)
            if name == 'LITERAL':
                return nxt(i + 1, g) if i < n and ctest(cs[i], lit_pred(av, self.flags)) else None
            if name == 'NOT_LITERAL':
                p = lit_pred(av, self.flags)
                return nxt(i + 1, g) if i < n and ctest(cs[i], lambda c: not p(c)) else None
            if name == 'ANY':
                p = (lambda c: True) if self.flags & re.S else (lambda c: c != '\n')
                return nxt(i + 1, g) if i < n and ctest(cs[i], p) else None
            if name == 'IN':
                return nxt(i + 1, g) if i < n and ctest(cs[i], class_pred(av, self.flags)) else None
            if name == 'BRANCH':
                for alt in av[1]:
                    r = seq(alt.data, 0, i, g, nxt)
                    if r is not None:
                        return r
                return None
            if name == 'SUBPATTERN':
                gid, addf, delf, p = av
                old = self.flags
                if addf or delf:
                    raise Unsupported('inline flags')

                def after(j, g2):
                    if gid is not None:
                        g2 = dict(g2)
                        g2[gid] = (i, j)
                    return nxt(j, g2)
                return seq(p.data, 0, i, g, after)
            if name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                lo, hi, p = av
                hi = n + 1 if hi == sre_c.MAXREPEAT else hi
                body = p.data
                if len(body) == 1 and str(body[0][0]) in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN') and name != 'POSSESSIVE_REPEAT':
                    return simple_repeat(body[0], lo, hi, name == 'MIN_REPEAT', i, g, nxt)

                def rep(cnt, j, g2, last):
                    if name == 'MIN_REPEAT':
                        if cnt >= lo:
                            r = nxt(j, g2)
                            if r is not None:
                                return r
                        if cnt < hi and (j != last or cnt < lo):
                            return seq(body, 0, j, g2, lambda j2, g3: rep(cnt + 1, j2, g3, j))
                        return None
                    if cnt < hi and (j != last or cnt < lo):
                        r = seq(body, 0, j, g2, lambda j2, g3: rep(cnt + 1, j2, g3, j))
                        if r is not None:
                            return r
                    return nxt(j, g2) if cnt >= lo else None
                return rep(0, i, g, -1)
            if name == 'AT':
                return nxt(i, g) if self.at(str(av), cs, i, n) else None
            if name in ('ASSERT', 'ASSERT_NOT'):
                d, p = av
                if d == 1:
                    r = seq(p.data, 0, i, g, lambda j, g2: (j, g2))
                else:
                    lo, hi = p.getwidth()
                    r = seq(p.data, 0, i - lo, g, lambda j, g2: (j, g2) if j == i else None) if i >= lo else None
                if name == 'ASSERT':
                    return nxt(i, r[1]) if r is not None else None
                return nxt(i, g) if r is None else None
            if name == 'GROUPREF':
                a, b = g.get(av, (-1, -1))
                if a < 0 or i + b - a > n or not (could_match(cs, i, cs[a:b]) and match_at(cs, i, cs[a:b])):
                    return None
                return nxt(i + b - a, g)
            raise Unsupported(f'regex op {name}')

        def simple_repeat(item, lo, hi, lazy, i, g, nxt):
            name, av = str(item[0]), item[1]
            if name == 'LITERAL':
                p = lit_pred(av, self.flags)
            elif name == 'NOT_LITERAL':
                p0 = lit_pred(av, self.flags)
                p = lambda c: not p0(c)
            elif name == 'ANY':
                p = (lambda c: True) if self.flags & re.S else (lambda c: c != '\n')
            else:
                p = class_pred(av, self.flags)
            j = i
            if lazy:
                while j - i < lo:
                    if j >= n or not ctest(cs[j], p):
                        return None
                    j += 1
                while True:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                    if j - i >= hi or j >= n or not ctest(cs[j], p):
                        return None
                    j += 1
            while j < n and j - i < hi and ctest(cs[j], p):
                j += 1
            while j - i >= lo:
                r = nxt(j, g)
                if r is not None:
                    return r
                j -= 1
            return None

        i0 = i

        def fin(j, g):
            if full and j != n or must_advance and j == i0:
                return None
            return j, g
        return seq(self.tree.data, 0, i, {}, fin)

    def at(self, a, cs, i, n):
        ml = self.flags & re.M
        nl = lambda c: c == '\n'
        if a == 'AT_BEGINNING':
            return i == 0 or (bool(ml) and ctest(cs[i - 1], nl))
        if a == 'AT_BEGINNING_STRING':
            return i == 0
        if a == 'AT_END':
            if i == n:
                return True
            if ml:
                return ctest(cs[i], nl)
            return i == n - 1 and ctest(cs[i], nl)
        if a == 'AT_END_STRING':
            return i == n
        if a in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            w = CATS['CATEGORY_WORD']
            l = i > 0 and ctest(cs[i - 1], w)
            r = i < n and ctest(cs[i], w)
            return (l != r) == (a == 'AT_BOUNDARY')
        raise Unsupported(f'regex {a}')

    def _m(self, s, r, i):
        return None if r is None else SymMatch(self, s, r[1], i, r[0])

    def match(self, s, pos=0):
        return self._m(s, self.run(s, pos), pos)

    def fullmatch(self, s):
        return self._m(s, self.run(s, 0, full=True), 0)

    def search(self, s, pos=0):
        for i in range(pos, len(s) + 1):
            r = self.run(s, i)
            if r is not None:
                return self._m(s, r, i)
        return None

    def finditer(self, s):
        i, adv, n = 0, False, len(s)
        while i <= n:
            m = None
            for j in range(i, n + 1):
                r = self.run(s, j, must_advance=adv and j == i)
                if r is not None:
                    m = self._m(s, r, j)
                    break
            if m is None:
                return
            yield m
            i, adv = m.end(), m.end() == m.start()

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(m.groups(''))
        return out

    def split(self, s, maxsplit=0):
        out, st, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[st:m.start()])
            out += list(m.groups())
            st = m.end()
            n += 1
        return out + [s[st:]]

    def sub(self, repl, s, count=0):
        out, st, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[st:m.start()])
            if callable(repl):
                out.append(repl(m))
            elif isinstance(repl, SymStr) or '\\' not in repl:
                out.append(repl)
            else:
                out.append(self._expand(m, repl))
            st = m.end()
            n += 1
        return join('', out + [s[st:]])

    def _expand(self, m, repl):
        out, i = [], 0
        for t in re.finditer(r'\\(?:g<(\w+)>|(\d+)|(.))', repl):
            out.append(repl[i:t.start()])
            g = t.group(1) or t.group(2)
            if g is not None:
                v = m.group(int(g) if g.isdigit() else g)
                out.append(v if v is not None else '')
            else:
                out.append({'n': '\n', 't': '\t', '\\': '\\'}.get(t.group(3), '\\' + t.group(3)))
            i = t.end()
        return join('', out + [repl[i:]])


_mc = {}


def matcher(p, flags=0):
    if isinstance(p, Matcher):
        return p
    if isinstance(p, SymStr):
        return sympattern(p, flags)
    if isinstance(p, re.Pattern):
        k = (p.pattern, p.flags)
    else:
        k = (p, int(flags))
    if k not in _mc:
        _mc[k] = Matcher(*k)
    return _mc[k]


SPECIAL = set('.^$*+?{}[]\\|()')


def sympattern(p, flags):
    """regex built from symbolic text: symbolic characters are resolved to a value (forked over their alphabet)"""
    out = []
    for c in p.cs:
        if isinstance(c, str):
            out.append(c)
        else:
            out.append(chr(core.ctx().choose_value(c.z)))
    return matcher(''.join(out), flags)


def choose(s):
    """fork a symbolic string into concrete ones"""
    return ''.join(c if isinstance(c, str) else chr(core.ctx().choose_value(c.z)) for c in chars(s))
