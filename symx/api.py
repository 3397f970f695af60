"""What a harness sees: inputs, preconditions and assertions, in symbolic mode (proxies, instrumented code) and in
concrete mode (plain values, the real modules untouched)."""

import importlib
import math
import os
import signal
import sys
import traceback
from fractions import Fraction

CONC_SLACK = 0.1     # a concrete run reports a violation at a tenth of the symbolic tolerance


class Violation(Exception):
    """a failed assertion in concrete mode"""


class Skip(BaseException):
    """concrete inputs do not meet the precondition"""


class Inputs:
    def __init__(self, mode, case, tier, tmp, values=None):
        self.mode, self.case, self.tier, self.tmp = mode, case, tier, tmp
        self.sym = mode == 'sym'
        self.values = values or {}
        self.decl = {}
        self.ntok = 0
        self._ctoks = {}
        self.notes = {}

    # ------------------------------------------------------------ modules under test
    @property
    def cst(self):
        return importlib.import_module('craterstats')

    @property
    def gm(self):
        return importlib.import_module('craterstats.gm')

    def mod(self, name):
        return importlib.import_module(name)

    @property
    def np(self):
        if self.sym:
            from . import shadow
            return shadow.proxies()['numpy']
        import numpy
        return numpy

    # ------------------------------------------------------------ inputs
    def _v(self, name):
        if name not in self.values:
            raise Skip()         # the run passed the point its counterexample was found at
        return self.values[name]

    def real(self, name, lo=None, hi=None, lo_open=False):
        if not self.sym:
            return float(self._v(name))
        from . import num
        v = num.symreal(name)
        self.decl[name] = ('real', v.n)
        self._bound(v, lo, hi, lo_open)
        return v

    def log(self, name, lo, hi):
        """positive real given by its logarithm"""
        if not self.sym:
            return float(self._v(name))
        from . import num, core
        v = num.symlog(name)
        z = v.e.z()
        self.decl[name] = ('log', z)
        core.ctx().assume(z >= num.q(num.lg(Fraction(lo))))
        core.ctx().assume(z <= num.q(num.lg(Fraction(hi))))
        return v

    def int(self, name, lo, hi):
        if not self.sym:
            return int(self._v(name))
        from . import num
        v = num.symint(name)
        self.decl[name] = ('int', v.n)
        self._bound(v, lo, hi, False)
        return v

    def choice(self, name, options):
        """one of several concrete options, forked"""
        options = list(options)
        if not self.sym:
            return options[int(self._v(name))]
        from . import num, core
        v = num.symint(name)
        self.decl[name] = ('int', v.n)
        self._bound(v, 0, len(options) - 1, False)
        return options[core.ctx().choose_value(v.n)]

    def flag(self, name):
        """a symbolic truth value"""
        if not self.sym:
            return bool(self._v(name))
        import z3
        from . import num
        b = z3.Bool(name)
        self.decl[name] = ('bool', b)
        return num.SymBool(b)

    def text(self, name, length, alphabet):
        """string of `length` characters (int, or (lo,hi) to fork) over a finite alphabet"""
        if not self.sym:
            return self._v(name)
        import z3
        from . import strs, core, num
        if isinstance(length, tuple):
            n = z3.Int(name + '#len')
            core.ctx().assume(z3.And(n >= length[0], n <= length[1]))
            length = core.ctx().choose_value(n)
        cs = []
        alphabet = sorted(set(alphabet))
        for i in range(length):
            c = z3.Int(f'{name}#{i}')
            core.ctx().assume(z3.Or([c == ord(a) for a in alphabet]))
            cs.append(strs.Ch(c, alphabet))
        self.decl[name] = ('text', [c.z for c in cs])
        return strs.mks(cs)

    def _bound(self, v, lo, hi, lo_open):
        from . import core, num
        if lo is not None:
            core.ctx().assume(num.bz(v > lo if lo_open else v >= lo))
        if hi is not None:
            core.ctx().assume(num.bz(v <= hi))

    def token(self, v, form='plain'):
        """numeric text standing for the value in a file: float(text) gives v back"""
        if not self.sym:
            t = repr(float(v))
            if form == 'exp':
                t = f'{float(v) / 1e6:.17e}'.split('e')
                m = f'{float(v):.17e}'
                return m
            if form == 'int':
                return str(int(v))
            return f'{float(v):.12f}' if 'e' in t else t
        from . import shadow
        if not isinstance(v, (shadow.Sym,)):
            return repr(v)
        key = id(v)
        self.ntok += 1
        t = f'9{len(shadow.TOKENS):06d}'
        if form == 'exp':
            shadow.TOKENS[t] = v / Fraction(10) ** 6
            return t + 'e+06'
        if form == 'int':
            shadow.TOKENS[t] = v
            return t
        shadow.TOKENS[t] = v
        return t + '.0'

    # ------------------------------------------------------------ preconditions and assertions
    def assume(self, cond):
        if not self.sym:
            if not bool(cond):
                raise Skip()
            return
        from . import core, num
        core.ctx().assume(num.bz(cond))

    def check(self, cond, label):
        """assert cond"""
        self.notes[label] = self.notes.get(label, 0) + 1
        if not self.sym:
            if not bool(cond):
                raise Violation(label)
            return
        from . import engine
        engine.prove(self, cond, label)

    def close(self, a, b, label, rtol=1e-6, atol=0.):
        """assert a == b up to relative/absolute tolerance"""
        if not self.sym:
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                if not (math.isnan(a) and math.isnan(b)):
                    raise Violation(f'{label}: {a!r} vs {b!r}')
                return
            if a == b:
                return
            if not abs(a - b) <= CONC_SLACK * (rtol * max(abs(a), abs(b)) + atol):
                raise Violation(f'{label}: {a!r} vs {b!r}')
            return
        from . import engine
        engine.prove_close(self, a, b, label, rtol, atol)

    def closeall(self, a, b, label, **k):
        self.check(len(a) == len(b), label + ' (length)')
        for i in range(len(a)):
            self.close(a[i], b[i], f'{label}[{i}]', **k)

    def eqtext(self, a, b, label):
        if not self.sym:
            if a != b:
                raise Violation(f'{label}: {a!r} vs {b!r}')
            return
        self.check(a == b, label)

    def close_or_skip_on_boundary(self, *a, **k):
        self.close(*a, **k)

    def reach(self, label):
        """reachability witness"""
        if self.sym:
            from . import core
            st = core.ctx().stats
            st.reached[label] = st.reached.get(label, 0) + 1

    # ------------------------------------------------------------ helpers usable in both modes
    def all(self, conds):
        """conjunction without forking"""
        if not self.sym:
            return all(bool(c) for c in conds)
        import z3
        from . import num
        return num.mkb(z3.And([num.bz(c) for c in conds]))

    def any(self, conds):
        if not self.sym:
            return any(bool(c) for c in conds)
        import z3
        from . import num
        return num.mkb(z3.Or([num.bz(c) for c in conds]))

    def imp(self, a, b):
        return self.any([self.nt(a), b])

    def nt(self, a):
        if not self.sym:
            return not bool(a)
        import z3
        from . import num
        return num.mkb(z3.Not(num.bz(a)))

    def ite(self, c, a, b):
        """value selection without forking (plain numbers)"""
        if not self.sym:
            return a if c else b
        import z3
        from . import num
        if not isinstance(c, num.SymBool):
            return a if c else b
        p = [x if isinstance(x, num.Sym) else num.Sym(num.q(Fraction(x))) for x in (a, b)]
        return num.Sym(z3.If(c.z, p[0].z(), p[1].z()))

    def count(self, conds):
        """number of true conditions, as a number"""
        r = 0
        for c in conds:
            r = r + self.ite(c, 1, 0)
        return r

    def writefile(self, name, text):
        p = os.path.join(self.tmp, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if self.sym:
            from . import shadow
            if type(text) is not str:
                shadow.VFS[os.path.abspath(p)] = text
                return p
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        return p

    def capture_writes(self):
        if self.sym:
            from . import shadow
            shadow.VFS['*capture*'] = True

    def plain_locale(self):
        """files opened without naming an encoding are read and written as ASCII, as in the C locale"""
        if self.sym:
            from . import shadow
            shadow.LOCALE[0] = 'ascii'
            return
        import builtins
        real = builtins.open

        def plain(path, mode='r', *a, **k):
            if 'b' not in mode and len(a) < 2 and not k.get('encoding'):
                k['encoding'] = 'ascii'
            return real(path, mode, *a, **k)
        builtins.open = plain

    def readback(self, p):
        """text the code under test wrote"""
        if self.sym:
            from . import shadow
            if os.path.abspath(p) in shadow.VFS:
                return shadow.VFS[os.path.abspath(p)]
        with open(p, encoding='utf-8') as f:
            return f.read()

    def exists(self, p):
        if self.sym:
            from . import shadow
            if os.path.abspath(p) in shadow.VFS:
                return True
        return os.path.exists(p)

    def opaque_numbers(self):
        """numbers written as text become single opaque tokens that read back as the rounded value"""
        if self.sym:
            from . import shadow
            shadow.OPAQUE[0] = True

    def flat_likelihood(self):
        """symbolic runs take every likelihood as 1: for harnesses whose assertions do not depend on it"""
        if self.sym:
            from . import shadow
            shadow.PMF_FLAT[0] = True

    def pmf(self, k, lam):
        """Poisson probability of k for expectation lam"""
        if self.sym:
            from . import shadow
            return shadow.s_poisson_pmf(k, self.np.array([lam]))[0]
        from scipy.stats import poisson
        return float(poisson.pmf(k, lam))

    def tostr(self, v, spec=''):
        """the number written as text (the shortest form, or by a format)"""
        if self.sym:
            from . import shadow
            return shadow.fmt_any(v, spec) if spec else shadow.c_str(v)
        return format(v, spec) if spec else str(v)

    def tonum(self, s):
        if self.sym:
            from . import shadow
            return shadow.c_float(s)
        return float(s)

    def call_exit(self, f, *a, **k):
        """(result, None) or (None, SystemExit message)"""
        try:
            return f(*a, **k), None
        except SystemExit as e:
            return None, (e.args[0] if e.args else '')
