"""Proof obligations, models and the exploration of one harness case."""

import json
import io
import os
import random
import contextlib
import shutil
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, num, shadow, standin, strs
from .api import Inputs, Skip
from .core import Cex, FoundViolation, PathEnd, Stats, Unsupported, Budget, Infeasible


sys.set_int_max_str_digits(0)


class Hang(BaseException):
    pass


def values_of(I, model):
    """concrete input values from a model"""
    out = {}
    for name, (kind, z) in I.decl.items():
        if kind == 'text':
            out[name] = ''.join(chr(model.eval(c, model_completion=True).as_long()) for c in z)
            continue
        v = model.eval(z, model_completion=True)
        if kind == 'bool':
            out[name] = z3.is_true(v)
        elif kind == 'int':
            out[name] = v.as_long()
        else:
            if z3.is_algebraic_value(v):
                v = v.approx(17)
            fr = num.frac_of(v)
            if kind == 'log':
                out[name] = num.REVLG[fr] if fr in num.REVLG else 10. ** float(fr)
            else:
                out[name] = float(fr)
    return out


def candidates(I, extra, n=6, seed=0):
    """several models of the path condition and `extra`: the solver's own, then tidied and spread ones"""
    c = core.ctx()
    s = c.solver
    out = []
    s.push()
    try:
        if extra is not None:
            s.add(extra)
        if c._check() != z3.sat:
            return out
        m = s.model()
        rnd = random.Random(seed)
        ins = [(k, z) for k, (kind, z) in I.decl.items() if kind in ('real', 'log')]
        for attempt in range(n):
            if attempt == 0:
                out.append(values_of(I, m))
                continue
            s.push()
            m2 = m
            if c.soft:               # keep away from rounding ties
                s.add(*c.soft)
                if c._check() == z3.sat:
                    m2 = s.model()
                else:
                    s.pop()
                    s.push()
            t0 = time.time()
            for k, z in rnd.sample(ins, len(ins)):
                if time.time() - t0 > 3:
                    break
                v = m2.eval(z, model_completion=True)
                if not z3.is_rational_value(v):
                    continue
                x = float(num.frac_of(v))
                if attempt == 1:
                    opts = [Fraction(round(x * 8), 8) + Fraction(1, 37), Fraction(round(x * 100), 100) + Fraction(1, 3700)]
                else:
                    opts = [Fraction(x) + Fraction(rnd.uniform(-w, w)) for w in (1., .1, .003, 1e-5)]
                for o in opts:
                    s.push()
                    s.add(z == num.q(o))
                    if c._check() == z3.sat:
                        m2 = s.model()
                        break
                    s.pop()
            out.append(values_of(I, m2))
            # unwind every inner push
            while s.num_scopes() > 1:
                s.pop()
    finally:
        while s.num_scopes() > 0:
            s.pop()
        c.model = None
    return out


def obligation(I, cond, label, gap=None):
    c = core.ctx()
    st = c.stats
    st.obligations += 1
    neg = None
    if isinstance(cond, num.SymBool):
        z = z3.simplify(cond.z)
        if z3.is_true(z):
            st.discharged += 1
            return
        neg = z3.Not(z)
    elif bool(cond):
        st.discharged += 1
        return
    r = c._check(neg) if neg is not None else c._check()
    if r == z3.unknown and neg is not None:
        r = second_opinion(c, neg)
    if r == z3.unsat:
        if neg is None:
            st.obligations -= 1
            raise Infeasible()
        st.discharged += 1
        c.assume(z3.Not(neg))
        return
    if r == z3.unknown:
        st.inconclusive += 1
        if len(st.errors) < 20:
            st.errors.append(f'inconclusive: {label}')
        return
    raise FoundViolation(Cex(label, candidates(I, neg)))


def second_opinion(c, neg):
    """another strategy (nlsat), then cvc5, for a query the default strategy leaves open"""
    t0 = time.time()
    try:
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 10000)
        s.add(*c.solver.assertions(), neg)
        r = core.guarded(s.check)
        c.stats.queries += 1
        if r != z3.unknown:
            return r
    except z3.Z3Exception:
        pass
    finally:
        c.stats.solver_s += time.time() - t0
    return z3.unknown


prove = obligation


def prove_close(I, a, b, label, rtol, atol):
    a = a.item() if isinstance(a, np.ndarray) and a.ndim == 0 else a
    b = b.item() if isinstance(b, np.ndarray) and b.ndim == 0 else b
    if not num.is_sym(a) and not num.is_sym(b):
        a, b = float(a), float(b)
        ok = a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= rtol * max(abs(a), abs(b)) + atol
        return obligation(I, ok, label)
    if not num.is_sym(a):
        a, b = b, a
    if not num.is_sym(b) and not np.isfinite(b):
        return obligation(I, False, label)
    # cheap: identical up to algebra
    if isinstance(a, num.SymBool):
        a = a._num()
    if isinstance(b, num.SymBool):
        b = b._num()
    if isinstance(a, num.Sym) and a.e is not None and not num.is_sym(b) and b > 0:
        b = num.Sym(Fraction(float(b)))
    if isinstance(a, num.Sym) and isinstance(b, num.Sym):
        e = (a.e or num.Lin()).add(b.e or num.Lin(), Fraction(-1))
        if a.logcoef() and b.logcoef() and (a.n > 0) == (b.n > 0):
            # log form: |log ratio| <= rtol/2.4
            d = e.z() + num.q(num.lg(abs(a.n / a.d)) - num.lg(abs(b.n / b.d)))
            t = num.q(Fraction(rtol / 2.4))
            return obligation(I, num.mkb(z3.And(d <= t, d >= -t)), label)
        if a.logcoef() or b.logcoef() or (e.const() and a.e is not None):
            pass
        same = z3.simplify(num.zr(num.mul(*_cross(a, b)[0])) - num.zr(num.mul(*_cross(a, b)[1])), som=True) if e.const() and e.k == 0 else None
        if same is not None and z3.is_rational_value(same) and num.frac_of(same) == 0:
            core.ctx().stats.obligations += 1
            core.ctx().stats.discharged += 1
            return
        if e.const() and not atol and a.e is not None:
            # common power of ten: compare the rational parts
            a, b = num.Sym(a.n, a.d), num.Sym(b.n, b.d)
            if e.k:
                a = a * Fraction(10 ** float(e.k))
            return prove_close(I, a, b, label, rtol, atol)
        if (a.e is not None or b.e is not None) and _ispos(a) and _ispos(b):
            d = a / b
            d = d.log10() if num.is_sym(d) else np.log10(d)
            if num.is_sym(d):
                d = d.z()
            else:
                return obligation(I, abs(d) <= rtol / 2.4, label)
            t = num.q(Fraction(rtol / 2.4))
            return obligation(I, num.mkb(z3.And(d <= t, d >= -t)), label)
    az, bz_ = num.zr(_z(a)), num.zr(_z(b))
    df = z3.simplify(az - bz_)
    if z3.is_rational_value(df) and num.frac_of(df) == 0:
        core.ctx().stats.obligations += 1
        core.ctx().stats.discharged += 1
        return
    st = core.ctx().stats
    if rtol >= 1e-9 and num.same_rational(az, bz_, num.PowTable.get().roots, rtol=Fraction(rtol)):
        st.obligations += 1
        st.discharged += 1
        st.identities = getattr(st, 'identities', 0) + 1
        return
    if rtol == 0:
        tol = num.q(Fraction(atol))
        return obligation(I, num.mkb(z3.And(df <= tol, df >= -tol)), label)
    # exact equality first (the usual outcome), the tolerance form only if that is refuted
    c = core.ctx()
    r = c._check(df != 0)
    if r == z3.unsat:
        st.obligations += 1
        st.discharged += 1
        return
    if r == z3.unknown and second_opinion(c, df != 0) == z3.unsat:
        st.obligations += 1
        st.discharged += 1
        return
    ab = lambda x: z3.If(x >= 0, x, -x)
    mx = z3.If(ab(az) >= ab(bz_), ab(az), ab(bz_))
    tol = num.q(Fraction(rtol)) * mx + num.q(Fraction(atol))
    return obligation(I, num.mkb(z3.And(df <= tol, df >= -tol)), label)


def _cross(a, b):
    return (a.n, b.d), (b.n, a.d)


def _z(x):
    return x.z() if isinstance(x, num.Sym) else num.q(Fraction(x))


def _ispos(x):
    if num.is_c(x.n):
        return x.n > 0
    return core.ctx()._check(num.zr(x.n) <= 0) == z3.unsat


def run_case(fn, case, tier, limits, base_tmp):
    """explore one harness case; returns plain data"""
    case = json.loads(json.dumps(case))  # as the replay will see it
    stats = Stats(time.time() + limits['time'], limits.get('paths', 10 ** 9))
    stats.first_side = limits.get('first_side', True)
    shadow.ENCODED.clear()
    witnesses = []
    nw = limits.get('witnesses', 2)
    maxq = limits.get('path_time', 60)

    def on_alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    exc_candidates = []
    cwd0 = os.getcwd()

    def run(c):
        shadow.TOKENS.clear()
        shadow.VFS.clear()
        shadow.OPAQUE[0] = False
        shadow.PMF_FLAT[0] = False
        shadow.LOCALE[0] = None
        tmp = tempfile.mkdtemp(dir=base_tmp)
        os.chdir(tmp)
        I = Inputs('sym', case, tier, tmp)
        c.I = I
        t1, s0 = time.time(), stats.solver_s
        signal.setitimer(signal.ITIMER_REAL, maxq)
        try:
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                        np.errstate(all='ignore'):
                    fn(I)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            # keep models spread over the exploration as witnesses for replay on the real code
            k = stats.paths
            if len(witnesses) < nw or (k % max(1, limits.get('wit_every', 40)) == 0 and len(witnesses) < 3 * nw):
                v = candidates(I, None, n=2, seed=k)
                if v:
                    witnesses.append(v[-1])
        except Skip:
            raise Infeasible()
        except Hang:
            if stats.solver_s - s0 > .5 * (time.time() - t1):
                raise Unsupported('solver time')
            raise FoundViolation(Cex('no termination within the time limit', candidates(I, None), 'soft'))
        except (z3.Z3Exception, RecursionError, MemoryError) as e:
            raise Unsupported(f'engine: {type(e).__name__} {e}')
        except (Exception, SystemExit) as e:
            if standin.lacks(e):
                raise Unsupported(f'stand-in: {type(e).__name__} {e}')
            tb = traceback.extract_tb(e.__traceback__)
            loc = ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[::-1][:4])
            raise FoundViolation(Cex(f'exception {type(e).__name__}: {str(e)[:160]} [{loc}]', candidates(I, None), 'soft'))
        finally:
            os.chdir(cwd0)
            shutil.rmtree(tmp, ignore_errors=True)

    soft, hard = [], []
    t0 = time.time()
    work = [[]]
    while work:
        if time.time() > stats.deadline or stats.paths >= stats.max_paths:
            stats.complete = False
            break
        prefix = work.pop()
        c = core.Ctx(prefix, stats, limits.get('query_ms', 8000))
        core.CUR = c
        try:
            run(c)
            stats.paths += 1
        except Infeasible:
            stats.infeasible += 1
        except Budget:
            stats.complete = False
        except Unsupported as e:
            stats.paths += 1
            stats.undecided.append(str(e)[:300])
        except FoundViolation as e:
            stats.paths += 1
            x = e.args[0]
            (soft if x.info == 'soft' else hard).append(x)
        finally:
            core.CUR = None
        work.extend(c.alternatives)
        if len(hard) >= limits.get('max_cex', 3) or len(soft) >= limits.get('max_soft', 12):
            stats.complete = False
            break
    return dict(case=case, paths=stats.paths, infeasible=stats.infeasible, branches=stats.branches,
                queries=stats.queries, solver_s=round(stats.solver_s, 3), unknown=stats.unknown, pinned=stats.pinned,
                obligations=stats.obligations, discharged=stats.discharged, inconclusive=stats.inconclusive,
                undecided=stats.undecided, complete=stats.complete, reached=stats.reached, witnesses=witnesses,
                identities=getattr(stats, 'identities', 0), errors=stats.errors, wall=round(time.time() - t0, 2), encoded=sorted(shadow.ENCODED),
                cex=[(x.label, x.values, x.info) for x in hard + soft])
