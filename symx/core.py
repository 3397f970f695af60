"""Path exploration engine: symbolic execution of real Python code by re-execution.

A *harness* is an ordinary Python function that calls the code under test.  In symbolic mode the inputs it gets are
proxies; every branch whose condition depends on them ends in decide(), which asks the SMT solver which sides are
feasible and schedules the other one.  Assertions are sent to the solver together with the path condition."""

import os
import sys
import threading
import time
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """ends the current path (BaseException: code under test must not swallow it)"""


class Infeasible(PathEnd):
    pass


class Budget(PathEnd):
    pass


class FoundViolation(PathEnd):
    pass


class Unsupported(PathEnd):
    """the engine cannot interpret an operation: path is counted as undecided"""


class Cex:
    def __init__(self, label, values, info=''):
        self.label, self.values, self.info = label, values, info


class Ctx:
    def __init__(self, prefix, stats, timeout_ms=8000):
        self.prefix = prefix
        self.trace = []
        self.alternatives = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.model = None
        self.known = {}
        self.pows = []          # materialised powers of ten (e, P(e))
        self.inputs = {}        # name -> Input description
        self.pinned = 0
        self.fresh_n = 0
        self.checks = 0
        self.keep = []
        self.soft = []          # conditions that keep models away from rounding ties

    # ---------------------------------------------------------------- solver access
    def _check(self, *assumptions):
        t = time.time()
        self.stats.queries += 1
        try:
            return guarded(self.solver.check, *assumptions)
        finally:
            self.stats.solver_s += time.time() - t

    def fresh(self, name, sort='real'):
        self.fresh_n += 1
        n = f'{name}!{self.fresh_n}'
        return {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](n)

    def assume(self, cond):
        """constrain the inputs (harness precondition) or add a defining fact"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def feasible(self):
        if self.model is not None:
            return True
        r = self._check()
        if r == z3.sat:
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            return False
        self.stats.unknown += 1
        return True

    def decide(self, cond):
        """Truth value of cond on this path.  Every call is recorded, so that a prefix replays without re-deciding."""
        k = len(self.trace)
        if k < len(self.prefix):
            side, real = self.prefix[k]
            self.trace.append(self.prefix[k])
            if real:
                self._commit(cond, side)
            return side
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            side = z3.is_true(cond)
            self.trace.append((side, False))
            return side
        key = cond.get_id()
        if key in self.known:
            side = self.known[key]
            self.trace.append((side, False))
            return side
        if time.time() > self.stats.deadline:
            raise Budget()
        side = self._new_decision(cond)
        self.trace.append((side, True))
        self._commit(cond, side)
        return side

    def _commit(self, cond, side):
        self.solver.add(cond if side else z3.Not(cond))
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not (z3.is_true(v) if side else z3.is_false(v)):
                self.model = None
        self.keep.append(cond)
        self.known[cond.get_id()] = side

    def _new_decision(self, cond):
        self.stats.branches += 1
        if not self.feasible():
            raise Infeasible()
        t_ok = f_ok = None
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                t_ok = True
            elif z3.is_false(v):
                f_ok = True
        if t_ok is None:
            r = self._check(cond)
            t_ok = r != z3.unsat
            if r == z3.unknown:
                self.stats.unknown += 1
        if f_ok is None:
            r = self._check(z3.Not(cond))
            f_ok = r != z3.unsat
            if r == z3.unknown:
                self.stats.unknown += 1
        if t_ok and f_ok:
            side = self.stats.first_side
            self.alternatives.append(self.trace + [(not side, True)])
            return side
        if not t_ok and not f_ok:
            raise Infeasible()
        return t_ok

    def choose_value(self, expr):
        """fork over the feasible values of an Int expression; returns a Python int"""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        while True:
            k = len(self.trace)
            if k < len(self.prefix):
                v = self.prefix[k]
            else:
                if not self.feasible():
                    raise Infeasible()
                if self.model is None:
                    raise Budget()
                v = ('v', self.model.eval(expr, model_completion=True).as_long())
            self.trace.append(v)
            if self.decide(expr == v[1]):
                return v[1]

    def pin(self, expr):
        """concretise: continue with one feasible value of expr only; recorded as lost coverage"""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr) or z3.is_rational_value(expr):
            return expr
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][1]
        else:
            if not self.feasible() or self.model is None:
                raise Infeasible()
            v = self.model.eval(expr, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(12)
        self.trace.append(('p', v))
        if PINTRACE:
            import traceback
            sys.__stderr__.write('PIN ' + ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_stack()[-14:-1])) + '\n')
        self.pinned += 1
        self.stats.pinned += 1
        self.solver.add(expr == v)
        self.model = None
        return v


PINTRACE = os.environ.get('SYMX_PINTRACE')
LIMIT = [0., 25.]      # start of the running query (0: none), seconds allowed


def guarded(check, *a):
    """solver call with a hard limit (some strategies overrun their own timeout)"""
    if not _dog:
        _dog.append(threading.Thread(target=watchdog, daemon=True))
        _dog[0].start()
    LIMIT[0] = time.time()
    try:
        return check(*a)
    except z3.Z3Exception:
        return z3.unknown
    finally:
        LIMIT[0] = 0.


_dog = []


def watchdog():
    while True:
        time.sleep(1)
        if LIMIT[0] and time.time() - LIMIT[0] > LIMIT[1]:
            z3.main_ctx().interrupt()


class Stats:
    def __init__(self, deadline, max_paths=10**9):
        self.queries = 0
        self.solver_s = 0.
        self.branches = 0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.undecided = []
        self.pinned = 0
        self.obligations = 0
        self.discharged = 0
        self.inconclusive = 0
        self.complete = True
        self.deadline = deadline
        self.max_paths = max_paths
        self.first_side = True
        self.reached = {}
        self.witnesses = []
        self.errors = []


CUR = None      # current Ctx, None in concrete mode


def ctx():
    if CUR is None:
        raise RuntimeError('symbolic value used outside a symbolic path')
    return CUR


def explore(run, stats, on_path_end=None, order='dfs'):
    """run(ctx) executes the harness once; explores every feasible path until budgets are used up"""
    global CUR
    work = [[]]
    found = []
    while work:
        if time.time() > stats.deadline or stats.paths >= stats.max_paths:
            stats.complete = False
            break
        prefix = work.pop() if order == 'dfs' else work.pop(0)
        c = Ctx(prefix, stats)
        CUR = c
        try:
            run(c)
            stats.paths += 1
        except Infeasible:
            stats.infeasible += 1
        except Budget:
            stats.complete = False
        except Unsupported as e:
            stats.paths += 1
            stats.undecided.append(str(e)[:300])
        except FoundViolation as e:
            stats.paths += 1
            found.append(e.args[0])
        finally:
            CUR = None
        work.extend(c.alternatives)
        if found:
            break
    return found
