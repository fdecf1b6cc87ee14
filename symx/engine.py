"""Symbolic execution of the real code: z3-backed values, forking by re-execution.

A harness is an `async def h(c)` that drives the real library with symbolic inputs.  Every
time control flow depends on a symbolic value the engine asks the solver which outcomes are
feasible under the path condition, follows one and remembers the other; the harness is then
re-executed from the start along the other one.  At the end of each path every assertion made
on it is decided by one query: `path condition AND NOT(assertions)`.  Exploration ends when no
unexplored feasible outcome is left, so "holds" means: for every value of the symbolic
variables within the bounds declared by the harness.
"""
from __future__ import annotations

import fractions
import asyncio
import gc
import signal
import sys
import time as _time

import z3

from .base import Deadlock, Hang, Livelock, Stop, Sym
from . import base, env
from .loop import SymLoop

perf = _time.perf_counter


class Infeasible(Stop):
    pass


class OutOfBudget(Stop):
    pass


class Nondeterminism(Stop):
    """A replayed prefix met a different decision: the run is not a function of the inputs."""


ENGINE: "Engine|None" = None


def _num(x):
    """z3 numeral / expression of an operand, or None when it is not a number."""
    t = type(x)
    if t is int:
        return z3.IntVal(x)
    if t is SymInt or t is SymReal:
        return x.e
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            return None
        fr = fractions.Fraction(x)
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    if t is fractions.Fraction:
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def _wrap(e):
    if e.sort() == z3.IntSort():
        return SymInt(e)
    if e.sort() == z3.RealSort():
        return SymReal(e)
    return SymBool(e)


def _coerce(a, b):
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        else:
            b = z3.ToReal(b)
    return a, b


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return SymBool(self.e) if o else SymBool(z3.Not(self.e))
        n = _num(o)
        if n is None:
            return False
        return SymBool(_num(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 7

    def __and__(self, o):
        return SymBool(z3.And(self.e, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, _b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, _b(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return SymInt(_num(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return "SymBool"


def _b(o):
    if isinstance(o, SymBool):
        return o.e
    return z3.BoolVal(bool(o))


class _SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _cmp(self, o, op):
        n = _num(o)
        if n is None:
            if isinstance(o, float):  # inf / nan
                return None, o
            return None, None
        a, b = _coerce(self.e, n)
        return SymBool(op(a, b)), None

    def _rel(self, o, op, name):
        r, special = self._cmp(o, op)
        if r is not None:
            return r
        if special is not None:
            return getattr(0.0, name)(special)
        return NotImplemented

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b, "__lt__")

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b, "__le__")

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b, "__gt__")

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b, "__ge__")

    def __eq__(self, o):
        if o is self:
            return True
        r, _ = self._cmp(o, lambda a, b: a == b)
        return False if r is None else r

    def __ne__(self, o):
        if o is self:
            return False
        r, _ = self._cmp(o, lambda a, b: a != b)
        return True if r is None else r

    def __hash__(self):
        return 11

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def _arith(self, o, op):
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = _coerce(self.e, n)
        return _wrap(op(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return _wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    @staticmethod
    def _real(e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def __truediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if ENGINE.branch(n == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self._real(self.e) / self._real(n))

    def __rtruediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if ENGINE.branch(self.e == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self._real(n) / self._real(self.e))

    @staticmethod
    def _fdiv(a, b):
        if ENGINE.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
            q = a / b  # Euclidean: remainder in [0, |b|)
            r = a % b
            return z3.If(z3.And(b < 0, r != 0), q - 1, q)
        a, b = _coerce(a, b)
        return z3.ToReal(z3.ToInt(a / b))

    @classmethod
    def _fmod(cls, a, b):
        q = cls._fdiv(a, b)
        a, b2 = _coerce(a, b)
        q, b2 = _coerce(q, b2)
        a, q = _coerce(a, q)
        return a - b2 * q

    def __floordiv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else _wrap(self._fdiv(self.e, n))

    def __rfloordiv__(self, o):
        n = _num(o)
        return NotImplemented if n is None else _wrap(self._fdiv(n, self.e))

    def __mod__(self, o):
        n = _num(o)
        return NotImplemented if n is None else _wrap(self._fmod(self.e, n))

    def __rmod__(self, o):
        n = _num(o)
        return NotImplemented if n is None else _wrap(self._fmod(n, self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __str__(self):
        return "<sym>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<sym>"


class SymInt(_SymNum):
    __slots__ = ()

    def __index__(self):
        return ENGINE.realize_int(self.e)

    __int__ = __index__

    def __float__(self):
        return float(ENGINE.realize_int(self.e))

    # bit operations: on one value after the other
    def __and__(self, o):
        return int(self) & int(o) if isinstance(o, (int, SymInt)) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o) if isinstance(o, (int, SymInt)) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o) if isinstance(o, (int, SymInt)) else NotImplemented

    __rxor__ = __xor__

    def __lshift__(self, o):
        return int(self) << int(o) if isinstance(o, (int, SymInt)) else NotImplemented

    def __rlshift__(self, o):
        return int(o) << int(self) if isinstance(o, int) else NotImplemented

    def __rshift__(self, o):
        return int(self) >> int(o) if isinstance(o, (int, SymInt)) else NotImplemented

    def __rrshift__(self, o):
        return int(o) >> int(self) if isinstance(o, int) else NotImplemented

    def __invert__(self):
        return -self - 1

    def __round__(self, nd=None):
        return self

    __trunc__ = __floor__ = __ceil__ = lambda self: self


class SymReal(_SymNum):
    __slots__ = ()

    def __float__(self):
        return float(ENGINE.realize_real(self.e))

    def __int__(self):
        fl = z3.ToInt(self.e)
        return ENGINE.realize_int(z3.If(z3.And(self.e < 0, z3.ToReal(fl) != self.e), fl + 1, fl), limit=8)

    def __trunc__(self):
        fl = z3.ToInt(self.e)
        return SymInt(z3.If(z3.And(self.e < 0, z3.ToReal(fl) != self.e), fl + 1, fl))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        """Nearest multiple (ties upwards: the replay decides)."""
        if nd is not None and not isinstance(nd, int):
            return round(float(self), nd)
        k = z3.RealVal(10 ** (nd or 0)) if (nd or 0) >= 0 else z3.Q(1, 10 ** -nd)
        r = z3.ToInt(self.e * k + z3.Q(1, 2))
        return SymInt(r) if nd is None else SymReal(z3.ToReal(r) / k)


def _rv(q):
    return z3.Q(q.numerator, q.denominator)


class Node:
    __slots__ = ("kind", "e", "value", "alts", "alt_model", "pushed")

    def __init__(self, kind, e, value, alts=(), alt_model=None, pushed=True):
        self.kind = kind
        self.e = e
        self.value = value
        self.alts = list(alts)
        self.alt_model = alt_model
        self.pushed = pushed


class Failure:
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


class Engine:
    def __init__(self, mode=0, budget_s=60.0, max_paths=10**9, path_s=5.0, max_steps=6000, trace_funcs=False, seed=1):
        self.mode = mode
        self.deadline = perf() + budget_s
        self.max_paths = max_paths
        self.path_s = path_s
        self.max_steps = max_steps
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.solver.set("random_seed", seed)
        self.trace: list[Node] = []
        self.pos = 0
        self.model = None
        self.facts = {}
        self.inert = False
        self.in_solver = False
        self.stats = dict(paths=0, infeasible=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                          branches=0, nodes=0, checks=0, assertions=0, max_depth=0, realized=0)
        self.complete = True
        self.notes = set()
        self.keep = []
        self.found = set()

    # -- solver -----------------------------------------------------------------------
    def _check(self, *extra):
        t = perf()
        self.in_solver = True
        try:
            r = self.solver.check(*extra)
        finally:
            self.in_solver = False
        st = self.stats
        st["solver_s"] += perf() - t
        st["queries"] += 1
        st[str(r)] += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Infeasible("path condition unsatisfiable")
            else:
                self.complete = False
                self.notes.add("solver returned unknown on a path condition")
                raise OutOfBudget("unknown")
        return self.model

    def _fact(self, e, v):
        self.keep.append(e)
        self.facts[e.get_id()] = v
        if z3.is_not(e):
            a = e.arg(0)
            self.facts[a.get_id()] = not v

    def _known(self, e):
        v = self.facts.get(e.get_id())
        if v is None and z3.is_not(e):
            v = self.facts.get(e.arg(0).get_id())
            if v is not None:
                v = not v
        return v

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)

    def _replay_node(self, kind, e):
        node = self.trace[self.pos]
        if node.kind != kind or not node.e.eq(e):
            raise Nondeterminism(f"{node.kind}:{node.e} vs {kind}:{e}")
        self.pos += 1
        return node

    def branch(self, e):
        if self.inert:
            return True
        self.stats["branches"] += 1
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        v = self._known(e)
        if v is not None:
            return v
        if self.pos < len(self.trace):
            node = self._replay_node("b", e)
            self._fact(e, node.value)
            return node.value
        model = self._get_model()
        mv = z3.is_true(model.eval(e, model_completion=True))
        other = z3.Not(e) if mv else e
        r = self._check(other)
        if r == z3.unsat:
            node = Node("b", e, mv, pushed=False)
        else:
            if r == z3.unknown:
                self.notes.add("solver returned unknown on a branch (outcome explored)")
            alt_model = self.solver.model() if r == z3.sat else None
            node = Node("b", e, mv, [not mv], alt_model)
            self._push(e if mv else z3.Not(e))
        self.trace.append(node)
        self.stats["nodes"] += 1
        self.pos += 1
        self._fact(e, mv)
        return mv

    def choice(self, var, n):
        """Decide a fresh variable 0 <= var < n; every outcome is feasible."""
        if self.inert:
            return 0
        if self.pos < len(self.trace):
            return self._replay_node("c", var).value
        # the variable is fresh and only its concrete value is handed out, so the current
        # model stays a model of every other variable on each outcome
        node = Node("c", var, 0, range(1, n), alt_model=self.model)
        self._push(var == 0)
        self.trace.append(node)
        self.stats["nodes"] += 1
        self.pos += 1
        return 0

    def realize_int(self, e, limit=400):
        """Concrete value of an integer expression: forks over all feasible values."""
        if self.inert:
            return 0
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self.stats["realized"] += 1
        for _ in range(limit):
            if self.pos < len(self.trace) and self.trace[self.pos].kind == "r":
                node = self.trace[self.pos]
                v = node.value
                self.pos += 1
            else:
                v = self._get_model().eval(e, model_completion=True).as_long()
                node = Node("r", z3.IntVal(v), v, pushed=False)
                self.trace.append(node)
                self.pos += 1
            if self.branch(e == v):
                return v
        self.complete = False
        self.notes.add("integer realisation cut off")
        raise OutOfBudget("realize")

    def realize_real(self, e):
        """A few values of a real expression; marks the exploration incomplete."""
        if self.inert:
            return 0
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        self.complete = False
        self.notes.add("a real value was made concrete by the code under test")
        if self.pos < len(self.trace):
            node = self._replay_node("f", e)
            return node.value
        vals = []
        k = z3.Int("__whole")
        for extra in ([k >= 1, e == z3.ToReal(k) + z3.Q(11, 64)], [k >= 1, e == z3.ToReal(k)], [k >= 0, e == z3.ToReal(k) / 64], []):
            if len(vals) == 2:
                break
            if self._check(*extra) == z3.sat:
                m = self.solver.model().eval(e, model_completion=True)
                if not z3.is_rational_value(m):
                    m = m.approx(20)
                v = fractions.Fraction(m.numerator_as_long(), m.denominator_as_long())
                if v not in vals:
                    vals.append(v)
        if not vals:
            raise OutOfBudget("realize")
        node = Node("f", e, vals[0], vals[1:])
        self.model = None
        self._push(e == _rv(vals[0]))
        self.trace.append(node)
        self.pos += 1
        return vals[0]

    def assume(self, e):
        if self.inert:
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible("assumption")
        if self._known(e) is True:
            return
        if self.pos < len(self.trace):
            self._replay_node("a", e)
            self._fact(e, True)
            return
        node = Node("a", e, True)
        self._push(e)
        self.trace.append(node)
        self.pos += 1
        self._fact(e, True)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
            self._get_model()

    # -- exploration --------------------------------------------------------------------
    def _backtrack(self):
        """Advance to the next unexplored outcome. False when there is none."""
        tr = self.trace
        while tr:
            node = tr[-1]
            if node.pushed:
                self.solver.pop()
            if node.alts:
                v = node.alts.pop(0)
                node.value = v
                if node.kind == "b":
                    self._push(node.e if v else z3.Not(node.e))
                elif node.kind == "f":
                    self._push(node.e == _rv(v))
                else:
                    self._push(node.e == v)
                self.model = node.alt_model
                return True
            tr.pop()
        return False

    def explore(self, harness, on_path=None):
        """Run all paths.  Yields Failure objects (at most a few) and path results."""
        global ENGINE
        ENGINE = self
        failures = []
        old = signal.signal(signal.SIGALRM, self._alarm)
        gc.disable()
        n = 0
        try:
            while True:
                if perf() > self.deadline or self.stats["paths"] >= self.max_paths:
                    self.complete = False
                    self.notes.add("budget exhausted before all paths were explored")
                    break
                f = self._run_path(harness, on_path)
                n += 1
                if n % 64 == 0:
                    self.inert = True
                    try:
                        gc.collect()
                    finally:
                        self.inert = False
                if f is not None:
                    failures.append(f)
                    if len(failures) >= 3:
                        self.complete = False
                        break
                if not self._backtrack():
                    break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.inert = True
            gc.enable()
            gc.collect()
            self.inert = False
        return failures

    def _alarm(self, *_):
        if self.in_solver:
            signal.setitimer(signal.ITIMER_REAL, 0.2)
            return
        raise Hang("the code under test did not return control")

    def _run_path(self, harness, on_path):
        ctx = SymCtx(self)
        self.pos = 0
        self.facts = {}
        self.keep = []
        env.reset()
        loop = SymLoop(max_steps=self.max_steps)
        ctx.loop = loop
        crash = None
        dead = False
        signal.setitimer(signal.ITIMER_REAL, self.path_s)
        try:
            try:
                loop.run(harness(ctx))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Infeasible:
            dead = True
        except OutOfBudget:
            dead = True
            self.complete = False
        except Nondeterminism as ex:
            dead = True
            self.complete = False
            self.notes.add("nondeterminism: " + str(ex)[:200])
            del self.trace[self.pos + 1:]
            self._rebuild()
        except (Hang, Deadlock, Livelock) as ex:
            crash = f"{type(ex).__name__}: {ex}"
        except (Exception, asyncio.CancelledError, GeneratorExit, SystemExit) as ex:
            crash = f"harness raised {type(ex).__name__}: {ex}"
        # the path's own conditions are decided before anything is torn down
        fail = None
        try:
            fail = self._decide(ctx, crash, dead)
        except (Infeasible, OutOfBudget):
            pass
        self.stats["paths"] += 1
        self.stats["max_depth"] = max(self.stats["max_depth"], len(self.trace))
        if dead:
            self.stats["infeasible"] += 1
        elif on_path is not None and fail is None:
            on_path(self, ctx)
        self.inert = True
        try:
            loop.teardown()
            env.reset()
            loop = None
        finally:
            self.inert = False
        return fail

    def _rebuild(self):
        self.solver.reset()
        self.solver.set("timeout", 20000)
        self.model = None
        for node in self.trace:
            if node.pushed:
                if node.kind == "b":
                    self._push(node.e if node.value else z3.Not(node.e))
                elif node.kind == "a":
                    self._push(node.e)
                elif node.kind == "f":
                    self._push(node.e == _rv(node.value))
                else:
                    self._push(node.e == node.value)

    def _decide(self, ctx, crash, dead):
        bad = list(ctx.failed)
        if crash is not None:
            bad.append(crash)
        self.stats["assertions"] += ctx.nchecks
        self.found |= ctx.found
        if not bad and ctx.pending:
            conds = []
            for e, msg in ctx.pending:
                e = z3.simplify(e)
                if not z3.is_true(e) and self._known(e) is not True:
                    conds.append((e, msg))
            if conds:
                self.stats["checks"] += 1
                neg = z3.Not(z3.And([e for e, _ in conds]))
                r = self._check(neg)
                if r == z3.sat:
                    m = self.solver.model()
                    msgs = [msg for e, msg in conds if not z3.is_true(m.eval(e, model_completion=True))]
                    self.solver.push()
                    self.solver.add(neg)
                    try:
                        m = self._nice_model(ctx) or m
                    finally:
                        self.solver.pop()
                    return Failure("; ".join(map(str, msgs[:3])), ctx.dump(m))
                if r == z3.unknown:
                    self.complete = False
                    self.notes.add("solver returned unknown on an assertion")
        if bad:
            self.model = None
            m = self._nice_model(ctx)
            if m is None:
                return None
            return Failure("; ".join(map(str, bad[:3])), ctx.dump(m))
        return None

    def _nice_model(self, ctx):
        """A model whose times are multiples of 1/64 (exact in floats), when there is one."""
        reals = [v for v in ctx.vars.values() if v.sort() == z3.RealSort()]
        if reals:
            ks = [z3.Int(f"__k{i}") for i in range(len(reals))]
            r = self._check(*[v == z3.ToReal(k) / 64 for v, k in zip(reals, ks)])
            if r == z3.sat:
                return self.solver.model()
        r = self._check()
        return self.solver.model() if r == z3.sat else None

    def path_model(self, ctx):
        return ctx.dump(self._nice_model(ctx))


class SymCtx(base.Ctx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        self.mode = eng.mode
        self.vars = {}
        self.apps = []
        self.pending = []
        self.choices = {}

    # -- inputs -----------------------------------------------------------------------
    def _var(self, name, mk):
        name = self.fresh(name)
        v = mk(name)
        self.vars[name] = v
        return name, v

    def int(self, name, lo, hi):
        """Integer in [lo, hi]."""
        if self.mode >= 1:
            return lo + self.choice(name, hi - lo + 1)
        name, v = self._var(name, z3.Int)
        self.bounds[name] = (lo, hi)
        self.eng.assume(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def value(self, name):
        """An arbitrary integer."""
        if self.mode >= 2:
            vals = (0, 1, -1, 7)
            return vals[self.choice(name, len(vals))]
        _, v = self._var(name, z3.Int)
        return SymInt(v)

    def time(self, name, lo=None, hi=None):
        """An arbitrary non-negative real (seconds)."""
        if self.mode >= 2:
            lo_ = 0 if lo is None else lo
            vals = [lo_ + k for k in (0.25, 1, 2.5, 4)]
            if hi is not None:
                vals = [v for v in vals if v <= hi] or [hi]
            return vals[self.choice(name, len(vals))]
        name, v = self._var(name, z3.Real)
        self.eng.assume(v >= (0 if lo is None else _num(lo)))
        if hi is not None:
            self.eng.assume(v <= _num(hi))
        return SymReal(v)

    def bool(self, name):
        return bool(self.choice(name, 2))

    def sbool(self, name):
        """A symbolic boolean, decided where the code branches on it."""
        if self.mode >= 2:
            return self.bool(name)
        _, v = self._var(name, z3.Bool)
        return SymBool(v)

    def choice(self, name, n):
        name, v = self._var(name, z3.Int)
        self.bounds[name] = (0, n - 1)
        k = self.eng.choice(v, n)
        self.choices[name] = k
        return k

    def func(self, name, arity=1):
        """An arbitrary (uninterpreted) total function from integers to integers."""
        if self.mode >= 2:
            return lambda *a: hash((name,) + a) % 5
        f = z3.Function(name, *([z3.IntSort()] * (arity + 1)))

        def call(*args):
            es = [_num(a) for a in args]
            if None in es:
                raise TypeError(f"{name} applied to {args!r}")
            app = f(*es)
            self.apps.append((name, es, app))
            return SymInt(app)

        return call

    def pred(self, name, arity=1):
        """An arbitrary (uninterpreted) predicate on integers."""
        if self.mode >= 2:
            return lambda *a: hash((name,) + a) % 2 == 0
        f = z3.Function(name, *([z3.IntSort()] * arity), z3.BoolSort())

        def call(*args):
            es = [_num(a) for a in args]
            if None in es:
                raise TypeError(f"{name} applied to {args!r}")
            app = f(*es)
            self.apps.append((name, es, app))
            return SymBool(app)

        return call

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.eng.assume(cond.e)
        elif not cond:
            raise Infeasible("assumption")

    # -- assertions -------------------------------------------------------------------
    def check(self, cond, msg="assertion"):
        if self.eng.inert:
            return
        self.nchecks += 1
        if isinstance(cond, SymBool):
            self.pending.append((cond.e, msg() if callable(msg) else msg))
        elif not cond:
            self.failed.append(msg() if callable(msg) else msg)

    # -- non-forking connectives --------------------------------------------------------
    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.all(self.eq(x, y) for x, y in zip(a, b))
        r = a == b
        if r is NotImplemented:
            return False
        return r

    def all(self, conds):
        es = []
        for x in conds:
            if isinstance(x, SymBool):
                es.append(x.e)
            elif not x:
                return False
        if not es:
            return True
        return SymBool(z3.And(es)) if len(es) > 1 else SymBool(es[0])

    def any(self, conds):
        es = []
        for x in conds:
            if isinstance(x, SymBool):
                es.append(x.e)
            elif x:
                return True
        if not es:
            return False
        return SymBool(z3.Or(es)) if len(es) > 1 else SymBool(es[0])

    def neg(self, x):
        return SymBool(z3.Not(x.e)) if isinstance(x, SymBool) else not x

    def implies(self, a, b):
        return self.any([self.neg(a), b])

    def ite(self, cond, a, b):
        if not isinstance(cond, SymBool):
            return a if cond else b
        x, y = _coerce(_num(a), _num(b))
        return _wrap(z3.If(cond.e, x, y))

    # -- counterexamples ----------------------------------------------------------------
    def dump(self, model):
        def val(e):
            x = model.eval(e, model_completion=True)
            if z3.is_int_value(x):
                return x.as_long()
            if z3.is_rational_value(x):
                return {"q": [x.numerator_as_long(), x.denominator_as_long()]}
            if z3.is_algebraic_value(x):
                x = x.approx(20)
                return {"q": [x.numerator_as_long(), x.denominator_as_long()]}
            return z3.is_true(x)

        out = {"vars": {}, "funcs": {}, "mode": self.mode}
        for name, v in self.vars.items():
            out["vars"][name] = self.choices[name] if name in self.choices else val(v)
        for name, es, app in self.apps:
            row = [[val(x) for x in es], val(app)]
            rows = out["funcs"].setdefault(name, [])
            if row not in rows:
                rows.append(row)
        return out
