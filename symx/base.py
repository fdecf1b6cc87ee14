"""Parts shared by the symbolic and the concrete (replay) execution.  Must not import z3."""
from __future__ import annotations

import asyncio


class Stop(KeyboardInterrupt):
    """Ends the current path.  A KeyboardInterrupt, so that asyncio lets it through."""


class Hang(Stop):
    """Wall-clock watchdog: the code under test does not give control back."""


class Deadlock(Stop):
    """The harness waits for something that can never happen: nothing is runnable."""


class Livelock(Stop):
    """The step bound of the loop was exceeded."""


def known_findings():
    """{(property, id): what} of the committed list (lines 'known: property=<id> id=<finding> <what>')."""
    import os
    import re

    out = {}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.md")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
                if m:
                    out[m.group(1), m.group(2)] = m.group(3)
    return out


KNOWN = known_findings()


class Sym:
    """Marker base class of symbolic values."""

    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


class Ctx:
    """What a harness sees: inputs, assumptions, assertions and the event loop."""

    symbolic = False

    def __init__(self):
        self.loop = None
        self.failed = []
        self.nchecks = 0
        self.bounds = {}
        self._names = {}
        self.log = []
        self.found = set()  # listed findings that occurred on this path

    def known(self, prop, fid, ok, listed, msg):
        """Assert ok; a failure of exactly the listed shape is a known finding."""
        if (prop, fid) in KNOWN:
            if ok is False and listed is not False:
                self.found.add((prop, fid))
            ok = self.any([ok, listed])
        self.check(ok, msg)

    def fresh(self, name):
        k = self._names.get(name, 0)
        self._names[name] = k + 1
        return name if k == 0 else f"{name}.{k}"

    # -- event loop -------------------------------------------------------------------
    async def settle(self):
        """Until nothing is runnable at the current time."""
        await self.loop.idle()

    async def drain(self):
        """Until nothing is runnable and no timer is pending."""
        await self.loop.drain()

    async def ticks(self, n):
        """Give the other tasks n turns (n may be symbolic: one branch per turn)."""
        i = 0
        while i < n:
            await asyncio.sleep(0)
            i += 1

    async def sleep(self, seconds):
        await asyncio.sleep(seconds)

    async def until(self, t):
        """Sleep until absolute time t (if it is in the future)."""
        d = t - self.loop.time()
        if d > 0:
            await asyncio.sleep(d)

    def now(self):
        return self.loop.time()

    def fail(self, msg):
        self.nchecks += 1
        self.failed.append(msg)

    async def calm(self, what, awaitable):
        """Await something that must not raise; returns its result."""
        try:
            return await awaitable
        except Exception as ex:
            self.fail(f"{what} raised {type(ex).__name__}: {ex}")
            return None

    async def finishes(self, what, coro):
        """Run a coroutine in a task; assert that it is finished once everything settled."""
        task = asyncio.ensure_future(coro)
        await self.settle()
        if not task.done():
            self.fail(f"{what} does not return")
            task.cancel()
            await self.settle()
            return None
        if task.cancelled():
            self.fail(f"{what} was cancelled")
            return None
        ex = task.exception()
        if ex is not None:
            self.fail(f"{what} raised {type(ex).__name__}: {ex}")
            return None
        return task.result()


class ConcreteCtx(Ctx):
    """Replays a solver model (a plain dict) without any symbolic machinery."""

    def __init__(self, model):
        super().__init__()
        self.model = model
        self.mode = model.get("mode", 0)
        self.infeasible = None

    def _get(self, name, default):
        name = self.fresh(name)
        v = self.model["vars"].get(name, default)
        if isinstance(v, dict):
            v = v["q"][0] / v["q"][1]
        return v

    def int(self, name, lo, hi):
        if self.mode >= 1:
            return lo + self._get(name, 0)
        return self._get(name, lo)

    def value(self, name):
        if self.mode >= 2:
            return (0, 1, -1, 7)[self._get(name, 0)]
        return self._get(name, 0)

    def time(self, name, lo=None, hi=None):
        if self.mode >= 2:
            lo_ = 0 if lo is None else lo
            vals = [lo_ + k for k in (0.25, 1, 2.5, 4)]
            if hi is not None:
                vals = [v for v in vals if v <= hi] or [hi]
            return vals[self._get(name, 0)]
        return self._get(name, 0)

    def bool(self, name):
        return bool(self._get(name, 0))

    sbool = bool

    def choice(self, name, n):
        return self._get(name, 0)

    def func(self, name, arity=1):
        if self.mode >= 2:
            return lambda *a: hash((name,) + a) % 5
        table = {tuple(_q(x) for x in args): v for args, v in self.model["funcs"].get(name, ())}
        return lambda *a: table.get(tuple(map(int, a)), 0)

    def pred(self, name, arity=1):
        if self.mode >= 2:
            return lambda *a: hash((name,) + a) % 2 == 0
        table = {tuple(_q(x) for x in args): v for args, v in self.model["funcs"].get(name, ())}
        return lambda *a: table.get(tuple(map(int, a)), False)

    def assume(self, cond):
        if not cond:
            self.infeasible = True
            raise Stop("assumption does not hold in the replay")

    def check(self, cond, msg="assertion"):
        self.nchecks += 1
        if not cond:
            self.failed.append(msg() if callable(msg) else msg)

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if (type(a) is float and type(b) in (int, float)) or (type(b) is float and type(a) is int):
            return a == b or abs(a - b) <= 1e-6  # times: rounding is not a violation
        return bool(a == b)

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def neg(self, x):
        return not x

    def implies(self, a, b):
        return not a or bool(b)

    def ite(self, cond, a, b):
        return a if cond else b


def _q(x):
    return x["q"][0] / x["q"][1] if isinstance(x, dict) else x


def run_concrete(harness, model, path_s=10.0, max_steps=6000):
    """Execute a harness on concrete inputs.  Returns (verdict, messages, ctx).

    verdict: 'fail', 'pass' or 'infeasible'.
    """
    import signal

    from . import env
    from .loop import SymLoop

    ctx = ConcreteCtx(model)
    env.reset()
    loop = SymLoop(max_steps=max_steps)
    ctx.loop = loop

    def alarm(*_):
        raise Hang("the code under test did not return control")

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, path_s)
    crash = None
    try:
        try:
            loop.run(harness(ctx))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except (Hang, Deadlock, Livelock) as ex:
        crash = f"{type(ex).__name__}: {ex}"
    except Stop:
        if ctx.infeasible is None:
            raise
    except (Exception, asyncio.CancelledError, GeneratorExit, SystemExit) as ex:
        crash = f"harness raised {type(ex).__name__}: {ex}"
    loop.teardown()
    env.reset()
    msgs = list(map(str, ctx.failed))
    if crash:
        msgs.append(crash)
    if msgs:
        return "fail", msgs, ctx
    if ctx.infeasible:
        return "infeasible", [], ctx
    return "pass", [], ctx
