"""Observers, sources and drivers shared by the harnesses.  No z3 in here."""
from __future__ import annotations

import asyncio
import functools

import aioreactive as rx
from aioreactive.subject import AsyncMultiSubject, AsyncSingleSubject  # noqa: F401
from aioreactive.types import AsyncObservable, AsyncObserver
from expression import Nothing, Some  # noqa: F401
from expression.core import pipe  # noqa: F401
from expression.system import AsyncDisposable


class Boom(Exception):
    """The exception used by harnesses; compared by identity."""


class BoomSub(ValueError):
    pass


class Falsy(Exception):
    """An exception that is false, as one with a length of zero would be."""

    def __bool__(self):
        return False


class Later:
    """An awaitable that is a value like any other."""

    def __await__(self):
        yield from asyncio.sleep(0).__await__()
        return "awaited"


def error_kinds():
    from expression.system import ObjectDisposedException, OperationCanceledError

    caused = Boom("caused")
    caused.__cause__ = ValueError("cause")
    caused.__context__ = caused.__cause__
    return [Boom("boom"), caused, ExceptionGroup("group", [ValueError("only")]), ValueError("v"), KeyError("k"), RuntimeError("r"), TimeoutError("t"), OSError("o"),
            AssertionError("a"), BoomSub("s"), ObjectDisposedException(), OperationCanceledError("oc"),
            LookupError("l"), ArithmeticError("ar"), Exception(), TypeError("ty"), AttributeError("at"), IndexError("i"), Falsy("f"),
            NotImplementedError("ni"), asyncio.InvalidStateError("is"), EOFError("eof"), StopAsyncIteration("sa")]


class NoText:
    """A value that cannot be converted to text."""

    def __str__(self):
        raise RuntimeError("no text")

    def __repr__(self):
        return "NoText()"


class Sealed:
    """A value that refuses to be compared, hashed, measured, iterated over or used as a condition (as arrays do)."""

    def _refuse(self, *a):
        raise TypeError("sealed")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __contains__ = __call__ = _refuse
    __hash__ = None

    def __repr__(self):
        return "Sealed()"


def special_values():
    """Values that code is likely to confuse with 'nothing', a message or an error."""
    from aioreactive.notification import OnCompleted, OnNext

    return [None, 0, False, "", (), [], {}, 0.0, Boom("value"), Some(1), Nothing, OnNext(3), OnCompleted(),
            Some(None), StopIteration, object(), Later(), rx.AsyncSubject(), len, ValueError, NoText(), float("nan"), Sealed()]


class Rec(AsyncObserver):
    """Records what an observer sees."""

    def __init__(self, c, name="out", on_next=None, on_any=None):
        self.c = c
        self.name = name
        self.events = []  # ("next", v) / ("error", e) / ("done", None)
        self.times = []
        self.active = 0
        self.overlaps = 0
        self.bad = 0  # events after a terminal event
        self.terminal = None
        self.closed_at = None  # number of events when the subscription was disposed
        self.on_next = on_next
        self.on_any = on_any

    async def _event(self, kind, v):
        c = self.c
        if c.symbolic and c.eng.inert:
            return
        if self.active:
            self.overlaps += 1
        if self.terminal is not None:
            self.bad += 1
        elif kind != "next":
            self.terminal = kind
        self.events.append((kind, v))
        self.times.append(c.now())
        if not c.symbolic:
            c.log.append(f"t={c.now()} {self.name} <- {kind} {v!r}")
        self.active += 1
        try:
            if self.on_any is not None:
                await self.on_any(kind, v)
            if kind == "next" and self.on_next is not None:
                await self.on_next(v)
        finally:
            self.active -= 1

    async def asend(self, value):
        await self._event("next", value)

    async def athrow(self, error):
        await self._event("error", error)

    async def aclose(self):
        await self._event("done", None)

    @property
    def values(self):
        return [v for k, v in self.events if k == "next"]

    @property
    def errors(self):
        return [v for k, v in self.events if k == "error"]

    @property
    def done(self):
        return self.terminal == "done"

    def kinds(self):
        return [k for k, _ in self.events]

    # -- assertions -------------------------------------------------------------------
    def grammar(self, what=""):
        self.c.check(self.bad == 0, f"{what}: {self.name} got an event after it had terminated")

    def serial(self, what=""):
        self.c.check(self.overlaps == 0, f"{what}: calls of {self.name} overlap")

    def expect(self, values, terminal="done", error=None, what=""):
        """Exactly these values and then this terminal event (None: still open)."""
        c = self.c
        self.grammar(what)
        c.check(c.eq(self.values, list(values)), lambda: f"{what}: {self.name} got {self.values!r}, expected {list(values)!r}")
        c.check(self.terminal == terminal, lambda: f"{what}: {self.name} terminated with {self.terminal} {self.errors!r}, expected {terminal}")
        if terminal == "error" and error is not None:
            c.check(len(self.errors) == 1 and self.errors[0] is error, lambda: f"{what}: wrong error {self.errors!r}")


class Probe(AsyncObservable):
    """A source under the control of the harness that counts its subscriptions.

    It is a well-behaved hot source: a disposed observer gets nothing more.
    """

    def __init__(self, c, name="src", raw=False):
        self.c = c
        self.name = name
        self.subs = []  # [observer, alive]
        self.total = 0
        self.disposals = 0
        self.slow = 0  # loop turns that a disposal takes; until then the source still sends
        self.on_subscribe = None

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        entry = [obv, True]
        self.subs.append(entry)
        self.total += 1
        if self.on_subscribe is not None:
            await self.on_subscribe(obv)

        async def dispose():
            for _ in range(self.slow):
                await asyncio.sleep(0)
            entry[1] = False
            self.disposals += 1

        return AsyncDisposable.create(dispose)

    @property
    def active(self):
        return sum(1 for e in self.subs if e[1])

    def live(self):
        return [e[0] for e in self.subs if e[1]]

    async def asend(self, v):
        for o in self.live():
            await o.asend(v)

    async def athrow(self, e):
        for o in self.live():
            await o.athrow(e)

    async def aclose(self):
        for o in self.live():
            await o.aclose()


class Feed(AsyncObservable):
    """A cold source that plays a list of (kind, value) during subscription or later in a task."""

    def __init__(self, c, events, sync=True):
        self.c, self.events, self.sync = c, events, sync
        self.total = 0
        self.active = 0

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        self.total += 1
        self.active += 1
        alive = [True]

        async def play():
            for kind, v in self.events:
                if not alive[0]:
                    return
                if kind == "next":
                    await obv.asend(v)
                elif kind == "error":
                    await obv.athrow(v)
                else:
                    await obv.aclose()

        if self.sync:
            await play()
        else:
            asyncio.ensure_future(play())

        async def dispose():
            if alive[0]:
                self.active -= 1
            alive[0] = False

        return AsyncDisposable.create(dispose)


async def give(target, kind, v):
    if kind == "next":
        await target.asend(v)
    elif kind == "error":
        await target.athrow(v)
    else:
        await target.aclose()


def seq(c, n, name="v"):
    return [c.value(name) for _ in range(n)]


def sync_or_async(c, f, name="async"):
    pass


def aio(f, c=None, ticks=0):
    """An async version of a plain function."""

    async def g(*a):
        for _ in range(ticks):
            await asyncio.sleep(0)
        return f(*a)

    return g
