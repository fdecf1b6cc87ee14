"""C32 virtual-time loop, C34 RxPY bridge, C35 notifications, C36 test subject and observer."""
from __future__ import annotations

from symx.registry import harness

from aioreactive.leave import to_observable
from aioreactive.notification import MsgKind, OnCompleted, OnError, OnNext
from aioreactive.observers import AsyncNotificationObserver
from aioreactive.testing import AsyncTestObserver, AsyncTestSingleSubject, AsyncTestSubject, VirtualTimeEventLoop

from .ops import *  # noqa: F401,F403


# ---------------------------------------------------------------- C32
class nested:
    """Lets a second event loop run inside the harness (which itself runs in a loop)."""

    def __init__(self, debug=False):
        self.debug = bool(debug)

    def __enter__(self):
        self.outer = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        self.loop = VirtualTimeEventLoop()
        self.loop.set_debug(self.debug)
        self.loop.reported = []
        self.loop.set_exception_handler(lambda loop, ctx: loop.reported.append(ctx.get("exception")))
        return self.loop

    def __exit__(self, *a):
        asyncio._set_running_loop(None)
        try:
            self.loop.close()
        except Exception:
            pass
        asyncio._set_running_loop(self.outer)


END = 1000


class Run:
    """A timer or a ready callback of the loop under test, and when it was due."""

    def __init__(self, c, loop, log, name, when=None, act=None):
        self.c, self.loop, self.log, self.name, self.act = c, loop, log, name, act
        self.made = loop.time()
        self.due = self.made if when is None or not (when > self.made) else when
        self.ran = []
        self.cancelled = False
        self.handle = None

    def __call__(self):
        self.ran.append(self.loop.time())
        self.log.append(self)
        if self.act is not None:
            self.act()

    def cancel(self):
        if not self.ran:
            self.cancelled = True
        self.handle.cancel()

    def verdict(self):
        if self.cancelled:
            self.c.check(not self.ran, lambda: f"virtual loop: cancelled callback {self.name} ran")
        else:
            self.c.check(len(self.ran) == 1, lambda: f"virtual loop: {self.name} ran {len(self.ran)} times")
            if self.ran:
                self.c.check(self.c.eq(self.ran[0], self.due), lambda: f"virtual loop: {self.name} ran at {self.ran[0]}, due at {self.due}")


def _monotone(c, log):
    ts = [t for t in log]
    for a, b in zip(ts, ts[1:]):
        c.check(a <= b, "virtual loop: the clock went back")


@harness("C32", quick=[dict(n=2), dict(n=3, acts=(0, 2)), dict(n=3, acts=(1,)), dict(n=3, acts=(0, 3, 4)), dict(n=4, acts=(0,)), dict(n=4, acts=(2,))],
         thorough=[dict(n=3), dict(n=3, acts=(0, 1, 2)), dict(n=4, acts=(0, 1)), dict(n=4, acts=(0, 2)), dict(n=4, acts=(3, 4)), dict(n=5, acts=(0,)), dict(n=5, acts=(2,))],
         bounds="n timers with arbitrary real due times in -5..10 (call_at or call_later); each one may schedule a timer with an arbitrary real delay, cancel any other, schedule ready callbacks, or raise when it runs", cost=4)
async def vloop_history(c, n, acts=(0, 1, 2, 3, 4)):
    with nested(n == 2 and c.bool("debug")) as loop:
        booms = []
        c.check(c.eq(loop.time(), 0), "virtual loop: the clock does not start at zero")
        log, all_, soon = [], [], []

        def timer(name, style, t, act=None):
            r = Run(c, loop, log, name, t if style == 0 else loop.time() + t, act)
            r.handle = loop.call_at(t, r) if style == 0 else loop.call_later(t, r)
            all_.append(r)
            return r

        def ready(name):
            r = Run(c, loop, log, name)
            r.handle = loop.call_soon(r)
            all_.append(r)
            soon.append(r)

        tops = []

        def action(i, a):
            def do():
                if a == 1:
                    timer(f"nested{i}", 1, c.time("delay", -1, 5))
                elif a == 2:
                    tops[(i + 1) % n].cancel()
                elif a == 3:
                    ready(f"soon{i}a")
                    ready(f"soon{i}b")
                elif a == 4:
                    booms.append(Boom())
                    raise booms[-1]
            return do

        async def main():
            for i in range(n):
                a = acts[c.choice("act", len(acts))]
                tops.append(timer(f"t{i}", c.choice("style", 2) if n < 3 else i % 2, c.time("t", -5, 10), action(i, a)))
            await asyncio.sleep(END)
            return 42

        res = loop.run_until_complete(main())
        c.check(res == 42 and c.eq(loop.time(), END), "virtual loop: the main coroutine did not run to its end")
        for r in all_:
            r.verdict()
        _monotone(c, [r.ran[0] for r in log])
        order = [r for r in log if r in soon]
        c.check(order == soon, "virtual loop: ready callbacks are not run in the order they were scheduled")
        c.check(len(loop.reported) == len(booms) and all(a is b for a, b in zip(loop.reported, booms)),
                lambda: f"virtual loop: reported the exceptions {loop.reported!r} to the exception handler, its callbacks raised {booms!r}")


@harness("C32", quick=[dict(n=4)], thorough=[dict(n=6)],
         bounds="n callbacks ready together (or due at the same time), an arbitrary one of which cancels an arbitrary one; debug mode on or off", cost=1)
async def vloop_cancel_ready(c, n):
    with nested(c.bool("debug")) as loop:
        log, runs = [], []
        by, target, timed = c.choice("by", n), c.choice("target", n), c.bool("timed")

        async def main():
            for i in range(n):
                r = Run(c, loop, log, f"r{i}", 5 if timed else None)
                if i == by:
                    r.act = lambda: runs[target].cancel()
                runs.append(r)
            for r in runs:
                r.handle = loop.call_at(5, r) if timed else loop.call_soon(r)
            await asyncio.sleep(END)

        loop.run_until_complete(main())
        for r in runs:
            r.verdict()
        c.check(not loop.reported, lambda: f"virtual loop: a cancelled callback was reported as failed: {loop.reported!r}")


@harness("C32", quick=[dict(n=4)], thorough=[dict(n=6)],
         bounds="timers due at arbitrary real times against a chain of n ready callbacks that each schedule the next (symbolic which one also schedules a timer with delay 0 or cancels)", cost=2)
async def vloop_ready(c, n):
    with nested(c.bool("debug")) as loop:
        log = []
        t1, t2 = c.time("t", 0, 10), c.time("t", 0, 10)
        at = c.int("at", 0, n - 1)
        a = Run(c, loop, log, "a", t1)
        b = Run(c, loop, log, "b", t2)
        extra = []

        def step(i):
            if i < n:
                log.append((i, loop.time()))
                if at == i:
                    r = Run(c, loop, log, "zero", loop.time())
                    r.handle = loop.call_later(0, r)
                    extra.append(r)
                loop.call_soon(step, i + 1)

        async def main():
            a.act = lambda: step(0)
            a.handle = loop.call_at(t1, a)
            b.handle = loop.call_at(t2, b)
            await asyncio.sleep(END)

        loop.run_until_complete(main())
        for r in [a, b] + extra:
            r.verdict()
        st = [x for x in log if isinstance(x, tuple)]
        c.check([x[0] for x in st] == list(range(n)), "virtual loop: ready callbacks lost or reordered")
        c.check(c.all([c.eq(x[1], t1) for x in st]), "virtual loop: the clock advanced while callbacks were ready")


@harness("C32", quick=[dict(n=3)], thorough=[dict(n=5)],
         bounds="n timers, each set by the one before it, with arbitrary real delays >= 0 of any size (no upper bound); wait_for with an arbitrary timeout after them", cost=1)
async def vloop_far(c, n):
    with nested() as loop:
        gaps = [c.time("gap") for _ in range(n)]
        limit = c.time("timeout")
        log = []

        async def main():
            for g in gaps:
                await asyncio.sleep(g)
                log.append(loop.time())
            try:
                await asyncio.wait_for(loop.create_future(), limit)
            except (asyncio.TimeoutError, TimeoutError):
                log.append(loop.time())

        loop.run_until_complete(main())
        t, want = 0, []
        for g in gaps + [limit]:
            t = t + g
            want.append(t)
        c.check(len(log) == n + 1 and c.all([c.eq(a, b) for a, b in zip(log, want)]), lambda: f"virtual loop: times {log!r}, expected {want!r}")


@harness("C32", quick=[dict(n=110), dict(n=330)], thorough=[dict(n=110), dict(n=330), dict(n=1200)],
         bounds="n timers in a scrambled order of due times; the first, last or every second k of them are cancelled at the start or from a callback in between, k symbolic", max_steps=40000, cost=3)
async def vloop_many(c, n):
    with nested() as loop:
        k = (0, 1, n // 2 - 1, n // 2, n // 2 + 1, n // 2 + 10, n - 2)[c.choice("k", 7)]
        pick = c.choice("pick", 3)
        late = c.bool("late")
        log = []
        runs = []

        def cancel():
            order = [list(range(n)), list(range(n))[::-1], list(range(0, n, 2)) + list(range(1, n, 2))][pick]
            for i in order[:k]:
                runs[i].cancel()

        async def main():
            for i in range(n):
                t = (i * 37) % n + 2
                r = Run(c, loop, log, f"t{i}", t)
                r.handle = loop.call_at(t, r)
                runs.append(r)
            if late:
                loop.call_at(n // 3 + 0.5, cancel)
            else:
                cancel()
            await asyncio.sleep(n + END)

        loop.run_until_complete(main())
        for r in runs:
            r.verdict()
        _monotone(c, [r.ran[0] for r in log])
        c.check(c.eq(loop.time(), n + END), "virtual loop: the clock is wrong at the end")


@harness("C32", quick=[dict(n=2)], thorough=[dict(n=3)],
         bounds="n tasks sleeping twice for arbitrary real times, one possibly cancelled by another at an arbitrary time (no ties); exceptions and results of run_until_complete", cost=3)
async def vloop_tasks(c, n):
    with nested(c.bool("debug")) as loop:
        fails = c.bool("fails")
        boom = Boom()
        log = []
        ts = []
        for i in range(n):
            ts.append((c.time("a", 0, 10), c.time("b", 0, 10)))
        when = c.time("cancel", 0, 20)
        gone = c.choice("gone", n + 1)
        if gone < n:
            c.assume(when != ts[gone][0])
            c.assume(when != ts[gone][0] + ts[gone][1])
            for i in range(n):
                if ts[i][0] <= 0 or ts[i][1] <= 0 or when <= 0:
                    c.assume(False)

        async def work(i):
            await asyncio.sleep(ts[i][0])
            log.append((i, 0, loop.time()))
            await asyncio.sleep(ts[i][1])
            log.append((i, 1, loop.time()))

        async def main():
            tasks = [asyncio.ensure_future(work(i)) for i in range(n)]
            if gone < n:
                loop.call_later(when, tasks[gone].cancel)
            await asyncio.sleep(END)
            if fails:
                raise boom
            return 7

        try:
            res = loop.run_until_complete(main())
            c.check(not fails and res == 7, "virtual loop: result of the main coroutine")
        except Boom as ex:
            c.check(fails and ex is boom, "virtual loop: exception of the main coroutine")
        for i in range(n):
            mine = [x for x in log if x[0] == i]
            want = [(i, 0, ts[i][0]), (i, 1, ts[i][0] + ts[i][1])]
            if i == gone:
                want = [w for w in want if w[2] < when]
            c.check(len(mine) == len(want) and c.all([c.eq(a[2], b[2]) for a, b in zip(mine, want)]), lambda: f"virtual loop: task woke at {mine!r}, expected {want!r}")
        _monotone(c, [x[2] for x in log])


# ---------------------------------------------------------------- C34
class Plain:
    """Records what an RxPY observer sees."""

    def __init__(self, c):
        self.c, self.events, self.bad = c, [], 0

    def on_next(self, v):
        self._e("next", v)

    def on_error(self, e):
        self._e("error", e)

    def on_completed(self):
        self._e("done", None)

    def _e(self, kind, v):
        if any(k != "next" for k, _ in self.events):
            self.bad += 1
        self.events.append((kind, v))


@harness("C34", quick=[dict(n=3)], thorough=[dict(n=5)],
         bounds="0..n arbitrary values and a completion, an error or nothing; 0..2 loop turns of subscription, 0..1 turns between events", cost=2)
async def bridge_events(c, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    slow, gap = c.choice("slow", 3), c.choice("gap", 2)
    e = Boom()
    vs = seq(c, k)
    p = Probe(c)

    async def on(obv):
        await c.ticks(slow)

    p.on_subscribe = on
    o = Plain(c)
    xs = to_observable(p)
    c.check(p.total == 0, "to_observable: subscribed before anyone asked")
    xs.subscribe(o.on_next, o.on_error, o.on_completed)
    await c.settle()
    c.check(p.total == 1, "to_observable: not subscribed once")
    for v in vs:
        await c.calm("send", p.asend(v))
        await c.ticks(gap)
    if end != "open":
        await c.calm("end", give(p, end, e))
    await c.settle()
    want = [("next", v) for v in vs] + ([] if end == "open" else [(end, e if end == "error" else None)])
    c.check(o.bad == 0 and len(o.events) == len(want) and c.all([a[0] == b[0] and (a[1] is b[1] or (a[0] == "next" and c.eq(a[1], b[1]))) for a, b in zip(o.events, want)]), lambda: f"to_observable: {o.events!r} instead of {want!r}")


@harness("C34", quick=[dict(n=4)], thorough=[dict(n=8)],
         bounds="disposal after a symbolic number 0..n+6 of loop turns, while a source that takes 0..3 turns to subscribe sends n values; once or twice", cost=2)
async def bridge_dispose(c, n):
    slow = c.choice("slow", 4)
    twice = c.bool("twice")
    during = c.bool("during")  # sends from within the subscription
    p = Probe(c)
    sent = []

    async def feed(obv):
        for i in range(n):
            await obv.asend(i)
            sent.append(i)
            await c.ticks(1)

    async def on(obv):
        await c.ticks(slow)
        if during:
            await feed(obv)

    p.on_subscribe = on
    o = Plain(c)
    d = to_observable(p).subscribe(o.on_next, o.on_error, o.on_completed)
    if not during:
        async def play():
            for _ in range(4):
                if p.subs:
                    await feed(p)
                    return
                await c.ticks(1)
        asyncio.ensure_future(play())
    await c.ticks(c.int("turns", 0, n + 6))
    seen = len(o.events)
    d.dispose()
    if twice:
        d.dispose()
    await c.settle()
    if twice:
        d.dispose()
        await c.settle()
    c.check(len(o.events) == seen, lambda: f"to_observable: delivered {o.events[seen:]!r} after dispose")
    c.check([v for _, v in o.events] == list(range(seen)) and all(k == "next" for k, _ in o.events), lambda: f"to_observable: {o.events!r}")
    c.check(p.active == 0, "to_observable: the source is still subscribed after dispose")


@harness("C34", quick=[dict(n=3)], thorough=[dict(n=6)], bounds="a source that emits 0..n arbitrary values, and then completes, fails or stays open, while it is being subscribed to, in a task of its own, or as an iterable, single value or empty stream; disposed afterwards, once or twice", cost=1)
async def bridge_eager(c, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    e = Boom()
    vs = seq(c, k)
    forms = ["sync", "task"] + (["iterable"] if end == "done" else []) + (["single"] if end == "done" and k == 1 else []) + (["empty"] if end == "done" and k == 0 else []) + (["fail"] if end == "error" and k == 0 else [])
    form = forms[c.choice("form", len(forms))]
    ev = [("next", v) for v in vs] + ([] if end == "open" else [(end, e if end == "error" else None)])
    if form in ("sync", "task"):
        src = Feed(c, ev, sync=form == "sync")
    elif form == "iterable":
        src = rx.from_iterable(vs)
    elif form == "single":
        src = rx.single(vs[0])
    elif form == "empty":
        src = rx.empty()
    else:
        from aioreactive.create import fail
        src = fail(e)
    o = Plain(c)
    d = to_observable(src).subscribe(o.on_next, o.on_error, o.on_completed)
    await c.settle()
    c.check(o.bad == 0 and len(o.events) == len(ev) and c.all([a[0] == b[0] and (a[1] is b[1] or (a[0] == "next" and c.eq(a[1], b[1]))) for a, b in zip(o.events, ev)]),
            lambda: f"to_observable over a source that emits by itself ({form}): {o.events!r} instead of {ev!r}")
    for _ in range(1 + c.choice("again", 2)):
        d.dispose()
    await c.settle()
    c.check(len(o.events) == len(ev), "to_observable: events after dispose")


@harness("C34", quick=[{}], bounds="values such as None, 0, False, '', exceptions, by identity; every kind of exception; two independent subscriptions, one disposed")
async def bridge_special(c):
    sp, er = special_values(), error_kinds()
    i = c.choice("v", len(sp))
    v, e = sp[i], er[c.choice("e", len(er))]
    first = c.choice("first", 3)
    p = Probe(c)
    xs = to_observable(p)
    os_ = [Plain(c), Plain(c)]
    ds = [xs.subscribe(o.on_next, o.on_error, o.on_completed) for o in os_]
    await c.settle()
    c.check(p.active == 2, "to_observable: subscriptions are not independent")
    await p.asend(v)
    if first < 2:
        ds[first].dispose()
        await c.settle()
    await p.asend(v)
    await p.athrow(e)
    await c.settle()
    for j, o in enumerate(os_):
        full = [("next", v)] if j == first else [("next", v), ("next", v), ("error", e)]
        c.check(len(o.events) == len(full) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(o.events, full)), lambda: f"to_observable: {o.events!r} instead of {full!r}")


@harness("C34", quick=[dict(n=25)], thorough=[dict(n=100)], bounds="0..n values (symbolic count) from an iterable through operators", max_steps=30000)
async def bridge_deep(c, n):
    m = c.int("n", 0, n)
    o = Plain(c)
    s = rx.AsyncSubject()
    to_observable(rx.map(lambda x: x + 1)(s)).subscribe(o.on_next, o.on_error, o.on_completed)
    await c.settle()
    i = 0
    while i < m:
        await s.asend(i)
        i += 1
    await s.aclose()
    await c.settle()
    c.check(o.events == [("next", j + 1) for j in range(i)] + [("done", None)], "to_observable: wrong events")


# ---------------------------------------------------------------- C35
def _mk(kind, v):
    return OnNext(v) if kind == "next" else OnError(v) if kind == "error" else OnCompleted()


@harness("C35", quick=[{}], bounds="every kind with an arbitrary value; observer and three functions, which take 0..2 loop turns")
async def note_dispatch(c):
    kind = ("next", "error", "done")[c.choice("kind", 3)]
    v = c.value("v") if kind == "next" else Boom() if kind == "error" else None
    turns = c.choice("turns", 3)
    note = _mk(kind, v)
    out = Rec(c)

    async def slow(k, x):
        await c.ticks(turns)

    out.on_any = slow
    await c.calm("accept_observer", note.accept_observer(out))
    c.check(out.active == 0, "notification: accept_observer returned early")
    calls = []

    async def s(x):
        await c.ticks(turns)
        calls.append(("next", x))

    async def t(x):
        await c.ticks(turns)
        calls.append(("error", x))

    async def cl():
        await c.ticks(turns)
        calls.append(("done", None))

    await c.calm("accept", note.accept(s, t, cl))
    seen = []

    async def fn(x):
        await c.ticks(turns)
        seen.append(x)

    ob = AsyncNotificationObserver(fn)
    await c.calm("notification observer", note.accept_observer(ob))
    want = [(kind, v)]
    for got, what in ((out.events, "accept_observer"), (calls, "accept")):
        c.check(len(got) == 1 and got[0][0] == kind and (got[0][1] is v or (kind == "next" and c.eq(got[0][1], v))), lambda: f"notification: {what}: {got!r} instead of {want!r}")
    c.check(len(seen) == 1 and seen[0] == note and seen[0].kind == note.kind, lambda: f"notification observer: {seen!r} instead of {note!r}")
    c.check(note.kind == {"next": MsgKind.ON_NEXT, "error": MsgKind.ON_ERROR, "done": MsgKind.ON_COMPLETED}[kind], "notification: kind")
    if kind == "next":
        c.check(c.eq(note.value, v) and c.eq(seen[0].value, v), "notification: value")
    if kind == "error":
        c.check(note.exception is v and seen[0].exception is v, "notification: exception")
    match note:
        case OnNext(x):
            c.check(kind == "next" and c.eq(x, v), "notification: pattern")
        case OnError(x):
            c.check(kind == "error" and x is v, "notification: pattern")
        case OnCompleted():
            c.check(kind == "done", "notification: pattern")
        case _:
            c.fail("notification: no pattern")


@harness("C35", quick=[{}], bounds="every pair of kinds with two arbitrary values / two exceptions (same, distinct, or equal by ==)")
async def note_equality(c):
    class Eq(Exception):
        def __init__(self, k):
            super().__init__("same message")
            self.k = k

        def __eq__(self, o):
            return isinstance(o, Eq) and o.k == self.k

        __hash__ = Exception.__hash__

    kinds = ("next", "error", "done")
    ka, kb = kinds[c.choice("ka", 3)], kinds[c.choice("kb", 3)]
    x, y = c.value("x"), c.value("y")
    ea, eb = Eq(x), Eq(y)
    same = c.bool("same")
    if same:
        eb = ea
    a = _mk(ka, x if ka == "next" else ea)
    b = _mk(kb, y if kb == "next" else eb)
    if ka != kb:
        want = False
    elif ka == "done":
        want = True
    elif ka == "next":
        want = bool(x == y)
    else:
        want = True if same else bool(x == y)
    c.check(bool(a == b) == want, lambda: f"notification: {a!r} == {b!r} is not {want}")
    c.check(bool(b == a) == want, "notification: equality is not symmetric")
    c.check(bool(a != b) == (not want), "notification: inequality")
    c.check(bool(a == a), "notification: not equal to itself")


@harness("C35", quick=[{}], bounds="contents such as None, 0, False, '', exceptions, notifications; comparison with bare values and other kinds; every kind of exception")
async def note_special(c):
    sp, er = [v for v in special_values() if not isinstance(v, Sealed)], error_kinds()
    i = c.choice("v", len(sp))
    j = c.choice("w", len(sp))
    v, w = sp[i], sp[j]
    ie = c.choice("e", len(er))
    e = er[ie]
    out = Rec(c)
    seen = []

    async def fn(x):
        seen.append(x)

    ob = AsyncNotificationObserver(fn)
    await OnNext(v).accept_observer(out)
    await OnNext(v).accept_observer(ob)
    c.check(len(out.events) == 1 and out.events[0][0] == "next" and out.events[0][1] is v, lambda: f"notification: {out.events!r}")
    c.check(len(seen) == 1 and isinstance(seen[0], OnNext) and seen[0].value is v, lambda: f"notification observer: {seen!r}")
    await OnError(e).accept_observer(out)
    await OnError(e).accept_observer(ob)
    c.check(out.events[1:] and out.events[1][0] == "error" and out.events[1][1] is e, "notification: error")
    c.check(isinstance(seen[-1], OnError) and seen[-1].exception is e, "notification observer: error")
    calls = []

    async def s(x):
        calls.append(("next", x))

    async def t(x):
        calls.append(("error", x))

    async def cl():
        calls.append(("done", None))

    for note, want in ((OnNext(v), ("next", v)), (OnError(e), ("error", e)), (OnCompleted(), ("done", None)), (OnNext(e), ("next", e))):
        del calls[:]
        await note.accept(s, t, cl)
        c.check(len(calls) == 1 and calls[0][0] == want[0] and calls[0][1] is want[1], lambda: f"notification: accept of {note!r} made the calls {calls!r}")
    c.check(bool(OnNext(v) == OnNext(w)) == bool(v == w), lambda: f"notification: OnNext({v!r}) == OnNext({w!r})")
    c.check(not OnNext(v) == v or isinstance(v, OnNext) and v.value is v, lambda: f"notification: OnNext({v!r}) equals its content")
    c.check(not OnNext(e) == OnError(e) and not OnError(e) == OnNext(e), "notification: kinds compare equal")
    twin = error_kinds()[ie]  # another object with the same type and message
    c.check(OnError(e) == OnError(e) and not OnError(e) == OnError(twin), "notification: distinct exceptions compare equal")
    c.check(not OnCompleted() == OnNext(None) and not OnNext(None) == OnCompleted(), "notification: kinds compare equal")
    c.check(OnCompleted() == OnCompleted() and not OnCompleted() == None, "notification: completed")  # noqa: E711
    c.check(not OnNext(OnNext(v)) == OnNext(v) or isinstance(v, OnNext), "notification: nesting")


@harness("C35", quick=[dict(k=4)], thorough=[dict(k=7)], bounds="every sequence of k events, arbitrary values, through a notification observer and back, handler taking 0..2 turns", cost=2)
async def note_sequence(c, k):
    out = Rec(c)
    turns = c.choice("turns", 3)

    async def fn(x):
        await c.ticks(turns)
        await x.accept(out.asend, out.athrow, out.aclose)

    ob = AsyncNotificationObserver(fn)
    want = []
    for j in range(k):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        v = c.value("v") if kind == "next" else Boom(str(j)) if kind == "error" else None
        await c.calm("notification observer", give(ob, kind, v))
        want.append((kind, v))
        c.check(len(out.events) == len(want), "notification observer: returned before the event was handled")
    c.check(c.all([a[0] == b[0] and (a[1] is b[1] or (a[0] == "next" and c.eq(a[1], b[1]))) for a, b in zip(out.events, want)]), lambda: f"notification observer: {out.events!r} instead of {want!r}")


# ---------------------------------------------------------------- C36
TSUBS = {"AsyncTestSubject": AsyncTestSubject, "AsyncTestSingleSubject": AsyncTestSingleSubject}


def _schedule(s, style, kind, t, v):
    if style == "at":
        return s.asend_at(t, v) if kind == "next" else s.athrow_at(t, v) if kind == "error" else s.aclose_at(t)
    if style == "later":
        return s.asend_later(t, v) if kind == "next" else s.athrow_later(t, v) if kind == "error" else s.aclose_later(t)
    return (s.asend_later_scheduled(t, v) if kind == "next" else s.athrow_later_scheduled(t, v) if kind == "error"
            else s.close_later_scheduled(t))


@harness("C36", quick=[dict(sub=s, m=8) for s in TSUBS], thorough=[dict(sub=s, m=20) for s in TSUBS],
         bounds="m events pending at once, all scheduled in one way or in mixed ways, in or against time order, an arbitrary real time apart; a symbolic one is an error or the completion", cost=2)
async def tsubject_many(c, sub, m):
    s = TSUBS[sub]()
    obv = AsyncTestObserver()
    await s.subscribe_async(obv)
    await c.sleep(1)
    u = c.time("step", 1, 5)
    style = c.choice("style", 4)
    end, kind = c.choice("end", m), ("error", "done")[c.choice("kind", 2)]
    err = Boom("end")
    order = range(m) if c.bool("ordered") else range(m - 1, -1, -1)
    for i in order:
        st = ("at", "later", "scheduled")[style if style < 3 else i % 3]
        k, v = (kind, err if kind == "error" else None) if i == end else ("next", i)
        t = (i + 1) * u + (1 if st == "at" else 0)
        if st == "later":
            asyncio.ensure_future(_schedule(s, st, k, t, v))
        else:
            await c.calm("schedule", _schedule(s, st, k, t, v))
    await c.drain()
    got = obv.values
    what = lambda: f"test subject: recorded {got!r} of {m} events, the end at {end}"
    c.check(len(got) == end + 1, what)
    c.check(c.all([c.eq(t, 1 + (i + 1) * u) for i, (t, _) in enumerate(got)]), what)
    c.check(all(isinstance(g, OnNext) and g.value == i for i, (_, g) in enumerate(got[:end])), what)
    if len(got) == end + 1:
        g = got[end][1]
        c.check(isinstance(g, OnError) and g.exception is err if kind == "error" else isinstance(g, OnCompleted), what)


@harness("C36", quick=[dict(sub=s, n=2) for s in TSUBS] + [dict(sub="AsyncTestSubject", n=3, few=True)],
         thorough=[dict(sub=s, n=3) for s in TSUBS] + [dict(sub="AsyncTestSubject", n=4, few=True)],
         bounds="n events of any kind scheduled at arbitrary real times (no ties): absolute, relative and scheduled; awaited ones in separate tasks, scheduled after a pause of arbitrary length", cost=5)
async def tsubject_times(c, sub, n, few=False):
    s = TSUBS[sub]()
    obv = AsyncTestObserver()
    out = Rec(c)
    obv_sub = await s.subscribe_async(obv)
    if sub == "AsyncTestSubject":
        await s.subscribe_async(out)
    start = c.time("start")
    await c.sleep(start)
    evs = []
    for i in range(n):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        style = ("at", "later", "scheduled")[c.choice("style", 2 if few else 3)]
        v = c.value("v") if kind == "next" else Boom(str(i)) if kind == "error" else None
        t = c.time("t")
        due = t if style == "at" else start + t
        if not (due > start):
            due = start
        for x in evs:
            c.assume(x[0] != due)
        evs.append((due, kind, v))
        if style == "later":
            asyncio.ensure_future(_schedule(s, style, kind, t, v))
        else:
            await c.calm("schedule", _schedule(s, style, kind, t, v))
    c.check(c.eq(c.now(), start), "test subject: scheduling takes time")
    await c.drain()
    # time order, by comparisons the solver decides
    order = []
    for x in evs:
        k = 0
        while k < len(order) and order[k][0] < x[0]:
            k += 1
        order.insert(k, x)
    want = []
    for x in order:
        want.append(x)
        if x[1] != "next":
            break
    got = obv.values
    c.check(len(got) == len(want), lambda: f"test subject: recorded {got!r}, expected {want!r}")
    for (gt, g), (wt, kind, v) in zip(got, want):
        c.check(c.eq(gt, wt), lambda: f"test subject: event at {gt} instead of {wt}")
        k2 = "next" if isinstance(g, OnNext) else "error" if isinstance(g, OnError) else "done"
        c.check(k2 == kind, lambda: f"test subject: {g!r} instead of {kind}")
        if kind == "next" and k2 == kind:
            c.check(c.eq(g.value, v), "test subject: wrong value")
        elif kind == "error" and k2 == kind:
            c.check(g.exception is v, "test subject: wrong exception")
    if sub == "AsyncTestSubject":
        c.check(c.eq(out.times, [w[0] for w in want]) and out.kinds() == [w[1] for w in want], "test subject: second observer")


@harness("C36", quick=[dict(k=4)], thorough=[dict(k=6)],
         bounds="every sequence of k events, arbitrary values at arbitrary times, into the recording observer; user callbacks take 0..1 turns or an arbitrary time", cost=3)
async def tobserver_history(c, k):
    calls = []
    d = c.time("took")
    slow = c.bool("slow")

    async def s(v):
        calls.append(("next", v))
        if slow:
            await c.sleep(d)

    async def t(e):
        calls.append(("error", e))

    async def cl():
        calls.append(("done", None))

    obv = AsyncTestObserver(s, t, cl)
    want, cb = [], []
    last = term = None
    for j in range(k):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        v = c.value("v") if kind == "next" else Boom(str(j)) if kind == "error" else None
        await c.sleep(c.time("gap"))
        want.append((c.now(), kind, v))
        await c.calm("test observer", give(obv, kind, v))
        if term is None:
            cb.append((kind, v))
            if kind == "next":
                last = (v,)
            else:
                term = (kind, v)
        c.check(obv.done() == (term is not None), "test observer: future done at the wrong moment")
        if term is not None:
            break
    got = obv.values
    c.check(len(got) == len(want), lambda: f"test observer: recorded {got!r}")
    for (gt, g), (wt, kind, v) in zip(got, want):
        c.check(c.eq(gt, wt), "test observer: recorded time")
        c.check({"next": OnNext, "error": OnError, "done": OnCompleted}[kind] is type(g), "test observer: recorded kind")
        if kind == "next":
            c.check(c.eq(getattr(g, "value", None), v), "test observer: recorded value")
        elif kind == "error":
            c.check(getattr(g, "exception", None) is v, "test observer: recorded exception")
    def called(want):
        return len(calls) == len(want) and c.all([a[0] == b[0] and (a[1] is b[1] or c.eq(a[1], b[1])) for a, b in zip(calls, want)])

    c.known("C36", "test-observer-callbacks-twice", called(cb), called([x for x in cb for _ in range(2)]),
            lambda: f"test observer: callbacks {calls!r} instead of {cb!r}")
    if term is None:
        return
    if term[0] == "error":
        c.check(not obv.cancelled() and obv.exception() is term[1], "test observer: future error")
    elif last is None:
        c.check(obv.cancelled(), "test observer: future of an empty stream")
    else:
        c.check(not obv.cancelled() and obv.exception() is None and c.eq(obv.result(), last[0]), "test observer: future result")


@harness("C36", quick=[dict(sub=s, n=8) for s in TSUBS], thorough=[dict(sub=s, n=20) for s in TSUBS],
         bounds="n values scheduled in scrambled order, a close or error at an arbitrary real time among them", cost=2, max_steps=20000)
async def tsubject_cut(c, sub, n):
    s = TSUBS[sub]()
    obv = AsyncTestObserver()
    await s.subscribe_async(obv)
    T = c.time("end", 0, n + 2)
    style = ("at", "later", "scheduled")[c.choice("style", 3)]
    kind = ("error", "done")[c.choice("kind", 2)]
    e = Boom()
    for j in range(n):
        i = (j * 5 + 2) % n if n % 5 else (j * 3 + 2) % n
        await s.asend_at(i + 1, i)
        c.assume(T != i + 1)
    coro = _schedule(s, style, kind, T, e)
    asyncio.ensure_future(coro)
    await c.drain()
    want = [i for i in range(n) if i + 1 < T]
    vals = [g.value for t, g in obv.values if isinstance(g, OnNext)]
    c.check(vals == want, lambda: f"test subject: {vals!r} instead of {want!r}")
    c.check(c.all([c.eq(t, g.value + 1) for t, g in obv.values if isinstance(g, OnNext)]), "test subject: times")
    c.check(len(obv.values) == len(want) + 1 and c.eq(obv.values[-1][0], T) and isinstance(obv.values[-1][1], OnError if kind == "error" else OnCompleted), "test subject: end")
