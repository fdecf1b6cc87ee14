"""C03 disposal, C04 auto-detach, C05 independence."""
from __future__ import annotations

from symx.registry import harness

from aioreactive import combine as _combine
from aioreactive import create as _create
from aioreactive import filtering as _filtering
from aioreactive import transform as _transform

from .ops import *  # noqa: F401,F403
from .t_grammar import Fuse, quietly


class Source(Probe):
    """A well-behaved probe: it sends nothing after it has terminated."""

    ended = False

    async def asend(self, v):
        if not self.ended:
            await super().asend(v)

    async def athrow(self, e):
        if not self.ended:
            self.ended = True
            await super().athrow(e)

    async def aclose(self):
        if not self.ended:
            self.ended = True
            await super().aclose()


def silent(c, out, n, what):
    c.check(len(out.events) == n, lambda: f"{what}: {out.events[n:]!r} delivered after dispose had returned")


def released(c, srcs, what):
    for s in srcs:  # a source that has terminated by itself needs no disposal
        c.check(s.ended or s.active == 0, lambda: f"{what}: {s.name} is still subscribed {s.active} times of {s.total}")


async def event(c, srcs, j):
    i = c.choice("src", len(srcs)) if len(srcs) > 1 else 0
    kind = ("next", "error", "done")[c.choice("kind", 3)]
    v = c.value("v") if kind == "next" else Boom(str(j)) if kind == "error" else None
    await quietly(give(srcs[i], kind, v))


# ---------------------------------------------------------------- C03
@harness("C03", quick=[dict(op=o, k=4 if TABLE[o].n == 1 else 3) for o in ALL], thorough=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in ALL],
         bounds="every operator; disposal at every position in every sequence of k events (any source, value, error or close), queued or settled, disposing once or twice", cost=3)
async def dispose_position(c, op, k):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    out = Rec(c)
    settle = c.bool("settle")
    sub = await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    at = c.int("at", 0, k)
    n = None
    for j in range(k + 1):
        if at == j:
            await c.calm("dispose", sub.dispose_async())
            n = len(out.events)
            if not settle:
                await c.calm("second dispose", sub.dispose_async())
        if j < k:
            await event(c, srcs, j)
            if settle:
                await c.settle()
    await c.drain()
    silent(c, out, n, op)
    released(c, srcs, op)
    out.grammar(op)
    await c.calm("late dispose", sub.dispose_async())
    await c.drain()
    silent(c, out, n, op)


@harness("C03", quick=[dict(op=o, T=10) for o in ALL], thorough=[dict(op=o, T=25) for o in ALL],
         bounds="every operator; disposal after every number 0..T of loop turns while producers are sending values and then close, the observer takes 0..2 turns per event", cost=2)
async def dispose_turn(c, op, T):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    out = Rec(c)
    work = c.choice("observer", 3)

    async def on(kind, v):
        await c.ticks(work)

    out.on_any = on
    sub = await o.build(srcs, lambda x, *r: x).subscribe_async(out)

    async def produce(s, fails):
        for j in range(3):
            await quietly(s.asend(j))
        if fails:
            await quietly(s.athrow(Boom()))
        else:
            await quietly(s.aclose())

    for i, s in enumerate(srcs):
        asyncio.ensure_future(produce(s, op in ("catch", "retry") and i == 0))
    await c.ticks(c.int("turns", 0, T))
    await c.calm("dispose", sub.dispose_async())
    n = len(out.events)
    await c.drain()
    silent(c, out, n, op)
    released(c, srcs, op)


@harness("C03", quick=[dict(op=o, T=8) for o in NAMES], thorough=[dict(op=o, T=16) for o in NAMES],
         bounds="every operator over sources that send 0..2 values (and possibly end) while they are being subscribed, and take 0..2 turns for it; a value or error sent at the third turn; disposal 0..T turns after subscribing, then more events", cost=2)
async def dispose_slow(c, op, T):
    o = table()[op]
    srcs = []
    turns = c.choice("turns", 3)
    for i in range(o.n):
        s = Source(c, f"s{i}")
        n, end = c.choice("n", 3), (None, "done", "error")[c.choice("end", 3)]

        async def on(obv, n=n, end=end, s=s):
            for j in range(n):
                await quietly(obv.asend(j))
            await c.ticks(turns)
            if end and not s.ended:
                s.ended = True
                await quietly(give(obv, end, Boom()))

        s.on_subscribe = on
        srcs.append(s)
    out = Rec(c)
    sub = await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    t = c.int("at", 0, T)
    kind = ("next", "error")[c.choice("kind", 2)] if op in ("catch", "retry") else "next"
    i = 0
    while i < t:
        await c.ticks(1)
        i += 1
        if i == 3:
            asyncio.ensure_future(quietly(give(srcs[0], kind, Boom() if kind == "error" else 7)))
    await c.calm("dispose", sub.dispose_async())
    n = len(out.events)
    await c.settle()
    for s in srcs:
        await quietly(s.asend(8))
    await c.drain()
    silent(c, out, n, op)
    released(c, srcs, op)


@harness("C03", quick=[dict(op=o) for o in ALL], thorough=[dict(op=o, n=5) for o in ALL],
         bounds="every operator; the observer disposes its own subscription while it handles its k-th event (k symbolic), further events are queued already or sent later", cost=1)
async def dispose_self(c, op, n=3):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    out = Rec(c)
    at = c.int("at", 0, n)
    sub, mark = [], []

    async def on(kind, v):
        if at == len(out.events) - 1:
            await sub[0].dispose_async()
            mark.append(len(out.events))

    out.on_any = on
    sub.append(await o.build(srcs, lambda x, *r: x).subscribe_async(out))
    settle = c.bool("settle")
    fails = c.bool("fails")
    for s in srcs:
        for j in range(n):
            await quietly(s.asend(j))
            if settle:
                await c.drain()
    for s in srcs:
        await quietly(s.athrow(Boom()) if fails else s.aclose())
        await c.settle()
    await c.drain()
    if mark:
        silent(c, out, mark[0], op)
        released(c, srcs, op)


@harness("C03", quick=[dict(op=o) for o in ALL], bounds="every operator; the observer disposes its own subscription while it handles a value, itself or through another task, and then raises; further events are queued already or sent later", cost=1)
async def dispose_and_raise(c, op, n=3):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    out = Rec(c)
    at, other = c.choice("at", 2), c.bool("other")
    sub, mark = [], []

    async def on(v):
        if at == len(out.values) - 1:
            if other:
                await asyncio.ensure_future(sub[0].dispose_async())
            else:
                await sub[0].dispose_async()
            mark.append(len(out.events))
            raise Boom("observer")

    out.on_next = on
    sub.append(await o.build(srcs, lambda x, *r: x).subscribe_async(out))
    settle = c.bool("settle")
    if op == "catch":
        await quietly(srcs[0].athrow(Boom()))
    for s in srcs:
        for j in range(n):
            await quietly(s.asend(j))
            if settle:
                await c.drain()
    if o.buffered:
        await quietly(srcs[0].aclose())
    await c.drain()
    if mark:
        silent(c, out, mark[0], op)
        released(c, [s for s in srcs if not (o.buffered and s is srcs[0])], op)


@harness("C03", quick=[dict(first=o, k=2) for o in NAMES], thorough=[dict(first=o, k=3) for o in NAMES],
         bounds="every pair of operators; disposal at every position of k events, queued", cost=4)
async def dispose_pair(c, first, k):
    t = table()
    a, b = t[first], t[NAMES[c.choice("second", len(NAMES))]]
    srcs = [Source(c, f"s{i}") for i in range(a.n)]
    other = Source(c, "other")
    out = Rec(c)
    sub = await b.build([a.build(srcs, lambda x, *r: x), other], lambda x, *r: x).subscribe_async(out)
    at = c.int("at", 0, k)
    every = srcs + ([other] if b.n > 1 else [])
    n = None
    for j in range(k + 1):
        if at == j:
            await c.calm("dispose", sub.dispose_async())
            n = len(out.events)
        if j < k:
            await event(c, every, j)
    await c.drain()
    silent(c, out, n, f"{first} then {b.name}")
    released(c, every, f"{first} then {b.name}")


def _creations(c, boom):
    state = {"open": 0}

    async def ait():
        state["open"] += 1
        try:
            for i in range(3):
                await asyncio.sleep(0)
                yield i
        finally:
            state["open"] -= 1

    async def work(fails):
        for _ in range(3):
            await asyncio.sleep(0)
        if fails:
            raise boom
        return 5

    async def sleeper():
        await asyncio.sleep(2)
        return 5

    return {
        "from_iterable": lambda: rx.from_iterable([1, 2, 3]),
        "of_seq": lambda: _create.of_seq(iter([1, 2, 3])),
        "from_async_iterable": lambda: rx.from_async_iterable(ait()),
        "from_async": lambda: rx.from_async(work(False)),
        "from_async_fails": lambda: rx.from_async(work(True)),
        "of_async": lambda: _create.of_async(sleeper()),
        "fail": lambda: _create.fail(boom),
        "defer": lambda: rx.defer(lambda: rx.from_iterable([1, 2, 3])),
        "defer_interval": lambda: rx.defer(lambda: rx.interval(1, 1)),
        "interval": lambda: rx.interval(1, 1),
        "interval0": lambda: rx.interval(0, 1),
        "timer": lambda: rx.timer(1),
        "never": lambda: rx.never(),
        "single": lambda: rx.single(1),
        "single_map": lambda: rx.map(lambda x: x + 1)(rx.single(1)),
        "single_scan": lambda: rx.scan(lambda a, x: a + x, 0)(rx.single(1)),
        "empty": lambda: rx.empty(),
        "create": lambda: _create.create(lambda obv: rx.single(1).subscribe_async(obv)),
        "defer_single": lambda: rx.defer(lambda: rx.single(1)),
        "iterable_observable": lambda: rx.AsyncIterableObservable(rx.single(1)),
        "merge": lambda: rx.merge_seq([rx.from_iterable([1, 2]), rx.interval(1, 1)]),
        "concat": lambda: rx.concat_seq([rx.from_iterable([1, 2]), rx.interval(1, 1)]),
        "delay": lambda: rx.delay(1)(rx.interval(0, 1)),
        "debounce": lambda: rx.debounce(0.5)(rx.interval(0, 1)),
        "flat_map": lambda: rx.flat_map(lambda i: rx.interval(0.5, 0.5))(rx.interval(0, 1)),
        "switch": lambda: _transform.flat_map_latest(lambda i: rx.interval(0.25, 0.25))(rx.interval(0, 1)),
        "take_until": lambda: rx.take_until(rx.timer(3))(rx.interval(0, 1)),
        "combine": lambda: rx.combine_latest(rx.interval(0.5, 1))(rx.interval(0, 1)),
        "retry": lambda: rx.retry(3)(_create.fail(boom)),
        "catch": lambda: rx.catch(lambda e: rx.interval(0, 1))(_create.fail(boom)),
        "chained": lambda: rx.AsyncRx.from_iterable([1, 2, 3]).delay(1).map(lambda x: x),
    }


CREATIONS = list(_creations(None, None))
SINGLES = {"single": 1, "single_map": 2, "single_scan": 1, "create": 1, "defer_single": 1, "iterable_observable": 1}
ENDLESS = ("interval", "interval0", "defer_interval", "merge", "concat", "delay", "debounce", "flat_map", "switch", "combine", "catch")


@harness("C03", quick=[dict(op=o, T=12) for o in CREATIONS], thorough=[dict(op=o, T=30) for o in CREATIONS],
         bounds="every creation function (alone and under operators); disposal after every number 0..T of loop turns, or when the observer has seen its k-th event (from inside it), the observer takes 0..1 turns; then no event for 20 units of time", cost=2)
async def dispose_creation(c, op, T):
    boom = Boom()
    xs = _creations(c, boom)[op]()
    out = Rec(c)
    work = c.choice("observer", 2)
    inside = c.bool("inside")
    at = c.int("at", 0, 3 if inside else T)
    sub, mark = [], []

    async def on(kind, v):
        await c.ticks(work)
        if inside and sub and at == len(out.events) - 1:
            await sub[0].dispose_async()
            mark.append(len(out.events))

    out.on_any = on
    sub.append(await xs.subscribe_async(out))
    if inside:
        await c.sleep(5.6)
        await sub[0].dispose_async()
        if not mark:
            mark.append(len(out.events))
    else:
        await c.ticks(at)
        await c.calm("dispose", sub[0].dispose_async())
        mark.append(len(out.events))
        await c.calm("dispose", sub[0].dispose_async())
    await c.sleep(20)
    if op in SINGLES:  # listed: the value and the completion that single queues when it is subscribed to
        rest = [("next", SINGLES[op]), ("done", None)]
        c.known("C03", "single-queued-events", len(out.events) == mark[0], out.events == rest[:len(out.events)],
                lambda: f"{op}: {out.events[mark[0]:]!r} delivered after dispose had returned")
    else:
        silent(c, out, mark[0], op)
    out.grammar(op)
    await c.drain()  # nothing of the pipeline is left running


@harness("C03", quick=[dict(op=o) for o in ("interval", "interval0", "timer", "of_async", "delay", "debounce", "merge", "concat", "flat_map", "switch", "take_until", "combine", "catch", "chained")],
         bounds="timed sources and operators; disposal at an arbitrary real time 0..6 that does not coincide with an event", cost=2)
async def dispose_time(c, op):
    xs = _creations(c, Boom())[op]()
    out = Rec(c)
    t = c.time("at", 0, 4)
    sub = await xs.subscribe_async(out)
    await c.sleep(t)
    await c.calm("dispose", sub.dispose_async())
    n = len(out.events)
    await c.sleep(20)
    silent(c, out, n, op)
    await c.drain()


@harness("C03", quick=[dict(op=o, n=2) for o in ("delay", "debounce")], thorough=[dict(op=o, n=3) for o in ("delay", "debounce")],
         bounds="delay and debounce by an arbitrary real time over n values at arbitrary real times; disposal at an arbitrary real time", cost=3)
async def dispose_timed(c, op, n):
    p = Source(c)
    d = c.time("seconds", 0.1, 5)
    xs = (rx.delay if op == "delay" else rx.debounce)(d)(p)
    out = Rec(c)
    sub = await xs.subscribe_async(out)

    async def produce():
        for j in range(n):
            await c.sleep(c.time("gap", 0, 5))
            await p.asend(j)
        await p.aclose()

    asyncio.ensure_future(produce())
    await c.sleep(c.time("at", 0, 12))
    await c.calm("dispose", sub.dispose_async())
    k = len(out.events)
    await c.drain()
    silent(c, out, k, op)
    released(c, [p], op)


@harness("C03", quick=[dict(n=4)], thorough=[dict(n=8)],
         bounds="a subject with n observers; while a symbolic observer handles an event it disposes the subscription of another symbolic one", cost=1)
async def dispose_other(c, n):
    s = rx.AsyncSubject()
    who, whom = c.int("who", 0, n - 1), c.int("whom", 0, n - 1)
    kind = ("next", "error", "done")[c.choice("kind", 3)]
    turns = c.choice("turns", 2)
    subs, mark = [], {}

    def mk(i):
        r = Rec(c, f"o{i}")

        async def on(k, v):
            await c.ticks(turns)
            if who == i and not mark:
                for j in range(n):
                    if whom == j:
                        await subs[j].dispose_async()
                        mark[j] = len(recs[j].events)

        r.on_any = on
        return r

    recs = [mk(i) for i in range(n)]
    for r in recs:
        subs.append(await s.subscribe_async(r))
    await give(s, kind, Boom() if kind == "error" else 1)
    await give(s, "next", 2)
    await c.drain()
    for j in mark:
        silent(c, recs[j], mark[j], "subject")
    for i, r in enumerate(recs):
        if i not in mark:
            c.check(len(r.events) == (2 if kind == "next" else 1), "subject: another observer was affected")


_LAZY = "every operator over sources whose disposal takes 1..3 loop turns, during which they still send; every sequence of k events from the sources, 0..2 turns or none apart, and a disposal at a symbolic position or never; grammar, silence once the disposal has returned, release of the sources"


@harness("C01", quick=[dict(op=o, k=3) for o in NAMES], thorough=[dict(op=o, k=4) for o in NAMES], bounds=_LAZY)
@harness("C03", quick=[dict(op=o, k=3) for o in NAMES], thorough=[dict(op=o, k=4) for o in NAMES], bounds=_LAZY)
@harness("C04", quick=[dict(op=o, k=3) for o in NAMES], thorough=[dict(op=o, k=4) for o in NAMES], bounds=_LAZY)
async def lazy_release(c, op, k):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    for s in srcs:
        s.slow = 1 + 2 * c.choice("slow", 2) if s is srcs[0] else 2
    out = Rec(c)
    sub = await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    at = c.choice("at", k + 2)
    turns = c.choice("turns", 3)
    n = []

    async def dispose():
        await c.calm("dispose", sub.dispose_async())
        n.append(len(out.events))

    for j in range(k + 1):
        if at == j:
            asyncio.ensure_future(dispose())
        if j < k:
            await event(c, srcs, j)
            await c.ticks(turns)
    await c.drain()
    out.grammar(op)
    if n:
        silent(c, out, n[0], op)
    if n or out.terminal is not None:
        released(c, srcs if n else [s for s in srcs if not s.ended], f"{op} ended with {out.terminal}")


# ---------------------------------------------------------------- C04
@harness("C04", quick=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in ALL], thorough=[dict(op=o, k=6 if TABLE[o].n == 1 else 5) for o in ALL],
         bounds="every operator; every sequence of k events from its sources (values, errors, closes), the callback raises at a symbolic call or never, queued or settled", cost=3)
async def detach_op(c, op, k):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    fuse = Fuse(c.int("raises", 0, k) if o.cb or op == "catch" else -1, Boom("callback"))
    out = Rec(c)
    settle = c.bool("settle")
    await o.build(srcs, fuse).subscribe_async(out)
    if settle:
        await c.settle()
    for j in range(k):
        await event(c, srcs, j)
        if settle:
            await c.settle()
            if out.terminal is not None:
                break
    await c.drain()
    if out.terminal is not None:
        released(c, [s for s in srcs if not s.ended], f"{op} ended with {out.terminal}")


@harness("C04", quick=[dict(first=o, k=3) for o in NAMES], thorough=[dict(first=o, k=4) for o in NAMES],
         bounds="every pair of operators; every sequence of k events from the sources", cost=4)
async def detach_pair(c, first, k):
    t = table()
    a, b = t[first], t[NAMES[c.choice("second", len(NAMES))]]
    srcs = [Source(c, f"s{i}") for i in range(a.n)]
    other = Source(c, "other")
    out = Rec(c)
    await b.build([a.build(srcs, lambda x, *r: x), other], lambda x, *r: x).subscribe_async(out)
    every = srcs + ([other] if b.n > 1 else [])
    await c.settle()
    for j in range(k if len(every) < 3 else k - 1):
        await event(c, every, j)
        await c.settle()
        if out.terminal is not None:
            break
    await c.drain()
    if out.terminal is not None:
        released(c, [s for s in every if not s.ended], f"{first} then {b.name} ended with {out.terminal}")


@harness("C04", quick=[dict(op=o) for o in NAMES], thorough=[dict(op=o, k=4) for o in NAMES],
         bounds="every operator; the observer raises at a symbolic event, and the pipeline ends with an error if it queues", cost=1)
async def detach_observer_raises(c, op, k=3):
    o = table()[op]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    at = c.int("raises", 0, k)
    out = Rec(c)

    async def on(kind, v):
        if at == len(out.events) - 1 and kind == "next":
            raise Boom("observer")

    out.on_any = on
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    for j in range(k):
        await event(c, srcs, j)
        await c.settle()
        if out.terminal is not None:
            break
    await c.drain()
    if out.terminal is not None:
        released(c, [s for s in srcs if not s.ended], f"{op} ended with {out.terminal}")


@harness("C04", quick=[dict(op=o) for o in ALL], bounds="every operator over sources that send 0..3 values (and possibly end) while they are being subscribed, which takes 0..2 loop turns more; the callback raises at a symbolic call", cost=1)
async def detach_sync(c, op):
    o = table()[op]
    srcs = []
    turns = c.choice("turns", 3)
    for i in range(o.n):
        s = Source(c, f"s{i}")
        n, end = c.choice("n", 4), (None, "done", "error")[c.choice("end", 3)]

        async def on(obv, n=n, end=end, s=s):
            for j in range(n):
                await quietly(obv.asend(j))
            if end:
                s.ended = True
                await quietly(give(obv, end, Boom()))
            await c.ticks(turns)

        s.on_subscribe = on
        srcs.append(s)
    fuse = Fuse(c.int("raises", 0, 3) if o.cb or op == "catch" else -1, Boom("callback"))
    out = Rec(c)
    await quietly(o.build(srcs, fuse).subscribe_async(out))
    await c.drain()
    if out.terminal is not None:
        released(c, [s for s in srcs if not s.ended], f"{op} ended with {out.terminal}")


@harness("C04", quick=[dict(op=o, n=12) for o in ("take", "zip_seq", "merge_map", "take_until", "slice_stop")],
         thorough=[dict(op=o, n=40) for o in ("take", "zip_seq", "merge_map", "take_until", "slice_stop")],
         bounds="the output terminates after a symbolic number 1..n of values", max_steps=30000, cost=1)
async def detach_deep(c, op, n):
    s, other = Source(c, "s0"), Source(c, "s1")
    m = c.int("count", 1, n)
    out = Rec(c)
    inner = []
    if op == "take":
        xs = rx.take(m)(s)
    elif op == "slice_stop":
        xs = _filtering.slice(0, m, 1)(s)
    elif op == "zip_seq":
        k = m.__index__()
        xs = _combine.zip_seq(list(range(k)))(s)
    elif op == "take_until":
        xs = rx.take_until(other)(s)
    else:
        def mk(x):
            inner.append(Source(c, f"inner{x}"))
            return inner[-1]
        xs = pipe(s, rx.map(mk), rx.merge_inner(0))
    await xs.subscribe_async(out)
    for i in range(n + 1):
        await s.asend(i)
        await c.settle()
        if op == "take_until" and m == i + 1:
            await other.asend(0)
        if op == "merge_map" and m == i + 1:
            await inner[i // 2].athrow(Boom())
        await c.settle()
        if out.terminal is not None:
            break
    c.check(out.terminal is not None, f"{op}: did not end")
    await c.drain()
    released(c, [x for x in [s, other] + inner if not x.ended], op)


# ---------------------------------------------------------------- C05
class Owned(AsyncObservable):
    """A cold source: every subscription belongs to the current owner and is fed separately."""

    def __init__(self, c, cur, name):
        self.c, self.cur, self.name = c, cur, name
        self.subs = []  # [observer, alive, owner]

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        entry = [obv, True, self.cur[0]]
        self.subs.append(entry)

        async def dispose():
            entry[1] = False

        return AsyncDisposable.create(dispose)

    async def give(self, owner, kind, v):
        for e in list(self.subs):
            if e[1] and e[2] == owner:
                await quietly(give(e[0], kind, v))

    def active(self, owner):
        return sum(1 for e in self.subs if e[1] and e[2] == owner)


def alike(c, what, a, b, times=False):
    c.check(a.kinds() == b.kinds(), lambda: f"{what}: {a.events!r} next to another subscription, {b.events!r} alone")
    c.check(c.eq(a.values, b.values), lambda: f"{what}: {a.values!r} next to another subscription, {b.values!r} alone")
    c.check(all(x is y for x, y in zip(a.errors, b.errors)), f"{what}: errors differ")
    if times:
        c.check(c.eq(a.times, b.times), lambda: f"{what}: times differ")


STATEFUL = (*(n for n in EXTRA if TABLE[n].n == 1), "take", "skip", "take_last", "skip_last", "distinct", "slice", "zip_seq", "delay", "debounce")


@harness("C05", quick=[dict(op=o, k=4 if o in STATEFUL else 3) for o in ALL], thorough=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in ALL],
         bounds="every operator; two subscriptions to the same observable, the second made at a symbolic point; every interleaving of k events (values, errors, closes of any source of either, disposal of either, a raising callback), each compared with a subscription that is alone", cost=4)
async def independent(c, op, k):
    await together(c, op, k)


MANY = [o for o in ALL if not TABLE[o].direct]


@harness("C05", quick=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in MANY], thorough=[dict(op=o, k=7 if TABLE[o].n == 1 else 6) for o in MANY],
         bounds="every operator that keeps state; two subscriptions to the same observable, the second made at a symbolic point; every interleaving of k values of any source of either and then an end of any source of either, each compared with a subscription that is alone", cost=3)
async def independent_long(c, op, k):
    await together(c, op, k, True)


async def together(c, op, k, values=False):
    o = table(delay=2, window=2)[op]
    cur = [None]
    fz = [False]
    bang = Boom("callback")

    def f(x, *r):
        if fz[0]:
            raise bang
        return x

    shared = [Owned(c, cur, f"s{i}") for i in range(o.n)]
    xs = o.build(shared, f)
    alone = {w: [Owned(c, cur, f"{w}{i}") for i in range(o.n)] for w in "AB"}
    solo = {w: o.build(alone[w], f) for w in "AB"}
    out = {w: Rec(c, w) for w in "AB"}
    ref = {w: Rec(c, w + "alone") for w in "AB"}
    subs = {}

    async def subscribe(w):
        cur[0] = w
        subs[w] = (await xs.subscribe_async(out[w]), await solo[w].subscribe_async(ref[w]))
        await c.settle()

    await subscribe("A")
    second = c.int("second", 0, 1)
    if second == 0:
        await subscribe("B")
    boom = Boom("same")
    for j in range(k):
        if second == 1 and j == 1:
            await subscribe("B")
        w = "AB"[c.choice("who", len(subs))] if len(subs) > 1 else "A"
        cur[0] = w
        acts = ["next", "done", "error", "dispose"] + (["raise"] if o.cb else [])
        if values:
            acts = ["next"] if j < k - 1 else ["done", "error"] if o.buffered else ["next", "done"]
        act = acts[c.choice("act", len(acts))] if len(acts) > 1 else acts[0]
        i = c.choice("src", o.n) if o.n > 1 and act not in ("dispose", "raise") else 0
        if act == "dispose":
            await subs[w][0].dispose_async()
            await subs[w][1].dispose_async()
        else:
            fz[0] = act == "raise"
            kind = "next" if act == "raise" else act
            v = boom if act == "error" else j
            await shared[i].give(w, kind, v)
            await c.settle()
            await alone[w][i].give(w, kind, v)
            await c.settle()
            fz[0] = False
        if o.timed:
            await c.sleep(1)
        else:
            await c.settle()
        for x in subs:
            alike(c, f"{op} {x}", out[x], ref[x], o.timed)
            c.check([s.active(x) for s in shared] == [s.active(x) for s in alone[x]], f"{op} {x}: sources are held differently")
    await c.drain()
    for x in subs:
        alike(c, f"{op} {x}", out[x], ref[x], o.timed)


OPVALS = {
    "map": lambda: rx.map(lambda x: x), "mapi": lambda: rx.mapi(lambda x, i: (x, i)), "filteri": lambda: rx.filteri(lambda x, i: i % 2 == 0),
    "mapi_async": lambda: rx.mapi_async(aio(lambda x, i: (x, i))),
    "scan": lambda: rx.scan(lambda a, x: (a, x), None), "reduce": lambda: rx.reduce(lambda a, x: (a, x), None),
    "take": lambda: rx.take(2), "skip": lambda: rx.skip(2), "take_last": lambda: rx.take_last(2), "skip_last": lambda: rx.skip_last(1),
    "slice": lambda: _filtering.slice(1, 3, 1), "slice_step": lambda: _filtering.slice(None, None, 2), "zip_seq": lambda: _combine.zip_seq([1, 2, 3]),
    "distinct": lambda: _filtering.distinct_until_changed, "delay": lambda: rx.delay(1), "debounce": lambda: rx.debounce(1),
    "flat_mapi": lambda: rx.flat_mapi(lambda x, i: rx.single((x, i))), "flat_map": lambda: rx.flat_map(lambda x: rx.from_iterable([x, x])),
    "concat_map": lambda: _transform.concat_map(lambda x: rx.from_iterable([x, x])),
    "switch": lambda: _transform.flat_map_latest(lambda x: rx.single(x)), "retry": lambda: rx.retry(1), "catch": lambda: rx.catch(lambda e: rx.single(9)),
}


@harness("C05", quick=[dict(op=o, k=4) for o in OPVALS], thorough=[dict(op=o, k=6) for o in OPVALS],
         bounds="one operator value applied to two sources; every interleaving of k events (value, close, error) of the two, each compared with a separate operator value", cost=2)
async def independent_values(c, op, k):
    timed = op in ("delay", "debounce")
    one = OPVALS[op]()
    srcs = [Probe(c, "a"), Probe(c, "b")]
    refs = [Probe(c, "ra"), Probe(c, "rb")]
    out = [Rec(c, f"o{i}") for i in (0, 1)]
    ref = [Rec(c, f"r{i}") for i in (0, 1)]
    for i in (0, 1):
        await one(srcs[i]).subscribe_async(out[i])
        await OPVALS[op]()(refs[i]).subscribe_async(ref[i])
    boom = Boom()
    for j in range(k):
        i = c.choice("who", 2)
        kind = ("next", "done", "error")[c.choice("kind", 3)]
        v = boom if kind == "error" else j // 2
        await give(srcs[i], kind, v)
        await give(refs[i], kind, v)
        await c.settle()
        if timed:
            await c.sleep(0.75)
        for x in (0, 1):
            alike(c, op, out[x], ref[x], timed)
    await c.drain()
    for x in (0, 1):
        alike(c, op, out[x], ref[x], timed)


@harness("C05", quick=[dict(op=o) for o in ("delay", "debounce")], thorough=[dict(op=o, n=2) for o in ("delay", "debounce")],
         bounds="two subscriptions to one delayed or debounced stream made at arbitrary real times; values at arbitrary real times; the first may be disposed at an arbitrary real time", cost=3)
async def independent_times(c, op, n=1):
    d = c.time("seconds", 0.5, 5)
    mk = rx.delay if op == "delay" else rx.debounce
    p, q = Probe(c, "shared"), Probe(c, "alone")
    xs, ys = mk(d)(p), mk(d)(q)
    a, b, r = Rec(c, "a"), Rec(c, "b"), Rec(c, "alone")
    sa = await xs.subscribe_async(a)
    sb = await xs.subscribe_async(b)
    await ys.subscribe_async(r)

    async def cut():
        await c.sleep(c.time("cut", 0, 9))
        await sa.dispose_async()

    asyncio.ensure_future(cut())
    for j in range(n + 1):
        await c.sleep(c.time("gap", 0, 5))
        await p.asend(j)
        await q.asend(j)
    await p.aclose()
    await q.aclose()
    await c.drain()
    alike(c, op, b, r, True)


class Steps:
    def __init__(self, c):
        self.c = c

    async def __aiter__(self):
        for i in range(3):
            yield i
            await self.c.sleep(1)


COLD = {
    "from_iterable": lambda c: rx.from_iterable([1, 2, 3]),
    "single": lambda c: rx.single(4), "empty": lambda c: rx.empty(),
    "interval": lambda c: rx.take(3)(rx.interval(1, 1)), "timer": lambda c: rx.timer(2), "defer": lambda c: rx.defer(lambda: rx.from_iterable([1, 2])),
    "fail": lambda c: _create.fail(Boom("x")),
    "async_iterable": lambda c: rx.from_async_iterable(Steps(c)),
    "concat": lambda c: rx.concat_seq([rx.from_iterable([1]), rx.from_iterable([2])]),
    "merge": lambda c: rx.merge_seq([rx.from_iterable([1]), rx.timer(1)]),
}


@harness("C05", quick=[dict(op=o) for o in COLD], bounds="two subscriptions to one creation function's observable, the second at an arbitrary real time, the first disposed after a symbolic number of turns or never; the second sees the whole stream", cost=1)
async def independent_cold(c, op):
    xs = COLD[op](c)
    a, b, r = Rec(c, "a"), Rec(c, "b"), Rec(c, "alone")
    await COLD[op](c).subscribe_async(r)
    sa = await xs.subscribe_async(a)
    gap = c.time("gap", 0, 5)
    early = c.bool("early")
    if early:
        await c.ticks(c.int("turns", 0, 6))
        await sa.dispose_async()
    await c.sleep(gap)
    t0 = c.now()
    await xs.subscribe_async(b)
    await c.drain()
    c.check(b.kinds() == r.kinds() and c.eq(b.values, r.values), lambda: f"{op}: second subscription got {b.events!r} instead of {r.events!r}")
    c.check(c.all([c.eq(x - t0, y) for x, y in zip(b.times, r.times)]), f"{op}: times of the second subscription")
    if not early:
        c.check(a.kinds() == r.kinds() and c.eq(a.values, r.values), f"{op}: first subscription")


@harness("C05", quick=[dict(op=o) for o in COLD], bounds="two overlapping subscriptions to one creation function's observable; one of them is disposed at an arbitrary real time or after a symbolic number of turns; the other one sees the whole stream", cost=1)
async def independent_overlap(c, op):
    xs = COLD[op](c)
    a, b, r = Rec(c, "a"), Rec(c, "b"), Rec(c, "alone")
    await COLD[op](c).subscribe_async(r)
    first = c.bool("first")
    subs = [await xs.subscribe_async(a)]
    await c.ticks(c.int("between", 0, 3))
    subs.append(await xs.subscribe_async(b))
    if c.bool("timed"):
        await c.sleep(c.time("cut", 0, 5))
    else:
        await c.ticks(c.int("turns", 0, 6))
    await subs[0 if first else 1].dispose_async()
    await c.drain()
    o = b if first else a
    c.check(o.kinds() == r.kinds() and c.eq(o.values, r.values), lambda: f"{op}: the subscription that was kept got {o.events!r} instead of {r.events!r}")
    c.check(c.all([c.eq(x, y) for x, y in zip(o.times, r.times)]), f"{op}: times of the subscription that was kept")
