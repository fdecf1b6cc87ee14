"""C26 creation functions, C27 awaitables and async iterables."""
from __future__ import annotations

from symx.registry import harness

from aioreactive import create as _create
from aioreactive.iterable.to_async_observable import to_async_observable

from .ops import *  # noqa: F401,F403

TERMS = {"done": "done", "error": "error", "open": None}

SEQ = {
    "from_iterable": lambda xs: rx.from_iterable(xs),
    "AsyncRx.from_iterable": lambda xs: rx.AsyncRx.from_iterable(xs),
    "of_seq": lambda xs: _create.of_seq(xs),
}


class It:
    """A re-iterable that yields its items and may then raise."""

    def __init__(self, items, err=None, at_iter=False):
        self.items, self.err, self.at_iter = items, err, at_iter
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        if self.at_iter:
            raise self.err
        return self._gen()

    def _gen(self):
        yield from self.items
        if self.err is not None:
            raise self.err


@harness("C26", quick=[dict(op=o, n=8) for o in SEQ], thorough=[dict(op=o, n=30) for o in SEQ],
         bounds="0..n items, arbitrary integers; list, tuple, generator, iterator, re-iterable object; fails at the end, at iter() or not at all, with any kind of exception; one or two subscriptions")
async def seq_all(c, op, n):
    k = c.choice("n", n + 1)
    form = c.choice("form", 6)
    vs = seq(c, k)
    er = error_kinds()
    err = None
    if form == 0:
        xs = list(vs)
    elif form == 1:
        xs = tuple(vs)
    elif form == 2:
        xs = (v for v in vs)
    elif form == 3:
        xs = It(vs)
    elif form == 4:
        err = er[c.choice("err", len(er))]
        xs = It(vs, err)
    else:
        err = er[c.choice("err", len(er))]
        xs = It(vs, err, at_iter=True)
        vs = []
    o = SEQ[op](xs)
    twice = form != 2 and c.bool("twice")
    outs = [Rec(c, "a")] + ([Rec(c, "b")] if twice else [])
    for r in outs:
        await o.subscribe_async(r)
        if c.bool("settle"):
            await c.settle()
    await c.settle()
    for r in outs:
        r.expect(vs, "error" if err is not None else "done", err, op)


@harness("C26", quick=[dict(op=o, n=60) for o in SEQ], thorough=[dict(op=o, n=400) for o in SEQ],
         bounds="0..n items (symbolic length), the iterable raises at the end or not; lazily infinite ones with take", max_steps=40000)
async def seq_deep(c, op, n):
    m = c.int("length", 0, n)
    fails = c.bool("fails")
    err = Boom()

    def gen():
        i = 0
        while i < m:
            yield i
            i += 1
        if fails:
            raise err

    out = Rec(c)
    await SEQ[op](gen()).subscribe_async(out)
    await c.settle()
    out.expect(list(range(m.__index__())), "error" if fails else "done", err, op)


@harness("C26", quick=[dict(op=o) for o in SEQ], bounds="every kind of iterable of the standard library (str, bytes, bytearray, dict, its views, set, frozenset, range, deque, map, enumerate, zip, reversed, a class with __getitem__ only, a file-like object, a named tuple, an enum), of 0..2 items; one or two subscriptions")
async def seq_containers(c, op):
    import collections
    import enum
    import io

    class Old:
        def __getitem__(self, i):
            if i >= n:
                raise IndexError(i)
            return i * 10

    class Colour(enum.Enum):
        RED = 1
        BLUE = 2

    n = c.choice("n", 3)
    again = c.bool("twice")
    d = {f"k{5 - i}": 5 - i for i in range(n)}
    forms = [
        (lambda: "ab"[:n], True), (lambda: b"ab"[:n], True), (lambda: bytearray(b"ab"[:n]), True), (lambda: d, True),
        (lambda: d.keys(), True), (lambda: d.values(), True), (lambda: d.items(), True), (lambda: set((8, 1)[:n]), True),
        (lambda: frozenset((8, 1)[:n]), True), (lambda: range(n), True), (lambda: range(5, 5 - n, -1), True), (lambda: collections.deque(range(n)), True),
        (lambda: map(str, range(n)), False), (lambda: enumerate("ab"[:n]), False), (lambda: zip("ab"[:n], "cd"), False), (lambda: reversed([1, 2][:n]), False),
        (lambda: iter([1, 2][:n]), False), (lambda: Old(), True), (lambda: io.StringIO("x\ny\n" if n else ""), False),
        (lambda: collections.namedtuple("P", "x y")(1, None), True), (lambda: Colour, True), (lambda: collections.Counter("ba"[:n]), True),
        (lambda: collections.OrderedDict(d), True), (lambda: memoryview(b"ab"[:n]), True), (lambda: [[], [1]][:n], True), (lambda: [None] * n, True),
    ]
    make, reusable = forms[c.choice("form", len(forms))]
    want = list(make())
    o = SEQ[op](make())
    for _ in range(2 if again and reusable else 1):
        out = Rec(c)
        await o.subscribe_async(out)
        await c.settle()
        c.check(out.values == want and all(type(x) is type(y) for x, y in zip(out.values, want)), lambda: f"{op}: {out.values!r} for an iterable of {want!r}")
        c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


@harness("C26", quick=[dict(op=o) for o in (*SEQ, "single", "AsyncRx.single")],
         bounds="items such as None, 0, False, '', exceptions, Some, notifications, by identity")
async def create_special(c, op):
    sp = special_values()
    a = sp[c.choice("a", len(sp))]
    out = Rec(c)
    if "single" in op:
        o = rx.single(a) if op == "single" else rx.AsyncRx.single(a)
        exp = [a]
    else:
        b = sp[c.choice("b", len(sp))]
        o, exp = SEQ[op]([a, b, a]), [a, b, a]
    n = 1 + c.choice("again", 2)
    for _ in range(n):
        out = Rec(c)
        await o.subscribe_async(out)
        await c.settle()
        c.check(len(out.values) == len(exp) and all(x is y for x, y in zip(out.values, exp)), lambda: f"{op}: {out.values!r}")
        c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


@harness("C26", quick=[{}], bounds="arbitrary value, one or two subscriptions; empty, never, fail with every kind of exception")
async def create_basic(c):
    v = c.value("v")
    er = error_kinds()
    e = er[c.choice("err", len(er))]
    for o, exp, term in ((rx.single(v), [v], "done"), (rx.AsyncRx.single(v), [v], "done"), (rx.empty(), [], "done"),
                         (rx.AsyncRx.empty(), [], "done"), (rx.never(), [], None), (_create.fail(e), [], "error")):
        for _ in range(2):
            out = Rec(c)
            await o.subscribe_async(out)
            await c.settle()
            out.expect(exp, term, e if term == "error" else None, "creation function")


@harness("C26", quick=[dict(n=3)], thorough=[dict(n=6)],
         bounds="the factory returns a source of 0..n-1 arbitrary values with any ending, or raises any kind of exception; subscribed 0..3 times")
async def defer_all(c, n):
    er = error_kinds()
    calls = []
    plans = []
    times = c.choice("times", 3)
    for _ in range(times + 1):
        k = c.choice("n", n)
        end = ("done", "error", "open", "raise")[c.choice("end", 4)]
        plans.append((seq(c, k), end, er[c.choice("err", len(er)) if not plans and end in ("error", "raise") else 0]))

    def factory():
        vs, end, e = plans[len(calls)]
        calls.append(1)
        if end == "raise":
            raise e
        return Feed(c, [("next", v) for v in vs] + ([] if end == "open" else [(end, e)]), sync=len(vs) % 2 == 0)

    o = rx.defer(factory)
    await c.settle()
    c.check(not calls, "defer: factory called before subscribing")
    for i, (vs, end, e) in enumerate(plans):
        out = Rec(c)
        await c.calm("defer: subscribe_async", o.subscribe_async(out))
        await c.settle()
        c.check(len(calls) == i + 1, "defer: factory not called exactly once per subscription")
        out.expect([] if end == "raise" else vs, "error" if end == "raise" else TERMS[end], e, "defer")


@harness("C26", quick=[dict(n=4)], thorough=[dict(n=8)], bounds="a subscribe function that emits 0..n-1 arbitrary values and ends in any way; its disposable is disposed once or twice")
async def create_fn(c, n):
    k = c.choice("n", n)
    end = ("done", "error", "open")[c.choice("end", 3)]
    vs, e = seq(c, k), Boom()
    disposed, seen = [], []

    async def subscribe(obv):
        seen.append(obv)
        for v in vs:
            await obv.asend(v)
        if end != "open":
            await give(obv, end, e)

        async def dispose():
            disposed.append(1)

        return AsyncDisposable.create(dispose)

    for mk in (_create.create, rx.AsyncAnonymousObservable):
        seen.clear()
        disposed.clear()
        out = Rec(c)
        sub = await mk(subscribe).subscribe_async(out)
        await c.settle()
        out.expect(vs, TERMS[end], e, "create")
        c.check(len(seen) == 1, "create: function not called exactly once")
        c.check(not disposed, "create: disposed by itself")
        await sub.dispose_async()
        c.check(len(disposed) == 1, "create: the returned disposable was not disposed")


@harness("C26", quick=[{}], bounds="subscribing with send, throw and close functions, any of which may be missing; arbitrary values and ending")
async def subscribe_functions(c):
    k = c.choice("n", 3)
    end = ("done", "error")[c.choice("end", 2)]
    use = [c.bool("use") for _ in range(3)]
    vs, e = seq(c, k), Boom()
    got = []

    async def s(v):
        got.append(("next", v))

    async def t(x):
        got.append(("error", x))

    async def cl():
        got.append(("done", None))

    o = rx.from_iterable(It(vs, e if end == "error" else None))
    for src in (o, rx.AsyncRx(o), rx.AsyncIterableObservable(o)):
        got.clear()
        await src.subscribe_async(*(f if u else None for f, u in zip((s, t, cl), use)))
        await c.settle()
        exp = ([("next", v) for v in vs] if use[0] else []) + ([("done", None)] if end == "done" and use[2] else []) \
            + ([("error", e)] if end == "error" and use[1] else [])
        c.check(len(got) == len(exp) and c.all([k1 == k2 and (v1 is v2 if k1 == "error" else c.eq(v1, v2)) for (k1, v1), (k2, v2) in zip(got, exp)]), lambda: f"subscribe with functions: {got!r} instead of {exp!r}")


# ---------------------------------------------------------------- C27
ASYNC = {"from_async": lambda w: rx.from_async(w), "of_async": lambda w: rx.of_async(w), "create.of_async": lambda w: _create.of_async(w)}
AITER = {
    "from_async_iterable": lambda x: rx.from_async_iterable(x),
    "AsyncRx.from_async_iterable": lambda x: rx.AsyncRx.from_async_iterable(x),
    "to_async_observable": lambda x: to_async_observable(x),
    "of_async_iterable": lambda x: _create.of_async_iterable(x),
}


@harness("C27", quick=[dict(op=o) for o in ASYNC],
         bounds="a coroutine, task or future; result arbitrary or any kind of exception; 0..3 loop turns and an arbitrary real time until it is finished")
async def async_outcome(c, op):
    er = error_kinds()
    form = ("coroutine", "task", "future")[c.choice("form", 3)]
    fails = c.bool("fails")
    e = er[c.choice("err", len(er))] if fails else None
    v = c.value("v")
    turns = c.choice("turns", 3)
    t = c.time("time")
    waits = c.bool("waits")

    async def work():
        await c.ticks(turns)
        if waits:
            await c.sleep(t)
        if fails:
            raise e
        return v

    w = work()
    if form == "task":
        w = asyncio.ensure_future(w)
    elif form == "future":
        f = asyncio.get_running_loop().create_future()

        async def fill():
            try:
                f.set_result(await work())
            except Exception as ex:
                f.set_exception(ex)

        asyncio.ensure_future(fill())
        w = f
    out = Rec(c)
    await ASYNC[op](w).subscribe_async(out)
    await c.drain()
    out.expect([] if fails else [v], "error" if fails else "done", e, op)
    if waits:
        c.check(c.all([c.eq(x, t) for x in out.times]), f"{op}: times")


@harness("C27", quick=[dict(op=o) for o in ASYNC], bounds="results such as None, 0, False, '', exceptions, by identity")
async def async_special(c, op):
    sp = special_values()
    v = sp[c.choice("v", len(sp))]

    async def work():
        return v

    out = Rec(c)
    await ASYNC[op](work()).subscribe_async(out)
    await c.settle()
    c.check(len(out.values) == 1 and out.values[0] is v and out.terminal == "done" and out.bad == 0, lambda: f"{op}: {out.events!r}")


@harness("C27", quick=[dict(op=o, t=6) for o in ASYNC], thorough=[dict(op=o, t=15) for o in ASYNC],
         bounds="disposed after 0..t loop turns, the awaitable takes 0..3 loop turns or a time, and returns or raises")
async def async_dispose(c, op, t):
    turns = c.choice("turns", 4)
    waits, fails = c.bool("waits"), c.bool("fails")

    async def work():
        await c.ticks(turns)
        if waits:
            await c.sleep(1)
        if fails:
            raise Boom()
        return 1

    out = Rec(c)
    sub = await ASYNC[op](work()).subscribe_async(out)
    await c.ticks(c.choice("dispose", t + 1))
    await sub.dispose_async()
    n = len(out.events)
    await c.drain()
    c.check(len(out.events) == n, f"{op}: event after dispose")
    full = [("error",)] if fails else [("next",), ("done",)]
    c.check([(k,) for k in out.kinds()] == full[:n], lambda: f"{op}: events {out.events!r}")


class Aiter:
    """A re-iterable async iterable with a duration per step that may raise at the end."""

    def __init__(self, c, items, err, steps, waits):
        self.c, self.items, self.err, self.steps, self.waits = c, items, err, steps, waits
        self.pulled = 0

    def __aiter__(self):
        return self._gen()

    async def _pause(self, i):
        kind, x = self.steps[i]
        if kind == "turns":
            await self.c.ticks(x)
        else:
            await self.c.sleep(x)

    async def _gen(self):
        for i, v in enumerate(self.items):
            await self._pause(i)
            self.pulled += 1
            yield v
        await self._pause(len(self.items))
        if self.err is not None:
            raise self.err


def _durations(c, n, timed):
    if timed:
        return [("time", c.time("step")) for _ in range(n)]
    return [("turns", c.choice("turns", 2)) for _ in range(n)]


@harness("C27", quick=[dict(op=o, n=3, timed=t) for o in AITER for t in (True, False)], thorough=[dict(op=o, n=6, timed=t) for o in AITER for t in (True, False)],
         bounds="0..n items (arbitrary), each step taking 0..1 loop turns or an arbitrary real time, failing at the end with any kind of exception or not; observers that take 0..1 loop turns; one or two subscriptions", cost=3)
async def aiter_all(c, op, n, timed):
    er = error_kinds()
    k = c.choice("n", n + 1)
    fails = c.bool("fails")
    e = er[c.choice("err", 3)] if fails else None
    vs = seq(c, k)
    steps = _durations(c, k + 1, timed)
    slow = c.bool("slow")
    it = Aiter(c, vs, e, steps, timed)
    o = AITER[op](it)
    outs = [Rec(c, "a")] + ([Rec(c, "b")] if c.bool("twice") else [])

    async def pause(*_):
        await c.ticks(1)

    for r in outs:
        if slow:
            r.on_any = pause
        await o.subscribe_async(r)
    await c.drain()
    for r in outs:
        r.expect(vs, "error" if fails else "done", e, op)
        r.serial(op)
        if timed:
            t = 0
            for i, x in enumerate(r.times):
                t = t + steps[i][1]
                c.check(c.eq(x, t), f"{op}: time of event {i}")


@harness("C27", quick=[dict(op=o, n=2, t=8) for o in AITER], thorough=[dict(op=o, n=4, t=20) for o in AITER],
         bounds="disposed after 0..t loop turns; 0..n items, each step taking 0..1 loop turns; failing or not")
async def aiter_dispose(c, op, n, t):
    k = c.choice("n", n + 1)
    fails = c.bool("fails")
    e = Boom() if fails else None
    vs = [("x", i) for i in range(k)]
    it = Aiter(c, vs, e, _durations(c, k + 1, False), False)
    out = Rec(c)
    sub = await AITER[op](it).subscribe_async(out)
    await c.ticks(c.choice("dispose", t + 1))
    await sub.dispose_async()
    m, pulled = len(out.events), it.pulled
    await c.drain()
    c.check(len(out.events) == m, f"{op}: event after dispose")
    full = [("next", v) for v in vs] + [("error", e) if fails else ("done", None)]
    c.check(out.events == full[:m], lambda: f"{op}: {out.events!r}")
    if m < len(full):
        c.check(it.pulled <= pulled, f"{op}: still pulling after dispose")


@harness("C27", quick=[dict(op=o, n=3) for o in AITER], thorough=[dict(op=o, n=5) for o in AITER],
         bounds="disposed at an arbitrary real time, each of n steps taking an arbitrary real time (no ties)", cost=2)
async def aiter_dispose_time(c, op, n):
    stop = c.time("stop")
    steps = _durations(c, n + 1, True)
    total = 0
    for _, s in steps:
        total = total + s
        c.assume(total != stop)
    it = Aiter(c, list(range(n)), None, steps, True)
    out = Rec(c)
    sub = await AITER[op](it).subscribe_async(out)
    await c.sleep(stop)
    await sub.dispose_async()
    m = len(out.events)
    await c.drain()
    c.check(len(out.events) == m, f"{op}: event after dispose")
    total = 0
    for i, (_, s) in enumerate(steps):
        total = total + s
        c.check((total < stop) if i < m else (total > stop), f"{op}: wrong number of events at disposal")


@harness("C27", quick=[dict(op=o) for o in AITER], bounds="items such as None, 0, False, '', exceptions, by identity; __aiter__ or __anext__ raising")
async def aiter_special(c, op):
    sp = special_values()
    a, b = sp[c.choice("a", len(sp))], sp[c.choice("b", len(sp))]
    out = Rec(c)
    await AITER[op](Aiter(c, [a, b], None, [("turns", 0)] * 3, False)).subscribe_async(out)
    await c.settle()
    c.check(len(out.values) == 2 and out.values[0] is a and out.values[1] is b and out.terminal == "done" and out.bad == 0, lambda: f"{op}: {out.events!r}")


@harness("C27", quick=[dict(op=o) for o in AITER], bounds="an async iterable whose __aiter__ raises, with every kind of exception")
async def aiter_bad(c, op):
    er = error_kinds()
    e = er[c.choice("err", len(er))]

    class Bad:
        def __aiter__(self):
            raise e

    out = Rec(c)
    await c.calm(f"{op}: subscribe_async", AITER[op](Bad()).subscribe_async(out))
    await c.settle()
    out.expect([], "error", e, op)


@harness("C27", quick=[dict(op=o, n=3) for o in AITER], thorough=[dict(op=o, n=6) for o in AITER],
         bounds="n items, each step taking 0..1 loop turns, failing or not; the observer disposes the subscription while it handles a symbolic event (or has another task do it), and may raise after that")
async def aiter_dispose_inside(c, op, n):
    fails = c.bool("fails")
    e = Boom() if fails else None
    at = c.choice("at", n)
    how, raises = c.choice("how", 2), c.bool("raises")
    it = Aiter(c, list(range(n)), e, _durations(c, n + 1, False), False)
    out = Rec(c)
    sub = []

    async def on(v):
        if v == at:
            if how:
                asyncio.ensure_future(sub[0].dispose_async())
                await c.ticks(1)
            else:
                await sub[0].dispose_async()
            if raises:
                raise Boom("observer")

    out.on_next = on
    sub.append(await AITER[op](it).subscribe_async(out))
    await c.drain()
    out.expect(list(range(at + 1)), None, what=f"{op} disposed while its observer handles an item")


@harness("C27", quick=[dict(op=o, n=2, t=6) for o in AITER], thorough=[dict(op=o, n=4, t=12) for o in AITER],
         bounds="two subscriptions to one re-iterable, 0..2 turns apart; the first is disposed after 0..t loop turns; each step taking 0..1 turns; the second is not affected", cost=2)
async def aiter_two(c, op, n, t):
    o = AITER[op](Aiter(c, list(range(n)), None, _durations(c, n + 1, False), False))
    a, b = Rec(c, "a"), Rec(c, "b")
    sa = await o.subscribe_async(a)
    await c.ticks(c.choice("apart", 3))
    await o.subscribe_async(b)
    await c.ticks(c.choice("turns", t + 1))
    await sa.dispose_async()
    m = len(a.events)
    await c.drain()
    b.expect(list(range(n)), "done", what=f"{op}, another subscription was disposed")
    c.check(len(a.events) == m, f"{op}: event after dispose")
