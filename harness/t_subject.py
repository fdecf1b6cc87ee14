"""C28 multi-observer subject, C29 single-observer subject, C30 async iteration, C31 run."""
from __future__ import annotations

from symx.registry import harness

from aioreactive.testing import AsyncTestSingleSubject, AsyncTestSubject
from expression.system import ObjectDisposedException

from .ops import *  # noqa: F401,F403

MULTI = {"AsyncSubject": lambda: rx.AsyncSubject(), "AsyncTestSubject": lambda: AsyncTestSubject()}
SINGLES = {"AsyncSingleSubject": lambda: rx.AsyncSingleSubject(), "AsyncTestSingleSubject": lambda: AsyncTestSingleSubject()}


async def raises(c, what, coro):
    """The awaitable must raise ObjectDisposedException."""
    try:
        await coro
    except ObjectDisposedException:
        return
    except Exception as ex:
        c.fail(f"{what} raised {type(ex).__name__} after dispose")
        return
    c.fail(f"{what} did not raise after dispose")


class Shared(Rec):
    """Records into its own list and into a common one."""

    def __init__(self, c, name, log):
        super().__init__(c, name)
        self.all = log

    async def _event(self, kind, v):
        self.all.append((self.name, kind, v))
        await super()._event(kind, v)


@harness("C28", quick=[dict(sub=s, k=6, cap=2) for s in MULTI] + [dict(sub="AsyncSubject", k=5, cap=3)],
         thorough=[dict(sub=s, k=8, cap=2) for s in MULTI] + [dict(sub="AsyncSubject", k=7, cap=3)],
         bounds="every history of k operations (subscribe, dispose an observer, send an arbitrary value, error, close, dispose the subject), up to cap observers", cost=4)
async def multi_history(c, sub, k, cap):
    s = MULTI[sub]()
    log, want = [], []
    subs = []  # [name, observer, disposable, alive]
    stopped = disposed = False
    for j in range(k):
        opts = ["send", "error", "close", "subject"]
        if len(subs) < cap:
            opts.append("subscribe")
        opts += [("dispose", i) for i in range(len(subs)) if subs[i][3]]
        o = opts[c.choice("op", len(opts))]
        if o in ("send", "error", "close"):
            kind = {"send": "next", "error": "error", "close": "done"}[o]
            v = c.value("v") if o == "send" else Boom(str(j)) if o == "error" else None
            if disposed:
                await raises(c, o, give(s, kind, v))
            else:
                await c.calm(o, give(s, kind, v))
                if not stopped:
                    want += [(x[0], kind, v) for x in subs if x[3]]
                    stopped = kind != "next"
        elif o == "subject":
            await c.calm("dispose", s.dispose_async())
            disposed = True
        elif o == "subscribe":
            r = Shared(c, f"o{len(subs)}", log)
            if disposed:
                await raises(c, "subscribe", s.subscribe_async(r))
                break
            d = await c.calm("subscribe", s.subscribe_async(r))
            subs.append([r.name, r, d, True])
        else:
            x = subs[o[1]]
            await c.calm("dispose of a subscription", x[2].dispose_async())
            x[3] = False
        await c.settle()
        c.check(len(log) == len(want) and c.all([a[0] == b[0] and a[1] == b[1] and (a[2] is b[2] or (a[1] == "next" and c.eq(a[2], b[2]))) for a, b in zip(log, want)]),
                lambda: f"subject: {log!r} instead of {want!r}")


@harness("C28", quick=[dict(sub=s, n=4) for s in MULTI], thorough=[dict(sub=s, n=8) for s in MULTI],
         bounds="n observers; a symbolic one disposes itself (or subscribes another) while handling an event; symbolic event kind; observers take 0..2 loop turns")
async def multi_reentrant(c, sub, n):
    s = MULTI[sub]()
    who = c.int("who", 0, n - 1)
    act = c.choice("act", 3)
    kind = ("next", "error", "done")[c.choice("kind", 3)]
    turns = c.choice("turns", 3)
    log, subs = [], []
    extra = Shared(c, "extra", [])

    def mk(i):
        r = Shared(c, f"o{i}", log)

        async def on(k, v):
            await c.ticks(turns)
            if who == i and len(r.events) == 1:
                if act == 0:
                    await subs[i].dispose_async()
                elif act == 1:
                    await s.subscribe_async(extra)

        r.on_any = on
        return r

    rs = [mk(i) for i in range(n)]
    for r in rs:
        subs.append(await s.subscribe_async(r))
    err = Boom()
    await give(s, "next", 1)
    w = who.__index__()
    names = [f"o{i}" for i in range(n)]
    c.check([a for a, _, _ in log] == names, lambda: f"subject: delivered to {log!r}")
    n0 = len(extra.events)
    log.clear()
    await give(s, kind, err if kind == "error" else 2)
    c.check([a for a, _, _ in log] == [x for i, x in enumerate(names) if not (act == 0 and i == w)], lambda: f"subject: then delivered to {log!r}")
    if act == 1:
        c.check(len(extra.events) - n0 == 1, "subject: observer subscribed during an event misses the next one")


@harness("C28", quick=[dict(sub=s, n=4) for s in MULTI], thorough=[dict(sub=s, n=7) for s in MULTI],
         bounds="n observers that take 0..2 loop turns; while a symbolic one handles an event, it or another task disposes any other one; symbolic event kind")
async def multi_dispose_other(c, sub, n):
    s = MULTI[sub]()
    who, whom = c.choice("who", n), c.choice("whom", n)
    c.assume(who != whom)
    kind = ("next", "error", "done")[c.choice("kind", 3)]
    before, after = c.choice("before", 3), c.choice("after", 3)
    outside = c.bool("outside")
    log, subs = [], []

    def mk(i):
        r = Shared(c, i, log)

        async def on(k, v):
            if i == who:
                await c.ticks(before)
                if outside:
                    await asyncio.ensure_future(subs[whom].dispose_async())
                else:
                    await subs[whom].dispose_async()
                await c.ticks(after)

        r.on_any = on
        return r

    for i in range(n):
        subs.append(await s.subscribe_async(mk(i)))
    await give(s, kind, Boom())
    want = [i for i in range(n) if i != whom or whom < who]
    c.check([x[0] for x in log] == want, lambda: f"subject: delivered to {log!r}, expected {want!r}")
    log.clear()
    await give(s, kind, Boom())
    want = [i for i in range(n) if i != whom] if kind == "next" else []
    c.check([x[0] for x in log] == want, lambda: f"subject: then delivered to {log!r}, expected {want!r}")


@harness("C28", quick=[dict(sub=s) for s in MULTI], bounds="values such as None, 0, False, '', exceptions, by identity; every kind of exception; equal observers; no observer")
async def multi_special(c, sub):
    sp, er = special_values(), error_kinds()
    i = c.choice("v", len(sp))
    v, e = sp[i], er[c.choice("e", len(er))]
    s = MULTI[sub]()
    await c.calm("send without observers", s.asend(v))
    a = Rec(c, "a")
    da = await s.subscribe_async(a)
    await s.asend(v)
    b = Rec(c, "b")
    await s.subscribe_async(b)
    await s.asend(v)
    await da.dispose_async()
    await da.dispose_async()
    await s.asend(v)
    await s.athrow(e)
    await s.asend(v)
    await s.aclose()
    c.check(len(a.values) == 2 and all(x is v for x in a.values) and a.terminal is None, lambda: f"subject: a got {a.events!r}")
    c.check(len(b.values) == 2 and all(x is v for x in b.values) and b.terminal == "error" and b.errors[0] is e and b.bad == 0, lambda: f"subject: b got {b.events!r}")


@harness("C28", quick=[dict(sub=s, k=5) for s in MULTI], thorough=[dict(sub=s, k=7) for s in MULTI],
         bounds="every history of k operations where one and the same observer is subscribed up to three times next to another one: each live subscription delivers each event once", cost=2)
async def multi_same(c, sub, k):
    s = MULTI[sub]()
    a, b = Rec(c, "a"), Rec(c, "b")
    await s.subscribe_async(b)
    subs = []  # [disposable, alive]
    n = sent = 0
    for j in range(k):
        opts = ["send"] + (["subscribe"] if len(subs) < 3 else []) + [("dispose", i) for i in range(len(subs))]
        o = opts[c.choice("op", len(opts))]
        if o == "send":
            await c.calm("send", s.asend(j))
            sent += 1
            n += sum(1 for x in subs if x[1])
        elif o == "subscribe":
            subs.append([await s.subscribe_async(a), True])
        else:
            await c.calm("dispose", subs[o[1]][0].dispose_async())
            subs[o[1]][1] = False
        c.check(len(a.events) == n, lambda: f"subject: an observer with {sum(1 for x in subs if x[1])} live subscriptions got {a.events!r}, expected {n} values")
        c.check(len(b.events) == sent, lambda: f"subject: another observer got {b.events!r}")


@harness("C01", quick=[dict(sub=s, n=3) for s in MULTI], thorough=[dict(sub=s, n=6) for s in MULTI],
         bounds="n observers of one subject; while a symbolic one handles a value or a terminal event (0..2 loop turns), it or another task sends a further value, error or completion; each observer sees the grammar", cost=1)
@harness("C28", quick=[dict(sub=s, n=3) for s in MULTI], thorough=[dict(sub=s, n=6) for s in MULTI],
         bounds="n observers of one subject; while a symbolic one handles a value or a terminal event (0..2 loop turns), it or another task sends a further value, error or completion; everything after the first terminal event is ignored by each of them", cost=1)
async def multi_meanwhile(c, sub, n):
    s = MULTI[sub]()
    who, turns = c.choice("who", n), c.choice("turns", 3)
    first = ("next", "error", "done")[c.choice("first", 3)]
    then = ("next", "error", "done")[c.choice("then", 3)]
    nested = c.bool("nested")
    e1, e2 = Boom("first"), Boom("second")
    fired = []

    def mk(i):
        r = Rec(c, f"o{i}")

        async def on(kind, v):
            if i == who and not fired:
                fired.append(1)
                if nested:
                    await give(s, then, e2 if then == "error" else 2)
                else:
                    asyncio.ensure_future(give(s, then, e2 if then == "error" else 2))
                await c.ticks(turns)

        r.on_any = on
        return r

    rs = [mk(i) for i in range(n)]
    for r in rs:
        await s.subscribe_async(r)
    await give(s, first, e1 if first == "error" else 1)
    await c.settle()
    end = first if first != "next" else then
    for i, r in enumerate(rs):
        r.grammar(f"subject, observer {i} of {n}, {first} and meanwhile {then}")
        if end == "next":
            c.check(sorted(r.values) == [1, 2], lambda: f"subject: observer {i} got {r.events!r}")
        else:
            c.check(r.terminal == end and (first == "next" or len(r.events) == 1), lambda: f"subject: observer {i} got {r.events!r}, {first} was sent and meanwhile {then}")
            c.check(end != "error" or r.errors == [e1 if first == "error" else e2], f"subject: error of observer {i}")
    await c.calm("send", s.asend(3))
    c.check(all(3 not in r.values for r in rs) == (end != "next"), "subject: value sent afterwards")


class Equal(Rec):
    """Observers that compare equal, as dataclass observers without fields do."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 1


@harness("C28", quick=[dict(sub=s, k=4) for s in MULTI], thorough=[dict(sub=s, k=6) for s in MULTI],
         bounds="every history of k sends and disposals with three observers that compare equal to each other; a symbolic one may dispose another while it handles a value", cost=2)
async def multi_equal(c, sub, k):
    s = MULTI[sub]()
    subs, exp, alive = [], [[], [], []], [True] * 3
    who, victim = c.choice("who", 4), c.choice("victim", 3)

    def handler(i):
        if i != who:
            return None

        async def on_next(v):
            await subs[victim].dispose_async()

        return on_next

    obs = [Equal(c, f"o{i}", on_next=handler(i)) for i in range(3)]
    for o in obs:
        subs.append(await s.subscribe_async(o))
    for j in range(k):
        op = c.choice("op", 4)
        if op == 3:
            for i in range(3):
                if alive[i]:
                    exp[i].append(("next", j))
                    if i == who:
                        alive[victim] = False
            await c.calm("send", s.asend(j))
        else:
            await c.calm("dispose", subs[op].dispose_async())
            alive[op] = False
        for i in range(3):
            c.check(obs[i].events == exp[i], lambda: f"subject: of three observers that compare equal, number {i} got {obs[i].events!r} instead of {exp[i]!r}")


@harness("C28", quick=[dict(sub=s, n=20) for s in MULTI], thorough=[dict(sub=s, n=80) for s in MULTI],
         bounds="n observers, a symbolic one is disposed before a symbolic one of the sends", max_steps=30000)
async def multi_many(c, sub, n):
    s = MULTI[sub]()
    gone = c.int("gone", 0, n - 1)
    log = []
    subs = []
    for i in range(n):
        subs.append(await s.subscribe_async(Shared(c, i, log)))
    await s.asend("a")
    for i in range(n):
        if gone == i:
            await subs[i].dispose_async()
    await s.asend("b")
    await s.aclose()
    g = gone.__index__()
    rest = [i for i in range(n) if i != g]
    c.check([x[0] for x in log] == list(range(n)) + rest + rest, "subject: wrong observers")


# ---------------------------------------------------------------- C29
@harness("C29", quick=[dict(sub=s, k=6) for s in SINGLES], thorough=[dict(sub=s, k=8) for s in SINGLES],
         bounds="every sequence of k steps: a concurrent producer starts a send of an arbitrary value, an error or a close; one loop turn; subscribe; dispose", cost=4)
async def single_history(c, sub, k):
    s = SINGLES[sub]()
    out = Rec(c)
    prods = []  # (kind, value, task)
    subscribed = disposed = False
    at_dispose = None
    for j in range(k):
        opts = ["send", "error", "close", "turn"]
        if not disposed:
            opts.append("dispose")
            if not subscribed:
                opts.append("subscribe")
        o = opts[c.choice("op", len(opts))]
        if o in ("send", "error", "close"):
            kind = {"send": "next", "error": "error", "close": "done"}[o]
            v = c.value("v") if o == "send" else Boom(str(j))
            if disposed:
                await raises(c, o, give(s, kind, v))
            else:
                prods.append((kind, v, asyncio.ensure_future(give(s, kind, v))))
        elif o == "turn":
            await c.ticks(1)
        elif o == "subscribe":
            subscribed = True
            await c.calm("subscribe", s.subscribe_async(out))
        else:
            await c.calm("dispose", s.dispose_async())
            disposed = True
            at_dispose = len(out.events)
    await c.settle()
    full = []
    for kind, v, _ in prods:
        full.append((kind, v))
        if kind != "next":
            break
    got = out.events
    out.grammar("single subject")
    c.check(len(got) <= len(full) and c.all([a[0] == b[0] and (a[0] == "done" or a[1] is b[1] or (a[0] == "next" and c.eq(a[1], b[1]))) for a, b in zip(got, full)]),
            lambda: f"single subject: {got!r} instead of {full!r}")
    for kind, v, t in prods:
        if subscribed and not disposed:
            c.check(t.done() and t.exception() is None, "single subject: a producer is stuck or failed")
        elif disposed:
            c.check(t.done(), "single subject: a producer is still waiting after dispose")
        else:
            c.check(not t.done(), "single subject: a producer did not wait for an observer")
    if subscribed and not disposed:
        c.check(len(got) == len(full), lambda: f"single subject: {got!r} instead of {full!r}")
    if not subscribed:
        c.check(not got, "single subject: event without observer")
        if disposed:
            for _, _, t in prods:
                c.check(t.done() and isinstance(t.exception(), ObjectDisposedException), "single subject: waiting producer not released with an exception")
    if disposed:
        await raises(c, "send", s.asend(1))
        await raises(c, "error", s.athrow(Boom()))
        await raises(c, "close", s.aclose())
        await raises(c, "subscribe", s.subscribe_async(Rec(c)))
        c.check(len(out.events) == at_dispose, "single subject: event delivered after dispose")


@harness("C29", quick=[dict(sub=s) for s in SINGLES],
         bounds="while the observer handles a value or a terminal event (0..2 loop turns), it or another task sends a further value, error or completion: nothing is delivered after the first terminal event, nothing is lost before it", cost=1)
async def single_meanwhile(c, sub):
    s = SINGLES[sub]()
    turns = c.choice("turns", 3)
    first = ("next", "error", "done")[c.choice("first", 3)]
    then = ("next", "error", "done")[c.choice("then", 3)]
    nested, early = c.bool("nested"), c.bool("early")
    e1, e2 = Boom("first"), Boom("second")
    out = Rec(c)
    fired = []

    async def on(kind, v):
        if not fired:
            fired.append(1)
            if nested:
                await give(s, then, e2 if then == "error" else 2)
            else:
                asyncio.ensure_future(give(s, then, e2 if then == "error" else 2))
            await c.ticks(turns)

    out.on_any = on
    if early:
        asyncio.ensure_future(give(s, first, e1 if first == "error" else 1))
        await c.settle()
        await s.subscribe_async(out)
    else:
        await s.subscribe_async(out)
        await give(s, first, e1 if first == "error" else 1)
    await c.settle()
    want = [(first, e1 if first == "error" else 1 if first == "next" else None)]
    if first == "next":
        want.append((then, e2 if then == "error" else 2 if then == "next" else None))
    c.check(out.events == want, lambda: f"single subject: {out.events!r} instead of {want!r}")
    await c.calm("send", s.asend(3))
    c.check((3 in out.values) == (want[-1][0] == "next"), "single subject: value sent afterwards")


@harness("C29", quick=[dict(sub=s, n=4) for s in SINGLES], thorough=[dict(sub=s, n=8) for s in SINGLES],
         bounds="0..n producers waiting, subscription, then 0..n-1 more events sent at once or 0..2 loop turns later, ending in close, error or nothing", cost=2)
async def single_race(c, sub, n):
    s = SINGLES[sub]()
    out = Rec(c)
    k, m = c.choice("before", n + 1), c.choice("after", n)
    turns = c.choice("turns", 3)
    end = ("done", "error", "open")[c.choice("end", 3)]
    vs = seq(c, k + m)
    tasks = [asyncio.ensure_future(s.asend(v)) for v in vs[:k]]
    await c.settle()
    await s.subscribe_async(out)
    await c.ticks(turns)
    for v in vs[k:]:
        await s.asend(v)
    e = Boom()
    if end != "open":
        await give(s, end, e)
    await c.settle()
    out.expect(vs, {"done": "done", "error": "error", "open": None}[end], e, "single subject")
    c.check(all(t.done() and t.exception() is None for t in tasks), "single subject: producer stuck")


@harness("C29", quick=[dict(sub=s, n=4) for s in SINGLES], thorough=[dict(sub=s, n=7) for s in SINGLES],
         bounds="n producers waiting, a symbolic one is cancelled (or none), then subscription and one more value")
async def single_cancel(c, sub, n):
    s = SINGLES[sub]()
    out = Rec(c)
    gone = c.int("gone", 0, n)
    tasks = [asyncio.ensure_future(s.asend(i)) for i in range(n)]
    await c.settle()
    for i, t in enumerate(tasks):
        if gone == i:
            t.cancel()
    await c.settle()
    late = asyncio.ensure_future(s.asend("late"))
    await c.settle()
    await s.subscribe_async(out)
    await c.settle()
    g = gone.__index__()
    out.expect([i for i in range(n) if i != g] + ["late"], None, what="single subject")
    c.check(all(t.done() and t.cancelled() == (i == g) for i, t in enumerate(tasks)) and late.done(), "single subject: producers")


@harness("C29", quick=[dict(sub=s) for s in SINGLES], bounds="values such as None, 0, False, '', exceptions, by identity; every kind of exception; waiting or not")
async def single_special(c, sub):
    sp, er = special_values(), error_kinds()
    i = c.choice("v", len(sp))
    v, e = sp[i], er[c.choice("e", len(er))]
    wait = c.bool("wait")
    s = SINGLES[sub]()
    out = Rec(c)
    if not wait:
        await s.subscribe_async(out)
    ts = [asyncio.ensure_future(x) for x in (s.asend(v), s.asend(v), s.athrow(e), s.asend(v), s.aclose())]
    await c.settle()
    if wait:
        c.check(not out.events and not any(t.done() for t in ts), "single subject: did not wait")
        await s.subscribe_async(out)
    await c.settle()
    c.check(len(out.values) == 2 and all(x is v for x in out.values) and out.terminal == "error" and out.errors[0] is e and out.bad == 0, lambda: f"single subject: {out.events!r}")
    c.check(all(t.done() and t.exception() is None for t in ts), "single subject: producer stuck")


@harness("C29", quick=[dict(sub=s, n=20) for s in SINGLES], thorough=[dict(sub=s, n=100) for s in SINGLES],
         bounds="n producers waiting; the terminal event is at a symbolic position", max_steps=30000)
async def single_many(c, sub, n):
    s = SINGLES[sub]()
    out = Rec(c)
    at = c.int("at", 0, n)
    ts = []
    for i in range(n):
        ts.append(asyncio.ensure_future(s.aclose() if at == i else s.asend(i)))
    await c.ticks(3)
    await s.subscribe_async(out)
    await c.settle()
    k = at.__index__()
    out.expect(list(range(min(k, n))), "done" if k < n else None, what="single subject")
    c.check(all(t.done() and t.exception() is None for t in ts), "single subject: producer stuck")


# ---------------------------------------------------------------- C30
ITERS = {
    "to_async_iterable": lambda s: rx.to_async_iterable(s),
    "AsyncRx.to_async_iterable": lambda s: rx.AsyncRx(s).to_async_iterable(),
    "AsyncIterableObservable": lambda s: rx.AsyncIterableObservable(s),
    "AsyncIteratorObserver": lambda s: rx.AsyncIteratorObserver(s),
}


@harness("C30", quick=[dict(op=o) for o in ITERS], bounds="0..2 values, then a close or an error of each type; the iterator is asked again up to 3 times after the end, at once or after 0..2 turns: it stays at its end", cost=1)
async def iter_again(c, op):
    k, end = c.choice("n", 3), ("done", "error")[c.choice("end", 2)]
    er = error_kinds()
    e = er[c.choice("e", len(er) - 1)] if end == "error" else None
    turns = c.choice("turns", 3)
    p = Probe(c)
    it = ITERS[op](p).__aiter__()
    seen = []

    async def consume():
        for _ in range(k + 4):
            try:
                seen.append(await it.__anext__())
            except StopAsyncIteration:
                seen.append("end")
            except Exception as ex:
                seen.append(ex)
            if len(seen) > k:
                await c.ticks(turns)

    async def produce():
        for j in range(k):
            await p.asend(j)
        await give(p, end, e)

    cons = asyncio.ensure_future(consume())
    await c.settle()
    prod = asyncio.ensure_future(produce())
    await c.settle()
    c.check(prod.done() and prod.exception() is None, f"{op}: the producer is stuck")
    c.check(cons.done() and seen[:k] == list(range(k)), lambda: f"{op}: got {seen!r}")
    c.check(seen[k:k + 1] == ["end" if end == "done" else e], lambda: f"{op}: ended with {seen[k:]!r}")
    c.check(all(x == "end" or x is e for x in seen[k + 1:]), lambda: f"{op}: after its end the iterator gave {seen[k + 1:]!r}")


@harness("C30", quick=[dict(op=o, n=4) for o in ITERS], thorough=[dict(op=o, n=8) for o in ITERS],
         bounds="one producer of 0..n arbitrary values and a close or any error; consumer and producer pause 0..2 loop turns between steps (symbolic)", cost=2)
async def iter_all(c, op, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    ct, pt = c.choice("consumer", 3), c.choice("producer", 3)
    er = error_kinds()
    e = er[c.choice("e", len(er) - 1)] if end == "error" and not (ct or pt) else er[k % len(er)]
    vs = seq(c, k)
    p = Probe(c)
    got, pos, outcome = [], [], []
    order = []

    async def consume():
        try:
            async for x in ITERS[op](p):
                got.append(x)
                order.append(("got", len(got)))
                await c.ticks(ct)
            outcome.append("done")
        except Exception as ex:
            outcome.append(ex)

    async def produce():
        for i, v in enumerate(vs):
            await p.asend(v)
            order.append(("sent", i + 1))
            await c.ticks(pt)
        if end != "open":
            await give(p, end, e)
            order.append(("ended", 0))

    cons = asyncio.ensure_future(consume())
    await c.settle()
    prod = asyncio.ensure_future(produce())
    await c.settle()
    c.check(prod.done() and prod.exception() is None, f"{op}: the producer is stuck")
    c.check(c.eq(got, vs), lambda: f"{op}: iteration yielded {got!r} instead of {vs!r}")
    if end == "open":
        c.check(not cons.done(), f"{op}: iteration ended")
    else:
        c.check(cons.done() and len(outcome) == 1 and (outcome[0] == "done" if end == "done" else outcome[0] is e), lambda: f"{op}: iteration ended with {outcome!r}")
    for i in range(1, k + 1):
        if ("sent", i) in order:
            c.check(("got", i) in order and order.index(("got", i)) <= order.index(("sent", i)) + 1, f"{op}: send returned before the value was picked up")


@harness("C30", quick=[dict(op=o, prods=2, n=2) for o in ITERS] + [dict(op="to_async_iterable", prods=3, n=1)],
         thorough=[dict(op=o, prods=3, n=2) for o in ITERS] + [dict(op="to_async_iterable", prods=4, n=1)],
         bounds="concurrent producers of 0..n values each with symbolic pauses; then all are finished, each value exactly once, values of a producer in order; the stream ends afterwards", cost=3)
async def iter_concurrent(c, op, prods, n):
    p = Probe(c)
    got, outcome = [], []
    ct = c.choice("consumer", 3)

    async def consume():
        async for x in ITERS[op](p):
            got.append(x)
            await c.ticks(ct)
        outcome.append("done")

    cons = asyncio.ensure_future(consume())
    await c.settle()
    obv = p.subs[0][0] if p.subs else None
    if obv is None:
        c.fail(f"{op}: iteration did not subscribe")
        return
    want = []

    async def produce(i, k, pause):
        for j in range(k):
            await obv.asend((i, j))
            await c.ticks(pause)

    tasks = []
    for i in range(prods):
        k, pause = c.choice("n", n + 1), c.choice("pause", 3)
        want += [(i, j) for j in range(k)]
        tasks.append(asyncio.ensure_future(produce(i, k, pause)))
        if c.bool("turn"):
            await c.ticks(1)
    await c.settle()
    c.check(all(t.done() and t.exception() is None for t in tasks), f"{op}: a producer is stuck")
    c.check(sorted(got) == sorted(want), lambda: f"{op}: yielded {got!r}, sent {want!r}")
    for i in range(prods):
        mine = [j for a, j in got if a == i]
        c.check(mine == sorted(mine), f"{op}: values of one producer reordered")
    t = asyncio.ensure_future(obv.aclose())
    await c.settle()
    c.check(t.done() and cons.done() and outcome == ["done"], f"{op}: the end was lost")


@harness("C30", quick=[dict(op=o, k=4) for o in ITERS], thorough=[dict(op=o, k=6) for o in ITERS],
         bounds="k concurrent calls (send, error, close in any order) before the consumer picks up, or with 0..1 turns between: values in order up to the first terminal call, all calls return", cost=2)
async def iter_terminal_race(c, op, k):
    p = Probe(c)
    got, outcome = [], []
    slow = c.choice("consumer", 2)

    async def consume():
        try:
            async for x in ITERS[op](p):
                got.append(x)
                await c.ticks(slow)
            outcome.append("done")
        except Exception as ex:
            outcome.append(ex)

    cons = asyncio.ensure_future(consume())
    await c.settle()
    obv = p.subs[0][0]
    calls = []
    turn = c.choice("turn", 2)
    for i in range(k):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        v = Boom(str(i)) if kind == "error" else i
        calls.append((kind, v, asyncio.ensure_future(give(obv, kind, v))))
        await c.ticks(turn)
    await c.settle()
    exp, term = [], None
    for kind, v, _ in calls:
        if kind != "next":
            term = (kind, v)
            break
        exp.append(v)
    c.check(got == exp, lambda: f"{op}: yielded {got!r} instead of {exp!r}")
    c.check(all(t.done() for _, _, t in calls), f"{op}: a producer is left waiting")
    c.check(not any(t.cancelled() or t.exception() for _, _, t in calls), lambda: f"{op}: a producer's call raised: {[t for _, _, t in calls]!r}")
    if term:
        c.check(len(outcome) == 1 and (outcome[0] == "done" if term[0] == "done" else outcome[0] is term[1]), lambda: f"{op}: outcome {outcome!r}")
    else:
        c.check(not outcome and not cons.done(), f"{op}: iteration ended")


@harness("C30", quick=[dict(op=o, n=2) for o in ITERS], thorough=[dict(op=o, n=3) for o in ITERS],
         bounds="a producer of 0..n values and a close, an error or neither; each wait for the next value may be given up (cancelled) after 0..3 loop turns, up to twice, and is then repeated; pauses symbolic", cost=2)
async def iter_cancel(c, op, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    e = Boom("end")
    vs = seq(c, k)
    p = Probe(c)
    it = ITERS[op](p).__aiter__()
    got, outcome, sent = [], [], []
    cancels = [2]

    async def produce():
        for v in vs:
            await p.asend(v)
            sent.append(v)
        if end != "open":
            await give(p, end, e)
            sent.append(end)

    async def wait():
        return await it.__anext__()

    prod = None
    for _ in range(k + 3):
        t = asyncio.ensure_future(wait())
        if prod is None:
            await c.settle()
            prod = asyncio.ensure_future(produce())
        if cancels[0] and c.bool("give_up"):
            cancels[0] -= 1
            await c.ticks(c.choice("turns", 4))
            t.cancel()
            await c.settle()
        else:
            await c.settle()
        if not t.done():
            t.cancel()
            await c.settle()
        if t.cancelled():
            continue
        ex = t.exception()
        if ex is not None:
            outcome.append("done" if isinstance(ex, StopAsyncIteration) else ex)
            break
        got.append(t.result())
    await c.settle()
    c.check(c.eq(got, vs[:len(got)]), lambda: f"{op}: {got!r} of {vs!r}")
    if len(got) < k or (end != "open" and not outcome):  # ran out of attempts: the rest must still be there
        for _ in range(k + 1):
            t = asyncio.ensure_future(wait())
            await c.settle()
            if not t.done():
                t.cancel()
                await c.settle()
                break
            ex = t.exception()
            if ex is not None:
                outcome.append("done" if isinstance(ex, StopAsyncIteration) else ex)
                break
            got.append(t.result())
    await c.settle()
    c.check(c.eq(got, vs), lambda: f"{op}: values {got!r} instead of {vs!r} after cancelled waits")
    want = {"done": ["done"], "error": [e], "open": []}[end]
    c.check(len(outcome) == len(want) and all(a is b or a == b for a, b in zip(outcome, want)), lambda: f"{op}: ended with {outcome!r}")
    c.check(prod.done() and not prod.cancelled() and prod.exception() is None, lambda: f"{op}: the producer is stuck or failed: {prod!r}")


@harness("C30", quick=[dict(op=o, k=2) for o in ITERS], thorough=[dict(op=o, k=3) for o in ITERS],
         bounds="k calls (values, and an error or a close at any place), each of which may be cancelled after 0..2 turns, before or after the consumer asks; then the consumer asks until nothing comes: the values of all other calls, in order, those of cancelled ones at most once, and no wait fails", cost=3)
async def iter_producer_cancel(c, op, k):
    p = Probe(c)
    it = ITERS[op](p).__aiter__()
    waits, outcome, got = [], [], []

    async def wait():
        return await it.__anext__()

    async def ask(wait_for=True):
        if not waits:
            waits.append(asyncio.ensure_future(wait()))
        if wait_for:
            await c.settle()
            take()

    def take():
        if waits and waits[0].done():
            t = waits.pop()
            if t.cancelled():
                outcome.append("cancelled")
            elif t.exception() is None:
                got.append(t.result())
            else:
                outcome.append("done" if isinstance(t.exception(), StopAsyncIteration) else t.exception())

    await ask()  # subscribes
    obv = p.subs[0][0]
    if c.bool("first"):
        await obv.asend(-1)
        await c.settle()
        take()
    got.clear()
    calls = []
    for i in range(k):
        kind = ("next", "next", "error", "done")[c.choice("kind", 4)] if i == k - 1 else "next"
        v = Boom(str(i)) if kind == "error" else i
        calls.append((kind, v, asyncio.ensure_future(give(obv, kind, v))))
        await c.ticks((0, 1, 3)[c.choice("turns", 3)])
        victim = c.choice("cancel", i + 2)
        if victim:
            calls[victim - 1][2].cancel()
        if c.bool("ask"):
            await c.ticks(c.choice("turns", 2))
            take()
            if not outcome:
                await ask(wait_for=c.bool("settle"))
    for _ in range(k + 2):
        if outcome:
            break
        await c.settle()
        take()
        if not outcome:
            await ask()
    await c.settle()
    take()
    sure = [v for kind, v, t in calls if kind == "next" and not t.cancelled()]
    sent = [v for kind, v, t in calls if kind == "next"]
    c.check(got == [v for v in sent if v in got], lambda: f"{op}: {got!r} of {sent!r}")
    c.check(all(v in got for v in sure), lambda: f"{op}: {got!r}, although {sure!r} were sent and not given up")
    c.check(all(t.done() for _, _, t in calls), f"{op}: a producer is left waiting after another one gave up")
    c.check(all(t.cancelled() or t.exception() is None for _, _, t in calls), lambda: f"{op}: a producer's call raised: {[t for _, _, t in calls]!r}")
    end = [(kind, v, t) for kind, v, t in calls if kind != "next"]
    if not end:
        c.check(not outcome, lambda: f"{op}: a wait ended with {outcome!r} after a producer gave up")
    elif not end[0][2].cancelled() or outcome:
        c.check(len(outcome) == 1 and (outcome[0] == "done" if end[0][0] == "done" else outcome[0] is end[0][1]), lambda: f"{op}: ended with {outcome!r}")


@harness("C30", quick=[dict(op=o, n=3) for o in ITERS], thorough=[dict(op=o, n=8) for o in ITERS],
         bounds="the iterator is disposed (once or twice) after 0..n values were picked up, whether a wait is under way or not, or 1..3 calls (values, then an error or a close) wait for the consumer: these return")
async def iter_dispose(c, op, n):
    k = c.choice("n", n + 1)
    p = Probe(c)
    it = ITERS[op](p).__aiter__()
    if k == 0 and c.bool("unused"):
        await c.calm("dispose", it.dispose_async())
        c.check(p.total == 0, f"{op}: disposing an iterator that was not used subscribes")
        return
    for i in range(k):
        t = asyncio.ensure_future(it.__anext__())
        await c.settle()
        asyncio.ensure_future(p.asend(i))
        await c.settle()
        c.check(t.done() and t.result() == i, f"{op}: value {i}")
    calls = []
    if k == 0 or c.bool("waiting"):
        asyncio.ensure_future(it.__anext__())
        await c.settle()
    else:
        obv = p.subs[0][0]
        for i in range(c.choice("offered", 4)):
            kind = ("next", "error", "done")[c.choice("kind", 3)]
            calls.append(asyncio.ensure_future(give(obv, kind, Boom() if kind == "error" else i)))
            if c.bool("turn"):
                await c.settle()
    c.check(p.total == 1 and p.active == 1, f"{op}: subscribed {p.total} times")
    for _ in range(1 + c.choice("again", 2)):
        await c.calm("dispose", it.dispose_async())
        await c.settle()
        c.check(p.active == 0 and p.total == 1 and p.disposals == 1, f"{op}: {p.active} subscriptions after the iterator was disposed")
        c.check(all(t.done() and not t.cancelled() and t.exception() is None for t in calls), f"{op}: a producer is left waiting after the iterator was disposed")


@harness("C30", quick=[dict(op=o, n=3) for o in ITERS if o != "AsyncIteratorObserver"], thorough=[dict(op=o, n=6) for o in ITERS if o != "AsyncIteratorObserver"],
         bounds="two iterations of one async iterable object, at the same time or one after the other was broken off after a symbolic number of values, over a cold source of n values and any ending: each yields everything", cost=1)
async def iter_two(c, op, n):
    end = ("done", "error")[c.choice("end", 2)]
    e = Boom()
    src = Feed(c, [("next", j) for j in range(n)] + [(end, e if end == "error" else None)], sync=False)
    xs = ITERS[op](src)
    after = c.bool("after")
    stop = c.choice("stop", n + 1)
    logs = [[], []]

    async def consume(log, limit):
        try:
            async for x in xs:
                log.append(x)
                if len(log) == limit:
                    log.append("broken off")
                    return
                await c.ticks(1)
            log.append("done")
        except Boom as ex:
            log.append(ex)

    full = list(range(n)) + [e if end == "error" else "done"]
    t1 = asyncio.ensure_future(consume(logs[0], stop if after else -1))
    if after:
        await c.settle()
    t2 = asyncio.ensure_future(consume(logs[1], -1))
    await c.settle()
    c.check(t2.done() and logs[1] == full, lambda: f"{op}: the second iteration gave {logs[1]!r} instead of {full!r}")
    want = list(range(stop)) + ["broken off"] if after and stop else full
    c.check(t1.done() and logs[0] == want, lambda: f"{op}: the first iteration gave {logs[0]!r} instead of {want!r}")


@harness("C30", quick=[dict(op=o) for o in ITERS], bounds="values such as None, 0, False, '', exceptions (by identity) over a subject, an iterable and a single value; every kind of exception")
async def iter_special(c, op):
    sp, er = special_values(), error_kinds()[:-1]  # StopAsyncIteration ends an iteration by definition
    i = c.choice("v", len(sp))
    v, e = sp[i], er[c.choice("e", len(er))]
    form = c.choice("form", 3)
    got, outcome = [], []
    s = rx.AsyncSubject()
    src = (s, Feed(c, [("next", v), ("next", v), ("error", e)], sync=False), rx.AsyncSingleSubject())[form]

    async def consume():
        try:
            async for x in ITERS[op](src):
                got.append(x)
            outcome.append("done")
        except Exception as ex:
            outcome.append(ex)

    asyncio.ensure_future(consume())
    await c.settle()
    if form != 1:
        async def produce():
            await src.asend(v)
            await src.asend(v)
            await src.athrow(e)
        asyncio.ensure_future(produce())
    await c.settle()
    c.check(len(got) == 2 and all(x is v for x in got), lambda: f"{op}: {got!r}")
    c.check(len(outcome) == 1 and outcome[0] is e, lambda: f"{op}: {outcome!r}")


@harness("C30", quick=[dict(op=o, n=30) for o in ITERS], thorough=[dict(op=o, n=200) for o in ITERS], bounds="0..n values from an iterable (symbolic length), iterated to the end, by two iterations in turn", max_steps=40000)
async def iter_deep(c, op, n):
    m = c.int("n", 0, n)
    s = rx.AsyncSubject()
    got, outcome = [], []

    async def consume():
        async for x in ITERS[op](s):
            got.append(x)
        outcome.append("done")

    asyncio.ensure_future(consume())
    await c.settle()
    i = 0
    while i < m:
        t = asyncio.ensure_future(s.asend(i))
        await c.settle()
        c.check(t.done(), f"{op}: send stuck")
        i += 1
    t = asyncio.ensure_future(s.aclose())
    await c.settle()
    c.check(t.done() and outcome == ["done"], f"{op}: end lost")
    c.check(got == list(range(i)), f"{op}: values")


# ---------------------------------------------------------------- C31
def _probe_with(c, ev, gaps):
    p = Probe(c)

    async def play():
        for (kind, v), g in zip(ev, gaps):
            await c.sleep(g)
            await give(p, kind, v)

    async def on(obv):
        asyncio.ensure_future(play())

    p.on_subscribe = on
    return p


@harness("C31", quick=[dict(n=3)], thorough=[dict(n=5)],
         bounds="0..n arbitrary values at arbitrary real times, ending in close, error or nothing, arbitrary real timeout, zero included (no ties)", cost=4)
async def run_times(c, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    e = Boom()
    vs = seq(c, k)
    ev = [("next", v) for v in vs] + ([] if end == "open" else [(end, e)])
    gaps = [c.time("gap") for _ in ev]
    timeout = c.time("timeout")
    own = c.bool("own")
    total = 0
    for g in gaps:
        total = total + g
    c.assume(total != timeout)
    p = _probe_with(c, ev, gaps)
    fin = []
    active = []

    async def main():
        try:
            return await (rx.run(p, rx.AsyncAwaitableObserver(), timeout=timeout) if own else rx.run(p, timeout=timeout))
        finally:
            fin.append(c.now())
            active.append(p.active)

    task = asyncio.ensure_future(main())
    await c.drain()
    c.check(task.done(), "run does not return")
    if not task.done():
        return
    c.check(active[0] == 0 and p.active == 0, "run: the subscription is not disposed when it returns")
    c.check(p.total == 1, "run: not subscribed exactly once")
    ex = None if task.cancelled() else task.exception()
    if end == "open" or total > timeout:
        c.check(isinstance(ex, TimeoutError), lambda: f"run: expected a timeout, got {ex!r} {task!r}")
        c.check(c.eq(fin[0], timeout), "run: timeout at the wrong time")
        return
    c.check(c.eq(fin[0], total), "run: returned at the wrong time")
    if end == "error":
        c.check(ex is e, lambda: f"run: {ex!r} instead of the stream's exception")
    elif k == 0:
        c.check(task.cancelled(), lambda: f"run of an empty stream: {task!r}")
    else:
        c.check(not task.cancelled() and ex is None and c.eq(task.result(), vs[-1]), lambda: f"run: {task!r}")


@harness("C31", quick=[{}], bounds="last value such as None, 0, False, '', exceptions, by identity; every kind of exception; any source form (subject, iterable, during subscription)")
async def run_special(c):
    sp, er = special_values(), error_kinds()
    i = c.choice("v", len(sp))
    v, e = sp[i], er[c.choice("e", len(er))]
    fails = c.bool("fails")
    form = c.choice("form", 3)
    ev = [("next", 7), ("next", v), ("error", e) if fails else ("done", None)]
    if form == 2 and not fails:
        src = rx.from_iterable([7, v])
    else:
        src = Feed(c, ev, sync=form == 0)
    task = asyncio.ensure_future(rx.run(src))
    await c.settle()
    c.check(task.done() and not task.cancelled(), "run does not return")
    if task.done() and not task.cancelled():
        if fails:
            c.check(task.exception() is e, lambda: f"run: {task!r}")
        else:
            c.check(task.exception() is None and task.result() is v, lambda: f"run: {task!r}")


@harness("C31", quick=[dict(n=2)], thorough=[dict(n=4)], bounds="the caller of run is cancelled at an arbitrary real time while 0..n values arrive at arbitrary real times, ending or not", cost=2)
async def run_cancelled(c, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    e = Boom()
    ev = [("next", j) for j in range(k)] + ([] if end == "open" else [(end, e)])
    gaps = [c.time("gap") for _ in ev]
    cut = c.time("cut")
    total = 0
    for g in gaps:
        total = total + g
    c.assume(c.all([total != cut, total < 50, cut < 50]))
    p = _probe_with(c, ev, gaps)
    task = asyncio.ensure_future(rx.run(p, timeout=100))
    await c.sleep(cut)
    task.cancel()
    await c.settle()
    c.check(task.done(), "run does not return when it is cancelled")
    c.check(p.active == 0, "run: the subscription is not disposed when it is cancelled")
    if end == "open" or cut < total:
        c.check(task.cancelled(), "run: cancelled, but it did not say so")
    elif end == "error":
        c.check(not task.cancelled() and task.exception() is e, "run: error")
    elif k:
        c.check(not task.cancelled() and task.exception() is None and task.result() == k - 1, "run: result")
    await c.drain()
    c.check(p.active == 0, "run: subscription")


@harness("C31", quick=[dict(k=3)], thorough=[dict(k=5)], bounds="an awaitable observer that was given up (its wait timed out or was cancelled, or run timed out with it) after any j calls, then gets any sequence of k calls: none of them raises, the outcome stays", cost=2)
async def awaitable_given_up(c, k):
    o = rx.AsyncAwaitableObserver()
    how = c.choice("how", 3)
    p = Probe(c)
    if how == 2:
        task = asyncio.ensure_future(rx.run(p, o, timeout=1))
        await c.settle()
    if c.bool("value"):
        await o.asend(1)
    if how == 0:
        o.cancel()
    elif how == 1:
        try:
            await asyncio.wait_for(o, 1)
        except asyncio.TimeoutError:
            pass
    else:
        await c.sleep(2)
        c.check(task.done() and not task.cancelled() and isinstance(task.exception(), TimeoutError), "run: no timeout")
    c.check(o.cancelled(), "awaitable observer: not cancelled")
    for j in range(k):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        await c.calm("awaitable observer that was given up", give(o, kind, Boom() if kind == "error" else j))
        c.check(o.cancelled(), "awaitable observer: the outcome changed")


@harness("C31", quick=[dict(k=5)], thorough=[dict(k=7)], bounds="every sequence of k calls (send an arbitrary value, error, close) on an awaitable observer with callbacks", cost=2)
async def awaitable_history(c, k):
    calls, want = [], []

    async def s(v):
        calls.append(("next", v))

    async def t(e):
        calls.append(("error", e))

    async def cl():
        calls.append(("done", None))

    o = rx.AsyncAwaitableObserver(s, t, cl)
    last, term = None, None
    for j in range(k):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        v = c.value("v") if kind == "next" else Boom(str(j)) if kind == "error" else None
        await c.calm("awaitable observer", give(o, kind, v))
        if term is None:
            want.append((kind, v))
            if kind == "next":
                last = (v,)
            else:
                term = (kind, v)
        c.check(o.done() == (term is not None), "awaitable observer: done at the wrong moment")
    c.check(len(calls) == len(want) and c.all([a[0] == b[0] and (a[1] is b[1] or c.eq(a[1], b[1])) for a, b in zip(calls, want)]), "awaitable observer: callbacks")
    if term is None:
        return
    if term[0] == "error":
        c.check(not o.cancelled() and o.exception() is term[1], "awaitable observer: error")
    elif last is None:
        c.check(o.cancelled(), "awaitable observer: not cancelled when closed without a value")
    else:
        c.check(not o.cancelled() and o.exception() is None and c.eq(o.result(), last[0]), "awaitable observer: result")


@harness("C31", quick=[dict(k=4)], thorough=[dict(k=6)], bounds="an awaitable observer disposed after any number of the k calls (send an arbitrary value, error, close): whatever follows changes nothing and reaches no callback", cost=2)
async def awaitable_disposed(c, k):
    calls = []

    async def s(v):
        calls.append(("next", v))

    async def t(e):
        calls.append(("error", e))

    async def cl():
        calls.append(("done", None))

    o = rx.AsyncAwaitableObserver(s, t, cl)
    at = c.choice("dispose", k)
    done, n = False, 0
    for j in range(k):
        if j == at:
            o.dispose()
            done, n = o.done(), len(calls)
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        await c.calm("awaitable observer", give(o, kind, Boom(str(j)) if kind == "error" else c.value("v")))
    c.check(o.done() == done and len(calls) == n, lambda: f"awaitable observer: a call after dispose had an effect: {calls[n:]!r}")


@harness("C31", quick=[dict(k=4)], thorough=[dict(k=6)], bounds="an awaitable observer with slow callbacks and k overlapping calls (send an arbitrary value, error, close), the next one made by another producer or by the callback itself: the outcome is the one of the order of the calls", cost=2)
async def awaitable_overlap(c, k):
    calls, want = [], []
    gate = asyncio.Event()
    plan = [(("next", "error", "done")[c.choice("kind", 3)], c.value("v"), Boom(str(j)), c.bool("inside")) for j in range(k)]
    pending = list(plan)

    async def call():
        kind, v, e, _ = pending.pop(0)
        await give(o, kind, e if kind == "error" else v)

    def cb(kind):
        async def f(v=None):
            calls.append((kind, v))
            if pending and pending[0][3]:
                await call()
            await gate.wait()

        return f

    o = rx.AsyncAwaitableObserver(cb("next"), cb("error"), cb("done"))
    tasks = []
    while pending:
        tasks.append(asyncio.ensure_future(call()))
        await c.settle()
    last, term = None, None
    for kind, v, e, _ in plan:
        if term is None:
            want.append((kind, e if kind == "error" else v if kind == "next" else None))
            if kind == "next":
                last = (v,)
            else:
                term = (kind, e)
    gate.set()
    await c.settle()
    c.check(all(t.done() and not t.cancelled() and t.exception() is None for t in tasks), "awaitable observer, overlapping calls: a call did not return")
    c.check(len(calls) == len(want) and c.all([a[0] == b[0] and (a[1] is b[1] or c.eq(a[1], b[1])) for a, b in zip(calls, want)]), lambda: f"awaitable observer, overlapping calls: callbacks {calls!r}")
    c.check(o.done() == (term is not None), "awaitable observer, overlapping calls: done")
    if term is None or not o.done():
        return
    if term[0] == "error":
        c.check(not o.cancelled() and o.exception() is term[1], "awaitable observer, overlapping calls: error")
    elif last is None:
        c.check(o.cancelled(), "awaitable observer, overlapping calls: not cancelled when closed without a value")
    else:
        c.check(not o.cancelled() and o.exception() is None and c.eq(o.result(), last[0]), lambda: f"awaitable observer, overlapping calls: {o!r} instead of the last value")
