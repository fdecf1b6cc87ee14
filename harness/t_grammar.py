"""C01 Rx grammar, C02 serialization."""
from __future__ import annotations

from symx.registry import harness

from aioreactive import create as _create
from aioreactive.testing import AsyncTestSubject

from .ops import *  # noqa: F401,F403

SUBJECTS = [lambda: rx.AsyncSubject(), lambda: rx.AsyncSingleSubject(), lambda: AsyncTestSubject()]


class Fuse:
    """A callback that is the identity but raises at its at-th call (symbolic)."""

    def __init__(self, at, error):
        self.at, self.error, self.calls = at, error, 0

    def __call__(self, x, *rest):
        i = self.calls
        self.calls += 1
        if self.at == i:
            raise self.error
        return x


async def quietly(coro):
    """Awaits a producer's call; an exception of a user callback may be raised to the producer."""
    try:
        await coro
    except (Boom, TypeError):
        pass


async def play(c, srcs, k, settle, timed=False):
    """k awaited calls on the sources, of any kind, also after they have terminated."""
    for j in range(k):
        i = c.choice("src", len(srcs)) if len(srcs) > 1 else 0
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        v = c.value("v") if kind == "next" else Boom(str(j)) if kind == "error" else None
        await quietly(give(srcs[i], kind, v))
        if settle:
            await c.settle()
        elif timed:
            await c.sleep(0.5)


@harness("C01", quick=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in ALL],
         thorough=[dict(op=o, k=7 if TABLE[o].n == 1 else 5) for o in ALL],
         bounds="every operator over subjects; every sequence of k awaited send/error/close calls on any source, also after termination; the callback raises at a symbolic call or never; with and without pauses between the calls", cost=3)
async def grammar_op(c, op, k):
    o = table()[op]
    srcs = [rx.AsyncSubject() for _ in range(o.n)]
    fuse = Fuse(c.int("raises", 0, k) if o.cb or op == "catch" else -1, Boom("callback"))
    out = Rec(c)
    await o.build(srcs, fuse).subscribe_async(out)
    await play(c, srcs, k, c.bool("settle"), o.timed)
    await c.drain()
    out.grammar(op)


@harness("C01", quick=[dict(op=o, k=4) for o in ALL], thorough=[dict(op=o, k=5) for o in ALL],
         bounds="every operator over subjects; the observer raises at a symbolic event (or takes a loop turn for each); every sequence of k awaited calls", cost=2)
async def grammar_observer(c, op, k):
    o = table()[op]
    srcs = [rx.AsyncSubject() for _ in range(o.n)]
    at = c.int("raises", 0, k)
    slow = c.bool("slow")
    out = Rec(c)

    async def on(kind, v):
        if slow:
            await c.ticks(1)
        if at == len(out.events) - 1 and kind == "next":
            raise Boom("observer")

    out.on_any = on
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await play(c, srcs, k, False, o.timed)
    await c.drain()
    out.grammar(op)


@harness("C01", quick=[dict(first=o, k=3) for o in NAMES], thorough=[dict(first=o, k=4) for o in NAMES],
         bounds="every pair of operators, the second a symbolic choice; k awaited calls on the sources; the first operator's callback raises at a symbolic call", cost=6)
async def grammar_pair(c, first, k):
    t = table()
    a = t[first]
    b = t[NAMES[c.choice("second", len(NAMES))]]
    srcs = [rx.AsyncSubject() for _ in range(a.n)]
    other = rx.AsyncSubject()
    fuse = Fuse(c.choice("raises", 2) if a.cb else -1, Boom("callback"))
    out = Rec(c)
    inner = a.build(srcs, fuse)
    await b.build([inner, other], lambda x, *r: x).subscribe_async(out)
    await play(c, srcs + ([other] if b.n > 1 else []), k if a.n + b.n < 4 else k - 1, False)
    await c.drain()
    out.grammar(f"{first} then {b.name}")


@harness("C01", quick=[dict(op=o) for o in NAMES], bounds="every operator over every kind of subject and over the creation functions (iterables of 0..3 values that may fail, async iterables, workflows, timers, single, empty, failing)", cost=2)
async def grammar_created(c, op):
    o = table()[op]
    boom = Boom()

    def it(n, fails):
        def g():
            yield from range(n)
            if fails:
                raise boom
        return g()

    async def ait(n, fails):
        for i in range(n):
            yield i
        if fails:
            raise boom

    async def work(fails):
        await asyncio.sleep(1)
        if fails:
            raise boom
        return 5

    def source(i):
        form = c.choice("form", 9)
        if form == 8:  # a source of the user that sends while it is being subscribed
            end = c.choice("end", 2)
            ev = [("next", j) for j in range(c.choice("n", 3))] + [(("done", None), ("error", boom))[end]]
            return _create.create(Feed(c, ev, sync=True).subscribe_async)
        if form == 0:
            return rx.from_iterable(it(c.choice("n", 4), c.bool("fails")))
        if form == 1:
            return rx.from_async_iterable(ait(c.choice("n", 3), c.bool("fails")))
        if form == 2:
            return rx.from_async(work(c.bool("fails")))
        if form == 3:
            return rx.single(3)
        if form == 4:
            return rx.empty()
        if form == 5:
            return rx.timer(c.choice("n", 3))
        if form == 6:
            return rx.defer(lambda: rx.from_iterable([1, 2])) if c.bool("ok") else rx.defer(it(0, True).__next__)
        return SUBJECTS[i % 3]()

    out = Rec(c)
    srcs = [source(i) for i in range(o.n)]
    fuse = Fuse(c.choice("raises", 2) - 1 if o.cb else -1, Boom("callback"))
    await quietly(o.build(srcs, fuse).subscribe_async(out))
    for s in srcs:
        if hasattr(s, "asend"):
            for j in range(2):
                asyncio.ensure_future(quietly(s.asend(j)))
            asyncio.ensure_future(quietly(s.aclose()))
            asyncio.ensure_future(quietly(s.athrow(boom)))
    # infinite sources do not occur: everything ends by itself
    await c.drain()
    out.grammar(op)


@harness("C01", quick=[dict(op=o, k=3) for o in ["none", *NAMES]], thorough=[dict(op=o, k=4) for o in ["none", *NAMES]],
         bounds="every operator over every kind of subject; k awaited calls; while it handles a symbolic event, the observer itself awaits a further send, error or close call on any source", cost=2)
async def grammar_reentrant(c, op, k):
    o = TABLE["map"] if op == "none" else table()[op]
    sub = SUBJECTS[c.choice("subject", 2)]
    srcs = [sub() for _ in range(o.n)]
    at = c.choice("at", k)
    what = ("next", "error", "done")[c.choice("what", 3)]
    whom = c.choice("whom", o.n) if o.n > 1 else 0
    out = Rec(c)
    fired = []

    async def on(kind, v):
        if len(out.events) - 1 == at and not fired:
            fired.append(1)
            asyncio.ensure_future(quietly(give(srcs[whom], what, Boom("again"))))
            await c.ticks(2)  # it runs while this event is being handled; it may have to wait for it

    out.on_any = on
    await (srcs[0].subscribe_async(out) if op == "none" else o.build(srcs, lambda x, *r: x).subscribe_async(out))
    for j in range(k):
        i = c.choice("src", len(srcs)) if len(srcs) > 1 else 0
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        asyncio.ensure_future(quietly(give(srcs[i], kind, Boom(str(j)) if kind == "error" else j)))
        await c.settle()  # a single-observer subject without an observer keeps the producer waiting
        if o.timed:
            await c.sleep(0.5)
    await c.drain()
    out.grammar(op)


@harness("C01", quick=[dict(k=6)], thorough=[dict(k=8)], bounds="subjects themselves, k awaited calls", cost=2)
async def grammar_subject(c, k):
    s = SUBJECTS[c.choice("subject", 3)]()
    out = Rec(c)
    await s.subscribe_async(out)
    await play(c, [s], k, False)
    await c.drain()
    out.grammar("subject")


# ---------------------------------------------------------------- C02
COMBINE = ["merge", "merge_seq", "merge_map", "merge_map_1", "concat", "flat_map", "flat_mapi", "flat_map_async", "concat_map", "switch_map",
           "switch_map_async", "combine_latest", "with_latest_from", "take_until", "take", "skip", "take_last", "skip_last", "distinct",
           "debounce", "zip_seq"]


SERIAL_1 = [o for o in ALL if TABLE[o].serial and TABLE[o].n == 1]


@harness("C02", quick=[dict(op=o, prods=2, n=2) for o in COMBINE] + [dict(op=o, prods=3, n=1) for o in COMBINE],
         thorough=[dict(op=o, prods=2, n=3) for o in COMBINE] + [dict(op=o, prods=3, n=2) for o in COMBINE],
         bounds="2 (or 3) concurrent producers of n values each on the operator's sources, each pausing 0..1 loop turns, the observer takes 0..2 turns per event (symbolic)", cost=3)
async def serial_values(c, op, prods, n):
    o = table(window=1)[op]
    srcs = [Probe(c, f"s{i}") for i in range(o.n)]
    work = c.choice("observer", 3)
    out = Rec(c)

    async def on(kind, v):
        await c.ticks(work)

    out.on_any = on
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    if o.inner and op != "concat":  # make the inner source live
        await srcs[0].asend("outer")
        await c.settle()
    started = []

    async def produce(p, target, pause):
        for j in range(n):
            started.append((p, j))
            await target.asend((p, j))
            await c.ticks(pause)

    tasks = []
    for p in range(prods):
        if o.inner and op != "concat":
            t = srcs[1]
        elif op == "concat":
            t = srcs[0]
        elif op in ("with_latest_from", "take_until"):
            t = srcs[0] if p else srcs[min(1, o.n - 1)] if op == "with_latest_from" else srcs[0]
        else:
            t = srcs[p % o.n]
        tasks.append(asyncio.ensure_future(produce(p, t, c.choice("pause", 2))))
        if c.bool("turn"):
            await c.ticks(1)
    await c.drain()
    out.serial(op)
    out.grammar(op)
    c.check(all(t.done() and t.exception() is None for t in tasks), f"{op}: a producer is stuck or failed")
    vals = out.values
    every = [(p, j) for p in range(prods) for j in range(n)]
    total = len(every)

    def subset_in_order(vs):
        c.check(len(set(vs)) == len(vs) and set(vs) <= set(every), lambda: f"{op}: {vs!r} were not all sent once")
        for p in range(prods):
            mine = [j for q, j in vs if q == p]
            c.check(mine == sorted(mine), lambda: f"{op}: the values of one producer are reordered: {vs!r}")

    if op in ("combine_latest", "with_latest_from"):
        c.check(len(vals) <= total, lambda: f"{op}: too many values {vals!r}")
        if op == "combine_latest":
            c.check(len(vals) >= 1 and {x[0] % 2 for x in vals[-1]} == {0, 1}, lambda: f"{op}: {vals!r}")
            for side in (0, 1):
                col = [v[side] for v in vals]
                mine = [(p, j) for p, j in started if p % 2 == side]
                c.check(bool(col) and col[-1] == mine[-1], lambda: f"{op}: the last tuple {vals[-1:]!r} misses the latest value {mine[-1]!r}")
            firsts = min(started.index(x) for x in started if x[0] % 2 == 0), min(started.index(x) for x in started if x[0] % 2 == 1)
            c.check(len(vals) == total - max(firsts), lambda: f"{op}: {len(vals)} tuples for {started!r}")
        return
    subset_in_order(vals)
    if op == "take":
        want = min(2, total)
    elif op in ("skip", "skip_last"):
        want = total - 1
    elif op == "zip_seq":
        want = min(3, total)
    elif op in ("take_last",):
        want = 0
    elif op == "debounce":
        c.check(len(vals) >= 1, f"{op}: lost the last value")
        return
    else:
        want = total
    c.check(len(vals) == want, lambda: f"{op}: delivered {vals!r} of {every!r}, expected {want}")
    if op == "take_last":
        await srcs[0].aclose()
        await c.drain()
        out.serial(op)
        subset_in_order(out.values)
        c.check(len(out.values) == min(2, total), lambda: f"{op}: delivered {out.values!r}")


@harness("C02", quick=[dict(op=o, n=2) for o in COMBINE], thorough=[dict(op=o, n=3) for o in COMBINE],
         bounds="one producer of n values against a concurrent terminal event (close or error) of the same or another source, 0..2 turns apart, the observer takes 0..2 turns", cost=3)
async def serial_terminal(c, op, n):
    o = table(window=1)[op]
    srcs = [Probe(c, f"s{i}") for i in range(o.n)]
    work = c.choice("observer", 3)
    out = Rec(c)

    async def on(kind, v):
        await c.ticks(work)

    out.on_any = on
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    if o.inner and op != "concat":
        await srcs[0].asend("outer")
        await c.settle()
    main = srcs[1] if o.inner and op != "concat" else srcs[0]
    if op == "with_latest_from":
        await srcs[1].asend("other")
        await c.settle()
    if op == "combine_latest":
        await srcs[1].asend("other")
        await c.settle()
    log = []

    async def produce(pause):
        for j in range(n):
            log.append(("v", j))
            await main.asend(j)
            await c.ticks(pause)

    e = Boom()
    who = c.choice("who", sum(1 for x in srcs if x.total))  # concat: only the first one is subscribed
    kind = ("error", "done")[c.choice("kind", 2)]

    async def end(pause):
        await c.ticks(pause)
        log.append(("end",))
        await give(srcs[who], kind, e)

    first = c.bool("first")
    ts = []
    if first:
        ts.append(asyncio.ensure_future(end(c.choice("later", 3))))
    ts.append(asyncio.ensure_future(produce(c.choice("pause", 2))))
    if not first:
        ts.append(asyncio.ensure_future(end(c.choice("later", 3))))
    await c.drain()
    out.serial(op)
    out.grammar(op)
    c.check(all(t.done() for t in ts), f"{op}: a producer is stuck")
    before = [x[1] for x in log[:log.index(("end",))]]
    vals = [v[0] for v in out.values] if op in ("combine_latest", "with_latest_from") else out.values
    c.check(all(type(v) is int and 0 <= v < n for v in vals) and vals == sorted(set(vals)), lambda: f"{op}: {vals!r}")
    if op == "take":
        before = before[:2]
    elif op == "skip":
        before = before[1:]
    elif op == "skip_last":
        before = before[:-1]
    elif op == "zip_seq":
        before = before[:3]
    elif op == "take_last":
        before = before[-2:] if kind == "done" else []
    elif op == "debounce" or (op in ("flat_map", "flat_mapi", "flat_map_async", "concat_map") and kind == "error"):
        before = []  # an error of the outer stream may overtake inner streams that have not produced yet
    c.check(vals[:len(before)] == before, lambda: f"{op}: {vals!r}, but {before!r} were sent before the end")
    if kind == "error":
        c.check(out.terminal == "error" and out.errors[0] is e or (op == "take" and out.terminal == "done") or (op == "zip_seq" and out.terminal == "done"), lambda: f"{op}: ended with {out.terminal}")


@harness("C02", quick=[dict(op=o, n=2) for o in COMBINE], thorough=[dict(op=o, n=3) for o in COMBINE],
         bounds="after two values, two concurrent producers make n calls each, every one a value, error or close on any live source, 0..1 turns apart; the observer takes 0..2 turns", cost=4)
async def serial_storm(c, op, n):
    o = table(window=1)[op]
    srcs = [Probe(c, f"s{i}") for i in range(o.n)]
    work = c.choice("observer", 3)
    out = Rec(c)

    async def on(kind, v):
        await c.ticks(work)

    out.on_any = on
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    for j in range(2):
        for s in srcs if op != "take_until" else srcs[:1]:
            await s.asend(("first", j))
            await c.settle()
    live = [s for s in srcs if s.active]
    if not live:
        return
    plan = [[(live[c.choice("src", len(live))] if len(live) > 1 else live[0], ("next", "error", "done")[c.choice("kind", 3)]) for _ in range(n)] for _ in range(2)]
    pause = c.choice("pause", 2)

    async def produce(p):
        for j, (s, kind) in enumerate(plan[p]):
            await give(s, kind, Boom(f"{p}.{j}") if kind == "error" else (p, j))
            await c.ticks(pause)

    ts = [asyncio.ensure_future(produce(0)), asyncio.ensure_future(produce(1))]
    await c.drain()
    out.serial(op)
    out.grammar(op)
    c.check(all(t.done() and t.exception() is None for t in ts), f"{op}: a producer is stuck or failed")
    if op in ("merge", "merge_seq", "merge_map", "skip", "skip_last", "zip_seq", "distinct", "take_last") and any(k == "error" for p in plan for s, k in p):
        c.check(out.terminal is not None, f"{op}: no terminal event")


@harness("C02", quick=[dict(op=o) for o in COMBINE], thorough=[dict(op=o, dur=3) for o in COMBINE],
         bounds="the observer takes an arbitrary real time for each event while two producers send two values each at arbitrary real gaps", cost=2)
async def serial_durations(c, op, dur=2):
    o = table(window=c.time("window", 0.1, 3) if op == "debounce" else 1)[op]
    srcs = [Probe(c, f"s{i}") for i in range(o.n)]
    ds = [c.time("took", 0, 5) for _ in range(dur)]
    out = Rec(c)

    async def on(kind, v):
        await c.sleep(ds[(len(out.events) - 1) % dur])

    out.on_any = on
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    if o.inner and op != "concat":
        await srcs[0].asend("outer")
        await c.drain()
    main = srcs[1] if o.inner and op != "concat" else srcs[0]
    second = srcs[1] if o.combine and op != "take_until" else main
    gap = c.time("gap", 0, 5)
    n0 = len(out.events)

    async def p1():
        await main.asend(1)
        await c.sleep(gap)
        await main.asend(2)

    async def p2():
        await second.asend(3)
        await c.sleep(1)
        await second.asend(4)

    asyncio.ensure_future(p1())
    asyncio.ensure_future(p2())
    await c.drain()
    out.serial(op)
    out.grammar(op)
    vals = out.values[n0:] if n0 else out.values
    if op in ("merge", "merge_seq", "merge_map", "merge_map_1", "concat", "flat_map", "flat_mapi", "flat_map_async", "concat_map", "switch_map", "switch_map_async", "distinct", "take_until"):
        c.check(sorted(vals) == [1, 2, 3, 4] and vals.index(1) < vals.index(2) and vals.index(3) < vals.index(4), lambda: f"{op}: {vals!r}")


@harness("C02", quick=[dict(op=o, k=4) for o in SERIAL_1], thorough=[dict(op=o, k=6) for o in SERIAL_1],
         bounds="every serializing operator of one source, also with the parameters 0, 1, 2 and 3; k calls (values, close, error) from producers that do not wait for each other, 0..1 turns apart; the observer takes 0..2 turns; the outcome is that of the same calls made one at a time", cost=2)
async def serial_params(c, op, k):
    o = table(window=1)[op]
    work, pause = c.choice("observer", 3), c.choice("pause", 2)
    calm, busy = Probe(c, "calm"), Probe(c, "busy")
    ref, out = Rec(c, "ref"), Rec(c)

    async def on(kind, v):
        await c.ticks(work)

    out.on_any = on
    await o.build([calm], lambda x, *r: x).subscribe_async(ref)
    await o.build([busy], lambda x, *r: x).subscribe_async(out)
    await c.settle()
    plan = []
    for j in range(k):
        kind = "next" if j < 2 else ("next", "done", "error")[c.choice("kind", 3)]
        plan.append((kind, Boom() if kind == "error" else j))
        if kind != "next":
            break
    for kind, v in plan:
        await give(calm, kind, v)
        if not (o.timed):
            await c.settle()
    ts = []
    for kind, v in plan:
        ts.append(asyncio.ensure_future(give(busy, kind, v)))
        await c.ticks(pause)
    await c.drain()
    out.serial(op)
    out.grammar(op)
    c.check(all(t.done() and t.exception() is None for t in ts), f"{op}: a producer is stuck or failed")
    if o.timed:
        return
    if op.startswith(("flat_map", "concat_map")) and plan[-1][0] == "error":
        c.check(out.terminal == ref.terminal, lambda: f"{op}: {out.events!r}, {ref.events!r} one at a time")
        return
    c.check(out.kinds() == ref.kinds() and c.eq(out.values, ref.values), lambda: f"{op}: {out.events!r}, {ref.events!r} one at a time")


@harness("C02", quick=[dict(m=m, n=10) for m in (0, 1, 2)], thorough=[dict(m=m, n=40) for m in (0, 1, 2, 3)],
         bounds="n inner streams of two values each merged with at most m at a time (0: unlimited); a slow observer; symbolic number of turns of the observer", max_steps=60000, cost=2)
async def serial_many(c, m, n):
    work = c.choice("observer", 4)
    out = Rec(c)

    async def on(kind, v):
        await c.ticks(work)

    out.on_any = on
    inners = [rx.from_iterable([(i, 0), (i, 1)]) for i in range(n)]
    await pipe(rx.from_iterable(inners), rx.merge_inner(m)).subscribe_async(out)
    await c.drain()
    out.serial("merge_inner")
    out.grammar("merge_inner")
    c.check(sorted(out.values) == [(i, j) for i in range(n) for j in (0, 1)] and out.done, "merge_inner: values lost")
