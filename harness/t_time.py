"""C23 delay, C24 debounce, C25 interval and timer: exact real-valued times."""
from __future__ import annotations

from symx.registry import harness

from .ops import *  # noqa: F401,F403
from .ops import _timeshift

DELAYS = {"delay": lambda d: rx.delay(d), "AsyncRx.delay": lambda d: lambda s: rx.AsyncRx(s).delay(d)}
DEBOUNCES = {"debounce": lambda d: rx.debounce(d), "AsyncRx.debounce": lambda d: lambda s: rx.AsyncRx(s).debounce(d)}
TERMS = {"done": "done", "error": "error", "open": None}


async def _play(c, p, events, gaps):
    """Send the events to p, each after its gap; returns their times."""
    at = []
    for (kind, v), g in zip(events, gaps):
        await c.sleep(g)
        at.append(c.now())
        await give(p, kind, v)
    return at


@harness("C23", quick=[dict(op=o, n=4) for o in DELAYS], thorough=[dict(op=o, n=6) for o in DELAYS],
         bounds="up to n events with arbitrary real gaps >= 0 and values, ending in completion, error or nothing, arbitrary real delay >= 0", cost=4)
async def delay_times(c, op, n):
    d = c.time("delay")
    k = c.choice("n", n)
    end = ("done", "error", "open")[c.choice("end", 3)]
    err = Boom()
    vs = seq(c, k)
    ev = [("next", v) for v in vs] + ([] if end == "open" else [(end, err)])
    gaps = [c.time("gap") for _ in ev]
    p = Probe(c)
    out = Rec(c)
    await pipe(p, DELAYS[op](d)).subscribe_async(out)
    at = await _play(c, p, ev, gaps)
    await c.drain()
    out.expect(vs, TERMS[end], err, op)
    c.check(len(out.times) == len(ev), f"{op}: number of events")
    for t, s in zip(out.times, at):
        c.check(c.eq(t, s + d), lambda: f"{op}: event of time {s} delivered at {t}, delay {d}")


@harness("C23", quick=[dict(op=o, n=14) for o in DELAYS], thorough=[dict(op=o, n=50) for o in DELAYS],
         bounds="n values with fixed gaps (1, 0, 2, 0.5, ...) and then completion or an error, arbitrary real delay in 0..6", max_steps=40000)
async def delay_deep(c, op, n):
    d = c.time("delay", 0, 6)
    end = ("done", "error")[c.choice("end", 2)]
    err = Boom()
    gaps = [(1, 0, 2, 0.5)[i % 4] for i in range(n + 1)]
    ev = [("next", i) for i in range(n)] + [(end, err)]
    p = Probe(c)
    out = Rec(c)
    await pipe(p, DELAYS[op](d)).subscribe_async(out)
    at = await _play(c, p, ev, gaps)
    await c.drain()
    out.expect(list(range(n)), end, err, op)
    for t, s in zip(out.times, at):
        c.check(c.eq(t, s + d), lambda: f"{op}: event of time {s} delivered at {t}, delay {d}")


@harness("C23", quick=[dict(op=o) for o in DELAYS], bounds="values such as None, 0, False, '', exceptions; sources that emit during subscription; every kind of exception")
async def delay_special(c, op):
    sp, er = special_values(), error_kinds()
    ia, ib = c.choice("a", len(sp)), c.choice("b", len(sp))
    a, b, e = sp[ia], sp[ib], er[c.choice("e", len(er)) if ib == 0 else (ia + ib) % len(er)]
    d = c.time("delay")
    out = Rec(c)
    await pipe(Feed(c, [("next", a), ("next", b), ("error", e)], sync=True), DELAYS[op](d)).subscribe_async(out)
    await c.drain()
    c.check(len(out.values) == 2 and out.values[0] is a and out.values[1] is b, lambda: f"{op}: {out.values!r}")
    c.check(out.bad == 0 and out.terminal == "error" and out.errors[0] is e, lambda: f"{op}: {out.events!r}")
    for t in out.times:
        c.check(c.eq(t, d), f"{op}: time")


@harness("C23", quick=[dict(k=3)], thorough=[dict(k=4)], bounds="two subscriptions to one delayed source, made and fed at arbitrary times, k events", cost=3)
async def delay_two(c, k):
    d = c.time("delay")
    p = Probe(c)
    o = pipe(p, rx.delay(d))
    a, b = Rec(c, "a"), Rec(c, "b")
    second = c.choice("second", k + 1)
    await o.subscribe_async(a)
    at = []
    for i in range(k):
        await c.sleep(c.time("gap"))
        if i == second:
            await o.subscribe_async(b)
        at.append(c.now())
        await p.asend(i)
    await c.drain()
    a.expect(list(range(k)), None, what="delay")
    b.expect(list(range(second, k)), None, what="delay")
    for r, ts in ((a, at), (b, at[second:])):
        for t, s in zip(r.times, ts):
            c.check(c.eq(t, s + d), f"delay: time of {r.name}")


# ---------------------------------------------------------------- C24
def _debounced(c, times, kinds, d):
    """Values (by index) that are followed by a quiet period of d; ties have been excluded."""
    keep = []
    for i, (t, k) in enumerate(zip(times, kinds)):
        if k != "next":
            break
        if i + 1 == len(times) or t + d < times[i + 1]:
            keep.append(i)
    return keep


@harness("C24", quick=[dict(op=o, n=4) for o in DEBOUNCES], thorough=[dict(op=o, n=5) for o in DEBOUNCES],
         bounds="up to n values with arbitrary real gaps > 0 and values, ending in completion, error or nothing, arbitrary real window >= 0 (gaps different from the window)", cost=4)
async def debounce_times(c, op, n):
    d = c.time("window")
    k = c.choice("n", n + 1)
    end = ("done", "error", "open")[c.choice("end", 3)]
    err = Boom()
    vs = seq(c, k)
    ev = [("next", v) for v in vs] + ([] if end == "open" else [(end, err)])
    gaps = []
    for _ in ev:
        g = c.time("gap")
        c.assume(g > 0)
        c.assume(g != d)
        gaps.append(g)
    p = Probe(c)
    out = Rec(c)
    await pipe(p, DEBOUNCES[op](d)).subscribe_async(out)
    at = await _play(c, p, ev, gaps)
    await c.drain()
    keep = _debounced(c, at, [x for x, _ in ev], d)
    out.expect([vs[i] for i in keep], TERMS[end], err, op)
    want = [at[i] + d for i in keep] + ([] if end == "open" else [at[-1]])
    c.check(len(out.times) == len(want), f"{op}: number of events")
    for t, w in zip(out.times, want):
        c.check(c.eq(t, w), lambda: f"{op}: delivered at {t}, expected {w}")


@harness("C24", quick=[dict(op=o, n=10) for o in DEBOUNCES], thorough=[dict(op=o, n=30) for o in DEBOUNCES],
         bounds="n values with fixed gaps (1, 3, 2, 5, ...), arbitrary real window in 0..6 different from the gaps", max_steps=60000)
async def debounce_deep(c, op, n):
    d = c.time("window", 0, 6)
    gaps = [(1, 3, 2, 5, 2, 1)[i % 6] for i in range(n)]
    for g in (1, 2, 3, 4, 5, 6):
        c.assume(d != g)
    p = Probe(c)
    out = Rec(c)
    await pipe(p, DEBOUNCES[op](d)).subscribe_async(out)
    at = await _play(c, p, [("next", i) for i in range(n)], gaps)
    await c.drain()
    keep = _debounced(c, at, ["next"] * n, d)
    out.expect(keep, None, what=op)
    for t, i in zip(out.times, keep):
        c.check(c.eq(t, at[i] + d), f"{op}: time of value {i}")


@harness("C24", quick=[dict(op=o) for o in DEBOUNCES], bounds="values such as None, 0, False, ''; every kind of exception; equal values in a row")
async def debounce_special(c, op):
    sp, er = special_values(), error_kinds()
    ia, ib = c.choice("a", len(sp)), c.choice("b", len(sp))
    a, b = sp[ia], sp[ib]
    p = Probe(c)
    out = Rec(c)
    await pipe(p, DEBOUNCES[op](2)).subscribe_async(out)
    for v, g in ((a, 3), (b, 1), (a, 3), (a, 3), (b, 1)):
        await p.asend(v)
        await c.sleep(g)
    e = er[c.choice("e", len(er)) if ib == 0 else (ia + ib) % len(er)]
    await p.athrow(e)
    await c.drain()
    c.check(len(out.values) == 3 and all(v is a for v in out.values), lambda: f"{op}: {out.values!r}")
    c.check(out.bad == 0 and out.terminal == "error" and out.errors[0] is e, lambda: f"{op}: {out.events!r}")


@harness("C24", quick=[dict(op=o, burst=4) for o in DEBOUNCES], thorough=[dict(op=o, burst=12) for o in DEBOUNCES],
         bounds="bursts of 1..burst values at one instant, two bursts a symbolic gap apart (different from the window)")
async def debounce_burst(c, op, burst):
    d = c.time("window", 1, 5)
    gap = c.time("gap", 0, 10)
    c.assume(gap > 0)
    c.assume(gap != d)
    n, m = 1 + c.choice("n", burst), 1 + c.choice("m", burst)
    p = Probe(c)
    out = Rec(c)
    await pipe(p, DEBOUNCES[op](d)).subscribe_async(out)
    for i in range(n):
        await p.asend(("x", i))
    await c.sleep(gap)
    at = c.now()
    for i in range(m):
        await p.asend(("y", i))
    await c.drain()
    if gap > d:
        out.expect([("x", n - 1), ("y", m - 1)], None, what=op)
        c.check(c.all([c.eq(out.times[0], d), c.eq(out.times[1], at + d)]) if len(out.times) == 2 else False, f"{op}: times")
    else:
        out.expect([("y", m - 1)], None, what=op)
        c.check(c.eq(out.times[0], at + d) if out.times else False, f"{op}: time")


# ---------------------------------------------------------------- C25
@harness("C25", quick=[dict(k=5)], thorough=[dict(k=12)],
         bounds="arbitrary real first delay >= 0, period > 0 and disposal time, up to k ticks", cost=3, max_steps=20000)
async def interval_times(c, k):
    first, period, stop = c.time("first"), c.time("period"), c.time("stop")
    c.assume(period > 0)
    c.assume(stop <= first + period * k)
    for i in range(k + 1):
        c.assume(stop != first + period * i)
    t0 = c.time("start")
    await c.sleep(t0)
    t0 = c.now()
    out = Rec(c)
    sub = await rx.interval(first, period).subscribe_async(out)
    await c.until(t0 + stop)
    await sub.dispose_async()
    n = len(out.events)
    await c.sleep(period * 3 + first)
    await c.settle()
    c.check(len(out.events) == n, "interval: event after dispose")
    out.expect(list(range(n)), None, what="interval")
    for i, t in enumerate(out.times):
        c.check(c.eq(t, t0 + first + period * i), lambda: f"interval: number {i} at {t}")
    c.check(stop < first + period * n, "interval: a number is missing at the time of disposal")


@harness("C25", quick=[dict(form=f) for f in ("timer", "interval")], bounds="arbitrary real due time >= 0, subscribed at an arbitrary time, two subscriptions")
async def timer_times(c, form):
    due, t0, t1 = c.time("due"), c.time("start"), c.time("again")
    o = rx.timer(due) if form == "timer" else rx.interval(due, 0)
    await c.sleep(t0)
    a, b = Rec(c, "a"), Rec(c, "b")
    ta = c.now()
    await o.subscribe_async(a)
    await c.sleep(t1)
    tb = c.now()
    await o.subscribe_async(b)
    await c.drain()
    for r, t in ((a, ta), (b, tb)):
        r.expect([0], "done", what=form)
        c.check(c.all([c.eq(x, t + due) for x in r.times]), f"{form}: time of {r.name}")


@harness("C25", quick=[dict(form=f) for f in ("timer", "interval")], bounds="arbitrary real due time >= 0 and disposal time (different from it)")
async def timer_dispose(c, form):
    due, stop = c.time("due"), c.time("stop")
    c.assume(due != stop)
    o = rx.timer(due) if form == "timer" else rx.interval(due, 0)
    out = Rec(c)
    sub = await o.subscribe_async(out)
    await c.sleep(stop)
    await sub.dispose_async()
    await c.drain()
    if due < stop:
        out.expect([0], "done", what=form)
    else:
        out.expect([], None, what=form)


@harness("C25", quick=[dict(k=4)], thorough=[dict(k=8)], bounds="two subscriptions to one interval made at arbitrary times, k ticks of the first", cost=3)
async def interval_two(c, k):
    first, period, gap = c.time("first"), c.time("period"), c.time("gap")
    c.assume(period > 0)
    c.assume(gap < first + period * k)
    o = rx.interval(first, period)
    a, b = Rec(c, "a"), Rec(c, "b")
    s = await o.subscribe_async(a)
    await c.sleep(gap)
    t1 = c.now()
    s2 = await o.subscribe_async(b)
    await c.until(first + period * (k - 1) + period / 2)
    await s.dispose_async()
    await s2.dispose_async()
    await c.settle()
    a.expect(list(range(k)), None, what="interval a")
    for i, t in enumerate(a.times):
        c.check(c.eq(t, first + period * i), "interval: times of a")
    for i, (v, t) in enumerate(zip(b.values, b.times)):
        c.check(v == i, "interval: numbers of b")
        c.check(c.eq(t, t1 + first + period * i), "interval: times of b")


@harness("C25", quick=[dict(n=40)], thorough=[dict(n=300)], bounds="n ticks with arbitrary first delay and period > 0", max_steps=60000)
async def interval_deep(c, n):
    first, period = c.time("first"), c.time("period")
    c.assume(period > 0)
    out = Rec(c)
    got = asyncio.get_running_loop().create_future()

    async def on(v):
        if len(out.events) == n and not got.done():
            got.set_result(True)

    out.on_next = on
    sub = await rx.interval(first, period).subscribe_async(out)
    await got
    await sub.dispose_async()
    out.expect(list(range(n)), None, what="interval")
    c.check(c.all([c.eq(t, first + period * i) for i, t in enumerate(out.times)]), "interval: times")


@harness("C25", quick=[dict(form=f, k=3) for f in ("timer", "interval", "interval0")], thorough=[dict(form=f, k=7) for f in ("timer", "interval", "interval0")],
         bounds="arbitrary real due time >= 0 and period > 0; the observer disposes the subscription while it handles a symbolic number, or has another task dispose it while it is still handling the number (for an arbitrary real time)", cost=2)
async def timer_dispose_inside(c, form, k):
    due, period = c.time("due"), c.time("period")
    c.assume(period > 0)
    o = rx.timer(due) if form == "timer" else rx.interval(due, period) if form == "interval" else rx.interval(due, 0)
    at = c.int("at", 0, k - 1) if form == "interval" else 0
    how = c.choice("how", 3)
    out = Rec(c)
    sub = []

    async def on(v):
        if at == v:
            if how == 0:
                await sub[0].dispose_async()
            elif how == 1:
                asyncio.ensure_future(sub[0].dispose_async())
                await c.ticks(2)
            else:
                asyncio.ensure_future(sub[0].dispose_async())
                await c.sleep(c.time("took"))

    out.on_next = on
    sub.append(await o.subscribe_async(out))
    await c.drain()
    n = at.__index__() + 1
    out.expect(list(range(n)), None, what=f"{form} disposed while its observer handles number {n - 1}")
    c.check(c.all([c.eq(t, due + period * i) for i, t in enumerate(out.times)]), f"{form}: times")


@harness("C25", quick=[dict(form=f) for f in ("timer", "interval", "interval0")], bounds="arbitrary real due time >= 0, period > 0; the observer fails at a symbolic number or never; the next subscription to the same observable is not affected", cost=1)
async def timer_again(c, form):
    due, period = c.time("due"), c.time("period")
    c.assume(period > 0)
    o = rx.timer(due) if form == "timer" else rx.interval(due, period) if form == "interval" else rx.interval(due, 0)
    at = c.choice("at", 3)
    a, b = Rec(c, "a"), Rec(c, "b")

    async def on(v):
        if v == at:
            raise Boom()

    a.on_next = on
    sa = await o.subscribe_async(a)
    await c.sleep(due + period * 2)
    await c.settle()
    await sa.dispose_async()
    await c.settle()
    t0 = c.now()
    n = len(a.events)
    sb = await o.subscribe_async(b)
    await c.until(t0 + due + period * 2 + period / 2)
    await sb.dispose_async()
    await c.drain()
    c.check(len(a.events) == n, f"{form}: event after dispose")
    b.expect([0, 1, 2] if form == "interval" else [0], None if form == "interval" else "done", what=f"{form} after an earlier subscription")
    c.check(c.all([c.eq(t, t0 + due + period * i) for i, t in enumerate(b.times)]) if form == "interval" else c.eq(b.times[0], t0 + due), f"{form}: times")


_SAMPLE = "sample(d) with a symbolic d over a source with n values at arbitrary real times that ends, fails or is disposed: Rx grammar, values of the source in order, the error arrives once, silence after the disposal, the source is released and the timer stops"


@harness("C01", quick=[dict(n=2)], thorough=[dict(n=3)], bounds=_SAMPLE)
@harness("C03", quick=[dict(n=2)], thorough=[dict(n=3)], bounds=_SAMPLE)
@harness("C04", quick=[dict(n=2)], thorough=[dict(n=3)], bounds=_SAMPLE)
@harness("C06", quick=[dict(n=2)], thorough=[dict(n=3)], bounds=_SAMPLE)
async def sample_stream(c, n):
    d = c.time("seconds", 2, 4)
    p = Probe(c)
    out = Rec(c)
    sub = await _timeshift.sample(d)(p).subscribe_async(out)
    for j in range(n):
        await c.sleep(c.time("gap", 0, 2))
        await p.asend(j)
    await c.sleep(c.time("gap", 0, 2))
    end = c.choice("end", 3)
    err = Boom("src")
    if end == 0:
        await p.aclose()
    elif end == 1:
        await p.athrow(err)
    else:
        seen = len(out.events)
        await sub.dispose_async()
    await c.drain()
    out.grammar("sample")
    c.check(out.values == sorted(set(out.values)) and all(0 <= v < n for v in out.values), lambda: f"sample: values {out.values!r}")
    if end == 2:
        c.check(len(out.events) == seen, "sample: event after the disposal")
    else:
        c.check(out.kinds()[-1:] == [("done", "error")[end]], lambda: f"sample: ended with {out.kinds()!r}")
        c.check(end == 0 or out.errors == [err], lambda: f"sample: errors {out.errors!r}")
    c.check(p.active == 0, "sample: the source is still subscribed")
