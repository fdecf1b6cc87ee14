"""Long runs: no operator has a limit of its own on the number of events it handles.

Almost everything is fixed here; symbolic are the last value and whether one event fewer is sent.
Counters that wrap, bounded buffers and recursion that grows with the stream show up here.
"""
from __future__ import annotations

from symx.registry import harness

from aioreactive import combine as _combine
from aioreactive import filtering as _filtering
from aioreactive import transform as _transform

from .ops import *  # noqa: F401,F403
from .ops import _a

LONG = dict(max_steps=4000000, path_s=120)
B = "n-1 or n events, the last value arbitrary"


def _n(c, n):
    return n - c.choice("fewer", 2)


async def _feed(c, p, n, settle=False):
    vs = list(range(n - 1)) + [c.value("last")]
    for v in vs:
        await p.asend(v)
        if settle:
            await c.settle()
    await c.settle()
    return vs


def _same(c, a, b):
    return len(a) == len(b) and a[:-1] == b[:-1] and c.eq(a[-1:], b[-1:])


ELEM = {
    "C09": {
        "map": lambda: rx.map(lambda x: x),
        "map_async": lambda: rx.map_async(_a(lambda x: x)),
        "starmap": lambda: lambda s: pipe(s, rx.map(lambda x: (x,)), rx.starmap(lambda x: x)),
    },
    "C10": {
        "filter": lambda: rx.filter(lambda x: True),
        "filter_async": lambda: rx.filter_async(_a(lambda x: True)),
        "starfilter": lambda: lambda s: pipe(s, rx.map(lambda x: (x,)), rx.starfilter(lambda x: True), rx.map(lambda t: t[0])),
        "choose": lambda: rx.choose(lambda x: Some(x)),
        "choose_async": lambda: rx.choose_async(_a(lambda x: Some(x))),
    },
    "C14": {
        "scan": lambda: rx.scan(lambda a, x: x, 0),
        "scan_async": lambda: rx.scan_async(_a(lambda a, x: x), 0),
    },
    "C16": {
        "flat_map": lambda: rx.flat_map(lambda x: rx.single(x)),
        "flat_map_async": lambda: rx.flat_map_async(_a(lambda x: rx.single(x))),
        "merge": lambda: rx.merge(rx.never()),
    },
    "C17": {
        "concat_map": lambda: _transform.concat_map(lambda x: rx.single(x)),
        "concat": lambda: rx.concat(rx.never()),
        "merge_inner(2)": lambda: lambda s: pipe(s, rx.map(lambda x: rx.single(x)), rx.merge_inner(2)),
    },
    "C18": {
        "flat_map_latest": lambda: _transform.flat_map_latest(lambda x: rx.single(x)),
        "flat_map_latest_async": lambda: rx.flat_map_latest_async(_a(lambda x: rx.single(x))),
    },
    "C21": {"take_until": lambda: rx.take_until(rx.never())},
    "C22": {"catch": lambda: rx.catch(lambda e: rx.empty()), "retry": lambda: rx.retry(1)},
}


def _each_long(prop):
    ops = ELEM[prop]

    @harness(prop, name="each_long", quick=[dict(op=o, n=1300) for o in ops], thorough=[dict(op=o, n=8000) for o in ops],
             bounds=B + "; every one is delivered, in order", **LONG)
    async def each_long(c, op, n):
        n = _n(c, n)
        p = Probe(c)
        out = Rec(c)
        await pipe(p, ops[op]()).subscribe_async(out)
        await c.settle()
        vs = await _feed(c, p, n, settle=prop in ("C18", "C17", "C16"))
        c.check(out.terminal is None, lambda: f"{op}: terminated with {out.terminal} {out.errors!r} after {len(out.values)} values")
        c.check(_same(c, out.values, vs), lambda: f"{op}: {len(out.values)} values of {n}, the last {out.values[-2:]!r}")


for _p in ELEM:
    _each_long(_p)


@harness("C11", quick=[dict(op=o, n=1300) for o in ("take", "skip", "take_last", "skip_last")],
         thorough=[dict(op=o, n=6000) for o in ("take", "skip", "take_last", "skip_last")],
         bounds="n-1 or n elements and a count of 0, 1, n/2, n-1, n or more", **LONG)
async def count_long(c, op, n):
    total = _n(c, n)
    k = (0, 1, n // 2, n - 1, n, n + 5)[c.choice("count", 6)]
    p = rx.AsyncSubject()
    out = Rec(c)
    await pipe(p, getattr(rx, op, None)(k) if hasattr(rx, op) else getattr(_filtering, op)(k)).subscribe_async(out)
    if op == "take" and k == 0:
        return
    for i in range(total):
        await p.asend(i)
    await p.aclose()
    await c.settle()
    xs = list(range(total))
    want = {"take": xs[:k], "skip": xs[k:], "take_last": xs[-k:] if k else [], "skip_last": xs[:total - k] if k < total else []}[op]
    c.check(out.values == want and out.terminal == "done" and out.bad == 0, lambda: f"{op}({k}) of {total}: {len(out.values)} values, {out.terminal}")


@harness("C12", quick=[dict(n=700)], thorough=[dict(n=4000)], bounds="n-1 or n elements; start and stop of -n-5, -n/2, -1, absent, 0, 1, n/2, n, n+5, step 1, 2 or n/4", **LONG)
async def slice_long(c, n):
    total = _n(c, n)
    marks = (-n - 5, -(n // 2), -1, None, 0, 1, n // 2, n, n + 5)
    a, b = marks[c.choice("start", len(marks))], marks[c.choice("stop", len(marks))]
    c.assume(b is None or b < 0 or a is None or a >= 0)
    step = (1, 2, n // 4)[c.choice("step", 3)]
    c.assume(b != 0 and (b is None or b < 0 or a is None or b > a))
    p = rx.AsyncSubject()
    out = Rec(c)
    await pipe(p, _filtering.slice(a, b, step)).subscribe_async(out)
    for i in range(total):
        await p.asend(i)
    await p.aclose()
    await c.settle()
    want = list(range(total))[a:b:step]
    c.check(out.values == want and out.terminal == "done" and out.bad == 0, lambda: f"slice({a}, {b}, {step}) of {total}: {len(out.values)} values instead of {len(want)}, {out.terminal}")


@harness("C13", quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds="n-1 or n elements, every third one a repetition", **LONG)
async def distinct_long(c, n):
    n = _n(c, n)
    p = rx.AsyncSubject()
    out = Rec(c)
    await pipe(p, _filtering.distinct_until_changed).subscribe_async(out)
    prev, want = object(), []
    for i in range(n):
        v = (i - 1 if i % 3 == 0 else i) % 300
        if v != prev:
            want.append(v)
        prev = v
        await p.asend(v)
    await c.settle()
    c.check(out.values == want and out.terminal is None, lambda: f"distinct_until_changed: {len(out.values)} values instead of {len(want)}")


@harness("C14", quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds=B, **LONG)
async def fold_long(c, n):
    n = _n(c, n)
    for op, mk in (("scan", rx.scan), ("reduce", rx.reduce)):
        p = rx.AsyncSubject()
        out = Rec(c)
        await pipe(p, mk(lambda a, x: a + x, 0)).subscribe_async(out)
        vs = await _feed(c, p, n)
        await p.aclose()
        await c.settle()
        head = [i * (i + 1) // 2 for i in range(n - 1)]
        want = (head if op == "scan" else []) + [head[-1] + vs[-1]]
        c.check(_same(c, out.values, want) and out.terminal == "done", lambda: f"{op}: {len(out.values)} values")


@harness("C15", quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds=B + "; an infinite sequence and one of n items", **LONG)
async def zip_long(c, n):
    import itertools

    total = _n(c, n)
    for xs in (itertools.count(), range(n)):
        p = rx.AsyncSubject()
        out = Rec(c)
        await pipe(p, _combine.zip_seq(xs)).subscribe_async(out)
        vs = await _feed(c, p, total)
        c.check(len(out.values) == total and [b for _, b in out.values] == list(range(total)) and out.terminal is None, lambda: f"zip_seq: {len(out.values)} pairs of {total}, {out.terminal}")
        c.check(_same(c, [a for a, _ in out.values], vs), "zip_seq: elements")


@harness(["C19", "C20"], quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds=B + " from one source, the other producing every 100th time", **LONG)
async def latest_long(c, n):
    n = _n(c, n)
    for op in ("combine_latest", "with_latest_from"):
        a, b = Probe(c), Probe(c)
        out = Rec(c)
        await pipe(a, getattr(rx, op)(b)).subscribe_async(out)
        want, last = [], None
        for i in range(n):
            v = c.value("last") if i == n - 1 else i
            if i % 100 == 0:
                await b.asend(-i)
                if op == "combine_latest" and last is not None:
                    want.append((last, -i))
                y = -i
            await a.asend(v)
            last = v
            want.append((v, y))
        await c.settle()
        c.check(len(out.values) == len(want) and out.values[:-1] == want[:-1] and c.eq(out.values[-1][0], want[-1][0]) and out.values[-1][1] == want[-1][1],
                lambda: f"{op}: {len(out.values)} tuples instead of {len(want)}")
        c.check(out.terminal is None, f"{op}: terminated")


@harness("C16", quick=[dict(m=300)], thorough=[dict(m=2000)], bounds="m-1 or m sources in merge_seq and as inner sources, each emits and completes, in order or the other way round", **LONG)
async def merge_seq_long(c, m):
    m = _n(c, m)
    back = c.bool("backwards")
    for mk in (lambda ps: rx.merge_seq(ps), lambda ps: pipe(rx.from_iterable(ps), rx.merge_inner())):
        ps = [Probe(c, f"s{i}") for i in range(m)]
        out = Rec(c)
        await mk(ps).subscribe_async(out)
        await c.settle()
        c.check(all(p.active == 1 for p in ps), "merge: not every source is subscribed")
        order = list(reversed(range(m))) if back else list(range(m))
        for i in order:
            await ps[i].asend(i)
            await ps[i].aclose()
        await c.settle()
        out.expect(order, "done", what="merge")


@harness("C17", quick=[dict(m=300)], thorough=[dict(m=2000)], bounds="m-1 or m sources that are ready at once, limit 1, 2, m/2 or m, in concat_seq and merge_inner", **LONG)
async def limit_long(c, m):
    n = _n(c, m)
    lim = (1, 2, m // 2, m)[c.choice("limit", 4)]
    for op, mk in (("concat_seq", lambda xs: rx.concat_seq(xs)), ("merge_inner", lambda xs: pipe(rx.from_iterable(xs), rx.merge_inner(lim)))):
        out = Rec(c)
        await mk([rx.single(i) for i in range(n)]).subscribe_async(out)
        await c.settle()
        c.check(sorted(out.values) == list(range(n)) and (lim > 1 or out.values == list(range(n))), lambda: f"{op}: {len(out.values)} values of {n}")
        c.check(out.terminal == "done" and out.bad == 0, lambda: f"{op}: ended with {out.terminal}")


@harness("C17", quick=[dict(m=m) for m in (2, 3)], thorough=[dict(m=4)], bounds="the same source object up to m+1 times in a sequence, next to another one, in any order: concatenated every time it occurs")
async def concat_repeated(c, m):
    a, b = Feed(c, [("next", 1), ("next", 2), ("done", None)], sync=c.bool("sync")), Feed(c, [("next", 3), ("done", None)], sync=c.bool("sync"))
    xs = [a if c.bool("which") else b for _ in range(m + 1)]
    want = [v for x in xs for v in ((1, 2) if x is a else (3,))]
    for op, mk in (("concat_seq", rx.concat_seq), ("merge_inner(1)", lambda xs: pipe(rx.from_iterable(xs), rx.merge_inner(1))),
                   ("concat", lambda xs: functools.reduce(lambda s, y: rx.concat(y)(s), xs)),
                   ("concat_map", lambda xs: pipe(rx.from_iterable(xs), _transform.concat_map(lambda x: x)))):
        out = Rec(c)
        await mk(list(xs)).subscribe_async(out)
        await c.settle()
        out.expect(want, "done", what=f"{op} of {'ab' if xs[0] is a else 'ba'}-like repetition")


@harness("C16", quick=[dict(m=m) for m in (2, 3)], thorough=[dict(m=4)], bounds="the same source object up to m+1 times among the inner sources: merged every time it occurs")
async def merge_repeated(c, m):
    a, b = Feed(c, [("next", 1), ("next", 2), ("done", None)], sync=c.bool("sync")), Feed(c, [("next", 3), ("done", None)], sync=c.bool("sync"))
    xs = [a if c.bool("which") else b for _ in range(m + 1)]
    want = sorted(v for x in xs for v in ((1, 2) if x is a else (3,)))
    for op, mk in (("merge_seq", rx.merge_seq), ("merge_inner", lambda xs: pipe(rx.from_iterable(xs), rx.merge_inner())),
                   ("merge", lambda xs: functools.reduce(lambda s, y: rx.merge(y)(s), xs)),
                   ("flat_map", lambda xs: pipe(rx.from_iterable(xs), rx.flat_map(lambda x: x)))):
        out = Rec(c)
        await mk(list(xs)).subscribe_async(out)
        await c.settle()
        c.check(sorted(out.values) == want and out.terminal == "done" and out.bad == 0, lambda: f"{op}: {out.events!r}, expected the values {want!r}")


@harness("C18", quick=[dict(m=m) for m in (2, 3)], thorough=[dict(m=5)], bounds="the same hot or cold source object several times among m+1 inner sources: it is given up and subscribed to again every time it comes")
async def switch_repeated(c, m):
    hot = c.bool("hot")
    a, b = (Probe(c, "a"), Probe(c, "b")) if hot else (Feed(c, [("next", 1), ("next", 2)], sync=False), Feed(c, [("next", 3)], sync=False))
    for op, mk in (("switch_latest", lambda s: pipe(s, rx.switch_latest())), ("flat_map_latest", lambda s: _transform.flat_map_latest(lambda x: x)(s))):
        outer, out = Probe(c, "outer"), Rec(c)
        t0 = a.total + b.total
        await mk(outer).subscribe_async(out)
        want = []
        for j in range(m + 1):
            x = a if c.bool("which") else b
            await outer.asend(x)
            await c.settle()
            c.check(a.total + b.total - t0 == j + 1, lambda: f"{op}: {a.total + b.total - t0} subscriptions for {j + 1} inner sources")
            c.check(a.active + b.active == 1 and x.active == 1, lambda: f"{op}: {a.active + b.active} inner sources are subscribed")
            if hot:
                await x.asend(j)
                await c.settle()
                want.append(j)
            else:
                want += [1, 2] if x is a else [3]
            out.expect(want, None, what=op)
        for s in (a, b):
            if hot:
                for e in s.subs:
                    e[1] = False
            else:
                s.active = 0


@harness("C18", quick=[dict(m=600)], thorough=[dict(m=4000)], bounds="m-1 or m inner sources in turn, the latest emits, so does the one before it and the one 256 before it", **LONG)
async def switch_long(c, m):
    m = _n(c, m)
    outer = Probe(c, "outer")
    out = Rec(c)
    await pipe(outer, rx.switch_latest()).subscribe_async(out)
    ps = []
    for i in range(m):
        ps.append(Probe(c, f"s{i}"))
        await outer.asend(ps[-1])
        await c.settle()
        await ps[-1].asend(i)
        for late in (i - 1, i - 256):
            if late >= 0:
                for o, _ in ps[late].subs:  # an event that was under way when the subscription was given up
                    await o.asend(("late", i))
    await c.settle()
    c.check(out.values == list(range(m)) and out.terminal is None, lambda: f"switch_latest: {len(out.values)} values of {m}, {out.terminal}")
    c.check(sum(p.active for p in ps) == 1, "switch_latest: superseded sources are still subscribed")


@harness("C22", quick=[dict(n=150)], thorough=[dict(n=240)], bounds="retry(r) for r = n-1 or n over a source that always fails, in a task", **LONG)
async def retry_long(c, n):
    r = _n(c, n)
    errs = [Boom(str(i)) for i in range(n + 1)]
    total = [0]

    class Src(AsyncObservable):
        async def subscribe_async(self, obv, *a):
            i = total[0]
            total[0] += 1

            async def play():
                await obv.asend(i)
                await obv.athrow(errs[i])

            asyncio.ensure_future(play())
            return AsyncDisposable.empty()

    out = Rec(c)
    await pipe(Src(), rx.retry(r)).subscribe_async(out)
    await c.settle()
    c.check(total[0] == r + 1, lambda: f"retry({r}): subscribed {total[0]} times")
    out.expect(list(range(r + 1)), "error", errs[r], f"retry({r})")


@harness("C23", quick=[dict(n=600)], thorough=[dict(n=3000)], bounds="n-1 or n values one second apart or at once, a delay of 0, 1.5 or 5 seconds", **LONG)
async def delay_long(c, n):
    n = _n(c, n)
    d = (0, 1.5, 5)[c.choice("delay", 3)]
    gap = c.bool("spaced")
    p = Probe(c)
    out = Rec(c)
    await pipe(p, rx.delay(d)).subscribe_async(out)
    for i in range(n):
        await p.asend(i)
        if gap:
            await c.sleep(1)
    await p.aclose()
    await c.drain()
    out.expect(list(range(n)), "done", what="delay")
    c.check(all(c.eq(t, i * int(gap) + d) for i, t in enumerate(out.times[:n])), "delay: times")


@harness("C24", quick=[dict(n=1300)], thorough=[dict(n=3000)], bounds="n-1 or n values one second apart with a longer pause after every third, window arbitrary in 0..3", **LONG)
async def debounce_long(c, n):
    n = _n(c, n)
    d = c.time("window", 0, 3)
    for x in (1, 2, 3):
        c.assume(d != x)
    p = Probe(c)
    out = Rec(c)
    await pipe(p, rx.debounce(d)).subscribe_async(out)
    short = bool(d < 1)
    want = [i for i in range(n) if short or i % 3 == 2 or i == n - 1]
    for i in range(n):
        await p.asend(i)
        await c.sleep(4 if i % 3 == 2 else 1)
    await c.drain()
    out.expect(want, None, what="debounce")


@harness("C25", quick=[dict(n=1300)], thorough=[dict(n=5000)], bounds="n ticks of one second after a first delay of 0 or half a second", **LONG)
async def interval_long(c, n):
    first = (0, 0.5)[c.choice("first", 2)]
    out = Rec(c)
    sub = await rx.interval(first, 1).subscribe_async(out)
    await c.sleep(n + 0.25)
    await sub.dispose_async()
    await c.settle()
    c.check(len(out.values) >= n and out.values == list(range(len(out.values))) and out.terminal is None, lambda: f"interval: {len(out.values)} values, the last {out.values[-2:]!r}")


@harness("C26", quick=[dict(n=3000)], thorough=[dict(n=20000)], bounds="an iterable of n-1 or n items, subscribed to twice", **LONG)
async def iterable_long(c, n):
    n = _n(c, n)
    src = rx.from_iterable(range(n))
    for _ in range(2):
        out = Rec(c)
        await src.subscribe_async(out)
        await c.settle()
        c.check(out.values == list(range(n)) and out.terminal == "done" and out.bad == 0, lambda: f"from_iterable: {len(out.values)} items of {n}, {out.terminal}")


@harness("C27", quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds="an async iterable of n-1 or n items, every seventh step taking a turn", **LONG)
async def async_iterable_long(c, n):
    n = _n(c, n)

    async def gen():
        for i in range(n):
            if i % 7 == 0:
                await asyncio.sleep(0)
            yield i

    from aioreactive.iterable.to_async_observable import to_async_observable

    for mk in (rx.from_async_iterable, to_async_observable):
        out = Rec(c)
        await mk(gen()).subscribe_async(out)
        await c.settle()
        c.check(out.values == list(range(n)) and out.terminal == "done" and out.bad == 0, lambda: f"{mk.__name__}: {len(out.values)} items of {n}, {out.terminal} {out.errors!r}")


@harness(["C28", "C29"], quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds=B + " through a subject, and waiting for the first observer of a single-observer subject", **LONG)
async def subject_long(c, n):
    n = _n(c, n)
    for S in (rx.AsyncSubject, AsyncSingleSubject):
        s = S()
        out = Rec(c)
        if S is AsyncSingleSubject:
            ts = [asyncio.ensure_future(s.asend(-i)) for i in range(n)]
            await c.settle()
        await s.subscribe_async(out)
        await c.settle()
        early = [-i for i in range(n)] if S is AsyncSingleSubject else []
        vs = await _feed(c, s, n)
        c.check(_same(c, out.values, early + vs) and out.terminal is None, lambda: f"{S.__name__}: {len(out.values)} values of {len(early) + n}")


@harness("C30", quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds=B + ", iterated", **LONG)
async def iterate_long(c, n):
    n = _n(c, n)
    got, outcome = [], []
    s = AsyncSingleSubject()

    async def consume():
        async for x in rx.to_async_iterable(s):
            got.append(x)
        outcome.append("done")

    asyncio.ensure_future(consume())
    await c.settle()
    vs = await _feed(c, s, n)
    t = asyncio.ensure_future(s.aclose())
    await c.settle()
    c.check(_same(c, got, vs) and outcome == ["done"] and t.done(), lambda: f"iteration: {len(got)} values of {n}, {outcome!r}")


@harness("C31", quick=[dict(n=1300)], thorough=[dict(n=8000)], bounds=B, **LONG)
async def run_long(c, n):
    n = _n(c, n)
    s = AsyncSingleSubject()
    t = asyncio.ensure_future(rx.run(s))
    await c.settle()
    vs = await _feed(c, s, n)
    await s.aclose()
    await c.settle()
    c.check(t.done() and c.eq(t.result(), vs[-1]), "run: not the last value")
