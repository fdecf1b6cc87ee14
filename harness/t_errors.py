"""C06 error propagation, C07 exceptions of user callbacks, C08 back-pressure."""
from __future__ import annotations

from symx.registry import harness

from aioreactive import combine as _combine
from aioreactive import create as _create
from aioreactive import filtering as _filtering
from aioreactive import timeshift as _timeshift
from aioreactive import transform as _transform
from expression.system import ObjectDisposedException
from aioreactive.testing import AsyncTestSubject

from .ops import *  # noqa: F401,F403
from .t_dispose import Source, released
from .t_grammar import Fuse, quietly

# ---------------------------------------------------------------- C06
PASSING = [n for n in NAMES if n not in ("catch", "retry")]
PASSING_ALL = PASSING + [n for n in EXTRA if not n.startswith("retry")]
FLAT = {"flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async", "concat_map"}
# an error of the outer stream may overtake inner streams that have not produced yet; debounce drops
# a value that is followed by the end
LOOSE = FLAT | {"debounce", "debounce0"}


async def prefix(c, srcs, plan, loose):
    """Plays the events; pauses after each but the last `loose` ones."""
    for j, (i, kind, v) in enumerate(plan):
        await give(srcs[i], kind, v)
        if j < len(plan) - loose:
            await c.settle()


def tapped(xs, log):
    """The same stream; notes how it ended."""

    async def subscribe(obv):
        async def throw(e):
            log.append("error")
            await obv.athrow(e)

        async def close():
            log.append("done")
            await obv.aclose()

        return await xs.subscribe_async(rx.AsyncAnonymousObserver(obv.asend, throw, close))

    return _create.create(subscribe)


def same_until(c, want, out, err, live, exact, what):
    """`want` saw the events without the error, `out` with it."""
    out.grammar(what)
    if want.terminal is not None and exact:
        out.expect(want.values, want.terminal, want.errors[0] if want.errors else None, what)
        return
    if not exact:
        n = len(out.values)
        c.check(n <= len(want.values), lambda: f"{what}: got {out.values!r}, owed {want.values!r}")
        if want.terminal is not None and out.terminal == want.terminal:
            return
        c.check(c.eq(out.values, want.values[:n]), lambda: f"{what}: got {out.values!r}, owed {want.values!r}")
    else:
        c.check(c.eq(out.values, want.values), lambda: f"{what}: got {out.values!r} before the error, owed {want.values!r}")
    if live:
        c.check(len(out.errors) == 1 and out.errors[0] is err and out.terminal == "error",
                lambda: f"{what}: a source failed, but the observer got {out.kinds()!r} {out.errors!r}")
    else:
        c.check(out.terminal is None, lambda: f"{what}: terminated with {out.terminal} for a source that is not subscribed")


@harness("C06", quick=[dict(op=o, k=4 if TABLE[o].n == 1 else 3) for o in PASSING_ALL],
         thorough=[dict(op=o, k=6 if TABLE[o].n == 1 else 5) for o in PASSING_ALL],
         bounds="every operator except catch and retry; every sequence of up to k values and completions of its sources, then an error of any live source; the last 0..2 events still queued when the error comes; the expected values are those of the same run without the error", cost=3)
async def error_position(c, op, k):
    o = table()[op]
    n = c.choice("n", k + 1)
    ended = [False] * o.n
    plan = []
    for j in range(n):
        open_ = [i for i in range(o.n) if not ended[i]]
        if o.n == 1:
            i, kind = 0, "next"
        else:
            i = open_[c.choice("src", len(open_))] if len(open_) > 1 else open_[0]
            kind = ("next", "done")[c.choice("kind", 2)] if len(open_) > 1 else "next"
        ended[i] = ended[i] or kind == "done"
        plan.append((i, kind, c.value("v") if kind == "next" else None))
    open_ = [i for i in range(o.n) if not ended[i]]
    who = open_[c.choice("who", len(open_))] if len(open_) > 1 else open_[0]
    loose = c.choice("loose", 3)
    err = Boom("source")
    runs = []
    for fails in (False, True):
        srcs = [Source(c, f"s{i}") for i in range(o.n)]
        out = Rec(c)
        await o.build(srcs, lambda x, *r: x).subscribe_async(out)
        await c.settle()
        await prefix(c, srcs, plan, loose)
        live = srcs[who].active > 0
        if fails:
            await srcs[who].athrow(err)
        await c.drain()
        runs.append((out, live))
    (want, _), (out, live) = runs
    same_until(c, want, out, err, live, op not in LOOSE, op)
    if op in FLAT and loose == 0:
        c.check(c.eq(out.values, want.values), lambda: f"{op}: got {out.values!r} before the error, owed {want.values!r}")


@harness("C06", quick=[dict(first=o, k=2) for o in PASSING], thorough=[dict(first=o, k=3) for o in PASSING],
         bounds="every pair of operators; up to k values on the sources of the first one, all queued, then an error of one of them", cost=4)
async def error_pair(c, first, k):
    a = table()[first]
    second = PASSING[c.choice("second", len(PASSING))]
    n = c.choice("n", k + 1)
    plan = [(c.choice("src", a.n) if a.n > 1 else 0, "next", c.value("v")) for _ in range(n)]
    who = c.choice("who", a.n) if a.n > 1 else 0
    if a.inner:
        who = 0
    err = Boom("source")
    runs = []
    for fails in (False, True):
        t = table()
        srcs = [Source(c, f"s{i}") for i in range(a.n)]
        other = Source(c, "other")
        out = Rec(c)
        x = t[first].build(srcs, lambda v, *r: v)
        tap = []
        await t[second].build([tapped(x, tap), other], lambda v, *r: v).subscribe_async(out)
        await c.settle()
        if second == "with_latest_from" or second == "combine_latest":
            await other.asend(0)
            await c.settle()
        await prefix(c, srcs, plan, 99)
        if fails:
            await srcs[who].athrow(err)
        await c.drain()
        runs.append(out)
    want, out = runs
    if "done" in tap:  # the first operator was through before the error came
        err = None
    same_until(c, want, out, err, err is not None, first not in LOOSE and second not in LOOSE, f"{first} then {second}")


@harness("C06", quick=[dict(op=o) for o in PASSING_ALL], bounds="every operator; an error of each exception type (13 types, also the library's own) from each initially live source, before or after a value", cost=1)
async def error_types(c, op):
    o = table()[op]
    kinds = error_kinds()
    err = kinds[c.choice("type", len(kinds))]
    srcs = [Source(c, f"s{i}") for i in range(o.n)]
    out = Rec(c)
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    await c.settle()
    if op != "take1" and c.bool("value"):  # which would be through with it
        await srcs[0].asend(1)
        if c.bool("settle"):
            await c.settle()
    live = [s for s in srcs if s.active]
    await live[c.choice("who", len(live))].athrow(err)
    await c.drain()
    out.grammar(op)
    c.check(out.terminal == "error" and out.errors[0] is err, lambda: f"{op}: {err!r} arrived as {out.kinds()!r} {out.errors!r}")


@harness("C06", quick=[dict(op=o) for o in PASSING], thorough=[dict(op=o, k=4) for o in PASSING],
         bounds="every operator over a subject of each kind, a failing iterable, async iterable, awaitable, deferred source and a source that fails while it is being subscribed; up to k values before the failure", cost=2)
async def error_created(c, op, k=2):
    o = table()[op]
    err = Boom("source")
    n = c.choice("n", k + 1)

    def it():
        yield from range(n)
        raise err

    async def ait():
        for i in range(n):
            yield i
        raise err

    async def work():
        raise err

    form = c.choice("form", 8)
    if form in (2, 3) and n:
        return
    s0 = None
    if form == 0:
        s0 = rx.from_iterable(it())
    elif form == 1:
        s0 = rx.from_async_iterable(ait())
    elif form == 2:
        s0 = rx.from_async(work())
    elif form == 3:
        def factory():
            raise err

        s0 = rx.defer(factory)
    elif form == 4:
        s0 = Feed(c, [("next", j) for j in range(n)] + [("error", err)], sync=True)
    elif form == 5:
        s0 = Feed(c, [("next", j) for j in range(n)] + [("error", err)], sync=False)
    elif form == 6:
        s0 = rx.AsyncSubject()
    else:
        s0 = rx.AsyncSingleSubject()
    srcs = [s0] + [Source(c, "other") for _ in range(o.n - 1)]
    out = Rec(c)
    await o.build(srcs, lambda x, *r: x).subscribe_async(out)
    if form >= 6:
        await c.settle()
        for j in range(n):
            await s0.asend(j)
        await s0.athrow(err)
    await c.drain()
    out.grammar(op)
    if op == "take" and n >= 2 or op == "zip_seq" and n > 3:
        c.check(out.terminal == "done", lambda: f"{op}: {out.kinds()!r}")
        return
    c.check(out.terminal == "error" and out.errors[0] is err, lambda: f"{op}: the source failed, but the observer got {out.kinds()!r} {out.errors!r}")
    if o.n == 1 and o.same and op not in LOOSE:
        vals = list(range(n))
        want = {"take": vals[:2], "skip": vals[1:], "skip_last": vals[:-1], "take_last": [], "reduce": [], "reduce_async": [],
                "slice": vals[:-1][::2]}.get(op, vals)
        c.check(out.values == want, lambda: f"{op}: {out.values!r} before the error, owed {want!r}")


@harness("C06", quick=[dict(op=o) for o in PASSING], bounds="every operator with two subscriptions to the same subject: an error reaches both observers", cost=1)
async def error_shared(c, op):
    o = table()[op]
    err = Boom("source")
    srcs = [rx.AsyncSubject()] + [Source(c, "other") for _ in range(o.n - 1)]
    xs = o.build(srcs, lambda x, *r: x)
    outs = [Rec(c, "a"), Rec(c, "b")]
    for out in outs:
        await xs.subscribe_async(out)
    await c.settle()
    n = c.choice("n", 2)
    for j in range(n):
        await srcs[0].asend(j)
    await srcs[0].athrow(err)
    await c.drain()
    for out in outs:
        out.grammar(op)
        c.check(out.terminal == "error" and out.errors[0] is err, lambda: f"{op}: {out.name} got {out.kinds()!r}")


# ---------------------------------------------------------------- C07
def callbacks():
    """op name -> build(source, f): operators with a callback seeing every element, output = the element."""
    T, F = _transform, _filtering
    t = {n: (lambda s, f, n=n: table()[n].build([s], f)) for n in CALLBACK if TABLE[n].n == 1}

    def a(f):
        async def g(*x):
            await asyncio.sleep(0)
            return f(*x)

        return g

    t["starfilter"] = lambda s, f: pipe(s, rx.map(lambda x: (x, 1)), F.starfilter(lambda x, y: (f(x), True)[1]), rx.map(lambda p: p[0]))
    t["reduce_async"] = lambda s, f: rx.reduce_async(a(lambda acc, x: f(x)), 0)(s)
    t["map_async_slow"] = lambda s, f: rx.map_async(a(f))(s)
    t["filter_async_slow"] = lambda s, f: rx.filter_async(a(lambda x: (f(x), True)[1]))(s)
    t["choose_async_slow"] = lambda s, f: rx.choose_async(a(lambda x: Some(f(x))))(s)
    t["scan_async_slow"] = lambda s, f: rx.scan_async(a(lambda acc, x: f(x)), 0)(s)
    t["mapi_async_slow"] = lambda s, f: rx.mapi_async(a(lambda x, i: f(x)))(s)
    t["flat_map_async_slow"] = lambda s, f: rx.flat_map_async(a(lambda x: rx.single(f(x))))(s)
    t["zip_seq"] = lambda s, f: pipe(s, _combine.zip_seq(_items(f)), rx.map(lambda p: p[0]))
    return t


def _items(f):
    def g():
        while True:
            yield f(0)
    return g()


CB = list(callbacks())
CB_FLAT = {n for n in CB if "flat" in n or n == "concat_map"}
FORMS = ["subject", "single", "test_subject", "queued", "probe", "iterable", "async_iterable", "interval", "delay", "debounce", "merge"]


@harness("C07", quick=[dict(op=o, n=3) for o in CB], thorough=[dict(op=o, n=5) for o in CB],
         bounds="every operator with a callback; the callback raises at a symbolic element 0..n (n: never); over every kind of subject, a queueing pipeline, iterables, async iterables, interval, delay, debounce and merge; elements queued or settled", cost=3)
async def callback_raises(c, op, n):
    form = FORMS[c.choice("source", len(FORMS))]
    at = c.int("at", 0, n)
    kinds = [Boom("callback"), ValueError("v"), KeyError("k"), RuntimeError("r")]
    err = kinds[c.choice("type", len(kinds))] if form in ("subject", "queued", "interval") else kinds[0]
    fuse = Fuse(at, err)
    vals = [c.value("v") for _ in range(n)] if form not in ("interval",) else list(range(n))
    s = src = None
    paced = form in ("interval", "debounce")
    closes = True
    if form == "subject":
        s = src = rx.AsyncSubject()
    elif form == "single":
        s = src = rx.AsyncSingleSubject()
    elif form == "test_subject":
        s = src = AsyncTestSubject()
    elif form == "queued":
        s = rx.AsyncSubject()
        src = rx.skip(0)(s)
    elif form == "probe":
        s = src = Source(c)
    elif form == "iterable":
        src = rx.from_iterable(list(vals))
    elif form == "async_iterable":
        async def ait():
            for v in vals:
                yield v

        src = rx.from_async_iterable(ait())
    elif form == "interval":
        src = rx.interval(1, 1)
        closes = False
    elif form == "delay":
        s = rx.AsyncSubject()
        src = rx.delay(1)(s)
    elif form == "debounce":
        s = rx.AsyncSubject()
        src = _timeshift.debounce(1)(s)
    else:
        s = rx.AsyncSubject()
        src = rx.merge(rx.never())(s)
        closes = False
    out = Rec(c)
    sub = await callbacks()[op](src, fuse).subscribe_async(out)
    raised = []
    if form == "merge":  # merge subscribes to its sources in a task of its own
        await c.settle()
    settle = c.bool("settle") if s is not None and not paced else False
    if s is not None:
        for v in vals:
            try:
                await s.asend(v)
            except Exception as ex:
                if form == "single" and isinstance(ex, ObjectDisposedException) and fuse.calls > at:
                    closes = False  # the failed pipeline has disposed the subject
                    break
                c.check(ex is err, lambda: f"{op} over {form}: {ex!r} raised to the producer")
                raised.append(ex)
            if paced:
                await c.sleep(2)
            elif settle:
                await c.settle()
        if c.bool("close") and not (form == "single" and fuse.calls > at):
            await s.aclose()
        else:
            closes = False
    if form == "interval":
        await c.sleep(n + 0.5)
        await c.settle()
        if out.terminal is None:
            await sub.dispose_async()
    await c.drain()
    out.grammar(op)
    c.check(len(raised) + len(out.errors) <= 1, lambda: f"{op} over {form}: the exception was reported {len(raised)} + {len(out.errors)} times")
    buffered = op in ("reduce", "reduce_async")
    what = f"{op} over {form}"
    if at == n:
        if buffered:
            want = vals[-1:] if closes else []
        else:
            want = vals
        out.expect(want, "done" if closes else None, what=what)
        return
    i = int(at)
    c.check(bool(raised) or out.terminal == "error", f"{what}: the exception of the callback was swallowed ({out.kinds()!r})")
    if out.terminal == "error":
        c.check(out.errors[0] is err, lambda: f"{what}: the observer got {out.errors!r}")
        before = [] if buffered else vals[:i]
        if op in CB_FLAT and (form == "delay" or not settle) and not paced:
            m = len(out.values)  # the error may overtake inner streams that have not produced yet
            c.check(m <= i and c.eq(out.values, before[:m]), lambda: f"{what}: {out.values!r} before the error, not {before!r}")
        else:
            c.check(c.eq(out.values, before), lambda: f"{what}: {out.values!r} before the error, not {before!r}")
    else:  # raised to the producer, who went on
        out.expect(vals[:i] + vals[i + 1:], "done" if closes else None, what=what)


KIND_FORMS = ["subject", "queued", "iterable", "async_iterable", "single", "merge", "delay"]


@harness("C07", quick=[dict(op=o) for o in CB], bounds="every operator with a callback; the callback raises an exception of each type (24 types, also StopAsyncIteration and the library's own) at element 0 or 1 of 3, over a subject, a queueing pipeline, iterables, a single value, merge and delay", cost=2)
async def callback_kinds(c, op):
    form = KIND_FORMS[c.choice("source", len(KIND_FORMS))]
    er = error_kinds() + [StopIteration("callback")]
    err = er[c.choice("type", len(er))]
    at = c.choice("at", 2) if form != "single" else 0
    fuse = Fuse(at, err)
    await kinds_run(c, op, form, lambda src: callbacks()[op](src, fuse), err, op in CB_FLAT)


def _same_error(got, err):
    """Python itself turns a StopIteration that leaves a coroutine into a RuntimeError caused by it."""
    return got is err or (isinstance(err, StopIteration) and isinstance(got, RuntimeError) and err in (got.__cause__, got.__context__))


async def kinds_run(c, op, form, build, err, loose):
    """One run whose callback raises err: it is raised to the producer or the observer gets it."""
    s = None
    if form in ("subject", "queued", "delay", "merge"):
        s = rx.AsyncSubject()
        src = {"subject": lambda x: x, "queued": rx.skip(0), "delay": rx.delay(1), "merge": rx.merge(rx.never())}[form](s)
    elif form == "iterable":
        src = rx.from_iterable([5, 6, 7])
    elif form == "async_iterable":
        async def ait():
            for v in (5, 6, 7):
                yield v

        src = rx.from_async_iterable(ait())
    else:
        src = rx.single(5)
    out = Rec(c)
    raised = []
    await build(src).subscribe_async(out)
    await c.settle()
    if s is not None:
        for v in (5, 6, 7):
            try:
                await s.asend(v)
            except Exception as ex:
                raised.append(ex)
            if not loose:
                continue
            await c.settle()
    await c.drain()
    what = f"{op} over {form}"
    out.grammar(what)
    c.check(len(raised) + len(out.errors) == 1 and _same_error((raised + out.errors)[0], err), lambda: f"{what}: {err!r} was raised by the callback; the producer got {raised!r}, the observer {out.errors!r}")


SHARED = ("map", "filter", "choose", "scan", "map_async", "observer")


@harness("C07", quick=[dict(op=o, k=3, n=2) for o in SHARED], thorough=[dict(op=o, k=5, n=3) for o in SHARED],
         bounds="a subject (plain or for tests) with 1..k observers; the callback of a symbolic one's pipeline, or the observer itself, raises at a symbolic element 0..n (n: never)", cost=1)
async def callback_shared(c, op, k, n):
    s = (rx.AsyncSubject, AsyncTestSubject)[c.choice("subject", 2)]()
    m = 1 + c.choice("observers", k)
    who, at = c.choice("who", m), c.int("at", 0, n)
    err = Boom("callback")
    fuse = Fuse(at, err)
    outs = []
    for i in range(m):
        if i == who and op == "observer":
            outs.append(Rec(c, f"out{i}", on_next=_later(fuse)))
            await s.subscribe_async(outs[i])
        else:
            outs.append(Rec(c, f"out{i}"))
            await (callbacks()[op](s, fuse) if i == who else s).subscribe_async(outs[i])
    vals = [c.value("v") for _ in range(n)]
    raised = []
    for i, v in enumerate(vals):
        try:
            await s.asend(v)
            c.check(not (at == i) or op != "observer", lambda: f"{op}: the exception of observer {who} of {m} was not raised to the producer")
        except Boom as ex:
            c.check(ex is err and bool(at == i), lambda: f"{op}: {ex!r} raised to the producer by the wrong send")
            raised.append(ex)
    await s.aclose()
    await c.settle()
    bad = outs[who]
    for i, o in enumerate(outs):
        o.grammar(op)
        if i < who:
            o.expect(vals, "done", what=f"{op}: observer {i} before the failing one")
        elif i > who:
            c.check(o.kinds()[-1:] == ["done"] and len(o.values) >= n - len(raised), lambda: f"{op}: observer {i} after the failing one got {o.events!r}")
    c.check(at == n or (len(raised) + len(bad.errors) == 1 and (raised + bad.errors)[0] is err), lambda: f"{op}: the exception was reported {len(raised)} + {len(bad.errors)} times")


LATEST = {
    "flat_map_latest": lambda s, f: _transform.flat_map_latest(lambda x: rx.single(f(x)))(s),
    "flat_map_latest_async": lambda s, f: _transform.flat_map_latest_async(_later(lambda x: rx.single(f(x))))(s),
    "catch": lambda s, f: rx.catch(lambda ex: _create.fail(f(0)))(pipe(s, rx.flat_map(lambda x: _create.fail(Boom("source"))))),
}


def _later(f):
    async def g(x):
        await asyncio.sleep(0)
        return f(x)

    return g


@harness("C07", quick=[dict(op=o) for o in LATEST if o != "catch"], bounds="flat_map_latest and its async variant: the mapper raises an exception of each type (24 types) at element 0 or 1 of 3, over a subject, a queueing pipeline, iterables, a single value, merge and delay", cost=1)
@harness("C18", quick=[dict(op=o) for o in LATEST if o != "catch"], bounds="flat_map_latest and its async variant: the mapper raises an exception of each type (24 types) at element 0 or 1 of 3, over a subject, a queueing pipeline, iterables, a single value, merge and delay", cost=1)
@harness("C22", quick=[dict(op="catch")], bounds="the handler of catch raises an exception of each type (24 types), over a subject, a queueing pipeline, iterables, a single value, merge and delay", cost=1)
async def latest_kinds(c, op):
    form = KIND_FORMS[c.choice("source", len(KIND_FORMS))]
    er = error_kinds() + [StopIteration("callback")]
    err = er[c.choice("type", len(er))]
    at = c.choice("at", 2) if form != "single" and op != "catch" else 0
    fuse = Fuse(at, err)
    await kinds_run(c, op, form, lambda src: LATEST[op](src, fuse), err, True)


_KINDS = {"C09": ("map", "map_async", "starmap", "starmap_async"), "C10": ("filter", "filter_async", "starfilter", "choose", "choose_async"),
          "C15": ("mapi", "mapi_async", "filteri", "flat_mapi", "flat_mapi_async", "zip_seq"), "C16": ("flat_map", "flat_map_async"), "C17": ("concat_map",)}
for _p, _ns in _KINDS.items():
    harness(_p, quick=[dict(op=o) for o in _ns if o in CB], bounds="the callback raises an exception of each type (24 types) at element 0 or 1 of 3, over a subject, a queueing pipeline, iterables, a single value, merge and delay: never swallowed")(callback_kinds)


QUEUES = [o for o in ALL if TABLE[o].serial and TABLE[o].n == 1 and not TABLE[o].buffered and o not in ("take0", "debounce", "debounce0") and not o.startswith(("take", "slice"))]


@harness("C07", quick=[dict(op=o) for o in QUEUES], bounds="a callback after every operator that queues its events; it raises an exception of each type (24 types) for the first or second event it gets; over a subject or an iterable", cost=1)
async def callback_after(c, op):
    er = error_kinds()
    err = er[c.choice("type", len(er))]
    second = CB[c.choice("second", len(CB))]
    fuse = Fuse(c.choice("at", 2) if op in ("mapi", "filteri", "skip0", "distinct", "merge", "flat_map") else 0, err)
    form = ("subject", "iterable")[c.choice("source", 2)]
    await kinds_run(c, f"{op} then {second}", form, lambda src: callbacks()[second](table()[op].build([src], lambda x, *r: x), fuse), err, op in FLAT or second in CB_FLAT)


INNER = ["switch_map", "switch_map_async", "merge_map", "merge_map_1"]


@harness("C07", quick=[dict(op=o, n=3) for o in INNER], thorough=[dict(op=o, n=5) for o in INNER],
         bounds="inner-observable factories that raise at a symbolic outer element; inner values in between", cost=1)
async def factory_raises(c, op, n):
    err = Boom("factory")
    at = c.int("at", 0, n)
    fuse = Fuse(at, err)
    outer, inner = rx.AsyncSubject(), Source(c, "inner")
    src = rx.skip(0)(outer) if c.bool("queued") else outer
    out = Rec(c)
    await table()[op].build([src, inner], fuse).subscribe_async(out)
    raised = None
    want, subs = [], 0
    for j in range(n):
        try:
            await outer.asend(j)
        except Boom as ex:
            c.check(ex is err, f"{op}: another exception")
            raised = j
        else:
            subs += 1
        await c.settle()
        if at == j:
            c.check(raised == j or out.errors == [err], lambda: f"{op}: the exception of the factory was swallowed")
        if out.terminal is None:
            live = subs if op == "merge_map" else min(subs, 1)
            w = c.value("w")
            await inner.asend(w)
            want += [w] * live
            await c.settle()
    out.grammar(op)
    c.check(c.eq(out.values, want), lambda: f"{op}: {out.values!r} instead of {want!r}")


class Refusing(AsyncObservable):
    """A source that cannot be subscribed to: it raises at once or after some turns."""

    def __init__(self, c, err, turns):
        self.c, self.err, self.turns = c, err, turns

    async def subscribe_async(self, send=None, throw=None, close=None):
        await self.c.ticks(self.turns)
        raise self.err


REFUSED = {
    "merge_inner": lambda s, at: rx.merge_inner()(s),
    "merge_inner(1)": lambda s, at: rx.merge_inner(1)(s),
    "merge_inner(2)": lambda s, at: rx.merge_inner(2)(s),
    "flat_map": lambda s, at: rx.flat_map(lambda x: x)(s),
    "flat_mapi": lambda s, at: rx.flat_mapi(lambda x, i: x)(s),
    "flat_map_async": lambda s, at: rx.flat_map_async(aio(lambda x: x))(s),
    "concat_map": lambda s, at: _transform.concat_map(lambda x: x)(s),
    "switch_latest": lambda s, at: _transform.switch_latest(s),
    "flat_map_latest": lambda s, at: _transform.flat_map_latest(lambda x: x)(s),
    "flat_map_latest_async": lambda s, at: rx.flat_map_latest_async(aio(lambda x: x))(s),
}
_REFUSED = "0..n inner sources that emit and may complete, then one that raises when it is subscribed to (any kind of exception, after 0..1 turns; or a disposed subject), then one more; settled in between or not: the exception reaches the observer once, after the values before it, and every source is released"


@harness("C04", quick=[dict(op=o, n=2) for o in REFUSED], thorough=[dict(op=o, n=4) for o in REFUSED], bounds=_REFUSED)
@harness("C07", quick=[dict(op=o, n=2) for o in REFUSED], thorough=[dict(op=o, n=4) for o in REFUSED], bounds=_REFUSED)
async def inner_refused(c, op, n):
    er = error_kinds()
    k = c.choice("n", n + 1)
    form = c.choice("form", 3)
    err = er[c.choice("kind", len(er))] if k == 0 else er[k]
    if form == 2:
        bad = rx.AsyncSubject()
        await bad.dispose_async()
    else:
        bad = Refusing(c, err, form)
    settle = c.bool("settle")
    outer = Source(c, "outer")
    ins = [Source(c, f"s{i}") for i in range(k)]
    last = Source(c, "last")
    ends = [c.bool("ends") for _ in range(k)]
    out = Rec(c)
    await REFUSED[op](outer, None).subscribe_async(out)
    want = []
    for i, s in enumerate(ins):
        await c.calm("send", outer.asend(s))
        await c.settle()
        if s.active:
            await s.asend(i)
            want.append(i)
            if ends[i]:
                await s.aclose()
            await c.settle()
    await c.calm("send", outer.asend(bad))
    if settle:
        await c.settle()
    await c.calm("send", outer.asend(last))
    await c.settle()
    for s in ins:  # let the ones it has to wait for come to their end
        if not s.ended and s.active and op in ("merge_inner(1)", "merge_inner(2)", "concat_map"):
            await s.aclose()
            await c.settle()
    n0 = len(out.events)
    await last.asend(99)
    for s in ins:
        await s.asend(98)
    await c.settle()
    out.grammar(op)
    c.check(out.values == want, lambda: f"{op}: {out.values!r} instead of {want!r}")
    c.check(len(out.errors) == 1 and (form == 2 or out.errors[0] is err), lambda: f"{op}: {out.kinds()!r}, the exception of subscribing to an inner source is lost")
    c.check(len(out.events) == n0, f"{op}: event after the error")
    released(c, [outer, last, *ins], op)


@harness("C07", quick=[dict(first=o) for o in CB], thorough=[dict(first=o, n=3) for o in CB],
         bounds="pairs of operators with callbacks over a subject or an iterable; either callback raises at a symbolic element", cost=3)
async def callback_pair(c, first, n=2):
    second = CB[c.choice("second", len(CB))]
    err = Boom("callback")
    at = c.int("at", 0, n - 1)
    which = c.choice("which", 2)
    f1, f2 = Fuse(at if which == 0 else -1, err), Fuse(at if which == 1 else -1, err)
    vals = [c.value("v") for _ in range(n)]
    queued = c.bool("queued")
    s = rx.AsyncSubject()
    src = rx.from_iterable(list(vals)) if queued else s
    out = Rec(c)
    t = callbacks()
    await t[second](t[first](src, f1), f2).subscribe_async(out)
    raised = []
    if not queued:
        for v in vals:
            try:
                await s.asend(v)
            except Boom as ex:
                raised.append(ex)
        await s.aclose()
    await c.drain()
    what = f"{first} then {second}"
    out.grammar(what)
    buffers = sum(x in ("reduce", "reduce_async") for x in (first, second))
    if buffers and (f1 if which == 0 else f2).calls <= int(at):
        return  # the callback that raises was not called that often
    c.check(bool(raised) or out.terminal == "error", f"{what}: the exception of the callback was swallowed ({out.kinds()!r})")
    if out.terminal == "error":
        c.check(out.errors[0] is err, lambda: f"{what}: the observer got {out.errors!r}")
        m = len(out.values)
        before = vals[:int(at)] if not buffers else []
        exact = first not in CB_FLAT and second not in CB_FLAT
        c.check((m == len(before) if exact else m <= len(before)) and c.eq(out.values, before[:m]), lambda: f"{what}: {out.values!r} before the error, not {before!r}")


@harness("C07", quick=[dict()], bounds="the handler of catch raises; over a subject, a queueing source and a source that fails while being subscribed", cost=1)
async def handler_raises(c):
    err, first = Boom("handler"), Boom("source")
    calls = []

    def handler(e):
        calls.append(e)
        raise err

    n = c.choice("n", 3)
    vals = [c.value("v") for _ in range(n)]
    form = c.choice("form", 4)
    s = rx.AsyncSubject()
    ev = [("next", v) for v in vals] + [("error", first)]
    src = [s, rx.skip(0)(s), Feed(c, ev, sync=True), Feed(c, ev, sync=False)][form]
    out = Rec(c)
    raised = []

    async def run(coro):
        try:
            await coro
        except Exception as ex:
            raised.append(ex)

    await run(rx.catch(handler)(src).subscribe_async(out))
    if form < 2:
        for v in vals:
            await run(s.asend(v))
        await run(s.athrow(first))
    await c.drain()
    c.check(calls == [first], lambda: f"catch: handler called with {calls!r}")
    out.grammar("catch")
    c.check(c.eq(out.values, vals), "catch: values")
    c.check(out.errors == [err] or raised == [err], lambda: f"catch: the exception of the handler was swallowed: {out.errors!r} {raised!r}")


# ---------------------------------------------------------------- C08
def directs():
    """name -> build(source, f, af): element-wise operators; the output is the element."""
    T, F = _transform, _filtering
    some = lambda g: lambda x: Some(g(x))  # noqa: E731

    def asome(af):
        async def g(x):
            return Some(await af(x))

        return g

    def acond(af):
        async def g(x, *r):
            await af(x)
            return True

        return g

    def acc(af):
        async def g(a, x):
            return await af(x)

        return g

    return {
        "map": lambda s, f, af: rx.map(f)(s),
        "map_async": lambda s, f, af: rx.map_async(af)(s),
        "starmap": lambda s, f, af: pipe(s, rx.map(lambda x: (x,)), rx.starmap(f)),
        "starmap_async": lambda s, f, af: pipe(s, rx.map(lambda x: (x,)), T.starmap_async(af)),
        "filter": lambda s, f, af: rx.filter(lambda x: (f(x), True)[1])(s),
        "filter_async": lambda s, f, af: rx.filter_async(acond(af))(s),
        "starfilter": lambda s, f, af: pipe(s, rx.map(lambda x: (x,)), F.starfilter(lambda x: (f(x), True)[1]), rx.map(lambda t: t[0])),
        "choose": lambda s, f, af: rx.choose(some(f))(s),
        "choose_async": lambda s, f, af: rx.choose_async(asome(af))(s),
        "scan": lambda s, f, af: rx.scan(lambda a, x: f(x), 0)(s),
        "scan_async": lambda s, f, af: rx.scan_async(acc(af), 0)(s),
    }


DIR = list(directs())
SUBJ = [lambda: rx.AsyncSubject(), lambda: rx.AsyncSingleSubject(), lambda: AsyncTestSubject()]


class Slow:
    """An observer whose calls take a while; counts what it has finished."""

    def __init__(self, c, wait):
        self.c, self.wait = c, wait
        self.started, self.finished = [], []

    async def asend(self, v):
        self.started.append(v)
        await self.wait()
        self.finished.append(v)

    async def athrow(self, e):
        self.started.append("error")
        await self.wait()
        self.finished.append("error")

    async def aclose(self):
        self.started.append("done")
        await self.wait()
        self.finished.append("done")

    def subscribe(self, xs):
        return xs.subscribe_async(self.asend, self.athrow, self.aclose)


def finished(c, outs, vals, end, what):
    want = vals + end
    for o in outs:
        c.check(len(o.finished) == len(want) and c.eq(o.finished, want),
                lambda: f"{what}: the call returned when the observer had finished {o.finished!r} of {want!r}")


@harness("C08", quick=[dict(first=o, n=2) for o in DIR] + [dict(first=None, n=3)],
         thorough=[dict(first=o, n=4) for o in DIR] + [dict(first=None, n=5)],
         bounds="subjects, element-wise operators and pairs of them; the observer takes 0..3 loop turns per event, the async callbacks 0..1; one or two observers; n values, then an error or completion; after each awaited call everything reached has finished", cost=2)
async def pressure_turns(c, first, n):
    t = directs()
    second = ([None] + DIR)[c.choice("second", len(DIR) + 1)] if first else None
    kind = c.choice("subject", 3)
    s = SUBJ[kind]()
    work, cb = c.choice("observer", 4), c.choice("callback", 2) if first else 0
    two = kind != 1 and c.bool("two")

    async def af(x):
        await c.ticks(cb)
        return x

    f = lambda x: x  # noqa: E731
    xs = s
    for name in (first, second):
        if name:
            xs = t[name](xs, f, af)
    outs = [Slow(c, lambda: c.ticks(work)) for _ in range(2 if two else 1)]
    for o in outs:
        await o.subscribe(xs)
    what = f"{first} {second}"
    vals = []
    for _ in range(n):
        v = c.value("v")
        await s.asend(v)
        vals.append(v)
        finished(c, outs, vals, [], what)
    end = c.choice("end", 2)
    if end == 0:
        await s.athrow(Boom())
        finished(c, outs, vals, ["error"], what)
    else:
        await s.aclose()
        finished(c, outs, vals, ["done"], what)


@harness("C08", quick=[dict(first=o, n=2) for o in DIR] + [dict(first=None, n=3)],
         thorough=[dict(first=o, n=3) for o in DIR] + [dict(first=None, n=5)],
         bounds="the same with real durations of every observer call and async callback: the awaited call returns exactly when the last observer has finished", cost=2)
async def pressure_time(c, first, n):
    t = directs()
    second = ([None] + DIR)[c.choice("second", len(DIR) + 1)] if first else None
    kind = c.choice("subject", 3)
    s = SUBJ[kind]()
    two = kind != 1 and c.bool("two")
    durations = [c.time("took", 0) for _ in range(2)]
    cbd = c.time("callback", 0) if first else 0

    async def af(x):
        await c.sleep(cbd)
        return x

    f = lambda x: x  # noqa: E731
    xs = s
    for name in (first, second):
        if name:
            xs = t[name](xs, f, af)
    outs = []
    ends = []
    for i in range(2 if two else 1):
        async def wait(i=i):
            await c.sleep(durations[i])
            ends.append(c.now())

        o = Slow(c, wait)
        outs.append(o)
        await o.subscribe(xs)
    what = f"{first} {second}"
    vals = []
    for j in range(n):
        v = c.value("v")
        before = len(ends)
        t0 = c.now()
        await s.asend(v)
        vals.append(v)
        finished(c, outs, vals, [], what)
        c.check(len(ends) == before + len(outs), f"{what}: observers not finished")
        total = durations[0] + (durations[1] if two else 0)
        if first and second is None and first.endswith("_async"):
            total = total + cbd * len(outs)
            c.check(c.eq(c.now() - t0, total), f"{what}: the send took another time than callback and observers together")
        elif not (first and first.endswith("_async")) and not (second and second.endswith("_async")):
            c.check(c.eq(c.now() - t0, total), f"{what}: the send took another time than the observers together")


@harness("C08", quick=[dict(first=o) for o in DIR], thorough=[dict(first=o, n=4) for o in DIR],
         bounds="a subject with several subscriptions through different element-wise operators, each observer taking its own number of turns; values dropped by a filter return at once without losing the wait for the others", cost=2)
async def pressure_fan(c, first, n=2):
    t = directs()
    p = c.pred("keep")
    s = rx.AsyncSubject()
    works = [c.choice("observer", 3) for _ in range(3)]
    second = DIR[c.choice("second", len(DIR))]

    async def af(x):
        await c.ticks(1)
        return x

    outs = [Slow(c, lambda w=w: c.ticks(w)) for w in works]
    ident = lambda x: x  # noqa: E731
    await outs[0].subscribe(rx.filter(p)(s))
    await outs[1].subscribe(t[first](s, ident, af))
    await outs[2].subscribe(t[second](s, ident, af))
    vals, kept = [], []
    for _ in range(n):
        v = c.value("v")
        await s.asend(v)
        vals.append(v)
        if p(v):
            kept.append(v)
        finished(c, outs[:1], kept, [], "filter")
        finished(c, outs[1:], vals, [], f"{first} and {second}")


@harness("C08", quick=[dict(n=3)], thorough=[dict(n=5)],
         bounds="a producer that waits for an observer of a single-observer subject (and one after it), through an element-wise operator: its send still returns only after the slow observer has finished", cost=1)
async def pressure_waiting(c, n):
    s = rx.AsyncSingleSubject()
    work = c.choice("observer", 4)
    op = DIR[c.choice("op", len(DIR))]
    out = Slow(c, lambda: c.ticks(work))
    returned = []

    async def produce(v):
        await s.asend(v)
        c.check(v in out.finished, f"{op}: the send of {v} returned before the observer had finished it")
        returned.append(v)

    for j in range(n):
        asyncio.ensure_future(produce(j))
        if c.bool("turn"):
            await c.ticks(1)

    async def af(x):
        await c.ticks(1)
        return x

    await out.subscribe(directs()[op](s, lambda x: x, af))
    await c.drain()
    c.check(sorted(returned) == list(range(n)), lambda: f"{op}: only {returned!r} returned")
