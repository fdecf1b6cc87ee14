"""C33: chained methods against piped functions, driven by the same events."""
from __future__ import annotations

from symx.registry import harness

from aioreactive import filtering as _filtering

from .ops import *  # noqa: F401,F403


def _opt(f, p):
    return lambda x: Some(f(x)) if p(x) else Nothing


class A:
    """Symbolic arguments shared by both styles."""

    def __init__(self, c):
        self.c = c
        self.f, self.p = c.func("f"), c.pred("p")
        self.g, self.p2 = c.func("g", 2), c.pred("q", 2)


def cnt(c, hi=3):
    return c.choice("count", hi + 1)


# name: (sources, timed, argument, method style, pipe style)
PAIRS = {
    "choose": (1, lambda c, a: _opt(a.f, a.p), lambda x, s, k: x.choose(k), lambda s, k: rx.choose(k)(s[0])),
    "choose_async": (1, lambda c, a: aio(_opt(a.f, a.p)), lambda x, s, k: x.choose_async(k), lambda s, k: rx.choose_async(k)(s[0])),
    "combine_latest": (2, None, lambda x, s, k: x.combine_latest(s[1]), lambda s, k: rx.combine_latest(s[1])(s[0])),
    "concat": (2, None, lambda x, s, k: x.concat(s[1]), lambda s, k: rx.concat(s[1])(s[0])),
    "debounce": (-1, "time", lambda x, s, k: x.debounce(k), lambda s, k: rx.debounce(k)(s[0])),
    "delay": (-1, "time", lambda x, s, k: x.delay(k), lambda s, k: rx.delay(k)(s[0])),
    "distinct_until_changed": (1, None, lambda x, s, k: x.distinct_until_changed(), lambda s, k: rx.distinct_until_changed(s[0])),
    "filter": (1, lambda c, a: a.p, lambda x, s, k: x.filter(k), lambda s, k: rx.filter(k)(s[0])),
    "filteri": (1, lambda c, a: a.p2, lambda x, s, k: x.filteri(k), lambda s, k: rx.filteri(k)(s[0])),
    "filter_async": (1, lambda c, a: aio(a.p), lambda x, s, k: x.filter_async(k), lambda s, k: rx.filter_async(k)(s[0])),
    "flat_map": (1, lambda c, a: lambda v: rx.single(a.f(v)), lambda x, s, k: x.flat_map(k), lambda s, k: rx.flat_map(k)(s[0])),
    "flat_map_pair": (2, lambda c, a: None, lambda x, s, k: x.flat_map(lambda v: s[1]), lambda s, k: rx.flat_map(lambda v: s[1])(s[0])),
    "flat_map_async": (2, None, lambda x, s, k: x.flat_map_async(aio(lambda v: s[1])), lambda s, k: rx.flat_map_async(aio(lambda v: s[1]))(s[0])),
    "flat_map_latest_async": (2, None, lambda x, s, k: x.flat_map_latest_async(aio(lambda v: s[1])), lambda s, k: rx.flat_map_latest_async(aio(lambda v: s[1]))(s[0])),
    "map": (1, lambda c, a: a.f, lambda x, s, k: x.map(k), lambda s, k: rx.map(k)(s[0])),
    "merge": (2, None, lambda x, s, k: x.merge(s[1]), lambda s, k: rx.merge(s[1])(s[0])),
    "reduce": (1, lambda c, a: a.g, lambda x, s, k: x.reduce(k, 5), lambda s, k: rx.reduce(k, 5)(s[0])),
    "reduce_async": (1, lambda c, a: aio(a.g), lambda x, s, k: x.reduce_async(k, 5), lambda s, k: rx.reduce_async(k, 5)(s[0])),
    "skip": (1, lambda c, a: cnt(c), lambda x, s, k: x.skip(k), lambda s, k: rx.skip(k)(s[0])),
    "skip_last": (1, lambda c, a: cnt(c), lambda x, s, k: x.skip_last(k), lambda s, k: rx.skip_last(k)(s[0])),
    "starfilter": (1, lambda c, a: a.p2, lambda x, s, k: x.map(lambda v: (v, 1)).starfilter(k), lambda s, k: pipe(s[0], rx.map(lambda v: (v, 1)), rx.starfilter(k))),
    "starmap": (1, lambda c, a: a.g, lambda x, s, k: x.map(lambda v: (v, 1)).starmap(k), lambda s, k: pipe(s[0], rx.map(lambda v: (v, 1)), rx.starmap(k))),
    "take": (1, lambda c, a: cnt(c), lambda x, s, k: x.take(k), lambda s, k: rx.take(k)(s[0])),
    "take_last": (1, lambda c, a: cnt(c), lambda x, s, k: x.take_last(k), lambda s, k: rx.take_last(k)(s[0])),
    "take_until": (2, None, lambda x, s, k: x.take_until(s[1]), lambda s, k: rx.take_until(s[1])(s[0])),
    "with_latest_from": (2, None, lambda x, s, k: x.with_latest_from(s[1]), lambda s, k: rx.with_latest_from(s[1])(s[0])),
    "getitem": (1, lambda c, a: [(None, 2), (1, None), (1, 3), (None, -1), (-2, None), (1, -1), (0, -1, 2), (None, None, 2), (0, 4, 3)][c.choice("slice", 9)],
                lambda x, s, k: x[k[0]:k[1]] if len(k) == 2 else x[k[0]:k[1]:k[2]],
                lambda s, k: _filtering.slice(k[0], k[1], k[2] if len(k) > 2 and k[2] else 1)(s[0])),
    "getitem_int": (1, lambda c, a: c.choice("index", 4), lambda x, s, k: x[k], lambda s, k: _filtering.slice(k, k + 1, 1)(s[0])),
    "as_async_observable": (1, None, lambda x, s, k: x.as_async_observable(), lambda s, k: rx.as_async_observable(s[0])),
    "identity": (1, None, lambda x, s, k: x, lambda s, k: s[0]),
    "as_chained": (1, None, lambda x, s, k: rx.as_chained(s[0]).map(lambda v: v), lambda s, k: s[0]),
    "create": (1, None, lambda x, s, k: rx.AsyncRx.create(s[0]), lambda s, k: s[0]),
}


def same(c, name, a, b, times=False):
    a.grammar(name)
    b.grammar(name)
    c.check(a.kinds() == b.kinds(), lambda: f"{name}: method gives {a.events!r}, function gives {b.events!r}")
    c.check(c.eq(a.values, b.values), lambda: f"{name}: method gives {a.values!r}, function gives {b.values!r}")
    c.check(len(a.errors) == len(b.errors) and all(x is y for x, y in zip(a.errors, b.errors)), f"{name}: different errors")
    if times:
        c.check(c.eq(a.times, b.times), lambda: f"{name}: method at {a.times!r}, function at {b.times!r}")


ONE = [n for n, x in PAIRS.items() if x[0] == 1]
TWO = [n for n, x in PAIRS.items() if x[0] == 2]
TIMED = [n for n, x in PAIRS.items() if x[0] == -1]


@harness("C33", quick=[dict(op=o, k=4) for o in ONE] + [dict(op=o, k=4) for o in TWO] + [dict(op=o, k=2) for o in TIMED],
         thorough=[dict(op=o, k=6) for o in ONE] + [dict(op=o, k=5) for o in TWO] + [dict(op=o, k=3) for o in TIMED],
         bounds="k steps, each an arbitrary value, an error or a close of either source; arbitrary callbacks and predicates, counts 0..3, arbitrary real times; with a subscriber given as an observer or as functions")
async def chain_vs_pipe(c, op, k):
    ns, arg, method, func = PAIRS[op]
    timed = ns < 0
    ns = abs(ns)
    a = A(c)
    key = c.time("seconds", 0, 10) if arg == "time" else arg(c, a) if arg is not None else None
    left, right = [Probe(c, f"l{i}") for i in range(ns)], [Probe(c, f"r{i}") for i in range(ns)]
    ol, orr = Rec(c, "method"), Rec(c, "function")
    x = method(rx.AsyncRx(left[0]), left, key)
    y = func(right, key)
    if c.bool("functions"):
        await x.subscribe_async(ol.asend, ol.athrow, ol.aclose)
    else:
        await x.subscribe_async(ol)
    await y.subscribe_async(orr)
    await c.settle()
    for j in range(k):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        i = c.choice("src", ns) if ns > 1 else 0
        if timed:
            await c.sleep(c.time("gap", 0, 10))
        v = c.value("v") if kind == "next" else Boom(str(j)) if kind == "error" else None
        await give(left[i], kind, v)
        await give(right[i], kind, v)
        await c.settle()
        same(c, op, ol, orr, timed)
        c.check([p.active for p in left] == [p.active for p in right], f"{op}: the sources are subscribed differently")
        if kind != "next" and ns == 1:
            break
    if timed:
        await c.drain()
    same(c, op, ol, orr, timed)


@harness("C33", quick=[dict(op=o, n=12) for o in ("take", "skip", "take_last", "skip_last", "getitem_int", "getitem")],
         thorough=[dict(op=o, n=40) for o in ("take", "skip", "take_last", "skip_last", "getitem_int", "getitem")],
         bounds="a stream of n values; symbolic counts and indices 0..n+1 / slices in -n..n", max_steps=30000)
async def chain_counts(c, op, n):
    if op == "getitem":
        st = (None, 0, 1, n - 1, n, -1, -n)[c.choice("start", 7)]
        sp = (None, 0, 1, n - 1, n, -1, -n)[c.choice("stop", 7)]
        key = (st, sp, (None, 1, 2, n)[c.choice("step", 4)])
    else:
        key = c.int("count", 0, n + 1)
    _, _, method, func = PAIRS[op]
    left, right = Probe(c), Probe(c)
    ol, orr = Rec(c, "method"), Rec(c, "function")
    await method(rx.AsyncRx(left), [left], key).subscribe_async(ol)
    await func([right], key).subscribe_async(orr)
    for i in range(n):
        await left.asend(i)
        await right.asend(i)
    await c.settle()
    same(c, op, ol, orr)
    await left.aclose()
    await right.aclose()
    await c.settle()
    same(c, op, ol, orr)


@harness("C33", quick=[dict(n=3)], thorough=[dict(n=6)], bounds="creation functions as class methods and as functions: arbitrary values and lengths 0..n, failing iterables, odd values by identity")
async def chain_create(c, n):
    form = c.choice("form", 6)
    k = c.choice("n", n + 1)
    fails = c.bool("fails")
    vs = seq(c, k)
    e = Boom()
    sp = special_values()

    def it():
        yield from vs
        if fails:
            raise e

    async def ait():
        for v in vs:
            yield v
        if fails:
            raise e

    if form == 0:
        x, y = rx.AsyncRx.empty(), rx.empty()
    elif form == 1:
        v = sp[c.choice("v", len(sp))]
        x, y = rx.AsyncRx.single(v), rx.single(v)
    elif form == 2:
        x, y = rx.AsyncRx.from_iterable(list(vs)), rx.from_iterable(list(vs))
    elif form == 3:
        x, y = rx.AsyncRx.from_iterable(it()), rx.from_iterable(it())
    elif form == 4:
        x, y = rx.AsyncRx.from_async_iterable(ait()), rx.from_async_iterable(ait())
    else:
        x, y = rx.AsyncRx.create(rx.from_iterable(list(vs))), rx.from_iterable(list(vs))
    c.check(isinstance(x, rx.AsyncRx), "creation as a class method does not give a chained observable")
    a, b = Rec(c, "method"), Rec(c, "function")
    await x.subscribe_async(a)
    await rx.subscribe_async(b)(y)
    await c.drain()
    same(c, f"create {form}", a, b)
    c.check(a.terminal is not None, "creation: the stream does not end")
    if form == 1:
        c.check(len(a.values) == 1 and a.values[0] is v and b.values[0] is v, "single: not the same object")


@harness("C33", quick=[{}], bounds="chains of two methods against the same two functions piped, symbolic counts and callbacks, three arbitrary values", cost=2)
async def chain_of_two(c):
    names = ["map", "filter", "take", "skip", "skip_last", "take_last", "distinct_until_changed", "reduce", "choose", "filteri"]
    a = A(c)
    n1, n2 = names[c.choice("first", len(names))], names[c.choice("second", len(names))]
    k1 = PAIRS[n1][1](c, a) if PAIRS[n1][1] else None
    k2 = PAIRS[n2][1](c, a) if PAIRS[n2][1] else None
    vs = [1, 2, 2]
    left, right = Probe(c), Probe(c)
    x = PAIRS[n2][2](PAIRS[n1][2](rx.AsyncRx(left), [left], k1), None, k2)
    y = PAIRS[n2][3]([PAIRS[n1][3]([right], k1)], k2)
    ol, orr = Rec(c, "method"), Rec(c, "function")
    await x.subscribe_async(ol)
    await y.subscribe_async(orr)
    for v in vs:
        await left.asend(v)
        await right.asend(v)
    await c.settle()
    same(c, f"{n1}.{n2}", ol, orr)
    await left.aclose()
    await right.aclose()
    await c.settle()
    same(c, f"{n1}.{n2}", ol, orr)


@harness("C33", quick=[dict(n=3)], thorough=[dict(n=6)], bounds="iteration as a method and as a function over 0..n arbitrary values and a close or an error")
async def chain_iterate(c, n):
    k = c.choice("n", n + 1)
    fails = c.bool("fails")
    e = Boom()
    vs = seq(c, k)
    res = []

    async def consume(it):
        got = []
        res.append(got)
        try:
            async for x in it:
                got.append(("next", x))
            got.append(("done", None))
        except Boom as ex:
            got.append(("error", ex))

    ps = [Probe(c), Probe(c)]
    asyncio.ensure_future(consume(rx.AsyncRx(ps[0]).to_async_iterable()))
    asyncio.ensure_future(consume(rx.to_async_iterable(ps[1])))
    await c.settle()
    for p in ps:
        for v in vs:
            await c.finishes("send", p.asend(v))
        await c.finishes("end", give(p, "error" if fails else "done", e))
    await c.settle()
    want = [("next", v) for v in vs] + [("error", e) if fails else ("done", None)]
    for got in res:
        c.check(len(got) == len(want) and c.all([x[0] == y[0] and (x[1] is y[1] or c.eq(x[1], y[1])) for x, y in zip(got, want)]), lambda: f"iteration: {got!r} instead of {want!r}")


@harness("C33", quick=[dict(op=o) for o in PAIRS if abs(PAIRS[o][0]) == 1], bounds="elements such as None, 0, False, '', exceptions through both styles, by identity where elements pass through")
async def chain_special(c, op):
    sp = special_values()
    v = sp[c.choice("v", len(sp))]
    ns, arg, method, func = PAIRS[op]
    a = type("X", (), {})()
    a.f, a.p, a.g, a.p2 = (lambda x: x), (lambda x: True), (lambda x, y: x), (lambda x, y: True)
    key = 1 if arg == "time" else arg(c, a) if arg is not None else None
    left, right = Probe(c), Probe(c)
    ol, orr = Rec(c, "method"), Rec(c, "function")
    await method(rx.AsyncRx(left), [left], key).subscribe_async(ol)
    await func([right], key).subscribe_async(orr)
    for x in (left, right):
        await x.asend(v)
        await x.asend(7)
    await c.sleep(2)
    for x in (left, right):
        await x.asend(v)
        await x.aclose()
    await c.drain()
    c.check(ol.kinds() == orr.kinds() and all(x is y or (type(x) is tuple and x[0] is y[0]) or (type(x) is type(y) and x == y) for x, y in zip(ol.values, orr.values)), lambda: f"{op}: {ol.events!r} against {orr.events!r}")
