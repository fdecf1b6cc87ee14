"""The functional properties (C09-C24) in other circumstances than one quick observer of one hot source.

Differential: the same operator, built again over its own probes, gets the same events one at a
time and everything settles in between; what it must deliver then is decided by the other
harnesses of the property.  Here the circumstances change: slow or re-entrant observers,
producers that do not wait, sources that emit while they are subscribed to, several
subscriptions.
"""
from __future__ import annotations

from symx.registry import harness

from .ops import *  # noqa: F401,F403
from .ops import _a, _combine, _filtering, _timeshift, _transform
from .t_dispose import MANY, OPVALS, STATEFUL, independent, independent_long, independent_values
from .t_errors import error_types


class Args:
    """Arbitrary callbacks, the same for both sides."""

    def __init__(self, c):
        self.f, self.p = c.func("f"), c.pred("p")
        self.g, self.q = c.func("g", 2), c.pred("q", 2)

    def opt(self, x):
        return Some(self.f(x)) if self.p(x) else Nothing


# name: (property, number of sources, build(sources, Args))
RICH = {
    "map": ("C09", 1, lambda s, a: rx.map(a.f)(s[0])),
    "map_async": ("C09", 1, lambda s, a: rx.map_async(_a(a.f))(s[0])),
    "starmap": ("C09", 1, lambda s, a: pipe(s[0], rx.map(lambda x: (x, x)), rx.starmap(a.g))),
    "starmap_async": ("C09", 1, lambda s, a: pipe(s[0], rx.map(lambda x: (x, x)), _transform.starmap_async(_a(a.g)))),
    "filter": ("C10", 1, lambda s, a: rx.filter(a.p)(s[0])),
    "filter_async": ("C10", 1, lambda s, a: rx.filter_async(_a(a.p))(s[0])),
    "starfilter": ("C10", 1, lambda s, a: pipe(s[0], rx.map(lambda x: (x, x)), rx.starfilter(a.q))),
    "choose": ("C10", 1, lambda s, a: rx.choose(a.opt)(s[0])),
    "choose_async": ("C10", 1, lambda s, a: rx.choose_async(_a(a.opt))(s[0])),
    "take0": ("C11", 1, lambda s, a: rx.take(0)(s[0])),
    "take1": ("C11", 1, lambda s, a: rx.take(1)(s[0])),
    "take2": ("C11", 1, lambda s, a: rx.take(2)(s[0])),
    "skip1": ("C11", 1, lambda s, a: rx.skip(1)(s[0])),
    "take_last2": ("C11", 1, lambda s, a: rx.take_last(2)(s[0])),
    "skip_last1": ("C11", 1, lambda s, a: rx.skip_last(1)(s[0])),
    "slice02": ("C12", 1, lambda s, a: _filtering.slice(0, -1, 2)(s[0])),
    "slice12": ("C12", 1, lambda s, a: _filtering.slice(1, 3, 1)(s[0])),
    "slice_1": ("C12", 1, lambda s, a: _filtering.slice(-2, None, 1)(s[0])),
    "distinct": ("C13", 1, lambda s, a: _filtering.distinct_until_changed(s[0])),
    "scan": ("C14", 1, lambda s, a: rx.scan(a.g, 0)(s[0])),
    "scan_async": ("C14", 1, lambda s, a: rx.scan_async(_a(a.g), 0)(s[0])),
    "reduce": ("C14", 1, lambda s, a: rx.reduce(a.g, 0)(s[0])),
    "reduce_async": ("C14", 1, lambda s, a: rx.reduce_async(_a(a.g), 0)(s[0])),
    "mapi": ("C15", 1, lambda s, a: rx.mapi(a.g)(s[0])),
    "mapi_async": ("C15", 1, lambda s, a: rx.mapi_async(_a(a.g))(s[0])),
    "filteri": ("C15", 1, lambda s, a: rx.filteri(a.q)(s[0])),
    "zip_seq": ("C15", 1, lambda s, a: _combine.zip_seq([7, 8, 9])(s[0])),
    "flat_mapi": ("C15", 1, lambda s, a: rx.flat_mapi(lambda x, i: rx.single(a.g(x, i)))(s[0])),
    "flat_mapi_async": ("C15", 1, lambda s, a: _transform.flat_mapi_async(_a(lambda x, i: rx.single(a.g(x, i))))(s[0])),
    "flat_map": ("C16", 1, lambda s, a: rx.flat_map(lambda x: rx.single(a.f(x)))(s[0])),
    "flat_map_async": ("C16", 1, lambda s, a: rx.flat_map_async(_a(lambda x: rx.single(a.f(x))))(s[0])),
    "merge": ("C16", 2, lambda s, a: rx.merge(s[1])(s[0])),
    "merge_seq": ("C16", 2, lambda s, a: rx.merge_seq([s[0], s[1]])),
    "merge_map": ("C16", 2, lambda s, a: pipe(s[0], rx.map(lambda x: s[1]), rx.merge_inner())),
    "merge_map_1": ("C17", 2, lambda s, a: pipe(s[0], rx.map(lambda x: s[1]), rx.merge_inner(1))),
    "merge_map_2": ("C17", 2, lambda s, a: pipe(s[0], rx.map(lambda x: s[1]), rx.merge_inner(2))),
    "concat": ("C17", 2, lambda s, a: rx.concat(s[1])(s[0])),
    "concat_seq": ("C17", 2, lambda s, a: rx.concat_seq([s[0], s[1]])),
    "concat_map": ("C17", 1, lambda s, a: _transform.concat_map(lambda x: rx.from_iterable([x, a.f(x)]))(s[0])),
    "switch_map": ("C18", 2, lambda s, a: _transform.flat_map_latest(lambda x: s[1])(s[0])),
    "switch_map_async": ("C18", 2, lambda s, a: _transform.flat_map_latest_async(_a(lambda x: s[1]))(s[0])),
    "combine_latest": ("C19", 2, lambda s, a: rx.combine_latest(s[1])(s[0])),
    "with_latest_from": ("C20", 2, lambda s, a: rx.with_latest_from(s[1])(s[0])),
    "take_until": ("C21", 2, lambda s, a: rx.take_until(s[1])(s[0])),
    "catch": ("C22", 2, lambda s, a: rx.catch(lambda e: s[1])(s[0])),
    "catch_single": ("C22", 1, lambda s, a: rx.catch(lambda e: rx.from_iterable([8, 9]))(s[0])),
    "retry1": ("C22", 1, lambda s, a: rx.retry(1)(s[0])),
    "retry3": ("C22", 1, lambda s, a: rx.retry(3)(s[0])),
}
INNER = {"merge_map", "merge_map_1", "merge_map_2", "concat", "concat_seq", "switch_map", "switch_map_async", "catch"}
FLAT = {n for n in RICH if n.startswith(("flat_map", "concat_map"))}
PROP_OPS = {}
for _n, _r in RICH.items():
    PROP_OPS.setdefault(_r[0], []).append(_n)


def registered(**kw):
    """Register a harness for every property, with the configurations of its operators."""

    def deco(fn):
        for p, names in PROP_OPS.items():
            mk = kw["configs"]
            quick = [x for n in names for x in mk(n, False)]
            deep = [x for n in names for x in mk(n, True)]
            if quick:
                harness(p, quick=quick, thorough=deep, bounds=kw["bounds"], cost=kw.get("cost", 1))(fn)
        return fn

    return deco


async def quiet(x):
    try:
        await x
    except Boom:
        pass


def match(c, what, a, b):
    a.grammar(what)
    c.check(a.kinds() == b.kinds(), lambda: f"{what}: {a.events!r}, but {b.events!r} for the same events one at a time")
    c.check(c.eq(a.values, b.values), lambda: f"{what}: {a.values!r}, but {b.values!r} for the same events one at a time")
    c.check(len(a.errors) == len(b.errors) and all(x is y for x, y in zip(a.errors, b.errors)), f"{what}: errors differ")


KINDS = ("next", "done", "error")


def kinds_of(op):
    # an error of the outer source may overtake inner streams that are still under way
    return KINDS[:2] if op in FLAT else KINDS


def script(c, n, k, what=KINDS):
    """k events (source, kind, value); a source is silent after its terminal event."""
    out, opened = [], list(range(n))
    for j in range(k):
        if not opened:
            break
        opts = [(i, e) for i in opened for e in what]
        i, kind = opts[c.choice("event", len(opts))]
        if kind != "next":
            opened.remove(i)
        out.append((i, kind, c.value("v") if kind == "next" else Boom(f"s{i}") if kind == "error" else None))
    return out


@registered(configs=lambda n, deep: [dict(op=n, k=(4 if RICH[n][1] == 1 else 4) + deep, mode=m) for m in ("await", "burst") if not (m == "burst" and n in INNER)],
            bounds="an observer that takes 0..2 loop turns or a second for each event; every sequence of k events, the producers wait for each event or do not", cost=2)
async def ctx_slow(c, op, k, mode):
    _, n, build = RICH[op]
    a = Args(c)
    quick_, slow = [Probe(c, f"q{i}") for i in range(n)], [Probe(c, f"s{i}") for i in range(n)]
    pace = c.choice("pace", 4)

    async def take(kind, v):
        if pace == 3:
            await c.sleep(1)
        else:
            await c.ticks(pace)

    ref, out = Rec(c, "ref"), Rec(c, on_any=take)
    await build(quick_, a).subscribe_async(ref)
    await build(slow, a).subscribe_async(out)
    await c.settle()
    ev = script(c, n, k, kinds_of(op) if mode == "burst" else KINDS)
    for i, kind, v in ev:
        await give(quick_[i], kind, v)
        await c.settle()
        if mode == "await":
            await give(slow[i], kind, v)
            await c.drain()
    if mode == "burst":
        for i, kind, v in ev:
            asyncio.ensure_future(give(slow[i], kind, v))
    await c.drain()
    match(c, f"{op} with a slow observer", out, ref)


@registered(configs=lambda n, deep: [dict(op=n, k=4 + deep)] if n not in INNER else [],
            bounds="an observer that itself has the next event sent while it processes a value; every sequence of k events", cost=1)
async def ctx_reentrant(c, op, k):
    _, n, build = RICH[op]
    a = Args(c)
    plain, loopy = [Probe(c, f"q{i}") for i in range(n)], [Probe(c, f"s{i}") for i in range(n)]
    ev = script(c, n, k, kinds_of(op))
    todo = list(ev)

    async def feed():
        if todo:
            i, kind, v = todo.pop(0)
            await give(loopy[i], kind, v)

    async def again(v):
        await feed()

    ref, out = Rec(c, "ref"), Rec(c, on_next=again)
    await build(plain, a).subscribe_async(ref)
    await build(loopy, a).subscribe_async(out)
    await c.settle()
    for i, kind, v in ev:
        await give(plain[i], kind, v)
        await c.settle()
    while todo:
        await feed()
        await c.settle()
    await c.settle()
    match(c, f"{op} with an observer that feeds the source", out, ref)


@registered(configs=lambda n, deep: [dict(op=n, k=4 + deep)] if RICH[n][1] == 1 else [],
            bounds="a source that emits k events (arbitrary values, completion or error) while it is subscribed to, in a task, or as an iterable", cost=1)
async def ctx_feed(c, op, k):
    _, n, build = RICH[op]
    a = Args(c)
    plain = Probe(c, "plain")
    ev = script(c, 1, k, kinds_of(op))
    ref, out = Rec(c, "ref"), Rec(c)
    again = "retry" in op
    form = c.choice("form", 4)
    err = ev[-1][2] if ev and ev[-1][1] == "error" else None
    vs = [v for _, kind, v in ev if kind == "next"]
    if form == 3:
        if ev[-1][1] == "next":
            form = 0

    def items():
        yield from vs
        if err is not None:
            raise err

    class Items:
        def __iter__(self):
            return items()

    flat = [(kind, v) for _, kind, v in ev]
    src = Feed(c, flat, sync=form == 0) if form < 2 else rx.from_iterable(Items()) if form == 3 else Late(c, flat)
    await build([plain], a).subscribe_async(ref)
    for _ in range(4 if again else 1):
        for _, kind, v in ev:
            await give(plain, kind, v)
            await c.settle()
        if not err or ref.terminal:
            break
    await build([src], a).subscribe_async(out)
    await c.drain()
    match(c, f"{op} over a source that emits by itself", out, ref)


class Late(Feed):
    """Emits in a task, one event per second."""

    def __init__(self, c, events):
        super().__init__(c, events, sync=False)

    async def subscribe_async(self, send=None, throw=None, close=None):
        c, events = self.c, self.events
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        alive = [True]

        async def play():
            for kind, v in events:
                await c.sleep(1)
                if not alive[0]:
                    return
                await give(obv, kind, v)

        asyncio.ensure_future(play())

        async def dispose():
            alive[0] = False

        return AsyncDisposable.create(dispose)


_IND = {"C09": ("map", "map_async", "starmap", "starmap_async"), "C10": ("filter", "filter_async", "choose", "choose_async"),
        "C11": ("take", "skip", "take_last", "skip_last"), "C12": ("slice",), "C13": ("distinct",), "C14": ("scan", "scan_async", "reduce"),
        "C15": ("mapi", "mapi_async", "filteri", "flat_mapi", "flat_mapi_async", "zip_seq"),
        "C16": ("merge", "merge_seq", "merge_map", "flat_map", "flat_map_async"), "C17": ("merge_map_1", "concat", "concat_map"),
        "C18": ("switch_map", "switch_map_async"), "C19": ("combine_latest",), "C20": ("with_latest_from",), "C21": ("take_until",),
        "C22": ("catch", "retry"), "C23": ("delay",), "C24": ("debounce",)}
_VAL = {"C09": ("map",), "C11": ("take", "skip", "take_last", "skip_last"), "C12": ("slice", "slice_step"), "C13": ("distinct",),
        "C14": ("scan", "reduce"), "C15": ("mapi", "mapi_async", "filteri", "zip_seq", "flat_mapi"), "C16": ("flat_map",),
        "C17": ("concat_map",), "C18": ("switch",), "C22": ("retry", "catch"), "C23": ("delay",), "C24": ("debounce",)}
for _p, _ns in _IND.items():
    harness(_p, quick=[dict(op=o, k=4 if o in STATEFUL else 3) for o in _ns], thorough=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in _ns],
            bounds="two subscriptions to the same observable, every interleaving of k events of both, disposals included; each as if alone", cost=2)(independent)
    if any(o in MANY for o in _ns):
        harness(_p, quick=[dict(op=o, k=5 if TABLE[o].n == 1 else 4) for o in _ns if o in MANY], thorough=[dict(op=o, k=7 if TABLE[o].n == 1 else 6) for o in _ns if o in MANY],
                bounds="two subscriptions to the same observable, every interleaving of k values of both and then an end of either; each as if alone", cost=2)(independent_long)
for _p, _ns in _VAL.items():
    harness(_p, quick=[dict(op=o, k=4) for o in _ns], thorough=[dict(op=o, k=6) for o in _ns],
            bounds="one operator value applied to two sources, every interleaving of k events of the two; each as if alone")(independent_values)
_ERR = {p: ns for p, ns in _IND.items() if p not in ("C22",)}
_ERR["C11"] += ("take3", "take1", "skip0", "skip2", "take_last0", "take_last1", "skip_last0", "skip_last2")
_ERR["C12"] += ("slice_head", "slice_tail")
_ERR["C14"] += ("reduce_async",)
_ERR["C17"] += ("merge_map_2", "concat_seq")
_ERR["C23"] += ("delay0",)
_ERR["C24"] += ("debounce0",)
for _p, _ns in _ERR.items():
    harness(_p, quick=[dict(op=o) for o in _ns], bounds="an error of each exception type (23 types, also the library's own) from each live source, before or after a value")(error_types)
