"""C16 merge family, C17 limited concurrency and concatenation, C18 switch_latest."""
from __future__ import annotations

from symx.registry import harness

from .ops import *  # noqa: F401,F403
from .ops import _a, _transform


class Steps:
    """A symbolic schedule: at each step one of the currently possible actions happens."""

    def __init__(self, c, k):
        self.c, self.k = c, k

    def pick(self, options):
        """One of the options (symbolic choice)."""
        return options[self.c.choice("step", len(options))]


MERGES = {
    "merge2": lambda ps: rx.merge(ps[1])(ps[0]),
    "AsyncRx.merge": lambda ps: rx.AsyncRx(ps[0]).merge(ps[1]),
    "merge_seq": lambda ps: rx.merge_seq(ps),
    "merge_inner": lambda ps: pipe(rx.from_iterable(ps), rx.merge_inner()),
    "flat_map": lambda ps: pipe(rx.from_iterable(range(len(ps))), rx.flat_map(lambda i: ps[i])),
    "flat_map_async": lambda ps: pipe(rx.from_iterable(range(len(ps))), rx.flat_map_async(_a(lambda i: ps[i]))),
    "flat_mapi": lambda ps: pipe(rx.from_iterable(ps), rx.flat_mapi(lambda p, i: ps[i])),
    "AsyncRx.flat_map": lambda ps: rx.AsyncRx(rx.from_iterable(ps)).flat_map(lambda p: p),
    "AsyncRx.flat_map_async": lambda ps: rx.AsyncRx(rx.from_iterable(ps)).flat_map_async(_a(lambda p: p)),
}


@harness("C16", quick=[dict(op=o, m=2, k=4, settle=s) for o in MERGES for s in (True, False)] + [dict(op="merge_seq", m=3, k=4, settle=True)],
         thorough=[dict(op=o, m=2, k=6, settle=s) for o in MERGES for s in (True, False)] + [dict(op="merge_seq", m=3, k=5, settle=s) for s in (True, False)],
         bounds="m sources, every sequence of k events (value, error, completion) of open sources, values arbitrary, settling between events or not", cost=2)
async def merge_fixed(c, op, m, k, settle):
    ps = [Probe(c, f"s{i}") for i in range(m)]
    out = Rec(c)
    await MERGES[op](ps).subscribe_async(out)
    await c.settle()
    for p in ps:
        c.check(p.total == 1 and p.active == 1, f"{op}: source not subscribed exactly once")
    st = Steps(c, k)
    opened = list(range(m))
    exp, term, err = [], None, None
    for _ in range(k):
        if not opened or term:
            break
        i, kind = st.pick([(i, e) for i in opened for e in ("next", "done", "error")])
        if kind == "next":
            v = c.value("v")
            exp.append(v)
            await ps[i].asend(v)
        elif kind == "done":
            opened.remove(i)
            await ps[i].aclose()
            if not opened:
                term = "done"
        else:
            term, err = "error", Boom(f"s{i}")
            await ps[i].athrow(err)
        if settle:
            await c.settle()
            out.expect(exp, term, err, op)
    await c.settle()
    out.expect(exp, term, err, op)
    if term == "error":  # nothing of the other sources is delivered any more
        for p in ps:
            await p.asend(1)
            await p.aclose()
        await c.settle()
        out.expect(exp, term, err, op)


@harness("C16", quick=[dict(k=5, cap=2)], thorough=[dict(k=7, cap=2), dict(k=6, cap=3)],
         bounds="an outer source of up to cap inner sources; every sequence of k outer and inner events, settled after each", cost=5)
async def merge_dynamic(c, k, cap):
    outer = Probe(c, "outer")
    out = Rec(c)
    await pipe(outer, rx.merge_inner()).subscribe_async(out)
    await c.settle()
    ps, opened = [], []
    outer_open, term, err, exp = True, None, None, []
    for _ in range(k):
        opts = []
        if outer_open:
            opts += [("new", 0)] if len(ps) < cap else []
            opts += [("odone", 0), ("oerror", 0)]
        opts += [(e, i) for i in opened for e in ("next", "done", "error")]
        if not opts:
            break
        e, i = Steps(c, k).pick(opts)
        if e == "new":
            p = Probe(c, f"s{len(ps)}")
            opened.append(len(ps))
            ps.append(p)
            await outer.asend(p)
        elif e == "odone":
            outer_open = False
            await outer.aclose()
        elif e == "oerror":
            err = err or Boom("outer")
            await outer.athrow(err)
        elif e == "next":
            v = c.value("v")
            exp.append(v)
            await ps[i].asend(v)
        elif e == "done":
            opened.remove(i)
            await ps[i].aclose()
        else:
            err = Boom("inner")
            await ps[i].athrow(err)
        await c.settle()
        if err is not None:
            term = "error"
        elif not outer_open and not opened:
            term = "done"
        out.expect(exp, term, err, "merge_inner")
        for p in ps:
            c.check(p.total == 1, "merge_inner: inner source not subscribed exactly once")
        if term:
            for p in ps:
                await p.asend(1)
            await c.settle()
            out.expect(exp, term, err, "merge_inner")
            break


@harness("C16", quick=[dict(op=o) for o in MERGES],
         bounds="two cold inner sources that emit 0..3 values and complete or fail or stay open, during subscription or in a task")
async def merge_cold(c, op):
    err = Boom("inner")
    feeds, alls, ends = [], [], []
    for i in range(2):
        n = c.choice("n", 4)
        end = ("done", "error", "open")[c.choice("end", 3)]
        vs = [(i, j) for j in range(n)]
        ev = [("next", v) for v in vs] + ([] if end == "open" else [(end, err)])
        feeds.append(Feed(c, ev, sync=c.bool("sync")))
        alls.append(vs)
        ends.append(end)
    out = Rec(c)
    await MERGES[op](feeds).subscribe_async(out)
    await c.settle()
    out.grammar(op)
    for i in range(2):
        got = [v for v in out.values if v[0] == i]
        c.check(got == alls[i][:len(got)], f"{op}: values of a source lost, repeated or reordered")
        if "error" not in ends:
            c.check(len(got) == len(alls[i]), f"{op}: values of a source missing")
        c.check(feeds[i].total == 1 or "error" in ends, f"{op}: source not subscribed exactly once")
    want = "error" if "error" in ends else "done" if ends == ["done", "done"] else None
    c.check(out.terminal == want, lambda: f"{op}: terminated with {out.terminal}, expected {want}")


@harness("C16", quick=[dict(m=9)], thorough=[dict(m=30)],
         bounds="m inner sources; a symbolic one completes last, or fails; each emits a value in each of two rounds", max_steps=30000)
async def merge_many(c, m):
    last = c.int("last", 0, m - 1)
    fails = c.bool("fails")
    ps = [Probe(c, f"s{i}") for i in range(m)]
    out = Rec(c)
    await rx.merge_seq(ps).subscribe_async(out)
    await c.settle()
    exp = []
    for r in range(2):
        for i, p in enumerate(ps):
            v = (r, i)
            exp.append(v)
            await p.asend(v)
    for i, p in enumerate(ps):
        if not (last == i):
            await p.aclose()
    await c.settle()
    out.expect(exp, None, what="merge")
    k = last.__index__()
    err = Boom()
    await ps[k].asend("z")
    await (ps[k].athrow(err) if fails else ps[k].aclose())
    await c.settle()
    out.expect(exp + ["z"], "error" if fails else "done", err, "merge")


@harness("C16", quick=[dict(op=o) for o in MERGES], bounds="values such as None, 0, False, '', exceptions, notifications")
async def merge_special(c, op):
    sp = special_values()
    a, b = sp[c.choice("a", len(sp))], sp[c.choice("b", len(sp))]
    ps = [Probe(c), Probe(c)]
    out = Rec(c)
    await MERGES[op](ps).subscribe_async(out)
    await c.settle()
    for p, v in ((ps[0], a), (ps[1], b), (ps[0], b), (ps[1], a)):
        await p.asend(v)
    await c.settle()
    c.check(len(out.values) == 4 and all(x is y for x, y in zip(out.values, (a, b, b, a))), lambda: f"{op}: {out.values!r}")
    c.check(out.terminal is None, f"{op}: terminated")


FLATS = {
    "flat_map": lambda f, fi: rx.flat_map(f),
    "flat_map_async": lambda f, fi: rx.flat_map_async(_a(f)),
    "flat_mapi": lambda f, fi: rx.flat_mapi(fi),
    "flat_mapi_async": lambda f, fi: _transform.flat_mapi_async(_a(fi)),
    "concat_map": lambda f, fi: _transform.concat_map(f),
    "AsyncRx.flat_map": lambda f, fi: lambda s: rx.AsyncRx(s).flat_map(f),
}


@harness("C16", quick=[dict(op=o, m=40) for o in [*FLATS, "merge_inner"] if o != "concat_map"], thorough=[dict(op=o, m=300) for o in [*FLATS, "merge_inner"] if o != "concat_map"],
         bounds="m inner sources open at the same time, every one of them emits twice; a symbolic one completes last, or fails", max_steps=60000)
async def flat_many(c, op, m):
    last = c.choice("last", 3) * (m - 1) // 2
    fails = c.bool("fails")
    ps = [Probe(c, f"s{i}") for i in range(m)]
    outer = Probe(c, "outer")
    out = Rec(c)
    f = rx.merge_inner() if op == "merge_inner" else FLATS[op](lambda x: ps[x], lambda x, i: ps[x])
    await pipe(outer, f).subscribe_async(out)
    await c.settle()
    for i in range(m):
        await outer.asend(ps[i] if op == "merge_inner" else i)
    await outer.aclose()
    await c.settle()
    exp = []
    for r in range(2):
        for i, p in enumerate(ps):
            c.check(p.active == 1, f"{op}: inner source {i} of {m} is not subscribed to")
            exp.append((r, i))
            await p.asend((r, i))
    for i, p in enumerate(ps):
        if i != last:
            await p.aclose()
    await c.settle()
    out.expect(exp, None, what=op)
    err = Boom()
    await ps[last].asend("z")
    await (ps[last].athrow(err) if fails else ps[last].aclose())
    await c.settle()
    out.expect(exp + ["z"], "error" if fails else "done", err, op)


@harness("C16", quick=[dict(op=o, n=3) for o in FLATS if o != "concat_map"], thorough=[dict(op=o, n=4) for o in FLATS if o != "concat_map"],
         bounds="n outer values (arbitrary), each projected to a cold source of 0..2 values derived from it")
async def flat_map_values(c, op, n):
    f = c.func("f", 2)
    vs = seq(c, n)
    lens = [c.choice("len", 3) for _ in range(n)]
    calls = []

    def mk(x):
        calls.append(x)
        i = len(calls) - 1
        return rx.from_iterable([f(x, j) for j in range(lens[i])])

    src = rx.AsyncSubject()
    out = Rec(c)
    await pipe(src, FLATS[op](mk, lambda x, i: mk(x))).subscribe_async(out)
    exp = []
    for v, k in zip(vs, lens):
        await src.asend(v)
        await c.settle()
        exp += [f(v, j) for j in range(k)]
    out.expect(exp, None, what=op)
    await src.aclose()
    await c.settle()
    out.expect(exp, "done", what=op)
    c.check(c.eq(calls, vs), f"{op}: mapper not called exactly once per element")


# ---------------------------------------------------------------- C17
@harness("C17", quick=[dict(m=3, k=5), dict(m=4, k=4)], thorough=[dict(m=3, k=7), dict(m=5, k=6)],
         bounds="limit symbolic in 1..m, m inner sources arriving at once, every sequence of k values and completions of subscribed inner sources", cost=5)
async def limited(c, m, k):
    limit = c.int("limit", 1, m)
    ps = [Probe(c, f"s{i}") for i in range(m)]
    outer = Probe(c, "outer")
    out = Rec(c)
    await pipe(outer, rx.merge_inner(limit)).subscribe_async(out)
    for p in ps:
        await outer.asend(p)
    close_first = c.bool("outer_done_first")
    if close_first:
        await outer.aclose()
    await c.settle()
    lim = limit.__index__()
    running, waiting = list(range(min(lim, m))), list(range(min(lim, m), m))
    exp = []
    for _ in range(k):
        for i, p in enumerate(ps):
            c.check((p.total > 0) == (i not in waiting), "merge_inner: inner sources not subscribed in arrival order as soon as possible")
        c.check(sum(p.active for i, p in enumerate(ps) if i in running) <= lim, "merge_inner: limit exceeded")
        if not running:
            break
        i, e = Steps(c, k).pick([(i, e) for i in running for e in ("next", "done")])
        if e == "next":
            v = c.value("v")
            exp.append(v)
            await ps[i].asend(v)
        else:
            running.remove(i)
            await ps[i].aclose()
            if waiting:
                running.append(waiting.pop(0))
        await c.settle()
        out.expect(exp, "done" if close_first and not running else None, what="merge_inner(limit)")
    if not close_first:
        for i in list(running):
            await ps[i].aclose()
            await c.settle()
        while waiting:
            i = waiting.pop(0)
            c.check(ps[i].total == 1, "merge_inner: waiting source not subscribed")
            await ps[i].aclose()
            await c.settle()
        c.check(out.terminal is None, "merge_inner: completed before the outer source")
        await outer.aclose()
        await c.settle()
        out.expect(exp, "done", what="merge_inner(limit)")


@harness("C17", quick=[dict(m=140)], thorough=[dict(m=400)],
         bounds="m inner sources that stay open, an arbitrary limit in 1..m or above: after all of them arrived exactly the first `limit` are subscribed, and each completion subscribes the next", max_steps=60000, cost=2)
async def limited_wide(c, m):
    limit = c.int("limit", 1, m + 1)
    ps = [Probe(c, f"s{i}") for i in range(m)]
    outer = Probe(c, "outer")
    out = Rec(c)
    await pipe(outer, rx.merge_inner(limit)).subscribe_async(out)
    for p in ps:
        await outer.asend(p)
    await c.settle()
    n = sum(p.active for p in ps)
    c.check(c.eq(n, m) if limit > m else c.eq(n, limit), lambda: f"merge_inner: {n} of {m} inner sources are subscribed, limit {limit}")
    c.check([p.active for p in ps] == [1] * n + [0] * (m - n), "merge_inner: not in arrival order")
    for i in range(2):
        await ps[i].aclose()
        await c.settle()
        c.check(sum(p.total for p in ps) == min(n + 1 + i, m), "merge_inner: a completion does not subscribe the next source")


@harness("C17", quick=[dict(k=6, cap=3)], thorough=[dict(k=8, cap=3)],
         bounds="limit symbolic in 1..2, outer events interleaved with inner ones: every sequence of k events", cost=5)
async def limited_dynamic(c, k, cap):
    limit = c.int("limit", 1, 2)
    outer = Probe(c, "outer")
    out = Rec(c)
    await pipe(outer, rx.merge_inner(limit)).subscribe_async(out)
    await c.settle()
    lim = limit.__index__()
    ps, running, waiting, exp = [], [], [], []
    outer_open, n = True, 0
    for _ in range(k):
        opts = []
        if outer_open:
            opts += [("new", 0)] if len(ps) < cap else []
            opts += [("odone", 0)]
        opts += [(e, i) for i in running for e in ("next", "done")]
        if not opts:
            break
        e, i = Steps(c, k).pick(opts)
        if e == "new":
            p = Probe(c, f"s{len(ps)}")
            (running if len(running) < lim else waiting).append(len(ps))
            ps.append(p)
            await outer.asend(p)
        elif e == "odone":
            outer_open = False
            await outer.aclose()
        elif e == "next":
            n += 1
            exp.append(n)
            await ps[i].asend(n)
        else:
            running.remove(i)
            await ps[i].aclose()
            if waiting:
                running.append(waiting.pop(0))
        await c.settle()
        done = not outer_open and not running
        out.expect(exp, "done" if done else None, what="merge_inner(limit)")
        for j, p in enumerate(ps):
            c.check(p.total == (0 if j in waiting else 1), "merge_inner: subscription order or number")


@harness("C17", quick=[dict(k=9, cap=6)], thorough=[dict(k=13, cap=8)],
         bounds="limit symbolic in 1..3; every sequence of k arrivals and completions of inner sources (up to cap of them); then each remaining one emits and completes, the outer completing at a symbolic point", cost=5, max_steps=30000)
async def limited_churn(c, k, cap):
    limit = c.int("limit", 1, 3)
    outer = Probe(c, "outer")
    out = Rec(c)
    await pipe(outer, rx.merge_inner(limit)).subscribe_async(out)
    await c.settle()
    lim = limit.__index__()
    ps, running, waiting, exp = [], [], [], []

    def look():
        for j, p in enumerate(ps):
            c.check(p.total == (0 if j in waiting else 1), lambda: f"merge_inner({lim}): inner source {j} subscribed {p.total} times; running {running}, waiting {waiting}")
        c.check(sum(ps[j].active for j in running) <= lim, "merge_inner: limit exceeded")
        c.check(all(ps[j].active == 1 for j in running), "merge_inner: a running inner source was given up")

    async def end(i):
        await ps[i].asend(("last", i))
        exp.append(("last", i))
        running.remove(i)
        await ps[i].aclose()
        if waiting:
            running.append(waiting.pop(0))
        await c.settle()
        look()

    for _ in range(k):
        opts = (["new"] if len(ps) < cap else []) + list(running)
        if not opts:
            break
        a = Steps(c, k).pick(opts)
        if a == "new":
            p = Probe(c, f"s{len(ps)}")
            (running if len(running) < lim else waiting).append(len(ps))
            ps.append(p)
            await outer.asend(p)
            await c.settle()
            look()
        else:
            await end(a)
        out.expect(exp, None, what="merge_inner(limit)")
    early = c.bool("outer_first")
    if early:
        await outer.aclose()
        await c.settle()
    while running:
        c.check(out.terminal is None, "merge_inner: completed before its inner sources")
        await end(running[0])
    out.expect(exp, "done" if early else None, what="merge_inner(limit)")
    if not early:
        await outer.aclose()
        await c.settle()
        out.expect(exp, "done", what="merge_inner(limit)")


CONCATS = {
    "concat": lambda xs: rx.concat(xs[1])(xs[0]) if len(xs) == 2 else rx.concat(xs[2])(rx.concat(xs[1])(xs[0])),
    "AsyncRx.concat": lambda xs: rx.AsyncRx(xs[0]).concat(xs[1]) if len(xs) == 2 else rx.AsyncRx(xs[0]).concat(xs[1]).concat(xs[2]),
    "concat_seq": lambda xs: rx.concat_seq(xs),
    "concat_map": lambda xs: pipe(rx.from_iterable(range(len(xs))), _transform.concat_map(lambda i: xs[i])),
    "merge_inner(1)": lambda xs: pipe(rx.from_iterable(xs), rx.merge_inner(1)),
}


@harness("C17", quick=[dict(op=o, m=m) for o in CONCATS for m in (2, 3)],
         bounds="m cold sources of 0..2 arbitrary values each that end by completing, the last possibly failing or staying open; events during subscription or in a task")
async def concat_cold(c, op, m):
    feeds, exp, err = [], [], Boom()
    for i in range(m):
        vs = seq(c, c.choice("n", 3))
        exp += vs
        end = ("done", "error", "open")[c.choice("end", 3)] if i == m - 1 else "done"
        feeds.append(Feed(c, [("next", v) for v in vs] + ([] if end == "open" else [(end, err)]), sync=c.bool("sync")))
    out = Rec(c)
    await CONCATS[op](feeds).subscribe_async(out)
    await c.settle()
    out.expect(exp, None if end == "open" else end, err, op)
    for f in feeds:
        c.check(f.total == 1, f"{op}: source not subscribed exactly once")


@harness("C17", quick=[dict(op=o, m=3, k=5) for o in CONCATS], thorough=[dict(op=o, m=3, k=7) for o in CONCATS],
         bounds="m hot sources; every sequence of k events from any of them; only the current one counts", cost=3)
async def concat_hot(c, op, m, k):
    ps = [Probe(c, f"s{i}") for i in range(m)]
    out = Rec(c)
    await CONCATS[op](ps).subscribe_async(out)
    await c.settle()
    cur, exp, term, err = 0, [], None, None
    for j in range(k):
        opts = [(i, "next") for i in range(cur, m)] + [(cur, "done"), (cur, "error")]
        i, e = Steps(c, k).pick(opts)
        if e == "next":
            await ps[i].asend((i, j))
            if i == cur:
                exp.append((i, j))
        elif e == "done":
            await ps[cur].aclose()
            cur += 1
            term = "done" if cur == m else None
        else:
            err = Boom()
            await ps[cur].athrow(err)
            term = "error"
        await c.settle()
        out.expect(exp, term, err, op)
        if term:
            break
        for i, p in enumerate(ps):
            c.check(p.total == (1 if i <= cur else 0), f"{op}: a source was subscribed early, late or twice")


@harness("C17", quick=[dict(m=12)], thorough=[dict(m=40)], bounds="m inner sources of one value, limit symbolic in 1..m+1", max_steps=30000)
async def limited_many(c, m):
    limit = c.int("limit", 1, m + 1)
    ps = [Probe(c, f"s{i}") for i in range(m)]
    out = Rec(c)
    await pipe(rx.from_iterable(ps), rx.merge_inner(limit)).subscribe_async(out)
    await c.settle()
    lim = limit.__index__()
    for i, p in enumerate(ps):
        c.check(sum(q.total for q in ps) == min(m, lim + i), "merge_inner: number of subscribed inner sources")
        await p.asend(i)
        c.check(out.terminal is None, "completed early")
        await p.aclose()
        await c.settle()
    out.expect(list(range(m)), "done", what="merge_inner(limit)")


# ---------------------------------------------------------------- C18
SWITCH = {
    "switch_latest": lambda o: pipe(o, rx.switch_latest()),
    "flat_map_latest": lambda o: pipe(o, _transform.flat_map_latest(lambda p: p)),
    "flat_map_latest_async": lambda o: pipe(o, rx.flat_map_latest_async(_a(lambda p: p))),
    "AsyncRx.flat_map_latest_async": lambda o: rx.AsyncRx(o).flat_map_latest_async(_a(lambda p: p)),
}


@harness("C18", quick=[dict(op=o, k=5, cap=2) for o in SWITCH] + [dict(op="switch_latest", k=6, cap=3)],
         thorough=[dict(op=o, k=6, cap=3) for o in SWITCH] + [dict(op="switch_latest", k=7, cap=3)],
         bounds="up to cap inner sources; every sequence of k outer and inner events (also of superseded ones), settled after each", cost=5)
async def switch_dynamic(c, op, k, cap):
    outer = Probe(c, "outer")
    out = Rec(c)
    await SWITCH[op](outer).subscribe_async(out)
    await c.settle()
    ps, cur, cur_open = [], None, False
    ended = set()  # inner sources that terminated by themselves: nothing is left to release
    outer_open, term, err, exp, n = True, None, None, [], 0
    for _ in range(k):
        opts = []
        if outer_open:
            opts += [("new", 0)] if len(ps) < cap else []
            opts += [("odone", 0), ("oerror", 0)]
        if cur_open:
            opts += [("next", cur), ("done", cur), ("error", cur)]
        if cur:
            opts += [("next", cur - 1), ("done", cur - 1), ("error", cur - 1)]
        if not opts:
            break
        e, i = Steps(c, k).pick(opts)
        n += 1
        if e == "new":
            p = Probe(c, f"s{len(ps)}")
            cur, cur_open = len(ps), True
            ps.append(p)
            await outer.asend(p)
        elif e == "odone":
            outer_open = False
            await outer.aclose()
        elif e == "oerror":
            err = Boom("outer")
            await outer.athrow(err)
        else:
            obv = ps[i].subs[0][0]  # even if disposed: a source may be late
            x = Boom("inner")
            await give(obv, e, n if e == "next" else x)
            if e != "next":
                ended.add(i)
            if i == cur:
                if e == "next":
                    exp.append(n)
                elif e == "done":
                    cur_open = False
                else:
                    err = x
        await c.settle()
        if err is not None:
            term = "error"
        elif not outer_open and not cur_open:
            term = "done"
        out.expect(exp, term, err, op)
        for j, p in enumerate(ps):
            c.check(p.total == 1, f"{op}: inner source not subscribed exactly once")
            if j != cur and j not in ended:
                c.check(p.active == 0, f"{op}: superseded subscription not released")
        if term:
            break


@harness("C18", quick=[dict(op=o, t=4) for o in SWITCH], thorough=[dict(op=o, t=8) for o in SWITCH],
         bounds="the old inner source emits while the new one is being subscribed, and after 0..t loop turns; the new one emits once subscribed")
async def switch_race(c, op, t):
    outer = Probe(c, "outer")
    out = Rec(c)
    await SWITCH[op](outer).subscribe_async(out)
    old, new = Probe(c, "old"), Probe(c, "new")
    await outer.asend(old)
    await c.settle()
    await old.asend("a")
    late = old.subs[0][0]
    kind = ("next", "done", "error")[c.choice("late", 3)]
    subscribed = []

    async def hook(obv):
        subscribed.append(True)
        await give(late, kind, "late" if kind == "next" else Boom("late"))

    new.on_subscribe = hook
    await outer.asend(new)
    await c.ticks(c.choice("turns", t + 1))
    if subscribed:
        await give(late, kind, "late" if kind == "next" else Boom("late"))
    await c.settle()
    await new.asend("b")
    await give(late, kind, "late" if kind == "next" else Boom("late"))
    await new.asend("c")
    await c.settle()
    out.expect(["a", "b", "c"], None, what=op)
    await new.aclose()
    await outer.aclose()
    await c.settle()
    out.expect(["a", "b", "c"], "done", what=op)


@harness("C18", quick=[dict(op=o) for o in SWITCH],
         bounds="two cold inner sources emitting 0..2 values during subscription or in a task, completing, failing or staying open")
async def switch_cold(c, op):
    outer = Probe(c, "outer")
    out = Rec(c)
    await SWITCH[op](outer).subscribe_async(out)
    exp, err, cur_open = [], None, False
    for i in range(2):
        vs = seq(c, c.choice("n", 3))
        end = ("done", "error", "open")[c.choice("end", 3)]
        x = Boom(str(i))
        await outer.asend(Feed(c, [("next", v) for v in vs] + ([] if end == "open" else [(end, x)]), sync=c.bool("sync")))
        await c.settle()
        if err is None:
            exp += vs
            if end == "error":
                err = x
            cur_open = end == "open"
        out.expect(exp, "error" if err else None, err, op)
    await outer.aclose()
    await c.settle()
    out.expect(exp, "error" if err else None if cur_open else "done", err, op)


@harness("C18", quick=[dict(m=12)], thorough=[dict(m=60)], bounds="m inner sources in turn; an event of a symbolic earlier one arrives late", max_steps=30000)
async def switch_many(c, m):
    outer = Probe(c, "outer")
    out = Rec(c)
    await SWITCH["switch_latest"](outer).subscribe_async(out)
    late = c.int("late", 0, m - 2)
    kind = ("next", "done", "error")[c.choice("kind", 3)]
    ps, exp = [], []
    for i in range(m):
        p = Probe(c, f"s{i}")
        ps.append(p)
        await outer.asend(p)
        await c.settle()
        await p.asend(i)
        exp.append(i)
    k = late.__index__()
    await give(ps[k].subs[0][0], kind, "late" if kind == "next" else Boom("late"))
    await ps[-1].asend("z")
    await outer.aclose()
    await c.settle()
    out.expect(exp + ["z"], None, what="switch_latest")
    await ps[-1].aclose()
    await c.settle()
    out.expect(exp + ["z"], "done", what="switch_latest")


@harness("C18", quick=[{}], bounds="inner values such as None, 0, False, '', exceptions")
async def switch_special(c):
    sp = special_values()
    a, b = sp[c.choice("a", len(sp))], sp[c.choice("b", len(sp))]
    outer, p = Probe(c), Probe(c)
    out = Rec(c)
    await SWITCH["switch_latest"](outer).subscribe_async(out)
    await outer.asend(p)
    await c.settle()
    await p.asend(a)
    await p.asend(b)
    await c.settle()
    c.check(len(out.values) == 2 and out.values[0] is a and out.values[1] is b, lambda: f"switch: {out.values!r}")
    c.check(out.terminal is None, "switch terminated")
