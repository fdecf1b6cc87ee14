"""C19 combine_latest, C20 with_latest_from, C21 take_until, C22 catch and retry."""
from __future__ import annotations

from symx.registry import harness

from .ops import *  # noqa: F401,F403
from .ops import _transform

FORMS = {
    "combine_latest": lambda a, b: pipe(a, rx.combine_latest(b)),
    "AsyncRx.combine_latest": lambda a, b: rx.AsyncRx(a).combine_latest(b),
    "with_latest_from": lambda a, b: pipe(a, rx.with_latest_from(b)),
    "AsyncRx.with_latest_from": lambda a, b: rx.AsyncRx(a).with_latest_from(b),
    "take_until": lambda a, b: pipe(a, rx.take_until(b)),
    "AsyncRx.take_until": lambda a, b: rx.AsyncRx(a).take_until(b),
}
FORMS = {k: f for k, f in FORMS.items() if "." not in k or hasattr(rx.AsyncRx, k.split(".")[1])}
COMB = [k for k in FORMS if k.endswith("combine_latest")]
WITH = [k for k in FORMS if k.endswith("with_latest_from")]
UNTIL = [k for k in FORMS if k.endswith("take_until")]


class Oracle:
    """What the property allows for the events of two sources in this order."""

    def __init__(self, op):
        self.op = op.split(".")[-1]
        self.last = [None, None]  # None or (value,)
        self.open = [True, True]
        self.exp = []
        self.term = None  # exact terminal event so far
        self.err = None
        self.may = False  # a completion is allowed from here on, but not required
        self.exp_if_done = None  # what was owed when the completion first became possible

    def event(self, i, kind, v=None):
        if self.term:
            return
        o = self.op
        if kind == "error":
            if not self.may or True:
                self.term, self.err = "error", v
            return
        if kind == "done":
            self.open[i] = False
            if o == "combine_latest":
                if not any(self.open):
                    self.term = "done"
                elif not self.may:
                    self.may, self.exp_if_done = True, list(self.exp)
            elif o == "with_latest_from":
                if i == 0:
                    self.term = "done"
                elif not self.may:
                    self.may, self.exp_if_done = True, list(self.exp)
            elif i == 0:
                self.term = "done"
            return
        if o == "combine_latest":
            self.last[i] = (v,)
            if self.last[0] and self.last[1]:
                self.exp.append((self.last[0][0], self.last[1][0]))
        elif o == "with_latest_from":
            if i == 1:
                self.last[1] = (v,)
            elif self.last[1]:
                self.exp.append((v, self.last[1][0]))
        elif i == 0:
            self.exp.append(v)
        else:
            self.term = "done"

    def verify(self, out, what):
        if self.may and out.terminal == "done" and out.bad == 0:
            # completing at the first completion is one of the two accepted behaviours
            early = self.exp_if_done
            if len(out.values) == len(early):
                out.c.check(out.c.eq(out.values, early), lambda: f"{what}: {out.values!r} instead of {early!r}")
                return
        out.expect(self.exp, self.term, self.err, what)


def _steps(c, k, op, oracle):
    pass


@harness("C19", quick=[dict(op=o, k=5, settle=s) for o in COMB for s in (True, False)],
         thorough=[dict(op=o, k=7, settle=s) for o in COMB for s in (True, False)],
         bounds="every sequence of k events (value, error, completion) of the two sources, values arbitrary integers, settling between events or not", cost=3)
@harness("C20", quick=[dict(op=o, k=5, settle=s) for o in WITH for s in (True, False)],
         thorough=[dict(op=o, k=7, settle=s) for o in WITH for s in (True, False)],
         bounds="every sequence of k events (value, error, completion) of the two sources, values arbitrary integers, settling between events or not", cost=3)
@harness("C21", quick=[dict(op=o, k=5, settle=s) for o in UNTIL for s in (True, False)],
         thorough=[dict(op=o, k=8, settle=s) for o in UNTIL for s in (True, False)],
         bounds="every sequence of k events (value, error, completion) of the two sources, values arbitrary integers, settling between events or not", cost=3)
async def two_sources(c, op, k, settle):
    ps = [Probe(c, "a"), Probe(c, "b")]
    out = Rec(c)
    await FORMS[op](*ps).subscribe_async(out)
    await c.settle()
    c.check(ps[0].total == 1 and ps[1].total == 1, f"{op}: sources not subscribed exactly once")
    o = Oracle(op)
    for _ in range(k):
        opts = [(i, e) for i in (0, 1) if o.open[i] for e in ("next", "done", "error")]
        if not opts or o.term:
            break
        i, e = opts[c.choice("step", len(opts))]
        v = c.value("v") if e == "next" else Boom(f"s{i}") if e == "error" else None
        if settle:
            await give(ps[i], e, v)
        else:
            await give(ps[i].subs[0][0], e, v)
        o.event(i, e, v)
        if settle:
            await c.settle()
            o.verify(out, op)
            if out.terminal:
                break
    await c.settle()
    if not settle and o.may and out.terminal is None and o.term == "error":
        return
    if not settle and o.may and o.term == "error" and out.terminal == "done":
        c.check(c.eq(out.values, o.exp_if_done), f"{op}: values before the completion")
        return
    o.verify(out, op)


@harness("C19", quick=[dict(op=o) for o in COMB], bounds="values such as None, 0, False, '', exceptions, Some, notifications, from either source")
@harness("C20", quick=[dict(op=o) for o in WITH], bounds="values such as None, 0, False, '', exceptions, Some, notifications, from either source")
@harness("C21", quick=[dict(op=o) for o in UNTIL], bounds="values such as None, 0, False, '', exceptions, Some, notifications, from either source")
async def two_special(c, op):
    sp = special_values()
    a, b = sp[c.choice("a", len(sp))], sp[c.choice("b", len(sp))]
    kind = op.split(".")[-1]
    ps = [Probe(c, "a"), Probe(c, "b")]
    out = Rec(c)
    await FORMS[op](*ps).subscribe_async(out)
    await c.settle()
    if kind == "take_until":
        await ps[0].asend(a)
        await c.settle()
        c.check(len(out.values) == 1 and out.values[0] is a and out.terminal is None, "take_until: source value")
        await ps[1].asend(b)
        await c.settle()
        await ps[0].asend(a)
        await c.settle()
        c.check(len(out.values) == 1 and out.terminal == "done" and out.bad == 0, lambda: f"take_until: other's value {b!r} did not complete it: {out.events!r}")
        return
    for i, v in ((1, b), (0, a), (1, a), (0, b)):
        await ps[i].asend(v)
        await c.settle()
    exp = [(a, b), (a, a), (b, a)] if kind == "combine_latest" else [(a, b), (b, a)]
    c.check(len(out.values) == len(exp) and all(type(t) is tuple and len(t) == 2 and t[0] is x and t[1] is y for t, (x, y) in zip(out.values, exp)),
            lambda: f"{op}: {out.values!r} instead of {exp!r}")
    c.check(out.terminal is None, f"{op}: terminated")


@harness("C19", quick=[dict(op=o, n=3) for o in COMB], thorough=[dict(op=o, n=5) for o in COMB],
         bounds="two cold sources of 0..n-1 values that complete, fail or stay open, during subscription or in a task")
@harness("C20", quick=[dict(op=o, n=3) for o in WITH], thorough=[dict(op=o, n=5) for o in WITH],
         bounds="two cold sources of 0..n-1 values that complete, fail or stay open, during subscription or in a task")
@harness("C21", quick=[dict(op=o, n=3) for o in UNTIL], thorough=[dict(op=o, n=5) for o in UNTIL],
         bounds="two cold sources of 0..n-1 values that complete, fail or stay open, during subscription or in a task")
async def two_cold(c, op, n):
    kind = op.split(".")[-1]
    feeds, vals, ends, errs = [], [], [], []
    for i in range(2):
        k = c.choice("n", n)
        end = ("done", "error", "open")[c.choice("end", 3)]
        vs = [(i, j) for j in range(k)]
        x = Boom(str(i))
        feeds.append(Feed(c, [("next", v) for v in vs] + ([] if end == "open" else [(end, x)]), sync=c.bool("sync")))
        vals.append(vs)
        ends.append(end)
        errs.append(x)
    out = Rec(c)
    await FORMS[op](*feeds).subscribe_async(out)
    await c.settle()
    out.grammar(op)
    c.check(feeds[0].total == 1 and feeds[1].total <= 1, f"{op}: subscribed twice")
    c.check(not out.errors or out.errors[0] in errs, f"{op}: foreign error")
    if kind == "combine_latest":
        for t in out.values:
            c.check(t[0] in vals[0] and t[1] in vals[1], "combine_latest: foreign element")
        pos = [(t[0][1], t[1][1]) for t in out.values]
        for p, q in zip(pos, pos[1:]):
            c.check((q[0] - p[0], q[1] - p[1]) in ((1, 0), (0, 1)), lambda: f"combine_latest: not one step at a time {pos!r}")
        if pos:
            c.check(0 in pos[0], lambda: f"combine_latest: first tuple {pos!r}")
        if ends == ["open", "open"]:
            c.check(bool(pos) == bool(vals[0] and vals[1]), "combine_latest: no tuple")
            if pos:
                c.check(pos[-1] == (len(vals[0]) - 1, len(vals[1]) - 1), "combine_latest: last tuple")
        if ends == ["done", "done"]:
            c.check(out.terminal == "done", "combine_latest: not completed")
        if "error" in ends and "done" not in ends:
            c.check(out.terminal == "error", "combine_latest: error lost")
        if ends == ["open", "open"]:
            c.check(out.terminal is None, "combine_latest: terminated")
    elif kind == "with_latest_from":
        last = -1
        for t in out.values:
            c.check(t[0] in vals[0] and t[1] in vals[1], "with_latest_from: foreign element")
            c.check(t[0][1] > last, "with_latest_from: element repeated or reordered")
            last = t[0][1]
        ls = [t[1][1] for t in out.values]
        c.check(ls == sorted(ls), "with_latest_from: other's values went back")
        if out.values and "error" not in ends and ends[1] == "open":
            c.check([t[0][1] for t in out.values] == list(range(out.values[0][0][1], len(vals[0]))), "with_latest_from: source element missing")
        if ends[0] == "done" and ends[1] != "error":
            c.check(out.terminal == "done", "with_latest_from: not completed")
        if ends == ["open", "open"]:
            c.check(out.terminal is None, "with_latest_from: terminated")
    else:
        got = out.values
        c.check(got == vals[0][:len(got)], "take_until: elements")
        if not vals[1] and ends[1] != "error":
            out.expect(vals[0], TERMS[ends[0]], errs[0], op)
        elif ends[0] == "open":
            c.check(out.terminal == ("done" if vals[1] else "error"), "take_until: not terminated by the other")


TERMS = {"done": "done", "error": "error", "open": None}


@harness("C19", quick=[dict(n=30)], thorough=[dict(n=150)], bounds="n elements of the first source, then the second produces one at a symbolic position", max_steps=40000)
async def combine_deep(c, n):
    at = c.int("at", 0, n)
    a, b = Probe(c, "a"), Probe(c, "b")
    out = Rec(c)
    await pipe(a, rx.combine_latest(b)).subscribe_async(out)
    exp = []
    seen = False
    for i in range(n + 1):
        if at == i:
            await b.asend("b")
            seen = True
            if i:
                exp.append((i - 1, "b"))
        await a.asend(i)
        if seen:
            exp.append((i, "b"))
    await c.settle()
    out.expect(exp, None, what="combine_latest")


@harness("C20", quick=[dict(n=30)], thorough=[dict(n=150)], bounds="n source elements, the other produces at two symbolic positions", max_steps=40000)
async def with_deep(c, n):
    at, at2 = c.int("at", 0, n), c.int("at2", 0, n)
    a, b = Probe(c, "a"), Probe(c, "b")
    out = Rec(c)
    await pipe(a, rx.with_latest_from(b)).subscribe_async(out)
    exp, last = [], None
    for i in range(n + 1):
        if at == i:
            await b.asend(last := ("b", i))
        if at2 == i:
            await b.asend(last := ("c", i))
        await a.asend(i)
        if last:
            exp.append((i, last))
    await a.aclose()
    await c.settle()
    out.expect(exp, "done", what="with_latest_from")


@harness("C21", quick=[dict(n=30)], thorough=[dict(n=200)], bounds="n source elements, the other produces its first value (and completes or not) at a symbolic position", max_steps=40000)
async def until_deep(c, n):
    at = c.int("at", 0, n)
    kind = ("next", "done", "error")[c.choice("kind", 3)]
    settle = c.bool("settle")
    a, b = Probe(c, "a"), Probe(c, "b")
    out = Rec(c)
    await pipe(a, rx.take_until(b)).subscribe_async(out)
    err = Boom("other")
    raw = a.subs[0][0]
    k = n
    for i in range(n):
        if at == i:
            k = i
            await give(b, kind, err if kind == "error" else 0)
            if settle:
                await c.settle()
        await raw.asend(i)
    await raw.aclose()
    await c.settle()
    if k == n or kind == "done":
        out.expect(list(range(n)), "done", what="take_until")
    else:
        out.expect(list(range(k)), "done" if kind == "next" else "error", err, what="take_until")


# ---------------------------------------------------------------- C22
CATCH = {
    "catch": lambda h: rx.catch(h),
    "AsyncRx.catch": lambda h: lambda s: rx.AsyncRx(s).catch(h),
}
CATCH = {k: f for k, f in CATCH.items() if "." not in k or hasattr(rx.AsyncRx, "catch")}


def _attempt(c, n, tag, forms=("sync", "task", "seq", "subject")):
    """A source of 0..n-1 values with a symbolic ending: (observable, values, end, error, player)."""
    k = c.choice("n", n)
    end = ("error", "done", "open")[c.choice("end", 3)]
    form = forms[c.choice("form", len(forms))]
    vs = seq(c, k)
    err = Boom(tag)
    ev = [("next", v) for v in vs] + ([] if end == "open" else [(end, err)])

    async def nothing():
        await c.settle()

    if form in ("sync", "task"):
        return Feed(c, ev, sync=form == "sync"), vs, end, err, nothing
    if form == "seq":
        def gen():
            yield from vs
            if end == "error":
                raise err
        o = rx.from_iterable(gen())
        if end == "open":
            o = rx.merge(rx.never())(o)
        return o, vs, end, err, nothing
    p = Probe(c, tag)

    async def play():
        await c.settle()
        for kind, v in ev:
            await give(p, kind, v)
        await c.settle()

    return p, vs, end, err, play


@harness("C22", quick=[dict(op=o, n=3) for o in CATCH], thorough=[dict(op=o, n=5) for o in CATCH],
         bounds="source and handler source of 0..n-1 arbitrary values each, ending in error, completion or nothing, during subscription, in a task, from an iterable or from a hot source", cost=3)
async def catch_all(c, op, n):
    src, vs, end, err, play = _attempt(c, n, "source")
    nxt, ws, wend, werr, wplay = _attempt(c, n, "handler")
    calls = []

    def handler(e):
        calls.append(e)
        return nxt

    out = Rec(c)
    await pipe(src, CATCH[op](handler)).subscribe_async(out)
    await play()
    if end != "error":
        out.expect(vs, TERMS[end], what=op)
        c.check(calls == [], f"{op}: handler called without an error")
        return
    await wplay()
    out.expect(vs + ws, TERMS[wend], werr, op)
    c.check(len(calls) == 1 and calls[0] is err, lambda: f"{op}: handler calls {calls!r}")


@harness("C22", quick=[dict(op=o) for o in CATCH], bounds="the handler raises, for every kind of exception and form of source")
async def catch_raises(c, op):
    src, vs, end, err, play = _attempt(c, 3, "source")
    boom = error_kinds()[c.choice("kind", len(error_kinds()))]

    def handler(e):
        raise boom

    out = Rec(c)
    await pipe(src, CATCH[op](handler)).subscribe_async(out)
    await play()
    if end == "error":
        out.expect(vs, "error", boom, op)
    else:
        out.expect(vs, TERMS[end], what=op)


@harness("C22", quick=[dict(n=2)], thorough=[dict(n=3)], bounds="two nested catches; three sources of 0..n-1 values each")
async def catch_nested(c, n):
    a, b, d = (_attempt(c, n, t, ("sync", "task", "subject")) for t in "abd")
    calls = []

    def h1(e):
        calls.append((1, e))
        return b[0]

    def h2(e):
        calls.append((2, e))
        return d[0]

    out = Rec(c)
    await pipe(a[0], rx.catch(h1), rx.catch(h2)).subscribe_async(out)
    exp, term, err, want = [], None, None, []
    for i, (_, vs, end, x, play) in enumerate((a, b, d)):
        await play()
        exp += vs
        term, err = TERMS[end], x
        if end != "error":
            break
        if i < 2:
            want.append((i + 1, x))
    out.expect(exp, term, err, "catch.catch")
    c.check(len(calls) == len(want) and all(p[0] == q[0] and p[1] is q[1] for p, q in zip(calls, want)), lambda: f"handler calls {calls!r}")


@harness("C22", quick=[dict(op=o) for o in CATCH], bounds="every kind of exception, arbitrary and falsy values, over every form of source")
async def catch_kinds(c, op):
    errs = error_kinds()
    err = errs[c.choice("kind", len(errs))]
    sp = special_values()
    v = sp[c.choice("v", len(sp))]
    sync = c.bool("sync")
    calls = []

    def handler(e):
        calls.append(e)
        return Feed(c, [("next", v), ("done", None)], sync=sync)

    out = Rec(c)
    await pipe(Feed(c, [("next", v), ("error", err)], sync=sync), CATCH[op](handler)).subscribe_async(out)
    await c.settle()
    c.check(len(out.values) == 2 and out.values[0] is v and out.values[1] is v and out.terminal == "done" and out.bad == 0, lambda: f"{op}: {out.events!r}")
    c.check(len(calls) == 1 and calls[0] is err, f"{op}: handler calls")


class Attempts(AsyncObservable):
    """A source whose i-th subscription plays plan[i]."""

    def __init__(self, c, plan, form):
        self.c, self.plan, self.form = c, plan, form
        self.total = 0
        self.subs = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        i = self.total
        self.total += 1
        if i >= len(self.plan):
            self.c.fail("retry: too many subscriptions")
            return AsyncDisposable.empty()
        f = Feed(self.c, self.plan[i], sync=self.form == 0)
        self.subs.append(f)
        return await f.subscribe_async(send, throw, close)


@harness("C22", quick=[dict(n=3, vals=2)], thorough=[dict(n=5, vals=3)],
         bounds="retry(r) with r symbolic in 0..n, up to n+2 attempts of 0..vals-1 arbitrary values each, each failing or the last completing or staying open, sources emitting during subscription or in a task", cost=3)
async def retry_all(c, n, vals):
    r = c.int("count", 0, n)
    fails = c.choice("fails", n + 2)  # number of failing attempts before one that does not fail
    end = ("done", "open")[c.choice("end", 2)]
    form = c.choice("form", 2)
    plan, vss, errs = [], [], []
    for i in range(n + 2):
        vs = seq(c, c.choice("n", vals)) if i <= fails else []
        x = Boom(str(i))
        ev = [("next", v) for v in vs]
        if i < fails:
            ev.append(("error", x))
        elif end == "done":
            ev.append(("done", None))
        plan.append(ev)
        vss.append(vs)
        errs.append(x)
    src = Attempts(c, plan, form)
    out = Rec(c)
    await pipe(src, rx.retry(r)).subscribe_async(out)
    await c.settle()
    k = r.__index__()
    if fails > k:
        exp = [v for vs in vss[:k + 1] for v in vs]
        out.expect(exp, "error", errs[k], "retry")
        c.check(src.total == k + 1, lambda: f"retry({k}): subscribed {src.total} times")
    else:
        exp = [v for vs in vss[:fails + 1] for v in vs]
        out.expect(exp, TERMS[end], what="retry")
        c.check(src.total == fails + 1, lambda: f"retry({k}): subscribed {src.total} times for {fails} failures")


@harness("C22", quick=[{}], bounds="retry(2) over attempts that fail with any two kinds of exceptions (or the same object each time), falsy values, emitting during subscription or in a task")
async def retry_kinds(c):
    a, b = error_kinds(), error_kinds()
    x = a[c.choice("first", len(a))]
    y = (x, Boom(), b[c.choice("second", len(b))])[c.choice("which", 3)]
    sp = special_values()
    v = sp[c.choice("v", 4)]
    src = Attempts(c, [[("next", v), ("error", e)] for e in (x, y, y, x)], c.choice("form", 2))
    out = Rec(c)
    await pipe(src, rx.retry(2)).subscribe_async(out)
    await c.settle()
    c.check(src.total == 3, lambda: f"retry(2): subscribed {src.total} times after {x!r}, {y!r}")
    c.check(len(out.values) == 3 and all(w is v for w in out.values), lambda: f"retry(2): {out.events!r}")
    c.check(out.terminal == "error" and out.errors[0] is y and out.bad == 0, lambda: f"retry(2): {out.events!r}")


@harness("C22", quick=[dict(n=12)], thorough=[dict(n=60)], bounds="retry(r), r symbolic in 0..n, over a source that always fails", max_steps=30000)
async def retry_deep(c, n):
    r = c.int("count", 0, n)
    form = c.choice("form", 2)
    errs = [Boom(str(i)) for i in range(n + 1)]
    src = Attempts(c, [[("next", i), ("error", errs[i])] for i in range(n + 1)], form)
    out = Rec(c)
    await pipe(src, rx.retry(r)).subscribe_async(out)
    await c.settle()
    k = r.__index__()
    out.expect(list(range(k + 1)), "error", errs[k], "retry")
    c.check(src.total == k + 1, f"retry({k}): number of subscriptions")


@harness("C22", quick=[dict(n=2)], thorough=[dict(n=3)], bounds="retry(r) over a hot source: every sequence of n+2 events; each failure ends that attempt")
async def retry_hot(c, n):
    r = c.int("count", 0, n)
    p = Probe(c, "hot")
    out = Rec(c)
    await pipe(p, rx.retry(r)).subscribe_async(out)
    exp, term, err, fails = [], None, None, 0
    for j in range(n + 2):
        await c.settle()
        c.check(p.total == fails + 1, "retry: number of subscriptions to the hot source")
        c.check(p.active == 1, "retry: the failed attempt is still subscribed")
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        if kind == "next":
            exp.append(j)
            await p.asend(j)
        elif kind == "error":
            x = Boom(str(j))
            fails += 1
            await p.athrow(x)
            if fails > r:
                term, err = "error", x
        else:
            await p.aclose()
            term = "done"
        await c.settle()
        out.expect(exp, term, err, "retry")
        if term:
            break


SAME = dict(FORMS)
SAME["merge"] = lambda a, b: pipe(a, rx.merge(b))
SAME["merge_seq"] = lambda a, b: rx.merge_seq([a, b])
SAME_BOUNDS = "one observable as both sources of the operator: n arbitrary elements, then a completion, an error, a disposal or nothing; one at a time or at once"


@harness("C16", quick=[dict(op=o, n=3) for o in SAME if o.startswith("merge")], thorough=[dict(op=o, n=6) for o in SAME if o.startswith("merge")], bounds=SAME_BOUNDS, cost=1)
@harness("C19", quick=[dict(op=o, n=3) for o in COMB], thorough=[dict(op=o, n=6) for o in COMB], bounds=SAME_BOUNDS, cost=1)
@harness("C20", quick=[dict(op=o, n=3) for o in WITH], thorough=[dict(op=o, n=6) for o in WITH], bounds=SAME_BOUNDS, cost=1)
@harness("C21", quick=[dict(op=o, n=3) for o in UNTIL], thorough=[dict(op=o, n=6) for o in UNTIL], bounds=SAME_BOUNDS, cost=1)
@harness("C03", quick=[dict(op=o, n=2) for o in SAME], thorough=[dict(op=o, n=4) for o in SAME], bounds=SAME_BOUNDS, cost=1)
@harness("C04", quick=[dict(op=o, n=2) for o in SAME], thorough=[dict(op=o, n=4) for o in SAME], bounds=SAME_BOUNDS, cost=1)
async def same_source(c, op, n):
    k = c.choice("n", n + 1)
    end = ("done", "error", "dispose", None)[c.choice("end", 4)]
    settle = c.bool("settle")
    err = Boom("source")
    vs = seq(c, k)
    p = Probe(c)
    out = Rec(c)
    sub = await SAME[op](p, p).subscribe_async(out)
    await c.settle()
    for v in vs:
        await c.calm("send", p.asend(v))
        if settle:
            await c.settle()
    await c.settle()
    if end == "dispose":
        await sub.dispose_async()
        seen = len(out.events)
        for v in (7, 8):
            await p.asend(v)
        await c.settle()
        c.check(p.active == 0, lambda: f"{op} of an observable with itself: {p.active} subscriptions left after disposing")
        c.check(len(out.events) == seen, lambda: f"{op} of an observable with itself: {out.events[seen:]!r} after disposing")
    elif end is not None:
        await c.calm("end", give(p, end, err))
        await c.settle()
    out.grammar(op)
    kind = op.split(".")[-1]
    got = out.values
    if kind == "take_until" and k:
        c.check(len(got) == 0 or (len(got) == 1 and c.eq(got, vs[:1])), lambda: f"{op} of an observable with itself: {got!r}")
        c.check(out.terminal == "done" and p.active == 0, lambda: f"{op} of an observable with itself: {out.kinds()!r}, {p.active} subscriptions left")
        return
    if kind == "combine_latest":
        first = [(v, v) for v in vs[:1]]
        allowed = [first + [t for a, b in zip(vs, vs[1:]) for t in ((b, a), (b, b))], first + [t for a, b in zip(vs, vs[1:]) for t in ((a, b), (b, b))]]
    elif kind == "with_latest_from":
        allowed = [[(v, v) for v in vs], [(b, a) for a, b in zip(vs, vs[1:])]]
    elif kind == "take_until":
        allowed = [[]]
    else:
        allowed = [[v for v in vs for _ in range(2)]]
    c.check(any(len(got) == len(a) and c.eq(got, a) for a in allowed), lambda: f"{op} of an observable with itself: {got!r}, expected one of {allowed!r}")
    if end == "error":
        c.check(out.errors == [err] and p.active == 0, lambda: f"{op} of an observable with itself: {out.kinds()!r}, {p.active} subscriptions left")
    elif end == "done":
        c.check(out.terminal == "done", lambda: f"{op} of an observable with itself: {out.kinds()!r} when it completed")
    else:
        c.check(out.terminal is None, lambda: f"{op} of an observable with itself: {out.kinds()!r} without a terminal event")
