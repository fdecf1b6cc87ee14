"""C09 map family, C10 filter family, C13 distinct_until_changed, C14 scan/reduce, C15 indexed."""
from __future__ import annotations

import collections

from expression.system import ObjectDisposedException
from symx.registry import harness

from .ops import *  # noqa: F401,F403
from .ops import _a, _combine, _filtering, _transform


class Src:
    """Feeds a list of values and an ending, from a subject or a ready-made sequence."""

    def __init__(self, c, kind, vs, end, err=None):
        self.c, self.kind, self.vs, self.end, self.err = c, kind, vs, end, err
        if kind == "seq":
            def gen():
                for v in vs:
                    yield v
                if end == "error":
                    raise err
            self.obs = rx.from_iterable(gen())
            if end == "open":
                self.obs = rx.merge(rx.never())(self.obs)
        elif kind == "single":
            self.obs = AsyncSingleSubject()
        else:
            self.obs = rx.AsyncSubject()

    async def play(self, settle=False):
        if self.kind != "seq":
            for v in self.vs:
                await self.obs.asend(v)
                if settle:
                    await self.c.settle()
            if self.end == "done":
                await self.obs.aclose()
            elif self.end == "error":
                await self.obs.athrow(self.err)
        await self.c.settle()


ENDS = ("done", "error", "open")
TERM = {"done": "done", "error": "error", "open": None}


def later(c, f, ticks):
    """Async version of f that takes some loop turns."""

    async def g(*a):
        await c.ticks(ticks)
        return f(*a)

    return g


# ---------------------------------------------------------------- C09
MAPS = {
    "map": lambda f, c, t: rx.map(f),
    "map_async": lambda f, c, t: rx.map_async(later(c, f, t)),
    "starmap": lambda f, c, t: rx.starmap(f),
    "starmap_async": lambda f, c, t: _transform.starmap_async(later(c, f, t)),
    "AsyncRx.map": lambda f, c, t: lambda s: rx.AsyncRx(s).map(f),
    "AsyncRx.starmap": lambda f, c, t: lambda s: rx.AsyncRx(s).starmap(f),
}


@harness("C09", quick=[dict(op=o, src=s, n=12) for o in MAPS for s in ("subject", "seq", "single")],
         thorough=[dict(op=o, src=s, n=40) for o in MAPS for s in ("subject", "seq", "single")],
         bounds="length 0..n, values arbitrary integers, callback an arbitrary function, async callbacks take 0..2 loop turns")
async def map_all(c, op, src, n):
    star = "starmap" in op
    length = c.choice("length", n + 1)
    end = ENDS[c.choice("end", 3)]
    t = c.choice("ticks", 3) if "async" in op else 0
    vs = seq(c, length)
    f = c.func("f", 2 if star else 1)
    calls = []

    def fn(*a):
        calls.append(a)
        return f(*a)

    if star:
        vs = [(v, c.value("w")) for v in vs]
    err = Boom()
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await pipe(s.obs, MAPS[op](fn, c, t)).subscribe_async(out)
    await s.play()
    exp = [f(*v) if star else f(v) for v in vs]
    out.expect(exp, TERM[end], err, op)
    c.check(c.eq(calls, [tuple(v) if star else (v,) for v in vs]), f"{op}: callback not called exactly once per element")


# what an element of a starmap may be: any iterable of arguments
STAR = (tuple, list, iter, lambda t: (x for x in t), lambda t: dict.fromkeys(t), lambda t: collections.namedtuple("P", "x y")(*t), collections.deque, lambda t: Args2(t))


class Args2:
    def __init__(self, t):
        self.t = t

    def __iter__(self):
        return iter(self.t)


@harness("C09", quick=[dict(op=o) for o in MAPS], bounds="the star variants over any iterable of arguments (tuple, list, iterator, generator, dict, named tuple, deque, own class); callback results and elements among values such as None, 0, False, '', (), exceptions, Some, notifications")
async def map_special(c, op):
    star = "starmap" in op
    sp = special_values()
    i = c.choice("arg", len(sp))
    j = c.choice("result", len(sp))
    vs = [sp[i], sp[0], sp[i]]
    res = [sp[j], sp[j], sp[i]]
    k = [0]
    got = []

    def fn(*a):
        got.append(a[0])
        k[0] += 1
        return res[k[0] - 1]

    form = STAR[c.choice("form", len(STAR))] if star and i == 0 else tuple
    s = Src(c, "subject", [form((v, 1)) if star else v for v in vs], "done")
    out = Rec(c)
    await pipe(s.obs, MAPS[op](fn, c, 0)).subscribe_async(out)
    await s.play()
    c.check(len(out.values) == 3 and all(a is b for a, b in zip(out.values, res)), lambda: f"{op}: {out.values!r} instead of {res!r}")
    c.check(len(got) == 3 and all(a is b for a, b in zip(got, vs)), f"{op}: callback got other elements")
    c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


@harness("C09", quick=[dict(op=o) for o in MAPS], bounds="callbacks that return the element itself (the whole tuple for the star variants), the same object or an equal one each time")
async def map_identity(c, op):
    star = "starmap" in op
    e = (1, 2)
    vs = [(e, e, (1, 2)), (e, (1, 2), e)][c.choice("equal", 2)]
    k = [0]

    def fn(*a):
        k[0] += 1
        return vs[k[0] - 1]

    s = Src(c, "subject", list(vs), "done")
    out = Rec(c)
    await pipe(s.obs, MAPS[op](fn, c, 0)).subscribe_async(out)
    await s.play()
    c.check(len(out.values) == 3 and all(a is b for a, b in zip(out.values, vs)), lambda: f"{op}: {out.values!r}")
    c.check(k[0] == 3, f"{op}: callback called {k[0]} times")
    c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


@harness("C09", quick=[dict(op=o) for o in ("starmap", "starmap_async", "AsyncRx.starmap")],
         bounds="tuples of 0..4 arbitrary integers")
async def starmap_arity(c, op):
    k = c.choice("arity", 5)
    vs = [tuple(c.value("v") for _ in range(k)) for _ in range(3)]
    got = []

    def fn(*a):
        got.append(a)
        return len(got)

    s = Src(c, "subject", vs, "done")
    out = Rec(c)
    await pipe(s.obs, MAPS[op](fn, c, 0)).subscribe_async(out)
    await s.play()
    c.check(c.eq(got, vs), "starmap did not spread the element")
    out.expect([1, 2, 3], "done", what=op)


# ---------------------------------------------------------------- C10
FILTERS = {
    "filter": lambda p, c, t: rx.filter(p),
    "filter_async": lambda p, c, t: rx.filter_async(later(c, p, t)),
    "AsyncRx.filter": lambda p, c, t: lambda s: rx.AsyncRx(s).filter(p),
    "AsyncRx.filter_async": lambda p, c, t: lambda s: rx.AsyncRx(s).filter_async(later(c, p, t)),
    "starfilter": lambda p, c, t: rx.starfilter(p),
    "AsyncRx.starfilter": lambda p, c, t: lambda s: rx.AsyncRx(s).starfilter(p),
}


@harness("C10", quick=[dict(op=o, src=s, n=6) for o in FILTERS for s in ("subject", "seq")],
         thorough=[dict(op=o, src=s, n=9) for o in FILTERS for s in ("subject", "seq", "single")],
         bounds="length n, values arbitrary integers, predicate arbitrary, async predicates take 0..2 loop turns")
async def filter_all(c, op, src, n):
    star = "starfilter" in op
    end = ENDS[c.choice("end", 3)]
    t = c.choice("ticks", 3) if "async" in op else 0
    vs = seq(c, n)
    if star:
        vs = [(v, c.value("w")) for v in vs]
    p = c.pred("p", 2 if star else 1)
    calls = []

    def fn(*a):
        calls.append(a)
        return p(*a)

    err = Boom()
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await pipe(s.obs, FILTERS[op](fn, c, t)).subscribe_async(out)
    await s.play()
    exp = [v for v in vs if (p(*v) if star else p(v))]
    out.expect(exp, TERM[end], err, op)
    c.check(c.eq(calls, [tuple(v) if star else (v,) for v in vs]), f"{op}: predicate not called exactly once per element")


@harness("C10", quick=[dict(op=o, n=30) for o in FILTERS], thorough=[dict(op=o, n=120) for o in FILTERS],
         bounds="length n, one accepted or one rejected element at a symbolic position")
async def filter_deep(c, op, n):
    star = "starfilter" in op
    pos = c.int("pos", 0, n)
    only = c.bool("only")
    vs = [(i, i) if star else i for i in range(n)]

    def p(x, *_):
        return (x == pos) if only else (x != pos)

    s = Src(c, "subject", vs, "done")
    out = Rec(c)
    await pipe(s.obs, FILTERS[op](p, c, 0)).subscribe_async(out)
    await s.play()
    k = pos.__index__()
    out.expect([v for i, v in enumerate(vs) if (i == k) == only], "done", what=op)


@harness("C10", quick=[dict(op=o) for o in FILTERS],
         bounds="elements such as None, 0, False, '', exceptions, Some; predicate results that are truthy or falsy without being bool; any iterable of arguments")
async def filter_special(c, op):
    star = "starfilter" in op
    sp = special_values()
    i = c.choice("arg", len(sp))
    verdict = c.choice("verdict", 8)
    r = (True, False, 1, 0, "yes", "", [0], None)[verdict]
    vs = [sp[i], sp[i]]
    k = [0]

    def p(*a):
        k[0] += 1
        return r if k[0] == 1 else True

    form = STAR[c.choice("form", len(STAR))] if star and i == 0 else tuple
    vals = [form((v, 1)) for v in vs] if star else vs
    s = Src(c, "subject", vals, "done")
    out = Rec(c)
    await pipe(s.obs, FILTERS[op](p, c, 0)).subscribe_async(out)
    await s.play()
    exp = vals if r else vals[1:]
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)), lambda: f"{op}: {out.values!r} instead of {exp!r}")
    c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


CHOOSE = {
    "choose": lambda f, c, t: rx.choose(f),
    "choose_async": lambda f, c, t: rx.choose_async(later(c, f, t)),
    "AsyncRx.choose": lambda f, c, t: lambda s: rx.AsyncRx(s).choose(f),
    "AsyncRx.choose_async": lambda f, c, t: lambda s: rx.AsyncRx(s).choose_async(later(c, f, t)),
}


@harness("C10", quick=[dict(op=o, src=s, n=5) for o in CHOOSE for s in ("subject", "seq")],
         thorough=[dict(op=o, src=s, n=8) for o in CHOOSE for s in ("subject", "seq", "single")],
         bounds="length n, values arbitrary integers, chooser arbitrary (accepting predicate and result function)")
async def choose_all(c, op, src, n):
    end = ENDS[c.choice("end", 3)]
    t = c.choice("ticks", 3) if "async" in op else 0
    vs = seq(c, n)
    p, f = c.pred("p"), c.func("f")
    calls = []

    def fn(x):
        calls.append(x)
        return Some(f(x)) if p(x) else Nothing

    err = Boom()
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await pipe(s.obs, CHOOSE[op](fn, c, t)).subscribe_async(out)
    await s.play()
    out.expect([f(v) for v in vs if p(v)], TERM[end], err, op)
    c.check(c.eq(calls, vs), f"{op}: chooser not called exactly once per element")


@harness("C10", quick=[dict(op=o) for o in CHOOSE], bounds="contents such as None, 0, False, '', Nothing, exceptions")
async def choose_special(c, op):
    sp = special_values()
    i = c.choice("content", len(sp))
    none = c.bool("none")
    rs = [Some(sp[i]), Nothing if none else Some(None), Some(sp[i])]
    k = [0]

    def fn(x):
        k[0] += 1
        return rs[k[0] - 1]

    s = Src(c, "subject", [1, 2, 3], "done")
    out = Rec(c)
    await pipe(s.obs, CHOOSE[op](fn, c, 0)).subscribe_async(out)
    await s.play()
    exp = [sp[i], sp[i]] if none else [sp[i], None, sp[i]]
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)), lambda: f"{op}: {out.values!r} instead of {exp!r}")
    c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


# ---------------------------------------------------------------- C13
DIST = {
    "distinct": lambda s: _filtering.distinct_until_changed(s),
    "rx.distinct": lambda s: rx.distinct_until_changed(s),
    "AsyncRx.distinct": lambda s: rx.AsyncRx(s).distinct_until_changed(),
}


@harness("C13", quick=[dict(op=o, src=s, n=7) for o in DIST for s in ("subject", "seq")] + [dict(op="distinct", src="subject", n=9)],
         thorough=[dict(op=o, src=s, n=10) for o in DIST for s in ("subject", "seq", "single")],
         bounds="length 0..n, values arbitrary integers (every equality pattern)")
async def distinct_all(c, op, src, n):
    length = n if n > 7 else c.choice("length", n + 1)
    end = ENDS[c.choice("end", 3)]
    vs = seq(c, length)
    err = Boom()
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await DIST[op](s.obs).subscribe_async(out)
    await s.play()
    exp = [v for i, v in enumerate(vs) if i == 0 or not (v == vs[i - 1])]
    out.expect(exp, TERM[end], err, op)


@harness("C13", quick=[dict(settle=b) for b in (False, True)], bounds="three elements, each one of 16 special values (None, 0, False, '', exceptions, notifications, ...)")
async def distinct_special(c, settle):
    sp = [v for v in special_values() if not isinstance(v, Sealed)]
    m = len(sp)
    vs = [sp[c.choice("a", m)], sp[c.choice("b", m)]]
    vs.append(vs[c.choice("c", 2)])
    s = Src(c, "subject", vs, "done")
    out = Rec(c)
    await DIST["distinct"](s.obs).subscribe_async(out)
    await s.play(settle)
    exp = [v for i, v in enumerate(vs) if i == 0 or not (v == vs[i - 1])]
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)), lambda: f"{out.values!r} instead of {exp!r}")
    c.check(out.terminal == "done" and out.bad == 0, "termination")


class Odd:
    """An object whose equality is an arbitrary symmetric relation, not even reflexive."""

    def __init__(self, eq, i):
        self.eq, self.i = eq, i

    def __eq__(self, o):
        return isinstance(o, Odd) and bool(self.eq(min(self.i, o.i), max(self.i, o.i)))

    __hash__ = None


@harness("C13", quick=[dict(op=o, n=5) for o in DIST], thorough=[dict(op=o, n=8) for o in DIST],
         bounds="n elements among three objects whose equality is an arbitrary symmetric relation (neither transitive nor reflexive in general, as with NaN or approximate comparison)")
async def distinct_relation(c, op, n):
    eq = c.pred("eq", 2)
    pool = [Odd(eq, i) for i in range(3)]
    vs = [pool[c.choice("which", 3)] for _ in range(n)]
    s = Src(c, "subject", vs, "done")
    out = Rec(c)
    await DIST[op](s.obs).subscribe_async(out)
    await s.play()
    exp = [v for i, v in enumerate(vs) if i == 0 or not (v == vs[i - 1])]
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)),
            lambda: f"{op}: {[v.i for v in out.values]!r} instead of {[v.i for v in exp]!r}")
    c.check(out.terminal == "done" and out.bad == 0, "termination")


class Comparison:
    """Elements of which one pair cannot be compared: an exception, or a result without a truth value (as with arrays)."""

    def __init__(self, i, at, boom, late):
        self.i, self.at, self.boom, self.late = i, at, boom, late

    def __eq__(self, o):
        if not isinstance(o, Comparison):
            return NotImplemented
        if max(self.i, o.i) != self.at:
            return False
        if self.late:
            return Ambiguous(self.boom)
        raise self.boom

    __hash__ = None


class Ambiguous:
    def __init__(self, boom):
        self.boom = boom

    def __bool__(self):
        raise self.boom


@harness("C07", quick=[dict(op=o, n=4) for o in DIST], thorough=[dict(op=o, n=8) for o in DIST], bounds="distinct_until_changed over up to n elements of which a symbolic one cannot be compared with the one before it (every kind of exception), one at a time or at once")
@harness("C13", quick=[dict(op=o, n=4) for o in DIST], thorough=[dict(op=o, n=8) for o in DIST], bounds="up to n elements of which a symbolic one cannot be compared with the one before it (every kind of exception), one at a time or at once")
async def distinct_raises(c, op, n):
    er = error_kinds()
    at = c.choice("at", n)
    boom = er[c.choice("kind", len(er))] if at == 1 else er[0]
    late = c.bool("late")
    settle = c.bool("settle")
    end = ("done", "error")[c.choice("end", 2)]
    other = Boom("source")
    vs = [Comparison(i, at if at else n, boom, late) for i in range(n)]
    p = Probe(c)
    out = Rec(c)
    await DIST[op](p).subscribe_async(out)
    for v in vs:
        await c.calm("send", p.asend(v))
        if settle:
            await c.settle()
    await c.calm("end", give(p, end, other))
    await c.settle()
    got = [v.i for v in out.values]
    out.grammar(op)
    c.check(got == list(range(at or n)), lambda: f"{op}: {got!r}")
    if at:
        c.check(out.errors == [boom] and p.active == 0, lambda: f"{op}: ended with {out.kinds()[-1:]!r}, the exception of comparing elements {at - 1} and {at} is lost")
    else:
        c.check(out.kinds()[-1:] == [end], lambda: f"{op}: {out.kinds()!r}")


@harness("C13", quick=[dict(n=30)], thorough=[dict(n=120)], bounds="length n with one repetition at a symbolic position, repeated a symbolic number of times")
async def distinct_deep(c, n):
    pos = c.int("pos", 0, n)
    vs, last = [], 0
    for i in range(n):
        if not (pos == i):
            last = last + 1
        vs.append(last)
    s = Src(c, "subject", vs, "done")
    out = Rec(c)
    await DIST["distinct"](s.obs).subscribe_async(out)
    await s.play()
    exp = [v for i, v in enumerate(vs) if i == 0 or v != vs[i - 1]]
    out.expect(exp, "done", what="distinct")


# ---------------------------------------------------------------- C14
SCANS = {
    "scan": lambda f, i, c, t: rx.scan(f, i),
    "scan_async": lambda f, i, c, t: rx.scan_async(later(c, f, t), i),
}
REDUCES = {
    "reduce": lambda f, i, c, t: rx.reduce(f, i),
    "reduce_async": lambda f, i, c, t: rx.reduce_async(later(c, f, t), i),
    "AsyncRx.reduce": lambda f, i, c, t: lambda s: rx.AsyncRx(s).reduce(f, i),
    "AsyncRx.reduce_async": lambda f, i, c, t: lambda s: rx.AsyncRx(s).reduce_async(later(c, f, t), i),
}


@harness("C14", quick=[dict(op=o, src=s, n=6) for o in (*SCANS, *REDUCES) for s in ("subject", "seq")],
         thorough=[dict(op=o, src=s, n=16) for o in (*SCANS, *REDUCES) for s in ("subject", "seq", "single")],
         bounds="length 0..n, values and initial value arbitrary integers, accumulator an arbitrary binary function that raises at a symbolic position or never, source completes, fails or stays open")
async def fold_all(c, op, src, n):
    length = c.choice("length", n + 1)
    end = ENDS[c.choice("end", 3)]
    t = c.choice("ticks", 2) if "async" in op else 0
    fail_at = c.int("fail_at", 0, n)
    vs = seq(c, length)
    init = c.value("init")
    f = c.func("f", 2)
    boom, err = Boom("acc"), Boom("src")
    calls = []

    def acc(a, x):
        calls.append((a, x))
        if fail_at == len(calls) - 1:
            raise boom
        return f(a, x)

    s = Src(c, src, vs, end, err)
    out = Rec(c)
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(s.obs, mk(acc, init, c, t)).subscribe_async(out)
    try:
        await s.play()
    except Boom:
        c.fail(f"{op}: exception reached the producer")
    except ObjectDisposedException:
        # a failed fold disposes its subscription, and with it a single-observer subject
        c.check(src == "single" and fail_at < len(calls), f"{op}: the producer got an exception")
        await c.settle()
    k = min(fail_at.__index__(), length)
    states, a = [], init
    for v in vs[:k]:
        a = f(a, v)
        states.append(a)
    failed = k < length
    is_scan = op in SCANS
    if failed:
        out.expect(states if is_scan else [], "error", boom, op)
    elif end == "error":
        out.expect(states if is_scan else [], "error", err, op)
    elif is_scan:
        out.expect(states, TERM[end], what=op)
    else:
        out.expect(states[-1:] if end == "done" else [], TERM[end], what=op)
    used = k + 1 if failed else length
    c.check(c.eq([x for _, x in calls], vs[:used]), f"{op}: accumulator not called exactly once per element")


@harness("C14", quick=[dict(op=o) for o in (*SCANS, *REDUCES)], bounds="initial values and results such as None, 0, False, '', exceptions")
async def fold_special(c, op):
    sp = special_values()
    i = c.choice("init", len(sp))
    j = c.choice("result", len(sp))
    args = []

    def acc(a, x):
        args.append(a)
        return sp[j] if x == 1 else sp[i]

    s = Src(c, "subject", [1, 2], "done")
    out = Rec(c)
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(s.obs, mk(acc, sp[i], c, 0)).subscribe_async(out)
    await s.play()
    exp = [sp[j], sp[i]] if op in SCANS else [sp[i]]
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)), lambda: f"{op}: {out.values!r} instead of {exp!r}")
    c.check(len(args) == 2 and args[0] is sp[i] and args[1] is sp[j], f"{op}: accumulator state")
    c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


@harness("C14", quick=[dict(op=o) for o in (*SCANS, *REDUCES)], bounds="initial values and states such as None, 0, False, '', exceptions; the accumulator raises an exception of each type (23 types) at the first or second element; over a subject or an iterable")
async def fold_raises(c, op):
    sp, er = special_values(), error_kinds()
    i, at = c.choice("state", len(sp)), c.choice("at", 2)
    err = er[c.choice("type", len(er))]
    src = ("subject", "seq")[c.choice("source", 2)]
    calls = []

    def acc(a, x):
        calls.append(a)
        if len(calls) == at + 1:
            raise err
        return sp[i]

    s = Src(c, src, [1, 2, 3], "done")
    out = Rec(c)
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(s.obs, mk(acc, sp[i], c, 0)).subscribe_async(out)
    await s.play()
    exp = [sp[i]] * at if op in SCANS else []
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)), lambda: f"{op}: {out.values!r} instead of {exp!r}")
    c.check(out.terminal == "error" and out.errors[0] is err and out.bad == 0, lambda: f"{op}: the accumulator raised {err!r}, the observer got {out.events!r}")
    c.check(len(calls) == at + 1, f"{op}: accumulator called after it raised")


@harness("C14", quick=[dict(op=o) for o in (*SCANS, *REDUCES)], bounds="the accumulator raises at the first or second element; while the observer handles the error (1..2 loop turns), it or another task sends a further value, error or completion", cost=1)
async def fold_error_meanwhile(c, op):
    at, turns = c.choice("at", 2), 1 + c.choice("turns", 2)
    what = ("next", "error", "done")[c.choice("what", 3)]
    nested = c.bool("nested")
    boom = Boom("acc")
    calls = []

    def acc(a, x):
        calls.append(x)
        if x == at:
            raise boom
        return x

    s = rx.AsyncSubject()
    out = Rec(c)

    async def on(kind, v):
        if kind == "error" and len(out.errors) == 1:
            t = asyncio.ensure_future(give(s, what, Boom("late")))
            await c.ticks(turns)
            if nested:
                await t

    out.on_any = on
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(s, mk(acc, 0, c, 0)).subscribe_async(out)
    for j in range(3):
        await c.calm("send", s.asend(j))
    await c.drain()
    out.expect(list(range(at)) if op in SCANS else [], "error", boom, op)
    c.check(len(calls) == at + 1, lambda: f"{op}: accumulator called with {calls!r}")


@harness("C14", quick=[dict(op=o) for o in (*SCANS, *REDUCES)], bounds="the accumulator raises at the first or second element of a source whose disposal takes 1..3 loop turns; 0..3 turns after that element another task sends a further value, error or completion", cost=1)
async def fold_error_slow(c, op):
    at, turns = c.choice("at", 2), c.choice("turns", 4)
    what = ("next", "error", "done")[c.choice("what", 3)]
    boom = Boom("acc")
    calls = []

    def acc(a, x):
        calls.append(x)
        if x == at:
            raise boom
        return x

    p = Probe(c)
    p.slow = 1 + c.choice("slow", 3)
    out = Rec(c)
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(p, mk(acc, 0, c, 0)).subscribe_async(out)
    for j in range(at):
        await c.calm("send", p.asend(j))
    t = asyncio.ensure_future(p.asend(at))
    await c.ticks(1 + turns)
    await c.calm("send", give(p, what, Boom("late") if what == "error" else 7))
    await c.drain()
    c.check(t.done(), f"{op}: the send does not return")
    out.expect(list(range(at)) if op in SCANS else [], "error", boom, op)
    c.check(len(calls) == at + 1, lambda: f"{op}: accumulator called with {calls!r}")
    c.check(p.active == 0, f"{op}: the source is still subscribed")


@harness("C14", quick=[dict(op=o, n=30) for o in (*SCANS, *REDUCES)], thorough=[dict(op=o, n=200) for o in (*SCANS, *REDUCES)],
         bounds="length n; accumulator raises at a symbolic position")
async def fold_deep(c, op, n):
    fail_at = c.int("fail_at", 0, n)
    boom = Boom("acc")
    k = [0]

    def acc(a, x):
        k[0] += 1
        if fail_at == k[0] - 1:
            raise boom
        return a + x

    s = Src(c, "subject", list(range(1, n + 1)), "done")
    out = Rec(c)
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(s.obs, mk(acc, 5, c, 0)).subscribe_async(out)
    await s.play()
    m = fail_at.__index__()
    sums = [5 + i * (i + 1) // 2 for i in range(1, m + 1)]
    if m < n:
        out.expect(sums if op in SCANS else [], "error", boom, op)
        c.check(k[0] == m + 1, f"{op}: accumulator called after it raised")
    else:
        out.expect(sums if op in SCANS else sums[-1:], "done", what=op)


@harness("C14", quick=[dict(op=o, n=3) for o in (*SCANS, *REDUCES)], thorough=[dict(op=o, n=6) for o in (*SCANS, *REDUCES)],
         bounds="the accumulator raises at a symbolic position; the source does not stop when disposed but sends n more arbitrary values, errors and completions, at once or settled")
async def fold_after_error(c, op, n):
    at = c.choice("at", n)
    boom = Boom("acc")
    f = c.func("f", 2)
    calls = []

    def acc(a, x):
        calls.append(x)
        if len(calls) == at + 1:
            raise boom
        return f(a, x)

    p = Probe(c)
    out = Rec(c)
    init = c.value("init")
    mk = SCANS.get(op) or REDUCES[op]
    await pipe(p, mk(acc, init, c, 0)).subscribe_async(out)
    raw = p.subs[0][0]
    turn = c.choice("settle", 2)
    vs = seq(c, at + 1)
    for v in vs:
        await raw.asend(v)
        if turn:
            await c.settle()
    states, a = [], init
    for v in vs[:at]:
        a = f(a, v)
        states.append(a)
    for _ in range(n):
        kind = ("next", "error", "done")[c.choice("kind", 3)]
        await raw_give(raw, kind, Boom("late") if kind == "error" else c.value("late"))
    await c.settle()
    out.expect(states if op in SCANS else [], "error", boom, op)


async def raw_give(o, kind, v):
    try:
        await give(o, kind, v)
    except Exception:
        pass


# ---------------------------------------------------------------- C15
def _indexed(c, op, f, p, t, calls):
    def fi(x, i):
        calls.append((x, i))
        return f(x, i)

    def pi(x, i):
        calls.append((x, i))
        return p(x, i)

    if op == "mapi":
        return rx.mapi(fi)
    if op == "mapi_async":
        return rx.mapi_async(later(c, fi, t))
    if op == "flat_mapi":
        return rx.flat_mapi(lambda x, i: rx.single(fi(x, i)))
    if op == "flat_mapi_async":
        return _transform.flat_mapi_async(later(c, lambda x, i: rx.single(fi(x, i)), t))
    if op == "filteri":
        return rx.filteri(pi)
    if op == "AsyncRx.filteri":
        return lambda s: rx.AsyncRx(s).filteri(pi)
    raise KeyError(op)


IDX = ("mapi", "mapi_async", "flat_mapi", "flat_mapi_async", "filteri", "AsyncRx.filteri")


@harness("C15", quick=[dict(op=o, src=s, n=5) for o in IDX for s in ("subject", "seq")],
         thorough=[dict(op=o, src=s, n=7) for o in IDX for s in ("subject", "seq", "single")],
         bounds="length 0..n, values arbitrary integers, callback an arbitrary function of element and index")
async def index_all(c, op, src, n):
    length = c.choice("length", n + 1)
    end = ENDS[c.choice("end", 3)]
    t = c.choice("ticks", 3) if "async" in op else 0
    vs = seq(c, length)
    f, p = c.func("f", 2), c.pred("p", 2)
    err = Boom()
    calls = []
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await pipe(s.obs, _indexed(c, op, f, p, t, calls)).subscribe_async(out)
    await s.play()
    if "filter" in op:
        exp = [v for i, v in enumerate(vs) if p(v, i)]
    else:
        exp = [f(v, i) for i, v in enumerate(vs)]
    c.check(c.eq(calls, [(v, i) for i, v in enumerate(vs)]), lambda: f"{op}: callback calls {calls!r}")
    if "flat" in op and end == "error":
        # inner sources may still be pending when the outer fails
        out.grammar(op)
        c.check(out.terminal == "error" and out.errors[0] is err, f"{op}: error")
        got = out.values
        c.check(c.eq(got, exp[:len(got)]), f"{op}: values")
    else:
        out.expect(exp, TERM[end], err, op)


@harness("C15", quick=[dict(op=o, n=40) for o in IDX], thorough=[dict(op=o, n=300) for o in IDX],
         bounds="length 0..n (symbolic), indexes counted without gaps", max_steps=30000)
async def index_deep(c, op, n):
    length = c.int("length", 0, n)
    calls = []
    src = rx.AsyncSubject()
    out = Rec(c)
    await pipe(src, _indexed(c, op, lambda x, i: i, lambda x, i: i % 2 == 0, 0, calls)).subscribe_async(out)
    k = 0
    while k < length:
        await src.asend(("x", k))
        k += 1
    await src.aclose()
    await c.settle()
    c.check([i for _, i in calls] == list(range(k)), lambda: f"{op}: indexes {calls!r}")
    c.check([x for x, _ in calls] == [("x", i) for i in range(k)], lambda: f"{op}: elements {calls!r}")
    exp = [("x", i) for i in range(0, k, 2)] if "filter" in op else list(range(k))
    out.expect(exp, "done", what=op)


@harness("C15", quick=[dict(op=o, n=2100) for o in IDX], thorough=[dict(op=o, n=4000 if "flat" in o else 12000) for o in IDX],
         bounds="n-1 or n elements: the index has no limit of its own", max_steps=2000000, path_s=60)
async def index_long(c, op, n):
    length = n - c.choice("fewer", 2)
    calls = []
    src = rx.AsyncSubject()
    out = Rec(c)
    await pipe(src, _indexed(c, op, lambda x, i: i, lambda x, i: i % 2 == 0, 0, calls)).subscribe_async(out)
    for k in range(length):
        await src.asend(k)
    await c.settle()
    c.check(calls == [(i, i) for i in range(length)], lambda: f"{op}: {len(calls)} calls, the last {calls[-1:]!r}")
    await src.aclose()
    await c.settle()
    out.expect(list(range(0, length, 2)) if "filter" in op else list(range(length)), "done", what=op)


@harness("C15", quick=[dict(n=5, src=s) for s in ("subject", "seq")], thorough=[dict(n=9, src=s) for s in ("subject", "seq", "single")],
         bounds="source length 0..n, zip sequence length 0..n+1 (list, generator or infinite), values arbitrary, zip iterator raises at a symbolic position or never")
async def zip_all(c, n, src):
    length = c.choice("length", n + 1)
    end = ENDS[c.choice("end", 3)]
    form = c.choice("form", 3)
    m = c.int("m", 0, n + 1)
    vs = seq(c, length)
    items = seq(c, n + 1, "item")
    boom, err = Boom("iter"), Boom("src")
    raising = form == 2
    if raising:
        er = error_kinds()
        boom = er[c.choice("type", len(er))]

    def gen():
        i = 0
        while i < m:
            yield items[i]
            i += 1
        if raising:
            raise boom

    k = None
    if form == 0:
        k = m.__index__()
        z = items[:k]
    else:
        z = gen()
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await pipe(s.obs, _combine.zip_seq(z)).subscribe_async(out)
    await s.play()
    k = m.__index__()
    exp = list(zip(vs, items[:k]))
    if length > k:
        out.expect(exp, "error" if raising else "done", boom, "zip")
    else:
        out.expect(exp, TERM[end], err, "zip")


@harness("C15", quick=[{}], bounds="items and elements such as None, 0, False, ''")
async def zip_special(c):
    sp = special_values()
    i, j = c.choice("x", len(sp)), c.choice("item", len(sp))
    src = rx.AsyncSubject()
    out = Rec(c)
    await pipe(src, _combine.zip_seq([sp[j], sp[i]])).subscribe_async(out)
    for v in (sp[i], sp[j]):
        await src.asend(v)
    await c.settle()
    c.check(len(out.values) == 2 and all(type(t) is tuple and len(t) == 2 for t in out.values), "zip tuples")
    if len(out.values) == 2:
        (a, b), (x, y) = out.values
        c.check(a is sp[i] and b is sp[j] and x is sp[j] and y is sp[i], "zip contents")
    c.check(out.terminal is None, "zip terminated early")


# ---------------------------------------------------------------- a producer that gives up waiting
def _give_up():
    f = lambda x: x  # noqa: E731
    return {
        "C28": {"none": lambda s: s},
        "C29": {"none": lambda s: s},
        "C09": {k: (lambda s, k=k: pipe(s, rx.map(lambda v: (v, 0)), MAPS[k](lambda v, _: v, None, 0)) if "star" in k else pipe(s, MAPS[k](f, None, 0))) for k in ("map", "starmap")},
        "C10": {"filter": rx.filter(lambda v: True), "choose": rx.choose(Some), "starfilter": lambda s: pipe(s, rx.map(lambda v: (v, 0)), rx.starfilter(lambda v, _: True), rx.map(lambda p: p[0]))},
        "C14": {"scan": rx.scan(lambda a, v: v, 0)},
    }


GIVE_BOUNDS = "n arbitrary elements, an observer that takes 5 s for a symbolic one of them, whose producer gives up (is cancelled) after a symbolic time, or never; later elements and the termination follow"


def _cancelled(prop, singles):
    @harness(prop, quick=[dict(op=o, single=b, n=3) for o in _give_up()[prop] for b in singles],
             thorough=[dict(op=o, single=b, n=5) for o in _give_up()[prop] for b in singles], bounds=GIVE_BOUNDS, cost=1)
    async def cancelled_send(c, op, single, n):
        at = c.int("at", 0, n - 1)
        limit = c.time("timeout", 0, 10)
        c.assume(limit > 0)
        c.assume(limit != 5)
        failing = c.bool("failing")
        e = Boom("source")
        vs = seq(c, n)
        s = rx.AsyncSingleSubject() if single else rx.AsyncSubject()
        count = [0]

        async def slow(v):
            count[0] += 1
            if at == count[0] - 1:
                await asyncio.sleep(5)

        out, other = Rec(c, on_next=slow), Rec(c, "other")
        op_ = _give_up()[prop][op]
        await op_(s).subscribe_async(out)
        if not single:
            await op_(s).subscribe_async(other)
        gave = []
        for i, v in enumerate(vs):
            try:
                await asyncio.wait_for(s.asend(v), limit)
            except (asyncio.TimeoutError, TimeoutError):
                gave.append(i)
        await c.calm("end", s.athrow(e) if failing else s.aclose())
        await c.drain()
        c.check(gave == ([int(at)] if limit < 5 else []), lambda: f"{op}: the sends that timed out: {gave!r}")
        out.expect(vs, "error" if failing else "done", e, f"{op} after a cancelled send")
        if not single:
            some = [v for i, v in enumerate(vs) if i not in gave]
            other.grammar(op)
            m = len(other.values)
            c.check(other.terminal == out.terminal and (c.eq(other.values, some) if m == len(some) else c.eq(other.values, vs)), lambda: f"{op} after a cancelled send: the other observer got {other.events!r}")


for _p, _s in (("C28", (False,)), ("C29", (True,)), ("C09", (False, True)), ("C10", (False, True)), ("C14", (False,))):
    _cancelled(_p, _s)
