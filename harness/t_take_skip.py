"""C11 take, skip, take_last, skip_last.  C12 slice."""
from __future__ import annotations

from symx.registry import harness

from .ops import *  # noqa: F401,F403
from .ops import _filtering
from .t_elementwise import ENDS, TERM, Src

COUNT = {
    "take": (rx.take, lambda v, n: v[:n]),
    "skip": (rx.skip, lambda v, n: v[n:]),
    "take_last": (rx.take_last, lambda v, n: v[max(len(v) - n, 0):]),
    "skip_last": (rx.skip_last, lambda v, n: v[:max(len(v) - n, 0)]),
}
for _n in list(COUNT):
    COUNT["AsyncRx." + _n] = ((lambda m: lambda k: lambda s: getattr(rx.AsyncRx(s), m)(k))(_n), COUNT[_n][1])


@harness("C11", quick=[dict(op=o, n=5, src=s) for o in COUNT for s in ("subject", "seq")],
         thorough=[dict(op=o, n=n, src=s) for o in COUNT for n in (8, 14) for s in ("subject", "seq", "single")],
         bounds="length 0..n, count symbolic in 0..n+2, values arbitrary integers, source completes, fails or stays open, settling between elements or not")
async def count_all(c, op, n, src):
    mk, ref = COUNT[op]
    length = c.choice("length", n + 1)
    end = ENDS[c.choice("end", 3)]
    settle = c.bool("settle") if src == "subject" else False
    count = c.int("count", 0, n + 2)
    vs = seq(c, length)
    err = Boom("x")
    s = Src(c, src, vs, end, err)
    out = Rec(c)
    await pipe(s.obs, mk(count)).subscribe_async(out)
    await s.play(settle)
    k = count.__index__()
    exp = ref(vs, k)
    is_take = op.endswith("take")
    if is_take and k == 0:
        out.grammar(op)
        c.check(out.values == [], f"{op}(0) delivered a value")
    elif end == "done" or (is_take and length >= k):
        out.expect(exp, "done", what=op)
    else:
        out.expect([] if op.endswith("take_last") else exp, TERM[end], err, op)


@harness("C11", quick=[dict(op=o, n=40) for o in COUNT], thorough=[dict(op=o, n=250) for o in COUNT],
         bounds="length n, count symbolic in 0..n+2; take completes with the count-th element, skip_last and skip deliver as soon as known", max_steps=40000)
async def count_deep(c, op, n):
    mk, ref = COUNT[op]
    count = c.int("count", 0, n + 2)
    src = rx.AsyncSubject()
    out = Rec(c)
    await pipe(src, mk(count)).subscribe_async(out)
    seen = []
    for i in range(n):
        await src.asend(i)
        await c.settle()
        seen.append((len(out.values), out.terminal))
    await src.aclose()
    await c.settle()
    k = count.__index__()
    vs = list(range(n))
    if op.endswith("take") and k == 0:
        c.check(out.values == [] and out.bad == 0, f"{op}(0)")
        return
    out.expect(ref(vs, k), "done", what=op)
    for i, (m, term) in enumerate(seen):
        if op.endswith("take_last"):
            c.check(m == 0, f"{op}: value before completion")
        else:
            c.check(m == len(ref(vs[:i + 1], k)), f"{op}: element {i} not delivered when it was due")
        done = op.endswith("take") and i + 1 >= k
        c.check(term == ("done" if done else None), f"{op}: terminated at the wrong element")


@harness("C11", quick=[dict(op=o) for o in COUNT], bounds="5 elements such as None, 0, False, '', exceptions; count 0..6")
async def count_special(c, op):
    mk, ref = COUNT[op]
    sp = special_values()
    i, j = c.choice("a", len(sp)), c.choice("b", len(sp))
    k = c.choice("count", 5) + 1
    vs = [sp[i], sp[j], sp[i], sp[j], sp[i]]
    s = Src(c, "subject", vs, "done")
    out = Rec(c)
    await pipe(s.obs, mk(k)).subscribe_async(out)
    await s.play()
    exp = ref(vs, k)
    c.check(len(out.values) == len(exp) and all(a is b for a, b in zip(out.values, exp)), lambda: f"{op}: {out.values!r} instead of {exp!r}")
    c.check(out.terminal == "done" and out.bad == 0, f"{op}: termination")


@harness("C11", quick=[{}], bounds="count symbolic in -5..5")
async def take_negative(c):
    k = c.int("count", -5, 5)
    via = c.bool("chained")
    try:
        if via:
            rx.AsyncRx(rx.never()).take(k)
        else:
            rx.take(k)(rx.never())
        raised = False
    except ValueError:
        raised = True
    c.check(raised == bool(k < 0), "take accepts exactly the counts that are not negative")


# ---------------------------------------------------------------- C12
def _opt(c, name, lo, hi):
    if c.bool(name + "_none"):
        return None
    return c.int(name, lo, hi)


def _idx(x):
    return None if x is None else x.__index__()


@harness("C12", quick=[dict(n=5, length=k, form=f) for k in (0, 1, 2, 3, 5) for f in ("slice", "getitem")],
         thorough=[dict(n=8, length=k, form=f) for k in range(9) for f in ("slice", "getitem")],
         bounds="length <= n; start, stop symbolic in -(n+1)..n+1 or absent, step symbolic in 1..3 or absent; values arbitrary integers", cost=2)
async def slice_all(c, n, length, form):
    start = _opt(c, "start", -n - 1, n + 1)
    stop = _opt(c, "stop", -n - 1, n + 1)
    if start is not None and stop is not None:
        c.assume(c.any([start >= 0, stop < 0]))
    step = _opt(c, "step", 1, 3)
    vs = seq(c, length)
    src = rx.AsyncSubject()
    out = Rec(c)
    if form == "getitem":
        obs = rx.AsyncRx(src)[start:stop:step]
    elif step is None:
        obs = pipe(src, _filtering.slice(start, stop))
    else:
        obs = pipe(src, _filtering.slice(start, stop, step))
    await obs.subscribe_async(out)
    for v in vs:
        await src.asend(v)
    await src.aclose()
    await c.settle()
    exp = vs[_idx(start):_idx(stop):_idx(step)]
    out.expect(exp, "done", what=f"slice {form}")


@harness("C12", quick=[dict(n=20)], thorough=[dict(n=60)],
         bounds="length n; one of start, stop, step symbolic over the whole range, the others fixed", cost=2, max_steps=20000)
async def slice_deep(c, n):
    which = c.choice("which", 5)
    start = stop = None
    step = 1
    if which == 0:
        start = c.int("start", -n - 2, n + 2)
    elif which == 1:
        stop = c.int("stop", -n - 2, n + 2)
    elif which == 2:
        step = c.int("step", 1, n + 2)
    elif which == 3:
        start, stop = 3, c.int("stop", -n - 2, n + 2)
    else:
        start, step = 2, c.int("step", 1, n + 2)
    vs = list(range(100, 100 + n))
    src = rx.AsyncSubject()
    out = Rec(c)
    await rx.AsyncRx(src)[start:stop:step].subscribe_async(out)
    for v in vs:
        await src.asend(v)
    await src.aclose()
    await c.settle()
    out.expect(vs[_idx(start):_idx(stop):_idx(step)], "done", what="slice")


@harness("C12", quick=[dict(n=8)], thorough=[dict(n=30)], bounds="index symbolic in 0..n+1, length 0..n, values arbitrary")
async def index_item(c, n):
    length = c.choice("length", n + 1)
    i = c.int("i", 0, n + 1)
    vs = seq(c, length)
    src = rx.AsyncSubject()
    out = Rec(c)
    await rx.AsyncRx(src)[i].subscribe_async(out)
    for v in vs:
        await src.asend(v)
    await src.aclose()
    await c.settle()
    k = i.__index__()
    out.expect(vs[k:k + 1], "done", what="index")


@harness("C12", quick=[{}], bounds="step symbolic in -3..-1; start, stop absent or in -2..2")
async def slice_negative_step(c):
    step = c.int("step", -3, -1)
    start, stop = _opt(c, "start", -2, 2), _opt(c, "stop", -2, 2)
    form = c.bool("getitem")
    try:
        if form:
            rx.AsyncRx(rx.never())[start:stop:step]
        else:
            pipe(rx.never(), _filtering.slice(start, stop, step))
        raised = False
    except TypeError:
        raised = True
    c.check(raised, "negative step accepted")


@harness("C12", quick=[{}], bounds="one slice operator value applied to two sources; start, stop symbolic")
async def slice_reuse(c):
    start = _opt(c, "start", 0, 4)
    stop = _opt(c, "stop", 0, 4)
    op = _filtering.slice(start, stop)
    vs = [1, 2, 3, 4]
    for _ in range(2):
        src = rx.AsyncSubject()
        out = Rec(c)
        await op(src).subscribe_async(out)
        for v in vs:
            await src.asend(v)
        await src.aclose()
        await c.settle()
        out.expect(vs[_idx(start):_idx(stop)], "done", what="slice reuse")
