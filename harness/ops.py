"""Table of operators for the properties that quantify over operators.

build(s, f): s is the list of source observables, f a callback (identity on values) supplied
by the harness, which may raise or do bookkeeping.  af is its async version.
"""
from __future__ import annotations

from .kit import *  # noqa: F401,F403

from aioreactive import combine as _combine
from aioreactive import filtering as _filtering
from aioreactive import timeshift as _timeshift
from aioreactive import transform as _transform


class Op:
    def __init__(self, name, n, build, direct=False, serial=False, cb=False, inner=False, same=True, timed=False,
                 buffered=False, combine=False, first_only=False, tuple_in=False, early=False):
        self.name, self.n, self.build = name, n, build
        self.direct = direct  # element-wise: observer is called inside the producer's await
        self.serial = serial  # serializes concurrent producers
        self.cb = cb  # takes a user callback that sees each element of source 0
        self.inner = inner  # sources 1.. are subscribed only after an element of source 0 (or completion)
        self.same = same  # output elements are the source elements, unchanged
        self.timed = timed
        self.buffered = buffered  # holds values back until completion
        self.combine = combine
        self.early = early  # may complete before its sources do
        self.tuple_in = tuple_in


def _a(f):
    async def g(*a):
        return f(*a)

    return g


def _some(f):
    return lambda x: Some(f(x))


def table(delay=1, window=1):
    T = _transform
    F = _filtering
    C = _combine
    S = _timeshift
    o = [
        Op("map", 1, lambda s, f: rx.map(lambda x: f(x))(s[0]), direct=True, cb=True),
        Op("map_async", 1, lambda s, f: rx.map_async(_a(f))(s[0]), direct=True, cb=True),
        Op("starmap", 1, lambda s, f: pipe(s[0], rx.map(lambda x: (x,)), rx.starmap(lambda x: f(x))), direct=True, cb=True),
        Op("starmap_async", 1, lambda s, f: pipe(s[0], rx.map(lambda x: (x,)), T.starmap_async(_a(f))), direct=True, cb=True),
        Op("mapi", 1, lambda s, f: rx.mapi(lambda x, i: f(x))(s[0]), serial=True, cb=True),
        Op("mapi_async", 1, lambda s, f: rx.mapi_async(_a(lambda x, i: f(x)))(s[0]), serial=True, cb=True),
        Op("filter", 1, lambda s, f: rx.filter(lambda x: (f(x), True)[1])(s[0]), direct=True, cb=True),
        Op("filter_async", 1, lambda s, f: rx.filter_async(_a(lambda x: (f(x), True)[1]))(s[0]), direct=True, cb=True),
        Op("filteri", 1, lambda s, f: rx.filteri(lambda x, i: (f(x), True)[1])(s[0]), serial=True, cb=True),
        Op("starfilter", 1, lambda s, f: pipe(s[0], rx.map(lambda x: (x,)), rx.starfilter(lambda x: (f(x), True)[1]), rx.map(lambda t: t[0])), direct=True, cb=True),
        Op("choose", 1, lambda s, f: rx.choose(_some(f))(s[0]), direct=True, cb=True),
        Op("choose_async", 1, lambda s, f: rx.choose_async(_a(_some(f)))(s[0]), direct=True, cb=True),
        Op("scan", 1, lambda s, f: rx.scan(lambda a, x: f(x), 0)(s[0]), direct=True, cb=True, early=True),
        Op("scan_async", 1, lambda s, f: rx.scan_async(_a(lambda a, x: f(x)), 0)(s[0]), direct=True, cb=True, early=True),
        Op("reduce", 1, lambda s, f: rx.reduce(lambda a, x: f(x), 0)(s[0]), serial=True, cb=True, buffered=True, early=True),
        Op("reduce_async", 1, lambda s, f: rx.reduce_async(_a(lambda a, x: f(x)), 0)(s[0]), serial=True, cb=True, buffered=True, early=True),
        Op("take", 1, lambda s, f: rx.take(2)(s[0]), serial=True, early=True),
        Op("skip", 1, lambda s, f: rx.skip(1)(s[0]), serial=True),
        Op("take_last", 1, lambda s, f: rx.take_last(2)(s[0]), serial=True, buffered=True),
        Op("skip_last", 1, lambda s, f: rx.skip_last(1)(s[0]), serial=True),
        Op("distinct", 1, lambda s, f: F.distinct_until_changed(s[0]), serial=True),
        Op("slice", 1, lambda s, f: F.slice(0, -1, 2)(s[0]), serial=True),
        Op("zip_seq", 1, lambda s, f: pipe(s[0], C.zip_seq([7, 8, 9]), rx.map(lambda t: t[0])), serial=True, early=True),
        Op("delay", 1, lambda s, f: rx.delay(delay)(s[0]), timed=True),
        Op("debounce", 1, lambda s, f: S.debounce(window)(s[0]), timed=True, serial=True),
        Op("catch", 2, lambda s, f: rx.catch(lambda e: (f(e), s[1])[1])(s[0]), inner=True),
        Op("retry", 1, lambda s, f: rx.retry(2)(s[0])),
        Op("flat_map", 1, lambda s, f: rx.flat_map(lambda x: rx.single(f(x)))(s[0]), serial=True, cb=True),
        Op("flat_mapi", 1, lambda s, f: rx.flat_mapi(lambda x, i: rx.single(f(x)))(s[0]), serial=True, cb=True),
        Op("flat_map_async", 1, lambda s, f: rx.flat_map_async(_a(lambda x: rx.single(f(x))))(s[0]), serial=True, cb=True),
        Op("flat_mapi_async", 1, lambda s, f: T.flat_mapi_async(_a(lambda x, i: rx.single(f(x))))(s[0]), serial=True, cb=True),
        Op("concat_map", 1, lambda s, f: T.concat_map(lambda x: rx.single(f(x)))(s[0]), serial=True, cb=True),
        Op("switch_map", 2, lambda s, f: T.flat_map_latest(lambda x: (f(x), s[1])[1])(s[0]), serial=True, cb=True, inner=True),
        Op("switch_map_async", 2, lambda s, f: T.flat_map_latest_async(_a(lambda x: (f(x), s[1])[1]))(s[0]), serial=True, cb=True, inner=True),
        Op("merge", 2, lambda s, f: rx.merge(s[1])(s[0]), serial=True, combine=True),
        Op("merge_seq", 2, lambda s, f: rx.merge_seq([s[0], s[1]]), serial=True, combine=True),
        Op("merge_map", 2, lambda s, f: pipe(s[0], rx.map(lambda x: (f(x), s[1])[1]), rx.merge_inner()), serial=True, cb=True, inner=True),
        Op("merge_map_1", 2, lambda s, f: pipe(s[0], rx.map(lambda x: (f(x), s[1])[1]), rx.merge_inner(1)), serial=True, cb=True, inner=True),
        Op("concat", 2, lambda s, f: rx.concat(s[1])(s[0]), serial=True, inner=True),
        Op("combine_latest", 2, lambda s, f: rx.combine_latest(s[1])(s[0]), serial=True, combine=True, same=False, early=True),
        Op("with_latest_from", 2, lambda s, f: rx.with_latest_from(s[1])(s[0]), serial=True, combine=True, same=False, early=True),
        Op("take_until", 2, lambda s, f: rx.take_until(s[1])(s[0]), serial=True, combine=True, early=True),
    ]
    # the same operators with other parameters, for the harnesses of a single operator
    o += [
        Op("take0", 1, lambda s, f: rx.take(0)(s[0]), serial=True, early=True),
        Op("take1", 1, lambda s, f: rx.take(1)(s[0]), serial=True, early=True),
        Op("take3", 1, lambda s, f: rx.take(3)(s[0]), serial=True, early=True),
        Op("skip0", 1, lambda s, f: rx.skip(0)(s[0]), serial=True),
        Op("skip2", 1, lambda s, f: rx.skip(2)(s[0]), serial=True),
        Op("take_last0", 1, lambda s, f: rx.take_last(0)(s[0]), serial=True, buffered=True),
        Op("take_last1", 1, lambda s, f: rx.take_last(1)(s[0]), serial=True, buffered=True),
        Op("skip_last0", 1, lambda s, f: rx.skip_last(0)(s[0]), serial=True),
        Op("skip_last2", 1, lambda s, f: rx.skip_last(2)(s[0]), serial=True),
        Op("slice_head", 1, lambda s, f: F.slice(1, 3, 1)(s[0]), serial=True, early=True),
        Op("slice_tail", 1, lambda s, f: F.slice(-2, None, 1)(s[0]), serial=True, buffered=True),
        Op("delay0", 1, lambda s, f: rx.delay(0)(s[0]), timed=True),
        Op("debounce0", 1, lambda s, f: S.debounce(0)(s[0]), timed=True, serial=True),
        Op("retry1", 1, lambda s, f: rx.retry(1)(s[0])),
        Op("retry3", 1, lambda s, f: rx.retry(3)(s[0])),
        Op("merge_map_2", 2, lambda s, f: pipe(s[0], rx.map(lambda x: (f(x), s[1])[1]), rx.merge_inner(2)), serial=True, cb=True, inner=True),
        Op("concat_seq", 2, lambda s, f: rx.concat_seq([s[0], s[1]]), serial=True, inner=True),
    ]
    return {x.name: x for x in o}


TABLE = table()
EXTRA = list(TABLE)[list(TABLE).index("take0"):]
NAMES = [n for n in TABLE if n not in EXTRA]
ALL = NAMES + EXTRA
SINGLE = [n for n in NAMES if TABLE[n].n == 1]
DIRECT = [n for n in NAMES if TABLE[n].direct]
SERIAL = [n for n in NAMES if TABLE[n].serial]
CALLBACK = [n for n in NAMES if TABLE[n].cb]
