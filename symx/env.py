"""Imports the real code from /repo, with the clock as the only stub.

The clock is the environment: datetime.now(), time.time(), time.monotonic() and
time.perf_counter() return the (possibly symbolic) time of the running loop.
"""
from __future__ import annotations

import asyncio
import math
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


def _clock():
    loop = asyncio._get_running_loop()
    if loop is not None and hasattr(loop, "_idle_waiters"):
        return loop.time()
    return None


class Delta:
    """Stand-in for datetime.timedelta that accepts symbolic numbers."""

    __slots__ = ("s",)

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        s = seconds
        for v, k in ((days, 86400), (minutes, 60), (hours, 3600), (weeks, 604800)):
            if not (isinstance(v, (int, float)) and v == 0):
                s = s + v * k
        if not (isinstance(milliseconds, (int, float)) and milliseconds == 0):
            s = s + milliseconds / 1000
        if not (isinstance(microseconds, (int, float)) and microseconds == 0):
            s = s + microseconds / 1000000
        self.s = s

    def total_seconds(self):
        return self.s

    @property
    def days(self):
        return math.floor(self.s / 86400)

    @property
    def seconds(self):
        return math.floor(self.s) - 86400 * self.days

    @property
    def microseconds(self):
        return math.floor((self.s - math.floor(self.s)) * 1000000)

    @staticmethod
    def _of(o):
        return o.s if isinstance(o, Delta) else o.total_seconds()

    def __add__(self, o):
        if isinstance(o, DateTime):
            return DateTime._at(o.t + self.s)
        return Delta(seconds=self.s + self._of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Delta(seconds=self.s - self._of(o))

    def __neg__(self):
        return Delta(seconds=-self.s)

    def __abs__(self):
        return Delta(seconds=abs(self.s))

    def __mul__(self, k):
        return Delta(seconds=self.s * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        if isinstance(k, Delta):
            return self.s / k.s
        return Delta(seconds=self.s / k)

    def __eq__(self, o):
        return isinstance(o, Delta) and self.s == o.s

    def __ne__(self, o):
        return not isinstance(o, Delta) or self.s != o.s

    __hash__ = None

    def __lt__(self, o):
        return self.s < self._of(o)

    def __le__(self, o):
        return self.s <= self._of(o)

    def __gt__(self, o):
        return self.s > self._of(o)

    def __ge__(self, o):
        return self.s >= self._of(o)

    def __bool__(self):
        return bool(self.s != 0)


class _UTC:
    utc = None


class DateTime:
    __slots__ = ("t",)

    @classmethod
    def _at(cls, t):
        d = cls.__new__(cls)
        d.t = t
        return d

    @classmethod
    def now(cls, tz=None):
        t = _clock()
        return cls._at(0 if t is None else t)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return cls._at(t)

    def timestamp(self):
        return self.t

    def __add__(self, d):
        return DateTime._at(self.t + Delta._of(d))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, DateTime):
            return Delta(seconds=self.t - o.t)
        return DateTime._at(self.t - Delta._of(o))

    def __eq__(self, o):
        return isinstance(o, DateTime) and self.t == o.t

    def __ne__(self, o):
        return not isinstance(o, DateTime) or self.t != o.t

    __hash__ = None

    def __lt__(self, o):
        return self.t < o.t

    def __le__(self, o):
        return self.t <= o.t

    def __gt__(self, o):
        return self.t > o.t

    def __ge__(self, o):
        return self.t >= o.t


_done = False


def install():
    """Import aioreactive from the working tree, with the clock stubbed."""
    global _done
    if _done:
        return
    _done = True
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    # never read stale bytecode
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"verif-nopyc-{os.getpid()}")
    site = "/opt/venv/lib/python3.12/site-packages"
    if site not in sys.path:
        sys.path.append(site)
    for p in (REPO,):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import datetime
    import logging
    import time

    import expression  # noqa: F401
    import expression.collections  # noqa: F401
    import expression.system  # noqa: F401
    import reactivex  # noqa: F401
    import reactivex.operators  # noqa: F401

    logging.disable(logging.CRITICAL)

    def wrap(real):
        def clock():
            t = _clock()
            return real() if t is None else t

        return clock

    saved = (datetime.datetime, datetime.timedelta)
    saved_t = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
    datetime.datetime, datetime.timedelta = DateTime, Delta
    for n, f in saved_t.items():
        setattr(time, n, wrap(f))
    try:
        import aioreactive  # noqa: F401
        import aioreactive.combine  # noqa: F401
        import aioreactive.create  # noqa: F401
        import aioreactive.filtering  # noqa: F401
        import aioreactive.iterable.to_async_observable  # noqa: F401
        import aioreactive.leave  # noqa: F401
        import aioreactive.subscription  # noqa: F401
        import aioreactive.testing  # noqa: F401
        import aioreactive.timeshift  # noqa: F401
        import aioreactive.transform  # noqa: F401
    finally:
        datetime.datetime, datetime.timedelta = saved
        for n, f in saved_t.items():
            setattr(time, n, f)
    # modules that refer to the clock through the module object
    import types

    class _Proxy(types.ModuleType):
        def __init__(self, real, **over):
            super().__init__(real.__name__)
            self.__dict__.update(real.__dict__)
            self.__dict__.update(over)

    clock = _Proxy(time, **{n: wrap(f) for n, f in saved_t.items()})
    dates = _Proxy(datetime, datetime=DateTime, timedelta=Delta)
    for name, mod in list(sys.modules.items()):
        if name == "aioreactive" or name.startswith("aioreactive."):
            for k, v in list(vars(mod).items()):
                if v is time:
                    setattr(mod, k, clock)
                elif v is datetime:
                    setattr(mod, k, dates)
    assert os.path.realpath(aioreactive.__file__).startswith(os.path.realpath(REPO) + os.sep), aioreactive.__file__
    sys.unraisablehook = lambda *a: None


def reset():
    """Forget process-wide state between paths (strong task references kept by expression)."""
    import expression.core.aiotools as aiotools

    tasks = vars(aiotools).get("__running_tasks")
    if tasks is not None:
        tasks.clear()
