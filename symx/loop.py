"""A deterministic virtual-time event loop whose clock may be symbolic.

Independent of the loop in aioreactive.testing (which is itself a subject of the checks).
Ready callbacks run in FIFO order, exactly as asyncio does.  Time only advances when nothing
is ready; which timer is next is decided by comparing due times, so with symbolic due times
the order of timers is a branch that the solver decides.  Equal due times run in the order
in which the timers were created.
"""
from __future__ import annotations

import asyncio
import threading
from asyncio import events

from .base import Deadlock, Livelock


class SymLoop(asyncio.BaseEventLoop):
    def __init__(self, max_steps=6000, on_step=None):
        super().__init__()
        self._now = 0
        self._timers = []
        self._idle_waiters = []
        self._drain_waiters = []
        self.steps = 0
        self.max_steps = max_steps
        self.on_step = on_step
        self.tasks = []
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))
        self.set_task_factory(self._factory)

    def _factory(self, loop, coro, **kw):
        task = asyncio.Task(coro, loop=loop, **kw)
        self.tasks.append(task)
        return task

    def time(self):
        return self._now

    def call_at(self, when, callback, *args, context=None):
        handle = events.TimerHandle(when, callback, args, self, context)
        handle._scheduled = True
        self._timers.append(handle)
        return handle

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self._now + delay, callback, *args, context=context)

    def _timer_handle_cancelled(self, handle):
        pass

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    # -- quiescence -------------------------------------------------------------------
    def idle(self):
        """Future resolved when nothing is ready (time has not advanced)."""
        fut = self.create_future()
        self._idle_waiters.append(fut)
        return fut

    def drain(self):
        """Future resolved when nothing is ready and no timer is pending."""
        fut = self.create_future()
        self._drain_waiters.append(fut)
        return fut

    def _step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Livelock(f"more than {self.max_steps} loop steps")
        if self._ready:
            handle = self._ready.popleft()
            if not handle._cancelled:
                handle._run()
            handle = None
            return
        if self._idle_waiters:
            waiters, self._idle_waiters = self._idle_waiters, []
            for fut in waiters:
                if not fut.done():
                    fut.set_result(None)
            return
        self._timers = [h for h in self._timers if not h._cancelled]
        if self._timers:
            best = None
            for h in self._timers:
                if best is None or h._when < best._when:
                    best = h
            self._timers.remove(best)
            best._scheduled = False
            if best._when > self._now:
                self._now = best._when
            self._ready.append(best)
            return
        if self._drain_waiters:
            waiters, self._drain_waiters = self._drain_waiters, []
            for fut in waiters:
                if not fut.done():
                    fut.set_result(None)
            return
        raise Deadlock("nothing runnable, and the harness is still waiting")

    def run(self, coro):
        events._set_running_loop(self)
        self._thread_id = threading.get_ident()
        try:
            task = self.create_task(coro)
            on_step = self.on_step
            while not task.done():
                self._step()
                if on_step is not None:
                    on_step()
            return task.result()
        finally:
            self._thread_id = None
            events._set_running_loop(None)

    def teardown(self):
        """Drop everything that is still pending, without running it to completion."""
        self._ready.clear()
        self._timers.clear()
        events._set_running_loop(self)
        try:
            for task in self.tasks:
                if task.done():
                    if not task.cancelled():
                        task.exception()
                else:
                    task._log_destroy_pending = False
                    try:
                        task.get_coro().close()
                    except BaseException:
                        pass
        finally:
            events._set_running_loop(None)
        self.tasks.clear()
        self._ready.clear()
        self._timers.clear()
