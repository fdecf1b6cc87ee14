From 8945ea247ec60b758fc347f605810f4dc51b01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 01/40] fix: skip_last no longer drops elements that are None

The element leaving the look-behind queue was tested with `is not None`, so
None elements of the source were silently lost.
---
 aioreactive/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..ad0a548 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,13 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
-                    front = q.pop(0)
-
-                if front is not None:
-                    await safe_obv.asend(front)
+                    await safe_obv.asend(q.pop(0))
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
-- 
2.43.0


From 2fb64f135ba8194db4412f1c08f94144d52d1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 02/40] fix: delay keeps its cancellation state per
 subscription

The token was shared by all subscriptions to a delayed observable, so
disposing one of them silenced all others and made it impossible to
subscribe again.
---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From ecc43b37ce1393007964eef556154a3e05a4e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:48 +0000
Subject: [PATCH 03/40] fix: scan stops after the accumulator raised

The error was delivered but the source subscription was kept, so the
observer received further values (and a completion) after the error.
---
 aioreactive/transform.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..4410201 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -457,27 +457,36 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
                     await observer.athrow(ex)
+                    await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
-            await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                await disposable.dispose_async()
 
             return disposable
 
-- 
2.43.0


From 4a6782ea97e706b4830140b3699f0cc41cd198ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:52 +0000
Subject: [PATCH 04/40] fix: AsyncSingleSubject never hangs the event loop once
 disposed

athrow() and aclose() on a disposed subject, and a producer resumed after
the subject was disposed, spun forever on an already completed future.
Producers waiting for an observer now get ObjectDisposedException.
---
 aioreactive/subject.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..3fd76e7 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -44,6 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             log.debug("AsyncSingleStream:asend:awaiting start")
             await self._wait
             log.debug("AsyncSingleStream:asend:awaiting:done")
+            self.check_disposed()
 
         if not self._is_stopped:
             await self._observer.asend(value)
@@ -51,10 +52,12 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
+        self.check_disposed()
+
         while self._observer is None:
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             await self._observer.athrow(error)
             self._is_stopped = True
@@ -62,11 +65,13 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        self.check_disposed()
+
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
             await self._observer.aclose()
@@ -78,6 +83,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Release any producer that is still waiting for an observer.
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From b27d31b063d8810802c5f9008777e6085e7a3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:55 +0000
Subject: [PATCH 05/40] fix: AsyncSingleSubject stops before it delivers the
 terminal event

The subject was marked as stopped only after the observer had handled the
error or completion, so events sent meanwhile reached the observer after
(or as a second) terminal event.
---
 aioreactive/subject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 3fd76e7..d9f984b 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -59,8 +59,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             self.check_disposed()
 
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await self._observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
@@ -74,8 +74,8 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await self._observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
-- 
2.43.0


From c2d15722debf923e7e853a2ce58d33788e5b0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:59 +0000
Subject: [PATCH 06/40] fix: async iteration releases the producer of the
 terminal event

When the event picked up by the iterator was an error or the completion the
producer was never told, so its athrow() or aclose() never returned.
---
 aioreactive/observers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..d2e081e 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -71,7 +71,14 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
+        try:
+            value = await self._push
+        except Exception:
+            # The terminal event was picked up, so release the producer.
+            if not self._pull.done():
+                self._pull.set_result(True)
+            raise
+
         self._push = Future()
         self._pull.set_result(True)
 
-- 
2.43.0


From 60851b2daaa7f27a9f01a135292166f2ae44bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:03 +0000
Subject: [PATCH 07/40] fix: failing iterables terminate the observable with
 the error

An exception raised while iterating the (async) iterable given to
from_iterable or from_async_iterable was lost, and the observer was left
waiting forever.
---
 aioreactive/create.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..a227cc4 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -87,14 +87,13 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
-
-            await observer.aclose()
+            except Exception as ex:
+                await observer.athrow(ex)
+            else:
+                await observer.aclose()
             tasks.remove(task)
 
         try:
@@ -167,14 +166,15 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
+        try:
+            for x in xs:
+                if token.is_cancellation_requested:
+                    return
+                log.debug("of_seq:asend(%s)", x)
 
-            try:
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
+        except Exception as ex:
+            await obv.athrow(ex)
 
         await obv.aclose()
 
-- 
2.43.0


From e1a0df012b115ec61478f48c7fe85f180079f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:07 +0000
Subject: [PATCH 08/40] fix: disposing an of_async subscription does not
 complete the observer

Disposing cancels the workflow, which then ran the `finally` clause and sent
a completion to the observer that had just been unsubscribed.
---
 aioreactive/create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index a227cc4..7fdba77 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -63,7 +63,7 @@ def of_async(workflow: Awaitable[TSource]) -> AsyncObservable[TSource]:
     result of the given async workflow.
     """
 
-    async def worker(obv: AsyncObserver[TSource], _: CancellationToken) -> None:
+    async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         try:
             result = await workflow
             # Note to self. If workflow is or gets cancelled we will jump straight to `finally`.
@@ -71,7 +71,8 @@ def of_async(workflow: Awaitable[TSource]) -> AsyncObservable[TSource]:
         except Exception as ex:
             await obv.athrow(ex)
         finally:
-            await obv.aclose()
+            if not token.is_cancellation_requested:
+                await obv.aclose()
 
     return of_async_worker(worker)
 
-- 
2.43.0


From 879adcc70e95bac66c8723429854ffd06690659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 09/40] fix: slice with a stop of zero, or before start, is
 empty

A stop of 0 was taken for a negative (from the end) position and gave the
whole stream, and a stop before start raised ValueError.
---
 aioreactive/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index ad0a548..f40b206 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -370,9 +370,9 @@ def slice(
                 source = pipe(source, skip(start))
 
         if stop is not None:
-            if stop > 0:
+            if stop >= 0:
                 start = start or 0
-                source = pipe(source, take(stop - start))
+                source = pipe(source, take(max(stop - start, 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From d7d08f2a77dd90ff78cfdfe25358beb6ab353db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 10/40] fix: to_observable disposes before the subscription is
 established

Disposing right after subscribing was ignored, and the source stayed
subscribed. The done callback also raised KeyError for every subscription.
---
 aioreactive/leave.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..0caac43 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -35,6 +35,7 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        is_disposed = False
 
         async def start() -> None:
             nonlocal subscription
@@ -48,17 +49,24 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
             async def aclose() -> None:
                 obv.on_completed()
 
+            if is_disposed:
+                return
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+            if is_disposed:
+                await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
+
             if subscription:
                 task = asyncio.create_task(subscription.dispose_async())
                 tasks.add(task)
+                task.add_done_callback(tasks.discard)
 
         return Disposable(dispose)
 
-- 
2.43.0


From 9a0d72714a6abf72aef75bb4c50cd6c8cbecc4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:18 +0000
Subject: [PATCH 11/40] fix: AsyncTestObserver invokes its callbacks once per
 event

The callbacks were called by the recording methods and again by the base
class.
---
 aioreactive/testing/observer.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/aioreactive/testing/observer.py b/aioreactive/testing/observer.py
index 43ac07a..436b899 100644
--- a/aioreactive/testing/observer.py
+++ b/aioreactive/testing/observer.py
@@ -37,10 +37,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
 
         self._values: list[tuple[float, Notification[TSource]]] = []
 
-        self._send = asend
-        self._throw = athrow
-        self._close = aclose
-
     def time(self) -> float:
         return self._loop.time()
 
@@ -49,7 +45,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnNext(value)))
 
-        await self._send(value)
         await super().asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -57,7 +52,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnError(error)))
 
-        await self._throw(error)
         await super().athrow(error)
 
     async def aclose(self) -> None:
@@ -66,7 +60,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnCompleted()))
 
-        await self._close()
         await super().aclose()
 
     @property
-- 
2.43.0


From f4565b9df27867c42e874f388c4a0903b2971a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 12/40] fix: auto_detach_observer disposes the source when the
 observer ends

Cancelling the token stopped the agent before it could handle the dispose
message, so no operator ever released its source subscriptions when its
output terminated.
---
 aioreactive/observers.py | 45 +++++++++++++---------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d2e081e..2d4ddf4 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -3,10 +3,9 @@ from asyncio import Future, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
-from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.core import MailboxProcessor
+from expression.system import AsyncDisposable, Disposable
 
-from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
 from .types import AsyncObservable, AsyncObserver
 from .utils import anoop
@@ -212,34 +211,15 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
-    cts = CancellationTokenSource()
-    token = cts.token
-
-    async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
-        @tailrec_async
-        async def message_loop(
-            disposables: list[AsyncDisposable],
-        ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
-            cmd = await inbox.receive()
-            match cmd:
-                case Msg(tag="disposable", disposable=disposable):
-                    disposables.append(disposable)
-                case _:
-                    for disp in disposables:
-                        await disp.dispose_async()
-                    return
-            return TailCall[list[AsyncDisposable]](disposables)
-
-        await message_loop([])
-
-    agent = MailboxProcessor.start(worker, token)
+    disposables: list[AsyncDisposable] = []
+    is_detached = False
 
     async def cancel() -> None:
-        cts.cancel()
-        agent.post(Msg(dispose=True))
+        nonlocal is_detached
+        is_detached = True
+
+        while disposables:
+            await disposables.pop(0).dispose_async()
 
     canceller = AsyncDisposable.create(cancel)
     safe_obv = safe_observer(obv, canceller)
@@ -247,8 +227,11 @@ def auto_detach_observer(
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
-        return disposable
+        if is_detached:
+            await disposable.dispose_async()
+        else:
+            disposables.append(disposable)
+        return AsyncDisposable.create(disposable.dispose_async)
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From b11cad0e634a2adf3c8986ff9c8a392e82a779fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:24 +0000
Subject: [PATCH 13/40] fix: take_until releases the other subscription when it
 terminates

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index f40b206..a5bd48d 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -318,7 +318,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From 56e6ca2a9363bf04b0720fa93afe46938d9b36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 14/40] fix: safe_observer disposes when the observer raises

The subscription was released for errors and completions coming from the
source, but not when the stream ends because the observer itself failed.
---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 2d4ddf4..a08bd1b 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -178,6 +178,7 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From 860466cc9e4f1850ad38ea018514b693f4bb96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:33 +0000
Subject: [PATCH 15/40] fix: a disposed subscription delivers nothing that is
 still queued

Operators and sources that serialize through a mailbox kept delivering the
events queued in it after the subscription had been disposed, e.g. disposing
a from_iterable subscription had no effect at all.
---
 aioreactive/create.py    |  7 ++++---
 aioreactive/observers.py | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 7fdba77..fdf8176 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -13,7 +13,7 @@ from expression.system import (
 )
 
 from .observables import AsyncAnonymousObservable
-from .observers import AsyncObserver, safe_observer
+from .observers import AsyncObserver, disposable_observer, safe_observer
 from .types import AsyncObservable
 
 
@@ -48,10 +48,11 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
     async def subscribe_async(aobv: AsyncObserver[Any]) -> AsyncDisposable:
         log.debug("of_async_worker:subscribe_async()")
         disposable, token = canceller()
-        safe_obv = safe_observer(aobv, disposable)
+        disposable_obv, silence = disposable_observer(aobv)
+        safe_obv = safe_observer(disposable_obv, disposable)
 
         aiotools.start(worker(safe_obv, token), token)
-        return disposable
+        return silence(disposable)
 
     return AsyncAnonymousObservable(subscribe_async)
 
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index a08bd1b..c6a79b0 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -206,6 +206,39 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
     return AsyncAnonymousObserver(asend, athrow, aclose)
 
 
+def disposable_observer(
+    obv: AsyncObserver[_TSource],
+) -> tuple[AsyncObserver[_TSource], Callable[[AsyncDisposable], AsyncDisposable]]:
+    """Observer that is silenced when the subscription gets disposed.
+
+    Returns the silenceable observer, and a function that extends a
+    subscription so that disposing it also silences the observer.
+    """
+    is_disposed = False
+
+    async def asend(value: _TSource) -> None:
+        if not is_disposed:
+            await obv.asend(value)
+
+    async def athrow(error: Exception) -> None:
+        if not is_disposed:
+            await obv.athrow(error)
+
+    async def aclose() -> None:
+        if not is_disposed:
+            await obv.aclose()
+
+    def silence(disposable: AsyncDisposable) -> AsyncDisposable:
+        async def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
+            await disposable.dispose_async()
+
+        return AsyncDisposable.create(dispose)
+
+    return AsyncAnonymousObserver(asend, athrow, aclose), silence
+
+
 def auto_detach_observer(
     obv: AsyncObserver[_TSource],
 ) -> tuple[
@@ -223,7 +256,8 @@ def auto_detach_observer(
             await disposables.pop(0).dispose_async()
 
     canceller = AsyncDisposable.create(cancel)
-    safe_obv = safe_observer(obv, canceller)
+    disposable_obv, silence = disposable_observer(obv)
+    safe_obv = safe_observer(disposable_obv, canceller)
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
@@ -232,7 +266,7 @@ def auto_detach_observer(
             await disposable.dispose_async()
         else:
             disposables.append(disposable)
-        return AsyncDisposable.create(disposable.dispose_async)
+        return silence(disposable)
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From edd0780cec3632e16eff96eee7c101321c967280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 16/40] fix: merge_inner releases the inner subscriptions when
 it terminates

When an inner observable failed, or the observer itself raised, the other
inner observables stayed subscribed.
---
 aioreactive/combine.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..fc8368e 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -144,13 +144,17 @@ def merge_inner(
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post(Msg(dispose=True))
+            async def subscribe_source() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv)
+
+                async def cancel() -> None:
+                    await dispose.dispose_async()
+                    agent.post(Msg(dispose=True))
+
+                return AsyncDisposable.create(cancel)
 
-            return AsyncDisposable.create(cancel)
+            return await auto_detach(subscribe_source())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From f303e0fafb4fac1789ab0f49ec21ddedf227d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 17/40] fix: switch_latest completes, and ignores superseded
 observables

The completion of the source was forgotten while an inner observable was
active, and the completion of an inner observable unless the source had
completed first, so the result never completed. Values still queued in a
superseded inner observable were delivered after the switch, and the active
inner observable stayed subscribed when the result terminated.
---
 aioreactive/transform.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 4410201..db9c832 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -263,13 +263,16 @@ def switch_latest(
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
+        latest_id = 0
 
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -284,22 +287,25 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        next_id = current_id + 1
+                        next_id = latest_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
                         inner = await xs.subscribe_async(obv(inbox, next_id))
                         current, current_id = Some(inner), next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            current = Nothing
+                            if is_stopped:
+                                await safe_obv.aclose()
 
                     case Msg(tag="completed"):
+                        is_stopped = True
                         if current.is_none():
                             await safe_obv.aclose()
 
@@ -329,17 +335,17 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
-        async def cancel() -> None:
-            await dispose.dispose_async()
-            inner_agent.post(Msg(dispose=True))
+        async def subscribe_source() -> AsyncDisposable:
+            dispose = await source.subscribe_async(_obv)
+
+            async def cancel() -> None:
+                await dispose.dispose_async()
+                inner_agent.post(Msg(dispose=True))
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        return await auto_detach(subscribe_source())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 5868079d35bf3a5e00c08f17b69e937038e84cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 18/40] fix: catch disposes the handler observable and forwards
 its errors

Disposing only released the subscription that existed when subscribing, so
the observable that replaced a failed source kept running. An error of the
handler observable was handed to the handler again, without end if the
handler keeps failing, and an exception raised by the handler was lost.
---
 aioreactive/transform.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index db9c832..4f41eaa 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -406,29 +406,43 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_caught = False
+            is_disposed = False
 
-            async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
+            async def asend(value: _TSource) -> None:
+                await aobv.asend(value)
 
-                async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+            async def athrow(error: Exception) -> None:
+                nonlocal disposable, is_caught
+                is_caught = True
 
-                async def athrow(error: Exception) -> None:
+                await disposable.dispose_async()
+                try:
                     next_source = handler(error)
-                    await action(next_source)
+                except Exception as ex:
+                    await aobv.athrow(ex)
+                    return
 
-                async def aclose() -> None:
-                    await aobv.aclose()
+                disposable = await next_source.subscribe_async(aobv)
+                if is_disposed:
+                    await disposable.dispose_async()
 
-                _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+            async def aclose() -> None:
+                await aobv.aclose()
 
-                await disposable.dispose_async()
-                subscription = await source.subscribe_async(_obv)
+            _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+            subscription = await source.subscribe_async(_obv)
+            if is_caught:
+                await subscription.dispose_async()
+            else:
                 disposable = subscription
 
-            await action(source)
+            async def cancel() -> None:
+                nonlocal is_disposed
+                is_disposed = True
+                await disposable.dispose_async()
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            return AsyncDisposable.create(cancel)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 751bad82788078e5c2537c4be584163c95e12702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:46 +0000
Subject: [PATCH 19/40] fix: retry resubscribes retry_count times and then
 forwards the error

The count dropped to zero after the first retry, was shared by all
subscriptions, and the final error was caught again instead of being
forwarded to the observer.
---
 aioreactive/transform.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 4f41eaa..e64cc17 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,6 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
 from .msg import (
     Key,
     Msg,
@@ -453,17 +452,11 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
-
         def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
-
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
-                return source
+            return retry(retry_count - 1)(source)
 
+        if retry_count <= 0:
+            return source
         return pipe(source, catch(factory))
 
     return _retry
-- 
2.43.0


From 9ab764a0ae002aa7d9e17ec3bd49345734954dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:13 +0000
Subject: [PATCH 20/40] fix: AsyncSingleSubject loses or reorders events of
 producers that wait for an observer

A producer that was waiting for an observer was overtaken by events sent
right after the subscription, and its value was dropped if one of those
was a completion.
---
 aioreactive/subject.py | 44 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d9f984b..0a0b1f6 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, Lock
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -26,6 +26,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         super().__init__()
 
         self._wait: Future[bool] = Future()
+        self._lock = Lock()
         self._observer: AsyncObserver[_TSource] | None = None
         self._is_disposed = False
         self._is_stopped = False
@@ -34,48 +35,45 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         if self._is_disposed:
             raise ObjectDisposedException()
 
+    async def _wait_for_observer(self) -> AsyncObserver[_TSource]:
+        self.check_disposed()
+
+        # AsyncSingleStreams are cold and will await a sink. The lock is fair, so producers
+        # that wait are served in the order they arrived, and before any later one.
+        async with self._lock:
+            while self._observer is None:
+                log.debug("AsyncSingleStream:awaiting start")
+                self.check_disposed()
+                await self._wait
+
+            return self._observer
+
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncSingleStream:asend(%s)", str(value))
 
-        self.check_disposed()
-
-        # AsyncSingleStreams are cold and will await a sink.
-        while self._observer is None:
-            log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
-            log.debug("AsyncSingleStream:asend:awaiting:done")
-            self.check_disposed()
+        observer = await self._wait_for_observer()
 
         if not self._is_stopped:
-            await self._observer.asend(value)
+            await observer.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
-        self.check_disposed()
-
-        while self._observer is None:
-            await self._wait
-            self.check_disposed()
+        observer = await self._wait_for_observer()
 
         if not self._is_stopped:
             self._is_stopped = True
-            await self._observer.athrow(error)
+            await observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
-        self.check_disposed()
-
-        while self._observer is None:
-            log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
-            self.check_disposed()
+        observer = await self._wait_for_observer()
 
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
             self._is_stopped = True
-            await self._observer.aclose()
+            await observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
-- 
2.43.0


From 557b427bc3796cd86a0ad6e08c5c0f0e3ad6c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:27 +0000
Subject: [PATCH 21/40] fix: cancelling one producer that waits on an
 AsyncSingleSubject cancels them all

---
 aioreactive/subject.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 0a0b1f6..4979988 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, Lock
+from asyncio import Event, Lock
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -25,7 +25,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     def __init__(self) -> None:
         super().__init__()
 
-        self._wait: Future[bool] = Future()
+        self._wait = Event()
         self._lock = Lock()
         self._observer: AsyncObserver[_TSource] | None = None
         self._is_disposed = False
@@ -44,7 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             while self._observer is None:
                 log.debug("AsyncSingleStream:awaiting start")
                 self.check_disposed()
-                await self._wait
+                await self._wait.wait()
 
             return self._observer
 
@@ -82,8 +82,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._is_disposed = True
 
         # Release any producer that is still waiting for an observer.
-        if not self._wait.done():
-            self._wait.set_result(True)
+        self._wait.set()
 
     async def subscribe_async(
         self,
@@ -95,8 +94,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
         self._observer = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
 
-        if not self._wait.done():
-            self._wait.set_result(True)
+        self._wait.set()
 
         return AsyncDisposable.create(self.dispose_async)
 
-- 
2.43.0


From b263f33e5c47a7f01958e8b47c5eeec508ea66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:46 +0000
Subject: [PATCH 22/40] fix: async iteration leaves concurrent producers
 waiting when the stream has ended

---
 aioreactive/observers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index c6a79b0..03fbe86 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -29,11 +29,14 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscription: AsyncDisposable | None = None
         self._source = source
         self._busy = False
+        self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
         await self._serialize_access()
+        if self._is_stopped:
+            return
 
         self._push.set_result(value)
         await self._wait_for_pull()
@@ -41,12 +44,16 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncIteratorObserver:athrow()", error)
         await self._serialize_access()
+        if self._is_stopped:
+            return
 
         self._push.set_exception(error)
         await self._wait_for_pull()
 
     async def aclose(self) -> None:
         await self._serialize_access()
+        if self._is_stopped:
+            return
 
         self._push.set_exception(StopAsyncIteration)
         await self._wait_for_pull()
@@ -58,7 +65,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
     async def _serialize_access(self) -> None:
         # Serialize producer event to the iterator
-        while self._busy:
+        while self._busy and not self._is_stopped:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
             await fut
@@ -73,9 +80,13 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         try:
             value = await self._push
         except Exception:
-            # The terminal event was picked up, so release the producer.
+            # The terminal event was picked up, so release the producers.
+            self._is_stopped = True
             if not self._pull.done():
                 self._pull.set_result(True)
+            for awaiter in self._awaiters:
+                if not awaiter.done():
+                    awaiter.set_result(True)
             raise
 
         self._push = Future()
-- 
2.43.0


From 0aa6edfadbbb782a121d4b27c71f141955bf261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:10 +0000
Subject: [PATCH 23/40] fix: async iteration loses a concurrent producer that
 arrives while the previous value is picked up

---
 aioreactive/observers.py | 54 ++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 03fbe86..74143ae 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import Future, Lock, iscoroutinefunction
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -25,53 +25,42 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._push: Future[_TSource] = Future()
         self._pull: Future[bool] = Future()
 
-        self._awaiters: list[Future[bool]] = []
+        # Serializes the producers, in the order they arrive
+        self._lock = Lock()
         self._subscription: AsyncDisposable | None = None
         self._source = source
-        self._busy = False
         self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
-        await self._serialize_access()
-        if self._is_stopped:
-            return
+        async with self._lock:
+            if self._is_stopped:
+                return
 
-        self._push.set_result(value)
-        await self._wait_for_pull()
+            self._push.set_result(value)
+            await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncIteratorObserver:athrow()", error)
-        await self._serialize_access()
-        if self._is_stopped:
-            return
+        async with self._lock:
+            if self._is_stopped:
+                return
 
-        self._push.set_exception(error)
-        await self._wait_for_pull()
+            self._push.set_exception(error)
+            await self._wait_for_pull()
 
     async def aclose(self) -> None:
-        await self._serialize_access()
-        if self._is_stopped:
-            return
+        async with self._lock:
+            if self._is_stopped:
+                return
 
-        self._push.set_exception(StopAsyncIteration)
-        await self._wait_for_pull()
+            self._push.set_exception(StopAsyncIteration)
+            await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
         await self._pull
         self._pull = Future()
-        self._busy = False
-
-    async def _serialize_access(self) -> None:
-        # Serialize producer event to the iterator
-        while self._busy and not self._is_stopped:
-            fut: Future[bool] = Future()
-            self._awaiters.append(fut)
-            await fut
-            self._awaiters.remove(fut)
-
-        self._busy = True
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
@@ -84,17 +73,10 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             self._is_stopped = True
             if not self._pull.done():
                 self._pull.set_result(True)
-            for awaiter in self._awaiters:
-                if not awaiter.done():
-                    awaiter.set_result(True)
             raise
 
         self._push = Future()
         self._pull.set_result(True)
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
         return value
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From dcc8c009078092be93782bc69c455f81acadc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:34 +0000
Subject: [PATCH 24/40] fix: subject delivers an event to an observer disposed
 while an earlier observer handles it

---
 aioreactive/subject.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 4979988..d9ec970 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -125,7 +125,9 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
 
         for obv in list(self._observers):
-            await obv.asend(value)
+            # Skip an observer that was disposed while an earlier one handled the event.
+            if obv in self._observers:
+                await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         self.check_disposed()
@@ -135,7 +137,9 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            await obv.athrow(error)
+            # Skip an observer that was disposed while an earlier one handled the event.
+            if obv in self._observers:
+                await obv.athrow(error)
 
     async def aclose(self) -> None:
         self.check_disposed()
@@ -145,7 +149,9 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self._is_stopped = True
 
         for obv in list(self._observers):
-            await obv.aclose()
+            # Skip an observer that was disposed while an earlier one handled the event.
+            if obv in self._observers:
+                await obv.aclose()
 
     async def subscribe_async(
         self,
-- 
2.43.0


From 6c631500bcf66d3999363ee1eadb26fba9de0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:34 +0000
Subject: [PATCH 25/40] fix: async iterable stream delivers events after the
 observer disposed it

---
 aioreactive/create.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index fdf8176..ca919b9 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -86,16 +86,17 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             if task:
                 task.cancel()
 
-        sub = AsyncDisposable.create(cancel)
+        disposable_obv, silence = disposable_observer(observer)
+        sub = silence(AsyncDisposable.create(cancel))
 
         async def worker() -> None:
             try:
                 async for value in iterable:
-                    await observer.asend(value)
+                    await disposable_obv.asend(value)
             except Exception as ex:
-                await observer.athrow(ex)
+                await disposable_obv.athrow(ex)
             else:
-                await observer.aclose()
+                await disposable_obv.aclose()
             tasks.remove(task)
 
         try:
-- 
2.43.0


From 635eb9df57f3fe195e6c4f55db950ddd92d0ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:24 +0000
Subject: [PATCH 26/40] fix: timer completes after the observer disposed it
 while handling its value

---
 aioreactive/create.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ca919b9..c7b0116 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -212,20 +212,21 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
 
     async def subscribe_async(aobv: AsyncObserver[int]) -> AsyncDisposable:
         cancel, token = canceller()
+        disposable_obv, silence = disposable_observer(aobv)
 
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await aobv.asend(next)
+            await disposable_obv.asend(next)
 
             if not period:
-                await aobv.aclose()
+                await disposable_obv.aclose()
                 return None
 
             return TailCall[float, int](period, next + 1)
 
         aiotools.start(handler(seconds, 0), token)
-        return cancel
+        return silence(cancel)
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 4f3f3edf812c9a0a77cbe1df3cb3ae172a337a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:07 +0000
Subject: [PATCH 27/40] fix: interval swallows the exception of an observer or
 callback

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index c7b0116..e3df395 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -217,7 +217,11 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await disposable_obv.asend(next)
+            try:
+                await disposable_obv.asend(next)
+            except Exception as ex:
+                await disposable_obv.athrow(ex)
+                return None
 
             if not period:
                 await disposable_obv.aclose()
-- 
2.43.0


From 4468c4f9128c0358a2badd5ff14843ddbfe03201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:07 +0000
Subject: [PATCH 28/40] fix: delay swallows the exception of an observer or
 callback

---
 aioreactive/timeshift.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..244b1f5 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -51,6 +51,8 @@ def delay(
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         cts = CancellationTokenSource()
         token = cts.token
+        subscription = AsyncDisposable.empty()
+        is_stopped = False
 
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
@@ -66,9 +68,16 @@ def delay(
                     await asyncio.sleep(seconds)
 
                 async def matcher() -> None:
+                    nonlocal is_stopped
                     match ns:
                         case OnNext(value=x):
-                            await aobv.asend(x)
+                            try:
+                                await aobv.asend(x)
+                            except Exception as ex:
+                                is_stopped = True
+                                await subscription.dispose_async()
+                                if not token.is_cancellation_requested:
+                                    await aobv.athrow(ex)
                             return
                         case OnError(exception=err):
                             await aobv.athrow(err)
@@ -78,6 +87,8 @@ def delay(
                             return
 
                 await matcher()
+                if is_stopped:
+                    return
                 return TailCall["..."]()
 
             return asyncio.ensure_future(loop())
@@ -90,6 +101,8 @@ def delay(
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
         subscription = await source.subscribe_async(obv)
+        if is_stopped:
+            await subscription.dispose_async()
 
         async def cancel() -> None:
             log.debug("delay:cancel()")
-- 
2.43.0


From 888e7d44e2c1de468ae304a8931e1c301b12fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:40 +0000
Subject: [PATCH 29/40] fix: catch delivers events of the handler's source
 after the subscription was disposed

---
 aioreactive/transform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index e64cc17..fa952ef 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -23,7 +23,7 @@ from .msg import (
     Msg,
 )
 from .observables import AsyncAnonymousObservable, AsyncObservable
-from .observers import AsyncAnonymousObserver, auto_detach_observer
+from .observers import AsyncAnonymousObserver, auto_detach_observer, disposable_observer
 from .types import AsyncObserver
 
 
@@ -404,6 +404,7 @@ def catch(
 
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+            disposable_obv, silence = disposable_observer(aobv)
             disposable = AsyncDisposable.empty()
             is_caught = False
             is_disposed = False
@@ -422,7 +423,7 @@ def catch(
                     await aobv.athrow(ex)
                     return
 
-                disposable = await next_source.subscribe_async(aobv)
+                disposable = await next_source.subscribe_async(disposable_obv)
                 if is_disposed:
                     await disposable.dispose_async()
 
@@ -441,7 +442,7 @@ def catch(
                 is_disposed = True
                 await disposable.dispose_async()
 
-            return AsyncDisposable.create(cancel)
+            return silence(AsyncDisposable.create(cancel))
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From ad71a76829ddc8849f2f860a22b79abd2c763143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:19 +0000
Subject: [PATCH 30/40] Revert "fix: AsyncTestObserver invokes its callbacks
 once per event"

This reverts commit 9a0d72714a6abf72aef75bb4c50cd6c8cbecc4e5.
---
 aioreactive/testing/observer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aioreactive/testing/observer.py b/aioreactive/testing/observer.py
index 436b899..43ac07a 100644
--- a/aioreactive/testing/observer.py
+++ b/aioreactive/testing/observer.py
@@ -37,6 +37,10 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
 
         self._values: list[tuple[float, Notification[TSource]]] = []
 
+        self._send = asend
+        self._throw = athrow
+        self._close = aclose
+
     def time(self) -> float:
         return self._loop.time()
 
@@ -45,6 +49,7 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnNext(value)))
 
+        await self._send(value)
         await super().asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -52,6 +57,7 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnError(error)))
 
+        await self._throw(error)
         await super().athrow(error)
 
     async def aclose(self) -> None:
@@ -60,6 +66,7 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnCompleted()))
 
+        await self._close()
         await super().aclose()
 
     @property
-- 
2.43.0


From b10cf26f99ad65bada86ec480a1b04ce006ecb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:40 +0000
Subject: [PATCH 31/40] fix: cancelling the wait for the next value breaks
 async iteration

Cancelling __anext__ (for example through asyncio.wait_for) cancelled the
future that the next producer resolves, so that its send raised
InvalidStateError, and every later wait was cancelled at once.
---
 aioreactive/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 74143ae..f3999b2 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, Lock, iscoroutinefunction
+from asyncio import Future, Lock, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -67,7 +67,8 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             self._subscription = await self._source.subscribe_async(self)
 
         try:
-            value = await self._push
+            # Shielded, so that cancelling the consumer leaves the future to the next one.
+            value = await shield(self._push)
         except Exception:
             # The terminal event was picked up, so release the producers.
             self._is_stopped = True
-- 
2.43.0


From 5833ac2022c2a9daf3d76d86e1cce0f433edd081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:24 +0000
Subject: [PATCH 32/40] fix: an awaitable observer that was cancelled raises
 when its stream ends

When the wait for the observer had timed out or was cancelled, the
producer's athrow or aclose raised InvalidStateError.
---
 aioreactive/observers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index f3999b2..698114c 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -313,7 +313,8 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        if not self.done():  # it might have been cancelled, e.g. by a timeout
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -325,7 +326,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
+        if self.done():  # it might have been cancelled, e.g. by a timeout
+            pass
+        elif self._has_value:
             self.set_result(self._last_value)
         else:
             self.cancel()
-- 
2.43.0


From 18a01705ac8d114ae591613cdc8f191d1c8c2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 33/40] fix: a subject confused observers that compare equal

---
 aioreactive/subject.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d9ec970..f7135c0 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -118,6 +118,10 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         if self._is_disposed:
             raise ObjectDisposedException()
 
+    def _is_subscribed(self, observer: AsyncObserver[_TSource]) -> bool:
+        # By identity, two observers may well compare equal
+        return any(obv is observer for obv in self._observers)
+
     async def asend(self, value: _TSource) -> None:
         self.check_disposed()
 
@@ -126,7 +130,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         for obv in list(self._observers):
             # Skip an observer that was disposed while an earlier one handled the event.
-            if obv in self._observers:
+            if self._is_subscribed(obv):
                 await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -138,7 +142,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         for obv in list(self._observers):
             # Skip an observer that was disposed while an earlier one handled the event.
-            if obv in self._observers:
+            if self._is_subscribed(obv):
                 await obv.athrow(error)
 
     async def aclose(self) -> None:
@@ -150,7 +154,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         for obv in list(self._observers):
             # Skip an observer that was disposed while an earlier one handled the event.
-            if obv in self._observers:
+            if self._is_subscribed(obv):
                 await obv.aclose()
 
     async def subscribe_async(
@@ -168,8 +172,10 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            for index, obv in enumerate(self._observers):
+                if obv is observer:
+                    del self._observers[index]
+                    break
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From 1fb68912f3e5049dc62f54f8263b3f741e0dabef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:48 +0000
Subject: [PATCH 34/40] fix: a value without a text form was lost by a debug
 message

---
 aioreactive/observers.py | 2 +-
 aioreactive/subject.py   | 2 +-
 aioreactive/utils.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 698114c..9940527 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -295,7 +295,7 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
         self._has_value = False
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncAwaitableObserver:asend(%s)", str(value))
+        log.debug("AsyncAwaitableObserver:asend(%s)", value)
 
         if self._is_stopped:
             log.debug("AsyncAwaitableObserver:asend(), Closed!!")
diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index f7135c0..4b9ecee 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -49,7 +49,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             return self._observer
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncSingleStream:asend(%s)", str(value))
+        log.debug("AsyncSingleStream:asend(%s)", value)
 
         observer = await self._wait_for_observer()
 
diff --git a/aioreactive/utils.py b/aioreactive/utils.py
index d49fd67..ec285a4 100644
--- a/aioreactive/utils.py
+++ b/aioreactive/utils.py
@@ -19,7 +19,7 @@ async def anoop(value: Any | None = None) -> None:
 
 class NoopObserver(AsyncObserver[_TSource]):
     async def asend(self, value: _TSource) -> None:
-        log.debug("NoopSink:asend(%s)", str(value))
+        log.debug("NoopSink:asend(%s)", value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("NoopSink:athrow(%s)", error)
-- 
2.43.0


From 96d218104efb9435fa4460a8f16019fbbae232e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:56 +0000
Subject: [PATCH 35/40] fix: a subject delivered a value after the terminal
 event that was sent while an earlier observer handled it

---
 aioreactive/subject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 4b9ecee..4c50132 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -129,8 +129,8 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
 
         for obv in list(self._observers):
-            # Skip an observer that was disposed while an earlier one handled the event.
-            if self._is_subscribed(obv):
+            # Skip an observer that was disposed, or got the terminal event, while an earlier one handled this one.
+            if self._is_subscribed(obv) and not self._is_stopped:
                 await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
-- 
2.43.0


From 810430cd0fb15c057d7a772db6da5aefdc1aecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 36/40] fix: cancelling a producer that waits for its value to
 be picked up breaks async iteration

---
 aioreactive/observers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 9940527..ac4486e 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -35,6 +35,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
         async with self._lock:
+            await self._wait_for_pull()
             if self._is_stopped:
                 return
 
@@ -44,6 +45,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncIteratorObserver:athrow()", error)
         async with self._lock:
+            await self._wait_for_pull()
             if self._is_stopped:
                 return
 
@@ -52,6 +54,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
     async def aclose(self) -> None:
         async with self._lock:
+            await self._wait_for_pull()
             if self._is_stopped:
                 return
 
@@ -59,8 +62,9 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
-        await self._pull
-        self._pull = Future()
+        # Shielded, so that cancelling the producer leaves the future to the consumer.
+        if self._push.done() and not self._is_stopped:
+            await shield(self._pull)
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
@@ -78,6 +82,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
         self._push = Future()
         self._pull.set_result(True)
+        self._pull = Future()
         return value
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From 132e37565c10ffebd5c2ed6591884815d1173ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:55 +0000
Subject: [PATCH 37/40] fix: disposing an async iterator left the producers
 waiting for their value to be picked up

---
 aioreactive/observers.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index ac4486e..b60027b 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -30,13 +30,14 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscription: AsyncDisposable | None = None
         self._source = source
         self._is_stopped = False
+        self._is_disposed = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
         async with self._lock:
             await self._wait_for_pull()
-            if self._is_stopped:
+            if self._is_stopped or self._is_disposed:
                 return
 
             self._push.set_result(value)
@@ -46,7 +47,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         log.debug("AsyncIteratorObserver:athrow()", error)
         async with self._lock:
             await self._wait_for_pull()
-            if self._is_stopped:
+            if self._is_stopped or self._is_disposed:
                 return
 
             self._push.set_exception(error)
@@ -55,7 +56,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
     async def aclose(self) -> None:
         async with self._lock:
             await self._wait_for_pull()
-            if self._is_stopped:
+            if self._is_stopped or self._is_disposed:
                 return
 
             self._push.set_exception(StopAsyncIteration)
@@ -68,6 +69,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
+            self._is_disposed = False
             self._subscription = await self._source.subscribe_async(self)
 
         try:
@@ -89,6 +91,14 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._subscription is not None:
             await self._subscription.dispose_async()
         self._subscription = None
+        self._is_disposed = True
+
+        # Release the producers that still wait for their value to be picked up.
+        if not self._is_stopped:
+            if self._push.done():
+                self._push = Future()
+            self._pull.set_result(True)
+            self._pull = Future()
 
     def __aiter__(self) -> AsyncIterator[_TSource]:
         log.debug("AsyncIteratorObserver:__aiter__")
-- 
2.43.0


From 1415f790396757cf380616616af9f078c2797823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 38/40] fix: an exception raised by comparing two values
 stalled distinct_until_changed silently

---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index a5bd48d..5cc9f8f 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From a628b3aa942160fa0c22af02a65358b757f4f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 39/40] fix: an exception raised while merge_inner subscribes
 to an inner source stalled the stream silently

---
 aioreactive/combine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index fc8368e..6631083 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -78,12 +78,19 @@ def merge_inner(
 
                     return AsyncAnonymousObserver(asend, athrow, aclose)
 
+                async def subscribe_inner(xs: AsyncObservable[_TSource], key: Key) -> AsyncDisposable:
+                    try:
+                        return await xs.subscribe_async(obv(key))
+                    except Exception as ex:
+                        await safe_obv.athrow(ex)
+                        return AsyncDisposable.empty()
+
                 async def update(msg: Msg[_TSource], model: Model[_TSource]) -> Model[_TSource]:
                     # log.debug("update: %s, model: %s", msg, model)
                     match msg:
                         case Msg(tag="inner_observable", inner_observable=xs):
                             if max_concurrent == 0 or len(model.subscriptions) < max_concurrent:
-                                inner = await xs.subscribe_async(obv(model.key))
+                                inner = await subscribe_inner(xs, model.key)
                                 return model.replace(
                                     subscriptions=model.subscriptions.add(model.key, inner),
                                     key=Key(model.key + 1),
@@ -94,7 +101,7 @@ def merge_inner(
                             subscriptions = model.subscriptions.remove(key)
                             if len(model.queue):
                                 xs = model.queue[0]
-                                inner = await xs.subscribe_async(obv(model.key))
+                                inner = await subscribe_inner(xs, model.key)
 
                                 return model.replace(
                                     subscriptions=subscriptions.add(model.key, inner),
-- 
2.43.0


From 95fe627d544ef4c5e8a97a60f8c1f15e516e1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 40/40] fix: an exception raised while switch_latest subscribes
 to an inner source stalled the stream silently

---
 aioreactive/transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index fa952ef..50ddc18 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -294,8 +294,11 @@ def switch_latest(
                         next_id = latest_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
-                        current, current_id = Some(inner), next_id
+                        current, current_id = Nothing, next_id
+                        try:
+                            current = Some(await xs.subscribe_async(obv(inbox, next_id)))
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
 
                     case Msg(tag="inner_completed", inner_completed=idx):
                         if idx == current_id:
-- 
2.43.0

