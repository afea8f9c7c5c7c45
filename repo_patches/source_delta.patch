From 33c5ddb0ef4a06ea899ec333c9b1d4b8b6678df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 01/37] fix: dispose the upstream subscription when an
 auto-detaching observer terminates

Cancelling the token killed the worker before it could process the dispose
message, so the source was never unsubscribed on completion or error.
---
 aioreactive/observers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..4097ca6 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.system import AsyncDisposable, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -205,17 +205,13 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
-    cts = CancellationTokenSource()
-    token = cts.token
+    is_detached = False
 
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
         @tailrec_async
         async def message_loop(
             disposables: list[AsyncDisposable],
         ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
             cmd = await inbox.receive()
             match cmd:
                 case Msg(tag="disposable", disposable=disposable):
@@ -228,10 +224,11 @@ def auto_detach_observer(
 
         await message_loop([])
 
-    agent = MailboxProcessor.start(worker, token)
+    agent = MailboxProcessor.start(worker)
 
     async def cancel() -> None:
-        cts.cancel()
+        nonlocal is_detached
+        is_detached = True
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
@@ -240,7 +237,11 @@ def auto_detach_observer(
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
+        if is_detached:
+            # The observer completed while we were still subscribing.
+            await disposable.dispose_async()
+        else:
+            agent.post(Msg(disposable=disposable))
         return disposable
 
     return safe_obv, auto_detach
-- 
2.43.0


From e1c5fc13e5407b240286e6e73ab09e7ddb987ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 02/37] fix: dispose the source when an observer fails while
 handling a value

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 4097ca6..7419528 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -172,6 +172,7 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From cc7361adbb9d9c771570973fc370ad9c21b33536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:56 +0000
Subject: [PATCH 03/37] fix: do not deliver queued notifications after the
 subscription is disposed

Values already queued (from_iterable, and every auto-detaching operator), the
completion that from_async produced because of the disposal, and the completion
debounce posted on disposal all reached the observer after dispose_async().
---
 aioreactive/create.py    | 19 ++++++++++++++++---
 aioreactive/observers.py | 17 +++++++++++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..935a435 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -12,8 +12,9 @@ from expression.system import (
     CancellationTokenSource,
 )
 
+from .notification import Notification
 from .observables import AsyncAnonymousObservable
-from .observers import AsyncObserver, safe_observer
+from .observers import AsyncNotificationObserver, AsyncObserver, safe_observer
 from .types import AsyncObservable
 
 
@@ -48,10 +49,22 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
     async def subscribe_async(aobv: AsyncObserver[Any]) -> AsyncDisposable:
         log.debug("of_async_worker:subscribe_async()")
         disposable, token = canceller()
-        safe_obv = safe_observer(aobv, disposable)
+        is_disposed = False
+
+        # Notifications that are still queued when the subscription is disposed must not reach the observer.
+        async def forward(n: Notification[Any]) -> None:
+            if not is_disposed:
+                await n.accept_observer(aobv)
+
+        async def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
+            await disposable.dispose_async()
+
+        safe_obv = safe_observer(AsyncNotificationObserver(forward), disposable)
 
         aiotools.start(worker(safe_obv, token), token)
-        return disposable
+        return AsyncDisposable.create(dispose)
 
     return AsyncAnonymousObservable(subscribe_async)
 
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 7419528..360725e 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -207,6 +207,7 @@ def auto_detach_observer(
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
     is_detached = False
+    is_disposed = False
 
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
         @tailrec_async
@@ -233,7 +234,13 @@ def auto_detach_observer(
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
-    safe_obv = safe_observer(obv, canceller)
+
+    # Notifications that are still queued when the subscription is disposed must not reach the observer.
+    async def forward(n: Notification[_TSource]) -> None:
+        if not is_disposed:
+            await n.accept_observer(obv)
+
+    safe_obv = safe_observer(AsyncNotificationObserver(forward), canceller)
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
@@ -243,7 +250,13 @@ def auto_detach_observer(
             await disposable.dispose_async()
         else:
             agent.post(Msg(disposable=disposable))
-        return disposable
+
+        async def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
+            await disposable.dispose_async()
+
+        return AsyncDisposable.create(dispose)
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From 70e706fc9fcf6d3a2ba52a5afb9d75f1168f0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:19 +0000
Subject: [PATCH 04/37] fix: from_iterable reports an error raised by the
 iterable instead of hanging

---
 aioreactive/create.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 935a435..1b8cf11 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -180,14 +180,13 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
-
-            try:
+        try:
+            for x in xs:
+                token.throw_if_cancellation_requested()
+                log.debug("of_seq:asend(%s)", x)
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
+        except Exception as ex:
+            await obv.athrow(ex)
 
         await obv.aclose()
 
-- 
2.43.0


From 08a54997c0c76e98ff0b1bdb8b82653ce80e974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 05/37] fix: from_async_iterable reports an error raised by the
 iterable and stops when disposed from asend

---
 aioreactive/create.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 1b8cf11..b7b0f70 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -93,22 +93,27 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
     tasks: set[Task[Any]] = set()
 
     async def subscribe_async(observer: AsyncObserver[TSource]) -> AsyncDisposable:
+        is_disposed = False
+
         async def cancel() -> None:
+            nonlocal is_disposed
+            is_disposed = True
             if task:
                 task.cancel()
 
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
+                    if is_disposed:
+                        return
+            except Exception as ex:
+                await observer.athrow(ex)
+                return
 
             await observer.aclose()
-            tasks.remove(task)
 
         try:
             task = asyncio.create_task(worker())
@@ -117,6 +122,7 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             await observer.athrow(ex)
         else:
             tasks.add(task)
+            task.add_done_callback(tasks.discard)
         return sub
 
     return AsyncAnonymousObservable(subscribe_async)
-- 
2.43.0


From ac1579ba43da81002dea614e1641b8d52ebc7e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 06/37] fix: interval reports an error raised downstream
 instead of silently stopping

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index b7b0f70..995565e 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -231,7 +231,11 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await aobv.asend(next)
+            try:
+                await aobv.asend(next)
+            except Exception as ex:
+                await aobv.athrow(ex)
+                return None
 
             if not period:
                 await aobv.aclose()
-- 
2.43.0


From f26100c25b0a8b8360689f0bea76a70114d0c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 07/37] fix: disposing one subscription of a delayed observable
 must not affect the others

---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From 6b588c4286887eedda161c1a94c2306a616a54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:15 +0000
Subject: [PATCH 08/37] fix: delay reports an error raised downstream and
 disposes the source

---
 aioreactive/timeshift.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..3f26d0c 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -51,6 +51,7 @@ def delay(
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         cts = CancellationTokenSource()
         token = cts.token
+        subscription = AsyncDisposable.empty()
 
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
@@ -68,7 +69,12 @@ def delay(
                 async def matcher() -> None:
                     match ns:
                         case OnNext(value=x):
-                            await aobv.asend(x)
+                            try:
+                                await aobv.asend(x)
+                            except Exception as ex:
+                                await subscription.dispose_async()
+                                await aobv.athrow(ex)
+                                cts.cancel()
                             return
                         case OnError(exception=err):
                             await aobv.athrow(err)
@@ -90,6 +96,9 @@ def delay(
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
         subscription = await source.subscribe_async(obv)
+        if token.is_cancellation_requested:
+            # The observer failed while we were still subscribing.
+            await subscription.dispose_async()
 
         async def cancel() -> None:
             log.debug("delay:cancel()")
-- 
2.43.0


From 0077ebc1a0414fb998acba4c3fded6f788da4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:18 +0000
Subject: [PATCH 09/37] fix: merge_inner disposes all inner observables when it
 terminates with an error

---
 aioreactive/combine.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..0cff016 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -123,7 +123,11 @@ def merge_inner(
                 async def message_loop(model: Model[_TSource]) -> None:
                     while True:
                         msg = await inbox.receive()
-                        model = await update(msg, model)
+                        try:
+                            model = await update(msg, model)
+                        except Exception as ex:
+                            # Failed to subscribe to the inner observable
+                            await safe_obv.athrow(ex)
 
                         if model.is_stopped and not model.subscriptions:
                             break
@@ -138,19 +142,23 @@ def merge_inner(
 
             async def athrow(error: Exception) -> None:
                 await safe_obv.athrow(error)
-                agent.post(Msg(dispose=True))
 
             async def aclose() -> None:
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post(Msg(dispose=True))
+            async def subscribe() -> AsyncDisposable:
+                subscription = await source.subscribe_async(obv)
 
-            return AsyncDisposable.create(cancel)
+                async def cancel() -> None:
+                    await subscription.dispose_async()
+                    agent.post(Msg(dispose=True))
+
+                return AsyncDisposable.create(cancel)
+
+            # Any termination, also an error from one of the inner observables, must dispose the (other) inners.
+            return await auto_detach(subscribe())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 7074c058ef284962c769eb9f487e41a5c2d5604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 10/37] fix: switch_latest completes, ignores stale inner
 observables and disposes the inner when it terminates

---
 aioreactive/transform.py | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..5875326 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -263,13 +263,17 @@ def switch_latest(
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
+        latest_id = 0
 
+        # Notifications from any other than the latest inner observable are ignored.
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -284,29 +288,36 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        next_id = current_id + 1
+                        next_id = latest_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
+                        try:
+                            inner = await xs.subscribe_async(obv(inbox, next_id))
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
+                            return None
                         current, current_id = Some(inner), next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            current = Nothing
+                            if is_stopped:
+                                await safe_obv.aclose()
 
                     case Msg(tag="completed"):
+                        is_stopped = True
                         if current.is_none():
                             await safe_obv.aclose()
 
                     case Msg(tag="dispose"):
                         if current.is_some():
                             await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        return None
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
@@ -329,17 +340,18 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
-        async def cancel() -> None:
-            await dispose.dispose_async()
-            inner_agent.post(Msg(dispose=True))
+        async def subscribe() -> AsyncDisposable:
+            subscription = await source.subscribe_async(_obv)
+
+            async def cancel() -> None:
+                await subscription.dispose_async()
+                inner_agent.post(Msg(dispose=True))
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        # Any termination must dispose the inner observable as well.
+        return await auto_detach(subscribe())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From e2f61746f921d884a87189b5bb508c1f9e645ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 11/37] fix: take_until disposes the other observable when it
 terminates

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..40f2bd0 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -322,7 +322,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From fdc0bda2972e78b7dd85274798e122ccc1bb8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 12/37] fix: skip_last must not drop None values

---
 aioreactive/filtering.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 40f2bd0..8418ca7 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,12 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
                     front = q.pop(0)
-
-                if front is not None:
                     await safe_obv.asend(front)
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
-- 
2.43.0


From 585204fba8a972c8cdcff8a5149f7798981abc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:16 +0000
Subject: [PATCH 13/37] fix: slicing follows Python slice semantics for zero,
 crossing and mixed-sign bounds

---
 aioreactive/__init__.py  |  3 ++-
 aioreactive/filtering.py | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/aioreactive/__init__.py b/aioreactive/__init__.py
index a91330f..297aa5a 100644
--- a/aioreactive/__init__.py
+++ b/aioreactive/__init__.py
@@ -117,7 +117,8 @@ class AsyncRx(AsyncObservable[_TSource]):
         if isinstance(key, slice):
             start, stop, step = key.start, key.stop, key.step
         else:
-            start, stop, step = key, key + 1, 1
+            # The last element, i.e `source[-1]`, has no stop
+            start, stop, step = key, key + 1 or None, 1
 
         return AsyncRx(pipe(self, _slice(start, stop, step or 1)))
 
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 8418ca7..0ada1bf 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -362,18 +362,20 @@ def slice(
     """
 
     def _slice(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        nonlocal start
-
-        if start is not None:
+        if start is not None and start < 0 and stop is not None and stop >= 0:
+            # Relative to both the end and the start so we need to keep track of the index
+            indexed = pipe(source, zip_seq(seq.infinite), take_last(abs(start)))
+            source = pipe(indexed, starfilter(lambda _, i: i < stop), map(seq.head))
+        elif start is not None:
             if start < 0:
                 source = pipe(source, take_last(abs(start)))
             else:
                 source = pipe(source, skip(start))
 
         if stop is not None:
-            if stop > 0:
-                start = start or 0
-                source = pipe(source, take(stop - start))
+            if stop >= 0:
+                if start is None or start >= 0:
+                    source = pipe(source, take(max(stop - (start or 0), 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From ed2abb72b1f2306d77908c97ea6ff13e80a90f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 14/37] fix: catch can be disposed after switching and only
 handles errors from its source

---
 aioreactive/transform.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 5875326..87a9004 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -412,29 +412,39 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_disposed = False
+            is_caught = False
 
-            async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
-
-                async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+            async def athrow(error: Exception) -> None:
+                nonlocal disposable, is_caught
 
-                async def athrow(error: Exception) -> None:
-                    next_source = handler(error)
-                    await action(next_source)
+                is_caught = True
+                await disposable.dispose_async()
+                if is_disposed:
+                    return
 
-                async def aclose() -> None:
-                    await aobv.aclose()
+                try:
+                    subscription = await handler(error).subscribe_async(aobv)
+                except Exception as ex:
+                    await aobv.athrow(ex)
+                    return
 
-                _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+                disposable = subscription
+                if is_disposed:
+                    await subscription.dispose_async()
 
-                await disposable.dispose_async()
-                subscription = await source.subscribe_async(_obv)
+            _obv = AsyncAnonymousObserver(aobv.asend, athrow, aobv.aclose)
+            subscription = await source.subscribe_async(_obv)
+            if not is_caught:
                 disposable = subscription
 
-            await action(source)
+            async def dispose() -> None:
+                nonlocal is_disposed
+
+                is_disposed = True
+                await disposable.dispose_async()
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            return AsyncDisposable.create(dispose)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 26aa00949e699c4cedd0b6e7f7a462cada23cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:14 +0000
Subject: [PATCH 15/37] fix: retry makes the given number of retries for every
 subscription

---
 aioreactive/transform.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 87a9004..44ddb9d 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -455,16 +455,11 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
-
         def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
-
-            if not count:
+            if retry_count <= 0:
                 return fail(exn)
             else:
-                count -= count
-                return source
+                return pipe(source, retry(retry_count - 1))
 
         return pipe(source, catch(factory))
 
-- 
2.43.0


From f5f247f2c1083b8e70285af74ffe47c2d88a6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 16/37] fix: scan stops and disposes the source when the
 accumulator fails

---
 aioreactive/transform.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 44ddb9d..9fcaf67 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -474,27 +474,37 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
                     await observer.athrow(ex)
+                    await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
-            await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                # The accumulator failed while we were still subscribing.
+                await disposable.dispose_async()
 
             return disposable
 
-- 
2.43.0


From 40ab7bd9b6874c7537931eab9cdf03dac227a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 17/37] fix: async iteration releases producers on termination,
 disposal and cancellation

---
 aioreactive/observers.py | 58 ++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 360725e..1cf9c66 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import Future, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -30,60 +30,84 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscription: AsyncDisposable | None = None
         self._source = source
         self._busy = False
+        self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
         await self._serialize_access()
+        if self._is_stopped:
+            return
 
         self._push.set_result(value)
-        await self._wait_for_pull()
+        await self._pull
 
     async def athrow(self, error: Exception) -> None:
-        log.debug("AsyncIteratorObserver:athrow()", error)
+        log.debug("AsyncIteratorObserver:athrow(%s)", error)
         await self._serialize_access()
+        if self._is_stopped:
+            return
 
         self._push.set_exception(error)
-        await self._wait_for_pull()
+        self._stop()
 
     async def aclose(self) -> None:
         await self._serialize_access()
+        if self._is_stopped:
+            return
 
         self._push.set_exception(StopAsyncIteration)
-        await self._wait_for_pull()
+        self._stop()
 
-    async def _wait_for_pull(self) -> None:
-        await self._pull
-        self._pull = Future()
+    def _stop(self) -> None:
+        # Nothing more to iterate so no need to hold back any producer.
+        self._is_stopped = True
+        self._release()
+
+    def _release(self) -> None:
+        pull, self._pull = self._pull, Future()
         self._busy = False
+        if not pull.done():
+            pull.set_result(True)
+
+        # Wake up any awaiters
+        for awaiter in self._awaiters:
+            if not awaiter.done():
+                awaiter.set_result(True)
 
     async def _serialize_access(self) -> None:
         # Serialize producer event to the iterator
-        while self._busy:
+        while self._busy and not self._is_stopped:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
-            await fut
-            self._awaiters.remove(fut)
+            try:
+                await fut
+            finally:
+                self._awaiters.remove(fut)
 
         self._busy = True
 
     async def wait_for_push(self) -> _TSource:
         if self._subscription is None:
+            if self._is_stopped:
+                raise StopAsyncIteration  # Disposed
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
+        # A consumer that is cancelled (e.g by a timeout) must not cancel the future of the producer.
+        value = await shield(self._push)
         self._push = Future()
-        self._pull.set_result(True)
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
+        self._release()
         return value
 
     async def dispose_async(self) -> None:
         if self._subscription is not None:
             await self._subscription.dispose_async()
         self._subscription = None
+        self._stop()
+        if not self._push.done():
+            # End a pending iteration. Access the exception since there might be nobody there to retrieve it.
+            self._push.set_exception(StopAsyncIteration)
+            self._push.exception()
 
     def __aiter__(self) -> AsyncIterator[_TSource]:
         log.debug("AsyncIteratorObserver:__aiter__")
-- 
2.43.0


From 243c90ab62a26deec644b89644d9fe8962804a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 18/37] fix: single subject neither hangs nor violates the Rx
 grammar when disposed or used concurrently

---
 aioreactive/subject.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..f3ece7a 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -34,43 +34,39 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         if self._is_disposed:
             raise ObjectDisposedException()
 
-    async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncSingleStream:asend(%s)", str(value))
-
+    async def _wait_for_observer(self) -> AsyncObserver[_TSource]:
         self.check_disposed()
 
         # AsyncSingleStreams are cold and will await a sink.
         while self._observer is None:
-            log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
-            log.debug("AsyncSingleStream:asend:awaiting:done")
+            log.debug("AsyncSingleStream:awaiting start")
+            # A producer that gets cancelled must not cancel the other producers.
+            await shield(self._wait)
+            self.check_disposed()
+        return self._observer
+
+    async def asend(self, value: _TSource) -> None:
+        log.debug("AsyncSingleStream:asend(%s)", str(value))
 
+        observer = await self._wait_for_observer()
         if not self._is_stopped:
-            await self._observer.asend(value)
+            await observer.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
-        while self._observer is None:
-            await self._wait
-
-        self.check_disposed()
+        observer = await self._wait_for_observer()
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
-        while self._observer is None:
-            log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
-
-        self.check_disposed()
+        observer = await self._wait_for_observer()
         if not self._is_stopped:
-            log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
@@ -78,6 +74,9 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From 1bd1c07963800496407f1463f2484dd1d79d513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:03 +0000
Subject: [PATCH 19/37] fix: to_observable can be disposed before it is
 subscribed and reports subscribe errors

---
 aioreactive/leave.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..55d72f8 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -35,6 +35,7 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        is_disposed = False
 
         async def start() -> None:
             nonlocal subscription
@@ -48,17 +49,25 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
             async def aclose() -> None:
                 obv.on_completed()
 
-            subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+            try:
+                subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            except Exception as ex:
+                obv.on_error(ex)
+            else:
+                if is_disposed:
+                    await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
             if subscription:
                 task = asyncio.create_task(subscription.dispose_async())
                 tasks.add(task)
+                task.add_done_callback(tasks.discard)
 
         return Disposable(dispose)
 
-- 
2.43.0


From 5709596a38167e6e6f74c4c8b7a5c7ad6b7c71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:26 +0000
Subject: [PATCH 20/37] fix: awaitable observer handles termination after its
 future is cancelled

---
 aioreactive/observers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 1cf9c66..9fe3154 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -333,7 +333,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        # The future might be cancelled by whoever awaits it
+        if not self.done():
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -345,10 +347,11 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
-            self.set_result(self._last_value)
-        else:
-            self.cancel()
+        if not self.done():
+            if self._has_value:
+                self.set_result(self._last_value)
+            else:
+                self.cancel()
         await self._aclose()
 
     def dispose(self) -> None:
-- 
2.43.0


From 2a0d6b6fc0289a7014a21c8dc4f37bcbbc7d6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:29 +0000
Subject: [PATCH 21/37] fix: merge_inner does not subscribe to any more inner
 observables after failing to subscribe to one

---
 aioreactive/combine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 0cff016..e1357be 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -128,6 +128,7 @@ def merge_inner(
                         except Exception as ex:
                             # Failed to subscribe to the inner observable
                             await safe_obv.athrow(ex)
+                            model = await update(Msg(dispose=True), model)
 
                         if model.is_stopped and not model.subscriptions:
                             break
-- 
2.43.0


From ec05ed3efe349fa93f139a358956e947256e4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:17 +0000
Subject: [PATCH 22/37] fix: from_async_iterable does not cancel an observer
 that disposes it while handling the termination

---
 aioreactive/create.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 995565e..9a30dcc 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -94,25 +94,30 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
 
     async def subscribe_async(observer: AsyncObserver[TSource]) -> AsyncDisposable:
         is_disposed = False
+        is_stopped = False
 
         async def cancel() -> None:
             nonlocal is_disposed
             is_disposed = True
-            if task:
+            # An observer that disposes while handling the termination must not be cancelled by doing so.
+            if task and not is_stopped:
                 task.cancel()
 
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
+            nonlocal is_stopped
             try:
                 async for value in iterable:
                     await observer.asend(value)
                     if is_disposed:
                         return
             except Exception as ex:
+                is_stopped = True
                 await observer.athrow(ex)
                 return
 
+            is_stopped = True
             await observer.aclose()
 
         try:
-- 
2.43.0


From 6c3b0a6751e4ac8c262c191965d1025ae1466887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:20 +0000
Subject: [PATCH 23/37] fix: interval does not cancel an observer that disposes
 it while handling the termination

---
 aioreactive/create.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 9a30dcc..2a6fcc0 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -232,24 +232,33 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
 
     async def subscribe_async(aobv: AsyncObserver[int]) -> AsyncDisposable:
         cancel, token = canceller()
+        is_stopped = False
 
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
+            nonlocal is_stopped
             await asyncio.sleep(seconds)
             try:
                 await aobv.asend(next)
             except Exception as ex:
+                is_stopped = True
                 await aobv.athrow(ex)
                 return None
 
             if not period:
+                is_stopped = True
                 await aobv.aclose()
                 return None
 
             return TailCall[float, int](period, next + 1)
 
+        async def dispose() -> None:
+            # An observer that disposes while handling the termination must not be cancelled by doing so.
+            if not is_stopped:
+                await cancel.dispose_async()
+
         aiotools.start(handler(seconds, 0), token)
-        return cancel
+        return AsyncDisposable.create(dispose)
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 9ca7cb0bbdc926c14963de3e25e493877fd6259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:02 +0000
Subject: [PATCH 24/37] fix: timer does not complete an observer that disposed
 its subscription while handling the value

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 2a6fcc0..bb6cee6 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -242,9 +242,13 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
                 await aobv.asend(next)
             except Exception as ex:
                 is_stopped = True
-                await aobv.athrow(ex)
+                if not token.is_cancellation_requested:
+                    await aobv.athrow(ex)
                 return None
 
+            if token.is_cancellation_requested:
+                return None  # Disposed by the observer
+
             if not period:
                 is_stopped = True
                 await aobv.aclose()
-- 
2.43.0


From edea838f5c37016b4e634af6236a9e631481914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:05 +0000
Subject: [PATCH 25/37] fix: from_async_iterable does not report an error to an
 observer that disposed its subscription

---
 aioreactive/create.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index bb6cee6..ed7c0ab 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -114,7 +114,8 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
                         return
             except Exception as ex:
                 is_stopped = True
-                await observer.athrow(ex)
+                if not is_disposed:
+                    await observer.athrow(ex)
                 return
 
             is_stopped = True
-- 
2.43.0


From 6c8a55b94a7bd5ee4d9d011a643ed1c1769f3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 26/37] fix: delay does not report an error to an observer that
 disposed its subscription

---
 aioreactive/timeshift.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 3f26d0c..462b8ee 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -72,6 +72,8 @@ def delay(
                             try:
                                 await aobv.asend(x)
                             except Exception as ex:
+                                if token.is_cancellation_requested:
+                                    return  # Disposed by the observer
                                 await subscription.dispose_async()
                                 await aobv.athrow(ex)
                                 cts.cancel()
-- 
2.43.0


From 97c24f7cfcb6e01a2faf0025151995aa4b74fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:43 +0000
Subject: [PATCH 27/37] fix: delay does not cancel an observer that disposes it
 while handling the termination

---
 aioreactive/timeshift.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 462b8ee..004a511 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -52,6 +52,7 @@ def delay(
         cts = CancellationTokenSource()
         token = cts.token
         subscription = AsyncDisposable.empty()
+        is_stopped = False
 
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
@@ -67,6 +68,7 @@ def delay(
                     await asyncio.sleep(seconds)
 
                 async def matcher() -> None:
+                    nonlocal is_stopped
                     match ns:
                         case OnNext(value=x):
                             try:
@@ -74,18 +76,22 @@ def delay(
                             except Exception as ex:
                                 if token.is_cancellation_requested:
                                     return  # Disposed by the observer
+                                is_stopped = True
                                 await subscription.dispose_async()
                                 await aobv.athrow(ex)
-                                cts.cancel()
                             return
                         case OnError(exception=err):
+                            is_stopped = True
                             await aobv.athrow(err)
                             return
                         case _:
+                            is_stopped = True
                             await aobv.aclose()
                             return
 
                 await matcher()
+                if is_stopped:
+                    return
                 return TailCall["..."]()
 
             return asyncio.ensure_future(loop())
@@ -98,13 +104,15 @@ def delay(
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
         subscription = await source.subscribe_async(obv)
-        if token.is_cancellation_requested:
+        if is_stopped:
             # The observer failed while we were still subscribing.
             await subscription.dispose_async()
 
         async def cancel() -> None:
             log.debug("delay:cancel()")
-            cts.cancel()
+            # An observer that disposes while handling the termination must not be cancelled by doing so.
+            if not is_stopped:
+                cts.cancel()
             await subscription.dispose_async()
 
         return AsyncDisposable.create(cancel)
-- 
2.43.0


From 16d69fa7f650a8d08dbceb57717a300d84a15757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 28/37] fix: retry no longer nests one attempt in the other

Hundreds of attempts, as wanted from a source that reconnects, ended in a RecursionError, either right away
or from disposing. A source that failed while it was being subscribed was never disposed.
---
 aioreactive/transform.py | 60 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 9fcaf67..a56cdb8 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,6 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
 from .msg import (
     Key,
     Msg,
@@ -455,13 +454,60 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            if retry_count <= 0:
-                return fail(exn)
-            else:
-                return pipe(source, retry(retry_count - 1))
+        async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+            disposable = AsyncDisposable.empty()
+            is_connecting = False
+            is_disposed = False
+            failures = 0
+
+            async def athrow(error: Exception) -> None:
+                nonlocal failures
+
+                failures += 1
+                await disposable.dispose_async()
+                if is_disposed:
+                    return
+
+                if failures > retry_count:
+                    await aobv.athrow(error)
+                elif not is_connecting:
+                    await connect()
+
+            async def connect() -> None:
+                nonlocal disposable, is_connecting
+
+                disposable = AsyncDisposable.empty()
+                is_connecting = True
+                # A source might fail while we subscribe to it, so this is a loop in order not to recurse.
+                while not is_disposed and failures <= retry_count:
+                    attempt = failures
+                    _obv = AsyncAnonymousObserver(aobv.asend, athrow, aobv.aclose)
+                    try:
+                        subscription = await source.subscribe_async(_obv)
+                    except Exception as ex:
+                        if attempt == 0:
+                            raise
+                        if not is_disposed and failures == attempt:
+                            await aobv.athrow(ex)
+                        break
+
+                    if failures == attempt and not is_disposed:
+                        disposable = subscription
+                        break
+                    await subscription.dispose_async()
 
-        return pipe(source, catch(factory))
+                is_connecting = False
+
+            async def dispose() -> None:
+                nonlocal is_disposed
+
+                is_disposed = True
+                await disposable.dispose_async()
+
+            await connect()
+            return AsyncDisposable.create(dispose)
+
+        return AsyncAnonymousObservable(subscribe_async)
 
     return _retry
 
-- 
2.43.0


From a591450f9d7a3054052c5f6f12a53505a0e0498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 29/37] fix: catch disposes a source that fails while it is
 being subscribed

and does not pass on that the handler's sequence could not be subscribed after it has been disposed.
---
 aioreactive/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index a56cdb8..acb9520 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -425,7 +425,8 @@ def catch(
                 try:
                     subscription = await handler(error).subscribe_async(aobv)
                 except Exception as ex:
-                    await aobv.athrow(ex)
+                    if not is_disposed:
+                        await aobv.athrow(ex)
                     return
 
                 disposable = subscription
@@ -434,7 +435,10 @@ def catch(
 
             _obv = AsyncAnonymousObserver(aobv.asend, athrow, aobv.aclose)
             subscription = await source.subscribe_async(_obv)
-            if not is_caught:
+            if is_caught:
+                # The source failed while we were still subscribing.
+                await subscription.dispose_async()
+            else:
                 disposable = subscription
 
             async def dispose() -> None:
-- 
2.43.0


From 469edf3c6493a14f06f77204d7e52bf740624ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 30/37] fix: a failing subscription leaves nothing behind

When one of several sources could not be subscribed to, or the subscribing was cancelled, the others stayed
subscribed for ever and kept on notifying the observer.
---
 aioreactive/combine.py   |  6 +++++-
 aioreactive/observers.py | 10 +++++++++-
 aioreactive/timeshift.py |  7 ++++++-
 aioreactive/transform.py | 15 +++++++++++++--
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index e1357be..9db397f 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -150,7 +150,11 @@ def merge_inner(
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
             async def subscribe() -> AsyncDisposable:
-                subscription = await source.subscribe_async(obv)
+                try:
+                    subscription = await source.subscribe_async(obv)
+                except BaseException:
+                    agent.post(Msg(dispose=True))
+                    raise
 
                 async def cancel() -> None:
                     await subscription.dispose_async()
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 9fe3154..b31b83a 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -268,7 +268,15 @@ def auto_detach_observer(
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
-        disposable = await async_disposable
+        nonlocal is_disposed
+        try:
+            disposable = await async_disposable
+        except BaseException:
+            # Nobody will be able to dispose what we already subscribed to.
+            is_disposed = True
+            await cancel()
+            raise
+
         if is_detached:
             # The observer completed while we were still subscribing.
             await disposable.dispose_async()
diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 004a511..bfee907 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -103,7 +103,12 @@ def delay(
             agent.post((ns, due_time))
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
-        subscription = await source.subscribe_async(obv)
+        try:
+            subscription = await source.subscribe_async(obv)
+        except BaseException:
+            cts.cancel()
+            raise
+
         if is_stopped:
             # The observer failed while we were still subscribing.
             await subscription.dispose_async()
diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index acb9520..48742f4 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -341,7 +341,11 @@ def switch_latest(
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
         async def subscribe() -> AsyncDisposable:
-            subscription = await source.subscribe_async(_obv)
+            try:
+                subscription = await source.subscribe_async(_obv)
+            except BaseException:
+                inner_agent.post(Msg(dispose=True))
+                raise
 
             async def cancel() -> None:
                 await subscription.dispose_async()
@@ -434,7 +438,14 @@ def catch(
                     await subscription.dispose_async()
 
             _obv = AsyncAnonymousObserver(aobv.asend, athrow, aobv.aclose)
-            subscription = await source.subscribe_async(_obv)
+            try:
+                subscription = await source.subscribe_async(_obv)
+            except BaseException:
+                # Nobody will be able to dispose what the handler gave us.
+                is_disposed = True
+                await disposable.dispose_async()
+                raise
+
             if is_caught:
                 # The source failed while we were still subscribing.
                 await subscription.dispose_async()
-- 
2.43.0


From 7931615e718bdc76b34cc6498c7ccd001bbc3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:44 +0000
Subject: [PATCH 31/37] fix: unsubscribing from a subject removes the very
 subscription

and not the first one of an equal observer, or of the same one subscribed before, which changed who was
notified or in which order.
---
 aioreactive/subject.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index f3ece7a..5e194cf 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -104,7 +104,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
     def __init__(self) -> None:
         super().__init__()
-        self._observers: list[AsyncObserver[_TSource]] = []
+        self._observers: dict[object, AsyncObserver[_TSource]] = {}
         self._is_disposed = False
         self._is_stopped = False
 
@@ -118,7 +118,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         if self._is_stopped:
             return
 
-        for obv in list(self._observers):
+        for obv in list(self._observers.values()):
             await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -128,7 +128,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
         self._is_stopped = True
 
-        for obv in list(self._observers):
+        for obv in list(self._observers.values()):
             await obv.athrow(error)
 
     async def aclose(self) -> None:
@@ -138,7 +138,7 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
         self._is_stopped = True
 
-        for obv in list(self._observers):
+        for obv in list(self._observers.values()):
             await obv.aclose()
 
     async def subscribe_async(
@@ -152,12 +152,12 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         self.check_disposed()
 
         observer = send if isinstance(send, AsyncObserver) else AsyncAnonymousObserver(send, throw, close)
-        self._observers.append(observer)
+        key = object()  # Observers may be equal or subscribed more than once
+        self._observers[key] = observer
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            self._observers.pop(key, None)
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From 8e03e3679a2dfe597765b20a8c20aca112cb0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:24 +0000
Subject: [PATCH 32/37] fix: distinct_until_changed reports an error from
 comparing values

instead of going silent for ever.
---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 0ada1bf..ace1fe6 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From d5c0510ded49958ca57dbc6ecb6adb280e0429a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:38 +0000
Subject: [PATCH 33/37] fix: do not convert every value to a string only to not
 log it

A value that cannot be converted failed the single-observer subject and the awaitable observer.
---
 aioreactive/observers.py | 2 +-
 aioreactive/subject.py   | 2 +-
 aioreactive/utils.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index b31b83a..f7188d0 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -323,7 +323,7 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
         self._has_value = False
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncAwaitableObserver:asend(%s)", str(value))
+        log.debug("AsyncAwaitableObserver:asend(%s)", value)
 
         if self._is_stopped:
             log.debug("AsyncAwaitableObserver:asend(), Closed!!")
diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 5e194cf..cb39569 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -46,7 +46,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         return self._observer
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncSingleStream:asend(%s)", str(value))
+        log.debug("AsyncSingleStream:asend(%s)", value)
 
         observer = await self._wait_for_observer()
         if not self._is_stopped:
diff --git a/aioreactive/utils.py b/aioreactive/utils.py
index d49fd67..ec285a4 100644
--- a/aioreactive/utils.py
+++ b/aioreactive/utils.py
@@ -19,7 +19,7 @@ async def anoop(value: Any | None = None) -> None:
 
 class NoopObserver(AsyncObserver[_TSource]):
     async def asend(self, value: _TSource) -> None:
-        log.debug("NoopSink:asend(%s)", str(value))
+        log.debug("NoopSink:asend(%s)", value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("NoopSink:athrow(%s)", error)
-- 
2.43.0


From 246d1c3f8a00466c2add1b1a8df80ae4eb24e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:40 +0000
Subject: [PATCH 34/37] fix: a subject does not notify an observer unsubscribed
 during the delivery

---
 aioreactive/subject.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index cb39569..24537f9 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -118,8 +118,9 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
         if self._is_stopped:
             return
 
-        for obv in list(self._observers.values()):
-            await obv.asend(value)
+        for key, obv in list(self._observers.items()):
+            if key in self._observers:
+                await obv.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         self.check_disposed()
@@ -128,8 +129,9 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
         self._is_stopped = True
 
-        for obv in list(self._observers.values()):
-            await obv.athrow(error)
+        for key, obv in list(self._observers.items()):
+            if key in self._observers:
+                await obv.athrow(error)
 
     async def aclose(self) -> None:
         self.check_disposed()
@@ -138,8 +140,9 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
             return
         self._is_stopped = True
 
-        for obv in list(self._observers.values()):
-            await obv.aclose()
+        for key, obv in list(self._observers.items()):
+            if key in self._observers:
+                await obv.aclose()
 
     async def subscribe_async(
         self,
-- 
2.43.0


From dcd7289e9bd78054f55e3390ba300cfdcf2c3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:40 +0000
Subject: [PATCH 35/37] fix: iterate sources that send while being subscribed,
 or are slow at it

---
 aioreactive/observers.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index f7188d0..ab2ecf8 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,6 @@
+import asyncio
 import logging
-from asyncio import Future, iscoroutinefunction, shield
+from asyncio import Future, Task, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -28,9 +29,11 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
         self._awaiters: list[Future[bool]] = []
         self._subscription: AsyncDisposable | None = None
+        self._subscribing: Task[None] | None = None
         self._source = source
         self._busy = False
         self._is_stopped = False
+        self._is_disposed = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
@@ -87,11 +90,24 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
 
         self._busy = True
 
+    async def _subscribe(self) -> None:
+        try:
+            subscription = await self._source.subscribe_async(self)
+        except Exception as ex:
+            await self.athrow(ex)
+            return
+
+        if self._is_disposed:
+            await subscription.dispose_async()
+        else:
+            self._subscription = subscription
+
     async def wait_for_push(self) -> _TSource:
-        if self._subscription is None:
-            if self._is_stopped:
-                raise StopAsyncIteration  # Disposed
-            self._subscription = await self._source.subscribe_async(self)
+        if self._is_disposed:
+            raise StopAsyncIteration
+        if self._subscribing is None and not self._is_stopped:
+            # The source may send, and thus wait for us, while we are still subscribing.
+            self._subscribing = asyncio.create_task(self._subscribe())
 
         # A consumer that is cancelled (e.g by a timeout) must not cancel the future of the producer.
         value = await shield(self._push)
@@ -100,6 +116,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         return value
 
     async def dispose_async(self) -> None:
+        self._is_disposed = True
         if self._subscription is not None:
             await self._subscription.dispose_async()
         self._subscription = None
-- 
2.43.0


From 1759c8a07321ce49d1fb373924c75ddeadaf0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:40 +0000
Subject: [PATCH 36/37] fix: debounce stops its timers when disposed or
 terminated

---
 aioreactive/timeshift.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index bfee907..e45b1f1 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -10,7 +10,6 @@ from expression.core import (
     MailboxProcessor,
     TailCall,
     TailCallResult,
-    aiotools,
     fst,
     pipe,
     tailrec_async,
@@ -162,6 +161,7 @@ def debounce(
             agent = MailboxProcessor.start(worker)
 
             indexer = iter(infinite)
+            timers: set[asyncio.Task[None]] = set()
 
             async def obv(n: Notification[_TSource]) -> None:
                 index = next(indexer)
@@ -172,10 +172,26 @@ def debounce(
                     await asyncio.sleep(seconds)
                     agent.post((n, index))
 
-                aiotools.start(worker())
+                timer = asyncio.create_task(worker())
+                timers.add(timer)
+                timer.add_done_callback(timers.discard)
 
             obv_: AsyncObserver[_TSource] = AsyncNotificationObserver(obv)
-            dispose = await pipe(obv_, source.subscribe_async, auto_detach)
+
+            async def stop() -> None:
+                for timer in list(timers):
+                    timer.cancel()
+
+            async def subscribe() -> AsyncDisposable:
+                try:
+                    subscription = await source.subscribe_async(obv_)
+                except BaseException:
+                    await stop()
+                    raise
+                return AsyncDisposable.composite(subscription, AsyncDisposable.create(stop))
+
+            # Any termination must stop the timers as well.
+            dispose = await auto_detach(subscribe())
 
             async def cancel() -> None:
                 await dispose.dispose_async()
-- 
2.43.0


From a5013bd9d1e1a94ca48d180716d1824241c770e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:40 +0000
Subject: [PATCH 37/37] fix: from_iterable lets others run between the items

---
 aioreactive/create.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ed7c0ab..7db6dfb 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -197,6 +197,8 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
                 token.throw_if_cancellation_requested()
                 log.debug("of_seq:asend(%s)", x)
                 await obv.asend(x)
+                # The iterable might be infinite so others, e.g. a take(), must get the chance to run.
+                await asyncio.sleep(0)
         except Exception as ex:
             await obv.athrow(ex)
 
-- 
2.43.0

