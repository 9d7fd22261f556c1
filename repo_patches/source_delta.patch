From 65a91ee97163f18dbb6d6ec7f1aa5a205b767907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 01/71] fix: DummySemaphore freed its name buffer twice (base
 __dealloc__ already frees it)

---
 a_sync/primitives/locks/semaphore.pyx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ea6f43d..36bf150 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -354,11 +354,6 @@ cdef class DummySemaphore(Semaphore):
         # Copy the bytes data into the char*
         strcpy(self._name, encoded_name)
 
-    def __dealloc__(self):
-        # Free the memory allocated for _name
-        if self._name is not NULL:
-            free(self._name)
-
     def __repr__(self) -> str:
         return "<{} name={}>".format(self.__class__.__name__, self.decode_name())
 
-- 
2.43.0


From 1a2e21e32b5d1b9b766d83d7e7d28f3c293aaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 02/71] fix: Semaphore took a permit when acquire() was called,
 not when it was awaited

An acquire that was cancelled before it started leaked a permit, and one that
started after the last release waited forever.
---
 a_sync/primitives/locks/semaphore.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 36bf150..6aaf8f2 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -15,10 +15,6 @@ from a_sync._typing import *
 from a_sync.primitives._debug cimport _DebugDaemonMixin
 
 
-async def __acquire() -> Literal[True]:
-    return True
-
-
 cdef class Semaphore(_DebugDaemonMixin):
     """
     A semaphore with additional debugging capabilities inherited from :class:`_DebugDaemonMixin`.
@@ -196,16 +192,18 @@ cdef class Semaphore(_DebugDaemonMixin):
         Returns:
             True when the semaphore is successfully acquired.
         """
+        return self.__acquire()
+
+    async def __acquire(self) -> Literal[True]:
+        # The permit is taken here and not in `c_acquire`, so a coroutine that
+        # never starts takes none and one that starts late sees the current state.
         if self._Semaphore__value <= 0:
             self._c_ensure_debug_daemon((),{})
 
         if not self.c_locked():
             self._Semaphore__value -= 1
-            return __acquire()
-
-        return self.__acquire()
+            return True
 
-    async def __acquire(self) -> Literal[True]:
         # Finally block should be called before the CancelledError
         # handling as we don't want CancelledError to call
         # _wake_up_first() and attempt to wake up itself.
-- 
2.43.0


From 254f6778bd5c49cb49d1c0acbf68d736ececbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 03/71] fix: ThreadsafeSemaphore.acquire/release/semaphore
 ignored the per-thread semaphores

---
 a_sync/primitives/locks/semaphore.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 6aaf8f2..ca64270 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -432,10 +432,23 @@ cdef class ThreadsafeSemaphore(Semaphore):
                 async with semaphore.semaphore:
                     return 1
         """
+        return self.c_get_semaphore()
     
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
 
+    cdef bint c_locked(self):
+        return self.c_get_semaphore().c_locked()
+
+    cdef object c_acquire(self):
+        return self.c_get_semaphore().c_acquire()
+
+    cpdef void release(self):
+        self.c_get_semaphore().c_release()
+
+    cdef void c_release(self):
+        self.c_get_semaphore().c_release()
+
     async def __aenter__(self):
         await self.c_get_semaphore().c_acquire()
 
-- 
2.43.0


From 5f0a9b3c7097e8441d38b65b41f97b8aa59e6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 04/71] fix: Event.wait() left a stale waiter behind when its
 coroutine never started

---
 a_sync/primitives/locks/event.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 4179b69..482e2fb 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -147,15 +147,18 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
         self._c_ensure_debug_daemon((),{})
 
-        cdef object fut = self._c_get_loop().create_future()
-        self._waiters.append(fut)
-        return self.__wait(fut)
+        return self.__wait()
 
     @property
     def _name(self) -> str:
         return self.__name.decode("utf-8")
     
-    async def __wait(self, fut: asyncio.Future) -> Literal[True]:
+    async def __wait(self) -> Literal[True]:
+        # Registered here and not in `c_wait` so a wait that never starts leaves nothing behind.
+        if self._value:
+            return True
+        cdef object fut = self._c_get_loop().create_future()
+        self._waiters.append(fut)
         try:
             await fut
             return True
-- 
2.43.0


From ffd8a99e26c48f346171a055cea26039f30b2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 05/71] fix: Event() bound itself to (or demanded) a loop at
 construction on python >= 3.10

---
 a_sync/primitives/locks/event.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 482e2fb..2807fef 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -52,7 +52,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
             super().__init__(loop=loop)
 
         # backwards compatability
-        if hasattr(self, "_loop"):
+        if sys.version_info < (3, 10) and hasattr(self, "_loop"):
             self._loop = self._loop or asyncio.get_event_loop()
         if debug_daemon_interval > 65535:
             raise ValueError(f"'debug_daemon_interval' is stored as a uint16 and must be less than 65535")
-- 
2.43.0


From da4aab025362c61a550c12d4225b5dfd7526e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 06/71] fix: PrioritySemaphore served priority 0 as priority -1

---
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 6a70681..00f35c1 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -500,7 +500,7 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
             >>> semaphore = _AbstractPrioritySemaphore(5)
             >>> context_manager = semaphore[priority]
         """
-        return self.c_getitem(priority or -1)
+        return self.c_getitem(-1 if priority is None else priority)
     
     cdef object c_getitem(self, object priority):
         if self._Semaphore__value is None:
-- 
2.43.0


From fa3b6d4c214275d84ffd92b9ec270a8a9426e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 07/71] fix: PrioritySemaphore.locked() raised AttributeError
 while permits were free

---
 a_sync/primitives/locks/prio_semaphore.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 00f35c1..d40c166 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -168,10 +168,12 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         cdef dict[object, _AbstractPrioritySemaphoreContextManager] cms = self._context_managers
         if not cms:
             return False
-        return any(
-            cm._Semaphore__waiters and any(not w.cancelled() for w in cm._Semaphore__waiters)
-            for cm in cms.values()
-        )
+        # NOTE: `cm` would be untyped in a generator expression and its C attributes out of reach
+        for cm in cms.values():
+            for w in cm._Semaphore__waiters or ():
+                if not w.cancelled():
+                    return True
+        return False
 
     cdef dict[object, Py_ssize_t] _count_waiters(self):
         """Counts the number of waiters for each priority.
-- 
2.43.0


From b4c78fdb9c2e8aa25abafe39ddbd11dc7396e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 08/71] fix: PrioritySemaphore handed no permit to the waiter
 it woke

A newcomer could take the permit first, whatever its priority, and the woken
waiter was queued again behind later ones, possibly on a manager the parent had
already forgotten. The permit is now handed over as in Semaphore.
---
 a_sync/primitives/locks/prio_semaphore.pyx | 38 +++++++++++++---------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index d40c166..d5f7e35 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -236,6 +236,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
                 waiter = manager._Semaphore__waiters.popleft()
                 self._potential_lost_waiters.remove(waiter)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     woke_up = True
                     if debug_logs:
@@ -263,6 +264,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             while self._potential_lost_waiters:
                 waiter = self._potential_lost_waiters.pop(0)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     return
             return
@@ -271,6 +273,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             waiter = self._potential_lost_waiters.pop(0)
             c_logger._log(DEBUG, "we found a lost waiter %s", (waiter, ))
             if not waiter.done():
+                self._Semaphore__value -= 1
                 waiter.set_result(None)
                 c_logger._log(DEBUG, "woke up lost waiter %s", (waiter, ))
                 return
@@ -370,22 +373,25 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
         return self.__acquire()
     
     async def __acquire(self) -> Literal[True]:
-        cdef object loop, fut
-        while self._parent._Semaphore__value <= 0:
-            if self._Semaphore__waiters is None:
-                self._Semaphore__waiters = deque()
-            fut = self._c_get_loop().create_future()
-            self._Semaphore__waiters.append(fut)
-            self._parent._potential_lost_waiters.append(fut)
-            try:
-                await fut
-            except:
-                # See the similar code in Queue.get.
-                fut.cancel()
-                if self._parent._Semaphore__value > 0 and not fut.cancelled():
-                    self._parent._wake_up_next()
-                raise
-        self._parent._Semaphore__value -= 1
+        cdef _AbstractPrioritySemaphoreContextManager manager
+        cdef object fut
+        if not self._parent.c_locked():
+            self._parent._Semaphore__value -= 1
+            return True
+        # The parent forgets a manager once it has no more waiters, so we may not be the current one anymore.
+        manager = self._parent.c_getitem(self._priority)
+        fut = self._c_get_loop().create_future()
+        manager._Semaphore__waiters.append(fut)
+        self._parent._potential_lost_waiters.append(fut)
+        try:
+            # Whoever wakes us up has already taken the permit on our behalf.
+            await fut
+        except:
+            if not fut.cancel() and not fut.cancelled():
+                # We got the permit but can't use it.
+                self._parent._Semaphore__value += 1
+                self._parent._wake_up_next()
+            raise
         return True
 
     cpdef void release(self):
-- 
2.43.0


From a635e6dbdc94ee8cf4389235b5539cdc5f347b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 09/71] fix: the stuck-event debug daemon died at start,
 CythonEvent had no weak reference support

---
 a_sync/primitives/locks/event.pxd | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a_sync/primitives/locks/event.pxd b/a_sync/primitives/locks/event.pxd
index 5b80715..ea78bac 100644
--- a/a_sync/primitives/locks/event.pxd
+++ b/a_sync/primitives/locks/event.pxd
@@ -11,6 +11,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
     diagnosing and debugging potential deadlocks.
     """
 
+    cdef object __weakref__
     cdef bint _value
     cdef list _waiters
     cdef char* __name
-- 
2.43.0


From 1a5fd49d16b384cd841114b288210748f4c53166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 10/71] fix: debug daemons kept their lock alive

---
 a_sync/primitives/_debug.pxd          |  1 +
 a_sync/primitives/_debug.pyx          | 17 ++++++++++++++++-
 a_sync/primitives/locks/counter.pyx   |  7 +++++--
 a_sync/primitives/locks/event.pxd     |  1 -
 a_sync/primitives/locks/semaphore.pyx |  7 ++++++-
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/a_sync/primitives/_debug.pxd b/a_sync/primitives/_debug.pxd
index c947002..70fac02 100644
--- a/a_sync/primitives/_debug.pxd
+++ b/a_sync/primitives/_debug.pxd
@@ -6,6 +6,7 @@ cdef class _LoopBoundMixin(_LoggerMixin):
     cdef object _c_get_loop(self)
 
 cdef class _DebugDaemonMixin(_LoopBoundMixin):
+    cdef object __weakref__
     cdef object _daemon
     cdef object _c_ensure_debug_daemon(self, tuple[object] args, dict[str, object] kwargs)
     cdef object _c_start_debug_daemon(self, tuple[object] args, dict[str, object] kwargs)
diff --git a/a_sync/primitives/_debug.pyx b/a_sync/primitives/_debug.pyx
index 71213f5..b8a9cae 100644
--- a/a_sync/primitives/_debug.pyx
+++ b/a_sync/primitives/_debug.pyx
@@ -6,6 +6,7 @@ The mixin provides a framework for managing a debug daemon task, which can be us
 
 import asyncio
 import os
+import weakref
 from asyncio.events import _running_loop
 from threading import Lock
 from typing import Optional
@@ -65,6 +66,19 @@ cdef class _LoopBoundMixin(_LoggerMixin):
         return loop
 
 
+cdef class _DaemonStopper:
+    """Done callback of a debug daemon, holds the debugged object weakly."""
+    cdef object weakself
+
+    def __cinit__(self, object weakself):
+        self.weakself = weakself
+
+    def __call__(self, t: asyncio.Task) -> None:
+        cdef object debugged = self.weakself()
+        if debugged is not None:
+            debugged._stop_debug_daemon(t)
+
+
 cdef class _DebugDaemonMixin(_LoopBoundMixin):
     """
     A mixin class that provides a framework for debugging capabilities using a daemon task.
@@ -163,7 +177,8 @@ cdef class _DebugDaemonMixin(_LoopBoundMixin):
         if daemon is None:
             if self.check_debug_logs_enabled():
                 self._daemon = self._c_start_debug_daemon(args, kwargs)
-                self._daemon.add_done_callback(self._stop_debug_daemon)
+                # the daemon must not keep us alive
+                self._daemon.add_done_callback(_DaemonStopper(weakref.ref(self)))
             else:
                 self._daemon = self._c_get_loop().create_future()
         return self._daemon
diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index 9032c46..eadb131 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -6,6 +6,7 @@ These primitives manage synchronization of tasks that must wait for an internal
 
 import asyncio
 import heapq
+import weakref
 from libc.string cimport strcpy
 from libc.stdlib cimport malloc, free
 from libc.time cimport time
@@ -201,12 +202,14 @@ cdef class CounterLock(_DebugDaemonMixin):
         This method is used internally to provide debugging information when debug logging is enabled.
         """
         cdef time_t start, now 
+        cdef object weakself = weakref.ref(self)
         start = time(NULL)
-        while self._events:
+        while (self := weakself()) and self._events:
             now = time(NULL)
             self.get_logger().debug(
-                "%s is still locked after %sm", self, round(now - start / 60, 2)
+                "%s is still locked after %sm", self, round((now - start) / 60, 2)
             )
+            del self  # no need to hold a reference here
             await asyncio.sleep(300)
 
 
diff --git a/a_sync/primitives/locks/event.pxd b/a_sync/primitives/locks/event.pxd
index ea78bac..5b80715 100644
--- a/a_sync/primitives/locks/event.pxd
+++ b/a_sync/primitives/locks/event.pxd
@@ -11,7 +11,6 @@ cdef class CythonEvent(_DebugDaemonMixin):
     diagnosing and debugging potential deadlocks.
     """
 
-    cdef object __weakref__
     cdef bint _value
     cdef list _waiters
     cdef char* __name
diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ca64270..1fc9f29 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -5,6 +5,7 @@ a dummy semaphore that does nothing, and a threadsafe semaphore for use in multi
 
 import asyncio
 import functools
+import weakref
 from collections import defaultdict, deque
 from libc.string cimport strcpy
 from libc.stdlib cimport malloc, free
@@ -301,8 +302,12 @@ cdef class Semaphore(_DebugDaemonMixin):
             async def monitor():
                 await semaphore._debug_daemon()
         """
-        while self._Semaphore__waiters:
+        cdef object weakself = weakref.ref(self)
+        while (self := weakself()) is not None and self._Semaphore__waiters:
+            del self  # no need to hold a reference here
             await asyncio.sleep(60)
+            if (self := weakself()) is None:
+                return
             self.get_logger().debug(
                 "%s has %s waiters for any of: %s",
                 self,
-- 
2.43.0


From 1f1eb4279985def9a9f1f36e94ec55d560692584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 11/71] fix: repr() of a CounterLock with waiters raised
 AttributeError

---
 a_sync/primitives/locks/counter.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index eadb131..3c6c28f 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -83,7 +83,7 @@ cdef class CounterLock(_DebugDaemonMixin):
             >>> repr(counter)
             '<CounterLock name=example_counter value=0 waiters={}>'
         """
-        cdef dict[long long, Py_ssize_t] waiters = {v: len(self._events[v]._waiters) for v in sorted(self._events)}
+        cdef dict[long long, Py_ssize_t] waiters = {v: len((<Event>self._events[v])._waiters) for v in sorted(self._events)}
         return "<CounterLock name={} value={} waiters={}>".format(self.__name.decode("utf-8"), self._value, waiters)
 
     cpdef bint is_ready(self, long long v):
-- 
2.43.0


From 80cedcfd3980277fea2ec8737d2b039c5537fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 12/71] fix: Queue.get_multi dropped items it had already
 taken, and a failed bulk read reordered the queue

---
 a_sync/primitives/queue.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 33398b9..90eaf31 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -199,11 +199,18 @@ class Queue(_Queue[T]):
         """
         _validate_args(i, can_return_less)
         items = []
-        while len(items) < i and not can_return_less:
-            try:
-                items.extend(self.get_multi_nowait(i - len(items), can_return_less=True))
-            except asyncio.QueueEmpty:
-                items = [await self.get()]
+        try:
+            while len(items) < i:
+                try:
+                    items.append(self.get_nowait())
+                except asyncio.QueueEmpty:
+                    if items and can_return_less:
+                        return items
+                    items.append(await self.get())
+        except BaseException:
+            # put these back in the queue since we won't return them
+            self._put_back(items)
+            raise
         return items
 
     def get_multi_nowait(self, i: int, can_return_less: bool = False) -> List[T]:
@@ -230,11 +237,23 @@ class Queue(_Queue[T]):
                 if items and can_return_less:
                     return items
                 # put these back in the queue since we didn't return them
-                for value in items:
-                    self.put_nowait(value)
+                self._put_back(items)
                 raise asyncio.QueueEmpty from None
         return items
 
+    def _put_back(self, items: List[T]) -> None:
+        """
+        Returns items that were taken but not delivered to the front of the queue.
+
+        The items are still unfinished, so the count of unfinished tasks does not change.
+
+        Args:
+            items: The items to put back, in the order they were taken.
+        """
+        self._queue.extendleft(reversed(items))
+        for _ in items:
+            self._wakeup_next(self._getters)
+
 
 class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
     """
-- 
2.43.0


From 797c3e2dde277414931d9c3b862c58cf8bf294f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 13/71] fix: ProcessingQueue.put and SmartProcessingQueue.put
 enqueued a doubly wrapped item and returned a future nobody resolves

---
 a_sync/primitives/queue.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 90eaf31..9a785a3 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -414,12 +414,8 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        if self._no_futs:
-            return await super().put((args, kwargs))
-        fut = self._create_future()
-        await super().put((args, kwargs, fut))
-        return fut
+        # the queue is unbounded so there is never anything to wait for
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -833,14 +829,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
-            return fut
-        fut = self._create_future(key)
-        self._futs[key] = fut
-        await Queue.put(self, (_SmartFutureRef(fut), args, kwargs))
-        return fut
+        # the queue is unbounded so there is never anything to wait for
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
-- 
2.43.0


From eaa1c38ae628d303a7231d7ebdf3a12711069592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 14/71] fix: a dropped ProcessingQueue future broke the worker
 that served its item

---
 a_sync/primitives/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 9a785a3..c6c6d15 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -436,7 +436,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         if self._no_futs:
             return super().put_nowait((args, kwargs))
         fut = self._create_future()
-        super().put_nowait((args, kwargs, weakref.proxy(fut)))
+        super().put_nowait((args, kwargs, fut))
         return fut
 
     def _create_future(self) -> "asyncio.Future[V]":
-- 
2.43.0


From a27d7529337a21f75e84f5a5188982c11b1f33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 15/71] fix: an item that was cancelled, or whose future was
 already done, could stop a ProcessingQueue worker

---
 a_sync/primitives/queue.py | 66 +++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index c6c6d15..89119f2 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -487,47 +487,53 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         kwargs: P.kwargs
         if self._no_futs:
             while True:
+                args, kwargs = await self.get()
                 try:
-                    args, kwargs = await self.get()
                     await self.func(*args, **kwargs)
+                except asyncio.CancelledError as e:
+                    if _worker_is_cancelled():
+                        raise
+                    logger.error("%s in worker for %s!", type(e).__name__, self)
                 except Exception as e:
                     logger.error("%s in worker for %s!", type(e).__name__, self)
                     logger.exception(e)
-                self.task_done()
+                finally:
+                    self.task_done()
         else:
             fut: asyncio.Future[V]
             while True:
+                args, kwargs, fut = await self.get()
                 try:
-                    args, kwargs, fut = await self.get()
-                    try:
-                        if fut is None:
-                            # the weakref was already cleaned up, we don't need to process this item
-                            self.task_done()
-                            continue
-                        result = await self.func(*args, **kwargs)
+                    if fut is None:
+                        # the weakref was already cleaned up, we don't need to process this item
+                        continue
+                    result = await self.func(*args, **kwargs)
+                except asyncio.CancelledError:
+                    fut.cancel()
+                    if _worker_is_cancelled():
+                        raise
+                except Exception as e:
+                    if fut.done():
+                        logger.error("cannot set exception for %s %s: %s", self.func, fut, e)
+                    else:
+                        fut.set_exception(e)
+                else:
+                    if fut.done():
+                        logger.error("cannot set result for %s %s: %s", self.func, fut, result)
+                    else:
                         fut.set_result(result)
-                    except asyncio.exceptions.InvalidStateError:
-                        logger.error(
-                            "cannot set result for %s %s: %s",
-                            self.func.__name__,
-                            fut,
-                            result,
-                        )
-                    except Exception as e:
-                        try:
-                            fut.set_exception(e)
-                        except asyncio.exceptions.InvalidStateError:
-                            logger.error(
-                                "cannot set exception for %s %s: %s",
-                                self.func.__name__,
-                                fut,
-                                e,
-                            )
+                finally:
                     self.task_done()
-                except Exception as e:
-                    logger.error("%s for %s is broken!!!", type(self).__name__, self.func)
-                    logger.exception(e)
-                    raise
+
+
+def _worker_is_cancelled() -> bool:
+    """
+    Tells whether a :class:`~asyncio.CancelledError` seen by the current worker is meant for the worker itself,
+    rather than just being the outcome of the function the worker called.
+    """
+    if sys.version_info < (3, 11):
+        return True
+    return asyncio.current_task().cancelling() > 0
 
 
 def _validate_args(i: int, can_return_less: bool) -> None:
-- 
2.43.0


From a262d4be2ce6f6e5d569f89607a1309013f4cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 16/71] fix: PriorityProcessingQueue could not process any item

---
 a_sync/primitives/queue.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 89119f2..551a75f 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -16,6 +16,7 @@ See Also:
 import asyncio
 import functools
 import heapq
+import itertools
 import logging
 import sys
 import weakref
@@ -629,6 +630,9 @@ class _PriorityQueueMixin(Generic[T]):
         return heappop(self._queue)
 
 
+_counter = itertools.count()
+
+
 class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
     """
     A priority-based processing queue where tasks are processed based on priority.
@@ -664,10 +668,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> fut = await queue.put(priority=1, item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        fut = asyncio.get_event_loop().create_future()
-        await super().put(self, (priority, args, kwargs, fut))
-        return fut
+        # the queue is unbounded so there is never anything to wait for
+        return self.put_nowait(priority, *args, **kwargs)
 
     def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -686,8 +688,9 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
-        fut = self._create_future()
-        super().put_nowait(self, (priority, args, kwargs, fut))
+        fut = None if self._no_futs else self._create_future()
+        # the counter breaks ties between equal priorities so that items are never compared
+        _Queue.put_nowait(self, (priority, next(_counter), args, kwargs, fut))
         return fut
 
     def _get(self, heappop=heapq.heappop):
@@ -701,8 +704,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> task = queue._get()
             >>> print(task)
         """
-        priority, args, kwargs, fut = heappop(self._queue)
-        return args, kwargs, fut
+        priority, _, args, kwargs, fut = heappop(self._queue)
+        return (args, kwargs) if self._no_futs else (args, kwargs, fut)
 
 
 class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
-- 
2.43.0


From a1d3612f6c2d23633e301f5e609abad2b770c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 17/71] fix: a SmartProcessingQueue request could join an equal
 request that had already finished or been cancelled

---
 a_sync/_smart.py           | 4 +++-
 a_sync/primitives/queue.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 80aa21a..31919c9 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -142,7 +142,9 @@ class _SmartFutureMixin(Generic[T]):
         """
         self._waiters.clear()
         if queue := self._queue:
-            queue._futs.pop(self._key)
+            # an equal request may already have replaced this one
+            if queue._futs.get(self._key) is self:
+                queue._futs.pop(self._key)
 
 
 class SmartFuture(_SmartFutureMixin[T], asyncio.Future):
diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 551a75f..20ce265 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -858,7 +858,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         """
         self._ensure_workers()
         key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
+        fut = self._futs.get(key, None)
+        if fut is not None and not fut.done():
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
-- 
2.43.0


From d9bddc195ba289ab80a26e0efdba0b641a30f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:45 +0000
Subject: [PATCH 18/71] fix: modifiers were applied twice to coroutine methods
 and hidden property methods, and never to sync-def properties

A class-level or shared Semaphore(1) deadlocked a coroutine method (or `__prop__()`) on itself.
---
 a_sync/a_sync/_descriptor.py | 17 +++++++++++++++--
 a_sync/a_sync/method.pyx     | 16 ++++++++--------
 a_sync/a_sync/property.pyx   |  9 +++++----
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index 8c83812..6ae03b8 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -17,6 +17,7 @@ import functools
 
 from a_sync._typing import *
 from a_sync.a_sync import decorator
+from a_sync.a_sync.config import null_modifiers
 from a_sync.a_sync.function import (
     ASyncFunction,
     ModifierManager,
@@ -60,7 +61,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
     __wrapped__: AnyFn[Concatenate[I, P], T]
     """The wrapped function or method."""
 
-    __slots__ = "field_name", "_fget"
+    __slots__ = "field_name", "_fget", "_bound_modifiers"
 
     def __init__(
         self,
@@ -81,7 +82,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
         """
         if not callable(_fget):
             raise ValueError(f"Unable to decorate {_fget}")
-        self.modifiers = ModifierManager(modifiers)
+        self.modifiers = self._bound_modifiers = ModifierManager(modifiers)
         if isinstance(_fget, ASyncFunction):
             self.modifiers.update(_fget.modifiers)
             self.__wrapped__ = _fget
@@ -90,6 +91,8 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             self.__wrapped__: AsyncUnboundMethod[I, P, T] = self.modifiers.apply_async_modifiers(
                 _fget
             )
+            # the async modifiers are applied already, bound methods must not apply them again
+            self._bound_modifiers = self._get_applied_modifiers()
         else:
             _validate_wrapped_fn(_fget)
             self.__wrapped__ = _fget
@@ -112,6 +115,16 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
         """
         self.field_name = name
 
+    def _get_applied_modifiers(self) -> ModifierManager:
+        """The modifiers for an object that wraps a function the async modifiers were already applied to."""
+        modifiers = dict(null_modifiers)
+        for key in ("default", "executor"):
+            if key in self.modifiers:
+                modifiers[key] = self.modifiers[key]
+            else:
+                del modifiers[key]
+        return ModifierManager(modifiers)
+
     def map(
         self, *instances: AnyIterable[I], **bound_method_kwargs: P.kwargs
     ) -> "TaskMapping[I, T]":
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 1e3afe6..d5ba28d 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -132,11 +132,11 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
 
             if self.default == "sync":
                 bound = ASyncBoundMethodSyncDefault(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             elif self.default == "async":
                 bound = ASyncBoundMethodAsyncDefault(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             elif isinstance(instance, ASyncABC):
                 try:
@@ -145,25 +145,25 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                             instance,
                             self.__wrapped__,
                             self.__is_async_def__,
-                            **self.modifiers,
+                            **self._bound_modifiers,
                         )
                     else:
                         bound = ASyncBoundMethodAsyncDefault(
                             instance,
                             self.__wrapped__,
                             self.__is_async_def__,
-                            **self.modifiers,
+                            **self._bound_modifiers,
                         )
                 except AttributeError:
                     bound = ASyncBoundMethod(
                         instance,
                         self.__wrapped__,
                         self.__is_async_def__,
-                        **self.modifiers,
+                        **self._bound_modifiers,
                     )
             else:
                 bound = ASyncBoundMethod(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -319,7 +319,7 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[self.field_name]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -404,7 +404,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[self.field_name]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4df298f..0cb6e39 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await
+from a_sync.a_sync._helpers cimport _await
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -80,7 +80,8 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         cdef dict hidden_modifiers
         super().__init__(_fget, field_name, **modifiers)
         self.hidden_method_name = f"__{self.field_name}__"
-        hidden_modifiers = dict(self.modifiers)
+        # `self.get` reaches `self._fget`, which applies the async modifiers
+        hidden_modifiers = dict(self._get_applied_modifiers())
         hidden_modifiers["default"] = "async"
         self.hidden_method_descriptor = HiddenMethodDescriptor(
             self.get, self.hidden_method_name, **hidden_modifiers
@@ -88,7 +89,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         if asyncio.iscoroutinefunction(_fget):
             self._fget = self.__wrapped__
         else:
-            self._fget = _asyncify(self.__wrapped__, self.modifiers.executor)
+            self._fget = self._asyncify(self.__wrapped__)
 
     @overload
     def __get__(self, instance: None, owner: Type[I]) -> Self: ...
@@ -748,7 +749,7 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.__wrapped__,
                 self.__is_async_def__,
                 self.field_name,
-                **self.modifiers,
+                **self._bound_modifiers,
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new hidden method: %s", bound)
-- 
2.43.0


From 08b4c93442d02acd160cdfe95388cc3b128f953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 19/71] fix: a keyword-only parameter with a flag's name was
 accepted when decorating

---
 a_sync/a_sync/function.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 3360db9..beaf44a 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -129,9 +129,9 @@ cdef void _validate_argspec_cached(fn: Callable):
         _argspec_validated.add(fid)
 
 cdef void _validate_argspec(fn: Callable):
-    fn_args = inspect.getfullargspec(fn)[0]
+    argspec = inspect.getfullargspec(fn)
     for flag in VIABLE_FLAGS:
-        if flag in fn_args:
+        if flag in argspec.args or flag in argspec.kwonlyargs:
             raise RuntimeError(
                 f"{fn} must not have any arguments with the following names: {VIABLE_FLAGS}"
             )
-- 
2.43.0


From fe6670469c6e3c193296c212923292d33e144913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 20/71] fix: a refused synchronous call left its coroutine
 un-awaited, and a user error with the same text was replaced

---
 a_sync/a_sync/_helpers.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/_helpers.pyx b/a_sync/a_sync/_helpers.pyx
index b02ccd5..3d5aff7 100644
--- a/a_sync/a_sync/_helpers.pyx
+++ b/a_sync/a_sync/_helpers.pyx
@@ -43,10 +43,15 @@ cdef object _await(object awaitable):
     See Also:
         - :func:`asyncio.run`: For running the main entry point of an asyncio program.
     """
+    cdef object loop = get_event_loop()
     try:
-        return get_event_loop().run_until_complete(awaitable)
+        return loop.run_until_complete(awaitable)
     except RuntimeError as e:
-        if str(e) == "This event loop is already running":
+        # if the loop is not running, the error was raised by the awaitable itself
+        if str(e) == "This event loop is already running" and loop.is_running():
+            if asyncio.iscoroutine(awaitable):
+                # it will never be awaited, don't leave it dangling
+                awaitable.close()
             raise exceptions.SyncModeInAsyncContextError from None
         raise
 
-- 
2.43.0


From ae0e66a9da0ae996b9a5f32ec5a8163c32f5f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 21/71] fix: ASyncIterator.__next__ left its coroutine
 un-awaited in a running loop, and replaced a user error with the same text

---
 a_sync/iter.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 94d9a09..9174ee9 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -354,12 +354,18 @@ class ASyncIterator(_AwaitableAsyncIterableMixin[T], Iterator[T]):
             SyncModeInAsyncContextError: If the event loop is already running.
 
         """
+        loop = get_event_loop()
+        anext = self.__anext__()
         try:
-            return get_event_loop().run_until_complete(self.__anext__())
+            return loop.run_until_complete(anext)
         except StopAsyncIteration as e:
             raise StopIteration from e
         except RuntimeError as e:
-            if str(e) == "This event loop is already running":
+            # if the loop is not running, the error was raised by the iterator itself
+            if str(e) == "This event loop is already running" and loop.is_running():
+                if asyncio.iscoroutine(anext):
+                    # it will never be awaited, don't leave it dangling
+                    anext.close()
                 raise SyncModeInAsyncContextError(
                     "The event loop is already running. Try iterating using `async for` instead of `for`."
                 ) from e
-- 
2.43.0


From 51cb3a86169a6ee2f098b16361ca975d231d084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 22/71] fix: a bound method awaited an awaitable its function
 had returned

---
 a_sync/a_sync/method.pyx | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index d5ba28d..71294a5 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -10,14 +10,12 @@ asynchronously based on various conditions and configurations.
 # mypy: disable-error-code=misc
 import functools
 import weakref
-from inspect import isawaitable
 from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
-from a_sync.a_sync._helpers cimport _await
 from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
@@ -449,6 +447,8 @@ cdef bint _should_await(object self, dict kwargs):
         return is_sync(flag, kwargs, pop_flag=True)  # type: ignore [arg-type]
     elif self.default:
         return self.default == "sync"
+    elif not self._async_def:
+        return True
     elif _is_a_sync_instance(self.__self__):
         self.__self__: "ASyncABC"
         return self.__self__.__a_sync_should_await__(kwargs)
@@ -594,24 +594,13 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
             >>> await bound_method(arg1, arg2, kwarg1=value1)
             >>> bound_method(arg1, arg2, kwarg1=value1, sync=True)
         """
-        cdef object retval, coro
+        cdef object retval
         cdef bint debug_logs
         if debug_logs := c_logger.isEnabledFor(DEBUG):
             c_logger._log(DEBUG, "calling %s with args: %s kwargs: %s", (self, args, kwargs))
-        # This could either be a coroutine or a return value from an awaited coroutine,
-        #   depending on if an overriding flag kwarg was passed into the function call.
-        retval = coro = ASyncFunction.__call__(self, self.__self__, *args, **kwargs)
-        if not isawaitable(retval):
-            # The coroutine was already awaited due to the use of an overriding flag kwarg.
-            # We can return the value.
-            pass
-        elif _should_await(self, kwargs):
-            # The awaitable was not awaited, so now we need to check the flag as defined on 'self' and await if appropriate.
-            if debug_logs:
-                c_logger._log(
-                    DEBUG, "awaiting %s for %s args: %s kwargs: %s", (coro, self, args, kwargs)
-                )
-            retval = _await(coro)
+        # The mode is decided before the call, so whatever the function returns is never mistaken for its coroutine.
+        cdef bint sync = _should_await(self, kwargs)
+        retval = ASyncFunction.__call__(self, self.__self__, *args, sync=sync, **kwargs)
         if debug_logs:
             c_logger._log(
                 DEBUG, "returning %s for %s args: %s kwargs: %s", (retval, self, args, kwargs)
-- 
2.43.0


From 0706c10624cb08eccf4c06031f8be8454635a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 23/71] fix: bound methods of
 ASyncMethodDescriptorSyncDefault/AsyncDefault did not know their declared
 default

---
 a_sync/a_sync/method.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 71294a5..667cb80 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -317,7 +317,10 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[self.field_name]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
+                instance,
+                self.__wrapped__,
+                self.__is_async_def__,
+                **{**self._bound_modifiers, "default": self.default},
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -402,7 +405,10 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[self.field_name]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
+                instance,
+                self.__wrapped__,
+                self.__is_async_def__,
+                **{**self._bound_modifiers, "default": self.default},
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
-- 
2.43.0


From 024e45febc2cc03d9f6929546925d27b03ea2cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 24/71] fix: an async def method on a class that is not an
 ASyncABC was run synchronously unless told otherwise

---
 a_sync/a_sync/method.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 667cb80..8255d06 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -458,7 +458,7 @@ cdef bint _should_await(object self, dict kwargs):
     elif _is_a_sync_instance(self.__self__):
         self.__self__: "ASyncABC"
         return self.__self__.__a_sync_should_await__(kwargs)
-    return self._is_async_def
+    return False
 
 
 class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
-- 
2.43.0


From 0f88ca183dfd8475428d522b645f052e9afd9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 25/71] fix: re-arming a bound method's cache timer broke the
 order of the event loop's timers

A timer scheduled behind it in the heap could be delayed for as long as the method was in use.
---
 a_sync/a_sync/method.pyx | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 8255d06..944805f 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -230,14 +230,13 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     """
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
+    loop = get_event_loop()
     if handle := bound._cache_handle:
-        # update the timer handle
-        handle._when = handle._loop.time() + _METHOD_CACHE_TTL
-    else:
-        # create and assign the timer handle
-        loop = get_event_loop()
-        # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
-        bound._cache_handle = loop.call_at(loop.time() + _METHOD_CACHE_TTL, instance.__dict__.pop, field_name)
+        # NOTE: we can't just update `handle._when`, the loop's timer heap would no longer be ordered
+        handle.cancel()
+    # create and assign the timer handle
+    # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
+    bound._cache_handle = loop.call_at(loop.time() + _METHOD_CACHE_TTL, instance.__dict__.pop, field_name, None)
 
 
 @final
-- 
2.43.0


From 03e4029dbd94e9f34a459f52084eed553593b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 26/71] fix: synchronous use of methods, properties and
 iterators failed in a thread without an event loop

---
 a_sync/a_sync/method.pyx   | 4 +---
 a_sync/a_sync/property.pyx | 5 +----
 a_sync/iter.pyx            | 5 +----
 3 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 944805f..edb91cc 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -16,6 +16,7 @@ from logging import DEBUG, getLogger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
+from a_sync.a_sync._helpers cimport get_event_loop
 from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
@@ -37,9 +38,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
     """
     A descriptor for managing methods that can be called both synchronously and asynchronously.
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 0cb6e39..cd4bfca 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -30,9 +30,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
     """Base class for creating asynchronous properties.
 
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 9174ee9..a1eaa73 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -11,7 +11,7 @@ from typing import _GenericAlias, get_args
 from async_property import async_cached_property
 
 from a_sync._typing import *
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
@@ -29,9 +29,6 @@ else:
 cdef tuple[str] _FORMAT_PATTERNS = ("{cls}", "{obj}")
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _AwaitableAsyncIterableMixin(AsyncIterable[T]):
     """
     A mixin class defining logic for making an AsyncIterable awaitable.
-- 
2.43.0


From 989c2229f152d643582badfb8e1b1addd1c9bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 27/71] fix: the property decorators accepted an unknown
 default mode

---
 a_sync/a_sync/property.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index cd4bfca..51da0e5 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -769,4 +769,8 @@ def _parse_args(
     if func in ["sync", "async"]:
         modifiers["default"] = func
         func = None
+    if modifiers.get("default") not in ["sync", "async", None]:
+        raise ValueError(
+            f"'default' must be either 'sync', 'async', or None. You passed {modifiers['default']}."
+        )
     return func, modifiers
-- 
2.43.0


From 16c833386c92a587207aecef0f9da1ad5227e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:16 +0000
Subject: [PATCH 28/71] fix: ASyncFuture.result() replaced its awaitable's
 RuntimeError, recursed forever in a running loop and failed in a thread
 without a loop

---
 a_sync/future.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 91af653..39d46a3 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -32,6 +32,7 @@ from inspect import isawaitable
 
 import a_sync.asyncio
 from a_sync._typing import *
+from a_sync.a_sync._helpers import get_event_loop
 
 
 def future(
@@ -126,12 +127,12 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
-    try:
-        return asyncio.get_event_loop().run_until_complete(meta)
-    except RuntimeError as e:
+    loop = get_event_loop()
+    if loop.is_running():
         raise RuntimeError(
-            f"{meta} result is not set and the event loop is running, you will need to await it first"
-        ) from e
+            f"{meta!r} result is not set and the event loop is running, you will need to await it first"
+        )
+    return loop.run_until_complete(meta)
 
 
 MetaNumeric = Union[Numeric, "ASyncFuture[int]", "ASyncFuture[float]", "ASyncFuture[Decimal]"]
-- 
2.43.0


From e839235393922b758a765189e5478b94dab289c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 29/71] fix: find a class-level mode flag on any ancestor, not
 only on the direct bases

---
 a_sync/a_sync/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 143dbf7..691109b 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -143,7 +143,7 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
         return _parse_flag_name_from_list(cls, cls.__dict__)  # type: ignore [arg-type]
         # idk why __dict__ doesn't type check as a dict
     except exceptions.NoFlagsFound:
-        for base in cls.__bases__:
+        for base in cls.__mro__[1:]:
             with suppress(exceptions.NoFlagsFound):
                 return _parse_flag_name_from_list(cls, base.__dict__)  # type: ignore [arg-type]
                 # idk why __dict__ doesn't type check as a dict
@@ -206,7 +206,7 @@ cdef str _parse_flag_name_from_list(object cls, object items):
 
 cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     cdef object spec
-    for spec in [cls, *cls.__bases__]:
+    for spec in cls.__mro__:
         if flag in spec.__dict__:
             return spec.__dict__[flag]
     raise exceptions.FlagNotDefined(cls, flag)
-- 
2.43.0


From a9e10120040304195c3a15ffd33089f3b6af01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 30/71] fix: constructing a singleton without a flag no longer
 fails under debug logging

---
 a_sync/a_sync/abstract.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index e4983b4..c427832 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -172,7 +172,8 @@ class ASyncABC(metaclass=ASyncMeta):
         if not flag:
             c_logger._log(
                 DEBUG,
-                "No valid flags found in kwargs, checking class definition for defined default"
+                "No valid flags found in kwargs, checking class definition for defined default",
+                (),
             )
             return cls.__a_sync_default_mode__()  # type: ignore [arg-type]
 
-- 
2.43.0


From a8e9e360abf24e7a60374e99aff38cecfc6b5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 31/71] fix: a singleton's mode flag given by position selects
 the instance of that mode

---
 a_sync/a_sync/base.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 691109b..7955039 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -90,6 +90,15 @@ class ASyncGenericBase(ASyncABC):
         )
         return sync
 
+    @classmethod
+    def __a_sync_instance_will_be_sync__(cls, tuple args, dict kwargs) -> bool:
+        if args:
+            # the flag might have been passed positionally
+            for name, value in zip(list(_get_init_signature(cls).parameters)[1:], args):
+                if name in VIABLE_FLAGS and name not in kwargs:
+                    kwargs = {**kwargs, name: value}
+        return ASyncABC.__a_sync_instance_will_be_sync__.__func__(cls, args, kwargs)
+
     def __init__(self):
         if type(self) is ASyncGenericBase:
             raise NotImplementedError(
-- 
2.43.0


From 4c099e395ea09e8e6e0ea2fe01742d46e270da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 32/71] fix: a required mode flag that was not given fails the
 same with and without debug logging

---
 a_sync/a_sync/base.pyx | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 7955039..a2794f8 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -160,21 +160,19 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
 
 
 cdef bint _a_sync_flag_default_value_from_signature(object cls):
-    cdef object signature = _get_init_signature(cls)
-    if not c_logger.isEnabledFor(DEBUG):
-        # we can optimize this much better
-        return signature.parameters[_get_a_sync_flag_name_from_signature(cls, False)].default
-    
-    c_logger._log(
-        DEBUG, "checking `__init__` signature for default %s a_sync flag value", (cls, )
-    )
-    cdef str flag = _get_a_sync_flag_name_from_signature(cls, True)
-    cdef object flag_value = signature.parameters[flag].default
+    cdef bint debug_logs = c_logger.isEnabledFor(DEBUG)
+    if debug_logs:
+        c_logger._log(
+            DEBUG, "checking `__init__` signature for default %s a_sync flag value", (cls, )
+        )
+    cdef str flag = _get_a_sync_flag_name_from_signature(cls, debug_logs)
+    cdef object flag_value = _get_init_signature(cls).parameters[flag].default
     if flag_value is inspect._empty:  # type: ignore [attr-defined]
         raise NotImplementedError(
             "The implementation for 'cls' uses an arg to specify sync mode, instead of a kwarg. We are unable to proceed. I suppose we can extend the code to accept positional arg flags if necessary"
         )
-    c_logger._log(DEBUG, "%s defines %s, default value %s", (cls, flag, flag_value))
+    if debug_logs:
+        c_logger._log(DEBUG, "%s defines %s, default value %s", (cls, flag, flag_value))
     return flag_value
 
 
-- 
2.43.0


From bd65ff036892803360b936f9de0fd57ef4c79cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 33/71] fix: an instance's mode follows a flag value that its
 class made a non-cached property, as documented

---
 a_sync/a_sync/abstract.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index c427832..3dca521 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -28,6 +28,11 @@ cdef struct ShouldAwaitCache:
     bint is_cached
     bint value
 
+cdef bint _flag_value_is_cached(object cls):
+    # a class can make its flag value a non-cached property to hotswap the mode of its instances
+    return not isinstance(getattr(cls, "__a_sync_flag_value__", None), property)
+
+
 class ASyncABC(metaclass=ASyncMeta):
     """Abstract Base Class for defining asynchronous and synchronous behavior.
 
@@ -106,7 +111,7 @@ class ASyncABC(metaclass=ASyncMeta):
             cache.value = validate_and_negate_if_necessary(
                 self.__a_sync_flag_name__, self.__a_sync_flag_value__
             )
-            cache.is_cached = True
+            cache.is_cached = _flag_value_is_cached(type(self))
             self.__a_sync_should_await_cache__ = cache
         return cache.value
 
@@ -138,7 +143,7 @@ class ASyncABC(metaclass=ASyncMeta):
             cache.value = validate_and_negate_if_necessary(
                 self.__a_sync_flag_name__, self.__a_sync_flag_value__
             )
-            cache.is_cached = True
+            cache.is_cached = _flag_value_is_cached(type(self))
             self.__a_sync_should_await_cache__ = cache
         return cache.value
 
-- 
2.43.0


From b530775a299963b0467a946305ee5921457d72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 34/71] fix: defer to super() when resolving a singleton's
 positional mode flag

---
 a_sync/a_sync/base.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index a2794f8..9bde332 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -97,7 +97,7 @@ class ASyncGenericBase(ASyncABC):
             for name, value in zip(list(_get_init_signature(cls).parameters)[1:], args):
                 if name in VIABLE_FLAGS and name not in kwargs:
                     kwargs = {**kwargs, name: value}
-        return ASyncABC.__a_sync_instance_will_be_sync__.__func__(cls, args, kwargs)
+        return super().__a_sync_instance_will_be_sync__(args, kwargs)
 
     def __init__(self):
         if type(self) is ASyncGenericBase:
-- 
2.43.0


From 11b3172a55939ebbc9e0bdb6df5b1b42472dec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 35/71] fix: super().method() of a dual-mode class recursed
 into the override, and a copied instance reused the original's bound methods

---
 a_sync/a_sync/method.pxd   |  4 +++-
 a_sync/a_sync/method.pyx   | 37 +++++++++++++++++++++++++++++++------
 a_sync/a_sync/property.pyx |  7 ++++---
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index be064bd..3137c55 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,2 +1,4 @@
 cdef bint _is_a_sync_instance(object instance)
-cdef void _update_cache_timer(str field_name, object instance, object bound)
\ No newline at end of file
+cdef void _update_cache_timer(str field_name, object instance, object bound)
+cdef bint _owns_field(object descriptor, object instance)
+cdef object _get_cached_bound(object descriptor, object instance)
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index edb91cc..b1adc64 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -122,7 +122,7 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         if instance is None:
             return self
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = _get_cached_bound(self, instance)
         except KeyError:
             from a_sync.a_sync.abstract import ASyncABC
 
@@ -161,7 +161,8 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                 bound = ASyncBoundMethod(
                     instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
-            instance.__dict__[self.field_name] = bound
+            if _owns_field(self, instance):
+                instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
         _update_cache_timer(self.field_name, instance, bound)
         return bound
@@ -218,6 +219,25 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         return asyncio.iscoroutinefunction(self.__wrapped__)
 
 
+cdef bint _owns_field(object descriptor, object instance):
+    # An overridden method is reached with `super()`. Then the name, and the cache entry, belong to the override.
+    return getattr(type(instance), descriptor.field_name, descriptor) is descriptor
+
+
+cdef object _get_cached_bound(object descriptor, object instance):
+    """
+    Get the method of `descriptor` that is already bound to `instance`.
+
+    Raises:
+        KeyError: If there is none.
+    """
+    cdef object bound = instance.__dict__[descriptor.field_name]
+    # NOTE: a copy of an instance also has a copy of its cache
+    if bound.__weakself__() is not instance or not _owns_field(descriptor, instance):
+        raise KeyError(descriptor.field_name)
+    return bound
+
+
 cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
     """
     Update the TTL for the cache handle for the instance.
@@ -226,6 +246,9 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
         instance: The instance to create a cache handle for.
         bound: The bound method we are caching.
     """
+    if instance.__dict__.get(field_name) is not bound:
+        # it is not cached
+        return
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
     loop = get_event_loop()
@@ -311,7 +334,7 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
         if instance is None:
             return self
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = _get_cached_bound(self, instance)
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
                 instance,
@@ -319,7 +342,8 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
                 self.__is_async_def__,
                 **{**self._bound_modifiers, "default": self.default},
             )
-            instance.__dict__[self.field_name] = bound
+            if _owns_field(self, instance):
+                instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
         _update_cache_timer(self.field_name, instance, bound)
         return bound
@@ -399,7 +423,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         cdef object bound
 
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = _get_cached_bound(self, instance)
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
                 instance,
@@ -407,7 +431,8 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
                 self.__is_async_def__,
                 **{**self._bound_modifiers, "default": self.default},
             )
-            instance.__dict__[self.field_name] = bound
+            if _owns_field(self, instance):
+                instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
         _update_cache_timer(self.field_name, instance, bound)
         return bound
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 51da0e5..62b78e0 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -18,7 +18,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _get_cached_bound, _is_a_sync_instance, _owns_field, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -739,7 +739,7 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
     
         cdef object bound
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = _get_cached_bound(self, instance)
         except KeyError:
             bound = HiddenMethod(
                 instance,
@@ -748,7 +748,8 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.field_name,
                 **self._bound_modifiers,
             )
-            instance.__dict__[self.field_name] = bound
+            if _owns_field(self, instance):
+                instance.__dict__[self.field_name] = bound
             c_logger.debug("new hidden method: %s", bound)
         _update_cache_timer(self.field_name, instance, bound)
         return bound
-- 
2.43.0


From 8ed5132b3321cf53ee42356ec214dbb5abf76e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 36/71] fix: super().name of an overridden cached property
 waited for the override forever

---
 a_sync/a_sync/property.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 62b78e0..6676154 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -421,6 +421,21 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def get_instance_state(self, instance: I) -> ap.cached.AsyncCachedPropertyInstanceState:
+        """Retrieves the state of the property for `instance`.
+
+        Args:
+            instance: The instance from which the property is accessed.
+
+        Returns:
+            The instance's cached values and the tasks that compute them.
+        """
+        state = super().get_instance_state(instance)
+        if _owns_field(self, instance):
+            return state
+        # An overridden property was reached with `super()`. Its value is not the override's.
+        return state.cache.setdefault(self, ap.cached.AsyncCachedPropertyInstanceState())
+
     def get_lock(self, instance: I) -> "asyncio.Task[T]":
         """Retrieves the lock for the property.
 
-- 
2.43.0


From e8ebed7727d5054592e4c7982ccc04cb81cce6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 37/71] fix: a cached property answered every later request
 with its first failure or cancellation

---
 a_sync/a_sync/property.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 6676154..4a8c104 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -447,7 +447,8 @@ class ASyncCachedPropertyDescriptor(
         """
         instance_state = self.get_instance_state(instance)
         task = instance_state.lock[self.field_name]
-        if isinstance(task, asyncio.Lock):
+        if isinstance(task, asyncio.Lock) or (task.done() and (task.cancelled() or task.exception())):
+            # a failed or cancelled task does not answer the next request
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
             instance_state.lock[self.field_name] = task
-- 
2.43.0


From 051d8b824b2872943ffbfdb81d2304ec225eedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 38/71] fix: a cached property computed again for each
 awaitable obtained before its value was loaded

---
 a_sync/a_sync/property.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4a8c104..2195012 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -474,14 +474,18 @@ class ASyncCachedPropertyDescriptor(
 
         @functools.wraps(self._fget)
         async def load_value():
+            if self.has_cache_value(instance):
+                # it was loaded after this awaitable was created
+                return self.get_cache_value(instance)
             inner_task = self.get_lock(instance)
             try:
                 value = await _smart.shield(inner_task)
             except Exception as e:
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            self.__set__(instance, value)
-            self.pop_lock(instance)
+            if not self.has_cache_value(instance):
+                self.__set__(instance, value)
+                self.pop_lock(instance)
             return value
 
         return load_value
-- 
2.43.0


From b6a892f6c6e66466b977d5087666b296b9dd8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 39/71] fix: a generator method's binding served copies of the
 instance and same-named generators, and recursed under super()

---
 a_sync/iter.pyx | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index a1eaa73..de101c5 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -469,7 +469,7 @@ class ASyncGeneratorFunction(Generic[P, T]):
         - :class:`ASyncIterable`
     """
 
-    _cache_handle: asyncio.TimerHandle
+    _cache_handle: asyncio.TimerHandle = None
     "An asyncio handle used to pop the bound method from `instance.__dict__` 5 minutes after its last use."
 
     __weakself__: "weakref.ref[object]" = None
@@ -493,7 +493,6 @@ class ASyncGeneratorFunction(Generic[P, T]):
         "The actual async generator function."
 
         if instance is not None:
-            self._cache_handle = self.__get_cache_handle(instance)
             self.__weakself__ = weakref.ref(instance, self.__cancel_cache_handle)
         functools.update_wrapper(self, self.__wrapped__)
 
@@ -517,20 +516,45 @@ class ASyncGeneratorFunction(Generic[P, T]):
         return ASyncIterator(self.__wrapped__(self.__self__, *args, **kwargs))
 
     def __get__(self, instance: V, owner: Type[V]) -> "ASyncGeneratorFunction[P, T]":
-        "Descriptor method to make the function act like a non-data descriptor."
+        "Descriptor method to make the function act like a descriptor."
         if instance is None:
             return self
 
-        cdef object gen_func
+        if getattr(type(instance), self.field_name, self) is not self:
+            # We were reached with `super()`. The name, and the cache entry, belong to the override.
+            return ASyncGeneratorFunction(self.__wrapped__, instance)
+
+        cdef object gen_func, weakself
         try:
             gen_func = instance.__dict__[self.field_name]
+            weakself = getattr(gen_func, "__weakself__", None)
+            if weakself is None:
+                # the attribute was set on the instance
+                return gen_func
+            if weakself() is not instance:
+                # `instance` is a copy of the instance that `gen_func` is bound to
+                raise KeyError(self.field_name)
         except KeyError:
             gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
             instance.__dict__[self.field_name] = gen_func
-        gen_func._cache_handle.cancel()
+        if gen_func._cache_handle is not None:
+            gen_func._cache_handle.cancel()
         gen_func._cache_handle = self.__get_cache_handle(instance)
         return gen_func
 
+    def __set__(self, instance: V, value: Any) -> None:
+        # NOTE: only a data descriptor gets to check what is cached
+        instance.__dict__[self.field_name] = value
+
+    def __delete__(self, instance: V) -> None:
+        try:
+            del instance.__dict__[self.field_name]
+        except KeyError:
+            raise AttributeError(self.field_name) from None
+
+    def __set_name__(self, owner: Type[V], name: str) -> None:
+        self.field_name = name
+
     @property
     def __self__(self) -> object:
         cdef object instance
@@ -549,7 +573,8 @@ class ASyncGeneratorFunction(Generic[P, T]):
         )
 
     def __cancel_cache_handle(self, instance: object) -> None:
-        self._cache_handle.cancel()
+        if self._cache_handle is not None:
+            self._cache_handle.cancel()
 
 
 class _ASyncView(ASyncIterator[T]):
-- 
2.43.0


From 49560e13cf6fc662b40b0d89bee07afb4bc29ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 40/71] fix: an integer limit given to a method was enforced
 per binding, not across its calls

---
 a_sync/a_sync/_descriptor.py        | 3 +++
 a_sync/a_sync/function.pyx          | 3 +++
 a_sync/a_sync/modifiers/__init__.py | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index 6ae03b8..bfc1dba 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -18,6 +18,7 @@ import functools
 from a_sync._typing import *
 from a_sync.a_sync import decorator
 from a_sync.a_sync.config import null_modifiers
+from a_sync.a_sync.modifiers import apply_class_defined_modifiers
 from a_sync.a_sync.function import (
     ASyncFunction,
     ModifierManager,
@@ -82,6 +83,8 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
         """
         if not callable(_fget):
             raise ValueError(f"Unable to decorate {_fget}")
+        # one limiter for all calls, also for those of the bound methods that will share our modifiers
+        apply_class_defined_modifiers(modifiers)
         self.modifiers = self._bound_modifiers = ModifierManager(modifiers)
         if isinstance(_fget, ASyncFunction):
             self.modifiers.update(_fget.modifiers)
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index beaf44a..8d948c9 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -11,6 +11,7 @@ from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._helpers cimport _asyncify, _await
 from a_sync.a_sync.flags import VIABLE_FLAGS
+from a_sync.a_sync.modifiers import apply_class_defined_modifiers
 from a_sync.a_sync.modifiers.manager import ModifierManager
 
 if TYPE_CHECKING:
@@ -247,6 +248,8 @@ class ASyncFunction(_ModifiedMixin, Generic[P, T]):
         """
         if not _skip_validate:
             _validate_wrapped_fn(fn)
+            # one limiter for all calls, also for those of the bound methods that will share our modifiers
+            apply_class_defined_modifiers(modifiers)
 
         self.modifiers = ModifierManager(modifiers)
         """A :class:`~ModifierManager` instance managing function modifiers."""
diff --git a/a_sync/a_sync/modifiers/__init__.py b/a_sync/a_sync/modifiers/__init__.py
index 284ebe4..334e199 100644
--- a/a_sync/a_sync/modifiers/__init__.py
+++ b/a_sync/a_sync/modifiers/__init__.py
@@ -95,5 +95,5 @@ def apply_class_defined_modifiers(attrs_from_metaclass: dict):
     """
     if isinstance(val := attrs_from_metaclass.get("semaphore"), int):
         attrs_from_metaclass["semaphore"] = ThreadsafeSemaphore(val)
-    if isinstance(val := attrs_from_metaclass.get("runs_per_minute"), int):
+    if (val := attrs_from_metaclass.get("runs_per_minute")) and isinstance(val, int):
         attrs_from_metaclass["runs_per_minute"] = AsyncLimiter(val)
-- 
2.43.0


From d8390a19224c1c322d0dc4d4bbd079072bfa2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 41/71] fix: a cancelled or finished persisted task no longer
 poisons or lingers in the registry

A cancelled persisted task made every later create_task() raise CancelledError,
and tasks which finished without an error were never released.
---
 a_sync/asyncio/create_task.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 129c0a5..4f69d83 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -134,7 +134,10 @@ cdef void __prune_persisted_tasks():
     cdef object task
     cdef dict context
     for task in tuple(__persisted_tasks):
-        if task.done() and (e := task.exception()):
+        if not task.done():
+            continue
+        __persisted_tasks.discard(task)
+        if not task.cancelled() and (e := task.exception()):
             # force exceptions related to this lib to bubble up
             if not isinstance(e, exceptions.PersistedTaskException):
                 c_logger.exception(e)
@@ -149,7 +152,6 @@ cdef void __prune_persisted_tasks():
             if task._source_traceback:
                 context["source_traceback"] = task._source_traceback
             task._loop.call_exception_handler(context)
-            __persisted_tasks.discard(task)
 
 
 async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
-- 
2.43.0


From 026072fd8c13e58101a8e483dde788a37530756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 42/71] fix: failures which are not Exception subclasses in
 persisted tasks are reported, not raised into the next create_task

---
 a_sync/asyncio/create_task.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 4f69d83..691591d 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -169,7 +169,9 @@ async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
     """
     try:
         return await task
-    except Exception as e:
+    except asyncio.CancelledError:
+        raise
+    except BaseException as e:
         raise exceptions.PersistedTaskException(e, task) from e
 
 
-- 
2.43.0


From f234296108982651f2808cf660226053bf99210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 43/71] fix: as_completed over a mapping truncates a fractional
 timeout and ignores a timeout of 0

---
 a_sync/asyncio/as_completed.pxd | 2 +-
 a_sync/asyncio/as_completed.pyx | 6 +++---
 a_sync/asyncio/gather.pyx       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7486941..7bb75af 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -1,6 +1,6 @@
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index d183b39..3438e44 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -117,7 +117,7 @@ def as_completed(
     if isinstance(fs, Mapping):
         return as_completed_mapping(
             mapping=fs,
-            timeout=timeout or 0,
+            timeout=timeout,
             return_exceptions=return_exceptions,
             aiter=aiter,
             tqdm=tqdm,
@@ -140,7 +140,7 @@ def as_completed(
 
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
@@ -177,7 +177,7 @@ cdef object as_completed_mapping(
             __mapping_wrap(k, v, return_exceptions=return_exceptions)
             for k, v in mapping.items()
         ],
-        timeout=timeout or None,
+        timeout=timeout,
         aiter=aiter,
         tqdm=tqdm,
         **tqdm_kwargs
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 9e523fb..95d50ab 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -188,7 +188,7 @@ async def gather_mapping(
         k: v
         async for k, v in as_completed_mapping(
             mapping=mapping,
-            timeout=0,
+            timeout=None,
             return_exceptions=return_exceptions,
             aiter=True,
             tqdm=tqdm,
-- 
2.43.0


From 5f1fd4aa17b06bfbb84c80372c34ae34a8cc700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 44/71] fix: gather over a mapping raises KeyError when
 exclude_if excludes a result

---
 a_sync/asyncio/gather.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 95d50ab..467c85b 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -197,7 +197,7 @@ async def gather_mapping(
         if exclude_if is None or not exclude_if(v)
     }
     # return data in same order as input mapping
-    return {k: results[k] for k in mapping}
+    return {k: results[k] for k in mapping if k in results}
 
 cdef inline bint _is_mapping(object awaitables):
     return len(awaitables) == 1 and isinstance(awaitables[0], Mapping)
-- 
2.43.0


From bf7ac6d65a4962f94205c91245aa8e11e18d3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 45/71] fix: concurrent awaits of one ASyncFuture raise
 InvalidStateError and a cancelled one gives None

---
 a_sync/future.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 39d46a3..5cc1fd9 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -354,8 +354,11 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
 
     async def __await(self) -> T:
         if not self.done():
-            self.set_result(await self.__task__)
-        return self._result
+            result = await self.__task__
+            # another coroutine may have set the result while we were waiting for it
+            if not self.done():
+                self.set_result(result)
+        return super().result()
 
     @property
     def __task__(self) -> "asyncio.Task[T]":
-- 
2.43.0


From 28939cdc3915a811b7cbfb7dd395a1922990488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 46/71] fix: a resolved ASyncFuture claims its result is not
 set when it is used in a running loop

---
 a_sync/future.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a_sync/future.py b/a_sync/future.py
index 5cc1fd9..2427806 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -127,6 +127,8 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
+    if meta.done():
+        return concurrent.futures.Future.result(meta)
     loop = get_event_loop()
     if loop.is_running():
         raise RuntimeError(
-- 
2.43.0


From 04623afaa5bfe94aac924bfbea469a55100abfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 47/71] fix: a method decorated with future, read from the
 class, is called with None as its self

---
 a_sync/future.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 2427806..99493f7 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -1374,7 +1374,7 @@ class _ASyncFutureWrappedFn(Callable[P, ASyncFuture[T]]):
     def __get__(
         self, instance: I, owner: Type[I]
     ) -> Union[Self, "_ASyncFutureInstanceMethod[I, P, T]"]:
-        return self if owner is None else _ASyncFutureInstanceMethod(self, instance)
+        return self if instance is None else _ASyncFutureInstanceMethod(self, instance)
 
 
 @final
-- 
2.43.0


From ac0431e29a0d358f45ff300379538fae92e2be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 48/71] fix: merging iterators swallows a CancelledError raised
 by one of them

---
 a_sync/utils/iterators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 44e4da5..f26eff5 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -84,7 +84,7 @@ async def exhaust_iterators(
         *[exhaust_iterator(iterator, queue=queue) for iterator in iterators],
         return_exceptions=True,
     ):
-        if isinstance(x, Exception):
+        if isinstance(x, BaseException):
             # raise it with its original traceback instead of from here
             raise x.with_traceback(x.__traceback__)
 
@@ -230,8 +230,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     def _as_yielded_done_callback(t: asyncio.Task) -> None:
         if t.cancelled():
-            return
-        if e := t.exception():
+            queue.put_nowait(_Done(asyncio.CancelledError()))
+        elif e := t.exception():
             traceback.extract_stack
             traceback.clear_frames(e.__traceback__)
             queue.put_nowait(_Done(e))
@@ -277,7 +277,7 @@ class _Done:
         exc (Optional[Exception]): An optional exception to be associated with the completion.
     """
 
-    def __init__(self, exc: Optional[Exception] = None) -> None:
+    def __init__(self, exc: Optional[BaseException] = None) -> None:
         self._exc = exc
 
     @property
-- 
2.43.0


From df92fcda740b030f92ca28b10342b75ad317b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 49/71] fix: as_yielded leaves its readers running when the
 consumer stops, fails or is cancelled

---
 a_sync/utils/iterators.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index f26eff5..ab7ae3a 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -243,27 +243,22 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not task.done():
-        try:
-            items = await queue.get_all()
-        except asyncio.CancelledError:
-            # cleanup lingering objects and reraise
-            del task
-            del queue
-            raise
-        for item in items:
-            queue.task_done()
-            if isinstance(item, _Done):
-                assert queue.empty()
-                del task
-                del queue
-                if item._exc:
-                    raise item._exc.with_traceback(item._tb) from item._exc.__cause__
-                return
-            yield item
-
-    # ensure it isn't done due to an internal exception
-    await task
+    try:
+        while not task.done():
+            for item in await queue.get_all():
+                queue.task_done()
+                if isinstance(item, _Done):
+                    assert queue.empty()
+                    if item._exc:
+                        raise item._exc.with_traceback(item._tb) from item._exc.__cause__
+                    return
+                yield item
+
+        # ensure it isn't done due to an internal exception
+        await task
+    finally:
+        # stop the readers if the consumer leaves before they are exhausted
+        task.cancel()
 
 
 class _Done:
-- 
2.43.0


From 934492bedb7666f17f26855551007e7f377bdf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 50/71] fix: iterating with for does not end when __anext__
 raises StopAsyncIteration itself

`async for` ends however `__anext__` raises StopAsyncIteration, when it is called or when its result is awaited. ASyncIterator.__next__ only converted the latter.
---
 a_sync/iter.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index de101c5..b8b2a1b 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -352,8 +352,9 @@ class ASyncIterator(_AwaitableAsyncIterableMixin[T], Iterator[T]):
 
         """
         loop = get_event_loop()
-        anext = self.__anext__()
+        anext = None
         try:
+            anext = self.__anext__()
             return loop.run_until_complete(anext)
         except StopAsyncIteration as e:
             raise StopIteration from e
-- 
2.43.0


From 71d7aebdcfea8747d6a1c691c320f797a1d5ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 51/71] fix: a sorted view with an async key over an async
 iterable yields nothing

The loop which yields the sorted items was part of the branch for sync iterables.
---
 a_sync/iter.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index b8b2a1b..a617e2a 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -780,11 +780,11 @@ class ASyncSorter(_ASyncView[T]):
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-                for sort_value, obj in sorted(
-                    zip(await asyncio.gather(*sort_tasks), items),
-                    reverse=reverse,
-                ):
-                    yield obj
+            for sort_value, obj in sorted(
+                zip(await asyncio.gather(*sort_tasks), items),
+                reverse=reverse,
+            ):
+                yield obj
         else:
             if self.__aiterator__:
                 items = [obj async for obj in self.__aiterator__]
-- 
2.43.0


From 20fe3436bdd5c44a471c48d5c849ad6b902ec8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 52/71] fix: a sorted view with an async key compares the items
 when their keys are equal

Sorting the (key, item) pairs is not stable and fails for items which cannot be compared.
---
 a_sync/iter.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index a617e2a..5548bd4 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -5,6 +5,7 @@ import logging
 import sys
 import weakref
 from copy import deepcopy
+from operator import itemgetter
 from types import FunctionType
 from typing import _GenericAlias, get_args
 
@@ -782,6 +783,7 @@ class ASyncSorter(_ASyncView[T]):
                     )
             for sort_value, obj in sorted(
                 zip(await asyncio.gather(*sort_tasks), items),
+                key=itemgetter(0),
                 reverse=reverse,
             ):
                 yield obj
-- 
2.43.0


From 590560178f5ac961c91665a7ca1e13aaa5e65c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 53/71] fix: filtered and sorted views fail over an iterator
 which is false

An iterator with a length, for example, is false once it is exhausted.
---
 a_sync/iter.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 5548bd4..820d1bb 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -643,11 +643,11 @@ class ASyncFilter(_ASyncView[T]):
 
     async def __anext__(self) -> T:
         cdef object obj
-        if self.__aiterator__:
+        if self.__aiterator__ is not None:
             async for obj in self.__aiterator__:
                 if await self._check(obj):
                     return obj
-        elif self.__iterator__:
+        elif self.__iterator__ is not None:
             try:
                 for obj in self.__iterator__:
                     if await self._check(obj):
@@ -769,13 +769,13 @@ class ASyncSorter(_ASyncView[T]):
         if asyncio.iscoroutinefunction(self._function):
             items = []
             sort_tasks = []
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 async for obj in self.__aiterator__:
                     items.append(obj)
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-            elif self.__iterator__:
+            elif self.__iterator__ is not None:
                 for obj in self.__iterator__:
                     items.append(obj)
                     sort_tasks.append(
@@ -788,7 +788,7 @@ class ASyncSorter(_ASyncView[T]):
             ):
                 yield obj
         else:
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-- 
2.43.0


From 3aefbb2fe5814798677901f1e839b67ebf25f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 54/71] fix: a function at the address of a validated function
 which is gone is not validated

The validation caches were keyed by id() and did not keep the functions alive.
---
 a_sync/a_sync/function.pyx | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 8d948c9..eadc776 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -2,6 +2,7 @@ import functools
 import inspect
 import logging
 import sys
+import weakref
 
 from async_lru import _LRUCacheWrapper
 from async_property.base import AsyncPropertyDescriptor  # type: ignore [import]
@@ -121,13 +122,24 @@ cpdef void _validate_wrapped_fn(fn: Callable):
 
 cdef object _function_type = type(logging.getLogger)
 
-cdef set[Py_ssize_t] _argspec_validated = set()
+cdef bint _is_cached(dict cache, object fn):
+    # NOTE: the id can be reused once the function is gone
+    cdef object ref = cache.get(id(fn))
+    return ref is not None and ref() is fn
+
+cdef void _cache_function(dict cache, object fn):
+    try:
+        cache[id(fn)] = weakref.ref(fn)
+    except TypeError:
+        # we could not tell if the id was reused
+        pass
+
+cdef dict[Py_ssize_t, object] _argspec_validated = {}
 
 cdef void _validate_argspec_cached(fn: Callable):
-    cdef Py_ssize_t fid = id(fn)
-    if fid not in _argspec_validated:
+    if not _is_cached(_argspec_validated, fn):
         _validate_argspec(fn)
-        _argspec_validated.add(fid)
+        _cache_function(_argspec_validated, fn)
 
 cdef void _validate_argspec(fn: Callable):
     argspec = inspect.getfullargspec(fn)
@@ -974,13 +986,12 @@ class ASyncDecorator(_ModifiedMixin):
             return ASyncFunctionSyncDefault(func, **self.modifiers)
 
 
-cdef set[Py_ssize_t] _is_genfunc_cache = set()
+cdef dict[Py_ssize_t, object] _is_genfunc_cache = {}
 
 cdef void _check_not_genfunc_cached(func: Callable):
-    cdef Py_ssize_t fid = id(func)
-    if fid not in _is_genfunc_cache:
+    if not _is_cached(_is_genfunc_cache, func):
         _check_not_genfunc(func)
-        _is_genfunc_cache.add(fid)
+        _cache_function(_is_genfunc_cache, func)
 
 cdef void _check_not_genfunc(func: Callable):
     """Raises an error if the function is a generator or async generator.
-- 
2.43.0


From 73b7e12e78f2cee02fbcdb41a23963aa946d915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 55/71] fix: a class at the address of a class which is gone
 can be taken for an ASync class

The cache was keyed by id() and did not keep the classes alive.
---
 a_sync/a_sync/method.pyx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index b1adc64..95f6b2d 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -10,7 +10,6 @@ asynchronously based on various conditions and configurations.
 # mypy: disable-error-code=misc
 import functools
 import weakref
-from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
@@ -438,7 +437,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         return bound
 
 
-cdef dict[uintptr_t, bint] _is_a_sync_instance_cache = {}
+cdef object _is_a_sync_instance_cache = weakref.WeakKeyDictionary()
 
 cdef bint _is_a_sync_instance(object instance):
     """Checks if an instance is an ASync instance.
@@ -450,12 +449,12 @@ cdef bint _is_a_sync_instance(object instance):
         A boolean indicating if the instance is an ASync instance.
     """
     cdef object instance_type = type(instance)
-    cdef uintptr_t instance_type_uid = id(instance_type)
-    if instance_type_uid in _is_a_sync_instance_cache:
-        return _is_a_sync_instance_cache[instance_type_uid]
+    cdef object cached = _is_a_sync_instance_cache.get(instance_type)
+    if cached is not None:
+        return cached
     from a_sync.a_sync.abstract import ASyncABC
     cdef bint is_a_sync = issubclass(instance_type, ASyncABC)
-    _is_a_sync_instance_cache[instance_type_uid] = is_a_sync
+    _is_a_sync_instance_cache[instance_type] = is_a_sync
     return is_a_sync
 
 
-- 
2.43.0


From 45b0260bbb49b05518514968fa963704f560ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 56/71] fix: a class can get the signature of another __init__
 which is gone

The cache was keyed by id() and did not keep the functions alive.
---
 a_sync/a_sync/base.pyx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 9bde332..1fb721f 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,5 +1,6 @@
 import functools
 import inspect
+import weakref
 from contextlib import suppress
 from logging import DEBUG, getLogger
 from libc.stdint cimport uintptr_t
@@ -219,13 +220,20 @@ cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     raise exceptions.FlagNotDefined(cls, flag)
 
 
-cdef dict[uintptr_t, object] _init_signature_cache = {}
+cdef dict[uintptr_t, tuple] _init_signature_cache = {}
 
 
 cdef _get_init_signature(object cls):
-    cdef uintptr_t cls_init_id = id(cls.__init__)
-    signature = _init_signature_cache.get(cls_init_id)
-    if signature is None:
-        signature = inspect.signature(cls.__init__)
-        _init_signature_cache[cls_init_id] = signature
+    cdef object init = cls.__init__
+    cdef uintptr_t init_id = id(init)
+    cdef tuple cached = _init_signature_cache.get(init_id)
+    # NOTE: the id can be reused once the function is gone
+    if cached is not None and cached[0]() is init:
+        return cached[1]
+    cdef object signature = inspect.signature(init)
+    try:
+        _init_signature_cache[init_id] = (weakref.ref(init), signature)
+    except TypeError:
+        # we could not tell if the id was reused
+        pass
     return signature
-- 
2.43.0


From 06420d708ec883fc221c6dffb676748d4d7dc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 57/71] fix: functions passed to a TaskMapping are never
 released

A cached value which refers to its own key keeps the entry alive in a WeakKeyDictionary.
---
 a_sync/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index da42f3d..c52a815 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -698,9 +698,10 @@ def _unwrap(
     if unwrapped := __unwrapped.get(wrapped_func):
         return unwrapped
     if isinstance(wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)):
-        unwrapped = wrapped_func
+        # NOTE: we can't cache these, a value which refers to its key is never released
+        return wrapped_func
     elif isinstance(wrapped_func, _ASyncPropertyDescriptorBase):
-        unwrapped = wrapped_func.get
+        return wrapped_func.get
     elif isinstance(wrapped_func, ASyncFunction):
         # this speeds things up a bit by bypassing some logic
         # TODO implement it like this elsewhere if profilers suggest
@@ -708,7 +709,7 @@ def _unwrap(
             wrapped_func._modified_fn if wrapped_func._async_def else wrapped_func._asyncified
         )
     else:
-        unwrapped = wrapped_func
+        return wrapped_func
     __unwrapped[wrapped_func] = unwrapped
     return unwrapped
 
-- 
2.43.0


From 6202337dd2e2fd32fc0e64953db378616d8d0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 58/71] fix: smart_task_factory rejects the context (and other
 arguments) the event loop passes to a task factory

asyncio.Runner.run and loop.create_task(coro, context=...) raised TypeError.
---
 a_sync/_smart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 31919c9..77786b9 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -281,6 +281,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         *,
         loop: Optional[asyncio.AbstractEventLoop] = None,
         name: Optional[str] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize the SmartTask with a coroutine and optional event loop.
@@ -289,6 +290,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
             coro: The coroutine to run in the task.
             loop: Optional; the event loop.
             name: Optional; the name of the task.
+            **kwargs: Other keyword arguments for :class:`asyncio.Task`, such as `context`.
 
         Example:
             ```python
@@ -298,12 +300,14 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         See Also:
             - :func:`asyncio.create_task`
         """
-        asyncio.Task.__init__(self, coro, loop=loop, name=name)
+        asyncio.Task.__init__(self, coro, loop=loop, name=name, **kwargs)
         self._waiters: Set["asyncio.Task[T]"] = set()
         self.add_done_callback(SmartTask._self_done_cleanup_callback)
 
 
-def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> SmartTask[T]:
+def smart_task_factory(
+    loop: asyncio.AbstractEventLoop, coro: Awaitable[T], **kwargs: Any
+) -> SmartTask[T]:
     """
     Task factory function that an event loop calls to create new tasks.
 
@@ -312,6 +316,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
     Args:
         loop: The event loop.
         coro: The coroutine to run in the task.
+        **kwargs: Other keyword arguments the event loop passes on to the task, such as `context`.
 
     Returns:
         A SmartTask instance running the provided coroutine.
@@ -328,7 +333,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
         - :func:`set_smart_task_factory`
         - :class:`SmartTask`
     """
-    return SmartTask(coro, loop=loop)
+    return SmartTask(coro, loop=loop, **kwargs)
 
 
 def set_smart_task_factory(loop: asyncio.AbstractEventLoop = None) -> None:
-- 
2.43.0


From e032d520ba5d003fc783f2a59b3efb325acb2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 59/71] fix: create_task turns NotImplementedError and
 RecursionError of an awaitable into a RuntimeError

Every subclass of RuntimeError an awaitable raised was replaced.
---
 a_sync/asyncio/create_task.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 691591d..3384390 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -115,6 +115,9 @@ async def __await(awaitable: Awaitable[T]) -> T:
     try:
         return await awaitable
     except RuntimeError as e:
+        if type(e) is not RuntimeError:
+            # a subclass such as NotImplementedError must reach the caller as it is
+            raise
         args = [e, awaitable]
         if isinstance(awaitable, asyncio.tasks._GatheringFuture):
             args.append(awaitable._children)
-- 
2.43.0


From 19d79d3428b6c28cf373c77c98c66627aa77fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 60/71] fix: a TypeError of a partial or callable object mapped
 by a TaskMapping is replaced by an AttributeError

---
 a_sync/task.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index c52a815..6dc7aa0 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -164,9 +164,15 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     e.args = *e.args, f"wrapped:{self.__wrapped__}"
                     raise
                 except TypeError as e:
-                    if __a_sync_recursion > 2 or not (
-                        str(e).startswith(wrapped_func.__name__)
-                        and "got multiple values for argument" in str(e)
+                    # NOTE: partials and other callable objects don't have a name
+                    func_name = getattr(wrapped_func, "__name__", None)
+                    if (
+                        func_name is None
+                        or __a_sync_recursion > 2
+                        or not (
+                            str(e).startswith(func_name)
+                            and "got multiple values for argument" in str(e)
+                        )
                     ):
                         raise
                     # NOTE: args ordering is clashing with provided kwargs. We can handle this in a hacky way.
-- 
2.43.0


From 85550cf1191da0722308f29913e5e117575c9f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 61/71] fix: PruningThreadPoolExecutor could prune an idle
 thread a submitted job counts on, or break shutdown

---
 a_sync/executor.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 90d687e..685f461 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -286,6 +286,33 @@ ThreadPoolExecutor = AsyncThreadPoolExecutor
 # Pruning thread pool
 
 
+def _prune_current_thread(executor) -> bool:
+    """
+    Removes the current idle worker thread from the executor if it is not needed.
+
+    Args:
+        executor: The executor the thread works for, or None if it is gone.
+
+    Returns:
+        True if the thread was removed and must end, False if it must keep on serving the queue.
+    """
+    if executor is None:
+        return False
+    # NOTE: the shutdown lock keeps the set of threads as it is while shutdown joins them
+    with executor._shutdown_lock, executor._adjusting_lock:
+        # NOTE: We keep a minimum of one thread active to prevent locks
+        if executor._shutdown or len(executor) <= 1:
+            return False
+        # Let the executor know we have one less idle thread available.
+        # If that fails, a job was just submitted to the thread and it must stay.
+        if not executor._idle_semaphore.acquire(blocking=False):
+            return False
+        t = threading.current_thread()
+        executor._threads.remove(t)
+        thread._threads_queues.pop(t)
+        return True
+
+
 def _worker(executor_reference, work_queue, initializer, initargs, timeout):  # NOTE: NEW 'timeout'
     """
     Worker function for the PruningThreadPoolExecutor.
@@ -317,17 +344,8 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
             except queue.Empty:  # NOTE: NEW
                 # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
                 # Let's suicide the thread.  # NOTE: NEW
-                executor = executor_reference()  # NOTE: NEW
-
-                with executor._adjusting_lock:  # NOTE: NEW
-                    # NOTE: We keep a minimum of one thread active to prevent locks
-                    if len(executor) > 1:  # NOTE: NEW
-                        t = threading.current_thread()  # NOTE: NEW
-                        executor._threads.remove(t)  # NOTE: NEW
-                        thread._threads_queues.pop(t)  # NOTE: NEW
-                        # Let the executor know we have one less idle thread available
-                        executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
-                        return  # NOTE: NEW
+                if _prune_current_thread(executor_reference()):  # NOTE: NEW
+                    return  # NOTE: NEW
                 continue
 
             if work_item is not None:
-- 
2.43.0


From d543117e603e31d1181b09ece593ed4a217391c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 62/71] fix: PruningThreadPoolExecutor counts idle threads
 twice and leaves jobs waiting behind each other

---
 a_sync/executor.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 685f461..8ec6477 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -339,25 +339,28 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
 
     try:
         while True:
-            try:  # NOTE: NEW
-                work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
-            except queue.Empty:  # NOTE: NEW
-                # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
-                # Let's suicide the thread.  # NOTE: NEW
-                if _prune_current_thread(executor_reference()):  # NOTE: NEW
-                    return  # NOTE: NEW
-                continue
+            try:
+                work_item = work_queue.get_nowait()
+            except queue.Empty:
+                # attempt to increment idle count if queue is empty
+                executor = executor_reference()
+                if executor is not None:
+                    executor._idle_semaphore.release()
+                del executor
+                while True:  # NOTE: NEW
+                    try:  # NOTE: NEW
+                        work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
+                        break  # NOTE: NEW
+                    except queue.Empty:  # NOTE: NEW
+                        # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
+                        # Let's suicide the thread.  # NOTE: NEW
+                        if _prune_current_thread(executor_reference()):  # NOTE: NEW
+                            return  # NOTE: NEW
 
             if work_item is not None:
                 work_item.run()
                 # Delete references to object. See issue16284
                 del work_item
-
-                # attempt to increment idle count
-                executor = executor_reference()
-                if executor is not None:
-                    executor._idle_semaphore.release()
-                del executor
                 continue
 
             executor = executor_reference()
-- 
2.43.0


From a2db97ec572d3e163a05b6ebc668eac8694ad74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 63/71] fix: the name of a CounterLock or Event whose __init__
 did not run is read from a null pointer

---
 a_sync/primitives/locks/counter.pyx | 5 +++--
 a_sync/primitives/locks/event.pyx   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index 3c6c28f..6bef072 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -84,7 +84,7 @@ cdef class CounterLock(_DebugDaemonMixin):
             '<CounterLock name=example_counter value=0 waiters={}>'
         """
         cdef dict[long long, Py_ssize_t] waiters = {v: len((<Event>self._events[v])._waiters) for v in sorted(self._events)}
-        return "<CounterLock name={} value={} waiters={}>".format(self.__name.decode("utf-8"), self._value, waiters)
+        return "<CounterLock name={} value={} waiters={}>".format(self._name, self._value, waiters)
 
     cpdef bint is_ready(self, long long v):
         """A function that indicates whether the current counter value is greater than or equal to a given value."""
@@ -193,7 +193,8 @@ cdef class CounterLock(_DebugDaemonMixin):
 
     @property
     def _name(self) -> str:
-        return self.__name.decode("utf-8")
+        # NOTE: there is no name if __init__ did not run or failed
+        return self.__name.decode("utf-8") if self.__name is not NULL else ""
 
     async def _debug_daemon(self) -> None:
         """
diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 2807fef..c98e031 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -151,7 +151,8 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
     @property
     def _name(self) -> str:
-        return self.__name.decode("utf-8")
+        # NOTE: there is no name if __init__ did not run or failed
+        return self.__name.decode("utf-8") if self.__name is not NULL else ""
     
     async def __wait(self) -> Literal[True]:
         # Registered here and not in `c_wait` so a wait that never starts leaves nothing behind.
-- 
2.43.0


From 43adf219affb5be214b49e563a95ea820c993597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 64/71] fix: the name buffer of a lock is leaked when __init__
 runs again

---
 a_sync/primitives/locks/counter.pyx   | 2 ++
 a_sync/primitives/locks/event.pyx     | 2 ++
 a_sync/primitives/locks/semaphore.pyx | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index 6bef072..1700380 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -56,6 +56,8 @@ cdef class CounterLock(_DebugDaemonMixin):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        # NOTE: free(NULL) does nothing, there is only a name if __init__ runs again
+        free(self.__name)
         self.__name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index c98e031..47c6fbb 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -62,6 +62,8 @@ cdef class CythonEvent(_DebugDaemonMixin):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        # NOTE: free(NULL) does nothing, there is only a name if __init__ runs again
+        free(self.__name)
         self.__name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 1fc9f29..e756722 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -84,6 +84,8 @@ cdef class Semaphore(_DebugDaemonMixin):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        # NOTE: free(NULL) does nothing, there is only a name if __init__ runs again
+        free(self._name)
         self._name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
@@ -348,6 +350,8 @@ cdef class DummySemaphore(Semaphore):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        # NOTE: free(NULL) does nothing, there is only a name if __init__ runs again
+        free(self._name)
         self._name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
-- 
2.43.0


From 2655c0fe50a147872b6feec71cb1b3ba65d53cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 65/71] fix: TaskMapping.max and min of results that are None
 are not those of an empty sequence

---
 a_sync/task.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 6dc7aa0..9bf9a0d 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -384,28 +384,28 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     @ASyncMethodDescriptorSyncDefault
     async def max(self, pop: bool = True) -> V:
-        max = None
+        max = _unset
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if max is None or result > max:
+                if max is _unset or result > max:
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
-        if max is None:
+        if max is _unset:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
     @ASyncMethodDescriptorSyncDefault
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
-        min = None
+        min = _unset
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if min is None or result < min:
+                if min is _unset or result < min:
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
-        if min is None:
+        if min is _unset:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
@@ -668,6 +668,10 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
+_unset = object()
+"""Stands for no result yet in the aggregates."""
+
+
 async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
     """
     Asynchronously yield keys from the provided iterable.
-- 
2.43.0


From 1726de31b23f4a01412ffab021c0e0638f47bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 66/71] fix: a task failing with an _EmptySequenceError is not
 counted as an empty mapping

---
 a_sync/task.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 9bf9a0d..97e82dd 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -365,7 +365,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 if not bool(result):
                     return False
             return True
-        except _EmptySequenceError:
+        except _EmptySequenceError as e:
+            self._raise_if_not_from_loader(e)
             return True
         finally:
             await self._if_pop_clear(pop)
@@ -377,7 +378,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 if bool(result):
                     return True
             return False
-        except _EmptySequenceError:
+        except _EmptySequenceError as e:
+            self._raise_if_not_from_loader(e)
             return False
         finally:
             await self._if_pop_clear(pop)
@@ -389,7 +391,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             async for key, result in self.__aiter__(pop=pop):
                 if max is _unset or result > max:
                     max = result
-        except _EmptySequenceError:
+        except _EmptySequenceError as e:
+            self._raise_if_not_from_loader(e)
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         if max is _unset:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
@@ -403,7 +406,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             async for key, result in self.__aiter__(pop=pop):
                 if min is _unset or result < min:
                     min = result
-        except _EmptySequenceError:
+        except _EmptySequenceError as e:
+            self._raise_if_not_from_loader(e)
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         if min is _unset:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
@@ -416,7 +420,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         try:
             async for key, result in self.__aiter__(pop=pop):
                 retval += result
-        except _EmptySequenceError:
+        except _EmptySequenceError as e:
+            self._raise_if_not_from_loader(e)
             return 0
         return retval
 
@@ -531,6 +536,12 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         fn = functools.partial(self._wrapped_func, **self._wrapped_func_kwargs)
         return ProcessingQueue(fn, self.concurrency, name=self._name)
 
+    def _raise_if_not_from_loader(self, e: "_EmptySequenceError") -> None:
+        """Re-raise `e` unless it says that the mapping was given no keys; one raised by a task is a failure of the task."""
+        loader = self._init_loader
+        if not (loader and loader.done() and not loader.cancelled() and loader.exception() is e):
+            raise e
+
     def _raise_if_empty(self, msg: str = "") -> None:
         if not self:
             raise exceptions.MappingIsEmptyError(self, msg)
-- 
2.43.0


From 6d0a47b6ff026e6e09421f557b7f00e222ca19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 67/71] fix: TaskMapping.sum does not add to the objects the
 tasks returned

---
 a_sync/task.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 97e82dd..0707be7 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -416,14 +416,12 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     @ASyncMethodDescriptorSyncDefault
     async def sum(self, pop: bool = False) -> V:
         """Return the sum of the results from the tasks in the mapping."""
-        retval = 0
         try:
-            async for key, result in self.__aiter__(pop=pop):
-                retval += result
+            results = [result async for key, result in self.__aiter__(pop=pop)]
         except _EmptySequenceError as e:
             self._raise_if_not_from_loader(e)
             return 0
-        return retval
+        return sum(results)
 
     @ASyncIterator.wrap
     async def yield_completed(self, pop: bool = True) -> AsyncIterator[Tuple[K, V]]:
-- 
2.43.0


From 5e138f5d15aec457691414ad90119b16d241a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 68/71] fix: a key given to a TaskMapping twice starts one
 task, and one empty iterable among several is nothing special

---
 a_sync/task.py | 56 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 0707be7..bbc23bd 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -553,6 +553,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
+        # a key which comes up again does not start another task
+        started: Set[K] = set()
+
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -560,23 +563,28 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         for iterable in containers:
-            async for key in _yield_keys(iterable):
-                yield key, self[key]
+            async for key in _yield_keys(iterable, may_be_empty=True):
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]  # ensure task is running
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
+            async for key in as_yielded(*[_yield_keys(iterable, may_be_empty=True) for iterable in remaining]):  # type: ignore [attr-defined]
+                if key not in started:
+                    started.add(key)
                     yield key, self[key]  # ensure task is running
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
 
     @ASyncGeneratorFunction
     async def _start_tasks_for_iterables(
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Start new tasks for each key in the provided iterables."""
+        # a key which comes up again does not start another task
+        started: Set[K] = set()
+
+        # one empty iterable among many is nothing special
+        may_be_empty = len(iterables) > 1
+
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -584,17 +592,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         for iterable in containers:
-            async for key in _yield_keys(iterable):
-                yield key, self.__start_task(key)
+            async for key in _yield_keys(iterable, may_be_empty):
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]  # ensure task is running
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self.__start_task(key)
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(*[_yield_keys(iterable, may_be_empty) for iterable in remaining]):  # type: ignore [attr-defined]
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]  # ensure task is running
 
     def _if_pop_check_destroyed(self, pop: bool) -> None:
         if pop:
@@ -681,18 +688,22 @@ _unset = object()
 """Stands for no result yet in the aggregates."""
 
 
-async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
+async def _yield_keys(
+    iterable: AnyIterableOrAwaitableIterable[K], may_be_empty: bool = False
+) -> AsyncIterator[K]:
     """
     Asynchronously yield keys from the provided iterable.
 
     Args:
         iterable: An iterable that can be either synchronous or asynchronous.
+        may_be_empty: If False, an empty sequence raises an :class:`_EmptySequenceError`.
 
     Yields:
         Keys extracted from the iterable.
     """
     if not iterable:
-        raise _EmptySequenceError(iterable)
+        if not may_be_empty:
+            raise _EmptySequenceError(iterable)
     elif isinstance(iterable, AsyncIterable):
         async for key in iterable:
             yield key
@@ -700,7 +711,7 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
         for key in iterable:
             yield key
     elif inspect.isawaitable(iterable):
-        async for key in _yield_keys(await iterable):
+        async for key in _yield_keys(await iterable, may_be_empty):
             yield key
     else:
         raise TypeError(iterable)
@@ -804,9 +815,10 @@ class TaskMappingKeys(_TaskMappingView[K, K, V], Generic[K, V]):
             yielded.add(key)
             yield key
         if self._pop:
-            # don't need to check yielded since we've been popping them as we go
             for key in self.__load_existing():
-                yield key
+                # a key we already popped may have been started again
+                if key not in yielded:
+                    yield key
             await mapping._if_pop_clear(True)
         else:
             for key in self.__load_existing():
-- 
2.43.0


From 7ce6119a02e6e02d143f7ab974f72ee64dc1e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 69/71] fix: TaskMapping.map without pop yields each key once,
 and a failed task's exception as it is

---
 a_sync/task.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index bbc23bd..73a2f66 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -323,20 +323,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 "You cannot pass `iterables` to map if the TaskMapping was initialized with an (a)iterable."
             )
 
+        yielded: Set[K] = set()
         try:
             if iterables:
                 self._raise_if_not_empty()
-                try:
-                    async for _ in self._tasks_for_iterables(*iterables):
-                        async for key, value in self.yield_completed(pop=pop):
+                async for _ in self._tasks_for_iterables(*iterables):
+                    async for key, value in self.yield_completed(pop=pop):
+                        # without pop, completed keys stay in the mapping
+                        if key not in yielded:
+                            yielded.add(key)
                             yield _yield(key, value, yields)
-                except _EmptySequenceError:
-                    if len(iterables) > 1:
-                        # TODO gotta handle this situation
-                        raise exceptions.EmptySequenceError(
-                            "bob needs to code something so you can do this, go tell him"
-                        ) from None
-                    # just pass thru
 
             elif init_loader:
                 # check for exceptions if you passed an iterable(s) into the class init
@@ -352,8 +348,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     async for key, value in as_completed(self, aiter=True):
                         self.pop(key)
                         yield _yield(key, value, yields)
-                else:
-                    async for key, value in as_completed(self, aiter=True):
+                elif unyielded := {key: self[key] for key in self if key not in yielded}:
+                    async for key, value in as_completed(unyielded, aiter=True):
                         yield _yield(key, value, yields)
         finally:
             await self._if_pop_clear(pop)
-- 
2.43.0


From e8ed16b9b8d52eef8f8b9a2ca8c7a1d165490ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 70/71] fix: map a bound method over keys asynchronously
 whatever its default mode

The tasks of a mapping called the bound method without a flag, so that mapping
or aggregating a method of a sync instance (or with default='sync') always
failed with SyncModeInAsyncContextError.
---
 a_sync/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 73a2f66..b5cfd0f 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -141,9 +141,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self._wrapped_func = wrapped_func
         "The function used to create tasks for each key."
 
-        if isinstance(wrapped_func, ASyncMethodDescriptor) and not _kwargs.get_flag_name_legacy(
-            wrapped_func_kwargs
-        ):
+        if isinstance(
+            wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)
+        ) and not _kwargs.get_flag_name_legacy(wrapped_func_kwargs):
             wrapped_func_kwargs["sync"] = False
         if wrapped_func_kwargs:
             self._wrapped_func_kwargs = wrapped_func_kwargs
-- 
2.43.0


From e7543220bd8522e09dcd3aa51ce36ab92c65a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 71/71] fix: keep the declared default of a cached property
 that has a setter or deleter

---
 a_sync/a_sync/property.pyx | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 2195012..8f0bf6d 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -421,6 +421,32 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def setter(self, method: Callable[[I, T], None]) -> Self:
+        """
+        Returns a copy of this property that calls `method` whenever the property is set.
+
+        Args:
+            method: The synchronous setter. It must be named like the property.
+        """
+        self._check_method_name(method, "setter")
+        return self._with_hooks(method, self._fdel)
+
+    def deleter(self, method: Callable[[I], None]) -> Self:
+        """
+        Returns a copy of this property that calls `method` whenever the property is deleted.
+
+        Args:
+            method: The synchronous deleter. It must be named like the property.
+        """
+        self._check_method_name(method, "deleter")
+        return self._with_hooks(self._fset, method)
+
+    def _with_hooks(self, _fset, _fdel) -> Self:
+        # NOTE: the modifiers are applied to `_fget` already, except the default and the executor
+        return type(self)(
+            self._fget, _fset, _fdel, self.field_name, **self._get_applied_modifiers()
+        )
+
     def get_instance_state(self, instance: I) -> ap.cached.AsyncCachedPropertyInstanceState:
         """Retrieves the state of the property for `instance`.
 
-- 
2.43.0

