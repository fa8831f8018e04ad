From 5e0783fcf9ba10ef6d09a2e5da211d7a65bb5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 01/45] fix: tolerate repeated index values when removing an
 object from an index

_delete_from_indices raised KeyError for an index function that returns the
same value twice when another object shares that value, leaving the store
half updated.
---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..1e6e3a8 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From 952ade398dc2bffc58d1b5b46e994e119d959ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 02/45] fix: let indexers be added to an empty store

add_indexers compared the union of the index names instead of their
intersection, so it rejected every registration.
---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 1e6e3a8..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From 4d8505630431e7fac6c7a630396ead0d476d0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 03/45] fix: deleting an absent key from a FIFO is a no-op
 instead of a KeyError

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 94fba33929704d570244449c2df05d5e43574c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 04/45] fix: a relist deletes keys that are only pending in the
 delta queue

With a backing store, replace() only looked for missing keys in the store. A
key that was still waiting in the queue and absent from the list was never
deleted, so the consumer kept an object that no longer exists.
---
 aiok8s/cache/delta_fifo.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..e047685 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,22 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            for k, old_item in self._items.items():
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
-- 
2.43.0


From 4a32e7d09f288b4f8ff2ab189a5c8af5ee30a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 05/45] fix: do not wrap a tombstone in another tombstone on
 repeated relists

---
 aiok8s/cache/delta_fifo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index e047685..b74eeee 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -90,6 +90,8 @@ class DeltaFIFO:
                 n = old_item.newest()
                 if n:
                     deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
                 queued_deletions += 1
                 self._queue_action_locked(
                     DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-- 
2.43.0


From f89f02fd63355b1f95b7a4f22905250a344e3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 06/45] fix: a relisted object is queued even if its deletion
 is still pending

replace() dropped a listed object whose key had a pending deletion, so an
object that was deleted and recreated vanished. Resyncs have their own guard:
they skip every key with pending changes.
---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index b74eeee..b5ef5a0 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -193,14 +193,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From eb90099f1e91f27b15558ad655e406e1511b73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 07/45] fix: a FIFO that is replaced before its initial items
 were popped still syncs

The initial items are gone from the queue after the second replace(), so
counting down from their number never reached zero.
---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..96aae0c 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -90,7 +90,7 @@ class FIFO:
                 raise store.StoreKeyError(item) from e
             items[key] = item
         async with self._lock:
-            if not self._populated:
+            if not self.has_synced():
                 self._populated = True
                 self._initial_population_count = len(items)
 
-- 
2.43.0


From 64cd05392033dac5ce7bde5e3b36dc64044a0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 08/45] fix: count keys, not list entries, towards the initial
 population

A key that occurs twice in the initial list is queued and popped once, so the
delta queue never reported being synced.
---
 aiok8s/cache/delta_fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index b5ef5a0..e7c7ce9 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -123,7 +123,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From d2bbedb3571fa9360e60d0f21dabe0e4ac883998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 09/45] fix: shutting down a delaying queue shuts down the
 underlying queue

shut_down() called itself instead of the base class, so waiting workers were
never told to stop and additions were still accepted.
---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From 33063cf202c59c3506ebe950937c065caf17f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 10/45] fix: a cancelled get passes its notification on to
 another waiter

A get that was cancelled after it had been notified, but before it ran, left
the item in the queue while other workers kept waiting.
---
 aiok8s/workqueue/queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..c255507 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,12 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # This waiter may have consumed the only notification.
+                    self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From 663a689f3fc5cf543635950a843de1c47d393007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 11/45] fix: an item that failed more than 1000 times gets the
 maximum delay instead of an OverflowError

---
 aiok8s/workqueue/default_rate_limiters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..33c0ee4 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -67,7 +67,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = self._base_delay * 2 ** exp
+        except OverflowError:
+            return self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From 360d1f9cad1cef4596a6204e01787d45cf73ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 12/45] fix: a cancelled read of a broadcaster watcher no
 longer swallows the next event

---
 aiok8s/watch/mux.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..733535e 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import enum
 
 
@@ -156,16 +157,25 @@ class _BroadcasterWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._id = id_
         self._m = m
+        self._unclaimed = collections.deque()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        # A read that was cancelled leaves its event to the next one.
+        if self._unclaimed:
+            event = self._unclaimed.popleft()
+        else:
+            event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                self._unclaimed.append(event)
+                raise
             if event in done:
                 if not self._result.maxsize:
                     self._result.task_done()
-- 
2.43.0


From 0262704754ac02a754885252bafb52ca78383cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 13/45] fix: a timeout error raised by a polled condition is
 passed on as it is

---
 aiok8s/util/wait.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..f912b81 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -115,10 +115,16 @@ async def exponential_backoff(backoff, condition):
 
 # TODO: test, rewrite?
 async def poll(interval, timeout, condition):
+    task = asyncio.ensure_future(poll_infinite(interval, condition))
     try:
-        await asyncio.wait_for(poll_infinite(interval, condition), timeout)
-    except asyncio.TimeoutError:
+        done, _ = await asyncio.wait([task], timeout=timeout)
+    finally:
+        if not task.done():
+            task.cancel()
+            await asyncio.gather(task, return_exceptions=True)
+    if not done:
         raise WaitTimeoutError
+    await task
 
 
 # TODO: test, rewrite?
-- 
2.43.0


From 50615c81ebce15682a997358ca77cbc193f14986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 14/45] fix: a watch whose iteration raises ends the watch
 instead of wedging the reflector

---
 aiok8s/cache/reflector.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..050ddb6 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,12 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            finally:
+                event_queue.put_nowait(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -163,6 +165,8 @@ class Reflector:
                     raise await error_task
                 event = await event_task
                 if event is None:
+                    # Raises the error that ended the watch, if any.
+                    await get_events_task
                     break
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
-- 
2.43.0


From 98ecb0401efafefb61e3c7d85b1f8beedf3a6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 15/45] fix: a watch event with unreadable type or metadata is
 skipped instead of ending the watch

---
 aiok8s/cache/reflector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 050ddb6..8b10ae5 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -180,7 +180,10 @@ class Reflector:
                     )
                     continue
                 if self._expected_gvk is not None:
-                    gvk = meta.type_accessor(event["object"]).group_version_kind
+                    try:
+                        gvk = meta.type_accessor(event["object"]).group_version_kind
+                    except Exception:
+                        gvk = None
                     if self._expected_gvk != gvk:
                         logger.error(
                             "expected gvk %s, but watch event object had gvk %s",
@@ -190,10 +193,10 @@ class Reflector:
                         continue
                 try:
                     metadata = meta.accessor(event["object"])
+                    new_resource_version = metadata.resource_version
                 except Exception:
                     logger.error("unable to understand watch event %r", event)
                     continue
-                new_resource_version = metadata.resource_version
                 if event["type"] == watch.EventType.ADDED:
                     try:
                         await self._store.add(event["object"])
-- 
2.43.0


From 727b441d2d1c927e78864ce0a802ce478cf52b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 16/45] fix: the group, version and kind of an object of the
 core group can be read

---
 aiok8s/api/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..f0a0d06 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,8 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        # The core group has no group in its API version.
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 0e8501ecf692df78bf2d21cf4cbbd0fc758705e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 17/45] fix: untyped objects without namespace, uid or version
 are read like typed ones

---
 aiok8s/api/meta.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index f0a0d06..e5b60fc 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -127,7 +127,7 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
@@ -135,11 +135,11 @@ class _UnstructuredAccessor:
 
     @property
     def uid(self):
-        return self._metadata["uid"]
+        return self._metadata.get("uid")
 
     @property
     def resource_version(self):
-        return self._metadata["resourceVersion"]
+        return self._metadata.get("resourceVersion")
 
     @resource_version.setter
     def resource_version(self, resource_version):
-- 
2.43.0


From 51bb92d7db52e1e54b9f28aa35087771a23979e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 18/45] fix: changes found by a relist are sent to every
 handler of a shared informer

---
 aiok8s/cache/shared_informer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..d43d972 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,15 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        # A relist also queues SYNC deltas, for changed objects too.
+                        # Only what didn't change is a resync.
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and meta.accessor(d.object).resource_version
+                            == meta.accessor(old).resource_version
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +198,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
-- 
2.43.0


From c5d62fe109cbe17b98d2190ccd10a0c86bbb516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 19/45] fix: a slow handler of a shared informer no longer
 delays the other handlers

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index d43d972..fb95ad9 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -355,7 +355,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 7b630cce21d1d111b282f4b43507bc33431c7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 20/45] fix: a handler registered during a resync of others is
 not sent that resync

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index fb95ad9..9cc5638 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -261,7 +261,6 @@ class _SharedProcessor:
 
     def _add_listener_locked(self, listener):
         self._listeners.append(listener)
-        self._syncing_listeners.append(listener)
 
     async def _distribute(self, obj, sync):
         async with self._listeners_lock:
-- 
2.43.0


From f06ca9b2d2799a9d5353637cf30e30d9ce7527fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 21/45] fix: a delta queue reports synced only after its
 initial items were processed

---
 aiok8s/cache/delta_fifo.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index e7c7ce9..1c409dd 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -141,12 +141,10 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
-                if id_ not in self._items:
-                    continue
-                item = self._items.pop(id_)
                 try:
+                    if id_ not in self._items:
+                        continue
+                    item = self._items.pop(id_)
                     await process(item)
                 except fifo.RequeueError as e:
                     self._add_if_not_present(id_, item)
@@ -156,6 +154,10 @@ class DeltaFIFO:
                     raise
                 except Exception as e:
                     raise fifo.ProcessError(item) from e
+                finally:
+                    # Not before, as `has_synced` doesn't wait for the processing.
+                    if self._initial_population_count:
+                        self._initial_population_count -= 1
                 return item
 
     async def add_if_not_present(self, obj):
-- 
2.43.0


From 94e9d65fcf47797d166bdddcdfb03c9e893ae018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 22/45] fix: a deletion that is found by a relist reaches the
 event handlers of a controller

---
 aiok8s/controller/source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..b4be3b2 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,9 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            # The deletion was missed. This is the last known object.
+            obj = obj.obj
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From 8b3a9bac6f3532e90f8fb10c38100878ffad10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 23/45] fix: a kind that is first read after the cache was
 started gets an informer that runs

---
 aiok8s/controller/_informers_map.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..fcd06a3 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,6 +34,8 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._stopped = False
+        self._late_tasks = []
 
     async def start(self):
         async with self._mutex:
@@ -42,7 +44,15 @@ class _SpecificInformersMap:
                 for informer in self._informers_by_gvk.values()
             ]
             self._started = True
-        await asyncio.gather(*aws)
+        # Doesn't end without informers, as some may be added while it runs.
+        aws.append(asyncio.get_event_loop().create_future())
+        try:
+            await asyncio.gather(*aws)
+        finally:
+            self._stopped = True
+            for task in self._late_tasks:
+                task.cancel()
+            await asyncio.gather(*self._late_tasks, return_exceptions=True)
 
     def has_synced_funcs(self):
         return [
@@ -55,7 +65,11 @@ class _SpecificInformersMap:
             started = self._started
 
         if not informer:
+            if self._stopped:
+                raise Exception(f"the Informers have stopped, so none runs for {obj}")
             informer = self._add_informer_to_map(gvk, obj)
+            if started:
+                self._late_tasks.append(asyncio.ensure_future(informer.informer.run()))
 
         if started and not informer.informer.has_synced():
             if not await shared_informer.wait_for_cache_sync(
-- 
2.43.0


From 0c7228d825c275f7513a414dd1f31a93534724f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 24/45] fix: a manager that is cancelled while its caches sync
 stops its informers

---
 aiok8s/controller/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..887c8fe 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -59,6 +59,11 @@ class _ControllerManager:
         if self._started:
             return
         task = asyncio.ensure_future(self._cache.start())
-        await self._cache.wait_for_cache_sync()
+        try:
+            await self._cache.wait_for_cache_sync()
+        except BaseException:
+            task.cancel()
+            await asyncio.gather(task, return_exceptions=True)
+            raise
         self._started = True
         return task
-- 
2.43.0


From 0645ba7743b0311eb12d8d1075dad899ca7752a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 25/45] fix: an object whose metadata is None is rejected as
 not an object

---
 aiok8s/api/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index e5b60fc..3a7dd2c 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -99,6 +99,8 @@ class _UnstructuredListAccessor:
 class _Accessor:
     def __init__(self, obj):
         self._metadata = obj.metadata
+        if self._metadata is None:
+            raise _NotObjectError
 
     @property
     def namespace(self):
@@ -124,6 +126,8 @@ class _Accessor:
 class _UnstructuredAccessor:
     def __init__(self, obj):
         self._metadata = obj["metadata"]
+        if self._metadata is None:
+            raise _NotObjectError
 
     @property
     def namespace(self):
-- 
2.43.0


From 63e9f3f7c262d2f4137741dc2a17fec40da785dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 26/45] fix: the ConfigMap lock can be created with current
 clients

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..2d7a02b 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import CoreV1Api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From 121ce04046d79074043f2595d26224730e1f67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 27/45] fix: the observed leader election record is initialised
 and read as the dict it is

---
 aiok8s/leaderelection/leaderelection.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..344b051 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -60,6 +60,10 @@ class LeaderElector:
         if not lec.lock:
             raise Exception("lock must not be None")
         self._config = lec
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = 0
+        self._reported_leader = ""
         self._clock = clock.RealClock()
 
     async def run(self):
@@ -74,7 +78,7 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return self._observed_record.get("holderIdentity") == self._config.lock.identity()
 
     async def _acquire(self):
         succeeded = False
@@ -207,9 +211,10 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        observed_leader = self._observed_record.get("holderIdentity") or ""
+        if observed_leader == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = observed_leader
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From 3e7d6348a212ffcc599ea2bf60719ef6eaadce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 28/45] fix: an elector that is cancelled before it leads calls
 its stopped callback

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 344b051..23a3224 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -67,15 +67,18 @@ class LeaderElector:
         self._clock = clock.RealClock()
 
     async def run(self):
+        task = None
         try:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            task.cancel()
+            if task is not None:
+                task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            if task is not None:
+                await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         return self._observed_record.get("holderIdentity") == self._config.lock.identity()
-- 
2.43.0


From 22cf77c54e8bf5b0a11e5af16c29969a6cabb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 29/45] fix: a lock that does not exist yet is created

---
 aiok8s/leaderelection/resourcelock.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 2d7a02b..5943bba 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -16,6 +16,7 @@ import json
 from typing import NamedTuple
 
 from kubernetes_asyncio.client import CoreV1Api, models
+from kubernetes_asyncio.client.rest import ApiException
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,9 +41,15 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except ApiException as e:
+            if e.status == 404:
+                # There is no lock yet, it has to be created.
+                return None, None
+            raise
         raw_record = (
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-- 
2.43.0


From d23cf803f76845d44f45f681d4fe9e240ead153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 30/45] fix: a newly created leader election record has a
 transition count

---
 aiok8s/leaderelection/leaderelection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 23a3224..36c3d28 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -149,6 +149,7 @@ class LeaderElector:
             "leaseDurationSeconds": int(self._config.lease_duration),
             "renewTime": now,
             "acquireTime": now,
+            "leaderTransitions": 0,
         }
         try:
             (
-- 
2.43.0


From 1a456dc46597c500ea54d92f2ce9861bfcf6cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 31/45] fix: a leader that cannot renew its lease stops leading
 at the renew deadline

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 36c3d28..e2246b0 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -109,8 +109,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._config.renew_deadline,
                     )
                 except asyncio.CancelledError:
                     raise
-- 
2.43.0


From f964dc5a42e2c6aabc4f592877c7a117b866e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 32/45] fix: the leader is told to stop before its lock is
 released

---
 aiok8s/leaderelection/leaderelection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index e2246b0..69bd40d 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -72,7 +72,7 @@ class LeaderElector:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
-            await self._renew()
+            await self._renew(task)
         finally:
             if task is not None:
                 task.cancel()
@@ -104,7 +104,7 @@ class LeaderElector:
         await asyncio.gather(task, return_exceptions=True)
         return succeeded
 
-    async def _renew(self):
+    async def _renew(self, leading_task):
         try:
             while True:
                 description = self._config.lock.describe()
@@ -126,6 +126,8 @@ class LeaderElector:
                     self._maybe_report_transition()
                 await asyncio.sleep(self._config.retry_period)
         finally:
+            # The lock is given up only after the leader was told to stop.
+            leading_task.cancel()
             if self._config.release_on_cancel:
                 await self._release()
 
-- 
2.43.0


From 42f430f0669df41025db35f7e7212998957ff568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 33/45] fix: a lock object without a leader election record can
 be acquired

---
 aiok8s/leaderelection/leaderelection.py | 2 +-
 aiok8s/leaderelection/resourcelock.py   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 69bd40d..806d461 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -204,7 +204,7 @@ class LeaderElector:
             ]
         else:
             leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+                old_leader_election_record.get("leaderTransitions", 0) + 1
             )
 
         try:
diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 5943bba..9003adf 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -54,7 +54,8 @@ class ConfigMapLock:
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
         )
-        record = raw_record and json.loads(raw_record)
+        # A lock object without a record exists, but is not held.
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
@@ -74,6 +75,8 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
+        if self._cm.metadata.annotations is None:
+            self._cm.metadata.annotations = {}
         self._cm.metadata.annotations[
             LEADER_ELECTION_RECORD_ANNOTATION_KEY
         ] = raw_record
-- 
2.43.0


From 75b261228b257a3afe99438e6086a7397be22d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 34/45] fix: a lock is released even if a renewal was cut off
 by the cancellation

---
 aiok8s/leaderelection/leaderelection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 806d461..f490312 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -138,6 +138,10 @@ class LeaderElector:
             "leaderTransitions": self._observed_record["leaderTransitions"]
         }
         try:
+            # A renewal that was cancelled may have changed the lock object.
+            record, _ = await self._config.lock.get()
+            if not record or record.get("holderIdentity") != self._config.lock.identity():
+                return True
             await self._config.lock.update(leader_election_record)
         except asyncio.CancelledError:
             raise
-- 
2.43.0


From 3447ac2e30777c606ef6f7e2f1756fb0de0ff143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 35/45] fix: resync the informers of a cache about once per
 configured period

The random factor was multiplied instead of added, so that the period was
between 0 and 0.18 times the configured one (and none at all for 0).
---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index fcd06a3..ae04089 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -115,7 +115,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From 7837d3ef557aea8336ec6531897185ed0995f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 36/45] fix: cancelling a read of a fake watcher lost the next
 event

The abandoned read still took the event, and who sent it waited for ever.
---
 aiok8s/watch/watch.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index ebe0b4d..fcbd101 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import logging
 
 logger = logging.getLogger(__name__)
@@ -32,16 +33,25 @@ class FakeWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
         self._mutex = asyncio.Lock()
+        self._unclaimed = collections.deque()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        # A read that was cancelled leaves its event to the next one.
+        if self._unclaimed:
+            event = self._unclaimed.popleft()
+        else:
+            event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                self._unclaimed.append(event)
+                raise
             if event in done:
                 self._result.task_done()
                 return await event
@@ -67,6 +77,8 @@ class FakeWatcher:
             self._stopped.clear()
             self._task = asyncio.ensure_future(self._stopped.wait())
             self._result = asyncio.Queue()
+            while self._unclaimed:
+                self._unclaimed.popleft().cancel()
 
     async def add(self, obj):
         await self.action(EventType.ADDED, obj)
-- 
2.43.0


From ad28db79e5d7a7643d0840d93a6b4ff5152de787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 37/45] fix: A failed change that is retried isn't replaced by
 a resync

---
 aiok8s/cache/controller.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b2ddc0b..9466f24 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -76,14 +76,25 @@ class _Controller:
         return self._reflector.last_sync_resource_version() if self._reflector else ""
 
     async def _process_loop(self):
+        process = self._config.process
+        if self._config.retry_on_error:
+            process = self._process_or_requeue
         while True:
             try:
-                await self._config.queue.pop(self._config.process)
+                await self._config.queue.pop(process)
             except fifo.FIFOClosedError:
                 return
-            except fifo.ProcessError as e:
-                if self._config.retry_on_error:
-                    await self._config.queue.add_if_not_present(e.item)
+            except fifo.ProcessError:
+                pass
+
+    async def _process_or_requeue(self, item):
+        try:
+            await self._config.process(item)
+        except fifo.RequeueError:
+            raise
+        except Exception as e:
+            # Has the queue add it again before a resync can take its place.
+            raise fifo.RequeueError from e
 
 
 class ResourceEventHandlerFuncs(NamedTuple):
-- 
2.43.0


From 4445433dc7d411a0ad456b8a4607af29123c05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 38/45] fix: Stop everything a manager started when a part of
 it fails

The start call raised the error but left the informers, the controllers and
the other runnables running.
---
 aiok8s/controller/manager.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 887c8fe..ee25fb0 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -47,13 +47,17 @@ class _ControllerManager:
         return self._cache
 
     async def _start_non_leader_election_runnables(self):
-        async with self._mutex:
-            task = await self._wait_for_cache()
-            aws = [
-                asyncio.ensure_future(controller.start())
-                for controller in self._non_leader_election_runnables
-            ]
-        await asyncio.gather(task, *aws)
+        tasks = []
+        try:
+            async with self._mutex:
+                tasks.append(await self._wait_for_cache())
+                for controller in self._non_leader_election_runnables:
+                    tasks.append(asyncio.ensure_future(controller.start()))
+            await asyncio.gather(*tasks)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     async def _wait_for_cache(self):
         if self._started:
-- 
2.43.0


From dedfdd5646025045c70052560c66bf88dd574068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 39/45] fix: Go on with resyncs after a gate that raises

---
 aiok8s/cache/reflector.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 8b10ae5..080d754 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -68,15 +68,15 @@ class Reflector:
             try:
                 while True:
                     await resync_queue.get()
-                    if self.should_resync is None or self.should_resync():
-                        logger.debug("forcing resync")
-                        try:
+                    try:
+                        if self.should_resync is None or self.should_resync():
+                            logger.debug("forcing resync")
                             await self._store.resync()
-                        except asyncio.CancelledError:
-                            raise
-                        except Exception as e:
-                            await resync_error_queue.put(e)
-                            return
+                    except asyncio.CancelledError:
+                        raise
+                    except Exception as e:
+                        await resync_error_queue.put(e)
+                        return
                     cleanup()
                     resync_queue, cleanup = self._resync_queue()
             finally:
-- 
2.43.0


From 58f6bd8530b49171f17079ad4e6fa35acc81014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:38 +0000
Subject: [PATCH 40/45] fix: Wait for all that a manager runs, cancelling it
 once

---
 aiok8s/controller/_informers_map.py | 9 ++++++---
 aiok8s/controller/controller.py     | 8 +++++++-
 aiok8s/controller/manager.py        | 5 ++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ae04089..ffdc597 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -47,12 +47,15 @@ class _SpecificInformersMap:
         # Doesn't end without informers, as some may be added while it runs.
         aws.append(asyncio.get_event_loop().create_future())
         try:
-            await asyncio.gather(*aws)
+            done, _ = await asyncio.wait(aws, return_when=asyncio.FIRST_EXCEPTION)
+            for task in done:
+                task.result()
         finally:
             self._stopped = True
-            for task in self._late_tasks:
+            tasks = [*aws, *self._late_tasks]
+            for task in tasks:
                 task.cancel()
-            await asyncio.gather(*self._late_tasks, return_exceptions=True)
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     def has_synced_funcs(self):
         return [
diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index e2e48a7..d0a3bab 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -55,6 +55,7 @@ class _Controller:
 
     async def start(self):
         self.queue = self.make_queue()
+        aws = []
         try:
             async with self._mutex:
                 for watch in self._watches:
@@ -75,8 +76,13 @@ class _Controller:
                     for _ in range(self.max_concurrent_reconciles)
                 ]
 
-            await asyncio.gather(*aws)
+            done, _ = await asyncio.wait(aws, return_when=asyncio.FIRST_EXCEPTION)
+            for task in done:
+                task.result()
         finally:
+            for task in aws:
+                task.cancel()
+            await asyncio.gather(*aws, return_exceptions=True)
             await self.queue.shut_down()
 
     def inject_func(self, f):
diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index ee25fb0..700321d 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -53,7 +53,10 @@ class _ControllerManager:
                 tasks.append(await self._wait_for_cache())
                 for controller in self._non_leader_election_runnables:
                     tasks.append(asyncio.ensure_future(controller.start()))
-            await asyncio.gather(*tasks)
+            # Unlike `gather`, this leaves the cancelling to what follows.
+            done, _ = await asyncio.wait(tasks, return_when=asyncio.FIRST_EXCEPTION)
+            for task in done:
+                task.result()
         finally:
             for task in tasks:
                 task.cancel()
-- 
2.43.0


From 4e06dd50ee725fe65ab1557a975c908fef24bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 41/45] fix: Stop the timers and waits of periodic loops that
 end

---
 aiok8s/util/wait.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index f912b81..c682969 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -35,11 +35,19 @@ async def jitter_loop(f, period, jitter_factor, sliding):
         if not sliding:
             # TODO: Reuse
             t = _time.Timer(jittered_period)
-        await f()
+        try:
+            await f()
+        except BaseException:
+            if not sliding:
+                t.stop()
+            raise
         if sliding:
             t = _time.Timer(jittered_period)
 
-        await t.c.get()
+        try:
+            await t.c.get()
+        finally:
+            t.stop()
 
 
 async def until(f, period, stop_event):
@@ -47,7 +55,6 @@ async def until(f, period, stop_event):
 
 
 async def jitter_until(f, period, jitter_factor, sliding, stop_event):
-    stop_task = asyncio.ensure_future(stop_event.wait())
     while not stop_event.is_set():
         if jitter_factor > 0:
             jittered_period = jitter(period, jitter_factor)
@@ -56,13 +63,25 @@ async def jitter_until(f, period, jitter_factor, sliding, stop_event):
         if not sliding:
             # TODO: Reuse
             t = _time.Timer(jittered_period)
-        await f()
+        try:
+            await f()
+        except BaseException:
+            if not sliding:
+                t.stop()
+            raise
         if sliding:
             t = _time.Timer(jittered_period)
 
         timer_task = asyncio.ensure_future(t.c.get())
-        await asyncio.wait([timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED)
-        timer_task.cancel()
+        stop_task = asyncio.ensure_future(stop_event.wait())
+        try:
+            await asyncio.wait(
+                [timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED
+            )
+        finally:
+            timer_task.cancel()
+            stop_task.cancel()
+            t.stop()
 
 
 def jitter(duration, max_factor):
-- 
2.43.0


From 46f41d6f7744538bac7f8fad492dcc1ca67f1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 42/45] fix: Leave no timers or additions of a delaying queue
 behind

---
 aiok8s/workqueue/delaying_queue.py | 33 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..e2145b9 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -41,20 +41,20 @@ class _DelayingType(queue.Type):
             await self.add(item)
             return
 
-        _, pending = await asyncio.wait(
-            [
-                asyncio.ensure_future(self._stop_event.wait()),
-                asyncio.ensure_future(
-                    self._waiting_for_add_queue.put(
-                        _WaitFor(data=item, ready_at=self._clock.now() + duration)
-                    )
-                ),
-            ],
-            return_when=asyncio.FIRST_COMPLETED,
-        )
-        for task in pending:
-            task.cancel()
-            await asyncio.gather(task, return_exceptions=True)
+        tasks = [
+            asyncio.ensure_future(self._stop_event.wait()),
+            asyncio.ensure_future(
+                self._waiting_for_add_queue.put(
+                    _WaitFor(data=item, ready_at=self._clock.now() + duration)
+                )
+            ),
+        ]
+        try:
+            await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     async def shut_down(self):
         if not self._stop_event.is_set():
@@ -99,7 +99,7 @@ class _DelayingType(queue.Type):
                 task.cancel()
             await asyncio.gather(*pending, return_exceptions=True)
             if self._stop_event.is_set():
-                return
+                break
             if wait_task in done:
                 wait_entry = await wait_task
                 if wait_entry.ready_at > self._clock.now():
@@ -114,6 +114,9 @@ class _DelayingType(queue.Type):
                     else:
                         await self.add(wait_entry.data)
 
+        if next_ready_at_timer:
+            next_ready_at_timer.stop()
+
 
 class _WaitFor(NamedTuple):
     data: Hashable
-- 
2.43.0


From 1db4d6f764df5ba2f388ffdc7c9e61acab12ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 43/45] fix: End the reads in progress of a watcher that is
 stopped

---
 aiok8s/watch/mux.py   | 22 ++++++++++++++++++----
 aiok8s/watch/watch.py | 12 +++++++++++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 733535e..4c6ccd9 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -99,12 +99,12 @@ class Broadcaster:
         async with self._lock:
             w = self._watchers.pop(id_, None)
             if w:
-                w._stopped.set()
+                w._end()
 
     async def _close_all(self):
         async with self._lock:
             for w in self._watchers.values():
-                w._stopped.set()
+                w._end()
             self._watchers = {}
 
     async def _loop(self):
@@ -174,15 +174,23 @@ class _BroadcasterWatcher:
                     [event, self._task], return_when=asyncio.FIRST_COMPLETED
                 )
             except asyncio.CancelledError:
-                self._unclaimed.append(event)
+                self._leave(event)
                 raise
             if event in done:
                 if not self._result.maxsize:
                     self._result.task_done()
                 return await event
             if self._stopped.is_set():
+                event.cancel()
                 raise StopAsyncIteration
 
+    def _leave(self, event):
+        # Once stopped, only the reads that got an event are still of use.
+        if self._stopped.is_set() and not event.done():
+            event.cancel()
+        else:
+            self._unclaimed.append(event)
+
     async def __aenter__(self):
         return self
 
@@ -191,9 +199,15 @@ class _BroadcasterWatcher:
 
     async def stop(self):
         if not self._stopped.is_set():
-            self._stopped.set()
+            self._end()
             await self._m._stop_watching(self._id)
 
+    def _end(self):
+        self._stopped.set()
+        unclaimed, self._unclaimed = self._unclaimed, collections.deque()
+        for event in unclaimed:
+            self._leave(event)
+
     async def _put(self, item):
         await self._result.put(item)
         if not self._result.maxsize:
diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index fcbd101..1b7525f 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -50,7 +50,7 @@ class FakeWatcher:
                     [event, self._task], return_when=asyncio.FIRST_COMPLETED
                 )
             except asyncio.CancelledError:
-                self._unclaimed.append(event)
+                self._leave(event)
                 raise
             if event in done:
                 self._result.task_done()
@@ -59,6 +59,13 @@ class FakeWatcher:
                 event.cancel()
                 raise StopAsyncIteration
 
+    def _leave(self, event):
+        # Once stopped, only the reads that got an event are still of use.
+        if self._stopped.is_set() and not event.done():
+            event.cancel()
+        else:
+            self._unclaimed.append(event)
+
     async def __aenter__(self):
         return self
 
@@ -68,6 +75,9 @@ class FakeWatcher:
     async def stop(self):
         logger.debug("Stopping fake watcher.")
         self._stopped.set()
+        unclaimed, self._unclaimed = self._unclaimed, collections.deque()
+        for event in unclaimed:
+            self._leave(event)
 
     def is_stopped(self):
         return self._stopped.is_set()
-- 
2.43.0


From 7edf65ea79b54419473c1b2b974d66378182d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 44/45] fix: Undo the registration of a watcher that is
 cancelled

---
 aiok8s/watch/mux.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 4c6ccd9..8cb51a5 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -50,7 +50,12 @@ class Broadcaster:
                 )
                 self._watchers[id_] = w
 
-        await self._block_queue(f)
+        try:
+            await self._block_queue(f)
+        except asyncio.CancelledError:
+            if w:
+                await w.stop()
+            raise
         return w
 
     async def watch_with_prefix(self, queued_events):
@@ -68,7 +73,12 @@ class Broadcaster:
                 for e in queued_events:
                     await w._put(e)
 
-        await self._block_queue(f)
+        try:
+            await self._block_queue(f)
+        except asyncio.CancelledError:
+            if w:
+                await w.stop()
+            raise
         return w
 
     async def action(self, action, obj):
@@ -80,10 +90,14 @@ class Broadcaster:
 
     async def _block_queue(self, f):
         event = asyncio.Event()
+        started = abandoned = False
 
         async def func():
+            nonlocal started
+            started = True
             try:
-                await f()
+                if not abandoned:
+                    await f()
             finally:
                 event.set()
 
@@ -93,7 +107,13 @@ class Broadcaster:
                 "object": _FunctionFakeRuntimeObject(func),
             }
         )
-        await event.wait()
+        try:
+            await event.wait()
+        except asyncio.CancelledError:
+            abandoned = True
+            if started:
+                await event.wait()
+            raise
 
     async def _stop_watching(self, id_):
         async with self._lock:
-- 
2.43.0


From 2c6372562e0b3c7ccef09c110f53020ef35d343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:13 +0000
Subject: [PATCH 45/45] fix: Do not share the indexers of a store with its
 creator

---
 aiok8s/cache/thread_safe_store.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 38fb932..72f7671 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -26,7 +26,8 @@ class _ThreadSafeMap:
     def __init__(self, indexers, indices):
         self._lock = asyncio.Lock()
         self._items = {}
-        self._indexers = indexers
+        # Indexers that are added later are no one else's.
+        self._indexers = _index.Indexers(indexers)
         self._indices = indices
 
     async def add(self, key, obj):
-- 
2.43.0

