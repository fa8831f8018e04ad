from mk import bug

bug("C01-index-duplicates", "C01", [("cache/thread_safe_store.py",
"""                return_key_set = {
                    key
                    for index_key in index_keys
                    for key in index.get(index_key, set())
                }
""", """                return_key_set = [
                    key
                    for index_key in index_keys
                    for key in index.get(index_key, set())
                ]
""")], "an index function that yields several values, two of which one stored object carries",
"index() returns an object once per matching value instead of once", '''
from aiok8s.cache import index, store


async def main():
    s = store.new_indexer(lambda o: o["id"], index.Indexers({"tags": lambda o: o["tags"]}))
    await s.add({"id": "a", "tags": ["x", "y"]})
    await s.add({"id": "b", "tags": ["y"]})
    got = await s.index("tags", {"id": "q", "tags": ["x", "y"]})
    assert sorted(o["id"] for o in got) == ["a", "b"], got
''')

bug("C01-index-keeps-old-values", "C01", [("cache/thread_safe_store.py",
"""            old_object = self._items.get(key)
            self._items[key] = obj
            self._update_indices(old_object, obj, key)

    async def update(""", """            old_object = self._items.pop(key, None)
            self._update_indices(old_object, obj, key)
            self._items[key] = obj

    async def update("""),
("cache/thread_safe_store.py", """        if old_obj is not None:
            self._delete_from_indices(old_obj, key)
""", """        if self._items.get(key) is not None and old_obj is not None:
            self._delete_from_indices(old_obj, key)
""")], "an add (not an update) of a key that is stored with another index value",
"the old value keeps listing the object in index queries", '''
from aiok8s.cache import index, store


async def main():
    s = store.new_indexer(lambda o: o["id"], index.Indexers({"tag": lambda o: [o["tag"]]}))
    await s.add({"id": "a", "tag": "x"})
    await s.add({"id": "a", "tag": "y"})
    assert await s.by_index("tag", "x") == []
    assert await s.list_index_func_values("tag") == ["y"]
''')

bug("C02-closed-queue-not-drained", "C02", [("cache/fifo.py",
"""                while not self._queue:
                    if self.is_closed():
                        raise FIFOClosedError
                    await self._cond.wait()
                id_""", """                while not self._queue:
                    if self.is_closed():
                        raise FIFOClosedError
                    await self._cond.wait()
                    if self.is_closed():
                        raise FIFOClosedError
                id_""")], "a pop that waits while an item is added and the queue is closed before it wakes up",
"the waiting pop reports closure although an item is queued", '''
from aiok8s.cache import fifo


async def main():
    f = fifo.FIFO(lambda o: o[0])
    t = asyncio.ensure_future(f.pop(lambda o: None))
    await settle()
    await f.add(("a", 1))
    await f.close()
    assert await t == ("a", 1)
''')

bug("C02-requeue-overrides", "C02", [("cache/fifo.py",
"""    def _add_if_not_present(self, id_, obj):
        self._populated = True
        if id_ in self._items:
            return
        self._queue.append(id_)
""", """    def _add_if_not_present(self, id_, obj):
        self._populated = True
        if self._items.get(id_):
            return
        self._queue.append(id_)
""")], "adding-if-absent over a waiting object that is falsy (an empty dict or tuple, 0)",
"the waiting object is overridden and its key queued twice", '''
from aiok8s.cache import fifo


class Obj(dict):
    pass


async def main():
    f = fifo.FIFO(lambda o: "k")
    first = Obj()
    await f.add(first)
    await f.add_if_not_present(Obj(x=1))
    got = await f.pop(lambda o: None)
    assert got is first, got
''')

bug("C02-replace-keeps-queue-order", "C02", [("cache/fifo.py",
"""            self._items = items
            self._queue = list(items)
""", """            self._items = items
            queued = set(self._queue)
            self._queue = self._queue + [id_ for id_ in items if id_ not in queued]
""")], "a key that is deleted, or missing from a replacement, and added again while its old queue entry remains",
"a key that was replaced away and is added again keeps its old place in the queue", '''
from aiok8s.cache import fifo


async def main():
    f = fifo.FIFO(lambda o: o[0])
    await f.add(("a", 1))
    await f.add(("b", 1))
    await f.replace([("b", 2)], "1")
    await f.add(("a", 2))
    got = [await f.pop(lambda o: None), await f.pop(lambda o: None)]
    assert got == [("b", 2), ("a", 2)], got
''')

bug("C03-copied-lists-shared", "C03", [("cache/delta_fifo.py",
"        new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])\n",
"        new_deltas = self._items.get(id_, Deltas())\n        new_deltas.append(Delta(action_type, obj))\n"),
("cache/delta_fifo.py", """        if new_deltas:
            if id_ not in self._items:
                self._queue.append(id_)
            self._items[id_] = new_deltas
""", """        if new_deltas:
            if id_ not in self._items:
                self._queue.append(id_)
            self._items[id_] = new_deltas
"""),
("cache/delta_fifo.py", "    return Deltas(d)\n", "    return d\n")],
"a read of a waiting key whose result is kept while another change of it is queued",
"what the read returned changes later", '''
from aiok8s.cache import delta_fifo


async def main():
    f = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"])
    await f.add(obj("a"))
    seen = f.get_by_key("a")
    before = list(seen)
    await f.update(obj("a", "2"))
    assert list(seen) == before, seen
''')

bug("C04-relist-forgets-pending-only", "C04", [("cache/delta_fifo.py",
"""                if k in keys:
                    continue
""", """                if k in keys or self._known_objects and k not in self._known_objects.list_keys():
                    continue
""")], "an object that is added and, before it is handed out, found missing by a relist",
"the object stays in the store after the relist is applied", '''
from aiok8s.cache import delta_fifo, store


async def main():
    s = store.new_store(lambda o: o.key if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else o["metadata"]["name"])
    f = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"], s)

    async def process(ds):
        for d in ds:
            if d.type is delta_fifo.DeltaType.DELETED:
                await s.delete(d.object)
            else:
                await s.add(d.object)

    await s.add(obj("keep"))
    await f.add(obj("a"))
    await f.replace([obj("keep")], "5")
    while f.list_keys():
        await f.pop(process)
    assert s.list_keys() == ["keep"], s.list_keys()
''')

bug("C05-update-does-not-populate", "C05", [("cache/delta_fifo.py",
"""        async with self._cond:
            self._populated = True
            return self._queue_action_locked(DeltaType.UPDATED, obj)
""", """        async with self._cond:
            return self._queue_action_locked(DeltaType.UPDATED, obj)
""")], "an update as the first change of the queue, followed by a replacement",
"the queue is not synced after its first change", '''
from aiok8s.cache import delta_fifo


async def main():
    f = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"])
    await f.update(obj("a"))
    assert f.has_synced()
''')

bug("C05-fifo-delete-shrinks-initial-count", "C05", [("cache/fifo.py",
"""                if self._initial_population_count:
                    self._initial_population_count -= 1
                if id_ not in self._items:
                    continue
                item = self._items.pop(id_)
""", """                if id_ not in self._items:
                    continue
                item = self._items.pop(id_)
                if self._initial_population_count:
                    self._initial_population_count -= 1
""")], "an item of the initial list that is deleted before it is handed out",
"the queue never reports synced although it was drained", '''
from aiok8s.cache import fifo


async def main():
    f = fifo.FIFO(lambda o: o[0])
    await f.replace([("a", 1), ("b", 1)], "1")
    await f.delete(("b", 1))
    await f.pop(lambda o: None)
    t = asyncio.ensure_future(f.pop(lambda o: None))
    await settle()
    assert f.has_synced()
    await cancel(t)
''')

bug("C06-close-wakes-one", "C06", [("cache/delta_fifo.py",
"""            self._closed = True
            self._cond.notify_all()
""", """            self._closed = True
            self._cond.notify()
""")], "a close while two consumers are waiting", "the second consumer waits forever", '''
from aiok8s.cache import delta_fifo, fifo


async def main():
    f = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"])

    async def process(d):
        pass

    ts = [asyncio.ensure_future(f.pop(process)) for _ in range(2)]
    await settle()
    await f.close()
    await settle()
    assert all(t.done() for t in ts)
    for t in ts:
        assert isinstance(t.exception(), fifo.FIFOClosedError)
''')

bug("C06-replace-wakes-one", "C06", [("cache/fifo.py",
"""            if self._queue:
                self._cond.notify_all()

    async def pop(""", """            if len(self._queue) == 1:
                self._cond.notify_all()

    async def pop("""),
("cache/fifo.py", """            self._queue = list(items)
            if self._queue:
                self._cond.notify_all()
""", """            self._queue = list(items)
            if self._queue:
                self._cond.notify()
""")], "two consumers waiting when a replacement brings two items",
"the second consumer keeps waiting although an item is queued", '''
from aiok8s.cache import fifo


async def main():
    f = fifo.FIFO(lambda o: o[0])
    ts = [asyncio.ensure_future(f.pop(lambda o: None)) for _ in range(2)]
    await settle()
    await f.replace([("a", 1), ("b", 1)], "1")
    await settle()
    assert all(t.done() for t in ts)
''')

bug("W01-done-jumps-queue", "W01", [("workqueue/queue.py",
"""            if item in self._dirty:
                self._queue.append(item)
""", """            if item in self._dirty:
                self._queue.appendleft(item)
""")], "an item that is added again while it is processed, with another item waiting when it is done",
"the item overtakes items that became available before", '''
from aiok8s.workqueue import queue


async def main():
    q = queue.new()
    await q.add("a")
    await q.get()
    await q.add("b")
    await q.add("a")
    await q.done("a")
    assert await q.get() == ("b", False)
''')

bug("W01-readd-while-processing", "W01", [("workqueue/queue.py",
"""            if item in self._processing:
                return
            self._queue.append(item)
""", """            if item in self._processing and len(self._processing) == 1:
                return
            self._queue.append(item)
""")], "an item that is added while it and another item are being processed",
"two workers process the item at the same time", '''
from aiok8s.workqueue import queue


async def main():
    q = queue.new()
    await q.add("a")
    await q.add("b")
    await q.get()
    await q.get()
    await q.add("a")
    t = asyncio.ensure_future(q.get())
    await settle()
    assert not t.done()
    await cancel(t)
''')

bug("W02-done-without-notify", "W02", [("workqueue/queue.py",
"""                self._queue.append(item)
                self._cond.notify()

    async def shut_down""", """                self._queue.append(item)
                if self._shutting_down:
                    self._cond.notify()

    async def shut_down""")], "an item re-added while it is processed and marked done while another worker waits",
"the waiting worker is not woken", '''
from aiok8s.workqueue import queue


async def main():
    q = queue.new()
    await q.add("a")
    await q.get()
    t = asyncio.ensure_future(q.get())
    await settle()
    await q.add("a")
    await q.done("a")
    await settle()
    assert t.done()
''')

bug("W02-shutdown-drops-dirty", "W02", [("workqueue/queue.py",
"""            if item in self._dirty:
                self._queue.append(item)
                self._cond.notify()
""", """            if item in self._dirty and not self._shutting_down:
                self._queue.append(item)
                self._cond.notify()
""")], "a shutdown while an item that was added again is processed", "the dirty item is never handed out", '''
from aiok8s.workqueue import queue


async def main():
    q = queue.new()
    await q.add("a")
    await q.get()
    await q.add("a")
    await q.shut_down()
    await q.done("a")
    assert await q.get() == ("a", False)
    assert await q.get() == (None, True)
''')

bug("W04-clock-set-back", "W04", [("workqueue/default_rate_limiters.py",
"        last = min(self._last, now)\n", "        last = self._last\n")], "the system clock being set back between two calls",
"the bucket loses tokens for the time set back, so delays grow by it", '''
from aiok8s.workqueue import default_rate_limiters


async def main():
    now = [1_000_000.0]
    time.time = lambda: now[0]
    b = default_rate_limiters.BucketRateLimiter(10, 5)
    b.when("a")
    now[0] -= 100
    assert b.when("a") == 0
''')

bug("W04-negative-exponent-cap", "W04", [("workqueue/default_rate_limiters.py",
"        exp = self._failures[item]\n        self._failures[item] += 1\n",
"        exp = self._failures[item]\n        if self._base_delay * 2 ** min(exp, 60) < self._max_delay:\n            self._failures[item] += 1\n")],
"more failures than it takes to reach the maximum delay", "num_requeues stops counting at the cap", '''
from aiok8s.workqueue import default_rate_limiters as d


async def main():
    a = d.ItemExponentialFailureRateLimiter(1, 4)
    for _ in range(6):
        a.when("x")
    assert a.num_requeues("x") == 6
''')

bug("W05-dirty-items-skipped", "W05", [("workqueue/rate_limiting_queue.py",
"        await self.add_after(item, self._rate_limiter.when(item))\n",
"        if item in self._dirty:\n            return\n        await self.add_after(item, self._rate_limiter.when(item))\n")],
"a rate-limited addition of an item that is already queued", "its limiter is not consulted, so counts and delays are wrong", '''
from aiok8s.workqueue import rate_limiting_queue


async def main():
    q = rate_limiting_queue.new()
    await q.add("a")
    await q.add_rate_limited("a")
    assert q.num_requeues("a") == 1
''')

bug("U01-jitter-compounds", "U01", [("util/wait.py",
"""        duration = self.duration
        if self.factor:
            self.duration = self.duration * self.factor
""", """        duration = self.duration
        if self.jitter:
            duration = self.duration = jitter(duration, self.jitter)
        if self.factor:
            self.duration = self.duration * self.factor
"""), ("util/wait.py", """        if self.jitter:
            duration = jitter(duration, self.jitter)
        return duration
""", """        return duration
""")], "several steps of a backoff with jitter", "the jitter of one step stretches all later ones", '''
import random

from aiok8s.util import wait


async def main():
    random.random = lambda: 0.999
    b = wait.Backoff(steps=5, duration=1, factor=1, jitter=0.5)
    for _ in range(4):
        d = b.step()
        assert 1 <= d <= 1.5, d
''')

bug("U02-non-sliding-sleeps-full", "U02", [("util/wait.py",
"""        if sliding:
            t = _time.Timer(jittered_period)

        timer_task""", """        if sliding or not t.c.empty():
            t = _time.Timer(jittered_period)

        timer_task""")], "a non-sliding stoppable loop whose function takes longer than the period",
"the next run waits another period after an overrun", '''
from aiok8s.util import wait


async def main():
    e = asyncio.Event()
    starts = []

    async def f():
        starts.append(time.time())
        await asyncio.sleep(1.5)
        if len(starts) == 3:
            e.set()

    await wait.jitter_until(f, 1, 0, False, e)
    assert starts[1] - starts[0] < 1.6, starts
''')

bug("U03-slow-poll-catches-up", "U03", [("util/wait.py",
"""    while True:
        await asyncio.sleep(interval)
        if await condition():
            return


# TODO: test, rewrite?
async def poll_immediate_infinite""", """    loop = asyncio.get_event_loop()
    due = loop.time()
    while True:
        due += interval
        await asyncio.sleep(due - loop.time())
        if await condition():
            return


# TODO: test, rewrite?
async def poll_immediate_infinite""")], "a condition whose check takes longer than the interval",
"later checks run in a burst without waiting the interval", '''
from aiok8s.util import wait


async def main():
    times = []

    async def condition():
        times.append(time.time())
        if len(times) == 1:
            await asyncio.sleep(5)
        return len(times) > 3

    await wait.poll_infinite(1, condition)
    gaps = [b - a for a, b in zip(times[1:], times[2:])]
    assert min(gaps) > 0.99, gaps
''')

bug("U04-ticker-single-advance", "U04", [("util/clock.py",
"""                    while w._target_time <= t:
                        w._target_time += w._step_interval
""", """                    w._target_time += w._step_interval
""")], "a fake clock that is stepped over more than one period of a ticker",
"the ticker fires again before the next period has passed", '''
from aiok8s.util import clock


async def main():
    c = clock.FakeClock(0)
    t = c.new_ticker(1)
    await c.step(3.5)
    t.c().get_nowait()
    await c.step(0.1)
    assert t.c().empty()
''')

bug("U04-stop-compares-time", "U04", [("util/clock.py",
"""        for w in old_waiters:
            if w._dest_queue is seek_queue:
                stopped = True
""", """        for w in old_waiters:
            if not stopped and w._target_time == self._waiter._target_time:
                stopped = True
""")], "two fake timers with the same deadline, the later created one stopped",
"stopping one timer stops the other", '''
from aiok8s.util import clock


async def main():
    c = clock.FakeClock(0)
    a, b = c.new_timer(1), c.new_timer(1)
    assert b.stop()
    await c.step(1)
    assert b.c().empty()
    assert not a.c().empty()
''')

bug("W03-ready-entry-dropped", "W03", [("workqueue/delaying_queue.py",
"""                        waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
                    else:
                        await self.add(wait_entry.data)

        if next""", """                        waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)

        if next""")], "two delayed additions that the waiting loop only sees after the deadline of the second has passed",
"the second addition is lost", '''
from aiok8s.util import clock
from aiok8s.workqueue import delaying_queue


async def main():
    c = clock.FakeClock(0)
    q = delaying_queue._DelayingType(c)
    await settle()
    jobs = [asyncio.ensure_future(q.add_after(k, 1)) for k in "ab"]
    await asyncio.sleep(0)
    jobs.append(asyncio.ensure_future(c.step(2)))
    await asyncio.gather(*jobs)
    await settle()
    for _ in range(3):
        await c.step(20)
        await settle()
    assert len(q) == 2, len(q)
''')

bug("C03-adjacent-syncs-collapse", "C03", [("cache/delta_fifo.py",
"""    if b.type is not DeltaType.DELETED or a.type is not DeltaType.DELETED:
        return None
""", """    if a.type is not b.type or a.type not in (DeltaType.DELETED, DeltaType.SYNC):
        return None
    if a.type is DeltaType.SYNC:
        return a
""")], "two relists before a waiting key is handed out", "the change recorded by the first relist is not handed out", '''
from aiok8s.cache import delta_fifo


async def main():
    f = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"])
    await f.replace([obj("a", "1")], "1")
    await f.replace([obj("a", "2")], "2")
    got = []

    async def process(d):
        got.extend(d)

    await f.pop(process)
    assert [d.object["metadata"]["resourceVersion"] for d in got] == ["1", "2"], got
''')

bug("C03-tombstone-never-replaced", "C03", [("cache/delta_fifo.py",
"""    if isinstance(b.object, DeletedFinalStateUnknown):
        return a
    return b
""", """    return b
""")], "a tombstone followed by a real deletion of the key before it is popped",
"the collapsed deletion carries the tombstone instead of the real object", '''
from aiok8s.cache import delta_fifo


async def main():
    f = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"])
    await f.add(obj("a"))
    await f.replace([], "3")
    last = obj("a", "2")
    await f.delete(last)
    got = []

    async def process(d):
        got.extend(d)

    await f.pop(process)
    assert [d.object for d in got] == [obj("a"), last], got
''')

bug("U02-loop-period-from-end", "U02", [("util/wait.py",
"""        if not sliding:
            # TODO: Reuse
            t = _time.Timer(jittered_period)
        try:
            await f()
        except BaseException:
            if not sliding:
                t.stop()
            raise
        if sliding:
            t = _time.Timer(jittered_period)

        try:
            await t.c.get()
""", """        if not sliding:
            # TODO: Reuse
            t = _time.Timer(jittered_period)
        try:
            await f()
        except BaseException:
            if not sliding:
                t.stop()
            raise
        if sliding or t.c.empty():
            t.stop() if not sliding else None
            t = _time.Timer(jittered_period)

        try:
            await t.c.get()
""")], "a non-sliding loop (without a stop event) whose function takes time", "the period is counted from the end of the function", '''
from aiok8s.util import wait


async def main():
    starts = []

    async def f():
        starts.append(time.time())
        await asyncio.sleep(0.5)

    t = asyncio.ensure_future(wait.jitter_loop(f, 1, 0, False))
    await asyncio.sleep(5)
    await cancel(t)
    assert starts[2] - starts[1] < 1.2, starts
''')

bug("W04-max-stops-early", "W04", [("workqueue/default_rate_limiters.py",
"        return max(map(operator.methodcaller(\"when\", item), self._limiters))\n",
"        delay = 0\n        for limiter in self._limiters:\n            delay = max(delay, limiter.when(item))\n            if delay >= 1000:\n                # Long enough.\n                break\n        return delay\n")],
"a part of a combined limiter that answers a very long delay", "the parts after it are not informed and do not count", '''
from aiok8s.workqueue import default_rate_limiters as d


async def main():
    a, b = d.ItemExponentialFailureRateLimiter(1000, 100000), d.ItemExponentialFailureRateLimiter(5000, 100000)
    both = d._MaxOfRateLimiters(a, b)
    assert both.when("x") == 5000
''')

bug("W05-forget-ignored-while-processing", "W05", [("workqueue/rate_limiting_queue.py",
"        self._rate_limiter.forget(item)\n", "        if item not in self._processing:\n            self._rate_limiter.forget(item)\n")],
"a forget of an item that is being processed", "the delay and the requeue count are not reset", '''
from aiok8s.workqueue import rate_limiting_queue


async def main():
    q = rate_limiting_queue.new()
    await q.add_rate_limited("a")
    await q.get()
    q.forget("a")
    assert q.num_requeues("a") == 0
''')
