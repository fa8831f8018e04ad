from mk import bug
import re, os
_H = os.path.dirname(os.path.abspath(__file__))
_N = {}
for _f in ("b2.py", "b3.py"):
    for _m in re.finditer(r"^([A-Z]+) = '''(.*?)'''", open(os.path.join(_H, _f)).read(), re.M | re.S):
        _N[_m[1]] = _m[2]
INF, MUX, REFL, K, L = (_N[x] for x in ("INF", "MUX", "REFL", "K", "L"))

DELTA = '''
from aiok8s.cache import delta_fifo, store


def name(o):
    return o.key if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else o["metadata"]["name"]


def pair(**kw):
    s = store.new_store(name)
    return s, delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"], s)


async def drain(s, f):
    async def process(ds):
        for d in ds:
            if d.type is delta_fifo.DeltaType.DELETED:
                await s.delete(d.object)
            else:
                await s.add(d.object)

    while f.list_keys():
        await f.pop(process)

'''
bug("I04-late-handler-early", "I04", [("cache/shared_informer.py",
"                _determine_resync_period(resync_period, self._resync_check_period),\n                self._clock.now(),\n",
"                _determine_resync_period(resync_period, self._resync_check_period),\n                self._created,\n"),
("cache/shared_informer.py", "        self._clock = real_clock\n", "        self._clock = real_clock\n        self._created = real_clock.now()\n")],
"a handler that is registered long after the informer was created", "it is resynced before its period has passed", INF + '''
async def main():
    sv = Server("a")
    i = shared_informer.new_shared_informer(sv, None, 2)
    t = asyncio.ensure_future(i.run())
    await asyncio.sleep(19)
    start = time.time()
    times = []

    class H(Recorder):
        async def on_update(self, old, new):
            times.append(time.time() - start)

    await i.add_event_handler(H(), resync_period=10)
    await asyncio.sleep(30)
    assert times and times[0] > 9.9, times
    await cancel(t)
''')

bug("K01-missed-deletions-silent", "K01", [("cache/shared_informer.py",
"                    await self._indexer.delete(d.object)\n                    await self._processor._distribute(\n                        _DeleteNotification(old_obj=d.object), False\n                    )\n",
"""                    await self._indexer.delete(d.object)
                    if isinstance(d.object, delta_fifo.DeletedFinalStateUnknown):
                        continue
                    await self._processor._distribute(
                        _DeleteNotification(old_obj=d.object), False
                    )
""")], "an object that is deleted while the watch is down", "its deletion leads to no reconcile", K + '''
async def main():
    sv = PodServer("a", "b")
    r = Reconciler()
    m, t = await start(sv, r)
    await asyncio.sleep(5)
    del r.calls[:]
    sv.oldest = 10**6
    sv.end_watches(Exception("gone"))
    sv.remove("a")
    await asyncio.sleep(30)
    assert ("ns", "a") in r.calls, r.calls
    await cancel(t)
''')

bug("L02-one-failed-read-ends-leadership", "L02", [("leaderelection/leaderelection.py",
"""                "error retrieving resource lock %s: %r", self._config.lock.describe(), e
            )
            return False
""", """                "error retrieving resource lock %s: %r", self._config.lock.describe(), e
            )
            if self.is_leader():
                raise
            return False
""")], "one failed read of the lock while leading", "the leader gives up at once instead of trying until the renew deadline", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    assert a.leading
    a.lock.down = True
    await asyncio.sleep(3)
    a.lock.down = False
    await asyncio.sleep(5)
    assert a.leading
''')

bug("M01-slow-watcher-times-out", "M01", [("watch/mux.py",
"""                    return_when=asyncio.FIRST_COMPLETED,
                )
                for task in pending:
                    task.cancel()


class _FunctionFake""", """                    return_when=asyncio.FIRST_COMPLETED,
                    timeout=60,
                )
                for task in pending:
                    task.cancel()


class _FunctionFake""")], "a watcher that does not read for more than a minute while its buffer is full", "it misses an event although the broadcaster is a blocking one", MUX + '''
async def main():
    b = mux.Broadcaster(1, WAIT)
    w = await b.watch()
    for i in range(4):
        await b.action("ADDED", i)
    await asyncio.sleep(300)
    got, t = reader(w)
    await asyncio.sleep(5)
    assert got == [0, 1, 2, 3], got
''')

bug("U01-sleeps-after-last-try", "U01", [("util/wait.py",
"        if backoff.steps == 1:\n            break\n        await asyncio.sleep(backoff.step())\n",
"        await asyncio.sleep(backoff.step())\n")],
"a condition that never succeeds", "the timeout is reported only after another delay", '''
from aiok8s.util import wait


async def main():
    times = []

    async def f():
        times.append(time.time())

    try:
        await wait.exponential_backoff(wait.Backoff(steps=3, duration=10, factor=2), f)
    except wait.WaitTimeoutError:
        assert time.time() - times[-1] < 1, times
''')

bug("W03-replaced-entry-releases-next", "W03", [("workqueue/delaying_queue.py",
"""            priority, _, data = self._pq[0]
            if data is not self._REMOVED:
                return priority
            heapq.heappop(self._pq)
""", """            priority, _, _ = self._pq[0]
            return priority
""")], "a delayed item that is added again with an earlier deadline while a later one waits", "the later item comes out at the former deadline of the other", '''
from aiok8s.workqueue import delaying_queue


async def main():
    q = delaying_queue.new()
    start = time.time()
    await q.add_after("x", 5)
    await q.add_after("x", 1)
    await q.add_after("y", 100)
    out = []
    for _ in range(2):
        item, _ = await q.get()
        out.append((item, time.time() - start))
        await q.done(item)
    assert out[1][1] > 99, out
    await q.shut_down()
''')

bug("T01-long-replay-cut", "T01", [("watch/mux.py",
"""                n = len(queued_events) + 1
                length = max(self._watch_queue_length, n)
""", """                length = max(self._watch_queue_length, 1)
"""), ("watch/mux.py",
"""                for e in queued_events:
                    await w._put(e)
""", """                for e in queued_events[-length:]:
                    await w._put(e)
""")],
"a watch from a version that is more changes ago than a watch queue holds", "the oldest of the changes it missed are not replayed", '''
from aiok8s.cache.testing import fake_controller_source as fcs


async def main():
    s = fcs.FakeControllerSource()
    for i in range(130):
        await (s.modify if i else s.add)(obj("a"))
    w = await s.watch({"resource_version": "3"})
    versions = []
    async for e in w:
        versions.append(int(e["object"]["metadata"]["resourceVersion"]))
        if versions[-1] == 130:
            break
    assert versions == list(range(4, 131)), versions
''')

bug("T02-reset-keeps-events", "T02", [("watch/watch.py",
"            self._result = asyncio.Queue()\n            while self._unclaimed", "            while self._unclaimed")],
"an event that was being sent when the watcher was stopped and reset", "the event comes out after the reset", '''
from aiok8s.watch import watch


async def main():
    w = watch.new_fake()
    t = asyncio.ensure_future(w.add("old"))
    await settle()
    await w.stop()
    await cancel(t)
    await w.reset()
    t = asyncio.ensure_future(w.add("new"))
    e = await w.__anext__()
    assert e["object"] == "new", e
''')

bug("K07-watches-every-namespace", "K07", [("controller/_informers_map.py",
"""        watcher = client._get_watcher(ip._namespace)
        kwargs = _get_kwargs(ip, options)
        return watcher(**kwargs)
""", """        watcher = client._get_watcher(None)
        return watcher(**options)
""")], "a change in another namespace while a cache is restricted to one", "the object of the other namespace gets into the cache", K + '''
async def main():
    sv = PodServer("a")
    asked = []
    sv.install()
    from kubernetes_asyncio import watch

    old = watch.Watch.stream
    watch.Watch.stream = lambda self, func, *args, **kw: asked.append(kw.get("namespace")) or old(self, func, *args, **kw)
    c = cache.new(namespace="ns")
    await c.get_informer(V1Pod)
    t = asyncio.ensure_future(c.start())
    await asyncio.sleep(3)
    assert asked == ["ns"], asked
    await cancel(t)
''')

bug("K07-resync-not-reconciled", "K07", [("controller/source.py",
"""        update_event = event.UpdateEvent(
""", """        if meta_old.resource_version == meta_new.resource_version:
            return
        update_event = event.UpdateEvent(
"""), ("controller/source.py", """            logger.error("on_update missing meta_new")
            return
""", """            logger.error("on_update with no meta_new")
            return
""")], "a resync period that passes", "the controllers do not reconcile the cached objects again", K + '''
async def main():
    sv = PodServer("a")
    sv.install()
    r = Reconciler()
    m = manager.new()
    c = controller.new(m, reconciler=r)
    await m.get_cache().get_informer(V1Pod)
    await c.watch(source.Kind(V1Pod), handler.EnqueueRequestForObject())
    t = asyncio.ensure_future(m.start())
    await asyncio.sleep(5)
    n = len(r.calls)
    await asyncio.sleep(24 * 3600)
    assert len(r.calls) > n, r.calls
    await cancel(t)
''')

bug("K03-cluster-scoped-key", "K03", [("controller/_cache_reader.py",
"    if not key.namespace:\n", "    if key.namespace is None:\n")],
"a read of an object without namespace by an empty namespace", "the read fails although the object is cached", K + '''
async def main():
    sv = PodServer()
    sv.put("a", ns="")
    sv.install()
    c = cache.new()
    await c.get_informer(V1Pod)
    t = asyncio.ensure_future(c.start())
    await asyncio.sleep(3)
    o = await c.get(NamespacedName(namespace="", name="a"), V1Pod)
    assert o.metadata.name == "a"
    await cancel(t)
''')

