from mk import bug

K = '''
from aiok8s.api import meta
from aiok8s.cache import controller as cache_controller, delta_fifo, store
from aiok8s.controller import builder, cache, controller, event, handler, manager, reconcile, source
from aiok8s.controller.reconcile import NamespacedName, Request, Result
from kubernetes_asyncio.client.models import V1Pod


class Reconciler:
    def __init__(self):
        self.calls = []
        self.cache = None

    def inject_cache(self, c):
        self.cache = c

    async def reconcile(self, request):
        self.calls.append((request.namespaced_name.namespace, request.namespaced_name.name))
        return Result()


async def start(sv, r, workers=1):
    sv.install()
    m = manager.new()
    c = controller.new(m, reconciler=r)
    c.max_concurrent_reconciles = workers
    await m.get_cache().get_informer(V1Pod)
    await c.watch(source.Kind(V1Pod), handler.EnqueueRequestForObject())
    return m, asyncio.ensure_future(m.start())

'''
bug("K01-told-before-cached", "K01", [("cache/shared_informer.py",
"""                        await self._indexer.add(d.object)
                        await self._processor._distribute(
                            _AddNotification(new_obj=d.object), False
                        )
""", """                        await self._processor._distribute(
                            _AddNotification(new_obj=d.object), False
                        )
                        await self._indexer.add(d.object)
""")], "a reconcile that reads the cache right after it was triggered by a creation",
"the last reconcile of a key has not seen the object in the cache", K + '''
class R(Reconciler):
    async def reconcile(self, request):
        try:
            await self.cache.get(request.namespaced_name, V1Pod)
        except KeyError:
            self.calls.append((request.namespaced_name.name, False))
        else:
            self.calls.append((request.namespaced_name.name, True))
        return Result()


async def main():
    bad = []
    for others in range(1, 20):
        sv = PodServer("a")
        r = R()
        m, t = await start(sv, r)
        await asyncio.sleep(5)
        i = await m.get_cache().get_informer(V1Pod)
        for _ in range(others):
            await i.add_event_handler(Recorder())
        sv.put("b")
        await asyncio.sleep(5)
        if r.calls[-1] != ("b", True):
            bad.append(others)
        await cancel(t)
    assert not bad, bad
''')

bug("K02-done-before-requeue", "K02", [("controller/controller.py",
"""        try:
            return await self._reconcile_handler(obj)
        except Exception:
            logger.exception("")
        finally:
            await self.queue.done(obj)
""", """        await self.queue.done(obj)
        try:
            return await self._reconcile_handler(obj)
        except Exception:
            logger.exception("")
""")], "a change of an object while it is reconciled, with more than one worker", "one request is reconciled twice at once", K + '''
class R(Reconciler):
    now = most = 0

    async def reconcile(self, request):
        self.now += 1
        self.most = max(self.most, self.now)
        await asyncio.sleep(1)
        self.now -= 1
        return Result()


async def main():
    sv = PodServer("a")
    r = R()
    m, t = await start(sv, r, 2)
    await asyncio.sleep(0.5)
    sv.put("a")
    await asyncio.sleep(10)
    assert r.most == 1, r.most
    await cancel(t)
''')

bug("K02-requeue-after-keeps-failures", "K02", [("controller/controller.py",
"""        if result.requeue_after:
            self.queue.forget(obj)
            await""", """        if result.requeue_after:
            await""")], "a request that fails several times, then asks for an explicit delay, then fails again",
"the delays do not start afresh", K + '''
class R(Reconciler):
    async def reconcile(self, request):
        self.calls.append(time.time())
        n = len(self.calls)
        if n == 10:
            return Result(requeue_after=10)
        if n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11):
            return Result(requeue=True)
        return Result()


async def main():
    sv = PodServer("a")
    r = R()
    m, t = await start(sv, r)
    await asyncio.sleep(100)
    assert len(r.calls) == 12
    assert r.calls[11] - r.calls[10] < 0.1, r.calls
    await cancel(t)
''')

bug("K02-requeue-prefers-immediate", "K02", [("controller/controller.py",
"""            await self.queue.add_after(obj, result.requeue_after)
            return True
        if result.requeue:
""", """            await self.queue.add_after(obj, result.requeue_after)
        if result.requeue:
""")], "a reconcile that asks for both a requeue and a delay", "it is run again before the delay", K + '''
class R(Reconciler):
    async def reconcile(self, request):
        self.calls.append(time.time())
        return Result(requeue=True, requeue_after=5) if len(self.calls) == 1 else Result()


async def main():
    sv = PodServer("a")
    r = R()
    m, t = await start(sv, r)
    await asyncio.sleep(30)
    assert len(r.calls) == 2 and r.calls[1] - r.calls[0] >= 5, r.calls
    await cancel(t)
''')

bug("K03-second-reader-does-not-wait", "K03", [("controller/_informers_map.py",
"""        if started and not informer.informer.has_synced():
            if not""", """        if started and informer.informer.last_sync_resource_version() == "":
            if not""")], "a read of a new kind while its initial list is applied to the cache",
"the read raises a lookup error for an object of the initial list", K + '''
async def main():
    bad = []
    for n in range(40):
        sv = PodServer(*["p%d" % i for i in range(20)])
        sv.install()
        c = cache.new()
        i = await c.get_informer(V1Pod)
        await i.add_event_handler(Recorder())
        t = asyncio.ensure_future(c.start())
        await asyncio.sleep(0)

        async def read(wait):
            for _ in range(wait):
                await asyncio.sleep(0)
            try:
                await c.get(NamespacedName("ns", "p19"), V1Pod)
            except KeyError:
                bad.append(wait)

        await asyncio.gather(*[read(k) for k in range(n, 200, 40)])
        await cancel(t)
    assert not bad, bad
''')

bug("K03-namespace-dropped", "K03", [("controller/_cache_reader.py",
"""        obj = self._indexer.get_by_key(store_key)
        if obj is None:
""", """        obj = self._indexer.get_by_key(store_key) or self._indexer.get_by_key(key.name)
        if obj is None:
""")], "a read of an absent name in a namespace while a cluster-scoped object of that name is cached",
"the read returns the other object", K + '''
from aiok8s.controller import _cache_reader


async def main():
    s = store.new_store(store.meta_namespace_key_func)
    await s.add(PodServer.make("a", "1", ""))
    r = _cache_reader.CacheReader(s, None)
    assert r.get(NamespacedName("", "a")).metadata.name == "a"
    try:
        r.get(NamespacedName("ns", "a"))
    except KeyError:
        return
    raise AssertionError
''')

bug("K04-workers-not-cancelled", "K04", [("controller/controller.py",
"                    asyncio.ensure_future(aw())\n", "                    asyncio.shield(aw())\n")],
"a cancellation of the manager while a reconcile is running or an item is queued", "reconciles go on after the manager has stopped", K + '''
class R(Reconciler):
    async def reconcile(self, request):
        self.calls.append(request)
        await asyncio.sleep(1)
        self.calls.append("end")
        return Result()


async def main():
    sv = PodServer("a", "b", "c")
    r = R()
    m, t = await start(sv, r)
    await asyncio.sleep(0.7)
    assert len(r.calls) == 1
    await cancel(t)
    n = len(r.calls)
    await asyncio.sleep(20)
    assert len(r.calls) == n, r.calls
''')

bug("K05-update-mixes-metadata", "K05", [("controller/handler.py",
"                        name=event.meta_new.name, namespace=event.meta_new.namespace\n",
"                        name=event.meta_new.name, namespace=event.meta_old.namespace\n")],
"an update event whose old and new object differ in namespace", "the request names an object that does not exist", K + '''
class Queue:
    def __init__(self):
        self.items = []

    async def add(self, item):
        self.items.append(item.namespaced_name)


async def main():
    q = Queue()
    h = source.EventHandler(handler.EnqueueRequestForObject(), q, ())
    await h.on_update(obj("a", ns="one"), obj("b", ns="two"))
    assert q.items == [NamespacedName("one", "a"), NamespacedName("two", "b")], q.items
''')

bug("K05-any-predicate", "K05", [("controller/source.py",
"""        for p in self.predicates:
            if not p.delete(delete_event):
                return

        await""", """        if self.predicates and not any(p.delete(delete_event) for p in self.predicates):
            return

        await""")], "a deletion that one of several predicates rejects", "the request is enqueued all the same", K + '''
class Queue:
    def __init__(self):
        self.items = []

    async def add(self, item):
        self.items.append(item.namespaced_name)


class P:
    def __init__(self, answer):
        self.answer = answer

    def delete(self, e):
        return self.answer


async def main():
    q = Queue()
    h = source.EventHandler(handler.EnqueueRequestForObject(), q, (P(True), P(False)))
    await h.on_delete(obj("a"))
    assert q.items == [], q.items
''')

bug("K06-empty-namespace", "K06", [("cache/store.py",
"    if metadata.namespace:\n", "    if metadata.namespace is not None:\n")],
"an object whose namespace is the empty string", "its key starts with a slash, unlike that of the same object without a namespace", K + '''
async def main():
    assert store.meta_namespace_key_func(obj("a", ns="")) == "a"
''')

bug("K06-key-of-tombstone-recomputed", "K06", [("cache/controller.py",
"""    if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
        return obj.key
""", """    if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
        return store.meta_namespace_key_func(obj.obj) if obj.obj else obj.key
""")], "a tombstone whose key differs from that of its last known object", "the key of the tombstone is not the one it names", K + '''
async def main():
    d = delta_fifo.DeletedFinalStateUnknown("ns/a", obj("b"))
    assert cache_controller.deletion_handling_meta_namespace_key_func(d) == "ns/a"
''')

L = '''
import json

from aiok8s.leaderelection import leaderelection as le


class Store:
    def __init__(self):
        self.record = None
        self.version = 0
        self.history = []


class Lock:
    """A lock with optimistic concurrency, like a config map."""

    def __init__(self, store, name):
        self.store, self.name, self.seen = store, name, None
        self.down = False

    def identity(self):
        return self.name

    def describe(self):
        return "lock"

    def _check(self):
        if self.down:
            raise Exception("unreachable")

    async def get(self):
        await asyncio.sleep(0.01)
        self._check()
        self.seen = self.store.version
        if self.store.record is None:
            return None, None
        return json.loads(self.store.record), self.store.record

    async def _write(self, record):
        self._check()
        if self.seen != self.store.version:
            raise Exception("conflict")
        self.store.record = json.dumps(record)
        self.store.version += 1
        self.seen = self.store.version
        self.store.history.append(dict(record))

    async def create(self, record):
        await asyncio.sleep(0.01)
        if self.store.record is not None:
            raise Exception("exists")
        self.seen = self.store.version
        await self._write(record)

    async def update(self, record):
        await asyncio.sleep(0.01)
        await self._write(record)


class Candidate:
    def __init__(self, store, name, **kw):
        self.lock = Lock(store, name)
        self.name = name
        self.leading = False
        self.seen = []
        self.stopped = 0
        cb = le.LeaderCallbacks(self.on_started, self.on_stopped, self.on_new)
        self.elector = le.LeaderElector(le.LeaderElectionConfig(lock=self.lock, callbacks=cb, name=name, **kw))
        self.task = asyncio.ensure_future(self.elector.run())

    async def on_started(self):
        self.leading = True
        try:
            await asyncio.sleep(1e9)
        finally:
            self.leading = False

    async def on_stopped(self):
        self.stopped += 1

    async def on_new(self, who):
        self.seen.append(who)

'''
bug("L01-observed-time-by-holder", "L01", [("leaderelection/leaderelection.py",
"""            self._observed_record = dict(old_leader_election_record)
            self._observed_raw_record = old_leader_election_raw_record
            self._observed_time = self._clock.now()
        if (""", """            if self._observed_record.get("holderIdentity") != old_leader_election_record.get(
                "holderIdentity"
            ):
                self._observed_time = self._clock.now()
            self._observed_record = dict(old_leader_election_record)
            self._observed_raw_record = old_leader_election_raw_record
        if (""")], "a candidate that watches a leader renew for longer than a lease", "the candidate takes the lock while the leader is leading", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    b = Candidate(s, "b")
    for _ in range(100):
        await asyncio.sleep(1)
        assert not (a.leading and b.leading)
''')

bug("L01-renews-without-deadline", "L01", [("leaderelection/leaderelection.py",
"""            and self._observed_time + self._config.lease_duration > now
""", """            and old_leader_election_record["renewTime"]
            + old_leader_election_record["leaseDurationSeconds"]
            > now
""")], "two candidates whose wall clocks differ by more than a lease",
"a candidate with a clock that is ahead takes a lock that is being renewed", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    real = time.time
    # The records of "a" are written by a clock that is a minute behind.
    write = Lock._write

    async def shifted(self, record):
        if self.name == "a" and record.get("renewTime"):
            record = dict(record, renewTime=record["renewTime"] - 60, acquireTime=record["acquireTime"] - 60)
        await write(self, record)

    Lock._write = shifted
    await asyncio.sleep(5)
    b = Candidate(s, "b")
    for _ in range(60):
        await asyncio.sleep(1)
        assert not (a.leading and b.leading)
''')

bug("L02-released-lock-not-free", "L02", [("leaderelection/leaderelection.py",
"            old_leader_election_record.get(\"holderIdentity\")\n            and self._observed_time",
"            self._observed_raw_record\n            and self._observed_time"),
("leaderelection/leaderelection.py",
"""                old_leader_election_record["holderIdentity"],
            )
            return False
""", """                old_leader_election_record.get("holderIdentity"),
            )
            return False
""")], "a leader that releases the lock while another candidate waits", "the other candidate waits for a whole lease although the lock is free", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a", release_on_cancel=True)
    await asyncio.sleep(5)
    b = Candidate(s, "b")
    await asyncio.sleep(5)
    await cancel(a.task)
    await asyncio.sleep(6)
    assert b.leading
''')

bug("L03-acquire-time-kept", "L03", [("leaderelection/leaderelection.py",
"""        if self.is_leader():
            leader_election_record["acquireTime"] = old_leader_election_record[
                "acquireTime"
            ]
""", """        if "acquireTime" in old_leader_election_record:
            leader_election_record["acquireTime"] = old_leader_election_record[
                "acquireTime"
            ]
        if self.is_leader():
""")], "a candidate that takes over an expired lock", "the record keeps the acquisition time of the previous holder", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    a.lock.down = True
    await cancel(a.task)
    t = time.time()
    b = Candidate(s, "b")
    await asyncio.sleep(60)
    assert b.leading
    assert s.history[-1]["acquireTime"] > t, s.history[-1]
''')


bug("K04-informers-left-running", "K04", [("controller/_informers_map.py",
"                asyncio.ensure_future(informer.informer.run())\n                for", "                asyncio.shield(informer.informer.run())\n                for")],
"a cancellation of a manager with a controller", "its informers keep listing and watching", K + '''
async def main():
    sv = PodServer("a")
    m, t = await start(sv, Reconciler())
    await asyncio.sleep(5)
    await cancel(t)
    await asyncio.sleep(5)
    n = len(sv.requests)
    sv.end_watches(Exception("gone"))
    await asyncio.sleep(30)
    assert len(sv.requests) == n, sv.requests
''')

bug("L01-renews-rarely", "L01", [("leaderelection/leaderelection.py",
"                await asyncio.sleep(self._config.retry_period)\n", "                await asyncio.sleep(self._config.renew_deadline - self._config.retry_period)\n")],
"a leader that loses its connection right after a renewal, with another candidate waiting",
"the other candidate leads while the first one still does", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a", retry_period=0.2)
    await asyncio.sleep(5)
    b = Candidate(s, "b", retry_period=0.2)
    await asyncio.sleep(25)
    v = s.version
    while s.version == v:
        await asyncio.sleep(0.1)
    a.lock.down = True
    for _ in range(300):
        await asyncio.sleep(0.1)
        assert not (a.leading and b.leading)
''')

bug("L03-waiting-candidates-not-told", "L03", [("leaderelection/leaderelection.py",
"""            self._maybe_report_transition()
            if not succeeded:
                logger.debug("failed to acquire lease %s", description)
                return
""", """            if not succeeded:
                logger.debug("failed to acquire lease %s", description)
                return
            self._maybe_report_transition()
""")], "a candidate that waits while others lead", "it is not told of the leaders it observes", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    b = Candidate(s, "b")
    await asyncio.sleep(10)
    assert b.seen == ["a"], b.seen
''')

bug("L03-stopped-only-after-leading", "L03", [("leaderelection/leaderelection.py",
"            await self._config.callbacks.on_stopped_leading()\n", "            if task is not None:\n                await self._config.callbacks.on_stopped_leading()\n")],
"a run that is cancelled before it acquired the lock", "the stopped callback is not called", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    b = Candidate(s, "b")
    await asyncio.sleep(10)
    await cancel(b.task)
    assert b.stopped == 1, b.stopped
''')
