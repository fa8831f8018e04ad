from mk import bug
import re, os
_H = os.path.dirname(os.path.abspath(__file__))
_N = {}
for _f in ("b1.py", "b2.py", "b3.py", "b4.py", "b5.py"):
    for _m in re.finditer(r"^([A-Z]+) = '''(.*?)'''", open(os.path.join(_H, _f)).read(), re.M | re.S):
        _N[_m[1]] = _m[2]
INF, MUX, REFL, K, L, DELTA, PROC = (_N[x] for x in ("INF", "MUX", "REFL", "K", "L", "DELTA", "PROC"))

bug("U05-replaced-timer-left", "U05", [("workqueue/delaying_queue.py",
"""                if next_ready_at_timer:
                    next_ready_at_timer.stop()
                entry""", """                entry""")],
"two delayed items, and a shutdown before they are due", "the timer that the second one replaced runs on after the shutdown", '''
from aiok8s.workqueue import delaying_queue


async def main():
    before = asyncio.all_tasks()
    q = delaying_queue.new()
    await q.add_after("a", 500)
    await settle()
    await q.add_after("b", 400)
    await settle()
    await q.shut_down()
    await asyncio.sleep(5)
    left = asyncio.all_tasks() - before
    assert not left, left
''')

bug("U05-cancelled-candidate-goes-on", "U05", [("leaderelection/leaderelection.py",
"""            task.cancel()

        task = asyncio.ensure_future(
            wait.jitter_loop(f, self._config.retry_period, JITTER_FACTOR, True)
        )
        await asyncio.gather(task, return_exceptions=True)
        return succeeded
""", """            task.cancel()

        task = asyncio.ensure_future(
            wait.jitter_loop(f, self._config.retry_period, JITTER_FACTOR, True)
        )
        await asyncio.wait([task])
        return succeeded
""")], "an elector that is cancelled before it got the lock", "it goes on trying to get the lock in the background", L + '''
async def main():
    s = Store()
    s.record = json.dumps(dict(holderIdentity="b", leaseDurationSeconds=15, renewTime=1, acquireTime=1, leaderTransitions=0))
    before = asyncio.all_tasks()
    c = Candidate(s, "a")
    await asyncio.sleep(1)
    await cancel(c.task)
    await asyncio.sleep(1)
    left = asyncio.all_tasks() - before
    assert not left, left
''')

bug("C03-equal-syncs-merged", "C03", [("cache/delta_fifo.py",
"""    if b.type is not DeltaType.DELETED or a.type is not DeltaType.DELETED:
        return None
""", """    if a.type is DeltaType.UPDATED and b.type is DeltaType.SYNC and a.object == b.object:
        return a
    if b.type is not DeltaType.DELETED or a.type is not DeltaType.DELETED:
        return None
""")], "a resync of an object, and an update of it to an equal object before it is popped", "the resync is lost", DELTA + '''
async def main():
    s, f = pair()
    await s.add(obj("x"))
    await f.resync()
    await f.update(obj("x"))
    got = []

    async def process(ds):
        got.extend(d.type.name for d in ds)

    await f.pop(process)
    assert got == ["SYNC", "UPDATED"], got
''')

bug("I01-equal-resync-silent", "I01", [("cache/controller.py",
"""                    await h.on_update(old, d.object)
""", """                    if old != d.object:
                        await h.on_update(old, d.object)
""")], "a resync of an object that has not changed", "the handler does not get the update of the resync", INF + '''
async def main():
    class Lw:
        async def list(self, options):
            return dict(metadata=dict(resourceVersion="5"), items=[obj("x", "5")])

        async def watch(self, options):
            return Watch()

    got = []

    class H:
        async def on_add(self, o):
            got.append("add")

        async def on_update(self, old, new):
            got.append("update")

        async def on_delete(self, o):
            got.append("delete")

    s, c = controller.new_informer(Lw(), None, 10, H())
    t = asyncio.ensure_future(c.run())
    await asyncio.sleep(25)
    assert got == ["add", "update", "update"], got
    await cancel(t)
''')

bug("K02-timeouts-not-retried", "K02", [("controller/controller.py",
"""        except asyncio.CancelledError:
            raise
        except Exception:
            await self.queue.add_rate_limited(obj)
""", """        except (asyncio.CancelledError, asyncio.TimeoutError):
            raise
        except Exception:
            await self.queue.add_rate_limited(obj)
""")], "a reconcile that fails with a timeout", "it is not run again", K + '''
class R(Reconciler):
    async def reconcile(self, request):
        self.calls.append(time.time())
        if len(self.calls) == 1:
            raise asyncio.TimeoutError
        return Result()


async def main():
    sv = PodServer("a")
    r = R()
    m, t = await start(sv, r)
    await asyncio.sleep(30)
    assert len(r.calls) == 2, r.calls
    await cancel(t)
''')

bug("K02-forgets-only-when-idle", "K02", [("controller/controller.py",
"""        self.queue.forget(obj)

        logger.info""", """        if not len(self.queue):
            self.queue.forget(obj)

        logger.info""")], "a request that failed succeeds while others are waiting, and fails again later", "the delays do not start afresh", K + '''
class R(Reconciler):
    async def reconcile(self, request):
        name = request.namespaced_name.name
        self.calls.append((name, time.time()))
        mine = [t for n, t in self.calls if n == name]
        if name == "a" and (len(mine) <= 8 or len(mine) == 10):
            return Result(requeue=True)
        if name == "a" and len(mine) == 9:
            sv.put("b")
        await asyncio.sleep(1)
        return Result()


sv = PodServer("a", "b")


async def main():
    r = R()
    m, t = await start(sv, r)
    await asyncio.sleep(60)
    sv.put("a")
    await asyncio.sleep(60)
    ts = [t for n, t in r.calls if n == "a"]
    assert len(ts) == 11 and ts[10] - ts[9] < 0.1, r.calls
    await cancel(t)
''')

bug("K09-stops-at-one-that-ended", "K09", [("controller/manager.py",
"                    tasks.append(asyncio.ensure_future(controller.start()))\n",
"""                    tasks.append(asyncio.ensure_future(controller.start()))
                    await asyncio.sleep(0)
                    if tasks[-1].done():
                        break
""")], "a runnable that ends at once without waiting for anything", "the ones that were added after it are not started", K + '''
class Short:
    async def start(self):
        pass


class Long:
    started = 0

    async def start(self):
        self.started += 1
        await asyncio.sleep(1e9)


async def main():
    sv = PodServer("a")
    sv.install()
    m = manager.new()
    x = Long()
    m.add(Short())
    m.add(x)
    t = asyncio.ensure_future(m.start())
    await asyncio.sleep(5)
    assert x.started == 1
    await cancel(t)
''')

bug("L01-lease-as-recorded", "L01", [("leaderelection/leaderelection.py",
"            and self._observed_time + self._config.lease_duration > now\n",
"            and self._observed_time\n            + (\n                old_leader_election_record.get(\"leaseDurationSeconds\")\n                or self._config.lease_duration\n            )\n            > now\n")],
"a lease that is not a whole number of seconds, of a leader that cannot renew any more", "another one leads before the leader has given up", L + '''
async def main():
    s = Store()
    kw = dict(lease_duration=3.95, renew_deadline=3.0, retry_period=0.8)
    a = Candidate(s, "a", **kw)
    await asyncio.sleep(0.3)
    b = Candidate(s, "b", **kw)
    both = False
    for i in range(40):
        await asyncio.sleep(1)
        for start in range(3):
            pass
        a.lock.down = i >= 5
        for _ in range(100):
            await asyncio.sleep(0.01)
            both = both or (a.leading and b.leading)
    assert not both
''')

bug("K08-late-kinds-wait-for-each-other", "K08", [("controller/_informers_map.py",
"""                informer.informer.has_synced
            ):""", """                *self.has_synced_funcs()
            ):""")], "two kinds that are first used after the start, one of which cannot be listed", "reads of the other wait for it", K + '''
from kubernetes_asyncio.client import api, models
from aiok8s.controller import client
from aiok8s.runtime import schema


class _ConfigMapClient(client._Client):
    gvk = schema.GroupVersionKind("", "v1", "ConfigMap")
    object_type = models.V1ConfigMap
    api_cls = api.CoreV1Api

    def _get_lister(self, namespace):
        async def hang(**kw):
            await asyncio.sleep(1e9)

        return hang


async def main():
    sv = PodServer("a")
    sv.install()
    c = cache.new()
    t = asyncio.ensure_future(c.start())
    await asyncio.sleep(1)
    x = asyncio.ensure_future(c.get_informer(models.V1ConfigMap))
    await asyncio.sleep(1)
    o = await asyncio.wait_for(c.get(NamespacedName("ns", "a"), V1Pod), 5)
    assert o.metadata.name == "a"
    x.cancel()
    await cancel(t)
''')

bug("T02-sends-wait-for-each-other", "T02", [("watch/watch.py",
"""            await self._result.put({"type": action, "object": obj})
            await self._result.join()
""", """            await self._result.put({"type": action, "object": obj})
        await self._result.join()
""")],
"a second send that begins before the event of the first one is consumed", "the first send does not return when its event is consumed", '''
from aiok8s.watch import watch


async def main():
    w = watch.new_fake()
    ts = [asyncio.ensure_future(w.add(n)) for n in range(2)]
    await settle()
    e = await w.__anext__()
    await settle()
    assert e["object"] == 0 and [t.done() for t in ts] == [True, False], [t.done() for t in ts]
    await w.__anext__()
    await settle()
    assert ts[1].done()
''')
