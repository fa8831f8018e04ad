from mk import bug
import re, os
_H = os.path.dirname(os.path.abspath(__file__))
_N = {}
for _f in ("b2.py", "b3.py", "b4.py"):
    for _m in re.finditer(r"^([A-Z]+) = '''(.*?)'''", open(os.path.join(_H, _f)).read(), re.M | re.S):
        _N[_m[1]] = _m[2]
INF, MUX, REFL, K, L, DELTA = (_N[x] for x in ("INF", "MUX", "REFL", "K", "L", "DELTA"))

PROC = '''
from aiok8s.cache import controller, delta_fifo, list_watch, store


def key(o):
    return o.key if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else o["metadata"]["name"]


class Processor:
    """Applies changes to its store; `before` may fail."""

    def __init__(self, sv, retry, resync=0, before=None):
        self.st = store.new_store(key)
        self.calls = []
        self.before = before
        q = delta_fifo.DeltaFIFO(lambda o: o["metadata"]["name"], self.st)
        self.c = controller.new(controller.Config(queue=q, lister_watcher=list_watch.ListWatch(sv.list, sv.watch), process=self.process, object_type=dict, full_resync_period=resync, retry_on_error=retry))

    async def process(self, ds):
        k = key(ds[0].object)
        self.calls.append(k)
        if self.before:
            await self.before(k)
        for d in ds:
            if d.type is delta_fifo.DeltaType.DELETED:
                await self.st.delete(d.object)
            else:
                await self.st.update(d.object)

'''

bug("I06-retries-come-first", "I06", [("cache/delta_fifo.py",
"                    if e.__cause__:\n                        raise fifo",
"                    if e.__cause__ is not None:\n                        self._queue.insert(0, self._queue.pop())\n                        raise fifo")],
"an item whose processing keeps failing while others wait", "the others are not processed as long as it fails", PROC + '''
async def main():
    sv = Server("a", "b")
    n = []

    async def before(k):
        await asyncio.sleep(0.1)
        if k == "a" and len(n) < 1000:
            n.append(k)
            raise ValueError

    p = Processor(sv, True, before=before)
    t = asyncio.ensure_future(p.c.run())
    await asyncio.sleep(20)
    assert "b" in p.st.list_keys(), p.calls[:10]
    await cancel(t)
''')

bug("I06-slow-processing-cut-off", "I06", [("cache/delta_fifo.py",
"                    await process(item)\n", "                    await asyncio.wait_for(process(item), 60)\n")],
"a process function that takes longer than a minute, retries off", "its change is lost", PROC + '''
async def main():
    sv = Server("a")
    n = []

    async def before(k):
        if not n:
            n.append(k)
            await asyncio.sleep(100)

    p = Processor(sv, False, before=before)
    t = asyncio.ensure_future(p.c.run())
    await asyncio.sleep(400)
    assert "a" in p.st.list_keys(), p.calls
    await cancel(t)
''')

bug("I06-requeue-forgets-older", "I06", [("cache/delta_fifo.py",
"                    self._add_if_not_present(id_, item)\n                    if e.__cause__:\n",
"                    self._add_if_not_present(id_, Deltas(item[-1:]))\n                    if e.__cause__:\n")],
"two changes of one key handed out together, the first a deletion, whose processing asks for a requeue", "the older change is never processed", PROC + '''
from aiok8s.cache import fifo


async def main():
    sv = Server("a")
    seen = []
    fail = []

    async def before(k):
        if fail:
            await asyncio.sleep(5)
            fail.pop()
            raise fifo.RequeueError

    p = Processor(sv, False, before=before)

    async def process(ds):
        await p.process(ds)
        seen.extend((d.type.name, key(d.object)) for d in ds)

    p.c._config = p.c._config._replace(process=process)
    t = asyncio.ensure_future(p.c.run())
    await asyncio.sleep(10)
    fail.extend("xx")
    sv.remove("a")
    sv.put("a")
    await asyncio.sleep(30)
    assert not fail
    assert ("DELETED", "a") in seen, seen
    await cancel(t)
''')

bug("I06-timeout-ends-processing", "I06", [("cache/delta_fifo.py",
"                except asyncio.CancelledError:\n                    raise\n                except Exception as e:\n                    raise fifo.ProcessError(item) from e\n",
"                except (asyncio.CancelledError, asyncio.TimeoutError):\n                    raise\n                except Exception as e:\n                    raise fifo.ProcessError(item) from e\n")],
"a process function whose failure is a timeout", "nothing is processed any more", PROC + '''
async def main():
    sv = Server("a", "b")

    async def before(k):
        if len(p.calls) == 1:
            raise asyncio.TimeoutError

    p = Processor(sv, False, before=before)
    t = asyncio.ensure_future(p.c.run())
    await asyncio.sleep(20)
    assert p.st.list_keys(), p.calls
    await cancel(t)
''')

TWO = K + '''
from aiok8s.controller import client
from aiok8s.runtime import schema
from kubernetes_asyncio.client import api, models
from kubernetes_asyncio import watch
from kubernetes_asyncio.client.models import V1ConfigMap


class ConfigMapClient(client._Client):
    gvk = schema.GroupVersionKind("", "v1", "ConfigMap")
    object_type = V1ConfigMap
    api_cls = api.CoreV1Api

    def _get_lister(self, namespace):
        return self._api_client.list_config_map_for_all_namespaces


class MapServer(Server):
    @staticmethod
    def make(name, rv, ns="ns", **kw):
        return V1ConfigMap(api_version="v1", kind="ConfigMap", metadata=models.V1ObjectMeta(name=name, namespace=ns, uid=name, resource_version=rv))

    def make_list(self, rv, items):
        return models.V1ConfigMapList(items=items, metadata=models.V1ListMeta(resource_version=rv))


def install(pods, maps):
    pods.hang = maps.hang = False

    async def list_(sv, kw):
        while sv.hang:
            await asyncio.sleep(1)
        return await sv.list(kw)

    async def list_pods(self, **kw):
        return await list_(pods, kw)

    async def list_maps(self, **kw):
        return await list_(maps, kw)

    api.CoreV1Api.__init__ = lambda self, api_client=None: None
    api.CoreV1Api.list_pod_for_all_namespaces = list_pods
    api.CoreV1Api.list_config_map_for_all_namespaces = list_maps
    watch.Watch.__init__ = lambda self, return_type=None: None
    watch.Watch.stream = lambda _, func, **kw: (maps if "config_map" in getattr(func, "__name__", "") or func.__func__ is list_maps else pods).watch_now(kw)

'''
bug("K08-first-use-blocks-reads", "K08", [("controller/_informers_map.py",
"        async with self._mutex:\n            informer = self._informers_by_gvk.get(gvk)\n            started = self._started\n",
"        await self._mutex.acquire()\n        try:\n            return await self._get(gvk, obj)\n        finally:\n            self._mutex.release()\n\n    async def _get(self, gvk, obj):\n        informer = self._informers_by_gvk.get(gvk)\n        started = self._started\n")],
"a kind that is first used after the start and whose list does not answer", "reads of all other kinds hang with it", TWO + '''
async def main():
    pods, maps = PodServer("a"), MapServer("b")
    install(pods, maps)
    c = cache.new()
    await c.get_informer(V1Pod)
    t = asyncio.ensure_future(c.start())
    await asyncio.sleep(1)
    assert (await c.get(NamespacedName("ns", "a"), V1Pod)).metadata.name == "a"
    maps.hang = True
    u = asyncio.ensure_future(c.get(NamespacedName("ns", "b"), V1ConfigMap))
    await asyncio.sleep(1)
    r = await asyncio.wait_for(c.get(NamespacedName("ns", "a"), V1Pod), 10)
    assert r.metadata.name == "a"
    maps.hang = False
    assert (await u).metadata.name == "b"
    await cancel(t)
''')

bug("K08-reads-wait-for-all-kinds", "K08", [("controller/_informers_map.py",
"        if started and not informer.informer.has_synced():\n            if not await shared_informer.wait_for_cache_sync(\n                informer.informer.has_synced\n            ):\n",
"        if started and not all(f() for f in self.has_synced_funcs()):\n            if not await shared_informer.wait_for_cache_sync(*self.has_synced_funcs()):\n")],
"a kind that is first used after the start and whose list does not answer", "reads of all other kinds wait for it", TWO + '''
async def main():
    pods, maps = PodServer("a"), MapServer("b")
    install(pods, maps)
    c = cache.new()
    await c.get_informer(V1Pod)
    t = asyncio.ensure_future(c.start())
    await asyncio.sleep(1)
    maps.hang = True
    u = asyncio.ensure_future(c.get(NamespacedName("ns", "b"), V1ConfigMap))
    await asyncio.sleep(1)
    r = await asyncio.wait_for(c.get(NamespacedName("ns", "a"), V1Pod), 10)
    assert r.metadata.name == "a"
    await cancel(t)
''')

bug("K08-watch-replaces-earlier", "K08", [("controller/controller.py",
"            self._watches.append(_WatchDescription(source, event_handler, predicates))\n",
"            self._watches = [\n                w\n                for w in self._watches\n                if getattr(w.source, \"type\", w) is not getattr(source, \"type\", None)\n            ]\n            self._watches.append(_WatchDescription(source, event_handler, predicates))\n")],
"a controller that watches one kind twice, with different predicates", "objects that only the first watch selects are never reconciled", K + '''
class Named:
    def __init__(self, name):
        self.name = name

    def create(self, e):
        return e.object.metadata.name == self.name

    def update(self, e):
        return e.object_new.metadata.name == self.name

    delete = create


async def main():
    sv = PodServer("a", "b", "c")
    sv.install()
    r = Reconciler()
    m = manager.new()
    c = controller.new(m, reconciler=r)
    await m.get_cache().get_informer(V1Pod)
    for n in ("a", "b"):
        await c.watch(source.Kind(V1Pod), handler.EnqueueRequestForObject(), Named(n))
    t = asyncio.ensure_future(m.start())
    await asyncio.sleep(5)
    assert sorted(n for _, n in r.calls) == ["a", "b"], r.calls
    await cancel(t)
''')

bug("K08-one-lister-for-all-kinds", "K08", [("controller/_informers_map.py",
"    async def list_func(options):\n        client = _client.rest_client_for_gvk(gvk)\n",
"    async def list_func(options):\n        client = _clients.setdefault(ip._namespace, _client.rest_client_for_gvk(gvk))\n"),
("controller/_informers_map.py", "def _create_structured_list_watch(gvk, ip):\n", "_clients = {}\n\n\ndef _create_structured_list_watch(gvk, ip):\n")],
"two kinds in one process", "the second kind lists the objects of the first", TWO + '''
async def main():
    pods, maps = PodServer("a"), MapServer("b")
    install(pods, maps)
    c = cache.new()
    await c.get_informer(V1Pod)
    t = asyncio.ensure_future(c.start())
    await asyncio.sleep(1)
    r = await asyncio.wait_for(c.get(NamespacedName("ns", "b"), V1ConfigMap), 10)
    assert isinstance(r, V1ConfigMap)
    await cancel(t)
''')
