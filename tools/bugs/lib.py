"""Helpers of the demonstrations (put in front of each demo.py): virtual time and a small API server."""
import asyncio
import os
import sys
import time

sys.path.insert(0, os.getcwd())
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
import logging

logging.disable(logging.CRITICAL)


class VirtualLoop(asyncio.SelectorEventLoop):
    """Jumps to the next timer when nothing is ready to run."""

    vt = 1_000_000.0

    def time(self):
        return self.vt

    def _run_once(self):
        if not self._ready:
            when = [h._when for h in self._scheduled if not h._cancelled]
            if when:
                self.vt = max(self.vt, min(when) + 1e-7)
        super()._run_once()


def run(main, limit=100_000.0):
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    time.time = loop.time
    time.monotonic = loop.time
    loop.set_exception_handler(lambda *_: None)

    async def bounded():
        return await asyncio.wait_for(main(), limit)

    loop.run_until_complete(bounded())
    os._exit(0)


async def settle(n=60):
    for _ in range(n):
        await asyncio.sleep(0)


async def cancel(task):
    task.cancel()
    await asyncio.gather(task, return_exceptions=True)


def obj(name, rv="1", ns="ns", **kw):
    return {"apiVersion": "v1", "kind": "Pod", "metadata": {"name": name, "namespace": ns, "uid": name, "resourceVersion": rv}, **kw}


class Watch:
    def __init__(self):
        self.q = asyncio.Queue()
        self.closed = False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *_):
        self.closed = True

    def __aiter__(self):
        return self

    async def __anext__(self):
        e = await self.q.get()
        if e is None:
            raise StopAsyncIteration
        if isinstance(e, Exception):
            raise e
        return e


class Server:
    """Objects, history and watches of one kind; list and watch are the lister-watcher's."""

    make = staticmethod(obj)

    def __init__(self, *names):
        self.rv = 10
        self.items = {}
        self.log = []
        self.watches = []
        self.requests = []
        self.fail_list = 0
        self.fail_watch = 0
        self.oldest = 0
        for n in names:
            self.put(n)

    def _emit(self, type_, o):
        e = {"type": type_, "object": o}
        self.log.append((self.rv, e))
        for w in self.watches:
            if not w.closed:
                w.q.put_nowait(e)

    def put(self, name, ns="ns", **kw):
        self.rv += 1
        new = (ns, name) not in self.items
        o = self.make(name, str(self.rv), ns, **kw)
        self.items[ns, name] = o
        self._emit("ADDED" if new else "MODIFIED", o)
        return o

    def remove(self, name, ns="ns"):
        self.rv += 1
        o = self.items.pop((ns, name))
        o = self.make(name, str(self.rv), ns)
        self._emit("DELETED", o)

    def end_watches(self, error=None):
        for w in self.watches:
            if not w.closed:
                w.q.put_nowait(error)
        self.watches = []

    async def list(self, options):
        self.requests.append(("list", self.rv))
        if self.fail_list:
            self.fail_list -= 1
            raise Exception("list")
        return self.make_list(str(self.rv), list(self.items.values()))

    def make_list(self, rv, items):
        return {"metadata": {"resourceVersion": rv}, "items": items}

    async def watch(self, options):
        return self.watch_now(options)

    def watch_now(self, options):
        rv = int(options["resource_version"])
        self.requests.append(("watch", rv))
        if self.fail_watch:
            self.fail_watch -= 1
            raise Exception("watch")
        if rv < self.oldest:
            raise Exception("410 Gone")
        w = Watch()
        for v, e in self.log:
            if v > rv:
                w.q.put_nowait(e)
        self.watches.append(w)
        return w


class PodServer(Server):
    """A server of typed pods; install() puts it under the Kubernetes client."""

    @staticmethod
    def make(name, rv, ns="ns", **kw):
        from kubernetes_asyncio.client import models

        meta = models.V1ObjectMeta(name=name, namespace=ns or None, uid=name, resource_version=rv)
        return models.V1Pod(api_version="v1", kind="Pod", metadata=meta)

    def make_list(self, rv, items):
        from kubernetes_asyncio.client import models

        return models.V1PodList(items=items, metadata=models.V1ListMeta(resource_version=rv))

    def install(self):
        from kubernetes_asyncio import watch
        from kubernetes_asyncio.client import api

        async def list_pods(_, *args, **kw):
            return await self.list(kw)

        api.CoreV1Api.__init__ = lambda self, api_client=None: None
        api.CoreV1Api.list_pod_for_all_namespaces = list_pods
        api.CoreV1Api.list_namespaced_pod = list_pods
        watch.Watch.__init__ = lambda self, return_type=None: None
        watch.Watch.stream = lambda _, func, *args, **kw: self.watch_now(kw)


class Recorder:
    """An informer's handler."""

    def __init__(self):
        self.calls = []

    async def on_add(self, o):
        self.calls.append(("add", name_of(o)))

    async def on_update(self, old, new):
        self.calls.append(("update", name_of(new)))

    async def on_delete(self, o):
        self.calls.append(("delete", name_of(o)))


def name_of(o):
    if hasattr(o, "key"):
        return o.key.split("/")[-1]
    return o["metadata"]["name"] if isinstance(o, dict) else o.metadata.name
