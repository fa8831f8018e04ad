"""A fake cluster under the real kubernetes client classes, for the checks of the controller runtime.

The methods of CoreV1Api and the response stream of a watch request are replaced; kubernetes_asyncio.watch.Watch is
the real one.  Names of objects are "namespace/name" (or "name" for an object without a namespace).
"""
import asyncio
import functools
import json

from kubernetes_asyncio import watch as kwatch
from kubernetes_asyncio.client import api, models

from checks import apid

V1Pod = models.V1Pod
SERVERS = {}  # kind -> the server of the current execution
KINDS = {"Pod": (V1Pod, models.V1PodList, "pod"), "ConfigMap": (models.V1ConfigMap, models.V1ConfigMapList, "config_map")}


def make(kind, name, rv, body=None):
    ns, _, n = name.rpartition("/")
    return KINDS[kind][0](
        api_version="v1",
        kind=kind,
        metadata=models.V1ObjectMeta(namespace=ns or None, name=n, uid="uid-" + name, resource_version=str(rv), labels={"body": str(body)}),
    )


def key_of(o):
    m = o.metadata
    return "%s/%s" % (m.namespace, m.name) if m.namespace else m.name


pod = functools.partial(make, "Pod")


class Server(apid.Server):
    def __init__(self, env, kind="Pod", **kw):
        super().__init__(env, make=self._make, **kw)
        self.kind = kind
        self.by_line = []
        self.reqs = []  # (method, resource version, namespace)
        SERVERS[kind] = self

    key = staticmethod(key_of)

    def _make(self, name, rv, body=None):
        return make(self.kind, name, rv, body)

    def change(self, op, name, body=None):
        if op == "del" and name in self.objects:
            self.rv += 1
            self.objects.pop(name)
            self.log.append((self.rv, "DELETED", self._make(name, self.rv)))
            for s in self.streams:
                s.wake()
            return
        if op == "del":
            return
        super().change(op, name, body)

    def make_list(self, items, rv):
        return KINDS[self.kind][1](items=items, metadata=models.V1ListMeta(resource_version=rv))


class _Content:
    def __init__(self, stream):
        self.stream = stream

    async def readline(self):
        sv = self.stream.server
        try:
            ev = await self.stream.__anext__()
        except StopAsyncIteration:
            return b""
        if ev["type"] == "ERROR":
            return json.dumps(dict(type="ERROR", object=dict(code=ev["object"]["code"], reason="Gone", message="gone"))).encode()
        sv.by_line.append(ev["object"])
        m = ev["object"].metadata
        raw = dict(of=sv.kind, line=len(sv.by_line) - 1, metadata=dict(resourceVersion=m.resource_version, name=m.name, namespace=m.namespace))
        return json.dumps(dict(type=ev["type"], object=raw)).encode()


class _Response:
    def __init__(self, stream):
        self.stream = stream
        self.content = _Content(stream)

    def release(self):
        self.stream.closed = True
        self.stream.wake()

    close = release


class _ApiClient:
    def deserialize(self, response=None, response_type=None, **kw):
        raw = json.loads(response.data)
        return SERVERS[raw["of"]].by_line[raw["line"]]

    async def close(self):
        pass


async def _request(kind, namespace, kw):
    sv = SERVERS[kind]
    options = {"resource_version": kw.get("resource_version"), "namespace": namespace}
    sv.reqs.append(("watch" if kw.get("watch") else "list", kw.get("resource_version"), namespace))
    if kw.get("watch"):
        return _Response(await sv.watch(options))
    return await sv.list(options)


def _patch(cls, kind, one, every):
    @functools.wraps(getattr(cls, one))
    async def of_namespace(self, namespace, **kw):
        return await _request(kind, namespace, kw)

    @functools.wraps(getattr(cls, every))
    async def of_all(self, **kw):
        return await _request(kind, None, kw)

    setattr(cls, one, of_namespace)
    setattr(cls, every, of_all)


def install():
    cls = api.CoreV1Api
    if getattr(cls, "_mc_patched", False):
        return
    cls._mc_patched = True

    def init(self, api_client=None):
        self.api_client = api_client

    cls.__init__ = init
    for kind, (_, _, n) in KINDS.items():
        _patch(cls, kind, "list_namespaced_" + n, "list_%s_for_all_namespaces" % n)

    def winit(self, return_type=None):
        self._raw_return_type = return_type
        self._stop = False
        self._api_client = _ApiClient()
        self.resource_version = None
        self.resp = None

    kwatch.Watch.__init__ = winit


install()

from aiok8s.controller import cache as _cache  # noqa: E402
from aiok8s.controller import controller as _controller  # noqa: E402
from aiok8s.controller import builder, handler, manager, reconcile, source  # noqa: E402, F401


def second_kind():
    """Registers a client for config maps next to the one for pods; says whether that worked."""
    from aiok8s.controller import client
    from aiok8s.runtime import schema

    if KINDS["ConfigMap"][0] in _registered:
        return True
    try:
        pods = client._PodClient

        class _ConfigMapClient(client._Client):
            gvk = schema.GroupVersionKind("", "v1", "ConfigMap")
            object_type = models.V1ConfigMap
            api_cls = pods.api_cls

            def _get_lister(self, namespace):
                if namespace:
                    return self._api_client.list_namespaced_config_map
                return self._api_client.list_config_map_for_all_namespaces

        client.gvk_for_object(models.V1ConfigMap)
        if not callable(pods._get_lister):
            return False
    except AttributeError:
        return False
    _registered.append(models.V1ConfigMap)
    return True


_registered = []


def new_manager(**kw):
    """A manager, with a cache of the given settings."""
    if not kw:
        return manager.new()
    real = _cache.new
    _cache.new = lambda: real(**kw)
    try:
        return manager.new()
    finally:
        _cache.new = real


ERRORS = [ValueError, asyncio.TimeoutError, KeyError, ConnectionError, asyncio.QueueEmpty, RuntimeError, type("Odd", (Exception,), {"__bool__": lambda _: False})]


class Reconciler:
    """Looks its request up in the cache; records what it saw; its outcome is decided by `script`."""

    def __init__(self, env, cache, gate=False, script=None, prio=0, kind=V1Pod, cleanup=0):
        self.env = env
        self.kind = kind
        self.cache = cache
        self.gate = gate
        self.script = script
        self.prio = prio
        self.runs = []  # [key, start, end, version seen or None, outcome]
        self.active = {}
        self.closed = False
        self.guard = None
        self.cleanup = cleanup  # how long a cancelled reconcile takes to end
        self.cut = []  # those that could not end in peace

    async def reconcile(self, request):
        env = self.env
        nn = request.namespaced_name
        key = "%s/%s" % (nn.namespace, nn.name) if nn.namespace else nn.name
        env.check(not self.closed, "a reconcile of %s after the end", key)
        env.check(not self.active.get(key), "%s is reconciled twice at the same time: %r", key, self.runs)
        if self.guard:
            self.guard(key)
        run = [key, env.rel(), None, "?", None]
        self.runs.append(run)
        self.active[key] = True
        try:
            try:
                o = await self.cache.get(nn, self.kind)
                run[3] = o.metadata.resource_version
            except KeyError:
                run[3] = None
            if self.gate and not env.frozen:
                await env.gate("reconcile %s" % key, prio=self.prio)
            out = self.script(key, run) if self.script else "ok"
            if asyncio.iscoroutine(out):
                out = await out
            run[4] = out
            if out == "raise":
                raise ERRORS[len(self.runs) % len(ERRORS)]("the reconcile failed")
            if out == "ok":
                return reconcile.Result()
            if out == "requeue":
                return reconcile.Result(requeue=True)
            if out[0] == "after":
                return reconcile.Result(requeue_after=out[1])
            if out[0] == "both":
                return reconcile.Result(requeue=True, requeue_after=out[1])
            raise AssertionError(out)
        except asyncio.CancelledError:
            if self.cleanup:
                try:
                    await asyncio.sleep(self.cleanup)
                except asyncio.CancelledError:
                    self.cut.append(key)
            raise
        finally:
            run[2] = env.rel()
            self.active[key] = False

    def show(self):
        return "; ".join("%s at %.3f-%s saw %s: %s" % (k, a, "%.3f" % b if b is not None else "", v, o) for k, a, b, v, o in self.runs)
