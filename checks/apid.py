"""A fake API server for one kind of object: list, watch, faults and server-side changes, all decided by the explorer."""
import asyncio

from aiok8s.runtime import schema
from kubernetes_asyncio.client.exceptions import ApiException


class Meta:
    def __init__(self, namespace, name, rv, uid=None):
        self.namespace = namespace
        self.name = name
        self.resource_version = rv
        self.uid = uid or "uid-%s" % name


class Obj:
    """A typed object."""

    api_version = "v1"
    kind = "Obj"

    def __init__(self, namespace, name, rv, body=None):
        self.metadata = Meta(namespace, name, rv)
        self.body = body

    def __repr__(self):
        return "%s@%s" % (self.metadata.name, self.metadata.resource_version)


class ObjList:
    def __init__(self, items, rv):
        self.items = items
        self.metadata = Meta(None, None, rv)


GVK = schema.GroupVersionKind("example.com", "v1", "Obj")


class UObj(dict):
    """An untyped object (a dict with a short repr)."""

    def __repr__(self):
        return "%s@%s" % (self["metadata"]["name"], self["metadata"]["resourceVersion"])


def typed(name, rv, body=None):
    return Obj("ns", name, str(rv), body)


def untyped(name, rv, body=None):
    return UObj(apiVersion="example.com/v1", kind="Obj", metadata=dict(namespace="ns", name=name, uid="uid-" + name, resourceVersion=str(rv)), body=body)


def name_of(o):
    return o["metadata"]["name"] if isinstance(o, dict) else o.metadata.name


def rv_of(o):
    return o["metadata"]["resourceVersion"] if isinstance(o, dict) else o.metadata.resource_version


class ApiError(Exception):
    pass


# what a request or a stream fails with depends on how many there were before
ERRORS = [
    lambda: ApiError("failed"),
    lambda: ConnectionRefusedError(111, "connection refused"),
    lambda: ApiException(status=410, reason="Gone"),
    lambda: asyncio.TimeoutError(),
    lambda: ValueError("no such thing"),
    lambda: ApiException(status=500, reason="Internal Server Error"),
    lambda: ConnectionResetError(104, "connection reset by peer"),
    lambda: EOFError(),
    lambda: AssertionError("failed"),
]


def failure(n):
    """The error of the n-th failing call of something that is not a request; includes those that the code itself catches somewhere."""
    return FAILURES[n % len(FAILURES)]()


FAILURES = [
    lambda: ValueError("failed"),
    lambda: KeyError("failed"),
    lambda: asyncio.TimeoutError(),
    lambda: RuntimeError("failed"),
    lambda: asyncio.QueueEmpty(),
    lambda: ConnectionResetError(104, "connection reset by peer"),
    lambda: AssertionError(),
    lambda: IndexError("failed"),
    lambda: asyncio.QueueFull(),
    lambda: AttributeError("failed"),
]
LIST_FAULTS = ("raise", "malformed")
WATCH_FAULTS = ("raise", "gone")
STREAM_FAULTS = ("end", "raise", "error")


class Server:
    """objects: {name: object}; every change gets the next resource version.

    list_faults/watch_faults: outcomes of those requests besides "ok" (deviation kind "fault").
    stream_faults: what may happen to a stream instead of its next event, or while it is idle.
    gate_requests: a request completes when the explorer says so (else at once).
    gate_events:   so does the delivery of every event.
    """

    def __init__(self, env, *, make=typed, list_faults=(), watch_faults=(), stream_faults=(), gate_requests=True, gate_events=False, snapshot_early=False, name=""):
        self.env = env
        self.make = make
        self.list_faults = tuple(list_faults)
        self.watch_faults = tuple(watch_faults)
        self.stream_faults = tuple(stream_faults)
        self.gate_requests = gate_requests
        self.gate_events = gate_events
        self.snapshot_early = snapshot_early
        self.name = name
        self.rv = 1
        self.objects = {}
        self.log = []  # (rv, type, object)
        self.calls = []  # ("list", time) / ("watch", time, rv) as requested
        self.events = []  # what the client can have seen: ("list", rv) ("watch", rv) ("event", type, obj) ("end",) ("raise",) ("error",) ("fail", what)
        self.lists = []  # ("list", rv, names) of every list that was answered
        self.streams = []
        self.max_open = 0
        self.slow_close = 0  # how long it takes to close a watch
        self.hold = 0  # how long every list takes
        self.oldest = 0  # watches from before this version are told that it is gone

    # ------------------------------------------------------------ server side
    def change(self, op, name, body=None):
        self.rv += 1
        if op == "set":
            new = name not in self.objects
            o = self.make(name, self.rv, body)
            self.objects[name] = o
            self.log.append((self.rv, "ADDED" if new else "MODIFIED", o))
        elif op == "del":
            if name not in self.objects:
                self.rv -= 1
                return
            old = self.objects.pop(name)
            o = self.make(name, self.rv, old["body"] if isinstance(old, dict) else old.body)
            self.log.append((self.rv, "DELETED", o))
        elif op == "bookmark":
            self.log.append((self.rv, "BOOKMARK", self.make("bookmark", self.rv)))
        elif op == "replace":  # deleted and created again at once
            self.rv -= 1
            self.change("del", name)
            self.change("set", name, body)
            return
        elif op == "silent":  # some other kind changed: the version moves on
            pass
        else:
            raise AssertionError(op)
        for s in self.streams:
            s.wake()

    def compact(self):
        self.oldest = self.rv

    # ------------------------------------------------------------ client side
    async def list(self, options=None):
        env = self.env
        self.calls.append(("list", env.rel()))
        ns = (options or {}).get("namespace")
        early = (self.visible(ns), self.rv) if self.snapshot_early else None
        o = "ok"
        if self.hold:
            await asyncio.sleep(self.hold)
        if self.gate_requests:
            o = await env.gate(self.name + "list", ("ok",) + self.list_faults)
        elif self.list_faults:
            o = env.pick(self.name + "list", ("ok",) + self.list_faults, kind="fault")
        if o == "raise":
            self.events.append(("fail", "list"))
            raise self.error()
        if o == "timeout":
            self.events.append(("fail", "list"))
            raise asyncio.TimeoutError
        if o == "malformed":
            self.events.append(("fail", "list"))
            return None
        items, rv = early or (self.visible(ns), self.rv)
        self.events.append(("list", str(rv)))
        self.lists.append(("list", str(rv), [self.key(x) for x in items]))
        return self.make_list(items, str(rv))

    @staticmethod
    def key(o):
        return name_of(o)

    def seen(self):
        """What the client can have seen, readable."""
        return [(e[1], "%s@%s" % (self.key(e[2]), rv_of(e[2]))) if e[0] == "event" else e for e in self.events]

    def visible(self, ns):
        return [o for o in self.objects.values() if not ns or o.metadata.namespace == ns]

    def make_list(self, items, rv):
        if self.make is typed:
            return ObjList(items, rv)
        return dict(items=items, metadata=dict(resourceVersion=rv))

    async def watch(self, options=None):
        env = self.env
        rv = (options or {}).get("resource_version")
        self.calls.append(("watch", env.rel(), rv))
        o = "ok"
        if self.gate_requests:
            o = await env.gate(self.name + "watch", ("ok",) + self.watch_faults)
        elif self.watch_faults:
            o = env.pick(self.name + "watch", ("ok",) + self.watch_faults, kind="fault")
        if o == "raise":
            self.events.append(("fail", "watch"))
            raise self.error()
        self.events.append(("watch", rv))
        s = Stream(self, rv, ns=(options or {}).get("namespace"), gone=o == "gone" or int(rv or 0) < self.oldest)
        self.streams.append(s)
        self.max_open = max(self.max_open, self.open())
        return s

    def error(self):
        return ERRORS[(len(self.calls) + sum(s.delivered for s in self.streams) - 1) % len(ERRORS)]()

    def open(self):
        return sum(1 for s in self.streams if not s.closed)


class Stream:
    def __init__(self, server, rv, gone, ns=None):
        self.server = server
        self.ns = ns
        self.pos = int(rv or 0)
        self.gone = gone
        self.closed = False
        self.ended = False
        self.delivered = 0
        self.waker = None
        self.synthetic = []
        if not self.pos:  # no version: the current objects, as additions, and what changes from now on
            self.pos = server.rv
            self.synthetic = [(self.pos, "ADDED", o) for o in server.visible(ns)]

    def wake(self):
        if self.waker is not None and not self.waker.done():
            self.waker.set_result("wake")

    def __aiter__(self):
        return self

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        try:
            if self.server.slow_close:
                await asyncio.sleep(self.server.slow_close)
        finally:
            self.closed = True
            self.wake()

    async def stop(self):
        self.closed = True
        self.wake()

    async def __anext__(self):
        sv, env = self.server, self.server.env
        while True:
            if self.closed or self.ended:
                raise StopAsyncIteration
            if self.gone:
                self.gone = False
                self.ended = True
                sv.events.append(("error",))
                return dict(type="ERROR", object=dict(kind="Status", code=410), raw_object={})
            nxt = self.synthetic[0] if self.synthetic else next((e for e in sv.log if e[0] > self.pos and (not self.ns or e[2].metadata.namespace == self.ns)), None)
            if nxt is None:
                o = await self._idle()
                if o == "wake":
                    continue
            elif sv.gate_events:
                o = await env.gate(sv.name + "event", ("ok",) + sv.stream_faults)
            elif sv.stream_faults:
                o = env.pick(sv.name + "event", ("ok",) + sv.stream_faults, kind="fault") if not env.frozen else "ok"
            else:
                o = "ok"
            if self.closed:
                raise StopAsyncIteration
            if o == "ok":
                if self.synthetic:
                    self.synthetic.pop(0)
                self.pos = nxt[0]
                self.delivered += 1
                sv.events.append(("event", nxt[1], nxt[2]))
                return dict(type=nxt[1], object=nxt[2], raw_object=nxt[2])
            self.ended = True
            sv.events.append((o,))
            if o == "end":
                raise StopAsyncIteration
            if o == "raise":
                raise sv.error()
            if o == "timeout":
                raise asyncio.TimeoutError
            if o == "error":
                return dict(type="ERROR", object=dict(kind="Status", code=500), raw_object={})
            raise AssertionError(o)

    async def _idle(self):
        sv, env = self.server, self.server.env
        if sv.stream_faults and not env.frozen:
            self.waker = env.gate(sv.name + "idle stream", sv.stream_faults, optional=True, order="fault", early=None)
        else:
            self.waker = env.loop.create_future()
        try:
            return await self.waker
        finally:
            self.waker = None


async def drive(env, server, ops, gated=True):
    """Carries out server-side changes, one per gate."""
    for op in ops:
        if gated:
            await env.gate("%s%s" % (server.name, "-".join(map(str, op))), prio=1)
        server.change(*op)


def histories(names, ops, depth):
    """All sequences of `depth` changes, the first one of the first name (symmetry)."""
    out = [()]
    for i in range(depth):
        out = [h + ((o, n),) for h in out for o in ops for n in names if not (o == "del" and not _alive(h, n))]
    return out


def _alive(h, n):
    live = False
    for op, x in h:
        if x == n:
            live = op in ("set", "replace")
    return live
