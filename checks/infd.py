"""Driver shared by the informer checks: handlers that record, delay and judge what they are told."""
import asyncio

from aiok8s.cache import delta_fifo
from checks import apid
from checks.apid import name_of, rv_of


def key_of(o):
    return "ns/" + name_of(o)


def content(s):
    return sorted((name_of(o), rv_of(o)) for o in s.list())


def want(sv):
    return sorted((n, rv_of(o)) for n, o in sv.objects.items())


class Handler:
    """Records its notifications and checks that they form one history.

    mode: "fast", "gate" (every call waits for the explorer), a number (every call takes that long),
          "block" (the explorer may let a call never return), "raise" (it may let a call fail)
    """

    def __init__(self, env, name, mode="fast", cache=None, exact=False, faults=None):
        self.env = env
        self.name = name
        self.mode = mode
        self.cache = cache  # callable: the cache; when given with exact=True it must show each change when it is notified
        self.exact = exact
        self.view = {}  # name -> version last told of
        self.calls = []  # (time, kind, name, old version, new version)
        self.running = 0
        self.failed = []  # indices of calls that failed
        self.blocked = False
        self.closed = False
        self.strict = True

    def show(self):
        return "%s was told: %s" % (self.name, ", ".join("%s %s %s" % (k, n, "%s->%s" % (o, v) if k == "update" else v) for _, k, n, o, v in self.calls))

    async def on_add(self, obj):
        await self._call("add", obj, None)

    async def on_update(self, old, new):
        await self._call("update", new, old)

    async def on_delete(self, obj):
        await self._call("delete", obj, None)

    async def _call(self, kind, obj, old):
        env = self.env
        env.check(not self.closed, "%s was called after the end: %s %r", self.name, kind, obj)
        key = None
        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
            env.check(kind == "delete", "%s was given a tombstone for an %s", self.name, kind)
            key, obj = obj.key, obj.obj
            env.check(obj is None or key_of(obj) == key, "%s was given a tombstone for %r with %r", self.name, key, obj)
            n = key.split("/")[1]
            rv = rv_of(obj) if obj is not None else None
        else:
            n, rv = name_of(obj), rv_of(obj)
        orv = rv_of(old) if old is not None else None
        self.calls.append((env.rel(), kind, n, orv, rv))
        env.check(self.running == 0, "%s is called while a call is running; %s", self.name, self.show)
        if self.strict:
            cur = self.view.get(n)
            if kind == "add":
                env.check(cur is None, "%s was told twice of the add of %s; %s", self.name, n, self.show)
            elif kind == "update":
                env.check(name_of(old) == n, "%s got an update of %s with old object %r", self.name, n, old)
                env.check(cur is not None, "%s was told of an update of %s without an add; %s", self.name, n, self.show)
                env.check(cur == orv, "%s was told of an update of %s from %s, but knew %s; %s", self.name, n, orv, cur, self.show)
                env.check(int(rv) >= int(orv), "%s was told of an update of %s to an older version; %s", self.name, n, self.show)
            else:
                env.check(cur is not None, "%s was told of the deletion of %s without an add; %s", self.name, n, self.show)
        if kind == "delete":
            self.view.pop(n, None)
        else:
            self.view[n] = rv
        if self.exact:
            c = content(self.cache())
            env.check(c == sorted(self.view.items()), "%s was told %s %s@%s; replaying its notifications gives %r, but the cache has %r; %s", self.name, kind, n, rv, sorted(self.view.items()), c, self.show)
        self.running += 1
        try:
            if self.mode == "fast":
                pass
            elif self.mode == "raise":
                if env.choose(self.name + " fails", 2, kind="fail"):
                    self.failed.append(len(self.calls) - 1)
                    raise apid.failure(len(self.calls))
            elif env.frozen:
                pass
            elif self.mode == "gate":
                await env.gate(self.name + "." + kind, prio=0)
            elif self.mode == "block":
                if not self.blocked and env.choose(self.name + " blocks", 2, kind="block"):
                    self.blocked = True
                    await env.loop.create_future()
            elif self.mode:
                await asyncio.sleep(self.mode)
        finally:
            self.running -= 1


def changes(h):
    """The notifications of a handler without resyncs: (kind, name, version)."""
    return [(k, n, v) for _, k, n, o, v in h.calls if not (k == "update" and o == v)]
