"""R01: the reflected store converges to the server after any faults."""
import asyncio

from aiok8s.cache import list_watch, reflector, store
from checks import apid
from mc.explore import Scenario


class Rec:
    """A store that records what is done to it, and fails when the explorer says so."""

    def __init__(self, env, faults=(), slow=False):
        self.env = env
        self.slow = slow
        self.running = 0
        self.before = None
        self.inner = store.new_store(store.meta_namespace_key_func)
        self.ops = []
        self.faults = faults

    async def _do(self, op, *args):
        self.ops.append((op,) + args)
        if self.before:
            self.before(op, *args)
        if op in self.faults and not self.env.frozen and self.env.choose("store.%s fails" % op, 2, kind="fault"):
            raise apid.failure(len(self.ops))
        if self.slow and not self.env.frozen:
            w = op != "resync"
            self.running += w
            self.env.check(self.running <= 1, "two store operations at once: %r", self.ops)
            try:
                await self.env.gate("store." + op)
            finally:
                self.running -= w
        if self.before:
            self.before(op, *args)
        if op != "resync":
            await getattr(self.inner, op)(*args)

    async def add(self, o):
        await self._do("add", o)

    async def update(self, o):
        await self._do("update", o)

    async def delete(self, o):
        await self._do("delete", o)

    async def replace(self, items, rv):
        await self._do("replace", list(items), rv)

    async def resync(self):
        await self._do("resync")


def content(s):
    return sorted((apid.name_of(o), apid.rv_of(o)) for o in s.list())


def want(sv):
    return sorted((n, apid.rv_of(o)) for n, o in sv.objects.items())


async def converge(env, initial, programs, make="typed", faults=None, store_faults=(), gate_events=False, snapshot_early=False, bound=8):
    mk = getattr(apid, make)
    f = faults or {}
    sv = apid.Server(env, make=mk, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events, snapshot_early=snapshot_early)
    for n in initial:
        sv.change("set", n)
    rec = Rec(env, store_faults)
    r = reflector.Reflector(list_watch.ListWatch(sv.list, sv.watch), apid.Obj if mk is apid.typed else apid.GVK, rec, 0)
    t = asyncio.ensure_future(r.run())
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))
    await env.quiesce()
    await asyncio.sleep(0.4)
    await env.quiesce()
    d2 = None
    for op in prog[:1]:  # one more change after things have been quiet for a moment
        d2 = asyncio.ensure_future(apid.drive(env, sv, [op]))
    await env.quiesce()
    if store_faults:
        await asyncio.sleep(1.5)
        await env.quiesce()
    env.log(tuple(e[:2] if e[0] != "event" else (e[1], repr(e[2])) for e in sv.events))
    env.frozen = True
    env.check(not t.done(), "the reflector ended: %r", t)
    if any(x in store_faults for x in ("add", "update", "delete")):
        # an event that the store rejected is made up for by the next list
        for s in sv.streams:
            s.gone = True
            s.wake()
    await asyncio.sleep(bound)
    await env.quiesce()
    env.check(not t.done(), "the reflector ended: %r", t)
    env.check(d.done() and (d2 is None or d2.done()), "internal: changes are not through")
    env.check(content(rec.inner) == want(sv), "%g s after the last fault the store has %r and the server %r; seen by the client: %r", bound, content(rec.inner), want(sv), sv.events)
    env.log(content(rec.inner))


FAULTS = dict(list=("raise", "malformed"), watch=("raise", "gone"), stream=("end", "raise", "error"))


def scenarios(tier):
    t = tier == "thorough"
    p2 = apid.histories(("a", "b"), ("set", "del"), 2)
    few = [(("set", "a"), ("set", "b")), (("del", "a"), ("set", "a")), (("set", "b"), ("del", "a")), (("replace", "a"),), (("silent", "x"), ("set", "a")), (("bookmark", "x"), ("del", "a"))]
    n = 4 if t else 3
    return [
        Scenario("faults", converge, budget={"fault": n}, params=dict(initial=("a",), programs=few + p2, faults=FAULTS)),
        Scenario("faults-untyped", converge, budget={"fault": 3 if t else 2}, params=dict(initial=("a",), programs=few, faults=FAULTS, make="untyped")),
        Scenario("orders", converge, budget={"fault": 2, "order": 2, "sched": 1}, total=3 if not t else 4, params=dict(initial=("a",), programs=few[:5], faults=FAULTS, gate_events=True)),
        Scenario("stale-list", converge, budget={"fault": 2, "order": 2}, total=3 if not t else 4, params=dict(initial=("a",), programs=few[:5], faults=dict(stream=("end", "raise")), snapshot_early=True)),
        Scenario("store-failures", converge, budget={"fault": 2 if not t else 3}, params=dict(initial=("a",), programs=few[:4], faults=dict(stream=("raise",)), store_faults=("replace", "add", "update", "delete"))),
        Scenario("replace-failures", converge, budget={"fault": 3 if not t else 4}, params=dict(initial=("a",), programs=few[:4], faults=dict(stream=("raise",)), store_faults=("replace",))),
        Scenario("timeouts", converge, budget={"fault": 2}, params=dict(initial=("a",), programs=few[:3], faults=dict(list=("timeout",), stream=("timeout",)))),
    ]


ASSUMPTIONS = ["requests complete or fail, they do not hang for ever", "a change rejected by the store is made up for by the next list only"]
