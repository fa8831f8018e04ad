"""R02: watches resume exactly where the last list or event left off."""
import asyncio

from aiok8s.cache import list_watch, reflector
from checks import apid
from checks.R01 import Rec
from mc.explore import Scenario

OPS = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}


def judge(env, sv, rec, r):
    """The calls, what the client has seen and the store operations must fit together."""
    show = "seen by the client %r; store operations %r" % (sv.events, rec.ops)
    # 1. requested versions
    rv, since, watched = None, 0, False
    prev = None
    for e in sv.events:
        if e[0] == "list":
            env.check(prev != "end-with-events", "a list although the watch ended normally after events; %s", show)
            rv, since = e[1], 0
        elif e[0] in ("watch",):
            env.check(e[1] == rv, "a watch was requested from %r instead of %r; %s", e[1], rv, show)
            since = 0
        elif e[0] == "event":
            rv = apid.rv_of(e[2])
            since += 1
        if e[0] == "end":
            prev = "end-with-events" if since else "end"
        else:
            prev = e[0]
        if e[0] == "fail" and e[1] == "watch":
            prev = "fail"
    # 2. store operations, in order, each exactly once
    want = []
    for i, e in enumerate(sv.events):
        if e[0] == "list":
            want.append(("replace", e[1], None))
        elif e[0] == "event" and e[1] in OPS:
            want.append((OPS[e[1]], apid.rv_of(e[2]), e[2]))
    got = [("replace", o[2], None) if o[0] == "replace" else (o[0], apid.rv_of(o[1]), o[1]) for o in rec.ops if o[0] != "resync"]
    # events in front of an error may be dropped: the list that follows makes up for them
    broken = {}
    k = 0
    for i, e in enumerate(sv.events):
        if e[0] == "list" or (e[0] == "event" and e[1] in OPS):
            k += 1
        if e[0] in ("raise", "error"):
            j = k - 1
            while j >= 0 and want[j][0] != "replace":
                broken[j] = True
                j -= 1
    i = j = 0
    while i < len(want):
        if j < len(got) and got[j][:2] == want[i][:2] and (want[i][2] is None or got[j][2] is want[i][2]):
            j += 1
        else:
            env.check(i in broken, "expected the store operation %r, got %r; %s", want[i][:2], got[j][:2] if j < len(got) else None, show)
        i += 1
    env.check(j == len(got), "unexpected store operation %r; %s", got[j][:2] if j < len(got) else None, show)
    # 3. the version reported
    if rv is not None:
        env.check(r.last_sync_resource_version() == rv, "last_sync_resource_version is %r instead of %r; %s", r.last_sync_resource_version(), rv, show)


class Reports(Rec):
    """Watches the reported version: it may be that of a list or an event only once that has been applied."""

    def follow(self, sv, r):
        self.sv, self.r = sv, r
        self.applied = {""}
        self.before = self.look

    def look(self, op, *args):
        fine = self.applied | {apid.rv_of(e[2]) for e in self.sv.events if e[0] == "event" and e[1] not in OPS}
        if op != "replace":
            fine.add(apid.rv_of(args[0]))
        v = self.r.last_sync_resource_version()
        self.env.check(v in fine, "last_sync_resource_version is %r before that was applied; seen by the client %r; store operations %r", v, self.sv.events, self.ops)

    async def _do(self, op, *args):
        v = args[1] if op == "replace" else apid.rv_of(args[0])
        try:
            await super()._do(op, *args)
        except asyncio.CancelledError:
            raise
        except Exception:
            i = max(i for i, e in enumerate(self.sv.events) if e[0] == "list")
            self.sv.events[i] = ("fail", "list")
            del self.ops[-1]
            raise
        self.applied.add(v)


async def resume(env, initial, programs, faults, make="typed", pauses=False, gate_events=False, slow=False, store_faults=()):
    mk = getattr(apid, make)
    sv = apid.Server(env, make=mk, list_faults=faults.get("list", ()), watch_faults=faults.get("watch", ()), stream_faults=faults.get("stream", ()), gate_events=gate_events)
    for n in initial:
        sv.change("set", n)
    rec = Reports(env, store_faults, slow=slow)
    r = reflector.Reflector(list_watch.ListWatch(sv.list, sv.watch), apid.Obj if mk is apid.typed else apid.GVK, rec, 0)
    rec.follow(sv, r)
    env.eq(r.last_sync_resource_version(), "", "last_sync_resource_version before the first list")
    t = asyncio.ensure_future(r.run())
    prog = env.pick("changes", programs)
    for op in prog:
        if pauses:
            p = env.pick("pause", [0, 1.2])
            if p:
                await env.quiesce()
                await asyncio.sleep(p)
        await env.gate("change", prio=1)
        sv.change(*op)
    await env.quiesce()
    judge(env, sv, rec, r)
    await asyncio.sleep(1.5)
    await env.quiesce()
    judge(env, sv, rec, r)
    env.frozen = True
    await asyncio.sleep(4)
    await env.quiesce()
    env.check(not t.done(), "the reflector ended: %r", t)
    judge(env, sv, rec, r)
    env.log(tuple(e[:2] if e[0] != "event" else (e[1], repr(e[2])) for e in sv.events))


FAULTS = dict(list=("raise",), watch=("raise", "gone"), stream=("end", "raise", "error"))


def scenarios(tier):
    t = tier == "thorough"
    p2 = apid.histories(("a", "b"), ("set", "del"), 2)
    p3 = apid.histories(("a",), ("set", "del", "bookmark"), 3)
    few = [(("set", "a"), ("set", "b"), ("del", "a")), (("bookmark", "x"), ("set", "b"), ("bookmark", "y")), (("del", "a"), ("bookmark", "x"), ("silent", "y")), (("replace", "a"), ("replace", "a"))]
    return [
        Scenario("cuts", resume, budget={"fault": 3 if t else 2}, params=dict(initial=("a",), programs=few + p2 + p3, faults=FAULTS)),
        Scenario("ends", resume, budget={"fault": 4 if t else 3}, params=dict(initial=("a",), programs=few, faults=dict(stream=("end",)), pauses=True)),
        Scenario("untyped", resume, budget={"fault": 2}, params=dict(initial=("a",), programs=few, faults=FAULTS, make="untyped", pauses=True)),
        Scenario("orders", resume, budget={"fault": 2, "order": 2, "sched": 2}, total=3 if t else 2, params=dict(initial=("a",), programs=few[:3], faults=dict(stream=("end", "raise")), gate_events=True)),
        Scenario("failing-replace", resume, budget={"fault": 3 if t else 2}, params=dict(initial=("a",), programs=few + p2, faults=FAULTS, store_faults=("replace",), pauses=True)),
        Scenario("slow-store", resume, budget={"fault": 2, "order": 2, "sched": 1}, total=3 if t else 2, params=dict(initial=("a",), programs=few, faults=dict(stream=("end", "raise")), slow=True)),
    ]


ASSUMPTIONS = ["events in front of an error need not be applied: the list that follows makes up for them"]
