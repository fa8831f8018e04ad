"""I02: every shared-informer handler sees one consistent history."""
import asyncio

from aiok8s.cache import index, list_watch, shared_informer
from checks import apid, infd
from mc.explore import Scenario


def new(sv, resync, indexers=False):
    lw = list_watch.ListWatch(sv.list, sv.watch)
    t = apid.Obj if sv.make is apid.typed else apid.GVK
    if indexers:
        return shared_informer.new_shared_index_informer(lw, t, resync, index.Indexers())
    return shared_informer.new_shared_informer(lw, t, resync)


def same_order(env, a, b, skip):
    """Two handlers were told of the changes they share in the same order."""
    ca, cb = [c for c in infd.changes(a)], [c for c in infd.changes(b)]
    both = (set(ca) & set(cb)) - skip
    ca, cb = [c for c in ca if c in both], [c for c in cb if c in both]
    env.check(ca == cb, "handlers saw different orders: %s / %s", a.show, b.show)


async def histories(env, initial, programs, handlers, faults=None, make="typed", resync=0, gate_events=False, late_at=("quiet",), pauses=(0.4,), bound=8, snapshot_early=False):
    """handlers: (mode, resync period, "early" or "late"); late ones are registered while changes go on."""
    f = faults or {}
    sv = apid.Server(env, make=getattr(apid, make), list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events, snapshot_early=snapshot_early)
    for n in initial:
        sv.change("set", n)
    inf = new(sv, resync)
    hs, replayed = [], {}
    late = []
    for i, (mode, period, when) in enumerate(handlers):
        h = infd.Handler(env, "h%d" % i, mode)
        hs.append(h)
        if when == "early":
            await inf.add_event_handler(h, resync_period=period)
        else:
            late.append((h, period))
    t = asyncio.ensure_future(inf.run())

    async def register():
        for h, period in late:
            if gates:
                await env.gate("register " + h.name, prio=1)
            await inf.add_event_handler(h, resync_period=period)
            replayed[h.name] = True

    gates = env.pick("registration", late_at) == "racing" if late else False
    if not gates:
        await env.quiesce()
    reg = asyncio.ensure_future(register())
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))

    def agree():
        env.check(reg.done() and reg.exception() is None, "the registration of a handler does not complete: %r; %s", reg, hs[0].show)
        c = infd.content(inf.get_indexer())
        for h in hs:
            env.check(c == sorted(h.view.items()), "when things are quiet the cache has %r; %s", c, h.show)

    await env.quiesce()
    agree()
    for p in pauses:
        await asyncio.sleep(p)
        await env.quiesce()
        agree()
    for op in prog[:1]:
        sv.change(*op)
    await env.quiesce()
    env.frozen = True
    env.check(d.done(), "internal: changes are not through")
    await asyncio.sleep(bound)
    await env.quiesce()
    env.check(not t.done(), "the informer ended: %r", t)
    agree()
    env.check(infd.content(inf.get_indexer()) == infd.want(sv), "%g s after the last fault the cache has %r and the server %r", bound, lambda: infd.content(inf.get_indexer()), lambda: infd.want(sv))
    for h in hs[1:]:
        # a handler that was registered later starts with adds of what is cached, in any order
        n = 0
        while n < len(h.calls) and h.calls[n][1] == "add":
            n += 1
        same_order(env, hs[0], h, {("add", c[2], c[4]) for c in h.calls[:n]})
    env.log([h.show() for h in hs])
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


def scenarios(tier):
    t = tier == "thorough"
    p2 = apid.histories(("a", "b"), ("set", "del"), 2)
    few = [(("set", "a"), ("set", "b")), (("del", "a"), ("set", "a")), (("set", "b"), ("del", "a")), (("replace", "a"), ("set", "b"))]
    lost = dict(stream=("raise", "end"))
    n = 3 if t else 2
    return [
        Scenario("watch-and-relist", histories, budget={"fault": n}, params=dict(initial=("a",), programs=few + p2, handlers=(("fast", 0, "early"), ("fast", 0, "early"), ("fast", 0, "late")), faults=dict(stream=("raise", "end"), watch=("raise",)))),
        Scenario("untyped", histories, budget={"fault": n - 1}, params=dict(initial=("a",), programs=few, make="untyped", handlers=(("fast", 0, "early"), ("fast", 0, "late")), faults=dict(stream=("raise", "end")))),
        Scenario("late", histories, budget={"order": 2, "sched": 2, "fault": 1}, total=n + (1 if t else 0), params=dict(initial=("a", "b"), programs=few, handlers=(("fast", 0, "early"), ("fast", 0, "late")), faults=lost, late_at=("racing",))),
        Scenario("late-slow", histories, budget={"order": 2, "sched": 1, "fault": 1}, total=n, params=dict(initial=("a", "b"), programs=few, handlers=(("gate", 0, "early"), ("gate", 0, "late")), faults=lost, late_at=("racing",))),
        Scenario("slow", histories, budget={"fault": 2, "order": 2}, total=n, params=dict(initial=("a", "b"), programs=few, handlers=(("gate", 0, "early"), ("fast", 0, "early")), faults=lost)),
        Scenario("resync", histories, budget={"fault": 2, "order": 1}, total=n, params=dict(initial=("a",), programs=few, handlers=(("fast", 4, "early"), ("fast", 0, "early"), ("fast", 2, "late")), resync=2, faults=lost, pauses=(1.1, 1.1, 2.1))),
        Scenario("resync-races", histories, budget={"fault": 1, "time": 1, "order": 1, "sched": int(t)}, total=2, params=dict(initial=("a", "b") if t else ("a",), programs=few[:3] if t else few[3:], handlers=(("gate", 2, "early"), ("fast", 4, "early"), ("fast", 0, "late")), resync=2, faults=lost, late_at=("racing",), pauses=(2.1, 2.1) if t else (2.1,))),
    ]


ASSUMPTIONS = ["handlers return, and do not fail (see I03)", "requests complete or fail"]
