"""K01: every change of a watched object leads to a reconcile that sees it."""
import asyncio

from checks import apid, kubed
from mc.explore import Scenario


class Idle:
    """Another handler of the same informer."""

    async def on_add(self, obj):
        pass

    async def on_update(self, old, new):
        pass

    async def on_delete(self, obj):
        pass


async def register(mgr, n):
    i = await mgr.get_cache().get_informer(kubed.V1Pod)
    for _ in range(n):
        await i.add_event_handler(Idle())


async def pipeline(env, initial, programs, faults, gate=False, workers=1, gate_events=False, controllers=1, bound=8, pauses=(0.4,), resync=None, namespace=None, startup=False, others=(0,)):
    f = faults or {}
    sv = kubed.Server(env, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events)
    for n in initial:
        sv.change("set", n)
    kw = {}
    if resync is not None:
        kw["resync"] = resync
    if namespace is not None:
        kw["namespace"] = namespace
    mgr = kubed.new_manager(**kw)
    recs = []
    for i in range(controllers):
        r = kubed.Reconciler(env, mgr.get_cache(), gate=gate)
        recs.append(r)
        if workers == 1:
            await kubed.builder.build_controller(mgr, r, api_type=kubed.V1Pod)
        else:
            await mgr.get_cache().get_informer(kubed.V1Pod)
            c = kubed._controller.new(mgr, reconciler=r)
            c.max_concurrent_reconciles = workers
            await c.watch(kubed.source.Kind(kubed.V1Pod), kubed.handler.EnqueueRequestForObject())
    t = asyncio.ensure_future(mgr.start())
    n_others = env.pick("others", others)
    when = env.pick("when", ("first", "last")) if n_others else None
    if when == "first":
        await register(mgr, n_others)
    if not startup:
        await asyncio.sleep(0.35)
        await env.quiesce()
    if when == "last":
        await register(mgr, n_others)
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))

    def judge():
        """When things are quiet and the cache is up to date, the last reconcile of every key has seen its final state."""
        env.check(not t.done(), "the manager ended: %r", t)
        keys = set()
        for _, _, names in sv.lists:
            keys |= set(names)
        for e in sv.events:
            if e[0] == "event":
                keys.add(kubed.key_of(e[2]))
        for r in recs:
            last = {}
            for run in r.runs:
                last[run[0]] = run[3]
            for k in sorted(keys):
                if namespace and not k.startswith(namespace + "/"):
                    continue
                o = sv.objects.get(k)
                v = o.metadata.resource_version if o is not None else None
                if startup and o is None and k not in last:
                    continue  # gone before the controllers started
                env.check(k in last, "%s was never reconciled; %s; seen by the client %r", k, r.show, sv.seen)
                env.check(last[k] == v, "the last reconcile of %s saw %s, but it is at %s; %s; seen by the client %r", k, last[k], v, r.show, sv.seen)
            extra = set(last) - keys
            env.check(not extra, "reconciles of keys that never existed: %r", extra)

    await env.quiesce()
    for p in pauses:
        await asyncio.sleep(p)
        await env.quiesce()
    for op in prog[:1]:
        sv.change(*op)
    await env.quiesce()
    env.check(d.done(), "internal: changes are not through")
    env.frozen = True
    await asyncio.sleep(bound)
    await env.quiesce()
    judge()
    # and once more for each kind of change, one at a time
    for op in (("set", "n1/a"), ("set", "n2/a"), ("del", "n1/a"), ("set", "n1/a"), ("del", "n2/a")):
        sv.change(*op)
        await env.quiesce()
        judge()
    env.log([r.show() for r in recs])
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


FAULTS = dict(list=("raise",), watch=("raise", "gone"), stream=("end", "raise"))


def scenarios(tier):
    t = tier == "thorough"
    a, b = "n1/a", "n2/a"
    p2 = apid.histories((a, b), ("set", "del"), 2)
    few = [(("set", a), ("set", b)), (("del", a), ("set", a)), (("set", b), ("del", a)), (("replace", a), ("set", b)), (("del", a), ("del", b))]
    n = 3 if t else 2
    return [
        Scenario("startup", pipeline, budget={"fault": n, "order": 1}, total=n, params=dict(initial=(a,), programs=few + p2, faults=FAULTS, startup=True)),
        Scenario("faults", pipeline, budget={"fault": n}, params=dict(initial=(a,), programs=few + p2, faults=FAULTS)),
        Scenario("slow-reconciles", pipeline, budget={"fault": 1, "order": 2, "sched": 1}, total=n, params=dict(initial=(a, b), programs=few[:4], faults=dict(stream=("raise",)), gate=True)),
        Scenario("two-workers", pipeline, budget={"fault": 1, "order": 2, "sched": 1}, total=n, params=dict(initial=(a, b), programs=few[:3], faults=dict(stream=("raise",)), gate=True, workers=2)),
        Scenario("two-controllers", pipeline, budget={"fault": 2, "order": 1}, total=n, params=dict(initial=(a,), programs=few, faults=dict(stream=("raise", "end")), gate=True, controllers=2)),
        Scenario("resync", pipeline, budget={"fault": 2}, total=n, params=dict(initial=(a,), programs=few, faults=dict(stream=("raise", "end")), resync=2, pauses=(1.3, 2.2))),
        Scenario("other-handlers", pipeline, budget={"fault": 1, "order": 1}, total=1, params=dict(initial=(a,), programs=few, faults=dict(stream=("raise", "end")), others=(1, 3, 7, 20))),
        Scenario("namespace", pipeline, budget={"fault": n}, params=dict(initial=(a, b), programs=few, faults=dict(stream=("raise", "end")), namespace="n1")),
    ]


ASSUMPTIONS = ["requests complete or fail", "reconciles return and do not fail (see K02)"]
