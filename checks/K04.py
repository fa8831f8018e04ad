"""K04: the manager starts workers only after sync and stops everything."""
import asyncio

from checks import apid, kubed
from mc.explore import Scenario


async def build(env, mgr, controllers, gate, workers=1, cleanup=0):
    recs = []
    for i in range(controllers):
        r = kubed.Reconciler(env, mgr.get_cache(), gate=gate, cleanup=cleanup)
        recs.append(r)
        if workers == 1:
            await kubed.builder.build_controller(mgr, r, api_type=kubed.V1Pod)
        else:
            await mgr.get_cache().get_informer(kubed.V1Pod)
            c = kubed._controller.new(mgr, reconciler=r)
            c.max_concurrent_reconciles = workers
            await c.watch(kubed.source.Kind(kubed.V1Pod), kubed.handler.EnqueueRequestForObject())
    return recs


async def startup(env, initial, faults, controllers=1, workers=1, bound=10, gate=False):
    f = faults or {}
    sv = kubed.Server(env, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()))
    for n in env.pick("initial", initial):
        sv.change("set", n)
    mgr = kubed.new_manager()
    recs = await build(env, mgr, controllers, gate, workers)

    def guard(key):
        env.check(sv.lists, "a reconcile of %s before the initial list", key)
        env.check(key in sv.lists[0][2], "internal: %s not listed", key)

    for r in recs:
        r.guard = guard
    t = asyncio.ensure_future(mgr.start())
    slow = env.pick("the list takes", (0, 0.05, 3.3))
    if slow:
        sv.hold = slow
    await env.quiesce()
    await asyncio.sleep(slow + 2.5)
    await env.quiesce()
    env.frozen = True
    await asyncio.sleep(bound)
    await env.quiesce()
    env.check(not t.done(), "the manager ended: %r", t)
    for r in recs:
        env.check(sorted({x[0] for x in r.runs}) == sorted(sv.objects), "%r were listed, but reconciled were: %s", sorted(sv.objects), r.show)
        for run in r.runs:
            env.check(run[3] is not None, "%s was reconciled before it was in the cache; %s", run[0], r.show)
            o = sv.objects[run[0]]
            env.check(run[3] == o.metadata.resource_version, "internal")
    env.log([r.show() for r in recs])
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


class Slow:
    """A handler that takes a while to end when it is cancelled."""

    active = 0
    takes = 0

    async def on_add(self, *_):
        self.active += 1
        try:
            await asyncio.sleep(1)
        finally:
            try:
                await asyncio.sleep(self.takes)
            finally:
                self.active -= 1

    on_update = on_delete = on_add


async def with_handler(mgr, h):
    await (await mgr.get_cache().get_informer(kubed.V1Pod)).add_event_handler(h)


async def cancel(env, initial, programs, faults, controllers=1, workers=1, gate=False, gate_events=False, pauses=(0.2, 0.4), script=None, unused=False, cleanup=0, handler=None):
    f = faults or {}
    sv = kubed.Server(env, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events)
    for n in initial:
        sv.change("set", n)
    mgr = kubed.new_manager()
    if not unused:
        recs = await build(env, mgr, controllers, gate, workers, cleanup)
    else:
        recs = []
    if script:
        for r in recs:
            r.script = lambda key, run, r=r: env.pick("outcome", script) if not env.frozen and len(r.runs) <= 3 else script[0]
    t = asyncio.ensure_future(mgr.start())
    at = []
    slow = Slow()

    def at_end(_):
        env.check(not slow.active, "the manager ended while a handler of an informer is running")
        for s in sv.streams:
            env.check(s.closed, "the manager ended while a watch is open; seen %r", sv.seen)
        for r in recs:
            env.check(not any(r.active.values()), "the manager ended while a reconcile is running; %s", r.show)

    t.add_done_callback(at_end)

    def do():
        at.append(env.rel())
        t.cancel()

    env.action("cancel", do, optional=True, early="cancel", order="cancel")
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))
    reads = []
    if unused:
        await asyncio.sleep(0)
        await env.quiesce()
        if handler:
            slow.takes = handler
            reads.append(asyncio.ensure_future(with_handler(mgr, slow)))
        reads.append(asyncio.ensure_future(mgr.get_cache().get(kubed.reconcile.NamespacedName("n1", "a"), kubed.V1Pod)))
    for p in pauses:
        await env.quiesce()
        await asyncio.sleep(p)
    await env.quiesce()
    if not at:
        env.frozen = True
        env.check(not t.done(), "the manager ended: %r", t)
        do()
    await env.quiesce()
    env.frozen = True
    await asyncio.sleep(2 + cleanup)
    await env.quiesce()
    env.check(t.done(), "the manager does not end when it is cancelled; %r", sv.reqs)
    env.check(t.cancelled(), "a cancelled manager ended as %r", t)
    for s in sv.streams:
        env.check(s.closed, "a watch is still open after the manager was cancelled; seen %r", sv.seen)
    for r in recs:
        env.check(not any(r.active.values()), "a reconcile is still running; %s", r.show)
        env.check(not r.cut, "the reconciles of %r were cancelled again while they ended", r.cut)
        r.closed = True
    n = len(sv.reqs)
    sv.change("set", "n1/z")
    await asyncio.sleep(60)
    await env.quiesce()
    env.check(len(sv.reqs) == n, "requests after the manager was cancelled: %r", sv.reqs[n:])
    for r in reads:
        r.cancel()
    await env.quiesce()
    left = env.left_over(d)
    env.check(not left, "tasks are left over: %r", left)
    env.log([r.show() for r in recs], len(sv.reqs))


def scenarios(tier):
    t = tier == "thorough"
    a, b = "n1/a", "n2/a"
    inits = ((), (a,), (a, b))
    few = [(("set", a), ("del", a)), (("set", b),)]
    n = 4 if t else 3
    lf = dict(list=("raise", "timeout"), watch=("raise",))
    return [
        Scenario("startup", startup, budget={"fault": n, "order": 1, "sched": 1}, total=n, params=dict(initial=inits, faults=lf)),
        Scenario("startup-time", startup, budget={"fault": 1, "time": 2}, total=n, params=dict(initial=inits[2:], faults=lf)),
        Scenario("startup-two", startup, budget={"fault": n, "order": 1}, total=n, params=dict(initial=inits[1:], faults=lf, controllers=2, gate=True)),
        Scenario("startup-workers", startup, budget={"fault": n, "order": 1}, total=n, params=dict(initial=inits[2:], faults=lf, workers=2, gate=True)),
        Scenario("cancel", cancel, budget={"cancel": 1, "fault": 2}, total=n, params=dict(initial=(a,), programs=few, faults=dict(list=("raise",), watch=("raise",), stream=("raise", "end")))),
        Scenario("cancel-orders", cancel, budget={"cancel": 1, "sched": 2, "order": 1}, total=n, params=dict(initial=(a, b), programs=few, faults={}, gate=True, gate_events=True)),
        Scenario("cancel-workers", cancel, budget={"cancel": 1, "order": 1, "sched": 1}, total=n, params=dict(initial=(a, b), programs=few, faults={}, gate=True, workers=2, controllers=2)),
        Scenario("cancel-cleanup", cancel, budget={"cancel": 1, "order": 1, "sched": 1}, total=n - 1, params=dict(initial=(a, b), programs=few, faults={}, gate=True, workers=2, controllers=2, cleanup=0.5)),
        Scenario("cancel-failing", cancel, budget={"cancel": 1}, params=dict(initial=(a,), programs=few[1:], faults={}, script=("raise", "requeue", ("after", 0.1)), pauses=(0.2, 1.1))),
        Scenario("cancel-time", cancel, budget={"cancel": 1, "time": 1}, total=2, params=dict(initial=(a,), programs=few[1:], faults={}, pauses=(0.2, 0.3))),
        Scenario("cancel-late-kind", cancel, budget={"cancel": 1, "fault": 1, "sched": 1}, total=n, params=dict(initial=(a,), programs=few[1:], faults=dict(list=("raise",)), unused=True)),
        Scenario("cancel-late-handler", cancel, budget={"cancel": 1, "sched": 1}, total=n - 1, params=dict(initial=(a,), programs=few[1:], faults={}, unused=True, handler=0.5, cleanup=0.5)),
    ]


ASSUMPTIONS = ["the manager is cancelled once", "reconciles end when they are cancelled, perhaps after half a second"]
