"""I06: an informer's controller hands every change to its process function and retries as configured."""
import asyncio

from aiok8s.cache import controller, delta_fifo, fifo, list_watch, store
from checks import apid, infd
from checks.apid import name_of, rv_of
from mc.explore import Scenario

T = delta_fifo.DeltaType


def key(o):
    return o.key if isinstance(o, delta_fifo.DeletedFinalStateUnknown) else infd.key_of(o)


async def process(env, retries, initial, programs, faults, kinds=("raise",), gate=False, gate_events=False, bound=8, pauses=(0.4,), resync=0, repair=False):
    """The process function may fail at each call; it applies what it is given to the store that the queue knows."""
    f = faults or {}
    retry = env.pick("retry on error", retries)
    sv = apid.Server(env, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events)
    for n in initial:
        sv.change("set", n)
    st = store.new_store(key)
    q = delta_fifo.DeltaFIFO(infd.key_of, st)
    calls = []  # [key, deltas, outcome]
    running = [0]
    due = []  # keys whose failed changes are to be handed out again

    async def fn(ds):
        env.check(not running[0], "two items are processed at the same time")
        env.check(len(ds) > 0, "an empty list of changes was handed out")
        keys = {key(d.object) for d in ds}
        env.check(len(keys) == 1, "changes of several keys were handed out together: %r", ds)
        k = keys.pop()
        c = [k, [(d.type.name, None if isinstance(d.object, delta_fifo.DeletedFinalStateUnknown) and d.object.obj is None else rv_of(getattr(d.object, "obj", d.object))) for d in ds], None]
        calls.append(c)
        running[0] += 1
        try:
            if gate and not env.frozen:
                await env.gate("process %s" % k, prio=0)
            o = env.pick("process %d" % len(calls), ("ok",) + kinds, "fail") if not env.frozen else "ok"
            c[2] = o
            if o == "raise":
                raise apid.failure(len(calls))
            if o == "timeout":
                raise asyncio.TimeoutError
            if o == "requeue":
                raise fifo.RequeueError
            if o == "requeue-error":
                raise fifo.RequeueError from apid.failure(len(calls))
            for d in ds:
                if d.type is T.DELETED:
                    await st.delete(d.object)
                else:
                    await st.update(d.object)
        finally:
            running[0] -= 1

    show = lambda: "; ".join("%s %r: %s" % tuple(c) for c in calls)
    cfg = controller.Config(queue=q, lister_watcher=list_watch.ListWatch(sv.list, sv.watch), process=fn, object_type=apid.Obj, full_resync_period=resync, retry_on_error=retry)
    c = controller.new(cfg)
    t = asyncio.ensure_future(c.run())
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))
    await env.quiesce()
    for p in pauses:
        await asyncio.sleep(p)
        await env.quiesce()
    for op in prog[:1]:
        sv.change(*op)
    await env.quiesce()
    env.frozen = True
    env.check(d.done(), "internal: changes are not through")
    await asyncio.sleep(bound)
    await env.quiesce()
    env.check(not t.done(), "the controller ended: %r", t)
    env.check(c.has_synced(), "the controller is not synced; %s", show)
    last = {}
    for k, ds, o in calls:
        last[k] = o
    if not retry:
        # a resync queues the object from before the lost change
        lost = {c[0] for c in calls if c[2] in ("raise", "timeout")} if resync else {k for k, o in last.items() if o in ("raise", "timeout")}
        # a failure is not retried, and disturbs nothing else
        for i, x in enumerate(calls):
            if x[2] in ("raise", "timeout"):
                nxt = next((y for y in calls[i + 1 :] if y[0] == x[0]), None)
                env.check(nxt is None or nxt[1] != x[1] or len(sv.lists) > 1 or resync, "failed changes were handed out again although retrying is off: %s", show)
    else:
        lost = set()
        env.check(all(o == "ok" for o in last.values()), "failed changes were not handed out again: %s", show)
    for i, x in enumerate(calls):
        if x[2] in ("requeue", "requeue-error") or (retry and x[2] in ("raise", "timeout")):
            nxt = next((y for y in calls[i + 1 :] if y[0] == x[0]), None)
            # (of two deletions in a row either may be kept)
            env.check(nxt is None or (nxt[1][: len(x[1]) - 1] == x[1][:-1] and nxt[1][len(x[1]) - 1][0] == x[1][-1][0]), "failed changes were not handed out again completely: %s", show)
    for k, o in last.items():
        if o in ("requeue", "requeue-error"):
            env.fail("changes that were to be queued again were not handed out again: %s" % show())
    have = {name_of(o): rv_of(o) for o in st.list()}
    want = {n: rv_of(o) for n, o in sv.objects.items()}
    for n in sorted(set(have) | set(want)):
        if "ns/" + n not in lost:
            env.check(have.get(n) == want.get(n), "%s is at %r on the server, but what was processed makes it %r: %s; seen %r", n, want.get(n), have.get(n), show, sv.seen)
    if repair:
        # a relist repairs what was lost
        for s in sv.streams:
            s.ended = True
            s.wake()
        sv.compact()
        sv.change("set", "z")
        sv.compact()
        await asyncio.sleep(bound)
        await env.quiesce()
        env.check(infd.content(st) == infd.want(sv), "after a relist the store has %r and the server %r: %s", lambda: infd.content(st), lambda: infd.want(sv), show)
    env.log(calls)
    t.cancel()
    await env.quiesce()
    env.check(t.done(), "the controller does not stop")
    n = len(calls)
    sv.change("set", "a")
    await asyncio.sleep(30)
    env.check(len(calls) == n and not sv.open(), "changes are processed after the end")


async def stubborn(env, retries, kinds, programs):
    """The processing of one key fails again and again, slowly: the other keys are processed all the same."""
    retry = env.pick("retry on error", retries)
    kind = env.pick("failure", kinds)
    bad = env.pick("failing key", ("ns/a", "ns/b"))
    sv = apid.Server(env)
    for n in ("a", "b"):
        sv.change("set", n)
    st = store.new_store(key)
    q = delta_fifo.DeltaFIFO(infd.key_of, st)
    calls = []
    healed = []

    async def fn(ds):
        k = key(ds[0].object)
        calls.append(k)
        await asyncio.sleep(0.1)
        if k == bad and not healed:
            if kind == "raise":
                raise apid.failure(len(calls))
            raise fifo.RequeueError
        for d in ds:
            if d.type is T.DELETED:
                await st.delete(d.object)
            else:
                await st.update(d.object)

    t = asyncio.ensure_future(controller.new(controller.Config(queue=q, lister_watcher=list_watch.ListWatch(sv.list, sv.watch), process=fn, object_type=apid.Obj, full_resync_period=0, retry_on_error=retry)).run())
    again = retry or kind == "requeue"

    def judge(keys):
        have = {name_of(o): rv_of(o) for o in st.list()}
        for n in keys:
            o = sv.objects.get(n)
            env.check(have.get(n) == (rv_of(o) if o is not None else None), "%s is not processed while the processing of %s fails: %r", n, bad, calls)

    await asyncio.sleep(0.55)
    good = "b" if bad == "ns/a" else "a"
    judge((good,))
    for op in env.pick("changes", programs):
        sv.change(*op)
        await asyncio.sleep(0.75)
        judge((good, "c"))
    if again:
        env.check(calls.count(bad) > 2, "%s is not handed out again: %r", bad, calls)
        healed.append(1)
        await asyncio.sleep(1)
        judge(("a", "b", "c"))
    env.log(calls)
    t.cancel()
    await env.quiesce()


def scenarios(tier):
    t = tier == "thorough"
    few = [(("set", "a"), ("set", "b")), (("del", "a"), ("set", "a")), (("set", "b"), ("del", "a")), (("replace", "a"), ("set", "b")), (("set", "a"), ("del", "a"), ("set", "a"))]
    p2 = apid.histories(("a", "b"), ("set", "del"), 2)
    n = 3 if t else 2
    both = (False, True)
    return [
        Scenario("stubborn", stubborn, params=dict(retries=both, kinds=("raise", "requeue"), programs=few + p2 + [(("set", "c"), ("del", "c")), (("set", "c"), ("set", "b")), (("set", "a"), ("set", "c"))])),
        Scenario("failures", process, budget={"fail": n + 1}, params=dict(retries=both, initial=("a", "b"), programs=few + p2, faults={}, kinds=("raise", "timeout", "requeue", "requeue-error"))),
        Scenario("failures-and-faults", process, budget={"fail": n, "fault": n}, total=n + 1, params=dict(retries=both, initial=("a",), programs=few, faults=dict(list=("raise",), watch=("raise",), stream=("raise", "end")))),
        Scenario("relists", process, budget={"fail": n + 1}, params=dict(retries=both, initial=("a", "b"), programs=few + p2, faults={}, kinds=("raise", "requeue"), repair=True)),
        Scenario("orders", process, budget={"fail": n, "order": 2, "sched": 2}, total=n + 1, params=dict(retries=both, initial=("a", "b"), programs=few, faults={}, gate=True, gate_events=True)),
        Scenario("resync", process, budget={"fail": n, "fault": 1, "order": 1, "time": 1}, total=n, params=dict(retries=both, initial=("a", "b"), programs=few, faults=dict(stream=("raise",)), gate=True, resync=2, pauses=(2.1, 2.1))),
    ]


ASSUMPTIONS = ["requests complete or fail", "the process function returns"]
