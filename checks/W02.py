"""W02: waiting workers, cancellation and shutdown on every queue kind."""
import asyncio

from checks.wq import KINDS, race
from mc.explore import Scenario


async def shutdown_delayed(env, kind):
    """Delayed additions around a shutdown: nothing blocks, everybody is released."""
    q = KINDS[kind]()
    n = env.pick("pending before", [0, 1, 3])
    for i in range(n):
        await q.add_after("x%d" % i, 5)
    if env.pick("queued", [False, True]):
        await q.add("a")
    w = [asyncio.ensure_future(q.get()) for _ in range(2)]

    async def shut():
        await env.gate("shut_down")
        await q.shut_down()

    async def late():
        await env.gate("late add")
        await q.add_after("b", 3)
        await q.add_after("c", 0)
        await q.add("d")
        if hasattr(q, "add_rate_limited"):
            await q.add_rate_limited("e")
        env.log("late returned")

    ts = [asyncio.ensure_future(shut()), asyncio.ensure_future(late())]
    again = env.pick("second shutdown", [False, True])
    if again:
        ts.append(asyncio.ensure_future(shut()))
    await env.quiesce()
    for t in ts:
        env.check(t.done(), "a call around the shutdown is left waiting")
        t.result()
    env.frozen = True
    env.check(q.shutting_down(), "not shutting down after shut_down")
    got = []
    for t in w:
        env.check(t.done(), "a waiting worker was not released by the shutdown")
        got.append(t.result())
    for _ in range(12):
        if got[-1][1]:
            break
        t = asyncio.ensure_future(q.get())
        await env.quiesce()
        env.check(t.done(), "a later get waits after the shutdown, got so far %r", got)
        got.append(t.result())
    env.check(got[-1][1], "later gets are not told to stop: %r", got)
    env.log(got)
    for t in [asyncio.ensure_future(q.add_after("z", 1)), asyncio.ensure_future(q.add("z"))]:
        await env.quiesce()
        env.check(t.done(), "an addition after the shutdown blocks")
    await asyncio.sleep(30)
    await env.quiesce()
    t = asyncio.ensure_future(q.get())
    await env.quiesce()
    env.check(t.done() and t.result()[1], "an item appeared after the shutdown")


async def flood(env, kind):
    """Many delayed additions, then a shutdown: none of the callers stays blocked."""
    q = KINDS[kind]()
    ts = [asyncio.ensure_future(q.add_after(i, 60 + i)) for i in range(env.pick("n", [3, 1100]))]
    if env.pick("settle", [False, True]):
        await env.quiesce()
    await q.shut_down()
    await env.quiesce()
    env.check(all(t.done() for t in ts), "delayed additions stay blocked after a shutdown")
    t = asyncio.ensure_future(q.get())
    await env.quiesce()
    env.check(t.done() and t.result()[1], "a get after the shutdown: %r", t.done() and t.result())


def scenarios(tier):
    t = tier == "thorough"
    a, b = "a", "b"
    A, B, S = ("add", a), ("add", b), ("shut_down",)
    wait = [
        dict(producers=[(A,)]),
        dict(producers=[(A, B)]),
        dict(producers=[(A,)], initial=(a,)),
        dict(producers=[(A,), (B,)], gets1=1),
    ]
    ends = [
        dict(producers=[(S,)], ends=True),
        dict(producers=[(A, S)], ends=True),
        dict(producers=[(A, B, S)], ends=True),
        dict(producers=[(A, S)], initial=(a,), ends=True),
        dict(producers=[(S, A)], initial=(a, b), ends=True),
        dict(producers=[(A,), (S,)], initial=(a,), ends=True),
    ]
    big = 99
    out = [
        Scenario("cancelled-workers", race, budget={"cancel": 2 if t else 1, "sched": 1, "order": 4}, params=dict(kind="plain", programs=wait, workers=2, cancels=2, rounds=2)),
        Scenario("cancelled-workers3", race, budget={"cancel": 2, "sched": 1, "order": 3 if t else 2}, total=6 if t else 5, params=dict(kind="plain", programs=wait[:2], workers=3, cancels=3, rounds=1, hold=False)),
        Scenario("done-wakes", race, budget={"cancel": 1, "sched": 1, "order": 5}, params=dict(kind="plain", programs=[dict(producers=[(A,)], initial=(a,), gets0=1)], workers=3, cancels=2, rounds=1)),
    ]
    busy = [dict(producers=[(B,)], initial=(a,)), dict(producers=[(B, A)], initial=(a,)), dict(producers=[(B,), (("add", "c"),)], initial=(a,))]
    out.append(Scenario("cancelled-beside-busy", race, budget={"cancel": 2 if t else 1, "sched": 2, "order": 3 if t else 2}, total=5 if t else 3, params=dict(kind="plain", programs=busy, workers=3, cancels=3, rounds=1, gate_gets=False)))
    for kind in KINDS:
        out.append(Scenario("shutdown/" + kind, race, budget={"sched": 1 if not t else 2, "order": 4 if not t else 6}, total=None if t else 4, params=dict(kind=kind, programs=ends, workers=2, rounds=big)))
        out.append(Scenario("cancel+shutdown/" + kind, race, budget={"sched": 1, "order": 3 if not t else 4, "cancel": 1}, total=3 if not t else 5, params=dict(kind=kind, programs=ends[1:4], workers=2, cancels=1, rounds=big)))
        if kind != "plain":
            out.append(Scenario("delayed+shutdown/" + kind, shutdown_delayed, budget={"sched": 2, "order": 2}, params=dict(kind=kind)))
            out.append(Scenario("flood/" + kind, flood, params=dict(kind=kind), opts=dict(max_steps=200000)))
    return out


ASSUMPTIONS = ["callbacks run in asyncio's documented FIFO order; environment events happen at event-loop iteration boundaries",
               "delayed items whose time has not come when the queue shuts down need not be handed out"]
