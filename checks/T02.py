"""T02: the fake watcher delivers every event once and stops cleanly."""
import asyncio

from aiok8s.watch import watch
from mc.explore import Scenario

OPS = {"add": "ADDED", "modify": "MODIFIED", "delete": "DELETED", "error": "ERROR", "action": "BOOKMARK"}


async def deliver(env, programs, cancels, stopper, producers=1, context=False):
    """Producers send events, a reader reads (its pending reads may be cancelled), somebody stops the watcher."""
    w = watch.new_fake()
    prog = env.pick("program", programs)
    sent, got = [], []  # [event, begun, returned]
    state = dict(stop=False, ended=False, reading=None, reset=0)

    async def produce(i, ops):
        for j, op in enumerate(ops):
            await env.gate("send %d.%d" % (i, j))
            if state["stop"]:
                return
            e = (OPS[op], (i, j))
            rec = [e, False]
            sent.append(rec)
            if op == "action":
                await w.action("BOOKMARK", e[1])
            else:
                await getattr(w, op)(e[1])
            rec[1] = True
            env.check(any(g == e for g in got) or state["pending"] is not None, "sending %r returned before it was consumed; got %r", e, got)

    state["pending"] = None

    async def read():
        while True:
            await env.gate("read")
            t = asyncio.ensure_future(w.__anext__())
            state["pending"] = t
            try:
                e = await asyncio.wait_for(asyncio.shield(t), None)
            except asyncio.CancelledError:
                if not t.cancelled():
                    raise
                state["pending"] = None
                continue
            except StopAsyncIteration:
                state["ended"] = True
                return
            got.append((e["type"], e["object"]))
            state["pending"] = None

    async def stop():
        state["stop"] = True
        if context:
            async with w:
                pass
        else:
            await w.stop()
        env.check(w.is_stopped(), "a stopped watcher does not say so")

    def cancel():
        t = state["pending"]
        if t is not None and not t.done():
            t.cancel()

    env.check(w.__aiter__() is w, "the watcher does not iterate itself")
    tasks = [asyncio.ensure_future(produce(i, ops)) for i, ops in enumerate(prog)]
    reader = asyncio.ensure_future(read())
    acts = []
    for i in range(cancels):
        acts.append(env.action("cancel read %d" % i, cancel, optional=True, early="cancel", order="cancel"))
    if stopper:
        acts.append(env.action("stop", lambda: tasks.append(asyncio.ensure_future(stop())), optional=True, early="stop", order="stop"))
    env.check(not w.is_stopped(), "a new watcher is stopped")
    await env.quiesce()
    env.frozen = True
    for a in acts:
        env.drop(a)
    await env.quiesce()
    order = [s[0] for s in sent]
    env.check(got == order[: len(got)] if len(prog) == 1 else len(set(got)) == len(got) and all(g in order for g in got), "got %r of %r", got, order)
    for i in range(len(prog)):
        mine = [g for g in got if g[1][0] == i]
        env.check(mine == [s for s in order if s[1][0] == i][: len(mine)], "got %r of %r", got, order)
    if not state["stop"]:
        env.check(len(got) == len(order) == sum(map(len, prog)), "only %r of %r arrived", got, prog)
        env.check(all(t.done() for t in tasks), "a send does not return although everything was consumed: %r", got)
        for t in tasks:
            t.result()
        await stop()
        await env.quiesce()
    else:
        done = [s[0] for s in sent if s[1]]
        env.check(all(d in got for d in done), "a send returned but its event was lost: %r of %r", got, done)
    env.check(state["ended"] and reader.done(), "the iteration does not end after the stop; got %r", got)
    reader.result()
    # once it is reset it works again, without anything from before
    await w.stop()
    t = asyncio.ensure_future(w.add("too late"))  # nobody reads it
    await env.quiesce()
    t.cancel()
    await env.quiesce()
    await w.reset()
    env.check(not w.is_stopped(), "still stopped after the reset")
    n = len(got)
    state["stop"] = state["ended"] = False
    reader = asyncio.ensure_future(read())
    t = asyncio.ensure_future(w.add((9, 9)))
    await env.quiesce()
    env.check(got[n:] == [("ADDED", (9, 9))] and t.done(), "after the reset: got %r", got[n:])
    await w.stop()
    await env.quiesce()
    env.check(state["ended"], "the iteration does not end after the second stop")
    env.log(sent, got)
    for x in tasks:
        x.cancel()


async def consumed(env, depth):
    """Every sequence of sends, reads and cancelled reads, with pauses: exactly the sends of consumed events have returned."""
    w = watch.new_fake()
    sends, reads, got, done = [], [], [], []

    async def send(n):
        await w.add(n)
        done.append(n)

    for i in range(depth):
        op = env.pick("op%d" % i, ("send", "read", "cancel") if any(not r.done() for r in reads) else ("send", "two", "read"))
        if op in ("send", "two"):
            for _ in range(1 + (op == "two")):
                sends.append(asyncio.ensure_future(send(len(sends))))
        elif op == "read":
            if all(r.done() for r in reads):
                reads.append(asyncio.ensure_future(w.__anext__()))
        else:
            reads[-1].cancel()
        await env.quiesce()
        got = [r.result()["object"] for r in reads if r.done() and not r.cancelled()]
        env.check(got == list(range(len(got))), "read %r of %d events", got, len(sends))
        env.check(done == got, "the sends of %r have returned, but %r were consumed", done, got)
        env.check(not reads or reads[-1].done() or len(got) == len(sends), "a read waits although an event is being sent; read %r of %d", got, len(sends))
    env.log(got, len(sends))
    for t in sends + reads:
        t.cancel()


def scenarios(tier):
    t = tier == "thorough"
    one = [[("add", "modify", "delete")], [("error", "action", "add")], [("add",)]]
    two = [[("add", "delete"), ("modify", "add")]]
    n = 4 if t else 3
    return [
        Scenario("consumed", consumed, params=dict(depth=9 if t else 7)),
        Scenario("plain", deliver, budget={"sched": 2, "order": 2}, total=n, params=dict(programs=one + two, cancels=0, stopper=False)),
        Scenario("cancelled-reads", deliver, budget={"cancel": 2, "sched": 1, "order": 1}, total=n, params=dict(programs=one + two, cancels=2, stopper=False)),
        Scenario("stops", deliver, budget={"stop": 1, "sched": 2, "order": 1}, total=n, params=dict(programs=one + two, cancels=0, stopper=True)),
        Scenario("leaves-context", deliver, budget={"stop": 1, "sched": 1, "order": 1}, total=n, params=dict(programs=one, cancels=0, stopper=True, context=True)),
        Scenario("stops-and-cancels", deliver, budget={"stop": 1, "cancel": 1, "sched": 1}, total=n, params=dict(programs=one, cancels=1, stopper=True)),
    ]


ASSUMPTIONS = ["nothing is sent after the stop, and what is being sent at that moment need not arrive", "the watcher is reset only when nothing is being sent or read"]
