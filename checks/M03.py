"""M03: stopping watchers and shutting down never hangs or loses buffered events."""
import asyncio

from aiok8s.watch import mux
from checks.muxd import DROP, WAIT, race
from mc.explore import Scenario

PROGRAMS = [
    dict(watchers=[dict(), dict(stop=2)], publish=[2]),
    dict(watchers=[dict(stop=1), dict(reads=1, ctx=True)], publish=[3]),
    dict(watchers=[dict(), dict(stop=1, ctx=True)], publish=[2], shutdown=True, late_shutdown=False),
    dict(watchers=[dict(prefix=1, stop=1), dict(late=True)], publish=[2], shutdown=True, late_shutdown=True),
    dict(watchers=[dict(), dict()], publish=[4], shutdown=True, late_shutdown=False),
]
CANCEL = [
    dict(watchers=[dict()], publish=[3]),
    dict(watchers=[dict(prefix=1), dict()], publish=[2]),
    dict(watchers=[dict()], publish=[2], shutdown=True),
    dict(watchers=[dict(), dict(stop=1)], publish=[2]),
]


async def cancelled_reads(env, drop, sizes, depth):
    """Sequential histories of reads that are cancelled while they wait, several in a row."""
    size = env.pick("size", sizes)
    b = mux.Broadcaster(size, DROP if drop else WAIT)
    w = await b.watch()
    n, buf, got = 0, [], []
    pub = []
    for i in range(depth):
        op = env.pick("op%d" % i, ["publish", "read", "cancel", "cancel-publish"])
        if op == "publish":
            buf.append(n)
            pub.append(asyncio.ensure_future(b.action("ADDED", n)))
            n += 1
        else:
            t = asyncio.ensure_future(w.__anext__())
            await env.quiesce()
            if t.done():
                e = t.result()["object"]
                got.append(e)
            elif op == "read":
                buf.append(n)
                await b.action("ADDED", n)
                n += 1
                await env.quiesce()
                env.check(t.done(), "event %d does not reach the waiting reader; received %r", n - 1, got)
                got.append(t.result()["object"])
            else:
                if op == "cancel-publish":  # the cancellation meets the event on its way
                    k = env.pick("steps%d" % i, [0, 1, 2, 3, 4, 5, 6, 7, 8])
                    buf.append(n)
                    pub.append(asyncio.ensure_future(b.action("ADDED", n)))
                    n += 1
                    for _ in range(k):
                        await asyncio.sleep(0)
                t.cancel()
                try:
                    got.append((await t)["object"])
                except asyncio.CancelledError:
                    pass
        await env.quiesce()
        if drop:
            buf = buf[: len(got) + size]
        env.log(op, tuple(got))
    for _ in range(n + 2):
        t = asyncio.ensure_future(w.__anext__())
        await env.quiesce()
        if not t.done():
            break
        got.append(t.result()["object"])
    if not drop:
        env.check(got == list(range(n)), "published %d events, received %r", n, got)
    else:
        env.check(got == sorted(set(got)) and (n == 0 or got[:1] == [0]), "received %r", got)
        missing = [x for x in range(n) if x not in got]
        if size >= n:
            env.check(not missing, "events %r were lost although the buffer was never full", missing)


async def stop_anywhere(env, drop, sizes):
    """stop() and shutdown() with blocked distribution, from the reader's own task, repeatedly and concurrently."""
    size = env.pick("size", sizes)
    b = mux.Broadcaster(size, DROP if drop else WAIT)
    a, c = await b.watch(), await b.watch()
    npub = env.pick("published", [0, 1, 3])
    pub = [asyncio.ensure_future(b.action("ADDED", i)) for i in range(npub)]
    if env.pick("settle", [True, False]):
        await env.quiesce()
    waiting = env.pick("waiting", [False, True])
    r = asyncio.ensure_future(read_all(a)) if waiting else None
    if env.pick("settle2", [True, False]):
        await env.quiesce()
    order = env.pick("order", [("a", "c"), ("c", "a"), ("a", "a", "c"), ("shut", "a", "c"), ("a", "shut", "c"), ("c", "c", "a", "shut")])
    ts = []
    conc = env.pick("concurrent", [True, False])
    for o in order:
        ts.append(asyncio.ensure_future(b.shutdown() if o == "shut" else (a if o == "a" else c).stop()))
        if not conc:
            await env.quiesce()
    await env.quiesce()
    for o, t in zip(order, ts):
        env.check(t.done(), "%s waits for ever in %r", "shutdown" if o == "shut" else "stop", order)
        t.result()
    for p in pub:
        env.check(p.done(), "publishing waits for ever")
    if r:
        env.check(r.done(), "the iteration of a stopped watcher does not end")
        got = r.result()
        env.check(got == list(range(len(got))), "received %r", got)
    for w in (a, c):
        t = asyncio.ensure_future(read_all(w))
        await env.quiesce()
        env.check(t.done(), "a later iteration of a stopped watcher does not end")
    # the broadcaster still works for others unless it was shut down
    if "shut" not in order:
        d = await b.watch()
        t = asyncio.ensure_future(d.__anext__())
        await b.action("ADDED", "new")
        await env.quiesce()
        env.check(t.done() and t.result()["object"] == "new", "a later watcher receives nothing")
    env.log(order, waiting, npub)


async def cancelled_registration(env, drop, sizes):
    """A registration that is cancelled at any moment leaves no watcher that could block the others."""
    b = mux.Broadcaster(env.pick("size", sizes), DROP if drop else WAIT)
    c = await b.watch()
    got = []

    async def read():
        async for e in c:
            got.append(e["object"])

    r = asyncio.ensure_future(read())
    before = env.pick("published meanwhile", (0, 2, 30))
    prefix = env.pick("prefix", (None, 0, 1))
    pub = []

    def publish(k):
        for _ in range(k):
            pub.append(asyncio.ensure_future(b.action("ADDED", len(pub))))

    publish(before)
    t = asyncio.ensure_future(b.watch() if prefix is None else b.watch_with_prefix([dict(type="ADDED", object="prefix")] * prefix))
    k = env.pick("cancelled after", list(range(14)) + [40, 80])
    for _ in range(k):
        await asyncio.sleep(0)
    t.cancel()
    await env.quiesce()
    env.check(t.done(), "a cancelled registration does not end")
    publish(4)
    await env.quiesce()
    if not t.cancelled():
        await t.result().stop()
        await env.quiesce()
    env.check(all(p.done() for p in pub), "publishing waits for ever after a registration that was cancelled")
    if not drop:
        env.check(got == list(range(len(pub))), "after a registration that was cancelled the other watcher received %r of %d events", got, len(pub))
    s = asyncio.ensure_future(b.shutdown())
    await env.quiesce()
    env.check(s.done() and r.done(), "the shutdown waits for ever after a registration that was cancelled")
    env.log(k, t.cancelled(), len(got))


async def left_context(env, drop, sizes):
    """A watcher's context is left in every way: at its end, by an error, by a cancellation during a read or elsewhere, with the distribution blocked on it or not."""
    size = env.pick("size", sizes)
    b = mux.Broadcaster(size, DROP if drop else WAIT)
    c = await b.watch() if env.pick("beside another", (True, False)) else None
    w = await (b.watch_with_prefix([]) if env.pick("prefix", (False, True)) else b.watch())
    reads = env.pick("reads", (0, 1))
    how = env.pick("left by", ("end", "error", "base", "cancelled", "cancelled read", "task cancelled twice"))
    held = asyncio.Event()

    async def use():
        async with w:
            for _ in range(reads):
                await w.__anext__()
            if how == "cancelled read":
                async for _ in w:
                    await held.wait()
            await held.wait()
            if how == "error":
                raise ValueError("left")
            if how == "base":
                raise asyncio.CancelledError("left")

    got = []

    async def read():
        async for e in c:
            got.append(e["object"])

    r = asyncio.ensure_future(read()) if c else None
    t = asyncio.ensure_future(use())
    pub = []

    def publish(k):
        for _ in range(k):
            pub.append(asyncio.ensure_future(b.action("ADDED", len(pub))))

    await env.quiesce()
    publish(reads + env.pick("waiting events", (0, 1, 4)))
    for _ in range(env.pick("steps", (0, 1, 2, 3, 5, 40))):
        await asyncio.sleep(0)
    if how.startswith("cancelled"):
        t.cancel()
    elif how == "task cancelled twice":
        t.cancel()
        for _ in range(env.pick("between", (0, 1, 2, 3))):
            await asyncio.sleep(0)
        t.cancel()
    else:
        held.set()
    await env.quiesce()
    env.check(t.done(), "leaving the context of a watcher hangs (%s)", how)
    publish(4)
    await env.quiesce()
    env.check(all(p.done() for p in pub), "publishing waits for ever after the context of a watcher was left (%s)", how)
    if c and not drop:
        env.check(got == list(range(len(pub))), "after the context of a watcher was left (%s) the other watcher received %r of %d events", how, got, len(pub))
    e = asyncio.ensure_future(read_all(w))
    await env.quiesce()
    env.check(e.done(), "the iteration of a watcher whose context was left (%s) does not end", how)
    s = asyncio.ensure_future(b.shutdown())
    await env.quiesce()
    env.check(s.done() and (not c or r.done()), "the shutdown waits for ever after the context of a watcher was left (%s)", how)
    env.log(how, len(got))


async def read_all(w):
    return [e["object"] async for e in w]


def scenarios(tier):
    t = tier == "thorough"
    n = 3 if t else 2
    out = []
    for drop in (False, True):
        x = "drop" if drop else "wait"
        sizes = (1, 2) if drop else (0, 1, 2)
        out += [
            Scenario("cancelled-reads-" + x, cancelled_reads, params=dict(drop=drop, sizes=sizes, depth=6 if t else 5)),
            Scenario("stop-anywhere-" + x, stop_anywhere, params=dict(drop=drop, sizes=sizes)),
            Scenario("cancelled-registration-" + x, cancelled_registration, params=dict(drop=drop, sizes=sizes)),
            Scenario("left-context-" + x, left_context, params=dict(drop=drop, sizes=sizes)),
            Scenario("stops-" + x, race, budget={"sched": n, "order": n}, total=n, params=dict(drop=drop, programs=PROGRAMS, sizes=sizes, gated_reads=(0, 1) if t else (1,), strict=True)),
            Scenario("cancel-" + x, race, budget={"cancel": 1, "sched": n - 1, "order": n - 1}, total=n, params=dict(drop=drop, programs=CANCEL, sizes=sizes, cancels=(0, 1))),
        ]
    return out


ASSUMPTIONS = ["every watcher has at most one reader", "publishers do not publish after the shutdown was requested", "with the blocking policy a stop may wait for distribution to other watchers that still read"]
