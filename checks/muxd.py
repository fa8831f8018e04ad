"""Shared driver for the broadcaster checks."""
import asyncio

from aiok8s.watch import mux

WAIT = mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL
DROP = mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL
INF = float("inf")


class Clock:
    """Logical time: a counter of observable actions."""

    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


class W:
    """What the driver knows about one watcher."""

    def __init__(self, i, prefix):
        self.i = i
        self.prefix = prefix
        self.asked = self.registered = self.stop_called = None
        self.got = []  # (logical time, event)
        self.ended = False
        self.obj = None
        self.reading = None  # task of the pending read


def judge(env, watchers, published, size, drop, shut_called):
    """published: [[event, call time, return time]] in publication order; events published after the shutdown are not due."""
    order = [p[0] for p in published]
    due = sum(1 for p in published if shut_called is None or p[1] < shut_called)
    for w in watchers:
        if w.registered is None:
            continue
        got = [e for _, e in w.got]
        show = "watcher %d (prefix %r) received %r of %r" % (w.i, w.prefix, got, order)
        n = min(len(w.prefix), len(got))
        env.check(got[:n] == w.prefix[:n], "prefix events are not first; %s", show)
        rest = got[n:]
        env.check(all(e in order for e in rest), "an event was received that was not published after the prefix; %s", show)
        idx = [order.index(e) for e in rest]
        env.check(all(a < b for a, b in zip(idx, idx[1:])), "events are out of order or repeated; %s", show)
        before = sum(1 for p in published if p[2] is not None and p[2] < w.asked)  # these precede the registration
        must = next((k for k, p in enumerate(published) if p[1] > w.registered), len(published))  # from here on all are due
        env.check(all(k >= before for k in idx), "an event published before the registration was received; %s", show)
        stopped = w.stop_called is not None
        if not stopped:
            env.check(len(got) >= len(w.prefix), "prefix events are missing; %s", show)
        if not drop:
            for a, b in zip(idx, idx[1:]):
                env.check(b == a + 1, "an event in between is missing; %s", show)
            if rest:
                env.check(idx[0] <= must, "the first events after the registration are missing; %s", show)
            if not stopped:
                last = idx[-1] + 1 if idx else must
                env.check(last >= due, "the last events are missing; %s", show)
        else:
            end = due if not stopped else (idx[-1] if idx else 0)
            for k in range(must, end):
                if k in idx:
                    continue
                # an event may be dropped only while the buffer holds `size` earlier events
                waiting = sum(1 for t, x in w.got if t > published[k][1] and (x in w.prefix or order.index(x) < k))
                env.check(waiting >= size, "event %r was dropped although at most %d of %d buffered events were waiting; %s", order[k], waiting, size, show)


async def race(env, drop, programs, sizes, cancels=(), gated_reads=(), max_reads=30, strict=False):
    """One program: dict(watchers=[dict(prefix=[..], late=bool, stop=bool, reads=n)], publish=[n events per publisher], shutdown=bool)."""
    size = env.pick("size", sizes)
    prog = env.pick("program", programs)
    b = mux.Broadcaster(size, DROP if drop else WAIT)
    now = Clock()
    published, watchers, tasks = [], [], []
    names = []
    shut = {}

    def spawn(name, coro):
        t = asyncio.ensure_future(coro)
        tasks.append(t)
        names.append(name)
        return t

    async def register(w):
        if w.late:
            await env.gate("register%d" % w.i)
        w.asked = now()
        evs = [dict(type="ADDED", object=x) for x in w.prefix]
        w.obj = await (b.watch_with_prefix(evs) if w.use_prefix else b.watch())
        w.registered = now()

    async def reader(w):
        if w.ctx:
            async with w.obj:
                await read_loop(w)
                w.stop_called = w.stop_called or now()
            return
        await read_loop(w)

    async def read_loop(w):
        n = 0
        it = w.obj.__aiter__()
        while w.reads is None or n < w.reads:
            env.check(n < max_reads, "watcher %d receives more events than were published", w.i)
            if w.gated:
                await env.gate("read%d" % w.i)
                pause = env.pick("pause%d" % w.i, (0, 20, 4000), "pause")
                if pause and not env.frozen:
                    await asyncio.sleep(pause)
            w.reading = t = asyncio.ensure_future(it.__anext__())
            try:
                e = await asyncio.shield(t)
            except StopAsyncIteration:
                w.ended = True
                env.log("end", w.i)
                return
            except asyncio.CancelledError:
                if t.cancelled() and w.cancelled:  # our own cancellation of the read: try again
                    w.cancelled = False
                    env.log("cancelled", w.i)
                    continue
                raise
            finally:
                w.reading = None
            w.got.append((now(), e["object"]))
            env.log("got", w.i, e["object"])
            n += 1
        w.finished = True

    async def life(w):
        await register(w)
        if w.reads != 0:
            await reader(w)

    async def publisher(i, n):
        for k in range(n):
            await env.gate("publish%d" % i)
            if "called" in shut:  # publishing after a shutdown is a mistake of the caller
                return
            p = ["e%d%s" % (k, "" if not i else "'"), now(), None]
            published.append(p)
            await b.action("ADDED", p[0])
            p[2] = now()

    async def stopper(w, times):
        for _ in range(times):
            await env.gate("stop%d" % w.i)
            if w.obj is None:
                return
            if w.stop_called is None:
                w.stop_called = now()
            await w.obj.stop()

    async def shutter():
        await env.gate("shutdown", prio=5 if prog.get("late_shutdown", True) else 0)
        shut["called"] = now()
        await b.shutdown()
        env.log("shut")
        if drop or not strict:
            return
        for w in watchers:
            if w.registered is None or w.stop_called is not None or w.finished:
                continue
            got = {e for _, e in w.got}
            due = [p[0] for p in published if w.registered < p[1] < shut["called"] and p[0] not in got]
            room = max(size, len(w.prefix) + 1 if w.use_prefix else 0) + (w.reading is not None)  # one may be on its way to the reader
            env.check(len(due) <= room, "the shutdown completed although %r cannot all have been distributed to watcher %d with its buffer of %d", due, w.i, size)

    for i, d in enumerate(prog["watchers"]):
        w = W(i, ["p%d%d" % (i, j) for j in range(d.get("prefix", 0))])
        w.use_prefix = "prefix" in d
        w.late = d.get("late", False)
        w.reads = d.get("reads")
        w.gated = i in gated_reads
        w.ctx = d.get("ctx", False)
        w.cancelled = False
        w.finished = False
        w.stops = d.get("stop", 0)
        watchers.append(w)
        if not w.late:
            await register(w)
    for w in watchers:
        if w.late:
            spawn("watcher %d" % w.i, life(w))
        elif w.reads != 0:
            spawn("reader %d" % w.i, reader(w))
        if w.stops:
            spawn("stop of watcher %d" % w.i, stopper(w, w.stops))
        if w.i in cancels:

            def cancel(w=w):
                if w.reading is not None and not w.reading.done():
                    w.cancelled = True
                    w.reading.cancel()

            env.action("cancel read %d" % w.i, cancel, optional=True, early="cancel", order="cancel")
    for i, n in enumerate(prog["publish"]):
        spawn("publisher %d" % i, publisher(i, n))
    if prog.get("shutdown"):
        spawn("shutdown", shutter())
    await env.quiesce()
    if "pause" in env.budget:
        for _ in range(3):
            await asyncio.sleep(9000)
            await env.quiesce()
    env.frozen = True
    for n, t in zip(names, tasks):
        if t.done() and not t.cancelled() and t.exception() is not None:
            raise t.exception()
        if n.startswith(("publisher", "stop")) or n == "shutdown":
            env.check(t.done(), "%s waits for ever", n)
    for w in watchers:
        if w.finished:  # it gave up reading: what it would still get is read now
            for _ in range(max_reads):
                t = asyncio.ensure_future(w.obj.__anext__())
                await env.quiesce()
                if not t.done():
                    t.cancel()
                    break
                try:
                    w.got.append((INF, t.result()["object"]))
                except StopAsyncIteration:
                    w.ended = True
                    break
            else:
                env.fail("watcher %d receives more events than were published" % w.i)
        if w.registered is None:
            env.check("called" in shut, "the registration of watcher %d waits for ever", w.i)
        elif w.reads != 0:
            stopped = w.stop_called is not None
            env.check(w.ended or not stopped, "the iteration of watcher %d does not end after it was stopped", w.i)
            env.check(w.ended or "called" not in shut, "the iteration of watcher %d does not end after the shutdown", w.i)
            env.check(stopped or "called" in shut or not w.ended, "the iteration of watcher %d ends by itself", w.i)
    judge(env, [w for w in watchers if w.reads != 0], published, size, drop, shut.get("called"))


async def histories(env, drop, sizes, depth, idle=False):
    """Every sequence of registrations, stops and publications, one at a time; the watchers read whatever comes at once,
    or (idle, without a prefix) only at the end."""
    size = env.pick("size", sizes)
    b = mux.Broadcaster(size, DROP if drop else WAIT)
    ws = []  # [watcher, received, expected, stopped, reading task]
    n = 0

    async def read(r):
        async for e in r[0]:
            r[1].append(e["object"])

    ops = []
    for i in range(depth):
        some = [("watch",), ("prefix",), ("publish",)] if len(ws) < 4 else [("publish",)]
        if idle and len(ws) < 4:
            some.append(("idle",))
        some += [("stop", j) for j, r in enumerate(ws) if not r[3]]
        op = env.pick("op%d" % i, some)
        ops.append(op)
        if op[0] in ("watch", "prefix", "idle"):
            pre = ["p%d" % len(ws)] if op[0] == "prefix" else []
            w = await (b.watch_with_prefix([dict(type="ADDED", object=x) for x in pre]) if pre else b.watch())
            r = [w, [], pre, False, None]
            if op[0] != "idle":
                r[4] = asyncio.ensure_future(read(r))
            ws.append(r)
        elif op[0] == "stop":
            r = ws[op[1]]
            r[3] = True
            await r[0].stop()
        else:
            await b.action("ADDED", n)
            for r in ws:
                if not r[3] and (r[4] or len(r[2]) < size):
                    r[2].append(n)
            n += 1
        await env.quiesce()
        for j, r in enumerate(ws):
            if r[4]:
                env.check(r[1] == r[2], "after %r watcher %d received %r, expected %r", ops, j, r[1], r[2])
                env.check(r[4].done() == r[3], "after %r the iteration of watcher %d has %s", ops, j, "ended" if r[4].done() else "not ended")
    s = asyncio.ensure_future(b.shutdown())
    await env.quiesce()
    env.check(s.done(), "after %r the shutdown waits for ever", ops)
    for j, r in enumerate(ws):
        if not r[4] and not r[3]:
            r[4] = asyncio.ensure_future(read(r))
            await env.quiesce()
            env.check(r[1] == r[2], "after %r watcher %d, which read at the end, received %r, expected %r", ops, j, r[1], r[2])
        env.check(r[3] or r[4].done(), "after %r and a shutdown the iteration of watcher %d has not ended", ops, j)
    env.log([r[1] for r in ws])
