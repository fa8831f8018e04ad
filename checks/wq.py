"""Shared driver for the work queue checks."""
import asyncio

from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue
from mc.lin import History

KINDS = {
    "plain": queue.new,
    "delaying": delaying_queue.new,
    "rate-limited": lambda: rate_limiting_queue.new(default_rate_limiters.ItemExponentialFailureRateLimiter(1, 60)),
    "default-limited": rate_limiting_queue.new,
}

INIT = ((), frozenset(), frozenset(), False)


def spec(st, name, args):
    q, dirty, proc, shut = st
    if name == "add":
        x = args[0]
        if shut or x in dirty:
            return [(st, None)]
        return [((q if x in proc else q + (x,), dirty | {x}, proc, shut), None)]
    if name == "get":
        if q:
            x = q[0]
            return [((q[1:], dirty - {x}, proc | {x}, shut), (x, False))]
        return [(st, (None, True))] if shut else []
    if name == "done":
        x = args[0]
        return [((q + (x,) if x in dirty else q, dirty, proc - {x}, shut), None)]
    if name == "len":
        return [(st, len(q))]
    if name == "shut_down":
        return [((q, dirty, proc, True), None)]
    if name == "shutting_down":
        return [(st, shut)]
    raise AssertionError(name)


async def race(env, kind, programs, workers, cancels=0, hold=True, rounds=2, late_get=True, gate_gets=True):
    q = KINDS[kind]()
    h = History(env)
    prog = env.pick("program", programs)
    for x in prog.get("initial", ()):
        o = h.call("add", x)
        await q.add(x)
        h.ret(o)
    await env.quiesce()
    processing = set()

    async def producer(i, ops):
        for op in ops:
            await env.gate("p%d.%s" % (i, "-".join(map(str, op))))
            o = h.call(*op)
            if op[0] == "add":
                await q.add(op[1])
                h.ret(o)
            elif op[0] == "len":
                h.ret(o, len(q))
            elif op[0] == "shutting_down":
                h.ret(o, bool(q.shutting_down()))
            elif op[0] == "shut_down":
                await q.shut_down()
                h.ret(o)
            elif op[0] == "add_after":  # an addition after the shutdown must be ignored without blocking
                h.drop(o)
                await q.add_after(op[1], op[2])
            elif op[0] == "add_rate_limited":
                h.drop(o)
                await q.add_rate_limited(op[1])

    async def worker(i, st):
        while True:
            if st["n"] >= prog.get("gets%d" % i, rounds):
                return
            st["n"] += 1
            if gate_gets:
                await env.gate("w%d.get" % i)
            o = h.call("get")
            st["op"] = o
            try:
                item, shut = await q.get()
            except asyncio.CancelledError:
                h.drop(o)
                raise
            st["op"] = None
            h.ret(o, (item, bool(shut)))
            if shut:
                return
            env.check(item not in processing, "%r was handed to worker %d while another worker processes it", item, i)
            processing.add(item)
            if hold:
                await env.gate("w%d.work" % i)
            o = h.call("done", item)
            processing.discard(item)
            await q.done(item)
            h.ret(o)

    tasks, names = [], []
    for i, ops in enumerate(prog["producers"]):
        tasks.append(asyncio.ensure_future(producer(i, ops)))
        names.append("producer %d" % i)
    for i in range(workers):
        st = dict(n=0, op=None)
        t = asyncio.ensure_future(worker(i, st))
        tasks.append(t)
        names.append("worker %d" % i)
        if i < cancels:

            def cancel(t=t, st=st):
                if st["op"] is not None and st["op"]["ret"] is None:
                    t.cancel()

            env.action("cancel w%d" % i, cancel, optional=True, early="cancel", order="cancel")
    await env.quiesce()
    env.frozen = True
    for n, t in zip(names, tasks):
        if t.done() and not t.cancelled() and t.exception() is not None:
            raise t.exception()
        if n.startswith("producer"):
            env.check(t.done(), "%s is left waiting; history %r", n, h.show())
    for o in h.ops:
        if o["ret"] is None and o["name"] == "done":
            env.fail("done is left waiting; history %r" % (h.show(),))
    h.judge(INIT, spec)
    if prog.get("ends"):
        # after a shutdown everything drains and then every worker is told to stop
        for n, t in zip(names, tasks):
            env.check(t.done(), "after the shutdown %s is left waiting; history %r", n, h.show())
        for _ in range(6):
            t = asyncio.ensure_future(q.get())
            await env.quiesce()
            env.check(t.done(), "after the shutdown a later get waits; history %r", h.show())
            item, shut = t.result()
            if shut:
                break
            await q.done(item)
        else:
            env.fail("after the shutdown later gets are never told to stop; history %r" % (h.show(),))
