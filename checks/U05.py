"""U05: helpers, queues, broadcasters and electors that ended leave no task behind."""
import asyncio

from aiok8s.leaderelection import leaderelection
from aiok8s.util import clock, wait
from aiok8s.watch import mux, watch
from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue
from mc.explore import Scenario


class Boom(Exception):
    pass


def tasks(env):
    return {t for t in asyncio.all_tasks(env.loop) if t is not env.main and not t.done()}


async def clean(env, before, what, *but):
    await env.quiesce()
    left = tasks(env) - before - set(but)
    env.check(not left, "tasks stay behind after %s: %r", what if isinstance(what, str) else what(), left)


HELPERS = {
    "loop": lambda f, ev: wait.loop(f, 1),
    "jitter_loop-sliding": lambda f, ev: wait.jitter_loop(f, 1, 0.5, True),
    "jitter_loop": lambda f, ev: wait.jitter_loop(f, 1, 0.5, False),
    "until": lambda f, ev: wait.until(f, 1, ev),
    "jitter_until-sliding": lambda f, ev: wait.jitter_until(f, 1, 0.5, True, ev),
    "jitter_until": lambda f, ev: wait.jitter_until(f, 1, 0.5, False, ev),
    "poll": lambda f, ev: wait.poll(1, 2.5, f),
    "poll_immediate": lambda f, ev: wait.poll_immediate(1, 2.5, f),
    "poll_infinite": lambda f, ev: wait.poll_infinite(1, f),
    "poll_immediate_infinite": lambda f, ev: wait.poll_immediate_infinite(1, f),
    "exponential_backoff": lambda f, ev: wait.exponential_backoff(wait.Backoff(steps=3, duration=1, factor=2), f),
}


async def helpers(env, names, takes, times):
    """A helper ends by itself, by an error, by its stop event, or by being cancelled at any moment."""
    name = env.pick("helper", names)
    last = env.pick("ends", ["cancel", "error", "success"] + (["stop"] if "until" in name else []) + ["cancel at %g" % x for x in times])
    run = env.pick("in run", (0, 1)) if last in ("error", "success") else None
    takes = env.pick("takes", takes)
    ev = asyncio.Event()
    n = 0

    async def f():
        nonlocal n
        n += 1
        if takes == "gate":
            await env.gate("f")
        elif takes == "cleanup":
            try:
                await asyncio.sleep(0.4)
            finally:
                await asyncio.sleep(0.9)
        elif takes:
            await asyncio.sleep(takes)
        if last == "error" and n == run + 1:
            raise Boom
        return last == "success" and n == run + 1

    before = tasks(env)
    t = asyncio.ensure_future(HELPERS[name](f, ev))
    if last == "cancel":
        env.action("cancel", t.cancel, early="cancel", order="cancel")
    elif last == "stop":
        env.action("stop", ev.set, early="cancel", order="cancel")
    elif last.startswith("cancel at"):
        env.loop.call_later(float(last.split()[2]), t.cancel)
    for _ in range(40):
        await env.quiesce()
        if t.done():
            break
        await asyncio.sleep(0.12)
    if not t.done():  # a loop whose function "succeeded"
        t.cancel()
        await asyncio.wait([t], timeout=5)
    env.check(t.done(), "%s does not end", name)
    await clean(env, before, "%s (%s, run %r; the function takes %r)" % (name, last, run, takes))
    # What has not ended at once would be seen above; used again it starts afresh.
    env.log(name, last, run, n)


QUEUES = {
    "plain": queue.new,
    "delaying": delaying_queue.new,
    "rate-limited": lambda: rate_limiting_queue.new(default_rate_limiters.ItemExponentialFailureRateLimiter(1, 60)),
}


async def queues(env, kinds, programs):
    """Operations are cancelled at any moment; then, or meanwhile, the queue is shut down."""
    kind = env.pick("kind", kinds)
    prog = env.pick("program", programs)
    before = tasks(env)
    q = QUEUES[kind]()
    ops = []

    def op(name, c):
        ops.append(asyncio.ensure_future(c))
        env.action("cancel " + name, ops[-1].cancel, optional=True, early="cancel", order="cancel")

    async def worker():
        while True:
            item, shut = await q.get()
            if shut:
                return
            await env.gate("work")
            await q.done(item)

    for x in prog:
        if x == "get":
            op("worker", worker())
        elif x == "add":
            op("add", q.add("x"))
        elif kind == "plain":
            return
        elif x == "after":
            op("add_after", q.add_after("y", 2))
        elif x == "long":
            op("add_after", q.add_after("z", 500))
        elif x == "sleep":
            await asyncio.sleep(3)
        if x == "quiet":
            await env.quiesce()
    shut = []

    def shut_down():
        shut.append(asyncio.ensure_future(q.shut_down()))

    env.action("shut down", shut_down, early="shut", order="shut")
    await env.quiesce()
    await asyncio.sleep(0.5)
    await env.quiesce()
    env.frozen = True
    env.check(shut and shut[0].done(), "the shutdown does not end")
    await clean(env, before, lambda: "the shutdown of a %s queue, program %r" % (kind, prog))
    env.log(kind, prog, [t.cancelled() for t in ops])


async def crowds(env, counts, steps):
    """More delayed additions at once than are taken over at once; some are cancelled, and the queue is shut down."""
    n = env.pick("additions", counts)
    before = tasks(env)
    q = delaying_queue.new()
    ops = [asyncio.ensure_future(q.add_after(i, 5 + i % 7)) for i in range(n)]
    for _ in range(env.pick("steps", steps)):
        await asyncio.sleep(0)
    if env.pick("some are cancelled", (False, True)):
        for t in ops[-9:]:
            t.cancel()
    for _ in range(env.pick("more steps", (0, 1, 3))):
        await asyncio.sleep(0)
    await q.shut_down()
    await env.quiesce()
    env.check(all(t.done() for t in ops), "a delayed addition does not end with the shutdown")
    await clean(env, before, "the shutdown of a queue with %d delayed additions" % n)
    env.log(n, sum(t.cancelled() for t in ops))


async def watchers(env, make, programs):
    """Reads are cancelled at any moment; then the watcher is stopped, or its broadcaster shut down."""
    make = env.pick("watcher of", make)
    prog = env.pick("program", programs)
    how = env.pick("ends by", ["stop", "context"] + (["shutdown"] if make != "fake" else []))
    before = tasks(env)
    if make == "fake":
        w = watch.new_fake()
        send = w.add
    else:
        b = mux.Broadcaster(make[0], mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if make[1] else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        w = await b.watch_with_prefix([dict(type="ADDED", object="prefix")]) if prog[0] == "prefix" else await b.watch()
        send = lambda o: b.action("ADDED", o)
    reads = []
    sends = []
    for x in prog:
        if x == "send":
            sends.append(asyncio.ensure_future(send(len(sends))))
        elif x == "read":
            reads.append(asyncio.ensure_future(w.__anext__()))
            env.action("cancel read", reads[-1].cancel, optional=True, early="cancel", order="cancel")
        elif x == "quiet":
            await env.quiesce()

    async def end():
        if how == "stop":
            await w.stop()
        elif how == "context":
            async with w:
                pass
        else:
            await b.shutdown()

    ends = []
    env.action("end", lambda: ends.append(asyncio.ensure_future(end())), early="end", order="end")
    await env.quiesce()
    env.frozen = True
    if make != "fake":
        if how == "shutdown":  # it may have to wait for the watcher
            if not ends[0].done():
                await w.stop()
        else:
            await asyncio.wait_for(b.shutdown(), 5)
    if make == "fake":
        for s in sends:  # without a reader they wait as long as the test wants
            s.cancel()
    else:
        await env.quiesce()
    env.check(ends and ends[0].done(), "ending the watch does not end")
    for r in reads:
        env.check(r.done(), "a read does not end")
    await clean(env, before, lambda: "the end (%s) of a watcher of %r, program %r" % (how, make, prog), *([] if make == "fake" else [s for s in sends if not s.done()]))
    env.log(make, prog, how, [r.cancelled() for r in reads])


async def clocks(env):
    """Timers that fired, timers and tickers that were stopped."""
    kind = env.pick("kind", ("timer", "ticker"))
    at = env.pick("stopped at", (0, 0.5, 1, 1.5, 2.5) if kind == "ticker" else (None, 0, 0.5, 1))
    read = env.pick("read", (False, True))
    before = tasks(env)
    c = clock.RealClock()
    t = c.new_timer(1) if kind == "timer" else c.new_ticker(1)
    if at is None:
        await asyncio.sleep(1.1)
    else:
        await asyncio.sleep(at)
        if read and not t.c().empty():
            t.c().get_nowait()
        t.stop()
    await clean(env, before, "a %s that was stopped at %r" % (kind, at))
    env.log(kind, at)


class Lock:
    """A lock in memory whose requests wait for the explorer."""

    def __init__(self, env, holder):
        self.env = env
        self.rec = None if holder is None else dict(holderIdentity=holder, leaderTransitions=0, acquireTime=0, renewTime=0)
        self.n = 0

    def identity(self):
        return "me"

    def describe(self):
        return "lock"

    async def _request(self, what):
        self.n += 1
        if await self.env.gate(what, ["ok", "fail"], fault="fault") == "fail":
            raise Boom

    async def get(self):
        await self._request("get")
        return (None, None) if self.rec is None else (dict(self.rec), repr(self.rec))

    async def create(self, rec):
        await self._request("create")
        self.rec = dict(rec)

    async def update(self, rec):
        await self._request("update")
        self.rec = dict(rec)


async def electors(env, holders, leads, horizon):
    """An elector is cancelled at any moment, or loses the lock."""
    lock = Lock(env, env.pick("holder", holders))
    lead = env.pick("leading takes", leads)
    before = tasks(env)

    async def leading():
        if lead is None:
            await env.loop.create_future()
        await asyncio.sleep(lead)

    async def stopped():
        pass

    async def new_leader(who):
        pass

    le = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
        lock=lock, callbacks=leaderelection.LeaderCallbacks(leading, stopped, new_leader), name="e",
        lease_duration=6, renew_deadline=4, retry_period=1, release_on_cancel=env.pick("release", (False, True))))
    t = asyncio.ensure_future(le.run())
    lose = env.pick("loses", (False, True))
    if not lose:
        env.action("cancel", t.cancel, early="cancel", order="cancel", optional=True)
    end = env.rel() + horizon
    while env.rel() < end and not t.done():
        await env.quiesce()
        if lose and lock.n > 2:
            lock.rec = dict(holderIdentity="other", leaderTransitions=1, acquireTime=1, renewTime=1)
        await asyncio.sleep(0.7)
    env.frozen = True
    await env.quiesce()
    if not t.done():
        t.cancel()
        await env.quiesce()
    env.check(t.done(), "the elector does not end")
    await clean(env, before, "the end of an elector")
    env.log(lead, lose, lock.rec)


def scenarios(tier):
    th = tier == "thorough"
    n = 2 if th else 1
    qp = [("get",), ("get", "add"), ("after",), ("long",), ("get", "after"), ("get", "long", "quiet"), ("long", "quiet", "after"), ("after", "quiet", "sleep", "long"), ("get", "get", "add", "after"), ("long", "long", "quiet", "add", "get")]
    wp = [("read",), ("send", "read"), ("read", "send"), ("read", "quiet", "send"), ("prefix", "read", "read"), ("send", "send", "read"), ("read", "read", "send"), ("read", "quiet", "read", "quiet")]
    return [
        Scenario("helpers", helpers, budget={"cancel": 1, "order": 1}, total=n, params=dict(names=sorted(HELPERS), takes=(0, 0.4, "gate", "cleanup"), times=(0, 0.2, 0.7, 1, 1.2, 1.4, 2, 2.5))),
        Scenario("queues", queues, budget={"cancel": 2, "shut": 1, "order": 1}, total=2 if not th else 3, params=dict(kinds=sorted(QUEUES), programs=qp)),
        Scenario("crowds", crowds, params=dict(counts=(3, 1000, 1001, 1004), steps=(0, 1, 2, 3, 4, 6))),
        Scenario("watchers", watchers, budget={"cancel": 2, "end": 1, "order": 1}, total=2 if not th else 3, params=dict(make=["fake", (0, False), (1, False), (0, True), (1, True)], programs=wp)),
        Scenario("clocks", clocks),
        Scenario("electors", electors, budget={"cancel": 1, "fault": 1, "order": 1}, total=n, params=dict(holders=(None, "", "other", "me"), leads=(None, 0, 1.5), horizon=9)),
    ]


ASSUMPTIONS = ["callbacks and conditions end when they are cancelled", "what a caller keeps waiting in (a send to a fake watcher that nobody reads) is the caller's"]
