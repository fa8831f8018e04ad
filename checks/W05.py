"""W05: rate-limited additions come out once, after the delay that their limiter gave."""
import asyncio

from aiok8s.workqueue import default_rate_limiters as drl
from aiok8s.workqueue import rate_limiting_queue
from checks.W03 import judge
from mc.explore import Scenario


class Limiter:
    """Records what the wrapped limiter answered."""

    def __init__(self, inner):
        self.inner = inner
        self.calls = []

    def when(self, item):
        d = self.inner.when(item)
        self.calls.append(("when", item, d))
        return d

    def forget(self, item):
        self.calls.append(("forget", item))
        return self.inner.forget(item)

    def num_requeues(self, item):
        return self.inner.num_requeues(item)


class Scripted:
    """A limiter whose delays shrink: a later addition is due before an earlier one."""

    def __init__(self, delays):
        self.delays = delays
        self.n = {}

    def when(self, item):
        n = self.n.get(item, 0)
        self.n[item] = n + 1
        return self.delays[min(n, len(self.delays) - 1)]

    def forget(self, item):
        self.n.pop(item, None)

    def num_requeues(self, item):
        return self.n.get(item, 0)


LIMITERS = {
    "exponential": lambda: drl.ItemExponentialFailureRateLimiter(1, 5),
    "fractional": lambda: drl.ItemExponentialFailureRateLimiter(0.25, 3),
    "shrinking": lambda: Scripted([4, 2, 1, 0]),
    "zero-first": lambda: Scripted([0, 3, 0.5]),
    "bucket": lambda: drl.BucketRateLimiter(0.5, 1),
}


async def history(env, limiter, depth, items, steps, wrap=True, auto=True):
    lim = LIMITERS[limiter]()
    if wrap:
        lim = Limiter(lim)
    q = rate_limiting_queue.new(lim)
    await env.quiesce()
    adds, outs, busy, count = [], [], [], {}
    held = {}

    async def worker():
        while True:
            item, shut = await q.get()
            t = env.rel()
            outs.append((t, item))
            if auto:
                await q.done(item)
                busy.append((item, t, env.rel()))
            else:
                held[item] = t

    for _ in items:
        asyncio.ensure_future(worker())
    bucket = limiter == "bucket"
    for i in range(depth):
        ops = [("add", x) for x in items] + [("forget", x) for x in items]
        if steps:
            ops += [("step", s) for s in steps]
        ops += [("done", x) for x in sorted(held)]
        op, x = env.pick("op%d" % i, ops)
        if op == "step":
            await asyncio.sleep(x)
        elif op == "add":
            n = len(lim.calls) if wrap else 0
            t = asyncio.ensure_future(q.add_rate_limited(x))
            await env.quiesce()
            env.check(t.done(), "a rate-limited addition blocks")
            t.result()
            if wrap:
                new = lim.calls[n:]
                env.check(len(new) == 1 and new[0][:2] == ("when", x), "adding %r rate-limited asked the limiter %r", x, new)
                d = new[0][2]
            adds.append((env.rel(), x, d))
            count[x] = count.get(x, 0) + 1
        elif op == "forget":
            n = len(lim.calls)
            q.forget(x)
            env.check(lim.calls[n:] == [("forget", x)], "forgetting %r told the limiter %r", x, lim.calls[n:])
            count[x] = 0
        elif op == "done":
            t = held.pop(x)
            await q.done(x)
            busy.append((x, t, env.rel()))
        await env.quiesce()
        for y in items:
            env.eq(q.num_requeues(y), 0 if bucket else count.get(y, 0), "num_requeues(%r)" % y)
        env.log(op, x, round(env.rel(), 3), tuple(round(t, 2) for t, _ in outs))
    for x, t in list(held.items()):
        held.pop(x)
        await q.done(x)
        busy.append((x, t, env.rel()))
    await env.quiesce()
    for _ in range(2):
        await asyncio.sleep(30)
        await env.quiesce()
        for x, t in list(held.items()):
            held.pop(x)
            await q.done(x)
            busy.append((x, t, env.rel()))
    await asyncio.sleep(1)
    await env.quiesce()
    judge(env, adds, outs, exact=auto, busy=busy)


async def waiting(env, n_items):
    """No worker: forgetting neither removes a waiting item nor cancels a pending one."""
    q = rate_limiting_queue.new(drl.ItemExponentialFailureRateLimiter(1, 4))
    await env.quiesce()
    items = ["a", "b"][:n_items]
    due = {}
    nfail = {}
    ready = set()
    for i in range(5):
        ops = [(o, x) for x in items for o in ("rl", "forget", "add")] + [("step", 1)]
        op, x = env.pick("op%d" % i, ops)
        if op == "rl":
            await q.add_rate_limited(x)
            d = min(4, 2 ** nfail.get(x, 0))
            nfail[x] = nfail.get(x, 0) + 1
            due[x] = min(due.get(x, 1e9), env.rel() + d)
        elif op == "forget":
            q.forget(x)
            nfail[x] = 0
        elif op == "add":
            await q.add(x)
            ready.add(x)
        else:
            await asyncio.sleep(1.01)
        await env.quiesce()
        for y in list(due):
            if due[y] <= env.rel():
                ready.add(y)
                del due[y]
        env.eq(len(q), len(ready), "queue length after step %d (%s %s)" % (i, op, x))
        for y in items:
            env.eq(q.num_requeues(y), nfail.get(y, 0), "num_requeues(%r)" % y)
        env.log(op, x, len(q))
    await asyncio.sleep(12)
    ready |= set(due)
    got = []
    while len(q):
        got.append((await q.get())[0])
    env.check(sorted(got) == sorted(ready), "handed out %r, expected %r", got, sorted(ready))


def scenarios(tier):
    t = tier == "thorough"
    out = []
    for lim in LIMITERS:
        out.append(Scenario("history-%s" % lim, history, params=dict(limiter=lim, depth=5 if t else 4, items=("a", "b"), steps=(0.5, 1, 2))))
    for lim in ("exponential", "shrinking"):
        out.append(Scenario("one-item-%s" % lim, history, params=dict(limiter=lim, depth=8 if t else 6, items=("a",), steps=(0.5, 2))))
        out.append(Scenario("held-%s" % lim, history, params=dict(limiter=lim, depth=6 if t else 5, items=("a",), steps=(1, 2), auto=False)))
    out.append(Scenario("waiting", waiting, params=dict(n_items=2 if t else 2)))
    return out


ASSUMPTIONS = ["the limiter is not shared with another queue", "waking up costs no time beyond the deadline"]
