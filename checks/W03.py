"""W03: delayed additions: never early, on time, deduplicated to the earliest deadline, none lost."""
import asyncio

from checks.wq import KINDS
from mc.explore import Scenario

EPS = 1e-3


def expected(adds):
    """Quiescent model: adds = [(time, item, delay)] in call order -> sorted [(time, item)] of hand-outs."""
    out = []
    pend = {}
    for t, item, d in adds:
        for it, p in list(pend.items()):
            if p <= t:
                out.append((p, it))
                del pend[it]
        if d <= 0:
            out.append((t, item))
        else:
            pend[item] = min(pend.get(item, t + d), t + d)
    out += [(p, it) for it, p in pend.items()]
    return sorted(out)


def judge(env, adds, outs, exact, busy=()):
    """outs: [(time, item)]; busy: [(item, start, end)] intervals in which the item was being processed."""
    clock = env.clock

    def eff(item, d):
        # a timer may be started late by as much time as the explorer let pass while the code was ready to run
        later = [c - 1000000.0 for c in clock if c - 1000000.0 >= d + env.rushed_time + 1e-9]
        if len(later) <= env.rushed:
            return float("inf")
        t = later[env.rushed]  # the clock may have moved on before the code got to run
        for it, s, e in busy:
            if it == item and s <= t <= e + EPS / 10:
                t = max(t, e)
                break
        return max(t, d)

    show = "additions (time, item, delay) %r, hand-outs %r" % ([(round(t, 3), i, d) for t, i, d in adds], [(round(t, 3), i) for t, i in outs])
    for item in set(i for _, i in outs):
        ts = [t for t, i in outs if i == item]
        free = sorted((t + max(d, 0), t) for t, i, d in adds if i == item)
        env.check(len(ts) <= len(free), "%r was handed out more often than it was added; %s", item, show)
        for n, t in enumerate(ts):
            ok = sum(1 for dl, _ in free if dl <= t + 1e-9)
            env.check(ok >= n + 1, "hand-out %d of %r at %.6f is early; %s", n, item, t, show)
    for t, item, d in adds:
        dl = t + max(d, 0)
        env.check(any(i == item and t - 1e-9 <= o <= eff(item, dl) + EPS for o, i in outs), "the addition of %r at %.3f with delay %r is not handed out by %.3f; %s", item, t, d, eff(item, dl), show)
    if exact:
        want = expected(adds)
        key = lambda x: (round(x[0], 2), str(x[1]))
        env.check(sorted(map(key, outs)) == sorted(map(key, want)), "expected hand-outs %r; %s", [(round(t, 3), i) for t, i in want], show)


async def timeline(env, kind, depth, items, delays, waits, work=0, racy=False, tail=40):
    q = KINDS[kind]()
    await env.quiesce()
    adds, outs, busy = [], [], []

    async def worker():
        while True:
            item, shut = await q.get()
            t = env.rel()
            outs.append((t, item))
            env.log("out", round(t, 3), item)
            if work:
                await asyncio.sleep(work)
            await q.done(item)
            busy.append((item, t, env.rel()))

    ws = [asyncio.ensure_future(worker()) for _ in items]  # enough workers for every item at once
    calls = []
    for i in range(depth):
        item = env.pick("item%d" % i, items[: i + 1])
        d = env.pick("delay%d" % i, delays)
        if i:
            gap = env.pick("wait%d" % i, waits)
            if gap:
                await asyncio.sleep(gap)
            if not racy:
                await env.quiesce()
        if racy:
            await env.gate("add%d" % i)
        adds.append((env.rel(), item, d))
        env.log("add", round(env.rel(), 3), item, d)
        c = asyncio.ensure_future(q.add_after(item, d))
        calls.append(c)
        if not racy:
            await env.quiesce()
            env.check(c.done(), "adding %r with delay %r blocks", item, d)
    await asyncio.sleep(tail)
    await env.quiesce()
    env.frozen = True
    await asyncio.sleep(40)
    for c in calls:
        env.check(c.done(), "a delayed addition blocks")
        c.result()
    for w in ws:
        env.check(not w.done(), "the worker ended: %r", w)
    judge(env, adds, outs, exact=not env.deviations and not work, busy=busy)


async def flood(env, kind, n):
    """More pending additions than the queue takes in at once, in several orders."""
    q = KINDS[kind]()
    await env.quiesce()
    order = env.pick("order", ["up", "down", "mixed", "same"])
    idx = list(range(n))
    if order == "down":
        idx.reverse()
    elif order == "mixed":
        idx = idx[::2] + idx[1::2][::-1]
    adds, outs = [], []

    async def worker():
        while True:
            item, shut = await q.get()
            outs.append((env.rel(), item))
            await q.done(item)

    asyncio.ensure_future(worker())
    concurrent = env.pick("concurrent", [False, True])
    calls = []
    for i in idx:
        d = 5 if order == "same" else 1 + (i % 97) * 0.25
        adds.append((env.rel(), i, d))
        if concurrent:
            calls.append(asyncio.ensure_future(q.add_after(i, d)))
        else:
            await q.add_after(i, d)
    await env.quiesce()
    env.check(all(c.done() for c in calls), "delayed additions block")
    await asyncio.sleep(40)
    await env.quiesce()
    outs.sort(key=lambda x: x[1])
    adds.sort(key=lambda x: x[1])
    env.check([i for _, i in outs] == [i for _, i, _ in adds], "%d additions of different items, %d hand-outs", n, len(outs))
    for (t, i), (ta, _, d) in zip(outs, adds):
        env.check(ta + d - 1e-9 <= t <= ta + d + EPS * 10, "item %r added at %.3f with delay %r was handed out at %.3f", i, ta, d, t)


def scenarios(tier):
    t = tier == "thorough"
    a, b, c = "a", "b", "c"
    out = [
        Scenario("two-adds", timeline, params=dict(kind="delaying", depth=2, items=(a, b), delays=(-1, 0, 0.001, 1, 2.5, 9.999, 10, 12, 25), waits=(0, 0.5, 1, 2.5, 9.5, 11))),
        Scenario("three-adds", timeline, params=dict(kind="delaying", depth=3, items=(a, b, c), delays=(0, 1, 3, 12) if not t else (-1, 0, 1, 2, 3, 12), waits=(0, 1, 2))),
        Scenario("four-adds", timeline, params=dict(kind="delaying", depth=4, items=(a, b), delays=(1, 3, 11) if not t else (0, 1, 3, 11), waits=(0, 2) if not t else (0, 1, 2))),
        Scenario("same-item", timeline, params=dict(kind="delaying", depth=5 if t else 4, items=(a,), delays=(1, 2, 4, 0), waits=(0, 1))),
        Scenario("slow-worker", timeline, params=dict(kind="delaying", depth=3, items=(a, b), delays=(0, 1, 4), waits=(0, 1), work=2)),
        Scenario("racing", timeline, budget={"sched": 2, "time": 1}, opts=dict(jumps=3), params=dict(kind="delaying", depth=2, items=(a, b), delays=(0, 1, 2), waits=(0, 1), racy=True, tail=15), total=2 if not t else 3),
        Scenario("jumps", timeline, budget={"time": 1 if not t else 2}, opts=dict(jumps=3), params=dict(kind="delaying", depth=3, items=(a, b), delays=(1, 2, 4), waits=(0, 1), tail=15)),
        Scenario("flood", flood, params=dict(kind="delaying", n=1100), opts=dict(max_steps=2000000)),
    ]
    return out


ASSUMPTIONS = ["waking up costs no time beyond the deadline (time advances only as the explorer decides)",
               "an addition that races with the expiry of an earlier one of the same item may or may not be merged with it"]
