"""U04: clocks, timers and tickers."""
import asyncio

from aiok8s.util import clock
from mc.explore import Scenario

TOL = 1e-4


def take(q):
    try:
        return q.get_nowait()
    except asyncio.QueueEmpty:
        return None


async def fake(env, depth, steps, max_waiters):
    """Every sequence of timer/ticker operations on the fake clock against an exact model."""
    start = 1000
    c = clock.FakeClock(start)
    now = start
    ws = []  # dict(kind, obj, due, pending, box, period)
    for i in range(depth):
        ops = [("step", s) for s in steps] + [("set", 1), ("set", -1)]
        if len(ws) < max_waiters:
            ops += [("timer", 2), ("timer", 3), ("ticker", 2), ("ticker", 3)]
        for k, w in enumerate(ws):
            ops.append(("read", k))
            if w["kind"] == "timer":
                ops += [("stop", k), ("reset", k)]
        op, x = env.pick("op%d" % i, ops)
        if op in ("step", "set"):
            # with a full buffer a second delivery would have to wait: one-shot timers deliver once, so it never does
            t = asyncio.ensure_future(c.step(x) if op == "step" else c.set_time(now + x))
            await env.quiesce()
            env.check(t.done(), "moving the fake clock waits")
            t.result()
            now += x
            for w in ws:
                if w["kind"] == "timer":
                    if w["pending"] and w["due"] <= now:
                        w["pending"] = False
                        w["box"] = now
                else:
                    if w["due"] <= now:
                        if w["box"] is None:
                            w["box"] = now
                        while w["due"] <= now:
                            w["due"] += w["period"]
        elif op == "timer":
            ws.append(dict(kind="timer", obj=c.new_timer(x), due=now + x, pending=True, box=None))
        elif op == "ticker":
            ws.append(dict(kind="ticker", obj=c.new_ticker(x), due=now + x, period=x, box=None))
        elif op == "read":
            w = ws[x]
            got, want = take(w["obj"].c()), w["box"]
            w["box"] = None
            env.check(got == want, "reading %s %d after %r at time +%d: got %r, expected %r", w["kind"], x, env.trace, now - start, got, want)
        elif op == "stop":
            w = ws[x]
            got = w["obj"].stop()
            env.check(bool(got) == w["pending"], "stopping timer %d after %r answered %r, but pending was %r", x, env.trace, got, w["pending"])
            w["pending"] = False
        elif op == "reset":
            w = ws[x]
            got = w["obj"].reset(2)
            env.check(bool(got) == w["pending"], "resetting timer %d after %r answered %r, but pending was %r", x, env.trace, got, w["pending"])
            if w["pending"]:
                w["due"] = now + 2
        env.eq(c.now(), now, "now()")
        env.eq(c.since(start), now - start, "since()")
        env.eq(bool(c.has_waiters()), any(w["kind"] == "ticker" or w["pending"] for w in ws), "has_waiters() after %r" % (env.trace,))
        env.log(op, x)
    for w in ws:
        got = take(w["obj"].c())
        env.check(got == w["box"], "%s after %r: got %r, expected %r", w["kind"], env.trace, got, w["box"])
        env.check(take(w["obj"].c()) is None, "a %s delivered twice after %r", w["kind"], env.trace)


async def passive(env):
    c = clock.FakePassiveClock(5)
    for i in range(3):
        t = env.pick("t%d" % i, [0, 7.5, -3, 5])
        await c.set_time(t)
        env.eq(c.now(), t, "now()")
        env.eq(c.since(2), t - 2, "since()")
        env.log(t)


async def real(env, depth, durations, waits, max_waiters):
    """Timers and tickers on the real clock (virtual time), every sequence of operations."""
    c = clock.RealClock()
    ws = []
    for i in range(depth):
        ops = [("wait", s) for s in waits]
        if len(ws) < max_waiters:
            ops += [("timer", d) for d in durations] + [("ticker", d) for d in durations if d > 0]
        for k, w in enumerate(ws):
            ops += [("read", k), ("stop", k)]
        op, x = env.pick("op%d" % i, ops)
        if op == "wait":
            await asyncio.sleep(x)
        elif op in ("timer", "ticker"):
            # a timer delivers c + d; a ticker at every multiple; `next` is the next delivery
            ws.append(dict(kind=op, d=x, obj=getattr(c, "new_" + op)(x), next=env.rel() + max(x, 0), box=None, stopped=False))
        elif op == "stop":
            ws[x]["obj"].stop()
            ws[x]["stopped"] = True
        await env.quiesce()
        for w in ws:
            while not w["stopped"] and w["next"] is not None and w["next"] <= env.rel() + TOL / 2:
                if w["box"] is None:
                    w["box"] = w["next"]
                w["next"] = w["next"] + w["d"] if w["kind"] == "ticker" else None
        if op == "read":
            w = ws[x]
            got = take(w["obj"].c())
            if w["box"] is None:
                env.check(got is None, "%s of %r delivered at +%.3f after %r", w["kind"], w["d"], env.rel(), env.trace)
            else:
                env.check(got is not None, "%s of %r did not deliver by +%.3f after %r", w["kind"], w["d"], env.rel(), env.trace)
                env.check(abs(got - 1_000_000.0 - w["box"]) <= 10 * TOL, "%s of %r delivered the time +%r, expected +%r, after %r", w["kind"], w["d"], got - 1_000_000.0, w["box"], env.trace)
            w["box"] = None
        env.log(op, x)
    env.check(abs(c.now() - 1_000_000.0 - env.rel()) < 1e-9 and abs(c.since(1_000_000.0) - env.rel()) < 1e-9, "now() or since() is wrong")
    for w in ws:
        got = take(w["obj"].c())
        env.check((got is None) == (w["box"] is None), "%s of %r after %r: %r", w["kind"], w["d"], env.trace, got)
        env.check(take(w["obj"].c()) is None, "%s of %r keeps two deliveries after %r", w["kind"], w["d"], env.trace)
        w["obj"].stop()
    await asyncio.sleep(20)
    for w in ws:
        env.check(take(w["obj"].c()) is None, "%s of %r delivered after it was stopped; %r", w["kind"], w["d"], env.trace)


async def waiting(env):
    """A reader that waits gets the delivery at its time; readers of other timers are not disturbed."""
    c = clock.RealClock()
    kinds = env.pick("kinds", [("timer", "timer"), ("ticker", "timer"), ("ticker", "ticker")])
    ds = env.pick("durations", [(1, 2), (2, 2), (3, 0.5)])
    got = [[], []]
    objs = [getattr(c, "new_" + k)(d) for k, d in zip(kinds, ds)]

    async def reader(i):
        while True:
            await objs[i].c().get()
            got[i].append(env.rel())

    for i in range(2):
        asyncio.ensure_future(reader(i))
    await asyncio.sleep(env.pick("stop", [0.2, 1.2, 2.2, 4.2]))
    k = env.pick("which", [0, 1])
    objs[k].stop()
    at = env.rel()
    await asyncio.sleep(3)
    end = env.rel()
    for i in range(2):
        lim = at if i == k else end
        if kinds[i] == "timer":
            want = [ds[i]] if ds[i] <= lim else []
        else:
            want = [ds[i] * (n + 1) for n in range(int(lim / ds[i]))]
        env.check(len(want) == len(got[i]) and all(abs(a - b) < 10 * TOL for a, b in zip(got[i], want)), "%s of %r: deliveries %r, expected %r", kinds[i], ds[i], got[i], want)
    env.log(kinds, ds, got)


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario("fake", fake, params=dict(depth=6 if t else 5, steps=(1, 2, 5), max_waiters=2)),
        Scenario("fake-long", fake, params=dict(depth=8 if t else 7, steps=(2,), max_waiters=1)),
        Scenario("passive", passive),
        Scenario("real", real, params=dict(depth=6 if t else 5, durations=(0, 1, 2.5), waits=(0.61, 1.53, 4.07), max_waiters=2)),
        Scenario("waiting", waiting),
    ]


ASSUMPTIONS = ["fake timers have a positive duration", "stopping a fake ticker does nothing, as in the original implementation; a real ticker stops"]
