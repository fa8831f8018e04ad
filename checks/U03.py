"""U03: polling."""
import asyncio

from aiok8s.util import wait
from mc.explore import Scenario

TOL = 1e-4


class Boom(Exception):
    pass


POLLS = {
    "poll": (False, True, lambda i, t, c: wait.poll(i, t, c)),
    "poll_immediate": (True, True, lambda i, t, c: wait.poll_immediate(i, t, c)),
    "poll_infinite": (False, False, lambda i, t, c: wait.poll_infinite(i, c)),
    "poll_immediate_infinite": (True, False, lambda i, t, c: wait.poll_immediate_infinite(i, c)),
}

ERRORS = {"raise": Boom, "raise-timeout": asyncio.TimeoutError, "raise-value": ValueError}


async def poll(env, names, intervals, timeouts, takes, verdicts, checks, gated=False):
    name = env.pick("helper", names)
    imm, timed, call = POLLS[name]
    interval = env.pick("interval", intervals)
    timeout = env.pick("timeout", timeouts) if timed else None
    starts, ends, seen = [], [], []

    async def condition():
        i = len(starts)
        env.check(len(ends) == i, "two checks at once; %s", show)
        env.check(not t.done(), "a check after the end; %s", show)
        starts.append(env.rel())
        d = env.pick("takes%d" % i, takes) if i < 3 else 0
        try:
            if gated:
                await env.gate("check%d" % i)
            elif d:
                await asyncio.sleep(d)
        finally:
            ends.append(env.rel())
        v = env.pick("verdict%d" % i, verdicts) if i < checks else (True if not timed else False)
        seen.append(v)
        if v in ERRORS:
            raise ERRORS[v]("from the condition")
        return v

    def show():
        return "%s(interval=%r, timeout=%r): starts %r, ends %r, verdicts %r, finished %r" % (name, interval, timeout, [round(x, 4) for x in starts], [round(x, 4) for x in ends], seen, finished)

    finished = []
    t = asyncio.ensure_future(call(interval, timeout, condition))
    t.add_done_callback(lambda _: finished.append(env.rel()))
    horizon = 40 if timeout is None else timeout + 3 * (max(takes) + interval)
    await asyncio.sleep(horizon)
    await env.quiesce()
    if env.deviations:
        env.frozen = True
        await asyncio.sleep(horizon)
        await env.quiesce()
    env.check(t.done(), "polling does not end; %s", show)
    end = finished[0]
    e = t.exception()
    for i, s in enumerate(starts):
        if i == 0:
            want = 0 if imm else interval
        else:
            want = ends[i - 1] + interval
        env.check(s >= want - 1e-9, "check %d is early; %s", i + 1, show)
        if not env.deviations:
            env.check(s <= want + TOL, "check %d is late; %s", i + 1, show)
    for v in seen[:-1]:
        env.check(not v, "the condition was checked again after %r; %s", v, show)
    expiry = None
    if timed:
        expiry = timeout + ((ends[0] if ends else 0) if imm else 0)  # an immediate check comes before the timed part
    last = seen[-1] if seen and len(seen) == len(ends) else None
    if isinstance(e, wait.WaitTimeoutError):
        env.check(timed, "a timeout without one; %s", show)
        env.check(not last, "a timeout was reported although the last check gave %r; %s", last, show)
        env.check(end >= expiry - 1e-9, "the timeout is early; %s", show)
        if not env.deviations:
            env.check(end <= expiry + TOL, "the timeout is late; %s", show)
    elif e is not None:
        env.check(last in ERRORS and type(e) is ERRORS[last], "unexpected error %r; %s", e, show)
        env.check(end <= ends[-1] + TOL, "the error is passed on late; %s", show)
    else:
        env.check(last and last not in ERRORS, "success without a successful check; %s", show)
        env.check(end <= ends[-1] + TOL or env.rushed, "the success is reported late; %s", show)
        if timed and len(ends) > 1 and not env.deviations:
            env.check(end <= expiry + TOL, "a success after the timeout; %s", show)
    n = len(starts)
    await asyncio.sleep(3 * interval + 1)
    env.check(len(starts) == n, "a check after the end; %s", show)
    env.log(name, len(starts), type(e).__name__, round(end, 3))


async def cancelled(env, names):
    """Cancelling a poll ends it, and its condition, for good."""
    name = env.pick("helper", names)
    imm, timed, call = POLLS[name]
    n = 0

    async def condition():
        nonlocal n
        n += 1
        await asyncio.sleep(2)
        return False

    t = asyncio.ensure_future(call(1, 20, condition))
    await asyncio.sleep(env.pick("at", [0, 0.5, 1, 2.5, 3, 3.5, 7]))
    t.cancel()
    await env.quiesce()
    env.check(t.cancelled(), "a cancelled poll ends as %r", t)
    k = n
    await asyncio.sleep(30)
    env.check(n == k, "a check after the cancellation")
    env.log(name, n)


def scenarios(tier):
    t = tier == "thorough"
    names = list(POLLS)
    return [
        Scenario("timing", poll, params=dict(names=names, intervals=(0.5, 1, 3), timeouts=(0.2, 1.6, 4.75, 9), takes=(0, 0.4, 2.3), verdicts=(False, True, "raise"), checks=7 if t else 5)),
        Scenario("verdicts", poll, params=dict(names=names, intervals=(1,), timeouts=(0.5, 2.5, 6.5), takes=(0, 0.4), verdicts=(False, True, None, "yes", "raise", "raise-timeout", "raise-value"), checks=3)),
        Scenario("gated", poll, budget={"sched": 2, "time": 2}, total=3 if not t else 4, opts=dict(jumps=2), params=dict(names=names, intervals=(1,), timeouts=(0.5, 2.5, 6.5), takes=(0,), verdicts=(False, True), checks=5 if t else 4, gated=True)),
        Scenario("cancelled", cancelled, params=dict(names=names)),
    ]


ASSUMPTIONS = ["waking up costs no time beyond the deadline", "the timeout of the immediate variants counts from the end of the first check"]
