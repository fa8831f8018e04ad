"""U02: periodic loops."""
import asyncio

from aiok8s.util import wait
from mc.explore import Scenario

TOL = 1e-4


class Boom(Exception):
    pass


class Fatal(BaseException):
    """Not an Exception."""


VARIANTS = {
    "loop": (False, True, lambda f, p, j, ev: wait.loop(f, p)),
    "jitter_loop-sliding": (True, True, lambda f, p, j, ev: wait.jitter_loop(f, p, j, True)),
    "jitter_loop": (True, False, lambda f, p, j, ev: wait.jitter_loop(f, p, j, False)),
    "until": (False, True, lambda f, p, j, ev: wait.until(f, p, ev)),
    "jitter_until-sliding": (True, True, lambda f, p, j, ev: wait.jitter_until(f, p, j, True, ev)),
    "jitter_until": (True, False, lambda f, p, j, ev: wait.jitter_until(f, p, j, False, ev)),
}


async def periodic(env, variants, periods, jitters, takes, runs, end, stops=(None,), gated=False):
    """end: None (cancel at the end), "fail" (the function raises in some run), "stop" (the event is set)."""
    name = env.pick("variant", variants)
    jit, sliding, call = VARIANTS[name]
    stoppable = "until" in name
    period = env.pick("period", periods)
    j = env.pick("jitter", jitters) if jit else 0
    if j:
        env.rand_value = env.pick("random", [0.0, 0.5, 0.999999])
    ev = asyncio.Event()
    starts, ends = [], []
    fail_at = env.pick("fails", list(range(runs))) if end == "fail" else None
    error = env.pick("error", (Boom, asyncio.TimeoutError, asyncio.QueueEmpty, Fatal)) if end == "fail" else None
    first = end == "fail" and stoppable and env.pick("stopped before it fails", (False, True))
    stopped_at = None
    show = lambda: "%s period %r jitter %r, starts %r, ends %r, stop %r" % (name, period, j, [round(x, 4) for x in starts], [round(x, 4) for x in ends], stopped_at)

    async def f():
        env.check(len(starts) == len(ends), "the function runs twice at once; %s", show)
        env.check(not ev.is_set(), "a run starts after the stop; %s", show)
        starts.append(env.rel())
        d = env.pick("takes%d" % len(starts), takes) if len(starts) <= 3 else takes[0]
        if gated:
            await env.gate("f")
        elif d:
            await asyncio.sleep(d)
        ends.append(env.rel())
        if fail_at == len(ends) - 1:
            if first:
                ev.set()
            raise error()

    def stop():
        nonlocal stopped_at
        if not ev.is_set():
            stopped_at = env.rel()
            ev.set()

    begin = env.rel()
    if end == "stop":
        at = env.pick("stop", stops)
        if at == "before":
            stop()
        elif at == "gate":
            env.action("stop", stop)
        elif at is not None:
            asyncio.get_running_loop().call_later(at, stop)
    done_at = None
    t = asyncio.ensure_future(call(f, period, j, ev))
    t.add_done_callback(lambda _: finished.append(env.rel()))
    finished = []
    horizon = runs * (period * (1 + max(j, 0)) + max(takes)) + 1
    if end == "stop" and at is None:
        horizon = 3
    if gated:
        for _ in range(runs + 2):
            await env.quiesce()
            if t.done():
                break
            await asyncio.sleep(period)
    else:
        await asyncio.sleep(horizon)
    await env.quiesce()
    lo, hi = period, period * (1 + (j if j > 0 else 0)) + TOL
    if starts:
        env.check(starts[0] <= begin + TOL, "the first run is late; %s", show)
    elif not ev.is_set():
        env.fail("the function never ran; %s" % show())
    for i in range(1, len(starts)):
        base = ends[i - 1] if sliding else starts[i - 1]
        gap = starts[i] - base
        late = max(0, ends[i - 1] - base - lo) if not sliding else 0
        env.check(gap >= lo - 1e-9, "run %d starts early; %s", i + 1, show)
        if not env.deviations:
            env.check(gap <= max(hi, lo + late + TOL), "run %d starts late; %s", i + 1, show)
    if end == "fail":
        env.check(t.done() and isinstance(t.exception(), error), "the error was not passed on; %s", show)
        env.check(len(starts) == fail_at + 1 and finished[0] <= ends[-1] + TOL, "the loop did not end with the error; %s", show)
    elif stopped_at is not None:
        env.check(t.done(), "the loop does not return after the stop; %s", show)
        t.result()
        due = max([stopped_at] + ends)
        if not env.rushed:
            env.check(finished[0] <= due + TOL, "the loop returned at %r after the stop; %s", finished[0], show)
    else:
        env.check(not t.done(), "the loop ended by itself: %r; %s", t, show)
        # the number of runs matches the elapsed time
        last = (ends if sliding else starts)[-1] if ends else 0
        if not env.deviations and len(ends) == len(starts):
            env.check(env.rel() <= max(last + hi, ends[-1]) + TOL, "the loop stopped running the function; %s", show)
        t.cancel()
        await env.quiesce()
        env.check(t.done(), "the loop does not end when cancelled; %s", show)
        n = len(starts)
        await asyncio.sleep(horizon)
        env.check(len(starts) == n, "the function runs after the cancellation; %s", show)
    n = len(starts)
    await asyncio.sleep(2 * period + 1)
    env.check(len(starts) == n, "the function runs after the loop ended; %s", show)
    env.log(name, len(starts), [round(x, 3) for x in starts], round(finished[0], 3))


def scenarios(tier):
    t = tier == "thorough"
    allv = list(VARIANTS)
    until = [v for v in VARIANTS if "until" in v]
    per = (0.5, 1, 3) if t else (0.5, 2)
    return [
        Scenario("timing", periodic, params=dict(variants=allv, periods=per, jitters=(0, 0.5, 1, -1), takes=(0, 0.3, 2.5, 7), runs=4, end=None)),
        Scenario("failures", periodic, params=dict(variants=allv, periods=per, jitters=(0, 1), takes=(0, 0.3, 2.5), runs=3, end="fail")),
        Scenario("stops", periodic, params=dict(variants=until, periods=per, jitters=(0, 1), takes=(0, 0.3, 2.5), runs=4, end="stop", stops=("before", 0, 0.1, 0.3, 0.5, 0.8, 1, 2, 2.5, 3.1))),
        Scenario("stop-anytime", periodic, budget={"order": 1, "sched": 3, "time": 2}, total=4 if not t else 5, opts=dict(jumps=2), params=dict(variants=until, periods=(1,), jitters=(0,), takes=(0,), runs=3, end="stop", stops=("gate",), gated=True)),
    ]


ASSUMPTIONS = ["waking up costs no time beyond the deadline", "a run that starts in the very moment of the stop may be either side of it"]
