"""U01: backoff schedules and retrying."""
from aiok8s.util import retry, wait
from mc.explore import Scenario

TOL = 1e-4


class Boom(Exception):
    pass


def model(duration, factor, cap, steps, n):
    """The unjittered values of n steps."""
    out = []
    for _ in range(n):
        out.append(duration)
        if steps < 1:
            continue
        steps -= 1
        if factor:
            duration *= factor
            if cap and duration > cap:
                duration, steps = cap, 0
    return out


def fits(got, want, jitter):
    return want - 1e-9 <= got <= want * (1 + jitter) + 1e-9


def snapshot(b):
    return (b.duration, b.factor, b.jitter, b.steps, b.cap)


async def steps(env, durations, factors, caps, ns, jitters, rands):
    d = env.pick("duration", durations)
    f = env.pick("factor", factors)
    c = env.pick("cap", caps)
    n = env.pick("steps", ns)
    j = env.pick("jitter", jitters)
    env.rand_value = env.pick("random", rands)
    b = wait.Backoff(duration=d, factor=f, cap=c, steps=n, jitter=j)
    want = model(d, f, c, n, n + 4)
    got = [b.step() for _ in want]
    for i, (g, w) in enumerate(zip(got, want)):
        env.check(fits(g, w, j), "step %d of duration=%r factor=%r cap=%r steps=%r jitter=%r: got %r, expected %r stretched by at most %r", i + 1, d, f, c, n, j, g, w, j)
        if j and w:
            # the stretch is the random fraction of the jitter, so that every value of the range can occur
            env.check(abs(g - w * (1 + env.rand_value * j)) < 1e-6 * max(1, w), "step %d: got %r with random value %r, expected %r", i + 1, g, env.rand_value, w * (1 + env.rand_value * j))
    env.log(d, f, c, n, j)


async def jitter(env):
    d = env.pick("duration", [0, 0.5, 2, 10])
    f = env.pick("factor", [0.1, 1, 3, 0, -2])
    env.rand_value = env.pick("random", [0.0, 0.3, 0.999999])
    got = wait.jitter(d, f)
    env.check(fits(got, d, f if f > 0 else 1), "jitter(%r, %r) = %r", d, f, got)
    env.log(d, f)


async def retrying(env, durations, factors, caps, ns, jitters, takes, kinds):
    d = env.pick("duration", durations)
    f = env.pick("factor", factors)
    c = env.pick("cap", caps)
    n = env.pick("steps", ns)
    j = env.pick("jitter", jitters)
    env.rand_value = env.pick("random", [0.0, 0.999]) if j else 0.5
    take = env.pick("takes", takes)
    b = wait.Backoff(duration=d, factor=f, cap=c, steps=n, jitter=j) if d is not None else retry.default_retry
    before = snapshot(b)
    vals = model(b.duration, b.factor, b.cap, b.steps, b.steps)
    # with a cap, retrying ends when the cap is exceeded
    limit = b.steps
    for i in range(1, b.steps):
        if b.factor and b.cap and b.duration * b.factor**i > b.cap:
            limit = i
            break
    for rnd in range(2):  # the second use starts afresh
        starts, ends, verdicts = [], [], []

        async def condition():
            i = len(starts)
            starts.append(env.rel())
            env.check(len(starts) == len(ends) + 1, "the condition runs twice at once")
            if take:
                import asyncio

                await asyncio.sleep(take)
            o = env.pick("call%d" % i, kinds)
            verdicts.append(o)
            ends.append(env.rel())
            if o == "raise":
                raise Boom(i)
            return o

        try:
            r = await wait.exponential_backoff(b, condition)
            res = "ok"
        except wait.WaitTimeoutError:
            res = "timeout"
        except Boom:
            res = "raise"
        end = env.rel()
        env.check(snapshot(b) == before, "the given backoff was changed from %r to %r", before, snapshot(b))
        show = "backoff %r, verdicts %r, starts %r" % (before, verdicts, [round(s, 4) for s in starts])
        env.check(len(starts) <= b.steps, "more calls than steps; %s", show)
        for i in range(1, len(starts)):
            gap = starts[i] - ends[i - 1]
            w = vals[i - 1]
            env.check(w - 1e-9 <= gap <= w * (1 + b.jitter) + TOL, "pause %d is %r, expected %r; %s", i, gap, w, show)
        for v in verdicts[:-1]:
            env.check(v is not True and v != "raise" and v != "yes", "the condition was called after its verdict %r; %s", v, show)
        last = verdicts[-1] if verdicts else None
        if last == "raise":
            env.eq(res, "raise", "the outcome; " + show)
        elif last in (True, "yes"):
            env.eq(res, "ok", "the outcome; " + show)
        else:
            env.eq(res, "timeout", "the outcome; " + show)
            env.check(len(starts) >= limit, "it gave up after %d of %d calls; %s", len(starts), limit, show)
        if res != "timeout" or len(starts) == b.steps > 0:  # no pause after the last step
            env.check(abs(end - ends[-1]) <= TOL, "it returned %r after the last call ended; %s", end - ends[-1], show)
        env.log(res, len(starts))
        if len(starts) > 2:
            break


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario("steps", steps, params=dict(durations=(0, 0.5, 1, 3), factors=(0, 0.5, 1, 2, 3), caps=(0, 0.75, 1, 4, 10), ns=(0, 1, 2, 3, 6), jitters=(0, 0.1, 1, 2), rands=(0.0, 0.5, 0.999999))),
        Scenario("jitter", jitter),
        Scenario("retrying", retrying, params=dict(durations=(0, 0.5, 2), factors=(0, 1, 3), caps=(0, 5, 6), ns=(0, 1, 2, 4) if not t else (0, 1, 2, 3, 5), jitters=(0, 0.5), takes=(0, 0.7), kinds=(False, True, "raise"))),
        Scenario("default", retrying, params=dict(durations=(None,), factors=(0,), caps=(0,), ns=(0,), jitters=(0,), takes=(0, 0.3), kinds=(False, None, 0, "yes", "raise") if t else (False, "yes", "raise"))),
    ]


ASSUMPTIONS = ["a cap that is exceeded uses up the remaining steps, as in the original implementation", "random values lie in [0, 1)"]
