"""W04: rate limiters answer exactly the documented delays."""
from fractions import Fraction

from aiok8s.workqueue import default_rate_limiters as drl
from mc.explore import Scenario


def close(a, b):
    return abs(a - b) <= 1e-6 + 1e-9 * abs(b)


def exp_delay(base, mx, n):
    v = Fraction(base) * 2**n
    return float(min(v, Fraction(mx)))


async def counts(env, upto):
    """Every failure count up to `upto`, for every parameter set."""
    base, mx = env.pick("params", [(0.005, 1000), (1, 60), (0.001, 1000), (60, 3600000), (5, 5), (10, 3), (0.25, 0.25), (1e-9, 86400.0), (2, 7), (1.5, 1e300), (1, 0.5)])
    lim = drl.ItemExponentialFailureRateLimiter(base, mx)
    other = env.pick("other", [0, 1, 7])
    for n in range(upto):
        if other and n % 100 == 50:
            lim.forget("b")
            for k in range(other):
                got = lim.when("b")
                env.check(close(got, exp_delay(base, mx, k)), "when() of the other item after %d failures: %r", k, got)
        got = lim.when("a")
        env.check(close(got, exp_delay(base, mx, n)), "when() after %d failures with base %r and maximum %r: got %r, expected %r", n, base, mx, got, exp_delay(base, mx, n))
        if n % 37 == 0 or n < 5:
            env.eq(lim.num_requeues("a"), n + 1, "num_requeues after %d failures" % (n + 1))
            env.eq(lim.num_requeues("never"), 0, "num_requeues of an item that never failed")
    lim.forget("a")
    env.eq(lim.num_requeues("a"), 0, "num_requeues after forget")
    env.check(close(lim.when("a"), exp_delay(base, mx, 0)), "when() after forget does not start again")
    env.log("done", base, mx)


async def exponential(env, depth, items):
    base, mx = env.pick("params", [(0.005, 1000), (1, 6), (2, 1), (3, 1000)])
    lim = drl.ItemExponentialFailureRateLimiter(base, mx)
    n = {}
    for i in range(depth):
        op, x = env.pick("op%d" % i, [(o, x) for x in items for o in ("when", "forget", "num")])
        if op == "when":
            got = lim.when(x)
            env.check(close(got, exp_delay(base, mx, n.get(x, 0))), "when(%r) after %d failures: got %r", x, n.get(x, 0), got)
            n[x] = n.get(x, 0) + 1
        elif op == "forget":
            lim.forget(x)
            n[x] = 0
        else:
            env.eq(lim.num_requeues(x), n.get(x, 0), "num_requeues(%r)" % (x,))
        env.log(op, x)
    for x in items:
        env.eq(lim.num_requeues(x), n.get(x, 0), "num_requeues(%r) at the end" % (x,))


class Bucket:
    """Exact token bucket: starts full; a clock set back counts as no time passed."""

    def __init__(self, rate, burst):
        self.rate, self.burst = Fraction(rate), Fraction(burst)
        self.tokens = self.burst
        self.last = None

    def when(self, now):
        now = Fraction(now)
        if self.last is not None and now > self.last:
            self.tokens = min(self.burst, self.tokens + (now - self.last) * self.rate)
        self.last = now
        self.tokens -= 1
        return float(-self.tokens / self.rate) if self.tokens < 0 else 0.0


async def bucket(env, depth, steps, params):
    rate, burst = env.pick("params", params)
    env.now = env.pick("epoch", [1_000_000.0, 1.7e9])
    env.time_choices = False
    lim = drl.BucketRateLimiter(rate, burst)
    ref = Bucket(rate, burst)
    for i in range(depth):
        s = env.pick("step%d" % i, steps)
        env.now += s
        x = "ab"[i % 2]
        if i == depth // 2:
            lim.forget(x)
        got, want = lim.when(x), ref.when(env.now)
        env.check(abs(got - want) <= 2e-6, "call %d after steps ...%r with rate %r and burst %r: got %r, expected %r", i + 1, s, rate, burst, got, want)
        env.eq(lim.num_requeues(x), 0, "num_requeues of a bucket limiter")
        env.log(s, round(want, 4))


async def bucket_long(env, n):
    """A long burst, a pause, and a burst again."""
    rate, burst = env.pick("params", [(10, 100), (0.1, 1), (3, 7), (1000, 1)])
    pause = env.pick("pause", [0, 0.05, 1, 15, 1000, 1e7])
    env.time_choices = False
    lim = drl.BucketRateLimiter(rate, burst)
    ref = Bucket(rate, burst)
    for k in range(3):
        for i in range(n):
            got, want = lim.when(i), ref.when(env.now)
            env.check(abs(got - want) <= 1e-5, "burst %d call %d with rate %r and burst %r: got %r, expected %r", k, i + 1, rate, burst, got, want)
        env.now += pause
    env.log(rate, burst, pause)


async def invalid(env):
    limit, burst = env.pick("params", [(0, 1), (-1, 1), (1, 0), (0, 0), (1, -3)])
    try:
        drl.BucketRateLimiter(limit, burst)
    except ValueError:
        return
    env.fail("a bucket of rate %r and burst %r was accepted" % (limit, burst))


async def combined(env, depth, steps, items, prelude):
    """The default controller limiter: the larger of exponential(5 ms, 1000 s) and bucket(10/s, 100)."""
    lim = drl.default_controller_rate_limiter()
    ref = Bucket(10, 100)
    env.time_choices = False
    n = {}
    pre = env.pick("prelude", prelude)
    for i in range(pre):
        got, want = lim.when("other%d" % i), max(ref.when(env.now), 0.005)
        env.check(abs(got - want) <= 1e-5, "call %d for different items at one moment: got %r, expected %r", i + 1, got, want)
    for i in range(depth):
        op, x = env.pick("op%d" % i, [("when", x) for x in items] + [("forget", items[0])] + [("step", s) for s in steps])
        if op == "when":
            got = lim.when(x)
            want = max(ref.when(env.now), exp_delay(0.005, 1000, n.get(x, 0)))
            n[x] = n.get(x, 0) + 1
            env.check(abs(got - want) <= 1e-5, "when(%r) as failure %d after %d other items: got %r, expected %r", x, n[x], pre, got, want)
        elif op == "forget":
            lim.forget(x)
            n[x] = 0
        else:
            env.now += x
        for y in items:
            env.eq(lim.num_requeues(y), n.get(y, 0), "num_requeues(%r)" % y)
        env.log(op, x)


class Part:
    def __init__(self, answers):
        self.answers, self.calls = answers, []

    def when(self, item):
        self.calls.append(("when", item))
        return self.answers

    def forget(self, item):
        self.calls.append(("forget", item))

    def num_requeues(self, item):
        return self.answers


async def parts(env, depth, answers):
    """The combined limiter over parts that answer anything."""
    ps = [Part(env.pick("part%d" % i, answers)) for i in range(3)]
    lim = type(drl.default_controller_rate_limiter())(*ps)
    want = []
    for i in range(depth):
        op = env.pick("op%d" % i, ["when", "forget"])
        if op == "when":
            env.eq(lim.when("x%d" % i), max(p.answers for p in ps), "when() over parts that answer %r" % ([p.answers for p in ps],))
        else:
            lim.forget("x%d" % i)
        want.append((op, "x%d" % i))
        for p in ps:
            env.eq(p.calls, want, "what a part that answers %r, of %r, was told" % (p.answers, [p.answers for p in ps]))
        env.eq(lim.num_requeues("x"), max(p.answers for p in ps), "num_requeues over parts that answer %r" % ([p.answers for p in ps],))
    env.log([p.answers for p in ps], want)


async def combined_long(env):
    """One item fails until its delay is the longest, then many others."""
    lim = drl.default_controller_rate_limiter()
    ref = Bucket(10, 100)
    env.time_choices = False
    fails = env.pick("failures", [1, 17, 18, 19, 30, 60, 99, 120, 1100])
    step = env.pick("step", [0, 0.01, 5])
    for n in range(fails):
        env.now += step
        got, want = lim.when("a"), max(ref.when(env.now), exp_delay(0.005, 1000, n))
        env.check(abs(got - want) <= 1e-5 + 1e-9 * want, "failure %d of one item, %r s apart: got %r, expected %r", n + 1, step, got, want)
    for n in range(130):
        got, want = lim.when("other%d" % n), max(ref.when(env.now), 0.005)
        env.check(abs(got - want) <= 1e-5 + 1e-9 * want, "item %d after %d failures of another: got %r, expected %r", n + 1, fails, got, want)
    env.log(fails, step)


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario("counts", counts, params=dict(upto=1200 if not t else 3000), opts=dict(max_steps=10**9)),
        Scenario("exponential", exponential, params=dict(depth=7 if t else 5, items=("a", "b"))),
        Scenario("bucket", bucket, params=dict(depth=7 if t else 5, steps=(0, 0.05, 0.4, 1, 30, -2), params=[(10, 100), (2, 1), (10, 2), (1, 3), (0.5, 2)])),
        Scenario("bucket-long", bucket_long, params=dict(n=250), opts=dict(max_steps=10**9)),
        Scenario("invalid", invalid),
        Scenario("parts", parts, params=dict(depth=3, answers=[0, 0.005, 1, 999, 1000, 5000, 1e9])),
        Scenario("combined-long", combined_long, opts=dict(max_steps=10**9)),
        Scenario("combined", combined, params=dict(depth=7 if t else 6, steps=(0.1, 2), items=("a", "b"), prelude=[0, 98, 130])),
    ]


ASSUMPTIONS = ["delays are compared within 10 microseconds (the limiter computes with floats)"]
