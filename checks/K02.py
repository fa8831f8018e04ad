"""K02: failed reconciles are retried with growing delay; none runs twice at once."""
import asyncio

from checks import kubed
from mc.explore import Scenario

TOL = 1e-3
BASE, MAX = 0.005, 1000.0
PAUSE = 1.0  # a worker pauses this long after a reconcile that raised


def judge(env, rec, keys, quiet_from, adds=()):
    """Start times of the runs of each key against the delays that its outcomes call for."""
    show = rec.show
    for k in keys:
        runs = [r for r in rec.runs if r[0] == k]
        env.check(runs, "%s was never reconciled; %s", k, show)
        fails = 0
        dues = []  # when delayed additions made by earlier runs come out
        for i, (key, start, end, seen, out) in enumerate(runs):
            nxt = runs[i + 1][1] if i + 1 < len(runs) else None
            wait = None
            if out in ("raise", "requeue"):
                wait = min(BASE * 2 ** fails, MAX)
                fails += 1
            elif out == "ok":
                fails = 0
            elif out is not None:
                wait = out[1]
                fails = 0
            added = [a for kk, a in adds if kk == k and a >= start - TOL]
            if wait is None:
                # run again only for a change
                if nxt is not None:
                    env.check(any(a <= nxt + TOL for a in added + [x for x in dues if x >= start - TOL]), "%s was reconciled again at %.3f without a reason; %s", k, nxt, show)
                continue
            early = any(a <= (nxt if nxt is not None else 1e9) + TOL for a in added + [x for x in dues if x >= start - TOL])
            dues.append(end + wait)
            if nxt is not None and nxt < end + wait - TOL:
                env.check(early, "%s was reconciled again at %.3f, but after %r at %.3f it is due after %.3f s; %s", k, nxt, out, end, wait, show)
            pause = out == "raise" or any(r[4] == "raise" and r[0] != k and (r[2] or 1e9) <= end + wait + TOL and (r[2] or 1e9) + PAUSE >= end + wait for r in rec.runs)
            slack = (PAUSE if pause else 0) + TOL * 5
            busy = [r for r in rec.runs if r[0] != k and r[1] <= end + wait + PAUSE and (r[2] or 1e9) >= end + wait]
            if busy:
                slack = max(r[2] or 1e9 for r in busy) - (end + wait) + 2 * PAUSE + TOL
            if end + wait + slack < quiet_from:
                env.check(nxt is not None and nxt <= end + wait + slack, "%s was not reconciled again within %.3f s after %r at %.3f (due after %.3f s) but at %s; %s", k, wait + slack, out, end, wait, nxt, show)


async def start(env, names, script, workers, gate=False, **kw):
    sv = kubed.Server(env, gate_requests=False)
    for n in names:
        sv.change("set", n)
    mgr = kubed.new_manager()
    rec = kubed.Reconciler(env, mgr.get_cache(), gate=gate, script=script)
    await mgr.get_cache().get_informer(kubed.V1Pod)
    c = kubed._controller.new(mgr, reconciler=rec)
    if workers != 1:
        c.max_concurrent_reconciles = workers
    await c.watch(kubed.source.Kind(kubed.V1Pod), kubed.handler.EnqueueRequestForObject())
    return sv, rec, asyncio.ensure_future(mgr.start())


async def outcomes(env, alphabet, depth, names=("n1/a",), workers=1, changes=(), horizon=40, duration=(0,)):
    """Each reconcile of a key ends in any of the outcomes, for the first `depth` ones; then they succeed."""
    count = {n: 0 for n in names}

    async def script(key, run):
        i = count[key] = count.get(key, 0) + 1
        if i > depth:
            return "ok"
        o = env.pick("%s run %d" % (key, i), alphabet)
        d = env.pick("duration", duration)
        if d:
            await asyncio.sleep(d)
        return o

    sv, rec, t = await start(env, names, script, workers)
    adds = []
    for at, op, n in changes:
        await asyncio.sleep(max(0, at - env.rel()))
        await env.quiesce()
        adds.append((n, env.rel()))
        sv.change(op, n)
    await asyncio.sleep(horizon - env.rel())
    await env.quiesce()
    env.check(not t.done(), "the manager ended: %r", t)
    judge(env, rec, names, horizon, adds)
    for n in names:
        runs = [r for r in rec.runs if r[0] == n]
        env.check(runs[-1][4] == "ok", "the last reconcile of %s ended as %r; %s", n, runs[-1][4], rec.show)
        # level-triggered: a change during a reconcile leads to one more afterwards
        for k, a in adds:
            if k == n:
                env.check(any(r[1] >= a - TOL and r[0] == n for r in rec.runs), "the change of %s at %.3f led to no reconcile; %s", n, a, rec.show)
    env.log(rec.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def chain(env, what, length):
    """One request fails many times in a row: the delay doubles up to the maximum."""
    n = [0]

    def script(key, run):
        n[0] += 1
        return what if n[0] <= length else "ok"

    sv, rec, t = await start(env, ("n1/a",), script, 1)
    h = 100 + sum(min(MAX, BASE * 2 ** i) + PAUSE for i in range(length))
    await asyncio.sleep(h)
    await env.quiesce()
    judge(env, rec, ("n1/a",), h)
    env.check(len(rec.runs) == length + 1, "%d reconciles for %d failures", len(rec.runs), length)
    env.log(len(rec.runs))
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def races(env, names, workers, alphabet, ops, bound=30):
    """Reconciles and changes complete in any order: a key never runs twice at once and every change is seen."""
    left = {n: 2 for n in names}

    def script(key, run):
        if left.get(key, 0) and not env.frozen:
            left[key] -= 1
            return env.pick("%s outcome" % key, alphabet)
        return "ok"

    sv, rec, t = await start(env, names, script, workers, gate=True)
    await asyncio.sleep(0.35)

    async def drive():
        for op in ops:
            await env.gate("-".join(op), prio=1)
            sv.change(*op)

    d = asyncio.ensure_future(drive())
    await env.quiesce()
    await asyncio.sleep(2.2)
    await env.quiesce()
    env.frozen = True
    await asyncio.sleep(bound)
    await env.quiesce()
    env.check(d.done() and not t.done(), "the manager ended: %r", t)
    for k in names:
        runs = [r for r in rec.runs if r[0] == k]
        o = sv.objects.get(k)
        v = o.metadata.resource_version if o is not None else None
        env.check(runs and runs[-1][3] == v, "the last reconcile of %s saw %s instead of %s; %s", k, runs and runs[-1][3], v, rec.show)
        env.check(runs[-1][4] == "ok", "%s failed and was not retried; %s", k, rec.show)
    env.log(rec.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def isolation(env, names, workers, bad):
    """One request fails for ever; the others are reconciled all the same."""
    def script(key, run):
        return bad if key == names[0] else "ok"

    sv, rec, t = await start(env, names, script, workers)
    await asyncio.sleep(5)
    for n in names[1:]:
        await asyncio.sleep(env.pick("pause", (0.01, 0.5, 1.7)))
        sv.change("set", n)
        v = sv.objects[n].metadata.resource_version
        await asyncio.sleep(2 * PAUSE + 0.2)
        await env.quiesce()
        env.check(any(r[0] == n and r[3] == v for r in rec.runs), "%s was not reconciled within %.1f s while %s fails; %s", n, 2 * PAUSE + 0.2, names[0], rec.show)
    judge(env, rec, names[:1], env.rel())
    env.log(rec.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def parallel(env, most, counts):
    """As many requests are reconciled at once as there are workers."""
    workers = env.pick("workers", list(range(1, most + 1)))
    names = ["n%d/x" % i for i in range(env.pick("requests", counts))]

    async def script(key, run):
        await asyncio.sleep(2)
        return "ok"

    sv, rec, t = await start(env, names, script, workers)
    for turn in range(2):
        done = 0
        while done < len(names):
            await asyncio.sleep(1)
            now = sum(map(bool, rec.active.values()))
            want = min(workers, len(names) - done)
            env.check(now == want, "%d of %d workers reconcile although %d requests are due; %s", now, workers, len(names) - done, rec.show)
            done += want
            await asyncio.sleep(1.001)
        for n in names:
            sv.change("set", n)
        await env.quiesce()
    env.log(workers, rec.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


def scenarios(tier):
    t = tier == "thorough"
    ab = ("n1/a", "n2/a")
    alpha = ("ok", "raise", "requeue", ("after", 3), ("both", 2))
    return [
        Scenario("outcomes", outcomes, params=dict(alphabet=alpha[1:], depth=5 if not t else 7)),
        Scenario("forgotten", outcomes, params=dict(alphabet=alpha, depth=5 if not t else 7, changes=((6, "set", "n1/a"), (13, "set", "n1/a"), (20, "set", "n1/a")))),
        Scenario("durations", outcomes, params=dict(alphabet=alpha[:4], depth=3, duration=(0, 0.7, 2.5), changes=((0.5, "set", "n1/a"), (3, "set", "n1/a")))),
        Scenario("two-requests", outcomes, params=dict(alphabet=alpha[:4] if not t else alpha, depth=3, names=ab, changes=((1.2, "set", "n1/a"),))),
        Scenario("two-workers", outcomes, params=dict(alphabet=alpha[:4] if not t else alpha, depth=2, names=ab, workers=2, duration=(0, 0.7), changes=((0.3, "set", "n1/a"), (0.5, "set", "n2/a")))),
        Scenario("beside-others", outcomes, params=dict(alphabet=("ok", "requeue"), depth=4, names=ab, duration=(0.7,), changes=((5, "set", "n1/a"), (5.1, "set", "n2/a"), (8, "set", "n1/a")))),
        Scenario("long-delays", outcomes, params=dict(alphabet=("ok", "raise", ("after", 50), ("after", 4000)), depth=2, changes=((1, "set", "n1/a"),), horizon=9000), opts=dict(max_steps=200000)),
        Scenario("parallel", parallel, params=dict(most=4, counts=(1, 2, 4, 5))),
        Scenario("chain-requeue", chain, params=dict(what="requeue", length=21), opts=dict(max_steps=100000)),
        Scenario("chain-raise", chain, params=dict(what="raise", length=21), opts=dict(max_steps=100000)),
        Scenario("races", races, budget={"order": 2, "sched": 1, "time": 1}, total=2 if not t else 3, params=dict(names=("n1/a",), workers=2, alphabet=("ok", "raise", "requeue"), ops=(("set", "n1/a"), ("set", "n1/a")))),
        Scenario("races-two", races, budget={"order": 2, "sched": 1}, total=2 if not t else 3, params=dict(names=ab, workers=2, alphabet=("ok", "raise"), ops=(("set", "n1/a"), ("set", "n2/a"), ("del", "n1/a")))),
        Scenario("isolation", isolation, params=dict(names=("n1/bad", "n1/a", "n2/a"), workers=1, bad="raise")),
        Scenario("isolation-requeue", isolation, params=dict(names=("n1/bad", "n1/a", "n2/a"), workers=2, bad="requeue")),
    ]


ASSUMPTIONS = ["the default rate limiter: 5 ms doubling up to 1000 s (its bucket of 100 is not exhausted)", "a worker pauses one second after a reconcile that raised", "a reconcile returns a Result or raises"]
