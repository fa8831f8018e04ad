"""L01: at most one elector leads at any time."""
import asyncio

from checks import led
from mc import seams
from mc.explore import Scenario

PROPS = ("L01",)


async def upto(env, t):
    d = seams.EPOCH + t - env.now
    if d > 0:
        await asyncio.sleep(d)


async def bursts(env, props, nbursts, timing, offsets, starts, durations, kinds, stops, jitters, releases, horizon, who=("A", "B"), latencies=((0, 0),), prior=("absent",), names=("A", "B"), skews=(0,), reads=None):
    """Two candidates, bursts of one kind of fault on one of them, stops and restarts."""
    env.rand_value = env.pick("jitter", jitters)
    w = led.World(env, names=names, timing=timing, release=env.pick("release", releases), props=props, prior=env.pick("prior", prior))
    w.extra = max(a + b for a, b in latencies) + 0.01
    # a constant difference between the clocks: each candidate sees and writes times on its own
    w.server.skew["A"] = env.pick("A's clock is ahead by", skews)
    for c in w.cs:
        c.client.latencies = latencies
        c.client.read_latencies = reads
    off = env.pick("offset", offsets)
    for i in range(env.pick("bursts", range(nbursts + 1)) if nbursts > 1 else nbursts):
        c = w.c[env.pick("burst %d on" % i, who)]
        s = env.pick("burst %d from" % i, starts)
        d = env.pick("burst %d for" % i, durations)
        c.client.windows.append((seams.EPOCH + s, seams.EPOCH + s + d, env.pick("burst %d kind" % i, kinds)))
    stop = env.pick("stop", stops)
    w.c["A"].start()
    ev = [(off * (i + 1), "start", n) for i, n in enumerate(names[1:])]
    if stop:
        n, t, back, fresh = stop
        ev.append((t, "stop", n))
        if back is not None:
            ev.append((t + back, "restart fresh" if fresh else "restart", n))
    for t, what, n in sorted(ev):
        await upto(env, t)
        c = w.c[n]
        if what == "start":
            c.start()
        elif what == "stop":
            c.cancel()
        else:
            if c.running():
                c.cancel()
                await asyncio.gather(c.run_task, return_exceptions=True)
            c.start(fresh=what == "restart fresh")
    # whoever loses leadership tries again
    await asyncio.sleep(ODD)
    while env.rel() < horizon:
        await asyncio.sleep(1)
        if "L03" in props:
            w.check_reports()
    env.log([(c.who, [(round(env.rel(a), 1), b and round(env.rel(b), 1)) for a, b in c.led]) for c in w.cs])
    await w.finish()


async def requests(env, props, timing, offset, horizon, outcomes, release=False, cancel=False, hang=20.0, prior="absent"):
    """Every request of both candidates is a choice: its outcome and its order relative to the others."""
    w = led.World(env, timing=timing, release=release, props=props, prior=prior)
    w.extra = 0.01
    for c in w.cs:
        c.client.gates = True
        c.client.outcomes = outcomes
        c.client.hang = hang
    w.c["A"].start()
    acts = []
    if cancel:
        acts.append(env.action("cancel A", w.c["A"].cancel, early="cancel", order="cancel", optional=True))
    await upto(env, offset)
    w.c["B"].start()
    await asyncio.sleep(ODD)
    while env.rel() < horizon:
        await asyncio.sleep(1)
        if "L03" in props:
            w.check_reports()
    for a in acts:
        env.drop(a)
    env.frozen = True
    env.log([(c.who, [(round(env.rel(a), 1), b and round(env.rel(b), 1)) for a, b in c.led]) for c in w.cs])
    await w.finish()


async def callbacks(env, props, timing, variants, cleanups, ends, horizon, jitters, releases):
    """Leading callbacks that return, fail or clean up slowly do not disturb the election."""
    env.rand_value = env.pick("jitter", jitters)
    w = led.World(env, timing=timing, release=env.pick("release", releases), props=props)
    w.extra = 0.01
    a, b = w.cs
    a.callback = env.pick("callback of A", variants)
    a.cleanup = env.pick("cleanup of A", cleanups)
    end = env.pick("end", ends)
    if end == "outage":
        a.client.windows.append((seams.EPOCH + 20, seams.EPOCH + 60, "fail"))
    a.start()
    await upto(env, 1)
    b.start()
    await upto(env, 30)
    if end != "outage" and "L02" in props:
        env.check(w.server.holder() == "A" and env.now - w.server.last_write < timing[2] + 2 * led.SLACK, "A's callback %s; its requests succeed, but the lock is held by %r, last renewed at +%.3f", a.callback, w.server.holder(), env.rel(w.server.last_write))
    if end == "cancel":
        a.cancel()
    await upto(env, horizon)
    if "L02" in props:
        env.check(b.leading() if end != "none" else w.server.holder() == "A", "A ended by %s (callback %s), but at +%.3f the lock is held by %r, B leads: %r", end, a.callback, env.rel(), w.server.holder(), b.leading())
    env.log([(c.who, [(round(env.rel(x), 1), y and round(env.rel(y), 1)) for x, y in c.led]) for c in w.cs])
    await w.finish()


async def released(env, props, timing, outcomes, steps, cleanups):
    """The leader is cancelled at some moment; its requests succeed, so its lock is free when its run ends."""
    w = led.World(env, timing=timing, release=True, props=props)
    w.extra = 0.01
    a, b = w.cs
    for c in w.cs:
        c.client.gates = True
        c.client.outcomes = outcomes
    a.cleanup = env.pick("cleanup", cleanups)
    a.start()
    await upto(env, 1)
    b.start()
    act = env.action("cancel A", a.cancel, early="cancel", order="cancel", optional=True)
    await upto(env, env.pick("cancel by", steps))
    env.drop(act)
    a.cancel()
    env.frozen = True
    a.again = False
    await asyncio.gather(a.run_task, return_exceptions=True)
    t = env.now
    if a.led and "L02" in props:
        env.check(w.server.holder() != "A", "A was cancelled at +%.3f and ended at +%.3f with release-on-cancel and requests that succeed, but still holds the lock: %r", env.rel(a.cancelled_at), env.rel(t), w.server.record())
    await asyncio.sleep(timing[2] * led.MAXJIT + 1)
    if a.led and "L02" in props:
        env.check(b.leading(), "A released the lock at +%.3f, but B does not lead at +%.3f", env.rel(t), env.rel())
    if "L03" in props:
        await asyncio.sleep(ODD)
        w.check_reports()
    env.log([(c.who, [(round(env.rel(x), 1), y and round(env.rel(y), 1)) for x, y in c.led]) for c in w.cs])
    await w.finish()


ODD = 0.0137  # reports are judged at moments at which nothing else happens

ALL = ("fail", "lost", "hang", "lost hang", "late", "500")
STOPS = (("A", 3, None, False), ("A", 7.5, 1, False), ("A", 7.5, 4, True), ("B", 5, 3, True))
PRIOR = ("absent", "no annotations", "other annotation", "released", "released elsewhere", "held")


def scen(props, tier):
    """The scenarios of the three properties; each judges all of them by its own rules."""
    t = tier == "thorough"
    D = (15, 10, 2)
    S = (6, 4, 1)
    J = (0.0, 0.999)
    base = dict(props=props, timing=D, jitters=J, releases=(False, True), horizon=60)
    halves = [x / 2 for x in range(0, 14)]
    durs = (0.6, 4, 7, 9.5, 11.5, 14, 25)
    out = [
        Scenario("bursts", bursts, params=dict(base, nbursts=1, offsets=(0, 1), starts=halves, durations=durs, kinds=ALL, stops=(None,))),
        Scenario("bursts-and-stops", bursts, params=dict(base, nbursts=1, offsets=(0.3,), starts=halves[::2], durations=(0.6, 7, 11.5), kinds=ALL, stops=STOPS, horizon=50)),
        Scenario("two-bursts", bursts, params=dict(base, nbursts=2, jitters=J if t else J[1:], releases=(False, True), offsets=(0.3,), starts=halves if t else (0, 2.5, 6, 9), durations=durs if t else (7, 9.5, 14),
                                                   kinds=ALL[:5] if t else ("fail", "late"), stops=(None,), horizon=70 if t else 60)),
        Scenario("latency", bursts, budget={"slow": 3 if t else 2}, params=dict(base, nbursts=0, jitters=J[1:], offsets=(0.3,), starts=(), durations=(), kinds=(), stops=(None, ("A", 4, None, False)), latencies=((0, 0), (1.4, 0), (0, 1.4), (0.7, 0.7)), horizon=26)),
        Scenario("prior-locks", bursts, params=dict(base, nbursts=1, offsets=(0, 1), starts=(0, 3), durations=(0.6, 9.5, 14), kinds=ALL, stops=(None,) + STOPS[:1], prior=PRIOR)),
        Scenario("skewed-clocks", bursts, params=dict(base, nbursts=1, offsets=(0, 1), starts=halves if t else (0, 2.5, 6), durations=durs if t else (0.6, 9.5, 14), kinds=ALL if t else ("fail", "late", "hang"),
                                                      stops=(None,) + STOPS[:2 if t else 1], prior=("absent", "held"), jitters=J if t else J[1:], skews=(-4096, -8, 8, 4096))),
        Scenario("short-lease", bursts, params=dict(base, timing=S, nbursts=1, offsets=(0, 0.4), starts=halves[:8], durations=(0.6, 2, 3.3, 4.4, 9), kinds=ALL, stops=(None,) + STOPS[:3], horizon=26)),
        Scenario("fractional", bursts, params=dict(base, timing=(3.95, 3.0, 0.8), nbursts=1, offsets=(0, 0.4), starts=(0, 1.5, 2, 3.5), durations=(0.6, 3.3, 9), kinds=ALL, stops=(None,) + STOPS[:1], horizon=18)),
        Scenario("requests", requests, budget={"fault": 2, "order": 1} if t else {"fault": 2}, params=dict(props=props, timing=D, offset=0.0, horizon=22, outcomes=("ok", "fail", "lost", "hang", "lost hang", "late") if t else ("ok", "lost", "late"))),
        Scenario("requests-release", requests, budget={"fault": 1, "cancel": 1, "order": 1 if t else 0}, params=dict(props=props, timing=D, offset=0.0, horizon=14, outcomes=("ok", "fail", "lost", "lost hang", "late"), release=True, cancel=True)),
        Scenario("interleavings", requests, budget={"sched": 2, "order": 2} if t else {"sched": 1, "order": 2}, params=dict(props=props, timing=S, offset=0.0, horizon=6, outcomes=("ok",), release=True, cancel=False)),
        Scenario("cancel", released, budget={"cancel": 1, "order": 1} if not t else {"cancel": 1, "order": 2, "sched": 1}, params=dict(props=props, timing=D, outcomes=("ok",), steps=(6.5, 8), cleanups=(0, 0.5))),
        Scenario("callbacks", callbacks, params=dict(props=props, timing=D, variants=("runs", "returns", "raises"), cleanups=(0, 1, 30), ends=("none", "cancel", "outage"), horizon=75, jitters=J, releases=(False, True))),
    ]
    if "L01" in props:
        out.append(Scenario("slow-reads", bursts, budget={"slow": 2 if t else 1}, params=dict(base, nbursts=1, starts=(4, 7.5), durations=(5, 20), kinds=("fail", "hang"), who=("A",), offsets=(0.3,), stops=(None, ("A", 5, None, False)), reads=((0.001, 0), (6, 0), (0, 6), (12, 0), (5, 5)), horizon=36)))
    if t:
        out.append(Scenario("three-candidates", bursts, params=dict(base, who=("A", "B", "C"), names=("A", "B", "C"), nbursts=1, offsets=(0, 1), starts=halves, durations=durs, kinds=ALL, stops=(None,) + STOPS)))
    return out


def scenarios(tier):
    return scen(PROPS, tier)


ASSUMPTIONS = ["the clocks of the candidates run at the same rate", "a write succeeds within 2 s of being sent or fails (however late); reads may take longer", "no two running electors have the same identity"]
