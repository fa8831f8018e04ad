"""L03: leadership callbacks and the lock record tell the truth."""
import asyncio

from aiok8s.leaderelection import leaderelection
from checks import led
from checks.L01 import ASSUMPTIONS, scen  # noqa: F401
from mc.explore import Scenario

PROPS = ("L03",)


async def config(env, values):
    """Every combination of settings is rejected at construction exactly when it cannot work."""
    lease = env.pick("lease", values)
    renew = env.pick("renew", values)
    retry = env.pick("retry", values)
    what = env.pick("missing", ("nothing", "lock", "started", "stopped", "new leader"))

    async def cb(*a):
        pass

    c = leaderelection.LeaderElectionConfig(
        lock=None if what == "lock" else object(),
        callbacks=leaderelection.LeaderCallbacks(None if what == "started" else cb, None if what == "stopped" else cb, None if what == "new leader" else cb),
        name="n",
        lease_duration=lease,
        renew_deadline=renew,
        retry_period=retry,
    )
    good = lease > renew > 1.2 * retry and retry > 0 and renew > 0 and what in ("nothing", "new leader")
    try:
        leaderelection.LeaderElector(c)
    except Exception as e:
        env.check(not good, "lease %r, renew deadline %r, retry period %r, missing: %s: rejected (%r)", lease, renew, retry, what, e)
    else:
        env.check(good, "lease %r, renew deadline %r, retry period %r, missing: %s: accepted", lease, renew, retry, what)
    env.log(good)


async def no_listener(env, timing):
    """Without a new-leader callback everything else still works."""
    w = led.World(env, timing=timing, props=("L01", "L02", "L03"), release=env.pick("release", (False, True)), listener=False)
    w.extra = 0.01
    w.c["A"].start()
    await asyncio.sleep(env.pick("offset", (0, 1)))
    w.c["B"].start()
    await asyncio.sleep(20)
    w.c["A"].cancel()
    await asyncio.sleep(40)
    env.check(w.c["B"].leading(), "B does not take over")
    await w.finish()


def scenarios(tier):
    t = tier == "thorough"
    v = (-1, 0, 0.5, 1, 1.2, 2, 2.4, 2.5, 5, 6, 10, 15) + ((12, 18, 0.6, -5) if t else ())
    return scen(PROPS, tier) + [
        Scenario("configurations", config, params=dict(values=v)),
        Scenario("no-listener", no_listener, params=dict(timing=(15, 10, 2))),
    ]
