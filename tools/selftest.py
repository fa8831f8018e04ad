"""Engine self-test (setup_cmd): exhaustiveness, determinism and detection on toy scenarios with known answers."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import seams

seams.patch()
import asyncio

from mc import engine, explore
from mc.explore import Scenario


async def grid(env):
    env.log(env.pick("a", range(3)), env.pick("b", range(4)), env.choose("c", 300))


async def orders(env):
    async def t(name):
        for i in range(2):
            await env.gate("%s%d" % (name, i))
            env.log(name)

    await asyncio.gather(t("x"), t("y"))


async def lost_update(env, yields):
    v = [0]

    async def inc():
        await env.gate("start")
        r = v[0]
        for _ in range(yields):
            await asyncio.sleep(0)
        v[0] = r + 1

    await asyncio.gather(inc(), inc())
    env.eq(v[0], 2, "counter")


async def dead(env):
    await asyncio.get_running_loop().create_future()


async def spin(env):
    while True:
        await asyncio.sleep(0)


async def timed(env):
    t = env.rel()
    await asyncio.sleep(5)
    env.check(5 <= env.rel() - t < 5.001, "slept %r", env.rel() - t)
    env.log(1)


SHARED = []


async def shared(env):
    env.pick("x", (0, 1))
    SHARED.append(1)
    env.check(len(SHARED) == 1, "%d runs left something", len(SHARED) - 1)


SC = [
    (Scenario("grid", grid), dict(execs=3600, outcomes=3600, viol=None)),
    (Scenario("orders", orders, budget={"order": 9}), dict(outcomes=6, viol=None)),
    (Scenario("atomic", lost_update, budget={"sched": 3, "order": 1}, params=dict(yields=0)), dict(viol=None)),
    (Scenario("quiet", lost_update, budget={"order": 3}, params=dict(yields=2)), dict(viol=None)),
    (Scenario("race", lost_update, budget={"sched": 1}, params=dict(yields=2)), dict(viol="counter")),
    (Scenario("dead", dead), dict(viol="deadlock")),
    (Scenario("spin", spin), dict(viol="livelock")),
    (Scenario("timed", timed), dict(viol=None, outcomes=1)),
]


def main():
    scen = [s for s, _ in SC]
    explore._SCEN = scen
    pool = explore.Pool(2)
    try:
        for i, (s, want) in enumerate(SC):
            st, v = explore.explore(scen, i, pool, 2, None)
            if want["viol"] is None:
                assert v is None, (s.name, v)
            else:
                assert v is not None, s.name
                a = engine.execute(s.fn, v, params=s.params, opts=s.opts)
                b = engine.execute(s.fn, v, params=s.params, opts=s.opts)
                assert a.violation == b.violation and want["viol"] in a.violation, (s.name, a.violation)
            if "execs" in want:
                assert st.executions == want["execs"], (s.name, st.executions)
            if "outcomes" in want:
                assert len(st.outcomes) == want["outcomes"], (s.name, len(st.outcomes))
    finally:
        pool.close()
    s = Scenario("shared", shared)
    assert explore.once_or_twice(s, b"\x01", False).violation is None
    del SHARED[:]
    assert "second time" in explore.once_or_twice(s, b"\x01", True).violation
    print("engine self-test passed")


main()
