"""M01: a blocking broadcaster delivers every event to every watcher, in order."""
from checks.muxd import histories, race
from mc.explore import Scenario

ONE = dict(watchers=[dict()], publish=[3])
PROGRAMS = [
    dict(watchers=[dict(), dict(late=True)], publish=[3]),
    dict(watchers=[dict(prefix=2), dict(late=True, prefix=1)], publish=[2]),
    dict(watchers=[dict(), dict()], publish=[3], shutdown=True),
    dict(watchers=[dict(), dict(prefix=0, late=True)], publish=[2, 1]),
    dict(watchers=[dict(prefix=1), dict(stop=1)], publish=[3]),
    dict(watchers=[dict(reads=0, stop=1), dict()], publish=[3]),
    dict(watchers=[dict(), dict(reads=1, ctx=True), dict(late=True)], publish=[3], shutdown=True),
]
MANY = [dict(watchers=[dict(), dict(prefix=3), dict(late=True)], publish=[60]), dict(watchers=[dict(), dict()], publish=[30], shutdown=True)]


def scenarios(tier):
    t = tier == "thorough"
    n = 3 if t else 2
    return [
        Scenario("histories", histories, params=dict(drop=False, sizes=(0, 1, 2), depth=7 if t else 6)),
        Scenario("race", race, budget={"sched": n, "order": n}, total=n, params=dict(drop=False, programs=PROGRAMS, sizes=(0, 1, 2), gated_reads=(0, 1, 2) if t else (1,))),
        Scenario("eager-readers", race, budget={"sched": n, "order": n}, total=n, params=dict(drop=False, programs=PROGRAMS, sizes=(0, 1, 2))),
        Scenario("slow-reader", race, budget={"sched": n, "order": 3}, total=3, params=dict(drop=False, programs=PROGRAMS[:4] if t else PROGRAMS[1:3], sizes=(0, 1), gated_reads=(1,))),
        Scenario("long-pauses", race, budget={"pause": 2, "order": 1}, total=3 if t else 2, params=dict(drop=False, programs=PROGRAMS, sizes=(0, 1, 2), gated_reads=(0, 1, 2))),
        Scenario("many", race, budget={"sched": int(t), "order": 1}, total=1, params=dict(drop=False, programs=MANY, sizes=(0, 1, 7), gated_reads=(1,), max_reads=70)),
    ]


ASSUMPTIONS = ["every watcher has at most one reader", "publishers do not publish after the shutdown was requested"]
