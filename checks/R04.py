"""R04: a reflector holds one watch at a time and stops completely when cancelled."""
import asyncio

from aiok8s.cache import list_watch, reflector
from checks import apid
from checks.R01 import Rec
from mc.explore import Scenario


async def lifecycle(env, initial, programs, faults, resync=0, cancel=True, gate_events=False, horizon=(), resync_faults=(), slow=False, slow_close=0):
    sv = apid.Server(env, list_faults=faults.get("list", ()), watch_faults=faults.get("watch", ()), stream_faults=faults.get("stream", ()), gate_events=gate_events)
    sv.slow_close = slow_close
    for n in initial:
        sv.change("set", n)
    rec = Rec(env, resync_faults, slow=slow)
    r = reflector.Reflector(list_watch.ListWatch(sv.list, sv.watch), apid.Obj, rec, resync)
    t = asyncio.ensure_future(r.run())
    if cancel:
        env.action("cancel", t.cancel, optional=True, early="cancel", order="cancel")
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))

    def invariant():
        env.check(sv.max_open <= 1, "%d watches are open at once; %r", sv.max_open, sv.events)

    for dt in horizon:
        await env.quiesce()
        invariant()
        if not t.cancelling() and not t.done():
            # while the reflector is idle, exactly the streams that have not ended are open
            for s in sv.streams:
                env.check(s.closed or not s.ended or slow_close, "a watch that ended was not closed; %r", sv.events)
        await asyncio.sleep(dt)
    await env.quiesce()
    invariant()
    env.frozen = True
    if not t.cancelling():
        env.check(not t.done(), "the reflector ended: %r", t)
        t.cancel()
    await env.quiesce()
    if slow_close:
        env.check(not t.done() or not sv.open(), "the reflector ended before its watch was closed; %r", sv.events)
        await asyncio.sleep(slow_close)
        await env.quiesce()
    env.check(t.done(), "the reflector does not end when it is cancelled; %r", sv.events)
    env.check(t.cancelled(), "a cancelled reflector ended as %r", t)
    for s in sv.streams:
        env.check(s.closed, "a watch is still open after the cancellation; %r", sv.events)
    n = (len(sv.calls), len(rec.ops))
    sv.change("set", "z")
    await asyncio.sleep(40)
    await env.quiesce()
    env.check((len(sv.calls), len(rec.ops)) == n, "calls after the cancellation: %r, store operations %r", sv.calls[n[0]:], rec.ops[n[1]:])
    env.log(len(sv.calls), len(sv.streams), [o[0] for o in rec.ops])


FAULTS = dict(list=("raise", "malformed"), watch=("raise", "gone"), stream=("end", "raise", "error"))


def scenarios(tier):
    t = tier == "thorough"
    few = [(("set", "a"), ("del", "a")), (("set", "b"), ("bookmark", "x")), ()]
    n = 3 if t else 2
    return [
        Scenario("watches", lifecycle, budget={"fault": n + 1, "order": 1}, total=n + 1, params=dict(initial=("a",), programs=few, faults=FAULTS, cancel=False, horizon=(0.5, 1.2, 1.2))),
        Scenario("cancel", lifecycle, budget={"fault": n, "cancel": 1}, total=n + 1, params=dict(initial=("a",), programs=few, faults=FAULTS, horizon=(0.5, 1.2))),
        Scenario("slow-close", lifecycle, budget={"fault": n, "cancel": 1}, total=n + 1, params=dict(initial=("a",), programs=few, faults=FAULTS, horizon=(0.5, 1.2, 2.5), slow_close=1.5)),
        Scenario("slow-close-resync", lifecycle, budget={"fault": n, "cancel": 1}, total=n + 1, params=dict(initial=("a",), programs=few[:2], faults=dict(stream=("end", "raise")), resync=2, resync_faults=("resync",), horizon=(2.5, 1.5, 2.5), slow_close=1.5)),
        Scenario("cancel-orders", lifecycle, budget={"fault": 1, "order": 1, "sched": n, "cancel": 1}, total=n + 1, params=dict(initial=("a",), programs=few[:2], faults=dict(stream=("end", "raise")), gate_events=True, horizon=(0.5,))),
        Scenario("resync", lifecycle, budget={"fault": n, "cancel": 1}, total=n + 1, params=dict(initial=("a",), programs=few[:2], faults=dict(stream=("end", "raise")), resync=2, resync_faults=("resync",), horizon=(2.5, 1.5, 2.5))),
        Scenario("resync-races", lifecycle, budget={"fault": 1, "cancel": 1, "time": 1}, total=2 if not t else 3, opts=dict(jumps=2), params=dict(initial=("a",), programs=few[:1], faults=dict(stream=("end",)), resync=2, resync_faults=("resync",), horizon=(2.5, 2.5))),
        Scenario("slow-store", lifecycle, budget={"fault": 1, "order": 1, "sched": 1, "cancel": 1}, total=n + 1, params=dict(initial=("a",), programs=few[:2], faults=dict(stream=("end", "raise")), slow=True, resync=2, horizon=(2.5, 1.5))),
    ]


ASSUMPTIONS = ["the run is cancelled once", "store operations end when they are cancelled"]
