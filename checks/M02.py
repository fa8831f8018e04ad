"""M02: a dropping broadcaster never blocks and drops only on full buffers."""
import asyncio

from aiok8s.watch import mux
from checks.muxd import DROP, histories, race
from mc.explore import Scenario

PROGRAMS = [
    dict(watchers=[dict(), dict(late=True)], publish=[3]),
    dict(watchers=[dict(prefix=2), dict(late=True, prefix=1)], publish=[3]),
    dict(watchers=[dict(), dict(reads=0)], publish=[3], shutdown=True),
    dict(watchers=[dict(reads=0), dict(prefix=0, late=True)], publish=[2, 2]),
    dict(watchers=[dict(prefix=1), dict(stop=1)], publish=[3]),
    dict(watchers=[dict(reads=0, stop=1), dict(reads=1)], publish=[4]),
]
MANY = [dict(watchers=[dict(), dict(prefix=3), dict(reads=0), dict(reads=2)], publish=[60]), dict(watchers=[dict(), dict(reads=0)], publish=[40], shutdown=True)]


async def sequential(env, depth, sizes, bursts=()):
    """Every operation sequence, quiescent after each step: exact model of the buffers."""
    size = env.pick("size", sizes)
    b = mux.Broadcaster(size, DROP)
    await env.quiesce()
    ws = []  # dict(obj, buf, cap, stopped)
    n = 0
    for i in range(depth):
        ops = ["publish", "watch", "prefix2"] if len(ws) < 2 else ["publish"]
        for j, w in enumerate(ws):
            ops += [("read", j)] + ([("stop", j)] if not w["stopped"] else [])
            ops += [("cancelled read", j)] if bursts and not w["buf"] and not w["stopped"] else []
        ops += [("burst", k) for k in bursts]
        op = env.pick("op%d" % i, ops)
        if op == "publish":
            t = asyncio.ensure_future(b.action("MODIFIED", n))
            await env.quiesce()
            env.check(t.done(), "publishing waits")
            for w in ws:
                if not w["stopped"]:
                    # a watcher registered with prefix events may have a longer buffer
                    w["buf"].append((n, len(w["buf"]) < size))
            n += 1
        elif op[0] == "burst":
            ts = [asyncio.ensure_future(b.action("MODIFIED", n + k)) for k in range(op[1])]
            await env.quiesce()
            env.check(all(t.done() for t in ts), "publishing waits")
            for k in range(op[1]):
                for w in ws:
                    if not w["stopped"]:
                        w["buf"].append((n + k, len(w["buf"]) < size))
            n += op[1]
        elif op[0] == "cancelled read":
            t = asyncio.ensure_future(ws[op[1]]["obj"].__anext__())
            await env.quiesce()
            env.check(not t.done(), "watcher %d reads something that was not published", op[1])
            t.cancel()
            await env.quiesce()
        elif op in ("watch", "prefix2"):
            pre = ["p0", "p1"] if op == "prefix2" else []
            t = asyncio.ensure_future(b.watch_with_prefix([dict(type="ADDED", object=x) for x in pre]) if pre else b.watch())
            await env.quiesce()
            env.check(t.done(), "registering waits")
            ws.append(dict(obj=t.result(), buf=[(x, True) for x in pre], stopped=False, exact=not pre))
        elif op[0] == "read":
            w = ws[op[1]]
            t = asyncio.ensure_future(w["obj"].__anext__())
            await env.quiesce()
            if not t.done():  # nothing to read: the next event must arrive although the reader came first
                env.check(not w["stopped"], "a read of a stopped watcher waits")
                env.check(not any(m for _, m in w["buf"]), "watcher %d does not receive the buffered events %r", op[1], w["buf"])
                w["buf"] = []
                p = asyncio.ensure_future(b.action("MODIFIED", n))
                await env.quiesce()
                env.check(p.done() and t.done(), "an event published while a reader waits does not arrive")
                for x in ws:
                    if not x["stopped"]:
                        x["buf"].append((n, len(x["buf"]) < size))
                n += 1
            if isinstance(t.exception(), StopAsyncIteration):
                env.check(w["stopped"], "the iteration of watcher %d ended by itself", op[1])
                w["buf"] = []
            else:
                e = t.result()["object"]
                # skip events that may have been dropped
                while w["buf"] and w["buf"][0][0] != e and not (w["buf"][0][1]):
                    w["buf"].pop(0)
                env.check(w["buf"] and w["buf"][0][0] == e, "watcher %d received %r, expected one of %r", op[1], e, w["buf"])
                w["buf"].pop(0)
            env.log("read", op[1], len(w["buf"]))
        else:
            w = ws[op[1]]
            t = asyncio.ensure_future(w["obj"].stop())
            await env.quiesce()
            env.check(t.done(), "stopping waits")
            w["stopped"] = True
    env.log(n, len(ws))


def scenarios(tier):
    t = tier == "thorough"
    n = 3 if t else 2
    return [
        Scenario("sequential", sequential, params=dict(depth=8 if t else 7, sizes=(1, 2, 3))),
        Scenario("bursts", sequential, params=dict(depth=6 if t else 5, sizes=(1, 2, 3), bursts=(2, 3))),
        Scenario("histories", histories, params=dict(drop=True, sizes=(1, 2), depth=7 if t else 6, idle=True)),
        Scenario("race", race, budget={"sched": n, "order": n}, total=n, params=dict(drop=True, programs=PROGRAMS, sizes=(1, 2), gated_reads=(0, 1, 2) if t else (1,))),
        Scenario("eager-readers", race, budget={"sched": n, "order": n}, total=n, params=dict(drop=True, programs=PROGRAMS, sizes=(1, 2))),
        Scenario("many", race, budget={"sched": int(t), "order": 1}, total=1, params=dict(drop=True, programs=MANY, sizes=(1, 2, 7), gated_reads=(1,), max_reads=70)),
    ]


ASSUMPTIONS = ["every watcher has at most one reader", "buffer sizes of at least one", "publishers do not publish after the shutdown was requested"]
