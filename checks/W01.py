"""W01: work queue semantics: all sequential histories, and linearizability of concurrent ones."""
from aiok8s.workqueue import queue
from checks.wq import INIT, KINDS, race, spec
from mc.explore import Scenario
import asyncio


async def seq(env, kind, depth, items):
    q = KINDS[kind]()
    st = INIT
    ops = [("add", x) for x in items] + [("get",)] + [("done", x) for x in items] + [("shut_down",)]
    for i in range(depth):
        enabled = [op for op in ops if not (op[0] == "done" and op[1] not in st[2]) and not (op[0] == "shut_down" and st[3])
                   and not (op[0] == "add" and st[3] and op[1] != items[0])]
        op = env.pick("op%d" % i, enabled)
        env.log(op)
        res = spec(st, op[0], op[1:])
        if op[0] == "get" and not res:
            t = asyncio.ensure_future(q.get())
            await env.quiesce()
            env.check(not t.done(), "after %r: get answered %r although nothing is available", env.trace, t.done() and t.result())
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        else:
            t = asyncio.ensure_future(getattr(q, op[0])(*op[1:]))
            await env.quiesce()
            env.check(t.done(), "after %r: the call is left waiting (expected state %r)", env.trace, st)
            r = t.result()
            if op[0] == "get":
                r = (r[0], bool(r[1]))
            env.check(any(w == r for _, w in res), "after %r: got %r, expected %r (state before: queue %r dirty %r processing %r)", env.trace, r, [w for _, w in res], st[0], set(st[1]), set(st[2]))
            st = next(s for s, w in res if w == r)
        env.check(len(q) == len(st[0]), "after %r: len is %r, expected %r", env.trace, len(q), len(st[0]))
        env.check(bool(q.shutting_down()) == st[3], "after %r: shutting_down is %r", env.trace, q.shutting_down())


def scenarios(tier):
    t = tier == "thorough"
    a, b = "a", "b"
    A, B, L = ("add", a), ("add", b), ("len",)
    progs = [
        dict(producers=[(A, A, B)]),
        dict(producers=[(A, B), (A,)]),
        dict(producers=[(A, L, A)], initial=(a,)),
        dict(producers=[(A,), (A,)], initial=(b,)),
        dict(producers=[(A, ("shut_down",))], initial=(a,)),
        dict(producers=[(A, B, A)], initial=(a,)),
        dict(producers=[(L,), (B,)], initial=(a, b)),
    ]
    out = [
        Scenario("sequential/plain", seq, params=dict(kind="plain", depth=9 if t else 7, items=(a, b))),
        Scenario("sequential3/plain", seq, params=dict(kind="plain", depth=7 if t else 6, items=(a, b, "c"))),
        Scenario("sequential/delaying", seq, params=dict(kind="delaying", depth=7 if t else 5, items=(a, b))),
        Scenario("two-workers", race, budget={"sched": 2 if t else 1, "order": 10}, params=dict(kind="plain", programs=progs, workers=2), cap=None if t else 400000),
        Scenario("three-workers", race, budget={"sched": 1, "order": 5 if t else 3}, params=dict(kind="plain", programs=progs[:4], workers=3, rounds=1)),
        Scenario("two-workers/delaying", race, budget={"sched": 1, "order": 5 if t else 3}, params=dict(kind="delaying", programs=progs[:3], workers=2, rounds=1)),
        Scenario("eager-workers", race, budget={"sched": 3 if t else 2, "order": 6}, params=dict(kind="plain", programs=progs, workers=2, hold=False)),
    ]
    return out


ASSUMPTIONS = ["callbacks run in asyncio's documented FIFO order; environment events happen at event-loop iteration boundaries",
               "workers mark done only what they were handed"]
