"""I01: informer cache and handler agree and converge to the server."""
import asyncio

from aiok8s.cache import controller, list_watch
from checks import apid, infd
from mc.explore import Scenario


async def informer(env, initial, programs, faults, make="typed", mode="fast", resync=0, gate_events=False, snapshot_early=False, bound=8, pauses=(0.4,)):
    mk = getattr(apid, make)
    f = faults or {}
    sv = apid.Server(env, make=mk, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events, snapshot_early=snapshot_early)
    for n in initial:
        sv.change("set", n)
    st = []
    h = infd.Handler(env, "handler", mode, cache=lambda: st[0], exact=True)
    store, c = controller.new_informer(list_watch.ListWatch(sv.list, sv.watch), apid.Obj if mk is apid.typed else apid.GVK, resync, h)
    st.append(store)
    t = asyncio.ensure_future(c.run())
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))

    def agree():
        env.check(infd.content(store) == sorted(h.view.items()), "the cache has %r but the notifications add up to %r; %s", lambda: infd.content(store), lambda: sorted(h.view.items()), h.show)

    await env.quiesce()
    agree()
    for p in pauses:
        await asyncio.sleep(p)
        await env.quiesce()
        agree()
    for op in prog[:1]:
        sv.change(*op)
    await env.quiesce()
    agree()
    env.frozen = True
    env.check(d.done(), "internal: changes are not through")
    await asyncio.sleep(bound)
    await env.quiesce()
    env.check(not t.done(), "the informer ended: %r", t)
    agree()
    env.check(infd.content(store) == infd.want(sv), "%g s after the last fault the cache has %r and the server %r; seen by the client: %r; %s", bound, lambda: infd.content(store), lambda: infd.want(sv), sv.events, h.show)
    env.log(h.show(), infd.content(store))
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def functions(env, programs):
    """A handler made of functions is told what it has functions for, and nothing else goes wrong."""
    has = [x for x in ("add", "update", "delete") if env.pick(x, (True, False))]
    ends = env.pick("watch ends first", (False, True))
    told = []
    full = infd.Handler(env, "handler")
    prog = env.pick("changes", programs)

    async def add(o):
        told.append(("add", apid.name_of(o), None, rv(o)))

    async def update(old, new):
        told.append(("update", apid.name_of(new), rv(old), rv(new)))

    async def delete(o):
        o = getattr(o, "obj", o)
        told.append(("delete", apid.name_of(o), None, rv(o)))

    rv = apid.rv_of
    stores = []
    tasks = []
    svs = []
    for h in (full, controller.ResourceEventHandlerFuncs(**{x + "_func": dict(add=add, update=update, delete=delete)[x] for x in has})):
        sv = apid.Server(env, gate_requests=False)
        for n in ("a", "b"):
            sv.change("set", n)
        svs.append(sv)
        store, c = controller.new_informer(list_watch.ListWatch(sv.list, sv.watch), apid.Obj, 0, h)
        stores.append(store)
        tasks.append(asyncio.ensure_future(c.run()))
    await env.quiesce()
    for i, op in enumerate(prog):
        for sv in svs:
            if ends and i == 0:
                for s in sv.streams:
                    s.ended = True
                    s.wake()
                sv.change("set", "z")
            sv.change(*op)
            if ends and i == 0:
                sv.compact()
        await asyncio.sleep(5)
        await env.quiesce()
        want = [c[1:] for c in full.calls if c[1] in has]
        env.check(told == want, "the functions %r were told %r, expected %r", has, told, want)
        env.check(infd.content(stores[1]) == infd.want(svs[1]), "with the functions %r the cache has %r and the server %r", has, lambda: infd.content(stores[1]), lambda: infd.want(svs[1]))
    env.log(has, told)
    for t in tasks:
        t.cancel()
    await env.quiesce()


async def periods(env, period, programs, at, ends):
    """With a resync period every cached object is told of again in each of them."""
    sv = apid.Server(env, gate_requests=False)
    for n in ("a", "b"):
        sv.change("set", n)
    st = []
    h = infd.Handler(env, "handler", env.pick("handler takes", (0, 0.3)) or "fast", cache=lambda: st[0], exact=True)
    store, c = controller.new_informer(list_watch.ListWatch(sv.list, sv.watch), apid.Obj, period, h)
    st.append(store)
    t = asyncio.ensure_future(c.run())
    await env.quiesce()
    prog = env.pick("changes", programs)
    when = env.pick("they come at", at)
    end = env.pick("the watch ends at", ends)
    todo = sorted([(when, "change")] + ([(end, "end")] if end else []), key=lambda x: x[0])
    for x, what in todo:
        await asyncio.sleep(x - env.rel())
        if what == "change":
            for op in prog:
                sv.change(*op)
        else:
            for s in sv.streams:
                s.ended = True
                s.wake()
    last = max(x for x, _ in todo)
    steady = {n for n in sv.objects if all(op[1] != n for op in prog)}
    horizon = last + 2 + 3 * period if period else 10
    await asyncio.sleep(horizon - env.rel())
    await env.quiesce()
    for n in sorted(sv.objects):
        # What was there all along is due since the start, the rest since its last change.
        since = 0 if n in steady and not end else last + 2
        again = [x for x, k, m, o, v in h.calls if m == n and k == "update" and o == v and x > since]
        if not period:
            env.check(not again, "without a resync period %s was told of again at %r; %s", n, again, h.show)
            continue
        slots = int((horizon - since) / period + 0.01)
        env.check(slots - 1 <= len(again) <= slots + 1, "with a resync period of %g s %s was told of again at %r, of %r to %r s; %s", period, n, again, since, horizon, h.show)
    env.log(h.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


FAULTS = dict(list=("raise",), watch=("raise", "gone"), stream=("end", "raise", "error"))


def scenarios(tier):
    t = tier == "thorough"
    p2 = apid.histories(("a", "b"), ("set", "del"), 2)
    p3 = apid.histories(("a", "b"), ("set", "del"), 3)
    few = [(("set", "a"), ("set", "b")), (("del", "a"), ("set", "a")), (("set", "b"), ("del", "a")), (("replace", "a"), ("set", "b")), (("set", "a"), ("del", "a"), ("set", "a")), (("del", "a"), ("set", "b"), ("del", "b"))]
    n = 3 if t else 2
    return [
        Scenario("faults", informer, budget={"fault": n}, params=dict(initial=("a",), programs=few + (p3 if t else p2), faults=FAULTS)),
        Scenario("periods", periods, params=dict(period=2, programs=few[:4] if not t else few, at=(1, 2.5), ends=(None, 1.5, 3.2))),
        Scenario("no-period", periods, params=dict(period=0, programs=few[:2], at=(1,), ends=(None, 1.5))),
        Scenario("functions", functions, params=dict(programs=few + p2)),
        Scenario("faults-untyped", informer, budget={"fault": n - 1}, params=dict(initial=("a",), programs=few, faults=FAULTS, make="untyped")),
        Scenario("slow-handler", informer, budget={"fault": n, "order": 2, "sched": 1}, total=3 if not t else 4, params=dict(initial=("a",), programs=few, faults=dict(stream=("end", "raise")), mode="gate")),
        Scenario("orders", informer, budget={"fault": 2, "order": 2, "sched": 2}, total=3 if not t else 4, params=dict(initial=("a", "b"), programs=few[:4], faults=dict(stream=("end", "raise")), gate_events=True, mode="gate")),
        Scenario("stale-list", informer, budget={"fault": 2, "order": 2}, total=3 if not t else 4, params=dict(initial=("a",), programs=few[:5], faults=dict(stream=("end", "raise")), snapshot_early=True)),
        Scenario("resync", informer, budget={"fault": 2, "order": 1, "sched": 1}, total=2 if not t else 3, params=dict(initial=("a", "b"), programs=few, faults=dict(stream=("raise",)), resync=2, pauses=(2.1, 2.1), mode="gate")),
        Scenario("timeline", informer, budget={"fault": 1, "time": 2}, total=2 if not t else 3, params=dict(initial=("a", "b"), programs=few, faults=dict(stream=("raise",)), resync=2, pauses=(2.1, 2.1), mode="gate")),
    ]


ASSUMPTIONS = ["requests complete or fail, they do not hang for ever", "handlers return, and do not fail (failing handlers: I03)"]
