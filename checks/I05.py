"""I05: informers report synced truthfully and stop completely."""
import asyncio

from aiok8s.cache import controller, index, list_watch, shared_informer
from checks import apid, infd
from checks.I02 import new
from mc.explore import Scenario


def make(env, sv, kind, h, resync=0):
    """An informer of either kind: (run, has_synced, cache)."""
    if kind == "plain":
        store, c = controller.new_informer(list_watch.ListWatch(sv.list, sv.watch), apid.Obj, resync, h)
        return c.run, c.has_synced, store, c
    inf = new(sv, resync)
    return inf.run, inf.has_synced, inf.get_indexer(), inf


async def synced(env, kinds, initial, programs, faults, mode="fast", wait=True, gate_events=False, late=False):
    """has_synced of each informer, looked at after every step, and the wait for all of them."""
    svs, parts, tasks, regs = [], [], [], []
    for i, kind in enumerate(kinds):
        sv = apid.Server(env, list_faults=faults.get("list", ()), watch_faults=faults.get("watch", ()), stream_faults=faults.get("stream", ()), gate_events=gate_events, name="s%d." % i if i else "")
        for n in env.pick("initial%d" % i, initial):
            sv.change("set", n)
        h = infd.Handler(env, "h%d" % i, mode)
        run, has, cache, inf = make(env, sv, kind, h)
        if kind == "shared":
            await inf.add_event_handler(h)
        env.check(not has(), "synced before the start")
        env.eq(inf.last_sync_resource_version(), "", "version before the start")
        svs.append(sv)
        parts.append((run, has, cache, inf, sv))
    first = {}

    def missing(i):
        """Objects of the first list of informer i that are not in its cache."""
        run, has, cache, inf, sv = parts[i]
        if i not in first:
            first[i] = next((list(e[2]) for e in sv.lists), None)
        if first[i] is None:
            return ["(no list yet)"]
        gone = {apid.name_of(e[2]) for e in sv.events if e[0] == "event" and e[1] == "DELETED"}
        if len(sv.lists) > 1:
            gone |= set(first[i]) - set(sv.lists[-1][2])
        have = {apid.name_of(o) for o in cache.list()}
        return sorted(set(first[i]) - have - gone)

    was = {}

    def monitor():
        for i, (run, has, cache, inf, sv) in enumerate(parts):
            if has():
                if not was.get(i):
                    m = missing(i)
                    if m:
                        env.violate("informer %d reports synced, but its cache lacks %r of the initial list; seen %r" % (i, m, sv.events))
                    was[i] = env.rel()
            elif was.get(i) is not None:
                env.violate("informer %d is not synced any more" % i)

    env.monitor = monitor
    for p in parts:
        tasks.append(asyncio.ensure_future(p[0]()))
    w = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*[p[1] for p in parts])) if wait else None
    if w:
        w.add_done_callback(lambda _: [env.check(not missing(i), "the wait for the caches returned, but %r of informer %d is missing", missing(i), i) for i in range(len(parts))] if not w.cancelled() else None)
    if late:

        async def register():
            await env.gate("register", prio=1)
            await parts[0][3].add_event_handler(infd.Handler(env, "late", mode))

        regs.append(asyncio.ensure_future(register()))
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, svs[0], prog))
    await env.quiesce()
    await asyncio.sleep(0.45)
    await env.quiesce()
    env.frozen = True
    await asyncio.sleep(8)
    await env.quiesce()
    for i, p in enumerate(parts):
        env.check(p[1](), "informer %d has not synced 8 s after the last fault; seen %r", i, svs[i].events)
        env.check(not tasks[i].done(), "informer %d ended: %r", i, tasks[i])
        last = [e[1] if e[0] == "list" else apid.rv_of(e[2]) for e in svs[i].events if e[0] in ("list", "event")][-1]
        env.check(p[3].last_sync_resource_version() == last, "informer %d reports version %r instead of %r; seen %r", i, p[3].last_sync_resource_version(), last, svs[i].events)
    if w:
        env.check(w.done() and w.result() is True, "the wait for the caches is not through: %r", w)
    env.log(was, [infd.content(p[2]) for p in parts])
    for t in tasks:
        t.cancel()
    await asyncio.sleep(100)


async def stop(env, kind, initial, programs, faults, mode="fast", resync=0, gate_events=False, pauses=(0.4,), register=False, bound=0.0, wait=False, slow_close=0):
    sv = apid.Server(env, list_faults=faults.get("list", ()), watch_faults=faults.get("watch", ()), stream_faults=faults.get("stream", ()), gate_events=gate_events)
    sv.slow_close = slow_close
    for n in initial:
        sv.change("set", n)
    h = infd.Handler(env, "h0", mode)
    run, has, cache, inf = make(env, sv, kind, h, resync)
    if kind == "shared":
        await inf.add_event_handler(h)
    hs = [h]
    t = asyncio.ensure_future(run())
    at = []

    def cancel():
        at.append(env.rel())
        t.cancel()

    env.action("cancel", cancel, optional=True, early="cancel", order="cancel")
    regs = []
    if register:
        late = infd.Handler(env, "late", mode)
        hs.append(late)

        def reg():
            late.after_end = t.done()
            regs.append(asyncio.ensure_future(inf.add_event_handler(late, resync_period=resync)))

        env.action("register", reg, optional=True, early="register", order="register")
    w = asyncio.ensure_future(shared_informer.wait_for_cache_sync(has)) if wait else None
    d = asyncio.ensure_future(apid.drive(env, sv, env.pick("changes", programs)))
    for p in pauses:
        await env.quiesce()
        await asyncio.sleep(p)
    await env.quiesce()
    if not at:
        env.frozen = True
        env.check(not t.done(), "the informer ended: %r", t)
        cancel()
    await env.quiesce()
    b = bound * (1 + len(h.failed) + (len(hs[-1].failed) if register else 0))
    if slow_close:
        env.check(not t.done() or not sv.open(), "the informer ended before its watch was closed; seen %r", sv.events)
        await asyncio.sleep(slow_close)
        await env.quiesce()
    if b:
        await asyncio.sleep(max(0, at[0] + b - env.rel()))
        await env.quiesce()
    env.check(t.done(), "the informer does not end when it is cancelled; %s; seen %r", h.show, sv.events)
    env.check(t.cancelled(), "a cancelled informer ended as %r", t)
    env.frozen = True
    await env.quiesce()
    for s in sv.streams:
        env.check(s.closed, "a watch is still open after the end; seen %r", sv.events)
    for r in regs:
        env.check(r.done() and r.exception() is None, "the registration of a handler during the stop does not complete: %r", r)
    if register:
        if regs and late.after_end:
            env.check(not late.calls, "a handler registered after the end was called; %s", late.show)
    for x in hs:
        x.closed = True
    n, c = len(sv.calls), infd.content(cache)
    sv.change("set", "z")
    if register:
        post = infd.Handler(env, "post", "fast")
        post.closed = True
        r = asyncio.ensure_future(inf.add_event_handler(post))
        await env.quiesce()
        env.check(r.done() and r.exception() is None, "registering a handler after the end: %r", r)
    await asyncio.sleep(90)
    await env.quiesce()
    env.check(len(sv.calls) == n, "requests after the end: %r", sv.calls[n:])
    env.check(infd.content(cache) == c, "the cache changed after the end")
    if w:
        w.cancel()
    left = env.left_over(d, w)
    env.check(not left, "tasks are left over after the end: %r", left)
    env.log(len(sv.calls), c, [x.show() for x in hs])


async def indexers(env):
    """Index functions can be added only before the start."""
    sv = apid.Server(env)
    sv.change("set", "a")
    inf = new(sv, 0, indexers=env.pick("factory", (True, False)))

    async def fn(o):
        return [apid.name_of(o)]

    first = env.pick("before the start", (True, False))
    f = (lambda o: [apid.name_of(o)])
    if first:
        await inf.add_indexers(index.Indexers({"early": f}))
    t = asyncio.ensure_future(inf.run())
    when = env.pick("when", ("starting", "running", "stopped"))
    if when != "starting":
        await env.quiesce()
    if when == "stopped":
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
    added = None
    if when == "starting":
        await asyncio.sleep(0)
        await asyncio.sleep(0)
    try:
        await inf.add_indexers(index.Indexers({"late": f}))
        added = True
    except Exception:
        added = False
    env.check(not added, "index functions were added to a %s informer", when)
    await env.quiesce()
    if first:
        got = [apid.name_of(o) for o in await _maybe(inf.get_indexer().by_index("early", "a"))]
        env.check(got == ["a"], "the index does not work: %r", got)
    env.check("late" not in inf.get_indexer().get_indexers(), "the rejected index function was added")
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def _maybe(x):
    return (await x) if asyncio.iscoroutine(x) else x


FAULTS = dict(list=("raise",), watch=("raise", "gone"), stream=("end", "raise"))


def scenarios(tier):
    t = tier == "thorough"
    few = [(("set", "a"), ("set", "b")), (("del", "a"), ("set", "b")), ()]
    inits = ((), ("a",), ("a", "b"))
    n = 3 if t else 2
    out = []
    for kind in ("plain", "shared"):
        out += [
            Scenario("synced-" + kind, synced, budget={"fault": 2, "order": 1, "sched": 1}, total=n, params=dict(kinds=(kind,), initial=inits, programs=few, faults=FAULTS)),
            Scenario("synced-slow-" + kind, synced, budget={"fault": 1, "order": 1, "sched": 1}, total=n, params=dict(kinds=(kind,), initial=inits[1:], programs=few[1:], faults=dict(list=("raise",)), mode="gate")),
            Scenario("stop-" + kind, stop, budget={"fault": n, "cancel": 1}, total=n, params=dict(kind=kind, initial=("a",), programs=few, faults=FAULTS)),
            Scenario("stop-slow-close-" + kind, stop, budget={"fault": 1, "cancel": 1}, total=n, params=dict(kind=kind, initial=("a",), programs=few[:2], faults=dict(stream=("end", "raise")), slow_close=2)),
            Scenario("stop-slow-" + kind, stop, budget={"order": 1, "sched": 1, "cancel": 1, "fault": 1}, total=n, params=dict(kind=kind, initial=("a", "b"), programs=few[:2], faults=dict(stream=("raise",)), mode="gate", gate_events=True)),
            Scenario("stop-resync-" + kind, stop, budget={"cancel": 1, "fault": 1, "time": 1}, total=n, params=dict(kind=kind, initial=("a", "b"), programs=few[:1], faults=dict(stream=("raise",)), resync=2, pauses=(2.1, 2.1))),
            Scenario("stop-takes-time-" + kind, stop, budget={"cancel": 1, "sched": 1}, total=n, params=dict(kind=kind, initial=("a",), programs=few[:1], faults={}, mode=3, bound=3, pauses=(2.1, 2.1))),
        ]
    out += [
        Scenario("synced-late-handler", synced, budget={"order": 2, "sched": 2}, total=n, params=dict(kinds=("shared",), initial=inits[1:], programs=few[2:], faults={}, mode="fast", late=True)),
        Scenario("wait-for-two", synced, budget={"fault": 2, "order": 2, "time": 1}, total=n, params=dict(kinds=("shared", "plain"), initial=inits[:2], programs=few[2:], faults=dict(list=("raise",)))),
        Scenario("register-stop", stop, budget={"cancel": 1, "register": 1, "sched": 1, "order": 1}, total=n, params=dict(kind="shared", initial=("a", "b"), programs=few[:1], faults={}, register=True)),
        Scenario("register-stop-slow", stop, budget={"cancel": 1, "register": 1, "sched": 1, "order": 1}, total=n, params=dict(kind="shared", initial=("a",), programs=few[:1], faults={}, register=True, mode="gate")),
        Scenario("stop-raising-handler", stop, budget={"cancel": 1, "fail": 2}, total=n + (1 if not t else 0), params=dict(kind="shared", initial=("a", "b"), programs=few[:1], faults={}, mode="raise", bound=61, register=False)),
        Scenario("indexers", indexers),
    ]
    return out


ASSUMPTIONS = ["handlers return, so that the end of the run can wait for them", "the run is cancelled once", "a handler that raised may delay the end by its pause of at most 61 s"]
