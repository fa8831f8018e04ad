"""I03: a slow or failing handler affects no one else."""
import asyncio

from checks import apid, infd
from checks.I02 import new, same_order
from mc.explore import Scenario

PAUSE = 61  # a handler that raised is called again within this time


class Blocker(infd.Handler):
    """May block in any of its calls until it is told to go on."""

    def __init__(self, env, name, slow, times):
        super().__init__(env, name, "fast")
        self.go = asyncio.Event()
        self.times = times
        self.slow = slow

    async def _call(self, *a):
        await super()._call(*a)
        self.running += 1
        try:
            if self.slow and not self.go.is_set() and self.env.choose("%s blocks in call %d" % (self.name, len(self.calls)), 2, kind="block"):
                self.blocked = True
                await self.go.wait()
        finally:
            self.running -= 1


async def isolated(env, initial, programs, modes, faults=None, burst=(), late=True, resync=0, release=True, gate_events=False):
    """modes: per handler "block", "raise", "fast" or a duration."""
    f = faults or {}
    sv = apid.Server(env, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events)
    for n in initial:
        sv.change("set", n)
    inf = new(sv, resync)
    hs = []
    for i, m in enumerate(modes):
        h = Blocker(env, "h%d" % i, True, 1) if m == "block" else infd.Handler(env, "h%d" % i, m)
        hs.append(h)
        await inf.add_event_handler(h)
    t = asyncio.ensure_future(inf.run())
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))
    await env.quiesce()
    for op in burst:
        sv.change(*op)
    await env.quiesce()
    env.check(d.done(), "internal: changes are not through")
    if late:
        h = infd.Handler(env, "late", "fast")
        reg = asyncio.ensure_future(inf.add_event_handler(h))
        await env.quiesce()
        env.check(reg.done() and reg.exception() is None, "a registration waits for the handler that is slow: %r", reg)
        hs.append(h)
    env.frozen = True
    if sv.stream_faults:
        await asyncio.sleep(8)  # the client reconnects
        await env.quiesce()

    def cache():
        return infd.content(inf.get_indexer())

    env.check(cache() == infd.want(sv), "while a handler is slow or fails the cache has %r and the server %r; %s", cache, lambda: infd.want(sv), lambda: [h.show() for h in hs])
    ref = None
    for h, m in zip(hs, list(modes) + ["fast"]):
        if m == "fast":
            env.check(sorted(h.view.items()) == cache(), "another handler is slow or fails, and %s; but the cache has %r; %r", h.show, cache, [g.show() for g in hs])
            if ref is None:
                ref = h
    if not release:
        env.log([h.show() for h in hs])
        t.cancel()
        for h in hs:
            if isinstance(h, Blocker):
                h.go.set()
        await asyncio.sleep(100)
        return
    for h in hs:
        if isinstance(h, Blocker):
            h.go.set()
    await env.quiesce()
    total = 20
    for h, m in zip(hs, modes):
        if m == "raise":
            total += PAUSE * env.budget["fail"]
        elif not isinstance(m, str):
            total += m * (len(prog) + len(burst) + len(initial) + 1)
    await asyncio.sleep(total)
    await env.quiesce()
    for h in hs:
        env.check(sorted(h.view.items()) == cache(), "not everything was delivered within %g s: %s; the cache has %r", total, h.show, cache)
        if h is not ref and h.name != "late" and ref is not None:
            env.check(infd.changes(h) == infd.changes(ref), "%s; but %s", h.show, ref.show)
    # a failing handler is told again within the pause
    sv.change("set", "a")
    for h in hs:
        if h.mode == "raise":
            h.mode = "fast"
    await env.quiesce()
    await asyncio.sleep(max([m for m in modes if not isinstance(m, str)] + [0]))
    await env.quiesce()
    for h in hs:
        env.check(sorted(h.view.items()) == cache(), "a handler that has recovered is not told at once: %s; the cache has %r", h.show, cache)
    env.log([h.show() for h in hs])
    t.cancel()
    await asyncio.sleep(100)


def scenarios(tier):
    t = tier == "thorough"
    p2 = apid.histories(("a", "b"), ("set", "del"), 2)
    few = [(("set", "a"), ("set", "b")), (("del", "a"), ("set", "a")), (("set", "b"), ("del", "a")), (("replace", "a"), ("set", "b"))]
    burst = (("set", "a"), ("set", "b"), ("set", "c"), ("del", "b"), ("set", "a"))
    lost = dict(stream=("raise", "end"))
    n = 2 if t else 1
    return [
        Scenario("blocks", isolated, budget={"block": n, "order": 1, "sched": 1}, total=n + 1, params=dict(initial=("a",), programs=few + p2, modes=("block", "fast"), burst=burst)),
        Scenario("blocks-last", isolated, budget={"block": n, "order": 1, "sched": 1}, total=n + 1, params=dict(initial=("a",), programs=few, modes=("fast", "block"), burst=burst)),
        Scenario("blocks-relist", isolated, budget={"block": 1, "fault": 2}, total=2 if not t else 3, params=dict(initial=("a",), programs=few, modes=("block", "fast"), burst=burst[:2], faults=lost)),
        Scenario("never-returns", isolated, budget={"block": 2, "order": 1}, total=2, params=dict(initial=("a", "b"), programs=few, modes=("block", "fast", "block"), burst=burst, release=False)),
        Scenario("raises", isolated, budget={"fail": n + 1, "order": 1, "sched": 1}, total=n + 1, params=dict(initial=("a",), programs=few + p2, modes=("raise", "fast"), burst=burst)),
        Scenario("raises-last", isolated, budget={"fail": n + 1, "order": 1}, total=n + 1, params=dict(initial=("a",), programs=few, modes=("fast", "raise"), burst=burst[:2])),
        Scenario("takes-time", isolated, budget={"order": 1, "sched": int(t), "time": 1}, total=n + 1, params=dict(initial=("a", "b"), programs=few if t else few[1:3], modes=(3, "fast", 0.5), burst=burst)),
        Scenario("raises-and-blocks", isolated, budget={"fail": 1, "block": 1}, total=2, params=dict(initial=("a",), programs=few, modes=("raise", "block", "fast"), burst=burst)),
    ]


ASSUMPTIONS = ["a handler that raised is called again after at most 61 s", "handlers do not block the event loop itself"]
