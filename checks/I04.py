"""I04: resync notifications go to the handlers that asked, at their period."""
import asyncio

from checks import apid, infd
from checks.I02 import new
from mc.explore import Scenario

TOL = 1e-3


class Spec:
    """When resyncs are due: checks every `check` seconds after each list."""

    def __init__(self, default):
        self.default = default
        self.check = default
        self.handlers = []  # [effective period, last resync, resync times]

    def add(self, period, now, started):
        if period is None:
            period = self.default
        if period:
            period = max(period, 1)
            if self.check and period < self.check:
                if started:
                    period = self.check
                else:
                    self.check = period
        if not self.check:
            period = 0
        h = [period, now, []]
        self.handlers.append(h)

    def tick(self, t):
        for h in self.handlers:
            if h[0] and t >= h[1] + h[0] - TOL / 10:
                h[1] = t
                h[2].append(t)


def resyncs(h):
    """{time: names} of the notifications that changed nothing."""
    out = {}
    for t, k, n, o, v in h.calls:
        if k == "update" and o == v:
            out.setdefault(round(t, 2), []).append(n)
    return out


async def periods(env, default, handlers, late_at=(0.7,), horizon=15.3, relist=None, grow=3.3, ends=()):
    sv = apid.Server(env, gate_requests=False)
    sv.change("set", "a")
    default = env.pick("default", default)
    inf = new(sv, default)
    spec = Spec(default)
    hs = []
    plan = []
    for i, periods_ in enumerate(handlers):
        p = env.pick("period%d" % i, periods_)
        r = env.pick("registered%d" % i, (None,) + tuple(late_at)) if late_at else None
        h = infd.Handler(env, "h%d" % i, "fast")
        hs.append(h)
        plan.append((-1 if r is None else r, i, h, p))
    order = [x[1] for x in sorted(plan, key=lambda x: (x[0], x[1]))]
    hs = [hs[i] for i in order]
    t = None
    events = [(r, "add", h, p) for r, i, h, p in sorted(plan, key=lambda x: (x[0], x[1]))]
    events += [(-0.5, "start", None, None), (grow, "grow", None, None), (horizon, "end", None, None)]
    events += [(x, "watch ends", None, None) for x in ends]
    if relist:
        events.append((relist, "relist", None, None))
    events.sort(key=lambda e: e[0])
    nextcheck = None
    for at, what, h, p in events:
        if at > env.rel():
            while nextcheck is not None and spec.check and nextcheck < at:
                spec.tick(nextcheck)
                nextcheck += spec.check
            await asyncio.sleep(at - env.rel())
        if what == "add":
            spec.add(p, env.rel(), t is not None)
            await inf.add_event_handler(h, resync_period=p)
        elif what == "start":
            t = asyncio.ensure_future(inf.run())
            await env.quiesce()
            nextcheck = env.rel() + spec.check
        elif what == "grow":
            sv.change("set", "b")
        elif what in ("relist", "watch ends"):
            if what == "watch ends":
                sv.change("set", "a")
                await env.quiesce()
            for s in sv.streams:
                if not s.closed:
                    if what == "relist":
                        s.gone = True
                        sv.change("set", "a")  # so that the relist finds a change, not a resync
                        sv.change("set", "b")
                    else:
                        s.ended = True
                    s.wake()
            if what == "relist":
                n = len(sv.calls)
                nextcheck = None
                while not any(c[0] == "list" for c in sv.calls[n:]):
                    await asyncio.sleep(0.05)
                    env.check(env.rel() < horizon, "no new list")
                nextcheck = next(c[1] for c in sv.calls[n:] if c[0] == "list") + spec.check
        await env.quiesce()
    env.check(not t.done(), "the informer ended: %r", t)
    conf = "default %s; %s" % (default, ", ".join("%s: period %s, registered %s" % (x[2].name, x[3], x[0] if x[0] >= 0 else "before the start") for x in plan))
    for h, (eff, last, times) in zip(hs, spec.handlers):
        got = resyncs(h)
        wanted = {}
        for x in times:
            wanted[round(x, 2)] = ["a"] if x < grow else ["a", "b"]
        ok = len(got) == len(wanted) and all(abs(a - b) < 0.02 and sorted(got[a]) == wanted[b] for a, b in zip(sorted(got), sorted(wanted)))
        env.check(ok, "%s: %s was sent resyncs at %r, expected %r", conf, h.name, got, wanted)
    env.log(conf, [resyncs(h) for h in hs])
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


async def late_zero(env, slow):
    """A handler without resyncs that is registered while a resync is going on."""
    sv = apid.Server(env, gate_requests=False)
    for n in ("a", "b", "c"):
        sv.change("set", n)
    inf = new(sv, 2)
    h = infd.Handler(env, "h0", slow)
    await inf.add_event_handler(h, resync_period=2)
    t = asyncio.ensure_future(inf.run())
    z = infd.Handler(env, "zero", "fast")
    reg = []
    env.action("register", lambda: reg.append(asyncio.ensure_future(inf.add_event_handler(z, resync_period=0))), optional=True, early="register", order="register")
    for _ in range(3):
        await asyncio.sleep(2.01)
        await env.quiesce()
    env.frozen = True
    await asyncio.sleep(6)
    await env.quiesce()
    env.check(not resyncs(z), "a handler with period zero was sent a resync: %s", z.show)
    if reg:
        env.check(reg[0].done() and sorted(z.view) == ["a", "b", "c"], "the late handler knows %r", z.view)
    env.check(len(resyncs(h)) in (5, 6), "resyncs of the other handler at %r", lambda: resyncs(h))
    env.log(z.show(), h.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


def scenarios(tier):
    t = tier == "thorough"
    ps = (None, 0, 0.3, 1, 2, 3, 7)
    some = (None, 0, 2, 3) if not t else ps
    late = (0.7, 4.7)
    return [
        Scenario("one", periods, params=dict(default=(0, 0.5, 2, 3, 5), handlers=(ps,), late_at=late)),
        Scenario("two", periods, params=dict(default=(0, 0.5, 2, 5), handlers=(ps, ps), late_at=late if t else late[:1])),
        Scenario("three", periods, params=dict(default=(2, 5) if not t else (0.5, 2, 5), handlers=(some, some, some), late_at=late[:1])),
        Scenario("relist", periods, params=dict(default=(2, 5), handlers=(some, some), late_at=late[1:], relist=6.4)),
        Scenario("watch-ends", periods, params=dict(default=(2, 5), handlers=(some, some), late_at=late[1:], ends=(4.9, 6.4, 9.1))),
        Scenario("late-zero", late_zero, budget={"register": 1, "sched": 2, "order": 2}, total=2 if not t else 3, params=dict(slow="fast")),
        Scenario("late-zero-slow", late_zero, budget={"register": 1, "sched": 2, "order": 2}, total=2 if not t else 3, params=dict(slow="gate")),
    ]


ASSUMPTIONS = ["handlers return at once (slow ones: I03)", "a new list starts the informer's check period afresh", "what a relist finds unchanged may be sent like a resync"]
