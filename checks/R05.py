"""R05: resyncs run once per period when allowed, and their failure forces a relist."""
import asyncio

from aiok8s.cache import list_watch, reflector
from checks import apid
from checks.R01 import Rec
from mc.explore import Scenario

TOL = 1e-3
P = 10


class TimedRec(Rec):
    def __init__(self, env, answers, script):
        super().__init__(env)
        self.times = []  # (what, time)
        self.script = script

    async def resync(self):
        i = sum(1 for w, _ in self.times if w == "resync")
        self.times.append(("resync", self.env.rel()))
        o = self.env.pick("resync%d" % i, ("ok", "raise"), kind="fault") if self.script and not self.env.frozen else "ok"
        if o == "raise":
            self.times.append(("failed", self.env.rel()))
            raise apid.failure(len(self.times))

    async def replace(self, items, rv):
        await super().replace(items, rv)
        self.times.append(("list", self.env.rel()))


def judge(env, rec, calls, gate, period, end, sv, slow):
    show = lambda: "store and gate %r; calls %r; seen %r" % ([(w, round(t, 2)) for w, t in rec.times], [(c[0], round(c[1], 2)) for c in calls], [e if e[0] != "event" else e[:2] for e in sv.events])
    lists = [t for w, t in rec.times if w == "list"]
    ask = "ask" if gate else "resync"
    asks = [t for w, t in rec.times if w == ask]
    if not period:
        env.check(not asks and not any(w == "resync" for w, _ in rec.times), "a resync although the period is zero; %s", show)
        return
    # every ask is a period after the previous ask or after the list, whichever is later: once per elapsed period
    fails = [t for w, t in rec.times if w == "failed"]
    list_calls = [c[1] for c in calls if c[0] == "list"]
    for i, a in enumerate(asks):
        prev = max([x for x in asks[:i] + lists[:1]] or [0])
        env.check(a - prev >= period - TOL, "asked too early at %.3f; %s", a, show)
    # between lists, asks come exactly at list + k * period
    for k, s in enumerate(lists):
        nxt = min([c for c in list_calls if c > s + TOL] + [end])
        # the run of this list ends when a new list is requested; in the second before it the reflector may be pausing
        got = [a for a in asks if s <= a <= nxt + TOL]
        last = s
        for a in got:
            env.check(a - last <= period + 2 * TOL, "asked at %.3f, more than a period after %.3f; %s", a, last, show)
            last = a
        lim = nxt - (1 + slow + 2 * TOL if nxt < end else 0)
        env.check(lim - last <= period + 2 * TOL, "not asked within a period after %.3f; %s", last, show)
    if gate:
        ans = [w for w, _ in rec.times if w in ("ask", "yes", "no", "error", "resync")]
        for i, w in enumerate(ans):
            if w == "yes":
                env.check(i + 1 < len(ans) and ans[i + 1] == "resync", "the gate agreed but there was no resync; %s", show)
            elif w in ("no", "error"):
                env.check(i + 1 >= len(ans) or ans[i + 1] != "resync", "a resync although the gate refused or failed; %s", show)
            elif w == "resync":
                env.check(i > 0 and ans[i - 1] == "yes", "a resync without asking the gate; %s", show)
    for f in fails:
        env.check(any(f <= c <= f + 3 + slow for c in list_calls) or f > end - 3 - slow, "no new list after the failed resync at %.3f; %s", f, show)


async def periods(env, period, gate, faults, horizon, lifetimes, script, slow=(0,)):
    """Watches end normally (after an event) at chosen moments; the gate's answers and resync failures are chosen."""
    sv = apid.Server(env, gate_requests=False)
    sv.change("set", "a")
    rec = TimedRec(env, None, script)
    asked = []

    async def watch(options):
        asked.append(1)
        d = env.pick("slow%d" % len(asked), slow) if len(asked) <= 4 else 0
        if d:
            await asyncio.sleep(d)
        return await sv.watch(options)

    r = reflector.Reflector(list_watch.ListWatch(sv.list, watch), apid.Obj, rec, period)
    if gate:

        def should():
            i = sum(1 for w, _ in rec.times if w == "ask")
            rec.times.append(("ask", env.rel()))
            v = env.pick("gate%d" % i, gate) if i < 5 else gate[0]
            rec.times.append(("error" if v is None else "yes" if v else "no", env.rel()))
            if v is None:
                raise apid.failure(len(rec.times))
            return v

        r.should_resync = should
    t = asyncio.ensure_future(r.run())
    await env.quiesce()
    k = 0
    while env.rel() < horizon:
        life = env.pick("life%d" % k, lifetimes) if k < 4 else horizon
        k += 1
        life = min(life, horizon - env.rel())
        await asyncio.sleep(life * 0.5)
        sv.change("set", "a")
        await asyncio.sleep(life * 0.5)
        if env.rel() < horizon:
            how = env.pick("how%d" % k, ("end", "gone"), kind="fault") if not env.frozen else "end"
            for s in sv.streams:
                if not s.closed:
                    if how == "end":
                        s.ended = True
                    else:
                        s.gone = True
                    s.wake()
        await env.quiesce()
    end = env.rel()
    env.check(not t.done(), "the reflector ended: %r", t)
    judge(env, rec, sv.calls, bool(gate), period, end, sv, max(slow))
    env.log([(w, round(x, 1)) for w, x in rec.times])
    # nothing is left over that resyncs after the end
    n = len(rec.times)
    t.cancel()
    await asyncio.sleep(3 * P)
    env.check(len(rec.times) == n, "resync activity after the cancellation: %r", rec.times[n:])


def scenarios(tier):
    t = tier == "thorough"
    lives = (3, 7.1, 12.3, 25.7, 100)
    n = 3 if t else 2
    return [
        Scenario("no-gate", periods, budget={"fault": n}, params=dict(period=P, gate=None, faults=None, horizon=47, lifetimes=lives, script=True)),
        Scenario("gate", periods, budget={"fault": n - 1}, params=dict(period=P, gate=(True, False), faults=None, horizon=47, lifetimes=(7.1, 25.7, 100) if not t else lives, script=True)),
        Scenario("refusing-gate", periods, budget={"fault": 1}, params=dict(period=P, gate=(False,), faults=None, horizon=65, lifetimes=lives, script=False)),
        Scenario("failing-gate", periods, budget={"fault": 1}, params=dict(period=P, gate=(True, None), faults=None, horizon=47, lifetimes=(7.1, 100) if not t else lives, script=True)),
        # a watch request can take its time: a resync may fail while no watch is open
        Scenario("slow-watch", periods, budget={"fault": n}, params=dict(period=P, gate=None, faults=None, horizon=47, lifetimes=(3, 12.3, 100), script=True, slow=(0, 4.4, 8.3) if not t else (0, 2.2, 4.4, 8.3))),
        Scenario("zero", periods, budget={"fault": 1}, params=dict(period=0, gate=None, faults=None, horizon=47, lifetimes=lives, script=False)),
        Scenario("zero-gate", periods, params=dict(period=0, gate=(True,), faults=None, horizon=47, lifetimes=lives, script=False)),
    ]


ASSUMPTIONS = ["a resync itself takes no time", "a new list may restart the period"]
