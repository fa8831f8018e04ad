"""K07: a controller cache keeps to its namespace and its resync period."""
import asyncio

from aiok8s.controller import cache as kcache
from checks import kubed
from mc.explore import Scenario

TOL = 1e-2


class Rec:
    def __init__(self, env):
        self.env = env
        self.got = []  # (what, key, version, time)

    async def on_add(self, obj):
        self.got.append(("add", kubed.key_of(obj), obj.metadata.resource_version, self.env.rel()))

    async def on_update(self, old, new):
        same = old.metadata.resource_version == new.metadata.resource_version
        self.got.append(("resync" if same else "update", kubed.key_of(new), new.metadata.resource_version, self.env.rel()))

    async def on_delete(self, obj):
        self.got.append(("delete", None, None, self.env.rel()))


async def resyncs(env, periods, namespaces, rounds, jitters, how):
    period = env.pick("period", periods)
    ns = env.pick("namespace", namespaces)
    env.rand_value = env.pick("random", jitters)
    sv = kubed.Server(env, gate_requests=False)
    names = ("n1/a", "n2/a", "n2/b", "c")
    for n in names:
        sv.change("set", n)
    mine = [n for n in names if not ns or n.startswith(ns + "/")]
    kw = {}
    if period is not None:
        kw["resync"] = period
    if ns is not None:
        kw["namespace"] = ns
    rec = Rec(env)
    recon = None
    if how == "cache":
        cache = kcache.new(**kw)
        await (await cache.get_informer(kubed.V1Pod)).add_event_handler(rec)
        t = asyncio.ensure_future(cache.start())
    elif how == "late":
        cache = kcache.new(**kw)
        t = asyncio.ensure_future(cache.start())
        await env.quiesce()
        await (await cache.get_informer(kubed.V1Pod)).add_event_handler(rec)
    else:
        mgr = kubed.new_manager(**kw)
        recon = kubed.Reconciler(env, mgr.get_cache())
        await kubed.builder.build_controller(mgr, recon, api_type=kubed.V1Pod)
        await (await mgr.get_cache().get_informer(kubed.V1Pod)).add_event_handler(rec)
        t = asyncio.ensure_future(mgr.start())
    await env.quiesce()
    p = 36000 if period is None else period
    start = env.rel()
    change = env.pick("change", (None, "set", "del"))
    span = (p or 50) * rounds
    await asyncio.sleep(0.37 * span)
    if change:
        sv.change(change, mine[0])
    await asyncio.sleep(span - 0.37 * span)
    await env.quiesce()
    end = env.rel()
    env.check(not t.done(), "the cache ended: %r", t)
    show = lambda: "%s" % "; ".join("%s %s@%s %.3f" % g for g in rec.got)
    for r in sv.reqs:
        env.check((r[2] or None) == (ns or None), "a request for namespace %r by a cache of %r", r[2], ns)
    for g in rec.got:
        env.check(g[1] is None or g[1] in mine, "a cache of namespace %r has %r; %s", ns, g, show)
    for n in mine:
        last = start
        extra = p if how == "late" else 0  # the first resync after a late registration is at the next check but one
        gone = change == "del" and n == mine[0]
        times = [g[3] for g in rec.got if g[0] == "resync" and g[1] == n]
        if not p:
            env.check(not times, "resyncs without a period; %s", show)
            continue
        stop = start + 0.37 * span if gone else end
        for x in times:
            env.check(x - last >= 0.9 * p - TOL, "%s is resynced after %.3f instead of about %g; %s", n, x - last, p, show)
            env.check(x - last <= 1.1 * (p + extra) + TOL, "%s is resynced after %.3f instead of about %g; %s", n, x - last, p, show)
            last = x
            extra = 0
        env.check(stop - last <= 1.1 * (p + extra) + TOL, "%s is not resynced within %g after %.3f; %s", n, p, last, show)
        if recon is not None:
            runs = [r[1] for r in recon.runs if r[0] == n]
            for x in times[1:]:  # the controllers register late
                env.check(any(x <= r <= x + 1 for r in runs), "the resync of %s at %.3f led to no reconcile; %s", n, x, recon.show)
    if recon is not None:
        for r in recon.runs:
            env.check(r[0] in mine, "a reconcile of %s by a manager of namespace %r", r[0], ns)
    env.log([(g[0], g[1], round(g[3], 1)) for g in rec.got], len(recon.runs) if recon else None)
    t.cancel()
    await env.quiesce()
    env.check(t.done(), "the cache does not stop")


def scenarios(tier):
    t = tier == "thorough"
    js = (0.0, 0.5, 0.999999) if not t else (0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999999)
    ps = (5, 20, 300, 0) if not t else (2, 5, 20, 300, 7200, 0)
    nss = (None, "n1", "n2")
    return [
        Scenario("cache", resyncs, params=dict(periods=ps, namespaces=nss, rounds=4, jitters=js, how="cache")),
        Scenario("default", resyncs, params=dict(periods=(None,), namespaces=nss, rounds=3, jitters=js, how="cache")),
        Scenario("late", resyncs, params=dict(periods=ps, namespaces=nss, rounds=4, jitters=js, how="late")),
        Scenario("manager", resyncs, params=dict(periods=ps, namespaces=nss, rounds=4, jitters=js, how="manager")),
    ]


ASSUMPTIONS = ["the server answers at once and handlers return at once", "a random factor spreads the periods of the informers by at most a tenth"]
