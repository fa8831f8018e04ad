"""K03: cache reads return exactly the object last cached under the given name."""
import asyncio

from aiok8s.controller import cache as kcache
from checks import apid, kubed
from mc.explore import Scenario

NN = kubed.reconcile.NamespacedName


def ask(key):
    ns, _, n = key.rpartition("/")
    return NN(namespace=ns or None, name=n)


async def read(cache, nn):
    try:
        return (await cache.get(nn, kubed.V1Pod))
    except KeyError:
        return None


async def grid(env, names, programs, faults, namespace=None, use=True):
    """All names and namespaces, after every change."""
    f = faults or {}
    sv = kubed.Server(env, watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), list_faults=f.get("list", ()))
    for n in env.pick("initial", [(), names[:1], names]):
        sv.change("set", n)
    cache = kcache.new(namespace=namespace) if namespace else kcache.new()
    if use:
        await cache.get_informer(kubed.V1Pod)
    refused = False
    try:
        await cache.get(ask(names[0]), kubed.V1Pod)
    except kcache.CacheNotStartedError:
        refused = True
    except KeyError:
        pass
    env.check(refused, "a read before the start was not refused")
    t = asyncio.ensure_future(cache.start())
    w = asyncio.ensure_future(cache.wait_for_cache_sync())

    async def look():
        for ns in (None, "", "n1", "n2", "n3"):
            for n in ("a", "b", "c"):
                key = "%s/%s" % (ns, n) if ns else n
                o = await read(cache, NN(namespace=ns, name=n))
                wanted = sv.objects.get(key)
                if namespace and ns != namespace:
                    wanted = None
                env.check(o is wanted, "a read of %r returned %s instead of %s; seen %r", key, o and (kubed.key_of(o), o.metadata.resource_version), wanted and (kubed.key_of(wanted), wanted.metadata.resource_version), sv.seen)

    prog = env.pick("changes", programs)
    await env.quiesce()
    await asyncio.sleep(2.4 if sv.list_faults else 0.2)
    await env.quiesce()
    if sv.list_faults or sv.watch_faults:
        env.frozen = True
        await asyncio.sleep(5)
        env.frozen = False
        await env.quiesce()
    env.check(w.done() and not t.done(), "the cache does not start: %r", t)
    env.frozen = True
    await look()
    env.frozen = False
    for op in prog:
        sv.change(*op)
        await env.quiesce()
        if sv.stream_faults:
            env.frozen = True
            await asyncio.sleep(3)
            await env.quiesce()
            env.frozen = False
        env.frozen = True
        await look()
        env.frozen = False
    env.log(sorted(sv.objects), sv.reqs)
    for r in sv.reqs:
        env.check(r[2] == namespace, "a request for namespace %r with a cache of %r", r[2], namespace)
    t.cancel()
    await asyncio.gather(t, w, return_exceptions=True)


async def moments(env, initial, used, reads, faults, drops=False):
    """Reads that are made at any moment, of a kind that is or is not in use yet."""
    sv = kubed.Server(env, list_faults=faults, watch_faults=faults)
    for n in initial:
        sv.change("set", n)
    mgr = kubed.new_manager()
    cache = mgr.get_cache()
    if used == "controller":
        await kubed.builder.build_controller(mgr, kubed.Reconciler(env, cache), api_type=kubed.V1Pod)
    elif used == "informer":
        await cache.get_informer(kubed.V1Pod)
    listed = lambda: bool(sv.lists)
    done = []

    async def one(i, key):
        began = (env.rel(), started[0])
        try:
            o = await cache.get(ask(key), kubed.V1Pod)
            res = o.metadata.resource_version
            env.check(kubed.key_of(o) == key, "a read of %s returned %s", key, kubed.key_of(o))
        except KeyError:
            res = None
        except kcache.CacheNotStartedError:
            env.check(not began[1], "a read after the start was refused")
            done.append((i, key, "refused"))
            return
        env.check(listed(), "a read of %s completed (%s) before the kind was listed", key, res)
        w = sv.objects.get(key)
        env.check(res == (w.metadata.resource_version if w is not None else None), "a read of %s returned version %s, but the initial list has %s; seen %r", key, res, w and w.metadata.resource_version, sv.seen)
        done.append((i, key, res))

    started = [False]
    tasks = []
    for i, key in enumerate(reads):
        env.action("read%d %s" % (i, key), lambda i=i, key=key: tasks.append(asyncio.ensure_future(one(i, key))), optional=True, early="read", order="read")
    if env.pick("early moment", (False, True)):
        await env.quiesce()
        await env.quiesce()
    t = asyncio.ensure_future(mgr.start() if used == "controller" else cache.start())
    started[0] = None
    await asyncio.sleep(0)
    await env.quiesce()
    started[0] = True
    await asyncio.sleep(0.25)
    await env.quiesce()
    env.frozen = True
    await asyncio.sleep(8)
    await env.quiesce()
    for i, x in enumerate(tasks):
        env.check(x.done(), "a read does not complete; requests %r", sv.reqs)
        if x.exception():
            env.fail("a read ended with %r" % x.exception())
    # any kind can be read once the cache runs
    last = asyncio.ensure_future(one(9, "n1/a"))
    await asyncio.sleep(2)
    await env.quiesce()
    env.check(last.done(), "a read does not complete; requests %r", sv.reqs)
    last.result()
    fails = sum(1 for e in sv.events if e[0] == "fail")
    lists = sum(1 for r in sv.reqs if r[0] == "list")
    env.check(sv.max_open <= 1 and lists <= 1 + fails, "the reads of one kind use several informers: %r", sv.reqs)
    env.check(sv.open() == 1, "internal: %d watches open", sv.open())
    env.log(done)
    t.cancel()
    await env.quiesce()
    env.check(t.done(), "the cache does not stop")
    env.check(sv.open() == 0, "a watch is left open after the stop")
    n = len(sv.reqs)
    await asyncio.sleep(30)
    env.check(len(sv.reqs) == n, "requests after the stop: %r", sv.reqs[n:])


def scenarios(tier):
    t = tier == "thorough"
    names = ("n1/a", "n2/a", "a")
    h = apid.histories(names, ("set", "del"), 2) + [(("set", "n1/b"), ("del", "n1/a")), (("set", "b"), ("set", "n3/c"), ("del", "a")), (("replace", "n1/a"), ("set", "n2/b"))]
    n = 3 if t else 2
    return [
        Scenario("grid", grid, budget={"fault": n - 1}, params=dict(names=names, programs=h, faults=dict(stream=("raise", "end")))),
        Scenario("grid-namespace", grid, budget={"fault": n - 1}, params=dict(names=names[:2], programs=apid.histories(names[:2], ("set", "del"), 2), faults=dict(stream=("raise",)), namespace="n1")),
        Scenario("grid-start-faults", grid, budget={"fault": n}, params=dict(names=names, programs=h[:2], faults=dict(list=("raise",), watch=("raise",)))),
        Scenario("grid-unused", grid, params=dict(names=names, programs=h[:4], faults={}, use=False)),
        Scenario("moments-unused", moments, budget={"read": 2, "sched": 1, "fault": 1}, total=n + 1, params=dict(initial=("n1/a", "n2/a"), used=None, reads=("n1/a", "n1/b"), faults=("raise",))),
        Scenario("moments-informer", moments, budget={"read": 2, "sched": 1, "fault": 1}, total=n, params=dict(initial=("n1/a", "n2/a"), used="informer", reads=("n1/a", "n2/a"), faults=("raise",))),
        Scenario("moments-controller", moments, budget={"read": 2, "sched": 1, "fault": 1}, total=n, params=dict(initial=("n1/a", "n2/a"), used="controller", reads=("n1/a", "n1/b"), faults=("raise",))),
    ]


ASSUMPTIONS = ["names contain no slash", "requests complete or fail"]
