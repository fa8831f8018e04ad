"""K09: the manager runs what is added to it, and stops all of it when a part fails."""
import asyncio

from checks import apid, kubed
from checks.K04 import build
from mc.explore import Scenario


class Boom(Exception):
    pass


class Dep:
    cache = None

    def inject_cache(self, c):
        self.cache = c


class Runnable:
    """what: how it behaves; shapes: which injections it takes."""

    def __init__(self, env, i, what, mgr, sv, shape="cache", error=None):
        self.env, self.i, self.what, self.mgr, self.sv = env, i, what, mgr, sv
        self.starts = 0
        self.running = self.cut = False
        self.cache = None
        self.f = None
        self.shape = shape
        self.error = error or Boom(i)
        self.ended = None
        if "cache" in shape:
            self.inject_cache = self._inject_cache
        if "func" in shape:
            self.inject_func = self._inject_func

    def _inject_cache(self, c):
        self.cache = c

    def _inject_func(self, f):
        self.f = f

    async def start(self):
        env = self.env
        self.starts += 1
        env.check(self.starts == 1, "runnable %d was started twice", self.i)
        env.check(self.sv.lists, "runnable %d was started before the initial list", self.i)
        if "cache" in self.shape:
            env.check(self.cache is self.mgr.get_cache(), "runnable %d has not got the cache", self.i)
        if "func" in self.shape:
            d = Dep()
            self.f(d)
            env.check(d.cache is self.mgr.get_cache(), "what runnable %d injects into does not get the cache", self.i)
        if self.what == "raise-call":
            self.ended = "raise"
            raise self.error
        if self.what == "return-call":
            self.ended = "return"
            return
        await self._run()

    async def _run(self):
        env = self.env
        self.running = True
        try:
            for key in self.sv.lists[0][2]:
                try:
                    o = await self.mgr.get_cache().get(kubed.reconcile.NamespacedName(*key.split("/")), kubed.V1Pod)
                except KeyError:
                    env.check(any(x[1] == "DELETED" and kubed.key_of(x[2]) == key for x in self.sv.log), "%s is not in the cache of runnable %d", key, self.i)
                    continue
                env.check(o.metadata.name == key.split("/")[1], "the cache has %r for %s", o, key)
            if self.what == "forever":
                await asyncio.Event().wait()
            if self.what == "slow":
                try:
                    await asyncio.Event().wait()
                finally:
                    self.cut = True
                    await asyncio.sleep(0.5)
                    self.cut = False
            if self.what == "stubborn-raise":
                try:
                    await asyncio.Event().wait()
                finally:
                    raise self.error
            if self.what != "raise-first":
                await env.gate("runnable%d" % self.i)
            if self.what.startswith("raise"):
                self.ended = "raise"
                raise self.error
            self.ended = "return"
            return
        finally:
            self.running = False


class Equal(Runnable):
    """Equal to, and as false as, every other."""

    __hash__ = None

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False


class Injected:
    """Takes what is injected; serves as reconciler, handler and predicate."""

    def __init__(self, shape):
        self.cache = self.f = None
        if "cache" in shape:
            self.inject_cache = lambda c: setattr(self, "cache", c)
        if "func" in shape:
            self.inject_func = lambda f: setattr(self, "f", f)
        self.shape = shape

    def judge(self, env, what, cache):
        if "cache" in self.shape:
            env.check(self.cache is cache, "%s has not got the cache", what)
        if "func" in self.shape:
            d = Dep()
            self.f(d)
            env.check(d.cache is cache, "what %s injects into does not get the cache", what)

    async def create(self, e, queue):
        await queue.add(kubed.reconcile.Request(kubed.reconcile.NamespacedName(e.meta.namespace, e.meta.name)))


class Yes(Injected):
    """Each is equal to every other one."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0

    def create(self, e):
        return True

    update = delete = generic = create


class Rec(Injected):
    runs = None

    async def reconcile(self, request):
        self.runs = (self.runs or []) + [request.namespaced_name.name]
        return kubed.reconcile.Result()


async def injected(env, shapes, via):
    sv = kubed.Server(env)
    sv.change("set", "n1/a")
    mgr = kubed.new_manager()
    cache = mgr.get_cache()
    rec, h, p1, p2 = (k(env.pick(n, shapes)) for n, k in (("reconciler", Rec), ("handler", Injected), ("predicate", Yes), ("predicate2", Yes)))
    how = env.pick("built", via)
    if how == "builder":
        await kubed.builder.build_controller(mgr, rec, api_type=kubed.V1Pod)
    else:
        c = kubed._controller.new(mgr, reconciler=rec)
        await c.watch(kubed.source.Kind(kubed.V1Pod), h, p1, p2)
        h.judge(env, "the handler", cache)
        p1.judge(env, "the predicate", cache)
        p2.judge(env, "the second predicate", cache)
    rec.judge(env, "the reconciler", cache)
    t = asyncio.ensure_future(mgr.start())
    await asyncio.sleep(1)
    await env.quiesce()
    env.check(rec.runs == ["a"], "reconciled: %r", rec.runs)
    t.cancel()
    await env.quiesce()
    env.log(how)


class BadSource:
    """A source that cannot start."""

    def __init__(self, env, error):
        self.env, self.error = env, error

    async def start(self, *a):
        await self.env.gate("source")
        raise self.error


async def mixed(env, mixes, initial, programs, faults=None, controllers=(1,), gate=False, shapes=("cache",), bad_source=False, gate_events=False, Runnable=Runnable, cleanup=0):
    f = faults or {}
    sv = kubed.Server(env, list_faults=f.get("list", ()), watch_faults=f.get("watch", ()), stream_faults=f.get("stream", ()), gate_events=gate_events)
    for n in initial:
        sv.change("set", n)
    mgr = kubed.new_manager()
    mix = env.pick("runnables", mixes)
    where = env.pick("controllers added", ("first", "last")) if len(controllers) > 1 or controllers[0] else "first"
    recs = []
    rs = [Runnable(env, i, w, mgr, sv, env.pick("shape%d" % i, shapes)) for i, w in enumerate(mix)]
    nc = env.pick("controllers", controllers)
    if where == "first":
        recs = await build(env, mgr, nc, gate, cleanup=cleanup)
    for r in rs:
        mgr.add(r)
    if where == "last":
        recs = await build(env, mgr, nc, gate, cleanup=cleanup)
    if not nc:
        await mgr.get_cache().get_informer(kubed.V1Pod)
    errors = [r.error for r in rs]
    bad = None
    if bad_source:
        bad = Boom("source")
        errors.append(bad)
        c = kubed._controller.new(mgr, reconciler=kubed.Reconciler(env, mgr.get_cache()))
        await c.watch(BadSource(env, bad), kubed.handler.EnqueueRequestForObject())
    t = asyncio.ensure_future(mgr.start())

    def at_end(_):
        busy = [r.i for r in rs if r.running]
        env.check(not busy, "the start ended while runnables %r are running", busy)
        cut = [r.i for r in rs if r.cut]
        env.check(not cut, "runnables %r were cancelled again while they ended", cut)
        for s in sv.streams:
            env.check(s.closed, "the start ended while a watch is open; seen %r", sv.seen)
        for r in recs:
            env.check(not any(r.active.values()), "the start ended while a reconcile is running; %s", r.show)
            env.check(not r.cut, "the reconciles of %r were cancelled again while they ended", r.cut)
            r.closed = True

    t.add_done_callback(at_end)
    prog = env.pick("changes", programs)
    d = asyncio.ensure_future(apid.drive(env, sv, prog))
    for p in (0.2, 3.4, 0.5):
        await env.quiesce()
        await asyncio.sleep(p)
    await env.quiesce()
    env.frozen = True
    await env.quiesce()
    await asyncio.sleep(6)
    await env.quiesce()
    fails = [r for r in rs if r.ended == "raise"] or bad
    if not fails:
        env.check(not t.done(), "the start ended although nothing failed: %r", t)
        for r in rs:
            env.check(r.starts == 1, "runnable %d was not started", r.i)
            env.check(r.running or r.ended, "runnable %d, which has not failed, was stopped", r.i)
        for r in recs:
            env.check(sorted({x[0] for x in r.runs}) >= sorted(sv.objects), "%r exist, but reconciled were: %s", sorted(sv.objects), r.show)
        sv.change("set", "n1/late")
        await asyncio.sleep(3)
        await env.quiesce()
        for r in recs:
            env.check("n1/late" in {x[0] for x in r.runs}, "nothing is reconciled after a runnable ended: %s", r.show)
        t.cancel()
        await env.quiesce()
        await asyncio.sleep(2)
        await env.quiesce()
    env.check(t.done(), "the start does not end although a runnable failed")
    if fails:
        env.check(not t.cancelled() and t.exception() in errors, "the start ended as %r", t)
    elif not t.cancelled():
        env.check(t.exception() in errors, "the start ended as %r", t)
    for s in sv.streams:
        env.check(s.closed, "a watch is still open after the start ended; seen %r", sv.seen)
    n = len(sv.reqs)
    sv.change("set", "n1/z")
    await asyncio.sleep(60)
    await env.quiesce()
    env.check(len(sv.reqs) == n, "requests after the start ended: %r", sv.reqs[n:])
    left = env.left_over(d)
    env.check(not left, "tasks are left over: %r", left)
    env.log(mix, [r.ended for r in rs], [r.show() for r in recs])


async def two_managers(env, mixes, initial, late=(False, True)):
    """Managers in one process: what happens to the first does not concern the second."""
    sv = kubed.Server(env)
    for n in initial:
        sv.change("set", n)
    mgrs = [kubed.new_manager(), kubed.new_manager()]
    env.check(mgrs[0].get_cache() is not mgrs[1].get_cache(), "two managers share a cache")
    mix = env.pick("runnables", mixes)
    rs, recs, ts = [], [], []
    for i, m in enumerate(mgrs):
        recs += await build(env, m, 1, False)
        rs.append(Runnable(env, i, mix[i], m, sv))
        m.add(rs[i])
    after = env.pick("the second starts late", late)
    ts.append(asyncio.ensure_future(mgrs[0].start()))
    if after:
        await asyncio.sleep(1)
        await env.quiesce()
        env.check(not rs[1].starts and not recs[1].runs, "the second manager runs although only the first was started")
    ts.append(asyncio.ensure_future(mgrs[1].start()))
    if "cancel" in mix:
        env.action("cancel", ts[0].cancel)
    await env.quiesce()
    await asyncio.sleep(2)
    await env.quiesce()
    env.frozen = True
    env.check(not ts[1].done(), "the second manager ended: %r", ts[1])
    env.check(rs[1].starts == 1 and (rs[1].running or rs[1].ended), "the second manager's runnable was started %d times", rs[1].starts)
    if mix[0] != "forever" or "cancel" in mix:
        env.check(ts[0].done() and not rs[0].running, "the first manager has not ended")
        recs[0].closed = True
    n = len(sv.streams)
    sv.change("set", "n1/late")
    await asyncio.sleep(2)
    await env.quiesce()
    env.check(sorted({x[0] for x in recs[1].runs}) == sorted(sv.objects), "%r exist, but the second manager reconciled: %s", sorted(sv.objects), recs[1].show)
    env.check(len(sv.streams) == n, "the watches were started again")
    for t in ts:
        t.cancel()
    await env.quiesce()
    for s in sv.streams:
        env.check(s.closed, "a watch is still open after both managers ended")
    env.log(mix, after)


def scenarios(tier):
    t = tier == "thorough"
    n = 4 if t else 3
    a, b = "n1/a", "n2/a"
    few = [(("set", b), ("set", a)), (("del", a),)]
    fails = [("raise",), ("raise-first",), ("raise-call",), ("forever", "raise"), ("raise", "forever"), ("raise", "raise"), ("slow", "raise"), ("forever", "raise-call"), ("raise-call", "forever"), ("return", "raise"), ("stubborn-raise", "raise", "slow")]
    fine = [(), ("return",), ("forever",), ("return", "forever"), ("return", "return"), ("return-call", "forever"), ("forever", "return-call")]
    lf = dict(list=("raise",), watch=("raise",), stream=("raise",))
    return [
        Scenario("fails", mixed, budget={"order": 2, "sched": 1}, total=n, params=dict(mixes=fails, initial=(a,), programs=few, gate=True)),
        Scenario("ends", mixed, budget={"order": 2, "sched": 1}, total=n, params=dict(mixes=fine, initial=(a,), programs=few, gate=True)),
        Scenario("requests-fail", mixed, budget={"fault": 2, "order": 1}, total=n, params=dict(mixes=fails + fine, initial=(a, b), programs=few[:1], faults=lf, controllers=(0, 1))),
        Scenario("two-controllers", mixed, budget={"order": 1, "sched": 1}, total=n, params=dict(mixes=fails + fine, initial=(a, b), programs=few[:1], controllers=(2,), gate=True, gate_events=True)),
        Scenario("cleanup", mixed, budget={"order": 2, "sched": 1}, total=2, params=dict(mixes=[("slow",), ("slow", "raise"), ("raise",), ("return", "slow")], initial=(a, b), programs=few, gate=True, controllers=(1, 2), cleanup=0.5)),
        Scenario("shapes", mixed, params=dict(mixes=[("forever", "forever"), ("forever", "raise")], initial=(a,), programs=few, shapes=("cache", "func", "cache+func", "none"), controllers=(0, 1))),
        Scenario("equal", mixed, budget={"order": 1}, params=dict(mixes=[("forever", "forever"), ("return", "raise"), ("slow", "slow", "raise")], initial=(a,), programs=few, Runnable=Equal)),
        Scenario("two-managers", two_managers, budget={"order": 2, "sched": 1}, total=2, params=dict(mixes=[("raise", "forever"), ("forever", "forever"), ("raise-call", "return"), ("forever", "forever", "cancel")], initial=(a, b))),
        Scenario("injected", injected, params=dict(shapes=("cache", "func", "cache+func", "none"), via=("builder", "watch"))),
        Scenario("source-fails", mixed, budget={"order": 2, "sched": 1}, total=n, params=dict(mixes=[(), ("forever",), ("slow",), ("return",), ("raise",)], initial=(a,), programs=few, bad_source=True, gate=True)),
    ]


ASSUMPTIONS = ["runnables and reconciles end when they are cancelled, perhaps after half a second", "the manager is started once; everything is added to it before that"]
