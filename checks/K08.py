"""K08: kinds and controllers do not disturb each other."""
import asyncio

from checks import apid, kubed
from mc.explore import Scenario

P, C = "Pod", "ConfigMap"


class Rec(kubed.Reconciler):
    """Records the versions that the objects of several kinds have in the cache."""

    def __init__(self, env, cache, kinds, **kw):
        super().__init__(env, cache, **kw)
        self.kinds = kinds
        self.runs = []

    async def reconcile(self, request):
        env = self.env
        nn = request.namespaced_name
        key = "%s/%s" % (nn.namespace, nn.name) if nn.namespace else nn.name
        env.check(not self.active.get(key), "%s is reconciled twice at the same time", key)
        run = [key, env.rel(), {}, None]
        self.runs.append(run)
        self.active[key] = True
        try:
            if self.guard:
                self.guard(self, key)
            for k in self.kinds:
                try:
                    o = await self.cache.get(nn, kubed.KINDS[k][0])
                    env.check(isinstance(o, kubed.KINDS[k][0]), "a read of a %s returned a %s", k, type(o))
                    run[2][k] = o.metadata.resource_version
                except KeyError:
                    run[2][k] = None
            if self.gate and not env.frozen:
                await env.gate("reconcile %s of %s" % (key, "+".join(self.kinds)))
            return kubed.reconcile.Result()
        finally:
            self.active[key] = False
            run[3] = env.rel()

    def show(self):
        return "; ".join("%s at %.3f saw %r" % (k, a, v) for k, a, v, _ in self.runs)


class Only:
    """A predicate: changes of objects with some names."""

    def __init__(self, names):
        self.names = names

    def create(self, e):
        return e.meta.name in self.names

    def update(self, e):
        return e.meta_new.name in self.names

    def delete(self, e):
        return e.meta.name in self.names


async def kinds(env, layouts, prepared, programs, troubles=(None,), victims=(C,), faults=(), gate=False, predicates=(None,), bound=8):
    """layouts: the kinds that each controller watches."""
    if not kubed.second_kind():
        env.log("no second kind can be registered")
        return
    layout = env.pick("layout", layouts)
    # names that the controllers' watches let through; two of the watches of a kind may have different ones
    preds = env.pick("predicates", predicates)
    used = sorted({k for ks in layout for k in ks})
    svs = {k: kubed.Server(env, kind=k, name=k + " ", list_faults=("raise",) if "list" in faults else (), watch_faults=("raise",) if "watch" in faults else (), stream_faults=("raise",) if "stream" in faults else ()) for k in used}
    for k, sv in svs.items():
        sv.rv = 100 if k == C else 10  # versions tell the kinds apart
        sv.change("set", "n1/a")
    if C in svs:
        svs[C].change("set", "n1/c")
    mgr = kubed.new_manager()
    cache = mgr.get_cache()
    recs = []

    def guard(r, key):
        for k in r.kinds:
            env.check(svs[k].lists, "a controller of %s reconciles before %s was listed", r.kinds, k)

    for ks in layout:
        r = Rec(env, cache, ks, gate=gate)
        r.guard = guard
        recs.append(r)
        if len(ks) == 1 and prepared and preds is None:
            await kubed.builder.build_controller(mgr, r, api_type=kubed.KINDS[ks[0]][0])
            continue
        c = kubed._controller.new(mgr, reconciler=r)
        for k in ks:
            if prepared:
                await cache.get_informer(kubed.KINDS[k][0])
            for p in preds or (None,):
                await c.watch(kubed.source.Kind(kubed.KINDS[k][0]), kubed.handler.EnqueueRequestForObject(), *([Only(p)] if p else []))
    t = asyncio.ensure_future(mgr.start())
    await env.quiesce()
    for p in (0.4, 2.4):
        await asyncio.sleep(p)
        await env.quiesce()
    env.check(not t.done(), "the manager ended: %r", t)
    trouble = env.pick("trouble", troubles)
    victim = env.pick("of", [v for v in victims if v in svs]) if trouble else None
    if trouble:
        sv = svs[victim]
        if trouble == "hangs":
            sv.hold = 300
        elif trouble == "fails":
            sv.list = failing(sv)
        for s in sv.streams:  # whatever is open breaks
            s.ended = True
            s.wake()
        await env.quiesce()
        await asyncio.sleep(1.5)
        await env.quiesce()
    prog = env.pick("changes", programs)

    def passes(key):
        return preds is None or any(key.split("/")[-1] in p for p in preds)

    def judge():
        env.check(not t.done(), "the manager ended: %r", t)
        for r in recs:
            keys = {k: {n for _, _, ns in svs[k].lists for n in ns} | {kubed.key_of(e[2]) for e in svs[k].events if e[0] == "event"} for k in r.kinds}
            last = {}
            for run in r.runs:
                last[run[0]] = run[2]
            every = set().union(*keys.values())
            extra = {x for x in last if x not in every or not passes(x)}
            env.check(not extra, "a controller of %s reconciled %r; %s", r.kinds, extra, r.show)
            for k in r.kinds:
                if k == victim:
                    continue
                for n in sorted(keys[k]):
                    if not passes(n):
                        continue
                    o = svs[k].objects.get(n)
                    v = o.metadata.resource_version if o is not None else None
                    env.check(n in last, "%s was not reconciled by the controller of %s; %s; the client saw %r", n, r.kinds, r.show, svs[k].seen)
                    env.check(last[n][k] == v, "the last reconcile of %s by the controller of %s saw version %s of the %s instead of %s; %s", n, r.kinds, last[n][k], k, v, r.show)
        for k, sv in svs.items():
            env.check(sv.max_open <= 1, "%d watches of %s", sv.max_open, k)
            if not faults and not trouble:
                env.check(len(sv.lists) == 1, "%s was listed %d times", k, len(sv.lists))

    if not faults:
        env.frozen = not gate
    for k, op, n in prog:
        if k not in svs:
            continue
        if not gate:
            before = env.rel()
        svs[k].change(op, n)
        if gate:
            continue
        await env.quiesce()
        if not faults:
            judge()  # without waiting for anything
            env.check(env.rel() - before < 0.01, "internal: time passed")
    await env.quiesce()
    env.frozen = True
    if faults:
        await asyncio.sleep(bound)
        await env.quiesce()
    await env.quiesce()
    judge()
    if trouble:
        # and once the trouble is over, the kind catches up
        sv = svs[victim]
        sv.hold = 0
        if trouble == "fails":
            del sv.list
        await asyncio.sleep(310 if trouble == "hangs" else bound)
        await env.quiesce()
        victim = None
        judge()
    env.log(layout, trouble, [r.show() for r in recs])
    t.cancel()
    await env.quiesce()
    env.check(t.done(), "the manager does not stop")
    for k, sv in svs.items():
        env.check(sv.open() == 0, "a watch of %s is left open", k)
    for r in recs:
        env.check(not any(r.active.values()), "a reconcile is left running")


async def newcomer(env, how, programs, users):
    """A kind comes into use whose list does not come: the other kind goes on."""
    if not kubed.second_kind():
        env.log("no second kind can be registered")
        return
    old, new = env.pick("old, new", ((P, C), (C, P)))
    svs = {k: kubed.Server(env, kind=k, name=k + " ") for k in (P, C)}
    svs[P].change("set", "n1/a")
    svs[C].rv = 100
    svs[C].change("set", "n1/b")
    mgr = kubed.new_manager()
    cache = mgr.get_cache()
    r = Rec(env, cache, (old,))
    r.guard = None
    await kubed.builder.build_controller(mgr, r, api_type=kubed.KINDS[old][0])
    t = asyncio.ensure_future(mgr.start())
    await env.quiesce()
    await asyncio.sleep(0.4)
    await env.quiesce()
    env.frozen = True
    sv = svs[new]
    if env.pick("how", how) == "hangs":
        sv.hold = 100
    else:
        sv.list = failing(sv)
    nn = kubed.reconcile.NamespacedName
    tasks = []
    user = env.pick("user", users)
    n = 1 + env.pick("readers", (0, 1))
    for _ in range(n):
        if user == "read":
            tasks.append(asyncio.ensure_future(cache.get(nn("n1", "b" if new == C else "a"), kubed.KINDS[new][0])))
        else:
            tasks.append(asyncio.ensure_future(cache.get_informer(kubed.KINDS[new][0])))
    await env.quiesce()
    for op in env.pick("changes", programs):
        svs[old].change(*op)
        await env.quiesce()
        o = svs[old].objects.get(op[1])
        v = o.metadata.resource_version if o is not None else None
        env.check(r.runs and r.runs[-1][0] == op[1] and r.runs[-1][2].get(old) == v and r.runs[-1][3] is not None, "%s %r led to no reconcile that sees it while the first list of %s is being waited for; %s", old, op, new, r.show)
        x = asyncio.ensure_future(cache.get(nn("n1", "x"), kubed.KINDS[old][0]))
        await env.quiesce()
        env.check(x.done() and isinstance(x.exception(), KeyError), "a read of %s waits for the first list of %s", old, new)
    env.check(not any(x.done() for x in tasks), "%s was read before it was listed: %r", new, tasks)
    if sv.hold:
        await asyncio.sleep(101)
    else:
        del sv.list
        await asyncio.sleep(5)
    await env.quiesce()
    for x in tasks:
        env.check(x.done(), "a first use of %s does not complete", new)
        if user == "read":
            env.check(kubed.key_of(x.result()) in sv.objects and isinstance(x.result(), kubed.KINDS[new][0]), "a read of %s returned %r", new, x.result())
        else:
            x.result()
    env.check(len(sv.lists) == 1 and sv.max_open == 1, "the users of %s have several informers; %r", new, sv.reqs)
    env.log(r.show())
    t.cancel()
    await env.quiesce()
    env.check(t.done() and not sv.open() and not svs[old].open(), "the manager does not stop completely")


async def newcomers(env, how, users):
    """Both kinds come into use after the start, and the list of one does not come: the other is read all the same."""
    if not kubed.second_kind():
        env.log("no second kind can be registered")
        return
    good, bad = env.pick("good, bad", ((P, C), (C, P)))
    svs = {k: kubed.Server(env, kind=k, name=k + " ") for k in (P, C)}
    svs[P].change("set", "n1/a")
    svs[C].rv = 100
    svs[C].change("set", "n1/a")
    cache = kubed.new_manager().get_cache()
    t = asyncio.ensure_future(cache.start())
    await env.quiesce()
    env.frozen = True
    sv = svs[bad]
    if env.pick("how", how) == "hangs":
        sv.hold = 100
    else:
        sv.list = failing(sv)
    nn = kubed.reconcile.NamespacedName

    def use(k):
        if env.pick("user of %s" % k, users) == "read":
            return asyncio.ensure_future(cache.get(nn("n1", "a"), kubed.KINDS[k][0]))
        return asyncio.ensure_future(cache.get_informer(kubed.KINDS[k][0]))

    first = env.pick("first", (good, bad))
    a = use(first)
    if env.pick("settle", (True, False)):
        await env.quiesce()
    b = use(bad if first == good else good)
    x, y = (a, b) if first == good else (b, a)
    await env.quiesce()
    await asyncio.sleep(0.3)
    await env.quiesce()
    env.check(x.done() and not x.exception(), "the first use of %s waits for the first list of %s", good, bad)
    env.check(not y.done(), "%s was used before it was listed: %r", bad, y)
    z = asyncio.ensure_future(cache.get(nn("n1", "a"), kubed.KINDS[good][0]))
    await env.quiesce()
    env.check(z.done() and not z.exception(), "a read of %s waits for the first list of %s", good, bad)
    if sv.hold:
        await asyncio.sleep(101)
    else:
        del sv.list
        await asyncio.sleep(5)
    await env.quiesce()
    env.check(y.done() and not y.exception(), "a first use of %s does not complete: %r", bad, y)
    env.log(good, first)
    t.cancel()
    await env.quiesce()
    env.check(t.done() and not any(s.open() for s in svs.values()), "the cache does not stop completely")


def failing(sv):
    async def list_(options=None):
        sv.events.append(("fail", "list"))
        raise apid.ApiError("down")

    return list_


def scenarios(tier):
    t = tier == "thorough"
    a, b = "n1/a", "n2/a"
    progs = [
        ((P, "set", a), (C, "set", a), (P, "del", a), (C, "set", b)),
        ((C, "del", a), (P, "set", b), (C, "set", a), (P, "replace", a)),
        ((P, "set", "a"), (C, "set", "a"), (C, "del", "a"), (P, "set", "a")),
    ]
    separate = [((P,), (C,))]
    layouts = separate + [((P, C),), ((P,), (P, C)), ((C, P), (C,), (P,))]
    n = 3 if t else 2
    return [
        Scenario("kinds", kinds, params=dict(layouts=layouts, prepared=True, programs=progs, troubles=(None, "hangs", "fails", "ends"), victims=(P, C))),
        Scenario("unprepared", kinds, budget={"order": 2, "sched": 1}, total=n, params=dict(layouts=layouts, prepared=False, programs=progs[:2], troubles=(None, "fails"), victims=(P, C))),
        Scenario("faults", kinds, budget={"fault": n}, params=dict(layouts=layouts[:2], prepared=True, programs=progs, faults=("list", "watch", "stream"))),
        Scenario("faults-unprepared", kinds, budget={"fault": n}, params=dict(layouts=layouts[2:], prepared=False, programs=progs[:1], faults=("list", "watch", "stream"))),
        Scenario("slow-reconciles", kinds, budget={"order": 2, "sched": 1}, total=n, params=dict(layouts=layouts, prepared=True, programs=progs[:2], gate=True)),
        Scenario("newcomer", newcomer, params=dict(how=("hangs", "fails"), programs=[(("set", "n1/a"), ("del", "n1/a")), (("set", "n2/b"), ("set", "n1/x2"))], users=("read", "informer"))),
        Scenario("newcomers", newcomers, params=dict(how=("hangs", "fails"), users=("read", "informer"))),
        Scenario("several-watches", kinds, params=dict(layouts=[((P,),), ((P, C),), ((P,), (P,))], prepared=True, programs=progs, predicates=((("a",), ("c",)), (("a", "c"), ("a",)), (("c",),), (None, ("a",))[1:]))),
    ]


ASSUMPTIONS = ["a client for a second kind can be registered next to the one for pods (otherwise nothing is explored)"]
