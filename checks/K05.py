"""K05: events become requests for the right object, filtered by all predicates."""
import asyncio

from aiok8s.cache import delta_fifo
from aiok8s.controller import event, handler, source
from aiok8s.workqueue import rate_limiting_queue
from checks import apid, kubed
from mc.explore import Scenario

DFSU = delta_fifo.DeletedFinalStateUnknown


def upod(name, rv):
    ns, _, n = name.rpartition("/")
    m = dict(name=n, uid="u", resourceVersion=str(rv))
    if ns:
        m["namespace"] = ns
    return dict(apiVersion="v1", kind="Pod", metadata=m)


class NoMeta:
    pass


MALFORMED = ("None", "number", "string", "no metadata", "metadata is None", "empty dict", "dict with metadata None", "list")


def malformed(what):
    return {
        "None": None,
        "number": 5,
        "string": "n1/a",
        "no metadata": NoMeta(),
        "metadata is None": kubed.V1Pod(),
        "empty dict": {},
        "dict with metadata None": dict(metadata=None),
        "list": [],
    }[what]


class Predicate:
    def __init__(self, env, name, verdict, seen):
        self.env = env
        self.name = name
        self.verdict = verdict
        self.seen = seen

    def create(self, e):
        self.seen.append((self.name, "create", e.object))
        self.env.check(e.meta.name == name_of(e.object), "a predicate was given the metadata of another object")
        return self.verdict

    def update(self, e):
        self.seen.append((self.name, "update", e.object_old, e.object_new))
        self.env.check(e.meta_old.name == name_of(e.object_old) and e.meta_new.name == name_of(e.object_new), "a predicate was given the metadata of another object")
        return self.verdict

    def delete(self, e):
        self.seen.append((self.name, "delete", e.object))
        self.env.check(e.meta.name == name_of(e.object), "a predicate was given the metadata of another object")
        return self.verdict

    def generic(self, e):
        return self.verdict


def name_of(o):
    return o["metadata"]["name"] if isinstance(o, dict) else o.metadata.name


def req(key):
    ns, _, n = key.rpartition("/")
    return (ns or None, n)


async def drain(env, q):
    out = []
    while len(q):
        item, shutdown = await q.get()
        out.append((item.namespaced_name.namespace or None, item.namespaced_name.name))
        await q.done(item)
    return out


async def translate(env, npred, depth, keys, bad=MALFORMED):
    """Sequences of notifications; after each the queue has exactly the requests that it calls for."""
    q = rate_limiting_queue.new()
    verdicts = [env.pick("predicate %d" % i, (True, False)) for i in range(env.pick("predicates", npred))]
    seen = []
    h = source.EventHandler(handler.EnqueueRequestForObject(), q, tuple(Predicate(env, i, v, seen) for i, v in enumerate(verdicts)))
    desc = []
    for step in range(depth):
        kind = env.pick("kind", ("add", "update", "delete", "tombstone"))
        forms = ("typed", "untyped", "malformed")

        def obj(what):
            form = env.pick("%s form" % what, forms)
            if form == "malformed":
                b = env.pick("malformed", bad)
                return None, malformed(b), b
            key = env.pick("%s key" % what, keys)
            o = (kubed.pod if form == "typed" else upod)(key, 5)
            return key, o, "%s %s" % (form, key)

        del seen[:]
        key, o, d = obj("object")
        wanted, real = [], []
        good = key is not None
        if kind == "update":
            key2, o2, d2 = obj("new object")
            good = good and key2 is not None
            desc.append("update %s to %s" % (d, d2))
            wanted = [req(key), req(key2)] if good else []
            call = h.on_update(o, o2)
            see = ("update", o, o2)
        elif kind == "add":
            desc.append("add %s" % d)
            wanted = [req(key)] if good else []
            call = h.on_add(o)
            see = ("create", o)
        else:
            desc.append("%s %s" % (kind, d))
            wanted = [req(key)] if good else []
            call = h.on_delete(o if kind == "delete" else DFSU(key or "n1/gone", o))
            see = ("delete", o)
        if not all(verdicts):
            wanted = []
        try:
            await call
        except Exception as e:
            env.fail("%s, predicates %r: the notification failed with %r" % (desc, verdicts, e))
        got = await drain(env, q)
        exp = sorted(set(wanted), key=repr)
        env.check(sorted(got, key=repr) == exp, "%s, predicates %r: enqueued %r instead of %r", desc, verdicts, got, exp)
        for s in seen:
            env.check(good, "%s: a predicate was asked about an object without metadata", desc)
            env.check(s[1] == see[0] and all(a is b for a, b in zip(s[2:], see[1:])), "%s: a predicate was given %r", desc, s)
        if good and all(verdicts):
            env.check([s[0] for s in seen] == list(range(len(verdicts))), "%s: predicates asked: %r of %d", desc, [s[0] for s in seen], len(verdicts))
    env.log(desc, verdicts)
    await q.shut_down()
    await asyncio.sleep(20)


async def same_request(env, keys):
    """All notifications of one object enqueue the same request."""
    key = env.pick("key", keys)
    form = env.pick("form", ("typed", "untyped"))
    o = (kubed.pod if form == "typed" else upod)(key, 5)
    q = rate_limiting_queue.new()
    h = source.EventHandler(handler.EnqueueRequestForObject(), q, ())
    got = []
    for what, call in (("add", lambda: h.on_add(o)), ("update", lambda: h.on_update(o, o)), ("delete", lambda: h.on_delete(o)), ("tombstone", lambda: h.on_delete(DFSU(key, o)))):
        await call()
        env.check(len(q) == 1, "%s of %s %s enqueued %d requests", what, form, key, len(q))
        item, _ = await q.get()
        await q.done(item)
        got.append((what, item))
        env.check(item == got[0][1] and hash(item) == hash(got[0][1]), "the notifications of %s %s enqueued different requests: %r", form, key, got)
    env.log(form, key)
    await q.shut_down()
    await asyncio.sleep(20)


async def no_meta(env):
    """The request handler itself ignores events without metadata."""
    q = rate_limiting_queue.new()
    h = handler.EnqueueRequestForObject()
    a, b = kubed.pod("n1/a", 1), kubed.pod("n1/b", 1)
    kind = env.pick("kind", ("create", "delete", "update old", "update new", "update both"))
    if kind == "create":
        await h.create(event.CreateEvent(None, a), q)
        wanted = []
    elif kind == "delete":
        await h.delete(event.DeleteEvent(None, a), q)
        wanted = []
    else:
        old = None if kind in ("update old", "update both") else a.metadata
        new = None if kind in ("update new", "update both") else b.metadata
        await h.update(event.UpdateEvent(old, a, new, b), q)
        wanted = [(m.namespace, m.name) for m in (old, new) if m is not None]
    got = await drain(env, q)
    env.check(got == wanted, "%s without metadata: enqueued %r instead of %r", kind, got, wanted)
    await q.shut_down()
    await asyncio.sleep(20)


async def through_a_manager(env, npred, programs, faults):
    """Predicates given to a watch decide which changes are reconciled."""
    sv = kubed.Server(env, stream_faults=faults, gate_requests=False)
    sv.change("set", "n1/a")
    sv.change("set", "n2/a")
    mgr = kubed.new_manager()
    rec = kubed.Reconciler(env, mgr.get_cache())
    await mgr.get_cache().get_informer(kubed.V1Pod)
    c = kubed._controller.new(mgr, reconciler=rec)
    n = env.pick("predicates", npred)
    deny = [env.pick("predicate %d denies" % i, ("nothing", "create", "update", "delete")) for i in range(n)]
    asked = []

    class P:
        def __init__(self, i):
            self.i = i

        def create(self, e):
            asked.append(("create", e.object))
            return deny[self.i] != "create"

        def update(self, e):
            asked.append(("update", e.object_new))
            return deny[self.i] != "update"

        def delete(self, e):
            asked.append(("delete", e.object))
            return deny[self.i] != "delete"

    await c.watch(kubed.source.Kind(kubed.V1Pod), kubed.handler.EnqueueRequestForObject(), *[P(i) for i in range(n)])
    t = asyncio.ensure_future(mgr.start())
    await asyncio.sleep(0.35)
    await env.quiesce()
    first = sorted(r[0] for r in rec.runs)
    env.check(first == ([] if "create" in deny else ["n1/a", "n2/a"]), "predicates deny %r: reconciled at the start: %r", deny, first)
    for op, key in env.pick("changes", programs):
        k = len(rec.runs)
        had = key in sv.objects
        what = "delete" if op == "del" else "update" if had else "create"
        sv.change(op, key)
        await env.quiesce()
        await asyncio.sleep(3)
        await env.quiesce()
        got = [r[0] for r in rec.runs[k:]]
        lost = any(e[0] in ("raise", "end") for e in sv.events)
        env.check(got == ([] if what in deny else [key]), "predicates deny %r: %s of %s led to reconciles of %r; seen %r", deny, what, key, got, sv.seen)
    env.check(all(isinstance(o, kubed.V1Pod) for _, o in asked), "predicates were asked about %r", [type(o) for _, o in asked])
    env.log(deny, rec.show())
    t.cancel()
    await asyncio.gather(t, return_exceptions=True)


def scenarios(tier):
    t = tier == "thorough"
    keys = ("n1/a", "n2/b", "a")
    h = apid.histories(("n1/a", "n2/a"), ("set", "del"), 2)
    return [
        Scenario("one", translate, params=dict(npred=(0, 1, 2, 3), depth=1, keys=keys)),
        Scenario("two", translate, params=dict(npred=(0, 1) if not t else (0, 1, 2), depth=2, keys=keys[:2] if not t else keys, bad=MALFORMED[:1] + MALFORMED[3:5] if not t else MALFORMED)),
        Scenario("same-request", same_request, params=dict(keys=keys)),
        Scenario("no-metadata", no_meta),
        Scenario("manager", through_a_manager, budget={"fault": 1}, params=dict(npred=(0, 1, 2) if not t else (0, 1, 2, 3), programs=h, faults=("raise",))),
    ]


ASSUMPTIONS = ["objects with metadata have a name"]
