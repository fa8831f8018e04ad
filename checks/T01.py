"""T01: the fake controller source behaves like an API server."""
import asyncio

from aiok8s.cache.testing import fake_controller_source as fcs
from aiok8s.watch import watch
from kubernetes_asyncio.client.models import V1ObjectMeta, V1Pod
from mc.explore import Scenario, load_known

KNOWN = {f.get("history") for f in load_known() if f.get("property") == "T01"}  # exactly these histories may go wrong, in exactly this way
TYPES = {"add": watch.EventType.ADDED, "modify": watch.EventType.MODIFIED, "delete": watch.EventType.DELETED}


def pod(key, n):
    ns, name = key
    return V1Pod(metadata=V1ObjectMeta(namespace=ns, name=name, uid="u-%s-%s" % key, labels={"n": str(n)}))


def show_obj(o):
    m = o.metadata
    return (m.namespace, m.name, m.resource_version, m.labels["n"])


class Reader:
    def __init__(self, since, due):
        self.since = since
        self.due = list(due)  # events that it is to be given
        self.old = len(self.due)
        self.got = []
        self.ended = False
        self.stopped = False
        self.w = None
        self.task = None

    async def read(self, env, slow):
        try:
            async for e in self.w:
                self.got.append((e["type"], show_obj(e["object"])))
                if len(self.got) <= self.old:  # a replayed event is the reader's own copy
                    e["object"].metadata.labels = {"n": "spoilt"}
                    e["object"].metadata.resource_version = "999"
                if slow == "gate" and not env.frozen:
                    await env.gate("reader")
        finally:
            self.ended = True


async def seq(env, depth, keys, ops, slow=None, sensible=True):
    src = fcs.FakeControllerSource()
    state, log, readers, tried = {}, [], [], []
    n = 0

    def check_list(l):
        env.check(l.metadata.resource_version == str(len(log)), "after %r: the list is of version %r instead of %d", tried, l.metadata.resource_version, len(log))
        got = sorted((show_obj(o) for o in l.items), key=repr)
        want = sorted(state.values(), key=repr)
        env.check(got == want, "after %r: the list has %r instead of %r", tried, got, want)
        for o in l.items:  # what a caller does to its list is not seen by others
            o.metadata.labels = {"n": "spoilt"}
            o.metadata.resource_version = "999"

    for i in range(depth):
        c = [(o, k) for o in ops for k in keys if not sensible or (o.split("-")[0] == "add") == (k not in state)] + ["list"]
        c += [("watch", v) for v in range(max(0, len(log) - 2), len(log) + 2)] if len(readers) < 2 else []
        c += ["stop"] if any(not r.stopped for r in readers) else []
        op = env.pick("op%d" % i, c)
        tried.append(op)
        if op == "list":
            check_list(await src.list({}))
        elif op == "stop":
            r = next(r for r in readers if not r.stopped)
            r.stopped = True
            await r.w.stop()
            await env.quiesce()
            env.check(r.ended, "after %r: a stopped watch does not end", tried)
        elif op[0] == "watch":
            v = op[1]
            try:
                w = await src.watch({"resource_version": str(v)})
            except Exception:
                env.check(v > len(log), "after %r: the watch was refused", tried)
                continue
            env.check(v <= len(log), "after %r: a watch of a version in the future", tried)
            r = Reader(v, [(t, o) for t, o, _ in log[v:]])
            r.w = w
            r.task = asyncio.ensure_future(r.read(env, slow))
            readers.append(r)
        else:
            o, key = op
            kind, _, drop = o.partition("-")
            n += 1
            p = pod(key, n)
            told = not drop
            try:
                await getattr(src, kind + ("_drop_watch" if drop else ""))(p)
            except KeyError:
                if kind != "delete" or key in state:
                    raise
                if (await src.list({})).metadata.resource_version == str(len(log)):
                    continue  # refused: nothing happened
                if "delete-absent" not in KNOWN:
                    raise
                told = False  # the known finding: logged, but the watches that are open are not told
            so = (key[0], key[1], str(len(log) + 1), str(n))
            log.append((TYPES[kind], so, bool(drop)))
            if kind == "delete":
                state.pop(key, None)
            else:
                state[key] = so
            if told:
                for r in readers:
                    if not r.stopped:
                        r.due.append((TYPES[kind], so))
        if slow != "gate" or env.pick("settle%d" % i, (True, False)):
            await env.quiesce()
            for r in readers:
                if r.stopped:
                    env.check(r.got == r.due[: len(r.got)], "after %r: a watch since %d got %r instead of %r", tried, r.since, r.got, r.due)
                else:
                    env.check(r.got == r.due, "after %r: a watch since %d got %r instead of %r", tried, r.since, r.got, r.due)
    check_list(await src.list({}))
    t = asyncio.ensure_future(src.shutdown())
    await env.quiesce()
    env.check(t.done(), "after %r: the shutdown does not complete", tried)
    for r in readers:
        env.check(r.ended, "after %r: a watch does not end at the shutdown", tried)
        env.check(r.got == r.due[: len(r.got)] and (r.stopped or slow == "gate" or len(r.got) == len(r.due)), "after %r: a watch since %d got %r instead of %r", tried, r.since, r.got, r.due)
    env.log(tried, [r.got for r in readers])


async def long(env, lengths):
    """Watches that have a lot to catch up with."""
    src = fcs.FakeControllerSource()
    n = env.pick("changes", lengths)
    key = ("n1", "a")
    for i in range(n):
        await (src.modify if i else src.add)(pod(key, i))
    v = env.pick("since", (0, 1, 2, n // 2, n - 1, n))
    r = Reader(v, [(TYPES["modify" if i else "add"], key + (str(i + 1), str(i))) for i in range(v, n)])
    r.w = await src.watch({"resource_version": str(v)})
    early = env.pick("reads at once", (True, False))
    if early:
        r.task = asyncio.ensure_future(r.read(env, None))
    more = []
    for i in range(n, n + env.pick("more", (0, 2))):
        more.append(asyncio.ensure_future(src.modify(pod(key, i))))
        await env.quiesce()
        r.due.append((TYPES["modify"], key + (str(i + 1), str(i))))
    if not early:
        r.task = asyncio.ensure_future(r.read(env, None))
    await env.quiesce()
    env.check(all(t.done() for t in more), "a change does not complete")
    env.check(r.got == r.due, "a watch since %d of %d got %d events instead of %d, from %r to %r", v, n, len(r.got), len(r.due), r.got[:1], r.got[-1:])
    t = asyncio.ensure_future(src.shutdown())
    await env.quiesce()
    env.check(t.done() and r.ended, "the shutdown does not complete")
    env.log(n, v)


async def concurrent(env, programs):
    """Changes, lists and watches from several tasks: every list is a version, every watch continues it."""
    src = fcs.FakeControllerSource()
    prog = env.pick("program", programs)
    n = [0]
    seen = []

    async def change(ops):
        for o, key in ops:
            await env.gate("change %s" % o)
            n[0] += 1
            await getattr(src, o)(pod(key, n[0]))

    async def client(i):
        await env.gate("list%d" % i)
        l = await src.list({})
        view = {(o.metadata.namespace, o.metadata.name): show_obj(o) for o in l.items}
        vs = [l.metadata.resource_version]
        seen.append((view, vs))
        await env.gate("watch%d" % i)
        w = await src.watch({"resource_version": vs[0]})
        async for e in w:
            so = show_obj(e["object"])
            vs.append(so[2])
            if e["type"] == "DELETED":
                view.pop(so[:2], None)
            else:
                view[so[:2]] = so

    ts = [asyncio.ensure_future(change(ops)) for ops in prog] + [asyncio.ensure_future(client(i)) for i in range(2)]
    await env.quiesce()
    env.check(all(t.done() for t in ts[: len(prog)]), "a change does not complete")
    env.frozen = True
    l = await src.list({})
    want = {(o.metadata.namespace, o.metadata.name): show_obj(o) for o in l.items}
    env.check(len(seen) == 2, "a list does not complete")
    for view, vs in seen:
        env.check([int(v) for v in vs] == list(range(int(vs[0]), n[0] + 1)), "a client saw the versions %r of %d", vs, n[0])
        env.check(view == want, "a client has %r and the source %r", view, want)
    env.log([vs for _, vs in seen])
    await src.shutdown()
    await env.quiesce()
    env.check(all(t.done() for t in ts), "a watch does not end at the shutdown")


def scenarios(tier):
    t = tier == "thorough"
    a, b, c = ("n1", "a"), ("n2", "a"), (None, "a")
    every = ["add", "modify", "delete", "add-drop", "modify-drop", "delete-drop"]
    plain = every[:3]
    progs = [[[("add", a), ("modify", a), ("delete", a)]], [[("add", a), ("add", b)], [("add", c)]], [[("add", a), ("delete", a), ("add", a)]]]
    return [
        Scenario("sequences", seq, params=dict(depth=5 if t else 4, keys=(a, b), ops=every)),
        Scenario("deep", seq, params=dict(depth=6 if t else 5, keys=(a,), ops=every)),
        Scenario("any-change", seq, params=dict(depth=5 if t else 4, keys=(a,) if not t else (a, b), ops=plain, sensible=False)),
        Scenario("names", seq, params=dict(depth=4 if t else 3, keys=(a, b, c, ("n1", "b")), ops=plain)),
        Scenario("slow-readers", seq, budget={"order": 1, "sched": 1}, total=1 if not t else 2, params=dict(depth=5 if t else 4, keys=(a,), ops=plain, slow="gate")),
        Scenario("long", long, params=dict(lengths=(99, 100, 101, 250))),
        Scenario("concurrent", concurrent, budget={"order": 3, "sched": 2}, total=3 if not t else 5, params=dict(programs=progs)),
    ]


ASSUMPTIONS = ["every change is given an object of its own", "watchers do not fall behind for ever"]
