"""C06: interleavings of producers and consumers on one queue; histories must be linearizable and nobody waits in vain."""
import asyncio

from aiok8s.cache import delta_fifo, fifo
from mc.explore import Scenario
from mc.lin import History


class Obj:
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return "%s%d" % (self.key, self.n)


def key_func(o):
    return o.key


T = {delta_fifo.DeltaType.ADDED: "A", delta_fifo.DeltaType.UPDATED: "U", delta_fifo.DeltaType.DELETED: "D", delta_fifo.DeltaType.SYNC: "S"}


def show(d):
    o = d.object
    if isinstance(o, delta_fifo.DeletedFinalStateUnknown):
        o = ("tomb", o.key)
    return T[d.type] + repr(o)


# ---- specifications: state = (order of waiting keys, ((key, content), ...), closed)


def _get(items, k):
    for kk, v in items:
        if kk == k:
            return v
    return None


def _set(items, k, v):
    return tuple(sorted([(kk, x) for kk, x in items if kk != k] + ([(k, v)] if v is not None else [])))


def fifo_spec(st, name, args):
    order, items, closed = st
    if name in ("add", "addif"):
        o = args[0]
        cur = _get(items, o[0])
        if cur is not None:
            return [((order, items if name == "addif" else _set(items, o[0], o), closed), None)]
        return [((order + (o[0],), _set(items, o[0], o), closed), None)]
    if name == "delete":
        k = args[0][0]
        return [((tuple(x for x in order if x != k), _set(items, k, None), closed), None)]
    if name == "replace":
        new = {}
        for o in args[0]:
            new[o[0]] = o
        return [((tuple(new), tuple(sorted(new.items())), closed), None)]
    if name == "close":
        return [((order, items, True), None)]
    if name == "pop":
        if not order:
            return [(st, "closed")] if closed else []
        k = order[0]
        v = _get(items, k)
        rest = (order[1:], _set(items, k, None), closed)
        out = [(rest, ("ok", v)), (rest, ("fail", v))]
        out.append(((rest[0] + (k,), _set(rest[1], k, v), closed), ("requeue", v)))
        return out
    raise AssertionError(name)


def delta_spec(st, name, args):
    order, items, closed = st
    if name in ("add", "update"):
        o = args[0]
        cur = _get(items, o[0])
        new = (cur or ()) + (("A" if name == "add" else "U") + o,)
        return [((order if cur else order + (o[0],), _set(items, o[0], new), closed), None)]
    if name == "delete":
        o = args[0]
        cur = _get(items, o[0])
        if not cur:
            return [(st, None)]
        if cur[-1][0] == "D":
            return [(st, None), ((order, _set(items, o[0], cur[:-1] + ("D" + o,)), closed), None)]
        return [((order, _set(items, o[0], cur + ("D" + o,)), closed), None)]
    if name == "replace":
        keys = []
        for o in args[0]:
            cur = _get(items, o[0])
            keys.append(o[0])
            if not cur:
                order = order + (o[0],)
            items = _set(items, o[0], (cur or ()) + ("S" + o,))
        for k in order:
            cur = _get(items, k)
            if k not in keys:
                if cur[-1][0] == "D":
                    continue
                items = _set(items, k, cur + ("D" + repr(("tomb", k)),))
        return [((order, items, closed), None)]
    if name == "addif":
        o = args[0]
        if _get(items, o[0]):
            return [(st, None)]
        return [((order + (o[0],), _set(items, o[0], ("A" + o,)), closed), None)]
    return fifo_spec(st, name, args)


async def race(env, kind, programs, consumers, cancels=0, hold=False, closer=False, retry=False):
    delta = kind == "delta"
    q = delta_fifo.DeltaFIFO(key_func) if delta else fifo.FIFO(key_func)
    h = History(env)
    progs = env.pick("program", programs)
    if progs.get("initial"):
        for k in progs["initial"]:
            o = h.call("add", repr(Obj(k, 0)))
            await q.add(Obj(k, 0))
            h.ret(o)
    in_callback = []
    n = [0]

    async def producer(i, ops):
        for op in ops:
            await env.gate("p%d.%s" % (i, "-".join(map(str, op))))
            n[0] += 1
            if op[0] in ("add", "update", "delete"):
                x = Obj(op[1], n[0])
                o = h.call(op[0] if (delta or op[0] != "update") else "add", repr(x))
                await getattr(q, op[0])(x)
            elif op[0] == "addif":
                x = Obj(op[1], n[0])
                o = h.call("addif", repr(x))
                await q.add_if_not_present(delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.ADDED, x)]) if delta else x)
            elif op[0] == "replace":
                xs = [Obj(k, n[0] * 10 + j) for j, k in enumerate(op[1])]
                o = h.call("replace", tuple(map(repr, xs)))
                await q.replace(xs, "1")
            elif op[0] == "close":
                o = h.call("close")
                await q.close()
            h.ret(o)

    async def consumer(i, outcomes, hist):
        for mode in outcomes:
            await env.gate("c%d.pop" % i)
            o = h.call("pop")
            hist[0] = o
            res = ["none"]

            def snapshot():
                return {k: list(map(show, q.get_by_key(k))) for k in q.list_keys()} if delta else None

            def finish(item):
                v = tuple(map(show, item)) if delta else repr(item)
                res[0] = (mode, v)
                if mode == "requeue":
                    raise fifo.RequeueError
                if mode == "fail":
                    raise ValueError("x")

            async def cb(item):
                hist[1] = True
                in_callback.append(i)
                env.check(len(in_callback) == 1, "two items are processed at the same time by %r", in_callback)
                s = snapshot()
                if hold:
                    await env.gate("c%d.process" % i)
                    env.check(snapshot() == s, "the queue changed from %r to %r while %r was being processed", s, snapshot(), item)
                in_callback.remove(i)
                finish(item)

            try:
                item = await q.pop(cb if delta else finish)
                env.check(mode != "fail", "a pop with a failing callback succeeded")
                v = tuple(map(show, item)) if delta else repr(item)
                env.check(v == res[0][1], "pop returned %r but processed %r", v, res[0])
                h.ret(o, res[0])
            except fifo.FIFOClosedError:
                h.ret(o, "closed")
            except fifo.ProcessError as e:
                env.check(mode == "fail", "pop failed with %r", e)
                v = tuple(map(show, e.item)) if delta else repr(e.item)
                env.check(v == res[0][1], "the failed pop reports %r but processed %r", v, res[0])
                h.ret(o, res[0])
            except asyncio.CancelledError:
                h.drop(o)
                raise
            hist[0] = None
            hist[1] = False

    tasks = []
    for i, ops in enumerate(progs["producers"]):
        tasks.append(asyncio.ensure_future(producer(i, ops)))
    for i in range(consumers):
        hist = [None, False]
        t = asyncio.ensure_future(consumer(i, progs.get("consumer%d" % i, progs.get("consumer", ("ok",))), hist))
        tasks.append(t)
        if i < cancels:

            def cancel(t=t, hist=hist):
                if hist[0] is not None and hist[0]["ret"] is None and not hist[1]:
                    t.cancel()

            env.action("cancel c%d" % i, cancel, optional=True, early="cancel", order="cancel")
    await env.quiesce()
    env.frozen = True
    for t in tasks:
        if t.done() and not t.cancelled() and t.exception() is not None:
            raise t.exception()
    for i, t in enumerate(tasks[: len(progs["producers"])]):
        env.check(t.done(), "producer %d is left waiting; history %r", i, h.show())

    def match(want, got):
        if isinstance(want, tuple) and isinstance(got, tuple) and got[0] == "none":
            return False
        return want == got

    h.judge(((), (), False), delta_spec if delta else fifo_spec, match=match)


def scenarios(tier):
    t = tier == "thorough"
    A, B = "a", "b"
    add_a, add_b, del_a, upd_a = ("add", A), ("add", B), ("delete", A), ("update", A)
    basic = [
        dict(producers=[(add_a, add_b)], consumer=("ok", "ok")),
        dict(producers=[(add_a,), (add_b,)], consumer=("ok",)),
        dict(producers=[(add_a,), (upd_a, del_a)], consumer=("ok",)),
        dict(producers=[(add_a, ("replace", (B,)))], consumer=("ok",)),
        dict(producers=[(("replace", (A, B)),), (("delete", B),)], consumer=("ok",)),
        dict(producers=[(("addif", A), ("addif", B))], consumer=("ok",)),
        dict(producers=[(("addif", A),), (upd_a,)], consumer=("ok",)),
        dict(producers=[(add_a, add_b)], consumer0=("requeue", "ok"), consumer1=("ok",)),
        dict(producers=[(add_a, add_b)], consumer0=("fail", "ok"), consumer1=("ok",)),
    ]
    closing = [
        dict(producers=[(add_a, ("close",))], consumer=("ok", "ok")),
        dict(producers=[(add_a,), (("close",),)], consumer=("ok",)),
        dict(producers=[(("close",),)], consumer=("ok",), initial=(A,)),
    ]
    cancelling = [
        dict(producers=[(add_a,)], consumer=("ok",)),
        dict(producers=[(add_a, add_b)], consumer=("ok",)),
        dict(producers=[(add_a, ("close",))], consumer=("ok",)),
    ]
    holding = [
        dict(producers=[(add_a, upd_a)], consumer=("ok", "ok")),
        dict(producers=[(add_b,), (upd_a,)], consumer=("ok",), initial=(A,)),
        dict(producers=[(("replace", (B,)),)], consumer0=("requeue",), consumer1=("ok",), initial=(A,)),
        dict(producers=[(del_a, add_b)], consumer0=("fail",), consumer1=("ok",), initial=(A,)),
    ]
    out = []
    for kind in ("fifo", "delta"):
        s = 3 if t else 2
        out.append(Scenario("two-consumers/" + kind, race, budget={"sched": s, "order": 8}, params=dict(kind=kind, programs=basic, consumers=2)))
        out.append(Scenario("close/" + kind, race, budget={"sched": s, "order": 8}, params=dict(kind=kind, programs=closing, consumers=2)))
        out.append(Scenario("cancel/" + kind, race, budget={"sched": s, "order": 5, "cancel": 1}, params=dict(kind=kind, programs=cancelling, consumers=2, cancels=2)))
        out.append(Scenario("three-consumers/" + kind, race, budget={"sched": 2 if t else 1, "order": 6 if t else 5}, params=dict(kind=kind, programs=basic[1:2] + closing[:1], consumers=3)))
    out.append(Scenario("slow-processing/delta", race, budget={"sched": 3 if t else 2, "order": 8}, params=dict(kind="delta", programs=holding, consumers=2, hold=True)))
    out.append(Scenario("cancel-slow/delta", race, budget={"sched": 1, "order": 6 if t else 4, "cancel": 1}, params=dict(kind="delta", programs=holding[:2], consumers=2, hold=True, cancels=2)))
    return out


ASSUMPTIONS = ["callbacks run in asyncio's documented FIFO order; environment events happen at event-loop iteration boundaries",
               "a consumer is cancelled only while its pop waits, not while it processes an item"]
