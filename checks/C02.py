"""C02: every operation sequence on the plain FIFO against a reference model."""
import asyncio

from aiok8s.cache import fifo, store
from mc.explore import Scenario


class Obj:
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return "%s#%d" % (self.key, self.n)


class Odd(Obj):
    """A false object that is equal to every other."""

    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True


def key_func(o):
    return o.key


async def do_pop(env, q, process):
    """Pops; returns ('item', x) / ('error', e) / ('closed',) / ('wait',)."""
    t = asyncio.ensure_future(q.pop(process))
    await env.quiesce()
    if not t.done():
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        return ("wait",)
    e = t.exception()
    if e is None:
        return ("item", t.result())
    if isinstance(e, fifo.FIFOClosedError):
        return ("closed",)
    return ("error", e)


async def seq(env, depth, ops, keys, Obj=Obj):
    q = fifo.FIFO(key_func)
    items = {}  # waiting key -> object
    order = []  # keys in order of starting to wait, meaningful while nothing was ever deleted
    deleted = False
    closed = False
    n = 0

    def wait_for(k):
        if k not in items:
            order.append(k)

    steps = [env.pick("op%d" % i, ops) for i in range(depth)]
    steps += [("pop", "ok")] * (len(keys) + 1)
    for op in steps:
        n += 1
        env.log(op)
        where = "after %r" % (env.trace,)
        if op[0] in ("add", "update"):
            o = Obj(op[1], n)
            await (q.add(o) if op[0] == "add" else q.update(o))
            wait_for(op[1])
            items[op[1]] = o
        elif op[0] == "addif":
            o = Obj(op[1], n)
            await q.add_if_not_present(o)
            wait_for(op[1])
            items.setdefault(op[1], o)
        elif op[0] == "delete":
            o = Obj(op[1], n)
            await q.delete(o)
            if op[1] in items:
                deleted = True
                del items[op[1]]
                order.remove(op[1])
        elif op[0] == "replace":
            objs = [Obj(k, n * 10 + i) for i, k in enumerate(op[1])]
            await q.replace(objs, str(n))
            items = {o.key: o for o in objs}
            order = list(items)
            deleted = False  # a replacement starts from a fresh order
        elif op[0] == "resync":
            await q.resync()
        elif op[0] == "close":
            await q.close()
            closed = True
            env.check(q.is_closed(), "%s: not closed", where)
        elif op[0] == "bad":
            x = object()

            async def get():
                return q.get(x)

            for what, call in (("add", lambda: q.add(x)), ("update", lambda: q.update(x)), ("delete", lambda: q.delete(x)), ("add_if_not_present", lambda: q.add_if_not_present(x)),
                               ("get", get), ("replace", lambda: q.replace([Obj("z", n), x], "1"))):
                try:
                    await call()
                except store.StoreKeyError:
                    pass
                else:
                    env.fail("%s: %s accepted an object without a key" % (where, what))
        elif op[0] == "pop":
            calls = []
            cause = ValueError("cause")

            def process(item):
                calls.append(item)
                if op[1] == "requeue":
                    raise fifo.RequeueError
                if op[1] == "requeue-cause":
                    raise fifo.RequeueError from cause
                if op[1] == "fail":
                    raise cause

            r = await do_pop(env, q, process)
            if not items:
                want = ("closed",) if closed else ("wait",)
                env.check(r == want and not calls, "%s: pop of an empty queue gave %r, processed %r; expected %r", where, r, calls, want)
            else:
                env.check(len(calls) == 1, "%s: pop processed %r (result %r), waiting were %r", where, calls, r, items)
                it = calls[0]
                env.check(it.key in items, "%s: pop handed out %r, waiting were %r", where, it, items)
                env.check(items[it.key] is it, "%s: pop handed out %r, the newest object is %r", where, it, items[it.key])
                if not deleted:
                    env.check(it.key == order[0], "%s: pop handed out %r, waiting in order %r", where, it, order)
                del items[it.key]
                order.remove(it.key)
                if op[1] in ("fail", "requeue-cause"):
                    env.check(r[0] == "error" and isinstance(r[1], fifo.ProcessError) and r[1].item is it, "%s: pop with a failing callback gave %r", where, r)
                    env.check(r[1].__cause__ is cause, "%s: the failure %r lost its cause", where, r[1])
                else:
                    env.check(r[0] == "item" and r[1] is it, "%s: pop gave %r", where, r)
                if op[1].startswith("requeue"):
                    wait_for(it.key)
                    items[it.key] = it
        env.check(set(q.list_keys()) == set(items) and len(q.list_keys()) == len(items), "%s: list_keys = %r, expected %r", where, q.list_keys(), list(items))
        env.check(sorted(map(id, q.list())) == sorted(map(id, items.values())), "%s: list = %r, expected %r", where, q.list(), items)
        for k in keys:
            env.check(q.get_by_key(k) is items.get(k), "%s: get_by_key(%s) = %r, expected %r", where, k, q.get_by_key(k), items.get(k))
            env.check(q.get(Obj(k, 0)) is items.get(k), "%s: get(%s)", where, k)


async def waiting(env, depth, ops):
    """A pop that waits while several operations take effect before it can run."""
    q = fifo.FIFO(key_func)
    calls = []
    t = asyncio.ensure_future(q.pop(calls.append))
    await env.quiesce()
    env.check(not t.done(), "a pop of an empty queue ended: %r", t)
    given = []
    closed = False
    for i in range(depth):
        op = env.pick("op%d" % i, ops)
        env.log(op)
        if op[0] == "add":
            given.append(Obj(op[1], i))
            await q.add(given[-1])
        elif op[0] == "addif":
            given.append(Obj(op[1], i))
            await q.add_if_not_present(given[-1])
        elif op[0] == "delete":
            await q.delete(Obj(op[1], i))
        elif op[0] == "replace":
            objs = [Obj(k, i) for k in op[1]]
            given += objs
            await q.replace(objs, "1")
        else:
            closed = True
            await q.close()
    await env.quiesce()
    left = q.list_keys()
    if not t.done():
        env.check(not left and not closed, "after %r: the pop still waits, queued are %r", env.trace, left)
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
    elif t.exception() is None:
        env.check(len(calls) == 1 and calls[0] is t.result() and any(o is calls[0] for o in given), "after %r: the pop gave %r, processed %r", env.trace, t.result(), calls)
    else:
        env.check(isinstance(t.exception(), fifo.FIFOClosedError) and closed and not left and not calls,
                  "after %r: the pop ended with %r although %r is queued", env.trace, t.exception(), left)
    while True:
        left = q.list_keys()
        r = await do_pop(env, q, lambda o: None)
        if not left:
            env.eq(r, ("closed",) if closed else ("wait",), "after %r: pop of a drained queue" % (env.trace,))
            return
        env.check(r[0] == "item", "after %r: pop gave %r, queued are %r", env.trace, r, left)


def scenarios(tier):
    t = tier == "thorough"
    A, B = "a", "b"
    pops = [("pop", x) for x in ("ok", "requeue", "requeue-cause", "fail")]
    core = [("add", A), ("add", B), ("pop", "ok")]
    full = (
        core + [("update", A), ("addif", A), ("addif", B), ("delete", A), ("delete", B)] + pops[1:]
        + [("replace", ()), ("replace", (A,)), ("replace", (B, A)), ("replace", (A, B, A)), ("resync",), ("close",), ("bad",)]
    )
    return [
        Scenario("all-ops", seq, params=dict(depth=5 if t else 4, ops=full, keys=[A, B])),
        Scenario("odd-objects", seq, params=dict(depth=4, ops=core + [("addif", A), ("delete", A), ("pop", "requeue"), ("pop", "fail"), ("replace", (B, A)), ("resync",)], keys=[A, B], Obj=Odd)),
        Scenario("waiting", waiting, params=dict(depth=6 if t else 4, ops=[("add", A), ("add", B), ("addif", B), ("delete", A), ("replace", (B,)), ("replace", ()), ("close",)])),
        Scenario("no-delete", seq, params=dict(depth=7 if t else 6, ops=core + [("addif", A), ("pop", "requeue"), ("resync",), ("replace", (B, A))], keys=[A, B])),
        Scenario("deletes", seq, params=dict(depth=6 if t else 5, ops=core + [("delete", A), ("delete", B), ("pop", "requeue"), ("replace", (B, A))], keys=[A, B])),
        Scenario("order-deep", seq, params=dict(depth=8 if t else 6, ops=core + [("resync",)], keys=[A, B])),
        Scenario("three-keys", seq, params=dict(depth=6 if t else 5, ops=core + [("add", "c"), ("addif", "c"), ("replace", ("c", A))], keys=[A, B, "c"])),
    ]


ASSUMPTIONS = ["callbacks of the plain FIFO are synchronous and do not call the queue"]
