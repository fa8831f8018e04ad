"""C05: has_synced of both queue types over every operation sequence."""
import asyncio

from aiok8s.cache import delta_fifo, fifo, store
from mc.explore import Scenario


class Obj:
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return "%s#%d" % (self.key, self.n)


def key_func(o):
    return o.key


async def seq(env, kind, depth, ops, known, first=None):
    delta = kind == "delta"
    st = None
    if delta:
        if known is not None:
            st = store.new_store(key_func)
            for k in known:
                await st.add(Obj(k, 0))
        q = delta_fifo.DeltaFIFO(key_func, known_objects=st)
    else:
        q = fifo.FIFO(key_func)
    history = []
    initial = set()  # keys of the initial relist not handed out yet
    state = None  # None: no change yet; "plain": first change was no relist; "relist"
    was_synced = False
    n = 0

    async def pop(mode):
        handed = []

        def sync_cb(item):
            handed.append(item[-1].object.key if delta else item.key)
            if mode == "requeue":
                raise fifo.RequeueError
            if mode == "fail":
                raise ValueError

        async def async_cb(item):
            sync_cb(item)

        t = asyncio.ensure_future(q.pop(async_cb if delta else sync_cb))
        await env.quiesce()
        if not t.done():
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        else:
            t.exception()
        return handed[0] if handed else None

    def observe(where, drained=False):
        nonlocal was_synced
        s = bool(q.has_synced())
        env.log(s)
        if state is None:
            env.check(not s, "%s: synced before the first change", where)
        if initial:
            env.check(not s, "%s: synced although %r of the initial list was not handed out yet", where, sorted(initial))
        if was_synced:
            env.check(s, "%s: no longer synced", where)
        if state == "plain":
            env.check(s, "%s: not synced although the first change was not a relist", where)
        if state == "empty":
            env.check(s, "%s: not synced although the initial list was empty", where)
        if drained and state is not None:
            env.check(s, "%s: not synced although a consumer has drained the queue", where)
        was_synced = s

    observe("initially")
    steps = ([first] if first else []) + [env.pick("op%d" % i, ops) for i in range(depth)]
    for op in steps:
        n += 1
        history.append(op)
        env.log(op)
        where = "%s after %r (stored %r)" % (kind, history, known)
        drained = False
        if op[0] in ("add", "update"):
            o = Obj(op[1], n)
            await (q.add(o) if op[0] == "add" else q.update(o))
            state = state or "plain"
        elif op[0] == "addif":
            o = Obj(op[1], n)
            await q.add_if_not_present(delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.ADDED, o)]) if delta else o)
            state = state or "plain"
        elif op[0] == "delete":
            if state is None:
                return  # whether deleting an absent key is a change is left open
            await q.delete(Obj(op[1], n))
            if not delta:
                initial.discard(op[1])
        elif op[0] == "replace":
            objs = [Obj(k, n * 10 + i) for i, k in enumerate(op[1])]
            await q.replace(objs, str(n))
            if state is None:
                initial = set(q.list_keys())
                state = "relist" if initial else "empty"
            elif not delta:
                initial = set()
        elif op[0] == "resync":
            if state is None and known:
                return  # whether resynced items are a change is left open
            await q.resync()
        elif op[0] == "pop":
            k = await pop(op[1])
            if k is None:
                drained = True
            else:
                initial.discard(k)
        observe(where, drained)
    for _ in range(12):
        k = await pop("ok")
        if k is None:
            break
        initial.discard(k)
        observe("%s after %r and some pops" % (kind, history))
    else:
        env.fail("%s after %r: the queue does not drain" % (kind, history))
    observe("%s after %r and draining (stored %r)" % (kind, history, known), drained=True)


def scenarios(tier):
    t = tier == "thorough"
    A, B = "a", "b"
    ops = [("pop", "ok"), ("update", A), ("add", A), ("add", B), ("addif", "c"), ("delete", A), ("delete", B), ("pop", "requeue"), ("pop", "fail"), ("resync",),
           ("replace", ()), ("replace", (A,)), ("replace", (B, A)), ("replace", (A, B, A)), ("replace", ("c",))]
    after = [("pop", "ok"), ("add", A), ("add", "c"), ("delete", A), ("delete", B), ("pop", "requeue"), ("replace", ("c", A)), ("replace", ())]
    if t:
        after += [("pop", "fail"), ("resync",)]
    out = []
    for kind, known in (("fifo", None), ("delta", None), ("delta", ()), ("delta", (A,)), ("delta", (A, "c"))):
        nm = kind + ("" if known is None else "/stored-%s" % "".join(known))
        out.append(Scenario("any/" + nm, seq, params=dict(kind=kind, depth=5 if t else 4, ops=ops, known=known)))
        for f in ((B, A), (A, B, A), (A, "c", B)):
            out.append(Scenario("relist-%s/%s" % ("".join(f), nm), seq, params=dict(kind=kind, depth=6 if t else 4, ops=after, known=known, first=("replace", f))))
    return out


ASSUMPTIONS = ["an item of the initial relist that was deleted from, or replaced away in, the plain FIFO is no longer waiting",
               "deletions that an initial relist queues for stored keys count as items of the initial relist"]
