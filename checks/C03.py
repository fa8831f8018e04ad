"""C03: every operation sequence on the delta queue, against a list-of-changes model."""
import asyncio

from aiok8s.cache import delta_fifo, fifo, store
from mc.explore import Scenario

D = delta_fifo.DeltaType


class Obj:
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return "%s#%d" % (self.key, self.n)


class Odd(Obj):
    """A false object that is equal to every other."""

    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True


class Tomb:
    """A tombstone as the queue is expected to make it."""

    def __init__(self, key, obj):
        self.key, self.obj = key, obj

    def __repr__(self):
        return "tombstone(%s, %r)" % (self.key, self.obj)


def key_func(o):
    return o.key


def store_key(o):
    return o.key


def is_it(o, w):
    if isinstance(w, Tomb):
        return isinstance(o, delta_fifo.DeletedFinalStateUnknown) and o.key == w.key and o.obj is w.obj
    return o is w


def same(deltas, want):
    return len(deltas) == len(want) and all(d.type is w[0] and is_it(d.object, w[1]) for d, w in zip(deltas, want))


def tomb(o):
    return isinstance(o, (delta_fifo.DeletedFinalStateUnknown, Tomb))


def real(o):
    return o.obj if tomb(o) else o


async def do_pop(env, q, process):
    t = asyncio.ensure_future(q.pop(process))
    await env.quiesce()
    if not t.done():
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        return ("wait",)
    e = t.exception()
    if e is None:
        return ("item", t.result())
    if isinstance(e, fifo.FIFOClosedError):
        return ("closed",)
    return ("error", e)


async def seq(env, depth, ops, known, Obj=Obj):
    st = None
    stored = {}
    if known is not None:
        st = store.new_store(store_key)
        for k in known:
            o = Obj(k, 0)
            await st.add(o)
            stored[k] = o
    q = delta_fifo.DeltaFIFO(key_func, known_objects=st)
    pend = {}  # key -> list of (type, obj), in order of starting to wait
    handed = {}  # key -> last Deltas handed out
    frozen = []  # (what a read returned, what it contained)
    closed = False
    n = 0

    def record(k, typ, obj):
        pend.setdefault(k, []).append((typ, obj))

    def record_delete(k, obj):
        """Appends; returns the allowed alternatives for the last element when two deletions meet."""
        l = pend.setdefault(k, [])
        if l and l[-1][0] is D.DELETED:
            prev = l[-1][1]
            if tomb(prev) == tomb(obj):
                return [prev, obj]
            l[-1] = (D.DELETED, prev if tomb(obj) else obj)
        else:
            l.append((D.DELETED, obj))
        return None

    steps = [env.pick("op%d" % i, ops) for i in range(depth)] + [("pop", "ok")] * 3
    for op in steps:
        n += 1
        env.log(op)
        where = "after %r (store %r)" % (env.trace, stored)
        if op[0] == "add":
            o = Obj(op[1], n)
            await q.add(o)
            record(op[1], D.ADDED, o)
        elif op[0] == "update":
            o = Obj(op[1], n)
            await q.update(o)
            record(op[1], D.UPDATED, o)
        elif op[0] in ("delete", "deltomb"):
            k = op[1]
            o = Obj(k, n) if op[0] == "delete" else delta_fifo.DeletedFinalStateUnknown(k, Obj(k, n))
            ignored = k not in pend and k not in stored
            await q.delete(o)
            if not ignored:
                alt = record_delete(k, o)
                if alt is not None:
                    got = q.get_by_key(k)
                    env.check(got and any(is_it(got[-1].object, a) for a in alt), "%s: the collapsed deletion of %s carries %r", where, k, got)
                    pend[k][-1] = (D.DELETED, got[-1].object)
        elif op[0] == "replace":
            objs = [Obj(k, n * 10 + i) for i, k in enumerate(op[1])]
            was = dict(pend)
            await q.replace(objs, str(n))
            for o in objs:
                record(o.key, D.SYNC, o)
            for k in [k for k in was if k not in op[1]] + [k for k in stored if k not in op[1] and k not in was]:
                o = Tomb(k, real(was[k][-1][1]) if k in was else stored[k])
                alt = record_delete(k, o)
                if alt is not None:
                    got = q.get_by_key(k)
                    env.check(got and any(is_it(got[-1].object, a) for a in alt), "%s: the collapsed deletion of %s carries %r", where, k, got)
                    pend[k][-1] = (D.DELETED, got[-1].object)
        elif op[0] == "resync":
            await q.resync()
            for k, o in stored.items():
                if k not in pend:
                    record(k, D.SYNC, o)
        elif op[0] == "readd":
            k = op[1]
            if k in handed:
                await q.add_if_not_present(handed[k][0])
                if k not in pend:
                    pend[k] = list(handed[k][1])
        elif op[0] == "addif-bad":
            try:
                await q.add_if_not_present(Obj("a", n))
            except TypeError:
                pass
            else:
                env.fail("%s: re-adding something that is not a list of changes was accepted" % where)
        elif op[0] == "store":  # the consumer's store changes on its own (the queue only reads it)
            if st is None:
                continue
            if op[1] in stored:
                await st.delete(stored.pop(op[1]))
            else:
                o = Obj(op[1], n)
                await st.add(o)
                stored[op[1]] = o
        elif op[0] == "close":
            await q.close()
            closed = True
        elif op[0] == "pop":
            calls = []
            cause = ValueError("cause")

            async def process(item):
                calls.append(item)
                if op[1] == "requeue":
                    raise fifo.RequeueError
                if op[1] == "requeue-cause":
                    raise fifo.RequeueError from cause
                if op[1] == "fail":
                    raise cause

            r = await do_pop(env, q, process)
            if not pend:
                want = ("closed",) if closed else ("wait",)
                env.check(r == want and not calls, "%s: pop of an empty queue gave %r, processed %r; expected %r", where, r, calls, want)
            else:
                env.check(len(calls) == 1, "%s: pop processed %r (result %r), pending %r", where, calls, r, pend)
                k = next(iter(pend))
                want = pend.pop(k)
                it = calls[0]
                env.check(same(it, want), "%s: pop handed out %r, expected the changes %r of %s", where, it, want, k)
                handed[k] = (it, want)
                frozen.append((it, list(it), "handed out"))
                if op[1] in ("fail", "requeue-cause"):
                    env.check(r[0] == "error" and isinstance(r[1], fifo.ProcessError) and same(r[1].item, want), "%s: pop with a failing callback gave %r", where, r)
                    env.check(r[1].__cause__ is cause, "%s: the failure %r lost its cause", where, r[1])
                else:
                    env.check(r[0] == "item" and same(r[1], want), "%s: pop gave %r, expected %r", where, r, want)
                if op[1].startswith("requeue"):
                    pend[k] = want
        env.check(set(q.list_keys()) == set(pend) and len(q.list_keys()) == len(pend), "%s: list_keys = %r, expected %r", where, q.list_keys(), list(pend))
        l = q.list()
        last = [v[-1][1] for v in pend.values()]
        env.check(len(l) == len(last) and all(any(is_it(o, w) for o in l) for w in last), "%s: list = %r, pending %r", where, l, pend)
        for k in ("a", "b"):
            g = q.get_by_key(k)
            env.check(same(g or [], pend.get(k, [])), "%s: get_by_key(%s) = %r, expected %r", where, k, g, pend.get(k))
            g2 = q.get(Obj(k, 0))
            env.check(same(g2 or [], pend.get(k, [])), "%s: get(%s) = %r, expected %r", where, k, g2, pend.get(k))
            if g:
                frozen.append((g, list(g), "read"))
                frozen.append((g2, list(g2), "read"))
        frozen.append((l, list(l), "listed"))
        for got, was, what in frozen:
            env.check(len(got) == len(was) and all(x is y for x, y in zip(got, was)), "%s: what was %s before changed from %r to %r", where, what, was, got)


def scenarios(tier):
    t = tier == "thorough"
    A, B = "a", "b"
    p = [("pop", x) for x in ("ok", "requeue", "requeue-cause", "fail")]
    one = [("add", A), ("update", A), ("delete", A), ("deltomb", A), ("pop", "ok"), ("pop", "requeue"), ("readd", A)]
    two = [("add", A), ("update", B), ("delete", A), ("delete", B), ("pop", "ok"), ("readd", A)]
    every = one + [("add", B), ("update", B), ("delete", B), ("readd", B), ("pop", "fail"), ("pop", "requeue-cause"), ("store", A), ("close",), ("addif-bad",)]
    out = []
    for name, known in (("no-store", None), ("empty-store", ()), ("stored-a", (A,))):
        out.append(Scenario("all-ops/" + name, seq, params=dict(depth=5 if t else 4, ops=every, known=known)))
        relist = [("add", A), ("update", A), ("delete", A), ("replace", ()), ("replace", (A,)), ("replace", (B, A)), ("pop", "ok"), ("pop", "requeue"), ("store", A), ("resync",)]
        out.append(Scenario("relists/" + name, seq, params=dict(depth=5 if t else 4, ops=relist, known=known)))
        odd = [("add", A), ("update", A), ("delete", A), ("deltomb", A), ("replace", (A,)), ("replace", ()), ("pop", "ok"), ("pop", "requeue"), ("readd", A), ("store", A), ("resync",)]
        out.append(Scenario("odd-objects/" + name, seq, params=dict(depth=4 if t else 3, ops=odd, known=known, Obj=Odd)))
        out.append(Scenario("one-key/" + name, seq, params=dict(depth=7 if t else 5, ops=one, known=known)))
        out.append(Scenario("two-keys/" + name, seq, params=dict(depth=7 if t else 5, ops=two, known=known)))
    return out


ASSUMPTIONS = ["when two deletions that both carry real objects (or both carry tombstones) meet, either may be kept"]
