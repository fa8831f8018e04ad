"""C04: every history of changes, pops, relists and resyncs; the consumer applies what it pops to the backing store."""
import asyncio

from aiok8s.cache import controller, delta_fifo, fifo, store
from mc.explore import Scenario

D = delta_fifo.DeltaType
DFSU = delta_fifo.DeletedFinalStateUnknown


class Obj:
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return "%s#%d" % (self.key, self.n)


def key_func(o):
    return o.key


class Consumer:
    def __init__(self, env, q, st):
        self.env, self.q, self.st = env, q, st
        self.applied = {}  # for the store-less mode
        self.tombs = []

    def current(self):
        if self.st is None:
            return dict(self.applied)
        return {k: self.st.get_by_key(k) for k in self.st.list_keys()}

    async def process(self, deltas):
        for d in deltas:
            if d.type is D.DELETED:
                k = d.object.key
                if isinstance(d.object, DFSU):
                    self.tombs.append(d.object)
                if self.st is None:
                    self.applied.pop(k, None)
                else:
                    await self.st.delete(d.object)
            elif self.st is None:
                self.applied[d.object.key] = d.object
            else:
                await self.st.update(d.object)

    async def pop(self):
        """True if something was handed out; None if the pop waits."""
        t = asyncio.ensure_future(self.q.pop(self.process))
        await self.env.quiesce()
        if not t.done():
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
            return None
        return t.result()


async def seq(env, depth, ops, initial, with_store, relists):
    st = store.new_store(key_func) if with_store else None
    q = delta_fifo.DeltaFIFO(key_func, known_objects=st)
    c = Consumer(env, q, st)
    for k in initial:
        o = Obj(k, 0)
        if st is None:
            c.applied[k] = o
        else:
            await st.add(o)
    n = 0
    steps = [env.pick("op%d" % i, ops) for i in range(depth)]
    steps.append(("replace", env.pick("relist", relists)))
    tail = env.pick("tail", [(), ("resync",), ("pop", "resync"), ("resync", "resync", "pop")])
    steps += [(x,) for x in tail]
    listed = None
    untouched = {}  # store-less mode: applied keys that no relist can know about
    expect_tombs = {}
    for i, op in enumerate(steps):
        n += 1
        env.log(op)
        where = "after %r (initially stored %r)" % (env.trace, initial)
        before = {k: q.get_by_key(k) for k in q.list_keys()}
        cur = c.current()
        if op[0] == "add":
            await q.add(Obj(op[1], n))
            listed = None
        elif op[0] == "update":
            await q.update(Obj(op[1], n))
            listed = None
        elif op[0] == "delete":
            await q.delete(Obj(op[1], n))
            listed = None
        elif op[0] == "pop":
            await c.pop()
        elif op[0] == "replace":
            objs = [Obj(k, n * 10 + j) for j, k in enumerate(op[1])]
            await q.replace(objs, str(n))
            listed = {o.key: o for o in objs}
            untouched = {} if with_store else {k: o for k, o in cur.items() if k not in before and k not in listed}
            known = set(before) | (set(cur) if with_store else set())
            for k in known - set(listed):
                cand = []
                if k in before:
                    for d in before[k]:
                        o = d.object
                        cand.append(o.obj if isinstance(o, DFSU) else o)
                if k in cur:
                    cand.append(cur[k])
                newest = before[k][-1].object if k in before else cur[k]
                newest = newest.obj if isinstance(newest, DFSU) else newest
                got = q.get_by_key(k)
                env.check(got and got[-1].type is D.DELETED, "%s: %s is not in the list, was known (pending %r, stored %r), and its deletion is not queued: %r", where, k, before.get(k), cur.get(k), got)
                o = got[-1].object
                if isinstance(o, DFSU):
                    env.check(o.key == k, "%s: tombstone %r for %s", where, o, k)
                    ok = o.obj is newest or (k in cur and o.obj is cur[k]) or (k in before and before[k][-1].type is D.DELETED and any(o.obj is x for x in cand))
                    env.check(ok and not isinstance(o.obj, DFSU), "%s: the tombstone of %s carries %r, its last known objects are %r", where, k, o.obj, cand)
                else:
                    env.check(any(o is x for x in cand), "%s: deletion of %s carries %r", where, k, o)
            for k in listed:
                got = q.get_by_key(k)
                env.check(got and got[-1].type is not D.DELETED and got[-1].object is listed[k], "%s: %s is listed as %r, queued is %r", where, k, listed[k], got)
        elif op[0] == "resync":
            await q.resync()
            for k in set(before) | set(cur) | set(q.list_keys()):
                got = q.get_by_key(k)
                if k in before:
                    env.check(list(got or ()) == list(before[k]), "%s: the resync changed the pending changes of %s from %r to %r", where, k, before[k], got)
                elif with_store and k in cur:
                    env.check(got and len(got) == 1 and got[0].type is not D.DELETED and got[0].object is cur[k], "%s: the resync queued %r for stored %r", where, got, cur[k])
                else:
                    env.check(not got, "%s: the resync queued %r for %s, which is not stored", where, got, k)
    # drain
    for _ in range(12):
        if await c.pop() is None:
            break
    else:
        env.fail("%r: the queue does not drain: %r" % (env.trace, q.list_keys()))
    want = dict(untouched)
    want.update(listed)
    got = c.current()
    env.check(set(got) == set(want) and all(got[k] is want[k] for k in want),
              "after %r and applying everything the store holds %r, the list was %r (initially stored %r)", env.trace, got, want, initial)


def scenarios(tier):
    t = tier == "thorough"
    A, B = "a", "b"
    ops = [("pop",), ("add", A), ("update", A), ("delete", A), ("add", B), ("delete", B), ("resync",), ("replace", ()), ("replace", (A,)), ("replace", (B,))]
    ops1 = [("pop",), ("add", A), ("update", A), ("delete", A), ("replace", ()), ("replace", (A,)), ("resync",)]
    ops3 = [("pop",), ("add", A), ("delete", B), ("add", "c"), ("replace", (A, "c"))]
    rel = [(), (A,), (B,), (A, B), (A, A)]
    out = []
    for init in ((), (A,), (A, B)):
        out.append(Scenario("store/%s" % "".join(init), seq, params=dict(depth=4 if t else 3, ops=ops, initial=init, with_store=True, relists=rel)))
    out.append(Scenario("store/one-key", seq, params=dict(depth=5 if t else 4, ops=ops1, initial=(A,), with_store=True, relists=[(), (A,)])))
    out.append(Scenario("store/three-keys", seq, params=dict(depth=5 if t else 3, ops=ops3, initial=(B,), with_store=True, relists=[(), (A,), (B, "c"), (A, B, "c")])))
    out.append(Scenario("no-store", seq, params=dict(depth=4 if t else 3, ops=ops, initial=(), with_store=False, relists=rel)))
    out.append(Scenario("no-store/one-key", seq, params=dict(depth=5 if t else 4, ops=ops1, initial=(), with_store=False, relists=[(), (A,)])))
    return out


ASSUMPTIONS = [
    "without a backing store a relist cannot know about keys that were handed out before and have nothing pending",
    "any object that is pending or stored for a key when the relist arrives counts as a last known object",
]
