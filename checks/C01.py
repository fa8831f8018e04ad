"""C01: every operation sequence on an indexed store, against a dictionary."""
from aiok8s.cache import index, store
from mc.explore import Scenario

VALUES = ["x", "y", None]


class Obj:
    __slots__ = ("key", "i1", "i2", "n")

    def __init__(self, key, i1, i2, n):
        self.key, self.i1, self.i2, self.n = key, i1, i2, n

    def __repr__(self):
        return "<%s %r %r #%d>" % (self.key, self.i1, self.i2, self.n)


class Odd(Obj):
    """A false object that is equal to every other."""

    __slots__ = ()
    __hash__ = None

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True


def key_func(obj):
    return obj.key


def f1(obj):
    return list(obj.i1)


def f2(obj):
    return list(obj.i2)


async def verify(env, s, model, idx, queries, where):
    env.check(sorted(s.list_keys()) == sorted(model), "%s: list_keys %r, expected %r", where, s.list_keys(), sorted(model))
    got = s.list()
    env.check(len(got) == len(model) and all(any(g is m for g in got) for m in model.values()), "%s: list %r, expected %r", where, got, list(model.values()))
    for k in ("a", "b", "c"):
        g = s.get_by_key(k)
        env.check(g is model.get(k), "%s: get_by_key(%s) = %r, expected %r", where, k, g, model.get(k))
        g = s.get(Obj(k, [], [], 0))
        env.check(g is model.get(k), "%s: get(%s) = %r, expected %r", where, k, g, model.get(k))
    for name in ("one", "two"):
        fn = idx.get(name)
        if fn is None:
            for call in (s.index_keys(name, "x"), s.by_index(name, "x"), s.index(name, Obj("q", ["x"], ["x"], 0))):
                try:
                    r = await call
                except KeyError:
                    pass
                else:
                    env.fail("%s: query of unregistered index %s answered %r" % (where, name, r))
            continue
        carried = set()
        for m in model.values():
            carried.update(fn(m))
        vals = list(await s.list_index_func_values(name))
        env.check(len(vals) == len(set(vals)) and set(vals) == carried, "%s: values of index %s are %r, expected %r", where, name, vals, carried)
        for v in VALUES:
            want = sorted(k for k, m in model.items() if v in fn(m))
            ks = await s.index_keys(name, v)
            env.check(sorted(ks) == want, "%s: index_keys(%s, %r) = %r, expected %r", where, name, v, ks, want)
            objs = await s.by_index(name, v)
            env.check(len(objs) == len(want) and sorted(o.key for o in objs) == want and all(model[o.key] is o for o in objs),
                      "%s: by_index(%s, %r) = %r, expected keys %r", where, name, v, objs, want)
        for q in queries:
            o = Obj("q", q, q, 0)
            want = sorted(k for k, m in model.items() if set(fn(m)) & set(q))
            objs = await s.index(name, o)
            env.check(len(objs) == len(want) and sorted(x.key for x in objs) == want and all(model[x.key] is x for x in objs),
                      "%s: index(%s, %r) = %r, expected keys %r", where, name, q, objs, want)


QUERIES = [[], ["x"], ["y"], ["x", "y"], ["x", "x"], [None, "x"]]


async def seq(env, depth, keys, vals, replaces, late, Obj=Obj):
    idx = {} if late else {"one": f1, "two": f2}
    s = store.new_indexer(key_func, index.Indexers(idx)) if idx else (store.new_indexer(key_func, index.Indexers()))
    model = {}
    ops = [("add", k, v) for k in keys for v in vals] + [("delete", k) for k in keys] + [("replace", r) for r in replaces]
    ops += [("bad",)]
    if late:
        ops += [("idx", ("one",)), ("idx", ("two",)), ("idx", ("one", "two"))]
    n = 0
    for step in range(depth):
        op = env.pick("op%d" % step, ops)
        n += 1
        where = "after %r" % (env.trace + [op],)
        if op[0] == "add":
            o = Obj(op[1], op[2][0], op[2][1], n)
            # add and update are the same operation on a store; alternate between them
            await (s.add(o) if n % 2 else s.update(o))
            model[op[1]] = o
        elif op[0] == "delete":
            await s.delete(Obj(op[1], ["y"], ["x"], n))
            model.pop(op[1], None)
        elif op[0] == "replace":
            objs = [Obj(k, v[0], v[1], n * 10 + i) for i, (k, v) in enumerate(op[1])]
            await s.replace(objs, str(n))
            model = {o.key: o for o in objs}
        elif op[0] == "bad":
            for c in (s.add(object()), s.update(object()), s.delete(object()), s.replace([Obj("a", ["x"], [], 0), object()], "1")):
                try:
                    await c
                except store.StoreKeyError:
                    pass
                else:
                    env.fail("%s: an object without a key was accepted" % where)
            try:
                s.get(object())
            except store.StoreKeyError:
                pass
            else:
                env.fail("%s: get of an object without a key was accepted" % where)
        else:
            new = {k: {"one": f1, "two": f2}[k] for k in op[1]}
            ok = not model and not (set(new) & set(idx))
            try:
                await s.add_indexers(index.Indexers(new))
            except Exception as e:
                env.check(not ok, "%s: registering indexes was rejected with %r although the store is empty and the names are free", where, e)
            else:
                env.check(ok, "%s: registering indexes %r was accepted, contents %r, registered %r", where, list(new), model, list(idx))
                idx.update(new)
        env.log(op)
        env.check(set(s.get_indexers()) == set(idx), "%s: registered indexers are %r, expected %r", where, list(s.get_indexers()), list(idx))
        await verify(env, s, model, idx, QUERIES, where)


async def together(env, depth):
    """Two stores that were made with the same index functions have nothing else in common."""
    given = index.Indexers(one=f1) if env.pick("indexed", (True, False)) else index.Indexers()
    was = dict(given)
    st = [store.new_indexer(key_func, given) for _ in range(2)]
    models = [{}, {}]
    idx = [dict(given), dict(given)]
    for step in range(depth):
        op, i, *a = env.pick("op%d" % step, [(o, i, *a) for i in (0, 1) for o, *a in (("add", "a", ["x"]), ("add", "b", ["x", "y"]), ("add", "a", ["y"]), ("delete", "a"), ("replace",), ("idx",))])
        s, m = st[i], models[i]
        if op == "add":
            o = m[a[0]] = Obj(a[0], a[1], a[1], step)
            await s.add(o)
        elif op == "delete":
            m.pop("a", None)
            await s.delete(Obj("a", [], [], step))
        elif op == "replace":
            o = Obj("b", ["y"], ["x"], step)
            m.clear()
            m["b"] = o
            await s.replace([o], "1")
        else:
            try:
                await s.add_indexers(index.Indexers(two=f2))
            except Exception:
                env.check(m or "two" in idx[i], "after %r: registering an index with store %d was rejected", env.trace, i)
            else:
                env.check(not m and "two" not in idx[i], "after %r: registering an index with store %d was accepted", env.trace, i)
                idx[i]["two"] = f2
        env.log((op, i, *a))
        for j in (0, 1):
            await verify(env, st[j], models[j], idx[j], QUERIES[1:4], "store %d of two after %r" % (j, env.trace))
        env.check(given == was, "after %r the index functions that were given are %r", env.trace, list(given))


async def plain(env, depth):
    """new_store (no indexes) with namespaced metadata objects and the namespace index of new_indexer."""
    with_index = env.pick("indexed", [False, True])
    kf = store.meta_namespace_key_func
    s = store.new_indexer(kf, index.Indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func})) if with_index else store.new_store(kf)
    model = {}

    def mk(ns, name, n):
        return {"metadata": {"namespace": ns, "name": name, "uid": str(n), "resourceVersion": str(n)}}

    names = [("n1", "a"), ("n2", "a"), ("", "a"), ("n1", "b")]
    ops = [("add", x) for x in names] + [("del", x) for x in names] + [("replace", names[:2]), ("replace", [])]
    for step in range(depth):
        op = env.pick("op%d" % step, ops)
        if op[0] == "add":
            o = mk(*op[1], step)
            await (s.add(o) if step % 2 else s.update(o))
            model[op[1]] = o
        elif op[0] == "del":
            await s.delete(mk(*op[1], step))
            model.pop(op[1], None)
        else:
            objs = {x: mk(*x, step) for x in op[1]}
            await s.replace(list(objs.values()), "7")
            model = objs
        env.log(op)
        for ns, name in names:
            key = "%s/%s" % (ns, name) if ns else name
            env.check(s.get_by_key(key) is model.get((ns, name)), "%r: get_by_key(%s) = %r", env.trace, key, s.get_by_key(key))
        env.check(sorted(s.list_keys()) == sorted("%s/%s" % x if x[0] else x[1] for x in model), "%r: list_keys = %r", env.trace, s.list_keys())
        if with_index:
            for ns in ("n1", "n2", ""):
                want = sorted(("%s/%s" % x if x[0] else x[1]) for x in model if x[0] == ns)
                got = sorted(await s.index_keys(index.NAMESPACE_INDEX, ns))
                env.eq(got, want, "%r: keys in namespace %r" % (env.trace, ns))
        await s.resync()


def scenarios(tier):
    t = tier == "thorough"
    e = ([], [])
    x = (["x"], [])
    xx = (["x", "x"], ["y"])
    xy = (["x", "y"], ["x", "x"])
    nn = ([None], ["y"])
    yxx = (["y", "x", "y"], ["x"])
    reps = [[], [("a", x)], [("a", xx), ("b", xy)], [("a", x), ("a", xy)], [("b", xx)]]
    return [
        Scenario("sequences", seq, params=dict(depth=4 if t else 3, keys=["a", "b"], vals=[e, x, xx, xy, nn, yxx], replaces=reps, late=False)),
        Scenario("sequences-deep", seq, params=dict(depth=6 if t else 5, keys=["a", "b"], vals=[x, xx], replaces=[[("a", xy)]], late=False)),
        Scenario("odd-objects", seq, params=dict(depth=4 if t else 3, keys=["a", "b"], vals=[x, xy], replaces=[[("a", xy)]], late=False, Obj=Odd)),
        Scenario("three-keys", seq, params=dict(depth=5 if t else 4, keys=["a", "b", "c"], vals=[x, xy], replaces=[[("a", x), ("c", xy)]], late=False)),
        Scenario("late-indexes", seq, params=dict(depth=5 if t else 4, keys=["a"], vals=[xx, xy], replaces=[[], [("a", x)]], late=True)),
        Scenario("together", together, params=dict(depth=4 if t else 3)),
        Scenario("namespaces", plain, params=dict(depth=4 if t else 3)),
    ]


ASSUMPTIONS = ["index functions are pure and stored objects are not mutated by the caller"]
