"""K06: keys and kinds are read the same way from typed and untyped objects."""
from kubernetes_asyncio.client import V1ConfigMap, V1Deployment, V1ListMeta, V1Node, V1ObjectMeta, V1Pod, V1PodList

from aiok8s.api import meta
from aiok8s.cache import controller, delta_fifo, fifo, index, store
from mc.explore import Scenario

DFSU = delta_fifo.DeletedFinalStateUnknown
MISSING = "(missing)"


class Plain:
    """A typed object of a user, without the generated classes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def typed(cls, fields, av="v1", kind="Pod"):
    f = {k: (None if v == MISSING else v) for k, v in fields.items()}
    m = dict(namespace=f["namespace"], name=f["name"], uid=f["uid"], resource_version=f["resourceVersion"])
    if cls is Plain:
        return Plain(metadata=Plain(**m), api_version=av, kind=kind)
    return cls(api_version=av, kind=kind, metadata=V1ObjectMeta(**m))


def untyped(fields, av="v1", kind="Pod"):
    return dict(apiVersion=av, kind=kind, metadata={k: v for k, v in fields.items() if v != MISSING})


KINDS = (("v1", "Pod", ("", "v1", "Pod")), ("apps/v1", "Deployment", ("apps", "v1", "Deployment")), ("example.com/v1beta1", "Foo", ("example.com", "v1beta1", "Foo")))


def norm(v):
    return v or None


async def grid(env, classes, names):
    """All metadata combinations in all forms: same key, same accessor values, settable version."""
    ns = env.pick("namespace", ("n1", "n-2", "", None, MISSING))
    name = env.pick("name", names)
    uid = env.pick("uid", ("u1", "", None, MISSING))
    rv = env.pick("version", ("7", "", None, MISSING))
    av, kind, gvk = env.pick("kind", KINDS)
    fields = dict(namespace=ns, name=name, uid=uid, resourceVersion=rv)
    want = "%s/%s" % (ns, name) if ns not in ("", None, MISSING) else name
    forms = [("untyped", untyped(fields, av, kind))] + [(c.__name__, typed(c, fields, av, kind)) for c in classes]
    for form, o in forms:
        d = "%s with %r" % (form, fields)
        for fn in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func, delta_fifo.DeltaFIFO(store.meta_namespace_key_func).key_of):
            env.eq(fn(o), want, "key of %s" % d)
        for inner in (o, None, forms[0][1]):
            t = DFSU("some/key", inner)
            env.eq(controller.deletion_handling_meta_namespace_key_func(t), "some/key", "key of a tombstone of %s" % d)
            env.eq(delta_fifo.DeltaFIFO(store.meta_namespace_key_func).key_of(t), "some/key", "delta queue key of a tombstone of %s" % d)
        ds = delta_fifo.Deltas([delta_fifo.Delta("Added", forms[-1][1]), delta_fifo.Delta("Updated", o)])
        env.eq(delta_fifo.DeltaFIFO(store.meta_namespace_key_func).key_of(ds), want, "key of deltas of %s" % d)
        a = meta.accessor(o)
        env.check((norm(a.namespace), a.name, norm(a.uid), norm(a.resource_version)) == tuple(None if v == MISSING else norm(v) for v in (ns, name, uid, rv)),
                  "accessor of %s reads %r", d, (a.namespace, a.name, a.uid, a.resource_version))
        env.check([norm(v) for v in index.meta_namespace_index_func(o)] == [None if ns == MISSING else norm(ns)], "namespace index of %s: %r", d, index.meta_namespace_index_func(o))
        g = meta.type_accessor(o)
        env.check((g.api_version, g.kind) == (av, kind), "type accessor of %s %s reads %r", av, kind, (g.api_version, g.kind))
        k = g.group_version_kind
        env.check((k.group, k.version, k.kind) == gvk, "group, version and kind of %s %s of form %s: %r", av, kind, form, k)
        # writing the version is seen by every later read, and changes nothing else
        a.resource_version = "99"
        b = meta.accessor(o)
        env.check(a.resource_version == b.resource_version == "99", "%s: version after setting it: %r, %r", d, a.resource_version, b.resource_version)
        raw = o["metadata"].get("resourceVersion") if isinstance(o, dict) else o.metadata.resource_version
        env.eq(raw, "99", "%s: version in the object" % d)
        env.check((norm(b.namespace), b.name, norm(b.uid)) == tuple(None if v == MISSING else norm(v) for v in (ns, name, uid)), "%s: setting the version changed other metadata", d)
        env.eq(store.meta_namespace_key_func(o), want, "key of %s after setting the version" % d)
    env.log(want, gvk)


async def explicit(env):
    """Explicit keys stand for themselves, whatever they look like."""
    k = env.pick("key", ("a", "n1/a", "", "n/", "/a", "a/b/c", "ünï/cödé"))
    for fn in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func):
        env.eq(fn(store.ExplicitKey(k)), k, "key of an explicit key")
        env.check(type(fn(store.ExplicitKey(k))) in (str, store.ExplicitKey), "type of a key")
    env.eq(controller.deletion_handling_meta_namespace_key_func(DFSU(k, None)), k, "key of a tombstone")
    env.log(k)


class Bare:
    pass


NOT_OBJECTS = (
    ("None", lambda: None), ("int", lambda: 5), ("float", lambda: 1.5), ("str", lambda: "n1/a"), ("bytes", lambda: b"x"), ("list", lambda: []),
    ("tuple", lambda: ("n1", "a")), ("set", lambda: {1}), ("object", object), ("bare instance", Bare), ("class", lambda: Bare), ("function", lambda: norm), ("empty dict", dict),
    ("dict without metadata", lambda: dict(apiVersion="v1", kind="Pod")), ("dict with metadata None", lambda: dict(metadata=None)), ("pod without metadata", V1Pod),
    ("metadata itself", lambda: V1ObjectMeta(name="a")), ("untyped metadata itself", lambda: dict(name="a", namespace="n1")),
    ("dict with metadata a string", lambda: dict(metadata="a")), ("dict with metadata a list", lambda: dict(metadata=["name"])), ("dict with metadata a number", lambda: dict(metadata=3)),
    ("object with metadata a string", lambda: Plain(metadata="a")), ("exception", lambda: ValueError("x")),
)


def rejected(env, what, fn):
    try:
        r = fn()
    except Exception as e:
        return type(e).__name__
    env.fail("%s was accepted: %r" % (what, r))


async def arejected(env, what, coro):
    try:
        r = await coro
    except Exception as e:
        return e
    env.fail("%s was accepted: %r" % (what, r))


async def non_objects(env):
    what, make = env.pick("thing", NOT_OBJECTS)
    shallow = "metadata a " not in what  # those are only rejected when a field is read
    names = set()
    for n, fn in (("meta_namespace_key_func", store.meta_namespace_key_func), ("deletion_handling_meta_namespace_key_func", controller.deletion_handling_meta_namespace_key_func),
                  ("meta_namespace_index_func", index.meta_namespace_index_func)):
        names.add(rejected(env, "%s of %s" % (n, what), lambda: fn(make())))
    if shallow:
        rejected(env, "accessor of %s" % what, lambda: meta.accessor(make()))
    for new in (lambda: store.new_store(store.meta_namespace_key_func),
                lambda: store.new_indexer(store.meta_namespace_key_func, index.Indexers({"ns": index.meta_namespace_index_func}))):
        s = new()
        good = untyped(dict(namespace="n1", name="a", uid="u", resourceVersion="1"))
        await s.add(good)
        x = make()
        for op, call in (("add", s.add), ("update", s.update), ("delete", s.delete), ("replace", lambda y: s.replace([good, y], "2"))):
            e = await arejected(env, "store.%s of %s" % (op, what), call(x))
            env.check(isinstance(e, store.StoreKeyError) and e.obj is x, "store.%s of %s: %r", op, what, e)
        try:
            r = s.get(x)
        except store.StoreKeyError:
            pass
        else:
            env.fail("store.get of %s answered %r" % (what, r))
        env.check(s.list_keys() == ["n1/a"] and s.list()[0] is good, "a rejected %s changed the store: %r", what, s.list_keys())
    for cls in (fifo.FIFO, delta_fifo.DeltaFIFO):
        q = cls(store.meta_namespace_key_func)
        x = make()
        for op, call in (("add", q.add), ("update", q.update), ("delete", q.delete), ("replace", lambda y: q.replace([y], "2"))):
            await arejected(env, "%s.%s of %s" % (cls.__name__, op, what), call(x))
        env.check(list(q.list_keys()) == [], "a rejected %s is queued: %r", what, q.list_keys())
    env.log(what, sorted(names))


async def lists(env, lengths):
    """Lists in both forms: version read and set, items extracted and set."""
    form = env.pick("form", ("typed", "untyped", "plain"))
    n = env.pick("items", lengths)
    rv = env.pick("version", ("5", ""))
    items = [(untyped if form == "untyped" else (lambda f: typed(V1Pod, f)))(dict(namespace="n1", name="p%d" % i, uid="u", resourceVersion=str(i))) for i in range(n)]
    lst = dict(untyped=lambda: dict(apiVersion="v1", kind="PodList", metadata=dict(resourceVersion=rv), items=list(items)), typed=lambda: V1PodList(metadata=V1ListMeta(resource_version=rv), items=list(items)),
               plain=lambda: Plain(metadata=Plain(resource_version=rv), items=list(items)))[form]()
    hist = []
    for _ in range(3):
        op = env.pick("op", ("set version", "set items", "set none"))
        hist.append(op)
        if op == "set version":
            rv += "1"
            meta.list_accessor(lst).resource_version = rv
        else:
            items = items[::-1] + items[:1] if op == "set items" else []
            meta.set_list(lst, list(items))
        env.eq(meta.list_accessor(lst).resource_version, rv, "%s list after %r: version" % (form, hist))
        got = meta.extract_list(lst)
        env.check(len(got) == len(items) and all(a is b for a, b in zip(got, items)), "%s list after %r: items %r", form, hist, got)
        raw = (lst["items"], lst["metadata"]["resourceVersion"]) if form == "untyped" else (lst.items, lst.metadata.resource_version)
        env.check(list(raw[0]) == items and raw[1] == rv, "%s list after %r: the list itself holds %r", form, hist, raw)
    env.log(form, hist)


async def non_lists(env):
    what, make = env.pick("thing", NOT_OBJECTS + (("list without metadata", lambda: V1PodList(items=[])),))

    rejected(env, "version of %s as a list" % what, lambda: meta.list_accessor(make()).resource_version) if what not in ("pod without metadata",) else None
    if what not in ("object with metadata a string",):
        rejected(env, "items of %s" % what, lambda: [x.metadata for x in meta.extract_list(make())] or 1 / 0)
    rejected(env, "kind of %s" % what, lambda: meta.type_accessor(make()).group_version_kind) if what != "dict without metadata" else None
    env.log(what)


async def mixed_store(env, depth):
    """A store does not care in which form an object comes: one key, one entry, one index value."""
    s = store.new_indexer(controller.deletion_handling_meta_namespace_key_func, index.Indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func}))
    names = (("n1", "a"), ("n2", "a"), (None, "a"))
    model = {}
    hist = []
    for i in range(depth):
        op = env.pick("op", ("add", "update", "delete", "tombstone", "explicit"))
        ns, name = env.pick("name", names)
        form = env.pick("form", ("typed", "untyped"))
        f = dict(namespace=ns if ns else MISSING, name=name, uid="u", resourceVersion=str(i))
        o = typed(V1Pod, f) if form == "typed" else untyped(f)
        k = "%s/%s" % (ns, name) if ns else name
        hist.append((op, form, k))
        if op == "explicit":
            # reading and deleting by explicit key
            env.check(s.get(store.ExplicitKey(k)) is model.get(k), "%r: get by explicit key", hist)
            await s.delete(store.ExplicitKey(k))
            model.pop(k, None)
        elif op in ("add", "update"):
            await getattr(s, op)(o)
            model[k] = o
        else:
            await s.delete(o if op == "delete" else DFSU(k, env.pick("tombstone of", (None, "the object")) and o))
            model.pop(k, None)
        env.check(sorted(s.list_keys()) == sorted(model), "%r: keys %r", hist, s.list_keys())
        for n2, name2 in names:
            k2 = "%s/%s" % (n2, name2) if n2 else name2
            for form2 in (lambda f: typed(V1Pod, f), untyped):
                q = form2(dict(namespace=n2 if n2 else MISSING, name=name2, uid="x", resourceVersion="0"))
                env.check(s.get(q) is model.get(k2), "%r: get(%s) = %r", hist, k2, s.get(q))
                got = sorted(id(x) for x in await s.index(index.NAMESPACE_INDEX, q))
                env.eq(got, sorted(id(v) for k3, v in model.items() if k3.rpartition("/")[0] == (n2 or "")), "%r: objects in the namespace of %s" % (hist, k2))
    env.log(hist)


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario("metadata", grid, params=dict(classes=(V1Pod, Plain, V1Node, V1ConfigMap, V1Deployment), names=("a", "a.b", "A-0") if not t else ("a", "a.b", "A-0", "0", "ä", "x" * 253))),
        Scenario("explicit-keys", explicit),
        Scenario("non-objects", non_objects),
        Scenario("lists", lists, params=dict(lengths=(0, 1, 3))),
        Scenario("non-lists", non_lists),
        Scenario("mixed-forms", mixed_store, params=dict(depth=4 if t else 3)),
    ]


ASSUMPTIONS = ["every object with metadata has a name", "an untyped list carries a resource version"]
