"""R03: only well-formed events of the expected type reach the store."""
import asyncio

from aiok8s.cache import list_watch, reflector
from aiok8s.runtime import schema
from checks import apid
from checks.R01 import Rec
from mc.explore import Scenario


class Other:
    api_version = "v1"
    kind = "Other"

    def __init__(self, name, rv):
        self.metadata = apid.Meta("ns", name, rv)


class Sub(apid.Obj):
    pass


class Bare:
    """An object without metadata."""


def u(api, kind, name, rv, ns="ns", **drop):
    m = dict(name=name, uid="u-" + name, resourceVersion=rv)
    if ns is not None:
        m["namespace"] = ns
    for k in drop.get("without", ()):
        m.pop(k)
    o = dict(metadata=m)
    if api is not None:
        o["apiVersion"] = api
    if kind is not None:
        o["kind"] = kind
    return o


def nometa(cls):
    o = cls.__new__(cls)
    o.metadata = None
    return o


def cluster(rv):
    o = apid.Obj(None, "c", rv)
    return o


# label -> function of a version -> (object, is it of the expected type and well-formed?)
TYPED = {
    "good-a": lambda rv: (apid.Obj("ns", "a", rv), True),
    "good-b": lambda rv: (apid.Obj("ns", "b", rv), True),
    "cluster-scoped": lambda rv: (cluster(rv), True),
    "subclass": lambda rv: (Sub("ns", "s", rv), True),
    "other-class": lambda rv: (Other("a", rv), False),
    "dict": lambda rv: (u("v1", "Obj", "a", rv), False),
    "none": lambda rv: (None, False),
    "string": lambda rv: ("a", False),
    "metadata-none": lambda rv: (nometa(apid.Obj), False),
    "no-metadata": lambda rv: (apid.Obj.__new__(apid.Obj), False),
}


def untyped(api, kind, others):
    d = {
        "good-a": lambda rv: (u(api, kind, "a", rv), True),
        "good-b": lambda rv: (u(api, kind, "b", rv), True),
        "cluster-scoped": lambda rv: (u(api, kind, "c", rv, ns=None), True),
        "empty-namespace": lambda rv: (u(api, kind, "e", rv, ns=""), True),
        "no-uid": lambda rv: (u(api, kind, "n", rv, without=("uid",)), True),
        "other-kind": lambda rv: (u(api, kind + "X", "a", rv), False),
        "no-kind": lambda rv: (u(api, None, "a", rv), False),
        "no-api-version": lambda rv: (u(None, kind, "a", rv), False),
        "typed": lambda rv: (apid.Obj("ns", "a", rv), False),
        "none": lambda rv: (None, False),
        "no-metadata": lambda rv: (dict(apiVersion=api, kind=kind), False),
        "metadata-none": lambda rv: (dict(apiVersion=api, kind=kind, metadata=None), False),
        "bad-api-version": lambda rv: (u("a/b/c", kind, "a", rv), False),
    }
    for o in others:
        d["of " + o] = lambda rv, o=o: (u(o, kind, "a", rv), False)
    return d


ANY = {
    "good-a": lambda rv: (apid.Obj("ns", "a", rv), True),
    "other-class": lambda rv: (Other("o", rv), True),
    "dict": lambda rv: (u("v1", "Obj", "d", rv), True),
    "cluster-dict": lambda rv: (u("v1", "Obj", "c", rv, ns=None), True),
    "none": lambda rv: (None, False),
    "string": lambda rv: ("a", False),
    "bare": lambda rv: (Bare(), False),
    "metadata-none": lambda rv: (dict(metadata=None), False),
}

EXPECT = {
    "class": (apid.Obj, TYPED),
    "named-group": (schema.GroupVersionKind("example.com", "v1", "Obj"), untyped("example.com/v1", "Obj", ["v1", "example.com/v2", "other.com/v1"])),
    "core-group": (schema.GroupVersionKind("", "v1", "Obj"), untyped("v1", "Obj", ["v2", "example.com/v1"])),
    "anything": (None, ANY),
    "dict-class": (dict, {k: v for k, v in untyped("v1", "Obj", []).items() if k in ("good-a", "cluster-scoped", "typed", "none", "no-metadata", "metadata-none")}),
}


def key(o):
    m = o["metadata"] if isinstance(o, dict) else o.metadata
    ns, name = (m.get("namespace"), m["name"]) if isinstance(m, dict) else (m.namespace, m.name)
    return "%s/%s" % (ns, name) if ns else name


RV = {"rising": lambda i: 10 + i, "as listed": lambda i: 1, "equal": lambda i: 10, "falling": lambda i: 10 - i, "longer": lambda i: 9 + i}


class Feed:
    """A watch that delivers what it is given and stays open."""

    def __init__(self):
        self.q = asyncio.Queue()
        self.ended = 0

    async def __aenter__(self):
        return self

    async def __aexit__(self, *e):
        self.ended += 1

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.q.get()


async def events(env, expects, n, types, faulty=False, together=False, labels=None, versions=("rising",)):
    what = env.pick("expected", expects)
    etype, alphabet = EXPECT[what]
    feeds, lists = [], []
    unt = etype is not apid.Obj

    async def list_(options):
        lists.append(1)
        return dict(items=[], metadata=dict(resourceVersion="1")) if unt else apid.ObjList([], "1")

    async def watch(options):
        feeds.append(Feed())
        return feeds[-1]

    rec = Rec(env, ("add", "update", "delete") if faulty else ())
    r = reflector.Reflector(list_watch.ListWatch(list_, watch), etype, rec, 0)
    t = asyncio.ensure_future(r.run())
    await env.quiesce()
    how = env.pick("versions", versions)
    model = {}
    sent = []
    names = sorted(alphabet) if labels is None else [x for x in labels if x in alphabet]
    for i in range(n):
        lab = env.pick("event%d" % i, names)
        typ = env.pick("type%d" % i, types)
        rv = str(RV[how](i))
        o, good = alphabet[lab](rv)
        sent.append((typ, lab))
        before = len(rec.ops)
        feeds[0].q.put_nowait(dict(type=typ, object=o, raw_object=o))
        if not together:
            await env.quiesce()
            ops = rec.ops[before:]
            op = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}.get(typ)
            if good and op:
                env.check(len(ops) == 1 and ops[0][0] == op and ops[0][1] is o, "the event %s of %s led to %r; sent %r expecting %s", typ, lab, ops, sent, what)
            else:
                env.check(not ops, "the event %s of %s led to %r; sent %r expecting %s", typ, lab, ops, sent, what)
        if good and typ in ("ADDED", "MODIFIED"):
            model[key(o)] = o
        elif good and typ == "DELETED":
            model.pop(key(o), None)
    await env.quiesce()
    await asyncio.sleep(3)
    await env.quiesce()
    env.check(not t.done(), "the reflector ended: %r", t)
    env.check(len(lists) == 1 and len(feeds) == 1 and not feeds[0].ended, "the watch ended: %d lists, %d watches; sent %r expecting %s", len(lists), len(feeds), sent, what)
    if not faulty:
        got = {key(o): o for o in rec.inner.list()}
        env.check(len(got) == len(model) and all(got.get(k) is o for k, o in model.items()), "the store has %r, expected %r; sent %r expecting %s", sorted(got), sorted(model), sent, what)
    env.log(what, sent, sorted(model))


def scenarios(tier):
    t = tier == "thorough"
    alltypes = ("ADDED", "MODIFIED", "DELETED", "BOOKMARK", "STRANGE", None)
    ex = tuple(EXPECT)
    return [
        Scenario("one", events, params=dict(expects=ex, n=1, types=alltypes)),
        Scenario("versions", events, params=dict(expects=("class", "core-group"), n=3, types=("ADDED", "MODIFIED", "DELETED"), labels=("good-a", "good-b"), versions=tuple(RV))),
        Scenario("pairs", events, params=dict(expects=ex, n=2, types=("ADDED", "DELETED", "STRANGE") if not t else alltypes)),
        Scenario("triples", events, params=dict(expects=ex, n=3, types=("ADDED",) if not t else ("ADDED", "DELETED"), together=True)),
        Scenario("store-rejects", events, budget={"fault": 2}, params=dict(expects=("class", "core-group"), n=3, types=("ADDED", "MODIFIED", "DELETED"), faulty=True, labels=("good-a", "good-b", "other-class"))),
    ]


ASSUMPTIONS = ["every event has a type and an object"]
