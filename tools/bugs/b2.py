from mk import bug

REFL = '''
from aiok8s.cache import reflector, store
from aiok8s.runtime import schema


def key(o):
    return o["metadata"]["name"]


def names(s):
    return sorted(s.list_keys())

'''
bug("R02-bookmark-skipped", "R02", [("cache/reflector.py",
"""                elif event["type"] == watch.EventType.BOOKMARK:
                    pass
""", """                elif event["type"] == watch.EventType.BOOKMARK:
                    continue
""")], "a bookmark event before a watch ends", "the next watch resumes from an older version than the bookmark's", REFL + '''
async def main():
    sv = Server("a")
    s = store.new_store(key)
    t = asyncio.ensure_future(reflector.Reflector(sv, None, s, 0).run())
    await asyncio.sleep(5)
    sv.put("b")
    sv.rv = 50
    for w in sv.watches:
        w.q.put_nowait({"type": "BOOKMARK", "object": obj("mark", "50")})
    await asyncio.sleep(5)
    sv.end_watches()
    await asyncio.sleep(5)
    assert sv.requests[-1] == ("watch", 50), sv.requests
    await cancel(t)
''')

bug("R02-version-only-of-changes", "R02", [("cache/reflector.py",
"""                options["resource_version"] = new_resource_version
                self._set_last""", """                if event["type"] != watch.EventType.DELETED:
                    options["resource_version"] = new_resource_version
                self._set_last""")], "a deletion as the last event of a watch that then ends normally",
"the deletion is delivered and applied again by the next watch", REFL + '''
async def main():
    sv = Server("a", "b")
    s = store.new_store(key)
    t = asyncio.ensure_future(reflector.Reflector(sv, None, s, 0).run())
    await asyncio.sleep(5)
    sv.remove("a")
    await asyncio.sleep(5)
    sv.end_watches()
    await asyncio.sleep(5)
    assert sv.requests[-1] == ("watch", sv.rv), sv.requests
    await cancel(t)
''')

bug("R03-only-kind-compared", "R03", [("cache/reflector.py",
"                    if self._expected_gvk != gvk:\n", "                    if gvk is None or self._expected_gvk.kind != gvk.kind:\n")],
"an event whose object has the expected kind but another group or version", "the foreign object gets into the store", REFL + '''
async def main():
    sv = Server()
    s = store.new_store(key)
    gvk = schema.GroupVersionKind("apps", "v1", "Thing")
    t = asyncio.ensure_future(reflector.Reflector(sv, gvk, s, 0).run())
    await asyncio.sleep(5)
    for w in sv.watches:
        w.q.put_nowait({"type": "ADDED", "object": dict(obj("x", "50"), apiVersion="apps/v2", kind="Thing")})
    await asyncio.sleep(5)
    assert names(s) == [], names(s)
    await cancel(t)
''')

bug("R03-rejection-ends-watch", "R03", [("cache/reflector.py",
"""                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to delete watch""", """                    except asyncio.CancelledError:
                        raise
                    except KeyError as e:
                        logger.error(
                            "unable to delete watch""")], "a store that rejects a deletion with an error that is no KeyError",
"the rejection ends the watch, and events around it are lost until the relist", REFL + '''
class Store:
    def __init__(self, s):
        self.s = s

    def __getattr__(self, n):
        return getattr(self.s, n)

    async def delete(self, o):
        raise ValueError("no")


async def main():
    sv = Server("a")
    s = store.new_store(key)
    t = asyncio.ensure_future(reflector.Reflector(sv, None, Store(s), 0).run())
    await asyncio.sleep(5)
    sv.remove("a")
    sv.put("b")
    await asyncio.sleep(0.5)
    assert "b" in names(s), names(s)
    assert [r[0] for r in sv.requests] == ["list", "watch"], sv.requests
    await cancel(t)
''')

bug("R04-resync-task-before-try", "R04", [("cache/reflector.py",
"""        finally:
            resync_task.cancel()
            await asyncio.gather(resync_task, return_exceptions=True)
""", """        except Exception:
            resync_task.cancel()
            raise
        finally:
            if resync_task.done():
                await asyncio.gather(resync_task, return_exceptions=True)
""")], "a cancellation of (or a return from) the run while a resync period is set",
"the old resync task goes on, so the store is resynced after the run has ended", REFL + '''
class Store:
    n = 0

    async def replace(self, items, rv):
        pass

    async def resync(self):
        self.n += 1


async def main():
    sv = Server("a")
    s = Store()
    t = asyncio.ensure_future(reflector.Reflector(sv, None, s, 2).run())
    await asyncio.sleep(5)
    await cancel(t)
    n = s.n
    await asyncio.sleep(10)
    assert s.n == n, (n, s.n)
''')

bug("R05-rearmed-only-when-allowed", "R05", [("cache/reflector.py",
"""                            await self._store.resync()
""", """                            await self._store.resync()
                            cleanup()
                            resync_queue, cleanup = self._resync_queue()
"""), ("cache/reflector.py", """                        return
                    cleanup()
                    resync_queue, cleanup = self._resync_queue()
""", """                        return
""")], "a gate that declines one period", "the gate is never asked again, so resyncs stop", REFL + '''
class Store:
    n = 0

    async def replace(self, items, rv):
        pass

    async def resync(self):
        self.n += 1


async def main():
    sv = Server("a")
    s = Store()
    r = reflector.Reflector(sv, None, s, 2)
    asked = []

    def gate():
        asked.append(1)
        return len(asked) > 1

    r.should_resync = gate
    t = asyncio.ensure_future(r.run())
    await asyncio.sleep(11)
    assert s.n >= 3, (s.n, asked)
    await cancel(t)
''')

bug("R05-error-dropped-between-watches", "R05", [("cache/reflector.py",
"        resync_error_queue = asyncio.Queue(maxsize=1)\n\n", "        resync_error_queues = []\n\n"),
("cache/reflector.py", "                        await resync_error_queue.put(e)\n", "                        if resync_error_queues:\n                            resync_error_queues[-1].put_nowait(e)\n"),
("cache/reflector.py", "                    await self._watch_handler(w, options, resync_error_queue)\n",
"                    resync_error_queues.append(asyncio.Queue(maxsize=1))\n                    await self._watch_handler(w, options, resync_error_queues[-1])\n")],
"a resync that fails while no watch is open (a watch request is pending, or one has just ended)",
"the failure is forgotten: no relist follows and resyncs stop", REFL + '''
class Store:
    n = 0

    async def replace(self, items, rv):
        pass

    async def resync(self):
        self.n += 1
        if self.n == 1:
            raise Exception("no")


class Slow(Server):
    async def watch(self, options):
        if len(self.requests) < 3:
            await asyncio.sleep(3)
        return await super().watch(options)


async def main():
    sv = Slow("a")
    s = Store()
    t = asyncio.ensure_future(reflector.Reflector(sv, None, s, 2).run())
    await asyncio.sleep(30)
    assert [r[0] for r in sv.requests].count("list") == 2, sv.requests
    assert s.n > 3, s.n
    await cancel(t)
''')

INF = '''
from aiok8s.cache import controller, delta_fifo, index, shared_informer

'''
bug("I01-handler-before-cache", "I01", [("cache/controller.py",
"""                await client_state.delete(d.object)
                await h.on_delete(d.object)
""", """                await h.on_delete(d.object)
                await client_state.delete(d.object)
""")], "a handler that looks at the cache when told of a deletion, or raises on it", "the handler is told before the object left the cache", INF + '''
async def main():
    sv = Server("a")
    seen = []
    cache = None

    class H(Recorder):
        async def on_delete(self, o):
            seen.append(cache.list_keys())

    cache, c = controller.new_informer(sv, None, 0, H())
    t = asyncio.ensure_future(c.run())
    await asyncio.sleep(2)
    sv.remove("a")
    await asyncio.sleep(2)
    assert seen == [[]], seen
    await cancel(t)
''')

bug("I02-late-handler-races", "I02", [("cache/shared_informer.py",
"""            async with self._block_deltas:
                await self._processor._add_listener(listener)
                for item in self._indexer.list():
                    await listener._add(_AddNotification(new_obj=item))
""", """            items = self._indexer.list()
            await self._processor._add_listener(listener)
            for item in items:
                await listener._add(_AddNotification(new_obj=item))
""")], "a handler registered on a running informer while changes are being distributed",
"the handler is told of changes before or without the add, or gets an add of a deleted object", INF + '''
async def main():
    bad = []
    for n in range(12):
        sv = Server(*"abcd")
        i = shared_informer.new_shared_informer(sv, None, 0)
        t = asyncio.ensure_future(i.run())
        await asyncio.sleep(2)
        r = Recorder()
        sv.remove("d")
        sv.put("c")
        sv.put("e")
        for _ in range(n):
            await asyncio.sleep(0)
        await i.add_event_handler(r)
        await asyncio.sleep(2)
        view = set()
        for op, name in r.calls:
            if (op == "add") == (name in view):
                bad.append((n, r.calls))
            (view.discard if op == "delete" else view.add)(name)
        if view != set("abce"):
            bad.append((n, r.calls))
        await cancel(t)
    assert not bad, bad[0]
''')

bug("I03-pending-popped-last", "I03", [("cache/shared_informer.py",
"self._pending_notifications.popleft()", "self._pending_notifications.pop()")],
"three notifications that pile up while a handler is busy", "the handler gets notifications out of order", INF + '''
async def main():
    sv = Server()
    i = shared_informer.new_shared_informer(sv, None, 0)

    class Slow(Recorder):
        async def on_add(self, o):
            await asyncio.sleep(5)
            await super().on_add(o)

    r = Slow()
    await i.add_event_handler(r)
    t = asyncio.ensure_future(i.run())
    await asyncio.sleep(2)
    for n in "abcdef":
        sv.put(n)
    await asyncio.sleep(60)
    assert [c[1] for c in r.calls] == list("abcdef"), r.calls
    await cancel(t)
''')

bug("I03-failing-handler-stops", "I03", [("cache/shared_informer.py",
"""            except Exception:
                await asyncio.sleep(60)
            else:
                break
""", """            except wait.WaitTimeoutError:
                await asyncio.sleep(60)
            except Exception:
                logger.exception("handler failed")
                break
            else:
                break
""")], "a handler that raises", "the handler is never told anything again", INF + '''
async def main():
    sv = Server()
    i = shared_informer.new_shared_informer(sv, None, 0)

    class Fails(Recorder):
        async def on_add(self, o):
            await super().on_add(o)
            if len(self.calls) == 1:
                raise Exception("no")

    r = Fails()
    await i.add_event_handler(r)
    t = asyncio.ensure_future(i.run())
    await asyncio.sleep(2)
    sv.put("a")
    sv.put("b")
    await asyncio.sleep(600)
    assert [c[1] for c in r.calls] == list("ab"), r.calls
    await cancel(t)
''')

bug("I05-registered-after-stop", "I05", [("cache/shared_informer.py",
"""            async with self._started_lock:
                self._stopped = True
            processor_stop_event.set()
""", """            processor_stop_event.set()
""")], "a handler that is registered after the informer was cancelled",
"the handler is called with the cached objects (or the registration hangs)", INF + '''
async def main():
    sv = Server("a")
    i = shared_informer.new_shared_informer(sv, None, 0)
    t = asyncio.ensure_future(i.run())
    await asyncio.sleep(2)
    await cancel(t)
    r = Recorder()
    await asyncio.wait_for(i.add_event_handler(r), 5)
    await asyncio.sleep(2)
    assert r.calls == [], r.calls
''')

bug("I05-any-synced", "I05", [("cache/shared_informer.py",
"        return all(sync_func() for sync_func in cache_syncs)\n", "        return not cache_syncs or max(sync_func() for sync_func in cache_syncs)\n")],
"waiting for two informers, one of which lists slowly", "the wait ends before the second one has synced", INF + '''
async def main():
    flags = [False, True]
    t = asyncio.ensure_future(shared_informer.wait_for_cache_sync(lambda: flags[0], lambda: flags[1]))
    await asyncio.sleep(5)
    assert not t.done()
    flags[0] = True
    await asyncio.sleep(1)
    assert t.result() is True
''')

MUX = '''
from aiok8s.watch import mux

WAIT = mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL
DROP = mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL


def reader(w):
    got = []

    async def read():
        async for e in w:
            got.append(e["object"])

    return got, asyncio.ensure_future(read())

'''
bug("M01-ids-reused", "M01", [("watch/mux.py",
"""        async def f():
            async with self._lock:
                nonlocal w
                id_ = self._next_watcher
                self._next_watcher += 1
                w =""", """        async def f():
            async with self._lock:
                nonlocal w
                id_ = len(self._watchers)
                self._next_watcher = id_ + 1
                w ="""), ("watch/mux.py",
"""                id_ = self._next_watcher
                self._next_watcher += 1
                n =""", """                id_ = len(self._watchers)
                self._next_watcher = id_ + 1
                n =""")], "a watcher stops while a later one goes on, and then another one registers",
"the new watcher takes the place of the one that was registered: that one gets no further events", MUX + '''
async def main():
    b = mux.Broadcaster(10, WAIT)
    ws = [await b.watch() for _ in range(3)]
    await ws[0].stop()
    ws.append(await b.watch())
    got = [reader(w)[0] for w in ws[1:]]
    await b.action("ADDED", "x")
    await asyncio.sleep(1)
    assert got == [["x"]] * 3, got
''')

bug("M02-prefix-after-registration", "M02", [("watch/mux.py",
"""                self._watchers[id_] = w
                for e in queued_events:
                    await w._put(e)

        try:
            await self._block_queue(f)
""", """                self._watchers[id_] = w

        try:
            await self._block_queue(f)
            for e in queued_events:
                await w._put(e)
""")], "with the dropping policy, an event that is published while a watcher with prefix events registers",
"the event is delivered before the prefix", MUX + '''
async def main():
    b = mux.Broadcaster(10, DROP)
    reg = asyncio.ensure_future(b.watch_with_prefix([{"type": "ADDED", "object": n} for n in "pq"]))
    await asyncio.sleep(0)
    await b.action("ADDED", "live")
    got, t = reader(await reg)
    await asyncio.sleep(1)
    assert got in (["p", "q", "live"], ["p", "q"]), got
''')

bug("M02-full-buffer-ends-round", "M02", [("watch/mux.py",
"""                    except asyncio.QueueFull:
                        pass
                return
""", """                    except asyncio.QueueFull:
                        break
                return
""")], "a watcher with a full buffer that registered before another one", "the watchers after it miss the event although they keep up", MUX + '''
async def main():
    b = mux.Broadcaster(2, DROP)
    stuck = await b.watch()
    got, t = reader(await b.watch())
    for n in range(5):
        await b.action("ADDED", n)
        await settle()
    assert got == list(range(5)), got
''')

bug("M03-context-left-by-cancellation", "M03", [("watch/mux.py",
"""        await self.stop()
""", """        if exc_type is None or issubclass(exc_type, Exception):
            await self.stop()
""")], "a task that is cancelled within the context of its watcher",
"the watcher is not stopped; once its buffer is full the broadcaster waits for it for ever", MUX + '''
async def main():
    b = mux.Broadcaster(1, WAIT)

    async def use():
        async with await b.watch():
            await asyncio.sleep(1000)

    t = asyncio.ensure_future(use())
    await settle()
    await cancel(t)
    for n in range(3):
        await b.action("ADDED", n)
    await settle()
    got, t = reader(await asyncio.wait_for(b.watch(), 10))
    await b.action("ADDED", "x")
    await asyncio.sleep(1)
    assert got == ["x"], got
''')


bug("R01-timeout-terminates", "R01", [("cache/reflector.py",
"""            except asyncio.CancelledError:
                raise
            except Exception as e:
                logger.error(repr(e))
""", """            except (asyncio.CancelledError, asyncio.TimeoutError):
                raise
            except Exception as e:
                logger.error(repr(e))
""")], "a list request that fails with a timeout error", "the run of the reflector ends", REFL + '''
async def main():
    class Slow(Server):
        async def list(self, options):
            if not self.requests:
                self.requests.append(("list", 0))
                raise asyncio.TimeoutError
            return await super().list(options)

    sv = Slow("a")
    s = store.new_store(key)
    t = asyncio.ensure_future(reflector.Reflector(sv, None, s, 0).run())
    await asyncio.sleep(30)
    assert names(s) == ["a"], names(s)
    await cancel(t)
''')


bug("R01-replace-failure-ignored", "R01", [("cache/reflector.py",
"        await self._sync_with(items, resource_version)\n", "        try:\n            await self._sync_with(items, resource_version)\n        except Exception as e:\n            logger.error(\"unable to sync list result: %r\", e)\n")],
"a store that fails once to replace its contents", "the watch goes on without the list, so the store stays incomplete", REFL + '''
class Store:
    n = 0

    def __init__(self, s):
        self.s = s

    def __getattr__(self, n):
        return getattr(self.s, n)

    async def replace(self, items, rv):
        self.n += 1
        if self.n == 1:
            raise Exception("no")
        await self.s.replace(items, rv)


async def main():
    sv = Server("a")
    s = store.new_store(key)
    t = asyncio.ensure_future(reflector.Reflector(sv, None, Store(s), 0).run())
    await asyncio.sleep(60)
    assert names(s) == ["a"], names(s)
    await cancel(t)
''')

bug("I04-catches-up", "I04", [("cache/shared_informer.py",
"        self._next_resync = now + self._resync_period\n", "        self._next_resync = getattr(self, \"_next_resync\", now) + self._resync_period\n")],
"a handler whose period is no multiple of the check period", "it is resynced again before its period has passed", INF + '''
async def main():
    sv = Server("a")
    i = shared_informer.new_shared_informer(sv, None, 2)
    times = []

    class H(Recorder):
        async def on_update(self, old, new):
            times.append(time.time())

    await i.add_event_handler(H(), resync_period=3)
    t = asyncio.ensure_future(i.run())
    await asyncio.sleep(30)
    gaps = [b - a for a, b in zip(times, times[1:])]
    assert len(gaps) > 3 and min(gaps) > 2.9, gaps
    await cancel(t)
''')
