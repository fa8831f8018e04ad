# Helpers extracted, conditions inverted, loops rewritten, statements reordered.
def r(name, f, where, new):
    edits.append((name, f, where, new))


# ---- work queues
r("queue.add", "workqueue/queue.py", "Type.add", '''
async def add(self, item):
    async with self._cond:
        if not self._shutting_down and item not in self._dirty:
            self._dirty.add(item)
            if item not in self._processing:
                self._enqueue(item)

def _enqueue(self, item):
    self._queue.append(item)
    self._cond.notify()
''')
r("queue.get", "workqueue/queue.py", "Type.get", '''
async def _wait_for_work(self):
    try:
        await self._cond.wait_for(lambda: self._queue or self._shutting_down)
    except asyncio.CancelledError:
        self._cond.notify()
        raise

async def get(self):
    async with self._cond:
        await self._wait_for_work()
        if self._queue:
            item = self._queue.popleft()
            self._dirty.discard(item)
            self._processing.add(item)
            return item, False
        return None, True
''')
r("queue.done", "workqueue/queue.py", "Type.done", '''
async def done(self, item):
    async with self._cond:
        self._processing.remove(item)
        if item not in self._dirty:
            return
        self._enqueue(item)
''')
r("delay.add_after", "workqueue/delaying_queue.py", "_DelayingType.add_after", '''
async def add_after(self, item, duration):
    if self.shutting_down():
        return
    if not duration > 0:
        return await self.add(item)

    entry = _WaitFor(item, self._clock.now() + duration)
    stop = asyncio.ensure_future(self._stop_event.wait())
    put = asyncio.ensure_future(self._waiting_for_add_queue.put(entry))
    try:
        await asyncio.wait([stop, put], return_when=asyncio.FIRST_COMPLETED)
    finally:
        for task in (stop, put):
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
''')
r("delay.loop", "workqueue/delaying_queue.py", "_DelayingType._waiting_loop", '''
async def _accept(self, waiting, entry):
    if entry.ready_at > self._clock.now():
        waiting.insert(entry.data, entry.ready_at)
    else:
        await self.add(entry.data)

async def _add_ready(self, waiting, now):
    while len(waiting) and waiting.peek_priority() <= now:
        await self.add(waiting.pop())

async def _waiting_loop(self):
    timer = None
    waiting = _WaitForPriorityQueue()

    while not self.shutting_down():
        now = self._clock.now()
        await self._add_ready(waiting, now)

        if len(waiting):
            if timer is not None:
                timer.stop()
            timer = self._clock.new_timer(waiting.peek_priority() - now)
            ready = timer.c()
        else:
            ready = asyncio.Queue()

        stop = asyncio.ensure_future(self._stop_event.wait())
        beat = asyncio.ensure_future(self._heartbeat.c().get())
        tick = asyncio.ensure_future(ready.get())
        entry = asyncio.ensure_future(self._waiting_for_add_queue.get())
        tasks = {stop, beat, tick, entry}
        done, pending = await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
        for task in pending:
            task.cancel()
        if pending:
            await asyncio.wait(pending)
        if self._stop_event.is_set():
            break
        if entry not in done:
            continue
        await self._accept(waiting, entry.result())
        while True:
            try:
                more = self._waiting_for_add_queue.get_nowait()
            except asyncio.QueueEmpty:
                break
            await self._accept(waiting, more)
    if timer is not None:
        timer.stop()
''')
r("limiter.item", "workqueue/default_rate_limiters.py", "ItemExponentialFailureRateLimiter.when", '''
def when(self, item):
    failures = self._failures[item]
    self._failures[item] = failures + 1
    try:
        delay = self._base_delay * 2**failures
    except OverflowError:
        delay = self._max_delay
    return delay if delay < self._max_delay else self._max_delay
''')
r("limiter.bucket", "workqueue/default_rate_limiters.py", "BucketRateLimiter.when", '''
def when(self, item):
    now = time.time() * 1_000_000_000
    self._tokens = self._advance(now) - 1
    self._last = now
    return max(0, -self._tokens / self._limit)
''')
r("limiter.max", "workqueue/default_rate_limiters.py", "_MaxOfRateLimiters.when", '''
def when(self, item):
    delays = [limiter.when(item) for limiter in self._limiters]
    return max(delays)
''')
r("rlq", "workqueue/rate_limiting_queue.py", "_RateLimitingType.add_rate_limited", '''
async def add_rate_limited(self, item):
    delay = self._rate_limiter.when(item)
    await self.add_after(item, delay)
''')

# ---- watch
r("mux.watch", "watch/mux.py", "Broadcaster.watch", '''
def _register(self, length):
    w = _BroadcasterWatcher(asyncio.Queue(maxsize=length), self._next_watcher, self)
    self._watchers[self._next_watcher] = w
    self._next_watcher += 1
    return w

async def watch(self):
    registered = []

    async def f():
        async with self._lock:
            registered.append(self._register(self._watch_queue_length))

    return await self._registration(f, registered)

async def _registration(self, f, registered):
    try:
        await self._block_queue(f)
    except asyncio.CancelledError:
        for w in registered:
            await w.stop()
        raise
    return registered[0]
''')
r("mux.prefix", "watch/mux.py", "Broadcaster.watch_with_prefix", '''
async def watch_with_prefix(self, queued_events):
    registered = []

    async def f():
        async with self._lock:
            w = self._register(max(self._watch_queue_length, len(queued_events) + 1))
            registered.append(w)
            for e in queued_events:
                await w._put(e)

    return await self._registration(f, registered)
''')
r("mux.loop", "watch/mux.py", "Broadcaster._loop", '''
async def _loop(self):
    while (event := await self._incoming.get()) is not None:
        if event["type"] == _INTERNAL_RUN_FUNCTION_MARKER:
            await event["object"]()
        else:
            await self._distribute(event)
    await self._close_all()
    self._distributing.set()
''')
r("mux.distribute", "watch/mux.py", "Broadcaster._distribute", '''
async def _distribute(self, event):
    async with self._lock:
        drop = self._full_channel_behavior is FullChannelBehavior.DROP_IF_CHANNEL_FULL
        for w in list(self._watchers.values()):
            if drop:
                self._offer(w, event)
            else:
                await self._hand_over(w, event)

def _offer(self, w, event):
    if not w._stopped.is_set() and not w._result.full():
        w._result.put_nowait(event)

async def _hand_over(self, w, event):
    put = asyncio.ensure_future(w._put(event))
    stopped = asyncio.ensure_future(w._stopped.wait())
    await asyncio.wait([put, stopped], return_when=asyncio.FIRST_COMPLETED)
    for task in (put, stopped):
        task.cancel()
''')
r("mux.next", "watch/mux.py", "_BroadcasterWatcher.__anext__", '''
async def __anext__(self):
    event = self._next_read()
    while True:
        try:
            await asyncio.wait([event, self._task], return_when=asyncio.FIRST_COMPLETED)
        except asyncio.CancelledError:
            self._leave(event)
            raise
        if event.done():
            if not self._result.maxsize:
                self._result.task_done()
            return event.result()
        if self._stopped.is_set():
            event.cancel()
            raise StopAsyncIteration

def _next_read(self):
    if self._unclaimed:
        return self._unclaimed.popleft()
    return asyncio.ensure_future(self._result.get())
''')
r("watch.action", "watch/watch.py", "FakeWatcher.action", '''
async def action(self, action, obj):
    event = {"type": action, "object": obj}
    async with self._mutex:
        self._result.put_nowait(event)
        await self._result.join()
''')

# ---- util
r("wait.until", "util/wait.py", "jitter_until", '''
async def jitter_until(f, period, jitter_factor, sliding, stop_event):
    stop_task = asyncio.ensure_future(stop_event.wait())
    try:
        while not stop_event.is_set():
            await _round(f, _jittered(period, jitter_factor), sliding, stop_task)
    finally:
        stop_task.cancel()


async def _round(f, delay, sliding, stop_task=None):
    t = None if sliding else _time.Timer(delay)
    timer_task = None
    try:
        await f()
        t = t or _time.Timer(delay)
        timer_task = asyncio.ensure_future(t.c.get())
        tasks = [timer_task, stop_task] if stop_task else [timer_task]
        await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
    finally:
        if timer_task:
            timer_task.cancel()
        if t:
            t.stop()


def _jittered(period, jitter_factor):
    return jitter(period, jitter_factor) if jitter_factor > 0 else period
''')
r("wait.loop", "util/wait.py", "jitter_loop", '''
async def jitter_loop(f, period, jitter_factor, sliding):
    while True:
        await _round(f, _jittered(period, jitter_factor), sliding)
''')
r("wait.step", "util/wait.py", "Backoff.step", '''
def step(self):
    duration = self.duration
    if self.steps >= 1:
        self.steps -= 1
        self._grow()
    return jitter(duration, self.jitter) if self.jitter else duration

def _grow(self):
    if not self.factor:
        return
    self.duration *= self.factor
    if self.cap and self.duration > self.cap:
        self.duration, self.steps = self.cap, 0
''')
r("wait.backoff", "util/wait.py", "exponential_backoff", '''
async def exponential_backoff(backoff, condition):
    backoff = Backoff(**vars(backoff))
    while backoff.steps:
        if await condition():
            return
        last = backoff.steps == 1
        if last:
            break
        await asyncio.sleep(backoff.step())
    raise WaitTimeoutError
''')
r("wait.poll", "util/wait.py", "poll", '''
async def poll(interval, timeout, condition):
    task = asyncio.ensure_future(poll_infinite(interval, condition))
    try:
        await asyncio.wait([task], timeout=timeout)
        finished = task.done()
    finally:
        if not task.done():
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
    if finished:
        task.result()
    else:
        raise WaitTimeoutError
''')
r("wait.infinite", "util/wait.py", "poll_infinite", '''
async def poll_infinite(interval, condition):
    await asyncio.sleep(interval)
    while not await condition():
        await asyncio.sleep(interval)
''')
r("clock.settime", "util/clock.py", "FakeClock._set_time_locked", '''
async def _set_time_locked(self, t):
    self._time = t
    due = [w for w in self._waiters if w._target_time <= t]
    for w in due:
        await self._fire(w, t)
    self._waiters = [w for w in self._waiters if w not in due or w._step_interval]

async def _fire(self, w, t):
    if not w._skip_if_blocked:
        await w._dest_queue.put(t)
    elif not w._dest_queue.full():
        w._dest_queue.put_nowait(t)
    if w._step_interval:
        while w._target_time <= t:
            w._target_time += w._step_interval
''')
r("clock.timerstop", "util/clock.py", "_FakeTimer.stop", '''
def stop(self):
    before = self._fake_clock._waiters
    after = [w for w in before if w is not self._waiter]
    self._fake_clock._waiters = after
    return len(after) < len(before)
''')
r("clock.reset", "util/clock.py", "_FakeTimer.reset", '''
def reset(self, d):
    pending = self._waiter in self._fake_clock._waiters
    if pending:
        self._waiter._target_time = self._fake_clock._time + d
    return pending
''')
r("time.timer", "util/_time.py", "Timer", '''
class Timer:
    def __init__(self, d):
        self.c = asyncio.Queue(maxsize=1)
        self._task = asyncio.ensure_future(self._fire(d))

    async def _fire(self, d):
        await asyncio.sleep(d)
        self.c.put_nowait(time.time())

    def stop(self):
        self._task.cancel()
''')

# ---- cache
r("tsm.add", "cache/thread_safe_store.py", "_ThreadSafeMap.add", '''
async def add(self, key, obj):
    await self.update(key, obj)
''')
r("tsm.delete", "cache/thread_safe_store.py", "_ThreadSafeMap.delete", '''
async def delete(self, key, obj):
    async with self._lock:
        if key not in self._items:
            return
        self._delete_from_indices(self._items.pop(key), key)
''')
r("tsm.index", "cache/thread_safe_store.py", "_ThreadSafeMap.index", '''
async def index(self, index_name, obj):
    async with self._lock:
        values = self._indexers[index_name](obj)
        index = self._indices.get(index_name, _index.Index())
        keys = set()
        for value in values:
            keys |= index.get(value, set())
        return [self._items[key] for key in keys]
''')
r("tsm.byindex", "cache/thread_safe_store.py", "_ThreadSafeMap.by_index", '''
async def by_index(self, index_name, index_key):
    keys = await self.index_keys(index_name, index_key)
    return [self._items[key] for key in keys]
''')
r("store.add", "cache/store.py", "_Cache.add", '''
def _key(self, obj):
    try:
        return self._key_func(obj)
    except Exception as e:
        raise StoreKeyError(obj) from e

async def add(self, obj):
    await self._cache_storage.add(self._key(obj), obj)
''')
r("store.update", "cache/store.py", "_Cache.update", '''
async def update(self, obj):
    key = self._key(obj)
    await self._cache_storage.update(key, obj)
''')
r("store.replace", "cache/store.py", "_Cache.replace", '''
async def replace(self, list_, resource_version):
    items = {self._key(item): item for item in list_}
    await self._cache_storage.replace(items, resource_version)
''')
r("fifo.pop", "cache/fifo.py", "FIFO.pop", '''
async def pop(self, process):
    async with self._lock:
        while True:
            id_ = await self._next_id()
            if id_ in self._items:
                break
        item = self._items.pop(id_)
        try:
            process(item)
        except RequeueError as e:
            self._add_if_not_present(id_, item)
            cause = e.__cause__
            if cause:
                raise ProcessError(item) from cause
        except Exception as e:
            raise ProcessError(item) from e
        return item

async def _next_id(self):
    while not self._queue:
        if self._closed:
            raise FIFOClosedError
        await self._cond.wait()
    if self._initial_population_count:
        self._initial_population_count -= 1
    return self._queue.pop(0)
''')
r("fifo.add", "cache/fifo.py", "FIFO.add", '''
async def add(self, obj):
    id_ = self._id(obj)
    async with self._lock:
        if id_ not in self._items:
            self._queue.append(id_)
        self._items[id_] = obj
        self._populated = True
        self._cond.notify_all()

def _id(self, obj):
    try:
        return self._key_func(obj)
    except Exception as e:
        raise store.StoreKeyError(obj) from e
''')
r("fifo.resync", "cache/fifo.py", "FIFO.resync", '''
async def resync(self):
    async with self._lock:
        missing = [id_ for id_ in self._items if id_ not in self._queue]
        self._queue.extend(missing)
        self._cond.notify_all()
''')
r("delta.delete", "cache/delta_fifo.py", "DeltaFIFO.delete", '''
async def delete(self, obj):
    id_ = self.key_of(obj)
    async with self._cond:
        self._populated = True
        if id_ in self._items or self._is_known(id_):
            self._queue_action_locked(DeltaType.DELETED, obj)

def _is_known(self, id_):
    if not self._known_objects:
        return False
    try:
        return self._known_objects.get_by_key(id_) is not None
    except Exception:
        return True
''')
r("delta.replace", "cache/delta_fifo.py", "DeltaFIFO.replace", '''
async def replace(self, list_, resource_version):
    async with self._cond:
        keys = set()
        for item in list_:
            keys.add(self.key_of(item))
            self._queue_action_locked(DeltaType.SYNC, item)
        gone = {}
        for k in self._items:
            if k not in keys:
                gone[k] = self._last_pending(k)
        if self._known_objects:
            for k in self._known_objects.list_keys():
                if k not in keys and k not in self._items:
                    gone[k] = self._last_known(k)
        for k, obj in gone.items():
            self._queue_action_locked(DeltaType.DELETED, DeletedFinalStateUnknown(k, obj))
        if not self._populated:
            self._initial_population_count = len(keys) + len(gone)
            self._populated = True

def _last_pending(self, k):
    newest = self._items[k].newest()
    obj = newest.object if newest else None
    return obj.obj if isinstance(obj, DeletedFinalStateUnknown) else obj

def _last_known(self, k):
    try:
        obj = self._known_objects.get_by_key(k)
    except Exception as e:
        logger.error("Unexpected error %s during lookup of key %s", e, k)
        return None
    if obj is None:
        logger.info("Key %s does not exist in known objects store", k)
    return obj
''')
r("delta.pop", "cache/delta_fifo.py", "DeltaFIFO.pop", '''
async def pop(self, process):
    async with self._cond:
        id_ = await self._wait_for_item()
        item = self._items.pop(id_)
        try:
            await process(item)
        except fifo.RequeueError as e:
            self._add_if_not_present(id_, item)
            if e.__cause__:
                raise fifo.ProcessError(item) from e.__cause__
        except asyncio.CancelledError:
            raise
        except Exception as e:
            raise fifo.ProcessError(item) from e
        finally:
            self._count_down()
        return item

def _count_down(self):
    if self._initial_population_count:
        self._initial_population_count -= 1

async def _wait_for_item(self):
    while True:
        while not self._queue:
            if self._closed:
                raise fifo.FIFOClosedError
            await self._cond.wait()
        id_ = self._queue.pop(0)
        if id_ in self._items:
            return id_
        self._count_down()
''')
r("delta.dedup", "cache/delta_fifo.py", "_dedup_deltas", '''
def _dedup_deltas(deltas):
    if len(deltas) < 2:
        return deltas
    *rest, b, a = deltas
    dup = _is_dup(a, b)
    if dup is None:
        return deltas
    return Deltas(rest + [dup])
''')
r("ctl.process", "cache/controller.py", "_Controller._process_loop", '''
async def _process_loop(self):
    retry = self._config.retry_on_error
    process = self._process_or_requeue if retry else self._config.process
    try:
        while True:
            await self._pop_one(process)
    except fifo.FIFOClosedError:
        return

async def _pop_one(self, process):
    try:
        await self._config.queue.pop(process)
    except fifo.ProcessError:
        pass
''')
r("ctl.informer", "cache/controller.py", "_new_informer", '''
def _new_informer(lw, obj_type, resync_period, h, client_state):
    fifo = delta_fifo.DeltaFIFO(
        store.meta_namespace_key_func, known_objects=client_state
    )

    async def apply(obj):
        old = client_state.get(obj)
        if old is None:
            await client_state.add(obj)
            await h.on_add(obj)
        else:
            await client_state.update(obj)
            await h.on_update(old, obj)

    async def process(deltas):
        for type_, obj in deltas:
            if type_ == delta_fifo.DeltaType.DELETED:
                await client_state.delete(obj)
                await h.on_delete(obj)
            else:
                await apply(obj)

    return new(
        Config(
            queue=fifo,
            lister_watcher=lw,
            object_type=obj_type,
            full_resync_period=resync_period,
            retry_on_error=False,
            process=process,
        )
    )
''')
r("refl.watch", "cache/reflector.py", ("""                if event["type"] == watch.EventType.ADDED:
                    try:
                        await self._store.add(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to add watch event object (%r) to store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.MODIFIED:
                    try:
                        await self._store.update(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to update watch event object (%r) to store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.DELETED:
                    try:
                        await self._store.delete(event["object"])
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        logger.error(
                            "unable to delete watch event object (%r) from store: %r",
                            event["object"],
                            e,
                        )
                elif event["type"] == watch.EventType.BOOKMARK:
                    pass
                else:
                    logger.error("unable to understand watch event object %r", event)
""",), """                operation = {
                    watch.EventType.ADDED: self._store.add,
                    watch.EventType.MODIFIED: self._store.update,
                    watch.EventType.DELETED: self._store.delete,
                }.get(event["type"])
                if operation is not None:
                    try:
                        await operation(event["object"])
                    except Exception as e:
                        logger.error("unable to apply watch event %r: %r", event, e)
                elif event["type"] != watch.EventType.BOOKMARK:
                    logger.error("unable to understand watch event object %r", event)
""")
r("refl.run", "cache/reflector.py", "Reflector.run", '''
async def run(self):
    logger.debug("Starting reflector %s", self._expected_type_name)
    while True:
        await self._list_and_watch_once()
        await asyncio.sleep(self._period)

async def _list_and_watch_once(self):
    try:
        await self.list_and_watch()
    except Exception as e:
        logger.error(repr(e))
''')
r("refl.sync", "cache/reflector.py", ("""        await self._sync_with(items, resource_version)
        self._set_last_sync_resource_version(resource_version)

        resync_error_queue = asyncio.Queue(maxsize=1)
""",), """        await self._store.replace(list(items), resource_version)
        self._last_sync_resource_version = resource_version
        resync_error_queue = asyncio.Queue()
""")
r("si.deltas", "cache/shared_informer.py", "_SharedIndexInformer.handle_deltas", '''
async def handle_deltas(self, obj):
    async with self._block_deltas:
        for d in obj:
            if d.type == delta_fifo.DeltaType.DELETED:
                await self._indexer.delete(d.object)
                notification, is_sync = _DeleteNotification(d.object), False
            else:
                notification, is_sync = await self._apply(d)
            await self._processor._distribute(notification, is_sync)

async def _apply(self, d):
    old = self._indexer.get(d.object)
    if old is None:
        await self._indexer.add(d.object)
        return _AddNotification(d.object), False
    same = (
        meta.accessor(d.object).resource_version == meta.accessor(old).resource_version
    )
    await self._indexer.update(d.object)
    notification = _UpdateNotification(old, d.object)
    return notification, same and d.type == delta_fifo.DeltaType.SYNC
''')
r("si.distribute", "cache/shared_informer.py", "_SharedProcessor._distribute", '''
async def _distribute(self, obj, sync):
    async with self._listeners_lock:
        listeners = self._syncing_listeners if sync else self._listeners
        for listener in list(listeners):
            await listener._add(obj)
''')
r("si.should", "cache/shared_informer.py", "_SharedProcessor._should_resync", '''
def _should_resync(self):
    now = self._clock.now()
    due = [listener for listener in self._listeners if listener._should_resync(now)]
    for listener in due:
        listener._determine_next_resync(now)
    self._syncing_listeners = due
    return bool(due)
''')
r("si.run", "cache/shared_informer.py", "_SharedProcessor._run", '''
async def _run(self, stop_event):
    async with self._listeners_lock:
        self._listeners_started = True
        for listener in self._listeners:
            self._start_locked(listener)
    await stop_event.wait()
    async with self._listeners_lock:
        for listener in self._listeners:
            listener._stop_add.set()
        for task in self._tasks:
            await task

def _start_locked(self, listener):
    for coro in (listener._run(), listener._pop()):
        self._tasks.append(asyncio.ensure_future(coro))
''')
r("si.addl", "cache/shared_informer.py", "_SharedProcessor._add_listener", '''
async def _add_listener(self, listener):
    async with self._listeners_lock:
        if self._listeners_started:
            self._start_locked(listener)
        self._listeners.append(listener)
''')
r("si.listener", "cache/shared_informer.py", "_ProcessListener._run", '''
async def _run(self):
    stop_next_task = asyncio.ensure_future(self._stop_next.wait())

    async def condition():
        while True:
            get_task = asyncio.ensure_future(self._next_queue.get())
            await asyncio.wait(
                [get_task, stop_next_task], return_when=asyncio.FIRST_COMPLETED
            )
            if self._stop_next.is_set():
                get_task.cancel()
                return True
            await self._notify(get_task.result())

    while True:
        try:
            await wait.exponential_backoff(retry.default_retry, condition)
            break
        except Exception:
            await asyncio.sleep(60)
    stop_next_task.cancel()

async def _notify(self, notification):
    if isinstance(notification, _AddNotification):
        await self._handler.on_add(notification.new_obj)
    elif isinstance(notification, _UpdateNotification):
        await self._handler.on_update(notification.old_obj, notification.new_obj)
    elif isinstance(notification, _DeleteNotification):
        await self._handler.on_delete(notification.old_obj)
    else:
        logger.error("unrecognized notification: %r", notification)
''')
r("fakesource.change", "cache/testing/fake_controller_source.py", "FakeControllerSource.change", '''
async def change(self, e, watch_probability):
    obj = e["object"]
    async with self._lock:
        accessor = meta.accessor(obj)
        accessor.resource_version = str(len(self._changes) + 1)
        key = self._key(accessor)
        if e["type"] == watch.EventType.DELETED:
            del self.items[key]
        elif e["type"] in (watch.EventType.ADDED, watch.EventType.MODIFIED):
            self.items[key] = obj
        self._changes.append(e)
        if random.random() >= watch_probability:
            return
        await self.broadcaster.action(e["type"], obj)
''')

# ---- meta
r("meta.gvk", "api/meta.py", "_ObjectAccessor.group_version_kind", '''
@property
def group_version_kind(self):
    api_version = self.api_version
    if "/" in api_version:
        group, version = api_version.split("/", 1)
    else:
        group, version = "", api_version
    return schema.GroupVersionKind(group, version, self.kind)
''')
r("meta.accessor", "api/meta.py", "accessor", '''
def accessor(obj):
    cls = _UnstructuredAccessor if isinstance(obj, dict) else _Accessor
    try:
        return cls(obj)
    except (AttributeError, KeyError):
        raise _NotObjectError
''')

# ---- controller
r("im.get", "controller/_informers_map.py", "_SpecificInformersMap.get", '''
async def get(self, gvk, obj):
    async with self._mutex:
        started = self._started
        informer = self._informers_by_gvk.get(gvk)
    if informer is None:
        informer = self._create(gvk, obj, started)
    if started:
        await self._wait_until_synced(informer, obj)
    return started, informer

def _create(self, gvk, obj, started):
    if self._stopped:
        raise Exception(f"the Informers have stopped, so none runs for {obj}")
    informer = self._add_informer_to_map(gvk, obj)
    if started:
        self._late_tasks.append(asyncio.ensure_future(informer.informer.run()))
    return informer

async def _wait_until_synced(self, informer, obj):
    has_synced = informer.informer.has_synced
    if has_synced():
        return
    if not await shared_informer.wait_for_cache_sync(has_synced):
        raise Exception(f"failed waiting for {obj} Informer to sync")
''')
r("im.resync", "controller/_informers_map.py", "_resync_period", '''
def _resync_period(resync):
    def period():
        return resync * random.uniform(0.9, 1.1)

    return period
''')
r("ctrl.item", "controller/controller.py", "_Controller._reconcile_handler", '''
async def _reconcile_handler(self, obj):
    if not isinstance(obj, reconcile.Request):
        self.queue.forget(obj)
        logger.error("queue item was not a Request")
        return True
    try:
        result = await self.reconcile(obj)
    except Exception:
        logger.exception("Reconciler error")
        await self.queue.add_rate_limited(obj)
        return False
    if result.requeue and not result.requeue_after:
        await self.queue.add_rate_limited(obj)
        return True
    self.queue.forget(obj)
    if result.requeue_after:
        await self.queue.add_after(obj, result.requeue_after)
    else:
        logger.info("Successfully reconciled")
    return True
''')
r("ctrl.worker", "controller/controller.py", "_Controller._worker", '''
async def _worker(self):
    more = True
    while more:
        more = await self._process_next_work_item()
''')
r("src", "controller/source.py", "EventHandler.on_update", '''
async def on_update(self, old_obj, new_obj):
    metas = []
    for obj in (old_obj, new_obj):
        try:
            metas.append(meta.accessor(obj))
        except Exception:
            logger.error("on_update missing meta")
            return
    update_event = event.UpdateEvent(
        meta_old=metas[0], object_old=old_obj, meta_new=metas[1], object_new=new_obj
    )
    if all(p.update(update_event) for p in self.predicates):
        await self.event_handler.update(update_event, self.queue)
''')
r("handler", "controller/handler.py", "EnqueueRequestForObject", '''
class EnqueueRequestForObject:
    async def create(self, event, queue):
        await self._enqueue(event.meta, queue, "CreateEvent received with no metadata")

    async def update(self, event, queue):
        await self._enqueue(event.meta_old, queue, "UpdateEvent received with no old metadata")
        await self._enqueue(event.meta_new, queue, "UpdateEvent received with no new metadata")

    async def delete(self, event, queue):
        await self._enqueue(event.meta, queue, "DeleteEvent received with no metadata")

    async def _enqueue(self, meta, queue, message):
        if not meta:
            logger.error(message)
            return
        name = reconcile.NamespacedName(name=meta.name, namespace=meta.namespace)
        await queue.add(reconcile.Request(name))
''')
r("mgr", "controller/manager.py", "_ControllerManager._start_non_leader_election_runnables", '''
async def _start_non_leader_election_runnables(self):
    tasks = []
    try:
        async with self._mutex:
            cache_task = await self._wait_for_cache()
            tasks.append(cache_task)
            tasks += [
                asyncio.ensure_future(runnable.start())
                for runnable in self._non_leader_election_runnables
            ]
        await _first_error(tasks)
    finally:
        await _stop(tasks)
''')
r("mgr2", "controller/manager.py", "_ControllerManager._wait_for_cache", '''
async def _wait_for_cache(self):
    if self._started:
        return
    task = asyncio.ensure_future(self._cache.start())
    try:
        await self._cache.wait_for_cache_sync()
    except BaseException:
        await _stop([task])
        raise
    self._started = True
    return task
''')
r("mgr3", "controller/manager.py", ("class _ControllerManager:",), '''async def _stop(tasks):
    for task in tasks:
        task.cancel()
    await asyncio.gather(*tasks, return_exceptions=True)


async def _first_error(tasks):
    done, _ = await asyncio.wait(tasks, return_when=asyncio.FIRST_EXCEPTION)
    for task in done:
        task.result()


class _ControllerManager:''')
r("reader", "controller/_cache_reader.py", "_object_key_to_store_key", '''
def _object_key_to_store_key(key):
    return f"{key.namespace}/{key.name}" if key.namespace else key.name
''')

# ---- leader election
r("le.try", "leaderelection/leaderelection.py", "LeaderElector._try_acquire_or_renew", '''
async def _try_acquire_or_renew(self):
    now = time.time()
    lock = self._config.lock
    try:
        old_record, old_raw_record = await lock.get()
    except Exception as e:
        logger.error("error retrieving resource lock %s: %r", lock.describe(), e)
        return False
    record = {
        "holderIdentity": lock.identity(),
        "leaseDurationSeconds": int(self._config.lease_duration),
        "renewTime": now,
        "acquireTime": now,
        "leaderTransitions": 0,
    }
    if old_record is None:
        write = lock.create
    else:
        self._observe(old_record, old_raw_record)
        if self.is_leader():
            for k in ("acquireTime", "leaderTransitions"):
                record[k] = old_record[k]
        elif self._held(old_record, now):
            logger.debug("lock is held and has not yet expired")
            return False
        else:
            record["leaderTransitions"] = old_record.get("leaderTransitions", 0) + 1
        write = lock.update
    try:
        await write(record)
    except Exception as e:
        logger.error("Failed to write lock: %r", e)
        return False
    self._observed_record = record
    self._observed_time = self._clock.now()
    return True

def _observe(self, record, raw_record):
    if self._observed_raw_record == raw_record:
        return
    self._observed_record = dict(record)
    self._observed_raw_record = raw_record
    self._observed_time = self._clock.now()

def _held(self, record, now):
    if not record.get("holderIdentity"):
        return False
    return now < self._observed_time + self._config.lease_duration
''')
r("le.acquire", "leaderelection/leaderelection.py", "LeaderElector._acquire", '''
async def _acquire(self):
    succeeded = False
    description = self._config.lock.describe()

    async def f():
        nonlocal succeeded
        succeeded = await self._try_acquire_or_renew()
        self._maybe_report_transition()
        if succeeded:
            logger.info("succesfully acquired lease %s", description)
            task.cancel()
        else:
            logger.debug("failed to acquire lease %s", description)

    loop = wait.jitter_loop(f, self._config.retry_period, JITTER_FACTOR, True)
    task = asyncio.ensure_future(loop)
    await asyncio.gather(task, return_exceptions=True)
    return succeeded
''')
r("lock.update", "leaderelection/resourcelock.py", "ConfigMapLock.update", '''
async def update(self, leader_election_record):
    if self._cm is None:
        raise Exception("configmap not initialized, call get or create first")
    metadata = self._cm.metadata
    annotations = dict(metadata.annotations or {})
    annotations[LEADER_ELECTION_RECORD_ANNOTATION_KEY] = json.dumps(leader_election_record)
    metadata.annotations = annotations
    self._cm = await self.client.replace_namespaced_config_map(
        self.config_map_meta.name, self.config_map_meta.namespace, self._cm
    )
''')
