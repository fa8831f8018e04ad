# Other primitives and timings of the event loop: events for polling, futures for queues, locks left out, extra yields.
def r(name, f, where, new):
    edits.append((name, f, where, new))


r("queue", "workqueue/queue.py", "Type", '''
class Type:
    """Waiters are futures, as nothing here awaits between a read and a write."""

    def __init__(self, c, *, update_period=_DEFAULT_UNFINISHED_WORK_UPDATE_PERIOD):
        self._clock = c
        self._unfinished_work_update_period = update_period
        self._queue = collections.OrderedDict()
        self._processing = {}
        self._waiters = collections.deque()
        self._shutting_down = False

    def __len__(self):
        return len(self._queue)

    def _wake(self, n=1):
        while self._waiters and n:
            w = self._waiters.popleft()
            if not w.done():
                w.set_result(None)
                n -= 1

    async def add(self, item):
        if self._shutting_down:
            return
        if item in self._processing:
            self._processing[item] = True
        elif item not in self._queue:
            self._queue[item] = None
            self._wake()

    async def get(self):
        while not self._queue:
            if self._shutting_down:
                return None, True
            w = asyncio.get_running_loop().create_future()
            self._waiters.append(w)
            try:
                await w
            except asyncio.CancelledError:
                if w.done() and not w.cancelled():
                    self._wake()
                raise
        item, _ = self._queue.popitem(last=False)
        self._processing[item] = False
        return item, False

    async def done(self, item):
        if self._processing.pop(item):
            self._queue[item] = None
            self._wake()

    async def shut_down(self):
        self._shutting_down = True
        self._wake(-1)

    def shutting_down(self):
        return self._shutting_down
''')
r("fifo", "cache/fifo.py", "FIFO.pop", '''
async def pop(self, process):
    while True:
        async with self._lock:
            await self._cond.wait_for(lambda: self._queue or self._closed)
            if not self._queue:
                raise FIFOClosedError
            id_ = self._queue.pop(0)
            self._initial_population_count = max(0, self._initial_population_count - 1)
            if id_ in self._items:
                return self._process(id_, self._items.pop(id_), process)

def _process(self, id_, item, process):
    try:
        process(item)
    except RequeueError as e:
        self._add_if_not_present(id_, item)
        if e.__cause__:
            raise ProcessError(item) from e.__cause__
    except Exception as e:
        raise ProcessError(item) from e
    return item
''')
r("delta.keys", "cache/delta_fifo.py", ("        self._queue = []\n",), "        self._queue = collections.deque()\n")
r("delta.keys", "cache/delta_fifo.py", ("self._queue.pop(0)",), "self._queue.popleft()")
r("delta.keys", "cache/delta_fifo.py", ("import asyncio\n",), "import asyncio\nimport collections\n")
r("delta.wait", "cache/delta_fifo.py", ("""                while not self._queue:
                    if self.is_closed():
                        raise fifo.FIFOClosedError
                    await self._cond.wait()
""",), """                await self._cond.wait_for(lambda: self._queue or self._closed)
                if not self._queue:
                    raise fifo.FIFOClosedError
""")
r("resync", "cache/reflector.py", ("""        async def resync():
            resync_queue, cleanup = self._resync_queue()
            try:
                while True:
                    await resync_queue.get()
                    try:
                        if self.should_resync is None or self.should_resync():
                            logger.debug("forcing resync")
                            await self._store.resync()
                    except asyncio.CancelledError:
                        raise
                    except Exception as e:
                        await resync_error_queue.put(e)
                        return
                    cleanup()
                    resync_queue, cleanup = self._resync_queue()
            finally:
                cleanup()
""",), """        async def resync():
            while True:
                resync_queue, cleanup = self._resync_queue()
                try:
                    await resync_queue.get()
                finally:
                    cleanup()
                try:
                    if self.should_resync is not None and not self.should_resync():
                        continue
                    logger.debug("forcing resync")
                    await self._store.resync()
                except Exception as e:
                    resync_error_queue.put_nowait(e)
                    break
""")
r("handler", "cache/reflector.py", ("""                event_task = asyncio.ensure_future(event_queue.get())
                done, _ = await asyncio.wait(
                    [event_task, error_task], return_when=asyncio.FIRST_COMPLETED
                )
                if error_task in done:
                    raise await error_task
                event = await event_task
""",), """                event_task = asyncio.create_task(event_queue.get())
                await asyncio.sleep(0)
                await asyncio.wait(
                    {event_task, error_task}, return_when=asyncio.FIRST_COMPLETED
                )
                if error_task.done():
                    raise error_task.result()
                event = event_task.result()
""")
r("listener", "cache/shared_informer.py", "_ProcessListener._add", '''
async def _add(self, notification):
    self._pending_notifications.append(notification)
    self._wake.set()
''')
r("listener", "cache/shared_informer.py", "_ProcessListener._pop", '''
async def _pop(self):
    stop = asyncio.ensure_future(self._stop_add.wait())
    try:
        while not self._stop_add.is_set():
            if not self._pending_notifications:
                self._wake.clear()
                wake = asyncio.ensure_future(self._wake.wait())
                await asyncio.wait([wake, stop], return_when=asyncio.FIRST_COMPLETED)
                wake.cancel()
                continue
            notification = self._pending_notifications.popleft()
            put = asyncio.ensure_future(self._next_queue.put(notification))
            await asyncio.wait([put, stop], return_when=asyncio.FIRST_COMPLETED)
            put.cancel()
    finally:
        self._stop_next.set()
        stop.cancel()
''')
r("listener", "cache/shared_informer.py", ("        self._stop_add = asyncio.Event()\n",), "        self._stop_add = asyncio.Event()\n        self._wake = asyncio.Event()\n")
r("si.stop", "cache/shared_informer.py", ("            await asyncio.gather(*self._tasks)\n",), "            await asyncio.wait(self._tasks or [asyncio.ensure_future(asyncio.sleep(0))])\n")
r("si.nolock", "cache/shared_informer.py", "_SharedProcessor._distribute", '''
async def _distribute(self, obj, sync):
    async with self._listeners_lock:
        await asyncio.gather(
            *(x._add(obj) for x in (self._syncing_listeners if sync else self._listeners))
        )
''')
r("sync", "cache/shared_informer.py", "wait_for_cache_sync", '''
async def wait_for_cache_sync(*cache_syncs):
    pending = list(cache_syncs)
    while True:
        pending = [f for f in pending if not f()]
        if not pending:
            logger.debug("caches populated")
            return True
        await asyncio.sleep(_SYNCED_POLL_PERIOD)
''')
r("ctl", "cache/controller.py", "_Controller.run", '''
async def run(self):
    r = reflector.Reflector(
        self._config.lister_watcher,
        self._config.object_type,
        self._config.queue,
        self._config.full_resync_period,
    )
    r.should_resync = self._config.should_resync
    r._clock = self._clock
    self._reflector = r

    task = asyncio.create_task(r.run())
    try:
        while True:
            await self._process_loop()
            await asyncio.sleep(1)
    finally:
        task.cancel()
        await self._config.queue.close()
        await asyncio.wait([task])
''')
r("timer", "util/_time.py", "Timer", '''
class Timer:
    def __init__(self, d):
        self.c = asyncio.Queue(maxsize=1)
        self._handle = asyncio.get_running_loop().call_later(d, self._fire)

    def _fire(self):
        self.c.put_nowait(time.time())

    def stop(self):
        self._handle.cancel()
''')
r("until", "util/wait.py", "jitter_until", '''
async def jitter_until(f, period, jitter_factor, sliding, stop_event):
    while not stop_event.is_set():
        delay = jitter(period, jitter_factor) if jitter_factor > 0 else period
        start = asyncio.get_running_loop().time()
        await f()
        if not sliding:
            delay = max(0, start + delay - asyncio.get_running_loop().time())
        try:
            await asyncio.wait_for(stop_event.wait(), delay)
        except asyncio.TimeoutError:
            pass
''')
r("loop", "util/wait.py", "jitter_loop", '''
async def jitter_loop(f, period, jitter_factor, sliding):
    while True:
        delay = jitter(period, jitter_factor) if jitter_factor > 0 else period
        start = asyncio.get_running_loop().time()
        await f()
        if not sliding:
            delay -= asyncio.get_running_loop().time() - start
        await asyncio.sleep(max(0, delay))
''')
r("poll", "util/wait.py", "poll", '''
async def poll(interval, timeout, condition):
    task = asyncio.ensure_future(poll_infinite(interval, condition))
    timer = asyncio.ensure_future(asyncio.sleep(timeout))
    try:
        await asyncio.wait([task, timer], return_when=asyncio.FIRST_COMPLETED)
        finished = task.done()
    finally:
        timer.cancel()
        task.cancel()
        await asyncio.gather(task, timer, return_exceptions=True)
    if not finished:
        raise WaitTimeoutError
    task.result()
''')
r("mux.stop", "watch/mux.py", "_BroadcasterWatcher.stop", '''
async def stop(self):
    if self._stopped.is_set():
        return
    self._end()
    await asyncio.sleep(0)
    await self._m._stop_watching(self._id)
''')
r("mux.block", "watch/mux.py", "Broadcaster._block_queue", '''
async def _block_queue(self, f):
    finished = asyncio.get_running_loop().create_future()
    state = {"begun": False, "wanted": True}

    async def func():
        state["begun"] = True
        try:
            if state["wanted"]:
                await f()
        finally:
            if not finished.done():
                finished.set_result(None)

    await self._incoming.put(
        {
            "type": _INTERNAL_RUN_FUNCTION_MARKER,
            "object": _FunctionFakeRuntimeObject(func),
        }
    )
    try:
        await asyncio.shield(finished)
    except asyncio.CancelledError:
        state["wanted"] = False
        if state["begun"]:
            await asyncio.shield(finished)
        raise
''')
r("ctrl", "controller/controller.py", "_Controller.start", '''
async def start(self):
    self.queue = self.make_queue()
    tasks = []
    try:
        async with self._mutex:
            for source, handler, predicates in self._watches:
                await source.start(handler, self.queue, *predicates)
            if not await self.cache.wait_for_cache_sync():
                raise Exception("failed to wait for caches to sync")
            for _ in range(self.max_concurrent_reconciles):
                tasks.append(asyncio.create_task(self._work()))
        await asyncio.wait(tasks, return_when=asyncio.FIRST_EXCEPTION)
        for task in tasks:
            task.result()
    finally:
        for task in tasks:
            task.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
        await self.queue.shut_down()

async def _work(self):
    while True:
        await self._worker()
        await asyncio.sleep(self.jitter_period)
''')
r("im", "controller/_informers_map.py", "_SpecificInformersMap.start", '''
async def start(self):
    tasks = self._late_tasks
    async with self._mutex:
        for entry in self._informers_by_gvk.values():
            tasks.append(asyncio.ensure_future(entry.informer.run()))
        self._started = True
    try:
        await asyncio.Event().wait()
    finally:
        self._stopped = True
        for task in tasks:
            task.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
''')
r("le.renew", "leaderelection/leaderelection.py", "LeaderElector._renew", '''
async def _renew(self, leading_task):
    try:
        while await self._renew_once():
            await asyncio.sleep(self._config.retry_period)
    finally:
        # The lock is given up only after the leader was told to stop.
        leading_task.cancel()
        if self._config.release_on_cancel:
            await self._release()

async def _renew_once(self):
    try:
        async with asyncio.timeout(self._config.renew_deadline):
            while not await self._try_acquire_or_renew():
                await asyncio.sleep(self._config.retry_period)
        return True
    except Exception as e:
        logger.info("failed to renew lease: %r", e)
        return False
    finally:
        self._maybe_report_transition()
''')
r("le.acquire", "leaderelection/leaderelection.py", "LeaderElector._acquire", '''
async def _acquire(self):
    while True:
        if await self._try_acquire_or_renew():
            self._maybe_report_transition()
            return True
        self._maybe_report_transition()
        await asyncio.sleep(wait.jitter(self._config.retry_period, JITTER_FACTOR))
''')
