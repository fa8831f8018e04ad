"""Single source of the property texts.  `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


# ------------------------------------------------------------------ stores and queues
prop(
    "C01",
    "Indexed store lookups always match its contents",
    "After any sequence of adds, updates, deletes, replacements and index registrations, an indexed store returns for "
    "every key the object last written under it (nothing for deleted or replaced-away keys), and every index query "
    "returns exactly the stored objects whose index function yields a queried value, each once. This holds for index "
    "functions that yield no, several or repeated values, and a value that no stored object carries any more is no "
    "longer listed. Index functions can be registered while the store is empty unless a name is already taken, and a "
    "rejected call (name taken, store not empty, object without a key) changes nothing.",
    ["inputs", "histories"],
    "every operation sequence up to a bounded length over 2-3 keys and objects with 0-3 (also repeated, also shared) index values and two index functions",
    "the tests walk three fixed histories with single or distinct index values; none registers an index later, repeats a value or replaces an indexed store",
    ["aiok8s/cache/thread_safe_store.py", "aiok8s/cache/store.py", "aiok8s/cache/index.py"],
    [("index maintenance on every write", "aiok8s/cache/thread_safe_store.py _update_indices/_delete_from_indices"), ("key derivation and error wrapping", "aiok8s/cache/store.py")],
    ["store.new_store/new_indexer: get, get_by_key, list, list_keys, index, index_keys, by_index, list_index_func_values, add_indexers"],
)
prop(
    "C02",
    "The FIFO hands out each waiting key once, newest state, in arrival order",
    "A pop of the plain FIFO hands out a waiting key together with the object most recently queued under it, each key "
    "once per waiting period, and (in histories without deletions) in the order in which the keys started waiting. "
    "Deleted keys are never handed out, deleting an absent key has no effect, a replacement makes the waiting keys "
    "exactly those of the list, and adding-if-absent never overrides a waiting object; an object without a key is rejected and changes nothing. A processing callback that asks "
    "for a requeue puts the item back unless a newer object is waiting, one that fails makes the pop fail with that item, and a pop on a "
    "closed queue still drains it before it reports closure.",
    ["histories", "inputs"],
    "every operation sequence up to a bounded length over two or three keys, every callback outcome",
    "the tests run a handful of fixed sequences and never delete from the FIFO, replace it twice, or resync it",
    ["aiok8s/cache/fifo.py"],
    [("id queue plus latest-object map", "aiok8s/cache/fifo.py FIFO"), ("requeue and error wrapping in pop", "aiok8s/cache/fifo.py FIFO.pop")],
    ["FIFO.add/update/delete/add_if_not_present/replace/resync/pop/get/get_by_key/list/list_keys/close"],
)
prop(
    "C03",
    "The delta queue hands out every recorded change of a key, once, in order",
    "Each pop of the delta queue hands out, for the key that has been waiting longest, the complete list of changes "
    "recorded for that key since it was last handed out, oldest first and with the objects as given, except that "
    "adjacent deletions collapse into one that keeps a real object in preference to a tombstone. A deletion of a key "
    "that neither the queue nor the backing store knows is ignored, a requeued or re-added item never overrides newer "
    "changes, and a failing callback makes the pop fail with exactly the item it was given. What a read of the queue "
    "returned is never altered by later operations.",
    ["histories", "inputs"],
    "every operation sequence up to a bounded length over two keys, with and without a backing store, every callback outcome",
    "the tests check a dozen fixed sequences, mostly one key at a time; combinations of requeue, failure, deletion and re-adding are not reached",
    ["aiok8s/cache/delta_fifo.py"],
    [("delta accumulation and deduplication", "aiok8s/cache/delta_fifo.py _queue_action_locked/_dedup_deltas"), ("pop/requeue", "aiok8s/cache/delta_fifo.py DeltaFIFO.pop")],
    ["DeltaFIFO.add/update/delete/add_if_not_present/pop/get/get_by_key/list/list_keys"],
)
prop(
    "C04",
    "Applying the delta queue after a relist yields exactly the listed state",
    "Whatever was pending or stored before, once a relist has been put into the delta queue a consumer that applies "
    "everything it pops to the backing store ends up with exactly the listed objects: keys missing from the list are deleted "
    "by a tombstone carrying the last known object, also when they were only pending, and listed keys survive pending "
    "deletions. A resync queues the stored object again for exactly those stored keys that have nothing pending, and nothing else.",
    ["histories"],
    "every sequence of changes, pops, relists (of every subset) and resyncs up to a bounded length over two or three keys, with the backing store maintained by the consumer or absent",
    "the tests relist against a constant fake lister, with at most one pending change, and never apply what they pop",
    ["aiok8s/cache/delta_fifo.py"],
    [("deletion detection in replace", "aiok8s/cache/delta_fifo.py DeltaFIFO.replace"), ("resync guard", "aiok8s/cache/delta_fifo.py _sync_key_locked")],
    ["DeltaFIFO.replace/resync/pop with a store.new_store as known_objects"],
)
prop(
    "C05",
    "Queues report synced exactly when the initial batch has been handed out",
    "A FIFO or delta queue does not report being synced before its first change, nor while any item of an initial relist is "
    "still waiting to be handed out; it does report it when the first change was not a relist, when the initial relist was empty, and "
    "as soon as a consumer has drained the queue after the initial relist, whatever else was added, deleted or relisted in between. Once synced, it stays synced.",
    ["histories", "inputs"],
    "every operation sequence up to a bounded length, lists with repeated keys included, for both queue types",
    "the tests use one relist followed only by pops",
    ["aiok8s/cache/fifo.py", "aiok8s/cache/delta_fifo.py"],
    [("initial population counter", "FIFO/DeltaFIFO replace and pop")],
    ["FIFO.has_synced", "DeltaFIFO.has_synced"],
)
prop(
    "C06",
    "Concurrent queue producers and consumers act atomically and always wake",
    "Operations that run concurrently on one FIFO or delta queue have the results of some order of running them one at a time, "
    "where a delta-queue pop includes its processing callback: no other change takes effect while an item is being processed. A pop that waits "
    "returns as soon as there is an item for it and reports closure once the queue is closed and drained, with any number of "
    "waiting consumers. Cancelling a waiting pop, or a callback that fails, neither loses an item nor leaves another consumer waiting.",
    ["schedules"],
    "all interleavings of 2-3 tasks with 1-3 operations each, within a bound on early (non-quiescent) environment events, including cancellation",
    "the tests run one producer and one consumer in the default order of the event loop",
    ["aiok8s/cache/fifo.py", "aiok8s/cache/delta_fifo.py"],
    [("condition variable and lock held over processing", "FIFO.pop / DeltaFIFO.pop"), ("notify on every enqueue and on close", "FIFO/DeltaFIFO")],
    ["FIFO and DeltaFIFO call/return histories"],
)
# ------------------------------------------------------------------ reflector
prop(
    "R01",
    "The reflected store converges to the server after any faults",
    "After any finite sequence of failed lists, failed watch requests, watches that close, raise, report an error or have expired, "
    "and concurrent server-side changes, a running reflector brings its store to exactly the server's current objects within "
    "bounded time once the faults end. It never wedges and needs no restart, and list, watch or store failures never terminate it.",
    ["fault_sequences", "histories"],
    "all server histories of a few changes over two keys, all placements of up to two or three faults on list and watch calls and on the stream, all positions of changes relative to list and watch",
    "the tests script one fixed fault table and call the list-and-watch step once per row; streams that raise are never tried",
    ["aiok8s/cache/reflector.py", "aiok8s/cache/list_watch.py"],
    [("relist loop", "aiok8s/cache/reflector.py Reflector.run/list_and_watch"), ("watch error handling", "Reflector._watch_handler")],
    ["Reflector.run with a fake API server and a recording store"],
)
prop(
    "R02",
    "Watches resume exactly where the last list or event left off",
    "The events of a watch are applied to the store in order, each exactly once, by the operation that matches their type, and bookmarks change nothing but the "
    "version. Every watch request asks for the version of the last event delivered since the most recent list, or of that list, and a watch that ended normally "
    "after delivering events is resumed without a new list. The last synced version reported is always that of the last list or event applied.",
    ["histories", "fault_sequences"],
    "all server histories, stream cut positions and faults within the bounds of R01",
    "one test checks two watches cut at one position",
    ["aiok8s/cache/reflector.py"],
    [("resource version bookkeeping", "Reflector._watch_handler / list_and_watch")],
    ["watch options, store calls and Reflector.last_sync_resource_version"],
)
prop(
    "R03",
    "Only well-formed events of the expected type reach the store",
    "A watch event whose object is not of the expected class or not of the expected group, version and kind, that has no readable metadata, or whose type is unknown "
    "changes nothing in the store and neither ends the watch nor affects the events around it; events of the expected type are always applied, "
    "be they typed or untyped, namespaced or cluster-scoped, of a named or of the core API group. A store that rejects one event does not stop later ones.",
    ["inputs", "histories"],
    "every sequence of up to three events from an alphabet of well-formed and malformed events, for every kind of expected type, in every position",
    "one test sends one event of a wrong class; group/version/kind filtering is only tested as construction",
    ["aiok8s/cache/reflector.py", "aiok8s/api/meta.py", "aiok8s/runtime/schema.py"],
    [("type and kind filters", "Reflector._watch_handler"), ("metadata accessors", "aiok8s/api/meta.py")],
    ["store contents, list and watch calls after each event"],
)
prop(
    "R04",
    "A reflector holds one watch at a time and stops completely when cancelled",
    "A running reflector never has two watches open, and closes every watch it opened when that watch ends for whatever reason: normal end, error, resync failure "
    "or cancellation at any moment. Once its run is cancelled it ends with cancellation and afterwards issues no list or watch request, no store operation and no resync.",
    ["schedules", "fault_sequences"],
    "cancellation at every event-loop step of runs with lists, watches, events, resyncs and faults",
    "one test cancels at one moment and looks at one watch",
    ["aiok8s/cache/reflector.py"],
    [("task cleanup in finally blocks", "Reflector.list_and_watch / _watch_handler")],
    ["open/close calls on the fake watch, calls after cancellation"],
)
prop(
    "R05",
    "Resyncs run once per period when allowed, and their failure forces a relist",
    "While a reflector with a resync period runs, it asks the gate once per elapsed period and resyncs the store exactly when there is no gate or the gate agrees, also across "
    "watches that end and resume, and never when the period is zero. A resync that fails ends the current watch and leads to a new list; after that, and after a gate that raises, resyncs continue.",
    ["schedules", "fault_sequences"],
    "all placements of watch ends, gate answers and resync failures over several periods",
    "one test waits for two resyncs in real time with an idle watch and no gate",
    ["aiok8s/cache/reflector.py"],
    [("resync task and error queue", "Reflector.list_and_watch"), ("timer", "Reflector._resync_queue")],
    ["times of gate and resync calls, list calls"],
)
# ------------------------------------------------------------------ informers
prop(
    "I01",
    "Informer cache and handler agree and converge to the server",
    "For any history of server changes, lists, dropped watches and relists, an informer's cache becomes equal to the server's objects once the server is quiet and reachable. "
    "Its handler is told of every cache change in order and after it happened: an add for a key that was not cached, an update with the previously cached object for one that was, a delete "
    "(with the last state or a tombstone naming the key) when it leaves; so replaying the notifications always reproduces the cache. With a resync period it is sent an update of every cached object in each period. A handler made of functions is told what it has functions for.",
    ["histories", "fault_sequences", "schedules"],
    "all bounded server histories over two keys with all placements of watch drops, relists and consumer delays within the bounds",
    "the tests hammer with random changes and check only the set of allowed transitions",
    ["aiok8s/cache/controller.py", "aiok8s/cache/delta_fifo.py", "aiok8s/cache/reflector.py", "aiok8s/cache/store.py"],
    [("delta processing", "aiok8s/cache/controller.py _new_informer.process"), ("process loop", "aiok8s/cache/controller.py _Controller")],
    ["new_informer: store contents and handler calls"],
)
prop(
    "I02",
    "Every shared-informer handler sees one consistent history",
    "Every handler of a shared informer, whenever it was registered, is told for each object first one add, then updates whose old object is the version it was last told of, and a delete "
    "last (possibly followed by a new add), in the order in which the cache changed. Once things are quiet every handler's view equals the cache, whatever handlers asked for resyncs "
    "and whether changes came through a watch or were found by a relist.",
    ["schedules", "histories", "fault_sequences"],
    "all bounded histories, relists, handler registration moments and handler delays within the bounds, with and without resyncing handlers",
    "the tests only count the names of initially listed objects and of resyncs",
    ["aiok8s/cache/shared_informer.py", "aiok8s/cache/controller.py", "aiok8s/cache/delta_fifo.py"],
    [("distribution under a lock", "aiok8s/cache/shared_informer.py _SharedProcessor._distribute"), ("replay of the cache to late handlers", "_SharedIndexInformer.add_event_handler"), ("notification buffer", "_ProcessListener")],
    ["handler call logs, indexer contents"],
)
prop(
    "I03",
    "A slow or failing handler affects no one else",
    "A handler that is slow or never returns delays neither the shared informer's cache nor the notifications of other handlers, however many notifications pile up for it, and none of them is lost or "
    "reordered. A handler that raises is still given every later notification, in order, within a bounded pause, and never causes another handler to miss one.",
    ["schedules", "fault_sequences"],
    "every placement of a block or failure in bounded notification sequences to two handlers, within the scheduling bound",
    "no test has a handler that blocks or raises",
    ["aiok8s/cache/shared_informer.py"],
    [("unbounded buffer between distribution and handler", "_ProcessListener._pop"), ("retry around the handler loop", "_ProcessListener._run")],
    ["handler call logs, indexer contents"],
)
prop(
    "I04",
    "Resync notifications go to the handlers that asked, at their period",
    "A handler registered with a resync period is sent an update of every cached object whenever at least its period has passed since its last resync, at the informer's next resync "
    "check and not before; a handler with period zero is never sent a resync. Periods below one second count as one second, and on a running informer periods shorter than its check period count as the check period. An informer whose own default period is zero sends no resyncs to anyone, and what a relist finds unchanged may be sent like a resync.",
    ["configurations", "histories"],
    "all combinations of default and handler periods from a small set for up to three handlers registered before or after start, over a bounded span of time",
    "one test steps a fake clock through one fixed configuration",
    ["aiok8s/cache/shared_informer.py", "aiok8s/cache/reflector.py"],
    [("period negotiation", "_SharedIndexInformer.add_event_handler/_determine_resync_period"), ("due check", "_SharedProcessor._should_resync")],
    ["times of update notifications per handler"],
)
prop(
    "I05",
    "Informers report synced truthfully and stop completely",
    "An informer, or the wait for several informers' caches, reports synced only once every object of the initial list is in the cache, and does so eventually, and the resource version of the last list or event, which is empty before the start. When its run is cancelled at any moment it "
    "ends, closes its watch, and afterwards neither the cache changes nor handlers are called; a handler registered after that is never called, and index functions can be added only before the start.",
    ["schedules"],
    "cancellation at every event-loop step of bounded runs; every interleaving of handler registration with start and stop",
    "one test cancels right after starting and checks nothing",
    ["aiok8s/cache/shared_informer.py", "aiok8s/cache/controller.py"],
    [("stop sequence", "_SharedIndexInformer.run / _SharedProcessor._run / _Controller.run"), ("has_synced", "DeltaFIFO.has_synced via controller")],
    ["has_synced, wait_for_cache_sync, handler calls and cache after cancellation"],
)
prop(
    "I06",
    "An informer's controller processes every change and retries as configured",
    "An informer's controller hands its process function one item at a time, each with changes of one key, whether earlier ones failed or not; a failing item disturbs nothing else. With retries on, or when the function asks for a requeue, a failed item's "
    "changes are handed out again until they succeed, whatever resyncs or further changes come between, so what was processed ends up equal to the server. With retries off a failed item isn't repeated. Cancelling the controller stops everything it started.",
    ["schedules", "fault_sequences"],
    "all placements of bounded numbers of failing process calls among bounded programs of server changes, faults and resyncs, with every order of concurrent tasks within the bound, retries on and off",
    "the tests use one process function that never fails",
    ["aiok8s/cache/controller.py", "aiok8s/cache/delta_fifo.py"],
    [("process loop and requeueing", "aiok8s/cache/controller.py _Controller._process_loop"), ("requeue inside pop", "aiok8s/cache/delta_fifo.py DeltaFIFO.pop")],
    ["calls of the process function and their changes, the store they build, has_synced"],
)
# ------------------------------------------------------------------ work queues
prop(
    "W01",
    "A work queue deduplicates and never hands one item to two workers",
    "An item is never handed to a worker while another worker is still processing it; any number of adds of a waiting item lead to one hand-out, and adds made while it is processed to exactly one more "
    "hand-out after it is marked done. Items are handed out in the order in which they became available, and concurrent operations have the results of some order of running them one at a time.",
    ["schedules", "histories"],
    "all interleavings of producers and workers over two items within the scheduling bound, and all sequential operation sequences up to a bounded length",
    "the stress tests only check that workers terminate; their counters are never asserted",
    ["aiok8s/workqueue/queue.py"],
    [("dirty and processing sets", "aiok8s/workqueue/queue.py Type")],
    ["add/get/done/len/shut_down call histories"],
)
prop(
    "W02",
    "No worker waits in vain, and shutdown releases everyone",
    "A worker waiting for an item gets one as soon as an item is available for it, even if other waiting workers are cancelled at that very moment. After shutdown of any of the queue kinds (plain, delaying, rate-limited) "
    "items already queued or marked dirty are still handed out, later additions are ignored without blocking, and then every waiting and every later worker is told to stop.",
    ["schedules", "histories"],
    "all interleavings of producers, workers, worker cancellations and a shutdown within the scheduling bound, for each queue kind",
    "the tests shut down only the plain queue, at one moment, and never cancel a waiting worker",
    ["aiok8s/workqueue/queue.py", "aiok8s/workqueue/delaying_queue.py", "aiok8s/workqueue/rate_limiting_queue.py"],
    [("condition notifications", "aiok8s/workqueue/queue.py"), ("shutdown", "aiok8s/workqueue/delaying_queue.py shut_down")],
    ["get results and blocked gets at quiescence"],
)
prop(
    "W03",
    "Delayed items come out once, never early and on time",
    "An item added with a delay is handed out no earlier than the delay after the call and as soon as it has passed, for any number of pending items and any order of deadlines. Several pending delayed additions of one item "
    "lead to one hand-out at the earliest of their deadlines, non-positive delays act at once, and no addition is lost.",
    ["schedules", "inputs", "histories"],
    "all sequences of up to four delayed additions of two or three items with delays from a small set (beyond the heartbeat included) at all relative times, with time jumps and early events within the bound",
    "the tests step a fake clock through four fixed scenarios",
    ["aiok8s/workqueue/delaying_queue.py", "aiok8s/util/clock.py", "aiok8s/util/_time.py"],
    [("waiting loop and priority queue", "aiok8s/workqueue/delaying_queue.py")],
    ["times at which get returns each item"],
)
prop(
    "W04",
    "Rate limiters compute exactly the documented delays",
    "The per-item limiter answers base delay times two to the number of earlier failures of that item, capped at the maximum, for any number of failures, independently per item and from scratch after the item is forgotten. "
    "The bucket limiter answers the wait of a token bucket of the given rate and burst that starts full, whatever the spacing of calls (a clock set back counts as no time passed), and the combined limiter answers the largest of its parts while informing all of them.",
    ["inputs", "histories"],
    "all call sequences up to a bounded length over two items and several time steps, for several parameter sets, and all failure counts up to 1200",
    "the tests check two parameter sets at a few counts and single token computations by setting private fields",
    ["aiok8s/workqueue/default_rate_limiters.py"],
    [("exponential and bucket computations", "aiok8s/workqueue/default_rate_limiters.py")],
    ["when, forget, num_requeues"],
)
prop(
    "W05",
    "The rate-limited queue re-adds items after their limiter's delay",
    "An item added with rate limiting becomes available once, exactly after the delay its limiter gave for that call (the earliest, if several are pending), and the requeue count reported is the number of rate-limited additions since it was last forgotten. "
    "Forgetting resets the delay but neither removes the item from the queue nor cancels a pending addition.",
    ["histories", "inputs"],
    "all sequences of rate-limited additions, forgets, hand-outs and time steps up to a bounded length over two items, for each limiter",
    "the only test disables the waiting loop and looks at internal entries",
    ["aiok8s/workqueue/rate_limiting_queue.py", "aiok8s/workqueue/delaying_queue.py", "aiok8s/workqueue/default_rate_limiters.py"],
    [("composition of limiter and delaying queue", "aiok8s/workqueue/rate_limiting_queue.py")],
    ["times at which get returns each item, num_requeues"],
)
# ------------------------------------------------------------------ watch
prop(
    "M01",
    "A blocking broadcaster delivers every event to every watcher, in order",
    "With the blocking policy, every watcher receives every event published after its registration completed, exactly once and in publication order, preceded by its prefix events if it has any and by none published before its registration was requested, until it stops; events published before a shutdown are still delivered before its iteration ends. "
    "This holds for every buffer size, zero included, and every pace of the watchers, and a watcher that stops never blocks or truncates what others receive.",
    ["schedules", "configurations"],
    "all interleavings of a publisher, registrations, two or three readers and stops within the scheduling bound, buffer sizes 0-2, prefix lengths 0-2",
    "the tests run two eager readers once in the default order",
    ["aiok8s/watch/mux.py"],
    [("serial distribution loop", "aiok8s/watch/mux.py Broadcaster._loop/_distribute")],
    ["sequence of events each watcher iterates"],
)
prop(
    "M02",
    "A dropping broadcaster never blocks and drops only on full buffers",
    "With the dropping policy, publishing and distribution never wait for a watcher, and each watcher receives, in order and at most once, every event except those published while its buffer was full. "
    "A watcher that keeps up therefore misses nothing, whatever the others do, and its prefix events are never dropped.",
    ["schedules", "configurations"],
    "all interleavings within the scheduling bound, buffer sizes 1-2, prefix lengths 0-2",
    "one test with two readers that start reading after everything was published",
    ["aiok8s/watch/mux.py"],
    [("non-blocking put", "aiok8s/watch/mux.py Broadcaster._distribute")],
    ["events received versus buffer occupancy in a reference model"],
)
prop(
    "M03",
    "Stopping watchers and shutting down never hangs or loses buffered events",
    "Stopping a watcher, from any task, at any moment and any number of times, ends its iteration and frees the broadcaster from it; leaving its context does the same. A shutdown completes once the published events are with their watchers or in their buffers, and not before, after which every watcher's iteration ends. "
    "Cancelling a pending read of a watcher loses no event, and cancelling a registration leaves no watcher behind that could block others.",
    ["schedules"],
    "all interleavings of reads, read cancellations, stops, publishes and shutdown within the scheduling bound, both policies",
    "the tests stop watchers at two fixed moments and never cancel a read",
    ["aiok8s/watch/mux.py"],
    [("stop and close handling", "aiok8s/watch/mux.py _BroadcasterWatcher / Broadcaster._close_all")],
    ["completion of stop, shutdown and iteration; events after a cancelled read"],
)
# ------------------------------------------------------------------ util
prop(
    "U01",
    "Backoff follows its schedule and gives up after its steps",
    "A backoff with N steps yields the initial duration multiplied by the factor per step, held at the cap from when it is exceeded and unchanged after the steps are used up, each stretched by at most the jitter fraction and never shrunk. "
    "Retrying with a backoff calls the condition at most N times, sleeping for those durations in between, stops at the first success or error, reports a timeout otherwise (right after the N-th call), and leaves the given backoff unchanged for the next use.",
    ["inputs", "histories"],
    "all parameter combinations from a small grid, all condition outcome sequences, random values at both ends of their range",
    "the tests check seven parameter rows and four outcome patterns without looking at the sleeps",
    ["aiok8s/util/wait.py", "aiok8s/util/retry.py"],
    [("Backoff.step / exponential_backoff", "aiok8s/util/wait.py")],
    ["step values, call times"],
)
prop(
    "U02",
    "Periodic loops keep their period, never overlap and stop when told",
    "The periodic helpers run the function at once and then repeatedly, never concurrently with itself, waiting the period (stretched by at most the jitter factor, never shrunk) after it returned, or counted from its start if not sliding. "
    "The stoppable variants start no run after the stop event is set, also when it was set beforehand, and return as soon as it is set without waiting out the period; an error of the function ends the loop and is passed on.",
    ["schedules", "inputs"],
    "all function durations, periods, jitter settings, failures and stop moments from small sets, with early events within the bound",
    "the tests check that the loop runs at least once or twice and eventually stops",
    ["aiok8s/util/wait.py", "aiok8s/util/_time.py"],
    [("jitter_loop/jitter_until", "aiok8s/util/wait.py")],
    ["times of function calls and of return"],
)
prop(
    "U03",
    "Polling returns at the first success and times out on time",
    "The polling helpers check the condition every interval (the immediate variants also at once), return right after the first check that succeeds, pass on an error of the condition, and stop checking after they ended. "
    "The variants with a timeout report a timeout when it expires without a success, not before, even if a check is still running.",
    ["inputs", "schedules"],
    "all outcome sequences, intervals, timeouts and check durations from small sets",
    "the helpers have no tests of their own (marked as a TODO)",
    ["aiok8s/util/wait.py"],
    [("poll family", "aiok8s/util/wait.py")],
    ["times of condition calls and of return"],
)
prop(
    "U04",
    "Clocks, timers and tickers fire at their time and not after being stopped",
    "On the real and on the fake clock a timer delivers once, when its duration has passed and not earlier, and never after it was stopped before that; a ticker delivers once per period that has passed, keeping at most one undelivered tick. "
    "A fake timer's stop and reset report whether it was still pending, and the fake clock's time is exactly what was set or stepped.",
    ["histories"],
    "all sequences of timer and ticker creations, stops, resets, reads and time steps up to a bounded length",
    "the tests walk one fixed sequence of the fake clock and none of the real timers",
    ["aiok8s/util/clock.py", "aiok8s/util/_time.py"],
    [("waiter list", "aiok8s/util/clock.py FakeClock"), ("sleeping tasks", "aiok8s/util/_time.py")],
    ["timer and ticker channels"],
)
prop(
    "U05",
    "What ended leaves no task behind",
    "When a wait helper returns, raises or is cancelled at any moment, when a work queue of any kind is shut down, when a watcher (of a broadcaster or fake) is stopped or its broadcaster shut down, when a real timer fired or a timer or ticker is stopped, or when a leader elector's run ends or is cancelled, no task that it started is left, neither waiting for ever nor until some later time. "
    "This also holds for operations and reads that were cancelled at any moment before, so that repeated use accumulates nothing.",
    ["histories", "schedules"],
    "every moment at which an operation is cancelled, fails or is overtaken by a stop, for every helper and component",
    "the tests end with their event loop, which hides whatever they leave behind",
    ["aiok8s/util/wait.py", "aiok8s/util/_time.py", "aiok8s/workqueue/delaying_queue.py", "aiok8s/watch/mux.py", "aiok8s/watch/watch.py", "aiok8s/leaderelection/leaderelection.py"],
    [("timers and helper tasks", "aiok8s/util/wait.py jitter_until"), ("waiting loop", "aiok8s/workqueue/delaying_queue.py _waiting_loop"), ("reads in progress", "aiok8s/watch/mux.py _BroadcasterWatcher")],
    ["the tasks of the event loop"],
)
# ------------------------------------------------------------------ controller runtime
prop(
    "K01",
    "Every change of a watched object leads to a reconcile that sees it",
    "Once the controllers of a manager are running, every creation, modification and deletion of a watched object on the server, also one that happened while the watch was down and is found by a relist, is followed by a reconcile of that object's namespace and name that starts after the cache reflects the change. "
    "Once things are quiet, the last reconcile of every key has seen the final state of its object in the cache.",
    ["histories", "fault_sequences", "schedules"],
    "all bounded server histories over two objects, watch drops and relists at all positions, reconcile durations within the scheduling bound",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/manager.py", "aiok8s/controller/controller.py", "aiok8s/controller/builder.py", "aiok8s/controller/source.py", "aiok8s/controller/handler.py", "aiok8s/cache/shared_informer.py", "aiok8s/workqueue/queue.py"],
    [("informer to queue to worker pipeline", "aiok8s/controller")],
    ["reconcile requests and the cache reads made by the reconciler"],
)
prop(
    "K02",
    "Failed reconciles are retried with growing delay; none runs twice at once",
    "A reconcile that raises or asks to be requeued is run again after the rate limiter's delay, growing with consecutive failures of that request, until it succeeds; one that asks for a delay is run again no earlier than that delay, and a success or an explicit delay starts the delays afresh. "
    "One request is never reconciled by two workers at once, while as many different requests as there are workers are reconciled at the same time; a change during a reconcile leads to one more afterwards, and a failing request never stops other requests from being reconciled.",
    ["schedules", "histories", "fault_sequences"],
    "all sequences of reconcile outcomes up to a bounded length over two requests, one or two workers, changes at all moments within the bound",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/controller.py", "aiok8s/workqueue/rate_limiting_queue.py", "aiok8s/workqueue/default_rate_limiters.py"],
    [("result handling", "aiok8s/controller/controller.py _reconcile_handler")],
    ["start and end times of reconciles per request"],
)
prop(
    "K03",
    "Cache reads return exactly the object last cached under the given name",
    "A read from the controller cache by namespace and name returns the object the informer last cached under exactly that namespace and name, raises a lookup error when there is none, and is refused before the cache is started. "
    "After the start a read of a kind never completes before that kind's initial list is cached, also when the kind was not in use before, and two reads of a kind share one informer.",
    ["histories", "inputs", "schedules"],
    "all bounded histories and all name and namespace combinations from a small set, cluster-scoped objects included, reads at all moments",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/cache.py", "aiok8s/controller/_cache_reader.py", "aiok8s/controller/_informers_map.py", "aiok8s/controller/_deleg_map.py"],
    [("key mapping", "aiok8s/controller/_cache_reader.py"), ("informer registry", "aiok8s/controller/_informers_map.py")],
    ["cache.get results, list calls per kind"],
)
prop(
    "K04",
    "The manager starts workers only after sync and stops everything",
    "A manager's controllers run no reconcile before the initial list of every informer is in the cache, however long that takes and whatever list attempts fail, and then reconcile every listed object. "
    "Cancelling the manager at any moment, initial synchronisation included, stops all informers and workers before it ends: afterwards there are no list or watch requests and no reconciles, and no watch remains open.",
    ["schedules", "fault_sequences"],
    "list failures and delays, cancellation at every event-loop step of bounded runs",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/manager.py", "aiok8s/controller/controller.py", "aiok8s/controller/cache.py", "aiok8s/controller/_informers_map.py"],
    [("start order", "aiok8s/controller/manager.py"), ("gathered tasks", "aiok8s/controller/_informers_map.py")],
    ["reconcile calls, API calls after cancellation"],
)
prop(
    "K05",
    "Events become requests for the right object, filtered by all predicates",
    "A create, update or delete notification enqueues the namespace and name of its object (of both the old and the new object for an update; of the last known object for a deletion that was missed) exactly when every predicate accepts it, and predicates see the event's real objects. "
    "A notification without usable metadata enqueues nothing and does not disturb later ones.",
    ["inputs"],
    "all notification kinds with typed, untyped, tombstone and malformed objects, all predicate verdict combinations up to three predicates",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/source.py", "aiok8s/controller/handler.py", "aiok8s/controller/event.py"],
    [("event translation", "aiok8s/controller/source.py EventHandler"), ("request mapping", "aiok8s/controller/handler.py")],
    ["requests on the queue, events given to predicates"],
)
prop(
    "K06",
    "Keys and kinds are read the same way from typed and untyped objects",
    "The key of an object is its namespace and name joined by a slash, or its bare name when it has no namespace, and is the same for a typed object and for the untyped object with the same metadata, for tombstones and for explicit keys. "
    "Group, version and kind are read correctly for the core and for named groups, reading or setting versions and lists works on both forms, and things that are not objects are rejected with an error of the key or metadata function, never accepted.",
    ["inputs"],
    "all objects from a grid of present, empty and missing metadata fields, both forms",
    "the tests only use typed pods with a name",
    ["aiok8s/api/meta.py", "aiok8s/cache/store.py", "aiok8s/cache/index.py", "aiok8s/cache/controller.py", "aiok8s/runtime/schema.py"],
    [("accessors", "aiok8s/api/meta.py"), ("key functions", "aiok8s/cache/store.py, aiok8s/cache/controller.py")],
    ["meta_namespace_key_func, deletion_handling_meta_namespace_key_func, accessor, list_accessor, type_accessor"],
)
prop(
    "K07",
    "A controller cache keeps to its namespace and its resync period",
    "With a namespace configured, every list and watch request of a controller cache is made for that namespace, and without one for all namespaces, so nothing of another namespace is ever cached, notified or reconciled. "
    "Every cached object is sent to the handlers again (and reconciled again by the controllers) once per resync period, which differs from the configured one by at most a tenth, whether or not anything changes; a handler that is registered later may wait one period more for the first time, and a period of zero means no resyncs.",
    ["configurations", "histories"],
    "all combinations of periods, namespaces, random factors and moments of registration from small sets, over several periods, with and without a change",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/cache.py", "aiok8s/controller/_informers_map.py", "aiok8s/controller/_deleg_map.py", "aiok8s/controller/client.py"],
    [("period and its random factor", "aiok8s/controller/_informers_map.py _resync_period"), ("namespace of requests", "aiok8s/controller/_informers_map.py _get_kwargs, aiok8s/controller/client.py _get_lister")],
    ["requests to the API, update notifications and reconciles with their times"],
)
prop(
    "K08",
    "Kinds and controllers do not disturb each other",
    "Each controller of a manager reconciles exactly the objects of the kinds it watches for which the predicates of one of its watches hold, and reads return objects of the kind asked for. There is one informer per kind, however many controllers and readers use it, "
    "also for kinds first used after the start. A kind whose requests hang or fail, after the start or when it first comes into use, neither delays nor changes the reconciles and reads of other kinds, and catches up once they succeed.",
    ["configurations", "schedules", "fault_sequences"],
    "two kinds and one to three controllers with combinations of watches, all bounded programs of changes of either kind, and all placements of hanging or failing requests of one kind within the bound",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/_informers_map.py", "aiok8s/controller/_cache_reader.py", "aiok8s/controller/controller.py", "aiok8s/controller/source.py", "aiok8s/controller/cache.py"],
    [("informer per kind", "aiok8s/controller/_informers_map.py _SpecificInformersMap.get"), ("watches of a controller", "aiok8s/controller/controller.py _Controller.watch")],
    ["reconciles per controller, reads per kind and their times, list and watch requests per kind"],
)
prop(
    "K09",
    "The manager runs what is added to it and stops all of it when a part fails",
    "A manager starts everything added to it exactly once, after the initial lists are in its cache, and gives that cache to it, to the reconcilers, handlers and predicates of its controllers, and to what they pass on for injection. "
    "If the start of one of them fails, at once or later, the manager's start ends with that error, and by then everything it started has been cancelled, once, and has ended: informers, watches, controllers, reconciles and the other runnables. "
    "One that just ends leaves the others, the informers and the manager running. Managers of one process share nothing of this.",
    ["schedules", "fault_sequences", "configurations"],
    "mixes of up to three runnables that run on, end, fail when called, first thing or later, or are slow or fail when they are stopped, next to zero to two controllers (or one that cannot start), under request failures, at all moments within the scheduling bound",
    "nothing in the controller package is covered by tests",
    ["aiok8s/controller/manager.py", "aiok8s/controller/cache.py", "aiok8s/controller/_informers_map.py", "aiok8s/controller/controller.py"],
    [("starting and gathering", "aiok8s/controller/manager.py _ControllerManager._start_non_leader_election_runnables"), ("injection", "aiok8s/controller/manager.py _ControllerManager.set_fields")],
    ["starts and ends of the runnables, outcome of the manager's start, requests, watches and tasks afterwards"],
)
# ------------------------------------------------------------------ leader election
prop(
    "L01",
    "At most one elector leads at any time",
    "Among electors that share a lock, no two are ever leading at the same time (running their leading callback without having been told to stop), whatever lock requests fail, are lost after taking effect or hang, and however candidates start and stop, "
    "provided their clocks run at the same rate and the lease outlasts the renew deadline plus one retry period and the time a successful write takes (reads may take any time). A leader that cannot renew stops leading within the renew deadline plus one retry period.",
    ["fault_sequences", "schedules"],
    "two electors with the default timing shape, all placements of bounded bursts of each kind of request fault on either elector, all start offsets and stops from a small set",
    "there are no tests of leader election",
    ["aiok8s/leaderelection/leaderelection.py", "aiok8s/leaderelection/resourcelock.py"],
    [("optimistic update of the lock record", "aiok8s/leaderelection/leaderelection.py _try_acquire_or_renew"), ("renew deadline", "LeaderElector._renew")],
    ["intervals in which each elector's leading callback runs"],
)
prop(
    "L02",
    "A free or expired lock is taken over and kept",
    "If some candidate can reach the lock and nobody holds it (never created, released, or not renewed for a lease duration), a candidate becomes leader within a lease duration plus two jittered retry periods, and within one if the lock names no holder. A leader whose requests succeed keeps leading, "
    "surviving failures that are shorter than the renew deadline by more than a retry period, and with release-on-cancel its lock is free for others as soon as it stops.",
    ["fault_sequences", "histories"],
    "all bounded fault bursts, crashes and stops of the leader, both settings of release, absent and pre-existing locks",
    "there are no tests of leader election",
    ["aiok8s/leaderelection/leaderelection.py", "aiok8s/leaderelection/resourcelock.py"],
    [("acquire loop", "LeaderElector._acquire"), ("renew loop", "LeaderElector._renew"), ("release", "LeaderElector._release")],
    ["times at which leading starts and stops"],
)
prop(
    "L03",
    "Leadership callbacks and the lock record tell the truth",
    "The leading callback starts only after the lock was acquired and is cancelled when leadership ends, the stopped callback follows exactly once per run, and every change of the observed holder is reported once, in order, to the new-leader callback. "
    "The record in the lock names the holder, keeps the acquisition time over renewals, renews the renew time, and counts each acquisition by a candidate that was not the holder as one transition. Settings with which renewal cannot work (a lease not above the renew deadline, a deadline not above the jittered retry period, non-positive times, missing lock or callbacks) are rejected at construction.",
    ["histories", "fault_sequences", "configurations"],
    "all runs of L01/L02 plus a grid of configurations",
    "there are no tests of leader election",
    ["aiok8s/leaderelection/leaderelection.py", "aiok8s/leaderelection/resourcelock.py"],
    [("run", "LeaderElector.run"), ("transition report", "LeaderElector._maybe_report_transition")],
    ["callback order, record contents after each write"],
)

# ------------------------------------------------------------------ fakes
prop(
    "T01",
    "The fake controller source behaves like an API server",
    "The fake source gives every change the next resource version. A list returns the latest object of every key that exists, with the version of the last change, and a watch from any version up to that one delivers every later change, once and in order: "
    "the ones that already happened (also those made without telling the open watches) and then those that happen while it is open, so that list plus watch always reproduces the source; a version of the future is refused. Lists and replayed events are the caller's own copies, and a shutdown ends all watches.",
    ["histories", "schedules"],
    "all sequences of changes, dropped changes, lists, watches from every version and stops up to a bounded length over two keys, and interleavings of changes with clients that list and then watch",
    "one test makes three changes to one object and watches them from three versions",
    ["aiok8s/cache/testing/fake_controller_source.py", "aiok8s/watch/mux.py"],
    [("change log", "FakeControllerSource.change"), ("replay", "FakeControllerSource.watch")],
    ["FakeControllerSource.list/watch results"],
)
prop(
    "T02",
    "The fake watcher delivers every event once and stops cleanly",
    "Every event sent to a fake watcher is given to its reader once and in order, and sending it completes when, and only when, it has been consumed. Cancelling a pending read loses no event. Stopping the watcher or leaving its context ends the iteration, "
    "also one that waits already, and after a reset it delivers new events again and none from before.",
    ["schedules"],
    "all interleavings of one or two senders, a reader, cancellations of its reads and a stop within the scheduling bound",
    "one test sends five events to an eager reader",
    ["aiok8s/watch/watch.py"],
    [("hand-over queue and stop event", "aiok8s/watch/watch.py FakeWatcher")],
    ["events iterated, completion of sends"],
)

NOT_CLAIMED = {}  # id -> reason why model checking cannot decide it here
NOTES = {}  # id -> level note, when it is not the general one
