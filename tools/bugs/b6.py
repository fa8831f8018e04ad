from mk import bug
import re, os
_H = os.path.dirname(os.path.abspath(__file__))
_N = {}
for _f in ("b2.py", "b3.py", "b4.py", "b5.py"):
    for _m in re.finditer(r"^([A-Z]+) = '''(.*?)'''", open(os.path.join(_H, _f)).read(), re.M | re.S):
        _N[_m[1]] = _m[2]
INF, MUX, REFL, K, L, DELTA, PROC = (_N[x] for x in ("INF", "MUX", "REFL", "K", "L", "DELTA", "PROC"))

bug("K09-injects-one-way", "K09", [("controller/manager.py",
'        if hasattr(i, "inject_func"):\n', '        elif hasattr(i, "inject_func"):\n')],
"a runnable that takes both the cache and the injection function", "it does not get the injection function", K + '''
class Both:
    cache = f = None

    def inject_cache(self, c):
        self.cache = c

    def inject_func(self, f):
        self.f = f

    async def start(self):
        pass


async def main():
    mgr = manager.new()
    b = Both()
    mgr.add(b)
    assert b.cache is mgr.get_cache() and b.f
''')

bug("K09-equal-runnables-once", "K09", [("controller/manager.py",
"        self._non_leader_election_runnables.append(runnable)\n",
"        if runnable not in self._non_leader_election_runnables:\n            self._non_leader_election_runnables.append(runnable)\n")],
"two runnables that compare equal", "only one of them is started", K + '''
import dataclasses


@dataclasses.dataclass
class R:
    every: int
    started = False

    async def start(self):
        self.started = True


async def main():
    PodServer("a").install()
    mgr = manager.new()
    a, b = R(1), R(1)
    mgr.add(a)
    mgr.add(b)
    t = asyncio.ensure_future(mgr.start())
    await asyncio.sleep(5)
    assert a.started and b.started
    await cancel(t)
''')

bug("K09-runnables-of-all-managers", "K09", [("controller/manager.py",
"class _ControllerManager:\n", "class _ControllerManager:\n    _non_leader_election_runnables = []\n\n"),
("controller/manager.py", "        self._non_leader_election_runnables = []\n", "")],
"two managers in one process", "a manager also starts what was added to the other", K + '''
class R:
    n = 0

    async def start(self):
        self.n += 1


async def main():
    PodServer("a").install()
    one, two = manager.new(), manager.new()
    a, b = R(), R()
    one.add(a)
    two.add(b)
    t = asyncio.ensure_future(one.start())
    await asyncio.sleep(5)
    assert (a.n, b.n) == (1, 0), (a.n, b.n)
    await cancel(t)
''')

bug("K09-failed-source-skipped", "K09", [("controller/controller.py",
"                    await watch.source.start(\n                        watch.handler, self.queue, *watch.predicates\n                    )\n",
"                    try:\n                        await watch.source.start(\n                            watch.handler, self.queue, *watch.predicates\n                        )\n                    except Exception:\n                        logger.exception(\"Source failed to start\")\n")],
"a watch whose source cannot start", "the manager runs on with a controller that does not see its events", K + '''
class Bad:
    async def start(self, *a):
        raise ValueError("no such source")


class Rec:
    async def reconcile(self, request):
        return reconcile.Result()


async def main():
    from aiok8s.controller import controller

    PodServer("a").install()
    mgr = manager.new()
    c = controller.new(mgr, reconciler=Rec())
    await c.watch(Bad(), handler.EnqueueRequestForObject())
    t = asyncio.ensure_future(mgr.start())
    await asyncio.sleep(5)
    assert t.done() and isinstance(t.exception(), ValueError), t
''')

bug("M03-shutdown-in-advance", "M03", [("watch/mux.py",
"        await self._distributing.wait()\n", "        if self._incoming.qsize() > 1:\n            await self._distributing.wait()\n")],
"a shutdown while the last published event waits for a slow watcher", "the shutdown completes before that event is distributed", MUX + '''
async def main():
    b = mux.Broadcaster(1, mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    w = await b.watch()
    for i in range(2):
        await b.action("ADDED", i)
        await settle()
    t = asyncio.ensure_future(b.shutdown())
    await asyncio.sleep(1)
    assert not t.done(), "the shutdown completed with a buffer of one and no reader"
    got = []
    r = asyncio.ensure_future(drain(w, got))
    await asyncio.sleep(1)
    assert t.done() and got == [0, 1], got
    await cancel(r)


async def drain(w, got):
    async for e in w:
        got.append(e["object"])
''')

bug("U01-cap-reached-exactly", "U01", [("util/wait.py",
"            if self.cap and self.duration > self.cap:", "            if self.cap and self.duration >= self.cap:")],
"a backoff whose duration comes to equal its cap", "retrying gives up before its steps are used up", '''
from aiok8s.util import wait


async def main():
    n = []

    async def condition():
        n.append(1)

    try:
        await wait.exponential_backoff(wait.Backoff(duration=1, factor=2, jitter=0, steps=4, cap=8), condition)
    except wait.WaitTimeoutError:
        pass
    assert len(n) == 4, n
    del n[:]
    try:
        await wait.exponential_backoff(wait.Backoff(duration=1, factor=2, jitter=0, steps=3, cap=4), condition)
    except wait.WaitTimeoutError:
        pass
    assert len(n) == 3, n
''')

bug("L01-lease-counted-from-request", "L01", [("leaderelection/leaderelection.py",
"            self._observed_raw_record = old_leader_election_raw_record\n            self._observed_time = self._clock.now()",
"            self._observed_raw_record = old_leader_election_raw_record\n            self._observed_time = now")],
"a candidate whose read of the lock takes long, and a leader that renews before the answer and loses its connection right after", "two leaders at the same time", L + '''
async def main():
    s = Store()
    a = Candidate(s, "a")
    await asyncio.sleep(5)
    b = Candidate(s, "b")
    await asyncio.sleep(20)
    get = b.lock.get
    slow = []

    async def slow_get():
        if not slow:
            slow.append(1)
            await asyncio.sleep(9)
            v = s.version  # the answer tells of the last renewal before A loses its connection
            while s.version == v:
                await asyncio.sleep(0.05)
            a.lock.down = True
        return await get()

    b.lock.get = slow_get
    for _ in range(400):
        await asyncio.sleep(0.1)
        assert not (a.leading and b.leading)
''')
