"""Stateless model checking of asyncio code: the real code under a controlled event loop.

One *execution* runs a scenario (a coroutine function taking an Env) on a CtlLoop: virtual time, the documented
FIFO order of ready callbacks, and every environment event (a request that completes, a callback that returns, a
cancellation, a fault, the passing of time) decided by a recorded sequence of choices.  The explorer enumerates
those sequences exhaustively within a budget of deviations per kind (see explore.py).

Choice points
  * env.choose/pick/chance  - data choices of the driver; every alternative is explored, at no cost unless `kind` is given
  * loop boundaries         - before each batch of ready callbacks: release pending gates early, or let time pass early
  * quiescence              - nothing is ready: which gate is released (with which outcome), or let time pass
"""
import asyncio
import heapq
import os
import signal
import traceback
from asyncio import base_events, events, futures, tasks

from mc import seams

_ASYNCIO = os.path.dirname(asyncio.__file__) + os.sep


class Violation(Exception):
    pass


class Stop(BaseException):
    """Raised through the loop to end an execution early (never seen by code under test)."""


class Hang(BaseException):
    pass


class Divergence(Exception):
    """A replayed prefix met a different choice point: nondeterminism that the engine does not own."""


class DFuture(futures.Future):
    def __init__(self, *, loop=None):
        super().__init__(loop=loop)
        self._seq = loop.next_seq()

    def __hash__(self):
        return self._seq


class DTask(tasks.Task):
    def __init__(self, coro, *, loop=None, **kw):
        self._seq = loop.next_seq()
        if kw.get("name") is None:
            kw["name"] = "task%d" % self._seq
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._seq


class Gate:
    __slots__ = ("label", "outcomes", "prio", "early", "order", "optional", "fut", "seq", "fault", "cb", "reach")

    def __init__(self, label, outcomes, prio, early, order, optional, fault, seq, fut, cb, reach):
        self.label = label
        self.outcomes = outcomes
        self.prio = prio
        self.early = early
        self.order = order
        self.optional = optional
        self.fault = fault
        self.seq = seq
        self.fut = fut
        self.cb = cb
        self.reach = reach


LATENESS = 1e-6


class CtlLoop(base_events.BaseEventLoop):
    def __init__(self, env):
        super().__init__()
        self._env = env
        self._seqno = 0
        self.set_task_factory(lambda loop, coro, **kw: DTask(coro, loop=loop, **kw))
        self.set_exception_handler(self._on_exception)
        self.slow_callback_duration = 1e9

    def next_seq(self):
        self._seqno += 1
        return self._seqno

    def time(self):
        return self._env.now

    def create_future(self):
        return DFuture(loop=self)

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _on_exception(self, loop, context):
        self._env.loop_errors.append(context.get("message", ""))

    def _timers(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
        return self._scheduled

    def deadlines(self, k):
        """The next k distinct deadlines, ascending."""
        ts = self._timers()
        if not ts:
            return []
        if k == 1:
            return [ts[0]._when]
        out = sorted({h._when for h in ts if not h._cancelled})
        # deadlines closer than the lateness are one instant
        res = []
        for w in out:
            if not res or w - res[-1] > 2 * LATENESS:
                res.append(w)
            if len(res) == k:
                break
        return res

    def advance(self, when):
        env = self._env
        env.now = max(env.now, when + LATENESS)
        env.clock.append(env.now)
        ts = self._timers()
        while ts and ts[0]._when <= env.now:
            h = heapq.heappop(ts)
            h._scheduled = False
            if h._cancelled:
                self._timer_cancelled_count -= 1
            else:
                self._ready.append(h)

    def _move_due(self):
        ts = self._timers()
        now = self._env.now
        while ts and ts[0]._when <= now:
            h = heapq.heappop(ts)
            h._scheduled = False
            if h._cancelled:
                self._timer_cancelled_count -= 1
            else:
                self._ready.append(h)

    def _run_once(self):
        env = self._env
        self._move_due()
        if env.draining:
            if not self._ready:
                self._stopping = True
                return
        else:
            env.boundary(self)
        if env.stopped:
            self._stopping = True
            if not env.draining:
                return
        ready = self._ready
        for _ in range(len(ready)):
            h = ready.popleft()
            if h._cancelled:
                continue
            env.steps += 1
            h._run()
            if env.monitor is not None and not env.stopped:
                env.monitor()
        h = None
        if env.steps > env.max_steps and not env.draining:
            env.violate("no end after %d event-loop callbacks at virtual time +%.3f: livelock" % (env.steps, env.now - seams.EPOCH))


class Env:
    """The environment of one execution."""

    def __init__(self, prefix=(), *, max_steps=20000, max_time=1e6, jumps=1, budget=None):
        self.prefix = prefix
        self.choices = []
        self.points = []  # (n, costs) per decision; costs: tuple of kind-or-None tuples
        self.labels = []
        self.trace = []
        self.now = seams.EPOCH
        self.clock = [self.now]  # every value the clock took
        self.deviations = 0
        self.rushed_time = 0.0
        self.rushed = 0  # how often the clock advanced although callbacks were ready
        self.max_steps = max_steps
        self.max_time = max_time
        self.jumps = jumps
        self.steps = 0
        self.violation = None
        self.stopped = False
        self.draining = False
        self.gates = []
        self._gseq = 0
        self.quiescers = []
        self.loop_errors = []
        self.time_choices = True
        self.frozen = False
        self.rand_value = 0.5
        self.rand_hook = None
        self.monitor = None  # called after every event-loop callback; reports through violate()
        self.budget = budget or {}
        self.want_labels = False
        self.loop = None
        self.main = None

    # -------------------------------------------------------------- choices
    def _decide(self, label, costs):
        """costs[i]: tuple of deviation kinds that alternative i uses up; costs[0] is the default."""
        n = len(costs)
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence("choice %d of %d at point %d (%s)" % (c, n, i, label))
        else:
            c = 0
        self.choices.append(c)
        self.points.append(costs)
        self.deviations += len(costs[c])
        if self.want_labels:
            self.labels.append(label)
        return c

    def choose(self, label, n, kind=None):
        if n <= 0:
            raise AssertionError(label)
        if n == 1:
            return 0
        if n > 250:
            hi = self.choose(label + ".hi", (n + 199) // 200, kind)
            lo_n = min(200, n - hi * 200)
            return hi * 200 + self.choose(label + ".lo", lo_n, kind)
        k = (kind,) if kind else ()
        c = self._decide(label, ((),) + (k,) * (n - 1))
        if self.want_labels:
            self.labels[-1] = "%s -> %d/%d" % (label, c, n)
        return c

    def pick(self, label, seq, kind=None):
        seq = list(seq)
        c = self.choose(label, len(seq), kind)
        if self.want_labels and len(seq) > 1:
            self.labels[-1] = "%s -> %r" % (label, seq[c])
        return seq[c]

    def random(self):
        if self.rand_hook:
            return self.rand_hook()
        return self.rand_value

    # -------------------------------------------------------------- gates
    def gate(self, label, outcomes=("ok",), *, prio=0, early="sched", order="order", fault="fault", optional=False, reach=None):
        """An awaitable that the environment completes, with one of `outcomes` (the first is the default one).

        prio      at quiescence the pending non-optional gate with the lowest (prio, age) is the default
        early     deviation kind for completing it while callbacks are ready
        order     deviation kind for completing it at quiescence out of turn
        fault     deviation kind for a non-default outcome
        optional  never completed by default
        """
        fut = self.loop.create_future()
        self._gseq += 1
        g = Gate(label, tuple(outcomes), prio, early, order, optional, fault, self._gseq, fut, None, reach)
        self.gates.append(g)
        return fut

    def action(self, label, cb, *, prio=0, early="sched", order="order", optional=False):
        """A callback that the environment runs at some point (e.g. cancelling a task)."""
        self._gseq += 1
        g = Gate(label, ("ok",), prio, early, order, optional, "fault", self._gseq, None, cb, None)
        self.gates.append(g)
        return g

    def drop(self, g):
        if g in self.gates:
            self.gates.remove(g)

    def quiesce(self):
        """Completes when nothing is ready and no non-optional gate is pending (only time could pass)."""
        fut = self.loop.create_future()
        self.quiescers.append(fut)
        return fut

    def left_over(self, *but):
        """The unfinished tasks, without those in which only asyncio itself waits (for an event nobody sets any more, say)."""
        left = []
        for t in asyncio.all_tasks(self.loop):
            code = getattr(t.get_coro(), "cr_code", None)
            if t is not self.main and t not in but and not t.done() and not (code and code.co_filename.startswith(_ASYNCIO)):
                left.append(t)
        return left

    def _release(self, g, outcome):
        self.gates.remove(g)
        if self.want_labels:
            self.labels[-1] += " t=+%.3f" % (self.now - seams.EPOCH)
        if g.cb is not None:
            g.cb()
        elif not g.fut.done():
            g.fut.set_result(outcome)

    def boundary(self, loop):
        budget = self.budget
        while True:
            if self.stopped:
                return
            if any(g.fut is not None and g.fut.done() for g in self.gates):
                self.gates = [g for g in self.gates if g.fut is None or not g.fut.done()]
            gates = self.gates
            busy = bool(loop._ready)
            if busy and (self.frozen or not budget):
                return
            opts = []  # (label, costs, action)
            if busy:
                opts.append(("run", (), None))
                for g in gates:
                    if g.early is None or not budget.get(g.early):
                        continue
                    for j, o in enumerate(g.outcomes):
                        if j and not budget.get(g.fault):
                            break
                        cost = (g.early,) if j == 0 else (g.early, g.fault)
                        opts.append(("early %s=%s" % (g.label, o), cost, (g, o)))
            else:
                need = sorted((g for g in gates if not g.optional), key=lambda g: (g.prio, g.seq))
                base = False
                for idx, g in enumerate(need):
                    first = idx == 0
                    if first:
                        base = True
                    elif g.order is not None and not budget.get(g.order):
                        continue
                    for j, o in enumerate(g.outcomes):
                        if j and not budget.get(g.fault):
                            break
                        cost = () if first or g.order is None else (g.order,)
                        if j:
                            cost = cost + (g.fault,)
                        opts.append(("%s=%s" % (g.label, o), cost, (g, o)))
                if not base:
                    if self.quiescers:
                        opts.append(("quiesce", (), "q"))
                    elif loop._timers():
                        w = loop._timers()[0]._when
                        opts.append(("time", (), ("t", w)))
                    else:
                        self.violate("deadlock: nothing can happen any more")
                        return
                for g in gates:
                    if g.optional and budget.get(g.order or g.early):
                        for j, o in enumerate(g.outcomes):
                            opts.append(("%s=%s" % (g.label, o), ((g.order or g.early),), (g, o)))
            if self.time_choices and budget.get("time") and not self.frozen:
                if busy or opts[0][0] == "quiesce" or opts[0][0] != "time":
                    for w in loop.deadlines(self.jumps):
                        opts.append(("early time +%.3f" % (w - seams.EPOCH), ("time",), ("t", w)))
                elif self.jumps > 1:
                    for w in loop.deadlines(self.jumps)[1:]:
                        opts.append(("jump time +%.3f" % (w - seams.EPOCH), ("time",), ("t", w)))
            if self.frozen:
                opts = opts[:1]
            if len(opts) == 1:
                c = 0
                if self.want_labels and opts[0][2] is not None:
                    self.labels.append(None)
            else:
                c = self._decide("", tuple(o[1] for o in opts))
            if self.want_labels and (len(opts) > 1 or opts[0][2] is not None):
                self.labels[-1] = opts[c][0]
            act = opts[c][2]
            if act is None:
                return
            if act == "q":
                qs, self.quiescers = self.quiescers, []
                for f in qs:
                    if not f.done():
                        f.set_result(None)
                continue
            if act[0] == "t":
                if act[1] - seams.EPOCH > self.max_time:
                    self.violate("no end within %g s of virtual time" % self.max_time)
                    return
                if busy:
                    self.rushed += 1
                    self.rushed_time += max(0.0, act[1] + LATENESS - self.now)
                loop.advance(act[1])
                if self.frozen or not busy:
                    continue
                # after an early time advance the ready batch runs
                return
            self._release(*act)

    # -------------------------------------------------------------- verdicts
    def violate(self, msg):
        if self.violation is None and not self.draining:
            self.violation = msg
        self.stopped = True

    def fail(self, msg):
        self.violate(msg)
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            args = tuple(a() if callable(a) else a for a in args)  # callables: costly texts
            self.fail(msg % args if args else msg)

    def eq(self, got, want, what):
        if got != want:
            self.fail("%s: got %r, expected %r" % (what, got, want))

    def log(self, *x):
        self.trace.append(x if len(x) != 1 else x[0])

    def rel(self, t=None):
        return (self.now if t is None else t) - seams.EPOCH


class Result:
    __slots__ = ("violation", "choices", "points", "trace", "steps", "labels", "loop_errors", "diverged", "outcome")


HANG_CPU_S = 20.0


def execute(scenario, prefix, *, labels=False, params=None, opts=None):
    env = Env(prefix, **(opts or {}))
    env.want_labels = labels
    seams.install(env)
    loop = CtlLoop(env)
    env.loop = loop
    diverged = None
    events.set_event_loop(loop)

    def on_alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S, HANG_CPU_S)
    try:
        try:
            async def main():
                try:
                    await scenario(env, **(params or {}))
                finally:
                    env.stopped = True

            env.main = loop.create_task(main())
            loop.run_forever()
        except Hang:
            env.violate("hang: an event-loop callback does not return (%g s of CPU)" % HANG_CPU_S)
        except Divergence as e:
            diverged = str(e)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # escaped from a callback
            env.violate("unexpected %r escaped the event loop\n%s" % (e, traceback.format_exc(limit=-6)))
        t = env.main
        if diverged is None and t.done():
            if t.cancelled():
                env.violate("the driver was cancelled by the code under test")
            elif t.exception() is not None:
                e = t.exception()
                if isinstance(e, Divergence):
                    diverged = str(e)
                elif isinstance(e, Violation):
                    env.violate(str(e))
                else:
                    env.violate(
                        "unexpected exception %r\n%s" % (e, "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-6)))
                    )
        elif diverged is None and env.violation is None:
            env.violate("the driver did not finish")
        # ------------------------------------------------------------ clean up, without choices or verdicts
        env.draining = True
        trace_len = len(env.trace)
        steps = env.steps
        try:
            for _ in range(5):
                pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
                if not pend:
                    break
                for t in sorted(pend, key=hash):
                    t.cancel()
                loop._stopping = False
                for _ in range(50):
                    loop._stopping = True
                    loop.run_forever()
                    if not loop._ready:
                        break
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        del env.trace[trace_len:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        events.set_event_loop(None)
        loop._ready.clear()
        loop._scheduled.clear()
        try:
            loop.close()
        except BaseException:
            pass
        seams.uninstall()
    r = Result()
    r.violation = env.violation
    r.choices = env.choices
    r.points = env.points
    r.trace = env.trace
    r.steps = steps
    r.labels = env.labels
    r.loop_errors = env.loop_errors
    r.diverged = diverged
    return r
