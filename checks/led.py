"""Leader election driver: candidates that share one ConfigMap lock on a fake server.

The locks are the real ConfigMapLock over the real CoreV1Api; only the transport (ApiClient.call_api) is replaced.  The
server keeps optimistic concurrency (a replace with an old resourceVersion is refused with 409), and every request can
be slow, fail, be lost after taking effect, or hang.
"""
import asyncio
import copy
import json
import re

from kubernetes_asyncio.client import ApiClient, models
from kubernetes_asyncio.client.rest import ApiException

from aiok8s.leaderelection import leaderelection, resourcelock
from mc import seams

KEY = "control-plane.alpha.kubernetes.io/leader"
SLACK = 0.05
MAXJIT = 2.2
RESTART = 0.5


def clone(cm):
    """A deep copy, but for the client configuration that every model object refers to."""
    n = copy.copy(cm)
    n.metadata = copy.copy(cm.metadata)
    n.metadata._annotations = None if cm.metadata.annotations is None else dict(cm.metadata.annotations)
    n.metadata._labels = None if cm.metadata.labels is None else dict(cm.metadata.labels)
    n._data = None if cm.data is None else dict(cm.data)
    return n


def shifted(raw, by):
    """A record whose times are shifted, for a candidate whose wall clock is ahead or behind."""
    return re.sub(r'("(?:renewTime|acquireTime)":\s*)([0-9.]+)', lambda m: m[1] + repr(float(m[2]) + by), raw) if by else raw


def shift(cm, by):
    if by and (cm.metadata.annotations or {}).get(KEY):
        cm.metadata._annotations[KEY] = shifted(cm.metadata.annotations[KEY], by)
    return cm


class Lost(Exception):
    """A transport error."""


class Write:
    def __init__(self, who, t, t_get, op, old, new, prev_t):
        self.who, self.t, self.t_get, self.op, self.old, self.new, self.prev_t = who, t, t_get, op, old, new, prev_t


class Server:
    def __init__(self, env, lease, prior="absent"):
        self.env = env
        self.rv = 10
        self.lease = lease
        self.cm = None
        self.writes = []
        self.last_write = None
        self.on_write = []
        self.skew = {}  # by how much the wall clock of a candidate is ahead; the lock holds the times its writers see
        now = env.now
        if prior != "absent":
            ann = None
            if prior == "other annotation":
                ann = {"x": "y"}
            elif prior == "released":
                ann = {KEY: json.dumps({"leaderTransitions": 4})}
            elif prior == "released elsewhere":  # as other implementations do it
                ann = {KEY: json.dumps({"holderIdentity": "", "leaseDurationSeconds": 1, "renewTime": now - 1, "acquireTime": now - 1, "leaderTransitions": 4})}
            elif prior == "held":
                ann = {KEY: json.dumps({"holderIdentity": "ghost", "leaseDurationSeconds": int(lease), "renewTime": now - 1, "acquireTime": now - 100, "leaderTransitions": 7})}
                self.last_write = now - 1
            self.cm = models.V1ConfigMap(metadata=models.V1ObjectMeta(name="lock", namespace="ns", annotations=ann, resource_version="10", labels={"keep": "me"}), data={"d": "1"} if ann else None)

    def record(self, who=None):
        raw = self.cm is not None and (self.cm.metadata.annotations or {}).get(KEY)
        return json.loads(shifted(raw, -self.skew.get(who, 0))) if raw else None

    def holder(self):
        r = self.record()
        return (r or {}).get("holderIdentity") or None

    def effect(self, who, method, body, t_get):
        env = self.env
        old = self.record(who)
        skew = self.skew.get(who, 0)
        if method == "GET":
            if self.cm is None:
                raise ApiException(status=404, reason="Not Found")
            return shift(clone(self.cm), -skew)
        body = shift(clone(body), skew)
        if method == "POST":
            if self.cm is not None:
                raise ApiException(status=409, reason="AlreadyExists")
        else:
            if self.cm is None:
                raise ApiException(status=404, reason="Not Found")
            if body.metadata.resource_version not in (None, self.cm.metadata.resource_version):
                raise ApiException(status=409, reason="Conflict")
            env.check(body.metadata.resource_version is not None, "%s replaces the lock object unconditionally", who)
            env.check(body.data == self.cm.data and body.metadata.labels == self.cm.metadata.labels, "%s changed other parts of the lock object", who)
        self.rv += 1
        body.metadata.resource_version = str(self.rv)
        self.cm = body
        w = Write(who, env.now, t_get, method, old, self.record(who), self.last_write)
        self.last_write = env.now
        self.writes.append(w)
        for f in self.on_write:
            f(w)
        return shift(clone(body), -skew)


class Client(ApiClient):
    """The transport of one candidate."""

    def __init__(self, env, server, who):
        self.env = env
        self.server = server
        self.who = who
        self.windows = []  # (start, end, kind)
        self.bad = []  # intervals in which requests did not simply succeed
        self.nreq = 0
        self.inflight = None  # since when a request is being waited for
        self.last_ok = None  # when the last successful write was answered
        self.t_get = seams.EPOCH  # when the last read was sent
        self.oks = [seams.EPOCH]
        self.observed = []  # holders in answers, in order
        self.active = 0
        self.latencies = ((0, 0),)
        self.read_latencies = None
        self.gates = False
        self.outcomes = ("ok",)
        self.hang = 20.0
        self.by_request = {}  # request number -> outcome
        self.client_side_validation = True
        self.requests = []

    async def close(self):
        pass

    async def call_api(self, resource_path, method, path_params=None, query_params=None, header_params=None, body=None, **kw):
        env = self.env
        env.check(resource_path.startswith("/api/v1/namespaces/{namespace}/configmaps") and path_params["namespace"] == "ns" and path_params.get("name", "lock") == "lock"
                  and (method == "POST") == ("name" not in path_params), "%s sends %s %s %r", self.who, method, resource_path, path_params)
        self.active += 1
        t0 = self.inflight = env.now
        if method == "GET":
            self.t_get = t0
        self.nreq += 1
        n = self.nreq
        self.requests.append((round(env.rel(), 2), method))
        ok = False
        try:
            r = await self._call(method, body, self.t_get, n)
            ok = True
            return r
        except ApiException as e:
            ok = e.status in (404, 409)
            raise
        finally:
            self.active -= 1
            if not self.active:
                self.inflight = None
            if not ok or env.now > t0 + SLACK:
                self.bad.append((t0, env.now))

    def window(self, t):
        for a, b, kind in self.windows:
            if a <= t < b:
                return kind, b
        return None, None

    async def _call(self, method, body, t_get, n):
        env = self.env
        pre, post = env.pick("%s %s latency" % (self.who, method), self.read_latencies if method == "GET" and self.read_latencies else self.latencies, "slow")
        if pre:
            await asyncio.sleep(pre)
        kind, end = self.window(env.now)
        if kind is None:
            kind = self.by_request.get(n, "ok")
            end = env.now + self.hang
        if kind == "ok" and self.gates:
            kind = await env.gate("%s %s" % (self.who, method), self.outcomes)
            end = env.now + self.hang
        if kind == "fail":
            raise Lost("failed")
        if kind == "500":
            raise ApiException(status=500, reason="Internal")
        if kind == "hang":
            await asyncio.sleep(end - env.now)
            raise Lost("timed out")
        if kind == "late":
            # it takes effect when the request has long been waited for
            await asyncio.sleep(end - env.now)
            try:
                self.server.effect(self.who, method, body, t_get)
            finally:
                self.bad.append((env.now, env.now))
            raise Lost("timed out")
        try:
            r = self.server.effect(self.who, method, body, t_get)
        except ApiException:
            if kind == "ok" and post:
                await asyncio.sleep(post)
            raise
        if kind == "lost":
            raise Lost("connection reset")
        if kind == "lost hang":
            await asyncio.sleep(end - env.now)
            raise Lost("timed out")
        if self.gates:
            await env.gate("%s %s answer" % (self.who, method))
        if post:
            await asyncio.sleep(post)
        self.read_last = method == "GET"
        if method == "GET":
            raw = (r.metadata.annotations or {}).get(KEY)
            self.observed.append((json.loads(raw) if raw else {}).get("holderIdentity") or None)
        else:
            self.oks.append(env.now)
            self.last_ok = env.now
            raw = (r.metadata.annotations or {}).get(KEY)
            self.observed.append((json.loads(raw) if raw else {}).get("holderIdentity") or None)
        return r


class Candidate:
    def __init__(self, world, who, release=False, timing=(15, 10, 2), callback="runs", cleanup=0.0, listener=True):
        self.w = world
        self.env = world.env
        self.who = who
        self.release = release
        self.timing = timing
        self.client = Client(world.env, world.server, who)
        self.callback = callback
        self.listener = listener
        self.cleanup = cleanup
        self.lead = None
        self.led = []  # [start, told-to-stop]
        self.reports = []
        self.stops = 0
        self.starts_this_run = 0
        self.run_task = None
        self.cancelled_at = None
        self.run_started = None
        self.elector = None
        self.again = True
        self.new_elector()

    def new_elector(self):
        lock = resourcelock.new("ns", "lock", resourcelock.ResourceLockConfig(identity=self.who), self.client)
        lease, renew, retry = self.timing
        self.elector = leaderelection.LeaderElector(
            leaderelection.LeaderElectionConfig(
                lock=lock,
                callbacks=leaderelection.LeaderCallbacks(self._started, self._stopped, self._new_leader if self.listener else None),
                name="test",
                lease_duration=lease,
                renew_deadline=renew,
                retry_period=retry,
                release_on_cancel=self.release,
            )
        )

    async def _started(self):
        env = self.env
        self.starts_this_run += 1
        self.w.l3(self.starts_this_run == 1, "%s: the leading callback was started twice in one run", self.who)
        self.w.l3(self.stops == self.w.runs[self.who] - 1, "%s: the leading callback was started after the stopped callback", self.who)
        self.w.l3(self.w.server.holder() == self.who, "%s leads although the lock is held by %r", self.who, self.w.server.holder())
        self.lead = asyncio.current_task()
        self.led.append([env.now, None])
        if self.callback == "returns":
            return
        if self.callback == "raises":
            await asyncio.sleep(1)
            raise ValueError("the leading callback failed")
        try:
            await self.env.loop.create_future()
        finally:
            if self.cleanup:
                await asyncio.sleep(self.cleanup)

    async def _stopped(self):
        self.stops += 1
        self.w.l3(self.stops == self.w.runs[self.who], "%s: stopped callback called %d times in %d runs", self.who, self.stops, self.w.runs[self.who])
        self.w.l3(not self.leading(), "%s: stopped callback called while the leading callback was not told to stop", self.who)

    async def _new_leader(self, who):
        who = who or None
        last = self.reports[-1][1] if self.reports else None
        self.w.l3(who != last, "%s: leader %r reported twice in a row", self.who, who)
        self.reports.append((self.env.now, who))

    def leading(self):
        t = self.lead
        return t is not None and not t.done() and not t.cancelling()

    # ---- script
    def start(self, fresh=False):
        assert self.run_task is None or self.run_task.done()
        if fresh:
            self.new_elector()
            self.reports = []
            del self.client.observed[:]
        if self.cancelled_at is not None or self.run_started is None:
            self.run_started = self.env.now
        self.cancelled_at = None
        self.run_task = asyncio.ensure_future(self._run())

    async def _run(self):
        """Runs the elector; when it loses leadership, runs it again."""
        env = self.env
        while True:
            self.w.runs[self.who] += 1
            self.starts_this_run = 0
            try:
                await self.elector.run()
            finally:
                if not env.draining and not env.stopped:
                    self.w.l3(not self.leading(), "%s: the run ended but the leading callback was not told to stop", self.who)
                    self.w.l3(self.stops == self.w.runs[self.who], "%s: stopped callback called %d times in %d runs that ended", self.who, self.stops, self.w.runs[self.who])
            if "L02" in self.w.props:
                env.check(self.starts_this_run, "%s: the run ended without having led and without being cancelled", self.who)
            if not self.again:
                return
            await asyncio.sleep(RESTART)

    def cancel(self):
        if self.cancelled_at is None and self.run_task is not None and not self.run_task.done():
            self.cancelled_at = self.env.now
            self.run_task.cancel()

    def running(self):
        return self.run_task is not None and not self.run_task.done()

    def trouble_end(self, t):
        """Until when requests did not simply succeed."""
        cl = self.client
        e = max([b for a, b, _ in cl.windows if a <= t] + [b for a, b in cl.bad] + [seams.EPOCH])
        if cl.inflight is not None and t > cl.inflight:
            e = t
        return min(e, t)

    def able_since(self, t):
        """Since when the candidate runs and its requests succeed (None: not now)."""
        if not self.running() or self.cancelled_at is not None:
            return None
        cl = self.client
        since = self.run_started
        if cl.inflight is not None and t > cl.inflight + SLACK + self.w.extra:
            return None
        for a, b, _ in cl.windows:
            if a <= t < b:
                return None
            if b <= t:
                since = max(since, b)
        for a, b in cl.bad:
            since = max(since, b)
        return since


class World:
    def __init__(self, env, names=("A", "B"), timing=(15, 10, 2), release=False, prior="absent", props=("L01", "L02", "L03"), **ckw):
        self.env = env
        self.timing = timing
        self.server = Server(env, timing[0], prior)
        self.runs = {n: 0 for n in names}
        self.props = props
        self.c = {n: Candidate(self, n, release, timing, **ckw) for n in names}
        self.cs = list(self.c.values())
        self.leaderless_since = env.now
        self.able = {n: None for n in names}
        self.extra = 0.0  # request delays to be allowed for
        self.faulty_until = env.now
        self.server.on_write.append(self._written)
        env.monitor = self.monitor

    def _written(self, w):
        if "L03" in self.props:
            record_rules(self, w)

    def monitor(self):
        env = self.env
        lead = [c for c in self.cs if c.leading()]
        if len(lead) > 1 and "L01" in self.props:
            env.violate("two leaders at +%.3f: %s" % (env.rel(), ", ".join("%s since +%.3f" % (c.who, env.rel(c.led[-1][0])) for c in lead)))
            return
        lease, renew, retry = self.timing
        for c in self.cs:
            if c.led and c.led[-1][1] is None and not c.leading():
                c.led[-1][1] = env.now
                if "L02" in self.props:
                    self.lead_ended(c)
        if not lead and "L02" in self.props:
            self.judge()
        if lead:
            c = lead[0]
            if "L01" in self.props and env.now > c.client.last_ok + renew + retry + SLACK:
                env.violate("%s still leads at +%.3f, its last successful renewal was at +%.3f" % (c.who, env.rel(), env.rel(c.client.last_ok)))

    def lead_ended(self, c):
        env = self.env
        if c.cancelled_at is not None or c.callback != "runs":
            return
        lease, renew, retry = self.timing
        # a new attempt period starts a retry period after a success, and has attempts until shortly before the deadline
        # (an attempt at the very deadline may still succeed)
        last_ok = max(t for t in c.client.oks if t <= env.now - SLACK or t == c.client.oks[0])
        out = c.trouble_end(env.now) - (last_ok + retry)
        if out < renew - retry - 3 * SLACK - self.extra:
            env.violate("%s stopped leading at +%.3f although its last success was at +%.3f and its requests were in trouble until +%.3f only"
                        % (c.who, env.rel(), env.rel(last_ok), env.rel(c.trouble_end(env.now))))

    def l3(self, cond, msg, *args):
        if "L03" in self.props:
            self.env.check(cond, msg, *args)

    # ---- liveness, judged at moments the driver chooses
    def free_since(self):
        s = self.server
        if s.holder() is None:
            return s.last_write if s.last_write is not None else seams.EPOCH, True
        return s.last_write + self.timing[0], False

    def judge(self):
        """Is it time for a leader?"""
        env = self.env
        ables = [x for x in (c.able_since(env.now) for c in self.cs if c.callback == "runs") if x is not None]
        if not ables:
            return
        able_since = min(ables)
        lease, renew, retry = self.timing
        free, empty = self.free_since()
        start = max(free, able_since)
        bound = retry * MAXJIT + SLACK + self.extra + RESTART
        if not empty:
            bound += lease + retry * MAXJIT  # it has to see the record before it can see it expire
        if env.now > start + bound:
            env.violate("nobody leads at +%.3f: the lock (%r) is free since +%.3f and a candidate can reach it since +%.3f" % (env.rel(), self.server.record(), env.rel(free), env.rel(able_since)))

    def check_reports(self):
        for c in self.cs:
            holders = dedup(c.client.observed)
            reps = dedup([r[1] for r in c.reports])
            it = iter(holders)
            self.env.check(all(any(h == r for h in it) for r in reps), "%s reported leaders %r, but observed the holders %r", c.who, reps, holders)
            last = holders[-1:]
            if c.listener and last and not c.client.active and c.running():
                self.env.check((reps[-1] if reps else None) == last[0], "%s last reported leader %r, but observed %r", c.who, reps, holders)
            if c.listener and c.client.observed and c.client.observed[-1] is None and c.client.read_last and not c.client.active and c.running():
                self.env.check(not c.reports or c.reports[-1][1] is None, "%s last reported leader %r, but then read that nobody holds the lock", c.who, reps)

    async def finish(self):
        for c in self.cs:
            if c.running():
                c.cancel()
        for c in self.cs:
            if c.run_task is not None:
                await asyncio.gather(c.run_task, return_exceptions=True)
                e = None if c.run_task.cancelled() else c.run_task.exception()
                if e is not None:
                    raise e


def dedup(seq):
    out = []
    for x in seq:
        if x is not None and (not out or out[-1] != x):
            out.append(x)
    return out


def record_rules(world, w):
    env = world.env
    c = world.c[w.who]
    old, new = w.old or {}, w.new
    d = "write by %s at +%.3f: %r after %r" % (w.who, env.rel(w.t), new, w.old)
    env.check(isinstance(new, dict), "%s: no record", d)
    h = new.get("holderIdentity")
    lease = world.timing[0]
    if not h:
        env.check(c.release, "%s: the holder was removed although releasing is off", d)
        env.check(not c.leading(), "%s: the lock was released while %s leads", d, w.who)
        env.check(old.get("holderIdentity") == w.who, "%s: released by someone else", d)
        env.check(new.get("leaderTransitions", 0) == old.get("leaderTransitions", 0), "%s: releasing changed the transitions", d)
        return
    env.check(h == w.who, "%s: holder", d)
    env.check(w.t_get - SLACK <= new["renewTime"] <= w.t, "%s: renew time, the attempt began at +%.3f", d, env.rel(w.t_get))
    env.check(int(new["leaseDurationSeconds"]) == int(lease), "%s: lease duration", d)
    if old.get("holderIdentity") == w.who:
        env.check(new["acquireTime"] == old.get("acquireTime"), "%s: a renewal changed the acquisition time", d)
        env.check(new.get("leaderTransitions", 0) == old.get("leaderTransitions", 0), "%s: a renewal changed the transitions", d)
    else:
        env.check(new["acquireTime"] == new["renewTime"], "%s: acquisition time", d)
        if not old:
            env.check(new.get("leaderTransitions", 0) in (0, 1), "%s: transitions", d)
        else:
            env.check(new.get("leaderTransitions", 0) == old.get("leaderTransitions", 0) + 1, "%s: transitions", d)
        if old.get("holderIdentity"):
            env.check(w.t >= w.prev_t + lease, "%s: taken over %.3f s after the last renewal", d, w.t - w.prev_t)
