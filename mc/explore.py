"""Exhaustive exploration of scenarios within a budget of deviations, on all cores, and the check command line."""
import gc
import hashlib
import json
import multiprocessing
import os
import pickle
import resource
import sys
import traceback
from multiprocessing import connection

from mc import engine, seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    """fn(env, **params); budget: {kind: max deviations}; total: max deviations of all kinds together."""

    def __init__(self, name, fn, *, budget=None, total=None, params=None, cap=None, opts=None, note=""):
        self.name = name
        self.fn = fn
        self.budget = dict(budget or {})
        self.total = sum(self.budget.values()) if total is None else total
        self.params = params or {}
        self.cap = cap
        self.opts = dict(opts or {})
        self.opts["budget"] = self.budget
        self.note = note


_SCEN = None
_CHUNK_STATE = {}


def _costs_ok(used, cost, budget, total):
    if not cost:
        return True
    if sum(used.values()) + len(cost) > total:
        return False
    u = {}
    for k in cost:
        u[k] = u.get(k, 0) + 1
    for k, n in u.items():
        if used.get(k, 0) + n > budget.get(k, 0):
            return False
    return True


def _children(sc, prefix_len, r):
    """All one-step alternatives beyond the prefix: (children without cost, children with a deviation)."""
    free, dev = [], []
    used = {}
    budget, total = sc.budget, sc.total
    ch = r.choices
    bch = bytes(ch)
    spent = 0
    for i, costs in enumerate(r.points):
        c = ch[i]
        if i >= prefix_len:
            for alt in range(1, len(costs)):
                cost = costs[alt]
                if not cost:
                    free.append(bch[:i] + bytes((alt,)))
                elif spent + len(cost) <= total and _costs_ok(used, cost, budget, total):
                    dev.append(bch[:i] + bytes((alt,)))
        for k in costs[c]:
            used[k] = used.get(k, 0) + 1
            spent += 1
    return free, dev


def _outcome(r):
    return hashlib.blake2b(repr(r.trace).encode(), digest_size=8).digest()


def _init_worker():
    gc.disable()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


ISOLATE = False  # every execution in a process of its own


class _Brief:
    """What is needed of the result of an execution."""

    def __init__(self, r):
        self.choices, self.points, self.violation, self.diverged, self.steps = r.choices, r.points, r.violation, r.diverged, r.steps
        self.outcome = _outcome(r)
        self.labels, self.trace = [str(x) for x in r.labels], [_Text(repr(x)) for x in r.trace]


class _Text(str):
    __repr__ = str.__str__


def once_or_twice(sc, choices, twice, **kw):
    """One execution; or two in a row, of which the second has to be right as well: a program may do all this twice."""
    r = engine.execute(sc.fn, choices, params=sc.params, opts=sc.opts, **kw)
    if twice and r.violation is None and r.diverged is None:
        s = engine.execute(sc.fn, choices, params=sc.params, opts=sc.opts, **kw)
        # locks of a module that are tied to the first event loop are no concern of a program with one loop
        if s.violation is not None and s.diverged is None and "different event loop" not in str(s.violation) + repr(s.loop_errors):
            r.violation = "the second time in one process: " + str(s.violation)
            r.labels, r.trace = s.labels, s.trace
    return r


def _forked(sc, choices, **kw):
    """One execution in a forked process, so that it neither sees nor leaves anything in this one."""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(a)
            d = pickle.dumps(_Brief(once_or_twice(sc, choices, ISOLATE, **kw)))
            with os.fdopen(b, "wb") as f:
                f.write(d)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(b)
    with os.fdopen(a, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    if not d:
        raise RuntimeError("an execution of %s died" % sc.name)
    return pickle.loads(d)


def _execute(sc, p):
    if ISOLATE:
        return _forked(sc, p)
    r = engine.execute(sc.fn, p, params=sc.params, opts=sc.opts)
    r.outcome = _outcome(r)
    return r


class Contaminated(Exception):
    """Executions in one process influence each other."""


def _work(args):
    si, prefixes, maxexec = args
    sc = _SCEN[si]
    stack = list(prefixes)
    out_dev = []
    n = nodes = steps = 0
    outcomes = {}
    maxpts = 0
    viol = None
    while stack and n < maxexec:
        p = stack.pop()
        r = _execute(sc, p)
        n += 1
        if n % 25 == 0:
            gc.collect()
        if r.diverged is not None:
            return dict(error="divergence in %s: %s prefix=%r" % (sc.name, r.diverged, list(p)))
        steps += r.steps
        nodes += len(r.points) - len(p) + 1 if len(r.points) >= len(p) else 1
        maxpts = max(maxpts, len(r.points))
        h = r.outcome
        if h not in outcomes:
            outcomes[h] = None
        if len(r.choices) < len(p):
            if r.violation is None:
                return dict(error="divergence in %s: execution ended before its prefix %r" % (sc.name, list(p)))
        if r.violation is not None:
            viol = bytes(r.choices)
            break
        free, dev = _children(sc, len(p), r)
        stack.extend(reversed(free))
        out_dev.extend(dev)
    return dict(n=n, nodes=nodes, steps=steps, outcomes=list(outcomes), left=stack, dev=out_dev, viol=viol, maxpts=maxpts)


def _serve(conn):
    _init_worker()
    while True:
        try:
            args = conn.recv()
        except EOFError:
            os._exit(0)
        try:
            res = _work(args)
        except BaseException:
            res = dict(error="worker: " + traceback.format_exc())
        try:
            conn.send(res)
        except BrokenPipeError:
            os._exit(0)


class Pool:
    """Forked workers, one pipe each; no threads."""

    def __init__(self, n):
        ctx = multiprocessing.get_context("fork")
        self.procs, self.conns = [], []
        for _ in range(n):
            a, b = ctx.Pipe()
            p = ctx.Process(target=self._child, args=(a, b), daemon=True)
            p.start()
            b.close()
            self.procs.append(p)
            self.conns.append(a)
        self.idle = list(self.conns)
        self.busy = set()

    def _child(self, a, b):
        for c in self.conns:
            c.close()
        a.close()
        _serve(b)

    def submit(self, args):
        c = self.idle.pop()
        c.send(args)
        self.busy.add(c)

    def results(self):
        """The results that are there, at least one."""
        out = []
        for c in connection.wait(list(self.busy)):
            try:
                out.append(c.recv())
            except (EOFError, ConnectionResetError):
                raise RuntimeError("a worker died")
            self.busy.remove(c)
            self.idle.append(c)
        return out

    def drain(self):
        while self.busy:
            self.results()

    def close(self):
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.join(5)


class Stats:
    def __init__(self):
        self.executions = 0
        self.nodes = 0
        self.steps = 0
        self.outcomes = set()
        self.maxpts = 0
        self.capped = False
        self.levels = []  # (level, executions)
        self.complete_level = -1
        self.queued = 0


DEADLINE_S = {"quick": 600.0, "thorough": 6 * 3600.0}  # a check stops exploring then, and says that it was not exhaustive


def explore(scenarios, si, pool, workers, cap, deadline=float("inf")):
    """Explore one scenario completely; returns (stats, violating choices or None)."""
    st = Stats()
    level_frontier = [b""]
    level = 0
    chunk = 20
    while level_frontier:
        todo = level_frontier
        todo.reverse()
        nxt = []
        before = st.executions
        viol = None
        while (todo or pool.busy) and viol is None:
            while todo and pool.idle:
                per = max(1, min(64, len(todo) // (workers * 2) + 1))
                batch = todo[-per:]
                del todo[-per:]
                pool.submit((si, batch, max(chunk, len(batch))))
            for d in pool.results():
                if "error" in d:
                    raise (Contaminated if d["error"].startswith("divergence") else RuntimeError)(d["error"])
                st.executions += d["n"]
                st.nodes += d["nodes"]
                st.steps += d["steps"]
                st.outcomes.update(d["outcomes"])
                st.maxpts = max(st.maxpts, d["maxpts"])
                todo.extend(d["left"])
                nxt.extend(d["dev"])
                if d["viol"] is not None and (viol is None or len(d["viol"]) < len(viol)):
                    viol = d["viol"]
            if chunk < 400 and st.executions > 20 * chunk * workers:
                chunk *= 2
            if ((cap and st.executions >= cap) or seams.real_monotonic() > deadline) and (todo or pool.busy):
                st.capped = True
                pool.drain()
                break
        if viol is not None:
            pool.drain()
            return st, viol
        st.levels.append((level, st.executions - before))
        if st.capped:
            st.queued = len(todo) + len(nxt)
            return st, None
        st.complete_level = level
        if cap and st.executions >= cap and nxt:
            st.capped = True
            st.queued = len(nxt)
            return st, None
        level_frontier = nxt
        level += 1
    return st, None


def load_known():
    """known_findings.txt: `finding: property=<id> scenario=<name> sig=<text contained in the message> -- what fails`."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                body, _, what = line[len("finding:"):].partition(" -- ")
                f = dict(x.split("=", 1) for x in body.split() if "=" in x)
                f["what"] = what
                out.append(f)
    return out


def _import_failure(prop, e):
    path = os.path.join(VERIF, "replays", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(property=prop, import_failure="".join(traceback.format_exception(e))), f)
    print("the code cannot be imported: %r" % e)
    print("VIOLATION property=%s replay=%s" % (prop, path))


def run_check(prop, scenarios, **kw):
    """Run all scenarios of a property; returns the exit code.

    Executions normally share a process.  Should they turn out to influence each other (the code keeps state in its
    modules or classes), everything is explored again with a process for each, in which it happens twice."""
    global ISOLATE
    t0 = seams.real_monotonic()
    try:
        return _run_check(prop, scenarios, t0, **kw)
    except Contaminated as e:
        if ISOLATE:
            raise
        print("executions influence each other: %s" % e.args[0])
        print("exploring again with one process per execution", flush=True)
        ISOLATE = True
        first, choices = e.args[1:] or (None, None)  # it shows soonest where it showed before
        scenarios = sorted(scenarios, key=lambda sc: sc is not first)
        return _run_check(prop, scenarios, t0, suspect=choices, **kw)


def _run_check(prop, scenarios, t0, *, tier, seed, assumptions=(), only=None, verbose=True, workers=None, suspect=None):
    global _SCEN
    _SCEN = scenarios
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    rows = []
    tot = dict(executions=0, states=0, transitions=0, outcomes=0)
    samples = []
    exhaustive = True
    viol = None
    pool = Pool(workers)
    try:
        for si, sc in enumerate(scenarios):
            if only and only not in sc.name:
                continue
            s0 = seams.real_monotonic()
            if suspect is not None and si == 0 and _forked(sc, suspect).violation is not None:
                viol = (sc, suspect)
                break
            st, v = explore(scenarios, si, pool, workers, sc.cap, t0 + DEADLINE_S.get(tier, 600.0))
            row = dict(
                scenario=sc.name,
                budget=dict(sc.budget, total=sc.total),
                executions=st.executions,
                decision_tree_nodes=st.nodes,
                loop_callbacks=st.steps,
                distinct_outcomes=len(st.outcomes),
                longest_choice_sequence=st.maxpts,
                executions_per_deviation_level=[n for _, n in st.levels],
                exhaustive=not st.capped and v is None,
                wall_s=round(seams.real_monotonic() - s0, 2),
            )
            if st.capped:
                row["cap"] = "stopped after %d executions (cap on executions or time); all executions with at most %d deviations were covered; %d prefixes left" % (
                    st.executions, st.complete_level, st.queued)
                exhaustive = False
            if sc.note:
                row["note"] = sc.note
            rows.append(row)
            tot["executions"] += st.executions
            tot["states"] += st.nodes
            tot["transitions"] += st.steps
            tot["outcomes"] += len(st.outcomes)
            if verbose:
                print("%-34s execs=%-7d nodes=%-8d outcomes=%-6d levels=%s%s %.1fs" % (
                    sc.name, st.executions, st.nodes, len(st.outcomes), row["executions_per_deviation_level"],
                    " CAPPED" if st.capped else "", row["wall_s"]), flush=True)
            if v is not None:
                viol = (sc, v)
                break
            r = _forked(sc, b"", labels=True)
            if len(samples) < 6:
                samples.append(dict(scenario=sc.name, schedule=[l for l in r.labels if l and l != "run"][:60], observed=[repr(x) for x in r.trace[:40]]))
    finally:
        pool.close()
    code = 0
    nviol = 0
    if viol is not None:
        code = 1
        nviol = 1
        sc, choices = viol
        a = _forked(sc, choices, labels=True)
        b = _forked(sc, choices, labels=True)
        if not ISOLATE and (a.violation is None or b.violation is None or a.diverged is not None):
            raise Contaminated("a violation of %s does not replay by itself" % sc.name, sc, choices)
        path = os.path.join(VERIF, "replays", prop + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=prop, scenario=sc.name, tier=tier, choices=list(choices), twice=ISOLATE, message=a.violation,
                           schedule=[l for l in a.labels if l and l != "run"], observed=[repr(x) for x in a.trace],
                           replay_cmd="/opt/venv/bin/python %s/run.py %s --tier %s --replay %s" % (VERIF, prop, tier, path)), f, indent=1)
        if a.violation is None or b.violation is None:
            print("INTERNAL: violation does not replay: %r / %r" % (a.violation, b.violation))
            return 3
        print("scenario %s" % sc.name)
        print("schedule:")
        for l in a.labels:
            if l and l != "run":
                print("   ", l)
        print("observed:")
        for x in a.trace[-40:]:
            print("   ", x)
        print("message:", a.violation)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for f in load_known():
        if f.get("property") == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["states"],
            transitions=tot["transitions"],
            traces_validated_against_impl=tot["executions"],
            distinct_outcomes=tot["outcomes"],
            exhaustive=exhaustive and viol is None,
            rule="states = distinct nodes of the decision trees explored; transitions = event-loop callbacks run; every execution runs the "
            "real code (there is no separate model to bind), so traces_validated_against_impl = executions",
            scenarios=rows,
            samples=samples or [dict(note="violation in the first scenario")],
        ),
        assumptions=list(assumptions),
        wall_s=round(seams.real_monotonic() - t0, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        print("%s %s: %d executions, %d states, %.1fs" % (prop, "VIOLATED" if code else "ok", tot["executions"], tot["states"], ev["wall_s"]))
    return code
