"""Linearizability of small histories (Wing & Gong), with blocking operations.

ops: list of dicts(name, args, call, ret, result); ret None = still pending at the end.
spec(state, name, args) -> list of (new_state, result); an empty list means the operation blocks in that state.
Returns (ok, reason).  Completed operations must be explained by one order that respects call/return order;
afterwards no pending operation may be enabled (it would wait in vain), unless may_pend.
"""


def linearize(ops, init, spec, *, check_pending=True, match=None):
    done = [o for o in ops if o["ret"] is not None]
    pend = [o for o in ops if o["ret"] is None]
    n = len(done)
    before = []
    for i, o in enumerate(done):
        m = 0
        for j, p in enumerate(done):
            if p["ret"] < o["call"]:
                m |= 1 << j
        before.append(m)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    reached = False
    finals = []
    match = match or (lambda want, got: want == got)
    while stack:
        mask, st = stack.pop()
        if (mask, st) in seen:
            continue
        seen.add((mask, st))
        if mask == full:
            reached = True
            blocked = True
            if check_pending:
                for p in pend:
                    if spec(st, p["name"], p["args"]):
                        blocked = False
            if blocked:
                return True, None
            finals.append(st)
            continue
        for i in range(n):
            b = 1 << i
            if mask & b or (before[i] & ~mask):
                continue
            for ns, res in spec(st, done[i]["name"], done[i]["args"]):
                if match(res, done[i]["result"]):
                    stack.append((mask | b, ns))
    if reached:
        return False, "an operation that could proceed is left waiting: %r in state %r" % ([(p["name"], p["args"]) for p in pend], finals[0])
    return False, "no order of the operations explains their results"


class History:
    def __init__(self, env):
        self.env = env
        self.ops = []
        self.t = 0

    def tick(self):
        self.t += 1
        return self.t

    def call(self, name, *args):
        o = dict(name=name, args=args, call=self.tick(), ret=None, result=None)
        self.ops.append(o)
        return o

    def ret(self, o, result=None):
        o["ret"] = self.tick()
        o["result"] = result

    def drop(self, o):
        self.ops.remove(o)

    def show(self):
        return [(o["call"], o["ret"], o["name"], o["args"], o["result"]) for o in self.ops]

    def judge(self, init, spec, **kw):
        for o in self.ops:
            self.env.log(o["call"], o["ret"], o["name"], repr(o["args"]), repr(o["result"]))
        ok, why = linearize(self.ops, init, spec, **kw)
        if not ok:
            self.env.fail("%s; history (call, return, op, args, result): %r" % (why, self.show()))
