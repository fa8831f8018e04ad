"""Developer tool: systematic small mutations of aiok8s, to find behaviour that no check looks at.

python3 tools/mutate.py gen FILE...          list mutants
python3 tools/mutate.py tests OUT FILE...    which mutants pass the repository's tests (OUT: json lines)
python3 tools/mutate.py checks IN OUT        runs the checks of the file against those that do
Not part of any check.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"
CHECKS = {
    "cache/thread_safe_store.py": "C01 I01",
    "cache/store.py": "C01 K06 C04 I01",
    "cache/index.py": "C01 K06 K03",
    "cache/fifo.py": "C02 C05 C06",
    "cache/testing/fake_controller_source.py": "T01",
    "cache/delta_fifo.py": "C04 C03 C05 C06 I05 I02 I01",
    "cache/reflector.py": "R03 R01 R05 R02 R04 I05",
    "cache/list_watch.py": "R01 K01",
    "cache/controller.py": "I06 I05 I01 I04 K06 K01",
    "cache/shared_informer.py": "I04 I03 I05 I02 K01 K04",
    "watch/mux.py": "M02 M01 M03",
    "watch/watch.py": "T02 M01 R03",
    "workqueue/queue.py": "W01 W02 K02",
    "workqueue/delaying_queue.py": "W05 W03 W02 W01",
    "workqueue/rate_limiting_queue.py": "W05 W02 K02",
    "workqueue/default_rate_limiters.py": "W04 W05 K02",
    "util/clock.py": "U04 W03",
    "util/_time.py": "U04 U02 U03 W03",
    "util/wait.py": "U01 U02 U03 W03",
    "util/retry.py": "U01",
    "api/meta.py": "K06 R03 K05 R01",
    "runtime/schema.py": "K06 R03",
    "leaderelection/leaderelection.py": "L03 L02 L01",
    "leaderelection/resourcelock.py": "L03 L02 L01",
}
CHECKS.update({"controller/%s.py" % f: c for f, c in dict(
    _cache_reader="K08 K03",
    _deleg_map="K08 K07 K03 K04",
    _informers_map="K07 K08 K03 K04",
    builder="K08 K01 K04",
    cache="K07 K03 K08 K04",
    client="K07 K08 K03",
    controller="K08 K04 K02 K01",
    event="K05",
    handler="K05 K08",
    manager="K08 K04 K01",
    reconcile="K02",
    source="K05 K08 K01",
).items()})

TESTS = {"workqueue": ["workqueue"], "util": ["util", "workqueue"], "watch": ["watch", "cache"], "cache": ["cache"]}

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def mutants(path):
    src = open(os.path.join(REPO, "aiok8s", path)).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, new, what):
        a, b = pos(n)
        out.append((n.lineno, what, src[:a] + new + src[b:]))

    def seg(n):
        a, b = pos(n)
        return src[a:b]

    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            put(n, "%s %s %s" % (seg(n.left), CMP[o], seg(n.comparators[0])), "%s -> %s" % (SYM[o], CMP[o]))
        elif isinstance(n, ast.BoolOp):
            new = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + new.join("(%s)" % seg(v) for v in n.values) + ")", "boolop %s" % new)
            for k in range(len(n.values)):
                old = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + old.join("(%s)" % seg(v) for i, v in enumerate(n.values) if i != k) + ")", "drop operand %d" % k)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % seg(n.operand), "drop not")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            if n.value is True or n.value is False:
                put(n, str(not n.value), "%s flipped" % n.value)
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), "%r + 1" % n.value)
                if n.value:
                    put(n, "0", "%r -> 0" % n.value)
        elif isinstance(n, ast.BinOp) and not isinstance(n.op, ast.Mod):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}.get(type(n.op))
            if new:
                put(n, "(%s) %s (%s)" % (seg(n.left), new, seg(n.right)), "arith %s" % new)
                put(n, "(%s)" % seg(n.left), "left operand only")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            put(n.func, "max" if n.func.id == "min" else "min", "min/max")
        elif isinstance(n, ast.Attribute) and n.attr in ("notify", "notify_all"):
            put(n, seg(n.value) + (".notify_all" if n.attr == "notify" else ".notify"), n.attr + " swapped")
        elif isinstance(n, ast.If) or isinstance(n, ast.While):
            t = n.test
            put(t, "(not (%s))" % seg(t), "negate")
            if not (isinstance(t, ast.Constant)):
                put(t, "False", "-> False")
                if isinstance(n, ast.If):
                    put(t, "True", "-> True")
        elif isinstance(n, ast.IfExp):
            put(n, "(%s)" % seg(n.body), "ifexp body")
            put(n, "(%s)" % seg(n.orelse), "ifexp orelse")
        elif isinstance(n, (ast.AsyncWith, ast.With)):
            a = off[n.lineno - 1] + n.col_offset
            b = pos(n.body[0])[0]
            h = src[a:b]
            k = h.rindex(":")
            if " as " not in h:
                out.append((n.lineno, "no with", src[:a] + "if True" + h[k:] + src[b:]))
        elif isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None and isinstance(h.type, ast.Name) and h.type.id == "Exception":
                    put(h.type, "KeyError", "Exception -> KeyError")
                    put(h.type, "BaseException", "Exception -> BaseException")
        for field in ("body", "orelse", "finalbody"):
            body = getattr(n, field, None)
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.Expr) and "logger" in seg(s):
                    continue
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.Assert)):
                    put(s, "pass", "delete: " + seg(s)[:50].replace("\n", " "))
                elif isinstance(s, ast.Return):
                    put(s, "pass", "delete return")
                    if s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                        put(s, "return None", "return None")
                elif isinstance(s, ast.Assign):
                    if isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) or not isinstance(n, (ast.ClassDef, ast.Module)):
                        put(s, "pass", "delete: " + seg(s)[:50].replace("\n", " "))
                simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)
                if i + 1 < len(body) and isinstance(s, simple) and isinstance(body[i + 1], simple) and not isinstance(n, (ast.ClassDef, ast.Module)):
                    a1, b1 = pos(s)
                    a2, b2 = pos(body[i + 1])
                    if "logger" not in src[a1:b2]:
                        out.append((s.lineno, "swap: " + seg(s)[:40].replace("\n", " "), src[:a1] + src[a2:b2] + src[b1:a2] + src[a1:b1] + src[b2:]))
    res, seen = [], {src}
    for ln, what, text in out:
        if text in seen:
            continue
        seen.add(text)
        try:
            compile(text, path, "exec")
        except SyntaxError:
            continue
        res.append((path, ln, what, text))
    return res


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == "gen":
        for f in args:
            for m in mutants(f):
                print(m[:3])
        return
    if mode == "all":  # files without tests
        with open(args[0], "a") as out:
            for f in args[1:]:
                for m in mutants(f):
                    out.write(json.dumps(m) + "\n")
        return
    scratch = tempfile.mkdtemp(prefix="mutate-")
    try:
        if mode == "tests":
            out = open(args[0], "a")
            todo = [m for f in args[1:] for m in mutants(f)]
            print(len(todo), "mutants", flush=True)
            copies = Queue()
            for i in range(12):
                c = os.path.join(scratch, "r%d" % i)
                subprocess.run(["git", "clone", "-q", REPO, c], check=True)
                copies.put(c)

            def one(m):
                c = copies.get()
                p = os.path.join(c, "aiok8s", m[0])
                try:
                    old = open(p).read()
                    open(p, "w").write(m[3])
                    rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=15", "-o", "python_functions=", "-o", "addopts="] + [os.path.join("aiok8s", d) for d in TESTS.get(m[0].split("/")[0], ["cache"])], c, 120, PYTHONPATH=c)
                    open(p, "w").write(old)
                    return m, rc, (o.strip().splitlines() or [""])[-1]
                finally:
                    copies.put(c)

            n = 0
            with ThreadPoolExecutor(12) as ex:
                for m, rc, last in ex.map(one, todo):
                    if rc == 0:
                        n += 1
                        out.write(json.dumps(m) + "\n")
                        out.flush()
            print(n, "pass the tests")
        elif mode == "checks":
            done = set()
            if os.path.exists(args[1]):
                for l in open(args[1]):
                    d = json.loads(l)
                    done.add((d[0], d[1], d[2]))
            out = open(args[1], "a")
            N = int(os.environ.get("PAR", "4"))
            depth = ["--depth", os.environ["DEPTH"]] if os.environ.get("DEPTH") else []
            copies = Queue()
            for i in range(N):
                v, c = os.path.join(scratch, "verif%d" % i), os.path.join(scratch, "repo%d" % i)
                shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git"))
                subprocess.run(["git", "clone", "-q", REPO, c], check=True)
                copies.put((v, c))

            def check(m):
                v, c = copies.get()
                p = os.path.join(c, "aiok8s", m[0])
                try:
                    old = open(p).read()
                    open(p, "w").write(m[3])
                    verdict, msg = "SURVIVED", ""
                    for k in CHECKS[m[0]].split():
                        rc, o = sh([PY, "-B", "run.py", k, "--tier", "quick"] + depth, v, 300, VERIF_REPO=c, VERIF_TIER="quick", VERIF_WORKERS="2")
                        if rc == 1:
                            verdict = k
                            msg = [x for x in o.splitlines() if x.startswith("message")][:1]
                            break
                        if rc:
                            verdict, msg = "%s rc=%d" % (k, rc), o[-300:]
                            break
                    open(p, "w").write(old)
                    return m, verdict, msg
                finally:
                    copies.put((v, c))

            todo = [json.loads(l) for l in open(args[0])]
            todo = [m for m in todo if (m[0], m[1], m[2]) not in done]
            if os.environ.get("NOSWAP"):
                todo = [m for m in todo if not m[2].startswith("swap")]
            with ThreadPoolExecutor(N) as ex:
                for m, verdict, msg in ex.map(check, todo):
                    out.write(json.dumps([m[0], m[1], m[2], verdict, msg]) + "\n")
                    out.flush()
    finally:
        shutil.rmtree(scratch)


main()
