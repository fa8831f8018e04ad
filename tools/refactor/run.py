"""Developer tool: edits that keep the behaviour; every check has to stay quiet on them.

python3 tools/refactor/run.py SET.py [--ids ID,ID] [NAME...]     SET.py fills `edits`, a list of (name, file under aiok8s/,
"Class.function" or "function" to replace or None, new source).  All named edits are applied together to a scratch copy,
the tests are run, then the checks, whose alarms are printed.  Not part of any check.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = "/opt/venv/bin/python"
args = sys.argv[1:]
setfile = args.pop(0)
ids = None
if args and args[0] == "--ids":
    ids = args[1].split(",")
    args = args[2:]
ns = {"edits": []}
exec(open(setfile).read(), ns)


def find(tree, path):
    node = tree
    for part in path.split("."):
        node = next(n for n in node.body if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == part)
    return node


def apply(repo, f, where, new):
    p = os.path.join(repo, "aiok8s", f)
    s = open(p).read()
    if isinstance(where, tuple):
        assert s.count(where[0]) == 1, (f, s.count(where[0]), where[0])
        s = s.replace(where[0], new)
    else:
        n = find(ast.parse(s), where)
        lines = s.split("\n")
        start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
        lines[start:n.end_lineno] = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * n.col_offset).split("\n")
        s = "\n".join(lines)
    ast.parse(s)
    open(p, "w").write(s)


def main():
    scratch = tempfile.mkdtemp(prefix="refactor-")
    try:
        repo, v = os.path.join(scratch, "repo"), os.path.join(scratch, "verif")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git"))
        for name, f, where, new in ns["edits"]:
            if not args or name in args:
                apply(repo, f, where, new)
        print(subprocess.run(["git", "-C", repo, "diff", "--stat"], capture_output=True, text=True).stdout.splitlines()[-1:])
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", "--timeout=40", "-o", "python_functions="], cwd=repo, env=dict(os.environ, PYTHONPATH=repo), capture_output=True, text=True)
        print("tests:", t.stdout.strip().splitlines()[-1])
        if t.returncode:
            print(t.stdout[-3000:])
        man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        todo = ids or [c["property"] for c in man["checks"]]

        def one(k):
            r = subprocess.run([PY, "-B", "run.py", k, "--tier", "quick"], cwd=v, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1", VERIF_WORKERS="4"))
            m = [l for l in r.stdout.splitlines() if l.startswith(("message", "VIOLATION"))]
            return k, r.returncode, m, r.stdout[-600:] + r.stderr[-600:]

        bad = 0
        with ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex:
            for k, rc, m, out in ex.map(one, todo):
                if rc:
                    bad += 1
                    print(k, rc, (m or [""])[0][:300], m[1][:300] if len(m) > 1 else "" if rc == 1 else out, flush=True)
        print("alarms:", bad)
    finally:
        if os.environ.get("KEEP"):
            print(scratch)
        else:
            shutil.rmtree(scratch)


main()
