"""Developer tool: tries planted bugs.  python3 tools/plant.py [--checks] [--own] ID...

Per bug: copies /repo to a scratch folder, applies the patch, runs the tests and the demo (with and without the
patch), and with --checks the check of its property (--own) or of every property.  Not part of any check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, timeout=1200, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, "timeout\n" + (x.stdout or b"").decode(errors="replace")


def tests(copy):
    # the module names of the tests resolve to the copy, which is the working directory
    rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", "--timeout=40", "-o", "python_functions="], copy, PYTHONPATH=copy)
    return rc, out.strip().splitlines()[-1] if out.strip() else ""


def try_bug(i, checks, props):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = dict(id=i, prop=meta["property"])
    copy = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(copy, "repo")
        sh(["git", "clone", "-q", "/repo", repo], "/")
        demo = os.path.join(copy, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], repo, 300)
        res["demo clean"] = rc == 0 or "FAILS: %d %s" % (rc, out[-600:])
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            res["apply"] = out
            return res
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], repo, 300)
        res["demo bug"] = rc != 0 or "PASSES"
        res["demo out"] = out.strip().splitlines()[-1:] if rc else ""
        rc, last = tests(repo)
        res["tests"] = rc == 0 or last
        for p in checks and props or []:
            ev = os.path.join(copy, "verif")
            if not os.path.exists(ev):
                shutil.copytree(ROOT, ev, ignore=shutil.ignore_patterns("seeded", ".git"))
            rc, out = sh([PY, "-B", "run.py", p, "--tier", "quick"], ev, 900, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1")
            v = [l for l in out.splitlines() if l.startswith("message") or l.startswith("VIOLATION")]
            res[p] = ("caught" if rc == 1 and any(l.startswith("VIOLATION property=%s" % p) for l in v) else "quiet" if rc == 0 else "ERROR %d %s" % (rc, out[-300:]), v[:1])
        return res
    finally:
        shutil.rmtree(copy)


RESULTS = os.path.join(ROOT, "tools", "bugs", "results.json")


def record(r):
    """Remembers which checks caught it, for the table in DESIGN.md."""
    try:
        res = json.load(open(RESULTS))
    except FileNotFoundError:
        res = {}
    for k, v in r.items():
        if isinstance(v, (list, tuple)) and v and v[0] in ("caught", "quiet"):
            res.setdefault(r["id"], {})[k] = v[0]
    with open(RESULTS, "w") as f:
        json.dump(res, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    checks = "--checks" in sys.argv
    every = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    bad = 0

    def one(i):
        own = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))["property"]
        return try_bug(i, checks, every if "--all" in sys.argv else [own])

    with ThreadPoolExecutor(1 if checks else 3) as ex:
        for r in ex.map(one, ids):
            ok = r.get("demo clean") is True and r.get("demo bug") is True and r.get("tests") is True
            bad += not ok
            record(r)
            print("ok " if ok else "BAD", json.dumps(r), flush=True)
    return bad


if __name__ == "__main__":
    sys.exit(main())
