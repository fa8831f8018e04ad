"""Developer tool: tries edits of the code that break a property.  python3 tools/tryedits.py FILE [NAME...]

FILE holds lines of Python that fill `edits`, a list of (name, "ID ID", [(file under aiok8s/, old, new)]).  Each edit is
applied to a scratch copy, the tests are run, then the checks until one reports a violation.  Not part of any check.
"""
import os
import shutil
import subprocess
import sys
import tempfile

sys.argv, args = sys.argv[:1], sys.argv[1:]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "plant.py")).read().replace("sys.exit(main())", "pass")
exec(compile(src, "plant.py", "exec"))
ns = {"edits": []}
exec(open(args[0]).read(), ns)
scratch = tempfile.mkdtemp(prefix="tryedits-")
try:
    repo, v = os.path.join(scratch, "repo"), os.path.join(scratch, "verif")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns("seeded", ".git"))
    for name, props, es in ns["edits"]:
        if len(args) > 1 and name not in args[1:]:
            continue
        ok = True
        for f, old, new in es:
            p = os.path.join(repo, "aiok8s", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "MATCHES", s.count(old), f, repr(old[:50]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if ok:
            rc, last = tests(repo)
            if rc:
                print(name, "fails the tests:", last[:60], flush=True)
            else:
                got = []
                for k in props.split():
                    rc, out = sh([PY, "-B", "run.py", k, "--tier", "quick"], v, 900, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1")
                    m = [l[9:] for l in out.splitlines() if l.startswith("message")]
                    got.append(k + " " + ("caught: " + (m or ["?"])[0][:150] if rc == 1 else "QUIET" if rc == 0 else "ERROR %d %s" % (rc, out[-200:])))
                    if rc == 1:
                        break
                print(name, "|", "; ".join(got), flush=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
finally:
    shutil.rmtree(scratch)
