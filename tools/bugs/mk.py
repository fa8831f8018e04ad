"""Developer tool: writes /verif/seeded/* from bug definitions.  Not part of any check."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
LIB = open(os.path.join(HERE, "lib.py")).read()


def bug(id, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, id)
    with tempfile.TemporaryDirectory() as t:
        repo = t + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for f, old, new in edits:
            p = repo + "/aiok8s/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "MATCHES", s.count(old), f, repr(old[:60]))
                return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, check=True).stdout
        # at least one removed line must be one of the original repository
        root = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, stdout=subprocess.PIPE).stdout.decode().split()[0]
        orig = set()
        for f, _, _ in edits:
            orig |= set(subprocess.run(["git", "show", root + ":aiok8s/" + f], cwd=repo, stdout=subprocess.PIPE).stdout.decode().splitlines())
        gone = [l[1:] for l in diff.decode().splitlines() if l.startswith("-") and not l.startswith("---")]
        own = [l for l in gone if l not in orig]
        if own:
            print(id, "NOTE: changes lines of my own:", own[:2])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/lib.py", "w").write(LIB)
    open(d + "/demo.py", "w").write("from lib import *\n\n" + demo.strip("\n") + "\n\n\nrun(main)\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print(id, "written")
