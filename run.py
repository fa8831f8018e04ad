"""python run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import seams

seams.patch()
from mc import engine, explore


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--choices")
    ap.add_argument("--depth", type=int)  # at most so many deviations (to try things out)
    a = ap.parse_args()
    try:
        mod = importlib.import_module("checks." + a.prop)
        scen = mod.scenarios(a.tier)
    except Exception as e:
        import traceback

        tb = "".join(traceback.format_exception(e))
        if seams.REPO + "/aiok8s" in tb:
            print(tb)
            explore._import_failure(a.prop, e)
            return 1
        raise
    if a.replay or a.choices is not None:
        if a.replay:
            d = json.load(open(a.replay))
        else:
            d = dict(scenario=a.only, choices=json.loads(a.choices or "[]"))
        sc = next(s for s in scen if s.name == d["scenario"])
        r = explore.once_or_twice(sc, bytes(d["choices"]), d.get("twice"), labels=True)
        for l in r.labels:
            if l and l != "run":
                print("   ", l)
        print("observed:")
        for x in r.trace:
            print("   ", x)
        print("loop errors:", r.loop_errors)
        print("diverged:", r.diverged)
        print("violation:", r.violation)
        return 1 if r.violation else 0
    if a.depth is not None:
        for sc in scen:
            sc.total = min(sc.total, a.depth)
    return explore.run_check(a.prop, scen, tier=a.tier, seed=int(os.environ.get("VERIF_SEED") or 1),
                             assumptions=getattr(mod, "ASSUMPTIONS", ()), only=a.only)


if __name__ == "__main__":
    # not sys.exit: the pool's manager thread need not end after its workers were killed
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
