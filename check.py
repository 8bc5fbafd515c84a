#!/usr/bin/env python3
"""check.py C05            runs the check of a property (VERIF_TIER=quick|thorough, VERIF_SEED)
check.py --setup        builds the driver
check.py --replay FILE  repeats the calls of a reported violation"""
import json, os, shutil, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from lib import engine, plans, tools


def known(prop):
    with open("known-findings.txt") as f:
        return [l.split(" ", 2)[2].strip() for l in f if l.startswith("known: property=%s " % prop)]


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in plans.PLANS:
        print("no check for", prop)
        return 2
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    run = engine.Run(prop, plans.PLANS[prop](tier), tier, seed)
    try:
        run.main()
        return 0
    except engine.Violation as v:
        run.finish(1)
        print(v)
        print("VIOLATION property=%s replay=%s" % (prop, v.data))
        return 1
    except tools.ToolError as e:
        print("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
        shutil.rmtree(tools.TMP, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    run = engine.Run("replay", {"header": d["header"]}, "quick", 1)
    run.drivers[d["profile"]] = tools.build(d["profile"])
    job = engine.Job("replay", d["module"], [d["calls"]], d["profile"], d["processes"])
    log = run.record(job, job.eps, os.path.join(run.dir, "replay"))
    print(open(log).read())
    bad, _ = run.judge(job, log)
    print("accepted" if bad is None else "REJECTED: %s: %s" % (bad[2], json.dumps(bad[1])))
    shutil.rmtree(run.dir, ignore_errors=True)
    return 0 if bad is None else 1


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for p in ("dev", "plain"):
            print(tools.build(p))
        sys.exit(0)
    if a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    if len(a) != 1:
        print(__doc__)
        sys.exit(2)
    try:
        rc = check(a[0])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
