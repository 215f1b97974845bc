#!/usr/bin/env python3
"""Dev helper: for each seeded bug, apply it to /repo, build, run the stable tests, its demo
and the property's check, then undo it; afterwards all demos on the clean tree.
usage: seedrun.py [--nocheck] [--notest] [id ...]"""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = V + "/seeded/" + i; meta = json.load(open(d + "/meta.json"))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(i, "BUILD FAILED", r.stdout[-800:]); continue
        miss = "-"
        if "--notest" not in flags:
            sh("bash /opt/vp/test.sh /tmp/st.json"); miss = base - set(json.load(open("/tmp/st.json"))["passed"])
        dm = sh("cp -r %s /tmp/demo.%s && cd /repo && bash /tmp/demo.%s/demo.sh; rc=$?; rm -rf /tmp/demo.%s; exit $rc" % (d, i, i, i))
        res = ""
        if "--nocheck" not in flags:
            c = sh("cd %s && VERIF_SEED=1 bin/check %s quick" % (V, meta["property"]))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            m = [l for l in c.stdout.splitlines() if l.startswith("# message")]
            res = "check rc=%d %s %s | %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED", (m or [""])[0][:110], c.stdout.strip().splitlines()[-1][-90:] if c.stdout.strip() else "")
        print(i, meta["property"], "tests-missing:", len(miss) if miss != "-" else "-", list(miss)[:3] if miss != "-" else "", "demo rc=%d%s" % (dm.returncode, "" if dm.returncode else " DEMO DOES NOT FAIL"), res, flush=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
for i in ids:
    d = V + "/seeded/" + i
    dm = sh("cp -r %s /tmp/demo.%s && cd /repo && bash /tmp/demo.%s/demo.sh; rc=$?; rm -rf /tmp/demo.%s; exit $rc" % (d, i, i, i))
    if dm.returncode: print(i, "DEMO FAILS ON THE CLEAN TREE", dm.returncode, dm.stdout[-500:])
