#!/usr/bin/env python3
"""Dev helper: hand-written mutants against the checks, in scratch copies (see mutate.py).
usage: batch.py OUT.jsonl LIST.py [name ...]     LIST.py defines B = [(name, "C01,C02", [(file, old, new), ..]), ..]"""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
def main():
    outf = sys.argv[1]; g = {}; exec(open(sys.argv[2]).read(), g); M.prepare()
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); only = sys.argv[3:]
    for name, cs, edits in g["B"]:
        if only and name not in only: continue
        saved = {}; t0 = time.time(); res, msg = "survived", ""; seen = []
        try:
            for f, a, b in edits:
                p = M.MR + "/src/candy/" + f; s = open(p).read(); saved.setdefault(p, s)
                assert s.count(a) == 1, (name, f, s.count(a)); open(p, "w").write(s.replace(a, b))
            for c in cs.split(","):
                rc, o = M.sh("cd %s && VERIF_REPO=%s VERIF_BUILD=%s VERIF_SEED=%s nice -n %s bin/check %s quick" % (M.MV, M.MR, M.MB, os.environ.get("SEED", "1"), os.environ.get("NICE", "5"), c))
                if rc == 1: res = "killed by " + c; m = [x for x in o.splitlines() if x.startswith("# message")]; msg = (m or [""])[0][:160]; break
                if rc == 2 and "build failed" in o: res = "does not compile"; msg = o[-500:]; break
                if rc: res = "check %s rc=%d" % (c, rc); msg = o[-300:]; break
            if res == "survived" or "--tests" in os.environ.get("BF", ""):
                rc, o = M.sh("nice -n 5 bash %s/vp/test.sh %s/vp/o.json" % (M.MR, M.MR)); miss = base - set(json.load(open(M.MR + "/vp/o.json"))["passed"])
                if miss: res = "tests (%d) %s" % (len(miss), res)
        except AssertionError as e: res = "bad edit %s" % (e,)
        finally:
            for p, s in saved.items(): open(p, "w").write(s)
        open(outf, "a").write(json.dumps(dict(name=name, checks=cs, res=res, msg=msg, sec=round(time.time() - t0))) + "\n"); print(name, cs, res, msg[:100], round(time.time() - t0), flush=True)
if __name__ == "__main__": main()
