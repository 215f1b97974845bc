#!/usr/bin/env python3
"""Dev helper: systematic mutants of the sources against the checks, in scratch copies.
usage: mutate.py OUT.jsonl N SEED file:check[,check..] ...   (file relative to src/candy)
Needs copies: /tmp/mr (repository, built), /tmp/mv (this directory); see prepare().
A mutant no check kills is built and tested; one that passes the tests as well is a survivor to look at."""
import json, os, random, re, subprocess, sys, time
MR, MV, MB = os.environ.get("MR", "/tmp/mr"), os.environ.get("MV", "/tmp/mv"), os.environ.get("MB", "/tmp/mb")
def sh(c, t=1200):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace"); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
def prepare():
    if not os.path.isdir(MR):
        sh("cp -a /repo %s && rm -rf %s/_build" % (MR, MR)); os.makedirs(MR + "/vp", exist_ok=True)
        for f in ("build.sh", "test.sh"): open(MR + "/vp/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", MR).replace("/opt/vp/build.sh", MR + "/vp/build.sh"))
        print(sh("bash %s/vp/test.sh %s/vp/o.json" % (MR, MR))[0])
    sh("rm -rf %s; mkdir -p %s; cd /verif && cp -a bin harness tools MANIFEST.json known-findings.json properties.jsonl %s/ && mkdir -p %s/evidence" % (MV, MV, MV, MV))
OPS = [(r"(?<![<>=!\-+*/&|])<(?![<=>])(?= )", "<="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>(?= )", ">="), (r"(?<= )>=(?= )", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+ 1\b", "+ 2"), (r"(?<=[ (])- 1\b", "- 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[ (])!(?=[A-Za-z_(])", ""), (r"(?<=[ (])~(?=[A-Za-z_(])", ""),
       (r"\bcontinue;", "break;"), (r"\bbreak;", ""), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"= 0\b", "= 1"), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\|=", "&="), (r"&=", "|="), (r" % (\d+)", r" % 2")]
def mutants(path):
    src = open(path).read().split("\n"); out = []; blk = False
    for i, l in enumerate(src):
        s = l.strip()
        if blk:
            if "*/" in s: blk = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: blk = True
            continue
        if not s or s.startswith(("//", "#", "*", "template", "static_assert", "assert", "using", "friend", "class", "struct", "public", "private", "case")) or "operator" in s or "std::cout" in s or "cerr" in s: continue
        code = l.split("//")[0]
        for a, b in OPS:
            if "<" in a and ("vector<" in code or "template" in code): continue
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: out.append((i, n))
        if re.match(r"^\s+[\w.\->\[\]()*:]+\(.*\);\s*$", code) and not re.match(r"^\s+(return|throw|delete|if|for|while)\b", code): out.append((i, re.match(r"^\s*", code).group() + ";"))
        if re.match(r"^\s+[\w.\->\[\]()*]+ [-+|&]?= .*;\s*$", code) and "(" not in code.split("=")[0]: out.append((i, re.match(r"^\s*", code).group() + ";"))
    return src, out
def main():
    outf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); prepare(); rnd = random.Random(seed)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    todo = []
    for a in sys.argv[4:]:
        f, cs = a.split(":"); p = MR + "/src/candy/" + f; src, ms = mutants(p); rnd.shuffle(ms); seen = set(); k = 0
        for m in ms:
            if k >= n: break
            if m in seen: continue
            seen.add(m); todo.append((f, cs.split(","), m)); k += 1
    rnd.shuffle(todo); stat = {}
    for f, cs, (i, nl) in todo:
        p = MR + "/src/candy/" + f; orig = open(p).read(); src = orig.split("\n"); old = src[i]; src[i] = nl; open(p, "w").write("\n".join(src)); t0 = time.time(); res, msg = "survived", ""
        try:
            for c in cs:
                rc, o = sh("cd %s && VERIF_REPO=%s VERIF_BUILD=%s VERIF_SEED=1 nice -n %s bin/check %s quick" % (MV, MR, MB, os.environ.get("NICE", "5"), c))
                if rc == 1: res = "killed by " + c; m = [x for x in o.splitlines() if x.startswith("# message")]; msg = (m or [""])[0][:120]; break
                if rc == 2 and "build failed" in o: res = "does not compile"; break
                if rc: res = "check %s rc=%d" % (c, rc); msg = o[-300:]; break
            if res == "survived":
                rc, o = sh("nice -n 5 bash %s/vp/test.sh %s/vp/o.json" % (MR, MR)); miss = base - set(json.load(open(MR + "/vp/o.json"))["passed"])
                if miss: res = "tests (%d)" % len(miss)
        finally: open(p, "w").write(orig)
        stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
        open(outf, "a").write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=nl.strip(), res=res, msg=msg, sec=round(time.time() - t0))) + "\n"); print(stat, flush=True)
if __name__ == "__main__": main()
