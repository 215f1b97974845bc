#!/usr/bin/env python3
"""Build candy's sources (from /repo's working tree) and the harnesses of /verif.

Two variants of the library:
  fast  - the flags of the repository's Release build (what users run)
  san   - the same sources under AddressSanitizer + UndefinedBehaviorSanitizer
Everything goes to /verif/build (ignored by git); a ninja file tracks header
dependencies, so a changed source file is always recompiled.
"""
import os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = ("-std=c++14 -pthread -w -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -msse4.1 "
          "-DCANDY_HAVE_RLIMIT -DDEBUG_CHECK_CASTS -DNDEBUG -I%s/src -I%s/harness" % (REPO, VERIF))
GXX = "/usr/bin/g++-10" if os.path.exists("/usr/bin/g++-10") else "g++"
VARIANTS = {
    "fast": (GXX, COMMON + " -O2", ""),
    "san": (GXX, COMMON + " -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize-recover=undefined -fno-sanitize=alignment,vptr",
            "-fsanitize=address,undefined -Wl,--wrap=malloc,--wrap=free"),
    "tsan": (GXX, COMMON + " -O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
}
SRC_EXT = (".cc", ".cpp", ".cxx")


def repo_sources():
    lib, mains = [], []
    root = os.path.join(REPO, "src")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(SRC_EXT):
                continue
            p = os.path.join(d, f)
            txt = open(p, errors="replace").read()
            if re.search(r"^\s*(int|auto|signed)\s+main\s*\(", txt, re.M):
                mains.append(p)
            elif f.endswith(("Tests.cc", "Test.cc")):
                continue
            else:
                lib.append(p)
    return lib, mains


def write_ninja(targets):
    """targets: list of (variant, kind, name); kind 'h' harness, 'c' harness that needs no ready-made solver, 'm' repo main."""
    os.makedirs(BUILD, exist_ok=True)
    lib, mains = repo_sources()
    out = ["builddir = %s" % os.path.join(BUILD, "-".join(sorted(set(t[0] for t in targets))))]
    variants = sorted(set(t[0] for t in targets))
    for v in variants:
        cxx, flags, ld = VARIANTS[v]
        out += ["rule cxx_%s" % v, "  command = %s %s $extra -MMD -MF $out.d -c $in -o $out" % (cxx, flags),
                "  depfile = $out.d", "  deps = gcc", "  description = CXX[%s] $in" % v,
                "rule link_%s" % v, "  command = %s %s -pthread $in -o $out -lz" % (cxx, ld),
                "  description = LINK[%s] $out" % v,
                "rule ar_%s" % v, "  command = rm -f $out && ar crs $out $in", "  description = AR $out"]
        objs = []
        for s in lib:
            o = os.path.join(BUILD, v, "repo", os.path.relpath(s, REPO).replace("/", "__") + ".o")
            out.append("build %s: cxx_%s %s" % (o, v, s))
            objs.append(o)
        if v == "san":
            o = os.path.join(BUILD, v, "obj", "bigmalloc.o")
            out += ["rule cc_bm", "  command = gcc -O2 -c $in -o $out", "build %s: cc_bm %s" % (o, os.path.join(VERIF, "harness", "bigmalloc.c"))]
            objs.append(o)
        a = os.path.join(BUILD, v, "libcandy.a")
        out.append("build %s: ar_%s %s" % (a, v, " ".join(objs)))
        # all but the translation unit that instantiates every solver (slow to compile)
        a = os.path.join(BUILD, v, "libcore.a")
        out.append("build %s: ar_%s %s" % (a, v, " ".join(o for o in objs if "CandyBuilder" not in o)))
    defaults = []
    for v, kind, name in targets:
        a = os.path.join(BUILD, v, "libcore.a" if kind == "c" else "libcandy.a")
        exe = os.path.join(BUILD, v, "bin", name)
        if kind in "hc":
            s = os.path.join(VERIF, "harness", name + ".cc")
        else:
            cand = [m for m in mains if os.path.splitext(os.path.basename(m))[0] == name]
            if not cand:
                continue
            s = cand[0]
        o = os.path.join(BUILD, v, "obj", name + ".o")
        out.append("build %s: cxx_%s %s" % (o, v, s))
        out.append("build %s: link_%s %s %s" % (exe, v, o, a))
        defaults.append(exe)
    out.append("default " + " ".join(defaults))
    p = os.path.join(BUILD, "build-%d-%s.ninja" % (os.getpid(), "".join(variants)))
    open(p, "w").write("\n".join(out) + "\n")
    return p, defaults


def build(targets, quiet=True):
    ok, out = build_once(targets, True)
    if not ok and any(t[1] == "c" for t in targets):
        ok, out = build_once([(v, "h" if k == "c" else k, n) for v, k, n in targets], True)
    if not ok or not quiet:
        sys.stderr.write(out[-6000:])
    return ok, out


def partial(targets):
    """The targets among the given ones that can be built (a component-level harness may not
    compile any more after an interface of its component changed)."""
    good = []
    for t in targets:
        for k in ([t[1], "h"] if t[1] == "c" else [t[1]]):
            if build_once([(t[0], k, t[2])])[0]:
                good.append(t)
                break
    return good


def build_once(targets, quiet=True):
    p, exes = write_ninja(targets)
    try:
        r = subprocess.run(["ninja", "-f", p], cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        os.remove(p)
    if r.returncode != 0 or not quiet:
        sys.stderr.write(r.stdout[-6000:])
    return r.returncode == 0, r.stdout


if __name__ == "__main__":
    ts = []
    for a in sys.argv[1:]:
        v, k, n = a.split(":")
        ts.append((v, k, n))
    ok, _ = build(ts, quiet=False)
    sys.exit(0 if ok else 1)
