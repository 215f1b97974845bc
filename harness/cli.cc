// The candy program as its users run it: verdict, exit status, model line and proof file, for generated formulas and command lines.
#include "gen.h"
#include "runner.h"
#include "drat.h"
#include <poll.h>
#include <zlib.h>

struct Said { std::vector<std::string> s, v; std::string stray; };
static Said parse(const std::string& out) { Said r; std::istringstream is(out); std::string l; while (std::getline(is, l)) { if (l.compare(0, 2, "s ") == 0) r.s.push_back(l.substr(2)); else if (l.compare(0, 2, "v ") == 0 || l == "v") r.v.push_back(l.substr(1)); else if (l != "c" && l.compare(0, 2, "c ") != 0 && !l.empty() && r.stray.empty()) r.stray = l; } return r; }
static void gz(const std::string& path, const std::string& text) { gzFile g = gzopen(path.c_str(), "wb"); gzwrite(g, text.data(), (unsigned)text.size()); gzclose(g); }
static bool taut(const ref::Cl& c) { for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) return true; return false; }
static bool modelLine(const Said& s, int n, std::vector<int>& m, std::string& why) {
    m.assign(n + 1, 0); bool end = false; for (auto& l : s.v) { std::istringstream is(l); std::string w; while (is >> w) { char* e; long x = strtol(w.c_str(), &e, 10); if (*e) { why = "token " + w; return false; } if (end) { why = "literals after the 0"; return false; } if (x == 0) { end = true; continue; } if (std::labs(x) > n) { why = "variable " + w + " is not in the formula"; return false; } int y = x > 0 ? 1 : -1; if (m[std::labs(x)] == -y) { why = "both polarities of " + w; return false; } m[std::labs(x)] = y; } }
    if (!end) { why = "no terminating 0"; return false; } return true;
}
// options that must not change the answer
static void solverArgs(pbt::Src& s, std::vector<std::string>& a) {
    unsigned b = s.pick({6, 4, 2}); if (b == 1) a.push_back("-use-lrb"); if (b == 2) { a.push_back("-rsil-enable"); static const char* md[] = {"unrestricted", "vanishing", "implicationbudgeted"}; a.push_back(std::string("-rsil-mode=") + md[s.below(3)]); a.push_back("-rs-rounds=" + std::to_string(2048)); if (s.flip()) a.push_back("-advice-size=2"); if (s.flip()) a.push_back("-rsil-min-gate-frac=0.0001"); if (s.coin(1, 3)) a.push_back("-rsil-only-miters"); if (s.coin(1, 3)) a.push_back("-rsil-filter-only-backbone"); if (s.coin(1, 4)) a.push_back("-rsil-filter-by-input-dependencies=" + std::to_string(s.range(1, 5))); if (s.coin(1, 4)) a.push_back("-rs-max-conj-size=2"); if (s.coin(1, 4)) a.push_back("-rs-only-nonmono-gates"); if (s.coin(1, 4)) a.push_back("-rs-remove-backbone-conj"); if (s.coin(1, 4)) a.push_back("-rs-abort-by-rrat"); if (s.coin(1, 4)) a.push_back("-rsil-van-halflife=" + std::to_string(s.range(1, 9))); if (s.coin(1, 4)) a.push_back("-rsil-imp-budgets=" + std::to_string(s.range(1, 9))); }
    if (s.coin(1, 3)) a.push_back("-static-propagate"); if (s.coin(1, 3)) a.push_back("-no-pre"); if (s.coin(1, 4)) a.push_back("-no-elim"); if (s.coin(1, 3)) a.push_back("-inprocessing=" + std::to_string(s.range(0, 3))); if (s.coin(1, 4)) a.push_back("-sort-variables"); if (s.coin(1, 4)) a.push_back("-cl-lim=" + std::to_string(s.range(0, 30)));
    if (s.coin(1, 3)) { a.push_back("-firstReduceDB=" + std::to_string(s.range(0, 40))); a.push_back("-incReduceDB=" + std::to_string(s.range(0, 20))); } if (s.coin(1, 3)) a.push_back("-szLBDQueue=" + std::to_string(s.range(10, 20))); if (s.coin(1, 4)) a.push_back("-szTrailQueue=" + std::to_string(s.range(10, 50))); if (s.coin(1, 5)) a.push_back("-extra-bump"); if (s.coin(1, 5)) a.push_back("-keep-median-lbd"); if (s.coin(1, 5)) a.push_back("-no-recalculate-lbd"); if (s.coin(1, 5)) a.push_back("-persistentLBD=" + std::to_string(s.range(0, 8))); if (s.coin(1, 6)) a.push_back("-K=0.9"); if (s.coin(1, 6)) a.push_back("-R=1.2"); if (s.coin(1, 6)) a.push_back("-var-decay=0.6"); if (s.coin(1, 6)) a.push_back("-time-limit=1000"); if (s.coin(1, 6)) a.push_back("-memory-limit=100000");
}
struct Setup { ref::Cnf f; std::string fam, text; std::vector<std::string> args; std::string in; std::vector<std::string> files; ~Setup() { for (auto& x : files) unlink(x.c_str()); } };
static void input(pbt::Src& src, pbt::Ctx& ctx, Setup& s, bool hard = false) {
    s.f = hard ? gen::hard(src, &s.fam) : src.coin(1, 60) ? gen::wide(src, 3000, &s.fam) : gen::any(src, 1, &s.fam); s.text = ref::dimacs(s.f); unsigned how = src.pick({4, 1, 2}); if (how == 2) { s.in = s.text; ctx.label("stdin"); return; }
    std::string p = scratch::file(how == 1 ? ".cnf.gz" : ".cnf"); s.files.push_back(p); if (how == 1) gz(p, s.text); else scratch::spit(p, s.text); s.args.insert(s.args.begin() + src.below(s.args.size() + 1), p); ctx.label(how == 1 ? "gzip" : "file");
}
static void showArgs(pbt::Ctx& ctx, const Setup& s) { ctx.show << "candy"; for (auto& a : s.args) ctx.show << " " << a; if (!s.in.empty()) ctx.show << " < stdin"; ctx.show << "\nfamily: " << s.fam << "\n" << s.text; ctx.publish(); }
static void sound(pbt::Ctx& ctx, const Run& r) {
    if (r.timeout) throw pbt::Discard(); // slow machine or hard formula: nothing is claimed about time
    if (r.sig == SIGKILL) throw pbt::Discard(); // out of memory
    ctx.check(r.sig == 0, "candy is killed by signal " + std::to_string(r.sig) + "; stdout: " + tail(r.out) + " stderr: " + tail(r.err)); ctx.check(r.status != 98 && r.status != 99, "memory error: " + tail(r.err)); ctx.check(r.status != 97, "data race: " + tail(r.err.substr(0, 6000))); ctx.check(r.status != 127, "cannot start " + program());
}
static void verdictOf(pbt::Ctx& ctx, const ref::Cnf& f, const Run& r, const Said& said, int expect, bool unknownOk, bool wantModel, int satStatus, int unsatStatus) {
    ctx.check(said.stray.empty(), "output line without a c/s/v prefix: " + said.stray); ctx.check(said.s.size() == 1, std::to_string(said.s.size()) + " verdict lines, exit status " + std::to_string(r.status) + "; stdout: " + tail(r.out) + " stderr: " + tail(r.err));
    std::string v = said.s[0]; int got = v == "SATISFIABLE" ? 1 : v == "UNSATISFIABLE" ? -1 : v == "INDETERMINATE" || v == "UNKNOWN" ? 0 : 9; ctx.check(got != 9, "verdict line: s " + v);
    if (!(unknownOk && got == 0)) ctx.check(got == expect, "candy says " + v + ", the formula is " + (expect == 1 ? "satisfiable" : "unsatisfiable"));
    int st = got == 1 ? satStatus : got == -1 ? unsatStatus : 0; ctx.check(r.status == st, "exit status " + std::to_string(r.status) + " for " + v);
    if (got != 1 || !wantModel) { ctx.check(said.v.empty(), "model line without -model or without a model"); return; }
    ctx.check(!said.v.empty(), "no model line"); std::vector<int> m; std::string why; int n = ref::maxVar(f); ctx.check(modelLine(said, n, m, why), "bad model line: " + why);
    for (auto& c : f.c) ctx.check(taut(c) || ref::satisfied(c, m), "clause (" + ref::str(c) + ") is not satisfied by the printed model");
}
PROPERTY(answer) {
    Setup s; solverArgs(src, s.args); bool model = src.coin(2, 3); if (model) s.args.push_back("-model"); int verb = (int)src.below(4) - 1; if (verb >= 0) s.args.push_back("-verb=" + std::to_string(verb));
    unsigned extra = src.pick({10, 4, 4, 4, 2, 1}); std::string proof, dir; int satStatus = 10, unsatStatus = 20; bool mini = false;
    if (extra == 1 || extra == 3) { proof = scratch::file(".drat"); s.files.push_back(proof); s.args.push_back("-certified-output=" + proof); } if (extra == 2) { s.args.push_back("-test-model"); satStatus = 0; } if (extra == 3) { s.args.push_back("-test-proof"); unsatStatus = 0; }
    if (extra == 5) { s.args.push_back("-test-proof"); s.args.push_back("-certified-output=" + scratch::file(".nodir") + "/proof"); unsatStatus = 1; ctx.label("test-proof of a proof that cannot be written"); }
    if (extra == 4) { mini = true; s.args.push_back("-minimize"); if (src.flip()) s.args.push_back("-minimize-pruned"); if (src.flip()) s.args.push_back("-minimize-minimal"); if (src.coin(1, 3)) s.args.push_back("-minimize-project"); }
    for (size_t i = s.args.size(); i > 1; i--) std::swap(s.args[i - 1], s.args[src.below(i)]);
    input(src, ctx, s); int limit = 0, top = 0; for (auto& c : s.f.c) for (int l : c) top = std::max(top, std::abs(l)); if (top < 990 && src.coin(1, 8)) { limit = std::max(0, top + (int)src.range(0, 6) - 3); s.args.push_back("-test-limit=" + std::to_string(limit)); if (limit >= top && limit < s.f.n) throw pbt::Discard(); }
    if (mini && s.f.n > 40) throw pbt::Discard(); showArgs(ctx, s); int expect = ref::solve(s.f);
    Run r = run(s.args, s.in, 20000); sound(ctx, r); Said said = parse(r.out);
    if (limit > 0 && limit < top) { ctx.check(said.s.empty() && said.v.empty() && said.stray.empty() && r.status == 0, "a verdict or exit status " + std::to_string(r.status) + " for a formula above the -test-limit: " + tail(r.out)); ctx.label("above the test limit"); return; }
    verdictOf(ctx, s.f, r, said, expect, false, model && !mini, satStatus, unsatStatus);
    if (!proof.empty()) checkProof(s.f, scratch::slurp(proof), expect < 0, ctx);
    if (mini && model && expect == 1) {
        size_t a = r.out.find("c Minimized-Model: "); ctx.check(a != std::string::npos, "no minimised model"); std::istringstream is(r.out.substr(a + 19, r.out.find('\n', a) - a - 19)); std::vector<int> m(ref::maxVar(s.f) + 1, 0); std::string w; bool pr = false; for (auto& x : s.args) if (x == "-minimize-pruned" || x == "-minimize-project") pr = true;
        ref::Cnf g = s.f; while (is >> w) { int x = atoi(w.c_str()); if (!x || std::abs(x) >= (int)m.size()) continue; m[std::abs(x)] = x > 0 ? 1 : -1; g.c.push_back({x}); } if (!pr) for (auto& c : s.f.c) ctx.check(taut(c) || ref::satisfied(c, m), "clause (" + ref::str(c) + ") is not satisfied by the minimised model"); else ctx.check(ref::solve(g) == 1, "the minimised model contradicts the formula"); ctx.label("minimised");
    }
    ctx.label(expect == 1 ? "satisfiable" : "unsatisfiable"); if (satStatus == 0) ctx.label("test-model"); if (unsatStatus == 0) ctx.label("test-proof"); if (s.f.c.size() > 3) ctx.nontrivial();
}
// formulas that keep several solvers busy at once; their status is known by construction
static ref::Cnf busy(pbt::Src& s, int& expect, std::string& fam) {
    ref::Cnf f; unsigned k = s.pick({3, 2, 2});
    if (k == 0) { fam = "planted"; f.n = s.range(150, 260); std::vector<int> m(f.n + 1); for (int v = 1; v <= f.n; v++) m[v] = s.flip() ? 1 : -1; int c = (int)(f.n * s.range(400, 460) / 100); while ((int)f.c.size() < c) { ref::Cl x = ref::clauseK(s, f.n, 3); if (ref::satisfied(x, m)) f.c.push_back(x); else { x[0] = -x[0]; f.c.push_back(x); } } expect = 1; }
    else if (k == 1) { fam = "pigeonhole"; int h = s.range(6, 8); f.n = (h + 1) * h; for (int i = 0; i <= h; i++) { ref::Cl c; for (int j = 0; j < h; j++) c.push_back(i * h + j + 1); f.c.push_back(c); for (int i2 = 0; i2 < i; i2++) for (int j = 0; j < h; j++) f.c.push_back({-(i * h + j + 1), -(i2 * h + j + 1)}); } expect = -1; }
    else { fam = "parity cycle"; int n = s.range(18, 30); f.n = n; // every variable in two equations; the right-hand sides sum to one
        std::vector<std::vector<int>> eq(n * 2 / 3 + 1); for (int r = 0; r < 2; r++) for (int v = 1; v <= n; v++) eq[s.below(eq.size())].push_back(v); bool sum = false; for (size_t i = 0; i < eq.size(); i++) { std::vector<int> x = eq[i], y; std::sort(x.begin(), x.end()); for (size_t a = 0; a < x.size(); a++) if (a + 1 < x.size() && x[a] == x[a + 1]) a++; else y.push_back(x[a]); if (y.size() > 7) throw pbt::Discard(); bool rhs = i + 1 < eq.size() ? s.flip() : !sum; sum ^= rhs; for (unsigned b = 0; b < (1u << y.size()); b++) { bool par = false; ref::Cl c; for (size_t a = 0; a < y.size(); a++) { bool t = b >> a & 1; par ^= t; c.push_back(t ? -y[a] : y[a]); } if (par != rhs) f.c.push_back(c); } } expect = -1; }
    return f;
}
PROPERTY(rsar) {
    Setup s; s.args.push_back("-rsar-enable"); solverArgs(src, s.args); s.args.push_back("-rs-rounds=2048"); if (src.coin(4, 5)) s.args.push_back("-rsar-min-gatecount=" + std::to_string(src.range(1, 4))); if (src.flip()) s.args.push_back("-rsar-max-refinements=" + std::to_string(src.range(1, 5))); if (src.flip()) { std::string l = "-rsar-heur-idc=" + std::to_string(src.range(1, 6)); if (src.flip()) l += " " + std::to_string(src.range(0, 4)); s.args.push_back(l); } bool model = src.flip(); if (model) s.args.push_back("-model"); if (src.coin(1, 3)) s.args.push_back("-gate-recognition-method=" + std::to_string(src.below(31)));
    for (size_t i = 0; i < s.args.size(); i++) if (s.args[i] == "-rsil-enable") s.args.erase(s.args.begin() + i--);
    s.f = src.coin(2, 3) ? (src.flip() ? gen::circuitCnf(src, 5, 14) : gen::miterCnf(src, 5, 10)) : gen::any(src, 1, &s.fam); s.text = s.in = ref::dimacs(s.f); showArgs(ctx, s); int expect = ref::solve(s.f); Run r = run(s.args, s.in, 20000); sound(ctx, r); Said said = parse(r.out); verdictOf(ctx, s.f, r, said, expect, false, model, 10, 20); ctx.label(expect == 1 ? "satisfiable" : "unsatisfiable"); if (r.out.find("insufficient gate count") == std::string::npos && r.out.find("no conjectures") == std::string::npos) { ctx.nontrivial(); ctx.label("with conjectures"); }
}
PROPERTY(interrupt) {
    Setup s; solverArgs(src, s.args); bool model = src.flip(); if (model) s.args.push_back("-model"); int expect, after = -1; unsigned k = src.pick({3, 2, 1}); bool par = k != 1 && src.coin(1, 4);
    if (par) { s.args.push_back("-threads=" + std::to_string(src.range(2, 4))); s.args.push_back("-thread-initialization-delay=10"); s.args.push_back("-rs-rounds=2048"); }
    if (src.flip()) s.f = busy(src, expect, s.fam); else { s.f = gen::any(src, 1, &s.fam); expect = ref::solve(s.f); } s.text = s.in = ref::dimacs(s.f);
    if (k == 0) after = (int)src.range(0, par ? 300 : 60); else if (k == 1) s.args.push_back("-memory-limit=1"); else { s.args.push_back("-time-limit=1"); }
    showArgs(ctx, s); ctx.show << "SIGINT after " << after << " ms\n"; ctx.publish(); Run r = run(s.args, s.in, 40000, after); if (r.timeout || r.sig == SIGKILL) throw pbt::Discard(); ctx.check(r.sig == 0 || r.sig == SIGINT, "candy is killed by signal " + std::to_string(r.sig)); ctx.check(r.status < 97, "memory error or data race: " + tail(r.err));
    Said said = parse(r.out); if (after >= 0 && (r.sig == SIGINT || r.status == 1)) { ctx.label("quit"); ctx.check(said.s.size() <= 1, "two verdicts"); if (said.s.size() == 1) ctx.check(said.s[0] == (expect == 1 ? "SATISFIABLE" : "UNSATISFIABLE") || said.s[0] == "INDETERMINATE", "wrong verdict " + said.s[0]); return; }
    verdictOf(ctx, s.f, r, said, expect, true, model, 10, 20); ctx.label(said.s[0]); if (r.out.find("desire to interrupt") != std::string::npos) { ctx.label("handled SIGINT"); } if (said.s[0][0] == 'I' || r.out.find("desire to interrupt") != std::string::npos) ctx.nontrivial(); if (par) ctx.label("parallel");
}
PROPERTY(badinput) {
    Setup s; s.f = gen::any(src, 1, &s.fam); s.text = ref::dimacs(s.f); if (src.flip()) solverArgs(src, s.args); if (src.coin(1, 3)) s.args.push_back("-model"); if (src.coin(1, 4)) s.args.push_back("-gate-stats"); if (src.coin(1, 4)) s.args.push_back("-threads=2"); unsigned k = src.pick({3, 2, 2, 1, 1, 1, 1}); std::string kind; std::string path; bool stdinp = src.flip();
    if (k == 0) { static const char* junk[] = {"x", "1x", "a1", "0.5", "--1", "%", "1,2"}; kind = "not a number"; s.text += junk[src.below(7)]; s.text += src.flip() ? " 0\n" : " 1 0\n"; }
    else if (k == 1) { kind = "unterminated clause"; s.text += "1 -2"; if (src.flip()) s.text += "\n"; }
    else if (k == 2) { kind = "variable out of range"; s.text += (src.flip() ? "99999999999999999999 0\n" : "3000000000 0\n"); }
    else if (k == 3) { kind = "missing file"; path = scratch::file(".nofile"); stdinp = false; } else if (k == 4) { kind = "directory"; path = "/tmp"; stdinp = false; }
    else if (k == 6) { kind = "unknown rsil mode"; static const char* md[] = {"foo", "", "Vanishing", "vanishing ", "unrestricte"}; s.args.push_back(std::string("-rsil-mode=") + md[src.below(5)]); }
    else { kind = "truncated gzip"; path = scratch::file(".cnf.gz"); s.files.push_back(path); gz(path, s.text + "c " + std::string(src.range(0, 200), 'x') + "\n"); std::string b = scratch::slurp(path); size_t cut = 1 + src.below(std::min<size_t>(b.size() - 18, 30)); scratch::spit(path, b.substr(0, b.size() - 8 - cut)); stdinp = false; }
    if (k < 3 || k == 6) { if (stdinp) s.in = s.text; else { path = scratch::file(".cnf"); s.files.push_back(path); scratch::spit(path, s.text); } } if (!path.empty()) s.args.push_back(path);
    ctx.show << kind << "\n"; showArgs(ctx, s); Run r = run(s.args, s.in, 20000); sound(ctx, r); Said said = parse(r.out); ctx.check(said.s.empty() && said.v.empty(), "a verdict for input that cannot be read (" + kind + "): " + tail(r.out)); ctx.check(r.status == 1, "exit status " + std::to_string(r.status) + " for input that cannot be read (" + kind + ")"); ctx.check(said.stray.empty(), "output line without a c/s/v prefix: " + said.stray); ctx.label(kind); ctx.nontrivial();
}
PROPERTY(gatestats) {
    Setup s; s.args.push_back("-gate-stats"); if (src.flip()) s.args.push_back("-gate-recognition-method=" + std::to_string(src.below(31))); if (src.flip()) s.args.push_back("-gate-tries=" + std::to_string(src.below(20)));
    input(src, ctx, s); showArgs(ctx, s); Run r = run(s.args, s.in, 20000); sound(ctx, r); Said said = parse(r.out); ctx.check(said.stray.empty(), "output line without a c/s/v prefix: " + said.stray); ctx.check(said.s.empty() && said.v.empty(), "verdict from -gate-stats"); ctx.check(r.status == 0, "exit status " + std::to_string(r.status)); if (s.f.c.size() > 3) ctx.nontrivial();
    auto num = [&](const char* k) { size_t a = r.out.find(std::string("c ") + k + ": "); return a == std::string::npos ? -1L : atol(r.out.c_str() + a + strlen(k) + 4); };
    long nc = 0, top = 0; for (auto& c : s.f.c) for (int l : c) top = std::max(top, (long)std::abs(l)); for (auto& c : s.f.c) if (!taut(c)) nc++; ctx.check(num("Clauses") == nc, "reports " + std::to_string(num("Clauses")) + " clauses instead of " + std::to_string(nc)); ctx.check(num("Variables") >= 0 && num("Variables") >= top, "reports " + std::to_string(num("Variables")) + " variables"); ctx.check(num("RemainingClauses") >= 0 && num("RemainingClauses") <= nc, "more remaining clauses than clauses"); ctx.check(num("Gates") >= 0 && num("Gates") <= num("Variables"), "more gates than variables"); ctx.check(num("Monoton") <= num("Gates"), "more monotone gates than gates");
}
// a run can be repeated: the same command line gives the same answer, model and proof
PROPERTY(repeat) {
    Setup s; solverArgs(src, s.args); s.args.push_back("-model"); if (src.coin(1, 3)) s.args.push_back("-rsar-enable"), s.args.push_back("-rs-rounds=2048"), s.args.erase(std::remove(s.args.begin(), s.args.end(), "-rsil-enable"), s.args.end()); std::string proof = scratch::file(".drat"); s.files.push_back(proof); s.args.push_back("-certified-output=" + proof);
    input(src, ctx, s, src.coin(1, 3)); showArgs(ctx, s); Run a = run(s.args, s.in, 20000); sound(ctx, a); std::string pa = scratch::slurp(proof); Run b = run(s.args, s.in, 20000); sound(ctx, b); std::string pb = scratch::slurp(proof); Said x = parse(a.out), y = parse(b.out);
    ctx.check(a.status == b.status, "exit status " + std::to_string(a.status) + ", then " + std::to_string(b.status)); ctx.check(x.s == y.s, "another verdict in the second run"); ctx.check(x.v == y.v, "another model in the second run: " + (x.v.empty() ? "" : tail(x.v[0])) + " --- " + (y.v.empty() ? "" : tail(y.v[0])));
    ctx.check(pa == pb, "another proof in the second run: " + tail(pa) + " --- " + tail(pb)); if (s.f.c.size() > 3) ctx.nontrivial(); ctx.label(pa.size() > 100 ? "proof of more than 100 bytes" : "short proof");
}
PROPERTY(concurrent) {
    Setup s; int t = src.range(2, 6); s.args = {"-threads=" + std::to_string(t), "-thread-initialization-delay=10", "-rs-rounds=2048"}; bool model = src.coin(3, 4); if (model) s.args.push_back("-model"); int v = (int)src.below(4) - 1; if (v >= 0) s.args.push_back("-verb=" + std::to_string(v)); if (src.coin(1, 3)) s.args.push_back("-static-propagate"); if (src.coin(1, 3)) s.args.push_back("-inprocessing=1"); if (src.coin(1, 3)) s.args.push_back("-test-model");
    int expect; s.f = busy(src, expect, s.fam); s.text = s.in = ref::dimacs(s.f); showArgs(ctx, s); bool tm = false; for (auto& a : s.args) if (a == "-test-model") tm = true;
    Run r = run(s.args, s.in, 30000); sound(ctx, r); Said said = parse(r.out); verdictOf(ctx, s.f, r, said, expect, false, model, tm ? 0 : 10, 20); ctx.label(s.fam); if (r.out.find("Initializing Solver 1") != std::string::npos) { ctx.nontrivial(); ctx.label("two or more threads"); } if (r.out.find("Initializing Solver 3") != std::string::npos) ctx.label("four or more threads");
}
PROPERTY(parallel) {
    Setup s; int t = src.range(2, 8); s.args.push_back("-threads=" + std::to_string(t)); s.args.push_back("-thread-initialization-delay=10"); s.args.push_back("-rs-rounds=2048"); bool model = src.flip(); if (model) s.args.push_back("-model"); { int v = (int)src.below(4) - 1; if (v >= 0) s.args.push_back("-verb=" + std::to_string(v)); } if (src.coin(1, 3)) s.args.push_back("-static-propagate"); if (src.coin(1, 3)) s.args.push_back("-inprocessing=" + std::to_string(src.range(0, 2)));
    input(src, ctx, s, src.coin(1, 3)); showArgs(ctx, s); int expect = ref::solve(s.f); Run r = run(s.args, s.in, 20000); sound(ctx, r); Said said = parse(r.out); verdictOf(ctx, s.f, r, said, expect, false, model, 10, 20); ctx.label(expect == 1 ? "satisfiable" : "unsatisfiable"); if (s.f.c.size() > 3) ctx.nontrivial();
}
PBT_MAIN
