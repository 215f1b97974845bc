// cnf2aig: the printed circuit is a well-formed AIGER file whose output is true for exactly the inputs that extend to a model of the formula.
#include "gen.h"
#include <array>
#include "runner.h"
struct Aig { long maxv = 0, ni = 0, nl = 0, no = 0, na = 0; std::vector<long> in, out; std::vector<std::array<long, 3>> a; std::map<long, size_t> def; };
static std::string parseAig(const std::string& t, Aig& g) {
    std::istringstream is(t); std::string w; if (!(is >> w) || w != "aag") return "no aag header"; if (!(is >> g.maxv >> g.ni >> g.nl >> g.no >> g.na)) return "broken header"; if (g.nl != 0 || g.no != 1) return "not one output and no latch";
    auto lit = [&](long& l) -> bool { return (bool)(is >> l) && l >= 0 && l <= 2 * g.maxv + 1; };
    std::set<long> defd; for (long i = 0; i < g.ni; i++) { long l; if (!lit(l)) return "input literal missing or out of range"; if (l < 2 || l % 2) return "input literal " + std::to_string(l) + " is negated or constant"; if (!defd.insert(l / 2).second) return "variable " + std::to_string(l / 2) + " is defined twice"; g.in.push_back(l); }
    { long l; if (!lit(l)) return "output literal missing or out of range"; g.out.push_back(l); }
    for (long i = 0; i < g.na; i++) { std::array<long, 3> x; for (long& l : x) if (!lit(l)) return "and-gate literal missing or out of range"; if (x[0] < 2 || x[0] % 2) return "and-gate output " + std::to_string(x[0]) + " is negated or constant"; if (!defd.insert(x[0] / 2).second) return "variable " + std::to_string(x[0] / 2) + " is defined twice"; g.def[x[0] / 2] = g.a.size(); g.a.push_back(x); }
    std::string rest; if (is >> rest && rest != "c" && rest[0] != 'i' && rest[0] != 'o') return "text after the last gate: " + rest;
    if (g.maxv < (long)defd.size()) return "more variables defined than the header admits";
    for (auto& x : g.a) for (int k = 1; k < 3; k++) if (x[k] > 1 && !defd.count(x[k] / 2)) return "literal " + std::to_string(x[k]) + " is used but never defined"; if (g.out[0] > 1 && !defd.count(g.out[0] / 2)) return "the output is never defined";
    return "";
}
// 0/1, or -1 for a cyclic definition
static int value(const Aig& g, long l, std::map<long, int>& v) {
    std::vector<long> st{l / 2}; std::set<long> open; if (!v.count(0)) v[0] = 0;
    while (!st.empty()) { long x = st.back(); if (v.count(x)) { st.pop_back(); continue; } auto& d = g.a[g.def.at(x)]; bool ready = true; for (int k = 1; k < 3; k++) if (!v.count(d[k] / 2)) { if (open.count(d[k] / 2)) return -1; ready = false; } if (!ready) { open.insert(x); for (int k = 1; k < 3; k++) if (!v.count(d[k] / 2)) st.push_back(d[k] / 2); continue; } v[x] = (v[d[1] / 2] ^ (int)(d[1] & 1)) & (v[d[2] / 2] ^ (int)(d[2] & 1)); open.erase(x); st.pop_back(); }
    return v[l / 2] ^ (int)(l & 1);
}
PROPERTY(cnf2aig) {
    programName = "cnf2aig"; ref::Cnf f; std::string fam; unsigned k = src.coin(1, 30) ? 5 : src.pick({4, 3, 3, 2, 1}); if (k == 5) { fam = "large"; unsigned w = src.pick({2, 1, 1}); f = w == 0 ? gen::circuitCnf(src, 30, 300) : w == 1 ? gen::miterCnf(src, 12, 100) : gen::wide(src, 900); } else if (k == 0) { f = gen::circuitCnf(src, 6, 14); fam = "circuit"; } else if (k == 1) { f = gen::miterCnf(src, 5, 8); fam = "miter"; } else if (k == 2) { f = gen::smallMixed(src, 8); fam = "small"; } else if (k == 3) f = gen::any(src, 1, &fam); else { f = gen::smallMixed(src, 3); fam = "tiny"; }
    if (k < 2 && src.coin(1, 3)) f = gen::disturbed(src, f); if (k < 2 && src.coin(1, 5) && f.c.size() > 2) { int r = src.range(1, 3); while (r-- && f.c.size() > 1) f.c.erase(f.c.begin() + src.below(f.c.size())); }
    std::string path = scratch::file(".cnf"), text = ref::dimacs(f); scratch::Rm rm{path}; scratch::spit(path, text); ctx.show << "cnf2aig FILE with\n" << text; ctx.publish();
    Run r = run({path}, "", 60000); if (r.timeout || r.sig == SIGKILL) throw pbt::Discard();
    ctx.check(r.sig == 0 && r.status == 0, "cnf2aig ends with status " + std::to_string(r.status) + ", signal " + std::to_string(r.sig) + ": " + tail(r.err));
    std::string o; { std::istringstream is(r.out); std::string l; bool on = false; while (std::getline(is, l)) { if (l.compare(0, 3, "aag") == 0) on = true; else if (!on && l.compare(0, 1, "c") != 0) ctx.fail("output line before the header: " + l); if (on) o += l + "\n"; } }
    ctx.show << "---\n" << (o.size() > 1500 ? o.substr(0, 1500) + "..." : o); Aig g; std::string e = parseAig(o, g); ctx.check(e.empty(), "not a well-formed circuit: " + e);
    int n = ref::maxVar(f), fsat = ref::solve(f); for (long l : g.in) ctx.check(l / 2 <= n, "input " + std::to_string(l) + " names no variable of the formula");
    auto evalAt = [&](const std::vector<char>& in) { std::map<long, int> v; for (size_t i = 0; i < g.in.size(); i++) v[g.in[i] / 2] = in[i]; int x = value(g, g.out[0], v); ctx.check(x >= 0, "the circuit is cyclic"); return x == 1; };
    auto extends = [&](const std::vector<char>& in) { std::vector<int> a; for (size_t i = 0; i < g.in.size(); i++) { int v = (int)(g.in[i] / 2); a.push_back(in[i] ? v : -v); } return ref::solve(f, a) == 1; };
    auto shown = [&](const std::vector<char>& in) { std::string s; for (size_t i = 0; i < in.size(); i++) s += (in[i] ? " " : " -") + std::to_string(g.in[i] / 2); return s; };
    auto test = [&](const std::vector<char>& in) { bool c = evalAt(in), x = extends(in); ctx.check(c == x, std::string("the circuit says ") + (c ? "true" : "false") + " for the inputs" + shown(in) + ", which the formula " + (x ? "extends to a model" : "excludes")); return c; };
    size_t ni = g.in.size(); bool any = false;
    if (ni <= 8) { for (unsigned m = 0; m < (1u << ni); m++) { std::vector<char> in(ni); for (size_t i = 0; i < ni; i++) in[i] = (m >> i) & 1; any |= test(in); } ctx.check(any == (fsat == 1), "the circuit is " + std::string(any ? "" : "un") + "satisfiable, the formula is not"); ctx.label("all input assignments"); }
    else { std::vector<int> m; if (fsat == 1) { ref::solve(f, {}, &m); std::vector<char> in(ni); for (size_t i = 0; i < ni; i++) in[i] = m[g.in[i] / 2] == 1; test(in); for (int t = 0; t < 12; t++) { size_t i = src.below(ni); in[i] = !in[i]; test(in); if (src.flip()) in[i] = !in[i]; } } for (int t = 0; t < 6; t++) { std::vector<char> in(ni); for (auto& b : in) b = src.flip(); test(in); } ctx.label("sampled input assignments"); }
    if (g.a.size() > 2 && ni > 0) ctx.nontrivial(); ctx.label("family " + fam); if (ni < (size_t)n) ctx.label("some variables became gates"); if (fsat != 1) ctx.label("unsatisfiable");
}
// input that cannot be read: exit status 1 and no circuit
PROPERTY(badcnf) {
    programName = "cnf2aig"; ref::Cnf f = gen::smallMixed(src, 6); std::string text = ref::dimacs(f), path = scratch::file(".cnf"), kind; scratch::Rm rm{path}; bool write = true; unsigned k = src.pick({3, 2, 2, 1, 1, 2});
    if (k == 0) { static const char* junk[] = {"x", "1x", "a1", "0.5", "--1", "%", "1,2"}; kind = "not a number"; text += junk[src.below(7)]; text += src.flip() ? " 0\n" : " 1 0\n"; } else if (k == 1) { kind = "unterminated clause"; text += "1 -2"; if (src.flip()) text += "\n"; } else if (k == 2) { kind = "variable out of range"; text += src.flip() ? "99999999999999999999 0\n" : "3000000000 0\n"; } else if (k == 3) { kind = "missing file"; write = false; } else if (k == 4) { kind = "directory"; write = false; path = "/tmp"; rm.p = scratch::file(".none"); }
    else { kind = "broken header"; static const char* h[] = {"p cnf\n", "p cnf x 3\n", "p dnf 3 3\n", "p cnf -1 -1\n", "q cnf 1 1\n"}; text = h[src.below(5)] + text; }
    if (write) scratch::spit(path, text); ctx.show << "cnf2aig FILE, " << kind << "\n" << (write ? text : ""); ctx.publish(); Run r = run({path}, "", 60000); if (r.timeout || r.sig == SIGKILL) throw pbt::Discard();
    ctx.check(r.sig == 0, "cnf2aig is killed by signal " + std::to_string(r.sig) + " (" + kind + "): " + tail(r.err)); ctx.check(r.status == 1, "cnf2aig ends with status " + std::to_string(r.status) + " for input that cannot be read (" + kind + "): " + tail(r.err)); ctx.check(r.out.find("aag") == std::string::npos, "a circuit is printed for input that cannot be read (" + kind + ")"); ctx.label(kind); ctx.nontrivial();
}
PBT_MAIN
