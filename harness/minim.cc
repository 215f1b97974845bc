// Model minimisation: the reported partial model is a minimal (minimum) hitting set of the satisfied literals.
#include "candyapi.h"
#include "candy/minimizer/Minimizer.h"
#include "candy/gates/GateAnalyzer.h"
using namespace cnd;

static std::vector<int> lits(CandySolverResult& r) { std::vector<int> v; for (Lit l : r.getMinimizedModelLiterals()) v.push_back(D(l)); return v; }
static CandySolverResult result(const std::vector<int>& m) { CandySolverResult r; for (size_t v = 1; v < m.size(); v++) if (m[v]) r.setModelValue(Lit((int)v - 1, m[v] < 0)); r.setStatus(l_True); return r; }
// size of a smallest set of literals of the model that hits every clause, by branching with iterative deepening
static bool hit(const std::vector<std::vector<int>>& cs, std::set<int>& s, int k) { for (auto& c : cs) { bool h = false; for (int l : c) if (s.count(l)) { h = true; break; } if (h) continue; if (k == 0) return false; for (int l : c) { s.insert(l); if (hit(cs, s, k - 1)) return true; s.erase(l); } return false; } return true; }
static int smallestOne(const std::vector<std::vector<int>>& cs, int upper) { for (int k = 0; k < upper; k++) { std::set<int> s; if (hit(cs, s, k)) return k; } return upper; }
// ... component by component
static int smallest(const std::vector<std::vector<int>>& cs, int upper) {
    std::map<int, int> up; std::function<int(int)> find = [&](int x) { if (!up.count(x)) up[x] = x; return up[x] == x ? x : up[x] = find(up[x]); };
    for (auto& c : cs) for (int l : c) up[find(l)] = find(c[0]);
    std::map<int, std::vector<std::vector<int>>> part; for (auto& c : cs) { if (c.empty()) return upper; part[find(c[0])].push_back(c); }
    int sum = 0; for (auto& q : part) { std::set<int> v; for (auto& c : q.second) v.insert(c.begin(), c.end()); sum += smallestOne(q.second, (int)v.size()); } return std::min(sum, upper);
}
// unrelated parts side by side, among them stars: one literal does for many clauses
static ref::Cnf blocks(pbt::Src& s) {
    ref::Cnf f; int k = s.range(2, 7); bool twin = s.flip();
    for (int i = 0; i < k; i++) { int b = f.n, n; if (s.flip()) { n = s.range(3, 9); bool neg = s.coin(1, 4); for (int j = 2; j <= n; j++) { f.c.push_back({b + 1, neg ? -(b + j) : b + j}); if (twin && s.coin(1, 3)) f.c.push_back({b + 1, b + (int)s.range(2, n), b + j}); } } else { n = s.range(2, 8); s.list(1, n * 2, [&]() { ref::Cl c = ref::clauseK(s, n, s.range(1, 4)); for (int& l : c) { l = l > 0 ? l + b : l - b; if (s.coin(3, 5)) l = std::abs(l); } f.c.push_back(c); }); } f.n += n; }
    for (size_t i = f.c.size(); i > 1; i--) std::swap(f.c[i - 1], f.c[s.below(i)]); return f;
}

static void minimizing(pbt::Src& src, pbt::Ctx& ctx, bool minimum) {
    resetOptions(); ref::Cnf f; unsigned fam = src.pick({8, 6, 4, 2, minimum ? 2u : 1u}); bool big = !minimum && ctx.size > 1; int lim = minimum ? 12 : big ? 120 : 24;
    if (fam == 0) { f.n = src.range(1, lim); src.list(0, f.n * 3, [&]() { f.c.push_back(ref::clauseK(src, f.n, src.range(1, 5))); }); }
    else if (fam == 1) f = big ? gen::circuitCnf(src, 10, 90) : gen::circuitCnf(src, 4, minimum ? 6 : 12); else if (fam == 2) { f.n = src.range(2, lim); src.list(1, f.n * 2, [&]() { ref::Cl c = ref::clauseK(src, f.n, src.range(2, 6)); for (int& l : c) if (src.coin(4, 5)) l = std::abs(l); f.c.push_back(c); }); }
    else if (fam == 4) { f = blocks(src); ctx.label("unrelated parts"); } else f = gen::colouring(src, minimum ? 4 : big ? 20 : 6);
    if (ref::maxVar(f) > (big ? 200 : fam == 4 ? 64 : 40)) throw pbt::Discard();
    f.n = ref::maxVar(f); ref::Sat s(f); if (s.solve() != 1) throw pbt::Discard(); std::vector<int> m = s.model; m.resize(f.n + 1, -1);
    if (src.coin(2, 3)) for (int v = 1; v <= f.n; v++) if (src.flip()) { m[v] = -m[v]; for (auto& c : f.c) if (!ref::satisfied(c, m)) { m[v] = -m[v]; break; } } // another model
    if (src.coin(1, 5)) for (int v = 1; v <= f.n; v++) if (src.coin(1, 3)) { int x = m[v]; m[v] = 0; for (auto& c : f.c) if (!ref::satisfied(c, m)) { m[v] = x; break; } } // a partial one
    bool pruned = src.coin(1, 3), project = src.coin(1, 4); ctx.show << (pruned ? "pruned " : "") << (minimum ? "minimum " : "") << (project ? "projected " : "") << "\n" << ref::dimacs(f) << "model:"; for (int v = 1; v <= f.n; v++) if (m[v]) ctx.show << " " << m[v] * v; ctx.show << "\n"; ctx.publish();
    CNFProblem p; load(p, f); CandySolverResult r = result(m); CandySolverResult r0 = result(m);
    std::vector<std::vector<int>> hs; std::set<int> outs; auto gset = [&](const std::vector<Lit>& c) { std::vector<int> h; for (Lit l : c) if (m[l.var() + 1] == (l.sign() ? -1 : 1)) h.push_back(D(l)); hs.push_back(h); };
    if (pruned || project) { GateAnalyzer ga(p); ga.analyze(); if (pruned) { For cl = ga.getGateProblem().getPrunedProblem(r0); for (auto c : cl) gset(*c); } for (int v = 0; v < f.n; v++) if (v < (int)p.nVars() && ga.getGateProblem().isGateOutput(Lit(v, false))) outs.insert(v + 1); }
    if (!pruned) for (auto c : p) gset(*c);
    resetOptions(); if (src.coin(1, 3)) { Config c = config(src, false); ctx.show << "options: " << c.text << "\n"; ctx.publish(); ctx.label("other search options"); } std::vector<int> full;
    { Minimizer mi(p, r0); mi.mimimizeModel(pruned, minimum, false); full = lits(r0); }
    ctx.show << "minimised: " << ref::str(full) << "\n"; ctx.publish();
    for (int l : full) ctx.check(m[std::abs(l)] == (l > 0 ? 1 : -1), "literal " + std::to_string(l) + " of the minimised model is not in the model");
    std::set<int> S(full.begin(), full.end()); auto hits = [&](const std::set<int>& t) { for (auto& c : hs) { bool h = false; for (int l : c) if (t.count(l)) h = true; if (!h) return false; } return true; };
    ctx.check(hits(S), "the minimised model leaves a clause unsatisfied");
    for (int l : full) { std::set<int> t(S); t.erase(l); ctx.check(!hits(t), "literal " + std::to_string(l) + " is not needed"); }
    if (minimum) { int k = smallest(hs, (int)full.size()); ctx.check(k == (int)full.size(), "the minimised model has " + std::to_string(full.size()) + " literals, " + std::to_string(k) + " suffice"); }
    if (!pruned) { std::vector<int> val(f.n + 1, 0); for (int l : full) val[std::abs(l)] = l > 0 ? 1 : -1; for (auto& c : f.c) { bool t = false; for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) t = true; ctx.check(t || ref::satisfied(c, val), "clause (" + ref::str(c) + ") is not satisfied by the minimised model"); } }
    else { ref::Cnf g = f; for (int l : full) g.c.push_back({l}); ctx.check(ref::solve(g) == 1, "the pruned minimised model cannot be extended to a model of the formula"); }
    if (project) { Minimizer mi(p, r); mi.mimimizeModel(pruned, minimum, true); std::vector<int> pr = lits(r), want; for (int l : full) if (!outs.count(std::abs(l))) want.push_back(l); ctx.show << "projected: " << ref::str(pr) << "\n"; ctx.publish(); std::sort(pr.begin(), pr.end()); std::sort(want.begin(), want.end()); ctx.check(pr == want, "projection keeps other literals than the non-gate literals of the minimised model"); }
    ctx.label(pruned ? "pruned" : "plain"); if (project) ctx.label("projected"); if (full.size() > 1 && (int)full.size() < f.n) ctx.nontrivial();
}
PROPERTY(minimal) { minimizing(src, ctx, false); }
PROPERTY(minimum) { minimizing(src, ctx, true); }
PBT_MAIN
