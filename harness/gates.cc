#include "candyapi.h"
#include "scratch.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/gates/GateProblem.h"
#include "candy/gates/GateBuilder.h"
#include "candy/gates/GateDFSTraversal.h"
#include "candy/gates/MiterDetector.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/Propagation.h"
#include "candy/randomsimulation/Randomization.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/randomsimulation/SimulationVector.h"
using namespace cnd;

static ref::Cl toRef(const Candy::Cl& c) { ref::Cl k; for (Lit l : c) k.push_back(D(l)); return k; }
static bool taut(const ref::Cl& c) { for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) return true; return false; }
static ref::Cl normal(ref::Cl c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
static const char* mname(int m) { return m == 0 ? "patterns" : m == 1 ? "semantic" : m == 2 ? "holistic" : m == 10 ? "patterns+semantic" : "all"; }

// a circuit CNF with one-sided, redundant, duplicated or damaged gate encodings
static ref::Cnf oddCircuit(pbt::Src& s, int maxIn, int maxG) {
    ref::Cnf f; gen::Circuit c = gen::circuit(s, maxIn, maxG); f.n = c.n; unsigned style = s.pick({3, 3, 3, 2});
    std::vector<char> pos(c.n + 1, 0), neg(c.n + 1, 0); int nr = s.range(1, 3);
    for (int i = 0; i < nr; i++) { int o = c.g[c.g.size() - 1 - s.below(std::min<size_t>(c.g.size(), 4))].out; int l = s.flip() ? -o : o; if (s.coin(3, 4)) f.c.push_back({l}); else f.c.push_back({l, ref::lit(s, c.n)}); for (int x : f.c.back()) (x > 0 ? pos : neg)[std::abs(x)] = 1; }
    for (size_t k = c.g.size(); k-- > 0; ) { // Plaisted-Greenbaum: only the needed directions
        const gen::CGate& g = c.g[k]; bool fw = style == 0 || pos[g.out], bw = style == 0 || neg[g.out]; if (style == 2) { fw = fw || s.flip(); bw = bw || s.flip(); } if (style == 3) { fw = s.coin(5, 6); bw = s.coin(5, 6); }
        std::vector<ref::Cl> cl; gen::gateClauses(g, cl, fw, bw);
        for (auto& q : cl) { f.c.push_back(q); for (int x : q) if (std::abs(x) != g.out) (x > 0 ? pos : neg)[std::abs(x)] = 1; if (s.coin(1, 12)) f.c.push_back(q); if (s.coin(1, 12)) { ref::Cl w(q); w.push_back(ref::lit(s, c.n)); f.c.push_back(w); } }
        if (s.coin(1, 25) && !f.c.empty()) f.c.pop_back();
    }
    if (s.coin(1, 3)) s.list(0, 5, [&]() { f.c.push_back(ref::clauseK(s, c.n, s.range(1, 4))); });
    return f;
}
// 2^k clauses over k variables in which some are missing and others doubled: looks like a truth table by counting
static ref::Cnf fakeTable(pbt::Src& s) {
    ref::Cnf f; int k = s.range(2, 3); int o = k + 1, p = k + 2; f.n = k + 2; unsigned table = (unsigned)s.below(1u << (1u << k));
    auto cl = [&](unsigned m, bool r) { ref::Cl c{r ? o : -o}; for (int i = 0; i < k; i++) c.push_back((m >> i) & 1 ? -(i + 1) : i + 1); return c; };
    for (unsigned m = 0; m < (1u << k); m++) f.c.push_back(cl(m, (table >> m) & 1));
    s.list(0, 4, [&]() { size_t i = s.below(f.c.size()), j = s.below(f.c.size()); unsigned w = s.pick({3, 1, 1}); if (w == 0) f.c[i] = f.c[j]; else if (w == 1 && f.c[i].size() > 1) f.c[i].erase(f.c[i].begin() + s.below(f.c[i].size())); else f.c.push_back(ref::Cl(f.c[j])); });
    f.c.push_back({-p, o, s.flip() ? 1 : -1}); f.c.push_back({-p, -o, s.flip() ? 2 : -2}); f.c.push_back({p});
    return f;
}
// a wide AND or OR whose short clauses may be widened by another input, doubled or missing, under an output needed in both polarities
static ref::Cnf wideGate(pbt::Src& s) {
    ref::Cnf f; int k = s.range(2, 16), o = k + 1, p = k + 2; f.n = k + 4; int sg = s.flip() ? -1 : 1;
    std::vector<int> in; for (int i = 1; i <= k; i++) in.push_back(s.flip() ? i : -i);
    ref::Cl lng{-sg * o}; for (int l : in) lng.push_back(l); f.c.push_back(lng);
    int damaged = s.pick({2, 4, 2, 1}), at[3]; for (int& a : at) a = (int)s.below(k);
    for (int i = 0; i < k; i++) {
        ref::Cl c{sg * o, -in[i]}; bool dam = false; for (int d = 0; d < damaged; d++) dam |= at[d] == i;
        if (dam) { unsigned w = s.pick({4, 1, 1}); int j = (int)s.below(k); if (w == 0 && j != i) c.push_back(s.coin(3, 4) ? -in[j] : in[j]); else if (w == 1) f.c.push_back(c); else if (w == 2) continue; }
        f.c.push_back(c);
    }
    int x = k + 3, y = k + 4; if (s.coin(1, 6)) { x = in[0]; y = s.flip() ? in[1] : -in[1]; }
    f.c.push_back({-p, o, x}); f.c.push_back({-p, -o, y}); f.c.push_back({p}); return f;
}
// layer k uses only variables of layer k+1, every variable below the top is used: recognition has to find every gate
struct Layered { ref::Cnf f; std::vector<gen::CGate> g; };
static Layered layered(pbt::Src& s, bool semantic, bool big = false) {
    Layered r; int layers = s.range(1, big ? 12 : 5), n = 0; std::vector<std::vector<int>> lay(layers + 1);
    for (int k = 0; k <= layers; k++) { int w = k == 0 ? s.range(1, 3) : s.range(2, big ? 14 : 5); for (int i = 0; i < w; i++) lay[k].push_back(++n); }
    r.f.n = n; for (int v : lay[0]) r.f.c.push_back({s.flip() ? -v : v});
    for (int k = 0; k < layers; k++) {
        std::set<int> used;
        for (size_t i = 0; i < lay[k].size(); i++) {
            gen::CGate g; g.out = lay[k][i]; unsigned t = s.pick({5, 5, 4, 2, 2, 1, semantic ? 3u : 0u, semantic ? 3u : 0u});
            static const int types[] = {gen::AND, gen::OR, gen::XOR, gen::EQV, gen::MAJ, gen::BUF, gen::ITE, gen::RAND3}; g.type = types[t];
            unsigned want = g.type == gen::AND || g.type == gen::OR ? s.range(1, big ? 12 : 4) : g.type == gen::XOR ? s.range(2, big ? 5 : 3) : g.type == gen::EQV ? 2 : g.type == gen::BUF ? 1 : g.type == gen::RAND3 ? s.range(1, 3) : 3;
            auto& below = lay[k + 1]; if (want > below.size()) { g.type = gen::AND; want = (unsigned)below.size(); }
            std::vector<int> pool(below); for (size_t a = 0; a + 1 < pool.size(); a++) std::swap(pool[a], pool[a + s.below(pool.size() - a)]);
            std::stable_sort(pool.begin(), pool.end(), [&](int a, int b) { return !used.count(a) && used.count(b); });
            for (unsigned a = 0; a < want; a++) { used.insert(pool[a]); g.in.push_back(s.flip() ? -pool[a] : pool[a]); }
            if (g.type == gen::RAND3) { unsigned full = (1u << (1u << want)) - 1; g.table = 1 + (unsigned)s.below(full - 1); }
            if (i + 1 == lay[k].size()) { // the last gate of the layer also takes whatever nobody uses
                std::vector<int> rest; for (int v : below) if (!used.count(v)) rest.push_back(v);
                if (!rest.empty()) { g.type = s.flip() ? gen::AND : gen::OR; for (int v : rest) { g.in.push_back(s.flip() ? -v : v); used.insert(v); } }
            }
            r.g.push_back(g); gen::gateClauses(g, r.f.c, true, true);
        }
    }
    for (size_t i = 0; i + 1 < r.f.c.size(); i++) std::swap(r.f.c[i], r.f.c[i + s.below(r.f.c.size() - i)]);
    return r;
}
static ref::Cnf anyGates(pbt::Src& s, std::string& fam, int size = 1) {
    switch (s.pick({6, 3, 2, 2, 2, 2})) {
        case 0: fam = "odd-circuit"; return size > 1 ? oddCircuit(s, 20, 150) : oddCircuit(s, 6, 14);
        case 1: fam = "generic"; return gen::any(s, size);
        case 2: fam = "fake-table"; return fakeTable(s);
        case 3: { fam = "layered"; return layered(s, true, size > 1).f; }
        case 4: fam = "wide-gate"; return wideGate(s);
        default: { fam = "odd-circuit-disturbed"; return gen::disturbed(s, size > 1 ? oddCircuit(s, 12, 80) : oddCircuit(s, 5, 8)); }
    }
}
struct Run { CNFProblem p; std::unique_ptr<GateAnalyzer> ga; ~Run() { if (ga) { delete &ga->gate_problem; } } };
static void analyze(pbt::Src& src, pbt::Ctx& ctx, Run& r, const ref::Cnf& f, int method, int tries) {
    load(r.p, f); while ((int)r.p.nVars() < f.n) r.p.newVar();
    ctx.show << "method " << mname(method) << ", tries " << tries << "\n" << ref::dimacs(f); ctx.publish();
    r.ga.reset(new GateAnalyzer(r.p, (GateRecognitionMethod)method, tries, 1000.0)); r.ga->analyze(); (void)src;
}
static std::string gstr(const Gate& g) { std::string o = std::string(g.hasNonMonotonicParent() ? "" : "monotonic ") + "gate " + std::to_string(D(g.out)) + " fwd {"; for (auto c : g.fwd) o += "(" + ref::str(toRef(*c)) + ")"; o += "} bwd {"; for (auto c : g.bwd) o += "(" + ref::str(toRef(*c)) + ")"; return o + "}"; }

static int pickMethod(pbt::Src& s) { static const int ms[] = {0, 1, 2, 10, 11}; return ms[s.below(5)]; }
PROPERTY(gates) {
    resetOptions(); std::string fam; ref::Cnf f = anyGates(src, fam, ctx.size); int method = pickMethod(src), tries = (int)src.pick({1, 4, 2, 2, 1, 1, 1}); if (tries == 6) tries = 50;
    Run r; analyze(src, ctx, r, f, method, tries); GateProblem& gp = r.ga->getResult(); int n = (int)r.p.nVars();
    // every clause is a root, part of exactly one gate definition, or left over
    std::map<const Candy::Cl*, int> cnt; for (auto c : r.p) cnt[c] = 0; size_t total = 0;
    auto count = [&](const Candy::Cl* c) { total++; ctx.check(cnt.count(c), "a clause that is not one of the formula's"); cnt[c]++; };
    for (auto c : gp.roots) count(c); for (auto c : gp.remainder) count(c); size_t defined = 0, mono = 0;
    for (int v = 0; v < n; v++) { const Gate& g = gp[v]; if (!g.isDefined()) continue; defined++; if (!g.hasNonMonotonicParent()) mono++; for (auto c : g.fwd) count(c); for (auto c : g.bwd) count(c); }
    for (auto& k : cnt) ctx.check(k.second == 1 || k.first->size() == 0, "clause (" + ref::str(toRef(*k.first)) + ") occurs " + std::to_string(k.second) + " times in roots, gates and remainder");
    ctx.check(defined == gp.nGates(), "gate count differs from the number of defined gates");
    ctx.check(mono == gp.nMonotonGates(), "monotonic gate count");
    std::vector<std::set<int>> dep(n + 1); // gate output -> variables of its definition
    for (int v = 0; v < n; v++) {
        const Gate& g = gp[v]; if (!g.isDefined()) continue; int o = D(g.out);
        ctx.check(std::abs(o) == v + 1, "gate stored under the wrong variable"); ctx.check(!g.fwd.empty(), "a gate without forward clauses");
        std::set<int> inp;
        for (auto c : g.fwd) { auto k = toRef(*c); ctx.check(std::find(k.begin(), k.end(), -o) != k.end(), "forward clause without the negated output: " + gstr(g)); for (int l : k) if (l != -o) { inp.insert(l); dep[v + 1].insert(std::abs(l)); } }
        for (auto c : g.bwd) { auto k = toRef(*c); ctx.check(std::find(k.begin(), k.end(), o) != k.end(), "backward clause without the output: " + gstr(g)); for (int l : k) if (l != o) dep[v + 1].insert(std::abs(l)); }
        std::set<int> have; for (Lit l : g.inp) have.insert(D(l)); ctx.check(have == inp && have.size() == g.inp.size(), "the inputs are not the literals of the forward clauses: " + gstr(g));
        // for every assignment of the inputs some output value satisfies the definition
        for (auto a : g.fwd) for (auto b : g.bwd) { bool clash = false; for (Lit x : *a) for (Lit y : *b) if (x.var() != g.out.var() && x == ~y) clash = true; ctx.check(clash, "an input assignment admits no output value: " + gstr(g)); }
    }
    // no gate depends on itself
    std::vector<int> state(n + 1, 0); std::function<void(int)> visit = [&](int v) { state[v] = 1; for (int w : dep[v]) if (gp[w - 1].isDefined()) { ctx.check(state[w] != 1, "gate structure has a cycle through variable " + std::to_string(w)); if (!state[w]) visit(w); } state[v] = 2; };
    for (int v = 1; v <= n; v++) if (gp[v - 1].isDefined() && !state[v]) visit(v);
    // a gate whose output is needed in both polarities is a function of its inputs
    std::set<int> need; std::vector<int> q; auto want = [&](int l) { if (need.insert(l).second) q.push_back(std::abs(l)); };
    for (auto c : gp.roots) for (Lit l : *c) want(D(l));
    for (auto c : gp.remainder) for (Lit l : *c) { ctx.check(!gp[l.var()].isDefined(), "a clause outside the gate structure mentions a gate output"); }
    while (!q.empty()) { int v = q.back(); q.pop_back(); const Gate& g = gp[v - 1]; if (!g.isDefined()) continue; int o = D(g.out); for (auto c : g.fwd) for (Lit l : *c) if (l.var() != v - 1) { want(D(l)); if (need.count(-o)) want(-D(l)); } } // backward clauses of a functional gate never constrain further variables
    int functional = 0;
    for (int v = 1; v <= n; v++) {
        const Gate& g = gp[v - 1]; if (!g.isDefined()) continue; ctx.check(need.count(D(g.out)), "gate not reachable from the roots in the polarity of its output: " + gstr(g));
        bool both = need.count(v) && need.count(-v); if (!both && !g.hasNonMonotonicParent()) continue; functional++;
        ref::Cnf k; k.n = n; for (auto c : g.fwd) { auto x = toRef(*c); x.erase(std::remove(x.begin(), x.end(), -D(g.out)), x.end()); k.c.push_back(x); } for (auto c : g.bwd) { auto x = toRef(*c); x.erase(std::remove(x.begin(), x.end(), D(g.out)), x.end()); k.c.push_back(x); }
        if (method == 2 || method == 11) for (auto c : r.p) if (c->size()) k.c.push_back(toRef(*c));
        ctx.check(ref::solve(k) == -1, "output is needed in both polarities but not determined by the inputs: " + gstr(g));
    }
    // dropping the directions nobody needs keeps satisfiability
    ref::Cnf red; red.n = n; for (auto c : gp.roots) red.c.push_back(toRef(*c)); for (auto c : gp.remainder) red.c.push_back(toRef(*c)); bool empty = false; for (auto c : r.p) if (c->size() == 0) empty = true; if (empty) red.c.push_back({});
    for (int v = 0; v < n; v++) { const Gate& g = gp[v]; if (!g.isDefined()) continue; for (auto c : g.fwd) red.c.push_back(toRef(*c)); if (g.hasNonMonotonicParent()) for (auto c : g.bwd) red.c.push_back(toRef(*c)); }
    if (!(method == 2 || method == 11)) ctx.check(ref::solve(f) == ref::solve(red), "dropping the backward clauses of monotonic gates changes satisfiability");
    ctx.label(std::string("method ") + mname(method)); ctx.label("family " + fam); if (functional) ctx.label("functional gates"); if (defined >= 2) ctx.nontrivial();
    // topological order by depth-first traversal: inputs first, every reachable gate once
    std::vector<Var> topo = getTopoOrder(gp).getOutputsOrdered(); std::set<int> seen; for (Var v : topo) { const Gate& g = gp[v]; ctx.check(g.isDefined(), "traversal lists a variable that is no gate"); for (Lit l : g.inp) if (gp[l.var()].isDefined()) ctx.check(seen.count(l.var()), "traversal lists a gate before its input " + std::to_string(l.var() + 1)); ctx.check(seen.insert(v).second, "traversal lists a gate twice"); }
    ctx.check(seen.size() == defined, "traversal lists " + std::to_string(seen.size()) + " of " + std::to_string(defined) + " gates");
}
PROPERTY(complete) {
    resetOptions(); int method = pickMethod(src); Layered l = layered(src, method != 0, ctx.size > 1); Run r; analyze(src, ctx, r, l.f, method, (int)src.range(1, 3)); GateProblem& gp = r.ga->getResult();
    for (auto& g : l.g) {
        const Gate& h = gp[g.out - 1]; ctx.check(h.isDefined(), "gate with output " + std::to_string(g.out) + " not recognised");
        std::vector<ref::Cl> a, b; gen::gateClauses(g, a, true, true); for (auto c : h.fwd) b.push_back(normal(toRef(*c))); for (auto c : h.bwd) b.push_back(normal(toRef(*c)));
        for (auto& c : a) c = normal(c); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ctx.check(a == b, "gate with output " + std::to_string(g.out) + " recognised with other clauses: " + gstr(h));
    }
    ctx.check(gp.nGates() == l.g.size(), "more gates than the circuit has"); ctx.check(gp.remainder.empty(), "clauses left over");
    ctx.label(std::string("method ") + mname(method)); if (l.g.size() > 2) ctx.nontrivial();
}
PROPERTY(prune) {
    resetOptions(); std::string fam; ref::Cnf f = anyGates(src, fam, ctx.size); int method = pickMethod(src), tries = (int)src.range(1, 4); Run r; analyze(src, ctx, r, f, method, tries); GateProblem& gp = r.ga->getResult(); int n = (int)r.p.nVars();
    resetOptions(); std::unique_ptr<CandySolverInterface> s(createSolver()); s->init(r.p); if (s->solve() != l_True) return; CandySolverResult& res = s->getCandySolverResult();
    std::vector<int> m = modelOf(res, n); Candy::For pr = gp.getPrunedProblem(res); std::set<const Candy::Cl*> in(pr.begin(), pr.end()), all; for (auto c : r.p) all.insert(c);
    for (auto c : pr) ctx.check(all.count(c), "pruned problem contains a clause that is not in the formula");
    for (auto c : gp.roots) ctx.check(in.count(c), "pruned problem lacks a root clause"); for (auto c : gp.remainder) ctx.check(in.count(c), "pruned problem lacks a clause from outside the gate structure");
    // drop literals from the model while the pruned problem stays satisfied
    std::vector<int> ord; for (int v = 1; v <= n; v++) if (m[v]) ord.push_back(v); for (size_t i = 0; i + 1 < ord.size(); i++) std::swap(ord[i], ord[i + src.below(ord.size() - i)]);
    std::vector<int> a(m); for (int v : ord) { int k = a[v]; a[v] = 0; for (auto c : pr) if (!ref::satisfied(toRef(*c), a)) { a[v] = k; break; } }
    // outputs of gates with no clause in the pruned problem may change; everything else stays, and unassigned non-outputs take any value
    std::vector<int> cube; int freed = 0;
    for (int v = 1; v <= n; v++) { const Gate& g = gp[v - 1]; if (a[v]) { bool dropped = g.isDefined() && !in.count(g.fwd.front()); if (!dropped) cube.push_back(v * a[v]); } else if (!g.isDefined()) { freed++; cube.push_back(src.flip() ? v : -v); } }
    ctx.check(ref::solve(f, cube) == 1, "a partial model of the pruned problem does not extend to the formula: " + ref::str(cube));
    ctx.label("family " + fam); if (pr.size() < r.p.nClauses() && gp.nGates() > 1) ctx.nontrivial(); if (freed) ctx.label("don't-care inputs");
}

// ---- random simulation ----
// assigns the inputs every combination of values (as far as 2048 bits reach), so that simulation is exhaustive
struct Exhaustive : public Randomization {
    unsigned mode; uint64_t seed; Exhaustive(unsigned m, uint64_t s) : mode(m), seed(s) {}
    void randomize(SimulationVectors& v, const std::vector<SimulationVectors::index_t>& ix) override {
        for (size_t k = 0; k < ix.size(); k++) for (unsigned w = 0; w < SimulationVector::VARSIMVECSIZE; w++) { uint64_t x = 0; for (unsigned b = 0; b < 64; b++) { uint64_t i = w * 64ull + b; x |= (uint64_t)((i >> k) & 1) << b; } v.get(ix[k]).vars[w] = x; }
    }
};
static bool evalAll(const ref::Cnf& f, std::vector<int>& val) { for (auto& c : f.c) if (!ref::satisfied(c, val)) return false; return true; }
struct Enabled : GateFilter { std::unordered_set<Var> en; Enabled(std::unordered_set<Var> e) : en(e) {} std::unordered_set<Var> getEnabledOutputVars() override { return en; } };
PROPERTY(order) {
    resetOptions(); std::string fam; ref::Cnf f = anyGates(src, fam, ctx.size); int method = pickMethod(src), tries = (int)src.range(1, 3); Run r; analyze(src, ctx, r, f, method, tries); GateProblem& gp = r.ga->getResult(); int n = (int)r.p.nVars();
    for (int kind = 0; kind < 2; kind++) {
      auto o = kind ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder(); // read with no filter, then again with one filter after the other
      for (int round = 0; round < 4; round++) {
        unsigned filt = round == 0 ? 0 : src.pick({0, 2, 2, 1}); std::unordered_set<Var> en; for (int v = 0; v < n; v++) if (gp[v].isDefined() && (filt == 1 ? gp[v].hasNonMonotonicParent() : filt == 2 ? !src.coin(1, 4) : true)) en.insert(v);
        if (filt == 1 && src.flip()) o->setGateFilter(createNonmonotonousGateFilter(*r.ga)); else if (filt) o->setGateFilter(std::unique_ptr<GateFilter>(new Enabled(en))); o->readGates(*r.ga);
        static const char* names[] = {"", " non-monotonous gates only", " some gates disabled", " all gates enabled"}; std::string who = std::string(kind ? "recursive" : "non-recursive") + " clause order" + names[filt] + (round ? ", read again" : "") + ": ";
        std::map<int, bool> memo; std::set<int> outs, ins; for (Var v : o->getInputVariables()) { ctx.check(!gp[v].isDefined(), who + "a gate output among the inputs"); ctx.check(ins.insert(v).second, who + "input listed twice"); ctx.check(v < (int)o->getAmountOfVars(), who + "number of variables too small for input " + std::to_string(v + 1)); }
        for (Lit l : o->getGateOutputsOrdered()) {
            const Gate& g = gp[l.var()]; ctx.check(g.isDefined(), who + "lists a variable that is no gate output"); ctx.check(l.var() < (int)o->getAmountOfVars(), who + "number of variables too small");
            auto& cl = o->getClauses(l.var()); std::set<const Candy::Cl*> have(cl.begin(), cl.end()), fw(g.fwd.begin(), g.fwd.end()), bw(g.bwd.begin(), g.bwd.end());
            ctx.check(!cl.empty() || g.hasNonMonotonicParent(), who + "no clauses for " + gstr(g)); bool f1 = have == fw; ctx.check(f1 || have == bw, who + "clauses are neither the forward nor the backward clauses of " + gstr(g)); ctx.check(g.hasNonMonotonicParent() || f1, who + "backward clauses used for a monotonically nested gate");
            for (auto c : cl) { bool has = false; for (Lit x : *c) { if (x == l) has = true; else { ctx.check(x.var() < (int)o->getAmountOfVars(), who + "number of variables too small for the clauses of " + gstr(g)); ctx.check(gp[x.var()].isDefined() ? outs.count(x.var()) : ins.count(x.var()), who + "gate " + std::to_string(D(g.out)) + " listed before its input " + std::to_string(x.var() + 1)); } } ctx.check(has, who + "output literal does not occur in its clauses"); }
            ctx.check(outs.insert(l.var()).second, who + "output listed twice"); ctx.check(en.count(l.var()), who + "lists a disabled gate");
        }
        // which gates have to be there: all, or with the filter those that depend on enabled gates only
        for (int v = 0; v < n; v++) { const Gate& g = gp[v]; if (!g.isDefined()) continue; bool ok = true; if (filt) { std::function<bool(int)> rec = [&](int w) { const Gate& h = gp[w]; if (!h.isDefined()) return true; if (!en.count(w)) return false; auto it = memo.find(w); if (it != memo.end()) return it->second; bool y = true; for (Lit l : h.inp) if (!rec(l.var())) { y = false; break; } return memo[w] = y; }; ok = rec(v); } ctx.check(ok == (outs.count(v) > 0), who + (ok ? "misses " : "should omit ") + gstr(g)); }
      }
    }
    ctx.label("family " + fam); if (gp.nGates() > 2) ctx.nontrivial();
}
PROPERTY(simulate) {
    resetOptions(); std::string fam; ref::Cnf f; bool lay = src.coin(2, 3);
    if (lay) { fam = "circuit"; gen::Circuit c = gen::circuit(src, 7, ctx.size > 1 ? 120 : 14); if (src.coin(1, 2)) { gen::encode(c, f); gen::Circuit b = gen::rewritten(src, c, c.n, src.coin(1, 3)); f.n = b.n; for (auto& g : b.g) gen::gateClauses(g, f.c, true, true); int o = ++f.n; gen::CGate x; x.type = gen::XOR; x.out = o; x.in = {c.g.back().out, b.g.back().out}; gen::gateClauses(x, f.c, true, true); f.c.push_back({src.flip() ? o : -o}); fam = "miter"; } else { gen::encode(c, f); f.c.push_back({c.g.back().out}); if (src.flip()) f.c.push_back({-c.g.back().out, c.g[src.below(c.g.size())].out}); } }
    else f = anyGates(src, fam, ctx.size);
    int method = (int)src.pick({2, 1, 0}) == 0 ? 0 : 10; Run r; analyze(src, ctx, r, f, method, 1); GateProblem& gp = r.ga->getResult(); int n = (int)r.p.nVars(); if (gp.nGates() == 0) return;
    auto o = src.flip() ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder(); bool filt = src.coin(1, 5); if (filt) o->setGateFilter(createNonmonotonousGateFilter(*r.ga));
    auto shadow = createNonrecursiveClauseOrder(); if (filt) shadow->setGateFilter(createNonmonotonousGateFilter(*r.ga)); shadow->readGates(*r.ga); std::vector<Var> ins = shadow->getInputVariables(); if (ins.size() > 11) return;
    std::vector<Lit> outs = shadow->getGateOutputsOrdered(); unsigned sched = src.pick({2, 1, 1}); auto cs = sched == 0 ? createLogCompressionScheduleStrategy() : sched == 1 ? createLinearCompressionScheduleStrategy(src.range(1, 4)) : createNullCompressionScheduleStrategy();
    BitparallelRandomSimulatorBuilder b(*r.ga); b.withClauseOrderStrategy(std::move(o)); b.withPartitionStrategy(createDefaultPartition(std::move(cs))); b.withRandomizationStrategy(std::unique_ptr<Randomization>(new Exhaustive(0, 0)));
    bool open = src.coin(1, 6); if (open) { b.withReductionRateAbortThreshold(src.below(5) / 8.0f); ctx.label("with abort threshold"); } // may end early, after twelve steps at the earliest
    auto sim = b.build(); Conjectures cj = sim->run((unsigned)(open ? src.range(10, 40) * 2048 : src.flip() ? src.range(1, 3000) : src.range(1, 12) * 2048));
    // reference: value of every simulated gate output for every input assignment; a gate output is true iff its forward clauses hold without it
    size_t N = 1ull << ins.size(); std::map<int, std::vector<char>> tt; std::vector<int> val(n + 1, 0);
    for (Lit l : outs) tt[l.var()].resize(N);
    for (size_t i = 0; i < N; i++) {
        for (size_t k = 0; k < ins.size(); k++) val[ins[k] + 1] = (i >> k) & 1 ? 1 : -1;
        for (Lit l : outs) { const Gate& g = gp[l.var()]; int out = D(g.out); bool all = true; for (auto c : g.fwd) { bool sat = false; for (Lit x : *c) if (x.var() != l.var() && val[x.var() + 1] == (x.sign() ? -1 : 1)) sat = true; if (!sat) { all = false; break; } } val[l.var() + 1] = (all == (out > 0)) ? 1 : -1; tt[l.var()][i] = val[l.var() + 1] > 0; }
    }
    std::set<int> bb, wantBB; for (auto& c : cj.getBackbones()) ctx.check(bb.insert(D(c.getLit())).second, "backbone conjecture listed twice");
    std::map<std::vector<char>, std::set<int>> cls; 
    for (Lit l : outs) { auto& t = tt[l.var()]; bool c0 = true, c1 = true; for (char x : t) { if (x) c0 = false; else c1 = false; } int d = l.var() + 1; if (c0) wantBB.insert(-d); else if (c1) wantBB.insert(d); else { std::vector<char> u(t); bool inv = t[0]; if (inv) for (char& x : u) x = !x; cls[u].insert(inv ? -d : d); } }
    auto sets = [&](const std::set<int>& s) { std::vector<int> v(s.begin(), s.end()); return "{" + ref::str(v) + "}"; };
    ctx.check(bb == wantBB, "backbone conjectures " + sets(bb) + ", constant gate outputs " + sets(wantBB));
    std::set<std::set<int>> wantEq, haveEq; for (auto& c : cls) if (c.second.size() > 1) wantEq.insert(c.second);
    for (auto& e : cj.getEquivalences()) { std::set<int> s; for (Lit l : e) ctx.check(s.insert(D(l)).second, "literal twice in an equivalence"); auto it = tt.find(std::abs(*s.begin()) - 1); ctx.check(it != tt.end(), "equivalence about a variable that was not simulated"); int first = *s.begin(); bool v0 = it->second[0] == (first > 0); std::set<int> k; for (int l : s) k.insert(v0 ? -l : l); ctx.check(haveEq.insert(k).second, "equivalence listed twice: " + sets(s)); }
    if (haveEq != wantEq) { std::string m = "equivalence conjectures"; for (auto& e : haveEq) m += " " + sets(e); m += " but equal gate outputs are"; for (auto& e : wantEq) m += " " + sets(e); ctx.fail(m); }
    ctx.label("family " + fam); if (filt) ctx.label("filtered"); if (!wantEq.empty()) ctx.label("has equivalences"); if (!wantBB.empty()) ctx.label("has constants"); if (outs.size() > 2) ctx.nontrivial();
    // the default randomisation can only coarsen: truly equal or constant outputs are always conjectured
    BitparallelRandomSimulatorBuilder b2(*r.ga); if (filt) b2.withGateFilter(createNonmonotonousGateFilter(*r.ga)); if (src.coin(1, 3)) b2.withReductionRateAbortThreshold((float)src.range(1, 100) / 100.0f); if (src.coin(1, 3)) b2.withClauseOrderStrategy(src.flip() ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder());
    Conjectures c2 = b2.build()->run(2048 * src.range(1, 8)); std::set<int> bb2; for (auto& c : c2.getBackbones()) bb2.insert(D(c.getLit())); for (int l : wantBB) ctx.check(bb2.count(l), "constant gate output " + std::to_string(l) + " not among the backbone conjectures of the default simulator");
    for (auto& w : wantEq) { bool found = false; bool allbb = true; for (int l : w) if (!bb2.count(l) && !bb2.count(-l)) allbb = false; for (auto& e : c2.getEquivalences()) { std::set<int> s; for (Lit l : e) s.insert(D(l)); bool pos = true, neg = true; for (int l : w) { if (!s.count(l)) pos = false; if (!s.count(-l)) neg = false; } if (pos || neg) found = true; } ctx.check(found || allbb, "equal gate outputs " + sets(w) + " not conjectured by the default simulator"); }
    for (auto& c : c2.getBackbones()) ctx.check(tt.count(c.getLit().var()), "default simulator: backbone conjecture about a variable that is not simulated"); for (auto& e : c2.getEquivalences()) for (Lit l : e) ctx.check(tt.count(l.var()), "default simulator: equivalence about a variable that is not simulated");
}

// ---- gate traversal and miter detection ----
struct Observer { // records what the traversal tells it; the variables to prune at are set beforehand
    static std::set<int> prune; std::vector<std::pair<char, int>> ev; size_t n = 0; int inits = 0, ends = 0; std::vector<int> asked;
    void collect(const Gate* g) { ev.push_back({'c', g->out.var()}); } void backtrack(const Gate* g) { ev.push_back({'b', g->out.var()}); } void collectInput(Var v) { ev.push_back({'i', v}); }
    void init(size_t k) { inits++; n = k; if (!ev.empty()) inits = 99; } void finished() { ends++; } bool pruneAt(const Gate& g) { asked.push_back(g.out.var()); return prune.count(g.out.var()); }
};
std::set<int> Observer::prune;
PROPERTY(traverse) {
    resetOptions(); std::string fam; ref::Cnf f = anyGates(src, fam, ctx.size); int method = pickMethod(src); Run r; analyze(src, ctx, r, f, method, (int)src.range(1, 4)); GateProblem& gp = r.ga->getResult(); int n = (int)r.p.nVars();
    Observer::prune.clear(); if (src.coin(1, 4)) { for (int v = 0; v < n; v++) if (gp[v].isDefined() && gp[v].hasNonMonotonicParent()) Observer::prune.insert(v); } else if (src.coin(2, 3)) src.list(0, 5, [&]() { if (n) Observer::prune.insert((int)src.below(n)); });
    ctx.show << "prune at:"; for (int v : Observer::prune) ctx.show << " " << v + 1; ctx.show << "\n"; ctx.publish();
    Observer w = traverseDFS<Observer>(gp); ctx.check(w.inits == 1 && w.n == gp.nGates(), "not initialised once, first, with the number of gates"); ctx.check(w.ends == 1, "finished() not called once");
    std::set<int> reach, ins; std::vector<int> q; auto go = [&](Lit l) { int v = l.var(); if (gp[v].isDefined() && !Observer::prune.count(v) && reach.insert(v).second) q.push_back(v); };
    for (auto c : gp.roots) for (Lit l : *c) go(l); while (!q.empty()) { int v = q.back(); q.pop_back(); for (Lit l : gp[v].inp) { if (!gp[l.var()].isDefined()) ins.insert(l.var()); go(l); } }
    std::set<int> col, bt, in; for (auto& e : w.ev) {
        std::string v = std::to_string(e.second + 1);
        if (e.first == 'c') { ctx.check(col.insert(e.second).second, "gate " + v + " collected twice"); ctx.check(reach.count(e.second), "gate " + v + " is pruned or not below a root over unpruned gates, but collected"); }
        else if (e.first == 'i') { ctx.check(in.insert(e.second).second, "input " + v + " reported twice"); ctx.check(ins.count(e.second), "variable " + v + " is no input of a visited gate"); }
        else { ctx.check(col.count(e.second), "gate " + v + " backtracked before it was collected"); ctx.check(bt.insert(e.second).second, "gate " + v + " backtracked twice"); for (Lit l : gp[e.second].inp) if (reach.count(l.var())) ctx.check(bt.count(l.var()), "gate " + v + " backtracked before its input " + std::to_string(l.var() + 1)); }
    }
    ctx.check(col == reach && bt == reach, "visited " + std::to_string(col.size()) + " gates and left " + std::to_string(bt.size()) + " of " + std::to_string(reach.size())); ctx.check(in == ins, "reported " + std::to_string(in.size()) + " of " + std::to_string(ins.size()) + " inputs");
    ctx.label("family " + fam); if (reach.size() < gp.nGates()) ctx.label("something pruned"); if (reach.size() > 2) ctx.nontrivial();
}
// a monotonic tree over the comparisons of pairs of signals, comparisons as XORs or as and-gates, with optional disturbances
static ref::Cnf comparison(pbt::Src& s) {
    ref::Cnf f; int pairs = s.range(1, 4), n = 0; bool aig = s.flip(); std::vector<gen::CGate> gs; std::vector<int> outs; auto G = [&](int t, std::vector<int> in) { gen::CGate g; g.out = ++n; g.type = t; g.in = in; gs.push_back(g); return n; };
    int k = s.range(2, 4); n = k; std::vector<int> sig; for (int i = 0; i < 2 * pairs; i++) { unsigned t = s.pick({6, 2, 1, 1}); int a = 1 + (int)s.below(k), b = 1 + (int)s.below(k); if (t == 3 || a == b) { sig.push_back(++n); continue; } sig.push_back(G(t == 0 ? gen::AND : t == 1 ? gen::OR : gen::XOR, {s.flip() ? -a : a, s.flip() ? -b : b})); }
    if (s.coin(1, 5)) sig[s.below(sig.size())] = sig[s.below(sig.size())];
    for (int i = 0; i < pairs; i++) { int a = sig[2 * i], b = sig[2 * i + 1]; if (a == b) { outs.push_back(a); continue; } if (aig != s.coin(1, 10)) { bool e = s.coin(1, 10); int x = G(gen::AND, {a, e ? b : -b}), y = G(gen::AND, {-a, b}); outs.push_back(G(gen::OR, {x, y})); } else outs.push_back(G(s.coin(1, 12) ? gen::AND : gen::XOR, {a, s.flip() ? -b : b})); }
    while (outs.size() > 1) { std::vector<int> in; size_t w = std::min<size_t>(outs.size(), s.range(2, 3)); for (size_t i = 0; i < w; i++) { in.push_back(outs.back()); outs.pop_back(); } outs.insert(outs.begin(), G(s.coin(1, 6) ? gen::AND : gen::OR, in)); }
    f.n = n; for (auto& g : gs) gen::gateClauses(g, f.c, true, true); f.c.push_back({outs[0]}); if (s.coin(1, 6)) f.c.push_back({ref::lit(s, n)}); if (s.coin(1, 4)) return gen::disturbed(s, f); return f;
}
PROPERTY(miter) {
    resetOptions(); std::string fam; ref::Cnf f; if (src.coin(3, 4)) { fam = "comparison"; f = comparison(src); } else if (src.flip()) { fam = "miter"; f = gen::miterCnf(src, 5, 8); } else f = anyGates(src, fam, ctx.size);
    int method = pickMethod(src); Run r; analyze(src, ctx, r, f, method, (int)src.range(1, 4)); GateProblem& gp = r.ga->getResult();
    // gates of the monotonic region; those with an input from outside of it form its border
    std::set<int> region; bool nonmono = false; std::vector<int> q; auto go = [&](Lit l) { int v = l.var(); if (!gp[v].isDefined()) return; if (gp[v].hasNonMonotonicParent()) nonmono = true; else if (region.insert(v).second) q.push_back(v); };
    for (auto c : gp.roots) for (Lit l : *c) go(l); while (!q.empty()) { int v = q.back(); q.pop_back(); for (Lit l : gp[v].inp) go(l); }
    std::vector<const Gate*> border; for (int v : region) { bool b = false; for (Lit l : gp[v].inp) if (!region.count(l.var())) b = true; if (b) border.push_back(&gp[v]); }
    bool two = true, aig = true, xr = true; std::map<int, std::multiset<bool>> occ; std::map<int, int> users;
    for (auto g : border) { std::set<int> vs; for (Lit l : g->inp) { vs.insert(l.var()); occ[l.var()].insert(l.sign()); } if (vs.size() != 2) two = false; for (int v : vs) users[v]++;
        bool is = g->fwd.size() == 2 && g->fwd[0]->size() == 3 && g->fwd[1]->size() == 3; std::set<int> l; if (is) for (auto c : g->fwd) for (Lit x : *c) l.insert(D(x)); if (!is || l.size() != 5) xr = false; }
    for (auto& o : occ) if (o.second.size() != 2 || o.second.count(true) != 1) aig = false; for (auto& u : users) if (u.second > 1) xr = false;
    bool want = !border.empty() && nonmono && two && (aig || xr), got = hasPossiblyMiterStructure(*r.ga); ctx.show << "border gates: " << border.size() << "\n"; ctx.publish();
    ctx.check(got == want, std::string("miter detection says ") + (got ? "yes" : "no") + ", the structure is " + (want ? "" : "not ") + "that of a miter");
    ctx.label("family " + fam); ctx.label(want ? (xr ? "miter of xor gates" : "miter of and-gates") : "no miter"); if (!border.empty() && nonmono) ctx.nontrivial();
}
// the documented chances of the randomisation strategies; the generators are deterministic, the tolerance is eight standard deviations
// the encodings the library builds are the gates they name: full ones define the output, half ones bound it from above
PROPERTY(builder) {
    int n = src.range(1, 9); int o = ref::lit(src, n), a = ref::lit(src, n), b = ref::lit(src, n); unsigned kind = (unsigned)src.below(3); bool full = src.flip(), dflt = full && src.flip();
    static const char* kn[] = {"and", "or", "xor"}; ctx.show << o << (full ? " <-> " : " -> ") << a << " " << kn[kind] << " " << b << "\n"; ctx.publish();
    For f = kind == 0 ? (dflt ? GateBuilder::and_gate(L(o), L(a), L(b)) : GateBuilder::and_gate(L(o), L(a), L(b), full)) : kind == 1 ? (dflt ? GateBuilder::or_gate(L(o), L(a), L(b)) : GateBuilder::or_gate(L(o), L(a), L(b), full)) : (dflt ? GateBuilder::xor_gate(L(o), L(a), L(b)) : GateBuilder::xor_gate(L(o), L(a), L(b), full));
    for (unsigned m = 0; m < (1u << n); m++) {
        auto val = [&](int l) { bool x = m >> (std::abs(l) - 1) & 1; return l > 0 ? x : !x; }; bool g = kind == 0 ? val(a) && val(b) : kind == 1 ? val(a) || val(b) : val(a) != val(b);
        bool want = full ? val(o) == g : !val(o) || g, got = true; for (auto c : f) { bool t = false; for (Lit l : *c) { ctx.check(l.var() >= 0 && l.var() < n, "a literal of another variable"); if (val(D(l))) t = true; } got = got && t; }
        ctx.check(want == got, "the encoding of the gate is wrong");
    }
    for (auto c : f) delete c; if (std::abs(o) != std::abs(a) && std::abs(o) != std::abs(b) && std::abs(a) != std::abs(b)) ctx.nontrivial(); ctx.label(kn[kind]);
}
PROPERTY(randomize) {
    struct Mk { std::unique_ptr<Randomization> r; std::function<double(int)> chance; std::string text; };
    auto basic = [&]() { Mk m; unsigned k = src.pick({1, 2, 2, 2, 2}); unsigned a = src.range(1, 4), b = a + (unsigned)src.below(3), st = (unsigned)src.below(4); auto cyc = [=](int i) { return (a + i * st) % (b + 1); }; auto p = [](unsigned k) { return k == 0 ? -1.0 : std::ldexp(1.0, -(int)k); };
        if (k == 0) { m.r = createSimpleRandomization(); m.chance = [](int) { return 0.5; }; m.text = "simple"; }
        if (k == 1) { m.r = createRandomizationBiasedToTrue(a); m.chance = [=](int) { return 1 - p(a); }; m.text = "true with 1-2^-" + std::to_string(a); }
        if (k == 2) { m.r = createRandomizationBiasedToFalse(a); m.chance = [=](int) { return p(a); }; m.text = "true with 2^-" + std::to_string(a); }
        if (k >= 3) { m.r = k == 3 ? createRandomizationCyclicallyBiasedToTrue(a, b, st) : createRandomizationCyclicallyBiasedToFalse(a, b, st); m.chance = [=](int i) { unsigned c = cyc(i); return c == 0 ? -1 : k == 3 ? 1 - p(c) : p(c); }; m.text = std::string(k == 3 ? "cyclically true" : "cyclically false") + " from " + std::to_string(a) + " to " + std::to_string(b) + " step " + std::to_string(st); }
        return m; };
    Mk m = basic(); if (src.flip()) { Mk x = std::move(m), y = basic(); unsigned per = src.range(1, 3); m.text = x.text + " / " + y.text + " alternating with period " + std::to_string(per); auto cx = x.chance, cy = y.chance; m.chance = [=](int i) { int blk = i / per, in = (blk / 2) * per + i % per; return blk % 2 ? cy(in) : cx(in); }; m.r = alternateRandomizations(std::move(x.r), std::move(y.r), per); ctx.label("alternating"); }
    int vars = src.range(9, 14), calls = src.range(1, 9); SimulationVectors sv; sv.initialize(vars); std::vector<SimulationVectors::index_t> ix; for (int v = 0; v < vars; v++) if (v < 8 || src.flip()) ix.push_back(v); else for (unsigned w = 0; w < SimulationVector::VARSIMVECSIZE; w++) sv.get(v).vars[w] = 0x1234567 + w;
    ctx.show << m.text << ", " << calls << " calls for " << ix.size() << " of " << vars << " variables"; ctx.publish(); std::set<std::vector<uint64_t>> seen;
    for (int c = 0; c < calls; c++) {
        m.r->randomize(sv, ix); size_t N = 0, ones = 0; double p = m.chance(c); std::string w = "call " + std::to_string(c + 1) + ": ";
        for (int v = 0; v < vars; v++) { bool in = std::find(ix.begin(), ix.end(), (SimulationVectors::index_t)v) != ix.end(); std::vector<uint64_t> k; for (unsigned i = 0; i < SimulationVector::VARSIMVECSIZE; i++) { uint64_t x = sv.get(v).vars[i]; k.push_back(x); if (!in) ctx.check(x == 0x1234567 + i, w + "the vector of a variable that is no input was changed"); } if (!in) continue; for (uint64_t x : k) ones += __builtin_popcountll(x); N += k.size() * 64; if (p > 0.05 && p < 0.95 && m.text.find("/") == std::string::npos) ctx.check(seen.insert(k).second, w + "a vector of assignments is repeated"); }
        if (p < 0) continue; double sd = std::sqrt(N * p * (1 - p)); ctx.check(std::fabs(ones - N * p) <= 8 * sd + 1, w + "an input is true in " + std::to_string(ones) + " of " + std::to_string(N) + " assignments, the chance should be " + std::to_string(p));
    }
    ctx.nontrivial();
}
PBT_MAIN
