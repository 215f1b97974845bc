#include "candyapi.h"
using namespace cnd;

// One-shot solving in a generated configuration.
struct Shot { ref::Cnf f; Config cfg; std::string fam; int expect; int got; std::vector<int> model; unsigned conflicts; bool gave = false; };
static Shot shoot(pbt::Src& src, pbt::Ctx& ctx, bool onlyC = false) {
    Shot s; resetOptions();
    s.f = gen::any(src, ctx.size, &s.fam); s.cfg = config(src, true, onlyC);
    ctx.show << "config: " << s.cfg.text << "\nfamily: " << s.fam << "\n" << ref::dimacs(s.f); ctx.publish();
    s.expect = ref::solve(s.f);
    CNFProblem p; load(p, s.f);
    std::unique_ptr<CandySolverInterface> solver(make(s.cfg)); solver->init(p);
    Budget b{solver.get(), 30000}; limit(*solver, b);
    lbool r = solver->solve();
    s.got = r == l_True ? 1 : r == l_False ? -1 : 0; s.conflicts = solver->nConflicts();
    if (s.got == 1) s.model = modelOf(solver->getCandySolverResult(), ref::maxVar(s.f));
    if (b.hit) ctx.label("candy gave up at the conflict budget"); s.gave = b.hit;
    ctx.label("family " + s.fam); ctx.label(s.expect == 1 ? "satisfiable" : "unsatisfiable"); if (s.conflicts > 0) ctx.label("conflicts>0"); if (s.conflicts > 100) ctx.label("conflicts>100");
    std::istringstream is(s.cfg.text); std::string w; while (is >> w) { size_t e = w.find('='); ctx.label("opt " + w.substr(0, e)); }
    return s;
}
static void judge(pbt::Src& src, pbt::Ctx& ctx, bool onlyC) {
    Shot s = shoot(src, ctx, onlyC);
    if (s.conflicts > 0 || s.f.c.size() > 5) ctx.nontrivial();
    if (s.gave && s.got == 0) return;
    ctx.check(s.got == s.expect, "solver says " + std::to_string(s.got) + ", reference says " + std::to_string(s.expect) + " (1=sat, -1=unsat, 0=unknown)");
}
PROPERTY(verdict) { judge(src, ctx, false); }
PROPERTY(verdictc) { judge(src, ctx, true); }
static void judgeModel(pbt::Src& src, pbt::Ctx& ctx, bool onlyC) {
    Shot s = shoot(src, ctx, onlyC);
    if (s.got == 1 && s.f.c.size() > 2) ctx.nontrivial();
    if (s.got != 1) return;
    for (auto& c : s.f.c) { bool taut = false; for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) taut = true; if (!taut) ctx.check(ref::satisfied(c, s.model), "clause not satisfied by the reported model: " + ref::str(c)); }
}
PROPERTY(model) { judgeModel(src, ctx, false); }
PROPERTY(modelc) { judgeModel(src, ctx, true); }
// Clauses around and beyond the width of small length counters.
PROPERTY(longclause) {
    resetOptions(); static const int widths[] = {65535, 65536, 65537, 65538, 65540, 255, 256, 257, 32767, 32768, 70000, 131072, 131073, 131075}; int n = widths[src.below(14)];
    Config cfg = config(src, false); SolverOptions::opt_inprocessing = 0; VariableEliminationOptions::opt_use_asymm = false;
    bool pre = SolverOptions::opt_preprocessing; ref::Cnf f; f.n = n + 1; ref::Cl big; int sign = src.flip() ? 1 : -1; for (int v = 1; v <= n; v++) big.push_back(sign * v);
    unsigned open = src.below(5); std::set<int> keep; for (unsigned i = 0; i < open; i++) keep.insert(src.flip() ? src.range(std::max(1, n - 8), n) : src.range(1, n)); // the literals of the long clause that stay open
    bool force = !pre && src.coin(3, 4); int z = n + 1;
    if (force) { for (int v = 1; v <= n; v++) if (!keep.count(v)) f.c.push_back({-sign * v, z}); f.c.push_back({-z}); }
    else { unsigned u = src.below(12); for (unsigned i = 0; i < u; i++) f.c.push_back({-sign * src.range(1, n)}); }
    for (int v : keep) if (src.coin(1, 3)) f.c.push_back({-sign * v});
    f.c.push_back(big);
    ctx.show << "config: " << cfg.text << "\nwidth " << n << ", sign " << sign << ", " << keep.size() << " literals open" << (force ? ", the others false by propagation" : "") << ", " << f.c.size() << " clauses\n"; ctx.publish();
    std::set<int> off; for (auto& c : f.c) if (c.size() == 1) off.insert(std::abs(c[0])); if (force) for (int v = 1; v <= n; v++) if (!keep.count(v)) off.insert(v);
    off.erase(z); int expect = (int)off.size() < n ? 1 : -1; CNFProblem p; load(p, f);
    std::unique_ptr<CandySolverInterface> solver(make(cfg)); solver->init(p); lbool r = solver->solve();
    ctx.label("width " + std::to_string(n)); ctx.label(expect == 1 ? "satisfiable" : "unsatisfiable"); ctx.nontrivial();
    ctx.check(r == (expect == 1 ? l_True : l_False), "wrong verdict on a formula with a clause of " + std::to_string(n) + " literals, reference says " + std::to_string(expect));
    if (r == l_True) { auto m = modelOf(solver->getCandySolverResult(), n + 1); for (auto& c : f.c) ctx.check(ref::satisfied(c, m), "a clause of " + std::to_string(c.size()) + " literals is not satisfied by the reported model"); }
}
PBT_MAIN
