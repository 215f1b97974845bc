// Adapter to candy: option reset, configuration generator, literal conversion.
#ifndef VERIF_CANDYAPI_H
#define VERIF_CANDYAPI_H
#include "gen.h"
#include "candy/core/SolverTypes.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/Trail.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/frontend/CandyBuilder.h"

namespace cnd {
using namespace Candy;
inline Lit L(int d) { return Lit(std::abs(d) - 1, d < 0); }
inline int D(Lit l) { return (l.var() + 1) * (l.sign() ? -1 : 1); }
inline std::vector<Lit> LV(const ref::Cl& c) { std::vector<Lit> v; for (int d : c) v.push_back(L(d)); return v; }
inline std::vector<int> DV(const std::vector<Lit>& c) { std::vector<int> v; for (Lit l : c) v.push_back(D(l)); return v; }
inline void load(CNFProblem& p, const ref::Cnf& f) { for (auto& c : f.c) { std::vector<Lit> v = LV(c); p.readClause(v.begin(), v.end()); } }

// every option the generator may touch goes back to the shipped default
inline void resetOptions() {
    ParallelOptions::opt_static_propagate = false; ParallelOptions::opt_static_database = false; ParallelOptions::opt_static_database_size_bound = 6; ParallelOptions::opt_threads = 1;
    ClauseDatabaseOptions::opt_persistent_lbd = 3; ClauseDatabaseOptions::opt_recalculate_lbd = true; ClauseDatabaseOptions::opt_keep_median_lbd = false;
    ClauseDatabaseOptions::opt_first_reduce_db = 3000; ClauseDatabaseOptions::opt_inc_reduce_db = 1300;
    MinimizerOptions::do_minimize = false; MinimizerOptions::minimize_pruned = false; MinimizerOptions::minimize_minimal = false; MinimizerOptions::minimize_project = false;
    SolverOptions::verb = 0; SolverOptions::opt_certified_file = "";
    SolverOptions::opt_K = 0.8; SolverOptions::opt_R = 1.4; SolverOptions::opt_size_lbd_queue = 50; SolverOptions::opt_size_trail_queue = 5000;
    SolverOptions::opt_vsids_var_decay = 0.8; SolverOptions::opt_vsids_max_var_decay = 0.95; SolverOptions::opt_vsids_extra_bump = false;
    SolverOptions::opt_use_vsidsc = false; SolverOptions::opt_vsidsc_mult = 1; SolverOptions::opt_vsidsc_bump = true; SolverOptions::opt_vsidsc_scope = false; SolverOptions::opt_vsidsc_samplesize = 1.0; SolverOptions::opt_vsidsc_samplesize_decay = 1.0; SolverOptions::opt_vsidsc_dbsize_recalc = 0.0;
    SolverOptions::opt_use_lrb = false; SolverOptions::opt_lrb_step_size = 0.4; SolverOptions::opt_lrb_min_step_size = 0.06;
    SolverOptions::opt_sort_variables = false; SolverOptions::opt_preprocessing = true; SolverOptions::opt_inprocessing = 0;
    VariableEliminationOptions::opt_clause_lim = 20; VariableEliminationOptions::opt_use_asymm = false; VariableEliminationOptions::opt_use_elim = true;
    GateRecognitionOptions::method = 10; GateRecognitionOptions::tries = 0; GateRecognitionOptions::timeout = 0;
    RandomSimulationOptions::opt_rs_nrounds = 2048; RandomSimulationOptions::opt_rs_abortbyrrat = false; RandomSimulationOptions::opt_rs_rrat = 0.01; RandomSimulationOptions::opt_rs_filterConjBySize = 0; RandomSimulationOptions::opt_rs_removeBackboneConj = false; RandomSimulationOptions::opt_rs_filterGatesByNonmono = false; RandomSimulationOptions::opt_rs_ppTimeLimit = -1;
    RSILOptions::opt_rsil_enable = false; RSILOptions::opt_rsil_mode = "unrestricted"; RSILOptions::opt_rsil_advice_size = 3; RSILOptions::opt_rsil_vanHalfLife = 1 << 24; RSILOptions::opt_rsil_impBudgets = 1 << 20; RSILOptions::opt_rsil_filterByInputDeps = 0; RSILOptions::opt_rsil_filterOnlyBackbone = false; RSILOptions::opt_rsil_minGateFraction = 0.1; RSILOptions::opt_rsil_onlyMiters = false;
    RSAROptions::opt_rsar_enable = false; RSAROptions::opt_rsar_maxRefinementSteps = 10; RSAROptions::opt_rsar_inputDepCountHeurConf = ""; RSAROptions::opt_rsar_minGateCount = 1;
}
struct Config { bool stat = false, lrb = false, vsidsc = false, rsil = false; unsigned adv = 3; std::string text; };
// draws a configuration; aggressive settings make reduction/restarts/inprocessing happen on small formulas
inline Config config(pbt::Src& s, bool allowRsil = true, bool onlyC = false) {
    Config c; std::ostringstream o;
    unsigned b = onlyC ? 2 : s.pick({90, 60, 0, allowRsil ? 25u : 0u}); // vsidsc allocates gigabytes per solver: it has jobs of its own
    if (b == 1) c.lrb = true; if (b == 2) c.vsidsc = true; if (b == 3) c.rsil = true;
    static const char* bn[] = {"vsids", "lrb", "vsidsc", "rsil"}; o << bn[b];
    if (s.coin(1, 3)) { c.stat = true; o << " static"; }
    if (s.coin(1, 3)) { SolverOptions::opt_preprocessing = false; o << " nopre"; }
    if (s.coin(1, 4)) { VariableEliminationOptions::opt_use_elim = false; o << " noelim"; }
    if (s.coin(1, 3)) { int k = s.range(0, 6); VariableEliminationOptions::opt_clause_lim = k; o << " cl-lim=" << k; }
    if (s.flip()) { int k = s.range(1, 3); SolverOptions::opt_inprocessing = k; o << " inproc=" << k; }
    if (s.coin(1, 6)) { VariableEliminationOptions::opt_use_asymm = true; o << " asymm"; }
    if (s.coin(3, 4)) { int a = s.range(0, 60), i = s.range(0, 20); ClauseDatabaseOptions::opt_first_reduce_db = a; ClauseDatabaseOptions::opt_inc_reduce_db = i; o << " reduce=" << a << "+" << i; }
    if (s.flip()) { int k = s.range(0, 6); ClauseDatabaseOptions::opt_persistent_lbd = k; o << " plbd=" << k; }
    if (s.coin(1, 3)) { ClauseDatabaseOptions::opt_keep_median_lbd = true; o << " median"; }
    if (s.coin(1, 3)) { ClauseDatabaseOptions::opt_recalculate_lbd = false; o << " norecalc"; }
    if (s.coin(3, 4)) { int k = s.range(10, 20); SolverOptions::opt_size_lbd_queue = k; o << " lbdq=" << k; }
    if (s.coin(1, 3)) { int k = s.range(10, 60); SolverOptions::opt_size_trail_queue = k; o << " trailq=" << k; }
    if (s.coin(1, 3)) { SolverOptions::opt_K = 0.99; o << " K=.99"; }
    if (s.coin(1, 4)) { SolverOptions::opt_vsids_extra_bump = true; o << " xbump"; }
    if (s.coin(1, 4)) { SolverOptions::opt_vsids_var_decay = 0.5; SolverOptions::opt_vsids_max_var_decay = 0.6; o << " decay=.5"; }
    if (s.coin(1, 3)) { SolverOptions::opt_sort_variables = true; o << " sort"; }
    if (s.coin(1, 4)) { int k = s.range(0, 10); ParallelOptions::opt_static_database_size_bound = k; o << " sdb=" << k; }
    if (c.vsidsc) { if (s.flip()) { SolverOptions::opt_vsidsc_scope = true; o << " lwcc"; } if (s.flip()) { SolverOptions::opt_vsidsc_mult = 50; o << " mult"; } if (s.coin(1, 3)) { SolverOptions::opt_vsidsc_bump = false; o << " nobump"; } if (s.flip()) { SolverOptions::opt_vsidsc_dbsize_recalc = 1.0; o << " recalc"; } }
    if (c.rsil) { unsigned m = s.pick({1, 1, 1}); if (m == 1) { RSILOptions::opt_rsil_mode = "vanishing"; o << " vanishing"; } if (m == 2) { RSILOptions::opt_rsil_mode = "implicationbudgeted"; o << " budgeted"; } if (s.flip()) { c.adv = 2; o << " adv2"; }
        if (s.flip()) { RSILOptions::opt_rsil_vanHalfLife = 4; RSILOptions::opt_rsil_impBudgets = 3; o << " small-budget"; } RSILOptions::opt_rsil_minGateFraction = 0.0; if (s.coin(1, 3)) { RandomSimulationOptions::opt_rs_filterConjBySize = 2; o << " conj2"; } if (s.coin(1, 4)) { RandomSimulationOptions::opt_rs_removeBackboneConj = true; o << " nobb"; } if (s.coin(1, 4)) { RandomSimulationOptions::opt_rs_filterGatesByNonmono = true; o << " nonmono"; } if (s.coin(1, 4)) { int m = s.range(0, 2); GateRecognitionOptions::method = m; o << " gm=" << m; } }
    c.text = o.str(); return c;
}
inline CandySolverInterface* make(const Config& c) { return createSolver(c.stat, c.lrb, c.vsidsc, c.rsil, c.adv); }
// model of a result as +-1/0 per variable, read through the public accessors
inline std::vector<int> modelOf(CandySolverResult& r, int n) { std::vector<int> m(n + 1, 0); for (Lit l : r.getModelLiterals()) if (l.var() + 1 <= n) m[l.var() + 1] = l.sign() ? -1 : 1; return m; }
// candy polls its termination callback between restarts: stop it there once it has spent `max` conflicts
struct Budget { CandySolverInterface* s; unsigned max; bool hit = false; };
inline void limit(CandySolverInterface& s, Budget& b) { s.setTermCallback(&b, [](void* p) -> int { Budget* b = (Budget*)p; if (b->s->nConflicts() > b->max) { b->hit = true; return 1; } return 0; }); }
} // namespace cnd
#endif
