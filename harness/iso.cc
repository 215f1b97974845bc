// Solvers are self-contained: a script gives the same transcript alone, again, and interleaved with another solver's script.
#include "candyapi.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace cnd;

struct Op { int kind; std::vector<int> lits; int num = 0; }; // 0 clause, 1 assume, 2 solve, 3 limit
// Simplification breaks ties between duplicate clauses by their addresses, so only the answers of unlimited calls are fixed when it is on.
struct Script { bool ip = false, exact = true; Config cfg; std::vector<Op> ops; };
struct Machine {
    const Script& sc; std::set<int> assumed; bool limited = false; void* ip = nullptr; std::unique_ptr<CandySolverInterface> s; CNFProblem delta; std::vector<Lit> ass; size_t pc = 0; int n = 1, left = -1; std::vector<ref::Cl> learnt; std::vector<std::string> log; std::vector<int> answers;
    static int term(void* p) { Machine* m = (Machine*)p; if (m->left < 0) return 0; return m->left-- == 0; }
    static void learn(void* p, int* c) { Machine* m = (Machine*)p; ref::Cl k; for (; *c; c++) k.push_back(*c); m->learnt.push_back(k); }
    Machine(const Script& sc_) : sc(sc_) { if (sc.ip) { ip = ipasir_init(); ipasir_set_terminate(ip, this, term); ipasir_set_learn(ip, this, 6, learn); } else { s.reset(make(sc.cfg)); s->setTermCallback(this, term); s->setLearntCallback(this, 6, learn); } }
    ~Machine() { if (ip) ipasir_release(ip); }
    bool step() {
        if (pc >= sc.ops.size()) return false; const Op& o = sc.ops[pc++]; for (int l : o.lits) n = std::max(n, std::abs(l));
        if (o.kind == 0) { if (ip) { for (int l : o.lits) ipasir_add(ip, l); ipasir_add(ip, 0); } else { auto v = LV(o.lits); delta.readClause(v.begin(), v.end()); } }
        else if (o.kind == 1) { assumed.insert(o.lits[0]); if (ip) ipasir_assume(ip, o.lits[0]); else ass.push_back(L(o.lits[0])); }
        else if (o.kind == 3) { left = o.num; limited = true; }
        else {
            std::ostringstream t; learnt.clear(); int r; answers.push_back(limited ? -1 : 0);
            if (ip) r = ipasir_solve(ip); else { for (Lit a : ass) while ((int)delta.nVars() <= a.var()) delta.newVar(); s->init(delta); s->getAssignment().setAssumptions(ass); lbool b = s->solve(); delta.clear(); r = b == l_True ? 10 : b == l_False ? 20 : 0; }
            if (!limited) answers.back() = r; t << r; if (r == 10) { t << " model"; for (int v = 1; v <= n; v++) t << " " << (ip ? ipasir_val(ip, v) : s->getCandySolverResult().satisfies(L(v)) ? v : s->getCandySolverResult().satisfies(L(-v)) ? -v : 0); }
            if (r == 20) { if (ip) { t << " failed"; for (int a : assumed) if (ipasir_failed(ip, a)) t << " " << a; } else { ref::Cl c; for (Lit l : s->getCandySolverResult().getConflict()) c.push_back(D(l)); std::sort(c.begin(), c.end()); t << " failed " << ref::str(c); } }
            if (!ip) t << " conflicts " << s->nConflicts(); t << " learnt"; for (auto& c : learnt) t << " (" << ref::str(c) << ")"; log.push_back(sc.exact ? t.str() : "answer " + std::to_string(answers.back())); ass.clear(); assumed.clear();
        }
        return true;
    }
};
static Script script(pbt::Src& s, const Config& cfg, bool ip) {
    Script sc; sc.ip = ip; sc.cfg = cfg; sc.exact = !SolverOptions::opt_preprocessing && SolverOptions::opt_inprocessing == 0; std::string fam; ref::Cnf f = gen::any(s, 1, &fam); int n = std::max(3, ref::maxVar(f)); size_t pos = 0; int parts = s.range(1, 3);
    for (int p = 1; p <= parts; p++) { size_t end = p == parts ? f.c.size() : pos + s.below(f.c.size() - pos + 1); for (; pos < end; pos++) sc.ops.push_back({0, f.c[pos]}); if (s.coin(1, 3)) s.list(1, 3, [&]() { sc.ops.push_back({1, {ref::lit(s, n)}}); }); if (s.coin(1, 6)) { Op o{3, {}}; o.num = s.range(0, 3); sc.ops.push_back(o); } sc.ops.push_back({2, {}}); if (s.coin(1, 4)) { Op o{3, {}}; o.num = -1; sc.ops.push_back(o); sc.ops.push_back({2, {}}); } }
    return sc;
}
static void showScript(pbt::Ctx& ctx, const char* name, const Script& sc) { ctx.show << name << (sc.ip ? " (ipasir)" : "") << ":\n"; for (auto& o : sc.ops) { if (o.kind == 0) ctx.show << "add " << ref::str(o.lits) << " 0\n"; else if (o.kind == 1) ctx.show << "assume " << o.lits[0] << "\n"; else if (o.kind == 2) ctx.show << "solve\n"; else ctx.show << "terminate after " << o.num << " calls\n"; } }
static std::vector<std::string> alone(const Script& sc) { Machine m(sc); while (m.step()) {} return m.log; }
static void same(pbt::Ctx& ctx, const std::vector<std::string>& want, const std::vector<std::string>& got, const std::string& when) {
    ctx.check(want.size() == got.size(), "transcript lengths differ " + when); for (size_t i = 0; i < want.size(); i++) ctx.check(want[i] == got[i], "solve number " + std::to_string(i + 1) + " differs " + when + ": first " + want[i].substr(0, 700) + " --- then " + got[i].substr(0, 700));
}
// other users of the library run in between; they must leave the process as it was
static void bystander(pbt::Src& s, pbt::Ctx& ctx) {
    ref::Cnf f = gen::circuitCnf(s, 4, 6); CNFProblem p; load(p, f); unsigned k = s.pick({2, 1, 1});
    if (k == 0) { static const GateRecognitionMethod m[] = {GateRecognitionMethod::Patterns, GateRecognitionMethod::Semantic, GateRecognitionMethod::Holistic, GateRecognitionMethod::PatSem}; GateAnalyzer a(p, m[s.below(4)]); a.analyze(); ctx.show << "(a gate analysis in between)\n"; ctx.label("gate analysis in between"); }
    else { Config c; c.rsil = k == 2; c.lrb = s.flip() && !c.rsil; std::unique_ptr<CandySolverInterface> o(make(c)); o->init(p); lbool r = o->solve(); ctx.show << "(another solver in between)\n"; ctx.label(c.rsil ? "rsil solver in between" : "solver in between"); if (r == l_True && s.flip()) { Minimizer mm(p, o->getCandySolverResult()); mm.mimimizeModel(false, s.flip(), s.flip()); ctx.label("minimizer in between"); ctx.show << "(and a minimizer)\n"; } }
}
static Config configure(pbt::Src& s, bool rsil) { Config c = config(s, rsil); if (s.coin(3, 4)) { SolverOptions::opt_preprocessing = false; SolverOptions::opt_inprocessing = 0; c.text += " (no simplification)"; } return c; }
static std::string settings() {
    std::ostringstream o; o << (bool)SolverOptions::opt_preprocessing << " " << (int)SolverOptions::opt_inprocessing << " " << (bool)SolverOptions::opt_sort_variables << " " << (int)SolverOptions::verb << " " << (double)SolverOptions::opt_K << " " << (double)SolverOptions::opt_R << " " << (int)SolverOptions::opt_size_lbd_queue << " " << (int)SolverOptions::opt_size_trail_queue << " " << (double)SolverOptions::opt_vsids_var_decay << " " << (double)SolverOptions::opt_vsids_max_var_decay << " " << (bool)SolverOptions::opt_vsids_extra_bump << " " << (bool)SolverOptions::opt_use_lrb
      << " " << (bool)VariableEliminationOptions::opt_use_elim << " " << (bool)VariableEliminationOptions::opt_use_asymm << " " << (int)VariableEliminationOptions::opt_clause_lim << " " << (int)ClauseDatabaseOptions::opt_first_reduce_db << " " << (int)ClauseDatabaseOptions::opt_inc_reduce_db << " " << (int)ClauseDatabaseOptions::opt_persistent_lbd << " " << (bool)ClauseDatabaseOptions::opt_recalculate_lbd << " " << (bool)ClauseDatabaseOptions::opt_keep_median_lbd
      << " " << (int)ParallelOptions::opt_threads << " " << (bool)ParallelOptions::opt_static_propagate << " " << (bool)ParallelOptions::opt_static_database << " " << (int)GateRecognitionOptions::method << " " << (int)GateRecognitionOptions::tries << " " << (bool)RSILOptions::opt_rsil_enable << " " << (int)RSILOptions::opt_rsil_advice_size << " " << (int)RandomSimulationOptions::opt_rs_nrounds << " " << (bool)RSAROptions::opt_rsar_enable << " " << (bool)MinimizerOptions::do_minimize << " [" << (const char*)SolverOptions::opt_certified_file << "] [" << (const char*)RSILOptions::opt_rsil_mode << "]"; return o.str();
}
PROPERTY(repeat) {
    resetOptions(); bool ip = src.coin(1, 3); Config cfg = configure(src, !ip); Script a = script(src, cfg, ip); ctx.show << "config: " << cfg.text << "\n"; showScript(ctx, "script", a); ctx.publish();
    std::vector<std::string> first = alone(a), again = alone(a); same(ctx, first, again, "when the script is run a second time in the same process");
    if (src.coin(1, 3)) { std::string before = settings(); bystander(src, ctx); ctx.publish(); std::string after = settings(); ctx.check(before == after, "helper objects leave other settings behind: " + after + " instead of " + before); same(ctx, first, alone(a), "after other objects of the library were used"); }
    bool work = false; for (auto& l : first) work |= l.find('(') != std::string::npos; if (work || !a.exact) ctx.nontrivial(); ctx.label(a.exact ? "whole transcripts" : "answers only"); ctx.label(ip ? "ipasir" : "solver interface");
}
PROPERTY(interleave) {
    resetOptions(); bool ip = src.coin(1, 3); Config cfg = configure(src, !ip); Script a = script(src, cfg, ip), b = script(src, cfg, ip); ctx.show << "config: " << cfg.text << "\n"; showScript(ctx, "first script", a); showScript(ctx, "second script", b); ctx.publish();
    std::vector<std::string> la = alone(a), lb = alone(b); Machine ma(a), mb(b); bool moreA = true, moreB = true; std::string turns; while (moreA || moreB) { bool t = moreA && (!moreB || src.flip()); turns += t ? 'a' : 'b'; if (t) moreA = ma.step(); else moreB = mb.step(); }
    ctx.show << "turns: " << turns << "\n"; same(ctx, la, ma.log, "when another solver works in between (first script)"); same(ctx, lb, mb.log, "when another solver works in between (second script)");
    bool work = false; for (auto& l : la) work |= l.find('(') != std::string::npos; for (auto& l : lb) work |= l.find('(') != std::string::npos; if (work || !a.exact) ctx.nontrivial(); ctx.label(a.exact ? "whole transcripts" : "answers only"); ctx.label(ip ? "ipasir" : "solver interface"); if (la.size() + lb.size() > 3) ctx.label("more than three solve calls");
}
// a solver that was cleared answers for the formulas it gets from then on, as a new solver would
static void cleared(pbt::Src& src, pbt::Ctx& ctx, bool onlyC) {
    resetOptions(); Config cfg = config(src, !onlyC, onlyC); ctx.show << "config: " << cfg.text << "\n"; std::unique_ptr<CandySolverInterface> s(make(cfg)); int rounds = src.range(2, 3); bool work = false;
    for (int k = 0; k < rounds; k++) {
        std::string fam; ref::Cnf f = gen::any(src, 1, &fam); int n = ref::maxVar(f), calls = src.coin(1, 4) ? 2 : 1; if (k) { s->clear(); ctx.show << "clear\n"; } size_t pos = 0; ref::Cnf now; now.n = n;
        for (int c = 0; c < calls; c++) {
            size_t end = c + 1 == calls ? f.c.size() : src.below(f.c.size() + 1); CNFProblem p; for (; pos < end; pos++) { auto v = LV(f.c[pos]); p.readClause(v.begin(), v.end()); now.c.push_back(f.c[pos]); } std::vector<int> as; if (src.coin(1, 3) && n) src.list(1, 3, [&]() { as.push_back(ref::lit(src, n)); }); int m = ref::maxVar(now); while ((int)p.nVars() < m) p.newVar();
            ctx.show << (c ? "more clauses\n" : "") << ref::dimacs(now) << "assume " << ref::str(as) << "\n"; ctx.publish(); int expect = ref::solve(now, as);
            s->init(p); s->getAssignment().setAssumptions(LV(as)); lbool r = s->solve(); int got = r == l_True ? 1 : r == l_False ? -1 : 0; std::string w = k ? "after clear: " : "before clear: ";
            ctx.check(got == expect, w + "the solver says " + std::to_string(got) + ", the reference " + std::to_string(expect)); if (s->nConflicts() > 0) work = true;
            if (got == 1) { std::vector<int> mo = modelOf(s->getCandySolverResult(), m); for (auto& cl : now.c) { bool t = false; for (int l : cl) if (std::find(cl.begin(), cl.end(), -l) != cl.end()) t = true; ctx.check(t || ref::satisfied(cl, mo), w + "clause (" + ref::str(cl) + ") is not satisfied by the model"); } for (int a : as) ctx.check(ref::satisfied({a}, mo), w + "assumption " + std::to_string(a) + " does not hold in the model"); }
        }
    }
    if (work) ctx.nontrivial();
}
PROPERTY(clear) { cleared(src, ctx, false); }
PROPERTY(clearc) { cleared(src, ctx, true); }
PBT_MAIN
