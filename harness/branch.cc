#include "gen.h"
#include <array>
#include <memory>
#include <mutex>
#include <thread>
#include <unordered_map>
#include <limits>
#include <numeric>
#include <iomanip>
#include <chrono>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <queue>
#include <sstream>
#include <stack>
#include <atomic>
#include <random>
#define private public // the weights of LRB have no accessor
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/VSIDSC.h"
#undef private
#include "candyapi.h"
#include <deque>
#include <random>
#include <cmath>
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/learning/ConflictAnalysis.h"
#include "candy/mtl/Heap.h"
#include "candy/mtl/Stamp.h"
#include "candy/systems/branching/VSIDS.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/systems/Restart.h"
#include <typeinfo>
using namespace cnd;

// Branching units in the loop of Solver::search (propagate, analyse, notify the unit, learn, backjump, pick), against
// a model of activities, saved phases and conjectures.
typedef long double R;
static bool near(R a, R b) { return std::fabs((double)(a - b)) <= 1e-9 * (1 + std::fabs((double)a) + std::fabs((double)b)); }

struct Vs { // normalised activity: activity / current bump value
    VSIDS& b; std::vector<R> a; R decay, maxDecay; bool extra; Vs(VSIDS& x) : b(x), decay(x.var_decay), maxDecay(x.max_var_decay), extra(x.glucose_style_extra_bump) { }
    double score(int v) { return b.activity[v]; }
    void inited(int n) { a.resize(n); for (int i = 0; i < n; i++) a[i] = (R)b.activity[i] / b.var_inc; }
    void conflict(ClauseDatabase& db, Trail& t) {
        if (db.result.nConflicts % 5000 == 0 && decay < maxDecay) decay += 0.01;
        std::set<int> s; for (Clause* c : db.result.involved_clauses) for (Lit l : *c) s.insert(l.var()); for (int v : s) a[v] += 1;
        if (extra) for (unsigned i = t.trail_lim.back(); i < t.size(); i++) { int v = t[i].var(); Clause* r = t.reason(v); if (!s.count(v) && r && r->isLearnt() && r->getLBD() < db.result.lbd) a[v] += 1; }
        for (R& x : a) x *= decay;
    }
    void compare(pbt::Ctx& ctx) { for (size_t i = 0; i < a.size(); i++) if (!near(a[i], (R)b.activity[i] / b.var_inc)) ctx.fail("activity of variable " + std::to_string(i + 1) + " is " + std::to_string((double)(b.activity[i] / b.var_inc)) + " bumps, expected " + std::to_string((double)a[i])); }
};
struct Lr { // exponential recency weighted average of the learning rate
    LRB& b; std::vector<R> w; std::vector<unsigned> part, intv; R step; R minStep; Lr(LRB& x) : b(x), step(x.step_size), minStep(x.min_step_size) { }
    double score(int v) { return b.weight[v]; }
    void inited(int n) { w.resize(n); part.resize(n, 0); intv.resize(n, 0); for (int i = 0; i < n; i++) w[i] = b.weight[i]; }
    void conflict(ClauseDatabase& db, Trail& t) {
        std::set<int> s; for (Clause* c : db.result.involved_clauses) for (Lit l : *c) s.insert(l.var()); for (int v : s) part[v]++;
        if (step > minStep) step -= 10e-6; for (unsigned i = t.trail_lim[0]; i < t.size(); i++) intv[t[i].var()]++;
        for (unsigned i = t.trail_lim[db.result.backtrack_level]; i < t.size(); i++) { int v = t[i].var(); w[v] = (1 - step) * w[v] + step * ((R)part[v] / intv[v]); part[v] = intv[v] = 0; }
    }
    void compare(pbt::Ctx& ctx) { for (size_t i = 0; i < w.size(); i++) if (!near(w[i], b.weight[i])) ctx.fail("weight of variable " + std::to_string(i + 1) + " is " + std::to_string(b.weight[i]) + ", its averaged learning rate is " + std::to_string((double)w[i])); }
};
struct Vc { // VSIDS whose bumps and initial activities are weighted by the betweenness of the variable in the graph of the clauses
    VSIDSC& b; std::vector<R> a; std::map<int, R> cent; R decay, maxDecay; bool extra, bump, first = true, lost = false; int factor; double recalc; size_t last = 0; int runs = 0;
    Vc(VSIDSC& x) : b(x), decay(x.var_decay), maxDecay(x.max_var_decay), extra(x.glucose_style_extra_bump), bump(SolverOptions::opt_vsidsc_bump), factor(SolverOptions::opt_vsidsc_mult), recalc(SolverOptions::opt_vsidsc_dbsize_recalc) { }
    double score(int v) { return b.activity[v]; }
    void inited(int n) { a.resize(n); for (int i = 0; i < n; i++) a[i] = (R)b.activity[i] / b.var_inc; }
    R weight(int v) { auto it = cent.find(v); return bump && it != cent.end() ? 1 + it->second * factor : 1; }
    void conflict(ClauseDatabase& db, Trail& t) {
        if (db.result.nConflicts % 5000 == 0 && decay < maxDecay) decay += 0.01;
        std::set<int> s; for (Clause* c : db.result.involved_clauses) for (Lit l : *c) s.insert(l.var()); for (int v : s) a[v] += weight(v);
        if (extra) for (unsigned i = t.trail_lim.back(); i < t.size(); i++) { int v = t[i].var(); Clause* r = t.reason(v); if (!s.count(v) && r && r->isLearnt() && r->getLBD() < db.result.lbd) a[v] += weight(v); }
        for (R& x : a) x *= decay;
    }
    void reduced(ClauseDatabase& db) {
        if (!first && !(recalc >= 1 && db.size() > last * recalc)) return; first = false; last = db.size(); runs++;
        std::map<int, std::set<int>> g; for (const Clause* c : db) if (!c->isDeleted()) for (Lit x : *c) for (Lit y : *c) if (x.var() != y.var()) g[x.var()].insert(y.var());
        if (g.empty()) { lost = !cent.empty(); return; } std::map<int, R> bc; bool lw = SolverOptions::opt_vsidsc_scope; auto in = [&](int v) { return !lw || b.graph.inScope(b.graph.mapNode(v), LWCC); };
        for (auto& q : g) bc[q.first] = 0;
        for (auto& q : g) { int s = q.first; if (!in(s)) continue; std::map<int, int> d; std::map<int, R> sp, de; std::map<int, std::vector<int>> pre; std::vector<int> o{s}; d[s] = 0; sp[s] = 1; for (size_t i = 0; i < o.size(); i++) { int v = o[i]; for (int w : g[v]) { if (!d.count(w)) { d[w] = d[v] + 1; o.push_back(w); } if (d[w] == d[v] + 1) { sp[w] += sp[v]; pre[w].push_back(v); } } } for (size_t i = o.size(); i-- > 1;) { int w = o[i]; for (int v : pre[w]) de[v] += sp[v] / sp[w] * (1 + de[w]); bc[w] += de[w]; } }
        R mx = 0; for (auto& x : bc) mx = std::max(mx, x.second); cent.clear(); for (auto& x : bc) { cent[x.first] = mx > 0 ? x.second / mx : 0; a[x.first] = cent[x.first] * factor / b.var_inc; }
    }
    void compare(pbt::Ctx& ctx) { if (lost) throw pbt::Discard(); for (size_t i = 0; i < a.size(); i++) if (!near(a[i], (R)b.activity[i] / b.var_inc)) ctx.fail("activity of variable " + std::to_string(i + 1) + " is " + std::to_string((double)(b.activity[i] / b.var_inc)) + " bumps, expected " + std::to_string((double)a[i])); }
};
inline Vc modelFor(VSIDSC& b) { return Vc(b); } inline VSIDSC& base(VSIDSC& b) { return b; } template<class M> inline void reduced(M&, ClauseDatabase&) { } inline void reduced(Vc& m, ClauseDatabase& db) { m.reduced(db); }
template<class B> inline bool enlarge(B& b, int n) { double k = 1e95; for (int v = 0; v < n; v++) b.activity[v] *= k; b.var_inc *= k; return true; } inline bool enlarge(LRB&, int) { return false; }
inline Vs modelFor(VSIDS& b) { return Vs(b); } inline Lr modelFor(LRB& b) { return Lr(b); }
inline VSIDS& base(VSIDS& b) { return b; } inline LRB& base(LRB& b) { return b; } template<class A> inline VSIDS& base(RSILBranchingHeuristic<A>& b) { return b.defaultBranchingHeuristic; }
template<class B> inline void takeConj(B& b, std::unique_ptr<Conjectures>, bool, unsigned) { }
template<class A> inline void takeConj(RSILBranchingHeuristic<A>& b, std::unique_ptr<Conjectures> c, bool bb, unsigned) { b.init(std::move(c), bb); }
template<unsigned k> inline void takeConj(RSILBudgetBranchingHeuristic<k>& b, std::unique_ptr<Conjectures> c, bool bb, unsigned budget) { b.init(std::move(c), bb, budget); }
template<class A> inline void takeConj(RSILVanishingBranchingHeuristic<A>& b, std::unique_ptr<Conjectures> c, bool bb, unsigned budget) { b.init(std::move(c), bb, budget); }

enum Kind { PLAIN, ADVICE, BUDGET, VANISH };
template<class B> static void drive(pbt::Src& src, pbt::Ctx& ctx, Kind kind, unsigned maxAdvice) {
    resetOptions(); constexpr bool vc = std::is_same<B, VSIDSC>::value; if (vc) { SolverOptions::opt_vsidsc_mult = src.flip() ? 1 : src.range(2, 50); SolverOptions::opt_vsidsc_bump = src.coin(3, 4); SolverOptions::opt_vsidsc_scope = src.coin(1, 3); static const double grow[] = {0.0, 1.0, 1.01, 1.5}; SolverOptions::opt_vsidsc_dbsize_recalc = grow[src.below(4)]; }
    bool hard = src.coin(2, 3); int n = hard ? src.range(12, ctx.size > 1 ? 60 : 30) : src.range(2, 16); ref::Cnf f; f.n = n;
    bool deep = ctx.size > 1 && src.coin(1, 3); if (deep) { hard = false; n = src.range(60, 160); f.n = n; ctx.label("deep"); } // loose formulas: conflicts come late
    if (src.coin(1, 3)) { SolverOptions::opt_vsids_var_decay = 0.1; SolverOptions::opt_vsids_max_var_decay = 0.2; } else if (src.flip()) SolverOptions::opt_vsids_var_decay = 0.5;
    if (src.coin(1, 3)) SolverOptions::opt_vsids_extra_bump = true; bool sortv = !vc && src.coin(1, 3); SolverOptions::opt_sort_variables = sortv; if (src.coin(1, 3)) { SolverOptions::opt_lrb_step_size = 0.7; SolverOptions::opt_lrb_min_step_size = 0.02; }
    int m = std::max(1, n * (deep ? src.range(30, 40) : hard ? src.range(40, 48) : src.range(20, 44)) / 10); for (int i = 0; i < m; i++) f.c.push_back(ref::clauseK(src, n, std::min(n, hard || deep ? 3 : (int)src.pick({0, 0, 3, 12, 2}))));
    unsigned budget = 1 + (unsigned)src.below(5); RSILOptions::opt_rsil_impBudgets = budget; RSILOptions::opt_rsil_vanHalfLife = budget;
    ClauseDatabase db; Trail trail; Propagate prop(db, trail); ConflictAnalysis ca(db, trail); B br(db, trail); auto& bs = base(br);
    CNFProblem p; load(p, f); while ((int)p.nVars() < n) p.newVar(); if (db.hasEmptyClause()) throw pbt::Discard();
    db.init(p); trail.init(n); prop.init(); ca.init(n); bs.init(p); auto model = modelFor(bs); std::vector<int> phase(n, -1); // -1: not known yet
    if (!sortv) for (int& x : phase) x = 1;
    if (sortv && db.size()) { std::vector<R> occ(2 * n, 0); for (const Clause* c : db) for (Lit l : *c) occ[2 * l.var() + l.sign()] += (R)1 / c->size(); R mx = *std::max_element(occ.begin(), occ.end()); for (int v = 0; v < n; v++) if (!near(model.score(v), (occ[2 * v] + occ[2 * v + 1]) / mx)) ctx.fail("the initial order does not follow the weighted occurrences of variable " + std::to_string(v + 1)); }
    // conjectures: disjoint groups of literals and disjoint backbones
    std::vector<std::vector<int>> grp; std::map<int, size_t> of; std::map<int, int> bb; std::map<std::pair<int, int>, unsigned> left; std::map<int, unsigned> bbLeft; bool bbOn = src.coin(3, 4), conj = kind != PLAIN; uint64_t picks = 0;
    if (conj) {
        std::unique_ptr<Conjectures> c(new Conjectures()); std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i; for (int i = n; i > 1; i--) std::swap(perm[i - 1], perm[src.below(i)]); size_t at = 0; ctx.show << "advice size " << maxAdvice << " budget " << budget << " backbones " << bbOn << "\n";
        src.list(1, 6, [&]() { if (src.coin(1, 3)) { if (at < (size_t)n) { int v = perm[at++]; int s = src.flip(); bb[v] = s; bbLeft[v] = budget; c->addBackbone(BackboneConjecture(Lit(v, s))); ctx.show << "backbone " << D(Lit(v, s)) << "\n"; } } else { size_t k = src.range(2, 4); if (at + k > (size_t)n) return; std::vector<Lit> ls; std::vector<int> g; for (size_t i = 0; i < k; i++) { Lit l(perm[at++], src.flip()); ls.push_back(l); g.push_back(D(l)); } c->addEquivalence(EquivalenceConjecture(ls)); ctx.show << "equivalent " << ref::str(g) << "\n"; if (k <= maxAdvice) { for (int l : g) { of[std::abs(l) - 1] = grp.size(); for (int e : g) if (e != l) left[{std::abs(l) - 1, std::abs(e) - 1}] = budget; } grp.push_back(g); } } });
        if (bb.empty() && grp.empty() && c->getEquivalences().empty()) throw pbt::Discard(); takeConj(br, std::move(c), bbOn, budget);
    }
    ctx.show << ref::dimacs(f); ctx.publish();
    for (int v = 0; v < n; v++) if (src.coin(1, 12)) trail.setDecisionVar(v, false);
    model.inited(n); if (src.coin(1, 4) && enlarge(bs, n)) ctx.label("near the rescaling limit");
    bool dead = false; int conflicts = 0, advised = 0;
    auto facts = [&]() { trail.reset(); br.reset(); for (Clause* c : db.getUnitClauses()) if (!trail.fact(c->first())) { dead = true; return; } };
    facts(); if (vc && !dead) { br.process_reduce(); reduced(model, db); model.compare(ctx); } int steps = 0, cap = ctx.size > 1 ? 400 : 120; bool more = true;
    while (!dead && more && steps++ < cap) {
        Clause* confl = prop.propagate();
        if (confl) {
            if (trail.decisionLevel() == 0) break; if (trail.decisionLevel() > 20) ctx.label("conflict above level 20"); ca.handle_conflict(confl); conflicts++; model.conflict(db, trail); for (unsigned i = trail.trail_lim[db.result.backtrack_level]; i < trail.size(); i++) phase[trail[i].var()] = trail[i].sign();
            br.process_conflict(); model.compare(ctx);
            Clause* c = db.createClause(db.result.learnt_clause.begin(), db.result.learnt_clause.end(), db.result.lbd); if (c->size() > 2) prop.attachClause(c); trail.backtrack(db.result.backtrack_level); trail.propagate(c->first(), c); continue;
        }
        unsigned op = src.pick({30, 3, 2, 1, 1});
        if (op == 1) { std::vector<int> fr; for (int v = 0; v < n; v++) if (trail.value((Var)v) == l_Undef) fr.push_back(v); if (!fr.empty()) { trail.newDecisionLevel(); trail.decide(Lit(fr[src.below(fr.size())], src.flip())); continue; } } // an assumption
        if (op == 2) { facts(); if (dead) break; if (src.flip()) { std::vector<Clause*> all(db.begin(), db.end()); for (Clause* c : all) if (!c->isDeleted() && c->isLearnt() && c->size() > 2 && src.flip()) { prop.detachClause(c); db.removeClause(c); } if (src.flip()) { db.reorganize(); prop.reset(); } } br.process_reduce(); reduced(model, db); model.compare(ctx); ctx.label("reduce"); continue; }
        if (op == 3) { int v = (int)src.below(n); bool s = src.flip(); br.setPolarity(v, s); phase[v] = s; }
        if (op == 4) { trail.setDecisionVar((int)src.below(n), src.flip()); facts(); continue; }
        std::set<int> freeVars; double best = -1; for (int v = 0; v < n; v++) if (trail.value((Var)v) == l_Undef && trail.isDecisionVar(v)) { freeVars.insert(v); best = std::max(best, model.score(v)); }
        // what implicit learning may propose: a literal that violates a conjecture about the current level
        std::vector<std::pair<int, int>> adv; int from = -1;
        if (conj && trail.decisionLevel() > 0) for (unsigned i = trail.trail_lim.back(); i < trail.size() && from < 0; i++) { int v = trail[i].var(); auto g = of.find(v); if (g == of.end()) continue; int self = 0; for (int l : grp[g->second]) if (std::abs(l) - 1 == v) self = l; bool holds = D(trail[i]) == self; for (int e : grp[g->second]) { int w = std::abs(e) - 1; if (w == v || !freeVars.count(w) || (kind == BUDGET && !left[{v, w}])) continue; adv.push_back({holds ? -e : e, w}); from = v; } }
        Lit l = br.pickBranchLit(); picks++; bool always = kind == ADVICE || kind == BUDGET || (kind == VANISH && picks * 2 <= budget);
        if (l == lit_Undef) { ctx.check(freeVars.empty(), "no decision although variable " + std::to_string(freeVars.empty() ? 0 : *freeVars.begin() + 1) + " is unassigned and eligible"); ctx.label("complete assignment"); facts(); if (src.coin(1, 3)) more = false; continue; }
        int v = l.var(); ctx.check(v >= 0 && v < n, "a decision on a variable that does not exist"); ctx.check(trail.value(l) == l_Undef, "a decision on variable " + std::to_string(v + 1) + ", which is assigned"); ctx.check(trail.isDecisionVar(v), "a decision on variable " + std::to_string(v + 1) + ", which is not eligible");
        bool isAdv = false; for (auto& a : adv) if (a.first == D(l)) isAdv = true;
        bool plain = model.score(v) == best; if (plain) { bool b2 = conj && bbOn && bb.count(v) && (kind != BUDGET || bbLeft[v]); int want = b2 ? !bb[v] : phase[v]; bool ok = want < 0 || want == (int)l.sign(); if (!ok && b2 && kind == VANISH && picks * 2 > budget) ok = phase[v] < 0 || phase[v] == (int)l.sign(); plain = ok; }
        if (!adv.empty() && always) { ctx.check(isAdv, "decision " + std::to_string(D(l)) + " ignores the advice of variable " + std::to_string(from + 1)); }
        else if (adv.empty() || !isAdv) { if (!plain) ctx.fail("decision " + std::to_string(D(l)) + ": " + (model.score(v) == best ? "not the expected phase" : "not a variable of the best score (" + std::to_string(model.score(v)) + " instead of " + std::to_string(best) + ")")); }
        if (isAdv && (always || !plain)) { advised++; if (kind == BUDGET) { auto& x = left[{from, v}]; x--; if (!x) ctx.label("implication budget used up"); } } else if (kind == BUDGET && bbOn && bb.count(v) && bbLeft[v]) { bbLeft[v]--; }
        trail.newDecisionLevel(); trail.decide(l);
    }
    if (conflicts > 1) ctx.nontrivial(); if (conflicts > 20) ctx.label("> 20 conflicts"); if (conflicts) ctx.label("conflicts"); if (advised) ctx.label("advice followed");
}
PROPERTY(vsids) { drive<VSIDS>(src, ctx, PLAIN, 0); }
PROPERTY(vsidsc) { drive<VSIDSC>(src, ctx, PLAIN, 0); }
PROPERTY(lrb) { drive<LRB>(src, ctx, PLAIN, 0); }
PROPERTY(rsil) {
    switch (src.below(6)) {
    case 0: drive<RSILBranchingHeuristic3>(src, ctx, ADVICE, 3); break; case 1: drive<RSILBranchingHeuristic2>(src, ctx, ADVICE, 2); break;
    case 2: drive<RSILBudgetBranchingHeuristic3>(src, ctx, BUDGET, 3); break; case 3: drive<RSILBudgetBranchingHeuristic2>(src, ctx, BUDGET, 2); break;
    case 4: drive<RSILVanishingBranchingHeuristic3>(src, ctx, VANISH, 3); break; default: drive<RSILVanishingBranchingHeuristic2>(src, ctx, VANISH, 2); }
}

// the factory builds the unit that the settings name
PROPERTY(factory) {
    resetOptions(); const char* modes[] = {"unrestricted", "vanishing", "implicationbudgeted"}; int mode = (int)src.below(3); RSILOptions::opt_rsil_mode = modes[mode];
    bool stat = src.flip(), lrb = src.coin(1, 4), rsil = src.coin(2, 3), vc = src.coin(1, 8); int adv = src.range(2, 3); ctx.show << "static " << stat << " lrb " << lrb << " rsil " << rsil << " vsidsc " << vc << " mode " << modes[mode] << " advice size " << adv << "\n"; ctx.publish();
    std::unique_ptr<CandySolverInterface> s(createSolver(stat, lrb, vc, rsil, adv)); BranchingDiversificationInterface* u = s->getBranchingUnit(); ctx.check(u != nullptr, "no branching unit");
    const std::type_info& t = typeid(*u); const std::type_info& want = lrb ? typeid(LRB) : rsil ? (mode == 0 ? (adv == 3 ? typeid(RSILBranchingHeuristic3) : typeid(RSILBranchingHeuristic2)) : mode == 1 ? (adv == 3 ? typeid(RSILVanishingBranchingHeuristic3) : typeid(RSILVanishingBranchingHeuristic2)) : (adv == 3 ? typeid(RSILBudgetBranchingHeuristic3) : typeid(RSILBudgetBranchingHeuristic2))) : vc ? typeid(VSIDSC) : typeid(VSIDS);
    ctx.check(t == want, std::string("the solver branches with ") + t.name() + " instead of " + want.name()); if (rsil && !lrb) ctx.nontrivial();
}

// restarts: the trigger is the Glucose rule over the last `lbdq` conflicts, and blocking starts only after 10000 conflicts
PROPERTY(restart) {
    resetOptions(); int q = src.range(10, 20), tq = src.range(10, 30); SolverOptions::opt_size_lbd_queue = q; SolverOptions::opt_size_trail_queue = tq; double K = src.flip() ? 0.8 : 0.5 + src.below(50) / 100.0, Rr = 1.1 + src.below(30) / 100.0; SolverOptions::opt_K = K; SolverOptions::opt_R = Rr;
    int n = 64; ClauseDatabase db; Trail trail(n); for (int i = 0; i < n; i++) trail.fact(Lit(i, false)); Restart rs(db, trail); std::deque<unsigned> lq, tqu; R sum = 0; uint64_t ts = 0, ls = 0; unsigned restarts = 0; bool blocked = false; int before = src.coin(1, 4) ? 9950 + (int)src.below(60) : 0; unsigned level = src.coin(1, 5) ? 12 + (unsigned)src.below(150) : 2 + (unsigned)src.below(10); ctx.show << "K " << K << " R " << Rr << " queues " << q << " " << tq << " conflicts before " << before << "\n";
    std::vector<Lit> lc; std::vector<Clause*> in;
    auto step = [&](unsigned lbd, unsigned depth) {
        lc.assign(12, Lit(0, false)); in.clear(); trail.trail_size = depth; // a trail of this length
        db.setLearntClause(lc, in, lbd, 0); rs.process_conflict(); tqu.push_back(depth); ts += depth; if ((int)tqu.size() > tq) { ts -= tqu.front(); tqu.pop_front(); }
        if (db.result.nConflicts > 10000 && (int)lq.size() == q && depth > Rr * (double)(ts / tqu.size())) { lq.clear(); ls = 0; blocked = true; }
        lq.push_back(lbd); ls += lbd; if ((int)lq.size() > q) { ls -= lq.front(); lq.pop_front(); } sum += lbd;
        R lhs = (R)(ls / lq.size()) * K, rhs = sum / db.result.nConflicts; bool want = (int)lq.size() == q && lhs > rhs, got = rs.trigger_restart();
        if (got != want && (std::fabs((double)(lhs - rhs)) > 1e-3 * (1 + rhs) || (int)lq.size() < q)) ctx.fail(std::string(got ? "restart" : "no restart") + " with average lbd " + std::to_string((double)(ls / lq.size())) + " over the last " + std::to_string(lq.size()) + " and " + std::to_string((double)rhs) + " overall, " + std::to_string(db.result.nConflicts) + " conflicts");
        if (got) { lq.clear(); ls = 0; restarts++; } ctx.check(rs.nRestarts() == restarts, "restart counter");
    };
    for (int i = 0; i < before; i++) step(1 + (unsigned)(pbt::mix(i) % level), 1 + (unsigned)(pbt::mix(i * 31) % n));
    src.list(5, 120, [&]() { unsigned lbd = 1 + (unsigned)src.below(src.flip() ? level : 3), depth = 1 + (unsigned)src.below(n); step(lbd, depth); });
    if (restarts) { ctx.nontrivial(); ctx.label("restarted"); } if (blocked) { ctx.nontrivial(); ctx.label("restart blocked"); }
}
PBT_MAIN
