// Abstraction refinement: the encoded approximation is exactly the conjectures that are left; answers do not depend on the conjectures.
#include "candyapi.h"
#include "candy/rsar/ARSolver.h"
#include "candy/rsar/Refinement.h"
#include "candy/rsar/Heuristics.h"
#include "candy/rsar/ApproximationState.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/systems/branching/rsil/ImplicitLearningAdvice.h"
#include "candy/systems/branching/rsil/RSARHeuristicsFilter.h"
using namespace cnd;

// removes the given variables in the given steps
struct Script : RefinementHeuristic {
    std::vector<std::set<Var>> steps; int at = -1; explicit Script(const std::vector<std::set<Var>>& s) : steps(s) {}
    void beginRefinementStep() override { at++; }
    template <class T> void mark(T& t) { if (at >= 0 && at < (int)steps.size()) for (Var v : steps[at]) t.addVariableRemovalToWorkQueue(v); }
    void markRemovals(EquivalenceImplications& e) override { mark(e); }
    void markRemovals(Backbones& b) override { mark(b); }
};
struct Model { std::vector<std::vector<int>> eq; std::vector<int> bb; };
static Model guess(pbt::Src& src, int n, pbt::Ctx& ctx) { // disjoint classes and backbones, as random simulation produces them
    Model m; std::vector<int> vs; for (int v = 1; v <= n; v++) vs.push_back(v); for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[src.below(i)]); size_t p = 0;
    src.list(0, 4, [&]() { std::vector<int> c; size_t k = 2 + src.pick({4, 3, 2, 1, 1, 1}); if (src.coin(1, 10)) k = 1; else if (n > 9 && src.coin(1, 6)) k += 6 + src.below(8); for (size_t i = 0; i < k && p < vs.size(); i++, p++) c.push_back(src.flip() ? vs[p] : -vs[p]); if (!c.empty()) m.eq.push_back(c); });
    src.list(0, n > 9 && src.flip() ? 14 : 3, [&]() { if (p < vs.size()) { m.bb.push_back(src.flip() ? vs[p] : -vs[p]); p++; } });
    for (auto& c : m.eq) ctx.show << "equivalent: " << ref::str(c) << "\n"; ctx.show << "constant: " << ref::str(m.bb) << "\n"; return m;
}
static std::unique_ptr<Conjectures> conj(const Model& m) { std::unique_ptr<Conjectures> c(new Conjectures()); for (auto& e : m.eq) c->addEquivalence(EquivalenceConjecture(LV(e))); for (int b : m.bb) c->addBackbone(BackboneConjecture(L(b))); return c; }
static std::vector<std::set<Var>> script(pbt::Src& src, int n, pbt::Ctx& ctx) { std::vector<std::set<Var>> s; src.list(0, 6, [&]() { std::set<Var> x; int k = src.coin(1, 6) ? n : (int)src.below(4); for (int i = 0; i < k; i++) if (k < n || src.coin(2, 3)) x.insert((Var)src.below(n)); s.push_back(x); }); for (auto& x : s) { ctx.show << "remove:"; for (Var v : x) ctx.show << " " << v + 1; ctx.show << "\n"; } return s; }
PROPERTY(approximation) {
    resetOptions(); int n = src.coin(1, 6) ? src.range(10, 40) : src.range(1, 9); Model m = guess(src, n, ctx); auto st = script(src, n, ctx); ctx.publish(); std::unique_ptr<Conjectures> cj = conj(m); int next = n; std::vector<std::unique_ptr<RefinementHeuristic>> hs;
    if (src.flip() && st.size() > 1) { // two heuristics share the removals
        std::vector<std::set<Var>> a(st.size()), b(st.size()); for (size_t i = 0; i < st.size(); i++) for (Var v : st[i]) (src.flip() ? a : b)[i].insert(v); hs.emplace_back(new Script(a)); hs.emplace_back(new Script(b)); } else hs.emplace_back(new Script(st));
    auto rs = createDefaultRefinementStrategy(*cj, std::move(hs), [&next]() { return (Var)next++; }); std::vector<std::vector<int>> all; size_t steps = st.size() + 1; bool interesting = false;
    for (size_t k = 0; k < steps; k++) {
        auto d = k == 0 ? rs->init() : rs->refine(); if (k < st.size()) { for (auto& e : m.eq) { std::vector<int> x; for (int l : e) if (!st[k].count((Var)std::abs(l) - 1)) x.push_back(l); if (x.size() != e.size() && x.size() > 1) interesting = true; e = x; } std::vector<int> b; for (int l : m.bb) if (!st[k].count((Var)std::abs(l) - 1)) b.push_back(l); m.bb = b; }
        for (const Cl& c : d->getNewClauses()) all.push_back(DV(c)); std::map<int, bool> as; for (Lit l : d->getAssumptionLiterals()) { ctx.check((int)l.var() >= n && (int)l.var() < next, "an assumption literal over a problem variable"); ctx.check(!as.count(l.var() + 1), "two assumption literals over one variable"); as[l.var() + 1] = !l.sign(); }
        for (auto& c : all) for (int l : c) ctx.check(std::abs(l) <= n || as.count(std::abs(l)), "no assumption literal for a clause of the approximation"); std::string ks = "step " + std::to_string(k) + ": ";
        size_t active = 0; for (auto& x : as) if (isActive(Lit(x.first - 1, !x.second))) active++; ctx.check(d->countEnabledClauses() == active, ks + "wrong number of enabled clauses");
        std::vector<std::vector<int>> live; for (auto& c : all) { std::vector<int> r; bool sat = false; for (int l : c) if (std::abs(l) > n) { if (as[std::abs(l)] == (l > 0)) sat = true; } else r.push_back(l); if (!sat) live.push_back(r); }
        if (n > 9) { // too many variables to enumerate: each implies the other
            ref::Cnf g, h; g.n = h.n = n; g.c = live; for (auto& e : m.eq) for (size_t i = 0; i < e.size(); i++) { int u = e[i], w = e[(i + 1) % e.size()]; if (u != w) h.c.push_back({-u, w}); } for (int b : m.bb) h.c.push_back({b});
            for (int side = 0; side < 2; side++) { const ref::Cnf& x = side ? h : g; for (auto& c : (side ? g : h).c) { ref::Cnf q = x; for (int l : c) q.c.push_back({-l}); ctx.check(ref::solve(q) == -1, ks + "(" + ref::str(c) + ")" + (side ? " is part of the approximation but does not follow from the conjectures that are left" : " follows from the conjectures that are left but not from the approximation")); } } ctx.label("large"); continue;
        }
        for (unsigned a = 0; a < (1u << n); a++) { auto val = [&](int l) { bool b = a >> (std::abs(l) - 1) & 1; return l > 0 ? b : !b; }; bool want = true; for (auto& e : m.eq) for (int l : e) if (val(l) != val(e[0])) want = false; for (int b : m.bb) if (!val(b)) want = false; bool got = true; for (auto& c : live) { bool s = false; for (int l : c) if (val(l)) s = true; if (!s) got = false; } if (got != want) { std::string t; for (int v = 1; v <= n; v++) t += " " + std::to_string(val(v) ? v : -v); ctx.fail(ks + "the assignment" + t + (got ? " satisfies the approximation but not the conjectures that are left" : " satisfies the conjectures that are left but not the approximation")); } }
    }
    if (interesting) ctx.nontrivial();
}
PROPERTY(arsolver) {
    resetOptions(); std::string fam; ref::Cnf f = gen::any(src, 1, &fam); int n = ref::maxVar(f); if (n < 1 || n > 60) throw pbt::Discard(); Config cfg = config(src, false); ctx.show << "config: " << cfg.text << "\n"; Model m = guess(src, n, ctx); auto st = script(src, n, ctx); int steps = src.range(1, 5); RSAROptions::opt_rsar_maxRefinementSteps = steps; ctx.show << "max refinements " << steps << "\n" << ref::dimacs(f); ctx.publish(); int expect = ref::solve(f);
    CNFProblem p; load(p, f); if ((int)p.nVars() < n) throw pbt::Discard(); std::unique_ptr<CandySolverInterface> inner(make(cfg)); std::unique_ptr<ARSolver> ar(src.flip() ? new ARSolver(conj(m), std::unique_ptr<RefinementHeuristic>(new Script(st)), inner.get()) : new ARSolver(conj(m), inner.get())); ar->init(p); lbool r = ar->solve(); int got = r == l_True ? 1 : r == l_False ? -1 : 0;
    ctx.check(got == expect, "abstraction refinement says " + std::to_string(got) + ", the reference " + std::to_string(expect)); if (got == 1) { std::vector<int> mo = modelOf(ar->getCandySolverResult(), n); for (auto& c : f.c) { bool t = false; for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) t = true; ctx.check(t || ref::satisfied(c, mo), "clause (" + ref::str(c) + ") is not satisfied by the model"); } }
    ctx.label(got == 1 ? "satisfiable" : "unsatisfiable"); if (!m.eq.empty() || !m.bb.empty()) ctx.nontrivial();
}
PROPERTY(inputdeps) {
    resetOptions(); ref::Cnf f = src.coin(3, 4) ? gen::circuitCnf(src, 6, 16) : gen::miterCnf(src, 5, 10); std::vector<size_t> cfg; src.list(1, 4, [&]() { cfg.push_back((size_t)src.below(8)); }); ctx.show << "limits:"; for (size_t x : cfg) ctx.show << " " << x; ctx.show << "\n" << ref::dimacs(f); ctx.publish();
    CNFProblem p; load(p, f); GateAnalyzer ga(p); ga.analyze(); auto& g = ga.getGateProblem(); int n = (int)p.nVars(); std::vector<std::set<int>> dep(n); std::vector<int> state(n, 0);
    std::function<void(int)> go = [&](int v) { if (state[v]) return; state[v] = 1; for (Lit l : g.getGate(Lit(v, false)).inp) { int w = l.var(); if (g.isGateOutput(Lit(w, false))) { go(w); dep[v].insert(dep[w].begin(), dep[w].end()); } else dep[v].insert(w); } };
    auto h = createInputDepCountRefinementHeuristic(ga, cfg); int gates = 0; for (int v = 0; v < n; v++) if (g.isGateOutput(Lit(v, false))) { go(v); gates++; }
    for (size_t step = 0; step <= cfg.size() + 1; step++) { h->beginRefinementStep(); for (int v = 0; v < n; v++) { bool want = false; if (g.isGateOutput(Lit(v, false))) { size_t s = 0; while (s < cfg.size() && dep[v].size() <= cfg[s]) s++; want = s == step; } bool got = h->probe(v, false); ctx.check(got == want, "step " + std::to_string(step) + ": variable " + std::to_string(v + 1) + " (depends on " + std::to_string(dep[v].size()) + " inputs) is " + (got ? "" : "not ") + "deactivated"); } }
    if (gates > 2) ctx.nontrivial();
}

// ---- search advice ----
struct Probe : RefinementHeuristic { std::set<Var> vars, bbs; bool probe(Var v, bool b) override { return (b ? bbs : vars).count(v); } void beginRefinementStep() override {} void markRemovals(EquivalenceImplications&) override {} void markRemovals(Backbones&) override {} };
template<class E> static void advising(pbt::Src& src, pbt::Ctx& ctx) {
    resetOptions(); int n = src.range(2, 16); Model m = guess(src, n, ctx); auto c = conj(m); ImplicitLearningAdvice<E> ad; ad.init(*c, n); size_t limit = E::maxSize; ctx.show << "advice size " << limit << "\n"; ctx.publish();
    std::vector<std::multiset<int>> want(n); std::vector<int> bb(n, 0);
    for (auto& e : m.eq) if (e.size() <= limit) for (int k : e) for (int l : e) if (l != k) want[std::abs(k) - 1].insert(k > 0 ? -l : l); // with the variable true ...
    for (int b : m.bb) { bb[std::abs(b) - 1] = 1; want[std::abs(b) - 1].insert(b); }
    auto compare = [&](const char* when) { for (int v = 0; v < n; v++) { ctx.check(ad.hasPotentialAdvice(v), "no entry for a variable"); auto& a = ad.getAdvice(v); std::multiset<int> got; for (unsigned i = 0; i < a.getSize(); i++) got.insert(D(a.getLiteral(i))); if (got != want[v]) ctx.fail(std::string(when) + ": advice for variable " + std::to_string(v + 1) + " is {" + ref::str(std::vector<int>(got.begin(), got.end())) + "}, expected {" + ref::str(std::vector<int>(want[v].begin(), want[v].end())) + "}"); if (!got.empty()) ctx.check((bool)a.isBackbone() == (bool)bb[v], "backbone mark of variable " + std::to_string(v + 1)); } ctx.check(!ad.hasPotentialAdvice(n), "an entry behind the last variable"); };
    compare("after init"); bool some = false;
    src.list(0, 3, [&]() {
        std::vector<std::unique_ptr<Probe>> own; std::vector<RefinementHeuristic*> hs; bool only = src.coin(1, 3); ctx.show << "filter" << (only ? " backbones only" : "") << "\n"; int k = src.range(1, 2);
        for (int i = 0; i < k; i++) { own.emplace_back(new Probe()); hs.push_back(own.back().get()); src.list(0, 5, [&]() { Var v = (Var)src.below(n); unsigned w = src.pick({2, 1, 1}); if (w != 1) own.back()->vars.insert(v); if (w != 0) own.back()->bbs.insert(v); ctx.show << "probe " << i << ": " << v + 1 << (w == 0 ? " as equivalence\n" : w == 1 ? " as backbone\n" : "\n"); }); } ctx.publish();
        filterWithRSARHeuristics(hs, ad, only); auto gone = [&](int v, bool b) { for (auto& o : own) if ((b ? o->bbs : o->vars).count(v)) return true; return false; };
        for (int v = 0; v < n; v++) { if (want[v].empty() || (only && !bb[v])) continue; if (gone(v, bb[v])) { want[v].clear(); some = true; continue; } std::multiset<int> x; for (int l : want[v]) if (!gone(std::abs(l) - 1, bb[v])) x.insert(l); if (x.size() < want[v].size()) some = true; want[v] = x; }
        compare("after filtering");
    });
    if (some) ctx.nontrivial(); ctx.label(m.eq.empty() ? "no equivalences" : "equivalences");
}
PROPERTY(advice) { switch (src.below(4)) { case 0: advising<AdviceEntry<2>>(src, ctx); break; case 1: advising<AdviceEntry<3>>(src, ctx); break; case 2: advising<AdviceEntry<6>>(src, ctx); break; default: advising<BudgetAdviceEntry<4>>(src, ctx); } }
// one entry under any history: literals keep their budgets
PROPERTY(entry) {
    BudgetAdviceEntry<7> e; std::multiset<std::pair<int, int>> want; int rem = 0; auto compare = [&]() { ctx.check(e.getSize() == want.size(), "entry has " + std::to_string(e.getSize()) + " literals, expected " + std::to_string(want.size())); std::multiset<std::pair<int, int>> got; for (unsigned i = 0; i < e.getSize(); i++) got.insert({D(e.getLiteral(i)), e.getBudget(i)}); ctx.check(got == want, "an entry has lost a literal or its budget"); };
    src.list(1, 40, [&]() { switch (src.pick({6, 4, 1, 2})) {
        case 0: if (want.size() < 6) { int l = ref::lit(src, 12), b = (int)src.below(9); unsigned i = e.getSize(); e.addLiteral(L(l)); e.setBudget(i, b); want.insert({l, b}); ctx.show << "add " << l << " budget " << b << "\n"; } break;
        case 1: if (e.getSize()) { unsigned i = (unsigned)src.below(e.getSize()); want.erase(want.find({D(e.getLiteral(i)), e.getBudget(i)})); e.removeLiteral(i); rem++; ctx.show << "remove " << i << "\n"; } break;
        case 2: e.clear(); want.clear(); ctx.show << "clear\n"; break;
        default: if (e.getSize()) { unsigned i = (unsigned)src.below(e.getSize()); int b = (int)src.below(9); want.erase(want.find({D(e.getLiteral(i)), e.getBudget(i)})); e.setBudget(i, b); want.insert({D(e.getLiteral(i)), b}); ctx.show << "budget of " << i << ": " << b << "\n"; } break; }
        ctx.publish(); compare(); });
    if (rem > 2) ctx.nontrivial();
}
// the heuristic by input dependencies in place: gates above the current limit leave the approximation, inputs stay
PROPERTY(depremoval) {
    resetOptions(); ref::Cnf f = src.coin(3, 4) ? gen::circuitCnf(src, 5, 10) : gen::miterCnf(src, 4, 6); CNFProblem p; load(p, f); GateAnalyzer ga(p); ga.analyze(); auto& g = ga.getGateProblem(); int n = (int)p.nVars(); if (n < 2) throw pbt::Discard();
    std::vector<size_t> cfg; size_t lim = 1 + (size_t)src.below(6); src.list(1, 4, [&]() { cfg.push_back(lim); lim -= std::min<size_t>(lim, src.below(3)); }); ctx.show << "limits:"; for (size_t x : cfg) ctx.show << " " << x; ctx.show << "\n" << ref::dimacs(f);
    std::vector<int> vs; for (int v = 1; v <= n; v++) vs.push_back(v); for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[src.below(i)]); if (vs.size() > 9) vs.resize(9); Model m; size_t at = 0; src.list(1, 4, [&]() { size_t k = src.coin(1, 4) ? 1 : 2 + src.below(4); std::vector<int> e; for (; k > 0 && at < vs.size(); k--, at++) e.push_back(src.flip() ? vs[at] : -vs[at]); if (e.size() == 1 && src.coin(3, 4)) m.bb.push_back(e[0]); else if (!e.empty()) m.eq.push_back(e); }); for (auto& c : m.eq) ctx.show << "equivalent: " << ref::str(c) << "\n"; ctx.show << "constant: " << ref::str(m.bb) << "\n"; ctx.publish();
    std::vector<std::set<int>> dep(n); std::vector<int> state(n, 0); std::function<void(int)> go = [&](int v) { if (state[v]) return; state[v] = 1; for (Lit l : g.getGate(Lit(v, false)).inp) { int w = l.var(); if (g.isGateOutput(Lit(w, false))) { go(w); dep[v].insert(dep[w].begin(), dep[w].end()); } else dep[v].insert(w); } };
    for (int v = 0; v < n; v++) if (g.isGateOutput(Lit(v, false))) go(v); auto removed = [&](int v, size_t step) { if (!g.isGateOutput(Lit(v, false))) return false; if (step >= cfg.size()) return true; for (size_t s = 0; s <= step; s++) if (dep[v].size() > cfg[s]) return true; return false; };
    auto cj = conj(m); int next = n; std::vector<std::unique_ptr<RefinementHeuristic>> hs; hs.push_back(createInputDepCountRefinementHeuristic(ga, cfg)); auto rs = createDefaultRefinementStrategy(*cj, std::move(hs), [&next]() { return (Var)next++; }); std::vector<std::vector<int>> all; bool some = false;
    for (size_t k = 0; k <= cfg.size() + 1; k++) {
        auto d = k == 0 ? rs->init() : rs->refine(); std::map<int, bool> as; for (const Cl& c : d->getNewClauses()) all.push_back(DV(c)); for (Lit l : d->getAssumptionLiterals()) as[l.var() + 1] = !l.sign();
        std::vector<std::vector<int>> live; for (auto& c : all) { std::vector<int> r; bool sat = false; for (int l : c) if (std::abs(l) > n) { if (as[std::abs(l)] == (l > 0)) sat = true; } else r.push_back(l); if (!sat) live.push_back(r); }
        Model left; for (auto& e : m.eq) { std::vector<int> x; for (int l : e) if (!removed(std::abs(l) - 1, k)) x.push_back(l); if (x.size() < e.size()) some = true; if (!x.empty()) left.eq.push_back(x); } for (int b : m.bb) if (!removed(std::abs(b) - 1, k)) left.bb.push_back(b); else some = true;
        std::map<int, int> pos; for (size_t i = 0; i < vs.size(); i++) pos[vs[i]] = (int)i; for (auto& c : live) for (int l : c) ctx.check(pos.count(std::abs(l)), "a variable outside the conjectures");
        for (unsigned a = 0; a < (1u << vs.size()); a++) { auto val = [&](int l) { bool b = a >> pos[std::abs(l)] & 1; return l > 0 ? b : !b; }; bool want = true; for (auto& e : left.eq) for (int l : e) if (val(l) != val(e[0])) want = false; for (int b : left.bb) if (!val(b)) want = false; bool got = true; for (auto& c : live) { bool s = false; for (int l : c) if (val(l)) s = true; if (!s) got = false; } if (got != want) ctx.fail("step " + std::to_string(k) + ": the approximation is not that of the conjectures over the gates within the limits"); }
    }
    if (some) ctx.nontrivial();
}
PBT_MAIN
