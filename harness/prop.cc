#include "candyapi.h"
#include "candy/systems/propagate/Propagate.h"
#include "candy/systems/propagate/StaticPropagate.h"
#include "candy/systems/learning/ConflictAnalysis.h"
using namespace cnd;

// Propagation, backtracking and conflict analysis against a naive unit propagation over a model of the live clauses.
// The operation sequence follows Solver::search and the simplifiers, so every call is one the solver can make.
static int at(const std::vector<int>& a, int l) { return l > 0 ? a[l] : -a[-l]; }
// unit propagation to the fixpoint; returns the falsified clause or null
static const ref::Cl* closure(const std::vector<ref::Cl>& cs, std::vector<int>& a) {
    for (bool more = true; more;) {
        more = false;
        for (auto& c : cs) {
            int free = 0, nf = 0; bool sat = false;
            for (int l : c) { int v = at(a, l); if (v > 0) { sat = true; break; } if (!v) { nf++; free = l; } }
            if (sat) continue; if (!nf) return &c; if (nf == 1) { a[std::abs(free)] = free > 0 ? 1 : -1; more = true; }
        }
    }
    return nullptr;
}
static bool rup(const std::vector<ref::Cl>& cs, int n, const ref::Cl& c) {
    std::vector<int> a(n + 1, 0); for (int l : c) { if (at(a, l) > 0) return true; a[std::abs(l)] = l > 0 ? -1 : 1; }
    return closure(cs, a) != nullptr;
}
static std::vector<int> sorted(const Clause& c) { std::vector<int> k; for (Lit l : c) k.push_back(D(l)); std::sort(k.begin(), k.end()); return k; }

template<class P> struct Machine {
    pbt::Src& src; pbt::Ctx& ctx; int n; ClauseDatabase db; Trail trail; P prop; ConflictAnalysis ca; bool recalc;
    std::map<const Clause*, std::vector<int>> live;                 // model: live clauses by address, literals sorted
    std::vector<ref::Cl> cs;                                       // the same as a list
    std::vector<std::vector<int>> dec;                             // decisions of each open level
    bool dirty = false, dead = false; int conflicts = 0, props = 0, maxLevel = 0;
    Machine(pbt::Src& s, pbt::Ctx& c, int n_, bool r) : src(s), ctx(c), n(n_), db(), trail(), prop(db, trail), ca(db, trail), recalc(r) { }

    void list() { cs.clear(); for (auto& k : live) cs.push_back(k.second); }
    void start(const ref::Cnf& f) {
        CNFProblem p; load(p, f); while ((int)p.nVars() < n) p.newVar();
        db.init(p); trail.init(db.nVars()); prop.init(); ca.init(db.nVars());
        for (const Clause* c : db) { live[c] = sorted(*c); } list();
        std::multiset<std::vector<int>> want, got; for (auto& c : f.c) { ref::Cl k(c); std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); bool t = false; for (int l : k) if (std::binary_search(k.begin(), k.end(), -l)) t = true; if (!t) want.insert(k); }
        for (auto& k : cs) got.insert(k); ctx.check(want == got, "the clause database does not hold the clauses of the formula");
        facts();
    }
    void facts() { // what Solver does before each search
        dec.clear(); std::vector<Clause*> u = db.getUnitClauses(); std::multiset<int> got, want; for (Clause* c : u) { ctx.check(c->size() == 1, "unit clause list holds a clause of size " + std::to_string(c->size())); got.insert(D(c->first())); }
        for (auto& c : cs) if (c.size() == 1) want.insert(c[0]);
        ctx.check(got == want, "getUnitClauses does not return exactly the live unit clauses");
        for (Clause* c : u) if (!trail.fact(c->first())) { bool clash = false; for (int l : want) if (want.count(-l)) clash = true; ctx.check(clash, "fact() refused a unit clause that nothing contradicts"); dead = true; return; }
        propagate();
    }
    void compare() { // after a conflict-free propagation
        std::vector<int> a(n + 1, 0), lev(n + 1, -1);
        ctx.check(trail.decisionLevel() == dec.size(), "decision level " + std::to_string(trail.decisionLevel()) + ", expected " + std::to_string(dec.size()));
        for (size_t k = 0; k <= dec.size(); k++) {
            if (k) for (int l : dec[k - 1]) a[std::abs(l)] = l > 0 ? 1 : -1;
            ctx.check(!closure(cs, a), "propagation missed a conflict");
            for (int v = 1; v <= n; v++) if (a[v] && lev[v] < 0) lev[v] = (int)k;
        }
        unsigned count = 0;
        for (int v = 1; v <= n; v++) {
            lbool b = trail.value((Var)(v - 1)); int x = b == l_True ? 1 : b == l_False ? -1 : 0; if (x) count++;
            if (x != a[v]) ctx.fail("variable " + std::to_string(v) + (a[v] && !x ? " is not propagated" : x && !a[v] ? " is assigned although nothing implies it" : " has the wrong value"));
            if (x) ctx.check((int)trail.level(v - 1) == lev[v], "variable " + std::to_string(v) + " has level " + std::to_string(trail.level(v - 1)) + ", it is implied at level " + std::to_string(lev[v]));
        }
        ctx.check(count == trail.size(), "the trail holds " + std::to_string(trail.size()) + " literals, " + std::to_string(count) + " variables are assigned");
    }
    void reasons() { // valid for every trail, with or without conflict
        std::vector<int> pos(n + 1, -1); std::set<int> ds; for (auto& d : dec) for (int l : d) ds.insert(l);
        unsigned seen = 0;
        for (Lit p : trail) {
            int d = D(p), v = std::abs(d); ctx.check(pos[v] < 0, "variable " + std::to_string(v) + " is twice on the trail"); pos[v] = (int)seen++;
            ctx.check(trail.value(p) == l_True, "a literal on the trail is not true"); unsigned lv = trail.level(p.var());
            const Clause* r = trail.reason(p.var());
            if (!r) { bool unit = live.empty(); for (auto& c : cs) if (c.size() == 1 && c[0] == d) unit = true;
                ctx.check(ds.count(d) || (lv == 0 && unit), "literal " + std::to_string(d) + " has no reason and is neither decision nor unit clause"); continue; }
            auto it = live.find(r); ctx.check(it != live.end(), "the reason of " + std::to_string(d) + " is not a live clause"); std::vector<int> k = sorted(*r);
            ctx.check(k == it->second, "a clause changed its literals: " + ref::str(it->second) + " became " + ref::str(k));
            bool in = false; unsigned m = 0; for (int l : k) { if (l == d) { in = true; continue; } int w = std::abs(l); ctx.check(trail.value(L(l)) == l_False && pos[w] >= 0 && pos[w] < pos[v], "the reason " + ref::str(k) + " of " + std::to_string(d) + " was not unit: " + std::to_string(l) + " is not falsified before it"); m = std::max(m, (unsigned)trail.level(w - 1)); }
            ctx.check(in, "the reason of " + std::to_string(d) + " does not contain it"); ctx.check(m == lv, "literal " + std::to_string(d) + " of level " + std::to_string(lv) + " has a reason of level " + std::to_string(m));
        }
        ctx.check(seen == trail.size(), "trail iteration and size differ");
    }
    Clause* propagate() {
        props++; Clause* confl = (Clause*)prop.propagate(); reasons(); maxLevel = std::max(maxLevel, (int)dec.size());
        if (!confl) { compare(); ctx.check(trail.qhead == trail.size(), "literals are left in the propagation queue"); return nullptr; }
        auto it = live.find(confl); ctx.check(it != live.end(), "the conflicting clause is not live"); std::vector<int> k = sorted(*confl); ctx.check(k == it->second, "the conflicting clause changed its literals");
        for (int l : k) ctx.check(trail.value(L(l)) == l_False, "the conflicting clause " + ref::str(k) + " is not falsified");
        if (dec.empty()) { std::vector<int> a(n + 1, 0); ctx.check(closure(cs, a) != nullptr, "conflict without decisions, but unit propagation finds none"); dead = true; }
        return confl;
    }
    void back(unsigned to) { trail.backtrack(to); dec.resize(std::min((size_t)to, dec.size())); ctx.check(trail.decisionLevel() == dec.size(), "backtracking went to another level"); reasons(); if (!dirty) compare(); }
    int freeLit() { std::vector<int> fr; for (int v = 1; v <= n; v++) if (trail.value((Var)(v - 1)) == l_Undef) fr.push_back(v); if (fr.empty()) return 0; int v = fr[src.below(fr.size())]; return src.flip() ? -v : v; }
    void analyze(Clause* confl) {
        conflicts++; std::map<const Clause*, unsigned> w; for (auto& k : live) w[k.first] = k.first->getLBD();
        ca.handle_conflict(confl); std::vector<Lit> lc = db.result.learnt_clause; std::vector<int> c = DV(lc); unsigned now = trail.decisionLevel();
        std::string t = "learnt clause " + ref::str(c) + ": "; ctx.check(!c.empty(), t + "empty"); std::set<unsigned> lv; std::set<int> vars, lits(c.begin(), c.end()); unsigned second = 0;
        for (size_t i = 0; i < lc.size(); i++) {
            ctx.check(trail.value(lc[i]) == l_False, t + std::to_string(c[i]) + " is not false"); unsigned k = trail.level(lc[i].var()); ctx.check(k > 0, t + std::to_string(c[i]) + " is false at level 0"); ctx.check(vars.insert(std::abs(c[i])).second, t + "variable twice");
            ctx.check((k == now) == (i == 0), t + "the asserting literal is not the only one of the conflict level, in front"); lv.insert(k); if (i) second = std::max(second, k);
        }
        ctx.check(db.result.backtrack_level == second, t + "backtrack level " + std::to_string(db.result.backtrack_level) + ", expected " + std::to_string(second));
        if (c.size() > 1) ctx.check(trail.level(lc[1].var()) == second, t + "the second literal is not of the backtrack level");
        ctx.check(db.result.lbd == lv.size(), t + "lbd " + std::to_string(db.result.lbd) + ", expected " + std::to_string(lv.size()));
        ctx.check(rup(cs, n, c), t + "is not implied by unit propagation on the clauses");
        for (size_t i = 1; i < lc.size(); i++) {
            const Clause* r = trail.reason(lc[i].var()); if (r) { bool red = true; for (Lit l : *r) if (l.var() != lc[i].var() && trail.level(l.var()) > 0 && !lits.count(D(l))) red = false; ctx.check(!red, t + std::to_string(c[i]) + " is redundant (its reason is covered by the rest)"); }
            for (auto& k : cs) if (k.size() == 2 && (k[0] == c[0] || k[1] == c[0])) { int o = k[0] == c[0] ? k[1] : k[0]; ctx.check(o != -c[i], t + std::to_string(c[i]) + " could be resolved away with a binary clause"); }
        }
        std::set<const Clause*> inv(db.result.involved_clauses.begin(), db.result.involved_clauses.end()); ctx.check(inv.count(confl), t + "the conflicting clause is not among the involved ones");
        for (auto& k : w) {
            unsigned x = k.second; if (recalc && x > 0 && inv.count(k.first)) { std::set<unsigned> q; for (Lit l : *k.first) q.insert(trail.level(l.var())); x = q.size(); ctx.label("lbd re-estimated"); }
            ctx.check(k.first->getLBD() == x, "clause " + ref::str(live[k.first]) + " has weight " + std::to_string(k.first->getLBD()) + " after the conflict, expected " + std::to_string(x));
        }
        for (const Clause* k : inv) ctx.check(live.count(k), "an involved clause is not live");
        Clause* cl = db.createClause(lc.begin(), lc.end(), db.result.lbd); live[cl] = sorted(*cl); ctx.check(live[cl] == std::vector<int>(lits.begin(), lits.end()), "createClause stored other literals");
        ctx.check(cl->getLBD() == (c.size() < 3 ? 0 : db.result.lbd), "the learnt clause has the wrong weight"); list();
        if (cl->size() > 2) prop.attachClause(cl);
        dirty = true; back(db.result.backtrack_level); dirty = false; ctx.check(trail.propagate(cl->first(), cl), "the learnt clause is not asserting");
        if (c.size() > 2) ctx.label("learnt clause > 2"); if (c.size() == 1) ctx.label("learnt unit"); if (second + 1 < now) ctx.label("backjump");
    }
    void restart() { trail.reset(); dec.clear(); ctx.check(trail.size() == 0 && trail.decisionLevel() == 0, "reset leaves assignments"); for (int v = 0; v < n; v++) ctx.check(trail.value((Var)v) == l_Undef && !trail.reason(v), "reset leaves an assignment"); }
    void reorganize() {
        std::multiset<std::pair<std::vector<int>, unsigned>> want, got; for (auto& k : live) want.insert({k.second, k.first->getLBD()});
        db.reorganize(); live.clear(); for (const Clause* c : db) { ctx.check(!c->isDeleted(), "a deleted clause survives reorganisation"); live[c] = sorted(*c); got.insert({live[c], c->getLBD()}); }
        ctx.check(want == got && live.size() == want.size(), "reorganisation changed the set of clauses or their weights"); list(); prop.reset();
    }
    void final() { // the core of a falsified assumption
        std::vector<int> f; for (int v = 1; v <= n; v++) { lbool b = trail.value((Var)(v - 1)); if (b != l_Undef) f.push_back(b == l_True ? -v : v); } if (f.empty()) return;
        int p = f[src.below(f.size())]; std::vector<int> c = DV(ca.analyzeFinal(L(-p))); std::set<int> ds; for (auto& d : dec) for (int l : d) ds.insert(l);
        ctx.check(std::find(c.begin(), c.end(), -p) != c.end(), "the final conflict does not contain the assumption itself");
        bool first = true; for (int l : c) { if (l == -p && first) { first = false; continue; } ctx.check(ds.count(-l), "the final conflict contains " + std::to_string(l) + ", which is not a negated decision"); }
        ctx.check(rup(cs, n, c), "the final conflict " + ref::str(c) + " is not implied"); ctx.label("final conflict");
    }
    void step() {
        switch (src.pick({60, 12, 6, 5, 5, 6, 4, 4, 4})) {
        case 0: case 1: { // decide until something happens
            int k = src.range(1, ctx.size > 4 ? 50 : 6); for (int i = 0; i < k; i++) { if (ctx.size > 4 && src.coin(1, 6)) { trail.newDecisionLevel(); dec.push_back({}); } int d = freeLit(); if (!d) { ctx.label("full assignment"); restart(); facts(); return; } trail.newDecisionLevel(); trail.decide(L(d)); dec.push_back({d});
                Clause* c = propagate(); for (int guard = 0; c && !dead; guard++) { analyze(c); c = propagate(); } if (dead) return; } break; }
        case 2: if (!dec.empty()) { unsigned to = (unsigned)src.below(dec.size()); back(to); propagate(); } break;
        case 3: final(); break;
        case 4: { if (!trail.size()) break; int t = (int)src.below(trail.size()); (void)t; trail.newDecisionLevel(); dec.push_back({}); compare(); ctx.label("dummy level"); break; } // an assumption that already holds
        case 5: { // asymmetric reduction: several literals on one level, then back to where it was
            restart(); facts(); if (dead) return; trail.newDecisionLevel(); dec.push_back({}); int k = src.range(1, 4); bool more = true; for (int i = 0; i < k && more; i++) { int d = freeLit(); if (!d) break; trail.decide(L(d)); dec.back().push_back(d); more = src.flip(); }
            if (propagate()) { std::vector<int> a(n + 1, 0); bool cf = closure(cs, a) != nullptr; for (int d : dec[0]) a[std::abs(d)] = d > 0 ? 1 : -1; ctx.check(cf || closure(cs, a), "a conflict that unit propagation does not find"); ctx.label("conflict on a shared level"); }
            back(0); propagate(); break; }
        case 6: { // a clause is added
            restart(); ref::Cl c; std::set<int> vs; int k = (int)src.pick({0, 1, 4, 6, 4, 2, 1}); for (int i = 0; i < k; i++) vs.insert(1 + (int)src.below(n)); for (int v : vs) c.push_back(src.flip() ? -v : v); if (c.empty()) break;
            std::vector<Lit> v = LV(c); unsigned lbd = (unsigned)src.below(c.size() + 1); Clause* cl = db.createClause(v.begin(), v.end(), lbd); live[cl] = sorted(*cl); list(); if (cl->size() > 2) prop.attachClause(cl); if (src.coin(1, 3)) { reorganize(); } facts(); break; }
        case 7: { // a clause is removed or shortened
            restart(); if (live.empty()) { facts(); break; } std::vector<Clause*> all; for (const Clause* c : db) if (live.count(c)) all.push_back((Clause*)c); Clause* c = all[src.below(all.size())];
            bool shorten = src.flip() && c->size() > 1; bool reorg = src.coin(2, 3); if (c->size() > 2) prop.detachClause(c);
            if (shorten) { Lit l = (*c)[(int)src.below(c->size())]; std::vector<int> k = live[c]; k.erase(std::find(k.begin(), k.end(), D(l))); live.erase(c); Clause* nc = db.strengthenClause(c, l); live[nc] = sorted(*nc); ctx.check(live[nc] == k, "strengthenClause produced " + ref::str(live[nc]) + " instead of " + ref::str(k)); ctx.check(nc->getLBD() <= k.size(), "lbd above clause length"); if (nc->size() > 2) prop.attachClause(nc); }
            else { db.removeClause(c); live.erase(c); }
            list(); if (reorg) reorganize(); ctx.label(shorten ? "clause strengthened" : "clause removed"); facts(); break; }
        case 8: restart(); reorganize(); facts(); break;
        }
    }
};
template<class P> static void drive(pbt::Src& src, pbt::Ctx& ctx) {
    resetOptions(); bool recalc = !src.coin(1, 4); ClauseDatabaseOptions::opt_recalculate_lbd = recalc; SolverOptions::opt_preprocessing = false;
    std::string fam = "rnd"; ref::Cnf f;
    if (ctx.size > 4) { f.n = src.range(60, 160); int d = src.range(20, 40), b = (int)src.below(4); int m = f.n * d / 10; for (int i = 0; i < m; i++) f.c.push_back(ref::clauseK(src, f.n, (int)src.pick({0, 0, (unsigned)b, 20, 5, 3}))); fam = "deep"; }
    else if (src.coin(1, 3)) { f.n = src.range(6, ctx.size > 1 ? 50 : 22); int m = f.n * src.range(34, 46) / 10; unsigned bin = src.below(6); for (int i = 0; i < m; i++) f.c.push_back(ref::clauseK(src, f.n, src.below(20) < bin ? 2 : 3)); fam = "threshold"; }
    else if (src.coin(2, 3)) { f.n = src.range(3, ctx.size > 1 ? 40 : 14); int d = src.range(10, 45); int m = std::max(1, f.n * d / 10); for (int i = 0; i < m; i++) { ref::Cl c = ref::clauseK(src, f.n, (int)src.pick({0, 1, 8, 20, 5, 3})); f.c.push_back(c); } } else f = gen::any(src, 1, &fam);
    for (auto& c : f.c) if (c.empty()) throw pbt::Discard(); int n = std::max(1, ref::maxVar(f)); n = std::max(n, f.n);
    ctx.show << "recalculate lbd: " << recalc << "\n" << ref::dimacs(f); ctx.publish();
    Machine<P> m(src, ctx, n, recalc); m.start(f); int ops = 0;
    if (!m.dead) src.list(1, ctx.size > 1 ? 60 : 25, [&]() { if (m.dead) return; ops++; m.step(); });
    ctx.label("family " + fam); if (m.dead) ctx.label("refuted"); if (m.conflicts) { ctx.label("conflicts analysed"); ctx.nontrivial(); } if (m.conflicts > 10) ctx.label("> 10 conflicts"); if (m.maxLevel > 3) ctx.label("> 3 levels"); if (m.maxLevel > 35) ctx.label("> 35 levels");
}
PROPERTY(watch) { drive<Propagate>(src, ctx); }
PROPERTY(staticwatch) { drive<StaticPropagate>(src, ctx); }
PBT_MAIN
