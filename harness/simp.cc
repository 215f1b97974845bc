#include "candyapi.h"
#include "scratch.h"
#include "drat.h"
using namespace cnd;

// Pre-/inprocessing in isolation: a clause database with problem clauses and injected learnt clauses (resolvents,
// hence implied), stopped by the termination callback after a generated number of polls and inspected.
struct Poll { int left; int calls = 0; };
static int pollCb(void* p) { Poll* q = (Poll*)p; q->calls++; return q->left-- <= 0; }

// formulas in which clauses (nearly) subsume each other
static ref::Cnf dense(pbt::Src& s, int maxN) {
    ref::Cnf f; f.n = s.range(2, maxN);
    s.list(1, 24, [&]() {
        if (f.c.empty() || s.coin(1, 3)) { f.c.push_back(ref::clauseK(s, f.n, (int)s.pick({0, 1, 5, 8, 4, 2}))); return; }
        ref::Cl c = f.c[s.below(f.c.size())]; unsigned k = s.pick({3, 3, 2, 2, 1});
        if ((k == 1 || k == 2) && !c.empty()) { size_t i = s.below(c.size()); c[i] = -c[i]; }            // self-subsuming partner
        if (k == 0 || k == 2) { int e = s.range(1, 3); for (int i = 0; i < e; i++) c.push_back(ref::lit(s, f.n)); } // superset
        if (k == 3 && c.size() > 1) c.erase(c.begin() + s.below(c.size()));                               // subset
        f.c.push_back(c);
    });
    return f;
}
static ref::Cl normal(ref::Cl c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
static bool taut(const ref::Cl& c) { for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) return true; return false; }

struct Lemma { ref::Cl c; int lbd; bool drop; };
// a clause L|x that search can shorten to L, but only over intermediate lemmas which are gone afterwards
static void gadget(pbt::Src& s, ref::Cnf& f, std::vector<Lemma>& out) {
    std::vector<int> vs; for (int i = 0; i < 8; i++) vs.push_back(s.coin(2, 3) ? (int)++f.n : 1 + (int)s.below(std::max(1, f.n)));
    std::set<int> u(vs.begin(), vs.end()); if (u.size() < 8) { for (int& v : vs) v = ++f.n; }
    int k = s.range(3, 4); ref::Cl L; for (int i = 0; i < k; i++) L.push_back(s.flip() ? -vs[i % 3] : vs[i % 3]); L = normal(L); while (L.size() < 3 || taut(L)) { L = {vs[0], vs[1], vs[2]}; }
    int x = vs[3], y = vs[4]; ref::Cl Lx(L); Lx.push_back(x); ref::Cl yL{-y}; for (int l : L) if (s.coin(2, 3)) yL.push_back(l); if (yL.size() < 2) yL.push_back(L[0]);
    auto add = [&](ref::Cl c) { f.c.push_back(c); };
    add(Lx); add(yL);
    if (s.flip()) { add({-x, y}); }
    else {
        ref::Cl B{-x, y, L[0]}; int a = vs[5], b = vs[6], c = vs[7]; int pr[6][2] = {{a, -b}, {-a, b}, {b, -c}, {-b, c}, {a, c}, {-a, -c}};
        for (auto& q : pr) { ref::Cl k(B); k.push_back(q[0]); k.push_back(q[1]); add(k); }
        ref::Cl M1(B); M1.push_back(a); out.push_back({M1, s.range(1, 4), s.coin(2, 3)}); out.push_back({B, s.range(1, 3), s.coin(2, 3)});
    }
    out.push_back({L, s.range(1, (int)L.size()), false});
}
static std::vector<Lemma> lemmas(pbt::Src& s, const ref::Cnf& f) { // iterated resolution, so every lemma is RUP in order
    std::vector<ref::Cl> have; for (auto& c : f.c) { ref::Cl k = normal(c); if (!taut(k)) have.push_back(k); }
    std::vector<Lemma> out; if (have.empty()) return out;
    s.list(0, 14, [&]() {
        const ref::Cl a = have[s.below(have.size())]; if (a.empty()) return; int p = a[s.below(a.size())];
        std::vector<size_t> part; for (size_t i = 0; i < have.size(); i++) if (std::find(have[i].begin(), have[i].end(), -p) != have[i].end()) part.push_back(i);
        ref::Cl r; if (part.empty()) { return; } const ref::Cl& b = have[part[s.below(part.size())]];
        for (int l : a) if (l != p) r.push_back(l); for (int l : b) if (l != -p) r.push_back(l); r = normal(r);
        if (taut(r) || r.size() < 2 || r.size() > 8) return;
        have.push_back(r); out.push_back({r, s.range(1, (int)r.size()), s.coin(1, 5)});
    });
    return out;
}
static void drive(pbt::Src& src, pbt::Ctx& ctx, bool proof) {
    resetOptions(); static std::string path; path = scratch::file(".drat"); scratch::Rm rm{path};
    std::string fam = "dense"; ref::Cnf f = src.coin(2, 3) ? dense(src, ctx.size > 1 ? 14 : 9) : gen::any(src, 1, &fam);
    Config cfg = config(src, false); SolverOptions::opt_preprocessing = true; std::vector<Lemma> lem; if (src.flip()) { if (src.flip()) { f = ref::Cnf(); f.n = 3; } src.list(1, 3, [&]() { gadget(src, f, lem); }); fam += "+gadgets"; } for (auto& l : lemmas(src, f)) lem.push_back(l);
    if (src.coin(1, 3)) for (size_t i = 0; i + 1 < f.c.size(); i++) std::swap(f.c[i], f.c[i + src.below(f.c.size() - i)]);
    int n = std::max(1, ref::maxVar(f)); std::vector<int> frozen; int nf = (int)src.below(4); for (int i = 0; i < nf; i++) frozen.push_back(ref::lit(src, n));
    Poll poll{(int)src.pick({0, 3, 3, 2, 1})}; bool full = !src.coin(2, 3);
    ctx.show << "config: " << cfg.text << "\n" << ref::dimacs(f); for (auto& l : lem) ctx.show << "learnt (lbd " << l.lbd << ") " << ref::str(l.c) << (l.drop ? " (removed again)" : "") << "\n"; ctx.show << "assumed: " << ref::str(frozen) << ", polls before stopping: " << poll.left << "\n"; ctx.publish();
    bool unsat = false, gave = false;
    {
        if (proof) SolverOptions::opt_certified_file = path.c_str();
        CNFProblem p; load(p, f); while ((int)p.nVars() < n) p.newVar();
        std::unique_ptr<CandySolverInterface> s(make(cfg)); SolverOptions::opt_certified_file = ""; s->init(p);
        std::vector<Clause*> gone; for (auto& l : lem) { std::vector<Lit> v = LV(l.c); Clause* c = s->getClauseDatabase().createClause(v.begin(), v.end(), l.lbd); if (l.drop && l.c.size() > 2) gone.push_back(c); }
        if (!gone.empty()) { for (Clause* c : gone) s->getClauseDatabase().removeClause(c); s->getClauseDatabase().reorganize(); }
        std::vector<Lit> as = LV(frozen);
        if (!full || !proof) {
            s->setTermCallback(&poll, pollCb); s->getAssignment().setAssumptions(as);
            lbool r = s->solve(); unsat = r == l_False && s->getCandySolverResult().getConflict().empty();
            if (!proof && r == l_Undef) {
                // what is left, with every learnt clause thrown away
                ref::Cnf g; g.n = n; std::vector<ref::Cl> all; int learnt = 0; if (s->getClauseDatabase().hasEmptyClause()) g.c.push_back({});
                for (const Clause* c : s->getClauseDatabase()) { if (c->isDeleted()) continue; ref::Cl k; for (Lit l : *c) k.push_back(D(l)); all.push_back(k); if (c->isLearnt()) learnt++; else g.c.push_back(k); }
                int k = 0; for (auto& c : all) { if (k++ > 60) break; ctx.check(ref::implies(f, c), "the clause database contains a clause that the formula does not imply: " + ref::str(c)); }
                std::vector<int> fv; for (int l : frozen) if (std::find(fv.begin(), fv.end(), std::abs(l)) == fv.end()) fv.push_back(std::abs(l));
                for (unsigned m = 0; m < (1u << fv.size()); m++) { std::vector<int> cube; for (size_t i = 0; i < fv.size(); i++) cube.push_back((m >> i) & 1 ? fv[i] : -fv[i]);
                    int a = ref::solve(f, cube), b = ref::solve(g, cube);
                    ctx.check(a == b, std::string("without the learnt clauses the simplified clauses are ") + (b == 1 ? "satisfiable" : "unsatisfiable") + " under {" + ref::str(cube) + "}, the formula is " + (a == 1 ? "satisfiable" : "unsatisfiable")); }
                if (g.c.size() != f.c.size()) ctx.nontrivial(); if (learnt) ctx.label("learnt clauses left"); if (g.c.size() < f.c.size()) ctx.label("clauses removed");
            }
        }
        if (!unsat) {
            Budget b{s.get(), 4000}; limit(*s, b); s->getAssignment().setAssumptions({}); lbool r = s->solve(); unsat = r == l_False; gave = b.hit;
            if (!proof && !b.hit) {
                int e = ref::solve(f); ctx.check((r == l_True) == (e == 1), "solving after an interrupted simplification gives the wrong answer");
                if (r == l_True) { std::vector<int> m = modelOf(s->getCandySolverResult(), n); for (auto& c : f.c) if (!taut(c)) ctx.check(ref::satisfied(c, m), "clause not satisfied by the model after simplification: " + ref::str(c)); }
            }
        }
    }
    ctx.label(lem.empty() ? "no learnt clauses" : "learnt clauses injected"); ctx.label("family " + fam); ctx.label(unsat ? "unsat" : "sat"); (void)gave;
    if (proof) checkProof(f, scratch::slurp(path), unsat, ctx, true);
}
PROPERTY(simplify) { drive(src, ctx, false); }
PROPERTY(simpdrat) { drive(src, ctx, true); }
PBT_MAIN
