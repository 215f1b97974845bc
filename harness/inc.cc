#include "candyapi.h"
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace cnd;

// ---- incremental histories against the reference solver ----
// Backend: the IPASIR functions (always plain VSIDS), or the solver interface in a generated configuration.
struct Session {
    bool ipasir; void* ip = nullptr; std::unique_ptr<CandySolverInterface> s; CNFProblem delta; std::vector<Lit> ass; ref::Cl cl; bool sat = false;
    Session(bool ip_, const Config& c) : ipasir(ip_) { if (ipasir) ip = ipasir_init(); else s.reset(make(c)); }
    ~Session() { if (ip) ipasir_release(ip); }
    void lit(int l) { if (ipasir) { ipasir_add(ip, l); return; } if (l) cl.push_back(l); else { std::vector<Lit> v = LV(cl); delta.readClause(v.begin(), v.end()); cl.clear(); } }
    void assume(int l) { if (ipasir) ipasir_assume(ip, l); else { ass.push_back(L(l)); } }
    int solve() {
        if (ipasir) return ipasir_solve(ip);
        for (Lit a : ass) while ((int)delta.nVars() <= a.var()) delta.newVar();
        s->init(delta); s->getAssignment().setAssumptions(ass); lbool r = s->solve(); delta.clear(); ass.clear();
        return r == l_True ? 10 : r == l_False ? 20 : 0;
    }
    int val(int l) { if (ipasir) return ipasir_val(ip, l); CandySolverResult& r = s->getCandySolverResult(); if (r.satisfies(L(l))) return l; if (r.satisfies(~L(l))) return -l; return 0; }
    bool failed(int l) { if (ipasir) return ipasir_failed(ip, l) != 0; for (Lit c : s->getCandySolverResult().getConflict()) if (c == ~L(l)) return true; return false; }
    void terminate(void* st, int (*f)(void*)) { if (ipasir) ipasir_set_terminate(ip, st, f); else s->setTermCallback(st, f); }
    void learn(void* st, int m, void (*f)(void*, int*)) { if (ipasir) ipasir_set_learn(ip, st, m, f); else s->setLearntCallback(st, m, f); }
};
// the callbacks find their data here; the state they are given must be the one that was registered last (it may be null)
struct Term { int after = -1; int calls = 0; int fires = 0; bool fired = false; bool wrongState = false; }; static Term* theTerm; static void* termState;
static int termCb(void* p) { Term* t = theTerm; if (p != termState) t->wrongState = true; t->calls++; if (t->after >= 0 && t->calls > t->after) { t->fired = true; t->fires++; return 1; } return 0; }
struct Learn { int max = 0; std::vector<ref::Cl> got; size_t total = 0; bool tooLong = false; bool wrongState = false; }; static Learn* theLearn; static void* learnState;
static void learnCb(void* p, int* c) { Learn* l = theLearn; if (p != learnState) l->wrongState = true; ref::Cl k; for (; *c; c++) k.push_back(*c); l->total++; if ((int)k.size() > l->max) l->tooLong = true; if (l->got.size() < 400) l->got.push_back(k); }

struct Mode { bool core, callbacks, onlyC = false, deep = false; };
static void history(pbt::Src& src, pbt::Ctx& ctx, Mode mode) {
    resetOptions(); bool ip = !mode.onlyC && src.flip(); Config cfg = config(src, !ip, mode.onlyC);
    if (mode.deep) { ip = src.coin(1, 3); SolverOptions::opt_preprocessing = src.coin(1, 3); SolverOptions::opt_inprocessing = 1; VariableEliminationOptions::opt_use_elim = true; ClauseDatabaseOptions::opt_first_reduce_db = src.range(0, 20); ClauseDatabaseOptions::opt_inc_reduce_db = src.range(0, 5); cfg.text += SolverOptions::opt_preprocessing ? " , but pre inproc=1" : " , but nopre inproc=1"; }
    if (ip) { cfg.lrb = cfg.vsidsc = cfg.rsil = cfg.stat = false; }
    ctx.show << (ip ? "ipasir, options: " : "solver interface: ") << cfg.text << "\n"; ctx.publish();
    Session s(ip, cfg); ref::Cnf F; F.n = 0; bool deadForever = false; int solves = 0, sats = 0, unsats = 0, unsatAss = 0, interrupts = 0;
    Term term; theTerm = &term; bool termSet = false; Learn learn; theLearn = &learn; bool learnSet = false; int places[3] = {0, 0, 0}; auto place = [&]() -> void* { unsigned k = (unsigned)src.below(4); return k ? &places[k - 1] : nullptr; };
    int maxV = src.pick({5, 3, 2}) == 0 ? src.range(3, 8) : src.range(6, 40);
    ctx.label(ip ? "via ipasir" : "via solver interface");
    // optionally start from a structured formula
    std::vector<ref::Cl> pool; if (src.flip()) { std::string fam; ref::Cnf g = gen::any(src, 1, &fam); maxV = std::max(maxV, std::min(60, ref::maxVar(g) + 3)); pool = g.c; }
    // in callback mode most histories start with a formula that takes some search
    bool bulk = mode.deep || (mode.callbacks && src.coin(3, 4));
    if (bulk) { ref::Cnf g; switch (src.pick({4, 2, 1, 1, 2})) { case 0: g = gen::randomK(src, 25, 60); break; case 1: g = gen::mixed23(src, 30, 60); break; case 2: g = gen::pigeon(src, 5); break; case 3: g = gen::colouring(src, 12); break; default: g = gen::miterCnf(src, 6, 14); } maxV = std::max(maxV, std::min(70, ref::maxVar(g) + 3)); pool = g.c; if (mode.deep && src.coin(1, 12)) { g = gen::wide(src, 1500); pool = g.c; maxV = ref::maxVar(g) + 3; ctx.label("hundreds of variables"); } }
    size_t poolPos = 0; int hard = 0;
    auto addClause = [&](const ref::Cl& c) { for (int l : c) s.lit(l); s.lit(0); F.c.push_back(c); for (int l : c) F.n = std::max(F.n, std::abs(l)); ctx.show << "add " << ref::str(c) << " 0\n"; };
    std::vector<int> assumed;
    auto doSolve = [&]() {
        ctx.show << "solve\n"; ctx.publish();
        term.calls = term.fires = 0; term.fired = false; learn.got.clear(); learn.total = 0; unsigned before = ip ? 0 : s.s->nConflicts();
        int r = s.solve(); solves++;
        ctx.check(!term.wrongState, "the terminate callback got another state pointer than the one registered with it");
        ctx.check(!learn.wrongState, "the learn callback got another state pointer than the one registered with it");
        if (termSet && term.after == 0 && mode.callbacks) { ctx.check(learn.got.empty() && (ip || s.s->nConflicts() == before), "solve searches on although the terminate callback asked to stop from the start"); ctx.label("stop asked for from the start"); }
        ctx.check(term.fires <= 4, "the terminate callback asked to stop " + std::to_string(term.fires) + " times before solve returned");
        if (mode.callbacks && !ip && learnSet && learn.max >= 1000) { ctx.check(learn.total == s.s->nConflicts() - before, std::to_string(learn.total) + " of " + std::to_string(s.s->nConflicts() - before) + " learnt clauses were exported, none is too long"); if (learn.total) ctx.label("every learnt clause exported"); }
        if (!termSet) ctx.check(term.calls == 0, "the terminate callback was called after it had been removed");
        if (r == 0) { ctx.check(termSet && term.fired, "solve returned 0 although no terminate callback asked for it"); ctx.label("interrupted"); if (mode.callbacks) ctx.nontrivial(); interrupts++; assumed.clear(); return; }
        ctx.check(r == 10 || r == 20, "solve returned " + std::to_string(r));
        int e = deadForever ? -1 : ref::solve(F, assumed);
        ctx.check((r == 10) == (e == 1), "solve number " + std::to_string(solves) + " returned " + std::to_string(r) + ", reference says " + (e == 1 ? "satisfiable" : "unsatisfiable"));
        if (mode.callbacks) {
            ctx.check(!learn.tooLong, "a learnt clause longer than the registered maximum was exported");
            int k = 0; for (auto& c : learn.got) { if (k++ > 40) break; ctx.check(ref::implies(F, c), "exported learnt clause is not implied by the added clauses: " + ref::str(c)); }
            if (learnSet && !learn.got.empty()) { ctx.label("learnt clauses exported"); ctx.nontrivial(); }
            if (!learnSet) ctx.check(learn.got.empty(), "a learnt clause was exported to a callback that is no longer registered");
        }
        if (r == 10) {
            sats++; int top = std::max(F.n, 1) + 2; std::vector<int> m(top + 1, 0);
            for (int v = 1; v <= top; v++) { int a = s.val(v), b = s.val(-v); ctx.check(a == v || a == -v || a == 0, "val(" + std::to_string(v) + ") returned " + std::to_string(a)); ctx.check(a == b, "val(" + std::to_string(v) + ")=" + std::to_string(a) + " but val(" + std::to_string(-v) + ")=" + std::to_string(b)); m[v] = a > 0 ? 1 : a < 0 ? -1 : 0; }
            for (auto& c : F.c) { bool taut = false; for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) taut = true; if (!taut) ctx.check(ref::satisfied(c, m), "clause not satisfied by the model of solve number " + std::to_string(solves) + ": " + ref::str(c)); }
            for (int a : assumed) if (std::abs(a) <= top) ctx.check(m[std::abs(a)] == (a > 0 ? 1 : -1), "assumption " + std::to_string(a) + " does not hold in the model");
                else ctx.check(s.val(a) == a, "assumption " + std::to_string(a) + " does not hold in the model");
        } else {
            unsats++; ref::Cl core; for (int a : assumed) if (s.failed(a)) core.push_back(a);
            if (!assumed.empty() && (int)core.size() < (int)assumed.size()) ctx.label("strict subset of the assumptions failed");
            if (!core.empty()) unsatAss++;
            if (mode.core) { ctx.check(deadForever || ref::solve(F, core) == -1, "the failed assumptions {" + ref::str(core) + "} are not sufficient for unsatisfiability (assumed {" + ref::str(assumed) + "})"); if (!core.empty() && assumed.size() > 1) ctx.nontrivial(); }
            if (mode.core && !ip) for (Lit c : s.s->getCandySolverResult().getConflict()) { int l = c.sign() ? -(c.var() + 1) : c.var() + 1; ctx.check(std::find(assumed.begin(), assumed.end(), -l) != assumed.end(), "the final conflict of solve number " + std::to_string(solves) + " has the literal " + std::to_string(l) + ", and " + std::to_string(-l) + " is not an assumption of that call {" + ref::str(assumed) + "}"); }
            if (assumed.empty()) deadForever = true;
        }
        assumed.clear();
    };
    if (mode.deep) { while (poolPos < pool.size()) addClause(pool[poolPos++]); doSolve(); }
    int chains = 0;
    int steps = src.list(2, 30, [&]() {
        switch (src.pick({5, 6, 5, 5, 2, mode.callbacks ? 4u : 1u, 1, chains < 2 ? 1u : 0u})) {
            case 0: src.list(1, 6, [&]() { addClause(ref::clauseK(src, maxV, (int)src.pick({0, 2, 6, 8, 3, 1}))); }); break;
            case 1: { int k = bulk && src.coin(3, 4) ? 100000 : src.range(1, 30); while (k-- > 0 && poolPos < pool.size()) addClause(pool[poolPos++]); if (poolPos >= pool.size() && hard < 2 && src.coin(1, 3)) { addClause(ref::clauseK(src, maxV, 3)); hard++; } break; }
            case 2: src.list(1, mode.core ? 10 : 4, [&]() { int l = ref::lit(src, std::max(1, src.coin(1, 12) ? maxV + 3 : maxV)); s.assume(l); assumed.push_back(l); ctx.show << "assume " << l << "\n"; }); break;
            case 3: doSolve(); break;
            case 4: { ref::Cl c = ref::clauseK(src, maxV, src.range(2, 4)); for (size_t i = 0; i < c.size(); i++) { s.lit(c[i]); if (i == 0) { int l = ref::lit(src, maxV); s.assume(l); assumed.push_back(l); } } s.lit(0); F.c.push_back(c); for (int l : c) F.n = std::max(F.n, std::abs(l)); ctx.show << "add " << ref::str(c) << " 0 (with an assumption " << assumed.back() << " made in between)\n"; break; }
            case 5: if (src.flip()) { unsigned w = src.pick({3, 2, 1}); if (w == 2) { s.terminate(nullptr, nullptr); termSet = false; ctx.show << "set_terminate(NULL)\n"; } else { term.after = w == 0 ? -1 : src.range(0, 6); termSet = true; s.terminate(termState = place(), termCb); ctx.show << "set_terminate(after " << term.after << " calls)\n"; } }
                    else { if (src.coin(1, 4)) { s.learn(nullptr, 0, nullptr); learnSet = false; ctx.show << "set_learn(NULL)\n"; } else { { unsigned w = src.pick({2, 1, 2}); learn.max = w == 2 ? 1000 : w ? src.range(0, 3) : src.range(1, 20); } learnSet = true; s.learn(learnState = place(), learn.max, learnCb); ctx.show << "set_learn(max " << learn.max << ")\n"; } } break;
            case 7: { // clauses with selectors: a chain x1, x1 -> x2, .., -xk, which needs (nearly) all of its selectors to be contradictory
                chains++; int k = src.coin(1, 3) ? src.range(20, 70) : src.range(3, 20), b = std::max(F.n, maxV) + 1; std::vector<int> sel; int hole = src.coin(1, 4) ? src.range(0, k) : -1;
                for (int i = 0; i <= k; i++) { int x = b + 2 * i, y = b + 2 * i - 2, se = b + 2 * i + 1; sel.push_back(se); if (i == hole) continue; ref::Cl c{-se}; if (i > 0) c.push_back(-y); if (i < k) c.push_back(x); if (src.coin(1, 3)) c.push_back(-se); addClause(c); }
                for (size_t i = sel.size(); i > 1; i--) std::swap(sel[i - 1], sel[src.below(i)]); int skip = src.coin(1, 3) ? (int)src.below(sel.size()) : -1;
                for (size_t i = 0; i < sel.size(); i++) if ((int)i != skip) { s.assume(sel[i]); assumed.push_back(sel[i]); ctx.show << "assume " << sel[i] << "\n"; } if (k > 20) ctx.label("many selectors"); break; }
            case 6: { int v = maxV + src.range(1, 4); maxV = std::min(v, 64); break; }
        }
    });
    (void)steps; doSolve(); if (src.flip()) doSolve();
    if (!mode.core && !mode.callbacks && solves >= 2 && F.c.size() > 3) ctx.nontrivial();
    if (solves >= 3) ctx.label("solves>=3"); if (interrupts && sats + unsats) ctx.label("answers after an interruption"); if (sats && unsats) ctx.label("both answers in one history"); if (unsatAss) ctx.label("unsat under assumptions");
    ctx.label(SolverOptions::opt_preprocessing ? "preprocessing" : "no preprocessing"); if (ip) return; std::istringstream is(cfg.text); std::string w; is >> w; ctx.label("branching " + w);
}
PROPERTY(incremental) { Mode m; m.core = false; m.callbacks = false; history(src, ctx, m); }
PROPERTY(incrementalc) { Mode m; m.core = m.callbacks = false; m.onlyC = true; history(src, ctx, m); }
PROPERTY(incdeep) { Mode m; m.core = m.callbacks = false; m.deep = true; history(src, ctx, m); }
PROPERTY(faileddeep) { Mode m; m.core = true; m.callbacks = false; m.deep = true; history(src, ctx, m); }
PROPERTY(failed) { Mode m; m.core = true; m.callbacks = false; history(src, ctx, m); }
PROPERTY(callbacks) { Mode m; m.core = false; m.callbacks = true; history(src, ctx, m); }
// a shorter maximum exports exactly the clauses of the longer one that fit, and changes nothing else
PROPERTY(learnmax) {
    resetOptions(); Config cfg = config(src, false); SolverOptions::opt_preprocessing = false; SolverOptions::opt_inprocessing = 0;
    ref::Cnf g; switch (src.pick({4, 2, 1, 1, 2})) { case 0: g = gen::randomK(src, 25, 60); break; case 1: g = gen::mixed23(src, 30, 60); break; case 2: g = gen::pigeon(src, 5); break; case 3: g = gen::colouring(src, 12); break; default: g = gen::miterCnf(src, 6, 14); }
    int max = src.pick({1, 4}) ? src.range(1, 6) : src.range(0, 20); ctx.show << cfg.text << ", no simplification, maximum " << max << "\n" << ref::dimacs(g); ctx.publish();
    std::vector<ref::Cl> got[2]; size_t n[2]; unsigned conf[2]; int ans[2]; Config plain = cfg;
    for (int k = 0; k < 2; k++) {
        Learn learn; learn.max = k ? max : 100000; theLearn = &learn; learnState = &learn; std::unique_ptr<CandySolverInterface> s(make(plain)); CNFProblem p; for (auto& c : g.c) { std::vector<Lit> v = LV(c); p.readClause(v.begin(), v.end()); }
        s->setLearntCallback(&learn, learn.max, learnCb); s->init(p); lbool r = s->solve(); ans[k] = r == l_True ? 10 : r == l_False ? 20 : 0; conf[k] = s->nConflicts(); got[k] = learn.got; n[k] = learn.total; ctx.check(!learn.tooLong, "a learnt clause longer than the registered maximum was exported"); ctx.check(!learn.wrongState, "the learn callback got another state pointer than the one registered with it");
    }
    ctx.check(ans[0] == ans[1] && conf[0] == conf[1], "the maximum length of exported clauses changes the search"); ctx.check(n[0] == conf[0], std::to_string(n[0]) + " of " + std::to_string(conf[0]) + " learnt clauses were exported, none is too long");
    if (n[0] > 400) { ctx.label("more than 400 learnt clauses"); return; }
    std::vector<ref::Cl> want; for (auto& c : got[0]) if ((int)c.size() <= max) want.push_back(c);
    ctx.check(want.size() == got[1].size(), std::to_string(got[1].size()) + " learnt clauses were exported with maximum " + std::to_string(max) + ", " + std::to_string(want.size()) + " of the learnt clauses have at most that length"); ctx.check(want == got[1], "other clauses exported with maximum " + std::to_string(max));
    if (!want.empty() && want.size() < got[0].size()) ctx.nontrivial(); if (!want.empty()) ctx.label("some clauses fit");
}
PBT_MAIN
