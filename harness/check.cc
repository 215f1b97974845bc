// The proof checker: accepts every valid refutation and nothing that is not one.
#include "candyapi.h"
#include "scratch.h"
#include "candy/core/DRATChecker.h"
#include "candy/utils/Exceptions.h"
#include <zlib.h>
using namespace cnd;

struct Line { bool del; ref::Cl c; };
static ref::Cl norm(ref::Cl c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
static bool tautology(const ref::Cl& c) { for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) return true; return false; }
// Naive unit propagation over a list of clauses, some of them deleted.
struct Base {
    std::vector<ref::Cl> c; std::vector<char> alive; int n;
    explicit Base(const ref::Cnf& f) : n(ref::maxVar(f)) { for (auto& x : f.c) { ref::Cl k = norm(x); if (!tautology(k)) add(k); } }
    void add(const ref::Cl& k) { c.push_back(norm(k)); alive.push_back(1); }
    bool conflict(const ref::Cl& negate, bool deletedToo) const {
        std::vector<int> v(n + 1, 0); for (int l : negate) { int s = l > 0 ? -1 : 1; if (v[std::abs(l)] == -s) return true; v[std::abs(l)] = s; }
        for (bool more = true; more;) { more = false; for (size_t i = 0; i < c.size(); i++) { if (!alive[i] && !deletedToo) continue; int un = 0, cnt = 0; bool sat = false; for (int l : c[i]) { int s = l > 0 ? 1 : -1, x = v[std::abs(l)]; if (x == s) { sat = true; break; } if (x == 0) { un = l; if (++cnt > 1) break; } } if (sat || cnt > 1) continue; if (!cnt) return true; v[std::abs(un)] = un > 0 ? 1 : -1; more = true; } }
        return false;
    }
    bool rat(const ref::Cl& l, int pivot, bool deletedToo) const { for (size_t i = 0; i < c.size(); i++) if (alive[i] && std::find(c[i].begin(), c[i].end(), -pivot) != c[i].end()) { ref::Cl r = l; for (int x : c[i]) if (x != -pivot) r.push_back(x); if (!conflict(r, deletedToo)) return false; } return true; }
    void del(const ref::Cl& k) { ref::Cl m = norm(k); if (m.size() < 2) return; for (size_t i = 0; i < c.size(); i++) if (alive[i] && c[i] == m) { alive[i] = 0; return; } }
};
// 1 must be accepted, -1 must be rejected, 0 either
static int judge(const ref::Cnf& f, int nv, const std::vector<Line>& p, pbt::Ctx& ctx) {
    Base b(f); bool sure = true, done = b.conflict({}, false), up = done, empty = false; unsigned rats = 0, dels = 0, adds = 0;
    for (auto& l : p) {
        bool odd = norm(l.c).size() != l.c.size() || tautology(l.c); for (int x : l.c) if (std::abs(x) > nv) odd = true;
        for (int x : l.c) if (std::abs(x) > b.n) b.n = std::abs(x);
        if (l.del) { if (odd) sure = false; b.del(l.c); dels++; continue; }
        adds++; if (odd) sure = false;
        if (!b.conflict(l.c, false)) {
            bool strict = !l.c.empty() && b.rat(l.c, l.c[0], false), lib = strict || b.conflict(l.c, true); for (int x : l.c) if (!lib && b.rat(l.c, x, true)) lib = true;
            if (!lib) { if (b.conflict({}, true)) return 0; ctx.label("invalid line"); return odd && !empty && sure ? 0 : -1; } if (!strict) sure = false; rats++;
        }
        if (l.c.empty()) empty = true; b.add(l.c); if (!done && b.conflict({}, true)) done = true;
    }
    if (rats) ctx.label("RAT line"); if (dels) ctx.label("deletions"); if (adds > 10) ctx.label("more than ten lemmas"); if (up) ctx.label("refuted by unit propagation alone");
    if (empty) { if (sure) { ctx.label("valid refutation"); if (!up) ctx.nontrivial(); } return sure ? 1 : 0; }
    return done ? 0 : -1;
}
static void write(pbt::Src& src, const std::string& path, const std::vector<Line>& p, bool plain, std::string& text) {
    std::ostringstream o; for (auto& l : p) { if (!plain && src.coin(1, 12)) o << "c comment 1 0\n"; if (!plain && src.coin(1, 12)) o << (src.flip() ? "\n" : "  "); if (l.del) o << (!plain && src.coin(1, 6) ? "d  " : "d "); for (int x : l.c) o << x << (!plain && src.coin(1, 20) ? "\t" : " "); o << "0" << (!plain && src.coin(1, 12) ? " " : "\n"); }
    text = o.str(); if (!plain && src.coin(1, 6) && !text.empty()) text.pop_back();
    if (!plain && src.coin(1, 8)) { gzFile g = gzopen(path.c_str(), "wb"); gzwrite(g, text.data(), (unsigned)text.size()); gzclose(g); } else scratch::spit(path, text);
}
static ref::Cl randomClause(pbt::Src& s, int n) { ref::Cl c; int k = (int)s.pick({1, 4, 6, 4, 1}); for (int i = 0; i < k; i++) c.push_back(ref::lit(s, n)); return c; }
static std::vector<Line> readBack(const std::string& text) { std::vector<Line> p; std::istringstream is(text); std::string l; while (std::getline(is, l)) { Line x{false, {}}; std::istringstream ls(l); std::string w; while (ls >> w) { if (w == "d") x.del = true; else if (w != "0") x.c.push_back(atoi(w.c_str())); } p.push_back(x); } return p; }
PROPERTY(checker) {
    resetOptions(); std::string fam; static std::string path; path = scratch::file(".drat"); scratch::Rm rm{path};
    ref::Cnf f = src.coin(1, 3) ? gen::any(src, 1, &fam) : ref::Cnf(); if (f.c.empty()) { // small dense formulas are mostly unsatisfiable
        fam = "dense"; f.n = src.range(2, 9); int m = src.range(f.n, f.n * 6); for (int i = 0; i < m; i++) f.c.push_back(ref::clauseK(src, f.n, 1 + (int)src.pick({1, 5, 8, 2}))); }
    if (src.coin(1, 8)) f.c.insert(f.c.begin() + src.below(f.c.size() + 1), {src.range(1, ref::maxVar(f) + 2)});
    if (ref::maxVar(f) > 60 || f.c.size() > 250) throw pbt::Discard();
    int truth = ref::solve(f); bool longer = src.coin(1, 6), bulk = !longer && src.coin(1, 16); std::vector<ref::Cl> filler;
    if (longer) { // facts that falsify padding literals: the same formula with long clauses
        int n0 = std::max(1, ref::maxVar(f)), w = src.range(4, 14); std::vector<ref::Cl> out; for (int i = 1; i <= w; i++) out.push_back({-(n0 + i)});
        for (auto c : f.c) { if (!c.empty() && src.coin(3, 4)) { int from0 = (int)src.below(3), upto = w - (int)src.below(3); for (int i = 1 + from0; i <= upto; i++) c.push_back(n0 + i); if (src.flip()) std::rotate(c.begin(), c.begin() + c.size() / 2, c.end()); } out.push_back(c); } f.c = out; f.n = n0 + w; ctx.label("padded clauses"); }
    if (bulk) { // several hundred satisfiable clauses over other variables, many of which the proof deletes
        int n0 = std::max(1, ref::maxVar(f)); int m = src.range(500, 900); for (int i = 0; i < m; i++) { ref::Cl c; for (int v : {n0 + 1 + (i * 7) % 40, n0 + 1 + (i * 11 + 3 + i / 40) % 40, n0 + 1 + (i * 13 + 5 + i / 7) % 40}) if (std::find(c.begin(), c.end(), v) == c.end() && std::find(c.begin(), c.end(), -v) == c.end()) c.push_back(!c.empty() && (i >> c.size()) % 3 == 0 ? -v : v); filler.push_back(c); f.c.push_back(c); } f.n = n0 + 40; ctx.label("many deletions"); }
    std::vector<Line> p; unsigned from = src.pick({3, 5, 2}); std::string desc;
    int nv = 0; for (auto& c : f.c) for (int l : c) nv = std::max(nv, std::abs(l));
    if (from == 0) { Config cfg = config(src, false); SolverOptions::opt_certified_file = path.c_str(); { CNFProblem pr; load(pr, f); std::unique_ptr<CandySolverInterface> s(make(cfg)); SolverOptions::opt_certified_file = ""; s->init(pr); Budget b{s.get(), 300}; limit(*s, b); s->solve(); } p = readBack(scratch::slurp(path)); desc = "candy's proof"; }
    else if (from == 1) { desc = "reference proof"; std::vector<ref::Cl> log; ref::Sat s(f); s.log = &log; s.solve({}, 300); for (auto& c : log) { ref::Cl x = c; if (src.coin(1, 3)) for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[src.below(i)]); p.push_back({false, x}); } if (truth < 0) p.push_back({false, {}}); }
    else { desc = "random lines"; int k = src.range(0, 12); for (int i = 0; i < k; i++) p.push_back({src.coin(1, 4), randomClause(src, std::max(1, nv))}); if (src.coin(2, 3)) p.push_back({false, {}}); }
    if (bulk) { std::vector<Line> d; size_t k = src.range(40, 110), o = src.below(filler.size()); for (size_t i = 0; i < k; i++) d.push_back({true, filler[(o + i) % filler.size()]}); size_t at = src.flip() ? 0 : src.below(p.size() + 1); p.insert(p.begin() + at, d.begin(), d.end()); }
    unsigned muts = src.pick({4, 3, 2, 1, 1}); std::ostringstream ms; bool cut = false;
    for (unsigned i = 0; i < muts; i++) {
        unsigned k = src.pick({3, 2, 2, 4, 4, 3, 2, 1, 1}); size_t at = p.empty() ? 0 : src.below(p.size()); if (p.empty() && k != 3 && k != 4 && k != 5) continue;
        if (k == 0) { p.erase(p.begin() + at); ms << " drop" << at; } else if (k == 1) { auto& c = p[at].c; if (!c.empty()) { c.erase(c.begin() + src.below(c.size())); ms << " shorten" << at; } } else if (k == 2) { auto& c = p[at].c; if (!c.empty()) { size_t j = src.below(c.size()); c[j] = -c[j]; ms << " flip" << at; } }
        else if (k == 3) { std::vector<ref::Cl> from = f.c; for (auto& l : p) if (!l.del) from.push_back(l.c); if (from.empty()) continue; ref::Cl c = from[src.below(from.size())]; if (src.flip()) std::reverse(c.begin(), c.end()); p.insert(p.begin() + at, {true, c}); ms << " delete@" << at; }
        else if (k == 4) { int v = nv ? src.range(1, nv) : 1; ref::Cl c{src.flip() ? v : -v}; if (nv) for (unsigned j = src.pick({2, 4, 2, 1}); j > 0; j--) { int l = ref::lit(src, nv); if (std::abs(l) != v && std::find(c.begin(), c.end(), l) == c.end()) c.push_back(l); } p.insert(p.begin() + at, {false, c}); ms << " lemma@" << at; }
        else if (k == 5) { size_t j = f.c.empty() ? 0 : src.below(f.c.size()); ref::Cl c; if (!f.c.empty()) c = norm(f.c[j]); if (!c.empty() && src.flip()) c.push_back(ref::lit(src, nv)); p.insert(p.begin() + at, {false, c}); ms << " known@" << at; }
        else if (k == 6) { size_t o = src.below(p.size()); std::swap(p[at], p[o]); ms << " swap" << at << "," << o; } else if (k == 7) { p[at].c.push_back(nv + (int)src.range(1, 3)); ms << " unknown" << at; } else { cut = true; ms << " cut"; }
    }
    for (size_t i = 0; i < p.size(); i++) if (!p[i].del && p[i].c.size() > 1 && src.coin(1, 40)) p[i].c.push_back(p[i].c[0]);
    if (p.size() > 520) throw pbt::Discard();
    std::string text; write(src, path, p, src.coin(1, 3), text); if (cut) { text = text.substr(0, src.below(text.size() + 1)); scratch::spit(path, text); }
    ctx.show << "family: " << fam << ", " << desc << ms.str() << "\n" << ref::dimacs(f) << "proof:\n" << text.substr(0, 3000); ctx.publish();
    int must = cut ? 0 : judge(f, nv, p, ctx); bool got = false, threw = false;
    { CNFProblem pr; load(pr, f); try { DRATChecker ck(pr); got = ck.check_proof(path.c_str()); } catch (ParserException&) { threw = true; } }
    if (got && truth > 0) ctx.fail("the checker accepts a refutation of a satisfiable formula"); if (threw && !cut) ctx.fail("the checker cannot read the proof");
    if (must == 1) ctx.check(got, "the checker rejects a valid proof"); if (must == -1) { ctx.check(!got, "the checker accepts a proof that derives no contradiction or has an invalid line"); if (p.size() > 1) ctx.nontrivial(); }
    ctx.label(must > 0 ? "must accept" : must < 0 ? "must reject" : "either"); ctx.label(desc);
}
PROPERTY(selfcheck) { // the checker confirms every proof the solver writes
    resetOptions(); std::string fam; static std::string path; path = scratch::file(".drat"); scratch::Rm rm{path}; ref::Cnf f = gen::any(src, ctx.size, &fam); Config cfg = config(src, true); ctx.show << "config: " << cfg.text << "\nfamily: " << fam << "\n" << ref::dimacs(f); ctx.publish(); SolverOptions::opt_certified_file = path.c_str(); lbool r = l_Undef;
    { CNFProblem pr; load(pr, f); std::unique_ptr<CandySolverInterface> s(make(cfg)); SolverOptions::opt_certified_file = ""; s->init(pr); Budget b{s.get(), 3000}; limit(*s, b); r = s->solve(); }
    CNFProblem pr; load(pr, f); bool up = Base(f).conflict({}, false); DRATChecker ck(pr); bool got = ck.check_proof(path.c_str()); if (r == l_False) { ctx.check(got, "the checker rejects the solver's proof of unsatisfiability"); if (!up) ctx.nontrivial(); } else if (!up) ctx.check(!got, "the checker accepts the proof of an unfinished or satisfiable run"); ctx.label(r == l_False ? "unsat" : "sat prefix");
}
PBT_MAIN
