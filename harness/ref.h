// Independent reference machinery: CNFs as vectors of DIMACS integers, a brute-force
// evaluator, a plain CDCL solver, a forward DRAT checker and formula generators.
// Nothing in here uses code of the repository.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include "pbt.h"
#include <numeric>

namespace ref {
typedef std::vector<int> Cl;          // DIMACS literals
struct Cnf { int n = 0; std::vector<Cl> c; };

inline std::string dimacs(const Cnf& f) {
    std::ostringstream o; o << "p cnf " << f.n << " " << f.c.size() << "\n";
    for (auto& c : f.c) { for (int l : c) o << l << " "; o << "0\n"; } return o.str();
}
inline std::string str(const std::vector<int>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; return o.str(); }
inline int maxVar(const Cnf& f) { int m = f.n; for (auto& c : f.c) for (int l : c) m = std::max(m, std::abs(l)); return m; }

// val[v] in {-1,0,1}; clause satisfied by some true literal
inline bool satisfied(const Cl& c, const std::vector<int>& val) { for (int l : c) { int v = std::abs(l); if (v < (int)val.size() && val[v] == (l > 0 ? 1 : -1)) return true; } return false; }

// ---- CDCL reference solver (from scratch for every call) ----
class Sat {
    int n; std::vector<std::vector<int>> cls; std::vector<std::vector<int>> watch; std::vector<int> val, level, reason, trail, lim; std::vector<double> act; std::vector<char> phase, seen; double inc = 1; size_t qh = 0;
    bool ok = true;
    static int ix(int l) { return 2 * std::abs(l) + (l < 0); }
    int value(int l) const { int v = val[std::abs(l)]; return l > 0 ? v : -v; }
    void enqueue(int l, int r) { int v = std::abs(l); val[v] = l > 0 ? 1 : -1; level[v] = (int)lim.size(); reason[v] = r; trail.push_back(l); }
    int propagate() {
        while (qh < trail.size()) {
            int p = trail[qh++]; auto& ws = watch[ix(-p)]; size_t i = 0, j = 0;
            for (; i < ws.size(); i++) {
                int ci = ws[i]; auto& c = cls[ci]; if (c[0] == -p) std::swap(c[0], c[1]);
                if (value(c[0]) == 1) { ws[j++] = ci; continue; }
                bool found = false;
                for (size_t k = 2; k < c.size(); k++) if (value(c[k]) != -1) { std::swap(c[1], c[k]); watch[ix(c[1])].push_back(ci); found = true; break; }
                if (found) continue;
                ws[j++] = ci;
                if (value(c[0]) == -1) { for (i++; i < ws.size(); i++) ws[j++] = ws[i]; ws.resize(j); qh = trail.size(); return ci; }
                enqueue(c[0], ci);
            }
            ws.resize(j);
        }
        return -1;
    }
    void cancel(int lv) { while ((int)lim.size() > lv) { int s = lim.back(); lim.pop_back(); while ((int)trail.size() > s) { int v = std::abs(trail.back()); phase[v] = val[v] > 0; val[v] = 0; trail.pop_back(); push(v); } } qh = std::min(qh, trail.size()); }
    // heap of the unassigned variables (and some assigned ones): highest activity first, then lowest number
    std::vector<int> heap, at; // at[v]: position in the heap, -1 if absent
    bool before(int a, int b) const { return act[a] != act[b] ? act[a] > act[b] : a < b; }
    void up(int i) { int v = heap[i]; while (i > 0 && before(v, heap[(i - 1) / 2])) { heap[i] = heap[(i - 1) / 2]; at[heap[i]] = i; i = (i - 1) / 2; } heap[i] = v; at[v] = i; }
    void down(int i) { int v = heap[i]; for (;;) { int c = 2 * i + 1; if (c >= (int)heap.size()) break; if (c + 1 < (int)heap.size() && before(heap[c + 1], heap[c])) c++; if (!before(heap[c], v)) break; heap[i] = heap[c]; at[heap[i]] = i; i = c; } heap[i] = v; at[v] = i; }
    void push(int v) { if (at[v] < 0) { heap.push_back(v); at[v] = (int)heap.size() - 1; up(at[v]); } }
    int pop() { int v = heap[0]; at[v] = -1; int l = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = l; at[l] = 0; down(0); } return v; }
    void grown() { at.resize(n + 1, -1); for (int v = 1; v <= n; v++) if (!val[v]) push(v); }
    void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; for (int i = (int)heap.size() / 2; i-- > 0;) down(i); } if (at[v] >= 0) up(at[v]); }
    bool addClause(Cl c) {
        std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
        for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) return true;
        if (c.empty()) { ok = false; return false; }
        if (c.size() == 1) { if (value(c[0]) == -1) { ok = false; return false; } if (value(c[0]) == 0) enqueue(c[0], -1); return true; }
        int id = (int)cls.size(); cls.push_back(c); watch[ix(c[0])].push_back(id); watch[ix(c[1])].push_back(id); return true;
    }
public:
    std::vector<int> model; // model[v] = +-1
    uint64_t conflicts = 0; std::vector<Cl>* log = nullptr; // learnt clauses in order
    Sat(const Cnf& f) {
        n = maxVar(f); watch.resize(2 * n + 2); val.assign(n + 1, 0); level.assign(n + 1, 0); reason.assign(n + 1, -1); act.assign(n + 1, 0); phase.assign(n + 1, 0); seen.assign(n + 1, 0);
        for (auto& c : f.c) { if (!addClause(c)) break; }
        // literals assigned before a clause was added may falsify its watches: rebuild by re-propagation
        if (ok) { for (size_t i = 0; i < cls.size(); i++) { int nf = 0; int last = 0; for (int l : cls[i]) { if (value(l) == 1) { nf = 2; break; } if (value(l) == 0) { nf++; last = l; } } if (nf == 0) { ok = false; break; } (void)last; } }
    }
    // 1 sat, -1 unsat, 0 conflict budget exhausted
    int solve(const std::vector<int>& assume = {}, uint64_t budget = ~0ull) {
        if (!ok) return -1;
        for (int a : assume) if (std::abs(a) > n) { int nn = std::abs(a); n = nn; watch.resize(2 * n + 2); val.resize(n + 1, 0); level.resize(n + 1, 0); reason.resize(n + 1, -1); act.resize(n + 1, 0); phase.resize(n + 1, 0); seen.resize(n + 1, 0); }
        grown();
        qh = 0; uint64_t restart = 100, sinceRestart = 0;
        for (;;) {
            int confl = propagate();
            if (confl >= 0) {
                if (lim.empty()) { ok = false; return -1; }
                conflicts++; sinceRestart++; if (conflicts > budget) { cancel(0); return 0; }
                Cl learnt(1, 0); int cnt = 0, p = 0; size_t idx = trail.size();
                std::vector<int> clearList;
                do {
                    for (int q : cls[confl]) { if (q == p) continue; int v = std::abs(q); if (!seen[v] && level[v] > 0) { seen[v] = 1; clearList.push_back(v); bump(v); if (level[v] == (int)lim.size()) cnt++; else learnt.push_back(q); } }
                    while (!seen[std::abs(trail[--idx])]) {}
                    p = trail[idx]; confl = reason[std::abs(p)]; seen[std::abs(p)] = 0; cnt--;
                } while (cnt > 0);
                learnt[0] = -p; for (int v : clearList) seen[v] = 0;
                int bl = 0; for (size_t i = 1; i < learnt.size(); i++) if (level[std::abs(learnt[i])] > bl) { bl = level[std::abs(learnt[i])]; std::swap(learnt[1], learnt[i]); }
                if (log) log->push_back(learnt);
                cancel(bl);
                if (learnt.size() == 1) enqueue(learnt[0], -1);
                else { int id = (int)cls.size(); cls.push_back(learnt); watch[ix(learnt[0])].push_back(id); watch[ix(learnt[1])].push_back(id); enqueue(learnt[0], id); }
                inc *= 1.05;
            } else {
                if (sinceRestart > restart) { sinceRestart = 0; restart = restart * 11 / 10; cancel(0); continue; }
                int next = 0;
                while (lim.size() < assume.size()) {
                    int a = assume[lim.size()];
                    if (value(a) == 1) lim.push_back((int)trail.size());
                    else if (value(a) == -1) { cancel(0); return -1; }
                    else { next = a; break; }
                }
                while (!next && !heap.empty()) { int v = pop(); if (!val[v]) next = phase[v] ? v : -v; }
                if (!next) { model = val; cancel(0); return 1; }
                lim.push_back((int)trail.size()); enqueue(next, -1);
            }
        }
    }
};
inline int solve(const Cnf& f, const std::vector<int>& assume = {}, std::vector<int>* model = nullptr, uint64_t budget = 20000) {
    Sat s(f); int r = s.solve(assume, budget); if (r == 0) throw pbt::Discard();
    if (r == 1) {
        for (auto& c : f.c) { bool taut = false; for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) taut = true; if (!taut && !satisfied(c, s.model)) { fprintf(stderr, "reference solver is wrong\n"); abort(); } }
        if (model) *model = s.model;
    }
    return r;
}
inline bool implies(const Cnf& f, const Cl& c) { std::vector<int> a; for (int l : c) a.push_back(-l); for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) return true; return solve(f, a) == -1; }
// truth-table satisfiability, n <= 20
inline bool brute(const Cnf& f) {
    int n = maxVar(f);
    for (uint32_t m = 0; m < (1u << n); m++) { bool all = true; for (auto& c : f.c) { bool s = false; for (int l : c) if (((m >> (std::abs(l) - 1)) & 1) == (l > 0)) { s = true; break; } if (!s) { all = false; break; } } if (all) return true; }
    return false;
}

// ---- forward DRAT checker ----
// Deletions of clauses that are unit under the current top-level assignment are ignored, as
// drat-trim does.  Returns "" if the proof derives the empty clause by RUP/RAT steps only.
class Drat {
    int n; std::vector<Cl> cls; std::vector<char> alive; std::map<Cl, std::vector<int>> index;
    std::vector<std::vector<int>> occ; std::vector<int> val; std::vector<int> top; // top-level trail
    bool contradiction = false; std::map<int, int> reasonOf; // clause id -> forced top literal
    static int ix(int l) { return 2 * std::abs(l) + (l < 0); }
    int value(int l) const { int v = val[std::abs(l)]; return l > 0 ? v : -v; }
    static Cl norm(Cl c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
    static bool tautology(const Cl& c) { for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) return true; return false; } // c sorted
    void grow(int v) { if (v > n) { n = v; occ.resize(2 * n + 2); val.resize(n + 1, 0); } }
    // propagate starting from trail position; returns true on conflict
    bool prop(std::vector<int>& tr, size_t qh, bool isTop) {
        while (qh < tr.size()) {
            int p = tr[qh++];
            for (int id : occ[ix(-p)]) {
                if (!alive[id]) continue;
                int un = 0, cnt = 0; bool sat = false;
                for (int l : cls[id]) { int x = value(l); if (x == 1) { sat = true; break; } if (x == 0) { cnt++; un = l; if (cnt > 1) break; } }
                if (sat || cnt > 1) continue;
                if (cnt == 0) return true;
                val[std::abs(un)] = un > 0 ? 1 : -1; tr.push_back(un); if (isTop) reasonOf[id] = un;
            }
        }
        return false;
    }
    void insert(const Cl& c) {
        for (int l : c) grow(std::abs(l));
        int id = (int)cls.size(); cls.push_back(c); alive.push_back(1); index[c].push_back(id);
        for (int l : c) occ[ix(l)].push_back(id);
        int un = 0, cnt = 0; bool sat = false; for (int l : c) { int x = value(l); if (x == 1) sat = true; if (x == 0) { cnt++; un = l; } }
        if (sat || contradiction) return;
        if (cnt == 0) { contradiction = true; return; }
        if (cnt == 1) { size_t q = top.size(); val[std::abs(un)] = un > 0 ? 1 : -1; top.push_back(un); reasonOf[id] = un; if (prop(top, q, true)) contradiction = true; }
    }
    bool rup(const Cl& c) {
        std::vector<int> tr; bool r = false;
        for (int l : c) { int x = value(l); if (x == 1) { r = true; break; } if (x == 0) { val[std::abs(l)] = l > 0 ? -1 : 1; tr.push_back(-l); } }
        if (!r) r = prop(tr, 0, false);
        for (int l : tr) val[std::abs(l)] = 0;
        return r;
    }
public:
    size_t lemmas = 0, deletions = 0, ignored = 0, rats = 0, missing = 0;
    Drat(const Cnf& f) { n = 0; grow(maxVar(f)); occ.resize(2 * n + 2); val.resize(n + 1, 0); for (auto& c : f.c) { Cl k = norm(c); if (!tautology(k)) insert(k); } }
    bool refuted() const { return contradiction; }
    std::string add(const Cl& raw) {
        for (int l : raw) grow(std::abs(l));
        Cl c = norm(raw); lemmas++;
        if (!contradiction) {
            bool taut = false; for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) taut = true;
            if (!taut && !rup(c)) {
                bool ok = !raw.empty();
                if (ok) { int p = raw[0];
                    std::vector<int> cand = occ[ix(-p)];
                    for (int id : cand) { if (!alive[id]) continue; Cl r = c; bool t = false; for (int l : cls[id]) if (l != -p) { if (std::find(c.begin(), c.end(), -l) != c.end()) { t = true; break; } r.push_back(l); } if (t) continue; if (!rup(norm(r))) { ok = false; break; } } }
                if (!ok) return "lemma is neither RUP nor RAT: " + str(raw);
                rats++;
            }
        }
        if (!tautology(c)) insert(c);
        if (c.empty()) contradiction = true;
        return "";
    }
    bool del(const Cl& raw) { // false: no such clause
        Cl c = norm(raw); deletions++;
        auto it = index.find(c); if (it == index.end() || it->second.empty()) { missing++; return false; }
        int id = it->second.back(); auto r = reasonOf.find(id);
        if (r != reasonOf.end() && value(r->second) == 1) { // prefer a copy that is not a reason
            for (size_t k = 0; k < it->second.size(); k++) if (!reasonOf.count(it->second[k])) { int o = it->second[k]; it->second.erase(it->second.begin() + k); alive[o] = 0; return true; }
            ignored++; return true; }
        it->second.pop_back(); alive[id] = 0; return true;
    }
};

// ---- formula generators (all decisions through Src) ----
inline int lit(pbt::Src& s, int n) { int v = 1 + (int)s.below(n); return s.flip() ? -v : v; }
inline Cl clauseK(pbt::Src& s, int n, int k) { Cl c; for (int i = 0; i < k; i++) c.push_back(lit(s, n)); return c; }
} // namespace ref
#endif
