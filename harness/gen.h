// Formula generators shared by the harnesses.  All choices come from Src.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "ref.h"

namespace gen {
using ref::Cnf; using ref::Cl; using pbt::Src;

// ---------- circuits ----------
enum GateType { AND, OR, XOR, EQV, ITE, MAJ, BUF, RAND3, NTYPES };
struct CGate { int out; int type; std::vector<int> in; unsigned table = 0; bool cut = false; };
struct Circuit { int nIn = 0; int n = 0; std::vector<CGate> g; };

inline bool evalGate(const CGate& g, const std::vector<char>& v) {
    auto L = [&](int l) { bool b = v[std::abs(l)]; return l > 0 ? b : !b; };
    switch (g.type) {
        case AND: for (int l : g.in) if (!L(l)) return false; return true;
        case OR: for (int l : g.in) if (L(l)) return true; return false;
        case XOR: { bool x = false; for (int l : g.in) x ^= L(l); return x; }
        case EQV: return L(g.in[0]) == L(g.in[1]);
        case ITE: return L(g.in[0]) ? L(g.in[1]) : L(g.in[2]);
        case MAJ: return L(g.in[0]) + L(g.in[1]) + L(g.in[2]) >= 2;
        case BUF: return L(g.in[0]);
        case RAND3: { unsigned i = 0; for (size_t k = 0; k < g.in.size(); k++) i |= (unsigned)L(g.in[k]) << k; return (g.table >> i) & 1; }
    }
    return false;
}
// Tseitin clauses of one gate: fwd (clauses containing -out) and/or bwd (clauses containing out)
inline void gateClauses(const CGate& g, std::vector<Cl>& out, bool fwd, bool bwd) {
    int o = g.out;
    auto both = [&](Cl c) { bool f = std::find(c.begin(), c.end(), -o) != c.end(); if ((f && fwd) || (!f && bwd)) out.push_back(c); };
    switch (g.type) {
        case AND: { Cl b{o}; for (int l : g.in) { both({-o, l}); b.push_back(-l); } both(b); break; }
        case OR: { Cl b{-o}; for (int l : g.in) { both({o, -l}); b.push_back(l); } both(b); break; }
        case BUF: both({-o, g.in[0]}); both({o, -g.in[0]}); break;
        case ITE: { int c = g.in[0], t = g.in[1], e = g.in[2]; both({-o, -c, t}); both({-o, c, e}); both({o, -c, -t}); both({o, c, -e}); break; }
        default: { // truth table encoding
            size_t k = g.in.size();
            for (unsigned m = 0; m < (1u << k); m++) {
                std::vector<char> v; int mx = o; for (int l : g.in) mx = std::max(mx, std::abs(l)); v.assign(mx + 1, 0);
                // inputs are over distinct variables
                for (size_t i = 0; i < k; i++) v[std::abs(g.in[i])] = (g.in[i] > 0) == (bool)((m >> i) & 1);
                bool r = evalGate(g, v); Cl c; c.push_back(r ? o : -o);
                for (size_t i = 0; i < k; i++) c.push_back(((m >> i) & 1) ? -g.in[i] : g.in[i]);
                both(c);
            }
        }
    }
}
inline Circuit circuit(Src& s, int maxIn, int maxGates, bool exotic = true) {
    Circuit c; c.nIn = s.range(1, maxIn); c.n = c.nIn;
    s.list(1, maxGates, [&]() {
        CGate g; g.type = (int)s.pick({6, 6, 5, 2, exotic ? 3u : 0u, exotic ? 2u : 0u, exotic ? 1u : 0u, exotic ? 2u : 0u});
        unsigned want = 2; bool wide = maxGates > 60 && s.coin(1, 4); if (g.type == AND || g.type == OR) want = (wide ? s.range(4, 14) : s.range(1, 4)) + 1; else if (g.type == XOR) want = wide ? s.range(3, 5) : s.range(2, 3); else if (g.type == ITE || g.type == MAJ) want = 3; else if (g.type == BUF) want = 1; else if (g.type == RAND3) want = s.range(2, 3);
        std::set<int> used;
        for (unsigned i = 0; i < want; i++) { // prefer recent variables so that circuits get deep
            int v = s.flip() ? 1 + (int)s.below(c.n) : c.n - (int)s.below(std::min(c.n, maxGates > 60 ? 20 : 6));
            if (used.insert(v).second) g.in.push_back(s.coin(1, 3) ? -v : v);
        }
        if ((g.type == EQV && g.in.size() != 2) || ((g.type == ITE || g.type == MAJ) && g.in.size() != 3)) g.type = AND;
        if (g.type == RAND3) { g.table = (unsigned)s.below(1u << (1u << g.in.size())); }
        g.out = ++c.n; c.g.push_back(g);
    });
    return c;
}
inline void encode(const Circuit& c, Cnf& f) { f.n = std::max(f.n, c.n); for (auto& g : c.g) gateClauses(g, f.c, true, true); }

// a copy of a circuit over the same inputs, locally rewritten
inline Circuit rewritten(Src& s, const Circuit& a, int offset, bool mutate) {
    Circuit b; b.nIn = a.nIn; b.n = offset; std::vector<int> map(a.n + 1);
    for (int i = 1; i <= a.nIn; i++) map[i] = i;
    auto M = [&](int l) { int m = map[std::abs(l)]; return l > 0 ? m : -m; };
    size_t mut = mutate ? s.below(a.g.size()) : ~0ull;
    for (size_t k = 0; k < a.g.size(); k++) {
        CGate g = a.g[k]; for (int& l : g.in) l = M(l);
        int o = a.g[k].out;
        if (g.type == AND && g.in.size() > 2 && s.flip()) { CGate h; h.type = AND; h.in = {g.in[0], g.in[1]}; h.out = ++b.n; b.g.push_back(h); g.in.erase(g.in.begin()); g.in[0] = h.out; }
        else if ((g.type == AND || g.type == OR) && s.flip()) { g.type = g.type == AND ? OR : AND; for (int& l : g.in) l = -l; g.out = ++b.n; map[o] = -g.out; if (k == mut) g.type = g.type == AND ? OR : AND; b.g.push_back(g); continue; }
        if (k == mut) { if (g.type == AND) g.type = OR; else if (g.type == OR) g.type = AND; else g.in[0] = -g.in[0]; }
        g.out = ++b.n; map[o] = g.out; b.g.push_back(g);
    }
    // expose the last output as map value: stored as sign of the last gate via a BUF
    int last = M(a.g.back().out); CGate buf; buf.type = BUF; buf.in = {last}; buf.out = ++b.n; b.g.push_back(buf);
    return b;
}

// ---------- formula families ----------
inline Cnf smallMixed(Src& s, int maxN) { // odd shapes: units, duplicates, tautologies, rarely the empty clause
    Cnf f; f.n = s.range(1, maxN); unsigned wide = s.pick({4, 2, 1});
    s.list(0, f.n * 6 + 2, [&]() {
        unsigned k = s.pick({0, 2, 10, 14, 5, 2}); if (wide == 1 && s.coin(1, 4)) k = s.range(1, 8); if (wide == 2) k = std::max(k, 3u);
        if (k == 0) k = 2;
        f.c.push_back(ref::clauseK(s, f.n, k));
    });
    if (s.coin(1, 60)) f.c.push_back(Cl());
    return f;
}
inline Cnf randomK(Src& s, int loN, int hiN) {
    Cnf f; f.n = s.range(loN, hiN); int k = 3 + (int)s.pick({6, 1}); if (k == 4 && f.n > 40) f.n = 40; double r = k == 3 ? 4.26 : 9.0; int lo = (int)(f.n * (r * 0.85)), hi = (int)(f.n * (r * 1.15));
    s.list(lo, hi, [&]() { Cl c; std::set<int> u; while ((int)c.size() < k) { int l = ref::lit(s, f.n); if (!u.insert(std::abs(l)).second) { if ((int)u.size() >= f.n) break; int v = std::abs(l); do { v = v % f.n + 1; } while (u.count(v)); u.insert(v); l = l > 0 ? v : -v; } c.push_back(l); } f.c.push_back(c); });
    return f;
}
inline Cnf mixed23(Src& s, int loN, int hiN) { // 2+p-SAT: many binaries, equivalences, units appear during search
    Cnf f; f.n = s.range(loN, hiN); int b = (int)(f.n * 0.6), t = (int)(f.n * 2.8);
    s.list(b / 2, b * 2, [&]() { f.c.push_back(ref::clauseK(s, f.n, 2)); });
    s.list(t / 2, t * 3 / 2, [&]() { f.c.push_back(ref::clauseK(s, f.n, 3)); });
    s.list(0, f.n / 8, [&]() { f.c.push_back(ref::clauseK(s, f.n, s.range(4, 9))); });
    return f;
}
inline Cnf parity(Src& s, int maxV) { // random XOR systems
    Cnf f; f.n = s.range(3, maxV);
    s.list(2, f.n + 2, [&]() { int k = s.range(2, 4); std::set<int> u; for (int i = 0; i < k; i++) u.insert(1 + (int)s.below(f.n)); std::vector<int> v(u.begin(), u.end()); bool rhs = s.flip(); for (unsigned m = 0; m < (1u << v.size()); m++) { int p = __builtin_popcount(m) & 1; if (p == (int)rhs) continue; Cl c; for (size_t i = 0; i < v.size(); i++) c.push_back(((m >> i) & 1) ? -v[i] : v[i]); f.c.push_back(c); } });
    return f;
}
inline Cnf pigeon(Src& s, int maxH) { Cnf f; int h = s.range(1, maxH); int p = h + (s.coin(1, 4) ? 0 : 1); f.n = p * h; auto X = [&](int i, int j) { return i * h + j + 1; };
    for (int i = 0; i < p; i++) { Cl c; for (int j = 0; j < h; j++) c.push_back(X(i, j)); f.c.push_back(c); }
    for (int j = 0; j < h; j++) for (int i = 0; i < p; i++) for (int k = i + 1; k < p; k++) f.c.push_back({-X(i, j), -X(k, j)});
    return f; }
inline Cnf colouring(Src& s, int maxNodes) { Cnf f; int n = s.range(3, maxNodes), k = s.range(2, 4); f.n = n * k; auto X = [&](int i, int j) { return i * k + j + 1; };
    for (int i = 0; i < n; i++) { Cl c; for (int j = 0; j < k; j++) c.push_back(X(i, j)); f.c.push_back(c); if (s.flip()) for (int a = 0; a < k; a++) for (int b = a + 1; b < k; b++) f.c.push_back({-X(i, a), -X(i, b)}); }
    s.list(n, n * (k + 1), [&]() { int a = (int)s.below(n), b = (int)s.below(n); if (a == b) b = (a + 1) % n; for (int j = 0; j < k; j++) f.c.push_back({-X(a, j), -X(b, j)}); });
    return f; }
inline Cnf circuitCnf(Src& s, int maxIn, int maxGates) {
    Cnf f; Circuit c = circuit(s, maxIn, maxGates); encode(c, f);
    s.list(1, 3, [&]() { int o = c.g[c.g.size() - 1 - s.below(std::min<size_t>(c.g.size(), 3))].out; if (s.coin(3, 4)) f.c.push_back({s.flip() ? -o : o}); else f.c.push_back({s.flip() ? -o : o, ref::lit(s, c.n)}); });
    if (s.coin(1, 4)) s.list(0, 5, [&]() { f.c.push_back(ref::clauseK(s, c.n, s.range(1, 3))); });
    return f;
}
inline Cnf miterCnf(Src& s, int maxIn, int maxGates) {
    Cnf f; Circuit a = circuit(s, maxIn, maxGates); encode(a, f); Circuit b = rewritten(s, a, a.n, s.coin(1, 3)); f.n = b.n; for (auto& g : b.g) gateClauses(g, f.c, true, true);
    int o = ++f.n; CGate x; x.type = XOR; x.out = o; x.in = {a.g.back().out, b.g.back().out}; gateClauses(x, f.c, true, true); f.c.push_back({o});
    return f;
}
// renames variables into a bigger space (gaps, order changed) and shuffles clause order
inline Cnf disturbed(Src& s, Cnf f, int* spread = nullptr) {
    int n = ref::maxVar(f); int m = n + (int)s.below(n / 2 + 3); std::vector<int> pool(m); for (int i = 0; i < m; i++) pool[i] = i + 1;
    for (int i = 0; i < n; i++) std::swap(pool[i], pool[i + s.below(m - i)]);
    for (auto& c : f.c) for (int& l : c) l = l > 0 ? pool[l - 1] : -pool[-l - 1];
    for (size_t i = 0; i + 1 < f.c.size(); i++) if (s.coin(1, 3)) std::swap(f.c[i], f.c[i + s.below(f.c.size() - i)]);
    f.n = 0; for (auto& c : f.c) for (int l : c) f.n = std::max(f.n, std::abs(l)); if (f.n == 0) f.n = 1;
    if (spread) *spread = m; return f;
}
// weakens clauses so that only search recovers them: c becomes c|x, c|y, -x|-y(|z): learnt clauses come to subsume given ones
inline Cnf weakened(Src& s, Cnf f) {
    int n = ref::maxVar(f); if (n < 4) n = f.n = 4; std::vector<Cl> out;
    for (auto& c : f.c) {
        if (c.size() > 6 || !s.coin(1, 3)) { out.push_back(c); continue; }
        int x = ref::lit(s, n), y = ref::lit(s, n); Cl a(c), b(c); a.push_back(x); b.push_back(y); out.push_back(a); out.push_back(b);
        unsigned k = s.pick({3, 2, 2}); if (k == 0) out.push_back({-x, -y}); else if (k == 1) { int z = ref::lit(s, n); out.push_back({-x, -y, z}); out.push_back({-x, -y, -z, ref::lit(s, n)}); } else { Cl d(c); d.push_back(-x); d.push_back(-y); out.push_back(d); }
    }
    f.c = out; return f;
}
// a few very long clauses next to implications that shorten them
inline Cnf longClauses(Src& s, int maxLen) {
    Cnf f; f.n = s.range(10, maxLen); int k = s.range(1, 4);
    for (int i = 0; i < k; i++) { Cl c; int len = s.coin(1, 2) ? f.n : s.range(5, f.n); int off = (int)s.below(f.n); unsigned pol = s.pick({2, 2, 3}); for (int j = 0; j < len; j++) { int v = (off + j) % f.n + 1; c.push_back(pol == 0 ? v : pol == 1 ? -v : (s.flip() ? v : -v)); } f.c.push_back(c); }
    int dir = s.flip() ? 1 : -1; int step = s.range(1, 4);
    for (int v = 1; v + step <= f.n; v++) if (!s.coin(1, 12)) f.c.push_back({-v * dir, (v + step) * dir});
    s.list(0, f.n / 2 + 6, [&]() { f.c.push_back(ref::clauseK(s, f.n, s.range(1, 3))); });
    return f;
}
inline Cnf mixedLen(Src& s, int loN, int hiN) { // lengths 2..7 at about the density where 3-SAT is hard
    Cnf f; f.n = s.range(loN, hiN); int tot = 0, goal = (int)(f.n * s.range(85, 115) / 100.0 * 1000 / 1.0); // in units of 1/1000 variable of constraint
    static const int w[] = {0, 0, 600, 235, 105, 50, 25, 12}; // ~ 1/threshold density per length
    while (tot < goal) { int k = 2 + (int)s.pick({2, 5, 6, 3, 2, 1}); Cl c = ref::clauseK(s, f.n, k); f.c.push_back(c); tot += w[k]; }
    return f;
}
// formulas that take hundreds of conflicts: restarts, reductions and inprocessing really happen
inline Cnf hard(Src& s, std::string* fam = nullptr) {
    static const char* names[] = {"hard-random", "hard-mixed-length", "hard-weakened", "hard-parity", "hard-miter", "hard-pigeonhole", "hard-colouring"};
    unsigned k = s.pick({4, 6, 6, 2, 2, 1, 2}); if (fam) *fam = names[k];
    Cnf f;
    switch (k) {
        case 0: f = randomK(s, 70, 140); break;
        case 1: f = mixedLen(s, 50, 130); break;
        case 2: f = weakened(s, s.flip() ? randomK(s, 40, 80) : mixedLen(s, 30, 70)); break;
        case 3: f = parity(s, 34); break;
        case 4: f = miterCnf(s, 12, 60); break;
        case 5: f = pigeon(s, 6); break;
        default: f = colouring(s, 40);
    }
    if (s.coin(1, 4)) f = disturbed(s, f);
    return f;
}
inline Cnf any(Src& s, int scale, std::string* fam = nullptr);
// thousands of variables: many renamed copies of small formulas, chained by implications, in shuffled order
inline Cnf wide(Src& s, int maxV, std::string* fam = nullptr) {
    if (fam) *fam = "wide"; std::vector<Cnf> base, core; s.list(1, 4, [&]() { Cnf b = any(s, 1, nullptr); if (b.c.empty()) return; if (ref::solve(b) == 1) base.push_back(b); else if (core.empty() && s.flip()) core.push_back(b); });
    if (base.empty()) { Cnf b; b.n = 3; b.c = {{1, -2, 3}, {-1, 2}}; base.push_back(b); }
    uint64_t x = s.below(1u << 30) * 2 + 1; auto rnd = [&](uint64_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (int)(x % n); };
    int goal = s.range(300, maxV), links = s.coin(1, 2) ? 0 : (int)s.below(3), chain = s.coin(1, 3) ? s.range(1, maxV / 2) : 0; Cnf f; std::vector<int> last;
    for (size_t k = 0; f.n < goal; k++) {
        const Cnf& b = k == 2 && !core.empty() ? core[0] : base[k % base.size()]; int n = ref::maxVar(b); if (!n) { f.n++; continue; } std::vector<int> flip(n + 1); for (auto& t : flip) t = rnd(2) ? 1 : -1; std::vector<int> mine;
        for (Cl c : b.c) { for (int& l : c) { int v = std::abs(l); l = (l > 0 ? 1 : -1) * flip[v] * (f.n + v); } f.c.push_back(c); }
        for (int v = 1; v <= n; v++) mine.push_back(f.n + v);
        if (!last.empty()) for (int i = 0; i < links; i++) { int a = last[rnd(last.size())], c = mine[rnd(mine.size())]; Cl l; l.push_back(rnd(2) ? a : -a); l.push_back(rnd(2) ? c : -c); if (rnd(2)) { int d = 1 + rnd(f.n); l.push_back(rnd(2) ? d : -d); } f.c.push_back(l); }
        last = mine; f.n += n;
    }
    if (chain) { int from = f.n + 1; for (int i = 0; i < chain; i++, f.n++) { int a = from + i, b = from + i + 1; unsigned k = rnd(8); if (k < 6) f.c.push_back({-a, b}); if (k > 4) f.c.push_back({a, -b, 1 + rnd(f.n)}); } f.n++; if (rnd(2)) f.c.push_back({from}); }
    std::vector<int> name(f.n + 1); for (int i = 1; i <= f.n; i++) name[i] = i; if (s.flip()) for (int i = f.n; i > 1; i--) std::swap(name[i], name[1 + rnd(i)]);
    for (auto& c : f.c) for (int& l : c) l = l > 0 ? name[l] : -name[-l];
    if (s.flip()) for (size_t i = f.c.size(); i > 1; i--) std::swap(f.c[i - 1], f.c[rnd(i)]);
    return f;
}
// the general mix; big=scale of the larger families; 9 = hard formulas only, 20 = thousands of variables
inline Cnf any(Src& s, int scale, std::string* fam) {
    if (scale == 9) return hard(s, fam); if (scale == 20) return wide(s, 6000, fam);
    static const char* names[] = {"small-mixed", "random-k", "2+p", "parity", "pigeonhole", "colouring", "circuit", "miter", "tiny", "weakened", "long-clauses"};
    unsigned k = s.pick({8, 4, 6, 3, 1, 2, 4, 3, 4, 5, 1}); if (fam) *fam = names[k];
    Cnf f;
    switch (k) {
        case 0: f = smallMixed(s, 14); break;
        case 1: f = s.coin(1, 4) ? randomK(s, 40, 90) : randomK(s, 10, 40 * scale); break;
        case 2: f = mixed23(s, 8, 50 * scale); break;
        case 3: f = parity(s, 14 + 4 * scale); break;
        case 4: f = pigeon(s, 4 + (scale > 1)); break;
        case 5: f = colouring(s, 10 + 4 * scale); break;
        case 6: f = circuitCnf(s, 8, 20 * scale); break;
        case 7: f = miterCnf(s, 6, 10 * scale); break;
        case 9: { unsigned b = s.pick({2, 3, 2, 1, 1, 1}); f = b == 0 ? randomK(s, 12, 40 * scale) : b == 1 ? mixed23(s, 8, 50 * scale) : b == 2 ? smallMixed(s, 14) : b == 3 ? colouring(s, 12) : b == 4 ? parity(s, 14) : pigeon(s, 4); f = weakened(s, f); break; }
        case 10: f = longClauses(s, 60 + 200 * (scale - 1)); break;
        default: f = smallMixed(s, 4);
    }
    if (s.coin(1, 4)) f = disturbed(s, f);
    return f;
}
} // namespace gen
#endif
