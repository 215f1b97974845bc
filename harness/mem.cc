#include "candyapi.h"
#include "candy/mtl/Heap.h"
#include "candy/mtl/BoundedQueue.h"
#include "candy/mtl/Stamp.h"
#include "candy/mtl/Memory.h"
#include "candy/systems/ReduceDB.h"
#include <deque>
using namespace cnd;

// The containers under the solver, each against a model built from the standard library.

struct Key { std::vector<int>* k; bool operator()(int a, int b) const { return (*k)[a] < (*k)[b]; } };
PROPERTY(heap) {
    bool many = src.coin(1, 24); int n = many ? src.range(25, 220) : src.range(1, 24); std::vector<int> key(n); Glucose::Heap<Key> h(Key{&key}); std::set<int> in; unsigned grown = 1 + src.below(n); h.grow(grown); int wide = src.coin(1, 3) ? 3 : many ? 4000 : 40;
    if (many) { grown = n; h.grow(n); std::vector<int> ns; for (int v = 0; v < n; v++) { key[v] = (int)src.below(wide); if (src.coin(7, 8)) ns.push_back(v); } h.build(ns); in = std::set<int>(ns.begin(), ns.end()); ctx.label("many elements"); ctx.show << "start with " << n << " elements\n"; }
    auto any = [&]() { auto it = in.begin(); std::advance(it, src.below(in.size())); return *it; };
    int ops = src.list(1, 80, [&]() {
        switch (src.pick({8, 8, 5, 5, 5, 2, 1, 1})) {
        case 0: { int v = (int)src.below(grown); if (in.count(v)) break; key[v] = (int)src.below(wide); h.insert(v); in.insert(v); ctx.show << "insert " << v << " key " << key[v] << "\n"; break; }
        case 1: { if (in.empty()) break; int v = h.removeMin(); ctx.show << "removeMin\n"; ctx.check(in.count(v), "removeMin returned " + std::to_string(v) + ", which is not in the heap"); for (int o : in) ctx.check(key[v] <= key[o], "removeMin returned key " + std::to_string(key[v]) + " although " + std::to_string(key[o]) + " is in the heap"); in.erase(v); break; }
        case 2: { if (in.empty()) break; int v = any(); key[v] -= (int)src.below(wide); h.decrease(v); ctx.show << "decrease " << v << " to " << key[v] << "\n"; break; }
        case 3: { if (in.empty()) break; int v = any(); key[v] += (int)src.below(wide); h.increase(v); ctx.show << "increase " << v << " to " << key[v] << "\n"; break; }
        case 4: { int v = (int)src.below(grown); key[v] = (int)src.below(wide); h.update(v); in.insert(v); ctx.show << "update " << v << " to " << key[v] << "\n"; break; }
        case 5: { std::vector<int> ns; for (int v = 0; v < (int)grown; v++) if (src.flip()) ns.push_back(v); for (size_t i = ns.size(); i > 1; i--) std::swap(ns[i - 1], ns[src.below(i)]); for (int v : ns) key[v] = (int)src.below(wide); h.build(ns); in = std::set<int>(ns.begin(), ns.end()); ctx.show << "build " << ref::str(ns) << "\n"; break; }
        case 6: h.clear(); in.clear(); ctx.show << "clear\n"; break;
        case 7: { unsigned g = 1 + src.below(n); h.grow(g); grown = std::max(grown, g); break; }
        }
        ctx.check(h.size() == (int)in.size() && h.empty() == in.empty(), "size " + std::to_string(h.size()) + ", expected " + std::to_string(in.size()));
        for (int v = 0; v < n + 2; v++) ctx.check(h.inHeap(v) == (in.count(v) > 0), "inHeap(" + std::to_string(v) + ") is wrong");
        std::set<int> seen; for (int i = 0; i < h.size(); i++) seen.insert(h[i]); ctx.check(seen == in, "the heap array does not hold the elements");
    });
    if (ops > 5) ctx.nontrivial(); int last = INT32_MIN; while (!h.empty()) { int v = h.removeMin(); ctx.check(key[v] >= last, "draining the heap is not in key order"); last = key[v]; ctx.check(in.erase(v), "an element is twice in the heap"); } ctx.check(in.empty(), "elements are lost");
}
PROPERTY(bounded) {
    bool large = src.coin(1, 16); unsigned cap = (unsigned)(large ? src.range(13, 100) : src.range(1, 12)); bqueue<uint32_t> q(cap); std::deque<uint32_t> m; bool pops = src.flip(); ctx.show << "capacity " << cap << "\n"; if (large) { unsigned k = src.below(3 * cap); for (unsigned i = 0; i < k; i++) { uint32_t x = (uint32_t)(i * 7919 % 1000 + src.below(3)); q.push(x); m.push_back(x); if (m.size() > cap) m.pop_front(); } ctx.show << "after " << k << " pushes\n"; }
    int ops = src.list(1, 60, [&]() {
        switch (src.pick({12, 2, pops ? 4u : 0u})) {
        case 0: { uint32_t x = (uint32_t)src.below(src.flip() ? 10 : 100000); q.push(x); m.push_back(x); if (m.size() > cap) m.pop_front(); ctx.show << "push " << x << "\n"; break; }
        case 1: q.fastclear(); m.clear(); ctx.show << "fastclear\n"; break;
        case 2: if (m.empty()) break; ctx.check(q.peek() == m.front(), "peek does not return the oldest element"); q.pop(); m.pop_front(); ctx.show << "pop\n"; break;
        }
        uint64_t sum = 0; for (uint32_t x : m) sum += x;
        ctx.check(q.size() == m.size() && q.isvalid() == (m.size() == cap) && q.maxSize() == cap, "size " + std::to_string(q.size()) + ", expected " + std::to_string(m.size()));
        ctx.check(q.getsum() == sum, "sum " + std::to_string(q.getsum()) + ", the last " + std::to_string(m.size()) + " elements add up to " + std::to_string(sum));
        if (!m.empty()) ctx.check(q.getavg() == sum / m.size(), "average is wrong");
    });
    if (ops > (int)cap) ctx.nontrivial();
}
template<class T> static void stamps(pbt::Src& src, pbt::Ctx& ctx) {
    size_t n = 1 + src.below(10); Stamp<T> s(n); std::vector<bool> m(n, false); bool many = src.coin(1, 3); int clears = 0;
    int ops = src.list(1, 60, [&]() {
        switch (src.pick({10, 5, 4, 1, 1, many ? 3u : 0u})) {
        case 0: { size_t i = src.below(n); s.set((unsigned)i); m[i] = true; break; }
        case 1: { size_t i = src.below(n); s.unset((unsigned)i); m[i] = false; break; }
        case 2: s.clear(); m.assign(n, false); clears++; break;
        case 3: s.grow(); m.push_back(false); n++; break;
        case 4: { size_t g = 1 + src.below(16); s.grow(g); if (g > n) { n = g; m.resize(n, false); } break; }
        case 5: { int k = src.range(100, 300); for (int i = 0; i < k; i++) { s.clear(); } m.assign(n, false); clears += k; break; }
        }
        ctx.check(s.size() == n, "size is wrong"); for (size_t i = 0; i < n; i++) ctx.check(s[(unsigned)i] == m[i], "mark " + std::to_string(i) + (m[i] ? " is lost" : " is set although it was never set since the last clear") + " (after " + std::to_string(clears) + " clears)");
    });
    if (ops > 5) ctx.nontrivial(); if (clears > 256) ctx.label("more clears than stamps of 8 bits");
}
PROPERTY(stamp) { switch (src.below(3)) { case 0: stamps<uint8_t>(src, ctx); break; case 1: stamps<uint32_t>(src, ctx); break; default: stamps<bool>(src, ctx); } }

template<size_t W> struct Blob { uint32_t id; uint32_t pad[W]; };
template<size_t W> static void pool(pbt::Src& src, pbt::Ctx& ctx) {
    typedef Blob<W> B; Memory<B> mem(1); std::vector<uint32_t> model; std::vector<B*> ptr; uint32_t id = 0; const size_t per = (1u << 20) / sizeof(B); bool pages = false; ctx.show << "element size " << sizeof(B) << "\n";
    src.list(1, 8, [&]() {
        switch (src.pick({10, 3, 1})) {
        case 0: { size_t k = src.coin(1, 3) ? per + src.below(5) - 2 : src.below(40); if (src.coin(1, 6)) k += per; ctx.show << "allocate " << k << "\n"; for (size_t i = 0; i < k; i++) { B* b = (B*)mem.allocate(); b->id = (uint32_t)pbt::mix(id++); b->pad[W - 1] = ~b->id; model.push_back(b->id); ptr.push_back(b); } if (model.size() > per) pages = true; break; }
        case 1: ctx.show << "sort\n"; mem.sort([](const B& a, const B& b) { return a.id < b.id; }); std::sort(model.begin(), model.end()); ptr.clear(); for (const B* b : mem) ptr.push_back((B*)b); break;
        case 2: ctx.show << "free\n"; mem.free_all(); model.clear(); ptr.clear(); break;
        }
        size_t i = 0; for (const B* b : mem) { if (i >= model.size()) ctx.fail("iteration yields more elements than were allocated"); if (b->id != model[i] || b->pad[W - 1] != ~model[i]) ctx.fail("element " + std::to_string(i) + " of " + std::to_string(model.size()) + " has another content"); if (b != ptr[i]) ctx.fail("an element moved"); i++; }
        ctx.check(i == model.size(), "iteration yields " + std::to_string(i) + " elements, " + std::to_string(model.size()) + " were allocated"); ctx.check(mem.used() == model.size() * sizeof(B), "used() is wrong");
    });
    if (pages) { ctx.nontrivial(); ctx.label("several pages"); } else if (model.size() > 5) ctx.nontrivial();
}
PROPERTY(memory) { switch (src.below(3)) { case 0: pool<1>(src, ctx); break; case 1: pool<3>(src, ctx); break; default: pool<29>(src, ctx); } }

// clause memory: what was allocated and not deleted is what is collected, at every point of the
// reallocate / phase-out cycle, across page boundaries
struct Item { std::vector<Lit> lits; unsigned weight; Clause* at; bool dead; };
static std::vector<Lit> clauseLits(pbt::Src& s, int maxLen) { std::vector<Lit> v; int k = 1 + (int)s.below(maxLen); for (int i = 0; i < k; i++) v.push_back(Lit((int)s.below(1000), s.flip())); return v; }
static bool same(const Clause* c, const Item& i) { if (c->size() != i.lits.size()) return false; for (size_t k = 0; k < i.lits.size(); k++) if (!((*c)[(int)k] == i.lits[k])) return false; return true; }
// every clause exactly once, compared as multisets of (literals, weight); addresses are learnt back
static void collect(pbt::Ctx& ctx, ClauseAllocatorMemory& mem, std::vector<Item>& items, const char* when) {
    std::vector<Clause*> got = mem.collect(); std::vector<size_t> order; for (size_t i = 0; i < items.size(); i++) if (!items[i].dead) order.push_back(i);
    ctx.check(got.size() == order.size(), std::string(when) + ": " + std::to_string(got.size()) + " clauses are collected, " + std::to_string(order.size()) + " are alive");
    std::multimap<std::pair<std::vector<uint32_t>, unsigned>, size_t> want; auto key = [](const Lit* b, const Lit* e) { std::vector<uint32_t> k; for (; b != e; ++b) k.push_back((uint32_t)(int)*b); return k; };
    for (size_t i : order) want.insert({{key(items[i].lits.data(), items[i].lits.data() + items[i].lits.size()), items[i].weight}, i});
    for (Clause* c : got) { auto it = want.find({key(c->begin(), c->end()), c->getLBD()}); if (it == want.end()) ctx.fail(std::string(when) + ": a collected clause of length " + std::to_string(c->size()) + " is none of the allocated ones (or has another weight)"); items[it->second].at = c; want.erase(it); if (!mem.contains(c)) ctx.fail(std::string(when) + ": contains() denies a collected clause"); }
}
PROPERTY(clausemem) {
    std::deque<ClauseAllocatorMemory> mems; mems.emplace_back(1); mems.emplace_back(1); std::vector<Item> items[2]; std::vector<Item> old[2]; bool phasing[2] = {false, false}; bool many = false; int maxLen = src.coin(1, 3) ? 3 : src.flip() ? 12 : 3000; ClauseAllocator kill;
    int ops = src.list(2, 14, [&]() {
        int w = (int)src.pick({5, 1}); ClauseAllocatorMemory& mem = mems[w]; std::vector<Item>& it = items[w];
        switch (src.pick({10, 5, 4, 3, 1, 2, 2})) {
        case 0: { int k = src.coin(1, 4) ? (maxLen > 1000 ? src.range(100, 400) : src.range(2000, 9000)) : src.range(1, 30); std::vector<Lit> base = clauseLits(src, maxLen); ctx.show << "memory " << w << ": allocate " << k << " clauses of length " << base.size() << " and less\n"; ctx.publish();
            for (int i = 0; i < k; i++) { std::vector<Lit> l(base.begin(), base.begin() + 1 + (size_t)(pbt::mix(it.size() * 7919 + i) % base.size())); l[0] = Lit((int)(it.size() + 1000), w); unsigned lbd = (unsigned)(pbt::mix(i + it.size()) % (l.size() + 1)); Clause* c = new (mem.allocate(l.size())) Clause(l.begin(), l.end(), lbd); it.push_back({l, lbd, c, false}); } break; }
        case 1: { if (it.empty()) break; int k = src.range(1, 4); bool half = src.coin(1, 4); for (size_t i = 0; i < (half ? it.size() : (size_t)k); i++) { size_t j = half ? i : src.below(it.size()); if (half && pbt::mix(i) % 2) continue; if (it[j].dead) continue; kill.deallocate(it[j].at); it[j].dead = true; } ctx.show << "memory " << w << ": delete " << (half ? "half" : "some") << "\n"; break; }
        case 2: { bool was = phasing[w]; if (!was) old[w] = it; mem.reallocate(); ctx.show << "memory " << w << ": reallocate\n"; if (!was) { phasing[w] = !it.empty(); bool pg = false; (void)pg; std::vector<Item> live; for (auto& i : it) if (!i.dead) live.push_back(i); it = live; } break; }
        case 3: mem.free_phase_out_pages(); phasing[w] = false; old[w].clear(); ctx.show << "memory " << w << ": free old pages\n"; break;
        case 4: mem.clear(); it.clear(); old[w].clear(); phasing[w] = false; ctx.show << "memory " << w << ": clear\n"; break;
        case 5: { int o = 1 - w; unsigned lim = (unsigned)src.below(6); if (lim == 5) lim = 20; mem.import(mems[o], lim); ctx.show << "memory " << w << ": import from the other, size limit " << lim << "\n"; for (auto& i : items[o]) if (!i.dead && (i.weight == 0 || lim == 0 || i.lits.size() < lim)) { Item c(i); it.push_back(c); i.dead = true; } break; }
        case 6: { int o = 1 - w; mem.absorb(mems[o]); for (auto& i : items[o]) if (!i.dead) it.push_back(i); items[o].clear(); ctx.show << "memory " << w << ": absorb the other\n"; ctx.check(mems[o].collect().empty(), "an absorbed memory still has clauses"); break; }
        }
        for (int k = 0; k < 2; k++) { collect(ctx, mems[k], items[k], k ? "memory 1" : "memory 0"); if (phasing[k]) for (auto& i : old[k]) ctx.check(same(i.at, i), "a clause on a page that is phased out changed"); size_t b = 0; for (auto& i : items[k]) b += 8 + 4 * (i.lits.size() - 1); if (b > (1u << 20)) many = true; }
    });
    if (ops > 3) ctx.nontrivial(); if (many) ctx.label("several pages");
}

// clause database: reduction keeps what it must, and no other operation loses or invents a clause
PROPERTY(reducedb) {
    resetOptions(); unsigned keep = (unsigned)src.below(5); bool median = src.flip(); ClauseDatabaseOptions::opt_persistent_lbd = keep; ClauseDatabaseOptions::opt_keep_median_lbd = median; ctx.show << "persistent lbd " << keep << ", keep median " << median << "\n";
    int n = src.range(6, 12); if (src.coin(1, 3)) n = src.range(3, 5); ClauseDatabase db; Trail trail; CNFProblem p; for (int i = 0; i < n; i++) p.newVar(); db.init(p); trail.init(n); ReduceDB red(db, trail); std::map<const Clause*, std::pair<std::vector<int>, unsigned>> live; bool reorg = true; int reductions = 0;
    auto lits = [](const Clause* c) { std::vector<int> k; for (Lit l : *c) k.push_back(D(l)); return k; };
    auto compare = [&](const char* what) {
        std::multiset<std::pair<std::vector<int>, unsigned>> want, got; size_t cnt = 0; for (auto& k : live) want.insert(k.second);
        for (const Clause* c : db) { if (c->isDeleted()) continue; cnt++; got.insert({lits(c), c->getLBD()}); ctx.check(c->isPersistent() == (c->getLBD() == 0) && c->isLearnt() == (c->getLBD() > 0), "weight predicates disagree"); } (void)cnt;
        if (want != got) { std::string t; for (auto& k : want) if (!got.count(k)) t += " missing: " + ref::str(k.first) + " (lbd " + std::to_string(k.second) + ")"; for (auto& k : got) if (!want.count(k)) t += " extra: " + ref::str(k.first) + " (lbd " + std::to_string(k.second) + ")"; ctx.fail(std::string(what) + ":" + t); }
        // binary watchers list exactly the live binary clauses
        std::multiset<std::pair<int, int>> bw, bg; for (auto& k : live) if (k.second.first.size() == 2) { int a = k.second.first[0], b = k.second.first[1]; bw.insert({-a, b}); bw.insert({-b, a}); }
        for (int v = 0; v < n; v++) for (int s = 0; s < 2; s++) for (BinaryWatcher w : db.getBinaryWatchers(Lit(v, s))) { bg.insert({D(Lit(v, s)), D(w.other)}); ctx.check(live.count(w.clause) && w.clause->contains(w.other) && w.clause->contains(~Lit(v, s)), std::string(what) + ": a binary watcher points to another clause"); }
        ctx.check(bw == bg, std::string(what) + ": the binary watchers are not the binary clauses"); std::multiset<int> uw, ug; for (auto& k : live) if (k.second.first.size() == 1) uw.insert(k.second.first[0]); for (Clause* c : db.getUnitClauses()) { ug.insert(D(c->first())); ctx.check(c->size() == 1, "a unit clause of another size"); } ctx.check(uw == ug, std::string(what) + ": getUnitClauses differs");
    };
    if (n > 5 && src.coin(1, 40)) { // more candidates than small histories have
        int k = src.range(60, 400); for (int i = 0; i < k; i++) { std::vector<Lit> v; int len = 3 + (int)src.below(std::min(n - 3, 6)), a = (int)src.below(n); for (int j = 0; j < len; j++) v.push_back(Lit((a + j) % n, (i >> j) & 1)); unsigned lbd = (unsigned)src.below(v.size() + 1); const Clause* c = db.createClause(v.begin(), v.end(), lbd); live[c] = {DV(v), (unsigned)c->getLBD()}; } ctx.show << "create " << k << " clauses\n"; compare("create many"); ctx.label("many clauses"); }
    src.list(2, 30, [&]() {
        switch (src.pick({16, 3, 3, 3, 3})) {
        case 0: { int k = src.range(1, 6); for (int i = 0; i < k; i++) { std::set<int> vs; int len = 1 + (int)src.below(std::min(n, 8)); while ((int)vs.size() < len) vs.insert((int)src.below(n)); std::vector<Lit> v; for (int x : vs) v.push_back(Lit(x, src.flip())); unsigned lbd = (unsigned)src.below(v.size() + 1); const Clause* c = db.createClause(v.begin(), v.end(), lbd); ctx.check(c->getLBD() == (v.size() < 3 ? 0 : lbd), "createClause stored weight " + std::to_string(c->getLBD())); live[c] = {DV(v), (unsigned)c->getLBD()}; ctx.check(lits(c) == DV(v), "createClause stored other literals"); ctx.show << "create " << ref::str(DV(v)) << " lbd " << lbd << "\n"; } compare("create"); break; }
        case 1: { if (live.empty()) break; std::vector<const Clause*> all; for (const Clause* c : db) if (live.count(c)) all.push_back(c); Clause* c = (Clause*)all[src.below(all.size())]; ctx.show << "remove " << ref::str(lits(c)) << "\n"; live.erase(c); db.removeClause(c); ctx.check(c->isDeleted(), "a removed clause is not marked"); compare("remove"); break; }
        case 2: { std::vector<const Clause*> all; for (const Clause* c : db) if (live.count(c) && c->size() > 1) all.push_back(c); if (all.empty()) break; Clause* c = (Clause*)all[src.below(all.size())]; Lit l = (*c)[(int)src.below(c->size())]; std::vector<int> k = lits(c); k.erase(std::find(k.begin(), k.end(), D(l))); unsigned w = c->getLBD(); live.erase(c); Clause* nc = db.strengthenClause(c, l); ctx.show << "strengthen to " << ref::str(k) << "\n"; unsigned e = k.size() < 3 ? 0 : std::min(w, (unsigned)k.size()); ctx.check(lits(nc) == k && nc->getLBD() == e, "strengthenClause made " + ref::str(lits(nc)) + " with weight " + std::to_string(nc->getLBD()) + ", expected " + ref::str(k) + " with " + std::to_string(e)); live[nc] = {k, e}; compare("strengthen"); break; }
        case 3: { ctx.show << "reorganize\n"; db.reorganize(); std::map<const Clause*, std::pair<std::vector<int>, unsigned>> nl; std::multimap<std::pair<std::vector<int>, unsigned>, int> w; for (auto& k : live) w.insert({k.second, 0}); for (const Clause* c : db) { ctx.check(!c->isDeleted(), "a deleted clause survives"); auto it = w.find({lits(c), c->getLBD()}); ctx.check(it != w.end(), "reorganize produced " + ref::str(lits(c)) + " with weight " + std::to_string(c->getLBD())); w.erase(it); nl[c] = {lits(c), c->getLBD()}; } ctx.check(w.empty(), "reorganize lost " + (w.empty() ? "" : ref::str(w.begin()->first.first))); live = nl; compare("reorganize"); reorg = true; break; }
        case 4: { ctx.show << "reduce\n"; std::vector<const Clause*> cand; for (const Clause* c : db) if (live.count(c) && c->getLBD() > keep) cand.push_back(c); std::vector<unsigned> ws; for (const Clause* c : cand) ws.push_back(c->getLBD()); std::sort(ws.begin(), ws.end()); size_t calls = red.nReduceCalls(); red.reduce();
            std::vector<unsigned> kept, gone; for (auto it = live.begin(); it != live.end();) { if (it->first->isDeleted()) { ctx.check(it->second.second > keep, "reduction removed " + ref::str(it->second.first) + " with lbd " + std::to_string(it->second.second)); gone.push_back(it->second.second); it = live.erase(it); } else { if (it->second.second > keep) kept.push_back(it->second.second); ++it; } }
            size_t want = ws.size() < 2 ? 0 : ws.size() - ws.size() / 2; if (median && want) { unsigned m = ws[ws.size() / 2]; want = 0; for (unsigned x : ws) if (x > m) want++; }
            ctx.check(gone.size() == want, "reduction removed " + std::to_string(gone.size()) + " of " + std::to_string(ws.size()) + " candidates, expected " + std::to_string(want));
            if (!gone.empty() && !kept.empty()) ctx.check(*std::max_element(kept.begin(), kept.end()) <= *std::min_element(gone.begin(), gone.end()), "reduction kept a clause of higher lbd than one it removed");
            ctx.check(red.nReduceCalls() == calls + (ws.size() > 1), "reduction counter"); compare("reduce"); if (want) { reductions++; ctx.label(median ? "reduced, median kept" : "reduced"); } break; }
        }
    });
    (void)reorg; if (reductions || live.size() > 5) ctx.nontrivial();
}
PBT_MAIN
