// Fingerprints: MD5 against an independent implementation, gbd_hash and degree_hash against their meaning.
#include "candyapi.h"
#include "scratch.h"
#include "candy/gbd/hash.h"
#include "candy/gbd/md5/md5.h"
#include <cmath>
using namespace cnd;

static std::string refMd5(const std::string& in) { // RFC 1321, written from the specification
    static const int r[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
    uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476; std::string m = in; uint64_t bits = (uint64_t)in.size() * 8; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; for (int i = 0; i < 8; i++) m += (char)(bits >> (8 * i));
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = (uint8_t)m[o + 4 * i] | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 8 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 3] << 24;
        uint32_t A = a0, B = b0, C = c0, Dd = d0;
        for (int i = 0; i < 64; i++) { uint32_t F; int g; if (i < 16) { F = (B & C) | (~B & Dd); g = i; } else if (i < 32) { F = (Dd & B) | (~Dd & C); g = (5 * i + 1) % 16; } else if (i < 48) { F = B ^ C ^ Dd; g = (3 * i + 5) % 16; } else { F = C ^ (B | ~Dd); g = (7 * i) % 16; }
            uint32_t k = (uint32_t)(uint64_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0); F += A + k + w[g]; A = Dd; Dd = C; C = B; B += F << r[i] | F >> (32 - r[i]); }
        a0 += A; b0 += B; c0 += C; d0 += Dd;
    }
    std::string out; for (uint32_t v : {a0, b0, c0, d0}) for (int i = 0; i < 4; i++) { char b[4]; snprintf(b, 4, "%02x", (v >> (8 * i)) & 255); out += b; } return out;
}
PROPERTY(digest) {
    unsigned k = src.pick({3, 4, 2}); int len = k == 0 ? src.range(0, 200) : k == 1 ? std::max(0, 64 * src.range(0, 6) + src.range(0, 20) - 10) : src.range(0, 5000); uint64_t x = src.below(1u << 30); unsigned alpha = src.pick({2, 1, 1}); std::string s;
    for (int i = 0; i < len; i++) { x = pbt::mix(x); s += (char)(alpha == 0 ? x & 255 : alpha == 1 ? '0' + x % 10 : 255); }
    std::vector<size_t> cuts; int c = src.list(0, 8, [&]() { cuts.push_back(src.below(s.size() + 1)); }); std::sort(cuts.begin(), cuts.end()); cuts.push_back(s.size());
    unsigned off = (unsigned)src.below(8); std::string padded = std::string(off, 'x') + s; // unaligned input
    ctx.show << "length " << len << ", seed of the bytes " << x << ", cut at"; for (size_t p : cuts) ctx.show << " " << p; ctx.publish();
    unsigned char sig[MD5_SIZE]; char str[MD5_STRING_SIZE]; md5::md5_t m; size_t at = 0; for (size_t p : cuts) { m.process(padded.data() + off + at, p - at); at = p; } m.finish(sig); md5::sig_to_string(sig, str, sizeof str);
    { unsigned char g[MD5_SIZE]; char t[MD5_STRING_SIZE + 1]; memset(t, 'x', sizeof t); t[MD5_STRING_SIZE] = 0; m.get_sig(g); m.get_string(t); ctx.check(memcmp(g, sig, sizeof g) == 0, "get_sig() differs from the signature of finish()"); ctx.check(std::string(t) == str, std::string("get_string() gives ") + t + " for " + str); }
    std::string want = refMd5(s); ctx.check(want == str, std::string("MD5 fed in pieces is ") + str + ", must be " + want);
    unsigned char sig2[MD5_SIZE]; md5::md5_t one(padded.data() + off, (unsigned)s.size(), sig2); ctx.check(memcmp(sig, sig2, sizeof sig) == 0, "MD5 of the whole differs from MD5 fed in pieces");
    unsigned char back[MD5_SIZE]; md5::sig_from_string(back, str); ctx.check(memcmp(sig, back, sizeof sig) == 0, "reading the digits back gives another signature");
    if (len > 0 && c > 0) ctx.nontrivial();
}
// long messages (the length field passes 32 bits): a block repeated, judged by a reference that works block by block
struct Md5Ref {
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}, T[64]; Md5Ref() { for (int i = 0; i < 64; i++) T[i] = (uint32_t)(uint64_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0); }
    void block(const unsigned char* p) {
        static const int r[16] = {7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21}; uint32_t w[16]; memcpy(w, p, 64); uint32_t A = h[0], B = h[1], C = h[2], E = h[3];
        for (int i = 0; i < 64; i++) { uint32_t F; int g; if (i < 16) { F = (B & C) | (~B & E); g = i; } else if (i < 32) { F = (E & B) | (~E & C); g = (5 * i + 1) & 15; } else if (i < 48) { F = B ^ C ^ E; g = (3 * i + 5) & 15; } else { F = C ^ (B | ~E); g = (7 * i) & 15; } F += A + T[i] + w[g]; A = E; E = C; C = B; int k = r[(i >> 4) * 4 + (i & 3)]; B += F << k | F >> (32 - k); }
        h[0] += A; h[1] += B; h[2] += C; h[3] += E;
    }
    std::string end(const unsigned char* rest, size_t k, uint64_t total) { std::string m((const char*)rest, k); m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; for (int i = 0; i < 8; i++) m += (char)((total * 8) >> (8 * i)); for (size_t o = 0; o < m.size(); o += 64) block((const unsigned char*)m.data() + o); std::string out; for (uint32_t v : h) for (int i = 0; i < 4; i++) { char b[4]; snprintf(b, 4, "%02x", (v >> (8 * i)) & 255); out += b; } return out; }
};
static void longMessage(pbt::Src& src, pbt::Ctx& ctx, bool giga) {
    bool huge = giga || src.coin(1, 10); uint64_t total = giga ? (1ull << 32) + src.below(300) - 150 : huge ? (src.coin(1, 5) ? 1ull << 30 : 1ull << 29) + src.below(200) - 100 : (1ull << src.range(13, 23)) + src.below(400) - 200; size_t piece = huge ? (1u << 20) + 64 * src.below(3) : src.pick({1, 1, 1}) ? (size_t)src.range(1, 1 << 17) : 64u << src.below(12); if (piece < 2000) piece = std::max<size_t>(piece, total / 4000 + 1); uint64_t x = src.below(1u << 30);
    std::string buf(piece, 0); for (auto& c : buf) { x = pbt::mix(x); c = (char)x; } ctx.show << "message of " << total << " bytes, repeating a block of " << piece << " bytes"; ctx.publish();
    md5::md5_t m; for (uint64_t at = 0; at < total;) { uint64_t k = std::min<uint64_t>(piece, total - at); m.process(buf.data(), (unsigned)k); at += k; } unsigned char sig[MD5_SIZE]; char str[MD5_STRING_SIZE]; m.finish(sig); md5::sig_to_string(sig, str, sizeof str);
    Md5Ref q; unsigned char blk[64]; size_t fill = 0; uint64_t at = 0; while (at < total) { uint64_t k = std::min<uint64_t>(piece, total - at); size_t o = 0; if (fill) { size_t t = std::min<size_t>(64 - fill, k); memcpy(blk + fill, buf.data(), t); fill += t; o = t; if (fill == 64) { q.block(blk); fill = 0; } } for (; o + 64 <= k; o += 64) q.block((const unsigned char*)buf.data() + o); if (o < k) { memcpy(blk + fill, buf.data() + o, k - o); fill += k - o; } at += k; }
    std::string want = q.end(blk, fill, total); ctx.check(want == str, std::string("MD5 is ") + str + ", must be " + want); ctx.label(huge ? "half a gigabyte or more" : "kilobytes to megabytes"); ctx.nontrivial();
}
PROPERTY(digestlong) { longMessage(src, ctx, false); }
PROPERTY(digestgiga) { longMessage(src, ctx, true); } // the byte count passes 32 bits
static std::vector<ref::Cl> seq(const CNFProblem& p) { std::vector<ref::Cl> r; for (auto c : p) { ref::Cl k; for (Lit l : *c) k.push_back(D(l)); r.push_back(k); } return r; }
static std::string render(pbt::Src& s, const ref::Cnf& f) { // one of many ways to write the same clauses
    std::string t; if (s.flip()) t += "c a comment\n"; if (!s.coin(1, 5)) t += "p cnf " + std::to_string(ref::maxVar(f)) + (s.flip() ? "  " : " ") + std::to_string(f.c.size()) + "\n"; unsigned sep = s.pick({4, 1, 1});
    for (auto& c : f.c) { if (sep != 2 && s.coin(1, 8)) t += "c 1 0\n"; for (int l : c) t += std::to_string(l) + (s.coin(1, 6) ? sep != 2 ? "\n" : "  " : " "); t += sep == 2 ? "0 " : sep == 1 ? "0 \r\n" : "0\n"; } return t;
}
static void read(CNFProblem& p, const std::string& t) { std::string fn = scratch::file(".cnf"); scratch::Rm rm{fn}; scratch::spit(fn, t); p.readDimacsFromFile(fn.c_str()); }
static ref::Cnf formula(pbt::Src& s) { if (s.coin(1, 3)) return s.coin(1, 60) ? gen::wide(s, 2000) : gen::any(s, 1); ref::Cnf f = gen::smallMixed(s, s.flip() ? 5 : 14); if (s.coin(1, 3)) for (auto& c : f.c) for (int& l : c) if (std::abs(l) > 3) l += (l > 0 ? 1 : -1) * 8; return f; }
PROPERTY(gbd) {
    resetOptions(); ref::Cnf f = formula(src), g = f; std::string what = "same clauses, written differently";
    if (!src.coin(1, 4) && !f.c.empty()) {
        size_t i = src.below(g.c.size()); unsigned k = src.pick({3, 3, 2, 2, 2, 2, 2, 1}); ref::Cl& c = g.c[i];
        if (k == 0 && !c.empty()) { size_t j = src.below(c.size()); c[j] = -c[j]; what = "one sign changed"; }
        else if (k == 1 && !c.empty()) { int& l = c[src.below(c.size())]; int d = src.range(1, 12); l = l > 0 ? l + d : l - d; what = "one variable changed"; }
        else if (k == 2) { g.c.erase(g.c.begin() + i); what = "one clause removed"; }
        else if (k == 3) { g.c.insert(g.c.begin() + i, g.c[src.below(g.c.size())]); what = "one clause repeated"; }
        else if (k == 4) { std::swap(g.c[i], g.c[src.below(g.c.size())]); what = "two clauses swapped"; }
        else if (k == 5 && i + 1 < g.c.size() && !g.c[i + 1].empty()) { c.push_back(g.c[i + 1].front()); g.c[i + 1].erase(g.c[i + 1].begin()); what = "a clause border moved"; }
        else if (k == 6 && i + 1 < g.c.size()) { ref::Cl n = g.c[i + 1]; c.insert(c.end(), n.begin(), n.end()); g.c.erase(g.c.begin() + i + 1); what = "two clauses joined"; }
        else if (k == 7) { int d = 10; for (auto& e : g.c) for (int& l : e) if (std::abs(l) == 1) l *= d; what = "1 written as 10"; }
    }
    std::string ta = render(src, f), tb = render(src, g); ctx.show << what << "\n" << ta << "---\n" << tb; ctx.publish();
    CNFProblem p, q; read(p, ta); read(q, tb); bool same = seq(p) == seq(q); std::string a = Hash(p).gbd_hash(), b = Hash(q).gbd_hash();
    for (const std::string& h : {a, b}) ctx.check(h.size() == 32 && h.find_first_not_of("0123456789abcdef") == std::string::npos, "the hash is not 32 hexadecimal digits: " + h);
    if (same) ctx.check(a == b, "the same clauses have the hashes " + a + " and " + b); else ctx.check(a != b, "different clause lists have the same hash");
    if (f.c.size() > 1) ctx.nontrivial(); ctx.label(same ? "same clauses" : what);
}
static std::vector<long> degrees(const std::vector<ref::Cl>& cs) { // occurrences per literal after removing what the given unit clauses settle
    std::set<int> u; for (auto& c : cs) if (c.size() == 1) u.insert(c[0]); std::map<int, long> d;
    for (auto& c : cs) { bool sat = false; for (int l : c) if (u.count(l)) sat = true; if (!sat) for (int l : c) if (!u.count(-l)) d[l]++; }
    std::vector<long> r; for (auto& x : d) r.push_back(x.second); std::sort(r.begin(), r.end()); return r;
}
PROPERTY(degree) {
    resetOptions(); ref::Cnf f = formula(src); if (src.coin(1, 3) && !f.c.empty()) { int k = src.range(1, 3); for (int i = 0; i < k; i++) f.c.insert(f.c.begin() + src.below(f.c.size() + 1), ref::Cl{ref::lit(src, ref::maxVar(f))}); }
    if (src.coin(1, 12)) { int n0 = std::max(1, ref::maxVar(f)), hub = ref::lit(src, n0), m = src.range(60, src.coin(1, 3) ? 1100 : 140), w = src.range(3, 20); for (int i = 0; i < m; i++) f.c.push_back({hub, n0 + 1 + i % w, n0 + w + 2 + (i / w) % 9}); ctx.label("hub"); }
    int n = ref::maxVar(f); ref::Cnf g = f; std::vector<int> map(n + 1); for (int i = 1; i <= n; i++) map[i] = i; for (int i = 1; i <= n; i++) std::swap(map[i], map[i + src.below(n - i + 1)]);
    for (int i = 1; i <= n; i++) if (src.coin(1, 3)) map[i] = -map[i];
    int gap = src.coin(1, 4) ? src.range(1, 5) : 0; for (auto& c : g.c) { for (int& l : c) { int m = map[std::abs(l)]; m += m > 0 ? gap : -gap; l = l > 0 ? m : -m; } for (size_t j = 0; j + 1 < c.size(); j++) std::swap(c[j], c[j + src.below(c.size() - j)]); }
    for (size_t i = 0; i + 1 < g.c.size(); i++) std::swap(g.c[i], g.c[i + src.below(g.c.size() - i)]);
    bool other = src.coin(1, 3) && !g.c.empty(); if (other) { size_t i = src.below(g.c.size()); if (src.flip() && !g.c[i].empty()) g.c[i][src.below(g.c[i].size())] *= -1; else g.c.erase(g.c.begin() + i); }
    ctx.show << ref::dimacs(f) << "--- renamed and shuffled" << (other ? ", one place changed" : "") << "\n" << ref::dimacs(g); ctx.publish();
    CNFProblem p, q; load(p, f); load(q, g); std::vector<long> dp = degrees(seq(p)), dq = degrees(seq(q)); std::string a = Hash(p).degree_hash(), b = Hash(q).degree_hash();
    std::string t; for (long d : dp) t += (t.empty() ? "" : " ") + std::to_string(d);
    if (dp == dq) ctx.check(a == b, "the degree hash depends on the order or the names: " + a + " and " + b); else ctx.check(a != b, "formulas with different literal degrees have the same degree hash");
    ctx.check(a == refMd5(t), "the degree hash is not the one of the literal degrees " + t);
    if (f.c.size() > 2) ctx.nontrivial(); ctx.label(dp == dq ? "same degrees" : "different degrees");
}
PBT_MAIN
