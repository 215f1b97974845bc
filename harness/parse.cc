// Reading DIMACS: well-formed text is read exactly, anything else is refused with a ParserException.
#include "candyapi.h"
#include "scratch.h"
#include "candy/utils/Exceptions.h"
#include <zlib.h>
#include <sys/stat.h>
using namespace cnd;

static ref::Cl normal(ref::Cl c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
static bool taut(const ref::Cl& c) { for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) return true; return false; }
typedef std::multiset<ref::Cl> Bag;
static Bag bag(const CNFProblem& p) { Bag b; for (auto c : p) { ref::Cl k; for (Lit l : *c) k.push_back(D(l)); std::sort(k.begin(), k.end()); b.insert(k); } return b; }
struct Expect { Bag b; int maxv = 0; size_t n = 0; void add(const ref::Cl& c) { n++; for (int l : c) maxv = std::max(maxv, std::abs(l)); if (!taut(c)) b.insert(normal(c)); } };
static std::string gz(const std::string& s, int level) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
    std::string o(compressBound(s.size()) + 64, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
// how the text reaches the reader
enum Way { PLAIN, GZIP, MULTIGZ, STDIN, STDINGZ, PIPE };
static const char* wayName[] = {"file", "gzip file", "gzip file of two members", "standard input", "gzip on standard input", "pipe on standard input"};
static std::string packed(const std::string& t, Way w, size_t cut) { if (w == GZIP || w == STDINGZ) return gz(t, 1); if (w == MULTIGZ) return gz(t.substr(0, cut), 1) + gz(t.substr(cut), 6); return t; }
static std::string readBytes(CNFProblem& p, const std::string& bytes, Way w) {
    std::string fn = scratch::file(".cnf"); scratch::Rm rm{fn}; int keep = -1, fd[2] = {-1, -1}; pid_t kid = 0;
    if (w == PIPE) { if (pipe(fd)) throw pbt::Discard(); kid = fork(); if (kid == 0) { close(fd[0]); size_t o = 0; while (o < bytes.size()) { ssize_t k = write(fd[1], bytes.data() + o, std::min<size_t>(bytes.size() - o, 1 + o % 7000)); if (k <= 0) break; o += k; } _exit(0); } close(fd[1]); if (fd[0] != 0) { dup2(fd[0], 0); close(fd[0]); } }
    else { scratch::spit(fn, bytes); if (w == STDIN || w == STDINGZ) { keep = open(fn.c_str(), O_RDONLY); if (keep != 0) { dup2(keep, 0); close(keep); } } }
    std::string err;
    try { if (w >= STDIN) p.readDimacsFromStdin(); else p.readDimacsFromFile(fn.c_str()); }
    catch (ParserException& e) { err = std::string("rejected: ") + e.what(); if (err == "rejected: ") err += "(no message)"; }
    if (kid) { int nul = open("/dev/null", O_RDONLY); if (nul != 0) { dup2(nul, 0); close(nul); } int st; waitpid(kid, &st, 0); }
    return err;
}
static std::string shown(const std::string& t) { std::string o; auto put = [&](unsigned char ch) { if (ch == '\n') o += "\\n\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } else o += ch; };
    std::string run; size_t i = 0; while (i < t.size()) { size_t j = i; while (j < t.size() && t[j] == t[i]) j++; if (j - i > 40) { put(t[i]); o += "{" + std::to_string(j - i) + " times}"; } else for (size_t k = i; k < j; k++) put(t[i]); i = j; if (o.size() > 6000) { o += "..."; break; } } return o; }

static const int CHUNK = 1024 * 1024; // the reader's buffer size: texts around multiples of it exercise refilling
static std::string ws(pbt::Src& s, bool line) { static const char* w[] = {" ", "  ", "\t", "\n", " \n", "\r\n", "\n\n ", " \t "}; return w[s.below(line ? 8 : 3)]; }
static std::string num(pbt::Src& s, int l) { std::string z = s.coin(1, 40) ? std::string(s.range(1, 12), '0') : ""; return (l < 0 ? "-" : "") + z + std::to_string(std::abs(l)); }
static std::string comment(pbt::Src& s) { static const char* w[] = {"c", "c hello", "c 1 2 0", "c p cnf 3 3", "cnf 5", "c \t -3 0 ", "c\t", "c 0 % x"}; std::string t = w[s.below(8)]; if (s.coin(1, 10)) t += std::string(s.range(1, 300), 'x'); return t + (s.coin(1, 6) ? "\r\n" : "\n"); }
// a rendering of the clauses; padTo > 0: pads between clauses so that the text crosses that position close to a clause
static std::string render(pbt::Src& s, const ref::Cnf& f, long padTo) {
    std::string t; if (s.coin(1, 5)) t += ws(s, true); while (s.coin(1, 4)) t += comment(s);
    unsigned h = s.pick({6, 1, 2, 1}); long hv = ref::maxVar(f), hc = (long)f.c.size(); if (h == 2) { hv = s.range(0, 2000); hc = s.range(0, 100000); } if (h == 3) { hc = 1000000000L + s.below(1000000); hv = 1000; }
    if (h != 1) t += "p cnf" + std::string(s.coin(1, 8) ? "\t" : " ") + std::to_string(hv) + ws(s, false) + std::to_string(hc) + (s.coin(1, 6) ? " \r\n" : "\n");
    bool multi = s.coin(1, 3), lines = !s.coin(1, 6); int oneLine = lines ? 0 : 1; size_t padAt = padTo > 0 && !f.c.empty() ? s.below(f.c.size()) : ~0ull; size_t i = 0;
    for (auto& c : f.c) {
        if (i++ == padAt) { // padding: a run of blanks, of newlines, a comment, or many comments
            long need = padTo - (long)t.size() - (long)s.below(40); if (need > 3) { if (!t.empty() && t.back() != '\n') { t += "\n"; need--; } unsigned k = s.pick({2, 2, 3, 3, 1});
                if (k == 0) t += std::string(need, ' '); else if (k == 1) t += std::string(need, '\n'); else if (k == 2) t += "c " + std::string(need - 2, 'x') + "\n"; else if (k == 3) { std::string line = "c 17 0 some comment\n"; while (need > (long)line.size()) { t += line; need -= line.size(); } if (need > 1) t += "c" + std::string(need - 2, ' ') + "\n"; } else t += "c" + std::string(need - 1, 'c') + "\n"; } }
        if (!oneLine && s.coin(1, 12)) { if (!t.empty() && t.back() != '\n') t += "\n"; t += comment(s); }
        if (s.coin(1, 20)) t += ws(s, !oneLine);
        for (int l : c) { std::string x = num(s, l); if (padTo > 0 && s.coin(1, 6)) x.insert(x[0] == '-' || x[0] == '+' ? 1 : 0, std::string(s.range(1, 40), '0')); t += x + ws(s, multi && !oneLine); }
        t += s.coin(1, 60) ? "00" : "0"; t += oneLine ? " " : s.coin(1, 8) ? ws(s, true) : "\n";
    }
    unsigned e = s.pick({4, 2, 1, 1}); if (e == 1) while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); if (e == 2) t += " \n\n\t"; if (e == 3) { if (!t.empty() && t.back() != '\n') t += "\n"; t += "c the end"; }
    return t;
}
static ref::Cnf formula(pbt::Src& s) {
    ref::Cnf f; f.n = s.pick({6, 2, 1}) == 0 ? s.range(1, 12) : s.range(1, 400); int m = s.coin(1, 10) ? 200 : 12; int big = s.coin(1, 8) ? (s.flip() ? 1 << 30 : 100000000) : 0;
    s.list(0, m, [&]() { int k = (int)s.pick({1, 3, 5, 6, 3, 1}); if (s.coin(1, 30)) k = s.range(5, 80); ref::Cl c; for (int i = 0; i < k; i++) c.push_back(ref::lit(s, f.n)); if (big && s.coin(1, 4) && k) { int v = big - (int)s.below(5); c[s.below(c.size())] = s.flip() ? -v : v; } f.c.push_back(c); });
    return f;
}
static void compare(pbt::Ctx& ctx, const CNFProblem& p, const Expect& e) {
    Bag b = bag(p); if (b != e.b) { std::string d; for (auto& c : e.b) if (b.count(c) != e.b.count(c)) { d = "clause (" + ref::str(c) + ") expected " + std::to_string(e.b.count(c)) + " times, found " + std::to_string(b.count(c)); break; } if (d.empty()) for (auto& c : b) if (b.count(c) != e.b.count(c)) { d = "clause (" + ref::str(c) + ") expected " + std::to_string(e.b.count(c)) + " times, found " + std::to_string(b.count(c)); break; } ctx.fail("the clauses read differ from the text: " + d); }
    ctx.check((int)p.nVars() == e.maxv, "nVars() is " + std::to_string(p.nVars()) + ", the largest variable in the text is " + std::to_string(e.maxv));
    ctx.check(p.nClauses() == e.b.size(), "nClauses() differs from the number of clauses");
}
PROPERTY(wellformed) {
    resetOptions(); ref::Cnf f = formula(src); long pad = src.coin(1, 5) ? CHUNK * (long)src.range(1, 2) : 0; std::string t = render(src, f, pad);
    if (pad && src.flip()) { ref::Cnf g = formula(src); std::string u = render(src, g, 0); size_t at = u.find("p cnf"); if (at == std::string::npos) { if (!t.empty() && t.back() != '\n') t += "\n"; t += u; for (auto& c : g.c) f.c.push_back(c); } }
    if (src.coin(1, 12)) { // a long text of real clauses, several buffers long
        ref::Cl c; std::string big; long target = CHUNK + src.range(0, 3 * CHUNK / 2); int seed = src.range(1, 1000000); uint64_t x = seed; bool eol = src.flip(); unsigned brk = 1 + (unsigned)src.below(40);
        if (!t.empty() && !isspace((unsigned char)t.back())) t += "\n";
        while ((long)t.size() + (long)big.size() < target) { c.clear(); x = pbt::mix(x); int k = 1 + x % 6; for (int i = 0; i < k; i++) { x = pbt::mix(x); int v = 1 + (int)(x % 99991); c.push_back(x & (1ull << 40) ? -v : v); } for (int l : c) { x = pbt::mix(x); big += std::to_string(l) + (x % brk == 0 && brk < 30 && eol ? "\n" : " "); } big += eol ? "0\n" : "0 "; f.c.push_back(c); }
        t += big; ctx.label("several buffers of clauses");
    }
    Way w = (Way)src.pick({6, 3, 1, 2, 1, 1}); size_t cut = t.empty() ? 0 : src.below(t.size());
    ctx.show << wayName[w] << "\n" << shown(t); ctx.publish();
    Expect e; for (auto& c : f.c) e.add(c);
    CNFProblem p; std::string err = readBytes(p, packed(t, w, cut), w); ctx.check(err.empty(), "a well-formed formula is " + err);
    compare(ctx, p, e); if (f.c.size() > 2) ctx.nontrivial(); ctx.label(wayName[w]); if ((long)t.size() >= CHUNK) ctx.label("longer than the buffer");
    if (src.coin(1, 6)) { // reading a second file adds to the problem
        ref::Cnf g = formula(src); for (auto& c : g.c) e.add(c); std::string u = render(src, g, 0); ctx.show << "then\n" << shown(u); ctx.publish(); err = readBytes(p, u, PLAIN); ctx.check(err.empty(), "a well-formed formula is " + err); compare(ctx, p, e); }
}
PROPERTY(malformed) {
    resetOptions(); ref::Cnf f = formula(src); while (f.c.empty() || f.c.back().empty()) f.c.push_back({1 + (int)src.below(f.n), -1 - (int)src.below(f.n)});
    long pad = src.coin(1, 10) ? CHUNK : 0; std::string t; Way w = PLAIN; std::string what; std::string bytes; unsigned kind = src.pick({3, 4, 3, 3, 3, 1});
    static const char* junk[] = {"x", "*", "#", "%", "a1", "-", "--3", "3-", "1.5", "0x1", "e5", "1e5", "$", ".", "\x80", "_", "-x", "7y"};
    static const char* big[] = {"2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "-4294967297", "9223372036854775807", "-9223372036854775807", "9223372036854775806", "4611686018427387905", "-4611686018427387904", "9223372036854775808", "99999999999999999999999", "-99999999999999999999999", "2147483647", "1073741825", "-1073741826"};
    auto text = [&](ref::Cnf g) { return render(src, g, pad); };
    if (kind == 0) { // the last clause has no end
        what = "unterminated last clause"; t = text(f); while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); ref::Cl c; src.list(1, 4, [&]() { c.push_back(ref::lit(src, f.n)); }); t += "\n"; for (int l : c) t += std::to_string(l) + " "; if (src.flip()) t.pop_back(); if (src.coin(1, 3)) t += "\n";
    } else if (kind == 1 || kind == 2) { // a token that is no literal
        std::string tok = kind == 1 ? junk[src.below(sizeof junk / sizeof *junk)] : big[src.below(sizeof big / sizeof *big)]; what = (kind == 1 ? "junk token " : "number out of range ") + tok; ref::Cnf a, b; a.n = b.n = f.n; size_t cut = src.below(f.c.size()); a.c.assign(f.c.begin(), f.c.begin() + cut); b.c.assign(f.c.begin() + cut, f.c.end());
        t = a.c.empty() && src.flip() ? "" : text(a); if (!t.empty() && t.back() != '\n') t += "\n"; ref::Cl c = b.c[0]; size_t at = src.below(c.size() + 1); for (size_t i = 0; i <= c.size(); i++) { if (i == at) t += tok + ws(src, src.coin(1, 6)); if (i < c.size()) t += std::to_string(c[i]) + " "; } t += "0\n"; for (size_t i = 1; i < b.c.size(); i++) { for (int l : b.c[i]) t += std::to_string(l) + " "; t += "0\n"; }
    } else if (kind == 3) { // bad header
        static const char* hd[] = {"p cnf -1 3\n", "p cnf 3 -1\n", "p cnf x 3\n", "p cnf 3 y\n", "p dnf 3 3\n", "p\n", "p cn", "pcnf 1 1\n", "p wcnf 1 1 1\n", "q cnf 1 1\n", "p cnf 99999999999999999999 1\n", "p cnf 9223372036854775807 1\n", "p cnf"}; std::string h = hd[src.below(13)]; what = "bad header " + shown(h); ref::Cnf e; e.n = 1; if (src.flip()) t += comment(src); t += h; if (h.back() == '\n') for (auto& c : f.c) { for (int l : c) t += std::to_string(l) + " "; t += "0\n"; }
    } else if (kind == 4) { // damaged gzip data (shorter than the buffer: zlib itself misses some truncations after a full read)
        pad = 0;
        t = text(f); w = src.coin(1, 3) ? STDINGZ : GZIP; bytes = gz(t, 1 + (int)src.below(9)); unsigned d = src.pick({3, 1, 1}); size_t at = 0;
        if (d == 0) { at = 10 + src.below(bytes.size() - 10); bytes.resize(at); what = "gzip data cut after " + std::to_string(at) + " bytes"; }
        else if (d == 1) { at = bytes.size() - 8 + src.below(4); bytes[at] ^= (char)(1 + src.below(255)); what = "wrong gzip checksum"; }
        else { at = bytes.size() - 4 + src.below(4); bytes[at] ^= (char)(1 + src.below(255)); what = "wrong gzip length"; }
    } else { // no such file / a directory
        std::string fn = scratch::file(".d"); bool dir = src.flip(); what = dir ? "a directory" : "no such file"; if (dir) mkdir(fn.c_str(), 0700); ctx.show << what; ctx.publish(); bool rej = false; CNFProblem p; try { p.readDimacsFromFile(fn.c_str()); } catch (ParserException&) { rej = true; } if (dir) rmdir(fn.c_str()); ctx.check(rej, what + " was read as a formula"); ctx.label(what); return;
    }
    if (bytes.empty()) { w = (Way)src.pick({5, 2, 0, 1, 1, 0}); bytes = packed(t, w, 0); }
    ctx.show << what << ", " << wayName[w] << "\n" << shown(t); ctx.publish();
    CNFProblem p; std::string err = readBytes(p, bytes, w); ctx.check(!err.empty(), "malformed input (" + what + ") was accepted with " + std::to_string(p.nClauses()) + " clauses");
    ctx.nontrivial(); ctx.label(what.substr(0, what.find(kind >= 4 ? " after" : kind == 3 ? " header" : kind ? " token" : "zzz")).substr(0, 24)); ctx.label(wayName[w]);
}
// strict reading of a text: 1 accepted (clauses in e), -1 certainly malformed, 0 a matter of taste
static int strict(const std::string& t, Expect& e) {
    size_t i = 0, n = t.size(); ref::Cl c; bool in = false, header = false; auto blank = [&](char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; };
    while (true) {
        while (i < n && blank(t[i])) i++; if (i >= n) break;
        if (!in && t[i] == 'c') { while (i < n && t[i] != '\n') { if (t[i] == '\r' || t[i] == '\v' || t[i] == '\f') { if (t[i] == '\r' && i + 1 < n && t[i + 1] == '\n') { i++; continue; } return 0; } i++; } continue; }
        if (!in && t[i] == 'p') return 0;
        size_t j = i; while (j < n && !blank(t[j])) j++; std::string tok = t.substr(i, j - i); i = j; size_t k = tok[0] == '-' ? 1 : 0; if (tok[0] == '+') return 0; bool digits = k < tok.size(); for (size_t q = k; q < tok.size(); q++) if (!isdigit((unsigned char)tok[q])) digits = false;
        if (!digits) { size_t q = k; while (q < tok.size() && isdigit((unsigned char)tok[q])) q++; if (q > k && q < tok.size() && (tok[q] == '-' || tok[q] == '+' || tok[q] == 'c' || tok[q] == 'p' || isspace((unsigned char)tok[q]) || tok[q] == 0)) return 0; if (isspace((unsigned char)tok[k]) || tok.find('\v') != std::string::npos || tok.find('\f') != std::string::npos) return 0; return -1; }
        std::string mag = tok.substr(k); while (mag.size() > 1 && mag[0] == '0') mag.erase(0, 1); if (mag.size() > 10 || atoll(mag.c_str()) > (1 << 30)) return -1;
        int v = atoi(mag.c_str()); if (v == 0) { e.add(c); c.clear(); in = false; } else { c.push_back(k ? -v : v); in = true; }
    }
    return in ? -1 : 1;
}
PROPERTY(bytes) {
    resetOptions(); std::string t; static const char* tk[] = {"0", "1", "-1", "2", "-2", "3", "17", "-17", " ", " ", " ", "\n", "\n", "\n", "\t", "\r\n", "c", "c x\n", "p cnf 3 3\n", "p", "-", "+", "%", "x", "\f", "\v", "\r", "99999999999", "2147483647", "1073741824", "9223372036854775807", " 0\n", " 0\n", "1 2 0\n", "-1 -2 0\n", "0 ", "00", "--", "\x00", "\xff"};
    src.list(0, 40, [&]() { size_t i = src.below(40); if (i == 38) t += '\0'; else t += tk[i]; if (src.flip()) t += " "; });
    if (src.coin(1, 4)) { ref::Cnf f = formula(src); t = render(src, f, src.coin(1, 6) ? CHUNK : 0); src.list(1, 3, [&]() { if (t.empty()) return; size_t at = t.size() > 2000 && src.flip() ? t.size() - 1 - src.below(1000) : src.below(t.size()); unsigned k = src.pick({1, 1, 1, 1}); if (k == 0) t[at] = (char)src.below(256); else if (k == 1) t.erase(at, 1 + src.below(3)); else if (k == 2) t.insert(at, 1, " \n-0c1p"[src.below(7)]); else t.resize(at); }); }
    ctx.show << shown(t); ctx.publish(); Expect e; int want = strict(t, e); Way w = (Way)src.pick({5, 2, 0, 2, 0, 0}); if (w != GZIP && t.size() >= 2 && (unsigned char)t[0] == 0x1f && (unsigned char)t[1] == 0x8b) throw pbt::Discard();
    CNFProblem p; std::string err = readBytes(p, packed(t, w, 0), w);
    if (want == 1) { ctx.check(err.empty(), "a well-formed text is " + err); compare(ctx, p, e); ctx.label("well-formed"); }
    else if (want == -1) { ctx.check(!err.empty(), "a malformed text was accepted with " + std::to_string(p.nClauses()) + " clauses"); ctx.label("malformed"); }
    else ctx.label("unspecified"); if (want && t.size() > 4) ctx.nontrivial();
}
// ---- the problem container ----
static std::string captured(std::function<void()> f) { // what f prints on standard output
    std::string fn = scratch::file(".out"); scratch::Rm rm{fn}; fflush(stdout); auto st = std::cout.rdstate(); std::cout.clear(); std::cout.flush(); int keep = dup(1); int fd = open(fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); f(); std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep); std::cout.setstate(st); return scratch::slurp(fn);
}
PROPERTY(container) {
    resetOptions(); ref::Cnf f = formula(src); for (auto& c : f.c) for (int& l : c) if (std::abs(l) > 1000) l = l > 0 ? 999 : -999; ctx.show << ref::dimacs(f); ctx.publish(); Expect e; for (auto& c : f.c) e.add(c);
    CNFProblem p; unsigned how = src.pick({2, 1, 1}); if (how == 0) load(p, f); else { For fo; std::vector<Candy::Cl> keep; for (auto& c : f.c) { keep.emplace_back(); for (int l : c) keep.back().push_back(L(l)); } for (auto& c : keep) fo.push_back(&c); if (how == 1) p.readClauses(fo); else { CNFProblem q(fo); p = std::move(q); } }
    compare(ctx, p, e);
    // printed and read back
    std::string out = captured([&]() { p.printDIMACS(); }); ctx.show << "printed:\n" << out; ctx.publish(); std::string body; { std::istringstream is(out); std::string l; bool hd = false; while (std::getline(is, l)) { if (l.substr(0, 5) == "p cnf") { hd = true; std::istringstream h(l.substr(5)); long a = -1, b = -1; h >> a >> b; ctx.check(a == (long)p.nVars() && b == (long)p.nClauses(), "the printed header does not match the problem"); } } ctx.check(hd, "no header printed"); }
    CNFProblem q; std::string err = readBytes(q, out, PLAIN); ctx.check(err.empty(), "the printed formula is " + err); ctx.check(bag(q) == e.b, "printing and reading back changes the clauses");
    // models: checkResult accepts exactly the assignments that satisfy every clause
    int n = std::max(1, e.maxv); std::vector<int> val(n + 1, 0); bool random = src.coin(1, 3); std::vector<int> m; if (!random) { ref::Sat s(f); if (s.solve() == 1) m = s.model; }
    CandySolverResult r; for (int v = 1; v <= n; v++) { int x = !m.empty() ? m[v] : (int)src.below(3) - 1; if (!m.empty() && src.coin(1, 25)) x = (int)src.below(3) - 1; val[v] = x; if (x) r.setModelValue(Lit(v - 1, x < 0)); }
    bool sat = true; for (auto& c : e.b) if (!ref::satisfied(c, val)) sat = false; ctx.show << "model:"; for (int v = 1; v <= n && v < 200; v++) ctx.show << " " << (val[v] ? val[v] * v : 0); ctx.publish();
    bool said = false; captured([&]() { said = p.checkResult(r); }); ctx.check(said == sat, sat ? "checkResult rejects a satisfying assignment" : "checkResult accepts an assignment that does not satisfy every clause"); ctx.label(sat ? "satisfying" : "not satisfying");
    for (int v = 1; v <= n; v++) { Lit g = r.value(Var(v - 1)); ctx.check(val[v] == 0 ? g == lit_Undef : g == Lit(v - 1, val[v] < 0), "value() of variable " + std::to_string(v)); ctx.check(r.satisfies(Lit(v - 1, false)) == (val[v] > 0) && r.satisfies(Lit(v - 1, true)) == (val[v] < 0), "satisfies() of variable " + std::to_string(v)); }
    // gap-free renaming is an isomorphism
    size_t k = p.nClauses(); std::vector<ref::Cl> before; for (auto c : p) { ref::Cl x; for (Lit l : *c) x.push_back(D(l)); before.push_back(x); } p.normalizeVariableNames(); ctx.check(p.nClauses() == k, "normalizeVariableNames changes the number of clauses"); std::map<int, int> fw, bw; std::set<int> used;
    for (size_t i = 0; i < k; i++) { ctx.check(p[(int)i]->size() == before[i].size(), "normalizeVariableNames changes a clause length"); for (size_t j = 0; j < before[i].size(); j++) { int a = before[i][j], b = D((*p[(int)i])[j]); ctx.check((a > 0) == (b > 0), "normalizeVariableNames flips a sign"); a = std::abs(a); b = std::abs(b); used.insert(b); auto x = fw.insert({a, b}); auto y = bw.insert({b, a}); ctx.check(x.first->second == b && y.first->second == a, "normalizeVariableNames is not one-to-one"); } }
    ctx.check(p.nVars() == used.size() && (used.empty() || *used.rbegin() == (int)used.size()), "normalizeVariableNames leaves gaps"); if (k > 2) ctx.nontrivial();
}
PBT_MAIN
