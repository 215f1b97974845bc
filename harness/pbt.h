// A small property-based testing engine (choice-sequence based, like Hypothesis).
//
// A property is a function void(Src&, Ctx&).  Every random decision is drawn from
// Src and recorded as an integer, so a case *is* its list of choices: replay feeds the
// list back, shrinking edits the list (delete blocks, zero, lower values) and re-runs.
// Cases run in a forked child that records its choices in shared memory, so crashes,
// sanitizer aborts and hangs are failures with a known, shrinkable case too.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <exception>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <malloc.h>

namespace pbt {

struct Fail { std::string msg; };
struct Discard { };

static const size_t CAP = 1u << 21;
struct Shm {
    volatile uint64_t n;          // choices recorded for the current case
    volatile uint64_t caseIdx;
    volatile uint64_t done;       // finished cases
    volatile uint64_t phase;      // 0 idle, 1 in case
    volatile uint64_t verdict;    // 1 = property failure (message in msg)
    char msg[4096];
    char show[1 << 16];
    uint64_t c[CAP];
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

class Src {
    uint64_t s; bool replay; const std::vector<uint64_t>* in; size_t pos; Shm* shm;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    void rec(uint64_t v) { if (shm) { uint64_t n = shm->n; if (n >= CAP) throw Discard(); shm->c[n] = v; shm->n = n + 1; } }
public:
    Src(uint64_t seed, Shm* shm_) : s(seed), replay(false), in(nullptr), pos(0), shm(shm_) { if (shm) shm->n = 0; }
    Src(const std::vector<uint64_t>* in_, Shm* shm_) : s(0), replay(true), in(in_), pos(0), shm(shm_) { if (shm) shm->n = 0; }
    // uniform in [0,n); 0 is the simplest value
    uint64_t below(uint64_t n) {
        uint64_t v;
        if (n <= 1) return 0;
        if (replay) { v = pos < in->size() ? (*in)[pos++] : 0; v %= n; }
        else v = next() % n;
        rec(v); return v;
    }
    int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)below((uint64_t)((int64_t)hi - lo + 1)); }
    // true with probability num/den; shrinks to false
    bool coin(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    // weighted index; shrinks to 0
    unsigned pick(std::initializer_list<unsigned> w) {
        unsigned tot = 0; for (unsigned x : w) tot += x;
        unsigned v = (unsigned)below(tot), i = 0; for (unsigned x : w) { if (v < x) return i; v -= x; i++; } return 0;
    }
    template<class T> const T& of(const std::vector<T>& v) { return v[below(v.size())]; }
    // list driver: calls f() k times, lo<=k<=hi, k uniform; recorded as continue-flags, so
    // shrinking can delete single elements
    template<class F> int list(int lo, int hi, F f) {
        int target = replay ? 0 : lo + (hi > lo ? (int)(next() % (uint64_t)(hi - lo + 1)) : 0);
        int k = 0;
        for (;;) {
            if (k >= hi) break;
            if (k >= lo) {
                uint64_t go;
                if (replay) go = (pos < in->size() ? (*in)[pos++] : 0) != 0; else go = k < target;
                rec(go); if (!go) break;
            }
            f(); k++;
        }
        return k;
    }
};

struct Ctx {
    std::map<std::string, uint64_t> labels; bool nontriv = false; std::ostringstream show; int size = 1; Shm* shm = nullptr;
    bool thorough = false;
    void label(const std::string& l) { labels[l]++; }
    void nontrivial() { nontriv = true; }
    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
    void check(bool ok, const std::string& m) { if (!ok) throw Fail{m}; }
    // makes the rendering available even if the code under test crashes afterwards
    void publish() { if (shm) { std::string s = show.str(); size_t k = std::min(s.size(), sizeof(shm->show) - 1); memcpy(shm->show, s.data(), k); shm->show[k] = 0; } }
};

typedef void (*Prop)(Src&, Ctx&);
inline std::map<std::string, Prop>& registry() { static std::map<std::string, Prop> r; return r; }
struct Reg { Reg(const char* n, Prop p) { registry()[n] = p; } };
#define PROPERTY(name) static void name(pbt::Src&, pbt::Ctx&); static pbt::Reg reg_##name(#name, name); static void name(pbt::Src& src, pbt::Ctx& ctx)

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static const int EX_HANG = 77;
extern "C" inline void pbt_hang(int) { _exit(EX_HANG); }
inline void arm(int cpuSec) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpuSec; setitimer(ITIMER_PROF, &it, nullptr);
}

enum Outcome { OK, FAILED, CRASH, HANG, DISCARD };

inline void silence() {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    std::cout.setstate(std::ios::badbit);
}

struct Runner {
    Shm* shm; std::string name; Prop p; int size = 1; bool thorough = false; int cpu = 30; bool quietErr = true, flaky = false;
    Runner() { shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

    Outcome one(Src& src, Ctx& ctx, std::string& msg) {
        ctx.size = size; ctx.shm = shm; ctx.thorough = thorough; shm->show[0] = 0;
        try { p(src, ctx); return OK; }
        catch (Fail& f) { msg = f.msg; return FAILED; }
        catch (Discard&) { return DISCARD; }
        catch (std::exception& e) { msg = std::string("uncaught exception: ") + e.what(); return FAILED; }
        catch (...) { msg = "uncaught exception of unknown type"; return FAILED; }
    }
    // run one choice list in a child
    Outcome isolated(const std::vector<uint64_t>& ch, std::string& msg, std::string& show, std::vector<uint64_t>* canon, const char* errfile = nullptr) {
        shm->verdict = 0; shm->msg[0] = 0; shm->show[0] = 0; shm->n = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            silence(); int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) dup2(fd, 2);
            signal(SIGPROF, pbt_hang); arm(cpu); alarm(600);
            Src src(&ch, shm); Ctx ctx; std::string m; Outcome o = one(src, ctx, m);
            arm(0);
            snprintf(shm->msg, sizeof shm->msg, "%s", m.c_str());
            ctx.publish();
            _exit(o == OK ? 100 : o == DISCARD ? 103 : 109);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (canon) canon->assign(shm->c, shm->c + shm->n);
        show = shm->show; msg = shm->msg;
        if (WIFEXITED(st)) {
            int e = WEXITSTATUS(st);
            if (e == 100) return OK; if (e == 103) return DISCARD; if (e == 109) return FAILED;
            if (e == EX_HANG) { msg = "hang: a single case used more than " + std::to_string(cpu) + " s of CPU"; return HANG; }
            msg = "process ended with exit code " + std::to_string(e) + " (sanitizer report or exit() inside the library)"; return CRASH;
        }
        int sg = WTERMSIG(st); if (sg == SIGALRM) { msg = "hang: no progress within 600 s"; return HANG; }
        msg = std::string("crash: killed by signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")"; return CRASH;
    }
    void shrink(std::vector<uint64_t>& best, Outcome kind, std::string& msg, std::string& show, double budget, uint64_t& evals) {
        double t0 = now();
        auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
            if (now() - t0 > budget || evals > 20000) return false;
            evals++; std::string m, s; std::vector<uint64_t> canon; Outcome o = isolated(c, m, s, &canon);
            bool same = (kind == FAILED) ? o == FAILED : (o == FAILED || o == CRASH);
            if (!same) return false;
            if (canon.size() < best.size() || (canon.size() == best.size() && canon < best)) { best = canon; msg = m; show = s; kind = o; return true; }
            return false;
        };
        if (kind == HANG) return;
        bool improved = true;
        while (improved && now() - t0 < budget) {
            improved = false;
            for (size_t blk = std::max<size_t>(1, best.size() / 2); ; blk = blk > 8 ? blk / 2 : blk - 1) {
                if (blk == 0) break;
                for (size_t i = best.size(); i-- > 0; ) {
                    if (now() - t0 > budget) return;
                    if (i + blk > best.size()) continue;
                    std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + blk);
                    if (attempt(c)) { improved = true; if (i > best.size()) i = best.size(); }
                    else if (blk > 1 && i > blk) i -= blk / 2;
                }
            }
            for (size_t i = 0; i < best.size(); i++) {
                if (now() - t0 > budget) return;
                if (best[i] == 0) continue;
                std::vector<uint64_t> c(best); c[i] = 0; if (attempt(c)) { improved = true; continue; }
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo + 1) { uint64_t mid = lo + (best[i] - lo) / 2; c = best; c[i] = mid; if (attempt(c)) improved = true; else lo = mid; if (now() - t0 > budget) return; }
                if (i < best.size() && best[i] > 0) { c = best; c[i] = best[i] - 1; if (attempt(c)) improved = true; }
            }
        }
    }
};

inline std::string jesc(const std::string& s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o;
}

inline int run(Runner& R, uint64_t seed, uint64_t worker, uint64_t cases, double maxsec, double shrinksec, const std::string& out, uint64_t start = 0) {
    double t0 = now();
    std::string statf = out + ".stats";
    fflush(nullptr);
    R.shm->done = 0; R.shm->phase = 0; R.shm->verdict = 0;
    pid_t pid = fork();
    if (pid == 0) {
        silence(); if (R.quietErr) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2); }
        signal(SIGPROF, pbt_hang);
        std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> seen; uint64_t nontriv = 0, disc = 0, total = 0;
        std::vector<std::string> samples; std::vector<uint64_t> hashes; int rc = 100;
        for (uint64_t i = start; i < cases; i++) {
            if (now() - t0 > maxsec) { labels["(stopped at the wall-clock cap)"]++; break; }
            R.shm->caseIdx = i; R.shm->phase = 1; arm(R.cpu);
            Src src(mix(mix(seed) ^ mix(worker * 0x1000003ull + 17) ^ mix(i * 0x9E3779B1ull + 5)), R.shm); Ctx ctx; std::string m;
            Outcome o = R.one(src, ctx, m);
            arm(0); R.shm->phase = 0;
            if (getenv("PBT_SHOW")) { FILE* sf = fopen(getenv("PBT_SHOW"), "w"); fprintf(sf, "%s\n", ctx.show.str().c_str()); fclose(sf); }
            if (o == FAILED) { R.shm->verdict = 1; snprintf(R.shm->msg, sizeof R.shm->msg, "%s", m.c_str()); ctx.publish(); rc = 109; break; }
            R.shm->done = R.shm->done + 1;
            if (o == DISCARD) { disc++; continue; }
            total++;
            for (auto& l : ctx.labels) labels[l.first] += 1;
            if (ctx.nontriv) {
                uint64_t h = 1469598103934665603ull; for (uint64_t k = 0; k < R.shm->n; k++) h = mix(h ^ R.shm->c[k]);
                if (seen.insert(h).second) { nontriv++; hashes.push_back(h); std::string s = ctx.show.str(); if (samples.size() < 3 && s.size() > 0) samples.push_back(s.substr(0, 400)); }
            }
        }
        std::ofstream f(statf);
        f << "{\"total\":" << total << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc << ",\"labels\":{";
        bool first = true; for (auto& l : labels) { f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
        f << "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
        f << "]}\n"; f.close();
        std::ofstream hf(out + ".hashes", std::ios::binary); hf.write((const char*)hashes.data(), hashes.size() * 8); hf.close();
        _exit(rc);
    }
    // watch the child: CPU hangs end it by SIGPROF, a stall of 600 s wall ends it here
    int st = 0; uint64_t lastDone = 0; double lastT = now(); bool killed = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (R.shm->done != lastDone) { lastDone = R.shm->done; lastT = now(); }
        if (now() - lastT > 600 && !killed) { kill(pid, SIGKILL); killed = true; }
        usleep(5000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 100) return 0;
    Outcome kind; std::string msg;
    if (killed) { kind = HANG; msg = "hang: no progress within 600 s"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG) { kind = HANG; msg = "hang: a single case used more than " + std::to_string(R.cpu) + " s of CPU"; }
    else if (R.shm->verdict == 1) { kind = FAILED; msg = R.shm->msg; }
    else { kind = CRASH; msg = WIFSIGNALED(st) ? std::string("crash: signal ") + strsignal(WTERMSIG(st)) : "process ended with exit code " + std::to_string(WEXITSTATUS(st)); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !killed) { fprintf(stderr, "worker was killed (out of memory?)\n"); return 4; }
    std::vector<uint64_t> ch(R.shm->c, R.shm->c + R.shm->n); uint64_t idx = R.shm->caseIdx; std::string show = R.shm->show;
    // confirm in isolation
    std::string m2, s2; std::vector<uint64_t> canon; Outcome o = R.isolated(ch, m2, s2, &canon);
    for (int t = 0; R.flaky && (o == OK || o == DISCARD) && t < 12; t++) { canon.clear(); o = R.isolated(ch, m2, s2, &canon); }
    if (R.flaky && kind == FAILED && (o == OK || o == DISCARD)) { m2 = msg + " (schedule-dependent: seen once, not again in 13 replays)"; s2 = show; o = FAILED; canon = ch; shrinksec = 0; } // a wrong answer or a race is one, however rarely it shows
    if (o == OK || o == DISCARD) {
        fprintf(stderr, "case %llu failed in the batch (%s) but not in isolation\n", (unsigned long long)idx, msg.c_str());
        // state leaked between cases: report as unconfirmed
        std::ofstream f(out + ".unconfirmed"); f << idx << "\n# message: " << msg << "\n# case:\n"; std::istringstream is(show); std::string l; while (std::getline(is, l)) f << "#   " << l << "\n"; return 5;
    }
    msg = m2; show = s2; kind = o; ch = canon; uint64_t evals = 0;
    R.shrink(ch, kind, msg, show, shrinksec, evals);
    std::string m3, s3; R.isolated(ch, m3, s3, nullptr, (out + ".stderr").c_str()); if (s3.size()) show = s3; if (m3.size()) msg = m3;
    std::ofstream f(out + ".fail");
    f << "prop " << R.name << "\nsize " << R.size << "\nthorough " << (int)R.thorough << "\nchoices";
    for (uint64_t c : ch) f << " " << c;
    f << "\n# message: " << msg << "\n# seed " << seed << " worker " << worker << " case " << idx << " shrink-evaluations " << evals << "\n# case:\n";
    std::istringstream is(show); std::string l; while (std::getline(is, l)) f << "#   " << l << "\n";
    std::ifstream ef(out + ".stderr"); int k = 0; while (k++ < 30 && std::getline(ef, l)) f << "# stderr: " << l << "\n";
    f.close();
    printf("FAIL %s: %s\n", R.name.c_str(), msg.c_str());
    return 1;
}

inline int main_(int argc, char** argv) {
    std::map<std::string, std::string> a; std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s.substr(0, 2) == "--" && i + 1 < argc) { a[s.substr(2)] = argv[++i]; } else pos.push_back(s); }
    if (pos.size() < 2) { fprintf(stderr, "usage: run PROP --seed --cases --worker --out | replay PROP FILE | list x\n"); for (auto& r : registry()) fprintf(stderr, "  %s\n", r.first.c_str()); return 2; }
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); // keep freed memory: large arrays are reallocated for every case
    Runner R; R.name = pos[1]; if (!registry().count(pos[1])) { fprintf(stderr, "no property %s\n", pos[1].c_str()); return 2; }
    R.flaky = num("flaky", 0) != 0; R.p = registry()[pos[1]]; R.size = (int)num("size", 1); R.thorough = num("thorough", 0) != 0; R.cpu = (int)num("cpu", 40); R.quietErr = num("stderr", 0) == 0;
    if (pos[0] == "run") return run(R, (uint64_t)num("seed", 1), (uint64_t)num("worker", 0), (uint64_t)num("cases", 100), num("maxsec", 600), num("shrink", 60), a.count("out") ? a["out"] : "/tmp/pbt-out", (uint64_t)num("from", 0));
    if (pos[0] == "replay") {
        std::ifstream f(pos[2]); std::string l; std::vector<uint64_t> ch;
        while (std::getline(f, l)) { std::istringstream is(l); std::string k; is >> k; if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); } else if (k == "size") is >> R.size; else if (k == "thorough") { int t; is >> t; R.thorough = t; } }
        std::string m, s; std::string ef = pos[2] + ".stderr"; Outcome o = R.isolated(ch, m, s, nullptr, a.count("err") ? a["err"].c_str() : nullptr);
        printf("%s\n%s\n%s\n", o == OK ? "PASS" : o == DISCARD ? "DISCARD" : "FAIL", m.c_str(), s.c_str());
        return o == OK || o == DISCARD ? 0 : 1;
    }
    return 2;
}
} // namespace pbt
extern "C" const char* __asan_default_options();
extern "C" const char* __ubsan_default_options();
#define PBT_MAIN extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096"; } extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; } int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
