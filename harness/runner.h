// Runs one of the built programs of the repository with given arguments and standard input.
#ifndef VERIF_RUNNER_H
#define VERIF_RUNNER_H
#include "scratch.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
static const char* programName = "Main";
static std::string program() { static std::string p; if (p.empty()) { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) { b[k] = 0; p = b; p = p.substr(0, p.rfind('/')) + std::string("/") + programName; } } return p; }
struct Run { int status = 0, sig = 0; bool timeout = false; std::string out, err; };
// kill -INT after `intAfterMs` milliseconds when not negative
static Run run(const std::vector<std::string>& args, const std::string& in, int timeoutMs, int intAfterMs = -1, const std::string& dir = "") {
    Run r; std::string fo = scratch::file(".out"), fe = scratch::file(".err"), fi = scratch::file(".in"); scratch::spit(fi, in); fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (!dir.empty() && chdir(dir.c_str())) _exit(126); int i = open(fi.c_str(), O_RDONLY), o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(i, 0); dup2(o, 1); dup2(e, 2); for (int k = 3; k < 64; k++) close(k);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99", 1); setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=97:report_thread_leaks=0", 1); setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=98:print_stacktrace=1", 1);
        std::vector<char*> av; std::string prog = program(); av.push_back((char*)prog.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); execv(prog.c_str(), av.data()); _exit(127);
    }
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); int st = 0; bool sent = false; unsigned nap = 200;
    for (;;) {
        pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break; clock_gettime(CLOCK_MONOTONIC, &t); long ms = (t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000;
        if (intAfterMs >= 0 && !sent && ms >= intAfterMs) { kill(p, SIGINT); sent = true; }
        if (ms > timeoutMs) { kill(p, SIGKILL); waitpid(p, &st, 0); r.timeout = true; break; }
        usleep(nap); if (nap < 5000) nap += nap / 4;
    }
    if (WIFEXITED(st)) r.status = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
    r.out = scratch::slurp(fo); r.err = scratch::slurp(fe); unlink(fo.c_str()); unlink(fe.c_str()); unlink(fi.c_str()); return r;
}
static std::string tail(const std::string& s) { return s.size() > 1500 ? s.substr(0, 700) + " ... " + s.substr(s.size() - 800) : s; }
#endif
