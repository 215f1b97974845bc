// Command line options: every flag sets exactly its parameter, bad values are refused, the rest of the line is left alone.
#include "candyapi.h"
#include "candy/utils/Options.h"
using namespace cnd;

struct O { const char* name; int type; std::function<std::string()> get; double lo, hi; bool loin, hiin; }; // type 0 bool 1 int 2 double 3 string
static std::string num(double d) { char b[64]; snprintf(b, 64, "%.10g", d); return b; }
static std::vector<O>& table() {
    static std::vector<O> t; if (!t.empty()) return t; const double M = INT32_MAX, S = INT16_MAX;
#define B(ns, v, n) t.push_back({n, 0, []() { return std::string((bool)ns::v ? "1" : "0"); }, 0, 0, true, true});
#define I(ns, v, n, lo, hi) t.push_back({n, 1, []() { return num((int)ns::v); }, lo, hi, true, true});
#define F(ns, v, n, lo, hi, li, hi_) t.push_back({n, 2, []() { return num((double)ns::v); }, lo, hi, li, hi_});
#define T(ns, v, n) t.push_back({n, 3, []() { return std::string((const char*)ns::v); }, 0, 0, true, true});
    I(ParallelOptions, opt_threads, "threads", 1, 16) I(ParallelOptions, opt_thread_initialization_delay, "thread-initialization-delay", 10, M) B(ParallelOptions, opt_static_propagate, "static-propagate") B(ParallelOptions, opt_static_database, "static-database") I(ParallelOptions, opt_static_database_size_bound, "static_database_size_bound", 0, S)
    I(ClauseDatabaseOptions, opt_persistent_lbd, "persistentLBD", 0, INT8_MAX) B(ClauseDatabaseOptions, opt_recalculate_lbd, "recalculate-lbd") B(ClauseDatabaseOptions, opt_keep_median_lbd, "keep-median-lbd") I(ClauseDatabaseOptions, opt_first_reduce_db, "firstReduceDB", 0, S) I(ClauseDatabaseOptions, opt_inc_reduce_db, "incReduceDB", 0, S)
    B(MinimizerOptions, do_minimize, "minimize") B(MinimizerOptions, minimize_pruned, "minimize-pruned") B(MinimizerOptions, minimize_minimal, "minimize-minimal") B(MinimizerOptions, minimize_project, "minimize-project")
    B(TestingOptions, test_model, "test-model") B(TestingOptions, test_proof, "test-proof") I(TestingOptions, test_limit, "test-limit", 0, 1000)
    I(SolverOptions, verb, "verb", 0, 2) B(SolverOptions, mod, "model") T(SolverOptions, opt_certified_file, "certified-output") B(SolverOptions, gate_stats, "gate-stats") I(SolverOptions, memory_limit, "memory-limit", 0, M) I(SolverOptions, time_limit, "time-limit", 0, M)
    F(SolverOptions, opt_K, "K", 0, 1, false, false) F(SolverOptions, opt_R, "R", 1, 5, false, false) I(SolverOptions, opt_size_lbd_queue, "szLBDQueue", 10, S) I(SolverOptions, opt_size_trail_queue, "szTrailQueue", 10, S) F(SolverOptions, opt_vsids_var_decay, "var-decay", 0, 1, false, false) F(SolverOptions, opt_vsids_max_var_decay, "max-var-decay", 0, 1, false, false) B(SolverOptions, opt_vsids_extra_bump, "extra-bump")
    B(SolverOptions, opt_use_vsidsc, "use-vsidsc") I(SolverOptions, opt_vsidsc_mult, "vsidsc-mult", 1, S) B(SolverOptions, opt_vsidsc_bump, "vsidsc-bump") B(SolverOptions, opt_vsidsc_scope, "vsidsc-lwcc") F(SolverOptions, opt_vsidsc_samplesize, "vsidsc-sample-size", 0, 1, false, true) F(SolverOptions, opt_vsidsc_samplesize_decay, "vsidsc-sample-size-decay", 0, 1, false, true) F(SolverOptions, opt_vsidsc_dbsize_recalc, "vsidsc-dbsize-recalc", 0, 10, true, true)
    B(SolverOptions, opt_use_lrb, "use-lrb") F(SolverOptions, opt_lrb_step_size, "lrb-step-size", 0, 1, false, false) F(SolverOptions, opt_lrb_min_step_size, "lrb-min-step-size", 0, 1, false, false) B(SolverOptions, opt_sort_variables, "sort-variables") B(SolverOptions, opt_preprocessing, "pre") I(SolverOptions, opt_inprocessing, "inprocessing", INT32_MIN, M)
    I(VariableEliminationOptions, opt_clause_lim, "cl-lim", 0, M) B(VariableEliminationOptions, opt_use_elim, "elim") I(GateRecognitionOptions, method, "gate-recognition-method", 0, 30) I(GateRecognitionOptions, tries, "gate-tries", 0, M) I(GateRecognitionOptions, timeout, "gate-timeout", 0, M)
    I(RandomSimulationOptions, opt_rs_nrounds, "rs-rounds", 1, M) B(RandomSimulationOptions, opt_rs_abortbyrrat, "rs-abort-by-rrat") F(RandomSimulationOptions, opt_rs_rrat, "rs-rrat", 0, 1, true, false) I(RandomSimulationOptions, opt_rs_filterConjBySize, "rs-max-conj-size", 0, M) B(RandomSimulationOptions, opt_rs_removeBackboneConj, "rs-remove-backbone-conj") B(RandomSimulationOptions, opt_rs_filterGatesByNonmono, "rs-only-nonmono-gates") I(RandomSimulationOptions, opt_rs_ppTimeLimit, "rs-time-limit", -1, M)
    B(RSILOptions, opt_rsil_enable, "rsil-enable") T(RSILOptions, opt_rsil_mode, "rsil-mode") I(RSILOptions, opt_rsil_advice_size, "advice-size", 2, 3) I(RSILOptions, opt_rsil_vanHalfLife, "rsil-van-halflife", 1, M) I(RSILOptions, opt_rsil_impBudgets, "rsil-imp-budgets", 1, M) I(RSILOptions, opt_rsil_filterByInputDeps, "rsil-filter-by-input-dependencies", 0, M) B(RSILOptions, opt_rsil_filterOnlyBackbone, "rsil-filter-only-backbone") F(RSILOptions, opt_rsil_minGateFraction, "rsil-min-gate-frac", 0, 1, true, true) B(RSILOptions, opt_rsil_onlyMiters, "rsil-only-miters")
    B(RSAROptions, opt_rsar_enable, "rsar-enable") I(RSAROptions, opt_rsar_maxRefinementSteps, "rsar-max-refinements", 1, M) T(RSAROptions, opt_rsar_inputDepCountHeurConf, "rsar-heur-idc") I(RSAROptions, opt_rsar_minGateCount, "rsar-min-gatecount", 1, M)
    return t;
}
// runs parseOptions in a child; returns exit status (-1 = returned normally) and fills values and the remaining arguments
static int parse(const std::vector<std::string>& args, std::vector<std::string>& vals, std::vector<std::string>& rest, bool strict) {
    int fd[2]; if (pipe(fd)) throw pbt::Discard(); fflush(nullptr); pid_t p = fork();
    if (p == 0) {
        close(fd[0]); std::vector<char*> av; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr); int argc = (int)args.size(); parseOptions(argc, av.data(), strict);
        std::string o; for (auto& x : table()) { o += x.get(); o += '\0'; } o += '\1'; if (argc < 0 || argc > (int)args.size()) o += "bad argc"; else for (int i = 0; i < argc; i++) { o += av[i] ? av[i] : "(null)"; o += '\0'; }
        size_t k = 0; while (k < o.size()) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if (w <= 0) break; k += w; } close(fd[1]); _exit(77);
    }
    close(fd[1]); std::string o; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) o.append(buf, k); close(fd[0]); int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st)) return 1000 + WTERMSIG(st); if (WEXITSTATUS(st) != 77) return WEXITSTATUS(st);
    size_t cut = o.find('\1'); auto split = [](const std::string& s, std::vector<std::string>& v) { size_t i = 0; while (i < s.size()) { size_t j = s.find('\0', i); if (j == std::string::npos) { v.push_back(s.substr(i)); break; } v.push_back(s.substr(i, j - i)); i = j + 1; } }; split(o.substr(0, cut), vals); split(o.substr(cut + 1), rest); return -1;
}
PROPERTY(options) {
    resetOptions(); auto& t = table(); std::vector<std::string> args{"candy"}, rest{"candy"}, want; for (auto& o : t) want.push_back(o.get()); bool bad = false, strict = !src.coin(1, 6); std::string why;
    src.list(0, 8, [&]() {
        unsigned k = src.pick({16, 4, 3}); if (bad) k = std::min(k, 1u);
        if (k == 1) { static const char* f[] = {"a.cnf", "/x/y.cnf.gz", "b-model.cnf", "x=-verb=0", "K=0.5", "model", "noelim", ""}; std::string a = f[src.below(7)]; args.push_back(a); rest.push_back(a); return; }
        size_t i = src.below(t.size()); O& o = t[i]; std::string n = o.name;
        if (k == 0) {
            if (o.type == 0) { bool v = src.flip(); args.push_back((v ? "-" : "-no-") + n); want[i] = v ? "1" : "0"; }
            else if (o.type == 1) { double span = o.hi - o.lo; long long v = (long long)o.lo + (long long)(src.pick({1, 1, 2}) == 0 ? 0 : src.flip() ? span : src.below((uint64_t)std::min(span, 1000.0) + 1)); args.push_back("-" + n + "=" + std::to_string(v)); want[i] = num((double)v); }
            else if (o.type == 2) { double v = o.lo + (o.hi - o.lo) * (1 + src.below(998)) / 1000.0; if (src.coin(1, 8)) { if (src.flip() && o.loin) v = o.lo; else if (o.hiin) v = o.hi; } char b[64]; snprintf(b, 64, src.coin(1, 4) ? "%.6e" : "%.6g", v); args.push_back("-" + n + "=" + b); want[i] = num(strtod(b, nullptr)); }
            else { static const char* s[] = {"", "proof.drat", "a b", "x=y", "vanishing", "implicationbudgeted", "-model", "5:3"}; std::string v = s[src.below(8)]; if (src.coin(1, 8)) v = std::string(src.range(200, 255), 'f'); args.push_back("-" + n + "=" + v); want[i] = v; }
        } else { // a value that has to be refused
            bad = true; std::string v;
            if (o.type == 0) { v = "-" + n + (src.flip() ? "x" : "=1"); if (src.coin(1, 3)) v = "-no" + n; if (v == "-nomodel") v = "-nomodelx"; }
            else if (o.type == 3) { if (src.flip()) v = "-" + n + "=" + std::string(src.range(256, 600), 'p'); else v = "-" + n; }
            else { unsigned w = src.pick({3, 3, 2, 1}); bool lo = o.lo > -2e9; if (w == 0 && lo) { v = "-" + n + "=" + (o.type == 1 ? std::to_string((long long)o.lo - 1 - (long long)src.below(5)) : num(o.lo - 0.001 - (double)src.below(50))); } else if (w <= 1) v = "-" + n + "=" + (o.type == 1 ? std::to_string((long long)o.hi + 1 + (src.flip() ? (long long)src.below(5) : 4294967295LL)) : num(o.hi + 0.001 + (double)src.below(50))); else if (w == 2) { static const char* g[] = {"abc", "1x", "", "-", "0.5.5", "ten", "1,5", "5 ", "nan", "inf", "-inf", "-nan", "infinity"}; v = "-" + n + "=" + g[src.below(13)]; if (o.type == 2 && src.flip() && (!o.loin || !o.hiin)) v = "-" + n + "=" + num(!o.loin && (o.hiin || src.flip()) ? o.lo : o.hi); } else v = "-" + n; }
            args.push_back(v); why = v; if (!strict && (o.type == 0 || v.find('=') == std::string::npos)) { bad = false; rest.push_back(v); } else if (!strict) throw pbt::Discard();
        }
    });
    for (auto& a : args) ctx.show << "[" << a << "] "; ctx.show << (strict ? "strict" : "lenient") << "\n"; ctx.publish();
    std::vector<std::string> vals, left; int rc = parse(args, vals, left, strict); ctx.check(rc < 1000, "option parsing crashes (signal " + std::to_string(rc - 1000) + ")");
    if (bad) { ctx.check(rc != -1, "the argument " + why + " is accepted"); ctx.check(rc == 1, "exit status " + std::to_string(rc) + " for a bad argument"); ctx.label("refused"); ctx.nontrivial(); return; }
    ctx.check(rc == -1, "a valid command line is refused with exit status " + std::to_string(rc));
    for (size_t i = 0; i < t.size(); i++) { std::string got = i < vals.size() ? vals[i] : "(missing)"; bool same = got == want[i]; if (!same && t[i].type == 2) same = std::fabs(atof(got.c_str()) - atof(want[i].c_str())) <= 1e-9 * std::max(1.0, std::fabs(atof(want[i].c_str()))); ctx.check(same, std::string("option ") + t[i].name + " is " + got + " instead of " + want[i]); }
    std::string a, b; for (auto& x : left) a += "[" + x + "]"; for (auto& x : rest) b += "[" + x + "]"; ctx.check(a == b, "remaining arguments are " + a + " instead of " + b); if (args.size() > 2) ctx.nontrivial(); ctx.label("accepted");
}
// --help names every option once, with its range and the value in force, and ends with status 0
PROPERTY(help) {
    resetOptions(); auto& t = table(); std::vector<std::string> args{"candy"}, want; for (auto& o : t) want.push_back(o.get());
    src.list(0, 6, [&]() { size_t i = src.below(t.size()); O& o = t[i]; std::string n = o.name; if (o.type == 0) { bool v = src.flip(); args.push_back((v ? "-" : "-no-") + n); want[i] = v ? "1" : "0"; } else if (o.type == 1) { long long v = (long long)std::max(o.lo, -1000.0) + (long long)src.below((uint64_t)std::min(o.hi - std::max(o.lo, -1000.0), 5000.0) + 1); args.push_back("-" + n + "=" + std::to_string(v)); want[i] = std::to_string(v); } else if (o.type == 2) { double v = o.lo + (o.hi - o.lo) * (1 + src.below(98)) / 100.0; char b[64]; snprintf(b, 64, "%g", v); args.push_back("-" + n + "=" + b); want[i] = b; } });
    args.push_back("--help"); if (src.flip()) args.push_back(src.flip() ? "-nonsense" : "a.cnf"); for (auto& a : args) ctx.show << "[" << a << "] "; ctx.publish();
    int fd[2]; if (pipe(fd)) throw pbt::Discard(); fflush(nullptr); pid_t p = fork();
    if (p == 0) { close(fd[0]); dup2(fd[1], 1); dup2(fd[1], 2); close(fd[1]); std::vector<char*> av; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr); int argc = (int)args.size(); parseOptions(argc, av.data(), true); _exit(77); }
    close(fd[1]); std::string o; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) o.append(buf, k); close(fd[0]); int st; waitpid(p, &st, 0); ctx.check(WIFEXITED(st), "--help crashes"); ctx.check(WEXITSTATUS(st) == 0, "--help ends with status " + std::to_string(WEXITSTATUS(st)));
    std::vector<std::string> lines; std::istringstream in(o); for (std::string l; std::getline(in, l);) lines.push_back(l);
    for (size_t i = 0; i < t.size(); i++) { std::string name = std::string("-") + t[i].name; std::vector<std::string> hit; for (auto& l : lines) { size_t b = l.find_first_not_of(' '); if (b == std::string::npos || l.compare(b, name.size(), name) != 0) continue; char after = b + name.size() < l.size() ? l[b + name.size()] : ' '; if (after == ' ' || after == ',') hit.push_back(l); }
        ctx.check(hit.size() == 1, "--help lists option " + name + " " + std::to_string(hit.size()) + " times"); if (t[i].type == 3) continue; size_t d = hit[0].find("(default: "); ctx.check(d != std::string::npos, "--help gives no value for " + name); std::string got = hit[0].substr(d + 10); got = got.substr(0, got.find(')')); if (t[i].type == 0) got = got == "on" ? "1" : got == "off" ? "0" : got;
        bool ok = t[i].type == 0 ? got == want[i] : std::fabs(atof(got.c_str()) - atof(want[i].c_str())) <= 1e-4 * std::max(1.0, std::fabs(atof(want[i].c_str()))); ctx.check(ok, "--help shows the value " + got + " for " + name + ", in force is " + want[i]); }
    if (args.size() > 2) ctx.nontrivial();
}
PBT_MAIN
