#include "candyapi.h"
#include "scratch.h"
#include "drat.h"
using namespace cnd;

PROPERTY(drat) {
    resetOptions(); std::string fam; static std::string path; path = scratch::file(".drat"); scratch::Rm rm{path};
    ref::Cnf f = gen::any(src, ctx.size, &fam); Config cfg = config(src);
    ctx.show << "config: " << cfg.text << "\nfamily: " << fam << "\n" << ref::dimacs(f); ctx.publish();
    SolverOptions::opt_certified_file = path.c_str();
    bool unsat, gave;
    {
        CNFProblem p; load(p, f);
        std::unique_ptr<CandySolverInterface> s(make(cfg)); SolverOptions::opt_certified_file = ""; s->init(p);
        Budget b{s.get(), 4000}; limit(*s, b); lbool r = s->solve(); unsat = r == l_False; gave = b.hit;
    }
    if (gave) ctx.label("gave up at the conflict budget");
    checkProof(f, scratch::slurp(path), unsat, ctx);
}
PBT_MAIN
