#ifndef VERIF_DRAT_H
#define VERIF_DRAT_H
#include "ref.h"
// Replays the proof file line by line in the reference checker.
inline void checkProof(const ref::Cnf& f, const std::string& text, bool unsat, pbt::Ctx& ctx, bool anyNontrivial = false) {
    ref::Drat d(f); bool up = d.refuted(); std::istringstream is(text); std::string line; int ln = 0; bool empty = false;
    while (std::getline(is, line)) {
        ln++; std::istringstream ls(line); std::string w; bool del = false; ref::Cl c; bool closed = false; bool first = true;
        while (ls >> w) {
            if (first && w == "d") { del = true; first = false; continue; } first = false;
            char* e; long v = strtol(w.c_str(), &e, 10); if (*e) ctx.fail("line " + std::to_string(ln) + " of the proof is not DRAT: " + line);
            if (closed) ctx.fail("literals after the terminating 0 in line " + std::to_string(ln));
            if (v == 0) closed = true; else c.push_back((int)v);
        }
        ctx.check(closed, "line " + std::to_string(ln) + " of the proof has no terminating 0: " + line);
        if (del) { d.del(c); continue; }
        std::string m = d.add(c); ctx.check(m.empty(), "line " + std::to_string(ln) + ": " + m);
        if (c.empty()) empty = true;
    }
    if (unsat) { ctx.check(d.refuted(), "UNSATISFIABLE, but the proof does not derive the empty clause"); ctx.check(empty, "UNSATISFIABLE, but the proof file does not contain the empty clause"); if (!up && d.lemmas > 1) ctx.nontrivial(); }
    else ctx.check(!empty, "the proof of a run that did not end in UNSATISFIABLE contains the empty clause");
    if (anyNontrivial && d.lemmas + d.deletions > 3) ctx.nontrivial();
    if (d.lemmas > 20) ctx.label("lemmas>20"); if (d.lemmas > 500) ctx.label("lemmas>500"); if (d.deletions) ctx.label("deletions"); if (d.rats) ctx.label("uses RAT"); if (d.missing) ctx.label("deletes an unknown clause"); if (d.ignored) ctx.label("unit deletion ignored"); ctx.label(unsat ? (up ? "refuted by unit propagation alone" : "unsat") : "sat prefix");
}
#endif
