#!/usr/bin/env python3
"""The property table: writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin")); sys.dont_write_bytecode = True
from jobs import CHECKS
S = "src/candy/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[dict(name=a, where=S + b) for a, b in mech], observe=observe, technique=technique, note=note,
                  state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state]))


prop("C01", "The SAT/UNSAT verdict is right in every solver configuration",
     "For every CNF formula and every supported solver configuration (branching heuristic, static or dynamic propagation, preprocessing, inprocessing, restart and clause-database settings), the solver answers SATISFIABLE exactly when the formula has a satisfying assignment and UNSATISFIABLE exactly when it has none. It never answers 'unknown' unless it was asked to stop, and never crashes or corrupts memory.",
     ["inputs", "configurations"], "all CNF formulas (any clause lengths, duplicates, tautologies, unit and empty clauses, gaps in variable numbering) x all solver configurations",
     "The integration tests solve fifteen fixed formulas with a handful of parameter sets; wrong answers need particular interactions of learning, clause deletion, restarts, elimination and inprocessing.",
     ["core/Solver.h", "systems/propagate/Propagate.h", "systems/propagate/StaticPropagate.h", "systems/learning/ConflictAnalysis.h", "systems/branching/VSIDS.h", "systems/branching/LRB.h", "systems/branching/VSIDSC.h", "systems/branching/rsil/BranchingHeuristics.h", "systems/Restart.h", "systems/ReduceDB.h", "simplification/Subsumption.h", "simplification/VariableElimination.h", "frontend/CandyBuilder.cc"],
     [("CDCL search loop", "core/Solver.h"), ("unit propagation", "systems/propagate/Propagate.h"), ("conflict analysis", "systems/learning/ConflictAnalysis.h"), ("clause database reduction", "core/clauses/ClauseDatabase.h"), ("variable elimination", "simplification/VariableElimination.h")],
     ["result of solve() on a solver built for the configuration"],
     "generated formulas x generated configurations, differential against an independent CDCL reference solver, under ASan/UBSan too",
     "Differential testing on formulas of up to about 150 variables with settings that force restarts, reductions and inprocessing to happen early; trusts the reference solver, which shares no code with the repository.")

prop("C02", "Every reported model satisfies every clause of the formula",
     "Whenever the solver answers SATISFIABLE, the assignment it reports satisfies every clause of the formula that was given to it, including clauses over variables that preprocessing or inprocessing eliminated.",
     ["inputs", "configurations"], "all satisfiable CNF formulas x all solver configurations",
     "Tests check models of a few formulas; a wrong reconstruction only shows on formulas where elimination, subsumption and the order of elimination interact.",
     ["core/Solver.h", "core/CandySolverResult.h", "simplification/VariableElimination.h", "simplification/Subsumption.h"],
     [("model extension over eliminated variables", "simplification/VariableElimination.h"), ("model storage", "core/CandySolverResult.h")],
     ["model literals of the solver result"],
     "generated formulas x configurations, model validity predicate (clause-by-clause evaluation)",
     "Direct evaluation of every input clause under the reported model.")

prop("C03", "The DRAT certificate proves every UNSAT answer",
     "With proof logging on, the proof file is a well-formed DRAT derivation from the input formula: every added clause is RUP or RAT with respect to the clauses present at that point. When the answer is UNSATISFIABLE the proof ends in the empty clause; for any other answer no empty clause is derived.",
     ["inputs", "configurations"], "all CNF formulas x all solver configurations with proof logging",
     "The existing tests never verify a proof for configurations with elimination, strengthening and deletion; one missing or premature line invalidates a proof.",
     ["core/clauses/Certificate.h", "core/clauses/ClauseDatabase.h", "core/Solver.h", "simplification/Subsumption.h", "simplification/VariableElimination.h"],
     [("certificate lines on add / strengthen / remove", "core/clauses/ClauseDatabase.h"), ("certificate writer", "core/clauses/Certificate.h")],
     ["the proof file"],
     "generated formulas x configurations, every proof line checked by an independent forward DRAT checker",
     "Strict forward check of each line (RUP, then RAT), of runs ending either way; trusts the checker in harness/ref.h.")

prop("C04", "Incremental solving agrees with solving the accumulated formula from scratch",
     "For every sequence of clause additions, assumptions and solve calls on one solver, each solve call answers exactly as a fresh solver would on all clauses added so far under the assumptions made since the previous call, and on SATISFIABLE the reported values satisfy all those clauses and assumptions. Assumptions are forgotten after each call; a value query gives consistent answers for a literal and its negation.",
     ["histories", "configurations"], "all histories of add/assume/solve/value calls, new variables at any point, through the IPASIR interface and the native one",
     "The IPASIR tests are a few scripted histories; errors live in what one solve call leaves behind (trail, eliminated variables, learnt clauses, assumptions).",
     ["ipasir/ipasircandy.cc", "core/Solver.h", "core/Trail.h", "simplification/VariableElimination.h"],
     [("accumulating problem and assumptions between calls", "ipasir/ipasircandy.cc"), ("reset of the solver for the next call", "core/Solver.h"), ("restoring eliminated variables", "simplification/VariableElimination.h")],
     ["return value of each solve, values of all variables"],
     "stateful generated call histories against a from-scratch reference solver",
     "Model-based: the model is the list of clauses added so far; up to 30 operations and about 60 variables per history.")

prop("C05", "Failed assumptions are a correct unsatisfiable core",
     "When a solve call under assumptions answers UNSATISFIABLE, the assumptions reported as failed are a subset of those made for that call, and the clauses together with just the failed assumptions are unsatisfiable.",
     ["histories", "configurations"], "all histories ending in an unsatisfiable call with any list of assumptions (repeated, contradictory, implied, over unseen variables)",
     "Existing tests check one or two cores; errors need assumptions that are implied, repeated, contradictory, or falsified at different levels.",
     ["ipasir/ipasircandy.cc", "core/Solver.h", "systems/learning/ConflictAnalysis.h"],
     [("final conflict analysis", "systems/learning/ConflictAnalysis.h"), ("failed query", "ipasir/ipasircandy.cc")],
     ["failed query for every assumption"],
     "stateful generated call histories, core re-solved by the reference solver",
     "Checks sufficiency of the reported core, not minimality.")

prop("C06", "Learnt-clause and termination callbacks obey the IPASIR contract",
     "Every clause handed to a learn callback is a logical consequence of the clauses added so far, alone and without the assumptions, and is no longer than the registered maximum; every learnt clause that fits is handed over; a callback that was removed is not called, and a callback gets the state pointer it was registered with. A solve call answers 'unknown' only if the registered terminate callback asked for it; while the callback asks to stop from the start, no search is done; and later calls work as if the interrupted call had not happened.",
     ["histories", "configurations"], "all histories with callbacks set, replaced and removed at any point, and termination requested at any poll",
     "No existing test interrupts a search and continues, and exported clauses are never checked for being implied.",
     ["ipasir/ipasircandy.cc", "core/Solver.h", "core/CandySolverInterface.h"],
     [("callback registration", "ipasir/ipasircandy.cc"), ("callback invocation in the search loop", "core/Solver.h")],
     ["arguments of the callbacks, return value of solve"],
     "stateful generated call histories with fault injection at callback polls; exported clauses checked for implication by the reference solver",
     "The first forty exported clauses of each solve call are checked.")

EXTRA = os.path.join(V, "tools", "meta_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], state=p["state"], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
NA = globals().get("NOT_APPLICABLE", {})
man = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unchanged", source_commits=[]),
           checks=[dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]) for p in P if p["id"] in CHECKS],
           not_applicable=[dict(property=k, reason=r) for k, r in NA.items()] + [],
           notes="All checks are property-based tests / fuzz campaigns over generated inputs with explicit oracles; see DESIGN.md. known-findings.json lists repaired and recorded defects.")
miss = [p["id"] for p in P if p["id"] not in CHECKS and p["id"] not in NA]
if miss:
    print("no check yet:", miss)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in P:
    for f in p["files"]:
        if not os.path.exists("/repo/" + f):
            print(p["id"], "no such file", f)
print(len(P), "properties")
