prop("C07", "Pre- and inprocessing preserve the formula they simplify",
     "Each simplification step (subsumption and self-subsumption, asymmetric variable elimination, bounded variable elimination) keeps the formula equisatisfiable; without elimination the clauses stay logically equivalent to the input, with elimination they are equivalent over the remaining variables, and every model of the simplified clauses extends, through the recorded eliminated clauses, to a model of the original formula. No clause that is still needed disappears and no clause that does not follow appears.",
     ["inputs", "configurations"], "all CNF formulas x elimination/subsumption settings x repeated simplification rounds",
     "Unit tests run subsumption and elimination on a few handwritten clause sets; signatures, strengthening order and elimination bounds interact only on particular clause sets.",
     ["simplification/Subsumption.h", "simplification/VariableElimination.h", "simplification/AsymmetricVariableReduction.h", "core/clauses/ClauseDatabase.h", "core/clauses/Clause.h"],
     [("subsumption by signatures", "simplification/Subsumption.h"), ("bounded variable elimination and model reconstruction", "simplification/VariableElimination.h"), ("asymmetric literal removal", "simplification/AsymmetricVariableReduction.h")],
     ["clauses and facts left after a simplification round, reconstructed models"],
     "generated formulas x settings, semantic comparison of the simplified clause set with the input by the reference solver",
     "Component-level differential test: equivalence over the remaining variables is decided by the reference solver for every generated formula; the solver's own search is not involved.")

prop("C08", "Recognised gates are sound definitions and partition the formula",
     "For every CNF and recognition method, the recognised gate structure partitions the clauses of the formula into root clauses, defining clauses of exactly one gate each, and a remainder. Gates form an acyclic hierarchy; each gate's defining clauses define its output from its inputs: for every input assignment an output value satisfies them, and exactly one where the output is used in both polarities. A formula that is built entirely from supported gates under its roots is recognised completely. Pruning a problem by its gates under a model keeps every clause that model still has to satisfy: whatever satisfies the pruned problem extends to a model of the whole formula. The gate encodings that the library itself builds are those of the gates they name.",
     ["inputs", "configurations"], "all CNF formulas (circuits encoded by Tseitin or Plaisted-Greenbaum, damaged, duplicated, layered; arbitrary CNFs) x recognition methods and numbers of tries",
     "Gate tests use hand-made trees of AND/OR/XOR gates and check counts; unsound recognition needs near-gates: missing, duplicated or additional clauses.",
     ["gates/GateAnalyzer.h", "gates/GateAnalyzer.cc", "gates/GateProblem.h", "gates/BlockList.h", "gates/GateBuilder.h"],
     [("blocked-set and pattern checks", "gates/GateAnalyzer.cc"), ("occurrence index", "gates/BlockList.h"), ("gate store and pruning", "gates/GateProblem.h")],
     ["roots, gates and remainder of the gate problem; pruned problem"],
     "generated circuits and near-circuits x methods; partition/acyclicity invariants plus exhaustive input enumeration and reference solving as oracle",
     "Definitions are checked by enumerating or SAT-solving over each gate's own clauses; circuits of up to about 40 gates.")

prop("C09", "Random simulation computes the circuit and conjectures hold on it",
     "For every gate structure and every clause-order, partition and randomisation setting, simulation orders each simulated gate after its inputs, lists every gate that the filter keeps exactly once, and computes for every simulated input vector the value the gate's definition gives to its output. Every pair of literals that agree on all simulated vectors and every literal that is constant on all of them is conjectured (up to the requested size), and whatever agrees on every possible input is always among the conjectures. Every randomisation strategy sets the bits of exactly the given input vectors with its documented chances.",
     ["inputs", "configurations"], "all gate structures x clause-order strategies, partition strategies, randomisation settings, filters and numbers of rounds",
     "Existing tests simulate five or six fixed circuits; wrong order, stale vectors or hash collisions need nested, shared or monotone gates.",
     ["randomsimulation/ClauseOrder.cc", "randomsimulation/RandomSimulator.h", "randomsimulation/Propagation.cc", "randomsimulation/Partition.cc", "randomsimulation/Randomization.cc", "randomsimulation/Conjectures.cc", "randomsimulation/SimulationVector.cc"],
     [("gate evaluation order", "randomsimulation/ClauseOrder.cc"), ("bit-parallel evaluation", "randomsimulation/Propagation.cc"), ("equivalence partition", "randomsimulation/Partition.cc"), ("conjecture container", "randomsimulation/Conjectures.cc")],
     ["clause order lists, simulation vectors, conjectures"],
     "generated circuits x settings; reference gate evaluation on exhaustive input vectors and independent partitioning",
     "Simulation is driven with exhaustive input vectors for up to 11 inputs, so conjectures can be compared with the truth exactly.")

prop("C10", "DIMACS input is read exactly, and the problem container keeps it",
     "Every well-formed DIMACS CNF, however it is laid out (comments, blanks, clauses over several lines or several per line, any line length and file size, missing or inaccurate header, plain or gzip-compressed, from a file, standard input or a pipe), is read as exactly its clauses: repeated literals merged, tautologies dropped, nothing else lost or added, and the variable count is the largest variable in the text. Printing a problem and reading it back gives the same clauses; the result checker accepts an assignment exactly when it satisfies every clause; gap-free renaming is one-to-one and keeps signs.",
     ["inputs"], "all DIMACS texts of well-formed formulas, in every layout and delivery; all clause lists and (partial) assignments",
     "Tests read about twenty files that all fit the 1 MB buffer and use one layout; refilling, compression and layout interact only at particular positions.",
     ["utils/StreamBuffer.h", "utils/StreamBuffer.cc", "core/CNFProblem.cc", "core/CNFProblem.h", "core/CandySolverResult.h"],
     [("buffer refill", "utils/StreamBuffer.cc"), ("DIMACS reader and clause normalisation", "core/CNFProblem.cc"), ("model check", "core/CNFProblem.cc")],
     ["clauses and variable count of the problem"],
     "generated clause lists x generated renderings (round trip), texts steered to cross the read buffer at random token positions",
     "Round-trip oracle: the generator knows the clauses it rendered.")

prop("C11", "Malformed input is refused with a parser error, never misread",
     "A text that is not a DIMACS CNF (a token that is not a number where a literal is expected, a number outside the variable range, an unterminated last clause, a broken or negative header, a missing or unreadable file, truncated or damaged gzip data) is refused with a ParserException. No input whatsoever makes the reader crash, hang, access memory out of bounds, or silently return a different formula than a strict reading of the text.",
     ["inputs", "faults"], "all byte sequences, and all truncations and corruptions of valid inputs",
     "No existing test reads malformed input.",
     ["utils/StreamBuffer.h", "utils/StreamBuffer.cc", "core/CNFProblem.cc", "utils/Exceptions.h"],
     [("number reader", "utils/StreamBuffer.cc"), ("header and clause reader", "core/CNFProblem.cc")],
     ["exception or problem contents"],
     "fault-injected and token-level fuzzed texts, differential against a strict reference reader, under ASan/UBSan too",
     "Where the format leaves room (second header, plus signs, 1-2) either outcome is accepted; gzip truncation is only asserted for texts below the buffer size because zlib misses some truncations after a full read.")

prop("C12", "Minimised models are sufficient and minimal",
     "For every formula and every (full or partial) model of it, model minimisation returns a subset of the model's literals that still satisfies every clause of the formula (with pruning: every clause the gate structure leaves to satisfy, and however the open inputs are chosen, the result extends to a model of the formula). No literal of the result can be left out, and with -minimize-minimal no smaller subset of the model suffices. Projection removes exactly the literals of gate outputs from it.",
     ["inputs", "configurations"], "all satisfiable formulas x models x pruning, minimum and projection settings",
     "The tests minimise two or three fixed models and check sizes; redundancy and suboptimality show only for particular models.",
     ["minimizer/Minimizer.h", "minimizer/Minimizer.cc", "gates/GateProblem.h", "core/CandySolverResult.h"],
     [("hitting set construction and iteration", "minimizer/Minimizer.cc"), ("pruned problem", "gates/GateProblem.h")],
     ["minimised model literals"],
     "generated formulas x models x modes; hitting-set oracle with exhaustive search for smaller sets",
     "Minimality by dropping each literal, minimum size by iterative-deepening search over at most 12 variables.")

prop("C13", "Command line options set exactly what they name; bad ones are refused",
     "Every accepted option sets exactly the parameter it names to the given value and leaves all others alone; the last occurrence wins; everything that is not an option stays, in order, on the argument list. A value that is out of the documented range, not a number or too long, and (in strict mode) any unknown option, is refused with exit status 1 and never silently replaced by another value. --help lists every registered option once, with the value that is in force, and exits with status 0.",
     ["inputs"], "all command lines over the registered options",
     "No existing test parses a command line.",
     ["utils/Options.h", "utils/Options.cc"],
     [("option registry and parser", "utils/Options.h"), ("option table", "utils/Options.cc")],
     ["parameter values, remaining argument list, exit status"],
     "generated command lines; model of the option table as oracle, run in a child process",
     "The oracle's table lists the 60 option names, kinds and ranges given by the help text.")

prop("C14", "The program's printed answer, exit status, model and proof are right",
     "For every readable formula, delivered by file, gzip file or standard input, and every accepted command line, the candy program prints exactly one verdict line, which is right, and exits with 10 (SATISFIABLE), 20 (UNSATISFIABLE) or 0. With -model a SATISFIABLE run prints a complete, terminated model that satisfies every clause. With -certified-output an UNSATISFIABLE run leaves a valid DRAT proof. -test-model and -test-proof confirm the answers. Every other line is a comment. Input that cannot be read gives exit status 1 and no verdict. -gate-stats reports the counts of the problem. An interrupt or a limit leads to a right or an INDETERMINATE answer, never to a wrong one or a crash.",
     ["inputs", "configurations", "faults"], "all formulas and ways of delivery x all command lines x interrupts at any time",
     "No existing test runs the program; options act together in Main.cc only.",
     ["Main.cc", "frontend/CLIOptions.cc", "frontend/CandyBuilder.cc", "core/CandySolverResult.h", "core/clauses/Certificate.h"],
     [("main program", "Main.cc"), ("solver construction", "frontend/CandyBuilder.cc"), ("proof output", "core/clauses/Certificate.h")],
     ["standard output, exit status and proof file of the program"],
     "generated formulas x command lines run through the built program; reference solver, model evaluation, DRAT reference checker and output grammar as oracle",
     "Runs that exceed 20 s are discarded. Interrupts are sent at random times, limits are set to their smallest values.")

prop("C15", "The proof checker accepts valid refutations and nothing else",
     "The DRAT proof checker accepts a proof only if it derives the empty clause from the formula by steps that are RUP or RAT: it never accepts a refutation of a satisfiable formula, a proof with an invalid lemma, or one that derives no contradiction. It accepts every proof whose lemmas are RUP or RAT on their first literal with respect to the clauses that are present (deletions of unit clauses are ignored) and that contains the empty clause, in particular every proof the solver writes. It never crashes on a damaged proof.",
     ["inputs"], "all formulas x all proof files (solver-written, hand-made, mutated, truncated, compressed)",
     "Existing tests check the proofs of a few fixed runs; they never offer a wrong proof.",
     ["core/DRATChecker.h", "core/DRATChecker.cc", "core/clauses/ClauseDatabase.h", "core/Trail.h", "systems/propagate/Propagate.h"],
     [("RUP and RAT checks, deletions", "core/DRATChecker.cc"), ("propagation of attached clauses", "systems/propagate/Propagate.h")],
     ["result of check_proof"],
     "generated formulas x generated and mutated proofs; naive clause-list reference checker and reference solver as oracle",
     "Where checkers may differ (deleted clauses used by propagation, RAT on a later literal, repeated literals) only soundness is asserted.")

prop("C16", "Parallel solving gives right answers without data races or crashes",
     "With any number of solver threads the program gives the same right verdict, model, exit status and line-wise output as with one thread, for every schedule of the threads; the threads share no unsynchronised state (no data race), and leaving early never crashes.",
     ["schedules", "inputs", "configurations"], "all formulas x 2 to 16 threads x all schedules",
     "No existing test runs more than one solver thread.",
     ["Main.cc", "core/Solver.h", "core/clauses/ClauseAllocator.h", "utils/Options.h", "systems/branching/rsil/BranchingHeuristics.h"],
     [("thread start, result hand-over and leaving", "Main.cc"), ("termination polling", "core/Solver.h")],
     ["standard output, exit status, ThreadSanitizer reports"],
     "generated formulas run with several threads, including formulas that keep all threads busy; verdict/model oracle plus ThreadSanitizer as race oracle",
     "Schedules are sampled by the operating system, not enumerated. -certified-output with several threads is out of scope: all threads write one file.")

prop("C17", "Abstraction refinement never changes the answer, and drops what it is told",
     "For every formula, every set of conjectures (true or false) and every refinement heuristic, the abstraction-refinement solver answers as plain solving does, and its models satisfy the formula. After every refinement step the encoded approximation is satisfied by exactly the assignments that satisfy the conjectures that are left: removed variables are unconstrained, the others keep their equivalences and constants.",
     ["inputs", "configurations", "histories"], "all formulas x conjecture sets x sequences of removals",
     "Existing tests run a handful of small circuits with one or two refinement steps.",
     ["rsar/ARSolver.h", "rsar/ARSolver.cc", "rsar/ApproximationState.h", "rsar/ApproximationState.cc", "rsar/Refinement.h", "rsar/Refinement.cc", "rsar/Heuristics.h", "rsar/Heuristics.cc", "frontend/SolverFactory.h"],
     [("refinement loop", "rsar/ARSolver.cc"), ("encoding of conjectures and assumptions", "rsar/Refinement.cc"), ("removal heuristics", "rsar/Heuristics.cc")],
     ["clauses and assumption literals of the approximation; verdict and model of the solver"],
     "generated conjectures x scripted removal histories; exhaustive model comparison per step, reference solver for the answers",
     "Approximations over at most nine variables are compared by enumerating all assignments.")

prop("C18", "cnf2aig prints a circuit that is equivalent to the formula",
     "For every CNF formula, the cnf2aig program prints a well-formed ASCII AIGER file: every literal is in range, every variable is defined at most once, every used variable is an input or an and-gate, and the gates are acyclic. Inputs keep the names they have in the formula. For every assignment of the inputs, the circuit's output is true exactly when that assignment extends to a model of the formula; so the circuit is satisfiable exactly when the formula is. Input that cannot be read gives exit status 1 and no circuit.",
     ["inputs"], "all CNF formulas (circuits, miters, damaged circuits, arbitrary clause sets)",
     "No existing test runs or includes the converter.",
     ["gates/AIGProblem.h", "gates/GateAnalyzer.cc", "gates/GateProblem.h"],
     [("conversion of gates and root clauses to and-gates", "gates/AIGProblem.h"), ("AIGER output", "gates/AIGProblem.h")],
     ["standard output and exit status of the program"],
     "generated formulas converted by the built program; AIGER grammar and evaluation against the reference solver on all (or sampled) inputs",
     "Up to eight inputs: all assignments; beyond that a model, its neighbours and random assignments.")

prop("C19", "Formula fingerprints depend on exactly what they promise",
     "The MD5 digest is the RFC 1321 digest of the bytes it was fed, in whatever pieces and alignment. The GBD hash of a formula is the same for every layout of the same clause list (comments, header, blanks, line breaks) and differs as soon as a literal, a clause border, the order or the number of clauses changes. The degree hash is the digest of the sorted numbers of occurrences of the literals after the unit clauses of the formula have been applied, so renaming and flipping variables and reordering clauses and literals never change it.",
     ["inputs"], "all byte strings and ways to feed them; all formulas, layouts, renamings and single changes",
     "Existing tests hash no more than a few formulas; block borders, digit borders and repeated facts need particular lengths and clauses.",
     ["gbd/md5/md5.h", "gbd/md5/md5.cpp", "gbd/hash.h", "gbd/hash.cpp"],
     [("incremental digest", "gbd/md5/md5.cpp"), ("formula hashes", "gbd/hash.cpp")],
     ["hash strings"],
     "generated byte strings, renderings and single changes; independent MD5, metamorphic equality and inequality",
     "Inequality is up to MD5 collisions, which random inputs do not produce.")

prop("C20", "Graph measures behind centrality branching have their defined values",
     "For every graph that is built edge by edge (directed or undirected, with duplicate edges, self loops, isolated parts): node, edge and self-loop counts, neighbours, reciprocity, density, degrees, triangles, wedges and clustering, the partition into weak and strong components and the scope of the largest one, the sizes of the components, in- and out-degrees with their distributions and centralities, all pairwise distances, the distance distribution, eccentricities and eccentricity centrality, radius, diameter, centre and periphery (by search from every node and by bounding with pruning) and the exact betweenness centrality are what their definitions give; sampled betweenness stays within [0,1]. A graph that was cleared is as good as a new one.",
     ["inputs"], "all finite graphs and orders of adding their edges",
     "No existing test builds a graph.",
     ["teexgraph/Graph.h", "teexgraph/Graph.cpp", "teexgraph/BDGraph.cpp", "teexgraph/CenGraph.cpp"],
     [("edge lists and components", "teexgraph/Graph.cpp"), ("bounding diameters", "teexgraph/BDGraph.cpp"), ("betweenness", "teexgraph/CenGraph.cpp")],
     ["return values of the graph methods"],
     "generated graphs of up to 14 nodes against brute force over all pairs, under ASan/UBSan too",
     "Closeness centrality, sampled distances and the clustering ratio of graphs without wedges are not claimed.")

prop("C21", "Solvers are isolated from each other and runs repeat exactly",
     "Solver instances of one process share nothing that matters: a sequence of calls to a solver (clauses, assumptions, solve, termination) gives the same answers when it is run again, and when it is run after or interleaved with other solvers, gate analyses and model minimisers of the same process; without simplification also the same models, failed assumptions, numbers of conflicts and learnt clauses. Helper objects leave all settings as they found them. A solver that was cleared answers for the formulas it is given from then on as a new solver would. Running the program twice with the same command line gives the same verdict, model and proof.",
     ["histories", "configurations"], "all scripts of calls x all interleavings of two scripts x other uses of the library in between",
     "Tests look at one solver at a time and never compare two runs.",
     ["core/Solver.h", "core/SolverTypes.h", "core/clauses/ClauseAllocator.h", "core/clauses/ClauseDatabase.h", "gates/GateAnalyzer.cc", "minimizer/Minimizer.cc", "frontend/CandyBuilder.cc", "frontend/CLIOptions.cc", "ipasir/ipasircandy.cc"],
     [("configuration of helper solvers", "minimizer/Minimizer.cc"), ("configuration of helper solvers", "gates/GateAnalyzer.cc"), ("clause memory", "core/clauses/ClauseAllocator.h")],
     ["answers, models, failed assumptions, learnt clauses; program output and proof bytes"],
     "stateful generated scripts, metamorphic comparison of transcripts (repeated, interleaved, after bystanders)",
     "Single-threaded runs; the scripts cover formulas of up to about 150 variables. Simplification breaks ties between duplicate clauses by address (so that parallel solvers agree), so whole transcripts are compared without it only.")

prop("C22", "Propagation is complete and learnt clauses are implied, asserting and minimal",
     "After every propagation (with two-watched literals and with the static layout for original clauses) either a clause is falsified and reported as conflict, or no clause of the database is unit or falsified: exactly the literals that naive unit propagation finds are assigned, each with a reason clause that implied it and with the right decision level. Backtracking removes exactly the assignments above its level. Conflict analysis returns a clause that unit propagation derives, that contains exactly one literal of the conflict level, in first place, with the right backjump level and LBD; final analysis returns exactly a set of assumptions that contradict each other. All of this keeps holding after clauses are removed, strengthened, reduced and reorganised in memory.",
     ["inputs", "histories"], "all clause sets x histories of decisions, conflicts, backjumps, clause removals, strengthenings and memory reorganisations",
     "Existing tests propagate a few hand-written clauses; lost watches show only after particular sequences of decisions and backjumps.",
     ["systems/propagate/Propagate.h", "systems/propagate/StaticPropagate.h", "systems/learning/ConflictAnalysis.h", "core/Trail.h", "core/clauses/ClauseDatabase.h"],
     [("watcher lists", "systems/propagate/Propagate.h"), ("static clauses by size", "systems/propagate/StaticPropagate.h"), ("first unique implication point and minimisation", "systems/learning/ConflictAnalysis.h"), ("trail and levels", "core/Trail.h")],
     ["trail, values, reasons, levels, returned conflicts and learnt clauses"],
     "stateful generated histories on the real units against naive unit propagation and checks of each learnt clause (RUP, 1-UIP, minimality, LBD)",
     "Sequential use of the units as in the search loop; the database shared between threads, which the program does not enable, is not claimed.")

prop("C23", "Containers and clause memory keep their contents over any history",
     "The priority queue always yields a best element of those it contains, the bounded queue holds the last k pushed elements in order with their sum and average, and a stamp set contains exactly what was added since it was cleared. Clause memory never hands out overlapping memory; clauses keep their literals and attributes over any history of allocation, removal, strengthening and reorganisation; and database reduction removes only learnt clauses that are neither locked nor protected by their quality.",
     ["histories"], "all sequences of container operations; all histories of clause creation, removal, strengthening, reduction and reorganisation",
     "Existing tests cover short hand-written sequences; wrap-around, memory reuse and page borders need long histories.",
     ["mtl/Heap.h", "mtl/BoundedQueue.h", "mtl/Stamp.h", "mtl/Memory.h", "core/clauses/ClauseAllocator.h", "core/clauses/ClauseDatabase.h", "core/clauses/Clause.h", "systems/ReduceDB.h"],
     [("binary heap with positions", "mtl/Heap.h"), ("pages, pools and compaction", "core/clauses/ClauseAllocator.h"), ("registration and reorganisation", "core/clauses/ClauseDatabase.h"), ("choice of clauses to forget", "systems/ReduceDB.h")],
     ["contents of the containers, literals and attributes of clauses, addresses of allocations"],
     "stateful model-based generation of operation sequences against standard containers, under ASan/UBSan too",
     "Clause memory is used by one thread.")

prop("C24", "Branching picks the best eligible variable, restarts follow their rule",
     "Every decision is on an unassigned, eligible variable, and there is none only if all eligible variables are assigned. Without advice it is a variable of the highest score with its saved phase: for VSIDS the exponentially decaying number of conflicts it took part in, for VSIDSC the same weighted by the centrality of the variable in the formula's graph, for LRB the recency-weighted average of its learning rate. With conjectures, decisions contradict a conjecture about the latest assignments while its budget lasts, and conjectured backbones are tried against their conjectured value; the configured mode and advice size decide which of the heuristics is used. Restarts happen exactly when the average LBD of the recent conflicts exceeds the overall one by the configured factor, and are postponed when the trail is much longer than usual.",
     ["inputs", "histories", "configurations"], "all formulas x histories of decisions and conflicts x conjectures, modes and settings",
     "Existing tests check the advice on a few fixed trails and no scores; a wrong choice never changes an answer, so solving tests cannot see it.",
     ["systems/branching/VSIDS.h", "systems/branching/VSIDSC.h", "systems/branching/LRB.h", "systems/branching/rsil/BranchingHeuristics.h", "systems/branching/rsil/ImplicitLearningAdvice.h", "systems/Restart.h", "frontend/CandyBuilder.h", "frontend/CandyBuilder.cc"],
     [("activities and priority queue", "systems/branching/VSIDS.h"), ("learning rates", "systems/branching/LRB.h"), ("implicit learning advice", "systems/branching/rsil/BranchingHeuristics.h"), ("restart trigger", "systems/Restart.h"), ("choice of the unit", "frontend/CandyBuilder.cc")],
     ["picked literals, scores, restart decisions, type of the unit"],
     "stateful search loop on the real units against a model of scores, phases, conjectures and queues",
     "The centrality scores of VSIDSC are not modelled (its answers are covered by C01 to C04). The random choices of the vanishing mode are only bounded.")

prop("C25", "Gate traversal, miter detection and search advice follow the gate structure",
     "For every gate structure and pruning rule, depth-first traversal visits exactly the unpruned gates that lie below a root over unpruned gates, each once, leaves a gate after all visited gates among its inputs, and reports every plain input of a visited gate once. Miter detection says yes exactly if gates nested non-monotonically exist and the border gates of the monotonic region have two inputs each and compare pairs of signals, as XORs over disjoint inputs or as and-gates that use every input once in each sign. Advice built from conjectures holds for each variable exactly the literals that would contradict an equivalence of at most the configured size, or its backbone; filtering by heuristics removes exactly the advice for and about the variables they mark; advice literals keep their budgets.",
     ["inputs", "histories"], "all CNF-derived gate structures x pruning rules; all conjecture sets x filters; all histories of an advice entry",
     "Existing tests traverse two fixed structures, and detect two miters; a wrong visit, answer or advice literal changes only how the search is guided, so solving tests cannot see it.",
     ["gates/GateDFSTraversal.h", "gates/MiterDetector.cc", "gates/MiterDetector.h", "systems/branching/rsil/ImplicitLearningAdvice.h", "systems/branching/rsil/RSARHeuristicsFilter.h"],
     [("work stack and visited gates", "gates/GateDFSTraversal.h"), ("border gates and their comparison", "gates/MiterDetector.cc"), ("advice per variable", "systems/branching/rsil/ImplicitLearningAdvice.h"), ("filtering", "systems/branching/rsil/RSARHeuristicsFilter.h")],
     ["traversal callbacks, miter answer, advice literals and budgets"],
     "generated gate structures, pruning sets and conjectures against reference reachability, a direct reading of the miter conditions and set models; stateful generation for advice entries",
     "Conjectures are over disjoint variables, as random simulation produces them. Whether a formula really stems from a miter is a heuristic question and not claimed.")
