"""Which generated-input jobs decide which property."""


def job(variant, harness, prop, quick, thorough, **kw):
    return dict(variant=variant, harness=harness, prop=prop, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "C01": {
        "rule": "a case is a generated CNF (nine families: random k-SAT near the threshold, 2+p, parity, pigeonhole, colouring, circuits, miters, odd small shapes) and a generated solver configuration; non-trivial = the search had a conflict or the formula has more than five clauses",
        "jobs": [job("fast", "solve", "verdict", 200000, 8000000),
                 job("fast", "solve", "verdict", 60000, 4000000, size=3, tag="big"),
                 job("fast", "solve", "verdict", 10000, 400000, size=9, tag="hard"),
                 job("fast", "solve", "verdict", 800, 40000, size=20, tag="wide"),
                 job("fast", "solve", "verdictc", 120, 4000, workers=3),
                 job("fast", "simp", "simplify", 60000, 3000000),
                 job("fast", "solve", "longclause", 120, 4000, workers=3),
                 job("san", "solve", "verdict", 8000, 200000)],
    },
    "C02": {
        "rule": "as C01; non-trivial = the solver said SATISFIABLE for a formula with more than two clauses, so a model was checked",
        "jobs": [job("fast", "solve", "model", 200000, 8000000),
                 job("fast", "solve", "model", 60000, 4000000, size=3, tag="big"),
                 job("fast", "solve", "model", 10000, 400000, size=9, tag="hard"),
                 job("fast", "solve", "model", 800, 40000, size=20, tag="wide"),
                 job("fast", "solve", "modelc", 120, 4000, workers=3)],
    },
    "C03": {
        "rule": "a case is a generated CNF and configuration solved with proof logging; non-trivial = UNSATISFIABLE, not refuted by unit propagation alone, and the proof adds more than one lemma",
        "jobs": [job("fast", "proof", "drat", 120000, 3000000),
                 job("fast", "proof", "drat", 12000, 800000, size=3, tag="big"),
                 job("fast", "proof", "drat", 3000, 200000, size=9, tag="hard"),
                 job("fast", "proof", "drat", 800, 40000, size=20, tag="wide"),
                 job("fast", "simp", "simpdrat", 80000, 3000000)],
    },
    "C04": {
        "rule": "a case is a generated history of add/assume/solve/value/callback operations; non-trivial = at least two solve calls over more than three clauses",
        "jobs": [job("fast", "inc", "incremental", 150000, 2000000),
                 job("fast", "inc", "incrementalc", 150, 6000, workers=3),
                 job("san", "inc", "incrementalc", 30, 1200, workers=2),
                 job("fast", "inc", "incdeep", 30000, 800000),
                 job("san", "inc", "incdeep", 1000, 30000),
                 job("san", "inc", "incremental", 3000, 80000)],
    },
    "C05": {
        "rule": "a case is a generated history with up to ten assumptions per call; non-trivial = an unsatisfiable call with more than one assumption and a non-empty set of failed assumptions",
        "jobs": [job("fast", "inc", "failed", 300000, 2000000),
                 job("fast", "inc", "faileddeep", 20000, 600000),
                 job("san", "inc", "failed", 2500, 80000)],
    },
    "C06": {
        "rule": "a case is a generated history with learn/terminate callbacks set, replaced and removed; non-trivial = a learnt clause was exported or a search was interrupted",
        "jobs": [job("fast", "inc", "callbacks", 100000, 2000000),
                 job("fast", "inc", "learnmax", 30000, 600000),
                 job("san", "inc", "callbacks", 1500, 60000)],
    },
    "C07": {
        "rule": "a case is a generated CNF and simplification settings; non-trivial = the simplification changed the clause set",
        "jobs": [job("fast", "simp", "simplify", 300000, 6000000),
                 job("san", "simp", "simplify", 8000, 200000)],
    },
    "C08": {
        "rule": "a case is a generated circuit CNF (complete, one-sided, damaged or layered encodings) or arbitrary CNF and a recognition method; non-trivial = at least two gates were recognised",
        "jobs": [job("fast", "gates", "gates", 200000, 4000000),
                 job("fast", "gates", "gates", 4000, 100000, size=3, tag="big"),
                 job("fast", "gates", "complete", 60000, 2000000),
                 job("fast", "gates", "complete", 8000, 200000, size=3, tag="big"),
                 job("fast", "gates", "prune", 100000, 2000000),
                 job("fast", "gates", "prune", 6000, 200000, size=3, tag="big"),
                 job("fast", "gates", "builder", 20000, 400000),
                 job("san", "gates", "gates", 4000, 100000)],
    },
    "C09": {
        "rule": "a case is a generated circuit CNF and simulation settings (or, randomize, a randomisation strategy and a set of vectors); non-trivial = at least two gates are simulated, or two vectors are drawn",
        "jobs": [job("fast", "gates", "order", 60000, 2000000),
                 job("fast", "gates", "order", 4000, 100000, size=3, tag="big"),
                 job("fast", "gates", "simulate", 60000, 2000000),
                 job("fast", "gates", "simulate", 8000, 200000, size=3, tag="big"),
                 job("fast", "gates", "randomize", 20000, 600000),
                 job("san", "gates", "order", 3000, 100000),
                 job("san", "gates", "simulate", 3000, 100000)],
    },
    "C10": {
        "rule": "a case is a clause list and a rendering of it (comments, blanks, line breaks, header, padding across the 1 MB read buffer; plain, gzip, standard input, pipe), or operations on the problem container; non-trivial = more than two clauses",
        "jobs": [job("fast", "parse", "wellformed", 16000, 600000, kind="c"),
                 job("fast", "parse", "container", 80000, 2000000, kind="c"),
                 job("san", "parse", "wellformed", 800, 40000, kind="c"),
                 job("san", "parse", "container", 3000, 80000, kind="c")],
    },
    "C11": {
        "rule": "a case is a text with one defect of a known kind, or a sequence of tokens/bytes judged by a strict reference reader; non-trivial = the reference gives a definite answer",
        "jobs": [job("fast", "parse", "malformed", 40000, 1000000, kind="c"),
                 job("fast", "parse", "bytes", 80000, 2000000, kind="c"),
                 job("san", "parse", "malformed", 3000, 80000, kind="c"),
                 job("san", "parse", "bytes", 6000, 160000, kind="c")],
    },
    "C12": {
        "rule": "a case is a generated satisfiable CNF, a minimisation mode and the projection to inputs; non-trivial = the minimised model has more than one literal and fewer than the formula has variables",
        "jobs": [job("fast", "minim", "minimal", 150000, 2000000),
                 job("fast", "minim", "minimal", 4000, 100000, size=3, tag="big"),
                 job("fast", "minim", "minimum", 100000, 1500000),
                 job("fast", "gates", "prune", 100000, 2000000),
                 job("san", "minim", "minimal", 1000, 40000),
                 job("san", "minim", "minimum", 1000, 40000)],
    },
    "C13": {
        "rule": "a case is a generated command line over every registered option (values in range, at the borders, out of range, malformed; unknown arguments mixed in); non-trivial = at least two arguments, or an argument that has to be refused",
        "jobs": [job("fast", "opts", "options", 40000, 1000000, kind="c"),
                 job("san", "opts", "options", 2000, 60000, kind="c"),
                 job("fast", "opts", "help", 3000, 60000, kind="c"),
                 job("san", "opts", "help", 200, 6000, kind="c")],
    },
    "C14": {
        "rule": "a case is a generated CNF, a way to hand it over (file, gzip, standard input) and a generated command line for the built candy program; non-trivial = more than three clauses, an input that has to be refused, or an interrupt that was noticed",
        "jobs": [job("fast", "cli", "answer", 24000, 400000, needs=["fast:m:Main"]),
                 job("fast", "cli", "gatestats", 3000, 100000, needs=["fast:m:Main"]),
                 job("fast", "cli", "badinput", 3000, 100000, needs=["fast:m:Main"]),
                 job("fast", "cli", "interrupt", 240, 8000, needs=["fast:m:Main"], flaky=True),
                 job("san", "cli", "answer", 240, 10000, needs=["san:m:Main"]),
                 job("san", "cli", "gatestats", 160, 10000, needs=["san:m:Main"]),
                 job("san", "cli", "badinput", 160, 10000, needs=["san:m:Main"])],
    },
    "C15": {
        "rule": "a case is a formula and a proof (written by the solver, by the reference solver or at random) after up to four mutations; non-trivial = the reference decides whether it has to be accepted, and the formula is not refuted by unit propagation alone or the proof has more than one line",
        "jobs": [job("fast", "check", "checker", 240000, 4000000),
                 job("fast", "check", "selfcheck", 60000, 2000000),
                 job("fast", "check", "selfcheck", 3000, 200000, size=9, tag="hard"),
                 job("fast", "check", "selfcheck", 600, 30000, size=20, tag="wide"),
                 job("san", "check", "checker", 4000, 100000)],
    },
    "C16": {
        "rule": "a case is a generated CNF solved by the built candy program with 2 to 8 threads; non-trivial = more than three clauses (parallel), at least two solvers were running at the same time (concurrent)",
        "jobs": [job("fast", "cli", "parallel", 1200, 40000, needs=["fast:m:Main"], flaky=True),
                 job("fast", "cli", "concurrent", 160, 8000, needs=["fast:m:Main"], flaky=True, workers=4),
                 job("tsan", "cli", "parallel", 64, 2000, needs=["tsan:m:Main"], flaky=True, workers=4),
                 job("tsan", "cli", "concurrent", 12, 400, needs=["tsan:m:Main"], flaky=True, workers=3)],
    },
    "C17": {
        "rule": "a case is a set of conjectures and a script of removals (approximation), a circuit with conjectures and a heuristic (arsolver, inputdeps), or a command line with -rsar-enable; non-trivial = something was removed, or the solver ran with conjectures",
        "jobs": [job("fast", "rsar", "approximation", 200000, 3000000),
                 job("fast", "rsar", "arsolver", 120000, 1500000),
                 job("fast", "rsar", "inputdeps", 60000, 2000000),
                 job("fast", "rsar", "depremoval", 60000, 2000000),
                 job("fast", "cli", "rsar", 10000, 200000, needs=["fast:m:Main"]),
                 job("san", "rsar", "approximation", 3000, 100000),
                 job("san", "rsar", "arsolver", 1500, 50000)],
    },
    "C18": {
        "rule": "a case is a generated circuit CNF or arbitrary CNF converted by the built cnf2aig program; non-trivial = the result has at least two and-gates",
        "jobs": [job("fast", "aig", "cnf2aig", 40000, 1000000, kind="c", needs=["fast:m:cnf2aig"]),
                 job("fast", "aig", "badcnf", 3000, 60000, kind="c", needs=["fast:m:cnf2aig"]),
                 job("san", "aig", "cnf2aig", 400, 20000, kind="c", needs=["san:m:cnf2aig"])],
    },
    "C19": {
        "rule": "a case is a byte string cut into pieces (digest), or a rendering of a formula and a variant of it (gbd, degree); non-trivial = more than one piece and more than one block, or more than two clauses",
        "jobs": [job("fast", "hash", "digest", 100000, 3000000, kind="c"),
                 job("fast", "hash", "digestlong", 48, 2000, kind="c"),
                 job("fast", "hash", "gbd", 60000, 1000000, kind="c"),
                 job("fast", "hash", "degree", 100000, 3000000, kind="c"),
                 job("fast", "hash", "digestgiga", 2, 16, kind="c", workers=2),
                 job("san", "hash", "digest", 4000, 100000, kind="c"),
                 job("san", "hash", "gbd", 2000, 60000, kind="c"),
                 job("san", "hash", "degree", 4000, 100000, kind="c")],
    },
    "C20": {
        "rule": "a case is a generated graph (directed or undirected, disconnected, trees with twigs, duplicate edges, self loops); non-trivial = at least four nodes and three edges",
        "jobs": [job("fast", "graph", "topology", 80000, 3000000, kind="c"),
                 job("fast", "graph", "distances", 80000, 3000000, kind="c"),
                 job("fast", "graph", "betweenness", 80000, 3000000, kind="c"),
                 job("san", "graph", "topology", 6000, 100000, kind="c"),
                 job("san", "graph", "distances", 6000, 100000, kind="c"),
                 job("san", "graph", "betweenness", 6000, 100000, kind="c")],
    },
    "C21": {
        "rule": "a case is one or two generated scripts of solver calls (repeated, or interleaved with each other and with gate analyses, minimisers and other solvers), a command line that is run twice, or (clear) formulas that one solver is given one after the other with clear() between them; non-trivial = a clause was learnt, or more than three clauses",
        "jobs": [job("fast", "iso", "repeat", 80000, 1000000),
                 job("fast", "iso", "interleave", 60000, 1000000),
                 job("fast", "iso", "repeat", 4000, 100000, size=9, tag="hard"),
                 job("fast", "cli", "repeat", 8000, 100000, needs=["fast:m:Main"]),
                 job("fast", "iso", "clear", 40000, 1000000),
                 job("fast", "iso", "clearc", 120, 4000, workers=3),
                 job("san", "iso", "clear", 600, 20000),
                 job("san", "iso", "interleave", 1200, 40000)],
    },
    "C22": {
        "rule": "a case is a generated CNF and a history of decisions, propagations, conflicts, backjumps, restarts, removals and strengthenings on the units of the solver; non-trivial = a conflict was analysed",
        "jobs": [job("fast", "prop", "watch", 120000, 3000000, kind="c"),
                 job("fast", "prop", "watch", 16000, 400000, kind="c", size=3, tag="big"),
                 job("fast", "prop", "staticwatch", 80000, 2000000, kind="c"),
                 job("fast", "prop", "staticwatch", 8000, 400000, kind="c", size=3, tag="big"),
                 job("fast", "prop", "watch", 600, 30000, kind="c", size=9, tag="deep"),
                 job("san", "prop", "watch", 6000, 100000, kind="c"),
                 job("fast", "prop", "staticwatch", 600, 30000, kind="c", size=9, tag="deep"),
                 job("san", "prop", "staticwatch", 4000, 100000, kind="c")],
    },
    "C23": {
        "rule": "a case is a generated sequence of operations on a container (heap, bounded queue, stamp) or on clause memory (allocate, free, import, reorganise, reduce); non-trivial = as many operations as are needed to reuse memory or slots",
        "jobs": [job("fast", "mem", "heap", 300000, 6000000, kind="c"),
                 job("fast", "mem", "bounded", 300000, 6000000, kind="c"),
                 job("fast", "mem", "stamp", 100000, 1000000, kind="c"),
                 job("fast", "mem", "memory", 1600, 20000, kind="c"),
                 job("fast", "mem", "clausemem", 8000, 80000, kind="c"),
                 job("fast", "mem", "reducedb", 100000, 500000, kind="c"),
                 job("san", "mem", "heap", 4000, 100000, kind="c"),
                 job("san", "mem", "bounded", 4000, 100000, kind="c"),
                 job("san", "mem", "clausemem", 64, 4000, kind="c"),
                 job("san", "mem", "reducedb", 800, 20000, kind="c")],
    },
    "C24": {
        "rule": "a case is a generated CNF solved step by step with a branching unit and generated conjectures (vsids, vsidsc, lrb, rsil), a sequence of conflicts (restart), or solver settings (factory); non-trivial = more than one conflict, a restart, or random-simulation branching",
        "jobs": [job("fast", "branch", "vsids", 240000, 1000000),
                 job("fast", "branch", "lrb", 200000, 1000000),
                 job("fast", "branch", "vsids", 16000, 80000, size=3, tag="big"),
                 job("fast", "branch", "lrb", 16000, 80000, size=3, tag="big"),
                 job("fast", "branch", "rsil", 400000, 1500000),
                 job("fast", "branch", "rsil", 30000, 100000, size=3, tag="big"),
                 job("fast", "branch", "vsidsc", 400, 20000),
                 job("fast", "branch", "restart", 100000, 500000),
                 job("fast", "branch", "factory", 1200, 20000),
                 job("san", "branch", "vsids", 1500, 50000),
                 job("san", "branch", "lrb", 1500, 50000),
                 job("san", "branch", "rsil", 2000, 80000)],
    },
    "C25": {
        "rule": "a case is a gate structure recognised in a generated CNF and a set of variables to prune at (traverse), a CNF (miter), a conjecture set and filters (advice), or a history of an advice entry; non-trivial = more than two gates are visited, the monotonic region has a border, something is filtered, or several literals are removed",
        "jobs": [job("fast", "gates", "traverse", 120000, 3000000),
                 job("fast", "gates", "traverse", 8000, 200000, size=3, tag="big"),
                 job("fast", "gates", "miter", 160000, 4000000),
                 job("fast", "gates", "miter", 6000, 150000, size=3, tag="big"),
                 job("fast", "rsar", "advice", 160000, 4000000),
                 job("fast", "rsar", "entry", 80000, 2000000),
                 job("san", "gates", "traverse", 2000, 60000),
                 job("san", "gates", "miter", 2000, 60000),
                 job("san", "rsar", "advice", 3000, 80000)],
    },
}
