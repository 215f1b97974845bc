From e1368827ddcc2f851e5dcee2e04b2b71630fba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:52 +0000
Subject: [PATCH 01/59] fix: drop clauses removed by preprocessing from the
 clause database before search

---
 src/candy/core/Solver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..291834b 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -442,6 +442,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
     if (this->preprocessing_enabled) {
         std::cout << "c Preprocessing ... " << std::endl;
         processClauseDatabase();
+        clause_db.reorganize();
         propagator.reset();
     }
 
-- 
2.43.0


From c5fe64486b3044e2eb75487f0721e5d7c1574651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:52 +0000
Subject: [PATCH 02/59] fix: do not reassign an eliminated variable whose value
 is already implied

---
 src/candy/simplification/VariableElimination.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..d73c9cd 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -139,6 +139,7 @@ public:
     void propagate_eliminated_variables() {
         for (auto it = eliminiated_variables.rbegin(); it != eliminiated_variables.rend(); it++) {
             Var var = *it;
+            if (trail.value(var) != l_Undef) continue; // value is already implied
             bool value_set = false;
             for (Cl clause : eliminated_clauses[var]) {
                 if (!trail.satisfies(clause.begin(), clause.end())) {
-- 
2.43.0


From 485067f6ba7d0275f83875677644d4a991680d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:52 +0000
Subject: [PATCH 03/59] fix: start the extra-bump loop at the current decision
 level's first trail entry

---
 src/candy/systems/branching/VSIDS.h  | 2 +-
 src/candy/systems/branching/VSIDSC.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..e587279 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..ea70095 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -261,7 +261,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From dd21297b9d7fbd00e32ee96adfbc3f6f45c71c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:52 +0000
Subject: [PATCH 04/59] fix: make partition group ids nonlinear so random
 inputs do not collide with constants

---
 src/candy/randomsimulation/Partition.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index bbd828a..fbba51a 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -213,6 +213,13 @@ namespace Candy {
         float m_reductionRate = 1.0f;
     };
     
+    /* fastNextRand() is linear over GF(2) and also generates the simulation vectors, so without
+     the (nonlinear) multiplication, the group ID of a random input's vectors can cancel out to the
+     group ID of a constant. */
+    static uint64_t nextGroupId(uint64_t groupId, uint64_t simulationResult) {
+        return fastNextRand((groupId ^ simulationResult) * 0x9E3779B97F4A7C15ull);
+    }
+    
     DefaultPartition::DefaultPartition(std::unique_ptr<CompressionScheduleStrategy> compressionSched)
     : Partition(),
     m_round(0),
@@ -235,7 +242,7 @@ namespace Candy {
     void DefaultPartition::initializePartitionEntry(size_t index, const SimulationVectors &varAssignments) {
         
         PartitionEntry partitionEntry;
-        partitionEntry.groupId = fastNextRand(varAssignments.getConst(index).vars[0]);
+        partitionEntry.groupId = nextGroupId(0, varAssignments.getConst(index).vars[0]);
         partitionEntry.varId = index;
         partitionEntry.backbone = 1;
         partitionEntry.polarity = 1;
@@ -246,7 +253,7 @@ namespace Candy {
         partitionEntry.backbone = 0;
         partitionEntry.polarity = 0;
         partitionEntry.groupId =
-          fastNextRand(~(varAssignments.getConst(index).vars[0]));
+          nextGroupId(0, ~(varAssignments.getConst(index).vars[0]));
         m_partitioningNeg.push_back(partitionEntry);
     }
     
@@ -260,7 +267,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ simVec.vars[svIdx]);
+                  nextGroupId(partitionEntry.groupId, simVec.vars[svIdx]);
             }
             
             if (partitionEntry.backbone) {
@@ -284,7 +291,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
+                  nextGroupId(partitionEntry.groupId, ~(simVec.vars[svIdx]));
             }
         }
     }
-- 
2.43.0


From 1ef677b3d1f2372239cd53060adb596ab2350805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:59 +0000
Subject: [PATCH 05/59] fix: ipasir_val returns 0 for variables without a value
 instead of contradictory literals

---
 src/candy/ipasir/ipasircandy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..f7ddd25 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -97,7 +97,7 @@ public:
     int val(int lit) {
         if (nomodel) return 0;
         CandySolverResult& result = solver->getCandySolverResult();
-        return result.satisfies(import(lit)) ? lit : -lit;
+        return result.satisfies(import(lit)) ? lit : (result.satisfies(~import(lit)) ? -lit : 0);
     }
 
     int failed(int lit) {
-- 
2.43.0


From 5f5fe16d3fddae447fb0319b76cad70c98c5e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:59 +0000
Subject: [PATCH 06/59] fix: let ipasir_assume introduce variables that occur
 in no clause

---
 src/candy/ipasir/ipasircandy.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index f7ddd25..c6d3a3d 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -85,6 +85,9 @@ public:
 
     int solve() {
         drop_analysis();
+        for (Lit lit : assumptions) { // an assumption may introduce a new variable
+            while ((Var)problem.nVars() <= lit.var()) problem.newVar();
+        }
         solver->init(problem);
         solver->getAssignment().setAssumptions(assumptions);
         lbool res = solver->solve();
-- 
2.43.0


From 40775c85a20d7198d89b8fdeb40410753c42652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 07/59] fix: a null terminate callback unregisters the callback
 instead of crashing

---
 src/candy/core/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 291834b..25e158e 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -144,7 +144,7 @@ public:
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
-        this->termCallback = termCallback;
+        this->termCallback = termCallback != nullptr ? termCallback : [](void*) -> int { return 0; };
     }
 
     void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) override { 
-- 
2.43.0


From e24956459489eca129a97dc76814e84778cdbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 08/59] fix: variables introduced after the last elimination
 are not eliminated

---
 src/candy/simplification/VariableElimination.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index d73c9cd..3a4903b 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -133,7 +133,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return v < (Var)eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From ba11c09ea000f421cfd5d699ade056b0e2f7ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:51 +0000
Subject: [PATCH 09/59] fix: restore later-eliminated variables together with
 the clauses that contain them

---
 src/candy/simplification/VariableElimination.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index 3a4903b..a70d4ab 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,16 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // the restored clauses may contain variables that were eliminated later on
+        std::vector<Cl> restored = correction_set;
+        for (const Cl& clause : restored) {
+            for (Lit lit : clause) {
+                if (is_eliminated(lit.var())) {
+                    std::vector<Cl> cor = undo_elimination(lit.var());
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
-- 
2.43.0


From ddd0bebaddb906e34cde47266ef1f1d399ce66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 10/59] fix: size the level stamp by the decision level, which
 assumptions can raise above the variable count

---
 src/candy/core/Trail.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..dd23b08 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -300,6 +300,7 @@ public:
     inline uint_fast16_t computeLBD(Iterator it, Iterator end) {
         // TODO: exclude selectors from lbd computation
         uint_fast16_t nblevels = 0;
+        stamp.grow(decisionLevel() + 1); // assumptions may open more levels than there are variables
         stamp.clear();
 
         for (; it != end; it++) {
-- 
2.43.0


From 3f12126fb35a235cb8e3fbb23689c678daaf3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 11/59] fix: simulate monotonically nested gates by their
 forward clauses

The backward clauses of such a gate can be missing, incomplete or mention
variables that are no inputs of the gate; then the gate was simulated as a
constant or read outside of the simulation vectors.
---
 src/candy/randomsimulation/ClauseOrder.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..bedbae1 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -142,6 +142,21 @@ namespace Candy {
         return m_maxVar + 1;
     }
     
+    /* The backward clauses may contain variables which do not occur in the forward clauses, i.e.
+     which are not registered as inputs of the gate. */
+    static bool constrainsOnlyInputs(const For& clauses, const Gate& gate) {
+        for (const Cl* clause : clauses) {
+            for (Lit lit : *clause) {
+                if (lit.var() != gate.out.var()
+                    && std::find(gate.inp.begin(), gate.inp.end(), lit) == gate.inp.end()
+                    && std::find(gate.inp.begin(), gate.inp.end(), ~lit) == gate.inp.end()) {
+                    return false;
+                }
+            }
+        }
+        return true;
+    }
+    
     void ClauseOrderImplBase::backtrack(const GateAnalyzer& analyzer, const Gate &gate) {
         if (m_filteringEnabled) {
             // backtrack the gate only if
@@ -165,8 +180,9 @@ namespace Candy {
         Candy::Lit usedOutput;
         const For *usedGateClauses;
         
-        if (gate.hasNonMonotonicParent()
-            || gate.fwd.size() <= gate.bwd.size()) {
+        if (!gate.hasNonMonotonicParent()
+            || gate.fwd.size() <= gate.bwd.size()
+            || !constrainsOnlyInputs(gate.bwd, gate)) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
         }
-- 
2.43.0


From 6447652b89934cfb5a5c557cccfde71e45ab8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 12/59] fix: the non-recursive clause order ignored its gate
 filter

It never asked the filter for the enabled outputs, so with a filter it
dropped every gate.
---
 src/candy/randomsimulation/ClauseOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index bedbae1..f1d3202 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -352,6 +352,8 @@ namespace Candy {
     };
     
     void NonrecursiveClauseOrder::readGates(const GateAnalyzer& analyzer) {
+        ClauseOrderImplBase::readGates(analyzer);
+        
         DFSGateCollector orderedGates = traverseDFS<DFSGateCollector>(analyzer.getGateProblem());
         m_inputVariables = std::move(orderedGates.inputs);
         m_maxVar = orderedGates.maxVar;
-- 
2.43.0


From 6930faacf2ab5ecaa340835bf8f60701c9c36ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 13/59] fix: filter gates that depend on disabled gates
 transitively

---
 src/candy/randomsimulation/ClauseOrder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index f1d3202..62467ad 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -161,7 +161,8 @@ namespace Candy {
         if (m_filteringEnabled) {
             // backtrack the gate only if
             //  - its output is an enabled variable
-            //  - for none of its input variables i, the following holds: i is an output variable of a gate and i is disabled.
+            //  - for none of its input variables i, the following holds: i is an output variable of a gate and i has not
+            //    been backtracked itself, i.e. i is disabled or depends on a disabled variable.
             
             Candy::Var outputVar = gate.out.var();
             
@@ -171,7 +172,8 @@ namespace Candy {
             
             for (auto inputLit : gate.inp) {
                 if (analyzer.getResult().getGate(inputLit).isDefined()
-                    && m_enabledOutputs.find(inputLit.var()) == m_enabledOutputs.end()) {
+                    && (static_cast<size_t>(inputLit.var()) >= m_clausesByOutput.size()
+                        || m_clausesByOutput[inputLit.var()] == nullptr)) {
                     return; // no backtracking
                 }
             }
-- 
2.43.0


From 5d60bc5724b3b20299f6b9047ab3bbb742d4899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 14/59] fix: the recursive clause order listed a gate once per
 root literal

---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 62467ad..c19520b 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -254,7 +254,8 @@ namespace Candy {
         for (const Cl* rootClause : analyzer.getResult().getRoots()) {
             for (Lit rootLit : *rootClause) {
                 m_maxVar = std::max(m_maxVar, rootLit.var());
-                if (analyzer.getResult().getGate(rootLit).isDefined()) {
+                if (analyzer.getResult().getGate(rootLit).isDefined()
+                    && seenOutputs.find(rootLit.var()) == seenOutputs.end()) {
                     readGatesRecursive(analyzer, rootLit, seenInputs, seenOutputs);
                 }
             }
-- 
2.43.0


From c14264c5ae3034c9781c1fee7ec18a226bb4517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 15/59] fix: initialize all simulation vectors, not only the
 first

---
 src/candy/randomsimulation/SimulationVector.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/randomsimulation/SimulationVector.cc b/src/candy/randomsimulation/SimulationVector.cc
index 5675578..d4e398d 100644
--- a/src/candy/randomsimulation/SimulationVector.cc
+++ b/src/candy/randomsimulation/SimulationVector.cc
@@ -83,8 +83,8 @@ namespace Candy {
         
         AlignedSimVector *toBeInitialized = m_simulationVectors;
         for (size_t i = 0; i < m_size; ++i) {
-            new(toBeInitialized) SimulationVector;
-            toBeInitialized->initialize(0ull);
+            new(toBeInitialized + i) SimulationVector;
+            toBeInitialized[i].initialize(0ull);
         }
         
         m_isInitialized = true;
-- 
2.43.0


From f3836897e0616dd63ccf64652ade6bfae300a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 16/59] fix: let the alternating randomization alternate

---
 src/candy/randomsimulation/Randomization.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/randomsimulation/Randomization.cc b/src/candy/randomsimulation/Randomization.cc
index 2e6e84e..a4ffefe 100644
--- a/src/candy/randomsimulation/Randomization.cc
+++ b/src/candy/randomsimulation/Randomization.cc
@@ -258,6 +258,7 @@ namespace Candy {
         else {
             m_randomizationB->randomize(simVectors, indices);
         }
+        ++m_invocations;
     }
     
     
-- 
2.43.0


From ea1bfbc3507701d6663c767af9a0c2d41a4af557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 17/59] fix: normalizeVariableNames renamed every variable to
 the first one

The number of variables became zero as well, so the semantic gate check
solved a different problem with too small data structures.
---
 src/candy/core/CNFProblem.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/candy/core/CNFProblem.cc b/src/candy/core/CNFProblem.cc
index 34f5b01..7b1e215 100644
--- a/src/candy/core/CNFProblem.cc
+++ b/src/candy/core/CNFProblem.cc
@@ -154,12 +154,12 @@ bool CNFProblem::checkResult(CandySolverResult& result) {
  * */
 void CNFProblem::normalizeVariableNames() {
     std::unordered_map<Var, Var> name;
-    //name.resize(variables, -1);
     unsigned int max = 0;
     for (Cl* clause : problem) {
         for (Lit& lit : *clause) {
-            if (name[lit.var()] == -1) name[lit.var()] = max++;
-            lit = Lit(name[lit.var()], lit.sign());
+            auto entry = name.insert({ lit.var(), static_cast<Var>(max) });
+            if (entry.second) max++;
+            lit = Lit(entry.first->second, lit.sign());
         }
     }
     variables = max;
-- 
2.43.0


From 47bbe4189a2f636ddf7adfd7d26d559a5e80fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 18/59] fix: count distinct clauses of full size in the
 truth-table gate pattern

Doubled or shortened clauses made up for missing ones, and the output was
then reported as defined although some input assignments left it free.
---
 src/candy/gates/GateAnalyzer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index dc5b994..27e4089 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -203,7 +203,11 @@ bool GateAnalyzer::patternCheck(Lit o, const For& fwd, const For& bwd) {
     if (fwd.size() == bwd.size() && 2*fwd.size() == pow(2, fwd_inp.size()/2)) {
         std::set<Var> vars;
         for (Lit l : fwd_inp) vars.insert(l.var());
-        return 2*vars.size() == fwd_inp.size();
+        std::set<Cl> clauses; // duplicates do not count
+        for (Cl* c : fwd) clauses.insert(*c);
+        for (Cl* c : bwd) clauses.insert(*c);
+        return 2*vars.size() == fwd_inp.size() && clauses.size() == fwd.size() + bwd.size()
+            && fixedClauseSize(fwd, vars.size() + 1) && fixedClauseSize(bwd, vars.size() + 1);
     }
     return false;
 }
-- 
2.43.0


From a3561103797616b6a463b503a5e53055b7e3d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 19/59] fix: reject tokens that are not numbers instead of
 running off the end of readInteger

---
 src/candy/utils/StreamBuffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..f0e68dc 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -74,6 +74,7 @@ namespace Candy {
             incPos(static_cast<intptr_t>(end - str));
             return static_cast<int>(number);
         }
+        throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
     }
 
     void StreamBuffer::check_refill_buffer() {
-- 
2.43.0


From 22a8fadaeb06b540b4adfdc33eddd9c3e00ce0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 20/59] fix: read numbers that follow a line break at the end
 of the buffer only once

---
 src/candy/utils/StreamBuffer.cc | 2 ++
 src/candy/utils/StreamBuffer.h  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index f0e68dc..2f9aaa9 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -54,6 +54,7 @@ namespace Candy {
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // refills the buffer, so that the number is not cut at its end
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -85,6 +86,7 @@ namespace Candy {
             }
             size = offset + gzread(in, buffer + offset, buffer_size - offset);
             offset = 0;
+            buffer[size] = '\0';
             if (size < buffer_size) {
                 return;
             }
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..c3de7cb 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,7 +42,7 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1]; // terminated for strtol
         check_refill_buffer();
     }
 
-- 
2.43.0


From 04ee3b05afd99e0e9a09e43fd6df3899ddf5a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 21/59] fix: read lines longer than the input buffer instead of
 ignoring the rest of the file

---
 src/candy/utils/StreamBuffer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 2f9aaa9..c28ba23 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -90,10 +90,13 @@ namespace Candy {
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) {
+                offset = 0; // no whitespace at all: long comment
+            }
         }
     }
 
-- 
2.43.0


From 8ab6f5f782c4387fef73bd1b76347782415d7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 22/59] fix: report unreadable, truncated or damaged input
 instead of solving the part that was read

---
 src/candy/utils/StreamBuffer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index c28ba23..e115137 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -84,7 +84,13 @@ namespace Candy {
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            int num_read = gzread(in, buffer + offset, buffer_size - offset);
+            int error = Z_OK;
+            gzerror(in, &error);
+            if (num_read < 0 || (error != Z_OK && error != Z_STREAM_END)) {
+                throw ParserException("ERROR! Could not read input: truncated or damaged");
+            }
+            size = offset + num_read;
             offset = 0;
             buffer[size] = '\0';
             if (size < buffer_size) {
-- 
2.43.0


From 93f229a83f450b6821c03597352fd93ef6152869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 23/59] fix: reject all variables that do not fit into a
 literal

---
 src/candy/utils/StreamBuffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index e115137..62c66d8 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -63,7 +63,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || std::abs(number) > std::numeric_limits<int32_t>::max() / 2 + 1L) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
-- 
2.43.0


From da39d1cad666a1c98b0102bbef65afc8e3b65eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 24/59] fix: do not allocate memory for as many clauses as the
 header claims

---
 src/candy/core/CNFProblem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/CNFProblem.cc b/src/candy/core/CNFProblem.cc
index 7b1e215..0d51a6d 100644
--- a/src/candy/core/CNFProblem.cc
+++ b/src/candy/core/CNFProblem.cc
@@ -73,7 +73,7 @@ void CNFProblem::readDimacs(gzFile input_stream) {
             if (headerVars < 0 || headerClauses < 0) {
                 throw ParserException("PARSE ERROR! Expected positive occurence count in header but got " + std::to_string(headerVars) + " vars and " + std::to_string(headerClauses) + " clauses");
             }
-            problem.reserve(headerClauses);
+            problem.reserve(std::min(headerClauses, 1 << 20)); // the header is only a hint
         }
         else if (*in == 'c') {
             in.skipLine();
-- 
2.43.0


From 03141b3867910f75e668ca506629159dee57210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 25/59] fix: variables beyond the model have no value

---
 src/candy/core/CandySolverResult.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 6dc896a..850cd9e 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -79,7 +79,10 @@ public:
 
     // return satisfied literal for given variable
     Lit value(Var x) const {
-        if (model[x] == l_False) {
+        if (x >= (Var)model.size()) {
+            return lit_Undef;
+        }
+        else if (model[x] == l_False) {
             return Lit(x, true);
         } 
         else if (model[x] == l_True) {
-- 
2.43.0


From 195b9b04d09aee8e717b49afafab1c9b7377be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 26/59] fix: free the input buffer

---
 src/candy/utils/StreamBuffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index c3de7cb..1dc52f9 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -46,6 +46,10 @@ public:
         check_refill_buffer();
     }
 
+    ~StreamBuffer() {
+        delete[] buffer;
+    }
+
     void skipLine();
     void skipWhitespace();
     void skipString(const char* str);
-- 
2.43.0


From 70522abb039b771e50fcdca1d40b9c507ebbfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:53 +0000
Subject: [PATCH 27/59] fix: compute minimum models with a counter that counts
 every variable once and a bound that decreases

---
 src/candy/minimizer/Minimizer.cc | 7 +++++--
 src/candy/minimizer/Minimizer.h  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..93f65b1 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -141,13 +141,16 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         Cl variables;
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
             variables.push_back(Lit(v, false));
+            counter.newVar(); // counter variables start behind problem variables
         }
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
+        assumptions.clear();
+        solver->getAssignment().setAssumptions(assumptions);
         satisfiable = l_True;
-        while (satisfiable == l_True) {
+        while (satisfiable == l_True && cardinality.size() > 0) {
             lessthan.clear();
-            genLessThanConstraint(lessthan, outputs, cardinality.size());
+            genLessThanConstraint(lessthan, outputs, cardinality.size() - 1);
             solver->init(lessthan);
 
             satisfiable = solver->solve();
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..b93b2e7 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -83,9 +83,9 @@ private:
           return outputs;
         }
 
+        Lit carry = inputs.back(); // the last input is added as carry, the others are split in half
         Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
-        Lit carry = inputs.back();
+        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() - 1 };
         
         Cl a_outputs = genParCounter(out, a_inputs);
         Cl b_outputs = genParCounter(out, b_inputs);
-- 
2.43.0


From 107c5b725afde5822d6a3933c3e8d23ed88c2e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 28/59] fix: remove parsed options from the argument list

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From 8ea1a07c9533fd631aeeeca66c7203bac9efa3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 29/59] fix: reject option values out of range

---
 src/candy/utils/Options.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..ad4f4b3 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -151,7 +151,7 @@ class DoubleOption : public Option {
             double tmp = strtod(span + len, &end);
 
             if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -210,7 +210,7 @@ class IntOption : public Option {
             int32_t tmp = strtol(span + len, &end, 10);
 
             if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -280,7 +280,7 @@ class Int64Option : public Option {
             int64_t tmp = strtoll(span + len, &end, 10);
 
             if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From 41aa00f4193cc148051504115fa13a599720efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 30/59] fix: reject option values that are not numbers

---
 src/candy/utils/Options.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index ad4f4b3..92442ea 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -150,7 +150,7 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
+            if (end != span + len && *end == '\0') {
                 if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
@@ -207,9 +207,9 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            long tmp = strtol(span + len, &end, 10);
 
-            if (end != nullptr) {
+            if (end != span + len && *end == '\0') {
                 if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
@@ -279,7 +279,7 @@ class Int64Option : public Option {
             char* end;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
+            if (end != span + len && *end == '\0') {
                 if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
-- 
2.43.0


From 08c1970ad40d7a668254aabe342fa4191f035852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 31/59] fix: reject string options that do not fit their buffer

---
 src/candy/utils/Options.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 92442ea..017cd1a 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -340,6 +340,10 @@ class StringOption : public Option {
         const char* span = strstr(str, pattern); 
 
         if (span == str) {
+            if (strlen(span + len) >= 256) {
+                fprintf(stderr, "ERROR! value <%s> is too long for option \"%s\".\n", span, name);
+                exit(1);
+            }
             set(span + len);
             return true;
         }
@@ -350,6 +354,7 @@ class StringOption : public Option {
     void set(const char* val) {
         // memset(value, 0, 256);
         strncpy(value, val, 256);
+        value[255] = '\0';
     }
 
     char* get() {
-- 
2.43.0


From 611f65a3a86b4046da8188fc3064bc5c35e86e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:47 +0000
Subject: [PATCH 32/59] fix: prefix all informational output lines with c

---
 src/candy/Main.cc                  | 6 +++---
 src/candy/frontend/CandyBuilder.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 52c5c86..703d783 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -94,7 +94,7 @@ static void set_interrupted(int signum) {
 }
 
 static void just_quit(int signum) {
-    std::cout << std::endl << "*** INTERRUPTED ***" << std::endl;
+    std::cout << std::endl << "c *** INTERRUPTED ***" << std::endl;
     _exit(1);
 }
 
@@ -199,7 +199,7 @@ int main(int argc, char** argv) {
         }
     }
     catch (ParserException& e) {
-		std::cout << "c Caught Parser Exception: " << std::endl << e.what() << std::endl;
+		std::cout << "c Caught Parser Exception: " << e.what() << std::endl;
         return 1;
     }
 
@@ -242,7 +242,7 @@ int main(int argc, char** argv) {
     }
     else {
         if (ParallelOptions::opt_static_database) {
-            std::cout << "Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
+            std::cout << "c Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
         for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
diff --git a/src/candy/frontend/CandyBuilder.cc b/src/candy/frontend/CandyBuilder.cc
index 4495156..956989a 100644
--- a/src/candy/frontend/CandyBuilder.cc
+++ b/src/candy/frontend/CandyBuilder.cc
@@ -63,7 +63,7 @@ CandySolverInterface* createSolver(bool staticPropagate, bool lrb, bool vsidsc,
             std::cout << "c Building Solver of Type Solver<StaticPropagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().propagateStaticClauses().build();
         } else {
-            std::cout << "Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
+            std::cout << "c Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().build();
         }
     } 
-- 
2.43.0


From 1ecf65274f388121f954a3385097dd411212b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:24 +0000
Subject: [PATCH 33/59] fix: let the proof checker see contradicting units,
 resolve on literals that occur nowhere else and delete each clause once

---
 src/candy/core/DRATChecker.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..524d02a 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -46,8 +46,8 @@ DRATChecker::DRATChecker(CNFProblem& problem_)
         for (Lit lit : *clause) {
             occurences[lit].push_back(clause);
         }
-        if (clause->size() == 1) {
-            trail.fact(clause->first());
+        if (clause->size() == 1 && !trail.fact(clause->first())) {
+            clause_db.emptyClause();
         }
     }
 }
@@ -125,6 +125,9 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    // never propagate on level zero: only unit clauses may stay on the trail
+    trail.newDecisionLevel();
+
     // check if clause is asymmetric tautology
     bool conflict = check_asymm(begin, end, lit_Undef);
         
@@ -132,6 +135,7 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
     unsigned int level = trail.decisionLevel();
     for (auto it = begin; !conflict && it != end; it++) {
         Lit pivot = *it;
+        conflict = true; // holds if there is nothing to resolve with
         for (Clause* clause : occurences[~pivot]) if (!clause->isDeleted()) {
             conflict = check_asymm(clause->begin(), clause->end(), ~pivot);
             trail.backtrack(level);
@@ -161,12 +165,15 @@ bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
     if (size > 1) {
         for (Clause* clause : occurences[*begin]) {
-            if (size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
+            if (!clause->isDeleted() && size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
                 if (clause->size() > 2) {
                     propagator.detachClause(clause);
                 }
-                if (++num_deleted * 10 > clause_db.size()) cleanup_deleted();
+                if (++num_deleted * 10 > clause_db.size()) {
+                    cleanup_deleted();
+                    num_deleted = 0;
+                }
                 return true;
             }
         }
-- 
2.43.0


From c637964640b5cde5eedad5c3764450296c0ca7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:24 +0000
Subject: [PATCH 34/59] fix: proofs over variables that the problem does not
 know are not accepted

---
 src/candy/core/DRATChecker.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index 524d02a..93c4ce3 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -125,6 +125,10 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    if (std::any_of(begin, end, [this](Lit lit) { return lit.var() >= (Var)clause_db.nVars(); })) {
+        return false; // variables that the problem does not know
+    }
+
     // never propagate on level zero: only unit clauses may stay on the trail
     trail.newDecisionLevel();
 
@@ -163,7 +167,7 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
 template <typename Iterator>
 bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
-    if (size > 1) {
+    if (size > 1 && begin->var() < (Var)clause_db.nVars()) {
         for (Clause* clause : occurences[*begin]) {
             if (!clause->isDeleted() && size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
-- 
2.43.0


From 2c227b43f4aa5b7f488213b6e542fbd5ce0d8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:39 +0000
Subject: [PATCH 35/59] fix: gate analysis must not overwrite the proof of the
 main solver

---
 src/candy/gates/GateAnalyzer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index 27e4089..6496fae 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -26,6 +26,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include "candy/frontend/CandyBuilder.h"
 
 #include <iterator>
+#include <string>
 #include <vector>
 #include <unordered_set>
 
@@ -47,7 +48,10 @@ GateAnalyzer::GateAnalyzer(const CNFProblem& problem_, GateRecognitionMethod met
     if (useSemantic || useHolistic) {
         SolverOptions::opt_sort_variables = false;
         SolverOptions::opt_preprocessing = false;
+        std::string certificate { SolverOptions::opt_certified_file };
+        SolverOptions::opt_certified_file = ""; // the proof belongs to the main solver
         solver = createSolver(); 
+        SolverOptions::opt_certified_file = certificate.c_str();
     }
 }
 
-- 
2.43.0


From e832a1c38f85c2926354b96d67b423bcdf9253c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 36/59] fix: leave parallel mode without destroying running
 threads and publish result and solver together

---
 src/candy/Main.cc | 50 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 703d783..b817dbc 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,10 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <mutex>
+#include <thread>
+
+#include <unistd.h>
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
@@ -70,6 +74,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 using namespace Candy;
 
 static std::vector<CandySolverInterface*> solvers;
+static std::mutex solvers_mutex; // protects solvers, solver and result while there are solver threads
 
 static bool interrupted = false;
 static unsigned int start_time = 0;
@@ -169,17 +174,41 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
         global_allocator = solver_->setupGlobalAllocator();
     }
 
-    solvers.push_back(solver_);
     solver_->setTermCallback(solver_, interrupted_callback);
 
+    solvers_mutex.lock();
+    solvers.push_back(solver_);
+    solvers_mutex.unlock();
+
     lbool result_ = solver_->solve();
 
+    std::lock_guard<std::mutex> lock(solvers_mutex);
     if (result == l_Undef) {
         result = result_;
         solver = solver_;
     }
 }
 
+static bool hasResult() {
+    std::lock_guard<std::mutex> lock(solvers_mutex);
+    return result != l_Undef;
+}
+
+static size_t numSolvers() {
+    std::lock_guard<std::mutex> lock(solvers_mutex);
+    return solvers.size();
+}
+
+// the other solver threads may still be running: leave without destroying what they use
+static int leave(int status) {
+    if (ParallelOptions::opt_threads > 1) {
+        std::cout.flush();
+        fflush(stdout);
+        _exit(status);
+    }
+    return status;
+}
+
 int main(int argc, char** argv) {
     std::cout << "c Candy is made from Glucose." << std::endl;
 
@@ -245,7 +274,7 @@ int main(int argc, char** argv) {
             std::cout << "c Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
-        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
+        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && !hasResult(); count++) {
             std::cout << "c Initializing Solver " << count << std::endl;
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
@@ -302,15 +331,16 @@ int main(int argc, char** argv) {
             do { 
                 // wait till solver is initialized (and wait a bit longer)
                 std::this_thread::sleep_for(std::chrono::milliseconds(ParallelOptions::opt_thread_initialization_delay)); 
-            } while (solvers.size() <= count);
+            } while (numSolvers() <= count);
         }
 
         installSignalHandlers(true);
         // problem.clear();
-        while (result == l_Undef && !interrupted) {
+        while (!hasResult() && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
         installSignalHandlers(false);
+        solvers_mutex.lock(); // late results do not count
     }
 
     printf(result == l_True ? "s SATISFIABLE\n" : result == l_False ? "s UNSATISFIABLE\n" : "s INDETERMINATE\n");
@@ -358,12 +388,12 @@ int main(int argc, char** argv) {
             if (satisfied) {
                 std::cout << "c Result verified by model checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                return leave(0);
             }
             else {
                 std::cout << "c Result could not be verified by model checker" << std::endl;
                 assert(satisfied);
-                return 1;
+                return leave(1);
             }
         }
         else if (TestingOptions::test_proof && result == l_False) {
@@ -375,19 +405,19 @@ int main(int argc, char** argv) {
             if (proved) {
                 std::cout << "c Result verified by proof checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                return leave(0);
             }
             else {
                 std::cout << "c Result could not be verified by proof checker" << std::endl;
                 assert(proved);
-                return 1;
+                return leave(1);
             }
         }
     }
 
     #ifndef __SANITIZE_ADDRESS__
-        exit((result == l_True ? 10 : result == l_False ? 20 : 0));
+        exit(leave(result == l_True ? 10 : result == l_False ? 20 : 0));
     #endif
-    return (result == l_True ? 10 : result == l_False ? 20 : 0);
+    return leave(result == l_True ? 10 : result == l_False ? 20 : 0);
 }
 
-- 
2.43.0


From f29e588d4c83a2a618ab8860889c746581c5319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 37/59] fix: make the interrupt flag and the start time safe to
 use from several threads

---
 src/candy/Main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index b817dbc..364ed97 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -39,6 +39,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 *************************************************************************************************/
 
 #include <errno.h>
+#include <atomic>
 #include <iostream>
 #include <csignal>
 #include <string>
@@ -76,8 +77,8 @@ using namespace Candy;
 static std::vector<CandySolverInterface*> solvers;
 static std::mutex solvers_mutex; // protects solvers, solver and result while there are solver threads
 
-static bool interrupted = false;
-static unsigned int start_time = 0;
+static std::atomic<bool> interrupted { false };
+static std::atomic<unsigned int> start_time { 0 };
 static int interrupted_callback(void* state) {
     if (SolverOptions::time_limit > 0) {
         if (start_time == 0) {
-- 
2.43.0


From ecb4ca70febcc2932d578b40a7e099a3c8afe082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:12 +0000
Subject: [PATCH 38/59] fix: abstraction refinement without a heuristic
 configuration or without enough gates

---
 src/candy/frontend/SolverFactory.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..db4e425 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -20,6 +20,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #ifndef SRC_CANDY_FRONTEND_SOLVERFACTORY_H_
 #define SRC_CANDY_FRONTEND_SOLVERFACTORY_H_
 
+#include <cstring>
+
 #include "candy/core/CNFProblem.h"
 #include "candy/core/CandySolverInterface.h"
 
@@ -60,18 +62,19 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	if (initializationComleted) {
 		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
+		if (strlen(RSAROptions::opt_rsar_inputDepCountHeurConf) > 0) {
 			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
 			if (limits.size() == 0) {
 				throw std::invalid_argument("invalid limits");
 			}
 			refinementHeuristics = createInputDepCountRefinementHeuristic(analyzer, limits);
+			return new ARSolver(std::move(conjectures), std::move(refinementHeuristics)); 
 		}
 
-		return new ARSolver(std::move(conjectures), std::move(refinementHeuristics)); 
+		return new ARSolver(std::move(conjectures)); 
 	}
 	else {
-		return nullptr;
+		return createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc); // solve without abstractions
 	}
 }
 
-- 
2.43.0


From 11d2f01793fb231d92ea65229c934d07910568ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:11 +0000
Subject: [PATCH 39/59] fix: write whole output lines and no streams from
 signal handlers, such that threads and interrupts do not cut them

---
 src/candy/Main.cc | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 364ed97..9bd9dde 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -74,6 +74,38 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 
 using namespace Candy;
 
+// hands over whole lines only, such that lines of different threads do not mix
+class LineBuffer : public std::streambuf {
+    static std::string& line() {
+        static thread_local std::string line;
+        return line;
+    }
+
+    void write(std::string& text) {
+        fwrite(text.data(), 1, text.size(), stdout);
+        text.clear();
+    }
+
+protected:
+    int_type overflow(int_type c) override {
+        if (c != traits_type::eof()) {
+            line().push_back(traits_type::to_char_type(c));
+            if (c == '\n') write(line());
+        }
+        return traits_type::not_eof(c);
+    }
+
+    std::streamsize xsputn(const char* text, std::streamsize n) override {
+        line().append(text, n);
+        if (n > 0 && text[n-1] == '\n') write(line());
+        return n;
+    }
+
+    int sync() override {
+        return fflush(stdout);
+    }
+};
+
 static std::vector<CandySolverInterface*> solvers;
 static std::mutex solvers_mutex; // protects solvers, solver and result while there are solver threads
 
@@ -95,12 +127,14 @@ static int interrupted_callback(void* state) {
 }
 
 static void set_interrupted(int signum) {
-    std::cout << "c Informing solver about desire to interrupt." << std::endl;
+    static const char message[] = "c Informing solver about desire to interrupt.\n";
+    if (write(STDOUT_FILENO, message, sizeof(message) - 1)) {}
     interrupted = true;
 }
 
 static void just_quit(int signum) {
-    std::cout << std::endl << "c *** INTERRUPTED ***" << std::endl;
+    static const char message[] = "\nc *** INTERRUPTED ***\n";
+    if (write(STDOUT_FILENO, message, sizeof(message) - 1)) {}
     _exit(1);
 }
 
@@ -211,6 +245,7 @@ static int leave(int status) {
 }
 
 int main(int argc, char** argv) {
+    std::cout.rdbuf(new LineBuffer());
     std::cout << "c Candy is made from Glucose." << std::endl;
 
     setUsageHelp("c USAGE: %s [options] <input-file>\n\nc where input may be either in plain or gzipped DIMACS.\n");
-- 
2.43.0


From ba0fe09cba30e76376e847cc36ae7c0206db4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 40/59] fix: hash the bytes that are stored when the rest of
 the input is empty

---
 src/candy/gbd/md5/md5.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/candy/gbd/md5/md5.cpp b/src/candy/gbd/md5/md5.cpp
index d5c7b16..6ad09c2 100644
--- a/src/candy/gbd/md5/md5.cpp
+++ b/src/candy/gbd/md5/md5.cpp
@@ -114,8 +114,6 @@ namespace md5 {
             if (processed != input_length) {
                 memcpy(stored + stored_size, (char*)input + processed, input_length - processed);
                 stored_size += input_length - processed;
-            } else {
-                stored_size = 0;
             }
         } else {
             // throw error when trying to process after completion?
-- 
2.43.0


From 4d543b7d134efaeb18afd5a42084a4efd6f72d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 41/59] fix: degree hash removes each clause satisfied by facts
 once

---
 src/candy/gbd/hash.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/candy/gbd/hash.cpp b/src/candy/gbd/hash.cpp
index 69d053b..be33c89 100644
--- a/src/candy/gbd/hash.cpp
+++ b/src/candy/gbd/hash.cpp
@@ -3,6 +3,8 @@
 #include "candy/core/SolverTypes.h"
 #include <candy/gbd/md5/md5.h>
 
+#include <set>
+
 
 Hash::Hash(const Candy::CNFProblem& problem_) : problem(problem_) {}
 
@@ -45,13 +47,18 @@ std::string Hash::degree_hash() {
         degrees[lit] = occurrences[lit].size();
     }
     // normalize degree-list by unit-propagation
-    for (Candy::Lit lit : facts) {
-        for (Candy::Cl* clause : occurrences[lit]) {
-            for (Candy::Lit lit : *clause) {
-                degrees[lit]--;
+    std::set<Candy::Cl*> satisfied;
+    for (Candy::Lit fact : facts) {
+        for (Candy::Cl* clause : occurrences[fact]) {
+            if (satisfied.insert(clause).second) {
+                for (Candy::Lit lit : *clause) {
+                    degrees[lit]--;
+                }
             }
         }
-        degrees[~lit] = 0;
+    }
+    for (Candy::Lit fact : facts) {
+        degrees[~fact] = 0;
     }
 
     unsigned char sig[MD5_SIZE];
-- 
2.43.0


From 0e854aef16f44348ea6f5b171d2f3ed93396c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 42/59] fix: size component arrays by the largest component
 number and recount self loops

---
 src/candy/teexgraph/Graph.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/candy/teexgraph/Graph.cpp b/src/candy/teexgraph/Graph.cpp
index 9d242a8..207b0d4 100644
--- a/src/candy/teexgraph/Graph.cpp
+++ b/src/candy/teexgraph/Graph.cpp
@@ -124,6 +124,7 @@ void Graph::sortEdgeList() {
     int removed = 0, begin;
     if(!sortedandunique) {
         m = 0;
+        selfm = 0;
         for(int i = 0; i < n; i++) {
             sort(E[i].begin(), E[i].end());
             begin = E[i].size();
@@ -131,6 +132,8 @@ void Graph::sortEdgeList() {
             sort(rE[i].begin(), rE[i].end());
             rE[i].erase(unique(rE[i].begin(), rE[i].end()), rE[i].end());
             m += (long) E[i].size();
+            if(hasSelfLoop[i])
+                selfm++;
             removed += (E[i].size() - begin);
         }
 
@@ -251,8 +254,8 @@ void Graph::computeWCC() {
         return;
 
     wccId.assign(n, 0);
-    wccNodes.assign(n, 0);
-    wccEdges.assign(n, 0);
+    wccNodes.assign(n + 1, 0); // component numbers start with 1
+    wccEdges.assign(n + 1, 0);
     largestWCC = wccs = 0;
 
     int c, current, z;
@@ -301,7 +304,7 @@ void Graph::computeWCC() {
 
     // because we count both reversed and normal edges we count edges double
     if(!undirected)
-        for(int i = 0; i < n; i++)
+        for(int i = 0; i <= n; i++)
             wccEdges[i] /= 2;
 
     wccs = c;
@@ -378,8 +381,8 @@ void Graph::computeSCC() {
     }
 
     sccId.assign(n, 0);
-    sccNodes.assign(n, 0);
-    sccEdges.assign(n, 0);
+    sccNodes.assign(n + 1, 0); // component numbers start with 1
+    sccEdges.assign(n + 1, 0);
     largestSCC = sccs = 0;
 
     vector<bool> sccVisited;
-- 
2.43.0


From 9449d3838cce7664468704b6399b01a985a7ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 43/59] fix: distances of small graphs, of pruned nodes and
 outside of the first component

---
 src/candy/teexgraph/BDGraph.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/candy/teexgraph/BDGraph.cpp b/src/candy/teexgraph/BDGraph.cpp
index 353438c..5135684 100644
--- a/src/candy/teexgraph/BDGraph.cpp
+++ b/src/candy/teexgraph/BDGraph.cpp
@@ -36,6 +36,8 @@ int Graph::eccentricity(const int u) {
             }
         }
     }
+    if(pruned[u] == -2) // the pruned neighbors of its neighbor are at distance two
+        ecc = max(ecc, 2);
     return ecc;
 } // eccentricity
 
@@ -46,8 +48,8 @@ int Graph::diameterAPSP() {
     int diameter = 0;
     // cerr << "Computing graph diameter using APSP..." << endl;
     for(int i = 0; i < nodes(FULL); i++) {
-        if(i % (nodes(FULL) / 100) == 0) // show status %
-            cerr << "\b\b\b\b" << i / (nodes(FULL) / 100) << "%";
+        if(i % max(1, nodes(FULL) / 100) == 0) // show status %
+            cerr << "\b\b\b\b" << i / max(1, nodes(FULL) / 100) << "%";
         if(inScope(i, LWCC))
             diameter = max(diameter, eccentricity(i));
     }
@@ -62,8 +64,8 @@ int Graph::radiusAPSP() {
     int rad = nodes(FULL);
     // cerr << "Computing graph radius using APSP..." << endl;
     for(int i = 0; i < nodes(FULL); i++) {
-        if(i % (nodes(FULL) / 100) == 0) // show status %
-            cerr << "\b\b\b\b" << i / (nodes(FULL) / 100) << "%";
+        if(i % max(1, nodes(FULL) / 100) == 0) // show status %
+            cerr << "\b\b\b\b" << i / max(1, nodes(FULL) / 100) << "%";
         if(inScope(i, LWCC))
             rad = min(rad, eccentricity(i));
     }
@@ -185,11 +187,10 @@ int Graph::extremaBounding(const int TYPE = 1, const bool PRUNE = false) {
         //selectFrom(); // this function has been unrolled here
         high = !high;
         if(current == -1) { // only in the first round, select node with highest degree
-            current = 0;
-            for(int i = 1; i < nodes(FULL); i++) {
+            for(int i = 0; i < nodes(FULL); i++) {
                 if(d[i] == -1 || !inScope(i, LWCC) || pruned[i] >= 0)
                     continue;
-                if(neighbors(i).size() > neighbors(current).size()) {
+                if(current == -1 || neighbors(i).size() > neighbors(current).size()) {
                     current = i;
                 }
             } // for
-- 
2.43.0


From 8330abe6ef778017b4b2f049442e450268a5e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 44/59] fix: betweenness over the largest component visits its
 nodes, and is zero without paths

---
 src/candy/teexgraph/CenGraph.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/candy/teexgraph/CenGraph.cpp b/src/candy/teexgraph/CenGraph.cpp
index 9de4e38..d8203f7 100644
--- a/src/candy/teexgraph/CenGraph.cpp
+++ b/src/candy/teexgraph/CenGraph.cpp
@@ -171,7 +171,7 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
     }
 
     vector<long double> doublelongarray(vector<long double>(nodes(FULL), 0));
-    int until = nodes(scope);
+    int until = nodes(FULL);
     if(samplesize < 1.0)
         until = (double) nodes(FULL) * samplesize;
     int prevs = -1;
@@ -197,6 +197,9 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
                 s = rand() % nodes(FULL);
             } while(!inScope(s, scope));
         } // if
+        else if(!inScope(s, scope)) {
+            continue;
+        }
 
         sp.assign(nodes(FULL), 0);
         d.assign(nodes(FULL), nodes(FULL) + 1);
@@ -253,7 +256,7 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
 
     vector<double> centralities(nodes(FULL), 0);
     for(int i = 0; i < nodes(FULL); i++) {
-        centralities[i] = totals[i] / maxval;
+        centralities[i] = maxval > 0 ? (double) (totals[i] / maxval) : 0;
     }
 
     return centralities;
-- 
2.43.0


From be78650935f2e3d416ab6b503a15fdebfafc0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 45/59] fix: variables added after the graph was built have no
 centrality

---
 src/candy/systems/branching/VSIDSC.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index ea70095..d6c5346 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -212,7 +212,10 @@ public:
                 double bumpFactor = var_inc;
                 if (use_centrality_bump)
                 {
-                        bumpFactor = var_inc * (1 + (centrality[graph.mapNode(v.id)] * centralityFactor));
+                        size_t node = graph.mapNode(v.id);
+                        if (node < centrality.size()) { // variables added since the graph was built have no centrality
+                                bumpFactor = var_inc * (1 + (centrality[node] * centralityFactor));
+                        }
                 }
                 varBumpActivity(v, bumpFactor);
         }
-- 
2.43.0


From 3074797720c1263392ea39fd318bc14d866e6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 46/59] fix: and-inverter graphs with shifted variables,
 skipped gates and undefined constants

---
 src/candy/gates/AIGProblem.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 56831d8..c4f95be 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -87,7 +87,8 @@ public:
         if (lit == lit_Undef) {
             fprintf(out, "1");
         } else {
-            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit));
+            // variable zero is the constant in AIG format, so variables count from one
+            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit) + 2);
         }
     }
 
@@ -133,7 +134,7 @@ private:
                 conj.push_back(clause->front());
             } 
             else {
-                Lit out = Lit(++var_count);
+                Lit out = Lit(var_count++);
                 conj.push_back(out);
 
                 Cl inverted;
@@ -152,10 +153,12 @@ private:
             Lit lit = literals.back();
             literals.pop_back();
 
-            if (!visited[lit]) {
-                visited[lit] = true;
+            if (problem[lit.var()].isDefined()) {
+                lit = problem[lit.var()].out; // gates are defined by their output-literal, also if used negatively
+
+                if (!visited[lit]) {
+                    visited[lit] = true;
 
-                if (problem[lit.var()].isDefined()) { 
                     For& clauses = (For&)problem[lit.var()].fwd;
 
                     // strip output-literal from clauses
@@ -184,7 +187,7 @@ private:
             Cl rights { conj.begin() + pivot, conj.end() };
             Lit left = convertNaryRecursive(lefts);
             Lit right = convertNaryRecursive(rights);
-            Lit output = Lit(++var_count);
+            Lit output = Lit(var_count++);
             ands.emplace_back(output, left, right);
             return output;
         }
@@ -193,7 +196,7 @@ private:
     void convertNaryAndsToBinaryAnds() {
         for (AndGate a : pands) {
             if (a.conj.size() == 0) {
-                fprintf(stderr, "Warning: Conjunction Size is Zero at %i\n ", (int)a.output);
+                ands.emplace_back(a.output, lit_Undef, lit_Undef); // constant
             }
             else if (a.conj.size() == 1) {
                 ands.emplace_back(a.output, a.conj.front(), lit_Undef);
-- 
2.43.0


From ef77a7de06e4d03ec1fd93bc10f7a8e31c6bb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 47/59] fix: restore the options that configure helper solvers

---
 src/candy/gates/GateAnalyzer.cc  | 4 ++++
 src/candy/minimizer/Minimizer.cc | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index 6496fae..f008b6a 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -46,12 +46,16 @@ GateAnalyzer::GateAnalyzer(const CNFProblem& problem_, GateRecognitionMethod met
     }
 
     if (useSemantic || useHolistic) {
+        bool sort_variables = SolverOptions::opt_sort_variables;
+        bool preprocessing = SolverOptions::opt_preprocessing;
         SolverOptions::opt_sort_variables = false;
         SolverOptions::opt_preprocessing = false;
         std::string certificate { SolverOptions::opt_certified_file };
         SolverOptions::opt_certified_file = ""; // the proof belongs to the main solver
         solver = createSolver(); 
         SolverOptions::opt_certified_file = certificate.c_str();
+        SolverOptions::opt_preprocessing = preprocessing;
+        SolverOptions::opt_sort_variables = sort_variables;
     }
 }
 
diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index 93f65b1..ae4946b 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -34,10 +34,16 @@ namespace Candy {
  * Maximize the number of don't cares in the given model relative to the given projection
  */
 Minimizer::Minimizer(CNFProblem& _problem, CandySolverResult& _model) : problem(_problem), model(_model) { 
+    bool preprocessing = SolverOptions::opt_preprocessing;
+    int inprocessing = SolverOptions::opt_inprocessing;
+    bool sort_variables = SolverOptions::opt_sort_variables;
     SolverOptions::opt_preprocessing = false;
     SolverOptions::opt_inprocessing = 0;
     SolverOptions::opt_sort_variables = false;
     solver = createSolver();
+    SolverOptions::opt_preprocessing = preprocessing;
+    SolverOptions::opt_inprocessing = inprocessing;
+    SolverOptions::opt_sort_variables = sort_variables;
  }
 
 Minimizer::~Minimizer() { 
-- 
2.43.0


From a577427dcf1334edef2c724622f85ae511c73218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:11 +0000
Subject: [PATCH 48/59] fix: hash literals in DIMACS notation, the first
 literal was hashed like the end of a clause

---
 src/candy/gbd/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/gbd/hash.cpp b/src/candy/gbd/hash.cpp
index be33c89..eba249f 100644
--- a/src/candy/gbd/hash.cpp
+++ b/src/candy/gbd/hash.cpp
@@ -17,7 +17,7 @@ std::string Hash::gbd_hash() {
 
     for (Candy::Cl* clause : problem) {
         for (Candy::Lit lit : *clause) {
-            s.append(std::to_string(lit));
+            s.append(std::to_string(lit.sign() ? -(lit.var() + 1) : lit.var() + 1));
             s.append(" ");
         }
         s.append("0");
-- 
2.43.0


From 53a7051b76421a93038659552ec8831513d5ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 49/59] fix: bounded queue loses its oldest element when it
 wraps around after a pop

---
 src/candy/mtl/BoundedQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/mtl/BoundedQueue.h b/src/candy/mtl/BoundedQueue.h
index 209d338..65cc6a7 100644
--- a/src/candy/mtl/BoundedQueue.h
+++ b/src/candy/mtl/BoundedQueue.h
@@ -66,7 +66,7 @@ public:
         }
         sumofqueue += x;
         elems[first] = x;
-        if ((++first) == elems.size()) { first = 0; last = 0; }
+        if ((++first) == elems.size()) first = 0;
     }
 
     T peek() {
-- 
2.43.0


From 2167dfec95842b9f327f4925429326f20bc099cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 50/59] fix: LRB changes weights behind the back of its
 priority queue

---
 src/candy/systems/branching/LRB.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index c56bb36..bd82ee5 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -145,13 +145,15 @@ public:
         for (auto it = trail.begin(backtrack_level); it != trail.end(); it++) {
             Var v = it->var();
             polarity[v] = it->sign();
-            if (!order_heap.inHeap(v) && trail.isDecisionVar(v)) order_heap.insert(v);
 
             if (interval_assigned[v] > 0) {
                 weight[v] = inv_step_size * weight[v] + step_size * (participated[v] / interval_assigned[v]);
                 interval_assigned[v] = 0;
                 participated[v] = 0;
             }
+
+            // insert or move according to the new weight
+            if (trail.isDecisionVar(v)) order_heap.update(v);
         }
     }
 
-- 
2.43.0


From 3ce4a39b92d1215147078309d9bb5732230b2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 51/59] fix: LRB rounds every learning rate below one to zero

---
 src/candy/systems/branching/LRB.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index bd82ee5..de64882 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -147,7 +147,7 @@ public:
             polarity[v] = it->sign();
 
             if (interval_assigned[v] > 0) {
-                weight[v] = inv_step_size * weight[v] + step_size * (participated[v] / interval_assigned[v]);
+                weight[v] = inv_step_size * weight[v] + step_size * ((double)participated[v] / interval_assigned[v]);
                 interval_assigned[v] = 0;
                 participated[v] = 0;
             }
-- 
2.43.0


From 81e00ab6effc61fd0a092bc738fa11a3a9d81224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 52/59] fix: -sort-variables gives every variable the activity
 NaN if there is no clause

---
 src/candy/systems/branching/LRB.h   | 2 +-
 src/candy/systems/branching/VSIDS.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index de64882..815233d 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -75,7 +75,7 @@ public:
             }
             double max = *std::max_element(literalOccurrence.begin(), literalOccurrence.end());
             for (double& occ : literalOccurrence) {
-                occ = occ / max;
+                if (max > 0) occ = occ / max;
             }
         }
         
diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index e587279..c4d44c8 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -172,7 +172,7 @@ public:
             double max = *std::max_element(literalOccurrence.begin(), literalOccurrence.end());
             for (double &occ : literalOccurrence)
             {
-                occ = occ / max;
+                if (max > 0) occ = occ / max;
             }
         }
 
-- 
2.43.0


From 2787de2b7e2aef0b389fd82d3ee4b85634ea94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:17 +0000
Subject: [PATCH 53/59] fix: -rsil-mode builds the heuristic it names,
 vanishing and budgeted were swapped

---
 src/candy/frontend/CandyBuilder.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CandyBuilder.h b/src/candy/frontend/CandyBuilder.h
index 5010cd1..65f25f8 100644
--- a/src/candy/frontend/CandyBuilder.h
+++ b/src/candy/frontend/CandyBuilder.h
@@ -53,24 +53,24 @@ public:
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
+    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
+    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
     }
 
     constexpr auto branchWithRSILUnrestricted2() const -> CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2> {
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
+    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
+    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
     }
 
     constexpr auto propagateStaticClauses() const -> CandyBuilder<StaticPropagate, TLearning, TBranching> { 
-- 
2.43.0


From 2204be6a32f0010ed3a7e2fd56706253a31391ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 54/59] fix: clauses may have more than 65535 literals

The length of a clause was kept in 16 bits: a longer clause lost literals, or
the solver crashed.
---
 src/candy/core/Solver.h                      | 2 +-
 src/candy/core/clauses/Clause.h              | 6 +++---
 src/candy/simplification/SubsumptionClause.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 25e158e..d08eb35 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -270,7 +270,7 @@ private:
     }
 
     void ipasir_callback(Clause* clause) {
-        if (learntCallback != nullptr && clause->size() <= learntCallbackMaxLength) {
+        if (learntCallback != nullptr && (int)clause->size() <= learntCallbackMaxLength) {
             std::vector<int> to_send;
             to_send.reserve(clause->size() + 1);
             for (Lit lit : *clause) {
diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..0fc5865 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
+    uint32_t length;
     uint16_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..83d49a2 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,7 +68,7 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
-- 
2.43.0


From 933b8d4b1e396b8ef9fa0761d9dc8c25e1630b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 55/59] fix: decimal options refuse nan and values on an
 excluded bound

---
 src/candy/frontend/CLIOptions.cc | 2 +-
 src/candy/utils/Options.h        | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 017cd1a..3d677c4 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -151,7 +151,9 @@ class DoubleOption : public Option {
             double tmp = strtod(span + len, &end);
 
             if (end != span + len && *end == '\0') {
-                if (tmp > range.end || tmp < range.begin) {
+                bool above = range.begin_inclusive ? tmp >= range.begin : tmp > range.begin;
+                bool below = range.end_inclusive ? tmp <= range.end : tmp < range.end;
+                if (!above || !below) { // also refuses nan
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From 5d00617142ffb620ce09678257460980b8848190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 56/59] fix: cnf2aig exits with status 1 if it cannot read the
 formula

---
 src/candy/cnf2aig.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/candy/cnf2aig.cc b/src/candy/cnf2aig.cc
index f66ac0a..ba4c07a 100644
--- a/src/candy/cnf2aig.cc
+++ b/src/candy/cnf2aig.cc
@@ -33,6 +33,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include "candy/core/SolverTypes.h"
 #include "candy/gates/GateAnalyzer.h"
 #include "candy/gates/AIGProblem.h"
+#include "candy/utils/Exceptions.h"
 
 using namespace Candy;
 
@@ -46,7 +47,13 @@ int main(int argc, char** argv) {
     char* filename = argv[1];
 
 	CNFProblem problem;
-    problem.readDimacsFromFile(filename);
+	try {
+		problem.readDimacsFromFile(filename);
+	}
+	catch (ParserException& e) {
+		fprintf(stderr, "%s\n", e.what());
+		return 1;
+	}
 
 	bool trivially_unsat = false;
 	for (Cl* clause : problem) {
-- 
2.43.0


From fe4416a045d2cefe874a2a6f72ac3bcd76c0b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 57/59] fix: an unknown rsil-mode is refused instead of
 aborting the program

---
 src/candy/Main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 9bd9dde..ea6c099 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -251,6 +251,12 @@ int main(int argc, char** argv) {
     setUsageHelp("c USAGE: %s [options] <input-file>\n\nc where input may be either in plain or gzipped DIMACS.\n");
     parseOptions(argc, argv, true);
 
+    const std::string rsil_mode { RSILOptions::opt_rsil_mode };
+    if (rsil_mode != "unrestricted" && rsil_mode != "vanishing" && rsil_mode != "implicationbudgeted") {
+        fprintf(stderr, "ERROR! unknown value <%s> for option \"rsil-mode\".\n", rsil_mode.c_str());
+        return 1;
+    }
+
     CNFProblem problem{};
     const char* inputFilename = nullptr;
     try {
-- 
2.43.0


From cf61d99d50b6636dbdae9f64d9c9c6ecc36451ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 58/59] fix: test-proof reports a proof that cannot be read
 instead of aborting the program

---
 src/candy/Main.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index ea6c099..2129ec4 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -442,7 +442,13 @@ int main(int argc, char** argv) {
             std::string file (SolverOptions::opt_certified_file);
             SolverOptions::opt_certified_file = "";
             DRATChecker checker(problem);
-            bool proved = checker.check_proof(file.c_str());
+            bool proved = false;
+            try {
+                proved = checker.check_proof(file.c_str());
+            }
+            catch (ParserException& e) {
+                std::cout << "c Caught Parser Exception: " << e.what() << std::endl;
+            }
             // bool proved = (0 == check_proof((char*)inputFilename, SolverOptions::opt_certified_file.get())); 
             if (proved) {
                 std::cout << "c Result verified by proof checker" << std::endl;
-- 
2.43.0


From 1c6475a1f68b9d3f31f7e74f1cf05ce5df30eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 59/59] fix: a solver that was cleared forgets its eliminated
 variables and rsil conjectures

---
 src/candy/core/Solver.h                                | 1 +
 src/candy/simplification/VariableElimination.h         | 6 ++++++
 src/candy/systems/branching/rsil/BranchingHeuristics.h | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index d08eb35..06d71f0 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -322,6 +322,7 @@ void Solver<TPropagate, TLearning, TBranching>::clear() {
     trail.clear();
     propagator.clear();
     branch.clear();
+    elimination.clear();
 }
 
 template<class TPropagate, class TLearning, class TBranching>
diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index a70d4ab..04cb2b5 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -92,6 +92,12 @@ public:
         nEliminated(0)
     { }
 
+    void clear() {
+        eliminiated_variables.clear();
+        eliminated_clauses.clear();
+        frozen.clear();
+    }
+
     std::vector<Cl> reset() {
         std::vector<Cl> correction_set;
 
diff --git a/src/candy/systems/branching/rsil/BranchingHeuristics.h b/src/candy/systems/branching/rsil/BranchingHeuristics.h
index 655a2bb..5ef23f8 100644
--- a/src/candy/systems/branching/rsil/BranchingHeuristics.h
+++ b/src/candy/systems/branching/rsil/BranchingHeuristics.h
@@ -93,6 +93,10 @@ namespace Candy {
 
         void clear() {
             defaultBranchingHeuristic.clear();
+            conjectures.reset();
+            m_advice = ImplicitLearningAdvice<AdviceType>();
+            initializationCompleted = false;
+            blockInitialization = false;
         }
 
     	virtual void init(const CNFProblem& problem) {
-- 
2.43.0

