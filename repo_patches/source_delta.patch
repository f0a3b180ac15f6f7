From 49f2016df8b4f6c5014790a267cdeed168dbdaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:14 +0000
Subject: [PATCH 01/74] fix: a solve that does not converge counts as abandoned

OsiTMINLPInterface::isAbandoned did not list doesNotConverge, so such a
node was neither retried nor raised and the tree search dropped it as if
it were infeasible.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..25ac8b4 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2914,7 +2914,8 @@ bool OsiTMINLPInterface::isAbandoned() const
         (optimizationStatus_==TNLPSolver::computationError)||
         (optimizationStatus_==TNLPSolver::illDefinedProblem)||
         (optimizationStatus_==TNLPSolver::illegalOption)||
-        (optimizationStatus_==TNLPSolver::externalException)|
+        (optimizationStatus_==TNLPSolver::externalException)||
+        (optimizationStatus_==TNLPSolver::doesNotConverge)||
         (optimizationStatus_==TNLPSolver::exception)
       );
 }
-- 
2.43.0


From c56d3ba6c96eb05093195155a6a3cfda47cd67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 02/74] fix: forget a fathomed NLP failure when the next NLP is
 solved

pretendSucceededNext_ was never reset, so after one failure that was
fathomed by configuration no later failure was seen (nor retried).
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 25ac8b4..180c574 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2609,6 +2609,7 @@ OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
   if (BonminAbortAll == true) return;
+  pretendSucceededNext_ = false;
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
-- 
2.43.0


From 48d6d370578dd933faf0578e3d9d1b6ed6ecc051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 03/74] fix: round_and_check rejects points that violate the
 constraints

check_solution returns the largest violation; the test was inverted (a
point without violation was marked infeasible) and ignored the tolerance.
---
 src/Interfaces/BonOsiTMINLPInterface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index eb81628..d9f2cfe 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -962,9 +962,9 @@ void getBendersCut(OsiCuts &cs, bool global);
   void switchToOriginalProblem();
   
   /** round solution and check its feasibility.*/
-  void round_and_check(double /*tolerance*/,
+  void round_and_check(double tolerance,
                        OsiObject ** objects = 0, int nObjects = -1){
-    if(!problem_->check_solution(objects, nObjects)){
+    if(problem_->check_solution(objects, nObjects) > tolerance){
       optimizationStatus_ = TNLPSolver::provenInfeasible;
     }
   }
-- 
2.43.0


From d83d880c91770221227bfd4820d79d61da1a8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 04/74] fix: CbcProbedDiver does not push an absent candidate
 child on the heap

When diving is stopped by the cutoff there may be no candidate child; a
null node was pushed.
---
 src/CbcBonmin/BonDiver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..aa50142 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,7 +345,8 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
+          if (candidateChild_ != NULL)
+            CbcTree::push(candidateChild_);
           candidateChild_ = NULL;
           return CbcTree::bestNode(cutoff);
         }
-- 
2.43.0


From b51d058f934f3f29bb5ca50c5f8d62a7253c3999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 05/74] fix: CbcProbedDiver keeps a parent that still has
 branches

With more than two branches per node the parent is in nextOnBranch_ when
its second child arrives; it was overwritten and thereby lost.
---
 src/CbcBonmin/BonDiver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index aa50142..f302148 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -278,6 +278,8 @@ namespace Bonmin
         printf("Putting second kid %i. objective value %g\n", x, x->objectiveValue());
 #endif
       // If we get here we have two nodes follow on the best one and put the other on the tree
+      if(nextOnBranch_ != NULL)// parent with more branches left (n-way branching)
+        CbcTree::push(nextOnBranch_);
       if(comparison_.compareNodes(x,candidateChild_)){// Follow on candidateChild_
 #ifdef DIVE_DEBUG
         printf("first child %i is found better.\n", x);
-- 
2.43.0


From 2850308250626e7a5a46d09e843273f73f7d7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 06/74] fix: CbcDfsDiver::bestNode returns the node it takes
 from the heap

Outside the diving mode the best node was taken from the heap and
dropped, and another one was returned.
---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index f302148..0bf11d3 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -602,7 +602,7 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
     assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
-- 
2.43.0


From d21e19c58120b6a8f2998439ed84f2d986d5be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 07/74] fix: CbcDfsDiver::bestNode copes with a heap that has
 no node below the cutoff

CbcTree::bestNode returns NULL then.
---
 src/CbcBonmin/BonDiver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 0bf11d3..263d52c 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -669,7 +669,8 @@ namespace Bonmin
     assert(dive_.empty());
     assert(diveListSize_ == 0);
     node = CbcTree::bestNode(cutoff);
-    divingBoardDepth_ = node->depth();
+    if (node != NULL)
+      divingBoardDepth_ = node->depth();
     nBacktracks_ = 0;
     return node;
   }
-- 
2.43.0


From a2984bfaa20e76c10b9ea17960aec1e32df69b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 08/74] fix: CbcDfsDiver::top agrees with push and pop about
 the dive list

Nodes are on the dive list in the Enlarge mode too, and the result of
CbcTree::top was dropped.
---
 src/CbcBonmin/BonDiver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 263d52c..7ed58c3 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -515,9 +515,9 @@ namespace Bonmin
 #ifdef DIVE_DEBUG
     std::cout<<"CbcDfsDiver::top"<<std::endl;
 #endif
-    if (mode_ != CbcDfsDiver::FindSolutions) {
+    if (mode_ > CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::top();
+      return CbcTree::top();
     }
     if (diveListSize_) {
       return dive_.front();
-- 
2.43.0


From 981f5c5855f922c46a15ec9c6ab0248d1d5487dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 09/74] fix: copies of BabSetupBase keep the heuristics

---
 src/Algorithms/BonBabSetupBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 391480e..29ca3a5 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -107,7 +107,7 @@ namespace Bonmin
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
@@ -159,7 +159,7 @@ namespace Bonmin
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
-- 
2.43.0


From 48a410e0ddf98dd814fed0aaf8cd3a0282dcbb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 10/74] fix: copies of BabSetupBase own their branching objects

---
 src/Algorithms/BonBabSetupBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 29ca3a5..adc9e7e 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -121,7 +121,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
@@ -173,7 +173,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
   /** Copy constructor with change of nlp. */
@@ -209,7 +209,7 @@ namespace Bonmin
     CoinCopyN(defaultDoubleParam_, NumberDoubleParam, doubleParam_);
     gatherParametersValues(options_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
-- 
2.43.0


From 31eb81af4870e2d77a21bdcc236323ca9c89fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 11/74] fix: copying a BabSetupBase with a new nlp copes with
 the absence of a continuous solver

---
 src/Algorithms/BonBabSetupBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index adc9e7e..456fa85 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -152,7 +152,8 @@ namespace Bonmin
       continuousSolver_ = nonlinearSolver_;
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      if (continuousSolver_ != NULL)
+        continuousSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
-- 
2.43.0


From 81c480bb6e045dc7b140b68ae660d224f70521b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 12/74] fix: BonChooseVariable::operator= copies the time limit

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..521eb24 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -115,6 +115,7 @@ namespace Bonmin
   {
     if (this != &rhs) {
       OsiChooseVariable::operator=(rhs);
+      time_limit_ = rhs.time_limit_;
       delete handler_;
       handler_ = rhs.handler_->clone();
       jnlst_ = rhs.jnlst_;
-- 
2.43.0


From a96067a8d6c238438431a4a24788939adb1887c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:48 +0000
Subject: [PATCH 13/74] fix: CbcDfsDiver::operator= copies the maximal dive
 depth

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 7ed58c3..f7d3e5d 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -490,7 +490,7 @@ namespace Bonmin
       nBacktracks_ = rhs.nBacktracks_;
       maxDepthBFS_ = rhs.maxDepthBFS_;
       maxDiveBacktracks_ = rhs.maxDiveBacktracks_;
-      maxDiveDepth_ = maxDiveDepth_;
+      maxDiveDepth_ = rhs.maxDiveDepth_;
       mode_ = rhs.mode_;
     }
     return *this;
-- 
2.43.0


From 25a75718f228bf2098dc6cee18b89a2887a6967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:22 +0000
Subject: [PATCH 14/74] fix: copying a DiverCompare without comparison methods
 does not crash

---
 src/CbcBonmin/BonDiver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.hpp b/src/CbcBonmin/BonDiver.hpp
index 2e06559..00ae31b 100644
--- a/src/CbcBonmin/BonDiver.hpp
+++ b/src/CbcBonmin/BonDiver.hpp
@@ -331,8 +331,8 @@ namespace Bonmin
         diver_(rhs.diver_),
         numberSolToStopDive_(rhs.numberSolToStopDive_),
         numberNodesToLimitTreeSize_(rhs.numberNodesToLimitTreeSize_),
-        comparisonDive_(rhs.comparisonDive_->clone()),
-        comparisonBound_(rhs.comparisonBound_->clone())
+        comparisonDive_(rhs.comparisonDive_ ? rhs.comparisonDive_->clone() : NULL),
+        comparisonBound_(rhs.comparisonBound_ ? rhs.comparisonBound_->clone() : NULL)
     {}
 
     // Assignment operator
-- 
2.43.0


From 1ef328d5cd070874d262021ec205d12eb4bb5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:22 +0000
Subject: [PATCH 15/74] fix: copies of MilpRounding keep the no-good cuts

---
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index c0d9ef3..f121324 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -49,7 +49,8 @@ namespace Bonmin
     CbcHeuristic(copy),
     setup_(copy.setup_),
     howOften_(copy.howOften_),
-    mip_(new SubMipSolver(*copy.mip_))
+    mip_(copy.mip_ ? new SubMipSolver(*copy.mip_) : NULL),
+    noGoods(copy.noGoods)
   {
   }
 
@@ -61,8 +62,8 @@ namespace Bonmin
       setup_ = rhs.setup_;
       howOften_ = rhs.howOften_;
       delete mip_;
-      if(rhs.mip_)
-        mip_ = new SubMipSolver(*rhs.mip_);
+      mip_ = rhs.mip_ ? new SubMipSolver(*rhs.mip_) : NULL;
+      noGoods = rhs.noGoods;
     }
     return *this;
   }
-- 
2.43.0


From 696a45c22c3e02a7c014da27d2e5f534e3c78c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:22 +0000
Subject: [PATCH 16/74] fix: copying a SosInfo copies from the source, not into
 it

---
 src/Interfaces/BonTMINLP.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index fc96bc4..becf892 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -47,13 +47,14 @@ TMINLP::SosInfo::SosInfo(const SosInfo & source):
     indices = new int[numNz];
     weights = new double[numNz];
     for(int i = 0 ; i < num ; i++) {
-      source.types[i] = types[i];
-      source.priorities[i] = priorities[i];
-      source.starts[i] = starts[i];
+      types[i] = source.types[i];
+      priorities[i] = source.priorities[i];
+      starts[i] = source.starts[i];
     }
+    starts[num] = source.starts[num];
     for(int i = 0 ; i < numNz ; i++) {
-      source.indices[i] = indices[i];
-      source.weights[i] = weights[i];
+      indices[i] = source.indices[i];
+      weights[i] = source.weights[i];
     }
   }
   else {
-- 
2.43.0


From d06e3b3706530bcd41c7a556519415c62614f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:22 +0000
Subject: [PATCH 17/74] fix: copies of TMINLP2OsiLP keep the tolerances and the
 Jacobian storage

---
 src/Interfaces/BonTMINLP2OsiLP.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Interfaces/BonTMINLP2OsiLP.hpp b/src/Interfaces/BonTMINLP2OsiLP.hpp
index d705a5b..177ee2d 100644
--- a/src/Interfaces/BonTMINLP2OsiLP.hpp
+++ b/src/Interfaces/BonTMINLP2OsiLP.hpp
@@ -38,6 +38,12 @@ namespace Bonmin {
    TMINLP2OsiLP(const TMINLP2OsiLP & other):
     tiny_(other.tiny_),
     very_tiny_(other.very_tiny_),
+    rhs_relax_(other.rhs_relax_),
+    infty_(other.infty_),
+    jCol_(other.jCol_),
+    iRow_(other.iRow_),
+    value_(other.value_),
+    const_types_(other.const_types_),
     model_(other.model_){
     }
 
@@ -61,6 +67,12 @@ namespace Bonmin {
     if(this != & rhs){
       tiny_ = rhs.tiny_;
       very_tiny_ = rhs.very_tiny_;
+      rhs_relax_ = rhs.rhs_relax_;
+      infty_ = rhs.infty_;
+      jCol_ = rhs.jCol_;
+      iRow_ = rhs.iRow_;
+      value_ = rhs.value_;
+      const_types_ = rhs.const_types_;
       model_ = rhs.model_;
     }
     return (*this);
-- 
2.43.0


From af237702aec79977ee007be97d33c50ac9b04dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:22 +0000
Subject: [PATCH 18/74] fix: copies of TNLPSolver keep the default log level

---
 src/Interfaces/BonTNLPSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index d070ee5..35faf65 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -65,7 +65,8 @@ namespace Bonmin{
     roptions_(other.roptions_),
     prefix_(other.prefix_),
     start_time_(other.start_time_),
-    time_limit_(other.time_limit_){
+    time_limit_(other.time_limit_),
+    default_log_level_(other.default_log_level_){
       options_ = new Ipopt::OptionsList();
       *options_ = *other.options_;
   }
-- 
2.43.0


From 222f68e3ca4066824761e279edf4cecea93de0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:22 +0000
Subject: [PATCH 19/74] fix: copies of TMINLP2TNLPQuadCuts keep the constant of
 the objective

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 62e71ff..ebe3e79 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -55,7 +55,8 @@ namespace Bonmin {
       quadRows_(other.quadRows_),
       H_(),
       curr_nnz_jac_(other.curr_nnz_jac_),
-      obj_(other.obj_)
+      obj_(other.obj_),
+      c_(other.c_)
       {
        // Get the number of nonzoeroes in the matrix
        const size_t nnz_h = TMINLP2TNLP::nnz_h_lag();
-- 
2.43.0


From c80572bd04d26d29740ed53d00c05135c193567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 20/74] fix: copies of OsiTMINLPInterface keep the status of
 the last solve and the linearizer

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 180c574..3f7eb8e 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -580,13 +580,15 @@ OsiTMINLPInterface::OsiTMINLPInterface (const OsiTMINLPInterface &source):
     veryTiny_(source.veryTiny_),
     rhsRelax_(source.rhsRelax_),
     infty_(source.infty_),
+    optimizationStatus_(source.optimizationStatus_),
     warmStartMode_(source.warmStartMode_),
     firstSolve_(true),
     cutStrengthener_(source.cutStrengthener_),
     oaMessages_(),
     oaHandler_(NULL),
     newCutoffDecr(source.newCutoffDecr),
-    strong_branching_solver_(source.strong_branching_solver_)
+    strong_branching_solver_(source.strong_branching_solver_),
+    optimizationStatusBeforeHotStart_(source.optimizationStatusBeforeHotStart_)
 {
   if(IsValid(source.tminlp_)) {
     problem_ = source.problem_->clone();
@@ -623,6 +625,8 @@ OsiTMINLPInterface::OsiTMINLPInterface (const OsiTMINLPInterface &source):
 
    oaHandler_ = new OaMessageHandler(*source.oaHandler_);;
 
+   if(IsValid(source.linearizer_))
+     set_linearizer(source.linearizer_);
 }
 
 OsiSolverInterface * 
-- 
2.43.0


From 82792b2b6df67c8e9b2f999f187c8f8fab455752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 21/74] fix: assigning an OsiTMINLPInterface copies its
 complete state

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 39 ++++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 3f7eb8e..e877475 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -644,7 +644,7 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     OsiSolverInterface::operator=(rhs);
     OsiDualObjectiveLimit_ = rhs.OsiDualObjectiveLimit_;
     nCallOptimizeTNLP_ = rhs.nCallOptimizeTNLP_;
-    totalNlpSolveTime_ = rhs.nCallOptimizeTNLP_;
+    totalNlpSolveTime_ = rhs.totalNlpSolveTime_;
     totalIterations_ = rhs.totalIterations_;
     maxRandomRadius_ = rhs.maxRandomRadius_;
     hasVarNamesFile_ = rhs.hasVarNamesFile_;
@@ -656,14 +656,24 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     if(IsValid(rhs.tminlp_)) {
 
       tminlp_ = rhs.tminlp_;
-      problem_ = new TMINLP2TNLP(tminlp_);
-      problem_to_optimize_ = GetRawPtr(problem_);
+      problem_ = rhs.problem_->clone();
       app_ = rhs.app_->clone();
+      debug_apps_.clear();
+      for(std::list<Ipopt::SmartPtr<TNLPSolver> >::const_iterator i = rhs.debug_apps_.begin();
+          i != rhs.debug_apps_.end() ; i++){
+        debug_apps_.push_back((*i)->clone());
+      }
+      testOthers_ = rhs.testOthers_;
 
       warmstart_ = rhs.warmstart_ ? rhs.warmstart_->clone() : NULL;
 
       feasibilityProblem_ = new TNLP2FPNLP
-          (SmartPtr<TNLP>(GetRawPtr(problem_)));
+          (SmartPtr<TNLP>(GetRawPtr(problem_)), rhs.feasibilityProblem_);
+      feasibility_mode_ = rhs.feasibility_mode_;
+      if(feasibility_mode_)
+        problem_to_optimize_ = GetRawPtr(feasibilityProblem_);
+      else
+        problem_to_optimize_ = GetRawPtr(problem_);
       nnz_jac = rhs.nnz_jac;
 
       if(constTypes_ != NULL) {
@@ -674,6 +684,7 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
         constTypes_ = new TNLP::LinearityType[getNumRows()];
         CoinCopyN(rhs.constTypes_, getNumRows(), constTypes_);
       }
+      nNonLinear_ = rhs.nNonLinear_;
 /*
       if(constTypesNum_ != NULL) {
         delete [] constTypesNum_;
@@ -684,6 +695,12 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
         CoinCopyN(rhs.constTypesNum_, getNumRows(), constTypesNum_);
       }
 */
+      delete [] jValues_;
+      delete [] jCol_;
+      delete [] jRow_;
+      jValues_ = NULL;
+      jCol_ = NULL;
+      jRow_ = NULL;
       if(rhs.jValues_!=NULL && rhs.jRow_ != NULL && rhs.jCol_ != NULL && nnz_jac>0) {
         jValues_ = new double [nnz_jac];
         jCol_    = new Index [nnz_jac];
@@ -692,17 +709,15 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
         CoinCopyN(rhs.jCol_    , nnz_jac,jCol_    );
         CoinCopyN(rhs.jRow_    , nnz_jac,jRow_    );
       }
-      else if(nnz_jac > 0) {
-        throw CoinError("Arrays for storing jacobian are inconsistent.",
-            "copy constructor",
-            "IpoptOAInterface");
-      }
       tiny_ = rhs.tiny_;
       veryTiny_ = rhs.veryTiny_;
       rhsRelax_ = rhs.rhsRelax_;
       infty_ = rhs.infty_;
       warmStartMode_ = rhs.warmStartMode_;
       newCutoffDecr = rhs.newCutoffDecr;
+      linearizer_ = NULL;
+      if(IsValid(rhs.linearizer_))
+        set_linearizer(rhs.linearizer_);
 
     }
     else {
@@ -710,6 +725,7 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
       problem_ = NULL;
       app_ = NULL;
       feasibilityProblem_ = NULL;
+      problem_to_optimize_ = NULL;
     }
 
 
@@ -738,6 +754,11 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     pretendSucceededNext_ = rhs.pretendSucceededNext_;
     numIterationSuspect_ = rhs.numIterationSuspect_;
 
+    hasContinuedAfterNlpFailure_ = rhs.hasContinuedAfterNlpFailure_;
+    max_perturbation_ = rhs.max_perturbation_;
+    randomGenerationType_ = rhs.randomGenerationType_;
+    optimizationStatus_ = rhs.optimizationStatus_;
+    optimizationStatusBeforeHotStart_ = rhs.optimizationStatusBeforeHotStart_;
     hasBeenOptimized_ = rhs.hasBeenOptimized_;
     cutStrengthener_ = rhs.cutStrengthener_;
 
-- 
2.43.0


From 234f0a3eb97a560a1ae0356e22103b51cc7f175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:26 +0000
Subject: [PATCH 22/74] fix: TMat::operator= records the capacity it allocates

---
 src/Algorithms/QuadCuts/BonTMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMatrix.cpp b/src/Algorithms/QuadCuts/BonTMatrix.cpp
index 12ab75b..9f1e20b 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.cpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.cpp
@@ -35,7 +35,7 @@ TMat::operator=(const TMat &rhs){
   if(this != &rhs){
     freeSpace();
     nnz_ = rhs.nnz_;
-    capacity_ = rhs.capacity_;
+    capacity_ = rhs.nnz_;
     iRow_ = CoinCopyOfArray(rhs.iRow_, rhs.nnz_);
     jCol_ = CoinCopyOfArray(rhs.jCol_, rhs.nnz_);
     value_ = CoinCopyOfArray(rhs.value_, rhs.nnz_);
-- 
2.43.0


From 3ec43496821147e47bb4c18a9c26444994c6ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:31 +0000
Subject: [PATCH 23/74] fix: resolveForCost: free the objective values recorded
 for the retries

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e877475..a279c63 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -866,7 +866,8 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
   delete warmstart_;
   warmstart_ = NULL;
  
-  double * of_current = (numsolve > 0) ? new double[numsolve]: NULL;
+  vector<double> of_values((numsolve > 0) ? numsolve : 0);
+  double * of_current = (numsolve > 0) ? of_values(): NULL;
   int num_failed, num_infeas;
   double mean, std_dev, var_coeff;
   double min = DBL_MAX;
-- 
2.43.0


From f4b9332e75a5999ec868d9d98f5c0ba9ac5fec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 24/74] fix: randomStartingPoint: do not leak the point when no
 perturbation radii are given

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index a279c63..61c45cd 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1777,7 +1777,8 @@ OsiTMINLPInterface::randomStartingPoint()
   int numcols = getNumCols();
   const double * colLower = getColLower();
   const double * colUpper = getColUpper();
-  double * sol = new double[numcols];
+  vector<double> point(numcols);
+  double * sol = point();
   const Number * x_init = problem_->x_init_user();
   const double* perturb_radius = NULL;
   if (randomGenerationType_ == perturb_suffix) {
@@ -1817,7 +1818,6 @@ OsiTMINLPInterface::randomStartingPoint()
   }
   app_->disableWarmStart();
   setColSolution(sol);
-  delete [] sol;
 }
 
 
-- 
2.43.0


From 0ab2760b00bae537bb6c9240b4e52d04a7a97f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 25/74] fix: PerturbInfo: forget the radii that were freed

---
 src/Interfaces/BonTMINLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index becf892..3e941d6 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -89,6 +89,7 @@ TMINLP::SosInfo::gutsOfDestructor()
 
 void TMINLP::PerturbInfo::SetPerturbationArray(Ipopt::Index numvars, const double* perturb_radius) {
   delete [] perturb_radius_;
+  perturb_radius_ = NULL;
   if (perturb_radius) {
     perturb_radius_ = new double[numvars];
     for(int i=0; i<numvars; i++) {
-- 
2.43.0


From 249362b0d816a3bb30c474130317eedd3f352741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 26/74] fix: BranchingInfo: do not free uninitialised pointers
 in the copy constructor

---
 src/Interfaces/BonTMINLP.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonTMINLP.hpp b/src/Interfaces/BonTMINLP.hpp
index c2b87bf..95f1132 100644
--- a/src/Interfaces/BonTMINLP.hpp
+++ b/src/Interfaces/BonTMINLP.hpp
@@ -143,7 +143,6 @@ namespace Bonmin
       {}
       BranchingInfo(const BranchingInfo &other)
       {
-        gutsOfDestructor();
         size = other.size;
         priorities = CoinCopyOfArray(other.priorities, size);
         branchingDirections = CoinCopyOfArray(other.branchingDirections, size);
-- 
2.43.0


From 7345eda596a804326b0b88e4fcb9885fbc0900d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 27/74] fix: DiverCompare: free the comparison that is replaced

---
 src/CbcBonmin/BonDiver.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CbcBonmin/BonDiver.hpp b/src/CbcBonmin/BonDiver.hpp
index 00ae31b..489007b 100644
--- a/src/CbcBonmin/BonDiver.hpp
+++ b/src/CbcBonmin/BonDiver.hpp
@@ -395,12 +395,16 @@ namespace Bonmin
     /** Set comparison method when diving.*/
     void setComparisonDive(const CbcCompareBase & val)
     {
+      CbcCompareBase * old = comparisonDive_;
       comparisonDive_ = val.clone();
+      delete old;
     }
     /** Set comparison method when closing bound.*/
     void setComparisonBound(const CbcCompareBase & val)
     {
+      CbcCompareBase * old = comparisonBound_;
       comparisonBound_ = val.clone();
+      delete old;
     }
   private:
     /** Pointer to the CbcDfsDiver handling the tree.*/
-- 
2.43.0


From 06397f209a3ea9000040d20c6930595596084aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 28/74] fix: HeuristicDiveMIP: do not keep a freed sub-MIP
 solver after assignment

---
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 531b500..7acc9ea 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -71,6 +71,7 @@ namespace Bonmin
       setup_ = rhs.setup_;
       howOften_ = rhs.howOften_;
       delete mip_;
+      mip_ = NULL;
       if(rhs.mip_)
         mip_ = new SubMipSolver(*rhs.mip_);
     }
-- 
2.43.0


From 3fe22f38f6802ce7f601b3797f50a90c46f1fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 29/74] fix: OaNlpOptim: restore the bounds and free their
 copies before reporting a failed NLP

---
 src/Algorithms/OaGenerators/BonOaNlpOptim.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp b/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp
index 82635e2..7c667af 100644
--- a/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp
+++ b/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp
@@ -137,6 +137,13 @@ namespace Bonmin
       }
     }
     else if (nlp_->isAbandoned() || nlp_->isIterationLimitReached()) {
+      for (int i = 0; i < numcols ; i++) {
+        if (nlp_->isInteger(i)) {
+          nlp_->setColBounds(i,saveColLb[i],saveColUb[i]);
+        }
+      }
+      delete [] saveColLb;
+      delete [] saveColUb;
       throw CoinError("Unsolved NLP ... exit", "generateCuts", "OaNlpOptim");
     }
     else {
-- 
2.43.0


From 0cda9b5f2ce298f93917a5ea32b3845d7f7d364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 30/74] fix: HeuristicDiveMIP: copy an object that has no
 sub-MIP solver yet

---
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 7acc9ea..30fa5bc 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -59,7 +59,7 @@ namespace Bonmin
     CbcHeuristic(copy),
     setup_(copy.setup_),
     howOften_(copy.howOften_),
-    mip_(new SubMipSolver(*copy.mip_))
+    mip_(copy.mip_ ? new SubMipSolver(*copy.mip_) : NULL)
   {
   }
 
-- 
2.43.0


From 0cd0d5043c069b731316d94ee056c0cff22014ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 31/74] fix: strong branching: release memory and hot start
 before reporting a discarded side

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 521eb24..1818a87 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -845,6 +845,11 @@ namespace Bonmin
       }
       if(solver->getRowCutDebugger() && status0 == 1 ){
            OsiTMINLPInterface * tminlp_solver = dynamic_cast<OsiTMINLPInterface *> (solver);
+           delete [] saveLower;
+           delete [] saveUpper;
+           if (solver!=thisSolver)
+             delete thisSolver;
+           solver->unmarkHotStart();
            throw tminlp_solver->newUnsolvedError(1, tminlp_solver->problem(), "SB");
       }
       numberStrongIterations_ += thisSolver->getIterationCount();
@@ -892,6 +897,11 @@ namespace Bonmin
       }
       if(solver->getRowCutDebugger() && status1 == 1){
            OsiTMINLPInterface * tminlp_solver = dynamic_cast<OsiTMINLPInterface *> (solver);
+           delete [] saveLower;
+           delete [] saveUpper;
+           if (solver!=thisSolver)
+             delete thisSolver;
+           solver->unmarkHotStart();
            throw tminlp_solver->newUnsolvedError(1, tminlp_solver->problem(), "SB");
       }
       numberStrongIterations_ += thisSolver->getIterationCount();
-- 
2.43.0


From 9bedc19f950acbe6ab874851f4807b28da22301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 32/74] fix: LP strong branching: pass the branch's upper
 bounds to the LP

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 4faaa63..7a7bbc7 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -145,7 +145,7 @@ namespace Bonmin
           diff_up_bnd_index.push_back(i);
           diff_up_bnd_value.push_back(colUp_orig[i]);
         }
-        lin->setColUpper(i,lo);
+        lin->setColUpper(i,up);
       }
     }
 
-- 
2.43.0


From b5b6aaada0fb941d2a552ba29ed0afa4e355db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 33/74] fix: LP strong branching: report the point of the LP
 that was solved

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 7a7bbc7..3a61b1d 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -179,7 +179,7 @@ namespace Bonmin
       }
     }
     tminlp_interface->problem()->set_obj_value(obj);
-    tminlp_interface->problem()->Set_x_sol(numCols, lin_->getColSolution());
+    tminlp_interface->problem()->Set_x_sol(numCols, lin->getColSolution());
 
     //restore the original bounds
     if(warm_start_mode_ == Basis){
-- 
2.43.0


From ea40f29a844efe84bda402c8d6b567ebe2c6d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:25 +0000
Subject: [PATCH 34/74] fix: LP strong branching: release a snapshot left by an
 interrupted evaluation

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 3a61b1d..1d9cdf0 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -76,6 +76,8 @@ namespace Bonmin
   void LpBranchingSolver::
   markHotStart(OsiTMINLPInterface* tminlp_interface)
   {
+    // Forget a snapshot that was not released
+    unmarkHotStart(tminlp_interface);
     lin_ = new OsiClpSolverInterface();
     tminlp_interface->extractLinearRelaxation(*lin_, tminlp_interface->getColSolution(),
                                               true);
-- 
2.43.0


From eb7572fb9d4bc21b953d9ac4d4ef394af58e4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:22 +0000
Subject: [PATCH 35/74] fix: BoundsReader: initialise the index arrays the
 destructor frees

---
 src/Interfaces/BonBoundsReader.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonBoundsReader.hpp b/src/Interfaces/BonBoundsReader.hpp
index 64a6921..28dff8e 100644
--- a/src/Interfaces/BonBoundsReader.hpp
+++ b/src/Interfaces/BonBoundsReader.hpp
@@ -25,6 +25,8 @@ public:
       fileName_(),
       lowerBounds_(NULL),
       upperBounds_(NULL),
+      indexLowers_(NULL),
+      indexUppers_(NULL),
       nLower_(0),
       nUpper_(0)
   {}
-- 
2.43.0


From c8ae6588a740fd293045415278cbb34391785252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:33 +0000
Subject: [PATCH 36/74] fix: DummyPump, FixAndSolve: the local search already
 frees the nlp

---
 src/CbcBonmin/Heuristics/BonDummyPump.cpp            | 1 -
 src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonDummyPump.cpp b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
index dd9bf72..1a6c89d 100644
--- a/src/CbcBonmin/Heuristics/BonDummyPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
@@ -56,7 +56,6 @@ namespace Bonmin {
 
     double cutoff = info.cutoff_; 
     int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
     return r_val;
   }
 
diff --git a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
index ca21485..a16ed7c 100644
--- a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
@@ -67,7 +67,6 @@ namespace Bonmin {
     if(nFixed < numberObjects / 3) return 0;
     double cutoff = info.cutoff_; 
     int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
     return r_val;
   }
 
-- 
2.43.0


From f3e74e43fb947d46bf358eca20a8eea31b27614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:33 +0000
Subject: [PATCH 37/74] fix: FixAndSolve, RINS: free the nlp when no local
 search is run

---
 src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp | 5 ++++-
 src/CbcBonmin/Heuristics/BonHeuristicRINS.cpp        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
index a16ed7c..788c238 100644
--- a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
@@ -64,7 +64,10 @@ namespace Bonmin {
          nFixed ++;
       }
     }
-    if(nFixed < numberObjects / 3) return 0;
+    if(nFixed < numberObjects / 3) {
+      delete nlp;
+      return 0;
+    }
     double cutoff = info.cutoff_; 
     int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
     return r_val;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicRINS.cpp b/src/CbcBonmin/Heuristics/BonHeuristicRINS.cpp
index 703d7fc..34d94db 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicRINS.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicRINS.cpp
@@ -105,7 +105,10 @@ namespace Bonmin {
       std::cout<<"executed RINS "<<r_val<<std::endl;
 #endif
     }
-    else {numberSolutions_ --;}
+    else {
+      numberSolutions_ --;
+      delete nlp;
+    }
 
     if(r_val > 0) {
       numberSolutions_ = model_->getSolutionCount() + 1;
-- 
2.43.0


From b901d944b7812343abb9844ab42ec44adc54e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:49 +0000
Subject: [PATCH 38/74] fix: honour the options for the dynamic definition of
 cutoff_decr

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 61c45cd..1c67c6b 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -989,7 +989,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
 
     if(dynamicCutOff_)
     {
-      if(var_coeff<0.1)
+      if(var_coeff<coeff_var_threshold_)
       {
         setNewCutoffDecr(mean*first_perc_for_cutoff_decr_);
       }
@@ -3018,6 +3018,10 @@ OsiTMINLPInterface::extractInterfaceParams()
     app_->options()->GetIntegerValue("num_resolve_at_infeasibles", numRetryInfeasibles_,app_->prefix());
     app_->options()->GetIntegerValue("num_iterations_suspect", numIterationSuspect_,app_->prefix());
     app_->options()->GetEnumValue("nlp_failure_behavior",pretendFailIsInfeasible_,app_->prefix());
+    app_->options()->GetEnumValue("dynamic_def_cutoff_decr",dynamicCutOff_,app_->prefix());
+    app_->options()->GetNumericValue("coeff_var_threshold",coeff_var_threshold_,app_->prefix());
+    app_->options()->GetNumericValue("first_perc_for_cutoff_decr",first_perc_for_cutoff_decr_,app_->prefix());
+    app_->options()->GetNumericValue("second_perc_for_cutoff_decr",second_perc_for_cutoff_decr_,app_->prefix());
     app_->options()->GetNumericValue
     ("warm_start_bound_frac" ,pushValue_,app_->prefix());
     app_->options()->GetNumericValue("tiny_element",tiny_,app_->prefix());
-- 
2.43.0


From 8a841baa96f126cdc55eb42d48e0c377f097f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:49 +0000
Subject: [PATCH 39/74] fix: feasibility pump: honour fp_log_level and
 fp_log_frequency

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..567572b 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -43,6 +43,10 @@ namespace Bonmin
     if(parameter().maxSols_ > b.getIntParameter(BabSetupBase::MaxSolutions))
       parameter().maxSols_ = b.getIntParameter(BabSetupBase::MaxSolutions);
     b.options()->GetEnumValue("fp_pass_infeasible", passBound_, prefix);
+    int logLevel;
+    b.options()->GetIntegerValue("fp_log_level", logLevel, prefix);
+    handler_->setLogLevel(logLevel);
+    b.options()->GetNumericValue("fp_log_frequency", parameter().logFrequency_, prefix);
  }
 
   MinlpFeasPump::~MinlpFeasPump()
-- 
2.43.0


From 989d618be3aa0b7968cadc08d5c4be6c7f92876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:47 +0000
Subject: [PATCH 40/74] fix: milp_solver=Cbc_Par: do not read the unregistered
 option probing_cuts

---
 src/Algorithms/BonCbcLpStrategy.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonCbcLpStrategy.cpp b/src/Algorithms/BonCbcLpStrategy.cpp
index 35efae8..280976a 100644
--- a/src/Algorithms/BonCbcLpStrategy.cpp
+++ b/src/Algorithms/BonCbcLpStrategy.cpp
@@ -60,11 +60,11 @@ namespace Bonmin
 
     int k = 0;
     
-    bool set = s.options()->GetIntegerValue("probing_cuts", gen_freqs_[k], prefix);
-    if(set==0) gen_freqs_[k] = -99;
+    // there is no option for the frequency of probing cuts
+    gen_freqs_[k] = -99;
     k++;
 
-    set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
+    bool set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
     if(set==0) gen_freqs_[k] = -99;
     k++;
     
-- 
2.43.0


From cdf0193daae75431fdc5b9e97b330fa60df91e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:10 +0000
Subject: [PATCH 41/74] fix: file_solution: register the values in the order
 they are interpreted

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 1c67c6b..47b7666 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -84,8 +84,8 @@ register_general_options
   roptions->AddStringOption2("file_solution",
        "Write a file bonmin.sol with the solution",
        "no",
-       "yes","",
-       "no","","");
+       "no","",
+       "yes","","");
   roptions->setOptionExtraInfo("file_solution",127);
 
   roptions->SetRegisteringCategory("NLP solution robustness", RegisteredOptions::BonminCategory);
-- 
2.43.0


From 6f4598173b184fc8523543d81e8e82b0e485ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:31 +0000
Subject: [PATCH 42/74] fix: option documentation: right option for extra info,
 registered category name

---
 src/Algorithms/BonBabSetupBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 456fa85..4a166dd 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -629,7 +629,7 @@ namespace Bonmin
                "no","",
                "yes","",
                "For Debugging purposes only.");
-    roptions->setOptionExtraInfo("enable_dynamic_nlp", 8);
+    roptions->setOptionExtraInfo("read_solution_file", 8);
 
     /* Branching options.*/
     LpBranchingSolver::registerOptions(roptions);
@@ -755,7 +755,7 @@ namespace Bonmin
       categories.push_back("Primal Heuristics");
       categories.push_back("NLP interface");
       categories.push_back("NLP solution robustness");
-      categories.push_back("NLP solves in hybrid algorithm");
+      categories.push_back("NLP solves in hybrid algorithm (B-Hyb)");
       categories.push_back("Nonconvex problems");
       categories.push_back("Outer Approximation Decomposition (B-OA)");
       categories.push_back("Outer Approximation cuts generation");
-- 
2.43.0


From 24a3b7ab451588ea1f2578a68749bf18d1644fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:15 +0000
Subject: [PATCH 43/74] fix: feasibility checker: honour oa_cuts_scope for
 outer approximation cuts

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1149a5d..1155871 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -78,7 +78,7 @@ namespace Bonmin
                              colsol:NULL;
       if(cut_count_ <= maximum_oa_cuts_ && type_ == OA)
         nlp_->getOuterApproximation(cs, nlpSol, 1, toCut,
-                                    true);
+                                    parameter().global_);
       else {//if (type_ == Benders)
         nlp_->getBendersCut(cs, parameter().global_);
       }
-- 
2.43.0


From 05fd4353e1ee964e7c648a69502e6f161c11eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:33 +0000
Subject: [PATCH 44/74] fix: applyRowCut: forget the cached row views

---
 src/Interfaces/BonOsiTMINLPInterface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index d9f2cfe..f35e350 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -1125,6 +1125,7 @@ protected:
   virtual void applyRowCut( const OsiRowCut & rc )
   {
     const OsiRowCut * cut = &rc;
+    freeCachedRowRim();
     problem_->addCuts(1, &cut);
   }
   /** We have to keep this but it will throw an error.
-- 
2.43.0


From f3e91246f05a572636d6b83f1657e3bdadaa0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 45/74] fix: TNLP2FPNLP::eval_jac_g: pass the wrapped problem
 its own number of rows

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..f5112f7 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -305,7 +305,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -338,7 +338,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
-- 
2.43.0


From e3975ac30e9337093b806e383a17431758ca3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 46/74] fix: TNLP2FPNLP::eval_jac_g: local branching entries
 follow the cutoff entries

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index f5112f7..abfd829 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -268,9 +268,8 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
-	iRow += k;
-	jCol += k;
+	iRow += n;
+	jCol += n;
 	for(int i = 0; i< n_integers; i++) {
 	  iRow[i] = m - 1 + index_correction;
 	  jCol[i] = inds_[i] + index_correction;
@@ -280,9 +279,8 @@ namespace Bonmin
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
 	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
-	  int k = nele_jac - n - n_integers;
-	  values += k;
 	  for(int i = 0; i< n; i++) {
 	    values[i] = grad_f[i];
 	  }
@@ -291,8 +289,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
-	values += k;
+	values += n;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
 	    values[i] = 1.0;
-- 
2.43.0


From 53112d3a550c8e66956adc65f8322eda45ff13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 47/74] fix: TNLP2FPNLP: the cutoff constraint is on the
 original objective

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index abfd829..56e8c50 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -278,7 +278,7 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
 	  for(int i = 0; i< n; i++) {
@@ -317,7 +317,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
-- 
2.43.0


From 5967256ce16b347275869623470a3cb4c6a1ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 48/74] fix: TNLP2FPNLP::eval_h: Hessian of the original
 objective when the distance is not used

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 56e8c50..58a453e 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -377,27 +377,29 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    double orig_obj_factor = obj_factor;
+    if(use_feasibility_pump_objective_) orig_obj_factor *= (1-lambda_)*sigma_;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, orig_obj_factor + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, orig_obj_factor + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, orig_obj_factor, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, orig_obj_factor, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From 46dd6c9b3611c59edb6bcdf7bdd2b05877b7bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 49/74] fix: TNLP2FPNLP::get_constraints_linearity: cutoff row
 precedes local branching row

---
 src/Interfaces/BonTNLP2FPNLP.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.hpp b/src/Interfaces/BonTNLP2FPNLP.hpp
index 991d989..29a813a 100644
--- a/src/Interfaces/BonTNLP2FPNLP.hpp
+++ b/src/Interfaces/BonTNLP2FPNLP.hpp
@@ -166,14 +166,14 @@ namespace Bonmin
     virtual bool get_constraints_linearity(Ipopt::Index m, LinearityType* const_types)
     {
       int m2 = m;
-      if(use_cutoff_constraint_) {
-        m2--;
-        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
-      } 
       if(use_local_branching_constraint_) {
         m2--;
         const_types[m2] = Ipopt::TNLP::LINEAR;
       }
+      if(use_cutoff_constraint_) {
+        m2--;
+        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
+      } 
       return tnlp_->get_constraints_linearity(m2, const_types);
     }
     /** @name Scaling of the objective function */
-- 
2.43.0


From 38059cd5a3e83faf1dc72dafb568181daabb12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 50/74] fix: TMINLPLinObj: respect arrays that are not given,
 report failing evaluations

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index 2dd7729..8a79346 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -75,7 +75,7 @@ namespace Bonmin{
      if(use_g_scaling && g_scaling){
        mod_obj_scaling = g_scaling;}
      return tminlp_->get_scaling_parameters(*mod_obj_scaling, use_x_scaling, n - 1, x_scaling,
-                                                         use_g_scaling, m - 1, g_scaling + 1);
+                                                         use_g_scaling, m - 1, (g_scaling != NULL) ? g_scaling + 1 : NULL);
    }
 
 
@@ -115,8 +115,9 @@ namespace Bonmin{
      assert(m == m_);
 
      bool return_value = tminlp_->get_starting_point(n - 1, init_x, x, init_z, z_L, z_U,
-                                            m - 1, init_lambda, lambda + 1);
-     tminlp_->eval_f(n-1, x, true, x[n-1]);
+                                            m - 1, init_lambda, (lambda != NULL) ? lambda + 1 : NULL);
+     if(init_x)
+       return_value = tminlp_->eval_f(n-1, x, true, x[n-1]) && return_value;
      if(init_lambda && lambda != NULL)
        lambda[0] = 0;
      return return_value;
@@ -199,6 +200,8 @@ namespace Bonmin{
       if(jCol != NULL){
         for(int i = 0 ; i < n ; i++) jCol[i] = i + offset_;
       }
+      nele_grad_gi = n;
+      if(values == NULL) return true;
       bool ret_val= tminlp_->eval_grad_f(n-1, x, new_x, values);
       values[n-1] = -1;
       return ret_val;}
-- 
2.43.0


From 6d40b497fbc2063b121c129d14304933cc3ee2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 51/74] fix: TMINLP2TNLPQuadCuts::get_scaling_parameters: call
 the parent, not itself

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index ebe3e79..0c61973 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -153,7 +153,7 @@ namespace Bonmin {
                                         bool& use_g_scaling, Index m,
                                         Number* g_scaling){
            assert(num_constraints() == m);
-           bool retval = get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
+           bool retval = TMINLP2TNLP::get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
            if(use_g_scaling){
              g_scaling += m - (int)quadRows_.size();
              CoinFillN(g_scaling, (int)quadRows_.size(), 1.);}
-- 
2.43.0


From ea881b0a2485688bb10226cf969a264d6c6067e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 52/74] fix: TMINLP2TNLPQuadCuts: evaluating a quadratic row
 succeeds

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 0c61973..da6c0bb 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -203,7 +203,7 @@ namespace Bonmin {
     }
     i -= m_orig;
      gi = quadRows_[i]->eval_f(x, new_x);
-     return false;
+     return true;
   }
 
 
@@ -279,7 +279,7 @@ namespace Bonmin {
       assert(jCol == NULL);
       quadRows_[i]->eval_grad(nele_grad_gi, x, new_x, values);
     }
-    return false;
+    return true;
   }
     /** Return the hessian of the
      *  lagrangian. The vectors iRow and jCol only need to be set once
-- 
2.43.0


From 8d95bd9ed1372c381df0ffc61f374bf64ea82070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 53/74] fix: TMINLP2TNLPQuadCuts: report failing evaluations of
 the model

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index da6c0bb..e20bfc6 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -167,15 +167,16 @@ namespace Bonmin {
     if(obj_.empty()){
        return TMINLP2TNLP::eval_f(n, x, new_x, obj_value);
     }
+    bool retval = true;
     if(new_x){
-       TMINLP2TNLP::eval_f(n,x, new_x, obj_value);
+       retval = TMINLP2TNLP::eval_f(n,x, new_x, obj_value);
     }
     obj_value = c_;
     assert(n == (int) obj_.size());
     for(int i = 0 ; i < n ; i++){
       obj_value += obj_[i] * x[i];
     }
-    return true;
+    return retval;
   }
 
   /** Returns the vector of the gradient of
@@ -185,13 +186,14 @@ namespace Bonmin {
         Number* grad_f){
     if(obj_.empty()){
       return TMINLP2TNLP::eval_grad_f(n, x, new_x, grad_f);}
+    bool retval = true;
     if(new_x){
-      TMINLP2TNLP::eval_grad_f(n, x, new_x, grad_f);}
+      retval = TMINLP2TNLP::eval_grad_f(n, x, new_x, grad_f);}
     assert(n == (int) obj_.size());
     for(int i = 0 ; i < n ; i++){
       grad_f[i] = obj_[i];
     }
-   return true;
+   return retval;
   }
 
   bool TMINLP2TNLPQuadCuts::eval_gi(Index n, const Number* x, bool new_x,
-- 
2.43.0


From f480bece1e3dc4b575462d6e0350143b4280f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 54/74] fix: TMINLP2TNLP::check_solution: a point that cannot
 be evaluated is not feasible

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..dd76026 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -685,8 +685,9 @@ namespace Bonmin
         }
       }
     }
-    eval_g((int)x_sol_.size(), x_sol_(), true, (int)g_sol_.size(), g_sol_());
-    eval_f((int)x_sol_.size(), x_sol_(), false, obj_value_);
+    if(!eval_g((int)x_sol_.size(), x_sol_(), true, (int)g_sol_.size(), g_sol_()) ||
+       !eval_f((int)x_sol_.size(), x_sol_(), false, obj_value_))
+      return COIN_DBL_MAX;
     double error = 0;
     for(unsigned int i = 0 ; i < g_sol_.size() ; i++){
       error = std::max(error, std::max(0., g_l_[i] - g_sol_[i]));
-- 
2.43.0


From 82379e9e1d47fd86885561a80491f330e6ac7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:05 +0000
Subject: [PATCH 55/74] fix: local search heuristics: report the objective of
 the original problem, only if it improves

---
 .../Heuristics/BonLocalSolverBasedHeuristic.cpp       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp b/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
index dc1f46b..b89a5c9 100644
--- a/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
@@ -99,9 +99,14 @@ namespace Bonmin {
       bb(mysetup); 
       int r_val = 0;
       if(bb.bestSolution()){
-        CoinCopyN(bb.bestSolution(), solver->getNumCols(), solution);
-        solValue = bb.bestObj();
-        r_val = 1;
+        // the sub-problem may have another objective: evaluate the original one
+        double value;
+        if(solver->problem()->eval_f(solver->getNumCols(), bb.bestSolution(), true, value)
+           && value < solValue){
+          CoinCopyN(bb.bestSolution(), solver->getNumCols(), solution);
+          solValue = value;
+          r_val = 1;
+        }
       }
       delete mysetup;
       return r_val;
-- 
2.43.0


From a728c99de9af0492f3364e56fd137ed9bfcd6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:05 +0000
Subject: [PATCH 56/74] fix: heuristics: a point whose objective cannot be
 evaluated is no solution

---
 src/CbcBonmin/Heuristics/BonHeuristicDive.cpp    | 4 ++--
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 4 ++--
 src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp   | 4 ++--
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
index 7863ecb..bbf4112 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
@@ -279,8 +279,8 @@ namespace Bonmin
 
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue); 
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) &&
+         newSolutionValue < solutionValue) {
 	memcpy(betterSolution,newSolution,numberColumns*sizeof(double));
 	solutionValue = newSolutionValue;
 	returnCode = 1;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 30fa5bc..d155c09 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -464,8 +464,8 @@ namespace Bonmin
 
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue); 
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) &&
+         newSolutionValue < solutionValue) {
 	memcpy(betterSolution,newSolution,numberColumns*sizeof(double));
 	solutionValue = newSolutionValue;
 	returnCode = 1;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp b/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
index 64e731b..2574cfa 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
@@ -376,8 +376,8 @@ namespace Bonmin
 
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue);
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) &&
+         newSolutionValue < solutionValue) {
 	memcpy(betterSolution,newSolution,numberColumns*sizeof(double));
 	solutionValue = newSolutionValue;
 	returnCode = 1;
diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index f121324..2247fc8 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -334,8 +334,8 @@ namespace Bonmin
     }
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(n, newSolution(), true, newSolutionValue); 
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(n, newSolution(), true, newSolutionValue) &&
+         newSolutionValue < solutionValue) {
         std::copy(newSolution.begin(), newSolution.end(), betterSolution);
 	solutionValue = newSolutionValue;
 	returnCode = 1;
-- 
2.43.0


From d66a6122010377d497fe5c3e41d10faa8d503357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:27 +0000
Subject: [PATCH 57/74] fix: HeuristicDive: a point whose constraints cannot be
 evaluated is no solution

---
 src/CbcBonmin/Heuristics/BonHeuristicDive.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
index bbf4112..69a8a8e 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
@@ -255,9 +255,10 @@ namespace Bonmin
 	}
       }
     }
-    minlp->eval_g(numberColumns, newSolution, true,
-		  numberRows, new_g_sol);
-    for(int iRow=0; iRow<numberRows; iRow++) {
+    if(!minlp->eval_g(numberColumns, newSolution, true,
+		      numberRows, new_g_sol))
+      feasible = false;
+    for(int iRow=0; feasible && iRow<numberRows; iRow++) {
       if(new_g_sol[iRow]<g_l[iRow]-primalTolerance ||
 	 new_g_sol[iRow]>g_u[iRow]+primalTolerance) {
 	if(minlp->optimization_status() != Ipopt::SUCCESS) {
-- 
2.43.0


From da2ed25a179be9652a2056e87f24a5e5dfe89f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:29 +0000
Subject: [PATCH 58/74] fix: Bab: a search the user interrupted is reported as
 such, whatever Cbc made of it

---
 src/CbcBonmin/BonCbc.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..5a3a345 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -646,7 +646,16 @@ namespace Bonmin
          bestSolution_ = new double[s.nonlinearSolver()->getNumCols()];
          CoinCopyN(model_.bestSolution(), s.nonlinearSolver()->getNumCols(), bestSolution_);
        }
-       if(remaining_time <= 0.){
+       if(BonminAbortAll){
+         status = TMINLP::USER_INTERRUPT;
+         if (bestSolution_) {
+           mipStatus_ = Feasible;
+         }
+         else {
+           mipStatus_ = NoSolutionKnown;
+         }
+       }
+       else if(remaining_time <= 0.){
          status = TMINLP::LIMIT_EXCEEDED;
          if (bestSolution_) {
            mipStatus_ = Feasible;
-- 
2.43.0


From 4119d707451d1e3fc8ada6396a17535386d6974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:29 +0000
Subject: [PATCH 59/74] fix: Bab: define the status of an abandoned search

---
 src/CbcBonmin/BonCbc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 5a3a345..b44bcd8 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -688,8 +688,9 @@ namespace Bonmin
            mipStatus_ = NoSolutionKnown;
          }
     }
-    else if (model_.status()==2) {
+    else {
       status = TMINLP::MINLP_ERROR;
+      mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
     }
   }
   s.nonlinearSolver()->model()->finalize_solution(status,
-- 
2.43.0


From cd327cd0730107da4c87f0fc1e5f0de8463194c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:29 +0000
Subject: [PATCH 60/74] fix: Bab: a search does not report the results of an
 earlier one

---
 src/CbcBonmin/BonCbc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index b44bcd8..f2f5e6b 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -69,7 +69,7 @@ namespace Bonmin
   /** Constructor.*/
   Bab::Bab():
       bestSolution_(NULL),
-      mipStatus_(),
+      mipStatus_(NoSolutionKnown),
       bestObj_(1e200),
       bestBound_(-1e200),
       continuousRelaxation_(-COIN_DBL_MAX),
@@ -106,6 +106,12 @@ namespace Bonmin
   {
 
     double remaining_time = s.getDoubleParameter(BabSetupBase::MaxTime) + CoinCpuTime();
+    // forget the results of an earlier search
+    delete [] bestSolution_;
+    bestSolution_ = NULL;
+    mipStatus_ = NoSolutionKnown;
+    bestObj_ = 1e200;
+    bestBound_ = -1e200;
     /* Put a link to this into solver.*/
     OsiBabSolver *  babInfo = dynamic_cast<OsiBabSolver *>(s.continuousSolver()->getAuxiliaryInfo());
     assert(babInfo);
-- 
2.43.0


From f5ae868102485117a294aecc6ec21e5db16b645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:34 +0000
Subject: [PATCH 61/74] fix: feasibility pump: stopping on a limit is not
 convergence

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 567572b..0939cfc 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -209,6 +209,7 @@ namespace Bonmin
       //check time
       if (CoinCpuTime() - timeBegin_ > parameters_.maxLocalSearchTime_){
         colsol = NULL;
+        milpOptimal = false;//stopped early, nothing is proved
         break;
       }
       //do we perform a new local search ?
@@ -236,6 +237,7 @@ namespace Bonmin
       }/** endif localSearch*/
       else {
         colsol = NULL;
+        milpOptimal = false;//stopped early, nothing is proved
       }
     }
      //return -DBL_MAX;
-- 
2.43.0


From 06c5472743bad89909cb631b6ae16c4cd3b347c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:29 +0000
Subject: [PATCH 62/74] fix: BonminSetup: remember the algorithm when set up
 from a solver interface

---
 src/Algorithms/BonBonminSetup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index ae60d2f..87b00ab 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -178,8 +178,8 @@ namespace Bonmin
   {
     use(nlpSi);
     BabSetupBase::gatherParametersValues(options_);
-    Algorithm algo = getAlgorithm();
-    if (algo == B_BB)
+    algo_ = getAlgorithm();
+    if (algo_ == B_BB)
       initializeBBB();
     else
       initializeBHyb(createContinuousSolver);
-- 
2.43.0


From 8d42238a2bbfdf0bc6ae836c15b70a7ef5710532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:16 +0000
Subject: [PATCH 63/74] fix: LpBranchingSolver does not report an abandoned or
 unbounded LP as solved

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 1d9cdf0..106bef5 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -168,6 +168,11 @@ namespace Bonmin
       retstatus = TNLPSolver::iterationLimit;
       go_on = false;
     }
+    else if (!lin->isProvenOptimal()) {
+      // abandoned or unbounded: nothing is known about this side
+      retstatus = TNLPSolver::computationError;
+      go_on = false;
+    }
     else {
       if (maxCuttingPlaneIterations_ > 0 && go_on) {
         double violation;
-- 
2.43.0


From ae79276d6b048ac45e5e95a56eab7ae8aafb39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 64/74] fix: BoundsReader raises an error that can be caught
 instead of rethrowing nothing

---
 src/Interfaces/BonBoundsReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonBoundsReader.cpp b/src/Interfaces/BonBoundsReader.cpp
index d4ef484..6801d66 100644
--- a/src/Interfaces/BonBoundsReader.cpp
+++ b/src/Interfaces/BonBoundsReader.cpp
@@ -69,7 +69,7 @@ void BoundsReader::read()
       else if(in==up)
         nUpper_++;
       else
-        throw;
+        throw CoinError("Unrecognized type of bound in file "+fileName_, "read", "BoundsReader");
       fin.ignore(10000,'\n');
     }
   }
@@ -102,7 +102,7 @@ void BoundsReader::read()
         indexUppers_[nUpper_++] = index;
       }
       else
-        throw;
+        throw CoinError("Unrecognized type of bound in file "+fileName_, "read", "BoundsReader");
       fin2.ignore(10000,'\n');
     }
   }
-- 
2.43.0


From 40dfbaf3ae3a3a38f6115346f191d03ff09556f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 65/74] fix: Ipopt exceptions are passed on with their type

---
 src/Algorithms/BonBabSetupBase.cpp | 4 ++--
 src/Interfaces/BonTNLPSolver.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 4a166dd..7b31f29 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -662,7 +662,7 @@ namespace Bonmin
     }
     catch (Ipopt::IpoptException &E) {
       E.ReportException(*journalist_);
-      throw E;
+      throw;
     }
     catch (const std::bad_alloc &) {
       journalist_->Printf(Ipopt::J_ERROR, Ipopt::J_MAIN, "\n Not enough memory .... EXIT\n");
@@ -730,7 +730,7 @@ namespace Bonmin
       }
       catch (Ipopt::IpoptException &E) {
         E.ReportException(*journalist_);
-        throw E;
+        throw;
       }
     }
     mayPrintDoc();
diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index 35faf65..e329773 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -273,7 +273,7 @@ TNLPSolver::initializeOptionsAndJournalist(){
   }
   catch (Ipopt::IpoptException &E){
     E.ReportException(*journalist_);
-    throw E;
+    throw;
   }
   catch(std::bad_alloc){
     journalist_->Printf(Ipopt::J_ERROR, Ipopt::J_MAIN, "\n Not enough memory .... EXIT\n");
-- 
2.43.0


From a5aef4d706be997e2a7579319a3ee3f1aaa21d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 66/74] fix: name the Ipopt statuses -4 and 6, printing an
 unsolved error raised another exception

---
 src/Interfaces/Ipopt/BonIpoptSolver.cpp | 8 ++++++--
 src/Interfaces/Ipopt/BonIpoptSolver.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index 235e6b3..c0d6b03 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -449,7 +449,7 @@ IpoptSolver::getUsedWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> tnlp) const
   /******************************************************************************/
 
   std::string
-  IpoptSolver::UnsolvedIpoptError::errorNames[17] ={"Solve succeeded",
+  IpoptSolver::UnsolvedIpoptError::errorNames[19] ={"Solve succeeded",
       "Solved to acceptable level",
       "Infeasible problem detected",
       "Search direction becomes too small",
@@ -465,16 +465,20 @@ IpoptSolver::getUsedWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> tnlp) const
       "Unrecoverable exception",
       "NonIpopt exception thrown",
       "Insufficient memory",
-      "Internal error"};
+      "Internal error",
+      "Maximum CPU time exceeded",
+      "Feasible point found"};
 
   const std::string &
   IpoptSolver::UnsolvedIpoptError::errorName() const
   {
+    if (errorNum() == 6) return errorNames[18];
     if (errorNum() >=0)
       return errorNames[errorNum()];
     if (errorNum() == -1) return errorNames[6];
     else if (errorNum() == -2) return errorNames[7];
     else if (errorNum() == -3) return errorNames[8];
+    else if (errorNum() == -4) return errorNames[17];
     else if (errorNum() == -10) return errorNames[9];
     else if (errorNum() == -11) return errorNames[10];
     else if (errorNum() == -12) return errorNames[11];
diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.hpp b/src/Interfaces/Ipopt/BonIpoptSolver.hpp
index 3486551..c0edc11 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.hpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.hpp
@@ -32,7 +32,7 @@ namespace Bonmin
       virtual ~UnsolvedIpoptError()
       {}
     private:
-      static std::string errorNames [17];
+      static std::string errorNames [19];
       static std::string solverName_;
     };
 
-- 
2.43.0


From 9f86bfebe40d714b7603b42c33a364dd2192df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 67/74] fix: the C interface frees the error it catches and
 lets no exception out

---
 src/Interfaces/BonStdCInterface.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Interfaces/BonStdCInterface.cpp b/src/Interfaces/BonStdCInterface.cpp
index 0d6e74e..d77962a 100644
--- a/src/Interfaces/BonStdCInterface.cpp
+++ b/src/Interfaces/BonStdCInterface.cpp
@@ -436,6 +436,7 @@ Int BonminSolve(
     catch(TNLPSolver::UnsolvedError *E)
     {
         std::cerr<<"Bonmin has failed to solve a problem"<<std::endl;
+        delete E;
     }
     catch(OsiTMINLPInterface::SimpleError &E)
     {
@@ -449,6 +450,15 @@ Int BonminSolve(
         <<std::endl
         <<E.message()<<std::endl;
     }
+    catch(Ipopt::IpoptException &E)
+    {
+        std::cerr<<E.Message()<<std::endl;
+    }
+    catch(...)
+    {
+        // no exception may reach the C caller
+        std::cerr<<"Bonmin stopped on an unrecognized error"<<std::endl;
+    }
     
     return 0;
 }
-- 
2.43.0


From 06b33ef5487eb128aa04076c7802f2966f39e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:35 +0000
Subject: [PATCH 68/74] fix: the C interface reports options it cannot read
 instead of letting the exception out

---
 src/Interfaces/BonStdCInterface.cpp | 34 ++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/Interfaces/BonStdCInterface.cpp b/src/Interfaces/BonStdCInterface.cpp
index d77962a..3b6740b 100644
--- a/src/Interfaces/BonStdCInterface.cpp
+++ b/src/Interfaces/BonStdCInterface.cpp
@@ -174,7 +174,15 @@ BonminProblem CreateBonminProblem(
     retval->x_scaling = NULL;
     retval->g_scaling = NULL;
 
-    retval->bonmin_setup.initializeOptionsAndJournalist();
+    try
+    {
+        retval->bonmin_setup.initializeOptionsAndJournalist();
+    }
+    catch(...)
+    {
+        FreeBonminProblem(retval);
+        return NULL;
+    }
 
     return retval;
 }
@@ -232,20 +240,34 @@ Bool AddBonminIntOption(BonminProblem bonmin_problem, char* keyword, Int val)
 Bool ReadBonminOptString( BonminProblem bonmin_problem, char* option )
 {
     std::string opt_string( option );
-    bonmin_problem->bonmin_setup.readOptionsString( opt_string );
+    try
+    {
+        bonmin_problem->bonmin_setup.readOptionsString( opt_string );
+    }
+    catch(...)
+    {
+        return FALSE;
+    }
     return TRUE;
 }
 
 Bool ReadBonminOptFile( BonminProblem bonmin_problem, char* file_path )
 {
     std::string file_path_str( file_path );
-    if( file_path_str.compare( "" ) == 0 )
+    try
     {
-        bonmin_problem->bonmin_setup.readOptionsFile();
+        if( file_path_str.compare( "" ) == 0 )
+        {
+            bonmin_problem->bonmin_setup.readOptionsFile();
+        }
+        else
+        {
+            bonmin_problem->bonmin_setup.readOptionsFile(file_path_str);
+        }
     }
-    else
+    catch(...)
     {
-        bonmin_problem->bonmin_setup.readOptionsFile(file_path_str);
+        return FALSE;
     }
     return TRUE;
 }
-- 
2.43.0


From dd716a786a418c7c98f2d5ded0d8f7aa8b25ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 69/74] fix: OsiTMINLPInterface::use leaves feasibility mode
 when it installs the problem to solve

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 47b7666..c0eba4b 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -3152,6 +3152,7 @@ const double * OsiTMINLPInterface::getObjCoefficients() const
   OsiTMINLPInterface::use(Ipopt::SmartPtr<TMINLP2TNLP> tminlp2tnlp){
      problem_ = tminlp2tnlp;
      problem_to_optimize_ = GetRawPtr(problem_);
+     feasibility_mode_ = false;
      feasibilityProblem_->use(GetRawPtr(tminlp2tnlp));}
 
 }/** end namespace Bonmin*/
-- 
2.43.0


From 717d45b152490a92e174f32224ab367012f18c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:31 +0000
Subject: [PATCH 70/74] fix: the outer approximation loops stop when the user
 aborts

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 8 +++++---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 6 ++++++
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp   | 6 ++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 0939cfc..c1ba205 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -22,6 +22,8 @@
 
 #include <climits>
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "FP for MINLP";
@@ -157,7 +159,7 @@ namespace Bonmin
            nlp_->resolve(txt_id);
          }
          bool restart = false;
-         if (post_nlp_solve(babInfo, cutoff)) {
+         if (!BonminAbortAll && post_nlp_solve(babInfo, cutoff)) {
            restart = true;
            //nlp is solved and feasible
            // Update the cutoff
@@ -206,8 +208,8 @@ namespace Bonmin
       installCuts(*lp, cs, numberCuts);
       numberCutsBefore = cs.sizeRowCuts();
      
-      //check time
-      if (CoinCpuTime() - timeBegin_ > parameters_.maxLocalSearchTime_){
+      //check time and interruption by user
+      if (BonminAbortAll || CoinCpuTime() - timeBegin_ > parameters_.maxLocalSearchTime_){
         colsol = NULL;
         milpOptimal = false;//stopped early, nothing is proved
         break;
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..673d3a2 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -22,6 +22,8 @@
 
 #include <climits>
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "OA decomposition";
@@ -142,6 +144,10 @@ namespace Bonmin
       fixIntegers(*nlp_,branch_info, parameters_.cbcIntegerTolerance_,objects_, nObjects_);
 
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) { //the nlp was not solved, only cut off the current point
+        nlp_->getOuterApproximation(cs, colsol, 1, NULL, parameter().global_);
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1155871..c0bc082 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -13,6 +13,8 @@
 #include "OsiAuxInfo.hpp"
 #include "BonSolverHelp.hpp"
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "check integer sol.";
@@ -62,6 +64,10 @@ namespace Bonmin
 
       //Now solve the NLP get the cuts, and intall them in the local LP
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) { //the nlp was not solved, only cut off the current point
+        nlp_->getOuterApproximation(cs, colsol, 1, NULL, parameter().global_);
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
-- 
2.43.0


From 63475b94e73dd9bef840b622f46b86a533992322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:31 +0000
Subject: [PATCH 71/74] fix: diving heuristics stop when the user aborts

---
 src/CbcBonmin/Heuristics/BonHeuristicDive.cpp    | 7 ++++++-
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
index 69a8a8e..0999444 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
@@ -23,6 +23,8 @@
 
 using namespace std;
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
   HeuristicDive::HeuristicDive()
@@ -190,6 +192,9 @@ namespace Bonmin
 
 	nlp->initialSolve();
 
+	if(BonminAbortAll)
+	  break;
+
 	if(minlp->optimization_status() != Ipopt::SUCCESS) {
 	  if(numberAtBoundFixed > 0) {
 	    // Remove the bound fix for variables that were at bounds
@@ -220,7 +225,7 @@ namespace Bonmin
 	  break;
       }
 
-      if(minlp->optimization_status() != Ipopt::SUCCESS) {
+      if(BonminAbortAll || minlp->optimization_status() != Ipopt::SUCCESS) {
 	break;
       }
 
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index d155c09..f4dad42 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -35,6 +35,8 @@
 
 using namespace std;
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
   HeuristicDiveMIP::HeuristicDiveMIP(BonminSetup * setup)
@@ -243,7 +245,7 @@ namespace Bonmin
 
       nlp->initialSolve();
 
-      if(minlp->optimization_status() != Ipopt::SUCCESS) {
+      if(BonminAbortAll || minlp->optimization_status() != Ipopt::SUCCESS) {
 	break;
       }
 
-- 
2.43.0


From 849da2be0ab3c3b8b52e94199c7ad7e1fd0e38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:31 +0000
Subject: [PATCH 72/74] fix: an interrupt after a nested branch and bound goes
 to the search around it

---
 src/CbcBonmin/BonCbc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index f2f5e6b..42de183 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -444,6 +444,7 @@ namespace Bonmin
     /*saveSignal =*/ signal(SIGINT,signal_handler);
 #endif
 
+    CbcModel * outerModel = currentBranchModel;
     currentBranchModel = &model_;
 
 
@@ -532,6 +533,7 @@ namespace Bonmin
     }
     }
     catch(TNLPSolver::UnsolvedError *E){
+      currentBranchModel = outerModel;
       s.nonlinearSolver()->model()->finalize_solution(TMINLP::MINLP_ERROR,
            0,
            NULL,
@@ -539,6 +541,11 @@ namespace Bonmin
       throw E;
    
     }
+    catch(...){
+      currentBranchModel = outerModel;
+      throw;
+    }
+    currentBranchModel = outerModel;
     numNodes_ = model_.getNodeCount();
     bestObj_ = model_.getObjValue();
     bestBound_ = model_.getBestPossibleObjValue();
-- 
2.43.0


From 24336d54707c8ceb37197069eddb6940686a5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 73/74] fix: outer approximation of a single constraint:
 columns follow the index style, structure and values are asked for separately

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index c0eba4b..f612a97 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2238,7 +2238,17 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int * indices = new int[getNumCols()];
   double * values = new double[getNumCols()];
   int nnz;
-  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
+  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, NULL);
+  problem_->eval_grad_gi(getNumCols(), x, 0, rowIdx, nnz, NULL, values);
+  int n, m, nnz_jac_g, nnz_h_lag;
+  TNLP::IndexStyleEnum index_style;
+  problem_->get_nlp_info( n, m, nnz_jac_g, nnz_h_lag, index_style);
+  if(index_style == Ipopt::TNLP::FORTRAN_STYLE)//put C-style
+  {
+    for(int i = 0 ; i < nnz ; i++){
+      indices[i]--;
+    }
+  }
   problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
 
   CoinPackedVector cut;
-- 
2.43.0


From 8aa169addf6363530bcfbfc532c163a45e73f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 74/74] fix: cut strengthener: columns of the constraint
 gradient follow the index style

---
 src/Interfaces/BonCutStrengthener.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 9a0ca49..3b77f86 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -265,6 +265,21 @@ namespace Bonmin
 	delete [] jCol;
 	return false;
       }
+      Index n_nlp;
+      Index m_nlp;
+      Index nnz_jac_g;
+      Index nnz_h_lag;
+      TNLP::IndexStyleEnum index_style;
+      if (!tminlp->get_nlp_info(n_nlp, m_nlp, nnz_jac_g, nnz_h_lag,
+				index_style)) {
+	delete [] jCol;
+	return false;
+      }
+      if (index_style == TNLP::FORTRAN_STYLE) {
+	for (Index i=0; i<nele_grad_gi; i++) {
+	  jCol[i]--;
+	}
+      }
     }
 
     bool lower_bound;
-- 
2.43.0

