From fdf37992e5efa761342b06cf85b552d1bdf01cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:32 +0000
Subject: [PATCH 01/30] fix: publish LP schedules with the right period and in
 execution order

---
 .../scheduling/CSDF_KPeriodicScheduling_LP.cpp           | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 2075db0..60f05a2 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -254,7 +254,8 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
         ARRAY_INDEX vid   = dataflow->getVertexId(t);
     	const EXEC_COUNT periodicity_factor = kvector.at(t);
 
-		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA / (TIME_UNIT) ( (TIME_UNIT) dataflow->getNi(t) / (TIME_UNIT) periodicity_factor );
+		// Ni counts phase executions: the K * phases starts listed below are repeated every OMEGA * K * phases / Ni.
+		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA * (TIME_UNIT) ( periodicity_factor * dataflow->getPhasesQuantity(t) ) / (TIME_UNIT) dataflow->getNi(t);
 
 		// Collect init starting times
 		for(EXEC_COUNT a = 1; a <= dataflow->getInitPhasesQuantity(t) ; a++) {
@@ -263,9 +264,9 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
 			res_schedule[vid].periodic_starts.second.push_back(starting_time);
 		}
 
-		// Collect periodic starting times
-		for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
-			for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+		// Collect periodic starting times (in execution order)
+		for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+			for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
 				auto starting_time_col_str = START_COL_STR(vname,a,k);
 				auto starting_time = g.getValue(starting_time_col_str);
 				res_schedule[vid].periodic_starts.second.push_back(starting_time);
-- 
2.43.0


From 31baa295867fc7c27398e26d44c8687e94a4f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:53 +0000
Subject: [PATCH 02/30] fix: LP scheduling commands refuse to report a
 throughput when the program has no solution

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 60f05a2..e929503 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -504,6 +504,7 @@ void algorithms::scheduling::CSDF_Real1PeriodicScheduling_LP (models::Dataflow*
 	VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
 	models::Scheduling res = CSDF_RealPeriodicScheduling_LP (dataflow);
 
+   VERBOSE_ASSERT(scheduling_t(res.getTaskSchedule()).size() == dataflow->getVerticesCount(), "The linear program has no solution, there is no schedule to report");
    TIME_UNIT omega = res.getGraphPeriod();
    std::cout << "SPeriodic(LP) throughput is "  << std::setw( 11 ) << std::setprecision( 9 ) <<  1.0 / omega << std::endl;
    std::cout << "SPeriodic(LP) period     is " << std::fixed << std::setw( 11 ) << std::setprecision( 6 ) << omega   << std::endl;
@@ -515,6 +516,7 @@ void algorithms::scheduling::CSDF_Real1PeriodicScheduling_LP (models::Dataflow*
 	VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
 	models::Scheduling res = CSDF_KPeriodicScheduling_LP  (dataflow, generate1PeriodicVector(dataflow));
 
+    VERBOSE_ASSERT(scheduling_t(res.getTaskSchedule()).size() == dataflow->getVerticesCount(), "The linear program has no solution, there is no schedule to report");
     TIME_UNIT omega = res.getGraphPeriod();
     std::cout << "1Periodic(LP) throughput is "  << std::setw( 11 ) << std::setprecision( 9 ) <<  1.0 / omega << std::endl;
     std::cout << "1Periodic(LP) period     is " << std::fixed << std::setw( 11 ) << std::setprecision( 6 ) << omega   << std::endl;
@@ -526,6 +528,7 @@ void algorithms::scheduling::CSDF_Real1PeriodicScheduling_LP (models::Dataflow*
 	VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
 	models::Scheduling res = CSDF_KPeriodicScheduling_LP (dataflow, generateNPeriodicVector(dataflow));
 
+    VERBOSE_ASSERT(scheduling_t(res.getTaskSchedule()).size() == dataflow->getVerticesCount(), "The linear program has no solution, there is no schedule to report");
     TIME_UNIT omega = res.getGraphPeriod();
     std::cout << "NPeriodic(LP) throughput is "  << std::setw( 11 ) << std::setprecision( 9 ) <<  1.0 / omega << std::endl;
     std::cout << "NPeriodic(LP) period     is " << std::fixed << std::setw( 11 ) << std::setprecision( 6 ) << omega   << std::endl;
-- 
2.43.0


From 47dba480a154db160de4b6aa72bee4987a009f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:32 +0000
Subject: [PATCH 03/30] fix: buffer sizing commands say there is no solution
 instead of reporting size 0

---
 .../algorithms/buffersizing/periodic.cpp        |  4 ++--
 .../algorithms/buffersizing/periodic_fixed.cpp  | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 853fcbb..258515e 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -284,7 +284,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 	// bool sol = g.solve(ilp_params);
 	if (gen_only)  {
 		g.writeMPSProblem();
-		return BufferSizingResult(false);
+		return BufferSizingResult();
 	}
 	bool sol = g.solveWith();
 
@@ -388,7 +388,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 		return total_buffer_size;
 	} else {
 		VERBOSE_ERROR("No feasible solution");
-		return 0;
+		return BufferSizingResult();
 	}
 
 
diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 0e757bb..348f2a6 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -103,7 +103,12 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
 
         generateStrictlyPeriodicOffsets(dataflow,period,offsets);
         checkOffsets(dataflow,period,offsets);
-        auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+        BufferSizingResult sizing_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+        if (!sizing_res.is_valid()) {
+            std::cout << "No solution" << std::endl;
+            return;
+        }
+        auto total_buffer_size = sizing_res.total_size();
         std::cout << "Total buffer size : " << total_buffer_size
                     << " + 2 * " << dataflow->getVerticesCount() << " = "
                     << total_buffer_size + 2 * dataflow->getVerticesCount() << std::endl ;
@@ -124,6 +129,7 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         generateStrictlyPeriodicOffsets(dataflow,period,offsets);
         checkOffsets(dataflow,period,offsets);
         BufferSizingResult buf_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+        VERBOSE_ASSERT(buf_res.is_valid(), "There is no buffer sizing for this period");
         dataflow->reset_computation();
 
         std::vector<ARRAY_INDEX> id_list; // no known way of getting a static edge list
@@ -186,7 +192,12 @@ void algorithms::compute_fixed_offset_buffer_sizing (models::Dataflow* const dat
     }
 
     checkOffsets(dataflow,period,offsets);
-    auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+    BufferSizingResult sizing_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+    if (!sizing_res.is_valid()) {
+        std::cout << "No solution" << std::endl;
+        return;
+    }
+    auto total_buffer_size = sizing_res.total_size();
 
     std::cout << "Total buffer size : " << total_buffer_size
                 << " + 2 * " << dataflow->getVerticesCount() << " = "
@@ -944,7 +955,7 @@ bool algorithms::generateMinMaxOffsets(models::Dataflow * dataflow, TIME_UNIT OM
 
        if (gen_only)  {
        	g.writeMPSProblem();
-       	return 0;
+       	return BufferSizingResult();
        }
 
 
-- 
2.43.0


From 39369bcbdbe9001a4ec917ce66c2e1dc6b7a95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:50 +0000
Subject: [PATCH 04/30] fix: start the cumulated DSE computation time at zero

---
 src/libkiter/algorithms/dse/dse.cpp      | 2 +-
 src/libkiter/algorithms/dse/periodic.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index 7cfcc21..65554db 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -113,7 +113,7 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
   std::map<Edge, TOKEN_UNIT> minStepSizes;
   std::map<Edge, std::pair<TOKEN_UNIT, TOKEN_UNIT>> minChannelSizes;
   TOKEN_UNIT minDistributionSize;
-  std::chrono::duration<double, std::milli> cumulativeTime; // store timings
+  std::chrono::duration<double, std::milli> cumulativeTime(0); // store timings
   auto cumulativeStart = std::chrono::steady_clock::now(); // DSE cumulative time starts here
 
   VERBOSE_DSE("INITIALISING SEARCH PARAMETERS:" << std::endl);
diff --git a/src/libkiter/algorithms/dse/periodic.cpp b/src/libkiter/algorithms/dse/periodic.cpp
index de95702..d5e9d8e 100644
--- a/src/libkiter/algorithms/dse/periodic.cpp
+++ b/src/libkiter/algorithms/dse/periodic.cpp
@@ -114,7 +114,7 @@ void algorithms::compute_csdf_dse_from_function   (models::Dataflow* const  data
     std::queue<std::pair<TIME_UNIT,TIME_UNIT>> range_to_explore;
     range_to_explore.push(std::pair<TIME_UNIT,TIME_UNIT>(0,FREQUENCY));
 
-    std::chrono::duration<double, std::milli> cumulativeTime; // store timings
+    std::chrono::duration<double, std::milli> cumulativeTime(0); // store timings
 
     dseLog << "storage distribution size;throughput;channel quantities;computation duration;cumulative duration"
               << std::endl; // initialise headers
-- 
2.43.0


From 3039675c7313fb4046f93eb1f94843f328d83ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:49 +0000
Subject: [PATCH 05/30] fix: keep the starting bound of the cycle ratio search
 below every cycle

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 8bf9fb5..4312f43 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -231,7 +231,8 @@ namespace boost {
               }
           }
 
-        return  cmp_props_t::multiplier * (s / cz);
+        // one step further than the sum, so that no cycle can sit on the bound itself
+        return  cmp_props_t::multiplier * (s / cz + 1);
       }
 
 
-- 
2.43.0


From a4868ba4924ad544b79bedae005eaa1e0efb2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 06/30] fix: publish ASAP schedules whose periodic part starts
 at the repeated state

---
 .../algorithms/throughput/symbolic_execution.cpp      | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..f09bf64 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -588,13 +588,14 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
   bool end_check = false; // temp workaround before replacing with mathematical solution
   int actors_left = 0; // seems more efficient to use a counter check than to check through the array
   std::map<ARRAY_INDEX, TIME_UNIT> actors_check;
+  std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[state 0 starts], [state 1 ...]]}
   {ForEachTask(dataflow, t){
     ++actors_left;
     actors_check[dataflow->getVertexId(t)] = -1;
+    starts[dataflow->getVertexId(t)].push_back({}); // starts before the first stored state
   }}
 
   TIME_UNIT curr_step = 0;
-  std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[state 0 starts], [state 1 ...]]}
   std::map<ARRAY_INDEX, std::vector<TIME_UNIT>> state_start = {};  //{task idx : [ starts]},
 
   // initialise actors
@@ -685,7 +686,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
                 static_task_schedule_t initials;
                 periodic_task_schedule_t periodics;
                 for(std::size_t i = 0; i < starts[dataflow->getVertexId(task)].size(); ++i){
-                  if (i < periodic_state_idx){ //initials
+                  if (i <= periodic_state_idx){ //initials: everything up to the first visit of the repeated state
                     initials.insert(initials.end(),starts[dataflow->getVertexId(task)][i].begin(),starts[dataflow->getVertexId(task)][i].end());
                     continue;
                   } 
@@ -704,11 +705,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
             }
 
           } else {
-            if (starts[dataflow->getVertexId(t)].size() == 0){
-              starts[dataflow->getVertexId(t)].push_back({curr_step}); //push into current state's task start list
-            } else {
-              starts[dataflow->getVertexId(t)].back().push_back(curr_step);
-            }
+            starts[dataflow->getVertexId(t)].back().push_back(curr_step); //push into current state's task start list
           }
         }
       }}
-- 
2.43.0


From a8540ae9aa9dd2cec64277966ac6e1cb983b0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:27 +0000
Subject: [PATCH 07/30] fix: symbolic execution consumes the consumption rates
 of self-loop channels

---
 src/libkiter/algorithms/throughput/actor.cpp  | 26 +++++++++++++------
 src/libkiter/algorithms/throughput/actor.h    |  2 ++
 .../throughput/symbolic_execution.cpp         |  4 +--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..a3feeb9 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -113,6 +113,16 @@ TOKEN_UNIT Actor::getExecRate(Edge e, PHASE_INDEX p) {
   }
 }
 
+// Consumption rates: on a self-loop the same channel also has production rates
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, (this->getNumExecutions() % getPhaseCount(e)) + 1);
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  assert(this->consExecRate.find(e) != this->consExecRate.end()); // given edge must be an input edge
+  return this->consExecRate[e][p];
+}
+
 EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
@@ -125,9 +135,9 @@ bool Actor::isReadyForExec(State s) {
   bool isExecutable = true;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
-                  << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
+                  << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first) || this->isExecuting) {
       isExecutable = false;
     }
   }
@@ -163,7 +173,7 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
@@ -195,9 +205,9 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << ": " << s.getBufferSpace(e) << "+" << this->getConsRate(e, currentPhase)
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -243,9 +253,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
-                  << this->getExecRate(e.first) << " required (p "
+                  << this->getConsRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..f8e7f05 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,8 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getConsRate(Edge e);
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index f09bf64..bcffae3 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -528,12 +528,12 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
                     << sourceId << "->" << targetId
                     << "):" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getTokens(e) << " tokens available, "
-                    << actorMap[targetId].getExecRate(e) << " required (p "
+                    << actorMap[targetId].getConsRate(e) << " required (p "
                     << actorMap[targetId].getPhase(e) << ")" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
                     << actorMap[sourceId].getExecRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
-- 
2.43.0


From 6f34eaf70c268e92787309c4659f762804b291c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:40 +0000
Subject: [PATCH 08/30] fix: keep cycles that take no time from spoiling the
 cycle ratio search

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 4312f43..e77e7ab 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -11,6 +11,7 @@
 #include <list>
 #include <algorithm>
 #include <limits>
+#include <cmath>
 
 #include <commons/verbose.h>
 
@@ -353,6 +354,8 @@ namespace boost {
           }
         while (v != sv);
         float_t cr = sums_.first / sums_.second;
+        // a cycle that takes no time never limits the rate: an infinite ratio would spoil the distances
+        if (!std::isfinite(cr) && !m_cmp(m_bound, cr)) cr = m_bound;
 
     	VERBOSE_HOWARD("  Compare m_cr and cr " << m_cr << "->" << cr);
         if ( m_cmp(m_cr, cr) )
-- 
2.43.0


From b4fda3529ed2d53f8da1816fcb588d94f3d349eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:18 +0000
Subject: [PATCH 09/30] fix: moduloMapping places tasks on cores, not on
 routers

---
 src/libkiter/algorithms/mapping/moduloMapping.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/mapping/moduloMapping.cpp b/src/libkiter/algorithms/mapping/moduloMapping.cpp
index 4809eef..ef46f9b 100644
--- a/src/libkiter/algorithms/mapping/moduloMapping.cpp
+++ b/src/libkiter/algorithms/mapping/moduloMapping.cpp
@@ -18,7 +18,8 @@ void algorithms::mapping::moduloMapping (models::Dataflow* const  dataflow, para
 		if (params.find(dataflow->getVertexName(t)) != params.end()) {
 			dataflow->setMapping(t, commons::fromString<node_id_t> (params[dataflow->getVertexName(t)]));
 		} else {
-			node_id_t modulo_id = (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
+			// cores are numbered after the routers
+			node_id_t modulo_id = dataflow->getNoC().size() + (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
 			dataflow->setMapping(t, modulo_id);
 		}
 	}
-- 
2.43.0


From fa12d093ac7ce1a5595ce881ace611e68e6e3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 10/30] fix: refuse XML documents that are cut or not well
 formed instead of analysing a part of them

---
 src/libkiter/printers/SDF3Wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 4dd1997..b849ab2 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -616,7 +616,7 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 
 models::Dataflow*  parseSDF3XML         (const std::string data) {
 
-	xmlDocPtr doc =  xmlReadMemory(data.c_str(), (int) data.size(), NULL, NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING|XML_PARSE_RECOVER);
+	xmlDocPtr doc =  xmlReadMemory(data.c_str(), (int) data.size(), NULL, NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING);
 
 	if (doc == NULL) {
 		VERBOSE_ERROR("Document XML invalide");
@@ -635,7 +635,7 @@ models::Dataflow*  parseSDF3XML         (const std::string data) {
 
 models::Dataflow*  readSDF3File         (const std::string f) {
 
-	xmlDocPtr doc =  xmlReadFile(f.c_str(),NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING|XML_PARSE_RECOVER);
+	xmlDocPtr doc =  xmlReadFile(f.c_str(),NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING);
 
 	if (doc == NULL) {
 		VERBOSE_ERROR("Document XML '" + f + "' invalide");
-- 
2.43.0


From 091f865715eede40da5c10a6e4c0703a9cda0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:27 +0000
Subject: [PATCH 11/30] fix: report answers that standard output did not accept

---
 src/kiter/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kiter/main.cpp b/src/kiter/main.cpp
index 8fc7607..2d6bf4a 100644
--- a/src/kiter/main.cpp
+++ b/src/kiter/main.cpp
@@ -6,6 +6,7 @@
  * */
 
 #include <string>
+#include <cstdio>
 #include <iostream>
 #include <unistd.h>
 #include <stdlib.h>
@@ -171,6 +172,12 @@ int main (int argc, char **argv)
 	}
 
 
+	// an answer that standard output did not take is not a success
+	std::cout.flush();
+	if (!std::cout || fflush(stdout) != 0 || ferror(stdout)) {
+		std::cerr << "Could not write to standard output." << std::endl;
+		exit(1);
+	}
 
 	exit(0);
 
-- 
2.43.0


From c110a52abd7179642d55f1ae609f225a1e485aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:26 +0000
Subject: [PATCH 12/30] fix: report result files that could not be written

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 2 ++
 src/libkiter/algorithms/dse/dse.cpp           | 2 ++
 src/libkiter/algorithms/dse/periodic.cpp      | 4 ++++
 src/libkiter/printers/SDF3Wrapper.cpp         | 1 +
 src/libkiter/printers/stdout.cpp              | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index aca9037..7ab637f 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -809,6 +809,7 @@ void StorageDistributionSet::writeCSV(std::string filename,
     }
   }
   outputFile.close();
+  VERBOSE_ASSERT(outputFile.good(), "Could not write " << filename);
 }
 
 /* Iterate through storage distribution set and print graphs
@@ -825,6 +826,7 @@ void StorageDistributionSet::printGraphs(models::Dataflow* const dataflow,
       outputFile.open(fileName);
       outputFile << sd.printGraph(dataflow);
       outputFile.close();
+      VERBOSE_ASSERT(outputFile.good(), "Could not write " << fileName);
       graphCount++;
     }
   }
diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index 65554db..d99b7cb 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -310,6 +310,7 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
            << "computation duration" << colDelimiter
            << "cumulative duration"
            << std::endl; // initialise headers
+    VERBOSE_ASSERT(dseLog.good(), "Could not write the DSE log in " << logDirName);
   } else {
     std::cout << "storage distribution size;throughput;channel quantities;computation duration;cumulative duration"
               << std::endl; // initialise headers
@@ -488,6 +489,7 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
   // Write log files and print file paths
   if (writeLogFiles) { // TODO account for SymbExec case
     dseLog.close();
+    VERBOSE_ASSERT(dseLog.good(), "Could not write the DSE log in " << logDirName);
     std::string graphName;
     if (modelBoundedBuffers) {
       graphName = dataflow_prime->getGraphName();
diff --git a/src/libkiter/algorithms/dse/periodic.cpp b/src/libkiter/algorithms/dse/periodic.cpp
index d5e9d8e..9ccd908 100644
--- a/src/libkiter/algorithms/dse/periodic.cpp
+++ b/src/libkiter/algorithms/dse/periodic.cpp
@@ -39,6 +39,7 @@ void algorithms::compute_csdf_dse_speriodic   (models::Dataflow* const  dataflow
    	  std::ofstream dseLog;
    	  if (writeLogFiles) {
    		  dseLog.open(logDirName + "/dse_logs/" + dataflow->getGraphName() + "_dselog_speriodic.csv");
+   		  VERBOSE_ASSERT(dseLog.good(), "Could not write the DSE log in " << logDirName << "/dse_logs/");
    		  dseout = &dseLog;
    	  }
 
@@ -47,6 +48,7 @@ void algorithms::compute_csdf_dse_speriodic   (models::Dataflow* const  dataflow
 
 	  if (writeLogFiles) {
 		  dseLog.close();
+		  VERBOSE_ASSERT(dseLog.good(), "Could not write the DSE log in " << logDirName << "/dse_logs/");
 	  }
 }
 
@@ -76,6 +78,7 @@ void algorithms::compute_csdf_dse_periodic   (models::Dataflow* const  dataflow,
 	  std::ofstream dseLog;
 	  if (writeLogFiles) {
 		  dseLog.open(logDirName + "/dse_logs/" + dataflow->getGraphName() + "_dselog_periodic.csv");
+		  VERBOSE_ASSERT(dseLog.good(), "Could not write the DSE log in " << logDirName << "/dse_logs/");
 		  dseout = &dseLog;
 	  }
 
@@ -83,6 +86,7 @@ void algorithms::compute_csdf_dse_periodic   (models::Dataflow* const  dataflow,
 
 	  if (writeLogFiles) {
 		  dseLog.close();
+		  VERBOSE_ASSERT(dseLog.good(), "Could not write the DSE log in " << logDirName << "/dse_logs/");
 	  }
 }
 void algorithms::compute_csdf_dse_from_function   (models::Dataflow* const  dataflow, const BufferSizingFun& sizing_fun, std::ostream& dseLog) {
diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index b849ab2..0e67c99 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -876,6 +876,7 @@ void writeSDF3File         (std::string filename, const models::Dataflow* datafl
 	mfile.open (filename);
 	mfile << generateSDF3XML(dataflow);
 	mfile.close();
+	VERBOSE_ASSERT(mfile.good(), "Could not write " << filename);
 
 }
 
diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 94428d7..75a1c11 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -624,6 +624,7 @@ void printers::printMapping    (models::Dataflow* const  dataflow, parameters_li
 		mfile.open (filename);
 		mfile << data << std::endl;
 		mfile.close();
+		VERBOSE_ASSERT(mfile.good(), "Could not write " << filename);
 	} else {
 		 std::cout << data << std::endl;
 	}
@@ -642,6 +643,7 @@ void printers::printGraph    (models::Dataflow* const  dataflow, parameters_list
 		mfile.open (filename);
 		mfile << data << std::endl;
 		mfile.close();
+		VERBOSE_ASSERT(mfile.good(), "Could not write " << filename);
 	} else {
 		 std::cout << data << std::endl;
 	}
-- 
2.43.0


From c856a8b11fd3900eb7a56cb93d8d5f65c2e2fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:42 +0000
Subject: [PATCH 13/30] fix: stop when memory runs out instead of answering
 with a part of the text

---
 src/kiter/main.cpp                    |  9 +++++++++
 src/libkiter/printers/SDF3Wrapper.cpp | 15 +++++++++++++++
 src/libkiter/printers/SDF3Wrapper.h   |  3 +++
 3 files changed, 27 insertions(+)

diff --git a/src/kiter/main.cpp b/src/kiter/main.cpp
index 2d6bf4a..8461a94 100644
--- a/src/kiter/main.cpp
+++ b/src/kiter/main.cpp
@@ -8,6 +8,7 @@
 #include <string>
 #include <cstdio>
 #include <iostream>
+#include <new>
 #include <unistd.h>
 #include <stdlib.h>
 #include <commons/KiterRegistry.h>
@@ -46,8 +47,16 @@ inline void activate_verbose(const std::string p) {
 	}
 }
 
+// streams and libxml2 carry on with a part of the text when an allocation fails, so stop here
+static void out_of_memory() {
+	fputs("Out of memory.\n", stderr);
+	_exit(EXIT_FAILURE);
+}
+
 int main (int argc, char **argv)
 {
+	std::set_new_handler(out_of_memory);
+	printers::setupXMLMemory();
 
 	// ** default arguments
 	std::string filename = "";
diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 0e67c99..94a1a2e 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -12,13 +12,16 @@
 #include <libxml/tree.h>
 #include <libxml/parser.h>
 #include <libxml/encoding.h>
+#include <libxml/xmlmemory.h>
 
 #include <printers/SDF3Wrapper.h>
 #include <commons/commons.h>
 #include <commons/verbose.h>
 #include <models/Dataflow.h>
 #include <iostream>
+#include <cstdlib>
 #include <cstring>
+#include <new>
 #include <fstream>
 
 using std::vector;
@@ -614,6 +617,18 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 	return to;
 }
 
+static void* xmlAllocated (void* res) {
+	if (!res && std::get_new_handler()) std::get_new_handler()();
+	return res;
+}
+static void* xmlMallocOrHandler (size_t size)             { return xmlAllocated(malloc(size)); }
+static void* xmlReallocOrHandler (void* ptr, size_t size) { return xmlAllocated(realloc(ptr, size ? size : 1)); }
+static char* xmlStrdupOrHandler (const char* str)         { return (char*) xmlAllocated(strdup(str)); }
+
+void setupXMLMemory () {
+	xmlMemSetup(free, xmlMallocOrHandler, xmlReallocOrHandler, xmlStrdupOrHandler);
+}
+
 models::Dataflow*  parseSDF3XML         (const std::string data) {
 
 	xmlDocPtr doc =  xmlReadMemory(data.c_str(), (int) data.size(), NULL, NULL,XML_PARSE_NOERROR|XML_PARSE_NOWARNING);
diff --git a/src/libkiter/printers/SDF3Wrapper.h b/src/libkiter/printers/SDF3Wrapper.h
index ea5a6cc..6377743 100644
--- a/src/libkiter/printers/SDF3Wrapper.h
+++ b/src/libkiter/printers/SDF3Wrapper.h
@@ -22,6 +22,9 @@ models::Dataflow*     parseSDF3XML          (const std::string data) ;
 models::Dataflow*     readSDF3File          (const std::string f) ;
 void                  writeSDF3File         (const std::string f, const models::Dataflow* ) ;
 
+/* libxml2 ignores some of its failed allocations; have them call the new handler of the program instead */
+void                  setupXMLMemory        () ;
+
 } // end of namespace commons
 
 #endif /* SDF3WRAPPER_H_ */
-- 
2.43.0


From 18b780b9ac7a6a651cd8ec99ec319d7e6a1f105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 14/30] fix: printed XML documents keep every digit of the
 durations

---
 src/libkiter/commons/commons.cpp      | 11 +++++++++++
 src/libkiter/commons/commons.h        |  3 +++
 src/libkiter/printers/SDF3Wrapper.cpp |  2 +-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/commons.cpp b/src/libkiter/commons/commons.cpp
index f072a73..66efe23 100644
--- a/src/libkiter/commons/commons.cpp
+++ b/src/libkiter/commons/commons.cpp
@@ -166,6 +166,17 @@ bool is_readable( const std::string & file )
      return elems;
  }
 
+ std::string toExactString(TIME_UNIT v) {
+     std::string res;
+     for (int digits = 6 ; digits <= std::numeric_limits<TIME_UNIT>::max_digits10 ; digits++) {
+         std::ostringstream stream;
+         stream << std::setprecision(digits) << v;
+         res = stream.str();
+         if (fromString<TIME_UNIT>(res) == v) break;
+     }
+     return res;
+ }
+
  int fibo (int index) {
      int fib_n  = 0;
      int fib_np = 1;
diff --git a/src/libkiter/commons/commons.h b/src/libkiter/commons/commons.h
index f5e88ec..c4117dd 100644
--- a/src/libkiter/commons/commons.h
+++ b/src/libkiter/commons/commons.h
@@ -509,6 +509,9 @@ template<typename T>
  }
 std::vector<std::string> splitSDF3List(const std::string &s);
 
+// shortest decimal text that reads back as the same value
+std::string toExactString(TIME_UNIT v);
+
 int fibo (int index);
  
 const std::string runCmd( const std::string sendme , TIME_UNIT timeout) ;
diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 94a1a2e..1581166 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -53,7 +53,7 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 			if ((std::floor(v)==std::ceil(v))) {
 				s << (unsigned long) (v) ;
 			} else {
-				s << commons::toString(v);
+				s << commons::toExactString(v);
 			}
 		}
 		return s.str();
-- 
2.43.0


From d80b2d992f50b69903b343eb3912291584e92289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 15/30] fix: PrintKiter prints a function that builds and
 returns the whole application

---
 src/libkiter/printers/stdout.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 75a1c11..e758a18 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -143,7 +143,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  if (verbose) returnStream << "std::cout << \"generate a task ...\" << std::endl;"  << std::endl;
 		  returnStream << "auto new_vertex = new_graph->addVertex(" << dataflow->getVertexId(t) << ");" << std::endl;
 
-		  returnStream << " new_graph->setVertexName(new_vertex,\"" << dataflow->getVertexName(t) << "\");" << std::endl;
+		  returnStream << " new_graph->setVertexName(new_vertex," << std::quoted(dataflow->getVertexName(t)) << ");" << std::endl;
 		  returnStream << " new_graph->setInitPhasesQuantity(new_vertex," <<init_phase_count << ");" << std::endl;
 		  returnStream << " new_graph->setPhasesQuantity(new_vertex," <<phase_count << ");" << std::endl;
 		  returnStream << " new_graph->setReentrancyFactor(new_vertex," << dataflow->getReentrancyFactor(t)<< "); " << std::endl;
@@ -151,7 +151,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string init_duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= init_phase_count ; phase++) {
 			  if (phase > 1)  init_duration_string += ",";
-			  init_duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexInitDuration(t,phase));
+			  init_duration_string += commons::toExactString(dataflow->getVertexInitDuration(t,phase));
 		  }
 		  init_duration_string = "{" + init_duration_string + "}";
 		  returnStream << " new_graph->setVertexInitDuration(new_vertex," << init_duration_string << ");" << std::endl;
@@ -159,7 +159,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= phase_count ; phase++) {
 			  if (phase > 1)  duration_string += ",";
-			  duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexDuration(t,phase));
+			  duration_string += commons::toExactString(dataflow->getVertexDuration(t,phase));
 		  }
 		  duration_string = "{" + duration_string + "}";
 
@@ -237,13 +237,15 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 
 		  returnStream << " new_graph->setEdgeInPhases(new_edge," << in_rates << ");" << std::endl;
 		  returnStream << " new_graph->setEdgeOutPhases(new_edge," << out_rates << ");" << std::endl;
+		  returnStream << " new_graph->setTokenSize(new_edge," << dataflow->getTokenSize(c) << ");" << std::endl;
 		  returnStream << " new_graph->setPreload(new_edge," << dataflow->getPreload(c) << ");" << std::endl;
-		  returnStream << " new_graph->setEdgeName(new_edge,\"" << dataflow->getEdgeName(c) << "\");" << std::endl;
+		  returnStream << " new_graph->setEdgeName(new_edge," << std::quoted(dataflow->getEdgeName(c)) << ");" << std::endl;
 
 		  returnStream << "}" << std::endl;
 
 	    }}
 	  returnStream << std::endl;
+	  returnStream << "return new_graph;"   << std::endl;
 	  returnStream << "}"   << std::endl;
 	  return returnStream.str();
 
-- 
2.43.0


From 8e5efd39575486eefa3a9597d2ac26714d9cbbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:54 +0000
Subject: [PATCH 16/30] fix: an algorithm does not inherit the number format of
 the previous one

---
 src/kiter/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kiter/main.cpp b/src/kiter/main.cpp
index 8461a94..e807eed 100644
--- a/src/kiter/main.cpp
+++ b/src/kiter/main.cpp
@@ -163,6 +163,8 @@ int main (int argc, char **argv)
 
 
 	// Step 4 = Apply selected algorithm
+	std::ios default_format(nullptr);
+	default_format.copyfmt(std::cout);
 	for ( std::vector<std::pair<std::string,parameters_list_t>>::iterator it = algos.begin() ; it != algos.end() ; it++ ) {
 		std::string name = (*it).first;
 		const transformation_t* transformation = KiterRegistry<transformation_t>::get(name);
@@ -174,6 +176,7 @@ int main (int argc, char **argv)
 			VERBOSE_INFO ("Run " << transformation->name);
 			tock();
 			(*it).second.insert(parameters.begin(),parameters.end());
+			std::cout.copyfmt(default_format); // an algorithm must not inherit the number format of the previous one
 			transformation->fun(csdf,(*it).second);
 			double duration = tock();
 			VERBOSE_INFO (transformation->name << " duration=" << duration);
-- 
2.43.0


From ce84ab7997de0fc79349cf09d8031ddb5d08b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:13 +0000
Subject: [PATCH 17/30] fix: CycleCount starts from no cycles

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index a819f21..48e436d 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -46,6 +46,7 @@ void algorithms::cycle_detection       (models::Dataflow* const  dataflow, param
 }
 
 void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameters_list_t) {
+  simple_cycles.clear();
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
-- 
2.43.0


From 706ff19fdbade69380be472b8416cc6f2689c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 18/30] fix: the buffer exploration may follow another analysis

---
 src/libkiter/algorithms/dse/dse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index d99b7cb..f268139 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -93,6 +93,7 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
 
   // create new graph with modelled bounded channel quantities
   models::Dataflow* dataflow_prime = new models::Dataflow(*dataflow);
+  dataflow_prime->reset_computation(); // an earlier analysis may have closed the graph
   // add feedback channels in new graph to model bounded channel quantities
   if (modelBoundedBuffers) {
     {ForEachEdge(dataflow, c) {
-- 
2.43.0


From 1625d53644a33a6094578f5bbc45221f04030909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 19/30] fix: RemoveReentrancy may follow an analysis

---
 src/libkiter/algorithms/transformation/remove_reentrancy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/remove_reentrancy.cpp b/src/libkiter/algorithms/transformation/remove_reentrancy.cpp
index c6ac584..860862a 100644
--- a/src/libkiter/algorithms/transformation/remove_reentrancy.cpp
+++ b/src/libkiter/algorithms/transformation/remove_reentrancy.cpp
@@ -11,6 +11,8 @@
 
 void algorithms::transformation::remove_reentrancy (models::Dataflow* const  dataflow, parameters_list_t params) {
 
+	dataflow->reset_computation(); // an earlier analysis may have closed the graph
+
 	if (params.find("taskname") != params.end()) {
 		auto names = commons::split<std::string>(params["taskname"], ',');
 		for (auto name : names) {
-- 
2.43.0


From 3ba05eb9bce63cebbeb7d8f689a64f52d23ead47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:06 +0000
Subject: [PATCH 20/30] fix: SingleOutput keeps the initial tokens of the
 channels it splits

---
 src/libkiter/algorithms/transformation/singleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index f6b1ab8..22ddb4e 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -57,9 +57,11 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 		Edge nc1 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c1));
 		dataflow->setEdgeInPhases(nc1, {1});
 		dataflow->setEdgeOutPhases(nc1, {1});
+		dataflow->setPreload(nc1, dataflow->getPreload(c1));
 		Edge nc2 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c2));
 		dataflow->setEdgeInPhases(nc2, {1});
 		dataflow->setEdgeOutPhases(nc2, {1});
+		dataflow->setPreload(nc2, dataflow->getPreload(c2));
 
 
 		// remote the two buffer
-- 
2.43.0


From 62a96e05bb887298e79f6df53966fc387985ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:17 +0000
Subject: [PATCH 21/30] fix: merged tasks repeat a round that the schedule
 really repeats

---
 .../algorithms/transformation/merging.cpp     | 135 +++++-------------
 1 file changed, 39 insertions(+), 96 deletions(-)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 1e883e1..220f787 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -318,7 +318,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 		Vertex v = to->getVertexById(vid);
 
 		EXEC_COUNT ni = to->getNi(v);
-		gcd_value = std::gcd (gcd_value , ni) ;
+		gcd_value = std::gcd (gcd_value , ni / to->getPhasesQuantity(v)) ;
 
 		for (auto it : to->in_edges(v)) {
 			edge_infos ne(to, *it);
@@ -358,16 +358,22 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	VERBOSE_INFO("Schedule original tasks");
 
 	std::map<ARRAY_INDEX,EXEC_COUNT> execution_count;
+	std::map<ARRAY_INDEX,EXEC_COUNT> execution_limit;
+	TIME_UNIT   all_started = 0;
 	for (auto it : original_tasks) {
 		execution_count[it.first] = 0;
+		execution_limit[it.first] = std::numeric_limits<EXEC_COUNT>::max();
+		all_started = std::max(all_started, get_next_execution_time (it.second, 0));
 	}
 
-
 	std::vector < task_execution_t > execution_sequence;
 
-	bool dontstop = true;
-	while(dontstop) {
-		dontstop = false;
+	// The schedule repeats itself after Ni executions of every task. Once every task has started,
+	// such a round can be repeated forever; whatever comes before is the init sequence.
+	ARRAY_INDEX init_phase_count = 0;
+	bool periodic = false;
+
+	while(true) {
 
 		// Pick the next candidate
 		ARRAY_INDEX next_id   = -1;
@@ -375,6 +381,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 		for (auto it : original_tasks) {
 			ARRAY_INDEX vid = it.first;
 			vertex_infos infos = it.second;
+			if (execution_count[vid] >= execution_limit[vid]) continue;
 			TIME_UNIT task_execution_time = get_next_execution_time (infos, execution_count[vid] );
 			VERBOSE_DEBUG("  - Scheduling of task " << vid << " execution count = " << execution_count[vid] << " next execution is " << task_execution_time);
 			if (task_execution_time <= next_time) {
@@ -384,25 +391,20 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			}
 		}
 
+		if (!periodic and next_time >= all_started) {
+			periodic = true;
+			init_phase_count = execution_sequence.size();
+			for (auto it : original_tasks) {
+				execution_limit[it.first] = execution_count[it.first] + it.second.ni;
+			}
+		}
+
+		// Stopping condition, every task executed its round
+		if (next_id == (ARRAY_INDEX) -1) break;
+
 		// Execute candidate
 		execution_sequence.push_back(  task_execution_t(next_id, execution_count[next_id], next_time) );
 		execution_count[next_id] ++ ;
-
-		// Stopping condition
-		// NOTE: In theory a valid one should be similar to Symbolic Execution (reach previously seen state)
-		//       I did not implement that yet, it will have to be done until a better solution emerge.
-		//       Currently the solution used is not bullet proof!
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT threshold = infos.init_phases + (infos.periodic_phases * infos.ni);
-			if (execution_count[vid] < threshold) {
-				dontstop = true;
-				VERBOSE_DEBUG("  - We will continue because " << vid << " needs " << threshold << " and only has " << execution_count[vid]);
-				break;
-			}
-		}
 	}
 
 	VERBOSE_DEBUG("End of scheduling with " << commons::toString(execution_sequence));
@@ -420,89 +422,30 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	}
 
 
-	VERBOSE_INFO("Check there is a valid init phase count");
-
-	VERBOSE_ASSERT(execution_sequence.size()  > 0, "This should never happen");
-
-	ARRAY_INDEX init_phase_count = execution_sequence.size() - 1 ;
-	bool need_to_continue = true;
-	while (init_phase_count >= 0 and need_to_continue) {
-		VERBOSE_DEBUG("Check init phase count = " << init_phase_count);
-
-		need_to_continue = false;
-
-		std::map<ARRAY_INDEX,EXEC_COUNT> task_periodic_execution_count;
-		for (auto exec_pair : std::vector< task_execution_t > (execution_sequence.begin() + init_phase_count , execution_sequence.end() ) ) {
-			task_periodic_execution_count[exec_pair.task_id] ++ ;
-		}
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			VERBOSE_DEBUG("    In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " with expected ratio " << ratio );
-
-		}
-
-		EXEC_COUNT factor = 0;
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			if (task_periodic_execution_count[tid] == 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  Every task need to be executed, task " << tid  << " is not.");
+	VERBOSE_ASSERT(execution_sequence.size()  > init_phase_count, "This should never happen");
 
-			}
-			if (task_periodic_execution_count[tid] %  ratio  != 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not divisible by ratio " << ratio );
-
-			}
-
-			if (factor == 0) {
-				factor = task_periodic_execution_count[tid] / ratio;
-			}
-			if (task_periodic_execution_count[tid] !=  ratio * factor) {
-							need_to_continue = true;
-							VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not equal to expected " << factor * ratio );
-
-			}
+	// Optimising when we can to reduce the round, then the init phase
+	VERBOSE_INFO("Check if we can reduce the periodic and init phases");
 
+	EXEC_COUNT round_size = execution_sequence.size() - init_phase_count;
+	for (EXEC_COUNT divisor = gcd_value ; divisor > 1 ; divisor--) {
+		if (gcd_value % divisor != 0) continue;
+		EXEC_COUNT smaller_size = round_size / divisor;
+		bool repeated = true;
+		for (size_t i = init_phase_count + smaller_size ; i < execution_sequence.size() and repeated ; i++) {
+			repeated = execution_sequence[i] == execution_sequence[i - smaller_size];
 		}
-		if (need_to_continue) {
-			init_phase_count--;
+		if (repeated) {
+			round_size = smaller_size;
+			break;
 		}
 	}
 
-	VERBOSE_ASSERT(init_phase_count >= 0 , "Problem detected.");
-
-	// Optimising when we can to reduce the init phase
-	VERBOSE_INFO("Check if we can reduce the inint phase");
-
-	std::vector<task_execution_t> periodic_sequence (execution_sequence.begin() + init_phase_count , execution_sequence.end() );
-	std::vector<task_execution_t> init_sequence (execution_sequence.begin() , execution_sequence.begin() + init_phase_count  );
-
-	EXEC_COUNT new_init_end;
-	for (ARRAY_INDEX init_end = init_phase_count ;init_end >= 0; init_end -= periodic_sequence.size()) {
-		VERBOSE_DEBUG("test new init_end = " << init_end);
-		std::vector<task_execution_t> maybe_periodic_sequence (execution_sequence.begin() + init_end,  execution_sequence.begin() + init_end + periodic_sequence.size()  );
-
-		VERBOSE_DEBUG("maybe_periodic_sequence = " << commons::toString(maybe_periodic_sequence));
-		VERBOSE_DEBUG("periodic_sequence = " << commons::toString(periodic_sequence));
-		VERBOSE_DEBUG("Test result  = " << (maybe_periodic_sequence == periodic_sequence));
-
-		if (maybe_periodic_sequence == periodic_sequence) {
-			VERBOSE_DEBUG("WORKED");
-			new_init_end = init_end;
-
-		} else {
-			VERBOSE_DEBUG("FAILED");
-		}
+	while (init_phase_count > 0 and execution_sequence[init_phase_count - 1] == execution_sequence[init_phase_count - 1 + round_size]) {
+		init_phase_count--;
 	}
 
-	init_phase_count = new_init_end;
-	execution_sequence = std::vector<task_execution_t>(execution_sequence.begin() , execution_sequence.begin() + init_phase_count + periodic_sequence.size()) ;
+	execution_sequence.erase(execution_sequence.begin() + init_phase_count + round_size, execution_sequence.end());
 
 	ARRAY_INDEX periodic_phase_count = execution_sequence.size() - init_phase_count;
 
-- 
2.43.0


From 09daa6a91e5375c9d30ecb08714ff70602e23d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:17 +0000
Subject: [PATCH 22/30] fix: edges are ordered by id, not by address

---
 src/libkiter/models/Dataflow.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..ea7da80 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -170,7 +170,17 @@ inline 	Edge 	it2Edge  (out_edge_iterator in) 	  	{return Edge(*in);}
 
 
 inline bool operator<(const Vertex& lh, const Vertex& rh) {return ((int) lh.v < (int) rh.v);}
-inline bool operator<(const Edge& lh, const Edge& rh) {return (lh.e.get_property() < rh.e.get_property());}
+// Edges are ordered by id, so that what iterates over a set of edges does not depend on where they are stored.
+inline bool operator<(const Edge& lh, const Edge& rh) {
+	const edgeProperties* lp = static_cast<const edgeProperties*>(lh.e.get_property());
+	const edgeProperties* rp = static_cast<const edgeProperties*>(rh.e.get_property());
+	if (lp && rp) {
+		const ARRAY_INDEX lid = boost::get_property_value(*lp, boost::edge_index);
+		const ARRAY_INDEX rid = boost::get_property_value(*rp, boost::edge_index);
+		if (lid != rid) return lid < rid;
+	}
+	return std::less<const edgeProperties*>()(lp, rp);
+}
 
 inline bool operator==(const Vertex& lh, const Vertex& rh) {return (lh.v == rh.v);}
 inline bool operator==(const Edge& lh, const Edge& rh) {return (lh.e == rh.e);}
-- 
2.43.0


From 31d8e8cd57950501d6dbbfecf1c07ca4682b2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:29 +0000
Subject: [PATCH 23/30] fix: loops over an event graph read past its last event
 or constraint

---
 src/libkiter/models/EventGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/models/EventGraph.h b/src/libkiter/models/EventGraph.h
index 49942fe..0194d5d 100644
--- a/src/libkiter/models/EventGraph.h
+++ b/src/libkiter/models/EventGraph.h
@@ -135,7 +135,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         p##count = p##res.first;                                                               \
         p##_end = p##res.second;                                                               \
         if (p##count != p##_end)  p = *(p##count);                                             \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end; p = (++p##count != p##_end) ? *(p##count) : p)
 
 
 #define ForEachEvent(g,p)                                                                      \
@@ -145,7 +145,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         p##count = p##res.first;                                                               \
         p##_end = p##res.second;                                                               \
         if (p##count != p##_end)  p = *(p##count);                                             \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end; p = (++p##count != p##_end) ? *(p##count) : p)
 
 #define ForEachInputs(g,parent,p)                                                                        \
         models::EventGraphEdge p;                                                                                \
@@ -154,7 +154,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         p##count = p##res.first;                                                                         \
         p##_end = p##res.second;                                                                         \
         if (p##count != p##_end)  p = *(p##count);                                                       \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end; p = (++p##count != p##_end) ? *(p##count) : p)
 
 
 #define ForEachOutputs(g,parent,p)                                                                        \
@@ -164,7 +164,7 @@ typedef boost::graph_traits<BoostEventGraph>::out_edge_iterator  EventGraphOutEd
         p##count = p##res.first;                                                                         \
         p##_end = p##res.second;                                                                         \
         if (p##count != p##_end)  p = *(p##count);                                                       \
-        for (;p##count != p##_end; p = *(++p##count))
+        for (;p##count != p##_end; p = (++p##count != p##_end) ? *(p##count) : p)
 
 #define NULL_EventGraphVertex    ((models::EventGraphVertex)boost::graph_traits<models::BoostEventGraph>::null_vertex())
 #define NULL_EventGraphEdge     ((models::EventGraphEdge)boost::detail::edge_desc_impl<boost::bidirectional_tag,models::EventGraphVertex>())
-- 
2.43.0


From df065644757b18e7efd410cf50e00a783092e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 24/30] fix: a buffer exploration with a target between two
 reachable rates never ended

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index 7ab637f..7833c34 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -392,7 +392,7 @@ bool StorageDistributionSet::hasStorageDistribution(StorageDistribution checkDis
 // Check if DSE completion conditions have been met
 bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
                                               TIME_UNIT target_thr) {
-  /* search is complete when the max throughput has been found and there
+  /* search is complete when the target throughput has been reached and there
      isn't any more storage distributions of the same distribution size
      left to check */
   VERBOSE_DSE("Checking if search is complete:" << std::endl);
@@ -405,7 +405,8 @@ bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
               << std::endl);
   VERBOSE_DSE("\tHow many SDs left in checklist? " << checklist.getSize()
               << std::endl);
-  return ((commons::AreSame(this->p_max.second, target_thr) &&
+  return (((this->p_max.second >= target_thr ||
+            commons::AreSame(this->p_max.second, target_thr)) &&
           (!checklist.hasDistribution(this->p_max.first))) ||
           (checklist.getSize() <= 0)); // also end when we're out of distributions to check
 }
-- 
2.43.0


From 6d54c8bec4045dccb77fd5231d690da7dfeff2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 25/30] fix: a value that joins two groups was left out of both

GroupList::add dropped the value when both of its keys already belonged to
different groups, so a network flow that shares its input link with one group
of flows and its output link with another was not merged with them and could
still meet them in the router.
---
 src/libkiter/commons/GroupList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/commons/GroupList.h b/src/libkiter/commons/GroupList.h
index 7d36335..4db0e33 100644
--- a/src/libkiter/commons/GroupList.h
+++ b/src/libkiter/commons/GroupList.h
@@ -54,6 +54,7 @@ public:
 
 			//We merge them
 			std::set<R>* nvec = _values[l];
+			nvec->insert(v);
 			for (auto v : *_values[r]) {
 				nvec->insert(v);
 			}
-- 
2.43.0


From ccf762af329bedf49402b8b979b844e00ac02d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 26/30] fix: channels added by SingleOutput had no name

A document with a nameless channel is refused by the reader, so the result
of SingleOutput could be saved but never read again.
---
 src/libkiter/algorithms/transformation/singleOutput.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index 22ddb4e..e9b9963 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -38,6 +38,7 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 
 		VERBOSE_INFO("Create new egde from source");
 		Edge ne = dataflow->addEdge(t,  newDup);
+		dataflow->setEdgeName(ne, newDup_name + "_in");
 		dataflow->setEdgeInPhases(ne, {1});
 		dataflow->setEdgeOutPhases(ne, {1});
 
@@ -55,10 +56,12 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 
 		VERBOSE_INFO("Create new egde to targets");
 		Edge nc1 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c1));
+		dataflow->setEdgeName(nc1, newDup_name + "_out1");
 		dataflow->setEdgeInPhases(nc1, {1});
 		dataflow->setEdgeOutPhases(nc1, {1});
 		dataflow->setPreload(nc1, dataflow->getPreload(c1));
 		Edge nc2 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c2));
+		dataflow->setEdgeName(nc2, newDup_name + "_out2");
 		dataflow->setEdgeInPhases(nc2, {1});
 		dataflow->setEdgeOutPhases(nc2, {1});
 		dataflow->setPreload(nc2, dataflow->getPreload(c2));
-- 
2.43.0


From 9b8da26fa51bbdd69a7caf995711a8a8e8774749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:00 +0000
Subject: [PATCH 27/30] fix: the critical cycle search stopped before its
 answer had settled

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index e77e7ab..9ea8ec0 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -38,7 +38,8 @@
 
 
 #define EPSILON_IMPROVE_RATIO 100
-#define MAX_ITERATION 100
+#define STEP_ITERATION 100
+#define MAX_ITERATION 10000
 
 namespace boost {
 
@@ -132,6 +133,7 @@ namespace boost {
         m_g(g), m_vim(vim), m_ew1m(ewm), m_ew2m(ew2m),
         m_bound(mcr_bound()),
         m_cr(m_bound),
+        m_improve_ratio(EPSILON_IMPROVE_RATIO),
         m_V(num_vertices(m_g)),
         m_dis(m_V, 0), m_dm(m_dis.begin(), m_vim),
         m_policyc(m_V), m_policy(m_policyc.begin(), m_vim),
@@ -155,6 +157,7 @@ namespace boost {
         m_g(g), m_vim(vim), m_ew1m(ewm), m_ew2m(ew2m),
         m_bound(bound),
         m_cr(m_bound),
+        m_improve_ratio(EPSILON_IMPROVE_RATIO),
         m_V(num_vertices(m_g)),
         m_dis(m_V, 0), m_dm(m_dis.begin(), m_vim),
         m_policyc(m_V), m_policy(m_policyc.begin(), m_vim),
@@ -180,6 +183,9 @@ namespace boost {
             mcr = policy_mcr();
             ++k;
             m_bound = mcr;
+            // rounding can make the same changes come back for ever: ask for more and more, rather than
+            // stop while the policy is still being improved
+            if (k % STEP_ITERATION == 0) m_improve_ratio *= 10;
           }
         while (try_improve_policy(mcr) && k < MAX_ITERATION); //To avoid infinite loop
 
@@ -473,7 +479,7 @@ namespace boost {
                     vertex_t t = target(*oei, m_g);
                     //Current distance from *vi to some vertex
                     float_t dis_ = m_ew1m[*oei] - m_ew2m[*oei] * cr + m_dm[t];
-                    if ( m_cmp(m_dm[*vi] - eps_* EPSILON_IMPROVE_RATIO , dis_) )
+                    if ( m_cmp(m_dm[*vi] - eps_* m_improve_ratio , dis_) )
                       {
                         improve_policy(*vi, *oei);
                         m_dm[*vi] = dis_;
@@ -501,6 +507,7 @@ namespace boost {
       comparator_t m_cmp;
       float_t m_bound; //> The lower/upper bound to the maximal/minimal cycle ratio
       float_t m_cr; //>The best cycle ratio that has been found so far
+      float_t m_improve_ratio; //>How many epsilons a distance must gain for the policy to change
 
       vn_t m_V; //>The number of the vertices in the graph
       vp_t m_dis; //>Container for the distance map
-- 
2.43.0


From 8136e3eebf3f9b9f2da7fc17af2979745f1b8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:39 +0000
Subject: [PATCH 28/30] fix: packet traces never ended unless every rate was a
 multiple of the packet size

---
 src/libkiter/algorithms/symbolic_execution.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 720d7a3..8b2cf17 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -164,21 +164,22 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 
 						TOKEN_UNIT datatotransfert = graph->getEdgeIn(outE);
-						if (psize == 0) psize = datatotransfert;
+						// without a packet size everything goes in one packet
+						TOKEN_UNIT packetsize = (psize > 0) ? psize : datatotransfert;
 
-						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << psize);
+						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << packetsize);
 
 
 						ARRAY_INDEX previous = compute_pid;
 
-						while (datatotransfert) {
+						while (datatotransfert > 0) {
 							packet_ids[outE] = packet_count++;
 							ARRAY_INDEX pid = packet_ids[outE] ;
 							std::vector <ARRAY_INDEX> subdeps = deps ;
 							subdeps.push_back(previous);
 							print_packet_line ( src,  dst,  0,  pid, subdeps ) ;
 							previous = pid;
-							datatotransfert -= psize;
+							datatotransfert -= packetsize; // the last packet may be shorter
 						}
 					}}
 
-- 
2.43.0


From bc87d01ea4b09359b0a1fe94a8356a2ed0c9f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 29/30] fix: symbolic execution of a blocked graph never ended

---
 src/libkiter/algorithms/symbolic_execution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 8b2cf17..83dc532 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -113,6 +113,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 	while (total > 0) {
 
+		const EXEC_COUNT before = total;
+
 		for (Vertex t : graph->vertices()) {
 
 			ARRAY_INDEX vId = graph->getVertexId(t);
@@ -188,6 +190,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 		}
 
+		VERBOSE_ASSERT(total < before, "Symbolic execution failed, the graph is blocked.");
+
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
@@ -218,6 +222,7 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 	// Loop over to execute everyone. Unoptimized, could be much faster if tasks were stacked, and sum of dependences stored.
     // This does not model timings, useless for throughput
 	while (total > 0) {
+		const EXEC_COUNT before = total;
 		{ForEachVertex(from,t) {
 			ARRAY_INDEX vId = from->getVertexId(t);
 			bool can_execute = false;
@@ -251,6 +256,7 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 			}
 
 		}}
+		if (total == before) break; // blocked
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
-- 
2.43.0


From 9fa761733869584e7eaedd14d74ce62bcfdcfc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 30/30] fix: link utilisation was too short for the last links
 of the network

getMapIndex starts at V, so the largest index is V*V + V - 1.
---
 src/libkiter/models/NoCGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/NoCGraph.h b/src/libkiter/models/NoCGraph.h
index 394a173..2ed421a 100644
--- a/src/libkiter/models/NoCGraph.h
+++ b/src/libkiter/models/NoCGraph.h
@@ -72,7 +72,7 @@ class NoCGraph
 	//std::map<int, int> getLinkUtil() { return linkUtil; }
 	std::vector<int> getLinkUtil() { return linkUtil; }
 
-	void clear() { linkUtil.resize(V*V, 0); }//linkUtil.clear(); }
+	void clear() { linkUtil.resize(V*V + V, 0); }//linkUtil.clear(); }
 	void addEdge(int u, int v); 
 	void printAllPaths(int s, int d, int length);
         //void setLinkUtil(std::map<int, int> u) { linkUtil = u; }
-- 
2.43.0

