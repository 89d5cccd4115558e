From f2a4e29917c7fdf78154c11e4784612881a9628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 01/46] fix: count regions and institutions when they enter the
 simulation

Region and Institution override EnterNotify without calling Agent::EnterNotify,
so they were never counted on entry but were still subtracted on exit, and
n_prototypes()/n_specs() went negative.
---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0


From 2d15cad9b3d78f716dce5a1384cb5d3c6db35b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:34 +0000
Subject: [PATCH 02/46] fix: registering a time listener twice no longer
 doubles its notifications

tickers_ is a map and absorbed the second registration, but the parallel
cpp/py listener vectors did not, so such an agent got two Ticks and two Tocks
(but one Decision) per timestep.
---
 src/timer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timer.cc b/src/timer.cc
index 49fab5e..9854606 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -191,6 +191,10 @@ void Timer::DoDecom() {
 }
 
 void Timer::RegisterTimeListener(TimeListener* agent) {
+  std::map<int, TimeListener*>::iterator it = tickers_.find(agent->id());
+  if (it != tickers_.end() && it->second == agent) {
+    return;  // already registered; must not be notified twice per timestep
+  }
   tickers_[agent->id()] = agent;
   if (agent->IsShim()) {
     py_tickers_.push_back(agent);
-- 
2.43.0


From e942fabf2bc28961d549f866dc2d9d6ca8f2e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 03/46] fix: decommission from the live queue and drop dangling
 queue entries

DoDecom iterated over a copy of the queue: a decommissioning scheduled for the
current timestep from DecomNotify was lost, one moved to a later timestep was
still carried out now and left a dangling pointer behind, and a pending build
kept a pointer to its deleted parent (use after free when it was built).
---
 src/timer.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/timer.cc b/src/timer.cc
index 9854606..cfb7da1 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -179,13 +179,31 @@ void Timer::RecordInventory(Agent* a, std::string name, Material::Ptr m) {
 }
 
 void Timer::DoDecom() {
-  // decommission queued agents
-  std::vector<Agent*> decom_list = decom_queue_[time_];
-  for (int i = 0; i < decom_list.size(); ++i) {
-    Agent* m = decom_list[i];
+  // decommission queued agents. Always work from the live queue: a parent may
+  // (re)schedule decommissionings for this very timestep while it is notified.
+  std::vector<Agent*>& decom_list = decom_queue_[time_];
+  while (!decom_list.empty()) {
+    Agent* m = decom_list.front();
+    decom_list.erase(decom_list.begin());
     if (m->parent() != NULL) {
       m->parent()->DecomNotify(m);
     }
+
+    // m is about to be deleted: leave no reference to it in the queues.
+    std::map<int, std::vector<Agent*> >::iterator dit;
+    for (dit = decom_queue_.begin(); dit != decom_queue_.end(); ++dit) {
+      std::vector<Agent*>& ags = dit->second;
+      ags.erase(std::remove(ags.begin(), ags.end(), m), ags.end());
+    }
+    std::map<int, std::vector<std::pair<std::string, Agent*> > >::iterator bit;
+    for (bit = build_queue_.begin(); bit != build_queue_.end(); ++bit) {
+      for (int i = 0; i < bit->second.size(); ++i) {
+        if (bit->second[i].second == m) {
+          bit->second[i].second = NULL;  // build will proceed without a parent
+        }
+      }
+    }
+
     m->Decommission();
   }
 }
-- 
2.43.0


From bf27462a2d2d06990acd4ed4d5f1107b4327d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:58 +0000
Subject: [PATCH 04/46] fix: a zero unit capacity no longer poisons greedy
 capacities with NaN

---
 src/greedy_solver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index ebf97e1..b8c2d15 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -117,8 +117,9 @@ double GreedySolver::Capacity(ExchangeNode::Ptr n, const Arc& a, bool min_cap,
     CLOG(cyclus::LEV_DEBUG1) << "    unit capacity: " << u_cap;
     CLOG(cyclus::LEV_DEBUG1) << "         capacity: " << cap;
 
-    // special case for unlimited capacities
-    if (grp_cap == std::numeric_limits<double>::max()) {
+    // special case for unlimited capacities, including constraints that this
+    // arc does not contribute to
+    if (grp_cap == std::numeric_limits<double>::max() || u_cap == 0) {
       caps.push_back(std::numeric_limits<double>::max());
     } else {
       caps.push_back(cap);
-- 
2.43.0


From de5d50ccd50f619d88678895bef07cb9376f67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 05/46] fix: the greedy solver trades an exclusive offer at
 most once

---
 src/greedy_solver.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index b8c2d15..dfd9d4c 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -16,6 +16,21 @@ void Capacity(cyclus::Arc const&, double, double) {};
 void Capacity(boost::shared_ptr<cyclus::ExchangeNode>, cyclus::Arc const&,
               double) {};
 
+// whether another node offering the same exclusive object is already matched
+static bool ExclOfferTraded(ExchangeNode::Ptr n,
+                            std::map<ExchangeNode::Ptr, double>& n_qty) {
+  const std::vector<std::vector<ExchangeNode::Ptr> >& groups =
+      n->group->excl_node_groups();
+  for (int i = 0; i != groups.size(); i++) {
+    const std::vector<ExchangeNode::Ptr>& nodes = groups[i];
+    if (std::find(nodes.begin(), nodes.end(), n) == nodes.end()) continue;
+    for (int j = 0; j != nodes.size(); j++) {
+      if (n_qty[nodes[j]] > 0) return true;
+    }
+  }
+  return false;
+}
+
 GreedySolver::GreedySolver(bool exclusive_orders, GreedyPreconditioner* c)
     : conditioner_(c),
       ExchangeSolver(exclusive_orders) {}
@@ -177,7 +192,8 @@ void GreedySolver::GreedilySatisfySet(RequestGroup::Ptr prs) {
 
         // exclusivity adjustment
         if (arc_it->exclusive()) {
-          excl_val = a.excl_val();
+          // an exclusive offer can be traded only once
+          excl_val = ExclOfferTraded(v, n_qty_) ? 0 : a.excl_val();
 
           // this careful float comparison is vital for preventing false positive
           // constraint violations w.r.t. exclusivity-related capacity.
-- 
2.43.0


From 21d0aac5df09aad825afebd44d730b5d5076c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 06/46] fix: optimized trades no longer exceed the quantity a
 bid offers

---
 src/prog_translator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/prog_translator.cc b/src/prog_translator.cc
index 50d387c..a13697c 100644
--- a/src/prog_translator.cc
+++ b/src/prog_translator.cc
@@ -165,7 +165,8 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
         ctx_.obj_coeffs[arc_id] = ExchangeSolver::Cost(a, excl_);
         ctx_.col_lbs[arc_id] = 0;
         ctx_.col_ubs[arc_id] = (excl_ && a.exclusive()) ? 1 :
-                               std::min(nodes[i]->qty, inf);
+                               std::min(std::min(nodes[i]->qty,
+                                                 a.vnode()->qty), inf);
       }
     }
   }
-- 
2.43.0


From e11faf1a24be3e677246cfa041a66bd040296536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 07/46] fix: infeasible exclusive arcs no longer make the
 pseudo cost infinite

---
 src/exchange_solver.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exchange_solver.cc b/src/exchange_solver.cc
index 1ac3121..cba940b 100644
--- a/src/exchange_solver.cc
+++ b/src/exchange_solver.cc
@@ -89,8 +89,10 @@ double ExchangeSolver::PseudoCostByPref(double cost_factor) {
   for (int i = 0; i != arcs.size(); i++) {
     const Arc& a = arcs[i];
     // remove exclusive value factor from costs for preferences that are less
-    // than unity. otherwise they can artificially raise the maximum cost.
-    double factor = (a.exclusive() && a.excl_val() < 1) ? 1 / a.excl_val() : 1.0;
+    // than unity. otherwise they can artificially raise the maximum cost. arcs
+    // that cannot carry exclusive flow have a zero exclusive value.
+    double factor = (a.exclusive() && a.excl_val() > 0 && a.excl_val() < 1) ?
+                    1 / a.excl_val() : 1.0;
     max_cost = std::max(max_cost, ArcCost(a) * factor);
   }
   return max_cost * (1 + cost_factor);
-- 
2.43.0


From 88e8b8b8b3bb36b5c0102ea760b4e7d6a45c0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:53 +0000
Subject: [PATCH 08/46] fix: optimized trades no longer exceed the quantity of
 a request

---
 src/prog_translator.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/prog_translator.cc b/src/prog_translator.cc
index a13697c..25bb691 100644
--- a/src/prog_translator.cc
+++ b/src/prog_translator.cc
@@ -135,6 +135,9 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
 
   std::vector<CoinPackedVector> cap_rows;
   std::vector<CoinPackedVector> excl_rows;
+  // rows keeping the combined flow to a request within its quantity
+  std::vector<CoinPackedVector> qty_rows;
+  std::vector<double> qtys;
   for (int i = 0; i != caps.size(); i++) {
     cap_rows.push_back(CoinPackedVector());
   }
@@ -144,6 +147,15 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
     std::map<Arc, std::vector<double> >& ucap_map = nodes[i]->unit_capacities;
     std::map<Arc, std::vector<double> >::iterator cap_it;
 
+    // a single arc is bounded by its column, and an exclusive node by its
+    // exclusive row
+    bool limit_qty = request && ucap_map.size() > 1 && nodes[i]->qty < inf &&
+                     !(excl_ && nodes[i]->exclusive);
+    if (limit_qty) {
+      qty_rows.push_back(CoinPackedVector());
+      qtys.push_back(nodes[i]->qty);
+    }
+
     // add each arc
     for (cap_it = ucap_map.begin(); cap_it != ucap_map.end(); ++cap_it) {
       const Arc& a = cap_it->first;
@@ -160,6 +172,11 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
         cap_rows[j].insert(arc_id, coeff);
       }
 
+      if (limit_qty) {
+        qty_rows.back().insert(
+            arc_id, (excl_ && a.exclusive()) ? a.excl_val() : 1.0);
+      }
+
       if (request) {
         CheckPref(a.pref());
         ctx_.obj_coeffs[arc_id] = ExchangeSolver::Cost(a, excl_);
@@ -190,6 +207,12 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
     ctx_.m.appendRow(cap_rows[i]);
   }
 
+  for (int i = 0; i != qty_rows.size(); i++) {
+    ctx_.row_lbs.push_back(0);
+    ctx_.row_ubs.push_back(qtys[i]);
+    ctx_.m.appendRow(qty_rows[i]);
+  }
+
   if (excl_) {
     // add exclusive arcs
     std::vector< std::vector<ExchangeNode::Ptr> >& exngs =
-- 
2.43.0


From cda756e364d551e01967586b1b298ebfe700b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:05 +0000
Subject: [PATCH 09/46] fix: fall back to the greedy solution when the
 optimizer runs out of time

---
 src/prog_solver.cc    | 16 ++++++++++++----
 src/solver_factory.cc | 23 +++++++++++++++--------
 src/solver_factory.h  | 11 +++++++----
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/prog_solver.cc b/src/prog_solver.cc
index 6d44f84..6d95f39 100644
--- a/src/prog_solver.cc
+++ b/src/prog_solver.cc
@@ -55,10 +55,12 @@ void ProgSolver::WriteMPS() {
 double ProgSolver::SolveGraph() {
   SolverFactory sf(solver_t_, tmax_);
   iface_ = sf.get();
+  double ret;
   try {
     // get greedy solution
     GreedySolver greedy(exclusive_orders_);
     double greedy_obj = greedy.Solve(graph_);
+    std::vector<Match> greedy_matches = graph_->matches();
     graph_->ClearMatches();
 
     // translate graph to iface_ instance
@@ -82,14 +84,20 @@ double ProgSolver::SolveGraph() {
     }
 
     // solve and back translate
-    SolveProg(iface_, greedy_obj, verbose_);
-
-    xlator.FromProg();
+    if (SolveProg(iface_, greedy_obj, verbose_)) {
+      xlator.FromProg();
+      ret = iface_->getObjValue();
+    } else {
+      // no solution within the time limit, use the greedy one
+      for (int i = 0; i != greedy_matches.size(); i++) {
+        graph_->AddMatch(greedy_matches[i].first, greedy_matches[i].second);
+      }
+      ret = greedy_obj;
+    }
   } catch(...) {
     delete iface_;
     throw;
   }
-  double ret = iface_->getObjValue();
   delete iface_;
   return ret;
 }
diff --git a/src/solver_factory.cc b/src/solver_factory.cc
index 7db2462..75ffc43 100644
--- a/src/solver_factory.cc
+++ b/src/solver_factory.cc
@@ -119,10 +119,11 @@ void ReportProg(OsiSolverInterface* si) {
   m->dumpMatrix();
 }
 
-void SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose) {
+bool SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose) {
   if (verbose)
     ReportProg(si);
 
+  bool solved;
   if (HasInt(si)) {
     CbcModel model(*si);
     ObjValueHandler handler(greedy_obj);
@@ -130,7 +131,11 @@ void SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose) {
     model.setLogLevel(0);
     model.initialSolve();
     model.branchAndBound();
-    si->setColSolution(model.bestSolution());
+    // a solution cut short by a limit must still beat the greedy one
+    solved = model.bestSolution() != NULL &&
+             (model.isProvenOptimal() || model.getObjValue() < greedy_obj);
+    if (solved)
+      si->setColSolution(model.bestSolution());
     if (verbose) {
       std::cout << "Greedy equivalent time: " << handler.time()
                 << " and obj " << handler.obj()
@@ -139,6 +144,7 @@ void SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose) {
   } else {
     // no ints, just solve 'initial lp relaxation'
     si->initialSolve();
+    solved = si->isProvenOptimal();
   }
 
   if (verbose) {
@@ -148,18 +154,19 @@ void SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose) {
                 << " integer: " << std::boolalpha << si->isInteger(i) << "\n";
     }
   }
+  return solved;
 }
 
-void SolveProg(OsiSolverInterface* si) {
-  SolveProg(si, si->getInfinity(), false);
+bool SolveProg(OsiSolverInterface* si) {
+  return SolveProg(si, si->getInfinity(), false);
 }
 
-void SolveProg(OsiSolverInterface* si, bool verbose) {
-  SolveProg(si, si->getInfinity(), verbose);
+bool SolveProg(OsiSolverInterface* si, bool verbose) {
+  return SolveProg(si, si->getInfinity(), verbose);
 }
 
-void SolveProg(OsiSolverInterface* si, double greedy_obj) {
-  SolveProg(si, greedy_obj, false);
+bool SolveProg(OsiSolverInterface* si, double greedy_obj) {
+  return SolveProg(si, greedy_obj, false);
 }
 
 bool HasInt(OsiSolverInterface* si) {
diff --git a/src/solver_factory.h b/src/solver_factory.h
index 4f8507f..1556708 100644
--- a/src/solver_factory.h
+++ b/src/solver_factory.h
@@ -60,10 +60,13 @@ class SolverFactory {
   double tmax_;
 };
 
-void SolveProg(OsiSolverInterface* si);
-void SolveProg(OsiSolverInterface* si, bool verbose);
-void SolveProg(OsiSolverInterface* si, double greedy_obj);
-void SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose);
+/// @brief solves a program, leaving the solution in the interface
+/// @return whether a usable solution was found (e.g., false if the time limit
+/// was reached first)
+bool SolveProg(OsiSolverInterface* si);
+bool SolveProg(OsiSolverInterface* si, bool verbose);
+bool SolveProg(OsiSolverInterface* si, double greedy_obj);
+bool SolveProg(OsiSolverInterface* si, double greedy_obj, bool verbose);
 bool HasInt(OsiSolverInterface* si);
 
 }  // namespace cyclus
-- 
2.43.0


From 3ca94e222fb46226dda1b738d4b0d50dc759b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 10/46] fix: pieces of an untracked resource stay untracked

---
 src/res_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..d19ebfa 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,7 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +57,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
@@ -75,11 +75,13 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From 4887394e6bb137d188a40214b5dc918a81609c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 11/46] fix: record product qualities once per simulation, not
 once per process

---
 src/product.cc | 12 +++++++++---
 src/product.h  |  7 +++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/product.cc b/src/product.cc
index 3081512..a0122d8 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -10,14 +10,20 @@ const ResourceType Product::kType = "Product";
 
 std::map<std::string, int> Product::qualids_;
 int Product::next_qualid_ = 1;
+std::set<std::pair<boost::uuids::uuid, int> > Product::recorded_;
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 Product::Ptr Product::Create(Agent* creator, double quantity,
                              std::string quality, std::string package_name) {
-  if (qualids_.count(quality) == 0) {
-    qualids_[quality] = next_qualid_++;
+  int& qualid = qualids_[quality];
+  if (qualid == 0) {
+    qualid = next_qualid_++;
+  }
+  // every simulation's output needs its own record of the quality
+  if (recorded_.insert(std::make_pair(creator->context()->sim_id(), qualid))
+          .second) {
     creator->context()->NewDatum("Products")
-        ->AddVal("QualId", qualids_[quality])
+        ->AddVal("QualId", qualid)
         ->AddVal("Quality", quality)
         ->Record();
   }
diff --git a/src/product.h b/src/product.h
index 68d7340..bf8107a 100644
--- a/src/product.h
+++ b/src/product.h
@@ -1,6 +1,11 @@
 #ifndef CYCLUS_SRC_PRODUCT_H_
 #define CYCLUS_SRC_PRODUCT_H_
 
+#include <map>
+#include <set>
+#include <string>
+#include <utility>
+
 #include <boost/shared_ptr.hpp>
 
 #include "context.h"
@@ -89,6 +94,8 @@ class Product : public Resource {
   // map<quality, quality_id>
   static std::map<std::string, int> qualids_;
   static int next_qualid_;
+  // simulations and quality ids whose "Products" row has been recorded
+  static std::set<std::pair<boost::uuids::uuid, int> > recorded_;
 
   Context* ctx_;
   std::string quality_;
-- 
2.43.0


From 6639fdff8bf6af7210f6add60b0c0601d648fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 12/46] fix: reject a resource that appears twice in one buffer
 push

---
 src/toolkit/res_buf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/res_buf.h b/src/toolkit/res_buf.h
index ac92841..f3c2cbc 100644
--- a/src/toolkit/res_buf.h
+++ b/src/toolkit/res_buf.h
@@ -328,8 +328,10 @@ class ResBuf {
       throw ValueError("Resource pushing breaks capacity limit.");
     }
 
+    std::set<typename T::Ptr> pushing;
     for (int i = 0; i < rss.size(); i++) {
-      if (rs_present_.count(rss.at(i)) == 1) {
+      if (rs_present_.count(rss.at(i)) == 1 ||
+          !pushing.insert(rss.at(i)).second) {
         throw KeyError("Duplicate resource pushing attempted");
       }
     }
-- 
2.43.0


From 5dd07060f253bb64682b1ac8d4421dab17aa997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 13/46] fix: packaging tolerates rounding without failing or
 going negative

---
 src/material.cc | 6 +++++-
 src/product.cc  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..43b0aa3 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -2,6 +2,8 @@
 
 #include <math.h>
 
+#include <algorithm>
+
 #include "comp_math.h"
 #include "context.h"
 #include "decayer.h"
@@ -144,7 +146,9 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
   if ((qty - qty_) > eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
-  
+  // package fills may exceed what is left by a rounding error
+  qty = std::min(qty, qty_);
+
   qty_ -= qty;
   Material::Ptr other(new Material(ctx_, qty, comp_, new_package_name));
 
diff --git a/src/product.cc b/src/product.cc
index a0122d8..94f4d40 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -1,5 +1,7 @@
 #include "product.h"
 
+#include <algorithm>
+
 #include "error.h"
 #include "logger.h"
 #include "cyc_limits.h"
@@ -84,9 +86,11 @@ std::string Product::package_name() {
 }
 
 Resource::Ptr Product::PackageExtract(double qty, std::string new_package_name) {
-  if (qty > quantity_) {
+  if ((qty - quantity_) > eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
+  // package fills may exceed what is left by a rounding error
+  qty = std::min(qty, quantity_);
 
   quantity_ -= qty;
   Product::Ptr other(new Product(ctx_, qty, quality_, new_package_name));
-- 
2.43.0


From ef7b16d0fe8e09a57a20e5c41f073a057a64ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 14/46] fix: repackaging a material obeys and records the new
 package

---
 src/material.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 43b0aa3..1a25f50 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -166,17 +166,18 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
 }
 
 void Material::ChangePackage(std::string new_package_name) {
-  if (ctx_ == NULL) {
+  if (new_package_name == package_name_ || ctx_ == NULL) {
     // no change needed
     return;
   }
   else if (new_package_name == Package::unpackaged_name()) {
     // unpackaged has functionally no restrictions
     package_name_ = new_package_name;
+    tracker_.Package();
     return;
   }
  
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From e9211c2c365ce1b2134031155f20441595992424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:17 +0000
Subject: [PATCH 15/46] fix: equal packaging and transport units work without a
 minimum fill

---
 src/package.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..a932ef5 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -58,9 +58,8 @@ std::vector<double> Package::GetFillMass(double qty) {
   if (strategy_ == "first") {
     fill_mass = fill_max_;
   } else if (strategy_ == "equal") {
-    int num_min_fill = std::floor(qty / fill_min_);
-    int num_max_fill = std::ceil(qty / fill_max_);
-    if (num_min_fill >= num_max_fill) {
+    double num_max_fill = std::max(1.0, std::ceil(qty / fill_max_));
+    if (qty >= num_max_fill * fill_min_) {
       // all material can fit in package(s)
       fill_mass = qty / num_max_fill;
     } else {
@@ -146,8 +145,8 @@ int TransportUnit::GetTransportUnitFill(int qty) {
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
     // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    int num_at_min_fill = fill_min_ > 0 ? qty / fill_min_ : qty;
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ > 0 ? 1 : 0);
 
     if (num_at_min_fill >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
-- 
2.43.0


From 4946482c21e8962b59a7af6d61de2e5e96a63146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 16/46] fix: a dump count of zero delivers at once, and
 changing it resets the buffer

---
 src/recorder.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..43af7b3 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -55,8 +55,11 @@ void Recorder::set_dump_count(unsigned int count) {
     delete data_[i];
   }
   data_.clear();
-  data_.reserve(count);
-  for (int i = 0; i < count; ++i) {
+  index_ = 0;
+  // a count of zero means no buffering, which takes one Datum at a time
+  unsigned int n = count > 0 ? count : 1;
+  data_.reserve(n);
+  for (int i = 0; i < n; ++i) {
     Datum* d = new Datum(this, "");
     if (inject_sim_id_) {
       d->AddVal("SimId", uuid_);
-- 
2.43.0


From 33d696fb32bc2bbe4db34683bebe8b6c7f800c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 17/46] fix: flushing the recorder flushes backends that
 already got all records

---
 src/recorder.cc | 8 ++++++--
 src/recorder.h  | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/recorder.cc b/src/recorder.cc
index 43af7b3..b0cd2e3 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -93,20 +93,24 @@ void Recorder::AddDatum(Datum* d) {
 }
 
 void Recorder::Flush() {
-  if (index_ == 0)
+  if (index_ == 0 && !unflushed_)
     return;
   DatumList tmp = data_;
   tmp.resize(index_);
   index_ = 0;
+  unflushed_ = false;
   std::list<RecBackend*>::iterator it;
   for (it = backs_.begin(); it != backs_.end(); it++) {
-    (*it)->Notify(tmp);
+    if (!tmp.empty()) {
+      (*it)->Notify(tmp);
+    }
     (*it)->Flush();
   }
 }
 
 void Recorder::NotifyBackends() {
   index_ = 0;
+  unflushed_ = true;
   std::list<RecBackend*>::iterator it;
   for (it = backs_.begin(); it != backs_.end(); it++) {
     (*it)->Notify(data_);
diff --git a/src/recorder.h b/src/recorder.h
index 435f3d6..ddfed15 100644
--- a/src/recorder.h
+++ b/src/recorder.h
@@ -120,6 +120,8 @@ class Recorder {
 
   DatumList data_;
   int index_;
+  /// whether records were passed on since the backends were last flushed
+  bool unflushed_ = false;
   std::list<RecBackend*> backs_;
   unsigned int dump_count_;
   boost::uuids::uuid uuid_;
-- 
2.43.0


From 9f957ea59012039b4e0273ac9fc41d32008797e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 18/46] fix: a failing backend no longer costs the other
 backends their records

---
 src/recorder.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/recorder.cc b/src/recorder.cc
index b0cd2e3..ce8d2e2 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -1,5 +1,7 @@
 #include "recorder.h"
 
+#include <exception>
+
 #include <boost/uuid/uuid_generators.hpp>
 #include <boost/uuid/uuid_io.hpp>
 #include <boost/lexical_cast.hpp>
@@ -100,21 +102,36 @@ void Recorder::Flush() {
   index_ = 0;
   unflushed_ = false;
   std::list<RecBackend*>::iterator it;
+  std::exception_ptr err;
   for (it = backs_.begin(); it != backs_.end(); it++) {
-    if (!tmp.empty()) {
-      (*it)->Notify(tmp);
+    try {
+      if (!tmp.empty()) {
+        (*it)->Notify(tmp);
+      }
+      (*it)->Flush();
+    } catch (...) {
+      // the other backends still get the records
+      unflushed_ = true;
+      if (!err) err = std::current_exception();
     }
-    (*it)->Flush();
   }
+  if (err) std::rethrow_exception(err);
 }
 
 void Recorder::NotifyBackends() {
   index_ = 0;
   unflushed_ = true;
   std::list<RecBackend*>::iterator it;
+  std::exception_ptr err;
   for (it = backs_.begin(); it != backs_.end(); it++) {
-    (*it)->Notify(data_);
+    try {
+      (*it)->Notify(data_);
+    } catch (...) {
+      // the other backends still get the records
+      if (!err) err = std::current_exception();
+    }
   }
+  if (err) std::rethrow_exception(err);
 }
 
 void Recorder::RegisterBackend(RecBackend* b) {
-- 
2.43.0


From 5a8da1795e04808aff3b0c552aa9ff724a8a7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:11 +0000
Subject: [PATCH 19/46] fix: SQLite column names no longer come from dangling
 field names

---
 src/sqlite_back.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index fff1b0c..1b5d598 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -207,26 +207,30 @@ void SqliteBack::CreateTable(Datum* d) {
   tbl_names_.insert(name);
 
   Datum::Vals vals = d->vals();
+  Datum::Fields fields = d->fields();
   Datum::Vals::iterator it = vals.begin();
+  Datum::Fields::iterator field = fields.begin();
 
   std::stringstream types;
   types << "INSERT INTO FieldTypes VALUES ('"
-        << name << "','" << it->first << "','"
+        << name << "','" << *field << "','"
         << Type(it->second) << "');";
   db_.Execute(types.str());
 
   std::string cmd = "CREATE TABLE " + name + " (";
-  cmd += std::string(it->first) + " " + SqlType(it->second);
+  cmd += *field + " " + SqlType(it->second);
   ++it;
+  ++field;
 
   while (it != vals.end()) {
-    cmd += ", " + std::string(it->first) + " " + SqlType(it->second);
+    cmd += ", " + *field + " " + SqlType(it->second);
     std::stringstream types;
     types << "INSERT INTO FieldTypes VALUES ('"
-          << name << "','" << it->first << "','"
+          << name << "','" << *field << "','"
           << Type(it->second) << "');";
     db_.Execute(types.str());
     ++it;
+    ++field;
   }
 
   cmd += ");";
-- 
2.43.0


From 6282634c61e1245e2f8a3f92d6f285b6dd25cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:11 +0000
Subject: [PATCH 20/46] fix: destroying the SQLite backend closes its database

---
 src/sqlite_back.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index 1b5d598..0e13dca 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -39,6 +39,8 @@ std::vector<std::string> split(const std::string& s, char delim) {
 SqliteBack::~SqliteBack() {
   try {
     Flush();
+    // the database stays open as long as there are statements for it
+    stmts_.clear();
     db_.close();
   } catch (Error err) {
     CLOG(LEV_ERROR) << "Error in SqliteBack destructor: " << err.what();
-- 
2.43.0


From 2f02343ada610e56a8cb72e5325f16be7dc570ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:46 +0000
Subject: [PATCH 21/46] fix: a batch that SQLite cannot store is rolled back
 and does not block later ones

---
 src/sqlite_back.cc | 24 +++++++++++++++++++++---
 src/sqlite_back.h  |  4 ++++
 src/sqlite_db.cc   | 14 ++++++++++++--
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index 0e13dca..975eade 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -71,6 +71,7 @@ SqliteBack::SqliteBack(std::string path) : db_(path) {
 }
 
 void SqliteBack::Notify(DatumList data) {
+  std::set<std::string> existing = tbl_names_;
   db_.Execute("BEGIN TRANSACTION;");
   try {
     for (DatumList::iterator it = data.begin(); it != data.end(); ++it) {
@@ -83,14 +84,31 @@ void SqliteBack::Notify(DatumList data) {
       }
       WriteDatum(*it);
     }
-  } catch (ValueError err) {
     db_.Execute("END TRANSACTION;");
-    throw ValueError(err.what());
+  } catch (...) {
+    Rollback(existing);
+    throw;
   }
-  db_.Execute("END TRANSACTION;");
   Flush();
 }
 
+void SqliteBack::Rollback(std::set<std::string> existing) {
+  try {
+    db_.Execute("ROLLBACK;");
+  } catch (IOError err) {
+    // after some errors sqlite has already rolled back by itself
+    CLOG(LEV_DEBUG1) << "rolling back: " << err.what();
+  }
+  std::set<std::string>::iterator it;
+  for (it = tbl_names_.begin(); it != tbl_names_.end(); ++it) {
+    if (existing.count(*it) == 0) {
+      stmts_.erase(*it);
+      schemas_.erase(*it);
+    }
+  }
+  tbl_names_ = existing;
+}
+
 void SqliteBack::Flush() { }
 
 std::list<ColumnInfo> SqliteBack::Schema(std::string table) {
diff --git a/src/sqlite_back.h b/src/sqlite_back.h
index 35c8968..7b1a4e2 100644
--- a/src/sqlite_back.h
+++ b/src/sqlite_back.h
@@ -63,6 +63,10 @@ class SqliteBack: public FullBackend {
   /// supported sqlite datatype type in a hold_any object.
   boost::spirit::hold_any ColAsVal(SqlStatement::Ptr stmt, int col, DbTypes type);
 
+  /// Abandons the current transaction, and with it all tables but the
+  /// existing ones.
+  void Rollback(std::set<std::string> existing);
+
   /// Queue up a table-create command for d.
   void CreateTable(Datum* d);
 
diff --git a/src/sqlite_db.cc b/src/sqlite_db.cc
index f482578..40f44b6 100644
--- a/src/sqlite_db.cc
+++ b/src/sqlite_db.cc
@@ -10,11 +10,19 @@
 namespace cyclus {
 
 SqlStatement::~SqlStatement() {
-  Must(sqlite3_finalize(stmt_));
+  // this repeats the error of the last step, which was reported then
+  sqlite3_finalize(stmt_);
 }
 
 void SqlStatement::Exec() {
-  Must(sqlite3_step(stmt_));
+  try {
+    Must(sqlite3_step(stmt_));
+  } catch (...) {
+    // leave the statement ready for another attempt
+    sqlite3_reset(stmt_);
+    sqlite3_clear_bindings(stmt_);
+    throw;
+  }
   Reset();
 }
 
@@ -150,6 +158,7 @@ void SqliteDb::Execute(std::string sql) {
   result = sqlite3_step(statement);
   if (result != SQLITE_DONE && result != SQLITE_ROW && result != SQLITE_OK) {
     std::string error = sqlite3_errmsg(db_);
+    sqlite3_finalize(statement);
     throw IOError("SQL error: " + sql + " " + error);
   }
 
@@ -194,6 +203,7 @@ std::vector<StrList> SqliteDb::Query(std::string sql) {
   // collect errors
   if (result != SQLITE_DONE && result != SQLITE_OK) {
     std::string error = sqlite3_errmsg(db_);
+    sqlite3_finalize(statement);
     throw IOError("SQL error: " + error);
   }
   sqlite3_finalize(statement);
-- 
2.43.0


From 4bdcb02295c8dcff91af1c79f38c02c1f333ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:34 +0000
Subject: [PATCH 22/46] fix: HDF5 column names no longer come from dangling
 field names

---
 src/hdf5_back.cc.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index 01a8805..71949b0 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -352,7 +352,7 @@ void Hdf5Back::CreateTable(Datum* d) {
   const char* field_names[nvals];
   for (int i = 0; i < nvals; ++i) {
     dst_offset[i] = dst_size;
-    field_names[i] = vals[i].first;
+    field_names[i] = d->fields()[i].c_str();
     const std::type_info& valtype = vals[i].second.type();
 @HDF5_BACK_CC_CREATE@
     dst_size += dst_sizes[i];
-- 
2.43.0


From 909d260d390c508b6ea6c7569e80c5c3a159deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:34 +0000
Subject: [PATCH 23/46] fix: a SQLite query with an empty condition list
 returns all rows

---
 src/sqlite_back.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index 975eade..1c70dbe 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -126,7 +126,7 @@ QueryResult SqliteBack::Query(std::string table, std::vector<Cond>* conds) {
 
   std::stringstream sql;
   sql << "SELECT * FROM " << table;
-  if (conds != NULL) {
+  if (conds != NULL && !conds->empty()) {
     sql << " WHERE ";
     for (int i = 0; i < conds->size(); ++i) {
       if (i > 0) {
-- 
2.43.0


From 618c585476b4dcc1e854782bd1363966ddb90594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:56 +0000
Subject: [PATCH 24/46] fix: different variable length values never share one
 HDF5 key

---
 src/query_backend.h | 123 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 92 insertions(+), 31 deletions(-)

diff --git a/src/query_backend.h b/src/query_backend.h
index 59e07f7..c375579 100644
--- a/src/query_backend.h
+++ b/src/query_backend.h
@@ -643,112 +643,132 @@ class Sha1 {
   inline void Update(const Blob& b) { Update(b.str()); }
 
   inline void Update(const std::vector<int>& x) {
+    UpdateSize(x.size());
     hash_.process_bytes(&x[0], x.size() * sizeof(int));
   }
 
   inline void Update(const std::vector<float>& x) {
+    UpdateSize(x.size());
     hash_.process_bytes(&x[0], x.size() * sizeof(float));
   }
 
   inline void Update(const std::vector<double>& x) {
+    UpdateSize(x.size());
     hash_.process_bytes(&x[0], x.size() * sizeof(double));
   }
 
   inline void Update(const std::vector<std::string>& x) {
+    UpdateSize(x.size());
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].c_str(), x[i].size());
+      UpdateStr(x[i]);
   }
 
   inline void Update(const std::vector<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].str().c_str(), x[i].str().size());
+      UpdateStr(x[i].str());
   }
 
   inline void Update(const std::vector<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::vector<boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
   }
 
   inline void Update(const std::set<int>& x) {
+    UpdateSize(x.size());
     std::set<int>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(int));
   }
 
   inline void Update(const std::set<bool>& x) {
+    UpdateSize(x.size());
     std::set<bool>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(bool));
   }
 
   inline void Update(const std::set<double>& x) {
+    UpdateSize(x.size());
     std::set<double>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(double));
   }
 
   inline void Update(const std::set<float>& x) {
+    UpdateSize(x.size());
     std::set<float>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(float));
   }
 
   inline void Update(const std::set<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::set<cyclus::Blob>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdateStr(it->str());
   }
 
   inline void Update(const std::set<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::set<boost::uuids::uuid>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
   }
 
   inline void Update(const std::set<std::string>& x) {
+    UpdateSize(x.size());
     std::set<std::string>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdateStr(*it);
   }
 
   inline void Update(const std::list<int>& x) {
+    UpdateSize(x.size());
     std::list<int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(int));
   }
 
   inline void Update(const std::list<bool>& x) {
+    UpdateSize(x.size());
     std::list<bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(bool));
   }
 
   inline void Update(const std::list<double>& x) {
+    UpdateSize(x.size());
     std::list<double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(double));
   }
 
   inline void Update(const std::list<float>& x) {
+    UpdateSize(x.size());
     std::list<float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(float));
   }
 
   inline void Update(const std::list<std::string>& x) {
+    UpdateSize(x.size());
     std::list<std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdateStr(*it);
   }
 
   inline void Update(const std::list<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::list<cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdateStr(it->str());
   }
 
   inline void Update(const std::list<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::list<boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
@@ -761,10 +781,11 @@ class Sha1 {
 
   inline void Update(const std::pair<int, std::string>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.c_str(), x.second.size());
+    UpdateStr(x.second);
   }
 
   inline void Update(const std::map<int, int>& x) {
+    UpdateSize(x.size());
     std::map<int, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -773,6 +794,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, bool>& x) {
+    UpdateSize(x.size());
     std::map<int, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -781,6 +803,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, double>& x) {
+    UpdateSize(x.size());
     std::map<int, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -789,6 +812,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, float>& x) {
+    UpdateSize(x.size());
     std::map<int, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -797,14 +821,16 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::map<int, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdateStr(it->second.str());
     }
   }
 
   inline void Update(const std::map<int, boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::map<int, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -813,104 +839,117 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, std::string>& x) {
+    UpdateSize(x.size());
     std::map<int, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdateStr(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, int>& x) {
+    UpdateSize(x.size());
     std::map<std::string, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
 
   inline void Update(const std::map<std::string, double>& x) {
+    UpdateSize(x.size());
     std::map<std::string, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
 
   inline void Update(const std::map<std::string, float>& x) {
+    UpdateSize(x.size());
     std::map<std::string, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       hash_.process_bytes(&(it->second), sizeof(float));
     }
   }
 
   inline void Update(const std::map<std::string, bool>& x) {
+    UpdateSize(x.size());
     std::map<std::string, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       hash_.process_bytes(&(it->second), sizeof(bool));
     }
   }
 
   inline void Update(const std::map<std::string, cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::map<std::string, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdateStr(it->first);
+      UpdateStr(it->second.str());
     }
   }
 
   inline void Update(const std::map<std::string, boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::map<std::string, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       hash_.process_bytes(&(it->second), CYCLUS_UUID_SIZE);
     }
   }
 
   inline void Update(const std::map<std::string, std::string>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdateStr(it->first);
+      UpdateStr(it->second);
     }
   }
 
   inline void Update(const std::map<std::pair<int, std::string>, double>& x) {
+    UpdateSize(x.size());
     std::map<std::pair<int, std::string>, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first.first), sizeof(int));
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdateStr(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
 
   inline void Update(const std::map<std::pair<std::string, std::string>, int>& x) {
+    UpdateSize(x.size());
     std::map<std::pair<std::string, std::string>, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.first.c_str(), it->first.first.size());
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdateStr(it->first.first);
+      UpdateStr(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
 
   inline void Update(const std::map<std::string, std::vector<double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::vector<double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, std::map<int, double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<int, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<int, std::map<std::string, double>>& x) {
+    UpdateSize(x.size());
     std::map<int, std::map<std::string, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -924,20 +963,22 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::pair<double, std::map<int, double>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::pair<double, std::map<int, double>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(&(it->first), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::pair<int, std::pair<std::string, std::string>>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.first.c_str(), x.second.first.size());
-    hash_.process_bytes(x.second.second.c_str(), x.second.second.size());
+    UpdateStr(x.second.first);
+    UpdateStr(x.second.second);
   }
 
   inline void Update(const std::vector<std::pair<int, std::pair<std::string, std::string>>>& x) {
+    UpdateSize(x.size());
     std::vector<std::pair<int, std::pair<std::string, std::string>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       Update(*it);
@@ -945,14 +986,16 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::list<std::pair<int, int>>& x){
+    UpdateSize(x.size());
     std::list<std::pair<int, int>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       Update(*it);
@@ -960,22 +1003,24 @@ class Sha1 {
   }
 
   inline void Update(const std::pair<std::string, std::vector<double>>& x) {
-    hash_.process_bytes(x.first.c_str(), x.first.size());
+    UpdateStr(x.first);
     Update(x.second);
   }
 
   inline void Update(const std::map<std::string, std::pair<std::string, std::vector<double>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::pair<std::string, std::vector<double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, std::map<std::string, int>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<std::string, int>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
@@ -991,6 +1036,7 @@ class Sha1 {
   }
 
   inline void Update(const std::vector<std::pair<std::pair<double, double>, std::map<std::string, double>>>& x) {
+    UpdateSize(x.size());
     std::vector<std::pair<std::pair<double, double>, std::map<std::string, double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
       Update(*it);
@@ -998,9 +1044,10 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::map<std::string, double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<std::string, double>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateStr(it->first);
       Update(it->second);
     }
   }
@@ -1038,6 +1085,20 @@ class Sha1 {
   }
 
  private:
+  /// Elements are hashed together with their number and the length of their
+  /// strings, so that different values never have the same representation.
+  /// \{
+  inline void UpdateSize(size_t n) {
+    unsigned long long size = n;
+    hash_.process_bytes(&size, sizeof(size));
+  }
+
+  inline void UpdateStr(const std::string& s) {
+    UpdateSize(s.size());
+    hash_.process_bytes(s.c_str(), s.size());
+  }
+  /// \}
+
   boost::uuids::detail::sha1 hash_;
 };
 
-- 
2.43.0


From 35b8c112866fcc74695d7b8c67d50ca5b1bacb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:17 +0000
Subject: [PATCH 25/46] fix: HDF5 writes nested variable length values to
 tables of a reopened file

---
 src/hdf5_back.cc.in | 44 +++++++++++++++++++++++++++++++-------------
 src/hdf5_back.h.in  |  8 ++++++++
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index 71949b0..ba09437 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -78,14 +78,21 @@ void Hdf5Back::Notify(DatumList data) {
   std::map<std::string, DatumList> groups;
   for (DatumList::iterator it = data.begin(); it != data.end(); ++it) {
     std::string name = (*it)->title();
-    if (schema_sizes_.count(name) == 0) {
+    if (written_.count(name) == 0) {
       if (H5Lexists(file_, name.c_str(), H5P_DEFAULT)) {
         LoadTableTypes(name, (*it)->vals().size(), *it);
+        // The table may be new to this backend object, so the variable length
+        // types that its columns need may not have been built yet.
+        std::vector<size_t> offsets((*it)->vals().size());
+        std::vector<size_t> sizes((*it)->vals().size());
+        std::vector<hid_t> types((*it)->vals().size());
+        std::vector<DbTypes> dbtypes((*it)->vals().size());
+        BuildColumns(*it, offsets.data(), sizes.data(), types.data(),
+                     dbtypes.data());
       } else {
-        // Datum* d = *it;
-        // CreateTable(d);
         CreateTable(*it);
       }
+      written_.insert(name);
     }
     groups[name].push_back(*it);
   }
@@ -331,32 +338,43 @@ std::string Hdf5Back::Name() {
   return path_;
 }
 
-void Hdf5Back::CreateTable(Datum* d) {
+size_t Hdf5Back::BuildColumns(Datum* d, size_t* dst_offset, size_t* dst_sizes,
+                              hid_t* field_types, DbTypes* dbtypes) {
   using std::set;
   using std::string;
   using std::vector;
   using std::list;
   using std::pair;
   using std::map;
-  Datum::Vals vals = d->vals();
-  hsize_t nvals = vals.size();
+  const Datum::Vals& vals = d->vals();
+  Datum::Shape shape;
+  const Datum::Shapes& shapes = d->shapes();
+  const Datum::Fields& field_names = d->fields();
+
+  size_t dst_size = 0;
+  for (int i = 0; i < vals.size(); ++i) {
+    dst_offset[i] = dst_size;
+    const std::type_info& valtype = vals[i].second.type();
+@HDF5_BACK_CC_CREATE@
+    dst_size += dst_sizes[i];
+  }
+  return dst_size;
+}
+
+void Hdf5Back::CreateTable(Datum* d) {
+  hsize_t nvals = d->vals().size();
   Datum::Shape shape;
   Datum::Shapes shapes = d->shapes();
 
   herr_t status;
-  size_t dst_size = 0;
   size_t* dst_offset = new size_t[nvals];
   size_t* dst_sizes = new size_t[nvals];
   hid_t field_types[nvals];
   DbTypes* dbtypes = new DbTypes[nvals];
   const char* field_names[nvals];
-  for (int i = 0; i < nvals; ++i) {
-    dst_offset[i] = dst_size;
+  for (int i = 0; i < nvals; ++i)
     field_names[i] = d->fields()[i].c_str();
-    const std::type_info& valtype = vals[i].second.type();
-@HDF5_BACK_CC_CREATE@
-    dst_size += dst_sizes[i];
-  }
+  size_t dst_size = BuildColumns(d, dst_offset, dst_sizes, field_types, dbtypes);
 
   std::string titlestr = d->title();
   const char* title = titlestr.c_str();
diff --git a/src/hdf5_back.h.in b/src/hdf5_back.h.in
index 1557a40..47823d4 100644
--- a/src/hdf5_back.h.in
+++ b/src/hdf5_back.h.in
@@ -111,6 +111,11 @@ class Hdf5Back : public FullBackend {
   /// Creates a fixed length HDF5 string type of length-n
   hid_t CreateFLStrType(int n);
 
+  /// Builds the HDF5 types of the columns that d needs, including any variable
+  /// length types nested in them, and returns the size of a row in bytes.
+  size_t BuildColumns(Datum* d, size_t* dst_offset, size_t* dst_sizes,
+                      hid_t* field_types, DbTypes* dbtypes);
+
   /// Creates and initializes an hdf5 table with schema defined by d.
   void CreateTable(Datum* d);
 
@@ -233,6 +238,9 @@ class Hdf5Back : public FullBackend {
   /// cooresponding dataet for variable length data.
   std::map<std::string, hid_t> vldatasets_;
 
+  /// Names of the tables that this backend object has written to.
+  std::set<std::string> written_;
+
   /// Map of database type to the cooresponding HDF5 datatype.
   std::map<DbTypes, hid_t> vldts_;
 
-- 
2.43.0


From 78742513d10b1da844fb6473b96d0528d11fa580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 26/46] fix: data that HDF5 could not write to disk is reported

---
 src/hdf5_back.cc.in | 62 +++++++++++++++++++++++++++++----------------
 src/hdf5_back.h.in  |  2 +-
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index ba09437..a12e806 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -43,15 +43,15 @@ void Hdf5Back::Close() {
   if (closed_)
     return;
 
-  // cleanup HDF5
-  Flush();
-  H5Fclose(file_);
+  // cleanup HDF5, data may only reach the file when its last handle is closed
+  bool ok = H5Fflush(file_, H5F_SCOPE_GLOBAL) >= 0;
+  std::map<std::string, hid_t>::iterator vldsit;
+  for (vldsit = vldatasets_.begin(); vldsit != vldatasets_.end(); ++vldsit)
+    ok = H5Dclose(vldsit->second) >= 0 && ok;
   std::set<hid_t>::iterator t;
   for (t = opened_types_.begin(); t != opened_types_.end(); ++t)
     H5Tclose(*t);
-  std::map<std::string, hid_t>::iterator vldsit;
-  for (vldsit = vldatasets_.begin(); vldsit != vldatasets_.end(); ++vldsit)
-    H5Dclose(vldsit->second);
+  ok = H5Fclose(file_) >= 0 && ok;
 
   // cleanup memory
   std::map<std::string, size_t*>::iterator it;
@@ -67,11 +67,21 @@ void Hdf5Back::Close() {
   }
 
   closed_ = true;
+  if (!ok)
+    throw IOError("Failed to write all data to the HDF5 file '" + path_ + "'.");
+}
+
+void Hdf5Back::Flush() {
+  if (H5Fflush(file_, H5F_SCOPE_GLOBAL) < 0)
+    throw IOError("Failed to flush the HDF5 file '" + path_ + "'.");
 }
 
 Hdf5Back::~Hdf5Back() {
-  if (!closed_)
+  try {
     Close();
+  } catch (const std::exception& e) {
+    std::cerr << e.what() << "\n";
+  }
 }
 
 void Hdf5Back::Notify(DatumList data) {
@@ -409,8 +419,8 @@ void Hdf5Back::CreateTable(Datum* d) {
   hid_t attr_space = H5Screate_simple(1, &nvals, &nvals);
   hid_t dbtypes_attr = H5Acreate2(tb_set, "cyclus_dbtypes", H5T_NATIVE_INT,
                                   attr_space, H5P_DEFAULT, H5P_DEFAULT);
-  H5Awrite(dbtypes_attr, H5T_NATIVE_INT, dbtypes);
-  H5Aclose(dbtypes_attr);
+  bool ok = H5Awrite(dbtypes_attr, H5T_NATIVE_INT, dbtypes) >= 0;
+  ok = H5Aclose(dbtypes_attr) >= 0 && ok;
   H5Sclose(attr_space);
   for(int i = 0; i < nvals; ++i) {
     shape = shapes[i];
@@ -432,11 +442,18 @@ void Hdf5Back::CreateTable(Datum* d) {
     col_name << "shape" << i;
     hid_t shape_attr = H5Acreate2(tb_set, col_name.str().c_str(), H5T_NATIVE_INT,
                                   shape_space, H5P_DEFAULT, H5P_DEFAULT);
-    H5Awrite(shape_attr, H5T_NATIVE_INT, &shape_vector[0]);
-    H5Aclose(shape_attr);
+    ok = H5Awrite(shape_attr, H5T_NATIVE_INT, &shape_vector[0]) >= 0 && ok;
+    ok = H5Aclose(shape_attr) >= 0 && ok;
     H5Sclose(shape_space);
   }
-  H5Dclose(tb_set);
+  ok = H5Dclose(tb_set) >= 0 && ok;
+  if (!ok) {
+    delete[] dst_offset;
+    delete[] dst_sizes;
+    delete[] dbtypes;
+    throw IOError("Failed to describe the columns of HDF5 table '" + titlestr +
+                  "' in '" + path_ + "'.");
+  }
 
   // record everything for later
   col_offsets_[d->title()] = dst_offset;
@@ -559,18 +576,25 @@ void Hdf5Back::WriteGroup(DatumList& group) {
   hsize_t dims[1];
   hsize_t offset[1];
   hsize_t count[1];
-  H5TBget_table_info(file_, c_title, &nfields, &nrecords_orig);
+  bool ok = H5TBget_table_info(file_, c_title, &nfields, &nrecords_orig) >= 0;
   dims[0] = nrecords_add + nrecords_orig;
   offset[0] = nrecords_orig;
   count[0] = nrecords_add;
 
-  status = H5Dset_extent(dset, dims);
+  ok = ok && H5Dset_extent(dset, dims) >= 0;
   hid_t dspace = H5Dget_space(dset);
   hid_t memspace = H5Screate_simple(1, count, NULL);
   status = H5Sselect_hyperslab(dspace, H5S_SELECT_SET, offset, NULL, count, NULL);
-  status = H5Dwrite(dset, dtype, memspace, dspace, H5P_DEFAULT, buf);
+  ok = ok && status >= 0 &&
+       H5Dwrite(dset, dtype, memspace, dspace, H5P_DEFAULT, buf) >= 0;
+  H5Sclose(memspace);
+  H5Sclose(dspace);
+  H5Tclose(dtype);
+  // closing the table writes out its cached rows
+  ok = H5Dclose(dset) >= 0 && ok;
+  delete[] buf;
 
-  if (status < 0) {
+  if (!ok) {
     std::stringstream ss;
     ss << "Failed to write to the HDF5 table:\n" \
        << "  file      " << path_ << "\n" \
@@ -585,12 +609,6 @@ void Hdf5Back::WriteGroup(DatumList& group) {
     }
     throw IOError(ss.str());
   }
-
-  H5Sclose(memspace);
-  H5Sclose(dspace);
-  H5Tclose(dtype);
-  H5Dclose(dset);
-  delete[] buf;
 }
 
 template <typename T, DbTypes U>
diff --git a/src/hdf5_back.h.in b/src/hdf5_back.h.in
index 47823d4..5d8110f 100644
--- a/src/hdf5_back.h.in
+++ b/src/hdf5_back.h.in
@@ -88,7 +88,7 @@ class Hdf5Back : public FullBackend {
 
   virtual std::string Name();
 
-  virtual inline void Flush() { H5Fflush(file_, H5F_SCOPE_GLOBAL); }
+  virtual void Flush();
 
   virtual QueryResult Query(std::string table, std::vector<Cond>* conds);
 
-- 
2.43.0


From cf3696cc6704ccb7a0399e43c26be046671e6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:10 +0000
Subject: [PATCH 27/46] fix: a sell policy ignoring composition sends the
 requested composition

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 62188d9..c65f6fd 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -284,7 +284,7 @@ void MatlSellPolicy::GetMatlTrades(
         trade_mat = mat;
       }
 
-      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
+      if (ignore_comp_ && !compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
         trade_mat->Transmute(it->request->target()->comp());
       }
       responses.push_back(std::make_pair(*it, trade_mat));
-- 
2.43.0


From 9ea229da69117f968143ff77d24c48c96463e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 28/46] fix: a buy policy counts material towards its
 cumulative cap before its buffer absorbs it

---
 src/toolkit/matl_buy_policy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..58ff38c 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -328,11 +328,11 @@ void MatlBuyPolicy::AcceptMatlTrades(
     rsrc_commods_[it->second] = it->first.request->commodity();
     LGH(INFO3) << "got " << it->second->quantity() << " kg of "
                << it->first.request->commodity()  << std::endl;
-    buf_->Push(it->second);
-    // cumulative capacity handling
+    // cumulative capacity handling, before a bulk buffer absorbs the material
     if (use_cumulative_capacity()) {
       cycle_total_inv_ += it->second->quantity();
     }
+    buf_->Push(it->second);
   }
   // check if cumulative cap has been reached. If yes, then sample for dormant
   // length and reset cycle_total_inv
-- 
2.43.0


From 0c47a7fca54f0e6b3a9a0a4ad1f456fbe2fcd175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:59 +0000
Subject: [PATCH 29/46] fix: a sell policy refuses a quantum below the minimum
 of its package

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index c65f6fd..9acedef 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -52,7 +52,7 @@ void MatlSellPolicy::set_package(std::string x) {
     if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
       if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
         std::vector<double> fill = pkg->GetFillMass(quantize_);
-        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
+        if (fill.size() != 1 || std::fmod(fill.front(), quantize_) > 0) {
           ss << "Quantize " << quantize_ 
              << " is not fully packagable based on fill min/max values (" 
              << pkg->fill_min() << ", " << pkg->fill_max() << ")";
-- 
2.43.0


From 33aae412a6a5c46e27aef0558460955ba77e2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:49 +0000
Subject: [PATCH 30/46] fix: a sell policy no longer ships untracked empty
 material

---
 src/toolkit/matl_sell_policy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 9acedef..6380ab8 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -276,8 +276,9 @@ void MatlSellPolicy::GetMatlTrades(
           trade_mat = mat_pkgd[0];
           shippable_pkgs-=1;
         } else {
-          // packaging failed. Will need to ship empty trade
-          trade_mat = Material::CreateUntracked(0, mat->comp());
+          // packaging failed and the material went back to the buffer, there
+          // is nothing to ship for this trade
+          continue;
         }
 
       } else { // no packaging needed
-- 
2.43.0


From f9e2015abdaef01adb2bf458cbaeca30c2755631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:01 +0000
Subject: [PATCH 31/46] fix: restart no longer hangs on agents whose parent has
 left the simulation

---
 src/sim_init.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..a58736e 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -435,7 +435,9 @@ void SimInit::LoadInitialAgents() {
     Agent* m = it->second;
     int parentid = parentmap[id];
 
-    if (parentid == -1) {  // root agent
+    if (parentid == -1 ||
+        (agents_.count(parentid) == 0 && unbuilt.count(parentid) == 0)) {
+      // root agent or the parent has left the simulation already
       m->Connect(NULL);
       agents_[id] = m;
       ++it;
-- 
2.43.0


From a8c2fdeb3b52644eedc4045a217a83a28afc5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:01 +0000
Subject: [PATCH 32/46] fix: restart schedules exactly the builds that were
 pending at the snapshot

---
 src/sim_init.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index a58736e..900e6f0 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -488,7 +488,11 @@ void SimInit::LoadInventories() {
 
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
-  conds.push_back(Cond("BuildTime", ">", t_));
+  conds.push_back(Cond("BuildTime", ">=", t_));
+  if (t_ > 0) {
+    // what was scheduled later on will be scheduled again
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
@@ -498,7 +502,8 @@ void SimInit::LoadBuildSched() {
     int t = qr.GetVal<int>("BuildTime", i);
     int parentid = qr.GetVal<int>("ParentId", i);
     std::string proto = qr.GetVal<std::string>("Prototype", i);
-    ctx_->SchedBuild(agents_[parentid], proto, t);
+    Agent* parent = agents_.count(parentid) > 0 ? agents_[parentid] : NULL;
+    ctx_->SchedBuild(parent, proto, t);
   }
 }
 
-- 
2.43.0


From f974e1878a6978d5460b7b19d6ecd5d2ecec542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:01 +0000
Subject: [PATCH 33/46] fix: restart schedules exactly the decommissionings
 that were pending at the snapshot

---
 src/sim_init.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 900e6f0..30dea23 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -510,6 +510,10 @@ void SimInit::LoadBuildSched() {
 void SimInit::LoadDecomSched() {
   std::vector<Cond> conds;
   conds.push_back(Cond("DecomTime", ">=", t_));
+  if (t_ > 0) {
+    // what was scheduled later on will be scheduled again
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("DecomSchedule", &conds);
@@ -518,7 +522,9 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
-    ctx_->SchedDecom(agents_[agentid], t);
+    if (agents_.count(agentid) > 0) {  // otherwise it has left already
+      ctx_->SchedDecom(agents_[agentid], t);
+    }
   }
 }
 
-- 
2.43.0


From 01ea367305a9d98cfc27679d37f4c757cb8ac408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 34/46] fix: restart uses the tolerances of the simulation it
 continues

---
 src/sim_init.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 30dea23..637a9bb 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -168,6 +168,8 @@ void SimInit::LoadInfo() {
   qr = b_->Query("Epsilon", NULL);
   si_.eps = qr.GetVal<double>("GenericEpsilon");
   si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
+  cy_eps = si_.eps;
+  cy_eps_rsrc = si_.eps_rsrc;
 
   qr = b_->Query("InfoExplicitInv", NULL);
   si_.explicit_inventory = qr.GetVal<bool>("RecordInventory");
-- 
2.43.0


From f37c12fe32e97f934781f3e9a6f5ccd54c06bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 35/46] fix: restored resources keep their package

---
 src/sim_init.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 637a9bb..22df266 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -616,12 +616,14 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
   Material::Ptr mat = Material::Create(dummy, qty, comp);
   mat->prev_decay_time_ = prev_decay;
+  mat->package_name_ = package_name;
   ctx->DelAgent(dummy);
 
   return mat;
@@ -650,6 +652,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -662,6 +665,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
 
   Agent* dummy = new Dummy(ctx);
   Product::Ptr r = Product::Create(dummy, qty, quality);
+  r->package_name_ = package_name;
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From 3b57dbe93ca0479b9f702aa5c88831749cc7047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:44 +0000
Subject: [PATCH 36/46] fix: Poisson and binary distributions use the
 parameters they are given

---
 src/random_number_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..1e4ec27 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -152,7 +152,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -188,7 +188,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -302,7 +302,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -337,7 +337,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From 7335b9c23589896f2eac68e1194792f4ca7c2450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:44 +0000
Subject: [PATCH 37/46] fix: a transport unit without limits gets integer
 defaults

---
 src/xml_file_loader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 3c4d6c4..95a171f 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -351,8 +351,8 @@ void XMLFileLoader::LoadTransportUnits() {
     std::string name = cyclus::OptionalQuery<std::string>(qe, "name", "default");
     CLOG(LEV_DEBUG3) << "loading transport unit: " << name;
     
-    double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
-    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
+    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 0);
+    int fill_max = cyclus::OptionalQuery<int>(qe, "fill_max", std::numeric_limits<int>::max());
     
     std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");
 
-- 
2.43.0


From 51b54f2b8f360aa284c021b0222e0346274becf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:33 +0000
Subject: [PATCH 38/46] fix: commodity solution priorities of the input file
 are used

---
 src/sim_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 22df266..e44aa46 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -249,7 +249,7 @@ void* SimInit::LoadPreconditioner(std::string name) {
     QueryResult qr = b_->Query("CommodPriority", NULL);
     for (int i = 0; i < qr.rows.size(); ++i) {
       std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionOrder", i);
+      double order = qr.GetVal<double>("SolutionPriority", i);
       commod_order[commod] = order;
     }
   } catch (std::exception err) {
-- 
2.43.0


From dc8727448a6b038787c6bb4f412a3e82ee34e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:33 +0000
Subject: [PATCH 39/46] fix: an input file without commodities is handled

---
 src/xml_file_loader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 95a171f..5543cc9 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -285,6 +285,10 @@ void XMLFileLoader::LoadSolver() {
 
 void XMLFileLoader::ProcessCommodities(
   std::map<std::string, double>* commod_priority) {
+  if (commod_priority->empty()) {
+    return;
+  }
+
   double max = std::max_element(
                  commod_priority->begin(),
                  commod_priority->end(),
-- 
2.43.0


From ad28fbaf90e6398dbfa431ed50fbff4f93e44dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:41 +0000
Subject: [PATCH 40/46] fix: the flat input loader rejects unknown, cyclic and
 duplicate agents

---
 src/xml_flat_loader.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml_flat_loader.cc b/src/xml_flat_loader.cc
index 7e3319b..f35f1dc 100644
--- a/src/xml_flat_loader.cc
+++ b/src/xml_flat_loader.cc
@@ -90,6 +90,9 @@ void XMLFlatLoader::LoadInitialAgents() {
     std::string name = qe->GetString("name");
     std::string proto = qe->GetString("prototype");
     std::string parent = OptionalQuery<std::string>(qe, "parent", "");
+    if (agents.count(name) > 0) {
+      throw ValidationError("agent name " + name + " is used more than once");
+    }
     protos[name] = proto;
     parents[name] = parent;
     invs[name] = qe;
@@ -99,7 +102,16 @@ void XMLFlatLoader::LoadInitialAgents() {
   // build agents starting at roots (no parent) down.
   std::map<std::string, Agent*> built;  // map<agent_name, agent_ptr>
   std::set<std::string>::iterator it = agents.begin();
+  std::set<std::string>::size_type unbuilt = agents.size() + 1;
   while (agents.size() > 0) {
+    if (it == agents.begin()) {
+      // each pass over the remaining agents must build at least one
+      if (agents.size() == unbuilt) {
+        throw ValidationError("the parent of agent " + *it +
+                              " does not exist or is its own descendant");
+      }
+      unbuilt = agents.size();
+    }
     std::string name = *it;
     std::string proto = protos[name];
     std::string parent = parents[name];
-- 
2.43.0


From c76df0452ec144386d5187b497196179b2fe335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:16 +0000
Subject: [PATCH 41/46] fix: an error reading the database is not taken for a
 missing table

---
 src/sim_init.cc | 83 ++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index e44aa46..5f46a9f 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -14,6 +14,11 @@ class Dummy : public Region {
   Dummy* Clone() { return NULL; }
 };
 
+// Tells whether an optional table is part of the database.
+static bool HasTable(QueryableBackend* b, std::string table) {
+  return b->Tables().count(table) > 0;
+}
+
 SimInit::SimInit() : rec_(NULL), ctx_(NULL) {}
 
 SimInit::~SimInit() {
@@ -179,12 +184,10 @@ void SimInit::LoadInfo() {
 }
 
 void SimInit::LoadRecipes() {
-  QueryResult qr;
-  try {
-    qr = b_->Query("Recipes", NULL);
-  } catch (std::exception err) {
-    return;
-  }  // table doesn't exist (okay)
+  if (!HasTable(b_, "Recipes")) {
+    return;  // table doesn't exist (okay)
+  }
+  QueryResult qr = b_->Query("Recipes", NULL);
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     std::string recipe = qr.GetVal<std::string>("Recipe", i);
@@ -195,12 +198,10 @@ void SimInit::LoadRecipes() {
 }
 
 void SimInit::LoadPackages() {
-  QueryResult qr;
-  try {
-    qr = b_->Query("Packages", NULL);
-  } catch (std::exception err) {
-    return;
-  }  // table doesn't exist (okay)
+  if (!HasTable(b_, "Packages")) {
+    return;  // table doesn't exist (okay)
+  }
+  QueryResult qr = b_->Query("Packages", NULL);
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     std::string name = qr.GetVal<std::string>("PackageName", i);
@@ -218,12 +219,10 @@ void SimInit::LoadPackages() {
 }
 
 void SimInit::LoadTransportUnits() {
-  QueryResult qr;
-  try {
-    qr = b_->Query("TransportUnits", NULL);
-  } catch (std::exception err) {
-    return;
-  }  // table doesn't exist (okay)
+  if (!HasTable(b_, "TransportUnits")) {
+    return;  // table doesn't exist (okay)
+  }
+  QueryResult qr = b_->Query("TransportUnits", NULL);
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     std::string name = qr.GetVal<std::string>("TransportUnitName", i);
@@ -245,16 +244,15 @@ void* SimInit::LoadPreconditioner(std::string name) {
   using std::string;
   void* precon = NULL;
   map<string, double> commod_order;
-  try {
-    QueryResult qr = b_->Query("CommodPriority", NULL);
-    for (int i = 0; i < qr.rows.size(); ++i) {
-      std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionPriority", i);
-      commod_order[commod] = order;
-    }
-  } catch (std::exception err) {
-    return NULL;
-  }  // table doesn't exist (okay)
+  if (!HasTable(b_, "CommodPriority")) {
+    return NULL;  // table doesn't exist (okay)
+  }
+  QueryResult qr = b_->Query("CommodPriority", NULL);
+  for (int i = 0; i < qr.rows.size(); ++i) {
+    std::string commod = qr.GetVal<string>("Commodity", i);
+    double order = qr.GetVal<double>("SolutionPriority", i);
+    commod_order[commod] = order;
+  }
 
   // actually create and return the preconditioner
   if (name == "greedy") {
@@ -387,6 +385,7 @@ void SimInit::LoadInitialAgents() {
   std::vector<Cond> conds;
   conds.push_back(Cond("EnterTime", "<=", t_));
   QueryResult qentry = b_->Query("AgentEntry", &conds);
+  bool have_exits = HasTable(b_, "AgentExit");
   std::map<int, int> parentmap;  // map<agentid, parentid>
   std::map<int, Agent*> unbuilt;  // map<agentid, agent_ptr>
   for (int i = 0; i < qentry.rows.size(); ++i) {
@@ -398,12 +397,12 @@ void SimInit::LoadInitialAgents() {
     std::vector<Cond> conds;
     conds.push_back(Cond("AgentId", "==", id));
     conds.push_back(Cond("ExitTime", "<", t_));
-    try {
+    if (have_exits) {
       QueryResult qexit = b_->Query("AgentExit", &conds);
       if (qexit.rows.size() != 0) {
         continue;  // agent was decomissioned before t_ - skip
       }
-    } catch (std::exception err) {}  // table doesn't exist (okay)
+    }
 
     // if the agent wasn't decommissioned before t_ create and init it
 
@@ -467,16 +466,16 @@ void SimInit::LoadInitialAgents() {
 }
 
 void SimInit::LoadInventories() {
+  if (!HasTable(b_, "AgentStateInventories")) {
+    return;  // table doesn't exist (okay)
+  }
   std::map<int, Agent*>::iterator it;
   for (it = agents_.begin(); it != agents_.end(); ++it) {
     Agent* m = it->second;
     std::vector<Cond> conds;
     conds.push_back(Cond("SimTime", "==", t_));
     conds.push_back(Cond("AgentId", "==", m->id()));
-    QueryResult qr;
-    try {
-      qr = b_->Query("AgentStateInventories", &conds);
-    } catch (std::exception err) {return;}  // table doesn't exist (okay)
+    QueryResult qr = b_->Query("AgentStateInventories", &conds);
 
     Inventories invs;
     for (int i = 0; i < qr.rows.size(); ++i) {
@@ -495,10 +494,10 @@ void SimInit::LoadBuildSched() {
     // what was scheduled later on will be scheduled again
     conds.push_back(Cond("SchedTime", "<", t_));
   }
-  QueryResult qr;
-  try {
-    qr = b_->Query("BuildSchedule", &conds);
-  } catch (std::exception err) {return;}  // table doesn't exist (okay)
+  if (!HasTable(b_, "BuildSchedule")) {
+    return;  // table doesn't exist (okay)
+  }
+  QueryResult qr = b_->Query("BuildSchedule", &conds);
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("BuildTime", i);
@@ -516,10 +515,10 @@ void SimInit::LoadDecomSched() {
     // what was scheduled later on will be scheduled again
     conds.push_back(Cond("SchedTime", "<", t_));
   }
-  QueryResult qr;
-  try {
-    qr = b_->Query("DecomSchedule", &conds);
-  } catch (std::exception err) {return;}  // table doesn't exist (okay)
+  if (!HasTable(b_, "DecomSchedule")) {
+    return;  // table doesn't exist (okay)
+  }
+  QueryResult qr = b_->Query("DecomSchedule", &conds);
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
-- 
2.43.0


From 5f062dc44a15c741b96dc16bfa75ade8de2f3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 42/46] fix: numbers out of range in the input file are
 rejected

---
 src/xml_file_loader.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 5543cc9..cca4762 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -433,7 +433,7 @@ void XMLFileLoader::LoadInitialAgents() {
         InfileTree* qe3 = qe2->SubTree("initialfacilitylist/entry", k);
         std::string fac_proto = qe3->GetString("prototype");
 
-        int number = atoi(qe3->GetString("number").c_str());
+        int number = Query<int>(qe3, "number");
         for (int z = 0; z < number; ++z) {
           Agent* fac = BuildAgent(fac_proto, inst);
         }
@@ -462,14 +462,11 @@ void XMLFileLoader::LoadControlParams() {
   }
 
   // get duration
-  std::string dur_str = qe->GetString("duration");
-  int dur = strtol(dur_str.c_str(), NULL, 10);
+  int dur = Query<int>(qe, "duration");
   // get start month
-  std::string m0_str = qe->GetString("startmonth");
-  int m0 = strtol(m0_str.c_str(), NULL, 10);
+  int m0 = Query<int>(qe, "startmonth");
   // get start year
-  std::string y0_str = qe->GetString("startyear");
-  int y0 = strtol(y0_str.c_str(), NULL, 10);
+  int y0 = Query<int>(qe, "startyear");
   // get decay mode
   std::string d = OptionalQuery<std::string>(qe, "decay", "manual");
 
-- 
2.43.0


From b9f90c30c7b790f14f729994490fa9a4c5743600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 43/46] fix: an unknown preconditioner is rejected also without
 commodities

---
 src/sim_init.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 5f46a9f..c3256d1 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -242,7 +242,11 @@ void SimInit::LoadTransportUnits() {
 void* SimInit::LoadPreconditioner(std::string name) {
   using std::map;
   using std::string;
-  void* precon = NULL;
+  if (name != "greedy") {
+    throw ValueError("The name of the preconditioner was not recognized, "
+                     "got '" + name + "'.");
+  }
+
   map<string, double> commod_order;
   if (!HasTable(b_, "CommodPriority")) {
     return NULL;  // table doesn't exist (okay)
@@ -255,14 +259,8 @@ void* SimInit::LoadPreconditioner(std::string name) {
   }
 
   // actually create and return the preconditioner
-  if (name == "greedy") {
-    precon = new GreedyPreconditioner(commod_order,
-                                      GreedyPreconditioner::REVERSE);
-  } else {
-    throw ValueError("The name of the preconditioner was not recognized, "
-                     "got '" + name + "'.");
-  }
-  return precon;
+  return new GreedyPreconditioner(commod_order,
+                                  GreedyPreconditioner::REVERSE);
 }
 
 ExchangeSolver* SimInit::LoadGreedySolver(bool exclusive,
-- 
2.43.0


From a6890e9996a6440e4a8a18ffb099f05d124c38ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:10 +0000
Subject: [PATCH 44/46] fix: explicit inventories with materials and products
 are recorded

---
 src/timer.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/timer.cc b/src/timer.cc
index cfb7da1..f3e7de6 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -135,15 +135,21 @@ void Timer::RecordInventories(Agent* a) {
   for (it2 = invs.begin(); it2 != invs.end(); ++it2) {
     std::string name = it2->first;
     std::vector<Resource::Ptr> mats = it2->second;
-    if (mats.empty() || ResCast<Material>(mats[0]) == NULL) {
-      continue; // skip non-material inventories
+    Material::Ptr m;
+    for (int i = 0; i < mats.size(); i++) {
+      if (ResCast<Material>(mats[i]) == NULL) {
+        continue;  // only materials are recorded
+      }
+      Material::Ptr clone = ResCast<Material>(mats[i]->Clone());
+      if (m == NULL) {
+        m = clone;
+      } else {
+        m->Absorb(clone);
+      }
     }
-
-    Material::Ptr m = ResCast<Material>(mats[0]->Clone());
-    for (int i = 1; i < mats.size(); i++) {
-      m->Absorb(ResCast<Material>(mats[i]->Clone()));
+    if (m != NULL) {
+      RecordInventory(a, name, m);
     }
-    RecordInventory(a, name, m);
   }
 }
 
-- 
2.43.0


From a417ac72c0e41586527a8a0edfbe8d624e850585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:39 +0000
Subject: [PATCH 45/46] fix: lifetime_force works for agents already past the
 new lifetime

---
 src/agent.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..6a106d5 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -113,17 +113,12 @@ void Agent::lifetime(int n_timesteps) {
 }
 
 void Agent::lifetime_force(int n_timesteps) {
-  try{
-    lifetime(n_timesteps);
-  }
-  catch (ValueError e){
-    if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
-    }
-    else{
-      lifetime_ = n_timesteps;    
-    }
+  if (enter_time_ != -1 && n_timesteps != -1 &&
+      enter_time_ + n_timesteps <= context()->time()) {
+    // the requested lifetime is already over: retire at the end of this step
+    n_timesteps = context()->time() - enter_time_ + 1;
   }
+  lifetime_ = n_timesteps;
 }
 
 bool Agent::AncestorOf(Agent* other) {
-- 
2.43.0


From 5560e9a0e91588db46b5dc89f376dc2fa3b68871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:39 +0000
Subject: [PATCH 46/46] fix: PrintChildren lists the descendants instead of
 recursing forever

---
 src/agent.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agent.cc b/src/agent.cc
index 6a106d5..9443cfd 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -206,12 +206,12 @@ std::vector<std::string> Agent::GetTreePrintOuts(Agent* m) {
   ss << m->prototype() << std::endl;
   ret.push_back(ss.str());
   std::set<Agent*>::iterator it;
-  for (it = children_.begin(); it != children_.end(); ++it) {
+  for (it = m->children_.begin(); it != m->children_.end(); ++it) {
     Agent* child = *it;
     std::vector<std::string> outs = GetTreePrintOuts(child);
     for (int j = 0; j < outs.size(); j++) {
       ss.str("");
-      ss << "\t" << outs.at(j) << std::endl;
+      ss << "\t" << outs.at(j);
       ret.push_back(ss.str());
     }
   }
-- 
2.43.0

