From 5327f21eedf842565f714fd2b5e180f234f555d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 01/11] fix: keep exact terminal nodes in the frontier cutset

A terminal node that is exact has no inexact child, so neither
compute_local_bounds nor compute_local_bounds_and_theta ever added it to
the frontier cutset: the solutions ending there were lost when the
relaxed diagram was not exact.
---
 src/mdd/with_all.rs     | 6 ++++++
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..9ad93ca 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -482,6 +482,12 @@ where
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
                 visit.push(id);
+
+                // an exact terminal node has no inexact child: it must be in the cutset itself
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
             }
 
             while !visit.is_empty() {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..0aa5fe5 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -544,6 +544,7 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                self.cutset.push(*node_id); // an exact terminal node has no inexact child
             }
         }
 
-- 
2.43.0


From bd6c4a4bdb4584058ac26fa3227facfe7cc66ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 02/11] fix: no overflow on the bound of a root node with a
 negative value

The solvers post the root with ub = isize::MAX; subtracting a negative
initial value overflows (panic in debug builds, wrapped bound otherwise).
---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 9ad93ca..d9079d8 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 0aa5fe5..d75fba7 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From aceefccd6940b6ddfb4cd4fb130d4f82e98be441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 03/11] fix: finish a compilation whose layer is empty

Returning early skipped the computation of the exact flag (left at its
initial value, true) and of the bounds: a restricted diagram whose kept
nodes are all dead ends was reported as exact, and the subproblem dropped
although it has solutions.
---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index d9079d8..999b24f 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,7 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break;
             }
 
             match input.comp_type {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d75fba7..a0cbcad 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,7 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break;
             }
 
             if depth > root_depth && !self.barriers[depth].read().is_empty() {
-- 
2.43.0


From 736603ebee4644f032bd6b069af50daaa1ab54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 04/11] fix: sound bounds after an interruption

The upper bound computed at the interruption ignored the fringe when some
node was being processed, could be lower than the best value, and was
overwritten with the lower bound by a thread that found the (cleared)
fringe empty.
---
 src/solver/barrier.rs  | 28 ++++++++++++++++++----------
 src/solver/parallel.rs | 28 ++++++++++++++++++----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..539868b 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -334,6 +334,12 @@ where
             critical.lowest_active_layer += 1;
         }
 
+        // Did another thread stop the search ? The fringe has been cleared, which
+        // does not mean that the problem is solved
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -341,23 +347,25 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
-                critical
+            // the optimum is either known already, or below a node being
+            // processed, or below a node of the fringe
+            let mut best_ub = critical.best_lb;
+            if critical.ongoing > 0 {
+                best_ub = best_ub.max(critical
                     .upper_bounds
                     .iter()
                     .copied()
                     .filter(|x| *x != isize::MAX)
                     .max()
-                    .unwrap_or(isize::MAX)
-            } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
-            };
+                    .unwrap_or(isize::MAX));
+            }
+            if let Some(nn) = critical.fringe.pop() {
+                best_ub = best_ub.max(nn.ub);
+            }
+            critical.best_ub = best_ub;
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..4f67c43 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -304,6 +304,12 @@ where
     {
         let mut critical = shared.critical.lock();
 
+        // Did another thread stop the search ? The fringe has been cleared, which
+        // does not mean that the problem is solved
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -311,23 +317,25 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
-                critical
+            // the optimum is either known already, or below a node being
+            // processed, or below a node of the fringe
+            let mut best_ub = critical.best_lb;
+            if critical.ongoing > 0 {
+                best_ub = best_ub.max(critical
                     .upper_bounds
                     .iter()
                     .copied()
                     .filter(|x| *x != isize::MAX)
                     .max()
-                    .unwrap_or(isize::MAX)
-            } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
-            };
+                    .unwrap_or(isize::MAX));
+            }
+            if let Some(nn) = critical.fringe.pop() {
+                best_ub = best_ub.max(nn.ub);
+            }
+            critical.best_ub = best_ub;
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From f12aaf823719fcd2180f1ea6692196d2b7420fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 05/11] fix: with_nb_threads also resizes the per-thread upper
 bounds

Asking for more threads than given to the constructor made the extra
threads index out of bounds.
---
 src/solver/barrier.rs  | 1 +
 src/solver/parallel.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 539868b..73461c2 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 4f67c43..fdacea4 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
-- 
2.43.0


From 028fc143d21db3f0cf1d34e2c1a6d39ecd03150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 06/11] fix: the gap is 0 exactly when the bounds agree, also
 without a solution

With no solution found the lower bound is isize::MIN: its absolute value
overflowed (a panic with overflow checks, a gap of 0 without), and equal
bounds of 0 gave NaN. Opposite bounds (-5 and 5) were reported as closed.
---
 src/xputils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..fc7fe6e 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,12 +169,12 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
-    let u = aub.max(alb);
-    let l = aub.min(alb);
+    if lb == ub {
+        return 0.0;
+    }
+    let u = ub.unsigned_abs().max(lb.unsigned_abs());
 
-    (u - l) as f32 / u as f32
+    ub.abs_diff(lb) as f32 / u as f32
 }
 
 pub fn resolution_header() {
-- 
2.43.0


From 445a1bd2959d28a60bca4dda3f6ef7fd2f40f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 07/11] fix: tsptw estimate counts only the cities still to be
 visited

The number of moves left included the return to the depot, which is accounted for
separately: in relaxed states one city too many was charged, and states with just
enough cities left were declared infeasible. It could also underflow when more
cities were mandatory than there were moves left.
---
 examples/tsptw/model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index ce66323..2cb67aa 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -190,7 +190,9 @@ impl Problem for Tsptw {
     }
 
     fn estimate(&self, state: &State) -> isize {
-        let mut complete_tour = self.nb_variables() - state.depth as usize;
+        // This is the number of cities that are still to be visited before the
+        // return to the depot (which is accounted for separately).
+        let mut complete_tour = (self.nb_variables() - 1).saturating_sub(state.depth as usize);
  
         let mut mandatory     = 0;
         let mut back_to_depot = usize::max_value();
@@ -198,6 +200,10 @@ impl Problem for Tsptw {
         let mut temp = vec![];
  
         for i in BitSetIter::new(&state.must_visit) {
+            if complete_tour == 0 {
+                // there are more cities to visit than there are moves left
+                return isize::min_value();
+            }
             complete_tour -= 1;
             mandatory += self.cheapest_edge[i];
             back_to_depot = back_to_depot.min(self.instance.distances[(i, 0)]);
-- 
2.43.0


From ec8cc95df50de6992c4ad99c8a99964b081fe23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 08/11] fix: tsptw relaxation accounts for the time gained by
 merging

Waiting times below a merged state are computed from its earliest time, so an arc
redirected to it from a later state kept a cost that made the bound too low.
---
 examples/tsptw/relax.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/examples/tsptw/relax.rs b/examples/tsptw/relax.rs
index 6102b8f..8622e40 100644
--- a/examples/tsptw/relax.rs
+++ b/examples/tsptw/relax.rs
@@ -142,7 +142,10 @@ impl Relaxation for TsptwRelax<'_> {
         }
     }
 
-    fn relax(&self, _: &State, _: &State, _: &State, _: Decision, cost: isize) -> isize {
-        cost
+    /// The merged state pretends that the salesman is not later than the earliest
+    /// of the states it stands for. The waiting times are computed from there on,
+    /// so an arc must not cost more than what it takes to be there that early.
+    fn relax(&self, _: &State, dest: &State, merged: &State, _: Decision, cost: isize) -> isize {
+        cost + (dest.elapsed.earliest() - merged.elapsed.earliest()) as isize
     }
 }
-- 
2.43.0


From 82f3a77ac548ebb9a7f806be130132ae3ca31c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 09/11] Revert "fix: tsptw relaxation accounts for the time
 gained by merging"

This reverts commit ec8cc95df50de6992c4ad99c8a99964b081fe23c.
---
 examples/tsptw/relax.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/examples/tsptw/relax.rs b/examples/tsptw/relax.rs
index 8622e40..6102b8f 100644
--- a/examples/tsptw/relax.rs
+++ b/examples/tsptw/relax.rs
@@ -142,10 +142,7 @@ impl Relaxation for TsptwRelax<'_> {
         }
     }
 
-    /// The merged state pretends that the salesman is not later than the earliest
-    /// of the states it stands for. The waiting times are computed from there on,
-    /// so an arc must not cost more than what it takes to be there that early.
-    fn relax(&self, _: &State, dest: &State, merged: &State, _: Decision, cost: isize) -> isize {
-        cost + (dest.elapsed.earliest() - merged.elapsed.earliest()) as isize
+    fn relax(&self, _: &State, _: &State, _: &State, _: Decision, cost: isize) -> isize {
+        cost
     }
 }
-- 
2.43.0


From 47b40fa113d1a215d65a060978e7bb4d66dbbdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 10/11] Revert "fix: tsptw estimate counts only the cities
 still to be visited"

This reverts commit 445a1bd2959d28a60bca4dda3f6ef7fd2f40f380.
---
 examples/tsptw/model.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index 2cb67aa..ce66323 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -190,9 +190,7 @@ impl Problem for Tsptw {
     }
 
     fn estimate(&self, state: &State) -> isize {
-        // This is the number of cities that are still to be visited before the
-        // return to the depot (which is accounted for separately).
-        let mut complete_tour = (self.nb_variables() - 1).saturating_sub(state.depth as usize);
+        let mut complete_tour = self.nb_variables() - state.depth as usize;
  
         let mut mandatory     = 0;
         let mut back_to_depot = usize::max_value();
@@ -200,10 +198,6 @@ impl Problem for Tsptw {
         let mut temp = vec![];
  
         for i in BitSetIter::new(&state.must_visit) {
-            if complete_tour == 0 {
-                // there are more cities to visit than there are moves left
-                return isize::min_value();
-            }
             complete_tour -= 1;
             mandatory += self.cheapest_edge[i];
             back_to_depot = back_to_depot.min(self.instance.distances[(i, 0)]);
-- 
2.43.0


From 1031e5bf901fb099ab5b030e871cf8d951b058c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:56 +0000
Subject: [PATCH 11/11] fix: a solver run again after an interruption starts
 afresh

---
 src/solver/barrier.rs  | 8 ++++++++
 src/solver/parallel.rs | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 73461c2..f268a4f 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -200,6 +200,14 @@ where
     fn initialize(&self) {
         let root = self.root_node();
         let mut critical = self.shared.critical.lock();
+        // forget what an earlier run, possibly interrupted, has left behind
+        critical.interrupted = false;
+        critical.fringe.clear();
+        critical.open_by_layer.iter_mut().for_each(|o| *o = 0);
+        critical.lowest_active_layer = 0;
+        for barrier in self.shared.barriers.iter() {
+            barrier.write().clear();
+        }
         critical.fringe.push(root);
         critical.open_by_layer[0] += 1;
     }
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index fdacea4..ef0d5de 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -182,7 +182,11 @@ where
     /// can pick it up and the processing can be bootstrapped.
     fn initialize(&self) {
         let root = self.root_node();
-        self.shared.critical.lock().fringe.push(root);
+        let mut critical = self.shared.critical.lock();
+        // forget what an earlier run, possibly interrupted, has left behind
+        critical.interrupted = false;
+        critical.fringe.clear();
+        critical.fringe.push(root);
     }
 
     fn root_node(&self) -> SubProblem<P::State> {
-- 
2.43.0

