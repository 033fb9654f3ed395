From 25ad250a93b8cc6374bd230e19a89f33057d902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 01/27] fix: generate_initial_sol yields an array for n_regions
 == 1 and rejects disconnected graphs

---
 region/util.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..bba90e4 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,10 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
-
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
         raise ValueError(
-- 
2.43.0


From 8a0957dbb280c244d350f5179981611a438b74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 02/27] fix: array_from_dict_values returns one row per
 requested key

---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index bba90e4..d10686d 100755
--- a/region/util.py
+++ b/region/util.py
@@ -74,7 +74,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     flat_arr = np.fromiter(it, dtype=dtype)
     if flat_output:
         return flat_arr
-    return flat_arr.reshape((len(dct), -1))
+    return flat_arr.reshape((len(sorted_keys), -1))
 
 
 def scipy_sparse_matrix_from_dict(neighbors):
-- 
2.43.0


From 9c9de5483186da80d6e622f0df0af7376df9f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 03/27] fix: fit_from_networkx orders the adjacency matrix like
 the attribute rows

---
 region/max_p_regions/exact.py      | 2 +-
 region/max_p_regions/heuristics.py | 2 +-
 region/p_regions/azp.py            | 4 ++--
 region/p_regions/exact.py          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..3718b63 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -330,7 +330,7 @@ class MaxPRegionsExact:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..d7077ed 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -290,7 +290,7 @@ class MaxPRegionsHeu:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..d223424 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -186,7 +186,7 @@ class AZP:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
             initial_labels = array_from_graph_or_dict(graph, initial_labels)
@@ -570,7 +570,7 @@ class AZPSimulatedAnnealing:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
             initial_labels = array_from_graph_or_dict(graph, initial_labels)
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..b962531 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -248,7 +248,7 @@ class PRegionsExact:
             See the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         self.fit_from_scipy_sparse_matrix(
             adj, attr, n_regions, method=method, solver=solver, metric=metric)
-- 
2.43.0


From 3045afb3d3af97c3a3c93c568a4ac7d77dd46c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 04/27] fix: fit_from_networkx accepts initial_labels (flatten
 them)

---
 region/p_regions/azp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index d223424..8636656 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -189,7 +189,8 @@ class AZP:
         adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).reshape(-1)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -573,7 +574,8 @@ class AZPSimulatedAnnealing:
         adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).reshape(-1)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
-- 
2.43.0


From acf5af329ce23b495137e33ec1caba74bc855b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 05/27] fix: ObjectiveFunctionCenter.update returns the true
 change for every reduction

---
 region/objective_function.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..281b957 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -145,21 +145,12 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
 
     def update(self, moving_area, recipient_region, labels, attr):
         donor_region = labels[moving_area]
-
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        before = self(labels, attr)
 
         labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        after = self(labels, attr)
         labels[moving_area] = donor_region
 
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
-        diff = overall_after - overall_before
+        diff = after - before
 
         return diff
-- 
2.43.0


From e998fe2bb1aff603de06691e99e00e49fe1b9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 06/27] fix: AllowMoveAZPMaxPRegions checks the recipient
 region for negative attributes

---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..05e7a1a 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -185,7 +185,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -193,7 +193,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From eb36403e764a757ff655e03f1764d0d9eab870dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 07/27] fix: MaxPRegionsHeu passes its random_state to the
 default local search

---
 region/max_p_regions/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d7077ed..626cab1 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -104,7 +104,7 @@ class MaxPRegionsHeu:
 
             # local search phase
             if self.local_search is None:
-                self.local_search = AZP()
+                self.local_search = AZP(random_state=self.random_state)
             self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
                 spatially_extensive_attr, threshold,
                 self.local_search.allow_move_strategy)
-- 
2.43.0


From 388b2829350ceaf20a056f2a417658acca456754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 08/27] fix: MaxPRegionsHeu restores the local search's move
 strategy after a fit

---
 region/max_p_regions/heuristics.py | 31 ++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 626cab1..bbe5edb 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -105,21 +105,24 @@ class MaxPRegionsHeu:
             # local search phase
             if self.local_search is None:
                 self.local_search = AZP(random_state=self.random_state)
+            move_strategy = self.local_search.allow_move_strategy
             self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
-                spatially_extensive_attr, threshold,
-                self.local_search.allow_move_strategy)
-            for partition in feasible_partitions:
-                self.local_search.fit_from_scipy_sparse_matrix(
-                    adj,
-                    attr,
-                    max_p,
-                    initial_labels=array_from_region_list(partition),
-                    objective_func=objective_func)
-                partition = self.local_search.labels_
-                obj_value = objective_func(partition, attr)
-                if obj_value < best_obj_value:
-                    best_obj_value = obj_value
-                    best_partition = partition
+                spatially_extensive_attr, threshold, move_strategy)
+            try:
+                for partition in feasible_partitions:
+                    self.local_search.fit_from_scipy_sparse_matrix(
+                        adj,
+                        attr,
+                        max_p,
+                        initial_labels=array_from_region_list(partition),
+                        objective_func=objective_func)
+                    partition = self.local_search.labels_
+                    obj_value = objective_func(partition, attr)
+                    if obj_value < best_obj_value:
+                        best_obj_value = obj_value
+                        best_partition = partition
+            finally:
+                self.local_search.allow_move_strategy = move_strategy
             self.labels_ = best_partition
 
     fit = copy_func(fit_from_scipy_sparse_matrix)
-- 
2.43.0


From d77863bc76aa81ef1e3489ab9e57c267d6311353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 09/27] fix: AZPSimulatedAnnealing keeps the threshold check of
 the max-p heuristic

---
 region/p_regions/azp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 8636656..4090d87 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -619,9 +620,14 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
+        sa_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term)
+        if isinstance(self.allow_move_strategy, AllowMoveAZPMaxPRegions):
+            # local search of the max-p heuristic: keep its threshold check
+            self.allow_move_strategy._decorated_strategy = sa_strategy
+        else:
+            self.allow_move_strategy = sa_strategy
         self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
         self.allow_move_strategy.register_move_made(self.move_made_alert)
 
-- 
2.43.0


From 87bdfab7cb8b48bfe658e786047db9f6b22e0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 10/27] fix: AZPSimulatedAnnealing does not carry visited
 solutions over to the next fit

---
 region/p_regions/azp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 4090d87..d6c4c68 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -634,6 +634,8 @@ class AZPSimulatedAnnealing:
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
             random_state=self.random_state)
+        self.visited = []
+        self.move_made = False
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
-- 
2.43.0


From 23feea6437dd247b8742dc4aed6bdf44b864c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 11/27] fix: tabu moves never empty a region

---
 region/p_regions/azp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index d6c4c68..644cc13 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -723,7 +723,9 @@ class AZPTabu(AZP, abc.ABC):
     def _make_move(self, area, new_region, labels, adj):
         old_region = labels[area]
         make_move(area, new_region, labels)
-        if not boolean_assert_feasible(labels, adj): # If the move breaks the contiguity, revert it!
+        # If the move empties a region or breaks the contiguity, revert it!
+        if old_region not in labels or \
+                not boolean_assert_feasible(labels, adj):
             make_move(area, old_region, labels) # Revert Move!
             reverse_move = Move(area, new_region, old_region)
             self.tabu.append(reverse_move)
-- 
2.43.0


From d8de436829fb0f6caf4cdb9f4f373f6a48337215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 12/27] fix: AZPBasicTabu terminates when a solution was
 visited repetitions_before_termination times

---
 region/p_regions/azp.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 644cc13..13ad94c 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -807,12 +807,11 @@ class AZPBasicTabu(AZPTabu):
         labels = initial_clustering
 
         visited = []
-        stop = False
         while True:
             # added termination condition (not in Openshaw & Rao (1995))
             label_tup = tuple(labels)
             if visited.count(label_tup) >= self.reps_before_termination:
-                stop = True
+                break
 
             visited.append(label_tup)
 
@@ -859,17 +858,12 @@ class AZPBasicTabu(AZPTabu):
                     
                         self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
                         
-                if stop:
-                        break
-                else:
-                    # step 4: If there is no improving move and no aspirational
-                    # move, then make the best move even if it is nonimproving
-                    # (that is, results in a worse value of the objective
-                    # function).
-                    if stop:
-                        break
-                    if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
-                        self._make_move(best_move.area, best_move.new_region, labels, adj)
+                # step 4: If there is no improving move and no aspirational
+                # move, then make the best move even if it is nonimproving
+                # (that is, results in a worse value of the objective
+                # function).
+                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                    self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
 
-- 
2.43.0


From beaf98d874d4585b2c29270e2ac6c26787b3dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 13/27] fix: AZPReactiveTabu copes with having no (more)
 possible moves

---
 region/p_regions/azp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 13ad94c..c65247a 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -980,7 +980,7 @@ class AZPReactiveTabu(AZPTabu):
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
             # step 5: Make the move if possible. Update the tabu status.
-            if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+            if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
             # step 6: Look up the current zoning system in a list of all zoning
             # systems visited so far during the search. If not found then go
@@ -1015,8 +1015,9 @@ class AZPReactiveTabu(AZPTabu):
                         last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
-                        possible_moves.pop(best_move_index)
-                        for _ in range(p):
+                        if best_move_index is not None:
+                            possible_moves.pop(best_move_index)
+                        for _ in range(min(p, len(possible_moves))):
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
-- 
2.43.0


From 77e8997f7e1338cef52dab92e06aeb68bb917886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 14/27] fix: AZPReactiveTabu uses an integer tabu length

---
 region/p_regions/azp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index c65247a..0cdfb70 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1030,7 +1030,7 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    self.tabu = deque(self.tabu, math.ceil(1.1 * self.tabu.maxlen))
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
-- 
2.43.0


From cbfde999e08cdf652e51f734f0c9fb5922fac302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 15/27] fix: AZPReactiveTabu does not mix up the visited
 solutions of components and fits

---
 region/p_regions/azp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 0cdfb70..696d579 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -934,6 +934,9 @@ class AZPReactiveTabu(AZPTabu):
             Refer to the return value in :meth:`AZP._azp_connected_component`.
         """
         self.reset_tabu(1)
+        self.visited = []
+        self.avg_it_until_rep = 1
+        self.rep_counter = 1
         # if there is only one region in the initial solution, just return it.
         distinct_regions = list(np.unique(initial_labels))
         if len(distinct_regions) == 1:
-- 
2.43.0


From 64571d637cab21be5db461960ba70f588e8675b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 16/27] fix: flow model admits regions with n_areas - n_regions
 + 1 areas

---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index b962531..9332aa8 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -386,7 +386,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= y[i, k] - (n_areas - n_regions + 1) * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
-- 
2.43.0


From 4fcd8c25c96cfc2058fd8f3012313a14e2f422f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 17/27] fix: order model admits regions with n_areas -
 n_regions + 1 areas

---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 9332aa8..1ba03a1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -439,7 +439,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-- 
2.43.0


From 6adc097c0764dda71597ba4fd528156c90e75ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 18/27] fix: tree model admits regions with n_areas - n_regions
 + 1 areas

---
 region/p_regions/exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 1ba03a1..80de003 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -565,12 +565,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     # (9) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + (n_areas - n_regions + 1) * x[i, j] \
+                    + (n_areas - n_regions - 1) * x[j, i] \
+                    <= n_areas - n_regions
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= n_areas - n_regions + 1
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From 5eb88932ca3fb03c5fafa3e5e78fc3227e05c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 19/27] fix: tree model reads the regions off the chosen links

---
 region/p_regions/exact.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 80de003..7ed9add 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -581,18 +581,11 @@ def _tree(adj, attr, n_regions, solver, metric):
     solver = get_solver_instance(solver)
     prob.solve(solver)
 
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
-
+    # the areas connected by the chosen links form a region
+    forest = nx.Graph()
+    forest.add_nodes_from(I)
+    forest.add_edges_from((i, j) for i in I for j in neighbors(adj, i)
+                          if x[i, j].varValue == 1)
+    regions = list(nx.connected_components(forest))
     result = array_from_region_list(regions)
     return result
-- 
2.43.0


From 1441d9ccf5d1664f8fcdc814895b96018a9bf078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 20/27] fix: PRegionsExact uses the distance of the attribute
 vectors for multiple attributes

---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 7ed9add..e7fba1e 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From 8b43b2f7fa7b718b892ef0fbcd400bea0613ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 21/27] fix: MaxPRegionsExact copes with all distances being
 zero

---
 region/max_p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 3718b63..cb52fa3 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -89,7 +89,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
+        h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From eb8c7663150981e9586d608d2512544f54f5725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 22/27] fix: exact methods raise ValueError if there is no
 feasible solution

---
 region/max_p_regions/exact.py |  4 +++-
 region/p_regions/exact.py     |  6 +++++-
 region/util.py                | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index cb52fa3..43b723a 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -9,7 +9,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
+    array_from_graph_or_dict, check_solution_found, check_solver, copy_func,\
+    get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -156,6 +157,7 @@ class MaxPRegionsExact:
         # Solve the optimization problem
         solver = get_solver_instance(solver)
         prob.solve(solver=solver)
+        check_solution_found(prob)
         result = np.zeros(n_areas)
         for i in I:
             for k in K:
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index e7fba1e..cc260a9 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -8,7 +8,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
+    array_from_graph_or_dict, array_from_region_list, check_solution_found,\
+    check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -403,6 +404,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_found(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -489,6 +491,7 @@ def _order(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_found(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -580,6 +583,7 @@ def _tree(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_found(prob)
 
     # the areas connected by the chosen links form a region
     forest = nx.Graph()
diff --git a/region/util.py b/region/util.py
index d10686d..997114f 100755
--- a/region/util.py
+++ b/region/util.py
@@ -906,3 +906,22 @@ def get_solver_instance(solver_string):
     }[solver_string.lower()]
     solver_instance = solver()
     return solver_instance
+
+
+def check_solution_found(prob):
+    """
+    Parameters
+    ----------
+    prob : :class:`pulp.LpProblem`
+        A problem whose :meth:`solve` method was called.
+
+    Raises
+    ------
+    exc : `ValueError`
+        If the solver did not find an optimal solution.
+    """
+    if prob.status != pulp.LpStatusOptimal:
+        raise ValueError(
+            "No optimal solution found. Status of the optimization problem: "
+            "{}.".format(pulp.LpStatus[prob.status])
+        )
-- 
2.43.0


From 00045be53a8147e5070ae7f436fc9675c606f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 23/27] fix: Spanning_Forest affinity metric can be called with
 a center

---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..cf79054 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(affinity(X, Y))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 9909b4cf19cf2af6edf1a37c45c91d02c5f5179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 24/27] fix: Spanning_Forest.score works for any labels

---
 region/skater/skater.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index cf79054..eb547fb 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -168,15 +168,14 @@ class Spanning_Forest(object):
                 raise ValueError('Labels not provided and MSF_Prune object has not been fit to data yet.')
         assert data.shape[0] == len(labels), "Length of label array ({}) does not match "\
                                              "length of data ({})! ".format(labels.shape[0], data.shape[0])
-        _, subtree_quorums = np.unique(labels, return_counts=True)
-        n_subtrees = len(subtree_quorums)
+        subtree_labels, subtree_quorums = np.unique(labels, return_counts=True)
         if (subtree_quorums < quorum).any():
             return np.inf
         part_scores = [self.reduction(self.metric(X=data[labels==l],
                                                   Y=self.center(data[labels==l], 
                                                                 axis=0).reshape(1,-1)
                                                  )
-                                     ) for l in range(n_subtrees)]
+                                     ) for l in subtree_labels]
         return self.reduction(part_scores).item()
     
     def find_cut(self, MSF, data=None, quorum=-np.inf, 
-- 
2.43.0


From 522e191f480a62b80fe5ff99c71f5077914230a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 25/27] fix: Spanning_Forest.fit restores the transformation of
 the weights object

---
 region/skater/skater.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index eb547fb..1ac5a65 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,8 +72,11 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
+        original_transform = W.transform
         W.transform = 'b'
-        W = W.sparse
+        W_sparse = W.sparse
+        W.transform = original_transform
+        W = W_sparse
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From a268d040cde236f02194e3a0ca481b02050d05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 26/27] fix: Spanning_Forest.fit keeps links between identical
 neighbors

---
 region/skater/skater.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 1ac5a65..0a42303 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -81,6 +81,10 @@ class Spanning_Forest(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
+        # csgraph drops links of weight zero, so keep those between identical
+        # neighbors
+        attribute_kernel = np.where(attribute_kernel == 0,
+                                    np.finfo(float).tiny, attribute_kernel)
         dissim = W.multiply(attribute_kernel)
         dissim.eliminate_zeros()
         end_W = time.time() - start_W
-- 
2.43.0


From b1bb30a96471cc92c77b43ba8802754470500194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 27/27] fix: MaxPRegionsHeu creates its default local search on
 construction, not in the first fit

---
 region/max_p_regions/heuristics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index bbe5edb..83c31e7 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -31,6 +31,8 @@ class MaxPRegionsHeu:
         """
         self.n_regions = None
         self.labels_ = None
+        if local_search is None:
+            local_search = AZP(random_state=random_state)
         self.local_search = local_search
         self.random_state = random_state
         random.seed(random_state)
@@ -103,8 +105,6 @@ class MaxPRegionsHeu:
         for partition in feasible_partitions:
 
             # local search phase
-            if self.local_search is None:
-                self.local_search = AZP(random_state=self.random_state)
             move_strategy = self.local_search.allow_move_strategy
             self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
                 spatially_extensive_attr, threshold, move_strategy)
-- 
2.43.0

