From 975c7fa1292c8559d175d1b5dcc2742de8179265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:36 +0000
Subject: [PATCH 01/70] fix: t_start/t_stop and integral_time_grid fail with
 numpy>=2.5 (int() of a 1-element array)

---
 src/flowstab/network_clustering.py | 2 +-
 src/flowstab/temporal_network.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..e47bdb7 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1903,7 +1903,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From 21fd8b0e1b631e196aa0fa998b513440b328eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:50 +0000
Subject: [PATCH 02/70] fix: run_laplacians_transmats passes a verbose argument
 the network methods no longer take

---
 src/flowstab/scripts/run_laplacians_transmats.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 2b17b09..8e605cc 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -204,8 +204,7 @@ if not compute_lin_transmat and not compute_expm_transmat:
 reverse_time_list = [False, True]
 
 # arguments for compute_transition_matrices
-args = {"verbose":verbose,
-        "save_intermediate": compute_intermediate,
+args = {"save_intermediate": compute_intermediate,
         "reverse_time" : None}
 
 #%%
@@ -352,7 +351,7 @@ def worker(net_start_stop):
 
             print(f"PID {os.getpid()}:",
                   f" computing Laplacians t_start={t_start}, t_stop={t_stop}")
-            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop, verbose=verbose)
+            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop)
 
             print(f"PID {os.getpid()}:",
                   f" k_start={net._k_start_laplacians}, k_stop={net._k_stop_laplacians}")
@@ -362,8 +361,7 @@ def worker(net_start_stop):
 
             if compute_lin_transmat:
                 print(f"PID {os.getpid()}:", " computing stationary dists")
-                net._compute_stationary_transition(verbose=verbose,
-                                                   use_sparse_stoch=use_sparse_stoch)
+                net._compute_stationary_transition(use_sparse_stoch=use_sparse_stoch)
 
                 t2 = time.time()
                 print(f"PID {os.getpid()}:",f"finished in {t2 - t1:.2f}")
@@ -390,7 +388,7 @@ def worker(net_start_stop):
                 # first compute inter trans matrices (does not depend on time direction)
                 if compute_expm_transmat:
                     print(f"PID {os.getpid()}:", " computing inter transition matrices")
-                    net.compute_inter_transition_matrices(lamda=lamda,verbose=verbose,
+                    net.compute_inter_transition_matrices(lamda=lamda,
                                                           use_sparse_stoch=use_sparse_stoch,
                                                           dense_expm=use_dense_expm)
 
@@ -416,7 +414,6 @@ def worker(net_start_stop):
                 if compute_lin_transmat:
                     print(f"PID {os.getpid()}:", " computing linear inter transition matrices")
                     net.compute_lin_inter_transition_matrices(lamda=lamda,
-                                                              verbose=verbose,
                                                               t_s=t_s,
                                                               use_sparse_stoch=use_sparse_stoch)
 
-- 
2.43.0


From b2505f2329f98d999d5df6e16708562141673f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:27 +0000
Subject: [PATCH 03/70] fix: row normalisation turned csr index arrays into
 int64, breaking the following matrix operations

---
 src/flowstab/sparse_stoch_mat.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..1c59a19 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -223,10 +223,8 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
@@ -571,16 +569,15 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #             X.data[X.indptr[i]:X.indptr[i+1]] -= row_sum_tmp/(X.indptr[i+1]-X.indptr[i])
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
-        X.indptr = X.indptr.astype(np.int64, copy=False)
-        X.indices = X.indices.astype(np.int64, copy=False)
+        indptr = X.indptr.astype(np.int64, copy=False)
         if isinstance(row_sum, float):
-            _css.inplace_csr_row_normalize(X.data, X.indptr,
+            _css.inplace_csr_row_normalize(X.data, indptr,
                                                 X.shape[0], row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
             assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
 
-            _css.inplace_csr_row_normalize_array(X.data, X.indptr,
+            _css.inplace_csr_row_normalize_array(X.data, indptr,
                                                     X.shape[0], row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
-- 
2.43.0


From 1d9cb5873cba715b37abf5de0989e501d0a5e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:12 +0000
Subject: [PATCH 04/70] fix: networks built from an events_table or CSV path
 did not relabel nodes (CSV raised) and modified the caller's DataFrame

---
 src/flowstab/temporal_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..ac77fb9 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -175,7 +175,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # do not modify the DataFrame of the caller
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -185,10 +186,13 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+                for col in (self._SOURCES, self._TARGETS):
+                    self.events_table[col] = self.events_table[col].map(
+                        self.label_to_node_dict)
             else:
                 self.node_to_label_dict=node_to_label_dict
 
-- 
2.43.0


From 9728afbb22a535adc725d0080ae16653eb990b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:43 +0000
Subject: [PATCH 05/70] fix: the first end of two overlapping events of a pair
 disconnected the pair in the Laplacians

---
 src/flowstab/temporal_network.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ac77fb9..67331cf 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -23,6 +23,7 @@ import gzip
 import os
 import pickle
 import time
+from collections import Counter
 from functools import partial
 
 import numpy as np
@@ -1196,6 +1197,8 @@ class ContTempNetwork:
         Dm1 = I.copy()
         # self loop matrix
         S = I.copy()
+        # number of ongoing events between each pair of nodes
+        num_active = Counter()
 
 
         self.laplacians = []
@@ -1236,6 +1239,9 @@ class ContTempNetwork:
             for event in self.events_table.loc[mask_ini][["source_nodes",
                                           "target_nodes"]].itertuples():
 
+                pair = frozenset((event.source_nodes, event.target_nodes))
+                num_active[pair] += 1
+
                 if A[event.source_nodes, event.target_nodes] != 1:
                         A[event.source_nodes, event.target_nodes] = 1
                         A[event.target_nodes, event.source_nodes] = 1
@@ -1283,8 +1289,11 @@ class ContTempNetwork:
 
             #update instantaneous matrices
             for event, is_start in zip(events_k, is_starts):
+                pair = frozenset((event.source_nodes, event.target_nodes))
+                num_active[pair] += 1 if is_start else -1
+
                 # unweighted, undirected
-                if is_start:
+                if num_active[pair] > 0:
                     # if they are not already connected (can happen if the
                     # opposite event overlap)
                     if A[event.source_nodes, event.target_nodes] != 1:
-- 
2.43.0


From 1e2a0b2416bf337db187317af2d054fd7116e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:00 +0000
Subject: [PATCH 06/70] fix: merging overlapping events lost activity of nested
 events and failed on non-default event indices

---
 src/flowstab/temporal_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 67331cf..fe7cf32 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1827,9 +1827,10 @@ class ContTempNetwork:
                     # ev1
                     if ev2.starting_times < ev1.ending_times:
                         #merge
-                        events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        events_to_keep[self.events_table.index == ev2.Index] = False
+                        ending_time = max(ev1.ending_times, ev2.ending_times)
+                        self.events_table.loc[ev1.Index,"ending_times"] = ending_time
+                        ev1 = ev1._replace(ending_times=ending_time)
                         merged += 1
                     else:
                         ev1 = ev2
@@ -1844,6 +1845,9 @@ class ContTempNetwork:
 
         self.num_nodes = self.node_array.shape[0]
 
+        self.events_table["durations"] = self.events_table.ending_times - \
+                            self.events_table.starting_times
+
         self.num_events = self.events_table.shape[0]
 
         self.start_time = self.events_table.starting_times.min()
-- 
2.43.0


From 31e66d8618ba8ff2087680e77b4a2728850588b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:13 +0000
Subject: [PATCH 07/70] fix: transition matrices of a previous time window were
 reused after recomputing the Laplacians

---
 src/flowstab/temporal_network.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fe7cf32..7eca6b9 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1144,6 +1144,13 @@ class ContTempNetwork:
         return t, k
 
 
+    def _reset_transition_matrices(self):
+        """Remove everything that was computed from previous Laplacians"""
+        for attr in ("inter_T", "inter_T_lin", "delta_inter_T",
+                     "delta_inter_T_lin", "_stationary_trans", "T", "T_lin"):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
         """Computes the laplacian matrices and saves them in `self.laplacians`
@@ -1201,6 +1208,7 @@ class ContTempNetwork:
         num_active = Counter()
 
 
+        self._reset_transition_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
@@ -2027,6 +2035,7 @@ class ContTempInstNetwork(ContTempNetwork):
         S = I.copy()
 
 
+        self._reset_transition_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
-- 
2.43.0


From 4a5b906902f0878903b4388930210261b5778d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:13 +0000
Subject: [PATCH 08/70] fix: flow clustering of a t_start/t_stop window used
 the times of the whole network

---
 src/flowstab/flow_stability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..7b31875 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -648,7 +648,9 @@ class FlowStability(metaclass=StateMeta, states=States):
             kwargs.update(dict(
                 T_inter_list=[T.toarray()
                               for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                time_list=self.temporal_network.times[
+                    self.temporal_network._k_start_laplacians:
+                    self.temporal_network._k_stop_laplacians + 1],
             ))
             if self.time_direction <= 0:
                 logger.info(
-- 
2.43.0


From f9d28a56df285108130c60a265ae52e9fdfacf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:13 +0000
Subject: [PATCH 09/70] fix: compute_inter_transition_matrices failed when
 given a time_scale or lamda argument

---
 src/flowstab/flow_stability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 7b31875..1f0d60b 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -521,9 +521,9 @@ class FlowStability(metaclass=StateMeta, states=States):
 
         _time_scale = None
         if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
+            _time_scale = kwargs.pop('time_scale')
         elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+            _time_scale = 1 / kwargs['lamda']
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From 73e1592c7ebe0654df2bd818e72de5d26861631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 10/70] fix: addition and subtraction of SparseStochMat leaked
 their sparse accumulator

---
 src/flowstab/_cython_sparse_stoch.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..f20a992 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -207,7 +207,8 @@ def stoch_mat_add(
             
         ic += 1
 
-    
+    del spa
+
     return (size, Cdata, Cindices, Cindptr, Cnz_rowcols, Adiag_val + Bdiag_val)
 
 
@@ -319,7 +320,8 @@ def stoch_mat_sub(
             
         ic += 1
 
-    
+    del spa
+
     return (size, Cdata, Cindices, Cindptr, Cnz_rowcols, Adiag_val - Bdiag_val)     
     
 def test_set(int[:] arr):
-- 
2.43.0


From b74705b946a1fc6655c6479403040e626cf020d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 11/70] fix: SparseStochMat.from_full_csr_matrix wrote out of
 bounds when a dropped row had no stored value

---
 src/flowstab/_cython_sparse_stoch.pyx      | 6 +++++-
 src/flowstab/_cython_sparse_stoch_subst.py | 2 +-
 src/flowstab/_cython_subst.py              | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index f20a992..9775ccf 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -606,9 +606,13 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
         
         cdef Py_ssize_t k, its, tsrow, tbrow, i, nzr        
         
-        cdef Py_ssize_t Ts_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+        cdef Py_ssize_t Ts_nnz = 0
         cdef Py_ssize_t Ts_size = nz_rowcols.shape[0]
 
+        # rows that are not kept do not always have exactly one stored value
+        for tsrow in range(Ts_size):
+            tbrow = nz_rowcols[tsrow]
+            Ts_nnz += Tf_indptr[tbrow+1] - Tf_indptr[tbrow]
         
         cdef double[:] Ts_data = np.zeros(Ts_nnz, dtype=np.float64)
         cdef int[:] Ts_indices = -1*np.ones(Ts_nnz, dtype=np.int32)
diff --git a/src/flowstab/_cython_sparse_stoch_subst.py b/src/flowstab/_cython_sparse_stoch_subst.py
index 624f887..3a0e0ad 100644
--- a/src/flowstab/_cython_sparse_stoch_subst.py
+++ b/src/flowstab/_cython_sparse_stoch_subst.py
@@ -3,7 +3,7 @@ import numpy as np
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..1584229 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -9,7 +9,7 @@ from scipy.sparse import (
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
-- 
2.43.0


From 40786dcc6be9711d1e5fad344ffc01dd29e0dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:09 +0000
Subject: [PATCH 12/70] fix: SparseStochMat given unsorted nz_rowcols assigned
 the rows of T_small to the wrong nodes

---
 src/flowstab/sparse_stoch_mat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 1c59a19..694b60b 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -136,6 +136,10 @@ class SparseStochMat:
                                    np.array(indptr, dtype=np.int32)),
                                   shape=(len(nz_rowcols),
                                          len(nz_rowcols)))
+        if not np.array_equal(nz_rowcols, self.nz_rowcols):
+            # bring T_small in the order of the sorted nz_rowcols
+            order = np.argsort(nz_rowcols)
+            self.T_small = self.T_small[order][:,order]
         self.diag_val = diag_val
         self.shape = (size,size)
 
-- 
2.43.0


From f0d6c066ede954e0cdb08944adc04bf55919ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:28 +0000
Subject: [PATCH 13/70] fix: numpy arrays on the left of +, - and @ with a
 SparseStochMat raised instead of using the full matrix

---
 src/flowstab/sparse_stoch_mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 694b60b..560351c 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -85,6 +85,9 @@ class SparseStochMat:
         
     """
 
+    # let numpy arrays on the left defer to __radd__, __rsub__ and __rmatmul__
+    __array_priority__ = 10.1
+
     def __init__(self, size:int, data:NDArray, indices:NDArray, indptr:NDArray,
                  nz_rowcols:NDArray, diag_val:float=1.0):
         """Initialize SparseStochMat
-- 
2.43.0


From da00218d3648c35bf92adf743ada11eb6afe559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 14/70] fix: Louvain started from a given partition (or run
 again) moved the wrong nodes and lost stability

---
 src/flowstab/network_clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e47bdb7..63c31d8 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -950,6 +950,12 @@ class BaseClustering:
                 print("       PID ", os.getpid(),
                       f" finished meta loop: {n_meta_loop}, number of total sub loops: {n_sub_loops}")
 
+            if n_meta_loop == 1:
+                # the meta nodes of the first loop are the original nodes
+                self.source_part = Partition(self.num_nodes)
+                if self.target_part is not None:
+                    self.target_part = Partition(self.num_nodes)
+
             #update original node partition
             self._update_original_partition(meta_clustering)
 
-- 
2.43.0


From 6ce6ba3ef31e04af3d772926551cbb39f6c6de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 15/70] fix: jaccard_distance did not return the distance

---
 src/flowstab/network_clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 63c31d8..83ed1db 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2188,6 +2188,12 @@ def jaccard_distance(clusters1, clusters2):
         if same_in_1 and not same_in_2:
             diff += 1
 
+    # no pair of nodes is together in any of the two clusterings
+    if same + diff == 0:
+        return 0.0
+
+    return diff/(same + diff)
+
 
 def norm_mutual_information(clusters1, clusters2):
     """Returns the normalized mutial information between two
-- 
2.43.0


From 9a858cedc0873f9eb0e19895e20f6591ea6c4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 16/70] fix: static_clustering of a directed graph could use an
 eigenvector that is not the stationary solution

---
 src/flowstab/network_clustering.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 83ed1db..67439ba 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2462,7 +2462,8 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
 
         if is_csr:
 
-            w, v = eigs(Tstat.T, k=1, which="LM")
+            # 1 is the eigenvalue with the largest real part
+            w, v = eigs(Tstat.T, k=1, which="LR")
 
             assert np.allclose(np.abs(w[0]) ,1)
 
@@ -2472,9 +2473,12 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         else:
             w, v = np.linalg.eig(Tstat.T)
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            # 1 is the eigenvalue with the largest real part
+            idx = np.argmax(w.real)
+
+            assert np.allclose(np.abs(w[idx]) ,1)
 
-            pi = v[:,0].real
+            pi = v[:,idx].real
             pi = pi/pi.sum()
     else:
         pi = degs/degs.sum()
-- 
2.43.0


From 596fda8053fdcba2bffb6d1139f5767bea9352ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 17/70] fix: dense flow integral clustering used the wrong
 transition matrix for grids not starting at the first time or with repeated
 steps

---
 src/flowstab/network_clustering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 67439ba..49093ca 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2129,8 +2129,10 @@ class FlowIntegralClustering:
         else:
 
             if self.is_nparray:
+                # end of the k-th integral
+                k_int = sorted({kg for kg in self._k_integral_grid if kg > 0})[k]
                 self.clustering[k] = Clustering(p1=self.p1, p2=None,
-                                  T=self.T_list[self._k_integral_grid[k+1]-1],
+                                  T=self.T_list[k_int-1],
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
                                   node_to_cluster_dict=node_to_cluster_dict,
-- 
2.43.0


From 5ac4e215f497ac59ca607678acf093b215288b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 18/70] fix: norm_var_information failed on node_to_cluster
 dictionaries with unused cluster numbers

---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 49093ca..db5ac0a 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2313,6 +2313,10 @@ def norm_var_information(clusters1, clusters2, N=None, use_clust_list=False):
         # make sure it is a list of sets
         clusters2 = [set(c) for c in clusters2]
 
+    # dictionaries with unused cluster numbers give empty clusters
+    clusters1 = [c for c in clusters1 if len(c) > 0]
+    clusters2 = [c for c in clusters2 if len(c) > 0]
+
     # num nodes
     if N is None:
         N = sum(len(clust) for clust in clusters1)
-- 
2.43.0


From aedc34046028cff03fd546f4c1daee98d2898183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:12 +0000
Subject: [PATCH 19/70] fix: stability change of moving a node with an empty
 row read the diagonal from the next row (or out of bounds)

---
 src/flowstab/_cython_sparse_stoch.pyx | 26 ++++++++++++++------------
 src/flowstab/_cython_subst.py         | 26 ++++++++++++++------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 9775ccf..f7da598 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -777,13 +777,14 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    if j < PTindptr[k+1]: # if row k is not empty
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
 
@@ -867,13 +868,14 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    if j < PTindptr[k+1]: # if row k is not empty
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
     
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 1584229..6c0c1a4 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -419,13 +419,14 @@ def compute_delta_PT_moveto(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    if j < PTindptr[k+1]: # if row k is not empty
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
 
@@ -500,13 +501,14 @@ def compute_delta_PT_moveout(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    if j < PTindptr[k+1]: # if row k is not empty
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
 
-- 
2.43.0


From 7ee2a08113a9f0717a38b8e8c17aa3187346c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:48 +0000
Subject: [PATCH 20/70] fix: parallel sparse clustering treated every
 covariance as symmetric

---
 src/flowstab/parallel_clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..84c6984 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -90,7 +90,8 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
-- 
2.43.0


From a17cdd8643b6efd1141ff2e796f01157b53e3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:37 +0000
Subject: [PATCH 21/70] fix: find_spectral_gap removed the stationary solution
 with a non-symmetric projector and returned wrong gaps

---
 src/flowstab/temporal_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 7eca6b9..d0f7d7e 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2417,11 +2417,11 @@ def find_spectral_gap(L):
 
     Lsym = D12 @ Lcsr @ Dm12
 
-    # stationary solution
-    Pi = np.vstack([degs/degs.sum()]*L.shape[0])
+    # projector on the stationary solution (eigenvector of Lsym with eigenvalue 0)
+    Pi = np.outer(np.sqrt(degs),np.sqrt(degs))/degs.sum()
 
-
-    gap = eigsh(Lsym.toarray()-Pi,1,sigma=0,
+    # moves the eigenvalue 0 to 2, where it is larger than the gap
+    gap = eigsh(Lsym.toarray()+2*Pi,1,sigma=0,
                 return_eigenvectors=False)
 
     return gap
-- 
2.43.0


From 3be542d43bed9ab64b633a6690396d4ce4827877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:37 +0000
Subject: [PATCH 22/70] fix: set_to_zeroes ignored use_absolute_value for
 SparseStochMat

---
 src/flowstab/temporal_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index d0f7d7e..bd84338 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2676,7 +2676,8 @@ def set_to_zeroes(Tcsr, tol=1e-8, relative=True, use_absolute_value=False):
     """
     if tol is not None:
         if isinstance(Tcsr, SparseStochMat):
-            Tcsr.set_to_zeroes(tol, relative=relative)
+            Tcsr.set_to_zeroes(tol, relative=relative,
+                               use_absolute_value=use_absolute_value)
         elif isinstance(Tcsr, (csr_matrix,csc_matrix)):
             if Tcsr.data.size > 0:
                 if relative:
-- 
2.43.0


From 01dc1718bf7bca0285c37bf9ea734ef6cc956cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:37 +0000
Subject: [PATCH 23/70] fix: compute_subspace_expm_parallel returned the
 exponential of the transpose for csr input

---
 src/flowstab/parallel_expm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/parallel_expm.py b/src/flowstab/parallel_expm.py
index 29ed454..5fccef7 100755
--- a/src/flowstab/parallel_expm.py
+++ b/src/flowstab/parallel_expm.py
@@ -176,6 +176,10 @@ def compute_subspace_expm_parallel(A, n_comp=None, comp_labels=None, verbose=Fal
         matrix exponential of A
             
     """
+    if not isspmatrix_csc(A):
+        # the workers read A as csc
+        A = csc_matrix(A)
+
     num_nodes = A.shape[0]
 
     # otherwise 0 values may count as an edge
-- 
2.43.0


From 6f5bffea85168c5b06371018a341c06083fabe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 24/70] fix: saving inter transition matrices as differences
 dropped all negative differences

---
 src/flowstab/temporal_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index bd84338..225383b 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1889,7 +1889,7 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol)
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1917,7 +1917,8 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            set_to_zeroes(M, tol=tol,
+                                          use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
-- 
2.43.0


From 53221510b2f8cc4124477ca813ec2f956372add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 25/70] fix: saving (linear) inter transition matrices without
 a lamda failed or saved only some of the computed ones

---
 src/flowstab/temporal_network.py | 65 +++++++++++---------------------
 1 file changed, 23 insertions(+), 42 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 225383b..9f99e75 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -494,34 +494,22 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
-                                  SparseStochMat),\
-                                "inter_T must not be SparseStochMat"
+                # computes it for all lamda if lamda is None
+                lamdas = list(self.inter_T) if lamda is None else [lamda]
 
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                for lamda in lamdas:
+                    assert not isinstance(self.inter_T[lamda][0],
+                                      SparseStochMat),\
+                                    "inter_T must not be SparseStochMat"
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                    if lamda not in getattr(self, "delta_inter_T", {}):
+                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
                     save_dict["inter_T"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T"][lamda] = dict()
                         save_dict["inter_T"][lamda]["delta_inter_T"] = self.delta_inter_T[lamda]
@@ -616,33 +604,22 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                # computes it for all lamda if lamda is None
+                lamdas = list(self.inter_T_lin) if lamda is None else [lamda]
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                for lamda in lamdas:
+                    if any(t_s not in getattr(self, "delta_inter_T_lin",
+                                              {}).get(lamda, {})
+                           for t_s in self.inter_T_lin[lamda]):
+                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
-
                 if hasattr(self, "delta_inter_T_lin"):
 
 
                     save_dict["inter_T_lin"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T_lin.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T_lin"][lamda] = dict()
                         for t_s in self.inter_T_lin[lamda].keys():
@@ -661,7 +638,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
@@ -1905,11 +1882,15 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T_lin"):
                 self.delta_inter_T_lin = dict()
 
-            if lamda not in self.delta_inter_T_lin.keys():
+            # t_s values that were computed since the last call
+            new_t_s = [t_s for t_s in self.inter_T_lin[lamda].keys()
+                       if t_s not in self.delta_inter_T_lin.get(lamda, {})]
+
+            if new_t_s:
 
-                self.delta_inter_T_lin[lamda] = dict()
+                self.delta_inter_T_lin.setdefault(lamda, dict())
 
-                for t_s in self.inter_T_lin[lamda].keys():
+                for t_s in new_t_s:
 
                     self.delta_inter_T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
                                                       self.inter_T_lin[lamda][t_s][k] for k in \
-- 
2.43.0


From db2da44d8ce7098dcb122ed21b278b4c9df20854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 26/70] fix: saving SparseStochMat inter transition matrices
 trimmed the matrices of the network

---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 9f99e75..ea5235e 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -538,6 +538,7 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -652,6 +653,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
-- 
2.43.0


From 9f7927c499a8885fd062cea0f4080a70269772a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 27/70] fix: ContTempInstNetwork could not be built from an
 events_table nor loaded

---
 src/flowstab/temporal_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ea5235e..5ce2186 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1978,6 +1978,12 @@ class ContTempInstNetwork(ContTempNetwork):
                              merge_overlapping_events=False,
                              events_table=events_table)
 
+        else:
+            super().__init__(relabel_nodes=relabel_nodes,
+                             reset_event_table_index=reset_event_table_index,
+                             node_to_label_dict=node_to_label_dict,
+                             merge_overlapping_events=False,
+                             events_table=events_table)
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
         self.instantaneous_events = True
-- 
2.43.0


From b5deff89ca3114c998130cd2f0ccf91ad648ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 28/70] fix: compute_transition_matrices with tol modified the
 inter transition matrices

---
 src/flowstab/temporal_network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5ce2186..15e6491 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1603,6 +1603,8 @@ class ContTempNetwork:
                     self.T[lamda] = [self.inter_T[lamda][k_init]]
 
                 if tol is not None:
+                    # do not modify inter_T
+                    self.T[lamda][0] = self.T[lamda][0].copy()
                     set_to_zeroes(self.T[lamda][0],tol)
                     inplace_csr_row_normalize(self.T[lamda][0])
             else:
@@ -1612,6 +1614,8 @@ class ContTempNetwork:
                     self.T[lamda] = self.inter_T[lamda][k_init]
 
                 if tol is not None:
+                    # do not modify inter_T
+                    self.T[lamda] = self.T[lamda].copy()
                     set_to_zeroes(self.T[lamda],tol)
                     inplace_csr_row_normalize(self.T[lamda])
 
@@ -1629,6 +1633,7 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
-- 
2.43.0


From bce8b4d501a1e1f12def9b904d03c114dfade9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 29/70] fix: linear inter transition matrices of an empty
 window failed with use_sparse_stoch

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 15e6491..8aa7e1d 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1552,7 +1552,7 @@ class ContTempNetwork:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
                     self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
                                                       dtype=np.float64,
-- 
2.43.0


From 852ee2fb9747576a14451268a30b3cdbceae343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 30/70] fix: a network saved without its node labels could not
 be loaded

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 8aa7e1d..8e7d0f8 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -398,7 +398,7 @@ class ContTempNetwork:
 
         net = cls(events_table=events_table,
                            relabel_nodes=False,
-                           node_to_label_dict=graph_dict.pop("node_to_label_dict"))
+                           node_to_label_dict=graph_dict.pop("node_to_label_dict", None))
 
         for k,val in graph_dict.items():
             if k in matrices_list:
-- 
2.43.0


From 23cf3ecc467c43200ba28c195d1c51663bb2a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:14 +0000
Subject: [PATCH 31/70] fix: networks saved under names that differ after their
 last dot overwrote each other

---
 src/flowstab/temporal_network.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 8e7d0f8..8581aa6 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -315,7 +315,11 @@ class ContTempNetwork:
                 save_dict[mat] = getattr(self,mat)
 
 
-        with open(os.path.splitext(filename)[0] + ".pickle", "wb") as fopen:
+        file = os.fspath(filename)
+        if not file.endswith(".pickle"):
+            file += ".pickle"
+
+        with open(file, "wb") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -392,7 +396,11 @@ class ContTempNetwork:
 
         # all in a pickle file
 
-        graph_dict = pd.read_pickle(os.path.splitext(filename)[0] +".pickle")
+        file = os.fspath(filename)
+        if not file.endswith(".pickle"):
+            file += ".pickle"
+
+        graph_dict = pd.read_pickle(file)
 
         events_table = graph_dict.pop("events_table")
 
-- 
2.43.0


From dda4f1ce5797bfbb5c67e55fea9571f42ad5c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:40 +0000
Subject: [PATCH 32/70] fix: individuals not listed by increasing ID were
 simulated with the group and rates of others

---
 src/flowstab/synth_temp_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..a5126c4 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,7 +268,8 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
+        # list of individuals, ordered by ID as they are looked up by ID
+        individuals = sorted(individuals, key=lambda ind: ind.ID)
         self.individuals = individuals
 
         # list of individual IDs
-- 
2.43.0


From 7a48169c295dd5993d896b8e0d4f652f98553f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 33/70] fix: time scales given as an iterator were lost (or
 rejected) by FlowStability

---
 src/flowstab/flow_stability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 1f0d60b..e2bc7ef 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -313,8 +313,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # we use a shallow copy (an iterator can only be consumed once)
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
-- 
2.43.0


From f094495247ccfee8fb590ee9338b69d85d5e4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 34/70] fix: find_louvain_clustering could not be run on an
 analysis of a single time direction

---
 src/flowstab/flow_stability.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index e2bc7ef..3dd20c5 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -636,6 +636,12 @@ class FlowStability(metaclass=StateMeta, states=States):
         self : FlowStability
             The instance itself.
         """
+        # the clustering of a direction that is not analysed is not required
+        if self.time_direction > 0:
+            self._state.properties_set["flow_clustering_backward"] = True
+        elif self.time_direction < 0:
+            self._state.properties_set["flow_clustering_forward"] = True
+
         for _ts in self.time_scale:
             logger.info(
                 f"Creating a flow integral clustering for time_scale={_ts}."
-- 
2.43.0


From a2c521e84147b5ee4ee502527e439c1e880e7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:58 +0000
Subject: [PATCH 35/70] fix: an analysis given a temporal_network object never
 left its initial state and could not be run

---
 src/flowstab/flow_stability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 3dd20c5..503de2f 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -227,6 +227,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if isinstance(temporal_network, ContTempNetwork):
             self._temporal_network = temporal_network
+            # ready to calculate the Laplacian matrices
+            self._state.current = max(self._state.current, States.TEMP_NW)
             logger.info(
                 "Set the temporal network: "
                 f"{self.temporal_network}"
-- 
2.43.0


From b33aaf2725613da16f48c2dcb4c621fa87aec228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:25 +0000
Subject: [PATCH 36/70] fix: merging events that start together could drop all
 of them

---
 src/flowstab/temporal_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 8581aa6..00b45ea 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1812,8 +1812,9 @@ class ContTempNetwork:
                 mask_21 = np.logical_and(self.events_table.source_nodes.values == n2,
                                          self.events_table.target_nodes.values == n1)
 
-                #sort by starting times
-                evs = self.events_table.loc[np.logical_or(mask_12, mask_21)].\
+                #sort by starting times (each pair is visited from both sides)
+                evs = self.events_table.loc[np.logical_or(mask_12, mask_21) & \
+                                            events_to_keep].\
                                 sort_values(by=["starting_times", "ending_times"])
 
                 evs_list = list(evs.itertuples())
-- 
2.43.0


From 52bbb568c8c8c2d2affb65e29d752e0886f082c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:34 +0000
Subject: [PATCH 37/70] fix: static_clustering of a sparse graph failed at
 discrete time 0

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index db5ac0a..a55d4a5 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2436,7 +2436,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         is_csr = True
         D = lambda d : diags(d, format="csr")
         I = lambda size : eye(size, format="csr")
-        power = lambda M, n : M.__pow__(n)
+        power = lambda M, n : csr_matrix(M.__pow__(n))
     elif isinstance(A, np.ndarray) and not isinstance(A, np.matrix):
         is_csr = False
         D = lambda d : np.diag(d)
-- 
2.43.0


From 766ef83cdfaea748e984108177687bee5fd69e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:38 +0000
Subject: [PATCH 38/70] fix: an object that is no temporal network did not
 reset the state of the analysis, the next step crashed

---
 src/flowstab/flow_stability.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 503de2f..5136597 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -243,6 +243,7 @@ class FlowStability(metaclass=StateMeta, states=States):
                 "attribute to `None` and resetting the state of the analysis."
             )
             self._temporal_network = None
+            self._state.current = States.INITIAL
         return None
 
     @register(minimal_state=States.INITIAL, next_state=States.TEMP_NW)
-- 
2.43.0


From dc2d4b4c4c29b6fe9fe7ceac51204803ca07cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:25 +0000
Subject: [PATCH 39/70] fix: an analysis with linear_approx=True failed at, or
 used other matrices for, the flow clustering

---
 src/flowstab/flow_stability.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 5136597..98fc3a1 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -134,6 +134,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         self.t_stop = t_stop
         self.time_scale = time_scale
         self.time_direction = time_direction
+        self._t_s = None
         self._flow_clustering_forward = {}
         self._flow_clustering_backward = {}
         logger.info("Successfully initiated a FlowStability instance!")
@@ -521,6 +522,8 @@ class FlowStability(metaclass=StateMeta, states=States):
             to_compute = self._temporal_network.compute_lin_inter_transition_matrices
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
+        # the stationarity time of the linear approximation to cluster
+        self._t_s = kwargs.get("t_s", 10) if linear_approx else None
 
         _time_scale = None
         if 'time_scale' in kwargs:
@@ -654,9 +657,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
 
+            if self._t_s is None:
+                inter_T = self.temporal_network.inter_T[_lambda]
+            else:
+                inter_T = self.temporal_network.inter_T_lin[_lambda][self._t_s]
+
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in inter_T],
                 time_list=self.temporal_network.times[
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians + 1],
-- 
2.43.0


From 3751b1cc25a50486706f9e1881414fd9067aed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:53 +0000
Subject: [PATCH 40/70] fix: a flow clustering that could not be initiated left
 the one of previous settings in place

---
 src/flowstab/flow_stability.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 98fc3a1..e492634 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -682,6 +682,9 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+                    # a result of previous settings is no longer valid
+                    self.flow_clustering_backward.pop(_ts, None)
+                    self._state.properties_set["flow_clustering_backward"] = False
             if self.time_direction >= 0:
                 logger.info(
                     f"\t- Creating the time forward clustering."
@@ -696,6 +699,9 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+                    # a result of previous settings is no longer valid
+                    self.flow_clustering_forward.pop(_ts, None)
+                    self._state.properties_set["flow_clustering_forward"] = False
             logger.info("-> done.")
         return self
 
-- 
2.43.0


From c38b5132afe29292ad0bb447eaa5a4ec173f0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 41/70] fix: block_probs simulations failed for a group without
 interaction probabilities

---
 src/flowstab/synth_temp_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index a5126c4..75afd30 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -335,8 +335,10 @@ class SynthTempNetwork:
         if next_event_method == "block_probs":
             # make sure inter_group_probs is properly normalized
             # i.e. sum_j p[i,j] = 1 for all i
-            self.inter_group_probs = \
-                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T
+            # (except for groups that do not initiate interactions)
+            group_sums = self.inter_group_probs.sum(axis=1)
+            group_sums[group_sums == 0] = 1
+            self.inter_group_probs = (self.inter_group_probs.T/group_sums).T
 
         if next_event_method == "block_probs_mod":
             if block_prob_mod_func is None:
-- 
2.43.0


From f90889df856223e3bc27a9803e772ff8387b4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:21 +0000
Subject: [PATCH 42/70] fix: an events_table with a named index or repeated
 index values could not be used

---
 src/flowstab/temporal_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 00b45ea..90604f2 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -185,6 +185,10 @@ class ContTempNetwork:
                     f"'{type(events_table)} is not acceptable."
                 )                               
             reset_event_table_index = False     
+            if not self.events_table.index.is_unique:
+                # events are identified by their index
+                self.events_table.reset_index(inplace=True, drop=True)
+            self.events_table = self.events_table.rename_axis(index=None)
             if relabel_nodes:                   
                 all_nodes = set()
                 all_nodes.update(self.events_table.source_nodes.tolist())
-- 
2.43.0


From 1bb6dbffb54040305f8dc8d8aa10522c8aeb256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:48 +0000
Subject: [PATCH 43/70] fix: cython_nvi_parallel accumulated onto uninitialised
 memory

---
 src/flowstab/_cython_fast_funcs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flowstab/_cython_fast_funcs.pyx b/src/flowstab/_cython_fast_funcs.pyx
index 3f3c5d4..b52e496 100644
--- a/src/flowstab/_cython_fast_funcs.pyx
+++ b/src/flowstab/_cython_fast_funcs.pyx
@@ -228,6 +228,7 @@ def cython_nvi_parallel(list clusters1, list clusters2, int N, int num_threads):
     cdef Py_ssize_t n2 = len(clusters2)
     cdef Py_ssize_t i, j
     cdef double[:] VI_res = cvarray(shape=(n1,),itemsize=sizeof(double),format='d')
+    VI_res[:] = 0.0
     
     # version that requires much less memory
     for i in range(n1):
-- 
2.43.0


From 75cc15802f8906fd75f4de7a791564d382c22490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:01 +0000
Subject: [PATCH 44/70] fix: csc_row_normalize normalised a CSR argument in
 place and returned it

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 90604f2..f312da4 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2399,7 +2399,7 @@ def csc_row_normalize(X):
     """Row normalize scipy sparse csc matrices.
     returns a copy of X row-normalized and in CSC format.
     """
-    X = X.tocsr()
+    X = X.tocsr(copy=True)
 
     for i in range(X.shape[0]):
         row_sum = X.data[X.indptr[i]:X.indptr[i+1]].sum()
-- 
2.43.0


From 09bf3e5d3dd9083b3cd4257239f4d9fe9a349774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:01 +0000
Subject: [PATCH 45/70] fix: in place scaling and normalisation of matrices
 that are not square

---
 src/flowstab/sparse_stoch_mat.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 560351c..b6d0a53 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -577,15 +577,16 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
         indptr = X.indptr.astype(np.int64, copy=False)
+        num_rows = indptr.size - 1
         if isinstance(row_sum, float):
             _css.inplace_csr_row_normalize(X.data, indptr,
-                                                X.shape[0], row_sum)
+                                                num_rows, row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
-            assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
+            assert row_sum.shape[0] == num_rows and len(row_sum.shape) == 1
 
             _css.inplace_csr_row_normalize_array(X.data, indptr,
-                                                    X.shape[0], row_sum)
+                                                    num_rows, row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
     else:
@@ -638,7 +639,7 @@ def inplace_csr_matmul_diag(A, diag_vec):
                           A.indices, A.data, diag_vec)
 
     elif isspmatrix_csc(A):
-        csr_scale_rows(A.shape[0], A.shape[1], A.indptr,
+        csr_scale_rows(A.shape[1], A.shape[0], A.indptr,
                           A.indices, A.data, diag_vec)
 
     else:
@@ -661,7 +662,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
 
     assert diag_vec.shape[0] == diag_vec.size
 
-    assert A.shape[1] == diag_vec.size, "Invalid array size"
+    assert A.shape[0] == diag_vec.size, "Invalid array size"
 
 
     if isspmatrix_csr(A):
@@ -669,7 +670,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
                        A.indices, A.data, diag_vec)
 
     elif isspmatrix_csc(A):
-        csr_scale_columns(A.shape[0], A.shape[1], A.indptr,
+        csr_scale_columns(A.shape[1], A.shape[0], A.indptr,
                           A.indices, A.data, diag_vec)
 
     else:
-- 
2.43.0


From bb3534aa7808e6b88fb543ec0a9f13b41fcaaf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:01 +0000
Subject: [PATCH 46/70] fix: a method registered without a minimal state could
 not be called

---
 src/flowstab/state_tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/state_tracking.py b/src/flowstab/state_tracking.py
index 87b7c51..131c610 100644
--- a/src/flowstab/state_tracking.py
+++ b/src/flowstab/state_tracking.py
@@ -364,7 +364,7 @@ class StateMeta(type):
                 # TODO: we might set some properties from kwargs and thus update
                 #       the current state.
                 # check if the process is in the minimal state
-                if _current_state < minimal_state:
+                if minimal_state is not None and _current_state < minimal_state:
                     warnings.warn(
                         f"'{func_name}' can only be run in state "
                         f"'{minimal_state}'. The current state is "
-- 
2.43.0


From a0d53d3b6b3a97a961d3a2403691601b52c2cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:37 +0000
Subject: [PATCH 47/70] fix: sparse_outer failed for a vector with one nonzero
 element

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index b6d0a53..a865b90 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1134,11 +1134,11 @@ def sparse_outer(p, use_mkl=True, triu=True, verbose=False, log_message=""):
         if triu:
             Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size))[np.triu_indices(p.data.size)]
         else:
-            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2,1).squeeze()
+            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).ravel()
     elif triu:
         Odata = np.outer(p.data,p.data)[np.triu_indices(p.data.size)]
     else:
-        Odata = np.outer(p.data,p.data).reshape(p.data.size**2,1).squeeze()
+        Odata = np.outer(p.data,p.data).ravel()
 
     if triu:
         indices_list = [p.indices[p.indices >= r] for r in p.indices]
-- 
2.43.0


From 90e6ed7be93f374053949782d78dc9a232f90f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 48/70] fix: run_laplacians_transmats --save_flow_int failed
 and its transition matrices were not saved

---
 src/flowstab/scripts/run_laplacians_transmats.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 8e605cc..e9b1d44 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -463,12 +463,10 @@ def worker(net_start_stop):
                                 print(f"PID {os.getpid()}:", f"finished in {t1 - t0:.2f}" )
 
                                 if save_flow_int:
-                                    d = 1
-                                    if reverse_time:
-                                         d = -1
                                     I = FlowIntegralClustering(T_list=net.T[lamda],
                                           time_list=net.times[net._k_start_laplacians:\
-                                                              net._k_stop_laplacians+1].values[::d]).I
+                                                              net._k_stop_laplacians+1].values,
+                                          reverse_time=reverse_time).I_list[-1]
 
                                     pd.to_pickle(I,net_file + "_flow_int.pickle")
 
@@ -502,12 +500,10 @@ def worker(net_start_stop):
                                 print(f"PID {os.getpid()}:", f"finished in {t2 - t1:.2f}")
 
                                 if save_flow_int:
-                                    d = 1
-                                    if reverse_time:
-                                        d = -1
                                     I_lin = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
                                               time_list=net.times[net._k_start_laplacians:\
-                                                                  net._k_stop_laplacians+1].values[::d]).I
+                                                                  net._k_stop_laplacians+1].values,
+                                              reverse_time=reverse_time).I_list[-1]
 
                                     pd.to_pickle(I_lin,net_file + "_lin_flow_int.pickle")
 
-- 
2.43.0


From 01408a5125215b7adf4a3ffa6e1d68543088979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 49/70] fix: run_laplacians_transmats could compute one slice
 more than num_slices

---
 src/flowstab/scripts/run_laplacians_transmats.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index e9b1d44..05f79b5 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -249,13 +249,14 @@ else:
 
     if slice_length is None:
 
-        slice_length = (tend-t0)/num_slices
+        time_slices = np.linspace(t0, tend, num_slices+1).tolist()
 
-    time_slices = [t0]
-    t = t0
-    while t < tend:
-        t += slice_length
-        time_slices.append(t)
+    else:
+        time_slices = [t0]
+        t = t0
+        while t < tend:
+            t += slice_length
+            time_slices.append(t)
 
 t_starts = time_slices[:-1]
 t_stops = time_slices[1:]
-- 
2.43.0


From f0de51f7a9d61ddb406fec63222463fea71da582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 50/70] fix: run_laplacians_transmats did not save inter_T of
 slices whose transition matrices exist

---
 src/flowstab/scripts/run_laplacians_transmats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 05f79b5..ec6925c 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -340,8 +340,10 @@ def worker(net_start_stop):
         if (not glob.glob(net_file_inter_expm + "*")):
             all_inter_expm_exists = False
 
-    if (all_inter_expm_exists and all_inter_lin_exists and not save_slice_trans) or \
-        (all_expm_exists and all_lin_exists):
+    all_inter_exists = all_inter_expm_exists and all_inter_lin_exists
+
+    if (all_inter_exists and not save_slice_trans) or \
+        (all_expm_exists and all_lin_exists and (all_inter_exists or not save_inter_T)):
         print(f"PID {os.getpid()}:", "interval = ", int_index,
                           " all files already exists" )
     else:
-- 
2.43.0


From 800e6d673bd25ecfa727b1443ddebe1c6fa09f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 51/70] fix: run_cov_integrals failed for some net_names and
 mixed networks stored in one folder

---
 src/flowstab/scripts/run_cov_integrals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 8ebb196..3e1e829 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -205,7 +205,9 @@ print("Arguments:")
 for item in inargs.items():
     print(item)
 #%%
-all_files = os.listdir(datadir)
+# only the matrices of this network
+all_files = [file for file in os.listdir(datadir) if \
+             file.startswith(net_name + "_tau_w")]
 
 # get num nodes
 num_nodes = None
@@ -226,7 +228,7 @@ while num_nodes is None:
 intervals = set()
 tau_ws = set()
 for file in all_files:
-    for extract in os.path.splitext(file)[0].split("_"):
+    for extract in os.path.splitext(file[len(net_name):])[0].split("_"):
         if re.search("int[0-9]{6}",extract):
             intervals.add(int(extract[3:]))
         elif extract.startswith("w"):
-- 
2.43.0


From ea8f271f3c80e6e16e183510703a53bf0aeb6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 52/70] fix: run_cov_integrals failed with fewer slices than
 num_points

---
 src/flowstab/scripts/run_cov_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 3e1e829..0e508f4 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -242,7 +242,7 @@ num_small_grid_points = len(intervals)
 if len(int_list) == 0:
 
     if int_length is None:
-        int_length = num_small_grid_points//num_points
+        int_length = max(num_small_grid_points//num_points, 1)
 
     # we can go +1 over num_small_grid_points because the last interval is never loaded
     # we compute up to the begining of the last interval.
-- 
2.43.0


From dc4a261bf2ea9d571b1b0103de86caa8717c4ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:48 +0000
Subject: [PATCH 53/70] fix: run_cov_integrals did not find matrices of a tau_w
 with more digits than its filename

---
 src/flowstab/scripts/run_cov_integrals.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 0e508f4..33e6b36 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -255,6 +255,13 @@ else:
 
 #%%
 
+def get_lamda(matrices, tau_w):
+    """returns the key of `matrices` corresponding to tau_w, which is read
+    from the filename where it is rounded.
+    """
+    return min(matrices, key=lambda lamda: abs(lamda*tau_w - 1))
+
+
 def load_trans_mat(k_range, tau_w, lin, reverse_time):
     """loads, computes and returns the transition matrix computed from k_range[0]
     to k_range[-1] and the corresponding time duration.
@@ -290,9 +297,9 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
         TM = ContTempNetwork.load_T(T_file.format(k=k))
 
         if lin:
-            Tk = TM["T_lin"][1/tau_w][t_s]
+            Tk = TM["T_lin"][get_lamda(TM["T_lin"], tau_w)][t_s]
         else:
-            Tk = TM["T"][1/tau_w]
+            Tk = TM["T"][get_lamda(TM["T"], tau_w)]
 
         set_to_zeroes(Tk, tol=tol)
         inplace_csr_row_normalize(Tk)
@@ -520,9 +527,10 @@ def worker(ind_start_tau_w):
                                        "_inter_trans_mat")
 
                             tl = time.time()
-                            num_l = len(inter_Ts["inter_T"][1/tau_w])
+                            lamda = get_lamda(inter_Ts["inter_T"], tau_w)
+                            num_l = len(inter_Ts["inter_T"][lamda])
                             # integrate T
-                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][1/tau_w][::d],
+                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][lamda][::d],
                                                d * np.diff(inter_Ts["times_k_start_to_k_stop+1"][::d]))):
 
 
@@ -600,7 +608,8 @@ def worker(ind_start_tau_w):
 
                         tk = time.time()
 
-                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][1/tau_w][t_s][::d],
+                        lamda = get_lamda(inter_Ts_lin["inter_T_lin"], tau_w)
+                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][lamda][t_s][::d],
                                            d * np.diff(inter_Ts_lin["times_k_start_to_k_stop+1"][::d])):
 
 
-- 
2.43.0


From f88f45ad40838c7fc4a09ca6d4fa6404913783d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 54/70] fix: an interrupted run of run_cov_integrals could not
 be resumed without the matrices of the slices or with expm and lin

---
 src/flowstab/scripts/run_cov_integrals.py | 42 +++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 33e6b36..fc202cc 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -394,7 +394,8 @@ def worker(ind_start_tau_w):
                 # if its all True (no need to compute anything)
                 all_expm_exists = last_expm_exist +1 == integrals_expm_exists.size
 
-                if not all_expm_exists:
+                # expm and lin can only be continued separately
+                if not all_expm_exists and not use_lin_transmats:
                     #load the last integral
                     int_stop = int_stops[last_expm_exist]
                     if os.path.isfile(ITPT_file.format(int_start, int_stop)):
@@ -409,15 +410,16 @@ def worker(ind_start_tau_w):
                     else:
                         load_range = range(int_start,int_stop,d)
 
-                    Tk, integration_time = load_trans_mat(load_range,
-                                           tau_w, lin=False, reverse_time=reverse_time)
-                    ITPT = ITPT_load["ITPT"]
+                    try:
+                        Tk, integration_time = load_trans_mat(load_range,
+                                               tau_w, lin=False, reverse_time=reverse_time)
+                        ITPT = ITPT_load["ITPT"]
 
-                    # update initial condition
-                    _int_start = int_stops[last_expm_exist]
-                    int_stops = int_stops[last_expm_exist+1:]
-                    #/!\ this won't work if expm and lin are done at the same time
-                    assert use_lin_transmats != use_expm_transmats
+                        # update initial condition
+                        _int_start = int_stops[last_expm_exist]
+                        int_stops = int_stops[last_expm_exist+1:]
+                    except FileNotFoundError:
+                        print("PID ", os.getpid(), " trans. mat. of the slices not saved, integrating from the beginning")
 
                     del ITPT_load
 
@@ -433,7 +435,7 @@ def worker(ind_start_tau_w):
                 # if its all True (no need to compute anything)
                 all_lin_exists = last_lin_exist +1 == integrals_lin_exists.size
 
-                if not all_lin_exists:
+                if not all_lin_exists and not use_expm_transmats:
                     #load the last integral
                     int_stop = int_stops[last_lin_exist]
                     if os.path.isfile(ITPT_lin_file.format(int_start, int_stop)):
@@ -449,19 +451,20 @@ def worker(ind_start_tau_w):
                     else:
                         load_range = range(int_start,int_stop,d)
 
-                    Tk_lin, integration_time_lin = load_trans_mat(load_range,
-                                           tau_w, lin=True, reverse_time=reverse_time)
+                    try:
+                        Tk_lin, integration_time_lin = load_trans_mat(load_range,
+                                               tau_w, lin=True, reverse_time=reverse_time)
 
-                    ITPT_lin = ITPT_lin_load["ITPT"]
+                        ITPT_lin = ITPT_lin_load["ITPT"]
 
-                    assert use_lin_transmats != use_expm_transmats
+                        # update initial condition
+                        _int_start = int_stops[last_lin_exist]
+                        int_stops = int_stops[last_lin_exist+1:]
+                    except FileNotFoundError:
+                        print("PID ", os.getpid(), " trans. mat. of the slices not saved, integrating from the beginning")
 
                     del ITPT_lin_load
 
-                    # update initial condition
-                    _int_start = int_stops[last_lin_exist]
-                    int_stops = int_stops[last_lin_exist+1:]
-
 
 
         compute_expm = use_expm_transmats
@@ -478,9 +481,6 @@ def worker(ind_start_tau_w):
             print("PID ", os.getpid(),
                   f" lin trans integral from int {int_start} for tau_w {tau_w} already computed")
 
-        if compute_expm and compute_lin and last_expm_exist > -1 and last_lin_exist > 1:
-            raise NotImplementedError
-
 
         if compute_expm or compute_lin:
             for int_stop in int_stops:
-- 
2.43.0


From c174d5e7968cf1a2b36510d444076d236d02b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 55/70] fix: run_clusterings --integral_rtol failed for the
 integrals of run_cov_integrals

---
 src/flowstab/scripts/run_clusterings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 1c4716a..4773140 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -253,7 +253,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
             raise ValueError("File extension not recognised.")
 
         int_time = autocov["integration_time"]
-        ITPT = autocov["ITPT"]
+        ITPT = autocov["ITPT"].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
@@ -328,7 +328,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
         else:
             raise ValueError("direction must be forward or backward")
 
-        ITPT = autocov[ITPT_key]
+        ITPT = autocov[ITPT_key].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
-- 
2.43.0


From aa907b70b566073afdc00c0dab4dfc6a075d7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 56/70] fix: run_clusterings did not save the component labels

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 4773140..dc7cb0e 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -670,7 +670,7 @@ def worker(file_args):
 
 
             S, T, p1, p2, largest_comp_nodes, S_list, comp_nodes_list, \
-                singletons, normalization, ncomp, label, max_S_row_diff, \
+                singletons, normalization, ncomp, comp_label, max_S_row_diff, \
                     ITPT_sum, max_S_row_diff_norm, \
                         ITPT_sum_norm = load_autocov_int(file,
                                                          init_p1,
-- 
2.43.0


From 1cd8600050c8f049ebc60202d9ce32e7978962c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 57/70] fix: run_clusterings failed to continue from the
 results of --save_clustering_before_nvarinf

---
 src/flowstab/scripts/run_clusterings.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index dc7cb0e..e383ff7 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -709,6 +709,7 @@ def worker(file_args):
                 # tclust = time.time()
 
                 # check if temp results have already been computed:
+                clustering_loaded = False
                 tmpsavefile = os.path.join(savedir,"tmpclusters_" + file)
                 if os.path.exists(tmpsavefile):
                     print("PID ", os.getpid(), " loading temp res from ", tmpsavefile)
@@ -716,6 +717,8 @@ def worker(file_args):
                         tmpres = pickle.load(fopen)
 
                     clust_counter_sym =  tmpres["clust_counter_sym"]
+                    sym_clusters = tmpres["sym_clusters"]
+                    sym_seeds = tmpres["sym_seeds"]
                     sym_stabilites = tmpres["sym_stabilites"]
                     avg_stab_sym = tmpres["avg_stab_sym"]
                     avg_nclust_sym = tmpres["avg_nclust_sym"]
@@ -729,15 +732,15 @@ def worker(file_args):
                     max_S_row_diff_norm = tmpres["max_S_row_diff_norm"]
                     ITPT_sum_norm = tmpres["ITPT_sum_norm"]
 
-                    save_clustering_before_nvarinf = False
-                    compute_clustering = False
+                    clustering_loaded = True
+                    compute_clustering = True
                     compute_nvarinf = True
 
 
 
 
 
-                if compute_clustering:
+                if compute_clustering and not clustering_loaded:
                     params_list = [(file, seed) for seed in n_random_seeds(num_repeat)]
 
                     if nproc_clustering == 1:
@@ -830,7 +833,7 @@ def worker(file_args):
                 print("PID ", os.getpid(), f" symm clust, took {t1-t0:.2f}s, file ", file)
                 print("PID ", os.getpid(), " computing sym nvi ", ", file ", file)
 
-                if compute_clustering:
+                if compute_clustering and not clustering_loaded:
 
 
                     clust_counter_sym = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
@@ -847,6 +850,8 @@ def worker(file_args):
                     if save_clustering_before_nvarinf:
                         tmpres = {}
                         tmpres["clust_counter_sym"] = clust_counter_sym
+                        tmpres["sym_clusters"] = sym_clusters
+                        tmpres["sym_seeds"] = sym_seeds
                         tmpres["sym_stabilites"] = sym_stabilites
                         tmpres["avg_stab_sym"] = avg_stab_sym
                         tmpres["avg_nclust_sym"] = avg_nclust_sym
-- 
2.43.0


From 8e90363d833129a95b38e0c4a5186af5e1327c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:09 +0000
Subject: [PATCH 58/70] fix: run_laplacians_transmats --save_flow_int failed
 for slices without event times

---
 src/flowstab/scripts/run_laplacians_transmats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index ec6925c..47a86b3 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -465,7 +465,7 @@ def worker(net_start_stop):
                                 t1 = time.time()
                                 print(f"PID {os.getpid()}:", f"finished in {t1 - t0:.2f}" )
 
-                                if save_flow_int:
+                                if save_flow_int and net._k_stop_laplacians > net._k_start_laplacians:
                                     I = FlowIntegralClustering(T_list=net.T[lamda],
                                           time_list=net.times[net._k_start_laplacians:\
                                                               net._k_stop_laplacians+1].values,
@@ -502,7 +502,7 @@ def worker(net_start_stop):
                                 t2 = time.time()
                                 print(f"PID {os.getpid()}:", f"finished in {t2 - t1:.2f}")
 
-                                if save_flow_int:
+                                if save_flow_int and net._k_stop_laplacians > net._k_start_laplacians:
                                     I_lin = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
                                               time_list=net.times[net._k_start_laplacians:\
                                                                   net._k_stop_laplacians+1].values,
-- 
2.43.0


From 3bebbc241561eee50368aaaec32293cea3cc351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:09 +0000
Subject: [PATCH 59/70] fix: run_clusterings --separate_comps counted the meta
 nodes and not the singletons in the stability

---
 src/flowstab/scripts/run_clusterings.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index e383ff7..5c1276a 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -44,6 +44,7 @@ import pickle
 import sys
 import time
 import traceback
+from array import array
 from argparse import SUPPRESS, ArgumentDefaultsHelpFormatter, ArgumentParser
 from collections import Counter
 from concurrent.futures import ProcessPoolExecutor as futurePool
@@ -559,7 +560,6 @@ def _compute_sym_list_clustering_fct(params):
               f" with seed {seed} from file {file}")
 
     cluster_list = []
-    stability = 0
     # loop over all components and add their clusters to the golbal cluster_list
     for S, comp_nodes in zip(var_dict[file]["S_list"], var_dict[file]["comp_nodes_list"]) :
         clustering = SparseClustering(p1=S.p1,
@@ -586,8 +586,6 @@ def _compute_sym_list_clustering_fct(params):
             for clust in clustering.partition.cluster_list[1:]:
                 cluster_list.append({node_map[n] for n in clust})
 
-            stability += clustering.compute_stability()
-
     # add singletons
     cluster_list += [{n} for n in var_dict[file]["singletons"]]
 
@@ -595,7 +593,7 @@ def _compute_sym_list_clustering_fct(params):
         print("**** PID ", os.getpid(), f"list sym clust took {time.time()-t0:.4f}s, finished at",
               time.strftime("%Y-%m-%d %H:%M:%S",time.localtime()), f', for {len(var_dict[file]["comp_nodes_list"])} components.')
 
-    return (cluster_list, stability, seed)
+    return (cluster_list, seed)
 
 def compute_static_clustering_fct(params):
     A, seed = params
@@ -750,7 +748,7 @@ def worker(file_args):
                             var_dict[file]["S_list"] = S_list
                             var_dict[file]["comp_nodes_list"] = comp_nodes_list
                             var_dict[file]["singletons"] = singletons
-                            sym_clusters, sym_stabilites, sym_seeds = \
+                            sym_clusters, sym_seeds = \
                                 zip(*map(_compute_sym_list_clustering_fct, params_list))
 
                         else:
@@ -780,7 +778,7 @@ def worker(file_args):
                                                 N_list, p1raw_list, p2raw_list,
                                                 comp_nodes_list, singletons),
                                         ) as pool:
-                                sym_clusters, sym_stabilites, sym_seeds = \
+                                sym_clusters, sym_seeds = \
                                     zip(*pool.map(_compute_sym_list_clustering_fct, params_list,
                                                   chunksize=1))
 
@@ -805,6 +803,12 @@ def worker(file_args):
                                     zip(*pool.map(_compute_clustering_fct, params_list,
                                                   chunksize=1))
 
+                    if separate_comps:
+                        # stability of the merged partitions (the stabilities of the
+                        # components include the one of their meta node)
+                        sym_stabilites = tuple(sum(S.get_submat_sum(array("i", clust), array("i", clust)) \
+                                                   for clust in cluster_list) for cluster_list in sym_clusters)
+
                     if file in var_dict:
                         # free global memory
                         del var_dict[file]
-- 
2.43.0


From 3c20af3b873cfcff2912c70a3c205e6f7b133f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:18 +0000
Subject: [PATCH 60/70] fix: a Partition keeps its own copy of the given
 clusters

---
 src/flowstab/network_clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index a55d4a5..6baf567 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -102,7 +102,8 @@ class Partition:
             self.node_to_cluster_dict = {n : n for n in range(self.num_nodes)}
 
         elif cluster_list is not None and node_to_cluster_dict is None:
-            self.cluster_list = cluster_list
+            # moving nodes must not modify the sets of the caller
+            self.cluster_list = [set(clust) for clust in cluster_list]
             self.node_to_cluster_dict = {}
             for i, clust in enumerate(self.cluster_list):
                 for node in clust:
-- 
2.43.0


From b6e8973b5b3583171fb4d8742218e62f04135945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:26 +0000
Subject: [PATCH 61/70] fix: name the replacement of compute_delta_S_moveout as
 it is called

Without cython, SparseAutocovMat.compute_delta_S_moveout raised an
AttributeError.
---
 src/flowstab/_cython_subst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 6c0c1a4..97689be 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -512,7 +512,7 @@ def compute_delta_PT_moveout(
         
     return s
 
-def cython_compute_delta_S_moveout(
+def compute_delta_S_moveout(
     PTdata,
     PTindices,
     PTindptr,
-- 
2.43.0


From b61adb78494d5a2623bc7c7a049a8e409dfab96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:26 +0000
Subject: [PATCH 62/70] fix: accept the index arrays the replacements are
 called with

The callers pass array.array or lists, which have no shape.
---
 src/flowstab/_cython_subst.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 97689be..c1075cc 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -345,8 +345,8 @@ def get_submat_sum(
     """
     s = 0.0
     col_set = []
-    num_row = row_idx.shape[0]
-    num_col = col_idx.shape[0]
+    num_row = len(row_idx)
+    num_col = len(col_idx)
     
     for i in range(num_col):
         col_set.append(col_idx[i])
@@ -403,7 +403,7 @@ def compute_delta_PT_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     idx_set = list()
     
     for i in range(num_idx):
@@ -448,7 +448,7 @@ def compute_delta_S_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     s = compute_delta_PT_moveto(PTdata,
                                 PTindices,
@@ -484,7 +484,7 @@ def compute_delta_PT_moveout(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     idx_set = list()
     
@@ -531,7 +531,7 @@ def compute_delta_S_moveout(
     """
     
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     s = compute_delta_PT_moveout(PTdata, PTindices, PTindptr,
                                  PTcscdata, PTcscindices, PTcscindptr,
                                  k, idx)
-- 
2.43.0


From f8e5d40cb5f01795b3b2c8b81f0372958445ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:26 +0000
Subject: [PATCH 63/70] fix: normalise rows to a zero sum without cython as
 with it

The replacement of inplace_csr_row_normalize erased the rows instead of
subtracting their mean.
---
 src/flowstab/_cython_subst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index c1075cc..4b8c638 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -42,7 +42,11 @@ def inplace_csr_row_normalize(Tf_data, Tf_indptr, n_row:int, row_sum:float):
     for i in range(n_row):
         row_sum_tmp = Tf_data[Tf_indptr[i]:Tf_indptr[i+1]].sum()
         if row_sum_tmp != 0:
-            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
+            if row_sum == 0:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] -= \
+                    row_sum_tmp/(Tf_indptr[i+1]-Tf_indptr[i])
+            else:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
 
 class SPA:
     """sparse accumulator
-- 
2.43.0


From 408dc9168ccf495297637b51e3f054ac67ba2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:22 +0000
Subject: [PATCH 64/70] fix: load_T failed for matrices of both storage formats
 in one file

---
 src/flowstab/temporal_network.py | 35 ++++++++------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f312da4..35f81d4 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -999,38 +999,21 @@ class ContTempNetwork:
         if "T" in load_dict.keys():
             return_dict["T"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = \
-                        SparseStochMat(**load_dict["T"][lamda])
-
-            else:
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = load_dict["T"][lamda]
+            # each T is saved in its own format
+            for lamda, mat in load_dict["T"].items():
+                return_dict["T"][lamda] = \
+                    SparseStochMat(**mat) if isinstance(mat, dict) else mat
 
 
         if "T_lin" in load_dict.keys():
             return_dict["T_lin"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
-
-                        return_dict["T_lin"][lamda][t_s] = \
-                            SparseStochMat(**load_dict["T_lin"][lamda][t_s])
-
-            else:
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
+            for lamda in load_dict["T_lin"].keys():
+                return_dict["T_lin"][lamda] = dict()
 
-                        return_dict["T_lin"][lamda][t_s] = \
-                                            load_dict["T_lin"][lamda][t_s]
+                for t_s, mat in load_dict["T_lin"][lamda].items():
+                    return_dict["T_lin"][lamda][t_s] = \
+                        SparseStochMat(**mat) if isinstance(mat, dict) else mat
 
 
 
-- 
2.43.0


From 5df3bf6a405d562cb6ad8aa55a8d10988cadaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:32 +0000
Subject: [PATCH 65/70] fix: sparse covariances of larger networks were taken
 for zero

is_all_zeros compared the entries with an absolute 1e-8, but those of a
covariance scale as 1/size**2: clusterings of weakly structured larger
networks stopped at stability 0 in the sparse representation only.
---
 src/flowstab/sparse_stoch_mat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index a865b90..c36f14e 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1020,17 +1020,22 @@ class SparseAutocovMat:
         """Returns True of all values are equal to zero.
         checks only nonzero values of self.PT 
         """
+        # values scale as one over the square of the size
+        atol = 1e-6/self.size**2
+
         if self.p_scalars:
             for row in range(self.size):
                 for k in range(self.PT.indptr[row],self.PT.indptr[row+1]):
                     col = self.PT.indices[k]
-                    if not np.allclose(self.PT.data[k], self.p1p2):
+                    if not np.allclose(self.PT.data[k], self.p1p2,
+                                       rtol=0, atol=atol):
                         return False
         else:
             for row in range(self.size):
                 for k in range(self.PT.indptr[row],self.PT.indptr[row+1]):
                     col = self.PT.indices[k]
-                    if not np.allclose(self.PT.data[k], self.p1[row]*self.p2[col]):
+                    if not np.allclose(self.PT.data[k], self.p1[row]*self.p2[col],
+                                       rtol=0, atol=atol):
                         return False
 
         return True
-- 
2.43.0


From 1b7101939aad099a01674e85a9002591b343df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:32 +0000
Subject: [PATCH 66/70] fix: None among several time scales failed with a
 KeyError

compute_laplacian_transition_matrices uses the inverse median
inter-event time for it; look the matrices up at that rate.
---
 src/flowstab/flow_stability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index e492634..b8ddee5 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -653,7 +653,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                 f"Creating a flow integral clustering for time_scale={_ts}."
             )
             if _ts is None:
-                _lambda = None
+                # the default rate of the inter transition matrices
+                _lambda = 1 / np.median(np.diff(self.temporal_network.times))
             else:
                 _lambda = 1 / _ts
 
-- 
2.43.0


From c890240409e62ebefafd6df4e6955cd2edc3f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:32 +0000
Subject: [PATCH 67/70] fix: Louvain from a given partition did not try to
 merge its clusters

When no single node of the given partition could move, the search ended
after the first loop although merging clusters raised the stability.
---
 src/flowstab/network_clustering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 6baf567..38259d6 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -927,8 +927,7 @@ class BaseClustering:
         delta_r_meta_loop = 1
         n_meta_loop = 0
         stop = False
-        while not ((delta_r_meta_loop <= delta_r_threshold) or stop or \
-                                                   (n_meta_loop > n_meta_iter_max)):
+        while not (stop or (n_meta_loop > n_meta_iter_max)):
 
             n_meta_loop += 1
 
@@ -964,7 +963,8 @@ class BaseClustering:
             if (all([len(c) == 1 for clust_list in self._get_cluster_list().values() \
                      for c in clust_list])) or \
                    n_meta_loop > n_meta_iter_max or \
-                   delta_r_meta_loop <= delta_r_threshold:
+                   (delta_r_meta_loop <= delta_r_threshold and n_meta_loop > 1):
+                # (after the first loop, the clusters of a given partition can still be merged)
                 stop = True # we've reached the best partition
                 if verbose:
                     print("Reached best partition.")
-- 
2.43.0


From 31919fa11a3511bc65d78b75a3764046ff4fe757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:32 +0000
Subject: [PATCH 68/70] fix: static clustering of sparse directed graphs failed
 at random

With a random start vector the eigenvalue solver often did not converge
on ring-like directed graphs, or returned another eigenvector.
---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 38259d6..20da238 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2470,7 +2470,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         if is_csr:
 
             # 1 is the eigenvalue with the largest real part
-            w, v = eigs(Tstat.T, k=1, which="LR")
+            w, v = eigs(Tstat.T, k=1, which="LR", v0=np.ones(degs.size))
 
             assert np.allclose(np.abs(w[0]) ,1)
 
-- 
2.43.0


From b644f6d0398533e4fc8ddbf7216ef2b8bcec0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:32 +0000
Subject: [PATCH 69/70] fix: discrete time random walk ignored for numpy
 integer times

static_clustering silently used the continuous time walk for them.
---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 20da238..ec80510 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2491,7 +2491,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         pi = degs/degs.sum()
 
     # transition matrix at time t
-    if discrete_time_rw and isinstance(t,int):
+    if discrete_time_rw and isinstance(t,(int, np.integer)):
 
         T = power(Tstat,t)
 
-- 
2.43.0


From 50e8420289bf196e013bbe085b5014508f2398f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:16 +0000
Subject: [PATCH 70/70] fix: clusterings of a previous network or window stayed
 among the results

---
 src/flowstab/flow_stability.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index b8ddee5..1804661 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -499,6 +499,11 @@ class FlowStability(metaclass=StateMeta, states=States):
             t_stop=self.t_stop
         ))
         self._temporal_network.compute_laplacian_matrices(**kwargs)
+        # clusterings of the previous network or time window are no longer valid
+        self._flow_clustering_forward = {}
+        self._flow_clustering_backward = {}
+        self._state.properties_set["flow_clustering_forward"] = False
+        self._state.properties_set["flow_clustering_backward"] = False
         return self
 
     @register(minimal_state=States.LAPLAC, next_state=States.INTER_T)
-- 
2.43.0

