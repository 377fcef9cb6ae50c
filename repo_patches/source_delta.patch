From e85c8f34c1f2582fce3c7406afd824d86bc9f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 01/42] fix: DiGraph.reverse_direction must drop the cached
 tensors of the old direction

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..683f635 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -298,6 +298,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From 555c3e420efc8da1b92e7bd9c5bcb452744c600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 02/42] fix: mean aggregation with custom edge weights divides
 by the weight sum instead of multiplying by it

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..4399bcf 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -681,7 +681,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -734,7 +734,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 683f635..f6c68bb 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -585,7 +585,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -627,7 +627,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..104e0d1 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -692,7 +692,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..8ae2c9b 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1283,7 +1283,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1347,7 +1347,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1482,7 +1482,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1546,7 +1546,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From afae06124beca866d2642fc389d8e5cdf05fe6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 03/42] fix: Graph.v2v softmax_then_sum without custom weights
 calls the softmax

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 104e0d1..3f7c6cd 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -677,7 +677,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From b2cf0ec26bd78327b85d7ffb070c3f6a72bf511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 04/42] fix: Hypergraph clone, state export and hyperedge
 dropping keep the vertex weights

---
 dhg/structure/hypergraphs/hypergraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 8ae2c9b..80d96b2 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "raw_groups": self._raw_groups, "v_weight": self._v_weight}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -148,7 +148,7 @@ class Hypergraph(BaseHypergraph):
     def clone(self) -> "Hypergraph":
         r"""Return a copy of the hypergraph.
         """
-        hg = Hypergraph(self.num_v, device=self.device)
+        hg = Hypergraph(self.num_v, v_weight=deepcopy(self._v_weight), device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
@@ -171,7 +171,7 @@ class Hypergraph(BaseHypergraph):
         Args:
             ``state_dict`` (``dict``): The state dict to load the hypergraph.
         """
-        _hg = Hypergraph(state_dict["num_v"])
+        _hg = Hypergraph(state_dict["num_v"], v_weight=deepcopy(state_dict.get("v_weight")))
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
         return _hg
 
@@ -462,6 +462,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self._v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
@@ -489,6 +490,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self._v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
-- 
2.43.0


From 5cfab1530eaf2f6569aef32d054d9720860ba942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 05/42] fix: Hypergraph.v_weight falls back to the default
 weights after clear()

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 80d96b2..45af342 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -510,7 +510,7 @@ class Hypergraph(BaseHypergraph):
     def v_weight(self) -> List[float]:
         r"""Return the list of vertex weights.
         """
-        return self._v_weight
+        return super().v_weight
 
     @property
     def e(self) -> Tuple[List[List[int]], List[float]]:
-- 
2.43.0


From 1c7c349e6f837bd4edc2cbe998fe45127528626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 06/42] fix: Hypergraph.to moves all cached incidence and
 connection tensors

---
 dhg/structure/hypergraphs/hypergraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 45af342..afef2c4 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -662,6 +662,8 @@ class Hypergraph(BaseHypergraph):
         return [
             "H",
             "H_T",
+            "H_v2e",
+            "H_e2v",
             "L_sym",
             "L_rw",
             "L_HGNN",
@@ -674,7 +676,8 @@ class Hypergraph(BaseHypergraph):
             "D_e_neg_1",
             "v2e_src",
             "v2e_dst",
-            "v2e_weight" "e2v_src",
+            "v2e_weight",
+            "e2v_src",
             "e2v_dst",
             "e2v_weight",
         ]
-- 
2.43.0


From 8ed0510d8ddb8466df40e87e83a146e05b072234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 07/42] fix: BiGraph.to moves the cached GCN Laplacian

---
 dhg/structure/graphs/bipartite_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 4399bcf..4518874 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -456,6 +456,7 @@ class BiGraph(BaseGraph):
             "A",
             "B",
             "B_T",
+            "L_GCN",
             "D_u",
             "D_v",
             "D_u_neg_1",
-- 
2.43.0


From 0f13ad66a936e18ca75642f6e48d6a8304170d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 08/42] fix: Graph.N_v returns multi-hop neighbours on the
 current device

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 3f7c6cd..db0aab6 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -539,7 +539,7 @@ class Graph(BaseGraph):
                     A_k = torch.sparse.mm(A_k, A_1)
                 self.cache[f"A_{hop}"] = A_k
             else:
-                A_k = self.cache[f"A_{hop}"]
+                A_k = self.cache[f"A_{hop}"].to(self.device)
         sub_v_set = A_k[v_idx]._indices()[0].clone()
         return sub_v_set
 
-- 
2.43.0


From 2b2494a9b48080f4d6f1b807577045c3a6c3f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 09/42] fix: matrices of edgeless DiGraph/BiGraph are created
 on the structure's device

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 4518874..19b0e7c 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -484,7 +484,7 @@ class BiGraph(BaseGraph):
         """
         if self.cache.get("B", None) is None:
             if self.num_e == 0:
-                self.cache["B"] = torch.sparse_coo_tensor(size=(self.num_u, self.num_v))
+                self.cache["B"] = torch.sparse_coo_tensor(size=(self.num_u, self.num_v), device=self.device)
             else:
                 e_list, e_weight = self.e
                 self.cache["B"] = torch.sparse_coo_tensor(
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index f6c68bb..ab7176b 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -418,7 +418,7 @@ class DiGraph(BaseGraph):
         """
         if self.cache.get("A", None) is None:
             if self.num_e == 0:
-                self.cache["A"] = torch.sparse_coo_tensor(size=(self.num_v, self.num_v))
+                self.cache["A"] = torch.sparse_coo_tensor(size=(self.num_v, self.num_v), device=self.device)
             else:
                 e_list, e_weight = self.e
                 self.cache["A"] = torch.sparse_coo_tensor(
-- 
2.43.0


From 8af7f44be00e205d3585b587d2326581ac26b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 10/42] fix: BiGraph rejects a non-positive number of vertices
 in set U

---
 dhg/structure/graphs/bipartite_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 19b0e7c..8e35b9a 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -35,6 +35,7 @@ class BiGraph(BaseGraph):
         device: torch.device = torch.device("cpu"),
     ):
         super().__init__(num_v, device=device)
+        assert isinstance(num_u, int) and num_u > 0, "num_u should be a positive integer"
         self._num_u = num_u
         if e_list is not None:
             self.add_edges(e_list, e_weight, merge_op=merge_op)
-- 
2.43.0


From e0066ff6d5678aa682e45a2c70579559ac10cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 11/42] fix: graphs reject negative vertex ids and a weight
 list of the wrong length

---
 dhg/structure/base.py                   | 2 ++
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..f276076 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -134,9 +134,11 @@ class BaseGraph:
             if e_weight is not None:
                 e_weight = [e_weight]
         assert np.array(e_list).max() < self._num_v, "Vertex index out of range"
+        assert np.array(e_list).min() >= 0, "Vertex index out of range"
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 8e35b9a..fbe448a 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -200,9 +200,11 @@ class BiGraph(BaseGraph):
         e_array = np.array(e_list)
         assert e_array[:, 0].max() < self.num_u, "The u_idx in e_list is out of range."
         assert e_array[:, 1].max() < self.num_v, "The v_idx in e_list is out of range."
+        assert e_array.min() >= 0, "Vertex index out of range."
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From 7c371e92272e99f7507154b0f7ea4ddc9f15e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 12/42] fix: adding or removing hyperedges must not rewrite the
 caller's list

---
 dhg/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index f276076..5535a49 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -498,7 +498,7 @@ class BaseHypergraph:
         elif type(e_list) == tuple:
             e_list = list(e_list)
         elif type(e_list) == list:
-            pass
+            e_list = list(e_list)
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
         for _idx in range(len(e_list)):
-- 
2.43.0


From 605b1cbcf94da82f4e82e852bb94dbeafba0e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 13/42] fix: Hypergraph keeps its own copy of the vertex
 weights

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index afef2c4..c36a2b7 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -42,7 +42,7 @@ class Hypergraph(BaseHypergraph):
             self._v_weight = [1.0] * self.num_v
         else:
             assert len(v_weight) == self.num_v, "The length of vertex weight is not equal to the number of vertices."
-            self._v_weight = v_weight
+            self._v_weight = list(v_weight)
         # init hyperedges
         if e_list is not None:
             self.add_hyperedges(e_list, e_weight, merge_op=merge_op)
-- 
2.43.0


From 27706fd23ae405be3b8f35778b616a3ea943b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 14/42] fix: Graph.from_hypergraph_clique honours its miu
 argument

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index db0aab6..d974262 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From aefe81315bac5c7a454c6eada7873bedacf4f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 15/42] fix: hyperedges with an unknown merge operation or a
 negative vertex id are rejected before anything is stored

---
 dhg/structure/base.py                   | 1 +
 dhg/structure/hypergraphs/hypergraph.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 5535a49..6513aef 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -654,6 +654,7 @@ class BaseHypergraph:
             ``merge_op`` (``str``): The merge operation for the conflicting hyperedges.
             ``group_name`` (``str``): The target hyperedge group to add this hyperedge.
         """
+        assert merge_op in ["mean", "sum", "max",], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
         if group_name not in self.group_names:
             self._raw_groups[group_name] = {}
             self._raw_groups[group_name][hyperedge_code] = content
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index c36a2b7..02c641b 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -333,6 +333,7 @@ class Hypergraph(BaseHypergraph):
             ``group_name`` (``str``, optional): The target hyperedge group to add these hyperedges. Defaults to the ``main`` hyperedge group.
         """
         e_list = self._format_e_list(e_list)
+        assert all(v >= 0 for e in e_list for v in e), "The vertex index in hyperedges should not be negative."
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
         elif type(e_weight) in (int, float):
-- 
2.43.0


From 169d898102406f568071e36d156651bfa50d04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 16/42] fix: DiGraph.from_feature_kNN with one neighbour and
 the centre included

---
 dhg/structure/graphs/directed_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index ab7176b..eab78ca 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -230,7 +230,7 @@ class DiGraph(BaseGraph):
             find_tk = k
         else:
             find_tk = k + 1
-        nbr_dist, nbr_idx = tree.query(features, k=find_tk, p=p)
+        nbr_dist, nbr_idx = tree.query(features, k=list(range(1, find_tk + 1)), p=p)
         center_idx = np.arange(num_v).reshape(-1, 1).repeat(find_tk - 1, 1)
         nbr_dist = nbr_dist[:, 1:]
         nbr_idx = nbr_idx[:, 1:]
-- 
2.43.0


From 0f89552142b4f565b5df60728dca96426adc096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 17/42] fix: DiGraph.from_feature_kNN stores plain float
 weights, so its matrices match float32 features

---
 dhg/structure/graphs/directed_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index eab78ca..78998c8 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -239,9 +239,9 @@ class DiGraph(BaseGraph):
         else:
             e_list = np.concatenate([nbr_idx.reshape(-1, 1), center_idx.reshape(-1, 1)], axis=1).tolist()
         if distance2weight:
-            e_weight = np.exp(-nbr_dist).reshape(-1)
+            e_weight = np.exp(-nbr_dist).reshape(-1).tolist()
         else:
-            e_weight = np.ones_like(nbr_dist).reshape(-1)
+            e_weight = np.ones_like(nbr_dist).reshape(-1).tolist()
         _g = DiGraph(num_v, e_list, e_weight, device=device)
         if include_center:
             _g.add_extra_selfloop()
-- 
2.43.0


From 9ace93a738fa27898eb5b0662ed9a718c3a6ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 18/42] fix: Graph.from_hypergraph_hypergcn with mediators when
 no hyperedge has three vertices

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index d974262..0f09d09 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -293,7 +293,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).reshape(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From d3af101e30fbbcf752dec614a7882863903d4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 19/42] fix: graph_Gnm and digraph_Gnm accept the complete
 graph

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..f3f236a 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -84,7 +84,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..b4766f6 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -74,7 +74,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From 8b7f5107b388bc460b7c377842a3b237621589a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 20/42] fix: Gnp_fast generators work for the accepted
 probabilities 0 and 1

---
 dhg/random/graphs/directed_graph.py | 3 +++
 dhg/random/graphs/graph.py          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index f3f236a..d8bc8c7 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,6 +43,9 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob == 0 or prob == 1:
+        return digraph_Gnp(num_v, prob)
+
     lp = math.log(1.0 - prob)
     e_list = []
     # w -> v
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index b4766f6..fb92e66 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -44,6 +44,9 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob == 0 or prob == 1:
+        return graph_Gnp(num_v, prob)
+
     e_list = []
     lp = math.log(1.0 - prob)
     v, w = 1, -1
-- 
2.43.0


From 37a0508bb09fe3fc02a9aec71c34dc11dcf85d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 21/42] fix: fixed-size hypergraph generators reject more
 hyperedges than exist instead of looping forever

---
 dhg/random/hypergraphs/hypergraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dhg/random/hypergraphs/hypergraph.py b/dhg/random/hypergraphs/hypergraph.py
index a0948b7..8a6fc24 100644
--- a/dhg/random/hypergraphs/hypergraph.py
+++ b/dhg/random/hypergraphs/hypergraph.py
@@ -52,6 +52,8 @@ def uniform_hypergraph_Gnm(k: int, num_v: int, num_e: int):
     assert num_v > 1, "num_v must be greater than 1"
     assert num_e > 0, "num_e must be greater than 0"
 
+    assert k <= num_v and num_e <= C(num_v, k), "the specified num_e is larger than the possible number of hyperedges"
+
     edges = set()
     while len(edges) < num_e:
         e = random.sample(range(num_v), k)
@@ -108,6 +110,10 @@ def hypergraph_Gnm(num_v: int, num_e: int, method:str="low_order_first", prob_k_
     else:
         raise ValueError(f"Unknown method: {method}")
 
+    assert num_e <= sum(
+        C(num_v, k) for k, prob_k in zip(deg_e_list, prob_k_list) if prob_k > 0
+    ), "the specified num_e is larger than the possible number of hyperedges"
+
     edges = set()
     while len(edges) < num_e:
         k = random.choices(deg_e_list, weights=prob_k_list)[0]
-- 
2.43.0


From 7a9896a080fa8b51d5cb44d2a19f9b704805ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 22/42] fix: recommender metrics import numpy for their ratio
 parameter

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..7ba826c 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,6 +1,7 @@
 from typing import Optional, Union, Tuple, List, Dict
 
 import torch
+import numpy as np
 
 
 from .base import BaseEvaluator
-- 
2.43.0


From 8e50a16ddbd6604a8154dce4089d4ef71a4dca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 23/42] fix: retrieval ap and rr score queries without a
 relevant item as 0 instead of nan

---
 dhg/metrics/retrieval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..782088f 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -151,6 +151,8 @@ def ap(
 
     pred_seq = y_true[torch.argsort(y_pred, descending=True)]
     pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return 0.0
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
@@ -292,6 +294,8 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
 
     pred_seq = y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]
     pred_index = torch.nonzero(pred_seq).view(-1)
+    if len(pred_index) == 0:
+        return 0.0
     res = (1 / (pred_index + 1)).mean().cpu()
     return res.mean().item()
 
-- 
2.43.0


From 9199970628f4799267e24dbec7affb3e6497f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 24/42] fix: BaseEvaluator.test_epoch_res returns a fresh
 result per epoch and rejects an epoch without batches

---
 dhg/metrics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..a467385 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -93,7 +93,7 @@ class BaseEvaluator:
         # init batch data containers
         self.validate_res = []
         self.test_res_dict = defaultdict(list)
-        self.last_validate_res, self.last_test_res = None, {}
+        self.last_validate_res, self.last_test_res = None, None
 
     @abc.abstractmethod
     def __repr__(self) -> str:
@@ -153,6 +153,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From 972126d711b6a5ddbb1546e807abaaf7ebc81f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 25/42] fix: retrieval pr_curve gives precision 0 for a query
 without a relevant item instead of raising

---
 dhg/metrics/retrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 782088f..a4109f9 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -376,6 +376,8 @@ def _pr_curve(
 
     pred_seq = y_true[torch.argsort(y_pred, descending=True)]
     pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return [0.0] * n_points, np.linspace(0, 1, n_points).tolist()
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
-- 
2.43.0


From c2e51c114c6a4620edeebf1f1022e9c9dd7e1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 26/42] fix: remap_adj_list(s) keep vertices that only occur on
 lines without neighbours

---
 dhg/utils/structure.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index 207d4e5..90292f1 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -157,9 +157,7 @@ def remap_adj_list(
     if bipartite_graph:
         u_set, v_set = set(), set()
         for line in adj_list:
-            if len(line) <= 1:
-                continue
-            u_set.add(line[0])
+            u_set.update(line[:1])
             for v in line[1:]:
                 v_set.add(v)
         u_list, v_list = sorted(u_set), sorted(v_set)
@@ -168,7 +166,7 @@ def remap_adj_list(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_list = [
-            [u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list
+            [u_map[u] for u in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list
         ]
         if ret_map:
             return adj_list, u_map, v_map
@@ -177,8 +175,6 @@ def remap_adj_list(
     else:
         v_set = set()
         for line in adj_list:
-            if len(line) <= 1:
-                continue
             for v in line:
                 v_set.add(v)
         v_list = sorted(v_set)
@@ -210,9 +206,7 @@ def remap_adj_lists(
         u_set, v_set = set(), set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
-                    continue
-                u_set.add(line[0])
+                u_set.update(line[:1])
                 for v in line[1:]:
                     v_set.add(v)
         u_list, v_list = sorted(u_set), sorted(v_set)
@@ -221,7 +215,7 @@ def remap_adj_lists(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_lists = [
-            [[u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list]
+            [[u_map[u] for u in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list]
             for adj_list in adj_lists
         ]
         if ret_map:
@@ -232,8 +226,6 @@ def remap_adj_lists(
         v_set = set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
-                    continue
                 for v in line:
                     v_set.add(v)
         v_list = sorted(v_set)
-- 
2.43.0


From 597378fbdc2de7659f40519f175f333d74e30ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 27/42] fix: split_by_num and split_by_ratio keep the classes
 of non-contiguous labels

---
 dhg/utils/dataset_split.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..bd6b7a5 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -57,7 +57,6 @@ def split_by_num(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -66,7 +65,7 @@ def split_by_num(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         random.shuffle(lbl_v_idx)
         train_idx.extend(lbl_v_idx[:train_num])
@@ -118,7 +117,6 @@ def split_by_ratio(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
@@ -132,7 +130,7 @@ def split_by_ratio(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         _num = lbl_v_idx.shape[0]
         random.shuffle(lbl_v_idx)
-- 
2.43.0


From 3ba747caca00ef7f8ffbb77c09ca65741097794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 28/42] fix: datasets outside the cache root can be downloaded

---
 dhg/utils/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..a26f300 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -68,6 +68,7 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
+    if CACHE_ROOT not in file_path.parents: return False
     legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
     if legacy_path is None or not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From bd19a5dfa4dbc384e28a265b1a56e4d2bd329c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 29/42] fix: negative sampling for a user who interacts with
 every item is rejected instead of looping forever

---
 dhg/utils/dataset_wrapers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/utils/dataset_wrapers.py b/dhg/utils/dataset_wrapers.py
index 095e591..31e55fc 100644
--- a/dhg/utils/dataset_wrapers.py
+++ b/dhg/utils/dataset_wrapers.py
@@ -56,6 +56,9 @@ class UserItemDataset(Dataset):
         Args:
             ``user`` (``int``): The index of the specified user.
         """
+        assert (
+            len(set(self.adj_dict[user])) < self.num_items
+        ), f"User {user} interacts with every item, no negative item exists."
         neg_item = random.randrange(self.num_items)
         while neg_item in self.adj_dict[user]:
             neg_item = random.randrange(self.num_items)
-- 
2.43.0


From 7c0f0f624a145501fe0e8ed13459abfe8d090b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 30/42] fix: min_max_scaler maps a constant matrix to ft_min
 instead of dividing by zero

---
 dhg/datapipe/normalize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/datapipe/normalize.py b/dhg/datapipe/normalize.py
index f8a2b4e..7f7ebe6 100644
--- a/dhg/datapipe/normalize.py
+++ b/dhg/datapipe/normalize.py
@@ -63,7 +63,8 @@ def min_max_scaler(X: torch.Tensor, ft_min: float, ft_max: float) -> torch.Tenso
     assert ft_min < ft_max, "The minimum value of the feature should be less than the maximum value."
     X_min, X_max = X.min().item(), X.max().item()
     X_range = X_max - X_min
-    scale_ = (ft_max - ft_min) / X_range
+    # a constant matrix has no range to stretch, it is mapped to ft_min
+    scale_ = (ft_max - ft_min) / X_range if X_range != 0 else 0.0
     min_ = ft_min - X_min * scale_
     X = X * scale_ + min_
     return X
-- 
2.43.0


From c10d20d6f33599616d7e19ef72f86c938deab560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 31/42] fix: attention layers crash on a structure with a
 single edge

---
 dhg/nn/convs/graphs/gat_conv.py         | 2 +-
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/nn/convs/graphs/gat_conv.py b/dhg/nn/convs/graphs/gat_conv.py
index 91996f6..74d1274 100644
--- a/dhg/nn/convs/graphs/gat_conv.py
+++ b/dhg/nn/convs/graphs/gat_conv.py
@@ -48,7 +48,7 @@ class GATConv(nn.Module):
         x_for_src = self.atten_src(X)
         x_for_dst = self.atten_dst(X)
         e_atten_score = x_for_src[g.e_src] + x_for_dst[g.e_dst]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index cc67be8..7dfb6e8 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -136,7 +136,7 @@ class UniGATConv(nn.Module):
         # ===============================================
         alpha_e = self.atten_e(Y)
         e_atten_score = alpha_e[hg.e2v_src]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
-- 
2.43.0


From 5ad5434e1890a7d6da1250e2d2420ec9c96fe2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 32/42] fix: keep the best model of an experiment that
 minimizes its score

---
 dhg/experiments/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..ed27ada 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -107,9 +107,12 @@ class BaseTask:
             if scheduler is not None:
                 scheduler.step()
             if self.direction == "maximize":
-                if val_res > best_score:
-                    best_score = val_res
-                    best_model = deepcopy(model)
+                is_better = val_res > best_score
+            else:
+                is_better = val_res < best_score
+            if is_better:
+                best_score = val_res
+                best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From 08f46ac94298a4da8101c20ae37a3840f6b76a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 33/42] fix: run experiments whose data has no structure

---
 dhg/experiments/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index ed27ada..3ff9261 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -115,7 +115,8 @@ class BaseTask:
                 best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        if "structure" in self.data:
+            self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
         return best_score
 
     def _remove_cached_data(self):
@@ -143,9 +144,11 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
+        self.best_structure = None
+        if "structure" in self.data:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+            self.best_structure = self.best_structure.to(self.device)
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 754a0188407f5b900be896787f5548b5125a26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 34/42] fix: report test metrics that are not single numbers

---
 dhg/experiments/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 3ff9261..98d3378 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -159,7 +159,7 @@ class BaseTask:
         test_res = self.test()
         self.logger.info(f"Final test results:")
         for key, value in test_res.items():
-            self.logger.info(f"\t{key} |-> {value:.3f}")
+            self.logger.info(f"\t{key} |-> {value:.3f}" if isinstance(value, float) else f"\t{key} |-> {value}")
 
     @abc.abstractmethod
     def train(
-- 
2.43.0


From bf6689a032403e38c761868825e9e13c04297018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 35/42] fix: move the training mask to the device when testing
 a recommender

---
 dhg/experiments/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/experiments/recommender.py b/dhg/experiments/recommender.py
index af405f1..f9626bd 100644
--- a/dhg/experiments/recommender.py
+++ b/dhg/experiments/recommender.py
@@ -163,6 +163,7 @@ class UserItemRecommenderTask(BaseTask):
         model.eval()
         for users, train_mask, true_rating in test_loader:
             users = users.to(self.device)
+            train_mask = train_mask.to(self.device)
             true_rating = true_rating.to(self.device)
             if structure is not None:
                 emb_u, emb_i = model(structure)
-- 
2.43.0


From d16f9f26f7c61aeb2ec1aef080bd4f802436ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 36/42] fix: draw(font_size=...) scales the vertex labels

draw_graph, draw_digraph and draw_hypergraph never passed font_size to
default_size, so the argument had no effect.
---
 dhg/visualization/structure/draw.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..d76eb51 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -63,7 +63,9 @@ def draw_graph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_style(g.num_v, g.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -130,7 +132,9 @@ def draw_digraph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, _ = default_style(g.num_v, g.num_e, v_color, e_color, None)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -313,7 +317,9 @@ def draw_hypergraph(
     num_v, e_list = hg.num_v, deepcopy(hg.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_hypergraph_style(hg.num_v, hg.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_hypergraph_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
-- 
2.43.0


From 8a3f93dbff6e197157c8c8014f822b08d15b0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 37/42] fix: draw(v_line_width=...) sets the outline width of
 the vertices

The width was stored in an attribute matplotlib does not read; the collection
that draws the circles takes it as linewidths.
---
 dhg/visualization/structure/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..48e35f5 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -133,9 +133,8 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
+    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
         circle = Circle(coor, size)
-        circle.lineWidth = width
         # circle.label = label
         if label != '':
             x, y = coor[0], coor[1]
@@ -144,7 +143,7 @@ def draw_vertex(
             y += offset[1]
             ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
-    p = PatchCollection(patches, facecolors=v_color, edgecolors="black")
+    p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
 
 
-- 
2.43.0


From ddbb485d91298c789e3f79a2d4f6593114b4a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 38/42] fix: draw_bigraph uses u_font_size for U and
 v_font_size for V

Both sides were labelled with the sum of the two sizes.
---
 dhg/visualization/structure/draw.py  |  2 +-
 dhg/visualization/structure/utils.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index d76eb51..9d3f4e6 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -260,7 +260,7 @@ def draw_bigraph(
         ax,
         np.vstack([u_coor, v_coor]),
         list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
-        u_font_size + v_font_size,
+        [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
         u_color + v_color,
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 48e35f5..8cfafd8 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -1,5 +1,5 @@
 from itertools import chain
-from typing import Optional, List, Tuple
+from typing import Optional, Union, List, Tuple
 
 import matplotlib
 import numpy as np
@@ -123,7 +123,7 @@ def draw_vertex(
     ax: matplotlib.axes.Axes,
     v_coor: List[Tuple[float, float]],
     v_label: Optional[List[str]],
-    font_size: int,
+    font_size: Union[float, list],
     font_family: str,
     v_size: list,
     v_color: list,
@@ -133,7 +133,9 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
+    if not isinstance(font_size, list):
+        font_size = [font_size] * n
+    for coor, label, label_size, size in zip(v_coor.tolist(), v_label, font_size, v_size):
         circle = Circle(coor, size)
         # circle.label = label
         if label != '':
@@ -141,7 +143,7 @@ def draw_vertex(
             offset = 0, -1.3 * size
             x += offset[0]
             y += offset[1]
-            ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
+            ax.text(x, y, label, fontsize=label_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
     p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
-- 
2.43.0


From 5b4840fa72a5c6b36abd53017d250ae9d267a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 39/42] fix: draw_bigraph draws the labels of one side when the
 other has none

---
 dhg/visualization/structure/draw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 9d3f4e6..dced35a 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -256,10 +256,12 @@ def draw_bigraph(
     else:
         raise ValueError("e_style must be 'line'")
 
+    u_label = list(u_label) if u_label is not None else [""] * num_u
+    v_label = list(v_label) if v_label is not None else [""] * num_v
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
-        list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
+        u_label + v_label,
         [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
-- 
2.43.0


From 14fb32af08405a7197576dcba03faa067583d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 40/42] fix: the layout of a bipartite graph attracts the end
 points of its edges

bipartite_force_layout builds one incidence matrix over U and V, but was given
edges whose V index had not been offset by the size of U yet, so the forces
pulled together vertices that share no edge.
---
 dhg/visualization/structure/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index dced35a..1389c9d 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -234,6 +234,8 @@ def draw_bigraph(
         pull_u_center_strength,
         pull_v_center_strength,
     )
+    # preprocess
+    e_list = [(u, v + num_u) for u, v in e_list]
     # layout
     u_coor, v_coor = bipartite_force_layout(
         num_u,
@@ -247,8 +249,6 @@ def draw_bigraph(
         pull_v_center_strength,
     )
 
-    # preprocess
-    e_list = [(u, v + num_u) for u, v in e_list]
     if e_style == "line":
         draw_line_edge(
             ax, np.vstack([u_coor, v_coor]), u_size + v_size, e_list, False, e_color, e_line_width,
-- 
2.43.0


From eadfea8d40af06e2d7d7ec38bc3d4354b5ceaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 41/42] fix: documented arguments are named as the signatures
 spell them

Several docstrings name arguments the functions do not accept (num_v of
add_hyperedges, feature of the embedding plots, structure_builder of the graph
classification task, clap of tanh), or a default they do not have (merge_op of
add_edges).
---
 dhg/experiments/graphs/graph.py            | 1 -
 dhg/structure/base.py                      | 3 +--
 dhg/structure/hypergraphs/hypergraph.py    | 3 +--
 dhg/visualization/feature/utils.py         | 4 ++--
 dhg/visualization/feature/visualization.py | 8 ++++----
 5 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/dhg/experiments/graphs/graph.py b/dhg/experiments/graphs/graph.py
index bcfbba5..d87501b 100644
--- a/dhg/experiments/graphs/graph.py
+++ b/dhg/experiments/graphs/graph.py
@@ -19,7 +19,6 @@ class GraphVertexClassificationTask(VertexClassificationTask):
         ``train_builder`` (``Callable``): The function to build a training configuration with two fixed parameters ``trial`` and ``model``.
         ``evaluator`` (``dhg.metrics.BaseEvaluator``): The DHG evaluator object to evaluate performance of the model in the experiment.
         ``device`` (``torch.device``): The target device to run the experiment.
-        ``structure_builder`` (``Optional[Callable]``): The function to build a structure with a fixed parameter ``trial``. The structure should be ``dhg.Graph``.
         ``study_name`` (``Optional[str]``): The name of this study. If set to ``None``, the study name will be generated automatically according to current time. Defaults to ``None``.
         ``overwrite`` (``bool``): The flag that whether to overwrite the existing study. Different studies are identified by the ``study_name``. Defaults to ``True``.
     """
diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 6513aef..7e73960 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -183,7 +183,7 @@ class BaseGraph:
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edge list.
             ``e_weight`` (``Union[float, List[float]]``, optional): A list of weights for edges. Defaults to None.
-            ``merge_op`` (``str``): The merge operation for the conflicting edges. If set to ``None``, the default merge operation specified in Graph Construction is used. Defaults to ``None``.
+            ``merge_op`` (``str``): The merge operation for the conflicting edges. If set to ``None``, the default merge operation specified in Graph Construction is used. Defaults to ``"mean"``.
         """
         for (src, dst), w in zip(e_list, e_weight):
             self._add_edge(src, dst, w, merge_op)
@@ -617,7 +617,6 @@ class BaseHypergraph:
         r"""Add hyperedges to the hypergraph. If the ``group_name`` is not specified, the hyperedges will be added to the default ``main`` hyperedge group.
 
         Args:
-            ``num_v`` (``int``): The number of vertices in the hypergraph.
             ``e_list_v2e`` (``Union[List[int], List[List[int]]]``): A list of hyperedges describes how the vertices point to the hyperedges.
             ``e_list_e2v`` (``Union[List[int], List[List[int]]]``): A list of hyperedges describes how the hyperedges point to the vertices.
             ``w_list_v2e`` (``Union[List[float], List[List[float]]]``, optional): The weights are attached to the connections from vertices to hyperedges, which has the same shape
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 02c641b..a7b2134 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -326,7 +326,6 @@ class Hypergraph(BaseHypergraph):
         r"""Add hyperedges to the hypergraph. If the ``group_name`` is not specified, the hyperedges will be added to the default ``main`` hyperedge group.
 
         Args:
-            ``num_v`` (``int``): The number of vertices in the hypergraph.
             ``e_list`` (``Union[List[int], List[List[int]]]``): A list of hyperedges describes how the vertices point to the hyperedges.
             ``e_weight`` (``Union[float, List[float]]``, optional): A list of weights for hyperedges. If set to ``None``, the value ``1`` is used for all hyperedges. Defaults to ``None``.
             ``merge_op`` (``str``): The merge operation for the conflicting hyperedges. The possible values are ``"mean"``, ``"sum"``, and ``"max"``. Defaults to ``"mean"``.
@@ -354,7 +353,7 @@ class Hypergraph(BaseHypergraph):
         r"""Add hyperedges from the feature matrix by k-NN. Each hyperedge is constructed by the central vertex and its :math:`k`-Nearest Neighbor vertices.
 
         Args:
-            ``features`` (``torch.Tensor``): The feature matrix.
+            ``feature`` (``torch.Tensor``): The feature matrix.
             ``k`` (``int``): The number of nearest neighbors.
             ``group_name`` (``str``, optional): The target hyperedge group to add these hyperedges. Defaults to the ``main`` hyperedge group.
         """
diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index fa69183..13a4ed0 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -92,7 +92,7 @@ def tanh(x, clamp=15):
 
     Args:
         ``x`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
-        ``clap`` (``int``): Boundary value.
+        ``clamp`` (``int``): Boundary value.
     """
     return np.tanh((np.clip(x, -clamp, clamp)))
 
@@ -148,7 +148,7 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
     r"""Project embeddings from Euclidean space to Hyperbolic space.
 
     Args:
-        ``feature`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
+        ``embeddings`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
         ``dim`` (``int``): Project the embedding into ``dim``-dimensional space, which is ``2`` or ``3``. Defaults to ``2``.
         ``reduce_method`` (``str``): The method to project the embedding into low-dimensional space. It can be ``pca`` or ``tsne``. Defaults to ``pca``.
     """
diff --git a/dhg/visualization/feature/visualization.py b/dhg/visualization/feature/visualization.py
index 4592419..0d0bab5 100644
--- a/dhg/visualization/feature/visualization.py
+++ b/dhg/visualization/feature/visualization.py
@@ -18,7 +18,7 @@ def draw_in_euclidean_space(
     r"""Visualize embeddings in Eulidean Space with t-SNE algorithm.
 
     Args:
-        ``feature`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
+        ``embeddings`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
         ``label`` (``np.ndarray``, optional): The label matrix. Size :math:`(N, )`.
         ``dim`` (``int``): Project the embedding into ``dim``-dimensional space, which is ``2`` or ``3``. Defaults to ``2``.
         ``cmap`` (``str``, optional): The `color map <https://matplotlib.org/stable/tutorials/colors/colormaps.html>`_. Defaults to ``"viridis"``.
@@ -44,7 +44,7 @@ def draw_in_poincare_ball(
     r"""Visualize embeddings in Poincare Ball.
 
     Args:
-        ``feature`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
+        ``embeddings`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
         ``label`` (``np.ndarray``, optional): The label matrix. Size :math:`(N, )`. Defaults to ``None``.
         ``dim`` (``int``): Project the embedding into ``dim``-dimensional space, which is ``2`` or ``3``. Defaults to ``2``.
         ``reduce_method`` (``str``): The method to project the embedding into low-dimensional space. It can be ``pca`` or ``tsne``. Defaults to ``pca``.
@@ -67,7 +67,7 @@ def animation_of_3d_poincare_ball(
     You can save the animation by ``ani.save("animation.gif")``.
 
     Args:
-        ``feature`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
+        ``embeddings`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
         ``label`` (``np.ndarray``, optional): The label matrix. Size :math:`(N, )`. Defaults to ``None``.
         ``reduce_method`` (``str``): The method to project the embedding into low-dimensional space. It can be ``pca`` or ``tsne``. Defaults to ``pca``.
         ``cmap`` (``str``, optional): The `color map <https://matplotlib.org/stable/tutorials/colors/colormaps.html>`_. Defaults to ``"viridis"``.
@@ -94,7 +94,7 @@ def animation_of_3d_euclidean_space(
     You can save the animation by ``ani.save("animation.gif")``.
 
     Args:
-        ``feature`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
+        ``embeddings`` (``np.ndarray``): The feature matrix. Size :math:`(N, C)`.
         ``label`` (``np.ndarray``, optional): The label matrix. Size :math:`(N, )`. Defaults to ``None``.
         ``cmap`` (``str``, optional): The `color map <https://matplotlib.org/stable/tutorials/colors/colormaps.html>`_. Defaults to ``"viridis"``.
     
-- 
2.43.0


From ffa60550175b1bfa1f265aea125478f00494524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 42/42] fix: count possible hyperedges exactly, also for many
 vertices

---
 dhg/utils/math.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/dhg/utils/math.py b/dhg/utils/math.py
index 955c7a0..67e42a2 100644
--- a/dhg/utils/math.py
+++ b/dhg/utils/math.py
@@ -1,14 +1,7 @@
-from math import log, exp
+from math import comb
 
 
 def C(n, m):
-    r""" Compute the C(n, m) function.
-        log(C(n, m)) = log(n!/(n-m)!) - log m!
-                     = log(n-m+1) + log(n-m+2) + ...
-                        - (log 1 + log 2 + ...)
+    r""" Compute the number of ways to choose ``m`` of ``n`` items, exactly and for any size.
     """
-    log_value = 0
-    m = min(m, n - m)
-    for i in range(1, m + 1):
-        log_value = log_value + log(n - m + i) - log(i)
-    return int(round(exp(log_value), 0))
+    return comb(n, m)
-- 
2.43.0

