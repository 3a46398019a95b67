From ad90466aae237a4addcd52cb9ed1f0ee906953d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 01/47] fix: hard removal of an edge drops the matching reverse
 index entries

remove_edge deleted _reverse_edges[u][v] together with edges[u][v]; for an
edge that exists in one direction only this raised KeyError half way through.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..21e2735 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 88b2f546d5c08b40d867db50bf6d2dfe1c435dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 02/47] fix: a path is blocked as soon as one collider blocks
 it

Only the last collider on the path decided, so an open collider further down
the path hid a blocking one.
---
 causy/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 21e2735..9979ce5 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -340,7 +340,6 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
@@ -348,7 +347,10 @@ class GraphBaseAccessMixin:
                 for descendant in self.descendants_of_node(path[i]):
                     if descendant in conditioning_set:
                         is_path_blocked = False
-        return is_path_blocked
+                # a single blocking collider blocks the whole path
+                if is_path_blocked:
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From a1b1891ecbc25752429d3faf4c5c4b6d51e25c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 03/47] fix: accept nodes and node ids alike in d-separation
 conditioning sets

Ids were ignored when blocking paths, and Node objects were not recognised
when rejecting u or v in the conditioning set.
---
 causy/graph.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9979ce5..fb436b9 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -394,8 +394,17 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes as well as node ids
+        conditioning_set = [
+            node if isinstance(node, Node) else self.node_by_id(node)
+            for node in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if (
+            self.node_by_id(u) in conditioning_set
+            or self.node_by_id(v) in conditioning_set
+        ):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -443,8 +452,17 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes as well as node ids
+        conditioning_set = [
+            node if isinstance(node, Node) else self.node_by_id(node)
+            for node in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if (
+            self.node_by_id(u) in conditioning_set
+            or self.node_by_id(v) in conditioning_set
+        ):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From e31f5c589550f638a47ce6aa67085acb356af1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 04/47] fix: only paths of definite status decide d-separation
 in a CPDAG

Paths which are not of definite status were counted as open paths.
---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index fb436b9..0e640e8 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -482,7 +482,7 @@ class GraphBaseAccessMixin:
                     is_path_blocked = True
                 if self._is_a_collider_blocking(path, conditioning_set):
                     is_path_blocked = True
-            list_of_results_for_paths.append(is_path_blocked)
+                list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
         return True
-- 
2.43.0


From a56a614db309daff0eee2467a8935e9e053258d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 05/47] fix: parents_of_node of a node without any edge is
 empty

---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index 0e640e8..cfdaca4 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
-- 
2.43.0


From 2bb1405a1ddd36d2ad32fd632d78b59c8d103548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 06/47] fix: edge_value and edge_type of an edge that only
 exists as v -> u

They raised KeyError, or answered from a soft deleted edge.
---
 causy/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causy/graph.py b/causy/graph.py
index cfdaca4..eb8ce13 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -180,6 +180,8 @@ class GraphBaseAccessMixin:
 
         if not self.edge_exists(u, v):
             return None
+        if not self.directed_edge_exists(u, v):
+            u, v = v, u
         return self.edges[u][v].metadata
 
     def edge_type(
@@ -197,6 +199,8 @@ class GraphBaseAccessMixin:
             v = v.id
         if not self.edge_exists(u, v):
             return None
+        if not self.directed_edge_exists(u, v):
+            u, v = v, u
         return self.edges[u][v].edge_type
 
     def undirected_edge_exists(self, u: Union[Node, str], v: Union[Node, str]) -> bool:
-- 
2.43.0


From 5b0279081076aaeb5c7e1ab7184da08be7d9a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 07/47] fix: directed_path_exists ignores soft deleted edges
 and terminates on cycles

---
 causy/graph.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index eb8ce13..a04bb77 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -258,7 +258,9 @@ class GraphBaseAccessMixin:
 
         return [i for i in self.edge_history[(u, v)] if i.action == action]
 
-    def directed_path_exists(self, u: Union[Node, str], v: Union[Node, str]) -> bool:
+    def directed_path_exists(
+        self, u: Union[Node, str], v: Union[Node, str], visited=None
+    ) -> bool:
         """
         Check if a directed path from u to v exists
         :param u: node u
@@ -273,8 +275,15 @@ class GraphBaseAccessMixin:
 
         if self.directed_edge_exists(u, v):
             return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+
+        if visited is None:
+            visited = set()
+        visited.add(u)
+
+        for w in self.edges.get(u, {}):
+            if w in visited or not self.directed_edge_exists(u, w):
+                continue
+            if self.directed_path_exists(w, v, visited):
                 return True
         return False
 
-- 
2.43.0


From 2e09e978a8bb5f51babf1eb00384a6025f4c7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 08/47] fix: directed_paths returns all directed paths and
 terminates on cycles

A direct edge hid every longer path, and a cycle caused infinite recursion.
---
 causy/edge_types.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..256c55d 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -61,7 +61,10 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             return u, v
 
         def directed_paths(
-            self, u: Union[NodeInterface, str], v: Union[NodeInterface, str]
+            self,
+            u: Union[NodeInterface, str],
+            v: Union[NodeInterface, str],
+            visited=(),
         ) -> List[List[Tuple[NodeInterface, NodeInterface]]]:
             """
             Return all directed paths from u to v
@@ -71,12 +74,15 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             """
             u, v = self._resolve_node_references(u, v)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
             paths = []
-            for w in self.edges[u.id]:
+            if self.directed_edge_exists(u, v):
+                paths.append([(u, v)])
+            visited = (*visited, u.id)
+            for w in self.edges.get(u.id, {}):
+                if w == v.id or w in visited:
+                    continue
                 if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
+                    for path in self.directed_paths(self.nodes[w], v, visited):
                         paths.append([(u, self.nodes[w])] + path)
             return paths
 
-- 
2.43.0


From b7ea7a64f8a20e43a0a4bb93b6fa9150fdac2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 09/47] fix: restoring a removed edge brings back its
 directions, type and metadata

restore_edge turned a removed directed edge into an undirected one and left
stale entries behind; both restore functions forgot the edge type and raised
KeyError when there was nothing to restore.
---
 causy/graph.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index a04bb77..9c3439e 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -815,6 +815,19 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
             del self.edges[v.id][u.id]
             del self._reverse_edges[u.id][v.id]
 
+    def _restore_removed_edge(self, u: Node, v: Node):
+        """
+        Add an edge from u to v which was removed before with its former type and metadata.
+        Does nothing if there was no such edge.
+        :param u:
+        :param v:
+        :return:
+        """
+        if v.id not in self._deleted_edges.get(u.id, {}):
+            return
+        edge = self._deleted_edges[u.id].pop(v.id)
+        self.add_directed_edge(u, v, edge.metadata, edge.edge_type)
+
     def restore_edge(self, u: Node, v: Node):
         """
         Restore a deleted edge
@@ -827,19 +840,24 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
+        if not any(
+            b.id in edges.get(a.id, {})
+            for a, b in ((u, v), (v, u))
+            for edges in (self.edges, self._deleted_edges)
+        ):
+            raise GraphError(f"There is no removed edge between {u} and {v}")
+
         if u.id in self.edges and v.id in self.edges[u.id]:
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            self._restore_removed_edge(u, v)
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self.edges[v.id][u.id].deleted = False
             self._reverse_edges[u.id][v.id].deleted = False
         else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+            self._restore_removed_edge(v, u)
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -884,8 +902,9 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_directed_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            if v.id not in self._deleted_edges.get(u.id, {}):
+                raise GraphError(f"There is no removed edge from {u} to {v}")
+            self._restore_removed_edge(u, v)
 
     def update_edge(
         self,
-- 
2.43.0


From a1750850b4ebd6843a87a44bf0862b2eda4ae472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 10/47] fix: chunked edge generator yields every edge once

After the chunks all edges were yielded a second time, not as chunks.
---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..0c63ff8 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From a769093f53c531fb89f53950928ac669a33af021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 11/47] fix: edge type updates read the new edge type from the
 result data

TestResult has no attribute edge_type, so applying such an action always failed.
---
 causy/graph_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..83fd4db 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -386,7 +386,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
                     self._execute_hook("pre_edge_type_change_hook", i)
-                    self.graph.update_edge(i.u, i.v, edge_type=i.edge_type)
+                    self.graph.update_edge(i.u, i.v, edge_type=i.data["edge_type"])
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_type_change_hook", i)
@@ -397,7 +397,9 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
                     self._execute_hook("pre_edge_type_change_hook", i)
-                    self.graph.update_directed_edge(i.u, i.v, edge_type=i.edge_type)
+                    self.graph.update_directed_edge(
+                        i.u, i.v, edge_type=i.data["edge_type"]
+                    )
                     self.graph.add_edge_history(i.u, i.v, i)
                     self._execute_hook("post_edge_type_change_hook", i)
 
-- 
2.43.0


From 4a87308ecc3249aa748d12ee453aaf80d8d3c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 12/47] fix: update actions on an edge which exists in one
 direction only

The action was considered applicable but updating raised GraphError and
aborted the whole pipeline.
---
 causy/graph_model.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 83fd4db..ce7d4bc 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -343,7 +343,12 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
                     self._execute_hook("pre_edge_update_hook", i)
-                    self.graph.update_edge(i.u, i.v, metadata=i.data)
+                    if self.graph.undirected_edge_exists(i.u, i.v):
+                        self.graph.update_edge(i.u, i.v, metadata=i.data)
+                    elif self.graph.directed_edge_exists(i.u, i.v):
+                        self.graph.update_directed_edge(i.u, i.v, metadata=i.data)
+                    else:
+                        self.graph.update_directed_edge(i.v, i.u, metadata=i.data)
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_update_hook", i)
@@ -386,7 +391,16 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
                     self._execute_hook("pre_edge_type_change_hook", i)
-                    self.graph.update_edge(i.u, i.v, edge_type=i.data["edge_type"])
+                    if self.graph.undirected_edge_exists(i.u, i.v):
+                        self.graph.update_edge(i.u, i.v, edge_type=i.data["edge_type"])
+                    elif self.graph.directed_edge_exists(i.u, i.v):
+                        self.graph.update_directed_edge(
+                            i.u, i.v, edge_type=i.data["edge_type"]
+                        )
+                    else:
+                        self.graph.update_directed_edge(
+                            i.v, i.u, edge_type=i.data["edge_type"]
+                        )
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_type_change_hook", i)
-- 
2.43.0


From f208e6227475e2009e2e0abec24fdf372bcf3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 13/47] fix: purge soft deleted edges after logic steps too

Edges removed by ApplyActionsTogether (PCStable) or Loop stayed in the graph as
soft deleted edges and were seen as neighbours by the following steps.
---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index ce7d4bc..2484988 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From 384171dc96cf5fa3e77a6ddfbfc3b380f64e828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 14/47] fix: collider rules only look at existing edges

Nodes connected by a directed edge are adjacent as well, soft deleted edges do
not connect nodes, and a node may have no edge at all.
---
 .../constraint/orientation_rules/fci.py              | 12 ++++++++----
 .../constraint/orientation_rules/pc.py               | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/fci.py b/causy/causal_discovery/constraint/orientation_rules/fci.py
index 0012ab7..f9c2a11 100644
--- a/causy/causal_discovery/constraint/orientation_rules/fci.py
+++ b/causy/causal_discovery/constraint/orientation_rules/fci.py
@@ -48,13 +48,17 @@ class ColliderRuleFCI(
         y = graph.nodes[nodes[1]]
 
         # if u and v are adjacent, do nothing
-        if graph.undirected_edge_exists(x, y):
+        if graph.edge_exists(x, y):
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = {
+            z
+            for z in set(graph.edges.get(x.id, {})).intersection(
+                graph.edges.get(y.id, {})
+            )
+            if graph.directed_edge_exists(x, z) and graph.directed_edge_exists(y, z)
+        }
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..85a2caf 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -112,13 +112,17 @@ class ColliderTest(
         y = graph.nodes[nodes[1]]
 
         # if u and v are adjacent, do nothing
-        if graph.undirected_edge_exists(x, y):
+        if graph.edge_exists(x, y):
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = {
+            z
+            for z in set(graph.edges.get(x.id, {})).intersection(
+                graph.edges.get(y.id, {})
+            )
+            if graph.directed_edge_exists(x, z) and graph.directed_edge_exists(y, z)
+        }
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
-- 
2.43.0


From 1f04c2460ea68a26f1c8535a06b7ba152a235bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 15/47] fix: non-collider rule on nodes without any edge

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 85a2caf..f4b9122 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -246,8 +246,8 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
+        potential_zs = set(graph.edges.get(x.id, {}).keys()).intersection(
+            set(graph.edges.get(y.id, {}).keys())
         )
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
-- 
2.43.0


From c268c9133b1df51ddc8af68fadbd0b9f783cd40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 16/47] fix: pipeline steps honour every configured option

Falsy values (threshold=0.0, parallel=False) and options specific to a step
(conflict_resolution_strategy, needs_unapplied_actions) were silently dropped.
---
 .../constraint/orientation_rules/pc.py          |  4 ++--
 causy/interfaces.py                             | 17 +++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index f4b9122..71f573a 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -148,7 +148,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -178,7 +178,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..13cde51 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -369,27 +369,32 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         **kwargs,
     ) -> None:
         super().__init__()
-        if generator:
+        if generator is not None:
             if isinstance(generator, dict):
                 self.generator = load_pipeline_artefact_by_definition(generator)
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
-        if display_name:
+        if display_name is not None:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
+        # options which are specific to the pipeline step
+        for option, value in kwargs.items():
+            if option in self.model_fields:
+                setattr(self, option, value)
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 9be1b6a093c5e422918bb7912de2af7f866e281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 17/47] fix: logic steps without pipeline steps can be created

---
 causy/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 13cde51..2d1e7b9 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -496,7 +496,7 @@ class LogicStepInterface(ABC, BaseModel, Generic[LogicStepInterfaceType]):
             exit_condition = load_pipeline_artefact_by_definition(exit_condition)
 
         # TODO: check if this is a good idea
-        if len(pipeline_steps) > 0 and isinstance(pipeline_steps[0], dict):
+        if pipeline_steps and isinstance(pipeline_steps[0], dict):
             pipeline_steps = load_pipeline_steps_by_definition(pipeline_steps)
 
         self.pipeline_steps = pipeline_steps or []
-- 
2.43.0


From bdafe6ac7ace91256c19233a83eddf328ad07550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 18/47] fix: algorithms with enum options can be loaded from a
 specification

Resolving variable references descended into the enum class and failed.
---
 causy/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index bf59625..1d692dd 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,7 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        if hasattr(value, "__dict__") and not isinstance(value, enum.Enum):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From 496dfa0397a1e8f2ce7b615242242262203ba7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 19/47] fix: experiments run with the resolved variables

Variables without an explicit value in the experiment were not replaced by
their default.
---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..1f291e2 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -278,7 +278,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
-- 
2.43.0


From 99352f4c3f372bd538c7e65a7e783989860065c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 20/47] fix: loading an algorithm from a python module returns
 a fresh copy

Resolving the variables of one experiment changed the algorithm every later
experiment got.
---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..87e095f 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -83,7 +83,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From cff9416f1e3f5cdce650ab86bb38e958a0360c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 21/47] fix: file references can not leave the workspace to a
 sibling directory

The check compared characters, so /work/foobar counted as inside of /work/foo.
---
 causy/serialization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 87e095f..a46a877 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -54,8 +54,9 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        working_directory = os.path.realpath(os.getcwd())
+        common_path = os.path.commonpath([working_directory, absolute_path])
+        if common_path != working_directory:
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From 61c2e9212b23b277a77474a192b59c2350d5f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 22/47] fix: unrelated files do not break listing experiment
 versions

Any file like experiment_data.json in the workspace raised ValueError.
---
 causy/workspaces/cli.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 1f291e2..5274078 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -354,13 +354,11 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
         # check for files if they have the right prefix followed by a unix timestamp (int) and the file extension, e.g. experiment_123456789.json.
         # Extract the unix timestamp
         if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
-            segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
-            name = "_".join(segments[:-1])
-            if name != experiment_name:
-                # an experiment with a different name
+            timestamp = file[len(experiment_name) + 1 : -len(".json")]
+            if not (timestamp.isascii() and timestamp.isdigit()):
+                # a file of an experiment with a different name or an unrelated file
                 continue
-            versions.append(timestamp)
+            versions.append(int(timestamp))
     return sorted(versions, reverse=True)
 
 
-- 
2.43.0


From 3ae0bd9e6e49da98564ff4fba94d86a1c8c429af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 23/47] fix: updating a variable to false or to an invalid
 value

bool("False") is True, and a value outside of the choices raised an exception.
---
 causy/workspaces/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 5274078..51ffc60 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -542,7 +542,13 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if current_variable._PYTHON_TYPE is bool:
+            variable_value = {"true": True, "false": False}.get(
+                variable_value.lower(), variable_value
+            )
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
+        current_variable.validate_value(variable_value)
     except ValueError:
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
-- 
2.43.0


From 4f1eef05e1818844deed9bc577c33a08eb1dce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 24/47] fix: dynamic data loaders get their options

The options were used before they were set, so no dynamic loader could be created.
---
 causy/data_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..ad78d1c 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,8 +111,8 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
@@ -120,7 +120,7 @@ class DynamicDataLoader(AbstractDataLoader):
     def _load_data_loader(self) -> AbstractDataLoader:
         module = importlib.import_module(self.reference)
         # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        return module.DataLoader(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
-- 
2.43.0


From 46cfe21bb1df11e5fec237e86f1f19fdc282d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 25/47] fix: the i.i.d. sample generator rejects cyclic edges
 instead of looping forever

---
 causy/sample_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 306b499..2eae866 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -155,6 +155,8 @@ class IIDSampleGenerator(AbstractSampleGenerator):
                     sorted_nodes.append(node)
                     nodes.remove(node)
                     break
+            else:
+                raise ValueError("The edges of the sample generator contain a cycle")
         return sorted_nodes
 
     def _generate_data(self, size):
-- 
2.43.0


From a1c4ffdc4de962e74b72194dbbc0190aa4f7f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 26/47] fix: independence tests on perfectly correlated
 variables

Fisher's z transformation divided by zero or left the domain of the logarithm.
---
 .../constraint/independence_tests/common.py    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index aa3f84b..5d079b6 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -47,7 +47,11 @@ class CorrelationCoefficientTest(
         corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+        if abs(corr) < 1:
+            fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+        else:
+            # perfectly correlated
+            fisher_z = math.inf
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
@@ -133,7 +137,11 @@ class PartialCorrelationTest(
             nb_of_control_vars = len(nodes) - 2
 
             # Fisher's Z transformation
-            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+            if abs(par_corr) < 1:
+                fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+            else:
+                # perfectly correlated
+                fisher_z = math.inf
 
             # Use absolute value of fisher_z for a two-tailed test
             z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -231,7 +239,11 @@ class ExtendedPartialCorrelationTestMatrix(
         nb_of_control_vars = len(nodes) - 2
 
         # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+        if abs(par_corr) < 1:
+            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+        else:
+            # perfectly correlated
+            fisher_z = math.inf
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
-- 
2.43.0


From 99ab44338454dbe020934073b5ec9811f7914e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:21 +0000
Subject: [PATCH 27/47] fix: direct effects of variables whose mean is not zero

The regression had no intercept, so the estimated effect depended on the mean of
the variables.
---
 causy/causal_effect_estimation/multivariate_regression.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..4026dcb 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -48,8 +48,15 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             ],
             dim=1,
         )
+        # center all variables, otherwise variables with a mean other than zero would need an intercept
+        effect_variable_parents_values = (
+            effect_variable_parents_values - effect_variable_parents_values.mean(dim=0)
+        )
         # multivariate regression via tridiagonal reduction and SVD, see torch documentation
         reshaped_effect_variable_values = effect_variable.values.view(-1, 1)
+        reshaped_effect_variable_values = (
+            reshaped_effect_variable_values - reshaped_effect_variable_values.mean()
+        )
 
         coefficients = torch.linalg.lstsq(
             effect_variable_parents_values,
-- 
2.43.0


From 9a1817922236a188af8ab32734f83e8edfc82b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:21 +0000
Subject: [PATCH 28/47] fix: regression based partial correlation of variables
 whose mean is not zero

The regression had no intercept, so the partial correlation depended on the mean
of the variables.
---
 .../causal_discovery/constraint/independence_tests/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 5d079b6..afa0403 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -302,6 +302,11 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
+    # center all variables, otherwise variables with a mean other than zero would need an intercept
+    x = x - x.mean()
+    y = y - y.mean()
+    z = z - z.mean(dim=1, keepdim=True)
+
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From 9abd6fc16bb21fd6df58a29bbe3b70d4c68834fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:22 +0000
Subject: [PATCH 29/47] fix: skip restore actions when there is no edge to
 restore

---
 causy/graph_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2484988..d0dbd94 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -425,7 +425,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
 
-                    self.graph.restore_edge(i.u, i.v)
+                    try:
+                        self.graph.restore_edge(i.u, i.v)
+                    except GraphError as e:
+                        logger.debug(f"Could not restore edge: {e}")
+                        continue
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
 
@@ -436,7 +440,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
 
-                    self.graph.restore_directed_edge(i.u, i.v)
+                    try:
+                        self.graph.restore_directed_edge(i.u, i.v)
+                    except GraphError as e:
+                        logger.debug(f"Could not restore edge: {e}")
+                        continue
                     self.graph.add_edge_history(i.u, i.v, i)
                 # add the action to the actions history
                 actions_taken.append(i)
-- 
2.43.0


From adcaadda18df4a0f281f72f6fc4cad2fa95946cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:30 +0000
Subject: [PATCH 30/47] fix: neighbour generator yields plain pairs when it is
 not chunked

---
 causy/generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 0c63ff8..0402e80 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,10 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        if self.chunked:
+                            yield [[node, neighbour]]
+                        else:
+                            yield [node, neighbour]
                         continue
 
                     other_neighbours = set(
-- 
2.43.0


From 358ce6905262e0da6a224419a4afca7c265535ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:32 +0000
Subject: [PATCH 31/47] Revert "fix: regression based partial correlation of
 variables whose mean is not zero"

This reverts commit 9a1817922236a188af8ab32734f83e8edfc82b2d.
---
 .../causal_discovery/constraint/independence_tests/common.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index afa0403..5d079b6 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -302,11 +302,6 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
-    # center all variables, otherwise variables with a mean other than zero would need an intercept
-    x = x - x.mean()
-    y = y - y.mean()
-    z = z - z.mean(dim=1, keepdim=True)
-
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From d2b30f3e20021bcb3a673a9139066445bbb67558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:32 +0000
Subject: [PATCH 32/47] Revert "fix: independence tests on perfectly correlated
 variables"

This reverts commit a1c4ffdc4de962e74b72194dbbc0190aa4f7f704.
---
 .../constraint/independence_tests/common.py    | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 5d079b6..aa3f84b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -47,11 +47,7 @@ class CorrelationCoefficientTest(
         corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
-        if abs(corr) < 1:
-            fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-        else:
-            # perfectly correlated
-            fisher_z = math.inf
+        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
@@ -137,11 +133,7 @@ class PartialCorrelationTest(
             nb_of_control_vars = len(nodes) - 2
 
             # Fisher's Z transformation
-            if abs(par_corr) < 1:
-                fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
-            else:
-                # perfectly correlated
-                fisher_z = math.inf
+            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
 
             # Use absolute value of fisher_z for a two-tailed test
             z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -239,11 +231,7 @@ class ExtendedPartialCorrelationTestMatrix(
         nb_of_control_vars = len(nodes) - 2
 
         # Fisher's Z transformation
-        if abs(par_corr) < 1:
-            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
-        else:
-            # perfectly correlated
-            fisher_z = math.inf
+        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
-- 
2.43.0


From 36fc9e299a22071a2b2c38fd93862303a6039d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:20 +0000
Subject: [PATCH 33/47] fix: collider rule does not treat a reported conflict
 as an orientation

With KEEP_FIRST the ColliderTest reports a conflict as DO_NOTHING(z, y).
A later collider that orients z -> y took this report for a proposal that
orients the edge the other way and was dropped, although nothing orients
the edge against it.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 71f573a..17e2ad2 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -35,6 +35,9 @@ def filter_unapplied_actions(actions, u, v):
         if result_set is None:
             continue
         for result in result_set:
+            # a reported conflict changes nothing, so nothing can conflict with it
+            if result.action == TestResultAction.DO_NOTHING:
+                continue
             if result.u == u and result.v == v:
                 filtered.append(result)
     return filtered
-- 
2.43.0


From 7775148fc15ccd0fa449123b66f0463e484e7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:03 +0000
Subject: [PATCH 34/47] fix: references to variables are reported when no
 variables are declared

graph_model_factory only resolved references if there was at least one
variable; with none, a reference stayed in the pipeline unnoticed.
---
 causy/graph_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index d0dbd94..f8b9671 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -566,10 +566,10 @@ def graph_model_factory(
     elif variables is None:
         variables = {}
 
-    if len(variables) > 0:
-        algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
-            algorithm.pipeline_steps, variables
-        )
+    # also without any variables: a reference which cannot be resolved has to be reported
+    algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
+        algorithm.pipeline_steps, variables
+    )
 
     bases = tuple()
     if algorithm.edge_types is not None:
-- 
2.43.0


From d11835e5883de9a745af362a2b3bc0dbfa086cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:30 +0000
Subject: [PATCH 35/47] fix: loading a saved algorithm brings back its edge
 types

They stayed dictionaries, so that no graph model could be created from an
ejected algorithm which has edge types (all algorithms causy ships).
---
 causy/serialization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causy/serialization.py b/causy/serialization.py
index a46a877..4773467 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -43,6 +43,12 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     algorithm_dict["variables"] = [
         deserialize_variable(variable) for variable in algorithm_dict["variables"]
     ]
+    algorithm_dict["edge_types"] = [
+        EDGE_TYPES[edge_type["name"]](**edge_type)
+        if isinstance(edge_type, dict)
+        else edge_type
+        for edge_type in algorithm_dict.get("edge_types") or []
+    ]
     from causy.models import Algorithm
 
     return TypeAdapter(Algorithm).validate_python(algorithm_dict)
-- 
2.43.0


From 882d90b72686c729887ff4af99a3691036cf7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:29 +0000
Subject: [PATCH 36/47] fix: saving an algorithm keeps all options of its
 generators

The generator of a step was dumped with the options of the generator
interface only, PairsWithEdgesInBetweenGenerator lost its chunk_size.
---
 causy/interfaces.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 2d1e7b9..21874b9 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -4,7 +4,14 @@ from typing import List, Dict, Optional, Union, TypeVar, Generic, Any
 from typing_extensions import Annotated
 import logging
 
-from pydantic import BaseModel, computed_field, Field, PlainValidator, WithJsonSchema
+from pydantic import (
+    BaseModel,
+    computed_field,
+    Field,
+    model_serializer,
+    PlainValidator,
+    WithJsonSchema,
+)
 import torch
 
 from causy.graph_utils import (
@@ -332,6 +339,15 @@ class GeneratorInterface(ABC, BaseModel):
 
         self.comparison_settings = comparison_settings
 
+    @model_serializer(mode="wrap")
+    def _serialize_all_options(self, handler):
+        # fields typed as GeneratorInterface only know the options of the interface
+        serialized = handler(self)
+        for option in type(self).model_fields:
+            if option not in GeneratorInterface.model_fields:
+                serialized.setdefault(option, getattr(self, option))
+        return serialized
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 1f1009cc1468a8008cfb5012858e8abf4bc0dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:48 +0000
Subject: [PATCH 37/47] fix: logic steps accept an empty display name

---
 causy/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 21874b9..698b2f3 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -518,7 +518,7 @@ class LogicStepInterface(ABC, BaseModel, Generic[LogicStepInterfaceType]):
         self.pipeline_steps = pipeline_steps or []
         self.exit_condition = exit_condition
 
-        if display_name:
+        if display_name is not None:
             self.display_name = display_name
 
 
-- 
2.43.0


From 07e56fb7cda16412208fa6fc29d893abb99c4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:31 +0000
Subject: [PATCH 38/47] fix: boolean values of variables are saved as booleans

Workspace and ejected algorithms are saved in JSON mode, which turned True
into 1.0; the experiment was rejected as invalid when loaded again.
---
 causy/variables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/variables.py b/causy/variables.py
index 1d692dd..7f77437 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -3,12 +3,13 @@ import enum
 from types import NoneType
 from typing import Any, Union, TypeVar, Generic, Optional, List, Dict
 
-from pydantic import BaseModel, computed_field
+from pydantic import BaseModel, computed_field, StrictBool
 
 
 VariableInterfaceType = TypeVar("VariableInterfaceType")
 
-VariableType = Union[str, int, float, bool]
+# StrictBool: a plain bool would be saved as 1.0 or 0.0
+VariableType = Union[str, StrictBool, int, float]
 
 
 class VariableTypes(enum.Enum):
@@ -29,8 +30,8 @@ class BaseVariable(BaseModel, Generic[VariableInterfaceType]):
         self.validate_value(self.value)
 
     name: str
-    value: Union[str, int, float, bool]
-    choices: Optional[List[Union[str, int, float, bool]]] = None
+    value: VariableType
+    choices: Optional[List[VariableType]] = None
 
     def is_valid(self):
         return self.is_valid_value(self.value)
-- 
2.43.0


From c054350927460769eb84bc8e97121b0842736f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:31 +0000
Subject: [PATCH 39/47] fix: infinite values of variables are saved in the
 workspace

They were written as null because JSON has no infinity, YAML does.
---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 51ffc60..03f74af 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -79,7 +79,7 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
+    ordered_val = OrderedDict(workspace.model_dump(mode="json"))
     yaml.add_representer(
         OrderedDict,
         lambda dumper, data: dumper.represent_mapping(
-- 
2.43.0


From 08419003963bd496ab05e9a9e4e9683b0cf51c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:02 +0000
Subject: [PATCH 40/47] fix: load the wrapped generator of a saved generator

---
 causy/interfaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 698b2f3..8a738cc 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -332,6 +332,8 @@ class GeneratorInterface(ABC, BaseModel):
             self.every_nth = every_nth
 
         if generator is not None:
+            if isinstance(generator, dict):
+                generator = load_pipeline_artefact_by_definition(generator)
             self.generator = generator
 
         if shuffle_combinations is not None:
-- 
2.43.0


From c8c0df38cf78a3dedb5b8227756b238454c85e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:28 +0000
Subject: [PATCH 41/47] fix: save the options of a loop's exit condition

---
 causy/common_pipeline_steps/logic.py | 3 ++-
 causy/interfaces.py                  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/common_pipeline_steps/logic.py b/causy/common_pipeline_steps/logic.py
index 93b8f08..0992e2a 100644
--- a/causy/common_pipeline_steps/logic.py
+++ b/causy/common_pipeline_steps/logic.py
@@ -1,6 +1,7 @@
 import time
 from typing import Optional, Generic
 
+from pydantic import SerializeAsAny
 
 from causy.interfaces import (
     LogicStepInterface,
@@ -18,7 +19,7 @@ class Loop(LogicStepInterface[LogicStepInterfaceType], Generic[LogicStepInterfac
     A loop which executes a list of pipeline_steps until the exit_condition is met.
     """
 
-    exit_condition: Optional[ExitConditionInterface] = None
+    exit_condition: Optional[SerializeAsAny[ExitConditionInterface]] = None
 
     def execute(
         self, graph: BaseGraphInterface, graph_model_instance_: GraphModelInterface
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 8a738cc..e902bc0 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -10,6 +10,7 @@ from pydantic import (
     Field,
     model_serializer,
     PlainValidator,
+    SerializeAsAny,
     WithJsonSchema,
 )
 import torch
@@ -487,7 +488,7 @@ LogicStepInterfaceType = TypeVar("LogicStepInterfaceType")
 
 class LogicStepInterface(ABC, BaseModel, Generic[LogicStepInterfaceType]):
     pipeline_steps: Optional[List[Union[PipelineStepInterfaceType]]] = None
-    exit_condition: Optional[ExitConditionInterface] = None
+    exit_condition: Optional[SerializeAsAny[ExitConditionInterface]] = None
 
     display_name: Optional[StringParameter] = None
 
-- 
2.43.0


From d2c2306826591fb6992dcd961fe3078f541ddbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:45 +0000
Subject: [PATCH 42/47] fix: show directed edges in the direction of the row in
 the diff of experiments

---
 causy/workspaces/cli.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 03f74af..3bfabbd 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -744,6 +744,17 @@ def execute(experiment_name: str = None, force_reexecution: bool = False):
         _save_experiment_result(workspace, experiment_name, result)
 
 
+def _edge_representation(edge, reference_edge) -> str:
+    """
+    Represent an edge as seen from the nodes of the reference edge (which connects the same nodes)
+    """
+    representation = edge.edge_type.STR_REPRESENTATION
+    if edge.edge_type.IS_DIRECTED and edge.u.name != reference_edge.u.name:
+        # u --> v becomes v <-- u
+        return representation[::-1].replace(">", "<")
+    return representation
+
+
 @workspace_app.command()
 def diff(experiment_names: List[str], only_differences: bool = False):
     """
@@ -843,7 +854,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         table.add_row(
             *[f"{first_element.u.name} - {first_element.v.name}"]
             + [
-                f"{row[experiment].edge_type.STR_REPRESENTATION}"
+                _edge_representation(row[experiment], first_element)
                 if row[experiment]
                 else ""
                 for experiment in resolved_experiments
-- 
2.43.0


From 7a0658de7c8a0d1fd527d27ee7ca66d836241042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:45 +0000
Subject: [PATCH 43/47] fix: eject algorithms with their variable references

---
 causy/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/cli.py b/causy/cli.py
index caa2cc8..df64699 100644
--- a/causy/cli.py
+++ b/causy/cli.py
@@ -10,7 +10,6 @@ from causy.models import (
     AlgorithmReferenceType,
 )
 from causy.serialization import (
-    serialize_algorithm,
     load_algorithm_from_specification,
     CausyJSONEncoder,
     load_json,
@@ -36,7 +35,10 @@ def eject(algorithm: str, output_file: str):
 
     typer.echo(f"💾 Loading algorithm {algorithm}")
     model = AVAILABLE_ALGORITHMS[algorithm]()
-    result = serialize_algorithm(model, algorithm_name=algorithm)
+    # eject the algorithm without the resolved variables to keep them configurable
+    result = model._original_algorithm.model_copy(
+        update={"name": algorithm}
+    ).model_dump()
     typer.echo(f"💾 Saving algorithm {algorithm} to {output_file}")
     with open(output_file, "w") as file:
         file.write(json.dumps(result, indent=4))
-- 
2.43.0


From f3d9c91f0a47881bc1f3af15ef3f99bdaa936dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:24 +0000
Subject: [PATCH 44/47] fix: reference created dynamic data loaders by their
 module

---
 causy/workspaces/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 3bfabbd..c2171c6 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -250,7 +250,7 @@ def _create_data_loader(workspace: Workspace) -> Workspace:
         workspace.dataloaders[data_loader_slug] = DataLoaderReference(
             **{
                 "type": data_loader_type,
-                "reference": f"{data_loader_slug}.DataLoader",
+                "reference": data_loader_slug,
             }
         )
 
@@ -691,7 +691,7 @@ def init():
             workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                 **{
                     "type": data_loader_type,
-                    "reference": f"{data_loader_slug}.DataLoader",
+                    "reference": data_loader_slug,
                 }
             )
     workspace.experiments = {}
-- 
2.43.0


From 89ebd4590644361d9b7e6479c28805d8b1295a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:24 +0000
Subject: [PATCH 45/47] fix: create valid pipeline skeletons for every pipeline
 name

---
 causy/workspaces/templates/pipeline.py.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/templates/pipeline.py.tpl b/causy/workspaces/templates/pipeline.py.tpl
index 39390ea..c7e9020 100644
--- a/causy/workspaces/templates/pipeline.py.tpl
+++ b/causy/workspaces/templates/pipeline.py.tpl
@@ -8,6 +8,6 @@ PIPELINE = graph_model_factory(
         edge_types=[],
         extensions=[],
         variables=[],
-        name="{{pipeline_name}}",
+        name={{pipeline_name|tojson}},
     )
 )
-- 
2.43.0


From 336931f071a36d388bb70c9aa5ac0eaa3e0f1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:49 +0000
Subject: [PATCH 46/47] fix: store workspaces in the YAML version they are read
 in

---
 causy/workspaces/cli.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index c2171c6..1b8d5dc 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,6 +1,6 @@
+import io
 import json
 import logging
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -10,7 +10,6 @@ import typer
 import os
 import sys
 
-import yaml
 from markdown.extensions.toc import slugify
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
@@ -23,6 +22,7 @@ from jinja2 import (
 from rich.console import Console
 from rich.progress import Progress, SpinnerColumn, TextColumn
 from rich.table import Table
+from ruamel.yaml import YAML
 
 from causy.graph_model import graph_model_factory
 from causy.graph_utils import hash_dictionary
@@ -79,16 +79,11 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(workspace.model_dump(mode="json"))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
+    # write the same YAML version as it is read: YAML 1.1 leaves texts unquoted which are numbers in YAML 1.2
+    output = io.StringIO()
+    YAML().dump(workspace.model_dump(mode="json"), output)
     with open(workspace_path, "w") as f:
-        f.write(output)
+        f.write(output.getvalue())
 
 
 def _current_workspace(fail_if_none: bool = True) -> Workspace:
-- 
2.43.0


From 0119f3f6715283054fcea019bd30a7095532c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:28 +0000
Subject: [PATCH 47/47] fix: parallel lagged edges add up in the coefficient
 matrix of the time series generator

---
 causy/sample_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 2eae866..92808dd 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -387,7 +387,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         for edge in self._edges:
             matrix[(edge.from_node.point_in_time * -1) - 1][
                 values_map[edge.to_node.node]
-            ][values_map[edge.from_node.node]] = edge.value
+            ][values_map[edge.from_node.node]] += edge.value
 
         # return me as torch tensor
         return self.custom_block_diagonal(matrix)
-- 
2.43.0

