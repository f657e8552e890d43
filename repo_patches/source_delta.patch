From c19e619aeb8cc373ab7f4732d7b378b31b3d8bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:45 +0000
Subject: [PATCH 01/18] fix: return the form diagram at the optimum found by
 the optimizer

---
 src/compas_cem/optimization/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..1f25f7a 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -276,8 +276,12 @@ class Optimizer(Data):
             print(f"Optimization status: {status}".format(status))
             print("----------")
 
+        # set the parameters of the topology to the optimum reported by the solver
+        # NOTE: the last point the solver evaluated is not necessarily the best one
+        self._update_parameters(topology, x_opt)
+
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From ca8ae8a222fd921e5a21ec49ad10ca01572ac74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 02/18] fix: solve optimization problems after removing a
 parameter

---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 1f25f7a..1b76eed 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -295,8 +295,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -308,9 +308,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -322,9 +322,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From c9ab40a5383a467b18db5a9b7a097fd1aacadf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:03 +0000
Subject: [PATCH 03/18] fix: do not calculate equilibrium past kmax

---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..71ddde6 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -85,7 +85,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From 98f6d27d4afaa1a9bf072b81aecba17d3b1d4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:05 +0000
Subject: [PATCH 04/18] fix: keep the trails of a topology diagram usable after
 JSON serialization

---
 src/compas_cem/diagrams/topology/topology.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..867e75c 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -83,6 +83,22 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         self.attributes["_aux_vector"] = vector
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @Diagram.data.setter
+    def data(self, data):
+        """
+        Overwrites the attributes of this diagram with a data dictionary.
+        """
+        Diagram.data.fset(self, data)
+
+        # NOTE: JSON turns integer keys into strings and tuples into lists
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes.get(name) or {}
+            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}
+
 # ==============================================================================
 # Node Additions
 # ==============================================================================
-- 
2.43.0


From 2600f903c6bda3db0121399426ca3e0d9b7947e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:09 +0000
Subject: [PATCH 05/18] fix: forget the previous location of a node when it
 moves

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..114bde5 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -45,9 +45,10 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
-            del self.gkey_node[gkey]
+        if self.has_node(key):
+            gkey = self.gkey(self.node_coordinates(key))
+            if self.gkey_node.get(gkey) == key:
+                del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
     def node_xyz(self, key, xyz=None):
-- 
2.43.0


From cf70da43e7e826ac0157a0519bf15bc0e52a2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:13 +0000
Subject: [PATCH 06/18] fix: find nodes by their coordinates after form-finding

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 8 ++++++++
 src/compas_cem/equilibrium/force.py           | 3 +++
 src/compas_cem/equilibrium/force_numpy.py     | 3 +++
 src/compas_cem/optimization/optimizer.py      | 1 +
 4 files changed, 15 insertions(+)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 114bde5..1b8f080 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -51,6 +51,14 @@ class NodeMixins(object):
                 del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
+    def update_gkeys(self):
+        """
+        Rebuilds the map from geometric keys to node keys after nodes changed coordinates.
+        """
+        self.gkey_node.clear()
+        for node in self.nodes():
+            self.gkey_node[self.gkey(self.node_coordinates(node))] = node
+
     def node_xyz(self, key, xyz=None):
         """
         Gets or sets node coordinates.
diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 71ddde6..8c25db4 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -219,6 +219,9 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
         length = copysign(length, force)
         form.edge_attribute(key=(u, v), name="length", value=length)
 
+    # nodes have moved
+    form.update_gkeys()
+
 
 def node_equilibrium(form, node, t_vec, node_xyz, indirect=False):
     """
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..95f43d8 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -240,6 +240,9 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
         length = np.copysign(length, force)
         form.edge_attribute(key=(u, v), name="length", value=length)
 
+    # nodes have moved
+    form.update_gkeys()
+
 
 def node_equilibrium(t_vec, q_vec, rd_vec, ri_vec):
     """
diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 1b76eed..2db4332 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -279,6 +279,7 @@ class Optimizer(Data):
         # set the parameters of the topology to the optimum reported by the solver
         # NOTE: the last point the solver evaluated is not necessarily the best one
         self._update_parameters(topology, x_opt)
+        topology.update_gkeys()
 
         # exit like a champion
         return static_equilibrium(topology, tmax=tmax, eta=eta)
-- 
2.43.0


From 677d451dbd4eeb94c06e96b76af9f7a3b352f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:16 +0000
Subject: [PATCH 07/18] fix: avoid NaNs from zero-length vectors in the numpy
 solver

---
 src/compas_cem/equilibrium/force_numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 95f43d8..dd35675 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -423,7 +423,11 @@ def normalize_vector_numpy(vector):
     """
     Hand-made vector normalization.
     """
-    return vector / length_vector_numpy(vector)
+    length = length_vector_numpy(vector)
+    # NOTE: to avoid NaNs, do not normalize zero-length vectors
+    if length == 0.0:
+        return vector
+    return vector / length
 
 
 def length_vector_numpy(vector):
-- 
2.43.0


From bc79323c734a540e7a2cf35ecbd394d6d63521e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 08/18] fix: recalculate origin nodes when trails are rebuilt

---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 867e75c..fb93ea1 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -348,6 +348,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         # trail search
         nodes_in_trails = set()
 
+        # origin nodes are recalculated
+        for node in list(self.origin_nodes()):
+            self.node_attribute(node, "type", None)
+
         for support in self.support_nodes():
 
             trail = []
-- 
2.43.0


From cadc5625b225eaa6a3ee303931116543234d0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:24 +0000
Subject: [PATCH 09/18] fix: keep existing auxiliary trails when trails are
 rebuilt

---
 src/compas_cem/diagrams/topology/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index fb93ea1..ce542d8 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -408,7 +408,8 @@ class TopologyDiagram(Diagram, MeshMixins):
         # automatically create auxiliary trails
         if auxiliary_trails:
 
-            aux_trails = dict()
+            # keep the auxiliary trails that were added to the diagram before
+            aux_trails = {k: e for k, e in self.auxiliary_trails(keys=True) if self.has_edge(*e)}
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
@@ -421,7 +422,7 @@ class TopologyDiagram(Diagram, MeshMixins):
                 aux_trails[node] = edge
 
             self.attributes["_auxiliary_trails"] = aux_trails
-            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(aux_trails)))
+            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(unassigned)))
 
             return self.build_trails(auxiliary_trails=False)
 
-- 
2.43.0


From cefb72c73a0e5b4bcfb0bcde44285a373cfc3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:27 +0000
Subject: [PATCH 10/18] fix: keep supports that are not connected to a trail
 edge

---
 src/compas_cem/diagrams/topology/topology.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index ce542d8..9193c53 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -389,7 +389,9 @@ class TopologyDiagram(Diagram, MeshMixins):
                     break
 
             # set last node to be origin/start node
-            self.node_attribute(origin_node, "type", "_origin")
+            # unless the support is the only node in the trail
+            if origin_node != support:
+                self.node_attribute(origin_node, "type", "_origin")
 
             trail.reverse()
 
-- 
2.43.0


From eed1c2fce75aace1c8074f95a399d3c8542a9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:31 +0000
Subject: [PATCH 11/18] fix: report inexistent node keys as such

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 1b8f080..80f7745 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -29,8 +29,9 @@ class NodeMixins(object):
         """
         Checks
         """
-        if self.node_key(value) is not None:
-            return True
+        key = self.node_key(value)
+        if key is not None:
+            return self.has_node(key)
         return False
 
     def node_key(self, value):
-- 
2.43.0


From 6cbeee971306802e0683bb5197fd6faef07a82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:34 +0000
Subject: [PATCH 12/18] fix: print the log of a form-finding run with a single
 iteration

---
 src/compas_cem/equilibrium/force.py       | 1 +
 src/compas_cem/equilibrium/force_numpy.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 8c25db4..0bc3e27 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    distance = None
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index dd35675..995c048 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,7 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    distance = None
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From 5bd19f2791ab87e264270a0ce77197e5190aa02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 13/18] fix: find origin nodes by their coordinates after
 moving them in Grasshopper

---
 .../ghpython/components/CompasCem_OriginNodesMove/code.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
index 641dcd8..3be73b7 100644
--- a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
@@ -17,6 +17,6 @@ class MoveOriginNodesComponent(component):
 
         for node_key, point in zip(origin_node_keys, points):
             point = RhinoPoint.from_geometry(point).to_compas()
-            topology.node_attributes(node_key, names="xyz", values=point)
+            topology.node_xyz(node_key, point)
 
         return topology
-- 
2.43.0


From 3ed5bd8396c85cc977292c572b5f55217812019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:00 +0000
Subject: [PATCH 14/18] fix: unset the type of origin nodes that are
 recalculated

---
 src/compas_cem/diagrams/topology/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 9193c53..5fa07e4 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -350,7 +350,7 @@ class TopologyDiagram(Diagram, MeshMixins):
 
         # origin nodes are recalculated
         for node in list(self.origin_nodes()):
-            self.node_attribute(node, "type", None)
+            self.unset_node_attribute(node, "type")
 
         for support in self.support_nodes():
 
-- 
2.43.0


From 87990a1793720497932ab1e1f6503116ad87a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:42 +0000
Subject: [PATCH 15/18] fix: draw no support nodes in Grasshopper if none of
 the selected nodes is a support

---
 src/compas_cem/ghpython/artists.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/artists.py b/src/compas_cem/ghpython/artists.py
index 5aa92ea..4db66df 100644
--- a/src/compas_cem/ghpython/artists.py
+++ b/src/compas_cem/ghpython/artists.py
@@ -202,7 +202,8 @@ class DiagramArtist(NetworkArtist):
         nodes : list of :class:`Rhino.Geometry.Point3d`
         """
         nodes = self._collection_keys("support_nodes", "is_node_support", nodes)
-        return self.draw_nodes(nodes)
+        if not len(nodes) == 0:
+            return self.draw_nodes(nodes)
 
     def _collection_keys(self, iterator_func, filter_func, keys=None):
         """
-- 
2.43.0


From 4c474f973cabc9196f4dd1a3d045de0578440bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 16/18] fix: keep the visibility of nodes and edges apart in
 the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9447273..f02e289 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -371,7 +371,7 @@ class DiagramObject(NetworkObject):
     @show_nodes.setter
     def show_nodes(self, shownodes):
         if isinstance(shownodes, bool):
-            self._show_edges = shownodes
+            self._show_nodes = shownodes
             self.show_points = shownodes
 
     @property
-- 
2.43.0


From 773686fa073e4fc6b51444f06b15f7a20cfa4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 17/18] fix: label nodes by their type in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index f02e289..c136c88 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -632,7 +632,7 @@ class DiagramObject(NetworkObject):
             return "{}\n{}".format(x, gkey_format(x))
 
         def type_format(x):
-            return "{}".format(self.topology.node_attribute(x, "type"))
+            return "{}".format(self.diagram.node_attribute(x, "type"))
 
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format,
-- 
2.43.0


From 8de3235ecb1991f59599299b12c5e4dcf142626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:50 +0000
Subject: [PATCH 18/18] fix: a failed optimization restores the initial
 parameters

---
 src/compas_cem/optimization/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 2db4332..9dc2ed8 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -248,6 +248,8 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
+            # NOTE: the last point the solver evaluated may be out of bounds, or not even a number
+            self._update_parameters(topology, x)
             return static_equilibrium(topology)
 
         # fetch last optimum value of loss function
-- 
2.43.0

