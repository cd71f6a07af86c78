From bb149a12a0348953e4e58b632b0c5f99c192fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 01/36] fix: graph vertex queries return lists, not live views

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..6cf0db2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -209,7 +209,7 @@ class Graph(object):
     def vertices(self):
         """Get a list of vertices in this graph"""
 
-        return self._forward.keys()
+        return list(self._forward)
 
     def edges(self):
         """Get a list of the edges in this graph"""
@@ -259,7 +259,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex])
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -269,7 +269,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex])
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From 31c2f47ca2e361a14f8fd6e07967c4766690cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:31 +0000
Subject: [PATCH 02/36] fix: removing a vertex really removes its incident
 edges

---
 solver/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 6cf0db2..8a467fc 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -53,8 +53,11 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in self.ingoing_vertices(vertex):
+            self.remove_edge(u, vertex)
+
+        for w in self.outgoing_vertices(vertex):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
-- 
2.43.0


From 5f6713b33a119d7c43e564a6ccd5990f704809ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 03/36] fix: constructing a Graph from another graph copies it

---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 8a467fc..2e2c773 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From 3611844300e295402969660dadc05f7d7dd55cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 04/36] fix: outgoing edges are directed away from the vertex

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 2e2c773..906d744 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -300,7 +300,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From ce4b7d9aa40bff3b3b9660d7759b3f55e888412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 05/36] fix: reversed graph keeps isolated vertices and edge
 values

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 906d744..0ac62b2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -316,9 +316,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # copy vertices
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From 52858d9871403d1cec5375e511cfbe0c4e408f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:39 +0000
Subject: [PATCH 06/36] fix: connected_via_outgoing and connected_via_ingoing
 call the method

---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 0ac62b2..4eb1123 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -428,7 +428,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -438,7 +438,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From 3220a7fa7df9b685b52dc70e2e53682393d70071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 07/36] fix: connected follows no edges when both directions
 are disabled

---
 solver/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 4eb1123..c220c53 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -392,8 +392,11 @@ class Graph(object):
             vertex_edge_func = self.adjacent_vertices
         elif ingoing:
             vertex_edge_func = self.ingoing_vertices
-        else:
+        elif outgoing:
             vertex_edge_func = self.outgoing_vertices
+        else:
+            # no edges to follow
+            return []
 
         # vertices being searched
         front = [vertex]
-- 
2.43.0


From 87dc434cde1668de9e251f7b46252bec1268d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 08/36] fix: connected_subsets returns the set of connected
 vertex sets

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index c220c53..be4a0b1 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -460,13 +460,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From 827826fac77a36e36fe48fa8b946404c8b62e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 09/36] fix: string representation of graphs

---
 solver/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index be4a0b1..2d06035 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -471,11 +471,11 @@ class Graph(object):
         return subsets
 
     def __str__(self):
-        s = ""
+        s = []
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(j, self.get(i, j)) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s.append("{0}: {{{1}}}".format(i, v))
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(", ".join(s))
-- 
2.43.0


From 9048642133130a623213644ed5874972096d5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 10/36] fix: SetMethod uses its declared outputs

---
 solver/method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..91cd01f 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
-- 
2.43.0


From 3ea593ae704f1bdf3ef286eaeb74466ff52ca584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 11/36] fix: AssignMethod copies the value of its input to its
 output

---
 solver/method.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 91cd01f..e24643e 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -161,15 +161,16 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
         # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], \
+        self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From 691be53a988aebc4f870ff8b365cf8370433cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 12/36] fix: test for missing values by identity, as values may
 define equality

---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index e24643e..5924ce8 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -459,7 +459,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -482,7 +482,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From e9fc3930f947853b846de6032f06aec37d19596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:23 +0000
Subject: [PATCH 13/36] fix: propagation keeps changes pending until every
 dependent method has run

---
 solver/method.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 5924ce8..b7e8596 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -486,11 +486,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From 2f61b77ee2383393949b90e1ae62ae0e3ee844fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 14/36] fix: setting an unknown variable is refused before
 anything is changed

---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index b7e8596..ac1565c 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -351,6 +351,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise Exception("Variable not in graph")
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From cd8e44af659ccbef2f1ba28ebec6847542c71a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 15/36] fix: methods added without propagation still take part
 in the next one

---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index ac1565c..445ce51 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -396,6 +396,9 @@ by multiple methods".format(var))
         if prop:
             # execute includes propagation
             self.execute(met)
+        else:
+            # execute only, leaving the changes pending
+            self._do_execute(met)
 
     def rem_method(self, met):
         """Removes a method"""
-- 
2.43.0


From f5feb1cca6477a8f96b531c43e804250704dcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 16/36] fix: methods and constraints without variables can be
 removed again

---
 solver/geometric/constraint.py | 3 +++
 solver/method.py               | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..45dc055 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -284,6 +284,9 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph for the constraint
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in constraint.variables():
             # add the variable to the graph
diff --git a/solver/method.py b/solver/method.py
index 445ce51..270e5a9 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -372,6 +372,8 @@ class MethodGraph(object):
         self._methods[met] = 1
 
         # update graph
+        self._graph.add_vertex(met)
+
         for var in met.inputs:
             self.add_variable(var)
             self._graph.add_edge(var, met)
-- 
2.43.0


From 9ed6cfd5acc08d2a54b1340832d9d3ad9d968644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:31 +0000
Subject: [PATCH 17/36] fix: selection constraints provide variables() like
 every constraint

---
 solver/geometric/constraint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 45dc055..2669b5a 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -83,14 +83,14 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join(self.variables()))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +119,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self.variables()]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join(self.variables()))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From 23c051778c6ae3ef05f7754a9f83557a27e2e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 18/36] fix: constraints can be printed whatever their
 variables are

---
 solver/geometric/constraint.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 2669b5a..b4b212b 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,8 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join([str(var) for var in \
+        self.variables()]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
@@ -90,7 +91,8 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables()))
+        return "{0}({1})".format(self.name, ", ".join([str(var) for var in \
+        self.variables()]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -122,8 +124,11 @@ class FunctionConstraint(SelectionConstraint):
         self.variables()]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables()))
+        # not every callable has a name
+        function = getattr(self.function, "__name__", self.function)
+
+        return "{0}({1}, {2})".format(self.name, function, \
+        ", ".join([str(var) for var in self.variables()]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From b370ee0fbfdff465b284fc612877a111c70bf252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 19/36] fix: relations are hashable and keep the points they
 relate

---
 solver/geometric/relation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..9b91711 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -54,7 +53,10 @@ class Distance(PointRelation):
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
+
+    # defining equality would otherwise remove the inherited hash
+    __hash__ = PointRelation.__hash__
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -83,7 +85,10 @@ class Angle(PointRelation):
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
+
+    # defining equality would otherwise remove the inherited hash
+    __hash__ = PointRelation.__hash__
 
     def __eq__(self, other):
         if isinstance(other, Angle):
-- 
2.43.0


From 56f05df3fed671cb618d98100a064e3c911c07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 20/36] fix: relations can be printed whatever their points are

---
 solver/geometric/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 9b91711..f121896 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -19,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
-- 
2.43.0


From b387c7349a12c7d40e55e79e85549e9a0c873401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 21/36] fix: common constraints are computed from both clusters

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..ab952a0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From 9097ae4b18712965cf625f2fb7550412fc6bc359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 22/36] fix: number of angles of a hedgehog

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index ab952a0..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From e1732755c3369b314ca4e4553ddc690696eecb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 23/36] fix: hedgehog must have three unique variables, the
 central one included

---
 solver/geometric/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..72c4795 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,8 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        # the central variable is not one of the others
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From bb4a201c34c391ea3286e76e8cb73782ab60b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 24/36] fix: circle-line intersection with two solutions

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..e1c72f9 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From 91d40895e39a7a00cfd638f460b36ea36ed7bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 25/36] fix: circle-line intersection with a line without
 direction

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e1c72f9..0c35d84 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -489,7 +489,7 @@ def cl_int(p1, r, p2, v):
         y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
-    elif Scalar.tol_zero(E):
+    elif d2 > 0 and Scalar.tol_zero(E):
         x1 = p1.x + D * v.y / d2
         y1 = p1.y + -D * v.x / d2
 
-- 
2.43.0


From 6f3e4dd7e1f353cedb8739901da4fa5d404d6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 26/36] fix: ray-ray intersection handles parallel rays and
 checks both rays

---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 0c35d84..337ac71 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From 02772085e58ee3799844ce9229c9202cefa1cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:33 +0000
Subject: [PATCH 27/36] fix: line-line intersection divides by the checked
 cross product only

---
 solver/geometry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 337ac71..7fe95cd 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -543,17 +543,15 @@ def ll_int(p1, v1, p2, v2):
     logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, \
     v2)
 
-    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
+    # cross product of the directions
+    c = v1.x * v2.y - v1.y * v2.x
+
+    if Scalar.tol_zero(c):
         # lines don't intersect
         return []
-    elif not Scalar.tol_zero(v2.y):
-        d = p2 - p1
-        r2 = -v2.x / v2.y
-        f = v1.x + v1.y * r2
-        t1 = (d.x + d.y * r2) / f
-    else:
-        d = p2-p1
-        t1 = d.y / v1.y
+
+    d = p2 - p1
+    t1 = (d.x * v2.y - d.y * v2.x) / c
 
     return [p1 + v1 * t1]
 
-- 
2.43.0


From 2b30d891c7efcbb569d77160c7ae250dd688232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 28/36] fix: matrix shapes are compared by value, not identity

---
 solver/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 7fe95cd..56550fb 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
@@ -197,7 +197,7 @@ class Vector(Matrix):
                     raise Exception('Matrix must be a single column')
 
                 # check that the matrix has 2 elements
-                if x.num_rows is not 2:
+                if x.num_rows != 2:
                     raise Exception('Matrix must have two rows')
 
                 y = x.elements[1][0]
-- 
2.43.0


From 479268d3799e3db90d8f296aae18e253d540fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 29/36] fix: a vector is negative only if all of its
 coordinates are

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 56550fb..295bfea 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -314,7 +314,7 @@ class Vector(Matrix):
         Assumes 0 is positive
         """
 
-        return not self.is_positive()
+        return self.x < 0 and self.y < 0
 
     def tol_eq(self, other, *args, **kwargs):
         return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \
-- 
2.43.0


From 47307726f5bfcf4ba941a4b0baeab87d31f4bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 30/36] fix: geometry self-checks use the names that exist

---
 solver/geometry.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 295bfea..0057b1c 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -839,21 +839,25 @@ def cs_transform_matrix(from_cs, to_cs):
 
 # -------------------------test code -----------------
 
+def randvec():
+    """random vector with coordinates between 0 and 10"""
+    return Vector(*np.random.uniform(0.0, 10.0, 2))
+
 def test_ll_int():
     """test random line-line intersection. returns True iff succesful"""
     # generate three points A,B,C an two lines AC, BC.
     # then calculate the intersection of the two lines
     # and check that it equals C
-    p_a = vector.randvec(2, 0.0, 10.0, 1.0)
-    p_b = vector.randvec(2, 0.0, 10.0, 1.0)
-    p_c = vector.randvec(2, 0.0, 10.0, 1.0)
+    p_a = randvec()
+    p_b = randvec()
+    p_c = randvec()
     # print p_a, p_b, p_c
-    if np.allclose(linalg.norm(p_c - p_a),0) or np.allclose(linalg.norm(p_c - p_b),0):
+    if Scalar.tol_zero((p_c - p_a).length) or Scalar.tol_zero((p_c - p_b).length):
         return True # ignore this case
-    v_ac = (p_c - p_a) / linalg.norm(p_c - p_a)
-    v_bc = (p_c - p_b) / linalg.norm(p_c - p_b)
+    v_ac = (p_c - p_a) / (p_c - p_a).length
+    v_bc = (p_c - p_b) / (p_c - p_b).length
     s = ll_int(p_a, v_ac, p_b, v_bc)
-    if np.allclose(np.absolute(np.dot(v_ac, v_bc)),1.0):
+    if np.allclose(abs(v_ac.dot(v_bc)),1.0):
         return len(s) == 0
     else:
         if len(s) > 0:
@@ -867,16 +871,16 @@ def test_rr_int():
     # generate tree points A,B,C an two rays AC, BC.
     # then calculate the intersection of the two rays
     # and check that it equals C
-    p_a = vector.randvec(2, 0.0, 10.0,1.0)
-    p_b = vector.randvec(2, 0.0, 10.0,1.0)
-    p_c = vector.randvec(2, 0.0, 10.0,1.0)
+    p_a = randvec()
+    p_b = randvec()
+    p_c = randvec()
     # print p_a, p_b, p_c
-    if np.allclose(linalg.norm(p_c - p_a),0) or np.allclose(linalg.norm(p_c - p_b),0):
+    if Scalar.tol_zero((p_c - p_a).length) or Scalar.tol_zero((p_c - p_b).length):
         return True # ignore this case
-    v_ac = (p_c - p_a) / linalg.norm(p_c - p_a)
-    v_bc = (p_c - p_b) / linalg.norm(p_c - p_b)
+    v_ac = (p_c - p_a) / (p_c - p_a).length
+    v_bc = (p_c - p_b) / (p_c - p_b).length
     s = rr_int(p_a, v_ac, p_b, v_bc)
-    if np.allclose(np.absolute(np.dot(v_ac, v_bc)),1.0):
+    if np.allclose(abs(v_ac.dot(v_bc)),1.0):
         return len(s) == 0
     else:
         if len(s) > 0:
@@ -912,7 +916,7 @@ def test1():
     print("2D angles")
     for i in range(9):
         a = i * 45 * np.pi / 180
-        p1 = np.array([1.0,0.0])
-        p2 = np.array([0.0,0.0])
-        p3 = np.array([np.cos(a),np.sin(a)])
+        p1 = Vector(1.0, 0.0)
+        p2 = Vector(0.0, 0.0)
+        p3 = Vector(np.cos(a), np.sin(a))
         print(p3, angle_3p(p1,p2,p3) * 180 / np.pi, "flip", angle_3p(p3,p2,p1) * 180 / np.pi)
-- 
2.43.0


From b69a382dc1c9ae61804d1745992ee5467a45fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 31/36] fix: merged configurations remember that they are
 underconstrained

---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..fd95fc4 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -125,6 +125,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 339186baf99593febdeb7ff3d23ebdf04b2a7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 32/36] fix: configurations can be compared with other objects

---
 solver/geometric/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index fd95fc4..14ac7de 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -235,7 +235,9 @@ class Configuration(object):
         # FIXME: this contains code that is probably redundant - the hash value
         # will probably pick up a lot of the other checks
 
-        if hash(self) != hash(other):
+        if not isinstance(other, Configuration):
+            return False
+        elif hash(self) != hash(other):
             # the hash value for configurations is based only on the variable
             # names, so if these differ then the configurations are definitely
             # different
-- 
2.43.0


From 2fe09584b20231ad41cf9eb1b034be4fc85e4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 33/36] fix: reference points of a transformation are distinct
 where possible

---
 solver/geometric/configuration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 14ac7de..027aebe 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -176,6 +176,15 @@ class Configuration(object):
             v1 = list(shared)[0]
             v2 = list(shared)[1]
 
+            # prefer a second variable which doesn't overlap with the first
+            for v in list(shared)[1:]:
+                if not Scalar.tol_zero(distance_2p(self.mapping[v1], \
+                self.mapping[v])) and not Scalar.tol_zero(distance_2p( \
+                other.mapping[v1], other.mapping[v])):
+                    v2 = v
+
+                    break
+
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
 
-- 
2.43.0


From 044b973b754887816a8d7b4d3c69a6ad63fbf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 34/36] fix: geometry self-checks recognise parallel lines as
 the intersections do

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 0057b1c..221e33e 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -857,7 +857,7 @@ def test_ll_int():
     v_ac = (p_c - p_a) / (p_c - p_a).length
     v_bc = (p_c - p_b) / (p_c - p_b).length
     s = ll_int(p_a, v_ac, p_b, v_bc)
-    if np.allclose(abs(v_ac.dot(v_bc)),1.0):
+    if Scalar.tol_zero(v_ac.x * v_bc.y - v_ac.y * v_bc.x):
         return len(s) == 0
     else:
         if len(s) > 0:
@@ -880,7 +880,7 @@ def test_rr_int():
     v_ac = (p_c - p_a) / (p_c - p_a).length
     v_bc = (p_c - p_b) / (p_c - p_b).length
     s = rr_int(p_a, v_ac, p_b, v_bc)
-    if np.allclose(abs(v_ac.dot(v_bc)),1.0):
+    if Scalar.tol_zero(v_ac.x * v_bc.y - v_ac.y * v_bc.x):
         return len(s) == 0
     else:
         if len(s) > 0:
-- 
2.43.0


From 23db5a74885ae0145b2b4523cb60c43b56e337c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 35/36] fix: transpose of a vector is a row matrix

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 221e33e..9310402 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From cccd6e78d98a0f65776f2560b334ab1fb563d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 36/36] fix: multi-valued methods have to implement
 multi_execute

---
 solver/method.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 270e5a9..46ecded 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -226,6 +226,13 @@ class MultiMethod(Method, metaclass=abc.ABCMeta):
         if not isinstance(self.outputs[0], MultiVariable):
             raise Exception("MultiMethod requires a MultiVariable output")
 
+    @abc.abstractmethod
+    def multi_execute(self, inmap):
+        """Returns a list of possible values for the output variable, given a
+        map with a single value for every input variable"""
+
+        raise NotImplementedError()
+
     def execute(self, inmap):
         """Calls multi_execute for each permutation of multi-valued input \
         variables and collects result in multi-valued ouput variables
-- 
2.43.0

