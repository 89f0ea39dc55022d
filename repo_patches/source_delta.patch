From 08ddcf6f573f5d892070072076998877c582cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 01/42] fix: extend half-infinite edges until they leave the
 bounding polygon

The sweep line used to extend them was min_y - |max_y|, which does not depend on
the extent of the polygon: boxes with negative or centered coordinates and wide
boxes lost or misplaced borders.
---
 foronoi/graph/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..148045e 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -148,8 +148,8 @@ class Polygon(Subject):
         return resulting_edges
 
     def _finish_edge(self, edge):
-        # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        # Sweep line position, low enough for every half-infinite edge to have left the bounding polygon
+        sweep_line = self.min_y - 3 * (self.max_x - self.min_x + self.max_y - self.min_y)
 
         # Start should be a breakpoint
         start = edge.get_origin(y=sweep_line, max_y=self.max_y)
-- 
2.43.0


From 53590d1a3bcf5abb762800bf303dfffda0c566d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 02/42] fix: pick the furthest intersection from the filtered
 list

The distances were filtered but the index was applied to the unfiltered points.
---
 foronoi/graph/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 148045e..9212325 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -234,8 +234,8 @@ class Polygon(Subject):
 
         # Find the intersection point that is furthest away from the start
         if points:
+            points = [p for p in points if Algebra.distance(orig, p) <= max_distance]
             distances = [Algebra.distance(orig, p) for p in points]
-            distances = [i for i in distances if i <= max_distance]
             if distances:
                 point = points[np.argmax(distances)]
 
-- 
2.43.0


From 8694ab372aba0fa9e5bfdb933435621e417bc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 03/42] fix: clip upward infinite edges from strictly above the
 polygon

The edge between the two topmost sites at equal height ended exactly on the
polygon's top, and rounding could place the intersection beyond that end, so
that the edge was dropped.
---
 foronoi/graph/polygon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 9212325..ad01aba 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -151,11 +151,14 @@ class Polygon(Subject):
         # Sweep line position, low enough for every half-infinite edge to have left the bounding polygon
         sweep_line = self.min_y - 3 * (self.max_x - self.min_x + self.max_y - self.min_y)
 
+        # Position for infinitely highly positioned breakpoints, strictly above the bounding polygon
+        max_y = self.max_y + (self.max_y - self.min_y)
+
         # Start should be a breakpoint
-        start = edge.get_origin(y=sweep_line, max_y=self.max_y)
+        start = edge.get_origin(y=sweep_line, max_y=max_y)
 
         # End should be a vertex
-        end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y)
+        end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
 
         # Get point of intersection
         point = self._get_intersection_point(end, start)
-- 
2.43.0


From 86a09debbd8b227e9b12dc4ddc340acef4c7cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 04/42] fix: order polygon vertices around a point strictly
 inside the polygon

The center of the bounding extremes lies on the hypotenuse of a right triangle,
so the vertices on that side could not be ordered by their angle.
---
 foronoi/graph/polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ad01aba..daf31bd 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -24,7 +24,10 @@ class Polygon(Subject):
         min_x = min([p.xd for p in self.points])
         max_y = max([p.yd for p in self.points])
         max_x = max([p.xd for p in self.points])
-        center = Coordinate((max_x + min_x) / 2, (max_y + min_y) / 2)
+
+        # The mean of the vertices is strictly inside the polygon, while the center of the extremes can be on its border
+        center = Coordinate(sum(p.xd for p in points) / len(points), sum(p.yd for p in points) / len(points))
+
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
         self.points = self._order_points(self.points)
-- 
2.43.0


From 33c275670a5f74d088e86f0772e0b3398eb33072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 05/42] fix: move every connected edge when merging vertices

The list was changed while it was iterated over, so that some edges kept a
vertex that is no longer part of the diagram as their origin.
---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..6b412a6 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -555,7 +555,7 @@ class Algorithm(Subject):
                 v2: Vertex = edge.twin.origin
 
                 # Move connected edges from v1 to v2
-                for connected in v1.connected_edges:
+                for connected in list(v1.connected_edges):
                     connected.origin = v2
                     v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
-- 
2.43.0


From 1ac59835e8011718a68447b9835d91439ced3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 06/42] fix: start the bounding polygon in the cell on the far
 side of the last border

When a border runs through a corner of the polygon, two sites are equally close
to that corner and the closest one is not always the one whose cell starts there.
---
 foronoi/graph/polygon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index daf31bd..8c2691d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -73,7 +73,11 @@ class Polygon(Subject):
         """
         vertices = self._get_ordered_vertices(self.polygon_vertices)
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
-        cell = self._get_closest_point(vertices[0], points)
+
+        # The first vertex is in the cell on the far side of the last edge that ends on the polygon. If there is no such
+        # edge, then there is only one cell.
+        last_edges = [vertex.connected_edges[0] for vertex in vertices if len(vertex.connected_edges) > 0]
+        cell = last_edges[-1].twin.incident_point if last_edges else self._get_closest_point(vertices[0], points)
         previous_edge = None
         for index in range(0, len(vertices) - 1):
 
-- 
2.43.0


From 0324a59199f1beb9d9b249ffd3c5b6eba87ec0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 07/42] fix: keep the status tree balanced

The tree was only rebalanced at its root after a circle event, not at all after a
site event at equal height, and with outdated heights above a rotation. A row of
1100 sites raised a RecursionError.
---
 foronoi/algorithm.py | 5 +++--
 foronoi/tree/tree.py | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6b412a6..b48c56c 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -325,6 +325,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
@@ -491,7 +492,7 @@ class Algorithm(Subject):
             right = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(arc_node.parent.right)
 
             # Find the left breakpoint
             left_breakpoint = Breakpoint(breakpoint=(predecessor.get_value().origin, arc_node.get_value().origin))
@@ -519,7 +520,7 @@ class Algorithm(Subject):
             left = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(arc_node.parent.left)
 
             # Find the right breakpoint
             right_breakpoint = Breakpoint(breakpoint=(arc_node.get_value().origin, successor.get_value().origin))
diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..f4be125 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -187,6 +187,8 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        # A rotation below this node can have changed its height
+        node.update_height()
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From 942af01264605e848caaddd288042a5257866d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 08/42] fix: create a diagram with vertices of its own when a
 polygon is reused

The polygon's vertices were shared by all diagrams created with it, so that the
second diagram was wrong and also changed the first.
---
 foronoi/graph/polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 8c2691d..5316f6b 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -136,6 +136,9 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        # Start with new vertices, since the vertices of a previous diagram are part of that diagram
+        self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
+
         resulting_edges = list()
         for edge in edges:
 
-- 
2.43.0


From d039a1cc44c45cbdf7cd1a1e5e09441688cbf034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 09/42] fix: start from an empty state when another diagram is
 created

As documented, create_diagram starts with an empty status structure and an empty
doubly-connected edge list; those of the previous diagram were kept.
---
 foronoi/algorithm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index b48c56c..97ed3ef 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -150,6 +150,16 @@ class Algorithm(Subject):
 
         points = [Point(x, y) for x, y in points]
 
+        # Start with an empty status structure and doubly-connected edge list, also if a diagram was created before
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.doubly_connected_edge_list = []
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Initialize all points
         self.initialize(points)
         index = 0
-- 
2.43.0


From de69a1f78684016dd80e3904e70e2d138748fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 10/42] fix: create diagrams inside a bounding circle

finish_edges returned a tuple where a list of edges is expected, listed clipped
edges once per half-edge, and left edges outside of the circle linked. A single
site has no edge that ends on the circle.
---
 foronoi/contrib/bounding_circle.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c04fd74..0b8277d 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -56,13 +56,9 @@ class BoundingCircle(Polygon):
                     .show()
 
             if A is None:
-                if B is None:
-                    continue
-                result = result and self.trim_edge(edge)
+                result = B is not None and self.trim_edge(edge)
             elif not self.inside(A):
                 result = result and self.trim_edge(edge)
-            if result:
-                resulting_edges.append(edge)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -73,10 +69,14 @@ class BoundingCircle(Polygon):
                     .plot_polygon() \
                     .show()
 
-            if B is None or not self.inside(B):
+            if result and (B is None or not self.inside(B)):
                 result = self.trim_edge(edge.twin)
-                if result:
-                    resulting_edges.append(edge.twin)
+
+            if result:
+                resulting_edges.append(edge)
+            else:
+                edge.delete()
+                edge.twin.delete()
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -98,7 +98,14 @@ class BoundingCircle(Polygon):
                 .plot_polygon() \
                 .show()
 
-        return resulting_edges, self.polygon_vertices
+        return resulting_edges
+
+    def finish_polygon(self, edges, existing_vertices, points):
+        # When there is only one cell, no edge ends on the circle
+        if len(self.polygon_vertices) == 0:
+            return edges, list(existing_vertices)
+
+        return super().finish_polygon(edges, existing_vertices, points)
 
     def trim_edge(self, edge, twisted=False):
 
-- 
2.43.0


From 7edd8cd2891f0e6161b2ad6e806938e4d04b3ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 11/42] fix: create a diagram with vertices of its own when a
 bounding circle is reused

---
 foronoi/contrib/bounding_circle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 0b8277d..7a6b917 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -40,6 +40,9 @@ class BoundingCircle(Polygon):
         return (self.xd - point.xd) ** 2 + (self.yd - point.yd) ** 2 < self.radius ** 2
 
     def finish_edges(self, edges, vertices=None, points=None, event_queue=None):
+        # Start without vertices, since the vertices of a previous diagram are part of that diagram
+        self.polygon_vertices = []
+
         resulting_edges = []
         for edge in edges:
             result = True
-- 
2.43.0


From 05d9be06fe3165b534f4c5659166b528a66eacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 12/42] fix: keep an observer's settings out of the shared
 presets

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..cb62250 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,20 +82,20 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
+            settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
+            settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
+            settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From 0f2b3d1976b186e3eda2c90c3eb5590a9e3ce274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 13/42] fix: draw the bounding circle around its center

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..830a9bf 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -202,7 +202,7 @@ class Visualizer:
         if hasattr(self.voronoi.bounding_poly, 'radius'):
             # Draw bounding box
             self.canvas.add_patch(
-                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.xd),
+                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.yd),
                                self.voronoi.bounding_poly.radius,
                                fill=False,
                                edgecolor=Colors.BOUNDING_BOX)
-- 
2.43.0


From edd17cf047d2bb761167ca62dcf81de27bce8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 14/42] fix: delete a tree node that has two children

---
 foronoi/tree/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index f4be125..39653b9 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -164,7 +164,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs))
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 33c7bf4e7f8349b81b13c5604538ca344227a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 15/42] fix: locate breakpoints when rounding makes the square
 root's argument negative

---
 foronoi/nodes/breakpoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..1e98e68 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -99,9 +99,11 @@ class Breakpoint:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
             # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            x = -(Decimal.sqrt(
+            # The part under the square root is never negative, except for rounding when a point is almost on the sweep line
+            root = Decimal.sqrt(max(Decimal(0),
                 v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2) + a * v - c * u) / (u - v)
+                    u - v) ** 2))
+            x = -(root + a * v - c * u) / (u - v)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From 5603f0f531daefde1d4c3f116cabf3f1f77f61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 16/42] fix: decide the order of three sites without comparing
 angles around a far center

---
 foronoi/graph/algebra.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 0ed5ab5..864ce12 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -67,11 +67,9 @@ class Algebra:
 
     @staticmethod
     def check_clockwise(a, b, c, center):
-        angle_1 = Algebra.calculate_angle(a, center)
-        angle_2 = Algebra.calculate_angle(b, center)
-        angle_3 = Algebra.calculate_angle(c, center)
-
-        counter_clockwise = (angle_3 - angle_1) % 360 > (angle_3 - angle_2) % 360
+        # Points on a circle are in the same order around its center as around the triangle that they form, which can still
+        # be determined when the center is too far away to tell the angles apart
+        counter_clockwise = (b.xd - a.xd) * (c.yd - a.yd) > (b.yd - a.yd) * (c.xd - a.xd)
 
         if counter_clockwise:
             return False
-- 
2.43.0


From 515be687def8e2b0d610a898d8ece1fdc0f81868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 17/42] fix: find the intersection of an edge that runs through
 a corner of the polygon

---
 foronoi/graph/algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 864ce12..bb0c84c 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -43,7 +43,8 @@ class Algebra:
         t1 = np.cross(v2, v1) / np.dot(v2, v3)
         t2 = np.dot(v1, v3) / np.dot(v2, v3)
 
-        if t1 > 0.0 and 0.0 <= t2 <= 1.0:
+        # Rounding should not let a ray pass between two line segments that share an end point
+        if t1 > 0.0 and -1e-9 <= t2 <= 1.0 + 1e-9:
             return [orig + t1 * direction]
         return []
 
-- 
2.43.0


From 441c6828433ec372a4ff8f0d655f71f8729b4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 18/42] fix: clip an upward edge at max_y also when that is
 zero

---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 1e98e68..c7d2f5b 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From 175da78111e046a046baeb7e1c1bf5165b3ff430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:40 +0000
Subject: [PATCH 19/42] fix: notify every observer when one of them is detached
 meanwhile

---
 foronoi/observers/subject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..01a959c 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -46,8 +46,10 @@ class Subject:
         message: Message
             The message type
         """
-        for observer in self._observers:
-            observer.update(self._root_sender, message, **kwargs)
+        # An observer can detach itself or another observer while it is notified
+        for observer in list(self._observers):
+            if observer in self._observers:
+                observer.update(self._root_sender, message, **kwargs)
         return self
 
     def get_observers(self):
-- 
2.43.0


From 9f2391ff0258600e9d351a6c58c84d8049860f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 20/42] fix: send the messages of a shared polygon to the
 observers of the diagram that is created

---
 foronoi/algorithm.py         | 5 +++++
 foronoi/observers/subject.py | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 97ed3ef..b7254ef 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -160,6 +160,11 @@ class Algorithm(Subject):
         self.edges = list()
         self._vertices = set()
 
+        # Another diagram can have been given the same polygon, while its messages belong to this one now
+        if self.bounding_poly._root_sender is not self:
+            self.bounding_poly.inherit_observers_from(self)
+            self._update_children()
+
         # Initialize all points
         self.initialize(points)
         index = 0
diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 01a959c..67ca7c0 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -76,11 +76,14 @@ class Subject:
         """
         Add child
         """
-        self._children.append(child)
+        if child not in self._children:
+            self._children.append(child)
 
     def _update_children(self):
         """
         Send the observers to the children
         """
         for child in self._children:
-            child._observers = self.get_observers()
+            # A child that has another parent by now has the observers of that parent
+            if child._root_sender is self:
+                child._observers = self.get_observers()
-- 
2.43.0


From fbfb5a3541b9347d703256b25b5075a68aaffac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 21/42] fix: draw the circle event when its triangle is asked
 for

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 830a9bf..8cad2a3 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 3f96e1a6ed591184742c379321ad00749066199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 22/42] fix: accept a float as canvas offset

---
 foronoi/visualization/visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 8cad2a3..4597829 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -545,6 +545,7 @@ class Visualizer:
 
     @staticmethod
     def _canvas_size(bounding_polygon, offset):
+        offset = Decimal(str(offset))
         max_y = bounding_polygon.max_y + offset
         max_x = bounding_polygon.max_x + offset
         min_x = bounding_polygon.min_x - offset
-- 
2.43.0


From 6c42d13a775a5d43329c121e3e61fc071a3412ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 23/42] fix: label arcs with their own site when another arc is
 a ray

---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 4597829..03f5712 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From f96977d4fe89546d9ef285a1e5835ba965e21be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 24/42] fix: plot what is given when it is an empty list or a
 sweep line at zero

---
 foronoi/visualization/visualizer.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 03f5712..3e35fb2 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -228,7 +228,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = vertices if vertices is not None else self.voronoi.vertices
 
         xs = [vertex.xd for vertex in vertices]
         ys = [vertex.yd for vertex in vertices]
@@ -254,7 +254,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = vertices if vertices is not None else self.voronoi.vertices
         scale = Decimal(str(scale))
 
         for vertex in vertices:
@@ -300,7 +300,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        points = points or self.voronoi.sites
+        points = points if points is not None else self.voronoi.sites
 
         xs = [point.xd for point in points]
         ys = [point.yd for point in points]
@@ -335,8 +335,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = edges if edges is not None else self.voronoi.edges
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -360,8 +360,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = edges if edges is not None else self.voronoi.edges
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -389,8 +389,8 @@ class Visualizer:
         self: Visualizer
 
         """
-        arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        arcs = arcs if arcs is not None else self.voronoi.arcs
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -449,7 +449,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
-- 
2.43.0


From 41964d211102ba57a863ae3de53a145c1e3cfc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 25/42] fix: give the observer's figures the requested size

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index cb62250..4055cbe 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,20 +81,20 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
-- 
2.43.0


From fefb8006296a7acb056aba0b66596494bbf6edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 26/42] fix: clip an edge with an end far away along the
 bisector of its sites

---
 foronoi/graph/algebra.py | 10 ++++++++++
 foronoi/graph/polygon.py | 17 ++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index bb0c84c..038e17c 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -12,6 +12,16 @@ class Algebra:
 
         return np.sqrt((x2 - x1) ** 2 + (y2 - y1)**2)
 
+    @staticmethod
+    def move_along_bisector(point, a, b, distance):
+        # The point on the perpendicular bisector of a and b, in the direction of the given point
+        mid_x, mid_y = (a.xd + b.xd) / 2, (a.yd + b.yd) / 2
+        dx, dy = a.yd - b.yd, b.xd - a.xd
+        t = distance / np.sqrt(dx ** 2 + dy ** 2)
+        if (point.xd - mid_x) * dx + (point.yd - mid_y) * dy < 0:
+            t = -t
+        return Coordinate(mid_x + t * dx, mid_y + t * dy)
+
     @staticmethod
     def magnitude(vector):
         return np.sqrt(np.dot(np.array(vector), np.array(vector)))
diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 5316f6b..9dc225b 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -157,18 +157,29 @@ class Polygon(Subject):
 
         return resulting_edges
 
-    def _finish_edge(self, edge):
+    def _get_clipping_origin(self, edge):
         # Sweep line position, low enough for every half-infinite edge to have left the bounding polygon
         sweep_line = self.min_y - 3 * (self.max_x - self.min_x + self.max_y - self.min_y)
 
         # Position for infinitely highly positioned breakpoints, strictly above the bounding polygon
         max_y = self.max_y + (self.max_y - self.min_y)
 
+        origin = edge.get_origin(y=sweep_line, max_y=max_y)
+
+        # A vertex can be so far away that rounding makes the edge miss its course through the bounding polygon. The edge
+        # is on the bisector of its two sites, so we can continue with a point on that line that is closer by.
+        max_distance = 1000 * (self.max_x - self.min_x + self.max_y - self.min_y)
+        if origin is not None and Algebra.distance(origin, self.center) > max_distance:
+            origin = Algebra.move_along_bisector(origin, edge.incident_point, edge.twin.incident_point, max_distance)
+
+        return origin
+
+    def _finish_edge(self, edge):
         # Start should be a breakpoint
-        start = edge.get_origin(y=sweep_line, max_y=max_y)
+        start = self._get_clipping_origin(edge)
 
         # End should be a vertex
-        end = edge.twin.get_origin(y=sweep_line, max_y=max_y)
+        end = self._get_clipping_origin(edge.twin)
 
         # Get point of intersection
         point = self._get_intersection_point(end, start)
-- 
2.43.0


From 25b012fc9002c90a1c937a07ca68ead3394d7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 27/42] fix: calculate with enough digits for sites that are
 almost level or almost collinear

---
 foronoi/algorithm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index b7254ef..5988a54 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -1,3 +1,4 @@
+from decimal import localcontext
 from queue import PriorityQueue
 from typing import List
 
@@ -148,6 +149,13 @@ class Algorithm(Subject):
         Output. The Voronoi diagram `Vor(P)` given inside a bounding box in a doublyconnected edge list `D`.
         """
 
+        # Calculate with more digits than a float has, such that sites that are almost level or almost on one line do not
+        # get lost in rounding
+        with localcontext() as context:
+            context.prec = max(context.prec, 60)
+            self._create_diagram(points)
+
+    def _create_diagram(self, points: list):
         points = [Point(x, y) for x, y in points]
 
         # Start with an empty status structure and doubly-connected edge list, also if a diagram was created before
-- 
2.43.0


From 39cc51f2110c1d144be556d03dd0c1f0bdedb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 28/42] fix: deleting the root of a tree leaves its child
 without the deleted parent

---
 foronoi/tree/tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 39653b9..e2fbb19 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -156,11 +156,14 @@ class Tree:
             root.right = Tree.delete(root.right, key)
 
         else:
-            if root.left is None:
-                return root.right
+            if root.left is None or root.right is None:
+                child = root.left or root.right
 
-            elif root.right is None:
-                return root.left
+                # Give the parent of the deleted node to the child, also if it is the new root of the tree
+                if child is not None:
+                    child.parent = root.parent
+
+                return child
 
             temp = root.right.minimum()
             root.data = temp.data
-- 
2.43.0


From 421ebdcb6fc2b1c002cdf6e6b748e63505003262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 29/42] fix: clip edges to a bounding circle that is large, far
 away or has level sites

---
 foronoi/contrib/bounding_circle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 7a6b917..6e572f0 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -46,8 +46,8 @@ class BoundingCircle(Polygon):
         resulting_edges = []
         for edge in edges:
             result = True
-            A = edge.get_origin(y=-1000)
-            B = edge.twin.get_origin(y=-1000)
+            A = self._get_clipping_origin(edge)
+            B = self._get_clipping_origin(edge.twin)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -173,8 +173,8 @@ class BoundingCircle(Polygon):
         return is_on(A, B, C)
 
     def cut_line(self, edge):
-        A = edge.get_origin(-1000)
-        B = edge.twin.get_origin(-1000)
+        A = self._get_clipping_origin(edge)
+        B = self._get_clipping_origin(edge.twin)
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
-- 
2.43.0


From 52ce505134adc39113c68b13abdfdf6029b9dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:10 +0000
Subject: [PATCH 30/42] fix: remove zero-length edges that are outside of a
 bounding circle

---
 foronoi/contrib/bounding_circle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 6e572f0..c9b4f6c 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -175,6 +175,11 @@ class BoundingCircle(Polygon):
     def cut_line(self, edge):
         A = self._get_clipping_origin(edge)
         B = self._get_clipping_origin(edge.twin)
+
+        # An edge without length does not cross the circle
+        if A.xd == B.xd and A.yd == B.yd:
+            return None
+
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
-- 
2.43.0


From a01f765072e68f4b84e7d2c13983676972935ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:04 +0000
Subject: [PATCH 31/42] fix: leave no edge with a site whose cell is cut off

---
 foronoi/graph/half_edge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/half_edge.py b/foronoi/graph/half_edge.py
index 4d035dd..f59e63b 100644
--- a/foronoi/graph/half_edge.py
+++ b/foronoi/graph/half_edge.py
@@ -170,5 +170,5 @@ class HalfEdge:
                     self.next is None or self.next.incident_point == self.incident_point
             ), f"Incident points {self.next.incident_point} and {self.incident_point} do not match"
 
-            # Set the new "first edge" pointer
-            self.incident_point.first_edge = self.next
\ No newline at end of file
+            # Set the new "first edge" pointer, unless this was the last edge of a cell that is closed
+            self.incident_point.first_edge = self.next if self.next is not self else None
\ No newline at end of file
-- 
2.43.0


From 944931412db8af980d59df72009d83e6459c5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:04 +0000
Subject: [PATCH 32/42] fix: follow edges of sites that are far outside of the
 bounding polygon

---
 foronoi/graph/polygon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 9dc225b..ff60cba 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -158,8 +158,13 @@ class Polygon(Subject):
         return resulting_edges
 
     def _get_clipping_origin(self, edge):
+        size = self.max_x - self.min_x + self.max_y - self.min_y
+
+        # The sites can be outside of the bounding polygon
+        reach = max(Algebra.distance(edge.incident_point, self.center), Algebra.distance(edge.twin.incident_point, self.center))
+
         # Sweep line position, low enough for every half-infinite edge to have left the bounding polygon
-        sweep_line = self.min_y - 3 * (self.max_x - self.min_x + self.max_y - self.min_y)
+        sweep_line = self.min_y - max(3 * size, 2 * reach)
 
         # Position for infinitely highly positioned breakpoints, strictly above the bounding polygon
         max_y = self.max_y + (self.max_y - self.min_y)
@@ -168,7 +173,7 @@ class Polygon(Subject):
 
         # A vertex can be so far away that rounding makes the edge miss its course through the bounding polygon. The edge
         # is on the bisector of its two sites, so we can continue with a point on that line that is closer by.
-        max_distance = 1000 * (self.max_x - self.min_x + self.max_y - self.min_y)
+        max_distance = max(1000 * size, 10 * reach)
         if origin is not None and Algebra.distance(origin, self.center) > max_distance:
             origin = Algebra.move_along_bisector(origin, edge.incident_point, edge.twin.incident_point, max_distance)
 
-- 
2.43.0


From ad7d14134b91586541b548bd00198aa15c080a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 33/42] fix: leave out edges that miss a bounding circle

---
 foronoi/contrib/bounding_circle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c9b4f6c..2399f27 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -1,5 +1,5 @@
 import warnings
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
@@ -104,9 +104,9 @@ class BoundingCircle(Polygon):
         return resulting_edges
 
     def finish_polygon(self, edges, existing_vertices, points):
-        # When there is only one cell, no edge ends on the circle
+        # When there is only one cell, no edge ends on the circle and no vertex is inside of it
         if len(self.polygon_vertices) == 0:
-            return edges, list(existing_vertices)
+            return edges, []
 
         return super().finish_polygon(edges, existing_vertices, points)
 
@@ -212,7 +212,7 @@ class BoundingCircle(Polygon):
         a_sq_b_sq = a ** 2 + b ** 2
         try:
             big_sqrt = Decimal.sqrt(self.radius ** 2 * a_sq_b_sq - d ** 2).real
-        except ValueError:
+        except (ValueError, InvalidOperation):
             return None, None
 
         x1 = self.xd + (a * d + b * big_sqrt) / a_sq_b_sq
-- 
2.43.0


From 580662b282662b1b89ec13c6deef3872193e6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 34/42] fix: find the polygon's center with enough digits
 whatever the decimal context

---
 foronoi/graph/polygon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index ff60cba..7598924 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -1,3 +1,5 @@
+from decimal import localcontext
+
 from foronoi.graph import Coordinate, Vertex, HalfEdge
 from foronoi.graph.algebra import Algebra
 import numpy as np
@@ -25,12 +27,16 @@ class Polygon(Subject):
         max_y = max([p.yd for p in self.points])
         max_x = max([p.xd for p in self.points])
 
-        # The mean of the vertices is strictly inside the polygon, while the center of the extremes can be on its border
-        center = Coordinate(sum(p.xd for p in points) / len(points), sum(p.yd for p in points) / len(points))
+        # With few digits in the current decimal context, the center could be rounded to a point outside of the polygon
+        with localcontext() as context:
+            context.prec = max(context.prec, 60)
+
+            # The mean of the vertices is strictly inside the polygon, while the center of the extremes can be on its border
+            center = Coordinate(sum(p.xd for p in points) / len(points), sum(p.yd for p in points) / len(points))
 
-        self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
+            self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
-        self.points = self._order_points(self.points)
+            self.points = self._order_points(self.points)
         self.polygon_vertices = []
         for point in self.points:
             self.polygon_vertices.append(Vertex(point.xd, point.yd))
-- 
2.43.0


From 8efb2833562b7f1a714dd9e2621d96663bcb4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 35/42] fix: find the extremes of a bounding circle with enough
 digits whatever the decimal context

---
 foronoi/contrib/bounding_circle.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 2399f27..b3199f3 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -1,5 +1,5 @@
 import warnings
-from decimal import Decimal, InvalidOperation
+from decimal import Decimal, InvalidOperation, localcontext
 
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
@@ -19,10 +19,15 @@ class BoundingCircle(Polygon):
         self.radius = Decimal(str(radius))
         self.polygon_vertices = []
         self.center = Coordinate(self.xd, self.yd)
-        self.max_x = self.xd + 2 * self.radius
-        self.min_x = self.xd - 2 * self.radius
-        self.max_y = self.yd + 2 * self.radius
-        self.min_y = self.yd - 2 * self.radius
+
+        # With few digits in the current decimal context, the extremes could be rounded to positions inside of the circle
+        with localcontext() as context:
+            context.prec = max(context.prec, 60)
+            self.max_x = self.xd + 2 * self.radius
+            self.min_x = self.xd - 2 * self.radius
+            self.max_y = self.yd + 2 * self.radius
+            self.min_y = self.yd - 2 * self.radius
+
         self.voronoi = Algorithm(self)  # A dummy for visualization
         self.voronoi.sweep_line = self.min_y - abs(self.max_y)
 
-- 
2.43.0


From 9017680d071abe587706024aa76f1a24d011c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:46 +0000
Subject: [PATCH 36/42] fix: remove merged vertices in one pass instead of one
 search through all vertices each

---
 foronoi/algorithm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 5988a54..be9611b 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -569,6 +569,7 @@ class Algorithm(Subject):
         """
 
         resulting_edges = []
+        removed_vertices = set()
         for edge in self.edges:
             start = edge.get_origin()
             end = edge.twin.get_origin()
@@ -585,7 +586,7 @@ class Algorithm(Subject):
                     v2.connected_edges.append(connected)
 
                 # Remove vertex v1
-                self._vertices.remove(v1)
+                removed_vertices.add(v1)
 
                 # Delete the edge
                 edge.delete()
@@ -593,4 +594,6 @@ class Algorithm(Subject):
 
             else:
                 resulting_edges.append(edge)
-            self.edges = resulting_edges
+
+        self.edges = resulting_edges
+        self._vertices = [vertex for vertex in self._vertices if vertex not in removed_vertices]
-- 
2.43.0


From 1e92857632f08e936848736533b8487442e8c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 37/42] fix: display the visible part of circles too large for
 matplotlib to render

Rendering a circle event of nearly collinear sites (radius 1e16 and more, for example for the
points (x, 0.02 + 0.02 * x) with x = 0.1, 0.2, ..., 0.9) took minutes and all memory.
---
 foronoi/visualization/visualizer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 3e35fb2..4c0925f 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -485,8 +485,24 @@ class Visualizer:
         radius = evt.radius
         color = Colors.VALID_CIRCLE if evt.is_valid else Colors.INVALID_CIRCLE
 
-        circle = plt.Circle((x, y), radius, fill=False, color=color, linewidth=2)
-        self.canvas.add_artist(circle)
+        # The center of the canvas as seen from the center of the circle
+        x_diff = (self.min_x + self.max_x) / 2 - x
+        y_diff = (self.min_y + self.max_y) / 2 - y
+        distance = Decimal.sqrt(x_diff ** 2 + y_diff ** 2)
+        size = self.max_x - self.min_x + self.max_y - self.min_y
+
+        if distance > 0 and radius > 10000 * size:
+            # Matplotlib needs too much memory to render a circle of this size. The part of it that is near the canvas
+            # looks like a straight line.
+            direction = (x_diff / distance, y_diff / distance)
+            nearest = (x + direction[0] * radius, y + direction[1] * radius)
+            line = plt.Line2D([nearest[0] - direction[1] * size, nearest[0] + direction[1] * size],
+                              [nearest[1] + direction[0] * size, nearest[1] - direction[0] * size],
+                              color=color, linewidth=2)
+            self.canvas.add_artist(line)
+        else:
+            circle = plt.Circle((x, y), radius, fill=False, color=color, linewidth=2)
+            self.canvas.add_artist(circle)
 
         if show_triangle:
             triangle = plt.Polygon(evt._get_triangle(), fill=False, color=Colors.TRIANGLE, linewidth=1)
-- 
2.43.0


From 34480fa65da3661cd981ffa6ffb19eb5b078ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:09 +0000
Subject: [PATCH 38/42] fix: cut off connections to sites that come from too
 far away for matplotlib to clip

Rendering the dashed line from the midpoint of an edge that ends 1e34 away, as happens during the
construction for points whose y-coordinates differ by rounding, took minutes and all memory.
---
 foronoi/visualization/visualizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 4c0925f..7c2e170 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -543,8 +543,18 @@ class Visualizer:
         is_first_edge = edge.incident_point is not None and edge.incident_point.first_edge == edge
         incident_point = edge.incident_point
         if start and end and incident_point:
+            x, y = (start.xd + end.xd) / 2, (start.yd + end.yd) / 2
+            x_diff, y_diff = x - incident_point.xd, y - incident_point.yd
+            length = Decimal.sqrt(x_diff ** 2 + y_diff ** 2)
+            max_length = 10000 * (self.max_x - self.min_x + self.max_y - self.min_y)
+
+            # Matplotlib can fail to clip a dashed line that ends too far away, so it needs to be cut off
+            if length.is_finite() and length > max_length:
+                x = incident_point.xd + x_diff / length * max_length
+                y = incident_point.yd + y_diff / length * max_length
+
             self.canvas.plot(
-                [(start.xd + end.xd) / 2, incident_point.xd], [(start.yd + end.yd) / 2, incident_point.yd],
+                [x, incident_point.xd], [y, incident_point.yd],
                 color=Colors.FIRST_EDGE if is_first_edge else Colors.INCIDENT_POINT_POINTER,
                 linestyle="--"
             )
-- 
2.43.0


From 1aca83ba098b9589d58b21aad7a00e5d5587ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:05 +0000
Subject: [PATCH 39/42] fix: do not render labels of arcs that are far away
 from the canvas

For points whose y-coordinates differ by rounding, the labels of arcs are as far as 1e17 away and
matplotlib raised an error when it rendered them.
---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 7c2e170..40c02c2 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -432,7 +432,9 @@ class Visualizer:
         for index in unique_indices:
             x_mean = np.nanmedian(x[(indices == index) & (bottom < self.max_y)])
             y = arcs[index].get_plot(x_mean, sweep_line)
-            self.canvas.text(x_mean, y, s=f"{arcs[index].origin.name}", size=12, color=Colors.VALID_CIRCLE, zorder=15)
+            # Unlike a text, an annotation is not rendered if its position is not on the canvas, which can be too far away
+            self.canvas.annotate(text=f"{arcs[index].origin.name}", xy=(x_mean, y), size=12, color=Colors.VALID_CIRCLE,
+                                 zorder=15)
 
         return self
 
-- 
2.43.0


From 2fc381fa90ec2cbec83d1c916f5ab4e38faebd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:43 +0000
Subject: [PATCH 40/42] fix: tell which end of an upright edge crosses a
 bounding circle by its y-coordinates

Whether a crossing is on an edge was compared by x unless both ends have exactly the same x, which
failed if the x-coordinates of an upright edge differ by rounding; the edge was then removed.
---
 foronoi/contrib/bounding_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index b3199f3..4aff533 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -168,7 +168,7 @@ class BoundingCircle(Polygon):
         def is_on(a, b, c):
             "Return true iff point c intersects the line segment from a to b."
             # (or the degenerate case that all 3 points are coincident)
-            return ((within(a.xd, c.xd, b.xd) if a.xd != b.xd else
+            return ((within(a.xd, c.xd, b.xd) if abs(a.xd - b.xd) > abs(a.yd - b.yd) else
                      within(a.yd, c.yd, b.yd)))
 
         def within(p, q, r):
-- 
2.43.0


From 8cb6e6a50d2accd281ee5363fa7d32183196f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:13 +0000
Subject: [PATCH 41/42] fix: draw event circles with a radius of more than 250
 canvases as a line, which splines are pixels away from

---
 foronoi/visualization/visualizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 40c02c2..cba5d3d 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -493,9 +493,9 @@ class Visualizer:
         distance = Decimal.sqrt(x_diff ** 2 + y_diff ** 2)
         size = self.max_x - self.min_x + self.max_y - self.min_y
 
-        if distance > 0 and radius > 10000 * size:
-            # Matplotlib needs too much memory to render a circle of this size. The part of it that is near the canvas
-            # looks like a straight line.
+        if distance > 0 and radius > 250 * size:
+            # Matplotlib approximates circles by splines, which are visibly off for a circle of this size, and renders them
+            # with too much memory. The part of it that is near the canvas looks like a straight line.
             direction = (x_diff / distance, y_diff / distance)
             nearest = (x + direction[0] * radius, y + direction[1] * radius)
             line = plt.Line2D([nearest[0] - direction[1] * size, nearest[0] + direction[1] * size],
-- 
2.43.0


From bea8caf98bae3a706b3f9b70b60156494ac6b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:45 +0000
Subject: [PATCH 42/42] fix: arcs far away from the origin were drawn at the
 wrong place

---
 foronoi/nodes/arc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foronoi/nodes/arc.py b/foronoi/nodes/arc.py
index 52f79db..11cada0 100644
--- a/foronoi/nodes/arc.py
+++ b/foronoi/nodes/arc.py
@@ -55,7 +55,6 @@ class Arc:
         # Calculate the y value for each element of the x vector
 
         u = 2 * (i.y - sweep_line)
-        v = (x ** 2 - 2 * i.x * x + i.x ** 2 + i.y ** 2 - sweep_line ** 2)
-        y = v/u
+        y = (x - i.x) ** 2 / u + (i.y + sweep_line) / 2
 
         return y
-- 
2.43.0

