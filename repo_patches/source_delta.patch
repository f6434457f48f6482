From 6b29d5d5d15c855215180ca988954d37d50e0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:27 +0000
Subject: [PATCH 1/8] fix: do not report CROSS for linear geometry passing
 through a pinch point of a shaped one

---
 orient/core/processing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..9114fd7 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -116,9 +116,7 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
     test_not_in_goal_interior = has_no_touch = True
     test_is_subset_of_goal = goal_border_subset_of_test = True
     for event in events_queue.sweep(stop_x):
-        if event.relation is SegmentsRelation.CROSS:
-            return Relation.CROSS
-        elif has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
+        if has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
             has_no_touch = False
         if event.from_test:
             if test_is_subset_of_goal and event.outside:
-- 
2.43.0


From f483a12f69c40fe613a1bcb270ebec0afb11cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 2/8] fix: report CROSS for contours crossing each other at
 vertices only

---
 orient/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index 9114fd7..3b6d708 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -102,8 +102,8 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   if has_no_touch
                   else Relation.TOUCH)
                  if (has_no_cross
-                     and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                     and test_boundary_not_in_goal_interior
+                     and goal_boundary_not_in_test_interior)
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From 36b9d7cccb671fb445babc7752b4ad4aeb2da7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:04 +0000
Subject: [PATCH 3/8] fix: consider all of the branches meeting at the vertex
 in crossing detection

---
 orient/core/events_queue.py | 47 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..cc0891c 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -233,21 +233,12 @@ class LinearEventsQueue(EventsQueue):
              if event.from_test
              else from_goal_events).append(event)
         start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
-        )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+        # branches cross each other
+        # if goal's ones are separated from one another by the test's ones
+        base_end = from_goal_events[0].end
+        if any(not self._lie_on_same_side(from_test_events, start, base_end,
+                                          goal_event.end)
+               for goal_event in from_goal_events[1:]):
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -300,6 +291,24 @@ class LinearEventsQueue(EventsQueue):
                 self._divide_segment(start_max, end_min.start)
                 self._divide_segment(start_min, start_max.start)
 
+    def _lie_on_same_side(self,
+                          events: Sequence[Event],
+                          vertex: Point,
+                          first_ray_point: Point,
+                          second_ray_point: Point) -> bool:
+        """
+        Checks if events with given start lie
+        on the same side of the angle.
+        """
+        angle_orientation = self.context.angle_orientation(
+                vertex, first_ray_point, second_ray_point
+        )
+        return all_equal(self._point_in_angle(event.end, vertex,
+                                              first_ray_point,
+                                              second_ray_point,
+                                              angle_orientation)
+                         for event in events)
+
     def _point_in_angle(self,
                         point: Point,
                         vertex: Point,
@@ -321,14 +330,6 @@ class LinearEventsQueue(EventsQueue):
                                 # if angle is degenerate
                                 or Orientation.COUNTERCLOCKWISE))))
 
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From ae2097088caa30d2e822903564de8b590770811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:56 +0000
Subject: [PATCH 4/8] fix: classify segment with both endpoints on the region
 boundary by its inner part

---
 orient/core/region.py | 115 ++++++------------------------------------
 1 file changed, 15 insertions(+), 100 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..980f8cf 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -1,6 +1,3 @@
-from typing import (Optional,
-                    Tuple)
-
 from ground.base import (Context,
                          Location,
                          Orientation,
@@ -14,7 +11,6 @@ from ground.hints import (Box,
 from . import box
 from .contour import (
     equal as contours_equal,
-    orientation as contour_orientation,
     point_vertex_line_divides_angle,
     to_edges_endpoints as contour_to_edges_endpoints,
     to_oriented_edges_endpoints as contour_to_oriented_segments
@@ -31,25 +27,18 @@ from .segment import (locate_point as locate_point_in_segment,
 def locate_point(region: Region,
                  point: Point,
                  context: Context) -> Location:
-    _, location = _locate_point(region, point, context)
-    return location
-
-
-def _locate_point(region: Region,
-                  point: Point,
-                  context: Context) -> Tuple[Optional[int], Location]:
     result = False
     point_y = point.y
-    for index, edge in enumerate(context.contour_segments(region)):
+    for edge in context.contour_segments(region):
         if locate_point_in_segment(edge, point, context) is Location.BOUNDARY:
-            return index, Location.BOUNDARY
+            return Location.BOUNDARY
         start, end = edge.start, edge.end
         if ((start.y > point_y) is not (end.y > point_y)
                 and ((end.y > start.y)
                      is (context.angle_orientation(start, end, point)
                          is Orientation.COUNTERCLOCKWISE))):
             result = not result
-    return None, (Location.INTERIOR if result else Location.EXTERIOR)
+    return Location.INTERIOR if result else Location.EXTERIOR
 
 
 def _relate_segment_to_contour(contour: Contour,
@@ -118,98 +107,24 @@ def relate_segment(region: Region,
     if (relation_with_contour is Relation.CROSS
             or relation_with_contour is Relation.COMPONENT):
         return relation_with_contour
-    start, end = segment.start, segment.end
-    start_index, start_location = _locate_point(region, start, context)
+    start_location = locate_point(region, segment.start, context)
     if relation_with_contour is Relation.DISJOINT:
         return (Relation.DISJOINT
                 if start_location is Location.EXTERIOR
                 else Relation.WITHIN)
-    elif start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    elif start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    else:
-        end_index, end_location = _locate_point(region, end, context)
-        if end_location is Location.EXTERIOR:
+    elif relation_with_contour is Relation.TOUCH:
+        location = (locate_point(region, segment.end, context)
+                    if start_location is Location.BOUNDARY
+                    else start_location)
+        if location is Location.EXTERIOR:
             return Relation.TOUCH
-        elif end_location is Location.INTERIOR:
-            return Relation.ENCLOSED
-        else:
-            angle_orientation = context.angle_orientation
-            border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
-            vertices = region.vertices
-            edge_start, edge_end = (vertices[start_index - 1],
-                                    vertices[start_index])
-            if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, end)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, end)
-                      is angle_orientation(edge_end, edge_start, end)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, end)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, end)
-                  is border_orientation):
-                return Relation.TOUCH
-            edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
-            if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, start)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, start)
-                      is angle_orientation(edge_end, edge_start, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, start)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_end, edge_start, start)
-                      is angle_orientation(next_end, edge_end, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, start)
-                  is border_orientation):
-                return Relation.TOUCH
+        elif location is Location.INTERIOR:
             return Relation.ENCLOSED
+    # segment either has both endpoints on the boundary
+    # or partially lies on it,
+    # so its endpoints say nothing about the rest of it
+    return relate_multisegment(region, context.multisegment_cls([segment]),
+                               context)
 
 
 def relate_multisegment(region: Region,
-- 
2.43.0


From 4607abca2eacc7d8f8022f9a54d5433912dbe752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:56 +0000
Subject: [PATCH 5/8] fix: classify segment that meets polygon border taking
 holes into account

---
 orient/core/polygon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..fb3ee39 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -48,8 +48,7 @@ def relate_segment(polygon: Polygon,
                    context: Context) -> Relation:
     relation_without_holes = relate_segment_to_region(polygon.border, segment,
                                                       context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
-                           or relation_without_holes is Relation.ENCLOSED)):
+    if polygon.holes and relation_without_holes is Relation.WITHIN:
         relation_with_holes = relate_segment_to_multiregion(polygon.holes,
                                                             segment, context)
         if relation_with_holes is Relation.DISJOINT:
@@ -62,6 +61,14 @@ def relate_segment(polygon: Polygon,
             return Relation.DISJOINT
         else:
             return relation_with_holes
+    elif (polygon.holes and (relation_without_holes is Relation.ENCLOSED
+                             or relation_without_holes is Relation.CROSS)):
+        # segment meets the border,
+        # so parts of it that are not within the holes
+        # can be located anywhere
+        return relate_multisegment(polygon,
+                                   context.multisegment_cls([segment]),
+                                   context)
     else:
         return relation_without_holes
 
-- 
2.43.0


From ab166a97dabf65a3403ef6ae127b6008e2b954a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:56 +0000
Subject: [PATCH 6/8] fix: report CROSS for multisegment containing shape
 border and entering its interior

---
 orient/core/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index 3b6d708..0a910e1 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -137,7 +137,9 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
                  if test_not_in_goal_interior
                  else Relation.ENCLOSED)
                 if test_is_subset_of_goal
-                else Relation.TOUCH)
+                else (Relation.TOUCH
+                      if test_not_in_goal_interior
+                      else Relation.CROSS))
     elif test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
-- 
2.43.0


From 2c2981c1e3c11f512e4191829d6ee4e18d79cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 7/8] fix: update documented complexity of segment_in_region
 after its repair

---
 orient/planar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/planar.py b/orient/planar.py
index edc9a4b..f71daca 100644
--- a/orient/planar.py
+++ b/orient/planar.py
@@ -517,9 +517,9 @@ def segment_in_region(segment: _Segment, region: _Region,
     Finds relation between segment and region.
 
     Time complexity:
-        ``O(len(region.vertices))``
+        ``O(len(region.vertices) * log len(region.vertices))``
     Memory complexity:
-        ``O(1)``
+        ``O(len(region.vertices))``
 
     :param segment: segment to check for.
     :param region: region to check in.
-- 
2.43.0


From 227878a34e647b39dec5e652543c53cdeedfd506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 8/8] fix: Contact with hole which touches border from outside
 in polygons relation when other holes are within

---
 orient/core/polygon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index fb3ee39..38d6bdf 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -303,7 +303,9 @@ def relate_polygon(goal: Polygon,
                       or holes_relation is Relation.ENCLOSED):
                     return Relation.ENCLOSED
                 elif holes_relation is Relation.WITHIN:
-                    return borders_relation
+                    return (borders_relation
+                            if none_touch
+                            else Relation.ENCLOSED)
                 else:
                     return Relation.OVERLAP
             else:
@@ -355,7 +357,9 @@ def relate_polygon(goal: Polygon,
                   or holes_relation is Relation.ENCLOSED):
                 return Relation.ENCLOSES
             elif holes_relation is Relation.WITHIN:
-                return borders_relation
+                return (borders_relation
+                        if none_touch
+                        else Relation.ENCLOSES)
             else:
                 return Relation.OVERLAP
         else:
-- 
2.43.0

