From dd8ba9ad98734397f6481533711d2f117929a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 01/48] fix: pass the source wire to the circle offset
 workaround (loop variable shadowed it)

---
 src/cq_cam/utils/geometry_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..73abe5c 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -83,13 +83,13 @@ def offset_wire(
             return []
 
     validated_wires = []
-    for wire in offset_wires:
+    for offset_wire_ in offset_wires:
         try:
-            face = cq.Face.makeFromWires(wire)
+            face = cq.Face.makeFromWires(offset_wire_)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
             if face.Area() > 0.1:
-                validated_wires.append(wire)
+                validated_wires.append(offset_wire_)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
         except:
-- 
2.43.0


From f347a3dcffb30d342d442c0446e5675a9467da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 02/48] fix: detect closed circular edges by topology so that
 full circles are cut

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..9fe0df4 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From d4b0adce1b1a634a67814cc84fc347f66873eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/48] fix: don't apply the closest position to a wire that is
 not entered from it

When route_wires approaches a wire with a rapid the wire is cut from its own
start, but the edge parameter of the closest position was still applied to
the first edge, which cut past the wire.
---
 src/cq_cam/routers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 9fe0df4..ee014d8 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -276,6 +276,10 @@ def route_wires(
                 Cut(AddressVector.from_vector(start), previous_pos, feed=job.feed)
             )
         else:
+            # The wire is started from its own beginning, so the closest
+            # position found above doesn't apply
+            param = None
+
             # Create simple transition between toolpaths
             # TODO Implement Ramping (Horizontal/Vertical)
             # TODO Implement orientation (Climb/Conventional)
-- 
2.43.0


From 3848c44f51285bcc4e00dda64874046f1254328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 04/48] fix: don't return to the closest position of a ring
 that is not entered from it

When route_polyface_outers approaches a ring with a rapid, the ring is cut
from its own start. Cutting to the closest position in the end leaves the
ring and cuts a chord through the pocket boundary.
---
 src/cq_cam/routers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index ee014d8..5bb1ebc 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -364,6 +364,10 @@ def route_polyface_outers(
                 Cut.abs(start.x, start.y, polyface.depth, previous_pos, feed=job.feed)
             )
         else:
+            # The polygon is started from its own beginning, so the closest
+            # position found above doesn't apply
+            closest_point = None
+
             # Create simple transition between toolpaths
             commands += rapid_to(
                 previous_pos,
-- 
2.43.0


From 95f5dc1b9f5f3a06d49601a54ac959c5e16eeb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 05/48] fix: close paths exactly so that offsetting keeps every
 corner

Vector equality is fuzzy, so a path whose end differs from its start only by
float noise was left with a nearly duplicate vertex. Offsetting such a path
drops the corner, so an island could be cut by a full tool radius.
---
 src/cq_cam/utils/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/interpolation.py b/src/cq_cam/utils/interpolation.py
index 32fb574..f785dc2 100644
--- a/src/cq_cam/utils/interpolation.py
+++ b/src/cq_cam/utils/interpolation.py
@@ -79,7 +79,11 @@ def wire_to_vectors(wire: cq.Wire, precision: int, close=True) -> list[cq.Vector
     if len(vectors) == 1:
         raise ValueError("Wire resulted only in one vector")
 
-    if close and vectors[0] != vectors[-1]:
+    if close:
+        # Vector equality is fuzzy. The path must be closed exactly, a nearly
+        # duplicate vertex breaks the offset of that corner.
+        if vectors[0] == vectors[-1]:
+            vectors.pop()
         vectors.append(vectors[0])
 
     elif not close and vectors[0] == vectors[-1]:
-- 
2.43.0


From be4c821b07792459c35332278f502cc4f1a6b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 06/48] fix: keep offset paths within the precision instead of
 collapsing curves

Cleaning an offset path with the precision as distance only compares
neighbouring vertices, so the error accumulates: circular boundaries and
islands were turned into hexagons and the tool cut into the island.
---
 src/cq_cam/utils/geometry_op.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 73abe5c..777207d 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -126,15 +126,24 @@ def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
     pco.AddPath(scaled_path, pc.JT_ROUND, pc.ET_CLOSEDPOLYGON)
 
     offset_paths = [
-        close_path(pc.scale_from_clipper(offsetted_path))
-        for offsetted_path in pc.CleanPolygons(
-            pco.Execute(scaled_offset), scaled_precision
-        )
+        simplify_path(close_path(pc.scale_from_clipper(offsetted_path)), precision)
+        for offsetted_path in pc.CleanPolygons(pco.Execute(scaled_offset))
         if offsetted_path
     ]
     return offset_paths
 
 
+def simplify_path(path: ClosedPath, precision: int) -> ClosedPath:
+    """Drop the vertices that aren't needed for the precision
+
+    pc.CleanPolygons compares a vertex only to its current neighbours. On
+    a densely interpolated curve the error builds up without limit and turns
+    circles into hexagons, so it can't be used with the precision as distance.
+    """
+    simplified = shapely.LinearRing(path).simplify(10**-precision / 2)
+    return [list(point) for point in simplified.coords]
+
+
 def wire_to_path(wire: cq.Wire, precision: int) -> Path:
     return vectors_to_2d_tuples(wire_to_vectors(wire, precision))
 
-- 
2.43.0


From 90a9cbf19ca117b6086c305ca37096fa2973063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 07/48] fix: compare distance instead of squared distance to
 the stepover

A squared distance below 1 made rings further apart than the stepover to be
linked with a direct cut, which could cross an island.
---
 src/cq_cam/routers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 5bb1ebc..dd58fb2 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose
+from math import isclose, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -346,9 +346,10 @@ def route_polyface_outers(
         # Determine how to access the wire
         # Direct plunge option
         if previous_wire_end:
-            distance, closest_point, poly_position = distance_to_path(
+            distance_squared, closest_point, poly_position = distance_to_path(
                 previous_wire_end, poly
             )
+            distance = sqrt(distance_squared)
         else:
             distance, closest_point, poly_position = None, None, None
 
-- 
2.43.0


From 5e89c756d38b3dd21fead13b0e8071e571e9c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 08/48] fix: save the program instead of the repr of the job in
 save_gcode

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..7598291 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -283,7 +283,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From d8a6875a673eabf4c007511fa7f1a1f8623c7804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 09/48] fix: don't modify the original job when a tool needs no
 change command

Job is fluent, an operation returns a new job. A tool that changed only the
diameter or feed was written to the job that the operation was called on, so
operations made from it later used the wrong tool.
---
 src/cq_cam/fluent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 7598291..497a813 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -133,6 +133,9 @@ class Job:
             elif speed is not None and speed != self.speed:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
+            else:
+                # Never modify the original job, it may be used further
+                self = copy(self)
 
             # Update Job attributes
             self.tool_number = tool_number
-- 
2.43.0


From 64cc46917119857fbf04c153ef03e7c92bf02098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 10/48] fix: start the program with the speed of the first
 operation

The program was started with the speed of the last tool, so the operations
before the speed change were cut with a wrong speed.
---
 src/cq_cam/fluent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 497a813..12e2216 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -75,6 +75,8 @@ class Job:
         self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
         self.feed = feed
         self.speed = speed
+        # Speed follows the tool, but the program starts with the initial one
+        self.initial_speed = speed
         self.tool_diameter = tool_diameter
         self.tool_number = tool_number
         self.name = name
@@ -278,7 +280,7 @@ class Job:
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
             f"{SafetyBlock()}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=self.initial_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{SafetyBlock()}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From b49b0b44b19bf8f29e95827e21b4d1ea1201615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 11/48] fix: accept the tool diameter from the tool given to
 profile

---
 src/cq_cam/fluent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 12e2216..bfad7f3 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -159,14 +159,14 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
-        if self.tool_diameter is None:
-            raise ValueError("Profile requires tool_diameter to be set")
-
         if outer_offset is None and inner_offset is None:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
         self = self.update_tool(tool)
+        if self.tool_diameter is None:
+            raise ValueError("Profile requires tool_diameter to be set")
+
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From 07fec7ab6bc02c30fcf705ed6128e2f913e49998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 12/48] fix: honour unit, coordinate and controller_motion of
 the job in the program

The safety block always selected millimeters, G54 and G64, so the program of
an imperial job was cut in millimeters.
---
 src/cq_cam/command.py | 21 ++++++++++++++++++---
 src/cq_cam/fluent.py  |  5 +++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..40dec76 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,21 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    unit: Unit
+    coordinate: WorkOffset
+    controller_motion: PlannerControlMode
+
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +437,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +451,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index bfad7f3..01997ce 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -277,12 +277,13 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=self.initial_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From 2d75abc279683ab7b6c0879f4be9d35eeb7b21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 13/48] fix: drill in the coordinates of the job plane

The positions were transformed to the wrong direction, so holes were drilled
to wrong places when the job plane was moved or rotated.
---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index f6afc99..033e9c6 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -24,7 +24,7 @@ class Drill(Operation):
     def __post_init__(self):
         # TODO max depth
         # TODO evacuate chips?
-        transform_f = self.job.top.toWorldCoords
+        transform_f = self.job.top.toLocalCoords
         drill_vectors: list[cq.Vector] = []
 
         if self.o is None:
-- 
2.43.0


From 7a6c015eedd5e107c03ed5fdce244a5009b09d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 14/48] fix: create the top plane face in the coordinates of
 the job plane

With a job plane below the origin a profile layer could coincide with the
face, which ended the layers early and exceeded the stepdown.
---
 src/cq_cam/fluent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 01997ce..bad028d 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -72,7 +72,8 @@ class Job:
         coolant: CoolantState | None = None,
     ):
         self.top = top
-        self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
+        # Operations work in the coordinates of the job plane
+        self.top_plane_face = cq.Face.makePlane(None, None, (0, 0, 0), (0, 0, 1))
         self.feed = feed
         self.speed = speed
         # Speed follows the tool, but the program starts with the initial one
-- 
2.43.0


From abe2388da29ea5956c4fb4f5788e28584f279f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 15/48] fix: drop float noise from pocket depths

Faces on the same depth of a tilted job plane differ by float noise. Avoid
areas were silently ignored and faces on the job plane rejected because of it.
---
 src/cq_cam/utils/geometry_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 777207d..375d4f2 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -45,7 +45,9 @@ class PathFace:
         return cls(
             wire_to_path(cq_face.outerWire(), precision),
             [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
-            bbox.zmax,
+            # Depths are compared to each other, so drop the float noise that
+            # transforming to the job plane leaves behind
+            round(bbox.zmax, 6),
         )
 
     def clone_to_depth(self, depth: float):
-- 
2.43.0


From 8ac22b521b783d03df1daa4ec1763b76de60fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 16/48] fix: make no toolpath for a pocket that is too small
 for the tool

The boolean operations raised an exception when offsetting left nothing of the
outer boundary of a pocket that has islands.
---
 src/cq_cam/utils/geometry_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 375d4f2..406f5b7 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -228,7 +228,8 @@ def prepare_path_boolean_op(subjects: list[Path], clips: list[Path]) -> pc.Pycli
     # noinspection PyArgumentList
     scaled_clips = [pc.scale_to_clipper(clip) for clip in clips]
 
-    clipper.AddPaths(scaled_subjects, pc.PT_SUBJECT)
+    if scaled_subjects:
+        clipper.AddPaths(scaled_subjects, pc.PT_SUBJECT)
 
     if scaled_clips:
         clipper.AddPaths(scaled_clips, pc.PT_CLIP)
-- 
2.43.0


From d6619cbb188a15239272d440f7c689e1c4c1531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 17/48] fix: keep overlapping and nested areas of a pocket in
 the boolean operations

With the even-odd fill rule the overlap of two offset islands, avoid areas or
operation areas counted as outside, so the tool was driven between and into
islands. Areas inside an inner of another area were not cut at all.
---
 src/cq_cam/operations/pocket.py | 19 +++++++------------
 src/cq_cam/utils/geometry_op.py |  9 ++++++---
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..accaa38 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -100,16 +100,11 @@ def generate_depth_map(poly_faces: list[PathFace]):
 
 
 def combine_poly_faces(poly_faces: list[PathFace], depth) -> list[PathFace]:
+    # Inners are wound to the opposite direction compared to outers, so with the
+    # non-zero fill rule only the inners that no other face covers remain
     outers = [poly_face.outer for poly_face in poly_faces]
     inners = flatten_list([poly_face.inners for poly_face in poly_faces])
-
-    new_outers = [poly_face.outer for poly_face in union_poly_tree(outers, [], depth)]
-    return difference_poly_tree(new_outers, inners, depth)
-
-
-def combine_outers(poly_faces: list[PathFace], depth) -> list[Path]:
-    outers = [poly_face.outer for poly_face in poly_faces]
-    return [poly_face.outer for poly_face in union_poly_tree(outers, [], depth)]
+    return union_poly_tree(outers + inners, [], depth)
 
 
 def determine_stepdown_start_depth(
@@ -162,8 +157,7 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             depth_faces += depth_map[sub_depth]
 
-        depth_ops = combine_outers(depth_faces, depth)
-        depth_inners = flatten_list(face.inners for face in depth_faces)
+        depth_ops = combine_poly_faces(depth_faces, depth)
 
         if avoid_depths:
             active_avoid_depths = [
@@ -177,13 +171,14 @@ def build_pocket_ops(
             # A limitation here is that avoids only work with the outer polygon
             # Technically pyclipper does support multiple depths, so this could
             # be investigated further
+            depth_paths = flatten_list([[op.outer, *op.inners] for op in depth_ops])
             depth_ops_with_avoid = difference_poly_tree(
-                depth_ops, depth_inners + avoid_outers, depth
+                depth_paths, avoid_outers, depth
             )
             pocket_ops += depth_ops_with_avoid
 
         else:
-            pocket_ops += difference_poly_tree(depth_ops, depth_inners, depth)
+            pocket_ops += depth_ops
 
     return pocket_ops
 
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 406f5b7..d8d9521 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -191,14 +191,16 @@ def close_path(path: OpenPath) -> ClosedPath:
 def poly_tree_to_poly_faces(poly_tree: pc.PyPolyNode, depth: float) -> list[PathFace]:
     polyfaces: list[PathFace] = []
     for face in poly_tree.Childs:
-        if face.depth > 1:
-            logger.warning("Deep face encountered in make_polyface")
         outer = tuplify_path(close_path(pc.scale_from_clipper(face.Contour)))
         inners = [
             tuplify_path(close_path(pc.scale_from_clipper(child.Contour)))
             for child in face.Childs
         ]
         polyfaces.append(PathFace(outer, inners, depth))
+
+        # Inners may have faces inside them
+        for child in face.Childs:
+            polyfaces += poly_tree_to_poly_faces(child, depth)
     return polyfaces
 
 
@@ -249,7 +251,8 @@ def boolean_op_poly_tree(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> pc.PyPolyNode:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = clipper.Execute2(clip_type)
+    # With the even-odd rule the overlap of two paths would count as outside
+    results = clipper.Execute2(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
     return results
 
 
-- 
2.43.0


From 304b5a719d3180c8cff33fe88a338917460f950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 18/48] fix: finish the walls of the islands of a pocket

The shrinking contours pass an island only partially, so up to a stepover of
material was left on the walls that no contour followed.
---
 src/cq_cam/operations/pocket.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index accaa38..67bcc7b 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -216,7 +216,13 @@ def fill_pocket_contour_shrink(
     except StopIteration:
         pass
 
-    return tree.sequences
+    # The shrinking outers don't follow the inners all the way around, so finish
+    # the walls of the inners separately
+    inner_sequences = [
+        [PathFace(inner, [], pocket.depth)] for inner in pocket.inners
+    ]
+
+    return tree.sequences + inner_sequences
 
 
 def pocket_clipper(
-- 
2.43.0


From 35bfeb240c7f3b1a53bd4835cec69fffd74516f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 19/48] fix: sort the transitions of wire tabs

The tab at the start of the wire continues at its end, so it comes before the
other tabs of the last edge (or of the only edge of a circle). The unsorted
transitions failed or moved the tool through the part at depth.
---
 src/cq_cam/operations/tabs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..b5f3b7c 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -134,6 +134,10 @@ class WireTabs(Tabs):
                 edge_d = min(max(self.wire_d_to_edge_d(tab_end_d, edge_range), 0), 1)
                 transitions.append((edge_d, Transition.NORMAL))
 
+        # The tabs are not necessarily in the order of the edge, for example the
+        # tab at the start of the wire continues at the end of the last edge
+        transitions.sort(key=lambda transition: transition[0])
+
         # Add helper transitions for later processing
         if not transitions or transitions[0][0] != 0:
             transitions.insert(0, (0, Transition.NORMAL))
-- 
2.43.0


From f5d6ceaca94f7d381d8fb886796255fe7d12e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 20/48] fix: join tabs that end at an edge boundary and keep
 them round on tilted planes

A tab ending at the end of an edge left a gap between the edges and the tabs
were silently dropped. Projecting to the tab plane turned arcs into ellipses on
job planes with float noise and ignored the location of the edge.
---
 src/cq_cam/operations/profile.py | 90 ++++++++++++++------------------
 1 file changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..ce38566 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -1,11 +1,11 @@
 import itertools
 import logging
+from math import isclose
 from typing import TYPE_CHECKING
 
 import cadquery as cq
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
-from OCP.Geom import Geom_Plane
-from OCP.GeomProjLib import GeomProjLib
+from OCP.gp import gp_Vec
 from OCP.TopAbs import TopAbs_REVERSED
 
 from cq_cam.address import AddressVector
@@ -91,82 +91,68 @@ def profile(
 TAB_ERRORS = []
 
 
+def connect_edge(edges: list[cq.Edge], previous_edge: cq.Edge | None, edge: cq.Edge):
+    """Append an edge and the retract or plunge that is needed to get to it"""
+    if previous_edge:
+        start, end = edge_end_point(previous_edge), edge_start_point(edge)
+        if start != end:
+            edges.append(cq.Edge.makeLine(start, end))
+
+    edges.append(edge)
+    return edge
+
+
 def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     if tabs is None:
         return wire
 
-    if wire.BoundingBox().zmin >= tab_z:
+    # A layer at the height of the tabs doesn't need them
+    if wire.BoundingBox().zmin >= tab_z - 0.001:
         return wire
 
-    tab_plane = cq.Plane((0, 0, tab_z))
-
     edges = wire_to_ordered_edges(wire)
     if getattr(tabs, "load_wire", None):
         tabs.load_wire(wire)
     tabs.load_ordered_edges(edges)
 
     new_edges = []
+    previous_edge = None
     for i, edge in enumerate(edges):
         transitions = tabs.edge_tab_transitions(i)
         if all(t[1] == Transition.NORMAL for t in transitions):
-            new_edges.append(edge)
+            previous_edge = connect_edge(new_edges, previous_edge, edge)
             continue
 
-        previous_edge = None
+        # The location of the edge doesn't affect the underlying curve
+        curve = edge._geomAdaptor().Curve().Curve()
+        curve = curve.Transformed(edge.wrapped.Location().Transformation())
+        tab_offset = gp_Vec(0, 0, tab_z - edge_start_point(edge).z)
+
         for t_start, t_end in zip(transitions, transitions[1:]):
+            if isclose(t_start[0], t_end[0], abs_tol=1e-6):
+                # The transition is at the end of the edge
+                continue
+
             t_start_p, t_end_p, e_reversed = edge_oriented_param(
                 edge, t_start[0], t_end[0]
             )
             p1 = edge.paramAt(t_start_p)
             p2 = edge.paramAt(t_end_p)
-            curve = edge._geomAdaptor().Curve().Curve()
 
             if t_start[1] == Transition.TAB:
-                projected_curve = GeomProjLib.ProjectOnPlane_s(
-                    curve,
-                    Geom_Plane(tab_plane.toPln()),
-                    cq.Vector(0, 0, -1).toDir(),
-                    True,
-                )
-                projected_edge = cq.Edge(
-                    BRepBuilderAPI_MakeEdge(projected_curve, p1, p2).Edge()
-                )
-
-                # Flip the orientation if the original edge was also reversed
-                # Note: trying to create edge with p2, p1 instead doesn't work as BRepBuilderAPI will
-                # automatically add REVERSED orientation
-                if e_reversed:
-                    projected_edge.wrapped.Orientation(TopAbs_REVERSED)
-
-                if previous_edge:
-                    # Retract
-                    # retract = cq.Edge.makeLine(edge_end_point(previous_edge), edge_start_point(projected_edge))
-                    retract = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(projected_edge)
-                    )
-                    new_edges.append(retract)
-
-                previous_edge = projected_edge
-                new_edges.append(projected_edge)
+                sliced_curve = curve.Translated(tab_offset)
             else:
-                sliced_edge = cq.Edge(BRepBuilderAPI_MakeEdge(curve, p1, p2).Edge())
-
-                # Flip the orientation if the original edge was also reversed
-                if e_reversed:
-                    sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
-
-                # The location of the edge needs to be copied because it doesn't
-                # affect the underlying curve..
-                sliced_edge.move(edge.location())
-                # Plunge
-                if previous_edge:
-                    plunge = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(sliced_edge)
-                    )
-                    new_edges.append(plunge)
-
-                previous_edge = sliced_edge
-                new_edges.append(sliced_edge)
+                sliced_curve = curve
+
+            sliced_edge = cq.Edge(BRepBuilderAPI_MakeEdge(sliced_curve, p1, p2).Edge())
+
+            # Flip the orientation if the original edge was also reversed
+            # Note: trying to create edge with p2, p1 instead doesn't work as BRepBuilderAPI will
+            # automatically add REVERSED orientation
+            if e_reversed:
+                sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
+
+            previous_edge = connect_edge(new_edges, previous_edge, sliced_edge)
 
     global TAB_ERRORS
     try:
-- 
2.43.0


From e3992467014f1ab4fa686be85f045275dc7175a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 21/48] fix: merge edge tabs that overlap

Tabs are spread evenly, so their distance can be less than the spacing. When
they overlapped the tool moved backwards at depth through the previous tab.
---
 src/cq_cam/operations/tabs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index b5f3b7c..c8fc180 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -61,7 +61,12 @@ class EdgeTabs(Tabs):
 
             half_d = 1 / length * half
             for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
-                edge_ds.append((d - half_d, d + half_d))
+                start_d, end_d = d - half_d, d + half_d
+                # The tabs are spread evenly, so they may be closer to each other
+                # than the spacing
+                if edge_ds and start_d <= edge_ds[-1][1]:
+                    start_d, _ = edge_ds.pop()
+                edge_ds.append((start_d, end_d))
 
     def edge_tab_transitions(self, edge_index):
         edge_ds = self.edges_ds[edge_index]
-- 
2.43.0


From 7e1f8427e400debabcae759ee762d052dfa04ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 22/48] fix: cut arcs that are too small for the output
 precision straight

An arc whose start and end round to the same position is a full circle in the
program.
---
 src/cq_cam/routers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index dd58fb2..d772639 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -189,9 +189,10 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif sp == ep:
-            # Really tiny arc, might as well just cut it straight
-            # TODO verify the sanity
+        elif edge.Length() < 0.002 or sp == ep:
+            # Really tiny arc, might as well just cut it straight. The start and
+            # end of an arc must not get rounded to the same position, because
+            # that is a full circle
             commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
         else:
             mid_p = np.linspace(start_p, end_p, 3)[1]
-- 
2.43.0


From fe77f81c946ddfe972d1318d6a59051c6618c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 23/48] fix: visualize arcs

The start of an arc was passed as an AddressVector, which CadQuery doesn't
accept, so every arc was silently left out of the shapes.
---
 src/cq_cam/command.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 40dec76..129766b 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,9 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        start = self.start.to_vector(cq.Vector())
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except:
                 # Too small to render ?
                 return None
-- 
2.43.0


From 857572010b059dd3602fb0e6b4938c0646821601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 24/48] fix: drill with the plunge feed of the job

---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index 033e9c6..ef132ef 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -78,7 +78,7 @@ class Drill(Operation):
             previous_pos = ops[-1].end
             ops.append(Rapid.abs(z=0, start=previous_pos))
             previous_pos = ops[-1].end
-            ops.append(PlungeCut.abs(z=depth, feed=self.job.feed, start=previous_pos))
+            ops.append(PlungeCut.abs(z=depth, feed=self.job.plunge_feed, start=previous_pos))
             previous_pos = ops[-1].end
             cut_sequences.append(ops)
         cut_sequences = flatten_list(cut_sequences)
-- 
2.43.0


From a31ae6157ba1bbe4f61b8fd05086511c9c8f9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 25/48] fix: keep the job name inside of the comment it is
 written to

A name with parentheses or line breaks ended the comment, so the rest of the
name was run as a command.
---
 src/cq_cam/fluent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index bad028d..62359ec 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -28,6 +28,12 @@ from cq_cam.visualize import visualize_job, visualize_job_as_edges
 logger = logging.getLogger(__name__)
 
 
+def comment(text: str):
+    # A comment ends to the first closing parenthesis or at the end of the line
+    text = text.replace("(", "[").replace(")", "]")
+    return f"({' '.join(text.splitlines())})"
+
+
 class Operation:
     def __init__(self, job: Job, name: str, commands: list[Command]):
         self.job = job
@@ -37,7 +43,7 @@ class Operation:
     def to_gcode(self):
         # Set starting position above rapid height so that
         # we guarantee getting the correct Z rapid in the beginning
-        gcodes = [f"({self.job.name} - {self.name})"]
+        gcodes = [comment(f"{self.job.name} - {self.name}")]
         for command in self.commands:
             gcode = str(command)
 
@@ -280,7 +286,7 @@ class Job:
         task_break = "\n\n\n"
         safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         return (
-            f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
+            f"{comment(f'{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}')}\n"
             f"{safety_block}\n"
             f"{StartSequence(speed=self.initial_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-- 
2.43.0


From 0212cf18fd9bcbcec3503c0b0bba613f475fe8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 26/48] fix: keep small features when offsetting wires

---
 src/cq_cam/utils/geometry_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index d8d9521..c3566af 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -90,7 +90,9 @@ def offset_wire(
             face = cq.Face.makeFromWires(offset_wire_)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
-            if face.Area() > 0.1:
+            # Collapsed features have no area, anything larger than the
+            # resolution of the output is a feature worth of cutting
+            if face.Area() > 1e-6:
                 validated_wires.append(offset_wire_)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
-- 
2.43.0


From f8e15b6056f41b42637de85c076e2acfd35eb779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 27/48] fix: offset full circles without OCCT, which picks the
 wrong side and fails on small holes

---
 src/cq_cam/utils/geometry_op.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index c3566af..8f4e029 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -8,6 +8,7 @@ from typing import Literal, TypeAlias
 import cadquery as cq
 import pyclipper as pc
 import shapely
+from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 from OCP.StdFail import StdFail_NotDone
 
 from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
@@ -70,9 +71,39 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
         return tool_radius * offset
 
 
+def offset_circle(wire: cq.Wire, offset: float) -> list[cq.Wire] | None:
+    """
+    OCCT has several bugs with offsetting full circles: depending on the orientation
+    of the wire it offsets to the wrong side, and it fails to offset small circles
+    to the inside. So the offset of a circle is created without it.
+
+    :return: None if the wire is not a full circle
+    """
+    edges = wire.Edges()
+    if len(edges) != 1 or edges[0].geomType() != "CIRCLE" or not edges[0].IsClosed():
+        return None
+
+    curve = edges[0]._geomAdaptor()
+    circle = curve.Circle()
+    radius = circle.Radius() + offset
+    if radius < 0.000001:
+        return []
+
+    circle.SetRadius(radius)
+    edge = BRepBuilderAPI_MakeEdge(
+        circle, curve.FirstParameter(), curve.LastParameter()
+    ).Edge()
+    edge.Orientation(edges[0].wrapped.Orientation())
+    return [cq.Wire.assembleEdges([cq.Edge(edge)])]
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    circle_wires = offset_circle(wire, offset)
+    if circle_wires is not None:
+        return circle_wires
+
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
-- 
2.43.0


From 77423e74c726e1c636493806d17c215a646221d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 28/48] fix: start the wires of a profile where the previous
 one ended

---
 src/cq_cam/fluent.py             | 3 +++
 src/cq_cam/operations/profile.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 62359ec..5dc8823 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -184,6 +184,7 @@ class Job:
                     offset=inner_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         if outer_wires and outer_offset is not None:
@@ -194,6 +195,7 @@ class Job:
                     offset=outer_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         return self._add_operation("Profile", commands)
@@ -218,6 +220,7 @@ class Job:
                 offset=offset,
                 stepdown=stepdown,
                 tabs=tabs,
+                previous_pos=commands[-1].end if commands else None,
             )
         return self._add_operation("Wire Profile", commands)
 
diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index ce38566..95242bf 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -33,6 +33,7 @@ def profile(
     offset: float,
     stepdown: int | None = None,
     tabs: Tabs | None = None,
+    previous_pos: AddressVector | None = None,
 ):
     """
     A 2.5D profile operation
@@ -42,6 +43,7 @@ def profile(
     :param offset: Multiplier for tool radius
     :param stepdown:
     :param tabs:
+    :param previous_pos: Position where the preceding profile ended
     :return:
     """
     # Transform to relative coordinates
@@ -84,7 +86,7 @@ def profile(
 
         toolpaths += layers
 
-    commands = route_wires(job, toolpaths)
+    commands = route_wires(job, toolpaths, previous_pos=previous_pos)
     return commands
 
 
-- 
2.43.0


From 56463eb3191565644c1aaaf83cd1f54ee9ca4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 29/48] fix: cut arcs straight whose center would be rounded to
 their start

---
 src/cq_cam/routers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index d772639..1eccbd2 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,10 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.IsClosed():
+        if edge.radius() < 0.001:
+            # The center would get rounded to the start of the arc
+            commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
+        elif edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From ff503103332a882e6f06022e6f5c849063218c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 30/48] fix: cut ellipses and Bezier curves that are profiled
 without an offset

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 1eccbd2..e476d3e 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -211,7 +211,7 @@ def route_edge(
                 )
             )
 
-    elif geom_type == "BSPLINE" or geom_type == "SPLINE" or geom_type == "OFFSET":
+    elif geom_type in ("BSPLINE", "SPLINE", "OFFSET", "ELLIPSE", "BEZIER"):
         n = edge_interpolation_count(edge, precision)
 
         orientation = edge.wrapped.Orientation()
-- 
2.43.0


From 815d51d08afefc9936c34b1f8a6aed5076d55968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 31/48] fix: apply the workaround for offset circles to circles
 only

---
 src/cq_cam/utils/circle_bug_workaround.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 9753c3a..5684fe7 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -12,7 +12,8 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
     """
     if len(source_wire.Edges()) == 1:
         edge = source_wire.Edges()[0]
-        if edge.startPoint() == edge.endPoint():
+        # Other closed curves, like ellipses, are not affected by the bug
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
             # OCCT bug with offsetting circles!
             for target in target_wires:
                 target.wrapped.Location(source_wire.wrapped.Location().Inverted())
-- 
2.43.0


From 1a38411a2177dd0d2fc0d775a899088e17517bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 32/48] fix: profile outlines that OCCT fails to offset because
 of float noise

---
 src/cq_cam/utils/geometry_op.py | 34 +++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 8f4e029..8fcf35d 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -13,7 +13,12 @@ from OCP.StdFail import StdFail_NotDone
 
 from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
-from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
+from cq_cam.utils.utils import (
+    dist_to_segment_squared,
+    edge_start_end,
+    flatten_list,
+    wire_to_ordered_edges,
+)
 
 logger = logging.getLogger(__name__)
 OffsetToolRadiusMultiplier: TypeAlias = float
@@ -97,6 +102,27 @@ def offset_circle(wire: cq.Wire, offset: float) -> list[cq.Wire] | None:
     return [cq.Wire.assembleEdges([cq.Edge(edge)])]
 
 
+def rebuild_wire(wire: cq.Wire) -> cq.Wire:
+    """
+    Create the lines and the arcs of the wire anew from rounded points. This gets rid
+    of the float noise that transforming to the job plane leaves behind.
+    """
+
+    def rounded(vector: cq.Vector) -> cq.Vector:
+        return cq.Vector(*(round(value, 9) for value in vector.toTuple()))
+
+    edges = []
+    for edge in wire_to_ordered_edges(wire):
+        start, end = (rounded(point) for point in edge_start_end(edge))
+        if edge.geomType() == "LINE":
+            edge = cq.Edge.makeLine(start, end)
+        elif edge.geomType() == "CIRCLE":
+            edge = cq.Edge.makeThreePointArc(start, rounded(edge.positionAt(0.5)), end)
+        edges.append(edge)
+
+    return cq.Wire.assembleEdges(edges)
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
@@ -113,7 +139,11 @@ def offset_wire(
         try:
             offset_wires = wire.offset2D(offset + 0.000001, kind)
         except ValueError:
-            return []
+            # It can also fail because of float noise in the wire
+            try:
+                offset_wires = rebuild_wire(wire).offset2D(offset, kind)
+            except (ValueError, StdFail_NotDone):
+                return []
 
     validated_wires = []
     for offset_wire_ in offset_wires:
-- 
2.43.0


From c90979cb083758a2f7b3651ad41dacc5e8fe9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 33/48] fix: cut all edges of wires whose edges do not share
 their vertices

---
 src/cq_cam/utils/utils.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b2e6dd4..d3dd27d 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -13,9 +13,10 @@ from OCP.BRepTools import BRepTools_WireExplorer
 from OCP.gp import gp_Ax2, gp_Dir, gp_Pnt
 from OCP.HLRAlgo import HLRAlgo_Projector
 from OCP.HLRBRep import HLRBRep_Algo, HLRBRep_HLRToShape
+from OCP.ShapeFix import ShapeFix_Wire
 from OCP.TopAbs import TopAbs_EDGE, TopAbs_FACE, TopAbs_REVERSED, TopAbs_ShapeEnum
 from OCP.TopExp import TopExp_Explorer
-from OCP.TopoDS import TopoDS, TopoDS_Shape
+from OCP.TopoDS import TopoDS, TopoDS_Shape, TopoDS_Wire
 
 
 def edge_end_point(edge: cq.Edge, precision=3) -> cq.Vector:
@@ -138,13 +139,25 @@ def wire_to_ordered_edges(wire: cq.Wire) -> list[cq.Edge]:
     :return: list of ordered Edges
     """
 
-    explorer = BRepTools_WireExplorer(wire.wrapped)
-    ordered_edges = []
-    while not explorer.Current().IsNull():
-        ordered_edges.append(Edge(explorer.Current()))
-        explorer.Next()
+    def explore(topods_wire: TopoDS_Wire) -> list[cq.Edge]:
+        explorer = BRepTools_WireExplorer(topods_wire)
+        ordered_edges = []
+        while not explorer.Current().IsNull():
+            ordered_edges.append(Edge(explorer.Current()))
+            explorer.Next()
+        return ordered_edges
+
+    edges = explore(wire.wrapped)
+    if len(edges) < len(wire.Edges()):
+        # The explorer ends early where edges do not share a vertex
+        fix = ShapeFix_Wire()
+        fix.Load(wire.wrapped)
+        fix.SetPrecision(TOLERANCE)
+        fix.FixReorder()
+        fix.FixConnected()
+        edges = explore(fix.Wire())
 
-    return ordered_edges
+    return edges
 
 
 def cut_clockwise(positive_offset: bool, spindle_clockwise: bool, climb: bool):
-- 
2.43.0


From d0352f966654540ebfc978dc42bc13f9e5eede0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 34/48] fix: cut parabolas and hyperbolas that are profiled
 without an offset

---
 src/cq_cam/routers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index e476d3e..3c979e9 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -211,7 +211,15 @@ def route_edge(
                 )
             )
 
-    elif geom_type in ("BSPLINE", "SPLINE", "OFFSET", "ELLIPSE", "BEZIER"):
+    elif geom_type in (
+        "BSPLINE",
+        "SPLINE",
+        "OFFSET",
+        "ELLIPSE",
+        "BEZIER",
+        "PARABOLA",
+        "HYPERBOLA",
+    ):
         n = edge_interpolation_count(edge, precision)
 
         orientation = edge.wrapped.Orientation()
-- 
2.43.0


From 4df59395aa2bb4a98fcdd08bd3c573278cc1645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 35/48] fix: the width of tabs on wires whose length OCCT gets
 wrong

---
 src/cq_cam/operations/tabs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index c8fc180..8413e45 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -88,7 +88,9 @@ class WireTabs(Tabs):
         self.width = width
 
     def load_wire(self, wire):
-        length = wire.Length()
+        # OCCT gets the length of a wire wrong if there are tiny gaps in between
+        # of its edges
+        length = sum(edge.Length() for edge in wire_to_ordered_edges(wire))
         half = self.width / 2
         half_d = 1 / length * half
 
-- 
2.43.0


From db61216daa02eb9a10717e8cc444dce1e4ac9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 36/48] fix: surface scanlines that end on the segment that
 closes the outline

---
 src/cq_cam/operations/strategy.py  | 2 +-
 src/cq_cam/utils/linked_polygon.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index f6c9a54..74e8ac1 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -135,7 +135,7 @@ class ZigZagStrategy(Strategy):
         for polygon in boundaries:
             linked_polygon = LinkedPolygon(polygon[:])
             linked_polygons.append(linked_polygon)
-            for p1, p2 in pairwise(polygon):
+            for p1, p2 in pairwise(polygon + polygon[:1]):
                 for scanpoint in remaining_scanpoints[:]:
                     d, _ = dist_to_segment_squared(scanpoint, p1, p2)
                     # Todo pick a good number. Tests show values between 1.83e-19 and 1.38e-21
diff --git a/src/cq_cam/utils/linked_polygon.py b/src/cq_cam/utils/linked_polygon.py
index 42f2642..59b33fd 100644
--- a/src/cq_cam/utils/linked_polygon.py
+++ b/src/cq_cam/utils/linked_polygon.py
@@ -20,6 +20,8 @@ class LinkedPolygon:
         i = self.polygon.index(segment_start)
         i_1 = i + 1
         j = self.polygon.index(segment_end)
+        if j < i:  # the segment that closes the polygon
+            j = len(self.polygon)
 
         if i_1 == j:
             self.polygon.insert(i_1, point)
-- 
2.43.0


From 169069d71418777527deaa96efe465f0766813bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 37/48] fix: flatten reversed curved edges from their start to
 their end

---
 src/cq_cam/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index d3dd27d..c7646c1 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -69,8 +69,10 @@ def drop_z(vector: cq.Vector) -> tuple[float, float]:
 
 
 def position_space(edge: cq.Edge, tolerance=0.1):
-    # TODO orientation check
-    return np.linspace(0, 1, math.ceil(edge.Length() / tolerance))
+    space = np.linspace(0, 1, math.ceil(edge.Length() / tolerance))
+    if edge.wrapped.Orientation() == TopAbs_REVERSED:
+        return space[::-1]
+    return space
 
 
 def flatten_edges(edges: list[cq.Edge]):
-- 
2.43.0


From ab1cb9175f0f68718be96fdf1c7b0360572c6861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 38/48] fix: surfaces without an inner boundary offset

---
 src/cq_cam/operations/base_operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/base_operation.py b/src/cq_cam/operations/base_operation.py
index b8a7c36..9fbe9db 100644
--- a/src/cq_cam/operations/base_operation.py
+++ b/src/cq_cam/operations/base_operation.py
@@ -181,7 +181,9 @@ class FaceBaseOperation(Operation, ABC):
             + self.outer_boundary_offset[1]
         )
         inner_offset = (
-            self._tool_diameter * self.inner_boundary_offset[0]
+            None
+            if self.inner_boundary_offset is None
+            else self._tool_diameter * self.inner_boundary_offset[0]
             + self.inner_boundary_offset[1]
         )
 
-- 
2.43.0


From 1bddb9f1d13f41c6d0db22bcbeb0613187c16249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 39/48] fix: surface meshes are where their faces are placed

---
 src/cq_cam/operations/op3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 5b9b097..455ba19 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -195,10 +195,12 @@ class Surface3D(FaceBaseOperation):
         while explorer.More():
             shape_face = explorer.Current()
             triangulation = brep_tool.Triangulation_s(shape.wrapped, location)
+            trsf = location.Transformation()
             for i in range(triangulation.NbTriangles()):
                 triangle = triangulation.Triangle(i + 1)
                 face_triangles = tuple(
-                    point_to_tuple(triangulation.Node(node)) for node in triangle.Get()
+                    point_to_tuple(triangulation.Node(node).Transformed(trsf))
+                    for node in triangle.Get()
                 )
                 triangles.append(face_triangles)
 
-- 
2.43.0


From eee14b6cf32df3a4ead5006936e26ae2cf30aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 40/48] fix: cut the first location of surface sequences that
 begin at a depth

---
 src/cq_cam/operations/op3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 455ba19..bda826e 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -61,7 +61,7 @@ class Surface3D(FaceBaseOperation):
             cut_sequences = ZigZagStrategy.process(self, [outer_boundary], [])
 
             def interpolate_cut_sequence(cut_sequence):
-                interpolated = [cut_sequence[0]]
+                interpolated = []
                 v1 = cq.Vector(cut_sequence[0])
                 for p2 in cut_sequence[1:]:
                     v2 = cq.Vector(p2)
@@ -150,7 +150,7 @@ class Surface3D(FaceBaseOperation):
                     # self.commands.append(PlungeCut.abs(
                     #     z=cut_start[2], start=previous_pos))
                     # previous_pos = self.commands[-1].end
-                    for cut in cut_sequence[1:]:
+                    for cut in cut_sequence:
                         self.commands.append(
                             Cut.abs(
                                 x=cut[0],
-- 
2.43.0


From dc142c1d364b2547ae7b9fb45ddb32776b3da0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 41/48] fix: surface stepdowns that are positive or deeper than
 the surface

---
 src/cq_cam/operations/op3d.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index bda826e..2496d94 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -113,12 +113,11 @@ class Surface3D(FaceBaseOperation):
 
             bottom_height = bb.zmin
             if self.stepdown:
+                stepdown = -abs(self.stepdown)
                 depths = list(
-                    np.arange(
-                        self.top_height + self.stepdown, bottom_height, self.stepdown
-                    )
+                    np.arange(self.top_height + stepdown, bottom_height, stepdown)
                 )
-                if depths[-1] != bottom_height:
+                if not depths or depths[-1] != bottom_height:
                     depths.append(bottom_height)
             else:
                 depths = [bottom_height]
-- 
2.43.0


From dfa0604aeeda30eb8cbcabf9640e2180a0c2adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 42/48] fix: surface locations at the height of the job were
 skipped by rounding

---
 src/cq_cam/operations/op3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 2496d94..c99e045 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 import cadquery as cq
 import numpy as np
 import opencamlib as ocl
+from cadquery.occ_impl.shapes import TOLERANCE
 from OCP.BRep import BRep_Tool
 from OCP.BRepMesh import BRepMesh_IncrementalMesh
 from OCP.gp import gp_Pnt
@@ -215,7 +216,7 @@ class Surface3D(FaceBaseOperation):
         for sequence in sequences:
             new_sequence = []
             for point in sequence:
-                if point[2] > last_depth:
+                if point[2] > last_depth + TOLERANCE:
                     if new_sequence:
                         new_sequences.append(new_sequence)
                         new_sequence = []
-- 
2.43.0


From 1bd6836f25754c54d83da919179eb1e1081b4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 43/48] fix: surface sequences that visit a location twice in a
 row

---
 src/cq_cam/operations/op3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index c99e045..ebaae2f 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -67,8 +67,10 @@ class Surface3D(FaceBaseOperation):
                 for p2 in cut_sequence[1:]:
                     v2 = cq.Vector(p2)
                     v = v2 - v1
-                    u = v.normalized()
                     l = v.Length
+                    if l < TOLERANCE:
+                        continue
+                    u = v.normalized()
                     for step in np.arange(0, l, self.interpolation_step):
                         step_v = v1 + u * step
                         interpolated.append((step_v.x, step_v.y))
-- 
2.43.0


From 2943f755fb304dbc0e12af126d49e42cf1298a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 44/48] fix: crash on the tiny arcs that offsetting an outline
 with float noise leaves behind

---
 src/cq_cam/operations/profile.py | 10 +++++++++-
 src/cq_cam/utils/utils.py        | 17 +++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 95242bf..728296d 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -125,10 +125,18 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             previous_edge = connect_edge(new_edges, previous_edge, edge)
             continue
 
+        tab_height = tab_z - edge_start_point(edge).z
+        if edge.Length() < 1e-5:
+            # A really tiny edge can't be split
+            if transitions[0][1] == Transition.TAB:
+                edge = edge.translate(cq.Vector(0, 0, tab_height))
+            previous_edge = connect_edge(new_edges, previous_edge, edge)
+            continue
+
         # The location of the edge doesn't affect the underlying curve
         curve = edge._geomAdaptor().Curve().Curve()
         curve = curve.Transformed(edge.wrapped.Location().Transformation())
-        tab_offset = gp_Vec(0, 0, tab_z - edge_start_point(edge).z)
+        tab_offset = gp_Vec(0, 0, tab_height)
 
         for t_start, t_end in zip(transitions, transitions[1:]):
             if isclose(t_start[0], t_end[0], abs_tol=1e-6):
diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index c7646c1..acdf380 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -35,18 +35,27 @@ def edge_start_point(edge: cq.Edge, precision=3) -> cq.Vector:
     return edge.startPoint()
 
 
+def edge_param_at(edge: cq.Edge, d: float) -> float:
+    # OCCT can't locate the ends of a really tiny edge by their length
+    if d == 0:
+        return edge._geomAdaptor().FirstParameter()
+    if d == 1:
+        return edge._geomAdaptor().LastParameter()
+    return edge.paramAt(d)
+
+
 def edge_start_param(edge: cq.Edge) -> float:
     orientation = edge.wrapped.Orientation()
     if orientation == TopAbs_REVERSED:
-        return edge.paramAt(1)
-    return edge.paramAt(0)
+        return edge_param_at(edge, 1)
+    return edge_param_at(edge, 0)
 
 
 def edge_end_param(edge: cq.Edge) -> float:
     orientation = edge.wrapped.Orientation()
     if orientation == TopAbs_REVERSED:
-        return edge.paramAt(0)
-    return edge.paramAt(1)
+        return edge_param_at(edge, 0)
+    return edge_param_at(edge, 1)
 
 
 def edge_oriented_param(edge: cq.Edge, p1, p2):
-- 
2.43.0


From 38d8de84ae68cbb98e433c2219ff2c47f4161b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 45/48] fix: tiny arcs between tabs were cut as full circles

---
 src/cq_cam/routers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 3c979e9..84bfee8 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,8 +162,9 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.radius() < 0.001:
-            # The center would get rounded to the start of the arc
+        if edge.radius() < 0.001 or edge.Length() < 0.002:
+            # The center would get rounded to the start of the arc, or it is a really
+            # tiny arc which is closed too when its ends share a vertex
             commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
         elif edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
@@ -192,7 +193,7 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif edge.Length() < 0.002 or sp == ep:
+        elif sp == ep:
             # Really tiny arc, might as well just cut it straight. The start and
             # end of an arc must not get rounded to the same position, because
             # that is a full circle
-- 
2.43.0


From b3c4211e85b174fe7c90b96ea030fafdc224c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 46/48] fix: outlines with float noise were silently not cut,
 or crashed OCCT

---
 src/cq_cam/utils/geometry_op.py | 41 ++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 8fcf35d..0ed8bb7 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -102,19 +102,22 @@ def offset_circle(wire: cq.Wire, offset: float) -> list[cq.Wire] | None:
     return [cq.Wire.assembleEdges([cq.Edge(edge)])]
 
 
-def rebuild_wire(wire: cq.Wire) -> cq.Wire:
+def rebuild_wire(wire: cq.Wire, digits: int) -> cq.Wire:
     """
     Create the lines and the arcs of the wire anew from rounded points. This gets rid
-    of the float noise that transforming to the job plane leaves behind.
+    of the float noise that the model has, or that transforming to the job plane leaves
+    behind.
     """
 
     def rounded(vector: cq.Vector) -> cq.Vector:
-        return cq.Vector(*(round(value, 9) for value in vector.toTuple()))
+        return cq.Vector(*(round(value, digits) for value in vector.toTuple()))
 
     edges = []
     for edge in wire_to_ordered_edges(wire):
         start, end = (rounded(point) for point in edge_start_end(edge))
         if edge.geomType() == "LINE":
+            if start == end:
+                continue
             edge = cq.Edge.makeLine(start, end)
         elif edge.geomType() == "CIRCLE":
             edge = cq.Edge.makeThreePointArc(start, rounded(edge.positionAt(0.5)), end)
@@ -123,6 +126,25 @@ def rebuild_wire(wire: cq.Wire) -> cq.Wire:
     return cq.Wire.assembleEdges(edges)
 
 
+def has_noisy_arcs(wire: cq.Wire) -> bool:
+    """
+    The arcs of a split circle that are off from each other by float noise crash
+    (segmentation fault) the offsetting of OCCT.
+    """
+    circles = [
+        edge._geomAdaptor().Circle() if edge.geomType() == "CIRCLE" else None
+        for edge in wire_to_ordered_edges(wire)
+    ]
+    for a, b in zip(circles, circles[1:] + circles[:1]):
+        if a is not None and b is not None:
+            noise = max(
+                a.Location().Distance(b.Location()), abs(a.Radius() - b.Radius())
+            )
+            if 1e-8 < noise < 1e-5:
+                return True
+    return False
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
@@ -130,6 +152,9 @@ def offset_wire(
     if circle_wires is not None:
         return circle_wires
 
+    if has_noisy_arcs(wire):
+        wire = rebuild_wire(wire, 5)
+
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
@@ -140,9 +165,13 @@ def offset_wire(
             offset_wires = wire.offset2D(offset + 0.000001, kind)
         except ValueError:
             # It can also fail because of float noise in the wire
-            try:
-                offset_wires = rebuild_wire(wire).offset2D(offset, kind)
-            except (ValueError, StdFail_NotDone):
+            for digits in (9, 5):
+                try:
+                    offset_wires = rebuild_wire(wire, digits).offset2D(offset, kind)
+                    break
+                except (ValueError, StdFail_NotDone):
+                    pass
+            else:
                 return []
 
     validated_wires = []
-- 
2.43.0


From 2dd53689e3fdc17b9e629c9afe0b08832510ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:13 +0000
Subject: [PATCH 47/48] fix: tabs were silently left out of outlines with small
 gaps

---
 src/cq_cam/operations/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 728296d..b3e6ad0 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -97,7 +97,8 @@ def connect_edge(edges: list[cq.Edge], previous_edge: cq.Edge | None, edge: cq.E
     """Append an edge and the retract or plunge that is needed to get to it"""
     if previous_edge:
         start, end = edge_end_point(previous_edge), edge_start_point(edge)
-        if start != end:
+        # The wire can only be assembled of edges that touch within 1e-7
+        if (end - start).Length > 1e-7:
             edges.append(cq.Edge.makeLine(start, end))
 
     edges.append(edge)
-- 
2.43.0


From 3720e34254a362ae6772e77a30620e84481551ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:53 +0000
Subject: [PATCH 48/48] fix: links between pocket rings cut through thin
 islands and avoid areas

---
 src/cq_cam/operations/pocket.py |  7 +++++--
 src/cq_cam/routers.py           | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 67bcc7b..b4c5cb3 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -186,7 +186,7 @@ def build_pocket_ops(
 def fill_pocket_contour_shrink(
     pocket: PathFace, step: float, precision: int
 ) -> list[list[PathFace]]:
-    tree = Tree(PathFace(pocket.outer, [], depth=pocket.depth))
+    tree = Tree(PathFace(pocket.outer, pocket.inners, depth=pocket.depth))
     i = 0
 
     # TODO sanify the variable names here
@@ -206,7 +206,10 @@ def fill_pocket_contour_shrink(
 
             if next_outers:
                 node.branch(
-                    [PathFace(outer, [], pocket.depth) for outer in next_outers]
+                    [
+                        PathFace(outer, pocket.inners, pocket.depth)
+                        for outer in next_outers
+                    ]
                 )
             else:
                 node.lock()
diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 84bfee8..43f8051 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -3,6 +3,7 @@ from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
 import numpy as np
+import shapely
 from OCP.BRepExtrema import BRepExtrema_DistShapeShape, BRepExtrema_SupportType
 from OCP.TopAbs import TopAbs_REVERSED
 
@@ -17,7 +18,7 @@ from cq_cam.command import (
     Rapid,
     Retract,
 )
-from cq_cam.utils.geometry_op import Path, PathFace, distance_to_path
+from cq_cam.utils.geometry_op import Path, PathFace, Point, distance_to_path
 from cq_cam.utils.interpolation import edge_interpolation_count
 from cq_cam.utils.utils import (
     edge_end_param,
@@ -340,6 +341,18 @@ def shift_polygon(polygon: Path, i: int):
     return polygon
 
 
+def crosses_inners(start: Point, end: Point, polyface: PathFace, precision: int):
+    line = shapely.LineString([start, end])
+    for inner in polyface.inners:
+        polygon = shapely.Polygon(inner)
+        # Following the outline of an inner is fine
+        if line.intersects(polygon) and line.intersects(
+            polygon.buffer(-(10**-precision))
+        ):
+            return True
+    return False
+
+
 def route_polyface_outers(
     job: "Job",
     polyfaces: list[PathFace],
@@ -367,7 +380,14 @@ def route_polyface_outers(
             distance, closest_point, poly_position = None, None, None
 
         # Same comment applies here as in the same section in route_wires
-        if stepover and distance and distance <= stepover:
+        if (
+            stepover
+            and distance
+            and distance <= stepover
+            and not crosses_inners(
+                previous_wire_end, closest_point, polyface, job.precision
+            )
+        ):
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
             index = poly_position[0]
-- 
2.43.0

