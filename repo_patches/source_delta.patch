From a2bbc122520cd1ba90610913a689c76943595813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 01/16] fix: same input and random seed give the same cut
 pattern

The finger pattern, the orientation of the intersections and the order
of the sheets in the output depended on PYTHONHASHSEED, through the
iteration order of the PMaps and of a set of sheet ids.
---
 plycutter/command_line.py     |  2 +-
 plycutter/create_sheetplex.py |  3 ++-
 plycutter/heuristics.py       | 13 +++++++------
 plycutter/sheetplex.py        |  2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index fc3a9da..4c5a175 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -96,7 +96,7 @@ def main(arguments=sys.argv[1:]):
 
     to_write_dilated = {
         k: v.buffer(args.final_dilation)
-        for k, v in to_write.items()
+        for k, v in sorted(to_write.items())
     }
     print(to_write_dilated)
 
diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index 52d64cf..4c16be2 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -297,7 +297,8 @@ def find_all_facets(mesh):
 
 
 def create_intersections(sp):
-    sheets = list(sp.sheets.values())
+    # Sorted so that the result does not depend on string hash values
+    sheets = [sheet for _, sheet in sorted(sp.sheets.items())]
     for i, sheet0 in enumerate(sheets):
         for sheet1 in sheets[i+1:]:
             sp = create_intersection(sp, (sheet0, sheet1))
diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..eaeef13 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -152,7 +152,7 @@ def _find_interactions(sb):
 
     interactions = collections.defaultdict(lambda: [])
 
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         intersides = list(sp.intersides(sheet.id))
         for i, i_interside in enumerate(intersides):
             i_fingers = i_interside.make_fingers(
@@ -258,7 +258,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
     for cluster in clusters.values():
         logger.debug('CLUSTER', cluster)
         intersections = [sp.intersections[intersection_id]
-                         for intersection_id in cluster.keys()]
+                         for intersection_id in sorted(cluster.keys())]
 
         sheet_ids = set()
         intersides_by_sheet = collections.defaultdict(lambda: [])
@@ -268,7 +268,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
                 sheet_ids.add(interside.sheet)
                 intersides_by_sheet[interside.sheet].append(interside)
 
-        sheets = [sp.sheets[sheet_id] for sheet_id in sheet_ids]
+        sheets = [sp.sheets[sheet_id] for sheet_id in sorted(sheet_ids)]
 
         eps = F(2, 10)
         min_finger = 3
@@ -355,7 +355,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
 
         # Unchoose all other intersides
 
-        for other_intersection_id, rnge in cluster.items():
+        for other_intersection_id, rnge in sorted(cluster.items()):
             other_intersection = sp.intersections[other_intersection_id]
             for side in other_intersection.sides:
                 if side.sheet != sheets[choice].id:
@@ -379,7 +379,7 @@ def choose_the_ok_side(sb, params=None):
     sb.check()
 
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         for interside in intersection.sides:
             this_only = sb.interside_ok[interside.id]
             this_only -= sb.interside_chosen[interside.id]
@@ -442,7 +442,8 @@ def single_fingers_random(sb, params=None):
     # XXX Assert that there are no multiple intersections
     # any more
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    # The order decides which random numbers each intersection gets
+    for _, intersection in sorted(sp.intersections.items()):
         sides = intersection.sides
         assert len(sides) == 2
         # At this point, everything left should be
diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..75d0e72 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -65,7 +65,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
 
     def intersides(self, sheet_id=None):
         """Return an iterator for intersides of a particular sheet or all"""
-        for intersection in self.intersections.values():
+        for _, intersection in sorted(self.intersections.items()):
             for side in intersection.sides:
                 if sheet_id is None or side.sheet == sheet_id:
                     yield side
-- 
2.43.0


From 49ffd0a3a58787ba77da742c657ad32a8f2fc0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 02/16] fix: random finger widths no longer fail on rounding
 errors

When the joint length left no freedom for the finger widths, e.g.
n * min_finger_width exactly, the running total's rounding error made
the assertion low <= hi fail and the whole run with it.
---
 plycutter/heuristics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index eaeef13..9a608b5 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -413,10 +413,12 @@ def random_min_max(n, mn, mx, total, rng):
         at_most = left - (n - n_handled - 1) * mn
         at_min = left - (n - n_handled - 1) * mx
         # logger.debug(i, left, at_min)
-        low = max(at_min, mn)
         hi = min(at_most, mx)
+        # There is always room for a length, but with no freedom left
+        # rounding errors may make the lower limit exceed the upper one
+        low = min(max(at_min, mn), hi)
         # logger.debug(low, hi)
-        assert low <= hi
+        assert hi >= mn - 1e-8
         cur = rng.uniform(low, hi)
         # logger.debug(cur)
         lengths[i] = cur
-- 
2.43.0


From da39d677dd941d1b4ba515794e64ec24d83c65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 03/16] fix: buffering keeps islands inside holes

The shrunk hole of one polygon was subtracted from the whole result,
so that a separate polygon lying inside the hole disappeared from the
buffered geometry.  Buffer each polygon by itself.
---
 .../geometry/impl2d/geom2d_simple_holes.py    | 41 ++++++-------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/plycutter/geometry/impl2d/geom2d_simple_holes.py b/plycutter/geometry/impl2d/geom2d_simple_holes.py
index fe6eff9..ea88e43 100644
--- a/plycutter/geometry/impl2d/geom2d_simple_holes.py
+++ b/plycutter/geometry/impl2d/geom2d_simple_holes.py
@@ -363,19 +363,20 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
             assert locate_point_polygon_winding_number(cpoly, (0, 0)) == 1
         # print('offset', offset)
 
-        pos = []
-        neg = []
-
-        holes = []
+        results = []
 
+        # Each polygon by itself: a hole only cuts its own polygon,
+        # not an island inside the hole.
         for spwh in self.spwhs:
+            pos = []
+            neg = []
+
             pos.append(Geom2D_Py_Simple_Holes(
                 [Simple_Polygon_With_Holes(
                     spwh.transformed_with(lambda v: v + offset).outer)]))
 
             ext_simples = minkowski_ribbon_simple_convex(
                 spwh.outer, cpoly, sign)
-            holes.extend(spwh.holes)
 
             def reorient(e):
                 if simple_polygon_area(e) < 0:
@@ -389,31 +390,15 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
             else:
                 neg.extend(ext)
 
-        for hole in holes:
-            g = Geom2D_Py_Simple_Holes([Simple_Polygon_With_Holes(hole)])
-            g = g._minkowski_convex_op(cpoly, -sign)
-            neg.append(g)
-            # print('Hole', g.area())
-
-        if True:
-            # Reveals weird bugs...
-            gpos = union_tree(pos)
-            gneg = union_tree(neg)
-            geom = gpos - gneg
-
-            return geom
-
-        npos = len(pos)
-        nneg = len(neg)
-
-        posmask = np.arange(npos + nneg) < npos
-        negmask = ~posmask
+            for hole in spwh.holes:
+                g = Geom2D_Py_Simple_Holes([Simple_Polygon_With_Holes(hole)])
+                g = g._minkowski_convex_op(cpoly, -sign)
+                neg.append(g)
+                # print('Hole', g.area())
 
-        subs = pos + neg
+            results.append(union_tree(pos) - union_tree(neg))
 
-        return self._arrangement_op(
-                subs,
-                lambda *v: np.any(posmask & v) & ~np.any(negmask & v))
+        return union_tree(results)
 
 
 Geom2D_Py_Simple_Holes.__doc__ = geom2dbase.Geom2DBase.__doc__
-- 
2.43.0


From 2fbc57160d55718c14e0b49b79c7d36da9aa85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 04/16] fix: SheetPlex.limit raised AttributeError

A typo made it look up the builtin iter instead of the intersection.
---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 75d0e72..0b7c201 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -83,7 +83,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From dd4714fbc544dc18f51051eff51011bcb6e4e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 05/16] fix: canned_1 reports the original failure

Without return_on_failure in the parameters, any exception was replaced
by a KeyError; with it, a failure to create the SheetBuild was replaced
by an UnboundLocalError.  Also keep the history of each run separate
from that of another run going on at the same time.
---
 plycutter/canned.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..2dc7c6e 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -34,14 +34,16 @@ sb_log = None
 def canned_1(sheetplex, params, show=False):
     """Run a number of heuristic steps to makek a finger jointed 2d pattern"""
 
+    # Own list for each run; sb_log is only a debugging aid
     global sb_log
-    sb_log = []
+    history = sb_log = []
+    sb = None
     ok = False
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
         sb = sheetbuild.create_sheetbuild(sp, params)
-        sb_log.append(sb.set('dbg', 'create'))
+        history.append(sb.set('dbg', 'create'))
 
         sb.check()
 
@@ -67,26 +69,26 @@ def canned_1(sheetplex, params, show=False):
             if op is None:
                 break
             logger.info(op)
-            sb_log.append(sb.set('dbg', op))
+            history.append(sb.set('dbg', op))
             sb = op(sb, params)
             if show:
                 do_show(op)
 
-        sb_log.append(sb)
+        history.append(sb)
         sb.check(force=True)
 
         ok = True
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
         ok=ok,
         sheetbuild=sb,
-        history=sb_log,
-        sheet_cuts=sb.sheet_chosen,
+        history=history,
+        sheet_cuts=None if sb is None else sb.sheet_chosen,
         params=params,
     )
 
-- 
2.43.0


From 359f03305949b7e08ae3efa8a5ccab469b3f0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 06/16] fix: an empty sheet no longer makes the DXF layout NaN

An empty geometry has no bounding box; its NaN width was added to the
offset of all the sheets after it.
---
 plycutter/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..02a0fea 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,10 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            # No bounding box to place
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From 9035e06a72a8d6338f69a3d78a5b6757baf49085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 07/16] fix: a failed write does not destroy the output file

The DXF was written in place, so that an error or a crash while writing
left a truncated file instead of the previous output.  Write a temporary
file beside it and rename.
---
 plycutter/writer.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 02a0fea..f4b2c49 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -16,6 +16,10 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 
+import os
+import shutil
+import tempfile
+
 import ezdxf
 import numpy as np
 
@@ -59,4 +63,21 @@ def write_dxf(filename, geom2ds):
             for hole in polygon.spwhs[0].holes:
                 draw_coords(hole)
 
-    dwg.saveas(filename)
+    _save(dwg, filename)
+
+
+def _save(dwg, filename):
+    """Save so that filename only ever contains a complete file."""
+    target = os.path.realpath(filename)
+    if os.path.exists(target) and not os.path.isfile(target):
+        # A device or a pipe, nothing to replace
+        dwg.saveas(target)
+        return
+
+    with tempfile.TemporaryDirectory(
+            prefix='.plycutter-', dir=os.path.dirname(target)) as tmpdir:
+        tmp = os.path.join(tmpdir, os.path.basename(target))
+        dwg.saveas(tmp)
+        if os.path.exists(target):
+            shutil.copymode(target, tmp)
+        os.replace(tmp, target)
-- 
2.43.0


From 930c744baea5f1ea4c755a6c006a8e81347d65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 08/16] fix: a failure while locating a point is not masked

If the first comparison failed or was interrupted, the finally clause
raised UnboundLocalError in place of the original exception, so that
even Ctrl-C appeared as an ordinary error.
---
 plycutter/geometry/impl2d/primitive2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plycutter/geometry/impl2d/primitive2d.py b/plycutter/geometry/impl2d/primitive2d.py
index 03f9ed0..1f54ec5 100644
--- a/plycutter/geometry/impl2d/primitive2d.py
+++ b/plycutter/geometry/impl2d/primitive2d.py
@@ -120,11 +120,10 @@ def locate_point_polygon_winding_number(poly, point):
     prev = poly[-1]
     sprev = _subsign(prev[1], point[1])
     for vert in poly:
+        svert = _subsign(vert[1], point[1])
         try:
             # Try stuff just to avoid recalculating
             # sprev
-            svert = _subsign(vert[1], point[1])
-
             if sprev * svert == 1:
                 # Edge completely above or below point
                 continue
-- 
2.43.0


From 847e6179966c42c352740eb3e9608b70b5b1de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 09/16] fix: the output never overwrites the input

---
 plycutter/command_line.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index 4c5a175..f59caae 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -78,6 +78,10 @@ def main(arguments=sys.argv[1:]):
     else:
         outfile = args.output_file
 
+    if pathlib.Path(outfile).exists() and infile.exists() \
+            and infile.samefile(outfile):
+        parser.error(f'the output would overwrite the input "{infile}"')
+
     logger.info(f'Loading "{infile}. Will write "{outfile}""')
     mesh = trimesh.load(str(infile))
     logger.info(f'Parameters: {args}')
-- 
2.43.0


From 3263738b7e91ef7e71e4d578dbb817ea4ba4b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 10/16] fix: keep the margin of update_intersection_ok off what
 is already chosen

Ruling out the range around an unsupported stretch could rule out up to a
thousandth of a millimetre of a range that had been chosen already, so that
the chosen range was no longer within the allowed one.
---
 plycutter/heuristics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 9a608b5..81e2115 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -95,8 +95,11 @@ def update_intersection_ok(sb, params=None):
         max_fing = fing & sb.sheet_ok[interside.sheet]  # .buffer(-.001)
         unsupported = interside.project_to_1d(
             fing) - interside.project_to_1d(max_fing)
+        # The margin must not rule out what is already chosen
+        ruled_out = (unsupported.buffer(F(1, 1000)) -
+                     sb.interside_chosen[interside.id])
         sb = sb.transform(['interside_ok', interside.id],
-                          lambda old: old - unsupported.buffer(F(1, 1000)))
+                          lambda old: old - ruled_out)
     return sb
 
 
-- 
2.43.0


From 93fb1af6c6ae6001171834cc248e045bc6e88605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 11/16] fix: let a refused unchoose_interside report itself

The message of the assertion called Geom1D.area(), which does not exist, and
Geom1D.__fstr__ could not format its intervals, so that the refusal surfaced
as an AttributeError or TypeError.
---
 plycutter/geometry/geom1d.py | 4 ++--
 plycutter/sheetbuild.py      | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..4fe2f97 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..2d88ec0 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -79,7 +79,8 @@ class SheetBuild(pyr.PRecord, Autocompletable):
     def unchoose_interside(self, interside_id, v):
         """State that the range v will never be chosen"""
         assert (self.interside_chosen[interside_id] & v).is_empty(), fastr(
-            interside_id, v, (self.interside_chosen[interside_id] & v).area()
+            interside_id, v,
+            (self.interside_chosen[interside_id] & v).measure1d()
         )
         interside = self.sheetplex.interside(interside_id)
 
-- 
2.43.0


From f6fc6d0e2489064e7885bb125fb175990480b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 12/16] fix: remove pieces cut off by the decisions at multiple
 intersections

The decisions on the places where more than two sheets meet may cut off a
part of a sheet from its body; left in, slivers of it ended up as loose
pieces in the cut.
---
 plycutter/canned.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index 2dc7c6e..f774588 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -60,6 +60,8 @@ def canned_1(sheetplex, params, show=False):
             heu.remove_loose,
             heu.update_intersection_ok,
             heu.heuristic_multi_inter_single_decisions,
+            # The decisions may cut off parts of the other sheets
+            heu.remove_loose,
             heu.update_intersection_ok,
             heu.choose_the_ok_side,
             heu.single_fingers_random,
-- 
2.43.0


From 12a9fa02deebfc2011a86932bc40b42c93aa5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 13/16] fix: do not choose slivers between the joints and the
 faces

For rotated models rounding leaves needles of no area along the edges of the
joints in what is initially chosen.  They are loose, and kerf compensation
makes visible pieces of them.
---
 plycutter/sheetbuild.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 2d88ec0..f9f19c6 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -25,6 +25,7 @@ import logging
 from .misc import Autocompletable
 from .plytypes import fastr, F, Fraction
 from .geometry.geom1d import Geom1D
+from .geometry.geom2d import Geom2D
 
 logger = logging.getLogger(__name__)
 
@@ -268,6 +269,14 @@ def create_sheetbuild(sp, params):
         interside = sp.interside(k)
         sheet_chosen[interside.sheet] -= interside.make_fingers(v)
 
+    # Rounding may leave slivers between the joints and the faces:
+    # choose only what is connected to an area where both faces are open
+    for sheet in sp.sheets.values():
+        both_faces = sheet.faces[0] & sheet.faces[1]
+        sheet_chosen[sheet.id] = Geom2D.union(
+            [polygon for polygon in sheet_chosen[sheet.id].polygons()
+             if (polygon & both_faces).area() > 1e-6])
+
     global locs
     locs = locals()
 
-- 
2.43.0


From a09bd8af90819c69215c414238eed86179714923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 14/16] fix: keep chosen pieces allowed when removing loose
 ones

---
 plycutter/heuristics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 81e2115..18d8105 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -79,6 +79,8 @@ def remove_loose(sb, params=None):
                     (sheet.id,
                      (sb.sheet_chosen[sheet.id] & polygon).area())
                 impossible |= polygon
+        # Tiny pieces that are already chosen stay
+        impossible -= sb.sheet_chosen[sheet.id]
         sb = sb.transform(['sheet_ok', sheet.id],
                           lambda old: old - impossible)
     return sb
-- 
2.43.0


From a0803c61e29dba70d2d36006f693377583de12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 15/16] fix: joints longer than a metre

The range in which fingers are placed was limited to 1000 mm around the
origin of a joint.  Beyond that both sheets kept the joint.
---
 plycutter/sheetbuild.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index f9f19c6..c1bc659 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -23,7 +23,7 @@ import pyrsistent as pyr
 import logging
 
 from .misc import Autocompletable
-from .plytypes import fastr, F, Fraction
+from .plytypes import fastr, F
 from .geometry.geom1d import Geom1D
 from .geometry.geom2d import Geom2D
 
@@ -254,12 +254,17 @@ def create_sheetbuild(sp, params):
     interside_chosen = {interside.id: Geom1D.empty()
                         for interside in sp.intersides()}
 
+    # However long the joint is
+    whole_joint = {interside.id:
+                   interside.project_to_1d(
+                       sp.sheets[interside.sheet].slices_max).buffer(1)
+                   for interside in sp.intersides()}
+
     interside_ok = {interside.id:
                     interside.project_to_1d(
                         sheet_ok[interside.sheet] &
                         sp.sheets[interside.sheet].slices_max &
-                        interside.make_fingers(
-                            Geom1D([[Fraction(-1000), Fraction(1000)]])))
+                        interside.make_fingers(whole_joint[interside.id]))
                     for interside in sp.intersides()}
 
     for interside in sp.intersides():
-- 
2.43.0


From ef493c63476df0629df7fef70f1bffd71389d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 16/16] fix: quadtree stays usable when a split is interrupted

An interrupt while a node was split left it with some of its children
only, so elements added later were lost.
---
 plycutter/geometry/impl2d/pmr_quadtree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/impl2d/pmr_quadtree.py b/plycutter/geometry/impl2d/pmr_quadtree.py
index f6a947c..06d6013 100644
--- a/plycutter/geometry/impl2d/pmr_quadtree.py
+++ b/plycutter/geometry/impl2d/pmr_quadtree.py
@@ -81,14 +81,17 @@ class PMRQuadTree:
             # Split
             aabb_mid = (self.aabb.upper + self.aabb.lower) / 2
 
-            self.children = []
+            # Only ever have all children or none, also when interrupted
+            children = []
 
             for xr in ((self.aabb.lower[0], aabb_mid[0]),
                        (aabb_mid[0], self.aabb.upper[0])):
                 for yr in ((self.aabb.lower[1], aabb_mid[1]),
                            (aabb_mid[1], self.aabb.upper[1])):
                     aabb = AABB((xr[0], yr[0]), (xr[1], yr[1]))
-                    self.children.append(self.main.Node(self.main, aabb))
+                    children.append(self.main.Node(self.main, aabb))
+
+            self.children = children
 
             # for item in self.items:
             #    for child in self.children:
-- 
2.43.0

