From 9ee3fad3e3cb237d35b2acb8623b7028dbc2863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 1/9] fix: SheetPlex.limit looks at both sides of each
 intersection

The second condition named the builtin iter, so restricting a model with
any intersection whose first sheet is kept raised AttributeError.
---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..0060c44 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -83,7 +83,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From ab2714d164fed7270b819c1ab20201719c95ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 2/9] fix: write_dxf keeps placing parts after an empty one

The bounding box of a part without polygons is NaN, which made the offset
of every later part NaN.
---
 plycutter/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..8c59bdc 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,10 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            # Nothing to draw, and no bounding box
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From bb26377b88f05f42e2a8f9342e83ba983e55d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 3/9] fix: canned_1 re-raises the error of the failing stage

The command line sets no 'return_on_failure', so the handler raised
KeyError instead of the original error.
---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..ed88273 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -79,7 +79,7 @@ def canned_1(sheetplex, params, show=False):
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
-- 
2.43.0


From 4fc968a882c5f9b4de3e0db5e2d8918a866593cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 4/9] fix: canned_1 can return a failure of the first stage

With return_on_failure set and create_sheetbuild failing, sb was unbound.
---
 plycutter/canned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index ed88273..e94de95 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -37,6 +37,7 @@ def canned_1(sheetplex, params, show=False):
     global sb_log
     sb_log = []
     ok = False
+    sb = None
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
@@ -86,7 +87,7 @@ def canned_1(sheetplex, params, show=False):
         ok=ok,
         sheetbuild=sb,
         history=sb_log,
-        sheet_cuts=sb.sheet_chosen,
+        sheet_cuts=None if sb is None else sb.sheet_chosen,
         params=params,
     )
 
-- 
2.43.0


From 133eaa638fe66e31eb3fb44672beb2026ed1c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 5/9] fix: canned_1 passes the state to do_show after each
 stage

---
 plycutter/canned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index e94de95..b47bfbc 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -71,7 +71,7 @@ def canned_1(sheetplex, params, show=False):
             sb_log.append(sb.set('dbg', op))
             sb = op(sb, params)
             if show:
-                do_show(op)
+                do_show(op, sb)
 
         sb_log.append(sb)
         sb.check(force=True)
-- 
2.43.0


From b02b5614daf2340013b3001f5ee46c2ad9d9f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 6/9] fix: random_min_max accepts bounds crossed by rounding
 only

When the total is exactly n times a limit which is not a dyadic fraction,
the float running total made the last bounds cross by an ulp and the
assertion failed.
---
 plycutter/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..49130a0 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -416,7 +416,9 @@ def random_min_max(n, mn, mx, total, rng):
         low = max(at_min, mn)
         hi = min(at_most, mx)
         # logger.debug(low, hi)
-        assert low <= hi
+        # Rounding may make the bounds cross very slightly
+        assert low <= hi + 1e-8
+        hi = max(low, hi)
         cur = rng.uniform(low, hi)
         # logger.debug(cur)
         lengths[i] = cur
-- 
2.43.0


From b5abe61e80f7c414bf29be583557cfb9123d65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 7/9] fix: single_fingers_random draws only finger counts of
 the right parity

n_min and n_max were rounded to the parity which continues the alternation
at both ends of the range, but n was drawn from all numbers between them
(or from the preferred minimum on), so that the last finger often joined
the neighbouring piece of the same side.
---
 plycutter/heuristics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 49130a0..6231b40 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -494,9 +494,11 @@ def single_fingers_random(sb, params=None):
             preferred_min = 5
 
             if n_min < preferred_min:
-                n_min = min(preferred_min, n_max)
+                n_min = min(preferred_min + (preferred_min - n_max) % 2,
+                            n_max)
 
-            n = rng.randint(n_min, n_max + 1)
+            # Only every other number of fingers alternates at both ends
+            n = int(n_min + 2 * rng.randint(0, (n_max - n_min) // 2 + 1))
 
             locations = random_min_max(
                 n, min_width, max_width, end - start, rng)
-- 
2.43.0


From 3240496406508f62a33c14f79e5d9c216144083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 8/9] fix: Geom1D can be shown in assertion messages

---
 plycutter/geometry/geom1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..4fe2f97 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
-- 
2.43.0


From 6c7c9a2d7ce1393145fcbba7af0f318de7b25d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 9/9] fix: unchoose_interside reports the range it refuses

---
 plycutter/sheetbuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..2d88ec0 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -79,7 +79,8 @@ class SheetBuild(pyr.PRecord, Autocompletable):
     def unchoose_interside(self, interside_id, v):
         """State that the range v will never be chosen"""
         assert (self.interside_chosen[interside_id] & v).is_empty(), fastr(
-            interside_id, v, (self.interside_chosen[interside_id] & v).area()
+            interside_id, v,
+            (self.interside_chosen[interside_id] & v).measure1d()
         )
         interside = self.sheetplex.interside(interside_id)
 
-- 
2.43.0

