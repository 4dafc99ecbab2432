From 8c2265ce0d112662c7feca9daf06958c0c0c5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 1/6] fix: build indexes over boxes without extent along one
 axis

A total envelope of zero width or height (or one whose extent over- or
underflows) made the Hilbert scale infinite and Flatbush::new panic.
---
 src/flatbush/hilbert.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..1b3b83f 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -32,10 +32,18 @@ where
             Envelope::Bounds { min, max } => {
                 let hilbert_max = C::from((1 << 16) - 1).unwrap();
                 let delta = max - min;
+                // An envelope without extent along an axis has only one cell there.
+                let scale = |d: C| {
+                    if d > C::zero() {
+                        hilbert_max / d
+                    } else {
+                        C::zero()
+                    }
+                };
                 Hilbert {
                     env,
-                    x_scale: hilbert_max / delta.x,
-                    y_scale: hilbert_max / delta.y,
+                    x_scale: scale(delta.x),
+                    y_scale: scale(delta.y),
                     x_min: min.x,
                     y_min: min.y,
                 }
@@ -64,7 +72,11 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        // Extents that over- or underflow have no meaningful cell; any one will do.
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From 81ddd03e37b41d60473c894634db4c108380080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 2/6] fix: report GEOMETRYCOLLECTION as an error instead of
 panicking

parse_wkt returns a Result; a well-formed text of a kind the library
does not know made it panic with 'not implemented'.
---
 src/serde/wkt.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..e011993 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    let geometry = match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,11 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        wkt::Geometry::GeometryCollection(_) => {
+            return Err("GEOMETRYCOLLECTION is not supported");
+        }
+    };
+    Ok(geometry)
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0


From 3b2342f46794c1e3cb78632078f328d45d9be0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 3/6] fix: refuse text that is not one geometry and nothing
 else

The wkt crate stops at the end of the first geometry and takes text that
starts with an unreadable number for an empty document, so parse_wkt
dropped or accepted damaged text without an error.
---
 src/serde/wkt.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index e011993..dc97615 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,9 +6,44 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
+    if !text_after_geometry(wkt_str).is_empty() {
+        return Err("Unexpected text after the geometry");
+    }
     wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
+/**
+ * The text that follows the geometry, which the wkt crate does not look at.
+ *
+ * wkt_str must be text the wkt crate accepts: a geometry first, or none at all.
+ */
+fn text_after_geometry(wkt_str: &str) -> &str {
+    let is_space = |c: char| " \t\r\n".contains(c);
+    let is_letter = |c: char| c.is_ascii_alphabetic();
+    let body = wkt_str
+        .trim_matches(is_space)
+        .trim_start_matches(is_letter)
+        .trim_start_matches(is_space);
+    if !body.starts_with('(') {
+        // Either EMPTY or no geometry.
+        return body
+            .trim_start_matches(is_letter)
+            .trim_start_matches(is_space);
+    }
+    let mut depth = 0;
+    for (i, c) in body.char_indices() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => (),
+        }
+        if depth == 0 {
+            return body[i + 1..].trim_start_matches(is_space);
+        }
+    }
+    ""
+}
+
 fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
     let geometry = match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
-- 
2.43.0


From 5dfa1310e36ca57c55d9ffed6b0cb5dc2c5ac443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 4/6] fix: refuse geometry collections before they are read

The wkt crate reads nested collections recursively, so text with enough of
them one inside another overflowed the stack, and with it ended the process,
before the collection could be refused.
---
 src/serde/wkt.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index dc97615..e880eb1 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -4,7 +4,12 @@ use crate::planar::types::{
 };
 use wkt;
 
+const COLLECTION_UNSUPPORTED: &str = "GEOMETRYCOLLECTION is not supported";
+
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
+    if is_collection(wkt_str) {
+        return Err(COLLECTION_UNSUPPORTED);
+    }
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
     if !text_after_geometry(wkt_str).is_empty() {
         return Err("Unexpected text after the geometry");
@@ -12,6 +17,22 @@ pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
+/**
+ * Whether the text is (the start of) a geometry collection.
+ *
+ * The wkt crate reads these recursively, so that nested ones can exhaust the
+ * stack before they can be refused.
+ */
+fn is_collection(wkt_str: &str) -> bool {
+    wkt_str
+        .trim_start_matches(|c: char| " \t\r\n".contains(c))
+        .split(|c: char| !c.is_ascii_alphabetic())
+        .next()
+        .map_or(false, |kind| {
+            kind.eq_ignore_ascii_case("GEOMETRYCOLLECTION")
+        })
+}
+
 /**
  * The text that follows the geometry, which the wkt crate does not look at.
  *
@@ -59,7 +80,7 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str>
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
         wkt::Geometry::GeometryCollection(_) => {
-            return Err("GEOMETRYCOLLECTION is not supported");
+            return Err(COLLECTION_UNSUPPORTED);
         }
     };
     Ok(geometry)
-- 
2.43.0


From d292fa3160c1f25e419fb918b5c3afd1c052dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 5/6] fix: relate loops that meet only in corners instead of
 panicking

---
 src/planar/algorithms/loop_relation.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..a08562c 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -20,6 +20,8 @@ pub(crate) enum LoopRelation {
     Outside,
     Inside,
     Crosses,
+    /// Every position lies on the other loop.
+    OnBoundary,
 }
 
 /**
@@ -116,11 +118,15 @@ pub fn find_loop_loop_relation<C: Coordinate>(
 
     match (loop_1_relation, loop_2_relation) {
         (LoopRelation::Outside, LoopRelation::Outside) => LoopLoopRelation::Separate,
-        (LoopRelation::Inside, LoopRelation::Outside) => LoopLoopRelation::Within,
-        (LoopRelation::Outside, LoopRelation::Inside) => LoopLoopRelation::Contains,
-        (LoopRelation::Inside, LoopRelation::Inside) => {
-            panic!("BUG: Two loops found inside each other.")
-        }
+        (LoopRelation::Inside, LoopRelation::Outside)
+        | (LoopRelation::Inside, LoopRelation::OnBoundary)
+        | (LoopRelation::OnBoundary, LoopRelation::Outside) => LoopLoopRelation::Within,
+        (LoopRelation::Outside, LoopRelation::Inside)
+        | (LoopRelation::OnBoundary, LoopRelation::Inside)
+        | (LoopRelation::Outside, LoopRelation::OnBoundary) => LoopLoopRelation::Contains,
+        // Each loop reaches into the other by way of positions they share.
+        (LoopRelation::Inside, LoopRelation::Inside)
+        | (LoopRelation::OnBoundary, LoopRelation::OnBoundary) => LoopLoopRelation::Crosses,
         (LoopRelation::Crosses, LoopRelation::Crosses) => LoopLoopRelation::Crosses,
         (LoopRelation::Crosses, _) | (_, LoopRelation::Crosses) => {
             panic!("BUG: One loop found Crossing but not the other")
@@ -172,10 +178,10 @@ fn _get_loop_relation<C: Coordinate>(
             return LoopRelation::Crosses;
         }
     }
-    if outside {
-        LoopRelation::Outside
-    } else {
-        LoopRelation::Inside
+    match (outside, inside) {
+        (true, _) => LoopRelation::Outside,
+        (_, true) => LoopRelation::Inside,
+        _ => LoopRelation::OnBoundary,
     }
 }
 
-- 
2.43.0


From 0887c4b6fea2997d1cd8328f8540d7e3383035c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 6/6] fix: intersect two segments the same way whichever of
 them is asked

---
 src/planar/primitives/segment.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..183a270 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -94,6 +94,20 @@ impl<C: Coordinate> Segment<C> {
             return SegmentIntersection::Segment(*self);
         }
 
+        // Rounding must not make the answer depend on which segment is asked
+        // about the other, so always calculate with the same one first.
+        if (other.start, other.end) < (self.start, self.end) {
+            return match other.intersect_segment(*self) {
+                SegmentIntersection::Segment(s)
+                    if Position::dot(self.end - self.start, s.end - s.start) < C::zero() =>
+                {
+                    // An overlap runs in the direction of this segment.
+                    SegmentIntersection::Segment(Segment::new(s.end, s.start))
+                }
+                intersection => intersection,
+            };
+        }
+
         let da = self.end - self.start; // The vector for the segment
         let db = other.end - other.start; // The vector for the other segment
         let offset = other.start - self.start; // The offset between segments (starts)
-- 
2.43.0

