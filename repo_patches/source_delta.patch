From e144a67348eb837deb6a6480e832fea4aeff6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 1/7] fix: count children with 64-bit arithmetic

cellToChildrenSize computed powers of 7 as i32, which overflows from 12
levels down (a panic in debug builds, wrong counts in release builds); the
child position functions rely on it.
---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..cb19f69 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From f3e77e176eca836f3b41dcfb657f5f4ef9867830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 2/7] fix: refuse rings whose traversal crosses itself

gridRingUnsafe took a traversal for a ring when it ended where it had
started. Around six pentagons (resolution 1 from k = 12, resolution 2 from
k = 30) the distortions cancel out and the traversal closes although it left
the ring: it returned cells at other distances, some of them twice.
---
 src/algos.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..66bf334 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use enum_primitive::FromPrimitive;
 
 use crate::{
@@ -811,9 +813,16 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
     // failure.
     if lastIndex != origin {
         return Err(Error::Pentagon);
-    } else {
-        return Ok(out);
     }
+
+    // The distortions of several enclosed pentagons can add up so that the
+    // traversal does arrive at lastIndex again. It crosses itself in this case.
+    let mut seen = HashSet::with_capacity(out.len());
+    if !out.iter().all(|index| seen.insert(*index)) {
+        return Err(Error::Pentagon);
+    }
+
+    return Ok(out);
 }
 
 #[cfg(test)]
-- 
2.43.0


From a9bcc7a655d2458c7a9fb934d2fa499866c7ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 3/7] fix: keep maxGridDiskSize from overflowing

3k(k+1)+1 overflows i64 for large k (a panic in debug builds, nonsense in
release builds). As in H3, cap it with the number of cells at resolution 15.
---
 src/algos.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 66bf334..53ee566 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -329,6 +329,15 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
     ],
 ];
 
+/**
+ * k value which will encompass all cells at resolution 15.
+ * This is the largest possible k in the H3 grid system.
+ */
+const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
+
+/** Number of cells at resolution 15: 2 + 120 * 7^15 */
+const NUM_CELLS_AT_RES_15: usize = 569707381193162;
+
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
  * given k. Formula source and proof: https://oeis.org/A003215
@@ -337,6 +346,11 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
+    if k >= K_ALL_CELLS_AT_RES_15 {
+        // There are no more cells than this at any resolution. The formula
+        // below would exceed this value, and overflow for even larger k.
+        return NUM_CELLS_AT_RES_15;
+    }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
 
-- 
2.43.0


From af635e0c6b2f5af3a90814f828ebfb0c0de4960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 4/7] fix: bring latitudes below -90 degrees into bounds, too

constrainLat corrected latitudes above pi/2 only and returned anything below
-pi/2 as it was, out of the bounds it is documented to ensure.
---
 src/lat_lng.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 89b4701..698a176 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -94,6 +94,9 @@ pub fn constrainLat(mut lat: f64) -> f64 {
     while lat > FRAC_PI_2 {
         lat = lat - PI;
     }
+    while lat < -FRAC_PI_2 {
+        lat = lat + PI;
+    }
     return lat;
 }
 
-- 
2.43.0


From 1cf42919d8568f9b24a37d7de63ea06ad1058134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 5/7] fix: constrain angles of any size without looping forever

---
 src/lat_lng.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 698a176..839c5c0 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -91,6 +91,8 @@ pub fn _setGeoRads(p: &mut LatLng, lat_rads: f64, lng_rads: f64) {
  * @return The corrected lat value
  */
 pub fn constrainLat(mut lat: f64) -> f64 {
+    // exact; the loops would not end for angles too large to step through
+    lat = lat % PI;
     while lat > FRAC_PI_2 {
         lat = lat - PI;
     }
@@ -107,6 +109,8 @@ pub fn constrainLat(mut lat: f64) -> f64 {
  * @return The corrected lng value
  */
 pub fn constrainLng(mut lng: f64) -> f64 {
+    // exact; the loops would not end for angles too large to step through
+    lng = lng % (2.0 * PI);
     while lng > PI {
         lng = lng - (2.0 * PI);
     }
-- 
2.43.0


From 76a6a714ca14ef613eb1d19b42a9b668021d2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 6/7] fix: orientation of base cell 57 seen from face 5

The entry of faceIjkBaseCells at (2, 2, 0) of face 5, the centre of the
adjacent face 10, is turned by three sixths like the entry at (1, 1, 0) and
those of all other pairs of faces that meet there.
---
 src/base_cells.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_cells.rs b/src/base_cells.rs
index 79f6aad..fd22063 100644
--- a/src/base_cells.rs
+++ b/src/base_cells.rs
@@ -861,7 +861,7 @@ pub const faceIjkBaseCells: [[[[BaseCellOrient; 3]; 3]; 3]; NUM_ICOSA_FACES as u
             [
                 BaseCellOrient {
                     baseCell: 57,
-                    ccwRot60: 1,
+                    ccwRot60: 3,
                 },
                 BaseCellOrient {
                     baseCell: 52,
-- 
2.43.0


From 2bf504a36abb213a10752a5c39758d1178ddc4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 7/7] fix: let the children iterator carry past the highest bit

Iterating the children of a malformed value whose upper digits and fields are
all ones panicked with an overflow when the end of the sequence was reached.
The carry beyond the parent's digits is discarded anyway.
---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 7c3ca42..0c4a231 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -57,7 +57,7 @@ impl IterCellsChildren {
     pub fn _incrementResDigit(&mut self, res: i32) {
         let mut val: H3Index = 1;
         val <<= H3_PER_DIGIT_OFFSET * (MAX_H3_RES - res);
-        self.h += val;
+        self.h = self.h.wrapping_add(val);
     }
 }
 
-- 
2.43.0

