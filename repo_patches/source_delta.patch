From 4ccc6264326ddd3a0866ee71146c23308622b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:04 +0000
Subject: [PATCH 01/12] fix: check the grid size before reading the format
 information

Grids smaller than 9x9 were asked for bits they do not have, which panics for
SimpleGrid, instead of being reported as InvalidVersion.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..b26f426 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -678,6 +678,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Grids that are too small have no format information to read
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -704,7 +706,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From 93c4a1ebb2d4df14f06db94ef2602c4f859a8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:04 +0000
Subject: [PATCH 02/12] fix: do not read a pixel of an image without columns

detect_grids() panicked on images with a width of 0 and a nonzero height.
---
 src/detect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..1e465e0 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,10 @@ where
 {
     let mut res = Vec::new();
 
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From 7e14fadfbb339f4a8458d9752712c1a3b707aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:04 +0000
Subject: [PATCH 03/12] fix: intersect lines in 64 bit arithmetic

The products in line_intersect() are cubic in the image coordinates and
overflow i32 for codes with large modules in pictures of a few megapixels. The
fourth corner was then misplaced (or, with overflow checks, detection panicked).
---
 src/geometry.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..167e1ce 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -85,14 +85,14 @@ impl Perspective {
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = i64::from(p0.y) - i64::from(p1.y);
+    let b = i64::from(p1.x) - i64::from(p0.x);
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = i64::from(q0.y) - i64::from(q1.y);
+    let d = i64::from(q1.x) - i64::from(q0.x);
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * i64::from(p1.x) + b * i64::from(p1.y);
+    let f = c * i64::from(q1.x) + d * i64::from(q1.y);
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +106,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
-- 
2.43.0


From 987771125a138e9bd6b79a6ad17670acc68d6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:04 +0000
Subject: [PATCH 04/12] fix: drop a group if a rotated capstone has no
 perspective

Corners of shapes that only resemble a capstone (for example triangles) may
coincide. Whether such corners have a perspective depends on their order, so
rotating them can fail and detect_grids() panicked.
---
 src/identify/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..6a35eb2 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -164,7 +164,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -174,8 +174,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From a23872eb2313fda37067f85b18d51351c288a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 05/12] fix: reject groups without a timing pattern

Too few transitions between the capstones amount to a grid of 17x17 modules
(version 0), which was reported although no such QR code exists. No transition
at all made detect_grids() panic.
---
 src/identify/grid.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 6a35eb2..ac42194 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -64,6 +64,9 @@ impl SkewedGridLocation {
          * transform.
          */
         let grid_size = measure_timing_pattern(img, &group);
+        if version_from_grid_size(grid_size) == 0 {
+            return None;
+        }
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -203,7 +206,6 @@ where
     let scan = cmp::max(hscan, vscan);
 
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
     ver * 4 + 17
-- 
2.43.0


From 647af897ee3b439b31330df158a7c27d7e15186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:57 +0000
Subject: [PATCH 06/12] fix: keep points near the horizon from panicking or
 stalling the detection

Extrapolating the perspective of a capstone to the fourth corner may end up
close to its horizon, where Perspective::map() panicked. The estimated size of
the alignment pattern is unbounded there as well: it overflowed i32, or made the
search spiral through billions of points outside of the image.
---
 src/geometry.rs      | 13 ++++---------
 src/identify/grid.rs | 19 ++++++++++++++++---
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 167e1ce..39d2405 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -49,16 +49,11 @@ impl Perspective {
         let x = (self.0[0] * u + self.0[1] * v + self.0[2]) / den;
         let y = (self.0[3] * u + self.0[4] * v + self.0[5]) / den;
 
-        let x = x.round();
-        let y = y.round();
-
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
+        // Points close to the horizon may not be representable. They can not be part
+        // of an image in any case, so let the conversion saturate.
         Point {
-            x: x as i32,
-            y: y as i32,
+            x: x.round() as i32,
+            y: y.round() as i32,
         }
     }
 
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index ac42194..da47e89 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -246,9 +246,15 @@ where
     let a = c0.c.map(u, v + 1.0);
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v);
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let (ax, ay) = offset(&align_seed, &a);
+    let (cx, cy) = offset(&align_seed, &c);
+    let size_estimate = (ay * cx - ax * cy).abs();
+
+    /* If the estimate point is far off, there might be no region big enough */
+    if size_estimate / 2.0 > img.width() as f64 * img.height() as f64 {
+        return None;
+    }
+    let size_estimate = size_estimate as usize;
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
@@ -291,6 +297,13 @@ where
     None
 }
 
+fn offset(from: &Point, to: &Point) -> (f64, f64) {
+    (
+        f64::from(to.x) - f64::from(from.x),
+        f64::from(to.y) - f64::from(from.y),
+    )
+}
+
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-- 
2.43.0


From 59ec7c37709dd14f67c962a15dbd647aa46de7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:40 +0000
Subject: [PATCH 07/12] fix: do not accept format information that is too far
 from what was read

With 4 or more bit errors the corrected word sometimes is a valid one that
differs in 5 and more bits from what was read. Accepting it means that the
second copy of the format information is not tried.
---
 src/decode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index b26f426..33d99ca 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -658,6 +658,8 @@ fn reserved_cell(version: Version, i: usize, j: usize) -> bool {
 }
 
 fn correct_format(mut word: u16) -> DeQRResult<u16> {
+    let received = word;
+
     /* Evaluate U (received codeword) at each of alpha_1 .. alpha_6
      * to get S_1 .. S_6 (but we index them from 0).
      */
@@ -673,6 +675,11 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 
         // Double CHECK syndromes
         format_syndromes(word).map_err(|_| DeQRError::FormatEcc)?;
+
+        // The code corrects 3 errors, anything beyond that is a wrong guess
+        if (word ^ received).count_ones() > 3 {
+            return Err(DeQRError::FormatEcc);
+        }
     }
     Ok(word)
 }
-- 
2.43.0


From 2b91c3c8c1edf2e9434c58676e6f177f212045c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:10 +0000
Subject: [PATCH 08/12] fix: use a capstone as the corner of one grid only

After a group was found, find_groupings() went on to pair the same capstone with
others. The additional group claims capstones of other codes, which are then not
found: with codes laid out in rows and columns the top left one is usually
aligned with the finders of its neighbours.
---
 src/prepare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..1e87aeb 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -299,6 +299,8 @@ where
                 used_capstones.push(pair.0);
                 used_capstones.push(idx);
                 used_capstones.push(pair.1);
+                // One capstone is the corner of one grid only
+                break;
             }
         }
         groups
-- 
2.43.0


From 5989260f37a8fb207fa9ab74992a54ca58eaf8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:40 +0000
Subject: [PATCH 09/12] fix: read the last data word of large blocks from where
 it is

Behind the data words all blocks have come only those of the large blocks.
Counting the small blocks there as well read a wrong word, which cost each
large block one of the errors it could correct.
---
 src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 33d99ca..f853fd7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -358,9 +358,13 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let dst = &mut out.data[dst_offset..(dst_offset + ecc.bs)];
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
-        for j in 0..ecc.dw {
+        for j in 0..sb_ecc.dw {
             dst[j] = ds.data[j * bc + i];
         }
+        // Only large blocks have a last data word, the small ones are skipped in that round
+        if i >= sb_ecc.ns {
+            dst[sb_ecc.dw] = ds.data[sb_ecc.dw * bc + i - sb_ecc.ns];
+        }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
         }
-- 
2.43.0


From c38201cdbf0624fed59409908f07f0609e20b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:40 +0000
Subject: [PATCH 10/12] fix: correct the last alignment pattern coordinate of
 version 21

ISO/IEC 18004 table E.1 has 94; with 92 some data modules were read as
alignment pattern and the other way around, at the cost of error correction.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From e16e22c6d53b2b27290c1b61f689565614978bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:06 +0000
Subject: [PATCH 11/12] fix: report the corners of the grid as its bounds

All but the top left one were reported a module too far out.
---
 src/prepare.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/prepare.rs b/src/prepare.rs
index 1e87aeb..c709c8b 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -240,18 +240,12 @@ where
             .filter_map(|v| crate::SkewedGridLocation::from_group(self, v))
             .collect();
         for grid_location in locations {
+            let size = grid_location.grid_size as f64;
             let bounds = [
                 grid_location.c.map(0.0, 0.0),
-                grid_location
-                    .c
-                    .map(grid_location.grid_size as f64 + 1.0, 0.0),
-                grid_location.c.map(
-                    grid_location.grid_size as f64 + 1.0,
-                    grid_location.grid_size as f64 + 1.0,
-                ),
-                grid_location
-                    .c
-                    .map(0.0, grid_location.grid_size as f64 + 1.0),
+                grid_location.c.map(size, 0.0),
+                grid_location.c.map(size, size),
+                grid_location.c.map(0.0, size),
             ];
             let grid = grid_location.into_grid_image(self);
             res.push(crate::Grid { grid, bounds });
-- 
2.43.0


From 6aed134287e616ea4b04de938b8b33ceefa4583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 12/12] fix: compute corner scores in 64 bit arithmetic

In images more than about 30000 pixels wide or high, the squared distances and
products used to find the corners of large capstones and of the alignment
pattern exceeded 32 bits: a panic with overflow checks, wrong corners without.
---
 src/detect.rs        | 26 +++++++++++++++-----------
 src/identify/grid.rs | 20 ++++++++++++++------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 1e465e0..a805dbc 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -278,7 +278,7 @@ where
 struct FirstCornerFinder {
     initial: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl FirstCornerFinder {
@@ -297,9 +297,9 @@ impl FirstCornerFinder {
 
 impl AreaFiller for FirstCornerFinder {
     fn update(&mut self, row: Row) {
-        let dy = (row.y as i32) - self.initial.y;
-        let l_dx = (row.left as i32) - self.initial.x;
-        let r_dx = (row.right as i32) - self.initial.x;
+        let dy = row.y as i64 - i64::from(self.initial.y);
+        let l_dx = row.left as i64 - i64::from(self.initial.x);
+        let r_dx = row.right as i64 - i64::from(self.initial.x);
 
         let l_dist = l_dx * l_dx + dy * dy;
         let r_dist = r_dx * r_dx + dy * dy;
@@ -334,7 +334,7 @@ impl AreaFiller for FirstCornerFinder {
 struct AllCornerFinder {
     baseline: Point,
     best: [Point; 4],
-    scores: [i32; 4],
+    scores: [i64; 4],
 }
 
 impl AllCornerFinder {
@@ -344,8 +344,9 @@ impl AllCornerFinder {
             y: corner.y - initial.y,
         };
 
-        let parallel_score = initial.x * baseline.x + initial.y * baseline.y;
-        let orthogonal_score = -initial.x * baseline.y + initial.y * baseline.x;
+        let (par_x, par_y) = (i64::from(baseline.x), i64::from(baseline.y));
+        let parallel_score = i64::from(initial.x) * par_x + i64::from(initial.y) * par_y;
+        let orthogonal_score = -i64::from(initial.x) * par_y + i64::from(initial.y) * par_x;
 
         AllCornerFinder {
             baseline,
@@ -366,12 +367,15 @@ impl AllCornerFinder {
 
 impl AreaFiller for AllCornerFinder {
     fn update(&mut self, row: Row) {
-        let l_par_score = (row.left as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let l_ort_score = -(row.left as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let (par_x, par_y) = (i64::from(self.baseline.x), i64::from(self.baseline.y));
+        let (left, right, y) = (row.left as i64, row.right as i64, row.y as i64);
+
+        let l_par_score = left * par_x + y * par_y;
+        let l_ort_score = -left * par_y + y * par_x;
         let l_scores = [l_par_score, l_ort_score, -l_par_score, -l_ort_score];
 
-        let r_par_score = (row.right as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let r_ort_score = -(row.right as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let r_par_score = right * par_x + y * par_y;
+        let r_ort_score = -right * par_y + y * par_x;
         let r_scores = [r_par_score, r_ort_score, -r_par_score, -r_ort_score];
 
         for j in 0..4 {
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index da47e89..28fb3c2 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -47,7 +47,7 @@ impl SkewedGridLocation {
         };
 
         /* Make sure A-B-C is clockwise */
-        if (group.1.center.x - h0.x) * -hd.y + (group.1.center.y - h0.y) * hd.x > 0 {
+        if distance_score(&group.1.center, &h0, &hd) > 0 {
             mem::swap(&mut group.0, &mut group.2);
             hd.x = -hd.x;
             hd.y = -hd.y
@@ -83,7 +83,7 @@ impl SkewedGridLocation {
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
             align = find_alignment_pattern(img, align, &group.0, &group.2)?;
-            let score = -hd.y * align.x + hd.x * align.y;
+            let score = distance_score(&align, &Point { x: 0, y: 0 }, &hd);
             let finder = LeftMostFinder {
                 line_p: hd,
                 best: align,
@@ -167,12 +167,19 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
+/// How far (in multiples of the length of `dir`) and on which side of the line
+/// from `start` in direction of `dir` the point lies
+fn distance_score(p: &Point, start: &Point, dir: &Point) -> i64 {
+    (i64::from(p.x) - i64::from(start.x)) * -i64::from(dir.y)
+        + (i64::from(p.y) - i64::from(start.y)) * i64::from(dir.x)
+}
+
 fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
         .enumerate()
-        .min_by_key(|(_, a)| (a.x - h0.x) * (-hd.y) + (a.y - h0.y) * hd.x)
+        .min_by_key(|(_, a)| distance_score(a, h0, hd))
         .expect("corners cannot be empty");
 
     /* Rotate the capstone */
@@ -307,13 +314,14 @@ fn offset(from: &Point, to: &Point) -> (f64, f64) {
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl AreaFiller for LeftMostFinder {
     fn update(&mut self, row: Row) {
-        let left_d = -self.line_p.y * (row.left as i32) + self.line_p.x * row.y as i32;
-        let right_d = -self.line_p.y * (row.right as i32) + self.line_p.x * row.y as i32;
+        let (line_x, line_y) = (i64::from(self.line_p.x), i64::from(self.line_p.y));
+        let left_d = -line_y * row.left as i64 + line_x * row.y as i64;
+        let right_d = -line_y * row.right as i64 + line_x * row.y as i64;
 
         if left_d < self.score {
             self.score = left_d;
-- 
2.43.0

