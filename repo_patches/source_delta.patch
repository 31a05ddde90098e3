From 65f99c315ccf902c30b623fc6ecc51db53f4e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 01/25] hook: expose the modules to an external monitor under
 --cfg cniic_verif

---
 src/lib.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..6cc1dd2
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,24 @@
+//! Verification hook, off by default.
+//!
+//! cniic is a binary crate. Built with `--cfg cniic_verif` it is also a library
+//! through which an external monitor can reach the modules of the binary. Without
+//! that flag this file is an empty crate.
+#![allow(unexpected_cfgs)]
+#![cfg(cniic_verif)]
+#![allow(dead_code)]
+
+include!("main.rs");
+
+/// The modules of the binary, as seen by an external monitor.
+pub mod verif {
+    pub mod bench { pub use crate::bench::*; }
+    pub mod bit { pub use crate::bit::*; }
+    pub mod codec { pub use crate::codec::*; }
+    pub mod geom { pub use crate::geom::*; }
+    pub mod hilbert { pub use crate::hilbert::*; }
+    pub mod huf { pub use crate::huf::*; }
+    pub mod kmeans { pub use crate::kmeans::*; }
+    pub mod prs { pub use crate::prs::*; }
+    pub mod ser { pub use crate::ser::*; }
+    pub mod zip { pub use crate::zip::*; }
+}
-- 
2.43.0


From a170f08956aa6d9e1919cc5930930ebc18eebbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 02/25] fix: zip(back) panicked on repetitions or literals
 longer than 32767 bytes

The length field has 15 bits. Split longer sequences into several symbols.
---
 src/zip/back.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..b3b0975 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -1,4 +1,4 @@
-use std::{cmp::max, collections::{HashMap, VecDeque}, io};
+use std::{cmp::{max, min}, collections::{HashMap, VecDeque}, io};
 use crate::{ser::{Serialize, Deserialize}, utils::default_array};
 
 #[allow(dead_code)]
@@ -41,8 +41,12 @@ impl Symbol {
         (msb as Len).rotate_right(1)
     }
 
+    /// The biggest length that a single symbol can represent:
+    /// the MSB of the length is used as the enum decider
+    const MAX_LEN: usize = (Len::MAX >> 1) as usize;
+
     fn compress_len(len: usize, enum_decider: u8) -> Len {
-        assert!(len <= (Len::MAX >> 1) as usize);
+        assert!(len <= Self::MAX_LEN);
 
         let mask: Len = Self::mask(enum_decider);
         (len as Len) | mask
@@ -165,8 +169,9 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             // Restore the input
             encoder.input.restore();
 
-            // We always try to double the current explicit size
-            let try_to_get = max(curr_explicit.len(), 2);
+            // We always try to double the current explicit size,
+            // as long as the result fits in a single symbol
+            let try_to_get = min(max(curr_explicit.len(), 2), Symbol::MAX_LEN - curr_explicit.len());
             let mut new_bytes: Vec<u8> =
                 (&mut encoder.input)
                         .take(try_to_get)
@@ -202,7 +207,7 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
                     // Either no repetition or the repetition is too short
                     // Extend the current explicit
                     let must_return = extend_explicit(self, &mut curr_explicit);
-                    if must_return {
+                    if must_return || curr_explicit.len() == Symbol::MAX_LEN {
                         push_explicit(curr_explicit, channel);
                         return;
                     }
@@ -273,7 +278,8 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
                 max_rep_back = lookback;
             }
         }
-        Some(LookBack { len: max_rep_len, back: max_rep_back })
+        // A repetition must fit in a single symbol
+        Some(LookBack { len: min(max_rep_len, Symbol::MAX_LEN), back: max_rep_back })
     }
 
     fn commit_bytes(&mut self, nbytes: usize) {
-- 
2.43.0


From a7612a376b22d5c211870d1e44a7cdb09a544059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 03/25] fix: voronoi overflowed when subtracting unsigned
 coordinates

The difference of two coordinates can be negative, which panicked (or gave a
wrong square for distances beyond 16 bits) in both the clustering and the
decoding.
---
 src/codec/clusterc.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..6bd0e2b 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,7 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
+                                        .min_by_key(|c| c.squared_dist_to(x, y))
                                         .unwrap();
             *px = closest_centroid.color.clone();
         }
@@ -203,10 +203,18 @@ struct ColorPos {
     color: Rgb<u8>,
 }
 
+impl ColorPos {
+    /// The square of the distance between the positions only
+    fn squared_dist_to(&self, x: u32, y: u32) -> u128 {
+        let square = |d: u32| (d as u128).pow(2);
+        square(self.x.abs_diff(x)) + square(self.y.abs_diff(y))
+    }
+}
+
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = self.x.abs_diff(other.x) as f64;
+        d = d.powi(2) + (self.y.abs_diff(other.y) as f64).powi(2);
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From c8b238b3099078c76f2b6ee47c9ec320c647226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 04/25] fix: clustering panicked when there are fewer points
 than clusters

cluster-colors(n) failed on any image with fewer than n colors, and voronoi(n)
on any image with fewer than n pixels.
---
 src/codec/clusterc.rs | 8 ++++++--
 src/kmeans.rs         | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 6bd0e2b..e829673 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -158,8 +158,12 @@ impl Codec for VoronoiCluster {
         h.serialize(writer)?;
 
         // Write the centroids
-        self.0.serialize(writer)?;
-        for (centroid, _points) in clusters.into_iter() {
+        // Note: we may get less centroids than requested if the image is very small
+        let centroids: Vec<_> = clusters.into_iter()
+                                    .map(|(centroid, _points)| centroid)
+                                    .collect();
+        centroids.len().serialize(writer)?;
+        for centroid in centroids {
             centroid.serialize(writer)?;
         }
         Ok(())
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 10769ba..5449e96 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -18,7 +18,9 @@ pub struct Clusters<T> {
 /* K-Means algorithm */
 /*********************/
 
+/// Note: there can't be more clusters than points
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
+    let nclusters = min(nclusters, points.len());
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
-- 
2.43.0


From c8dc13ea48fb83d08a13fea551064b3d282521a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 05/25] fix: the clustering could loop forever because means
 were rounded down

A truncated mean can be further away from the points than the previous
centroid, so k-means could cycle between assignments. The nearest integer
point minimizes the sum of squares, which makes every iteration improve.
---
 src/codec/clusterc.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index e829673..9ef92b3 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -65,6 +65,14 @@ impl Codec for ClusterColors {
     }
 }
 
+/// Division rounded to the nearest integer.
+///
+/// Note: rounding the mean down may increase the total distance to the
+/// centroids, and then the clustering is not guaranteed to terminate.
+fn rounded_div(x: u64, y: u64) -> u64 {
+    (x + y / 2) / y
+}
+
 #[derive(Clone, PartialEq, Eq, Debug)]
 struct ColorCount {
     color: Rgb<u8>,
@@ -101,7 +109,7 @@ impl kmeans::Point for ColorCount {
 
         let avg_color =
             Rgb (
-                sum_vector.map(|x| (x / tot_weight) as u8)
+                sum_vector.map(|x| rounded_div(x, tot_weight) as u8)
             );
 
         Some(
@@ -240,7 +248,7 @@ impl kmeans::Point for ColorPos {
         }
         let sum_vector = points.iter()
                                             .fold([0; 5], vector_add);
-        let avg_vector = sum_vector.map(|x| x / points.len() as u64);
+        let avg_vector = sum_vector.map(|x| rounded_div(x, points.len() as u64));
 
         Some(
             ColorPos {
-- 
2.43.0


From 806fcf26032579030344f66d393fe0fa62f3125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 06/25] fix: clustering panicked when some clusters ended up
 empty

When the last assignment phase changed nothing but left more empty clusters
than tolerated, the random centroids just picked for them were never tried.
---
 src/kmeans.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 5449e96..2416aba 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -24,6 +24,11 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
+    // Empty clusters get a random centroid, in the hope that it attracts some points
+    // during the next assignment phase
+    // If too many are left when the assignment is stable, give them another chance
+    let mut extra_chances = MAX_EXTRA_CHANCES;
+
     let mut i = 0;
     while changed_assignment {
         changed_assignment = assign_points(&mut clusters);
@@ -31,6 +36,14 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
         update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
         i += 1;
+
+        if !changed_assignment
+            && extra_chances > 0
+            && !enough_active_clusters(&clusters, nclusters)
+        {
+            extra_chances -= 1;
+            changed_assignment = true;
+        }
     }
     println!("#iterations: {}", i);
 
@@ -40,22 +53,32 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     return clusters;
 }
 
-fn check_enough_active_clusters<T>(clusters: &Clusters<T>, requested_nclusters: usize) {
+const MAX_EXTRA_CHANCES: usize = 1000;
+
+fn active_cluster_count<T>(clusters: &Clusters<T>) -> usize {
+    clusters.assignment
+        .iter()
+        .filter(|v| v.len() > 0)
+        .count()
+}
+
+fn min_cluster_count<T>(clusters: &Clusters<T>, requested_nclusters: usize) -> usize {
     let point_count = clusters.assignment
                             .iter()
                             .map(|v| v.len())
                             .sum();
     // We allow for 1% drift from the value requested by the client
-    let min_cluster_count = std::cmp::min(point_count, (0.99 * requested_nclusters as f64) as usize);
+    std::cmp::min(point_count, (0.99 * requested_nclusters as f64) as usize)
+}
 
-    let active_cluster_count = clusters.assignment
-                                    .iter()
-                                    .filter(|v| v.len() > 0)
-                                    .count();
+fn enough_active_clusters<T>(clusters: &Clusters<T>, requested_nclusters: usize) -> bool {
+    active_cluster_count(clusters) >= min_cluster_count(clusters, requested_nclusters)
+}
 
-    assert!(active_cluster_count >= min_cluster_count,
+fn check_enough_active_clusters<T>(clusters: &Clusters<T>, requested_nclusters: usize) {
+    assert!(enough_active_clusters(clusters, requested_nclusters),
         "Not enough active clusters\nRequested {}, got {} (min allowed: {})",
-        requested_nclusters, active_cluster_count, min_cluster_count);
+        requested_nclusters, active_cluster_count(clusters), min_cluster_count(clusters, requested_nclusters));
 }
 
 type Assignment<T> = Vec<Vec<T>>;
-- 
2.43.0


From 61e0205efbc2dadc630b847cf443a59dfc81d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 07/25] fix: parsing a codec with non-ASCII characters or deep
 parentheses panicked

Character positions were used as byte offsets, and the parenthesis depth was
counted on 16 bits.
---
 src/prs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/prs.rs b/src/prs.rs
index 4b17a53..c6cde56 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -24,11 +24,11 @@ pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
 pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut fun_name = None;
     let mut params = Vec::new();
-    let mut paren_stack: u16 = 0;
+    let mut paren_stack: usize = 0;
     let mut last_pos: usize = 0;
 
-    for (new_pos, c) in input.chars()
-                                .enumerate()
+    // Note: the positions must be byte offsets, as we use them to slice the input
+    for (new_pos, c) in input.char_indices()
                                 .filter(|(_, c)|
                                     *c == '(' || *c == ')' || *c == ',')
     {
-- 
2.43.0


From 12478d1539cc8d49e22dde1ff22202b09feea0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 08/25] fix: parsing hilbert(rle()) panicked instead of
 returning an error

---
 src/codec/hilbertc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..e552e7a 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -368,10 +368,9 @@ impl FromStr for CompressionMethod {
 
                     let _ = prs::matches_fully(rle, "rle")
                                 .ok_or_else(|| ParseError::WrongName { expected: String::from("rle"), found: String::from(rle) })?;
-                    if rle_args.len() > 1 {
+                    if rle_args.len() != 1 {
                         return Err(ParseError::WrongNumberOfArguments { expected: 1, found: rle_args.len() });
                     }
-                    assert_ne!(rle_args.len(), 0);
 
                     f64::from_str(rle_args.first().unwrap())
                         .map_err(|e| format!("{:?}", e))?
-- 
2.43.0


From cf613b0ec0c6a65b89d38c2029f1a43b1c63c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 09/25] fix: cluster-colors and voronoi were accepted inside of
 any other text

For instance hilbert(ccol(5)) was understood as ccol(5).
---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 9ef92b3..9a67cf1 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -130,7 +130,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -298,7 +298,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0


From 37ac0bb59e4a986332bc528708a566de85dbd84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 10/25] fix: reject cluster-colors(0) and voronoi(0)

They were accepted, but then panicked on every image.
---
 src/codec/clusterc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 9a67cf1..4f79271 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -144,6 +144,10 @@ impl FromStr for ClusterColors {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Can't reduce to 0 clusters".into());
+        }
+
         Ok(ClusterColors(ncolors))
     }
 }
@@ -312,6 +316,10 @@ impl FromStr for VoronoiCluster {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Can't reduce to 0 clusters".into());
+        }
+
         Ok(VoronoiCluster(ncolors))
     }
 }
-- 
2.43.0


From 5858768265460dc1dd84762b07d12dc759b10d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 11/25] fix: the green and blue columns of the hilbert CSV were
 mislabelled

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8f4eecf..3d47e04 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,7 @@ fn try_special() -> Result<(), Err> {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
-                        csv.write_record(&["red", "blue", "green"]).unwrap();
+                        csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
                     }
-- 
2.43.0


From 567e0a5016ad9fe96512fa69bc210fa2019e5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 12/25] fix: linearize_small dropped half of the square for
 power of two dimensions

It is supposed to cover the largest square enscribed in the image, but used
half of the dimension when it is a power of two (and nothing at all for 1).
---
 src/hilbert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hilbert.rs b/src/hilbert.rs
index fd15f21..b1ec232 100644
--- a/src/hilbert.rs
+++ b/src/hilbert.rs
@@ -15,7 +15,8 @@ pub fn linearize_rect<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::P
 pub fn linearize_small<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::Pixel> + '_ {
     let (xdim, ydim) = img.dimensions();
 
-    let square_order = min(xdim.next_power_of_two() >> 1, ydim.next_power_of_two() >> 1) as usize;
+    // The biggest power of two that is not greater than the smallest dimension
+    let square_order = ((min(xdim, ydim) + 1).next_power_of_two() >> 1) as usize;
 
     iter(square_order, square_order)
         .map(|(x, y)| img.get(x, y))
-- 
2.43.0


From 1a63060118b7fa528c78158d73b4e9355a197f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 13/25] fix: the raw size of big images overflowed in the
 benchmark

---
 src/bench.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index d8d398d..2e9bbe1 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -38,8 +38,8 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = h * w * 24; // we're counting on 3 bytes RGB pixels
-            println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
+            let raw_size = h as u64 * w as u64 * 24; // we're counting on 3 bytes RGB pixels
+            println!("bench: Raw size = {}", ByteSize::b(raw_size));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
             let decoded = codec.decode(&mut data.into_iter())
@@ -100,7 +100,7 @@ fn compute_error(x: &Img, y: &Img) -> f64 {
                             .map(|(px, py)| px.dist(&py).powi(2))
                             .sum();
     let (w, h) = x.dimensions();
-    return tot_error / ((w * h) as f64);
+    return tot_error / (w as f64 * h as f64);
 }
 
 fn print_err<T, E: Debug>(r: Result<T, E>) {
-- 
2.43.0


From 591a1d8a868a7d13a53073c29d442b6c4a4d3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 14/25] fix: an image without pixels stopped the benchmark of
 all the other images

Some formats allow them, and several codecs can't do anything useful with them.
---
 src/bench.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bench.rs b/src/bench.rs
index 2e9bbe1..3e04c59 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -30,6 +30,10 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             let img = image::open(&p)
                         .map_err(|e| format!("{:?}", e))?;
 
+            if img.width() == 0 || img.height() == 0 {
+                return Err(format!("There are no pixels to compress in {:?}", p));
+            }
+
             let mut data = Vec::new();
             codec.encode(&img, &mut data)
                 .map_err(|e| format!("{:?}", e))?;
-- 
2.43.0


From 03637f719d1c129a307a1b88e46b1eb64daaff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 15/25] fix: an I/O error while writing hufman codes panicked
 instead of being returned

---
 src/huf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..ee054fd 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,8 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)
+            .expect("every symbol was counted")?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
@@ -135,15 +136,14 @@ impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
 }
 
 impl<T: Hash + Eq> Enc<T> {
-    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
+    /// Returns [None] if the symbol is unknown
+    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<io::Result<()>> {
         let code = self.codes.get(symbol)?;
         if code.len() == 0 {
-            return Some(());
+            return Some(Ok(()));
         }
 
-        writer.write_arr(code)
-            .map_err(|e| eprintln!("{:?}", e))
-            .ok()
+        Some(writer.write_arr(code))
     }
 }
 
-- 
2.43.0


From 40fde2f50ea19d9a73cead94771cd1f9b8e87c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 16/25] fix: truncated streams were decoded as partial images
 or panicked

The hilbert and delta decoders returned an image with the missing pixels left
black when the stream was too short, and depending on where it was cut the
delta, rle and zip decoders panicked. Decoding now fails, as it already did
for the other codecs.
---
 src/codec/hilbertc.rs | 26 +++++++++++++++-----------
 src/zip/back.rs       |  5 ++++-
 src/zip/dict.rs       |  2 +-
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index e552e7a..e19bb62 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -53,13 +53,13 @@ impl Codec for Hilbert {
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
-        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
+        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), mut iter: I) -> Option<super::Img> {
             let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
 
-            hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
-                .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
+            for (x, y) in hilbert::iter(dimensions.0 as usize, dimensions.1 as usize) {
+                // Note: the stream may be truncated
+                *img_buffer.get_pixel_mut(x as u32, y as u32) = iter.next()?;
+            }
 
             Some(img_buffer.into())
         }
@@ -323,8 +323,11 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.count == 0 {
             self.count = RepCount::deserialize(&mut self.bytes)?;
-            assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            if self.count == 0 {
+                // Malformed stream
+                return None;
+            }
+            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
         }
 
         self.count -= 1;
@@ -418,12 +421,13 @@ impl Codec for Delta {
 
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
-        let diff_stream = huf::decode_all(reader).unwrap();
-        let color_stream = FromDiff::new(diff_stream);
+        let diff_stream = huf::decode_all(reader)?;
+        let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+        for (x, y) in hilbert {
+            // Note: the stream may be truncated
+            *img_buffer.get_pixel_mut(x as u32, y as u32) = color_stream.next()?;
         }
 
         Some(img_buffer.into())
diff --git a/src/zip/back.rs b/src/zip/back.rs
index b3b0975..c9cdd25 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -98,7 +98,10 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() != len {
+                    // Truncated stream
+                    return None;
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..732ba04 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -190,7 +190,7 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
             None => {
                 // Figure out the next sequence (if any)
                 let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+                let symbol2 = self.next_symbol()?;
 
                 let seq1 = self.decode(symbol1);
                 let seq2 = self.decode(symbol2);
-- 
2.43.0


From 2a5e993afa920a28c7c3d0c4acc17e9532bd97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 17/25] fix: malformed streams made the decoders panic or
 overflow the stack

Invalid symbols, distances, differences and dictionaries now make decode()
return None.
---
 src/codec/clusterc.rs |  3 +--
 src/codec/hilbertc.rs |  8 ++++---
 src/huf.rs            | 16 ++++++++++++--
 src/zip/back.rs       |  3 +++
 src/zip/dict.rs       | 49 ++++++++++++++++++++++---------------------
 5 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 4f79271..311bd10 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -196,8 +196,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| c.squared_dist_to(x, y))
-                                        .unwrap();
+                                        .min_by_key(|c| c.squared_dist_to(x, y))?;
             *px = closest_centroid.color.clone();
         }
 
diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index e19bb62..d1297fa 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -502,11 +502,12 @@ impl<I: Iterator<Item = SignedColor>> Iterator for FromDiff<I> {
     fn next(&mut self) -> Option<Self::Item> {
         self.diff_stream
             .next()
-            .map(|new_diff| {
+            .and_then(|new_diff| {
                 let new_signed = self.last_color + new_diff;
                 self.last_color = new_signed;
+                // This fails if the stream is malformed
                 new_signed.try_into()
-                    .unwrap()
+                    .ok()
             })
     }
 }
@@ -555,7 +556,8 @@ impl Add for SignedColor {
 
     fn add(mut self, rhs: Self) -> Self::Output {
         for i in 0..3 {
-            self.0[i] += rhs.0[i];
+            // Note: only malformed streams can overflow
+            self.0[i] = self.0[i].wrapping_add(rhs.0[i]);
         }
         self
     }
diff --git a/src/huf.rs b/src/huf.rs
index ee054fd..73fa27a 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -327,8 +327,19 @@ impl<T: Deserialize> Deserialize for Dec<T> {
     }
 }
 
+/// The depth of a hufman trie is logarithmic in the sum of the frequencies,
+/// so even 64 bits frequencies can't exceed this
+const MAX_TRIE_DEPTH: usize = 128;
+
 impl<T: Deserialize> Deserialize for BinTrie<T> {
     fn deserialize<I: Iterator<Item = u8>>(stream: &mut I) -> Option<Self> {
+        Self::deserialize_up_to(MAX_TRIE_DEPTH, stream)
+    }
+}
+
+impl<T: Deserialize> BinTrie<T> {
+    // A depth limit is necessary to avoid a stack overflow on malformed streams
+    fn deserialize_up_to<I: Iterator<Item = u8>>(max_depth: usize, stream: &mut I) -> Option<Self> {
         let decider: u8 = Deserialize::deserialize(stream)?;
         match decider {
             SER_ENUM_LEAF => {
@@ -336,8 +347,9 @@ impl<T: Deserialize> Deserialize for BinTrie<T> {
                 Some(BinTrie::Leaf(value))
             }
             SER_ENUM_BRANCH => {
-                let left = Deserialize::deserialize(stream)?;
-                let right = Deserialize::deserialize(stream)?;
+                let child_depth = max_depth.checked_sub(1)?;
+                let left = Self::deserialize_up_to(child_depth, stream)?;
+                let right = Self::deserialize_up_to(child_depth, stream)?;
                 Some(BinTrie::Branch(Box::new(left), Box::new(right)))
             }
             _ => {
diff --git a/src/zip/back.rs b/src/zip/back.rs
index c9cdd25..7113b63 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -691,6 +691,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 self.history.write_all(&explicit_data);
                 self.decoded.extend(&explicit_data);
             }
+            Some(Symbol::LookBack(lb)) if lb.back > self.history.len() => {
+                // The stream is malformed, nothing can be decoded from here
+            }
             Some(Symbol::LookBack(lb)) => {
                 let lookback_slice = self.duplicate(&lb);
                 self.decoded.extend(lookback_slice);
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 732ba04..9d76a92 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -182,33 +182,35 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
     type Item = u8;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.prev_decoded.next() {
-            Some(b) => {
-                // Previously decoded sequence still has bytes
-                return Some(b);
-            }
-            None => {
-                // Figure out the next sequence (if any)
-                let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol()?;
+        loop {
+            match self.prev_decoded.next() {
+                Some(b) => {
+                    // Previously decoded sequence still has bytes
+                    return Some(b);
+                }
+                None => {
+                    // Figure out the next sequence (if any)
+                    let symbol1 = self.next_symbol()?;
+                    let symbol2 = self.next_symbol()?;
 
-                let seq1 = self.decode(symbol1);
-                let seq2 = self.decode(symbol2);
+                    // Note: the stream is malformed if a symbol is unknown
+                    let seq1 = self.decode(symbol1)?;
+                    let seq2 = self.decode(symbol2)?;
 
-                let mut total_seq = seq1.clone();
-                total_seq.extend_from_slice(seq2);
+                    let mut total_seq = seq1.clone();
+                    total_seq.extend_from_slice(seq2);
 
-                match self.next_code() {
-                    Some(new_code) => {
-                        self.new_mapping(new_code, total_seq.clone());
-                    }
-                    None => {
-                        // nothing to do
+                    match self.next_code() {
+                        Some(new_code) => {
+                            self.new_mapping(new_code, total_seq.clone());
+                        }
+                        None => {
+                            // nothing to do
+                        }
                     }
-                }
 
-                self.store_seq(total_seq);
-                self.next()
+                    self.store_seq(total_seq);
+                }
             }
         }
     }
@@ -235,10 +237,9 @@ impl<I: Iterator<Item=u8>> DictDecoder<I> {
         return decoder;
     }
 
-    fn decode(&self, symbol: Symbol) -> &Vec<u8> {
+    fn decode(&self, symbol: Symbol) -> Option<&Vec<u8>> {
         self.mapping
             .get(&symbol)
-            .unwrap()
     }
 
     fn next_symbol(&mut self) -> Option<Symbol> {
-- 
2.43.0


From cb1613fee6fb447710e5f609f3f0c53b5f28397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 18/25] hook: let an external monitor run the entry point of
 the binary

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6cc1dd2..aeb3e22 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,9 @@ include!("main.rs");
 
 /// The modules of the binary, as seen by an external monitor.
 pub mod verif {
+    /// The entry point of the binary.
+    pub fn main() { crate::main() }
+
     pub mod bench { pub use crate::bench::*; }
     pub mod bit { pub use crate::bit::*; }
     pub mod codec { pub use crate::codec::*; }
-- 
2.43.0


From 9540e86e634478a812e94e095e25bf54c331426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 19/25] fix: clustering could still panic when its empty
 clusters attracted no point

The random centroid of an empty cluster is never seen by the clusters that
dropped it from their neighbour list, so trying again was sometimes useless.
Points are now moved into the empty clusters when too many are left.
---
 src/kmeans.rs | 54 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 2416aba..1256461 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -24,26 +24,21 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
-    // Empty clusters get a random centroid, in the hope that it attracts some points
-    // during the next assignment phase
-    // If too many are left when the assignment is stable, give them another chance
-    let mut extra_chances = MAX_EXTRA_CHANCES;
-
     let mut i = 0;
     while changed_assignment {
         changed_assignment = assign_points(&mut clusters);
+
+        // Empty clusters get a random centroid, in the hope that it attracts some points
+        // during the next assignment phase
+        // If too many of them didn't attract any, they get some points by force
+        if !changed_assignment && !enough_active_clusters(&clusters, nclusters) {
+            changed_assignment = fill_empty_clusters(&mut clusters);
+        }
+
         // WARNING: always compute the centroids: the caller can use them
         update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
         i += 1;
-
-        if !changed_assignment
-            && extra_chances > 0
-            && !enough_active_clusters(&clusters, nclusters)
-        {
-            extra_chances -= 1;
-            changed_assignment = true;
-        }
     }
     println!("#iterations: {}", i);
 
@@ -53,8 +48,6 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     return clusters;
 }
 
-const MAX_EXTRA_CHANCES: usize = 1000;
-
 fn active_cluster_count<T>(clusters: &Clusters<T>) -> usize {
     clusters.assignment
         .iter()
@@ -81,6 +74,37 @@ fn check_enough_active_clusters<T>(clusters: &Clusters<T>, requested_nclusters:
         requested_nclusters, active_cluster_count(clusters), min_cluster_count(clusters, requested_nclusters));
 }
 
+// Move a point into each empty cluster, from a cluster where it isn't the centroid
+// Note: this always decreases the total distance to the centroids
+// Returns true if some points changed assignment, false otherwise
+fn fill_empty_clusters<T: Point>(clusters: &mut Clusters<T>) -> bool {
+    let nclusters = clusters.len();
+    let mut some_change = false;
+    let mut donor = 0;
+    for i in 0..nclusters {
+        if !clusters.assignment[i].is_empty() {
+            continue;
+        }
+
+        let mut moved_point = None;
+        while moved_point.is_none() && donor < nclusters {
+            let centroid = &clusters.centroids[donor];
+            let candidates = &mut clusters.assignment[donor];
+            let away = candidates.iter().position(|x| centroid.dist(x) > 0.0);
+            match away {
+                Some(j) if candidates.len() > 1 => moved_point = Some(candidates.swap_remove(j)),
+                _                               => donor += 1,
+            }
+        }
+
+        if let Some(x) = moved_point {
+            clusters.assignment[i].push(x);
+            some_change = true;
+        }
+    }
+    some_change
+}
+
 type Assignment<T> = Vec<Vec<T>>;
 
 fn init_assignment<T: Point>(mut points: Vec<T>, nclusters: usize) -> Assignment<T> {
-- 
2.43.0


From b4af674614ba5001689837937d2d6d81ad742039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:25 +0000
Subject: [PATCH 20/25] fix: a file name that isn't valid UTF-8 aborted the run

---
 src/bench.rs |  2 +-
 src/main.rs  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index 3e04c59..b902cc9 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -74,7 +74,7 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
                 *wrote_header = true;
             }
 
-            let file_name = p.to_str().unwrap_or("???");
+            let file_name = p.to_string_lossy();
             csv.serialize((file_name, compressed_size, compression_ratio * 100.0, error))
                 .map_err(|e| format!("{:?}", e))?;
             Ok(())
diff --git a/src/main.rs b/src/main.rs
index 3d47e04..89f0a80 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ mod zip;
 
 use codec::AnyCodec;
 use image::{Pixel, Rgba};
-use std::{path::{Path, PathBuf}, str::FromStr};
+use std::{ffi::OsString, path::{Path, PathBuf}, str::FromStr};
 
 fn main() {
     try_special()
@@ -31,7 +31,7 @@ fn try_special() -> Result<(), Err> {
         "hilbert" => {
             file_paths
                 .for_each(|img_path| {
-                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &str, meth_name: &str) {
+                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &OsString, meth_name: &str) {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
@@ -71,11 +71,13 @@ fn try_bench() -> Result<(), Err> {
 
 type Err = String;
 
-fn separate_args() -> Result<(String, impl Iterator<Item=String>), Err> {
+fn separate_args() -> Result<(String, impl Iterator<Item=OsString>), Err> {
     // Note: Bash performs '*' expansion, so we always get a list here
-    let mut args = std::env::args().skip(1);
+    // Note: file names don't have to be valid Unicode
+    let mut args = std::env::args_os().skip(1);
 
     let command = args.next()
+                    .and_then(|arg| arg.into_string().ok())
                     .ok_or_else(usage)?;
 
     Ok((command, args))
-- 
2.43.0


From d8d9c6458a117cd254f526735973d5dc151d6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 21/25] fix: write errors at the end of a hilbert dump were
 ignored

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 89f0a80..74c2cd4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -38,6 +38,8 @@ fn try_special() -> Result<(), Err> {
                         csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
+                        // Note: errors are ignored when the writer is dropped
+                        csv.flush().unwrap();
                     }
 
                     let img = image::open(&img_path).unwrap();
-- 
2.43.0


From d439e8cc062eb83e22b22b9afc3279fdb86d1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:26 +0000
Subject: [PATCH 22/25] fix: reconstructions with the same file name could be
 mixed, and write errors ignored

---
 src/bench.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bench.rs b/src/bench.rs
index b902cc9..e3b6a76 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -54,8 +54,15 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             if error != 0.0 {
                 // Write the incorrect image to file
                 let path = crate::under_output(&p, "png");
-                decoded.save(&path)
+                let mut png = io::Cursor::new(Vec::new());
+                decoded.write_to(&mut png, image::ImageOutputFormat::Png)
                         .map_err(|e| format!("{:?}", e))?;
+                {
+                    // Note: several images can have the same file name, don't mix their data
+                    let _lock_guard = writer_state.write().unwrap();
+                    fs::write(&path, png.into_inner())
+                            .map_err(|e| format!("{:?}", e))?;
+                }
                 eprintln!("Saved to {}", path.display());
 
                 if codec.is_lossless() {
-- 
2.43.0


From 05aee651db38ca539ac96c4b6acc8388cffb57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 23/25] fix: a malformed color made a small zip(dict) stream
 expand until memory ran out

---
 src/ser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index a58f1b7..aa22d21 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -215,8 +215,14 @@ impl<T: Serialize> Serialize for image::Rgb<T> {
 
 impl<T:Deserialize> Deserialize for image::Rgb<T> {
     fn deserialize<I: Iterator<Item = u8>>(stream: &mut I) -> Option<Self> {
-        let vec: Vec<T> = Deserialize::deserialize(stream)?;
-        let arr: [T; 3] = vec.try_into().ok()?;
+        let len: usize = Deserialize::deserialize(stream)?;
+        if len != 3 {
+            // Malformed stream
+            // Note: don't read that many bytes just to find out that they aren't a color,
+            //       a small compressed stream can expand into more than fits in memory
+            return None;
+        }
+        let arr: [T; 3] = Deserialize::deserialize(stream)?;
         Some(arr.into())
     }
 }
-- 
2.43.0


From 198f2dd0798c47817fd4d290b35f00c68cf1eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 24/25] fix: a CSV left incomplete by a failed write was passed
 off as success

The error was printed as if it concerned a single row, and the writer sent the
same data again with the next row, so the file could be garbled and the program
still exit successfully.
---
 src/bench.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index e3b6a76..88fe145 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -19,7 +19,8 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
 {
     let wrote_header = false;
     let csv = csv_writer(codec)?;
-    let writer_state = RwLock::new((wrote_header, csv));
+    let unfinished_rows = 0;
+    let writer_state = RwLock::new((wrote_header, csv, unfinished_rows));
 
     paths
         .map(|p| p.into())
@@ -74,7 +75,9 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             let lock_guard = lock_guard.deref_mut();
             let wrote_header: &mut bool = &mut lock_guard.0;
             let csv: &mut _ = &mut lock_guard.1;
+            let unfinished_rows: &mut usize = &mut lock_guard.2;
 
+            *unfinished_rows += 1;
             if !*wrote_header {
                 csv.write_record(&["name", "compressed_size", "compression_ratio", "error"])
                     .map_err(|e| format!("{:?}", e))?;
@@ -84,12 +87,17 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             let file_name = p.to_string_lossy();
             csv.serialize((file_name, compressed_size, compression_ratio * 100.0, error))
                 .map_err(|e| format!("{:?}", e))?;
+            *unfinished_rows -= 1;
             Ok(())
         })
         .for_each(|r| print_err(r));
 
-    let (_wrote_header, mut csv) = writer_state.into_inner().unwrap();
+    let (_wrote_header, mut csv, unfinished_rows) = writer_state.into_inner().unwrap();
     csv.flush()?;
+    if unfinished_rows > 0 {
+        // Note: later writes may have succeeded, but they can't repair the file
+        return Err(io::Error::new(io::ErrorKind::Other, "The CSV file is incomplete"));
+    }
     Ok(())
 }
 
-- 
2.43.0


From a513595aead229432fffe7c584361feffb1373e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:49 +0000
Subject: [PATCH 25/25] fix: a malformed image whose decoder panics must not
 end the benchmark

---
 src/bench.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index 88fe145..8fc6b99 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -1,7 +1,8 @@
 use std::fs;
 use std::io;
 use std::fmt::Debug;
-use std::path::PathBuf;
+use std::panic;
+use std::path::{Path, PathBuf};
 use image::GenericImageView;
 use bytesize::ByteSize;
 use rayon::prelude::*;
@@ -28,8 +29,7 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
         .into_par_iter()
         .map(|p| {
             println!("Processing {:?}...", p);
-            let img = image::open(&p)
-                        .map_err(|e| format!("{:?}", e))?;
+            let img = open_image(&p)?;
 
             if img.width() == 0 || img.height() == 0 {
                 return Err(format!("There are no pixels to compress in {:?}", p));
@@ -101,6 +101,14 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
     Ok(())
 }
 
+fn open_image(path: &Path) -> Result<Img, String> {
+    // Note: the image decoders can panic on malformed files,
+    // this must not prevent us from processing the others
+    panic::catch_unwind(|| image::open(path))
+        .map_err(|_| format!("The image decoder crashed on {:?}", path))?
+        .map_err(|e| format!("{:?}", e))
+}
+
 fn csv_writer<T: Codec>(codec: &T) -> Result<csv::Writer<fs::File>, csv::Error> {
     let mut csv_filename = String::from("output/");
     csv_filename.push_str(&codec.name());
-- 
2.43.0

