From bc2fb3cd5e9522e51879f3895260b62212e73748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 01/77] fix: edge iterators of a SIMD partition must not step
 in front of an empty slice

---
 vector/src/simd_extensions/simd_partition.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vector/src/simd_extensions/simd_partition.rs b/vector/src/simd_extensions/simd_partition.rs
index a28b391..7298d63 100644
--- a/vector/src/simd_extensions/simd_partition.rs
+++ b/vector/src/simd_extensions/simd_partition.rs
@@ -30,9 +30,9 @@ impl<'a, T> EdgeIteratorMut<'a, T> {
         unsafe {
             EdgeIteratorMut {
                 pos: start,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -45,11 +45,11 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<&'a mut T> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
@@ -81,10 +81,10 @@ impl<'a, T> IndexedEdgeIteratorMut<'a, T> {
             IndexedEdgeIteratorMut {
                 pos: start,
                 idx: 0,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right_idx: len - right,
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -97,12 +97,12 @@ impl<'a, T> Iterator for IndexedEdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<(isize, &'a mut T)> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
                 self.idx = self.right_idx;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
-- 
2.43.0


From 6ae98b579ecb71b5b3d9215688d861e5d9a8aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 02/77] fix: align the SIMD center of a slice to the next
 register boundary and keep complex numbers together

---
 vector/src/simd_extensions/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..5a1c17a 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -194,10 +194,12 @@ macro_rules! simd_generic_impl {
             fn calc_data_alignment_reqs(array: &[$data_type]) -> SimdPartition<$data_type> {
                 let data_length = array.len();
                 let addr = array.as_ptr();
-                let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
+                let size = mem::size_of::<Self>();
+                let left = (size - get_alignment_offset(addr as usize, size)) % size;
                 assert!(left % mem::size_of::<$data_type>() == 0);
                 let left = left / mem::size_of::<$data_type>();
-                if left + Self::LEN > data_length {
+                // An odd offset would tear complex numbers apart
+                if left % 2 != 0 || left + Self::LEN > data_length {
                     SimdPartition::new_all_scalar(data_length)
                 } else {
                     let right = (data_length - left) % Self::LEN;
-- 
2.43.0


From fd8029b642b17d960e6f5edf7a5dd92648c00cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 03/77] fix: spare storage behind a complex vector must not
 take part in operations

---
 vector/src/vector_types/complex/complex_to_real.rs     | 2 +-
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 vector/src/vector_types/general/diff_sum.rs            | 4 ++--
 vector/src/vector_types/general/dot_products.rs        | 4 ++--
 vector/src/vector_types/general/elementary.rs          | 2 +-
 vector/src/vector_types/general/statistics.rs          | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..66621b7 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..dff837c 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -372,7 +372,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..c3a313e 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -70,7 +70,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -91,7 +91,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..13e7730 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -153,7 +153,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
@@ -251,7 +251,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..0342ddf 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -444,7 +444,7 @@ macro_rules! impl_binary_complex_vector_operation {
                         }
                 });
 
-                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(array)).zip(partition.cedge_iter(array_to_complex(other))) {
+                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(&mut array[0..data_length])).zip(partition.cedge_iter(array_to_complex(other))) {
                     *n = n.$scal_op(*o);
                 }
             }
diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..958f9bc 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -525,7 +525,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x)
     }
 
@@ -556,7 +556,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x * *x)
     }
 }
-- 
2.43.0


From 5e23b012a0bae8cd1a1a18a269d8303f8bfce8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 04/77] fix: dot products must refuse arguments of a different
 size or type

---
 .../src/vector_types/general/dot_products.rs  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 13e7730..dbdf002 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,6 +78,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -129,6 +137,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -177,6 +189,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -227,6 +247,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
-- 
2.43.0


From 29e9b3298e6ec0505fa640c343cc1e9f985a294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 05/77] fix: merging statistics must consider the minimum of
 every part

---
 vector/src/vector_types/general/statistics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 958f9bc..bcc8f5d 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -227,7 +227,8 @@ where
             if stat.max > max {
                 max = stat.max;
                 max_index = stat.max_index;
-            } else if stat.min < min {
+            }
+            if stat.min < min {
                 min = stat.min;
                 min_index = stat.min_index;
             }
@@ -316,7 +317,8 @@ where
                 max = stat.max;
                 max_norm = max.norm();
                 max_index = stat.max_index;
-            } else if stat.min.norm() < min_norm {
+            }
+            if stat.min.norm() < min_norm {
                 min = stat.min;
                 min_norm = min.norm();
                 min_index = stat.min_index;
-- 
2.43.0


From e4f41a16c14029d231a8347c0af9c015c1b739ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 06/77] fix: split statistics must not panic with more than 16
 chunks

---
 vector/src/vector_types/general/statistics.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index bcc8f5d..5463dac 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -3,6 +3,7 @@ use super::super::{
     ToSlice, Vector,
 };
 use crate::array_to_complex;
+use crate::inline_vector::InlineVector;
 use crate::multicore_support::*;
 use crate::numbers::*;
 use crate::simd_extensions::*;
@@ -157,12 +158,9 @@ macro_rules! impl_common_stats {
             let len = stats[0].len();
             let mut results = StatsVec::new();
             for i in 0..len {
-                let mut reordered = StatsVec::new();
-                for s in stats.iter() {
-                    reordered.push(s[i]);
-                }
-
-                let merged = Statistics::merge(&reordered);
+                // There may be more parts than a `StatsVec` can hold
+                let reordered: InlineVector<Self> = stats.iter().map(|s| s[i]).collect();
+                let merged = Statistics::merge(&reordered[..]);
                 results.push(merged);
             }
             results
-- 
2.43.0


From e4901d577c7e8f243d5d3b4f7dbb1fd35d7f223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 07/77] fix: an inline vector must continue on the heap when
 its stack space is used up

---
 vector/src/inline_vector/dynamic.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vector/src/inline_vector/dynamic.rs b/vector/src/inline_vector/dynamic.rs
index 12d4119..9784f5e 100644
--- a/vector/src/inline_vector/dynamic.rs
+++ b/vector/src/inline_vector/dynamic.rs
@@ -69,12 +69,20 @@ impl<T> InlineVector<T> {
     }
 
     pub fn push(&mut self, elem: T) {
-        match *self {
+        let full = match *self {
+            InlineVector::Inline(ref mut v) if v.is_full() => v.drain(..).collect::<Vec<T>>(),
             InlineVector::Inline(ref mut v) => {
                 v.push(elem);
+                return;
+            }
+            InlineVector::Dynamic(ref mut v) => {
+                v.push(elem);
+                return;
             }
-            InlineVector::Dynamic(ref mut v) => v.push(elem),
         };
+        // The stack space is used up and thus we continue on the heap
+        *self = InlineVector::Dynamic(full);
+        self.push(elem);
     }
 
     pub fn pop(&mut self) -> Option<T> {
-- 
2.43.0


From 6ea44782cf03fad614cec5a09964cabd4f86ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 08/77] fix: split statistics need one compensation term per
 column

---
 .../src/vector_types/general/precise_stats.rs | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..1751b0d 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,13 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                // Every column has its own compensation
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let k = j % len;
+                    let stats = &mut results[k];
+                    stats.add_prec(*num, j / len, &mut sumc[k], &mut rmsc[k]);
                     j += 1;
                 }
 
@@ -507,11 +509,13 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                // Every column has its own compensation
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let k = j % len;
+                    let stat = &mut results[k];
+                    stat.add_prec(*num, j / len, &mut sumc[k], &mut rmsc[k]);
                     j += 1;
                 }
 
-- 
2.43.0


From 5182e5954eeea597a8b6bbc07ccf8293a8a1de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 09/77] fix: swapping the halves of a single point backwards
 must not panic

---
 vector/src/vector_types/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..6b2d125 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -180,6 +180,8 @@ where
         }
     } else {
         let step = if forward { len / 2 } else { len / 2 + 1 };
+        // Required for vectors with a single element
+        let step = step % len;
         let mut temp = data[0];
         let mut pos = step;
         for _ in 0..len {
-- 
2.43.0


From 36ff378b59739f3ecddec96dbbe7188e642536a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 10/77] fix: a transform must set the sampling distance of the
 other domain

---
 vector/src/vector_types/time_freq/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..0a050d7 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -38,12 +38,18 @@ where
     B: for<'a> Buffer<'a, S, T>,
 {
     let len = vec.len();
+    let points = len / 2; // By two since vector is always complex
+    if points == 0 {
+        return;
+    }
+
+    // The points of a spectrum are `1 / (points * delta)` apart
+    vec.delta = T::one() / (T::from(points).unwrap() * vec.delta);
     let has_no_gpu_support = !T::has_gpu_support();
     let has_small_size = len < 10000;
     let is_unsupported_gpu_fft_len = !T::is_supported_fft_len(true, len);
     let use_rust_fft = has_no_gpu_support || has_small_size || is_unsupported_gpu_fft_len;
     if use_rust_fft {
-        let points = len / 2; // By two since vector is always complex
         let fft = {
             let mut planner = FftPlanner::new();
             planner.plan_fft(points, direction)
@@ -51,8 +57,6 @@ where
         let mut temp = buffer.borrow(2 * fft.get_inplace_scratch_len());  // By two since the FFT is done with complex numbers
         let scratch = temp.to_slice_mut();
         let signal = vec.data.to_slice_mut();
-        let rbw = (T::from(points).unwrap()) * vec.delta;
-        vec.delta = rbw;
         let signal = array_to_complex_mut(&mut signal[0..len]);
         let scratch  = array_to_complex_mut(scratch);
         fft.process_with_scratch(signal, scratch);
-- 
2.43.0


From 7160bb76e9f14379655bff182ee800801edb7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 11/77] fix: vectors are in time domain after an inverse
 transform

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..f76ae71 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
@@ -215,7 +215,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
-- 
2.43.0


From d2b88802d9c090f3306e7f902a841a1bf26e59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 12/77] fix: symmetric transforms of dynamically typed,
 windowed and scaled signals

---
 vector/src/vector_types/time_freq/freq.rs     |  6 +++++-
 .../vector_types/time_freq/freq_to_time.rs    | 21 ++++++++++++-------
 .../vector_types/time_freq/time_to_freq.rs    | 21 ++++---------------
 3 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..cfe5c89 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,12 +53,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
 
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         let step = 2;
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index f76ae71..cc3a05f 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -201,7 +201,11 @@ where
             ));
         }
 
-        if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
+        // A transform leaves a rounding error behind which depends on the size of the data
+        let max = self.data(..).iter().fold(T::zero(), |a, b| a.max(b.abs()));
+        let limit = max * T::epsilon() * T::from(self.points()).unwrap();
+        let limit = limit.max(T::from(1e-10).unwrap());
+        if self.points() > 0 && self.data(1).abs() > limit {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
@@ -217,6 +221,7 @@ where
 
         self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
@@ -224,12 +229,14 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        let points = self.points();
-        self.scale(Complex::<T>::new(
-            T::one() / T::from(points).unwrap(),
-            T::zero(),
-        ));
-        self.ifft_shift();
+        // The number of points of the signal to which the half spectrum belongs
+        let points = 2 * self.points();
+        if points > 0 {
+            self.scale(Complex::<T>::new(
+                T::one() / T::from(points - 1).unwrap(),
+                T::zero(),
+            ));
+        }
         self.plain_sifft(buffer)
     }
 
diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..205c21d 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -177,10 +177,9 @@ where
 
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
-        let len = $points;
-        let len = len / 2 + 1;
+        // The half spectrum of an odd number of points: `points / 2 + 1` complex numbers
         $self_
-            .resize(len)
+            .resize($points + 1)
             .expect("Shrinking a vector should always succeed");
     };
 }
@@ -219,8 +218,6 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
@@ -251,12 +248,7 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
-        let points = self.points();
-        let mut result = self.fft(buffer);
-        unmirror!(result, points);
-        Ok(result)
+        self.plain_sfft(buffer)
     }
 
     fn windowed_sfft<B>(
@@ -287,12 +279,7 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
-        let points = self.points();
-        let mut result = self.fft(buffer);
-        unmirror!(result, points);
-        Ok(result)
+        self.plain_sfft(buffer)
     }
 }
-- 
2.43.0


From b497d44f3693dc7f968df50db7e638b7e3b0ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 13/77] fix: a vector must not become longer than a storage
 which can't grow

---
 .../vector_types/general/data_reorganization.rs   | 11 ++++++++---
 vector/src/vector_types/mod.rs                    | 11 +++++++++++
 vector/src/vector_types/support_core.rs           |  7 ++++++-
 vector/src/vector_types/time_freq/freq.rs         |  5 +++--
 vector/src/vector_types/time_freq/freq_to_time.rs |  9 +++++++++
 vector/src/vector_types/time_freq/time_to_freq.rs | 15 ++++++++++++++-
 vector/src/vector_types/vec_impl_and_indexers.rs  |  3 +--
 7 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index dff837c..d2245b2 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -260,7 +260,10 @@ macro_rules! zero_interleave {
         let step = $step as usize;
         let old_len = $self_.len();
         let new_len = step * old_len;
-        $self_.valid_len = new_len;
+        if new_len == 0 {
+            return;
+        }
+
         let mut target = $buffer.borrow(new_len);
         {
             let target = target.to_slice_mut();
@@ -297,6 +300,9 @@ macro_rules! zero_interleave {
         }
 
         target.trade(&mut $self_.data);
+        if $self_.set_traded_len(new_len).is_err() {
+            $self_.mark_vector_as_invalid();
+        }
     }};
 }
 
@@ -419,7 +425,6 @@ where
         {
             let data = self.data.to_slice();
             let target = target.to_slice_mut();
-            self.valid_len = len;
             match option {
                 PaddingOption::End => {
                     // Zero target
@@ -459,7 +464,7 @@ where
         }
 
         target.trade(&mut self.data);
-        Ok(())
+        self.set_traded_len(len)
     }
 
     fn zero_interleave_b<B>(&mut self, buffer: &mut B, factor: u32)
diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 6b2d125..dbe2dca 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -230,6 +230,17 @@ where
         self.delta = T::nan();
     }
 
+    /// Sets the length after a buffer has been traded for the storage. Not every storage is
+    /// able to grow, and if it isn't then the vector stays as it was.
+    fn set_traded_len(&mut self, len: usize) -> VoidResult {
+        if len > self.data.len() {
+            return Err(ErrorReason::TypeCanNotResize);
+        }
+
+        self.valid_len = len;
+        Ok(())
+    }
+
     /// Executes a real function.
     #[inline]
     fn pure_real_operation<A, F>(&mut self, op: F, argument: A, complexity: Complexity)
diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..a5f4dbd 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -47,7 +47,12 @@ impl<'a, T: RealNumber + 'a> ToSliceMut<T> for FixedLenBufferBurrow<'a, T>  {
 
 impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for FixedLenBufferBurrow<'a, T> {
     fn trade(self, storage: &mut S) {
-        let len = std::cmp::min(storage.len(), self.data.len());
+        let len = self.data.len();
+        if storage.len() < len && storage.try_resize(len).is_err() {
+            // The storage keeps its contents, the vector has to deal with the missing space
+            return;
+        }
+
         let storage = storage.to_slice_mut();
         storage[0..len]
             .to_slice_mut()
diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index cfe5c89..48fe615 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -79,11 +79,12 @@ where
                 i -= 2;
                 j += 2;
             }
-
-            self.valid_len = temp_len;
         }
 
         temp.trade(&mut self.data);
+        if self.set_traded_len(temp_len).is_err() {
+            self.mark_vector_as_invalid();
+        }
     }
 
     fn fft_shift(&mut self) {
diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index cc3a05f..926e8db 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -215,7 +215,16 @@ where
             ));
         }
 
+        let is_empty = self.is_empty();
         self.mirror(buffer);
+        if self.is_empty() && !is_empty {
+            self.domain.to_time();
+            self.number_space.to_real();
+            return Err((
+                ErrorReason::TypeCanNotResize,
+                Self::RealTimeResult::rededicate_from_force(self),
+            ));
+        }
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 205c21d..6222943 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -219,7 +219,20 @@ where
         }
 
         let points = self.points();
-        let mut result = self.plain_fft(buffer);
+        self.zero_interleave_b(buffer, 2);
+        self.number_space.to_complex();
+        if self.is_empty() {
+            self.domain.to_freq();
+            return Err((
+                ErrorReason::TypeCanNotResize,
+                Self::FreqResult::rededicate_from_force(self),
+            ));
+        }
+
+        fft(&mut self, buffer, FftDirection::Forward);
+
+        self.domain.to_freq();
+        let mut result = Self::FreqResult::rededicate_from_force(self);
         unmirror!(result, points);
         Ok(result)
     }
diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index 05e880a..4aea8d9 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -242,8 +242,7 @@ where
                 let mut temp = buffer.borrow(len);
                 temp.to_slice_mut()[0..orig_len].clone_from_slice(self.data(..));
                 temp.trade(&mut self.data);
-                self.valid_len = len;
-                Ok(())
+                self.set_traded_len(len)
             }
         }
     }
-- 
2.43.0


From 64e1fe52dd85f531f427d8f8751e131f7a8e29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 14/77] fix: padding must set all new points to zero and agree
 between both variants

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index d2245b2..babf18d 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -332,7 +332,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
@@ -458,7 +458,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From 75ed687162565da5cbad5642238e4aba356c0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 15/77] fix: the difference of an empty vector is empty

---
 vector/src/vector_types/general/diff_sum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index c3a313e..c2b3bec 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,6 +66,10 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
-- 
2.43.0


From 453b40fb1e21bd19cd9695578fdcd5d36d912b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 16/77] fix: splitting and merging must only consider valid
 elements

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index babf18d..99d1d47 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -506,7 +506,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
@@ -550,7 +550,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From 1bdb2677ab194172b5b5ce268133e0daff134892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 17/77] fix: complex vectors must be split by points

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 99d1d47..144813f 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -489,7 +489,7 @@ where
     fn split_into(&self, targets: &mut [&mut Self]) -> VoidResult {
         let num_targets = targets.len();
         let data_length = self.len();
-        if num_targets == 0 || data_length % num_targets != 0 {
+        if num_targets == 0 || self.points() % num_targets != 0 {
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
-- 
2.43.0


From 3d6359057e464046d7f45b7a124cbbc64af2bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 18/77] fix: symmetric pairs of chunks must mirror each other
 for every length

---
 vector/src/multicore_support/no_threading.rs | 19 ++----
 vector/src/multicore_support/threading.rs    | 71 +++++++++-----------
 2 files changed, 38 insertions(+), 52 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..d076b7e 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -5,7 +5,6 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use std::iter::Iterator;
 use std::ops::Range;
-use std::slice::ChunksMut;
 
 /// Empty struct since multicore support is disabled
 #[derive(Debug, Copy, Clone)]
@@ -142,10 +141,13 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
+        if array_length == 0 {
+            return;
+        }
+
+        let half = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (mut chunks1, mut chunks2) = array.split_at_mut(half);
         let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
         function(
             &mut chunks1,
             &Range {
@@ -258,15 +260,6 @@ impl Chunk {
         );
     }
 
-    #[inline]
-    fn partition_mut<T>(array: &mut [T], step_size: usize, number_of_chunks: usize) -> ChunksMut<T>
-    where
-        T: Copy + Clone + Send,
-    {
-        let chunk_size = Chunk::calc_chunk_size(array.len(), step_size, number_of_chunks);
-        array.chunks_mut(chunk_size)
-    }
-
     #[inline]
     fn calc_chunk_size(array_length: usize, step_size: usize, number_of_chunks: usize) -> usize {
         let mut chunk_size = (array_length as f64 / number_of_chunks as f64).ceil() as usize;
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..85ba621 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -562,52 +562,45 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let number_of_chunks =
-            2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
-        if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+        if array_length == 0 {
+            return;
+        }
+
+        let number_of_pairs =
+            Chunk::determine_number_of_chunks(array_length, complexity, settings);
+        // Both halves are partitioned starting from the outer edges so that the chunks
+        // of a pair always mirror each other. The first half gets the center element
+        // if there is one.
+        let half = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let chunk_size = Chunk::calc_chunk_size(half, step_size, number_of_pairs.max(1));
+        let (first, second) = array.split_at_mut(half);
+        let no_counterpart: &mut [T] = &mut [];
+        let pairs = first.chunks_mut(chunk_size).zip(
+            second
+                .rchunks_mut(chunk_size)
+                .chain(std::iter::once(no_counterpart)),
+        );
+        let mut start = 0;
+        let pairs = pairs.map(|(chunk1, chunk2)| {
+            let range1 = start..start + chunk1.len();
+            let end = array_length - start;
+            let range2 = end - chunk2.len()..end;
+            start = range1.end;
+            (chunk1, range1, chunk2, range2)
+        });
+        if number_of_pairs > 1 {
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                for (mut chunk1, range1, mut chunk2, range2) in pairs {
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
-            function(
-                &mut chunks1,
-                &Range {
-                    start: 0,
-                    end: len1,
-                },
-                &mut chunks2,
-                &Range {
-                    start: len1,
-                    end: array_length,
-                },
-                arguments,
-            );
+            for (mut chunk1, range1, mut chunk2, range2) in pairs {
+                function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
+            }
         }
     }
 
-- 
2.43.0


From aeef4b8da3c5d76be105b0154c8071126f9a2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 19/77] fix: an empty array must not be split into chunks

---
 vector/src/multicore_support/threading.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 85ba621..2415719 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -318,8 +318,8 @@ impl Chunk {
         complexity: Complexity,
         settings: &MultiCoreSettings,
     ) -> usize {
-        if settings.core_limit == 1 {
-            settings.core_limit
+        if settings.core_limit <= 1 || array_length == 0 {
+            1
         } else if complexity == Complexity::Small {
             // Recent tests seem to indicate that even for large arrays it never makes
             // sense to spawn threads for trivial instructions. A single CPU core with SIMD
-- 
2.43.0


From e7241959d61beceae303c99793ede2dd2838f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 20/77] fix: mapping a vector must only consider valid elements

---
 vector/src/vector_types/general/mapping.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..a452b15 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From e207579fde47547a414fad4f3e012f07c9b7b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 21/77] fix: elementary operations must refuse an empty smaller
 argument

---
 vector/src/vector_types/general/elementary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index 0342ddf..afc9526 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.len() == 0 || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.len() == 0 || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.len() == 0 || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.len() == 0 || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From afe316cdc5730e8973ed47704986611d480e9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 22/77] fix: getters of complex vectors need one element per
 point in the destination

---
 .../src/vector_types/complex/complex_to_real.rs   | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 66621b7..b52ee45 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -608,9 +608,6 @@ where
 {
     fn get_real(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.re,
@@ -621,9 +618,6 @@ where
 
     fn get_imag(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.im,
@@ -634,9 +628,6 @@ where
 
     fn get_magnitude(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs(),
@@ -647,9 +638,6 @@ where
 
     fn get_magnitude_squared(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs_squared(),
@@ -660,9 +648,6 @@ where
 
     fn get_phase(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.arg(),
-- 
2.43.0


From 1a28a9b913ffca754df4c3a2812349c79ba81799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 23/77] fix: getters must set the delta of both destinations

---
 vector/src/vector_types/complex/complex_to_real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index b52ee45..0a8a001 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -663,6 +663,8 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         imag.resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        real.set_delta(self.delta);
+        imag.set_delta(self.delta);
         let real = real.data_mut(0..data_length / 2);
         let imag = imag.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
@@ -683,6 +685,8 @@ where
         phase
             .resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        mag.set_delta(self.delta);
+        phase.set_delta(self.delta);
         let mag = mag.data_mut(0..data_length / 2);
         let phase = phase.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
-- 
2.43.0


From 790c8b43ba90736613dd0f916b59ea47832fdbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 24/77] fix: setters of complex vectors must check number
 spaces and keep the storage

---
 .../vector_types/complex/complex_to_real.rs   | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 0a8a001..56247c2 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -1,7 +1,7 @@
 use super::super::{
     Buffer, ComplexNumberSpace, Domain, DspVec, ErrorReason, FloatIndex, FloatIndexMut,
     GetMetaData, MetaData, NumberSpace, PosEq, RealNumberSpace, RededicateForceOps, Resize,
-    ToRealResult, ToSlice, ToSliceMut, Vector, VoidResult,
+    ResizeOps, ToRealResult, ToSlice, ToSliceMut, Vector, VoidResult,
 };
 use crate::array_to_complex;
 use crate::multicore_support::*;
@@ -701,6 +701,21 @@ where
     }
 }
 
+macro_rules! assert_setter_args {
+    ($self_: ident, $first: ident, $second: ident) => {
+        if !$self_.is_complex() {
+            $self_.mark_vector_as_invalid();
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+        if $first.is_complex() || $second.is_complex() {
+            return Err(ErrorReason::InputMustBeReal);
+        }
+        if $first.len() != $second.len() {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+    };
+}
+
 impl<S, T, N, NR, D, O, DO> ComplexToRealSetterOps<O, T, NR, DO> for DspVec<S, T, N, D>
 where
     DspVec<S, T, N, D>: ToRealResult,
@@ -714,12 +729,9 @@ where
 {
     fn set_real_imag(&mut self, real: &O, imag: &O) -> VoidResult {
         {
-            if real.len() != imag.len() {
-                return Err(ErrorReason::InvalidArgumentLength);
-            }
+            assert_setter_args!(self, real, imag);
             let data_length = real.len() + imag.len();
-            self.data.resize(data_length);
-            self.valid_len = data_length;
+            self.resize(data_length)?;
             let data = self.data.to_slice_mut();
             let real = real.data(0..real.len());
             let imag = imag.data(0..imag.len());
@@ -737,12 +749,9 @@ where
 
     fn set_mag_phase(&mut self, mag: &O, phase: &O) -> VoidResult {
         {
-            if mag.len() != phase.len() {
-                return Err(ErrorReason::InvalidArgumentLength);
-            }
+            assert_setter_args!(self, mag, phase);
             let data_length = mag.len() + phase.len();
-            self.data.resize(data_length);
-            self.valid_len = data_length;
+            self.resize(data_length)?;
             let data = self.data.to_slice_mut();
             let mag = mag.data(0..mag.len());
             let phase = phase.data(0..phase.len());
-- 
2.43.0


From 406b9afe61a3c25e31f588dd2d7236e3ac3d00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 25/77] fix: correlate must accept arguments of the same length

---
 vector/src/vector_types/time_freq/correlation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..d0000b8 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -147,7 +147,9 @@ where
         }
 
         let points = other.points();
-        self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        if points != self.points() {
+            self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        }
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
-- 
2.43.0


From 33e44a97edac10a90a32df26680008b4e00f03a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 26/77] fix: a failed conversion must not leave half a complex
 number behind

---
 vector/src/vector_types/real/real_to_complex.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/real/real_to_complex.rs b/vector/src/vector_types/real/real_to_complex.rs
index 2589d8d..fad4e79 100644
--- a/vector/src/vector_types/real/real_to_complex.rs
+++ b/vector/src/vector_types/real/real_to_complex.rs
@@ -76,10 +76,15 @@ where
         let result = self.zero_interleave(2);
         let domain = self.domain();
         match result {
-            Err(reason) => Err((
-                reason,
-                Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
-            )),
+            Err(reason) => {
+                // The data isn't complex and might not even have a valid length for
+                // a complex vector
+                self.mark_vector_as_invalid();
+                Err((
+                    reason,
+                    Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
+                ))
+            }
             Ok(()) => Ok(Self::ComplexResult::rededicate_with_runtime_data(
                 self, true, domain,
             )),
-- 
2.43.0


From 20b74c917acad5eea7066bc3af863b4a0fe5d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 27/77] fix: lookup tables must keep their own definition of
 delta after a transform and restore it with the inverse

---
 vector/src/conv_types.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 9a60f03..8b2060d 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -302,7 +302,8 @@ macro_rules! add_complex_time_linear_table_impl {
                     vector.set_delta(self.delta);
                     let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
                     let freq = vector.fft(&mut buffer);
-                    let delta = freq.delta();
+                    // The table covers `points * delta` in the other domain
+                    let delta = self.delta * (self.table.len() as $data_type);
                     let freq = freq.datac(..);
                     let is_symmetric = self.is_symmetric;
                     let mut table = InlineVector::with_capacity(freq.len());
@@ -336,7 +337,8 @@ macro_rules! add_real_time_linear_table_impl {
                     let freq = vector.fft(&mut buffer);
                     let freq = freq.magnitude();
                     let is_symmetric = self.is_symmetric;
-                    let delta = freq.delta();
+                    // The table covers `points * delta` in the other domain
+                    let delta = self.delta * (len as $data_type);
                     let freq = freq.data(..);
                     let mut table = InlineVector::with_capacity(freq.len());
                     for n in freq {
@@ -369,7 +371,8 @@ macro_rules! add_complex_frequency_linear_table_impl {
                     vector.set_delta(self.delta);
                     let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
                     let time = vector.ifft(&mut buffer);
-                    let delta = time.delta();
+                    // Inverse of the definition which `fft` uses
+                    let delta = self.delta / (self.table.len() as $data_type);
                     let time = time.datac(..);
                     let is_symmetric = self.is_symmetric;
                     let mut table = InlineVector::with_capacity(time.len());
-- 
2.43.0


From 417615fe4d6603a26088b80a5e322d9be5c41005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 28/77] fix: lookup tables need a large enough buffer for their
 transforms

---
 vector/src/conv_types.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 8b2060d..c22286f 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -8,6 +8,7 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use crate::vector_types::*;
 use num_complex::{Complex32, Complex64};
+use rustfft::{FftDirection, FftPlanner};
 use std::marker::PhantomData;
 use std::ops::*;
 
@@ -123,6 +124,18 @@ macro_rules! define_complex_lookup_table {
 }
 define_complex_lookup_table!(ComplexTimeLinearTableLookup; ComplexFrequencyLinearTableLookup);
 
+/// Returns the length of a buffer which is large enough to transform a table.
+fn fft_buffer_len<T: RealNumber>(points: usize, direction: FftDirection) -> usize {
+    let scratch_len = if points == 0 {
+        0
+    } else {
+        FftPlanner::<T>::new()
+            .plan_fft(points, direction)
+            .get_inplace_scratch_len()
+    };
+    2 * points.max(scratch_len)
+}
+
 /// Linear interpolation between two points.
 fn linear_interpolation_between_bins<T: RealNumber, C>(x: T, round: usize, table: &[C]) -> C
 where
@@ -300,7 +313,8 @@ macro_rules! add_complex_time_linear_table_impl {
                     }
                     let mut vector = interleaved.to_complex_time_vec();
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
+                    let buffer_len = fft_buffer_len::<$data_type>(complex.len(), FftDirection::Forward);
+                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), buffer_len));
                     let freq = vector.fft(&mut buffer);
                     // The table covers `points * delta` in the other domain
                     let delta = self.delta * (self.table.len() as $data_type);
@@ -333,7 +347,8 @@ macro_rules! add_real_time_linear_table_impl {
                     vector.resize(len).expect("shrinking should always succeed");
                     vector.data_mut(0.. len).copy_from_slice(&self.table[..]);
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), 2 * len));
+                    let buffer_len = fft_buffer_len::<$data_type>(len, FftDirection::Forward);
+                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), buffer_len));
                     let freq = vector.fft(&mut buffer);
                     let freq = freq.magnitude();
                     let is_symmetric = self.is_symmetric;
@@ -369,7 +384,8 @@ macro_rules! add_complex_frequency_linear_table_impl {
                     }
                     let mut vector = interleaved.to_complex_freq_vec();
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
+                    let buffer_len = fft_buffer_len::<$data_type>(complex.len(), FftDirection::Inverse);
+                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), buffer_len));
                     let time = vector.ifft(&mut buffer);
                     // Inverse of the definition which `fft` uses
                     let delta = self.delta / (self.table.len() as $data_type);
-- 
2.43.0


From 4c4cfbd1dc24bbb1c271209c2ba0f546d1f0e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 29/77] fix: lookup tables must be zero outside of the table on
 both sides

---
 vector/src/conv_types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index c22286f..790d590 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -179,6 +179,10 @@ macro_rules! add_linear_table_lookup_impl {
                         let center_float = center as $data_type;
                         let x = x / self.delta + center_float;
                         let round_float = x.round();
+                        if round_float < 0.0 {
+                            return $result_type::zero();
+                        }
+
                         let round = round_float as usize;
                         if round >= len {
                             return $result_type::zero();
-- 
2.43.0


From 27602902caf45f1c23948259dd05be75c08eda62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 30/77] fix: a convolution must work for data which can't be
 aligned for SIMD

---
 vector/src/vector_types/time_freq/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 0a050d7..ce8429e 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -576,14 +576,20 @@ where
             let step = if self.is_complex() { 2 } else { 1 };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // Data which can't be aligned has no center
+            let (scalar_start, scalar_end) = if simd.is_empty() {
+                (points, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[scalar_start..points - scalar_end],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = (scalar_len + range.start) as isize;
+                    let mut i = (scalar_start + range.start) as isize;
                     for num in dest_range {
                         let end = (i + conv_len) as usize - scalar_left_points;
                         let shift = end % shifts.len();
@@ -600,7 +606,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_start, scalar_end) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From 72edfdb553b2afc56182c9ab60f12371de42330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 31/77] fix: the block convolution must calculate all remaining
 points at the end

---
 vector/src/vector_types/time_freq/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..d036953 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -338,7 +338,8 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // The blocks cover everything except for less than `fft_len` points at the end
+        let remainder_len = 2 * std::cmp::min(fft_len, x_len); // Times 2 as the points are complex
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From 5d6f37f5edd3de5f01cc0be8d69ec283baa42929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 32/77] fix: the block convolution must only consider the valid
 elements of the impulse response

---
 vector/src/vector_types/time_freq/convolution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index d036953..dfb5f5e 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -362,7 +362,7 @@ where
             let (filter_response_padded, _) = filter_response_padded.getf();
 
             let signal_time = self.data.to_slice_mut();
-            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[..]);
+            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[0..2 * imp_len]);
             let filter_response_padded: &mut [Complex<T>] =
                 array_to_complex_mut(&mut filter_response_padded[0..2 * fft_len]);
             let signal_time: &mut [Complex<T>] = array_to_complex_mut(&mut signal_time[0..2 * x_len]);
-- 
2.43.0


From babb7d4ca42c46dcd81cb60d54c3cb8d9991780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 33/77] fix: sampling a real impulse response for a real vector
 must set every point

---
 vector/src/vector_types/time_freq/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index dfb5f5e..b9ade2e 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -158,11 +158,12 @@ where
             };
 
             let mut i = 0;
+            let step = if self.is_complex() { 2 } else { 1 };
             let mut j = -(T::from(len).unwrap());
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
-- 
2.43.0


From 29f88c6dd3b93bf9205d3f678624f34ebaed4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 34/77] fix: sampling a complex impulse response must set real
 and imaginary part of every point

---
 vector/src/vector_types/time_freq/convolution.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index b9ade2e..59ba096 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -219,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -232,9 +232,8 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
+                *imp_resp.data_mut(i + 1) = value.im;
                 i += 2;
-                *imp_resp.data_mut(i) = value.im;
-                i += 1;
                 j = j + T::one();
             }
 
-- 
2.43.0


From d577b03e993a3e5716d9030233513456b6b6fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 35/77] fix: a spectrum with a single point only has a point at
 0 Hz

---
 vector/src/vector_types/time_freq/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index ce8429e..4cf4f53 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -69,7 +69,10 @@ where
 /// Transform a value on the x-axis the same way as a fft shift transforms the
 /// x axis of a spectrum.
 fn fft_swap_x<T: RealNumber>(is_fft_shifted: bool, x_value: T, x_max: T) -> T {
-    if !is_fft_shifted {
+    if x_max == T::zero() {
+        // A single point is always at 0 Hz
+        T::zero()
+    } else if !is_fft_shifted {
         x_value / x_max
     } else if x_value <= T::zero() {
         let x_value = x_value / x_max;
-- 
2.43.0


From 44d1cd49906ce70afa4f5c123ee31e06954432a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 36/77] fix: the raised cosine function must be accurate close
 to the zeros of its denominator

---
 vector/src/conv_types.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 790d590..72c65cf 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -435,14 +435,17 @@ where
         let two = T::from(2.0).unwrap();
         let pi = T::PI();
         let four = two * two;
-        if x.abs() == one / (two * self.rolloff) {
+        let arg = two * self.rolloff * x;
+        let denominator = one - (arg * arg);
+        // Numerator and denominator both vanish at `1 / (2 * rolloff)` and nothing but
+        // rounding errors would be left close to this position
+        if denominator.abs() < T::epsilon().sqrt() {
             let arg = pi / two / self.rolloff;
             return (arg).sin() / arg * pi / four;
         }
 
         let pi_x = pi * x;
-        let arg = two * self.rolloff * x;
-        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / (one - (arg * arg))
+        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / denominator
     }
 }
 
-- 
2.43.0


From 0f3fdd8ec633a0358e82071e14912e578871cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 37/77] fix: preparing an argument for a correlation must not
 panic and must refuse real vectors

---
 .../src/vector_types/time_freq/correlation.rs  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index d0000b8..97f7554 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -93,10 +93,13 @@ where
     N: ComplexNumberSpace,
     D: TimeDomain,
 {
-    fn prepare_argument<B>(self, buffer: &mut B) -> Self::FreqResult
+    fn prepare_argument<B>(mut self, buffer: &mut B) -> Self::FreqResult
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if !self.is_complex() {
+            self.mark_vector_as_invalid();
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
@@ -107,10 +110,15 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
-                "zero_pad_b shouldn't fail since the argument is always larger than the vector",
-            );
+        // A single point needs no padding
+        if !self.is_complex()
+            || (points > 1
+                && self
+                    .zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                    .is_err())
+        {
+            self.mark_vector_as_invalid();
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
-- 
2.43.0


From 168377455206594b3fae31531eecca35e6879a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 38/77] fix: correlation and interpolation must borrow a buffer
 which is large enough for their transforms

---
 .../src/vector_types/time_freq/correlation.rs   |  3 ++-
 .../src/vector_types/time_freq/interpolation.rs | 10 +++++++---
 vector/src/vector_types/time_freq/mod.rs        | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 97f7554..6ad48fe 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -5,6 +5,7 @@ use super::super::{
     PosEq, ReorganizeDataOps, ScaleOps, TimeDomain, TimeToFrequencyDomainOperations,
     ToComplexVector, ToFreqResult, ToSliceMut, Vector, VoidResult,
 };
+use super::fft_buffer_len;
 use crate::numbers::*;
 
 /// This trait allows to transform an argument so that it can be used for cross correlation. Refer to the description of
@@ -160,7 +161,7 @@ where
         }
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::new(buffer.borrow(fft_buffer_len::<T>(points)));
         let mut complex = complex.plain_fft(&mut buffer);
         let mut other = (other.data(..)).to_complex_freq_vec();
         other.delta = complex.delta;
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..6580e0c 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -4,7 +4,7 @@ use super::super::{
     NoTradeBuffer, NumberSpace, PaddingOption, ResizeBufferedOps, ResizeOps, ScaleOps,
     TimeToFrequencyDomainOperations, ToComplexVector, ToDspVector, ToSliceMut, Vector, VoidResult,
 };
-use super::{create_shifted_copies, WrappingIterator};
+use super::{create_shifted_copies, fft_buffer_len, WrappingIterator};
 use crate::conv_types::{RealFrequencyResponse, RealImpulseResponse};
 use crate::inline_vector::InlineVector;
 use crate::multicore_support::*;
@@ -509,7 +509,7 @@ where
         let len = self.len();
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::new(buffer.borrow(fft_buffer_len::<T>(len / 2)));
         let mut complex = complex.plain_fft(&mut buffer);
         let interpolation_factorf = T::from(interpolation_factor).unwrap();
         complex.multiply_function_priv(
@@ -577,7 +577,11 @@ where
         complex
             .resize(complex_orig_len)
             .expect("Shrinking should always succeed");
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let buffer_len = std::cmp::max(
+            fft_buffer_len::<T>(complex_orig_len / 2),
+            fft_buffer_len::<T>(dest_points),
+        );
+        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer_len));
         let mut complex = complex.plain_fft(&mut buffer);
         // Add the delay, which is a linear phase in frequency domain
         if delay != T::zero() {
diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 4cf4f53..0bcbeea 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -66,6 +66,23 @@ where
     }
 }
 
+/// The length of the buffer which is required by `fft` to transform `points` complex numbers
+/// forward and back.
+fn fft_buffer_len<T: RealNumber>(points: usize) -> usize {
+    if points == 0 {
+        return 0;
+    }
+
+    let mut planner = FftPlanner::<T>::new();
+    let forward = planner.plan_fft(points, FftDirection::Forward);
+    let inverse = planner.plan_fft(points, FftDirection::Inverse);
+    // By two since the FFT is done with complex numbers
+    2 * std::cmp::max(
+        forward.get_inplace_scratch_len(),
+        inverse.get_inplace_scratch_len(),
+    )
+}
+
 /// Transform a value on the x-axis the same way as a fft shift transforms the
 /// x axis of a spectrum.
 fn fft_swap_x<T: RealNumber>(is_fft_shifted: bool, x_value: T, x_max: T) -> T {
-- 
2.43.0


From 726be6a97f0dad1f4e4451657dba85a5862d06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 39/77] fix: a delay of a spectrum with odd points must keep 0
 Hz and the positive frequencies apart from the negative ones

---
 vector/src/vector_types/time_freq/interpolation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 6580e0c..50b5028 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -320,7 +320,8 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
+        // The point at 0 Hz counts as a positive frequency
+        let pos_points = (points + 1) / 2;
         let neg_points = points - pos_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
-- 
2.43.0


From 229a24529a787c3c8ddd715c18b5076ae2d5b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 40/77] fix: the frequency response must be sampled at the
 frequencies of a FFT shifted spectrum

---
 vector/src/vector_types/time_freq/mod.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 0bcbeea..14cdeb2 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -654,9 +654,12 @@ where
         TT: Zero + Mul<Output = TT> + Copy + Send + Sync + From<T>,
     {
         let two = T::one() + T::one();
-        if !is_symmetric {
+        // A FFT shifted spectrum starts with 0 Hz, which has no counterpart. The mirror image
+        // of a point is therefore not where the symmetric calculation expects it if the number
+        // of points is odd.
+        let points = self.points();
+        if !is_symmetric || (is_fft_shifted && points % 2 != 0) {
             let len = self.len();
-            let points = self.points();
             let data = self.data.to_slice_mut();
             let converted = convert_mut(&mut data[0..len]);
             Chunk::execute_with_range(
@@ -671,9 +674,19 @@ where
                     let max = T::from(points - offset).unwrap() / two;
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
-                    for num in array {
-                        *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
+                    for (num, i) in array.iter_mut().zip(range) {
+                        let x = if is_fft_shifted {
+                            // 0 Hz is at the start, the negative frequencies are in the second half
+                            let frequency = if i <= points / 2 {
+                                T::from(i).unwrap()
+                            } else {
+                                -T::from(points - i).unwrap()
+                            };
+                            two * frequency / T::from(points).unwrap()
+                        } else {
+                            fft_swap_x(false, j, max)
+                        };
+                        *num = (*num) * scale * fun(arg, x * ratio);
                         j = j + T::one();
                     }
                 },
-- 
2.43.0


From 026f809da66c4ec3a99757283d586386476dee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 41/77] fix: an interpolation must reject a result which
 doesn't fit into the storage

---
 .../vector_types/time_freq/interpolation.rs   | 34 ++++++++++++++++---
 .../time_freq/real_interpolation.rs           |  8 +++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 50b5028..5578770 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -285,8 +285,10 @@ where
                 );
             }
         }
-        self.valid_len = new_len;
         temp.trade(&mut self.data);
+        if self.set_traded_len(new_len).is_err() {
+            self.mark_vector_as_invalid();
+        }
     }
 
     #[inline]
@@ -339,6 +341,19 @@ where
         }
     }
 
+    /// Checks that the storage can hold `len` elements without changing the vector.
+    fn ensure_capacity<B>(&mut self, buffer: &mut B, len: usize) -> VoidResult
+    where
+        B: for<'a> Buffer<'a, S, T>,
+    {
+        let orig_len = self.len();
+        if len > orig_len {
+            self.resize_b(buffer, len)?;
+            self.resize(orig_len)?;
+        }
+        Ok(())
+    }
+
     fn interpolate_upsample(
         &mut self,
         function: Option<&dyn RealFrequencyResponse<T>>,
@@ -479,7 +494,9 @@ where
             temp.trade(&mut self.data);
         }
 
-        self.valid_len = new_len;
+        if self.set_traded_len(new_len).is_err() {
+            self.mark_vector_as_invalid();
+        }
     }
 
     fn interpolatei<B>(
@@ -500,6 +517,8 @@ where
         }
 
         let is_complex = self.is_complex();
+        let complex_len = 2 * self.points() * interpolation_factor as usize;
+        self.ensure_capacity(buffer, complex_len)?;
 
         if !self.is_complex() {
             self.zero_interleave_b(buffer, interpolation_factor * 2);
@@ -536,8 +555,13 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        self.interpolate(buffer, None, dest_points, T::zero())
-            .expect("interpolate with no frequency response should never fail");
+        // Without a frequency response this only fails if the storage can't grow
+        if self
+            .interpolate(buffer, None, dest_points, T::zero())
+            .is_err()
+        {
+            self.mark_vector_as_invalid();
+        }
     }
 
     fn interpolate<B>(
@@ -564,6 +588,8 @@ where
         };
         let interpolation_factorf = T::from(dest_points).unwrap() / T::from(self.points()).unwrap();
 
+        self.ensure_capacity(buffer, 2 * std::cmp::max(self.points(), dest_points))?;
+
         if !self.is_complex() {
             // Vector is always complex from here on (however the complex flag inside the vector
             // may not be set)
diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..f0cac5b 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -65,9 +65,11 @@ where
                 i = i + T::one();
             }
             dest[dest_len - 1] = data[data_len - 1];
-            self.valid_len = dest_len;
         }
         temp.trade(&mut self.data);
+        if self.set_traded_len(dest_len).is_err() {
+            self.mark_vector_as_invalid();
+        }
     }
 
     fn interpolate_hermite<B>(&mut self, buffer: &mut B, interpolation_factor: T, delay: T)
@@ -174,8 +176,10 @@ where
                 i = i + T::one();
             }
         }
-        self.valid_len = dest_len;
         temp.trade(&mut self.data);
+        if self.set_traded_len(dest_len).is_err() {
+            self.mark_vector_as_invalid();
+        }
     }
 }
 #[cfg(test)]
-- 
2.43.0


From a15876133ac7fa6661fdfb1e832c20badb90ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 42/77] fix: the vectorized interpolation must agree with the
 scalar one

---
 .../vector_types/time_freq/interpolation.rs   | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 5578770..ff6efcd 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -1,7 +1,7 @@
 use super::super::{
     Buffer, BufferBorrow, ComplexOps, DataDomain, Domain, DspVec, ErrorReason, FloatIndex,
     FloatIndexMut, FrequencyToTimeDomainOperations, GenDspVec, InsertZerosOps, InsertZerosOpsBuffered, MetaData,
-    NoTradeBuffer, NumberSpace, PaddingOption, ResizeBufferedOps, ResizeOps, ScaleOps,
+    NoTradeBuffer, NumberSpace, PaddingOption, ReorganizeDataOps, ResizeBufferedOps, ResizeOps, ScaleOps,
     TimeToFrequencyDomainOperations, ToComplexVector, ToDspVector, ToSliceMut, Vector, VoidResult,
 };
 use super::{create_shifted_copies, fft_buffer_len, WrappingIterator};
@@ -170,7 +170,7 @@ where
     let mut imp_resp =
         InlineVector::of_size(T::zero(), data_len).to_gen_dsp_vec(complex_result, DataDomain::Time);
     let mut i = 0;
-    let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
+    let mut j = -T::from(conv_len).unwrap() + delay;
     while i < data_len {
         let value = function.calc(j - offset);
         *imp_resp.data_mut(i) = value;
@@ -219,11 +219,15 @@ where
                 conv_len,
                 self.is_complex(),
                 interpolation_factor,
-                delay,
+                -delay, // Here the delay has got the same direction as for `interpolate`
             );
             let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
             for vector in &vectors[..] {
-                let shifted_copies = create_shifted_copies(vector);
+                // The copies are reversed, but an interpolation isn't a convolution and
+                // needs the function as it is
+                let mut reversed = vector.clone();
+                reversed.reverse();
+                let shifted_copies = create_shifted_copies(&reversed);
                 for shift in shifted_copies.iter() {
                     shifts.push(shift.clone());
                 }
@@ -233,33 +237,40 @@ where
             let temp = temp.to_slice_mut();
             let dest = convert_mut(&mut temp[0..new_len]);
             let len = dest.len();
-            let scalar_len = vectors[0].points() * interpolation_factor;
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // The SIMD registers can only be used as long as the function doesn't reach
+            // beyond the center of the data
+            let center_points = simd.len() * Reg::LEN / step;
+            let center_end = std::cmp::min(
+                (left_points + center_points).saturating_sub(conv_len) * interpolation_factor,
+                len,
+            );
+            let center_start = (left_points + conv_len) * interpolation_factor;
+            let (center_start, center_end) = if simd.is_empty() || center_start >= center_end {
+                (len, len)
+            } else {
+                (center_start, center_end)
+            };
             // Length of a SIMD reg relative to the length of type T
             // which is 1 for real numbers or 2 for complex numbers
             let simd_len_in_t = Reg::LEN / step;
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[center_start..center_end],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = range.start + scalar_len;
+                    let mut i = range.start + center_start;
                     for num in dest_range {
-                        let rounded = (i + interpolation_factor - 1) / interpolation_factor;
-                        let end = rounded + conv_len - left_points;
+                        let rounded = i / interpolation_factor;
+                        let end = rounded + conv_len + 1 - left_points;
                         let simd_end = (end + simd_len_in_t - 1) / simd_len_in_t;
                         let simd_shift = end % simd_len_in_t;
                         let factor_shift = i % interpolation_factor;
-                        // The reasoning for the next match is analog to the explanation in the
-                        // create_shifted_copies function.
-                        // We need the inverse of the mod unless we start with zero
-                        let factor_shift =
-                            (interpolation_factor - factor_shift) % interpolation_factor;
                         let selection = factor_shift * simd_len_in_t + simd_shift;
                         let shifted = &shifts[selection];
                         let mut sum = Reg::splat(T::zero());
@@ -275,7 +286,7 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, center_start, len - center_end) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
@@ -304,7 +315,7 @@ where
     {
         let rounded = i / interpolation_factor;
         let iter =
-            WrappingIterator::new(data, rounded as isize - conv_len as isize, 2 * conv_len + 1);
+            WrappingIterator::new(data, rounded as isize - conv_len as isize - 1, 2 * conv_len + 1);
         let vector = &vectors[i % interpolation_factor];
         let step = if vector.is_complex() { 2 } else { 1 };
         let mut sum = TT::zero();
-- 
2.43.0


From f6fd89fc9d28f44eee530820ca5948d2f377953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 43/77] fix: linear and spline interpolation must not panic and
 must consider the delay at both ends

---
 .../time_freq/real_interpolation.rs           | 130 +++++++-----------
 1 file changed, 52 insertions(+), 78 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index f0cac5b..1182e9e 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -23,6 +23,21 @@ where
         B: for<'a> Buffer<'a, S, T>;
 }
 
+/// Converts a position into the index of the sample in front of it and the distance
+/// to that sample. Positions outside of the data are moved to the first or last sample.
+fn position_in_data<T: RealNumber>(position: T, data_len: usize) -> (usize, T) {
+    let last = T::from(data_len - 1).unwrap();
+    let position = if position < T::zero() {
+        T::zero()
+    } else if position > last {
+        last
+    } else {
+        position
+    };
+    let before = position.floor();
+    (before.to_usize().unwrap(), position - before)
+}
+
 impl<S, T, N, D> RealInterpolationOps<S, T> for DspVec<S, T, N, D>
 where
     S: ToSliceMut<T>,
@@ -34,7 +49,14 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -42,29 +64,24 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
 
-            for num in &mut dest[0..dest_len - 1] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let next = before + 1;
-                let x0 = beforef;
+            for num in dest {
+                let (before, x) =
+                    position_in_data(i / interpolation_factor + delay, data_len);
                 let y0 = data[before];
-                let y1 = data[next];
-                let x = rounded;
-                (*num) = y0 + (y1 - y0) * (x - x0);
+                let y1 = if before + 1 < data_len {
+                    data[before + 1]
+                } else {
+                    y0
+                };
+                (*num) = y0 + (y1 - y0) * x;
                 i = i + T::one();
             }
-            dest[dest_len - 1] = data[data_len - 1];
         }
         temp.trade(&mut self.data);
         if self.set_traded_len(dest_len).is_err() {
@@ -76,7 +93,14 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -84,88 +108,38 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             // Literature: http://paulbourke.net/miscellaneous/interpolation/
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
-            let start = ((T::one() - delay) * interpolation_factor)
-                .ceil()
-                .to_usize()
-                .unwrap();
-            let end = start + 1;
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
             let two_point_five = T::from(2.5).unwrap();
-            for num in &mut dest[0..start] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert_eq!(before, 0);
-                let next = before + 1;
-                let next_next = next + 1;
+            for num in dest {
+                let (before, x) =
+                    position_in_data(i / interpolation_factor + delay, data_len);
+                // The data continues linearly at both ends
                 let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let y0 = y1 - (y2 - y1);
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[start..dest_len - end] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let before_before = before - 1;
-                let next = before + 1;
-                let next_next = next + 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[dest_len - end..dest_len] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
-                let before_before = before - 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = if before < data_len - 1 {
+                let y2 = if before + 1 < data_len {
                     data[before + 1]
+                } else if before > 0 {
+                    y1 + (y1 - data[before - 1])
+                } else {
+                    y1
+                };
+                let y0 = if before > 0 {
+                    data[before - 1]
                 } else {
-                    y1 + (y1 - y0)
+                    y1 - (y2 - y1)
                 };
-                let y3 = if before < data_len - 2 {
+                let y3 = if before + 2 < data_len {
                     data[before + 2]
                 } else {
                     y2 + (y2 - y1)
                 };
-                let x = rounded - beforef;
                 let x2 = x * x;
                 let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
                 let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-- 
2.43.0


From 512146f3714b96e70209a40387bf951b7967838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 44/77] fix: complex reductions of a real vector must not panic

---
 .../src/vector_types/general/precise_stats.rs | 34 ++++++++++++++++++-
 vector/src/vector_types/general/statistics.rs | 20 +++++++++--
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index 1751b0d..a07069c 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -1,5 +1,5 @@
 use super::super::{
-    ComplexNumberSpace, Domain, DspVec, ErrorReason, RealNumberSpace, ScalarResult, Statistics,
+    ComplexNumberSpace, Domain, DspVec, ErrorReason, MetaData, RealNumberSpace, ScalarResult, Statistics,
     Stats, StatsVec, ToSlice, Vector, STATS_VEC_CAPACTIY,
 };
 use super::{kahan_sum, kahan_sumb};
@@ -369,6 +369,10 @@ where
     type Result = Statistics<Complex<f64>>;
 
     fn statistics_prec(&self) -> Statistics<Complex<f64>> {
+        if !self.is_complex() {
+            return Statistics::<Complex<f64>>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -405,6 +409,10 @@ where
         &self,
         len: usize,
     ) -> ScalarResult<StatsVec<Statistics<Complex<f64>>>> {
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -451,6 +459,10 @@ where
     type Result = Statistics<Complex<f64>>;
 
     fn statistics_prec(&self) -> Statistics<Complex<f64>> {
+        if !self.is_complex() {
+            return Statistics::<Complex<f64>>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -489,6 +501,10 @@ where
         &self,
         len: usize,
     ) -> ScalarResult<StatsVec<Statistics<Complex<f64>>>> {
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -534,6 +550,10 @@ where
     D: Domain,
 {
     fn sum_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex64::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -555,6 +575,10 @@ where
     }
 
     fn sum_sq_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex64::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -584,6 +608,10 @@ where
     D: Domain,
 {
     fn sum_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex64::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -601,6 +629,10 @@ where
     }
 
     fn sum_sq_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex64::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 5463dac..a1d448f 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -1,6 +1,6 @@
 use super::super::{
-    ComplexNumberSpace, Domain, DspVec, ErrorReason, NumberSpace, RealNumberSpace, ScalarResult,
-    ToSlice, Vector,
+    ComplexNumberSpace, Domain, DspVec, ErrorReason, MetaData, NumberSpace, RealNumberSpace,
+    ScalarResult, ToSlice, Vector,
 };
 use crate::array_to_complex;
 use crate::inline_vector::InlineVector;
@@ -587,6 +587,10 @@ where
     type Result = Statistics<Complex<T>>;
 
     fn statistics(&self) -> Statistics<Complex<T>> {
+        if !self.is_complex() {
+            return Statistics::<Complex<T>>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -621,6 +625,10 @@ where
     type Result = StatsVec<Statistics<Complex<T>>>;
 
     fn statistics_split(&self, len: usize) -> ScalarResult<StatsVec<Statistics<Complex<T>>>> {
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -663,10 +671,18 @@ where
     D: Domain,
 {
     fn sum(&self) -> Complex<T> {
+        if !self.is_complex() {
+            return Complex::<T>::new(T::nan(), T::nan());
+        }
+
         sel_reg!(self.sum_complex::<T>())
     }
 
     fn sum_sq(&self) -> Complex<T> {
+        if !self.is_complex() {
+            return Complex::<T>::new(T::nan(), T::nan());
+        }
+
         sel_reg!(self.sum_sq_complex::<T>())
     }
 }
-- 
2.43.0


From 9d5ac1c9bca053b575b2725140c8566b71fec8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 45/77] fix: windows must only be applied in time domain

---
 vector/src/vector_types/time_freq/time.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/time.rs b/vector/src/vector_types/time_freq/time.rs
index 7d40746..f282909 100644
--- a/vector/src/vector_types/time_freq/time.rs
+++ b/vector/src/vector_types/time_freq/time.rs
@@ -1,5 +1,6 @@
 use super::super::{
-    DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult, ToSliceMut,
+    DataDomain, DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult,
+    ToSliceMut,
 };
 use crate::array_to_complex_mut;
 use crate::numbers::*;
@@ -30,6 +31,11 @@ where
     D: TimeDomain,
 {
     fn apply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
@@ -48,6 +54,11 @@ where
     }
 
     fn unapply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
-- 
2.43.0


From cee99a06f567b908526fc0723e9e78db591eda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 46/77] fix: interpolating or correlating an empty vector must
 be refused

---
 vector/src/vector_types/time_freq/correlation.rs   | 4 ++++
 vector/src/vector_types/time_freq/interpolation.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 6ad48fe..b488529 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -155,6 +155,10 @@ where
             return Err(ErrorReason::InputMustBeInTimeDomain);
         }
 
+        if self.is_empty() {
+            return Err(ErrorReason::InputMustNotBeEmpty);
+        }
+
         let points = other.points();
         if points != self.points() {
             self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index ff6efcd..409d5fb 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -566,7 +566,8 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        // Without a frequency response this only fails if the storage can't grow
+        // Without a frequency response this only fails for an empty vector or if the
+        // storage can't grow
         if self
             .interpolate(buffer, None, dest_points, T::zero())
             .is_err()
@@ -589,6 +590,10 @@ where
             return Err(ErrorReason::ArgumentFunctionMustBeSymmetric);
         }
 
+        if self.is_empty() {
+            return Err(ErrorReason::InputMustNotBeEmpty);
+        }
+
         let delta_t = self.delta();
         let is_complex = self.is_complex();
         let orig_len = self.len();
-- 
2.43.0


From 2bc71b0ebef94eefc603313725ac5c9f6ca9d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 47/77] fix: getters must not panic if the target can't hold
 the result

A target whose storage isn't large enough is now left empty, as it already is for the other
violated preconditions.
---
 .../vector_types/complex/complex_to_real.rs   | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 56247c2..2a153ca 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -477,6 +477,16 @@ where
     }
 }
 
+/// Resizes the targets of a getter. Targets which can't hold the result are left empty.
+macro_rules! resize_targets {
+    ($len: expr; $($target: ident),*) => {
+        if $($target.resize($len).is_err())||* {
+            $($target.resize(0).unwrap();)*
+            return;
+        }
+    };
+}
+
 impl<S, T, N, D> DspVec<S, T, N, D>
 where
     S: ToSlice<T>,
@@ -497,9 +507,7 @@ where
         V: Vector<T> + FloatIndex<Range<usize>, Output = [T]> + FloatIndexMut<Range<usize>>,
     {
         let len = self.len();
-        destination
-            .resize(len / 2)
-            .expect("Target should be real and thus all values for len / 2 should be valid");
+        resize_targets!(len / 2; destination);
         destination.set_delta(self.delta);
         let array = destination.data_mut(0..len / 2);
         let source = &self.data.to_slice();
@@ -538,9 +546,7 @@ where
         V: Vector<T> + FloatIndex<Range<usize>, Output = [T]> + FloatIndexMut<Range<usize>>,
     {
         let data_length = self.len();
-        destination
-            .resize(data_length / 2)
-            .expect("Target should be real and thus all values for len / 2 should be valid");
+        resize_targets!(data_length / 2; destination);
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
         let array = &self.data.to_slice()[0..data_length];
@@ -659,10 +665,7 @@ where
     fn get_real_imag(&self, real: &mut O, imag: &mut O) {
         assert_self_complex_and_targets_real!(self, real, imag);
         let data_length = self.len();
-        real.resize(data_length / 2)
-            .expect("Target should be real and thus all values for len / 2 should be valid");
-        imag.resize(data_length / 2)
-            .expect("Target should be real and thus all values for len / 2 should be valid");
+        resize_targets!(data_length / 2; real, imag);
         real.set_delta(self.delta);
         imag.set_delta(self.delta);
         let real = real.data_mut(0..data_length / 2);
@@ -680,11 +683,7 @@ where
     fn get_mag_phase(&self, mag: &mut O, phase: &mut O) {
         assert_self_complex_and_targets_real!(self, mag, phase);
         let data_length = self.len();
-        mag.resize(data_length / 2)
-            .expect("Target should be real and thus all values for len / 2 should be valid");
-        phase
-            .resize(data_length / 2)
-            .expect("Target should be real and thus all values for len / 2 should be valid");
+        resize_targets!(data_length / 2; mag, phase);
         mag.set_delta(self.delta);
         phase.set_delta(self.delta);
         let mag = mag.data_mut(0..data_length / 2);
-- 
2.43.0


From 33c317a67d35f6d851f53c678578a03fc7830a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 48/77] fix: the largest possible threshold must not overflow

---
 vector/src/multicore_support/threading.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 2415719..3abb36a 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -271,10 +271,11 @@ impl MultiCoreSettings {
         MultiCoreSettings {
             core_limit,
             med_dual_core_threshold,
-            med_multi_core_threshold: med_multi_core_threshold.max(med_dual_core_threshold + 1),
+            med_multi_core_threshold: med_multi_core_threshold
+                .max(med_dual_core_threshold.saturating_add(1)),
             large_dual_core_threshold,
             large_multi_core_threshold: large_multi_core_threshold
-                .max(large_dual_core_threshold + 1),
+                .max(large_dual_core_threshold.saturating_add(1)),
         }
     }
 }
-- 
2.43.0


From a3a87ea580310f3ef40f11fe1275610b97e5d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 49/77] fix: empty vectors must convert from and to complex
 numbers

---
 vector/src/vector_types/support_std.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..8e7760f 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -644,6 +644,9 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
+    if vec.is_empty() {
+        return Vec::new();
+    }
     let boxed = vec.into_boxed_slice();
     let len = boxed.len();
     unsafe {
@@ -659,6 +662,9 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
+    if vec.is_empty() {
+        return Vec::new();
+    }
     let boxed = vec.into_boxed_slice();
     let len = boxed.len();
     unsafe {
-- 
2.43.0


From 03efb6b40730dcea9452c52865892f0877dcd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 50/77] fix: storage with an odd length must not become an
 allocation of complex numbers

---
 vector/src/vector_types/support_std.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8e7760f..9d6225d 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -662,6 +662,10 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
+    if vec.len() % 2 != 0 {
+        // An allocation with an odd length can't be an allocation of complex numbers
+        vec.pop();
+    }
     if vec.is_empty() {
         return Vec::new();
     }
-- 
2.43.0


From bfa080b900d3488d7f262f8db00afbafe89b4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 51/77] fix: converting a complex vector into a Vec must not
 append zeros

---
 vector/src/vector_types/support_std.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 9d6225d..9c99b21 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -626,7 +626,9 @@ where
     fn from(mut vector: DspVec<Vec<T>, T, meta::Complex, D>) -> Self {
         let len = vector.valid_len;
         vector.data.truncate(len);
-        interleaved_vec_to_complex_vec(vector.data)
+        let mut result = interleaved_vec_to_complex_vec(vector.data);
+        result.truncate(len / 2);
+        result
     }
 }
 
-- 
2.43.0


From d633cb12354aed9145319c7af7add48df8352a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 52/77] fix: storage with an odd length must not become a
 complex vector with an odd length

---
 vector/src/vector_types/to_from_vec_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/to_from_vec_conversions.rs b/vector/src/vector_types/to_from_vec_conversions.rs
index a2f3db3..eaa2638 100644
--- a/vector/src/vector_types/to_from_vec_conversions.rs
+++ b/vector/src/vector_types/to_from_vec_conversions.rs
@@ -255,7 +255,7 @@ where
             delta: T::one(),
             domain: meta::Time,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             delta: T::one(),
             domain: meta::Freq,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
-- 
2.43.0


From b74fd27c0011daa1a22db882b45aaa6074f99dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 53/77] fix: a slice with an odd length must not become a
 complex vector with an odd length

---
 vector/src/vector_types/support_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index a5f4dbd..b38166f 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -521,7 +521,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
-- 
2.43.0


From 0a65211f92398d0037234355b3a7348406ab8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 54/77] fix: getting complex points must not panic if the
 storage has an odd length

---
 vector/src/vector_types/support_core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index b38166f..2e74316 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -789,7 +789,7 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        (array_to_complex(&self.data[..self.data.len() / 2 * 2]), len)
     }
 }
 
@@ -802,6 +802,7 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        let even_len = self.data.len() / 2 * 2;
+        (array_to_complex_mut(&mut self.data[..even_len]), len)
     }
 }
-- 
2.43.0


From 46363d5cd0cbdbf57cb52138a594bf83ffacdcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 55/77] fix: rededicate must not reinterpret points of another
 number space or domain

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From 0998377a5f000f7ab3d4d5fc8af8d775f29a33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 56/77] fix: complex indexers must return an empty array for
 real vectors

---
 .../src/vector_types/vec_impl_and_indexers.rs | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index 4aea8d9..1f3e706 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -463,6 +463,24 @@ where
     }
 }
 
+impl<S, T, N, D> DspVec<S, T, N, D>
+where
+    S: ToSlice<T>,
+    T: RealNumber,
+    N: ComplexNumberSpace,
+    D: Domain,
+{
+    /// The number of elements which are available as complex points, which are none
+    /// if the vector isn't complex.
+    fn complex_len(&self) -> usize {
+        if self.is_complex() {
+            self.valid_len
+        } else {
+            0
+        }
+    }
+}
+
 impl<S, T, N, D> ComplexIndex<usize> for DspVec<S, T, N, D>
 where
     S: ToSlice<T>,
@@ -473,7 +491,7 @@ where
     type Output = Complex<T>;
 
     fn datac(&self, index: usize) -> &Complex<T> {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -488,7 +506,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: usize) -> &mut Complex<T> {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -505,7 +523,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, _index: RangeFull) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         array_to_complex(&slice[0..len])
     }
@@ -519,7 +537,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, _index: RangeFull) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         array_to_complex_mut(&mut slice[0..len])
     }
@@ -535,7 +553,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: RangeFrom<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -550,7 +568,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: RangeFrom<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -567,7 +585,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: RangeTo<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -582,7 +600,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: RangeTo<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -599,7 +617,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: Range<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -614,7 +632,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: Range<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
-- 
2.43.0


From 870af2f7ab1d9b455598c4bead4f39953eb078f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 57/77] fix: matrix getters for magnitude and phase called
 get_imag for every row

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From 2cd89ffd622a08614bbbfb38b90fa487829f684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 58/77] fix: matrix diff_with_start and cum_sum called diff for
 every row

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From 0ccd40600fa4706709d6a27cad9a3639d0ca77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 59/77] fix: sums of matrices with 3 and 4 rows were defined
 for matrices with 2 rows

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From a25adaf3dbe34e4c96a6175b285512bc4682d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 60/77] fix: convolve_mat used only the first part of complex
 rows, as long as the impulse response

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 14cdeb2..b70a4b4 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -439,7 +439,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From 8474e664cc75caffaeb43cb2dd87266a94140e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 61/77] fix: a matrix resize which fails for one row left rows
 with different lengths

---
 matrix/src/mat_impl.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/src/mat_impl.rs b/matrix/src/mat_impl.rs
index d0930a2..d7b522e 100644
--- a/matrix/src/mat_impl.rs
+++ b/matrix/src/mat_impl.rs
@@ -66,8 +66,16 @@ macro_rules! add_mat_impl {
 					  S: ToSlice<T>,
                   	  V: Vector<T> {
 			      fn resize(&mut self, len: usize) -> VoidResult {
-					  for v in &mut self.rows[..] {
-						  v.resize(len)?;
+					  let old_len = if self.rows.len() == 0 { 0 } else { self.rows[0].len() };
+					  for n in 0..self.rows.len() {
+						  if let Err(reason) = self.rows[n].resize(len) {
+							  // All rows must keep the same length
+							  for v in &mut self.rows[..n] {
+								  v.resize(old_len)?;
+							  }
+
+							  return Err(reason);
+						  }
 					  }
 
 			          Ok(())
-- 
2.43.0


From d8532e77b8170db25bdb13a9744c6ffee86f2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 62/77] fix: a matrix operation which fails must treat all rows
 alike

---
 matrix/src/complex.rs   | 10 ++++++----
 matrix/src/time_freq.rs | 15 +++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index 2a4fbe4..9a791ef 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -178,25 +178,27 @@ macro_rules! add_mat_impl {
 				fn set_real_imag(&mut self,
                                  real: &O,
                                  imag: &O) -> VoidResult {
+                    let mut result = Ok(());
                     for ((v, r), i) in self.rows_mut().iter_mut()
                                     .zip(real.rows())
                                     .zip(imag.rows()) {
- 						v.set_real_imag(r, i)?;
+ 						result = result.and(v.set_real_imag(r, i));
  					}
 
-                    Ok(())
+                    result
 				}
 
 				fn set_mag_phase(&mut self,
                                  mag: &O,
                                  phase: &O) -> VoidResult {
+                    let mut result = Ok(());
                     for ((v, r), i) in self.rows_mut().iter_mut()
                                      .zip(mag.rows())
                                      .zip(phase.rows()) {
-  						v.set_mag_phase(r, i)?;
+  						result = result.and(v.set_mag_phase(r, i));
   					}
 
-                    Ok(())
+                    result
 				}
 			}
 
diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index 4aef619..ba4bbc8 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -255,11 +255,12 @@ macro_rules! add_mat_impl {
 						other: &O)
 						-> VoidResult
                     where B: for<'b> Buffer<'b, S, T> {
+					let mut result = Ok(());
 					for (v, o) in self.rows_mut().iter_mut().zip(other.rows()) {
-						v.correlate(buffer, o)?;
+						result = result.and(v.correlate(buffer, o));
 					}
 
-					Ok(())
+					result
 				}
 			}
 
@@ -285,11 +286,12 @@ macro_rules! add_mat_impl {
                         function: &dyn RealFrequencyResponse<T>,
                         interpolation_factor: u32) -> VoidResult
 					where B: for<'b> Buffer<'b, S, T> {
+                    let mut result = Ok(());
                     for v in self.rows_mut() {
-                        v.interpolatei(buffer, function, interpolation_factor)?;
+                        result = result.and(v.interpolatei(buffer, function, interpolation_factor));
                     }
 
-					Ok(())
+					result
 				}
 
 				fn interpolate<B>(
@@ -299,11 +301,12 @@ macro_rules! add_mat_impl {
                         dest_points: usize,
                         delay: T) -> VoidResult
 					where B: for<'b> Buffer<'b, S, T> {
+                    let mut result = Ok(());
                     for v in self.rows_mut() {
-                        v.interpolate(buffer, function, dest_points, delay)?;
+                        result = result.and(v.interpolate(buffer, function, dest_points, delay));
                     }
 
-					Ok(())
+					result
 				}
 
 				fn interpft<B>(
-- 
2.43.0


From c779d61f992462d13d6bff5f2fb12b814c09a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 63/77] fix: convolve_mat must reject arguments whose meta data
 does not agree

---
 vector/src/vector_types/time_freq/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index b70a4b4..13eb64b 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -16,7 +16,7 @@ mod real_interpolation;
 pub use self::real_interpolation::*;
 
 use super::{
-    Buffer, BufferBorrow, Domain, DspVec, ErrorReason, GetMetaData, MetaData, NumberSpace,
+    Buffer, BufferBorrow, DataDomain, Domain, DspVec, ErrorReason, GetMetaData, MetaData, NumberSpace,
     ToSliceMut, Vector, VoidResult,
 };
 use crate::gpu_support::GpuSupport;
@@ -397,6 +397,21 @@ where
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
+        if matrix[0].domain() != DataDomain::Time {
+            return Err(ErrorReason::InputMustBeInTimeDomain);
+        }
+
+        for v in matrix[1..].iter().chain(impulse_response) {
+            let delta_ratio = matrix[0].delta() / v.delta();
+            if v.is_complex() != matrix[0].is_complex()
+                || v.domain() != matrix[0].domain()
+                || delta_ratio > T::from(1.1).unwrap()
+                || delta_ratio < T::from(0.9).unwrap()
+            {
+                return Err(ErrorReason::InputMetaDataMustAgree);
+            }
+        }
+
         let expected_len = matrix[0].len();
         for v in &matrix[..] {
             if v.len() != expected_len {
-- 
2.43.0


From e55687990fa41fc61050af1e88723358103f17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 64/77] fix: a matrix of impulse responses must have a row for
 every row of the matrix

---
 matrix/src/time_freq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index ba4bbc8..8e415df 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -443,6 +443,10 @@ macro_rules! convolve_signal {
     ($self_: expr, $buffer: ident, $impulse_response: ident) => {{
         let col_len = $self_.col_len();
         let row_len = $self_.row_len();
+        if $impulse_response.len() != col_len {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+
         let mut target = $buffer.borrow(row_len * col_len);
         {
             let rows: Vec<&DspVec<S, T, N, D>> = $self_.rows().iter().collect();
-- 
2.43.0


From 29901bc8ce82325941ea1da6a3260c24ae32b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 65/77] fix: sub32 and sub64 take the operand like the other
 functions, not a pointer to a pointer

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..00761f3 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..4bc57b4 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 461e3f91906f9a0a6e8f02891fbe85a109e2e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 66/77] fix: atan32 and atan64 calculate the arc tangent

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 00761f3..c5fc82f 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 4bc57b4..2872878 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From b950a782aaa09c12d18a50f1712aa90a4de8b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 67/77] fix: functions of the C interface which only return a
 code return 0 on success

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From dda84ae6db370950f999d7d8d2f6fcf2f1346d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 68/77] fix: export fft_shift and ifft_shift of the C interface

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index c5fc82f..559251a 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 2872878..86ded2d 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From e0131bd0d5fca368a0575a47eb374d40a7a5912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 69/77] fix: the getters of the C interface leave the vector to
 its owner

---
 interop/src/facade32.rs | 14 +++++++-------
 interop/src/facade64.rs | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 559251a..20b7dba 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 86ded2d..ffc4db7 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0


From 1db5ca701afefd5c7a38c156a781c69e4c69da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 70/77] fix: cloning a vector with the C interface keeps the
 original

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 20b7dba..5e0cafc 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index ffc4db7..6b1f180 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
-- 
2.43.0


From 517ebbe28c855d8603f8c54f2f8b9deb887c3439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 71/77] fix: overwrite_data of the C interface accepts data for
 the whole vector

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 5e0cafc..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 6b1f180..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From e4354393b04fa0aca33c6fd64c728322ae2f720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 72/77] fix: the magnitude of every second complex number was
 lost with AVX2 and f64

---
 vector/src/simd_extensions/avx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/avx.rs b/vector/src/simd_extensions/avx.rs
index dc478bd..d1c4bb4 100644
--- a/vector/src/simd_extensions/avx.rs
+++ b/vector/src/simd_extensions/avx.rs
@@ -333,7 +333,7 @@ impl Simd<f64> for f64x4 {
     #[inline]
     fn store_half(self, target: &mut [f64], index: usize) {
         target[index] = self.extract(0);
-        target[index + 1] = self.extract(1);
+        target[index + 1] = self.extract(2);
     }
 
     #[inline]
-- 
2.43.0


From 7eea8782b111dbf637ba298e79a28b562254c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 73/77] fix: ln_approx must reduce the mantissa to the range of
 its polynomial

---
 vector/src/simd_extensions/approximations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/simd_extensions/approximations.rs b/vector/src/simd_extensions/approximations.rs
index 8c4b441..b7156ca 100644
--- a/vector/src/simd_extensions/approximations.rs
+++ b/vector/src/simd_extensions/approximations.rs
@@ -69,7 +69,7 @@ macro_rules! simd_approx_impl {
                 let one = $regf::splat(1.0);
                 let onef_as_uint: $regu = unsafe { mem::transmute(one) };
                 let half = $regf::splat(0.5);
-                let sqrthf = $regf::splat(2.0.sqrt());
+                let sqrthf = $regf::splat(0.707106781186547524);
                 let log_p0 = $regf::splat(7.0376836292E-2);
                 let log_p1 = $regf::splat(-1.1514610310E-1);
                 let log_p2 = $regf::splat(1.1676998740E-1);
@@ -97,7 +97,8 @@ macro_rules! simd_approx_impl {
                 let e: $regf = $regf::regfrom(emm0);
                 let e = e + one;
 
-                let mask: $regm = unsafe { x.lt(mem::transmute(sqrthf)) };
+                let mantissa: $regf = unsafe { mem::transmute(x) };
+                let mask: $regm = mantissa.lt(sqrthf);
                 let masku: $regu = unsafe { mem::transmute(mask) };
                 let tmp: $regu = x.bitand(masku);
                 let x: $regf = unsafe { mem::transmute(x) };
-- 
2.43.0


From 10a94d655ee64eacdfed984e2c1e4c28fa1bb65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 74/77] fix: abs must not overflow or underflow in the middle
 of a vector

---
 vector/src/vector_types/real/real_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index 640ad8e..58d50ba 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -243,7 +243,7 @@ where
     fn abs(&mut self) {
         assert_real!(self);
         sel_reg!(self.simd_real_operation::<T>(
-            |x, _arg| (x * x).sqrt(),
+            |x, _arg| x.max(x.scale_real(-T::one())),
             |x, _arg| x.abs(),
             (),
             Complexity::Small
-- 
2.43.0


From 15fc4bcad1990c2dad745f195aea42ed7b365c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 75/77] fix: convolve_signal must not exceed the fixed capacity
 available without std

---
 vector/src/vector_types/time_freq/convolution.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 59ba096..f5186c2 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -497,7 +497,11 @@ where
         // For the SIMD operation we need to clone `vector` several
         // times and this only is worthwhile if `vector.len() << self.len()`
         // where `<<` means "significant smaller".
-        if self.len() > 1000 && impulse_response.len() <= 202 && impulse_response.len() > 11 {
+        if self.len() > 1000
+            && impulse_response.len() <= 202
+            && impulse_response.len() > 11
+            && can_use_simd::<T>(impulse_response.len())
+        {
             sel_reg!(self.convolve_signal_simd::<T>(buffer, impulse_response));
             return Ok(());
         }
@@ -533,6 +537,7 @@ where
             // Overlap-discard creates a lot of copies of the size of impulse_response
             // and that only seems to be worthwhile if the vector is long enough
             && self.len() > 10 * impulse_response.len() && self.is_complex()
+            && impulse_response.points() <= InlineVector::<Complex<T>>::max_capacity()
         {
             let fft_len = next_power_of_two(impulse_response.len());
             return self.overlap_discard(buffer, impulse_response, fft_len);
-- 
2.43.0


From 9e27ba19757a36fa7e65b1d8bc3505d029a89939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 76/77] fix: interpolatef must not exceed the fixed capacity
 available without std

---
 vector/src/vector_types/time_freq/interpolation.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 409d5fb..0bb0020 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -155,6 +155,17 @@ where
     result
 }
 
+/// Without heap memory the functions for the SIMD registers must fit into the fixed size of
+/// an `InlineVector`.
+fn can_use_simd<T: RealNumber>(interpolation_factor: T, conv_len: usize, is_complex: bool) -> bool {
+    let max_capacity = InlineVector::<T>::max_capacity();
+    let step = if is_complex { 2 } else { 1 };
+    // The widest SIMD register has 64 bytes
+    let max_shifts = 64 / std::mem::size_of::<T>() / step;
+    step * (2 * conv_len + 1) <= max_capacity
+        && interpolation_factor.round() <= T::from(max_capacity / max_shifts).unwrap()
+}
+
 fn function_to_vector<T>(
     function: &dyn RealImpulseResponse<T>,
     conv_len: usize,
@@ -438,6 +449,7 @@ where
         if conv_len <= 202
             && new_len >= 2000
             && (interpolation_factor.round() - interpolation_factor).abs() < T::from(1e-6).unwrap()
+            && can_use_simd(interpolation_factor, conv_len, is_complex)
         {
             let interpolation_factor = interpolation_factor.round().to_usize().unwrap();
             if self.is_complex() {
-- 
2.43.0


From 385cfa6c7780be8e6e73cc9336fcb9f006eafe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 77/77] fix: convolve must not sample the impulse response for
 a large ratio

---
 vector/src/vector_types/time_freq/convolution.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index f5186c2..ab1751f 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -107,6 +107,7 @@ fn would_benefit_from_simd<T: RealNumber>(vec_len: usize, imp_len: usize, ratio:
         && vec_len > 2000
         && (ratio_inv.round() - ratio_inv).abs() < T::from(1e-6).unwrap()
         && ratio > T::from(0.5).unwrap()
+        && ratio_inv > T::from(0.5).unwrap()
 }
 
 fn can_use_simd<T: RealNumber>(points: usize) -> bool {
-- 
2.43.0

