From 570d842ccde4ca18116d1ed87aeb692a981e31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 01/11] fix: include the outer offset in lane expressions

Lanes and LanesMut ignored the offset accumulated by step_dim/reset_dim, so
that iterating over lanes with more than one outer dimension gave the lanes
of the first outer index repeatedly.
---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From 22969492de14c29e340143cd16a099fba868d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 02/11] fix: size the index of from_fn expressions by the shape
 rank

The default value is empty for dynamic rank, so that evaluation panicked.
---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..30ab88a 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From 2beeb64869865149efeae25b525eee4669e35dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 03/11] fix: keep array iterators exhausted after the last
 element

With outer dimensions, the iterator restarted after returning None, which
repeats elements (and mutable references) and gives a wrong size hint.
---
 src/expr/iter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..04720a3 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -57,7 +57,12 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        // Ensure that no elements remain and that following calls return false.
+        self.outer_index.as_mut().fill(0);
+        self.outer_limit.as_mut().fill(0);
+
+        self.inner_index = 0;
+        self.inner_limit = 0;
 
         false
     }
-- 
2.43.0


From 890d5007f2db4a4bef9c3b1eab8aeb8c7c2be3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:58 +0000
Subject: [PATCH 04/11] fix: do not iterate over empty arrays with outer
 dimensions

If a dimension outside the inner loop had zero size, or if the inner loop was
empty, the iterator still gave elements outside of the array.
---
 src/expr/iter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 04720a3..a54c6ba 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,7 +20,7 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let mut inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
@@ -29,6 +29,12 @@ impl<E: Expression> Iter<E> {
             outer_index = Dims::new(expr.rank());
             outer_limit =
                 expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+
+            // If the array is empty, there must be no iteration in any dimension.
+            if expr.is_empty() {
+                outer_limit = Dims::new(expr.rank());
+                inner_limit = 0;
+            }
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From af356ad2bf0bf8bf390622d5e53ff3f4a85d7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:16 +0000
Subject: [PATCH 05/11] fix: drop all elements if the zipped expression panics
 in Tensor::zip_with

The guard assumed that the current element was always moved out, and leaked
the last written element if the other expression panicked.
---
 src/tensor.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 2f28ced..a0e1df5 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -431,34 +431,35 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
         struct DropGuard<T, S: Shape, A: Allocator> {
             tensor: ManuallyDrop<Tensor<T, S, A>>,
             index: usize,
+            moved: usize,
         }
 
         impl<T, S: Shape, A: Allocator> Drop for DropGuard<T, S, A> {
             fn drop(&mut self) {
                 let ptr = self.tensor.as_mut_ptr();
-                let tail = self.tensor.len() - self.index;
+                let start = self.index + self.moved;
+                let tail = self.tensor.len() - start;
 
-                // Drop all elements except the current one, which is read but not written back.
+                // Drop all elements except the current one, if it is read but not written back.
                 unsafe {
                     let mut vec = ManuallyDrop::take(&mut self.tensor).into_vec();
 
                     vec.set_len(0);
 
-                    if self.index > 1 {
-                        ptr::slice_from_raw_parts_mut(ptr, self.index - 1).drop_in_place();
-                    }
-
-                    ptr::slice_from_raw_parts_mut(ptr.add(self.index), tail).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr, self.index).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr.add(start), tail).drop_in_place();
                 }
             }
         }
 
-        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0 };
+        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0, moved: 0 };
         let expr = guard.tensor.expr_mut().zip(expr);
 
         expr.for_each(|(x, y)| unsafe {
-            guard.index += 1;
+            guard.moved = 1;
             ptr::write(x, f((ptr::read(x), y)));
+            guard.moved = 0;
+            guard.index += 1;
         });
 
         let tensor = unsafe { ManuallyDrop::take(&mut guard.tensor) };
-- 
2.43.0


From e4ccae0a80c8f894bbb2dcd505c21393f68da899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:16 +0000
Subject: [PATCH 06/11] fix: drop the previous elements in IntoExpr::clone_from

The elements are stored as ManuallyDrop, so that assigning to the buffer
leaked the previous elements.
---
 src/expr/into_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..ef13c22 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -51,7 +51,7 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     fn clone_from(&mut self, source: &Self) {
         assert!(self.index == 0 && source.index == 0, "expression in use");
 
-        self.buffer.clone_from(&source.buffer);
+        *self = source.clone();
     }
 }
 
-- 
2.43.0


From 62f08edb6ece9a8d17a8490bf190ceea35bd337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:09 +0000
Subject: [PATCH 07/11] fix: do not reserve memory on the word of a
 deserializer's size hint

The hint comes from the input in many formats. A huge one made
deserialization panic (overflow, capacity overflow) or abort instead of
giving an error or reading the data.
---
 src/serde.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index ef5e30d..34ee924 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -18,6 +18,13 @@ use crate::tensor::Tensor;
 use crate::view::{View, ViewMut};
 use crate::{array, tensor};
 
+/// Limits the memory reserved in advance, since the size hint is not trusted.
+fn cautious_capacity<T>(len: usize, size_hint: usize) -> usize {
+    const MAX_BYTES: usize = 1024 * 1024;
+
+    MAX_BYTES.checked_div(size_of::<T>()).map_or(0, |max| max.min(len.saturating_mul(size_hint)))
+}
+
 struct TensorVisitor<T, S: Shape> {
     phantom: PhantomData<(T, S)>,
 }
@@ -39,7 +46,7 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
         let size_hint = seq.size_hint().unwrap_or(0);
 
         if S::RANK == Some(1) {
-            vec.reserve(size_hint);
+            vec.reserve(cautious_capacity::<T>(1, size_hint));
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
@@ -48,7 +55,7 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
         } else {
             while let Some(value) = seq.next_element::<Tensor<T, S::Tail>>()? {
                 if size == 0 {
-                    vec.reserve(value.len() * size_hint);
+                    vec.reserve(cautious_capacity::<T>(value.len(), size_hint));
                     shape.with_mut_dims(|dims| {
                         value.shape().with_dims(|src| dims[1..].copy_from_slice(src));
                     });
-- 
2.43.0


From 5c1ce7efb9cae299c2a6332d0d867e1752610e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:55 +0000
Subject: [PATCH 08/11] fix: keep exhausted iterators marked as used

After the last element the inner index was reset to zero, so that an
exhausted consuming iterator could be formatted and would show elements
that are moved out already.
---
 src/expr/iter.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index a54c6ba..3077cfd 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -65,10 +65,7 @@ impl<E: Expression> Iter<E> {
 
         // Ensure that no elements remain and that following calls return false.
         self.outer_index.as_mut().fill(0);
-        self.outer_limit.as_mut().fill(0);
-
-        self.inner_index = 0;
-        self.inner_limit = 0;
+        self.outer_limit.as_mut().fill(1);
 
         false
     }
-- 
2.43.0


From fddab6a6c0976029ca84ead7207d0a2c22afdb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:48 +0000
Subject: [PATCH 09/11] fix: do not overflow when the step of a range is larger
 than the dimension

A stepped range with a step beyond the size of the dimension selects a single
element, but multiplying it with the stride could overflow and panic in debug
builds. The stride of a dimension of size 1 is never used.
---
 src/index/view.rs | 5 ++++-
 src/view.rs       | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/index/view.rs b/src/index/view.rs
index db9dead..278ff59 100644
--- a/src/index/view.rs
+++ b/src/index/view.rs
@@ -156,7 +156,10 @@ impl<R: RangeBounds<usize>> DimIndex for StepRange<R, isize> {
 
         let delta = if self.step < 0 && !range.is_empty() { range.end - 1 } else { range.start };
 
-        (offset + stride * delta as isize, Mapping::prepend_dim(&inner, len, stride * self.step))
+        // If the length is at most 1, the new stride is not used and can overflow.
+        let new_stride = stride.wrapping_mul(self.step);
+
+        (offset + stride * delta as isize, Mapping::prepend_dim(&inner, len, new_stride))
     }
 }
 
diff --git a/src/view.rs b/src/view.rs
index ec0f95a..65fcabc 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -96,7 +96,8 @@ macro_rules! impl_view {
                 };
 
                 let count = if len > 0 { offset } else { 0 }; // Offset pointer if non-empty.
-                let mapping = StridedMapping::new((len,), &[self.stride(0) + self.stride(1)]);
+                let stride = self.stride(0).wrapping_add(self.stride(1));
+                let mapping = StridedMapping::new((len,), &[stride]);
 
                 unsafe { $name::new_unchecked(self.$as_ptr().offset(count), mapping) }
             }
@@ -370,7 +371,7 @@ macro_rules! impl_view {
             }
 
             unsafe fn reset_dim(&mut self, index: usize, count: usize) {
-                let count = -self.stride(index) * count as isize;
+                let count = -(self.stride(index) * count as isize);
                 let ptr = self.slice.as_mut_ptr();
 
                 unsafe {
-- 
2.43.0


From a55aca9a68a61de5099c099eacec875a6a59f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:59 +0000
Subject: [PATCH 10/11] fix: permutations of arrays with 64 or more dimensions

The bit mask that detects invalid permutations overflowed: valid ones
were refused, and without overflow checks some invalid were accepted.
---
 src/mapping.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index d996750..f0832af 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -324,22 +324,17 @@ impl<S: Shape> Mapping for StridedMapping<S> {
     fn permute<M: Mapping>(mapping: &M, perm: &[usize]) -> Self {
         assert!(perm.len() == mapping.rank(), "invalid permutation");
 
-        let mut index_mask = 0;
-
-        for i in 0..mapping.rank() {
-            assert!(perm[i] < mapping.rank(), "invalid permutation");
-
-            index_mask |= 1 << perm[i];
-        }
-
-        assert!(index_mask == !(usize::MAX << mapping.rank()), "invalid permutation");
-
         let mut shape = S::new(mapping.rank());
         let mut strides = S::Dims::new(mapping.rank());
 
         shape.with_mut_dims(|dims| {
+            dims.fill(usize::MAX);
+
             // Calculate inverse permutation
             for i in 0..mapping.rank() {
+                assert!(perm[i] < mapping.rank(), "invalid permutation");
+                assert!(dims[perm[i]] == usize::MAX, "invalid permutation");
+
                 dims[perm[i]] = i;
             }
 
-- 
2.43.0


From 9310b00835c3a00c397e8642de3b0af600e6be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:27 +0000
Subject: [PATCH 11/11] fix: resizing to other sizes than the constant ones of
 the shape

The mismatch was found after the elements had been changed: the array
was cleared, and the process aborted if all sizes are constant.
---
 src/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raw_tensor.rs b/src/raw_tensor.rs
index 9e279d1..0668ac7 100644
--- a/src/raw_tensor.rs
+++ b/src/raw_tensor.rs
@@ -117,6 +117,7 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
         if !new_dims.is_empty() {
             let new_len = new_dims.iter().try_fold(1usize, |acc, &x| acc.checked_mul(x));
             let new_len = new_len.expect("invalid length");
+            let new_shape = S::from_dims(new_dims);
 
             unsafe {
                 self.with_mut_parts(|vec, old_mapping| {
@@ -144,7 +145,7 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
                         }
                     });
 
-                    old_mapping.shape_mut().with_mut_dims(|dims| dims.copy_from_slice(new_dims));
+                    *old_mapping = DenseMapping::new(new_shape);
                 });
             }
         }
-- 
2.43.0

