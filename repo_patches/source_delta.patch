From 851ae6f4f8866455c68af39d87d6ae1324678680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 001/109] fix: ALP must keep -0.0 apart from 0.0

---
 encodings/alp/src/alp/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..918f060 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -54,6 +54,9 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     /// Convert from the integer type back to the float type using `as`.
     fn from_int(n: Self::ALPInt) -> Self;
 
+    /// Bitwise equality, which unlike `==` tells `-0.0` from `0.0` (and equates identical NaNs).
+    fn is_bitwise_eq(self, other: Self) -> bool;
+
     fn find_best_exponents(values: &[Self]) -> Exponents {
         let mut best_exp = Exponents { e: 0, f: 0 };
         let mut best_nbytes: usize = usize::MAX;
@@ -143,7 +146,7 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     fn encode_single(value: Self, exponents: Exponents) -> Result<Self::ALPInt, Self> {
         let encoded = unsafe { Self::encode_single_unchecked(value, exponents) };
         let decoded = Self::decode_single(encoded, exponents);
-        if decoded == value {
+        if decoded.is_bitwise_eq(value) {
             return Ok(encoded);
         }
         Err(value)
@@ -191,7 +194,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !decoded.is_bitwise_eq(*v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +216,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !decoded.is_bitwise_eq(chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
@@ -288,6 +291,11 @@ impl ALPFloat for f32 {
     fn from_int(n: Self::ALPInt) -> Self {
         n as _
     }
+
+    #[inline(always)]
+    fn is_bitwise_eq(self, other: Self) -> bool {
+        self.to_bits() == other.to_bits()
+    }
 }
 
 impl ALPFloat for f64 {
@@ -359,4 +367,9 @@ impl ALPFloat for f64 {
     fn from_int(n: Self::ALPInt) -> Self {
         n as _
     }
+
+    #[inline(always)]
+    fn is_bitwise_eq(self, other: Self) -> bool {
+        self.to_bits() == other.to_bits()
+    }
 }
-- 
2.43.0


From 770f52d0643eefd09601cfc63e8b5012dbedf31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 002/109] fix: run-end encoding must keep -0.0 apart from 0.0

---
 encodings/runend/src/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..4672728 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -80,7 +80,8 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        // Compare bitwise, so that -0.0 and 0.0 are not merged into one run
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
-- 
2.43.0


From b22f9c73c91a1f87272995ce8b6bd8e5ec421cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 003/109] fix: slicing a run-end array to an empty range

---
 encodings/runend/src/compute.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/encodings/runend/src/compute.rs b/encodings/runend/src/compute.rs
index e4b8ccf..a381363 100644
--- a/encodings/runend/src/compute.rs
+++ b/encodings/runend/src/compute.rs
@@ -96,6 +96,16 @@ impl TakeFn for RunEndArray {
 
 impl SliceFn for RunEndArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            // No run covers an empty range
+            return Ok(Self::try_new(
+                slice(self.ends(), 0, 0)?,
+                slice(self.values(), 0, 0)?,
+                self.validity().slice(start, stop)?,
+            )?
+            .into_array());
+        }
+
         let slice_begin = self.find_physical_index(start)?;
         let slice_end = self.find_physical_index(stop)?;
 
-- 
2.43.0


From 2c0be5e147fe3c2cc8d91f1335eec390276e575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 004/109] fix: run-end-bool validity and nested slices

---
 encodings/runend-bool/src/array.rs   |  3 +++
 encodings/runend-bool/src/compute.rs | 30 ++++++++++++++++------------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/encodings/runend-bool/src/array.rs b/encodings/runend-bool/src/array.rs
index 03c9b23..5c23ea6 100644
--- a/encodings/runend-bool/src/array.rs
+++ b/encodings/runend-bool/src/array.rs
@@ -35,6 +35,9 @@ impl Display for RunEndBoolMetadata {
 
 impl RunEndBoolArray {
     pub fn try_new(ends: Array, start: bool, validity: Validity) -> VortexResult<Self> {
+        if ends.is_empty() {
+            vortex_bail!("Ends array must have at least one element");
+        }
         let length: usize = scalar_at(&ends, ends.len() - 1)?.as_ref().try_into()?;
         Self::with_offset_and_size(ends, start, validity, length, 0)
     }
diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..418b816 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,7 @@
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +26,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
@@ -59,11 +62,12 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::from_vec(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
                 .collect::<Vec<_>>(),
+            self.validity().take(indices)?,
         )
         .to_array())
     }
@@ -77,9 +81,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
-- 
2.43.0


From 0319ad4b461e5c3cb83eaf47f4178fdd48b45614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 005/109] fix: sparse arrays with nulls or a non-null fill
 value keep their nullness

---
 vortex-array/src/array/sparse/flatten.rs | 54 +++++++++++++-----------
 vortex-array/src/array/sparse/mod.rs     | 18 +++++---
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/vortex-array/src/array/sparse/flatten.rs b/vortex-array/src/array/sparse/flatten.rs
index 17049c1..182842a 100644
--- a/vortex-array/src/array/sparse/flatten.rs
+++ b/vortex-array/src/array/sparse/flatten.rs
@@ -1,4 +1,4 @@
-use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, MutableBuffer};
+use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder};
 use itertools::Itertools;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType};
 use vortex_error::{VortexError, VortexResult};
@@ -8,25 +8,17 @@ use crate::array::primitive::PrimitiveArray;
 use crate::array::sparse::SparseArray;
 use crate::array::BoolArray;
 use crate::validity::Validity;
-use crate::{ArrayDType, Canonical, IntoArrayVariant, IntoCanonical};
+use crate::{ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
 
 impl IntoCanonical for SparseArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         // Resolve our indices into a vector of usize applying the offset
         let indices = self.resolved_indices();
-
-        let validity_buffer =
-            BooleanBufferBuilder::new_from_buffer(MutableBuffer::new_null(self.len()), self.len());
+        let validity = canonical_validity(&self, &indices)?;
 
         if matches!(self.dtype(), DType::Bool(_)) {
             let values = self.values().into_bool()?.boolean_buffer();
-            canonicalize_sparse_bools(
-                values,
-                &indices,
-                self.len(),
-                self.fill_value(),
-                validity_buffer,
-            )
+            canonicalize_sparse_bools(values, &indices, self.len(), self.fill_value(), validity)
         } else {
             let values = self.values().into_primitive()?;
             match_each_native_ptype!(values.ptype(), |$P| {
@@ -35,19 +27,38 @@ impl IntoCanonical for SparseArray {
                     &indices,
                     self.len(),
                     self.fill_value(),
-                    validity_buffer
+                    validity
                 )
             })
         }
     }
 }
 
+/// The validity of the whole array: that of the fill value, patched with that of the values.
+fn canonical_validity(array: &SparseArray, indices: &[usize]) -> VortexResult<Validity> {
+    if !array.dtype().is_nullable() {
+        return Ok(Validity::NonNullable);
+    }
+
+    let values_validity = array
+        .values()
+        .with_dyn(|a| a.logical_validity().into_array())
+        .into_bool()?
+        .boolean_buffer();
+    let mut validity = BooleanBufferBuilder::new(array.len());
+    validity.append_n(array.len(), !array.fill_value().is_null());
+    for (i, idx) in indices.iter().enumerate() {
+        validity.set_bit(*idx, values_validity.value(i));
+    }
+    Ok(Validity::from(validity.finish()))
+}
+
 fn canonicalize_sparse_bools(
     values: BooleanBuffer,
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity_buffer: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let fill_bool: bool = if fill_value.is_null() {
         bool::default()
@@ -57,10 +68,8 @@ fn canonicalize_sparse_bools(
     let mut flat_bools = vec![fill_bool; len];
     for (i, idx) in indices.iter().enumerate() {
         flat_bools[*idx] = values.value(i);
-        validity_buffer.set_bit(*idx, true);
     }
 
-    let validity = Validity::from(validity_buffer.finish());
     let bool_values = BoolArray::from_vec(flat_bools, validity);
 
     Ok(Canonical::Bool(bool_values))
@@ -73,7 +82,7 @@ fn canonicalize_sparse_primitives<
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let primitive_fill = if fill_value.is_null() {
         T::default()
@@ -84,16 +93,11 @@ fn canonicalize_sparse_primitives<
 
     for (v, idx) in values.iter().zip_eq(indices) {
         result[*idx] = *v;
-        validity.set_bit(*idx, true);
     }
 
-    let validity = validity.finish();
-    let array = if fill_value.is_null() {
-        PrimitiveArray::from_vec(result, Validity::from(validity))
-    } else {
-        PrimitiveArray::from(result)
-    };
-    Ok(Canonical::Primitive(array))
+    Ok(Canonical::Primitive(PrimitiveArray::from_vec(
+        result, validity,
+    )))
 }
 
 #[cfg(test)]
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 33ca689..049ed41 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -5,7 +5,6 @@ use vortex_dtype::{match_each_integer_ptype, DType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 use vortex_scalar::{Scalar, ScalarValue};
 
-use crate::array::constant::ConstantArray;
 use crate::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use crate::compute::unary::scalar_at;
 use crate::compute::{search_sorted, SearchResult, SearchSortedSide};
@@ -191,26 +190,31 @@ impl ArrayValidity for SparseArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
+        if !self.dtype().is_nullable() {
+            return LogicalValidity::AllValid(self.len());
+        }
+
         let validity = if self.fill_value().is_null() {
-            // If we have a null fill value, then the result is a Sparse array with a fill_value
-            // of true, and patch values of false.
+            // If we have a null fill value, then every position is invalid but for those of non-null
+            // values.
             Self::try_new_with_offset(
                 self.indices(),
-                ConstantArray::new(true, self.indices().len()).into_array(),
+                self.values()
+                    .with_dyn(|a| a.logical_validity().into_array()),
                 self.len(),
                 self.indices_offset(),
                 false.into(),
             )
         } else {
-            // If the fill_value is non-null, then the validity is based on the validity of the
-            // existing values.
+            // If the fill_value is non-null, then every position is valid but for those of null
+            // values.
             Self::try_new_with_offset(
                 self.indices(),
                 self.values()
                     .with_dyn(|a| a.logical_validity().into_array()),
                 self.len(),
                 self.indices_offset(),
-                false.into(),
+                true.into(),
             )
         }
         .vortex_expect("Error determining logical validity for sparse array");
-- 
2.43.0


From c3fb90006527f182bfab6741f5392a3e1ae76dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 006/109] fix: sliced and encoded boolean arrays as filter
 masks

---
 encodings/bytebool/src/array.rs            | 10 +---------
 encodings/roaring/src/boolean/mod.rs       | 10 +---------
 encodings/runend-bool/src/array.rs         | 10 +---------
 vortex-array/src/array/bool/mod.rs         | 12 ++++++++++--
 vortex-array/src/array/chunked/variants.rs | 10 +---------
 vortex-array/src/array/sparse/variants.rs  | 10 +---------
 vortex-array/src/variants.rs               | 22 +++++++++++++++++++---
 7 files changed, 34 insertions(+), 50 deletions(-)

diff --git a/encodings/bytebool/src/array.rs b/encodings/bytebool/src/array.rs
index bd7fa87..846a304 100644
--- a/encodings/bytebool/src/array.rs
+++ b/encodings/bytebool/src/array.rs
@@ -89,15 +89,7 @@ impl ArrayVariants for ByteBoolArray {
     }
 }
 
-impl BoolArrayTrait for ByteBoolArray {
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for ByteBoolArray {}
 
 impl From<Vec<bool>> for ByteBoolArray {
     fn from(value: Vec<bool>) -> Self {
diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index b2de436..5ea58f5 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -94,15 +94,7 @@ impl ArrayVariants for RoaringBoolArray {
     }
 }
 
-impl BoolArrayTrait for RoaringBoolArray {
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for RoaringBoolArray {}
 
 impl AcceptArrayVisitor for RoaringBoolArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
diff --git a/encodings/runend-bool/src/array.rs b/encodings/runend-bool/src/array.rs
index 5c23ea6..d0171a4 100644
--- a/encodings/runend-bool/src/array.rs
+++ b/encodings/runend-bool/src/array.rs
@@ -117,15 +117,7 @@ impl RunEndBoolArray {
     }
 }
 
-impl BoolArrayTrait for RunEndBoolArray {
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for RunEndBoolArray {}
 
 impl ArrayVariants for RunEndBoolArray {
     fn as_bool_array(&self) -> Option<&dyn BoolArrayTrait> {
diff --git a/vortex-array/src/array/bool/mod.rs b/vortex-array/src/array/bool/mod.rs
index ea3c2c2..1965a43 100644
--- a/vortex-array/src/array/bool/mod.rs
+++ b/vortex-array/src/array/bool/mod.rs
@@ -97,11 +97,19 @@ impl ArrayVariants for BoolArray {
 
 impl BoolArrayTrait for BoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        Box::new(BitIndexIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitIndexIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        Box::new(BitSliceIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitSliceIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 }
 
diff --git a/vortex-array/src/array/chunked/variants.rs b/vortex-array/src/array/chunked/variants.rs
index d5a3eb1..7cbd02c 100644
--- a/vortex-array/src/array/chunked/variants.rs
+++ b/vortex-array/src/array/chunked/variants.rs
@@ -46,15 +46,7 @@ impl ArrayVariants for ChunkedArray {
 
 impl NullArrayTrait for ChunkedArray {}
 
-impl BoolArrayTrait for ChunkedArray {
-    fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        todo!()
-    }
-
-    fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for ChunkedArray {}
 
 impl PrimitiveArrayTrait for ChunkedArray {}
 
diff --git a/vortex-array/src/array/sparse/variants.rs b/vortex-array/src/array/sparse/variants.rs
index 68db18e..f6a93e2 100644
--- a/vortex-array/src/array/sparse/variants.rs
+++ b/vortex-array/src/array/sparse/variants.rs
@@ -47,15 +47,7 @@ impl ArrayVariants for SparseArray {
 
 impl NullArrayTrait for SparseArray {}
 
-impl BoolArrayTrait for SparseArray {
-    fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        Box::new(self.resolved_indices().into_iter())
-    }
-
-    fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
-    }
-}
+impl BoolArrayTrait for SparseArray {}
 
 impl PrimitiveArrayTrait for SparseArray {}
 
diff --git a/vortex-array/src/variants.rs b/vortex-array/src/variants.rs
index 8730dbd..9f71426 100644
--- a/vortex-array/src/variants.rs
+++ b/vortex-array/src/variants.rs
@@ -5,13 +5,14 @@
 
 use std::ops::Not;
 
+use arrow_buffer::BooleanBuffer;
 use vortex_dtype::field::Field;
 use vortex_dtype::{DType, ExtDType, FieldNames};
 use vortex_error::{vortex_panic, VortexExpect as _, VortexResult};
 
 use crate::array::BoolArray;
 use crate::iter::{AccessorRef, VectorizedArrayIter};
-use crate::{Array, ArrayTrait, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayData, ArrayTrait, IntoArray, IntoArrayVariant};
 
 pub trait ArrayVariants {
     fn as_null_array(&self) -> Option<&dyn NullArrayTrait> {
@@ -83,6 +84,13 @@ pub trait ArrayVariants {
 
 pub trait NullArrayTrait: ArrayTrait {}
 
+fn canonical_bools(array: ArrayData) -> BooleanBuffer {
+    Array::from(array)
+        .into_bool()
+        .vortex_expect("Failed to canonicalize boolean array")
+        .boolean_buffer()
+}
+
 pub trait BoolArrayTrait: ArrayTrait {
     /// Return a new inverted version of this array.
     ///
@@ -107,11 +115,19 @@ pub trait BoolArrayTrait: ArrayTrait {
 
     /// An iterator over the sorted indices of set values in the underlying boolean array
     /// good to array with low number of set values.
-    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a>;
+    fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
+        let bools = canonical_bools(self.to_array_data());
+        let indices = bools.set_indices().collect::<Vec<_>>();
+        Box::new(indices.into_iter())
+    }
 
     /// An iterator over the sorted disjoint contiguous range set values in the underlying boolean
     /// array good for arrays with only long runs of set values.
-    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a>;
+    fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
+        let bools = canonical_bools(self.to_array_data());
+        let slices = bools.set_slices().collect::<Vec<_>>();
+        Box::new(slices.into_iter())
+    }
 
     // Other possible iterators include:
     //  - True(usize) | False(usize) | Mixed(BooleanBuffer) where True/False are long runs of either
-- 
2.43.0


From 7c454c3467479597fb6f6416b0fda67ccd3c88d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 007/109] fix: canonicalizing binary VarBin, nullability of
 VarBinView take

---
 vortex-array/src/array/varbin/flatten.rs     | 7 ++++++-
 vortex-array/src/array/varbinview/compute.rs | 3 +--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..15cb22f 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -11,7 +12,11 @@ impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..2ab1190 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,8 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
-        Ok(Array::from_arrow(take_arrow, nullable))
+        Ok(Array::from_arrow(take_arrow, self.dtype().is_nullable()))
     }
 }
 
-- 
2.43.0


From 89d68d3bfd72c8160296e9bc4e64fca1be05fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 008/109] fix: BinaryView::is_empty, nullability of
 VarBinViewArray::from_iter_bin

---
 vortex-array/src/array/varbinview/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbinview/mod.rs b/vortex-array/src/array/varbinview/mod.rs
index 54889e2..f2bbba7 100644
--- a/vortex-array/src/array/varbinview/mod.rs
+++ b/vortex-array/src/array/varbinview/mod.rs
@@ -138,7 +138,7 @@ impl BinaryView {
 
     #[inline]
     pub fn is_empty(&self) -> bool {
-        self.len() > 0
+        self.len() == 0
     }
 
     #[inline]
@@ -423,7 +423,7 @@ impl VarBinViewArray {
         for b in iter {
             builder.append_value(b);
         }
-        let array = Array::from_arrow(&builder.finish(), true);
+        let array = Array::from_arrow(&builder.finish(), false);
         VarBinViewArray::try_from(array).vortex_expect("VarBinViewArray from StringViewBuilder")
     }
 
-- 
2.43.0


From ecc69ae5a29e42d3fabfe4c749e1d8f7cdf5577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 009/109] fix: delta keeps nulls and refuses signed integers

---
 encodings/fastlanes/src/delta/compress.rs | 23 ++++++++++++-----------
 encodings/fastlanes/src/delta/mod.rs      |  5 +++--
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..5e7bbd9 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -3,15 +3,18 @@ use fastlanes::{Delta, Transpose};
 use num_traits::{WrappingAdd, WrappingSub};
 use vortex::array::PrimitiveArray;
 use vortex::compute::unary::fill_forward;
-use vortex::compute::SliceFn;
 use vortex::validity::Validity;
-use vortex::IntoArrayVariant;
+use vortex::{ArrayDType, IntoArrayVariant};
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType, Nullability};
-use vortex_error::VortexResult;
+use vortex_error::{vortex_bail, VortexResult};
 
 use crate::DeltaArray;
 
 pub fn delta_compress(array: &PrimitiveArray) -> VortexResult<(PrimitiveArray, PrimitiveArray)> {
+    if !array.ptype().is_unsigned_int() {
+        vortex_bail!(MismatchedTypes: "unsigned integer", array.dtype());
+    }
+
     // Fill forward nulls
     let filled = fill_forward(array.as_ref())?.into_primitive()?;
 
@@ -100,16 +103,14 @@ where
 pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let bases = array.bases().into_primitive()?;
     let deltas = array.deltas().into_primitive()?;
+    // The validity only covers the logical range of the deltas.
+    let start = array.offset();
+    let stop = start + array.len();
     let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
-        PrimitiveArray::from_vec(
-            decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
-        )
+        let decoded = decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice());
+        PrimitiveArray::from_vec(decoded[start..stop].to_vec(), array.validity())
     });
-
-    decoded
-        .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+    Ok(decoded)
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..ffcc4ef 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -73,7 +73,7 @@ impl DeltaArray {
         Self::try_from_delta_compress_parts(
             bases.into_array(),
             deltas.into_array(),
-            Validity::NonNullable,
+            array.validity(),
         )
     }
 
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 689eb16a3e42bbe00d64782d26dcabffff5a316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 010/109] fix: DateTimeParts only holds timestamps

---
 encodings/datetime-parts/src/array.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/encodings/datetime-parts/src/array.rs b/encodings/datetime-parts/src/array.rs
index a1aa461..fbe819c 100644
--- a/encodings/datetime-parts/src/array.rs
+++ b/encodings/datetime-parts/src/array.rs
@@ -9,6 +9,7 @@ use vortex::stats::{ArrayStatisticsCompute, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, ExtensionArrayTrait};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoCanonical};
+use vortex_datetime_dtype::TemporalMetadata;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult, VortexUnwrap};
 
@@ -38,6 +39,15 @@ impl DateTimePartsArray {
         seconds: Array,
         subsecond: Array,
     ) -> VortexResult<Self> {
+        // The parts always decode into a timestamp
+        match &dtype {
+            DType::Extension(ext, _)
+                if matches!(
+                    TemporalMetadata::try_from(ext),
+                    Ok(TemporalMetadata::Timestamp(..))
+                ) => {}
+            _ => vortex_bail!(MismatchedTypes: "timestamp", dtype),
+        }
         if !days.dtype().is_int() || (dtype.is_nullable() != days.dtype().is_nullable()) {
             vortex_bail!(
                 "Expected integer with nullability {}, got {}",
-- 
2.43.0


From 7d6935dde7c8ad5ccde21f2b12ac728cd34f83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 011/109] fix: roaring encodings refuse what they cannot
 represent; empty slices of RoaringInt

---
 encodings/roaring/src/boolean/compress.rs |  7 ++++++-
 encodings/roaring/src/integer/compress.rs | 10 ++++++++++
 encodings/roaring/src/integer/compute.rs  |  4 ++++
 encodings/roaring/src/integer/mod.rs      |  8 ++++----
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/encodings/roaring/src/boolean/compress.rs b/encodings/roaring/src/boolean/compress.rs
index 6a93f21..d259236 100644
--- a/encodings/roaring/src/boolean/compress.rs
+++ b/encodings/roaring/src/boolean/compress.rs
@@ -1,10 +1,15 @@
 use croaring::Bitmap;
 use vortex::array::BoolArray;
-use vortex_error::VortexResult;
+use vortex::ArrayDType;
+use vortex_error::{vortex_bail, VortexResult};
 
 use crate::RoaringBoolArray;
 
 pub fn roaring_bool_encode(bool_array: BoolArray) -> VortexResult<RoaringBoolArray> {
+    if bool_array.dtype().is_nullable() {
+        vortex_bail!("RoaringBool cannot encode nullable arrays");
+    }
+
     let mut bitmap = Bitmap::new();
     bitmap.extend(bool_array.boolean_buffer().set_indices().map(|i| i as u32));
     bitmap.run_optimize();
diff --git a/encodings/roaring/src/integer/compress.rs b/encodings/roaring/src/integer/compress.rs
index 47faea2..d149a8d 100644
--- a/encodings/roaring/src/integer/compress.rs
+++ b/encodings/roaring/src/integer/compress.rs
@@ -1,12 +1,17 @@
 use croaring::Bitmap;
 use num_traits::NumCast;
 use vortex::array::PrimitiveArray;
+use vortex::ArrayDType;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::RoaringIntArray;
 
 pub fn roaring_int_encode(parray: PrimitiveArray) -> VortexResult<RoaringIntArray> {
+    if parray.dtype().is_nullable() {
+        vortex_bail!("RoaringInt cannot encode nullable arrays");
+    }
+
     match parray.ptype() {
         PType::U8 => roaring_encode_primitive::<u8>(parray.maybe_null_slice()),
         PType::U16 => roaring_encode_primitive::<u16>(parray.maybe_null_slice()),
@@ -19,6 +24,11 @@ pub fn roaring_int_encode(parray: PrimitiveArray) -> VortexResult<RoaringIntArra
 fn roaring_encode_primitive<T: NumCast + NativePType>(
     values: &[T],
 ) -> VortexResult<RoaringIntArray> {
+    // A bitmap keeps neither the order nor the multiplicity of its elements
+    if !values.windows(2).all(|w| w[0] < w[1]) {
+        vortex_bail!("RoaringInt can only encode strictly sorted arrays");
+    }
+
     let mut bitmap = Bitmap::new();
     bitmap.extend(
         values
diff --git a/encodings/roaring/src/integer/compute.rs b/encodings/roaring/src/integer/compute.rs
index 84df832..a0f595a 100644
--- a/encodings/roaring/src/integer/compute.rs
+++ b/encodings/roaring/src/integer/compute.rs
@@ -41,6 +41,10 @@ impl ScalarAtFn for RoaringIntArray {
 
 impl SliceFn for RoaringIntArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Self::try_new(Bitmap::new(), self.ptype()).map(IntoArray::into_array);
+        }
+
         let mut bitmap = self.owned_bitmap();
         let start = bitmap
             .select(start as u32)
diff --git a/encodings/roaring/src/integer/mod.rs b/encodings/roaring/src/integer/mod.rs
index f504c24..1c379d6 100644
--- a/encodings/roaring/src/integer/mod.rs
+++ b/encodings/roaring/src/integer/mod.rs
@@ -11,8 +11,8 @@ use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, PrimitiveArrayTrait};
 use vortex::{
-    impl_encoding, Array, ArrayDType as _, ArrayTrait, Canonical, IntoArray, IntoCanonical,
-    TypedArray,
+    impl_encoding, Array, ArrayDType as _, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical, TypedArray,
 };
 use vortex_buffer::Buffer;
 use vortex_dtype::Nullability::NonNullable;
@@ -135,8 +135,8 @@ impl ArrayStatisticsCompute for RoaringIntArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         // possibly faster to write an accumulator over the iterator, though not necessarily
         if stat == Stat::TrailingZeroFreq || stat == Stat::BitWidthFreq || stat == Stat::RunCount {
-            let primitive =
-                PrimitiveArray::from_vec(self.owned_bitmap().to_vec(), Validity::NonNullable);
+            // The histograms depend on the width of the array's type
+            let primitive = self.clone().into_primitive()?;
             primitive.statistics().compute(stat);
             Ok(primitive.statistics().to_set())
         } else {
-- 
2.43.0


From 397c1b1a3202dea8d1d8bc4d4a12a057047c8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 012/109] fix: FSST on empty strings and against null constants

---
 encodings/fsst/src/compress.rs | 15 ++++++++++++++-
 encodings/fsst/src/compute.rs  |  7 +++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/encodings/fsst/src/compress.rs b/encodings/fsst/src/compress.rs
index 4f19755..0159bcc 100644
--- a/encodings/fsst/src/compress.rs
+++ b/encodings/fsst/src/compress.rs
@@ -72,6 +72,9 @@ where
     for string in iter {
         match string {
             None => {}
+            // Empty strings contribute nothing to the symbol table, and the trainer requires a
+            // pointer to at least one byte.
+            Some([]) => {}
             Some(b) => lines.push(b),
         }
     }
@@ -89,7 +92,6 @@ pub fn fsst_compress_iter<'a, I>(
 where
     I: Iterator<Item = Option<&'a [u8]>>,
 {
-    // TODO(aduffy): this might be too small.
     let mut buffer = Vec::with_capacity(16 * 1024 * 1024);
     let mut builder = VarBinBuilder::<i32>::with_capacity(len);
     let mut uncompressed_lengths: Vec<i32> = Vec::with_capacity(len);
@@ -102,6 +104,17 @@ where
             Some(s) => {
                 uncompressed_lengths.push(s.len() as i32);
 
+                if s.is_empty() {
+                    // The compressor requires a pointer to at least one byte.
+                    builder.push_value(s);
+                    continue;
+                }
+
+                // Every input byte takes at most two output bytes, and the compressor writes up to
+                // one byte ahead.
+                buffer.clear();
+                buffer.reserve(2 * s.len() + 1);
+
                 // SAFETY: buffer is large enough
                 unsafe { compressor.compress_into(s, &mut buffer) };
 
diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index e2793bd..38115d9 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -1,9 +1,10 @@
 use fsst::Symbol;
-use vortex::array::{varbin_scalar, ConstantArray};
+use vortex::array::{varbin_scalar, BoolArray, ConstantArray};
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
     compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
+use vortex::validity::Validity;
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
 use vortex_dtype::DType;
@@ -82,7 +83,9 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(right.clone().into_array())
+            Ok(
+                BoolArray::from_vec(vec![false; left.len()], Validity::AllInvalid).into_array(),
+            )
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From 69c27222d737f57a980786a95ff5d40401e6e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 013/109] fix: ALP comparisons with patches, nulls and values
 it cannot encode; type of patched scalars

---
 encodings/alp/src/alp/compute.rs | 37 ++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..4d353a5 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -5,7 +5,7 @@ use vortex::compute::{
 };
 use vortex::stats::{ArrayStatistics, Stat};
 use vortex::validity::Validity;
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_error::{VortexExpect, VortexResult};
 use vortex_scalar::{PValue, Scalar};
 
@@ -42,7 +42,8 @@ impl ScalarAtFn for ALPArray {
         if let Some(patches) = self.patches() {
             if patches.with_dyn(|a| a.is_valid(index)) {
                 // We need to make sure the value is actually in the patches array
-                return scalar_at_unchecked(&patches, index);
+                let patch = scalar_at_unchecked(&patches, index);
+                return Scalar::new(self.dtype().clone(), patch.into_value());
             }
         }
 
@@ -94,6 +95,10 @@ impl FilterFn for ALPArray {
 
 impl MaybeCompareFn for ALPArray {
     fn maybe_compare(&self, array: &Array, operator: Operator) -> Option<VortexResult<Array>> {
+        if array.is_empty() {
+            return None;
+        }
+
         if ConstantArray::try_from(array).is_ok()
             || array
                 .statistics()
@@ -109,9 +114,11 @@ impl MaybeCompareFn for ALPArray {
             match pvalue {
                 Some(PValue::F32(f)) => Some(alp_scalar_compare(self, f, operator)),
                 Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(_) | None => Some(Ok(BoolArray::from_vec(
+                Some(_) => None,
+                // Comparisons against null yield nulls, per the Arrow behavior.
+                None => Some(Ok(BoolArray::from_vec(
                     vec![false; self.len()],
-                    Validity::AllValid,
+                    Validity::AllInvalid,
                 )
                 .into_array())),
             }
@@ -129,21 +136,19 @@ fn alp_scalar_compare<F: ALPFloat + Into<Scalar>>(
 where
     F::ALPInt: Into<Scalar>,
 {
-    let encoded = F::encode_single(value, alp.exponents());
-    match encoded {
-        Ok(encoded) => {
+    // Patched values are not represented by the encoded integers, and only a value that the
+    // exponents can represent has an encoded integer to compare with. Zero has two representations
+    // that compare as equal, of which only one can be encoded.
+    if alp.patches().is_none() && value != F::zero() {
+        if let Ok(encoded) = F::encode_single(value, alp.exponents()) {
             let s = ConstantArray::new(encoded, alp.len());
-            compare(alp.encoded(), s.as_ref(), operator)
-        }
-        Err(exception) => {
-            if let Some(patches) = alp.patches().as_ref() {
-                let s = ConstantArray::new(exception, alp.len());
-                compare(patches, s.as_ref(), operator)
-            } else {
-                Ok(BoolArray::from_vec(vec![false; alp.len()], Validity::AllValid).into_array())
-            }
+            return compare(alp.encoded(), s.as_ref(), operator);
         }
     }
+
+    let decoded = alp.clone().into_array().into_primitive()?;
+    let s = ConstantArray::new(value, alp.len());
+    compare(decoded.as_ref(), s.as_ref(), operator)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1ab02dda2c21dcb76b5b5c0b2d9fecfb2a2d2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 014/109] fix: nullability of decoded ALP-RD values;
 conjunction of encoded validities

---
 encodings/alp/src/alp_rd/array.rs             | 12 +++++++++---
 encodings/alp/src/alp_rd/compute/scalar_at.rs |  5 +++--
 vortex-array/src/validity.rs                  |  7 ++-----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..ef69ab4 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -5,7 +5,7 @@ use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use vortex::array::{PrimitiveArray, SparseArray};
 use vortex::encoding::ids;
 use vortex::stats::{ArrayStatisticsCompute, StatsSet};
-use vortex::validity::{ArrayValidity, LogicalValidity};
+use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
 use vortex_dtype::{DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexExpect, VortexResult};
@@ -204,6 +204,12 @@ impl IntoCanonical for ALPRDArray {
             exc_u16 = PrimitiveArray::from(Vec::<u16>::new());
         }
 
+        let validity = if self.dtype().is_nullable() {
+            self.logical_validity().into_validity()
+        } else {
+            Validity::NonNullable
+        };
+
         let decoded_array = if self.is_f32() {
             PrimitiveArray::from_vec(
                 alp_rd_decode::<f32>(
@@ -214,7 +220,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +232,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         };
 
diff --git a/encodings/alp/src/alp_rd/compute/scalar_at.rs b/encodings/alp/src/alp_rd/compute/scalar_at.rs
index a6c42b6..a8717ec 100644
--- a/encodings/alp/src/alp_rd/compute/scalar_at.rs
+++ b/encodings/alp/src/alp_rd/compute/scalar_at.rs
@@ -1,4 +1,5 @@
 use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::ArrayDType;
 use vortex_error::{VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -22,11 +23,11 @@ impl ScalarAtFn for ALPRDArray {
         if self.is_f32() {
             let right: u32 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f32::from_bits((left as u32) << self.right_bit_width() | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         } else {
             let right: u64 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f64::from_bits(((left as u64) << self.right_bit_width()) | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         }
     }
 
diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 5389a5d..47416a6 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -198,11 +198,8 @@ impl Validity {
             | (Validity::AllValid, Validity::AllValid) => Validity::AllValid,
             // Here we actually have to do some work
             (Validity::Array(lhs), Validity::Array(rhs)) => {
-                let lhs = BoolArray::try_from(lhs)?;
-                let rhs = BoolArray::try_from(rhs)?;
-
-                let lhs = lhs.boolean_buffer();
-                let rhs = rhs.boolean_buffer();
+                let lhs = lhs.clone().into_bool()?.boolean_buffer();
+                let rhs = rhs.clone().into_bool()?.boolean_buffer();
 
                 Validity::from(lhs.bitand(&rhs))
             }
-- 
2.43.0


From 8bd069e3d43871c30f357ec929c0fc4bb8af67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 015/109] fix: take on byte-bool arrays keeps the dtype and
 accepts encoded indices

---
 encodings/bytebool/src/compute.rs | 53 ++++++++-----------------------
 1 file changed, 14 insertions(+), 39 deletions(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..02932ce 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -2,7 +2,7 @@ use num_traits::AsPrimitive;
 use vortex::compute::unary::{FillForwardFn, ScalarAtFn};
 use vortex::compute::{ArrayCompute, SliceFn, TakeFn};
 use vortex::validity::{ArrayValidity, Validity};
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::{match_each_integer_ptype, Nullability};
 use vortex_error::{vortex_err, VortexResult};
 use vortex_scalar::Scalar;
@@ -49,46 +49,21 @@ impl SliceFn for ByteBoolArray {
 
 impl TakeFn for ByteBoolArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
-        let validity = self.validity();
-        let indices = indices.clone().as_primitive();
+        let validity = self.validity().take(indices)?;
+        let indices = indices.clone().into_primitive()?;
         let bools = self.maybe_null_slice();
 
-        let arr = match validity {
-            Validity::AllValid | Validity::NonNullable => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx: usize = idx.as_();
-                        bools[idx]
-                    })
-                    .collect::<Vec<_>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-            Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
-
-            Validity::Array(_) => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx = idx.as_();
-                        if validity.is_valid(idx) {
-                            Some(bools[idx])
-                        } else {
-                            None
-                        }
-                    })
-                    .collect::<Vec<Option<_>>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-        };
-
-        Ok(arr)
+        let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
+            indices.maybe_null_slice::<$I>()
+            .iter()
+            .map(|&idx| {
+                let idx: usize = idx.as_();
+                bools[idx]
+            })
+            .collect::<Vec<_>>()
+        });
+
+        Ok(Self::try_from_vec(bools, validity)?.into_array())
     }
 }
 
-- 
2.43.0


From ee4e94fd6d9287f4b86f39c64d41aff315b36a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 016/109] fix: slicing, taking nothing from and canonicalizing
 chunked arrays without chunks

---
 vortex-array/src/array/chunked/canonical.rs   | 30 ++++++++++++++-----
 .../src/array/chunked/compute/slice.rs        |  4 +++
 .../src/array/chunked/compute/take.rs         |  4 +++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/array/chunked/canonical.rs b/vortex-array/src/array/chunked/canonical.rs
index 741d8a8..95853be 100644
--- a/vortex-array/src/array/chunked/canonical.rs
+++ b/vortex-array/src/array/chunked/canonical.rs
@@ -1,5 +1,6 @@
 use arrow_buffer::{BooleanBufferBuilder, Buffer, MutableBuffer, ScalarBuffer};
-use vortex_dtype::{DType, PType, StructDType};
+use vortex_datetime_dtype::{is_temporal_ext_type, TemporalMetadata, TimeUnit};
+use vortex_dtype::{DType, ExtDType, Nullability, PType, StructDType};
 use vortex_error::{vortex_bail, vortex_err, ErrString, VortexResult};
 
 use crate::array::chunked::ChunkedArray;
@@ -69,7 +70,7 @@ pub(crate) fn try_canonicalize_chunks(
         //                /             \
         //          storage             storage
         //
-        DType::Extension(ext_dtype, _) => {
+        DType::Extension(ext_dtype, nullability) => {
             // Recursively apply canonicalization and packing to the storage array backing
             // each chunk of the extension array.
             let storage_chunks: Vec<Array> = chunks
@@ -78,11 +79,12 @@ pub(crate) fn try_canonicalize_chunks(
                 // ExtensionArray, so we should canonicalize each chunk into ExtensionArray first.
                 .map(|chunk| chunk.clone().into_extension().map(|ext| ext.storage()))
                 .collect::<VortexResult<Vec<Array>>>()?;
-            let storage_dtype = storage_chunks
-                .first()
-                .ok_or_else(|| vortex_err!("Expected at least one chunk in ChunkedArray"))?
-                .dtype()
-                .clone();
+            let storage_dtype = match storage_chunks.first() {
+                Some(chunk) => chunk.dtype().clone(),
+                // Without any chunk, the storage type must follow from the extension type.
+                None => temporal_storage_dtype(ext_dtype, *nullability)
+                    .ok_or_else(|| vortex_err!("Expected at least one chunk in ChunkedArray"))?,
+            };
             let chunked_storage =
                 ChunkedArray::try_new(storage_chunks, storage_dtype)?.into_array();
 
@@ -121,6 +123,20 @@ pub(crate) fn try_canonicalize_chunks(
     }
 }
 
+/// The type of the storage array of the built-in temporal extension types.
+fn temporal_storage_dtype(ext_dtype: &ExtDType, nullability: Nullability) -> Option<DType> {
+    if !is_temporal_ext_type(ext_dtype.id()) {
+        return None;
+    }
+
+    let ptype = match TemporalMetadata::try_from(ext_dtype).ok()? {
+        TemporalMetadata::Time(TimeUnit::S | TimeUnit::Ms)
+        | TemporalMetadata::Date(TimeUnit::D) => PType::I32,
+        _ => PType::I64,
+    };
+    Some(DType::Primitive(ptype, nullability))
+}
+
 /// Swizzle the pointers within a ChunkedArray of StructArrays to instead be a single
 /// StructArray, where the Array for each Field is a ChunkedArray.
 ///
diff --git a/vortex-array/src/array/chunked/compute/slice.rs b/vortex-array/src/array/chunked/compute/slice.rs
index 3faa414..eb6ab36 100644
--- a/vortex-array/src/array/chunked/compute/slice.rs
+++ b/vortex-array/src/array/chunked/compute/slice.rs
@@ -6,6 +6,10 @@ use crate::{Array, ArrayDType, IntoArray};
 
 impl SliceFn for ChunkedArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.nchunks() == 0 {
+            return Ok(self.clone().into_array());
+        }
+
         let (offset_chunk, offset_in_first_chunk) = self.find_chunk_idx(start);
         let (length_chunk, length_in_last_chunk) = self.find_chunk_idx(stop);
 
diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..b797546 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -11,6 +11,10 @@ use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 
 impl TakeFn for ChunkedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
+        if indices.is_empty() {
+            return slice(self.as_ref(), 0, 0);
+        }
+
         // Fast path for strict sorted indices.
         if indices
             .statistics()
-- 
2.43.0


From ea5537aeef4366bb77a57cf5853779978ae731c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 017/109] fix: casting falls back to the canonical encoding

---
 vortex-array/src/compute/unary/cast.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/unary/cast.rs b/vortex-array/src/compute/unary/cast.rs
index cb52db5..377a880 100644
--- a/vortex-array/src/compute/unary/cast.rs
+++ b/vortex-array/src/compute/unary/cast.rs
@@ -1,7 +1,7 @@
 use vortex_dtype::DType;
 use vortex_error::{vortex_err, VortexResult};
 
-use crate::{Array, ArrayDType};
+use crate::{Array, ArrayDType, IntoCanonical};
 
 pub trait CastFn {
     fn cast(&self, dtype: &DType) -> VortexResult<Array>;
@@ -17,7 +17,13 @@ pub fn try_cast(array: impl AsRef<Array>, dtype: &DType) -> VortexResult<Array>
     }
 
     // TODO(ngates): check for null_count if dtype is non-nullable
-    array.with_dyn(|a| {
+    if let Some(result) = array.with_dyn(|a| a.cast().map(|f| f.cast(dtype))) {
+        return result;
+    }
+
+    // Fallback to the canonical encoding of the array.
+    let canonical = Array::from(array.clone().into_canonical()?);
+    canonical.with_dyn(|a| {
         a.cast()
             .map(|f| f.cast(dtype))
             .unwrap_or_else(|| Err(vortex_err!(NotImplemented: "cast", array.encoding().id())))
-- 
2.43.0


From 607efa7fc7fa180d2384038f650b5aff97e2bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 018/109] fix: comparing empty arrays and comparing with a null
 constant

---
 vortex-array/src/compute/compare.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..131b094 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -6,9 +6,10 @@ use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::array::Constant;
+use crate::array::{BoolArray, Constant, ConstantArray};
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, ArrayDef, IntoCanonical};
+use crate::validity::Validity;
+use crate::{Array, ArrayDType, ArrayDef, IntoArray, IntoCanonical};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd)]
 pub enum Operator {
@@ -95,6 +96,21 @@ pub fn compare(
         vortex_bail!("Compare operations only support arrays of the same type");
     }
 
+    if left.is_empty() {
+        return Ok(BoolArray::from_vec(vec![], Validity::AllValid).into_array());
+    }
+
+    // Eq and NotEq on null values yield nulls, per the Arrow behavior, as do the orderings.
+    for side in [left, right] {
+        if let Ok(constant) = ConstantArray::try_from(side) {
+            if constant.scalar_value().is_null() {
+                return Ok(
+                    BoolArray::from_vec(vec![false; left.len()], Validity::AllInvalid).into_array(),
+                );
+            }
+        }
+    }
+
     if left.is_encoding(Constant::ID) && !right.is_encoding(Constant::ID) {
         return compare(right, left, operator.swap());
     }
-- 
2.43.0


From aeb13396d99c8b5438339e49e844043b180d2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 019/109] fix: formatting

---
 encodings/fsst/src/compute.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index 38115d9..10be131 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -83,9 +83,7 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(
-                BoolArray::from_vec(vec![false; left.len()], Validity::AllInvalid).into_array(),
-            )
+            Ok(BoolArray::from_vec(vec![false; left.len()], Validity::AllInvalid).into_array())
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From da6aa95baf3e81fe8cf4d7432eced136ce9eed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 020/109] fix: validity and statistics of dictionary arrays

---
 encodings/dict/src/array.rs | 31 ++++---------
 encodings/dict/src/stats.rs | 90 ++++++++++++++++++++++++-------------
 2 files changed, 68 insertions(+), 53 deletions(-)

diff --git a/encodings/dict/src/array.rs b/encodings/dict/src/array.rs
index 598aa96..041bd58 100644
--- a/encodings/dict/src/array.rs
+++ b/encodings/dict/src/array.rs
@@ -1,19 +1,14 @@
 use std::fmt::{Debug, Display};
 
-use arrow_buffer::BooleanBuffer;
 use serde::{Deserialize, Serialize};
 use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
-use vortex::array::BoolArray;
 use vortex::compute::take;
 use vortex::compute::unary::scalar_at;
 use vortex::encoding::ids;
 use vortex::stats::StatsSet;
 use vortex::validity::{ArrayValidity, LogicalValidity};
-use vortex::{
-    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
-    IntoCanonical,
-};
-use vortex_dtype::{match_each_integer_ptype, DType, PType};
+use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
+use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 
 impl_encoding!("vortex.dict", ids::DICT, Dict);
@@ -85,21 +80,13 @@ impl ArrayValidity for DictArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        if self.dtype().is_nullable() {
-            let primitive_codes = self
-                .codes()
-                .into_primitive()
-                .vortex_expect("Failed to convert DictArray codes to primitive array");
-            match_each_integer_ptype!(primitive_codes.ptype(), |$P| {
-                let is_valid = primitive_codes
-                    .maybe_null_slice::<$P>();
-                let is_valid_buffer = BooleanBuffer::collect_bool(is_valid.len(), |idx| {
-                    is_valid[idx] != 0
-                });
-                LogicalValidity::Array(BoolArray::from(is_valid_buffer).into_array())
-            })
-        } else {
-            LogicalValidity::AllValid(self.len())
+        match self.values().with_dyn(|a| a.logical_validity()) {
+            LogicalValidity::AllValid(_) => LogicalValidity::AllValid(self.len()),
+            LogicalValidity::AllInvalid(_) => LogicalValidity::AllInvalid(self.len()),
+            LogicalValidity::Array(values_validity) => LogicalValidity::Array(
+                take(values_validity, self.codes())
+                    .vortex_expect("Failed to take the validity of DictArray values"),
+            ),
         }
     }
 }
diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..4d174c4 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,47 +1,75 @@
 use std::collections::HashMap;
 
+use num_traits::AsPrimitive;
+use vortex::array::BoolArray;
+use vortex::compute::filter;
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::validity::ArrayValidity;
+use vortex::{IntoArray, IntoArrayVariant};
+use vortex_dtype::match_each_integer_ptype;
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
 use crate::DictArray;
 
 impl ArrayStatisticsCompute for DictArray {
-    fn compute_statistics(&self, _stat: Stat) -> VortexResult<StatsSet> {
+    fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         let mut stats: HashMap<Stat, Scalar> = HashMap::new();
 
-        if let Some(rc) = self.codes().statistics().compute(Stat::RunCount) {
-            stats.insert(Stat::RunCount, rc);
-        }
-        if let Some(min) = self.values().statistics().compute(Stat::Min) {
-            stats.insert(Stat::Min, min);
-        }
-        if let Some(max) = self.values().statistics().compute(Stat::Max) {
-            stats.insert(Stat::Max, max);
-        }
-        if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
-            stats.insert(Stat::IsConstant, is_constant);
-        }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
-        }
-
-        // if dictionary is sorted
-        if self
-            .values()
-            .statistics()
-            .compute_is_sorted()
-            .unwrap_or(false)
-        {
-            if let Some(codes_are_sorted) = self.codes().statistics().compute(Stat::IsSorted) {
-                stats.insert(Stat::IsSorted, codes_are_sorted);
+        match stat {
+            Stat::Min | Stat::Max => {
+                // The dictionary may hold values that are no longer referenced by any code.
+                let codes = self.codes().into_primitive()?;
+                let mut used = vec![false; self.values().len()];
+                match_each_integer_ptype!(codes.ptype(), |$P| {
+                    for &code in codes.maybe_null_slice::<$P>() {
+                        let code: usize = code.as_();
+                        used[code] = true;
+                    }
+                });
+                let values = filter(self.values(), BoolArray::from(used))?;
+                for s in [Stat::Min, Stat::Max] {
+                    if let Some(value) = values.statistics().compute(s) {
+                        stats.insert(s, value);
+                    }
+                }
             }
-
-            if let Some(codes_are_strict_sorted) =
-                self.codes().statistics().compute(Stat::IsStrictSorted)
-            {
-                stats.insert(Stat::IsStrictSorted, codes_are_strict_sorted);
+            Stat::NullCount => {
+                let valid = self
+                    .logical_validity()
+                    .into_array()
+                    .into_bool()?
+                    .boolean_buffer()
+                    .count_set_bits();
+                stats.insert(
+                    Stat::NullCount,
+                    ((self.codes().len() - valid) as u64).into(),
+                );
+            }
+            Stat::RunCount | Stat::IsConstant => {
+                // Assumes that no value is repeated in the dictionary
+                for s in [Stat::RunCount, Stat::IsConstant] {
+                    if let Some(value) = self.codes().statistics().compute(s) {
+                        stats.insert(s, value);
+                    }
+                }
+            }
+            Stat::IsSorted | Stat::IsStrictSorted => {
+                // If the dictionary is sorted, then the codes are ordered like their values
+                if self
+                    .values()
+                    .statistics()
+                    .compute_is_strict_sorted()
+                    .unwrap_or(false)
+                {
+                    for s in [Stat::IsSorted, Stat::IsStrictSorted] {
+                        if let Some(value) = self.codes().statistics().compute(s) {
+                            stats.insert(s, value);
+                        }
+                    }
+                }
             }
+            _ => {}
         }
 
         Ok(StatsSet::from(stats))
-- 
2.43.0


From e0d77a8a1da5174a0ed6a2c2c518487ab94f3399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 021/109] fix: searching bit-packed arrays for many values,
 beyond the patches and beyond the type

---
 .../src/bitpacking/compute/search_sorted.rs   | 57 ++++++++++++++-----
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..8ba0bc1 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -10,7 +10,7 @@ use vortex::compute::{
     search_sorted_u64, IndexOrd, Len, SearchResult, SearchSorted, SearchSortedFn, SearchSortedSide,
 };
 use vortex::validity::Validity;
-use vortex::ArrayDType;
+use vortex::{Array, ArrayDType};
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType};
 use vortex_error::{VortexError, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -31,8 +31,9 @@ impl SearchSortedFn for BitPackedArray {
                 search_sorted_native(self, pvalue, side)
             } else {
                 // provided u64 is too large to fit in the provided PType, value must be off
-                // the right end of the array.
-                Ok(SearchResult::NotFound(self.len()))
+                // the right end of the (non-null part of the) array.
+                search_sorted_native(self, <$P>::MAX, SearchSortedSide::Right)
+                    .map(|end| SearchResult::NotFound(end.to_index()))
             }
         })
     }
@@ -44,6 +45,7 @@ impl SearchSortedFn for BitPackedArray {
     ) -> VortexResult<Vec<SearchResult>> {
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             let searcher = BitPackedSearch::<'_, $P>::new(self);
+            let patches = self.patches();
 
             values
                 .iter()
@@ -52,7 +54,7 @@ impl SearchSortedFn for BitPackedArray {
                     // Unwrap to native value
                     let unwrapped_value: $P = value.cast(self.dtype())?.try_into()?;
 
-                    Ok(searcher.search_sorted(&unwrapped_value, side))
+                    search_with_patches(self, &searcher, patches.as_ref(), unwrapped_value, side)
                 })
                 .try_collect()
         })
@@ -65,15 +67,27 @@ impl SearchSortedFn for BitPackedArray {
     ) -> VortexResult<Vec<SearchResult>> {
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             let searcher = BitPackedSearch::<'_, $P>::new(self);
+            let patches = self.patches();
 
             values
                 .iter()
                 .copied()
                 .zip(sides.iter().copied())
                 .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
+                    if let Some(pvalue) = num_traits::cast::<u64, $P>(value) {
+                        search_with_patches(self, &searcher, patches.as_ref(), pvalue, side)
+                    } else {
+                        // provided u64 is too large to fit in the provided PType, value must be
+                        // off the right end of the (non-null part of the) array.
+                        search_with_patches(
+                            self,
+                            &searcher,
+                            patches.as_ref(),
+                            <$P>::MAX,
+                            SearchSortedSide::Right,
+                        )
+                        .map(|end| SearchResult::NotFound(end.to_index()))
+                    }
                 })
                 .try_collect()
         })
@@ -105,18 +119,35 @@ fn search_sorted_native<T>(
 where
     T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
 {
-    if let Some(patches_array) = array.patches() {
+    search_with_patches(
+        array,
+        &BitPackedSearch::<'_, T>::new(array),
+        array.patches().as_ref(),
+        value,
+        side,
+    )
+}
+
+fn search_with_patches<T>(
+    array: &BitPackedArray,
+    searcher: &BitPackedSearch<'_, T>,
+    patches: Option<&Array>,
+    value: T,
+    side: SearchSortedSide,
+) -> VortexResult<SearchResult>
+where
+    T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
+{
+    if let Some(patches_array) = patches {
         // If patches exist they must be the last elements in the array, if the value we're looking for is greater than
         // max packed value just search the patches
         let usize_value: usize = value.as_();
         if usize_value > array.max_packed_value() {
-            search_sorted_u64(&patches_array, value.as_(), side)
-        } else {
-            Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
+            return search_sorted_u64(patches_array, value.as_(), side);
         }
-    } else {
-        Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
     }
+
+    Ok(searcher.search_sorted(&value, side))
 }
 
 /// This wrapper exists, so that you can't invoke SearchSorted::search_sorted directly on BitPackedArray as it omits searching patches
-- 
2.43.0


From 45e309eaae68b2ce578137b226d8079f86e0fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 022/109] fix: searching sparse arrays that are empty or have a
 non-null fill value

---
 vortex-array/src/array/sparse/compute/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index c875c22..bd5da32 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -6,8 +6,8 @@ use crate::array::sparse::SparseArray;
 use crate::array::PrimitiveArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{
-    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn, SearchSortedSide,
-    SliceFn, TakeFn,
+    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
+    SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::{Array, IntoArray, IntoArrayVariant};
 
@@ -54,6 +54,15 @@ impl ScalarAtFn for SparseArray {
 
 impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if !self.fill_value().is_null() {
+            // The fill value takes part in the order, only nulls are sorted last.
+            return Ok(SearchSorted::search_sorted(self.as_ref(), value, side));
+        }
+
+        if self.metadata().indices_len == 0 {
+            return Ok(SearchResult::NotFound(0));
+        }
+
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
             let sidx = sr.to_offsets_index(self.metadata().indices_len);
             let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
-- 
2.43.0


From fad0dc3cc2d07ff23550de498739f4ed7f9d96e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 023/109] fix: arrow time zones, null buffers without nulls,
 offsets of empty strings

---
 vortex-array/src/arrow/array.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..245be50 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -63,9 +63,6 @@ where
             Validity::NonNullable,
         );
         primitive.statistics().set(Stat::IsSorted, true.into());
-        primitive
-            .statistics()
-            .set(Stat::IsStrictSorted, true.into());
         primitive.into_array()
     }
 }
@@ -85,7 +82,7 @@ where
             return arr.into();
         }
 
-        match T::DATA_TYPE {
+        match value.data_type() {
             DataType::Timestamp(time_unit, tz) => {
                 let tz = tz.clone().map(|s| s.to_string());
                 TemporalArray::new_timestamp(arr.into(), time_unit.into(), tz).into()
@@ -198,7 +195,7 @@ fn nulls(nulls: Option<&NullBuffer>, nullable: bool) -> Validity {
             })
             .unwrap_or_else(|| Validity::AllValid)
     } else {
-        assert!(nulls.is_none());
+        assert_eq!(nulls.map_or(0, |nulls| nulls.null_count()), 0);
         Validity::NonNullable
     }
 }
-- 
2.43.0


From 4ab692382654af6775b3f050e03775598ec0df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 024/109] fix: null comparisons of FSST are boolean

---
 encodings/fsst/src/compute.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index 10be131..2edd6cf 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -1,13 +1,12 @@
 use fsst::Symbol;
-use vortex::array::{varbin_scalar, BoolArray, ConstantArray};
+use vortex::array::{varbin_scalar, ConstantArray};
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
     compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
-use vortex::validity::Validity;
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
-use vortex_dtype::DType;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -83,7 +82,10 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(BoolArray::from_vec(vec![false; left.len()], Validity::AllInvalid).into_array())
+            Ok(
+                ConstantArray::new(Scalar::null(DType::Bool(Nullability::Nullable)), left.len())
+                    .into_array(),
+            )
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From 387075cc0ad3d087f1f378aca11a32b033492915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 025/109] fix: comparisons with a null constant are constant

---
 vortex-array/src/compute/compare.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index 131b094..a0fcd34 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -104,9 +104,8 @@ pub fn compare(
     for side in [left, right] {
         if let Ok(constant) = ConstantArray::try_from(side) {
             if constant.scalar_value().is_null() {
-                return Ok(
-                    BoolArray::from_vec(vec![false; left.len()], Validity::AllInvalid).into_array(),
-                );
+                let null = Scalar::null(DType::Bool(Nullability::Nullable));
+                return Ok(ConstantArray::new(null, left.len()).into_array());
             }
         }
     }
-- 
2.43.0


From 70f531a254d977ff14aa3fbafd0ff07224977f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 026/109] fix: time zone of timestamps exported to arrow

---
 vortex-array/src/canonical.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..29ff1d1 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -270,13 +270,22 @@ fn temporal_to_arrow(temporal_array: TemporalArray) -> VortexResult<ArrayRef> {
                 temporal_array.ext_dtype().id()
             ),
         },
-        TemporalMetadata::Timestamp(time_unit, _) => {
+        TemporalMetadata::Timestamp(time_unit, time_zone) => {
+            let time_zone = time_zone.as_deref();
             let (scalars, nulls) = extract_temporal_values!(&temporal_array.temporal_values(), i64);
             match time_unit {
-                TimeUnit::Ns => Arc::new(TimestampNanosecondArray::new(scalars, nulls)),
-                TimeUnit::Us => Arc::new(TimestampMicrosecondArray::new(scalars, nulls)),
-                TimeUnit::Ms => Arc::new(TimestampMillisecondArray::new(scalars, nulls)),
-                TimeUnit::S => Arc::new(TimestampSecondArray::new(scalars, nulls)),
+                TimeUnit::Ns => Arc::new(
+                    TimestampNanosecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
+                TimeUnit::Us => Arc::new(
+                    TimestampMicrosecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
+                TimeUnit::Ms => Arc::new(
+                    TimestampMillisecondArray::new(scalars, nulls).with_timezone_opt(time_zone),
+                ),
+                TimeUnit::S => {
+                    Arc::new(TimestampSecondArray::new(scalars, nulls).with_timezone_opt(time_zone))
+                }
                 _ => vortex_bail!(
                     "Invalid TimeUnit {time_unit} for {}",
                     temporal_array.ext_dtype().id()
-- 
2.43.0


From 2ac14ef399d9adac778aadcbb09116b9911fe64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 027/109] fix: comparing floats does not depend on the encoding

---
 encodings/alp/src/alp/compute.rs    |  5 ++---
 vortex-array/src/compute/compare.rs | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index 4d353a5..19dd32a 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -137,9 +137,8 @@ where
     F::ALPInt: Into<Scalar>,
 {
     // Patched values are not represented by the encoded integers, and only a value that the
-    // exponents can represent has an encoded integer to compare with. Zero has two representations
-    // that compare as equal, of which only one can be encoded.
-    if alp.patches().is_none() && value != F::zero() {
+    // exponents can represent has an encoded integer to compare with.
+    if alp.patches().is_none() {
         if let Ok(encoded) = F::encode_single(value, alp.exponents()) {
             let s = ConstantArray::new(encoded, alp.len());
             return compare(alp.encoded(), s.as_ref(), operator);
diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index a0fcd34..a4d8ee2 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -1,8 +1,9 @@
 use core::fmt;
+use std::cmp::Ordering;
 use std::fmt::{Display, Formatter};
 
 use arrow_ord::cmp;
-use vortex_dtype::{DType, Nullability};
+use vortex_dtype::{DType, NativePType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
@@ -59,14 +60,16 @@ impl Operator {
         }
     }
 
-    pub fn to_fn<T: PartialEq + PartialOrd>(&self) -> fn(T, T) -> bool {
+    /// The comparison of native values. Floats compare by their total order, as they do in the
+    /// arrow kernels and as scalars.
+    pub fn to_fn<T: NativePType>(&self) -> fn(T, T) -> bool {
         match self {
-            Operator::Eq => |l, r| l == r,
-            Operator::NotEq => |l, r| l != r,
-            Operator::Gt => |l, r| l > r,
-            Operator::Gte => |l, r| l >= r,
-            Operator::Lt => |l, r| l < r,
-            Operator::Lte => |l, r| l <= r,
+            Operator::Eq => |l, r| l.is_eq(r),
+            Operator::NotEq => |l, r| !l.is_eq(r),
+            Operator::Gt => |l, r| l.compare(r).is_gt(),
+            Operator::Gte => |l, r| l.compare(r).is_ge(),
+            Operator::Lt => |l, r| l.compare(r).is_lt(),
+            Operator::Lte => |l, r| l.compare(r).is_le(),
         }
     }
 }
@@ -142,9 +145,10 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
     if lhs.is_null() | rhs.is_null() {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
+        let equal = lhs.partial_cmp(rhs) == Some(Ordering::Equal);
         let b = match operator {
-            Operator::Eq => lhs == rhs,
-            Operator::NotEq => lhs != rhs,
+            Operator::Eq => equal,
+            Operator::NotEq => !equal,
             Operator::Gt => lhs > rhs,
             Operator::Gte => lhs >= rhs,
             Operator::Lt => lhs < rhs,
-- 
2.43.0


From 60b56ca4090617663e594fc5981344a4f8f901a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 028/109] fix: statistics are computed without holding their
 lock

---
 vortex-array/src/data.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/data.rs b/vortex-array/src/data.rs
index 9deb597..15d91b9 100644
--- a/vortex-array/src/data.rs
+++ b/vortex-array/src/data.rs
@@ -176,16 +176,18 @@ impl Statistics for ArrayData {
             return Some(s);
         }
 
+        // Computing takes long and may look at the statistics, or fail: do not hold the lock meanwhile
+        let computed = self
+            .to_array()
+            .with_dyn(|a| a.compute_statistics(stat))
+            .ok()?;
+
         self.stats_map
             .write()
             .unwrap_or_else(|_| {
                 vortex_panic!("Failed to write to stats map while computing {}", stat)
             })
-            .extend(
-                self.to_array()
-                    .with_dyn(|a| a.compute_statistics(stat))
-                    .ok()?,
-            );
+            .extend(computed);
         self.get(stat)
     }
 }
-- 
2.43.0


From dccfb2fe8272d3b39963560e4a30267ee59d6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 029/109] fix: statistics of roaring booleans that end with
 false

---
 encodings/roaring/src/boolean/stats.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encodings/roaring/src/boolean/stats.rs b/encodings/roaring/src/boolean/stats.rs
index 5f62f20..2eae4c8 100644
--- a/encodings/roaring/src/boolean/stats.rs
+++ b/encodings/roaring/src/boolean/stats.rs
@@ -33,12 +33,14 @@ impl ArrayStatisticsCompute for BitmapStats {
         let bitset_slice = self.0.as_slice();
         let whole_chunks = self.1 / 64;
         let last_chunk_len = self.1 % 64;
-        let fist_bool = bitset_slice[0] & 1 == 1;
+        let fist_bool = bitset_slice.first().is_some_and(|bits64| bits64 & 1 == 1);
         let mut stats = RoaringBoolStatsAccumulator::new(fist_bool);
-        for bits64 in bitset_slice[0..whole_chunks].iter() {
-            stats.next(*bits64);
+        // The bitset ends with the last true value
+        let chunk = |idx: usize| bitset_slice.get(idx).copied().unwrap_or_default();
+        for idx in 0..whole_chunks {
+            stats.next(chunk(idx));
         }
-        stats.next_up_to_length(bitset_slice[whole_chunks], last_chunk_len);
+        stats.next_up_to_length(chunk(whole_chunks), last_chunk_len);
         Ok(stats.finish(self.2))
     }
 }
-- 
2.43.0


From 0b7303ea8e196f9aa1ab27aef1942c35dee6b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 030/109] fix: searching FoR arrays for values far above the
 reference

---
 encodings/fastlanes/src/for/compute.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/encodings/fastlanes/src/for/compute.rs b/encodings/fastlanes/src/for/compute.rs
index 62411b8..c6b33d1 100644
--- a/encodings/fastlanes/src/for/compute.rs
+++ b/encodings/fastlanes/src/for/compute.rs
@@ -137,20 +137,15 @@ where
 
     // We first determine whether the value can be represented in the compressed array. For any value that is not
     // representable, it is by definition NotFound. For NotFound values, the correct insertion index is by definition
-    // the same regardless of which side we search on.
-    // However, to correctly handle repeated values in the array, we need to search left on the next *representable*
-    // value (i.e., increment the translated value by 1).
+    // the same regardless of which side we search on: it is right of the largest *representable* value below it.
     let representable = decoded_value == primitive_value;
-    let (side, target) = if representable {
-        (side, encoded_value)
+    let side = if representable {
+        side
     } else {
-        (
-            SearchSortedSide::Left,
-            encoded_value.wrapping_add(&T::one()),
-        )
+        SearchSortedSide::Right
     };
 
-    let target_scalar = Scalar::primitive(target, value.dtype().nullability())
+    let target_scalar = Scalar::primitive(encoded_value, value.dtype().nullability())
         .reinterpret_cast(array.ptype().to_unsigned());
     let search_result = search_sorted(&array.encoded(), target_scalar, side)?;
     Ok(
-- 
2.43.0


From 3118a949c266640f313d594cd95fe2530c888b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 031/109] fix: searching for unsigned integers in arrays of
 other types

---
 vortex-array/src/array/sparse/compute/mod.rs |  5 +-
 vortex-array/src/compute/search_sorted.rs    | 55 +++++++++++++++-----
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index bd5da32..9a93c9e 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -9,7 +9,7 @@ use crate::compute::{
     search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
     SearchSortedSide, SliceFn, TakeFn,
 };
-use crate::{Array, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 mod slice;
 mod take;
@@ -56,7 +56,8 @@ impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
         if !self.fill_value().is_null() {
             // The fill value takes part in the order, only nulls are sorted last.
-            return Ok(SearchSorted::search_sorted(self.as_ref(), value, side));
+            let value = value.cast(self.dtype())?;
+            return Ok(SearchSorted::search_sorted(self.as_ref(), &value, side));
         }
 
         if self.metadata().indices_len == 0 {
diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index e9082c9..aee211c 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -4,11 +4,13 @@ use std::fmt::{Debug, Display, Formatter};
 use std::hint;
 
 use itertools::Itertools;
+use vortex_dtype::{match_each_native_ptype, DType, PType};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
 use crate::compute::unary::scalar_at;
-use crate::{Array, ArrayDType};
+use crate::validity::LogicalValidity;
+use crate::{Array, ArrayDType, IntoArrayVariant};
 
 #[derive(Debug, Copy, Clone)]
 pub enum SearchSortedSide {
@@ -164,10 +166,12 @@ pub fn search_sorted_u64(
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult> {
     array.with_dyn(|a| {
-        if let Some(search_sorted) = a.search_sorted() {
+        if !u64_fits(array.dtype(), target) {
+            Ok(SearchResult::NotFound(first_null(array)?))
+        } else if let Some(search_sorted) = a.search_sorted() {
             search_sorted.search_sorted_u64(target, side)
         } else if a.scalar_at().is_some() {
-            let scalar = Scalar::primitive(target, array.dtype().nullability());
+            let scalar = Scalar::from(target).cast(array.dtype())?;
             Ok(array.search_sorted(&scalar, side))
         } else {
             vortex_bail!(
@@ -210,20 +214,45 @@ pub fn search_sorted_u64_many(
     sides: &[SearchSortedSide],
 ) -> VortexResult<Vec<SearchResult>> {
     array.with_dyn(|a| {
-        if let Some(search_sorted) = a.search_sorted() {
-            search_sorted.search_sorted_u64_many(targets, sides)
-        } else {
-            // Call in loop and collect
-            targets
-                .iter()
-                .copied()
-                .zip(sides.iter().copied())
-                .map(|(target, side)| search_sorted_u64(array, target, side))
-                .try_collect()
+        match a.search_sorted() {
+            Some(search_sorted) if targets.iter().all(|t| u64_fits(array.dtype(), *t)) => {
+                search_sorted.search_sorted_u64_many(targets, sides)
+            }
+            _ => {
+                // Call in loop and collect
+                targets
+                    .iter()
+                    .copied()
+                    .zip(sides.iter().copied())
+                    .map(|(target, side)| search_sorted_u64(array, target, side))
+                    .try_collect()
+            }
         }
     })
 }
 
+/// Whether the value can be an element of an array of this type. If it can't it is greater than
+/// all of the elements, except for the nulls, which are sorted last.
+fn u64_fits(dtype: &DType, value: u64) -> bool {
+    match PType::try_from(dtype) {
+        Ok(ptype) => {
+            match_each_native_ptype!(ptype, |$T| num_traits::cast::<u64, $T>(value).is_some())
+        }
+        Err(_) => true,
+    }
+}
+
+/// The position of the first null of a sorted array.
+fn first_null(array: &Array) -> VortexResult<usize> {
+    match array.with_dyn(|a| a.logical_validity()) {
+        LogicalValidity::AllValid(len) => Ok(len),
+        LogicalValidity::AllInvalid(_) => Ok(0),
+        LogicalValidity::Array(validity) => {
+            Ok(validity.into_bool()?.boolean_buffer().count_set_bits())
+        }
+    }
+}
+
 pub trait IndexOrd<V> {
     fn index_cmp(&self, idx: usize, elem: &V) -> Option<Ordering>;
 
-- 
2.43.0


From 13d5a6c23a83c0695c71ecc1e2db062b8cd7bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 032/109] fix: comparing VarBin arrays with 64-bit offsets with
 constants

---
 vortex-array/src/array/varbin/arrow.rs        | 19 +++++++++++++++++--
 .../src/array/varbin/compute/compare.rs       |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/varbin/arrow.rs b/vortex-array/src/array/varbin/arrow.rs
index 5f3e8b3..6caa018 100644
--- a/vortex-array/src/array/varbin/arrow.rs
+++ b/vortex-array/src/array/varbin/arrow.rs
@@ -1,6 +1,7 @@
 use std::sync::Arc;
 
 use arrow_array::{ArrayRef, BinaryArray, Datum, LargeBinaryArray, LargeStringArray, StringArray};
+use arrow_schema::DataType;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
@@ -84,9 +85,23 @@ pub(crate) fn varbin_to_arrow(varbin_array: &VarBinArray) -> VortexResult<ArrayR
     })
 }
 
-/// Create a [`Datum`] from a Utf8 or Binary scalar.
-pub(crate) fn varbin_datum(scalar: Scalar) -> VortexResult<Arc<dyn Datum>> {
+/// Create a [`Datum`] from a Utf8 or Binary scalar, to be used with an array of the given type.
+pub(crate) fn varbin_datum(scalar: Scalar, data_type: &DataType) -> VortexResult<Arc<dyn Datum>> {
     match scalar.dtype() {
+        DType::Utf8(_) if *data_type == DataType::LargeUtf8 => Ok(Arc::new(
+            scalar
+                .value()
+                .as_buffer_string()?
+                .map(LargeStringArray::new_scalar)
+                .unwrap_or_else(|| arrow_array::Scalar::new(LargeStringArray::new_null(1))),
+        )),
+        DType::Binary(_) if *data_type == DataType::LargeBinary => Ok(Arc::new(
+            scalar
+                .value()
+                .as_buffer()?
+                .map(LargeBinaryArray::new_scalar)
+                .unwrap_or_else(|| arrow_array::Scalar::new(LargeBinaryArray::new_null(1))),
+        )),
         DType::Utf8(_) => Ok(Arc::new(
             scalar
                 .value()
diff --git a/vortex-array/src/array/varbin/compute/compare.rs b/vortex-array/src/array/varbin/compute/compare.rs
index 5a4ad5a..6dbf52b 100644
--- a/vortex-array/src/array/varbin/compute/compare.rs
+++ b/vortex-array/src/array/varbin/compute/compare.rs
@@ -30,7 +30,7 @@ fn compare_constant(
 ) -> VortexResult<Array> {
     // Compare using the arrow kernels directly.
     let arrow_lhs = varbin_to_arrow(lhs)?;
-    let constant = varbin_datum(rhs.owned_scalar())?;
+    let constant = varbin_datum(rhs.owned_scalar(), arrow_lhs.data_type())?;
 
     match arrow_lhs.data_type() {
         DataType::Binary => {
-- 
2.43.0


From 9d0bda02841122c9ad67076ef9c2a38f29a2b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 033/109] fix: boolean operations, comparison and search with
 constants

---
 vortex-array/src/array/constant/compute.rs | 29 +++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..d647238 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -11,7 +11,7 @@ use crate::compute::{
     SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl ArrayCompute for ConstantArray {
     fn compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
@@ -88,6 +88,11 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.is_empty() {
+            return Ok(SearchResult::NotFound(0));
+        }
+
+        let value = value.cast(self.dtype())?;
         match self
             .scalar_value()
             .partial_cmp(value.value())
@@ -105,6 +110,10 @@ impl SearchSortedFn for ConstantArray {
 
 impl MaybeCompareFn for ConstantArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
+        if other.is_empty() {
+            return None;
+        }
+
         (ConstantArray::try_from(other).is_ok()
             || other
                 .statistics()
@@ -148,7 +157,7 @@ fn constant_array_bool_impl(
     fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
 ) -> VortexResult<Array> {
     // If the right side is constant
-    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
@@ -160,9 +169,21 @@ fn constant_array_bool_impl(
         Ok(ConstantArray::new(scalar, constant_array.len()).into_array())
     } else {
         // try and use a the rhs specialized implementation if it exists
-        match fallback_fn(other, constant_array.as_ref()) {
+        let specialized = if ConstantArray::try_from(other).is_ok() {
+            None
+        } else {
+            fallback_fn(other, constant_array.as_ref())
+        };
+
+        match specialized {
             Some(r) => r,
-            None => vortex_bail!("Operation is not supported"),
+            None => {
+                let other = other.clone().into_bool()?.into_array();
+                match fallback_fn(&other, constant_array.as_ref()) {
+                    Some(r) => r,
+                    None => vortex_bail!("Operation is not supported"),
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 62d7df8afcb5eef5a5307e8b11cf02dd34200e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 034/109] fix: comparing encoded extension arrays with
 constants

---
 vortex-array/src/compute/compare.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index a4d8ee2..429863e 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -7,7 +7,7 @@ use vortex_dtype::{DType, NativePType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::array::{BoolArray, Constant, ConstantArray};
+use crate::array::{BoolArray, Constant, ConstantArray, Extension};
 use crate::arrow::FromArrowArray;
 use crate::validity::Validity;
 use crate::{Array, ArrayDType, ArrayDef, IntoArray, IntoCanonical};
@@ -125,6 +125,15 @@ pub fn compare(
         return selection;
     }
 
+    // Constants of extension types have no canonical form, but canonical arrays compare with them
+    if right.is_encoding(Constant::ID)
+        && matches!(left.dtype(), DType::Extension(..))
+        && !left.is_encoding(Extension::ID)
+    {
+        let canonical = Array::from(left.clone().into_canonical()?);
+        return compare(canonical, right, operator);
+    }
+
     // Fallback to arrow on canonical types
     let lhs = left.clone().into_canonical()?.into_arrow()?;
     let rhs = right.clone().into_canonical()?.into_arrow()?;
-- 
2.43.0


From f3e7255b199db0dfd6910e2f820f0eb6c778bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 035/109] fix: statistics of arrays without values

---
 vortex-array/src/stats/statsset.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..13f1a9d 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -36,7 +36,7 @@ impl StatsSet {
             (Stat::IsConstant, true.into()),
             (Stat::IsSorted, true.into()),
             (Stat::IsStrictSorted, (len < 2).into()),
-            (Stat::RunCount, 1.into()),
+            (Stat::RunCount, 1_u64.into()),
             (Stat::NullCount, len.into()),
         ]);
 
@@ -46,15 +46,14 @@ impl StatsSet {
                 stats.insert(Stat::TrueCount, 0.into());
             }
             DType::Primitive(ptype, _) => {
-                ptype.byte_width();
-                stats.insert(
-                    Stat::BitWidthFreq,
-                    vec![0_u64; ptype.byte_width() * 8 + 1].into(),
-                );
-                stats.insert(
-                    Stat::TrailingZeroFreq,
-                    vec![ptype.byte_width() * 8; ptype.byte_width() * 8 + 1].into(),
-                );
+                // Nulls count as having no bits, all of them zero
+                let bit_width = ptype.byte_width() * 8;
+                let mut bit_widths = vec![0_u64; bit_width + 1];
+                bit_widths[0] = len as u64;
+                let mut trailing_zeros = vec![0_u64; bit_width + 1];
+                trailing_zeros[bit_width] = len as u64;
+                stats.insert(Stat::BitWidthFreq, bit_widths.into());
+                stats.insert(Stat::TrailingZeroFreq, trailing_zeros.into());
             }
             _ => {}
         }
-- 
2.43.0


From 61dfa4df96e7ee94c86176e81090c7f107c52d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 036/109] fix: merging statistics keeps only what is known

---
 vortex-array/src/stats/statsset.rs | 63 +++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 13f1a9d..2be4a05 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::collections::hash_map::{Entry, IntoIter};
 use std::collections::HashMap;
 
@@ -106,17 +107,21 @@ impl StatsSet {
     }
 
     fn merge_min(&mut self, other: &Self) {
-        self.merge_ordered(Stat::Min, other, |other, own| other < own);
+        self.merge_ordered(Stat::Min, other, |other, own| {
+            own.is_null() || (other.is_valid() && other < own)
+        });
     }
 
     fn merge_max(&mut self, other: &Self) {
-        self.merge_ordered(Stat::Max, other, |other, own| other > own);
+        self.merge_ordered(Stat::Max, other, |other, own| {
+            own.is_null() || (other.is_valid() && other > own)
+        });
     }
 
     /// Merges stats if both are present, if either stat is not present, drops the stat from the
     /// result set. For example, if we know the minimums of two arrays, the minimum of their union
     /// is the minimum-of-minimums, but if we only know the minimum of one of the two arrays, we
-    /// do not know the minimum of their union.
+    /// do not know the minimum of their union. Arrays without values have a null minimum and maximum.
     fn merge_ordered<F: Fn(&Scalar, &Scalar) -> bool>(&mut self, stat: Stat, other: &Self, cmp: F) {
         if let Entry::Occupied(mut e) = self.values.entry(stat) {
             if let Some(ov) = other.get(stat) {
@@ -130,13 +135,22 @@ impl StatsSet {
     }
 
     fn merge_is_constant(&mut self, other: &Self) {
-        if let Some(is_constant) = self.get_as(Stat::IsConstant) {
-            if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
-                    return;
+        if let Some(is_constant) = self.get_as::<bool>(Stat::IsConstant) {
+            let other_is_constant = other.get_as::<bool>(Stat::IsConstant);
+            if !is_constant || other_is_constant == Some(false) {
+                self.values.insert(Stat::IsConstant, false.into());
+                return;
+            }
+            // Both are constant, they have to be the same constant
+            match (other_is_constant, self.get(Stat::Min), other.get(Stat::Min)) {
+                (Some(_), Some(own), Some(other)) => {
+                    let is_same = own.partial_cmp(other) == Some(Ordering::Equal);
+                    self.values.insert(Stat::IsConstant, is_same.into());
+                }
+                _ => {
+                    self.values.remove(&Stat::IsConstant);
                 }
             }
-            self.values.insert(Stat::IsConstant, false.into());
         }
     }
 
@@ -148,25 +162,30 @@ impl StatsSet {
         self.merge_sortedness_stat(other, Stat::IsStrictSorted, |own, other| own < other)
     }
 
-    fn merge_sortedness_stat<F: Fn(Option<&Scalar>, Option<&Scalar>) -> bool>(
+    fn merge_sortedness_stat<F: Fn(&Scalar, &Scalar) -> bool>(
         &mut self,
         other: &Self,
         stat: Stat,
         cmp: F,
     ) {
-        if let Some(is_sorted) = self.get_as(stat) {
-            if let Some(other_is_sorted) = other.get_as(stat) {
-                if !(self.get(Stat::Max).is_some() && other.get(Stat::Min).is_some()) {
-                    self.values.remove(&stat);
-                } else if is_sorted
-                    && other_is_sorted
-                    && cmp(self.get(Stat::Max), other.get(Stat::Min))
-                {
-                    return;
-                } else {
-                    self.values.insert(stat, false.into());
-                }
-            } else {
+        let Some(is_sorted) = self.get_as::<bool>(stat) else {
+            return;
+        };
+        let Some(other_is_sorted) = other.get_as::<bool>(stat) else {
+            self.values.remove(&stat);
+            return;
+        };
+        if !is_sorted || !other_is_sorted {
+            self.values.insert(stat, false.into());
+            return;
+        }
+        match (self.get(Stat::Max), other.get(Stat::Min)) {
+            (Some(own), Some(other)) => {
+                // Nulls do not take part in the order
+                let is_sorted = own.is_null() || other.is_null() || cmp(own, other);
+                self.values.insert(stat, is_sorted.into());
+            }
+            _ => {
                 self.values.remove(&stat);
             }
         }
-- 
2.43.0


From 41804e946744c6d5e3fe0ef9712dd48232e95343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 037/109] fix: minimum of nullable booleans, constness of
 signed zeros

---
 vortex-array/src/array/bool/stats.rs      | 6 +++++-
 vortex-array/src/array/primitive/stats.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..21c12c3 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -119,7 +119,10 @@ impl BoolStatsAccumulator {
 
     pub fn finish(self) -> StatsSet {
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (
+                Stat::Min,
+                (self.true_count == self.len - self.null_count).into(),
+            ),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
@@ -135,6 +138,7 @@ impl BoolStatsAccumulator {
             ),
             (Stat::RunCount, self.run_count.into()),
             (Stat::TrueCount, self.true_count.into()),
+            (Stat::NullCount, self.null_count.into()),
         ]))
     }
 }
diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index ac7aadf..d5eae99 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -207,7 +207,7 @@ impl<T: PStatsType> StatsAccumulator<T> {
     }
 
     pub fn finish(self) -> StatsSet {
-        let is_constant = (self.min == self.max && self.null_count == 0 && self.nan_count == 0)
+        let is_constant = (self.min.is_eq(self.max) && self.null_count == 0 && self.nan_count == 0)
             || self.null_count == self.len;
 
         StatsSet::from(HashMap::from([
-- 
2.43.0


From f2a7f4ef1546435be923961f2107e758ece2436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 038/109] fix: statistics of empty arrays

---
 encodings/roaring/src/boolean/mod.rs      | 31 +++++++++++++----------
 vortex-array/src/array/constant/mod.rs    | 18 ++++++++-----
 vortex-array/src/array/primitive/stats.rs |  3 +++
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index 5ea58f5..ddf9712 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -39,19 +39,24 @@ impl RoaringBoolArray {
             vortex_bail!("RoaringBoolArray length is less than bitmap cardinality")
         } else {
             let roaring_stats = bitmap.statistics();
-            let stats = StatsSet::from(HashMap::from([
-                (
-                    Stat::Min,
-                    (roaring_stats.cardinality == length as u64).into(),
-                ),
-                (Stat::Max, (roaring_stats.cardinality > 0).into()),
-                (
-                    Stat::IsConstant,
-                    (roaring_stats.cardinality == length as u64 || roaring_stats.cardinality == 0)
-                        .into(),
-                ),
-                (Stat::TrueCount, roaring_stats.cardinality.into()),
-            ]));
+            let stats = if length == 0 {
+                StatsSet::new()
+            } else {
+                StatsSet::from(HashMap::from([
+                    (
+                        Stat::Min,
+                        (roaring_stats.cardinality == length as u64).into(),
+                    ),
+                    (Stat::Max, (roaring_stats.cardinality > 0).into()),
+                    (
+                        Stat::IsConstant,
+                        (roaring_stats.cardinality == length as u64
+                            || roaring_stats.cardinality == 0)
+                            .into(),
+                    ),
+                    (Stat::TrueCount, roaring_stats.cardinality.into()),
+                ]))
+            };
 
             Ok(Self {
                 typed: TypedArray::try_from_parts(
diff --git a/vortex-array/src/array/constant/mod.rs b/vortex-array/src/array/constant/mod.rs
index 4adb816..3f088e2 100644
--- a/vortex-array/src/array/constant/mod.rs
+++ b/vortex-array/src/array/constant/mod.rs
@@ -41,13 +41,17 @@ impl ConstantArray {
         let scalar = scalar.into();
         // TODO(aduffy): add stats for bools, ideally there should be a
         //  StatsSet::constant(Scalar) constructor that does this for us, like StatsSet::nulls.
-        let stats = StatsSet::from(HashMap::from([
-            (Stat::Max, scalar.clone()),
-            (Stat::Min, scalar.clone()),
-            (Stat::IsConstant, true.into()),
-            (Stat::IsSorted, true.into()),
-            (Stat::RunCount, 1.into()),
-        ]));
+        let stats = if length == 0 {
+            StatsSet::new()
+        } else {
+            StatsSet::from(HashMap::from([
+                (Stat::Max, scalar.clone()),
+                (Stat::Min, scalar.clone()),
+                (Stat::IsConstant, true.into()),
+                (Stat::IsSorted, true.into()),
+                (Stat::RunCount, 1_u64.into()),
+            ]))
+        };
 
         Self::try_from_parts(
             scalar.dtype().clone(),
diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index d5eae99..0eecf8d 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -20,6 +20,9 @@ impl<T: NativePType + Into<Scalar> + BitWidth> PStatsType for T {}
 
 impl ArrayStatisticsCompute for PrimitiveArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
+        if self.is_empty() {
+            return Ok(StatsSet::new());
+        }
         match_each_native_ptype!(self.ptype(), |$P| {
             match self.logical_validity() {
                 LogicalValidity::AllValid(_) => self.maybe_null_slice::<$P>().compute_statistics(stat),
-- 
2.43.0


From e05be58ab64ab483a035b82c48cee879a70eaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 039/109] fix: exporting unaligned views to arrow

---
 vortex-array/src/array/varbinview/mod.rs | 32 ++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/vortex-array/src/array/varbinview/mod.rs b/vortex-array/src/array/varbinview/mod.rs
index f2bbba7..ab11897 100644
--- a/vortex-array/src/array/varbinview/mod.rs
+++ b/vortex-array/src/array/varbinview/mod.rs
@@ -1,4 +1,5 @@
 use std::fmt::{Debug, Display, Formatter};
+use std::mem::align_of;
 use std::sync::Arc;
 
 use ::serde::{Deserialize, Serialize};
@@ -515,6 +516,25 @@ impl IntoCanonical for VarBinViewArray {
     }
 }
 
+/// The views as Arrow expects them: buffers of bytes need not be aligned for that.
+fn aligned_views(views: &Buffer) -> ScalarBuffer<u128> {
+    let buffer = views.clone().into_arrow();
+    if buffer.as_ptr().align_offset(align_of::<u128>()) == 0 {
+        ScalarBuffer::from(buffer)
+    } else {
+        ScalarBuffer::from(
+            buffer
+                .chunks_exact(VIEW_SIZE_BYTES)
+                .map(|view| {
+                    let mut le_bytes = [0u8; VIEW_SIZE_BYTES];
+                    le_bytes.copy_from_slice(view);
+                    u128::from_le_bytes(le_bytes)
+                })
+                .collect::<Vec<_>>(),
+        )
+    }
+}
+
 pub(crate) fn varbinview_as_arrow(var_bin_view: &VarBinViewArray) -> ArrayRef {
     // Views should be buffer of u8
     let views = var_bin_view
@@ -545,18 +565,10 @@ pub(crate) fn varbinview_as_arrow(var_bin_view: &VarBinViewArray) -> ArrayRef {
     // Switch on Arrow DType.
     match var_bin_view.dtype() {
         DType::Binary(_) => Arc::new(unsafe {
-            BinaryViewArray::new_unchecked(
-                ScalarBuffer::<u128>::from(views.buffer().clone().into_arrow()),
-                data,
-                nulls,
-            )
+            BinaryViewArray::new_unchecked(aligned_views(views.buffer()), data, nulls)
         }),
         DType::Utf8(_) => Arc::new(unsafe {
-            StringViewArray::new_unchecked(
-                ScalarBuffer::<u128>::from(views.buffer().clone().into_arrow()),
-                data,
-                nulls,
-            )
+            StringViewArray::new_unchecked(aligned_views(views.buffer()), data, nulls)
         }),
         _ => vortex_panic!("expected utf8 or binary, got {}", var_bin_view.dtype()),
     }
-- 
2.43.0


From 176e7a2b70e52366e80570e37eebd1c3bc3c6d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 040/109] fix: casts of arrays with nulls

---
 vortex-array/src/array/primitive/compute/cast.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/cast.rs b/vortex-array/src/array/primitive/compute/cast.rs
index 7db3ed3..d8f57ca 100644
--- a/vortex-array/src/array/primitive/compute/cast.rs
+++ b/vortex-array/src/array/primitive/compute/cast.rs
@@ -3,7 +3,7 @@ use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::unary::CastFn;
-use crate::validity::Validity;
+use crate::validity::{ArrayValidity, Validity};
 use crate::{Array, ArrayDType, IntoArray};
 
 impl CastFn for PrimitiveArray {
@@ -20,7 +20,7 @@ impl CastFn for PrimitiveArray {
             // from non-nullable to nullable
             self.validity().into_nullable()
         } else if new_nullability == Nullability::NonNullable
-            && self.validity().to_logical(self.len()).all_valid()
+            && (self.is_empty() || self.validity().to_logical(self.len()).all_valid())
         {
             // from nullable but all valid, to non-nullable
             Validity::NonNullable
@@ -46,15 +46,18 @@ impl CastFn for PrimitiveArray {
 }
 
 fn cast<T: NativePType>(array: &PrimitiveArray) -> VortexResult<Vec<T>> {
+    let nulls = array.logical_validity().to_null_buffer()?;
     match_each_native_ptype!(array.ptype(), |$E| {
         array
             .maybe_null_slice::<$E>()
             .iter()
+            .enumerate()
             // TODO(ngates): allow configurable checked/unchecked casting
-            .map(|&v| {
-                T::from(v).ok_or_else(|| {
-                    vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)
-                })
+            .map(|(i, &v)| match T::from(v) {
+                Some(t) => Ok(t),
+                // whatever is stored beneath a null need not fit
+                None if nulls.as_ref().is_some_and(|n| n.is_null(i)) => Ok(T::default()),
+                None => Err(vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)),
             })
             .collect()
     })
-- 
2.43.0


From 983ffd404728ed2094c65747fafb44d8c96a5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 041/109] fix: subtract_scalar dropping nullability and
 overflowing

---
 .../primitive/compute/subtract_scalar.rs      | 41 +++++++++----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/subtract_scalar.rs b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
index 2524089..1717283 100644
--- a/vortex-array/src/array/primitive/compute/subtract_scalar.rs
+++ b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
@@ -1,5 +1,5 @@
 use itertools::Itertools;
-use num_traits::WrappingSub;
+use num_traits::{CheckedSub, WrappingSub};
 use vortex_dtype::{match_each_float_ptype, match_each_integer_ptype, NativePType};
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 use vortex_scalar::{PrimitiveScalar, Scalar};
@@ -38,14 +38,14 @@ impl SubtractScalarFn for PrimitiveArray {
                 let sub_vec : Vec<$T> = self.maybe_null_slice::<$T>()
                 .iter()
                 .map(|&v| v - to_subtract).collect_vec();
-                PrimitiveArray::from(sub_vec)
+                PrimitiveArray::from_vec(sub_vec, self.validity())
             })
         };
         Ok(result.into_array())
     }
 }
 
-fn subtract_scalar_integer<T: NativePType + WrappingSub>(
+fn subtract_scalar_integer<T: NativePType + CheckedSub + WrappingSub>(
     subtract_from: &PrimitiveArray,
     to_subtract: T,
 ) -> VortexResult<PrimitiveArray> {
@@ -54,24 +54,23 @@ fn subtract_scalar_integer<T: NativePType + WrappingSub>(
         return Ok(subtract_from.clone());
     }
 
-    let contains_nulls = !subtract_from.logical_validity().all_valid();
-    let subtraction_result = if contains_nulls {
-        let sub_vec = subtract_from
-            .maybe_null_slice()
-            .iter()
-            .map(|&v: &T| v.wrapping_sub(&to_subtract))
-            .collect_vec();
-        PrimitiveArray::from_vec(sub_vec, subtract_from.validity())
-    } else {
-        PrimitiveArray::from(
-            subtract_from
-                .maybe_null_slice::<T>()
-                .iter()
-                .map(|&v| v - to_subtract)
-                .collect_vec(),
-        )
-    };
-    Ok(subtraction_result)
+    let nulls = subtract_from.logical_validity().to_null_buffer()?;
+    let sub_vec = subtract_from
+        .maybe_null_slice()
+        .iter()
+        .enumerate()
+        .map(|(i, &v): (usize, &T)| match v.checked_sub(&to_subtract) {
+            Some(r) => Ok(r),
+            // whatever is stored beneath a null may overflow
+            None if nulls.as_ref().is_some_and(|n| n.is_null(i)) => {
+                Ok(v.wrapping_sub(&to_subtract))
+            }
+            None => {
+                Err(vortex_err!(ComputeError: "Overflow subtracting {} from {}", to_subtract, v))
+            }
+        })
+        .collect::<VortexResult<Vec<T>>>()?;
+    Ok(PrimitiveArray::from_vec(sub_vec, subtract_from.validity()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From a150ee2ad0ecbffaf2b6db3f94154e6be5673e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 042/109] fix: constant arrays: invert keeps nullability,
 element access to nulls

---
 vortex-array/src/array/constant/variants.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 81e3a59..7808c34 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -2,6 +2,7 @@ use std::iter;
 use std::sync::Arc;
 
 use vortex_dtype::field::Field;
+use vortex_dtype::half::f16;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_panic, VortexError, VortexExpect as _, VortexResult};
 use vortex_scalar::{ExtScalar, Scalar, ScalarValue, StructScalar};
@@ -57,7 +58,11 @@ impl BoolArrayTrait for ConstantArray {
         let value = self.scalar_value().as_bool()?;
         match value {
             None => Ok(self.clone().into_array()),
-            Some(b) => Ok(ConstantArray::new(!b, self.len()).into_array()),
+            Some(b) => Ok(ConstantArray::new(
+                Scalar::bool(!b, self.dtype().nullability()),
+                self.len(),
+            )
+            .into_array()),
         }
     }
 
@@ -90,7 +95,7 @@ impl BoolArrayTrait for ConstantArray {
 
 impl<T> Accessor<T> for ConstantArray
 where
-    T: Clone,
+    T: Clone + Default,
     T: TryFrom<ScalarValue, Error = VortexError>,
 {
     fn array_len(&self) -> usize {
@@ -102,6 +107,9 @@ where
     }
 
     fn value_unchecked(&self, _index: usize) -> T {
+        if self.scalar_value().is_null() {
+            return T::default();
+        }
         T::try_from(self.scalar_value().clone()).vortex_expect("Failed to convert scalar to value")
     }
 
@@ -115,6 +123,13 @@ where
 }
 
 impl PrimitiveArrayTrait for ConstantArray {
+    fn f16_accessor(&self) -> Option<AccessorRef<f16>> {
+        match self.dtype() {
+            DType::Primitive(PType::F16, _) => Some(Arc::new(self.clone())),
+            _ => None,
+        }
+    }
+
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         match self.dtype() {
             DType::Primitive(PType::F32, _) => Some(Arc::new(self.clone())),
-- 
2.43.0


From bdd68b76eb6f22a63cda03fe128ed87cb16a0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 043/109] fix: element access to f16 arrays

---
 vortex-array/src/array/primitive/mod.rs | 4 ++++
 vortex-array/src/elementwise.rs         | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index 298260a..c511fb7 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -249,6 +249,10 @@ macro_rules! primitive_accessor_ref {
 }
 
 impl PrimitiveArrayTrait for PrimitiveArray {
+    fn f16_accessor(&self) -> Option<AccessorRef<vortex_dtype::half::f16>> {
+        primitive_accessor_ref!(self, F16)
+    }
+
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         primitive_accessor_ref!(self, F32)
     }
diff --git a/vortex-array/src/elementwise.rs b/vortex-array/src/elementwise.rs
index 2e6c344..63c99b9 100644
--- a/vortex-array/src/elementwise.rs
+++ b/vortex-array/src/elementwise.rs
@@ -72,7 +72,7 @@ pub fn dyn_cast_array_iter<N: NativePType>(array: &Array) -> Box<dyn Iterator<It
         ),
         PType::F16 => Box::new(
             array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u64_iter())
+                .with_dyn(|a| a.as_primitive_array_unchecked().f16_iter())
                 .unwrap()
                 .map(|b| b.as_::<N>()),
         ),
-- 
2.43.0


From b95dca41af1435dbe265b85e7c78cfbb591a6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 044/109] fix: true_count counts non-null elements only

---
 vortex-array/src/variants.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/variants.rs b/vortex-array/src/variants.rs
index 9f71426..0c81ce2 100644
--- a/vortex-array/src/variants.rs
+++ b/vortex-array/src/variants.rs
@@ -108,9 +108,12 @@ pub trait BoolArrayTrait: ArrayTrait {
     }
 
     fn true_count(&self) -> usize {
-        self.statistics()
-            .compute_true_count()
-            .unwrap_or_else(|| self.maybe_null_indices_iter().count())
+        self.statistics().compute_true_count().unwrap_or_else(|| {
+            let validity = self.logical_validity().into_validity();
+            self.maybe_null_indices_iter()
+                .filter(|i| validity.is_valid(*i))
+                .count()
+        })
     }
 
     /// An iterator over the sorted indices of set values in the underlying boolean array
-- 
2.43.0


From b303b6e3f70aae7ebadbfafcdf45f5e79326d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 045/109] fix: storage of extension arrays without chunks

---
 vortex-array/src/array/chunked/variants.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/chunked/variants.rs b/vortex-array/src/array/chunked/variants.rs
index 7cbd02c..d6cbb5d 100644
--- a/vortex-array/src/array/chunked/variants.rs
+++ b/vortex-array/src/array/chunked/variants.rs
@@ -1,13 +1,13 @@
 use vortex_dtype::field::Field;
 use vortex_dtype::DType;
-use vortex_error::{vortex_err, vortex_panic, VortexResult};
+use vortex_error::{vortex_err, vortex_panic, VortexExpect, VortexResult};
 
 use crate::array::chunked::ChunkedArray;
 use crate::variants::{
     ArrayVariants, BinaryArrayTrait, BoolArrayTrait, ExtensionArrayTrait, ListArrayTrait,
     NullArrayTrait, PrimitiveArrayTrait, StructArrayTrait, Utf8ArrayTrait,
 };
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 /// Chunked arrays support all DTypes
 impl ArrayVariants for ChunkedArray {
@@ -101,6 +101,14 @@ impl ListArrayTrait for ChunkedArray {}
 
 impl ExtensionArrayTrait for ChunkedArray {
     fn storage_array(&self) -> Array {
+        if self.nchunks() == 0 {
+            // there is no chunk to take the storage type from
+            return self
+                .clone()
+                .into_extension()
+                .vortex_expect("Failed to canonicalize an empty extension array")
+                .storage();
+        }
         ChunkedArray::from_iter(
             self.chunks()
                 .map(|chunk| chunk.with_dyn(|a| a.as_extension_array_unchecked().storage_array())),
-- 
2.43.0


From 998470f7129efa6ed884125e1c44b6036a4961bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 046/109] fix: ALP element access ignored patches

---
 encodings/alp/src/alp/array.rs | 37 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/encodings/alp/src/alp/array.rs b/encodings/alp/src/alp/array.rs
index 45d77d7..be57556 100644
--- a/encodings/alp/src/alp/array.rs
+++ b/encodings/alp/src/alp/array.rs
@@ -9,7 +9,10 @@ use vortex::iter::{Accessor, AccessorRef};
 use vortex::stats::ArrayStatisticsCompute;
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, PrimitiveArrayTrait};
-use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoCanonical};
+use vortex::{
+    impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical,
+};
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 
@@ -205,20 +208,26 @@ impl<F: ALPFloat> Accessor<F> for ALPAccessor<F> {
     }
 }
 
+/// The accessor of a child, which is first decoded if its encoding does not provide one.
+fn child_accessor<T>(
+    child: Array,
+    accessor: impl Fn(&dyn PrimitiveArrayTrait) -> Option<AccessorRef<T>>,
+) -> AccessorRef<T> {
+    child
+        .with_dyn(|a| accessor(a.as_primitive_array_unchecked()))
+        .or_else(|| accessor(&child.into_primitive().ok()?))
+        .vortex_expect("Failed to access the elements of a child of an ALP array")
+}
+
 impl PrimitiveArrayTrait for ALPArray {
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         match self.dtype() {
             DType::Primitive(PType::F32, _) => {
                 let patches = self
                     .patches()
-                    .and_then(|p| p.with_dyn(|a| a.as_primitive_array_unchecked().f32_accessor()));
+                    .map(|p| child_accessor(p, |a| a.f32_accessor()));
 
-                let encoded = self
-                    .encoded()
-                    .with_dyn(|a| a.as_primitive_array_unchecked().i32_accessor())
-                    .vortex_expect(
-                        "Failed to get underlying encoded i32 array for ALP-encoded f32 array",
-                    );
+                let encoded = child_accessor(self.encoded(), |a| a.i32_accessor());
 
                 Some(Arc::new(ALPAccessor::new(
                     encoded,
@@ -236,14 +245,10 @@ impl PrimitiveArrayTrait for ALPArray {
             DType::Primitive(PType::F64, _) => {
                 let patches = self
                     .patches()
-                    .and_then(|p| p.with_dyn(|a| a.as_primitive_array_unchecked().f64_accessor()));
-
-                let encoded = self
-                    .encoded()
-                    .with_dyn(|a| a.as_primitive_array_unchecked().i64_accessor())
-                    .vortex_expect(
-                        "Failed to get underlying encoded i64 array for ALP-encoded f64 array",
-                    );
+                    .map(|p| child_accessor(p, |a| a.f64_accessor()));
+
+                let encoded = child_accessor(self.encoded(), |a| a.i64_accessor());
+
                 Some(Arc::new(ALPAccessor::new(
                     encoded,
                     patches,
-- 
2.43.0


From d56e45aea4d362a6a861ed0e6235ba4a86fc3bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 047/109] fix: storage of chunked extension arrays in mixed
 encodings

---
 vortex-array/src/array/chunked/variants.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/vortex-array/src/array/chunked/variants.rs b/vortex-array/src/array/chunked/variants.rs
index d6cbb5d..5beef02 100644
--- a/vortex-array/src/array/chunked/variants.rs
+++ b/vortex-array/src/array/chunked/variants.rs
@@ -101,18 +101,10 @@ impl ListArrayTrait for ChunkedArray {}
 
 impl ExtensionArrayTrait for ChunkedArray {
     fn storage_array(&self) -> Array {
-        if self.nchunks() == 0 {
-            // there is no chunk to take the storage type from
-            return self
-                .clone()
-                .into_extension()
-                .vortex_expect("Failed to canonicalize an empty extension array")
-                .storage();
-        }
-        ChunkedArray::from_iter(
-            self.chunks()
-                .map(|chunk| chunk.with_dyn(|a| a.as_extension_array_unchecked().storage_array())),
-        )
-        .into_array()
+        // Chunks in different encodings may expose their storage differently, or there may be none.
+        self.clone()
+            .into_extension()
+            .vortex_expect("Failed to canonicalize a chunked extension array")
+            .storage()
     }
 }
-- 
2.43.0


From 24054adf32f83b58b5dbfece011126d987955548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 048/109] fix: scalars changed type when serialized

---
 vortex-scalar/src/serde/serde.rs | 60 +++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..64a0c48 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -1,6 +1,7 @@
 use std::fmt::Formatter;
 
-use serde::de::{Error, SeqAccess, Visitor};
+use half::f16;
+use serde::de::{Error, MapAccess, SeqAccess, Visitor};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use vortex_buffer::BufferString;
 
@@ -16,7 +17,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_ref()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
@@ -144,30 +145,63 @@ impl<'de> Deserialize<'de> for ScalarValue {
                 }
                 Ok(ScalarValue::List(elems.into()))
             }
+
+            fn visit_map<A>(self, mut map: A) -> Result<Self::Value, A::Error>
+            where
+                A: MapAccess<'v>,
+            {
+                let tag = map
+                    .next_key::<String>()?
+                    .ok_or_else(|| A::Error::custom("missing type of primitive value"))?;
+                let value = match tag.as_str() {
+                    "u8" => PValue::U8(map.next_value()?),
+                    "u16" => PValue::U16(map.next_value()?),
+                    "u32" => PValue::U32(map.next_value()?),
+                    "u64" => PValue::U64(map.next_value()?),
+                    "i8" => PValue::I8(map.next_value()?),
+                    "i16" => PValue::I16(map.next_value()?),
+                    "i32" => PValue::I32(map.next_value()?),
+                    "i64" => PValue::I64(map.next_value()?),
+                    "f16" => PValue::F16(f16::from_bits(map.next_value()?)),
+                    "f32" => PValue::F32(map.next_value()?),
+                    "f64" => PValue::F64(map.next_value()?),
+                    tag => {
+                        return Err(A::Error::custom(format!("unknown primitive type {tag}")));
+                    }
+                };
+                Ok(ScalarValue::Primitive(value))
+            }
         }
 
         deserializer.deserialize_any(ScalarValueVisitor)
     }
 }
 
+/// Integers and floats are tagged with their type: self-describing formats are free to store numbers
+/// in a narrower type than the one they were given, which changes the type of the scalar.
 impl Serialize for PValue {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
     {
+        macro_rules! tagged {
+            ($index:expr, $tag:expr, $v:expr) => {
+                serializer.serialize_newtype_variant("PValue", $index, $tag, $v)
+            };
+        }
         match self {
-            Self::U8(v) => serializer.serialize_u8(*v),
-            Self::U16(v) => serializer.serialize_u16(*v),
-            Self::U32(v) => serializer.serialize_u32(*v),
-            Self::U64(v) => serializer.serialize_u64(*v),
-            Self::I8(v) => serializer.serialize_i8(*v),
-            Self::I16(v) => serializer.serialize_i16(*v),
-            Self::I32(v) => serializer.serialize_i32(*v),
-            Self::I64(v) => serializer.serialize_i64(*v),
+            Self::U8(v) => tagged!(0, "u8", v),
+            Self::U16(v) => tagged!(1, "u16", v),
+            Self::U32(v) => tagged!(2, "u32", v),
+            Self::U64(v) => tagged!(3, "u64", v),
+            Self::I8(v) => tagged!(4, "i8", v),
+            Self::I16(v) => tagged!(5, "i16", v),
+            Self::I32(v) => tagged!(6, "i32", v),
+            Self::I64(v) => tagged!(7, "i64", v),
             // NOTE(ngates): f16's are serialized bit-wise as u16.
-            Self::F16(v) => serializer.serialize_u16(v.to_bits()),
-            Self::F32(v) => serializer.serialize_f32(*v),
-            Self::F64(v) => serializer.serialize_f64(*v),
+            Self::F16(v) => tagged!(8, "f16", &v.to_bits()),
+            Self::F32(v) => tagged!(9, "f32", v),
+            Self::F64(v) => tagged!(10, "f64", v),
         }
     }
 }
-- 
2.43.0


From 88524401a97577c3990a3d488c4cdf1369b0f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 049/109] fix: validity of structs lost when written again
 after reading

---
 vortex-array/src/array/struct_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index cf31fbb..3613d27 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -185,7 +185,7 @@ impl AcceptArrayVisitor for StructArray {
                 .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.nfields()))?;
             visitor.visit_child(&format!("\"{}\"", name), &child)?;
         }
-        Ok(())
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 98092339d55f348f9abbccab47f9607dd10ae6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 050/109] fix: empty buffers exported to arrow unaligned

---
 vortex-buffer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 856ee2c..14532e9 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -109,6 +109,8 @@ impl Buffer {
     pub fn into_arrow(self) -> ArrowBuffer {
         match self {
             Buffer::Arrow(a) => a,
+            // The pointer of an empty vector of bytes isn't aligned for any wider type.
+            Buffer::Bytes(b) if b.is_empty() => ArrowBuffer::from_vec(Vec::<u128>::new()),
             Buffer::Bytes(b) => ArrowBuffer::from_vec(Vec::<u8>::from(b)),
         }
     }
-- 
2.43.0


From 8e755143bd9be2379dec18ceca4215879aa03d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 051/109] fix: arrays read from unaligned memory

---
 vortex-serde/src/message_reader.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..a54bd7f 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -14,6 +14,8 @@ use vortex_flatbuffers::message as fb;
 use crate::io::VortexRead;
 
 pub const FLATBUFFER_SIZE_LENGTH: usize = 4;
+/// The strictest alignment required by the types arrays view their buffers as.
+const BUFFER_ALIGNMENT: usize = align_of::<u128>();
 
 pub struct MessageReader<R> {
     read: R,
@@ -270,6 +272,7 @@ impl ArrayBufferReader {
                 Ok(Some(buffer_size))
             }
             ReadState::ReadingBuffers => {
+                bytes = ensure_aligned(bytes);
                 // Split out into individual buffers
                 // Initialize the column's buffers for a vectored read.
                 // To start with, we include the padding and then truncate the buffers after.
@@ -342,6 +345,21 @@ impl ArrayBufferReader {
     }
 }
 
+/// Arrays reinterpret their buffers as slices of wider types, copy the bytes if the reader handed
+/// us memory that isn't suitably aligned for that.
+fn ensure_aligned(bytes: Bytes) -> Bytes {
+    let misalignment = |ptr: *const u8| ptr as usize % BUFFER_ALIGNMENT;
+    if misalignment(bytes.as_ptr()) == 0 {
+        return bytes;
+    }
+    let mut aligned = BytesMut::zeroed(bytes.len() + BUFFER_ALIGNMENT);
+    let padding = (BUFFER_ALIGNMENT - misalignment(aligned.as_ptr())) % BUFFER_ALIGNMENT;
+    aligned.advance(padding);
+    aligned.truncate(bytes.len());
+    aligned.copy_from_slice(&bytes);
+    aligned.freeze()
+}
+
 #[cfg(test)]
 mod test {
     use std::io::Cursor;
-- 
2.43.0


From b17bfbb6182d478fa96354466ee4995021330c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 052/109] fix: files written without batches could not be read

---
 vortex-serde/src/layouts/write/writer.rs | 40 +++++++++++++-----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 9b44245..750a6c6 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -52,7 +52,17 @@ impl<W: VortexWrite> LayoutWriter<W> {
         mut array_stream: S,
     ) -> VortexResult<Self> {
         match self.dtype {
-            None => self.dtype = Some(array_stream.dtype().clone()),
+            None => {
+                let DType::Struct(fields, _) = array_stream.dtype() else {
+                    vortex_bail!(
+                        "Only struct arrays can be written, found {}",
+                        array_stream.dtype()
+                    )
+                };
+                // Every column has a layout, even if there are no batches to write.
+                self.column_chunks = vec![BatchOffsets::new(vec![0], vec![]); fields.names().len()];
+                self.dtype = Some(array_stream.dtype().clone())
+            }
             Some(ref sd) => {
                 if sd != array_stream.dtype() {
                     vortex_bail!(
@@ -88,16 +98,14 @@ impl<W: VortexWrite> LayoutWriter<W> {
         let mut row_offsets: Vec<u64> = Vec::new();
         let mut byte_offsets = vec![self.msgs.tell()];
 
-        let mut n_rows_written = match self.column_chunks.get(column_idx) {
-            None => {
-                row_offsets.push(0);
-                0
-            }
-            Some(x) => {
-                let last = x.row_offsets.last();
-                *last.vortex_expect("row offsets is non-empty")
-            }
-        };
+        let column = self
+            .column_chunks
+            .get(column_idx)
+            .ok_or_else(|| vortex_err!("Column {} is not in the schema", column_idx))?;
+        let mut n_rows_written = *column
+            .row_offsets
+            .last()
+            .vortex_expect("row offsets is non-empty");
 
         while let Some(chunk) = stream.try_next().await? {
             n_rows_written += chunk.len() as u64;
@@ -106,13 +114,9 @@ impl<W: VortexWrite> LayoutWriter<W> {
             byte_offsets.push(self.msgs.tell());
         }
 
-        if let Some(batches) = self.column_chunks.get_mut(column_idx) {
-            batches.row_offsets.extend(row_offsets);
-            batches.batch_byte_offsets.push(byte_offsets);
-        } else {
-            self.column_chunks
-                .push(BatchOffsets::new(row_offsets, vec![byte_offsets]));
-        }
+        let batches = &mut self.column_chunks[column_idx];
+        batches.row_offsets.extend(row_offsets);
+        batches.batch_byte_offsets.push(byte_offsets);
 
         Ok(())
     }
-- 
2.43.0


From ba71db24df2d919d472c6715e4471bcce1a21750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 053/109] fix: validity of nullable tables became a column when
 written

---
 vortex-serde/src/layouts/read/batch.rs        | 24 ++++++++++++++++---
 .../src/layouts/read/layouts/column.rs        |  8 +++++--
 vortex-serde/src/layouts/write/writer.rs      | 13 +++++++---
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/vortex-serde/src/layouts/read/batch.rs b/vortex-serde/src/layouts/read/batch.rs
index ed50cdb..53a7668 100644
--- a/vortex-serde/src/layouts/read/batch.rs
+++ b/vortex-serde/src/layouts/read/batch.rs
@@ -2,7 +2,9 @@ use std::mem;
 use std::sync::Arc;
 
 use vortex::array::StructArray;
+use vortex::validity::Validity;
 use vortex::{Array, IntoArray};
+use vortex_dtype::Nullability;
 use vortex_error::{vortex_err, VortexResult};
 
 use crate::layouts::read::{LayoutReader, ReadResult};
@@ -12,15 +14,21 @@ pub struct BatchReader {
     names: Arc<[Arc<str>]>,
     children: Vec<Box<dyn LayoutReader>>,
     arrays: Vec<Option<Array>>,
+    nullability: Nullability,
 }
 
 impl BatchReader {
-    pub fn new(names: Arc<[Arc<str>]>, children: Vec<Box<dyn LayoutReader>>) -> Self {
+    pub fn new(
+        names: Arc<[Arc<str>]>,
+        children: Vec<Box<dyn LayoutReader>>,
+        nullability: Nullability,
+    ) -> Self {
         let arrays = vec![None; children.len()];
         Self {
             names,
             children,
             arrays,
+            nullability,
         }
     }
 
@@ -55,9 +63,19 @@ impl BatchReader {
                 .enumerate()
                 .map(|(i, a)| a.ok_or_else(|| vortex_err!("Missing child array at index {}", i)))
                 .collect::<VortexResult<Vec<_>>>()?;
+            let len = child_arrays.first().map(Array::len).unwrap_or_default();
             Ok(Some(ReadResult::Batch(
-                StructArray::from_fields(&self.names.iter().zip(child_arrays).collect::<Vec<_>>())?
-                    .into_array(),
+                StructArray::try_new(
+                    self.names.clone(),
+                    child_arrays,
+                    len,
+                    // Only tables without null rows are written.
+                    match self.nullability {
+                        Nullability::NonNullable => Validity::NonNullable,
+                        Nullability::Nullable => Validity::AllValid,
+                    },
+                )?
+                .into_array(),
             )))
         } else {
             Ok(Some(ReadResult::ReadMore(messages)))
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 2a0f39f..b5244e8 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -115,7 +115,7 @@ impl LayoutReader for ColumnLayout {
             br.read()
         } else {
             let result_lazy_dtype = self.lazy_dtype()?;
-            let DType::Struct(s, _) = result_lazy_dtype.value()? else {
+            let DType::Struct(s, nullability) = result_lazy_dtype.value()? else {
                 vortex_bail!("DType was not a struct")
             };
 
@@ -137,7 +137,11 @@ impl LayoutReader for ColumnLayout {
                     .collect::<VortexResult<Vec<_>>>()?,
             };
 
-            self.reader = Some(BatchReader::new(s.names().clone(), child_layouts));
+            self.reader = Some(BatchReader::new(
+                s.names().clone(),
+                child_layouts,
+                *nullability,
+            ));
             self.read_next()
         }
     }
diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 750a6c6..775939c 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -5,7 +5,8 @@ use flatbuffers::FlatBufferBuilder;
 use futures::{Stream, TryStreamExt};
 use vortex::array::{ChunkedArray, StructArray};
 use vortex::stream::ArrayStream;
-use vortex::validity::Validity;
+use vortex::validity::{ArrayValidity, Validity};
+use vortex::variants::StructArrayTrait;
 use vortex::{Array, ArrayDType, IntoArray};
 use vortex_buffer::io_buf::IoBuf;
 use vortex_dtype::DType;
@@ -76,9 +77,15 @@ impl<W: VortexWrite> LayoutWriter<W> {
 
         while let Some(columns) = array_stream.try_next().await? {
             let st = StructArray::try_from(&columns)?;
+            if !st.is_empty() && !st.logical_validity().all_valid() {
+                vortex_bail!("Tables with null rows can't be written")
+            }
             self.row_count += st.len() as u64;
-            for (i, field) in st.children().enumerate() {
-                if let Ok(chunked_array) = ChunkedArray::try_from(field.clone()) {
+            for i in 0..st.nfields() {
+                let field = st
+                    .field(i)
+                    .ok_or_else(|| vortex_err!("Missing field {} of the table", i))?;
+                if let Ok(chunked_array) = ChunkedArray::try_from(&field) {
                     self.write_column_chunks(chunked_array.array_stream(), i)
                         .await?
                 } else {
-- 
2.43.0


From b3fdf2bcb782ca62c0e597349cde95df0c40f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 054/109] fix: reading no columns of a file never ended

---
 vortex-serde/src/layouts/read/batch.rs        | 39 +++++++++++++------
 vortex-serde/src/layouts/read/builder.rs      |  2 +
 vortex-serde/src/layouts/read/footer.rs       |  3 +-
 .../src/layouts/read/layouts/column.rs        |  2 +
 vortex-serde/src/layouts/read/mod.rs          |  1 +
 5 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/vortex-serde/src/layouts/read/batch.rs b/vortex-serde/src/layouts/read/batch.rs
index 53a7668..758f050 100644
--- a/vortex-serde/src/layouts/read/batch.rs
+++ b/vortex-serde/src/layouts/read/batch.rs
@@ -15,6 +15,9 @@ pub struct BatchReader {
     children: Vec<Box<dyn LayoutReader>>,
     arrays: Vec<Option<Array>>,
     nullability: Nullability,
+    batch_size: usize,
+    // Rows that aren't read yet, there's nothing else to count them by if there are no children.
+    remaining_rows: u64,
 }
 
 impl BatchReader {
@@ -22,6 +25,8 @@ impl BatchReader {
         names: Arc<[Arc<str>]>,
         children: Vec<Box<dyn LayoutReader>>,
         nullability: Nullability,
+        batch_size: usize,
+        row_count: u64,
     ) -> Self {
         let arrays = vec![None; children.len()];
         Self {
@@ -29,10 +34,23 @@ impl BatchReader {
             children,
             arrays,
             nullability,
+            batch_size,
+            remaining_rows: row_count,
         }
     }
 
     pub(crate) fn read(&mut self) -> VortexResult<Option<ReadResult>> {
+        if self.children.is_empty() {
+            if self.remaining_rows == 0 {
+                return Ok(None);
+            }
+            let len = self.remaining_rows.min(self.batch_size as u64);
+            self.remaining_rows -= len;
+            return Ok(Some(ReadResult::Batch(
+                self.struct_array(vec![], len as usize)?,
+            )));
+        }
+
         let mut messages = Vec::new();
         for (i, child_array) in self
             .arrays
@@ -65,20 +83,19 @@ impl BatchReader {
                 .collect::<VortexResult<Vec<_>>>()?;
             let len = child_arrays.first().map(Array::len).unwrap_or_default();
             Ok(Some(ReadResult::Batch(
-                StructArray::try_new(
-                    self.names.clone(),
-                    child_arrays,
-                    len,
-                    // Only tables without null rows are written.
-                    match self.nullability {
-                        Nullability::NonNullable => Validity::NonNullable,
-                        Nullability::Nullable => Validity::AllValid,
-                    },
-                )?
-                .into_array(),
+                self.struct_array(child_arrays, len)?,
             )))
         } else {
             Ok(Some(ReadResult::ReadMore(messages)))
         }
     }
+
+    fn struct_array(&self, fields: Vec<Array>, len: usize) -> VortexResult<Array> {
+        // Only tables without null rows are written.
+        let validity = match self.nullability {
+            Nullability::NonNullable => Validity::NonNullable,
+            Nullability::Nullable => Validity::AllValid,
+        };
+        Ok(StructArray::try_new(self.names.clone(), fields, len, validity)?.into_array())
+    }
 }
diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..4cd3023 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -93,6 +93,7 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             batch_size,
             projection: read_projection,
             indices: self.indices,
+            row_count: 0,
         };
 
         let message_cache = Arc::new(RwLock::new(LayoutMessageCache::default()));
@@ -110,6 +111,7 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
                         batch_size,
                         projection,
                         indices: None,
+                        row_count: 0,
                     },
                     RelativeLayoutCache::new(message_cache.clone(), footer_dtype),
                 )
diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 6fc1341..4335033 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -68,7 +68,7 @@ impl LayoutDescriptor {
 
     pub fn layout(
         &self,
-        scan: Scan,
+        mut scan: Scan,
         message_cache: RelativeLayoutCache,
     ) -> VortexResult<Box<dyn LayoutReader>> {
         let start_offset = self.initial_read_layout_offset();
@@ -78,6 +78,7 @@ impl LayoutDescriptor {
             .slice(start_offset + FLATBUFFER_SIZE_LENGTH..end_offset);
         let fb_footer = root::<footer::Footer>(&footer_bytes)?;
 
+        scan.row_count = fb_footer.row_count();
         let fb_layout = fb_footer
             .layout()
             .ok_or_else(|| vortex_err!("Footer must contain a layout"))?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index b5244e8..b6ffebb 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -141,6 +141,8 @@ impl LayoutReader for ColumnLayout {
                 s.names().clone(),
                 child_layouts,
                 *nullability,
+                self.scan.batch_size,
+                self.scan.row_count,
             ));
             self.read_next()
         }
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index 9d93505..f7a7e2a 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -40,6 +40,7 @@ pub struct Scan {
     projection: Projection,
     filter: Option<RowFilter>,
     batch_size: usize,
+    row_count: u64,
 }
 
 /// Unique identifier for a message within a layout
-- 
2.43.0


From bebdc56190673763009d95194f67958a25e22f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 055/109] fix: reading a file in batches of no rows lost every
 row

---
 vortex-serde/src/layouts/read/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index 4cd3023..ad28ee5 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,7 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
-use vortex_error::VortexResult;
+use vortex_error::{vortex_bail, VortexResult};
 use vortex_schema::projection::Projection;
 
 use crate::io::VortexReadAt;
@@ -70,6 +70,9 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             .read_footer(&self.reader, self.size().await as u64)
             .await?;
         let batch_size = self.batch_size.unwrap_or(DEFAULT_BATCH_SIZE);
+        if batch_size == 0 {
+            vortex_bail!("Batch size must be at least one row")
+        }
         // TODO(robert): Propagate projection immediately instead of delegating to layouts, needs more restructuring
         let footer_dtype = Arc::new(LazyDeserializedDType::from_bytes(
             footer.dtype_bytes()?,
-- 
2.43.0


From 80efc4a955b334c023680bf991097c3f470fa941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 056/109] fix: chunks beyond the first 65536 of a column were
 read as others

---
 vortex-serde/src/layouts/read/layouts/chunked.rs      | 2 +-
 vortex-serde/src/layouts/read/layouts/column.rs       | 2 +-
 vortex-serde/src/layouts/read/layouts/inline_dtype.rs | 2 +-
 vortex-serde/src/layouts/read/mod.rs                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vortex-serde/src/layouts/read/layouts/chunked.rs b/vortex-serde/src/layouts/read/layouts/chunked.rs
index 47ecc3e..fd5ba26 100644
--- a/vortex-serde/src/layouts/read/layouts/chunked.rs
+++ b/vortex-serde/src/layouts/read/layouts/chunked.rs
@@ -102,7 +102,7 @@ impl LayoutReader for ChunkedLayout {
                         c._tab.loc(),
                         self.scan.clone(),
                         self.message_cache
-                            .relative(i as u16, self.message_cache.dtype().clone()),
+                            .relative(i as u32, self.message_cache.dtype().clone()),
                     )
                 })
                 .collect::<VortexResult<VecDeque<_>>>()?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index b6ffebb..62106fb 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -95,7 +95,7 @@ impl ColumnLayout {
             layout._tab.loc(),
             child_scan,
             self.message_cache.relative(
-                idx as u16,
+                idx as u32,
                 Arc::new(LazyDeserializedDType::from_dtype(dtype)),
             ),
         )
diff --git a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
index ee969b6..1dafdc3 100644
--- a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
+++ b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
@@ -128,7 +128,7 @@ impl LayoutReader for InlineDTypeLayout {
                             layout._tab.loc(),
                             self.scan.clone(),
                             self.message_cache
-                                .relative(1u16, Arc::new(LazyDeserializedDType::from_dtype(d))),
+                                .relative(1, Arc::new(LazyDeserializedDType::from_dtype(d))),
                         )?,
                     );
                     self.read_next()
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index f7a7e2a..9a685cc 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -44,7 +44,7 @@ pub struct Scan {
 }
 
 /// Unique identifier for a message within a layout
-pub type LayoutPartId = u16;
+pub type LayoutPartId = u32;
 pub type MessageId = Vec<LayoutPartId>;
 pub type Message = (MessageId, ByteRange);
 
-- 
2.43.0


From d87f62b6c4c747230d75801178c49bf0d8709724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 057/109] fix: batches were read with the filter of other
 batches after one without matches

---
 vortex-serde/src/layouts/read/stream.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..6eb5cd2 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -140,20 +140,21 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                 StreamingState::Decoding(arr) => {
                     let mut batch = arr.clone();
 
+                    let goto_state = if self.filter_reader.is_some() {
+                        StreamingState::FilterInit
+                    } else {
+                        StreamingState::Init
+                    };
+
                     if let Some(mask) = self.cached_mask.take() {
-                        if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                        if mask.statistics().compute_true_count() == Some(0) {
+                            self.state = goto_state;
                             continue;
                         }
 
                         batch = filter(batch, mask)?;
                     }
 
-                    let goto_state = if self.filter_reader.is_some() {
-                        StreamingState::FilterInit
-                    } else {
-                        StreamingState::Init
-                    };
                     self.state = goto_state;
                     return Poll::Ready(Some(Ok(batch)));
                 }
-- 
2.43.0


From 38eb2c0d35e55fd0796474b8b2f8e15fac7649d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 058/109] fix: filters with an unknown number of matches
 selected nothing

---
 vortex-serde/src/layouts/read/filtering.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..796c7e7 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,7 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
-- 
2.43.0


From 48086f382e3007720dc02cc13549541e4d3aeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 059/109] fix: filters referring to columns by index were
 evaluated on other columns

---
 vortex-serde/src/layouts/read/builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index ad28ee5..6b74eb8 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_schema::projection::Projection;
 
@@ -84,7 +85,14 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             .row_filter
             .as_ref()
             .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+            .map(|fields| {
+                // Indices refer to columns of the file, they'd mean others after a projection.
+                if fields.iter().any(|f| matches!(f, Field::Index(_))) {
+                    Projection::All
+                } else {
+                    Projection::Flat(fields)
+                }
+            });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0


From 0ea85c8617d37057c6be2614466ae2d477f34b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 060/109] fix: opening files with large footers or bad offsets
 panicked

---
 vortex-serde/src/layouts/read/footer.rs | 32 ++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 4335033..c72548b 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -143,11 +143,12 @@ impl LayoutDescriptorReader {
         read: &R,
         file_size: u64,
     ) -> VortexResult<LayoutDescriptor> {
-        if file_size < EOF_SIZE as u64 {
+        let min_size = EOF_SIZE + FOOTER_POSTSCRIPT_SIZE;
+        if file_size < min_size as u64 {
             vortex_bail!(
                 "Malformed vortex file, size {} must be at least {}",
                 file_size,
-                EOF_SIZE,
+                min_size,
             )
         }
 
@@ -178,11 +179,30 @@ impl LayoutDescriptorReader {
 
         let ps = root::<footer::Postscript>(&buf[eof_loc - FOOTER_POSTSCRIPT_SIZE..eof_loc])?;
 
+        let schema_offset = ps.schema_offset();
+        let footer_offset = ps.footer_offset();
+        let header_size = FLATBUFFER_SIZE_LENGTH as u64;
+        let postscript_offset = file_size - min_size as u64;
+        if schema_offset.saturating_add(header_size) > footer_offset
+            || footer_offset.saturating_add(header_size) > postscript_offset
+        {
+            vortex_bail!("Malformed file, schema at {schema_offset} and footer at {footer_offset} of {file_size} bytes")
+        }
+
+        let (initial_read, initial_read_offset) = if schema_offset < read_offset {
+            // The schema and the footer take up more than what we've read, read all of them.
+            let mut buf = BytesMut::zeroed((file_size - schema_offset) as usize);
+            buf = read.read_at_into(schema_offset, buf).await?;
+            (buf.freeze(), schema_offset)
+        } else {
+            (buf.freeze(), read_offset)
+        };
+
         Ok(LayoutDescriptor {
-            schema_offset: ps.schema_offset(),
-            footer_offset: ps.footer_offset(),
-            initial_read: buf.freeze(),
-            initial_read_offset: read_offset,
+            schema_offset,
+            footer_offset,
+            initial_read,
+            initial_read_offset,
             layout_serde: self.layout_serde.clone(),
         })
     }
-- 
2.43.0


From 15c02541e1616664cc90c88f0f13251450bee4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 061/109] fix: tables without columns were written with a
 shorter postscript

---
 vortex-serde/src/layouts/write/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 775939c..48968d5 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -201,6 +201,8 @@ impl<W: VortexWrite> LayoutWriter<W> {
 
 async fn write_fb_raw<W: VortexWrite, F: WriteFlatBuffer>(mut writer: W, fb: F) -> io::Result<W> {
     let mut fbb = FlatBufferBuilder::new();
+    // The message has to be of the same size whatever its values.
+    fbb.force_defaults(true);
     let ps_fb = fb.write_flatbuffer(&mut fbb);
     fbb.finish_minimal(ps_fb);
     let (buffer, buffer_begin) = fbb.collapse();
-- 
2.43.0


From aed1c07983789bb686434b7804a6ca4ee04064db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 062/109] fix: structs without fields lost their length when
 converted to arrow

---
 vortex-array/src/canonical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index 29ff1d1..0010512 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -203,6 +203,14 @@ fn struct_to_arrow(struct_array: StructArray) -> VortexResult<ArrayRef> {
 
     let nulls = struct_array.logical_validity().to_null_buffer()?;
 
+    if field_arrays.is_empty() {
+        // There's no child to take the length from.
+        return Ok(Arc::new(ArrowStructArray::new_empty_fields(
+            struct_array.len(),
+            nulls,
+        )));
+    }
+
     Ok(Arc::new(ArrowStructArray::try_new(
         arrow_fields,
         field_arrays,
-- 
2.43.0


From 7139d73d9c5b7129c385221a10c502dfc30a701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 063/109] fix: converting null rows to a record batch panicked

---
 vortex-array/src/arrow/recordbatch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/arrow/recordbatch.rs b/vortex-array/src/arrow/recordbatch.rs
index 286e68e..784bc21 100644
--- a/vortex-array/src/arrow/recordbatch.rs
+++ b/vortex-array/src/arrow/recordbatch.rs
@@ -1,7 +1,7 @@
 use arrow_array::cast::as_struct_array;
-use arrow_array::RecordBatch;
+use arrow_array::{Array as _, RecordBatch};
 use itertools::Itertools;
-use vortex_error::{vortex_err, VortexError, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexError, VortexResult};
 
 use crate::array::StructArray;
 use crate::arrow::FromArrowArray;
@@ -51,6 +51,9 @@ impl TryFrom<StructArray> for RecordBatch {
     fn try_from(value: StructArray) -> VortexResult<Self> {
         let array_ref = value.into_canonical()?.into_arrow()?;
         let struct_array = as_struct_array(array_ref.as_ref());
+        if struct_array.null_count() > 0 {
+            vortex_bail!("Null rows can't be converted to a RecordBatch")
+        }
         Ok(Self::from(struct_array))
     }
 }
-- 
2.43.0


From 3df75db373fddd6a2684392b7b6af2a1317cd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 064/109] fix: projecting by an index out of range panicked

---
 vortex-array/src/array/struct_/mod.rs         |  2 +-
 vortex-dtype/src/serde/flatbuffers/project.rs | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index 3613d27..7bdff1c 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -122,11 +122,11 @@ impl StructArray {
                 Field::Index(i) => *i,
             };
 
-            names.push(self.names()[idx].clone());
             children.push(
                 self.field(idx)
                     .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.dtypes().len()))?,
             );
+            names.push(self.names()[idx].clone());
         }
 
         StructArray::try_new(
diff --git a/vortex-dtype/src/serde/flatbuffers/project.rs b/vortex-dtype/src/serde/flatbuffers/project.rs
index d577271..9f11971 100644
--- a/vortex-dtype/src/serde/flatbuffers/project.rs
+++ b/vortex-dtype/src/serde/flatbuffers/project.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use vortex_error::{vortex_err, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::field::Field;
 use crate::{flatbuffers as fb, DType, StructDType};
@@ -19,7 +19,13 @@ pub fn resolve_field<'a, 'b: 'a>(fb: fb::Struct_<'b>, field: &'a Field) -> Vorte
                 .position(|name| name == n)
                 .ok_or_else(|| vortex_err!("Unknown field name {n}"))
         }
-        Field::Index(i) => Ok(*i),
+        Field::Index(i) => {
+            let nfields = fb.names().map(|names| names.len()).unwrap_or_default();
+            if *i >= nfields {
+                vortex_bail!(OutOfBounds: *i, 0, nfields)
+            }
+            Ok(*i)
+        }
     }
 }
 
-- 
2.43.0


From 13a28bd469207af5e7464f1ae66c4334aba4819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 065/109] fix: rows taken from a stream depended on the type of
 the indices and ignored those out of range

---
 vortex-array/src/stream/take_rows.rs | 39 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index 2562b53..bb8fb51 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -3,26 +3,32 @@ use std::task::{Context, Poll};
 
 use futures_util::{ready, Stream};
 use pin_project::pin_project;
-use vortex_dtype::match_each_integer_ptype;
-use vortex_error::{vortex_bail, VortexResult};
+use vortex_dtype::PType;
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::compute::unary::subtract_scalar;
+use crate::compute::unary::{scalar_at, subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
-use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType};
 
 #[pin_project]
 pub struct TakeRows<R: ArrayStream> {
     #[pin]
     reader: R,
+    // Sorted u64 indices of the rows
     indices: Array,
     row_offset: usize,
+    done: bool,
 }
 
 impl<R: ArrayStream> TakeRows<R> {
     pub fn try_new(reader: R, indices: Array) -> VortexResult<Self> {
+        if !indices.dtype().is_int() {
+            vortex_bail!("Indices must be integers")
+        }
+
         if !indices.is_empty() {
             if !indices.statistics().compute_is_sorted().unwrap_or(false) {
                 vortex_bail!("Indices must be sorted to take from IPC stream")
@@ -37,10 +43,6 @@ impl<R: ArrayStream> TakeRows<R> {
                 vortex_bail!("Indices must not contain nulls")
             }
 
-            if !indices.dtype().is_int() {
-                vortex_bail!("Indices must be integers")
-            }
-
             if indices.dtype().is_signed_int()
                 && indices
                     .statistics()
@@ -54,8 +56,10 @@ impl<R: ArrayStream> TakeRows<R> {
 
         Ok(Self {
             reader,
-            indices,
+            // Offsets of batches might not fit the type of the indices
+            indices: try_cast(&indices, PType::U64.into())?,
             row_offset: 0,
+            done: false,
         })
     }
 }
@@ -66,7 +70,7 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let mut this = self.project();
 
-        if this.indices.is_empty() {
+        if *this.done || this.indices.is_empty() {
             return Poll::Ready(None);
         }
 
@@ -88,13 +92,20 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
 
             // TODO(ngates): this is probably too heavy to run on the event loop. We should spawn
             //  onto a worker pool.
-            let indices_for_batch = slice(this.indices, left, right)?.into_primitive()?;
-            let shifted_arr = match_each_integer_ptype!(indices_for_batch.ptype(), |$T| {
-                subtract_scalar(&indices_for_batch.into_array(), &Scalar::from(curr_offset as $T))?
-            });
+            let indices_for_batch = slice(this.indices, left, right)?;
+            let shifted_arr =
+                subtract_scalar(&indices_for_batch, &Scalar::from(curr_offset as u64))?;
             return Poll::Ready(take(&batch, &shifted_arr).map(Some).transpose());
         }
 
+        *this.done = true;
+        // All of the rows have been read, there have to be rows at all of the indices.
+        let last = u64::try_from(&scalar_at(&*this.indices, this.indices.len() - 1)?)?;
+        if last >= *this.row_offset as u64 {
+            return Poll::Ready(Some(Err(
+                vortex_err!(OutOfBounds: last as usize, 0, *this.row_offset),
+            )));
+        }
         Poll::Ready(None)
     }
 }
-- 
2.43.0


From dc07088042be7af0f56845738e0c4e41f756f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 066/109] fix: taking repeated rows of a chunked reader
 panicked

---
 vortex-serde/src/chunked_reader/take_rows.rs | 29 +++++++++-----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index eafc887..cde249b 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -9,7 +9,7 @@ use vortex::compute::unary::{subtract_scalar, try_cast};
 use vortex::compute::{search_sorted, slice, take, SearchSortedSide};
 use vortex::stats::ArrayStatistics;
 use vortex::stream::{ArrayStream, ArrayStreamExt};
-use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
+use vortex::{Array, IntoArray, IntoArrayVariant};
 use vortex_dtype::PType;
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 use vortex_scalar::Scalar;
@@ -20,14 +20,12 @@ use crate::stream_reader::StreamArrayReader;
 
 impl<R: VortexReadAt> ChunkedArrayReader<R> {
     pub async fn take_rows(&mut self, indices: &Array) -> VortexResult<Array> {
-        // Figure out if the row indices are sorted / unique. If not, we need to sort them.
-        if indices
-            .statistics()
-            .compute_is_strict_sorted()
-            .unwrap_or(false)
-        {
-            // With strict-sorted indices, we can take the rows directly.
-            return self.take_rows_strict_sorted(indices).await;
+        // Row offsets might not fit the type of the indices.
+        let indices = try_cast(indices, PType::U64.into())?;
+        // Figure out if the row indices are sorted. If not, we need to sort them.
+        if indices.is_empty() || indices.statistics().compute_is_sorted().unwrap_or(false) {
+            // With sorted indices, we can take the rows directly.
+            return self.take_rows_sorted(&indices).await;
         }
 
         //         // Figure out which chunks are relevant to the read operation using the row_offsets array.
@@ -40,15 +38,15 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
         //         //  of the result.
         //         // Read the relevant chunks.
         // Reshuffle the result as per the original sort order.
-        unimplemented!("Unsorted 'take' operation is not supported yet")
+        vortex_bail!(NotImplemented: "unsorted take_rows", indices.encoding().id())
     }
 
-    /// Take rows from a chunked array given strict sorted indices.
+    /// Take rows from a chunked array given sorted u64 indices.
     ///
     /// The strategy for doing this depends on the quantity and distribution of the indices...
     ///
     /// For now, we will find the relevant chunks, coalesce them, and read.
-    async fn take_rows_strict_sorted(&mut self, indices: &Array) -> VortexResult<Array> {
+    async fn take_rows_sorted(&mut self, indices: &Array) -> VortexResult<Array> {
         // Figure out which chunks are relevant.
         let chunk_idxs = find_chunks(&self.row_offsets, indices)?;
         // Coalesce the chunks that we're going to read from.
@@ -128,10 +126,9 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
         let indices_start =
             search_sorted(indices, row_range.start, SearchSortedSide::Left)?.to_index();
         let indices_stop =
-            search_sorted(indices, row_range.end, SearchSortedSide::Right)?.to_index();
+            search_sorted(indices, row_range.end, SearchSortedSide::Left)?.to_index();
         let relative_indices = slice(indices, indices_start, indices_stop)?;
-        let row_start_scalar = Scalar::from(row_range.start).cast(relative_indices.dtype())?;
-        let relative_indices = subtract_scalar(&relative_indices, &row_start_scalar)?;
+        let relative_indices = subtract_scalar(&relative_indices, &Scalar::from(row_range.start))?;
 
         // Set up an array reader to read this range of chunks.
         let mut buffer = BytesMut::with_capacity(range_byte_len);
@@ -151,7 +148,7 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
 }
 
 /// Find the chunks that are relevant to the read operation.
-/// Both the row_offsets and indices arrays must be strict-sorted.
+/// Both the row_offsets and indices arrays must be sorted.
 fn find_chunks(row_offsets: &Array, indices: &Array) -> VortexResult<Vec<ChunkIndices>> {
     // TODO(ngates): lots of optimizations to be had here, potentially lots of push-down.
     //  For now, we just flatten everything into primitive arrays and iterate.
-- 
2.43.0


From 943fb61fae99055983704d2ddc1abfa5cc60e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 067/109] fix: tables with null rows can be written again

---
 vortex-serde/src/layouts/write/writer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 48968d5..85127be 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -5,7 +5,7 @@ use flatbuffers::FlatBufferBuilder;
 use futures::{Stream, TryStreamExt};
 use vortex::array::{ChunkedArray, StructArray};
 use vortex::stream::ArrayStream;
-use vortex::validity::{ArrayValidity, Validity};
+use vortex::validity::Validity;
 use vortex::variants::StructArrayTrait;
 use vortex::{Array, ArrayDType, IntoArray};
 use vortex_buffer::io_buf::IoBuf;
@@ -77,9 +77,6 @@ impl<W: VortexWrite> LayoutWriter<W> {
 
         while let Some(columns) = array_stream.try_next().await? {
             let st = StructArray::try_from(&columns)?;
-            if !st.is_empty() && !st.logical_validity().all_valid() {
-                vortex_bail!("Tables with null rows can't be written")
-            }
             self.row_count += st.len() as u64;
             for i in 0..st.nfields() {
                 let field = st
-- 
2.43.0


From 1746093cdff96acf6aa58b9bd0d763432e39bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 068/109] fix: streams without messages, cut within a message
 or read after an error

---
 vortex-serde/src/message_reader.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index a54bd7f..cf480b4 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -32,13 +32,14 @@ impl<R: VortexRead> MessageReader<R> {
             prev_message: BytesMut::new(),
             finished: false,
         };
-        reader.load_next_message().await?;
+        reader.finished = !reader.load_next_message().await?;
         Ok(reader)
     }
 
     async fn load_next_message(&mut self) -> VortexResult<bool> {
         let mut buffer = std::mem::take(&mut self.message);
-        buffer.resize(FLATBUFFER_SIZE_LENGTH, 0);
+        // The stream might end between messages, but not once a message has begun.
+        buffer.resize(1, 0);
         let mut buffer = match self.read.read_into(buffer).await {
             Ok(b) => b,
             Err(e) => {
@@ -49,6 +50,9 @@ impl<R: VortexRead> MessageReader<R> {
             }
         };
 
+        let rest = BytesMut::zeroed(FLATBUFFER_SIZE_LENGTH - 1);
+        buffer.extend_from_slice(&self.read.read_into(rest).await?);
+
         let len = buffer.get_u32_le();
         if len == u32::MAX {
             // Marker for no more messages.
@@ -82,9 +86,9 @@ impl<R: VortexRead> MessageReader<R> {
             vortex_bail!("Reader is finished, should've peeked!")
         }
         self.prev_message = self.message.split();
-        if !self.load_next_message().await? {
-            self.finished = true;
-        }
+        // There's no message to peek at if the next one fails to load
+        self.finished = true;
+        self.finished = !self.load_next_message().await?;
         Ok(Buffer::from(self.prev_message.clone().freeze()))
     }
 
-- 
2.43.0


From 98c619a86d2204af8be572c3b719f50f3af432d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 069/109] fix: indices of rows to read from a file were ignored

---
 vortex-serde/src/layouts/read/builder.rs | 26 +++++++++++++++++++-
 vortex-serde/src/layouts/read/footer.rs  | 17 +++++++++----
 vortex-serde/src/layouts/read/stream.rs  | 31 ++++++++++++++++++++++--
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index 6b74eb8..738ed7d 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,7 +1,10 @@
 use std::sync::{Arc, RwLock};
 
+use vortex::compute::unary::{scalar_at, try_cast};
+use vortex::stats::ArrayStatistics;
 use vortex::{Array, ArrayDType};
 use vortex_dtype::field::Field;
+use vortex_dtype::PType;
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_schema::projection::Projection;
 
@@ -46,6 +49,7 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         self
     }
 
+    /// Read only the rows at the given indices, which have to be sorted.
     pub fn with_indices(mut self, array: Array) -> Self {
         // TODO(#441): Allow providing boolean masks
         assert!(
@@ -74,6 +78,10 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         if batch_size == 0 {
             vortex_bail!("Batch size must be at least one row")
         }
+        let indices = self
+            .indices
+            .map(|indices| row_indices(&indices, footer.row_count()?))
+            .transpose()?;
         // TODO(robert): Propagate projection immediately instead of delegating to layouts, needs more restructuring
         let footer_dtype = Arc::new(LazyDeserializedDType::from_bytes(
             footer.dtype_bytes()?,
@@ -103,7 +111,7 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             filter: self.row_filter.clone(),
             batch_size,
             projection: read_projection,
-            indices: self.indices,
+            indices,
             row_count: 0,
         };
 
@@ -146,3 +154,19 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         }
     }
 }
+
+/// Sorted u64 indices of rows within a file of the given number of rows
+fn row_indices(indices: &Array, row_count: u64) -> VortexResult<Array> {
+    // The cast fails for nulls and negative indices
+    let indices = try_cast(indices, PType::U64.into())?;
+    if !indices.is_empty() {
+        if !indices.statistics().compute_is_sorted().unwrap_or(false) {
+            vortex_bail!("Row indices must be sorted")
+        }
+        let last = u64::try_from(&scalar_at(&indices, indices.len() - 1)?)?;
+        if last >= row_count {
+            vortex_bail!("Row index {} is out of bounds of {} rows", last, row_count)
+        }
+    }
+    Ok(indices)
+}
diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index c72548b..70a08f4 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -66,16 +66,23 @@ impl LayoutDescriptor {
         (self.schema_offset - self.initial_read_offset) as usize
     }
 
+    fn footer_bytes(&self) -> Bytes {
+        let start_offset = self.initial_read_layout_offset();
+        let end_offset = self.initial_read.len() - FOOTER_POSTSCRIPT_SIZE - EOF_SIZE;
+        self.initial_read
+            .slice(start_offset + FLATBUFFER_SIZE_LENGTH..end_offset)
+    }
+
+    pub fn row_count(&self) -> VortexResult<u64> {
+        Ok(root::<footer::Footer>(&self.footer_bytes())?.row_count())
+    }
+
     pub fn layout(
         &self,
         mut scan: Scan,
         message_cache: RelativeLayoutCache,
     ) -> VortexResult<Box<dyn LayoutReader>> {
-        let start_offset = self.initial_read_layout_offset();
-        let end_offset = self.initial_read.len() - FOOTER_POSTSCRIPT_SIZE - EOF_SIZE;
-        let footer_bytes = self
-            .initial_read
-            .slice(start_offset + FLATBUFFER_SIZE_LENGTH..end_offset);
+        let footer_bytes = self.footer_bytes();
         let fb_footer = root::<footer::Footer>(&footer_bytes)?;
 
         scan.row_count = fb_footer.row_count();
diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index 6eb5cd2..396b559 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -1,3 +1,4 @@
+use std::ops::Range;
 use std::pin::Pin;
 use std::sync::{Arc, RwLock};
 use std::task::{ready, Context, Poll};
@@ -7,11 +8,13 @@ use futures::Stream;
 use futures_util::future::BoxFuture;
 use futures_util::{stream, FutureExt, StreamExt, TryStreamExt};
 use vortex::array::ChunkedArray;
-use vortex::compute::filter;
+use vortex::compute::unary::subtract_scalar;
+use vortex::compute::{filter, search_sorted, slice, take, SearchSortedSide};
 use vortex::stats::ArrayStatistics;
 use vortex::Array;
 use vortex_dtype::DType;
 use vortex_error::{vortex_err, vortex_panic, VortexError, VortexExpect, VortexResult};
+use vortex_scalar::Scalar;
 use vortex_schema::Schema;
 
 use crate::io::VortexReadAt;
@@ -28,6 +31,8 @@ pub struct LayoutBatchStream<R> {
     state: StreamingState<R>,
     dtype: DType,
     cached_mask: Option<Array>,
+    // Number of rows in the batches decoded so far
+    row_offset: u64,
 }
 
 impl<R: VortexReadAt> LayoutBatchStream<R> {
@@ -54,6 +59,7 @@ impl<R: VortexReadAt> LayoutBatchStream<R> {
             dtype,
             state,
             cached_mask: None,
+            row_offset: 0,
         }
     }
 
@@ -146,7 +152,21 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                         StreamingState::Init
                     };
 
-                    if let Some(mask) = self.cached_mask.take() {
+                    let mut mask = self.cached_mask.take();
+
+                    let row_start = self.row_offset;
+                    self.row_offset += batch.len() as u64;
+                    if let Some(indices) = &self.scan.indices {
+                        let indices = indices_within(indices, row_start..self.row_offset)?;
+                        if indices.is_empty() {
+                            self.state = goto_state;
+                            continue;
+                        }
+                        batch = take(batch, &indices)?;
+                        mask = mask.map(|m| take(m, &indices)).transpose()?;
+                    }
+
+                    if let Some(mask) = mask {
                         if mask.statistics().compute_true_count() == Some(0) {
                             self.state = goto_state;
                             continue;
@@ -204,6 +224,13 @@ impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
     }
 }
 
+/// The indices of rows in the range, relative to its start
+fn indices_within(indices: &Array, rows: Range<u64>) -> VortexResult<Array> {
+    let start = search_sorted(indices, rows.start, SearchSortedSide::Left)?.to_index();
+    let stop = search_sorted(indices, rows.end, SearchSortedSide::Left)?.to_index();
+    subtract_scalar(slice(indices, start, stop)?, &Scalar::from(rows.start))
+}
+
 async fn read_ranges<R: VortexReadAt>(
     reader: R,
     ranges: Vec<(MessageId, ByteRange)>,
-- 
2.43.0


From b74733e771905c2550b6d67ec35231f70995e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 070/109] fix: reading a file went on out of step after an
 error

---
 vortex-serde/src/layouts/read/stream.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index 396b559..61be9cf 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -95,6 +95,17 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
     type Item = VortexResult<Array>;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        let batch = self.poll_batch(cx);
+        if matches!(batch, Poll::Ready(Some(Err(_)))) {
+            // There's no going on after an error, the readers of columns might be out of step.
+            self.state = StreamingState::Error;
+        }
+        batch
+    }
+}
+
+impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
+    fn poll_batch(&mut self, cx: &mut Context<'_>) -> Poll<Option<VortexResult<Array>>> {
         loop {
             match &mut self.state {
                 StreamingState::Init => {
@@ -185,10 +196,7 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
 
                         self.state = StreamingState::Init
                     }
-                    Err(e) => {
-                        self.state = StreamingState::Error;
-                        return Poll::Ready(Some(Err(e)));
-                    }
+                    Err(e) => return Poll::Ready(Some(Err(e))),
                 },
                 StreamingState::FilterReading(f) => match ready!(f.poll_unpin(cx)) {
                     Ok((input, messages)) => {
@@ -197,10 +205,7 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
 
                         self.state = StreamingState::FilterInit
                     }
-                    Err(e) => {
-                        self.state = StreamingState::Error;
-                        return Poll::Ready(Some(Err(e)));
-                    }
+                    Err(e) => return Poll::Ready(Some(Err(e))),
                 },
                 StreamingState::Error => return Poll::Ready(None),
             }
-- 
2.43.0


From d0c359a51edd064bd5645d108e77028ef5aaa7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 071/109] fix: sorted row indices in encodings that don't know
 they're sorted were refused

---
 vortex-array/src/stream/take_rows.rs         | 4 +++-
 vortex-serde/src/chunked_reader/take_rows.rs | 7 +++++--
 vortex-serde/src/layouts/read/builder.rs     | 8 +++++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index bb8fb51..5db7eeb 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -11,7 +11,7 @@ use crate::compute::unary::{scalar_at, subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
-use crate::{Array, ArrayDType};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 #[pin_project]
 pub struct TakeRows<R: ArrayStream> {
@@ -28,6 +28,8 @@ impl<R: ArrayStream> TakeRows<R> {
         if !indices.dtype().is_int() {
             vortex_bail!("Indices must be integers")
         }
+        // Not every encoding knows whether it's sorted
+        let indices = indices.into_primitive()?.into_array();
 
         if !indices.is_empty() {
             if !indices.statistics().compute_is_sorted().unwrap_or(false) {
diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index cde249b..e517b37 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -20,8 +20,11 @@ use crate::stream_reader::StreamArrayReader;
 
 impl<R: VortexReadAt> ChunkedArrayReader<R> {
     pub async fn take_rows(&mut self, indices: &Array) -> VortexResult<Array> {
-        // Row offsets might not fit the type of the indices.
-        let indices = try_cast(indices, PType::U64.into())?;
+        // Row offsets might not fit the type of the indices, and not every encoding knows whether
+        // it's sorted.
+        let indices = try_cast(indices, PType::U64.into())?
+            .into_primitive()?
+            .into_array();
         // Figure out if the row indices are sorted. If not, we need to sort them.
         if indices.is_empty() || indices.statistics().compute_is_sorted().unwrap_or(false) {
             // With sorted indices, we can take the rows directly.
diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index 738ed7d..5a59d21 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -2,7 +2,7 @@ use std::sync::{Arc, RwLock};
 
 use vortex::compute::unary::{scalar_at, try_cast};
 use vortex::stats::ArrayStatistics;
-use vortex::{Array, ArrayDType};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::field::Field;
 use vortex_dtype::PType;
 use vortex_error::{vortex_bail, VortexResult};
@@ -157,8 +157,10 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
 
 /// Sorted u64 indices of rows within a file of the given number of rows
 fn row_indices(indices: &Array, row_count: u64) -> VortexResult<Array> {
-    // The cast fails for nulls and negative indices
-    let indices = try_cast(indices, PType::U64.into())?;
+    // The cast fails for nulls and negative indices. Not every encoding knows whether it's sorted.
+    let indices = try_cast(indices, PType::U64.into())?
+        .into_primitive()?
+        .into_array();
     if !indices.is_empty() {
         if !indices.statistics().compute_is_sorted().unwrap_or(false) {
             vortex_bail!("Row indices must be sorted")
-- 
2.43.0


From 56c356d2a7489454eb5e7e69c7405d8b2e8b9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 072/109] fix: failures of buffered writes were lost when
 finishing a file

---
 vortex-serde/src/layouts/write/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 85127be..ad1a72f 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -192,6 +192,8 @@ impl<W: VortexWrite> LayoutWriter<W> {
         eof[0..2].copy_from_slice(&VERSION.to_le_bytes());
         eof[4..8].copy_from_slice(&MAGIC_BYTES);
         w.write_all(eof).await?;
+        // Writers might report failures of earlier writes only once they're flushed.
+        w.flush().await?;
         Ok(w)
     }
 }
-- 
2.43.0


From 9b3ed1dcccf60244663fc28c5cfd080ae7a59df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 073/109] fix: streaming a chunked reader panicked on I/O
 errors

---
 vortex-serde/src/chunked_reader/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/chunked_reader/mod.rs b/vortex-serde/src/chunked_reader/mod.rs
index fc1b658..885be70 100644
--- a/vortex-serde/src/chunked_reader/mod.rs
+++ b/vortex-serde/src/chunked_reader/mod.rs
@@ -1,8 +1,10 @@
+use std::future::ready;
 use std::io::Cursor;
 use std::sync::Arc;
 
+use futures_util::{stream, TryStreamExt};
 use vortex::compute::unary::scalar_at;
-use vortex::stream::ArrayStream;
+use vortex::stream::{ArrayStream, ArrayStreamAdapter};
 use vortex::{Array, Context};
 use vortex_dtype::DType;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
@@ -59,10 +61,13 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
             .vortex_expect("Failed to convert byte_offset to u64");
 
         cursor.set_position(byte_offset);
-        StreamArrayReader::try_new(cursor, self.context.clone())
+        let dtype = self.dtype.clone();
+        let reader = StreamArrayReader::try_new(cursor, self.context.clone())
             .await
-            .vortex_expect("Failed to create stream array reader")
-            .with_dtype(self.dtype.clone())
-            .into_array_stream()
+            .map(|reader| reader.with_dtype(dtype).into_array_stream());
+        ArrayStreamAdapter::new(
+            self.dtype.as_ref().clone(),
+            stream::once(ready(reader)).try_flatten(),
+        )
     }
 }
-- 
2.43.0


From 1f93f1ca20b8d9a930c42a532ce7dcad6fb730dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 074/109] fix: short reads from object stores panicked

---
 vortex-serde/src/io/object_store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/io/object_store.rs b/vortex-serde/src/io/object_store.rs
index 13782a8..8dfb1b5 100644
--- a/vortex-serde/src/io/object_store.rs
+++ b/vortex-serde/src/io/object_store.rs
@@ -11,7 +11,7 @@ use object_store::path::Path;
 use object_store::{ObjectStore, WriteMultipart};
 use vortex_buffer::io_buf::IoBuf;
 use vortex_buffer::Buffer;
-use vortex_error::{vortex_panic, VortexError, VortexResult};
+use vortex_error::{vortex_err, vortex_panic, VortexError, VortexResult};
 
 use crate::io::{VortexRead, VortexReadAt, VortexWrite};
 
@@ -74,6 +74,12 @@ impl VortexReadAt for ObjectStoreReadAt {
             .object_store
             .get_range(&self.location, start_range..(start_range + buffer.len()))
             .await?;
+        if bytes.len() != buffer.len() {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                vortex_err!("unexpected eof"),
+            ));
+        }
         buffer.as_mut().copy_from_slice(bytes.as_ref());
         Ok(buffer)
     }
-- 
2.43.0


From 1796ac3c44ceb4cd5034418d1a49d2b4620493dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 075/109] fix: reading a stream went on in the middle of a
 message after an error

---
 vortex-serde/src/message_reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index cf480b4..bb0fe52 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -92,6 +92,13 @@ impl<R: VortexRead> MessageReader<R> {
         Ok(Buffer::from(self.prev_message.clone().freeze()))
     }
 
+    /// Reads what follows a message. There's no telling where the next message is if that fails.
+    async fn read_body(&mut self, buffer: BytesMut) -> io::Result<BytesMut> {
+        let body = self.read.read_into(buffer).await;
+        self.finished |= body.is_err();
+        body
+    }
+
     pub async fn read_dtype(&mut self) -> VortexResult<DType> {
         if self.peek().and_then(|m| m.header_as_schema()).is_none() {
             vortex_bail!("Expected schema message")
@@ -127,7 +134,7 @@ impl<R: VortexRead> MessageReader<R> {
         // Issue a single read to grab all buffers
         let mut all_buffers = BytesMut::with_capacity(all_buffers_size);
         unsafe { all_buffers.set_len(all_buffers_size) };
-        let all_buffers = self.read.read_into(all_buffers).await?;
+        let all_buffers = self.read_body(all_buffers).await?;
 
         if array_reader.read(all_buffers.freeze())?.is_some() {
             unreachable!("This is an implementation bug")
@@ -203,7 +210,7 @@ impl<R: VortexRead> MessageReader<R> {
 
         let mut buffer = BytesMut::with_capacity(total_len);
         unsafe { buffer.set_len(total_len) }
-        buffer = self.read.read_into(buffer).await?;
+        buffer = self.read_body(buffer).await?;
         buffer.truncate(buffer_len);
         let page_buffer = Ok(Some(Buffer::from(buffer.freeze())));
         let _ = self.next().await?;
-- 
2.43.0


From 028b6877355cbd227d24a21fa4eb317079077f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 076/109] fix: constant null arrays could not be canonicalized

---
 vortex-array/src/array/constant/canonical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index cc33f17..bdd579a 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -7,7 +7,7 @@ use vortex_scalar::{BinaryScalar, BoolScalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, VarBinViewArray, VIEW_SIZE_BYTES};
+use crate::array::{BinaryView, BoolArray, NullArray, VarBinViewArray, VIEW_SIZE_BYTES};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -15,6 +15,10 @@ impl IntoCanonical for ConstantArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let scalar = &self.owned_scalar();
 
+        if matches!(self.dtype(), DType::Null) {
+            return Ok(Canonical::Null(NullArray::new(self.len())));
+        }
+
         let validity = match self.dtype().nullability() {
             Nullability::NonNullable => Validity::NonNullable,
             Nullability::Nullable => match scalar.is_null() {
-- 
2.43.0


From c9bbc30bca82c51664266f9aa58bcf24bd195100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 077/109] fix: decoding timestamps overflowed on what was
 stored for nulls

---
 encodings/datetime-parts/src/compute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encodings/datetime-parts/src/compute.rs b/encodings/datetime-parts/src/compute.rs
index 5e57800..5ea0873 100644
--- a/encodings/datetime-parts/src/compute.rs
+++ b/encodings/datetime-parts/src/compute.rs
@@ -123,7 +123,12 @@ pub fn decode_to_temporal(array: &DateTimePartsArray) -> VortexResult<TemporalAr
         .iter()
         .zip_eq(seconds_buf.maybe_null_slice::<i64>().iter())
         .zip_eq(subsecond_buf.maybe_null_slice::<i64>().iter())
-        .map(|((d, s), ss)| d * 86_400 * divisor + s * divisor + ss)
+        // The parts of a null may hold anything
+        .map(|((d, s), ss)| {
+            d.wrapping_mul(86_400 * divisor)
+                .wrapping_add(s.wrapping_mul(divisor))
+                .wrapping_add(*ss)
+        })
         .collect::<Vec<_>>();
 
     Ok(TemporalArray::new_timestamp(
-- 
2.43.0


From 3f4ced9ad85b77bbfd6bc9bf7b36e07c545aa2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 078/109] fix: reusing an ALP-RD choice for floats of another
 width corrupted them

---
 encodings/alp/src/alp_rd/mod.rs                      | 11 ++++++++++-
 vortex-sampling-compressor/src/compressors/alp_rd.rs |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/encodings/alp/src/alp_rd/mod.rs b/encodings/alp/src/alp_rd/mod.rs
index 8f6901c..949eb5e 100644
--- a/encodings/alp/src/alp_rd/mod.rs
+++ b/encodings/alp/src/alp_rd/mod.rs
@@ -12,7 +12,7 @@ use itertools::Itertools;
 use num_traits::{Float, One, PrimInt};
 use vortex::array::{PrimitiveArray, SparseArray};
 use vortex::{ArrayDType, IntoArray};
-use vortex_dtype::{DType, NativePType};
+use vortex_dtype::{DType, NativePType, PType};
 use vortex_error::{VortexExpect, VortexUnwrap};
 use vortex_fastlanes::bitpack_encode_unchecked;
 use vortex_scalar::ScalarValue;
@@ -149,6 +149,15 @@ impl RDEncoder {
         }
     }
 
+    /// Whether the encoder was built from values of the given type, and can encode others like them.
+    pub fn can_encode(&self, ptype: PType) -> bool {
+        let right_bit_width = self.right_bit_width as usize;
+        // The right part is what remains of a value after cutting up to CUT_LIMIT leading bits.
+        right_bit_width < ptype.bit_width()
+            && right_bit_width + CUT_LIMIT >= ptype.bit_width()
+            && matches!(ptype, PType::F32 | PType::F64)
+    }
+
     /// Encode a set of floating point values with ALP-RD.
     ///
     /// Each value will be split into a left and right component, which are compressed individually.
diff --git a/vortex-sampling-compressor/src/compressors/alp_rd.rs b/vortex-sampling-compressor/src/compressors/alp_rd.rs
index 3dcf23e..8bd0d28 100644
--- a/vortex-sampling-compressor/src/compressors/alp_rd.rs
+++ b/vortex-sampling-compressor/src/compressors/alp_rd.rs
@@ -51,10 +51,17 @@ impl EncodingCompressor for ALPRDCompressor {
     ) -> VortexResult<CompressedArray<'a>> {
         let primitive = array.clone().into_primitive()?;
 
-        // Train a new compressor or reuse an existing compressor.
+        // Train a new compressor or reuse an existing compressor, unless it was trained on values
+        // of the other type.
         let encoder = like
             .clone()
             .and_then(|mut tree| tree.metadata())
+            .filter(|metadata| {
+                metadata
+                    .as_any()
+                    .downcast_ref::<ALPRDEncoder>()
+                    .map_or(true, |encoder| encoder.can_encode(primitive.ptype()))
+            })
             .map(VortexResult::Ok)
             .unwrap_or_else(|| Ok(Arc::new(alp_rd_new_encoder(&primitive))))?;
 
-- 
2.43.0


From e7b0674155afd4a8b5ccde40e59474de4bd17dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 079/109] fix: reusing the choice made for a struct with other
 fields panicked

---
 vortex-sampling-compressor/src/compressors/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-sampling-compressor/src/compressors/struct_.rs b/vortex-sampling-compressor/src/compressors/struct_.rs
index 9225f68..c8ce167 100644
--- a/vortex-sampling-compressor/src/compressors/struct_.rs
+++ b/vortex-sampling-compressor/src/compressors/struct_.rs
@@ -38,8 +38,9 @@ impl EncodingCompressor for StructCompressor {
         let compressed_validity = ctx.compress_validity(array.validity())?;
 
         let children_trees = match like {
-            Some(tree) => tree.children,
-            None => vec![None; array.nfields()],
+            // The tree may stem from a struct with other fields
+            Some(tree) if tree.children.len() == array.nfields() => tree.children,
+            _ => vec![None; array.nfields()],
         };
 
         let (arrays, trees) = array
-- 
2.43.0


From 989a09cf6ea56cfc03282af3379b925669223bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 080/109] fix: Arrow structs with null rows over fields that
 aren't nullable panicked

---
 vortex-array/src/arrow/array.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 245be50..b2e0356 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -12,7 +12,7 @@ use arrow_array::types::{
     TimestampMillisecondType, TimestampNanosecondType, TimestampSecondType, UInt16Type, UInt32Type,
     UInt64Type, UInt8Type,
 };
-use arrow_array::{BinaryViewArray, GenericByteViewArray, StringViewArray};
+use arrow_array::{make_array, BinaryViewArray, GenericByteViewArray, StringViewArray};
 use arrow_buffer::buffer::{NullBuffer, OffsetBuffer};
 use arrow_buffer::{ArrowNativeType, Buffer, ScalarBuffer};
 use arrow_schema::{DataType, TimeUnit as ArrowTimeUnit};
@@ -166,7 +166,14 @@ impl FromArrowArray<&ArrowStructArray> for Array {
                 .columns()
                 .iter()
                 .zip(value.fields())
-                .map(|(c, field)| Self::from_arrow(c.clone(), field.is_nullable()))
+                .map(|(c, field)| {
+                    if !field.is_nullable() && c.nulls().is_some() {
+                        // A field that isn't nullable may only be null where the struct is.
+                        Self::from_arrow(without_nulls(c), false)
+                    } else {
+                        Self::from_arrow(c.clone(), field.is_nullable())
+                    }
+                })
                 .collect(),
             value.len(),
             nulls(value.nulls(), nullable),
@@ -183,6 +190,12 @@ impl FromArrowArray<&ArrowNullArray> for Array {
     }
 }
 
+fn without_nulls(array: &ArrowArrayRef) -> ArrowArrayRef {
+    let data = array.to_data().into_builder().nulls(None);
+    // SAFETY: the buffers and children are those of a valid array.
+    make_array(unsafe { data.build_unchecked() })
+}
+
 fn nulls(nulls: Option<&NullBuffer>, nullable: bool) -> Validity {
     if nullable {
         nulls
-- 
2.43.0


From 52d101cc418afe59092cb6504119b284aacdd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 081/109] fix: projecting a struct type by the index one past
 its fields panicked

---
 vortex-dtype/src/dtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-dtype/src/dtype.rs b/vortex-dtype/src/dtype.rs
index b2b16e6..8374d50 100644
--- a/vortex-dtype/src/dtype.rs
+++ b/vortex-dtype/src/dtype.rs
@@ -182,7 +182,7 @@ impl StructDType {
                 .ok_or_else(|| vortex_err!("Unknown field: {}", name))?,
             Field::Index(index) => *index,
         };
-        if index > self.names.len() {
+        if index >= self.names.len() {
             vortex_bail!("field index out of bounds: {}", index)
         }
         Ok(FieldInfo {
-- 
2.43.0


From fdf0921a7fb03493a0bf418c79bb3bb5203fa5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 082/109] fix: casting a null primitive scalar to another type
 panicked

---
 vortex-scalar/src/primitive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vortex-scalar/src/primitive.rs b/vortex-scalar/src/primitive.rs
index b7add0d..687096a 100644
--- a/vortex-scalar/src/primitive.rs
+++ b/vortex-scalar/src/primitive.rs
@@ -65,6 +65,12 @@ impl<'a> PrimitiveScalar<'a> {
 
     pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
         let ptype = PType::try_from(dtype)?;
+        if self.pvalue.is_none() {
+            if !dtype.is_nullable() {
+                vortex_bail!("Can't cast null scalar to non-nullable type")
+            }
+            return Ok(Scalar::null(dtype.clone()));
+        }
         match_each_native_ptype!(ptype, |$Q| {
             match_each_native_ptype!(self.ptype(), |$T| {
                 Ok(Scalar::primitive::<$Q>(
-- 
2.43.0


From 287e2211f606f75635a9187cf2a6f6603b98d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 083/109] fix: casting list and extension scalars to another
 type panicked

---
 vortex-scalar/src/binary.rs    |  7 +++++--
 vortex-scalar/src/extension.rs |  7 +++++--
 vortex-scalar/src/list.rs      | 21 +++++++++++++++++++--
 vortex-scalar/src/utf8.rs      |  7 +++++--
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/vortex-scalar/src/binary.rs b/vortex-scalar/src/binary.rs
index 10a6ee2..a521a74 100644
--- a/vortex-scalar/src/binary.rs
+++ b/vortex-scalar/src/binary.rs
@@ -20,8 +20,11 @@ impl<'a> BinaryScalar<'a> {
         self.value.as_ref().cloned()
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        if !self.dtype().eq_ignore_nullability(dtype) {
+            vortex_bail!("Can't cast {} to {}", self.dtype(), dtype)
+        }
+        Scalar::new(self.dtype().clone(), self.value.clone().into()).cast(dtype)
     }
 }
 
diff --git a/vortex-scalar/src/extension.rs b/vortex-scalar/src/extension.rs
index e345693..90902fc 100644
--- a/vortex-scalar/src/extension.rs
+++ b/vortex-scalar/src/extension.rs
@@ -30,8 +30,11 @@ impl<'a> ExtScalar<'a> {
         self.value
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        if !self.dtype().eq_ignore_nullability(dtype) {
+            vortex_bail!("Can't cast {} to {}", self.dtype(), dtype)
+        }
+        Scalar::new(self.dtype().clone(), self.value.clone()).cast(dtype)
     }
 }
 
diff --git a/vortex-scalar/src/list.rs b/vortex-scalar/src/list.rs
index 196bf87..331d903 100644
--- a/vortex-scalar/src/list.rs
+++ b/vortex-scalar/src/list.rs
@@ -61,8 +61,25 @@ impl<'a> ListScalar<'a> {
             })
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        let DType::List(element_dtype, nullability) = dtype else {
+            vortex_bail!("Can't cast {} to {}", self.dtype(), dtype)
+        };
+
+        let value = match &self.elements {
+            None if *nullability == NonNullable => {
+                vortex_bail!("Can't cast null scalar to non-nullable type")
+            }
+            None => ScalarValue::Null,
+            Some(_) => ScalarValue::List(
+                self.elements()
+                    .map(|e| e.cast(element_dtype).map(|e| e.into_value()))
+                    .collect::<VortexResult<Vec<_>>>()?
+                    .into(),
+            ),
+        };
+
+        Ok(Scalar::new(dtype.clone(), value))
     }
 }
 
diff --git a/vortex-scalar/src/utf8.rs b/vortex-scalar/src/utf8.rs
index cf74c43..a21b5e8 100644
--- a/vortex-scalar/src/utf8.rs
+++ b/vortex-scalar/src/utf8.rs
@@ -21,8 +21,11 @@ impl<'a> Utf8Scalar<'a> {
         self.value.as_ref().cloned()
     }
 
-    pub fn cast(&self, _dtype: &DType) -> VortexResult<Scalar> {
-        todo!()
+    pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
+        if !self.dtype().eq_ignore_nullability(dtype) {
+            vortex_bail!("Can't cast {} to {}", self.dtype(), dtype)
+        }
+        Scalar::new(self.dtype().clone(), self.value.clone().into()).cast(dtype)
     }
 }
 
-- 
2.43.0


From ea8bfa61cfc129f3d3a96aea89a6aea9652d1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 084/109] fix: equality of scalars disagreed with their order
 for zeros and NaN

---
 vortex-scalar/src/pvalue.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..55c861c 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -8,7 +8,7 @@ use vortex_dtype::half::f16;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_err, VortexError};
 
-#[derive(Debug, Clone, Copy, PartialEq)]
+#[derive(Debug, Clone, Copy)]
 pub enum PValue {
     U8(u8),
     U16(u16),
@@ -23,6 +23,25 @@ pub enum PValue {
     F64(f64),
 }
 
+impl PartialEq for PValue {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (Self::U8(s), Self::U8(o)) => s.is_eq(*o),
+            (Self::U16(s), Self::U16(o)) => s.is_eq(*o),
+            (Self::U32(s), Self::U32(o)) => s.is_eq(*o),
+            (Self::U64(s), Self::U64(o)) => s.is_eq(*o),
+            (Self::I8(s), Self::I8(o)) => s.is_eq(*o),
+            (Self::I16(s), Self::I16(o)) => s.is_eq(*o),
+            (Self::I32(s), Self::I32(o)) => s.is_eq(*o),
+            (Self::I64(s), Self::I64(o)) => s.is_eq(*o),
+            (Self::F16(s), Self::F16(o)) => s.is_eq(*o),
+            (Self::F32(s), Self::F32(o)) => s.is_eq(*o),
+            (Self::F64(s), Self::F64(o)) => s.is_eq(*o),
+            (..) => false,
+        }
+    }
+}
+
 impl PartialOrd for PValue {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match (self, other) {
-- 
2.43.0


From d9ad7b50a125a44ded0f66874a3d61308c804a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 085/109] fix: narrow integer scalars were not recovered from
 protobuf

---
 vortex-scalar/src/serde/proto.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/vortex-scalar/src/serde/proto.rs b/vortex-scalar/src/serde/proto.rs
index 8d9661f..ebe4f8f 100644
--- a/vortex-scalar/src/serde/proto.rs
+++ b/vortex-scalar/src/serde/proto.rs
@@ -1,3 +1,5 @@
+use std::fmt::Display;
+
 use half::f16;
 use vortex_buffer::{Buffer, BufferString};
 use vortex_dtype::{DType, PType};
@@ -110,6 +112,11 @@ impl TryFrom<&pb::Scalar> for Scalar {
     }
 }
 
+fn narrow<F: Copy + Display, T: TryFrom<F>>(value: F, dtype: &DType) -> VortexResult<T> {
+    T::try_from(value)
+        .map_err(|_| vortex_err!(InvalidSerde: "value {} doesn't fit in {}", value, dtype))
+}
+
 fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexResult<ScalarValue> {
     let kind = value
         .kind
@@ -119,7 +126,12 @@ fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexRes
     match kind {
         Kind::NullValue(_) => Ok(ScalarValue::Null),
         Kind::BoolValue(v) => Ok(ScalarValue::Bool(*v)),
-        Kind::Int32Value(v) => Ok(ScalarValue::Primitive(PValue::I32(*v))),
+        // Narrow integers are stored in 32 bits, the dtype says how wide they were.
+        Kind::Int32Value(v) => Ok(ScalarValue::Primitive(match dtype {
+            DType::Primitive(PType::I8, _) => PValue::I8(narrow(*v, dtype)?),
+            DType::Primitive(PType::I16, _) => PValue::I16(narrow(*v, dtype)?),
+            _ => PValue::I32(*v),
+        })),
         Kind::Int64Value(v) => Ok(ScalarValue::Primitive(PValue::I64(*v))),
         Kind::Uint32Value(v) => match dtype {
             DType::Primitive(PType::F16, _) => {
@@ -132,8 +144,16 @@ fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexRes
 
                 Ok(ScalarValue::Primitive(PValue::F16(f16_value)))
             }
-            DType::Primitive(PType::U32, _) => Ok(ScalarValue::Primitive(PValue::U32(*v))),
-            _ => vortex_bail!("invalid dtype for f32 value {}", dtype),
+            DType::Primitive(PType::U8, _) => {
+                Ok(ScalarValue::Primitive(PValue::U8(narrow(*v, dtype)?)))
+            }
+            DType::Primitive(PType::U16, _) => {
+                Ok(ScalarValue::Primitive(PValue::U16(narrow(*v, dtype)?)))
+            }
+            DType::Primitive(PType::U32, _) | DType::Extension(..) => {
+                Ok(ScalarValue::Primitive(PValue::U32(*v)))
+            }
+            _ => vortex_bail!("invalid dtype for u32 value {}", dtype),
         },
         Kind::Uint64Value(v) => Ok(ScalarValue::Primitive(PValue::U64(*v))),
         Kind::FloatValue(v) => Ok(ScalarValue::Primitive(PValue::F32(*v))),
-- 
2.43.0


From b06c2f264b8ed350a1405b02840e60a202de9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 086/109] fix: comparing timestamps lost the time zone of the
 scalar

---
 vortex-scalar/src/arrow.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/vortex-scalar/src/arrow.rs b/vortex-scalar/src/arrow.rs
index 9a02462..27bae51 100644
--- a/vortex-scalar/src/arrow.rs
+++ b/vortex-scalar/src/arrow.rs
@@ -16,6 +16,14 @@ macro_rules! value_to_arrow_scalar {
     };
 }
 
+macro_rules! timestamp_to_arrow_scalar {
+    ($V:expr, $TZ:expr, $AR:ty) => {
+        Ok(std::sync::Arc::new(arrow_array::Scalar::new(
+            <$AR>::from_iter([$V]).with_timezone_opt($TZ),
+        )))
+    };
+}
+
 impl TryFrom<&Scalar> for Arc<dyn Datum> {
     type Error = VortexError;
 
@@ -101,21 +109,25 @@ impl TryFrom<&Scalar> for Arc<dyn Datum> {
                             }
                             _ => vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id()),
                         },
-                        TemporalMetadata::Timestamp(u, _) => match u {
-                            TimeUnit::Ns => value_to_arrow_scalar!(
+                        TemporalMetadata::Timestamp(u, tz) => match u {
+                            TimeUnit::Ns => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampNanosecondArray
                             ),
-                            TimeUnit::Us => value_to_arrow_scalar!(
+                            TimeUnit::Us => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampMicrosecondArray
                             ),
-                            TimeUnit::Ms => value_to_arrow_scalar!(
+                            TimeUnit::Ms => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampMillisecondArray
                             ),
-                            TimeUnit::S => value_to_arrow_scalar!(
+                            TimeUnit::S => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
+                                tz,
                                 TimestampSecondArray
                             ),
                             TimeUnit::D => {
-- 
2.43.0


From 18924cdaccbded48792de337a951d2777f2da27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 087/109] fix: refuse empty slices outside a bytes-backed
 buffer

---
 vortex-buffer/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 14532e9..a486efe 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -60,12 +60,21 @@ impl Buffer {
 
     #[allow(clippy::same_name_method)]
     /// Return a new view on the buffer, but limited to the given index range.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the range does not lie within the buffer.
     pub fn slice(&self, range: Range<usize>) -> Self {
         match self {
             Self::Arrow(b) => {
                 Self::Arrow(b.slice_with_length(range.start, range.end - range.start))
             }
             Self::Bytes(b) => {
+                assert!(
+                    range.start <= range.end && range.end <= b.len(),
+                    "range {range:?} is out of bounds of a buffer of length {}",
+                    b.len()
+                );
                 if range.is_empty() {
                     // bytes::Bytes::slice does not preserve alignment if the range is empty
                     let mut empty_b = b.clone();
-- 
2.43.0


From 88d23c411c4fa7e956eadbd6d707299f23d5002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 088/109] fix: refuse I/O windows outside their buffer

---
 vortex-buffer/src/io_buf.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vortex-buffer/src/io_buf.rs b/vortex-buffer/src/io_buf.rs
index fc9f9f3..1368d97 100644
--- a/vortex-buffer/src/io_buf.rs
+++ b/vortex-buffer/src/io_buf.rs
@@ -19,11 +19,20 @@ pub unsafe trait IoBuf: Unpin + 'static {
     fn as_slice(&self) -> &[u8];
 
     /// Access the buffer as a byte slice with begin and end indices
+    ///
+    /// # Panics
+    ///
+    /// Panics if the range does not lie within the initialized bytes of the buffer.
     #[inline]
     fn slice_owned(self, range: Range<usize>) -> Slice<Self>
     where
         Self: Sized,
     {
+        assert!(
+            range.start <= range.end && range.end <= self.bytes_init(),
+            "range {range:?} is out of bounds of a buffer of length {}",
+            self.bytes_init()
+        );
         Slice {
             buf: self,
             begin: range.start,
-- 
2.43.0


From d49254e084dbb1cbf825413ec7581d9ca12e92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 089/109] fix: refuse to turn a buffer into a vector that would
 lack its last bytes

---
 vortex-buffer/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index a486efe..7a847bd 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -105,9 +105,12 @@ impl Buffer {
     /// This method will fail if the underlying buffer is an owned [`bytes::Bytes`].
     ///
     /// This method will also fail if we attempt to pass a `T` that is not aligned to the `T` that
-    /// it was originally allocated with.
+    /// it was originally allocated with, or if the length of the buffer isn't a multiple of the
+    /// size of `T`.
     pub fn into_vec<T: ArrowNativeType>(self) -> Result<Vec<T>, Self> {
         match self {
+            // Arrow would drop the bytes that don't make up a whole `T`.
+            Self::Arrow(buffer) if buffer.len() % size_of::<T>() != 0 => Err(Self::Arrow(buffer)),
             Self::Arrow(buffer) => buffer.into_vec::<T>().map_err(Buffer::Arrow),
             // Cannot convert bytes into a mutable vec
             Self::Bytes(_) => Err(self),
-- 
2.43.0


From 45cb04fbdae9f6d5833c10093f09702b0c4a4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 090/109] fix: comparing the identity expression with another
 never returned

---
 vortex-expr/src/identity.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vortex-expr/src/identity.rs b/vortex-expr/src/identity.rs
index 8a28483..82d82b6 100644
--- a/vortex-expr/src/identity.rs
+++ b/vortex-expr/src/identity.rs
@@ -20,9 +20,6 @@ impl VortexExpr for Identity {
 
 impl PartialEq<dyn Any> for Identity {
     fn eq(&self, other: &dyn Any) -> bool {
-        unbox_any(other)
-            .downcast_ref::<Self>()
-            .map(|x| x == other)
-            .unwrap_or(false)
+        unbox_any(other).downcast_ref::<Self>().is_some()
     }
 }
-- 
2.43.0


From 99562df5e7ce913f5c9e76ef944ecea54fd83e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 091/109] fix: column expressions over tables that aren't
 struct-encoded

---
 vortex-expr/src/column.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vortex-expr/src/column.rs b/vortex-expr/src/column.rs
index d663b9b..60e5360 100644
--- a/vortex-expr/src/column.rs
+++ b/vortex-expr/src/column.rs
@@ -1,8 +1,6 @@
 use std::any::Any;
 use std::collections::HashSet;
 
-use vortex::array::StructArray;
-use vortex::variants::StructArrayTrait;
 use vortex::Array;
 use vortex_dtype::field::Field;
 use vortex_error::{vortex_err, VortexResult};
@@ -42,13 +40,17 @@ impl VortexExpr for Column {
     }
 
     fn evaluate(&self, batch: &Array) -> VortexResult<Array> {
-        let s = StructArray::try_from(batch)?;
+        batch.with_dyn(|s| {
+            let s = s
+                .as_struct_array()
+                .ok_or_else(|| vortex_err!("Not a struct array"))?;
 
-        match &self.field {
-            Field::Name(n) => s.field_by_name(n),
-            Field::Index(i) => s.field(*i),
-        }
-        .ok_or_else(|| vortex_err!("Array doesn't contain child array {}", self.field))
+            match &self.field {
+                Field::Name(n) => s.field_by_name(n),
+                Field::Index(i) => s.field(*i),
+            }
+            .ok_or_else(|| vortex_err!("Array doesn't contain child array {}", self.field))
+        })
     }
 
     fn collect_references<'a>(&'a self, references: &mut HashSet<&'a Field>) {
-- 
2.43.0


From 0dec3ab060ebafd46869b433256922b4883b95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 092/109] fix: a null literal lost its type on its way into a
 filter

---
 vortex-scalar/src/datafusion.rs | 77 +++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/vortex-scalar/src/datafusion.rs b/vortex-scalar/src/datafusion.rs
index 806c190..4f771e9 100644
--- a/vortex-scalar/src/datafusion.rs
+++ b/vortex-scalar/src/datafusion.rs
@@ -121,53 +121,82 @@ impl TryFrom<Scalar> for ScalarValue {
 
 impl From<ScalarValue> for Scalar {
     fn from(value: ScalarValue) -> Scalar {
+        // A null keeps the type of the literal it comes from.
+        let null = |dtype: DType| Scalar::null(dtype.as_nullable());
         match value {
-            ScalarValue::Null => Some(Scalar::null(DType::Null)),
-            ScalarValue::Boolean(b) => b.map(Scalar::from),
-            ScalarValue::Float16(f) => f.map(Scalar::from),
-            ScalarValue::Float32(f) => f.map(Scalar::from),
-            ScalarValue::Float64(f) => f.map(Scalar::from),
-            ScalarValue::Int8(i) => i.map(Scalar::from),
-            ScalarValue::Int16(i) => i.map(Scalar::from),
-            ScalarValue::Int32(i) => i.map(Scalar::from),
-            ScalarValue::Int64(i) => i.map(Scalar::from),
-            ScalarValue::UInt8(i) => i.map(Scalar::from),
-            ScalarValue::UInt16(i) => i.map(Scalar::from),
-            ScalarValue::UInt32(i) => i.map(Scalar::from),
-            ScalarValue::UInt64(i) => i.map(Scalar::from),
-            ScalarValue::Utf8(s) | ScalarValue::Utf8View(s) | ScalarValue::LargeUtf8(s) => {
-                s.as_ref().map(|s| Scalar::from(s.as_str()))
-            }
+            ScalarValue::Null => Scalar::null(DType::Null),
+            ScalarValue::Boolean(b) => b
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::Bool(Nullability::Nullable))),
+            ScalarValue::Float16(f) => f
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::F16))),
+            ScalarValue::Float32(f) => f
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::F32))),
+            ScalarValue::Float64(f) => f
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::F64))),
+            ScalarValue::Int8(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::I8))),
+            ScalarValue::Int16(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::I16))),
+            ScalarValue::Int32(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::I32))),
+            ScalarValue::Int64(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::I64))),
+            ScalarValue::UInt8(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::U8))),
+            ScalarValue::UInt16(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::U16))),
+            ScalarValue::UInt32(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::U32))),
+            ScalarValue::UInt64(i) => i
+                .map(Scalar::from)
+                .unwrap_or_else(|| null(DType::from(PType::U64))),
+            ScalarValue::Utf8(s) | ScalarValue::Utf8View(s) | ScalarValue::LargeUtf8(s) => s
+                .as_ref()
+                .map(|s| Scalar::from(s.as_str()))
+                .unwrap_or_else(|| null(DType::Utf8(Nullability::Nullable))),
             ScalarValue::Binary(b)
             | ScalarValue::BinaryView(b)
             | ScalarValue::LargeBinary(b)
             | ScalarValue::FixedSizeBinary(_, b) => b
                 .as_ref()
-                .map(|b| Scalar::binary(Buffer::from(b.clone()), Nullability::Nullable)),
+                .map(|b| Scalar::binary(Buffer::from(b.clone()), Nullability::Nullable))
+                .unwrap_or_else(|| null(DType::Binary(Nullability::Nullable))),
             ScalarValue::Date32(v)
             | ScalarValue::Time32Second(v)
-            | ScalarValue::Time32Millisecond(v) => v.map(|i| {
+            | ScalarValue::Time32Millisecond(v) => {
                 let ext_dtype = make_temporal_ext_dtype(&value.data_type());
                 Scalar::new(
                     DType::Extension(ext_dtype, Nullability::Nullable),
-                    crate::ScalarValue::Primitive(PValue::I32(i)),
+                    v.map(|i| crate::ScalarValue::Primitive(PValue::I32(i)))
+                        .unwrap_or(crate::ScalarValue::Null),
                 )
-            }),
+            }
             ScalarValue::Date64(v)
             | ScalarValue::Time64Microsecond(v)
             | ScalarValue::Time64Nanosecond(v)
             | ScalarValue::TimestampSecond(v, _)
             | ScalarValue::TimestampMillisecond(v, _)
             | ScalarValue::TimestampMicrosecond(v, _)
-            | ScalarValue::TimestampNanosecond(v, _) => v.map(|i| {
+            | ScalarValue::TimestampNanosecond(v, _) => {
                 let ext_dtype = make_temporal_ext_dtype(&value.data_type());
                 Scalar::new(
                     DType::Extension(ext_dtype, Nullability::Nullable),
-                    crate::ScalarValue::Primitive(PValue::I64(i)),
+                    v.map(|i| crate::ScalarValue::Primitive(PValue::I64(i)))
+                        .unwrap_or(crate::ScalarValue::Null),
                 )
-            }),
+            }
             _ => unimplemented!("Can't convert {value:?} value to a Vortex scalar"),
         }
-        .unwrap_or_else(|| Scalar::null(DType::Null))
     }
 }
-- 
2.43.0


From c4f0b245c5206d9ca1ceaa961440e811ac7334c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 093/109] fix: rows where a pushed-down filter is null were
 selected by stray value bits

---
 vortex-datafusion/src/plans.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vortex-datafusion/src/plans.rs b/vortex-datafusion/src/plans.rs
index 92097dd..7fc2fa7 100644
--- a/vortex-datafusion/src/plans.rs
+++ b/vortex-datafusion/src/plans.rs
@@ -8,7 +8,7 @@ use std::task::{Context, Poll};
 
 use arrow_array::cast::AsArray;
 use arrow_array::types::UInt64Type;
-use arrow_array::{ArrayRef, RecordBatch, RecordBatchOptions, UInt64Array};
+use arrow_array::{Array as _, ArrayRef, RecordBatch, RecordBatchOptions, UInt64Array};
 use arrow_schema::{DataType, Schema, SchemaRef};
 use datafusion_common::{DataFusionError, Result as DFResult};
 use datafusion_execution::{RecordBatchStream, SendableRecordBatchStream, TaskContext};
@@ -169,12 +169,14 @@ impl Stream for RowIndicesStream {
             .into_canonical()?
             .into_arrow()?;
 
-        // Convert the `selection` BooleanArray into a UInt64Array of indices.
-        let selection_indices = selection
-            .as_boolean()
-            .values()
-            .set_indices()
-            .map(|idx| idx as u64);
+        // Convert the `selection` BooleanArray into a UInt64Array of indices. A null doesn't select
+        // its row, whatever its value bit.
+        let selection = selection.as_boolean();
+        let selected = match selection.nulls() {
+            None => selection.values().clone(),
+            Some(nulls) => selection.values() & nulls.inner(),
+        };
+        let selection_indices = selected.set_indices().map(|idx| idx as u64);
 
         let indices = Arc::new(UInt64Array::from_iter_values(selection_indices)) as ArrayRef;
         let indices_batch = RecordBatch::try_new(ROW_SELECTOR_SCHEMA_REF.clone(), vec![indices])?;
-- 
2.43.0


From f81867b7f3fe50ee1a81098822d64b3efce26b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 094/109] fix: and/or over nulls were pushed down though they
 mean another thing there

---
 vortex-datafusion/src/lib.rs | 37 ++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index e731766..e6cc087 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -158,11 +158,27 @@ impl SessionContextExt for SessionContext {
 
 fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     match expr {
-        Expr::BinaryExpr(expr)
-            if expr.op.is_logic_operator() || SUPPORTED_BINARY_OPS.contains(&expr.op) =>
-        {
+        // A row passes a conjunction if it passes all of its parts, null or not.
+        Expr::BinaryExpr(expr) if expr.op == Operator::And => {
             can_be_pushed_down(expr.left.as_ref(), schema)
-                & can_be_pushed_down(expr.right.as_ref(), schema)
+                && can_be_pushed_down(expr.right.as_ref(), schema)
+        }
+        _ => can_be_evaluated(expr, schema),
+    }
+}
+
+/// Whether the expression has the same value, null included, in Vortex as in DataFusion.
+fn can_be_evaluated(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        // In DataFusion `true OR NULL` is true and `false AND NULL` is false, in Vortex both are null.
+        Expr::BinaryExpr(expr) if expr.op.is_logic_operator() => {
+            [expr.left.as_ref(), expr.right.as_ref()]
+                .iter()
+                .all(|e| can_be_evaluated(e, schema) && !may_be_null(e, schema))
+        }
+        Expr::BinaryExpr(expr) if SUPPORTED_BINARY_OPS.contains(&expr.op) => {
+            can_be_evaluated(expr.left.as_ref(), schema)
+                && can_be_evaluated(expr.right.as_ref(), schema)
         }
         Expr::Column(col) => match schema.column_with_name(col.name()) {
             Some((_, field)) => supported_data_types(field.data_type().clone()),
@@ -173,6 +189,19 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     }
 }
 
+fn may_be_null(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        Expr::BinaryExpr(expr) => {
+            may_be_null(expr.left.as_ref(), schema) || may_be_null(expr.right.as_ref(), schema)
+        }
+        Expr::Column(col) => schema
+            .column_with_name(col.name())
+            .map_or(true, |(_, field)| field.is_nullable()),
+        Expr::Literal(lit) => lit.is_null(),
+        _ => true,
+    }
+}
+
 /// Physical plan node for scans against an in-memory, possibly chunked Vortex Array.
 #[derive(Clone)]
 struct VortexScanExec {
-- 
2.43.0


From 13bc5936033e276a441d478cc9f81ac6e0b3364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:47 +0000
Subject: [PATCH 095/109] hook: let a scheduler decide when threads take the
 statistics lock (cfg vortex_mc)

---
 vortex-array/src/data.rs |   3 +-
 vortex-array/src/lib.rs  |   3 +
 vortex-array/src/sync.rs | 209 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 214 insertions(+), 1 deletion(-)
 create mode 100644 vortex-array/src/sync.rs

diff --git a/vortex-array/src/data.rs b/vortex-array/src/data.rs
index 15d91b9..062d9dd 100644
--- a/vortex-array/src/data.rs
+++ b/vortex-array/src/data.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
 
 use vortex_buffer::Buffer;
 use vortex_dtype::DType;
@@ -7,6 +7,7 @@ use vortex_scalar::Scalar;
 
 use crate::encoding::EncodingRef;
 use crate::stats::{Stat, Statistics, StatsSet};
+use crate::sync::RwLock;
 use crate::{Array, ArrayDType, ArrayMetadata, ToArray};
 
 /// Owned [`Array`] with serialized metadata, backed by heap-allocated memory.
diff --git a/vortex-array/src/lib.rs b/vortex-array/src/lib.rs
index 4827dcb..7a45113 100644
--- a/vortex-array/src/lib.rs
+++ b/vortex-array/src/lib.rs
@@ -49,6 +49,9 @@ pub mod iter;
 mod metadata;
 pub mod stats;
 pub mod stream;
+#[doc(hidden)]
+#[allow(unexpected_cfgs)]
+pub mod sync;
 mod tree;
 mod typed;
 pub mod validity;
diff --git a/vortex-array/src/sync.rs b/vortex-array/src/sync.rs
new file mode 100644
index 0000000..ea52a15
--- /dev/null
+++ b/vortex-array/src/sync.rs
@@ -0,0 +1,209 @@
+//! The lock that guards state shared between threads.
+
+#[cfg(not(vortex_mc))]
+pub(crate) use std::sync::RwLock;
+
+#[cfg(vortex_mc)]
+pub use controlled::*;
+
+/// A lock whose schedule can be decided from outside, to explore the interleavings of threads.
+///
+/// Only compiled with `--cfg vortex_mc`. A thread without a [`Scheduler`] uses the lock as usual.
+#[cfg(vortex_mc)]
+mod controlled {
+    use std::cell::RefCell;
+    use std::ops::{Deref, DerefMut};
+    use std::sync::atomic::{AtomicUsize, Ordering};
+    use std::sync::{
+        Arc, LockResult, PoisonError, RwLockReadGuard, RwLockWriteGuard, TryLockError,
+        TryLockResult,
+    };
+
+    #[derive(Clone, Copy, Debug)]
+    pub struct LockId {
+        pub serial: usize,
+        /// Whether the lock came into being on a scheduled thread, rather than before.
+        pub scheduled: bool,
+    }
+
+    pub trait Scheduler: Send + Sync {
+        /// Returns once the calling thread may take the lock.
+        fn acquire(&self, lock: LockId, write: bool);
+        /// Whether the calling thread may take the lock now.
+        fn try_acquire(&self, lock: LockId, write: bool) -> bool;
+        /// Called when the calling thread has given the lock back.
+        fn release(&self, lock: LockId, write: bool);
+    }
+
+    static SERIAL: AtomicUsize = AtomicUsize::new(0);
+
+    thread_local! {
+        static SCHEDULER: RefCell<Option<Arc<dyn Scheduler>>> = const { RefCell::new(None) };
+    }
+
+    /// Have the locks taken by the calling thread scheduled.
+    pub fn set_scheduler(scheduler: Option<Arc<dyn Scheduler>>) {
+        SCHEDULER.with(|s| *s.borrow_mut() = scheduler);
+    }
+
+    fn scheduler() -> Option<Arc<dyn Scheduler>> {
+        SCHEDULER.with(|s| s.borrow().clone())
+    }
+
+    #[derive(Debug)]
+    pub struct RwLock<T> {
+        inner: std::sync::RwLock<T>,
+        id: LockId,
+    }
+
+    impl<T> RwLock<T> {
+        pub fn new(value: T) -> Self {
+            Self {
+                inner: std::sync::RwLock::new(value),
+                id: LockId {
+                    serial: SERIAL.fetch_add(1, Ordering::Relaxed),
+                    scheduled: scheduler().is_some(),
+                },
+            }
+        }
+
+        fn release(&self, write: bool) -> Release {
+            Release {
+                scheduler: scheduler(),
+                lock: self.id,
+                write,
+            }
+        }
+
+        fn enter(&self, write: bool) -> Release {
+            if let Some(s) = scheduler() {
+                s.acquire(self.id, write);
+            }
+            self.release(write)
+        }
+
+        pub fn read(&self) -> LockResult<ReadGuard<'_, T>> {
+            let release = self.enter(false);
+            match self.inner.read() {
+                Ok(guard) => Ok(ReadGuard { guard, release }),
+                Err(e) => Err(PoisonError::new(ReadGuard {
+                    guard: e.into_inner(),
+                    release,
+                })),
+            }
+        }
+
+        pub fn write(&self) -> LockResult<WriteGuard<'_, T>> {
+            let release = self.enter(true);
+            match self.inner.write() {
+                Ok(guard) => Ok(WriteGuard { guard, release }),
+                Err(e) => Err(PoisonError::new(WriteGuard {
+                    guard: e.into_inner(),
+                    release,
+                })),
+            }
+        }
+
+        pub fn try_read(&self) -> TryLockResult<ReadGuard<'_, T>> {
+            if scheduler().is_some_and(|s| !s.try_acquire(self.id, false)) {
+                return Err(TryLockError::WouldBlock);
+            }
+            let release = self.release(false);
+            match self.inner.try_read() {
+                Ok(guard) => Ok(ReadGuard { guard, release }),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(e)) => Err(PoisonError::new(ReadGuard {
+                    guard: e.into_inner(),
+                    release,
+                })
+                .into()),
+            }
+        }
+
+        pub fn try_write(&self) -> TryLockResult<WriteGuard<'_, T>> {
+            if scheduler().is_some_and(|s| !s.try_acquire(self.id, true)) {
+                return Err(TryLockError::WouldBlock);
+            }
+            let release = self.release(true);
+            match self.inner.try_write() {
+                Ok(guard) => Ok(WriteGuard { guard, release }),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(e)) => Err(PoisonError::new(WriteGuard {
+                    guard: e.into_inner(),
+                    release,
+                })
+                .into()),
+            }
+        }
+
+        pub fn is_poisoned(&self) -> bool {
+            self.inner.is_poisoned()
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.inner.get_mut()
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.inner.into_inner()
+        }
+    }
+
+    /// Tells the scheduler, once the guard declared before it is dropped.
+    #[derive(Debug)]
+    struct Release {
+        scheduler: Option<Arc<dyn Scheduler>>,
+        lock: LockId,
+        write: bool,
+    }
+
+    impl std::fmt::Debug for dyn Scheduler {
+        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            f.write_str("Scheduler")
+        }
+    }
+
+    impl Drop for Release {
+        fn drop(&mut self) {
+            if let Some(s) = &self.scheduler {
+                s.release(self.lock, self.write);
+            }
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct ReadGuard<'a, T> {
+        guard: RwLockReadGuard<'a, T>,
+        #[allow(dead_code)]
+        release: Release,
+    }
+
+    impl<T> Deref for ReadGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            &self.guard
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct WriteGuard<'a, T> {
+        guard: RwLockWriteGuard<'a, T>,
+        #[allow(dead_code)]
+        release: Release,
+    }
+
+    impl<T> Deref for WriteGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            &self.guard
+        }
+    }
+
+    impl<T> DerefMut for WriteGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.guard
+        }
+    }
+}
-- 
2.43.0


From c225639645cfa7bc144b7ffb97537651b8eb9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 096/109] fix: keep a sliced sparse array's index offset when
 compressing it

SparseCompressor rebuilt the array without its indices_offset, so the values of a
sliced sparse array moved to other rows, or compression failed or panicked.
---
 vortex-array/src/array/sparse/mod.rs                 | 2 +-
 vortex-sampling-compressor/src/compressors/sparse.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 049ed41..5e512e5 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -43,7 +43,7 @@ impl SparseArray {
         Self::try_new_with_offset(indices, values, len, 0, fill_value)
     }
 
-    pub(crate) fn try_new_with_offset(
+    pub fn try_new_with_offset(
         indices: Array,
         values: Array,
         len: usize,
diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..4ee7650 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -40,10 +40,11 @@ impl EncodingCompressor for SparseCompressor {
             like.as_ref().and_then(|l| l.child(0)),
         )?;
         Ok(CompressedArray::new(
-            SparseArray::try_new(
+            SparseArray::try_new_with_offset(
                 indices.array,
                 values.array,
                 sparse_array.len(),
+                sparse_array.indices_offset(),
                 sparse_array.fill_value().clone(),
             )?
             .into_array(),
-- 
2.43.0


From 1753e7051f1b53e1911bdfd1a5007be2290cd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 097/109] fix: count the validity of bit-packed arrays in their
 size

---
 encodings/fastlanes/src/bitpacking/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encodings/fastlanes/src/bitpacking/mod.rs b/encodings/fastlanes/src/bitpacking/mod.rs
index a16b234..c20c2c3 100644
--- a/encodings/fastlanes/src/bitpacking/mod.rs
+++ b/encodings/fastlanes/src/bitpacking/mod.rs
@@ -244,7 +244,9 @@ impl ArrayTrait for BitPackedArray {
     fn nbytes(&self) -> usize {
         // Ignore any overheads like padding or the bit-width flag.
         let packed_size = ((self.bit_width() as usize * self.len()) + 7) / 8;
-        packed_size + self.patches().map(|p| p.nbytes()).unwrap_or(0)
+        packed_size
+            + self.patches().map(|p| p.nbytes()).unwrap_or(0)
+            + self.validity().into_array().map_or(0, |v| v.nbytes())
     }
 }
 
-- 
2.43.0


From 29d28e99fc651fe23bcf9f101d3dbb32b6b738f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 098/109] fix: patch the right positions when taking many
 elements per block of a bit-packed array

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..8a47db7 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -135,12 +135,12 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
     fn inner_patch<T: NativePType>(
         patches: &SparseArray,
         indices: &PrimitiveArray,
+        output_position: impl Fn(usize) -> usize,
         output: &mut [T],
     ) -> VortexResult<()> {
         let taken_patches = take(patches.as_ref(), indices.as_ref())?;
         let taken_patches = SparseArray::try_from(taken_patches)?;
 
-        let base_index = output.len() - indices.len();
         let output_patches = taken_patches
             .values()
             .into_primitive()?
@@ -148,7 +148,7 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
         taken_patches
             .resolved_indices()
             .iter()
-            .map(|idx| base_index + *idx)
+            .map(|idx| output_position(*idx))
             .zip_eq(output_patches.maybe_null_slice::<T>())
             .for_each(|(idx, val)| {
                 output[idx] = *val;
@@ -162,23 +162,23 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
     // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
     let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
     if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
+        return inner_patch(patches, indices, |idx| idx, output);
     }
 
     let min_index = patches.min_index().unwrap_or_default();
     let max_index = patches.max_index().unwrap_or_default();
 
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
+    // Group indices into 1024-element chunks, remembering their positions in the output
     let chunked_indices = &indices
         .maybe_null_slice::<I>()
         .iter()
         .map(|i| {
             i.to_usize()
                 .vortex_expect("index must be expressible as usize")
-                + offset
         })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
+        .enumerate()
+        .filter(|(_, i)| *i >= min_index && *i <= max_index) // short-circuit
+        .chunk_by(|(_, i)| (i + offset) / 1024);
 
     for (chunk, offsets) in chunked_indices {
         // NOTE: we need to subtract the array offset before slicing into the patches.
@@ -198,15 +198,22 @@ fn patch_for_take_primitive<T: NativePType, I: NativePType>(
 
         let min_index = patches_slice.min_index().unwrap_or_default();
         let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
+        // Relativise the indices to the beginning of the sliced patches
+        let (positions, offsets): (Vec<usize>, Vec<u16>) = offsets
+            .map(|(position, i)| (position, i - patches_start))
+            .filter(|(_, i)| *i >= min_index && *i <= max_index)
+            .map(|(position, i)| (position, i as u16))
+            .unzip();
         if offsets.is_empty() {
             continue;
         }
 
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
+        inner_patch(
+            &patches_slice,
+            &PrimitiveArray::from(offsets),
+            |idx| positions[idx],
+            output,
+        )?;
     }
 
     Ok(())
-- 
2.43.0


From 3b75a9e1d2a8ef24eb2d0f4efe405e520f101a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 099/109] fix: compare FSST-compressed strings with a constant
 by value, not by code

---
 encodings/fsst/src/compute.rs | 68 ++++++++++-------------------------
 1 file changed, 19 insertions(+), 49 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index 2edd6cf..96207dd 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -1,4 +1,3 @@
-use fsst::Symbol;
 use vortex::array::{varbin_scalar, ConstantArray};
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
@@ -37,11 +36,9 @@ impl ArrayCompute for FSSTArray {
 impl MaybeCompareFn for FSSTArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
         match (ConstantArray::try_from(other), operator) {
-            (Ok(constant_array), Operator::Eq | Operator::NotEq) => Some(compare_fsst_constant(
-                self,
-                &constant_array,
-                operator == Operator::Eq,
-            )),
+            (Ok(constant_array), Operator::Eq | Operator::NotEq) => {
+                Some(compare_fsst_constant(self, &constant_array, operator))
+            }
             _ => None,
         }
     }
@@ -49,54 +46,27 @@ impl MaybeCompareFn for FSSTArray {
 
 /// Specialized compare function implementation used when performing equals or not equals against
 /// a constant.
+///
+/// One string can be encoded in several ways under the same symbol table, and a compressor that is
+/// rebuilt from the table may number the symbols differently and pick another encoding than the one
+/// that compressed the array. Comparing codes is therefore not enough to tell strings apart, so only
+/// the null constant is answered without decoding.
 fn compare_fsst_constant(
     left: &FSSTArray,
     right: &ConstantArray,
-    equal: bool,
+    operator: Operator,
 ) -> VortexResult<Array> {
-    let symbols = left.symbols().into_primitive()?;
-    let symbols_u64 = symbols.maybe_null_slice::<u64>();
-
-    let symbol_lens = left.symbol_lengths().into_primitive()?;
-    let symbol_lens_u8 = symbol_lens.maybe_null_slice::<u8>();
-
-    let mut compressor = fsst::CompressorBuilder::new();
-    for (symbol, symbol_len) in symbols_u64.iter().zip(symbol_lens_u8.iter()) {
-        compressor.insert(Symbol::from_slice(&symbol.to_le_bytes()), *symbol_len as _);
-    }
-    let compressor = compressor.build();
-
-    let encoded_scalar = match left.dtype() {
-        DType::Utf8(_) => right
-            .scalar_value()
-            .as_buffer_string()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_bytes()))),
-        DType::Binary(_) => right
-            .scalar_value()
-            .as_buffer()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_slice()))),
-
-        _ => unreachable!("FSSTArray can only have string or binary data type"),
-    };
-
-    match encoded_scalar {
-        None => {
-            // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(
-                ConstantArray::new(Scalar::null(DType::Bool(Nullability::Nullable)), left.len())
-                    .into_array(),
-            )
-        }
-        Some(encoded_scalar) => {
-            let rhs = ConstantArray::new(encoded_scalar, left.len());
-
-            compare(
-                left.codes(),
-                rhs,
-                if equal { Operator::Eq } else { Operator::NotEq },
-            )
-        }
+    if right.scalar_value().is_null() {
+        // Eq and NotEq on null values yield nulls, per the Arrow behavior.
+        return Ok(ConstantArray::new(
+            Scalar::null(DType::Bool(Nullability::Nullable)),
+            left.len(),
+        )
+        .into_array());
     }
+
+    let decoded = left.clone().into_varbinview()?;
+    compare(decoded, right.clone(), operator)
 }
 
 impl SliceFn for FSSTArray {
-- 
2.43.0


From 9880d335451ff74ef474fe1a572328d2cd5827cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 100/109] fix: refuse truncated temporal metadata with an error

---
 vortex-datetime-dtype/src/temporal.rs | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/vortex-datetime-dtype/src/temporal.rs b/vortex-datetime-dtype/src/temporal.rs
index 696322b..04291e7 100644
--- a/vortex-datetime-dtype/src/temporal.rs
+++ b/vortex-datetime-dtype/src/temporal.rs
@@ -1,4 +1,5 @@
 use std::fmt::Display;
+use std::ops::Range;
 
 use jiff::civil::{Date, Time};
 use jiff::{Timestamp, Zoned};
@@ -118,32 +119,39 @@ impl TryFrom<&ExtDType> for TemporalMetadata {
     }
 }
 
+fn metadata_range(ext_meta: &ExtMetadata, range: Range<usize>) -> VortexResult<&[u8]> {
+    ext_meta.as_ref().get(range.clone()).ok_or_else(|| {
+        vortex_err!(
+            "Truncated temporal metadata: expected at least {} bytes, found {}",
+            range.end,
+            ext_meta.as_ref().len()
+        )
+    })
+}
+
+fn decode_time_unit(ext_meta: &ExtMetadata) -> VortexResult<TimeUnit> {
+    let tag = metadata_range(ext_meta, 0..1)?[0];
+    TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))
+}
+
 fn decode_date_metadata(ext_meta: &ExtMetadata) -> VortexResult<TemporalMetadata> {
-    let tag = ext_meta.as_ref()[0];
-    let time_unit =
-        TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))?;
-    Ok(TemporalMetadata::Date(time_unit))
+    Ok(TemporalMetadata::Date(decode_time_unit(ext_meta)?))
 }
 
 fn decode_time_metadata(ext_meta: &ExtMetadata) -> VortexResult<TemporalMetadata> {
-    let tag = ext_meta.as_ref()[0];
-    let time_unit =
-        TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))?;
-    Ok(TemporalMetadata::Time(time_unit))
+    Ok(TemporalMetadata::Time(decode_time_unit(ext_meta)?))
 }
 
 fn decode_timestamp_metadata(ext_meta: &ExtMetadata) -> VortexResult<TemporalMetadata> {
-    let tag = ext_meta.as_ref()[0];
-    let time_unit =
-        TimeUnit::try_from(tag).map_err(|e| vortex_err!(ComputeError: "invalid unit tag: {e}"))?;
-    let tz_len_bytes = &ext_meta.as_ref()[1..3];
+    let time_unit = decode_time_unit(ext_meta)?;
+    let tz_len_bytes = metadata_range(ext_meta, 1..3)?;
     let tz_len = u16::from_le_bytes(tz_len_bytes.try_into()?);
     if tz_len == 0 {
         return Ok(TemporalMetadata::Timestamp(time_unit, None));
     }
 
     // Attempt to load from len-prefixed bytes
-    let tz_bytes = &ext_meta.as_ref()[3..(3 + (tz_len as usize))];
+    let tz_bytes = metadata_range(ext_meta, 3..(3 + (tz_len as usize)))?;
     let tz = String::from_utf8_lossy(tz_bytes).to_string();
     Ok(TemporalMetadata::Timestamp(time_unit, Some(tz)))
 }
-- 
2.43.0


From 91c008ac02f72703cd51873eb87223e017900bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 101/109] fix: refuse timestamp arrays that count days

---
 vortex-array/src/array/datetime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vortex-array/src/array/datetime/mod.rs b/vortex-array/src/array/datetime/mod.rs
index 9f8a2ca..5884e0b 100644
--- a/vortex-array/src/array/datetime/mod.rs
+++ b/vortex-array/src/array/datetime/mod.rs
@@ -140,6 +140,9 @@ impl TemporalArray {
     /// If the time_unit is days, the function will panic.
     pub fn new_timestamp(array: Array, time_unit: TimeUnit, time_zone: Option<String>) -> Self {
         assert_width!(i64, array);
+        if time_unit == TimeUnit::D {
+            vortex_panic!("invalid unit D for vortex.timestamp data");
+        }
 
         let temporal_metadata = TemporalMetadata::Timestamp(time_unit, time_zone);
 
-- 
2.43.0


From 093d9de34ed7c95a54724308a83ef666d23b7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:54 +0000
Subject: [PATCH 102/109] fix: a batch iterator's length is its number of
 batches

---
 vortex-array/src/iter/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/iter/mod.rs b/vortex-array/src/iter/mod.rs
index e4f7b70..ef413fa 100644
--- a/vortex-array/src/iter/mod.rs
+++ b/vortex-array/src/iter/mod.rs
@@ -210,10 +210,9 @@ impl<T: Copy> Iterator for VectorizedArrayIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (
-            self.len - self.current_idx,
-            Some(self.len - self.current_idx),
-        )
+        // We yield batches rather than elements
+        let remaining = (self.len - self.current_idx).div_ceil(ITER_BATCH_SIZE);
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From 3398009e68cd4de1ef1555594edb73c104bd0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:55 +0000
Subject: [PATCH 103/109] fix: a record batch stream's size hint counts the
 batches that are left

---
 vortex-datafusion/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index e6cc087..ce40c36 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -280,7 +280,8 @@ impl Stream for VortexRecordBatchStream {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.num_chunks, Some(self.num_chunks))
+        let remaining = self.num_chunks.saturating_sub(self.idx);
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From f77e4fa16472a6d0d52b0a4838a0f3d8c4d9ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:31 +0000
Subject: [PATCH 104/109] fix: a validity whose true count isn't known is still
 a validity

---
 vortex-array/src/validity.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 47416a6..2e90414 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -6,9 +6,7 @@ use std::ops::BitAnd;
 use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, NullBuffer};
 use serde::{Deserialize, Serialize};
 use vortex_dtype::{DType, Nullability};
-use vortex_error::{
-    vortex_bail, vortex_err, vortex_panic, VortexError, VortexExpect as _, VortexResult,
-};
+use vortex_error::{vortex_bail, vortex_panic, VortexError, VortexExpect as _, VortexResult};
 
 use crate::array::BoolArray;
 use crate::compute::unary::scalar_at_unchecked;
@@ -324,17 +322,16 @@ impl LogicalValidity {
             vortex_bail!("Expected a non-nullable boolean array");
         }
 
-        let true_count = array
-            .statistics()
-            .compute_true_count()
-            .ok_or_else(|| vortex_err!("Failed to compute true count from validity array"))?;
-        if true_count == array.len() {
-            return Ok(Self::AllValid(array.len()));
-        } else if true_count == 0 {
-            return Ok(Self::AllInvalid(array.len()));
+        if array.is_empty() {
+            return Ok(Self::AllValid(0));
         }
 
-        Ok(Self::Array(array))
+        // Without a true count (not every encoding computes it) the array is all we know.
+        Ok(match array.statistics().compute_true_count() {
+            Some(true_count) if true_count == array.len() => Self::AllValid(array.len()),
+            Some(0) => Self::AllInvalid(array.len()),
+            _ => Self::Array(array),
+        })
     }
 
     pub fn to_null_buffer(&self) -> VortexResult<Option<NullBuffer>> {
-- 
2.43.0


From 775b2d483ae668f396e7eed7eaaef55c1f5aacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:09 +0000
Subject: [PATCH 105/109] fix: expressions of the Python interface know != and
 bool literals

---
 pyvortex/src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvortex/src/expr.rs b/pyvortex/src/expr.rs
index 5b5abe1..fc0e53c 100644
--- a/pyvortex/src/expr.rs
+++ b/pyvortex/src/expr.rs
@@ -128,6 +128,9 @@ fn coerce_expr<'py>(value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyExpr>> {
         Ok(value.clone())
     } else if let Ok(value) = value.downcast::<PyNone>() {
         scalar(DType::Null, value)
+    } else if let Ok(value) = value.downcast::<PyBool>() {
+        // A Python bool is an int too.
+        scalar(DType::Bool(nonnull), value)
     } else if let Ok(value) = value.downcast::<PyLong>() {
         scalar(DType::Primitive(PType::I64, nonnull), value)
     } else if let Ok(value) = value.downcast::<PyFloat>() {
@@ -138,7 +141,7 @@ fn coerce_expr<'py>(value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyExpr>> {
         scalar(DType::Binary(nonnull), value)
     } else {
         Err(PyValueError::new_err(format!(
-            "expected None, int, float, str, or bytes but found: {}",
+            "expected None, bool, int, float, str, or bytes but found: {}",
             value
         )))
     }
@@ -157,7 +160,7 @@ impl PyExpr {
         py_binary_opeartor(self_, Operator::Eq, coerce_expr(right)?)
     }
 
-    fn __neq__<'py>(
+    fn __ne__<'py>(
         self_: PyRef<'py, Self>,
         right: &Bound<'py, PyAny>,
     ) -> PyResult<Bound<'py, PyExpr>> {
-- 
2.43.0


From 42dfee077e3318f9237ea94cdda0cd7f6670355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:38 +0000
Subject: [PATCH 106/109] fix: arrow arrays with nulls in chunks, sliced
 structs and arrays without chunks pass through Python

---
 pyvortex/src/array.rs  | 10 +++--
 pyvortex/src/encode.rs | 88 ++++++++++++++++++++++++++++++++----------
 2 files changed, 73 insertions(+), 25 deletions(-)

diff --git a/pyvortex/src/array.rs b/pyvortex/src/array.rs
index 3daf16e..ee26214 100644
--- a/pyvortex/src/array.rs
+++ b/pyvortex/src/array.rs
@@ -4,6 +4,7 @@ use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use pyo3::types::{IntoPyDict, PyInt, PyList};
 use vortex::array::ChunkedArray;
+use vortex::arrow::infer_data_type;
 use vortex::compute::unary::{fill_forward, scalar_at};
 use vortex::compute::{compare, slice, take, Operator};
 use vortex::{Array, ArrayDType, IntoCanonical};
@@ -129,10 +130,11 @@ impl PyArray {
                         .map_err(PyVortexError::map_err)
                 })
                 .collect::<PyResult<Vec<ArrayRef>>>()?;
-            if chunks.is_empty() {
-                return Err(PyValueError::new_err("No chunks in array"));
-            }
-            let pa_data_type = chunks[0].data_type().clone().to_pyarrow(py)?;
+            let data_type = match chunks.first() {
+                Some(chunk) => chunk.data_type().clone(),
+                None => infer_data_type(vortex.dtype()).map_err(PyVortexError::map_err)?,
+            };
+            let pa_data_type = data_type.to_pyarrow(py)?;
             let chunks: PyResult<Vec<PyObject>> = chunks
                 .iter()
                 .map(|arrow_array| arrow_array.into_data().to_pyarrow(py))
diff --git a/pyvortex/src/encode.rs b/pyvortex/src/encode.rs
index 028ba95..b72162c 100644
--- a/pyvortex/src/encode.rs
+++ b/pyvortex/src/encode.rs
@@ -1,8 +1,10 @@
-use arrow::array::{make_array, ArrayData as ArrowArrayData};
-use arrow::datatypes::{DataType, Field};
-use arrow::ffi_stream::ArrowArrayStreamReader;
+use std::sync::Arc;
+
+use arrow::array::{make_array, Array as _, ArrayData as ArrowArrayData, ArrayRef};
+use arrow::datatypes::{DataType, Field, Schema};
 use arrow::pyarrow::FromPyArrow;
-use arrow::record_batch::RecordBatchReader;
+use arrow::record_batch::{RecordBatch, RecordBatchOptions};
+use itertools::Itertools;
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use vortex::array::ChunkedArray;
@@ -14,6 +16,40 @@ use vortex_error::VortexError;
 use crate::array::PyArray;
 use crate::error::PyVortexError;
 
+/// Import an array from PyArrow.
+fn import_arrow(obj: &Bound<PyAny>) -> PyResult<ArrayRef> {
+    let data = ArrowArrayData::from_pyarrow_bound(obj)?;
+    slice_children(data)
+        .map(make_array)
+        .map_err(|e| PyVortexError::map_err(VortexError::ArrowError(e)))
+}
+
+/// The children of a sliced struct array are imported whole, with the offset on the struct alone,
+/// while arrow-rs expects them to be sliced as the struct is.
+fn slice_children(data: ArrowArrayData) -> Result<ArrowArrayData, arrow::error::ArrowError> {
+    if !matches!(data.data_type(), DataType::Struct(_)) {
+        return Ok(data);
+    }
+
+    let (offset, len) = (data.offset(), data.len());
+    let children = data
+        .child_data()
+        .iter()
+        .map(|child| slice_children(child.clone()).map(|child| child.slice(offset, len)))
+        .try_collect()?;
+    let nulls = data.nulls().cloned();
+    data.into_builder()
+        .offset(0)
+        .nulls(nulls)
+        .child_data(children)
+        .build()
+}
+
+/// An array is nullable if it has nulls, or if it could have nothing else.
+fn is_nullable(array: &ArrayRef) -> bool {
+    array.is_nullable() || array.data_type().is_null()
+}
+
 // Private, ergo not documented.
 #[pyfunction]
 pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
@@ -23,24 +59,23 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
     let table = pa.getattr("Table")?;
 
     if obj.is_instance(&pa_array)? {
-        let arrow_array = ArrowArrayData::from_pyarrow_bound(obj).map(make_array)?;
-        let is_nullable = arrow_array.is_nullable();
+        let arrow_array = import_arrow(obj)?;
+        let is_nullable = is_nullable(&arrow_array);
         let enc_array = Array::from_arrow(arrow_array, is_nullable);
         Bound::new(obj.py(), PyArray::new(enc_array))
     } else if obj.is_instance(&chunked_array)? {
         let chunks: Vec<Bound<PyAny>> = obj.getattr("chunks")?.extract()?;
-        let encoded_chunks = chunks
-            .iter()
-            .map(|a| {
-                ArrowArrayData::from_pyarrow_bound(a)
-                    .map(make_array)
-                    .map(|a| Array::from_arrow(a, false))
-            })
-            .collect::<PyResult<Vec<_>>>()?;
+        let arrow_chunks: Vec<ArrayRef> = chunks.iter().map(import_arrow).try_collect()?;
+        // Every chunk has the dtype of the whole, which is nullable if one of them has nulls.
+        let is_nullable = arrow_chunks.iter().any(is_nullable);
+        let encoded_chunks = arrow_chunks
+            .into_iter()
+            .map(|a| Array::from_arrow(a, is_nullable))
+            .collect();
         let dtype: DType = obj
             .getattr("type")
             .and_then(|v| DataType::from_pyarrow_bound(&v))
-            .map(|dt| DType::from_arrow(&Field::new("_", dt, false)))?;
+            .map(|dt| DType::from_arrow(&Field::new("_", dt, is_nullable)))?;
         Bound::new(
             obj.py(),
             PyArray::new(
@@ -50,12 +85,23 @@ pub fn _encode<'py>(obj: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyArray>> {
             ),
         )
     } else if obj.is_instance(&table)? {
-        let array_stream = ArrowArrayStreamReader::from_pyarrow_bound(obj)?;
-        let dtype = DType::from_arrow(array_stream.schema());
-        let chunks = array_stream
-            .into_iter()
-            .map(|b| b.map_err(VortexError::ArrowError))
-            .map(|b| b.and_then(Array::try_from).map_err(PyVortexError::map_err))
+        let schema = Arc::new(Schema::from_pyarrow_bound(&obj.getattr("schema")?)?);
+        let dtype = DType::from_arrow(schema.clone());
+        let batches: Vec<Bound<PyAny>> = obj.call_method0("to_batches")?.extract()?;
+        let chunks = batches
+            .iter()
+            .map(|batch| {
+                let columns: Vec<Bound<PyAny>> = batch.getattr("columns")?.extract()?;
+                let columns: Vec<ArrayRef> = columns.iter().map(import_arrow).try_collect()?;
+                RecordBatch::try_new_with_options(
+                    schema.clone(),
+                    columns,
+                    &RecordBatchOptions::new().with_row_count(Some(batch.len()?)),
+                )
+                .map_err(VortexError::ArrowError)
+                .and_then(Array::try_from)
+                .map_err(PyVortexError::map_err)
+            })
             .collect::<PyResult<Vec<_>>>()?;
         Bound::new(
             obj.py(),
-- 
2.43.0


From 6cd3fab57f975bef2d697301d9b03720870b5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 107/109] fix: taking out of bounds through Python is refused

---
 pyvortex/src/array.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pyvortex/src/array.rs b/pyvortex/src/array.rs
index ee26214..5783a6b 100644
--- a/pyvortex/src/array.rs
+++ b/pyvortex/src/array.rs
@@ -1,12 +1,13 @@
 use arrow::array::{Array as ArrowArray, ArrayRef};
 use arrow::pyarrow::ToPyArrow;
-use pyo3::exceptions::PyValueError;
+use pyo3::exceptions::{PyIndexError, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{IntoPyDict, PyInt, PyList};
 use vortex::array::ChunkedArray;
 use vortex::arrow::infer_data_type;
 use vortex::compute::unary::{fill_forward, scalar_at};
 use vortex::compute::{compare, slice, take, Operator};
+use vortex::stats::{ArrayStatistics, Stat};
 use vortex::{Array, ArrayDType, IntoCanonical};
 
 use crate::dtype::PyDType;
@@ -458,6 +459,23 @@ impl PyArray {
             )));
         }
 
+        // The kernels rely on the indices being within bounds.
+        let statistics = indices.statistics();
+        let negative = !indices.dtype().is_unsigned_int()
+            && statistics
+                .compute_as_cast::<i64>(Stat::Min)
+                .is_some_and(|min| min < 0);
+        if negative
+            || statistics
+                .compute_as_cast::<u64>(Stat::Max)
+                .is_some_and(|max| max >= self.inner.len() as u64)
+        {
+            return Err(PyIndexError::new_err(format!(
+                "indices: out of bounds for an array of length {}",
+                self.inner.len()
+            )));
+        }
+
         take(&self.inner, indices)
             .map_err(PyVortexError::map_err)
             .and_then(|arr| Bound::new(py, PyArray { inner: arr }))
-- 
2.43.0


From 4b2215fd165e5ddb90599a6e1c281f8976c192b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 108/109] fix: a dataset's head, take and scanner schema work
 past its end, with a filter and at all

---
 pyvortex/python/vortex/dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvortex/python/vortex/dataset.py b/pyvortex/python/vortex/dataset.py
index d64d7d8..854ee12 100644
--- a/pyvortex/python/vortex/dataset.py
+++ b/pyvortex/python/vortex/dataset.py
@@ -68,7 +68,8 @@ class VortexDataset(pyarrow.dataset.Dataset):
         del memory_pool
         if filter is not None:
             filter = arrow_to_vortex_expr(filter, self.schema)
-        return self._dataset.to_array(columns, batch_size, filter).slice(0, num_rows).to_arrow_table()
+        array = self._dataset.to_array(columns, batch_size, filter)
+        return array.slice(0, min(num_rows, len(array))).to_arrow_table()
 
     def join(
         self,
@@ -132,6 +133,8 @@ class VortexDataset(pyarrow.dataset.Dataset):
         use_threads: bool | None = None,
         memory_pool: pa.MemoryPool = None,
     ) -> pa.Table:
+        if filter is not None:
+            filter = arrow_to_vortex_expr(filter, self.schema)
         return self._dataset.to_array(columns, batch_size, filter).take(encoding.array(indices)).to_arrow_table()
 
     def to_record_batch_reader(
@@ -241,7 +244,7 @@ class VortexScanner(pa.dataset.Scanner):
 
     @property
     def schema(self):
-        return self._datset.schema
+        return self._dataset.schema
 
     def count_rows(self):
         return self._dataset.count_rows(
-- 
2.43.0


From c2519738adba14f4270ff3dfd17066434b2fa15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 109/109] fix: negating an expression of the Python interface
 isn't False

---
 pyvortex/python/vortex/substrait.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyvortex/python/vortex/substrait.py b/pyvortex/python/vortex/substrait.py
index c8d8f42..7ffce5e 100644
--- a/pyvortex/python/vortex/substrait.py
+++ b/pyvortex/python/vortex/substrait.py
@@ -151,8 +151,6 @@ def extension_function(
                     return operator.and_
                 case "xor":
                     return operator.__xor__
-                case "not":
-                    return operator.__not__
                 case name:
                     raise NotImplementedError(f"Function name {name} not supported")
         case "https://github.com/substrait-io/substrait/blob/main/extensions/functions_comparison.yaml":
-- 
2.43.0

