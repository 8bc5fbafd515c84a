From 3f2a643277adb71f06170d94de8de812f0e5804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 01/24] fix: displaying a tensor key no longer recurses forever

Display::fmt called itself; the comment says it should match Debug.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..8303cef 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From e68e160bf662e3a0d6880446dcd135b5a68319cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 02/24] fix: TensorKey::set_letter clears the letter it
 replaces

The mask was shifted by the letter position instead of its bit offset, so the
key iterator went from (3,3) to (1,3,1) instead of (1,1,1).
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8303cef..20552c1 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From 49b21768a534b2abed7c89265a3a4a51f9680f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 03/24] fix: TensorKey::concatenate refuses words longer than
 the maximum depth

It silently dropped the leading letters, where from_letters panics.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 20552c1..423f467 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -158,6 +158,9 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub const fn concatenate(&self, other: &Self) -> Self
     {
+        if self.size() + other.size() > Self::max_depth() {
+            panic!("Number of letters exceeds maximum depth");
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0


From be589f8f86159fad4144fda3d612442ddd935c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 04/24] fix: compare tensor keys by degree first

Only the packed letters were compared, so (), (1) and (1,1) were all Equal and
(2) was Greater than (1,1), contradicting the index order.
---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..16d2d23 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&(lhs.size(), lhs.data()), &(rhs.size(), rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From aeda67f29eda772dffae82ce26d82d69f5535c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 05/24] fix: start_of_degree for one letter and for the deepest
 degrees

The closed formula divides by zero for a one letter alphabet, and its
intermediate power overflows for keys of maximal depth (e.g. 31 letters, degree
12) although the dimension itself is representable.
---
 src/free_tensor/tensor_basis/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 16d2d23..eac793a 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,7 +28,13 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
-        (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
+        let mut result = 0;
+        let mut i = 0;
+        while i < deg {
+            result = result * NLETTERS as DimensionType + 1;
+            i += 1;
+        }
+        result
     }
 
     pub(crate) const fn degree_range(deg: DegreeType) -> Range<DimensionType>
-- 
2.43.0


From 18b4ce7b52e562bb25f7708e86fd9e1c721a945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 06/24] fix: get and get_mut of a wrapped vector no longer
 recurse forever

---
 src/vector/implementation/deref_impl.rs | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..72245d8 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -6,31 +6,31 @@ use crate::vector::*;
 
 
 
-impl<'vec, U, V> Vector<'vec> for V
-    where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
+impl<'vec, V> Vector<'vec> for V
+    where V: 'vec + DerefMut + From<<V as Deref>::Target> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
-          U: Vector<'vec>
+          V::Target: Vector<'vec>
 {
-    type BasisType = U::BasisType;
-    type KeyType = U::KeyType;
-    type ScalarType = U::ScalarType;
-    type RationalType = U::RationalType; 
+    type BasisType = <V::Target as Vector<'vec>>::BasisType;
+    type KeyType = <V::Target as Vector<'vec>>::KeyType;
+    type ScalarType = <V::Target as Vector<'vec>>::ScalarType;
+    type RationalType = <V::Target as Vector<'vec>>::RationalType; 
 
     fn new() -> Self
     {
-        Self::from(U::new())
+        Self::from(V::Target::new())
     }
 
     fn from_key(key: impl Into<Self::KeyType>) -> Self {
-        Self::from(U::from_key(key))
+        Self::from(V::Target::from_key(key))
     }
 
     fn from_key_scalar(key: impl Into<Self::KeyType>, scalar: impl Into<Self::ScalarType>) -> Self {
-        Self::from(U::from_key_scalar(key, scalar))
+        Self::from(V::Target::from_key_scalar(key, scalar))
     }
 
     fn from_iterator(iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) -> Self {
-        Self::from(U::from_iterator(iterator))
+        Self::from(V::Target::from_iterator(iterator))
     }
 
     fn swap(&mut self, mut other: impl BorrowMut<Self>) {
@@ -46,11 +46,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        self.deref().get(key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        self.deref_mut().get_mut(key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From 1e7122f1ece5a662879ab0d18ea0db033980c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 07/24] fix: sub_scalar_divide subtracts from an existing
 coefficient

sca is already -1/val, so subtracting it added 1/val.
---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From 530f6efb04407f58d235290fba103789338befd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 08/24] fix: SimpleDenseVector::insert_single stores the value

It computed the index and did nothing, so inserted values were lost.
---
 src/vector/implementation/simple_dense_vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..826c78e 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,7 +241,10 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
-
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-- 
2.43.0


From d13321540fe680ddeea2ceb0f6949a6a61570882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 09/24] fix: SimpleDenseVector::insert stores the values
 instead of panicking

---
 src/vector/implementation/simple_dense_vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 826c78e..60f4151 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -248,7 +248,9 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (k, v) in iterator {
+            self.insert_single(&k, v);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
-- 
2.43.0


From 5844c94dc1c2fac2bbad32e35aa11ce090fd3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 10/24] fix: SimpleSparseVector::from_iterator adds up repeated
 keys

Like the dense vector; it kept the last value only.
---
 src/vector/implementation/simple_sparse_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..4921435 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -102,7 +102,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            S::add_inplace(inner.entry(key).or_insert(S::ZERO), &val);
         }
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
-- 
2.43.0


From b1cbb1f8bbce9ca9c56a31c53432dd6dfb67bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 11/24] fix: SimpleSparseVector swap, to_owned, insert and
 erase instead of panicking

Every operation that returns a new vector (add, sub, uminus, scalar_*) goes
through to_owned and panicked.
---
 src/vector/implementation/simple_sparse_vector.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 4921435..9becdeb 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -107,12 +107,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        std::mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
@@ -132,11 +132,11 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        self.0.extend(iterator);
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From 5a413f52fc35261baec70463e4451d98248b7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:15 +0000
Subject: [PATCH 12/24] fix: tensor multiplication no longer reads and writes
 out of bounds

Operands that are empty or stop part way through a degree were read past their
end, and a product of degree 0 was written to an empty vector, all from safe
code.
---
 src/free_tensor/implementation/dense.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..092441d 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -277,13 +277,28 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
         let lhs_deg = lhs_r.degree();
         let rhs_deg = rhs_r.degree();
 
+        // The multiplication works on whole degrees, pad operands that stop short of one.
+        let lhs_dim = TensorBasis::<NLETTERS>::start_of_degree(lhs_deg+1);
+        if lhs_r.as_slice().len() < lhs_dim {
+            let mut padded = lhs_r.to_owned();
+            padded.resize(lhs_dim);
+            return self.multiply_and_add_into_impl(padded, rhs_r, func, to_degree);
+        }
+        let rhs_dim = TensorBasis::<NLETTERS>::start_of_degree(rhs_deg+1);
+        if rhs_r.as_slice().len() < rhs_dim {
+            let mut padded = rhs_r.to_owned();
+            padded.resize(rhs_dim);
+            return self.multiply_and_add_into_impl(lhs_r, padded, func, to_degree);
+        }
+
         let max_deg = cmp::min(
             to_degree.expect("Max degree should be set for tensor types"),
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let out_dim = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < out_dim {
+            self.resize(out_dim);
         }
 
 
-- 
2.43.0


From a3db5933d975a7e6101fd686a94a0fd493978897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 13/24] fix: in-place tensor multiplication computes the
 product

The in-place kernel indexed the split halves of the buffer with unshifted
ranges (out of bounds from safe code), underflowed its degree arithmetic,
scaled degrees by every coefficient in turn and never updated degree 0.
Delegate to the out of place kernel, which is correct.
---
 src/free_tensor/implementation/dense.rs | 107 +-----------------------
 1 file changed, 4 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 092441d..3bc2b08 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -337,99 +324,13 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        let lhs = self.to_owned();
+        self.clear();
+        self.multiply_and_add_into_impl(lhs, rhs, func, to_degree);
     }
 
 }
-- 
2.43.0


From c4030240dd19a0650525bd225c63b8e4ecb042d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 14/24] fix: mul_rat_rdiv divides instead of multiplying

exp and fmexp use it to divide by the degree.
---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From c649efcf531ae156e683c4cdfc30a7ed95ae9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 15/24] fix: exp, fmexp and log include the terms of the
 maximum degree

---
 src/free_tensor/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..09b9798 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,7 +67,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
-- 
2.43.0


From 6cbc59d07bdd14a6132d93d59241d24933990ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 16/24] fix: log multiplies its accumulator by x

The product was computed and thrown away.
---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 09b9798..0893d81 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -73,7 +73,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 2f6dc6e39089bcce140a5ad7729bd0fba2e0d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:57 +0000
Subject: [PATCH 17/24] fix: mobius of a product of several primes no longer
 recurses forever

Every Hall set of degree 6 or more overflowed the stack.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From da7947bd6c5ece7858d3b2b6014cbf39bdfe24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:57 +0000
Subject: [PATCH 18/24] fix: divide Witt's formula by the degree after summing

Dividing each term rounds each term: degree 35 over 2 or 3 letters was off by 1.
---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..8f19826 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / depth as SignedDimensionType) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From aa525a4295d36e81fb12546998479047ec07aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:57 +0000
Subject: [PATCH 19/24] fix: find_deg of the last key of a degree

Keys start from 1, so the keys of degree d end with, and include, the number of
keys up to degree d; they were given degree d+1.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 8f19826..a90b3fd 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From ff57f71cd68e19fb83a64533f6605043e349a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:57 +0000
Subject: [PATCH 20/24] fix: get_hall_set no longer deadlocks on the first call
 for a width

The read guard lived until the end of the if let, including the write.
---
 src/lie/lie_basis/hall_set.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..a1db93a 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,13 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The read lock must be released before the write lock is taken below.
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS).cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
-- 
2.43.0


From 7f552142f987a239643557a7e24f0062d6be9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:57 +0000
Subject: [PATCH 21/24] fix: get_hall_set gives every caller the same Hall set

Two threads that missed the cache together each inserted, and kept, their own.
---
 src/lie/lie_basis/hall_set.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index a1db93a..7ebbf51 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -267,8 +267,7 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            .entry(NLETTERS).or_insert(new_hs).clone()
     }
 
 }
-- 
2.43.0


From ebcd8e59d599a2a08f44698c671338c04ea4bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:40 +0000
Subject: [PATCH 22/24] verification hooks behind cfg(rustyalgebra_verif)

---
 src/free_tensor/tensor_basis/tensor_key.rs      | 12 ++++++++++++
 src/lie/lie_basis/hall_key.rs                   | 12 ++++++++++++
 src/lie/lie_basis/hall_set.rs                   | 11 +++++++++++
 src/lie/lie_basis/mod.rs                        |  9 +++++++++
 src/lie/mod.rs                                  |  5 ++++-
 .../implementation/simple_dense_vector.rs       | 17 +++++++++++++++++
 6 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 423f467..291dbe2 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -222,6 +222,18 @@ impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
 }
 
 
+// Verification hook: the constructor is not public.
+#[cfg(rustyalgebra_verif)]
+impl<const NLETTERS: DegreeType> TensorKey<NLETTERS> {
+
+    pub fn verif_iter(&self) -> TensorKeyIterator<'_, NLETTERS>
+    {
+        TensorKeyIterator::new(self)
+    }
+
+}
+
+
 impl<'a, const NLETTERS: DegreeType> Iterator for TensorKeyIterator<'a, NLETTERS> {
     type Item = LetterType;
 
diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 98bb6a8..9cdb194 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -100,6 +100,18 @@ impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
 }
 
 
+// Verification hooks: keys of higher degree cannot be constructed yet.
+#[cfg(rustyalgebra_verif)]
+impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
+
+    pub fn verif_from_parts(key: DataType, lparent: DataType, rparent: DataType, size: DegreeType) -> Self
+    {
+        Self(Self::make_key_data(key, lparent, rparent, size))
+    }
+
+}
+
+
 impl<const NLETTERS: DegreeType> Debug for HallKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "HallKey(key={}, lparent={}, rparent={}, size={})",
diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 7ebbf51..b426faa 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -84,6 +84,17 @@ impl HallSetObject {
     }
 }
 
+// Verification hook: which Hall set this is.
+#[cfg(rustyalgebra_verif)]
+impl HallSetObject {
+
+    pub fn verif_id(&self) -> usize
+    {
+        Arc::as_ptr(&self.0) as *const () as usize
+    }
+
+}
+
 impl HallSet for HallSetObject {
 
     fn is_letter(&self, key: DataType) -> Result<bool, HallSetError> {
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..6874884 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,12 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+
+// Verification hook: the module is private.
+#[cfg(rustyalgebra_verif)]
+pub mod verif {
+    pub use super::degree_range_map::{DegreeRangeMap, DegreeRangeMapError};
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetError, HallSetObject};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..ceb6e29 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,4 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+
+#[cfg(rustyalgebra_verif)]
+pub use lie_basis::verif;
diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 60f4151..4784d26 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -158,6 +158,23 @@ impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 
 
 
+// Verification hooks: nothing else constructs the borrowed storage modes yet.
+#[cfg(rustyalgebra_verif)]
+impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
+
+    pub fn verif_borrowed(data: &'a [S]) -> Self
+    {
+        SimpleDenseVector(Borrowed(data), PhantomData)
+    }
+
+    pub fn verif_borrowed_mut(data: &'a mut [S]) -> Self
+    {
+        SimpleDenseVector(BorrowedMut(data), PhantomData)
+    }
+
+}
+
+
 impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     where B: 'static + OrderedBasis,
           S: 'static + CoefficientField
-- 
2.43.0


From 21ae7ea159171d4350990f6eb6c2dc48aeb51cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:40 +0000
Subject: [PATCH 23/24] fix: concatenating the empty word with a full word of
 32-bit letters no longer overflows

---
 src/free_tensor/tensor_basis/tensor_key.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 291dbe2..b99b3fc 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -161,6 +161,10 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if self.size() + other.size() > Self::max_depth() {
             panic!("Number of letters exceeds maximum depth");
         }
+        if self.size() == 0 {
+            // shifting by the bits of a full word would overflow
+            return Self { size: other.size(), data: other.data() };
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0


From 48439d01acd07797f367260f6da1814b9b70e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:45 +0000
Subject: [PATCH 24/24] each verification hook can be left out on its own

---
 src/free_tensor/tensor_basis/tensor_key.rs       | 2 +-
 src/lie/lie_basis/hall_key.rs                    | 2 +-
 src/lie/lie_basis/hall_set.rs                    | 2 +-
 src/lie/lie_basis/mod.rs                         | 3 +++
 src/vector/implementation/simple_dense_vector.rs | 2 +-
 5 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index b99b3fc..2e4f0b6 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -227,7 +227,7 @@ impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
 
 
 // Verification hook: the constructor is not public.
-#[cfg(rustyalgebra_verif)]
+#[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_iter)))]
 impl<const NLETTERS: DegreeType> TensorKey<NLETTERS> {
 
     pub fn verif_iter(&self) -> TensorKeyIterator<'_, NLETTERS>
diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 9cdb194..c818f46 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -101,7 +101,7 @@ impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
 
 
 // Verification hooks: keys of higher degree cannot be constructed yet.
-#[cfg(rustyalgebra_verif)]
+#[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_parts)))]
 impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
 
     pub fn verif_from_parts(key: DataType, lparent: DataType, rparent: DataType, size: DegreeType) -> Self
diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index b426faa..776f46b 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -85,7 +85,7 @@ impl HallSetObject {
 }
 
 // Verification hook: which Hall set this is.
-#[cfg(rustyalgebra_verif)]
+#[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_id)))]
 impl HallSetObject {
 
     pub fn verif_id(&self) -> usize
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index 6874884..82659c8 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -16,7 +16,10 @@ mod hall_key;
 // Verification hook: the module is private.
 #[cfg(rustyalgebra_verif)]
 pub mod verif {
+    #[cfg(not(rustyalgebra_verif_no_table))]
     pub use super::degree_range_map::{DegreeRangeMap, DegreeRangeMapError};
+    #[cfg(not(rustyalgebra_verif_no_hkeys))]
     pub use super::hall_key::HallKey;
+    #[cfg(not(rustyalgebra_verif_no_cache))]
     pub use super::hall_set::{get_hall_set, HallSet, HallSetError, HallSetObject};
 }
diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 4784d26..6352c57 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -159,7 +159,7 @@ impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 
 
 // Verification hooks: nothing else constructs the borrowed storage modes yet.
-#[cfg(rustyalgebra_verif)]
+#[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_lent)))]
 impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
 
     pub fn verif_borrowed(data: &'a [S]) -> Self
-- 
2.43.0

