From 6aa80a60c3ddfdb11735b3b0acde4cb6bc391968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/17] fix: IntoIter::next_back no longer returns elements
 already taken from the front

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..89ad5c3 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -798,7 +798,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From b277c28314f5b8c73c337bd7d7fa39ae21c79ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 02/17] fix: IntoIter::nth no longer drops elements outside the
 remaining range

---
 src/vector.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 89ad5c3..e6cd73e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,10 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..cmp::min(n, self.len()) {
+            self.next();
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From 7dc0dec44a27d7b953a21c4678e181d0757b7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 03/17] fix: length of RowsIter and ColsIter accounts for items
 taken from the back

---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From 36f3302e945a0c3edafb3063cec40d48b376c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 04/17] fix: nth of the matrix iterators stops at the end
 instead of moving past it

---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..ead21d2 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,5 +1,7 @@
 use ::vector::{Vector, ArrayLen};
 
+use std::cmp;
+
 pub struct RowsIter<'a, T: 'a, Row, Col>
     (&'a Vector<Vector<T, Col>, Row>, usize, usize)
     where
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
-- 
2.43.0


From 3c601d29ddec25abd3eddef98d89e60537e2f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 05/17] fix: ColsIterRefInner::new rejects an out-of-range
 column in every build

---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index ead21d2..74c6723 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From 3a74dbb12dc8325bc4071101ee564b52a4d39cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 06/17] fix: statically indexing an empty Vector with U0 is a
 compile error

---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index e6cd73e..717d943 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From 033e08376976ade9f2ee98a88e4e375fe754485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 07/17] fix: Debug of a matrix without rows no longer overflows

---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 48603f3ee260f6d219098adeed657a56bc6298d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 08/17] fix: Matrix2f64 is a matrix of f64

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From 6eb3f0e27a6917c5229a135847c74b17b9f508ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 09/17] fix: collecting into a Vector drops the elements
 collected so far when the source panics, and no longer creates an
 uninitialized array value

---
 src/vector.rs | 83 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 717d943..604db3c 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -13,7 +13,7 @@ use std::ops::{Deref, DerefMut, Add, Sub, Mul, Div, Neg, Rem,
     AddAssign, SubAssign, MulAssign, DivAssign, Index, IndexMut};
 use std::marker::PhantomData;
 use std::slice::{Iter as SliceIter, IterMut as SliceIterMut};
-use std::mem;
+use std::mem::{self, MaybeUninit};
 use std::ptr;
 use std::fmt::{Debug, Formatter, Result as FmtResult};
 use std::iter::FromIterator;
@@ -700,36 +700,65 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
     {
         let mut it = iter.into_iter();
 
-        let arr = unsafe {
-            // NOTE: somehow `NoDrop` drops performance - it should be optimized out
-            let mut arr = NoDrop::new(mem::uninitialized::<N::Array>());
-
-            for i in 0..N::to_usize() {
-                let item = match it.next() {
-                    Some(item) => item,
-                    None => {
-                        let mut arr = arr.into_inner();
-                        for j in 0..i {
-                            ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
-                        }
-                        mem::forget(arr);
-
-                        panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
-                               N::to_usize())
-                    }
-                };
-                ptr::write(arr.as_mut().get_unchecked_mut(i), item);
+        let mut arr = PartialArray::<T, N>::new();
+
+        for _ in 0..N::to_usize() {
+            match it.next() {
+                Some(item) => unsafe { arr.push(item) },
+                None => {
+                    panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
+                           N::to_usize())
+                }
             }
+        }
+
+        // making this `assert_eq` slows down matrix multiplication by 7x in release build!
+        debug_assert_eq!(it.count(), 0,
+                         "Vector<_, U{0}> can only be created with exactly {0} elements.",
+                         N::to_usize());
+
+        Vector::new(unsafe { arr.into_inner() })
+    }
+}
 
-            // making this `assert_eq` slows down matrix multiplication by 7x in release build!
-            debug_assert_eq!(it.count(), 0,
-                             "Vector<_, U{0}> can only be created with exactly {0} elements.",
-                             N::to_usize());
+/// An array under construction, which drops the elements written so far unless it is completed.
+struct PartialArray<T, N> where N: ArrayLen<T> {
+    arr: MaybeUninit<N::Array>,
+    len: usize,
+}
 
-            arr.into_inner()
-        };
+impl<T, N> PartialArray<T, N> where N: ArrayLen<T> {
+    #[inline]
+    fn new() -> Self {
+        PartialArray {
+            arr: MaybeUninit::uninit(),
+            len: 0,
+        }
+    }
 
-        Vector::new(arr)
+    /// Less than `N` elements must have been pushed before.
+    #[inline]
+    unsafe fn push(&mut self, item: T) {
+        debug_assert!(self.len < N::to_usize());
+        ptr::write((self.arr.as_mut_ptr() as *mut T).add(self.len), item);
+        self.len += 1;
+    }
+
+    /// Exactly `N` elements must have been pushed before.
+    #[inline]
+    unsafe fn into_inner(self) -> N::Array {
+        debug_assert_eq!(self.len, N::to_usize());
+        let arr = ptr::read(self.arr.as_ptr());
+        mem::forget(self);
+        arr
+    }
+}
+
+impl<T, N> Drop for PartialArray<T, N> where N: ArrayLen<T> {
+    fn drop(&mut self) {
+        for i in 0..self.len {
+            unsafe { ptr::drop_in_place((self.arr.as_mut_ptr() as *mut T).add(i)) };
+        }
     }
 }
 
-- 
2.43.0


From b4c6c5ae13a7b4322e4e27576ce462ab402b9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 10/17] fix: inverse of matrices larger than 3x3 exchanges rows
 when a pivot is zero

---
 src/matrix/ops.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..202c72b 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,15 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
+            match (i..n).find(|&p| !mat[(p, i)].is_zero()) {
+                Some(p) => {
+                    mat.0.as_slice_mut().swap(i, p);
+                    inv.0.as_slice_mut().swap(i, p);
                 }
-                T::one() / d
-            };
+                None => return None,
+            }
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From a4466f267651c67aaabc88ff5ffde94197de5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 11/17] fix: Display of a matrix no longer omits rows whose
 entries are all empty

---
 src/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index c0c74e6..a36760b 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -345,7 +345,7 @@ impl<T, Row, Col> Display for Matrix<T, Row, Col>
         }
 
         let mut ws = Vector::<usize, Col>::default();
-        let mut hs = Vector::<usize, Row>::default();
+        let mut hs = Vector::<usize, Row>::generate(|_| 1);
 
         let ss: Vector<Vector<(String, usize), Col>, Row> =
             (0..Row::to_usize()).map(|i| {
-- 
2.43.0


From 994ce28bcbaa6ab0d116858beebe00ffd62c4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 12/17] fix: Matrix is Eq only if its elements are

---
 src/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index a36760b..002914f 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -296,7 +296,7 @@ impl<T, Row, Col> Eq for Matrix<T, Row, Col>
     where
         Row: ArrayLen<Vector<T, Col>>,
         Col: ArrayLen<T>,
-        T: PartialEq,
+        T: Eq,
 {
 }
 
-- 
2.43.0


From 18c9d7d852ff8c00754d3dee860d93b208ab408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/17] fix: Vector is Eq only if its elements are

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 604db3c..8431138 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -208,7 +208,7 @@ impl<T, U, N> PartialEq<Vector<U, N>> for Vector<T, N>
 
 impl<T, N> Eq for Vector<T, N>
     where
-        T: PartialEq,
+        T: Eq,
         N: ArrayLen<T>,
 {
 }
-- 
2.43.0


From e343c72780b727d81c02c661e39b6151030b83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 14/17] fix: do not keep moved-out elements as valid values in
 IntoIter

Moving a partially consumed IntoIter<Box<_>, _> was a typed copy of dangling
boxes (undefined behaviour, reported by Miri).
---
 src/vector.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 8431138..1da6cdf 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -769,7 +769,7 @@ impl<T, N> IntoIterator for Vector<T, N> where N: ArrayLen<T> {
     #[inline]
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
-            arr: NoDrop::new(self.into_inner()),
+            arr: NoDrop::new(MaybeUninit::new(self.into_inner())),
             next: 0,
             back: N::to_usize(),
         }
@@ -777,7 +777,8 @@ impl<T, N> IntoIterator for Vector<T, N> where N: ArrayLen<T> {
 }
 
 pub struct IntoIter<T, N> where N: ArrayLen<T> {
-    arr: NoDrop<N::Array>,
+    // elements outside of `next..back` have been moved out
+    arr: NoDrop<MaybeUninit<N::Array>>,
     next: usize,
     back: usize,
 }
@@ -785,7 +786,7 @@ pub struct IntoIter<T, N> where N: ArrayLen<T> {
 impl<T, N> Drop for IntoIter<T, N> where N: ArrayLen<T> {
     fn drop(&mut self) {
         for i in self.next..self.back {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+            unsafe { ptr::drop_in_place((self.arr.as_mut_ptr() as *mut T).add(i)) };
         }
     }
 }
@@ -801,7 +802,7 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
             self.next += 1;
 
             Some(unsafe {
-                ptr::read(self.arr.as_ref().get_unchecked(i))
+                ptr::read((self.arr.as_ptr() as *const T).add(i))
             })
         } else {
             None
@@ -836,7 +837,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
             self.back -= 1;
 
             Some(unsafe {
-                ptr::read(self.arr.as_ref().get_unchecked(self.back))
+                ptr::read((self.arr.as_ptr() as *const T).add(self.back))
             })
         } else {
             None
-- 
2.43.0


From 516be5accb3c4e559fcc03e8626ddd4ae59773b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 15/17] fix: implementing ArrayLen is unsafe

The vectors read and write to_usize() elements of an Array chosen by the implementor without checking its size,
so an implementation outside the crate could make safe code read and write outside of it.
---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 1da6cdf..79eb8be 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -937,13 +937,19 @@ fn test_vector_chunks() {
     assert_eq!(it.next(), None);
 }
 
-pub trait ArrayLen<T>: typenum::Unsigned {
+/// Lengths for which there is a `Vector`.
+///
+/// # Safety
+///
+/// `Array` must be laid out as exactly `Self::to_usize()` consecutive elements of type `T`, and its
+/// slices must cover all of them.
+pub unsafe trait ArrayLen<T>: typenum::Unsigned {
     type Array: AsRef<[T]> + AsMut<[T]>;
 }
 
 macro_rules! impl_arraylen {
     ($tn:ident, $len:expr) => {
-        impl<T> ArrayLen<T> for $tn {
+        unsafe impl<T> ArrayLen<T> for $tn {
             type Array = [T; $len];
         }
     }
-- 
2.43.0


From edad89329fd3b6e9a19a9cff28f5904ef8d2ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 16/17] fix: vector! and matrix! expand without the standard
 library

---
 src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 57ca2f9..f4eb447 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -40,7 +40,7 @@ macro_rules! vector {
     };
 
     (@count $first:expr, $($rest:tt),*) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add< vector!(@count $($rest),*) >>::Output
+        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, vector!(@count $($rest),*)>
     };
 
     ($($elem:expr),*) => {
@@ -86,7 +86,7 @@ macro_rules! matrix {
     (@countrow [$($elem:expr),*] ) => { $crate::typenum::consts::U1 };
 
     (@countrow [$($elem:expr),*], $($rest:tt)*) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add<matrix!(@countrow $($rest)*)>>::Output
+        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, matrix!(@countrow $($rest)*)>
     };
 
     (@countcol) => { $crate::typenum::consts::U0 };
@@ -98,7 +98,7 @@ macro_rules! matrix {
     };
 
     (@countcol [$first:expr, $($rest:expr),*] ) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add<matrix!(@countcol [$($rest),*])>>::Output
+        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, matrix!(@countcol [$($rest),*])>
     };
 
     (@countcol [$($elem:expr),*], $($drop:tt)*) => { matrix!(@countcol [$($elem),*]) };
-- 
2.43.0


From e72cd7bbd6910c5d38fe50a81d11a5506c5d6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:22 +0000
Subject: [PATCH 17/17] fix: vector! and matrix! can be called by path

---
 src/macros.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index f4eb447..f52672c 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -40,11 +40,11 @@ macro_rules! vector {
     };
 
     (@count $first:expr, $($rest:tt),*) => {
-        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, vector!(@count $($rest),*)>
+        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, $crate::vector!(@count $($rest),*)>
     };
 
     ($($elem:expr),*) => {
-        $crate::vector::Vector::<_, vector!(@count $($elem),*)>::new([ $($elem),* ])
+        $crate::vector::Vector::<_, $crate::vector!(@count $($elem),*)>::new([ $($elem),* ])
     };
 }
 
@@ -86,7 +86,7 @@ macro_rules! matrix {
     (@countrow [$($elem:expr),*] ) => { $crate::typenum::consts::U1 };
 
     (@countrow [$($elem:expr),*], $($rest:tt)*) => {
-        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, matrix!(@countrow $($rest)*)>
+        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, $crate::matrix!(@countrow $($rest)*)>
     };
 
     (@countcol) => { $crate::typenum::consts::U0 };
@@ -98,16 +98,16 @@ macro_rules! matrix {
     };
 
     (@countcol [$first:expr, $($rest:expr),*] ) => {
-        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, matrix!(@countcol [$($rest),*])>
+        $crate::typenum::operator_aliases::Sum<$crate::typenum::consts::U1, $crate::matrix!(@countcol [$($rest),*])>
     };
 
-    (@countcol [$($elem:expr),*], $($drop:tt)*) => { matrix!(@countcol [$($elem),*]) };
+    (@countcol [$($elem:expr),*], $($drop:tt)*) => { $crate::matrix!(@countcol [$($elem),*]) };
 
     ($( [$($elem:expr),*] ),*) => {
         {
             $crate::matrix::Matrix::<_,
-                matrix!(@countrow $( [ $( $elem ),* ] ),*),
-                matrix!(@countcol $( [ $( $elem ),* ] ),*)>::new([ $([ $($elem),* ]),* ])
+                $crate::matrix!(@countrow $( [ $( $elem ),* ] ),*),
+                $crate::matrix!(@countcol $( [ $( $elem ),* ] ),*)>::new([ $([ $($elem),* ]),* ])
         }
     };
 }
-- 
2.43.0

