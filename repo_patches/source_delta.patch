From 01f9409e6bdffd30025e03a32d1d80ab80a1e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 01/14] fix: IntoIter::next_back stops at the front cursor

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..89ad5c3 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -798,7 +798,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From 76a97b7560f436bc9971da04a031bdb0fa425979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 02/14] fix: IntoIter::nth drops only remaining elements, each
 once

---
 src/vector.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 89ad5c3..e115d5d 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,13 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
+        for _ in 0..cmp::min(n, self.len()) {
+            let i = self.next;
+            // advance first, so that a panicking destructor is not run again
+            self.next += 1;
             unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From 2cdf786c29e7f734956d39a257231b07e9cbe929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 03/14] fix: RowsIter and ColsIter lengths account for items
 taken from the back

---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..be90b6b 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.len();
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.len()
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.len();
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.len()
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From 99e2259e12c411b1fa4197903fb1f01f8a464256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 04/14] fix: nth of the row and column iterators does not skip
 past the end

---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index be90b6b..3308f40 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,5 +1,7 @@
 use ::vector::{Vector, ArrayLen};
 
+use std::cmp;
+
 pub struct RowsIter<'a, T: 'a, Row, Col>
     (&'a Vector<Vector<T, Col>, Row>, usize, usize)
     where
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
-- 
2.43.0


From be84aa3d5b17e0d61df0a3e8fe87ee0503b92167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 05/14] fix: Debug for Matrix does not panic on a matrix
 without rows

---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 30772ce7981b9eabbc7da275a2d86564bd040dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 06/14] fix: indexing an empty vector with U0 does not compile

---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index e115d5d..d1bbee9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From 020d7470a7c658093a4dad5d9b0e414fa2196d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 07/14] fix: ColsIterRefInner::new checks the column in release
 builds too

---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 3308f40..fceabe0 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From f6bc783325f774d74eb2f31ab8818853a02d6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 08/14] fix: Matrix2f64 has f64 elements

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From 0e7f41834d9d6dee9f67552d65d3353cd8bea2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 09/14] fix: Eq for Vector and Matrix requires Eq elements

---
 src/matrix/mod.rs | 2 +-
 src/vector.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index c0c74e6..d5a57a1 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -296,7 +296,7 @@ impl<T, Row, Col> Eq for Matrix<T, Row, Col>
     where
         Row: ArrayLen<Vector<T, Col>>,
         Col: ArrayLen<T>,
-        T: PartialEq,
+        T: Eq,
 {
 }
 
diff --git a/src/vector.rs b/src/vector.rs
index d1bbee9..b4da7a4 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -208,7 +208,7 @@ impl<T, U, N> PartialEq<Vector<U, N>> for Vector<T, N>
 
 impl<T, N> Eq for Vector<T, N>
     where
-        T: PartialEq,
+        T: Eq,
         N: ArrayLen<T>,
 {
 }
-- 
2.43.0


From 09a90db6cbbe0075bce325e7e65f7a7c2d334292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 10/14] fix: a destructor panicking in a short collect does not
 drop the whole array

---
 src/vector.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index b4da7a4..e1948c3 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -708,11 +708,9 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        let mut arr = arr.into_inner();
                         for j in 0..i {
                             ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
                         }
-                        mem::forget(arr);
 
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
-- 
2.43.0


From 50731e1cabe465f46811211530ab2e795040477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 11/14] fix: ArrayLen is an unsafe trait, unsafe code relies on
 its Array

---
 src/vector.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index e1948c3..e7a7a4d 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -908,13 +908,16 @@ fn test_vector_chunks() {
     assert_eq!(it.next(), None);
 }
 
-pub trait ArrayLen<T>: typenum::Unsigned {
+/// # Safety
+///
+/// `Array` must be `[T; Self::USIZE]`.
+pub unsafe trait ArrayLen<T>: typenum::Unsigned {
     type Array: AsRef<[T]> + AsMut<[T]>;
 }
 
 macro_rules! impl_arraylen {
     ($tn:ident, $len:expr) => {
-        impl<T> ArrayLen<T> for $tn {
+        unsafe impl<T> ArrayLen<T> for $tn {
             type Array = [T; $len];
         }
     }
-- 
2.43.0


From 5e1c9e48f48c90e9849129c238101f21f6c0b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 12/14] fix: vector! and matrix! do not name the std crate

---
 src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 57ca2f9..b9cec0e 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -40,7 +40,7 @@ macro_rules! vector {
     };
 
     (@count $first:expr, $($rest:tt),*) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add< vector!(@count $($rest),*) >>::Output
+        $crate::typenum::Sum<$crate::typenum::consts::U1, vector!(@count $($rest),*)>
     };
 
     ($($elem:expr),*) => {
@@ -86,7 +86,7 @@ macro_rules! matrix {
     (@countrow [$($elem:expr),*] ) => { $crate::typenum::consts::U1 };
 
     (@countrow [$($elem:expr),*], $($rest:tt)*) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add<matrix!(@countrow $($rest)*)>>::Output
+        $crate::typenum::Sum<$crate::typenum::consts::U1, matrix!(@countrow $($rest)*)>
     };
 
     (@countcol) => { $crate::typenum::consts::U0 };
@@ -98,7 +98,7 @@ macro_rules! matrix {
     };
 
     (@countcol [$first:expr, $($rest:expr),*] ) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add<matrix!(@countcol [$($rest),*])>>::Output
+        $crate::typenum::Sum<$crate::typenum::consts::U1, matrix!(@countcol [$($rest),*])>
     };
 
     (@countcol [$($elem:expr),*], $($drop:tt)*) => { matrix!(@countcol [$($elem),*]) };
-- 
2.43.0


From c7e6a99d92a7d8a2bce1ddee25e1c1b8ea53cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 13/14] fix: inverse of larger matrices exchanges rows when the
 pivot is zero

---
 src/matrix/ops.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..d2f29ae 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,16 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
+            // a zero on the diagonal is exchanged for a nonzero entry below it
+            match (i..n).find(|&p| !mat[(p, i)].is_zero()) {
+                Some(p) => {
+                    mat.0.as_slice_mut().swap(i, p);
+                    inv.0.as_slice_mut().swap(i, p);
                 }
-                T::one() / d
-            };
+                None => return None,
+            }
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From c604281e1589d8455e5af20a55693538e892227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 14/14] fix: vector! and matrix! can be invoked by path

---
 src/macros.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index b9cec0e..fd19354 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -40,11 +40,11 @@ macro_rules! vector {
     };
 
     (@count $first:expr, $($rest:tt),*) => {
-        $crate::typenum::Sum<$crate::typenum::consts::U1, vector!(@count $($rest),*)>
+        $crate::typenum::Sum<$crate::typenum::consts::U1, $crate::vector!(@count $($rest),*)>
     };
 
     ($($elem:expr),*) => {
-        $crate::vector::Vector::<_, vector!(@count $($elem),*)>::new([ $($elem),* ])
+        $crate::vector::Vector::<_, $crate::vector!(@count $($elem),*)>::new([ $($elem),* ])
     };
 }
 
@@ -86,7 +86,7 @@ macro_rules! matrix {
     (@countrow [$($elem:expr),*] ) => { $crate::typenum::consts::U1 };
 
     (@countrow [$($elem:expr),*], $($rest:tt)*) => {
-        $crate::typenum::Sum<$crate::typenum::consts::U1, matrix!(@countrow $($rest)*)>
+        $crate::typenum::Sum<$crate::typenum::consts::U1, $crate::matrix!(@countrow $($rest)*)>
     };
 
     (@countcol) => { $crate::typenum::consts::U0 };
@@ -98,16 +98,16 @@ macro_rules! matrix {
     };
 
     (@countcol [$first:expr, $($rest:expr),*] ) => {
-        $crate::typenum::Sum<$crate::typenum::consts::U1, matrix!(@countcol [$($rest),*])>
+        $crate::typenum::Sum<$crate::typenum::consts::U1, $crate::matrix!(@countcol [$($rest),*])>
     };
 
-    (@countcol [$($elem:expr),*], $($drop:tt)*) => { matrix!(@countcol [$($elem),*]) };
+    (@countcol [$($elem:expr),*], $($drop:tt)*) => { $crate::matrix!(@countcol [$($elem),*]) };
 
     ($( [$($elem:expr),*] ),*) => {
         {
             $crate::matrix::Matrix::<_,
-                matrix!(@countrow $( [ $( $elem ),* ] ),*),
-                matrix!(@countcol $( [ $( $elem ),* ] ),*)>::new([ $([ $($elem),* ]),* ])
+                $crate::matrix!(@countrow $( [ $( $elem ),* ] ),*),
+                $crate::matrix!(@countcol $( [ $( $elem ),* ] ),*)>::new([ $([ $($elem),* ]),* ])
         }
     };
 }
-- 
2.43.0

