From d65ce0cbec70e9945f22ba408bac8c4ccc70182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 01/60] fix: tuple_iter(0) yields the empty tuple instead of
 underflowing

---
 util/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/src/lib.rs b/util/src/lib.rs
index 92691c5..7db7fb9 100644
--- a/util/src/lib.rs
+++ b/util/src/lib.rs
@@ -384,7 +384,7 @@ impl<'a, T> TupleIterator<'a, T> {
         TupleIterator{
             data: data,
             indeces: indeces,
-            curr_idx: size-1,
+            curr_idx: size.saturating_sub(1),
             is_done: is_done,
         }
     }
@@ -416,6 +416,12 @@ impl<'a, T: std::fmt::Debug> Iterator for TupleIterator<'a, T> {
             Some(self.indeces.iter().map(|&idx| &self.data[idx]).collect())
         };
 
+        if self.indeces.is_empty() {
+            // there is exactly one empty tuple
+            self.is_done = true;
+            return out;
+        }
+
         if self.is_blocked() {
             while self.curr_idx > 0 && self.indeces[self.curr_idx]-self.indeces[self.curr_idx-1]==1 {
                 self.curr_idx-=1;
-- 
2.43.0


From 4bdf21a3cac81107035f928b44ea7fa4e4b504a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 02/60] fix: comparing two zero rationals no longer divides by
 zero

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..5648005 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,7 +66,7 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        let gcd_of_n = gcd(self.numerator, rhs.numerator);
+        let gcd_of_n = gcd(self.numerator, rhs.numerator).max(1); // gcd(0, 0) is zero
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
         let b = (rhs.numerator/gcd_of_n) * (self.denominator/gcd_of_d);
-- 
2.43.0


From b44c369cb9980407f3cecd53ba0a809fc7262699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 03/60] fix: the negative of the rational zero is zero

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 5648005..c11c60e 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -179,7 +179,7 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        self.sign = !self.sign || self.numerator == 0;
         self
     }
 }
-- 
2.43.0


From 0207aeae01d230616175bf1e85c5cd147c5e2a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 04/60] fix: product of rationals starts from one

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index c11c60e..e240e59 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -211,7 +211,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From 42382de2d781f46d95938d000a0c7cf19726f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/60] fix: Rational::new accepts i64::MIN

---
 alg/src/commutative/rational_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index e240e59..e69475b 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -23,8 +23,8 @@ impl Rational {
         if d == 0 { panic!("Denumerators cannot be zero!") };
 
         let mut r = Rational {
-            numerator: n.abs() as u64,
-            denominator: d.abs() as u64,
+            numerator: n.unsigned_abs(),
+            denominator: d.unsigned_abs(),
             sign: (n>=0) == (d>=0),
         };
 
-- 
2.43.0


From e11931445fe56d798cc139ca82c73a49c63c59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 06/60] fix: primality and number of prime factors of integers

---
 alg/src/commutative.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..bf58eb7 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -126,16 +126,18 @@ macro_rules! pid_impl {
     ($($t:ty)*) => ($(
         impl PID for $t {
             fn is_prime(self) -> bool {
-                if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                let n = self.simplify().1;
+                if n == Self::zero() || n == Self::one() { return false; }
+                (2..n).take_while(|&x| x <= n/x).all(|x| n%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
-                    let mut num = self;
-                    while num/x==0 {
+                let n = self.simplify().1;
+                (2..n).filter(|&x| n%x == 0).filter(|&x| x.is_prime()).for_each(|x|{
+                    let mut num = n;
+                    while num%x==0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 82fb7673ebae90571020edec0e24deb09d12e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 07/60] fix: inverse of the last column operation in
 smith_normal_form

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..64e1a43 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1058,7 +1058,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From 12fd70ee835e8cc0b6a9616e30def61ec05024de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 08/60] fix: rank_as_linear_map by row echelon form

---
 alg/src/lin_alg/matrix_impl.rs | 47 ++++++++++++----------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 64e1a43..2a5d5be 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1077,40 +1077,27 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
 impl <T:Field+Copy> Matrix<T> {
     pub fn rank_as_linear_map(&self) -> usize {
         let mut clone = self.clone();
-        let shorter_side = std::cmp::min(self.size().0, self.size().1);
-        let mut skipped = 0;
-        for k in 0..shorter_side {
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
-                match result {
-                    Some(j) => clone.col_operation(k, j, T::one()),
-                    None => (),
-                }
-            }
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
-                match result {
-                    Some(i) => clone.row_operation(k, i, T::one()),
-                    None => {
-                        skipped += 1;
-                        continue;
-                    },
-                }
-            }
-
-            // Now we have the nonzero element in (k, k)
-            let coeff = T::one() / clone[(k,k)];
-            clone.row_operation(k, k, coeff - T::one()); // Fix
+        let mut rank = 0;
+        for k in 0..self.size().1 {
+            // fetch a nonzero element in the k'th column at or below the row 'rank'
+            let pivot = match (rank..self.size().0).find(|&i| clone[(i, k)] != T::zero()) {
+                Some(i) => i,
+                None => continue,
+            };
+            clone.swap_rows(rank, pivot);
 
-            for l in k+1..self.size().0 {
-                let minus_one = T::zero() - T::one();
-                let a_lk = clone[(l,k)];
-                if a_lk == T::zero() { continue; } 
-                clone.row_operation(l, k, minus_one * a_lk);
+            // Now we have the nonzero element in (rank, k)
+            for l in rank+1..self.size().0 {
+                if clone[(l,k)] == T::zero() { continue; } 
+                let ratio = clone[(l,k)] / clone[(rank,k)];
+                clone.row_operation(l, rank, -ratio);
             }
+
+            rank += 1;
+            if rank == self.size().0 { break; }
         };
 
-        shorter_side - skipped
+        rank
     }
 }
 
-- 
2.43.0


From 5d3c5f4a3ba30dc12e46fdac1ddcbab78ae4ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 09/60] fix: comparing a submatrix with a matrix no longer
 recurses forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 2a5d5be..ce4bb43 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From db936f151f1b18f35a45ab83950aca6d420b52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 10/60] fix: matrix constructor rejects rows of different
 lengths

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index ce4bb43..6c57947 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From 65c7758c955843b0d8b00bb1abe9cd1366d85686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 11/60] fix: slice of a submatrix spans exactly its entries,
 also when it is empty

---
 alg/src/lin_alg/matrix_impl.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 6c57947..b1c5431 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -61,7 +61,11 @@ pub const fn submatrix_from_raw_parts_mut<T: ?Sized>(
 #[inline]
 pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = if size.0 == 0 || size.1 == 0 {
+        0
+    } else {
+        (size.0 - 1) * offsets.0 + (size.1 - 1) * offsets.1 + 1
+    };
     let data_address = unsafe{ PtrRepr{const_ptr: m as *const SubMatrix<T>}.components.data_address};
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.const_ptr }
 }
@@ -69,7 +73,11 @@ pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
 #[inline]
 pub fn slice_from_sub_matrix_mut<T: PID>(m: &mut SubMatrix<T>) -> *mut [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = if size.0 == 0 || size.1 == 0 {
+        0
+    } else {
+        (size.0 - 1) * offsets.0 + (size.1 - 1) * offsets.1 + 1
+    };
     let data_address = unsafe{ PtrRepr{ mut_ptr: m as *mut SubMatrix<T> }.components.data_address };
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
-- 
2.43.0


From 4140d9e571a9b9acb62c3b9678bc7bbf683903f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 12/60] fix: matrix constructors no longer drop the
 uninitialized elements they overwrite

---
 alg/src/lin_alg/matrix_impl.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b1c5431..96bd076 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -347,7 +347,7 @@ macro_rules! submatrix_add_sub_impl {
                 let mut out = Matrix::new(self.size().0, self.size().1);
                 for i in 0..self.size().0 {
                     for j in 0..self.size().1 {
-                        out[(i,j)] = $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone());
+                        out.write( (i,j), $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone()) );
                     }
                 }
                 out
@@ -399,7 +399,7 @@ impl<T: PID> ops::Mul for &SubMatrix<T> {
         let mut prod = Matrix::new(self.size().0, rhs.size().1);
         for i in 0..prod.size().0 {
             for j in 0..prod.size().1 {
-                prod[(i, j)] = self[(i, ..)].dot(&rhs[(.., j)]);
+                prod.write( (i, j), self[(i, ..)].dot(&rhs[(.., j)]) );
             }
         };
         prod
@@ -498,7 +498,7 @@ impl<T: PID> ops::Mul<T> for &SubMatrix<T> {
         let mut out = Matrix::new(self.size().0, self.size().1);
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() * rhs.clone();
+                out.write( (i,j), self[(i,j)].clone() * rhs.clone() );
             }
         };
         out
@@ -524,7 +524,7 @@ impl<T: Field> ops::Div<T> for &SubMatrix<T> {
         let mut out = Matrix::new(self.size().0, self.size().1);
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() / rhs.clone();
+                out.write( (i,j), self[(i,j)].clone() / rhs.clone() );
             }
         };
         out
@@ -672,7 +672,7 @@ impl<T: PID> Matrix<T> {
         let mut out = Matrix::new(size.0, size.1);
         for i in 0..size.0 {
             for j in 0..size.1 {
-                out[(i, j)] = v[i][j].clone();
+                out.write( (i, j), v[i][j].clone() );
             }
         }
 
-- 
2.43.0


From 1ee3a575dfeb7714065d70bf3dfc32e9fb015028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 13/60] fix: refuse matrices whose dimensions do not fit in the
 submatrix metadata

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 96bd076..2965631 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -600,6 +600,10 @@ impl<T: PID> Matrix<T> {
     }
 
     fn new(n: usize, m: usize) -> Self {
+        // sizes and offsets have to fit in the metadata of a pointer to a submatrix. See 'compress'.
+        let limit = 1_usize << (mem::size_of::<usize>() * 8 / 4);
+        assert!(n < limit && m < limit, "matrices of size ({n}, {m}) are too large to be supported.");
+
         let mut mat = Matrix {
             ptr: ptr::NonNull::dangling(),
             _marker: PhantomData,
-- 
2.43.0


From 0c6f1d8e4ff301c6f935566326447327140b2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 14/60] fix: empty matrices do not allocate

---
 alg/src/lin_alg/matrix_impl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 2965631..6d9d5aa 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -617,6 +617,9 @@ impl<T: PID> Matrix<T> {
     fn alloc(&mut self) {
         let layout = alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap();
         
+        // allocating zero bytes is not allowed, and there is nothing to point to
+        if layout.size() == 0 { return; }
+
         // Ensure that the new allocation doesn't exceed `isize::MAX` bytes.
         assert!(
             layout.size() <= isize::MAX as usize,
@@ -746,9 +749,9 @@ impl<T: PID> ops::DerefMut for Matrix<T> {
 
 impl<T: PID> Drop for Matrix<T> {
     fn drop(&mut self) {
-        let elem_size = mem::size_of::<T>();
+        let alloc_size = mem::size_of::<T>() * self.size().0 * self.size().1;
 
-        if elem_size != 0 {
+        if alloc_size != 0 {
             unsafe {
                 alloc::dealloc(
                     self.ptr.as_ptr() as *mut u8,
-- 
2.43.0


From 3610008ed73f3e67f99562423ba4a87c4e459d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 15/60] fix: iterating over the rows and columns of a sparse
 zero matrix

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..e2cb8ce 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -32,6 +32,8 @@ impl<T: PID> SparseNode<T> {
     fn start_node_idx(&self) -> usize {
         match self {
             Self::Start(i, _) => *i,
+            // the place holder in the zero matrix, which comes after every row and column
+            Self::End => usize::MAX,
             _ => panic!("Failed to unwwrap: The node is not a start node.")
         }
     }
-- 
2.43.0


From 2440afacc967b6ca5c4aa944fb8382830b619480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 16/60] fix: inverse of permutations stored as arrays

---
 alg/src/non_commutative/permutation.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..209f8ae 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for (i, &image) in self.0.iter().enumerate() {
+            out[image] = i;
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for (i, &image) in self.0.iter().enumerate() {
+            out[image] = i;
         }
         Self(out)
     }
-- 
2.43.0


From 8f0bc0ee15ae0355d8f5371c6bd345d466dd9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 17/60] fix: equality of VecPermutation ignores trailing fixed
 points, so that its order is found

---
 alg/src/non_commutative/permutation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 209f8ae..549e769 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -684,9 +684,18 @@ impl<const N: usize> ConstPermutation<N> {
 }
 
 
-#[derive(Clone, PartialEq, Eq, Debug)]
+#[derive(Clone, Debug)]
 pub struct VecPermutation(Vec<usize>);
 
+// Indices beyond the length of the vector are fixed, so trailing fixed points do not matter.
+impl PartialEq for VecPermutation {
+    fn eq(&self, other: &Self) -> bool {
+        (0..self.0.len().max(other.0.len())).all(|i| self.eval(i) == other.eval(i))
+    }
+}
+
+impl Eq for VecPermutation {}
+
 impl std::ops::Mul for VecPermutation {
     type Output = Self;
     fn mul(mut self, mut rhs: Self) -> Self::Output {
-- 
2.43.0


From 6d40d09eed39c3fd9bb20a9640a79797e75b42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 18/60] fix: negative powers of permutations

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 549e769..535ed67 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (power..0).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From b76a2220dc1e856ec9276976b8eed3d648b8dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 19/60] fix: swapping an empty range, and adjacent ranges given
 in reverse order

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 535ed67..3b0b5e6 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,13 +196,13 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 1b67f459318d9dc7f96b637ec4d1b5a54d18ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 20/60] fix: Cycle::from of no elements is the identity

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 3b0b5e6..1384565 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -28,7 +28,7 @@ impl Cycle {
 
     fn cyclic_from(r: std::ops::Range<usize>) ->  Cycle {
         let data: Vec<_> = r.collect();
-        if data.len() == 1 { return Cycle::identity(); };
+        if data.len() <= 1 { return Cycle::identity(); };
 
         Cycle {
             data: data,
@@ -42,7 +42,7 @@ impl Cycle {
     }
 
     pub fn from(data: Vec<usize>) -> Cycle {
-        if data.len() == 1 { return Cycle::identity(); }
+        if data.len() <= 1 { return Cycle::identity(); }
 
         let mut cycle = Cycle {
             data: data,
-- 
2.43.0


From e1b75525b60d87e6c7a94941d8a1201ca0ef938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 21/60] fix: merging the summands of formal sums keeps them
 sorted

---
 alg/src/lin_alg.rs | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..bed463d 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -291,7 +291,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
+    curr_i: Option<T>,
+    curr_j: Option<T>,
     i: I,
     j: J,
     f: F
@@ -305,41 +306,23 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
+        let take_from_i = match (&self.curr_i, &self.curr_j) {
+            (Some(x), Some(y)) => (self.f)(x, y) != Ordering::Greater,
+            (x, _) => x.is_some(),
+        };
+        if take_from_i {
+            std::mem::replace(&mut self.curr_i, self.i.next())
         } else {
-            None
+            std::mem::replace(&mut self.curr_j, self.j.next())
         }
     }
 }
 
 fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+    Merge{
+        curr_i: i.next(),
+        curr_j: j.next(),
+        i, j, f
     }
 }
 
-- 
2.43.0


From 1611bfd813e57806eed4fbd00876124341c1db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 22/60] fix: formal sums of repeated basis elements collect the
 coefficients

---
 alg/src/lin_alg.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index bed463d..96823d4 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -188,17 +188,32 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
     }
 }
 
+impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
+    // the sum of basis elements, which are already sorted, but may be repeated
+    fn from_sorted<I: IntoIterator<Item = Basis>>(summands: I) -> Self {
+        let mut out: Vec<(Coeff, Basis)> = Vec::new();
+        for b in summands {
+            match out.last_mut() {
+                Some((coeff, last)) if *last == b => *coeff += Coeff::one(),
+                _ => out.push((Coeff::one(), b)),
+            }
+        }
+        out.retain(|(coeff, _)| *coeff != Coeff::zero());
+        Vector(out)
+    }
+}
+
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
     fn from(mut summands: [Basis; N]) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        Vector::from_sorted(summands)
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
     fn from(mut summands: Vec<Basis>) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        Vector::from_sorted(summands)
     }
 }
 
-- 
2.43.0


From 1f758382cd652610481e73accf18e4985bd3fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 23/60] fix: isomorphism of modules compares their invariant
 factors

---
 alg/src/lin_alg.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 96823d4..d7e2dfa 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -78,7 +78,11 @@ pub struct Module<Coeff: PID> {
 impl<Coeff: PID> Module<Coeff> {
     pub fn new(free_rank: usize, elementary_divisors: Vec<(Coeff, usize)>) -> Self {
         // TODO: check whether the elementary_divisors are indeed elementary divisors
-        let elementary_divisors: Vec<_> = elementary_divisors.into_iter().filter(|(div, _)| *div != Coeff::one()).collect();
+        // the divisors are taken up to units, and the units themselves contribute nothing
+        let elementary_divisors: Vec<_> = elementary_divisors.into_iter()
+            .map(|(div, mul)| (div.simplify().1, mul))
+            .filter(|(div, mul)| *div != Coeff::one() && *mul != 0)
+            .collect();
         Module {
             free_rank: free_rank,
             elementary_divisors: elementary_divisors,
@@ -93,7 +97,30 @@ impl<Coeff: PID> Module<Coeff> {
     }
 
     pub fn is_isomorphic_to (self, rhs: Self) -> bool {
-        self.free_rank == rhs.free_rank && self.elementary_divisors == rhs.elementary_divisors
+        self.free_rank == rhs.free_rank && self.invariant_factors() == rhs.invariant_factors()
+    }
+
+    // the unique sequence of divisors, each of which divides the next one, without units
+    fn invariant_factors(&self) -> Vec<Coeff> {
+        let mut divs: Vec<Coeff> = self.elementary_divisors.iter()
+            .flat_map(|(div, mul)| std::iter::repeat(div.clone()).take(*mul))
+            .collect();
+        for i in 0..divs.len() {
+            for j in i+1..divs.len() {
+                // replace (a, b) by (gcd, lcm)
+                let (mut a, mut b) = (divs[i].clone(), divs[j].clone());
+                while b != Coeff::zero() {
+                    let r = a.euclid_div(b.clone()).1;
+                    a = b;
+                    b = r;
+                }
+                let gcd = a.simplify().1;
+                divs[j] = (divs[i].clone().euclid_div(gcd.clone()).0 * divs[j].clone()).simplify().1;
+                divs[i] = gcd;
+            }
+        }
+        divs.retain(|div| *div != Coeff::one());
+        divs
     }
 
     #[inline]
-- 
2.43.0


From 4c2789807264048b6989a7fe731ea64b932ba3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 24/60] fix: Householder vector of a negative multiple of the
 first axis

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 6d9d5aa..1d847ab 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1273,7 +1273,7 @@ impl Matrix<f64> {
         if a==0.0 && b>=0.0 {
             (self, 0.0)
         } else if a==0.0 && b<0.0 {
-            (self, -2.0)
+            (self, 2.0)
         } else {
             let u = (a+b*b).sqrt();
             self[(0,0)] = if b<=0.0 {
-- 
2.43.0


From 00cd063c78688fec3aa7280d1a307992e0b0e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 25/60] fix: eigenvalues of 2x2 blocks that are equal or close
 to each other

---
 alg/src/lin_alg/matrix_impl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 1d847ab..17599ae 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1683,10 +1683,12 @@ impl SubMatrix<f64> {
 
     fn real_spectrum_of_two_by_two(&self) -> Option<(f64, f64)> {
         debug_assert_eq!( self.size(), (2,2) );
-        let det = self[(0,0)] * self[(1,1)] - self[(0,1)] * self[(1,0)];
         let m = (self[(0,0)] + self[(1,1)]) / 2.0;
-        if m*m-det > 0.0 {
-            let rad = (m*m-det).sqrt();
+        let d = (self[(0,0)] - self[(1,1)]) / 2.0;
+        // m*m - det, without the cancellation
+        let discriminant = d*d + self[(0,1)] * self[(1,0)];
+        if discriminant >= 0.0 {
+            let rad = discriminant.sqrt();
             Some((m-rad, m+rad))
         } else {
             None
-- 
2.43.0


From cad1b92ba6e78139929489d78724e8da13a2cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 26/60] fix: determinants and linear systems with zero pivots

---
 alg/src/lin_alg/matrix_impl.rs | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 17599ae..21e75eb 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1142,10 +1142,35 @@ impl Matrix<f64> {
         };
 
         // this implementation of determinant is based on LU decomposition
-        self.lu();
+        let (_, sign) = self.lu_with_partial_pivoting();
         (0..self.size().0)
             .map(|i| self[(i,i)])
-            .product()
+            .product::<f64>() * sign
+    }
+
+    // the LU decomposition of the matrix with its rows reordered. The order of the rows, and the sign of it, are returned.
+    fn lu_with_partial_pivoting(&mut self) -> (Vec<usize>, f64) {
+        let n = self.size().0;
+        let mut order: Vec<usize> = (0..n).collect();
+        let mut sign = 1.0;
+        for i in 0..n {
+            let pivot = (i+1..n).fold(i, |p, r| if self[(r,i)].abs() > self[(p,i)].abs() { r } else { p });
+            if pivot != i {
+                self.swap_rows(i, pivot);
+                order.swap(i, pivot);
+                sign = -sign;
+            }
+            if self[(i,i)] == 0.0 { continue; }
+            for r in i+1..n {
+                let factor = self[(r,i)] / self[(i,i)];
+                self[(r,i)] = factor;
+                for c in i+1..n {
+                    let update = factor * self[(i,c)];
+                    self[(r,c)] -= update;
+                }
+            }
+        }
+        (order, sign)
     }
 
     pub fn random_orthogonal(n: usize) -> Matrix<f64> {
@@ -1320,8 +1345,12 @@ impl Matrix<f64> {
             b.size
         );
         let n = self.size().0;
-        self[(..,..)].lu();
-        
+        let (order, _) = self.lu_with_partial_pivoting();
+        let rhs = b.clone();
+        for (i, &r) in order.iter().enumerate() {
+            b[(i,0)] = rhs[(r,0)];
+        }
+
         // Solve Ly = b by forward substitution
         for i in 1..n {
             b[(i, 0)] = b[(i,0)] - self[(i, 0..i)].dot( &b[(0..i, 0)] );
-- 
2.43.0


From d26824b399e2f6221a9a87121912b64d62b47618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 27/60] fix: symmetric QR of matrices of size one and two

---
 alg/src/lin_alg/matrix_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 21e75eb..f5cfc8b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1882,7 +1882,7 @@ impl SubMatrix<f64> {
 
     pub fn householder_tridiagonalization(&mut self, with_op: bool) {
         let n = self.size().0;
-        for i in 0..n-2 {
+        for i in 0..n.saturating_sub(2) {
             let (v, b) = self[(i+1.., i)].householder_vec();
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
@@ -1980,12 +1980,12 @@ impl SubMatrix<f64> {
         let tolerance = 0.0000000001;
         let mut op = Matrix::identity(n);
         self.householder_tridiagonalization(with_op);
-        if with_op {
+        if with_op && n > 2 {
             op = Matrix::identity(n);
             op[(1..,1..)].write( &(self[(2..,..n-2)].extract_householder_vecs()) );
         };
 
-        for i in 0..n-2 {
+        for i in 0..n.saturating_sub(2) {
             for j in i+2..n{
                 self[(i, j)] = 0.0;
                 self[(j, i)] = 0.0;
@@ -2001,7 +2001,7 @@ impl SubMatrix<f64> {
                 }
             }
 
-            q = (0..n-2)
+            q = (0..n.saturating_sub(2))
                 .find( |&i| self[(n-i-1,n-i-2)].abs()>tolerance && self[(n-i-2,n-i-3)].abs()>tolerance )
                 .unwrap_or(n);
 
-- 
2.43.0


From 6604f7f4a4aee156d4fcdae99b43baca6de354d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 28/60] fix: operator of the symmetric QR when the active block
 is not the leading one

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index f5cfc8b..47f1488 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -2017,8 +2017,8 @@ impl SubMatrix<f64> {
                     for (i, c,s) in (0..givens.size.0).map(|i| (i, givens[(i,0)], givens[(i,1)])) {
                         let givens =  matrix!(f64; [[c, -s],[s, c]]);
                         let givens = &*givens;
-                        let update = givens * &op[(i..i+2, ..)];
-                        op[(i..i+2, ..)].write(&update);
+                        let update = givens * &op[(p+i..p+i+2, ..)];
+                        op[(p+i..p+i+2, ..)].write(&update);
                     }
                 }
             }
-- 
2.43.0


From 261d62904962139bb9676c0331a55decf2c34344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 29/60] fix: operator of the tridiagonalization when a column
 is reduced already

---
 alg/src/lin_alg/matrix_impl.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 47f1488..9db2d7a 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1883,13 +1883,19 @@ impl SubMatrix<f64> {
     pub fn householder_tridiagonalization(&mut self, with_op: bool) {
         let n = self.size().0;
         for i in 0..n.saturating_sub(2) {
-            let (v, b) = self[(i+1.., i)].householder_vec();
+            let (v, mut b) = self[(i+1.., i)].householder_vec();
+            let mut norm = self[(i+1.., i)].two_norm();
+            if with_op && b == 0.0 {
+                // the column is reduced already, but 'extract_householder_vecs()' recovers a reflection from every 'v'
+                b = 2.0;
+                norm = -norm;
+            }
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
             let p = &*p;
             let w = p - v * b/2.0*(v.transpose().dot(p));
             let w = &*w;
-            self[(i+1, i)] = self[(i+1.., i)].two_norm();
+            self[(i+1, i)] = norm;
             self[(i, i+1)] = self[(i+1, i)];
 
 
-- 
2.43.0


From fa68423bf74ed8b3ea6c00293332d6a88cf25e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 30/60] fix: francis_step_with_op returns the operator of the
 step

---
 alg/src/lin_alg/matrix_impl.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 9db2d7a..08db5cd 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1766,7 +1766,7 @@ impl SubMatrix<f64> {
         );
         let n = self.size().0;
 
-        let op = if return_op {
+        let mut op = if return_op {
             Matrix::identity(n)
         } else {
             Matrix::identity(1)
@@ -1794,6 +1794,11 @@ impl SubMatrix<f64> {
             self[(0..r, k..k+3)].write_and_move(
                 update
             );
+            if return_op {
+                let update = &op[(0..n, k..k+3)] -
+                    (&op[(0..n, k..k+3)] * v) * (v.transpose()*b);
+                op[(0..n, k..k+3)].write_and_move( update );
+            }
             x = self[(k+1, k)];
             y = self[(k+2, k)];
             if k < n-3 {
@@ -1810,6 +1815,11 @@ impl SubMatrix<f64> {
         let update = &self[(0..n, n-2..n)] -
             (&self[(0..n, n-2..n)] * v) * (v.transpose()*b);
         self[(0..n, n-2..n)].write_and_move( update );
+        if return_op {
+            let update = &op[(0..n, n-2..n)] -
+                (&op[(0..n, n-2..n)] * v) * (v.transpose()*b);
+            op[(0..n, n-2..n)].write_and_move( update );
+        }
 
         op
     }
-- 
2.43.0


From 84f341e630a4e3468481cb26c8323158458e458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 31/60] fix: qr_with_op returns the operator that brings the
 matrix to its real Schur form

---
 alg/src/lin_alg/matrix_impl.rs | 36 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 08db5cd..3b546e3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1738,15 +1738,20 @@ impl SubMatrix<f64> {
 
 
     pub fn hessenberg_form(&mut self) {
+        self.raw_hessenberg_form(false);
+    }
+
+    fn raw_hessenberg_form(&mut self, returns_op: bool) -> Matrix<f64> {
         if self.size().0 != self.size().1 {
             panic!("Input to this function must be a square matrix.");
         }
 
-        if self.size().0 < 2 {
-            return;
+        let n = self.size().0; // = self.size().1
+        let mut op = Matrix::identity( if returns_op {n} else {1} );
+        if n < 2 {
+            return op;
         }
 
-        let n = self.size().0; // = self.size().1
         for k in 0..n-2 {
             let (v, b) = self[(k+1..n, k)].householder_vec();
             let v = &*v;
@@ -1757,7 +1762,13 @@ impl SubMatrix<f64> {
 
             let update = &self[(0..n, k+1..n)] - (&self[(0..n, k+1..n)]*v)*v_t*b;
             self[(0..n, k+1..n)].write_and_move( update );
+
+            if returns_op {
+                let update = &op[(0..n, k+1..n)] - (&op[(0..n, k+1..n)]*v)*v_t*b;
+                op[(0..n, k+1..n)].write_and_move( update );
+            }
         };
+        op
     }
 
     pub fn raw_francis_step(&mut self, return_op: bool) -> Matrix<f64> {
@@ -1842,12 +1853,7 @@ impl SubMatrix<f64> {
             return Matrix::identity(1);
         }
 
-        self.hessenberg_form();
-        let mut op = if returns_op {
-            Matrix::identity(n)
-        } else {
-            Matrix::identity(1)
-        };
+        let mut op = self.raw_hessenberg_form(returns_op);
 
         let tolerance = 0.000000000000001;
         let mut q=0;
@@ -1872,7 +1878,17 @@ impl SubMatrix<f64> {
             if q<n {
                 debug_assert!( (n-q)-p > 2);
                 if returns_op {
-                    op = op * self[(p..n-q, p..n-q)].francis_step_with_op();
+                    let r = n-q;
+                    let step = self[(p..r, p..r)].francis_step_with_op();
+                    let step = &*step;
+
+                    // apply the step to the rest of the matrix as well, so that the matrix stays similar to the input
+                    let update = &self[(0..p, p..r)] * step;
+                    self[(0..p, p..r)].write_and_move( update );
+                    let update = step.transpose() * &self[(p..r, r..n)];
+                    self[(p..r, r..n)].write_and_move( update );
+                    let update = &op[(0..n, p..r)] * step;
+                    op[(0..n, p..r)].write_and_move( update );
                 } else {
                     self[(p..n-q, p..n-q)].francis_step();
                 };
-- 
2.43.0


From ec170276150ce6ba97108fe43f2f1ce57cc8a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 32/60] fix: QR iteration uses an exceptional shift when the
 Francis step does not make progress

---
 alg/src/lin_alg/matrix_impl.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 3b546e3..49b4bc5 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1777,14 +1777,28 @@ impl SubMatrix<f64> {
         );
         let n = self.size().0;
 
+        // the shifts are the eigenvalues of the trailing 2x2 block: 's' is their sum and 't' is their product
+        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
+        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
+        self.francis_step_with_shifts(s, t, return_op)
+    }
+
+    // A step with shifts unrelated to the trailing block, for matrices that the usual step leaves (almost) invariant
+    fn exceptional_francis_step(&mut self, return_op: bool) -> Matrix<f64> {
+        let n = self.size().0;
+        let w = self[(n-1,n-2)].abs() + self[(n-2,n-3)].abs();
+        self.francis_step_with_shifts(1.5*w, w*w, return_op)
+    }
+
+    fn francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
+        let n = self.size().0;
+
         let mut op = if return_op {
             Matrix::identity(n)
         } else {
             Matrix::identity(1)
         };
 
-        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
-        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
         let mut x = self[(0,0)]*self[(0,0)] + self[(0,1)]*self[(1,0)] -s*self[(0,0)] + t;
         let mut y = self[(1,0)] * (self[(0,0)] + self[(1,1)] - s);
         let mut z = self[(1,0)]*self[(2,1)];
@@ -1858,6 +1872,7 @@ impl SubMatrix<f64> {
         let tolerance = 0.000000000000001;
         let mut q=0;
         let mut p;
+        let mut n_steps = 0; // the number of steps since the last deflation
 
         while q!=n {
             for i in 1..n {
@@ -1866,9 +1881,11 @@ impl SubMatrix<f64> {
                 }
             }
 
+            let prev_q = q;
             q = (0..n-2)
                 .find( |&i| self[(n-i-1,n-i-2)].abs()>tolerance && self[(n-i-2,n-i-3)].abs()>tolerance )
                 .unwrap_or(n);
+            n_steps = if q == prev_q { n_steps + 1 } else { 0 };
 
             p = (1..n-q)
                 .rev()
@@ -1879,7 +1896,11 @@ impl SubMatrix<f64> {
                 debug_assert!( (n-q)-p > 2);
                 if returns_op {
                     let r = n-q;
-                    let step = self[(p..r, p..r)].francis_step_with_op();
+                    let step = if n_steps % 10 == 9 {
+                        self[(p..r, p..r)].exceptional_francis_step(true)
+                    } else {
+                        self[(p..r, p..r)].francis_step_with_op()
+                    };
                     let step = &*step;
 
                     // apply the step to the rest of the matrix as well, so that the matrix stays similar to the input
@@ -1889,6 +1910,8 @@ impl SubMatrix<f64> {
                     self[(p..r, r..n)].write_and_move( update );
                     let update = &op[(0..n, p..r)] * step;
                     op[(0..n, p..r)].write_and_move( update );
+                } else if n_steps % 10 == 9 {
+                    self[(p..n-q, p..n-q)].exceptional_francis_step(false);
                 } else {
                     self[(p..n-q, p..n-q)].francis_step();
                 };
-- 
2.43.0


From dee6dae8767aab32873bb6eb60661443c946167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 33/60] fix: eigenvectors by inverse iteration when the shifted
 matrix is exactly singular or the initial vector is orthogonal to them

---
 alg/src/lin_alg/matrix_impl.rs | 119 +++++++++++++--------------------
 1 file changed, 45 insertions(+), 74 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 49b4bc5..0f1d0ce 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1330,7 +1330,7 @@ impl Matrix<f64> {
         }
     }
 
-    pub fn solve(mut self, mut b: Matrix<f64>) -> Self {
+    pub fn solve(mut self, b: Matrix<f64>) -> Self {
         assert_eq!(
             self.size().0, 
             self.size().1, 
@@ -1344,8 +1344,13 @@ impl Matrix<f64> {
             self.size,
             b.size
         );
-        let n = self.size().0;
         let (order, _) = self.lu_with_partial_pivoting();
+        self.solve_by_lu(&order, b)
+    }
+
+    // solve the equation, where 'self' and 'order' are computed by 'lu_with_partial_pivoting()'
+    fn solve_by_lu(&self, order: &[usize], mut b: Matrix<f64>) -> Self {
+        let n = self.size().0;
         let rhs = b.clone();
         for (i, &r) in order.iter().enumerate() {
             b[(i,0)] = rhs[(r,0)];
@@ -1366,6 +1371,37 @@ impl Matrix<f64> {
         b
     }
 
+    // Unit eigenvector for the computed eigenvalue 'lambda'.
+    // Different values of 'seed' use different initial vectors, which are needed if 'lambda' is a multiple eigenvalue.
+    fn inverse_iteration(&self, lambda: f64, seed: usize) -> Matrix<f64> {
+        let n = self.size().0;
+        let mut m = self.clone();
+        for j in 0..n {
+            m[(j,j)] -= lambda;
+        }
+
+        // 'm' is singular up to rounding errors, so its pivots need to be kept away from zero
+        let norm = self.frobenius_norm();
+        let smallest_pivot = f64::EPSILON * if norm == 0.0 { 1.0 } else { norm };
+        let (order, _) = m.lu_with_partial_pivoting();
+        for j in 0..n {
+            if m[(j,j)].abs() < smallest_pivot {
+                m[(j,j)] = smallest_pivot;
+            }
+        }
+
+        // the initial vector must not be special, or it may have no component in the direction of the eigenvector
+        let mut out = Matrix::<f64>::zero(n, 1);
+        for j in 0..n {
+            out[(j,0)] = 1.5 + (((j+1)*(seed+2)) as f64).sqrt().sin();
+        }
+        for _ in 0..3 {
+            out = m.solve_by_lu( &order, out );
+            out /= out.two_norm();
+        }
+        out
+    }
+
     pub fn spectrum(mut self) -> Matrix<f64> {
         assert_eq!( self.size().0, self.size().1,
             "Input to this function must be a square matrix."
@@ -1401,13 +1437,7 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum();
@@ -1416,16 +1446,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let mut m = self.clone();
-            for j in 0..n {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
+            let update = self.inverse_iteration( lambda, i );
             eigen_vectors[(.., i)].write_and_move( update );
         }
 
@@ -1468,13 +1489,7 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
@@ -1483,16 +1498,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let mut m = self.clone();
-            for j in 0..n {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
+            let update = self.inverse_iteration( lambda, i );
             eigen_vectors[(.., i)].write_and_move( update );
         }
 
@@ -1506,13 +1512,7 @@ impl Matrix<f64> {
         let size = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, n);
-        let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
+        let mut eigen_vectors = Matrix::<f64>::zero(size, n);
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
@@ -1521,16 +1521,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let mut m = self.clone();
-            for j in 0..size {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
+            let update = self.inverse_iteration( lambda, i );
             eigen_vectors[(.., i)].write_and_move( update );
         }
 
@@ -1541,32 +1532,12 @@ impl Matrix<f64> {
         assert_eq!( self.size().0, self.size().1,
             "Input to this function must be a square matrix."
         );
-        let size = self.size().0;
-
-        // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, 1);
-        let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            eigen_vectors[(i,0)] = elem;
-        }
-
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
 
         // run the inverse iteration to get the eigenvector
         let lambda = spectrum[(n,0)];
-
-        let mut m = self.clone();
-        for j in 0..size {
-            m[(j,j)] -= lambda;
-        }
-
-        let mut update = m.clone().solve( eigen_vectors[(.., 0)].as_matrix() );
-        update /= update.two_norm();
-        eigen_vectors[(.., 0)].write_and_move( update );
-        let mut update = m.solve( eigen_vectors[(.., 0)].as_matrix() );
-        update /= update.two_norm();
-        eigen_vectors[(.., 0)].write_and_move( update );
+        let eigen_vectors = self.inverse_iteration( lambda, n );
 
         (lambda, eigen_vectors)
     }
-- 
2.43.0


From 1c9d0ca11debbe97124e1f4c9677ce30a46acd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 34/60] fix: Givens rotations of small entries, which the
 symmetric QR iteration needs to converge

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 0f1d0ce..ca605a1 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1313,7 +1313,7 @@ impl Matrix<f64> {
     }
 
     pub fn givens_rotation(a: f64, b: f64) -> (f64, f64) {
-        if b.abs()<0.000000000001 {
+        if b == 0.0 {
             return (1.0, 0.0)
         }
 
-- 
2.43.0


From cff0ca9d0420a2e69cb299169681ae3e11f6e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 35/60] fix: random matrices do not drop uninitialized
 elements, and random symmetric matrices are square

---
 alg/src/lin_alg/matrix_impl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index ca605a1..547e9b4 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -710,19 +710,21 @@ impl<T> Matrix<T>
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
             for j in 0..out.size().1 {
-                out[(i,j)] = rng.gen();
+                out.write( (i,j), rng.gen() );
             }
         }
         out
     }
 
     pub fn random_symmetric(n: usize, m: usize) -> Matrix<T> {
+        assert!(n == m, "symmetric matrices are square, but the size=({n}, {m}).");
         let mut out = Matrix::new(n ,m);
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
             for j in i..out.size().1 {
-                out[(i,j)] = rng.gen();
-                out[(j,i)] = out[(i,j)].clone();
+                let val: T = rng.gen();
+                if i != j { out.write( (j,i), val.clone() ); }
+                out.write( (i,j), val );
             }
         }
         out
-- 
2.43.0


From 96d02eb03a7a49b7b9ba5d546852d37ad157c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 36/60] fix: a simplex does not contain the simplices whose
 vertices lie beyond its last word

---
 topo_spaces/src/simplicial/mod_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..6a1a765 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -108,7 +108,9 @@ impl SimplicialCell {
     }
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
-        self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+        // the words that only one of the cells has are zero in the other one
+        let words = self.vertices.iter().copied().chain(std::iter::repeat(0));
+        words.zip(cell.vertices.iter()).all(|(x, &y)| x | y == x)
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
-- 
2.43.0


From 4c4f17b9190bd25c4d8c9773f8fd3483f3382e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 37/60] fix: joining a simplex stored in fewer words keeps the
 other vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 6a1a765..8440eb5 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,11 +51,10 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
-            
+        self.vertices.iter_mut()
+            .zip(cell.vertices.iter())
+            .for_each(|(x, &y)| *x |= y);
+
         if cell.vertices.len() > self.vertices.len() { 
             (self.vertices.len()..cell.vertices.len()).
                 for_each(|i| self.vertices.push(cell.vertices[i]));
-- 
2.43.0


From 1ae029d17a15ebdad19ddb22d604c3717eaafbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 38/60] fix: counting the cells of large simplices does not
 overflow

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 8440eb5..d4290f0 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -277,7 +277,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                (1..=y).fold(1, |accum, k| accum * (x-y+k) / k)
             }
         };
 
-- 
2.43.0


From db609280d50b03e36ce63a4fcf4970aab0531bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 39/60] fix: zero skeletons with more than two vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d4290f0..08a8dfb 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -165,7 +165,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From 1362599876c90700b5ed7533f16153fbb9cf959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 40/60] fix: H! takes the value of max_dim

---
 topo_spaces/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index ab5e315..6d23d59 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -186,8 +186,8 @@ macro_rules! H {
     ($complex:expr) => {
         IntegralHomology::new(&$complex, None)
     };
-    ($complex:expr, max_dim=) => {
-        IntegralHomology::new(&$complex, Some(max_dim))
+    ($complex:expr, max_dim=$max_dim:expr) => {
+        IntegralHomology::new(&$complex, Some($max_dim))
     };
 }
 
-- 
2.43.0


From af3c0e8954a739e222ecdd77cff9493c3bd3d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 41/60] fix: several loops at a vertex are each counted once

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..e3ba9a7 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,7 +80,7 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
+            if v_idx != w_idx && data[v_idx][w_idx].len() > 1 {
                 n_non_loop_edges_up_to_multiplicity -= 1;
             } 
             if v_idx == w_idx {
-- 
2.43.0


From 8c29c66ae0dd1e18bc64c8f574ec8b5ec30d547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 42/60] fix: the boundary maps of a cubical complex come with
 their cells

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..ebc3f0c 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,14 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            basis[self.dim_of(idx)].push( Cube::from( self.get_cell_from_idx(idx).unwrap() ) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From e731910d55d46651ef884a7075843b8f64f703cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 43/60] fix: a base point is found in graphs where every vertex
 that does not separate has degree two

---
 topo_spaces/src/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index e3ba9a7..a2f3f9b 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -807,13 +807,14 @@ impl RawSimpleGraph {
         // -- if the vertex 0 is of degree one, we can just let it be the base point
         if self.degree_of(0) != 1 {
             // -- otherwise, we want an essential vertex v such that the graph with v deleted is connected.
-            for i in 0..self.n_vertices() {
+            // -- if there is no such vertex (for example in a cycle), then any vertex with this property will do.
+            for (min_degree, i) in [3, 2].into_iter().flat_map(|d| (0..self.n_vertices()).map(move |i| (d, i)) ).collect::<Vec<_>>() {
                 // if i is not essential, then continue.
                 if self.degree_of(i) ==1 {
                     self.swap(0, i);
                     // return the permutation that represents this swap
                     return permutation!{ (0, i) };
-                } if self.degree_of(i) >= 3 {
+                } if self.degree_of(i) >= min_degree {
                     // remove edges adjacent to i and see if the resulting graph is connected
                     let tmp_edges: Vec<_> = self.adjacent_vertices_iter(i).map(|j| if i<j {(i, j)} else {(j, i)} ).collect();
                     self.remove_edges_adjacent_to(i);
-- 
2.43.0


From 16c8afd73b19d9c7b3badbae926daa618de68a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 44/60] fix: the first factor of a reduced cell obeys the
 dimension bound and is no unpaid edge

---
 topo_spaces/src/cubical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index ebc3f0c..2c0b76e 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -803,7 +803,11 @@ impl UdnMorseCplx {
         // possible factors are provided by upstairs, so just collect them and make new_branches
         let new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
-            possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
+            possible_factors.iter()
+                .filter(|&&factor| factor.is_vertex() || upper_dim > 0 )
+                // an edge in the maximal tree needs another factor that it disrespects
+                .filter(|&&factor| n_rem_factors > 1 || factor.is_vertex() || !factor.is_in_maximal_tree(&self.factor_pool) )
+                .map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
         } else {
             // if this is not the initial call, then we need to take care of the upper bound and lower bound when collecting factors
             let unpaid_edges = {
-- 
2.43.0


From b510845e2cf250b4ab560772833f4cda39ce22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 45/60] fix: reduced cells are exactly the critical cells of
 the gradient field

An edge of the maximal tree is disrespected only by a vertex that is blocked at the
same place, edges are compared with vertices by their initial vertex, and every vertex
blocked by a factor may follow it.
---
 topo_spaces/src/cubical.rs | 54 +++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 2c0b76e..8c9e0f7 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -533,9 +533,10 @@ impl Cube {
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f) || other.flow(graph).terminal() != f.terminal() ) ))
             )
-            .next();
+            // edges are ordered by their initial vertices
+            .min_by_key(|&(_, &f)| if f.is_vertex() { f.vertex() } else { f.initial().vertex() });
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -815,7 +816,7 @@ impl UdnMorseCplx {
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) && v.flow(&self.factor_pool).terminal() == factor.terminal() ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -848,7 +849,7 @@ impl UdnMorseCplx {
                 .filter(|&&factor| factor < upper_bound || ( factor.is_edge() && factor.terminal() < upper_bound ) ) // ignore upper bounds 
                 .filter(|&&factor| {
                     if factor.is_edge() && factor.is_in_maximal_tree(&self.factor_pool) {
-                        let vertices_candidates: Vec<_> = (factor.terminal().vertex()+1..factor.initial().vertex()).map(|v| CubeFactor::Vertex(v)).filter(|&v| self.factor_iter(branch_idx).all(|f| f.is_disjoint_from(v))).collect();
+                        let vertices_candidates: Vec<_> = (factor.terminal().vertex()+1..factor.initial().vertex()).map(|v| CubeFactor::Vertex(v)).filter(|v| v.flow(&self.factor_pool).terminal() == factor.terminal() ).filter(|&v| self.factor_iter(branch_idx).all(|f| f.is_disjoint_from(v))).collect();
                         !vertices_candidates.is_empty()
                     } else {
                         true
@@ -875,6 +876,17 @@ impl UdnMorseCplx {
             
             new_branches
         };
+        let mut new_branches = new_branches;
+
+        // If this is the last factor, then keep the critical cells only
+        if n_rem_factors == 1 {
+            new_branches.retain(|b| {
+                let mut cell = if self.data.is_empty() { Vec::new() } else { self.get_cell_from_idx(branch_idx) };
+                cell.push(**b);
+                Cube::from(cell).property(&self.factor_pool) == MorseProp::Critical
+            });
+        }
+
         let new_branch_indeces: Vec<_> = (0..new_branches.len()).map( |i| i+self.data.len()).collect();
         if new_branch_indeces.is_empty() { return possible_factors; }
 
@@ -906,30 +918,13 @@ impl UdnMorseCplx {
             // record the factors added to 'possible_factors' in order to recover it later.
             let mut factors_added = Vec::new(); 
 
-            // modify 'possible_factors' for the factors downstairs.
-            if curr_factor.is_vertex() { 
-                let new_vertex = curr_factor.vertex()+1;
-                if new_vertex < self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex( curr_factor.vertex()+1 ) ); }
-            } else if curr_factor.is_in_maximal_tree(&self.factor_pool) {
-                // Coming here means that 'curr_factor' is an edge in the maximal tree.
-                let [_, j] = curr_factor.edge(); // get two ends of the edge
-                // add vertices (no edges will be added)
-                self.factor_pool
-                    .vertex_iter()
-                    .filter(|&v| v > curr_factor.terminal())
-                    .filter(|&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
-                    .for_each(|factor| factors_added.push(factor) ); 
-                if j+1<self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex(j+1) )}; // add a vertex blocked by the initial vertex of the edge
-            } else {
-                // Coming here means that 'curr_factor' is an edge not in the maximal tree.
-                let [_, j] = curr_factor.edge(); // get two ends of the edge
-                // add vertices (no edges will be added)
-                self.factor_pool
-                    .vertex_iter()
-                    .filter(|&v| v > curr_factor.terminal())
-                    .filter( |&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
-                    .for_each(|factor| factors_added.push(factor) ); 
-            }
+            // modify 'possible_factors' for the factors downstairs: add the vertices blocked by 'curr_factor' (no edges will be added)
+            self.factor_pool
+                .vertex_iter()
+                .skip(1) // the basepoint flows nowhere
+                .filter(|&v| v.is_disjoint_from(curr_factor) )
+                .filter(|&v| !v.flow(&self.factor_pool).terminal().is_disjoint_from(curr_factor) )
+                .for_each(|factor| factors_added.push(factor) ); 
 
             factors_added.iter().for_each( |&factor| possible_factors.add( factor ));
 
@@ -1392,8 +1387,7 @@ impl Complex for UdnMorseCplx {
         let mut boundary_maps = vec![Matrix::zero(1, self.ranks_of_chain_cplx[0])];
         (1..=self.dim).for_each(|i| boundary_maps.push(Matrix::zero(self.ranks_of_chain_cplx[i-1], self.ranks_of_chain_cplx[i])));
         let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
-        let zero_cell_idx = *self.final_branch_indeces.iter().find(|&&i| self.dim_of(i) == 0).unwrap();
-        basis[0].push( Cube::from_index(zero_cell_idx, self) );
+        basis[0] = self.get_cells_of_dim(0);
 
         // filling up the boundary maps
         for &i in self.final_branch_indeces.iter().filter(|&&i| self.dim_of(i) > 0 ) {
-- 
2.43.0


From 2ecd32774a09d1fd4499888e27b78defcd64a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 46/60] fix: the vertex inside an edge subdivided for two
 points does not lie on its end

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index a2f3f9b..14d0782 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1148,11 +1148,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From 72b0f3b0ab3123865f8480106303b2619245756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 47/60] fix: iterating over the edges does not start with an
 edge that is absent

---
 topo_spaces/src/graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 14d0782..cc66cd2 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1476,11 +1476,17 @@ impl<'a> Iterator for EdgeIter<'a> {
 impl<'a> RawSimpleGraph {
     pub fn edge_iter(&'a self) -> EdgeIter<'a> {
         let edge = (0, 1);
-        EdgeIter {
+        let mut iter = EdgeIter {
             graph: self,
             curr: edge,
             is_done: self.n_vertices() < 2,
+        };
+
+        // move on to the first edge when (0, 1) is not an edge of the graph
+        if !iter.is_done && !self.contains(edge.0, edge.1) {
+            iter.next();
         }
+        iter
     }
 
     pub fn vertex_iter(&'a self) -> VertexIter<'a> {
-- 
2.43.0


From 599a22816ed875b1f2341e32e12efaef1871748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 48/60] fix: a path whose moves all cancel is reduced to the
 trivial path

---
 topo_spaces/src/cubical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 8c9e0f7..93588c5 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1161,7 +1161,7 @@ impl EdgePath {
         Self(Vec::new())
     }
     pub fn reduce_to_geodesic(self) -> Self {
-        let mut out = vec![Vec::new()];
+        let mut out: Vec<Vec<[usize; 2]>> = Vec::new();
 
         let commute = |v: &[[usize; 2]], w: &[usize; 2]| -> bool {
             for i in v {
@@ -1207,6 +1207,8 @@ impl EdgePath {
                 } else {
                     out[i+1].push(step);
                 }
+            } else if out.is_empty() {
+                out.push(vec![step]);
             } else {
                 out[0].push(step);
             };
-- 
2.43.0


From f1db8a73443325bc7c01dc27c048542db91eca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 49/60] fix: the Delaunay triangulation covers the convex hull

---
 geom/src/lib.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index 75ae283..b2be350 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -56,26 +56,25 @@ impl Triangle {
 }
 
 pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>, Vec<[usize; 3]>) {
-    let original_points = {
-        let center = points.iter()
-            .fold(ConstVector::<f64, 2>::zero(), |accum, x| accum+*x )
-            / points.len() as f64;
-        let r = points.iter()
-            .map(|p| (*p-center).two_norm())
-            .max_by(|p, q| p.partial_cmp(q).unwrap())
-            .unwrap()
-             + 1_f64;
-        let p1 = center + ConstVector::<f64, 2>::from( [0_f64, 2.0*r] );
-        let p2 = center + ConstVector::<f64, 2>::from( [3_f64.sqrt()*r, -r] );
-        let p3 = center + ConstVector::<f64, 2>::from( [-3_f64.sqrt()*r, -r] );
-        [p1,p2,p3]
-    };
-    
-    let index = |i: usize| {
-        if i<points.len(){
-            points[i]
-        } else {
-            original_points[i-points.len()]
+    // The vertices of the initial triangle lie at infinity in these directions. Vertices at any finite
+    // distance would take part in circles that an edge of the convex hull needs to be empty.
+    let directions = [0, 1, 2].map(|i| {
+        let angle = 1_f64 + i as f64 * 2_f64 * std::f64::consts::PI / 3_f64;
+        ConstVector::<f64, 2>::from( [angle.cos(), angle.sin()] )
+    });
+    let cross = |v: ConstVector<f64, 2>, w: ConstVector<f64, 2>| v[0] * w[1] - v[1] * w[0];
+
+    // The circumcircle of a triangle (sorted indices) with vertices at infinity is a half plane.
+    let circum_circle_contains = |t: &[usize; 3], p: ConstVector<f64, 2>| {
+        match t.iter().filter(|&&i| i < points.len()).count() {
+            3 => Triangle::new([points[t[0]], points[t[1]], points[t[2]]]).circum_circle_contains(p),
+            2 => {
+                let a = points[t[0]];
+                let edge = points[t[1]] - a;
+                cross(edge, p - a) * cross(edge, directions[t[2]-points.len()]) > 0.0
+            },
+            1 => (p - points[t[0]]).dot(directions[t[1]-points.len()] + directions[t[2]-points.len()]) > 0.0,
+            _ => true,
         }
     };
 
@@ -85,8 +84,7 @@ pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>,
     for i in 0..points.len() {
         let mut bad_triangles = Vec::new();
         for &t in &triangulation {
-            let triangle = Triangle::new([index(t[0]), index(t[1]), index(t[2])]);
-            if triangle.circum_circle_contains(points[i]) {
+            if circum_circle_contains(&t, points[i]) {
                 bad_triangles.push( t );
             }
         }
-- 
2.43.0


From 01fd4276a1ce37f5aa8258d85d7199ff4000bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 50/60] fix: powers of the zero function are zero, and dividing
 by it is refused instead of giving zero

---
 analysis/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analysis/src/lib.rs b/analysis/src/lib.rs
index f73d91c..a4d6a4f 100644
--- a/analysis/src/lib.rs
+++ b/analysis/src/lib.rs
@@ -353,6 +353,11 @@ impl AtomicSmoothFn {
             return self;
         } else if exponent == 0 {
             return Self::One;
+        } else if self == Self::Zero {
+            if exponent < 0 {
+                panic!("cannot devide a function by zero!");
+            }
+            return self;
         }
 
         if let Self::Product(v) = self {
-- 
2.43.0


From 680ef06fa41d6f37d15383f466b32ee5749979f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 51/60] fix: sparse matrices are equal when their entries are,
 also when one is transposed

---
 alg/src/lin_alg.rs                    |  2 +-
 alg/src/lin_alg/sparse_matrix_impl.rs | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index d7e2dfa..f79c1b8 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -14,7 +14,7 @@ pub struct Matrix<T: PID> {
 
 pub struct SubMatrix<T: PID>([T]);
 
-#[derive(Clone, PartialEq, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseMatrix<T: PID> {
     rows: Vec<SparseNode<T>>,
     cols: Vec<SparseNode<T>>,
diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index e2cb8ce..aacfd06 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -186,6 +186,16 @@ impl<'a, T: PID> Iterator for Iter<'a, T> {
     }
 }
 
+// two matrices are equal if their entries are, however they are stored
+impl<T: PID> std::cmp::PartialEq for SparseMatrix<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.size() == other.size() && (0..self.size().0).all(|i| 
+            self.row_iter(i).filter(|(_, x)| **x != T::zero())
+                .eq(other.row_iter(i).filter(|(_, x)| **x != T::zero()))
+        )
+    }
+}
+
 impl<T: PID> std::cmp::PartialEq<Matrix<T>> for SparseMatrix<T> {
     fn eq(&self, other: &Matrix<T>) -> bool {
         if self.size() != other.size() {
-- 
2.43.0


From c5545ab9db7028c1854f60a59797f45296a80867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 52/60] fix: the last branch at a vertex ends with the subtree
 of the vertex, so that branches are ordered rightly

---
 topo_spaces/src/graph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index cc66cd2..6426505 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -880,8 +880,12 @@ impl RawSimpleGraph {
             if self.degree_of(i) <= 2 { continue; }
 
             // Now i is an essential vertex
+            // the branches at i end where the first vertex follows whose parent in the tree comes before i
+            let end_of_branches = (i+1..self.n_vertices())
+                .find(|&j| (i..j).all(|k| !self.contains(k, j)) )
+                .unwrap_or(self.n_vertices());
             let mut start = i+1;
-            let mut branches: Vec<_> = (i+2..self.n_vertices())
+            let mut branches: Vec<_> = (i+2..end_of_branches)
                 .filter(|&j| self.contains(i,j) )
                 .filter(|&j| self.maximal_tree_contains([i,j]) )
                 .map(|j| { 
@@ -894,13 +898,13 @@ impl RawSimpleGraph {
 
             // add the last branch
             {
-                let range = start..self.n_vertices();
-                let i_j_is_separating = (0..i).any(|k| (start..self.n_vertices()).any(|l| self.contains(k, l)));
+                let range = start..end_of_branches;
+                let i_j_is_separating = (0..i).any(|k| (start..end_of_branches).any(|l| self.contains(k, l)));
                 branches.push((range, i_j_is_separating));
             }
 
             // we order the branshes in such a way that any branch with the second element 'false' comes earlier than that with 'true';
-            let mut end = self.n_vertices();
+            let mut end = end_of_branches;
             let action = branches.iter()
                 .rev()
                 .filter(|&&(_, i_j_is_separating)| i_j_is_separating)
-- 
2.43.0


From a85040e65cafdc48cd69273ef1d45905bbc93d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 53/60] fix: derivatives of products with one factor do not
 contain an empty product, which is printed as nothing

---
 analysis/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analysis/src/lib.rs b/analysis/src/lib.rs
index a4d6a4f..bffdd74 100644
--- a/analysis/src/lib.rs
+++ b/analysis/src/lib.rs
@@ -330,7 +330,9 @@ impl AtomicSmoothFn {
                         let (coeff, basis) = clone.remove(0);
                         basis.powi(coeff)
                     } else {
-                        Self::Product(clone) * f.powi(e-1) * e as f64 * dfdn
+                        // without any other factor, the rest is 'One', not an empty product
+                        let rest = if clone.len() == 0 {Self::One} else {Self::Product(clone)};
+                        rest * f.powi(e-1) * e as f64 * dfdn
                     }
                 })
                 .filter(|f| f != &Self::Zero)
-- 
2.43.0


From a2662524d067ea584a09cd5fdbb5aeba636320cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 54/60] fix: eigenvectors of a repeated eigenvalue of a
 symmetric matrix are orthogonal to each other

---
 alg/src/lin_alg/matrix_impl.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 547e9b4..ad83ff3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1375,15 +1375,19 @@ impl Matrix<f64> {
 
     // Unit eigenvector for the computed eigenvalue 'lambda'.
     // Different values of 'seed' use different initial vectors, which are needed if 'lambda' is a multiple eigenvalue.
-    fn inverse_iteration(&self, lambda: f64, seed: usize) -> Matrix<f64> {
+    // The result is orthogonal to the columns of 'previous', which are orthonormal eigenvectors if 'self' is symmetric.
+    fn inverse_iteration(&self, lambda: f64, seed: usize, previous: &SubMatrix<f64>) -> Matrix<f64> {
         let n = self.size().0;
         let mut m = self.clone();
         for j in 0..n {
             m[(j,j)] -= lambda;
         }
 
-        // 'm' is singular up to rounding errors, so its pivots need to be kept away from zero
+        // move the eigenvalues of the previous eigenvectors away from 'lambda', so that the iteration does not find them again
         let norm = self.frobenius_norm();
+        m += previous * previous.transpose() * (3.0 * norm);
+
+        // 'm' is singular up to rounding errors, so its pivots need to be kept away from zero
         let smallest_pivot = f64::EPSILON * if norm == 0.0 { 1.0 } else { norm };
         let (order, _) = m.lu_with_partial_pivoting();
         for j in 0..n {
@@ -1400,6 +1404,11 @@ impl Matrix<f64> {
         for _ in 0..3 {
             out = m.solve_by_lu( &order, out );
             out /= out.two_norm();
+            for j in 0..previous.size().1 {
+                let update = &previous[(..,j)] * previous[(..,j)].transpose().dot(&out);
+                out -= update;
+            }
+            out /= out.two_norm();
         }
         out
     }
@@ -1448,7 +1457,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let update = self.inverse_iteration( lambda, i );
+            let update = self.inverse_iteration( lambda, i, &self[(.., 0..0)] );
             eigen_vectors[(.., i)].write_and_move( update );
         }
 
@@ -1500,7 +1509,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let update = self.inverse_iteration( lambda, i );
+            let update = self.inverse_iteration( lambda, i, &eigen_vectors[(.., 0..i)] );
             eigen_vectors[(.., i)].write_and_move( update );
         }
 
@@ -1523,7 +1532,7 @@ impl Matrix<f64> {
         for i in 0..n {
             let lambda = spectrum[(i,0)];
 
-            let update = self.inverse_iteration( lambda, i );
+            let update = self.inverse_iteration( lambda, i, &eigen_vectors[(.., 0..i)] );
             eigen_vectors[(.., i)].write_and_move( update );
         }
 
@@ -1539,7 +1548,7 @@ impl Matrix<f64> {
 
         // run the inverse iteration to get the eigenvector
         let lambda = spectrum[(n,0)];
-        let eigen_vectors = self.inverse_iteration( lambda, n );
+        let eigen_vectors = self.inverse_iteration( lambda, n, &self[(.., 0..0)] );
 
         (lambda, eigen_vectors)
     }
-- 
2.43.0


From 2a4c7b98c3fe4183d25db16c48cdcf62b61facb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 55/60] fix: Householder vectors of columns whose squares
 underflow

---
 alg/src/lin_alg/matrix_impl.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index ad83ff3..efa3929 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1293,7 +1293,16 @@ impl Matrix<f64> {
             panic!("this function takes a column vector only, but the input has size {:?}.", self.size());
         }
         
-        let a: f64 = self[(1.., 0)].transpose().dot( &self[(1.., 0)] );
+        // the output does not depend on the length of the input, and the squares of small entries may underflow
+        let scale = self.inf_norm();
+        if scale > 0.0 {
+            self /= scale;
+        }
+
+        let mut a: f64 = self[(1.., 0)].transpose().dot( &self[(1.., 0)] );
+        if a < 1e-150 {
+            a = 0.0;
+        }
         let b = self[(0,0)];
         self[(0,0)] = 1.0;
 
-- 
2.43.0


From 5e8ad995c77d603ccdcb2ed6e5ca9c89e73a6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 56/60] fix: convergence of the QR iterations does not depend
 on the scale of the matrix or on leftover rounding errors

---
 alg/src/lin_alg/matrix_impl.rs | 40 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index efa3929..842ac93 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1427,12 +1427,13 @@ impl Matrix<f64> {
             "Input to this function must be a square matrix."
         );
         let n = self.size().0;
+        let tolerance = 0.00000000001 * self.frobenius_norm();
         self.qr();
 
         let mut out = vec!{0_f64; n};
         let mut i=0;
         while i < n {
-            if i == n-1 || self[(i+1,i)].abs() < 0.00000000001 {
+            if i == n-1 || self[(i+1,i)].abs() < tolerance {
                 out[i] = self[(i,i)];
                 i+=1;
             } else {
@@ -1768,9 +1769,11 @@ impl SubMatrix<f64> {
         );
         let n = self.size().0;
 
-        // the shifts are the eigenvalues of the trailing 2x2 block: 's' is their sum and 't' is their product
-        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
-        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
+        // the shifts are the eigenvalues of the trailing 2x2 block: 's' is their sum and 't' is the value of
+        // its characteristic polynomial at the first diagonal entry
+        let (a, b, c) = (self[(n-2,n-2)], self[(n-1,n-1)], self[(0,0)]);
+        let s = a + b;
+        let t = (a-c)*(b-c) - self[(n-2,n-1)]*self[(n-1,n-2)];
         self.francis_step_with_shifts(s, t, return_op)
     }
 
@@ -1778,7 +1781,8 @@ impl SubMatrix<f64> {
     fn exceptional_francis_step(&mut self, return_op: bool) -> Matrix<f64> {
         let n = self.size().0;
         let w = self[(n-1,n-2)].abs() + self[(n-2,n-3)].abs();
-        self.francis_step_with_shifts(1.5*w, w*w, return_op)
+        let c = self[(0,0)];
+        self.francis_step_with_shifts(1.5*w, c*c - 1.5*w*c + w*w, return_op)
     }
 
     fn francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
@@ -1790,7 +1794,7 @@ impl SubMatrix<f64> {
             Matrix::identity(1)
         };
 
-        let mut x = self[(0,0)]*self[(0,0)] + self[(0,1)]*self[(1,0)] -s*self[(0,0)] + t;
+        let mut x = self[(0,1)]*self[(1,0)] + t;
         let mut y = self[(1,0)] * (self[(0,0)] + self[(1,1)] - s);
         let mut z = self[(1,0)]*self[(2,1)];
 
@@ -1803,6 +1807,11 @@ impl SubMatrix<f64> {
             self[(k..k+3, q..n)].write_and_move( 
                 update
             );
+            if k > 0 {
+                // only rounding errors are left here
+                self[(k+1, k-1)] = 0.0;
+                self[(k+2, k-1)] = 0.0;
+            }
 
             let r = if k<n-3 { k+4 } else { n };
             let update = &self[(0..r, k..k+3)] -
@@ -1827,6 +1836,7 @@ impl SubMatrix<f64> {
         let update = &self[(n-2..n, n-3..n)] -
             v * (v.transpose() * &self[(n-2..n, n-3..n)] * b);
         self[(n-2..n, n-3..n)].write_and_move( update );
+        self[(n-1, n-3)] = 0.0;
 
         let update = &self[(0..n, n-2..n)] -
             (&self[(0..n, n-2..n)] * v) * (v.transpose()*b);
@@ -1860,7 +1870,9 @@ impl SubMatrix<f64> {
 
         let mut op = self.raw_hessenberg_form(returns_op);
 
+        // the rounding errors are proportional to the entries, so the entries to be regarded as zero are too
         let tolerance = 0.000000000000001;
+        let negligible = 10.0 * tolerance * self.frobenius_norm();
         let mut q=0;
         let mut p;
         let mut n_steps = 0; // the number of steps since the last deflation
@@ -1874,13 +1886,13 @@ impl SubMatrix<f64> {
 
             let prev_q = q;
             q = (0..n-2)
-                .find( |&i| self[(n-i-1,n-i-2)].abs()>tolerance && self[(n-i-2,n-i-3)].abs()>tolerance )
+                .find( |&i| self[(n-i-1,n-i-2)].abs()>negligible && self[(n-i-2,n-i-3)].abs()>negligible )
                 .unwrap_or(n);
             n_steps = if q == prev_q { n_steps + 1 } else { 0 };
 
             p = (1..n-q)
                 .rev()
-                .find(|&i| self[(i,i-1)].abs()<tolerance )
+                .find(|&i| self[(i,i-1)].abs()<=negligible )
                 .unwrap_or(0);
 
             if q<n {
@@ -2006,6 +2018,11 @@ impl SubMatrix<f64> {
             self[(i..i+2, start..end)].write(&update);
             let update = &self[(start..end, i..i+2)] * givens;
             self[(start..end, i..i+2)].write(&update);
+            if i > 0 {
+                // only rounding errors are left here
+                self[(i+1, i-1)] = 0.0;
+                self[(i-1, i+1)] = 0.0;
+            }
 
 
             if i < n-2 {
@@ -2023,7 +2040,8 @@ impl SubMatrix<f64> {
 
     pub fn symmetric_qr(&mut self, with_op: bool) -> Matrix<f64> {
         let n = self.size().0;
-        let tolerance = 0.0000000001;
+        // the rounding errors are proportional to the entries, so the entries to be regarded as zero are too
+        let tolerance = 0.0000000000001 * self.frobenius_norm();
         let mut op = Matrix::identity(n);
         self.householder_tridiagonalization(with_op);
         if with_op && n > 2 {
@@ -2041,7 +2059,7 @@ impl SubMatrix<f64> {
         let mut q=0;
         while q<n {
             for i in 0..n-1 {
-                if self[(i+1,i)].abs()<tolerance{
+                if self[(i+1,i)].abs()<=tolerance{
                     self[(i+1, i)] = 0.0;
                     self[(i, i+1)] = 0.0;
                 }
@@ -2053,7 +2071,7 @@ impl SubMatrix<f64> {
 
             let p = (1..n-q)
                 .rev()
-                .find(|&i| self[(i,i-1)].abs()<tolerance )
+                .find(|&i| self[(i,i-1)].abs()<=tolerance )
                 .unwrap_or(0);
 
             if q<n {
-- 
2.43.0


From d38e7574fe4f3b91f37304af615e838423a2e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:23 +0000
Subject: [PATCH 57/60] fix: a refused simplex leaves no vertices behind

---
 topo_spaces/src/simplicial/mod_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 08a8dfb..312109c 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -187,6 +187,11 @@ impl<T: VertexLabel> SimplicialCplx<T>
     }
 
     pub fn attach(&mut self, simplex: Simplex<T>){
+        // refuse the prohibited simplices before anything is changed
+        let labels = &simplex.vertices_labels;
+        assert!( !labels.is_empty(), "A simplex must have at least one vertex." );
+        assert!( (1..labels.len()).all(|i| !labels[..i].contains(&labels[i])), "The vertices of a simplex must be distinct." );
+
         // add vertices to the complex if necessary
         for v_label in simplex.vertices_labels.iter() {
             if !self.vertices_labeling.contains(&v_label) {
-- 
2.43.0


From 0295cd044cd4bc9ea32ae6c22ecd7018e895a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:28 +0000
Subject: [PATCH 58/60] fix: normal form of the elements of a field, so that
 modules over fields have no torsion

---
 alg/src/commutative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index bf58eb7..a340535 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -181,7 +181,8 @@ macro_rules! pid_impl_for_fields {
             fn n_prime_factors(self) -> usize { 1 }
             fn euclid_div(self, d: Self) -> (Self, Self) { (self/d, Self::zero()) }
             fn simplify(self) -> (Self, Self) { 
-                (<$t>::one(), self)
+                // every element except zero is a unit
+                if self == <$t>::zero() { (<$t>::one(), self) } else { (self, <$t>::one()) }
             }
         }
     )*)
-- 
2.43.0


From 27bbe7b61e4816ab724db6399c9307f64abdcfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:02 +0000
Subject: [PATCH 59/60] fix: dropping a sparse matrix with a long line does not
 exhaust the stack

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index aacfd06..76af712 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -109,6 +109,21 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
 
 
+// the entries of a line are released one after the other, as releasing them recursively exhausts the stack if the line is long
+impl<T: PID> Drop for SparseMatrix<T> {
+    fn drop(&mut self) {
+        let mut nodes: Vec<_> = self.rows.drain(..).chain(self.cols.drain(..))
+            .filter_map(|node| if let SparseNode::Start(_, first) = node { Some(first) } else { None })
+            .collect();
+        while let Some(node) = nodes.pop() {
+            if let Some(SparseNode::Entry(_, _, (right, below))) = Rc::into_inner(node) {
+                nodes.push(right);
+                nodes.push(below);
+            }
+        }
+    }
+}
+
 pub struct Iter<'a, T: PID> {
     data: &'a SparseNode<T>,
     is_done: bool,
-- 
2.43.0


From 42486c26f02da00b483bfe00d76521466441ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:02 +0000
Subject: [PATCH 60/60] fix: neighbours of a vertex are iterated without
 recursion, which exhausted the stack in large graphs

---
 topo_spaces/src/graph.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 6426505..59b9a22 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -450,26 +450,24 @@ impl<'a> Iterator for AdjacentVerticesIter<'a> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.curr >= self.raw_graph.n_vertices() { return None; }
+        while self.curr < self.raw_graph.n_vertices() {
+            let mut out = None;
 
-        let mut out = None;
-
-        if self.vertex < self.curr {
-            if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.vertex, self.curr)) {
-                out = Some(self.curr);
-            }
-        } else if self.vertex > self.curr {
-            if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.curr, self.vertex)) {
-                out = Some(self.curr);
+            if self.vertex < self.curr {
+                if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.vertex, self.curr)) {
+                    out = Some(self.curr);
+                }
+            } else if self.vertex > self.curr {
+                if self.raw_graph.data.contains(RawSimpleGraph::raw_idx(self.curr, self.vertex)) {
+                    out = Some(self.curr);
+                }
             }
-        }
 
-        self.curr += 1;
-        if out == None {
-           self.next()
-        } else {
-            out
+            self.curr += 1;
+            if out != None { return out; }
         }
+
+        None
     }
 }
 
-- 
2.43.0

