From 23e0a13a2ba3e8d6a3dd5693e093bdbae1632cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 001/103] fix: extra reduction must also process the first
 stored entry of a column

A column with a single stored entry never got a pivot, so reductions with
extra_reduction_flag could leave two columns with the same lowest entry.
---
 include/homology/parallel.hpp  | 2 +-
 include/homology/reduction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index f14902e..c4c3b67 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -208,7 +208,7 @@ void reduce_column_extra(
 ) {
 	size_t end_offset = 1;
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// piv is index-value nzpair
 
 		if (p2c.count(piv->ind) > 0) {
diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 2505f7b..7750e56 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -96,7 +96,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M) {
 		bool found_pivot = false;
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
@@ -194,7 +194,7 @@ p2c_type reduce_matrix_extra(ColumnMatrix<TVec> &M, ColumnMatrix<TVec> &U) {
 	for (size_t j = 0; j < M.ncol(); j++) {
 		size_t end_offset = 1;
 		auto piv = M[j].nzend() - end_offset; // nonzero location
-		while(piv - M[j].nzbegin() > 0) {
+		while(piv - M[j].nzbegin() >= 0) {
 			// while the nonzero we are looking at is in the vector
 			// piv is index-value nzpair
 			// auto piv = M[j].lastnz();
-- 
2.43.0


From 194090ededa09481ec02caa4271c064e7d12155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 002/103] fix: partial_reduce_parallel ran past the last column
 on narrow matrices

n - block_size wraps around when the matrix has fewer columns than a block,
and the last block was skipped otherwise.
---
 include/homology/parallel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/homology/parallel.hpp b/include/homology/parallel.hpp
index c4c3b67..d417d6a 100644
--- a/include/homology/parallel.hpp
+++ b/include/homology/parallel.hpp
@@ -353,8 +353,8 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
-		reduce_block_sequential(M, j, j+block_size);
+	for (size_t j = 0; j < n; j+=block_size) {
+		reduce_block_sequential(M, j, std::min(j+block_size, n));
 	}
 	return;
 }
@@ -374,8 +374,8 @@ void partial_reduce_parallel(
 	size_t n = M.ncol();
 
 	#pragma omp parallel for
-	for (size_t j = 0; j < n-block_size; j+=block_size) {
-		reduce_block_sequential(M, U, j, j+block_size);
+	for (size_t j = 0; j < n; j+=block_size) {
+		reduce_block_sequential(M, U, j, std::min(j+block_size, n));
 	}
 	return;
 }
-- 
2.43.0


From 215dd61d9d034b04f26172910ae20deafc935e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 003/103] fix: do not read the offset table at -1 when
 finishing a light simplex boundary

---
 include/complex/light_simplicial_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 8be9b52..1a93b35 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -103,7 +103,7 @@ private:
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
 			index_type face = before + after;
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			// prepare for next iteration
 			c = -c;
@@ -119,7 +119,7 @@ private:
 		simplex_boundary_iterator& operator++() {
 			index_type v = before / p->offset(i);
 			before = before % p->offset(i);
-			after += v * p->offset(i-1);
+			if (i > 0) { after += v * p->offset(i-1); }
 
 			c = -c;
 			i--;
-- 
2.43.0


From 4706820db37774376cc0534496f2f0e3569edae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 004/103] fix: apparent-pair preprocessing compressed columns
 that are not negative

Seeing a pivot for the first time among unreduced columns does not make the
column an apparent pair: an earlier column can reduce to the same pivot.  Only
compress a column when no earlier column touches its pivot row.
---
 include/chain/chain_complex.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 1109584..9c3da3e 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -344,12 +344,14 @@ template <typename Information_type>
 
 		std::vector<bool> comp_inds;
 		std::vector<bool> clear_inds;
+		std::vector<bool> seen_rows; // rows with a nonzero in an earlier column
 		for (size_t dim = 1; dim < maxdim() + 1; ++dim) {
 			// prepare clearing and compression indices
 			clear_inds.resize(boundary[dim].nrow());
 			std::fill(clear_inds.begin(), clear_inds.end(), false);
 			comp_inds.resize(boundary[dim].ncol());
 			std::fill(comp_inds.begin(), comp_inds.end(), false);
+			seen_rows.assign(boundary[dim].nrow(), false);
 			// look at pivots to determine clearing/compression inds
 			for (size_t j = 0; j < boundary[dim].ncol(); ++j) {
 				auto it = boundary[dim][j].nzend();
@@ -357,12 +359,13 @@ template <typename Information_type>
 				if (it != boundary[dim][j].nzbegin()) {
 					--it; // point to last nonzero
 					size_t i = it->ind; // pivot index
-					if (!clear_inds[i]) {
-						// this is the first time we have seen this pivot
-						// mark j as a compression ind
-						comp_inds[j] = true;
-						// mark i as a clearing ind
-						clear_inds[i] = true;
+					// i is the pivot of some column, so it is a clearing ind
+					clear_inds[i] = true;
+					// column j can only be marked as a compression ind
+					// if no earlier column has a nonzero in row i
+					if (!seen_rows[i]) { comp_inds[j] = true; }
+					for (auto jt = boundary[dim][j].nzbegin(); jt != boundary[dim][j].nzend(); ++jt) {
+						seen_rows[jt->ind] = true;
 					}
 				}
 			}
-- 
2.43.0


From 90fabce2bd1bdd6cf07e8ae804fc80d2764dd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 005/103] fix: drop coefficients that vanish in the field when
 converting integer columns

A cell whose integer boundary coefficient is divisible by the characteristic
left an explicit zero in the column, and reduction then divided by it.
---
 include/linalg/sparse_vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c9737c5..c29ab2b 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -110,7 +110,8 @@ public:
 	SparseVector(const SparseVector<int, TI2> &other) {
 		indval.reserve(other.nnz());
 		for (auto it = other.nzbegin(); it < other.nzend(); ++it) {
-			indval.emplace_back(key_type((*it).ind, (*it).val));
+			TV v((*it).val);
+			if (!(v == TV(0))) { indval.emplace_back(key_type((*it).ind, v)); }
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
@@ -135,7 +136,9 @@ public:
 	SparseVector(IT1 indit, IT2 valit, size_t n) {
 		indval.reserve(n);
 		for (size_t i = 0; i < n; i++) {
-			indval.emplace_back(key_type(TI(*indit++), TV(*valit++)));
+			TI ind(*indit++);
+			TV v(*valit++);
+			if (!(v == TV(0))) { indval.emplace_back(key_type(ind, v)); }
 		}
 		#ifdef BATS_DEBUG
 		check_sorted();
-- 
2.43.0


From ea638519c1ff34480d2959350fee2e2d73e48274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 006/103] fix: reduce integers below -P correctly in ModP
 construction and comparison

---
 include/linalg/field.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6179c45..8ddfed6 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -89,11 +89,17 @@ private:
   // Check whether P is prime before compiling
   static_assert(isprime(P), "not prime!");
 
+  // representative of v in [0, P).  v may be any value of IntT
+  static inline IntT residue(const IntT v) {
+    IntT r = v % IntT(P);
+    return r < 0 ? r + IntT(P) : r;
+  }
+
 public:
 
 
   ModP() : val(0) {}
-  ModP(IntT val) : val((val + P) % P) {}
+  ModP(IntT val) : val(residue(val)) {}
 
   inline IntT to_int() const { return val; }
 
@@ -158,11 +164,11 @@ public:
   }
 
   inline bool operator==( const int b) const {
-    return ((b - val + P) % P) == 0;
+    return val == ModP(b).val;
   }
 
   inline bool operator!=( const int b) const {
-    return ((val - b + P) % P) != 0;
+    return val != ModP(b).val;
   }
 
   inline bool operator<( const ModP &b) const {
-- 
2.43.0


From 16715c99f546f98de5cf920a3870439fccf264b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 007/103] fix: F2 assignment from and inequality with plain
 integers

---
 include/linalg/field.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 8ddfed6..997af1d 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -337,11 +337,12 @@ public:
   }
 
   inline bool operator!=( const int b) const {
-    return (val & 0x1) != b;
+    return (val & 0x1) != (b & 0x1);
   }
 
-  ModP operator=(const int &a) {
-    return ModP(a);
+  ModP& operator=(const int &a) {
+    val = a;
+    return *this;
   }
 
   bool iszero() const {
-- 
2.43.0


From 0d55401bffe8d662b014c74c487348938b10765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 008/103] fix: in-place rational division by itself

---
 include/linalg/field.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 997af1d..6da51a7 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -479,8 +479,9 @@ public:
 
   Rational& operator/=( const Rational &b) {
     if (b.n == 0) {throw std::runtime_error("Division by zero!");}
+    const IntT bn = b.n; // b may be *this
     n *= b.d;
-    d *= b.n;
+    d *= bn;
     reduce();
     return *this;
   }
-- 
2.43.0


From 3a64ea306e0afa64e79d04feba35a99ac6449ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 009/103] fix: SparseVector::set_block erased the entry just
 past the block

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index c29ab2b..b9cf643 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -471,7 +471,7 @@ public:
 	) {
 
 		// first delete all entries in the range
-		indval.erase(lower_bound(i0), upper_bound(i1));
+		indval.erase(lower_bound(i0), lower_bound(i1));
 
 		// now insert the elements in b
 		auto it = lower_bound(i0);
-- 
2.43.0


From caa547f97af6d1f2777fd8337658329aec382b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 010/103] fix: scaling a sparse vector by zero left explicit
 zeros

---
 include/linalg/sparse_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index b9cf643..78c3433 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1150,6 +1150,7 @@ public:
 
 	// scale vector by c
 	void scale_inplace(const TV c) {
+		if (c == TV(0)) { clear(); return; }
 		auto it = nzbegin();
 		while (it != nzend()) {
 			it->val = it->val * c;
-- 
2.43.0


From 526db9b18593ece77fac278f8439182ffb0fff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 011/103] fix: coefficient axpy ignores unselected entries and
 drops zero products

---
 include/linalg/sparse_vector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 78c3433..7f6d857 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1083,7 +1083,10 @@ public:
 		// std::vector<key_type> tmp;
 		tmp.clear();
 		while (i1 != indval.cend() && i2 != x.nzend() && ii < inds.size()) {
-			if (ii < i1->ind  && inds[ii] < i2->ind) {
+			if (i2->ind < inds[ii]) {
+				// entry of x that is not selected
+				++i2;
+			} else if (ii < i1->ind  && inds[ii] < i2->ind) {
 				// need to increment ii until something happens
 				++ii;
 			} else if (i1->ind == ii && inds[ii] < i2->ind) {
@@ -1120,10 +1123,15 @@ public:
 			++i1;
 		}
 		while (i2 != x.nzend() && ii < inds.size()) {
-			if (inds[ii] < i2->ind) {
+			if (i2->ind < inds[ii]) {
+				++i2;
+			} else if (inds[ii] < i2->ind) {
 				++ii;
 			} else {
-				tmp.push_back(key_type(ii, coeff[ii] * (i2->val)));
+				TV val = (coeff[ii] * (i2->val));
+				if (val != TV(0)) {
+					tmp.push_back(key_type(ii, val));
+				}
 				++i2;
 				++ii;
 			}
-- 
2.43.0


From 4ac95a32d83c1c9881677a9e77e54c8d1c33e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 012/103] fix: SparseVector::find_last_nz stepped before the
 first entry and missed the last one

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 7f6d857..f97ad85 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -393,7 +393,7 @@ public:
 			key_type(i, TV(0))
 		);
 		// if there is no element with index < i, return pointer to end
-		return it == indval.cend() ? it : --it;
+		return it == indval.cbegin() ? indval.cend() : --it;
 		//return it--;
 	}
 
-- 
2.43.0


From 36c512180b696d7932d2feeb2cf8a4a57aa91ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 013/103] fix: SparseVector::insert_rows read past the end of
 the list of row indices

---
 include/linalg/sparse_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index f97ad85..17da640 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -689,7 +689,7 @@ public:
 			// iv's indices needs to add up the number of indices in r_inds before iv
 			iv->ind += std::distance(r_inds.begin(), it_r_inds);
 			// add up other indices
-			while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end()) {++it_r_inds; iv->ind++;}
+			while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind) {++it_r_inds; iv->ind++;}
 			// go to the next element in indval
 			++iv;
 		}
@@ -727,7 +727,7 @@ public:
 			iv->ind += ninserted; // this is number inserted to this index
 
 			// insert additional rows as necessary
-			while (*ri <= iv->ind && ri != r_inds.end()) {++ri; iv->ind++; ++ninserted; }
+			while (ri != r_inds.end() && *ri <= iv->ind) {++ri; iv->ind++; ++ninserted; }
 
 			++iv;
 		}
-- 
2.43.0


From ac0bb4ac105c1dbd4fbf87aed77e0822c21d2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 014/103] fix: SparseVector::mix_rows inserted through an
 iterator invalidated by erase

---
 include/linalg/sparse_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 17da640..3bbd490 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -655,7 +655,10 @@ public:
 			} else {
 				indval.erase(pj);
 			}
-			if (b*vj != 0) indval.insert(pi, key_type(i, b*vj));
+			if (b*vj != 0) {
+				pi = lower_bound(i); // erase invalidates pi
+				indval.insert(pi, key_type(i, b*vj));
+			}
 
 		}
 	}
-- 
2.43.0


From c5530972a76a0c5f5efb822de3bd531410bae598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 015/103] fix: SparseVector::ipermute applied the permutation
 instead of its inverse

---
 include/linalg/sparse_vector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index 3bbd490..a2a4fc1 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -421,11 +421,9 @@ public:
 
 	// apply inverse permutation in-place
 	// O(nz log nz) where nz is #non-zeros
+	// index perm[i] maps to i
 	void ipermute(const std::vector<size_t>  &perm) {
-		for (size_t i = 0; i < nnz(); i++) {
-			indval[i].ind = perm[indval[i].ind];
-		}
-		sort();
+		permute(bats::util::inv_perm(perm));
 	}
 
 	// return subvector based on indices pind
-- 
2.43.0


From e2f1443dbd1c0fa7c3329e679519ef92fb97caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 016/103] fix: SparseVector::tensor recursed without end

---
 include/linalg/sparse_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/sparse_vector.hpp b/include/linalg/sparse_vector.hpp
index a2a4fc1..c8b5232 100755
--- a/include/linalg/sparse_vector.hpp
+++ b/include/linalg/sparse_vector.hpp
@@ -1251,5 +1251,5 @@ public:
 		}
 		return SparseVector(nzs);
 	}
-	inline SparseVector tensor(const SparseVector& other, size_t m) const {return tensor(other, m);}
+	inline SparseVector tensor(const SparseVector& other, size_t m) const {return kron(other, m);}
 };
-- 
2.43.0


From 7e62876484057110d71335dd40d42a7a38dbdcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 017/103] fix: matrix tensor_product did not compile and paired
 the wrong columns

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index ca20dde..a6d930c 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -1079,7 +1079,7 @@ public:
 		std::vector<TC> newcol;
 		for (size_t i = 0; i < An; i++) {
 			for (size_t j = 0; j < Bn; j++) {
-				newcol.emplace_back(A[j].tensor(B[j]));
+				newcol.emplace_back(A[i].kron(B[j], Bm));
 			}
 		}
 		return ColumnMatrix(Am * Bm, An * Bn, newcol);
-- 
2.43.0


From 61d1b715904514bc29e5d818de301205885388ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 018/103] fix: ColumnMatrix subtraction returned B - A

---
 include/linalg/col_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index a6d930c..935c873 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -759,9 +759,9 @@ public:
     }
 
     ColumnMatrix operator-(const ColumnMatrix &B) const {
-        ColumnMatrix C(B); // copy constructor
+        ColumnMatrix C(*this); // copy constructor
         for (size_t j = 0; j < n; j++) {
-            C.col[j].axpy(-1, col[j]);
+            C.col[j].axpy(-1, B.col[j]);
         }
         return C;
     }
-- 
2.43.0


From cb797841c2c58788e4a2a12729918914740f4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 019/103] fix: inserting a zero column permuted the columns the
 wrong way

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 935c873..f8fc4ff 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -203,7 +203,7 @@ public:
 			if (i > index) j = i-1;
 			colperm.emplace_back(j);
 		}
-		permute_cols(colperm);
+		ipermute_cols(colperm);
 	}
 
 	/**
-- 
2.43.0


From 49b1f875d231f35fe338b500dd25312ea3f7e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 020/103] fix: inserting sparse rows misplaced every row after
 the first

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index f8fc4ff..e6167c3 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -388,7 +388,7 @@ public:
 		size_t i = 0; // permutation index
 		while (i1 < r_inds.size() && i < m) {
 			// insert rows until we get to an insertion index
-			while (r_inds[i1] > i0) {
+			while (r_inds[i1] > i) {
 				rperm[i++] = i0++;
 			}
 			// insert index
-- 
2.43.0


From 3296ae41bffb9546c2f87cdf4fd12c19f49ba26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 021/103] fix: inserting rows given by indices and values
 inserted zero rows in the wrong columns

---
 include/linalg/col_matrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index e6167c3..25ec19d 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -333,11 +333,12 @@ public:
 		const std::vector<std::vector<size_t>>& r_col_inds,
 		const std::vector<std::vector<val_type>>& r_col_vals
 	) {
+		std::vector<TC> rows;
+		rows.reserve(r_inds.size());
 		for (size_t i = 0; i < r_inds.size(); i++){
-			for (size_t j= 0; j < r_col_inds.size(); j++){
-				col[j].insert_rows({r_col_inds[i][j]}, {r_col_vals[i][j]});
-			}
+			rows.emplace_back(TC(r_col_inds[i], r_col_vals[i]));
 		}
+		insert_rows(r_inds, rows);
 	}
 
 	// insert a zero row
-- 
2.43.0


From 13797f179eab0c67797bfdce41e972253d959187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 022/103] fix: insert_sparse_rows read past the end of the row
 indices

---
 include/linalg/col_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index 25ec19d..e67037d 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -311,7 +311,7 @@ public:
 			// or faster option by std::lower_bound
 			auto it_r_inds = std::lower_bound(r_inds.begin(), r_inds.end(), j);
 			j += std::distance(r_inds.begin(), it_r_inds);
-			while (*it_r_inds <= j && it_r_inds != r_inds.end()) {
+			while (it_r_inds != r_inds.end() && *it_r_inds <= j) {
 				++it_r_inds;
 				j++;
 			}
-- 
2.43.0


From 6da0d29672740a19878365c23589d9ed765ca4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 023/103] fix: is_upper_invert accepted zero columns and
 non-square matrices

---
 include/linalg/col_matrix.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index e67037d..eb50ff1 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -918,14 +918,12 @@ public:
 
 	// tests to see if matrix is invertible and upper-triangular
 	bool is_upper_invert() const {
+		if (m != n) { return false; }
 		for (size_t j = 0; j < n; ++j) {
 			auto iv = col[j].nzend();
-			if (iv != col[j].nzbegin()) {
-				--iv;
-				if (iv->ind != j) {
-					return false;
-				}
-			}
+			if (iv == col[j].nzbegin()) { return false; }
+			--iv;
+			if (iv->ind != j) { return false; }
 		}
 		return true;
 	}
-- 
2.43.0


From 17dd8e22ab6fcbd73c225e9325d23c91d1c97117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 024/103] fix: schur_complement did not compile

---
 include/linalg/col_matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/linalg/col_matrix.hpp b/include/linalg/col_matrix.hpp
index eb50ff1..dc259bf 100755
--- a/include/linalg/col_matrix.hpp
+++ b/include/linalg/col_matrix.hpp
@@ -859,10 +859,11 @@ public:
 	// schur complement of i,j entry
 	inline void schur_complement(size_t i, size_t j) {
 		auto a11 = col[j][i];
+		tmp_type tmp; // for use with axpy
 		for (size_t j1 = j+1; j1 < n; j1++) {
 			auto c = col[j1][i];
 			if (c != 0) {
-				col[j1].axpy(-c / a11, col[j], i+1, m);
+				col[j1].axpy(-c / a11, col[j], i+1, m, tmp);
 			}
 		}
 	}
-- 
2.43.0


From 42b0923f65d81a423c8dad92ad685afc7e99e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 025/103] fix: sort_sum_reduce read past the end on an empty
 range

---
 include/util/sorted.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index c8c8dcd..ccf4368 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -155,6 +155,8 @@ void sort_sum_reduce(
     std::vector<TI> &tmpind,
     std::vector<TV> &tmpval
 ) {
+    if (ind.size() <= offset) { return; } // nothing to sort
+
     // sort ind and val simultaneously
     fill_sortperm(ind.cbegin() + offset, ind.cend(), perm);
     apply_perm(ind.data() + offset, tmpind, perm);
-- 
2.43.0


From 55b97fd15b8ba632450856123419158eba0f4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 026/103] fix: CSC block_select ignored which columns were
 selected

---
 include/linalg/csc_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/csc_matrix.hpp b/include/linalg/csc_matrix.hpp
index 021ca48..fbc3340 100755
--- a/include/linalg/csc_matrix.hpp
+++ b/include/linalg/csc_matrix.hpp
@@ -193,7 +193,7 @@ public:
         // loop in column permutation order
         for ( size_t Mj : cind) {
             // loop over nzs in the jth column of M
-            for (size_t Mp = M.colptr[j]; Mp < M.colptr[j+1]; Mp++) {
+            for (size_t Mp = M.colptr[Mj]; Mp < M.colptr[Mj+1]; Mp++) {
                 if (prow[M.rowind[Mp]] != bats::NO_IND) {
                     // this item makes it to the block
                     A.rowind.emplace_back(prow[M.rowind[Mp]]);
-- 
2.43.0


From 226a9c3d4222b1f203c0584f2b747a1a645f7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 027/103] fix: Schur complements of column matrices did not
 compile and misplaced off-diagonal pivot blocks

---
 include/linalg/schur.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/linalg/schur.hpp b/include/linalg/schur.hpp
index e551c9c..289d02c 100755
--- a/include/linalg/schur.hpp
+++ b/include/linalg/schur.hpp
@@ -42,7 +42,7 @@ ColumnMatrix<CT> schur(
     // C.print_size();
     // D.print_size();
     // std::cout << "solve" << std::endl;
-    MT S = solve_U(A, B); // S <- A \ B
+    MT S = u_solve(A, B); // S <- A \ B
     MT R = C * S;         // R <- C * S = C * A \ B
     return D - R;         // D - R = D - C * A \ B
 }
@@ -110,26 +110,26 @@ auto schur(
     // now construct the matrices for return
     auto L1 = ColumnMatrix<TV>::identity(m);
     // set 32 block to L32
-    L1.set_block(i1, m, j0, j1, L32);
+    L1.set_block(i1, m, i0, i1, L32);
 
     auto U1 = ColumnMatrix<TV>::identity(m);
     // set 12 block to U12
-    U1.set_block(0, i0, j0, j1, U12);
+    U1.set_block(0, i0, i0, i1, U12);
 
     auto L2 = ColumnMatrix<TV>::identity(n);
     // set 21 block to L21
-    L2.set_block(i0, i1, 0, j0, L21);
+    L2.set_block(j0, j1, 0, j0, L21);
 
     auto U2 = ColumnMatrix<TV>::identity(n);
     // set 23 block to U23
-    U2.set_block(i0, i1, j1, n, U23);
+    U2.set_block(j0, j1, j1, n, U23);
 
     ColumnMatrix<TV> AS(m,n);
     AS.set_block(0, i0, 0, j0, S11);
     AS.set_block(0, i0, j1, n, S13);
     AS.set_block(i0, i1, j0,j1, A22);
     AS.set_block(i1, m, 0, j0, S31);
-    AS.set_blcok(i1, m, j1, n, S33);
+    AS.set_block(i1, m, j1, n, S33);
 
     return std::tuple(L1, U1, AS, L2, U2);
 }
-- 
2.43.0


From beb03a1b59a1cc64bb03dbca266d2c46bb375440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 028/103] fix: permuting a chain complex that has only vertices
 accessed boundary[1]

---
 include/chain/chain_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 9c3da3e..9511f15 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -124,7 +124,7 @@ struct ChainComplex {
 	void permute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(perm);
+			if (maxdim() > 0) { boundary[1].permute_rows(perm); }
 		} else if (k == maxdim()) {
 			boundary[k].permute_cols(perm);
 			// only worry about boundary[maxdim()]
@@ -146,7 +146,7 @@ struct ChainComplex {
 	void ipermute_basis(size_t k, const std::vector<size_t> &perm) {
 		if (k == 0) {
 			// only worry about boundary[1]
-			boundary[1].permute_rows(bats::util::inv_perm(perm));
+			if (maxdim() > 0) { boundary[1].permute_rows(bats::util::inv_perm(perm)); }
 		} else if (k == maxdim()) {
 			boundary[k].ipermute_cols(perm);
 			// only worry about boundary[maxdim()]
-- 
2.43.0


From 9bc3e727591c457a97101375ebc3782fd1feffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 029/103] fix: permuting the basis of a reduced complex that
 has only vertices accessed R[1]

---
 include/homology/basis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 649af14..cacc3e3 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -293,7 +293,7 @@ public:
 		auto iperm = bats::util::inv_perm(perm);
 		if (k == 0) {
 			// only worry about boundary[1]
-			R[1].permute_rows(iperm);
+			if (maxdim() > 0) { R[1].permute_rows(iperm); }
 		} else if (k == maxdim()) {
 			// only need to worry about rows of U[k]
 			U[k].permute_rows(iperm); // inverse perm here
-- 
2.43.0


From ceeba53822cb00b5b5615ab3c5116d5282d16417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 030/103] fix: representatives and normal forms of graded
 spaces of degree +1 used the wrong differentials

---
 include/homology/dgbasis.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 94ab1b2..18074fb 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -278,7 +278,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV to_hom_basis(const TV &v, size_t k) const {
-		return u_solve(U[k], v);
+		return u_solve(U[(degree == -1) ? k : k+1], v);
 	}
 
 	/**
@@ -286,7 +286,7 @@ public:
 	*/
 	template <typename TV>
 	inline TV from_hom_basis(const TV &v, size_t k) const {
-		return U[k] * v;
+		return U[(degree == -1) ? k : k+1] * v;
 	}
 
 
@@ -296,7 +296,8 @@ public:
 		const size_t j,
 		const size_t k
 	) const {
-		return U[k][I[k][j]];
+		size_t k_ind = (degree == -1) ? k : k+1;
+		return U[k_ind][I[k_ind][j]];
 	}
 
 	// modify y in-place to be preferred representative for homology class in dimension k
@@ -305,9 +306,11 @@ public:
 		vect_type &y,
 		size_t k
 	) const {
-		int dg_offset = (degree == -1) ? 0 : 1;
-		k += dg_offset;
-		if (k == R.size()-1) {
+		// index of the differential into dimension k
+		size_t kin = (degree == -1) ? k+1 : k;
+		// index of the differential out of dimension k
+		k = (degree == -1) ? k : k+1;
+		if (kin == R.size()) {
 			// all cycles generate homology, so nothing to do
 			return;
 		}
@@ -315,18 +318,18 @@ public:
 		// else we need to find the preferred representative
 		// const ColumnMatrix<TVec> &bdry,
 		// const p2c_type &p2c
-		size_t j = R[k+1].nrow();
+		size_t j = R[kin].nrow();
 		auto yit = y.upper_bound(j); // find iterator past last nonzero
 		while (yit != y.nzbegin()) {
 			--yit;
 			j = yit->ind;
 			// find if j is a pivot of bdry
-			// if (p2c[k+1].count(j) > 0) {
-			if (p2c[k+1][j] != bats::NO_IND) {
-				auto i = p2c[k+1].at(j);
+			// if (p2c[kin].count(j) > 0) {
+			if (p2c[kin][j] != bats::NO_IND) {
+				auto i = p2c[kin].at(j);
 
 				// form column i of boundary in homology revealing basis
-				auto bdri = u_solve(U[k], R[k+1][i]);
+				auto bdri = u_solve(U[k], R[kin][i]);
 				auto ipiv = bdri.lastnz();
 				auto a = (yit->val) / ipiv.val;
 				y.axpy(-a, bdri);
-- 
2.43.0


From 8cc844b6b7ba641bcb3a8e622166bf6ab1efad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 031/103] fix: with compression and a recorded basis, R was not
 B U, so normal forms and induced maps were wrong

---
 include/homology/basis.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index cacc3e3..052ad64 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -241,6 +241,9 @@ public:
 			R[k] = C.boundary[k];
 			U[k] = MT::identity(C.dim(k));
 			p2c[k] = reduce_matrix_compression(R[k], U[k], comp_inds, algflag());
+			// compression dropped rows of R[k]: restore B U = R
+			// dropped rows never contain pivots, so p2c is unchanged
+			R[k] = C.boundary[k] * U[k];
 			comp_inds = get_compression_inds(R[k]);
 		}
 
-- 
2.43.0


From f9b6fd9a3ac7a063942fa49c1d35f4043634f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 032/103] fix: union_find_pairs mixed filtration order with
 original order of values and accessed boundary[1] of complexes without edges

---
 include/persistence/union_find.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/persistence/union_find.hpp b/include/persistence/union_find.hpp
index 2920739..dc36414 100644
--- a/include/persistence/union_find.hpp
+++ b/include/persistence/union_find.hpp
@@ -54,11 +54,12 @@ std::vector<PersistencePair<T>> union_find_pairs(
 
 	// first get boundary in dimension 1
 	// assumed to be sorted in filtration order
-	auto& B = F.complex()[1];
-	auto& vals = F.vals();
+	auto& C = F.complex();
+	auto& vals = F.vals(); // values are stored in original order
+	auto& perm = F.perm; // from filtration order to original order
 
-	size_t N = B.nrow();
-	size_t M = B.ncol();
+	size_t N = C.dim(0);
+	size_t M = (C.maxdim() > 0) ? C.dim(1) : 0;
 
 	// initialize parent vector
 	std::vector<size_t> parent(N);
@@ -70,9 +71,9 @@ std::vector<PersistencePair<T>> union_find_pairs(
 	for (size_t k = 0; k < N; ++k) {
 		pairs.emplace_back(PersistencePair(
 			0,
-			k,
+			perm[0][k],
 			bats::NO_IND,
-			vals[0][k],
+			vals[0][perm[0][k]],
 			std::numeric_limits<T>::infinity()
 		));
 	}
@@ -83,7 +84,7 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// first, get simplices on boundary
 
 		// This is not safe if we do not know we're working with 1-dimensional boundary
-		auto nzit = B[k].nzbegin();
+		auto nzit = C[1][k].nzbegin();
 		size_t i = nzit->ind; ++nzit;
 		size_t j = nzit->ind;
 
@@ -93,14 +94,12 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		// if parents are same, H1 created.  Nothing to do here.
 		if (pi == pj) { continue; }
 
-		// get birth times in filtration order
-		float bi = pairs[pi].birth;
-		float bj = pairs[pj].birth;
-		if (bi < bj) {
+		// the root of a component is its first vertex in filtration order
+		if (pi < pj) {
 			// component with j merges into component with i
 			// kill bar at pj
-			pairs[pj].death_ind = k;
-			pairs[pj].death = vals[1][k];
+			pairs[pj].death_ind = perm[1][k];
+			pairs[pj].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pj] = pi;
@@ -108,8 +107,8 @@ std::vector<PersistencePair<T>> union_find_pairs(
 		} else {
 			// component with i merges into component with j
 			// kill bar at pi
-			pairs[pi].death_ind = k;
-			pairs[pi].death = vals[1][k];
+			pairs[pi].death_ind = perm[1][k];
+			pairs[pi].death = vals[1][perm[1][k]];
 
 			// merge components
 			parent[pi] = pj;
-- 
2.43.0


From cffeb989656cac62c9d54fc122f520ef01974adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 033/103] fix: FilteredChainComplex::update_filtration applied
 the inverse of the permutation between the old and the new order, through a
 temporary of the value type

---
 include/chain/filtered_chain_complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/filtered_chain_complex.hpp b/include/chain/filtered_chain_complex.hpp
index f75cd83..ac58442 100755
--- a/include/chain/filtered_chain_complex.hpp
+++ b/include/chain/filtered_chain_complex.hpp
@@ -41,13 +41,13 @@ struct FilteredChainComplex {
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 7a98427147d8fd00e8c2c9292110b897a88a9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 034/103] fix: FilteredDGVectorSpace::update_filtration applied
 the inverse of the permutation between the old and the new order, and ignored
 the reversed order of cohomology

---
 include/dgvs/filtered_dgvs.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/dgvs/filtered_dgvs.hpp b/include/dgvs/filtered_dgvs.hpp
index e1ec533..1aa56f8 100644
--- a/include/dgvs/filtered_dgvs.hpp
+++ b/include/dgvs/filtered_dgvs.hpp
@@ -53,20 +53,25 @@ struct FilteredDGVectorSpace {
 	void update_filtration(const std::vector<std::vector<FT>> newval) {
 		// step 1: determine permutation order for newval
 		auto perms = filtration_sortperm(newval);
-
+		if (C.degree == +1) {
+			// for cohomology reverse rows and columns
+			for (auto& pi : perms) {
+				std::reverse(pi.begin(), pi.end());
+			}
+		}
 
 		// get inverse permutation for current permutation
 		auto iperm = filtration_iperm(perm);
 
 		// step 2: determine update to old permutation
 		// iperm[k] will hold the updated permutation temporarily
-		std::vector<FT> tmp; // temporary vector
+		std::vector<size_t> tmp; // temporary vector
 		for (size_t k = 0; k < iperm.size(); k++) {
 			bats::util::apply_perm(iperm[k].data(), tmp, perms[k]);
 		}
 
 		// step 3: apply permutation updates to ChainComplex C
-		C.permute_basis(iperm);
+		C.ipermute_basis(iperm);
 
 		// step 4: store new permutation
 		perm = perms;
-- 
2.43.0


From 76cb3f826383097fc20d632469486ef611ad367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 035/103] fix: DGVectorSpace::permute_basis permuted the wrong
 differentials for degree +1

---
 include/dgvs/dgvs.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/dgvs/dgvs.hpp b/include/dgvs/dgvs.hpp
index 3518025..9438852 100644
--- a/include/dgvs/dgvs.hpp
+++ b/include/dgvs/dgvs.hpp
@@ -97,18 +97,14 @@ struct DGVectorSpace {
 
 	// permute basis in dimension k
 	void permute_basis(ssize_t k, const std::vector<size_t> &perm) {
-		// TODO: this assumes that degree = -1
-		if (k == 0) {
-			// only worry about boundary[1]
-			differential[1].permute_rows(perm);
-		} else if (k == maxdim()) {
-			differential[k].permute_cols(perm);
-			// only worry about boundary[maxdim()]
-		} else {
-			// need to handle boundary[k] and boundary[k+1]
+		if (degree == -1) {
+			// differential[k] : C_k -> C_{k-1}
 			differential[k].permute_cols(perm);
 			differential[k+1].permute_rows(perm);
-			// boundary[k+1].ipermute_rows(bats::util::inv_perm(perm));
+		} else { // degree == +1
+			// differential[k+1] : C^k -> C^{k+1}
+			differential[k+1].permute_cols(perm);
+			differential[k].permute_rows(perm);
 		}
 	}
 
-- 
2.43.0


From f5c5a4ee612cba28b43bb655df6228814cd60cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 036/103] fix: ReducedDGVectorSpace::permute_matrices skipped
 the bases of the lowest and highest dimension, giving wrong factorizations
 after a permutation

---
 include/homology/dgbasis.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 18074fb..e5a379d 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -413,31 +413,15 @@ public:
 	void permute_matrices(size_t k, const std::vector<size_t> &perm) {
 		auto iperm = bats::util::inv_perm(perm);
 		if (degree == -1) {
-			if (k == 0) {
-				// only worry about boundary[1]
-				R[1].permute_rows(iperm);
-			} else if (k == maxdim()) {
-				// only need to worry about rows of U[k]
-				U[k].permute_rows(iperm); // inverse perm here
-			} else {
-				// need to handle boundary[k] and boundary[k+1]
-				U[k].permute_rows(iperm); // inverse perm here
-				R[k+1].permute_rows(iperm); // regular perm here
-			}
+			// permute rows of U[k] and R[k+1]
+			// U[0] is not the identity in the augmented case
+			U[k].permute_rows(iperm);
+			R[k+1].permute_rows(iperm);
 		} else { // degree == +1
 			// permute rows of U^k = U[k+1]
 			// permute rows of R^{k-1} = R[k]
-			if (k == 0) {
-				// only worry about differential[1]
-				U[1].permute_rows(iperm);
-			} else if (k == maxdim()) {
-				// only need to worry about differential[k]
-				R[k].permute_rows(iperm); // inverse perm here
-			} else {
-				// need to handle boundary[k] and boundary[k+1]
-				U[k+1].permute_rows(iperm); // inverse perm here
-				R[k].permute_rows(iperm); // regular perm here
-			}
+			U[k+1].permute_rows(iperm);
+			R[k].permute_rows(iperm);
 		}
 
 		// at end of this, homology classes are invalidated
@@ -450,6 +434,10 @@ public:
 			permute_matrices(k, perm[k]);
 		}
 		// next we update the factorizations
+		if (degree == +1) {
+			// map into dimension 0 is not part of the loop below
+			p2c[0] = reduce_matrix(R[0], U[0], args...);
+		}
 		for (size_t k = 0; k < perm.size(); k++) {
 			update_reduction2(k, args...);
 		}
-- 
2.43.0


From 136cbf2a110580286053053a9dc70fa20a7457fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 037/103] fix: permute_column_basis applied the inverse of the
 permutation that permute_row_basis applies, so a chain map could not be put
 in the order of a filtered complex

---
 include/chain/chain_map.hpp | 2 +-
 include/dgvs/dgmap.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chain/chain_map.hpp b/include/chain/chain_map.hpp
index e7ced88..84a4f09 100755
--- a/include/chain/chain_map.hpp
+++ b/include/chain/chain_map.hpp
@@ -82,7 +82,7 @@ struct ChainMap {
     }
 
     inline void permute_column_basis(size_t k, const std::vector<size_t> &p) {
-        map[k].permute_cols(p);
+        map[k].ipermute_cols(p);
     }
 
 
diff --git a/include/dgvs/dgmap.hpp b/include/dgvs/dgmap.hpp
index d03082d..bf1d466 100644
--- a/include/dgvs/dgmap.hpp
+++ b/include/dgvs/dgmap.hpp
@@ -57,7 +57,7 @@ struct DGLinearMap {
     }
 
     inline void permute_column_basis(ssize_t k, const std::vector<size_t> &p) {
-        map[k].permute_cols(p);
+        map[k].ipermute_cols(p);
     }
 
 
-- 
2.43.0


From 3a0b6558ca0d61a175bd89188d7013916f5fc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 038/103] fix: UpdateInfo2 asked for the boundary of inserted
 vertices, reading out of bounds

---
 include/filtration/update_information.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/filtration/update_information.hpp b/include/filtration/update_information.hpp
index e4d5bf0..7c19e82 100755
--- a/include/filtration/update_information.hpp
+++ b/include/filtration/update_information.hpp
@@ -173,11 +173,11 @@ struct UpdateInfo2{
 				} else {
 					// this simplex is not in X1 - must be inserted
 					insertion_indices[dim].emplace_back(fj2); // this is insertion index
-					auto [ind, val] = X2.boundary(dim, j2);
 
 					// put indices  of boundary in permutation order
 					bdry.clear();
-					if (dim > 0) {
+					if (dim > 0) { // vertices have no boundary
+						auto [ind, val] = X2.boundary(dim, j2);
 						for (size_t ii = 0; ii < ind.size(); ++ii) {
 							bdry.emplace_back(nzpair(
 								iperms2[dim-1][ind[ii]], // where index gets mapped in filtration order
-- 
2.43.0


From 0f08285a88c066a703e4a7194646525e9deb019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 039/103] fix: update_basis_general gave inserted vertices
 basis columns shifted by one

---
 include/homology/basis.hpp   | 4 ++--
 include/homology/dgbasis.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/homology/basis.hpp b/include/homology/basis.hpp
index 052ad64..6972f3c 100755
--- a/include/homology/basis.hpp
+++ b/include/homology/basis.hpp
@@ -406,8 +406,8 @@ public:
 
 			// step 2.6 addition of columns
 			if(k==0){
-				// find the index of the rightmost column of U
-				size_t final_ind_of_U = U[k].ncol() - 1;
+				// find the index of the first column appended to U
+				size_t final_ind_of_U = U[k].ncol();
 
 				// find the # of addition
 				size_t count = UI.addition_indices[k].size();
diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index e5a379d..62dd7c4 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -842,8 +842,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// find the index of the first column appended to U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
@@ -1211,8 +1211,8 @@ public:
 					// find the # of addition
 					size_t count = UI.addition_indices[k].size();
 					if (degree == -1){ // homology add columns
-						// find the index of the rightmost column of U
-						size_t final_ind_of_U = U[k].ncol() - 1;
+						// find the index of the first column appended to U
+						size_t final_ind_of_U = U[k].ncol();
 						// append zero columns
 						for (size_t i = 0; i < count; i++){
 							R[k].append_column();
-- 
2.43.0


From 344b57c51536ba3cf3c0709279f861888c30cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 040/103] fix: update_basis_general(_clearing) left the highest
 dimension unreduced or with matrices of the old size

---
 include/homology/dgbasis.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 62dd7c4..0352084 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -654,6 +654,21 @@ public:
 		set_indices(); // update homology indices
 	}
 
+	/**
+	helper function for general updates of cohomology
+
+	the map out of the highest dimension is zero, so the identity is a valid basis
+	*/
+	template <typename Information_type>
+	void _resize_zero_coboundary(size_t max_dim, const Information_type &UI) {
+		for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
+			R[max_dim+1].append_column();
+		}
+		R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
+		U[max_dim+1] = MT::identity(R[max_dim+1].ncol());
+		p2c[max_dim+1].assign(R[max_dim+1].nrow(), bats::NO_IND);
+	}
+
 	/*
 	General Update factorization DU = R by Updating Information
 	Note:
@@ -965,11 +980,7 @@ public:
 
 		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
 		if(degree == +1){
-			// TODO: modify U[max_dim+1] as well, but not necessary because R[max_dim+1] is a zero matrix
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
-			R[max_dim+1].erase_final_columns(UI.deletion_indices[max_dim].size());
+			_resize_zero_coboundary(max_dim, UI);
 		}
 
 		t0 = std::chrono::steady_clock::now();
@@ -1326,14 +1337,14 @@ public:
 		t0 = std::chrono::steady_clock::now();
 		if (degree == -1) {
 			// do top dimension normally
-			p2c[max_dim-1] = reduce_matrix(R[max_dim-1], U[max_dim-1], bats::standard_reduction_flag());
-			for (ssize_t k = max_dim-2; k >= 0; --k) {
+			p2c[max_dim] = reduce_matrix(R[max_dim], U[max_dim], bats::standard_reduction_flag());
+			for (ssize_t k = (ssize_t) max_dim - 1; k >= 0; --k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
 			}
 		} else { // degree == +1
 			// do bottom dimension normally
 			p2c[0] = reduce_matrix(R[0], U[0], bats::standard_reduction_flag());
-			for (ssize_t k = 1; k < max_dim; ++k) {
+			for (size_t k = 1; k < max_dim + 1; ++k) {
 				p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k-1], p2c[k-1], bats::standard_reduction_flag());
 			}
 		}
@@ -1346,11 +1357,9 @@ public:
 		// std::cout << "\nafter final reduction R[1] = " << std::endl;
 		// R[1].print();
 
-		//cohomology the highest dimension need add zero columns
+		//cohomology the highest dimension need add/remove zero columns
 		if(degree == +1){
-			for (size_t i = 0; i < UI.addition_indices[max_dim].size(); i++){
-				R[max_dim+1].append_column();
-			}
+			_resize_zero_coboundary(max_dim, UI);
 		}
 
 		t0 = std::chrono::steady_clock::now();
-- 
2.43.0


From 33a3d20a06ee2c6300182cf395fb8dc477679c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 041/103] fix: ChainComplex::update_basis_general moved deleted
 rows and columns, and permuted rows, with the inverse permutations

---
 include/chain/chain_complex.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/chain/chain_complex.hpp b/include/chain/chain_complex.hpp
index 9511f15..7bac8b4 100755
--- a/include/chain/chain_complex.hpp
+++ b/include/chain/chain_complex.hpp
@@ -207,7 +207,7 @@ template <typename Information_type>
 			// find the permutation that will permute
 			// the column that is going to remove to the end
 			std::vector<size_t> perm = perm_to_the_end(del_ind_col, boundary[k+1].ncol());
-			boundary[k+1].permute_cols(perm); // permute
+			boundary[k+1].ipermute_cols(perm); // permute
 			for(size_t i = 0; i < del_ind_col.size(); i++){
 				// size_t current_index = ind - i;
 				boundary[k+1].erase_column(); // erase the last column
@@ -224,7 +224,7 @@ template <typename Information_type>
 			// print_1D_vectors(del_ind_row);
 
 			std::vector<size_t> perm = perm_to_the_end(del_ind_row, boundary[k+1].nrow());
-			boundary[k+1].permute_rows(perm); // permute
+			boundary[k+1].ipermute_rows(perm); // permute
 			for(size_t i = 0; i < del_ind_row.size(); i++){
 				boundary[k+1].erase_row(); // erase the last row
 			}
@@ -236,7 +236,7 @@ template <typename Information_type>
 		if(!PI_row.empty() && PI_row != identity_perm(PI_row.size())){
 			// std::cout << "permute rows with permutation" << std::endl;
 			// print_1D_vectors(PI_row);
-			boundary[k+1].ipermute_rows(bats::util::inv_perm(PI_row));
+			boundary[k+1].ipermute_rows(PI_row);
 		}
 
 		// std::cout << "\nafter permutation of rows" << std::endl;
-- 
2.43.0


From cfc8185b9553a98b1993bba25f806d0f9f33848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 042/103] fix: incremental updates of graded spaces of degree
 -1 kept the zero map above the highest dimension at its old size, reading the
 pivot table out of bounds

---
 include/homology/dgbasis.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/homology/dgbasis.hpp b/include/homology/dgbasis.hpp
index 0352084..8954441 100644
--- a/include/homology/dgbasis.hpp
+++ b/include/homology/dgbasis.hpp
@@ -636,6 +636,7 @@ public:
 
 		// finalize reduction
 		if (degree == -1) {
+			_reset_zero_boundary(UI.perm.size() - 1);
 			for (ssize_t k = UI.perm.size()-1; k >= 0; --k) {
 				if (k < (ssize_t) UI.perm.size() - 1) {
 					p2c[k] = reduce_matrix_clearing(R[k], U[k], R[k+1], p2c[k+1], bats::standard_reduction_flag());
@@ -654,6 +655,18 @@ public:
 		set_indices(); // update homology indices
 	}
 
+	/**
+	helper function for updates of homology
+
+	the map into the highest dimension is zero
+	*/
+	void _reset_zero_boundary(size_t max_dim) {
+		if (max_dim + 1 < R.size()) {
+			R[max_dim+1] = MT(R[max_dim].ncol(), 0);
+			p2c[max_dim+1].assign(R[max_dim+1].nrow(), bats::NO_IND);
+		}
+	}
+
 	/**
 	helper function for general updates of cohomology
 
@@ -981,6 +994,8 @@ public:
 		//cohomology the highest dimension need add/remove zero columns(simplices at the highest dimension)
 		if(degree == +1){
 			_resize_zero_coboundary(max_dim, UI);
+		} else {
+			_reset_zero_boundary(max_dim);
 		}
 
 		t0 = std::chrono::steady_clock::now();
@@ -1360,6 +1375,8 @@ public:
 		//cohomology the highest dimension need add/remove zero columns
 		if(degree == +1){
 			_resize_zero_coboundary(max_dim, UI);
+		} else {
+			_reset_zero_boundary(max_dim);
 		}
 
 		t0 = std::chrono::steady_clock::now();
-- 
2.43.0


From 42fbda0f35cfcc643c415cb85df8be14b2502ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 043/103] fix: extra reduction of zigzag filtrations never
 eliminated the first entry of a column, so a column whose only entry is a
 pivot displaced that pivot

---
 include/zigzag/reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index f578ac2..89ba3e2 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -111,7 +111,7 @@ void extra_col_reduction(
 
 	size_t end_offset = 1; // difference from end
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while(piv - M[j].nzbegin() > 0) {
+	while(piv - M[j].nzbegin() >= 0) {
 		// while the nonzero we are looking at is in the vector
 		// piv is index-value nzpair
 		size_t k = p2c[piv->ind];
-- 
2.43.0


From e546778f43b0c300a33ac0201b2d36d9780c9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 044/103] fix: zigzag barcodes up to a dimension below the top
 kept pivots of removed columns, and later read the emptied columns

---
 include/zigzag/reduction.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/reduction.hpp b/include/zigzag/reduction.hpp
index 89ba3e2..c32009c 100755
--- a/include/zigzag/reduction.hpp
+++ b/include/zigzag/reduction.hpp
@@ -542,9 +542,6 @@ auto zigzag_barcode_reduction(
 				// need to transform indices using fact.E
 				// add bar to active_bars and transform initial indices of active_bars
 				detail::update_bars(bars[k-1], fval, k-1, fact.E, piv_to_ind[k-1], piv_to_ind2[k-1]);
-
-				// remove i from list of pivots
-				F.p2c[k][i] = bats::NO_IND;
 			} else if (k < maxdim + 1) {
 				// homology will be destroyed in this dimension since we remove zero column
 				// induced map of insertion <--
@@ -566,6 +563,10 @@ auto zigzag_barcode_reduction(
 
 				// this column should not have been recorded in p2c
 			}
+			if (F.R[fval.dim][fval.ind].nnz() > 0) {
+				// remove from list of pivots
+				F.p2c[k][F.R[fval.dim][fval.ind].lastnz().ind] = bats::NO_IND;
+			}
 			F.R[fval.dim][fval.ind].clear_dealloc();
 			F.U[fval.dim][fval.ind].clear_dealloc();
 		}
-- 
2.43.0


From 336393c42472d25e39b091cff22807df93ad2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 045/103] fix: cells that first enter after a face has left and
 re-entered were attached to the first copy of that face

---
 include/zigzag/zigzag_filtration.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 8dbfa53..29bef5a 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -200,7 +200,7 @@ struct ZigzagChainComplex
 			// to search for copy of boundary
 			if (val[k][j].first > val[k-1][i].second) {
 				for (size_t i2 = extra_cells[k-1][i]; i2 < extra_cells[k-1][i+1]; ++i2) {
-					if (val[k][j].first < val[k-1][i2].second) {
+					if (val[k][j].first <= val[k-1][i2].second) {
 						// we have found the correct copy
 						it->ind = i2; // set new index
 						break; // we're done with this index
@@ -259,6 +259,8 @@ struct ZigzagChainComplex
 						_correct_indices(k, C[k].ncol()-1, extra_cells);
 					}
 				}
+				// the first copy may also enter after a face has re-entered
+				if (k > 0) { _correct_indices(k, i, extra_cells); }
 			}
 			extra_cells[k][X.ncells(k)] = val[k].size(); // total number of cells
 		}
-- 
2.43.0


From 25184acfab93557772d41b4c93338cadebf3b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 046/103] fix: assigning an empty trie (or complex) kept a
 pointer to the deleted children, and assignment leaked all nodes

---
 include/util/trie.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/util/trie.hpp b/include/util/trie.hpp
index 27701eb..765ba0a 100755
--- a/include/util/trie.hpp
+++ b/include/util/trie.hpp
@@ -44,13 +44,17 @@ public:
 
     SparseTrie() : val(T(0)), children(nullptr) {};
 
-    ~SparseTrie() {
+    ~SparseTrie() { clear_children(); }
+
+    // delete all children
+    void clear_children() {
         if (children != nullptr) {
 			// delete each child
             for (auto kvpair : *children) {
                 delete kvpair.second;
             }
             delete children;
+            children = nullptr;
         }
     }
 
@@ -61,7 +65,7 @@ public:
 		if (&t == this) {return *this;}
 
 		// release children
-		if (children != nullptr) { delete children; }
+		clear_children();
 
 		val = t.val;
         if (t.children != nullptr) {
@@ -83,7 +87,7 @@ public:
 			return *this;
 
 		// release children
-		if (children != nullptr) { delete children; }
+		clear_children();
 
 		val = t.val;
 		// Transfer ownership of children
-- 
2.43.0


From 999da2800560d9db699d4fe681a0f23f1bf338c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 047/103] fix: default-constructed LightSimplicialComplex had
 maximum dimension 0 but no tables, so asking for its cells read out of bounds

---
 include/complex/light_simplicial_complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index 1a93b35..d2ff2ad 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -153,7 +153,7 @@ private:
 	};
 
 public:
-    LightSimplicialComplex() : _n(0), _k(0) {}
+    LightSimplicialComplex() : LightSimplicialComplex(0, 0) {}
 
     LightSimplicialComplex(
         const index_type n,
-- 
2.43.0


From a1cc5ed7f8daec114d4d0ce95777356b70c14220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 048/103] fix: TriangulatedProduct of light complexes iterated
 over face keys instead of vertices

---
 include/complex/simplicial_complex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 51312ec..357c003 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -731,14 +731,16 @@ CpxT TriangulatedProduct(
 
 			// loop over simplices of dimension dX
 			for (size_t iX = 0; iX < X.ncells(dX); iX++) {
+				auto sX = X.get_simplex(dX, iX);
 				// loop over simplices of dimension dY
 				for (size_t iY = 0; iY < Y.ncells(dY); iY++) {
+					auto sY = Y.get_simplex(dY, iY);
 					product_paths(
 						XY,
-						X.simplex_begin(dX, iX),
-						X.simplex_end(dX, iX),
-						Y.simplex_begin(dY, iY),
-						Y.simplex_end(dY, iY),
+						sX.begin(),
+						sX.end(),
+						sY.begin(),
+						sY.end(),
 						s,
 						n
 					);
-- 
2.43.0


From 5fcc2af24f904f96368da61cbc498bf7b1c3781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 049/103] fix: Eilenberg-Zilber products lost isolated
 vertices, listed vertices in a different order from the tensor product, and
 were sized by the first factor only

---
 include/topology/eilenberg_zilber.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index edde59c..811334b 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -31,7 +31,7 @@ auto EilenbergZilber(
 	using MT = ColumnMatrix<VT>;
 
 	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n*n, maxdim); // product simplicial complex
+	CpxT XY( n * Y.ncells(0), maxdim); // product simplicial complex
 
 	ChainComplex<MT> CX(X); // chain complex of X
 	ChainComplex<MT> CY(Y); // chain complex of Y
@@ -51,7 +51,16 @@ auto EilenbergZilber(
 			// just do this explicitly
 			ind_shift[0][0] = 0;
 			CXCY[0] = MT(1, X.ncells(0) * Y.ncells(0));
-			F[0] = MT::identity(X.ncells(0) * Y.ncells(0));
+			F[0] = MT(0, 0);
+			for (size_t iX = 0; iX < X.ncells(0); iX++) {
+				auto sX = X.get_simplex(0, iX);
+				for (size_t iY = 0; iY < Y.ncells(0); iY++) {
+					auto sY = Y.get_simplex(0, iY);
+					ci.clear();
+					product_paths(XY, sX.begin(), sX.end(), sY.begin(), sY.end(), s, n, ci);
+					F[0].append_column(VT(ci[0].ind));
+				}
+			}
 			continue;
 		}
 		CXCY[dim] = MT(CXCY[dim-1].ncol(), 0);
@@ -83,8 +92,8 @@ auto EilenbergZilber(
 					);
 					// create column in tensor product
 					// d(x \otimes y) = (dx \otimes y) + (-1)^deg(x) (x \otimes dy)
-					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(ind_shift[dX-1][dY])\
-					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(ind_shift[dX][dY-1]);
+					auto dxy = (CX[dX][iX].kron(VT(iY), Y.ncells(dY))).shift_inds(dX > 0 ? ind_shift[dX-1][dY] : 0)\
+					 + VT(iX, T(dX & 0x1 ? -1 : 1)).kron(CY[dY][iY], CY[dY].nrow()).shift_inds(dY > 0 ? ind_shift[dX][dY-1] : 0);
 					CXCY[dim].append_column(dxy);
 
 					// create column in map
-- 
2.43.0


From 5132d54c1c874743eec41b47aea41fc00de33be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 050/103] fix: ncells above the maximum dimension read out of
 bounds, so maps into a complex of lower dimension crashed

---
 include/complex/cubical_complex.hpp    | 2 +-
 include/complex/simplicial_complex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex/cubical_complex.hpp b/include/complex/cubical_complex.hpp
index 0f2ae8e..950ba51 100755
--- a/include/complex/cubical_complex.hpp
+++ b/include/complex/cubical_complex.hpp
@@ -286,7 +286,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return __maxdim; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index 357c003..ad65930 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -345,7 +345,7 @@ public:
     // maximum dimension of cell
     inline size_t maxdim() const { return _ncells.size() - 1; }
     // number of cells in dimension k
-    inline size_t ncells(const size_t k) const { return _ncells[k]; }
+    inline size_t ncells(const size_t k) const { return k < _ncells.size() ? _ncells[k] : 0; }
     // total number of cells
     size_t ncells() const {
       size_t ct = 0;
-- 
2.43.0


From ce289d83b97d11d61b81e13a6259e1ff292e0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 051/103] fix: CellularMap::operator[] made room for one
 dimension too few and wrote out of bounds

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index 1debfce..afa3997 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -22,7 +22,7 @@ private:
 	std::vector<map_type> cell_map;
 
 	inline void _resize(size_t dim) { cell_map.resize(dim); }
-	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim); } }
+	inline void _safe_resize(size_t dim) { if (dim >= cell_map.size()) { _resize(dim + 1); } }
 
 public:
 
-- 
2.43.0


From a2075c60d32ebc07496f7675395c14d739d2aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 052/103] fix: LightSimplicialComplex::ncells above the maximum
 dimension read out of bounds

---
 include/complex/light_simplicial_complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/light_simplicial_complex.hpp b/include/complex/light_simplicial_complex.hpp
index d2ff2ad..e3b6dd7 100755
--- a/include/complex/light_simplicial_complex.hpp
+++ b/include/complex/light_simplicial_complex.hpp
@@ -183,7 +183,7 @@ public:
 
     inline index_type maxdim() const { return _k; }
     inline size_t ncells(size_t dim) const {
-        return index_to_key[dim].size();
+        return dim < index_to_key.size() ? index_to_key[dim].size() : 0;
     }
     size_t ncells() const {
       size_t ct = 0;
-- 
2.43.0


From 134d5250db02859d7937ff0ea2e959de53f8ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 053/103] fix: flag and Rips constructions of maximum dimension
 0 added the edges

---
 include/filtration/flag.hpp | 2 ++
 include/topology/flag.hpp   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index d5b525d..f32810c 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -301,6 +301,7 @@ Filtration<T, CpxT> FlagFiltration(
         spx_idxs[0] = k;
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
     }
+    if (maxdim == 0) { return F; }
 
     std::vector<std::vector<size_t>> nbrs(n);
 
@@ -366,6 +367,7 @@ auto FlagFiltration_extension(
         F.add(t0, spx_idxs); // don't need to try to pair since 0-cells
         inds[0].emplace_back(k);
     }
+    if (maxdim == 0) { return std::make_tuple(F, inds); }
 
     std::vector<std::vector<size_t>> nbrs(n);
 
diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index 3411dee..dc9c5ab 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -80,6 +80,7 @@ CpxT FlagComplex(
         spx_idxs[0] = k;
         X.add(spx_idxs);
     }
+    if (maxdim == 0) { return X; }
 
     std::vector<std::vector<size_t>> nbrs(n);
 
-- 
2.43.0


From c6be40c7ead5c422df061034ba0e0279a7e37a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 054/103] fix: CompleteFlagFiltration returned an empty
 complex, and ignored a maximum dimension of 1

---
 include/filtration/flag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/filtration/flag.hpp b/include/filtration/flag.hpp
index f32810c..8a0391d 100755
--- a/include/filtration/flag.hpp
+++ b/include/filtration/flag.hpp
@@ -473,10 +473,12 @@ std::tuple<SimplicialComplex, Filtration<T, SimplicialComplex>> CompleteFlagFilt
         nbrs[j].emplace_back(i);
         std::sort(nbrs[j].begin(), nbrs[j].end());
 
-        add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        if (maxdim > 1) {
+            add_dimension_recursive_flag_unsafe(F, nbrs, 2, maxdim, iter_idxs, spx_idxs, t[k]);
+        }
     }
 
-    return std::make_tuple(X, F);
+    return std::make_tuple(F.complex(), F);
 }
 
 } // namespace bats
-- 
2.43.0


From 923b48aeef14abae0f5ced0733392362de3fe992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 055/103] fix: FlagComplex of a light complex stored edges
 given as (larger, smaller) under an invalid key

---
 include/topology/flag.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/flag.hpp b/include/topology/flag.hpp
index dc9c5ab..2e136da 100755
--- a/include/topology/flag.hpp
+++ b/include/topology/flag.hpp
@@ -93,6 +93,7 @@ CpxT FlagComplex(
         size_t j = edges[2*k + 1];
         spx_idxs[0] = i;
         spx_idxs[1] = j;
+        std::sort(spx_idxs.begin(), spx_idxs.end());
         X.add(spx_idxs);
         // std::cout << ret.second << std::endl;
         bats::util::intersect_sorted(nbrs[i], nbrs[j], iter_idxs);
-- 
2.43.0


From fdcc202ed56c190a46004187aa40ae933c722fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 056/103] fix: Nerve with maximum dimension 0 no longer adds
 edges

---
 include/topology/nerve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/nerve.hpp b/include/topology/nerve.hpp
index 56fa422..fbbb550 100755
--- a/include/topology/nerve.hpp
+++ b/include/topology/nerve.hpp
@@ -60,6 +60,7 @@ SimplicialComplex Nerve(
 	for (size_t i = 0; i < cover.size(); i++) {
 		// add 0-simplex i
 		N.add({i});
+		if (dmax == 0) { continue; } // only vertices
 
 		for (size_t j = 0; j < i; j++) {
 			// check to add edge between i and j
-- 
2.43.0


From df0c397de25e91a866483c1779587734472ba553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 057/103] fix: witness_edge_param visits every landmark row
 instead of one row per data point

---
 include/topology/dowker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 91e07a2..d6d4023 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -108,7 +108,7 @@ Matrix<T> witness_edge_param(
 
     // loop over pdist, subtract m[j] from each column, take max with 0
     for (size_t j = 0; j < nX; j++) {
-        for (size_t i = 0; i < nX; i++) {
+        for (size_t i = 0; i < pdist.nrow(); i++) {
             pdist(i,j) -= m[j];
             pdist(i,j) = (pdist(i,j) > T(0)) ? pdist(i,j) : T(0);
         }
-- 
2.43.0


From 86bd87c79e08a00041ff123ef4279f95c472a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 058/103] fix: get_m counts zero and repeated entries when it
 finds the nu-th smallest entry

---
 include/topology/dowker.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index d6d4023..eb98320 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -43,10 +43,17 @@ std::vector<T> get_m(
     size_t N = pdist.ncol();
     std::vector<T> m(N, T(0));
 
-    while (nu > 0) {
-        // update m with next largest entry
-        increment_m(pdist, m);
-        nu--;
+    // m is 0 if nu = 0
+    nu = std::min(nu, (size_t) pdist.nrow());
+    if (nu == 0) { return m; }
+
+    std::vector<T> col(pdist.nrow());
+    for (size_t j = 0; j < N; j++) {
+        for (size_t i = 0; i < col.size(); i++) {
+            col[i] = pdist(i,j);
+        }
+        std::nth_element(col.begin(), col.begin() + (nu - 1), col.end());
+        m[j] = col[nu - 1];
     }
 
     return m;
-- 
2.43.0


From 8604f7c1e3fd41d7e73ac0499c1b92cc0b6a1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 059/103] fix: lazy WitnessComplex and witness_edges with a
 radius compile when they are used

---
 include/topology/dowker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index eb98320..2c3b10b 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -171,7 +171,7 @@ std::vector<size_t> witness_edges(
     for (size_t i = 0; i < n; i++) {
         for (size_t j = 0; j < i; j++) {
 
-            intersect_sorted(nbrs[i], nbrs[j], intersection);
+            bats::util::intersect_sorted(nbrs[i], nbrs[j], intersection);
             if (intersection.size() > 0) {
                 edges.push_back(j);
                 edges.push_back(i);
@@ -233,7 +233,7 @@ SimplicialComplex WitnessComplex(
     const size_t dmax
 ) {
     auto pdist = witness_edge_param(X, L, dist, nu);
-    return RipsComplex(pdist, rmax, dmax);
+    return RipsComplex<SimplicialComplex>(pdist, rmax, dmax);
 }
 
 template <typename T, typename M>
-- 
2.43.0


From 69a5f0382b14447de51cfbd55286b6927d52e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 060/103] fix: WitnessComplex adds each witnessed simplex once,
 with sorted vertices, and never asks for more neighbors than landmarks

---
 include/topology/dowker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index 2c3b10b..fc366a9 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -192,7 +192,7 @@ SimplicialComplex WitnessComplex(
 ) {
 
 
-    size_t k = dmax + 1; // number of neighbors to find
+    size_t k = std::min(dmax + 1, (size_t) L.size()); // number of neighbors to find
     // find the k closest neighbors in
     auto nbrs = neighborhoods(X, L, dist, k);
 
@@ -214,6 +214,8 @@ SimplicialComplex WitnessComplex(
             for (size_t j = 0; j < dim+1; j++) {
                 spx[j] = nbrs[i][j];
             }
+            // neighbors are listed by distance
+            std::sort(spx.begin(), spx.end());
             // the add is safe - only succeeds if boundary is present
             W.add(spx);
         }
-- 
2.43.0


From 0248fef954bdeebac5c966366a12a7a131768084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 061/103] fix: neighborhoods within a radius stores the
 neighbors of each point at the index of that point

---
 include/topology/neighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/neighborhood.hpp b/include/topology/neighborhood.hpp
index b99e4a4..0564ba3 100755
--- a/include/topology/neighborhood.hpp
+++ b/include/topology/neighborhood.hpp
@@ -59,7 +59,7 @@ std::vector<std::vector<size_t>> neighborhoods(
 
 	#pragma omp parallel for
 	for (size_t i = 0; i < X.size(); i++) {
-		nbrs.emplace_back(neighborhood(X[i], Y, dist, r));
+		nbrs[i] = neighborhood(X[i], Y, dist, r);
 	}
 
 	return nbrs;
-- 
2.43.0


From 9d1ad277e62edb1bfab45cfc0380759ff45c4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 062/103] fix: firstk returns all indices when there are fewer
 than k

---
 include/util/permutation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/util/permutation.hpp b/include/util/permutation.hpp
index 35fccd6..cb2a6d8 100755
--- a/include/util/permutation.hpp
+++ b/include/util/permutation.hpp
@@ -139,9 +139,10 @@ template <typename TI>
 std::vector<size_t> firstk(
     const TI& begin,
     const TI& end,
-    const size_t k
+    size_t k
 ) {
     std::vector<size_t> perm(end - begin);
+    k = std::min(k, perm.size());
     std::iota(perm.begin(), perm.end(), 0);
     std::partial_sort(
         perm.begin(),
-- 
2.43.0


From 4743459bbd7cfe7ec077c44c9141aed4259b9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 063/103] fix: greedy landmark selection never picks a point
 twice and ends on data with repeated points

---
 include/topology/landmark.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/topology/landmark.hpp b/include/topology/landmark.hpp
index 1f31d14..cdb2bce 100755
--- a/include/topology/landmark.hpp
+++ b/include/topology/landmark.hpp
@@ -46,8 +46,9 @@ DataSet<T> greedy_landmarks(
 	inds.insert(i0);
 
 	std::vector<T> d = dist(D[i0], D);
+	d[i0] = T(-1); // mark points that have been chosen
 
-	while (inds.size() < k) {
+	while (inds.size() < k && inds.size() < D.size()) {
 		// get furthest point from landmark set
 		auto it = std::max_element(d.cbegin(), d.cend());
 		size_t i = std::distance(d.cbegin(), it);
@@ -61,6 +62,7 @@ DataSet<T> greedy_landmarks(
 		for (size_t k = 0; k < d.size(); k++) {
 			d[k] = (d[k] < di[k]) ? d[k] : di[k];
 		}
+		d[i] = T(-1);
 	}
 
 	return D[inds];
@@ -130,6 +132,8 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 	std::vector<T> d = dist(D[i0], D);
 
+	d[i0] = T(-1); // mark points that have been chosen
+
 	while (inds.size() < D.size()) {
 		// get furthest point from landmark set
 		auto it = std::max_element(d.cbegin(), d.cend());
@@ -145,6 +149,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 		for (size_t k = 0; k < d.size(); k++) {
 			d[k] = (d[k] < di[k]) ? d[k] : di[k];
 		}
+		d[i] = T(-1);
 	}
 
 	hds.emplace_back(T(0));
@@ -176,7 +181,9 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 
 	std::vector<T> d = dist(D[i0], D);
 
-	while (inds.size() < k) {
+	d[i0] = T(-1); // mark points that have been chosen
+
+	while (inds.size() < k && inds.size() < D.size()) {
 		// get furthest point from landmark set
 		auto it = std::max_element(d.cbegin(), d.cend());
 		hds.emplace_back(*it); // Hausdorff distance of set up to that point.
@@ -191,10 +198,11 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 		for (size_t k = 0; k < d.size(); k++) {
 			d[k] = (d[k] < di[k]) ? d[k] : di[k];
 		}
+		d[i] = T(-1);
 	}
 
 	auto it = std::max_element(d.cbegin(), d.cend());
-	hds.emplace_back(*it); // Hausdorff distance of set up to that point.
+	hds.emplace_back(std::max(*it, T(0))); // Hausdorff distance of set up to that point.
 
 	return std::make_tuple(inds, hds);
 }
@@ -221,6 +229,8 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 		*dit++ = pdist(i0,i);
 	}
 
+	d[i0] = T(-1); // mark points that have been chosen
+
 	while (inds.size() < pdist.ncol()) {
 		// get furthest point from landmark set
 		auto it = std::max_element(d.cbegin(), d.cend());
@@ -236,6 +246,7 @@ std::tuple<std::vector<size_t>, std::vector<T>> greedy_landmarks_hausdorff(
 		for (size_t k = 0; k < d.size(); k++) {
 			d[k] = (d[k] < di[k]) ? d[k] : di[k];
 		}
+		d[i] = T(-1);
 	}
 
 	hds.emplace_back(T(0));
-- 
2.43.0


From ff9d7a7066bdcdf76f060e515328af5e3700e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 064/103] fix: landmark_eps_cover with eps = 0 keeps the
 closest landmark

---
 include/topology/cover.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/cover.hpp b/include/topology/cover.hpp
index 803067c..92c06b8 100755
--- a/include/topology/cover.hpp
+++ b/include/topology/cover.hpp
@@ -155,7 +155,7 @@ bats::Cover landmark_eps_cover(
 		auto di = dist(X[i], L); // distance from X[i] to points in L
 		auto it = std::min_element(di.cbegin(), di.cend());
 		for (size_t j = 0; j < L.size(); j++) {
-			if (di[j] < *it + eps) {
+			if (di[j] <= *it + eps) {
 				// add i to any landmark set that is within eps of closest landmark
 				// this should include closest point
 				cover[j].emplace(i);
-- 
2.43.0


From abf63dadccaecdfbea6b31f760a492a983fb189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 065/103] fix: RPCosineDist applied to data sets uses its own
 distance and not CosineDist

---
 include/topology/metric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index d83e38c..97cefbb 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -128,7 +128,7 @@ struct CosineDist : AbstractMetric<CosineDist> {
 };
 
 // Cosine metric 1 - cos(x,y) = 1 - x^T y / ||x||*||y||
-struct RPCosineDist : AbstractMetric<CosineDist> {
+struct RPCosineDist : AbstractMetric<RPCosineDist> {
 
     template <typename T>
     T dist (const VectorView<T> &x, const VectorView<T> &y) const {
-- 
2.43.0


From 4530d2bcf51183bcdda24b9ab7cdf968805828c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 066/103] fix: angular distances of parallel and antipodal
 points are never NaN

---
 include/topology/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/topology/metric.hpp b/include/topology/metric.hpp
index 97cefbb..e7d103a 100755
--- a/include/topology/metric.hpp
+++ b/include/topology/metric.hpp
@@ -159,7 +159,7 @@ struct AngleDist : AbstractMetric<AngleDist> {
             ny += (y(i) * y(i));
         }
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy > T(1) ? T(1) : cxy);
+        return std::acos(cxy > T(1) ? T(1) : (cxy < T(-1) ? T(-1) : cxy));
     }
 };
 
@@ -178,7 +178,7 @@ struct RPAngleDist : AbstractMetric<RPAngleDist> {
         }
         ip = std::abs(ip); // positive inner produce minimizes distance between RP representatives
         T cxy = ip / (std::sqrt(nx) * std::sqrt(ny)); // cosine of angle
-        return std::acos(cxy);
+        return std::acos(cxy > T(1) ? T(1) : cxy);
     }
 
 };
-- 
2.43.0


From dab31be1cfd3909e92cd1713456035e4f186b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 067/103] fix: linear_cover_intersection_diagram arrows end at
 the cover set they map into

---
 include/topology/inclusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/inclusion.hpp b/include/topology/inclusion.hpp
index 3d5fd5e..d4d5ccd 100755
--- a/include/topology/inclusion.hpp
+++ b/include/topology/inclusion.hpp
@@ -51,7 +51,7 @@ Diagram<std::set<size_t>, std::vector<size_t>> linear_cover_intersection_diagram
 	    auto i1 = SetDgm.add_node(cover[i]);
 	    if (i > 0) {
 	        // add arrow from inclusion
-	        SetDgm.add_edge(i1-1, i, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
+	        SetDgm.add_edge(i1-1, i1, vertex_inclusion_map(SetDgm.node[i1-1], SetDgm.node[i1]));
 	    }
 	    if (i == (cover.size() - 1)) { break; }
 	    auto i2 = SetDgm.add_node(bats::util::set_intersection(cover[i], cover[i+1]));
-- 
2.43.0


From 7f0ffe93fca5e1a9b88aebb7b2d3412f5b225975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 068/103] fix: mayer_vietoris_boundary columns have sorted
 indices

---
 include/topology/mayer_vietoris.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/topology/mayer_vietoris.hpp b/include/topology/mayer_vietoris.hpp
index 084e8e1..f511e02 100755
--- a/include/topology/mayer_vietoris.hpp
+++ b/include/topology/mayer_vietoris.hpp
@@ -61,6 +61,7 @@ auto mayer_vietoris_boundary(
                 c = -c;
             }
             col.emplace_back(TC(inds, vals));
+            col.back().sort(); // faces need not be in order of index in Y
 
         } else {
             // boundary is 0
-- 
2.43.0


From 11c155e0f959f99fa107030e0ea7e8a75c3156b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 069/103] fix: witness neighborhoods and the strict witness
 complex use witnesses and not the edges between landmarks

---
 include/topology/dowker.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/topology/dowker.hpp b/include/topology/dowker.hpp
index fc366a9..a5fc526 100755
--- a/include/topology/dowker.hpp
+++ b/include/topology/dowker.hpp
@@ -96,10 +96,10 @@ Matrix<T> dowker_edge_param(
     return R;
 }
 
-// get witness edge parameters
-// for witness filtration
+// distances from landmarks (rows) to points (columns)
+// less the distance of each point to its nu-th nearest landmark
 template <typename T, typename M>
-Matrix<T> witness_edge_param(
+Matrix<T> witness_param(
     const DataSet<T> &X,
     const DataSet<T> &L,
     const M &dist,
@@ -121,7 +121,19 @@ Matrix<T> witness_edge_param(
         }
     }
 
-    return dowker_edge_param(pdist);
+    return pdist;
+}
+
+// get witness edge parameters
+// for witness filtration
+template <typename T, typename M>
+Matrix<T> witness_edge_param(
+    const DataSet<T> &X,
+    const DataSet<T> &L,
+    const M &dist,
+    const size_t nu
+) {
+    return dowker_edge_param(witness_param(X, L, dist, nu));
 }
 
 
@@ -246,7 +258,7 @@ inline auto witness_neighborhoods(
     const size_t nu,
     const T rmax
 ) {
-    auto pdist = witness_edge_param(X, L, dist, nu);
+    auto pdist = witness_param(X, L, dist, nu);
     // get cover
     return neighborhoods(pdist, rmax);
 }
-- 
2.43.0


From 6953f600cc6b50a9eac6b0fa42da12f8b784c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 070/103] fix: Rips functors report radii that decrease along
 an arrow with the documented exception instead of terminating

---
 include/multigraph/functors.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 242175d..580ddd5 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -101,6 +101,13 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// exceptions can not leave the parallel regions below
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of simplicial complexes and maps
 	Diagram<SimplicialComplex, CellularMap> TD(n, m);
 
@@ -116,9 +123,6 @@ Diagram<SimplicialComplex, CellularMap> Rips(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 	    TD.set_edge(i, s, t,
 	                    SimplicialMap(TD.node[s] , TD.node[t], D.edata[i])
 	                   );
@@ -277,6 +281,13 @@ auto RipsHom(
 
 	size_t n = D.nnode();
 	size_t m = D.nedge();
+	// exceptions can not leave the parallel region below
+	for (size_t i = 0; i < m; i++) {
+		if (rmax[D.elist[i].targ] < rmax[D.elist[i].src]) {
+			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
+		}
+	}
+
 	// Diagram of dimensions and induced maps
 	Diagram<size_t, MT> TD(n, m);
 
@@ -287,9 +298,6 @@ auto RipsHom(
 	for (size_t i = 0; i < m; i++) {
 	    auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
-		if (rmax[t] < rmax[s]) {
-			throw std::range_error("Rips parameter must be non-decreasing from source to target.");
-		}
 		// handle nodes
 		auto Is = get_subset(X, D.node[s]);
 		auto It = get_subset(X, D.node[t]);
-- 
2.43.0


From db21784837181bef35ae13d6fa5e049d7f4ae18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 071/103] fix: RipsHom computes the dimension of nodes without
 edges

---
 include/multigraph/functors.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/multigraph/functors.hpp b/include/multigraph/functors.hpp
index 580ddd5..570f99e 100755
--- a/include/multigraph/functors.hpp
+++ b/include/multigraph/functors.hpp
@@ -318,6 +318,7 @@ auto RipsHom(
 	// extract dimensions for nodes
 	// we do this by iterating over edges
 	// do this sequentially to avoid race conditions
+	std::vector<bool> has_edge(n, false);
 	for (size_t i = 0; i < m; i++) {
 		auto s = D.elist[i].src;
 	    auto t = D.elist[i].targ;
@@ -325,6 +326,17 @@ auto RipsHom(
 		auto dt = TD.edata[i].nrow();
 		TD.set_node(s, ds);
 		TD.set_node(t, dt);
+		has_edge[s] = true;
+		has_edge[t] = true;
+	}
+
+	// nodes that do not appear on any edge
+	for (size_t i = 0; i < n; i++) {
+		if (has_edge[i]) { continue; }
+		auto Ii = get_subset(X, D.node[i]);
+		auto Xi = RipsComplex<CpxT>(Ii, dist, rmax[i], hdim+1);
+		auto Ri = Reduce(Xi, FT());
+		TD.set_node(i, Ri.hdim(hdim));
 	}
 
 	return TD;
-- 
2.43.0


From e103da3d87f800237de4cfc6337402dc245fe7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 072/103] fix: adding a cell whose faces are missing to a
 Filtration no longer writes outside of the list of values

---
 include/filtration/filtration.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b62420c..b69d660 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -139,6 +139,8 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(TF t, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		reserve(X.maxdim());
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
@@ -153,6 +155,8 @@ public:
 	template <class ...Ts>
 	inline cell_ind add_directed(TF t, Ts (&...args)) {
 		cell_ind ret = X.add_directed(args...);
+		reserve(X.maxdim());
+		if (ret.ind == bats::NO_IND) { return ret; } // cell was not added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind] = t;
 		return ret;
-- 
2.43.0


From 4a7ff51fd07c4e742a38377db4e6a971643e5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 073/103] fix: Filtration add_recursive keeps the values of
 cells that are already present

---
 include/filtration/filtration.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index b69d660..615b9b1 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -173,8 +173,13 @@ public:
 	*/
 	template <class ...Ts>
 	inline std::vector<cell_ind> add_recursive(TF t, Ts (&...args)) {
+		// number of cells in each dimension before insertion
+		std::vector<size_t> ct(val.size());
+		for (size_t k = 0; k < val.size(); k++) { ct[k] = val[k].size(); }
+
 		std::vector<cell_ind> ret = X.add_recursive(args...);
 		for (auto &r : ret) {
+			if (r.dim < ct.size() && r.ind < ct[r.dim]) { continue; } // not added
 			reserve(r.dim, r.ind+1);
 			val[r.dim][r.ind] = t;
 		}
-- 
2.43.0


From 280bd50d91d355362af9dad243bde9d9d68bfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 074/103] fix: sublevel sets of packed complexes keep vertex
 labels larger than the number of vertices

---
 include/filtration/filtration.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/filtration/filtration.hpp b/include/filtration/filtration.hpp
index 615b9b1..263037a 100755
--- a/include/filtration/filtration.hpp
+++ b/include/filtration/filtration.hpp
@@ -215,7 +215,12 @@ public:
 	@param a upper bound of levelset
 	*/
 	CpxT sublevelset(const TF a) const {
-		CpxT Y(X.ncells(0), X.maxdim()); // initialize new complex
+		// vertex labels need not be contiguous
+		size_t n = X.ncells(0);
+		for (size_t i = 0; i < X.ncells(0); ++i) {
+			for (size_t v : X.get_cell(0, i)) { n = std::max(n, v + 1); }
+		}
+		CpxT Y(n, X.maxdim()); // initialize new complex
 		for (size_t k = 0; k < maxdim() + 1; ++k) {
 			for (size_t i = 0; i < ncells(k); ++i) {
 				if (val[k][i] <= a) {
-- 
2.43.0


From 162525b0637cd6e3d3c58c370556e3629289f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 075/103] fix: find_sorted_lt must not look before the
 beginning of the range

---
 include/util/sorted.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index ccf4368..7e0847d 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -201,12 +201,10 @@ size_t find_sorted_lt(const TI &begin, const TI &end, const T &v) {
         end,
         v
     );
+    // every element is at least v
+    if (it == begin) { return bats::NO_IND; }
     it--;
-    if (*it < v) {
-        return it - begin;
-    }
-    return bats::NO_IND;
-    //return it--;
+    return it - begin;
 }
 
 // return complement of sorted vector in range [0,n)
-- 
2.43.0


From c56bc116e84558ed2a84c5123520b42c4340ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 076/103] fix: sorted intersections below a bound must apply
 the bound to the first elements

---
 include/util/sorted.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/util/sorted.hpp b/include/util/sorted.hpp
index 7e0847d..c4bb4ce 100755
--- a/include/util/sorted.hpp
+++ b/include/util/sorted.hpp
@@ -87,19 +87,16 @@ void intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval, std::vector<T
     c.clear();
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
-            if (ia == a.cend() || !(*ia < maxval)) {break;}
         } else if (*ib < *ia) {
             ++ib;
-            if (ib == b.cend() || !(*ib < maxval)) {break;}
         } else {
             // *ia == *ib
             c.emplace_back(*ia);
             ++ia;
             ++ib;
-          if (ia == a.cend() || ib == b.cend() || !(*ia < maxval) || !(*ib < maxval)) {break;}
         }
     }
 }
@@ -110,13 +107,11 @@ template <typename T, typename C1, typename C2>
 bool has_intersect_sorted_lt(const C1 &a, const C2 &b, const T maxval) {
     auto ia = a.cbegin();
     auto ib = b.cbegin();
-    while (ia != a.cend() && ib != b.cend()) {
+    while (ia != a.cend() && ib != b.cend() && *ia < maxval && *ib < maxval) {
         if (*ia < *ib) {
             ++ia;
-            if (ia == a.cend() || !(*ia < maxval)) {break;}
         } else if (*ib < *ia) {
             ++ib;
-            if (ib == b.cend() || !(*ib < maxval)) {break;}
         } else {
             // *ia == *ib
             return true;
-- 
2.43.0


From 8e70afec879f6f9978d04c126038357a3bea9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 077/103] fix: reading a rational vector entry must not drop
 its denominator

---
 include/linalg/abstract_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/linalg/abstract_vector.hpp b/include/linalg/abstract_vector.hpp
index 5d8345a..a51fbfe 100755
--- a/include/linalg/abstract_vector.hpp
+++ b/include/linalg/abstract_vector.hpp
@@ -23,6 +23,11 @@ struct nzpair {
   		ind = TI(std::stoi(token));
   		getline(iss, token);
   		val = TV(std::stoi(token));
+      // rational values are written as numerator/denominator
+      auto slash = token.find('/');
+      if (slash != std::string::npos) {
+        val = val / TV(std::stoi(token.substr(slash + 1)));
+      }
     }
 
     inline bool operator==(const nzpair &other) const { return (ind == other.ind) && (val == other.val); }
-- 
2.43.0


From b069adff04b82495a8a04b447c53a3433dcfd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 078/103] fix: reading a saved CellularMap must stop at the end
 of the file

---
 include/complex/cell_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex/cell_map.hpp b/include/complex/cell_map.hpp
index afa3997..6b0e595 100755
--- a/include/complex/cell_map.hpp
+++ b/include/complex/cell_map.hpp
@@ -39,7 +39,7 @@ public:
 			std::string line;
 			getline(file, line); // TODO: should be CellularMap
 			// keep putting cell_maps on back
-			while (!file.eof()) {
+			while (file.peek() != std::ifstream::traits_type::eof()) {
 				cell_map.emplace_back(map_type(file));
 			}
             file.close();
-- 
2.43.0


From ba1814d22c67712c75f1c6f451ef697bcb40911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 079/103] fix: read_point_cloud must return one row per line of
 the file

---
 include/topology/data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/data.hpp b/include/topology/data.hpp
index 79d9926..b0e98ee 100755
--- a/include/topology/data.hpp
+++ b/include/topology/data.hpp
@@ -55,7 +55,7 @@ Matrix<T> read_point_cloud(std::string &fname, bool header=false) {
 	for (auto x : data) {
 		*it++ = x;
 	}
-	return Matrix<T>(n, m, newmat); // swap rows and columns for col major format
+	return Matrix<T>(m, n, newmat); // one row per point, in row major format
 }
 
 
-- 
2.43.0


From f0fba31d0d831a949a82000dac5e26d176e4d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 080/103] fix: sparsify_basis must not change the pivots of the
 reduced matrix

---
 include/homology/reduction.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 7750e56..9f991dd 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -290,7 +290,7 @@ void reduce_column_sparsify(
 				M[j].axpy(-a, M[k], tmp);
 			}
 			piv = M[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv >= M[j].nzbegin() && piv->ind == i) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else if (end_offset == 1) {
 			// we can set a new pivot
 			pivot_to_col[piv->ind] = j;
@@ -332,7 +332,7 @@ void sparsify_basis(
 	while (piv - U[j].nzbegin() > 0) {
 		size_t k = piv->ind;
 		// std::cout << k << std::endl;
-		if (R[k].nnz() == 0 || R[k].lastnz().ind < j) {
+		if (R[k].nnz() == 0 || (R[j].nnz() > 0 && R[k].lastnz().ind < R[j].lastnz().ind)) {
 			// can potentially modify using this entry
 			coeff.clear();
 			U[j].coeff_intersection(U[k], coeff); // calculate intersections
@@ -351,7 +351,7 @@ void sparsify_basis(
 				R[j].axpy(-a, R[k], tmp);
 			}
 			piv = U[j].nzend() - end_offset; // next nonzero location
-			if (piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
+			if (piv >= U[j].nzbegin() && piv->ind == k) {++end_offset; --piv;} // if we didn't eliminate this nonzero, continue
 		} else {
 			++end_offset;
 			--piv;
-- 
2.43.0


From 8b67c0f669bdfa7d86126592ca1625630227e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 081/103] fix: negation over F2 must be usable on constants

---
 include/linalg/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/field.hpp b/include/linalg/field.hpp
index 6da51a7..1fac3ba 100755
--- a/include/linalg/field.hpp
+++ b/include/linalg/field.hpp
@@ -283,7 +283,7 @@ public:
     return *this;
   }
 
-  inline ModP& operator-() {
+  inline ModP operator-() const {
     return *this; // no-op
   }
 
-- 
2.43.0


From 4ddc415d513bc36aaf3d8f8347d311480e148efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 082/103] fix: extended_euclidean and Smith form loops must not
 lose divisibility or use dangling iterators

---
 include/linalg/pid.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/linalg/pid.hpp b/include/linalg/pid.hpp
index d3b0d57..afd509f 100755
--- a/include/linalg/pid.hpp
+++ b/include/linalg/pid.hpp
@@ -17,13 +17,11 @@ returns x, y, gcd(a,b), a/gcd(a,b), b/gcd(a,b)
 */
 template <typename PID>
 std::tuple<PID, PID, PID, PID, PID> extended_euclidean(const PID& a, const PID& b) {
-    // TODO: check if a or b is 0.
-    // if (a == 0) {
-    //
-    //     return std::tie(old_s, old_t, old_r, t, s); // x, y, gcd, a/gcd, b/gcd
-    // } else if (b == 0) {
-    //
-    // }
+    // if a divides b then a is the gcd and there is nothing to mix.
+    if (a != 0) {
+        PID q = b / a;
+        if (b == q * a) { return std::make_tuple(PID(1), PID(0), a, PID(1), q); }
+    }
 
     PID s(0), old_s(1);
     PID t(1), old_t(0);
@@ -96,6 +94,7 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
             // first, we loop over columns to the right
             auto p = A[j].nzbegin();
             for (size_t j2 = j+1; j2 < A.ncol(); j2++) {
+                p = A[j].nzbegin(); // mixing columns can move the entries
                 if (A[j2].nnz() > 0 && A[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, A[j2].firstnz().val);
                     A.mix_cols(j, j2, x, -z, y, w);
@@ -115,6 +114,7 @@ void smith_normal_form(ColumnMatrix<TC> &A) {
                     continue_reduction = true;
                     A.mix_rows(p->ind, rp->ind, x, y, -z, w);
                 }
+                p = A[j].nzbegin(); // mixing rows can move the entries
                 rp = A[j].nzend() - 1;
             }
 
@@ -217,6 +217,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
             // first, we loop over columns to the right
             auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
+                p = S[j].nzbegin(); // mixing columns can move the entries
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
@@ -239,6 +240,7 @@ SmithFact<TC> smith_factorization(const ColumnMatrix<TC> &A) {
                     S.mix_rows(p->ind, rp->ind, x, y, -z, w);
                     R.mix_cols(p->ind, rp->ind, w, -y, z, x);
                 }
+                p = S[j].nzbegin(); // mixing rows can move the entries
                 rp = S[j].nzend() - 1;
             }
             // if continue_reduction is true, we mixed a row with the pivot row
@@ -324,6 +326,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
             // first, we loop over columns to the right
             auto p = S[j].nzbegin();
             for (size_t j2 = j+1; j2 < S.ncol(); j2++) {
+                p = S[j].nzbegin(); // mixing columns can move the entries
                 if (S[j2].nnz() > 0 && S[j2].firstnz().ind == j) {
                     auto [x, y, g, w, z] = extended_euclidean(p->val, S[j2].firstnz().val);
                     S.mix_cols(j, j2, x, -z, y, w);
@@ -345,6 +348,7 @@ std::tuple<ColumnMatrix<TC>, ColumnMatrix<TC>> smith_rows(const ColumnMatrix<TC>
                     S.mix_rows(p->ind, rp->ind, x, y, -z, w);
                     R.mix_cols(p->ind, rp->ind, w, -y, z, x);
                 }
+                p = S[j].nzbegin(); // mixing rows can move the entries
                 rp = S[j].nzend() - 1;
             }
             // if continue_reduction is true, we mixed a row with the pivot row
-- 
2.43.0


From 892403c18f73de44006aaf1d660ea5c8b25f4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 083/103] fix: companion_matrix must not store zeros

---
 include/linalg/polynomial.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/linalg/polynomial.hpp b/include/linalg/polynomial.hpp
index 892e56e..13316db 100755
--- a/include/linalg/polynomial.hpp
+++ b/include/linalg/polynomial.hpp
@@ -275,14 +275,16 @@ public:
 		if (!is_monic()) {throw std::runtime_error("Companion matrix requires monic polynomial!");}
 		size_t n = dim(); // size of companion matrix
 		std::vector<SparseVector<T>> cols(n);
+		if (n == 0) { return ColumnMatrix<SparseVector<T>>(n,n,cols); }
 		for (size_t j = 0; j < n-1; j++) {
 			cols[j] = SparseVector<T>({j+1}, {T(1)});
 		}
-		std::vector<size_t> ind(n);
-		std::vector<T> val(n);
+		std::vector<size_t> ind;
+		std::vector<T> val;
 		for (size_t i = 0; i < n; i++) {
-			ind[i] = i;
-			val[i] = -c[i];
+			if (c[i] == 0) { continue; } // only store non-zeros
+			ind.emplace_back(i);
+			val.emplace_back(-c[i]);
 		}
 		cols[n-1] = SparseVector<T>(ind, val);
 
-- 
2.43.0


From e9afd5fbe35b8af457f23a25796016d0080f8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 084/103] fix: RCF_basis must give one vector per degree of a
 factor

---
 include/linalg/rcf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linalg/rcf.hpp b/include/linalg/rcf.hpp
index 2c864c0..b0b51b3 100755
--- a/include/linalg/rcf.hpp
+++ b/include/linalg/rcf.hpp
@@ -52,7 +52,7 @@ ColumnMatrix<SparseVector<T>> RCF_basis(
         if (S(j,j).degree() > 0) {
             auto v = B[j];
             col.emplace_back(v);
-            for (size_t k = 0; k < S(j,j).degree(); k++) {
+            for (size_t k = 1; k < S(j,j).degree(); k++) {
                 v = A * v;
                 col.emplace_back(v);
             }
-- 
2.43.0


From e3189b74d191f23f7092adb828b8a04a4dd5f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 085/103] fix: extension of vertex values must not lose
 negative maxima

---
 include/zigzag/extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 2099436..0184ebc 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -19,7 +19,7 @@ std::pair<T,T> simplex_extrema(
     const Iterator& end,
     const std::vector<T>& f0
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     while (it != end) {
         cmin = std::min(cmin, f0[*it]);
@@ -102,7 +102,7 @@ std::pair<T,T> cube_extrema(
     const std::vector<size_t>& cube,
     const size_t n
 ) {
-    T cmax = std::numeric_limits<T>::min();
+    T cmax = std::numeric_limits<T>::lowest();
     T cmin = std::numeric_limits<T>::max();
     for (auto i : {0,1}) {
         for (auto j : {2,3}) {
-- 
2.43.0


From e67c73e8d42ecd4923a2bbdbdce6eb0bdc4d8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 086/103] fix: extend_levelset must compile

---
 include/zigzag/extension.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zigzag/extension.hpp b/include/zigzag/extension.hpp
index 0184ebc..e18277d 100755
--- a/include/zigzag/extension.hpp
+++ b/include/zigzag/extension.hpp
@@ -130,7 +130,7 @@ complex.  The filtration progresses from low to high values.
 @return val vector of vector of pairs holding zigzag filtration values for each cube.
 */
 template <typename T>
-std::vector<std::vector<std::pair<T,T>>> extend_levelset(
+std::vector<std::vector<std::vector<std::pair<T,T>>>> extend_levelset(
     const std::vector<T>& f0, // function on vertices
     const CubicalComplex& X,
     const T eps,
-- 
2.43.0


From f5f4e8d8780955c973b70aa740a3cb45a04d14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 087/103] fix: zigzag_toplex must give edges the largest value
 of the cubes around them

---
 include/topology/levelset.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/topology/levelset.hpp b/include/topology/levelset.hpp
index 5191f94..aed4039 100644
--- a/include/topology/levelset.hpp
+++ b/include/topology/levelset.hpp
@@ -85,19 +85,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (j > 0 && k > 0) {
                     b = std::min(b, img[i][j-1][k-1]);
-                    d = std::max(b, img[i][j-1][k-1]);
+                    d = std::max(d, img[i][j-1][k-1]);
                 }
                 if (j < n2-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (j > 0 && k < n3-1) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 if (j < n2-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i+1, j, j, k, k});
             }
@@ -111,19 +111,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && k > 0) {
                     b = std::min(b, img[i-1][j][k-1]);
-                    d = std::max(b, img[i-1][j][k-1]);
+                    d = std::max(d, img[i-1][j][k-1]);
                 }
                 if (i < n1-1 && k < n3-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && k < n3-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && k > 0) {
                     b = std::min(b, img[i][j][k-1]);
-                    d = std::max(b, img[i][j][k-1]);
+                    d = std::max(d, img[i][j][k-1]);
                 }
                 X.add(b, d, {i, i, j, j+1, k, k});
             }
@@ -137,19 +137,19 @@ zigzag::ZigzagFiltration<CubicalComplex, T> zigzag_toplex(
                 d = std::numeric_limits<T>::lowest();
                 if (i > 0 && j > 0) {
                     b = std::min(b, img[i-1][j-1][k]);
-                    d = std::max(b, img[i-1][j-1][k]);
+                    d = std::max(d, img[i-1][j-1][k]);
                 }
                 if (i < n1-1 && j < n2-1) {
                     b = std::min(b, img[i][j][k]);
-                    d = std::max(b, img[i][j][k]);
+                    d = std::max(d, img[i][j][k]);
                 }
                 if (i > 0 && j < n2-1) {
                     b = std::min(b, img[i-1][j][k]);
-                    d = std::max(b, img[i-1][j][k]);
+                    d = std::max(d, img[i-1][j][k]);
                 }
                 if (i < n1-1 && j > 0) {
                     b = std::min(b, img[i][j-1][k]);
-                    d = std::max(b, img[i][j-1][k]);
+                    d = std::max(d, img[i][j-1][k]);
                 }
                 X.add(b, d, {i, i, j, j, k, k+1});
             }
-- 
2.43.0


From c647237eb4281e662eef2124ec51a383c41e6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 088/103] fix: levelset must contain every cell whose interval
 meets the window

---
 include/zigzag/zigzag_filtration.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 29bef5a..dea951d 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -155,9 +155,12 @@ public:
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
 			for (size_t i = 0; i < X.ncells(k); ++i) {
-				// assume only one interval
-				if ((s0 < val[k][i][0].first && val[k][i][0].first < s1) || (s0 < val[k][i][0].second && val[k][i][0].second < s1)) {
-					Y.add(X.get_cell(k, i));
+				for (auto& bd : val[k][i]) {
+					// intervals [b,d] and [s0,s1] have non-empty intersection
+					if (bd.first <= s1 && s0 <= bd.second) {
+						Y.add(X.get_cell(k, i));
+						break;
+					}
 				}
 			}
 		}
-- 
2.43.0


From b53360f75dd27590ea2f4df80bdfb1b24622b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 089/103] fix: a cell that a ZigzagFiltration cannot add must
 not be given values

---
 include/zigzag/zigzag_filtration.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index dea951d..24d0bc5 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -105,12 +105,14 @@ public:
 	template <class ...Ts>
 	inline cell_ind add(const T entry, const T exit, Ts (&...args)) {
 		cell_ind ret = X.add(args...);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell could not be added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));
 		return ret;
 	}
 	inline cell_ind add(const T entry, const T exit, std::vector<size_t>&& s) {
 		cell_ind ret = X.add(s);
+		if (ret.ind == bats::NO_IND) { return ret; } // cell could not be added
 		reserve(ret.dim, ret.ind+1);
 		val[ret.dim][ret.ind].emplace_back(std::make_pair(entry, exit));
 		return ret;
-- 
2.43.0


From 7af32e5c50d22d0928bdea97e29ee84445a7ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 090/103] fix: postfix increment of strided iterators must
 return the iterator before the step

---
 include/future/dense.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/future/dense.hpp b/include/future/dense.hpp
index c0b4a45..811118a 100755
--- a/include/future/dense.hpp
+++ b/include/future/dense.hpp
@@ -47,9 +47,9 @@ public:
 	strided_iterator(T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator it = *this; pos_ += stride_; return it; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator it = *this; pos_ -= stride_; return it; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -79,9 +79,9 @@ public:
 	const_strided_iterator(const T* v, ssize_t s) : pos_(v), stride_(s) {}
 	~const_strided_iterator() {}
 
-	iterator operator++(int) { return iterator(pos_+=stride_, stride_); } // postfix
+	iterator operator++(int) { iterator it = *this; pos_ += stride_; return it; } // postfix
 	iterator& operator++() {pos_+=stride_; return *this; } // prefix
-	iterator operator--(int) {return iterator(pos_-=stride_, stride_); } // postfix
+	iterator operator--(int) { iterator it = *this; pos_ -= stride_; return it; } // postfix
 	iterator& operator--() {pos_-=stride_; return *this; } // prefix
 	reference operator*() const { return *pos_; }
 	pointer operator->() const { return pos_; }
@@ -140,9 +140,9 @@ public:
 		const_iterator(const T v, const T s) : val_(v), stride_(s) {}
 		~const_iterator() {}
 
-		iterator operator++(int) { return iterator(val_+=stride_, stride_); } // postfix
+		iterator operator++(int) { iterator it = *this; val_ += stride_; return it; } // postfix
 		iterator& operator++() {val_+=stride_; return *this; } // prefix
-		iterator operator--(int) {return iterator(val_-=stride_, stride_); } // postfix
+		iterator operator--(int) { iterator it = *this; val_ -= stride_; return it; } // postfix
 		iterator& operator--() {val_-=stride_; return *this; } // prefix
 		reference operator*() const { return val_; }
 		pointer operator->() const { return &val_; }
-- 
2.43.0


From 50cd8fe2e5c7d2904120e44ce50171cf4fdaf649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 091/103] fix: a descending range must start at its first
 argument

---
 include/future/dense.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/future/dense.hpp b/include/future/dense.hpp
index 811118a..dcbc516 100755
--- a/include/future/dense.hpp
+++ b/include/future/dense.hpp
@@ -104,11 +104,7 @@ private:
 public:
 	range() : begin_(0), end_(0), stride_(0) {}
 	range(T b, T e) : begin_(b), end_(e), stride_(1) {
-		if (e < b) {
-			begin_ = e;
-			end_ = b;
-			stride_ = T(-1);
-		}
+		if (e < b) { stride_ = T(-1); }
 	}
 	range(T b, T e, T s) : begin_(b), end_(e), stride_(s) {}
 
-- 
2.43.0


From d4423271f4937bc7dc10ab08cbc5f6116eda0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 092/103] fix: the permutations of future::LU must not be
 transposed

---
 include/future/lu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index ee3f84c..bc6f184 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -195,7 +195,7 @@ LUFact<MT> LU(const MT &A0) {
 		}
 	}
 
-	return LUFact(P.transpose(), unit_lower(A), upper(A), Q.transpose());
+	return LUFact(std::move(P), unit_lower(A), upper(A), std::move(Q));
 }
 
 }
-- 
2.43.0


From 1ff6c201b407f80372824b4ba71403c8f88bef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 093/103] fix: future::LU must handle matrices that are empty
 or not square

---
 include/future/lu.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index bc6f184..d52ac98 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <utility>
 
 namespace bats {
@@ -137,7 +138,7 @@ MT unit_lower(const MT &A) {
 	MT L = MT::identity(m);
 	// loop in row major order
 	for (size_t i = 1; i < m; i++) {
-		for (size_t j = 0; j < i; j++ ) {
+		for (size_t j = 0; j < std::min(i, n); j++ ) {
 			L(i,j) = A(i,j);
 		}
 	}
@@ -174,7 +175,7 @@ LUFact<MT> LU(const MT &A0) {
 	MT Q = MT::identity(n);
 	// maintain invariant P^T A Q^T
 
-	for (size_t k = 0; k < n-1; k++) {
+	for (size_t k = 0; k < std::min(m, n); k++) {
 		auto [mu, lam] = find_pivot_complete(A, k);
 		// do pivoting
 		A.swap_rows(k, mu);
-- 
2.43.0


From 5fdd5ccef72307754e0bd3709f943c77fda89e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 094/103] fix: future::l_solve must report inconsistent systems

---
 include/future/lu.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/future/lu.hpp b/include/future/lu.hpp
index d52ac98..a8e04dd 100755
--- a/include/future/lu.hpp
+++ b/include/future/lu.hpp
@@ -36,6 +36,10 @@ bool l_solve(const MT &L, I1& y, I2& x) {
 		}
 	}
 
+	// consistent if there is no residual
+	for (size_t i = 0; i < L.nrow(); i++) {
+		if (y[i] != 0) { return false; }
+	}
 	return true;
 }
 
-- 
2.43.0


From a7dde99bf8389ea1a541d4b4b8fc0d9ed661f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 095/103] fix: Span::contains must look at the residual of the
 whole vector

---
 include/future/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/future/span.hpp b/include/future/span.hpp
index 5f1599b..cef3188 100755
--- a/include/future/span.hpp
+++ b/include/future/span.hpp
@@ -80,14 +80,14 @@ public:
 	// returns false if vector is not in span
 	template <typename TV>
 	bool contains(const TV &v) const {
-		std::vector<T> v_copy(dim());
+		std::vector<T> v_copy(vdim());
 
 		// put P^T*v in v_copy
 		gemv(Pt, v, v_copy);
 
 		l_residual(L, v_copy);
 
-		auto piv = find_pivot_high(v, vdim(), dim());
+		auto piv = find_pivot_high(v_copy, dim(), vdim());
 
 		// if v_copy has been zeroed out, then in span.
 		return piv == -1 ? true : false;
-- 
2.43.0


From b453caa979b7ba54057e713ee3433da2fa60c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 096/103] fix: dense pivot searches must not read outside the
 matrix

---
 include/linalg/naive_dense.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 1e4019e..87e0e12 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -562,7 +562,7 @@ L<Dense<F,Acc2>> commute(EL<Dense<F,Acc1>> ELmat, L<Dense<F,Acc2>> Lmat) {
     // loop over columns of ELmat
     for (j = 0; j < n && i < m; j++) {
         // increment i until we find a non-zero, or run out of column
-        while (ELmat(i,j) == F(0) && i < m) {
+        while (i < m && ELmat(i,j) == F(0)) {
             i++;
         }
         // column is all zero
@@ -732,7 +732,7 @@ auto find_pivot(M mat,size_t pr, size_t pc){
         prow ++; // try new row
         pcol = pc;
         //search col, give up if u reach last col
-        while( (mat(prow,pcol)==F(0)) & (pcol < mat.n)){
+        while( pcol < mat.n && mat(prow,pcol)==F(0) ){
             pcol++;
         }
     }while((pcol == mat.n) && !(prow == mat.m-1));
-- 
2.43.0


From 51c6b25d7fbc3d81c053523a2be7012df02141e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 097/103] fix: apply_matmul_on_right must return the product

---
 include/linalg/naive_dense.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linalg/naive_dense.hpp b/include/linalg/naive_dense.hpp
index 87e0e12..29cfb08 100755
--- a/include/linalg/naive_dense.hpp
+++ b/include/linalg/naive_dense.hpp
@@ -535,12 +535,12 @@ A<Dense<F,Acc2>> apply_matmul_on_left(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> A
 }
 
 template <typename F,typename Acc1,typename Acc2>
-A<Dense<F,Acc2>> apply_matmul_on_right(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> Amat2) {
+A<Dense<F,Acc1>> apply_matmul_on_right(A<Dense<F,Acc1>> Amat1, A<Dense<F,Acc2>> Amat2) {
     size_t m = Amat1.nrow();
     for (size_t i = 0; i < m; i++) {
         matmul(Amat1.r(i), Amat2);
     }
-    return Amat2;
+    return Amat1;
 }
 
 
-- 
2.43.0


From 539d633675d47f9e8468f44553c25f9f8008d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 098/103] fix: the third edge of a Sierpinski triangle must be
 mapped to its own halves

---
 include/topology/extras.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/topology/extras.hpp b/include/topology/extras.hpp
index c9f52bf..7140205 100755
--- a/include/topology/extras.hpp
+++ b/include/topology/extras.hpp
@@ -101,7 +101,7 @@ Diagram<CellComplex, CellularMap> serpinski_diagram(
 
             col1[tri.ab] = Vint({t1.ab, t2.ab}, {1, 1});
             col1[tri.bc] = Vint({t2.bc, t3.bc}, {1, 1});
-            col1[tri.ca] = Vint({t2.ca, t1.ca}, {1, 1});
+            col1[tri.ca] = Vint({t1.ca, t3.ca}, {1, 1});
 
             tri_bdry.emplace_back(Vint({t1.bc, t2.ca, t3.ab}, {-1, -1, -1}));
         }
-- 
2.43.0


From 6854224b1a716738fe4eef57deed56e593cb1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 099/103] fix: reduce_column_sparsify must look at the first
 entry of the column

---
 include/homology/reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/homology/reduction.hpp b/include/homology/reduction.hpp
index 9f991dd..0cab0a6 100755
--- a/include/homology/reduction.hpp
+++ b/include/homology/reduction.hpp
@@ -259,7 +259,7 @@ void reduce_column_sparsify(
 ) {
 	size_t end_offset = 1; // start looking at last nonzero
 	auto piv = M[j].nzend() - end_offset; // nonzero location
-	while (piv - M[j].nzbegin() > 0) {
+	while (piv - M[j].nzbegin() >= 0) {
 		if (pivot_to_col[piv->ind] == j) {
 			// do nothing, because this is already a pivot
 			++end_offset;
-- 
2.43.0


From 7d58c2d5e22cc9161d5847dde16a4ee80749ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 100/103] fix: persistence_pairs_vec of a graded space must
 honour permuted

---
 include/persistence/filtered_dgbasis.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/persistence/filtered_dgbasis.hpp b/include/persistence/filtered_dgbasis.hpp
index c821ad9..d72fd9a 100644
--- a/include/persistence/filtered_dgbasis.hpp
+++ b/include/persistence/filtered_dgbasis.hpp
@@ -146,6 +146,14 @@ struct ReducedFilteredDGVectorSpace {
 		const bool permuted=false
 	) const {
 		std::vector<PersistencePair<T>> pairs = persistence_pairs(k);
+		if (permuted) {
+			// return critical indices in filtration order
+			auto iperm = filtration_iperm(perm);
+			for (auto& p : pairs) {
+				p.birth_ind = iperm[k][p.birth_ind];
+				if (p.death_ind != bats::NO_IND) {p.death_ind = iperm[k+1][p.death_ind];}
+			}
+		}
 		std::vector<T> bd(2*pairs.size());
 		std::vector<size_t> inds(2*pairs.size());
 		for (size_t i = 0; i < pairs.size(); ++i) {
-- 
2.43.0


From 6629a21d4a99eed7666578cff7df773b373bbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:16 +0000
Subject: [PATCH 101/103] fix: test_reduce_result compares the top dimension
 too

---
 include/persistence/filtered_basis.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/filtered_basis.hpp b/include/persistence/filtered_basis.hpp
index dd98c00..82bf267 100755
--- a/include/persistence/filtered_basis.hpp
+++ b/include/persistence/filtered_basis.hpp
@@ -251,7 +251,7 @@ bool test_reduce_result(const T& RFCC2, const T& RFCC){
 
     // check persistent homology information
     bool test_result = true;
-    for(size_t k =0; k < RFCC2.maxdim(); k++){
+    for(size_t k =0; k < RFCC2.maxdim() + 1; k++){
         auto R_ps_k = RFCC.persistence_pairs(k);
         auto R2_ps_k = RFCC2.persistence_pairs(k);
         bool test_result_k = barcode_equality(R2_ps_k, R_ps_k);
@@ -262,7 +262,7 @@ bool test_reduce_result(const T& RFCC2, const T& RFCC){
     }
 
     // check RU factorization
-    for(size_t k = 0; k < RFCC2.maxdim(); k++){
+    for(size_t k = 0; k < RFCC2.maxdim() + 1; k++){
         auto U_inv_k = u_inv(U[k]);
         auto U2_inv_k = u_inv(U2[k]);
         if(!(R[k] * U_inv_k == R2[k] * U2_inv_k)){
-- 
2.43.0


From 4c02ccd82db1f966c34a4506e566094bc516cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:35 +0000
Subject: [PATCH 102/103] fix: zigzag level sets of packed complexes keep
 vertex labels larger than the number of vertices

---
 include/zigzag/zigzag_filtration.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zigzag/zigzag_filtration.hpp b/include/zigzag/zigzag_filtration.hpp
index 24d0bc5..4fff06b 100755
--- a/include/zigzag/zigzag_filtration.hpp
+++ b/include/zigzag/zigzag_filtration.hpp
@@ -152,7 +152,12 @@ public:
 	@param s1 upper bound of levelset
 	*/
 	CpxT levelset(T s0, T s1) const {
-		CpxT Y(X.ncells(0), X.maxdim());
+		// vertex labels need not be contiguous
+		size_t n = X.ncells(0);
+		for (size_t i = 0; i < X.ncells(0); ++i) {
+			for (size_t v : X.get_cell(0, i)) { n = std::max(n, v + 1); }
+		}
+		CpxT Y(n, X.maxdim());
 
 		// loop over dimension
 		for (size_t k = 0; k < X.maxdim() + 1; ++k) {
-- 
2.43.0


From cb4eca62b0270579db7f9222e9968dedbac01db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:11 +0000
Subject: [PATCH 103/103] fix: triangulated products of complexes whose vertex
 labels have gaps

---
 include/complex/simplicial_complex.hpp | 17 ++++++++++++++---
 include/topology/eilenberg_zilber.hpp  |  9 +++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/complex/simplicial_complex.hpp b/include/complex/simplicial_complex.hpp
index ad65930..aa8326c 100755
--- a/include/complex/simplicial_complex.hpp
+++ b/include/complex/simplicial_complex.hpp
@@ -708,6 +708,17 @@ void product_paths(
 }
 
 
+// smallest n such that every vertex label of X is less than n
+// vertex labels need not be contiguous
+template <typename CpxT>
+size_t vertex_label_bound(const CpxT& X) {
+	size_t n = X.ncells(0);
+	for (size_t i = 0; i < X.ncells(0); i++) {
+		for (size_t v : X.get_simplex(0, i)) { n = std::max(n, v + 1); }
+	}
+	return n;
+}
+
 // Triangulated product of X and Y up to simplex dimension k
 // use translator
 // n is number of possible vertices on X
@@ -719,7 +730,7 @@ CpxT TriangulatedProduct(
 	const size_t n
 ) {
 
-	CpxT XY(n * Y.ncells(0), maxdim);
+	CpxT XY(n * vertex_label_bound(Y), maxdim);
 
 	std::vector<size_t> s; // placeholder simplex
 	// loop over simplex dimension of product
@@ -756,12 +767,12 @@ inline CpxT TriangulatedProduct(
 	const CpxT& X,
 	const CpxT& Y,
 	const size_t maxdim
-) { return TriangulatedProduct(X, Y, maxdim, X.ncells(0)); }
+) { return TriangulatedProduct(X, Y, maxdim, vertex_label_bound(X)); }
 
 template <typename CpxT>
 inline CpxT TriangulatedProduct(
 	const CpxT& X,
 	const CpxT& Y
-) { return TriangulatedProduct(X, Y, X.maxdim() + Y.maxdim(), X.ncells(0)); }
+) { return TriangulatedProduct(X, Y, X.maxdim() + Y.maxdim(), vertex_label_bound(X)); }
 
 } // namespace bats
diff --git a/include/topology/eilenberg_zilber.hpp b/include/topology/eilenberg_zilber.hpp
index 811334b..128fd40 100755
--- a/include/topology/eilenberg_zilber.hpp
+++ b/include/topology/eilenberg_zilber.hpp
@@ -30,8 +30,8 @@ auto EilenbergZilber(
 	using VT = SparseVector<T, size_t>;
 	using MT = ColumnMatrix<VT>;
 
-	const size_t n = X.ncells(0); // number of 0-cells in X
-	CpxT XY( n * Y.ncells(0), maxdim); // product simplicial complex
+	const size_t n = vertex_label_bound(X); // number of possible vertices on X
+	CpxT XY( n * vertex_label_bound(Y), maxdim); // product simplicial complex
 
 	ChainComplex<MT> CX(X); // chain complex of X
 	ChainComplex<MT> CY(Y); // chain complex of Y
@@ -279,8 +279,9 @@ auto EilenbergZilber(
 	auto ABinds = kron_index(X, Ainds, Y, Binds, maxdim);
 	auto RCXCY = CXCY.relative_complex(ABinds);
 
-	CpxT R = TriangulatedProduct(X, B, maxdim, X.ncells(0));
-	R.union_add(TriangulatedProduct(A, Y, maxdim, X.ncells(0)));
+	const size_t n = vertex_label_bound(X); // number of possible vertices on X
+	CpxT R = TriangulatedProduct(X, B, maxdim, n);
+	R.union_add(TriangulatedProduct(A, Y, maxdim, n));
 
 	auto Rinds = XY.get_indices(R);
 	ChainComplex<MT> RCXY(XY, R); // relative chain complex
-- 
2.43.0

