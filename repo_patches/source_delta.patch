From 0fb3fd5d540e52bcb0d7801f918048dcaab4a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 001/270] fix: MLPPVector::division_element_wise wrote its
 result through a null pointer instead of in place

---
 core/mlpp_vector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..3ae13e9 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -419,14 +419,11 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
 	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
 		out_ptr[i] = a_ptr[i] / b_ptr[i];
-- 
2.43.0


From a803f14eede6c0aad34da2cce261fabeee8bf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 002/270] fix: MLPPVector::cos computed the square root in
 place

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 3ae13e9..4d81e6c 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1026,7 +1026,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From f6ea27a4dafa3ce217fca9c8efd157d8e2d29de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 003/270] fix: MLPPVector::scalar_multiplyb dereferenced a
 missing operand

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 4d81e6c..d762344 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -491,6 +491,8 @@ Ref<MLPPVector> MLPPVector::scalar_multiplyn(real_t scalar) const {
 	return out;
 }
 void MLPPVector::scalar_multiplyb(real_t scalar, const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND(!a.is_valid());
+
 	int s = a->size();
 
 	if (unlikely(size() != s)) {
-- 
2.43.0


From 383ca3367fa1e4d8ffe68c52fc241293be4ff670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 004/270] fix: MLPPVector::cbrt gave NaN for negative elements

---
 core/mlpp_vector.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index d762344..f5174a3 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -855,13 +855,22 @@ void MLPPVector::sqrtb(const Ref<MLPPVector> &a) {
 }
 
 void MLPPVector::cbrt() {
-	return exponentiate(static_cast<real_t>(1) / static_cast<real_t>(3));
+	real_t *out_ptr = ptrw();
+
+	for (int i = 0; i < _size; ++i) {
+		out_ptr[i] = ::cbrt(out_ptr[i]);
+	}
 }
 Ref<MLPPVector> MLPPVector::cbrtn() const {
-	return exponentiaten(static_cast<real_t>(1) / static_cast<real_t>(3));
+	Ref<MLPPVector> out = duplicate_fast();
+	out->cbrt();
+	return out;
 }
 void MLPPVector::cbrtb(const Ref<MLPPVector> &a) {
-	return exponentiateb(a, static_cast<real_t>(1) / static_cast<real_t>(3));
+	ERR_FAIL_COND(!a.is_valid());
+
+	set_from_mlpp_vector(a);
+	cbrt();
 }
 
 real_t MLPPVector::dot(const Ref<MLPPVector> &b) const {
-- 
2.43.0


From 48cbc50b7763e4d596ed80afb3f34b4907b8a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 005/270] fix: MLPPVector::find read before the data for a
 negative start position

---
 core/mlpp_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index f5174a3..35f5061 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -189,6 +189,10 @@ void MLPPVector::insert(int p_pos, real_t p_val) {
 }
 
 int MLPPVector::find(const real_t &p_val, int p_from) const {
+	if (p_from < 0) {
+		return -1;
+	}
+
 	for (int i = p_from; i < _size; i++) {
 		if (_data[i] == p_val) {
 			return i;
-- 
2.43.0


From fa295e8dbbcfc02050a08a80e64966ebb28f842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 006/270] fix: MLPPVector::cross dereferenced a missing operand
 and accepted vectors that are not three-dimensional

---
 core/mlpp_vector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 35f5061..965e67c 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -896,6 +896,9 @@ Ref<MLPPVector> MLPPVector::cross(const Ref<MLPPVector> &b) {
 	// Cross products exist in R^7 also. Though, I will limit it to R^3 as Wolfram does this.
 	//std::vector<std::vector<real_t>> mat = { onevec(3), a, b };
 
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(_size != 3 || b->size() != 3, Ref<MLPPVector>());
+
 	real_t det1 = element_get(1) * b->element_get(2) - element_get(2) * b->element_get(1);
 	real_t det2 = -(element_get(0) * b->element_get(2) - element_get(2) * b->element_get(0));
 	real_t det3 = element_get(0) * b->element_get(1) - element_get(1) * b->element_get(0);
-- 
2.43.0


From 21c8fa3962dada21b759e7345eafa90b02c8daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 007/270] fix: MLPPVector::outer_product dereferenced a missing
 operand

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 965e67c..ea12ebd 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1420,6 +1420,8 @@ void MLPPVector::subtract_matrix_rowsb(const Ref<MLPPVector> &a, const Ref<MLPPM
 }
 
 Ref<MLPPMatrix> MLPPVector::outer_product(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i sm = Size2i(b->size(), size());
-- 
2.43.0


From 8a4f6fa3aab4e132ba7ee3a56c0868e4ae1d63a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 008/270] fix: MLPPMatrix::set_from_ptr drops (and leaks) the
 current contents before checking its argument

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..bba22db 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -592,8 +592,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From dc0147081e6d25a382526649322d8d8938291694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 009/270] fix: MLPPMatrix::reset keeps a stale size when the
 matrix has no elements

---
 core/mlpp_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.h b/core/mlpp_matrix.h
index 5865b52..d00ae51 100644
--- a/core/mlpp_matrix.h
+++ b/core/mlpp_matrix.h
@@ -80,8 +80,8 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Vector2i();
     }
+    _size = Vector2i();
   }
 
   _FORCE_INLINE_ bool empty() const { return data_size() == 0; }
-- 
2.43.0


From f655c98698d9e35ea0efe5298b0c748b6939ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 010/270] fix: MLPPMatrix::scalar_multiplyb and scalar_addb
 ignore the contents of their operand

---
 core/mlpp_matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index bba22db..34401a4 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1192,10 +1192,10 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *a_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
-		_data[i] = an_ptr[i] * scalar;
+		_data[i] = a_ptr[i] * scalar;
 	}
 }
 
@@ -1225,10 +1225,10 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *a_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
-		_data[i] = an_ptr[i] + scalar;
+		_data[i] = a_ptr[i] + scalar;
 	}
 }
 
-- 
2.43.0


From bba310b0e3e252c6bf93d5c767cb8a7276d54083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 011/270] fix: MLPPMatrix cube roots of negative numbers give
 NaN

---
 core/mlpp_matrix.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 34401a4..e112647 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1497,13 +1497,27 @@ void MLPPMatrix::sqrtb(const Ref<MLPPMatrix> &A) {
 }
 
 void MLPPMatrix::cbrt() {
-	exponentiate(real_t(1) / real_t(3));
+	int ds = data_size();
+
+	for (int i = 0; i < ds; ++i) {
+		_data[i] = std::cbrt(_data[i]);
+	}
 }
 Ref<MLPPMatrix> MLPPMatrix::cbrtn() const {
-	return exponentiaten(real_t(1) / real_t(3));
+	Ref<MLPPMatrix> out = duplicate_fast();
+
+	out->cbrt();
+
+	return out;
 }
 void MLPPMatrix::cbrtb(const Ref<MLPPMatrix> &A) {
-	exponentiateb(A, real_t(1) / real_t(3));
+	ERR_FAIL_COND(!A.is_valid());
+
+	if (this != A.ptr()) {
+		set_from_mlpp_matrix(A);
+	}
+
+	cbrt();
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matrix_powern(const int n) const {
-- 
2.43.0


From 2d90ba70b44a7d77743d2a6da7ef726e0437721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 012/270] fix: MLPPMatrix::diagonal_zeroed clears the matrix
 before rejecting a null diagonal

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index e112647..df4f66c 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2985,10 +2985,10 @@ Ref<MLPPMatrix> MLPPMatrix::diagonal_setn(const Ref<MLPPVector> &a) const {
 }
 
 void MLPPMatrix::diagonal_zeroed(const Ref<MLPPVector> &a) {
-	fill(0);
-
 	ERR_FAIL_COND(!a.is_valid());
 
+	fill(0);
+
 	int a_size = a->size();
 	int ms = MIN(_size.x, _size.y);
 	ms = MIN(ms, a_size);
-- 
2.43.0


From 767e861aa57a8a15f92eeb1ba500a4b8bfafd630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 013/270] fix: matrix products and transposes overwrite an
 operand before reading it when the destination is that operand

---
 core/mlpp_matrix.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index df4f66c..a789a58 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -780,6 +780,11 @@ void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND(_size.x != b_size.y);
 
+	if (unlikely(B.ptr() == this)) {
+		set_from_mlpp_matrix(multn(B));
+		return;
+	}
+
 	Ref<MLPPMatrix> A = duplicate_fast();
 	Size2i a_size = A->size();
 
@@ -849,6 +854,11 @@ void MLPPMatrix::multb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND_MSG(a_size.x != b_size.y, "a_size.x != b_size.y: a_size: " + a_size.operator String() + " b_size: " + b_size.operator String());
 
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->multn(B));
+		return;
+	}
+
 	Size2i rs = Size2i(b_size.x, a_size.y);
 
 	if (unlikely(_size != rs)) {
@@ -1148,6 +1158,11 @@ Ref<MLPPMatrix> MLPPMatrix::transposen() const {
 void MLPPMatrix::transposeb(const Ref<MLPPMatrix> &A) {
 	ERR_FAIL_COND(!A.is_valid());
 
+	if (unlikely(A.ptr() == this)) {
+		transpose();
+		return;
+	}
+
 	Size2i a_size = A->size();
 
 	Size2i s = Size2i(a_size.y, a_size.x);
@@ -2817,6 +2832,12 @@ Ref<MLPPVector> MLPPMatrix::mult_vec(const Ref<MLPPVector> &b) const {
 void MLPPMatrix::mult_veco(const Ref<MLPPVector> &b, Ref<MLPPVector> out) {
 	ERR_FAIL_COND(!out.is_valid() || !b.is_valid());
 
+	if (unlikely(b == out)) {
+		Ref<MLPPVector> b_copy = b->duplicate_fast();
+		mult_veco(b_copy, out);
+		return;
+	}
+
 	int b_size = b->size();
 
 	ERR_FAIL_COND(_size.x < b->size());
-- 
2.43.0


From faeb075921a97e02fec9b14b7741599a4773c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 014/270] fix: the in-place Kronecker product loops over the
 enlarged shape and reads out of bounds; writing into an operand gives garbage

---
 core/mlpp_matrix.cpp | 54 ++------------------------------------------
 1 file changed, 2 insertions(+), 52 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a789a58..47b8f21 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -954,33 +954,7 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!B.is_valid());
-	Size2i a_size = size();
-	Size2i b_size = B->size();
-
-	Ref<MLPPMatrix> A = duplicate_fast();
-
-	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
-
-	const real_t *a_ptr = A->ptr();
-
-	Ref<MLPPVector> row_tmp;
-	row_tmp.instance();
-	row_tmp->resize(b_size.x);
-
-	for (int i = 0; i < _size.y; ++i) {
-		for (int j = 0; j < b_size.y; ++j) {
-			B->row_get_into_mlpp_vector(j, row_tmp);
-
-			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
-				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
-			}
-
-			Ref<MLPPVector> flattened_row = row_tmp->flatten_vectorsn(row);
-
-			row_set_mlpp_vector(i * b_size.y + j, flattened_row);
-		}
-	}
+	set_from_mlpp_matrix(kronecker_productn(B));
 }
 Ref<MLPPMatrix> MLPPMatrix::kronecker_productn(const Ref<MLPPMatrix> &B) const {
 	// [1,1,1,1]   [1,2,3,4,5]
@@ -1044,31 +1018,7 @@ void MLPPMatrix::kronecker_productb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatr
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
-	Size2i a_size = A->size();
-	Size2i b_size = B->size();
-
-	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
-
-	const real_t *a_ptr = A->ptr();
-
-	Ref<MLPPVector> row_tmp;
-	row_tmp.instance();
-	row_tmp->resize(b_size.x);
-
-	for (int i = 0; i < a_size.y; ++i) {
-		for (int j = 0; j < b_size.y; ++j) {
-			B->row_get_into_mlpp_vector(j, row_tmp);
-
-			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < a_size.x; ++k) {
-				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
-			}
-
-			Ref<MLPPVector> flattened_row = row_tmp->flatten_vectorsn(row);
-
-			row_set_mlpp_vector(i * b_size.y + j, flattened_row);
-		}
-	}
+	set_from_mlpp_matrix(A->kronecker_productn(B));
 }
 
 void MLPPMatrix::division_element_wise(const Ref<MLPPMatrix> &B) {
-- 
2.43.0


From 5f2a54bfd743af074cd216c7f8f649e8f761e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 015/270] fix: the determinant of a 1x1 matrix is 0, so its
 inverse is infinite

---
 core/lin_alg.cpp     | 4 +++-
 core/mlpp_matrix.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..a1f2540 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -445,7 +445,9 @@ real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		for (int i = 0; i < d; i++) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 47b8f21..2458b38 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1581,7 +1581,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From ef110739e533368c83595542b27bcba6b6d6b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 016/270] fix: MLPPMatrix::adjointo into the matrix itself
 overwrites entries before using them

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 2458b38..fc6c40c 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1717,6 +1717,11 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 
 	ERR_FAIL_COND(_size.x != _size.y);
 
+	if (unlikely(out.ptr() == this)) {
+		out->set_from_mlpp_matrix(adjoint());
+		return;
+	}
+
 	//Resizing the initial adjoint matrix
 
 	if (unlikely(out->size() != _size)) {
-- 
2.43.0


From 2aa0cbf3ac719b2215019ab6645cb09d372c61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 017/270] fix: MLPPMatrix::pinverse uses A*A instead of A^T*A
 (and dereferences null for matrices that are not square)

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index fc6c40c..dbee38f 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1764,12 +1764,12 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	return transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen());
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen()));
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From 6396387985387c326c80a244908671365db903a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 018/270] fix: inverting or solving with a matrix that is not
 square dereferences null

---
 core/lin_alg.cpp     | 7 ++++++-
 core/mlpp_matrix.cpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index a1f2540..154a0f3 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -546,6 +546,9 @@ Ref<MLPPMatrix> MLPPLinAlg::adjointnm(const Ref<MLPPMatrix> &A) {
 	return adj;
 }
 Ref<MLPPMatrix> MLPPLinAlg::inversenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size().x != A->size().y, Ref<MLPPMatrix>());
+
 	return scalar_multiplynm(1 / detm(A, int(A->size().y)), adjointnm(A));
 }
 Ref<MLPPMatrix> MLPPLinAlg::pinversenm(const Ref<MLPPMatrix> &A) {
@@ -1028,7 +1031,9 @@ Ref<MLPPVector> MLPPLinAlg::flattenvvnv(const Ref<MLPPMatrix> &A) {
 }
 
 Ref<MLPPVector> MLPPLinAlg::solve(const Ref<MLPPMatrix> &A, const Ref<MLPPVector> &b) {
-	return A->inverse()->mult_vec(b);
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPVector>());
+
+	return A->solve(b);
 }
 
 bool MLPPLinAlg::positive_definite_checker(const Ref<MLPPMatrix> &A) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index dbee38f..2af8430 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1755,11 +1755,15 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPMatrix>());
+
 	return adjoint()->scalar_multiplyn(1 / det());
 }
 void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
+	ERR_FAIL_COND(_size.x != _size.y);
+
 	out->set_from_mlpp_matrix(adjoint()->scalar_multiplyn(1 / det()));
 }
 
@@ -2704,6 +2708,8 @@ void MLPPMatrix::flatteno(Ref<MLPPVector> out) const {
 }
 
 Ref<MLPPVector> MLPPMatrix::solve(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPVector>());
+
 	return inverse()->mult_vec(b);
 }
 
-- 
2.43.0


From dcad133ced45df17a513572e8687f65514299dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 019/270] fix: the planar and z-axis rotation matrices are not
 rotations

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 2af8430..57c5915 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1899,7 +1899,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1944,9 +1944,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From 4ce4a718d73193cb2a06fc1930f27817ab0e5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 020/270] fix: MLPPLinAlg::zero_eigenvalue answers the opposite
 (and only sees exact zeros)

---
 core/lin_alg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 154a0f3..0fe3b61 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1073,12 +1073,12 @@ bool MLPPLinAlg::zero_eigenvalue(const Ref<MLPPMatrix> &A) {
 	Size2i eigenvals_size = eigenvals->size();
 
 	for (int i = 0; i < eigenvals_size.y; ++i) {
-		if (eigenvals->element_get(i, i) == 0) { // TODO should it use is_equal_approx?
-			return false;
+		if (Math::is_zero_approx(eigenvals->element_get(i, i))) {
+			return true;
 		}
 	}
 
-	return true;
+	return false;
 }
 
 Ref<MLPPVector> MLPPLinAlg::flattenmnv(const Vector<Ref<MLPPVector>> &A) {
-- 
2.43.0


From 414a9ac478dc4b18c1eae1e477b53500b21845ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 021/270] fix: linear_independence_checker takes the Gram
 determinant over the wrong dimension

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 0fe3b61..852b753 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -47,7 +47,7 @@ Ref<MLPPMatrix> MLPPLinAlg::gram_matrix(const Ref<MLPPMatrix> &A) {
 }
 
 bool MLPPLinAlg::linear_independence_checker(const Ref<MLPPMatrix> &A) {
-	if (gram_matrix(A)->det(A->size().y) == 0) {
+	if (gram_matrix(A)->det(A->size().x) == 0) {
 		return false;
 	}
 
-- 
2.43.0


From b042d3189026048e02841e231a737f8f3c3b5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 022/270] fix: eigen decomposition treats off-diagonal entries
 below 0.5 as zero and repeats eigenvectors of equal eigenvalues

---
 core/lin_alg.cpp     | 133 +------------------
 core/mlpp_matrix.cpp | 304 ++++++++++---------------------------------
 2 files changed, 69 insertions(+), 368 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 852b753..d670361 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -736,137 +736,10 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	/*
-	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
-	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
-	eigenvalues of a matrix is utilizing Jacobi's method.
-	*/
+	MLPPMatrix::EigenResult r = A->eigen();
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> eigenvectors = identitym(A->size().y);
-	Size2i a_size = A->size();
-
-	do {
-		real_t a_ij = A->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = A->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = A->element_get(sub_i, sub_i);
-		real_t a_jj = A->element_get(sub_j, sub_j);
-		//real_t a_ji = A->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
-
-		Ref<MLPPMatrix> P = identitym(A->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
-
-		a_new = matmultnm(matmultnm(inversenm(P), A), P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(A)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
-		eigenvectors = matmultnm(eigenvectors, P);
-		A = a_new;
-
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
-
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
-		}
-	}
-
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
-
-	Size2i eigenvectors_size = eigenvectors->size();
-
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
-		}
-	}
-
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
+	res.eigen_vectors = r.eigen_vectors;
+	res.eigen_values = r.eigen_values;
 
 	return res;
 }
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 57c5915..eb05dfa 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2216,281 +2216,109 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 }
 
 MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
-	EigenResult res;
-
-	/*
-	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
-	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
-	eigenvalues of a matrix is utilizing Jacobi's method.
-	*/
-
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> a_mat = Ref<MLPPMatrix>(this);
-	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
-	Size2i a_size = a_mat->size();
-
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = a_mat->element_get(sub_i, sub_i);
-		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
-
-		Ref<MLPPMatrix> P = identity_mat(a_mat->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
-
-		a_new = P->inverse()->multn(a_mat)->multn(P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
-		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
-
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
-
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
-		}
-	}
-
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
-
-	Size2i eigenvectors_size = eigenvectors->size();
-
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
-		}
-	}
-
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
-
-	return res;
+	return eigenb(Ref<MLPPMatrix>(this));
 }
 MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 	EigenResult res;
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
+	Size2i a_size = A->size();
+
+	ERR_FAIL_COND_V(a_size.x != a_size.y, res);
+
 	/*
 	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
 	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
 	eigenvalues of a matrix is utilizing Jacobi's method.
 	*/
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> a_mat = A;
-	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
-	Size2i a_size = a_mat->size();
-
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = a_mat->element_get(sub_i, sub_i);
-		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
+	int n = a_size.y;
 
-		Ref<MLPPMatrix> P = identity_mat(a_mat->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
+	Ref<MLPPMatrix> a_mat = A->duplicate_fast();
+	Ref<MLPPMatrix> eigenvectors = identity_mat(n);
 
-		a_new = P->inverse()->multn(a_mat)->multn(P);
+	// Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
+	for (int sweep = 0; sweep < 64; ++sweep) {
+		double diagonal = 0;
+		double off_diagonal = 0;
 
-		Size2i a_new_size = a_new->size();
+		for (int i = 0; i < n; ++i) {
+			for (int j = 0; j < n; ++j) {
+				double a_ij = a_mat->element_get(i, j);
 
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
+				if (i == j) {
+					diagonal += a_ij * a_ij;
+				} else {
+					off_diagonal += a_ij * a_ij;
 				}
 			}
 		}
 
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
+		if (off_diagonal <= 1e-16 * diagonal) {
+			break;
 		}
 
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
+		for (int i = 0; i < n; ++i) {
+			for (int j = i + 1; j < n; ++j) {
+				double a_ij = a_mat->element_get(i, j);
 
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
+				if (a_ij == 0) {
+					continue;
 				}
-			}
-		}
-
-		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
 
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
+				double a_ii = a_mat->element_get(i, i);
+				double a_jj = a_mat->element_get(j, j);
+				double theta = a_ii == a_jj ? Math_PI / 4 : 0.5 * ::atan(2 * a_ij / (a_ii - a_jj));
+				double c = ::cos(theta);
+				double s = ::sin(theta);
+
+				// A = P^T * A * P; V = V * P
+				for (int k = 0; k < n; ++k) {
+					double a_ki = a_mat->element_get(k, i);
+					double a_kj = a_mat->element_get(k, j);
+					a_mat->element_set(k, i, c * a_ki + s * a_kj);
+					a_mat->element_set(k, j, c * a_kj - s * a_ki);
+
+					double v_ki = eigenvectors->element_get(k, i);
+					double v_kj = eigenvectors->element_get(k, j);
+					eigenvectors->element_set(k, i, c * v_ki + s * v_kj);
+					eigenvectors->element_set(k, j, c * v_kj - s * v_ki);
+				}
 
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
+				for (int k = 0; k < n; ++k) {
+					double a_ik = a_mat->element_get(i, k);
+					double a_jk = a_mat->element_get(j, k);
+					a_mat->element_set(i, k, c * a_ik + s * a_jk);
+					a_mat->element_set(j, k, c * a_jk - s * a_ik);
+				}
 			}
 		}
 	}
 
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
+	// Sort the eigenvalues in decreasing order, every eigenvector stays with its eigenvalue.
+	res.eigen_values = matn_zero(n, n);
+	res.eigen_vectors = matn_zero(n, n);
+
+	Vector<int> order;
+	for (int i = 0; i < n; ++i) {
+		int pos = 0;
+
+		while (pos < order.size() && a_mat->element_get(order[pos], order[pos]) >= a_mat->element_get(i, i)) {
+			++pos;
 		}
-	}
 
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
+		order.insert(pos, i);
+	}
 
-	Size2i eigenvectors_size = eigenvectors->size();
+	for (int j = 0; j < n; ++j) {
+		res.eigen_values->element_set(j, j, a_mat->element_get(order[j], order[j]));
 
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+		for (int i = 0; i < n; ++i) {
+			res.eigen_vectors->element_set(i, j, eigenvectors->element_get(i, order[j]));
 		}
 	}
 
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
-
 	return res;
 }
 Array MLPPMatrix::eigen_bind() {
-- 
2.43.0


From d21f2aa496127ae25d0ab61a6866d60ee66685de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 023/270] fix: the SVD returns V instead of its transpose, with
 signs that do not match U, so the factors do not multiply back

---
 core/lin_alg.cpp     | 22 ++++--------------
 core/mlpp_matrix.cpp | 54 +++++++++++++++++++++-----------------------
 2 files changed, 30 insertions(+), 46 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index d670361..d873a0e 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -749,25 +749,11 @@ MLPPLinAlg::SVDResult MLPPLinAlg::svd(const Ref<MLPPMatrix> &A) {
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	Size2i a_size = A->size();
-
-	EigenResult left_eigen = eigen(matmultnm(A, transposenm(A)));
-	EigenResult right_eigen = eigen(matmultnm(transposenm(A), A));
-
-	Ref<MLPPMatrix> singularvals = sqrtnm(left_eigen.eigen_values);
-	Ref<MLPPMatrix> sigma = zeromatnm(a_size.y, a_size.x);
-
-	Size2i sigma_size = sigma->size();
-
-	for (int i = 0; i < sigma_size.y; ++i) {
-		for (int j = 0; j < sigma_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
-		}
-	}
+	MLPPMatrix::SVDResult r = A->svd();
 
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	res.U = r.U;
+	res.S = r.S;
+	res.Vt = r.Vt;
 
 	return res;
 }
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index eb05dfa..79ca975 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2345,53 +2345,51 @@ Array MLPPMatrix::eigenb_bind(const Ref<MLPPMatrix> &A) {
 }
 
 MLPPMatrix::SVDResult MLPPMatrix::svd() const {
+	return svdb(Ref<MLPPMatrix>(this));
+}
+
+MLPPMatrix::SVDResult MLPPMatrix::svdb(const Ref<MLPPMatrix> &A) const {
 	SVDResult res;
 
-	EigenResult left_eigen = multn(transposen())->eigen();
-	EigenResult right_eigen = transposen()->multn(Ref<MLPPMatrix>(this))->eigen();
+	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	Ref<MLPPMatrix> singularvals = left_eigen.eigen_values->sqrtn();
-	Ref<MLPPMatrix> sigma = matn_zero(_size.y, _size.x);
+	Size2i a_size = A->size();
 
-	Size2i singularvals_size = singularvals->size();
+	Ref<MLPPMatrix> at = A->transposen();
 
-	for (int i = 0; i < singularvals_size.y; ++i) {
-		for (int j = 0; j < singularvals_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
-		}
-	}
+	EigenResult left_eigen = A->multn(at)->eigen();
+	EigenResult right_eigen = at->multn(A)->eigen();
 
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	Ref<MLPPMatrix> sigma = matn_zero(a_size.y, a_size.x);
 
-	return res;
-}
+	int count = MIN(a_size.x, a_size.y);
 
-MLPPMatrix::SVDResult MLPPMatrix::svdb(const Ref<MLPPMatrix> &A) const {
-	SVDResult res;
+	for (int i = 0; i < count; ++i) {
+		real_t eigen_value = left_eigen.eigen_values->element_get(i, i);
 
-	ERR_FAIL_COND_V(!A.is_valid(), res);
+		if (eigen_value <= left_eigen.eigen_values->element_get(0, 0) * static_cast<real_t>(1e-6)) {
+			break;
+		}
 
-	Size2i a_size = A->size();
+		real_t singular_value = Math::sqrt(eigen_value);
 
-	EigenResult left_eigen = A->multn(A->transposen())->eigen();
-	EigenResult right_eigen = A->transposen()->multn(A)->eigen();
+		sigma->element_set(i, i, singular_value);
 
-	Ref<MLPPMatrix> singularvals = left_eigen.eigen_values->sqrtn();
-	Ref<MLPPMatrix> sigma = matn_zero(a_size.y, a_size.x);
+		// An eigenvector is only determined up to its sign (or a rotation), so each right singular vector has to be matched to its left one.
+		for (int j = 0; j < a_size.x; ++j) {
+			real_t sum = 0;
 
-	Size2i singularvals_size = singularvals->size();
+			for (int k = 0; k < a_size.y; ++k) {
+				sum += at->element_get(j, k) * left_eigen.eigen_vectors->element_get(k, i);
+			}
 
-	for (int i = 0; i < singularvals_size.y; ++i) {
-		for (int j = 0; j < singularvals_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
+			right_eigen.eigen_vectors->element_set(j, i, sum / singular_value);
 		}
 	}
 
 	res.U = left_eigen.eigen_vectors;
 	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	res.Vt = right_eigen.eigen_vectors->transposen();
 
 	return res;
 }
-- 
2.43.0


From f2e2ce039ce6cba4084ad564e496d8abc9e4e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 024/270] fix: MLPPTensor3::row_get_vector ignores the z index

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..fcf0b1a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = p_index_y * _size.x + _size.x * _size.y * p_index_z;
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From a8ee75397a731c314cb35290699ca9ed2e7fe2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 025/270] fix: MLPPTensor3::z_slice_remove_unordered reads past
 the last slice

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index fcf0b1a..a3e282b 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -225,7 +225,7 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   int end_ind = calculate_z_slice_index(p_index + 1);
 
   for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+    _data[i] = _data[ds + i - start_ind];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From 37895ad87258daca37e4a35e1be134db4ef995c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 026/270] fix: MLPPTensor3 x and y slices swap the x and y
 indices

---
 core/mlpp_tensor3.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index a3e282b..457ee05 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -634,7 +634,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -655,7 +655,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
@@ -665,13 +665,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -688,11 +688,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
-- 
2.43.0


From 2a1a68d56fd71615ac93edc7d2ce97c3b8d71a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 027/270] fix: MLPPTensor3::z_slice_get_into_* dereference a
 missing target

---
 core/mlpp_tensor3.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 457ee05..12d23cd 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -491,6 +491,7 @@ Ref<MLPPVector> MLPPTensor3::z_slice_get_mlpp_vector(int p_index_z) const {
 void MLPPTensor3::z_slice_get_into_mlpp_vector(int p_index_z,
                                                Ref<MLPPVector> target) const {
   ERR_FAIL_INDEX(p_index_z, _size.z);
+  ERR_FAIL_COND(!target.is_valid());
 
   int fmds = z_slice_data_size();
 
@@ -535,6 +536,7 @@ Ref<MLPPMatrix> MLPPTensor3::z_slice_get_mlpp_matrix(int p_index_z) const {
 void MLPPTensor3::z_slice_get_into_mlpp_matrix(int p_index_z,
                                                Ref<MLPPMatrix> target) const {
   ERR_FAIL_INDEX(p_index_z, _size.z);
+  ERR_FAIL_COND(!target.is_valid());
 
   int fmds = z_slice_data_size();
   Size2i fms = z_slice_size();
-- 
2.43.0


From 3edd3ca21ffcc17807c111a9efa95cd748f3c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 028/270] fix: MLPPTensor3::reset keeps a stale size when the
 tensor has no elements

---
 core/mlpp_tensor3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.h b/core/mlpp_tensor3.h
index a0c30f5..26f4712 100644
--- a/core/mlpp_tensor3.h
+++ b/core/mlpp_tensor3.h
@@ -81,8 +81,9 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Size3i();
     }
+
+    _size = Size3i();
   }
 
   _FORCE_INLINE_ bool empty() const { return _size == Size3i(); }
-- 
2.43.0


From e60c6f7d93ec146daa08e39d3eeaf1bae960dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 029/270] fix: MLPPTensor3::set_from_std_vectors reads the
 first row of a slice that has none

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 12d23cd..cfab10a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -2300,7 +2300,7 @@ std::vector<real_t> MLPPTensor3::to_flat_std_vector() const {
 
 void MLPPTensor3::set_from_std_vectors(
     const std::vector<std::vector<std::vector<real_t>>> &p_from) {
-  if (p_from.size() == 0) {
+  if (p_from.size() == 0 || p_from[0].size() == 0) {
     reset();
     return;
   }
-- 
2.43.0


From 0eb38b5ff85d02b90e26cf67e84269c0c4588672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 030/270] fix: MLPPTensor3::scalar_multiplyb and scalar_addb
 ignore the contents of their operand

---
 core/mlpp_tensor3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index cfab10a..ac1b391 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1681,7 +1681,7 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] * scalar;
@@ -1714,7 +1714,7 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From b496803e6f602dc905f85cbe576b469d61e06cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 031/270] fix: MLPPTensor3::z_slices_add_image grows the y
 extent instead of adding slices

---
 core/mlpp_tensor3.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index ac1b391..5049f02 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -731,18 +731,16 @@ void MLPPTensor3::z_slices_add_image(const Ref<Image> &p_img,
   ERR_FAIL_COND(channel_count == 0);
 
   if (unlikely(_size == Size3i())) {
-    resize(Size3i(img_size.x, img_size.y, channel_count));
+    resize(Size3i(img_size.x, img_size.y, 0));
   }
 
   Size2i fms = z_slice_size();
 
   ERR_FAIL_COND(img_size != fms);
 
-  int start_channel = _size.y;
+  int start_channel = _size.z;
 
-  _size.y += channel_count;
-
-  resize(_size);
+  resize(Size3i(_size.x, _size.y, start_channel + channel_count));
 
   Ref<Image> img = p_img;
 
-- 
2.43.0


From 0ded45783a78d7ca825c3cc217a190b19b3a00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 032/270] fix: MLPPTensor3 x and y slice images swap their axes

---
 core/mlpp_tensor3.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 5049f02..5ca7225 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1152,7 +1152,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_x, y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
 
       ++i;
     }
@@ -1215,8 +1215,8 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
       Color c;
 
       float e = element_get(z, y, p_index_x);
@@ -1225,7 +1225,7 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, y, c);
+      p_target->set_pixel(y, z, c);
     }
   }
 
@@ -1257,9 +1257,9 @@ void MLPPTensor3::x_slice_set_image(const Ref<Image> &p_img,
 
   img->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
-      Color c = img->get_pixel(z, y);
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
+      Color c = img->get_pixel(y, z);
 
       element_set(z, y, p_index_x, c[channel_index]);
     }
@@ -1287,7 +1287,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, x, p_index_y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
 
       ++i;
     }
@@ -1350,8 +1350,8 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int x = 0; x < fms.y; ++x) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int x = 0; x < fms.x; ++x) {
       Color c;
 
       float e = element_get(z, p_index_y, x);
@@ -1360,7 +1360,7 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, x, c);
+      p_target->set_pixel(x, z, c);
     }
   }
 
-- 
2.43.0


From e2ee2cd3907b06989c412b0981698e38204eaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 033/270] fix: the covariance matrix of rows takes the shape of
 its operand, so it reads rows that do not exist or leaves entries out

---
 core/lin_alg.cpp     |  6 ++++--
 core/mlpp_matrix.cpp | 28 +++-------------------------
 2 files changed, 7 insertions(+), 27 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index d873a0e..1fcd6cc 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -701,6 +701,8 @@ Ref<MLPPMatrix> MLPPLinAlg::identitym(int d) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	MLPPStat stat;
 
 	Ref<MLPPMatrix> cov_mat;
@@ -708,7 +710,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 
 	Size2i a_size = A->size();
 
-	cov_mat->resize(a_size);
+	cov_mat->resize(Size2i(a_size.y, a_size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -721,7 +723,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 	for (int i = 0; i < a_size.y; ++i) {
 		A->row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < a_size.x; ++j) {
+		for (int j = 0; j < a_size.y; ++j) {
 			A->row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 79ca975..418c9e3 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2165,7 +2165,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2178,7 +2178,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2190,29 +2190,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	MLPPStat stat;
-
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
-	}
-
-	Ref<MLPPVector> a_i_row_tmp;
-	a_i_row_tmp.instance();
-	a_i_row_tmp->resize(_size.x);
-
-	Ref<MLPPVector> a_j_row_tmp;
-	a_j_row_tmp.instance();
-	a_j_row_tmp->resize(_size.x);
-
-	for (int i = 0; i < _size.y; ++i) {
-		row_get_into_mlpp_vector(i, a_i_row_tmp);
-
-		for (int j = 0; j < _size.x; ++j) {
-			row_get_into_mlpp_vector(j, a_j_row_tmp);
-
-			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-		}
-	}
+	out->set_from_mlpp_matrix(cov());
 }
 
 MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
-- 
2.43.0


From 689b7db3ba09ab205b6bb92068201f7953062b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 034/270] fix: MLPPLinAlg cube roots of negative numbers give
 NaN

---
 core/lin_alg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 1fcd6cc..3bab28a 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -396,7 +396,9 @@ Ref<MLPPMatrix> MLPPLinAlg::sqrtnm(const Ref<MLPPMatrix> &A) {
 	return out;
 }
 Ref<MLPPMatrix> MLPPLinAlg::cbrtnm(const Ref<MLPPMatrix> &A) {
-	return exponentiatenm(A, real_t(1) / real_t(3));
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
+	return A->cbrtn();
 }
 
 /*
@@ -1304,7 +1306,9 @@ Ref<MLPPVector> MLPPLinAlg::sqrtnv(const Ref<MLPPVector> &a) {
 	return out;
 }
 Ref<MLPPVector> MLPPLinAlg::cbrtnv(const Ref<MLPPVector> &a) {
-	return exponentiatenv(a, static_cast<real_t>(1) / static_cast<real_t>(3));
+	ERR_FAIL_COND_V(!a.is_valid(), Ref<MLPPVector>());
+
+	return a->cbrtn();
 }
 
 real_t MLPPLinAlg::dotnv(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
-- 
2.43.0


From d379e0749b74f02f02d33f9d1a78bbc139536980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 035/270] fix: MLPPLinAlg::absnvt returns its argument instead
 of the absolute values

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 3bab28a..c604f87 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1817,7 +1817,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From 3f2a2bcec382c250ee4ab1ea7acd57a134778dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 036/270] fix: MLPPLinAlg functions dereference missing
 operands or read past operands of different shapes

---
 core/lin_alg.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index c604f87..1e7c759 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -43,6 +43,8 @@
 #include <random>
 
 Ref<MLPPMatrix> MLPPLinAlg::gram_matrix(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	return A->transposen()->multn(A); // AtA
 }
 
@@ -242,6 +244,8 @@ Ref<MLPPMatrix> MLPPLinAlg::division_element_wisenvnm(const Ref<MLPPMatrix> &A,
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::transposenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	Size2i a_size = A->size();
 
 	Ref<MLPPMatrix> AT;
@@ -260,6 +264,8 @@ Ref<MLPPMatrix> MLPPLinAlg::transposenm(const Ref<MLPPMatrix> &A) {
 	return AT;
 }
 Ref<MLPPMatrix> MLPPLinAlg::scalar_multiplynm(real_t scalar, const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> AN = A->duplicate_fast();
 	Size2i a_size = AN->size();
 	real_t *an_ptr = AN->ptrw();
@@ -274,6 +280,8 @@ Ref<MLPPMatrix> MLPPLinAlg::scalar_multiplynm(real_t scalar, const Ref<MLPPMatri
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::scalar_addnm(real_t scalar, const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> AN = A->duplicate_fast();
 	Size2i a_size = AN->size();
 	real_t *an_ptr = AN->ptrw();
@@ -763,6 +771,8 @@ MLPPLinAlg::SVDResult MLPPLinAlg::svd(const Ref<MLPPMatrix> &A) {
 }
 
 Ref<MLPPVector> MLPPLinAlg::vector_projection(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid() || a->size() != b->size(), Ref<MLPPVector>());
+
 	real_t product = a->dot(b) / a->dot(a);
 
 	return a->scalar_multiplyn(product); // Projection of vector a onto b. Denotated as proj_a(b).
@@ -1312,6 +1322,8 @@ Ref<MLPPVector> MLPPLinAlg::cbrtnv(const Ref<MLPPVector> &a) {
 }
 
 real_t MLPPLinAlg::dotnv(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid(), 0);
+
 	int a_size = a->size();
 
 	ERR_FAIL_COND_V(a_size != b->size(), 0);
@@ -1424,6 +1436,8 @@ Ref<MLPPVector> MLPPLinAlg::cosnv(const Ref<MLPPVector> &a) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::maxnm(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!A.is_valid() || !B.is_valid() || A->size() != B->size(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	C->resize(A->size());
@@ -1550,6 +1564,8 @@ real_t MLPPLinAlg::norm_sqv(const Ref<MLPPVector> &a) {
 }
 
 real_t MLPPLinAlg::sum_elementsv(const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND_V(!a.is_valid(), 0);
+
 	int a_size = a->size();
 
 	const real_t *a_ptr = a->ptr();
@@ -1596,11 +1612,13 @@ Ref<MLPPVector> MLPPLinAlg::mat_vec_multnv(const Ref<MLPPMatrix> &A, const Ref<M
 }
 
 Ref<MLPPVector> MLPPLinAlg::subtract_matrix_rowsnv(const Ref<MLPPVector> &a, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!a.is_valid() || !B.is_valid(), Ref<MLPPVector>());
+
 	Ref<MLPPVector> c = a->duplicate_fast();
 
 	Size2i b_size = B->size();
 
-	ERR_FAIL_COND_V(b_size.x != c->size(), c);
+	ERR_FAIL_COND_V(b_size.x != c->size(), Ref<MLPPVector>());
 
 	const real_t *b_ptr = B->ptr();
 	real_t *c_ptr = c->ptrw();
@@ -1615,6 +1633,8 @@ Ref<MLPPVector> MLPPLinAlg::subtract_matrix_rowsnv(const Ref<MLPPVector> &a, con
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::outer_product(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i size = Size2i(b->size(), a->size());
@@ -1661,6 +1681,8 @@ Ref<MLPPMatrix> MLPPLinAlg::mat_vec_addnm(const Ref<MLPPMatrix> &A, const Ref<ML
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::diagnm(const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND_V(!a.is_valid(), Ref<MLPPMatrix>());
+
 	int a_size = a->size();
 
 	Ref<MLPPMatrix> B;
@@ -1680,6 +1702,8 @@ Ref<MLPPMatrix> MLPPLinAlg::diagnm(const Ref<MLPPVector> &a) {
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::additionnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
+
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
@@ -1691,6 +1715,8 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::additionnvt(const Vector<Ref<MLPPMatrix>> &A
 }
 
 void MLPPLinAlg::division_element_wisevt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND(A.size() != B.size());
+
 	for (int i = 0; i < A.size(); i++) {
 		Ref<MLPPMatrix> m = A[i];
 
@@ -1699,6 +1725,8 @@ void MLPPLinAlg::division_element_wisevt(const Vector<Ref<MLPPMatrix>> &A, const
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::division_element_wisenvnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
+
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
@@ -1799,6 +1827,8 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::maxnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
+
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
-- 
2.43.0


From e5241562b480ee4f01771764a2f021ed62ff8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 037/270] fix: MLPPLinAlg::flattenvvnv dereferences a missing
 matrix

---
 core/lin_alg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 1e7c759..e89493e 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -887,6 +887,8 @@ real_t MLPPLinAlg::sum_elements(std::vector<std::vector<real_t>> A) {
 */
 
 Ref<MLPPVector> MLPPLinAlg::flattenvvnv(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPVector>());
+
 	int data_size = A->data_size();
 
 	Ref<MLPPVector> res;
-- 
2.43.0


From fe3fa3e37aff42dfbd4cdfe82a8129ab5c154c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 038/270] fix: selecting an activation by identifier swaps
 function and derivative

---
 core/activation.cpp | 68 ++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..812851a 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -247,61 +247,61 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_deriv_real(const ActivationFunction func) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return &MLPPActivation::linear_normr;
+			return &MLPPActivation::linear_derivr;
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return &MLPPActivation::sigmoid_normr;
+			return &MLPPActivation::sigmoid_derivr;
 		case ACTIVATION_FUNCTION_SWISH:
-			return &MLPPActivation::swish_normr;
+			return &MLPPActivation::swish_derivr;
 		case ACTIVATION_FUNCTION_MISH:
-			return &MLPPActivation::mish_normr;
+			return &MLPPActivation::mish_derivr;
 		case ACTIVATION_FUNCTION_SIN_C:
-			return &MLPPActivation::sinc_normr;
+			return &MLPPActivation::sinc_derivr;
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return &MLPPActivation::softmax_normr;
+			return &MLPPActivation::softmax_derivr;
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return &MLPPActivation::softplus_normr;
+			return &MLPPActivation::softplus_derivr;
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return &MLPPActivation::softsign_normr;
+			return &MLPPActivation::softsign_derivr;
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return &MLPPActivation::adj_softmax_normr;
+			return &MLPPActivation::adj_softmax_derivr;
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return &MLPPActivation::cloglog_normr;
+			return &MLPPActivation::cloglog_derivr;
 		case ACTIVATION_FUNCTION_LOGIT:
-			return &MLPPActivation::logit_normr;
+			return &MLPPActivation::logit_derivr;
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return &MLPPActivation::gaussian_cdf_normr;
+			return &MLPPActivation::gaussian_cdf_derivr;
 		case ACTIVATION_FUNCTION_RELU:
-			return &MLPPActivation::relu_normr;
+			return &MLPPActivation::relu_derivr;
 		case ACTIVATION_FUNCTION_GELU:
-			return &MLPPActivation::gelu_normr;
+			return &MLPPActivation::gelu_derivr;
 		case ACTIVATION_FUNCTION_SIGN:
-			return &MLPPActivation::sign_normr;
+			return &MLPPActivation::sign_derivr;
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return &MLPPActivation::unit_step_normr;
+			return &MLPPActivation::unit_step_derivr;
 		case ACTIVATION_FUNCTION_SINH:
-			return &MLPPActivation::sinh_normr;
+			return &MLPPActivation::sinh_derivr;
 		case ACTIVATION_FUNCTION_COSH:
-			return &MLPPActivation::cosh_normr;
+			return &MLPPActivation::cosh_derivr;
 		case ACTIVATION_FUNCTION_TANH:
-			return &MLPPActivation::tanh_normr;
+			return &MLPPActivation::tanh_derivr;
 		case ACTIVATION_FUNCTION_CSCH:
-			return &MLPPActivation::csch_normr;
+			return &MLPPActivation::csch_derivr;
 		case ACTIVATION_FUNCTION_SECH:
-			return &MLPPActivation::sech_normr;
+			return &MLPPActivation::sech_derivr;
 		case ACTIVATION_FUNCTION_COTH:
-			return &MLPPActivation::coth_normr;
+			return &MLPPActivation::coth_derivr;
 		case ACTIVATION_FUNCTION_ARSINH:
-			return &MLPPActivation::arsinh_normr;
+			return &MLPPActivation::arsinh_derivr;
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return &MLPPActivation::arcosh_normr;
+			return &MLPPActivation::arcosh_derivr;
 		case ACTIVATION_FUNCTION_ARTANH:
-			return &MLPPActivation::artanh_normr;
+			return &MLPPActivation::artanh_derivr;
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return &MLPPActivation::arcsch_normr;
+			return &MLPPActivation::arcsch_derivr;
 		case ACTIVATION_FUNCTION_ARSECH:
-			return &MLPPActivation::arsech_normr;
+			return &MLPPActivation::arsech_derivr;
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return &MLPPActivation::arcoth_normr;
+			return &MLPPActivation::arcoth_derivr;
 		default:
 			return NULL;
 	}
@@ -433,23 +433,23 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 
 real_t MLPPActivation::run_activation_real(const ActivationFunction func, const real_t z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_real(func, z);
-	} else {
 		return run_activation_deriv_real(func, z);
+	} else {
+		return run_activation_norm_real(func, z);
 	}
 }
 Ref<MLPPVector> MLPPActivation::run_activation_vector(const ActivationFunction func, const Ref<MLPPVector> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_vector(func, z);
-	} else {
 		return run_activation_deriv_vector(func, z);
+	} else {
+		return run_activation_norm_vector(func, z);
 	}
 }
 Ref<MLPPMatrix> MLPPActivation::run_activation_matrix(const ActivationFunction func, const Ref<MLPPMatrix> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_matrix(func, z);
-	} else {
 		return run_activation_deriv_matrix(func, z);
+	} else {
+		return run_activation_norm_matrix(func, z);
 	}
 }
 
-- 
2.43.0


From c5191e223240ab11d5d395455c1113b7abadbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 039/270] fix: activations of matrices call the vector routines
 (null results, endless recursion)

---
 core/activation.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 812851a..95569c7 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -998,7 +998,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
@@ -1249,7 +1249,7 @@ Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
@@ -1275,7 +1275,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1289,7 +1289,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
@@ -1477,7 +1477,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
@@ -1514,7 +1514,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(
+	return alg.additionnm(
 			alg.hadamard_productnm(
 					alg.hadamard_productnm(
 							alg.hadamard_productnm(
@@ -2291,7 +2291,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
@@ -2329,7 +2329,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
-- 
2.43.0


From c21ac91b10d1294b9e4bc291d39a8ab07ff260e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 040/270] fix: cloglog derivative of vectors and matrices lacks
 a factor exp(z)

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 95569c7..816213d 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1347,13 +1347,13 @@ real_t MLPPActivation::cloglog_derivr(real_t z) {
 Ref<MLPPVector> MLPPActivation::cloglog_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnv(alg.scalar_multiplynv(-1, alg.expnv(z)));
+	return alg.expnv(alg.subtractionnv(z, alg.expnv(z)));
 }
 
 Ref<MLPPMatrix> MLPPActivation::cloglog_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnm(alg.scalar_multiplynm(-1, alg.expnm(z)));
+	return alg.expnm(alg.subtractionnm(z, alg.expnm(z)));
 }
 
 //LOGIT
-- 
2.43.0


From 6dfe71ac99716961d9c47bc7831023de39ae6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 041/270] fix: arsech lacks its square root

---
 core/activation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 816213d..2a5d84e 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2346,7 +2346,7 @@ Ref<MLPPMatrix> MLPPActivation::arcsch_derivm(const Ref<MLPPMatrix> &z) {
 //ARSECH
 
 real_t MLPPActivation::arsech_normr(real_t z) {
-	return Math::log((1 / z) + ((1 / z) + 1) * ((1 / z) - 1));
+	return Math::log((1 / z) + sqrt(((1 / z) + 1) * ((1 / z) - 1)));
 }
 
 Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
@@ -2356,9 +2356,9 @@ Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
 			alg.additionnv(
 					alg.division_element_wisenv(
 							alg.onevecnv(z->size()), z),
-					alg.hadamard_productnv(
+					alg.sqrtnv(alg.hadamard_productnv(
 							alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())),
-							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())))));
+							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size()))))));
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
@@ -2368,7 +2368,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 			alg.additionnm(
 					alg.division_element_wisenvnm(
 							alg.onematnm(z->size().y, z->size().x), z),
-					alg.hadamard_productnm(
+					alg.sqrtnm(alg.hadamard_productnm(
 							alg.additionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
@@ -2376,7 +2376,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 							alg.subtractionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)))));
+									alg.onematnm(z->size().y, z->size().x))))));
 }
 
 real_t MLPPActivation::arsech_derivr(real_t z) {
-- 
2.43.0


From 47da88ba00beef7a1d38afb1e03003fee5bdf95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 042/270] fix: SELU derivative lacks the factor lambda

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 2a5d84e..87f2bb0 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1831,7 +1831,7 @@ Ref<MLPPMatrix> MLPPActivation::selu_normm(const Ref<MLPPMatrix> &z, real_t lamb
 }
 
 real_t MLPPActivation::selu_derivr(real_t z, real_t lambda, real_t c) {
-	return elu_derivr(z, c);
+	return lambda * elu_derivr(z, c);
 }
 Ref<MLPPVector> MLPPActivation::selu_derivv(const Ref<MLPPVector> &z, real_t lambda, real_t c) {
 	Ref<MLPPVector> a;
-- 
2.43.0


From 9892aaca0cbb8aafcfc5a56391334ead101f56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 043/270] fix: get_activation_function_ptr_* swaps function and
 derivative

---
 core/activation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 87f2bb0..58e266c 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -37,23 +37,23 @@
 
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_real(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_real(func);
-	} else {
 		return get_activation_function_ptr_deriv_real(func);
+	} else {
+		return get_activation_function_ptr_normal_real(func);
 	}
 }
 MLPPActivation::VectorActivationFunctionPointer MLPPActivation::get_activation_function_ptr_vector(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_vector(func);
-	} else {
 		return get_activation_function_ptr_deriv_vector(func);
+	} else {
+		return get_activation_function_ptr_normal_vector(func);
 	}
 }
 MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_function_ptr_matrix(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_matrix(func);
-	} else {
 		return get_activation_function_ptr_deriv_matrix(func);
+	} else {
+		return get_activation_function_ptr_normal_matrix(func);
 	}
 }
 
-- 
2.43.0


From bfb00da05ce8df0485a3ba97f83b590089b718ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 044/270] fix: run_activation_deriv_real evaluates the
 functions instead of their derivatives

---
 core/activation.cpp | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 58e266c..af9ce57 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -643,61 +643,61 @@ Ref<MLPPMatrix> MLPPActivation::run_activation_norm_matrix(const ActivationFunct
 real_t MLPPActivation::run_activation_deriv_real(const ActivationFunction func, const real_t z) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return linear_normr(z);
+			return linear_derivr(z);
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return sigmoid_normr(z);
+			return sigmoid_derivr(z);
 		case ACTIVATION_FUNCTION_SWISH:
-			return swish_normr(z);
+			return swish_derivr(z);
 		case ACTIVATION_FUNCTION_MISH:
-			return mish_normr(z);
+			return mish_derivr(z);
 		case ACTIVATION_FUNCTION_SIN_C:
-			return sinc_normr(z);
+			return sinc_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return softmax_normr(z);
+			return softmax_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return softplus_normr(z);
+			return softplus_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return softsign_normr(z);
+			return softsign_derivr(z);
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return adj_softmax_normr(z);
+			return adj_softmax_derivr(z);
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return cloglog_normr(z);
+			return cloglog_derivr(z);
 		case ACTIVATION_FUNCTION_LOGIT:
-			return logit_normr(z);
+			return logit_derivr(z);
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return gaussian_cdf_normr(z);
+			return gaussian_cdf_derivr(z);
 		case ACTIVATION_FUNCTION_RELU:
-			return relu_normr(z);
+			return relu_derivr(z);
 		case ACTIVATION_FUNCTION_GELU:
-			return gelu_normr(z);
+			return gelu_derivr(z);
 		case ACTIVATION_FUNCTION_SIGN:
-			return sign_normr(z);
+			return sign_derivr(z);
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return unit_step_normr(z);
+			return unit_step_derivr(z);
 		case ACTIVATION_FUNCTION_SINH:
-			return sinh_normr(z);
+			return sinh_derivr(z);
 		case ACTIVATION_FUNCTION_COSH:
-			return cosh_normr(z);
+			return cosh_derivr(z);
 		case ACTIVATION_FUNCTION_TANH:
-			return tanh_normr(z);
+			return tanh_derivr(z);
 		case ACTIVATION_FUNCTION_CSCH:
-			return csch_normr(z);
+			return csch_derivr(z);
 		case ACTIVATION_FUNCTION_SECH:
-			return sech_normr(z);
+			return sech_derivr(z);
 		case ACTIVATION_FUNCTION_COTH:
-			return coth_normr(z);
+			return coth_derivr(z);
 		case ACTIVATION_FUNCTION_ARSINH:
-			return arsinh_normr(z);
+			return arsinh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return arcosh_normr(z);
+			return arcosh_derivr(z);
 		case ACTIVATION_FUNCTION_ARTANH:
-			return artanh_normr(z);
+			return artanh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return arcsch_normr(z);
+			return arcsch_derivr(z);
 		case ACTIVATION_FUNCTION_ARSECH:
-			return arsech_normr(z);
+			return arsech_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return arcoth_normr(z);
+			return arcoth_derivr(z);
 		default:
 			ERR_FAIL_V(0);
 	}
-- 
2.43.0


From 984e28f6637a3fbe8688bd4ef0211a40eedc78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 045/270] fix: swish of a matrix calls the vector routine and
 returns nothing

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index af9ce57..3258673 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1463,7 +1463,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
-- 
2.43.0


From c618ad2417bd1cd4b6a988517a9757aab2aa9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 046/270] fix: sinc and its derivative are NaN at zero

---
 core/activation.cpp | 68 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 3258673..a528cdc 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1527,31 +1527,83 @@ Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 //SINC
 
 real_t MLPPActivation::sinc_normr(real_t z) {
+	if (z == 0) {
+		return 1;
+	}
+
 	return Math::sin(z) / z;
 }
 Ref<MLPPVector> MLPPActivation::sinc_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = sinc_normr(z_ptr[i]);
+	}
 
-	return alg.division_element_wisenv(alg.sinnv(z), z);
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::sinc_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.division_element_wisenvnm(alg.sinnm(z), z);
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = sinc_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::sinc_derivr(real_t z) {
+	if (z == 0) {
+		return 0;
+	}
+
 	return (z * Math::cos(z) - Math::sin(z)) / (z * z);
 }
 Ref<MLPPVector> MLPPActivation::sinc_derivv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = sinc_derivr(z_ptr[i]);
+	}
 
-	return alg.division_element_wisenv(alg.subtractionnv(alg.hadamard_productnv(z, alg.cosnv(z)), alg.sinnv(z)), alg.hadamard_productnv(z, z));
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::sinc_derivm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.division_element_wisenvnm(alg.subtractionnm(alg.hadamard_productnm(z, alg.cosnm(z)), alg.sinnm(z)), alg.hadamard_productnm(z, z));
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = sinc_derivr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 //RELU
-- 
2.43.0


From f3e795849960ca57dce47857a12ee63f7ad545d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 047/270] fix: mish derivative is NaN at zero

---
 core/activation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index a528cdc..c3e705a 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1497,7 +1497,7 @@ Ref<MLPPMatrix> MLPPActivation::mish_normm(const Ref<MLPPMatrix> &z) {
 }
 
 real_t MLPPActivation::mish_derivr(real_t z) {
-	return sech_normr(softplus_normr(z)) * sech_normr(softplus_normr(z)) * z * sigmoid_normr(z) + mish_normr(z) / z;
+	return sech_normr(softplus_normr(z)) * sech_normr(softplus_normr(z)) * z * sigmoid_normr(z) + tanh_normr(softplus_normr(z));
 }
 Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
@@ -1509,7 +1509,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 									sech_normv(softplus_normv(z)), sech_normv(softplus_normv(z))),
 							z),
 					sigmoid_normv(z)),
-			alg.division_element_wisenv(mish_normv(z), z));
+			tanh_normv(softplus_normv(z)));
 }
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
@@ -1521,7 +1521,7 @@ Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 									sech_normm(softplus_normm(z)), sech_normm(softplus_normm(z))),
 							z),
 					sigmoid_normm(z)),
-			alg.division_element_wisenvnm(mish_normm(z), z));
+			tanh_normm(softplus_normm(z)));
 }
 
 //SINC
-- 
2.43.0


From eb355b0fe5fdcac2f881eddc452b0f8049d50b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 048/270] fix: tanh (and functions built on it) overflow to NaN
 for large arguments

---
 core/activation.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index c3e705a..a59f93e 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2123,17 +2123,39 @@ Ref<MLPPMatrix> MLPPActivation::cosh_derivm(const Ref<MLPPMatrix> &z) {
 //TANH
 
 real_t MLPPActivation::tanh_normr(real_t z) {
-	return (Math::exp(z) - Math::exp(-z)) / (Math::exp(z) + Math::exp(-z));
+	return tanh(z);
 }
 Ref<MLPPVector> MLPPActivation::tanh_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.division_element_wisenv(alg.subtractionnv(alg.expnv(z), alg.expnv(alg.scalar_multiplynv(-1, z))), alg.additionnv(alg.expnv(z), alg.expnv(alg.scalar_multiplynv(-1, z))));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = tanh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::tanh_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.division_element_wisenvnm(alg.subtractionnm(alg.expnm(z), alg.expnm(alg.scalar_multiplynm(-1, z))), alg.additionnm(alg.expnm(z), alg.expnm(alg.scalar_multiplynm(-1, z))));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = tanh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::tanh_derivr(real_t z) {
-- 
2.43.0


From 55a9fd98b5c37f206b56cc649b759e64ba444e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 049/270] fix: MSE multiplies by the number of elements instead
 of dividing

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..855c696 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -47,7 +47,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2 * y_hat_size;
+	return sum / (2.0 * static_cast<real_t>(y_hat_size));
 }
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
@@ -62,7 +62,7 @@ real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2.0 * static_cast<real_t>(y_hat_data_size);
+	return sum / (2.0 * static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::mse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 53e13b8e71ed72b306b1719a1e9da3a0e11d6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 050/270] fix: RMSE of matrices and RMSE derivatives use wrong
 factors

---
 core/cost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 855c696..a8652ff 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -103,18 +103,18 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return Math::sqrt(sum / static_cast<real_t>(y_hat->size().y));
+	return Math::sqrt(sum / static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynv(1 / (2.0 * Math::sqrt(msev(y_hat, y))), mse_derivv(y_hat, y));
+	return alg.scalar_multiplynv(1 / rmsev(y_hat, y), mse_derivv(y_hat, y));
 }
 Ref<MLPPMatrix> MLPPCost::rmse_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynm(1 / (2.0 / Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
+	return alg.scalar_multiplynm(1 / rmsem(y_hat, y), mse_derivm(y_hat, y));
 }
 
 real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 5ad2da42accca5bc1f0642cb1f9865e67715d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 051/270] fix: MAE derivative ignores the target and truncates
 the prediction

---
 core/cost.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index a8652ff..cee3564 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -150,7 +150,10 @@ real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	int y_hat_size = y_hat->size();
 
+	ERR_FAIL_COND_V(y_hat_size != y->size(), Ref<MLPPVector>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPVector> deriv;
 	deriv.instance();
@@ -158,11 +161,11 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t residual = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (residual < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (residual == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
@@ -174,7 +177,10 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
+	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), Ref<MLPPMatrix>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPMatrix> deriv;
 	deriv.instance();
@@ -182,11 +188,11 @@ Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t residual = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (residual < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (residual == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
-- 
2.43.0


From 50090f7ad788e8d3798c1af43c1c2de6cc233a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 052/270] fix: Huber loss derivative is not the gradient of the
 Huber loss

---
 core/cost.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index cee3564..0cea3c5 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -390,13 +390,9 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 
 	for (int i = 0; i < y_hat_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = 2 * (y_hat_ptr[i] - y_ptr[i]);
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = y_hat_ptr[i] > y_ptr[i] ? 2 * delta : -2 * delta;
 		}
 	}
 
@@ -420,13 +416,9 @@ Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = 2 * (y_hat_ptr[i] - y_ptr[i]);
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = y_hat_ptr[i] > y_ptr[i] ? 2 * delta : -2 * delta;
 		}
 	}
 
-- 
2.43.0


From dd3ba549d16cfd99e851e80ad7d5f4dce872641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 053/270] fix: matrix forms of the MBE derivative and the
 weighted hinge loss (transposed shape, crash)

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 0cea3c5..81a4803 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -239,7 +239,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
@@ -515,7 +515,7 @@ real_t MLPPCost::hinge_losswm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix
 	MLPPLinAlg alg;
 	MLPPReg regularization;
 
-	return C * hinge_lossm(y_hat, y) + regularization.reg_termv(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+	return C * hinge_lossm(y_hat, y) + regularization.reg_termm(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 }
 
 Ref<MLPPVector> MLPPCost::hinge_loss_derivwv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y, real_t C) {
-- 
2.43.0


From 7d2251e07e800dad8861d51b31c58a408d259caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 054/270] fix: median of an odd number of values returns the
 element before the middle one

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 5376076..0b0f9a3 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -68,7 +68,7 @@ real_t MLPPStat::median(const Ref<MLPPVector> &p_x) {
 	if (x->size() % 2 == 0) {
 		return (x->element_get(center - 1) + x->element_get(center)) / 2.0;
 	} else {
-		return x->element_get(center - 1);
+		return x->element_get(center);
 	}
 }
 
-- 
2.43.0


From 8e8f9109dcab57c24c01d4e8e5ab2474a508520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 055/270] fix: convolution and pooling windows start at the
 position times the stride

---
 core/convolutions.cpp | 36 +++---------------------------------
 1 file changed, 3 insertions(+), 33 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index a06f422..9de9f13 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -88,17 +88,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					convolving_input->element_set(current_index, val);
 					++current_index;
@@ -172,17 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val;
-
-							if (i == 0 && j == 0) {
-								val = input->element_get(i + k, j + p, t);
-							} else if (i == 0) {
-								val = input->element_get(i + k, j + (S - 1) + p, t);
-							} else if (j == 0) {
-								val = input->element_get(i + (S - 1) + k, j + p, t);
-							} else {
-								val = input->element_get(i + (S - 1) + k, j + (S - 1) + p, t);
-							}
+							real_t val = input->element_get(i * S + k, j * S + p, t);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
@@ -219,17 +199,7 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					pooling_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From fcdf8ff2916ac208372b1b6c69d110ea3168951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 056/270] fix: convolve_3d reads the input in z, row, column
 order

---
 core/convolutions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 9de9f13..1014372 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -133,7 +133,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
 						padded_input_slice->element_set(i, j, 0);
 					} else {
-						padded_input_slice->element_set(i, j, input->element_get(i - P, j - P, c));
+						padded_input_slice->element_set(i, j, input->element_get(c, i - P, j - P));
 					}
 				}
 			}
@@ -162,7 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val = input->element_get(i * S + k, j * S + p, t);
+							real_t val = input->element_get(t, i * S + k, j * S + p);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
-- 
2.43.0


From 78c926cc7eff7a58d0863840b654b61953353aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 057/270] fix: convolve_3d applies to each output channel its
 own slices of the filter

---
 core/convolutions.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 1014372..591aa74 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -154,7 +154,15 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	convolving_input.instance();
 	convolving_input->resize(input_size.z * F * F);
 
+	Ref<MLPPVector> channel_filter;
+	channel_filter.instance();
+	channel_filter->resize(input_size.z * F * F);
+
 	for (int c = 0; c < C; c++) {
+		for (int i = 0; i < channel_filter->size(); i++) {
+			channel_filter->element_set(i, filter_flattened->element_get(c * channel_filter->size() + i));
+		}
+
 		for (int i = 0; i < map_size; i++) {
 			for (int j = 0; j < map_size; j++) {
 				int current_index = 0;
@@ -170,7 +178,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					}
 				}
 
-				feature_map->element_set(c, i, j, convolving_input->dot(filter_flattened));
+				feature_map->element_set(c, i, j, convolving_input->dot(channel_filter));
 			}
 		}
 	}
-- 
2.43.0


From b979be7cd5d3cc0b983c895d5d5fe7ba07cef266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 058/270] fix: convolution and pooling of non-square inputs use
 the height for both axes

---
 core/convolutions.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 591aa74..e78d432 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -46,15 +46,14 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 	Ref<MLPPMatrix> input = p_input;
 
 	Size2i input_size = input->size();
-	int N = input_size.y;
 	int F = filter->size().y;
-	int map_size = (N - F + 2 * P) / S + 1; // This is computed as ⌊map_size⌋ by def- thanks C++!
+	Size2i map_size = Size2i((input_size.x - F + 2 * P) / S + 1, (input_size.y - F + 2 * P) / S + 1); // This is computed as ⌊map_size⌋ by def- thanks C++!
 
 	if (P != 0) {
 		Ref<MLPPMatrix> padded_input;
 		padded_input.instance();
 
-		Size2i pis = Size2i(N + 2 * P, N + 2 * P);
+		Size2i pis = Size2i(input_size.x + 2 * P, input_size.y + 2 * P);
 
 		padded_input->resize(pis);
 
@@ -74,7 +73,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 	Ref<MLPPMatrix> feature_map;
 	feature_map.instance();
 
-	feature_map->resize(Size2i(map_size, map_size));
+	feature_map->resize(map_size);
 
 	Ref<MLPPVector> filter_flattened = filter->flatten();
 
@@ -82,8 +81,8 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 	convolving_input.instance();
 	convolving_input->resize(F * F);
 
-	for (int i = 0; i < map_size; i++) {
-		for (int j = 0; j < map_size; j++) {
+	for (int i = 0; i < map_size.y; i++) {
+		for (int j = 0; j < map_size.x; j++) {
 			int current_index = 0;
 
 			for (int k = 0; k < F; k++) {
@@ -110,10 +109,9 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	Size3i input_size = input->size();
 	Size3i filter_size = filter->size();
 
-	int N = input_size.y;
 	int F = filter_size.y;
 	int C = filter_size.z / input_size.z;
-	int map_size = (N - F + 2 * P) / S + 1; // This is computed as ⌊map_size⌋ by def.
+	Size2i map_size = Size2i((input_size.x - F + 2 * P) / S + 1, (input_size.y - F + 2 * P) / S + 1); // This is computed as ⌊map_size⌋ by def.
 
 	if (P != 0) {
 		Ref<MLPPTensor3> padded_input;
@@ -122,7 +120,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 		Ref<MLPPMatrix> padded_input_slice;
 		padded_input_slice.instance();
 
-		Size2i padded_input_slice_size = Size2i(N + 2 * P, N + 2 * P);
+		Size2i padded_input_slice_size = Size2i(input_size.x + 2 * P, input_size.y + 2 * P);
 		padded_input_slice->resize(padded_input_slice_size);
 
 		padded_input->resize(Size3i(padded_input_slice_size.x, padded_input_slice_size.y, input_size.z));
@@ -146,7 +144,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 
 	Ref<MLPPTensor3> feature_map;
 	feature_map.instance();
-	feature_map->resize(Size3i(map_size, map_size, C));
+	feature_map->resize(Size3i(map_size.x, map_size.y, C));
 
 	Ref<MLPPVector> filter_flattened = filter->flatten();
 
@@ -163,8 +161,8 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 			channel_filter->element_set(i, filter_flattened->element_get(c * channel_filter->size() + i));
 		}
 
-		for (int i = 0; i < map_size; i++) {
-			for (int j = 0; j < map_size; j++) {
+		for (int i = 0; i < map_size.y; i++) {
+			for (int j = 0; j < map_size.x; j++) {
 				int current_index = 0;
 
 				for (int t = 0; t < input_size.z; t++) {
@@ -190,19 +188,18 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 	Size2i input_size = input->size();
 
-	int N = input_size.y;
-	int map_size = (N - F) / S + 1;
+	Size2i map_size = Size2i((input_size.x - F) / S + 1, (input_size.y - F) / S + 1);
 
 	Ref<MLPPMatrix> pooled_map;
 	pooled_map.instance();
-	pooled_map->resize(Size2i(map_size, map_size));
+	pooled_map->resize(map_size);
 
 	Ref<MLPPVector> pooling_input;
 	pooling_input.instance();
 	pooling_input->resize(F * F);
 
-	for (int i = 0; i < map_size; i++) {
-		for (int j = 0; j < map_size; j++) {
+	for (int i = 0; i < map_size.y; i++) {
+		for (int j = 0; j < map_size.x; j++) {
 			int current_index = 0;
 
 			for (int k = 0; k < F; k++) {
@@ -235,12 +232,11 @@ Ref<MLPPTensor3> MLPPConvolutions::pool_3d(const Ref<MLPPTensor3> &input, const
 	z_slice.instance();
 	z_slice->resize(Size2i(input_size.x, input_size.y));
 
-	int N = input_size.y;
-	int map_size = (N - F) / S + 1;
+	Size2i map_size = Size2i((input_size.x - F) / S + 1, (input_size.y - F) / S + 1);
 
 	Ref<MLPPTensor3> pooled_map;
 	pooled_map.instance();
-	pooled_map->resize(Size3i(map_size, map_size, input_size.z));
+	pooled_map->resize(Size3i(map_size.x, map_size.y, input_size.z));
 
 	for (int i = 0; i < input_size.z; i++) {
 		input->z_slice_get_into_mlpp_matrix(i, z_slice);
-- 
2.43.0


From d1ee22a54d72b4a3d552511cc41c4b746d9b2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 059/270] fix: gaussian_2d multiplies the exponent by the
 variance instead of dividing by it

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index e78d432..d21917d 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -286,7 +286,7 @@ Ref<MLPPVector> MLPPConvolutions::global_pool_3d(const Ref<MLPPTensor3> &input,
 
 real_t MLPPConvolutions::gaussian_2d(const real_t x, const real_t y, const real_t std) {
 	real_t std_sq = std * std;
-	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / 2 * std_sq);
+	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / (2 * std_sq));
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_t std) {
-- 
2.43.0


From 067b5718cf1a5ef57faca6584bd42f6081ab09bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 060/270] fix: gaussian_filter_2d of even size is not centred

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index d21917d..693ac08 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -296,7 +296,7 @@ Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_
 
 	for (int i = 0; i < size; i++) {
 		for (int j = 0; j < size; j++) {
-			real_t val = gaussian_2d(i - (size - 1) / 2, (size - 1) / 2 - j, std);
+			real_t val = gaussian_2d(i - (size - 1) / real_t(2), (size - 1) / real_t(2) - j, std);
 
 			filter->element_set(i, j, val);
 		}
-- 
2.43.0


From 495fdace176371a8df9ab80ab6455d8198b80523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 061/270] fix: dx and dy test the wrong axis and read out of
 bounds on non-square or one pixel wide inputs

---
 core/convolutions.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 693ac08..f07658f 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -319,13 +319,11 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (j != 0 && j != input_size.y - 1) {
-				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
-			} else if (j == 0) {
-				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
-			} else {
-				deriv->element_set(i, j, -input->element_get(i, j - 1)); // 0 - E1 = Implicit zero-padding
-			}
+			// Implicit zero-padding
+			real_t next = j + 1 < input_size.x ? input->element_get(i, j + 1) : real_t(0);
+			real_t prev = j > 0 ? input->element_get(i, j - 1) : real_t(0);
+
+			deriv->element_set(i, j, next - prev);
 		}
 	}
 
@@ -341,13 +339,11 @@ Ref<MLPPMatrix> MLPPConvolutions::dy(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (i != 0 && i != input_size.y - 1) {
-				deriv->element_set(i, j, input->element_get(i - 1, j) - input->element_get(i + 1, j));
-			} else if (i == 0) {
-				deriv->element_set(i, j, -input->element_get(i + 1, j)); // 0 - E1 = Implicit zero-padding
-			} else {
-				deriv->element_set(i, j, input->element_get(i - 1, j)); // E0 - 0 =Implicit zero-padding
-			}
+			// Implicit zero-padding
+			real_t prev = i > 0 ? input->element_get(i - 1, j) : real_t(0);
+			real_t next = i + 1 < input_size.y ? input->element_get(i + 1, j) : real_t(0);
+
+			deriv->element_set(i, j, prev - next);
 		}
 	}
 
-- 
2.43.0


From 9683024119634079ddefa96a305b0c54ca88a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 062/270] fix: finite difference steps vanish in single
 precision, every numerical derivative is zero or noise

---
 core/numerical_analysis.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 5252378..8b3f229 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -37,17 +37,17 @@
 #include "../core/mlpp_vector.h"
 
 real_t MLPPNumericalAnalysis::num_diffr(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-10;
+	real_t eps = real_t(1) / 1024; // A power of two that does not vanish next to x in single precision.
 	return (function(x + eps) - function(x)) / eps; // This is just the formal def. of the derivative.
 }
 
 real_t MLPPNumericalAnalysis::num_diff_2r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = real_t(1) / 128;
 	return (function(x + 2 * eps) - 2 * function(x + eps) + function(x)) / (eps * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_3r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = real_t(1) / 32;
 	real_t t1 = function(x + 3 * eps) - 2 * function(x + 2 * eps) + function(x + eps);
 	real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x);
 	return (t1 - t2) / (eps * eps * eps);
@@ -73,7 +73,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 	// For multivariable function analysis.
 	// This will be used for calculating Jacobian vectors.
 	// Diffrentiate with respect to indicated axis. (0, 1, 2 ...)
-	real_t eps = 1e-10;
+	real_t eps = real_t(1) / 1024; // A power of two that does not vanish next to x in single precision.
 	Ref<MLPPVector> x_eps = x->duplicate_fast();
 	x_eps->element_get_ref(axis) += eps;
 
@@ -82,7 +82,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 
 real_t MLPPNumericalAnalysis::num_diff_2v(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis1, int axis2) {
 	//For Hessians.
-	real_t eps = 1e-5;
+	real_t eps = real_t(1) / 128;
 
 	Ref<MLPPVector> x_pp = x->duplicate_fast();
 	x_pp->element_get_ref(axis1) += eps;
@@ -101,7 +101,7 @@ real_t MLPPNumericalAnalysis::num_diff_3v(real_t (*function)(const Ref<MLPPVecto
 	// For third order derivative tensors.
 	// NOTE: Approximations do not appear to be accurate for sinusodial functions...
 	// Should revisit this later.
-	real_t eps = 1e-5;
+	real_t eps = real_t(1) / 32;
 
 	Ref<MLPPVector> x_ppp = x->duplicate_fast();
 	x_ppp->element_get_ref(axis1) += eps;
-- 
2.43.0


From c903647837cc96c35bd06845969e882ffc0096a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 063/270] fix: integer division drops the cubic term of the
 third order approximations

---
 core/numerical_analysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 8b3f229..34742d1 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -66,7 +66,7 @@ real_t MLPPNumericalAnalysis::quadratic_approximationr(real_t (*function)(real_t
 }
 
 real_t MLPPNumericalAnalysis::cubic_approximationr(real_t (*function)(real_t), real_t c, real_t x) {
-	return quadratic_approximationr(function, c, x) + (1 / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
+	return quadratic_approximationr(function, c, x) + (real_t(1) / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
 }
 
 real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis) {
@@ -341,7 +341,7 @@ real_t MLPPNumericalAnalysis::cubic_approximationv(real_t (*function)(const Ref<
 	Ref<MLPPMatrix> result_mat = third_order_tensor(function, c)->tensor_vec_mult(xsc);
 	real_t result_scalar = mxsc->multn(result_mat->multn(mxsc->transposen()))->element_get(0, 0);
 
-	return quadratic_approximationv(function, c, x) + (1 / 6) * result_scalar;
+	return quadratic_approximationv(function, c, x) + (real_t(1) / 6) * result_scalar;
 }
 
 real_t MLPPNumericalAnalysis::laplacian(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x) {
-- 
2.43.0


From 846876ceb733eafa20b501b879ada553923fb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 064/270] fix: linear_approximationv uses the first component
 only instead of the dot product with the gradient

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 34742d1..c6fbe1a 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -302,7 +302,7 @@ real_t MLPPNumericalAnalysis::linear_approximationv(real_t (*function)(const Ref
 	mxsc.instance();
 	mxsc->row_add_mlpp_vector(xsc);
 
-	Ref<MLPPMatrix> m = mj->transposen()->multn(mxsc);
+	Ref<MLPPMatrix> m = mj->multn(mxsc->transposen());
 
 	return constant_approximationv(function, c) + m->element_get(0, 0);
 }
-- 
2.43.0


From 6d76ba65aa398991f9824ed30dfe0c5db7f5bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 065/270] fix: discrete_cosine_transform uses the number of
 rows for both axes

---
 core/transforms.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/transforms.cpp b/core/transforms.cpp
index 76b844f..cf5e53b 100644
--- a/core/transforms.cpp
+++ b/core/transforms.cpp
@@ -53,6 +53,10 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 	real_t inv_sqrt_M = 1 / Math::sqrt(M);
 	real_t s2M = Math::sqrt(real_t(2) / real_t(M));
 
+	real_t N = size.x;
+	real_t inv_sqrt_N = 1 / Math::sqrt(N);
+	real_t s2N = Math::sqrt(real_t(2) / real_t(N));
+
 	for (int i = 0; i < size.y; i++) {
 		for (int j = 0; j < size.x; j++) {
 			real_t sum = 0;
@@ -66,14 +70,14 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 
 			real_t alphaJ;
 			if (j == 0) {
-				alphaJ = inv_sqrt_M;
+				alphaJ = inv_sqrt_N;
 			} else {
-				alphaJ = s2M;
+				alphaJ = s2N;
 			}
 
 			for (int k = 0; k < size.y; k++) {
 				for (int f = 0; f < size.x; f++) {
-					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * M));
+					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * N));
 				}
 			}
 
-- 
2.43.0


From 2bc8f03441d51e8a071e2d113786f6d0cf32f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 066/270] fix: integer division makes most weight
 initialisations all zero

---
 core/utilities.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..a25719c 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -50,22 +50,22 @@ std::vector<real_t> MLPPUtilities::weightInitialization(int n, std::string type)
 	std::vector<real_t> weights;
 	for (int i = 0; i < n; i++) {
 		if (type == "XavierNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + 1)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2 / real_t(n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "XavierUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + 1)), sqrt(6 / (n + 1)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / real_t(n + 1)), sqrt(6 / real_t(n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2 / real_t(n)));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / real_t(n)), sqrt(6 / real_t(n)));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1 / real_t(n)));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / real_t(n)), sqrt(3 / real_t(n)));
 			weights.push_back(distribution(generator));
 		} else if (type == "Uniform") {
 			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -96,22 +96,22 @@ std::vector<std::vector<real_t>> MLPPUtilities::weightInitialization(int n, int
 	for (int i = 0; i < n; i++) {
 		for (int j = 0; j < m; j++) {
 			if (type == "XavierNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+				std::normal_distribution<real_t> distribution(0, sqrt(2 / real_t(n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "XavierUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / real_t(n + m)), sqrt(6 / real_t(n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(2 / real_t(n)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / real_t(n)), sqrt(6 / real_t(n)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(1 / real_t(n)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(3 / real_t(n)), sqrt(3 / real_t(n)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "Uniform") {
 				std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -233,42 +233,42 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2 / real_t(n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / real_t(n + m)), sqrt(6 / real_t(n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2 / real_t(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / real_t(n)), sqrt(6 / real_t(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1 / real_t(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / real_t(n)), sqrt(3 / real_t(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
-- 
2.43.0


From eef623dff8d02ac5f9268ec65526949db2e38fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 067/270] fix: bias_initializationv drops the values it draws

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index a25719c..d55d2ae 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -295,15 +295,15 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
 
 	int n = z->size();
+	real_t *z_ptr = z->ptrw();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z_ptr[i] = distribution(generator);
 	}
 }
 
-- 
2.43.0


From 59bbd1dfca2ad7575d92e12e238562cd3af73e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 068/270] fix: mini-batches of inputs start at the wrong row
 when the batch count differs from the batch size

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index d55d2ae..5e91f2b 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -640,7 +640,7 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
@@ -727,7 +727,7 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
-- 
2.43.0


From 991cfda5bc5e764734d0ed2f0b2bf420f9ae0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 069/270] fix: every mini-batch gets the outputs of the first
 one

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 5e91f2b..95bfbf5 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -691,7 +691,7 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
-- 
2.43.0


From 90632b86fe9ed05b1ccc1e1f3ca411495614a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 070/270] fix: mini-batches lose the rows left over when the
 batch count does not divide the sample count

---
 core/utilities.cpp | 47 ++++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 95bfbf5..ed3fff2 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -641,11 +641,13 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last batch also takes the remainder.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			input_set->row_get_into_mlpp_vector(mini_batch_start_offset + j, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 		}
@@ -653,14 +655,6 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 		input_mini_batches.push_back(current_input_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return input_mini_batches;
 }
 MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const Ref<MLPPMatrix> &input_set, const Ref<MLPPVector> &output_set, int n_mini_batch) {
@@ -677,15 +671,17 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last batch also takes the remainder.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
 		Ref<MLPPVector> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(mini_batch_element_count);
+		current_output_set->resize(current_element_count);
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
@@ -698,15 +694,6 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-			outputMiniBatches[n_mini_batch - 1].push_back(outputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const Ref<MLPPMatrix> &input_set, const Ref<MLPPMatrix> &output_set, int n_mini_batch) {
@@ -728,15 +715,17 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last batch also takes the remainder.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(input_set_size.x, current_element_count));
 
 		Ref<MLPPMatrix> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(Size2i(output_set_size.x, mini_batch_element_count));
+		current_output_set->resize(Size2i(output_set_size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, input_row_tmp);
@@ -750,14 +739,6 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 
-- 
2.43.0


From 78bc5a7011d90ee70a815c78d9675db3f6bcf10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 071/270] fix: loading a data file that ends with a newline
 reads past the end of an empty line

---
 core/data.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 5ad5dec..ac21b4c 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -280,6 +280,11 @@ void MLPPData::set_data_supervised(int k, const String &file_name, Ref<MLPPMatri
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		// An empty line, like the one after a final newline, holds no sample.
+		if (ll.size() <= k || (ll.size() == 1 && ll[0].empty())) {
+			continue;
+		}
+
 		Vector<real_t> row;
 
 		for (int i = 0; i < k; ++i) {
@@ -316,6 +321,10 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		if (ll.size() < k || (ll.size() == 1 && ll[0].empty())) {
+			continue;
+		}
+
 		for (int i = 0; i < k; ++i) {
 			input_set_tmp.write[i].push_back(static_cast<real_t>(ll[i].to_double()));
 		}
@@ -345,7 +354,7 @@ void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_se
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
-		for (int i = 0; i < ll.size(); i += 2) {
+		for (int i = 0; i + 1 < ll.size(); i += 2) {
 			input_set_tmp.push_back(static_cast<real_t>(ll[i].to_double()));
 			output_set_tmp.push_back(static_cast<real_t>(ll[i + 1].to_double()));
 		}
-- 
2.43.0


From 526b13943359198c2ba084ee012011e6750ada2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 072/270] fix: set_data_unsupervised drops the transposition
 and returns features as rows

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index ac21b4c..b0c172b 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -334,7 +334,7 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	memdelete(file);
 
 	input_set->set_from_vectors(input_set_tmp);
-	input_set = alg.transposenm(input_set);
+	input_set->set_from_mlpp_matrix(alg.transposenm(input_set));
 }
 
 void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_set, Ref<MLPPVector> output_set) {
-- 
2.43.0


From abf4588f40fe4dcb1eafe1a8d2c051c5f7bca8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 073/270] fix: reverseOneHot numbers classes from one while
 one_hot_rep numbers them from zero

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index b0c172b..5767df2 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -1069,7 +1069,7 @@ std::vector<real_t> MLPPData::reverseOneHot(std::vector<std::vector<real_t>> tem
 	std::vector<real_t> outputSet;
 	//uint32_t n_class = tempOutputSet[0].size();
 	for (uint32_t i = 0; i < tempOutputSet.size(); i++) {
-		int current_class = 1;
+		int current_class = 0;
 		for (uint32_t j = 0; j < tempOutputSet[i].size(); j++) {
 			if (tempOutputSet[i][j] == 1) {
 				break;
-- 
2.43.0


From 7b40ae5be08a2c6ac8234567ba9fe5dc1268258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 074/270] fix: remove_empty keeps every second of consecutive
 empty strings

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 5767df2..cc3a2ab 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -612,6 +612,7 @@ Vector<String> MLPPData::remove_empty(Vector<String> data) {
 	for (int i = 0; i < data.size(); ++i) {
 		if (data[i].empty()) {
 			data.remove(i);
+			--i;
 		}
 	}
 
-- 
2.43.0


From 24ff8018b5a3d4c826702ea41c449f135221bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 075/270] fix: remove_stop_words_vec keeps comparing after
 removing a word, reading index -1 and skipping words

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index cc3a2ab..36fefd8 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -688,6 +688,7 @@ Vector<String> MLPPData::remove_stop_words_vec(Vector<String> segmented_data) {
 			if (segmented_data[i] == stop_words[j]) {
 				segmented_data.remove(i);
 				--i;
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 97a542809ddcc236065ee7367928339eb1c84466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 076/270] fix: segment drops the character after a punctuation
 mark even when it is not a blank

---
 core/data.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 36fefd8..21f3c94 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -632,8 +632,12 @@ Vector<String> MLPPData::segment(String text) {
 			String punc;
 			punc += text[i];
 			segmented_data.push_back(punc);
-			prev_delim = i + 2;
-			i++;
+			prev_delim = i + 1;
+
+			if (i + 1 < text.length() && text[i + 1] == ' ') {
+				prev_delim = i + 2;
+				i++;
+			}
 		} else if (i == text.length() - 1) {
 			segmented_data.push_back(text.substr(prev_delim, text.length() - prev_delim)); // hehe oops- forgot this
 		}
-- 
2.43.0


From fd7964e6f7686639285ee9bf7baacc7fdbc72677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 077/270] fix: split_sentences does not split at full stops and
 drops the last character

---
 core/data.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 21f3c94..9b0b1e5 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -583,19 +583,22 @@ Vector<String> MLPPData::split_sentences(String data) {
 
 	int start_index = 0;
 
-	for (int i = 0; i < data.length() - 1; ++i) {
-		if (data[i] == '.' && data[i + 1] != '.') {
+	for (int i = 0; i < data.length(); ++i) {
+		// Only the last dot of a run ends a sentence.
+		if (data[i] != '.' || (i + 1 < data.length() && data[i + 1] == '.')) {
 			continue;
 		}
 
-		if (data[i] == '.') {
-			sentences.push_back(data.substr_index(start_index, i));
-			start_index = i + 1;
+		sentences.push_back(data.substr(start_index, i - start_index));
+		start_index = i + 1;
+
+		if (start_index < data.length() && data[start_index] == ' ') {
+			++start_index;
 		}
 	}
 
-	if (start_index != data.length() - 1) {
-		sentences.push_back(data.substr_index(start_index, data.length() - 1));
+	if (start_index < data.length()) {
+		sentences.push_back(data.substr(start_index, data.length() - start_index));
 	}
 
 	return sentences;
-- 
2.43.0


From bdef5fdb1371dfccdba3271412260bacad1a8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 078/270] fix: tfidf counts on top of uninitialised memory

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 9b0b1e5..2901b5e 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -774,6 +774,7 @@ Ref<MLPPMatrix> MLPPData::tfidf(Vector<String> sentences) {
 	Ref<MLPPMatrix> TF;
 	TF.instance();
 	TF->resize(Size2i(word_list.size(), segmented_sentences.size()));
+	TF->fill(0);
 
 	Vector<int> frequency;
 	frequency.resize(word_list.size());
-- 
2.43.0


From 4f33ec805b25b1cf95c9e5a9331c6bce60be3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 079/270] fix: word_to_vec overwrites its inputs with the
 outputs and trains on an unset output set

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 2901b5e..61253e9 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -890,7 +890,7 @@ MLPPData::WordsToVecResult MLPPData::word_to_vec(Vector<String> sentences, WordT
 
 	for (int i = 0; i < output_set_size.y; i++) {
 		bow->row_get_into_mlpp_vector(i + input_size, row_tmp);
-		input_set->row_set_mlpp_vector(i, row_tmp);
+		output_set->row_set_mlpp_vector(i, row_tmp);
 	}
 
 	MLPPSoftmaxNet *model;
-- 
2.43.0


From 236f9259c6c6c651ec01818ebd8f9d91a9d90350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 080/270] fix: k nearest neighbours stop at the first training
 point once it has been taken

---
 modules/knn/knn.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 33c5ef1..8452ba6 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -113,13 +113,18 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 
 	//Perfom this loop unless and until all k nearest neighbors are found, appended, and returned
 	for (int i = 0; i < _k; ++i) {
-		int neighbor = 0;
+		int neighbor = -1;
 
 		for (int j = 0; j < iuss; j++) {
 			if (skip_map.has(j)) {
 				continue;
 			}
 
+			if (neighbor == -1) {
+				neighbor = j;
+				continue;
+			}
+
 			_input_set->row_get_into_mlpp_vector(j, tmpv1);
 			_input_set->row_get_into_mlpp_vector(neighbor, tmpv2);
 
@@ -130,7 +135,7 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 			}
 		}
 
-		if (!skip_map.has(neighbor)) {
+		if (neighbor != -1) {
 			knn.push_back(neighbor);
 			skip_map.set(neighbor, true);
 		}
-- 
2.43.0


From 1133ed9f99ac082030549281ef6d53cb048619b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 081/270] fix: determine_class counts neighbour indices equal
 to a label instead of the labels of the neighbours

---
 modules/knn/knn.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 8452ba6..1b6593e 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -164,12 +164,7 @@ int MLPPKNN::determine_class(const PoolIntArray &knn) {
 	int knn_size = knn.size();
 
 	for (int i = 0; i < knn_size; ++i) {
-		for (int j = 0; j < output_set_size; j++) {
-			int opj = static_cast<int>(os_ptr[j]);
-			if (knn_ptr[i] == opj) {
-				class_nums[opj]++;
-			}
-		}
+		class_nums[static_cast<int>(os_ptr[knn_ptr[i]])]++;
 	}
 
 	int final_class = static_cast<int>(os_ptr[0]);
-- 
2.43.0


From 04d27a9ac28b257914ed51952c6c1abdd8fefd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 082/270] fix: k-means assigns a point closest to the first
 centroid to the cluster of the previous point

---
 modules/kmeans/kmeans.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..cd133d6 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -354,6 +354,8 @@ void MLPPKMeans::_evaluate() {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
+		closest_centroid_index = 0;
+
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
 
 		for (int j = 0; j < r_size_x; ++j) {
-- 
2.43.0


From 52bafcc563f354d93d0b4cab8a9b64e3d29dcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 083/270] fix: k-means centroid sums are sized by the cluster
 count instead of the feature count

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index cd133d6..be061ef 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -381,7 +381,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_mu->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
-- 
2.43.0


From f3e2493522ab589b5bf85815aff0efc4a1c95304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 084/270] fix: k-means turns the centroid of an empty cluster
 into NaN

---
 modules/kmeans/kmeans.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index be061ef..cd29f6c 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -410,6 +410,11 @@ void MLPPKMeans::_compute_mu() {
 			den += r_j_i;
 		}
 
+		// A centroid no point is assigned to stays where it is.
+		if (den == 0) {
+			continue;
+		}
+
 		mu_tempv->scalar_multiplyb(real_t(1) / real_t(den), num);
 
 		_mu->row_set_mlpp_vector(i, mu_tempv);
-- 
2.43.0


From 453178494461a927112dfbd8512cac48c824def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 085/270] fix: k-means model_set_test iterates the rows of the
 training set instead of its argument

---
 modules/kmeans/kmeans.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index cd29f6c..5fbb599 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,7 +81,7 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int input_set_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
@@ -99,7 +99,7 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int r0_size = _mu->size().y;
 
 	for (int i = 0; i < input_set_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
-- 
2.43.0


From cec876dcb6f0817030c677a0da35faab0d8b9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 086/270] fix: k-means++ leaves the last centroid unset and
 takes the last point as the farthest one

---
 modules/kmeans/kmeans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 5fbb599..5c0c8f7 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -472,11 +472,12 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		real_t max_dist = -1;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From bbd45ed0c524aef79305d51b201891876285f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 087/270] fix: silhouette scores average over the wrong points
 and cluster sizes

---
 modules/kmeans/kmeans.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 5c0c8f7..2244606 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -244,6 +244,7 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 
 		// COMPUTING a[i]
 		real_t a = 0;
+		int a_cluster_size = 0;
 		for (int j = 0; j < input_set_size_y; ++j) {
 			if (i == j) {
 				continue;
@@ -254,12 +255,19 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 			if (r_i_tempv->is_equal_approx(r_j_tempv)) {
 				_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
+				++a_cluster_size;
 				a += input_set_i_tempv->euclidean_distance(input_set_j_tempv);
 			}
 		}
 
 		// NORMALIZE a[i]
-		a /= closest_centroids->size().x - 1;
+		// A point alone in its cluster has a silhouette score of 0.
+		if (a_cluster_size == 0) {
+			silhouette_scores->element_set(i, 0);
+			continue;
+		}
+
+		a /= a_cluster_size;
 
 		closest_centroids->row_get_into_mlpp_vector(i, closest_centroids_i_tempv);
 
@@ -270,23 +278,20 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 
 			if (!closest_centroids_i_tempv->is_equal_approx(mu_j_tempv)) {
 				real_t sum = 0;
-				for (int k = 0; k < input_set_size_y; ++k) {
-					_input_set->row_get_into_mlpp_vector(k, input_set_k_tempv);
-
-					sum += input_set_i_tempv->euclidean_distance(input_set_k_tempv);
-				}
-
-				// NORMALIZE b[i]
 				real_t k_cluster_size = 0;
 				for (int k = 0; k < closest_centroids_size_y; ++k) {
-					_input_set->row_get_into_mlpp_vector(k, closest_centroids_k_tempv);
+					closest_centroids->row_get_into_mlpp_vector(k, closest_centroids_k_tempv);
 
 					if (closest_centroids_k_tempv->is_equal_approx(mu_j_tempv)) {
+						_input_set->row_get_into_mlpp_vector(k, input_set_k_tempv);
+
+						sum += input_set_i_tempv->euclidean_distance(input_set_k_tempv);
 						++k_cluster_size;
 					}
 				}
 
-				if (sum / k_cluster_size < b) {
+				// NORMALIZE b[i]
+				if (k_cluster_size > 0 && sum / k_cluster_size < b) {
 					b = sum / k_cluster_size;
 				}
 			}
-- 
2.43.0


From f8a46ee72d446807fa7c3133f8aa5483199b50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 088/270] fix: BernoulliNB feature probabilities are integers,
 normalised by index instead of by word

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 6 +++---
 modules/bernoulli_nb/bernoulli_nb.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index aa634cc..1a323a7 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -148,11 +148,11 @@ void MLPPBernoulliNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		for (uint32_t j = 0; j < _theta[i].size(); j++) {
+		for (int j = 0; j < _vocab->size(); j++) {
 			if (i == 0) {
-				_theta.write[i][j] /= _prior_0 * _y_hat->size();
+				_theta.write[i][_vocab->element_get(j)] /= _prior_0 * _y_hat->size();
 			} else {
-				_theta.write[i][j] /= _prior_1 * _y_hat->size();
+				_theta.write[i][_vocab->element_get(j)] /= _prior_1 * _y_hat->size();
 			}
 		}
 	}
diff --git a/modules/bernoulli_nb/bernoulli_nb.h b/modules/bernoulli_nb/bernoulli_nb.h
index 810778e..fab859b 100644
--- a/modules/bernoulli_nb/bernoulli_nb.h
+++ b/modules/bernoulli_nb/bernoulli_nb.h
@@ -69,7 +69,7 @@ protected:
 	real_t _prior_1;
 	real_t _prior_0;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From 2da6cab0dabad4442bfa4d68409939810c99fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 089/270] fix: BernoulliNB computes the word probabilities of
 the first row before it has a vocabulary

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index 1a323a7..0cfa221 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -175,12 +175,12 @@ void MLPPBernoulliNB::evaluate() {
 		_prior_1 = sum / _y_hat->size();
 		_prior_0 = 1 - _prior_1;
 
-		// Evaluating Theta...
-		compute_theta();
-
 		// Evaluating the vocab set...
 		compute_vocab();
 
+		// Evaluating Theta...
+		compute_theta();
+
 		Vector<int> found_indices;
 
 		for (int j = 0; j < _input_set->size().x; j++) {
-- 
2.43.0


From ee6849e38d3ad5b11db913dc0027ba0788258607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 090/270] fix: GaussianNB never counts its class priors

---
 modules/gaussian_nb/gaussian_nb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index a4daf57..3d969d8 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -183,7 +183,7 @@ void MLPPGaussianNB::evaluate() {
 	_priors->fill(0);
 	for (int i = 0; i < _output_set->size(); i++) {
 		int indx = static_cast<int>(_output_set->element_get(i));
-		_priors->element_set(indx, _priors->element_get(indx));
+		_priors->element_set(indx, _priors->element_get(indx) + 1);
 	}
 
 	_priors->scalar_multiply(real_t(1) / real_t(_output_set->size()));
-- 
2.43.0


From 8362535e433a4e3397e50dad07adbaed38610309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 091/270] fix: GaussianNB multiplies by the mean instead of
 subtracting it and adds the scores of the classes up

---
 modules/gaussian_nb/gaussian_nb.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 3d969d8..0277a09 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -84,15 +84,19 @@ real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
-	real_t y_hat_i = 1;
-
 	for (int i = _class_num - 1; i >= 0; i--) {
 		real_t sigma_i = _sigma->element_get(i);
-		real_t x_i = x->element_get(i);
 		real_t mu_i = _mu->element_get(i);
 
-		y_hat_i += Math::log(_priors->element_get(i) * (1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) * Math::exp(-(x_i * mu_i) * (x_i * mu_i) / (2 * sigma_i * sigma_i)));
-		score[i] = Math::exp(y_hat_i);
+		real_t y_hat_i = Math::log(_priors->element_get(i));
+
+		for (int j = 0; j < x->size(); j++) {
+			real_t x_j = x->element_get(j);
+
+			y_hat_i += -Math::log(Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) - (x_j - mu_i) * (x_j - mu_i) / (2 * sigma_i * sigma_i);
+		}
+
+		score[i] = y_hat_i;
 	}
 
 	real_t max_element = -Math_INF;
@@ -192,18 +196,18 @@ void MLPPGaussianNB::evaluate() {
 		LocalVector<real_t> score;
 		score.resize(_class_num);
 
-		real_t y_hat_i = 1;
-
 		for (int j = _class_num - 1; j >= 0; j--) {
+			real_t y_hat_i = Math::log(_priors->element_get(j));
+
 			for (int k = 0; k < _input_set->size().x; k++) {
 				real_t sigma_j = _sigma->element_get(j);
 				real_t mu_j = _mu->element_get(j);
 				real_t input_set_i_k = _input_set->element_get(i, k);
 
-				y_hat_i += Math::log(_priors->element_get(j) * (1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) * Math::exp(-(input_set_i_k * mu_j) * (input_set_i_k * mu_j) / (2 * sigma_j * sigma_j)));
+				y_hat_i += -Math::log(Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) - (input_set_i_k - mu_j) * (input_set_i_k - mu_j) / (2 * sigma_j * sigma_j);
 			}
 
-			score[j] = Math::exp(y_hat_i);
+			score[j] = y_hat_i;
 		}
 
 		real_t max_element = -Math_INF;
-- 
2.43.0


From 1ad52ef0b0c414b915e6d5b371efc41f03b97fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 092/270] fix: MultinomialNB word probabilities are integers,
 normalised by index instead of by word

---
 modules/multinomial_nb/multinomial_nb.cpp | 6 ++----
 modules/multinomial_nb/multinomial_nb.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 0f63f0d..aabf656 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -202,10 +202,8 @@ void MLPPMultinomialNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		uint32_t theta_i_size = _theta[i].size();
-
-		for (uint32_t j = 0; j < theta_i_size; j++) {
-			_theta.write[i][j] /= _priors->element_get(i) * _y_hat->size();
+		for (int j = 0; j < vocab_size; j++) {
+			_theta.write[i][_vocab->element_get(j)] /= _priors->element_get(i) * _y_hat->size();
 		}
 	}
 }
diff --git a/modules/multinomial_nb/multinomial_nb.h b/modules/multinomial_nb/multinomial_nb.h
index 7d447ab..9dbd284 100644
--- a/modules/multinomial_nb/multinomial_nb.h
+++ b/modules/multinomial_nb/multinomial_nb.h
@@ -79,7 +79,7 @@ protected:
 	// Model Params
 	Ref<MLPPVector> _priors;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From 08abc2152ee3e4db0049e75efbb71f21bdab7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 093/270] fix: MultinomialNB never builds its vocabulary

---
 modules/multinomial_nb/multinomial_nb.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index aabf656..f53190c 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -36,6 +36,7 @@
 #include "core/containers/local_vector.h"
 #endif
 
+#include "../core/data.h"
 #include "../core/utilities.h"
 
 #include <random>
@@ -212,6 +213,10 @@ void MLPPMultinomialNB::evaluate() {
 	int output_set_size = _output_set->size();
 	Size2i input_set_size = _input_set->size();
 
+	// Evaluating the vocab set...
+	MLPPData data;
+	_vocab = data.vec_to_setnv(_input_set->flatten());
+
 	for (int i = 0; i < output_set_size; i++) {
 		// Pr(B | A) * Pr(A)
 		LocalVector<real_t> score;
-- 
2.43.0


From c0d9cff6544dad8729c72ba0042a4a008e6d7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 094/270] fix: MultinomialNB starts from uninitialised scores
 and accumulates priors over rows

---
 modules/multinomial_nb/multinomial_nb.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index f53190c..d90f053 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -100,6 +100,10 @@ real_t MLPPMultinomialNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
+	for (int p = 0; p < _class_num; p++) {
+		score[p] = 0;
+	}
+
 	compute_theta();
 
 	int vocab_size = _vocab->size();
@@ -222,8 +226,13 @@ void MLPPMultinomialNB::evaluate() {
 		LocalVector<real_t> score;
 		score.resize(_class_num);
 
+		for (int p = 0; p < _class_num; p++) {
+			score[p] = 0;
+		}
+
 		// Easy computation of priors, i.e. Pr(C_k)
 		_priors->resize(_class_num);
+		_priors->fill(0);
 		for (int ii = 0; ii < _output_set->size(); ii++) {
 			int osii = static_cast<int>(_output_set->element_get(ii));
 			_priors->element_set(osii, _priors->element_get(osii) + 1);
-- 
2.43.0


From 7ea17f3dd494a247e60767eb2746e134a9b29291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 095/270] fix: MultinomialNB scores a training row with the
 word probabilities of the class numbered like the row

---
 modules/multinomial_nb/multinomial_nb.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index d90f053..4b15ab9 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -243,17 +243,16 @@ void MLPPMultinomialNB::evaluate() {
 		// Evaluating Theta...
 		compute_theta();
 
-		for (int j = 0; j < input_set_size.y; j++) {
+		for (int j = 0; j < input_set_size.x; j++) {
 			for (int k = 0; k < _vocab->size(); k++) {
 				real_t input_set_i_j = _input_set->element_get(i, j);
 				real_t vocab_k = _vocab->element_get(k);
 
 				if (Math::is_equal_approx(input_set_i_j, vocab_k)) {
-					real_t theta_i_k = _theta[i][vocab_k];
-					theta_i_k = Math::log(theta_i_k);
-
 					for (int p = _class_num - 1; p >= 0; p--) {
-						score[p] += theta_i_k;
+						real_t theta_p_k = _theta[p][vocab_k];
+
+						score[p] += Math::log(theta_p_k);
 					}
 				}
 			}
-- 
2.43.0


From 63dab61e414b2ef3d9b6e62f83e19ce4b1c9588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 096/270] fix: LocalVector remove, erase and insert do not
 compile (ERR_FAIL_UNSIGNED_INDEX is not defined)

---
 platform/sfw.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0daf73d..37cecce 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -1519,6 +1519,13 @@ _FORCE_INLINE_ void _RLOG_MACRO_TEMPLATE_FUNC(STR str, A p0, B p1, C p2, D p3, E
 	} else                                                                           \
 		((void)0)
 
+#define ERR_FAIL_UNSIGNED_INDEX(index, size)                                         \
+	if (index >= size) {                                                             \
+		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, ""); \
+		return;                                                                      \
+	} else                                                                           \
+		((void)0)
+
 #define ERR_FAIL_INDEX_MSG(index, size, msg)                                          \
 	if ((index < 0) || (index >= size)) {                                             \
 		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, msg); \
-- 
2.43.0


From 441ecf64a71addfb9abe8859bbcadf639a03ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 097/270] fix: OrderedHashMap assignment keeps the old entries
 of the target

---
 platform/sfw.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 37cecce..997a08c 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -16068,6 +16068,10 @@ private:
 
 public:
 	void operator=(const OrderedHashMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+		clear();
 		_copy_from(p_map);
 	}
 
-- 
2.43.0


From 2038fbf962813683d2d392fbcc37bf62c49f9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 098/270] fix: RBMap and RBSet are emptied by assigning them to
 themselves

---
 platform/sfw.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 997a08c..30d6a84 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -4134,6 +4134,9 @@ public:
 	}
 
 	void operator=(const RBMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
 		_copy_from(p_map);
 	}
 
@@ -4738,6 +4741,9 @@ public:
 	}
 
 	void operator=(const RBSet &p_set) {
+		if (this == &p_set) {
+			return;
+		}
 		_copy_from(p_set);
 	}
 
-- 
2.43.0


From dd42e84f998a31684bf2b8d7b5d11e9c73be9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 099/270] fix: List is emptied by assigning it to itself

---
 platform/sfw.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 30d6a84..551eb82 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5624,6 +5624,10 @@ public:
 	 * copy the list
 	 */
 	void operator=(const List &p_list) {
+		if (this == &p_list) {
+			return;
+		}
+
 		clear();
 		const Element *it = p_list.front();
 		while (it) {
-- 
2.43.0


From d23ed3822f8ab108a785e0e6163485b06e8124b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 100/270] fix: List::move_before to the end does not link the
 element after the last one

---
 platform/sfw.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 551eb82..6e1d56f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5746,6 +5746,11 @@ public:
 		value->next_ptr = where;
 		if (!where) {
 			value->prev_ptr = _data->last;
+			if (_data->last) {
+				_data->last->next_ptr = value;
+			} else {
+				_data->first = value;
+			}
 			_data->last = value;
 			return;
 		};
-- 
2.43.0


From 5656069a28bb48b9d4840fd3a7047cc3e06bf391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 101/270] fix: RingBuffer::read takes an element from an empty
 buffer and refuses a full one

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 6e1d56f..902de9c 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5919,7 +5919,7 @@ class RingBuffer {
 
 public:
 	T read() {
-		ERR_FAIL_COND_V(space_left() < 1, T());
+		ERR_FAIL_COND_V(data_left() < 1, T());
 		return data.ptr()[inc(read_pos, 1)];
 	};
 
-- 
2.43.0


From f8f74c9e05014d83e2b8669ef4d0c5b7de94bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 102/270] fix: RingBuffer copy and find read past the stored
 data or miss the end of it

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 902de9c..ff684be 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5949,7 +5949,7 @@ public:
 	int copy(T *p_buf, int p_offset, int p_size) const {
 		int left = data_left();
 		if ((p_offset + p_size) > left) {
-			p_size -= left - p_offset;
+			p_size = left - p_offset;
 			if (p_size <= 0) {
 				return 0;
 			}
@@ -5975,9 +5975,9 @@ public:
 	int find(const T &t, int p_offset, int p_max_size) const {
 		int left = data_left();
 		if ((p_offset + p_max_size) > left) {
-			p_max_size -= left - p_offset;
+			p_max_size = left - p_offset;
 			if (p_max_size <= 0) {
-				return 0;
+				return -1;
 			}
 		}
 		p_max_size = MIN(left, p_max_size);
-- 
2.43.0


From 26d4fe439384211d79a198d15d62a128204a2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 103/270] fix: SortArray::nth_element does not place the
 element when the depth limit is reached

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index ff684be..d2ec78a 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3402,8 +3402,8 @@ public:
 	inline void introselect(int p_first, int p_nth, int p_last, T *p_array, int p_max_depth) const {
 		while (p_last - p_first > 3) {
 			if (p_max_depth == 0) {
-				partial_select(p_first, p_nth + 1, p_last, p_array);
-				SWAP(p_first, p_nth);
+				partial_select(p_first, p_last, p_nth + 1, p_array);
+				SWAP(p_array[p_first], p_array[p_nth]);
 				return;
 			}
 
-- 
2.43.0


From 6fb7403dcd0d47ebc5c120557c7e8c8a07965e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 104/270] fix: destroyed objects stay registered in ObjectDB
 and Variants keep pointing to them

---
 platform/sfw.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 608d517..73962fe 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18414,7 +18414,8 @@ void Object::cancel_free() {
 	_predelete_ok = 0;
 }
 
-Object::Object() {
+Object::Object() :
+		_rc(nullptr) {
 	_is_queued_for_deletion = false;
 	_predelete_ok = 0;
 	_instance_id = 0;
@@ -18422,6 +18423,13 @@ Object::Object() {
 }
 
 Object::~Object() {
+	ObjectRC *rc = _rc.load(std::memory_order_acquire);
+	if (rc && rc->invalidate()) {
+		memdelete(rc);
+	}
+
+	ObjectDB::remove_instance(this);
+	_instance_id = 0;
 }
 
 ObjectRC *Object::_use_rc() {
-- 
2.43.0


From f4797f3abe4c77c099f3408d5b05187908329ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 105/270] fix: assigning a Ref held by the object the target
 releases reads freed memory

---
 platform/sfw.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index d2ec78a..3d414d0 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19249,12 +19249,16 @@ class Ref {
 			return;
 		}
 
-		unref();
-
+		// p_from can be owned by the object that is about to be released
+		T *old = reference;
 		reference = p_from.reference;
 		if (reference) {
 			reference->reference();
 		}
+
+		if (old && old->unreference()) {
+			memdelete(old);
+		}
 	}
 
 	void ref_pointer(T *p_ref) {
-- 
2.43.0


From 8bb9c303973518fba0766f07f1d9b23625f6a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 106/270] fix: thread safe PagedAllocator::free counts the
 returned slot after releasing its lock

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 3d414d0..69230a1 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -6146,10 +6146,10 @@ public:
 		}
 		p_mem->~T();
 		available_pool[allocs_available >> page_shift][allocs_available & page_mask] = p_mem;
+		allocs_available++;
 		if (thread_safe) {
 			spin_lock.unlock();
 		}
-		allocs_available++;
 	}
 
 	void reset(bool p_allow_unfreed = false) {
-- 
2.43.0


From 80e1363e746d59402a1e3883d7ff449c04d455fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 107/270] fix: ObjectDB::get_instance reads the table entry
 after releasing the lock

---
 platform/sfw.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 73962fe..6e95525 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18495,12 +18495,10 @@ void ObjectDB::remove_instance(Object *p_object) {
 Object *ObjectDB::get_instance(ObjectID p_instance_id) {
 	rw_lock.read_lock();
 	Object **obj = instances.getptr(p_instance_id);
+	Object *ret = obj ? *obj : nullptr;
 	rw_lock.read_unlock();
 
-	if (!obj) {
-		return nullptr;
-	}
-	return *obj;
+	return ret;
 }
 
 void ObjectDB::debug_objects(DebugFunc p_func) {
-- 
2.43.0


From 0816b1bc269fb0cf01c590fa0c4e456321b562a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 108/270] fix: PoolVector::push_back overwrites the last
 element when it cannot grow

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 69230a1..213ac7c 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9146,7 +9146,7 @@ void PoolVector<T>::fill(const T &p_val) {
 
 template <class T>
 void PoolVector<T>::push_back(const T &p_val) {
-	resize(size() + 1);
+	ERR_FAIL_COND(resize(size() + 1) != OK);
 	set(size() - 1, p_val);
 }
 
-- 
2.43.0


From a5aaf59b346544dc725dd546418179f80efd2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 109/270] fix: LinReg truncates the regularisation parameters
 to integers

---
 modules/lin_reg/lin_reg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.h b/modules/lin_reg/lin_reg.h
index 5390364..d755bfd 100644
--- a/modules/lin_reg/lin_reg.h
+++ b/modules/lin_reg/lin_reg.h
@@ -115,8 +115,8 @@ protected:
 
 	// Regularization Params
 	MLPPReg::RegularizationType _reg;
-	int _lambda;
-	int _alpha; /* This is the controlling param for Elastic Net*/
+	real_t _lambda;
+	real_t _alpha; /* This is the controlling param for Elastic Net*/
 
 	bool _initialized;
 };
-- 
2.43.0


From 25e84c53a32f53aefde09b99d119a8520497f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 110/270] fix: LinReg adaptive optimisers divide the gradient
 by the batch size in integers

---
 modules/lin_reg/lin_reg.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..52dd5bb 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-- 
2.43.0


From 58450036feb4e3225db1b325c18d1a7dc967f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 111/270] fix: LinReg::nag applies the momentum twice per step

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 52dd5bb..ef206de 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -372,7 +372,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			v = v->scalar_multiplyn(gamma)->addn(weight_grad->scalar_multiplyn(learning_rate));
 
-			_weights->sub(v);
+			_weights->sub(weight_grad->scalar_multiplyn(learning_rate)); // The momentum part of v is already applied
 
 			// Calculating the bias gradients
 			_bias -= learning_rate * error->sum_elements() / current_output_mini_batch->size(); // As normal
-- 
2.43.0


From 1020213acc7eb87cfe4a15a85e2faa9bb36bbe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 112/270] fix: LinReg::adagrad does not accumulate the squared
 gradients

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index ef206de..1f4df1f 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -423,7 +423,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-			v = weight_grad->hadamard_productn(weight_grad);
+			v = v->addn(weight_grad->hadamard_productn(weight_grad));
 			_weights->sub(weight_grad->division_element_wisen(v->scalar_addn(e)->sqrtn())->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
-- 
2.43.0


From eb418f969b33a0a1f84f9e234ff4b38191be6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 113/270] fix: LinReg::adamax divides 0 by 0 for a feature
 without gradient and ignores e

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 1f4df1f..2f3d53c 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -590,7 +590,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			u = u->scalar_multiplyn(b2)->maxn(weight_grad->absn());
 
 			Ref<MLPPVector> m_hat = m->scalar_multiplyn(1 / (1 - Math::pow(b1, epoch)));
-			_weights->sub(m_hat->division_element_wisen(u)->scalar_multiplyn(learning_rate));
+			_weights->sub(m_hat->division_element_wisen(u->scalar_addn(e))->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
 			_bias -= learning_rate * error->sum_elements() / current_output_mini_batch->size(); // As normal
-- 
2.43.0


From 6bf610a13c07cced687dfa7f8e27b4d0a9709d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 114/270] fix: LinReg::nadam uses the first moment without its
 bias correction

---
 modules/lin_reg/lin_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 2f3d53c..8698a97 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -646,11 +646,11 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			m = m->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn(1 - b1));
 			v = v->scalar_multiplyn(b2)->addn(weight_grad->exponentiaten(2)->scalar_multiplyn(1 - b2));
 
-			m_final = m->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn((1 - b1) / (1 - Math::pow(b1, epoch))));
-
 			Ref<MLPPVector> m_hat = m->scalar_multiplyn(1 / (1 - Math::pow(b1, epoch)));
 			Ref<MLPPVector> v_hat = v->scalar_multiplyn(1 / (1 - Math::pow(b2, epoch)));
 
+			m_final = m_hat->scalar_multiplyn(b1)->addn(weight_grad->scalar_multiplyn((1 - b1) / (1 - Math::pow(b1, epoch))));
+
 			_weights->sub(m_final->division_element_wisen(v_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
-- 
2.43.0


From 2c77a23e17034186dd193b88f3aafaaf81e8995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 115/270] fix: LinReg::normal_equation fits the weights without
 and the bias with an intercept

---
 modules/lin_reg/lin_reg.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 8698a97..9bff9b3 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -692,19 +692,24 @@ void MLPPLinReg::normal_equation() {
 		input_set_t->row_get_into_mlpp_vector(i, input_set_t_row_tmp);
 
 		x_means->element_set(i, stat.meanv(input_set_t_row_tmp));
+
+		// The bias is fitted too, so the weights are those of the centered data.
+		input_set_t->row_set_mlpp_vector(i, input_set_t_row_tmp->scalar_addn(-x_means->element_get(i)));
 	}
 
+	Ref<MLPPMatrix> gram = input_set_t->multn(input_set_t->transposen());
+
 	Ref<MLPPVector> temp;
 	//temp.resize(_k);
 
-	temp = input_set_t->multn(_input_set)->inverse()->mult_vec(input_set_t->mult_vec(_output_set));
+	temp = gram->inverse()->mult_vec(input_set_t->mult_vec(_output_set));
 
 	ERR_FAIL_COND_MSG(Math::is_nan(temp->element_get(0)), "ERR: Resulting matrix was noninvertible/degenerate, and so the normal equation could not be performed. Try utilizing gradient descent.");
 
 	if (_reg == MLPPReg::REGULARIZATION_TYPE_RIDGE) {
-		_weights = _input_set->transposen()->multn(_input_set)->addn(MLPPMatrix::create_identity_mat(_k)->scalar_multiplyn(_lambda))->inverse()->mult_vec(_input_set->transposen()->mult_vec(_output_set));
+		_weights = gram->addn(MLPPMatrix::create_identity_mat(_k)->scalar_multiplyn(_lambda))->inverse()->mult_vec(input_set_t->mult_vec(_output_set));
 	} else {
-		_weights = _input_set->transposen()->multn(_input_set)->inverse()->mult_vec(_input_set->transposen()->mult_vec(_output_set));
+		_weights = temp;
 	}
 
 	_bias = stat.meanv(_output_set) - _weights->dot(x_means);
-- 
2.43.0


From a672d5cb5437e4c3b5d146b3169219e45f156cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 116/270] fix: LinReg::sgd reports the cost of the target
 against itself

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 9bff9b3..17ca4e8 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -208,7 +208,7 @@ void MLPPLinReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		output_set_row_tmp->element_set(0, output_element_set);
 
 		real_t y_hat = evaluatev(input_set_row_tmp);
-		y_hat_tmp->element_set(0, output_element_set);
+		y_hat_tmp->element_set(0, y_hat);
 
 		cost_prev = cost(y_hat_tmp, output_set_row_tmp);
 
-- 
2.43.0


From 600c533933932709f00e81acead5ee15a48cdccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 117/270] fix: PCA::score crashes before principal_components
 was called

---
 modules/pca/pca.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/pca/pca.cpp b/modules/pca/pca.cpp
index f28abb9..c9e9f11 100644
--- a/modules/pca/pca.cpp
+++ b/modules/pca/pca.cpp
@@ -73,6 +73,10 @@ Ref<MLPPMatrix> MLPPPCA::principal_components() {
 real_t MLPPPCA::score() {
 	ERR_FAIL_COND_V(!_input_set.is_valid() || _k == 0, 0);
 
+	if (_z->data_size() == 0) {
+		principal_components();
+	}
+
 	Ref<MLPPMatrix> x_approx = _u_reduce->multn(_z);
 	real_t num = 0;
 	real_t den = 0;
-- 
2.43.0


From 4e621f501956273a4c8215cd497561ee2c7c02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 118/270] fix: CLogLogReg::mle steps away from the target

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..5d831b8 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From c257eeb56cba351999c98dd2b59bb6fb202d22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 119/270] fix: TanhReg::train_sgd drops the weight update

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..02ec3e1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -245,7 +245,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
-- 
2.43.0


From 0b3e6c623c2257e2e6b848ea1802dd763029bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 120/270] fix: TanhReg::train_mbgd updates the bias with the
 activations of the whole set

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 02ec3e1..f87c7c1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -301,7 +301,7 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From 28632db04e9d0b279491126dbd9e456c3d74ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 121/270] fix: ProbitReg mini-batch descent propagates the
 targets, evaluates a matrix as a vector and divides by the number of batches

---
 modules/probit_reg/probit_reg.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..8b93753 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,20 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
-
-			z_tmp->element_set(0, z);
+			Ref<MLPPVector> z = propagatem(current_input);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / current_output->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / current_output->size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
-- 
2.43.0


From 13bb7351e7894c1b050e6ea81f38b08edd97c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 122/270] fix: ExpReg weight gradient misses the initial factor

---
 modules/exp_reg/exp_reg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..d1cd4e3 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -62,7 +62,7 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 			// Calculating the weight gradient
 			real_t sum = 0;
 			for (int j = 0; j < _n; j++) {
-				sum += error->element_get(j) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
+				sum += error->element_get(j) * _input_set->element_get(j, i) * _initial->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
 			}
 			real_t w_gradient = sum / _n;
 
@@ -143,7 +143,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		for (int i = 0; i < _k; i++) {
 			// Calculating the weight gradients
 
-			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
+			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * _initial->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
 			real_t i_gradient = (y_hat - output_element_set) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i));
 
 			// Weight/initial updation
@@ -198,7 +198,7 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				// Calculating the weight gradient
 				real_t sum = 0;
 				for (int k = 0; k < current_output_batch->size(); k++) {
-					sum += error->element_get(k) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
+					sum += error->element_get(k) * current_input_batch->element_get(k, j) * _initial->element_get(j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
 				}
 				real_t w_gradient = sum / current_output_batch->size();
 
-- 
2.43.0


From 322b18d6118ea1db6c96b89103db930872d848e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 123/270] fix: ExpReg::mbgd updates the parameter numbered by
 the batch and never the bias

---
 modules/exp_reg/exp_reg.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index d1cd4e3..98e318d 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,19 +211,18 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradient
-			//real_t sum = 0;
-			//for (int j = 0; j < current_output_batch->size(); j++) {
-			//	sum += (y_hat->element_get(j) - current_output_batch->element_get(j));
-			//}
+			real_t b_gradient = error->sum_elements() / current_output_batch->size();
+
+			// bias updation
+			_bias -= learning_rate * b_gradient;
 
-			//real_t b_gradient = sum / output_mini_batches[i].size();
 			y_hat = evaluatem(current_input_batch);
 
 			if (ui) {
-- 
2.43.0


From c2761cbea86b810b5a50d802ebb7949d85b39f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 124/270] fix: SoftmaxReg::train_sgd evaluates the target
 instead of the input after a step

---
 modules/softmax_reg/softmax_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..b267ddf 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
-- 
2.43.0


From eaf0b2062abe0fbf4fe00695375b4fe4db34a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 125/270] fix: SVC::train_gradient_descent moves the bias
 uphill, by the loss of the labels instead of the scores

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..1fe322d 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -121,7 +121,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
-- 
2.43.0


From 8ce3c5522ccd9b3df98675280cb6f5117bba67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 126/270] fix: SVC::train_mbgd drops the weight update

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 1fe322d..756d7c7 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,7 +242,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-- 
2.43.0


From caf7a7f28bbd487f7fc2688e8bd3e7eb847f3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 127/270] fix: SVC::train_mbgd moves the bias by the loss of
 the labels instead of the scores

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 756d7c7..d651a11 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -246,7 +246,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(y_hat, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From e4fe296f508605eb76137b474e6403c5d594ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 128/270] fix: SVC::set_output_set takes a matrix and so always
 clears the targets

---
 modules/svc/svc.cpp | 2 +-
 modules/svc/svc.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index d651a11..7d447d0 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -48,7 +48,7 @@ void MLPPSVC::set_input_set(const Ref<MLPPMatrix> &val) {
 Ref<MLPPVector> MLPPSVC::get_output_set() const {
 	return _output_set;
 }
-void MLPPSVC::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPSVC::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/svc/svc.h b/modules/svc/svc.h
index 7e4290c..a1062ba 100644
--- a/modules/svc/svc.h
+++ b/modules/svc/svc.h
@@ -55,7 +55,7 @@ public:
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
 	Ref<MLPPVector> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	real_t get_c() const;
 	void set_c(const real_t val);
-- 
2.43.0


From 172018551d10a5e3c9c45aedf160dd3d7dc702a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 129/270] fix: TanhReg::set_output_set takes a matrix and so
 always clears the targets

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 modules/tanh_reg/tanh_reg.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index f87c7c1..e37ee5c 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -47,7 +47,7 @@ void MLPPTanhReg::set_input_set(const Ref<MLPPMatrix> &val) {
 Ref<MLPPMatrix> MLPPTanhReg::get_output_set() const {
 	return _output_set;
 }
-void MLPPTanhReg::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPTanhReg::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/tanh_reg/tanh_reg.h b/modules/tanh_reg/tanh_reg.h
index bc30180..bb83ae2 100644
--- a/modules/tanh_reg/tanh_reg.h
+++ b/modules/tanh_reg/tanh_reg.h
@@ -52,7 +52,7 @@ public:
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
 	Ref<MLPPMatrix> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	MLPPReg::RegularizationType get_reg() const;
 	void set_reg(const MLPPReg::RegularizationType val);
-- 
2.43.0


From d632e075c9c442594bcea7ed0df623169616bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 130/270] fix: TanhReg::get_output_set returns a matrix and so
 always nothing

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 modules/tanh_reg/tanh_reg.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index e37ee5c..27d4c68 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -44,7 +44,7 @@ void MLPPTanhReg::set_input_set(const Ref<MLPPMatrix> &val) {
 	_input_set = val;
 }
 
-Ref<MLPPMatrix> MLPPTanhReg::get_output_set() const {
+Ref<MLPPVector> MLPPTanhReg::get_output_set() const {
 	return _output_set;
 }
 void MLPPTanhReg::set_output_set(const Ref<MLPPVector> &val) {
diff --git a/modules/tanh_reg/tanh_reg.h b/modules/tanh_reg/tanh_reg.h
index bb83ae2..ddea86a 100644
--- a/modules/tanh_reg/tanh_reg.h
+++ b/modules/tanh_reg/tanh_reg.h
@@ -51,7 +51,7 @@ public:
 	Ref<MLPPMatrix> get_input_set() const;
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
-	Ref<MLPPMatrix> get_output_set() const;
+	Ref<MLPPVector> get_output_set() const;
 	void set_output_set(const Ref<MLPPVector> &val);
 
 	MLPPReg::RegularizationType get_reg() const;
-- 
2.43.0


From 993a15546cea163536f50a4452691b1090c66a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 131/270] fix: every setter of a hidden or output layer
 discards its trained weights

---
 modules/hidden_layer/hidden_layer.cpp | 29 +++++++++++++++------------
 modules/hidden_layer/hidden_layer.h   |  2 ++
 modules/output_layer/output_layer.cpp | 19 ++++++------------
 modules/output_layer/output_layer.h   |  2 ++
 4 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 67e3633..a19e768 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -39,7 +39,7 @@ int MLPPHiddenLayer::get_n_hidden() const {
 }
 void MLPPHiddenLayer::set_n_hidden(const int val) {
 	_n_hidden = val;
-	_initialized = false;
+	_initialized = _are_parameters_set();
 }
 
 MLPPActivation::ActivationFunction MLPPHiddenLayer::get_activation() const {
@@ -47,7 +47,6 @@ MLPPActivation::ActivationFunction MLPPHiddenLayer::get_activation() const {
 }
 void MLPPHiddenLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
@@ -55,7 +54,7 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
 }
 void MLPPHiddenLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
+	_initialized = _are_parameters_set();
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
@@ -63,7 +62,7 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
 }
 void MLPPHiddenLayer::set_weights(const Ref<MLPPMatrix> &val) {
 	_weights = val;
-	_initialized = false;
+	_initialized = _are_parameters_set();
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
@@ -71,7 +70,7 @@ Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
 }
 void MLPPHiddenLayer::set_bias(const Ref<MLPPVector> &val) {
 	_bias = val;
-	_initialized = false;
+	_initialized = _are_parameters_set();
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
@@ -79,7 +78,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
 }
 void MLPPHiddenLayer::set_z(const Ref<MLPPMatrix> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
@@ -87,7 +85,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
 }
 void MLPPHiddenLayer::set_a(const Ref<MLPPMatrix> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
@@ -95,7 +92,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
 }
 void MLPPHiddenLayer::set_z_test(const Ref<MLPPVector> &val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
@@ -103,7 +99,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
 }
 void MLPPHiddenLayer::set_a_test(const Ref<MLPPVector> &val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
@@ -111,7 +106,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
 }
 void MLPPHiddenLayer::set_delta(const Ref<MLPPMatrix> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
@@ -119,7 +113,6 @@ MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
 }
 void MLPPHiddenLayer::set_reg(const MLPPReg::RegularizationType val) {
 	_reg = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_lambda() const {
@@ -127,7 +120,6 @@ real_t MLPPHiddenLayer::get_lambda() const {
 }
 void MLPPHiddenLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_alpha() const {
@@ -135,7 +127,6 @@ real_t MLPPHiddenLayer::get_alpha() const {
 }
 void MLPPHiddenLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPHiddenLayer::get_weight_init() const {
@@ -247,6 +238,18 @@ MLPPHiddenLayer::MLPPHiddenLayer() {
 MLPPHiddenLayer::~MLPPHiddenLayer() {
 }
 
+bool MLPPHiddenLayer::_are_parameters_set() const {
+	if (!_weights.is_valid() || !_bias.is_valid() || _n_hidden <= 0) {
+		return false;
+	}
+
+	if (_weights->size().x != _n_hidden || _bias->size() != _n_hidden) {
+		return false;
+	}
+
+	return !_input.is_valid() || _input->size().x == _weights->size().y;
+}
+
 void MLPPHiddenLayer::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("get_n_hidden"), &MLPPHiddenLayer::get_n_hidden);
 	ClassDB::bind_method(D_METHOD("set_n_hidden", "val"), &MLPPHiddenLayer::set_n_hidden);
diff --git a/modules/hidden_layer/hidden_layer.h b/modules/hidden_layer/hidden_layer.h
index bcd8626..e038e42 100644
--- a/modules/hidden_layer/hidden_layer.h
+++ b/modules/hidden_layer/hidden_layer.h
@@ -109,6 +109,8 @@ public:
 	~MLPPHiddenLayer();
 
 protected:
+	bool _are_parameters_set() const;
+
 	static void _bind_methods();
 
 	int _n_hidden;
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 4b5b2e7..78c2f2f 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -37,7 +37,7 @@ int MLPPOutputLayer::get_n_hidden() {
 }
 void MLPPOutputLayer::set_n_hidden(const int val) {
 	_n_hidden = val;
-	_initialized = false;
+	_initialized = _are_parameters_set();
 }
 
 MLPPActivation::ActivationFunction MLPPOutputLayer::get_activation() {
@@ -45,7 +45,6 @@ MLPPActivation::ActivationFunction MLPPOutputLayer::get_activation() {
 }
 void MLPPOutputLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
@@ -53,7 +52,6 @@ MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
 }
 void MLPPOutputLayer::set_cost(const MLPPCost::CostTypes val) {
 	_cost = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
@@ -61,7 +59,6 @@ Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
 }
 void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_weights() {
@@ -69,7 +66,7 @@ Ref<MLPPVector> MLPPOutputLayer::get_weights() {
 }
 void MLPPOutputLayer::set_weights(const Ref<MLPPVector> &val) {
 	_weights = val;
-	_initialized = false;
+	_initialized = _are_parameters_set();
 }
 
 real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
@@ -77,7 +74,6 @@ real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
 }
 void MLPPOutputLayer::set_bias(const real_t val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_z() {
@@ -85,7 +81,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_z() {
 }
 void MLPPOutputLayer::set_z(const Ref<MLPPVector> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_a() {
@@ -93,7 +88,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_a() {
 }
 void MLPPOutputLayer::set_a(const Ref<MLPPVector> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_z_test() {
@@ -101,7 +95,6 @@ real_t MLPPOutputLayer::get_z_test() {
 }
 void MLPPOutputLayer::set_z_test(const real_t val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_a_test() {
@@ -109,7 +102,6 @@ real_t MLPPOutputLayer::get_a_test() {
 }
 void MLPPOutputLayer::set_a_test(const real_t val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_delta() {
@@ -117,7 +109,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_delta() {
 }
 void MLPPOutputLayer::set_delta(const Ref<MLPPVector> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPOutputLayer::get_reg() {
@@ -132,7 +123,6 @@ real_t MLPPOutputLayer::get_lambda() {
 }
 void MLPPOutputLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_alpha() {
@@ -140,7 +130,6 @@ real_t MLPPOutputLayer::get_alpha() {
 }
 void MLPPOutputLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPOutputLayer::get_weight_init() {
@@ -253,6 +242,10 @@ MLPPOutputLayer::MLPPOutputLayer() {
 MLPPOutputLayer::~MLPPOutputLayer() {
 }
 
+bool MLPPOutputLayer::_are_parameters_set() const {
+	return _weights.is_valid() && _n_hidden > 0 && _weights->size() == _n_hidden;
+}
+
 void MLPPOutputLayer::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("get_n_hidden"), &MLPPOutputLayer::get_n_hidden);
 	ClassDB::bind_method(D_METHOD("set_n_hidden", "val"), &MLPPOutputLayer::set_n_hidden);
diff --git a/modules/output_layer/output_layer.h b/modules/output_layer/output_layer.h
index 5578f41..8fce3c8 100644
--- a/modules/output_layer/output_layer.h
+++ b/modules/output_layer/output_layer.h
@@ -109,6 +109,8 @@ public:
 	~MLPPOutputLayer();
 
 protected:
+	bool _are_parameters_set() const;
+
 	static void _bind_methods();
 
 	int _n_hidden;
-- 
2.43.0


From c5240ef18a9a428d71c378445125db5a66b1ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 132/270] fix: default constructed layers leave regularisation,
 cost and output count uninitialised

---
 modules/hidden_layer/hidden_layer.cpp             | 2 +-
 modules/multi_output_layer/multi_output_layer.cpp | 4 +++-
 modules/output_layer/output_layer.cpp             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index a19e768..5f62f6e 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -216,7 +216,7 @@ MLPPHiddenLayer::MLPPHiddenLayer() {
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index 8cffae6..78fe1b9 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -194,11 +194,13 @@ MLPPMultiOutputLayer::MLPPMultiOutputLayer(int n_output, int p_n_hidden, MLPPAct
 }
 
 MLPPMultiOutputLayer::MLPPMultiOutputLayer() {
+	_n_output = 0;
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 78c2f2f..d40a7ee 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -218,9 +218,10 @@ MLPPOutputLayer::MLPPOutputLayer(int p_n_hidden, MLPPActivation::ActivationFunct
 MLPPOutputLayer::MLPPOutputLayer() {
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
-- 
2.43.0


From 8e7f54c7d5ce094db5203b243914bf02c2a96c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 133/270] fix: AutoEncoder::gradient_descent does not average
 the output bias gradient

---
 modules/auto_encoder/auto_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fb457b0..664f483 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -95,7 +95,7 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
 		// Calculating the bias gradients for layer 2
-		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
+		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / _n));
 
 		//Calculating the weight/bias for layer 1
 		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
-- 
2.43.0


From e19fe8575802de38123fbd37620fa7c4516df0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 134/270] fix: AutoEncoder::mbgd never trains the hidden
 weights and the output bias

---
 modules/auto_encoder/auto_encoder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 664f483..97b99d2 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -232,17 +232,17 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			//Calculating the weight/bias for layer 1
 
-			Ref<MLPPMatrix> D1_1 = _weights2->transposen()->multn(error);
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
 			// weight an bias updation for layer 1
-			_weights2->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().x));
-			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().x));
+			_weights1->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().y));
+			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			y_hat = evaluatem(current_batch);
 
-- 
2.43.0


From 9eddc3afc14c4cb63f26476ebb44a7c6b18dba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 135/270] fix: SoftmaxNet::train_mbgd never trains the output
 bias

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 0ef1231..b16ce97 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -334,7 +334,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
-- 
2.43.0


From 120dd48b93779e00288f21dd101657eaeba00103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 136/270] fix: SoftmaxNet::train_sgd keeps its prediction in a
 row as wide as the hidden layer

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index b16ce97..dcdd57d 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -232,7 +232,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 	Ref<MLPPMatrix> y_hat_mat_tmp;
 	y_hat_mat_tmp.instance();
-	y_hat_mat_tmp->resize(Size2i(_bias1->size(), 1));
+	y_hat_mat_tmp->resize(Size2i(_bias2->size(), 1));
 
 	Ref<MLPPMatrix> output_row_mat_tmp;
 	output_row_mat_tmp.instance();
-- 
2.43.0


From 74ec2f96fac0bebe67af1676c3fdac259f17c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 137/270] fix: AutoEncoder propagates errors back through
 already updated weights

---
 modules/auto_encoder/auto_encoder.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 97b99d2..6c7fcf9 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -91,6 +91,9 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		// Calculating the weight/bias gradients for layer 2
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
+		// The error is propagated back through the weights it was made with.
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
@@ -98,7 +101,6 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / _n));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -164,13 +166,15 @@ void MLPPAutoEncoder::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		// Weight updation for layer 2
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
+		// The error is propagated back through the weights it was made with.
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
+
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 
 		// Bias updation for layer 2
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -228,6 +232,9 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			// Calculating the weight/bias gradients for layer 2
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
+			// The error is propagated back through the weights it was made with.
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 			// weights and bias updation for layer 2
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
@@ -236,7 +243,6 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 
 			//Calculating the weight/bias for layer 1
 
-			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 28fb389feb155a9b0580e2090cc49998fc564940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 138/270] fix: SoftmaxNet propagates errors back through
 already updated weights

---
 modules/softmax_net/softmax_net.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index dcdd57d..69952a9 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -170,6 +170,9 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		// Calculating the weight/bias gradients for layer 2
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
+		// The error is propagated back through the weights it was made with.
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
@@ -177,7 +180,6 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -258,6 +260,9 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
 
+		// The error is propagated back through the weights it was made with.
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
+
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
@@ -265,7 +270,6 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -329,6 +333,9 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
+			// The error is propagated back through the weights it was made with.
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 			// weights and bias updation for layser 2
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
@@ -337,7 +344,6 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_input_mini_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 7c5324a31e09d1b82de126a18fc0c21d56585d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 139/270] fix: MLP propagates errors back through already
 updated weights

---
 modules/mlp/mlp.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3a08a9f..189f28a 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -128,6 +128,9 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		Ref<MLPPVector> D2_1 = _a2->transposen()->mult_vec(error);
 
+		// The error is propagated back through the weights it was made with.
+		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / static_cast<real_t>(_n)));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
@@ -136,7 +139,6 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		// Calculating the weight/bias for layer 1
 
-		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -210,6 +212,9 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		// Weight updation for layer 2
 		Ref<MLPPVector> D2_1 = la2->scalar_multiplyn(error);
 
+		// The error is propagated back through the weights it was made with.
+		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
+
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
 
@@ -217,7 +222,6 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		_bias2 -= learning_rate * error;
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(lz2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -282,6 +286,9 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 
 			real_t lr_d_cos = learning_rate / static_cast<real_t>(current_output->size());
 
+			// The error is propagated back through the weights it was made with.
+			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
+
 			// weights and bias updation for layser 2
 			_weights2->sub(D2_1->scalar_multiplyn(lr_d_cos));
 			_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
@@ -293,7 +300,6 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			_bias2 -= learning_rate * b_gradient / current_output->size();
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(lz2));
 			Ref<MLPPMatrix> D1_3 = current_input->transposen()->multn(D1_2);
 
-- 
2.43.0


From a6df9c54e2e6252e7a6f992eaa84b499d41b03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 140/270] fix: ANN and MANN leave the last hidden layer out of
 the regularisation cost

---
 modules/ann/ann.cpp   | 2 +-
 modules/mann/mann.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 546e6cc..cc0ebdc 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -840,7 +840,7 @@ real_t MLPPANN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 7d8e0dc..60147e7 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -278,7 +278,7 @@ real_t MLPPMANN::cost(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From 3de012dbda9be8c770a29e6b49be2f418e98a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 141/270] fix: MANN propagates errors through untransposed
 weights beyond the last hidden layer

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 60147e7..cafd7fc 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -159,7 +159,7 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 				layer = _network[i];
 				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
 
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-- 
2.43.0


From 5444c2981b9133c1eca61dcca86c7ac154dcb239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 142/270] fix: MANN propagates errors back through already
 updated weights

---
 modules/mann/mann.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index cafd7fc..a3c70e3 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -135,6 +135,20 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 			_output_layer->set_delta(r1->hadamard_productn(r2));
 		}
 
+		// Every layer's error has to be known before any weights change.
+		if (!_network.empty()) {
+			Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
+
+			layer->set_delta(_output_layer->get_delta()->multn(_output_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+
+			for (int i = _network.size() - 2; i >= 0; i--) {
+				layer = _network[i];
+				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
+
+				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+			}
+		}
+
 		Ref<MLPPMatrix> output_w_grad = _output_layer->get_input()->transposen()->multn(_output_layer->get_delta());
 
 		_output_layer->set_weights(_output_layer->get_weights()->subn(output_w_grad->scalar_multiplyn(learning_rate / _n)));
@@ -146,8 +160,6 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		if (!_network.empty()) {
 			Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-			layer->set_delta(_output_layer->get_delta()->multn(_output_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
-
 			Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
 			layer->set_weights(layer->get_weights()->subn(hidden_layer_w_grad->scalar_multiplyn(learning_rate / _n)));
@@ -157,10 +169,6 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 
 			for (int i = _network.size() - 2; i >= 0; i--) {
 				layer = _network[i];
-				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
-
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
-
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
 				layer->set_weights(layer->get_weights()->subn(hidden_layer_w_grad->scalar_multiplyn(learning_rate / _n)));
-- 
2.43.0


From d4e92b51d1172c9f9bd3440e215c2c0a1eda59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 143/270] fix: ANN::sgd uses the gradient of the previous pass
 and not of the drawn row

---
 modules/ann/ann.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index cc0ebdc..0224408 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -142,9 +142,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 	input_set_row_tmp.instance();
 	input_set_row_tmp->resize(_input_set->size().x);
 
-	Ref<MLPPVector> y_hat_row_tmp;
-	y_hat_row_tmp.instance();
-	y_hat_row_tmp->resize(1);
+	Ref<MLPPMatrix> input_row_mat_tmp;
+	input_row_mat_tmp.instance();
+	input_row_mat_tmp->resize(Size2i(_input_set->size().x, 1));
 
 	Ref<MLPPVector> output_set_row_tmp;
 	output_set_row_tmp.instance();
@@ -159,8 +159,10 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t output_element_set = _output_set->element_get(output_index);
 		output_set_row_tmp->element_set(0, output_element_set);
 
-		real_t y_hat = model_test(input_set_row_tmp);
-		y_hat_row_tmp->element_set(0, y_hat);
+		input_row_mat_tmp->row_set_mlpp_vector(0, input_set_row_tmp);
+
+		// The layers have to hold the results for this row, as the gradients are computed from them.
+		Ref<MLPPVector> y_hat_row_tmp = model_set_test(input_row_mat_tmp);
 
 		cost_prev = cost(y_hat_row_tmp, output_set_row_tmp);
 
@@ -170,7 +172,7 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		grads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
-		y_hat = model_test(input_set_row_tmp);
+		y_hat_row_tmp = model_set_test(input_row_mat_tmp);
 
 		if (ui) {
 			print_ui(epoch, cost_prev, y_hat_row_tmp, output_set_row_tmp);
-- 
2.43.0


From 8f579f907be1daed9ed0d1484f4dd0936f3f0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 144/270] fix: ANN momentum and adaptive optimisers start from
 uninitialised moments

---
 core/lin_alg.cpp    |  1 +
 modules/ann/ann.cpp | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e89493e..24d6c3b 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1808,6 +1808,7 @@ void MLPPLinAlg::resizevt(Vector<Ref<MLPPMatrix>> &r_target, const Vector<Ref<ML
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		r_target.write[i] = m;
 	}
diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 0224408..af55221 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -275,6 +275,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			if (nag) { // "Aposterori" calculation
@@ -341,6 +342,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
@@ -406,6 +408,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
@@ -474,7 +477,9 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 
 			if (m_output->size() == 0 && v_output->size()) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -552,7 +557,9 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			if (m_output->size() == 0 && u_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				u_output->resize(grads.output_w_grad->size());
+				u_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -627,7 +634,9 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -715,8 +724,11 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 				v_output_hat->resize(grads.output_w_grad->size());
+				v_output_hat->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
-- 
2.43.0


From bdc9be64261dcf3c7a286c052512ffa5f3593d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 145/270] fix: ANN::adam never sizes the moments of the output
 layer

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index af55221..aeafef1 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -475,7 +475,7 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
 
-			if (m_output->size() == 0 && v_output->size()) {
+			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
 				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
-- 
2.43.0


From d5c1ea6dc53b913003cd5a84479565de5d2401b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 146/270] fix: ANN::adadelta never decays the output moment and
 swaps the decay of the hidden ones

---
 modules/ann/ann.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index aeafef1..0d4813d 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -411,8 +411,8 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 				v_output->fill(0);
 			}
 
-			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
-			v_output->add(grads.output_w_grad->exponentiaten(2));
+			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, v_hidden), alg.scalar_multiplynvt(1 - b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
+			v_output = v_output->scalar_multiplyn(b1)->addn(grads.output_w_grad->exponentiaten(2)->scalar_multiplyn(1 - b1));
 
 			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
 			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
-- 
2.43.0


From 286521f85c9e084b34fc35f32d3aebad8c8aee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 147/270] fix: ANN::momentum with nag applies the momentum
 twice and after taking the gradient

---
 modules/ann/ann.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 0d4813d..2f02d90 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -264,6 +264,10 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPMatrix> current_input_batch = batches.input_sets[i];
 			Ref<MLPPVector> current_output_batch = batches.output_sets[i];
 
+			if (nag && v_output->size() > 0) { // "Aposterori" calculation
+				update_parameters(alg.scalar_multiplynvt(gamma, v_hidden), v_output->scalar_multiplyn(gamma), 0); // DON'T update bias.
+			}
+
 			Ref<MLPPVector> y_hat = model_set_test(current_input_batch);
 			cost_prev = cost(y_hat, current_output_batch);
 
@@ -278,14 +282,14 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 				v_output->fill(0);
 			}
 
-			if (nag) { // "Aposterori" calculation
-				update_parameters(v_hidden, v_output, 0); // DON'T update bias.
-			}
-
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(gamma, v_hidden), alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad));
 			v_output = v_output->scalar_multiplyn(gamma)->addn(grads.output_w_grad->scalar_multiplyn(learning_rate / _n));
 
-			update_parameters(v_hidden, v_output, learning_rate); // subject to change. may want bias to have this matrix too.
+			if (nag) { // The momentum part is already applied
+				update_parameters(alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad), grads.output_w_grad->scalar_multiplyn(learning_rate / _n), learning_rate);
+			} else {
+				update_parameters(v_hidden, v_output, learning_rate); // subject to change. may want bias to have this matrix too.
+			}
 			y_hat = model_set_test(current_input_batch);
 
 			if (ui) {
-- 
2.43.0


From 9f44d5f6da98afed0fc3ebe7e79029881cdf3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 148/270] fix: FileAccess seek_end clears a previous
 end-of-file state like seek does

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6e95525..d5ce315 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14898,6 +14898,7 @@ void FileAccess::seek(uint64_t p_position) {
 void FileAccess::seek_end(int64_t p_position) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
+	last_error = OK;
 	if (fseeko(f, p_position, SEEK_END)) {
 		check_errors();
 	}
-- 
2.43.0


From ea1f9d9f29af0e60c9cb8c2abe3a56b78f013044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 149/270] fix: FileAccess finishes a backed-up save when
 another file is opened on the same object, and forgets it when opening failed

---
 platform/sfw.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d5ce315..f68d7d7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14773,10 +14773,7 @@ void FileAccess::check_errors() const {
 }
 
 Error FileAccess::_open(const String &p_path, int p_mode_flags) {
-	if (f) {
-		fclose(f);
-	}
-	f = nullptr;
+	close();
 
 	path_src = p_path;
 	path = fix_path(p_path);
@@ -14821,6 +14818,8 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 	f = fopen(path.utf8().get_data(), mode_string);
 
 	if (f == nullptr) {
+		save_path = "";
+
 		switch (errno) {
 			case ENOENT: {
 				last_error = ERR_FILE_NOT_FOUND;
-- 
2.43.0


From 9d6739eabdfb34c1aa781ed58e463987118a8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 150/270] fix: FileAccess get_pascal_string refuses a length
 that exceeds the rest of the file

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f68d7d7..522b0c5 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15453,6 +15453,7 @@ void FileAccess::store_pascal_string(const String &p_string) {
 
 String FileAccess::get_pascal_string() {
 	uint32_t sl = get_32();
+	ERR_FAIL_COND_V(sl > get_len() - MIN(get_position(), get_len()), String());
 	CharString cs;
 	cs.resize(sl + 1);
 	get_buffer((uint8_t *)cs.ptr(), sl);
-- 
2.43.0


From 24abee872c71e88ad8d3ce09fa400952da16effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 151/270] fix: String find and replace with an empty C string
 as key end and find nothing, like the String overloads

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 522b0c5..19fee35 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3836,6 +3836,10 @@ int String::find(const char *p_str, int p_from) const {
 		src_len++;
 	}
 
+	if (src_len == 0) {
+		return -1; // won't find anything!
+	}
+
 	if (src_len == 1) {
 		const CharType needle = p_str[0];
 
-- 
2.43.0


From dfbbb94a00195877c0cb8c3de43c8756a4d36c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 152/270] fix: String substr_index keeps the last character
 when the end index lies beyond the text

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 19fee35..2267782 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3772,7 +3772,7 @@ String String::substr_index(const int start_index, const int end_index) const {
 	}
 
 	if (end_index > s) {
-		return substr(start_index, (s - 1) - start_index);
+		return substr(start_index, s - start_index);
 	}
 
 	return substr(start_index, end_index - start_index);
-- 
2.43.0


From 22fe271a50c19a6e881ce111e5ded43a5bb12f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 153/270] fix: String is_word_at finds a word at the very end
 of the text

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2267782..80dbb03 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4120,7 +4120,7 @@ bool String::is_word_at(const int index, const String &p_str) const {
 
 	ERR_FAIL_INDEX_V(index, size, false);
 
-	if (index + p_str.length() >= size) {
+	if (index + p_str.length() > size) {
 		return false;
 	}
 
-- 
2.43.0


From 0b01e6422ef82fcdf6310e712028fb9cc18f643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 154/270] fix: String similarity matches each bigram once, so
 it is symmetric and at most 1

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 80dbb03..b5d1e57 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4263,9 +4263,10 @@ float String::similarity(const String &p_string) const {
 	float sum = src_size + tgt_size;
 	float inter = 0;
 	for (int i = 0; i < src_size; i++) {
-		for (int j = 0; j < tgt_size; j++) {
+		for (int j = 0; j < tgt_bigrams.size(); j++) {
 			if (src_bigrams[i] == tgt_bigrams[j]) {
 				inter++;
+				tgt_bigrams.remove(j); // Every bigram of the target can only be matched once.
 				break;
 			}
 		}
-- 
2.43.0


From 61fb8d7e16849d1184402aa5ab987972af0ca70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 155/270] fix: String naturalnocasecmp_to considers a text of
 dots equal to itself

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b5d1e57..2430a38 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3638,6 +3638,9 @@ signed char String::naturalnocasecmp_to(const String &p_str) const {
 			if (*that_str++ != '.') {
 				return -1;
 			}
+			if (!*this_str && !*that_str) {
+				return 0;
+			}
 			if (!*that_str) {
 				return 1;
 			}
-- 
2.43.0


From 409e76b2a8c502ea5ee8f46a46e11a27c1a0c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 156/270] fix: every String begins with the empty C string,
 also the empty one

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2430a38..0660750 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4177,10 +4177,14 @@ bool String::begins_with(const String &p_string) const {
 
 bool String::begins_with(const char *p_string) const {
 	int l = length();
-	if (l == 0 || !p_string) {
+	if (!p_string) {
 		return false;
 	}
 
+	if (l == 0) {
+		return *p_string == 0;
+	}
+
 	const CharType *str = &operator[](0);
 	int i = 0;
 
-- 
2.43.0


From c42d9c3c1637e1fcdef65a6d43d41246a472c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 157/270] fix: String split_floats and split_floats_mk no
 longer write into the storage of an empty text

---
 platform/sfw.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0660750..aeeebc6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -5279,6 +5279,13 @@ Vector<float> String::split_floats(const String &p_splitter, bool p_allow_empty)
 	int from = 0;
 	int len = length();
 
+	if (len == 0) {
+		if (p_allow_empty) {
+			ret.push_back(0);
+		}
+		return ret;
+	}
+
 	String buffer = *this;
 	while (true) {
 		int end = find(p_splitter, from);
@@ -5306,6 +5313,13 @@ Vector<float> String::split_floats_mk(const Vector<String> &p_splitters, bool p_
 	int from = 0;
 	int len = length();
 
+	if (len == 0) {
+		if (p_allow_empty) {
+			ret.push_back(0);
+		}
+		return ret;
+	}
+
 	String buffer = *this;
 	while (true) {
 		int idx;
-- 
2.43.0


From 0348ecf89ca8f4301046ab28ba66b511f0084f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 158/270] fix: matrices and tensor slices written as images
 saturate instead of wrapping around outside of 0 to 1

---
 core/mlpp_matrix.cpp  | 2 +-
 core/mlpp_tensor3.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 418c9e3..d89f88b 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2867,7 +2867,7 @@ void MLPPMatrix::get_into_image(Ref<Image> out) const {
 	uint8_t *wptr = w.ptr();
 
 	for (int i = 0; i < ds; ++i) {
-		wptr[i] = static_cast<uint8_t>(_data[i] * 255.0);
+		wptr[i] = static_cast<uint8_t>(CLAMP(_data[i] * 255.0, 0, 255));
 	}
 
 	out->create(_size.x, _size.y, false, Image::FORMAT_L8, arr);
diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 5ca7225..f5bcec9 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -780,7 +780,7 @@ Ref<Image> MLPPTensor3::z_slice_get_image(const int p_index_z) const {
   uint8_t *wptr = w.ptr();
 
   for (int i = 0; i < fms; ++i) {
-    wptr[i] = static_cast<uint8_t>(_data[fmsi + i] * 255.0);
+    wptr[i] = static_cast<uint8_t>(CLAMP(_data[fmsi + i] * 255.0, 0, 255));
   }
 
   image->create(_size.x, _size.y, false, Image::FORMAT_L8, arr);
@@ -1152,7 +1152,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
+      wptr[i] = static_cast<uint8_t>(CLAMP(element_get(z, y, p_index_x) * 255.0, 0, 255));
 
       ++i;
     }
@@ -1287,7 +1287,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
+      wptr[i] = static_cast<uint8_t>(CLAMP(element_get(z, p_index_y, x) * 255.0, 0, 255));
 
       ++i;
     }
-- 
2.43.0


From ebc0a6a44450dd5e48ae7d970f1a4731f3ac3720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 159/270] fix: Image get_pixel scales the 5 bit channels of
 RGBA5551 by 31

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d14dfaa..14164c1 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2327,9 +2327,9 @@ Color Image::get_pixel(int p_x, int p_y) const {
 		}
 		case FORMAT_RGBA5551: {
 			uint16_t u = ((uint16_t *)ptr)[ofs];
-			float r = ((u >> 11) & 0x1F) / 15.0;
-			float g = ((u >> 6) & 0x1F) / 15.0;
-			float b = ((u >> 1) & 0x1F) / 15.0;
+			float r = ((u >> 11) & 0x1F) / 31.0;
+			float g = ((u >> 6) & 0x1F) / 31.0;
+			float b = ((u >> 1) & 0x1F) / 31.0;
 			float a = (u & 0x1) / 1.0;
 			return Color(r, g, b, a);
 		}
-- 
2.43.0


From 9b212cd21d29d2b11ff7762d033117abe9e0b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 160/270] fix: an Image made from XPM data starts unlocked

---
 platform/image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 14164c1..2f23872 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1899,6 +1899,7 @@ Image::Image(const char **p_xpm) {
 	height = 0;
 	mipmaps = false;
 	format = FORMAT_L8;
+	write_lock = false;
 
 	create(p_xpm);
 }
-- 
2.43.0


From 230114e34f109c1d18a95e86f5b42e3baa5a830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 161/270] fix: Image convert to grey formats only reads the
 channels of the pixel it converts

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 2f23872..c08c7aa 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -184,7 +184,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 			const uint8_t *rofs = &p_src[((y * p_width) + x) * (read_bytes + (read_alpha ? 1 : 0))];
 			uint8_t *wofs = &p_dst[((y * p_width) + x) * (write_bytes + (write_alpha ? 1 : 0))];
 
-			uint8_t rgba[4];
+			uint8_t rgba[4] = { 0, 0, 0, 255 };
 
 			if (read_gray) {
 				rgba[0] = rofs[0];
@@ -202,7 +202,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 
 			if (write_gray) {
 				// TODO: not correct grayscale, should use fixed point version of actual weights
-				wofs[0] = uint8_t((uint16_t(rofs[0]) + uint16_t(rofs[1]) + uint16_t(rofs[2])) / 3);
+				wofs[0] = uint8_t((uint16_t(rgba[0]) + uint16_t(rgba[1]) + uint16_t(rgba[2])) / 3);
 			} else {
 				for (uint32_t i = 0; i < write_bytes; i++) {
 					wofs[i] = rgba[i];
-- 
2.43.0


From 90c73ec4883c29b35c7b4c69e85df873284b327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 162/270] fix: Image get_rect returns an image of the size of
 the rectangle

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index c08c7aa..547614d 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1968,7 +1968,7 @@ Rect2 Image::get_used_rect() const {
 }
 
 Ref<Image> Image::get_rect(const Rect2 &p_area) const {
-	Ref<Image> img = new Image(p_area.position.x, p_area.position.y, mipmaps, format);
+	Ref<Image> img = memnew(Image(p_area.size.x, p_area.size.y, mipmaps, format));
 	img->blit_rect(Ref<Image>((Image *)this), p_area, Vector2(0, 0));
 	return img;
 }
-- 
2.43.0


From 7adaf20b10e52d3774a2c791cdb9d4edfe5676ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 163/270] fix: Image blit and blend clip the source rectangle
 at negative destinations

---
 platform/image.cpp | 74 +++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 547614d..c3e6c68 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1973,6 +1973,24 @@ Ref<Image> Image::get_rect(const Rect2 &p_area) const {
 	return img;
 }
 
+// Clips the source rectangle to the parts which exist in both images.
+static void _clip_blit_rects(const Size2i &p_dest_size, const Size2i &p_src_size, const Rect2i &p_src_rect, const Point2i &p_dest, Rect2i &r_src_rect, Rect2i &r_dest_rect) {
+	Point2i src = p_src_rect.position;
+	Point2i dest = p_dest;
+	Size2i size = p_src_rect.size;
+
+	for (int i = 0; i < 2; ++i) {
+		int skip = MAX(0, MAX(-src[i], -dest[i]));
+
+		src[i] += skip;
+		dest[i] += skip;
+		size[i] = MIN(size[i] - skip, MIN(p_src_size[i] - src[i], p_dest_size[i] - dest[i]));
+	}
+
+	r_src_rect = Rect2i(src, size);
+	r_dest_rect = Rect2i(dest, size);
+}
+
 void Image::blit_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const Vector2 &p_dest) {
 	ERR_FAIL_COND_MSG(p_src.is_null(), "It's not a reference to a valid Image object.");
 	int dsize = data.size();
@@ -1982,22 +2000,14 @@ void Image::blit_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const Ve
 	ERR_FAIL_COND(format != p_src->format);
 	ERR_FAIL_COND_MSG(!_can_modify(format), "Cannot blit_rect in compressed or custom image formats.");
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_blit_rects(Size2i(width, height), Size2i(p_src->width, p_src->height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	write_lock = true;
 	uint8_t *dst_data_ptr = data.ptrw();
 
@@ -2038,22 +2048,14 @@ void Image::blit_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, co
 	ERR_FAIL_COND_MSG(p_src->height != p_mask->height, "Source image height is different from mask height.");
 	ERR_FAIL_COND(format != p_src->format);
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_blit_rects(Size2i(width, height), Size2i(p_src->width, p_src->height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	write_lock = true;
 
 	uint8_t *dst_data_ptr = data.ptrw();
@@ -2097,22 +2099,14 @@ void Image::blend_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const V
 	ERR_FAIL_COND(srcdsize == 0);
 	ERR_FAIL_COND(format != p_src->format);
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_blit_rects(Size2i(width, height), Size2i(p_src->width, p_src->height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	lock();
 	Ref<Image> img = p_src;
 	img->lock();
@@ -2151,22 +2145,14 @@ void Image::blend_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, c
 	ERR_FAIL_COND_MSG(p_src->height != p_mask->height, "Source image height is different from mask height.");
 	ERR_FAIL_COND(format != p_src->format);
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_blit_rects(Size2i(width, height), Size2i(p_src->width, p_src->height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	lock();
 	Ref<Image> img = p_src;
 	Ref<Image> msk = p_mask;
-- 
2.43.0


From 0680da7f9abd57c2e3142ba362b698d001e83dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 164/270] fix: Image cubic resize uses interpolation weights
 which sum to one at the top and left borders

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index c3e6c68..3e55301 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -400,13 +400,13 @@ static void _scale_cubic(const uint8_t *__restrict p_src, uint8_t *__restrict p_
 	for (uint32_t y = 0; y < p_dst_height; y++) {
 		// Y coordinates
 		oy = (double)y * yfac - 0.5f;
-		oy1 = (int)oy;
+		oy1 = (int)Math::floor(oy);
 		dy = oy - (double)oy1;
 
 		for (uint32_t x = 0; x < p_dst_width; x++) {
 			// X coordinates
 			ox = (double)x * xfac - 0.5f;
-			ox1 = (int)ox;
+			ox1 = (int)Math::floor(ox);
 			dx = ox - (double)ox1;
 
 			// initial pixel value
-- 
2.43.0


From 37271716e3665360b70a7b9aa60474f59a08b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 165/270] fix: Image resize keeps the content of RGBA4444 and
 RGBA5551 images

---
 platform/image.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 3e55301..4e43d55 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -746,6 +746,15 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 		return;
 	}
 
+	if (format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551) {
+		// The scalers work on whole components.
+		Format packed_format = format;
+		convert(FORMAT_RGBA8);
+		resize(p_width, p_height, p_interpolation);
+		convert(packed_format);
+		return;
+	}
+
 	Image dst(p_width, p_height, false, format);
 
 	// Setup mipmap-aware scaling
-- 
2.43.0


From d8b6ca886493625391657c61f5b85afcdf0a78f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 166/270] fix: Image save_png closes the file it wrote

---
 platform/image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 4e43d55..60e3ea6 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1688,6 +1688,9 @@ Error Image::save_png(const String &file_name) {
 
 	f->store_buffer(ret_arr, out_length);
 
+	memdelete(f);
+	STBIW_FREE(ret_arr);
+
 	return OK;
 }
 Error Image::save_bmp(const String &file_name) {
-- 
2.43.0


From 0cad78b84ebb91a7ffd969a66441e582cf44512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 167/270] fix: Image load_from_file accepts files without an
 alpha channel

---
 platform/image.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 60e3ea6..ce5d5e8 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1441,12 +1441,6 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 
 	ERR_FAIL_COND_MSG(!pixels, "Couldn't load image! " + file_name);
 
-	if (n != img_n) {
-		memdelete(pixels);
-		ERR_PRINT("Couldn't load image! n != img_n");
-		return;
-	}
-
 	int size = x * y * get_format_pixel_size(FORMAT_RGBA8);
 
 	data.resize(size);
-- 
2.43.0


From d828c9f750cfafed8536a0bb103167fec6150b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 168/270] fix: Image load_from_file releases the pixels of the
 decoder with the decoder's allocator

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index ce5d5e8..7447207 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1455,7 +1455,7 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 	mipmaps = false;
 	format = FORMAT_RGBA8;
 
-	memdelete(pixels);
+	STBI_FREE(pixels);
 
 	if (p_format != FORMAT_RGBA8) {
 		convert(p_format);
-- 
2.43.0


From 399126124e35ae3caa30260dbc8584828042a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 169/270] fix: Image shrink_x2 of a single pixel image with
 mipmaps no longer reads in front of its data

---
 platform/image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 7447207..3b4f71f 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1195,6 +1195,8 @@ void Image::shrink_x2() {
 		// just use the lower mipmap as base and copy all
 		Vector<uint8_t> new_img;
 
+		ERR_FAIL_COND_MSG(get_mipmap_count() == 0, "Image cannot be shrunk any further.");
+
 		int ofs = get_mipmap_offset(1);
 
 		int new_size = data.size() - ofs;
-- 
2.43.0


From 5c7e20c021a9802019e550dc0b396dc425e43149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 170/270] fix: Image set_pixel rounds the 5 bit channels of
 RGBA5551 so that they survive reading and writing back

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 3b4f71f..1a60320 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2413,9 +2413,9 @@ void Image::set_pixel(int p_x, int p_y, const Color &p_color) {
 		case FORMAT_RGBA5551: {
 			uint16_t rgba = 0;
 
-			rgba = uint16_t(CLAMP(p_color.r * 31.0, 0, 31)) << 11;
-			rgba |= uint16_t(CLAMP(p_color.g * 31.0, 0, 31)) << 6;
-			rgba |= uint16_t(CLAMP(p_color.b * 31.0, 0, 31)) << 1;
+			rgba = uint16_t(CLAMP(p_color.r * 31.0 + 0.5, 0, 31)) << 11;
+			rgba |= uint16_t(CLAMP(p_color.g * 31.0 + 0.5, 0, 31)) << 6;
+			rgba |= uint16_t(CLAMP(p_color.b * 31.0 + 0.5, 0, 31)) << 1;
 			rgba |= uint16_t(p_color.a > 0.5 ? 1 : 0);
 
 			((uint16_t *)ptr)[ofs] = rgba;
-- 
2.43.0


From a589625f05f751c2d89b4a96a5c9be864b016913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 171/270] fix: String parse_utf16 keeps and reports a lead
 surrogate which is followed by an ordinary character

---
 platform/sfw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index aeeebc6..2ae2be6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6072,6 +6072,10 @@ Error String::parse_utf16(const char16_t *p_utf16, int p_len) {
 				}
 				skip = false;
 			} else {
+				if (skip) {
+					//print_unicode_error(vformat("Unpaired lead surrogate (%x [trail?] %x)", c_prev, c));
+					decode_error = true;
+				}
 				skip = false;
 			}
 
@@ -6114,6 +6118,9 @@ Error String::parse_utf16(const char16_t *p_utf16, int p_len) {
 			}
 			skip = false;
 		} else {
+			if (skip) {
+				*(dst++) = c_prev; // unpaired, store as is
+			}
 			*(dst++) = c;
 			skip = false;
 		}
-- 
2.43.0


From a18b03953f87a60f69cc1ef105490a04dd8470c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 172/270] fix: String c_unescape reads every escape once, so
 that escaped backslashes come back

---
 platform/sfw.cpp | 62 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2ae2be6..92c3bb6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6995,20 +6995,56 @@ String String::c_escape_multiline() const {
 }
 
 String String::c_unescape() const {
-	String escaped = *this;
-	escaped = escaped.replace("\\a", "\a");
-	escaped = escaped.replace("\\b", "\b");
-	escaped = escaped.replace("\\f", "\f");
-	escaped = escaped.replace("\\n", "\n");
-	escaped = escaped.replace("\\r", "\r");
-	escaped = escaped.replace("\\t", "\t");
-	escaped = escaped.replace("\\v", "\v");
-	escaped = escaped.replace("\\'", "\'");
-	escaped = escaped.replace("\\\"", "\"");
-	escaped = escaped.replace("\\?", "\?");
-	escaped = escaped.replace("\\\\", "\\");
+	String unescaped;
 
-	return escaped;
+	for (int i = 0; i < length(); ++i) {
+		CharType c = operator[](i);
+
+		if (c == '\\' && i + 1 < length()) {
+			CharType replacement = 0;
+
+			switch (operator[](i + 1)) {
+				case 'a':
+					replacement = '\a';
+					break;
+				case 'b':
+					replacement = '\b';
+					break;
+				case 'f':
+					replacement = '\f';
+					break;
+				case 'n':
+					replacement = '\n';
+					break;
+				case 'r':
+					replacement = '\r';
+					break;
+				case 't':
+					replacement = '\t';
+					break;
+				case 'v':
+					replacement = '\v';
+					break;
+				case '\'':
+				case '"':
+				case '?':
+				case '\\':
+					replacement = operator[](i + 1);
+					break;
+				default:
+					break;
+			}
+
+			if (replacement != 0) {
+				c = replacement;
+				++i;
+			}
+		}
+
+		unescaped += c;
+	}
+
+	return unescaped;
 }
 
 String String::json_escape() const {
-- 
2.43.0


From 73a4888e94fc55dbfc7ed757ac6c79a488e9c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 173/270] fix: String http_unescape, uri_decode and
 percent_decode decode hexadecimal digits of either case, keep text which is
 not an escape, and read the bytes as UTF-8

---
 platform/sfw.cpp | 68 ++++++++++++------------------------------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 92c3bb6..fe2df01 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6905,25 +6905,18 @@ String String::http_escape() const {
 }
 
 String String::http_unescape() const {
-	String res;
-	for (int i = 0; i < length(); ++i) {
-		if (ord_at(i) == '%' && i + 2 < length()) {
-			CharType ord1 = ord_at(i + 1);
-			if ((ord1 >= '0' && ord1 <= '9') || (ord1 >= 'A' && ord1 <= 'Z')) {
-				CharType ord2 = ord_at(i + 2);
-				if ((ord2 >= '0' && ord2 <= '9') || (ord2 >= 'A' && ord2 <= 'Z')) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
-			} else {
-				res += ord_at(i);
-			}
+	CharString src = utf8();
+	CharString res;
+	for (int i = 0; i < src.length(); ++i) {
+		if (src[i] == '%' && i + 2 < src.length() && is_hex_digit(src[i + 1]) && is_hex_digit(src[i + 2])) {
+			char bytes[3] = { src[i + 1], src[i + 2], 0 };
+			res += (char)strtol(bytes, nullptr, 16);
+			i += 2;
 		} else {
-			res += ord_at(i);
+			res += src[i];
 		}
 	}
-	return String::utf8(res.ascii());
+	return String::utf8(res);
 }
 
 String String::uri_encode() const {
@@ -6948,18 +6941,10 @@ String String::uri_decode() const {
 	CharString src = utf8();
 	CharString res;
 	for (int i = 0; i < src.length(); ++i) {
-		if (src[i] == '%' && i + 2 < src.length()) {
-			char ord1 = src[i + 1];
-			if (is_digit(ord1) || is_ascii_upper_case(ord1)) {
-				char ord2 = src[i + 2];
-				if (is_digit(ord2) || is_ascii_upper_case(ord2)) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
-			} else {
-				res += src[i];
-			}
+		if (src[i] == '%' && i + 2 < src.length() && is_hex_digit(src[i + 1]) && is_hex_digit(src[i + 2])) {
+			char bytes[3] = { src[i + 1], src[i + 2], 0 };
+			res += (char)strtol(bytes, nullptr, 16);
+			i += 2;
 		} else if (src[i] == '+') {
 			res += ' ';
 		} else {
@@ -7213,29 +7198,10 @@ String String::percent_decode() const {
 
 	CharString cs = utf8();
 	for (int i = 0; i < cs.length(); i++) {
-		uint8_t c = cs[i];
-		if (c == '%' && i < length() - 2) {
-			uint8_t a = LOWERCASE(cs[i + 1]);
-			uint8_t b = LOWERCASE(cs[i + 2]);
-
-			if (a >= '0' && a <= '9') {
-				c = (a - '0') << 4;
-			} else if (a >= 'a' && a <= 'f') {
-				c = (a - 'a' + 10) << 4;
-			} else {
-				continue;
-			}
-
-			uint8_t d = 0;
-
-			if (b >= '0' && b <= '9') {
-				d = (b - '0');
-			} else if (b >= 'a' && b <= 'f') {
-				d = (b - 'a' + 10);
-			} else {
-				continue;
-			}
-			c += d;
+		char c = cs[i];
+		if (c == '%' && i + 2 < cs.length() && is_hex_digit(cs[i + 1]) && is_hex_digit(cs[i + 2])) {
+			char bytes[3] = { cs[i + 1], cs[i + 2], 0 };
+			c = (char)strtol(bytes, nullptr, 16);
 			i += 2;
 		}
 		pe += c;
-- 
2.43.0


From 59f108da61ea39a928162c697124acc9a1eed58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 174/270] fix: String is_valid_bool accepts "false"

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index fe2df01..00e81f4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7456,7 +7456,7 @@ bool String::is_valid_bool() const {
 		String l = to_lower();
 		const CharType *p = l.ptr();
 
-		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[3] == 'e') {
+		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[4] == 'e') {
 			return true;
 		} else {
 			return false;
-- 
2.43.0


From 2e2ffa0ba3f1fa392304f1d93df43cc64de37e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 175/270] fix: String to_uint reads numbers above the signed
 range

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 00e81f4..e5cdfd8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8034,7 +8034,7 @@ bool String::to_bool() const {
 
 uint32_t String::to_uint() const {
 	if (is_numeric()) {
-		return static_cast<uint32_t>(to_int());
+		return static_cast<uint32_t>(to_int64());
 	}
 
 	return 0;
-- 
2.43.0


From 479aa6feae8ed642996f337404871e89a51f2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 176/270] fix: String hex_to_int, hex_to_int64 and bin_to_int64
 notice every negative number which is too small

---
 platform/sfw.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e5cdfd8..7c687f4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7661,7 +7661,9 @@ int String::hex_to_int(bool p_with_prefix) const {
 		s += 2;
 	}
 
-	int hex = 0;
+	// Magnitude: one larger than the largest positive value is allowed for negative numbers.
+	uint32_t hex = 0;
+	const uint32_t max_value = uint32_t(INT32_MAX) + (sign == -1 ? 1 : 0);
 
 	while (*s) {
 		CharType c = LOWERCASE(*s);
@@ -7674,14 +7676,14 @@ int String::hex_to_int(bool p_with_prefix) const {
 			ERR_FAIL_V_MSG(0, "Invalid hexadecimal notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
 		// Check for overflow/underflow, with special case to ensure INT32_MIN does not result in error
-		bool overflow = ((hex > INT32_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT32_MAX >> 4) + 1))) || (sign == -1 && hex == (INT32_MAX >> 4) + 1 && c > '0');
+		bool overflow = hex > (max_value - n) / 16;
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT32_MAX : INT32_MIN, "Cannot represent " + *this + " as a 32-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		hex *= 16;
 		hex += n;
 		s++;
 	}
 
-	return hex * sign;
+	return sign == -1 ? int(uint32_t(0) - hex) : int(hex);
 }
 
 int64_t String::hex_to_int64(bool p_with_prefix) const {
@@ -7701,7 +7703,9 @@ int64_t String::hex_to_int64(bool p_with_prefix) const {
 		s += 2;
 	}
 
-	int64_t hex = 0;
+	// Magnitude: one larger than the largest positive value is allowed for negative numbers.
+	uint64_t hex = 0;
+	const uint64_t max_value = uint64_t(INT64_MAX) + (sign == -1 ? 1 : 0);
 
 	while (*s) {
 		CharType c = LOWERCASE(*s);
@@ -7713,14 +7717,14 @@ int64_t String::hex_to_int64(bool p_with_prefix) const {
 		} else {
 			ERR_FAIL_V_MSG(0, "Invalid hexadecimal notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
-		bool overflow = ((hex > INT64_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT64_MAX >> 4) + 1))) || (sign == -1 && hex == (INT64_MAX >> 4) + 1 && c > '0');
+		bool overflow = hex > (max_value - n) / 16;
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		hex *= 16;
 		hex += n;
 		s++;
 	}
 
-	return hex * sign;
+	return sign == -1 ? int64_t(uint64_t(0) - hex) : int64_t(hex);
 }
 
 int64_t String::bin_to_int64(bool p_with_prefix) const {
@@ -7740,7 +7744,9 @@ int64_t String::bin_to_int64(bool p_with_prefix) const {
 		s += 2;
 	}
 
-	int64_t binary = 0;
+	// Magnitude: one larger than the largest positive value is allowed for negative numbers.
+	uint64_t binary = 0;
+	const uint64_t max_value = uint64_t(INT64_MAX) + (sign == -1 ? 1 : 0);
 
 	while (*s) {
 		CharType c = LOWERCASE(*s);
@@ -7751,14 +7757,14 @@ int64_t String::bin_to_int64(bool p_with_prefix) const {
 			ERR_FAIL_V_MSG(0, "Invalid binary notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
 		// Check for overflow/underflow, with special case to ensure INT64_MIN does not result in error
-		bool overflow = ((binary > INT64_MAX / 2) && (sign == 1 || (sign == -1 && binary != (INT64_MAX >> 1) + 1))) || (sign == -1 && binary == (INT64_MAX >> 1) + 1 && c > '0');
+		bool overflow = binary > (max_value - n) / 2;
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		binary *= 2;
 		binary += n;
 		s++;
 	}
 
-	return binary * sign;
+	return sign == -1 ? int64_t(uint64_t(0) - binary) : int64_t(binary);
 }
 
 template <class C>
-- 
2.43.0


From 768d64c6fae83092a3f620f39bec4cbfd978d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 177/270] fix: String to_int notices numbers which exceed the
 range in their last digit

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7c687f4..dae553d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8169,7 +8169,7 @@ int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
 			}
 			case READING_INT: {
 				if (is_digit(c)) {
-					if (integer > INT64_MAX / 10) {
+					if (integer > INT64_MAX / 10 || (integer == INT64_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')))) {
 						String number("");
 						str = p_str;
 						while (*str && str != limit) {
-- 
2.43.0


From 69eee1d7b3acbe96fdc5ac92e84c361e0fd349c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 178/270] fix: String num_real writes numbers with integer
 parts above 32 bits

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index dae553d..67b83fe 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4783,12 +4783,12 @@ String String::num_real(double p_num) {
 
 	bool neg = p_num < 0;
 	p_num = ABS(p_num);
-	int intn = (int)p_num;
+	int64_t intn = (int64_t)p_num;
 
 	/* decimal part */
 
-	if ((int)p_num != p_num) {
-		double dec = p_num - (double)((int)p_num);
+	if ((int64_t)p_num != p_num) {
+		double dec = p_num - (double)((int64_t)p_num);
 
 		int digit = 0;
 		int decimals = MAX_DIGITS;
-- 
2.43.0


From fb6f7885a683c40959b683973a3b946b8bc3481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 179/270] fix: reading a number followed by an e which is no
 exponent keeps its decimal point

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 67b83fe..5d7f302 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7930,8 +7930,8 @@ static double built_in_strtod(
 			expSign = false;
 		}
 		if (!IS_DIGIT(CharType(*p))) {
+			// Not an exponent.
 			p = pExp;
-			goto done;
 		}
 		while (IS_DIGIT(CharType(*p))) {
 			exp = exp * 10 + (*p - '0');
-- 
2.43.0


From d80f63d632e1871609739ce3f8dc145a99102595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 180/270] fix: reading a number with an excessive exponent
 neither overflows nor turns zero into NaN

---
 platform/sfw.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5d7f302..82d8d3d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7934,7 +7934,9 @@ static double built_in_strtod(
 			p = pExp;
 		}
 		while (IS_DIGIT(CharType(*p))) {
-			exp = exp * 10 + (*p - '0');
+			if (exp < 100000) { // Far beyond any exponent, avoid overflow.
+				exp = exp * 10 + (*p - '0');
+			}
 			p += 1;
 		}
 	}
@@ -7961,6 +7963,9 @@ static double built_in_strtod(
 		exp = maxExponent;
 		//LOG_WARN("Exponent too high");
 	}
+	if (fraction == 0.0) {
+		exp = 0; // Zero, whatever its exponent.
+	}
 	dblExp = 1.0;
 	for (d = powersOf10; exp != 0; exp >>= 1, ++d) {
 		if (exp & 01) {
-- 
2.43.0


From a695ce5da5e72d5732fca3a355798d4849883f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 181/270] fix: characters above 127 hash and intern the same
 from C strings and from Strings

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 82d8d3d..74a0f63 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6222,7 +6222,7 @@ uint32_t String::hash(const char *p_cstr) {
 	uint32_t hashv = 5381;
 	uint32_t c;
 
-	while ((c = *p_cstr++)) {
+	while ((c = uint8_t(*p_cstr++))) {
 		hashv = ((hashv << 5) + hashv) + c; /* hash * 33 + c */
 	}
 
@@ -6232,7 +6232,7 @@ uint32_t String::hash(const char *p_cstr) {
 uint32_t String::hash(const char *p_cstr, int p_len) {
 	uint32_t hashv = 5381;
 	for (int i = 0; i < p_len; i++) {
-		hashv = ((hashv << 5) + hashv) + p_cstr[i]; /* hash * 33 + c */
+		hashv = ((hashv << 5) + hashv) + uint8_t(p_cstr[i]); /* hash * 33 + c */
 	}
 
 	return hashv;
-- 
2.43.0


From 58eb2ccb68c78b31036213fdf40e3121b41428c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 182/270] fix: String word_wrap no longer repeats whitespace at
 the beginning of a line which is too long

---
 platform/sfw.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 74a0f63..1ef7384 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7091,6 +7091,11 @@ String String::word_wrap(int p_chars_per_line) const {
 					word_start = i;
 					word_length = 1;
 				} else if (i - line_start + 1 > p_chars_per_line) {
+					if (word_start == line_start) {
+						// Leading whitespace and the word do not fit on one line: wrap between them.
+						word_start = i - word_length + 1;
+						line_end = word_start - 1;
+					}
 					// Line too long: wrap after the last word.
 					ret += substr(line_start, line_end - line_start + 1) + "\n";
 					line_start = word_start;
-- 
2.43.0


From 20f355254566dd455cecd02693bca86a509db28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 183/270] fix: reading a number with many leading zeros keeps
 its significant digits

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1ef7384..ec96d91 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7882,6 +7882,14 @@ static double built_in_strtod(
 	} else {
 		mantSize -= 1; /* One of the digits was the point. */
 	}
+	while (mantSize > 18 && (*p == '0' || *p == '.')) {
+		// Leading zeros are no significant digits.
+		if (*p == '0') {
+			mantSize -= 1;
+			decPt -= 1;
+		}
+		p += 1;
+	}
 	if (mantSize > 18) {
 		fracExp = decPt - 18;
 		mantSize = 18;
-- 
2.43.0


From 6f77ed52cc28bc99b1c97a21ee8884385cb91eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 184/270] fix: String is_valid_ip_address refuses signs

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ec96d91..39099fe 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7536,7 +7536,7 @@ bool String::is_valid_ip_address() const {
 		}
 		for (int i = 0; i < ip.size(); i++) {
 			String n = ip[i];
-			if (!n.is_valid_integer()) {
+			if (!n.is_valid_integer() || n[0] == '+' || n[0] == '-') {
 				return false;
 			}
 			int val = n.to_int();
-- 
2.43.0


From e9b06025674cc42039f65e213082e8e9c4327a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 185/270] fix: String compares and finds characters above 127
 of C strings

---
 platform/sfw.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 39099fe..0e08e30 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3426,7 +3426,7 @@ bool String::operator==(const char *p_str) const {
 
 	// Compare char by char
 	for (int i = 0; i < l; i++) {
-		if ((CharType)p_str[i] != dst[i]) {
+		if ((CharType)(uint8_t)p_str[i] != dst[i]) {
 			return false;
 		}
 	}
@@ -3515,7 +3515,7 @@ bool String::operator<(const char *p_str) const {
 	if (empty()) {
 		return true;
 	}
-	return is_str_less(get_data(), p_str);
+	return is_str_less(get_data(), (const uint8_t *)p_str);
 }
 
 bool String::operator<(const wchar_t *p_str) const {
@@ -3844,7 +3844,7 @@ int String::find(const char *p_str, int p_from) const {
 	}
 
 	if (src_len == 1) {
-		const CharType needle = p_str[0];
+		const CharType needle = (uint8_t)p_str[0];
 
 		for (int i = p_from; i < len; i++) {
 			if (src[i] == needle) {
@@ -3863,7 +3863,7 @@ int String::find(const char *p_str, int p_from) const {
 					return -1;
 				};
 
-				if (src[read_pos] != (CharType)p_str[j]) {
+				if (src[read_pos] != (CharType)(uint8_t)p_str[j]) {
 					found = false;
 					break;
 				}
@@ -4189,7 +4189,7 @@ bool String::begins_with(const char *p_string) const {
 	int i = 0;
 
 	while (*p_string && i < l) {
-		if ((CharType)(*p_string) != str[i]) {
+		if ((CharType)(uint8_t)(*p_string) != str[i]) {
 			return false;
 		}
 		i++;
-- 
2.43.0


From 86bccb5b12bc15cee295723139806279ba5d1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 186/270] fix: String compares and finds characters above 127
 of C strings (is_word_at)

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0e08e30..0b3bd33 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4109,7 +4109,7 @@ bool String::is_word_at(const int index, const char *p_str) const {
 			return false;
 		}
 
-		if (operator[](iind) != (CharType)p_str[i]) {
+		if (operator[](iind) != (CharType)(uint8_t)p_str[i]) {
 			return false;
 		}
 
-- 
2.43.0


From 1a6fa7d9b74018c584ece4e5ba13013be122ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 187/270] fix: reading a number with a large negative exponent
 does not become zero early

---
 platform/sfw.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0b3bd33..e2f43aa 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7979,6 +7979,11 @@ static double built_in_strtod(
 	if (fraction == 0.0) {
 		exp = 0; // Zero, whatever its exponent.
 	}
+	if (expSign && exp > 256) {
+		// The power itself could overflow.
+		fraction /= 1.0e200;
+		exp -= 200;
+	}
 	dblExp = 1.0;
 	for (d = powersOf10; exp != 0; exp >>= 1, ++d) {
 		if (exp & 01) {
-- 
2.43.0


From b64b9516059e4234218bfcdba0a949a3af8b1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 188/270] fix: String::simplify_path dropped the leading ".."
 of relative paths ("../a" became "a", another directory)

---
 platform/sfw.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e2f43aa..825ffce 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6552,9 +6552,12 @@ String String::simplify_path() const {
 			dirs.remove(i);
 			i--;
 		} else if (d == "..") {
-			if (i == 0) {
-				dirs.remove(i);
-				i--;
+			if (i == 0 || dirs[i - 1] == "..") {
+				// Nothing to go up from: the root stays the root, a relative path keeps it.
+				if (drive != "") {
+					dirs.remove(i);
+					i--;
+				}
 			} else {
 				dirs.remove(i);
 				dirs.remove(i - 1);
-- 
2.43.0


From e88df03686cbf4707053c8d08fff6d70008a5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 189/270] fix: String::path_clean_end_slash kept the slash of
 one letter paths and read before the start of an empty one

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 825ffce..4f19dfd 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6670,11 +6670,15 @@ String String::path_clean_end_slash() const {
 
 	String ret = *this;
 
+	if (ret.length() == 0) {
+		return ret;
+	}
+
 	int strip_to = ret.length() - 1;
 
 	CharType c = ret[strip_to];
 
-	while (strip_to > 1 && (c == '/' || c == '\\')) {
+	while (strip_to > 0 && (c == '/' || c == '\\')) {
 		--strip_to;
 		c = ret[strip_to];
 	}
-- 
2.43.0


From 425df3e547014c6c77026ca4a4e82f0d0ec6668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 190/270] fix: String::append_path doubled the separator ("a" +
 "/b" became "a//b")

---
 platform/sfw.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4f19dfd..887ef9e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6598,11 +6598,11 @@ String String::append_path(const char *path) const {
 	int sindex = 0;
 	char ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
+		ch = path[++sindex];
+
 		if (ch == '\0') {
 			return ret;
 		}
-
-		ch = path[++sindex];
 	}
 
 	// /////folder
@@ -6612,7 +6612,6 @@ String String::append_path(const char *path) const {
 		ret += &path[sindex];
 	} else {
 		if (sindex > 0) {
-			ret += '/';
 			ret += &path[sindex - 1];
 		} else {
 			ret += '/';
@@ -6636,13 +6635,13 @@ String String::append_path(const String &path) const {
 
 	int sindex = 0;
 	int ts = path.size() - 1;
-	char ch = path[sindex];
+	CharType ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
+		ch = path[++sindex];
+
 		if (sindex == ts) {
 			return *this;
 		}
-
-		ch = path[++sindex];
 	}
 
 	String ret = *this;
@@ -6654,7 +6653,6 @@ String String::append_path(const String &path) const {
 		ret += &path[sindex];
 	} else {
 		if (sindex > 0) {
-			ret += '/';
 			ret += &path[sindex - 1];
 		} else {
 			ret += '/';
-- 
2.43.0


From de740a1f0bb924522cd0a43e34f710aa5bfb9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 191/270] fix: String::path_to left the directory it started
 from when that was a root ("a" to "a/b" became "../b/")

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 887ef9e..10111bd 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6363,8 +6363,8 @@ String String::path_to(const String &p_path) const {
 	}
 
 	//remove leading and trailing slash and split
-	Vector<String> src_dirs = src.substr(1, src.length() - 2).split("/");
-	Vector<String> dst_dirs = dst.substr(1, dst.length() - 2).split("/");
+	Vector<String> src_dirs = src.substr(1, src.length() - 2).split("/", false);
+	Vector<String> dst_dirs = dst.substr(1, dst.length() - 2).split("/", false);
 
 	//find common parent
 	int common_parent = 0;
-- 
2.43.0


From ad895e72e15a7fbd51edb52e83512636e28838f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 192/270] fix: DirAccess::exists changed into a relative
 directory twice and denied that it exists

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 10111bd..56dd852 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16802,7 +16802,7 @@ Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_
 }
 
 bool DirAccess::exists(String p_dir) {
-	DirAccess *da = DirAccess::create_for_path(p_dir);
+	DirAccess *da = DirAccess::create();
 	bool valid = da->change_dir(p_dir) == OK;
 	memdelete(da);
 	return valid;
-- 
2.43.0


From 66f6d5b70f85044e52603a0943698d65006a96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 193/270] fix: DirAccess::erase_contents_recursive followed
 links and erased what lies outside of the directory

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 56dd852..c06fbea 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16524,7 +16524,7 @@ static Error _erase_recursive(DirAccess *da) {
 	String n = da->get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-			if (da->current_is_dir()) {
+			if (da->current_is_dir() && !da->is_link(n)) {
 				dirs.push_back(n);
 			} else {
 				files.push_back(n);
-- 
2.43.0


From 0715bbd5c75d1f76a3c2d37312c3249b0ec14b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 194/270] fix: DirAccess::remove could not remove a link to a
 directory or to nothing

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c06fbea..f665638 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16411,7 +16411,7 @@ Error DirAccess::remove(String p_path) {
 	}
 
 	struct stat flags;
-	if ((stat(p_path.utf8().get_data(), &flags) != 0)) {
+	if ((lstat(p_path.utf8().get_data(), &flags) != 0)) {
 		return FAILED;
 	}
 
-- 
2.43.0


From a3523cabd3178c89f8425f71ac6e01caf6baa5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 195/270] fix: DirAccess::is_link said yes for what does not
 exist

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f665638..b57bb0a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16429,7 +16429,7 @@ bool DirAccess::is_link(String p_file) {
 
 	struct stat flags;
 	if ((lstat(p_file.utf8().get_data(), &flags) != 0)) {
-		return FAILED;
+		return false;
 	}
 
 	return S_ISLNK(flags.st_mode);
-- 
2.43.0


From 954297fab9d381614370023b664ae38f88e2a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 196/270] fix: DirAccess::is_special did not know ".."

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b57bb0a..a6c8762 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16818,7 +16818,7 @@ String DirAccess::get_filesystem_abspath_for(String p_path) {
 }
 
 bool DirAccess::is_special(const String &p_path) {
-	if (p_path.size() > 2) {
+	if (p_path.length() > 2) {
 		return false;
 	}
 
-- 
2.43.0


From fb6787004d59c2271dfa7ec4c41020b7fcc9e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 197/270] fix: DirAccess::copy took relative paths from the
 process directory, not its own

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a6c8762..c53eb4b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16644,6 +16644,14 @@ String DirAccess::get_full_path(const String &p_path) {
 
 Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 	//printf("copy %s -> %s\n",p_from.ascii().get_data(),p_to.ascii().get_data());
+	if (p_from.is_rel_path()) {
+		p_from = get_current_dir().plus_file(p_from);
+	}
+
+	if (p_to.is_rel_path()) {
+		p_to = get_current_dir().plus_file(p_to);
+	}
+
 	Error err;
 	FileAccess *fsrc = FileAccess::create_and_open(p_from, FileAccess::READ, &err);
 
-- 
2.43.0


From eaec45a9de62f5d73a722c5661c494c263b38b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 198/270] fix: DirAccess::copy_dir took a relative target from
 the process directory, not its own

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c53eb4b..a229d58 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16787,6 +16787,10 @@ Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flag
 Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_copy_links) {
 	ERR_FAIL_COND_V_MSG(!dir_exists(p_from), ERR_FILE_NOT_FOUND, "Source directory doesn't exist.");
 
+	if (p_to.is_rel_path()) {
+		p_to = get_current_dir().plus_file(p_to);
+	}
+
 	DirAccess *target_da = DirAccess::create_for_path(p_to);
 	ERR_FAIL_COND_V_MSG(!target_da, ERR_CANT_CREATE, "Cannot create DirAccess for path '" + p_to + "'.");
 
-- 
2.43.0


From 349ee5f94755a6e027059344821197a42a816bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 199/270] fix: DirAccess::copy_dir reported success when a link
 could not be copied

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a229d58..91bae4b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16739,7 +16739,11 @@ Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flag
 	while (n != String()) {
 		if (n != "." && n != "..") {
 			if (p_copy_links && is_link(get_current_dir().plus_file(n))) {
-				create_link(read_link(get_current_dir().plus_file(n)), p_to + n);
+				Error err = create_link(read_link(get_current_dir().plus_file(n)), p_to + n);
+				if (err) {
+					list_dir_end();
+					return err;
+				}
 			} else if (current_is_dir()) {
 				dirs.push_back(n);
 			} else {
-- 
2.43.0


From ec63ed58a4788eeac67b3c509a35760af4a5ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 200/270] fix: DirAccess::read_link cut targets longer than 256
 bytes

---
 platform/sfw.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 91bae4b..c580ab4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16440,8 +16440,7 @@ String DirAccess::read_link(String p_file) {
 		p_file = get_current_dir().plus_file(p_file);
 	}
 
-	char buf[256];
-	memset(buf, 0, 256);
+	char buf[PATH_MAX];
 	ssize_t len = readlink(p_file.utf8().get_data(), buf, sizeof(buf));
 	String link;
 	if (len > 0) {
-- 
2.43.0


From 3921b0ae98a5734e9681ae498d53619f952db2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 201/270] fix: DirAccess::copy_dir and erase_contents_recursive
 reported success for directories they could not read

---
 platform/sfw.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c580ab4..cbc1083 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16519,7 +16519,11 @@ static Error _erase_recursive(DirAccess *da) {
 	List<String> dirs;
 	List<String> files;
 
-	da->list_dir_begin();
+	Error list_err = da->list_dir_begin();
+	if (list_err) {
+		return list_err;
+	}
+
 	String n = da->get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
@@ -16733,7 +16737,10 @@ Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flag
 	List<String> dirs;
 
 	String curdir = get_current_dir();
-	list_dir_begin();
+	Error list_err = list_dir_begin();
+	if (list_err) {
+		return list_err;
+	}
 	String n = get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-- 
2.43.0


From 3d9d98dc1f24ba5dbb92a13d5ecc3b358b107c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 202/270] fix: DirAccess::make_dir_recursive reported success
 where a file has the name

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index cbc1083..0779f38 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16618,6 +16618,9 @@ Error DirAccess::make_dir_recursive(String p_dir) {
 		if (err != OK && err != ERR_ALREADY_EXISTS) {
 			ERR_FAIL_V_MSG(err, "Could not create directory: " + curpath);
 		}
+		if (err == ERR_ALREADY_EXISTS && !dir_exists(curpath)) {
+			ERR_FAIL_V_MSG(err, "Could not create directory, there is a file: " + curpath);
+		}
 	}
 
 	return OK;
-- 
2.43.0


From 9e4c3a566e49eabf11aad0065bb8df2e39786c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 203/270] fix: FileAccess::close replaced the old file with an
 incomplete one when writing the new one had failed (full disk), and failed
 writes were not reported by get_error

---
 platform/sfw.cpp | 43 ++++++++++++++++++++++++++++++++++++++-----
 platform/sfw.h   |  1 +
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0779f38..3299f49 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14914,6 +14914,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 	}
 
 	last_error = OK;
+	write_failed = false;
 	flags = p_mode_flags;
 	return OK;
 }
@@ -14923,13 +14924,29 @@ void FileAccess::close() {
 		return;
 	}
 
-	fclose(f);
+	if (fclose(f) != 0) {
+		write_failed = true;
+	}
 	f = nullptr;
 
+	if (write_failed) {
+		last_error = ERR_FILE_CANT_WRITE;
+	}
+
 	if (close_notification_func) {
 		close_notification_func(path, flags);
 	}
 
+	if (save_path != "" && write_failed) {
+		// Keep what was saved before rather than replacing it with half a file.
+		if (close_fail_notify) {
+			close_fail_notify(save_path);
+		}
+
+		save_path = "";
+		ERR_FAIL_MSG("Could not write the file completely.");
+	}
+
 	if (save_path != "") {
 		int rename_error = rename((save_path + ".tmp").utf8().get_data(), save_path.utf8().get_data());
 
@@ -15025,18 +15042,33 @@ Error FileAccess::get_error() const {
 
 void FileAccess::flush() {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
-	fflush(f);
+	if (fflush(f) != 0) {
+		write_failed = true;
+		last_error = ERR_FILE_CANT_WRITE;
+	}
 }
 
 void FileAccess::store_8(uint8_t p_dest) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
-	ERR_FAIL_COND(fwrite(&p_dest, 1, 1, f) != 1);
+	if (fwrite(&p_dest, 1, 1, f) != 1) {
+		if (flags & WRITE) {
+			write_failed = true;
+			last_error = ERR_FILE_CANT_WRITE;
+		}
+		ERR_FAIL_MSG("Could not write the file completely.");
+	}
 }
 
 void FileAccess::store_buffer(const uint8_t *p_src, uint64_t p_length) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 	ERR_FAIL_COND(!p_src && p_length > 0);
-	ERR_FAIL_COND(fwrite(p_src, 1, p_length, f) != p_length);
+	if (fwrite(p_src, 1, p_length, f) != p_length) {
+		if (flags & WRITE) {
+			write_failed = true;
+			last_error = ERR_FILE_CANT_WRITE;
+		}
+		ERR_FAIL_MSG("Could not write the file completely.");
+	}
 }
 
 bool FileAccess::file_exists(const String &p_path) {
@@ -15112,7 +15144,8 @@ FileCloseNotificationFunc FileAccess::close_notification_func = nullptr;
 FileAccess::FileAccess() :
 		f(nullptr),
 		flags(0),
-		last_error(OK) {
+		last_error(OK),
+		write_failed(false) {
 	endian_swap = false;
 	real_is_double = false;
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index 213ac7c..de7a432 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17575,6 +17575,7 @@ protected:
 	int flags;
 
 	mutable Error last_error;
+	bool write_failed;
 	String save_path;
 	String path;
 	String path_src;
-- 
2.43.0


From dd2958af6e99db71feeaad8851fbeacd7db15b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 204/270] fix: DirAccess::copy reported success when the target
 could not be written completely

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3299f49..4f2b765 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16736,8 +16736,12 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 		size -= bytes_read;
 	}
 
+	fdst->close();
+	if (err == OK) {
+		err = fdst->get_error();
+	}
+
 	if (err == OK && p_chmod_flags != -1) {
-		fdst->close();
 		err = FileAccess::set_unix_permissions(p_to, p_chmod_flags);
 		// If running on a platform with no chmod support (i.e., Windows), don't fail
 		if (err == ERR_UNAVAILABLE) {
-- 
2.43.0


From 5f0e46f4f41ec400ac17a951f28d047aa0f8cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 205/270] fix: word_to_vec: the word list did not match the
 rows of the embeddings when a word has no neighbours

---
 core/data.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/data.cpp b/core/data.cpp
index 61253e9..49120c7 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -865,6 +865,9 @@ MLPPData::WordsToVecResult MLPPData::word_to_vec(Vector<String> sentences, WordT
 
 	inputStrings.append_array(outputStrings);
 
+	// The rows of the embeddings: words without neighbours have none.
+	res.word_list = remove_empty(remove_stop_words_vec(create_word_list(inputStrings)));
+
 	Ref<MLPPMatrix> bow = bag_of_words(inputStrings, BAG_OF_WORDS_TYPE_BINARY);
 	Size2i bow_size = bow->size();
 
-- 
2.43.0


From de5a9d9210ddc4684613b4f05e990b8aa0fd394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 206/270] fix: comparing arrays through Variant was not an
 order and read past the end of the shorter array

---
 platform/sfw.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4f2b765..0c3f5df 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24375,16 +24375,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() < l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (!((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(true);
-					}
-				}
-
-				_RETURN(false);
+				_RETURN(*arr_a < *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_LESS, INT, <, _int);
@@ -24498,16 +24489,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() > l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(false);
-					}
-				}
-
-				_RETURN(true);
+				_RETURN(*arr_a > *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_GREATER, INT, >, _int);
-- 
2.43.0


From bf89f6f1fe8e4dbfc39bbe0c19328c92c24e0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 207/270] fix: comparing pool arrays through Variant was not an
 order and read past the end of the shorter array

---
 platform/sfw.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0c3f5df..e4c5641 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24101,14 +24101,34 @@ bool Variant::booleanize() const {
 	}
 
 #define DEFAULT_OP_ARRAY_LT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, <, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, a_len < array_b.size(), ra[i] < rb[i])
 
 #define DEFAULT_OP_ARRAY_GT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, >, !=, false, a_len < array_b.size(), true)
-
-#define DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f)      \
-	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                     \
-		DEFAULT_OP_ARRAY_OP_BODY(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f) \
+	DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, a_len > array_b.size(), rb[i] < ra[i])
+
+// Shorter arrays come first, arrays of the same size are ordered by their first differing elements.
+#define DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, m_ret_len, m_ret_elem)                     \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                 \
+		if (p_a.type != p_b.type)                                                                            \
+			_RETURN_FAIL                                                                                     \
+                                                                                                             \
+		const PoolVector<m_type> &array_a = *reinterpret_cast<const PoolVector<m_type> *>(p_a._data._mem);   \
+		const PoolVector<m_type> &array_b = *reinterpret_cast<const PoolVector<m_type> *>(p_b._data._mem);   \
+                                                                                                             \
+		int a_len = array_a.size();                                                                          \
+		if (a_len != array_b.size()) {                                                                       \
+			_RETURN(m_ret_len);                                                                              \
+		}                                                                                                    \
+                                                                                                             \
+		PoolVector<m_type>::Read ra = array_a.read();                                                        \
+		PoolVector<m_type>::Read rb = array_b.read();                                                        \
+                                                                                                             \
+		for (int i = 0; i < a_len; i++) {                                                                    \
+			if (ra[i] != rb[i])                                                                              \
+				_RETURN(m_ret_elem);                                                                         \
+		}                                                                                                    \
+                                                                                                             \
+		_RETURN(false);                                                                                      \
 	}
 
 #define DEFAULT_OP_ARRAY_OP_BODY(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f) \
-- 
2.43.0


From 06aeadc9a7855c2d79fe5423d4de34f0bcc43cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 208/270] fix: formatting padded left-justified numbers with
 zeros on the right when the 0 flag came before the - flag

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e4c5641..f351e5d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19756,6 +19756,7 @@ String Array::sprintf(const String &p_format, bool *error) const {
 				}
 				case '-': { // Left justify
 					left_justified = true;
+					pad_with_zeros = false;
 					break;
 				}
 				case '+': { // Show + if positive.
-- 
2.43.0


From 5ed51f5764855be71fbed594e52b2a9cb4bc0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 209/270] fix: formatting the smallest integer printed its sign
 twice

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f351e5d..0222cf1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19625,7 +19625,7 @@ String Array::sprintf(const String &p_format, bool *error) const {
 							break;
 					}
 					// Get basic number.
-					String str = String::num_int64(ABS(value), base, capitalize);
+					String str = String::num_uint64(value < 0 ? 0 - (uint64_t)value : (uint64_t)value, base, capitalize);
 					int number_len = str.length();
 
 					// Padding.
-- 
2.43.0


From 6eed3c3f4d53e114405e5bd9c1188683ab8ee52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 210/270] fix: formatting infinity with the 0 flag put the sign
 before the padding

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0222cf1..4b07083 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19689,7 +19689,7 @@ String Array::sprintf(const String &p_format, bool *error) const {
 						if (left_justified) {
 							str = str.insert(0, sign_char);
 						} else {
-							str = str.insert(pad_with_zeros ? 0 : str.length() - initial_len, sign_char);
+							str = str.insert((pad_with_zeros && !not_numeric) ? 0 : str.length() - initial_len, sign_char);
 						}
 					}
 
-- 
2.43.0


From 382af72e5da8396e9284650e643232f0f79b29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 211/270] fix: create the core names at setup: reading or
 writing a named member of a value or an object crashed

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4b07083..e0d8e34 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18338,6 +18338,7 @@ void SFWCore::setup() {
 
 	StringName::setup();
 	MemoryPool::setup();
+	CoreStringNames::create();
 }
 
 void SFWCore::cleanup() {
@@ -18347,6 +18348,7 @@ void SFWCore::cleanup() {
 
 	_initialized = false;
 
+	CoreStringNames::free();
 	StringName::cleanup();
 	MemoryPool::cleanup();
 }
-- 
2.43.0


From 1e51591ce1c09f64257045934b212b5b3a0f1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 212/270] fix: compare text with a name for > and >= as the
 types they are: each was read as the other type

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e0d8e34..f0405ec 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -23964,9 +23964,9 @@ bool Variant::booleanize() const {
 #define DEFAULT_OP_STR_REV(m_prefix, m_op_name, m_name, m_op, m_type)                                                              \
 	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                                       \
 		if (p_b.type == STRING)                                                                                                    \
-			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const String *>(p_a._data._mem));     \
+			_RETURN(*reinterpret_cast<const String *>(p_b._data._mem) m_op *reinterpret_cast<const m_type *>(p_a._data._mem));     \
 		if (p_b.type == STRING_NAME)                                                                                               \
-			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const StringName *>(p_a._data._mem)); \
+			_RETURN(String(*reinterpret_cast<const StringName *>(p_b._data._mem)) m_op *reinterpret_cast<const m_type *>(p_a._data._mem)); \
                                                                                                                                    \
 		_RETURN_FAIL                                                                                                               \
 	};
-- 
2.43.0


From bf0056f767c2dab3e927e4a606c88064259d7f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 213/270] fix: the smallest integer divided by -1 and its
 remainder trapped

---
 platform/sfw.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f0405ec..c2f8fa8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24834,7 +24834,33 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				_RETURN(*reinterpret_cast<const Quaternion *>(p_a._data._mem) / p_b._data._real);
 			}
 
-			DEFAULT_OP_NUM_DIV(math, OP_DIVIDE, INT, _int);
+			CASE_TYPE(math, OP_DIVIDE, INT) {
+				if (p_b.type == INT) {
+#ifdef DEBUG_ENABLED
+					if (p_b._data._int == 0) {
+						r_valid = false;
+						_RETURN("Division By Zero");
+					}
+#endif
+					if (p_b._data._int == -1) {
+						// Negate without overflow, the smallest integer divided by -1 would trap.
+						_RETURN((int64_t)(0 - (uint64_t)p_a._data._int));
+					}
+					_RETURN(p_a._data._int / p_b._data._int);
+				}
+				if (p_b.type == REAL) {
+#ifdef DEBUG_ENABLED
+					if (p_b._data._real == 0) {
+						r_valid = false;
+						_RETURN("Division By Zero");
+					}
+#endif
+					_RETURN(p_a._data._int / p_b._data._real);
+				}
+
+				_RETURN_FAIL;
+			}
+
 			DEFAULT_OP_NUM_DIV(math, OP_DIVIDE, REAL, _real);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR2, /, Vector2);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR2I, /, Vector2i);
@@ -24966,6 +24992,10 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 					_RETURN("Division By Zero");
 				}
 #endif
+				if (p_b._data._int == -1) {
+					// The remainder is 0, but computing it for the smallest integer would trap.
+					_RETURN((int64_t)0);
+				}
 				_RETURN(p_a._data._int % p_b._data._int);
 			}
 
-- 
2.43.0


From 3ef1a05b6b16b772aec675c96117c27cbba57cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 214/270] fix: an integer vector divided by zero is refused
 like a number, it trapped

---
 platform/sfw.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c2f8fa8..b09911f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24063,6 +24063,35 @@ bool Variant::booleanize() const {
 		_RETURN_FAIL                                                                                                           \
 	}
 
+#ifdef DEBUG_ENABLED
+#define DEFAULT_OP_LOCALMEM_NUM_DIV(m_prefix, m_op_name, m_name, m_type, m_size)                                                    \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                                 \
+		if (p_b.type == m_name) {                                                                                            \
+			const m_type &divisor = *reinterpret_cast<const m_type *>(p_b._data._mem);                                       \
+			for (int i = 0; i < m_size; i++) {                                                                   \
+				if (divisor[i] == 0) {                                                                                       \
+					r_valid = false;                                                                                         \
+					_RETURN("Division By Zero");                                                                             \
+				}                                                                                                            \
+			}                                                                                                                \
+			_RETURN(*reinterpret_cast<const m_type *>(p_a._data._mem) / divisor);                                            \
+		}                                                                                                                    \
+		if (p_b.type == INT || p_b.type == REAL) {                                                                           \
+			const int32_t divisor = p_b.type == INT ? (int32_t)p_b._data._int : (int32_t)p_b._data._real;                    \
+			if (divisor == 0) {                                                                                              \
+				r_valid = false;                                                                                             \
+				_RETURN("Division By Zero");                                                                                 \
+			}                                                                                                                \
+			_RETURN(*reinterpret_cast<const m_type *>(p_a._data._mem) / divisor);                                            \
+		}                                                                                                                    \
+                                                                                                                             \
+		_RETURN_FAIL                                                                                                         \
+	}
+#else
+#define DEFAULT_OP_LOCALMEM_NUM_DIV(m_prefix, m_op_name, m_name, m_type, m_size) \
+	DEFAULT_OP_LOCALMEM_NUM(m_prefix, m_op_name, m_name, /, m_type)
+#endif
+
 #define DEFAULT_OP_PTR(m_op, m_name, m_sub)                \
 	CASE_TYPE(m_prefix, m_op_name, m_name) {               \
 		if (p_b.type == m_name)                            \
@@ -24863,11 +24892,11 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 
 			DEFAULT_OP_NUM_DIV(math, OP_DIVIDE, REAL, _real);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR2, /, Vector2);
-			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR2I, /, Vector2i);
+			DEFAULT_OP_LOCALMEM_NUM_DIV(math, OP_DIVIDE, VECTOR2I, Vector2i, 2);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR3, /, Vector3);
-			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR3I, /, Vector3i);
+			DEFAULT_OP_LOCALMEM_NUM_DIV(math, OP_DIVIDE, VECTOR3I, Vector3i, 3);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR4, /, Vector4);
-			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, VECTOR4I, /, Vector4i);
+			DEFAULT_OP_LOCALMEM_NUM_DIV(math, OP_DIVIDE, VECTOR4I, Vector4i, 4);
 			DEFAULT_OP_LOCALMEM_NUM(math, OP_DIVIDE, COLOR, /, Color);
 
 			CASE_TYPE(math, OP_DIVIDE, NIL)
@@ -29302,6 +29331,7 @@ String Variant::get_operator_name(Operator p_op) {
 #undef DEFAULT_OP_LOCALMEM_NEG
 #undef DEFAULT_OP_LOCALMEM_POS
 #undef DEFAULT_OP_LOCALMEM_NUM
+#undef DEFAULT_OP_LOCALMEM_NUM_DIV
 #undef DEFAULT_OP_PTR
 #undef DEFAULT_OP_PTRREF
 #undef DEFAULT_OP_PTRREF_NULL
-- 
2.43.0


From 79d644c6273e8971a51b6f24b4aa17a250abfb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 215/270] fix: blending two integer rectangles gives an integer
 rectangle, the sizes were read as reals

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b09911f..ee9cf26 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28977,7 +28977,7 @@ void Variant::interpolate(const Variant &a, const Variant &b, float c, Variant &
 		}
 			return;
 		case RECT2I: {
-			r_dst = Rect2(reinterpret_cast<const Rect2i *>(a._data._mem)->position.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->position, c), reinterpret_cast<const Rect2 *>(a._data._mem)->size.linear_interpolate(reinterpret_cast<const Rect2 *>(b._data._mem)->size, c));
+			r_dst = Rect2i(reinterpret_cast<const Rect2i *>(a._data._mem)->position.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->position, c), reinterpret_cast<const Rect2i *>(a._data._mem)->size.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->size, c));
 		}
 			return;
 		case VECTOR2: {
-- 
2.43.0


From b6c2762471026fe6259f9a08172fa914f5f403d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 216/270] fix: zeroing a box or a projection value overwrote
 the pointer to it instead of what it points to

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ee9cf26..39f5496 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21212,13 +21212,13 @@ void Variant::zero() {
 			*reinterpret_cast<Quaternion *>(this->_data._mem) = Quaternion();
 			break;
 		case AABB:
-			*reinterpret_cast<::AABB *>(this->_data._mem) = ::AABB();
+			*this->_data._aabb = ::AABB();
 			break;
 		case COLOR:
 			*reinterpret_cast<Color *>(this->_data._mem) = Color();
 			break;
 		case PROJECTION:
-			*reinterpret_cast<Projection *>(this->_data._mem) = Projection();
+			*this->_data._projection = Projection();
 			break;
 		default:
 			this->clear();
-- 
2.43.0


From 20f3f084a3cd727312e6260c67b1670d7365e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 217/270] fix: writing a member of an integer vector by its
 text name stored the bits of a real

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 39f5496..764765a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26299,7 +26299,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector3 *v = reinterpret_cast<Vector3 *>(_data._mem);
+				Vector3i *v = reinterpret_cast<Vector3i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
@@ -26414,7 +26414,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector4 *v = reinterpret_cast<Vector4 *>(_data._mem);
+				Vector4i *v = reinterpret_cast<Vector4i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
-- 
2.43.0


From 1ed85f0c11e3230c5592c39100a05a781f97dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 218/270] fix: the distance of a plane accepted a value that is
 no number

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 764765a..c3e7ca0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26494,6 +26494,10 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 					v->normal = p_value;
 					return;
 				} else if (*str == "d") {
+					if (p_value.type != Variant::INT && p_value.type != Variant::REAL) {
+						return;
+					}
+
 					valid = true;
 					v->d = p_value;
 					return;
@@ -26535,6 +26539,10 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 					v->normal = p_value;
 					return;
 				} else if (p_index == CoreStringNames::singleton->d) {
+					if (p_value.type != Variant::INT && p_value.type != Variant::REAL) {
+						return;
+					}
+
 					valid = true;
 					v->d = p_value;
 					return;
-- 
2.43.0


From 361df57aa61f7c408971eb4fcbcfe78c258cb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 219/270] fix: the members of a colour could not be read by
 name

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c3e7ca0..116c871 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -27725,7 +27725,7 @@ Variant Variant::get(const Variant &p_index, bool *r_valid) const {
 					valid = true;
 					return (*v)[idx];
 				}
-			} else if (p_index.get_type() == Variant::STRING) {
+			} else if (p_index.get_type() == Variant::STRING_NAME) {
 				const Color *v = reinterpret_cast<const Color *>(_data._mem);
 				if (p_index == CoreStringNames::singleton->r) {
 					valid = true;
-- 
2.43.0


From 977343046a6b8ba5219ecbf656d2cda7635bdc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 220/270] fix: arrays of four-component vectors convert to
 arrays like all the others

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 116c871..22bfae2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -20336,6 +20336,8 @@ bool Variant::can_convert(Variant::Type p_type_from, Variant::Type p_type_to) {
 				POOL_VECTOR2I_ARRAY,
 				POOL_VECTOR3_ARRAY,
 				POOL_VECTOR3I_ARRAY,
+				POOL_VECTOR4_ARRAY,
+				POOL_VECTOR4I_ARRAY,
 				NIL
 			};
 
-- 
2.43.0


From 8b66525cd0da5ea7dc462b7911df2b168fa587f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 221/270] fix: blending integers rounded negative results
 towards zero

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 22bfae2..98daa85 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28828,7 +28828,7 @@ void Variant::blend(const Variant &a, const Variant &b, float c, Variant &r_dst)
 		case INT: {
 			int64_t va = a._data._int;
 			int64_t vb = b._data._int;
-			r_dst = int(va + vb * c + 0.5);
+			r_dst = int(Math::floor(va + vb * c + 0.5));
 		}
 			return;
 		case REAL: {
-- 
2.43.0


From 969f8112a75c041ebb45e68c196c50418b0c75fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 222/270] fix: subtracting integer rectangles subtracted the
 size from the position of each

---
 platform/sfw.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 98daa85..5cf91ae 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28720,16 +28720,7 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 			const Rect2i *ra = reinterpret_cast<const Rect2i *>(a._data._mem);
 			const Rect2i *rb = reinterpret_cast<const Rect2i *>(b._data._mem);
 
-			int32_t vax = ra->position.x;
-			int32_t vay = ra->position.y;
-			int32_t vbx = ra->size.x;
-			int32_t vby = ra->size.y;
-			int32_t vcx = rb->position.x;
-			int32_t vcy = rb->position.y;
-			int32_t vdx = rb->size.x;
-			int32_t vdy = rb->size.y;
-
-			r_dst = Rect2i(int32_t(vax - vbx), int32_t(vay - vby), int32_t(vcx - vdx), int32_t(vcy - vdy));
+			r_dst = Rect2i(ra->position - rb->position, ra->size - rb->size);
 		}
 			return;
 		case VECTOR2: {
-- 
2.43.0


From c11a7e8ade50d9f85ddfd7857e6b85b31970169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 223/270] fix: subtracting and blending boxes read the pointer
 to the box as the box

---
 platform/sfw.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5cf91ae..06e1bde 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28766,8 +28766,8 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 		}
 			return;
 		case AABB: {
-			const ::AABB *ra = reinterpret_cast<const ::AABB *>(a._data._mem);
-			const ::AABB *rb = reinterpret_cast<const ::AABB *>(b._data._mem);
+			const ::AABB *ra = a._data._aabb;
+			const ::AABB *rb = b._data._aabb;
 			r_dst = ::AABB(ra->position - rb->position, ra->size - rb->size);
 		}
 			return;
@@ -28865,8 +28865,8 @@ void Variant::blend(const Variant &a, const Variant &b, float c, Variant &r_dst)
 		}
 			return;
 		case AABB: {
-			const ::AABB *ra = reinterpret_cast<const ::AABB *>(a._data._mem);
-			const ::AABB *rb = reinterpret_cast<const ::AABB *>(b._data._mem);
+			const ::AABB *ra = a._data._aabb;
+			const ::AABB *rb = b._data._aabb;
 			r_dst = ::AABB(ra->position + rb->position * c, ra->size + rb->size * c);
 		}
 			return;
-- 
2.43.0


From f8eedee0ec67d893320f1509093ad7fbd818be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 224/270] fix: interpolating dictionaries left the result unset

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 06e1bde..c427d31 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -29042,6 +29042,7 @@ void Variant::interpolate(const Variant &a, const Variant &b, float c, Variant &
 		}
 			return;
 		case DICTIONARY: {
+			r_dst = a;
 		}
 			return;
 		case ARRAY: {
-- 
2.43.0


From 69690e404edae86c93c3958e77175ead9031f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 225/270] fix: a nonempty name was zero and the empty name was
 not

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c427d31..78a6541 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -20910,7 +20910,7 @@ bool Variant::is_zero() const {
 			return _UNSAFE_OBJ_PROXY_PTR(*this) == nullptr;
 		} break;
 		case STRING_NAME: {
-			return *reinterpret_cast<const StringName *>(_data._mem) != StringName();
+			return *reinterpret_cast<const StringName *>(_data._mem) == StringName();
 		} break;
 		case DICTIONARY: {
 			return reinterpret_cast<const Dictionary *>(_data._mem)->empty();
-- 
2.43.0


From 391d23e29076c1a5a207c4c80080f353129bc100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 226/270] fix: the members of a 2D transform could never be
 written

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 78a6541..a10470b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26759,7 +26759,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 
 		} break;
 		case TRANSFORM2D: {
-			if (p_value.type != Variant::VECTOR2 || p_value.get_type() != Variant::VECTOR2I) {
+			if (p_value.type != Variant::VECTOR2 && p_value.get_type() != Variant::VECTOR2I) {
 				return;
 			}
 
-- 
2.43.0


From 95ac653b772c0902ee0dad4a625fe727b84ebf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 227/270] fix: multiplying projections read the pointer to the
 second as the projection

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a10470b..73fe30c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24810,7 +24810,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 						_RETURN(p_a._data._projection->xform(*(const Plane *)p_b._data._mem));
 					}
 					case PROJECTION: {
-						_RETURN(p_a._data._projection->operator*(*(const Projection *)p_b._data._mem));
+						_RETURN(p_a._data._projection->operator*(*p_b._data._projection));
 					}
 					default:
 						_RETURN_FAIL;
-- 
2.43.0


From 5c22467bfdc887d67f6a5fa5cb3a63c1c586b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 228/270] fix: pointing a reference at an object owned by the
 one it releases used freed memory

---
 platform/sfw.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index de7a432..8e40310 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19334,12 +19334,19 @@ public:
 		if (reference == p_ptr) {
 			return;
 		}
-		unref();
+
+		// p_ptr can be owned by the object that is about to be released
+		T *old = reference;
+		reference = nullptr;
 
 		T *r = Object::cast_to<T>(p_ptr);
 		if (r) {
 			ref_pointer(r);
 		}
+
+		if (old && old->unreference()) {
+			memdelete(old);
+		}
 	}
 
 	Ref(const Ref &p_from) {
-- 
2.43.0


From 92e57dbe90b0eaab408f15a9d513e442da2874db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 229/270] fix: signals never returned the memory of their
 connections

---
 platform/sfw.cpp | 4 ++++
 platform/sfw.h   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 73fe30c..3d94a5e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19890,6 +19890,7 @@ void Signal::disconnect_static(void (*func)(Signal *)) {
 
 			if (se->func == func) {
 				entries.remove(i);
+				memdelete(e);
 				return;
 			}
 		}
@@ -19990,6 +19991,9 @@ void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const
 Signal::Signal() {
 }
 Signal::~Signal() {
+	for (int i = 0; i < entries.size(); ++i) {
+		memdelete(entries[i]);
+	}
 }
 #line 0
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 8e40310..e7c2282 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18762,6 +18762,10 @@ public:
 	Signal();
 	~Signal();
 
+	// The entries belong to one signal.
+	Signal(const Signal &p_other) = delete;
+	void operator=(const Signal &p_other) = delete;
+
 protected:
 	enum SignalEntryType {
 		SIGNAL_ENTRY_TYPE_NONE = 0,
@@ -18866,6 +18870,7 @@ void Signal::disconnect(T *obj, void (*func)(T *, Signal *)) {
 
 			if (se->get_obj_ptr() == obj_ptr && se->get_func_ptr() == func_ptr) {
 				entries.remove(i);
+				memdelete(e);
 				return;
 			}
 		}
-- 
2.43.0


From 52d24052056ba22279e389cbaa2389ed7fb0b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 230/270] fix: a handler that disconnects hid the next one, one
 that emits again mixed up the arguments

---
 platform/sfw.cpp | 95 ++++++++++++++++++++++--------------------------
 platform/sfw.h   |  2 +
 2 files changed, 46 insertions(+), 51 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3d94a5e..0f55bf7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19913,82 +19913,75 @@ bool Signal::is_connected_static(void (*func)(Signal *)) {
 }
 
 void Signal::emit(Object *p_emitter) {
-	emitter = p_emitter;
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	_emit(p_emitter, Vector<Variant>());
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	Vector<Variant> p;
+	p.push_back(p1);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
-	params.push_back(p2);
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4) {
-	emitter = p_emitter;
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
+	p.push_back(p4);
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
+	_emit(p_emitter, p);
+}
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
+	p.push_back(p4);
+	p.push_back(p5);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
 
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
-	emitter = p_emitter;
+void Signal::_emit(Object *p_emitter, const Vector<Variant> &p_params) {
+	// The called functions can connect, disconnect, and emit this signal again.
+	Object *previous_emitter = emitter;
+	Vector<Variant> previous_params = params;
+	Vector<SignalEntry *> current = entries;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
-	params.push_back(p5);
+	emitter = p_emitter;
+	params = p_params;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
+	for (int i = 0; i < current.size(); ++i) {
+		if (entries.find(current[i]) != -1) {
+			current[i]->call(this);
+		}
 	}
 
-	params.clear();
+	emitter = previous_emitter;
+	params = previous_params;
 }
 
 Signal::Signal() {
+	emitter = nullptr;
 }
 Signal::~Signal() {
 	for (int i = 0; i < entries.size(); ++i) {
diff --git a/platform/sfw.h b/platform/sfw.h
index e7c2282..8889410 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18841,6 +18841,8 @@ protected:
 	};
 
 protected:
+	void _emit(Object *p_emitter, const Vector<Variant> &p_params);
+
 	Vector<SignalEntry *> entries;
 };
 
-- 
2.43.0


From 988fbb3804e845d92534850c41ba379dbaa3b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 231/270] fix: Vector4 and Vector4i set_all left w unchanged

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 8889410..51b4209 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -12069,7 +12069,7 @@ struct _NO_DISCARD_CLASS_ Vector4 {
 };
 
 void Vector4::set_all(const real_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 real_t Vector4::dot(const Vector4 &p_vec4) const {
@@ -12338,7 +12338,7 @@ struct _NO_DISCARD_CLASS_ Vector4i {
 };
 
 void Vector4i::set_all(const int32_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 int64_t Vector4i::length_squared() const {
-- 
2.43.0


From ab552ec67e4a299c85a09ebd56bf3f4930bcd842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 232/270] fix: Vector4::normalize turned the zero vector into
 NaN

---
 platform/sfw.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0f55bf7..06a9db7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14271,11 +14271,18 @@ real_t Vector4::length() const {
 }
 
 void Vector4::normalize() {
-	*this /= length();
+	const real_t l = length();
+	if (l == 0) {
+		x = y = z = w = 0;
+	} else {
+		*this /= l;
+	}
 }
 
 Vector4 Vector4::normalized() const {
-	return *this / length();
+	Vector4 v = *this;
+	v.normalize();
+	return v;
 }
 
 bool Vector4::is_normalized() const {
-- 
2.43.0


From b881a8edf3982020836aa902aba27bc0baf5e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 233/270] fix: Rect2i::intersects counted rectangles that share
 no cell

---
 platform/sfw.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 51b4209..df5920c 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10949,16 +10949,16 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 	_FORCE_INLINE_ Vector2i get_center() const { return position + (size / 2); }
 
 	inline bool intersects(const Rect2i &p_rect) const {
-		if (position.x > (p_rect.position.x + p_rect.size.width)) {
+		if (position.x >= (p_rect.position.x + p_rect.size.width)) {
 			return false;
 		}
-		if ((position.x + size.width) < p_rect.position.x) {
+		if ((position.x + size.width) <= p_rect.position.x) {
 			return false;
 		}
-		if (position.y > (p_rect.position.y + p_rect.size.height)) {
+		if (position.y >= (p_rect.position.y + p_rect.size.height)) {
 			return false;
 		}
-		if ((position.y + size.height) < p_rect.position.y) {
+		if ((position.y + size.height) <= p_rect.position.y) {
 			return false;
 		}
 
-- 
2.43.0


From 8cffa142e81edb9340158ab16b54cf1ce9722cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 234/270] fix: Rect2i::encloses refused rectangles that share
 the far edge

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index df5920c..4037da3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10967,8 +10967,8 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 
 	inline bool encloses(const Rect2i &p_rect) const {
 		return (p_rect.position.x >= position.x) && (p_rect.position.y >= position.y) &&
-				((p_rect.position.x + p_rect.size.x) < (position.x + size.x)) &&
-				((p_rect.position.y + p_rect.size.y) < (position.y + size.y));
+				((p_rect.position.x + p_rect.size.x) <= (position.x + size.x)) &&
+				((p_rect.position.y + p_rect.size.y) <= (position.y + size.y));
 	}
 
 	_FORCE_INLINE_ bool has_no_area() const {
-- 
2.43.0


From 9cdcbb4e48dc70c319eb2b1a4ce452039d602fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 235/270] fix: Rect2i lost integer precision by going through
 float vectors

---
 platform/sfw.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 4037da3..83fc309 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10986,8 +10986,8 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 		new_rect.position.x = MAX(p_rect.position.x, position.x);
 		new_rect.position.y = MAX(p_rect.position.y, position.y);
 
-		Point2 p_rect_end = p_rect.position + p_rect.size;
-		Point2 end = position + size;
+		Point2i p_rect_end = p_rect.position + p_rect.size;
+		Point2i end = position + size;
 
 		new_rect.size.x = (int)(MIN(p_rect_end.x, end.x) - new_rect.position.x);
 		new_rect.size.y = (int)(MIN(p_rect_end.y, end.y) - new_rect.position.y);
@@ -11146,10 +11146,10 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 	}
 	Rect2i() {}
 	Rect2i(int p_x, int p_y, int p_width, int p_height) :
-			position(Point2(p_x, p_y)),
-			size(Size2(p_width, p_height)) {
+			position(p_x, p_y),
+			size(p_width, p_height) {
 	}
-	Rect2i(const Point2 &p_pos, const Size2 &p_size) :
+	Rect2i(const Point2i &p_pos, const Size2i &p_size) :
 			position(p_pos),
 			size(p_size) {
 	}
-- 
2.43.0


From 5fc9adf6effac4a1d3e9cfbbadb5969bfccf5ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 236/270] fix: Rect2::distance_to returned the shorter offset
 instead of the distance to a corner

---
 platform/sfw.h | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 83fc309..3c427f0 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10649,35 +10649,12 @@ struct _NO_DISCARD_CLASS_ Rect2 {
 	}
 
 	inline real_t distance_to(const Vector2 &p_point) const {
-		real_t dist = 0.0;
-		bool inside = true;
+		const Vector2 end = position + size;
+		const Vector2 offset(
+				MAX(MAX(position.x - p_point.x, p_point.x - end.x), (real_t)0),
+				MAX(MAX(position.y - p_point.y, p_point.y - end.y), (real_t)0));
 
-		if (p_point.x < position.x) {
-			real_t d = position.x - p_point.x;
-			dist = d;
-			inside = false;
-		}
-		if (p_point.y < position.y) {
-			real_t d = position.y - p_point.y;
-			dist = inside ? d : MIN(dist, d);
-			inside = false;
-		}
-		if (p_point.x >= (position.x + size.x)) {
-			real_t d = p_point.x - (position.x + size.x);
-			dist = inside ? d : MIN(dist, d);
-			inside = false;
-		}
-		if (p_point.y >= (position.y + size.y)) {
-			real_t d = p_point.y - (position.y + size.y);
-			dist = inside ? d : MIN(dist, d);
-			inside = false;
-		}
-
-		if (inside) {
-			return 0;
-		} else {
-			return dist;
-		}
+		return offset.length();
 	}
 
 	bool intersects_transformed(const Transform2D &p_xform, const Rect2 &p_rect) const;
-- 
2.43.0


From 72e8576f9042120940c2c42b77ce8146300db1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 237/270] fix: Rect2 and AABB get_support returned the point
 farthest against the direction

---
 platform/sfw.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 3c427f0..e17420e 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10823,8 +10823,8 @@ struct _NO_DISCARD_CLASS_ Rect2 {
 		Vector2 half_extents = size * 0.5f;
 		Vector2 ofs = position + half_extents;
 		return Vector2(
-					   (p_normal.x > 0) ? -half_extents.x : half_extents.x,
-					   (p_normal.y > 0) ? -half_extents.y : half_extents.y) +
+					   (p_normal.x > 0) ? half_extents.x : -half_extents.x,
+					   (p_normal.y > 0) ? half_extents.y : -half_extents.y) +
 				ofs;
 	}
 
@@ -12806,9 +12806,9 @@ Vector3 AABB::get_support(const Vector3 &p_normal) const {
 	Vector3 ofs = position + half_extents;
 
 	return Vector3(
-				   (p_normal.x > 0) ? -half_extents.x : half_extents.x,
-				   (p_normal.y > 0) ? -half_extents.y : half_extents.y,
-				   (p_normal.z > 0) ? -half_extents.z : half_extents.z) +
+				   (p_normal.x > 0) ? half_extents.x : -half_extents.x,
+				   (p_normal.y > 0) ? half_extents.y : -half_extents.y,
+				   (p_normal.z > 0) ? half_extents.z : -half_extents.z) +
 			ofs;
 }
 
-- 
2.43.0


From 9436d55895a3df6aa139623d772778a7f62e8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 238/270] fix: AABB::intersects_ray reported line parameters as
 the point and a normal that ignored the direction

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 06a9db7..b11b315 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9254,11 +9254,11 @@ bool AABB::intersects_ray(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *
 	}
 
 	if (r_clip) {
-		*r_clip = c1;
+		*r_clip = p_from + p_dir * aabb_near;
 	}
 	if (r_normal) {
 		*r_normal = Vector3();
-		(*r_normal)[axis] = p_dir[axis] ? -1 : 1;
+		(*r_normal)[axis] = p_dir[axis] > 0 ? -1 : 1;
 	}
 
 	return true;
-- 
2.43.0


From db16307d61d0ec5a3de133e2a136e33abfb74823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 239/270] fix: Basis::orthogonalize negated bases of negative
 determinant

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b11b315..197191a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11224,7 +11224,7 @@ bool Basis::is_orthogonal() const {
 }
 
 void Basis::orthogonalize() {
-	Vector3 scl = get_scale();
+	Vector3 scl = get_scale_abs();
 	orthonormalize();
 	scale_local(scl);
 }
-- 
2.43.0


From a9eec4a102588b8bb23b947c709980b392e2f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 240/270] fix: Basis::rotref_posscale_decomposition lost the
 reflection

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 197191a..d2cf22e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11453,14 +11453,14 @@ Vector3 Basis::rotref_posscale_decomposition(Basis &rotref) const {
 	Basis m = transposed() * (*this);
 	ERR_FAIL_COND_V(!m.is_diagonal(), Vector3());
 #endif
-	Vector3 scale = get_scale();
-	Basis inv_scale = Basis().scaled(scale.inverse()); // this will also absorb the sign of scale
+	Vector3 scale = get_scale_abs();
+	Basis inv_scale = Basis().scaled(scale.inverse()); // the sign of the determinant stays in rotref
 	rotref = (*this) * inv_scale;
 
 #ifdef MATH_CHECKS
 	ERR_FAIL_COND_V(!rotref.is_orthogonal(), Vector3());
 #endif
-	return scale.abs();
+	return scale;
 }
 
 // Multiplies the matrix from left by the rotation matrix: M -> R.M
-- 
2.43.0


From 046887c5b9c907531e5dd31b28a83d7f29ddc68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 241/270] fix: Quaternion axis of small turns was not of unit
 length, and infinite for no turn

---
 platform/sfw.cpp | 6 +-----
 platform/sfw.h   | 5 +----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d2cf22e..d9fc27f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -13799,11 +13799,7 @@ Quaternion Quaternion::spherical_cubic_interpolate(const Quaternion &p_b, const
 }
 
 Vector3 Quaternion::get_axis() const {
-	if (Math::abs(w) > 1 - CMP_EPSILON) {
-		return Vector3(x, y, z);
-	}
-	real_t r = ((real_t)1) / Math::sqrt(1 - w * w);
-	return Vector3(x * r, y * r, z * r);
+	return Vector3(x, y, z).normalized();
 }
 
 float Quaternion::get_angle() const {
diff --git a/platform/sfw.h b/platform/sfw.h
index e17420e..50e6c58 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -13125,10 +13125,7 @@ struct _NO_DISCARD_CLASS_ Quaternion {
 	void set_axis_angle(const Vector3 &axis, const real_t &angle);
 	_FORCE_INLINE_ void get_axis_angle(Vector3 &r_axis, real_t &r_angle) const {
 		r_angle = 2 * Math::acos(w);
-		real_t r = ((real_t)1) / Math::sqrt(1 - w * w);
-		r_axis.x = x * r;
-		r_axis.y = y * r;
-		r_axis.z = z * r;
+		r_axis = get_axis();
 	}
 
 	void operator*=(const Quaternion &p_q);
-- 
2.43.0


From fce2a3f981eaa40ce2ab5e6bd63fa0df948c5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 242/270] fix: Transform::inverse_xform turned the origin the
 wrong way

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 50e6c58..50106bd 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -14440,7 +14440,7 @@ struct _NO_DISCARD_CLASS_ Transform {
 	_FORCE_INLINE_ Transform inverse_xform(const Transform &t) const {
 		Vector3 v = t.origin - origin;
 		return Transform(basis.transpose_xform(t.basis),
-				basis.xform(v));
+				basis.xform_inv(v));
 	}
 
 	void set(real_t xx, real_t xy, real_t xz, real_t yx, real_t yy, real_t yz, real_t zx, real_t zy, real_t zz, real_t tx, real_t ty, real_t tz) {
-- 
2.43.0


From 99aaffd71f9d59b829f85f091f0345571c06882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 243/270] fix: Projection::create_orthogonal passed the far
 distance as near distance

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d9fc27f..748efaa 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9947,7 +9947,7 @@ Projection Projection::create_for_hmd(int p_eye, real_t p_aspect, real_t p_intra
 
 Projection Projection::create_orthogonal(real_t p_left, real_t p_right, real_t p_bottom, real_t p_top, real_t p_znear, real_t p_zfar) {
 	Projection proj;
-	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_zfar, p_zfar);
+	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_znear, p_zfar);
 	return proj;
 }
 
-- 
2.43.0


From 537be49762b4030449e2d0f48494578c7b856236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 244/270] fix: Transform2D::interpolate_with applied the scale
 after the rotation, missing both ends

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 748efaa..9294e13 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9858,7 +9858,7 @@ Transform2D Transform2D::interpolate_with(const Transform2D &p_transform, real_t
 
 	//construct matrix
 	Transform2D res(Math::atan2(v.y, v.x), Vector2::linear_interpolate(p1, p2, p_c));
-	res.scale_basis(Vector2::linear_interpolate(s1, s2, p_c));
+	res.set_scale(Vector2::linear_interpolate(s1, s2, p_c));
 	return res;
 }
 
-- 
2.43.0


From 12c6cae49b882fac15a2cc68d27c424df5e55123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 245/270] fix: Face3 ray and segment intersection always
 answered no

---
 platform/sfw.cpp | 51 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9294e13..a23a7c2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12412,14 +12412,57 @@ int Face3::split_by_plane(const Plane &p_plane, Face3 p_res[3], bool p_is_point_
 	return polygons_created;
 }
 
+// Finds where the line p_from + t * p_dir meets the triangle. Returns false if it does not, or if it is parallel to it.
+static bool _line_intersects_triangle(const Vector3 &p_from, const Vector3 &p_dir, const Vector3 *p_vertex, real_t &r_t) {
+	Vector3 e1 = p_vertex[1] - p_vertex[0];
+	Vector3 e2 = p_vertex[2] - p_vertex[0];
+	Vector3 h = p_dir.cross(e2);
+	real_t a = e1.dot(h);
+	if (Math::is_zero_approx(a)) { // Parallel test.
+		return false;
+	}
+
+	real_t f = 1 / a;
+
+	Vector3 s = p_from - p_vertex[0];
+	real_t u = f * s.dot(h);
+	if ((u < 0) || (u > 1)) {
+		return false;
+	}
+
+	Vector3 q = s.cross(e1);
+	real_t v = f * p_dir.dot(q);
+	if ((v < 0) || (u + v > 1)) {
+		return false;
+	}
+
+	r_t = f * e2.dot(q);
+	return true;
+}
+
 bool Face3::intersects_ray(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *p_intersection) const {
-	//return Geometry::ray_intersects_triangle(p_from, p_dir, vertex[0], vertex[1], vertex[2], p_intersection);
-	return false;
+	real_t t;
+	if (!_line_intersects_triangle(p_from, p_dir, vertex, t) || t <= (real_t)CMP_EPSILON) {
+		return false;
+	}
+
+	if (p_intersection) {
+		*p_intersection = p_from + p_dir * t;
+	}
+	return true;
 }
 
 bool Face3::intersects_segment(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *p_intersection) const {
-	//return Geometry::segment_intersects_triangle(p_from, p_dir, vertex[0], vertex[1], vertex[2], p_intersection);
-	return false;
+	real_t t;
+	const Vector3 rel = p_dir - p_from;
+	if (!_line_intersects_triangle(p_from, rel, vertex, t) || t <= (real_t)CMP_EPSILON || t > 1) {
+		return false;
+	}
+
+	if (p_intersection) {
+		*p_intersection = p_from + rel * t;
+	}
+	return true;
 }
 
 bool Face3::is_degenerate() const {
-- 
2.43.0


From 518ee479865fb2b4d0d1bc707a45a61a3f21d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 246/270] fix: Face3::split_by_plane failed when the plane
 passes through a vertex

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a23a7c2..aba49e6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12368,6 +12368,10 @@ int Face3::split_by_plane(const Plane &p_plane, Face3 p_res[3], bool p_is_point_
 
 			/* Check for Intersection between this and the next vertex*/
 
+			if (p_plane.has_point(vertex[(i + 1) % 3], (real_t)CMP_EPSILON)) {
+				continue; // the next vertex is the intersection, and goes to both by itself
+			}
+
 			Vector3 inters;
 			if (!p_plane.intersects_segment(vertex[i], vertex[(i + 1) % 3], &inters)) {
 				continue;
-- 
2.43.0


From ff0258a018f504810045acba693274ffe1114510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 247/270] fix: Color to_rgba32 and its siblings wrapped
 components outside 0 to 1 around instead of clamping them

---
 platform/sfw.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index aba49e6..361358a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -13058,73 +13058,73 @@ Transform::Transform(const Vector3 &p_x, const Vector3 &p_y, const Vector3 &p_z,
 /*************************************************************************/
 
 uint32_t Color::to_argb32() const {
-	uint32_t c = (uint8_t)Math::round(a * 255);
+	uint32_t c = (uint8_t)CLAMP(Math::round(a * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(r * 255);
+	c |= (uint8_t)CLAMP(Math::round(r * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(g * 255);
+	c |= (uint8_t)CLAMP(Math::round(g * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(b * 255);
+	c |= (uint8_t)CLAMP(Math::round(b * 255), 0, 255);
 
 	return c;
 }
 
 uint32_t Color::to_abgr32() const {
-	uint32_t c = (uint8_t)Math::round(a * 255);
+	uint32_t c = (uint8_t)CLAMP(Math::round(a * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(b * 255);
+	c |= (uint8_t)CLAMP(Math::round(b * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(g * 255);
+	c |= (uint8_t)CLAMP(Math::round(g * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(r * 255);
+	c |= (uint8_t)CLAMP(Math::round(r * 255), 0, 255);
 
 	return c;
 }
 
 uint32_t Color::to_rgba32() const {
-	uint32_t c = (uint8_t)Math::round(r * 255);
+	uint32_t c = (uint8_t)CLAMP(Math::round(r * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(g * 255);
+	c |= (uint8_t)CLAMP(Math::round(g * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(b * 255);
+	c |= (uint8_t)CLAMP(Math::round(b * 255), 0, 255);
 	c <<= 8;
-	c |= (uint8_t)Math::round(a * 255);
+	c |= (uint8_t)CLAMP(Math::round(a * 255), 0, 255);
 
 	return c;
 }
 
 uint64_t Color::to_abgr64() const {
-	uint64_t c = (uint16_t)Math::round(a * 65535);
+	uint64_t c = (uint16_t)CLAMP(Math::round(a * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(b * 65535);
+	c |= (uint16_t)CLAMP(Math::round(b * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(g * 65535);
+	c |= (uint16_t)CLAMP(Math::round(g * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(r * 65535);
+	c |= (uint16_t)CLAMP(Math::round(r * 65535), 0, 65535);
 
 	return c;
 }
 
 uint64_t Color::to_argb64() const {
-	uint64_t c = (uint16_t)Math::round(a * 65535);
+	uint64_t c = (uint16_t)CLAMP(Math::round(a * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(r * 65535);
+	c |= (uint16_t)CLAMP(Math::round(r * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(g * 65535);
+	c |= (uint16_t)CLAMP(Math::round(g * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(b * 65535);
+	c |= (uint16_t)CLAMP(Math::round(b * 65535), 0, 65535);
 
 	return c;
 }
 
 uint64_t Color::to_rgba64() const {
-	uint64_t c = (uint16_t)Math::round(r * 65535);
+	uint64_t c = (uint16_t)CLAMP(Math::round(r * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(g * 65535);
+	c |= (uint16_t)CLAMP(Math::round(g * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(b * 65535);
+	c |= (uint16_t)CLAMP(Math::round(b * 65535), 0, 65535);
 	c <<= 16;
-	c |= (uint16_t)Math::round(a * 65535);
+	c |= (uint16_t)CLAMP(Math::round(a * 65535), 0, 65535);
 
 	return c;
 }
-- 
2.43.0


From f041a3f8f8932410b879b59239bce652781edc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 248/270] fix: Color::html_is_valid rejected the 3 and 4 digit
 notations Color::html reads

---
 platform/sfw.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 361358a..3fa37f0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -13386,6 +13386,15 @@ bool Color::html_is_valid(const String &p_color) {
 		color = color.substr(1, color.length() - 1);
 	}
 
+	if (color.length() == 3 || color.length() == 4) {
+		String exp_color;
+		for (int i = 0; i < color.length(); i++) {
+			exp_color += color[i];
+			exp_color += color[i];
+		}
+		color = exp_color;
+	}
+
 	bool alpha = false;
 
 	if (color.length() == 8) {
-- 
2.43.0


From 7183ec82dda6397b5fe9c04f725e3d5356d7057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 249/270] fix: PoolAllocator::resize accepted sizes below 1,
 leaving a freed entry in use

---
 platform/sfw.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3fa37f0..6dddf65 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2395,6 +2395,11 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		ERR_FAIL_COND_V(e->lock, ERR_ALREADY_IN_USE);
 	}
 
+	if (p_new_size < 1) {
+		mt_unlock();
+		ERR_FAIL_V(ERR_INVALID_PARAMETER);
+	}
+
 	uint32_t alloc_size = aligned(p_new_size);
 
 	if ((uint32_t)aligned(e->len) == alloc_size) {
-- 
2.43.0


From d354c24c759868bb15ca535ffc2ea6810183c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 250/270] fix: PoolAllocator::resize refused exact fits and
 read past the entries when resizing the last one

---
 platform/sfw.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6dddf65..dc3f91c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2439,7 +2439,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
 	};
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
@@ -2450,7 +2450,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact(entry_indices_pos + 1);
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
@@ -2466,7 +2466,11 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact_up(entry_indices_pos + 1);
 
-	if ((entry_array[entry_indices[entry_indices_pos + 1]].pos - e->pos) > alloc_size) {
+	if (entry_indices_pos + 1 < entry_count) {
+		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
+	}
+
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
-- 
2.43.0


From d6971c6e3e66105d38946675996b887d93b18a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 251/270] fix: PoolAllocator moved blocks to unaligned places
 when the pool's size is not a multiple of the alignment

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index dc3f91c..00610df 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2210,7 +2210,7 @@ void PoolAllocator::compact(int p_up_to) {
 }
 
 void PoolAllocator::compact_up(int p_from) {
-	uint32_t next_entry_end_pos = pool_size; // - static_area_size;
+	uint32_t next_entry_end_pos = pool_size - pool_size % align; // - static_area_size;
 
 	for (int i = entry_count - 1; i >= p_from; i--) {
 		Entry &entry = entry_array[entry_indices[i]];
-- 
2.43.0


From 404d6ca5100a1e71a735b374922106b7514febcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 252/270] fix: PoolAllocator's peak missed blocks grown in
 place

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 00610df..761e2da 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2443,6 +2443,9 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
+		if (free_mem < free_mem_peak) {
+			free_mem_peak = free_mem;
+		}
 		mt_unlock();
 		return OK;
 	}
-- 
2.43.0


From c5408a14ee9823c89ef7fce8c0a3f1eec1a5cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 253/270] fix: StringBuffer wrote past its buffer when
 appending after as_string shrank reserved space below the in-place size

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 50106bd..a8dd135 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17279,7 +17279,7 @@ StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::append(const C
 
 template <int SHORT_BUFFER_SIZE>
 StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::reserve(int p_size) {
-	if (p_size < SHORT_BUFFER_SIZE || p_size < buffer.size()) {
+	if (buffer.empty() ? p_size < SHORT_BUFFER_SIZE : p_size < buffer.size()) {
 		return *this;
 	}
 
-- 
2.43.0


From 69f42ff51f44c50e27da22149e8ab05ad63444a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 254/270] fix: copies of an InetAddress shared its data and
 freed it twice

---
 platform/sfw.cpp | 14 ++++++++++++++
 platform/sfw.h   |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 761e2da..5016bfd 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17282,6 +17282,20 @@ InetAddress::InetAddress(const struct sockaddr_in6 &addr) {
 	_is_unspecified = false;
 }
 
+InetAddress::InetAddress(const InetAddress &p_other) {
+	_data = memnew(InetAddressData);
+	*_data = *p_other._data;
+	_is_ip_v6 = p_other._is_ip_v6;
+	_is_unspecified = p_other._is_unspecified;
+}
+
+InetAddress &InetAddress::operator=(const InetAddress &p_other) {
+	*_data = *p_other._data;
+	_is_ip_v6 = p_other._is_ip_v6;
+	_is_unspecified = p_other._is_unspecified;
+	return *this;
+}
+
 InetAddress::~InetAddress() {
 	memdelete(_data);
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index a8dd135..815ed38 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17792,6 +17792,9 @@ public:
 	explicit InetAddress(const struct sockaddr_in &addr);
 	explicit InetAddress(const struct sockaddr_in6 &addr);
 
+	InetAddress(const InetAddress &p_other);
+	InetAddress &operator=(const InetAddress &p_other);
+
 	~InetAddress();
 
 private:
-- 
2.43.0


From d4bb4332f282b2c088cfb07bdc4df3feb1470c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 255/270] fix: InetAddress left its kind undefined when built
 from a sockaddr_in or from a text that is no address

---
 platform/sfw.cpp | 5 ++++-
 platform/sfw.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5016bfd..7f69d99 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17203,7 +17203,7 @@ void InetAddress::set_port_net_endian(uint16_t port) {
 	_data->_addr.sin_port = port;
 }
 
-inline bool InetAddress::is_unspecified() const {
+bool InetAddress::is_unspecified() const {
 	return _is_unspecified;
 }
 
@@ -17245,6 +17245,7 @@ InetAddress::InetAddress(const String &ip, uint16_t port, bool ipv6) {
 	_data = memnew(InetAddressData);
 
 	_is_ip_v6 = ipv6;
+	_is_unspecified = true;
 
 	if (ipv6) {
 		memset(&_data->_addr6, 0, sizeof(_data->_addr6));
@@ -17271,6 +17272,8 @@ InetAddress::InetAddress(const struct sockaddr_in &addr) {
 	_data = memnew(InetAddressData);
 
 	_data->_addr = addr;
+
+	_is_ip_v6 = false;
 	_is_unspecified = false;
 }
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 815ed38..eec5c63 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17784,7 +17784,7 @@ public:
 
 	void set_port_net_endian(uint16_t port);
 
-	inline bool is_unspecified() const;
+	bool is_unspecified() const;
 
 	InetAddress(uint16_t port = 0, bool loopbackOnly = false, bool ipv6 = false);
 	InetAddress(const String &ip, uint16_t port, bool ipv6 = false);
-- 
2.43.0


From e32ccf9b0d16f15fa38013e2cfe76a9c1e7d7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 256/270] fix: SubProcess let the shell interpret quotes, $ and
 backticks in the arguments of a child whose output is read

---
 platform/sfw.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7f69d99..1c1933a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18047,6 +18047,11 @@ SubProcess::~SubProcess() {
 #include <sys/wait.h>
 #include <unistd.h>
 
+// Quotes a text so the shell passes it on unchanged.
+static String _shell_quote(const String &p_text) {
+	return "'" + p_text.replace("'", "'\\''") + "'";
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -18063,10 +18068,10 @@ Error SubProcess::start() {
 
 	if (_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _shell_quote(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _shell_quote(_arguments[i]);
 		}
 
 		if (_read_std_err) {
@@ -18098,10 +18103,10 @@ Error SubProcess::start() {
 
 	if (!_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _shell_quote(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _shell_quote(_arguments[i]);
 		}
 
 		if (_read_std_err) {
-- 
2.43.0


From e04413304a009df4b8b729c7aa7beebcf8b2801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 257/270] fix: SubProcess reported success for a child killed
 by a signal when reading its output

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1c1933a..b387e3d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18096,7 +18096,7 @@ Error SubProcess::start() {
 		}
 		int rv = pclose(f);
 
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 
 		return OK;
 	}
@@ -18176,7 +18176,7 @@ Error SubProcess::stop() {
 	if (_process_fp) {
 		int rv = pclose(_process_fp);
 		_process_fp = NULL;
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 		_process_id = 0;
 		return OK;
 	}
-- 
2.43.0


From a002d6c93a2dae9a325873bde1f3f9724f3658b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 258/270] fix: SubProcess lost the exit code of a finished
 child and could later kill an unrelated process with its id

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b387e3d..7d0c541 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18254,6 +18254,10 @@ bool SubProcess::is_process_running() const {
 
 	int status = 0;
 	if (waitpid(_process_id, &status, WNOHANG) != 0) {
+		// The process is gone (and its id can be reused): remember how it ended, and never signal it again.
+		SubProcess *self = const_cast<SubProcess *>(this);
+		self->_exitcode = WIFEXITED(status) ? WEXITSTATUS(status) : status;
+		self->_process_id = 0;
 		return false;
 	}
 
-- 
2.43.0


From aabc5a3226c87eabe01ac27097fc702e87c7653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 259/270] fix: SubProcess::start forgot an earlier child whose
 output was at its end, leaving it unreaped

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7d0c541..c265b46 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18066,6 +18066,9 @@ Error SubProcess::start() {
 		return ERR_BUSY;
 	}
 
+	// The output of an earlier process can be at its end without having been closed.
+	stop();
+
 	if (_blocking && _read_output) {
 		String argss;
 		argss = _shell_quote(_executable_path);
-- 
2.43.0


From a464d03bdf1ef65ab42fc4d92bfbeeb59f2f6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 260/270] fix: SubProcess leaked its mutex

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c265b46..1ae85c1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18289,6 +18289,10 @@ SubProcess::SubProcess() {
 }
 SubProcess::~SubProcess() {
 	stop();
+
+	if (_pipe_mutex) {
+		memdelete(_pipe_mutex);
+	}
 }
 
 #endif
-- 
2.43.0


From fd140212b600b8f130974c4e8266089526f960b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 261/270] fix: SubProcess broke characters of long lines of
 output apart

---
 platform/sfw.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1ae85c1..519998a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18047,6 +18047,32 @@ SubProcess::~SubProcess() {
 #include <sys/wait.h>
 #include <unistd.h>
 
+// Reads up to the end of a line, or of the space, but never ends inside of a UTF-8 sequence.
+static bool _read_pipe(FILE *p_file, char *r_buf, int p_size) {
+	if (!fgets(r_buf, p_size - 3, p_file)) {
+		return false;
+	}
+
+	int len = strlen(r_buf);
+	int start = len - 1;
+	while (start > 0 && len - start < 4 && (r_buf[start] & 0xc0) == 0x80) {
+		start--;
+	}
+
+	unsigned char lead = len > 0 ? r_buf[start] : 0;
+	int needed = lead >= 0xf0 ? 4 : (lead >= 0xe0 ? 3 : (lead >= 0xc0 ? 2 : 1));
+	while (len - start < needed) {
+		int c = fgetc(p_file);
+		if (c == EOF) {
+			break;
+		}
+		r_buf[len++] = c;
+	}
+	r_buf[len] = 0;
+
+	return true;
+}
+
 // Quotes a text so the shell passes it on unchanged.
 static String _shell_quote(const String &p_text) {
 	return "'" + p_text.replace("'", "'\\''") + "'";
@@ -18088,7 +18114,7 @@ Error SubProcess::start() {
 
 		char buf[65535];
 
-		while (fgets(buf, 65535, f)) {
+		while (_read_pipe(f, buf, 65535)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
@@ -18210,7 +18236,7 @@ Error SubProcess::poll() {
 #else
 
 	if (_process_fp) {
-		if (fgets(_process_buf, 65535, _process_fp)) {
+		if (_read_pipe(_process_fp, _process_buf, 65535)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
-- 
2.43.0


From 11d2bae311536524ae24144220eca01ddfd1d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 262/270] fix: waiting for a blocking or stopped process is
 retried when a signal interrupts it

---
 platform/sfw.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 519998a..d2f6663 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18184,8 +18184,9 @@ Error SubProcess::start() {
 	}
 
 	if (_blocking) {
-		int status;
-		waitpid(pid, &status, 0);
+		int status = 0;
+		while (waitpid(pid, &status, 0) == -1 && errno == EINTR) {
+		}
 
 		_exitcode = WIFEXITED(status) ? WEXITSTATUS(status) : status;
 	} else {
@@ -18216,7 +18217,8 @@ Error SubProcess::stop() {
 		if (!ret) {
 			//avoid zombie process
 			int st;
-			::waitpid(_process_id, &st, 0);
+			while (::waitpid(_process_id, &st, 0) == -1 && errno == EINTR) {
+			}
 		}
 
 		_process_id = 0;
-- 
2.43.0


From 6467af7454efd6bbd82974a8d2e2f10edd004783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 263/270] fix: an IPv4 loopback-only address is 127.0.0.1, not
 every interface

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d2f6663..036ecb0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17034,7 +17034,7 @@ struct in6__addruint {
 
 // INADDR_ANY use (type)value casting.
 static const in_addr_t kInaddrAny = INADDR_ANY;
-static const in_addr_t kInaddrLoopback = INADDR_ANY;
+static const in_addr_t kInaddrLoopback = INADDR_LOOPBACK;
 
 //     /* Structure describing an Internet socket address.  */
 //     struct sock_addrin {
-- 
2.43.0


From 56e4a38fe5e439ff46082925139c7e579bb4a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 264/270] fix: a started thread took its own id from the Thread
 object before it was stored there

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 036ecb0..b56631a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1642,7 +1642,7 @@ void Thread::_set_platform_funcs(
 }
 
 void Thread::callback(Thread *p_self, const Settings &p_settings, Callback p_callback, void *p_userdata) {
-	caller_id = _thread_id_hash(p_self->thread.get_id());
+	caller_id = _thread_id_hash(std::this_thread::get_id());
 	caller_id_cached = true;
 
 	if (set_priority_func) {
-- 
2.43.0


From 56b3e58ffd65a0cce64c0b7a97aa5097b51a9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 265/270] fix: flattening a list of vectors into one of them
 read past the end of it (the receiver was resized before it was read)

---
 core/mlpp_vector.cpp | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index ea12ebd..ea834f1 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -315,27 +315,10 @@ bool MLPPVector::is_equal_approx(const Ref<MLPPVector> &p_with, real_t tolerance
 }
 
 void MLPPVector::flatten_vectors(const Vector<Ref<MLPPVector>> &A) {
-	int vsize = 0;
-	for (int i = 0; i < A.size(); ++i) {
-		vsize += A[i]->size();
-	}
-
-	resize(vsize);
-
-	int a_index = 0;
-	real_t *a_ptr = ptrw();
-
-	for (int i = 0; i < A.size(); ++i) {
-		const Ref<MLPPVector> &r = A[i];
+	// This vector can be one of the parts, so it's only changed once all of them have been read.
+	Ref<MLPPVector> a = flatten_vectorsn(A);
 
-		int r_size = r->size();
-		const real_t *r_ptr = r->ptr();
-
-		for (int j = 0; j < r_size; ++j) {
-			a_ptr[a_index] = r_ptr[j];
-			++a_index;
-		}
-	}
+	set_from_mlpp_vector(a);
 }
 
 Ref<MLPPVector> MLPPVector::flatten_vectorsn(const Vector<Ref<MLPPVector>> &A) const {
-- 
2.43.0


From 55089efc3c6c89382cc51110568551137dc78eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 266/270] fix: training a GAN failed at its first step
 (gradients of differently shaped layers in one tensor, vector derivatives of
 matrices, targets and layers mixed up); it trains now

---
 modules/gan/gan.cpp | 117 ++++++++++++++++++--------------------------
 modules/gan/gan.h   |   9 ++--
 2 files changed, 51 insertions(+), 75 deletions(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 3d422ae..5e46800 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -83,7 +83,7 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		// Training of the discriminator.
 
 		Ref<MLPPMatrix> generator_input_set = MLPPMatrix::create_gaussian_noise(_n, _k);
-		Ref<MLPPMatrix> discriminator_input_set = model_set_test_generator(generator_input_set);
+		Ref<MLPPMatrix> discriminator_input_set = model_set_test_generator(generator_input_set)->duplicate_fast();
 		discriminator_input_set->rows_add_mlpp_matrix(_output_set); // Fake + real inputs.
 
 		Ref<MLPPVector> y_hat = model_set_test_discriminator(discriminator_input_set);
@@ -91,9 +91,12 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		Ref<MLPPVector> output_set_real = MLPPVector::create_vec_one(_n);
 		output_set->append_mlpp_vector(output_set_real); // Fake + real output scores.
 
-		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, _output_set);
+		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, output_set);
+
+		for (int i = 0; i < dgrads.cumulative_hidden_layer_w_grad.size(); i++) {
+			dgrads.cumulative_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
+		}
 
-		dgrads.cumulative_hidden_layer_w_grad->scalar_multiply(learning_rate / _n);
 		dgrads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_discriminator_parameters(dgrads.cumulative_hidden_layer_w_grad, dgrads.output_w_grad, learning_rate);
@@ -102,11 +105,13 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		generator_input_set = MLPPMatrix::create_gaussian_noise(_n, _k);
 		discriminator_input_set = model_set_test_generator(generator_input_set);
 		y_hat = model_set_test_discriminator(discriminator_input_set);
-		_output_set = MLPPVector::create_vec_one(_n);
+		output_set = MLPPVector::create_vec_one(_n);
 
-		Ref<MLPPTensor3> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, _output_set);
+		Vector<Ref<MLPPMatrix>> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, output_set);
 
-		cumulative_generator_hidden_layer_w_grad->scalar_multiply(learning_rate / _n);
+		for (int i = 0; i < cumulative_generator_hidden_layer_w_grad.size(); i++) {
+			cumulative_generator_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
+		}
 
 		update_generator_parameters(cumulative_generator_hidden_layer_w_grad, learning_rate);
 
@@ -209,7 +214,11 @@ Ref<MLPPVector> MLPPGAN::model_set_test_discriminator(const Ref<MLPPMatrix> &X)
 			_network.write[i]->forward_pass();
 		}
 
-		_output_layer->set_input(_network.write[_network.size() - 1]->get_a());
+		if (_network.size() - 1 > _network.size() / 2) {
+			_output_layer->set_input(_network.write[_network.size() - 1]->get_a());
+		} else { // The output layer is the whole discriminator.
+			_output_layer->set_input(X);
+		}
 	}
 
 	_output_layer->forward_pass();
@@ -249,43 +258,26 @@ void MLPPGAN::forward_pass() {
 	_y_hat = _output_layer->get_a();
 }
 
-void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
+void MLPPGAN::update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
 	_output_layer->set_weights(_output_layer->get_weights()->subn(output_layer_updation));
 	real_t output_layer_bias = _output_layer->get_bias();
 	output_layer_bias -= learning_rate * _output_layer->get_delta()->sum_elements() / _n;
 	_output_layer->set_bias(output_layer_bias);
 
-	Ref<MLPPMatrix> slice;
-	slice.instance();
+	for (int i = _network.size() - 1; i > _network.size() / 2; i--) {
+		Ref<MLPPHiddenLayer> layer = _network[i];
 
-	if (!_network.empty()) {
-		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
-
-		hidden_layer_updations->z_slice_get_into_mlpp_matrix(0, slice);
-
-		layer->set_weights(layer->get_weights()->subn(slice));
+		layer->set_weights(layer->get_weights()->subn(hidden_layer_updations[(_network.size() - 1) - i]));
 		layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
-
-		for (int i = _network.size() - 2; i > _network.size() / 2; i--) {
-			layer = _network[i];
-
-			hidden_layer_updations->z_slice_get_into_mlpp_matrix((_network.size() - 2) - i + 1, slice);
-
-			layer->set_weights(layer->get_weights()->subn(slice));
-			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
-		}
 	}
 }
 
-void MLPPGAN::update_generator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, real_t learning_rate) {
+void MLPPGAN::update_generator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, real_t learning_rate) {
 	if (!_network.empty()) {
-		Ref<MLPPMatrix> slice;
-		slice.instance();
-
 		for (int i = _network.size() / 2; i >= 0; i--) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
-			hidden_layer_updations->z_slice_get_into_mlpp_matrix((_network.size() - 2) - i + 1, slice);
+			Ref<MLPPMatrix> slice = hidden_layer_updations[(_network.size() - 2) - i + 1];
 
 			//std::cout << network[i].weights.size() << "x" << network[i].weights[0].size() << std::endl;
 			//std::cout << hidden_layer_updations[(network.size() - 2) - i + 1].size() << "x" << hidden_layer_updations[(network.size() - 2) - i + 1][0].size() << std::endl;
@@ -302,7 +294,7 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 
 	ComputeDiscriminatorGradientsResult res;
 
-	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
+	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
 
 	_output_layer->set_delta(cost_deriv->hadamard_productn(activ_deriv));
@@ -310,43 +302,36 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 	res.output_w_grad = _output_layer->get_input()->transposen()->mult_vec(_output_layer->get_delta());
 	res.output_w_grad->add(regularization.reg_deriv_termv(_output_layer->get_weights(), _output_layer->get_lambda(), _output_layer->get_alpha(), _output_layer->get_reg()));
 
-	if (!_network.empty()) {
-		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
-
-		Ref<MLPPVector> hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+	for (int i = _network.size() - 1; i > _network.size() / 2; i--) {
+		Ref<MLPPHiddenLayer> layer = _network[i];
 
-		layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
-
-		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
+		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
-		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
-		res.cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
-
-		for (int i = static_cast<int>(_network.size()) - 2; i > static_cast<int>(_network.size()) / 2; i--) {
-			layer = _network[i];
+		if (i == _network.size() - 1) {
+			layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
+		} else {
 			Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-			hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
-
 			layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(hidden_layer_activ_deriv));
+		}
 
-			hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
+		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
+		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-			res.cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad->addn(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()))); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
-		}
+		res.cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 	}
 
 	return res;
 }
 
-Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
+Vector<Ref<MLPPMatrix>> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
 	MLPPCost mlpp_cost;
 	MLPPActivation avn;
 	MLPPReg regularization;
 
-	Ref<MLPPTensor3> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
+	Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
 
-	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
+	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
 
 	_output_layer->set_delta(cost_deriv->hadamard_productn(activ_deriv));
@@ -355,38 +340,30 @@ Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_h
 
 	output_w_grad->add(regularization.reg_deriv_termv(_output_layer->get_weights(), _output_layer->get_lambda(), _output_layer->get_alpha(), _output_layer->get_reg()));
 
-	if (!_network.empty()) {
-		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
-
-		Ref<MLPPVector> hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+	for (int i = _network.size() - 1; i >= 0; i--) {
+		Ref<MLPPHiddenLayer> layer = _network[i];
 
-		layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
+		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
-		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
-		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
-
-		cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
-
-		for (int i = _network.size() - 2; i >= 0; i--) {
-			layer = _network[i];
+		if (i == _network.size() - 1) {
+			layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
+		} else {
 			Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-			hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
-
 			layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(hidden_layer_activ_deriv));
+		}
 
-			hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
-			hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
+		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
+		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-			cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
-		}
+		cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 	}
 
 	return cumulative_hidden_layer_w_grad;
 }
 
 void MLPPGAN::print_ui(int epoch, real_t cost_prev, const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
-	MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, _output_set));
+	MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, output_set));
 
 	PLOG_MSG("Layer " + itos(_network.size() + 1) + ": ");
 	MLPPUtilities::print_ui_vb(_output_layer->get_weights(), _output_layer->get_bias());
diff --git a/modules/gan/gan.h b/modules/gan/gan.h
index 63beba8..4c3b407 100644
--- a/modules/gan/gan.h
+++ b/modules/gan/gan.h
@@ -86,21 +86,20 @@ protected:
 
 	void forward_pass();
 
-	void update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate);
-	void update_generator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, real_t learning_rate);
+	void update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate);
+	void update_generator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, real_t learning_rate);
 
 	struct ComputeDiscriminatorGradientsResult {
-		Ref<MLPPTensor3> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
+		Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // ALL hidden grads, last layer first.
 		Ref<MLPPVector> output_w_grad;
 
 		ComputeDiscriminatorGradientsResult() {
-			cumulative_hidden_layer_w_grad.instance();
 			output_w_grad.instance();
 		}
 	};
 
 	ComputeDiscriminatorGradientsResult compute_discriminator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
-	Ref<MLPPTensor3> compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
+	Vector<Ref<MLPPMatrix>> compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
 
 	void print_ui(int epoch, real_t cost_prev, const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
 
-- 
2.43.0


From 75b7e05602514e87665d7a132d65f80b012b2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:03 +0000
Subject: [PATCH 267/270] fix: a WGAN dropped the penalty of its output layer,
 and with one or two layers trained the generator as the discriminator

---
 modules/wgan/wgan.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 225f046..82c851b 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -235,6 +235,7 @@ void MLPPWGAN::add_output_layer(
   _output_layer->set_cost(MLPPCost::COST_TYPE_WASSERSTEIN_LOSS);
   _output_layer->set_input(_network.write[_network.size() - 1]->get_a());
   _output_layer->set_weight_init(weight_init);
+  _output_layer->set_reg(reg);
   _output_layer->set_lambda(lambda);
   _output_layer->set_alpha(alpha);
 }
@@ -280,7 +281,11 @@ MLPPWGAN::model_set_test_discriminator(const Ref<MLPPMatrix> &X) {
       _network.write[i]->forward_pass();
     }
 
-    _output_layer->set_input(_network.write[_network.size() - 1]->get_a());
+    if (_network.size() - 1 > _network.size() / 2) {
+      _output_layer->set_input(_network.write[_network.size() - 1]->get_a());
+    } else { // The output layer is the whole discriminator.
+      _output_layer->set_input(X);
+    }
   }
 
   _output_layer->forward_pass();
@@ -347,7 +352,8 @@ void MLPPWGAN::update_discriminator_parameters(
                           learning_rate *
                               _output_layer->get_delta()->sum_elements() / n);
 
-  if (!_network.empty()) {
+  // Only if the last layer isn't a part of the generator.
+  if (_network.size() - 1 > _network.size() / 2) {
     Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
     Ref<MLPPMatrix> slice = hidden_layer_updations[0];
@@ -414,7 +420,8 @@ MLPPWGAN::compute_discriminator_gradients(const Ref<MLPPVector> &y_hat,
       _output_layer->get_weights(), _output_layer->get_lambda(),
       _output_layer->get_alpha(), _output_layer->get_reg()));
 
-  if (!_network.empty()) {
+  // Only if the last layer isn't a part of the generator.
+  if (_network.size() - 1 > _network.size() / 2) {
     Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
     layer->set_delta(_output_layer->get_delta()
-- 
2.43.0


From d12c3382e4e782890c366dab5b169eab446fc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:48 +0000
Subject: [PATCH 268/270] fix: randomize() gave every run of a program the same
 numbers (the date it mixes in is an unfinished stub returning 0, and its
 other clock starts at 0)

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b56631a..3259ae9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2695,7 +2695,7 @@ RandomPCG::RandomPCG(uint64_t p_seed, uint64_t p_inc) :
 }
 
 void RandomPCG::randomize() {
-	seed((SFWTime::date() + SFWTime::time_us()) * pcg.state + PCG_DEFAULT_INC_64);
+	seed((SFWTime::date_epoch() + SFWTime::time_us()) * pcg.state + PCG_DEFAULT_INC_64);
 }
 
 double RandomPCG::random(double p_from, double p_to) {
-- 
2.43.0


From c98138d3b54b672a287ed7c4caf7401ab023c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:48 +0000
Subject: [PATCH 269/270] fix: a sleep ended at the first signal

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3259ae9..9b0e97f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1879,7 +1879,8 @@ void SFWTime::sleep_ns(double ns) {
 		struct timespec wait = { 0 };
 		wait.tv_sec = ns / 1e9;
 		wait.tv_nsec = ns - wait.tv_sec * 1e9;
-		nanosleep(&wait, NULL);
+		while (nanosleep(&wait, &wait) == -1 && errno == EINTR) { // A signal came in, sleep for the rest.
+		}
 #endif
 	} else {
 #if defined(_WIN64) || defined(_WIN32)
-- 
2.43.0


From a77c914cab023954116521946d57fb363fe2ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:21 +0000
Subject: [PATCH 270/270] fix: bumpmap_to_normalmap left the mipmap flag set on
 an image without mipmap levels

---
 platform/image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 1a60320..12ab1c6 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2548,6 +2548,7 @@ Ref<Image> Image::rgbe_to_srgb() {
 void Image::bumpmap_to_normalmap(float bump_scale) {
 	ERR_FAIL_COND(!_can_modify(format));
 	ERR_FAIL_COND_MSG(write_lock, "Cannot modify image when it is locked.");
+	clear_mipmaps();
 	convert(Image::FORMAT_RF);
 
 	Vector<uint8_t> result_image; // rgba output
-- 
2.43.0

