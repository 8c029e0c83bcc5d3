From 89ff170ebb8074e91f7c96643e298806bed94a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 01/24] fix: compare pivot magnitudes in lu_pivot

The initial pivot candidate kept its sign, so a matrix whose pivot column
only had entries no larger than a negative diagonal element in magnitude
was reported singular (determinant 0), and small pivots were preferred.
---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From 301df36c89a15643b64ce54e5467791f093bb59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 02/24] fix: only consider unpivoted elements in inverse_pivot

The search for each pivot started from |M(0,0)| even after row and column
0 had been eliminated, so element (0,0) could be pivoted again.
---
 cml/matrix/detail/inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..44bb8bc 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -165,7 +165,7 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   for(int i = 0; i < N; ++i) {
     /* Find the pivot */
     int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    value_type pivot(-1);
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
-- 
2.43.0


From e638611cc5b28da6c2c30f2ef3eebccf1fc6abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 03/24] fix: undo row exchanges in reverse order in
 inverse_pivot

The column exchanges that undo the pivoting have to be applied in the
reverse of the order in which the rows were exchanged.
---
 cml/matrix/detail/inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 44bb8bc..05d40b9 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -210,7 +210,7 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   }
 
   /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From 3bf609b6446af4507d1156d4e53acdaccba74bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 04/24] fix: compound addition and subtraction check operand
 sizes

operator+= and operator-= resized a dynamic vector or matrix to the size
of the right operand (reading elements that did not exist before) instead
of throwing the documented incompatible size error.
---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e911a35 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -331,7 +331,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -350,7 +350,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..b5e1031 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -309,7 +309,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -330,7 +330,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From 3ffa3f907d9768741f2a8d10699ed3d90499a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 05/24] fix: compound scaling by an element of the operand
 itself

The scalar was held by reference, so v *= v[0] scaled the remaining
elements by the already modified element.
---
 cml/matrix/writable_matrix.tpp         | 6 ++++--
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 cml/vector/writable_vector.tpp         | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e911a35..6c6e119 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -372,7 +372,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s(v); /* v may refer to an element of this matrix */
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -394,7 +395,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s(v); /* v may refer to an element of this matrix */
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..4491159 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -389,7 +389,8 @@ DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s(v); /* v may refer to an element of this quaternion */
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -412,7 +413,8 @@ DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s(v); /* v may refer to an element of this quaternion */
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index b5e1031..4a68d71 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -352,8 +352,9 @@ DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
+  const ScalarT s(v); /* v may refer to an element of this vector */
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -374,8 +375,9 @@ DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
+  const ScalarT s(v); /* v may refer to an element of this vector */
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From 6f0383676c2c650cbe469cfd709025a5e2b2258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 06/24] fix: quaternion exp and log with a zero imaginary part

Both divided by the length of the imaginary part; use the limit of the
quotient when it is zero.
---
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 4491159..5883d2f 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -189,7 +189,8 @@ writable_quaternion<DT>::log() &
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto c = element_traits::acos(this->real() / lq) / lv;
+  auto c = (lv > value_type(0))
+    ? element_traits::acos(this->real() / lq) / lv : value_type(1) / lq;
   this->assign(c * v, element_traits::log(lq));
   return this->actual();
 }
@@ -218,7 +219,8 @@ writable_quaternion<DT>::exp() &
   auto v = this->imaginary();
   auto lv = v.length();
   auto x = element_traits::exp(this->real());
-  auto c = element_traits::sin(lv) / lv;
+  auto c = (lv > value_type(0))
+    ? element_traits::sin(lv) / lv : value_type(1);
   this->assign(x * c * v, x * element_traits::cos(lv));
   return this->actual();
 }
-- 
2.43.0


From 3018232e18e89b49080326485f22557724910788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 07/24] fix: initializer-list assignment to a temporary
 compiles

---
 cml/matrix/writable_matrix.tpp         | 3 ++-
 cml/quaternion/writable_quaternion.tpp | 3 ++-
 cml/vector/writable_vector.tpp         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 6c6e119..f96781e 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -323,7 +323,8 @@ template<class Other>
 DT&&
 writable_matrix<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 5883d2f..2c6edf8 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -322,7 +322,8 @@ template<class Other>
 DT&&
 writable_quaternion<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 4a68d71..2211c0b 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -300,7 +300,8 @@ template<class Other>
 DT&&
 writable_vector<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
-- 
2.43.0


From dd5d72539b1e0d9bc685e07c03ab40c3119cbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 08/24] fix: release the elements when a run-time sized matrix
 constructor throws

---
 cml/matrix/dynamic_allocated.h   | 4 +---
 cml/matrix/dynamic_allocated.tpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..cce81de 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,9 +155,7 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  : matrix()
   {
     this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..2d3d4ea 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -61,9 +61,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
-- 
2.43.0


From dc39227ad98079943ee502db4f85e18979750814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 09/24] fix: move assignment of fixed-size column-major
 matrices

---
 cml/matrix/fixed_compiled.tpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/fixed_compiled.tpp b/cml/matrix/fixed_compiled.tpp
index a6ff21a..68ca771 100644
--- a/cml/matrix/fixed_compiled.tpp
+++ b/cml/matrix/fixed_compiled.tpp
@@ -87,10 +87,9 @@ template<class E, int R, int C, typename BO, typename L>
 auto
 matrix<E, fixed<R, C>, BO, L>::operator=(matrix_type&& other) -> matrix_type&
 {
-  for(int i = 0; i < R; ++i)
-    for(int j = 0; j < C; ++j)
-      this->m_data[i][j] = std::move(other.m_data[i][j]);
-  /* Note: the layout doesn't matter here. */
+  /* Note: the layout doesn't matter when moving in storage order. */
+  pointer dst = this->data(), src = other.data();
+  for(int i = 0; i < R * C; ++i) dst[i] = std::move(src[i]);
   return *this;
 }
 
-- 
2.43.0


From dc5f0996567e2638e5b399e9f95ae74d665c33c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 10/24] fix: assigning a two-dimensional array to a temporary
 matrix

The rvalue overload of operator=(Other const(&)[Rows][Cols]) returned an
lvalue reference from an rvalue cast, so every use failed to compile.
---
 cml/matrix/writable_matrix.h   | 2 +-
 cml/matrix/writable_matrix.tpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/writable_matrix.h b/cml/matrix/writable_matrix.h
index 631dc77..b674066 100644
--- a/cml/matrix/writable_matrix.h
+++ b/cml/matrix/writable_matrix.h
@@ -225,7 +225,7 @@ class writable_matrix : public readable_matrix<DerivedT>
    * are fixed-size, then the size is checked at compile time.
    */
   template<class Other, int Rows, int Cols>
-  DerivedT& operator=(Other const (&array)[Rows][Cols]) &&;
+  DerivedT&& operator=(Other const (&array)[Rows][Cols]) &&;
 
   /** Assign from initializer list.
    *
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index f96781e..78992ef 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -303,7 +303,7 @@ writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &
 
 template<class DT>
 template<class Other, int Rows, int Cols>
-DT&
+DT&&
 writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &&
 {
   this->operator=(array);
-- 
2.43.0


From 2bbfc4f8583d678adb0ad1ad54ec4f06bf4cb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 11/24] fix: products over a dynamic inner size of zero read a
 missing element

matrix(2,0) * vector(0), vector(0) * matrix(0,2) and matrix(2,0) *
matrix(0,3) read element 0 of an empty operand (a null pointer) before
the summation loop.  Start the sum at zero instead.
---
 cml/matrix/matrix_product.tpp |  5 +++--
 cml/matrix/vector_product.tpp | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/matrix_product.tpp b/cml/matrix/matrix_product.tpp
index 959737b..9cb9795 100644
--- a/cml/matrix/matrix_product.tpp
+++ b/cml/matrix/matrix_product.tpp
@@ -27,8 +27,9 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   detail::resize(M, array_rows_of(sub1), array_cols_of(sub2));
   for(int i = 0; i < M.rows(); ++i) {
     for(int j = 0; j < M.cols(); ++j) {
-      auto m = sub1(i, 0) * sub2(0, j);
-      for(int k = 1; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
+      /* The sum is zero if the (dynamic) inner size is zero: */
+      auto m = decltype(sub1(i, 0) * sub2(0, j))(0);
+      for(int k = 0; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
       M(i, j) = m;
     }
   }
diff --git a/cml/matrix/vector_product.tpp b/cml/matrix/vector_product.tpp
index e62e96f..ed8d68d 100644
--- a/cml/matrix/vector_product.tpp
+++ b/cml/matrix/vector_product.tpp
@@ -27,8 +27,9 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_rows_of(sub1));
   for(int i = 0; i < sub1.rows(); ++i) {
-    auto m = sub1(i, 0) * sub2[0];
-    for(int k = 1; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
+    /* The sum is zero if the (dynamic) inner size is zero: */
+    auto m = decltype(sub1(i, 0) * sub2[0])(0);
+    for(int k = 0; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
     v[i] = m;
   }
   return v;
@@ -50,8 +51,9 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_cols_of(sub2));
   for(int j = 0; j < sub2.cols(); ++j) {
-    auto m = sub1[0] * sub2(0, j);
-    for(int k = 1; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
+    /* The sum is zero if the (dynamic) inner size is zero: */
+    auto m = decltype(sub1[0] * sub2(0, j))(0);
+    for(int k = 0; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
     v[j] = m;
   }
   return v;
-- 
2.43.0


From d375b4738480c4e02e23c771dce6e7421308a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 12/24] fix: the transpose of a rectangular fixed-size matrix
 kept the untransposed storage size

matrix_transpose_node's storage_type was that of its operand, so products
with the transpose of a non-square matrix made a result of the wrong size
and wrote beyond it, e.g. vector<2> * transpose(matrix<3,2>).
---
 cml/matrix/transpose_node.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..edbfc52 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <cml/scalar/traits.h>
+#include <cml/storage/resize.h>
+#include <cml/storage/type_util.h>
 #include <cml/matrix/readable_matrix.h>
 
 namespace cml {
@@ -21,7 +23,12 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
+
+  /* Swap the array sizes of the subexpression's storage: */
+  using sub_storage_type = typename sub_traits::storage_type;
+  using reshaped_type = reshape_storage_t<sub_storage_type,
+    sub_traits::array_cols, sub_traits::array_rows>;
+  using storage_type = rebind_matrix_storage_t<reshaped_type>;
   using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
-- 
2.43.0


From ca0d43fd0ca17632da187ac5f5fc973c58dcfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 13/24] fix: lu_solve accumulates in the promoted element type

---
 cml/matrix/lu.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/lu.tpp b/cml/matrix/lu.tpp
index 108d358..0873baf 100644
--- a/cml/matrix/lu.tpp
+++ b/cml/matrix/lu.tpp
@@ -6,6 +6,7 @@
 #  error "matrix/lu.tpp not included correctly"
 #endif
 
+#include <cml/scalar/promotion.h>
 #include <cml/vector/writable_vector.h>
 #include <cml/matrix/size_checking.h>
 #include <cml/matrix/detail/lu.h>
@@ -56,7 +57,7 @@ inline void
 lu_solve(const readable_matrix<LUSub>& LU, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_promote_t<LUSub, XSub, BSub>;
 
   cml::check_square(LU);
   cml::check_same_inner_size(LU, x);
@@ -104,7 +105,7 @@ inline void
 lu_solve(const lu_pivot_result<Matrix>& lup, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_promote_t<Matrix, XSub, BSub>;
 
   cml::check_same_inner_size(lup.lu, x);
   cml::check_same_inner_size(lup.lu, b);
-- 
2.43.0


From 071f8bec19d186a103ad45d0a32867fa0498e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 14/24] fix: quaternion products of different operand types
 compile

---
 cml/quaternion/product.tpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cml/quaternion/product.tpp b/cml/quaternion/product.tpp
index b7a5c75..8ab8814 100644
--- a/cml/quaternion/product.tpp
+++ b/cml/quaternion/product.tpp
@@ -24,6 +24,7 @@ operator*(Sub1&& sub1,
     actual_operand_type_of_t<decltype(sub2)>>;
   using order_type = order_type_trait_of_t<result_type>;
   using cross_type = cross_type_trait_of_t<result_type>;
+  using value_type = value_type_trait_of_t<result_type>;
 
   /* Local enum for the order: */
   enum
@@ -42,11 +43,11 @@ operator*(Sub1&& sub1,
    * {+/-} is determined by cross_type:
    */
   auto real = sub1[W] * sub2[W] - cml::dot(sub1.imaginary(), sub2.imaginary());
-  auto cross = std::is_same<cross_type, positive_cross>::value
-    ? cml::cross(sub1.imaginary(), sub2.imaginary())
-    : cml::cross(sub2.imaginary(), sub1.imaginary());
+  const value_type sign(
+    std::is_same<cross_type, positive_cross>::value ? 1 : -1);
+  auto cross = cml::cross(sub1.imaginary(), sub2.imaginary());
   auto imaginary =
-    sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + cross;
+    sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + sign * cross;
 
   /* Done: */
   return result_type(real, imaginary);
-- 
2.43.0


From 12abcfdc27c7b35309c14a0437bbe550b4701bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 15/24] fix: euler derivatives of odd orders have the right
 sign

---
 cml/mathlib/matrix/rotation.tpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..8b16aa1 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,14 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* The chain rule for the negated angles: */
+  if(odd) {
+    for(int row = 0; row < 3; ++row) {
+      for(int col = 0; col < 3; ++col)
+        m.set_basis_element(row, col, -m.basis_element(row, col));
+    }
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From 1db983be3775721d1a0a5f104be01701e760e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 16/24] fix: matrix_to_euler keeps the precision of the third
 angle for repeating orders

---
 cml/mathlib/matrix/rotation.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 8b16aa1..dd48280 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -536,7 +536,7 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
       angle_0 =
         E0(value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i)));
       angle_2 =
-        E0(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
+        E2(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
     } else {
       angle_0 = E0(0);
       angle_2 = E2(cml::sign(c1)
-- 
2.43.0


From 62222c0522a02cdf6280bb8fe88236001c5cf0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 17/24] fix: matrix_to_euler is stable near the degenerate
 middle angle

---
 cml/mathlib/matrix/rotation.tpp | 45 ++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index dd48280..d40c11e 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -526,37 +526,42 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
   bool odd, repeat;
   cml::unpack_euler_order(order, i, j, k, odd, repeat);
 
+  /* Note: angle_2 is computed relative to the rotation by angle_0, so that the
+   * two angles remain consistent near the degenerate angle_1, where only
+   * their combination is well-defined.
+   */
+
   /* Detect repeated indices: */
   if(repeat) {
     auto s1 = cml::length(m.basis_element(j, i), m.basis_element(k, i));
     auto c1 = m.basis_element(i, i);
-
-    angle_1 = E1(value_traits::atan2(s1, c1));
+    auto a0 = value_type(0);
     if(s1 > tolerance) {
-      angle_0 =
-        E0(value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i)));
-      angle_2 =
-        E2(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
-    } else {
-      angle_0 = E0(0);
-      angle_2 = E2(cml::sign(c1)
-        * value_traits::atan2(-m.basis_element(k, j), m.basis_element(j, j)));
+      a0 = value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i));
     }
+    auto s0 = value_traits::sin(a0);
+    auto c0 = value_traits::cos(a0);
+
+    angle_0 = E0(a0);
+    angle_1 = E1(value_traits::atan2(s1, c1));
+    angle_2 = E2(value_traits::atan2(
+      c0 * m.basis_element(j, k) - s0 * m.basis_element(k, k),
+      c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
   } else {
     auto s1 = -m.basis_element(i, k);
     auto c1 = cml::length(m.basis_element(i, i), m.basis_element(i, j));
-
-    angle_1 = E1(value_traits::atan2(s1, c1));
+    auto a0 = value_type(0);
     if(c1 > tolerance) {
-      angle_0 =
-        E0(value_traits::atan2(m.basis_element(j, k), m.basis_element(k, k)));
-      angle_2 =
-        E2(value_traits::atan2(m.basis_element(i, j), m.basis_element(i, i)));
-    } else {
-      angle_0 = E0(0);
-      angle_2 = -E2(cml::sign(s1)
-        * value_traits::atan2(-m.basis_element(k, j), m.basis_element(j, j)));
+      a0 = value_traits::atan2(m.basis_element(j, k), m.basis_element(k, k));
     }
+    auto s0 = value_traits::sin(a0);
+    auto c0 = value_traits::cos(a0);
+
+    angle_0 = E0(a0);
+    angle_1 = E1(value_traits::atan2(s1, c1));
+    angle_2 = E2(value_traits::atan2(
+      s0 * m.basis_element(k, i) - c0 * m.basis_element(j, i),
+      c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
   }
 
   if(odd) {
-- 
2.43.0


From e1bcedca300d367eb3f5d2cd1368ede5b6c43830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 18/24] fix: matrix_to_axis_angle is stable near half turns

---
 cml/mathlib/matrix/rotation.tpp | 55 +++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index d40c11e..ebee36d 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -440,39 +440,46 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
   auto l = axis.length();
   auto tmo = trace_3x3(m) - value_type(1);
 
-  /* Normalize and compute the angle directly if possible: */
-  if(l > tolerance) {
-    axis /= l;
-    angle = E(value_traits::atan2(l, tmo));
-    /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
-  }
+  /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
 
-  /* Near-zero axis: */
-  else if(tmo > value_type(0))
-  {
-    axis.zero();
-    angle = E(0);
-  }
-
-  /* Reflection: */
-  else
-  {
+  /* Beyond a quarter turn, the difference of the off-diagonal elements
+   * vanishes towards a half turn, so compute the axis from the symmetric part
+   * of the matrix:
+   */
+  if(tmo < value_type(0)) {
     auto largest_diagonal_element = cml::index_of_max(m.basis_element(0, 0),
       m.basis_element(1, 1), m.basis_element(2, 2));
 
     int i, j, k;
     cyclic_permutation(largest_diagonal_element, i, j, k);
 
-    axis[i] = asub_type(
-      value_traits::sqrt(m.basis_element(i, i) - m.basis_element(j, j)
-        - m.basis_element(k, k) + value_type(1))
-      / value_type(2));
+    using real_type = decltype(l * tmo);
+    auto tomc = real_type(2) - tmo; /* 2*(1-cos(theta)) */
+    auto a = scalar_traits<real_type>::sqrt(
+      (m.basis_element(i, i) - m.basis_element(j, j) - m.basis_element(k, k)
+        + value_type(1))
+      / tomc);
+    if(axis[i] < asub_type(0)) a = -a;
+
+    auto s = real_type(1) / (tomc * a);
+    axis[i] = asub_type(a);
+    axis[j] = asub_type((m.basis_element(i, j) + m.basis_element(j, i)) * s);
+    axis[k] = asub_type((m.basis_element(i, k) + m.basis_element(k, i)) * s);
+    angle = E(value_traits::atan2(l, tmo));
+  }
 
-    auto s = value_type(1) / (value_type(2) * axis[i]);
-    axis[j] = asub_type(m.basis_element(i, j) * s);
-    axis[k] = asub_type(m.basis_element(i, k) * s);
+  /* Normalize and compute the angle directly if possible: */
+  else if(l > tolerance)
+  {
+    axis /= l;
+    angle = E(value_traits::atan2(l, tmo));
+  }
 
-    angle = constants<E>::pi();
+  /* Near-zero axis: */
+  else
+  {
+    axis.zero();
+    angle = E(0);
   }
 
   /* Done. */
-- 
2.43.0


From d8f395daff9a4aba8d8593e530b02273a0730bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 19/24] fix: matrix_skew_symmetric of a vector links

The 2D version was declared under the name of the 3D one, so that the
undefined declaration was preferred for every vector argument.
---
 cml/mathlib/matrix/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index 1350533..da46f82 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
-- 
2.43.0


From f1a5e5d98ec1ac3a54b9549c110931890773197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 20/24] fix: inverse scales given as integers

The reciprocal was taken in the type of the scale, so that integer scales
other than one gave a zero matrix element.
---
 cml/mathlib/matrix/scale.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..5b69e78 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -46,7 +46,8 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
-  matrix_scale_2D(m, E0(1) / e0, E1(1) / e1);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale_2D(m, value_type(1) / e0, value_type(1) / e1);
 }
 
 template<class Sub1, class Sub2>
@@ -95,7 +96,8 @@ inline void
 matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
-  matrix_scale(m, E0(1) / e0, E1(1) / e1, E2(1) / e2);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale(m, value_type(1) / e0, value_type(1) / e1, value_type(1) / e2);
 }
 
 template<class Sub1, class Sub2>
-- 
2.43.0


From 6a16610dc6da440e9e35beb3b8ac99703ba74f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 21/24] fix: projection matrices with integer extents

The reciprocals of the extents were taken in the type of the extents, so
that integer extents gave a zero matrix (and halved odd widths).
---
 cml/mathlib/matrix/projection.tpp | 52 ++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/cml/mathlib/matrix/projection.tpp b/cml/mathlib/matrix/projection.tpp
index c191d60..35b6280 100644
--- a/cml/mathlib/matrix/projection.tpp
+++ b/cml/mathlib/matrix/projection.tpp
@@ -31,9 +31,10 @@ matrix_orthographic(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
+  using value_type = value_type_trait_promote_t<Sub, E>;
+  auto inv_width = value_type(1) / (right - left);
+  auto inv_height = value_type(1) / (top - bottom);
+  auto inv_depth = value_type(1) / (f - n);
   auto s = E(handedness == left_handed ? 1 : -1);
 
   if(z_clip == z_clip_neg_one) {
@@ -71,10 +72,11 @@ inline void
 matrix_orthographic(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_orthographic(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using value_type = value_type_trait_promote_t<Sub, E>;
+  auto half_width = width / value_type(2);
+  auto half_height = height / value_type(2);
+  matrix_orthographic(m, -half_width, half_width, -half_height, half_height,
+    value_type(n), value_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -108,15 +110,16 @@ matrix_perspective(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
+  using value_type = value_type_trait_promote_t<Sub, E>;
+  auto inv_width = value_type(1) / (right - left);
+  auto inv_height = value_type(1) / (top - bottom);
+  auto inv_depth = value_type(1) / (f - n);
   auto near2 = E(2) * n;
   auto s = E(handedness == left_handed ? 1 : -1);
 
   if(z_clip == z_clip_neg_one) {
     m.set_basis_element(2, 2, s * (f + n) * inv_depth);
-    m.set_basis_element(3, 2, -E(2) * f * n * inv_depth);
+    m.set_basis_element(3, 2, -value_type(2) * f * n * inv_depth);
   } else {  // z_clip == z_clip_zero
     m.set_basis_element(2, 2, s * f * inv_depth);
     m.set_basis_element(3, 2, -s * n * m.basis_element(2, 2));
@@ -151,10 +154,11 @@ inline void
 matrix_perspective(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_perspective(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using value_type = value_type_trait_promote_t<Sub, E>;
+  auto half_width = width / value_type(2);
+  auto half_height = height / value_type(2);
+  matrix_perspective(m, -half_width, half_width, -half_height, half_height,
+    value_type(n), value_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -178,11 +182,13 @@ inline void
 matrix_perspective_xfov(writable_matrix<Sub>& m, E xfov, E aspect, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  using E_traits = scalar_traits<E>;
+  using value_type = value_type_trait_promote_t<Sub, E>;
+  using value_traits = scalar_traits<value_type>;
 
-  /* Compute the view height from the field of view: */
-  auto width = E(2) * n * E_traits::tan(xfov / E(2));
-  matrix_perspective(m, width, width / aspect, n, f, handedness, z_clip);
+  /* Compute the view width from the field of view: */
+  auto width = value_type(2) * n * value_traits::tan(xfov / value_type(2));
+  matrix_perspective(m, width, width / aspect, value_type(n),
+    value_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -206,11 +212,13 @@ inline void
 matrix_perspective_yfov(writable_matrix<Sub>& m, E yfov, E aspect, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  using E_traits = scalar_traits<E>;
+  using value_type = value_type_trait_promote_t<Sub, E>;
+  using value_traits = scalar_traits<value_type>;
 
   /* Compute the view height from the field of view: */
-  auto height = E(2) * n * E_traits::tan(yfov / E(2));
-  matrix_perspective(m, height * aspect, height, n, f, handedness, z_clip);
+  auto height = value_type(2) * n * value_traits::tan(yfov / value_type(2));
+  matrix_perspective(m, height * aspect, height, value_type(n),
+    value_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
-- 
2.43.0


From 3a5887c0516506fc9d68ac59937b2ebed812821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 22/24] fix: random unit vector in a cone when the draw is
 along the direction

---
 cml/mathlib/random_unit.tpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index c2f325f..9b28353 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -68,11 +68,18 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   using O_traits = scalar_traits<O_type>;
   using Oa_traits = scalar_traits<decltype(O - a)>;
 
+  /* If n is already along d, there is no plane to slerp in: */
+  auto sin_O = O_traits::sin(O);
+  if(!(sin_O > O_type(0))) {
+    n = d;
+    return;
+  }
+
   /* Use slerp between d (t=0) and n (t=1) to find the unit vector n_a
    * (t=a/O) lying on the cone between d and n:
    */
   auto n_a =
-    (Oa_traits::sin(O - a) * d + a_traits::sin(a) * n) / O_traits::sin(O);
+    (Oa_traits::sin(O - a) * d + a_traits::sin(a) * n) / sin_O;
   /* Note: n_a is normalized by dividing by sin(O). */
 
   /* Use a second slerp to "scale" the cone with half-angle O to the cone
-- 
2.43.0


From b32aef572ab74d92039cdf6af16ed1150033801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 23/24] fix: stream output of an empty vector

---
 cml/util/vector_print.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..e02c244 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,8 +15,10 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
-  for(int i = 1; i < v.size(); ++i) os << " " << v[i];
+  for(int i = 0; i < v.size(); ++i) {
+    if(i != 0) os << " ";
+    os << v[i];
+  }
   return os;
 }
 
-- 
2.43.0


From 3a6057a77147be1bb10e253eeb92a6f03ab6edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 24/24] fix: check the matrix size before overwriting it in
 matrix_translation and matrix_rotation_align

matrix_translation(), matrix_translation_2D() and matrix_rotation_align()
called m.identity() before the check that rejects a matrix of the wrong
run-time size, so a rejected matrix had already been overwritten.  The
other generators check first.
---
 cml/mathlib/matrix/rotation.tpp    | 1 +
 cml/mathlib/matrix/translation.tpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index ebee36d..03076d8 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -396,6 +396,7 @@ matrix_rotation_align(writable_matrix<Sub>& m,
 
   using value_type = value_type_trait_of_t<Sub>;
 
+  cml::check_linear_3D(m);
   m.identity();
 
   vector<value_type, compiled<3>> x, y, z;
diff --git a/cml/mathlib/matrix/translation.tpp b/cml/mathlib/matrix/translation.tpp
index c0a6dad..cbddd8a 100644
--- a/cml/mathlib/matrix/translation.tpp
+++ b/cml/mathlib/matrix/translation.tpp
@@ -96,6 +96,7 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
+  cml::check_affine_2D(m);
   m.identity();
   matrix_set_translation_2D(m, e0, e1);
 }
@@ -104,6 +105,7 @@ template<class Sub1, class Sub2>
 inline void
 matrix_translation_2D(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 {
+  cml::check_affine_2D(m);
   m.identity();
   matrix_set_translation_2D(m, v);
 }
@@ -172,6 +174,7 @@ inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, e0, e1, e2);
 }
@@ -180,6 +183,7 @@ template<class Sub1, class Sub2>
 inline void
 matrix_translation(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, v);
 }
@@ -188,6 +192,7 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, e0, e1);
 }
-- 
2.43.0

