From d901d64333ab3b98df583166a50ecf38b8d94eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 01/41] fix: match sizes in block product of a diagonal with a
 triangular block

GemmT<Diag, TriL> and GemmT<Diag, TriU> multiplied the whole diagonal of the
left operand with a part of a column of the right operand.
---
 include/proxsuite-nlp/linalg/gemmt.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..c7ed72a 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,8 +41,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).head(j + 1));
+      dst.col(j).head(j + 1) +=
+          alpha * lhs.diagonal().head(j + 1).cwiseProduct(
+                      rhs.transpose().col(j).head(j + 1));
     }
   }
 };
@@ -59,8 +60,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).tail(m - j));
+      dst.col(j).tail(m - j) +=
+          alpha * lhs.diagonal().tail(m - j).cwiseProduct(
+                      rhs.transpose().col(j).tail(m - j));
     }
   }
 };
-- 
2.43.0


From d2ad681e1c66b8773f0c3e942c03efc870b03e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 02/41] fix: scale-invariant inertia of Bunch-Kaufman 2x2
 pivots

The determinant of a 2x2 pivot block (stored inverted) was compared to machine
epsilon in absolute terms, so matrices with large entries got zero eigenvalues.
---
 include/proxsuite-nlp/ldlt-allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..44d8eea 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -157,7 +157,9 @@ void bunch_kaufman_compute_signature(
       Real tr = ak + akp1;
       Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
 
-      if (std::abs(det) <= std::numeric_limits<Scalar>::epsilon()) {
+      // the determinant scales with the square of the entries
+      Real det_scale = Eigen::numext::abs2(akp1k) + std::abs(ak * akp1);
+      if (std::abs(det) <= std::numeric_limits<Real>::epsilon() * det_scale) {
         signature[k] = 0;
         signature[k + 1] = int(math::sign(tr));
       } else if (det > Scalar(0)) {
-- 
2.43.0


From c0b7f31b64e46a9e40f9cf691b145762a349528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 03/41] fix: report the sign of the matrix which was last
 factorised

The LDLT sign was carried over from one call of compute() to the next,
overwritten by 1x1 blocks, and a trailing 1x1 block was ignored.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  3 +++
 include/proxsuite-nlp/linalg/dense.hpp      | 11 +++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..960ab26 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -32,6 +32,8 @@ template <typename Scalar> struct block_impl {
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
     if ((nblocks == 0) || (n <= 1)) {
+      if (n == 1)
+        update_sign_matrix(sign, mat(0, 0));
       return true;
     }
 
@@ -310,6 +312,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..d2118cc 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -47,14 +47,8 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
   if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+    if (n == 1)
+      update_sign_matrix(sign, a(0, 0));
     return true;
   }
 
@@ -181,6 +175,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
-- 
2.43.0


From 79585089d7a90f194c54d7d6d73eab76654a4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 04/41] fix: symbolic symmetry check has to transpose the
 mirrored block

---
 src/block-kind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index fa072e7..5043da7 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -108,7 +108,7 @@ bool SymbolicBlockMatrix::check_if_symmetric() const noexcept {
   const auto &self = *this;
   for (isize i = 0; i < n; ++i) {
     for (isize j = 0; j < i; j++) {
-      if (self(i, j) != self(j, i)) {
+      if (self(i, j) != linalg::trans(self(j, i))) {
         return false;
       }
     }
-- 
2.43.0


From a4286df694c79269790b34b6011045d0daef6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 05/41] fix: deep-copy assignment and repeated permutation
 choice for BlockLDLT

The implicit copy assignment copied raw owning pointers (double free). Choosing
the block permutation a second time took the permuted and factorised structure
for that of the input matrix, giving wrong factorisations; the input structure is
now kept. analyzePattern() also leaked the previous transposed structure.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 26 ++++++++++++++++++++-
 include/proxsuite-nlp/linalg/block-ldlt.hxx | 10 ++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 960ab26..eb9d4d9 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -214,6 +214,8 @@ protected:
   MatrixXs m_matrix;
   SymbolicBlockMatrix m_structure;
   SymbolicBlockMatrix m_struct_tr;
+  /// Structure of the input matrix: not permuted, not factorised.
+  SymbolicBlockMatrix m_structure_in;
   PermutationType m_permutation;
   using Base::m_info;
   using Base::m_sign;
@@ -234,19 +236,39 @@ public:
     std::iota(m_perm.begin(), m_perm.end(), isize(0));
     m_permutation.setIdentity();
     m_struct_tr = m_structure.transpose();
+    m_structure_in = m_structure.copy();
   }
 
   BlockLDLT(BlockLDLT const &other)
-      : BlockLDLT(other.m_matrix.rows(), other.m_structure) {
+      : BlockLDLT(other.m_matrix.rows(), other.m_structure_in) {
+    symbolic_deep_copy(other.m_structure, m_structure);
+    symbolic_deep_copy(other.m_struct_tr, m_struct_tr);
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
+    m_sign = other.m_sign;
     m_perm = other.m_perm;
     m_perm_inv = other.m_perm_inv;
     m_iwork = other.m_iwork;
     m_start_idx = other.m_start_idx;
   }
 
+  BlockLDLT &operator=(BlockLDLT const &other) {
+    BlockLDLT tmp(other);
+    std::swap(m_matrix, tmp.m_matrix);
+    std::swap(m_structure, tmp.m_structure);
+    std::swap(m_struct_tr, tmp.m_struct_tr);
+    std::swap(m_structure_in, tmp.m_structure_in);
+    std::swap(m_permutation, tmp.m_permutation);
+    std::swap(m_info, tmp.m_info);
+    std::swap(m_sign, tmp.m_sign);
+    std::swap(m_perm, tmp.m_perm);
+    std::swap(m_perm_inv, tmp.m_perm_inv);
+    std::swap(m_iwork, tmp.m_iwork);
+    std::swap(m_start_idx, tmp.m_start_idx);
+    return *this;
+  }
+
   /// Compute indices indicating where blocks start
   void computeStartIndices(const SymbolicBlockMatrix &in) {
     m_start_idx[0] = 0;
@@ -260,6 +282,8 @@ public:
     delete[] m_structure.segment_lens;
     delete[] m_struct_tr.m_data;
     delete[] m_struct_tr.segment_lens;
+    delete[] m_structure_in.m_data;
+    delete[] m_structure_in.segment_lens;
     m_structure.m_data = nullptr;
     m_structure.segment_lens = nullptr;
   }
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..8eba359 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -12,11 +12,10 @@ namespace linalg {
 
 template <typename Scalar>
 void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const SymbolicBlockMatrix &in = m_structure_in;
   const isize n = m_structure.nsegments();
   if (new_perm != nullptr)
     std::copy_n(new_perm, n, m_perm.data());
-  m_structure.performed_llt = false;
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern(); // call manually
   updateBlockPermutationMatrix(in);
@@ -24,7 +23,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
 
 template <typename Scalar>
 BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const SymbolicBlockMatrix &in = m_structure_in;
   m_structure.brute_force_best_permutation(in, m_perm.data(), m_iwork.data());
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
@@ -36,7 +35,10 @@ template <typename Scalar> bool BlockLDLT<Scalar>::analyzePattern() {
   if (m_structure.performed_llt)
     return true;
   bool flag = m_structure.llt_in_place();
-  m_struct_tr = m_structure.transpose();
+  SymbolicBlockMatrix tr = m_structure.transpose();
+  std::swap(m_struct_tr, tr);
+  delete[] tr.m_data;
+  delete[] tr.segment_lens;
   return flag;
 }
 
-- 
2.43.0


From e3972969d0d8e74b6fdac17c5553c98053e9375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 06/41] fix: propagate the proximal parameter to the components
 of a product set

The proximal operators of the components (e.g. the l1 penalty) kept a parameter
of zero, so that the product was not the product of the proximal operators.
---
 include/proxsuite-nlp/constraint-set.hpp                   | 2 +-
 .../modelling/constraints/constraint-set-product.hpp       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..12fc5b8 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -105,6 +105,13 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
     }
   }
 
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (std::size_t i = 0; i < m_components.size(); i++) {
+      m_components[i]->setProxParameter(mu);
+    }
+  }
+
   const std::vector<xyz::polymorphic<Base>> &components() const {
     return m_components;
   }
-- 
2.43.0


From ad33ca2bc4be273272deee001a7bb363e89c6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 07/41] fix: interpolate the velocity part of tangent bundle
 elements

---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..8420939 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -84,8 +84,8 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
                                               VectorRef out) const {
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
-  out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+  const int nv_ = base_.ndx();
+  out.tail(nv_) = (Scalar(1.) - u) * x0.tail(nv_) + u * x1.tail(nv_);
 }
 
 } // namespace nlp
-- 
2.43.0


From 8f37fe7cfa50322e0ad83f17645c7cac51599b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 08/41] fix: an element of a product is normalized only if all
 its parts are

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From 0236b883e2c46e681b8547d7b65507230c77b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 09/41] fix: component order and nesting of products of
 manifolds

---
 .../proxsuite-nlp/modelling/spaces/cartesian-product.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..1fec339 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -139,13 +139,16 @@ auto operator*(const CartesianProductTpl<T> &left,
 template <typename T>
 auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
                const CartesianProductTpl<T> &right) {
-  return right * left;
+  CartesianProductTpl<T> out;
+  out.addComponent(left);
+  out.addComponent(right);
+  return out;
 }
 
 template <typename T>
 auto operator*(const CartesianProductTpl<T> &left,
                const CartesianProductTpl<T> &right) {
-  CartesianProductTpl<T> out{left};
+  CartesianProductTpl<T> out(left);
   out.addComponent(right);
   return out;
 }
-- 
2.43.0


From 7c8779e26c0a20e3c11b1c88d64d6daa3cd7573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 10/41] fix: adding the components of a product to itself

---
 .../proxsuite-nlp/modelling/spaces/cartesian-product.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 1fec339..edb77c1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -35,8 +35,10 @@ public:
   }
 
   inline void addComponent(const CartesianProductTpl &other) {
-    for (const auto &c : other.m_components) {
-      this->addComponent(c);
+    // by index: other might be *this
+    const std::size_t n = other.numComponents();
+    for (std::size_t i = 0; i < n; i++) {
+      this->addComponent(other.m_components[i]);
     }
   }
 
-- 
2.43.0


From b4c6d908bad6c40a0668713c0a87d46ab1b076cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 11/41] fix: evaluate the residual at the given point in
 derivatives of a quadratic cost

---
 .../proxsuite-nlp/modelling/costs/quadratic-residual.hxx   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..1ec783f 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,7 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,10 +48,10 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
-  tmp_w_err.noalias() = weights_ * err;
-  tmp_w_err += slope_;
-
   if (!gauss_newton_) {
+    err = (*residual_)(x);
+    tmp_w_err.noalias() = weights_ * err;
+    tmp_w_err += slope_;
     residual_->vectorHessianProduct(x, tmp_w_err, H);
     out = H;
   } else {
-- 
2.43.0


From cb402c624a6c5f6c50a71bcdb6f04425d2fefeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 12/41] fix: adding a sum of costs to itself

---
 include/proxsuite-nlp/cost-sum.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/cost-sum.hpp b/include/proxsuite-nlp/cost-sum.hpp
index c0e5d7c..2c82e0e 100644
--- a/include/proxsuite-nlp/cost-sum.hpp
+++ b/include/proxsuite-nlp/cost-sum.hpp
@@ -67,10 +67,14 @@ public:
   }
 
   CostSumTpl<Scalar> &operator+=(const CostSumTpl<Scalar> &other) {
-    components_.insert(components_.end(), other.components_.begin(),
-                       other.components_.end());
-    weights_.insert(weights_.end(), other.weights_.begin(),
-                    other.weights_.end());
+    // by index: other might be *this
+    const std::size_t n = other.numComponents();
+    components_.reserve(components_.size() + n);
+    weights_.reserve(weights_.size() + n);
+    for (std::size_t i = 0; i < n; i++) {
+      components_.push_back(other.components_[i]);
+      weights_.push_back(other.weights_[i]);
+    }
     return *this;
   }
 
-- 
2.43.0


From d45ed6fa864f6966301d8661693f9451f4d34b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 13/41] fix: pair samples with their abscissae in cubic
 interpolation

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..21a1b37 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -187,8 +187,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From a3f73fe4d0a0b16514cc8ed67db5375d5ef2d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 14/41] fix: Armijo line search returns a step which was
 evaluated, with its value

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 21a1b37..c30213f 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -71,11 +71,10 @@ public:
         latest = FunctionSample(alpha_try, phi(alpha_try));
         break;
       } catch (const std::runtime_error &e) {
-        alpha_try *= 0.5;
         if (alpha_try <= options_.alpha_min) {
-          alpha_try = options_.alpha_min;
-          break;
+          throw; // not even the smallest step can be evaluated
         }
+        alpha_try = std::max(0.5 * alpha_try, options_.alpha_min);
       }
     }
 
@@ -86,11 +85,12 @@ public:
     for (std::size_t i = 0; i < options_.max_num_steps; i++) {
 
       const Scalar dM = latest.phi - phi0;
-      if (dM <= options_.armijo_c1 * alpha_try * dphi0) {
+      if (dM <= options_.armijo_c1 * latest.alpha * dphi0) {
         break;
       }
 
       // compute next alpha try
+      const Scalar alpha_prev = alpha_try;
       LSInterpolation strat = options_.interp_type;
       if (strat == LSInterpolation::BISECTION) {
         alpha_try *= 0.5;
@@ -126,23 +126,24 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * alpha_prev;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
+        const FunctionSample next(alpha_try, phi(alpha_try));
         previous = latest;
-        latest = FunctionSample(alpha_try, phi(alpha_try));
+        latest = next;
       } catch (const std::runtime_error &e) {
-        continue;
+        // keep the last valid sample
       }
 
       if (alpha_try <= options_.alpha_min) {
         break;
       }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
+    // the step which goes with the returned value
+    alpha_try = latest.alpha;
     return latest.phi;
   }
 
-- 
2.43.0


From cdc433d9a6097d2b033cc5816882c037bfbad93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 15/41] fix: polymorphic built from an initializer list holds
 the requested type

---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index ef397bc..0147f7b 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -228,7 +228,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From a1995072c81183882f7bcbc13a3f2325977212b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 16/41] fix: moving a polymorphic takes over storage only from
 an equal allocator

---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index 0147f7b..bf92e67 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -324,7 +324,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From c7df5cc99fb74e8eb0e24754b11d143722298afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 17/41] fix: return the multipliers for which convergence was
 established

---
 include/proxsuite-nlp/prox-solver.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..dbbdc84 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -91,6 +91,13 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      // return the multipliers for which the residuals were evaluated
+      workspace.data_lams_prev = results.data_lams_opt;
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
+
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -98,10 +105,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From fe49fb472b22e263d28285e82436d14ed7e23a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 18/41] fix: check the KKT matrix for NaN once it is assembled

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index dbbdc84..bb15841 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -351,7 +351,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -393,6 +392,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0


From 9e3d423aa7cff0ac985e29d2890356b9d90d539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 19/41] fix: start the proximal iterations from the initial
 guess

---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index bb15841..6003a8d 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(workspace.x_prev);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From a33d42c8863b8f52721bea3856b5a0c785fb7039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 20/41] fix: recording a history without line-search samples

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..ba3db15 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -49,9 +49,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), asize));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), asize));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From b0086d9e4c19682af6a1cd6b38ccb6348cac18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 21/41] fix: initialise the step length of the workspace

---
 include/proxsuite-nlp/workspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/workspace.hpp b/include/proxsuite-nlp/workspace.hpp
index 863581d..9497e4d 100644
--- a/include/proxsuite-nlp/workspace.hpp
+++ b/include/proxsuite-nlp/workspace.hpp
@@ -114,7 +114,7 @@ public:
   std::vector<Scalar> ls_alphas;
   std::vector<Scalar> ls_values;
   /// Optimal linesearch \f$\alpha^\star\f$
-  Scalar alpha_opt;
+  Scalar alpha_opt = 0.;
   /// Merit function derivative in descent direction
   Scalar dmerit_dir = 0.;
 
-- 
2.43.0


From 8606c23814c96583605f1445f9960774ff72deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 22/41] fix: a quiet solve no longer silences later verbose
 solves

---
 include/proxsuite-nlp/prox-solver.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 6003a8d..fb5b137 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -51,9 +51,6 @@ ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
 template <typename Scalar>
 ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
                                                 const ConstVectorRef &lams0) {
-  if (verbose == 0)
-    logger.active = false;
-
   if ((results_ == nullptr) || (workspace_ == nullptr)) {
     PROXSUITE_NLP_RUNTIME_ERROR(
         "Either Results or Workspace are unitialized. Call setup() first.");
@@ -82,7 +79,8 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   std::size_t &al_iter = results.al_iters;
   i = 0;
   al_iter = 0;
-  logger.start();
+  if (verbose != VerboseLevel::QUIET)
+    logger.start();
   while ((i < max_iters) && (al_iter < max_al_iters)) {
     results.mu = mu_;
     results.rho = rho_;
@@ -479,7 +477,8 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
                      phi_new - phi0,
                      results.al_iters + 1};
 
-    logger.log(record);
+    if (verbose != VerboseLevel::QUIET)
+      logger.log(record);
 
     results.num_iters++;
     if (results.num_iters >= max_iters) {
-- 
2.43.0


From 5958e97d86305071b5940ddfdd4c2d7c9274ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 23/41] fix: new results claim no outcome

---
 include/proxsuite-nlp/results.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index 0128bea..cb4de83 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -23,10 +23,10 @@ template <typename _Scalar> struct ResultsTpl {
   using Problem = ProblemTpl<Scalar>;
   using VecBool = Eigen::Matrix<bool, Eigen::Dynamic, 1>;
 
-  ConvergenceFlag converged = SUCCESS;
+  ConvergenceFlag converged = UNINIT;
 
-  Scalar merit;
-  Scalar value;
+  Scalar merit = 0.;
+  Scalar value = 0.;
   VectorXs x_opt;
   VectorXs data_lams_opt;
   VectorOfRef lams_opt;
-- 
2.43.0


From a6f0ef1e2ee8289c4bfd9cc4281ec861969de33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 24/41] fix: Armijo line search compiles with scalars other
 than double

The step bound added in a3f73fe multiplied by a double constant.
---
 include/proxsuite-nlp/linesearch-armijo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index c30213f..c5eeed7 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -74,7 +74,7 @@ public:
         if (alpha_try <= options_.alpha_min) {
           throw; // not even the smallest step can be evaluated
         }
-        alpha_try = std::max(0.5 * alpha_try, options_.alpha_min);
+        alpha_try = std::max(alpha_try / 2, options_.alpha_min);
       }
     }
 
-- 
2.43.0


From d5a70a281cdfa10601bf4ac040c3f3d00249877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 25/41] fix: Python callbacks receive the workspace and the
 results by reference

They have no by-value converter: no Python callback could ever be called.
---
 bindings/python/expose-callbacks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/expose-callbacks.cpp b/bindings/python/expose-callbacks.cpp
index 589f689..7bcc4f6 100644
--- a/bindings/python/expose-callbacks.cpp
+++ b/bindings/python/expose-callbacks.cpp
@@ -10,7 +10,7 @@ struct CallbackWrapper : helpers::base_callback<context::Scalar>,
                          bp::wrapper<helpers::base_callback<context::Scalar>> {
   CallbackWrapper() = default;
   void call(const context::Workspace &w, const context::Results &r) {
-    this->get_override("call")(w, r);
+    this->get_override("call")(boost::cref(w), boost::cref(r));
   }
 };
 
-- 
2.43.0


From a2af85ca732183232ae035f1feb534e29d5ab517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 26/41] fix: a Python function with a missing override raises
 instead of recursing

---
 bindings/python/expose-function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/python/expose-function.cpp b/bindings/python/expose-function.cpp
index 61bf5db..2e81f92 100644
--- a/bindings/python/expose-function.cpp
+++ b/bindings/python/expose-function.cpp
@@ -35,6 +35,8 @@ void exposeFunctionTypes() {
       .def(bp::init<const Manifold &, const int>(
           bp::args("self", "manifold", "nr")))
       .def(bp::init<int, int, int>(bp::args("self", "nx", "ndx", "nr")))
+      .def("__call__", bp::pure_virtual(&Function::operator()),
+           bp::args("self", "x"), "Call the function.")
       .def("computeJacobian", bp::pure_virtual(compJac1),
            bp::args("self", "x", "Jout"))
       .def("getJacobian", compJac2, bp::args("self", "x"),
@@ -47,6 +49,10 @@ void exposeFunctionTypes() {
       .def(bp::init<const Manifold &, const int>(
           bp::args("self", "manifold", "nr")))
       .def(bp::init<int, int, int>(bp::args("self", "nx", "ndx", "nr")))
+      .def("__call__", bp::pure_virtual(&Function::operator()),
+           bp::args("self", "x"), "Call the function.")
+      .def("computeJacobian", bp::pure_virtual(compJac1),
+           bp::args("self", "x", "Jout"))
       .def("vectorHessianProduct", &C2Function::vectorHessianProduct,
            &C2FunctionWrap::default_vhp, bp::args("self", "x", "v", "Hout"))
       .def("getVHP", &C2FunctionWrap::getVHP, bp::args("self", "x", "v"),
-- 
2.43.0


From d5aa041024b8fd3b0ff34aecaa72bdbc902aa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 27/41] fix: getVHP accepts the functions implemented in C++

---
 .../python/include/proxsuite-nlp/python/function.hpp     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/python/include/proxsuite-nlp/python/function.hpp b/bindings/python/include/proxsuite-nlp/python/function.hpp
index 99f3797..c8b74e2 100644
--- a/bindings/python/include/proxsuite-nlp/python/function.hpp
+++ b/bindings/python/include/proxsuite-nlp/python/function.hpp
@@ -59,10 +59,11 @@ struct C2FunctionWrap : context::C2Function, bp::wrapper<context::C2Function> {
     }
   }
 
-  MatrixXs getVHP(const ConstVectorRef &x, const ConstVectorRef &v) const {
-    using context::MatrixXs;
-    MatrixXs Hout(this->ndx_, this->ndx_);
-    this->vectorHessianProduct(x, v, Hout);
+  /// Static: not only for the functions which derive from this wrapper.
+  static MatrixXs getVHP(const context::C2Function &self,
+                         const ConstVectorRef &x, const ConstVectorRef &v) {
+    MatrixXs Hout(self.ndx(), self.ndx());
+    self.vectorHessianProduct(x, v, Hout);
     return Hout;
   }
 
-- 
2.43.0


From 55bae798b56c629194415b8a6be263e842d90739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 28/41] fix: finite difference helpers keep their space and
 function alive in Python

---
 bindings/python/expose-autodiff.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/expose-autodiff.cpp b/bindings/python/expose-autodiff.cpp
index f8d8cc7..d6f60be 100644
--- a/bindings/python/expose-autodiff.cpp
+++ b/bindings/python/expose-autodiff.cpp
@@ -26,7 +26,10 @@ void expose_finite_differences() {
       "Make a function into a differentiable function using"
       " finite differences.",
       bp::init<const Manifold &, const Function &, const Scalar>(
-          bp::args("self", "space", "func", "eps")));
+          bp::args("self", "space", "func", "eps"))
+          // the helper refers to the space and to the function
+          [bp::with_custodian_and_ward<1, 2,
+                                       bp::with_custodian_and_ward<1, 3>>()]);
 
   bp::class_<finite_difference_wrapper<Scalar, TOC2>, bp::bases<C2Function>>(
       "FiniteDifferenceHelperC2",
@@ -34,7 +37,9 @@ void expose_finite_differences() {
       "using"
       " finite differences.",
       bp::init<const Manifold &, const C1Function &, const Scalar>(
-          bp::args("self", "space", "func", "eps")));
+          bp::args("self", "space", "func", "eps"))
+          [bp::with_custodian_and_ward<1, 2,
+                                       bp::with_custodian_and_ward<1, 3>>()]);
 }
 
 void exposeAutodiff() { expose_finite_differences(); }
-- 
2.43.0


From 2eba75a8e75743ca351feefe3ed5b59f1aff66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 29/41] fix: the solver keeps its problem alive in Python

---
 bindings/python/expose-solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/expose-solver.cpp b/bindings/python/expose-solver.cpp
index e393ff5..ecb50f4 100644
--- a/bindings/python/expose-solver.cpp
+++ b/bindings/python/expose-solver.cpp
@@ -105,7 +105,9 @@ void exposeSolver() {
            "rho_init"_a = 0., "verbose"_a = VerboseLevel::QUIET,
            "mu_min"_a = 1e-9, "prim_alpha"_a = 0.1, "prim_beta"_a = 0.9,
            "dual_alpha"_a = 1., "dual_beta"_a = 1.,
-           "ldlt_choice"_a = LDLTChoice::DENSE)))
+           "ldlt_choice"_a = LDLTChoice::DENSE))
+          // the solver refers to the problem
+          [bp::with_custodian_and_ward<1, 2>()])
       .add_property("problem",
                     bp::make_function(&ProxNLPSolver::problem,
                                       bp::return_internal_reference<>()),
-- 
2.43.0


From ea64ca18dafd1f28a20170963dfdd4ddeee7c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 30/41] fix: solve() of the factorisations returns a plain
 matrix in Python

---
 bindings/python/expose-ldlt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/expose-ldlt.cpp b/bindings/python/expose-ldlt.cpp
index aff7d22..910c758 100644
--- a/bindings/python/expose-ldlt.cpp
+++ b/bindings/python/expose-ldlt.cpp
@@ -23,7 +23,8 @@ struct LDLTVisitor : bp::def_visitor<LDLTVisitor<LDLTtype>> {
   }
 
   template <typename RhsType>
-  static auto solve(const LDLTtype &fac, RhsType &rhs) {
+  static typename RhsType::PlainObject solve(const LDLTtype &fac,
+                                             RhsType &rhs) {
     return fac.solve(rhs);
   }
 
-- 
2.43.0


From 936666a08fc5a4acd8622ebf451d4d33a1cafbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 31/41] fix: expose the vectors of costs CostSum is built from

---
 bindings/python/expose-cost.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/python/expose-cost.cpp b/bindings/python/expose-cost.cpp
index 9c5219e..2bda74c 100644
--- a/bindings/python/expose-cost.cpp
+++ b/bindings/python/expose-cost.cpp
@@ -5,6 +5,8 @@
 
 #include "boost/python/operators.hpp"
 
+#include <eigenpy/std-vector.hpp>
+
 namespace proxsuite {
 namespace nlp {
 namespace python {
@@ -82,6 +84,8 @@ void exposeCost() {
           bp::args("self", "func")));
 
   using CostSum = CostSumTpl<Scalar>;
+  eigenpy::StdVectorPythonVisitor<std::vector<CostPtr>, true>::expose(
+      "StdVec_CostPtr");
   bp::register_ptr_to_python<shared_ptr<CostSum>>();
   bp::class_<CostSum, bp::bases<Cost>>(
       "CostSum", "Sum of cost functions.",
-- 
2.43.0


From 74063a54b90ae217d892cabe270fcb7bf122f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 32/41] fix: expose the vector of sizes ConstraintSetProduct is
 built from

and keep the name StdVec_ConstraintObject for the vector of constraints.
---
 bindings/python/expose-constraint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/expose-constraint.cpp b/bindings/python/expose-constraint.cpp
index 5e1da9d..869535e 100644
--- a/bindings/python/expose-constraint.cpp
+++ b/bindings/python/expose-constraint.cpp
@@ -143,8 +143,10 @@ static void exposeConstraintTypes() {
                                       bp::return_internal_reference<>()),
                     "Dimensions of each component of the cartesian product.");
 
+  StdVectorPythonVisitor<std::vector<Eigen::Index>, true>::expose(
+      "StdVec_Index");
   StdVectorPythonVisitor<std::vector<polymorphic<ConstraintSet>>>::expose(
-      "StdVec_ConstraintObject",
+      "StdVec_ConstraintSet",
       eigenpy::details::overload_base_get_item_for_std_vector<
           std::vector<polymorphic<ConstraintSet>>>());
 }
-- 
2.43.0


From 025611989fd6912b4d1a69c7d0785055c847133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 33/41] fix: plot_pd_errs keeps the axis upright when every
 residual vanishes

---
 bindings/python/proxsuite_nlp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/proxsuite_nlp/utils.py b/bindings/python/proxsuite_nlp/utils.py
index 3564112..9f166b1 100644
--- a/bindings/python/proxsuite_nlp/utils.py
+++ b/bindings/python/proxsuite_nlp/utils.py
@@ -32,6 +32,8 @@ def plot_pd_errs(ax0, prim_errs, dual_errs):
     mach_eps = np.finfo(float).eps
     dmask = dual_errs > 2 * mach_eps
     pmask = prim_errs > 2 * mach_eps
+    if not (dmask.any() or pmask.any()):
+        return
     ymin = np.finfo(float).max
     if dmask.any():
         ymin = np.min(dual_errs[dmask])
-- 
2.43.0


From 8e7311c71989d9f4a1aab2b9876a375e41cafceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 34/41] fix: Problem.manifold can be read from Python

Without the converters of polymorphic.hpp the getter looked for a class which is not exposed.
---
 bindings/python/expose-problem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/expose-problem.cpp b/bindings/python/expose-problem.cpp
index aee8277..1aa19ef 100644
--- a/bindings/python/expose-problem.cpp
+++ b/bindings/python/expose-problem.cpp
@@ -1,4 +1,5 @@
 #include "proxsuite-nlp/python/fwd.hpp"
+#include "proxsuite-nlp/python/polymorphic.hpp"
 #include "proxsuite-nlp/problem-base.hpp"
 #include "proxsuite-nlp/constraint-set.hpp"
 
-- 
2.43.0


From 8c68b5d62e3538f68ceb534e5cd5c099a9713ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 35/41] fix: adding a CostSum in place merges its components in
 Python

The overload for any cost was tried first: s += s made s a component of itself, and evaluating it never ended.
---
 bindings/python/expose-cost.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/python/expose-cost.cpp b/bindings/python/expose-cost.cpp
index 2bda74c..75baab4 100644
--- a/bindings/python/expose-cost.cpp
+++ b/bindings/python/expose-cost.cpp
@@ -100,10 +100,11 @@ void exposeCost() {
            ((bp::arg("self"), bp::arg("comp"), bp::arg("w") = 1.)),
            "Add a component to the cost.")
       // expose inplace operators
-      .def(
-          "__iadd__", +[](CostSum &a, CostSum const &b) { return a += b; })
+      // a sum is a cost as well: its overload goes last, to be tried first
       .def(
           "__iadd__", +[](CostSum &a, CostPtr const &b) { return a += b; })
+      .def(
+          "__iadd__", +[](CostSum &a, CostSum const &b) { return a += b; })
       .def(
           "__imul__", +[](CostSum &a, Scalar b) { return a *= b; })
       // printing
-- 
2.43.0


From f0392fe39cd634aae1438f2e74534c98787254b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 36/41] fix: in-place operators of CostSum return the object
 itself in Python

They returned copies: after s += c, other names of s missed all further changes.
---
 bindings/python/expose-cost.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/python/expose-cost.cpp b/bindings/python/expose-cost.cpp
index 75baab4..b3a443b 100644
--- a/bindings/python/expose-cost.cpp
+++ b/bindings/python/expose-cost.cpp
@@ -4,6 +4,7 @@
 #include "proxsuite-nlp/cost-sum.hpp"
 
 #include "boost/python/operators.hpp"
+#include "boost/python/return_arg.hpp"
 
 #include <eigenpy/std-vector.hpp>
 
@@ -102,11 +103,14 @@ void exposeCost() {
       // expose inplace operators
       // a sum is a cost as well: its overload goes last, to be tried first
       .def(
-          "__iadd__", +[](CostSum &a, CostPtr const &b) { return a += b; })
+          "__iadd__", +[](CostSum &a, CostPtr const &b) { a += b; },
+          bp::return_self<>())
       .def(
-          "__iadd__", +[](CostSum &a, CostSum const &b) { return a += b; })
+          "__iadd__", +[](CostSum &a, CostSum const &b) { a += b; },
+          bp::return_self<>())
       .def(
-          "__imul__", +[](CostSum &a, Scalar b) { return a *= b; })
+          "__imul__", +[](CostSum &a, Scalar b) { a *= b; },
+          bp::return_self<>())
       // printing
       .def(bp::self * Scalar())
       .def(Scalar() * bp::self)
-- 
2.43.0


From b9b26868148fa3ccedfa776383123e14adb0996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 37/41] fix: product of a Cartesian product and a manifold
 keeps its order in Python

__rmul__ multiplied in the wrong order: (A * B) * C had the components C, A, B.
---
 bindings/python/expose-manifold.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/expose-manifold.cpp b/bindings/python/expose-manifold.cpp
index 43fc553..291bd39 100644
--- a/bindings/python/expose-manifold.cpp
+++ b/bindings/python/expose-manifold.cpp
@@ -107,7 +107,7 @@ void exposeManifoldBase() {
                          const CartesianProduct &b) { return a * b; })
       .def(
           "__rmul__", +[](const PolyManifold &a, const CartesianProduct &b) {
-            return a * b;
+            return b * a;
           });
 
   eigenpy::StdVectorPythonVisitor<std::vector<PolyManifold>>::expose(
-- 
2.43.0


From dac25a4670e7ab7eac05768616764c1f7eab2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 38/41] fix: vector spaces can be copied and pickled in Python

Pickling was enabled without the constructor's argument: every copy raised.
---
 bindings/python/expose-manifold.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/python/expose-manifold.cpp b/bindings/python/expose-manifold.cpp
index 291bd39..e28ff1a 100644
--- a/bindings/python/expose-manifold.cpp
+++ b/bindings/python/expose-manifold.cpp
@@ -229,6 +229,13 @@ void exposePinocchioSpaces() {
 }
 #endif
 
+/// The constructor's arguments, to make copies with.
+struct VectorSpacePickleSuite : bp::pickle_suite {
+  static bp::tuple getinitargs(const VectorSpaceTpl<Scalar> &space) {
+    return bp::make_tuple(space.nx());
+  }
+};
+
 void exposeManifolds() {
 
   exposeManifoldBase();
@@ -238,7 +245,7 @@ void exposeManifolds() {
       "VectorSpace", "Basic Euclidean vector space.", bp::no_init)
       .def(bp::init<const int>(("self"_a, "dim")))
       .def(PolymorphicVisitor<PolyManifold>())
-      .enable_pickling_(true);
+      .def_pickle(VectorSpacePickleSuite());
 
   exposeCartesianProduct();
 #ifdef PROXSUITE_NLP_WITH_PINOCCHIO
-- 
2.43.0


From 2ae3a171ddef3174ccabd45ccc541d0e87449b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 39/41] fix: dual penalty weight of the primal-dual merit
 function other than 1/2

---
 include/proxsuite-nlp/pdal.hxx        |  6 +++---
 include/proxsuite-nlp/prox-solver.hxx | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/proxsuite-nlp/pdal.hxx b/include/proxsuite-nlp/pdal.hxx
index ab4725b..5423091 100644
--- a/include/proxsuite-nlp/pdal.hxx
+++ b/include/proxsuite-nlp/pdal.hxx
@@ -22,8 +22,8 @@ Scalar ALMeritFunctionTpl<Scalar>::evaluate(const ConstVectorRef & /*x*/,
     const ConstraintObject &cstr = problem_.getConstraint(i);
     Scalar mu = cstr.set_->mu();
     VectorXs scv_tmp = pd_scv[i];
-    res += 2.0 * cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp);
-    res += mu * lams[i].squaredNorm() / 4.0;
+    res += cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp) / beta_;
+    res += 0.5 * (1 - beta_) * mu * lams[i].squaredNorm();
   }
   return res;
 }
@@ -39,7 +39,7 @@ void ALMeritFunctionTpl<Scalar>::computeGradient(
     const ConstraintObject &cstr = problem_.getConstraint(i);
     Scalar mu = cstr.set_->mu();
     problem_.getSegment(workspace.merit_dual_gradient, i).noalias() +=
-        beta_ * mu * (lams[i] - workspace.lams_pdal[i]);
+        (1 - beta_) * mu * (lams[i] - workspace.lams_pdal[i]);
   }
 }
 
diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index fb5b137..1daff42 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -183,9 +183,9 @@ void ProxNLPSolverTpl<Scalar>::computeMultipliers(
   }
   workspace.data_lams_plus = mu_inv_ * workspace.data_lams_plus;
   // compute primal-dual multiplier estimates:
-  // normalConeProj(w), w = c(x) + mu(lambda_k - (beta-1)lambda)
-  workspace.data_shift_cstr_pdal =
-      workspace.data_shift_cstr_values - 0.5 * mu_ * inner_lams_data;
+  // normalConeProj(w), w = c(x) + mu(lambda_k - (1-beta)lambda)
+  workspace.data_shift_cstr_pdal = workspace.data_shift_cstr_values -
+                                   (1 - pdal_beta_) * mu_ * inner_lams_data;
   for (std::size_t i = 0; i < problem_->getNumConstraints(); i++) {
     const ConstraintSet &cstr_set = *problem_->getConstraint(i).set_;
     cstr_set.normalConeProjection(workspace.shift_cstr_pdal[i],
@@ -338,7 +338,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       break;
     case KKT_PRIMAL_DUAL:
       workspace.kkt_rhs.tail(ndual) =
-          0.5 * mu_ * (workspace.data_lams_pdal - results.data_lams_opt);
+          pdal_beta_ * mu_ * (workspace.data_lams_pdal - results.data_lams_opt);
       break;
     }
 
@@ -523,7 +523,7 @@ void ProxNLPSolverTpl<Scalar>::assembleKktMatrix(Workspace &workspace) {
       // apply normal cone jacobian op
       cstr_set.applyNormalConeProjectionJacobian(workspace.shift_cstr_pdal[i],
                                                  d_sub2);
-      d_sub = 0.5 * (d_sub + d_sub2);
+      d_sub = pdal_beta_ * d_sub + (1 - pdal_beta_) * d_sub2;
     }
   }
 }
-- 
2.43.0


From e4c0fad6bf31830fdddcee0ae170ae72e04ea7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 40/41] fix: copies and pickles of multibody configuration and
 phase spaces always raised

---
 bindings/python/expose-manifold.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bindings/python/expose-manifold.cpp b/bindings/python/expose-manifold.cpp
index e28ff1a..c02d1c7 100644
--- a/bindings/python/expose-manifold.cpp
+++ b/bindings/python/expose-manifold.cpp
@@ -150,6 +150,13 @@ void exposeLieGroup(const char *name, const char *docstring) {
   cl.enable_pickling_(true);
 }
 
+/// The constructor's arguments, to make copies with.
+template <typename Space> struct ModelPickleSuite : bp::pickle_suite {
+  static bp::tuple getinitargs(const Space &space) {
+    return bp::make_tuple(space.getModel());
+  }
+};
+
 void exposePinocchioSpaces() {
   namespace pin = pinocchio;
   using pin::ModelTpl;
@@ -208,7 +215,7 @@ void exposePinocchioSpaces() {
                                       bp::return_internal_reference<>()),
                     "Return the Pinocchio model instance.")
       .def(PolymorphicVisitor<PolyManifold>())
-      .enable_pickling_(true);
+      .def_pickle(ModelPickleSuite<Multibody>());
 
   using MultiPhase = MultibodyPhaseSpace<Scalar>;
   bp::class_<MultiPhase, bp::bases<Manifold>>(
@@ -225,7 +232,7 @@ void exposePinocchioSpaces() {
                                 },
                                 bp::return_internal_reference<>()))
       .def(PolymorphicVisitor<PolyManifold>())
-      .enable_pickling_(true);
+      .def_pickle(ModelPickleSuite<MultiPhase>());
 }
 #endif
 
-- 
2.43.0


From 9a8b24a6b3d36fd4ef3872bc39b4ab04e8f5021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 41/41] fix: Jacobian of the action on a point after the point
 was changed

---
 .../modelling/residuals/rigid-transform-point.hpp        | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/residuals/rigid-transform-point.hpp b/include/proxsuite-nlp/modelling/residuals/rigid-transform-point.hpp
index 78c646d..326459b 100644
--- a/include/proxsuite-nlp/modelling/residuals/rigid-transform-point.hpp
+++ b/include/proxsuite-nlp/modelling/residuals/rigid-transform-point.hpp
@@ -20,7 +20,7 @@ struct RigidTransformationPointActionTpl : C2FunctionTpl<Scalar> {
   Vector3s point_;
 
   RigidTransformationPointActionTpl(const Eigen::Ref<const Vector3s> &point)
-      : Base(7, 6, 3), space_(), point_(point), skew_point_(pin::skew(point)) {}
+      : Base(7, 6, 3), space_(), point_(point) {}
 
   VectorXs operator()(const ConstVectorRef &x) const override {
     QuatConstMap q(x.template tail<4>().data());
@@ -34,13 +34,10 @@ struct RigidTransformationPointActionTpl : C2FunctionTpl<Scalar> {
     QuatConstMap q(x.template tail<4>().data());
 
     Jout.template leftCols<3>() = q.matrix();
-    Jout.template rightCols<3>().noalias() = -q.matrix() * skew_point_;
+    Jout.template rightCols<3>().noalias() = -q.matrix() * skew_point();
   }
 
-  Eigen::Ref<const Matrix33s> skew_point() const { return skew_point_; }
-
-private:
-  Matrix33s skew_point_;
+  Matrix33s skew_point() const { return pin::skew(point_); }
 };
 
 } // namespace nlp
-- 
2.43.0

