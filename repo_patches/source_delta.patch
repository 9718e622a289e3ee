From 3dd4ed2a6b561145a90704fe067aa407b5fe3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 01/49] fix: CooMatrix and LilMatrix transposed multiplication
 check the sizes of the transpose

---
 include/coomatrix.hpp | 4 ++--
 include/lilmatrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..a66eeab 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -654,8 +654,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..d78cd4d 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -434,8 +434,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
-- 
2.43.0


From eba11f201ab094dd54e762494882549cbdefef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 02/49] fix: CooMatrix and LilMatrix EliminateZeros drop zero
 entries at the default tolerance

---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index a66eeab..89b52a4 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -692,7 +692,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index d78cd4d..6b83e21 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -486,7 +486,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From 7e56fee42d2375b26f27f4df937687ae6a054617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 03/49] fix: LilMatrix without a set size is exactly as large
 as its entries require

---
 include/lilmatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 6b83e21..555351d 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -507,11 +507,11 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
     {
         for (const auto& node : row)
         {
-            cols = std::max(cols, node.first);
+            cols = std::max(cols, node.first + 1);
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 1e99da47a82586345b6114f391d37446696bc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 04/49] fix: LilMatrix::SetSize allocates the rows it announces

---
 include/lilmatrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 555351d..e627953 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -249,10 +249,15 @@ int LilMatrix<T>::Cols() const
 template <typename T>
 void LilMatrix<T>::SetSize(int rows, int cols)
 {
+    assert(rows >= 0);
+    assert(cols >= 0);
+
     size_set_ = true;
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows_);
 }
 
 template <typename T>
-- 
2.43.0


From 37e008beb7f2713e1c36a4dc9d266ac856521fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 05/49] fix: empty CooMatrix without a set size is 0 x 0

---
 include/coomatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 89b52a4..2b13923 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -715,11 +715,11 @@ std::tuple<int, int> CooMatrix<T>::FindSize() const
         const int i = std::get<0>(entry);
         const int j = std::get<1>(entry);
 
-        rows = std::max(rows, i);
-        cols = std::max(cols, j);
+        rows = std::max(rows, i + 1);
+        cols = std::max(cols, j + 1);
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From eafe791729b61fbc7c211c937a718c419295cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 06/49] fix: CooMatrix without a set size reports the size its
 entries require

---
 include/coomatrix.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 2b13923..4fc015f 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows.
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the maximum element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns.
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the maximum element
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -302,6 +320,24 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    int rows;
+    std::tie(rows, std::ignore) = FindSize();
+
+    return rows;
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    int cols;
+    std::tie(std::ignore, cols) = FindSize();
+
+    return cols;
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
-- 
2.43.0


From cf1b90b5e88859a268927c2bf7b3c85cacb3261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 07/49] fix: dense products accept matrices without rows

---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..5d21911 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,14 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(1, rows_);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(1, input.Rows());
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
+    int ldc = std::max(1, output.Rows());
 
 
     dgemm_(&transA, &transB, &m, &n, &k,
-- 
2.43.0


From 262b07d24caa40bd8261bbbc4083581cbfe2b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 08/49] fix: QR of a matrix with more columns than rows

---
 src/densematrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 5d21911..b9a4034 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -655,7 +655,7 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
@@ -664,14 +664,16 @@ void DenseMatrix::QR()
     const int* k = &mn_min;
 
     lwork = -1;
-    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), &qwork, &lwork, &info);
     lwork = static_cast<int>(qwork);
 
     work.resize(lwork);
 
-    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
     assert(info == 0);
+
+    SetSize(rows, mn_min);
 }
 
 void DenseMatrix::Invert(DenseMatrix& inv) const
-- 
2.43.0


From ffa24cfc07ade736adaf47569cd46fb495eca19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 09/49] fix: empty dense ranges may start at the end of the
 matrix

---
 src/densematrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index b9a4034..acf355e 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -450,8 +450,8 @@ DenseMatrix DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int e
 
 void DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int end_j, DenseMatrix& dense) const
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -506,8 +506,8 @@ void DenseMatrix::SetSubMatrix(int start_i, int start_j, const DenseMatrix& dens
 
 void DenseMatrix::SetSubMatrix(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -531,8 +531,8 @@ void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, const DenseMat
 
 void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
-- 
2.43.0


From 88d7ea4e3d88f9675905ed8fa0396ca9dc546320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 10/49] fix: SVD of a matrix with more columns than rows keeps
 only the columns of U

---
 src/densematrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index acf355e..4dfb2dd 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -613,6 +613,8 @@ std::vector<double> DenseMatrix::SVD()
 
     assert(info == 0);
 
+    SetSize(rows, std::min(rows, cols));
+
     return singular_values;
 }
 
-- 
2.43.0


From 7b6775c0083fd311442b2ab98058986f60220867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 11/49] fix: EigenSolver never looks for more eigenpairs than
 the dimension

---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..4bad87c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From a61333d48ca3028e8b7665d9a2f5930f7be81a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 12/49] fix: EigenSolver refuses matrices that are not square

---
 src/eigensolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 4bad87c..e2aeaeb 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -62,6 +62,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     auto& evects = eigen_pair.second;
 
     int n = mat.Rows();
+    assert(mat.Cols() == n);
 
     if (n < 1)
     {
-- 
2.43.0


From a85b79a90a1f9ceaf3ff602e7accfe95fd192c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 13/49] fix: declare the Normalize specialization for double
 vectors

---
 include/vectorview.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..59edd2e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,10 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+/*! @brief Specialization for double, defined in vectorview.cpp */
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From 165ed6bc88f5fc35b481fe513e84a05f234bd006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 14/49] fix: BlockMatrix::Transpose transposes its blocks and
 accepts unset ones

---
 include/blockmatrix.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..40f6c1e 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,15 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& mat = GetBlock(i, j);
+
+            // Unset blocks have zero size and stay unset
+            if (mat.Rows() == 0 && mat.Cols() == 0)
+            {
+                continue;
+            }
+
+            transpose.SetBlock(j, i, mat.Transpose());
         }
     }
 
-- 
2.43.0


From 11eafd0470dc24c0a1f84568e57c577e6f87fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 15/49] fix: BlockMatrix::Combine keeps the element type

---
 include/blockmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 40f6c1e..12fd1d5 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -244,7 +244,7 @@ SparseMatrix<T> BlockMatrix<T>::Combine() const
 
     std::vector<int> indptr(rows_ + 1);
     std::vector<int> indices(nnz);
-    std::vector<double> data(nnz);
+    std::vector<T> data(nnz);
 
     indptr[0] = 0;
 
-- 
2.43.0


From c07671552bb1a55cd39ef220d914f1dc78451cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 16/49] fix: block accessors refuse negative block indices

---
 include/blockmatrix.hpp | 8 ++++----
 include/blockvector.hpp | 4 ++--
 src/blockoperator.cpp   | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 12fd1d5..5e725b0 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -184,8 +184,8 @@ const std::vector<int>& BlockMatrix<T>::GetColOffsets() const
 template <typename T>
 const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     return A_[i][j];
 }
@@ -193,8 +193,8 @@ const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 template <typename T>
 void BlockMatrix<T>::SetBlock(int i, int j, SparseMatrix<T> mat)
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     assert(mat.Rows() == (row_offsets_[i + 1] - row_offsets_[i]));
     assert(mat.Cols() == (col_offsets_[j + 1] - col_offsets_[j]));
diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 9751a64..132043a 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -130,7 +130,7 @@ const std::vector<int>& BlockVector<T>::GetOffsets() const
 template <typename T>
 VectorView<T> BlockVector<T>::GetBlock(int block)
 {
-    assert(block < static_cast<int>(offsets_.size()) - 1);
+    assert(block >= 0 && block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = Vector<T>::begin() + offsets_[block];
     int size = offsets_[block + 1] - offsets_[block];
@@ -141,7 +141,7 @@ VectorView<T> BlockVector<T>::GetBlock(int block)
 template <typename T>
 const VectorView<T> BlockVector<T>::GetBlock(int block) const
 {
-    assert(block < static_cast<int>(offsets_.size()) - 1);
+    assert(block >= 0 && block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = const_cast<T*>(Vector<T>::begin() + offsets_[block]);
     int size = offsets_[block + 1] - offsets_[block];
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index a7cc0a4..066fd0e 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -66,16 +66,16 @@ const std::vector<int>& BlockOperator::GetColOffsets() const
 
 const Operator* BlockOperator::GetBlock(int i, int j) const
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     return A_[i][j];
 }
 
 void BlockOperator::SetBlock(int i, int j, const Operator& op)
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     assert(op.Rows() == (row_offsets_[i + 1] - row_offsets_[i]));
     assert(op.Cols() == (col_offsets_[j + 1] - col_offsets_[j]));
-- 
2.43.0


From b876c54473074cc10379a0ba154939f94c8afc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 17/49] fix: vector index operators refuse negative indices

---
 include/vectorview.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 59edd2e..26210f0 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -319,7 +319,7 @@ const T* VectorView<T>::end() const
 template <typename T>
 T& VectorView<T>::operator[](int i)
 {
-    assert(i < size_);
+    assert(i >= 0 && i < size_);
 
     return data_[i];
 }
@@ -327,7 +327,7 @@ T& VectorView<T>::operator[](int i)
 template <typename T>
 const T& VectorView<T>::operator[](int i) const
 {
-    assert(i < size_);
+    assert(i >= 0 && i < size_);
 
     return data_[i];
 }
-- 
2.43.0


From 23c16027caf15c9b6f6ca23951f0a10eed1b2d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 18/49] fix: BlockVector refuses data that does not match the
 offsets

---
 include/blockvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 132043a..e6a49b4 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -89,7 +89,7 @@ template <typename T>
 BlockVector<T>::BlockVector(const VectorView<T>& data, std::vector<int> offsets)
     : Vector<T>(data), offsets_(offsets)
 {
-
+    assert(data.size() == offsets_.back());
 }
 
 template <typename T>
-- 
2.43.0


From 9f9d2e70231b3cb5ed615d3cf333dfbf20e5ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 19/49] fix: PCGSolver performs and reports the iterations it
 was allowed, and accepts a zero residual

---
 src/solvers.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..bef87de 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,16 +169,18 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
-    //if ((*Dot_)(r_, r_) < tol_tol)
+    if ((*Dot_)(z_, r_) <= tol_tol)
+    //if ((*Dot_)(r_, r_) <= tol_tol)
     {
         return;
     }
 
-    do
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -209,7 +211,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
@@ -219,7 +221,6 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From 4875dcc95930808cd0e24a122c5bb6d671de4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 20/49] fix: MINRES solvers accept a zero residual and report
 the iterations performed

---
 src/solvers.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index bef87de..914aefa 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -308,8 +308,17 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         A_->Mult(v1_, q_);
 
@@ -351,7 +360,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -458,8 +467,17 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         u1_ /= beta;
 
@@ -504,7 +522,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From 075639a9f33762772fdab1b4c8621a2e50f9837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 21/49] fix: PCGSolver notices operators that are not positive
 definite

---
 src/solvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 914aefa..150630c 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -187,7 +187,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         double r_z = (*Dot_)(r_ , z_);
         double alpha = r_z / pAp;
 
-        linalgcpp_verify(pAp > -1e12, "PCG is not positive definite!");
+        linalgcpp_verify(pAp > -1e-12, "PCG is not positive definite!");
 
         x.Add(alpha, p_);
 
-- 
2.43.0


From 95016093f6fdc2f4f7c942128f2b383fc74a63ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 22/49] fix: default and moved-from preconditioned solvers have
 no preconditioner

---
 include/solvers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers.hpp b/include/solvers.hpp
index 63ee2d1..03fbf69 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -145,7 +145,7 @@ class PCGSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> Ap_;
         mutable Vector<double> r_;
@@ -242,7 +242,7 @@ class PMINRESSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> w0_;
         mutable Vector<double> w1_;
-- 
2.43.0


From 332410658cbd262532495c2198f0cdf8b5832d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 23/49] fix: linalgcpp_assert throws in debug mode, not in
 release mode

---
 include/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utilities.hpp b/include/utilities.hpp
index cde6cb1..90a016d 100644
--- a/include/utilities.hpp
+++ b/include/utilities.hpp
@@ -10,7 +10,7 @@ namespace linalgcpp
 inline
 void linalgcpp_assert(bool expression, const std::string& message = "linalgcpp assertion failed")
 {
-#ifdef NDEBUG
+#ifndef NDEBUG
     if (!expression)
     {
         throw std::runtime_error(message);
-- 
2.43.0


From 50777f1b40cc985771b4645b6b345875560a7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 24/49] fix: WriteCooList keeps the precision and the element
 type

---
 include/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..860ab94 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -368,9 +368,11 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
+    file.precision(16);
+
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
-- 
2.43.0


From 63f9c50cce9bb8eb92712fbffe7e316d48168ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 25/49] fix: ReadTable accepts tables without entries

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 860ab94..c944f72 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -429,7 +429,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From cc8d4eec76238ab32b4be2a1cd6b8e8712398d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 26/49] fix: truncated or malformed matrix and vector files are
 refused

---
 include/parser.hpp | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index c944f72..c1eaa6c 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -108,6 +108,12 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
     std::vector<T> vect(size);
 
     file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read entries: " + file_name);
+    }
+
     file.close();
 
     return vect;
@@ -175,6 +181,11 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(&cols), sizeof(cols));
     file.read(reinterpret_cast<char*>(&nnz), sizeof(nnz));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read sizes: " + file_name);
+    }
+
     std::vector<int> indptr(rows + 1);
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
@@ -183,6 +194,11 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
     file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read entries: " + file_name);
+    }
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);
@@ -491,7 +507,10 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
     size_t rows;
     size_t cols;
 
-    file >> rows >> cols;
+    if (!(file >> rows >> cols))
+    {
+        throw std::runtime_error("Failed to read sizes: " + file_name);
+    }
 
     std::vector<int> indptr(rows + 1);
 
@@ -500,6 +519,11 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> indptr[i];
     }
 
+    if (!file || indptr.back() < 0)
+    {
+        throw std::runtime_error("Failed to read row offsets: " + file_name);
+    }
+
     int nnz = indptr.back();
 
     std::vector<int> indices(nnz);
@@ -515,6 +539,11 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> data[i];
     }
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read entries: " + file_name);
+    }
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data),
@@ -599,7 +628,10 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     int nnz;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    if (!(std::istringstream(line) >> rows >> cols >> nnz))
+    {
+        throw std::runtime_error("Failed to read sizes: " + file_name);
+    }
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
@@ -657,7 +689,10 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     int nnz;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    if (!(std::istringstream(line) >> rows >> cols >> nnz))
+    {
+        throw std::runtime_error("Failed to read sizes: " + file_name);
+    }
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
-- 
2.43.0


From 62a8d591da0316fa69c0de2ac1150e34159db02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 27/49] fix: SparseMatrix refuses row offsets that do not match
 its entries

---
 include/sparsematrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..15c822e 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -474,6 +474,8 @@ SparseMatrix<T>::SparseMatrix(std::vector<int> indptr,
     assert(indptr_.size() == rows_ + 1u);
     assert(indices_.size() == data_.size());
     assert(indptr_[0] == 0);
+    assert(std::is_sorted(std::begin(indptr_), std::end(indptr_)));
+    assert(indptr_.back() == static_cast<int>(indices_.size()));
 
     if (indices_.size() > 0)
     {
-- 
2.43.0


From a6b7555b19f9f4d98dae96d6180b564e7d392ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 28/49] fix: partitioning accepts graphs without diagonal
 entries

---
 modules/partition/include/partition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..88730e3 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,7 +17,7 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
+    int num_edges = mat.nnz();
 
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
-- 
2.43.0


From deb679761c47796a0ca9ca43d94779e61f7a9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 29/49] fix: copied and moved SparseSolvers have no stray
 factorization handle

---
 modules/sparsesolver/src/sparsesolve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index b354fd5..fa11eda 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -18,7 +18,7 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
 }
 
 SparseSolver::SparseSolver(const SparseSolver& other) noexcept
-    : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
+    : Operator(other), A_(other.A_), numeric_(nullptr), control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
     {
@@ -27,6 +27,7 @@ SparseSolver::SparseSolver(const SparseSolver& other) noexcept
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
+    : numeric_(nullptr)
 {
     swap(*this, other);
 }
-- 
2.43.0


From ebc7204a0cb62287279bc73d6c9ae509cc92e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 30/49] fix: moved assembly matrices do not read an
 uninitialised flag

---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 4fc015f..68b7b96 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -299,6 +299,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index e627953..97af38b 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 4fed2da753eeca2ecfc20415e38790559627e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 31/49] fix: Vector checks a raw array before copying it

---
 include/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vector.hpp b/include/vector.hpp
index e57d787..8793920 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -133,11 +133,12 @@ Vector<T>::Vector(int size, T val)
 
 template <typename T>
 Vector<T>::Vector(const T* data, int size)
-    : data_(data, data + size)
 {
     assert(size >= 0);
     assert(size == 0 || data);
 
+    data_.assign(data, data + size);
+
     VectorView<T>::SetData(data_.data(), data_.size());
 }
 
-- 
2.43.0


From 1a4851a863653d2128b4751677e8ab7771e9c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 32/49] fix: SparseMatrix::GetSubMatrix refuses rows and
 columns outside the matrix

---
 include/sparsematrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 15c822e..624f543 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -860,6 +860,12 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
     const int out_rows = rows.size();
     const int out_cols = cols.size();
 
+    for (int i = 0; i < out_cols; ++i)
+    {
+        assert(cols[i] >= 0);
+        assert(cols[i] < cols_);
+    }
+
     for (int i = 0; i < out_cols; ++i)
     {
         marker[cols[i]] = i;
@@ -869,6 +875,7 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
     {
         const int row = rows[i];
 
+        assert(row >= 0);
         assert(row < rows_);
 
         for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
-- 
2.43.0


From b00993916f60e37072c9574035325cbd7c889f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 33/49] fix: SparseMatrix::AddDiag refuses too short diagonals

---
 include/sparsematrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 624f543..79a548a 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -806,6 +806,7 @@ template <typename T>
 void SparseMatrix<T>::AddDiag(const std::vector<T>& diag)
 {
     assert(rows_ == cols_);
+    assert(static_cast<int>(diag.size()) >= rows_);
 
     for (int i = 0; i < rows_; ++i)
     {
-- 
2.43.0


From c984031b8ebdb0529928b1fa5da15aa6db7c53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 34/49] fix: CooMatrix permutations refuse targets outside the
 matrix

---
 include/coomatrix.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 68b7b96..2946e50 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -579,6 +579,12 @@ void CooMatrix<T>::PermuteRows(const std::vector<int>& perm)
 
     assert(static_cast<int>(perm.size()) == rows);
 
+    for (int index : perm)
+    {
+        assert(index >= 0);
+        assert(index < rows);
+    }
+
     for (auto& entry : entries_)
     {
         std::get<0>(entry) = perm[std::get<0>(entry)];
@@ -594,6 +600,12 @@ void CooMatrix<T>::PermuteCols(const std::vector<int>& perm)
 
     assert(static_cast<int>(perm.size()) == cols);
 
+    for (int index : perm)
+    {
+        assert(index >= 0);
+        assert(index < cols);
+    }
+
     for (auto& entry : entries_)
     {
         std::get<1>(entry) = perm[std::get<1>(entry)];
@@ -610,6 +622,18 @@ void CooMatrix<T>::PermuteRowsCols(const std::vector<int>& row_perm, const std::
     assert(static_cast<int>(row_perm.size()) == rows);
     assert(static_cast<int>(col_perm.size()) == cols);
 
+    for (int index : row_perm)
+    {
+        assert(index >= 0);
+        assert(index < rows);
+    }
+
+    for (int index : col_perm)
+    {
+        assert(index >= 0);
+        assert(index < cols);
+    }
+
     for (auto& entry : entries_)
     {
         std::get<0>(entry) = row_perm[std::get<0>(entry)];
-- 
2.43.0


From 64a072f964894c5085efb0fa88b7998acb74893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 35/49] fix: CooMatrix::ToSparse refuses entries outside the
 size that was set

---
 include/coomatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 2946e50..9fd1b8f 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -663,6 +663,9 @@ SparseMatrix<U> CooMatrix<T>::ToSparse() const
         int row = std::get<0>(entry);
         int col = std::get<1>(entry);
 
+        assert(row < rows);
+        assert(col < cols);
+
         auto search = index_map[row].find(col);
 
         if (search == index_map[row].end())
-- 
2.43.0


From f223331dc57866030050467ba92427ac04fa8826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 36/49] fix: LilMatrix refuses sizes that do not hold its
 entries

---
 include/lilmatrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 97af38b..043ef04 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -253,6 +253,11 @@ void LilMatrix<T>::SetSize(int rows, int cols)
     assert(rows >= 0);
     assert(cols >= 0);
 
+    for (size_t i = rows; i < entries_.size(); ++i)
+    {
+        assert(entries_[i].empty());
+    }
+
     size_set_ = true;
 
     rows_ = rows;
@@ -395,6 +400,8 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
             const int& j = node.first;
             const T& val = node.second;
 
+            assert(j < cols);
+
             if (static_cast<int>(indices.size()) != current_row
                 && j == indices.back())
             {
-- 
2.43.0


From 4fbec0ecb7b30835f1aa4cdc932ddb432cd9f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 37/49] fix: Solver::SetOperator refuses solvers without an
 operator

---
 src/solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 150630c..b441b2d 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -63,6 +63,7 @@ void Solver::SetAbsTol(double abs_tol)
 
 void Solver::SetOperator(const Operator& A)
 {
+    assert(A_);
     assert(A.Rows() == A_->Rows());
     assert(A.Cols() == A_->Cols());
 
-- 
2.43.0


From 9173b2a3cc4717ee40f7e8eb116e6bd3fcc48f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 38/49] fix: ParMatrix::MaxNorm is the largest entry, not the
 sum of the entries

---
 modules/parlinalgcpp/src/parmatrix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index 9ec0582..dd39905 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -353,9 +353,19 @@ ParCommPkg ParMatrix::MakeCommPkg() const
 
 double ParMatrix::MaxNorm() const
 {
-    double local_max = std::max(diag_.MaxNorm(), offd_.MaxNorm());
+    double local_max = 0.0;
     double global_max = 0.0;
 
+    for (const auto& val : diag_.GetData())
+    {
+        local_max = std::max(local_max, std::abs(val));
+    }
+
+    for (const auto& val : offd_.GetData())
+    {
+        local_max = std::max(local_max, std::abs(val));
+    }
+
     MPI_Allreduce(&local_max, &global_max, 1, MPI_DOUBLE, MPI_MAX,
                   comm_);
 
-- 
2.43.0


From cf020489ae4120995e2c068ed0ce265883da122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 39/49] fix: empty ParVectors have size zero and can be copied

---
 modules/parlinalgcpp/src/parvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 3466913..423de67 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -6,7 +6,7 @@ namespace linalgcpp
 {
 
 ParVector::ParVector()
-    : Vector(0), comm_(0), pvect_(nullptr)
+    : Vector(0), comm_(0), pvect_(nullptr), global_size_(0)
 {
 }
 
@@ -55,7 +55,10 @@ ParVector::ParVector(const ParVector& other)
     : linalgcpp::Vector<double>(other), comm_(other.comm_), pvect_(nullptr), partition_(other.partition_),
       global_size_(other.global_size_)
 {
-    HypreCreate();
+    if (other.pvect_)
+    {
+        HypreCreate();
+    }
 }
 
 ParVector::ParVector(ParVector&& other)
-- 
2.43.0


From 2346950cc12b82c03b8c48e2d7410999d8e0df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 40/49] fix: distributed operators size their input by columns
 and output by rows

---
 modules/parlinalgcpp/src/parmatrix.cpp   | 4 ++--
 modules/parlinalgcpp/src/paroperator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index dd39905..1b518e4 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -31,8 +31,8 @@ ParMatrix::ParMatrix(MPI_Comm comm,
     std::swap(row_starts_, starts[0]);
     std::swap(col_starts_, starts[1]);
 
-    InitVector(x_, row_starts_);
-    InitVector(b_, col_starts_);
+    InitVector(x_, col_starts_);
+    InitVector(b_, row_starts_);
 
     Init();
 }
diff --git a/modules/parlinalgcpp/src/paroperator.cpp b/modules/parlinalgcpp/src/paroperator.cpp
index 5bcb953..561fde0 100644
--- a/modules/parlinalgcpp/src/paroperator.cpp
+++ b/modules/parlinalgcpp/src/paroperator.cpp
@@ -49,8 +49,8 @@ void ParOperator::HypreCreate()
 {
     MPI_Comm_rank(comm_, &myid_);
 
-    InitVector(x_, row_starts_);
-    InitVector(b_, col_starts_);
+    InitVector(x_, col_starts_);
+    InitVector(b_, row_starts_);
 }
 
 void ParOperator::InitVector(hypre_ParVector*& vect, std::vector<HYPRE_Int>& starts)
-- 
2.43.0


From d30a0d1c5ddd986164c0626033ea167fc7c37d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 41/49] fix: ParAdd scales the first entry of every remote
 column

---
 modules/parlinalgcpp/src/parutilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index cdebca8..4c8a54a 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -276,7 +276,7 @@ ParMatrix ParAdd(double alpha, const ParMatrix& A, double beta, const ParMatrix&
                 }
                 else
                 {
-                    coo_offd.Add(i, col_map.size(), data[j]);
+                    coo_offd.Add(i, col_map.size(), val * data[j]);
                     marker[global_col] = col_map.size();
 
                     col_map.emplace_back(global_col);
-- 
2.43.0


From 1338b5b59b8131f8d93159e70a83762f270e9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 42/49] fix: ParSplit keeps the lower triangle of matrices that
 are not symmetric

---
 modules/parlinalgcpp/src/parutilities.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 4c8a54a..4b74f07 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -77,10 +77,7 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
                 int local_col = local_index[perm[col]];
                 assert(local_col >= 0 && local_col < local_vertices);
 
-                if (local_col >= local_vertex)
-                {
-                    local_diag.AddSym(local_vertex, local_col, val);
-                }
+                local_diag.Add(local_vertex, local_col, val);
             }
             else
             {
-- 
2.43.0


From 913fba93dd17d6d9b4e844166ea4ed869f0056a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 43/49] fix: moved-to ParSolvers and ParSmoothers start from an
 initialised state

---
 modules/parlinalgcpp/src/parsmoother.cpp | 4 +++-
 modules/parlinalgcpp/src/parsolvers.cpp  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 3919721..6525732 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -5,7 +5,8 @@
 namespace linalgcpp
 {
 ParSmoother::ParSmoother()
-    : buffer_shell_(nullptr)
+    : type_(SmoothType::Jacobi), relax_times_(0), relax_weight_(0.0), omega_(0.0),
+      buffer_shell_(nullptr)
 {
 }
 
@@ -30,6 +31,7 @@ ParSmoother::ParSmoother(const ParSmoother& other)
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
+    : ParSmoother()
 {
     swap(*this, other);
 }
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 7c6a2da..538c874 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -51,6 +51,7 @@ ParSolver::ParSolver(const ParSolver& other)
 }
 
 ParSolver::ParSolver(ParSolver&& other)
+    : ParSolver()
 {
     swap(*this, other);
 }
-- 
2.43.0


From e0c68c24729a324a6d119678a8dbe72f23fbf1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 44/49] fix: empty ParSmoothers can be copied

---
 modules/parlinalgcpp/src/parsmoother.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 6525732..5ed170d 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -27,7 +27,10 @@ ParSmoother::ParSmoother(const ParSmoother& other)
       relax_weight_(other.relax_weight_), omega_(other.omega_),
       buffer_(other.buffer_), buffer_shell_(nullptr), l1_norms_(other.l1_norms_)
 {
-    InitVector(buffer_shell_, row_starts_);
+    if (other.buffer_shell_)
+    {
+        InitVector(buffer_shell_, row_starts_);
+    }
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
-- 
2.43.0


From 0fc336b06cd054fc84bd880d2d7c7552155caeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 45/49] fix: ParaSails keeps fractional load balance parameters

---
 modules/parlinalgcpp/include/parsolvers.hpp | 2 +-
 modules/parlinalgcpp/src/parsolvers.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 104de7b..67d15b3 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -178,7 +178,7 @@ class ParaSails: public ParSolver
 
         void SetFilter(double filter);
         void SetSym(int sym);
-        void SetLoadBal(int load_bal);
+        void SetLoadBal(double load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
 };
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 538c874..f7b5ab1 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -220,7 +220,7 @@ void ParaSails::SetSym(int sym)
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
-void ParaSails::SetLoadBal(int load_bal)
+void ParaSails::SetLoadBal(double load_bal)
 {
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
-- 
2.43.0


From 700fa4049519f750cbae6439e7def44ca33f92d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 46/49] fix: copies of BoomerAMG keep their settings and are
 set up

---
 modules/parlinalgcpp/include/parsolvers.hpp | 3 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 67d15b3..dc4b361 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -155,6 +155,9 @@ class BoomerAMG: public ParSolver
         friend void swap(BoomerAMG& lhs, BoomerAMG& rhs) noexcept;
 
         ~BoomerAMG() = default;
+
+    private:
+        void Init();
 };
 
 class ParaSails: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index f7b5ab1..0d5ed6c 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -114,6 +114,11 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_BoomerAMGCreate, &HYPRE_BoomerAMGDestroy,
                 &HYPRE_BoomerAMGSetup, &HYPRE_BoomerAMGSolve)
+{
+    Init();
+}
+
+void BoomerAMG::Init()
 {
     // Parameters mostly copied directly from mfem
     int coarsen_type = 10;   // 10 = HMIS, 8 = PMIS, 6 = Falgout, 0 = CLJP
@@ -146,6 +151,10 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
 BoomerAMG::BoomerAMG(const BoomerAMG& other) noexcept
     : ParSolver(other)
 {
+    if (other.GetSolver())
+    {
+        Init();
+    }
 }
 
 BoomerAMG::BoomerAMG(BoomerAMG&& other) noexcept
-- 
2.43.0


From c551e1dd1db6a74db1aaf9ecd23709843cbdbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 47/49] fix: copies of ParaSails have a solver of their own

---
 modules/parlinalgcpp/include/parsolvers.hpp | 11 +++++
 modules/parlinalgcpp/src/parsolvers.cpp     | 50 ++++++++++++++++-----
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index dc4b361..2164dfa 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -184,6 +184,17 @@ class ParaSails: public ParSolver
         void SetLoadBal(double load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
+
+    private:
+        void Init();
+
+        int reuse_ = 0;
+        int sym_ = 0;
+        int logging_ = 0;
+        double load_bal_ = 0.0;
+        double threshold_ = 0.1;
+        double filter_ = 0.1;
+        int max_levels_ = 1;
 };
 
 class ParCG: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 0d5ed6c..ea653a9 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -181,27 +181,40 @@ ParaSails::ParaSails(ParMatrix A, bool verbose,
                      double filter, int max_levels)
     : ParSolver(std::move(A), 0, 0, verbose,
                 &no_create, &HYPRE_ParaSailsDestroy,
-                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve)
+                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve),
+      reuse_(reuse), sym_(sym), logging_(verbose), load_bal_(load_bal),
+      threshold_(threshold), filter_(filter), max_levels_(max_levels)
+{
+    Init();
+}
+
+ParaSails::ParaSails(const ParaSails& other) noexcept
+    : ParSolver(other),
+      reuse_(other.reuse_), sym_(other.sym_), logging_(other.logging_), load_bal_(other.load_bal_),
+      threshold_(other.threshold_), filter_(other.filter_), max_levels_(other.max_levels_)
+{
+    if (other.GetSolver())
+    {
+        Init();
+    }
+}
+
+void ParaSails::Init()
 {
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParaSailsCreate(A_.GetComm(), &solver_);
-    HYPRE_ParaSailsSetParams(solver_, threshold, max_levels);
+    HYPRE_ParaSailsSetParams(solver_, threshold_, max_levels_);
 
-    SetFilter(filter);
-    SetSym(sym);
-    SetLoadBal(load_bal);
-    SetReuse(reuse);
-    SetLogging(verbose);
+    SetFilter(filter_);
+    SetSym(sym_);
+    SetLoadBal(load_bal_);
+    SetReuse(reuse_);
+    SetLogging(logging_);
 
     HypreSetup();
 }
 
-ParaSails::ParaSails(const ParaSails& other) noexcept
-    : ParSolver(other)
-{
-}
-
 ParaSails::ParaSails(ParaSails&& other) noexcept
 {
     swap(*this, other);
@@ -217,30 +230,43 @@ ParaSails& ParaSails::operator=(ParaSails other) noexcept
 void swap(ParaSails& lhs, ParaSails& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.reuse_, rhs.reuse_);
+    std::swap(lhs.sym_, rhs.sym_);
+    std::swap(lhs.logging_, rhs.logging_);
+    std::swap(lhs.load_bal_, rhs.load_bal_);
+    std::swap(lhs.threshold_, rhs.threshold_);
+    std::swap(lhs.filter_, rhs.filter_);
+    std::swap(lhs.max_levels_, rhs.max_levels_);
 }
 
 void ParaSails::SetFilter(double filter)
 {
+    filter_ = filter;
     HYPRE_ParaSailsSetFilter(GetSolver(), filter);
 }
 
 void ParaSails::SetSym(int sym)
 {
+    sym_ = sym;
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
 void ParaSails::SetLoadBal(double load_bal)
 {
+    load_bal_ = load_bal;
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
 
 void ParaSails::SetReuse(int reuse)
 {
+    reuse_ = reuse;
     HYPRE_ParaSailsSetReuse(GetSolver(), reuse);
 }
 
 void ParaSails::SetLogging(int logging)
 {
+    logging_ = logging;
     HYPRE_ParaSailsSetLogging(GetSolver(), logging);
 }
 
-- 
2.43.0


From 91a4e12f1509361b4760e6317acda70386e339b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 48/49] fix: ParCG applies its preconditioner

---
 modules/parlinalgcpp/src/parsolvers.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index ea653a9..1c783d1 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -285,14 +285,26 @@ ParCG::ParCG(ParMatrix A, size_t max_iter,
     HypreSetup();
 }
 
+static HYPRE_Int ApplySolver(HYPRE_Solver solver, HYPRE_ParCSRMatrix A,
+                             HYPRE_ParVector b, HYPRE_ParVector x)
+{
+    const ParSolver* op = (const ParSolver*) solver;
+
+    linalgcpp::VectorView<double> b_vect(b->local_vector->data, op->Rows());
+    linalgcpp::VectorView<double> x_vect(x->local_vector->data, op->Rows());
+
+    op->Mult(b_vect, x_vect);
+
+    return 0;
+}
+
 ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
     : ParCG(std::move(A), max_iter, tol, verbose)
 {
     auto& solver_ = ParSolver::GetSolver();
 
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSetupFn(), M.GetSolveFn(), M.GetSolver());
+    HYPRE_ParCSRPCGSetPrecond(solver_, &ApplySolver, &no_setup, (HYPRE_Solver) &M);
 }
 
 
-- 
2.43.0


From 09ebc1805331815d45e852aa65a9d5561a1ce9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 49/49] fix: copies of ParCG keep tolerance, iterations and
 preconditioner

---
 modules/parlinalgcpp/include/parsolvers.hpp |  7 ++++
 modules/parlinalgcpp/src/parsolvers.cpp     | 43 +++++++++++++++++----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 2164dfa..85d2ec7 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -215,6 +215,13 @@ class ParCG: public ParSolver
         ~ParCG() = default;
 
         void EnableDiagScaling();
+
+    private:
+        void Init();
+        void InitPrecond();
+
+        const ParSolver* precond_ = nullptr;
+        bool diag_scaling_ = false;
 };
 
 class ParDiagScale: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 1c783d1..144c743 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -275,6 +275,11 @@ ParCG::ParCG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_ParCSRPCGCreate, &HYPRE_ParCSRPCGDestroy,
                 &HYPRE_ParCSRPCGSetup, &HYPRE_ParCSRPCGSolve)
+{
+    Init();
+}
+
+void ParCG::Init()
 {
     auto& solver_ = ParSolver::GetSolver();
 
@@ -301,17 +306,38 @@ static HYPRE_Int ApplySolver(HYPRE_Solver solver, HYPRE_ParCSRMatrix A,
 ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
     : ParCG(std::move(A), max_iter, tol, verbose)
+{
+    precond_ = &M;
+
+    InitPrecond();
+}
+
+void ParCG::InitPrecond()
 {
     auto& solver_ = ParSolver::GetSolver();
 
-    HYPRE_ParCSRPCGSetPrecond(solver_, &ApplySolver, &no_setup, (HYPRE_Solver) &M);
+    if (precond_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_, &ApplySolver, &no_setup, (HYPRE_Solver) precond_);
+    }
+    else if (diag_scaling_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_,
+                                  (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
+                                  (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
+                                  nullptr);
+    }
 }
 
 
 ParCG::ParCG(const ParCG& other) noexcept
-    : ParSolver(other)
+    : ParSolver(other), precond_(other.precond_), diag_scaling_(other.diag_scaling_)
 {
-    HypreSetup();
+    if (other.GetSolver())
+    {
+        Init();
+        InitPrecond();
+    }
 }
 
 ParCG::ParCG(ParCG&& other) noexcept
@@ -329,16 +355,17 @@ ParCG& ParCG::operator=(ParCG other) noexcept
 void swap(ParCG& lhs, ParCG& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.precond_, rhs.precond_);
+    std::swap(lhs.diag_scaling_, rhs.diag_scaling_);
 }
 
 void ParCG::EnableDiagScaling()
 {
-    auto& solver_ = ParSolver::GetSolver();
+    precond_ = nullptr;
+    diag_scaling_ = true;
 
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
-                              nullptr);
+    InitPrecond();
 }
 
 ParDiagScale::ParDiagScale(ParMatrix A, size_t max_iter,
-- 
2.43.0

