From 5a19f95dfc9307acbdd15be79a6f6e0ad20eb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 01/94] fix: arithmetic between Scaling operators promotes the
 dtype instead of truncating to that of the left operand

---
 src/probnum/linops/_scaling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index 038b566..56fb577 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -212,9 +212,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors + other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors + other.factors, shape=self.shape)
 
     def _sub_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -223,9 +221,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors - other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors - other.factors, shape=self.shape)
 
     def _mul_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -234,9 +230,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors * other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors * other.factors, shape=self.shape)
 
     def _matmul_scaling(self, other: "Scaling") -> "Scaling":
         return self._mul_scaling(other)
-- 
2.43.0


From beda0eb50b2ba3056646deb9cc90093af96ea560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 02/94] fix: products of Scaling and Matrix reject mismatched
 shapes and support sparse matrices

---
 src/probnum/linops/_arithmetic.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 00ec028..bd67dfa 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -249,10 +249,26 @@ _matmul_fns[(IdentityKronecker, Kronecker)] = Kronecker._matmul_kronecker
 
 # Matrix
 def _matmul_scaling_matrix(scaling: Scaling, matrix: Matrix) -> Matrix:
+    if scaling.shape[1] != matrix.shape[0]:
+        raise ValueError(
+            f"matmul received invalid shapes {scaling.shape} @ {matrix.shape}"
+        )
+
+    if isinstance(matrix.A, scipy.sparse.spmatrix):
+        return NotImplemented
+
     return Matrix(A=np.multiply(scaling.factors[:, np.newaxis], matrix.A))
 
 
 def _matmul_matrix_scaling(matrix: Matrix, scaling: Scaling) -> Matrix:
+    if matrix.shape[1] != scaling.shape[0]:
+        raise ValueError(
+            f"matmul received invalid shapes {matrix.shape} @ {scaling.shape}"
+        )
+
+    if isinstance(matrix.A, scipy.sparse.spmatrix):
+        return NotImplemented
+
     return Matrix(A=np.multiply(matrix.A, scaling.factors))
 
 
-- 
2.43.0


From e8429e5a5a6e9ee389b36b5974c738498498df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 03/94] fix: sums and differences of matrices with different
 shapes are rejected instead of broadcast

---
 src/probnum/linops/_arithmetic.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index bd67dfa..6f8d6cc 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -284,8 +284,23 @@ _matmul_fns[(Embedding, Matrix)] = lambda emb, mat: Matrix(emb @ mat.A)
 _matmul_fns[(Matrix, Selection)] = lambda mat, sel: Matrix(mat.A @ sel)
 _matmul_fns[(Matrix, Embedding)] = lambda mat, emb: Matrix(mat.A @ emb)
 
-_add_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A + mat2.A)
-_sub_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A - mat2.A)
+
+def _add_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Matrix:
+    if mat1.shape != mat2.shape:
+        raise ValueError(f"add received invalid shapes {mat1.shape} + {mat2.shape}")
+
+    return Matrix(mat1.A + mat2.A)
+
+
+def _sub_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Matrix:
+    if mat1.shape != mat2.shape:
+        raise ValueError(f"sub received invalid shapes {mat1.shape} - {mat2.shape}")
+
+    return Matrix(mat1.A - mat2.A)
+
+
+_add_fns[(Matrix, Matrix)] = _add_matrix_matrix
+_sub_fns[(Matrix, Matrix)] = _sub_matrix_matrix
 
 
 def _matmul_matrix_wrapped(
-- 
2.43.0


From fe462f581eba34148fb13e2ab891f8269f240ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:46 +0000
Subject: [PATCH 04/94] fix: products of sparse matrices with selections,
 embeddings, inverses and transposes no longer crash

---
 src/probnum/linops/_arithmetic.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 6f8d6cc..2a3a340 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -279,10 +279,29 @@ _matmul_fns[(Scaling, Matrix)] = _matmul_scaling_matrix
 _matmul_fns[(Matrix, Scaling)] = _matmul_matrix_scaling
 
 
-_matmul_fns[(Selection, Matrix)] = lambda sel, mat: Matrix(sel @ mat.A)
-_matmul_fns[(Embedding, Matrix)] = lambda emb, mat: Matrix(emb @ mat.A)
-_matmul_fns[(Matrix, Selection)] = lambda mat, sel: Matrix(mat.A @ sel)
-_matmul_fns[(Matrix, Embedding)] = lambda mat, emb: Matrix(mat.A @ emb)
+
+def _matmul_op_matrix(
+    linop: LinearOperator, mat: Matrix
+) -> Union[Matrix, NotImplementedType]:
+    if isinstance(mat.A, scipy.sparse.spmatrix):
+        return NotImplemented
+
+    return Matrix(linop @ mat.A)
+
+
+def _matmul_matrix_op(
+    mat: Matrix, linop: LinearOperator
+) -> Union[Matrix, NotImplementedType]:
+    if isinstance(mat.A, scipy.sparse.spmatrix):
+        return NotImplemented
+
+    return Matrix(mat.A @ linop)
+
+
+_matmul_fns[(Selection, Matrix)] = _matmul_op_matrix
+_matmul_fns[(Embedding, Matrix)] = _matmul_op_matrix
+_matmul_fns[(Matrix, Selection)] = _matmul_matrix_op
+_matmul_fns[(Matrix, Embedding)] = _matmul_matrix_op
 
 
 def _add_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Matrix:
@@ -307,7 +326,7 @@ def _matmul_matrix_wrapped(
     mat: Matrix, wrapped: Union[_InverseLinearOperator, TransposedLinearOperator]
 ) -> Union[Matrix, NotImplementedType]:
     if not config.lazy_matrix_matrix_matmul:
-        return Matrix(mat.A @ wrapped)
+        return _matmul_matrix_op(mat, wrapped)
     return NotImplemented
 
 
@@ -315,7 +334,7 @@ def _matmul_wrapped_matrix(
     wrapped: Union[_InverseLinearOperator, TransposedLinearOperator], mat: Matrix
 ) -> Union[Matrix, NotImplementedType]:
     if not config.lazy_matrix_matrix_matmul:
-        return Matrix(wrapped @ mat.A)
+        return _matmul_op_matrix(wrapped, mat)
     return NotImplemented
 
 
-- 
2.43.0


From dd9d70d98dd83a8cc679a9804e8101bbfa4ff360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:46 +0000
Subject: [PATCH 05/94] fix: dense form, transpose and products of embeddings
 respect the take indices and dtype

---
 src/probnum/linops/_arithmetic.py      |  8 +++++--
 src/probnum/linops/_linear_operator.py | 29 +++++++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 2a3a340..d006828 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -369,10 +369,14 @@ def _matmul_selection_embedding(
     selection: Selection, embedding: Embedding
 ) -> Union[NotImplementedType, Identity]:
 
-    if (embedding.shape[-1] == selection.shape[-2]) and np.all(
+    if (
         selection.indices == embedding._put_indices
+        and embedding._take_indices == tuple(range(embedding.shape[1]))
     ):
-        return Identity(shape=(selection.shape[-2], embedding.shape[-1]))
+        return Identity(
+            shape=(selection.shape[-2], embedding.shape[-1]),
+            dtype=np.result_type(selection.dtype, embedding.dtype),
+        )
 
     return NotImplemented
 
diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 81854bd..216a56d 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1797,6 +1797,7 @@ class Selection(LambdaLinearOperator):
                 take_indices=np.arange(len(self._indices)),
                 put_indices=self._indices,
                 shape=(self.shape[1], self.shape[0]),
+                dtype=self.dtype,
             ),
         )
 
@@ -1807,7 +1808,7 @@ class Selection(LambdaLinearOperator):
         return self._indices
 
     def _todense(self):
-        res = np.eye(self.shape[1], self.shape[1])
+        res = np.eye(self.shape[1], self.shape[1], dtype=self.dtype)
         return _selection_matmul(self.indices, res)
 
 
@@ -1850,21 +1851,35 @@ class Embedding(LambdaLinearOperator):
             dtype=dtype,
             shape=shape,
             matmul=lambda x: _embedding_matmul(self, x),
-            todense=self._todense,
-            transpose=lambda: Selection(
-                indices=put_indices, shape=(self.shape[1], self.shape[0])
-            ),
         )
 
     def _todense(self):
-        return self.T.todense().T
+        res = np.zeros(self.shape, dtype=self.dtype)
+        res[self._put_indices, self._take_indices] = 1
+        return res
+
+    def _transpose(self) -> LinearOperator:
+        if sorted(self._take_indices) == list(range(self.shape[1])):
+            return Selection(
+                indices=tuple(
+                    put for _, put in sorted(zip(self._take_indices, self._put_indices))
+                ),
+                shape=(self.shape[1], self.shape[0]),
+                dtype=self.dtype,
+            )
+
+        return super()._transpose()
 
 
 def _embedding_matmul(embedding, M):
     # pylint: disable=protected-access
     res_shape = np.array(M.shape)
     res_shape[-2] = embedding.shape[0]
-    res = np.full(shape=tuple(res_shape), fill_value=embedding._fill_value)
+    res = np.full(
+        shape=tuple(res_shape),
+        fill_value=embedding._fill_value,
+        dtype=np.result_type(M.dtype, embedding.dtype),
+    )
     take_from_M = M[..., np.array(embedding._take_indices), :]
     res[..., np.array(embedding._put_indices), :] = take_from_M
     return res
-- 
2.43.0


From 9bb582b588f065c8ce4c211274c92e769770b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:46 +0000
Subject: [PATCH 06/94] fix: casting a transposed operator and transposing the
 result no longer recurses without bound

---
 src/probnum/linops/_linear_operator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 216a56d..fa439b8 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1485,7 +1485,12 @@ class TransposedLinearOperator(LambdaLinearOperator):
     def _astype(
         self, dtype: np.dtype, order: str, casting: str, copy: bool
     ) -> LinearOperator:
-        return self._linop.astype(dtype, order=order, casting=casting, copy=copy).T
+        if self.dtype == dtype and not copy:
+            return self
+
+        return TransposedLinearOperator(
+            self._linop.astype(dtype, order=order, casting=casting, copy=copy)
+        )
 
     def __repr__(self) -> str:
         return f"Transpose of {self._linop}"
-- 
2.43.0


From b8a172e6a5a8225b15240ee4f81e6240c335f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:46 +0000
Subject: [PATCH 07/94] fix: square products of rectangular operators can be
 inverted and have determinants

---
 src/probnum/linops/_arithmetic_fallbacks.py | 40 +++++++++++++++------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/probnum/linops/_arithmetic_fallbacks.py b/src/probnum/linops/_arithmetic_fallbacks.py
index 0b05771..bd22af1 100644
--- a/src/probnum/linops/_arithmetic_fallbacks.py
+++ b/src/probnum/linops/_arithmetic_fallbacks.py
@@ -203,17 +203,10 @@ class ProductLinearOperator(LambdaLinearOperator):
             transpose=lambda: ProductLinearOperator(
                 *(factor.T for factor in reversed(self._factors))
             ),
-            inverse=lambda: ProductLinearOperator(
-                *(factor.inv() for factor in reversed(self._factors))
-            ),
-            det=lambda: functools.reduce(
-                operator.mul, (factor.det() for factor in self._factors)
-            ),
-            logabsdet=lambda: functools.reduce(
-                operator.add, (factor.logabsdet() for factor in self._factors)
-            ),
         )
 
+        self._all_factors_square = all(factor.is_square for factor in self._factors)
+
     @property
     def factors(self) -> Tuple[LinearOperator, ...]:
         """The factors that make up this product of :class:`LinearOperator`s."""
@@ -238,7 +231,34 @@ class ProductLinearOperator(LambdaLinearOperator):
         return res
 
     def _solve(self, B: np.ndarray) -> np.ndarray:
-        return functools.reduce(lambda b, op: op.solve(b), self._factors, B)
+        if self._all_factors_square:
+            return functools.reduce(lambda b, op: op.solve(b), self._factors, B)
+
+        return super()._solve(B)
+
+    def _inverse(self) -> LinearOperator:
+        if self._all_factors_square:
+            return ProductLinearOperator(
+                *(factor.inv() for factor in reversed(self._factors))
+            )
+
+        return super()._inverse()
+
+    def _det(self) -> np.inexact:
+        if self._all_factors_square:
+            return functools.reduce(
+                operator.mul, (factor.det() for factor in self._factors)
+            )
+
+        return super()._det()
+
+    def _logabsdet(self) -> np.floating:
+        if self._all_factors_square:
+            return functools.reduce(
+                operator.add, (factor.logabsdet() for factor in self._factors)
+            )
+
+        return super()._logabsdet()
 
 
 def _matmul_fallback(
-- 
2.43.0


From dc6bb1c9ebcce0dc0ceeac935416b350d1e5e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:15 +0000
Subject: [PATCH 08/94] fix: condition number of a singular integer Scaling no
 longer raises AttributeError

---
 src/probnum/linops/_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index 56fb577..71101b5 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -294,7 +294,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
 
     def _cond_isotropic(self, p: Union[None, int, float, str]) -> np.floating:
         if self._scalar == 0:
-            return self._inexact_dtype.type(np.inf)
+            return probnum.utils.as_numpy_scalar(np.inf, dtype=self._inexact_dtype)
 
         if p is None or p in (2, 1, np.inf, -2, -1, -np.inf):
             return probnum.utils.as_numpy_scalar(1.0, dtype=self._inexact_dtype)
-- 
2.43.0


From a4a6f1b0895cde18a4da0a4e534daddc266e524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:15 +0000
Subject: [PATCH 09/94] fix: Cholesky factorization of structured operators
 does not depend on what is known about their factors

---
 src/probnum/linops/_block.py     |  4 ++--
 src/probnum/linops/_kronecker.py | 40 ++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/probnum/linops/_block.py b/src/probnum/linops/_block.py
index 3addc77..1bb5da4 100644
--- a/src/probnum/linops/_block.py
+++ b/src/probnum/linops/_block.py
@@ -137,8 +137,8 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
             return np.concatenate([block.diagonal() for block in self.blocks])
         return super()._diagonal()
 
-    def _cholesky(self, lower: bool) -> BlockDiagonalMatrix:
-        if self._all_blocks_square:
+    def _cholesky(self, lower: bool) -> _linear_operator.LinearOperator:
+        if all(block.is_symmetric for block in self.blocks):
             return BlockDiagonalMatrix(
                 *[block.cholesky(lower) for block in self.blocks]
             )
diff --git a/src/probnum/linops/_kronecker.py b/src/probnum/linops/_kronecker.py
index f62598c..b0731df 100644
--- a/src/probnum/linops/_kronecker.py
+++ b/src/probnum/linops/_kronecker.py
@@ -224,15 +224,18 @@ class Kronecker(_linear_operator.LinearOperator):
 
         return NotImplemented
 
-    def _cholesky(self, lower: bool = True) -> Kronecker:
-        # A Kronecker product is symmetric iff its factors are symmetric, since
-        # (A (x) B)^T = A^T (x) B^T
-        assert self.A.is_symmetric and self.B.is_symmetric
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if self.A.is_symmetric and self.B.is_symmetric:
+            try:
+                return Kronecker(
+                    A=self.A.cholesky(lower),
+                    B=self.B.cholesky(lower),
+                )
+            except np.linalg.LinAlgError:
+                # The product of two negative-definite factors is positive-definite
+                pass
 
-        return Kronecker(
-            A=self.A.cholesky(lower),
-            B=self.B.cholesky(lower),
-        )
+        return super()._cholesky(lower)
 
     def _symmetrize(self) -> _linear_operator.LinearOperator:
         # This is only an approximation to the closest symmetric matrix in the
@@ -441,8 +444,12 @@ class SymmetricKronecker(_linear_operator.LinearOperator):
         return super()._cond(p)
 
     def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
-        if self._identical_factors:
-            return SymmetricKronecker(A=self.A.cholesky(lower))
+        if self._identical_factors and self.A.is_symmetric:
+            try:
+                return SymmetricKronecker(A=self.A.cholesky(lower))
+            except np.linalg.LinAlgError:
+                # (-A) (x) (-A) = A (x) A is positive-definite
+                pass
 
         return super()._cholesky(lower)
 
@@ -509,11 +516,14 @@ class IdentityKronecker(Kronecker):
         # (I (x) B)^-1 = I (x) B^-1
         return IdentityKronecker(self.num_blocks, B=self.B.inv())
 
-    def _cholesky(self, lower: bool = True) -> IdentityKronecker:
-        return IdentityKronecker(
-            num_blocks=self.num_blocks,
-            B=self.B.cholesky(lower),
-        )
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if self.B.is_symmetric:
+            return IdentityKronecker(
+                num_blocks=self.num_blocks,
+                B=self.B.cholesky(lower),
+            )
+
+        return super()._cholesky(lower)
 
     def _symmetrize(self) -> IdentityKronecker:
         # In contrast to the implementation for the generic Kronecker product, this is
-- 
2.43.0


From 8e904bbe4d85b4c1b5aef39796308bfd9555d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:15 +0000
Subject: [PATCH 10/94] fix: Cholesky factorization of a transposed operator no
 longer recurses without bound

---
 src/probnum/linops/_linear_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index fa439b8..3137f6e 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1496,7 +1496,7 @@ class TransposedLinearOperator(LambdaLinearOperator):
         return f"Transpose of {self._linop}"
 
     def _cholesky(self, lower: bool = True) -> LinearOperator:
-        return super().cholesky(lower)
+        return super()._cholesky(lower)
 
 
 class _InverseLinearOperator(LambdaLinearOperator):
-- 
2.43.0


From 50e258357108aab9567fe51071151547483d04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:56 +0000
Subject: [PATCH 11/94] fix: eigenvalues of a type-cast operator keep their
 imaginary part

---
 src/probnum/linops/_linear_operator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 3137f6e..c4726c7 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1584,7 +1584,6 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             transpose=lambda: self._linop.T.astype(dtype),
             inverse=lambda: self._linop.inv().astype(self._inexact_dtype),
             rank=self._linop.rank,
-            eigvals=lambda: self._linop.eigvals().astype(self._inexact_dtype),
             cond=lambda p: self._linop.cond(p=p).astype(self._inexact_dtype),
             det=lambda: self._linop.det().astype(self._inexact_dtype),
             logabsdet=lambda: self._linop.logabsdet().astype(self._inexact_dtype),
@@ -1592,6 +1591,15 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             diagonal=lambda: self._linop.diagonal().astype(dtype),
         )
 
+    def _eigvals(self) -> np.ndarray:
+        eigvals = self._linop.eigvals()
+
+        # Real operators can have complex eigenvalues
+        if np.iscomplexobj(eigvals):
+            return eigvals.astype(np.result_type(self._inexact_dtype, np.complex64))
+
+        return eigvals.astype(self._inexact_dtype)
+
     def _astype(
         self, dtype: np.dtype, order: str, casting: str, copy: bool
     ) -> LinearOperator:
-- 
2.43.0


From db16b59a3e4d5294460ded2af4445687376d9bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:11 +0000
Subject: [PATCH 12/94] fix: block diagonal matrices with rectangular blocks
 make no claims inferred from the blocks

---
 src/probnum/linops/_block.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/probnum/linops/_block.py b/src/probnum/linops/_block.py
index 1bb5da4..bff70f4 100644
--- a/src/probnum/linops/_block.py
+++ b/src/probnum/linops/_block.py
@@ -50,16 +50,19 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
 
         self._blocks = blocks
 
-        self.is_symmetric = self._infer_property(lambda block: block.is_symmetric)
-        self.is_positive_definite = self._infer_property(
-            lambda block: block.is_positive_definite
-        )
-        self.is_upper_triangular = self._infer_property(
-            lambda block: block.is_upper_triangular
-        )
-        self.is_lower_triangular = self._infer_property(
-            lambda block: block.is_lower_triangular
-        )
+        # Rectangular blocks do not line up with the diagonal, so their properties
+        # don't carry over to the block diagonal matrix
+        if self._all_blocks_square:
+            self.is_symmetric = self._infer_property(lambda block: block.is_symmetric)
+            self.is_positive_definite = self._infer_property(
+                lambda block: block.is_positive_definite
+            )
+            self.is_upper_triangular = self._infer_property(
+                lambda block: block.is_upper_triangular
+            )
+            self.is_lower_triangular = self._infer_property(
+                lambda block: block.is_lower_triangular
+            )
 
     @property
     def blocks(self) -> tuple[_linear_operator.LinearOperator]:
-- 
2.43.0


From 2565af7f408bf3d9f2a6fc85da33a03b87f6b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:35 +0000
Subject: [PATCH 13/94] fix: transposing a transpose does not fail after a
 property of the original operator was set

---
 src/probnum/linops/_linear_operator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index c4726c7..a266f22 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -943,10 +943,15 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
         transposed = self._transpose()
 
-        transposed.is_upper_triangular = self.is_lower_triangular
-        transposed.is_lower_triangular = self.is_upper_triangular
-        transposed.is_symmetric = self.is_symmetric
-        transposed.is_positive_definite = self.is_positive_definite
+        # `transposed` might be an existing linear operator, about which more is known
+        if self.is_lower_triangular is not None:
+            transposed.is_upper_triangular = self.is_lower_triangular
+        if self.is_upper_triangular is not None:
+            transposed.is_lower_triangular = self.is_upper_triangular
+        if self.is_symmetric is not None:
+            transposed.is_symmetric = self.is_symmetric
+        if self.is_positive_definite is not None:
+            transposed.is_positive_definite = self.is_positive_definite
 
         return transposed
 
-- 
2.43.0


From a9b400521a086ae3bd7ad8ec6daaad74d2db3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:35 +0000
Subject: [PATCH 14/94] fix: the transposed cached Cholesky factor is always
 flagged as triangular

---
 src/probnum/linops/_linear_operator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index a266f22..2985adc 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -869,7 +869,14 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
             or self._cholesky_cache.is_upper_triangular
         )
 
-        return self._cholesky_cache.T
+        cholesky_transposed = self._cholesky_cache.T
+
+        if lower:
+            cholesky_transposed.is_lower_triangular = True
+        else:
+            cholesky_transposed.is_upper_triangular = True
+
+        return cholesky_transposed
 
     def _cholesky(self, lower: bool) -> LinearOperator:
         return Matrix(
-- 
2.43.0


From b46f3902e9a62c8895999c82495ead582cebecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:36 +0000
Subject: [PATCH 15/94] fix: comparing sparse matrices for equality no longer
 raises

---
 src/probnum/linops/_linear_operator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 2985adc..eb4ae16 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1690,6 +1690,13 @@ class Matrix(LambdaLinearOperator):
         if not self._is_type_shape_dtype_equal(other):
             return False
 
+        if isinstance(self.A, scipy.sparse.spmatrix) or isinstance(
+            other.A, scipy.sparse.spmatrix
+        ):
+            return np.array_equal(
+                self.todense(cache=False), other.todense(cache=False)
+            )
+
         return np.all(self.A == other.A)
 
     def __neg__(self) -> "Matrix":
-- 
2.43.0


From 6129ab80c590e48bf48bbb67d4434f25ba7b2b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 16/94] fix: scaling, dividing and unary plus of Normals with
 linear operator moments no longer fail

---
 src/probnum/randvars/_arithmetic.py | 15 +++++++++++----
 src/probnum/randvars/_normal.py     |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1ea2390..1b90aca 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -253,7 +253,7 @@ def _mul_normal_constant(
     if constant_rv.size == 1:
         if constant_rv.support == 0:
             return _Constant(
-                support=np.zeros_like(norm_rv.mean),
+                support=np.zeros(norm_rv.shape, dtype=norm_rv.dtype),
             )
 
         if norm_rv.cov_cholesky_is_precomputed:
@@ -362,19 +362,26 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
 _matmul_fns[(_Constant, _Normal)] = _matmul_constant_normal
 
 
+def _divide(value, divisor):
+    """Divide an array or a linear operator by a scalar."""
+    if isinstance(value, _linear_operators.LinearOperator):
+        return (1.0 / divisor) * value
+    return value / divisor
+
+
 def _truediv_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal:
     if constant_rv.size == 1:
         if constant_rv.support == 0:
             raise ZeroDivisionError
 
         if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = norm_rv.cov_cholesky / constant_rv.support
+            cov_cholesky = _divide(norm_rv.cov_cholesky, constant_rv.support)
         else:
             cov_cholesky = None
 
         return _Normal(
-            mean=norm_rv.mean / constant_rv.support,
-            cov=norm_rv.cov / (constant_rv.support**2),
+            mean=_divide(norm_rv.mean, constant_rv.support),
+            cov=_divide(norm_rv.cov, constant_rv.support**2),
             cov_cholesky=cov_cholesky,
         )
 
diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cdc428a..43512f5 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -370,7 +370,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
 
     def __pos__(self) -> "Normal":
         return Normal(
-            mean=+self.mean,
+            mean=self.mean,
             cov=self.cov,
         )
 
-- 
2.43.0


From 4e62a26847d9be581f2efc9ce7ec6a957cf124b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 17/94] fix: products of Normals with constants keep a Cholesky
 factor that fits the covariance

---
 src/probnum/randvars/_arithmetic.py | 39 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1b90aca..2fa97ab 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -274,6 +274,14 @@ _mul_fns[(_Normal, _Constant)] = _mul_normal_constant
 _mul_fns[(_Constant, _Normal)] = _swap_operands(_mul_normal_constant)
 
 
+def _cov_cholesky_of_product(cov_sqrt, cov):
+    """Cholesky factor of ``cov``, given a matrix square root of it."""
+    if not (isinstance(cov_sqrt, np.ndarray) and isinstance(cov, (np.ndarray, np.generic))):
+        # Computed from the covariance if it is required.
+        return None
+    return _utils.linalg.cholesky_update(cov_sqrt).reshape(cov.shape)
+
+
 def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal:
     """Normal random variable multiplied with a vector or matrix.
 
@@ -281,19 +289,19 @@ def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal
     is a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[0] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support.T @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
-
         mean = norm_rv.mean @ constant_rv.support
         cov = constant_rv.support.T @ (norm_rv.cov @ constant_rv.support)
 
         if cov.shape == () and mean.shape == (1,):
             cov = cov.reshape((1, 1))
 
+        if norm_rv.cov_cholesky_is_precomputed:
+            cov_cholesky = _cov_cholesky_of_product(
+                constant_rv.support.T @ norm_rv.cov_cholesky, cov
+            )
+        else:
+            cov_cholesky = None
+
         return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
 
     # This part does not do the Cholesky update,
@@ -326,17 +334,20 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
     a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[1] == 1):
+        mean = constant_rv.support @ norm_rv.mean
+        cov = constant_rv.support @ (norm_rv.cov @ constant_rv.support.T)
+
+        if cov.shape == () and mean.shape == (1,):
+            cov = cov.reshape((1, 1))
+
         if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support @ norm_rv.cov_cholesky
+            cov_cholesky = _cov_cholesky_of_product(
+                constant_rv.support @ norm_rv.cov_cholesky, cov
             )
         else:
             cov_cholesky = None
-        return _Normal(
-            mean=constant_rv.support @ norm_rv.mean,
-            cov=constant_rv.support @ (norm_rv.cov @ constant_rv.support.T),
-            cov_cholesky=cov_cholesky,
-        )
+
+        return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
 
     # This part does not do the Cholesky update,
     # because of performance configurations: currently, there is no way of switching
-- 
2.43.0


From 76e3246927d89f3c256e249149d057a7328f195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 18/94] fix: moments of single precision Normals can be
 accessed

---
 src/probnum/randvars/_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 43512f5..a212cd7 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -122,8 +122,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             logcdf = self._univariate_logcdf
             quantile = self._univariate_quantile
 
-            median = lambda: mean
-            var = lambda: cov
+            median = lambda: mean.astype(self.median_dtype, copy=False)
+            var = lambda: cov.astype(self.moment_dtype, copy=False)
             entropy = self._univariate_entropy
 
             compute_cov_cholesky = self._univariate_cov_cholesky
@@ -227,8 +227,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             quantile=quantile,
             mode=lambda: mean,
             median=median,
-            mean=lambda: mean,
-            cov=lambda: cov,
+            mean=lambda: mean.astype(self.moment_dtype, copy=False),
+            cov=lambda: cov.astype(self.moment_dtype, copy=False),
             var=var,
             entropy=entropy,
         )
-- 
2.43.0


From 334225f34e4be32c189cbe299ab3c6adc7c52025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 19/94] fix: the Cholesky factor of an operator covariance may
 be any kind of linear operator

---
 src/probnum/randvars/_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index a212cd7..93fbb51 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -149,7 +149,9 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             # shape, dtype.
             if cov_cholesky is not None:
 
-                if not isinstance(cov_cholesky, type(cov)):
+                if not isinstance(
+                    cov_cholesky, linops.LinearOperator if cov_operator else type(cov)
+                ):
                     raise TypeError(
                         f"The covariance matrix is of type `{type(cov)}`, so its "
                         f"Cholesky decomposition must be of the same type, but an "
-- 
2.43.0


From baa3cd90a53889e7170f89d704d3d1334f52857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 20/94] fix: indexing a matrix-variate Normal selects the
 covariance of the selected entries

---
 src/probnum/randvars/_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 93fbb51..4071792 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -311,11 +311,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean = self.dense_mean[key]
 
         # Select submatrix from covariance matrix
-        cov = self.dense_cov.reshape(self.shape + self.shape)
-        cov = cov[key][(...,) + key]
+        idcs = np.arange(self.size).reshape(self.shape)[key].ravel()
+        cov = self.dense_cov.reshape(self.size, self.size)[np.ix_(idcs, idcs)]
 
-        if mean.ndim > 0:
-            cov = cov.reshape(mean.size, mean.size)
+        if mean.ndim == 0:
+            cov = cov.reshape(())
 
         return Normal(
             mean=mean,
-- 
2.43.0


From 676cb70101198ec9d5dd200cd40aa2f6d765c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 21/94] fix: Normals can be reshaped to scalars and transposed
 with negative axes

---
 src/probnum/randvars/_normal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 4071792..b4912e9 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -335,6 +335,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
 
         if reshaped_mean.ndim > 0 and reshaped_cov.ndim == 0:
             reshaped_cov = reshaped_cov.reshape(1, 1)
+        elif reshaped_mean.ndim == 0:
+            reshaped_cov = reshaped_cov.reshape(())
 
         return Normal(
             mean=reshaped_mean,
@@ -350,12 +352,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean_t = self.dense_mean.transpose(*axes).copy()
 
         # Transpose covariance
-        cov_axes = axes + tuple(mean_t.ndim + axis for axis in axes)
-        cov_t = self.dense_cov.reshape(self.shape + self.shape)
-        cov_t = cov_t.transpose(*cov_axes).copy()
+        idcs = np.arange(self.size).reshape(self.shape).transpose(*axes).ravel()
+        cov_t = self.dense_cov.reshape(self.size, self.size)[np.ix_(idcs, idcs)]
 
-        if mean_t.ndim > 0:
-            cov_t = cov_t.reshape(mean_t.size, mean_t.size)
+        if mean_t.ndim == 0:
+            cov_t = cov_t.reshape(())
 
         return Normal(
             mean=mean_t,
-- 
2.43.0


From 0ccb78a47249e0e9d109383aaa9137c3d3fff173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 22/94] fix: in_support of Normal and Constant random variables
 no longer raises

---
 src/probnum/randvars/_random_variable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index da3e0dd..70ba2cf 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -397,13 +397,13 @@ class RandomVariable(Generic[ValueType]):
 
         in_support = self.__in_support(self._as_value_type(x))
 
-        if not isinstance(in_support, bool):
+        if not isinstance(in_support, (bool, np.bool_)):
             raise ValueError(
                 f"The function `in_support` must return a `bool`, but its return value "
-                f"is of type `{type(x)}`."
+                f"is of type `{type(in_support)}`."
             )
 
-        return in_support
+        return bool(in_support)
 
     def sample(self, rng: np.random.Generator, size: ShapeLike = ()) -> ValueType:
         """Draw realizations from a random variable.
-- 
2.43.0


From abed71ad44404aa690a0e57a74cc7f62ff16681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 23/94] fix: the entropy of Normal random variables can be
 accessed

---
 src/probnum/randvars/_random_variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index 70ba2cf..e8ed40f 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -823,6 +823,8 @@ class RandomVariable(Generic[ValueType]):
                         f"converted to a `np.float_`, which is not possible for "
                         f"{value} of type {type(value)}."
                     ) from err
+        elif force_scalar and np.ndim(value) == 0:
+            value = np.float_(value)
         elif not force_scalar:
             try:
                 value = np.asarray(value, dtype=np.float_)
-- 
2.43.0


From ebdbd5bc29eae95ba6d48a611cb5dd959b4f9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 24/94] fix: indexing, reshaping and transposing a random
 variable acts on its realizations, not on the sample axes

---
 src/probnum/randvars/_random_variable.py | 36 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index e8ed40f..afc7177 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -524,18 +524,25 @@ class RandomVariable(Generic[ValueType]):
         return quantile
 
     def __getitem__(self, key: ArrayIndicesLike) -> "RandomVariable":
+        idcs = np.arange(self.size).reshape(self.shape)[key]
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape)[key].shape,
+            shape=idcs.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size)[key],
+            sample=lambda rng, size: self._sample_entries(rng, size, idcs),
             mode=lambda: self.mode[key],
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
             std=lambda: self.std[key],
-            entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
+    def _sample_entries(
+        self, rng: np.random.Generator, size: ShapeType, idcs: np.ndarray
+    ) -> ValueType:
+        """Draw realizations of the entries with (flat) indices ``idcs``."""
+        return self.sample(rng, size).reshape(size + (self.size,))[..., idcs]
+
     def reshape(self, newshape: ShapeLike) -> "RandomVariable":
         """Give a new shape to a random variable.
 
@@ -545,7 +552,8 @@ class RandomVariable(Generic[ValueType]):
             New shape for the random variable. It must be compatible with the original
             shape.
         """
-        newshape = _utils.as_shape(newshape)
+        newshape = np.empty(self.shape).reshape(_utils.as_shape(newshape)).shape
+        cov_shape = (self.size, self.size) if newshape != () else ()
 
         return RandomVariable(
             shape=newshape,
@@ -554,7 +562,7 @@ class RandomVariable(Generic[ValueType]):
             mode=lambda: self.mode.reshape(newshape),
             median=lambda: self.median.reshape(newshape),
             mean=lambda: self.mean.reshape(newshape),
-            cov=lambda: self.cov,
+            cov=lambda: self.cov.reshape(cov_shape),
             var=lambda: self.var.reshape(newshape),
             std=lambda: self.std.reshape(newshape),
             entropy=lambda: self.entropy,
@@ -569,21 +577,31 @@ class RandomVariable(Generic[ValueType]):
         axes :
             See documentation of :meth:`numpy.ndarray.transpose`.
         """
+        idcs = np.arange(self.size).reshape(self.shape).transpose(*axes)
+
+        def _cov_transposed():
+            if idcs.ndim < 2:
+                return self.cov
+            return self.cov[np.ix_(idcs.ravel(), idcs.ravel())]
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape).transpose(*axes).shape,
+            shape=idcs.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size).transpose(*axes),
+            sample=lambda rng, size: self._sample_entries(rng, size, idcs),
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-            cov=lambda: self.cov,
+            cov=_cov_transposed,
             var=lambda: self.var.transpose(*axes),
             std=lambda: self.std.transpose(*axes),
             entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
-    T = property(transpose)
+    @property
+    def T(self) -> "RandomVariable":
+        """Transpose of the random variable."""
+        return self.transpose()
 
     # Unary arithmetic operations
 
-- 
2.43.0


From 12fdbe6906d9835503ed87ae64d0b7a57f734147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 25/94] fix: the probability mass of a Categorical event
 compares and sums up complete events

---
 src/probnum/randvars/_categorical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index a669556..e4b2b2e 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -67,8 +67,10 @@ class Categorical(DiscreteRandomVariable):
                     "support."
                 )
 
-            mask = (x == self.support).nonzero()[0]
-            return self.probabilities[mask][0] if len(mask) > 0 else 0.0
+            # The axes of ``x`` are those of the batch, followed by those of the events.
+            event_axes = tuple(range(-self.ndim, 0))
+            is_event = np.expand_dims(x, axis=x.ndim - self.ndim) == self.support
+            return np.all(is_event, axis=event_axes) @ self.probabilities
 
         def _mode_categorical():
             mask = np.argmax(self.probabilities)
-- 
2.43.0


From d61deebb4723e00964f6881afcd319c2ee75e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 26/94] fix: samples from Normals have the requested size and
 dtype

---
 src/probnum/randvars/_normal.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index b4912e9..6f9d708 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -487,7 +487,12 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             random_state=rng,
         )
 
-        return sample.reshape(sample.shape[:-1] + self.shape)
+        # A single realization is returned without a sample axis.
+        sample_shape = size if size != (1,) else ()
+
+        return np.reshape(sample, sample_shape + self.shape).astype(
+            self.dtype, copy=False
+        )
 
     @staticmethod
     def _arg_todense(x: Union[np.ndarray, linops.LinearOperator]) -> np.ndarray:
@@ -595,7 +600,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         n = self.mean.shape[1]
 
         # Draw standard normal samples
-        size_sample = (n * n,) + size
+        size_sample = (n * n, int(np.prod(size)))
 
         stdnormal_samples = scipy.stats.norm.rvs(size=size_sample, random_state=rng)
 
@@ -603,4 +608,5 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         samples_scaled = linops.Symmetrize(n) @ (self.cov_cholesky @ stdnormal_samples)
 
         # TODO: can we avoid todense here and just return operator samples?
-        return self.dense_mean[None, :, :] + samples_scaled.T.reshape(-1, n, n)
+        samples = self.dense_mean + samples_scaled.T.reshape(size + (n, n))
+        return samples.astype(self.dtype, copy=False)
-- 
2.43.0


From 6bd08533980a0d2d7e75465ec4ec32831c72f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:49 +0000
Subject: [PATCH 27/94] fix: arithmetic of random variables does not broadcast
 the sample axes against the axes of the realizations

---
 src/probnum/randvars/_arithmetic.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 2fa97ab..266adf9 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -125,17 +125,32 @@ def _default_rv_binary_op_factory(op_fn) -> _RandomVariableBinaryOperator:
 
 
 def _make_rv_binary_op_result_shape_dtype_sample_fn(op_fn, rv1, rv2):
-    sample_fn = lambda rng, size: op_fn(
-        rv1.sample(rng, size=size),
-        rv2.sample(rng, size=size),
-    )
-
     # Infer shape and dtype
-    infer_sample = sample_fn(np.random.default_rng(1), ())
+    rng_infer = np.random.default_rng(1)
+    infer_sample = op_fn(rv1.sample(rng_infer), rv2.sample(rng_infer))
 
     shape = infer_sample.shape
     dtype = infer_sample.dtype
 
+    def sample_fn(rng, size):
+        sample1 = rv1.sample(rng, size=size)
+        sample2 = rv2.sample(rng, size=size)
+
+        if size == ():
+            return op_fn(sample1, sample2)
+
+        # The operation must not broadcast the sample axes against the axes of the
+        # realizations.
+        shape1, shape2 = rv1.shape, rv2.shape
+        if op_fn is operator.matmul:
+            shape1 = (1,) + shape1 if rv1.ndim == 1 else shape1
+            shape2 = shape2 + (1,) if rv2.ndim == 1 else shape2
+        ndim = max(len(shape1), len(shape2))
+        sample1 = sample1.reshape(size + (1,) * (ndim - len(shape1)) + shape1)
+        sample2 = sample2.reshape(size + (1,) * (ndim - len(shape2)) + shape2)
+
+        return op_fn(sample1, sample2).reshape(size + shape)
+
     return shape, dtype, sample_fn
 
 
-- 
2.43.0


From db51fa0d73442e7622276a38d67c146db96eed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:21 +0000
Subject: [PATCH 28/94] fix: densities of multivariate Normals keep batch
 dimensions of size one

---
 src/probnum/randvars/_normal.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 6f9d708..3cde4bf 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -508,33 +508,27 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
     def _dense_in_support(x: ValueType) -> bool:
         return np.all(np.isfinite(Normal._arg_todense(x)))
 
-    def _dense_pdf(self, x: ValueType) -> np.float_:
-        return scipy.stats.multivariate_normal.pdf(
-            Normal._arg_todense(x).reshape(x.shape[: -self.ndim] + (-1,)),
+    def _evaluate_dense(self, fun: Callable, x: ValueType) -> np.float_:
+        # SciPy drops batch dimensions of size one.
+        batch_shape = x.shape[: -self.ndim]
+        values = fun(
+            Normal._arg_todense(x).reshape(batch_shape + (-1,)),
             mean=self.dense_mean.ravel(),
             cov=self.dense_cov,
         )
+        return np.reshape(values, batch_shape)[()]
+
+    def _dense_pdf(self, x: ValueType) -> np.float_:
+        return self._evaluate_dense(scipy.stats.multivariate_normal.pdf, x)
 
     def _dense_logpdf(self, x: ValueType) -> np.float_:
-        return scipy.stats.multivariate_normal.logpdf(
-            Normal._arg_todense(x).reshape(x.shape[: -self.ndim] + (-1,)),
-            mean=self.dense_mean.ravel(),
-            cov=self.dense_cov,
-        )
+        return self._evaluate_dense(scipy.stats.multivariate_normal.logpdf, x)
 
     def _dense_cdf(self, x: ValueType) -> np.float_:
-        return scipy.stats.multivariate_normal.cdf(
-            Normal._arg_todense(x).reshape(x.shape[: -self.ndim] + (-1,)),
-            mean=self.dense_mean.ravel(),
-            cov=self.dense_cov,
-        )
+        return self._evaluate_dense(scipy.stats.multivariate_normal.cdf, x)
 
     def _dense_logcdf(self, x: ValueType) -> np.float_:
-        return scipy.stats.multivariate_normal.logcdf(
-            Normal._arg_todense(x).reshape(x.shape[: -self.ndim] + (-1,)),
-            mean=self.dense_mean.ravel(),
-            cov=self.dense_cov,
-        )
+        return self._evaluate_dense(scipy.stats.multivariate_normal.logcdf, x)
 
     def _dense_var(self) -> np.ndarray:
         return np.diag(self.dense_cov).reshape(self.shape)
-- 
2.43.0


From f233c2ab264cecbbfc726a4c3659f6dd3c940c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:39 +0000
Subject: [PATCH 29/94] fix: quantiles of single precision Normals can be
 computed

---
 src/probnum/randvars/_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 3cde4bf..a118b67 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -448,7 +448,9 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         return scipy.stats.norm.logcdf(x, loc=self.mean, scale=self.std)
 
     def _univariate_quantile(self, p: FloatLike) -> np.floating:
-        return scipy.stats.norm.ppf(p, loc=self.mean, scale=self.std)
+        return np.asarray(
+            scipy.stats.norm.ppf(p, loc=self.mean, scale=self.std), dtype=self.dtype
+        )[()]
 
     def _univariate_entropy(self: ValueType) -> np.float_:
         return _utils.as_numpy_scalar(
-- 
2.43.0


From 2501cfccd1060293328bf71de1804185e8ec1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 30/94] fix: covariance functions can be evaluated at integer
 inputs

---
 .../randprocs/covfuncs/_covariance_function.py     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 77898ec..24373df 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -336,10 +336,10 @@ class CovarianceFunction(abc.ABC):
         See documentation of class :class:`CovarianceFunction`.
         """
 
-        x0 = np.asarray(x0)
+        x0 = _as_inexact_array(x0)
 
         if x1 is not None:
-            x1 = np.asarray(x1)
+            x1 = _as_inexact_array(x1)
 
         # Shape checking
         broadcast_batch_shape = self._check_shapes(
@@ -674,7 +674,7 @@ class CovarianceFunction(abc.ABC):
         return broadcast_batch_shape
 
     def _preprocess_linop_input(self, x: ArrayLike, argnum: int) -> np.ndarray:
-        x = np.asarray(x)
+        x = _as_inexact_array(x)
 
         assert argnum in (0, 1)
 
@@ -741,6 +741,14 @@ class CovarianceFunction(abc.ABC):
         return mul(other, self)
 
 
+def _as_inexact_array(x: ArrayLike) -> np.ndarray:
+    """Convert input points to an array which can represent covariances, i.e. integer
+    (and boolean) inputs are promoted to floating point numbers."""
+    x = np.asarray(x)
+
+    return x if np.issubdtype(x.dtype, np.inexact) else x.astype(np.double)
+
+
 class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
     r"""Mixin for isotropic covariance functions.
 
-- 
2.43.0


From abc8725e495d8a9ed17e0bfd948329e6657657a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 31/94] fix: cross-covariance matrices support inputs with
 different shapes

---
 src/probnum/randprocs/covfuncs/_covariance_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 24373df..18c29fd 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -686,11 +686,11 @@ class CovarianceFunction(abc.ABC):
         ):
             raise ValueError(
                 f"The shape of `x{argnum}` must must match `input_shape_{argnum}`, "
-                f"i.e. `{self.input_shape}`, of the covariance function along its "
+                f"i.e. `{input_shape}`, of the covariance function along its "
                 f"trailing dimensions, but an array with shape `{x.shape}` was given."
             )
 
-        return x.reshape((-1,) + self.input_shape, order="C")
+        return x.reshape((-1,) + input_shape, order="C")
 
     def _euclidean_inner_products(
         self, x0: np.ndarray, x1: Optional[np.ndarray]
-- 
2.43.0


From 1c97c31811efe9b42c0fd4d17c0e90b983f5cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 32/94] fix: covariance operators support inputs with more than
 one axis

---
 .../randprocs/covfuncs/_covariance_function.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 18c29fd..8e0c9eb 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -825,14 +825,17 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
 
         if x1 is None:
             x1 = x0
-        if len(x0.shape) < 2:
-            x0 = x0.reshape(-1, 1)
-        if len(x1.shape) < 2:
-            x1 = x1.reshape(-1, 1)
+        if len(x0.shape) != 2:
+            x0 = x0.reshape(x0.shape[0], -1)
+        if len(x1.shape) != 2:
+            x1 = x1.reshape(x1.shape[0], -1)
 
         sqdiffs = Vi(x0) - Vj(x1)
 
         if scale_factors is not None:
+            if np.ndim(scale_factors) > 1:
+                scale_factors = np.reshape(scale_factors, -1)
+
             sqdiffs *= Pm(scale_factors)
 
         sqdiffs *= sqdiffs
-- 
2.43.0


From 3a8565c93901bd05b04a8979a3b99542099371ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:26 +0000
Subject: [PATCH 33/94] fix: covariance operators support single precision
 inputs

---
 src/probnum/randprocs/covfuncs/_covariance_function.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 8e0c9eb..770b4f4 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -830,11 +830,16 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         if len(x1.shape) != 2:
             x1 = x1.reshape(x1.shape[0], -1)
 
+        # KeOps requires all operands to have the same dtype
+        dtype = np.promote_types(x0.dtype, x1.dtype)
+        x0 = x0.astype(dtype, copy=False)
+        x1 = x1.astype(dtype, copy=False)
+
         sqdiffs = Vi(x0) - Vj(x1)
 
         if scale_factors is not None:
-            if np.ndim(scale_factors) > 1:
-                scale_factors = np.reshape(scale_factors, -1)
+            # `Pm` only accepts one-dimensional arrays
+            scale_factors = np.asarray(scale_factors, dtype=dtype).reshape(-1)
 
             sqdiffs *= Pm(scale_factors)
 
-- 
2.43.0


From 5c840130714d0168d017d2de1b4ef3785bfb1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:38 +0000
Subject: [PATCH 34/94] fix: evaluating a Gaussian process at a single scalar
 input or with vector-valued outputs

---
 src/probnum/randprocs/_gaussian_process.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/_gaussian_process.py b/src/probnum/randprocs/_gaussian_process.py
index aea560d..d827fb3 100644
--- a/src/probnum/randprocs/_gaussian_process.py
+++ b/src/probnum/randprocs/_gaussian_process.py
@@ -73,7 +73,16 @@ class GaussianProcess(_random_process.RandomProcess[ArrayLike, np.ndarray]):
         )
 
     def __call__(self, args: ArrayLike) -> randvars.Normal:
+        mean = np.array(self.mean(args), copy=False)  # pylint: disable=not-callable
+        cov = self.cov.matrix(args)
+
+        # `cov.matrix` puts the output dimensions before the batch dimensions, while
+        # the mean puts the batch dimensions first.
+        if self.output_ndim > 0:
+            output_size = int(np.prod(self.output_shape))
+            batch_size = mean.size // output_size
+            cov = cov.reshape(2 * (output_size, batch_size)).transpose((1, 0, 3, 2))
+
         return randvars.Normal(
-            mean=np.array(self.mean(args), copy=False),  # pylint: disable=not-callable
-            cov=self.cov.matrix(args),
+            mean=mean, cov=cov.reshape(2 * (mean.size,) if mean.ndim > 0 else ())
         )
-- 
2.43.0


From 769b90520bd984a16a35a2ef742688453f747a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:38 +0000
Subject: [PATCH 35/94] fix: the variance of a random process accepts all
 array-like inputs

---
 src/probnum/randprocs/_random_process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/randprocs/_random_process.py b/src/probnum/randprocs/_random_process.py
index 3086137..d11fd6b 100644
--- a/src/probnum/randprocs/_random_process.py
+++ b/src/probnum/randprocs/_random_process.py
@@ -238,6 +238,7 @@ class RandomProcess(Generic[InputType, OutputType], abc.ABC):
             *shape=* ``batch_shape +`` :attr:`output_shape` -- Variance of the process
             at ``args``.
         """
+        args = np.asarray(args)
         pointwise_covs = self.cov(args, None)  # pylint: disable=not-callable
 
         assert (
-- 
2.43.0


From 8af97c6fcf16370d9cd7999f1babb216aff0929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:17 +0000
Subject: [PATCH 36/94] fix: adding a zero function with mismatched shapes is
 rejected

---
 src/probnum/functions/_algebra.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/probnum/functions/_algebra.py b/src/probnum/functions/_algebra.py
index 4b757e8..800f9e7 100644
--- a/src/probnum/functions/_algebra.py
+++ b/src/probnum/functions/_algebra.py
@@ -4,6 +4,19 @@ from ._algebra_fallbacks import SumFunction
 from ._function import Function
 from ._zero import Zero
 
+
+def _assert_equal_shapes(f: Function, g: Function) -> None:
+    if f.input_shape != g.input_shape:
+        raise ValueError(
+            "The functions to be added must all have the same input shape."
+        )
+
+    if f.output_shape != g.output_shape:
+        raise ValueError(
+            "The functions to be added must all have the same output shape."
+        )
+
+
 ############
 # Function #
 ############
@@ -20,7 +33,8 @@ def _(self, other: SumFunction) -> SumFunction:
 
 
 @Function.__add__.register  # pylint: disable=no-member
-def _(self, other: Zero) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Zero) -> Function:
+    _assert_equal_shapes(self, other)
     return self
 
 
@@ -30,7 +44,8 @@ def _(self, other: Function) -> SumFunction:
 
 
 @Function.__sub__.register  # pylint: disable=no-member
-def _(self, other: Zero) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Zero) -> Function:
+    _assert_equal_shapes(self, other)
     return self
 
 
@@ -60,10 +75,12 @@ def _(self, other: Function) -> SumFunction:
 
 
 @Zero.__add__.register  # pylint: disable=no-member
-def _(self, other: Function) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Function) -> Function:
+    _assert_equal_shapes(self, other)
     return other
 
 
 @Zero.__sub__.register  # pylint: disable=no-member
-def _(self, other: Function) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Function) -> Function:
+    _assert_equal_shapes(self, other)
     return -other
-- 
2.43.0


From 0f998ea7d3119933315a87beba77efbf688169ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 37/94] fix: use every base measure realization exactly once in
 forward sampling

---
 src/probnum/randprocs/markov/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/_transition.py b/src/probnum/randprocs/markov/_transition.py
index 25c94f0..b11edab 100644
--- a/src/probnum/randprocs/markov/_transition.py
+++ b/src/probnum/randprocs/markov/_transition.py
@@ -471,7 +471,7 @@ class Transition(abc.ABC):
             curr_sample = (
                 curr_rv.mean
                 + curr_rv.cov_cholesky
-                @ base_measure_realizations[idx - 1].reshape((-1,))
+                @ base_measure_realizations[idx].reshape((-1,))
             )
             out_samples.append(curr_sample)
         return out_samples
-- 
2.43.0


From 6086ec78c0552e4df7d1e9baf834d18818b72708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 38/94] fix: order of the force vector entries in discretised
 LTI SDEs

---
 src/probnum/randprocs/markov/continuous/_lti_sde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_lti_sde.py b/src/probnum/randprocs/markov/continuous/_lti_sde.py
index c90f325..43b8975 100644
--- a/src/probnum/randprocs/markov/continuous/_lti_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_lti_sde.py
@@ -158,7 +158,7 @@ class LTISDE(_linear_sde.LinearSDE):
                 drift_matrix, dispersion_matrix, dt
             )
             proj = np.eye(self.state_dimension, 2 * self.state_dimension)
-            proj_rev = np.flip(proj, axis=1)
+            proj_rev = np.roll(proj, self.state_dimension, axis=1)
             ah = proj @ ah_stack @ proj.T
             sh = proj @ ah_stack @ proj_rev.T @ self.force_vector
             qh = proj @ qh_stack @ proj.T
-- 
2.43.0


From 195bb4aae90664e0545e420e7527da3135a2a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 39/94] fix: preconditioning of user-provided smoothing gains

---
 src/probnum/randprocs/markov/integrator/_ioup.py   | 2 +-
 src/probnum/randprocs/markov/integrator/_iwp.py    | 2 +-
 src/probnum/randprocs/markov/integrator/_matern.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/integrator/_ioup.py b/src/probnum/randprocs/markov/integrator/_ioup.py
index e024c35..bfaef59 100644
--- a/src/probnum/randprocs/markov/integrator/_ioup.py
+++ b/src/probnum/randprocs/markov/integrator/_ioup.py
@@ -225,7 +225,7 @@ class IntegratedOrnsteinUhlenbeckTransition(
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index b62c6ac..2e2cc51 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -263,7 +263,7 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
diff --git a/src/probnum/randprocs/markov/integrator/_matern.py b/src/probnum/randprocs/markov/integrator/_matern.py
index e8db12d..215d09a 100644
--- a/src/probnum/randprocs/markov/integrator/_matern.py
+++ b/src/probnum/randprocs/markov/integrator/_matern.py
@@ -228,7 +228,7 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
-- 
2.43.0


From 62244871775b138e0866f7df9288483f3c81fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 40/94] fix: discretised integrated Wiener process uses the
 backward implementation

---
 src/probnum/randprocs/markov/integrator/_iwp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index 2e2cc51..fd2d0ff 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -313,5 +313,5 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
                 cov_cholesky=proc_noise_cov_cholesky,
             ),
             forward_implementation=self.forward_implementation,
-            backward_implementation=self.forward_implementation,
+            backward_implementation=self.backward_implementation,
         )
-- 
2.43.0


From 108b2fe9c37b9d62a2b69aafb81a6763e77aa8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 41/94] fix: piecewise constant diffusions are continuous from
 the right

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 43d33cf..e24ca45 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -141,9 +141,8 @@ class PiecewiseConstantDiffusion(Diffusion):
 
         # The "-1" in here makes up for the fact that the locations contains one more
         # element than the diffusions.
-        indices = np.searchsorted(self.locations, t) - 1
-        indices[t < self.t0] = 0
-        indices[t > self.tmax] = -1
+        indices = np.searchsorted(self.locations, t, side="right") - 1
+        indices = np.clip(indices, 0, len(self._diffusions) - 1)
 
         if t_has_been_promoted:
             indices = indices[0]
-- 
2.43.0


From 10126c055e820a429df8cadc827c938912395830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:40 +0000
Subject: [PATCH 42/94] fix: constant diffusion is the running mean of the
 local estimates

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index e24ca45..a0d4dd3 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -87,7 +87,7 @@ class ConstantDiffusion(Diffusion):
         if self.diffusion is None:
             self.diffusion = local_estimate
         else:
-            a = 1 / self._seen_diffusions
+            a = 1 / (self._seen_diffusions + 1)
             b = 1 - a
             self.diffusion = a * local_estimate + b * self.diffusion
         self._seen_diffusions += 1
-- 
2.43.0


From 2014a1cb4bf2a906f44780c0a4514557283dd46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 43/94] fix: do not flip signs of the derivative in square-root
 moment equations

---
 src/probnum/randprocs/markov/continuous/_linear_sde.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_linear_sde.py b/src/probnum/randprocs/markov/continuous/_linear_sde.py
index 2e7f611..bab7567 100644
--- a/src/probnum/randprocs/markov/continuous/_linear_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_linear_sde.py
@@ -9,7 +9,6 @@ import scipy.linalg
 from probnum import randvars
 from probnum.randprocs.markov.continuous import _sde
 from probnum.typing import FloatLike, IntLike
-from probnum.utils.linalg import tril_to_positive_tril
 
 
 class LinearSDE(_sde.SDE):
@@ -394,8 +393,8 @@ class LinearSDE(_sde.SDE):
             )
             M = G_bar + G_bar.T + L_bar @ L_bar.T
 
-            new_cov_cholesky = tril_to_positive_tril(
-                cov_cholesky @ (np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M)))
+            new_cov_cholesky = cov_cholesky @ (
+                np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M))
             )
 
             # Vectorize outcome
-- 
2.43.0


From b7ad3c74b99d59406a57b30ac33c4c5c6d5f898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 44/94] fix: diffusion scales the noise covariance of nonlinear
 Gaussian transitions

---
 src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
index c92cf05..5da2add 100644
--- a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
+++ b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
@@ -66,7 +66,9 @@ class NonlinearGaussian(_transition.Transition):
         self, realization, t, compute_gain=False, _diffusion=1.0, **kwargs
     ):
         fun_eval = self.transition_fun(t, realization)
-        noise = _diffusion * self.noise_fun(t)
+        noise = self.noise_fun(t)
+        # The diffusion scales the covariance of the noise but not its mean.
+        noise = noise.mean + np.sqrt(_diffusion) * (noise - noise.mean)
         return fun_eval + noise, {}
 
     def forward_rv(self, rv, t, compute_gain=False, _diffusion=1.0, **kwargs):
-- 
2.43.0


From 49a8e208e15660bf0915db9647a6832e59e30272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 45/94] fix: Markov process samples with multi-dimensional
 sample size

---
 src/probnum/randprocs/markov/_markov.py | 31 +++++++++----------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 7939edd..33899be 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -62,27 +62,18 @@ class _MarkovBase(_random_process.RandomProcess):
             size=(size + args.shape + self.initrv.shape), random_state=rng
         )
 
-        if size == ():
-            return np.array(
-                self.transition.jointly_transform_base_measure_realization_list_forward(
-                    base_measure_realizations=base_measure_realizations,
-                    t=args,
-                    initrv=self.initrv,
-                    _diffusion_list=np.ones_like(args[:-1]),
-                )
+        samples = [
+            self.transition.jointly_transform_base_measure_realization_list_forward(
+                base_measure_realizations=base_real,
+                t=args,
+                initrv=self.initrv,
+                _diffusion_list=np.ones(len(args) - 1),
             )
-
-        return np.stack(
-            [
-                self.transition.jointly_transform_base_measure_realization_list_forward(
-                    base_measure_realizations=base_real,
-                    t=args,
-                    initrv=self.initrv,
-                    _diffusion_list=np.ones_like(args[:-1]),
-                )
-                for base_real in base_measure_realizations
-            ]
-        )
+            for base_real in base_measure_realizations.reshape(
+                (-1,) + args.shape + self.initrv.shape
+            )
+        ]
+        return np.reshape(samples, size + args.shape + self.initrv.shape)
 
     class Kernel(kernels.Kernel):
         def __init__(
-- 
2.43.0


From 0140dd72c33f721aaf958233615e6fcc670a090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 46/94] fix: Markov process samples at a single input have the
 shape of the state

---
 src/probnum/randprocs/markov/_markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 33899be..5b31b87 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -54,6 +54,7 @@ class _MarkovBase(_random_process.RandomProcess):
     ) -> OutputType:
 
         size = utils.as_shape(size)
+        args_shape = np.shape(args)
         args = np.atleast_1d(args)
         if args.ndim > 1:
             raise ValueError(f"Invalid args shape {args.shape}")
@@ -73,7 +74,7 @@ class _MarkovBase(_random_process.RandomProcess):
                 (-1,) + args.shape + self.initrv.shape
             )
         ]
-        return np.reshape(samples, size + args.shape + self.initrv.shape)
+        return np.reshape(samples, size + args_shape + self.initrv.shape)
 
     class Kernel(kernels.Kernel):
         def __init__(
-- 
2.43.0


From 8142c12e8f693911bea3b0e3092d6721e129559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 47/94] fix: Markov process samples start from the initial
 argument

---
 src/probnum/randprocs/markov/_markov.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 5b31b87..1805e52 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -137,6 +137,24 @@ class MarkovProcess(_MarkovBase):
         )
         self.initarg = initarg
 
+    def _sample_at_input(
+        self,
+        rng: np.random.Generator,
+        args: InputType,
+        size: ShapeLike = (),
+    ) -> OutputType:
+        args = np.asarray(args)
+
+        if args.ndim <= 1 and args.size > 0 and args.flat[0] > self.initarg:
+            # ``initrv`` describes the state at ``initarg``, not at ``args[0]``.
+            samples = super()._sample_at_input(
+                rng=rng, args=np.append(self.initarg, args), size=size
+            )
+            samples = samples[..., 1:, :]
+            return samples if args.ndim == 1 else samples[..., 0, :]
+
+        return super()._sample_at_input(rng=rng, args=args, size=size)
+
 
 class MarkovSequence(_MarkovBase):
     """Discrete-time Markov processes."""
-- 
2.43.0


From 75f5048abb06a781bd3036960511286e05ffdbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:25 +0000
Subject: [PATCH 48/94] fix: Cholesky update of tall matrix square-roots

---
 src/probnum/utils/linalg/_cholesky_updates.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/probnum/utils/linalg/_cholesky_updates.py b/src/probnum/utils/linalg/_cholesky_updates.py
index cdca28c..e7c9f4f 100644
--- a/src/probnum/utils/linalg/_cholesky_updates.py
+++ b/src/probnum/utils/linalg/_cholesky_updates.py
@@ -67,13 +67,12 @@ def cholesky_update(
     else:
         stacked_up = np.vstack(S1.T)
     upper_sqrtm = np.linalg.qr(stacked_up, mode="r")
-    if S1.ndim == 1:
-        lower_sqrtm = upper_sqrtm.T
-    elif S1.shape[0] <= S1.shape[1]:
-        lower_sqrtm = upper_sqrtm.T
-    else:
-        lower_sqrtm = np.zeros((S1.shape[0], S1.shape[0]))
-        lower_sqrtm[:, : -(S1.shape[0] - S1.shape[1])] = upper_sqrtm.T
+    lower_sqrtm = upper_sqrtm.T
+    if lower_sqrtm.shape[1] < lower_sqrtm.shape[0]:
+        # Fewer columns than rows: pad with zeros to obtain a square factor.
+        padded = np.zeros((lower_sqrtm.shape[0], lower_sqrtm.shape[0]))
+        padded[:, : lower_sqrtm.shape[1]] = lower_sqrtm
+        lower_sqrtm = padded
 
     return tril_to_positive_tril(lower_sqrtm)
 
-- 
2.43.0


From d63a25e849a538d052aa04c5d211fb58f1ddd7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 49/94] fix: Kalman filter evaluates time-varying models at the
 right time points

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 45869e4..c0fdeed 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -271,7 +271,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                     None if _previous_posterior is None else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
-                    curr_rv, t, dt=dt, _linearise_at=linearise_predict_at
+                    curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
                 )
                 curr_rv, info_dict["predict_info"] = output
 
@@ -280,7 +280,10 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                 None if _previous_posterior is None else _previous_posterior(t)
             )
             curr_rv, info_dict["update_info"] = measmod.backward_realization(
-                realization_obtained=data, rv=curr_rv, _linearise_at=linearise_update_at
+                realization_obtained=data,
+                rv=curr_rv,
+                t=t,
+                _linearise_at=linearise_update_at,
             )
 
             yield t, curr_rv, info_dict
-- 
2.43.0


From 8b8631e0e3868b0aae53c40803e1ff1a7a10ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 50/94] fix: iterated smoothing linearises the backward pass at
 the previous posterior

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index c0fdeed..cfe066b 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -170,7 +170,9 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             _previous_posterior=_previous_posterior,
         )
         filter_posterior, info_dicts = filter_result
-        smooth_posterior = self.smooth(filter_posterior)
+        smooth_posterior = self.smooth(
+            filter_posterior, _previous_posterior=_previous_posterior
+        )
         return smooth_posterior, info_dicts
 
     def filter(
@@ -311,6 +313,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             filter_posterior.states,
             filter_posterior.locations,
             _diffusion_list=diffusion_list,
+            _previous_posterior=_previous_posterior,
         )
 
         return _kalmanposterior.SmoothingPosterior(
-- 
2.43.0


From 291c606aa1bad8b10f491bf78726ff8303de84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 51/94] fix: dense output of the smoothing posterior predicts
 from the filtering state

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 79eddf7..392e9fe 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -244,8 +244,10 @@ class SmoothingPosterior(KalmanPosterior):
         dt_right = next_location - t
         assert dt_left > 0.0
         assert dt_right > 0.0
+        # The smoothing state at the left point already contains the information from
+        # the right point, thus the prediction has to start at the filtering state.
         filtered_rv, _ = self.transition.forward_rv(
-            rv=previous_state,
+            rv=self.filtering_posterior.states[previous_index],
             t=previous_location,
             dt=dt_left,
             _diffusion=squared_diffusion,
-- 
2.43.0


From 146a3ed9618c2faf32bd9855e57b178749ae2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 52/94] fix: posteriors use the diffusion of the interval that
 contains the time point

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 392e9fe..f8c4db8 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -196,12 +196,10 @@ class SmoothingPosterior(KalmanPosterior):
         # This block avoids calling self.diffusion_model, because we do not want
         # to search the full index set -- we already know the index!
         # This is the reason that `Diffusion` objects implement a __getitem__.
-        # The usual diffusion-index is the next index
-        # ('Diffusion's include the right-hand side gridpoint!),
-        # but if we are right of the domain, the previous_index matters.
-        diffusion_index = next_index if next_index is not None else previous_index
-        if diffusion_index >= len(self.locations) - 1:
-            diffusion_index = -1
+        # The i-th diffusion belongs to the interval between the i-th and the (i+1)-th
+        # location, i.e. the previous index is the relevant one.
+        # Right of the domain, the final diffusion is used (previous_index=-1).
+        diffusion_index = previous_index if previous_index is not None else 0
         if self.diffusion_model_has_been_provided:
             squared_diffusion = self.diffusion_model[diffusion_index]
         else:
@@ -301,7 +299,7 @@ class SmoothingPosterior(KalmanPosterior):
         # Find locations of the diffusions, which amounts to finding the locations
         # of the grid points in t (think: `all_locations`),
         # which is done via np.searchsorted:
-        diffusion_indices = np.searchsorted(self.locations[:-2], t[1:])
+        diffusion_indices = np.searchsorted(self.locations[1:-1], t[1:])
         if self.diffusion_model_has_been_provided:
             squared_diffusion_list = self.diffusion_model[diffusion_indices]
         else:
-- 
2.43.0


From 5b4590805173ff1f4616298dda64a217e192e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 53/94] fix: posterior samples follow the order of the
 requested locations

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index f8c4db8..3258e19 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -87,7 +87,7 @@ class KalmanPosterior(_timeseriesposterior.TimeSeriesPosterior, abc.ABC):
         # Compute the union (as sets) of t and self.locations
         # This allows that samples "always pass" the grid points.
         all_locations = np.union1d(t, self.locations)
-        slice_these_out = np.where(np.isin(all_locations, t))[0]
+        slice_these_out = np.searchsorted(all_locations, np.atleast_1d(t))
         base_measure_realizations = stats.norm.rvs(
             size=(size + all_locations.shape + single_rv_shape),
             random_state=rng,
-- 
2.43.0


From d24857f839ec937f9f94ba1aa0c446a57cf27c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 54/94] fix: dense output of posteriors at array-like locations

---
 src/probnum/filtsmooth/_timeseriesposterior.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/probnum/filtsmooth/_timeseriesposterior.py b/src/probnum/filtsmooth/_timeseriesposterior.py
index 11bf1ce..9dabffe 100644
--- a/src/probnum/filtsmooth/_timeseriesposterior.py
+++ b/src/probnum/filtsmooth/_timeseriesposterior.py
@@ -118,11 +118,9 @@ class TimeSeriesPosterior(abc.ABC):
         # (which is there for a well-behaved loop).
         # If this has been the case, the final result needs to be
         # reshaped ("squeezed") accordingly.
-        if np.isscalar(t):
-            t = np.atleast_1d(t)
-            t_has_been_promoted = True
-        else:
-            t_has_been_promoted = False
+        t = np.asarray(t)
+        t_has_been_promoted = t.ndim == 0
+        t = np.atleast_1d(t)
 
         if not np.all(np.diff(t) >= 0.0):
             raise ValueError("Time-points have to be sorted.")
-- 
2.43.0


From f2e06c61aa20153e93e529f90515ab46899f2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 55/94] fix: iterated filtering stopping criterion with
 negative references and after failures

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index 491e630..6d8da3b 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -22,6 +22,7 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
         maximum number of iterations is reached.
         """
         if self.iterations > self.maxit:
+            self.iterations = 0
             errormsg = f"Maximum number of iterations (N={self.maxit}) reached."
             raise RuntimeError(errormsg)
         magnitude = self.evaluate_error(error=error, reference=reference)
@@ -33,6 +34,6 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
 
     def evaluate_error(self, error, reference):
         """Compute the normalised error."""
-        normalisation = self.atol + self.rtol * reference
+        normalisation = self.atol + self.rtol * np.abs(reference)
         magnitude = np.sqrt(np.mean((error / normalisation) ** 2))
         return magnitude
-- 
2.43.0


From e8805f91d7c7d5d2c2deacc3f57d79fabee1522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 56/94] fix: particle filters propagate resampled particles and
 accumulated weights

---
 src/probnum/filtsmooth/particle/_importance_distributions.py | 2 +-
 src/probnum/filtsmooth/particle/_particle_filter.py          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 954f82d..2b60248 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -65,7 +65,7 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
     def log_correction_factor(
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
-        return 0.0
+        return np.log(old_weight + 1e-14)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c57ea6e..4509de3 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -216,6 +216,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                 N = effective_number_of_events(new_rv)
                 if N < self.min_effective_num_of_particles:
                     new_rv = new_rv.resample(rng=self.rng)
+                    particles, weights = new_rv.support, new_rv.probabilities
             yield new_rv, {}
             t_old = t
 
-- 
2.43.0


From bbd8ebf5a6bfedca66d220aab20ff83ad798f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 57/94] fix: particle weights of unlikely data do not underflow

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index 4509de3..3b4b0a7 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -178,7 +178,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
 
             dt = t - t_old
             new_particles = particles.copy()
-            new_weights = weights.copy()
+            new_log_weights = np.zeros(weights.shape)
 
             # Capture the inputs in a variable for more compact code layout
             inputs = measmod, particles, weights, data, t_old, dt, t
@@ -203,11 +203,13 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                         old_weight=w,
                     )
                 )
-                new_weight = np.exp(loglikelihood + log_correction_factor)
+                new_log_weight = loglikelihood + log_correction_factor
 
                 new_particles[idx] = new_particle
-                new_weights[idx] = new_weight
+                new_log_weights[idx] = new_log_weight
 
+            # Subtract the maximum, because all likelihoods might underflow.
+            new_weights = np.exp(new_log_weights - np.amax(new_log_weights))
             weights = new_weights / np.sum(new_weights)
             particles = new_particles
             new_rv = randvars.Categorical(support=particles, probabilities=weights)
-- 
2.43.0


From 153492577c2351c599a060d883a9d7f6c62a20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 58/94] fix: ODE solvers never step past the final time, also
 in the first step [C15]

---
 src/probnum/diffeq/_odesolver.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index aa512b9..54ddf45 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -77,6 +77,9 @@ class ODESolver(ABC):
 
         # Use state.ivp in case a callback modifies the IVP
         while state.t < state.ivp.tmax:
+            # Never step beyond the final time. This also covers the very first step and
+            # callbacks that modify the IVP.
+            dt = _limit_time_step(state.ivp.tmax, t=state.t, dt=dt)
             if stopper_state is not None:
                 dt, stopper_state = _adjust_time_step(stopper_state, t=state.t, dt=dt)
 
@@ -129,9 +132,10 @@ class ODESolver(ABC):
                 dt, internal_norm, localconvrate=self.order + 1
             )
 
-            # Get a new step-size for the next step
+            # Get a new step-size for the next step (if the step has been accepted, the
+            # step-size is limited by the final time before attempting the next step)
             if step_is_sufficiently_small:
-                dt = min(suggested_dt, state.ivp.tmax - proposed_state.t)
+                dt = suggested_dt
             else:
                 dt = min(suggested_dt, state.ivp.tmax - state.t)
 
@@ -179,6 +183,20 @@ class _TimeStopperState:
     next_location: FloatLike
 
 
+def _limit_time_step(location, t, dt):
+    """Limit a time-step such that it does not step past a location.
+
+    Steps that miss the location only because of round-off are extended.
+    """
+    if t + (1.0 + 1e-10) * dt < location:
+        return dt
+
+    dt = location - t
+    while t + dt < location:  # may only happen because of round-off
+        dt = np.nextafter(dt, np.inf)
+    return dt
+
+
 def _adjust_time_step(stopper_state, t, dt):
     if t >= stopper_state.next_location:
         try:
-- 
2.43.0


From 7f2cf1165159317ff56132d8373ab47cc0e7d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 59/94] fix: time stops that are empty, repeated or not after
 the initial time [C15]

---
 src/probnum/diffeq/_odesolver.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 54ddf45..3ba0f35 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -104,7 +104,7 @@ class ODESolver(ABC):
         if stop_at_locations is not None:
             loc_iter = iter(stop_at_locations)
             time_stopper = _TimeStopperState(
-                locations=loc_iter, next_location=next(loc_iter)
+                locations=loc_iter, next_location=next(loc_iter, np.inf)
             )
         else:
             time_stopper = None
@@ -198,16 +198,11 @@ def _limit_time_step(location, t, dt):
 
 
 def _adjust_time_step(stopper_state, t, dt):
-    if t >= stopper_state.next_location:
-        try:
-            next_location = next(stopper_state.locations)
-        except StopIteration:
-            next_location = np.inf
-    else:
-        next_location = stopper_state.next_location
-
-    if t + dt > next_location:
-        dt = next_location - t
+    next_location = stopper_state.next_location
+    while t >= next_location:
+        next_location = next(stopper_state.locations, np.inf)
+
+    dt = _limit_time_step(next_location, t=t, dt=dt)
     return dt, _TimeStopperState(
         locations=stopper_state.locations, next_location=next_location
     )
-- 
2.43.0


From d3852139c62fa70513897b99d3dc1420196ca61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 60/94] fix: apply callbacks passed as an iterator after every
 step [C15]

---
 src/probnum/diffeq/_odesolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 3ba0f35..44f2a0b 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -97,7 +97,7 @@ class ODESolver(ABC):
         """Process callbacks and time-stamps into a format suitable for solve()."""
 
         def promote_callback_type(cbs):
-            return cbs if isinstance(cbs, abc.Iterable) else [cbs]
+            return list(cbs) if isinstance(cbs, abc.Iterable) else [cbs]
 
         if callbacks is not None:
             callbacks = promote_callback_type(callbacks)
-- 
2.43.0


From 8780eeb257153936f2376128d44b1eacce45366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 61/94] fix: first step proposal for vanishing initial values
 or derivatives [C15]

---
 src/probnum/diffeq/stepsize/_propose_firststep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/probnum/diffeq/stepsize/_propose_firststep.py b/src/probnum/diffeq/stepsize/_propose_firststep.py
index 8b5f8b5..7d1e4de 100644
--- a/src/probnum/diffeq/stepsize/_propose_firststep.py
+++ b/src/probnum/diffeq/stepsize/_propose_firststep.py
@@ -11,4 +11,8 @@ def propose_firststep(ivp):
     """
     norm_y0 = np.linalg.norm(ivp.y0)
     norm_dy0 = np.linalg.norm(ivp.f(ivp.t0, ivp.y0))
+
+    # The quotient is meaningless if one of the norms is (close to) zero.
+    if norm_y0 < 1e-5 or norm_dy0 < 1e-5:
+        return 1e-6
     return 0.01 * norm_y0 / norm_dy0
-- 
2.43.0


From 56759b06c534247323fcf67ecf83a3a3cc463c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 62/94] fix: relative tolerance of adaptive steps for negative
 states [C15]

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 5276de2..3b89b03 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -146,7 +146,7 @@ class AdaptiveSteps(StepRule):
         return scaled_error < 1
 
     def errorest_to_norm(self, errorest: ArrayLike, reference_state: np.ndarray):
-        tolerance = self.atol + self.rtol * reference_state
+        tolerance = self.atol + self.rtol * np.abs(reference_state)
         ratio = errorest / tolerance
         dim = len(ratio) if ratio.ndim > 0 else 1
         return np.linalg.norm(ratio) / np.sqrt(dim)
-- 
2.43.0


From c708334be1e64bc3d3bb50f9ce4fdffa88bd1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 63/94] fix: dense output of wrapped Runge-Kutta solutions at
 zero-dimensional arrays [C17]

---
 .../perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py
index 768bf77..fc4cdfb 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py
@@ -34,7 +34,7 @@ class WrappedScipyODESolution(_odesolution.ODESolution):
         """
 
         states = self.scipy_solution(t).T
-        if np.isscalar(t):
+        if np.ndim(t) == 0:
             solution_as_rv = randvars.Constant(states)
         else:
             solution_as_rv = randvars._RandomVariableList(
-- 
2.43.0


From a0f57a8bf27e0dc2257d34b18c14ae27ea38af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 64/94] fix: scales of rejected steps do not belong to the
 perturbed solution [C17]

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
index 3818686..ad6971d 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
@@ -60,6 +60,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         self.perturb_step = perturb_step
         self.solver = solver
         self.scales = None
+        self._proposed_scale = None
         super().__init__(steprule=solver.steprule, order=solver.order)
 
     @classmethod
@@ -117,8 +118,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         """
         noisy_step = self.perturb_step(self.rng, dt)
         new_state = self.solver.attempt_step(state, noisy_step)
-        scale = noisy_step / dt
-        self.scales.append(scale)
+        self._proposed_scale = noisy_step / dt
 
         t_new = state.t + dt
         state = _odesolver_state.ODESolverState(
@@ -131,7 +131,8 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         return state
 
     def method_callback(self, state):
-        """Call dense output after each step and store the interpolants."""
+        """Store the scale and the interpolant after each accepted step."""
+        self.scales.append(self._proposed_scale)
         return self.solver.method_callback(state)
 
     def rvlist_to_odesol(self, times: np.ndarray, rvs: randvars._RandomVariableList):
-- 
2.43.0


From 6e858c6c7385eff1cbc85ff20f676c7af4861264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 65/94] fix: ODE filter updates of non-autonomous ODEs [C16]

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 986173d..517932b 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -334,7 +334,7 @@ class ODEFilter(_odesolver.ODESolver):
         gain = scipy.linalg.cho_solve((meas_rv.cov_cholesky, True), crosscov.T).T
         zero_data = np.zeros(meas_rv.mean.shape)
         filt_rv, _ = self.measurement_model.backward_realization(
-            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain
+            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain, t=state.t + dt
         )
 
         t_new = state.t + dt
-- 
2.43.0


From e685fb98c7c573b5cc3ca9c7b4fdb06fdc0c8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 66/94] fix: associate local diffusion estimates of ODE filters
 with their step [C16]

---
 src/probnum/diffeq/odefilter/_odefilter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 517932b..bd90e6f 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -288,7 +288,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         # Now we can be certain that the step will be accepted. In this case
         # we update the diffusion model and continue the rest of the iteration.,
-        self.diffusion_model.update_in_place(local_diffusion, t=state.t)
+        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)
 
         if self._calibrate_at_each_step:
             # With the updated diffusion, we need to re-compute the covariances of the
@@ -388,7 +388,9 @@ class ODEFilter(_odesolver.ODESolver):
 
         if self.with_smoothing is True:
 
-            squared_diffusion_list = self.diffusion_model(locations[1:])
+            # The diffusion is right-continuous, i.e. the diffusion of each step is the
+            # value at the left end of the step.
+            squared_diffusion_list = self.diffusion_model(locations[:-1])
             rv_list = self.prior_process.transition.smooth_list(
                 rv_list, locations, _diffusion_list=squared_diffusion_list
             )
-- 
2.43.0


From 24cef960866c5da75423586d080c9b7ac83d3378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 67/94] fix: smooth the calibrated states of ODE filters [C16]

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index bd90e6f..42a98b5 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -392,7 +392,7 @@ class ODEFilter(_odesolver.ODESolver):
             # value at the left end of the step.
             squared_diffusion_list = self.diffusion_model(locations[:-1])
             rv_list = self.prior_process.transition.smooth_list(
-                rv_list, locations, _diffusion_list=squared_diffusion_list
+                kalman_posterior.states, locations, _diffusion_list=squared_diffusion_list
             )
             kalman_posterior = filtsmooth.gaussian.SmoothingPosterior(
                 filtering_posterior=kalman_posterior,
-- 
2.43.0


From f590e776ff7aaad3f99ed04681c75d7d8fdfddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:25 +0000
Subject: [PATCH 68/94] fix: zero-mean noise for the ODE likelihood of
 regression problems [C16]

---
 src/probnum/diffeq/odefilter/utils/_problem_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/utils/_problem_utils.py b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
index a396b56..4ee9226 100644
--- a/src/probnum/diffeq/odefilter/utils/_problem_utils.py
+++ b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
@@ -125,8 +125,14 @@ def _construct_measurement_models_gaussian_likelihood(
     )
     if approx_strategy is not None:
         ode_information_operator = approx_strategy(ode_information_operator)
+    # The initial value only shifts the initial condition, not the ODE residual.
+    ode_noise = randvars.Normal(
+        mean=np.zeros(ode_information_operator.output_dim),
+        cov=diff,
+        cov_cholesky=diff_cholesky,
+    )
     measmod_ode = ode_information_operator.as_transition(
-        noise_fun=lambda t: noise,
+        noise_fun=lambda t: ode_noise,
     )
 
     return measmod_initial_condition, measmod_ode
-- 
2.43.0


From ad5e676ce2923b7ad5e76060e76d2bbc7405c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:59 +0000
Subject: [PATCH 69/94] fix: covariance of problinsolve after the first
 iteration [C19]

The outputs of the first iteration carried the prior covariances.
---
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index cbc5f36..d51d3bc 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -656,7 +656,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         """Return output random variables x, A, Ainv from their means and
         covariances."""
 
-        if self.iter_ > 0:
+        if len(Y_list) > 0:
             # Observations and inner products in A-space between actions
             Y = np.hstack(Y_list)
             sy = np.vstack(sy_list).ravel()
-- 
2.43.0


From 540053865009bf32ebbc9726e24965412304090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:59 +0000
Subject: [PATCH 70/94] fix: conjugate gradient policy once the residual
 vanished [C18]

---
 .../solvers/policies/_conjugate_gradient.py   | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
index 4896a31..8c0531b 100644
--- a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
+++ b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
@@ -54,6 +54,10 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
 
         residual = solver_state.residual
 
+        # Nothing left to explore if the residual vanished
+        if not np.any(residual):
+            return residual
+
         if solver_state.step == 0:
             if self._reorthogonalization_fn_residual is not None:
                 solver_state.cache["reorthogonalized_residuals"].append(
@@ -71,7 +75,12 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
                 prev_residual = solver_state.residuals[solver_state.step - 1]
 
             # A-conjugacy correction (in exact arithmetic)
-            beta = (np.linalg.norm(residual) / np.linalg.norm(prev_residual)) ** 2
+            prev_residual_norm = np.linalg.norm(prev_residual)
+            if prev_residual_norm > 0.0:
+                beta = (np.linalg.norm(residual) / prev_residual_norm) ** 2
+            else:
+                beta = 0.0
+
             action = residual + beta * solver_state.actions[solver_state.step - 1]
 
             # Reorthogonalization of the resulting action
@@ -89,7 +98,7 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
         """Compute the reorthogonalized residual and its predecessor."""
         residual = self._reorthogonalization_fn_residual(
             v=solver_state.residual,
-            orthogonal_basis=np.asarray(
+            orthogonal_basis=_nonzero_vectors(
                 solver_state.cache["reorthogonalized_residuals"]
             ),
             inner_product=None,
@@ -115,10 +124,17 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
         elif isinstance(solver_state.prior.x, randvars.Constant):
             inprod_matrix = solver_state.problem.A
 
-        orthogonal_basis = np.asarray(solver_state.actions[0 : solver_state.step])
+        orthogonal_basis = _nonzero_vectors(
+            solver_state.actions[0 : solver_state.step]
+        )
 
         return self._reorthogonalization_fn_action(
             v=action,
             orthogonal_basis=orthogonal_basis,
             inner_product=inprod_matrix,
         )
+
+
+def _nonzero_vectors(vectors: Iterable[np.ndarray]) -> np.ndarray:
+    """Stack all vectors which can be elements of a basis."""
+    return np.asarray([vector for vector in vectors if np.any(vector)])
-- 
2.43.0


From c14b912b4ac1a2f98ac4ae6d5cab179cbd32ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:59 +0000
Subject: [PATCH 71/94] fix: row norms as sampling probabilities of random unit
 vectors [C18]

Column norms were used instead, and matrix powers of sparse matrices.
---
 src/probnum/linalg/solvers/policies/_random_unit_vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/policies/_random_unit_vector.py b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
index f183c48..b209851 100644
--- a/src/probnum/linalg/solvers/policies/_random_unit_vector.py
+++ b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
@@ -45,7 +45,10 @@ class RandomUnitVectorPolicy(_linear_solver_policy.LinearSolverPolicy):
             if self.probabilities == "uniform":
                 solver_state.cache["row_sample_probs"] = np.ones(nrows) / nrows
             elif self.probabilities == "rownorm":
-                sampling_probs = (solver_state.problem.A**2).T @ np.ones(shape=nrows)
+                A = solver_state.problem.A
+                if not isinstance(A, np.ndarray):
+                    A = np.asarray(A.todense())
+                sampling_probs = np.sum(A**2, axis=1)
                 solver_state.cache["row_sample_probs"] = (
                     sampling_probs / sampling_probs.sum()
                 )
-- 
2.43.0


From ec08c6163e1394396e4d4bf02369b2f2dfd15d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:13 +0000
Subject: [PATCH 72/94] fix: reorthogonalization of actions for sparse system
 matrices [C18]

---
 .../linalg/solvers/policies/_conjugate_gradient.py       | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
index 8c0531b..9e6e243 100644
--- a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
+++ b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
@@ -115,14 +115,11 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
         solver_state: "probnum.linalg.solvers.LinearSolverState",
     ) -> np.ndarray:
         """Reorthogonalize the computed action."""
+        A = linops.aslinop(solver_state.problem.A)
         if isinstance(solver_state.prior.x, randvars.Normal):
-            inprod_matrix = (
-                solver_state.problem.A
-                @ solver_state.prior.x.cov
-                @ solver_state.problem.A.T
-            )
+            inprod_matrix = A @ solver_state.prior.x.cov @ A.T
         elif isinstance(solver_state.prior.x, randvars.Constant):
-            inprod_matrix = solver_state.problem.A
+            inprod_matrix = A
 
         orthogonal_basis = _nonzero_vectors(
             solver_state.actions[0 : solver_state.step]
-- 
2.43.0


From a8f0b0959deb481bc17e90e34e90a29aa1b99bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:13 +0000
Subject: [PATCH 73/94] fix: problinsolve with an initial guess for a vanishing
 right-hand side [C19]

---
 src/probnum/linalg/solvers/matrixbased.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index d51d3bc..91f8e85 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -94,7 +94,7 @@ class MatrixBasedSolver(abc.ABC):
         elif bx0 == 0:
             if np.all(b == np.zeros_like(b)):
                 print("Right-hand-side is zero. Initializing with solution x0 = 0.")
-                x0 = b
+                return linops.Identity(shape=self.n), linops.Identity(shape=self.n)
             else:
                 print("Better initialization found, setting x0 = (b'b/b'Ab) * b.")
                 bAb = np.squeeze(b.T @ (A @ b))
@@ -255,7 +255,8 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         self.Ainv_covfactor = Ainv_covfactor0
         self.Ainv_covfactor0 = Ainv_covfactor0
         if isinstance(x0, np.ndarray):
-            self.x_mean = x0
+            # The solution for a vanishing right-hand side is known
+            self.x_mean = x0 if np.any(self.b) else np.zeros_like(self.b)
         elif x0 is None:
             self.x_mean = Ainv_mean0 @ self.b
         else:
-- 
2.43.0


From 24562357e18123788a2db493a9b0354807dbbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:13 +0000
Subject: [PATCH 74/94] fix: problinsolve with a matrix as prior for the
 inverse [C19]

---
 src/probnum/linalg/solvers/matrixbased.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index 91f8e85..f9a7b95 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -304,6 +304,11 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
             :math:`W^H \\otimes_s W^H` of :math:`H`.
         """
         self.is_calib_covclass = False
+        if A0 is not None and not isinstance(A0, randvars.RandomVariable):
+            A0 = linops.aslinop(A0)
+        if Ainv0 is not None and not isinstance(Ainv0, randvars.RandomVariable):
+            Ainv0 = linops.aslinop(Ainv0)
+
         # No matrix priors specified
         if A0 is None and Ainv0 is None:
             self.is_calib_covclass = True
-- 
2.43.0


From 76d5fb71c3e98c402763c95178a5ec7e03215831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 75/94] fix: as_colvec of random variables [C24]

---
 src/probnum/utils/arrayutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/utils/arrayutils.py b/src/probnum/utils/arrayutils.py
index 279de4d..851b304 100644
--- a/src/probnum/utils/arrayutils.py
+++ b/src/probnum/utils/arrayutils.py
@@ -60,8 +60,8 @@ def as_colvec(
         Vector, array or random variable to be transformed into a column vector.
     """
     if isinstance(vec, probnum.randvars.RandomVariable):
-        if vec.shape != (vec.shape[0], 1):
-            vec.reshape(newshape=(vec.shape[0], 1))
+        if vec.ndim == 1:
+            return vec.reshape((vec.shape[0], 1))
     elif vec.ndim == 1:
         return vec[:, None]
     return vec
-- 
2.43.0


From 447cef69d90d984f07dafaf0e8defe7218ea8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 76/94] fix: problinsolve with a random variable as right-hand
 side [C19]

---
 src/probnum/linalg/_problinsolve.py       | 3 +--
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linalg/_problinsolve.py b/src/probnum/linalg/_problinsolve.py
index 134caae..1472c56 100644
--- a/src/probnum/linalg/_problinsolve.py
+++ b/src/probnum/linalg/_problinsolve.py
@@ -343,8 +343,7 @@ def _preprocess_linear_system(A, b, x0=None):
         ``Ainv0`` is given.
     """
     # Transform linear system to correct dimensions
-    if not isinstance(b, randvars.RandomVariable):
-        b = utils.as_colvec(b)  # (n,) -> (n, 1)
+    b = utils.as_colvec(b)  # (n,) -> (n, 1)
     if x0 is not None:
         x0 = utils.as_colvec(x0)  # (n,) -> (n, 1)
 
diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index f9a7b95..2911378 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -234,7 +234,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
 
         # Assume constant right hand side
         if isinstance(b, randvars.RandomVariable):
-            _b = b.sample(size=1)
+            _b = b.mean
         else:
             _b = b
 
-- 
2.43.0


From 83eed0868d833778872c0011762eaf90124f2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 77/94] fix: kernel mean of Matern kernels outside of the
 domain [C21]

---
 .../quad/kernel_embeddings/_matern_lebesgue.py  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/probnum/quad/kernel_embeddings/_matern_lebesgue.py b/src/probnum/quad/kernel_embeddings/_matern_lebesgue.py
index 74558c9..7f110e1 100644
--- a/src/probnum/quad/kernel_embeddings/_matern_lebesgue.py
+++ b/src/probnum/quad/kernel_embeddings/_matern_lebesgue.py
@@ -77,10 +77,19 @@ def _kernel_mean_matern_lebesgue(
     # Compute kernel mean via a product of one-dimensional kernel means
     kernel_mean = np.ones((x.shape[0],))
     for dim in range(input_dim):
-        kernel_mean *= _kernel_mean_matern_1d_lebesgue(
-            x=x[:, dim],
-            kernel=kernel.univariate_materns[dim],
-            domain=(measure.domain[0][dim], measure.domain[1][dim]),
+        (a, b) = (measure.domain[0][dim], measure.domain[1][dim])
+        x_dim = x[:, dim]
+
+        # The formulas for the 1D kernel mean apply to x in [a, b]. Integrate from x to
+        # the two bounds of the domain such that x may lie outside of it.
+        kernel_mean *= sum(
+            sign
+            * _kernel_mean_matern_1d_lebesgue(
+                x=x_dim,
+                kernel=kernel.univariate_materns[dim],
+                domain=(np.minimum(x_dim, bound), np.maximum(x_dim, bound)),
+            )
+            for sign, bound in ((np.sign(x_dim - a), a), (np.sign(b - x_dim), b))
         )
 
     return measure.normalization_constant * kernel_mean
-- 
2.43.0


From 7bd6d33a6bd7099ef3d77cb0abb4087df7802a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 78/94] fix: density of the Lebesgue measure outside of its
 domain [C21]

---
 src/probnum/quad/integration_measures/_lebesgue_measure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/quad/integration_measures/_lebesgue_measure.py b/src/probnum/quad/integration_measures/_lebesgue_measure.py
index 27a5bed..293048d 100644
--- a/src/probnum/quad/integration_measures/_lebesgue_measure.py
+++ b/src/probnum/quad/integration_measures/_lebesgue_measure.py
@@ -59,8 +59,10 @@ class LebesgueMeasure(IntegrationMeasure):
         )
 
     def __call__(self, points: np.ndarray) -> np.ndarray:
-        num_dat = points.shape[0]
-        return np.full((num_dat,), self.normalization_constant)
+        is_inside = np.all(
+            (self.domain[0] <= points) & (points <= self.domain[1]), axis=1
+        )
+        return np.where(is_inside, self.normalization_constant, 0.0)
 
     def sample(
         self,
-- 
2.43.0


From 6bb0d6a000aafc11ecad6271a2358694ddc7388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 79/94] fix: instantiate the acquisition functions of named
 policies [C22]

---
 src/probnum/quad/solvers/_bayesian_quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/quad/solvers/_bayesian_quadrature.py b/src/probnum/quad/solvers/_bayesian_quadrature.py
index e9ea4ca..7b737db 100644
--- a/src/probnum/quad/solvers/_bayesian_quadrature.py
+++ b/src/probnum/quad/solvers/_bayesian_quadrature.py
@@ -230,14 +230,14 @@ class BayesianQuadrature:
             assert policy[-5:] == "_rand"
             policy = RandomMaxAcquisitionPolicy(
                 batch_size=1,
-                acquisition_func=acquisition_dict[policy[:-5]],
+                acquisition_func=acquisition_dict[policy[:-5]](),
                 n_candidates=n_candidates,
             )
         # all max acquisition policies with optimizer
         elif policy in ["us", "mi", "ivr"]:
             policy = MaxAcquisitionPolicy(
                 batch_size=1,
-                acquisition_func=acquisition_dict[policy],
+                acquisition_func=acquisition_dict[policy](),
                 n_restarts=n_restarts,
             )
         else:
-- 
2.43.0


From d5ddd955d06bc6a8aeb5362185ceef155bf2c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 80/94] fix: relative mean change of a vanishing integral
 estimate [C22]

---
 .../quad/solvers/stopping_criteria/_rel_mean_change.py     | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
index 6e91448..f653660 100644
--- a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
+++ b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
@@ -37,9 +37,6 @@ class RelativeMeanChange(BQStoppingCriterion):
             # On the first iteration there is no previous integral value to use
             return False
         return (
-            np.abs(
-                (integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean)
-                / integral_belief.mean
-            )
-            <= self.rel_tol
+            np.abs(integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean)
+            <= self.rel_tol * np.abs(integral_belief.mean)
         )
-- 
2.43.0


From 6a9d726fb373c3046bc8bdb062f929e4e89fbd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 81/94] fix: solution of the logistic IVP for an initial time
 other than zero [C23]

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index 922ee7b..22e6cfe 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -213,7 +213,8 @@ def logistic(t0=0.0, tmax=2.0, y0=None, params=(3.0, 1.0)):
 
     .. math::
 
-        f(t) = \frac{b y_0 \exp(a t)}{b + y_0 \left[ \exp(at) - 1 \right]}
+        y(t) = \frac{b y_0 \exp(a (t - t_0))}
+            {b + y_0 \left[ \exp(a (t - t_0)) - 1 \right]}
 
     where :math:`y_0= y(t_0)` is the initial value.
 
@@ -251,8 +252,8 @@ def logistic(t0=0.0, tmax=2.0, y0=None, params=(3.0, 1.0)):
 
     def sol(t):
         l0, l1 = params
-        nomin = l1 * y0 * np.exp(l0 * t)
-        denom = l1 + y0 * (np.exp(l0 * t) - 1)
+        nomin = l1 * y0 * np.exp(l0 * (t - t0))
+        denom = l1 + y0 * (np.exp(l0 * (t - t0)) - 1)
         return nomin / denom
 
     return InitialValueProblem(
-- 
2.43.0


From 2ae8d5b69d27c79a87c4a3ea0d6a3b42b162ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 82/94] fix: documented default initial value of Lorenz96 (the
 forcing is an equilibrium) [C23]

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index 22e6cfe..34d5db3 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -528,7 +528,7 @@ def lorenz96(t0=0.0, tmax=30.0, y0=None, num_variables=5, params=(8.0,)):
     if y0 is None:
         if num_variables < 4:
             raise ValueError("The number of variables must be at least 4.")
-        y0 = np.ones(num_variables) * constant_forcing
+        y0 = np.ones(num_variables) / constant_forcing
     elif len(y0) < 4:
         raise ValueError(
             "The number of variables (i.e. the length of the initial vector)",
-- 
2.43.0


From c9d98490ede892a74d3a62942e14c894fa80229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 83/94] fix: integer parameter of the Van der Pol oscillator
 [C23]

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index 34d5db3..4f447da 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -125,7 +125,7 @@ def vanderpol(t0=0.0, tmax=30, y0=None, params=1e1):
 
     def rhs(t, y, params=params):
         y1, y2 = y
-        if isinstance(params, float):
+        if np.ndim(params) == 0:
             mu = params
         else:
             (mu,) = params
@@ -134,7 +134,7 @@ def vanderpol(t0=0.0, tmax=30, y0=None, params=1e1):
 
     def jac(t, y, params=params):
         y1, y2 = y
-        if isinstance(params, float):
+        if np.ndim(params) == 0:
             mu = params
         else:
             (mu,) = params
-- 
2.43.0


From 825da454323ef1cd07064c24812dc185d98e6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 84/94] fix: moments of the Gaussian in the solution of
 sum_polynomials [C23]

---
 src/probnum/problems/zoo/quad/_quadproblems_gaussian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index bf85339..dfa5ecd 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -217,9 +217,10 @@ def sum_polynomials(
 
     # Return function values as a 2d array with one column.
     delta = (np.remainder(b, 2) - 1) ** 2
-    doublefact = special.factorial2(b - 1)
-    solution = np.sum(np.prod(a * delta * (var**b) * doublefact, axis=1))
-    if isinstance(var, float):
+    doublefact = np.where(b > 0, special.factorial2(b - 1), 1.0)
+    variances = var if np.ndim(var) == 0 else np.diag(var)
+    solution = np.sum(np.prod(a * delta * variances ** (b / 2) * doublefact, axis=1))
+    if np.ndim(var) == 0:
         mean = 0.0
     else:
         mean = np.zeros(dim)
-- 
2.43.0


From 4b23b91b715539d2516f540e0a704190feec6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 85/94] fix: uniform_to_gaussian_quadprob with one scalar and
 one array parameter [C23]

---
 .../problems/zoo/quad/_quadproblems_gaussian.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index dfa5ecd..4a48fc7 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -116,12 +116,12 @@ def uniform_to_gaussian_quadprob(
 
     dim = lower_bd.shape[0]
 
-    cov = std**2
-    if isinstance(std, np.ndarray):
-        cov = np.eye(dim) * cov
-    gaussian_measure = GaussianMeasure(mean=mean, cov=cov, input_dim=dim)
+    integrand = uniform_to_gaussian_integrand(fun=quadprob.fun, mean=mean, std=std)
+    gaussian_measure = GaussianMeasure(
+        mean=np.broadcast_to(mean, (dim,)), cov=np.eye(dim) * std**2, input_dim=dim
+    )
     return QuadratureProblem(
-        fun=uniform_to_gaussian_integrand(fun=quadprob.fun, mean=mean, std=std),
+        fun=integrand,
         measure=gaussian_measure,
         solution=quadprob.solution,
     )
-- 
2.43.0


From 7a8a57f8faa4f138484b6d6ef1ee35c9f7ec7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:39 +0000
Subject: [PATCH 86/94] fix: default initial random variable of logistic_ode
 uses y0 and order [C23]

---
 src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 3d0dbdf..127320d 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -594,8 +594,8 @@ def logistic_ode(
 
     # Generate prior process
     if initrv is None:
-        initmean = np.array([0.1, 0, 0.0, 0.0])
-        initcov = np.diag([0.0, 1.0, 1.0, 1.0])
+        initmean = np.concatenate([y0, np.zeros(order)])
+        initcov = np.diag([0.0] + [1.0] * order)
         initrv = randvars.Normal(initmean, initcov)
     dynamics_model = randprocs.markov.integrator.IntegratedWienerTransition(
         num_derivatives=order,
-- 
2.43.0


From 7fb37f6aa19b356344f99772427d76ebd5e4d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 87/94] fix: car_tracking observes both positions [C23]

---
 src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 127320d..0e4006e 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -106,7 +106,7 @@ def car_tracking(
 
     discrete_dynamics_model = dynamics_model.discretise(dt=step)
 
-    measurement_matrix = np.eye(measurement_dim, model_dim)
+    measurement_matrix = dynamics_model.proj2coord(coord=0)
     measurement_cov = measurement_variance * np.eye(measurement_dim)
     measurement_model = randprocs.markov.discrete.LTIGaussian(
         transition_matrix=measurement_matrix,
-- 
2.43.0


From cfb6555d941950dc89d843dae90ed2c7cf284265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 88/94] fix: zoo state space models use the given process
 diffusion [C23]

---
 .../zoo/filtsmooth/_filtsmooth_problems.py       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 0e4006e..3c89291 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -104,7 +104,13 @@ def car_tracking(
         backward_implementation=backward_implementation,
     )
 
-    discrete_dynamics_model = dynamics_model.discretise(dt=step)
+    discretised_model = dynamics_model.discretise(dt=step)
+    discrete_dynamics_model = randprocs.markov.discrete.LTIGaussian(
+        transition_matrix=discretised_model.transition_matrix,
+        noise=process_diffusion * discretised_model.noise,
+        forward_implementation=forward_implementation,
+        backward_implementation=backward_implementation,
+    )
 
     measurement_matrix = dynamics_model.proj2coord(coord=0)
     measurement_cov = measurement_variance * np.eye(measurement_dim)
@@ -208,10 +214,10 @@ def ornstein_uhlenbeck(
         Cambridge University Press, 2019
     """
 
-    dynamics_model = randprocs.markov.integrator.IntegratedOrnsteinUhlenbeckTransition(
-        num_derivatives=0,
-        wiener_process_dimension=1,
-        driftspeed=driftspeed,
+    dynamics_model = randprocs.markov.continuous.LTISDE(
+        drift_matrix=-driftspeed * np.eye(1),
+        force_vector=np.zeros(1),
+        dispersion_matrix=process_diffusion * np.eye(1),
         forward_implementation=forward_implementation,
         backward_implementation=backward_implementation,
     )
-- 
2.43.0


From 104194a588de17ca9b5df38d5424134f60a4f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:54 +0000
Subject: [PATCH 89/94] fix: Gram-Schmidt orthogonalisation of integer vectors
 [C24]

---
 src/probnum/utils/linalg/_orthogonalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/utils/linalg/_orthogonalize.py b/src/probnum/utils/linalg/_orthogonalize.py
index 745cf1c..910da15 100644
--- a/src/probnum/utils/linalg/_orthogonalize.py
+++ b/src/probnum/utils/linalg/_orthogonalize.py
@@ -57,7 +57,7 @@ def gram_schmidt(
         inprod_fn = inner_product
         norm_fn = lambda v: np.sqrt(inprod_fn(v, v))
 
-    v_orth = v.copy()
+    v_orth = np.array(v, dtype=np.result_type(v, np.float_))
 
     for u in orthogonal_basis:
         v_orth -= (inprod_fn(u, v)[..., None] / inprod_fn(u, u)) * u
@@ -116,7 +116,7 @@ def modified_gram_schmidt(
         inprod_fn = inner_product
         norm_fn = lambda v: np.sqrt(inprod_fn(v, v))
 
-    v_orth = v.copy()
+    v_orth = np.array(v, dtype=np.result_type(v, np.float_))
 
     for u in orthogonal_basis:
         v_orth -= (inprod_fn(u, v_orth)[..., None] / inprod_fn(u, u)) * u
-- 
2.43.0


From 18f323838b14d1dd0da71e651c106a2008ca8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:54 +0000
Subject: [PATCH 90/94] fix: config context with an unknown option leaves the
 other options unchanged [C25]

---
 src/probnum/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/_config.py b/src/probnum/_config.py
index 098ab9f..1618074 100644
--- a/src/probnum/_config.py
+++ b/src/probnum/_config.py
@@ -75,10 +75,11 @@ class Configuration:
         """Context manager used to set values of registered config options."""
         old_options = {}
 
-        for key, value in kwargs.items():
+        for key in kwargs:
             if key not in self._options_registry:
                 raise AttributeError(Configuration._NON_REGISTERED_KEY_ERR_MSG % key)
 
+        for key, value in kwargs.items():
             old_options[key] = self._options_registry[key].value
 
             self._options_registry[key].value = value
-- 
2.43.0


From cf7ff18e193858fbda5c9f41bc5590bb0f952940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:04 +0000
Subject: [PATCH 91/94] fix: merge regression problems whose data are sequences
 [C13]

---
 src/probnum/filtsmooth/utils/_merge_regression_problems.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/filtsmooth/utils/_merge_regression_problems.py b/src/probnum/filtsmooth/utils/_merge_regression_problems.py
index ce5dfc8..d8f595f 100644
--- a/src/probnum/filtsmooth/utils/_merge_regression_problems.py
+++ b/src/probnum/filtsmooth/utils/_merge_regression_problems.py
@@ -110,6 +110,7 @@ def merge_regression_problems(
     locs2_in_new_locs = np.searchsorted(new_locs, locs2)
 
     # Merge observations
+    data1, data2 = np.asarray(data1), np.asarray(data2)
     new_num_obs = len(data1) + len(data2)
     if not data1.shape[1:] == data2.shape[1:]:
         raise ValueError("The data sets have incompatible dimension.")
@@ -121,6 +122,7 @@ def merge_regression_problems(
     # Merge solutions.
     # The resulting problem will only have a solution of BOTH problems have one.
     if sol1 is not None and sol2 is not None:
+        sol1, sol2 = np.asarray(sol1), np.asarray(sol2)
         if not sol1.shape[1:] == sol2.shape[1:]:
             raise ValueError("The solution arrays have incompatible dimension.")
         new_sol_shape = (new_num_obs,) + sol1.shape[1:]
-- 
2.43.0


From 5fb27b80af1e072e85f8db641dc022f0ea6f29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:24 +0000
Subject: [PATCH 92/94] fix: statistics of a random variable list follow
 changes of the list [C13]

---
 src/probnum/randvars/_randomvariablelist.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/probnum/randvars/_randomvariablelist.py b/src/probnum/randvars/_randomvariablelist.py
index 21cbf65..2f3dafe 100644
--- a/src/probnum/randvars/_randomvariablelist.py
+++ b/src/probnum/randvars/_randomvariablelist.py
@@ -1,6 +1,5 @@
 """List of random variables."""
 
-from functools import cached_property
 from typing import Union
 
 import numpy as np
@@ -40,25 +39,25 @@ class _RandomVariableList(list):
             result = _RandomVariableList(result)
         return result
 
-    @cached_property
+    @property
     def mean(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.mean for rv in self])
 
-    @cached_property
+    @property
     def cov(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.cov for rv in self])
 
-    @cached_property
+    @property
     def var(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.var for rv in self])
 
-    @cached_property
+    @property
     def std(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
@@ -69,7 +68,7 @@ class _RandomVariableList(list):
         first_rv = np.asarray(self[0].mean)
         return (len(self),) + first_rv.shape
 
-    @cached_property
+    @property
     def mode(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
@@ -77,13 +76,13 @@ class _RandomVariableList(list):
 
     # For discrete random variables:
 
-    @cached_property
+    @property
     def support(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.support for rv in self])
 
-    @cached_property
+    @property
     def probabilities(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
-- 
2.43.0


From 810f9a1056cdc46489f3109e535364a5fd8f0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:29 +0000
Subject: [PATCH 93/94] fix: wrapping a SciPy random variable leaves the global
 random state unchanged [C26]

---
 src/probnum/randvars/_scipy_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_scipy_stats.py b/src/probnum/randvars/_scipy_stats.py
index a8ae635..329a246 100644
--- a/src/probnum/randvars/_scipy_stats.py
+++ b/src/probnum/randvars/_scipy_stats.py
@@ -206,7 +206,7 @@ def _rv_init_kwargs_from_scipy_rv(
         SciPy random variable.
     """
     # Infer shape and dtype
-    sample = _return_numpy(scipy_rv.rvs)()
+    sample = _return_numpy(scipy_rv.rvs)(random_state=np.random.default_rng(0))
 
     shape = sample.shape
     dtype = sample.dtype
-- 
2.43.0


From ead184bb758ca0e0edc62b5490b14fedf60817a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:08 +0000
Subject: [PATCH 94/94] fix: operators of different classes are not equal [C01]

---
 src/probnum/linops/_linear_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index eb4ae16..9c65f5a 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1150,7 +1150,7 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
     def _is_type_shape_dtype_equal(self, other: "LinearOperator") -> bool:
         return (
-            isinstance(self, type(other))
+            type(self) is type(other)
             and self.shape == other.shape
             and self.dtype == other.dtype
         )
-- 
2.43.0

