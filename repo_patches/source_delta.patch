From 027d381d96485f9b5b6a8387ce1560bc17121712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 01/10] fix: align columns of low-rank matrices for all batch
 elements

---
 matrix/ops/algorithms/align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..367cd7d 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -26,7 +26,8 @@ def align(a, b):
     b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
 
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        # Columns are only identical if they are identical for all batch elements.
+        return B.mean(B.subtract(a[..., index_a], b[..., index_b]) ** 2) < 1e-10
 
     # We need the norms later on.
     a_norms = B.sum(B.multiply(a0, a0), axis=0)
-- 
2.43.0


From 5979942569d183f32cef0700fd847a9cab3a308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 02/10] fix: dense version of tiled blocks is always numeric

---
 matrix/ops/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..1cd0174 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,5 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
-- 
2.43.0


From a5b070843c374a70ce837879059e0d37cc43aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 03/10] fix: diagonal of batched and non-square Kronecker
 products

---
 matrix/ops/diag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..fc5d1df 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -66,4 +66,7 @@ def diag(a: Woodbury):
 @B.dispatch
 def diag(a: Kronecker):
     left, right = align_batch(a.left, a.right)
-    return B.kron(B.diag(left), B.diag(right), -1)
+    if not all(rows == cols for rows, cols in map(B.shape_matrix, (left, right))):
+        # The diagonal only factors if the factors are square.
+        return B.diag_extract(B.dense(a))
+    return B.kron(B.diag_extract(left), B.diag_extract(right), -1)
-- 
2.43.0


From 40e8d27e854662228a16a07c65ec5e9cb7a31328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 04/10] fix: infinite recursion in the Kronecker product of
 zero matrices

---
 matrix/ops/kron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..7ff996c 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -24,7 +24,7 @@ def kron(a: AbstractMatrix, b: Zero):
 
 @B.dispatch(precedence=proven())
 def kron(a: Zero, b: AbstractMatrix):
-    return kron(b, a)
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
 
 
 # Dense
-- 
2.43.0


From 5f474589c2ad145bf3aefc2e3f6a7b7c2d283ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 05/10] fix: dividing by a number keeps the data type

---
 matrix/ops/divide.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/divide.py b/matrix/ops/divide.py
index b8cfd8f..c477e3f 100644
--- a/matrix/ops/divide.py
+++ b/matrix/ops/divide.py
@@ -19,4 +19,4 @@ def divide(a: AbstractMatrix, b: AbstractMatrix):
 
 @B.dispatch
 def divide(a: AbstractMatrix, b: Constant):
-    return B.multiply(a, Constant(B.divide(1, b.const), *B.shape(b)))
+    return B.multiply(a, Constant(1 / b.const, *B.shape(b)))
-- 
2.43.0


From f75d4972411fe3d054fda14fcef96f8fab3dbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 06/10] fix: take rows and columns of batched low-rank matrices
 along the right axis

---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From 59d7d7644b1a90e134c727081c9abe7184d3c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 07/10] fix: reject products of triangular and constant
 matrices of incompatible shapes

---
 matrix/ops/multiply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 929aa6f..7620b42 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -138,6 +138,7 @@ def multiply(a: LowerTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return LowerTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -170,6 +171,7 @@ def multiply(a: UpperTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return UpperTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
-- 
2.43.0


From 9b72e0fccf5eb9250990db5ca13cbc4f7e30c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:21 +0000
Subject: [PATCH 08/10] fix: keep the data type in the Cholesky decomposition
 of constant matrices

---
 matrix/ops/cholesky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/cholesky.py b/matrix/ops/cholesky.py
index dcc63eb..313e84e 100644
--- a/matrix/ops/cholesky.py
+++ b/matrix/ops/cholesky.py
@@ -44,7 +44,7 @@ def cholesky(a: Diagonal):
 def cholesky(a: Constant):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        chol_const = B.divide(B.sqrt(a.const), B.sqrt(a.cols))
+        chol_const = B.sqrt(B.divide(a.const, a.cols))
         a.cholesky = Constant(chol_const, a.rows, a.cols)
     return a.cholesky
 
-- 
2.43.0


From d9c79c4d659b21c906f46b38fd4b783fb2eece21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 09/10] fix: reject matrices which cannot be multiplied in the
 diagonal of a product

---
 matrix/ops/matmul_diag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/matmul_diag.py b/matrix/ops/matmul_diag.py
index 107f196..13ce445 100644
--- a/matrix/ops/matmul_diag.py
+++ b/matrix/ops/matmul_diag.py
@@ -1,7 +1,7 @@
 import lab as B
 
 from ..lowrank import LowRank
-from .matmul import _tr
+from .matmul import _assert_composable, _tr
 
 __all__ = []
 
@@ -19,6 +19,7 @@ def matmul_diag(a, b, tr_a: bool = False, tr_b: bool = False):
     Returns:
         vector: Diagonal of matrix product of `a` and `b`.
     """
+    _assert_composable(a, b, tr_a=tr_a, tr_b=tr_b)
     a = _tr(a, not tr_a)
     b = _tr(b, tr_b)
     return B.sum(B.multiply(a, b), axis=-2)
-- 
2.43.0


From a8815a7713c67a9382ffe011be4b2a45ef9920a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 10/10] fix: reject broadcasting zero and constant matrices to
 shapes which do not fit

---
 matrix/ops/broadcast_batch_to.py |  2 +-
 matrix/ops/broadcast_to.py       | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/broadcast_batch_to.py b/matrix/ops/broadcast_batch_to.py
index 60e0e47..77873b9 100644
--- a/matrix/ops/broadcast_batch_to.py
+++ b/matrix/ops/broadcast_batch_to.py
@@ -31,7 +31,7 @@ def broadcast_batch_to(a: B.Numeric, *batch: B.Int):
 
 @B.dispatch
 def broadcast_batch_to(a: Zero, *batch: B.Int):
-    return Zero(a.dtype, *batch, a.rows, a.cols)
+    return B.broadcast_to(a, *batch, a.rows, a.cols)
 
 
 @B.dispatch
diff --git a/matrix/ops/broadcast_to.py b/matrix/ops/broadcast_to.py
index 27b25df..0b63bda 100644
--- a/matrix/ops/broadcast_to.py
+++ b/matrix/ops/broadcast_to.py
@@ -37,11 +37,18 @@ def _broadcast_to(a: AbstractMatrix, *shape: B.Int):
         return Dense(B.broadcast_to(B.dense(a), *shape))
 
 
+def _assert_broadcast_to(a, shape):
+    if expand_and_broadcast(B.shape(a), Shape(*shape)) != Shape(*shape):
+        raise RuntimeError(f"Cannot broadcast {a} to shape {Shape(*shape)}.")
+
+
 @_dispatch
 def _broadcast_to(a: Zero, *shape: B.Int):
-    return Zero(a.dtype, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    _assert_broadcast_to(a, shape)
+    return Zero(a.dtype, *shape)
 
 
 @_dispatch
 def _broadcast_to(a: Constant, *shape: B.Int):
-    return Constant(a.const, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    _assert_broadcast_to(a, shape)
+    return Constant(a.const, *shape)
-- 
2.43.0

