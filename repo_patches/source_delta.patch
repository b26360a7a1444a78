From dbad882cbadfce6a70de1d2d2c10a862ddb3b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 01/17] fix: zeros_like keeps the mask of the array

---
 pylops_mpi/DistributedArray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 431ddb6..0307825 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -545,6 +545,7 @@ class DistributedArray:
                                partition=self.partition,
                                axis=self.axis,
                                local_shapes=self.local_shapes,
+                               mask=self.mask,
                                engine=self.engine,
                                dtype=self.dtype)
         arr[:] = 0.
-- 
2.43.0


From ed234edd42e436b5056d07b1f0e536f14c3046c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 02/17] fix: ravel, dot and norm stay on the communicator of
 the array

---
 pylops_mpi/DistributedArray.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 0307825..6e2b85a 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -488,9 +488,9 @@ class DistributedArray:
         self._check_mask(dist_array)
 
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
-        y = DistributedArray.to_dist(x=dist_array.local_array) \
+        y = DistributedArray.to_dist(x=dist_array.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array
         # Flatten the local arrays and calculate dot product
         return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))
@@ -563,7 +563,7 @@ class DistributedArray:
             Axis along which vector norm needs to be computed. Defaults to ``-1``
         """
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
         if axis == -1:
             # Flatten the local arrays and calculate norm
@@ -617,6 +617,7 @@ class DistributedArray:
         """
         local_shapes = [(np.prod(local_shape, axis=-1), ) for local_shape in self.local_shapes]
         arr = DistributedArray(global_shape=np.prod(self.global_shape),
+                               base_comm=self.base_comm,
                                local_shapes=local_shapes,
                                mask=self.mask,
                                partition=self.partition,
-- 
2.43.0


From 665a3b6f862380fbc267e0b43c85f5f9ab4c550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 03/17] fix: norm of fractional order of arrays with negative
 entries

---
 pylops_mpi/DistributedArray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 6e2b85a..15197af 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -533,7 +533,7 @@ class DistributedArray:
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
         else:
-            recv_buf = self._allreduce_subcomm(np.sum(np.abs(np.float_power(local_array, ord)), axis=axis))
+            recv_buf = self._allreduce_subcomm(np.sum(np.float_power(np.abs(local_array), ord), axis=axis))
             recv_buf = np.power(recv_buf, 1. / ord)
         return recv_buf
 
-- 
2.43.0


From 384d22fcdeab4ea2acebeddb5dd46155ec6ad37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 04/17] fix: infinity norms of arrays with empty ranks

---
 pylops_mpi/DistributedArray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 15197af..fda37b0 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -523,12 +523,12 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis, initial=0.).astype(np.float64),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis, initial=np.inf).astype(np.float64),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From 88bca6470ddf9bab09ba2dbf72f84163ac75a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 05/17] fix: power of an operator returns the result of the
 last application

The result was copied into the layout of the input: a stacked operator
returned its input unchanged, and an operator whose output is laid out
differently from its input (MPIVStack) had one element broadcast over
the whole vector.
---
 pylops_mpi/LinearOperator.py        | 2 +-
 pylops_mpi/StackedLinearOperator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index a7bc9be..2fdf2c7 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -370,7 +370,7 @@ class _PowerLinearOperator(MPILinearOperator):
     def _power(self, fun: Callable, x: DistributedArray) -> DistributedArray:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res).local_array
+            res = fun(res)
         return res
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 2133954..a4d1fd5 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -366,7 +366,7 @@ class _PowerLinearOperator(MPIStackedLinearOperator):
     def _power(self, fun: Callable, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res)[:]
+            res = fun(res)
         return res
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
-- 
2.43.0


From b9ebac29f3f3be692592ae556782bc3a9df33eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 06/17] fix: sums and products of arrays of different dtypes
 are not truncated

The result was stored in the dtype of the left operand: the imaginary
part of real + complex, or the fraction of int * float, was lost.
---
 pylops_mpi/DistributedArray.py | 35 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index fda37b0..4243381 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -439,15 +439,16 @@ class DistributedArray:
         """
         self._check_partition_shape(dist_array)
         self._check_mask(dist_array)
+        local_sum = self.local_array + dist_array.local_array
         SumArray = DistributedArray(global_shape=self.global_shape,
                                     base_comm=self.base_comm,
-                                    dtype=self.dtype,
+                                    dtype=local_sum.dtype,
                                     partition=self.partition,
                                     local_shapes=self.local_shapes,
                                     mask=self.mask,
                                     engine=self.engine,
                                     axis=self.axis)
-        SumArray[:] = self.local_array + dist_array.local_array
+        SumArray[:] = local_sum
         return SumArray
 
     def iadd(self, dist_array):
@@ -464,21 +465,21 @@ class DistributedArray:
         if isinstance(dist_array, DistributedArray):
             self._check_partition_shape(dist_array)
             self._check_mask(dist_array)
+            # multiply two DistributedArray
+            local_product = self.local_array * dist_array.local_array
+        else:
+            # multiply with scalar
+            local_product = self.local_array * dist_array
 
         ProductArray = DistributedArray(global_shape=self.global_shape,
                                         base_comm=self.base_comm,
-                                        dtype=self.dtype,
+                                        dtype=local_product.dtype,
                                         partition=self.partition,
                                         local_shapes=self.local_shapes,
                                         mask=self.mask,
                                         engine=self.engine,
                                         axis=self.axis)
-        if isinstance(dist_array, DistributedArray):
-            # multiply two DistributedArray
-            ProductArray[:] = self.local_array * dist_array.local_array
-        else:
-            # multiply with scalar
-            ProductArray[:] = self.local_array * dist_array
+        ProductArray[:] = local_product
         return ProductArray
 
     def dot(self, dist_array):
@@ -773,9 +774,8 @@ class StackedDistributedArray:
 
         """
         self._check_stacked_size(stacked_array)
-        SumArray = self.copy()
-        for iarr in range(self.narrays):
-            SumArray[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
+        SumArray = StackedDistributedArray([self[iarr] + stacked_array[iarr]
+                                            for iarr in range(self.narrays)])
         return SumArray
 
     def iadd(self, stacked_array):
@@ -791,16 +791,13 @@ class StackedDistributedArray:
         """
         if isinstance(stacked_array, StackedDistributedArray):
             self._check_stacked_size(stacked_array)
-        ProductArray = self.copy()
-
-        if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array[iarr])[:]
+            ProductArray = StackedDistributedArray([self[iarr] * stacked_array[iarr]
+                                                    for iarr in range(self.narrays)])
         else:
             # multiply with scalar
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array)[:]
+            ProductArray = StackedDistributedArray([self[iarr] * stacked_array
+                                                    for iarr in range(self.narrays)])
         return ProductArray
 
     def dot(self, stacked_array):
-- 
2.43.0


From cca687b57228a94865424f0f662b19ee0a60e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 07/17] fix: complex multiples and mixed sums of operators have
 a complex dtype

---
 pylops_mpi/LinearOperator.py        | 6 +++---
 pylops_mpi/StackedLinearOperator.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index 2fdf2c7..c808827 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -310,13 +310,13 @@ class _ScaledLinearOperator(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
         if y is not None:
-            y[:] *= self.args[1]
+            y = y * self.args[1]
         return y
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].rmatvec(x)
         if y is not None:
-            y[:] *= np.conj(self.args[1])
+            y = y * np.conj(self.args[1])
         return y
 
     def _adjoint(self) -> MPILinearOperator:
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index a4d1fd5..5cc25fc 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -331,7 +331,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
-- 
2.43.0


From ff3a3728e13d55bc063a3faef78719fe313da34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 08/17] fix: CGLS started from a nonzero guess uses the squared
 damping

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index db7349a..cf250f5 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -337,7 +337,7 @@ class CGLS(Solver):
 
         x = x0.copy()
         self.s = self.y - self.Op.matvec(x)
-        damped_x = x * damp
+        damped_x = x * self.damp
         r = self.Op.rmatvec(self.s) - damped_x
         self.rank = x.rank
         self.c = r.copy()
@@ -348,7 +348,7 @@ class CGLS(Solver):
         self.cost = []
         self.cost1 = []
         self.cost.append(float(self.s.norm()))
-        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + damp * np.abs(x.dot(x.conj())))))
+        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
         self.iiter = 0
 
         # print setup
-- 
2.43.0


From c84681363820dc621fc81b75ffe216fbb1a32a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 09/17] fix: CGLS returns the norm of the residual as r1norm

---
 pylops_mpi/optimization/cls_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index cf250f5..34a1884 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -454,7 +454,7 @@ class CGLS(Solver):
         self.telapsed = self.tend - self.tstart
         # reason for termination
         self.istop = 1 if self.kold < self.tol else 2
-        self.r1norm = self.kold
+        self.r1norm = self.cost[self.iiter]
         self.r2norm = self.cost1[self.iiter]
         if show and self.rank == 0:
             self._print_finalize(nbar=65)
-- 
2.43.0


From 79fc6f0a8a26c62d72da59b1de619cfd1fe36692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 10/17] fix: MPIFredholm1 refuses an unsupported split on every
 rank

---
 pylops_mpi/signalprocessing/Fredholm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3b8a9ef..53dce6e 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -87,7 +87,7 @@ class MPIFredholm1(MPILinearOperator):
         self.nz = nz
         self.nsl, self.nx, self.ny = G.shape
         self.nsls = base_comm.allgather(self.nsl)
-        if base_comm.Get_rank() == 0 and 1 in self.nsls:
+        if 1 in self.nsls:
             raise NotImplementedError(f'All ranks must have at least 2 or more '
                                       f'elements in the first dimension: '
                                       f'local split is instead {self.nsls}...')
-- 
2.43.0


From 851deb785fefc99b0abcf5cce21dfd05e1410f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 11/17] fix: MPIFredholm1 with a single row or column per slice

---
 pylops_mpi/signalprocessing/Fredholm1.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 53dce6e..3513de2 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -113,15 +113,13 @@ class MPIFredholm1(MPILinearOperator):
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dims).squeeze()
+        x = x.local_array.reshape(self.dims)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             y1 = ncp.matmul(self.G, x)
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype)
             for isl in range(self.nsls[self.rank]):
                 y1[isl] = ncp.dot(self.G[isl], x[isl])
         # gather results
@@ -135,12 +133,10 @@ class MPIFredholm1(MPILinearOperator):
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dimsd).squeeze()
+        x = x.local_array.reshape(self.dimsd)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             if hasattr(self, "GT"):
                 y1 = ncp.matmul(self.GT, x)
             else:
@@ -150,7 +146,7 @@ class MPIFredholm1(MPILinearOperator):
                     .conj()
                 )
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype)
             if hasattr(self, "GT"):
                 for isl in range(self.nsls[self.rank]):
                     y1[isl] = ncp.dot(self.GT[isl], x[isl])
-- 
2.43.0


From 9b913729abf23f979f97c92a55e6dbeeb4d30dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 12/17] fix: stacked operators can be subtracted

---
 pylops_mpi/StackedLinearOperator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 5cc25fc..c4e2fdc 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -326,13 +326,20 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
     def __init__(self, A: MPIStackedLinearOperator, B: MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator) or not isinstance(B, MPIStackedLinearOperator):
             raise ValueError('both operands have to be a MPIStackedLinearOperator')
-        if type(A) != type(B):  # noqa: E721
+        if self._kind(A) != self._kind(B):
             raise ValueError(f'both operands have to be of same type, {A} != {B}')
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
         super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
+    @staticmethod
+    def _kind(A: MPIStackedLinearOperator):
+        # scaling an operator (e.g., -B in A - B) does not change its kind
+        while isinstance(A, _ScaledStackedLinearOperator):
+            A = A.args[0]
+        return type(A)
+
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
         arr2 = self.args[1].matvec(x)
-- 
2.43.0


From 31afcb03e3ca8e7ead7abfc780110d5f44287f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:25 +0000
Subject: [PATCH 13/17] fix: CG and CGLS print their setup for stacked arrays
 of different local sizes

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index 34a1884..ad1d417 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -98,7 +98,7 @@ class CG(Solver):
 
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
@@ -354,7 +354,7 @@ class CGLS(Solver):
         # print setup
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
-- 
2.43.0


From fa970a21e3d7d7a719e29b5ff0b552e2bb3eed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 14/17] fix: stacks of operators of different dtypes on
 different ranks have one dtype

---
 pylops_mpi/basicoperators/BlockDiag.py | 2 ++
 pylops_mpi/basicoperators/VStack.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 2851110..e298fb9 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -116,6 +116,8 @@ class MPIBlockDiag(MPILinearOperator):
         self.mmops = np.insert(np.cumsum(mops), 0, 0)
         shape = (base_comm.allreduce(self.nops), base_comm.allreduce(self.mops))
         dtype = _get_dtype(ops) if dtype is None else np.dtype(dtype)
+        # the ranks may hold operators of different dtypes
+        dtype = np.result_type(*base_comm.allgather(dtype))
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     @reshaped(forward=True, stacking=True)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index f869a9a..7688795 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -114,6 +114,8 @@ class MPIVStack(MPILinearOperator):
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         shape = (base_comm.allreduce(self.nops), self.mops)
         dtype = _get_dtype(self.ops) if dtype is None else np.dtype(dtype)
+        # the ranks may hold operators of different dtypes
+        dtype = np.result_type(*base_comm.allgather(dtype))
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
-- 
2.43.0


From c596857683d69bbfd382b6e00c0011131baaa63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 15/17] fix: adjoint of forward derivatives when the last rows
 are not all on the last rank

---
 pylops_mpi/basicoperators/FirstDerivative.py  | 9 +++++----
 pylops_mpi/basicoperators/SecondDerivative.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 5adbe28..949d5cf 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -156,10 +156,11 @@ class MPIFirstDerivative(MPILinearOperator):
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
-        if self.rank == self.size - 1:
-            y[:-1] -= x[:-1]
-        else:
-            y[:] -= x[:]
+        # the last row of the entire array does not contribute, on whichever
+        # rank it is
+        nrows = sum(shape[0] for shape in x.local_shapes[self.rank:])
+        nrows = max(min(nrows - 1, x.local_shape[0]), 0)
+        y[:nrows] -= x[:nrows]
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_forward = ghosted_x[:-1]
         if self.rank == 0:
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 6c4fb96..b47f5eb 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -138,10 +138,11 @@ class MPISecondDerivative(MPILinearOperator):
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
         y[:] = 0
-        if self.rank == self.size - 1:
-            y[:-2] += x[:-2]
-        else:
-            y[:] += x[:]
+        # the last two rows of the entire array do not contribute, on whichever
+        # rank they are
+        nrows = sum(shape[0] for shape in x.local_shapes[self.rank:])
+        nrows = max(min(nrows - 2, x.local_shape[0]), 0)
+        y[:nrows] += x[:nrows]
 
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_forward = ghosted_x[:-2]
-- 
2.43.0


From bfa87177aa8b119bad932dcdede5b50f8a838de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 16/17] fix: infinity norms of integer arrays (follow-up to the
 norms of empty pieces)

---
 pylops_mpi/DistributedArray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 4243381..eabf282 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -524,12 +524,12 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis, initial=0.).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array).astype(np.float64), axis=axis, initial=0.),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis, initial=np.inf).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From b29e483c6a6cdb7d68ed7b8e12dbc40c393ef80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 17/17] fix: operators work on a communicator other than
 COMM_WORLD

Results (and arrays moved to the operator's layout) were created on
COMM_WORLD whatever communicator the operator and its input live on, and
Gradient, Laplacian, MDC and the operator algebra did not pass base_comm
on to the operators they are made of.
---
 pylops_mpi/LinearOperator.py                  | 12 +++++------
 pylops_mpi/StackedLinearOperator.py           | 12 +++++------
 pylops_mpi/basicoperators/BlockDiag.py        |  4 ++--
 pylops_mpi/basicoperators/FirstDerivative.py  | 20 +++++++++----------
 pylops_mpi/basicoperators/Gradient.py         |  5 +++--
 pylops_mpi/basicoperators/Laplacian.py        |  8 ++++++--
 pylops_mpi/basicoperators/SecondDerivative.py | 17 ++++++++--------
 pylops_mpi/basicoperators/VStack.py           |  4 ++--
 pylops_mpi/signalprocessing/Fredholm1.py      |  4 ++--
 pylops_mpi/utils/decorators.py                |  1 +
 pylops_mpi/waveeqprocessing/MDC.py            | 12 +++++++----
 11 files changed, 55 insertions(+), 44 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index c808827..b09cdda 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -240,7 +240,7 @@ class _AdjointLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.A.rmatvec(x)
@@ -256,7 +256,7 @@ class _TransposedLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
@@ -281,7 +281,7 @@ class _ProductLinearOperator(MPILinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -305,7 +305,7 @@ class _ScaledLinearOperator(MPILinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -388,7 +388,7 @@ class _ConjLinearOperator(MPILinearOperator):
         if not isinstance(A, MPILinearOperator):
             raise TypeError('A must be a MPILinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index c4e2fdc..e7c7bf8 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -230,7 +230,7 @@ class _AdjointStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         return self.A.rmatvec(x)
@@ -246,7 +246,7 @@ class _TransposedStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
@@ -276,7 +276,7 @@ class _ProductStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -300,7 +300,7 @@ class _ScaledStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         y = self.args[0].matvec(x)
@@ -331,7 +331,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     @staticmethod
     def _kind(A: MPIStackedLinearOperator):
@@ -391,7 +391,7 @@ class _ConjLinearOperator(MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator):
             raise TypeError('A must be a MPIStackedLinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index e298fb9..f9e698e 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -124,7 +124,7 @@ class MPIBlockDiag(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
-                             mask=self.mask, engine=x.engine, dtype=self.dtype)
+                             mask=self.mask, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
             y1.append(oper.matvec(x.local_array[self.mmops[iop]:
@@ -136,7 +136,7 @@ class MPIBlockDiag(MPILinearOperator):
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
-                             mask=self.mask, engine=x.engine, dtype=self.dtype)
+                             mask=self.mask, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
             y1.append(oper.rmatvec(x.local_array[self.nnops[iop]:
diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 949d5cf..2e7f2a6 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -129,20 +129,20 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=1)
         y_forward = ghosted_x[1:] - ghosted_x[:-1]
         if self.rank == self.size - 1:
@@ -154,7 +154,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         # the last row of the entire array does not contribute, on whichever
         # rank it is
@@ -173,7 +173,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_backward = ghosted_x[1:] - ghosted_x[:-1]
         if self.rank == 0:
@@ -185,7 +185,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=1)
         y_backward = ghosted_x[1:]
@@ -203,7 +203,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = 0.5 * (ghosted_x[2:] - ghosted_x[:-2])
         if self.rank == 0:
@@ -223,7 +223,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y[:] = 0
 
         ghosted_x = x.add_ghost_cells(cells_back=2)
@@ -251,7 +251,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2, cells_back=2)
         y_centered = (
             ghosted_x[:-4] / 12.0
@@ -278,7 +278,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=4)
         y_centered = ghosted_x[2:-2] / 12.0
diff --git a/pylops_mpi/basicoperators/Gradient.py b/pylops_mpi/basicoperators/Gradient.py
index 89fd5af..ef52750 100644
--- a/pylops_mpi/basicoperators/Gradient.py
+++ b/pylops_mpi/basicoperators/Gradient.py
@@ -103,6 +103,7 @@ class MPIGradient(MPIStackedLinearOperator):
         grad_ops = []
         Op1 = MPIFirstDerivative(dims=self.dims, sampling=self.sampling[0],
                                  kind=self.kind, edge=self.edge,
+                                 base_comm=self.base_comm,
                                  dtype=self.dtype)
         grad_ops.append(Op1)
         for iax in range(1, ndims):
@@ -114,6 +115,6 @@ class MPIGradient(MPIStackedLinearOperator):
                     edge=self.edge,
                     kind=self.kind,
                     dtype=self.dtype)
-            ])
+            ], base_comm=self.base_comm)
             grad_ops.append(diag)
-        return MPIStackedVStack(ops=grad_ops)
+        return MPIStackedVStack(ops=grad_ops, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/Laplacian.py b/pylops_mpi/basicoperators/Laplacian.py
index 7cc482e..39185e5 100644
--- a/pylops_mpi/basicoperators/Laplacian.py
+++ b/pylops_mpi/basicoperators/Laplacian.py
@@ -101,6 +101,7 @@ class MPILaplacian(MPILinearOperator):
                                                          sampling=self.sampling[0],
                                                          kind=self.kind,
                                                          edge=self.edge,
+                                                         base_comm=self.base_comm,
                                                          dtype=self.dtype)
         else:
             l2op = self.weights[0] * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
@@ -108,17 +109,20 @@ class MPILaplacian(MPILinearOperator):
                                                                         sampling=self.sampling[0],
                                                                         kind=self.kind,
                                                                         edge=self.edge,
-                                                                        dtype=self.dtype)])
+                                                                        dtype=self.dtype)],
+                                                  base_comm=self.base_comm)
         for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):
             if ax == 0:
                 l2op += weight * MPISecondDerivative(dims=self.dims,
                                                      sampling=samp,
                                                      edge=self.edge,
+                                                     base_comm=self.base_comm,
                                                      dtype=self.dtype)
             else:
                 l2op += weight * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
                                                                     axis=ax,
                                                                     sampling=samp,
                                                                     edge=self.edge,
-                                                                    dtype=self.dtype)])
+                                                                    dtype=self.dtype)],
+                                              base_comm=self.base_comm)
         return l2op
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index b47f5eb..9d42f58 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -112,20 +112,20 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_forward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
         if self.rank == self.size - 1:
@@ -136,7 +136,8 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
+        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             axis=x.axis, base_comm=x.base_comm, dtype=self.dtype)
         y[:] = 0
         # the last two rows of the entire array do not contribute, on whichever
         # rank they are
@@ -164,7 +165,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2)
         y_backward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
         if self.rank == 0:
@@ -176,7 +177,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_backward = ghosted_x[2:]
@@ -203,7 +204,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
         if self.rank == 0:
@@ -223,7 +224,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
-                             axis=x.axis, engine=x.engine, dtype=self.dtype)
+                             axis=x.axis, base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_centered = ghosted_x[1:-1]
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index 7688795..4e435e8 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -124,7 +124,7 @@ class MPIVStack(MPILinearOperator):
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
-                             engine=x.engine, dtype=self.dtype)
+                             base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
             y1.append(oper.matvec(x.local_array))
@@ -135,7 +135,7 @@ class MPIVStack(MPILinearOperator):
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
-                             engine=x.engine, dtype=self.dtype)
+                             base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
             y1.append(oper.rmatvec(x.local_array[self.nnops[iop]: self.nnops[iop + 1]]))
diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3513de2..6b4df34 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -112,7 +112,7 @@ class MPIFredholm1(MPILinearOperator):
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
-                             engine=x.engine, dtype=self.dtype)
+                             base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dims)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
@@ -132,7 +132,7 @@ class MPIFredholm1(MPILinearOperator):
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
-                             engine=x.engine, dtype=self.dtype)
+                             base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dimsd)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
diff --git a/pylops_mpi/utils/decorators.py b/pylops_mpi/utils/decorators.py
index 457b559..b4a869d 100644
--- a/pylops_mpi/utils/decorators.py
+++ b/pylops_mpi/utils/decorators.py
@@ -54,6 +54,7 @@ def reshaped(
                 local_shapes = None
                 global_shape = getattr(self, "dims")
             arr = DistributedArray(global_shape=global_shape,
+                                   base_comm=x.base_comm,
                                    local_shapes=local_shapes, axis=0,
                                    engine=x.engine, dtype=x.dtype)
             arr_local_shapes = np.asarray(arr.base_comm.allgather(np.prod(arr.local_shape)))
diff --git a/pylops_mpi/waveeqprocessing/MDC.py b/pylops_mpi/waveeqprocessing/MDC.py
index 18980bf..928b3be 100644
--- a/pylops_mpi/waveeqprocessing/MDC.py
+++ b/pylops_mpi/waveeqprocessing/MDC.py
@@ -53,15 +53,19 @@ def _MDC(G, nt, nv, nfmax, dt=1., dr=1., twosided=True,
         logging.warning('nfmax set equal to ceil[(nt+1)/2=%d]' % nfmax)
 
     Fop = MPILinearOperator(_FFT(dims=(nt, nr, nv), axis=0, real=True,
-                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT))
+                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT),
+                           base_comm=base_comm)
     F1op = MPILinearOperator(_FFT(dims=(nt, ns, nv), axis=0, real=True,
-                                  ifftshift_before=False, dtype=rdtype, **args_FFT1))
+                                  ifftshift_before=False, dtype=rdtype, **args_FFT1),
+                            base_comm=base_comm)
 
     # create Identity operator to extract only relevant frequencies
     Iop = MPILinearOperator(_Identity(N=nfmax * nr * nv, M=nfft * nr * nv,
-                                      inplace=True, dtype=dtype, **args_Identity))
+                                      inplace=True, dtype=dtype, **args_Identity),
+                           base_comm=base_comm)
     I1op = MPILinearOperator(_Identity(N=nfmax * ns * nv, M=nfft * ns * nv,
-                                       inplace=True, dtype=dtype, **args_Identity1))
+                                       inplace=True, dtype=dtype, **args_Identity1),
+                            base_comm=base_comm)
     F1opH = F1op.H
     I1opH = I1op.H
 
-- 
2.43.0

