From 23d8c8c75d03ffa30e5e854f92b72caded60cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 01/53] fix: reg_pos_def_mat: use the symmetric eigensolver so
 the result is regular for repeated eigenvalues

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..35a629d 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -214,7 +214,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, UPLO='U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From 36d639f34d8f8f04e5f51c9db2c5467b32039cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 02/53] fix: orth_transl_qr: clamp 1 - cos^2 at zero (NaN for
 parallel vectors)

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 35a629d..8ccf422 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -197,7 +197,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From 1ced05c3c81515d063efebfac832b438bcceac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 03/53] fix: reg_mat: support rectangular matrices

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 8ccf422..d88f558 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -259,7 +259,7 @@ def reg_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     if not(np.isscalar(reg_tol) and is_numeric(reg_tol) and reg_tol > 0.):
             throw_error('wrongInput:reg_tol', 'reg_tol must be a positive numeric scalar')
     reg_tol = try_treat_as_real(reg_tol)
-    u_mat, s_vec, v_mat = np.linalg.svd(inp_mat)
+    u_mat, s_vec, v_mat = np.linalg.svd(inp_mat, full_matrices=False)
     s_mat = np.diag(np.maximum(s_vec, reg_tol))
     res_mat = u_mat @ s_mat @ v_mat
     return res_mat
-- 
2.43.0


From e6f4e6694495d466a02ec5a32e54bcd70aa9e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 04/53] fix: MatVector.make_symmetric: accept a single
 (2-dimensional) matrix

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..9d86e26 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,7 +85,8 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
-        ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
+        trans_arr = MatVector.transpose(data_arr)
+        ret_arr = 0.5 * (MatVector.transpose(trans_arr) + trans_arr)
         return ret_arr
 
     @staticmethod
-- 
2.43.0


From 56bd44f4bafcce5d69e719cad78246cf1230675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 05/53] fix: MatVector.pinv: accept a single (2-dimensional)
 matrix

---
 products/ellipy/gras/gen/gen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 9d86e26..2fd048a 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -94,6 +94,7 @@ class MatVector:
         arr_size = data_arr.shape
         if data_arr.ndim == 2:
             arr_size = (arr_size[0], arr_size[1], 1)
+            data_arr = np.expand_dims(data_arr, 2)
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
             inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
-- 
2.43.0


From 5b0bedd2eeb720e2573997c22b672d5a000ddb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 06/53] fix: MatVector.r_multiply: constant-in-time and scalar
 (1x1) factors in dense mode

---
 products/ellipy/gras/gen/gen.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 2fd048a..369cc46 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -244,6 +244,11 @@ class MatVector:
             return sp.csc_matrix((int_arr.T.flatten(), (i_ind, j_ind)),
                                  shape=(n_rows * n_time_points, n_cols * n_time_points))
 
+        def mult(first_mat: np.ndarray, sec_mat: np.ndarray) -> np.ndarray:
+            if first_mat.size == 1 or sec_mat.size == 1:
+                return first_mat * sec_mat
+            return first_mat @ sec_mat
+
         use_sparse = use_sparse_matrix
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
@@ -254,6 +259,7 @@ class MatVector:
         n_b_cols = b_shape[1]
         if b_arr.ndim < 3:
             b_shape += (1,)
+        b_dense_arr = np.reshape(b_arr, b_shape)
         if c_arr is None:
             is_binary = True
             n_c_rows = None
@@ -262,6 +268,7 @@ class MatVector:
             c_shape = c_arr.shape
             n_c_rows = c_shape[0]
             n_c_cols = c_shape[1]
+            c_dense_arr = np.reshape(c_arr, c_shape if c_arr.ndim > 2 else c_shape + (1,))
             is_binary = False
         is_a_scalar = (n_a_cols == 1) and (n_a_rows == 1)
         is_b_scalar = (n_b_cols == 1) and (n_b_rows == 1)
@@ -285,10 +292,10 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
                 if b_shape[2] == n_time_points:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
+                        res_mat[:, :, i_time_point] = mult(a_arr[:, :, i_time_point], b_dense_arr[:, :, i_time_point])
                 elif b_shape[2] == 1:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
+                        res_mat[:, :, i_time_point] = mult(a_arr[:, :, i_time_point], b_dense_arr[:, :, 0])
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
@@ -299,8 +306,9 @@ class MatVector:
                 else:
                     res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
                 for i_time_point in range(n_time_points):
-                    res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ \
-                                                  b_arr[:, :, i_time_point] @ c_arr[:, :, i_time_point]
+                    res_mat[:, :, i_time_point] = mult(
+                        mult(a_arr[:, :, i_time_point], b_dense_arr[:, :, i_time_point if b_shape[2] > 1 else 0]),
+                        c_dense_arr[:, :, i_time_point if c_dense_arr.shape[2] > 1 else 0])
         return res_mat
 
 
-- 
2.43.0


From 8952bd3e63113d1ed57b54cf6dc84fb0f5679550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 07/53] fix: SquareMatVector.sqrtm_pos: 1x1 pages and pages
 containing NaN

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 369cc46..2c908b6 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -336,7 +336,8 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                else:
+                    sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
-- 
2.43.0


From 815350054d38e9d1e7c3b1cab7bb6a2176cecea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 08/53] fix: SymmetricMatVector: apply the transposed
 eigenvector matrices (B = V D V')

---
 products/ellipy/gras/gen/gen.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 2c908b6..21cb908 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -461,9 +461,10 @@ class SymmetricMatVector(SquareMatVector):
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
         ua_array = None
         if flag == 'L':
-            ua_array = SquareMatVector.r_multiply(u_array, MatVector.transpose(inp_a_arr))
+            ua_array = MatVector.transpose(SquareMatVector.r_multiply(
+                MatVector.transpose(u_array), MatVector.transpose(inp_a_arr)))
         elif flag == 'R':
-            ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
+            ua_array = SquareMatVector.r_multiply(MatVector.transpose(u_array), inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
         out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
@@ -472,27 +473,27 @@ class SymmetricMatVector(SquareMatVector):
     @staticmethod
     def r_svd_multiply_by_vec(inp_mat_arr: np.ndarray, inp_vec_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_mat_arr)
-        uv_array = MatVector.r_multiply_by_vec(u_array, inp_vec_arr)
+        uv_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_vec_arr)
         if inp_vec_arr.ndim != 2:
             throw_error('wrongInput:inp_vec_arr', 'inpVecArray is expected to be 2-dimensional array')
         m_size_vec = np.shape(s_array)
         v_size_vec = np.shape(uv_array)
         out_vec_array = np.zeros((m_size_vec[0], v_size_vec[1]), dtype=np.float64)
         for t in range(v_size_vec[1]):
-            out_vec_array[:, t] = u_array[:, :, t].T @ s_array[:, :, t] @ uv_array[:, t]
+            out_vec_array[:, t] = u_array[:, :, t] @ s_array[:, :, t] @ uv_array[:, t]
         return out_vec_array
 
     @staticmethod
     def lr_svd_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
+        ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
         out_vec = SquareMatVector.lr_multiply_by_vec(s_array, ua_array)
         return out_vec
 
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(u_array, inp_a_arr)
+        ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
-- 
2.43.0


From 248ce739fde89fd9b94800a1c0184d06c25753ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 09/53] fix: SymmetricMatVector: accept a single
 (2-dimensional) symmetric matrix

---
 products/ellipy/gras/gen/gen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 21cb908..5850cb1 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -515,6 +515,7 @@ class SymmetricMatVector(SquareMatVector):
         size_vec = np.shape(sym_arr)
         if len(size_vec) == 2:
             size_vec = np.append(size_vec, 1)
+            sym_arr = np.expand_dims(sym_arr, 2)
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-- 
2.43.0


From 875b0e16909b6a148607c279aacdf5a77797db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 10/53] fix: SymmetricMatVector.lr_svd_divide_vec: single
 matrix divided by several vectors

---
 products/ellipy/gras/gen/gen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 5850cb1..ff127d8 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -493,15 +493,18 @@ class SymmetricMatVector(SquareMatVector):
     @staticmethod
     def lr_svd_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         u_array, s_array = SymmetricMatVector.__array_svd(inp_b_arr)
-        ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
         #
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
         #
-        n_mat_elems = np.shape(inp_b_arr)
+        n_mat_elems = np.shape(u_array)
         n_mat_elems = n_mat_elems[2]
         if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
+            ua_array = u_array[:, :, 0].T @ inp_a_arr
+        else:
+            ua_array = MatVector.r_multiply_by_vec(MatVector.transpose(u_array), inp_a_arr)
+        if n_mat_elems == 1:
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
             out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
         else:
             out_vec = np.zeros(n_elems, dtype=np.float64)
-- 
2.43.0


From d7d93a6208da573cac42ceb801e6f34618ab2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 11/53] fix: lr_multiply_by_vec, lr_divide_vec: do not reshape
 the caller's array in place

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index ff127d8..00d997b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -425,7 +425,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -440,7 +440,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From a2a482fc99256c705a35f90df5a301552ff0e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 12/53] fix: lr_divide_vec: one value per vector for a constant
 matrix

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 00d997b..d3f9368 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -442,7 +442,7 @@ class SquareMatVector(MatVector):
         if inp_a_arr.ndim == 1:
             inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
-            out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
+            out_vec = np.sum(inp_a_arr * np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0], axis=0, keepdims=True)
         else:
             if inp_a_arr.shape[1] == 1:
                 out_vec = np.zeros((inp_b_arr.shape[2],), dtype=np.float64)
-- 
2.43.0


From a5c9a85ba4cde1b05998344e7adde79545e71b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 13/53] fix: rho_mat: tolerate round-off below zero for a
 single direction as for several

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 products/ellipy/gras/geom/ell/ell.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..867cdfb 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -590,7 +590,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..27978fb 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,7 +104,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
         if np.any(np.isnan(bp_mat)):
-- 
2.43.0


From f68a39554726f262b5fb2a5efdafaef9fa9835b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 14/53] fix: sup_geom_diff_2d: walk the hull facets in order
 and wrap the direction index

---
 products/ellipy/gras/geom/sup/sup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..67e2b03 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -73,7 +73,8 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
     # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
+    ind_vert_vec = np.sort(ConvexHull(s_mat.T).vertices)
+    ind_mat = np.column_stack((ind_vert_vec, np.roll(ind_vert_vec, -1)))
 
     ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
     is_neg_vec = ind_face_length_vec < -1
@@ -96,7 +97,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         for i_dir in range(0, n_change_dirs):
             ind_dir = ind_dir + 1
 
-            if ind_dir > n_dirs:
+            if ind_dir >= n_dirs:
                 ind_dir = 0
 
             a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-- 
2.43.0


From 73e3516a0d55ee1f7786be266b5b17d0ed65d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 15/53] fix: dict_compare: lists of different lengths are
 different

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..a076f15 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -115,6 +115,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                             return False, comp_report_str
                     else:
                         n_comp_elems = len(x)
+                        if n_comp_elems != len(y):
+                            return False, 'Different sizes (left: {}, right: {})'.format(n_comp_elems, len(y))
                         if n_comp_elems == 0:
                             return True, ''
                         is_comp_eq = True
-- 
2.43.0


From 6602593711387df9e2af274d95d18e96c3ca1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 16/53] fix: dict_compare: boolean values

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index a076f15..1d80bbb 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -84,7 +84,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     if x_shape_vec != y_shape_vec:
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
-                    if x_dtype in 'ui':
+                    if x_dtype in 'uib':
                         x_arr = np.array(x_arr, dtype=np.float)
                         y_arr = np.array(y_arr, dtype=np.float)
                     if x_dtype == 'fc':
-- 
2.43.0


From 9a2d9da55ea0594e969a455c4b9042d735838140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 17/53] fix: dict_compare: empty arrays of dictionaries

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 1d80bbb..5ada610 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -146,6 +146,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     sc_report_str_list.append(cur_report_str)
             return is_sc_eq, sc_report_str_list
 
+        if len(dict_x_list) == 0:
+            return [], []
         is_out_eq_list, out_report_str_list_list = \
             zip(*[dict_compare_scalar(dict_x, dict_y, inp_abs_tol, inp_rel_tol) for
                   (dict_x, dict_y) in zip(dict_x_list, dict_y_list)])
-- 
2.43.0


From a22b4132f6e7294f667f3e86ce193a28a0a31f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 18/53] fix: Hyperplane.is_parallel: compare all components of
 the normals

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..a378f13 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -210,9 +210,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From 815874cdb2c14e0f937e74a5a354ee8f724858ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 19/53] fix: Hyperplane.is_parallel: compare a single
 hyperplane with an array

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index a378f13..6d09e99 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -221,6 +221,11 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1:
+            first_hyp_arr = np.full(np.shape(sec_hyp_arr), first_hyp_arr.flat[0])
+        elif np.size(sec_hyp_arr) == 1:
+            sec_hyp_arr = np.full(np.shape(first_hyp_arr), sec_hyp_arr.flat[0])
+
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From d8ffb78b0c2a1c47edd99b94a05182e13b049a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 20/53] fix: Hyperplane: copies keep the relative tolerance

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 6d09e99..db31c00 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 936ec543bceba08a60fadee0a883166d9ff13410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 21/53] fix: Hyperplane.to_dict: canonical sign of the normal
 for a zero shift

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index db31c00..3fe2f08 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -262,7 +262,7 @@ class Hyperplane(ABasicEllipsoid):
                 norm_mult = 1. / np.linalg.norm(hp_norm_vec)
                 hp_norm_vec = hp_norm_vec * norm_mult
                 hp_scal = hp_scal * norm_mult
-                if hp_scal < 0.:
+                if hp_scal < 0. or (hp_scal == 0. and hp_norm_vec[np.flatnonzero(hp_norm_vec)[0]] < 0.):
                     hp_scal = -hp_scal
                     hp_norm_vec = -hp_norm_vec
                 hp_dict = {
-- 
2.43.0


From bc17c62b2075cfbe05a5a17b748b862e59b596bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 22/53] fix: Hyperplane.contains: reject mismatching sizes

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 3fe2f08..eb790fb 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -129,9 +129,9 @@ class Hyperplane(ABasicEllipsoid):
         if 1 == np.size(size_hyp_arr):
             size_hyp_arr = (1, size_hyp_arr[0])
 
-        if not (np.array_equal(size_x_vec[1:], size_hyp_arr) or
+        if not (size_x_vec[1] == np.size(hyp_arr) or
                 ((np.size(hyp_arr) == 1) and not (np.size(x_arr) == 0)) or
-                (np.size(size_x_vec[1:]) == 1)):
+                (size_x_vec[1] == 1)):
             throw_error('wrongSizes', 'Array of normal vectors and array of constants has wrong sizes.')
 
         def process(other_dim_vec_loc):
-- 
2.43.0


From 5cb2c9099a285af061b0150daabf5276eaa3205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 23/53] fix: to_dict: transform functions for the optional
 property fields (is_equal with properties)

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 2 ++
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 867cdfb..0cbf393 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -697,6 +697,8 @@ class Ellipsoid(AEllipsoid):
             field_descr_dict['n_plot_2d_points'] = 'Degree of ellipsoid border smoothness in 2D plotting.'
             field_nice_names_dict['n_plot_3d_points'] = 'n_plot_3d_points'
             field_descr_dict['n_plot_3d_points'] = 'Degree of ellipsoid border smoothness in 3D plotting.'
+            for field_name in ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']:
+                field_transform_func_dict[field_name] = lambda z: z
         return ell_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index eb790fb..a8f44d6 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -295,6 +295,8 @@ class Hyperplane(ABasicEllipsoid):
             field_descr_dict['abs_tol'] = 'Absolute tolerance.'
             field_nice_names_dict['rel_tol'] = 'rel_tol'
             field_descr_dict['rel_tol'] = 'Relative tolerance.'
+            field_transform_func_dict['abs_tol'] = lambda z: z
+            field_transform_func_dict['rel_tol'] = lambda z: z
         return hyp_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
-- 
2.43.0


From 847cbc6eea4118617e6fdec4e6e1825476d94be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 24/53] fix: is_equal: a single object given as an array of any
 shape

---
 .../ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..0dde4fa 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -192,9 +192,9 @@ class ABasicEllipsoid(ABC):
         ell2_dict_arr = np.reshape(np.array(ell2_dict_list), sec_shape_vec)
         if not (isn_first_scalar and isn_sec_scalar):
             if isn_first_scalar:
-                ell2_dict_arr = np.tile(ell2_dict_arr, list(first_shape_vec))
+                ell2_dict_arr = np.full(first_shape_vec, ell2_dict_arr.flat[0])
             else:
-                ell1_dict_arr = np.tile(ell1_dict_arr, list(sec_shape_vec))
+                ell1_dict_arr = np.full(sec_shape_vec, ell1_dict_arr.flat[0])
         is_eq_arr, report_str = dict_compare_vec(ell1_dict_arr, ell2_dict_arr, abs_tol, rel_tol)
         if isn_first_scalar:
             is_eq_arr = np.reshape(is_eq_arr, first_shape_vec)
-- 
2.43.0


From 4efeb93bb3bbf855f7650295ba3cb69ae7ccce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 25/53] fix: get_copy: keep the shape of one-element arrays

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 0dde4fa..2ebbe6c 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -228,7 +228,7 @@ class ABasicEllipsoid(ABC):
         ell_arr = ell_arr.flatten()
         if ell_arr.size == 1:
             # noinspection PyProtectedMember
-            return np.array(ell_arr[0]._get_single_copy())
+            return np.reshape(np.array(ell_arr[0]._get_single_copy()), ell_shape_vec)
         else:
             copy_ell_arr = np.empty((n_elems,), dtype=np.object)
             for i_elem in range(n_elems):
-- 
2.43.0


From f814e38b694ccd25a92936a99f48e9e13d738b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 26/53] fix: AEllipsoid.projection: reject negative inner
 products of basis vectors too

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..deabf4e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From 729df21d768213d78faded635fb6bcbab8f5dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 27/53] fix: AEllipsoid.volume: one number per ellipsoid for
 degenerate ellipsoids too

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index deabf4e..7dd42e4 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -138,7 +138,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
 
         def f_single_volume(ell_obj) -> np.ndarray:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return 0.0
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From 306fe3ccdca9858a9a48e429cd12d58f4d411ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 28/53] fix: Ellipsoid: store the shape matrix exactly
 symmetric

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 0cbf393..7770f46 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -56,7 +56,7 @@ class Ellipsoid(AEllipsoid):
             if not (is_mat_symm(shape_mat, self._abs_tol) and is_mat_pos_def(shape_mat, self._abs_tol, True)):
                 throw_error('wrongInput:shape_mat',
                             'configuration matrix should be symmetric and positive semidefinite')
-        self.__shape_mat = np.copy(shape_mat)
+        self.__shape_mat = 0.5 * (shape_mat + shape_mat.T)
 
     def quad_func(self) -> np.ndarray:
         pass
-- 
2.43.0


From 5e51674916182b1c9e11a262d0a7412116a32ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 29/53] fix: Ellipsoid.polar: arrays of several ellipsoids

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 7770f46..0cb78ca 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -581,9 +581,10 @@ class Ellipsoid(AEllipsoid):
         cls._check_is_me(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        ell_arr = np.array(ell_arr)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=object)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From d2f63ca1c4bbe4e96a60938e89efe600784073fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 30/53] fix: Ellipsoid polar: outer product of the center in
 the non-robust method

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 0cb78ca..8400ba0 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -84,7 +84,7 @@ class Ellipsoid(AEllipsoid):
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From 23fc24c506a664ed940c23246d6c528f3e04b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 31/53] fix: Ellipsoid polar: reject ellipsoids without the
 origin inside in the robust method too

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 8400ba0..1b41889 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -76,6 +76,8 @@ class Ellipsoid(AEllipsoid):
             inv_sh_mat = (inv_sh_mat + inv_sh_mat.T)/2
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
+            if norm_const >= 1:
+                throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
             polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + polar_c_vec * polar_c_vec.T
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
-- 
2.43.0


From 1e8954e520dd87996eb32216f5b105610a9e973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 32/53] fix: Ellipsoid._get_grid_by_factor: 2-dimensional
 ellipsoids

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 1b41889..164e1e5 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -198,7 +198,7 @@ class Ellipsoid(AEllipsoid):
             n_plot_points = self._n_plot_3d_points
             if not (factor == 1):
                 n_plot_points = np.floor(n_plot_points * factor)
-        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points)
+        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points, True)
         v_grid_mat[v_grid_mat == 0] = __EPS
 
         return v_grid_mat, f_grid_mat
-- 
2.43.0


From facfa827a068b0820f6b8dd6311e43a6a16935a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 33/53] fix: Ellipsoid.get_boundary: 3-dimensional ellipsoids
 without the grid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 164e1e5..2fc8e23 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -289,11 +289,7 @@ class Ellipsoid(AEllipsoid):
         else:
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
 
-        if return_grid:
-            dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-        else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-            f_mat = None
+        dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, True)
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
         cen_mat = np.tile(cen_vec.T, (dir_mat.shape[0], 1))
-- 
2.43.0


From 1f860738d8eef4b6ca8bc0083ddb148cc9b3d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 34/53] fix: sphere_tri_ext: integer-valued floating point
 numbers of points

---
 products/ellipy/gras/geom/tri/tri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..7e1daf4 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -481,6 +481,7 @@ def sphere_tri_ext(n_dim: int, n_points: int, return_f_grid: bool = False) \
             and 0 < n_points == np.fix(n_points)):
         throw_error('wrong_input',
                     'n_points is expected to be a positive integer scalar number')
+    n_points = int(n_points)
     if n_dim == 2:
         if return_f_grid:
             v_grid_mat, f_grid_mat = spherebndr_2d(n_points, return_f_grid)
-- 
2.43.0


From a725989e4264b9b17d53e611c4d6336a7c16b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 35/53] fix: Ellipsoid boundary by factor: scalar floating
 point factors

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 2fc8e23..ed9d66b 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -307,7 +307,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -362,7 +362,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From 021edefa332c1a8f14550d7a60b68b00a879258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 36/53] fix: Ellipsoid.is_internal: lists and arrays of any
 shape

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ed9d66b..ff8335d 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -429,7 +429,7 @@ class Ellipsoid(AEllipsoid):
             abs_tol_arr = cls.get_abs_tol(ell_arr_in, f_prop_fun=None)
             is_pos_arr = np.full((n_dims_mat.size, 1), True, dtype=bool)
             for j in range(0, n_dims_mat.size):
-                is_pos_arr[j] = f_single_case(ell_arr_in[j], abs_tol_arr[j])
+                is_pos_arr[j] = f_single_case(np.array([ell_arr_in.flat[j]]), abs_tol_arr[j])
             if mode_in == 'u':
                 is_positive = False
                 if np.any(np.ravel(is_pos_arr)):
@@ -441,6 +441,7 @@ class Ellipsoid(AEllipsoid):
             return is_positive
 
         cls._check_is_me(ell_arr, 'first')
+        ell_arr = np.array(ell_arr)
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
         if ell_arr.size == 0:
-- 
2.43.0


From 9b9dd04b841654e8b44e4e79a8cb2b059cb7061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 37/53] fix: Ellipsoid.rho: one-dimensional arrays of
 ellipsoids with one direction each

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ff8335d..25d080f 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -608,7 +608,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                (len(ell_size_vec) == 1 or ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From 9565c196fa3237f058761d96f0cf55cc57764fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 38/53] fix: Ellipsoid.is_bigger: degenerate first ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 25d080f..ea06e55 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -402,7 +402,7 @@ class Ellipsoid(AEllipsoid):
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
         _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
-        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
+        t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, 0.5 * abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
 
     @classmethod
-- 
2.43.0


From 9ee81c59a03f32261f8787bf5c4c970d343c29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 39/53] fix: ell_sim_diag: diagonalise indefinite second
 matrices

---
 products/ellipy/elltool/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..7337afa 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -21,7 +21,7 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
 
     u1_mat, s_vec, _ = np.linalg.svd(a_mat, full_matrices=True)
     u_mat = np.linalg.lstsq(sqrtm_pos(np.diag(s_vec), abs_tol).T, u1_mat.T, -1)[0].T
-    u2_mat, _, _ = np.linalg.svd(u_mat.T @ b_mat @ u_mat)
+    _, u2_mat = np.linalg.eigh(u_mat.T @ b_mat @ u_mat)
     return u2_mat.T @ u_mat.T
 
 
-- 
2.43.0


From d0980049360839203559531e3e6e9408de373105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 40/53] fix: Ellipsoid.minksum_ia: degenerate first ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ea06e55..84fbb02 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -562,7 +562,10 @@ class Ellipsoid(AEllipsoid):
             cent_vec = np.sum(np.array([ell.get_center_vec() for ell in ell_arr]), 0)
             abs_tol_arr = cls.get_abs_tol(ell_arr, f_prop_fun=None).flatten()
 
-            src_mat = sqrtm_pos(ell_arr[0].get_shape_mat(), np.min(abs_tol_arr)) @ dir_mat
+            first_sh_mat = ell_arr[0].get_shape_mat()
+            if ell_arr[0].is_degenerate([ell_arr[0]]).flat[0]:
+                first_sh_mat = cls._regularize(first_sh_mat, abs_tol_arr[0])
+            src_mat = sqrtm_pos(first_sh_mat, abs_tol_arr[0]) @ dir_mat
             sqrt_sh_arr, rot_arr = zip(*[f_rot_arr(i) for i in np.arange(0, n_ell)])
             sqrt_sh_arr = np.array(sqrt_sh_arr)
             rot_arr = np.array(rot_arr)
-- 
2.43.0


From 58a827a903b637b845a4ee7f85b9eb0a57ca5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 41/53] fix: rho_mat: support point for directions where the
 quadratic form is rounded to zero

---
 products/ellipy/gras/geom/ell/ell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 27978fb..8e88410 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -107,7 +107,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if np.any(np.isnan(bp_mat)):
+        if not np.all(np.isfinite(bp_mat)):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -115,7 +115,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
                                    axis=1), abs_tol).T
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
-        is_nan_bp_mat = np.isnan(bp_mat)
+        is_nan_bp_mat = ~np.isfinite(bp_mat)
         is_nan_vec = np.any(is_nan_bp_mat, 0)
         if np.any(is_nan_vec):
             bp_mat[:, is_nan_vec] = 0.
-- 
2.43.0


From 2b25ae60b4a9145dc6f658daa572123f85837ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 42/53] fix: sphere_part: never return the same direction twice

---
 products/ellipy/gras/geom/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/geom/geom.py b/products/ellipy/gras/geom/geom.py
index 173cfb6..7d13966 100755
--- a/products/ellipy/gras/geom/geom.py
+++ b/products/ellipy/gras/geom/geom.py
@@ -58,12 +58,12 @@ def sphere_part(n_points: int) -> np.ndarray:
         mod_i = np.mod(i_point, 3)
         if mod_i == 1:
             i_min = np.argmin(x_dist_vec)
-            x_dist_vec[i_min] = 2*np.pi
         elif mod_i == 2:
             i_min = np.argmin(y_dist_vec)
-            y_dist_vec[i_min] = 2*np.pi
         else:
             i_min = np.argmin(z_dist_vec)
-            z_dist_vec[i_min] = 2*np.pi
+        # a direction is never used twice
+        for dist_vec in (x_dist_vec, y_dist_vec, z_dist_vec):
+            dist_vec[i_min] = 2*np.pi
         r_mat[i_point] = p_mat[i_min]
     return r_mat
-- 
2.43.0


From 52406396101f71551faa0a81e2096c5ad6928eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 43/53] fix: Ellipsoid.get_rho_boundary_by_factor: reject wrong
 dimension before indexing the factors

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 84fbb02..2f374d4 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -359,6 +359,8 @@ class Ellipsoid(AEllipsoid):
             Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
         Ellipsoid._check_if_scalar(self)
         n_dim = self.dimension([self]).flat[0]
+        if (n_dim < 2) or (n_dim > 3):
+            throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-- 
2.43.0


From 87812eb52602435ea63a1fd8276dbc08a92be3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 44/53] fix: orth_transl_max_tr: one-dimensional vectors of
 opposite signs

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index d88f558..87cb708 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -152,7 +152,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return np.sign(src_vec * dst_vec).reshape((1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From 6d8c8e296ba6e5283167d2e7df0d7a34fb6e81be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 45/53] fix: orth_transl: loss of orthogonality for nearly
 antiparallel vectors

---
 products/ellipy/gras/la/la.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 87cb708..3dba6c9 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -93,11 +93,12 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     src_vec = src_vec / np.sqrt(src_squared_norm)
 
     scal_prod = np.sum(src_vec * dst_vec)
-    s_val = np.sqrt(np.maximum(1.0 - scal_prod * scal_prod, 0.0))
+    res_vec = src_vec - scal_prod * dst_vec
+    s_val = np.sqrt(np.sum(res_vec * res_vec))
     q_mat = np.zeros((n_dims, 2), dtype=np.float64)
     q_mat[:, 0] = np.squeeze(dst_vec)
     if np.abs(s_val) > __ABS_TOL:
-        q_mat[:, 1] = np.squeeze((src_vec - scal_prod * dst_vec) / s_val)
+        q_mat[:, 1] = np.squeeze(res_vec / s_val)
     else:
         q_mat[:, 1] = 0.0
 
-- 
2.43.0


From 22a0703153507830e8362018df152f4ab109ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 46/53] fix: ell_valign: one-dimensional vectors

---
 products/ellipy/elltool/core/core.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 7337afa..5faf9a1 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -49,15 +49,8 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if x.size != max(x.shape):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
-    if v.ndim == 0:
-        v = np.expand_dims(v, axis=0)
-    else:
-        v = np.squeeze(v)
-
-    if x.ndim == 0:
-        x = np.expand_dims(x, axis=0)
-    else:
-        x = np.squeeze(x)
+    v = np.reshape(v, (v.size,))
+    x = np.reshape(x, (x.size,))
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From 8e98c001af7e7a25ee785406b7549ae936a691ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 47/53] fix: MatVector.from_expression: constants mixed with
 time-dependent entries at one time point

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index d3f9368..40f61fa 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -188,24 +188,16 @@ class MatVector:
         elif exp_str[-2] != "]":
             exp_str = exp_str + "]"
         t = MatVector.__to_array(t_vec)
-        if len(t) == 1:
-            ret_val = np.array(eval(exp_str))
-            if ret_val.ndim < 2:
-                ret_val = np.expand_dims(ret_val, 1)
-            if ret_val.ndim < 3:
-                ret_val = np.expand_dims(ret_val, 2)
-            return ret_val
-        else:
-            time_len = len(t)
-            ret_val = eval(exp_str)
-            ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
-                        for j in i]
-                       for i in ret_val]
-            ret_val = np.array(ret_val)
-            ret_shape = ret_val.shape
-            if len(ret_shape) < 3:
-                ret_val = np.expand_dims(ret_val, 0)
-            return ret_val
+        time_len = len(t)
+        ret_val = eval(exp_str)
+        ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
+                    for j in i]
+                   for i in ret_val]
+        ret_val = np.array(ret_val)
+        ret_shape = ret_val.shape
+        if len(ret_shape) < 3:
+            ret_val = np.expand_dims(ret_val, 0)
+        return ret_val
 
     @staticmethod
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
-- 
2.43.0


From 8af52fd5c1e275b4bb508585905a9977cdc61ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 48/53] fix: MatVector.r_multiply: one-by-one third factor

---
 products/ellipy/gras/gen/gen.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 40f61fa..e8af9db 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -264,7 +264,8 @@ class MatVector:
             is_binary = False
         is_a_scalar = (n_a_cols == 1) and (n_a_rows == 1)
         is_b_scalar = (n_b_cols == 1) and (n_b_rows == 1)
-        if is_a_scalar or is_b_scalar:
+        is_c_scalar = (n_c_cols == 1) and (n_c_rows == 1)
+        if is_a_scalar or is_b_scalar or is_c_scalar:
             use_sparse = False
         if use_sparse:
             a_mat = np.reshape(a_arr, (n_a_rows, n_a_cols * n_time_points), order='F')
@@ -291,12 +292,15 @@ class MatVector:
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
+                n_res_cols = n_c_cols
+                if is_c_scalar:
+                    n_res_cols = n_a_cols if is_b_scalar else n_b_cols
                 if is_a_scalar and is_b_scalar:
-                    res_mat = np.zeros((n_c_rows, n_c_cols, n_time_points), dtype=np.float64)
+                    res_mat = np.zeros((n_c_rows, n_res_cols, n_time_points), dtype=np.float64)
                 elif is_a_scalar:
-                    res_mat = np.zeros((n_b_rows, n_c_cols, n_time_points), dtype=np.float64)
+                    res_mat = np.zeros((n_b_rows, n_res_cols, n_time_points), dtype=np.float64)
                 else:
-                    res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
+                    res_mat = np.zeros((n_a_rows, n_res_cols, n_time_points), dtype=np.float64)
                 for i_time_point in range(n_time_points):
                     res_mat[:, :, i_time_point] = mult(
                         mult(a_arr[:, :, i_time_point], b_dense_arr[:, :, i_time_point if b_shape[2] > 1 else 0]),
-- 
2.43.0


From 377a6c7087d7abf750c5ced85d35f7fa5d9e425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 49/53] fix: SquareMatVector.lr_multiply_by_vec: one vector
 with a family of matrices

---
 products/ellipy/gras/gen/gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index e8af9db..ee227af 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -427,6 +427,10 @@ class SquareMatVector(MatVector):
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
             for t in range(a_size_vec[1]):
                 out_vec[:, t] = inp_a_arr[:, t].T @ inp_b_arr @ inp_a_arr[:, t]
+        elif a_size_vec[1] == 1:
+            out_vec = np.zeros((1, inp_b_arr.shape[2]))
+            for t in range(inp_b_arr.shape[2]):
+                out_vec[:, t] = inp_a_arr[:, 0].T @ inp_b_arr[:, :, t] @ inp_a_arr[:, 0]
         else:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
             for t in range(a_size_vec[1]):
-- 
2.43.0


From 8d007731cb4dfeb14844967914de6df5653906f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 50/53] fix: SquareMatVector.make_pos_definite_or_nan: a single
 masked matrix keeps its shape

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index ee227af..ff50ad2 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -341,7 +341,7 @@ class SquareMatVector(MatVector):
         if data_arr.ndim == 2:
             s_min = min(np.linalg.eigvalsh(data_arr))
             if s_min < 0.:
-                res_data_arr = np.nan
+                res_data_arr = np.full(data_arr.shape, np.nan)
             else:
                 res_data_arr = data_arr
         else:
-- 
2.43.0


From de9d0706f3a01cd8c214566bbf6014f770321ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 51/53] fix: dict_compare: lists of arrays of different shapes

---
 products/ellipy/gen/dict/dict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5ada610..274a5ea 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -68,15 +68,16 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
             def comp_fun(x, y, comp_abs_tol: float, comp_rel_tol: float) -> Tuple[bool, str]:
                 comp_report_str = ''
 
-                x_dtype = np.asarray(x).dtype.kind
-                y_dtype = np.asarray(y).dtype.kind
                 x_type = type(x)
+                # elements of lists are compared one by one
+                x_dtype = '' if x_type == list else np.asarray(x).dtype.kind
+                y_dtype = '' if type(y) == list else np.asarray(y).dtype.kind
 
                 if x_type != type(y) or x_dtype != y_dtype:
                     comp_report_str = 'Different types'
                     return False, comp_report_str
 
-                if is_numeric(x) and x_type != list:
+                if x_type != list and is_numeric(x):
                     x_arr = np.array(x)
                     y_arr = np.array(y)
                     x_shape_vec = x_arr.shape
-- 
2.43.0


From 68468b9a02053806c25e0b7ce2d895c8f8f83a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 52/53] fix: shrink_face_tri: zero-area faces did not match
 their face-to-edge map

---
 products/ellipy/gras/geom/tri/tri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 7e1daf4..14070c9 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -260,7 +260,8 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_v_mid_e_broken_nut_kept_vec = ind_e_part_vec[is_e2part_vec & is_e_kept_vec]
 
             # faces have zero volume
-            f3_new_mat = np.column_stack((ind_v_mid_e_broken_nut_kept_vec, e_mat[ind_e_broken_but_kept_vec]))
+            e_broken_mat = e_mat[ind_e_broken_but_kept_vec]
+            f3_new_mat = np.column_stack((e_broken_mat[:, 0], ind_v_mid_e_broken_nut_kept_vec, e_broken_mat[:, 1]))
 
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
-- 
2.43.0


From 190b9b9ab8f83a4bbda82fefb4de24b4c63d80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 53/53] fix: shrink_face_tri: one face given as a one-row
 matrix

---
 products/ellipy/gras/geom/tri/tri.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 14070c9..143354b 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -123,6 +123,8 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         n_faces = 1
     else:
         n_faces = np.size(f_mat, 0)
+        f2e_mat = np.reshape(f2e_mat, (n_faces, 3))
+        f2e_is_dir_mat = np.reshape(f2e_is_dir_mat, (n_faces, 3))
 
     # Build edge distances
     d_mat = v_mat[e_mat[:, 0]] - v_mat[e_mat[:, 1]]
@@ -141,7 +143,7 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         is_e2orig_part_vec = e_length_vec > max_edge_len
         if np.any(is_e2orig_part_vec) and (i_step <= n_max_steps):
             # Find faces that need to be shortened
-            if n_faces > 1:
+            if f2e_mat.ndim > 1:
                 is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
             else:
                 # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
-- 
2.43.0

