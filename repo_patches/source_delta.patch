From c3c373248a41364096cdb53f6217fb82dd4e63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 01/77] fix: hyperplane copies keep the relative tolerance

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..97e0b5e 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 6809c83e631f4e4a1270a18c88e8bfc471d5ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 02/77] fix: hyperplanes are parallel only if their normals
 agree in every coordinate

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 97e0b5e..6db5870 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -210,9 +210,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec)) < first_hyp_abs_tol:
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From 51b3eed99fbd6202b4da9c2d3696f1dd313c26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 03/77] fix: parallelism of a single hyperplane with an array
 of hyperplanes

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 6db5870..6e8a668 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -221,6 +221,11 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1 and np.size(sec_hyp_arr) != 1:
+            first_hyp_arr = np.full(np.shape(sec_hyp_arr), first_hyp_arr.flatten()[0], dtype=object)
+        elif np.size(sec_hyp_arr) == 1:
+            sec_hyp_arr = np.full(np.shape(first_hyp_arr), sec_hyp_arr.flatten()[0], dtype=object)
+
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From 13698c76bea53bd9049f0183f945bc6a278512a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 04/77] fix: hyperplanes through the origin compare equal
 regardless of the orientation of the normal

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 6e8a668..f58b9d6 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -262,7 +262,7 @@ class Hyperplane(ABasicEllipsoid):
                 norm_mult = 1. / np.linalg.norm(hp_norm_vec)
                 hp_norm_vec = hp_norm_vec * norm_mult
                 hp_scal = hp_scal * norm_mult
-                if hp_scal < 0.:
+                if hp_scal < 0. or hp_scal == 0. and hp_norm_vec[np.nonzero(hp_norm_vec)[0][0]] < 0.:
                     hp_scal = -hp_scal
                     hp_norm_vec = -hp_norm_vec
                 hp_dict = {
-- 
2.43.0


From 224ba963b5febdba9d30828b36ff2f1a51048095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 05/77] fix: comparison of ellipsoids and hyperplanes with
 settings included

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 2 ++
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..a1fc547 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -697,6 +697,8 @@ class Ellipsoid(AEllipsoid):
             field_descr_dict['n_plot_2d_points'] = 'Degree of ellipsoid border smoothness in 2D plotting.'
             field_nice_names_dict['n_plot_3d_points'] = 'n_plot_3d_points'
             field_descr_dict['n_plot_3d_points'] = 'Degree of ellipsoid border smoothness in 3D plotting.'
+            for prop_name in ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return ell_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index f58b9d6..d76bfc3 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -295,6 +295,8 @@ class Hyperplane(ABasicEllipsoid):
             field_descr_dict['abs_tol'] = 'Absolute tolerance.'
             field_nice_names_dict['rel_tol'] = 'rel_tol'
             field_descr_dict['rel_tol'] = 'Relative tolerance.'
+            for prop_name in ['abs_tol', 'rel_tol']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return hyp_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
-- 
2.43.0


From 4fdaef0bb0a91ee77a410753a5759b0d02d82038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 06/77] fix: comparison of a single object given in an array of
 any shape

---
 .../ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..cf594aa 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -192,9 +192,9 @@ class ABasicEllipsoid(ABC):
         ell2_dict_arr = np.reshape(np.array(ell2_dict_list), sec_shape_vec)
         if not (isn_first_scalar and isn_sec_scalar):
             if isn_first_scalar:
-                ell2_dict_arr = np.tile(ell2_dict_arr, list(first_shape_vec))
+                ell2_dict_arr = np.reshape(np.tile(ell2_dict_arr.flatten(), ell_first_arr.size), first_shape_vec)
             else:
-                ell1_dict_arr = np.tile(ell1_dict_arr, list(sec_shape_vec))
+                ell1_dict_arr = np.reshape(np.tile(ell1_dict_arr.flatten(), ell_sec_arr.size), sec_shape_vec)
         is_eq_arr, report_str = dict_compare_vec(ell1_dict_arr, ell2_dict_arr, abs_tol, rel_tol)
         if isn_first_scalar:
             is_eq_arr = np.reshape(is_eq_arr, first_shape_vec)
-- 
2.43.0


From 7d6c9ae9a48e9fb28cf48dc4ec83e716c557a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 07/77] fix: != is the negation of == instead of raising an
 error

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 3 ++-
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a1fc547..67cbea2 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -268,7 +268,8 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def ne(cls, first_ell_arr: Union[Iterable, np.ndarray],
            second_ell_arr: Union[Iterable, np.ndarray]) -> Tuple[np.ndarray, str]:
-        pass
+        is_eq_arr, report_str = cls.eq(first_ell_arr, second_ell_arr)
+        return np.logical_not(is_eq_arr), report_str
 
     def __ne__(self, other):
         is_ne, _ = self.ne([self], [other])
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index d76bfc3..e856e44 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -239,7 +239,8 @@ class Hyperplane(ABasicEllipsoid):
     @classmethod
     def ne(cls, first_hyp_arr: Union[Iterable, np.ndarray],
            second_hyp_arr: Union[Iterable, np.ndarray]) -> Tuple[np.ndarray, str]:
-        pass
+        is_eq_arr, report_str = cls.eq(first_hyp_arr, second_hyp_arr)
+        return np.logical_not(is_eq_arr), report_str
 
     def __ne__(self, other):
         is_ne, _ = self.ne([self], [other])
-- 
2.43.0


From 908894b1460bf941d899ef2176e9326041a64226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 08/77] fix: copy of a one-element array keeps its shape

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index cf594aa..e15d7e3 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -228,7 +228,7 @@ class ABasicEllipsoid(ABC):
         ell_arr = ell_arr.flatten()
         if ell_arr.size == 1:
             # noinspection PyProtectedMember
-            return np.array(ell_arr[0]._get_single_copy())
+            return np.reshape(np.array(ell_arr[0]._get_single_copy()), ell_shape_vec)
         else:
             copy_ell_arr = np.empty((n_elems,), dtype=np.object)
             for i_elem in range(n_elems):
-- 
2.43.0


From 9313245461ed4ee670aeecac1fc660ee7d30bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 09/77] fix: polar of an ellipsoid with a general centre

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 67cbea2..dc26e85 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -77,14 +77,14 @@ class Ellipsoid(AEllipsoid):
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
-            polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + polar_c_vec * polar_c_vec.T
+            polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + np.outer(polar_c_vec, polar_c_vec)
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
             return polar_obj
         else:
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From 814f46d46bef81482aefb3819f2ea6d3646903c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 10/77] fix: polar of an ellipsoid without the origin in its
 interior is rejected

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index dc26e85..e2c75bf 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -76,6 +76,8 @@ class Ellipsoid(AEllipsoid):
             inv_sh_mat = (inv_sh_mat + inv_sh_mat.T)/2
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
+            if not norm_const < 1.0:
+                throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
             polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + np.outer(polar_c_vec, polar_c_vec)
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
-- 
2.43.0


From 4232c3dd414662f0f744c62e3d222fb33d9e16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 11/77] fix: polar of single objects, lists and arrays of
 several ellipsoids

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index e2c75bf..df1745f 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -582,11 +582,12 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def polar(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
         cls._check_is_me(ell_arr)
+        ell_arr = np.array(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=object)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From 50641c1da32fff1c2a93391ce0f3a7f15671301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 12/77] fix: basis vectors with negative inner products are not
 orthogonal

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..deabf4e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From 5e662a9ee64ac8e355523ea4aec176f405a6de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 13/77] fix: boundary of a three-dimensional ellipsoid without
 its grid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index df1745f..53505f9 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -290,11 +290,7 @@ class Ellipsoid(AEllipsoid):
         else:
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
 
-        if return_grid:
-            dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-        else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-            f_mat = None
+        dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, True)
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
         cen_mat = np.tile(cen_vec.T, (dir_mat.shape[0], 1))
-- 
2.43.0


From e38000e8f91b593d4ccbba4fac7a03fc559f9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 14/77] fix: boundaries scaled by a floating-point factor

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 53505f9..5d89a0b 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -308,7 +308,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -363,7 +363,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.ndim(factor_vec) == 0:
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From 8453dca3998443fab74a3cbe8ca584602d596f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 15/77] fix: absolute tolerance used for the support function
 of several ellipsoids

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 5d89a0b..b6a832c 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -590,7 +590,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
-- 
2.43.0


From 969b39bc69240e6703d2d3840938b37636ec974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 16/77] fix: support function for a single direction respects
 the absolute tolerance

---
 products/ellipy/gras/geom/ell/ell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..27978fb 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,7 +104,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
         if np.any(np.isnan(bp_mat)):
-- 
2.43.0


From 861173189baeeb4d3cf488e1c99f9ffb17b56d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 17/77] fix: support points are finite for directions without
 extent

---
 products/ellipy/gras/geom/ell/ell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 27978fb..8e88410 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -107,7 +107,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
-        if np.any(np.isnan(bp_mat)):
+        if not np.all(np.isfinite(bp_mat)):
             bp_mat[:] = 0.
         bp_mat = bp_mat + ell_center_vec
     else:
@@ -115,7 +115,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
                                    axis=1), abs_tol).T
         sup_arr = ell_center_vec.T @ dirs_mat + temp_mat
         bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))
-        is_nan_bp_mat = np.isnan(bp_mat)
+        is_nan_bp_mat = ~np.isfinite(bp_mat)
         is_nan_vec = np.any(is_nan_bp_mat, 0)
         if np.any(is_nan_vec):
             bp_mat[:, is_nan_vec] = 0.
-- 
2.43.0


From c2367648f1b6d8297fde1c44ca92369d6079f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 18/77] fix: support function of a list of ellipsoids for as
 many directions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index b6a832c..690baec 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -608,7 +608,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                n_ell == np.max(ell_size_vec) and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From 0f163a8b99633fe84f418a1f9e314a5b6cb198e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 19/77] fix: membership of points for single objects, lists and
 arrays of any shape

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 690baec..cb6da6c 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -444,6 +444,7 @@ class Ellipsoid(AEllipsoid):
         cls._check_is_me(ell_arr, 'first')
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
+        ell_arr = np.reshape(np.array(ell_arr), (-1, 1))
         if ell_arr.size == 0:
             throw_error('wrongInput:emptyArray', 'Each array must be not empty.')
         if np.any(cls.is_empty(np.ravel(ell_arr))):
-- 
2.43.0


From 8556eaf9d51f0167bb40976c49ba972da4b7d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 20/77] fix: regularization of shape matrices symmetric up to
 rounding

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index cb6da6c..4daba5d 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -124,7 +124,7 @@ class Ellipsoid(AEllipsoid):
     @staticmethod
     def _regularize(q_mat: np.ndarray, reg_tol: float) -> np.ndarray:
         from ellipy.gras.la.la import reg_pos_def_mat
-        return reg_pos_def_mat(q_mat, reg_tol)
+        return reg_pos_def_mat(0.5 * (q_mat + q_mat.T), reg_tol)
 
     @staticmethod
     def _rm_bad_directions(q1_mat: np.ndarray, q2_mat: np.ndarray, dirs_mat: np.ndarray, abs_tol: float) -> np.ndarray:
-- 
2.43.0


From 5deb592ebddde36f58218d2f74a1e47438c99003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 21/77] fix: regularization of symmetric matrices with repeated
 eigenvalues

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..815569f 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -214,7 +214,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, 'U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From 3b4a344c58fd38ac6f91ded192ae6087f526bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 22/77] fix: simultaneous diagonalization accepts matrices
 symmetric within the tolerance

---
 products/ellipy/elltool/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..9b5a758 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -14,7 +14,7 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
         throw_error('wrongInput', 'both arguments must be numeric matrices')
     if not is_mat_pos_def(a_mat, abs_tol):
         throw_error('wrongInput:a_mat', 'first argument must be a symmetric positive definite matrix')
-    if not is_mat_symm(b_mat):
+    if not is_mat_symm(b_mat, abs_tol):
         throw_error('wrongInput:b_mat', 'second argument must be a symmetric matrix')
     if a_mat.shape[0] != b_mat.shape[0]:
         throw_error('wrongInput', 'both matrices must be of the same dimension')
-- 
2.43.0


From b431b30c3e8f16c57406081514dcffed95d95977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 23/77] fix: containment in a degenerate ellipsoid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 4daba5d..f35dc68 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -394,6 +394,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongInput', 'both arguments must be single ellipsoids of the same dimension.')
         if n_rank_vec[0] < n_rank_vec[1]:
             return False
+        _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
         first_shape_mat = self.get_shape_mat()
         sec_shape_mat = sec_ell.get_shape_mat()
         if self.is_degenerate([self]).flatten()[0]:
@@ -402,7 +403,8 @@ class Ellipsoid(AEllipsoid):
                 logger.info('IS_BIGGER: Warning! First ellipsoid is degenerate.')
                 logger.info('           Regularizing...')
             first_shape_mat = self._regularize(first_shape_mat, self._abs_tol)
-        _, abs_tol = self.get_abs_tol([self, sec_ell], lambda z: np.min(z))
+            # the regularized matrix should be recognized as positive definite
+            abs_tol = 0.5 * abs_tol
         t_mat = ell_sim_diag(first_shape_mat, sec_shape_mat, abs_tol)
         return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)
 
-- 
2.43.0


From 171d5513d39252049e30bd49f24b96afc37d37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 24/77] fix: volumes of arrays with degenerate ellipsoids

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index deabf4e..7dd42e4 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -138,7 +138,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
 
         def f_single_volume(ell_obj) -> np.ndarray:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return 0.0
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From b36d64c60182db1b229e4ab74dce5a6b0525c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 25/77] fix: internal approximation of a sum with the first
 ellipsoid degenerate

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index f35dc68..27eccb9 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -565,7 +565,10 @@ class Ellipsoid(AEllipsoid):
             cent_vec = np.sum(np.array([ell.get_center_vec() for ell in ell_arr]), 0)
             abs_tol_arr = cls.get_abs_tol(ell_arr, f_prop_fun=None).flatten()
 
-            src_mat = sqrtm_pos(ell_arr[0].get_shape_mat(), np.min(abs_tol_arr)) @ dir_mat
+            src_sh_mat = ell_arr[0].get_shape_mat()
+            if ell_arr[0].is_degenerate([ell_arr[0]]).flat[0]:
+                src_sh_mat = cls._regularize(src_sh_mat, abs_tol_arr[0])
+            src_mat = sqrtm_pos(src_sh_mat, np.min(abs_tol_arr)) @ dir_mat
             sqrt_sh_arr, rot_arr = zip(*[f_rot_arr(i) for i in np.arange(0, n_ell)])
             sqrt_sh_arr = np.array(sqrt_sh_arr)
             rot_arr = np.array(rot_arr)
-- 
2.43.0


From b4a89c9719499d70bb7bdc359de3f7694ef5e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 26/77] fix: orthogonal translation by QR of collinear vectors

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 815569f..5903c01 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -197,7 +197,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.0))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From b1e155c8745dfdd5d3c82724b9fc4bc210e06b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 27/77] fix: one-dimensional orthogonal translation of maximal
 trace

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 5903c01..7eee029 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -152,7 +152,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return np.reshape(np.sign(src_vec * dst_vec), (1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From 78dcd3b7af034b3144020ea48903753ecf886082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 28/77] fix: orthogonal translation of nearly opposite vectors
 is orthogonal

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 7eee029..e612513 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -93,7 +93,7 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     src_vec = src_vec / np.sqrt(src_squared_norm)
 
     scal_prod = np.sum(src_vec * dst_vec)
-    s_val = np.sqrt(np.maximum(1.0 - scal_prod * scal_prod, 0.0))
+    s_val = np.linalg.norm(src_vec - scal_prod * dst_vec)
     q_mat = np.zeros((n_dims, 2), dtype=np.float64)
     q_mat[:, 0] = np.squeeze(dst_vec)
     if np.abs(s_val) > __ABS_TOL:
-- 
2.43.0


From 43bde4f9bb73096d69ad164f3c584afcb64ab1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 29/77] fix: eigenvalue-based products of symmetric matrices
 with general eigenvectors

---
 products/ellipy/gras/gen/gen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..4c0d68a 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -455,7 +455,7 @@ class SymmetricMatVector(SquareMatVector):
             ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
-        out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
+        out_array = SquareMatVector.lr_multiply(s_array, ua_array, 'R')
         return out_array
 
     @staticmethod
@@ -506,6 +506,7 @@ class SymmetricMatVector(SquareMatVector):
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-            eig_vec, s_array[:, :, t] = la.eigh(sym_arr[:, :, t])
+            eig_vec, v_mat = la.eigh(sym_arr[:, :, t])
+            s_array[:, :, t] = v_mat.T
             u_array[:, :, t] = np.diag(eig_vec)
         return s_array, u_array
-- 
2.43.0


From 444fa97bc944774894fc3a5cdbfa6f16fd7669b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 30/77] fix: quadratic forms do not reshape the vector passed
 by the caller

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 4c0d68a..caa8a16 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -414,7 +414,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -429,7 +429,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From 8d27cd00c74a19b2c83cd22b018e906779318f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 31/77] fix: roots of matrix arrays with undefined or
 one-by-one pages

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index caa8a16..944a6b9 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -326,7 +326,8 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                else:
+                    sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
-- 
2.43.0


From 58836255a0babdb30cd507f81e5da42a08c3bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 32/77] fix: products of matrix arrays with scalar or
 single-page factors

---
 products/ellipy/gras/gen/gen.py | 49 +++++++++++++++------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 944a6b9..da15c81 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -231,6 +231,8 @@ class MatVector:
             inp_shape = inp_arr.shape
             if inp_arr.ndim < 3:
                 int_arr = np.tile(np.expand_dims(int_arr, 2), (1, 1, n_time_points))
+            elif inp_shape[2] == 1:
+                int_arr = np.tile(int_arr, (1, 1, n_time_points))
             n_rows = inp_shape[0]
             n_cols = inp_shape[1]
             i_mat = np.tile(np.arange(n_rows * n_time_points), (n_cols, 1))
@@ -242,6 +244,16 @@ class MatVector:
             return sp.csc_matrix((int_arr.T.flatten(), (i_ind, j_ind)),
                                  shape=(n_rows * n_time_points, n_cols * n_time_points))
 
+        def get_page(inp_arr: np.ndarray, i_page: int) -> np.ndarray:
+            if inp_arr.ndim < 3:
+                return inp_arr
+            return inp_arr[:, :, i_page if inp_arr.shape[2] > 1 else 0]
+
+        def multiply(left_mat: np.ndarray, right_mat: np.ndarray) -> np.ndarray:
+            if left_mat.size == 1 or right_mat.size == 1:
+                return left_mat * right_mat
+            return left_mat @ right_mat
+
         use_sparse = use_sparse_matrix
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
@@ -254,16 +266,15 @@ class MatVector:
             b_shape += (1,)
         if c_arr is None:
             is_binary = True
-            n_c_rows = None
             n_c_cols = None
+            is_c_scalar = False
         else:
-            c_shape = c_arr.shape
-            n_c_rows = c_shape[0]
-            n_c_cols = c_shape[1]
+            n_c_cols = c_arr.shape[1]
+            is_c_scalar = (n_c_cols == 1) and (c_arr.shape[0] == 1)
             is_binary = False
         is_a_scalar = (n_a_cols == 1) and (n_a_rows == 1)
         is_b_scalar = (n_b_cols == 1) and (n_b_rows == 1)
-        if is_a_scalar or is_b_scalar:
+        if is_a_scalar or is_b_scalar or is_c_scalar:
             use_sparse = False
         if use_sparse:
             a_mat = np.reshape(a_arr, (n_a_rows, n_a_cols * n_time_points), order='F')
@@ -275,30 +286,14 @@ class MatVector:
                 res_mat = np.reshape(res_mat, (n_a_rows, n_c_cols, n_time_points), order='F')
         else:
             if is_binary:
-                if is_a_scalar:
-                    res_mat = np.zeros((n_b_rows, n_b_cols, n_time_points), dtype=np.float64)
-                elif is_b_scalar:
-                    res_mat = np.zeros((n_a_rows, n_a_cols, n_time_points), dtype=np.float64)
-                else:
-                    res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
-                if b_shape[2] == n_time_points:
-                    for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
-                elif b_shape[2] == 1:
-                    for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
-                else:
+                if b_shape[2] not in (1, n_time_points):
                     throw_error('wrongInput', 'Incorrect size of b_arr')
+                res_mat = np.stack([multiply(get_page(a_arr, i_time_point), get_page(b_arr, i_time_point))
+                                    for i_time_point in range(n_time_points)], axis=2)
             else:
-                if is_a_scalar and is_b_scalar:
-                    res_mat = np.zeros((n_c_rows, n_c_cols, n_time_points), dtype=np.float64)
-                elif is_a_scalar:
-                    res_mat = np.zeros((n_b_rows, n_c_cols, n_time_points), dtype=np.float64)
-                else:
-                    res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
-                for i_time_point in range(n_time_points):
-                    res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ \
-                                                  b_arr[:, :, i_time_point] @ c_arr[:, :, i_time_point]
+                res_mat = np.stack([multiply(multiply(get_page(a_arr, i_time_point), get_page(b_arr, i_time_point)),
+                                             get_page(c_arr, i_time_point))
+                                    for i_time_point in range(n_time_points)], axis=2)
         return res_mat
 
 
-- 
2.43.0


From 906fa64a17287b88c75d95c2a5aa503de1828f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 33/77] fix: comparison of dictionaries with boolean values

---
 products/ellipy/gen/dict/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..4315034 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -84,7 +84,7 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     if x_shape_vec != y_shape_vec:
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
-                    if x_dtype in 'ui':
+                    if x_dtype in 'uib':
                         x_arr = np.array(x_arr, dtype=np.float)
                         y_arr = np.array(y_arr, dtype=np.float)
                     if x_dtype == 'fc':
-- 
2.43.0


From a9e2e17dd4a1600f063f3ff7ade251da373c9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 34/77] fix: dictionaries with lists or arrays of different
 lengths are different

---
 products/ellipy/gen/dict/dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 4315034..ac74864 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -115,6 +115,9 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                             return False, comp_report_str
                     else:
                         n_comp_elems = len(x)
+                        if n_comp_elems != len(y):
+                            comp_report_str = 'Different sizes (left: {}, right: {})'.format(n_comp_elems, len(y))
+                            return False, comp_report_str
                         if n_comp_elems == 0:
                             return True, ''
                         is_comp_eq = True
-- 
2.43.0


From e9b6e37d13bd5cbc48eed75a897f2ac3e1cbfa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 35/77] fix: variable names are substituted literally

---
 products/ellipy/gras/sym/sym.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/sym/sym.py b/products/ellipy/gras/sym/sym.py
index 57fdc46..8ab137b 100644
--- a/products/ellipy/gras/sym/sym.py
+++ b/products/ellipy/gras/sym/sym.py
@@ -43,5 +43,8 @@ def var_replace(m_mat: np.ndarray, from_var_name: str, to_var_name: str) -> np.n
     def _replace(elem, to_replace, value):
         return elem.replace(to_replace, value)
     m_mat = np.vectorize(_replace)(m_mat, ' ', '')
-    m_mat = np.vectorize(re.sub)(r'\b' + from_var_name + r'\b', to_var_name, m_mat)
+
+    def _substitute(elem):
+        return re.sub(r'\b' + re.escape(from_var_name) + r'\b', lambda _: to_var_name, elem)
+    m_mat = np.vectorize(_substitute)(m_mat)
     return m_mat
-- 
2.43.0


From 13980e3d55af1ce35504a9530b973e6f1c2ee8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 36/77] fix: each message is logged once however often the
 logger is obtained

---
 products/ellipy/gen/logging/logging.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gen/logging/logging.py b/products/ellipy/gen/logging/logging.py
index 04f00b0..f74d952 100644
--- a/products/ellipy/gen/logging/logging.py
+++ b/products/ellipy/gen/logging/logging.py
@@ -5,10 +5,11 @@ from ellipy.gen.common.common import get_caller_name
 def get_logger():
     caller_name = get_caller_name(2, 'full')
     logger = logging.getLogger(caller_name)
-    handler = logging.StreamHandler()
-    formatter = logging.Formatter(
-        '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
-    handler.setFormatter(formatter)
-    logger.addHandler(handler)
+    if not logger.handlers:
+        handler = logging.StreamHandler()
+        formatter = logging.Formatter(
+            '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
+        handler.setFormatter(formatter)
+        logger.addHandler(handler)
     logger.setLevel(logging.DEBUG)
     return logger
-- 
2.43.0


From 58246af9222f2e64d38a2b546c26f666a95bb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 37/77] fix: comparison of empty arrays of dictionaries

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index ac74864..f7d38ec 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -46,6 +46,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
         is_eq = np.array(False)
         report_str = 'sizes are different'
         return is_eq, report_str
+    if dict_x_arr.size == 0:
+        return np.ones(dict_x_arr.shape, dtype=bool), ''
 
     def dict_compare_1d_list(dict_x_list: List[dict], dict_y_list: List[dict],
                              inp_abs_tol: float, inp_rel_tol: float) -> Tuple[List[bool], List[str]]:
-- 
2.43.0


From 5c45d5692c7ebe283ad3be30c0a8700bc90bc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 38/77] fix: face lookup for indices of different integer types

---
 products/ellipy/gras/geom/tri/tri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..ef475de 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -331,7 +331,7 @@ def is_face(f_mat: np.ndarray, f_to_check_mat: np.ndarray) -> np.ndarray:
             arr = np.ascontiguousarray(arr)
             return arr.view(np.dtype((np.void, arr.dtype.itemsize * arr.shape[-1])))
 
-        inp_check_e_mat = np.sort(inp_check_e_mat, axis=1)
+        inp_check_e_mat = np.array(np.sort(inp_check_e_mat, axis=1), dtype=inp_e_mat.dtype)
         void_e_mat, void_check_e_mat = map(as_void, (inp_e_mat, inp_check_e_mat))
         is_edge_vec, ind_edge_vec = is_member(void_check_e_mat, void_e_mat)
         out_f_num_list = list()
-- 
2.43.0


From f00c170af31cdd7f568226c2634d9d2d844678db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 39/77] fix: expressions mixing constants and time at a single
 time point

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index da15c81..f268714 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -186,24 +186,16 @@ class MatVector:
         elif exp_str[-2] != "]":
             exp_str = exp_str + "]"
         t = MatVector.__to_array(t_vec)
-        if len(t) == 1:
-            ret_val = np.array(eval(exp_str))
-            if ret_val.ndim < 2:
-                ret_val = np.expand_dims(ret_val, 1)
-            if ret_val.ndim < 3:
-                ret_val = np.expand_dims(ret_val, 2)
-            return ret_val
-        else:
-            time_len = len(t)
-            ret_val = eval(exp_str)
-            ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
-                        for j in i]
-                       for i in ret_val]
-            ret_val = np.array(ret_val)
-            ret_shape = ret_val.shape
-            if len(ret_shape) < 3:
-                ret_val = np.expand_dims(ret_val, 0)
-            return ret_val
+        time_len = len(t)
+        ret_val = eval(exp_str)
+        ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
+                    for j in i]
+                   for i in ret_val]
+        ret_val = np.array(ret_val)
+        ret_shape = ret_val.shape
+        if len(ret_shape) < 3:
+            ret_val = np.expand_dims(ret_val, 0)
+        return ret_val
 
     @staticmethod
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
-- 
2.43.0


From 32662e7b8f1a3700c9fa7ae6d5a4f5e958e580f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 40/77] fix: pseudo-inverse of a single matrix

---
 products/ellipy/gras/gen/gen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index f268714..0073e87 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -93,6 +93,7 @@ class MatVector:
         arr_size = data_arr.shape
         if data_arr.ndim == 2:
             arr_size = (arr_size[0], arr_size[1], 1)
+            data_arr = np.expand_dims(data_arr, 2)
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
             inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
-- 
2.43.0


From 725405e378a91a31f002be3514080ce27382d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 41/77] fix: function values are not truncated to integers

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 0073e87..a17a184 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -162,7 +162,7 @@ class MatVector:
                 res_array.append(f(data_arr[:, :, i]))
         else:
             if keep_size:
-                res_array = np.copy(data_arr)
+                res_array = np.zeros(data_arr.shape, dtype=np.float64)
                 for i in range(data_size):
                     res_array[:, :, i] = f(data_arr[:, :, i])
             else:
-- 
2.43.0


From f0284931bdc4dcd57fd00ee3a706e806c6993854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 42/77] fix: inverse quadratic form of a single symmetric page

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index a17a184..f0b0470 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -478,7 +478,7 @@ class SymmetricMatVector(SquareMatVector):
         n_mat_elems = np.shape(inp_b_arr)
         n_mat_elems = n_mat_elems[2]
         if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
             out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
         else:
             out_vec = np.zeros(n_elems, dtype=np.float64)
-- 
2.43.0


From 4e0a43ebed6fff896a55b20937f875a7632c0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 43/77] fix: regularization of singular values of rectangular
 matrices

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index e612513..4638e36 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -259,7 +259,7 @@ def reg_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     if not(np.isscalar(reg_tol) and is_numeric(reg_tol) and reg_tol > 0.):
             throw_error('wrongInput:reg_tol', 'reg_tol must be a positive numeric scalar')
     reg_tol = try_treat_as_real(reg_tol)
-    u_mat, s_vec, v_mat = np.linalg.svd(inp_mat)
+    u_mat, s_vec, v_mat = np.linalg.svd(inp_mat, full_matrices=False)
     s_mat = np.diag(np.maximum(s_vec, reg_tol))
     res_mat = u_mat @ s_mat @ v_mat
     return res_mat
-- 
2.43.0


From a4e4ce8494f815aeb7e7fceb1b4d73ae8338fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 44/77] fix: one-dimensional orthogonal translation of maximal
 direction

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 4638e36..9ace9f0 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -144,7 +144,7 @@ def orth_transl_max_dir(src_vec: np.ndarray, dst_vec: np.ndarray,
             o1_dst_mat[:, 0] = -o1_dst_mat[:, 0]
         o_mat = u_0_mat @ o1_dst_mat @ o1_src_mat.T @ v_0_mat.T + (b_vec.reshape(-1, 1)) * a_vec
     else:
-        o_mat = np.sign(src_vec) * np.sign(dst_vec)
+        o_mat = np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     return o_mat
 
 
-- 
2.43.0


From 81db9cdb2895fff4c545863613762803f8a781ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 45/77] fix: alignment of one-dimensional vectors

---
 products/ellipy/elltool/core/core.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 9b5a758..ddd31de 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -49,15 +49,8 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if x.size != max(x.shape):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
-    if v.ndim == 0:
-        v = np.expand_dims(v, axis=0)
-    else:
-        v = np.squeeze(v)
-
-    if x.ndim == 0:
-        x = np.expand_dims(x, axis=0)
-    else:
-        x = np.squeeze(x)
+    v = v.flatten()
+    x = x.flatten()
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From 80fbb8424702784353e9777b331adcb944b06159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 46/77] fix: symmetrization of a single matrix

---
 products/ellipy/gras/gen/gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index f0b0470..8894eef 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,6 +85,8 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
+        if data_arr.ndim == 2:
+            data_arr = np.expand_dims(data_arr, 2)
         ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
         return ret_arr
 
-- 
2.43.0


From 7f873bb296e6eab5576f74a49cf36648cde894e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 47/77] fix: refinement of a single face given as a matrix

---
 products/ellipy/gras/geom/tri/tri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index ef475de..d8cee5a 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -116,6 +116,9 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
 
     # Build Face to Edges map and edge orientation map for each face
     e_mat, f2e_mat, f2e_is_dir_mat = map_face_2_edge(f_mat)
+    if f_mat.ndim > 1:
+        f2e_mat = f2e_mat.reshape((-1, 3))
+        f2e_is_dir_mat = f2e_is_dir_mat.reshape((-1, 3))
 
     n_verts = np.size(v_mat, 0)
     n_edges = np.size(e_mat, 0)
@@ -141,7 +144,7 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         is_e2orig_part_vec = e_length_vec > max_edge_len
         if np.any(is_e2orig_part_vec) and (i_step <= n_max_steps):
             # Find faces that need to be shortened
-            if n_faces > 1:
+            if f2e_mat.ndim > 1:
                 is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
             else:
                 # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
-- 
2.43.0


From d0b2be44b4364ee24303430e2b98ec34d49f3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 48/77] fix: face-to-edge map of faces at partitioned but kept
 edges

---
 products/ellipy/gras/geom/tri/tri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index d8cee5a..987fce8 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -268,8 +268,9 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
 
-            f2e3_new_mat = np.column_stack((ind_12f2e3_vec, ind_23f2e3_vec, ind_e_broken_but_kept_vec))
+            f2e3_new_mat = np.column_stack((ind_12f2e3_vec, ind_e_broken_but_kept_vec, ind_23f2e3_vec))
             f2e3_is_dir_new_mat = np.ones(shape=np.shape(f2e3_new_mat), dtype=bool)
+            f2e3_is_dir_new_mat[:, 0] = False
 
             # Optionally adjust vertices
             if is_adjust_func_spec:
-- 
2.43.0


From b30d2fd8c933e4bdb3b0eb73a1225c2dc55e9bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 49/77] fix: planar geometric difference does not depend on
 order of hull faces

---
 products/ellipy/gras/geom/sup/sup.py | 42 +++++-----------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..4cc1425 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -29,6 +29,8 @@ def sup_2_boundary_3(dir_mat: np.ndarray, sup_vec: np.ndarray, face_mat: np.ndar
 
 
 def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
+    __REL_TOL = 1e-10
+
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
                     'l_mat must be a matrix')
@@ -59,7 +61,6 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         throw_error('wrongInput:rho1_vec,l_mat',
                     'The number of columns of l_mat must equal the length of rho1_vec')
 
-    n_dirs = l_mat.shape[1]
     n_dims = l_mat.shape[0]
 
     if n_dims != 2:
@@ -72,41 +73,12 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
                     'Geometric difference is expected to have a non-empty interior')
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
+    # The hull includes the origin, faces passing through it are never hit by rays along the directions
     # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
-
-    ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
-    is_neg_vec = ind_face_length_vec < -1
-    ind_face_length_vec[is_neg_vec] = n_dirs + ind_face_length_vec[is_neg_vec]
-    ind_face_vec = np.nonzero(ind_face_length_vec > 1)[0]
-    n_faces = len(ind_face_vec)
-    s_norm_vec = np.ones(n_dirs, dtype=np.float64)
-
-    for i_face in range(n_faces):
-        ind_face = ind_face_vec[i_face]
-        ind_left = ind_mat[ind_face, 0]
-        ind_right = ind_mat[ind_face, 1]
-
-        b_vec = np.expand_dims(s_mat[:, ind_left], axis=0).T
-        a_first_vec = b_vec - np.expand_dims(s_mat[:, ind_right], axis=0).T
-
-        n_change_dirs = ind_face_length_vec[ind_face] - 1
-        ind_dir = ind_left
-
-        for i_dir in range(0, n_change_dirs):
-            ind_dir = ind_dir + 1
-
-            if ind_dir > n_dirs:
-                ind_dir = 0
-
-            a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-            x_vec = np.linalg.lstsq(a_mat, b_vec, -1)[0]
-            s_val = x_vec[1]
-
-            if s_val < 0:
-                throw_error('wrongState:s_val', 's_val cannot be negative')
-
-            s_norm_vec[ind_dir] = s_val
+    eq_mat = ConvexHull(np.vstack((s_mat.T, np.zeros((1, n_dims))))).equations
+    dist_vec = -eq_mat[:, -1]
+    is_kept_vec = dist_vec > __REL_TOL * np.max(np.abs(s_mat))
+    s_norm_vec = 1. / np.max(eq_mat[is_kept_vec, :-1] @ s_mat / dist_vec[is_kept_vec].reshape((-1, 1)), axis=0)
 
     rho_diff_vec = rho_diff_vec / s_norm_vec
 
-- 
2.43.0


From 29e6370b25ee600e382356b3800ea5d776992c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 50/77] fix: spatial geometric difference for sets of any scale

---
 products/ellipy/gras/geom/sup/sup.py | 32 +++++++---------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 4cc1425..9787c33 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -86,7 +86,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
 
 def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
-    __ABS_TOL = 1e-5
+    __REL_TOL = 1e-10
 
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
@@ -129,29 +129,13 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
                     'Geometric difference is expected to have a non-empty interior')
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
+    # The hull includes the origin, faces passing through it are never hit by rays along the directions
     # noinspection PyUnresolvedReferences
-    f_s_mat = ConvexHull(s_mat.T).simplices
-    dist_vec = np.zeros(l_mat.shape[1])
-
-    for i_dist in range(l_mat.shape[1]):
-        for j_tri in range(f_s_mat.shape[0]):
-            tri_mat = s_mat[:, f_s_mat[j_tri, :]]
-            x1_vec = tri_mat[:, 1] - tri_mat[:, 0]
-            x2_vec = tri_mat[:, 2] - tri_mat[:, 0]
-            norm1_vec = np.cross(s_mat[:, i_dist], x2_vec)
-            det_temp = np.dot(x1_vec, norm1_vec)
-            if np.abs(det_temp) > __ABS_TOL:
-                inv_det = 1 / det_temp
-                s_point = -tri_mat[:, 0]
-                u_dist = inv_det * np.dot(s_point, norm1_vec)
-                if u_dist >= -__ABS_TOL:
-                    norm2_vec = np.cross(s_point, x1_vec)
-                    v_dist = inv_det * np.dot(s_mat[:, i_dist], norm2_vec)
-                    if v_dist >= -__ABS_TOL and u_dist + v_dist <= 1 + __ABS_TOL:
-                        t_dist = inv_det * np.dot(x2_vec, norm2_vec)
-                        if t_dist > 0:
-                            dist_vec[i_dist] = t_dist
-
-    rho_diff_vec = rho_diff_vec / dist_vec
+    eq_mat = ConvexHull(np.vstack((s_mat.T, np.zeros((1, n_dims))))).equations
+    dist_vec = -eq_mat[:, -1]
+    is_kept_vec = dist_vec > __REL_TOL * np.max(np.abs(s_mat))
+    s_norm_vec = 1. / np.max(eq_mat[is_kept_vec, :-1] @ s_mat / dist_vec[is_kept_vec].reshape((-1, 1)), axis=0)
+
+    rho_diff_vec = rho_diff_vec / s_norm_vec
 
     return rho_diff_vec
-- 
2.43.0


From 7dfce500c170e7bad8f2e5dfe47004d0828019af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 51/77] fix: differences of boolean, unsigned and short arrays

---
 products/ellipy/gen/common/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..22158a4 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -125,6 +125,10 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if not callable(f_norm_op):
         throw_error('wrongInput:wrongNormOp', 'f_norm_op must be a function')
 
+    # differences of booleans are not defined, those of unsigned and short integers wrap around
+    left_arr = left_arr.astype(np.result_type(left_arr.dtype, np.int64))
+    right_arr = right_arr.astype(np.result_type(right_arr.dtype, np.int64))
+
     is_equal = np.array_equal(np.isnan(left_arr), np.isnan(right_arr))
     report_str = ''
     if is_equal:
-- 
2.43.0


From 645e62b064967c905173dbdbd722151e9a5fda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 52/77] fix: comparison of complex arrays with non-finite
 elements

---
 products/ellipy/gen/common/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 22158a4..730157a 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -146,8 +146,8 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if is_equal:
         isn_finite_mat = ~np.isfinite(left_arr)
         if np.any(isn_finite_mat.flatten()):
-            left_arr = np.array(left_arr, dtype=np.float64, copy=True)
-            right_arr = np.array(right_arr, dtype=np.float64, copy=True)
+            left_arr = np.array(left_arr, copy=True)
+            right_arr = np.array(right_arr, copy=True)
             left_arr[isn_finite_mat] = 0.
             right_arr[isn_finite_mat] = 0.
 
-- 
2.43.0


From 6154a3759f1e760abc4ce3cbd74e5d8adcc52da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 53/77] fix: comparison of dictionaries with lists of arrays of
 different sizes

---
 products/ellipy/gen/dict/dict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index f7d38ec..b74c31f 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -70,15 +70,16 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
             def comp_fun(x, y, comp_abs_tol: float, comp_rel_tol: float) -> Tuple[bool, str]:
                 comp_report_str = ''
 
-                x_dtype = np.asarray(x).dtype.kind
-                y_dtype = np.asarray(y).dtype.kind
                 x_type = type(x)
+                # lists are compared element by element, their elements need not form an array
+                x_dtype = '' if x_type == list else np.asarray(x).dtype.kind
+                y_dtype = '' if type(y) == list else np.asarray(y).dtype.kind
 
                 if x_type != type(y) or x_dtype != y_dtype:
                     comp_report_str = 'Different types'
                     return False, comp_report_str
 
-                if is_numeric(x) and x_type != list:
+                if x_type != list and is_numeric(x):
                     x_arr = np.array(x)
                     y_arr = np.array(y)
                     x_shape_vec = x_arr.shape
-- 
2.43.0


From 94011dd2a0289a5e25f4ae5621a761fa8794d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 54/77] fix: default value of the norm control option is
 accepted by its own check

---
 products/ellipy/elltool/conf/properties/_ParseProp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/_ParseProp.py b/products/ellipy/elltool/conf/properties/_ParseProp.py
index ad8c0b2..f0e8e78 100644
--- a/products/ellipy/elltool/conf/properties/_ParseProp.py
+++ b/products/ellipy/elltool/conf/properties/_ParseProp.py
@@ -15,7 +15,7 @@ class ParsePropMixin:
         lambda x: isinstance(x, float) and x > 0,  # relTol
         lambda x: isinstance(x, float) and x > 0,  # regTol
         lambda x: isinstance(x, str) and x in ['ode45', 'ode23', 'ode113'],  # ODESolverName
-        lambda x: isinstance(x, bool),  # isODENormControl
+        lambda x: isinstance(x, bool) or (isinstance(x, str) and x in ['on', 'off']),  # isODENormControl
         lambda x: isinstance(x, bool),  # isEnabledOdeSolverOptions
         lambda x: isinstance(x, int) or (isinstance(x, float) and x % 1 == 0.),  # nPlot2dPoints
         lambda x: isinstance(x, int) or (isinstance(x, float) and x % 1 == 0.),  # nPlot3dPoints
-- 
2.43.0


From caed41e3d53c95f6072d746e3b58963a07f26fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 55/77] fix: rank of empty ellipsoids is zero instead of an
 error, empty arrays give integer dimensions

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 7dd42e4..76ae351 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -160,14 +160,12 @@ class AEllipsoid(ABasicEllipsoid, ABC):
         ell_list = list(ell_arr.flatten())
         ell_shape_vec = ell_arr.shape
         if return_rank:
-            ndim_list, rank_list = zip(*[
-                (np.size(ell_obj.get_center_vec()), np.linalg.matrix_rank(ell_obj.get_shape_mat()))
-                for ell_obj in ell_list
-            ])
-            return np.reshape(np.array(ndim_list), ell_shape_vec), np.reshape(np.array(rank_list), ell_shape_vec)
+            rank_list = [np.linalg.matrix_rank(ell_obj.get_shape_mat()) if np.size(ell_obj.get_shape_mat()) else 0
+                         for ell_obj in ell_list]
+            return cls.dimension(ell_arr), np.reshape(np.array(rank_list, dtype=int), ell_shape_vec)
         else:
             ndim_list = [np.size(ell_obj.get_center_vec()) for ell_obj in ell_list]
-            return np.reshape(np.array(ndim_list), ell_shape_vec)
+            return np.reshape(np.array(ndim_list, dtype=int), ell_shape_vec)
 
     @classmethod
     def get_shape(cls, ell_arr: Union[Iterable, np.ndarray], mod_mat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 5c4c24e185935260d927c197f583b3f683a0271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 56/77] fix: dict_compare takes the shape of non-numeric arrays
 into account and accepts zero-dimensional ones

---
 products/ellipy/gen/dict/dict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index b74c31f..88d4fe4 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -117,6 +117,12 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                         if not is_comp_eq:
                             return False, comp_report_str
                     else:
+                        if x_type == np.ndarray:
+                            if x.shape != y.shape:
+                                comp_report_str = 'Different sizes (left: {}, right: {})'.format(x.shape, y.shape)
+                                return False, comp_report_str
+                            if x.ndim == 0:
+                                return comp_fun(x.item(), y.item(), comp_abs_tol, comp_rel_tol)
                         n_comp_elems = len(x)
                         if n_comp_elems != len(y):
                             comp_report_str = 'Different sizes (left: {}, right: {})'.format(n_comp_elems, len(y))
-- 
2.43.0


From a2b397c4885f3fa338a44e51e4cc3fb7bb63203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 57/77] fix: numbers with zero imaginary part become real also
 when stored as complex or in a 0-d array

---
 products/ellipy/gras/la/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 9ace9f0..36a6fdb 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -240,10 +240,10 @@ def try_treat_as_real(inp_mat:  Union[bool, int, float, complex, np.ndarray], to
     if not(np.isscalar(tol_val) and is_numeric(tol_val) and tol_val > 0.0):
         throw_error('wrongInput:tol_val', 'tol_val must be a positive numeric scalar')
     if np.all(np.isreal(inp_mat)):
-        return inp_mat
+        return np.real(inp_mat) if np.iscomplexobj(inp_mat) else inp_mat
     else:
         img_inp_mat = inp_mat.imag
-        if np.isscalar(img_inp_mat):
+        if np.ndim(img_inp_mat) == 0:
             norm_value = np.abs(img_inp_mat)
         else:
             norm_value = linalg.norm(img_inp_mat, np.inf)
-- 
2.43.0


From d18713d09701a3eac1d11f06652ca22b9a9ca363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 58/77] fix: a hyperplane made from an empty normal vector is
 empty instead of failing every query

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index e856e44..cf4a252 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -177,7 +177,7 @@ class Hyperplane(ABasicEllipsoid):
             normal_vec = normal_vec.flatten()
             n_sub_dim = normal_vec.size
             if n_sub_dim < 2:
-                if np.abs(normal_vec[0]) <= cur_abs_tol and np.abs(shift) <= cur_abs_tol:
+                if n_sub_dim == 0 or np.abs(normal_vec[0]) <= cur_abs_tol and np.abs(shift) <= cur_abs_tol:
                     n_dim = 0
                 else:
                     n_dim = n_sub_dim
-- 
2.43.0


From b91b4093c9d7bc62fc836f4885231ece8ad5acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 59/77] fix: var_replace keeps the digits of small numbers

---
 products/ellipy/gras/sym/sym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/sym/sym.py b/products/ellipy/gras/sym/sym.py
index 8ab137b..33f5359 100644
--- a/products/ellipy/gras/sym/sym.py
+++ b/products/ellipy/gras/sym/sym.py
@@ -33,7 +33,9 @@ def var_replace(m_mat: np.ndarray, from_var_name: str, to_var_name: str) -> np.n
         __PRECISION = 15
         if not isinstance(elem, str):
             if not isinstance(elem, Integral):
-                elem = np.format_float_positional(elem, precision=__PRECISION, trim='.')
+                # digits after the decimal point may be limited only when the number is not small
+                precision = __PRECISION if np.abs(elem) >= 1. else None
+                elem = np.format_float_positional(elem, precision=precision, trim='.')
             else:
                 elem = str(elem)
         return elem
-- 
2.43.0


From 0fc4b3d668de7f1a3c8aa6596a614532d05af132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 60/77] fix: empty hyperplanes exported to dictionaries can be
 imported again

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index cf4a252..1b32080 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -75,6 +75,9 @@ class Hyperplane(ABasicEllipsoid):
             hyp_dict = hyp_dict.copy()
             normal_vec = hyp_dict['normal_vec']
             shift = hyp_dict['shift']
+            if np.size(normal_vec) == 0 and np.size(shift) == 0:
+                # empty hyperplanes are exported without numbers
+                shift = 0.
             del hyp_dict['normal_vec']
             del hyp_dict['shift']
             return Hyperplane(normal_vec, shift, **hyp_dict)
-- 
2.43.0


From b3860093b50ea959c51ae0543f0294bcb0f4639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 61/77] fix: negated ellipsoid keeps the settings, within which
 its shape matrix is valid

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 27eccb9..a0f4414 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -719,7 +719,11 @@ class Ellipsoid(AEllipsoid):
 
             def f_single_uminus(ell_obj):
                 return ell_obj.__class__(-ell_obj.get_center_vec(),
-                                         ell_obj.get_shape_mat())
+                                         ell_obj.get_shape_mat(),
+                                         abs_tol=ell_obj._abs_tol,
+                                         rel_tol=ell_obj._rel_tol,
+                                         n_plot_2d_points=ell_obj._n_plot_2d_points,
+                                         n_plot_3d_points=ell_obj._n_plot_3d_points)
 
             return np.reshape(np.array(list(map(f_single_uminus, ell_flat_arr))), newshape=size_vec)
 
-- 
2.43.0


From 520f600d5cab0140469b83ea62403541d3d980f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 62/77] fix: negated hyperplane keeps the tolerances, within
 which its points are judged

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1b32080..2c01eb2 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -316,7 +316,9 @@ class Hyperplane(ABasicEllipsoid):
 
             def set_single_prop(hyp_elem):
                 return hyp_elem.__class__(-hyp_elem.parameters()[0],
-                                          -hyp_elem.parameters()[1])
+                                          -hyp_elem.parameters()[1],
+                                          abs_tol=hyp_elem._abs_tol,
+                                          rel_tol=hyp_elem._rel_tol)
 
             return np.reshape(np.array(list(map(set_single_prop, hyp_flat_arr))), newshape=size_vec)
 
-- 
2.43.0


From 3782cbe95563d7a40eb49167d074aa96a60ffaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 63/77] fix: comparison of ellipsoids valid only within a
 tolerance larger than that of their partner

---
 .../elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e15d7e3..e46e940 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -157,16 +157,18 @@ class ABasicEllipsoid(ABC):
             inp_arr = np.hstack((inp_first_arr.flatten(), inp_sec_arr.flatten()))
             _, out_abs_tol = cls.get_abs_tol(inp_arr)
             _, out_rel_tol = cls.get_rel_tol(inp_arr)
-            return out_abs_tol, out_rel_tol
+            # every object is valid within the largest tolerance
+            _, out_max_abs_tol = cls.get_abs_tol(inp_arr, lambda z: np.max(z))
+            return out_abs_tol, out_rel_tol, out_max_abs_tol
 
-        abs_tol, rel_tol = get_tol(ell_first_arr, ell_sec_arr)
+        abs_tol, rel_tol, max_abs_tol = get_tol(ell_first_arr, ell_sec_arr)
 
         ell_first_flat_arr = ell_first_arr.flatten()
         ell_sec_flat_arr = ell_sec_arr.flatten()
         dict_ell1_list, field_nice_names1_dict, _, field_transform_func1_dict = \
-            cls.to_dict(ell_first_flat_arr, is_prop_included, abs_tol)
+            cls.to_dict(ell_first_flat_arr, is_prop_included, max_abs_tol)
         dict_ell2_list, field_nice_names2_dict, _, field_transform_func2_dict = \
-            cls.to_dict(ell_sec_flat_arr, is_prop_included, abs_tol)
+            cls.to_dict(ell_sec_flat_arr, is_prop_included, max_abs_tol)
 
         def form_comp_dict(dict_ell: Dict[str, np.array], field_nice_names_dict: Dict[str, str],
                            field_transform_func_dict: Dict[str, Callable[[np.ndarray], np.ndarray]]) -> \
-- 
2.43.0


From ba0371143504dbed3c5e1e3cabb0e3789288bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 64/77] fix: exported transformation of shape matrices accepts
 each of the exported matrices

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a0f4414..de75736 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -679,7 +679,8 @@ class Ellipsoid(AEllipsoid):
 
         ell_arr = np.array(ell_arr)
         if abs_tol is None:
-            _, abs_tol = cls.get_abs_tol(ell_arr)
+            # every shape matrix is valid within the largest tolerance
+            _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
         ell_dict_arr = np.reshape(np.array(
             [ell_2_dict(ell_obj, is_prop_included) for ell_obj in list(ell_arr.flatten())]), ell_arr.shape)
         field_nice_names_dict = {
-- 
2.43.0


From 05011a4370da13b9727404f9e252d605e6c09b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 65/77] fix: messages of loggers whose names begin with the
 name of another logger are emitted once

---
 products/ellipy/gen/logging/logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/logging/logging.py b/products/ellipy/gen/logging/logging.py
index f74d952..9724827 100644
--- a/products/ellipy/gen/logging/logging.py
+++ b/products/ellipy/gen/logging/logging.py
@@ -10,6 +10,8 @@ def get_logger():
         formatter = logging.Formatter(
             '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
         handler.setFormatter(formatter)
+        # messages of loggers named like parts of this one are emitted by their own handlers
+        handler.addFilter(lambda record: record.name == caller_name)
         logger.addHandler(handler)
     logger.setLevel(logging.DEBUG)
     return logger
-- 
2.43.0


From 713f42eadc90036ed69bf8d01090f051f32e7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 66/77] fix: projections onto bases of short integers do not
 overflow

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index 76ae351..2cc7e47 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -53,6 +53,8 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             n_dims_arr = cls.dimension(ell_arr)
             if not (n_basis <= n_dim and np.all(n_dims_arr.flatten() == n_dim)):
                 throw_error('wrongInput', 'dimensions mismatch or number of basis vectors too large')
+            # products of short integers overflow
+            basis_mat = np.array(basis_mat, dtype=np.float64)
             # check the orthogonality of the columns of basis_mat
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
-- 
2.43.0


From acc1302147e8203cc0b4f61cf9573ac3408be039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 67/77] fix: the fusion criterion of short integers does not
 overflow

---
 products/ellipy/elltool/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index ddd31de..7499178 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -27,6 +27,8 @@ def ell_sim_diag(a_mat: np.ndarray, b_mat: np.ndarray, abs_tol: float) -> np.nda
 
 def ell_fusion_lambda(a: float, q1: np.ndarray, q1_mat: np.ndarray,
                       q2: np.ndarray, q2_mat: np.ndarray, n: int) -> float:
+    # products of short integers overflow
+    q1, q1_mat, q2, q2_mat = [np.array(x, dtype=np.float64) for x in (q1, q1_mat, q2, q2_mat)]
     x_mat = a * q1_mat + (1 - a) * q2_mat
     y_mat = inv(x_mat)
     y_mat = 0.5 * (y_mat + y_mat.T)
-- 
2.43.0


From f6cede6c05e58c1e18b8dfed2a5dd7ded8d614ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 68/77] fix: sorting rows of short and unsigned integers does
 not overflow

---
 products/ellipy/gras/gen/gen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 8894eef..7a15f75 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -23,11 +23,12 @@ def sort_rows_tol(inp_mat: np.ndarray, tol: float) -> Tuple[np.ndarray, np.ndarr
         throw_error('wrongInput:tol', 'tol is expected to be a positive number')
     if not (inp_mat.ndim == 2 and is_numeric(inp_mat)):
         throw_error('wrongInput:inp_mat', 'input is expected to be a numeric matrix')
-    copy_inp_mat = np.copy(inp_mat)
+    # differences of short integers overflow
+    copy_inp_mat = np.array(inp_mat, dtype=np.result_type(inp_mat.dtype, np.float64))
     n_cols = np.size(copy_inp_mat, 1)
     n_rows = np.size(copy_inp_mat, 0)
     if n_rows > 0:
-        res_mat = np.copy(copy_inp_mat)
+        res_mat = np.copy(inp_mat)
 
         for i_col in range(n_cols):
             ind_col_sort_vec = np.argsort(copy_inp_mat[:, i_col])
@@ -42,7 +43,7 @@ def sort_rows_tol(inp_mat: np.ndarray, tol: float) -> Tuple[np.ndarray, np.ndarr
         ind_sort_vec = np.lexsort(np.fliplr(copy_inp_mat).T)
         res_mat = res_mat[ind_sort_vec]
     else:
-        res_mat = copy_inp_mat
+        res_mat = np.copy(inp_mat)
         ind_sort_vec = np.empty((0, ), dtype=np.float64)
 
     ind_rev_sort_vec = np.argsort(ind_sort_vec)
-- 
2.43.0


From c1f160c4b1d97b7bd52deb0f0fa89fa480a18d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 69/77] fix: support functions along directions of short
 integers do not overflow

---
 products/ellipy/gras/geom/ell/ell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 8e88410..fff0c2b 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -99,6 +99,8 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
             abs_tol: float = None, ell_center_vec:  np.ndarray = None) -> Tuple[np.ndarray, np.ndarray]:
     if abs_tol is None:
         abs_tol = Properties.get_abs_tol()
+    # products of short integers overflow
+    dirs_mat = np.array(dirs_mat, dtype=np.float64)
     m = ell_shape_mat.shape[0]
     if ell_center_vec is None:
         ell_center_vec = np.zeros((m, 1))
-- 
2.43.0


From 78c7b6397431e444be71a02e431c417f6cc2b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 70/77] fix: differences of unsigned support values do not wrap
 around

---
 products/ellipy/gras/geom/sup/sup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 9787c33..1c59f0c 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -66,7 +66,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
     if n_dims != 2:
         throw_error('wrongInput:l_mat', 'Only 2-dimensional sets are supported')
 
-    rho_diff_vec = rho1_vec - rho2_vec
+    rho_diff_vec = rho1_vec - np.array(rho2_vec, dtype=np.float64)
 
     if np.any(rho_diff_vec <= 0):
         throw_error('wrongInput:rho_diff_vec',
@@ -122,7 +122,7 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
     if n_dims != 3:
         throw_error('wrongInput:l_mat', 'Only 2-dimensional sets are supported')
 
-    rho_diff_vec = rho1_vec - rho2_vec
+    rho_diff_vec = rho1_vec - np.array(rho2_vec, dtype=np.float64)
 
     if np.any(rho_diff_vec <= 0):
         throw_error('wrongInput:rho_diff_vec',
-- 
2.43.0


From be08204539137f502f28146236937aa1196313e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 71/77] fix: triangulations with vertices of short integers are
 refined and compared without overflow

---
 products/ellipy/gras/geom/tri/tri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 987fce8..396ef2f 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -114,6 +114,9 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
     else:
         is_adjust_func_spec = True
 
+    # differences and squares of short integers overflow
+    v_mat = np.array(v_mat, dtype=np.float64)
+
     # Build Face to Edges map and edge orientation map for each face
     e_mat, f2e_mat, f2e_is_dir_mat = map_face_2_edge(f_mat)
     if f_mat.ndim > 1:
@@ -420,7 +423,7 @@ def is_tri_equal(v1_mat: np.ndarray, f1_mat: np.ndarray,
 
             f1_mat = ind_f1_vec[f1_mat]
             f2_mat = ind_f2_vec[f2_mat]
-            real_tol = np.max(np.max(np.abs(v1_mat - v2_mat)))
+            real_tol = np.max(np.max(np.abs(v1_mat - np.array(v2_mat, dtype=np.float64))))
             is_pos = real_tol <= max_tol
 
             if is_pos:
-- 
2.43.0


From 884cc0b9a706f12ba912389132443d8ccd8a7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 72/77] fix: rotations between vectors of short integers do not
 overflow

---
 products/ellipy/gras/la/la.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 36a6fdb..9b1fb5d 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -79,8 +79,9 @@ def ml_orth_transl(src_mat: np.ndarray, dst_arr: np.ndarray) -> np.ndarray:
 def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     __ABS_TOL = 1e-7
     n_dims = dst_vec.shape[0]
-    src_vec = try_treat_as_real(src_vec)
-    dst_vec = try_treat_as_real(dst_vec)
+    # squares of short integers overflow
+    src_vec = np.array(try_treat_as_real(src_vec), dtype=np.float64)
+    dst_vec = np.array(try_treat_as_real(dst_vec), dtype=np.float64)
     dst_squared_norm = np.sum(dst_vec * dst_vec)
     src_squared_norm = np.sum(src_vec * src_vec)
 
@@ -109,6 +110,9 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 def orth_transl_haus(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 
     __MAX_TOL = 1e-14
+    # squares of short integers overflow
+    src_vec = np.array(src_vec, dtype=np.float64)
+    dst_vec = np.array(dst_vec, dtype=np.float64)
     src_norm_vec = src_vec / np.sqrt(np.sum(src_vec ** 2))
     dst_norm_vec = dst_vec / np.sqrt(np.sum(dst_vec ** 2))
     w_vec = src_norm_vec - dst_norm_vec
@@ -152,7 +156,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.reshape(np.sign(src_vec * dst_vec), (1, 1))
+        return np.reshape(np.sign(src_vec) * np.sign(dst_vec), (1, 1))
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
@@ -173,9 +177,10 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
 def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 
-    src_vec = try_treat_as_real(src_vec)
+    # squares of short integers overflow
+    src_vec = np.array(try_treat_as_real(src_vec), dtype=np.float64)
 
-    dst_vec = try_treat_as_real(dst_vec)
+    dst_vec = np.array(try_treat_as_real(dst_vec), dtype=np.float64)
     dst_squared_norm = np.sum(dst_vec * dst_vec)
 
     src_squared_norm = np.sum(src_vec * src_vec)
-- 
2.43.0


From d9c3187d4382794a6819afabd319953faa107a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 73/77] fix: tolerance comparison tells infinite complex
 numbers apart

---
 products/ellipy/gen/common/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 730157a..b888d90 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -134,8 +134,9 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if is_equal:
         is_equal = np.array_equal(np.isfinite(left_arr), np.isfinite(right_arr))
         if is_equal:
-            is_equal = np.array_equal(left_arr == np.inf, right_arr == np.inf) and \
-                       np.array_equal(left_arr == -np.inf, right_arr == -np.inf)
+            # infinite complex numbers are not equal to plus or minus infinity only
+            is_inf_arr = np.logical_and(np.isinf(left_arr), ~np.isnan(left_arr))
+            is_equal = np.array_equal(left_arr[is_inf_arr], right_arr[is_inf_arr])
             if not is_equal:
                 report_str = 'infinite values do not coincide'
         else:
-- 
2.43.0


From a75059da3b844899eb72be2dbeefce06cf860ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 74/77] fix: large ellipsoids can be projected though rounding
 makes the product asymmetric

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index de75736..3dd8c39 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -211,7 +211,9 @@ class Ellipsoid(AEllipsoid):
         pass
 
     def _projection_single_internal(self, ort_basis_mat: np.ndarray):
-        self._shape_mat = ort_basis_mat.T @ self.get_shape_mat() @ ort_basis_mat
+        shape_mat = ort_basis_mat.T @ self.get_shape_mat() @ ort_basis_mat
+        # the product of large matrices may be symmetric up to rounding only
+        self._shape_mat = 0.5 * (shape_mat + shape_mat.T)
         self._center_vec = ort_basis_mat.T @ self.get_center_vec()
 
     @classmethod
-- 
2.43.0


From abe993e321df806d7a9e0b18b7f143a255990e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:17 +0000
Subject: [PATCH 75/77] fix: relative differences of the largest numbers do not
 overflow

---
 products/ellipy/gen/common/common.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index b888d90..854c2da 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -178,6 +178,13 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
                     temp_arr[is_rel_diff_triggered_arr] = \
                         2. * diff_arr[is_rel_diff_triggered_arr] / \
                         arg_sum_norm_arr[is_rel_diff_triggered_arr]
+                    # sums of the largest magnitudes overflow, those of their quarters do not
+                    is_large_arr = np.logical_and(is_rel_diff_triggered_arr,
+                                                  ~(arg_sum_norm_arr < 0.5 * np.finfo(np.float64).max))
+                    if np.any(is_large_arr):
+                        part_diff_arr = f_norm_op(0.25 * left_arr - 0.25 * right_arr)
+                        part_sum_norm_arr = f_norm_op(0.25 * left_arr) + f_norm_op(0.25 * right_arr)
+                        temp_arr[is_large_arr] = 2. * part_diff_arr[is_large_arr] / part_sum_norm_arr[is_large_arr]
                     rel_diff = np.amax(temp_arr)
                     temp_2_arr[temp_arr == rel_diff] = diff_arr[temp_arr == rel_diff]
                     abs_m_rel_diff = np.amax(temp_2_arr)
-- 
2.43.0


From cc5d32b059a94471c73050946c1816b8552ca535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:58 +0000
Subject: [PATCH 76/77] fix: differences of the largest integers are exact

---
 products/ellipy/gen/common/common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index 854c2da..fdce28b 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -125,9 +125,15 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if not callable(f_norm_op):
         throw_error('wrongInput:wrongNormOp', 'f_norm_op must be a function')
 
-    # differences of booleans are not defined, those of unsigned and short integers wrap around
-    left_arr = left_arr.astype(np.result_type(left_arr.dtype, np.int64))
-    right_arr = right_arr.astype(np.result_type(right_arr.dtype, np.int64))
+    # differences of booleans are not defined, those of unsigned and short integers wrap around,
+    # integers from 2^53 on are no double precision numbers and their differences may wrap around
+    def f_widen(inp_arr: np.ndarray) -> np.ndarray:
+        if inp_arr.dtype.kind in 'ui' and (np.any(inp_arr > 2 ** 53) or np.any(inp_arr < -2 ** 53)):
+            return inp_arr.astype(np.longdouble)
+        return inp_arr.astype(np.result_type(inp_arr.dtype, np.int64))
+
+    left_arr = f_widen(left_arr)
+    right_arr = f_widen(right_arr)
 
     is_equal = np.array_equal(np.isnan(left_arr), np.isnan(right_arr))
     report_str = ''
-- 
2.43.0


From 914a2a522ba82a5b4a046c81ad6a962b6406e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:58 +0000
Subject: [PATCH 77/77] fix: integers from 2^53 on are compared exactly in
 dictionaries

---
 products/ellipy/gen/dict/dict.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 88d4fe4..358cc54 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -87,9 +87,6 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     if x_shape_vec != y_shape_vec:
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
-                    if x_dtype in 'uib':
-                        x_arr = np.array(x_arr, dtype=np.float)
-                        y_arr = np.array(y_arr, dtype=np.float)
                     if x_dtype == 'fc':
                         if not np.array_equal(np.isnan(x_arr), np.isnan(y_arr)):
                             comp_report_str = 'Nans are on the different places'
-- 
2.43.0

