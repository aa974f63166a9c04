From 574f1b1ae5cc641986942b5e79df4d38e4c0424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 01/45] fix: reject Zernike orders with |m| > n in the ZernPol
 constructor

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..b66e9c9 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -117,6 +117,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| should be not more than n")
                                 elif self.__n < 0:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n > 54:
-- 
2.43.0


From 5f44343e935117e99eb4384594a196d9e51139e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 02/45] fix: return the Fringe index as a plain int (numpy
 integers are rejected by the constructor and fringe2osa)

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index b66e9c9..e4a1c36 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -713,7 +713,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return int((1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2)
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From 6882a0c4e20ed95c080e63e19ad5a267d998fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 03/45] fix: gen_polar_coordinates step validation (the chained
 comparisons were never true)

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index e4a1c36..4ed273d 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1016,9 +1016,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if not 0.0 < r_step <= 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From 3617dd9b5c4310daa8b9f5b35150ea04af8806e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 04/45] fix: index2orders returned arbitrary orders for an
 index beyond the search range

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 4ed273d..e44b0b6 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -758,6 +758,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError("Orders (m, n) haven't been found for the specified index")
         return m, n
 
     @staticmethod
-- 
2.43.0


From 83bb98eea5846897c7063cd01e896c12c9073699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 05/45] fix: str() of polynomials without a conventional name
 lacked orders and indices

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index e44b0b6..c28c61d 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -297,7 +297,7 @@ class ZernPol:
         if len(name) > 0:
             return name + pol_signature
         else:
-            return "Zernike polynomial"
+            return "Zernike polynomial" + pol_signature
 
     def __gt__(self, other) -> bool:
         """
-- 
2.43.0


From 8800da2273e658152017ebba92db9486d09536bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 06/45] fix: derivative recurrence for m = 0 used the
 derivative of R(1, n-1) instead of its value

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..e636aa3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From 15532e8b953fe12ae96fbd81ddc57d73cc6c3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/45] fix: radial values of tilts were returned as the very
 input array (aliasing)

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index e636aa3..a909325 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r  # the new object, not the reference to the provided radii
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From 2d9fef78b67d8fae2bc95e34ea57ea3348578aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 08/45] fix: accelerated polynomial value lacked normalization
 and angular factors for |m| = n >= 8

---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..3957009 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
-- 
2.43.0


From fbf22cddc0f0d8b661b78186c9d44d1548e74518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/45] fix: Simpson sums on the pupil angle omitted the last
 even and odd nodes

---
 src/zernpy/calculations/calc_psfs.py       | 16 ++++++++--------
 src/zernpy/calculations/calc_psfs_numba.py |  8 ++++----
 src/zernpy/zernpsf.py                      |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..33f9bbf 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -217,9 +217,9 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
     """
     # Integration on the pupil radius using Simpson equation
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -263,14 +263,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -592,9 +592,9 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 3957009..398ad0a 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -258,9 +258,9 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
 
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -541,10 +541,10 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..b7d8a0f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -694,13 +694,13 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         # Simpson integration rule implementation
-- 
2.43.0


From dd67a3eb03dd686544e479307042393a3ac96d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/45] fix: radial nodes of the trapezoidal rule (plain
 engine) could include p = 1.0 twice due to float rounding

---
 src/zernpy/calculations/calc_psfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 33f9bbf..b3ee082 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -129,7 +129,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -164,7 +164,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -558,7 +558,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From a5500fbd5822605d7c454cbb46a5b97efa9bc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 11/45] fix: radial nodes of the trapezoidal rule (accelerated
 engine) could include p = 1.0 twice due to float rounding

---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 398ad0a..08f219c 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -501,7 +501,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From 0fb5c4691d0add341cc67dc95053234593e96ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 12/45] fix: ZernPSF silently accepted an object that isn't
 ZernPol (missing raise)

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b7d8a0f..a277e43 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
@@ -145,7 +147,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From 4cef0cebe7e702f17fd680347448c9eb9180811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 13/45] fix: NA = 0 is outside the documented range (0.0, 1.7]
 and led to ZeroDivisionError

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index a277e43..80760e9 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -187,7 +187,7 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if NA <= 0.0 or NA > 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
-- 
2.43.0


From 26fcb1eeebcd27a54d5893f3a6284069599e7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 14/45] fix: wave number k was computed from the previously
 stored wavelength

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 80760e9..bbdcd9b 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,7 +192,7 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-- 
2.43.0


From ac98b2f6e72092a7b94839da98dc58b826276795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 15/45] fix: rejected set_physical_props call left the instance
 partially updated

---
 src/zernpy/zernpsf.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index bbdcd9b..46edb52 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,17 +192,14 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
-        self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
-        self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-        self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
+        pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
+        pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
         if pixel_physical_size <= 0.0:
             raise ValueError("Pixel physical size should be positive real number")
-        if pixel_physical_size > self.pixel_size_nyquist:
-            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {self.pixel_size_nyquist_eStr}"
+        if pixel_physical_size > pixel_size_nyquist:
+            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
-        self.pixel_size = pixel_physical_size
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
@@ -213,18 +210,18 @@ class ZernPSF:
                     self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
                     if len(self.__warn_message) > 0:
                         warnings.warn(self.__warn_message); self.__warn_message = ""
-                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
                 else:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
-                max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
+                max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / self.wavelength
+                self.coefficients = coefficients; self.amplitudes = coefficients / wavelength
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
@@ -237,7 +234,11 @@ class ZernPSF:
             self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
             if len(self.__warn_message) > 0:
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
+        # All checks passed - save as the class properties
+        self.NA = NA; self.wavelength = wavelength; self.pixel_size = pixel_physical_size
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
+        self.pixel_size_nyquist = pixel_size_nyquist; self.pixel_size_nyquist_eStr = pixel_size_nyquist_eStr
         # Kernel size estimation (could be changed explicitly in the method 'set_calculation_props'). Redefine it for each call
         if self.zernpol is not None:  # for single polynomial
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-- 
2.43.0


From 5dc29eea0c55dea5e3e5be0adc6e96a279937fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 16/45] fix: rejected set_calculation_props call had already
 stored the new kernel size

---
 src/zernpy/zernpsf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 46edb52..8345640 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -296,6 +296,11 @@ class ZernPSF:
         # Sanity check for kernel size
         if kernel_size < 3:
             raise ValueError("Kernel size should be more than 3")
+        # Sanity checks for n_integration_points_r and n_integration_points_phi
+        if n_integration_points_r < 20:
+            raise ValueError("# of integration points for radius should be not less than 20")
+        if n_integration_points_phi < 36:
+            raise ValueError("# of integration points for angle phi should be not less than 36")
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
@@ -308,11 +313,6 @@ class ZernPSF:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
-        # Sanity checks for n_integration_points_r and n_integration_points_phi
-        if n_integration_points_r < 20:
-            raise ValueError("# of integration points for radius should be not less than 20")
-        if n_integration_points_phi < 36:
-            raise ValueError("# of integration points for angle phi should be not less than 36")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From 92c040df05e985f692d552a05a89e57475e8a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 17/45] fix: odd number of points on the pupil angle isn't
 applicable for the Simpson rule

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 8345640..bf832c0 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -313,6 +313,8 @@ class ZernPSF:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
+        if n_integration_points_phi % 2 != 0:  # the composite Simpson rule requires even number of intervals
+            n_integration_points_phi += 1; print("Note that n_integration_points_phi should be even integer for Simpson integration rule")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From b1a2c424d1dbf5aae264ae1738817127fbe9c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 18/45] fix: suppress_warnings flag changed the kernel size if
 physical properties weren't set

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index bf832c0..bc8873d 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -373,8 +373,10 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
+        if not self.__physical_props_set and self.kernel_size < 3:
+            self.kernel_size = 19  # default size if it hasn't been explicitly specified before
         if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+            self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
-- 
2.43.0


From e58407bc8652444d48e3669ccf14f53924d84c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 19/45] fix: read_json kept the Airy flag and the polynomials
 of the previous configuration

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index bc8873d..f625a9a 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -639,11 +639,11 @@ class ZernPSF:
                     ps = item; read_props += 1
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = (); self.airy = osa_index == 0
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
-                        self.zernpol = ZernPol(osa=osa_indices[0])
+                        self.zernpol = ZernPol(osa=osa_indices[0]); self.polynomials = ()
                         if osa_indices[0] == 0:
                             self.airy = True
                         else:
-- 
2.43.0


From a7791d23cb09f3e4ceff9a7697ae06606a94dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 20/45] fix: read_json replaced the saved kernel size with the
 estimated one

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f625a9a..f85d525 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -654,7 +654,9 @@ class ZernPSF:
                         self.polynomials = pols; self.zernpol = None; self.airy = False
             # Assign read physical properties
             if read_props == 8:
+                read_size = self.kernel_size  # restored below, because it's estimated again in the next method
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.kernel_size = read_size
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 21fa3bbef7d0e14af35e54fc0d8d1469287590a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 21/45] fix: repeated save_json without path used a file path
 as the package folder

---
 src/zernpy/zernpsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f85d525..e837e98 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -574,7 +574,8 @@ class ZernPSF:
 
         """
         if abs_path is None:
-            abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
+            # default folder for storing saved JSON files (root for the package)
+            abs_path = Path(__file__).parent.absolute().joinpath("saved_psfs")
         if not Path.exists(abs_path):
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
-- 
2.43.0


From e080e3631bc94460126f095865347f7b90f68253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 22/45] fix: save_json failed for a path provided as the string

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e837e98..314fb60 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -576,6 +576,8 @@ class ZernPSF:
         if abs_path is None:
             # default folder for storing saved JSON files (root for the package)
             abs_path = Path(__file__).parent.absolute().joinpath("saved_psfs")
+        elif isinstance(abs_path, str):
+            abs_path = Path(abs_path)
         if not Path.exists(abs_path):
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
-- 
2.43.0


From f752d0b1cec66a6fc00fee81069eecc77ddbd01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 23/45] fix: get_kernel_parallel called the kernel size
 estimation without NA

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 314fb60..59723d0 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -740,7 +740,7 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
             self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
-- 
2.43.0


From f8652942748d6c249f04ddc0775c6dad6aed17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 24/45] fix: parallel PSF point without initialized workers
 ignored all inner integration nodes

---
 src/zernpy/zernpsf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 59723d0..415f0c6 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -715,6 +715,11 @@ class ZernPSF:
             self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
+        else:  # workers aren't initialized (or released) - compute sums in the current process
+            even_sum = sum(radial_integral(self.zernpol, r, theta, i*h_phi, self.alpha, self.n_int_r_points)
+                           for i in range(2, self.n_int_phi_points, 2))
+            odd_sum = sum(radial_integral(self.zernpol, r, theta, i*h_phi, self.alpha, self.n_int_r_points)
+                          for i in range(1, self.n_int_phi_points, 2))
         # Simpson integration rule implementation
         yA = radial_integral(self.zernpol, r, theta, 0.0, self.alpha, self.n_int_r_points)
         yB = radial_integral(self.zernpol, r, theta, 2.0*pi, self.alpha, self.n_int_r_points)
-- 
2.43.0


From ea1555390b369cf067fbf1296e4e713c00fbbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 25/45] fix: released workers were still used for computation
 after deinitialize_workers

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 415f0c6..343c315 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -776,7 +776,7 @@ class ZernPSF:
 
         """
         if self.__ParallelCalc is not None:
-            self.__ParallelCalc.close()
+            self.__ParallelCalc.close(); self.__ParallelCalc = None
 
 
 # %% Utility functions
-- 
2.43.0


From 5e553ccddba6f06478d824ac5ef5bc013c28ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 26/45] fix: workers, queues and triggers were shared between
 DispenserManager instances

---
 src/zernpy/utils/intmproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..32f3b80 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -54,6 +54,8 @@ class DispenserManager():
 
         """
         self.verbose_info = verbose_info
+        # Containers below should belong to the instance (not shared between several managers)
+        self.__workers_pool = []; self.__results = []; self.__triggers = []; self.__queues = []; self.__parameters_vector = []
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
         # Checking input parameters - workers
-- 
2.43.0


From 79d71779b0a1646313aed80ceb603d56b078cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 27/45] fix: convolution of the blank image resulted in NaN
 values

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index b3ee082..693feba 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -729,7 +729,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel != 0.0:  # prevent division by zero for the blank image
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 238860f70793c08fffad0f90b04def622d5dd30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 28/45] fix: compute() waited endlessly if the computing
 function raised an exception on a worker

---
 src/zernpy/utils/intmproc.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 32f3b80..b2c47c7 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -143,7 +143,10 @@ class DispenserManager():
                 for proc_i in range(len(self.__workers_pool)):
                     if task_assigned[proc_i] and not self.__triggers[proc_i].is_set():
                         current_param_index = processing_indices[proc_i]
-                        self.__results[current_param_index] = self.__queues[proc_i].get()
+                        job_result = self.__queues[proc_i].get()
+                        if isinstance(job_result, FailedJob):  # the results cannot be completed, release workers and report about it
+                            self.close(); raise RuntimeError(f"Computation failed on a worker: {job_result.reason}")
+                        self.__results[current_param_index] = job_result
                         computed_tasks += 1  # computation has been done
                         task_assigned[proc_i] = False  # next comptutation hasn't been yet assigned, check if still jobs are available
                         if len(indices2process) > 0:
@@ -234,6 +237,14 @@ class DispenserManager():
                 self.__results = [None]*len(params_list); self.__parameters_vector = params_list
 
 
+# %% Report about exception raised by the computing function
+class FailedJob():
+    """Container for sending description of the exception raised on a worker back to the manager."""
+
+    def __init__(self, reason: str):
+        self.reason = reason
+
+
 # %% Individual worker special class
 class IndiWorker(Process):
     """Individual Worker based on Process() class for performing computations using provided function."""
@@ -284,7 +295,10 @@ class IndiWorker(Process):
                     #     time.sleep(0.001); attempts += 1
                     parameter = self.__data_queue.get()
                     # print(f"Start computing for parameter {parameter}", flush=True)
-                    result = self.computation(parameter)  # computation work
+                    try:
+                        result = self.computation(parameter)  # computation work
+                    except Exception as error:  # report to the manager, otherwise it will wait for the result endlessly
+                        result = FailedJob(f"{type(error).__name__}: {error}")
                     self.__data_queue.put_nowait(result)  # returning the result
                     self.__trigger.clear()
                     # print(f"Finished computing for parameter {parameter} and report result {result}", flush=True)
-- 
2.43.0


From 934df778fe180a06f61b4e2ad4d84f32a9aea378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 29/45] fix: get_kernel_parallel returned NaN 3x3 kernel for
 several polynomials

---
 src/zernpy/zernpsf.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 343c315..3b39780 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -27,7 +27,8 @@ except ModuleNotFoundError:
 # %% Local (package-scoped) imports
 if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__mp_main__":
     from calculations.calc_psfs import (get_psf_kernel, lambda_char, radial_integral_s, radial_integral, get_kernel_size,
-                                        convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns)
+                                        convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns,
+                                        get_psf_point_r_pols)
     from zernikepol import ZernPol
     from utils.intmproc import DispenserManager
     if numba_installed:
@@ -36,7 +37,8 @@ if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__m
         methods_compiled = False
 else:
     from .calculations.calc_psfs import (get_psf_kernel, lambda_char, radial_integral_s, radial_integral, get_kernel_size,
-                                         convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns)
+                                         convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns,
+                                         get_psf_point_r_pols)
     from .zernikepol import ZernPol
     from .utils.intmproc import DispenserManager
     if numba_installed:
@@ -702,6 +704,8 @@ class ZernPSF:
             Each point for PSF kernel.
 
         """
+        if self.zernpol is None:  # several polynomials - integration is performed in the current process
+            return get_psf_point_r_pols(self.polynomials, self.amplitudes, r, theta, self.n_int_r_points, self.n_int_phi_points)
         h_phi = 2.0*pi/self.n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
@@ -746,8 +750,6 @@ class ZernPSF:
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
                                                wavelength=self.wavelength, NA=self.NA)
-        if self.zernpol is None:
-            self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
         calculated_points = 0
         for i in range(self.kernel_size):
@@ -757,8 +759,7 @@ class ZernPSF:
                 distance = self.k*self.NA*self.pixel_size*pixel_dist  # conversion from pixel distance into phase multiplier
                 theta = np.arctan2((i - i_center), (j - j_center))  # The PSF also has the angular dependency, not only the radial one
                 theta += np.pi  # shift angles to the range [0, 2pi]
-                if self.zernpol is not None:
-                    self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
+                self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
                 # print(f"Calculated point {[i, j]} from {[self.kernel_size-1, self.kernel_size-1]}")
                 print(f"Calculated point #{calculated_points} from {self.kernel_size*self.kernel_size}, takes ms: ",
                       int(round(1000*(time.perf_counter() - t1), 0)))
-- 
2.43.0


From ec5df4b3b4ebf8764a14bf1c0ff04a726e172878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 30/45] fix: read_json left the instance partially updated if
 the file is incomplete or not valid

---
 src/zernpy/zernpsf.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 3b39780..894e3a2 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -9,6 +9,7 @@ PSF class definition based on Zernike polynomial for computation of its kernel f
 import numpy as np
 from pathlib import Path
 import warnings
+from copy import copy
 import matplotlib.pyplot as plt
 from math import pi
 import time
@@ -621,16 +622,17 @@ class ZernPSF:
         json_data = read_psf(abs_path)  # raw parsed data from a file
         if json_data is not None:
             wavelen: float; na: float; a: float; pols: list; ps: float; read_props = 0
+            loaded = copy(self)  # the instance is updated below only if the file contains complete and valid properties
             for key, item in json_data.items():
                 # Calculation properties + calculated kernel
                 if key == "PSF Kernel":
-                    self.kernel = np.asarray(item); read_props += 1
+                    loaded.kernel = np.asarray(item); read_props += 1
                 elif key == "Kernel Size":
-                    self.kernel_size = item; read_props += 1
+                    loaded.kernel_size = item; read_props += 1
                 elif key == "# of integration points R":
-                    self.n_int_r_points = item; read_props += 1
+                    loaded.n_int_r_points = item; read_props += 1
                 elif key == "# of integration points angle":
-                    self.n_int_phi_points = item; read_props += 1
+                    loaded.n_int_phi_points = item; read_props += 1
                 # Read the physical properties and store them in a list for further setting
                 elif key == "NA":
                     na = item; read_props += 1
@@ -644,24 +646,24 @@ class ZernPSF:
                     ps = item; read_props += 1
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = (); self.airy = osa_index == 0
+                    osa_index = item; loaded.zernpol = ZernPol(osa=osa_index); loaded.polynomials = (); loaded.airy = osa_index == 0
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
-                        self.zernpol = ZernPol(osa=osa_indices[0]); self.polynomials = ()
+                        loaded.zernpol = ZernPol(osa=osa_indices[0]); loaded.polynomials = ()
                         if osa_indices[0] == 0:
-                            self.airy = True
+                            loaded.airy = True
                         else:
-                            self.airy = False
+                            loaded.airy = False
                     else:
                         for index in osa_indices:
                             pols.append(ZernPol(osa=index))
-                        self.polynomials = pols; self.zernpol = None; self.airy = False
+                        loaded.polynomials = pols; loaded.zernpol = None; loaded.airy = False
             # Assign read physical properties
             if read_props == 8:
-                read_size = self.kernel_size  # restored below, because it's estimated again in the next method
-                self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
-                self.kernel_size = read_size
+                read_size = loaded.kernel_size  # restored below, because it's estimated again in the next method
+                loaded.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                loaded.kernel_size = read_size; self.__dict__.update(loaded.__dict__)
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From e589d98d21c83f20bc9fd1314f8d8966f013d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 31/45] fix: saving failed and left a truncated file if a
 parameter is a numpy number (e.g., kernel size as numpy.int64)

---
 src/zernpy/calculations/calc_psfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 693feba..86eb2e0 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -815,7 +815,7 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
         with open(json_file_path, 'w') as json_write_file:
-            json.dump(data4serialization, json_write_file)
+            json.dump(data4serialization, json_write_file, default=lambda numpy_number: numpy_number.item())
     return str(json_file_path.absolute())
 
 
-- 
2.43.0


From 73438210ad610885e0ea084eb83a9a776134d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 32/45] fix: saving failed with 'File name too long' for many
 polynomials

---
 src/zernpy/calculations/calc_psfs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 86eb2e0..749bc8c 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -16,6 +16,7 @@ from math import sqrt, pi, e
 import time
 from scipy.ndimage import convolve
 import json
+from zlib import crc32
 from matplotlib.patches import Circle
 from functools import partial
 from typing import Union
@@ -801,6 +802,8 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
             json_file_path = saved_psfs_folder.joinpath(f"psf_{(m, n)}_{expansion_coefficient}.json")
         else:
             json_file_path = saved_psfs_folder.joinpath(f"psf_{osa_indices}_{expansion_coefficient}.json")
+    if len(json_file_path.name) > 250:  # many polynomials - composed name exceeds the common limit of file systems (255 symbols)
+        full_name = json_file_path.stem; json_file_path = saved_psfs_folder.joinpath(f"{full_name[:200]}_{crc32(full_name.encode()):08x}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
     data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-- 
2.43.0


From 2206108ac21cc90fd7b8fa09e59549c105be1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 33/45] fix: compute() waited endlessly if the computing
 function raised SystemExit on a worker

---
 src/zernpy/utils/intmproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index b2c47c7..6d4b53b 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -297,7 +297,7 @@ class IndiWorker(Process):
                     # print(f"Start computing for parameter {parameter}", flush=True)
                     try:
                         result = self.computation(parameter)  # computation work
-                    except Exception as error:  # report to the manager, otherwise it will wait for the result endlessly
+                    except BaseException as error:  # report to the manager (also SystemExit), otherwise it will wait for the result endlessly
                         result = FailedJob(f"{type(error).__name__}: {error}")
                     self.__data_queue.put_nowait(result)  # returning the result
                     self.__trigger.clear()
-- 
2.43.0


From 882c3606ed63325816db6c3286121ae82c07a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 34/45] fix: PSF coefficients followed later changes of the
 caller's array (amplitudes and kernel did not)

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 894e3a2..b4198be 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -218,7 +218,7 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.array(expansion_coeff)  # conversion to efficient array format (own copy, not the caller's array)
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
-- 
2.43.0


From 5a4d93d405383af00a9c50764447b3416e4fa4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 35/45] fix: PSF object changed its polynomials if the caller
 changed the provided list later

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b4198be..87a6dbc 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -142,7 +142,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = copy(zernpol); self.zernpol = None  # own container, not the one of the caller
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
-- 
2.43.0


From c543798427fca2d7ce7e4f532a3c63fa8031d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 36/45] fix: interrupted compute() left jobs on workers, the
 next computation returned wrong results

---
 src/zernpy/utils/intmproc.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 6d4b53b..b174dde 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -119,6 +119,21 @@ class DispenserManager():
         """
         Perform computation using provided parameters and function / method.
 
+        Returns
+        -------
+        list
+            List with computation results.
+
+        """
+        try:
+            return self.__compute_all()
+        except BaseException:  # e.g., interrupted by a user: not collected results would be mixed with the results of the next computation
+            self.close(); raise
+
+    def __compute_all(self):
+        """
+        Spread parameters between workers and collect results (implementation of the compute() method).
+
         Returns
         -------
         list
-- 
2.43.0


From 1ae25853af6043b9ec7141c2fcc49bf6a160fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 37/45] fix: compute() waited endlessly if a worker was
 terminated during the computation

---
 src/zernpy/utils/intmproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index b174dde..3e6260a 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -170,6 +170,8 @@ class DispenserManager():
                             self.__triggers[proc_i].set(); processing_indices[proc_i] = current_param_index
                             # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
                             time.sleep(0.0001)
+                    elif task_assigned[proc_i] and not self.__workers_pool[proc_i].is_alive():  # ended without the result (e.g., killed by OS)
+                        raise RuntimeError("Computation failed: a worker has been terminated")
                     else:
                         time.sleep(0.0001)
                 # print(f"Remaining indices of parameters to compute: {indices2process}")
-- 
2.43.0


From 87a7cdec4ff5d8b4575417953cec388c6bfd7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 38/45] fix: compute() waited endlessly if a result couldn't be
 pickled

---
 src/zernpy/utils/intmproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 3e6260a..e4ab7a7 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -8,6 +8,7 @@ Experiment with the multiprocessing speeding up of calculations.
 """
 # %% Global imports
 from multiprocessing import Process, Event, Queue
+from multiprocessing.reduction import ForkingPickler
 import os
 import warnings
 import time
@@ -314,6 +315,7 @@ class IndiWorker(Process):
                     # print(f"Start computing for parameter {parameter}", flush=True)
                     try:
                         result = self.computation(parameter)  # computation work
+                        ForkingPickler.dumps(result)  # check that the result can be sent, the queue silently drops not transferable objects
                     except BaseException as error:  # report to the manager (also SystemExit), otherwise it will wait for the result endlessly
                         result = FailedJob(f"{type(error).__name__}: {error}")
                     self.__data_queue.put_nowait(result)  # returning the result
-- 
2.43.0


From 2299e3e329b45a590a12bc804896a65952cd209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:59 +0000
Subject: [PATCH 39/45] fix: compute() waited endlessly if a parameter couldn't
 be pickled

---
 src/zernpy/utils/intmproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index e4ab7a7..918f11c 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -142,6 +142,8 @@ class DispenserManager():
 
         """
         if self.__initialized:
+            for parameter in self.__parameters_vector:
+                ForkingPickler.dumps(parameter)  # raise an error for not transferable parameters, the queue silently drops them
             computed_tasks = 0; init_step = True; indices2process = [i for i in range(len(self.__parameters_vector))]
             processing_indices = [None]*len(self.__workers_pool); task_assigned = [False]*len(self.__workers_pool); self.done_jobs_percentage = 0
             while computed_tasks < len(self.__results):
-- 
2.43.0


From 1e690a8c5cbac1ef7e62855ca302cac7d8a3dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:58 +0000
Subject: [PATCH 40/45] fix: failed or interrupted parallel calculation doesn't
 replace the stored kernel by an incomplete one

---
 src/zernpy/zernpsf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 87a6dbc..681528e 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -752,7 +752,7 @@ class ZernPSF:
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
                                                wavelength=self.wavelength, NA=self.NA)
-        self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
+        kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
         calculated_points = 0
         for i in range(self.kernel_size):
             for j in range(self.kernel_size):
@@ -761,12 +761,13 @@ class ZernPSF:
                 distance = self.k*self.NA*self.pixel_size*pixel_dist  # conversion from pixel distance into phase multiplier
                 theta = np.arctan2((i - i_center), (j - j_center))  # The PSF also has the angular dependency, not only the radial one
                 theta += np.pi  # shift angles to the range [0, 2pi]
-                self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
+                kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
                 # print(f"Calculated point {[i, j]} from {[self.kernel_size-1, self.kernel_size-1]}")
                 print(f"Calculated point #{calculated_points} from {self.kernel_size*self.kernel_size}, takes ms: ",
                       int(round(1000*(time.perf_counter() - t1), 0)))
         if normalize_values:
-            self.kernel /= np.max(self.kernel)
+            kernel /= np.max(kernel)
+        self.kernel = kernel  # store only the completely calculated kernel
         return self.kernel
 
     def deinitialize_workers(self):
-- 
2.43.0


From 484332f63d5fe6834d4e228bebf6d2ae92801970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:18 +0000
Subject: [PATCH 41/45] fix: parallel calculation is possible again after a
 failed or interrupted one

---
 src/zernpy/utils/intmproc.py | 12 ++++++++++++
 src/zernpy/zernpsf.py        | 14 ++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 918f11c..916d50d 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -116,6 +116,18 @@ class DispenserManager():
         """
         return self.__MAX_WORKERS
 
+    def is_active(self) -> bool:
+        """
+        Return True if workers have been initialized and not yet released.
+
+        Returns
+        -------
+        bool
+            Flag for ability to perform computations.
+
+        """
+        return self.__initialized
+
     def compute(self):
         """
         Perform computation using provided parameters and function / method.
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 681528e..6278550 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -684,6 +684,7 @@ class ZernPSF:
         None.
 
         """
+        self.__drop_released_workers()
         if self.__ParallelCalc is None and not self.airy:
             self.__integration_params = [(i, i, i, i, i, i) for i in range(10)]  # placeholder only, will be replaced with the actual list later
             self.__ParallelCalc = DispenserManager(compute_func=radial_integral_s, params_list=self.__integration_params,
@@ -709,6 +710,7 @@ class ZernPSF:
         if self.zernpol is None:  # several polynomials - integration is performed in the current process
             return get_psf_point_r_pols(self.polynomials, self.amplitudes, r, theta, self.n_int_r_points, self.n_int_phi_points)
         h_phi = 2.0*pi/self.n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
+        self.__drop_released_workers()
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
@@ -782,6 +784,18 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             self.__ParallelCalc.close(); self.__ParallelCalc = None
 
+    def __drop_released_workers(self):
+        """
+        Forget the workers that have been already released because of a failed or interrupted computation.
+
+        Returns
+        -------
+        None.
+
+        """
+        if self.__ParallelCalc is not None and not self.__ParallelCalc.is_active():
+            self.deinitialize_workers()
+
 
 # %% Utility functions
 def _sanity_check_expansion_coefficient(normalized_coefficient: float, max_coeff_check: bool = False) -> str:
-- 
2.43.0


From 8f77b37310be8d92ccbefe6a2a289ef3752d9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 42/45] fix: compare the set kernel size with the estimated
 one, not with the size set before

---
 src/zernpy/zernpsf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 6278550..8fa0ed8 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -76,6 +76,7 @@ class ZernPSF:
     zernpol: ZernPol = ZernPol(m=0, n=0)  # by default, Piston as the zero case (Airy pattern)
     polynomials = ()  # empty tuple - holder for provided Sequence with instances of ZernPol
     __physical_props_set: bool = False  # flag for saving that physical properties have been provided
+    __estimated_size: int = 1  # kernel size estimated from the last accepted physical properties
     __warn_message: str = ""; pixel_size_nyquist: float = 0.5*0.5*wavelength  # based on the Abbe limit
     pixel_size = 0.98*pixel_size_nyquist  # default value based on the limit above
     alpha: float = expansion_coeff / wavelength  # the role of amplitude for PSF calculation
@@ -266,6 +267,7 @@ class ZernPSF:
                 self.kernel_size = max_kernel_size
             if self.kernel_size % 2 == 0:
                 self.kernel_size += 1  # kernel size should odd
+        self.__estimated_size = self.kernel_size  # for comparison with explicitly set kernel sizes afterwards
         self.__physical_props_set = True  # set internal flag True if no ValueError raised
 
     def set_calculation_props(self, kernel_size: int, n_integration_points_r: int, n_integration_points_phi: int) -> None:
@@ -308,8 +310,8 @@ class ZernPSF:
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
         if self.__physical_props_set:
-            if kernel_size < self.kernel_size:
-                self.__warn_message = (f"Empirically estimated kernel size = {self.kernel_size} based on the physical properties "
+            if kernel_size < self.__estimated_size:
+                self.__warn_message = (f"Empirically estimated kernel size = {self.__estimated_size} based on the physical properties "
                                        + f"is larger than provided size = {kernel_size}. PSF may be truncated.")
                 warnings.warn(self.__warn_message); self.__warn_message = ""
         else:
-- 
2.43.0


From 48251e0a3a6592f13d7e099e10a59aea4484cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:39 +0000
Subject: [PATCH 43/45] fix: round the amplitude of the additional polynomial
 in generate_random_phases

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index c28c61d..1a58376 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1422,9 +1422,9 @@ def generate_random_phases(max_order: int = 4, img_width: int = 513, img_height:
     if np.max(np.abs(polynomials_amplitudes)) < 0.08:
         list_indices = [i for i in range(polynomials_amplitudes.shape[0])]
         index = random.choice(list_indices)
-        rand_ampl = random.uniform(-1.5, 1.5)
+        rand_ampl = round(random.uniform(-1.5, 1.5), round_digits)  # rounded as all other amplitudes
         if abs(rand_ampl) < 0.08:  # if selected amplitude again is low, shift choice borders
-            polynomials_amplitudes[index] = random.uniform(0.25, 1.5)
+            polynomials_amplitudes[index] = round(random.uniform(0.25, 1.5), round_digits) or 1.0
         else:
             polynomials_amplitudes[index] = rand_ampl
     # Generate random phases image - sum of polynomials on the 2D array of pixels converted to polar coordinates
-- 
2.43.0


From 1e4222d4358e845f359a124c0afa072f7a07c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:46 +0000
Subject: [PATCH 44/45] fix: use at least one worker on machines with a single
 processor (compute() waited endlessly)

---
 src/zernpy/utils/intmproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 916d50d..2bfb953 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -20,7 +20,7 @@ from typing import Callable, Any, Union  # Callable[..., Any] - should check for
 class DispenserManager():
     """Manager for the distributing calculation job on several Processes."""
 
-    __MAX_WORKERS: int = os.cpu_count(); workers_number: int = __MAX_WORKERS // 2; __warn_message: str = ""
+    __MAX_WORKERS: int = os.cpu_count() or 1; workers_number: int = max(1, __MAX_WORKERS // 2); __warn_message: str = ""
     __workers_pool: list = []; __results: list = []; __triggers: list = []; __initialized: bool = False
     __global_live_trigger: Event = None; __queues: list = []; __parameters_vector: list = []
 
-- 
2.43.0


From fece02582be4e9507168423b5f6fd165e92bf515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:41 +0000
Subject: [PATCH 45/45] fix: the returned cropped image is zero outside of the
 circle also for images with NaN there

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 1a58376..12104c3 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1546,7 +1546,7 @@ def fit_polynomials(phases_image: np.ndarray, polynomials: tuple, crop_radius: f
     zernike_coefficients = np.zeros(shape=(len(polynomials), ))
     logic_mask, cropped_phases_coordinates = crop_phases_img(phases_image, crop_radius, suppress_warnings, strict_circle_border)
     if return_cropped_image:
-        cropped_image = logic_mask*phases_image  # for debugging
+        cropped_image = np.where(logic_mask > 0, phases_image, 0)  # for debugging (not multiplied: NaN isn't zeroed by a multiplication)
     zernike_coefficients = fit_zernikes(cropped_phases_coordinates, polynomials)
     zernike_coefficients = np.round(zernike_coefficients, round_digits)
     if return_cropped_image:
-- 
2.43.0

