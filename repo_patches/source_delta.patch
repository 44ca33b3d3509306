From 3c36896449b8acf9fda4bb4a53045fe87975a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 01/21] fix: ScalarCoefs arithmetic must compare nmax and mmax,
 not the number of coefficients

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 24608ca..3ced7c0 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -545,7 +545,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, ScalarCoefs):
-                if len(self._vec) == len(scoef._vec):
+                if self.nmax == scoef.nmax and self.mmax == scoef.mmax:
                     return ScalarCoefs(func(self, self._vec, scoef._vec),
                                         self.nmax,
                                         self.mmax)
-- 
2.43.0


From 94a5e63d15c10820b1edbd7ea68e953e1c87e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 02/21] fix: VectorCoefs arithmetic compared an operand's size
 with itself

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 3ced7c0..e8c59df 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -819,7 +819,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, VectorCoefs):
-                if len(vcoef.scoef1._vec) == len(vcoef.scoef1._vec):
+                if self.nmax == vcoef.nmax and self.mmax == vcoef.mmax:
                     return VectorCoefs(func(self, self.scoef1._vec,
                                                   vcoef.scoef1._vec),
                                        func(self, self.scoef2._vec,
-- 
2.43.0


From 3c5b393606b03b0f224a974c46a8e26ca2d2ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 03/21] fix: division by the number zero must raise
 ZeroDivisionError, not return it

---
 spherepy/spherepy.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index e8c59df..89b6999 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -601,7 +601,7 @@ class ScalarCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -610,7 +610,7 @@ class ScalarCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a
@@ -619,7 +619,7 @@ class ScalarCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -628,7 +628,7 @@ class ScalarCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -881,7 +881,7 @@ class VectorCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -890,7 +890,7 @@ class VectorCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -899,7 +899,7 @@ class VectorCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -908,7 +908,7 @@ class VectorCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1132,7 +1132,7 @@ class ScalarPatternUniform(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1141,7 +1141,7 @@ class ScalarPatternUniform(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1150,7 +1150,7 @@ class ScalarPatternUniform(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1159,7 +1159,7 @@ class ScalarPatternUniform(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1332,7 +1332,7 @@ class TransversePatternUniform:
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1341,7 +1341,7 @@ class TransversePatternUniform:
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1350,7 +1350,7 @@ class TransversePatternUniform:
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1359,7 +1359,7 @@ class TransversePatternUniform:
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a    
-- 
2.43.0


From cdbd5bb2e4d4bc9507d3ed74e0f9ea43ec7be53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 04/21] fix: mag2 of ScalarCoefs must square the magnitudes

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 89b6999..1b58966 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1710,7 +1710,7 @@ def mag2(sobj):
     if isinstance(sobj, ScalarPatternUniform):
         return np.abs(sobj.array) ** 2
     elif isinstance(sobj, ScalarCoefs):
-        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
+        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
         return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
     elif isinstance(sobj, VectorCoefs):
-- 
2.43.0


From 44fb310816a4d3ef4586d4aa9e3a824419546d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 05/21] fix: L2_coef of VectorCoefs ignored the second set of
 coefficients

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 1b58966..ba3bc33 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2187,7 +2187,7 @@ def L2_coef(coef):
         return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
     elif isinstance(coef, VectorCoefs):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
+        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
     
 def L2_patt(patt):
-- 
2.43.0


From 096449ade5e5d19f7873f5ce3826ed8c053cb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 06/21] fix: TransversePatternUniform.single_val never looked
 at the phi component

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index ba3bc33..4086e02 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1238,7 +1238,7 @@ class TransversePatternUniform:
         """
         
         sv_t = self._sv(self._tdsphere)
-        sv_p = self._sv(self._tdsphere)
+        sv_p = self._sv(self._pdsphere)
         
         return (sv_t, sv_p)
         
-- 
2.43.0


From feb172846e40f33b296d1ce09bc8ee7de0afb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 07/21] fix: double_sphere doubled pole samples whose product
 underflows to zero

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 4086e02..58f29df 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1774,7 +1774,7 @@ def double_sphere(cdata, sym):
                           np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s * t == 0:
+            if s == 0 or t == 0:
                 ddata[n, m] = s + t
             else:
                 ddata[n, m] = (s + t) / 2
-- 
2.43.0


From 050949874afb0b56a1dde7bedd7e048f9b555cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 08/21] fix: assigning to c[n, :] with n > mmax expected
 coefficients that do not exist

---
 spherepy/spherepy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 58f29df..0f6a473 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -405,13 +405,14 @@ class ScalarCoefs(object):
                 if (n > self.nmax) or (n < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                if (len(val) != 2 * n + 1):
-                    raise AttributeError(err_msg['dim_no_mtch'])
-
                 if n <= self.mmax:
                     nn = n
                 else:
                     nn = self.mmax            
+
+                if (len(val) != 2 * nn + 1):
+                    raise AttributeError(err_msg['dim_no_mtch'])
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From c2d484aac16427720fe100bf46bb32458e68cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 09/21] fix: c[0:k, :] with a negative k returned a malformed
 set of coefficients

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 0f6a473..98d570c 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -509,7 +509,7 @@ class ScalarCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
@@ -797,7 +797,7 @@ class VectorCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
-- 
2.43.0


From ec96d560bd546328a5b5a87dfd980a74a5242c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 10/21] fix: sph_harmonic_tp sampled phi at 50 points whatever
 ncols was

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 98d570c..27476df 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2233,7 +2233,7 @@ def sph_harmonic_tp(nrows, ncols, n, m):
     yvec = np.concatenate([num, nuvec])
     
     theta = np.linspace(0.0, np.pi, nrows)
-    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols)
+    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols, ncols)
     nu = np.array(range(-n, n + 1), dtype=np.complex128)
     
     out = np.zeros([nrows, ncols], dtype=np.complex128)
-- 
2.43.0


From 3469431bb126407876c3ea341c6c632324d23409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 11/21] fix: spht and vspht ignored mmax when nmax was not
 passed

---
 spherepy/spherepy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 27476df..ac70f1d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1861,7 +1861,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     if nmax == None:
         nmax = ssphere.nrows - 2 
-        mmax = int(ssphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(ssphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
@@ -1906,7 +1907,8 @@ def vspht(vsphere, nmax=None, mmax=None):
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
-        mmax = int(vsphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(vsphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
-- 
2.43.0


From d4cd8065b8aee1d8f333741d782b51ad6fad5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 12/21] fix: ispht rejected the real valued coefficients that
 abs, mag and mag2 return

---
 spherepy/spherepy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index ac70f1d..d605502 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2070,7 +2070,8 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata, scoefs._vec, scoefs._nmax, scoefs._mmax)
+        vec = np.ascontiguousarray(scoefs._vec, dtype=np.complex128)
+        csphi.sc_to_fc(fdata, vec, scoefs._nmax, scoefs._mmax)
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
-- 
2.43.0


From cb32bbd6be74ed5d48e49a2212926cde4982224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 13/21] fix: ispht on a one row grid wrote outside of an empty
 array

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d605502..535f5f1 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2057,7 +2057,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols == None:
         ncols = 2 * scoefs.mmax + 2
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
-- 
2.43.0


From cdc99ff0945e6ffdcd8ba53cf5eac5f84704e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 14/21] fix: sbesselj and sbessely failed for N = 1

---
 spherepy/sbessel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index f856e6f..e006e16 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -57,6 +57,9 @@ def sbessely(x, N):
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
+    if N == 1:
+        return out
+
     out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
 
     for n in xrange(2, N):
@@ -77,6 +80,9 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
+    if N == 1:
+        return out
+
     j1 = np.sin(x) / z - np.cos(x) / x
 
     u = 1
-- 
2.43.0


From fca94afb6d9e29eac0dfb8079bdaf9f4f04ce740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 15/21] fix: pcolor_coefs drew every cell half a mode off with
 current matplotlib

---
 spherepy/plot_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/plot_sphere.py b/spherepy/plot_sphere.py
index e07e67c..714e146 100644
--- a/spherepy/plot_sphere.py
+++ b/spherepy/plot_sphere.py
@@ -185,7 +185,7 @@ def pcolor_coefs(coefs):
     x, y = np.meshgrid(np.array(range(-coefs.mmax, coefs.mmax + 2)) - 0.5,
                       np.array(range(0, coefs.nmax + 2)) - 0.5)
 
-    plt.pcolormesh(x, y, z, cmap='jet', vmin=z_min, vmax=z_max)
+    plt.pcolormesh(x, y, z[:-1, :-1], cmap='jet', vmin=z_min, vmax=z_max)
     plt.title('Spherical Coefficients')
     plt.xlabel('m')
     plt.ylabel('n')
-- 
2.43.0


From 0bb668adce07a19e704221dcabf1c6a73c13c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 16/21] fix: spht_slow returned garbage for nmax or mmax larger
 than the pattern supports

---
 spherepy/spherepy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 535f5f1..98e9ab5 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2001,6 +2001,12 @@ def spht_slow(ssphere, nmax, mmax):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if nmax >= ssphere.nrows - 1:
+        raise ValueError(err_msg['nmax_too_lrg'])
+
+    if mmax >= ssphere.ncols / 2:
+        raise ValueError(err_msg['mmax_too_lrg'])
+
     nrows = ssphere._dsphere.shape[0]
     ncols = ssphere._dsphere.shape[1]
 
-- 
2.43.0


From f2bf6e3ac1a1d07bb65f7c1aed5feb00991eaa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 17/21] fix: ispht_slow dropped modes that its columns cannot
 represent

---
 spherepy/spherepy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 98e9ab5..1e7e7c6 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2177,6 +2177,12 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
+    if nrows <= scoefs.nmax or nrows < 2:
+        raise ValueError(err_msg['inverse_terr'])
+
+    if ncols < 2 * scoefs.mmax + 2:
+        raise ValueError(err_msg['inverse_terr'])
+
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
-- 
2.43.0


From 30b081265cb77ca92e26d20061f0b1e3056e4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 18/21] fix: negative nmax or mmax crashed the interpreter

---
 spherepy/spherepy.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 1e7e7c6..bbbc242 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -73,6 +73,7 @@ vector = 1
 
 err_msg = {}
 err_msg['nmax_g_mmax'] = "nmax must be greater than or equal to mmax"
+err_msg['size_neg'] = "nmax and mmax can't be negative"
 err_msg['ncols_even'] = "the number of columns must be even"  
 err_msg['tuple_2_el'] = "tuple must have 2 elements"
 err_msg['ukn_coef_t'] = "unknown coefficient type"
@@ -196,6 +197,9 @@ class ScalarCoefs(object):
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
+        if mmax < 0:
+            raise ValueError(err_msg['size_neg'])
+
         N = nmax + 1;
         NC = N + mmax * (2 * N - mmax - 1);
         if NC != len(vec):
@@ -646,6 +650,9 @@ class VectorCoefs(object):
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
+        if mmax < 0:
+            raise ValueError(err_msg['size_neg'])
+
         N = nmax + 1;
         NC = N + mmax * (2 * N - mmax - 1);
         if NC != len(vec1):
@@ -1869,6 +1876,9 @@ def spht(ssphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['size_neg'])
+
     if nmax >= ssphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
@@ -1915,6 +1925,9 @@ def vspht(vsphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['size_neg'])
+
     if nmax >= vsphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
@@ -2001,6 +2014,9 @@ def spht_slow(ssphere, nmax, mmax):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['size_neg'])
+
     if nmax >= ssphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
-- 
2.43.0


From dfd0c510fbf01510a7a0340cb049b025a0d4f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 19/21] fix: sbesselj returned garbage or infinity for tiny
 arguments

---
 spherepy/sbessel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index e006e16..1aee8fb 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -83,7 +83,7 @@ def sbesselj(x, N):
     if N == 1:
         return out
 
-    j1 = np.sin(x) / z - np.cos(x) / x
+    j1 = (np.sin(x) / x - np.cos(x)) / x
 
     u = 1
     v = x / (2.0 * nmax + 1.0)
@@ -101,7 +101,8 @@ def sbesselj(x, N):
     for n in xrange(nmax - 1, 0, -1):
         out[n] = 1.0 / ((2.0 * n + 1.0) / x - out[n + 1])
 
-    if(np.abs(out[0]) >= np.abs(j1)):
+    # j1 suffers from cancellation for small x, where it is less than j0
+    if(np.abs(x) < 1.0 or np.abs(out[0]) >= np.abs(j1)):
         out[1] *= out[0]
     else:
         out[1] = j1
-- 
2.43.0


From 06ec3b09b566d98401de257ec510d2000946ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 20/21] fix: sbesselj returned nan or inaccurate values near
 zeros of jn

---
 spherepy/sbessel.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index 1aee8fb..f78ee35 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -85,21 +85,29 @@ def sbesselj(x, N):
 
     j1 = (np.sin(x) / x - np.cos(x)) / x
 
-    u = 1
-    v = x / (2.0 * nmax + 1.0)
-    w = v
+    # jn / j(n-1) for n = nmax as a continued fraction (modified Lentz method).
+    # Denominators that vanish (zeros of jn) are replaced by a tiny number.
+    tiny = 1e-100
     n = nmax
+    w = 2.0 * n + 1.0
+    c = w
+    d = 0.0
+    delta = 0.0
 
-    while(np.abs(v / w) > 1e-20):
+    while(np.abs(delta - 1.0) > 1e-15):
         n = n + 1
-        u = 1 / (1 - z * u / (4.0 * n ** 2 - 1.0))
-        v *= u - 1
-        w += v
+        d = 2.0 * n + 1.0 - z * d
+        c = 2.0 * n + 1.0 - z / c
+        d = 1.0 / (d if d != 0 else tiny)
+        c = c if c != 0 else tiny
+        delta = c * d
+        w *= delta
 
-    out[nmax] = w
+    out[nmax] = x / w
 
     for n in xrange(nmax - 1, 0, -1):
-        out[n] = 1.0 / ((2.0 * n + 1.0) / x - out[n + 1])
+        d = (2.0 * n + 1.0) / x - out[n + 1]
+        out[n] = 1.0 / (d if d != 0 else tiny)
 
     # j1 suffers from cancellation for small x, where it is less than j0
     if(np.abs(x) < 1.0 or np.abs(out[0]) >= np.abs(j1)):
-- 
2.43.0


From 057bcddd261b7bf8e4d4eb4998aa194f94cd9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 21/21] fix: loading a file must keep infinite values and the
 sign of zero (re + 1j * im turns an infinite imaginary part into nan)

---
 spherepy/file.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spherepy/file.py b/spherepy/file.py
index 3145856..a24cb14 100644
--- a/spherepy/file.py
+++ b/spherepy/file.py
@@ -112,7 +112,7 @@ def load_patt(filename):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt[n, m] = re + 1j * im
+            patt[n, m] = complex(re, im)
 
     return sp.ScalarPatternUniform(patt, doublesphere=False)
 
@@ -136,7 +136,7 @@ def load_vpatt(filename1, filename2):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt1[n, m] = re + 1j * im
+            patt1[n, m] = complex(re, im)
 
     with open(filename2) as f: 
         lines2 = f.readlines()
@@ -154,7 +154,7 @@ def load_vpatt(filename1, filename2):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt2[n, m] = re + 1j * im
+            patt2[n, m] = complex(re, im)
 
     return sp.TransversePatternUniform(patt1, patt2)
 
@@ -176,7 +176,7 @@ def load_fdata(filename):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt[n, m] = re + 1j * im
+            patt[n, m] = complex(re, im)
 
     return np.array(patt, dtype=np.complex128)
 
@@ -201,7 +201,7 @@ def load_coef(filename):
             lst = line.split(',')
             re = float(lst[0])
             im = float(lst[1])
-            vec[n] = re + 1j * im
+            vec[n] = complex(re, im)
 
     return sp.ScalarCoefs(vec, nmax, mmax)
 
@@ -239,9 +239,9 @@ def load_vcoef(filename):
                 im = float(lst[1])
 
                 if in_vec2:
-                    vec2[n] = re + 1j * im
+                    vec2[n] = complex(re, im)
                 else:
-                    vec1[n] = re + 1j * im
+                    vec1[n] = complex(re, im)
 
                 n += 1
 
-- 
2.43.0

