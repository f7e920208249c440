From 3b28111f16f3a2007580f92ae7e7ec76497d1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 01/86] fix: standardChop treats vectors with fewer than two
 entries as unhappy

For minimum <= 1 an empty vector was read out of bounds and a vector with a
single entry used an uninitialised plateau index.
---
 funpy/cheb/detail.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7860fd6..4679bd2 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -225,7 +225,8 @@ cpdef standardChop(double[::1] coeffs, double tol, Py_ssize_t minimum=17):
     cutoff = n
 
     # we only chop when the length is longer than 17
-    if n < minimum:
+    # (a vector with fewer than two entries never has a plateau)
+    if n < minimum or n < 2:
         return cutoff
 
     # Step 1: Convert coeffs to a new monotonically nonincreasing vector
@@ -312,7 +313,8 @@ cpdef standardChopCmplx(complex[::1] coeffs, double tol, Py_ssize_t minimum=17):
     cutoff = n
 
     # we only chop when the length is longer than 17
-    if n < minimum:
+    # (a vector with fewer than two entries never has a plateau)
+    if n < minimum or n < 2:
         return cutoff
 
     # Step 1: Convert coeffs to a new monotonically nonincreasing vector
-- 
2.43.0


From 5922e2a2712ecb970d7ccc3943cb915b0830c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 02/86] fix: fliplr of an array-valued chebtech returns Fortran
 ordered coefficients

The reversed view is not Fortran contiguous, so the happiness check of the new
function raised, and it shared its storage with the original.
---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 553f80d..4799aab 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -379,7 +379,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def fliplr(self):
         """ Flip columns of an array-valued chebtech object. """
-        return chebtech(coeffs=np.fliplr(self.coeffs), eps=self.eps,
+        return chebtech(coeffs=np.fliplr(self.coeffs).copy(order='F'), eps=self.eps,
                        hscale=self.hscale, simplify=False,
                        ishappy=self.ishappy, maxLength=self.maxLength)
 
-- 
2.43.0


From 2c3c020cefa31f71a4b3b2d2f8a3d8f8b2cf73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 03/86] fix: cumsum of an array-valued chebtech builds Fortran
 ordered coefficients

simplify() requires Fortran order and raised for more than one column.
---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 4799aab..2bb0a5b 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -556,7 +556,7 @@ def cumsum(cheb, **kwargs):
     """
     n, m = cheb.shape
     c = np.vstack((cheb.coeffs, np.zeros((2, m))))  # pad with zeros
-    b = np.zeros((n+1, m))
+    b = np.zeros((n+1, m), order='F')
 
     # compute b_(2) ... b_(n+1)
     b[2:n+1, :] = (c[1:n, :] - c[3:n+2, :]) / np.tile(np.expand_dims(2*np.arange(2, n+1), axis=1), (1, m))
-- 
2.43.0


From de7d72d824759878f5d19bf8f23b8f62033adb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 04/86] fix: adaptive construction starts from at least 17
 samples

The happiness check pads fewer than 17 coefficients with zeros, so 9 samples of
an unresolved function were reported as happy: f**2 and norm(f) of functions
with fewer than 17 coefficients were wrong.
---
 funpy/cheb/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index f6d2d7c..2051a80 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -25,7 +25,7 @@ class FunctionContainer:
 """ Base class for resampling and refining operations  """
 class RefineBase:
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = max(9, kwargs.pop('minSamples', 9))
+        self.minSamples = max(17, kwargs.pop('minSamples', 17))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), order='F')
-- 
2.43.0


From 5c19c9d2bded8409719629aec8195104000b27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 05/86] fix: multiply array-valued chebtechs when one of them
 is constant

A product of functions with several columns, one of them of length one, raised
a shape mismatch.
---
 funpy/cheb/ufuncs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6167917..06cefe8 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -201,7 +201,8 @@ def multiply(x1, x2, **kwargs):
 
         # Otherwise the shape of the ndarray must be the same as
         # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
+        # (or one factor per column)
+        assert x1.shape == x2.shape or x2.shape == (1, x1.m), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
         if out is not None:
-- 
2.43.0


From ec0fffd51c3c4849a77bf8f384091c6a742be813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/86] fix: in-place addition of chebtechs leaves the right
 operand alone

The shorter right operand was prolonged in place.
---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 06cefe8..f0c897e 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -85,12 +85,12 @@ def add(x1, x2, **kwargs):
         no = x2.n
 
         if out is not None:
+            oc = x2.coeffs
             if nf > no:
-                x2.prolong(nf)
+                oc = detail.prolong(oc, nf)
             elif nf < no:
                 x1.prolong(no)
             c = out[0].coeffs
-            oc = x2.coeffs
         else:
             c = np.copy(x1.coeffs, order='F')
             oc = x2.coeffs
-- 
2.43.0


From 9cf10a0a794845d1124f4ba1eca39fb357b9f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 07/86] fix: simplify_coeffs never returns more coefficients
 than it was given

A series without a plateau came back one coefficient longer.
---
 funpy/cheb/detail.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 4679bd2..ba1a753 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -165,8 +165,8 @@ cpdef simplify_coeffs(double[::1, :] coeffs, eps=1.48e-8):
         chop = standardChop(coeffs[:, k], tol[k])
         cutoff = max_idx(cutoff, chop)
 
-    # take the minimum cutoff.
-    cutoff = min_idx(cutoff, nold)
+    # take the minimum cutoff: never keep more than what was passed in.
+    cutoff = min_idx(cutoff, nold - 1)
 
     # chop coefficients: +1 here since cutoff is the last index to keep!
     return np.asarray(coeffs[:cutoff+1, :], order='F')
-- 
2.43.0


From 8f32754d3c8bcea9d85023425b82cf4977f87134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 08/86] fix: the first sampling is limited to the maximum
 length

self.values is never None, so a maximum length below the first proposed grid
gave up without a single sample and the construction failed.
---
 funpy/cheb/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 2051a80..48db9dd 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -46,7 +46,7 @@ class RefineBase:
                 n = 2**(np.floor(pow) + 1) + 1
 
         if n > f.maxLength:
-            if self.values is None:
+            if self.values.size == 0:
                 n = f.maxLength
                 giveUp = False
             else:
-- 
2.43.0


From 595683f981bcc8b4e9ae11e775aac2710083e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 09/86] fix: operands on different domains are rejected in
 either direction

The difference of the end points was compared without taking its absolute value.
---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 77e29e3..10d783b 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -171,7 +171,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.asarray(x.domain) - np.asarray(self.domain) < SMALL_EPS):
+                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
                     raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
 
         if method == "__call__":
-- 
2.43.0


From 6a90d517aedcc82b7ede0fb5bc6c7a3848d7bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 10/86] fix: a Fun can be evaluated at the end points and grid
 points of its domain

Rounding in the backward map made e.g. f(2.1) fail for f on [0.1, 2.1].
---
 funpy/fun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 10d783b..8d2f5b3 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -129,8 +129,10 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
     def __call__(self, x):
         """ x in [a, b] -> [-1, 1] """
         z = self.mapping.bwd(x)
-        assert np.min(z) >= -1.0 and np.max(z) <= 1.0, 'Mapping must return an interval [-1, 1] instead of [%.12g, %.12g]!' % (np.min(z), np.max(z))
-        return self.onefun.feval(z)
+        # rounding in the map may leave [-1, 1] by a few ulps
+        tol = 10 * np.finfo(float).eps * max(1.0, self.hscale / np.diff(self.domain).item())
+        assert np.min(z) >= -1.0 - tol and np.max(z) <= 1.0 + tol, 'Mapping must return an interval [-1, 1] instead of [%.12g, %.12g]!' % (np.min(z), np.max(z))
+        return self.onefun.feval(np.clip(z, -1.0, 1.0))
 
     """ Implement array ufunc support """
     def __array_function__(self, func, types, args, kwargs):
-- 
2.43.0


From 17a23358daff12ba744a513c32263ae708408393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 11/86] fix: grid points and quadrature weights are handed out
 as independent arrays

The cached arrays themselves were returned (also as f.x), so that writing to one
of them changed every later grid; for zero or one points a list was returned on
which the maps of Fun failed.
---
 funpy/cheb/pts.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index d62bfa0..123da49 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -4,11 +4,21 @@
 import numpy as np
 import warnings
 from scipy.fft import ifft
-from functools import lru_cache
+from functools import lru_cache, wraps
+
+
+def cached(f):
+    """ Cache by the number of points: callers get their own array """
+    cached_f = lru_cache(maxsize=25)(f)
+
+    @wraps(f)
+    def wrapper(N):
+        return np.array(cached_f(N), dtype=float)
+    return wrapper
 
 
 """ Barycentric weights """
-@lru_cache(maxsize=25)
+@cached
 def bary_weights(N):
     c = np.hstack((np.ones(N-1), 0.5))
     c[-2::-2] = -1
@@ -17,10 +27,10 @@ def bary_weights(N):
 
 
 """ Quadrature weights for Curtis-Clenshaw """
-@lru_cache(maxsize=25)
+@cached
 def quadwts(N):
     if N == 0:
-        return np.empty()
+        return np.empty(0)
     elif N == 1:
         return np.array([2.])
 
@@ -75,7 +85,7 @@ def barymat(y, x, w):
         return barymat_impl(y, x, w)
 
 
-@lru_cache(maxsize=25)
+@cached
 def chebpts_type1_compute(N):
     if N == 0:
         return []
@@ -85,7 +95,7 @@ def chebpts_type1_compute(N):
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * N))
 
 
-@lru_cache(maxsize=25)
+@cached
 def chebpts_type2_compute(N):
     if N == 0:
         return []
-- 
2.43.0


From 3867d42158cbcefdc094e39133c1c8bcef4f2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 12/86] fix: evaluating a real trigtech of even length leaves
 its coefficients alone

The halving of the highest mode was applied to a view of the coefficients, so
every evaluation changed the function.
---
 funpy/trig/eval.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/eval.py b/funpy/trig/eval.py
index 98ee671..8b8919d 100644
--- a/funpy/trig/eval.py
+++ b/funpy/trig/eval.py
@@ -65,9 +65,8 @@ def horner_scl_real(x, c):
     # Get all negative indexed coefficients so that the constant is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
-    b.flags.writeable = True
+    a = np.array(np.real(c))
+    b = np.array(np.imag(c))
 
     if np.remainder(N, 2) == 0:
         a[n-1] *= 0.5
@@ -96,8 +95,8 @@ def horner_vec_real(x, c):
     # Get all negative indexed coefficients so that the constant term is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
+    a = np.array(np.real(c))
+    b = np.array(np.imag(c))
     e = np.ones((nValsX, 1))
 
     if np.remainder(N, 2) == 0:
-- 
2.43.0


From c2eea3d8df0043e58412a27b3681fd133f770b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 13/86] fix: trigtech.prolong_coeffs from an even length to the
 next odd one

The coefficients were returned without being extended.
---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 34f0dce..ee35bd8 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -453,7 +453,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             c = np.copy(self.coeffs, order='F')
 
         if Nin == Nout:
-            c = self.coeffs
+            c = np.asfortranarray(c)
 
         # Pad with zeros
         elif Nout > Nin:
-- 
2.43.0


From c250e83880287afb3efe7a2110f288bfb76e44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 14/86] fix: trig prolong returns coefficients and values for
 an unchanged length

and does not scale the coefficients of its argument when chopping.
---
 funpy/trig/trig_simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index ee2a2bd..8154f22 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -16,7 +16,7 @@ def prolong(coeffs, Nout, isReal=None):
     Nin = coeffs.shape[0]
 
     if Nout == Nin:  # Do nothing
-        return
+        return np.copy(coeffs, order='F'), coeffs2vals(coeffs)
 
     if np.remainder(Nin, 2) == 0:
         coeffs = np.vstack((0.5 * coeffs[0, :], coeffs[1:, :], 0.5 * coeffs[0, :]))
@@ -43,7 +43,7 @@ def prolong(coeffs, Nout, isReal=None):
     if Nout < Nin:
         kup = np.floor((Nin-Nout)/2).astype(int)
         kdown = np.ceil((Nin-Nout)/2).astype(int)
-        coeffs = coeffs[kup:-kdown, :]
+        coeffs = np.copy(coeffs[kup:-kdown, :])
         if kup < kdown:
             coeffs[0, :] = 2*coeffs[0, :]
 
-- 
2.43.0


From c06cb0d70d42ec09554d36ad4c1dd75f13477baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 15/86] fix: np.conj of a complex valued trigtech

The test was inverted (complex functions were returned unchanged) and reversing
the coefficients is wrong for even lengths.
---
 funpy/trig/trigtech.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index ee35bd8..9115881 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -550,16 +550,12 @@ def imag(trig):
 
 @implements(np.conj)
 def conj(trig):
-    id = ~trig.isReal
-    if np.all(id):
+    if np.all(trig.isReal):
         return trig
 
     # other wise construct a new trigtech
-    values = np.copy(trig.values)
-    coeffs = np.copy(trig.coeffs)
-    values[:, id] = np.conj(values[:, id])
-    coeffs[:, id] = np.flipud(np.conj(coeffs[:, id]))
-    return trigtech(values=values, coeffs=coeffs, ishappy=trig.ishappy,
+    values = np.conj(trig.values)
+    return trigtech(values=values, coeffs=vals2coeffs(values), ishappy=trig.ishappy,
                     simplify=False, isreal=trig.isReal)
 
 
-- 
2.43.0


From 4ed85e736e0431d685d5bd3dde68c98bb1951561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 16/86] fix: np.real of a trigtech with negative real part is
 not zero

The values were compared without taking their absolute value.
---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 9115881..30c74a8 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -515,7 +515,7 @@ def real(trig):
         return trig
 
     fvalues = np.real(trig.values)
-    if np.all(fvalues < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From 32788b8216b8b3d5a93659876e71aba5507fe62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 17/86] fix: np.cumsum of a trigtech

It zeroed the constant mode of its operand, zeroed and set the wrong mode, and
summed the constants of all columns.
---
 funpy/trig/trigtech.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 30c74a8..e10f32c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -615,7 +615,7 @@ def cumsum(f, m=1, **kwargs):
         b_k = c_k / (i pi k).
 
     """
-    c = f.coeffs
+    c = np.copy(f.coeffs)
     n = f.n
     isEven = np.remainder(n, 2) == 0
 
@@ -638,7 +638,7 @@ def cumsum(f, m=1, **kwargs):
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
     else:
-        c[(n+1)//2, :] = 0
+        c[ind, :] = 0
         highestDegree = (n-1)//2
 
     # TODO silence warning here!
@@ -656,7 +656,7 @@ def cumsum(f, m=1, **kwargs):
         c[n, :] = 0
 
     # fix the constant term
-    c[highestDegree+1, :] = -np.sum(c * (-1+0j)**sumIndices)
+    c[highestDegree, :] = -np.sum(c * (-1.)**sumIndices, axis=0)
 
     if isEven:
         c = c[:-1]
-- 
2.43.0


From e33a23b164318f31c80d58ac3d8c3bb25644b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 18/86] fix: deep copies keep hscale, and for trigtech all
 other attributes

hscale was replaced by eps; a trigtech copy lost vscale, maxLength and its
happiness.
---
 funpy/cheb/chebtech.py | 2 +-
 funpy/trig/trigtech.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 2bb0a5b..66d6ab3 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -87,7 +87,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         if _copy is None:
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index e10f32c..ee73de7 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -112,10 +112,11 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
                 values=deepcopy(self.values),
-                eps=self.eps, hscale=self.eps,
-                maxLength=self.maxLength,
-                ishappy=self.ishappy,
-                isreal=self.isReal)
+                eps=self.eps, hscale=self.hscale,
+                vscale=self.vscale)
+            _copy.maxLength = self.maxLength
+            _copy.ishappy = self.ishappy
+            _copy.isReal = deepcopy(self.isReal)
             memo[id_self] = _copy
         return _copy
 
-- 
2.43.0


From 59e59c4724eb43d02564dd67bd0b7ebb4507b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 19/86] fix: the zero mean test of trigtech cumsum uses the
 scale of the function

vscale is only set for functions built from callables; for all others a mean at
rounding level was rejected.
---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index ee73de7..dd55623 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -627,7 +627,7 @@ def cumsum(f, m=1, **kwargs):
         ind = (n+1)//2 - 1
 
     # check that the mean of the trigtech is zero. If it is not, then throw an error.
-    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.vscale*f.eps):
+    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*np.maximum(f.vscale, f.get_vscale())*f.eps):
         raise RuntimeError("Indefinite integrals are only possible for trigtech objects with zero mean!")
 
     # throw error that this is only possible for mean zero trigtechs
-- 
2.43.0


From e8873c6ed0e824a274c590b382f93e7b2f747b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 20/86] fix: number / trigtech and number ** trigtech

The operands were swapped: 1 / f returned f and 2 ** f returned f ** 2.
---
 funpy/trig/ufuncs.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 96d72f9..6ae93fb 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -31,7 +31,7 @@ def fabs(x, **kwargs):
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return power(x2, x1)
+        return trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=2 * x2.n)
 
     if isinstance(x2, Number):
         return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
@@ -306,11 +306,22 @@ def divide(x1, x2, **kwargs):
     return true_divide(x1, x2, **kwargs)
 
 def true_divide(x1, x2, **kwargs):
-    # if we have one element that is a ndarray or Number we want that to be x2!
-    if isinstance(x1, (np.ndarray, Number)):
-        return divide(x2, x1, **kwargs)
-
     out = kwargs.pop('out', None)
+
+    # Deal with this first!
+    if isinstance(x1, np.ndarray) and x1.size == 1:
+        x1 = x1.item()
+    if isinstance(x1, Number):
+        fun = trigtech(op=lambda x: np.divide(x1, x2(x)), minSamples=2 * x2.n)
+        if out is not None:
+            out[0].values = fun.values
+            out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
+            return out[0]
+        return fun
+    elif isinstance(x1, np.ndarray):
+        return NotImplemented
+
     if out is not None:
         c = out[0].coeffs
         v = out[0].values
-- 
2.43.0


From bbf4f5cbad482032307b26b1988d7ee4709cd8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 21/86] fix: in-place addition of trigtechs leaves the right
 operand alone

The shorter right operand was prolonged in place.
---
 funpy/trig/ufuncs.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 6ae93fb..b30e699 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -90,18 +90,15 @@ def add(x1, x2, **kwargs):
         no = x2.n
 
         if out is not None:
+            oc = x2.coeffs
+            ov = x2.values
             if nf > no:
-                x2.prolong(nf)
+                oc, ov = prolong(oc, nf, x2.isReal)
             elif nf < no:
                 x1.prolong(no)
 
             c = out[0].coeffs
             v = out[0].values
-            # print('out!')
-            # print('v = ', v.dtype, ' out = ', out[0].values.dtype)
-
-            oc = x2.coeffs
-            ov = x2.values
         else:
             # FIXME - I shouldn't need any of these silly type conversions!
             c = np.copy(x1.coeffs, order='F').astype(complex)
-- 
2.43.0


From 228a3242b8052fa64d2e6b0fd527b8ff281d8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 22/86] fix: adding a number with negative imaginary part to a
 real trigtech in place

The result was still flagged as real.
---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index b30e699..4377f2c 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -73,7 +73,7 @@ def add(x1, x2, **kwargs):
 
         # update is real
         # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.imag(other) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
 
         # Don't I need to do this?
         ishappy = x1.ishappy
-- 
2.43.0


From 2d4144f02e375675502b6b82f7f454a129939fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 23/86] fix: multiplication of trigtechs

The square of a real function raised (isreal is a property), an ndarray factor
or a one column right operand was multiplied into the operands, an in-place
product with a constant function was dropped, constant functions with several
columns raised, and in-place products kept the old real flag.
---
 funpy/trig/ufuncs.py | 57 +++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 4377f2c..89ffe86 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -163,46 +163,30 @@ def multiply(x1, x2, **kwargs):
 
     out = kwargs.pop('out', None)
     if isinstance(x2, Number):
-        # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            # FIXME???
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
         # update coefficients
-        c *= x2
-        v *= x2
+        c = x1.coeffs * x2
+        v = x1.values * x2
 
         # update the is real number
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isReal & np.isreal(x2)
         ishappy = x1.ishappy
 
     elif isinstance(x2, np.ndarray):
         if x2.size == 1:
-            return multiply(x1, x2.item(), **kwargs)
+            return multiply(x1, x2.item(), out=out, **kwargs)
 
         if len(x2.shape) == 1:
             x2 = np.expand_dims(x2, axis=1)
 
         # Otherwise the shape of the ndarray must be the same as
-        # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
-
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = x1.coeffs
-            v = x1.values
+        # for the coefficients (or one factor per column)
+        assert x1.shape == x2.shape or x2.shape == (1, x1.m), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
-        c *= x2
-        v *= x2
+        c = x1.coeffs * x2
+        v = x1.values * x2 if x2.shape[0] == 1 else coeffs2vals(c)
 
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isReal & np.all(np.isreal(x2), axis=0).squeeze()
         ishappy = x1.ishappy
 
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
@@ -218,16 +202,9 @@ def multiply(x1, x2, **kwargs):
     elif isinstance(x2, type(x1)):
         # Multiplication with other chebtech
         if x1.n == 1:  # x1 is a constant function
-            return multiply(x2, x1.coeffs, **kwargs)
+            return multiply(x2, x1.coeffs, out=out, **kwargs)
         elif x2.n == 1:  # x2 is a constant function
-            return multiply(x1, x2.coeffs, **kwargs)
-
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
+            return multiply(x1, x2.coeffs, out=out, **kwargs)
 
         # Get the shapes
         fn, fm = x1.shape
@@ -243,9 +220,8 @@ def multiply(x1, x2, **kwargs):
                 nvals = np.tile(nvals, (1, gm))
                 ncoeffs = np.tile(ncoeffs, (1, gm))
             elif gm == 1:
-                # Allow [inf x m] .* [Inf x 1]
-                x2.values = np.tile(x2.values, (1, fm))
-                x2.coeffs = np.tile(x2.coeffs, (1, fm))
+                # Allow [inf x m] .* [Inf x 1]: the product below broadcasts
+                pass
             else:
                 assert False, 'Inner matrix dimensions must agree!'
 
@@ -256,7 +232,7 @@ def multiply(x1, x2, **kwargs):
         # multiply values
         if x1 == x2:
             v = np.power(nvals, 2)
-            if x1.isreal():
+            if x1.isreal:
                 pos = True
 
         elif np.conj(x1) == x2:
@@ -280,9 +256,9 @@ def multiply(x1, x2, **kwargs):
             # when the product should be positive make sure it is after call to simplify
             v = np.abs(v)
             c = vals2coeffs(v)
-            is_real = np.ones((1, c.shape[1])).astype(bool)
+            is_real = np.ones(c.shape[1]).astype(bool)
         else:
-            is_real = x1.isreal and x2.isreal
+            is_real = x1.isReal & x2.isReal
 
         # if values are real -> make the result real
         v[:, is_real] = np.real(v[:, is_real])
@@ -294,6 +270,7 @@ def multiply(x1, x2, **kwargs):
         out[0].ishappy = ishappy
         out[0].coeffs = c
         out[0].values = v
+        out[0].isReal = is_real
         return out[0]
     else:
         return trigtech(values=v, coeffs=c, simplify=True,
-- 
2.43.0


From 5691c0c4102979ad3858db79eea1022bdbfb0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 24/86] fix: adding an array with one number per column to a
 trigtech

A one dimensional array raised, and a row added to a single column could not be
broadcast into the values.
---
 funpy/trig/ufuncs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 89ffe86..94cdd16 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -55,13 +55,14 @@ def add(x1, x2, **kwargs):
 
         other = np.asanyarray(x2, order='F')
 
+        # one column and several numbers
+        if other.ndim > 1 and other.shape[1] > 1 and x1.m == 1:
+            c = np.tile(c, (1, other.shape[1]))
+            v = np.tile(v, (1, other.shape[1]))
+
         # simply add to the values
         v += other
 
-        # Update coefficients
-        if other.shape and other.shape[1] > 1 and x1.m == 1:
-            c = np.tile(x1.coeffs, (1, other.shape[1]))
-
         n = x1.n
         # determine index of constant coefficient term
         if n & 1:
-- 
2.43.0


From 4d4af82f8e6e1d1aee0f20d4b7aa5db1f59c6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 25/86] fix: in-place division of trigtechs updates the real
 flag

---
 funpy/trig/ufuncs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 94cdd16..54cc423 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -321,6 +321,7 @@ def true_divide(x1, x2, **kwargs):
         if out is not None:
             out[0].values = fun.values
             out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
             return out[0]
         return fun
     else:
-- 
2.43.0


From 5ee59b72aecd5cb88431318c16db55e40fde7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 26/86] fix: shortening a trigtech to an even length keeps real
 functions real

---
 funpy/trig/trig_simplify.py |  4 +++-
 funpy/trig/trigtech.py      | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index 8154f22..3d2d971 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -43,9 +43,11 @@ def prolong(coeffs, Nout, isReal=None):
     if Nout < Nin:
         kup = np.floor((Nin-Nout)/2).astype(int)
         kdown = np.ceil((Nin-Nout)/2).astype(int)
+        last = coeffs[-kdown, :]
         coeffs = np.copy(coeffs[kup:-kdown, :])
         if kup < kdown:
-            coeffs[0, :] = 2*coeffs[0, :]
+            # the modes -Nout/2 and Nout/2 share one coefficient
+            coeffs[0, :] += last
 
         coeffs = np.asfortranarray(coeffs)
         values = coeffs2vals(coeffs)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index dd55623..fca0c3d 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -301,9 +301,11 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         if Nout < Nin:
             kup = np.floor((Nin-Nout)/2).astype(int)
             kdown = np.ceil((Nin-Nout)/2).astype(int)
-            coeffs = coeffs[kup:-kdown, :]
+            last = coeffs[-kdown, :]
+            coeffs = np.copy(coeffs[kup:-kdown, :])
             if kup < kdown:
-                coeffs[0, :] = 2*coeffs[0, :]
+                # the modes -Nout/2 and Nout/2 share one coefficient
+                coeffs[0, :] += last
             self.coeffs = np.asfortranarray(coeffs)
             self.values = coeffs2vals(self.coeffs)
             self.values[:, self.isReal] = np.real(self.values[:, self.isReal])
@@ -467,9 +469,11 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         elif Nout < Nin:
             kup = np.floor((Nin-Nout)/2).astype(int)
             kdown = np.ceil((Nin-Nout)/2).astype(int)
-            c = c[kup:-kdown, :]
+            last = c[-kdown, :]
+            c = np.copy(c[kup:-kdown, :], order='F')
             if kup < kdown:
-                c[0, :] = 2*c[0, :]
+                # the modes -Nout/2 and Nout/2 share one coefficient
+                c[0, :] += last
 
         else:
             raise RuntimeError("I should not get here!")
-- 
2.43.0


From 1dddef82e66e9b6720505a0520ec748473f72235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 27/86] fix: products of trigtechs of even length are not
 aliased

---
 funpy/trig/ufuncs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 54cc423..2b90138 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -211,8 +211,9 @@ def multiply(x1, x2, **kwargs):
         fn, fm = x1.shape
         gn, gm = x2.shape
 
-        # prolong
-        ncoeffs, nvals = prolong(x1.coeffs, fn + gn - 1, x1.isReal)
+        # prolong: enough modes for the product also when a length is even
+        nprod = 2 * (fn // 2 + gn // 2) + 1
+        ncoeffs, nvals = prolong(x1.coeffs, nprod, x1.isReal)
 
         # check dimensions
         if fm != gm:
@@ -240,7 +241,7 @@ def multiply(x1, x2, **kwargs):
             v = np.conj(nvals) * nvals
             pos = True
         else:
-            gcoeffs, gvals = prolong(x2.coeffs, fn + gn - 1, x2.isReal)
+            gcoeffs, gvals = prolong(x2.coeffs, nprod, x2.isReal)
             v = nvals * gvals
 
         # Compute values and coefficients of result
-- 
2.43.0


From 7b0a2b5bd8da040454455de390f093a482b49b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 28/86] fix: squaring a trigtech in place keeps complex arrays

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 2b90138..52a70ae 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -256,7 +256,7 @@ def multiply(x1, x2, **kwargs):
         # TODO
         if pos:
             # when the product should be positive make sure it is after call to simplify
-            v = np.abs(v)
+            v = np.abs(v).astype(complex)
             c = vals2coeffs(v)
             is_real = np.ones(c.shape[1]).astype(bool)
         else:
-- 
2.43.0


From a2d80f31d8f69115627d7d05f3f4929e55f069a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 29/86] fix: derivative of order zero of a chebtech

---
 funpy/cheb/chebtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 66d6ab3..ecdaadb 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -494,8 +494,7 @@ def diff(cheb, n=1, axis=0):
                        ishappy=cheb.ishappy, maxLength=cheb.maxLength)
 
     # Iteratively compute the coefficients of the derivatives
-    c = computeDerCoeffs(c)
-    for _ in range(1, n):
+    for _ in range(n):
         c = computeDerCoeffs(c)
 
     # This returns a chebtech that has only N - k Chebyshev coefficients
-- 
2.43.0


From 0a50a310553c691dd41410f1904cb8f15642bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 30/86] fix: functions on different domains cannot be stacked

---
 funpy/fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 8d2f5b3..b6d0530 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -583,6 +583,9 @@ def roll(f, a):
 
 @implements(np.hstack)
 def hstack(funs):
+    for f in funs[1:]:
+        if not np.all(np.abs(np.asarray(f.domain) - np.asarray(funs[0].domain)) < SMALL_EPS):
+            raise ValueError("Domain mismatch %s != %s!" % (f.domain, funs[0].domain))
     nf = np.hstack([f.onefun for f in funs])
     return Fun(domain=funs[0].domain, mapping=funs[0].mapping, onefun=nf)
 
-- 
2.43.0


From 096d83a6db698914885ebe093d115f7a50fec31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 31/86] fix: the happiness test of a trigtech looks at positive
 and negative modes

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index fca0c3d..1fb37ef 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -336,7 +336,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         cutoff = np.zeros(m).astype(int)
         for k in range(m):
             # FIXME!
-            cutoff[k] = standardChopCmplx(np.asfortranarray(self.coeffs[:, k]), tol[k])
+            cutoff[k] = standardChopCmplx(np.asfortranarray(coeffs[:, k], dtype=complex), tol[k])
             # check if happy - TODO: check this for numpy adaptation
             ishappy[k] = (cutoff[k] < n)
 
-- 
2.43.0


From 45a1381e7340ffa3c65b51e3c20c2ca7734b0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 32/86] fix: converting between ultraspherical bases leaves the
 input coefficients alone

---
 funpy/ultra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/ultra.py b/funpy/ultra.py
index 0084bd4..efa48b1 100644
--- a/funpy/ultra.py
+++ b/funpy/ultra.py
@@ -65,6 +65,7 @@ def DownJacobiConversion(v, a, b):
 
 def RightJacobiConversion(v, a, b):
     """ Convert Jacobi (alpha, beta) -> (alpha+1, beta) """
+    v = np.copy(v)
     v[1::2] = -v[1::2]
     v = UpJacobiConversion(v, b, a)
     v[1::2] = -v[1::2]
@@ -73,6 +74,7 @@ def RightJacobiConversion(v, a, b):
 
 def LeftJacobiConversion(v, a, b):
     """ Convert Jacobi (alpha+1, beta) -> (alpha, beta) """
+    v = np.copy(v)
     v[1::2] = -v[1::2]
     v = DownJacobiConversion(v, b, a)
     v[1::2] = -v[1::2]
@@ -92,9 +94,9 @@ def scl(lam, n):
 
 def ultra2ultra(c, lam_in, lam_out):
     n = len(c) - 1
-    c /= scl(lam_in, n)[:, None]
+    c = c / scl(lam_in, n)[:, None]
     c = jac2jac(c, lam_in - 0.5, lam_in - 0.5, lam_out - 0.5, lam_out - 0.5)
-    c *= scl(lam_out, n)[:, None]
+    c = c * scl(lam_out, n)[:, None]
 
     # FIXME!
     if c.shape[0] - 1 != n:
-- 
2.43.0


From 9a631c63265c9ffe4e2ca8e0d5a3592024413ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 33/86] fix: large symmetric Toeplitz matrices with a zero
 diagonal keep their first upper diagonal

---
 funpy/colloc/ultraS/transform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 82053d8..b917a48 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -39,9 +39,10 @@ def sptoeplitz_fast(col, format=None):
         # locate non-zero diagonals
         ic, jc, sc = find(col)
 
-        # use spdiags for construction
-        d = np.hstack((ic[1:], -ic))
-        B = np.tile(np.hstack((sc[1:], sc)), (n, 1)).T
+        # use spdiags for construction (the main diagonal may be zero)
+        off = ic > 0
+        d = np.hstack((ic[off], -ic))
+        B = np.tile(np.hstack((sc[off], sc)), (n, 1)).T
         T = spdiags(B, d, n, n, format=format)
 
     return T
-- 
2.43.0


From 25fe38f44a3a7c4729f35bbc01fe472568de319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 34/86] fix: negating, scaling and adding operators with
 integral terms; scalar multiples of operators

---
 funpy/colloc/quasiOp.py      |  8 +++-----
 funpy/colloc/quasiOpBlock.py | 28 +++++++++-------------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/funpy/colloc/quasiOp.py b/funpy/colloc/quasiOp.py
index 622e54b..0e1dc25 100644
--- a/funpy/colloc/quasiOp.py
+++ b/funpy/colloc/quasiOp.py
@@ -47,14 +47,12 @@ class QuasiOp:
         return self.__add__(-other)
 
     def __mul__(self, other):
-        if not self.shape == other.shape:
-            raise ValueError("Shape mismatch! %s != %s." % (self.shape, other.shape))
-
+        """ Scalar multiplication in the vector space of operators! """
         new_blocks = np.empty(self.shape, dtype=object)
         for i, j in np.ndindex(self.shape):
-            new_blocks[i, j] = self.blocks[i, j] + other.blocks[i, j]
+            new_blocks[i, j] = self.blocks[i, j] * other
 
         return QuasiOp(blocks=new_blocks)
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index eeebd75..5deea92 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -74,18 +74,16 @@ class QuasiOpBlock:
         else:
             nl_new_coeffs = np.empty(1, dtype=object)
 
-        # add integral operators
+        # the integral operators c(x) ∫ d(x) u(x) dx are linear in c(x)
         new_icoeffs = None
         new_integrand = None
 
         if self.has_nonlocal:
             new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
             for i in range(self.icoeffs.size):
-                new_icoeffs = -self.icoeffs[i]
+                new_icoeffs[i] = -self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand = -self.integrand[i]
+            new_integrand = np.copy(self.integrand)
 
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
@@ -121,13 +119,9 @@ class QuasiOpBlock:
         # see whether we need to add or just take the one that has one!
         # TODO: Should we just by default set the coefficient to zero?
         if self.has_nonlocal and other.has_nonlocal:
-            new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
-            for i in range(self.icoeffs.size):
-                new_icoeffs[i] = other.icoeffs[i] + self.icoeffs[i]
-
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other.integrand[i] + self.integrand[i]
+            # the integral operators are applied one after the other
+            new_icoeffs = np.concatenate((self.icoeffs, other.icoeffs))
+            new_integrand = np.concatenate((self.integrand, other.integrand))
 
         elif self.has_nonlocal and not other.has_nonlocal:
             new_icoeffs = self.icoeffs
@@ -175,15 +169,11 @@ class QuasiOpBlock:
             for i in range(self.icoeffs.size):
                 new_icoeffs[i] = other * self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other * self.integrand[i]
+            new_integrand = np.copy(self.integrand)
 
-        new_info = self.info() | other.info()
-        new_nl_info = self.nl_info() | other.nl_info()
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
-                            info=new_info, nl_info=new_nl_info)
+                            info=self.info(), nl_info=self.nl_info())
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
-- 
2.43.0


From efe12118fd24bcd8700dde2cbbc818cf34dc8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 35/86] fix: building a functional leaves the function alone

---
 funpy/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 75f07c7..a03765d 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
 import numpy as np
 
 from .cheb import polyval
@@ -19,10 +20,10 @@ class Functional:
 
         n = kwargs.pop('n', None)
         if n is not None:
-            function = function.prolong(n)
+            function = deepcopy(function).prolong(n)
 
         if weighted:
-            self.coeffs = np.asarray(function)
+            self.coeffs = np.array(np.asarray(function))
             self.coeffs[0] *= np.pi
             self.coeffs[1:] *= 0.5 * np.pi
 
-- 
2.43.0


From 0648035f806f457bb96919296e182ab62aa387a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 36/86] fix: projecting a function leaves the function alone

---
 funpy/colloc/trigspec/trigspec.py | 2 +-
 funpy/colloc/ultraS/ultraS.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/trigspec/trigspec.py b/funpy/colloc/trigspec/trigspec.py
index 233dff7..7cef8d7 100644
--- a/funpy/colloc/trigspec/trigspec.py
+++ b/funpy/colloc/trigspec/trigspec.py
@@ -176,7 +176,7 @@ class trigspec(coeffsDiscretization):
 
         """
         if isinstance(vector, Fun):
-            vector = vector.prolong(self.source.dshape[0]).flatten()
+            vector = vector.prolong_coeffs(self.source.dshape[0]).flatten(order='F')
 
         if basis:
             arr = np.atleast_1d(self.projection._matvec(vector))
diff --git a/funpy/colloc/ultraS/ultraS.py b/funpy/colloc/ultraS/ultraS.py
index b2ab63e..8ce1d63 100644
--- a/funpy/colloc/ultraS/ultraS.py
+++ b/funpy/colloc/ultraS/ultraS.py
@@ -282,7 +282,7 @@ class ultraS(coeffsDiscretization):
 
         """
         if isinstance(vector, Fun):
-            vector = vector.prolong(self.source.dshape[0]).flatten()
+            vector = vector.prolong_coeffs(self.source.dshape[0]).flatten(order='F')
 
         if basis:
             arr = np.atleast_1d(self.projection._matvec(vector))
-- 
2.43.0


From bd5ea47579ad28230d8aed78e6c9fd4559f8880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 37/86] fix: linear functionals use the parameter they are
 asked for

---
 funpy/colloc/linearFunctional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/linearFunctional.py b/funpy/colloc/linearFunctional.py
index 28523dc..eae3fae 100644
--- a/funpy/colloc/linearFunctional.py
+++ b/funpy/colloc/linearFunctional.py
@@ -88,4 +88,4 @@ class linearFunctional:
         return np.hstack([func(*u, *up) for func in self.functions])
 
     def __call__(self, u, up, pname=None, *args, **kwargs):
-        return self._call(u, up, *args, **kwargs)
+        return self._call(u, up, pname=pname, *args, **kwargs)
-- 
2.43.0


From 180588e1400f726586af784b51bf90e8b78e9a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 38/86] fix: number * Residual

---
 funpy/colloc/rhs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/rhs.py b/funpy/colloc/rhs.py
index 0a7129d..12bb1eb 100644
--- a/funpy/colloc/rhs.py
+++ b/funpy/colloc/rhs.py
@@ -81,7 +81,7 @@ class Residual:
         return Residual(self.ns, n_disc=self.n_disc, values=other * self.values)
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
 
     def __iadd__(self, other):
         raise RuntimeError("+= is not allowed for LinBlock!")
-- 
2.43.0


From 0175aed3287afc75ad6c5438131001dfe59e1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 39/86] fix: real part, imaginary part and conjugate of states
 with unequal numbers of functions and parameters

---
 funpy/vectorspaces/base_state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 42cb9f4..a2724e5 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -403,10 +403,10 @@ def real(state):
     nfuncs = np.empty_like(state.funcs)
 
     for i in range(n):
-        nreals[i] = np.real(state.reals[i])
+        nfuncs[i] = np.real(state.funcs[i])
 
     for i in range(m):
-        nfuncs[i] = np.real(state.funcs[i])
+        nreals[i] = np.real(state.reals[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
 
@@ -418,10 +418,10 @@ def imag(state):
     nfuncs = np.empty_like(state.funcs)
 
     for i in range(n):
-        nreals[i] = np.imag(state.reals[i])
+        nfuncs[i] = np.imag(state.funcs[i])
 
     for i in range(m):
-        nfuncs[i] = np.imag(state.funcs[i])
+        nreals[i] = np.imag(state.reals[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
 
@@ -433,10 +433,10 @@ def conj(state):
     nfuncs = np.empty_like(state.funcs)
 
     for i in range(n):
-        nreals[i] = np.conj(state.reals[i])
+        nfuncs[i] = np.conj(state.funcs[i])
 
     for i in range(m):
-        nfuncs[i] = np.conj(state.funcs[i])
+        nreals[i] = np.conj(state.reals[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
 
-- 
2.43.0


From 06549b655a67c41116865c7b3f89142225775941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 40/86] fix: states keep their inner product weights in
 arithmetic, copies have their own

---
 funpy/vectorspaces/base_state.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index a2724e5..5d1a0c8 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -248,7 +248,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 funcs=deepcopy(self.funcs, memo),
                 reals=deepcopy(self.reals, memo),
-                weights=self.weights,
+                weights=deepcopy(self.weights, memo),
                 ns=deepcopy(self.ns, memo))
             memo[id_self] = _copy
         return _copy
@@ -306,7 +306,8 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     nfuncs[i] = numpy_ufunc(*tlist)
 
-                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns)
+                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns,
+                                  weights=np.copy(self.weights))
         else:
             return NotImplemented
 
@@ -330,7 +331,7 @@ def zeros_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.zeros_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals, weights=np.copy(state.weights))
 
 
 @implements(np.ones_like)
@@ -344,7 +345,7 @@ def ones_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.ones_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals, weights=np.copy(state.weights))
 
 
 @implements(np.dot)
@@ -408,7 +409,8 @@ def real(state):
     for i in range(m):
         nreals[i] = np.real(state.reals[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns,
+                       weights=np.copy(state.weights))
 
 
 @implements(np.imag)
@@ -423,7 +425,8 @@ def imag(state):
     for i in range(m):
         nreals[i] = np.imag(state.reals[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns,
+                       weights=np.copy(state.weights))
 
 
 @implements(np.conj)
@@ -438,7 +441,8 @@ def conj(state):
     for i in range(m):
         nreals[i] = np.conj(state.reals[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns,
+                       weights=np.copy(state.weights))
 
 
 @implements(np.sum)
-- 
2.43.0


From 8736545818da8dabd2d3f16cfc898fc3fd547ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 41/86] fix: real and imaginary part of a chebtech do not share
 its coefficients

---
 funpy/cheb/chebtech.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index ecdaadb..91fa767 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -455,7 +455,7 @@ def argmax(f):
 @implements(np.real)
 def real(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.real(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.real(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
@@ -463,7 +463,7 @@ def real(cheb):
 @implements(np.imag)
 def imag(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.imag(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.imag(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
-- 
2.43.0


From 895172a9db2a1d56cdb8ae4c2b0d19e03860f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 42/86] fix: a column selected from a chebtech does not share
 its coefficients

---
 funpy/cheb/chebtech.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 91fa767..fb90c42 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -219,7 +219,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx.start < 0 or idx.stop > self.m:
                 raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(idx.start, idx.stop, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, idx], eps=self.eps,
+            return chebtech(coeffs=np.copy(self.coeffs[:, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
 
@@ -227,7 +227,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx < 0 or idx >= self.m:
                 raise IndexError("The index {0:d} is out of range ({1:d})!".format(idx, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, None, idx], eps=self.eps,
+            return chebtech(coeffs=np.copy(self.coeffs[:, None, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
         else:
-- 
2.43.0


From aa9fa7016f7b4228584ce12fc07e059de08f4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 43/86] fix: updating a border of BEMW leaves the caller's
 lists alone

---
 funpy/linalg/bemw_solve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/bemw_solve.py b/funpy/linalg/bemw_solve.py
index 1e3a13d..ec8d4ce 100644
--- a/funpy/linalg/bemw_solve.py
+++ b/funpy/linalg/bemw_solve.py
@@ -32,9 +32,10 @@ class BEMW:
 
         # Main storage
         self.solver = solver
-        self.bs = bs
-        self.cs = cs
-        self.ds = ds
+        # our own lists: update_row and update_col replace entries
+        self.bs = list(bs)
+        self.cs = list(cs)
+        self.ds = list(ds)
 
         # Storage for data computed by this class
         self.storage = None
-- 
2.43.0


From 40326475ee83ac11cd5a17a859d602899978173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 44/86] fix: sign of the log-determinant uses both the row and
 the column permutation

---
 funpy/linalg/helpers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index eb4ead7..b29babb 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -42,7 +42,7 @@ def logdet_detail_superlu(lu):
 
     logdet = np.log(diagL).sum() + np.log(diagU).sum()
 
-    swap_sign = minimumSwaps(lu.perm_r)
+    swap_sign = minimumSwaps(lu.perm_r) + minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
@@ -55,10 +55,7 @@ def logdet_detail_umfpack(lu):
 
     logdet = np.log(diagL).sum() + np.log(diagU).sum() + np.log(diagR).sum()
 
-    swap_sign = minimumSwaps(lu.perm_r)
-    sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
-
-    swap_sign = minimumSwaps(lu.perm_c)
+    swap_sign = minimumSwaps(lu.perm_r) + minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
-- 
2.43.0


From c7b80419fa00b9164b1e946fc6abcfe525ad91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 45/86] fix: determinant of upper Hessenberg matrices

---
 funpy/linalg/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index b29babb..2e9c9c7 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -191,11 +191,11 @@ def detH(A):
     for k in range(1, n):
         # Update the products
         for j in range(k):
-            p[j] *= d[j] * A[k, k-1]
+            p[j] *= A[k, k-1]
 
-        d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k])
+        d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k] * d[:k])
 
-    return d[k+1]
+    return d[n]
 
 
 class Determinant:
-- 
2.43.0


From b7ba8d6dd4279cc7d42da39222a19aace18adc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 46/86] fix: Determinant.det computes the determinant when it
 is not known yet

---
 funpy/linalg/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index 2e9c9c7..613da51 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -210,4 +210,5 @@ class Determinant:
         return self.sign, self.logdet
 
     def det(self):
-        return self.sign * np.exp(self.logdet)
+        sign, logdet = self()
+        return sign * np.exp(logdet)
-- 
2.43.0


From 5bebab8e968347c5e28805435e1ddabfed176b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 47/86] fix: lucp leaves the matrix alone

---
 funpy/linalg/lucp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index 698f92f..032b61b 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -30,6 +30,9 @@ def lucp(A, tol=1e-8, full=False, format='csr'):
     else:
         dtype = A.dtype
 
+    # the elimination is done in place
+    A = np.array(A, dtype=dtype)
+
     # pivot vectors
     p = np.arange(0, n, 1, dtype=np.int64)
     q = np.arange(0, m, 1, dtype=np.int64)
-- 
2.43.0


From bab1fba2d5c13bd004bd1ea5bc17c32b59d0c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 48/86] fix: null vectors undo the pivoting of the LU
 decomposition

---
 funpy/linalg/nullspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index f485dd0..eb033a4 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -41,8 +41,8 @@ def null_vector(A, right=True, left=False, normalize=True):
         # then we must solve: Ustar = nu = u
         spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
 
-        # now to compute phi we have to multiply by Q
-        phi = phi[Q]  # Q.dot(phi)
+        # now to compute phi we have to multiply by Q (A[:, Q] phi = 0)
+        phi = phi[np.argsort(Q)]
 
         if normalize:
             phi /= np.linalg.norm(phi, ord=2)
@@ -60,7 +60,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
 
         # now to compute psi we have to multiply by P^-1
-        psi = P.T.dot(psi)
+        psi = psi[np.argsort(P)]
 
         if normalize:
             psi /= np.linalg.norm(psi, ord=2)
-- 
2.43.0


From b8f2e0e2088bbee89661f20c0c34c24dc033e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 49/86] fix: pseudo inverse solves with more than one missing
 rank

---
 funpy/linalg/qr_chol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index 03aae1b..c6f0314 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -193,8 +193,9 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        # (the Cholesky factor is upper triangular: M = L^T L)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
@@ -222,8 +223,9 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        # (the Cholesky factor is upper triangular: M = L^T L)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
-- 
2.43.0


From 05b536a7492faf9b960250d5e2f003a2a023b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 50/86] fix: ExactLinearSolver with the QR method

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 7e36bf7..fd62c7f 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -29,7 +29,7 @@ class ExactLinearSolver:
         elif method == 'lu' and not sparse:
             self.solver = DenseLUSolver(A, *args, **kwargs)
         elif method == 'qr':
-            self.solver = QRCholesky(A, rank=self.A.shape[0], *args, **kwargs)
+            self.solver = QRCholesky(A, rank=A.shape[0], *args, **kwargs)
         else:
             raise RuntimeError(f'Unknown exact linear solver {method} requested!')
 
-- 
2.43.0


From 5e98f2d3c757ff23d9c776c3beaccda363b9b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 51/86] fix: null vectors use the solution of the triangular
 systems

---
 funpy/linalg/nullspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index eb033a4..f524c7f 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -39,7 +39,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         phi[:m-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Ustar = nu = u
-        spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        phi[:m-1] = spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False)
 
         # now to compute phi we have to multiply by Q (A[:, Q] phi = 0)
         phi = phi[np.argsort(Q)]
@@ -57,7 +57,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         psi[:m-1] = L_dual.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Lstar w = l
-        spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        psi[:m-1] = spsolve_triangular(L_dual[:n-1, :m-1].tocsr(), psi[:m-1], lower=False)
 
         # now to compute psi we have to multiply by P^-1
         psi = psi[np.argsort(P)]
-- 
2.43.0


From fc2fcdaea63eeb2961f96b51d98427bd5597b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 52/86] fix: FoldSolver keeps the last entry of the right hand
 side

---
 funpy/linalg/fold_solve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/fold_solve.py b/funpy/linalg/fold_solve.py
index fb2c4c1..37de8ed 100644
--- a/funpy/linalg/fold_solve.py
+++ b/funpy/linalg/fold_solve.py
@@ -69,6 +69,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -93,7 +94,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bφ)
         η = self.solver.particular(b)
-        β = (x[n - 1] - np.dot(φ, η)) / np.dot(φ, φ)
+        β = (h - np.dot(φ, η)) / np.dot(φ, φ)
         y = η + β * φ
 
         return np.hstack((x, y, z))
@@ -117,6 +118,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -141,7 +143,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bψ)
         χ = self.solver.particular_adj(b)
-        β = (x[n - 1] - np.dot(self.c1, x) - np.dot(self.c2, η)) / np.dot(self.c2, ψ)
+        β = (h - np.dot(self.c1, χ) - np.dot(self.c2, y)) / np.dot(self.c1, ψ)
         x = χ + β * ψ
 
         return np.hstack((x, y, z))
-- 
2.43.0


From 612e5744b9940f1ffd18f4af468dbf3be2012ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 53/86] fix: delete_row_csr drops the last n column indices,
 not the first i+1

---
 funpy/colloc/sparse/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 704e974..0cf8bb0 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -26,7 +26,7 @@ def delete_row_csr(mat, i):
         mat.data[mat.indptr[i]:-n] = mat.data[mat.indptr[i+1]:]
         mat.data = mat.data[:-n]
         mat.indices[mat.indptr[i]:-n] = mat.indices[mat.indptr[i+1]:]
-        mat.indices = mat.indices[i+1:]
+        mat.indices = mat.indices[:-n]
     mat.indptr[i:-1] = mat.indptr[i+1:]
     mat.indptr[i:] -= n
     mat.indptr = mat.indptr[:-1]
-- 
2.43.0


From 05d9b59941e703b28881595527fc89d87d5a7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 54/86] fix: delete_cols_csc removes a column named twice only
 once

---
 funpy/colloc/sparse/csc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index f2c5ceb..63841c7 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -41,7 +41,7 @@ def delete_cols_csc(mat, indices):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     if not (isinstance(indices, list) or isinstance(indices, np.ndarray)):
         indices = [indices]
-    for index in sorted(indices, reverse=True):
+    for index in sorted(set(indices), reverse=True):
         delete_col_csc(mat, index)
     return mat
 
-- 
2.43.0


From 8645a8b9c325abb6c546502a34ffb04100f80987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 55/86] fix: FrechetDeflated applies its matrix through the
 public interface

---
 funpy/newton/FrechetDeflated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/FrechetDeflated.py b/funpy/newton/FrechetDeflated.py
index 8f7e5b5..32b1226 100644
--- a/funpy/newton/FrechetDeflated.py
+++ b/funpy/newton/FrechetDeflated.py
@@ -50,13 +50,13 @@ class FrechetDeflated(LinearOperator):
         """
         # If no known solutions we bail and simply compute the regular part
         if self.functional is None:
-            return self.mat._mul_vector(x)
+            return self.mat.dot(x)
 
         # Compute the derivative of eta
         deta = self.functional(x)
 
         # The b here should be just F(u)
-        return self.eta * self.mat._mul_vector(x) + self.b * deta
+        return self.eta * self.mat.dot(x) + self.b * deta
 
     def _rmatvec(self, y):
         assert False, ''
-- 
2.43.0


From d3278dd2c0aa3e263c965db72258aaff7f637c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 56/86] fix: FrechetDeflatedPrecond is the inverse of the
 deflated operator (Sherman-Morrison)

---
 funpy/newton/FrechetDeflatedPrecond.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/FrechetDeflatedPrecond.py b/funpy/newton/FrechetDeflatedPrecond.py
index f396baf..3e64c6e 100644
--- a/funpy/newton/FrechetDeflatedPrecond.py
+++ b/funpy/newton/FrechetDeflatedPrecond.py
@@ -25,8 +25,9 @@ class FrechetDeflatedPrecond(LinearOperator):
             self.denom = self.__compute_denom()
 
     def __compute_denom(self):
-        # compute the values for the inner-product
-        return self.eta**2 + self.functional(self.b)
+        # P_F^{-1} F and the denominator of the rank-one update
+        self.Pb = self.Pf.solve(self.b)
+        return self.eta + self.functional(self.Pb)
 
     def _matvec(self, x):
         """
@@ -40,7 +41,7 @@ class FrechetDeflatedPrecond(LinearOperator):
             return self.Pf.solve(x)
 
         term1 = self.Pf.solve(x)
-        term2 = self.b * (self.functional(term1) / self.denom)
+        term2 = self.Pb * (self.functional(term1) / self.denom)
         return (term1 - term2) / self.eta
 
     def _rmatvec(self, x):
-- 
2.43.0


From 6a9798aef60aed575da64027907dacd0c7cd6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 57/86] fix: deflation derivative uses a callable functional,
 exact on coefficient vectors

---
 funpy/newton/deflation.py   |  3 ++-
 funpy/support/Functional.py | 17 +++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/funpy/newton/deflation.py b/funpy/newton/deflation.py
index f666fe3..b27594b 100644
--- a/funpy/newton/deflation.py
+++ b/funpy/newton/deflation.py
@@ -3,7 +3,8 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 
-from ..fun import h1norm, Functional
+from ..fun import h1norm
+from ..support import Functional
 
 
 def deflation(u, known_solutions=[], shift=1.0, power=2.0):
diff --git a/funpy/support/Functional.py b/funpy/support/Functional.py
index a556242..8e5b5a2 100644
--- a/funpy/support/Functional.py
+++ b/funpy/support/Functional.py
@@ -1,10 +1,11 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
 import numpy as np
 
 from ..fun import Fun
-from ..cheb import polyval
+from ..cheb import polyval, quadwts
 from ..cheb import computeDerCoeffs
 
 
@@ -28,19 +29,20 @@ class Functional:
 
         # transform the value of f(x) to coefficient representation
         if self.basis == 'coeff':
-            from cheb.chebpts import quadwts
             self.rhs = np.empty(self.dorder + 1, dtype=object)
             self.diff = self.diff_cheb
 
             for order in range(self.dorder + 1):
                 rhs = np.empty(f.m, dtype=object)
 
-                # get the integration weights
-                w = quadwts(f.n)
+                # get the integration weights: the product with another
+                # function of the same length must be resolved
+                n, g = f.n, deepcopy(f).prolong(2 * f.n)
+                w = quadwts(2 * n)
 
                 # iterate over the columns of f
-                for j, col in enumerate(f):
-                    rhs[j] = np.rot90(polyval(np.rot90(w * col.values.T)), -1)
+                for j, col in enumerate(g):
+                    rhs[j] = np.rot90(polyval(np.rot90(w * col.values.T)), -1)[:, :n]
                 self.rhs[order] = np.hstack(rhs) * rescaleFactor
 
                 # Differentiate - the factor is already taking care of the scaling required for the
@@ -49,7 +51,6 @@ class Functional:
                     f = (np.diff(f) / rescaleFactor).prolong(max(1, f.n-1))
 
         elif self.basis == 'trigspec':
-            from trig.trigpts import quadwts
             self.rhs = np.empty(self.dorder + 1, dtype=object)
             self.diff = self.diff_trig
 
@@ -119,7 +120,7 @@ class Functional:
 
     def __call__(self, u):
         """ Implements (f, u) """
-        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape)
+        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape, order='F')
         iproduct = np.dot(self.rhs[0], coeffs.flatten(order='F'))
 
         for order in range(self.dorder):
-- 
2.43.0


From a5a5bcb250419656b3f37837d421a49fc45ee5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 58/86] fix: deflation derivative keeps the part of known
 solutions longer than the iterate

---
 funpy/newton/deflation.py   | 2 +-
 funpy/support/Functional.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/deflation.py b/funpy/newton/deflation.py
index b27594b..d85525d 100644
--- a/funpy/newton/deflation.py
+++ b/funpy/newton/deflation.py
@@ -40,7 +40,7 @@ def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, basis='
     function *= -power * eta
 
     # Make sure that function has the correct shape
-    if abs(function.shape[0] - u.shape[0]) > 0:
+    if function.shape[0] < u.shape[0]:
         function.prolong(u.shape[0])
 
     # create Functional representing the derivative of eta
diff --git a/funpy/support/Functional.py b/funpy/support/Functional.py
index 8e5b5a2..84ce2ea 100644
--- a/funpy/support/Functional.py
+++ b/funpy/support/Functional.py
@@ -120,7 +120,10 @@ class Functional:
 
     def __call__(self, u):
         """ Implements (f, u) """
-        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape(self.shape, order='F')
+        coeffs = u.coeffs if isinstance(u, Fun) else u.reshape((-1, self.shape[1]), order='F')
+        if self.basis == 'coeff' and coeffs.shape[0] < self.shape[0]:
+            coeffs = np.pad(coeffs, ((0, self.shape[0] - coeffs.shape[0]), (0, 0)))
+
         iproduct = np.dot(self.rhs[0], coeffs.flatten(order='F'))
 
         for order in range(self.dorder):
-- 
2.43.0


From cbc0570182a44dc92838051ccea6354841bcdb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 59/86] fix: newton_standard imports warnings for its failure
 report

---
 funpy/newton/newton_standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index e7f5ead..708a6fb 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from math import sqrt
+import warnings
 import numpy as np
 
 
-- 
2.43.0


From 0e49e9272365bbdc60a0305c3caf94c6e6b34e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 60/86] fix: qnerr returns all six values when it stops early

---
 funpy/newton/qnerr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2e7d4d4..fbb47e9 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -69,7 +69,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
                                    RuntimeWarning)
             newton_success = False
             if not nleqcalled: newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
         sigma[0] = normdx
@@ -82,7 +82,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         if not success_callback:
             if verb: warnings.warn(f'QNERR: Failed callback indicates STOP after {k} iterations!')
             newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
     else:
         assert dx0 is not None, ''
         nsystem = NewtonSystem
-- 
2.43.0


From 40fc2c746e56135ef2e310907e9458cb7deae622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 61/86] fix: qnerr starts from the squared norm of the first
 correction

---
 funpy/newton/qnerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index fbb47e9..b6ee2f4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -72,7 +72,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
             return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
-        sigma[0] = normdx
+        sigma[0] = normdx**2
         dx[0] = dxk
 
         # default value
-- 
2.43.0


From 737b1df44f1ef7982ee463dceadeb81d0980cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 62/86] fix: qnerr performs no more than miter iterations

---
 funpy/newton/nleq_err.py | 2 +-
 funpy/newton/qnerr.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index 43ecc63..29a97db 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -228,7 +228,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
             x, success, kp, normdx, neval_p, _ = qnerr(
                 nsystem, x, itr=k, dx0=dx, tol=tol, dtype=dtype,
                 inner=inner, callback=callback,
-                precond=precond, theta_max=theta_max, miter=miter-k+1,
+                precond=precond, theta_max=theta_max, miter=miter-k,
                 nleqcalled=True, op_kwargs=op_kwargs, *args, **kwargs)
 
             # update local iteration data
diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index b6ee2f4..03f1b04 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -96,7 +96,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         sigma[0] = normdx**2
         dx[0] = dx0
 
-    while not newton_success and k <= miter:
+    while not newton_success and k < miter:
         if not skipstep:
             x += dx[k]
 
-- 
2.43.0


From b329c59c6044dfb692453c3786862ccd5459e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 63/86] fix: giant_gbit returns the accepted iterate plus the
 last correction

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index bac7cbc..ab3626a 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -198,7 +198,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
-                    x += dxbar
+                    x = xkp1 + dxbar
                     precision = normdxbar
                     # RETURN SUCCESS
                     rcode = 0
-- 
2.43.0


From c1b23d635a6a3ae307c35dc709adf9e4ab5a6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 64/86] fix: giant_gbit performs no more than max_iter
 iterations

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index ab3626a..afb2d8b 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -76,7 +76,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
     # Main iteration loop
     k = 0
     rcode = 2
-    while k <= max_iter and rcode == 2:
+    while k < max_iter and rcode == 2:
         # Do something with jac? -> Compute jacobian
         nsystem = NewtonSystem(x)
         linOp, precd, proj = nsystem.matrix(precond=True)
-- 
2.43.0


From c70422bf34c45f95820751b986abb9a86f1c826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 65/86] fix: deep copies of Chebyshev functions keep the
 happiness flag

---
 funpy/cheb/chebtech.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index fb90c42..b8b44a4 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -91,6 +91,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
+            # The constructor re-evaluates the happiness of unhappy functions
+            _copy.ishappy = self.ishappy
             memo[id_self] = _copy
         return _copy
 
-- 
2.43.0


From 51680cea2bc97dd99ac1e312f5ecc3e926938cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 66/86] fix: deep copies of a mapping use their own interval

---
 funpy/mapping.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/funpy/mapping.py b/funpy/mapping.py
index 993bcee..5405721 100644
--- a/funpy/mapping.py
+++ b/funpy/mapping.py
@@ -1,6 +1,8 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
+
 import numpy as np
 
 class Mapping(object):
@@ -12,7 +14,8 @@ class Mapping(object):
         self.der = kwargs.pop('der', None)
         self.bwd = kwargs.pop('bwd', None)
 
-        if self.fwd is None or self.der is None or self.bwd is None:
+        self.linear = self.fwd is None or self.der is None or self.bwd is None
+        if self.linear:
             self.__linear(ends)
 
     def __linear(self, ends):
@@ -31,6 +34,13 @@ class Mapping(object):
     def __call__(self, x):
         return self.fwd(x)
 
+    def __deepcopy__(self, memo):
+        # The maps of a linear mapping refer to its own ends
+        ends = deepcopy(self.ends, memo)
+        if self.linear:
+            return type(self)(ends=ends)
+        return type(self)(ends=ends, fwd=self.fwd, der=self.der, bwd=self.bwd)
+
     def __repr__(self):
         return f"{self.__class__.__name__}(ends={self.ends})"
 
-- 
2.43.0


From 2be84f6566c362421ed62efbf0bc6f79cd640d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 67/86] fix: deep copies of a parameter own their value

---
 funpy/vectorspaces/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/vectorspaces/parameter.py b/funpy/vectorspaces/parameter.py
index 5ee1dd2..d6f5a61 100644
--- a/funpy/vectorspaces/parameter.py
+++ b/funpy/vectorspaces/parameter.py
@@ -1,6 +1,8 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
+
 import numpy as np
 from numbers import Number
 
@@ -26,7 +28,7 @@ class Parameter(np.lib.mixins.NDArrayOperatorsMixin):
         id_self = id(self)
         _copy = memo.get(id_self)
         if _copy is None:
-            _copy = type(self)(**{self.name: self.value})
+            _copy = type(self)(**{self.name: deepcopy(self.value, memo)})
             memo[id_self] = _copy
         return _copy
 
-- 
2.43.0


From d2e7085fffdea91c44dae8c2d343af084038d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 68/86] fix: deep copies of Fourier functions keep their values
 exactly

---
 funpy/trig/trigtech.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1fb37ef..979d690 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -114,6 +114,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 values=deepcopy(self.values),
                 eps=self.eps, hscale=self.hscale,
                 vscale=self.vscale)
+            # The constructor may drop small imaginary parts of the values
+            _copy.values = deepcopy(self.values)
             _copy.maxLength = self.maxLength
             _copy.ishappy = self.ishappy
             _copy.isReal = deepcopy(self.isReal)
-- 
2.43.0


From 4f4a639b8baa339f015665566e6edb9e99881a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 69/86] fix: Fourier functions can be written to and read from
 HDF5

---
 funpy/trig/trigtech.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 979d690..421725d 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -105,6 +105,16 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         else:
             assert False, 'Don\'t know what to do with this!'
 
+    @classmethod
+    def from_hdf5(cls, hdf5_file):
+        coeffs = np.asfortranarray(hdf5_file[:])
+        func = cls(coeffs=coeffs, eps=hdf5_file.attrs["eps"],
+                   hscale=hdf5_file.attrs["hscale"],
+                   vscale=hdf5_file.attrs["vscale"])
+        func.maxLength = hdf5_file.attrs["maxLength"]
+        func.ishappy = hdf5_file.attrs["ishappy"]
+        return func
+
     def __deepcopy__(self, memo):
         id_self = id(self)
         _copy = memo.get(id_self)
@@ -420,6 +430,14 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
     def feval(self, x):
         return self.horner(x)
 
+    def writeHDF5(self, fh):
+        fd = fh.create_dataset('poly', data=self.coeffs)
+        fd.attrs["eps"] = self.eps
+        fd.attrs["hscale"] = self.hscale
+        fd.attrs["vscale"] = self.vscale
+        fd.attrs["maxLength"] = self.maxLength
+        fd.attrs["ishappy"] = self.ishappy
+
     def horner(self, x):
         x = np.atleast_1d(x)
         return horner(x, self.coeffs, self.isReal).squeeze()
-- 
2.43.0


From ca5a90c1c11801f86244618692b2174933d096c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 70/86] fix: the one-point Chebyshev grid is scaled to the
 interval

---
 funpy/cheb/pts.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 123da49..0a5b66a 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -114,10 +114,14 @@ def chebpts_type1(N, interval=None):
         v = []
         t = []
     elif N == 1:
-        x = [0]
-        w = [2]
+        x = np.array([0.])
+        w = np.array([2.])
         v = [1]
         t = [0.5 * np.pi]
+
+        if interval is not None:
+            x = scaleNodes(x, interval)
+            w = scaleWeights(w, interval)
     else: # general case
         x = chebpts_type1_compute(N)
 
@@ -148,10 +152,14 @@ def chebpts_type2(N, interval=None):
         v = []
         t = []
     elif N == 1:
-        x = [0]
-        w = [2]
+        x = np.array([0.])
+        w = np.array([2.])
         v = [1]
         t = [0.5 * np.pi]
+
+        if interval is not None:
+            x = scaleNodes(x, interval)
+            w = scaleWeights(w, interval)
     else: # general case
         x = chebpts_type2_compute(N)
 
-- 
2.43.0


From b1e3349bee2b3bf2367b37fa9ff988b1f2856ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 71/86] fix: first-kind Chebyshev points come with their own
 weights

---
 funpy/cheb/pts.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 0a5b66a..dabb04c 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -42,6 +42,22 @@ def quadwts(N):
     return w.real
 
 
+""" Barycentric weights for type-1 points """
+@cached
+def bary_weights_type1(N):
+    v = np.sin(np.pi * (np.flip(np.arange(0, N, 1)) + 0.5) / N)
+    v[-2::-2] *= -1
+    return v
+
+
+""" Quadrature weights for type-1 points: Fejer's first rule """
+@cached
+def quadwts_type1(N):
+    t = np.pi * (np.flip(np.arange(0, N, 1)) + 0.5) / N
+    k = np.expand_dims(np.arange(1, N//2 + 1), axis=1)
+    return 2./N * (1. - 2. * np.sum(np.cos(2 * k * t) / (4 * k**2 - 1), axis=0))
+
+
 """ Scale Chebyshev nodes to a domain [a, b] """
 def scaleNodes(x, interval):
     a = interval[0]
@@ -125,20 +141,19 @@ def chebpts_type1(N, interval=None):
     else: # general case
         x = chebpts_type1_compute(N)
 
-        # FIXME!
         if interval is not None:
             x = scaleNodes(x, interval)
 
         # quadrature weights
-        w = quadwts(N)
+        w = quadwts_type1(N)
         if interval is not None:
             w = scaleWeights(w, interval)
 
         # barycentric weights
-        v = bary_weights(N)
+        v = bary_weights_type1(N)
 
         # angles
-        t = np.pi * np.flip(np.arange(0, N, 1)) / (N - 1)
+        t = np.pi * (np.flip(np.arange(0, N, 1)) + 0.5) / N
 
     return np.asarray(x), np.asarray(w), np.asarray(v), np.asarray(t)
 
-- 
2.43.0


From 92149c21f45d1fddccf0afebf551f51877b10ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 72/86] fix: adding an operator with several non-local terms to
 one without keeps all of them

---
 funpy/colloc/quasiOpBlock.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index 5deea92..9cbdb37 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -106,6 +106,7 @@ class QuasiOpBlock:
                 for i in range(nl_new_coeffs.shape[0]):
                     nl_new_coeffs[i] = self.nl_coeffs[i]
             elif np.any(other._nl_info):
+                nl_new_coeffs = np.empty_like(other.nl_coeffs, dtype=object)
                 for i in range(nl_new_coeffs.shape[0]):
                     nl_new_coeffs[i] = other.nl_coeffs[i]
         else:
-- 
2.43.0


From d8d4cc4767b354f5878236af6ddb73d2a617883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 73/86] fix: roots of linear functions outside the interval are
 not reported

---
 funpy/cheb/detail.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index ba1a753..f69b4f0 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -529,13 +529,14 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
             r = []
 
     elif n == 2:
-        r = [-c[0] / c[1]]
+        root = -c[0] / c[1]
+        r = [root]
 
-        if all_roots:
-            if np.abs(np.imag(r)) > htol or (r < -(1 + htol)) or (r > (1 + htol)):
+        if not all_roots:
+            if np.abs(np.imag(root)) > htol or np.real(root) < -(1 + htol) or np.real(root) > 1 + htol:
                 r = []
             else:
-                r = [max(min(np.real(r), 1), -1)]
+                r = [max(min(np.real(root), 1), -1)]
 
     elif n <= maxEigSize:
         # Adjust the coefficients for the colleague matrix:
-- 
2.43.0


From f6eefb01f7ef67af5007376df59848036f6eaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 74/86] fix: roots uses the requested tolerance at every level

---
 funpy/cheb/detail.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index f69b4f0..1a81248 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -581,8 +581,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = np.matmul(TRight[:n, :n], c)
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -601,8 +601,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = polyfit(v[n:]).squeeze()
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -623,7 +623,7 @@ def roots_scalar(f, eps=1.48e-8):
     c = f.coeffs / f.vscale
 
     # call the recursive roots_main function
-    r = roots_main(c.squeeze(), 100*eps, splitPoint)
+    r = roots_main(c.squeeze(), 100*eps, splitPoint, eps)
     return r
 
 def roots(f, *args, **kwargs):
-- 
2.43.0


From ed8aa5e586baf18984d48a5fb8de8d5b7b2957d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 75/86] fix: adding a row of numbers to a trigtech

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 52a70ae..8a60e76 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -70,7 +70,7 @@ def add(x1, x2, **kwargs):
         else:
             const_index = n//2
 
-        c[const_index, :] += other
+        c[const_index, :] += np.ravel(other)
 
         # update is real
         # TODO FIX THE EPS HERE!
-- 
2.43.0


From 1c6c55440f9fda5bf7dc7604af614717a3003a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 76/86] fix: even order antiderivatives of trigtechs of even
 length keep the highest mode

---
 funpy/trig/trigtech.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 421725d..ef8e334 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -684,6 +684,8 @@ def cumsum(f, m=1, **kwargs):
     c[highestDegree, :] = -np.sum(c * (-1.)**sumIndices, axis=0)
 
     if isEven:
+        # the modes -n/2 and n/2 share one coefficient
+        c[0, :] += c[n, :]
         c = c[:-1]
 
     # call simplify
-- 
2.43.0


From bc75a1ce8f5f2111646b730f4acf0fa194aef6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 77/86] fix: repeated antiderivatives on intervals of any
 length

---
 funpy/fun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index b6d0530..072f429 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -547,8 +547,9 @@ def sum(f, axis=0, *args, **kwargs):
 
 @implements(np.cumsum)
 def cumsum(f, *args, **kwargs):
-    """ Definite integral of a Fun on its interval [a, b] """
-    rescaleFactor = 0.5 * np.diff(f.domain)
+    """ Indefinite integral of a Fun on its interval [a, b] """
+    order = args[0] if args else kwargs.get('m', 1)
+    rescaleFactor = (0.5 * np.diff(f.domain))**order
     nf = np.cumsum(f.onefun, *args, **kwargs) * rescaleFactor
     return Fun(domain=f.domain, mapping=f.mapping, onefun=nf)
 
-- 
2.43.0


From 267809dd1ae22dadf70701362c96529ef6a8db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 78/86] fix: conversion of size one from Chebyshev coefficients

---
 funpy/colloc/ultraS/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index b917a48..0c6f68c 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -98,7 +98,7 @@ def spconvert(n, lam, format=None):
     """
     assert lam >= 0, 'lam must be non-negative!'
     if lam == 0:
-        dg = 0.5 * np.ones(n - 2)
+        dg = 0.5 * np.ones(max(n - 2, 0))
         return spdiags(np.hstack((np.array([[1, 0.5], [0, 0]]), np.vstack((dg, -dg)))),
                        [0, 2], n, n, format=format)
     else:
-- 
2.43.0


From ca69c1efaab67f1700ca2a7cdf043c9f73084130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 79/86] fix: integration matrix of size one

---
 funpy/colloc/ultraS/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index c96261d..db76218 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -162,7 +162,7 @@ def intmat(k, format=None):
         i.e. a matrix having only a first non-zero row, with the first row being filled by the
         Curtis-Clenshaw weights for integration.
     """
-    w = np.hstack((2, 0, 2 / (1 - np.arange(2, k)**2)))
+    w = np.hstack((2, 0, 2 / (1 - np.arange(2, k)**2)))[:k]
     # set all odd terms to zero -> they don't contribute to the integral!
     w[1::2] = 0
     I = lil_array((k, k))
-- 
2.43.0


From 5a0b71b81d7ebff70137ee4d841350138ea556b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 80/86] fix: multiplication matrix of size one in higher
 ultraspherical bases

---
 funpy/colloc/ultraS/matrices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index db76218..c58cdc7 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -129,9 +129,10 @@ def multmat(k, f, lam, format=None, eps=np.finfo(float).eps):
         M1 = 2*lam*Mx
 
         # Construct multiplication operator by a three-term recurrence
-        c = c.squeeze()
+        c = c[:, 0]
         M = c[0] * M0
-        M = M + c[1] * M1
+        if c.size > 1:
+            M = M + c[1] * M1
         for nn in range(c.size - 2):
             M2 = 2 * (1 + nn + lam)/(nn + 2) * Mx * M1 - (nn + 2 * lam) / (nn + 2) * M0
             M = M + c[nn+2] * M2
-- 
2.43.0


From b4586a47c014727eb7715d4ab2795dc7bca0f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 81/86] fix: Jacobi conversion of a constant series

---
 funpy/ultra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/ultra.py b/funpy/ultra.py
index efa48b1..40a8daf 100644
--- a/funpy/ultra.py
+++ b/funpy/ultra.py
@@ -55,11 +55,11 @@ def DownJacobiConversion(v, a, b):
     """ Convert Jacobi (alpha, beta + 1) -> (alpha, beta) """
     n = v.shape[0]
 
-    topRow = np.hstack((1, (a+1)/(a+b+2), (a+1)/(a+b+2) * np.cumprod(np.arange(a+2, a+n) / np.arange(a+b+3,a+b+n+1))))
+    topRow = np.hstack((1, (a+1)/(a+b+2), (a+1)/(a+b+2) * np.cumprod(np.arange(a+2, a+n) / np.arange(a+b+3,a+b+n+1))))[:n]
     topRow = (-1.0)**np.arange(n) * topRow
     tmp = np.multiply(topRow[None, :], v.T)
     vecsum = np.fliplr(np.cumsum(np.fliplr(tmp), 1))
-    ratios = np.hstack((1, -(a+b+3)/(a+1), (np.arange(a+b+5, a+b+2*n, 2) / np.arange(a+b+3, a+b+n+1)) * (1./topRow[2:])))
+    ratios = np.hstack((1, -(a+b+3)/(a+1), (np.arange(a+b+5, a+b+2*n, 2) / np.arange(a+b+3, a+b+n+1)) * (1./topRow[2:])))[:n]
     return np.multiply(ratios, vecsum).T
 
 
-- 
2.43.0


From 139f1fa04eaca38d1574c3688c3032f5f000e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 82/86] fix: all roots within the tolerance outside the
 interval are moved to its ends

---
 funpy/cheb/detail.pyx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 1a81248..36d6859 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -561,9 +561,7 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
             mask = np.abs(np.imag(r)) < htol
             r = np.real(r[mask])
             r = np.sort(r[np.abs(r) <= 1 + htol])
-            if r.size > 0:
-                r[0] = max(r[0], -1)
-                r[-1] = min(r[-1], 1)
+            r = np.clip(r, -1, 1)
 
         elif prune_roots:
             rho = np.sqrt(eps)**(-1/n)
-- 
2.43.0


From cda408621f84e37c9ff128c349253e761fafebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 83/86] fix: the differential order of a system counts every
 function in every equation

---
 funpy/colloc/source/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 41fb84a..30b1099 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -125,7 +125,8 @@ class Source:
         return len(self.cts_src)
 
     def get_diff_order(self, srcs):
-        return [0] + [ode_order(src, func) for src, func in zip(srcs, self.functions)]
+        # any function may appear in any of the equations
+        return [0] + [ode_order(src, func) for src in srcs for func in self.functions]
 
     def get_function_names(self, type=None, constant=False):
         function_names = []
-- 
2.43.0


From d199dafc4d0a45ae780a13c0cadea6c1f9bd0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 84/86] fix: each integral of the perturbation enters the
 linearisation once

---
 funpy/colloc/source/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 30b1099..c0e6a60 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -539,7 +539,9 @@ class Source:
             DM[i, j] = syp.expand(DM[i, j])
 
             # Collect integral terms so that we can extract them!
+            # Each integral of the perturbation once; the remaining integrals are coefficients
             integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral)]
+            integrals = [arg for arg in dict.fromkeys(integrals) if arg.has(pfun)]
             for dpfun in integrals:
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
-- 
2.43.0


From 01734fcd37533fa5d31cf9694fc925a6136e6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 85/86] fix: the expression of an integral operator source

---
 funpy/colloc/source/IntegralOperatorSource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index 9c80230..542310c 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -1,6 +1,8 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from sympy import Integral
+
 from ...cbcode import cpcode
 
 
-- 
2.43.0


From 657febc2fc756af95f0ea29e35243febc2fa8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 86/86] fix: constant coefficients of generated operators live
 on the domain of the equation

---
 funpy/colloc/source/DiffOperatorSource.py     | 3 ++-
 funpy/colloc/source/IntegralOperatorSource.py | 6 ++++--
 funpy/fun.py                                  | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 378ee95..8cfe5ff 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -66,6 +66,7 @@ class DiffOperatorSource:
             cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
-            cg.write('return asfun({0}, type=\'{1:s}\')'.format(ccode, ftype))
+            cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                     format(ccode, ftype, domain[0], domain[1]))
 
         cg.dedent()
diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index 542310c..c9d20cb 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -57,7 +57,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                         format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
@@ -86,7 +87,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                         format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
diff --git a/funpy/fun.py b/funpy/fun.py
index 072f429..d68305a 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -309,6 +309,7 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
+        kwargs.pop('domain', None)
         return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
-- 
2.43.0

