From 21f128b78a89d302170a84cb19e4f5d9378f8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:27 +0000
Subject: [PATCH 01/15] fix: MPArray.load works with h5py >= 3 (Dataset.value
 was removed)

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..8d45506 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From 5e72c89d9c3809ae9a3b462045c74bbda413a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:27 +0000
Subject: [PATCH 02/15] fix: sum of MPAs with different dtypes keeps all
 entries

max() over dtypes is not a promotion: float64 + complex64 dropped the
imaginary part, int64 + float32 truncated to integers.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 8d45506..274ec77 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1851,7 +1851,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*ltenss))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
-- 
2.43.0


From 4bc1edc27dd08c84124690838aa8b76d30340f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:27 +0000
Subject: [PATCH 03/15] fix: block_diag (and local_sum) with mixed dtypes

The dtype of the first summand was used for the result.
---
 mpnum/utils/extmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From 92af54511c6a267aac8dc2737cac5ff795b641c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:27 +0000
Subject: [PATCH 04/15] fix: leg2vleg must not claim site pos + 1 to be
 right-canonical

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 274ec77..f0f8e2c 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -555,7 +555,7 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From 09a99123b672e79ed4eb45c74bdc8b3dcd7a429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:40 +0000
Subject: [PATCH 05/15] fix: canonical form after updating a local tensor with
 negative index

lt[-1] = tens produced the canonical form (-1, ...).
---
 mpnum/mpstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..30f3d68 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -136,6 +136,8 @@ class LocalTensors(object):
                 self._update(pos, ten, canonicalization=norm)
 
         else:
+            # Support negative indices.
+            index = index + len(self) if index < 0 else index
             current = self._ltens[index]
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
-- 
2.43.0


From 6fddcad4efdf851429e5f8504eabd5483dd0590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:52 +0000
Subject: [PATCH 06/15] fix: slice update of local tensors with a single
 canonicalization value

'left' and 'right' are sequences themselves: they were taken as one value per
character and local tensors beyond the string's length were not updated.
---
 mpnum/mpstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 30f3d68..f271dd1 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -129,7 +129,8 @@ class LocalTensors(object):
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
+            if isinstance(canonicalization, str) or \
+                    not isinstance(canonicalization, collections.Sequence):
                 canonicalization = it.repeat(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
-- 
2.43.0


From f1d88c16f284c8f8df889c3e80ee70ba0cbd794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:52 +0000
Subject: [PATCH 07/15] fix: refuse slice updates with a wrong number of local
 tensors

The surplus was dropped silently, which could leave mismatching virtual legs.
---
 mpnum/mpstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index f271dd1..bc6cb58 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -124,6 +124,7 @@ class LocalTensors(object):
             start, stop, step = indices
             # Allow rank changes if multiple consecutive local tensors change.
             tens = list(tens)
+            assert len(tens) == len(range(*indices))
             assert self[start].shape[0] == tens[0].shape[0]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
                 tens[:-1], tens[1:]))
-- 
2.43.0


From 8d00b2f92e41b44cdec50ddbb2380aa8d7f5d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:52 +0000
Subject: [PATCH 08/15] fix: canonical form after updates which leave no
 non-canonical tensor

Updates with canonicalization='left'/'right' could produce left >= right: such
forms broke copy() and made later updates or multiplications claim wrong
canonical forms.
---
 mpnum/mpstruct.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index bc6cb58..2cc781a 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -91,9 +91,13 @@ class LocalTensors(object):
         # tensor is set inside a canoncial slice, its size will
         # remain the same (inequality case; second argument).
         if canonicalization == 'left' and self._lcanonical - index >= 0:
-            self._lcanonical = max(index + 1, self._lcanonical)
+            # At least one local tensor is never counted as canonical.
+            self._lcanonical = min(max(index + 1, self._lcanonical),
+                                   len(self) - 1)
+            self._rcanonical = max(self._lcanonical + 1, self._rcanonical)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
-            self._rcanonical = min(index, self._rcanonical)
+            self._rcanonical = max(min(index, self._rcanonical), 1)
+            self._lcanonical = min(self._rcanonical - 1, self._lcanonical)
         else:
             # If a non-canonical tensor is provided, the sizes of the
             # canoical slices may decrease.
-- 
2.43.0


From 36c3dab703eb8e32ec086340c20f1dd6b896086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:52 +0000
Subject: [PATCH 09/15] fix: MPPovmList.lfun_from with non-integer weights

Weights were truncated to integers when summed up.
---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..1e7bd84 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,7 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 47c858ce11b6d2e253935ffb518918e576973305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:52 +0000
Subject: [PATCH 10/15] fix: random_local_ham uses the given randstate

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From 7b1ed80104ee845827c92c11e9483aa3623cd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:51 +0000
Subject: [PATCH 11/15] fix: MPArray.sum with None for the first site

A sequence of per-site axes may contain None according to the docstring, but
None at the first site raised TypeError.
---
 mpnum/mparray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f0f8e2c..1691519 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -432,8 +432,8 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if len(axes) == 0 or not (axes[0] is None
+                                      or hasattr(axes[0], '__iter__')):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
-- 
2.43.0


From be4672441b7d6405527d1e92bcffb12467477945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:18 +0000
Subject: [PATCH 12/15] fix: eig_sum with real and complex summands

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From 99562a8a7ae9a9d06b96202959ff92ab9d119a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:26 +0000
Subject: [PATCH 13/15] fix: ground state energy of the cyclic XY model for
 |gamma| > 1

---
 mpnum/utils/physics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..86da0fa 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -77,13 +77,17 @@ def cXY_E0(nr_sites, gamma):
        \Lambda_k^2 = 1 - (1 - \gamma^2) [\sin(k)]^2, \quad
        k(l) = \frac{2\pi}{N} \left( l - \frac N2 \right)
 
-    and :math:`\Lambda_k \ge 0`.
+    and :math:`\Lambda_k \ge 0`. This holds for :math:`|\gamma| \le
+    1`; for :math:`|\gamma| > 1`, the ground state has the opposite
+    parity and :math:`k(l)` is replaced by :math:`k(l + \frac12)`.
 
     """
     N = nr_sites
     if (N % 2) != 0 or (N % 4) == 0:
         raise ValueError('nr_sites must be an odd multiple of two')
     l = np.arange(N)
+    if abs(gamma) > 1:
+        l = l + 0.5
     k = (2 * np.pi / N) * (l - N / 2)  # Eq. (2.18c)
     Lambda2 = 1 - (1 - gamma**2) * (np.sin(k))**2  # Eq. (2.18b)
     Lambda = Lambda2**0.5
-- 
2.43.0


From a972dad80ac59f6c921d7219bc43f3724ded9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:40 +0000
Subject: [PATCH 14/15] fix: refuse updates of local tensors with negative
 index out of range

---
 mpnum/mpstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 2cc781a..b30c468 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -143,7 +143,7 @@ class LocalTensors(object):
 
         else:
             # Support negative indices.
-            index = index + len(self) if index < 0 else index
+            index = range(len(self))[index]
             current = self._ltens[index]
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
-- 
2.43.0


From d080ab3109dfdfad45ecd4d67faf5083ad5fed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:07 +0000
Subject: [PATCH 15/15] fix: refuse slice updates of local tensors which do not
 fit together

---
 mpnum/mpstruct.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index b30c468..5aea864 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -2,7 +2,6 @@
 """Core data structure & routines to manage local tensors"""
 from __future__ import absolute_import, division, print_function
 
-import itertools as it
 import collections
 
 from six.moves import range, zip
@@ -124,19 +123,22 @@ class LocalTensors(object):
         """
         if isinstance(index, slice):
             indices = index.indices(len(self))
-            # In Python 3, we can do range(*indices).start etc. Python 2 compat:
-            start, stop, step = indices
             # Allow rank changes if multiple consecutive local tensors change.
             tens = list(tens)
             assert len(tens) == len(range(*indices))
-            assert self[start].shape[0] == tens[0].shape[0]
+            assert all(t.ndim >= 2 for t in tens)
+            ltens = list(self._ltens)
+            for ten, pos in zip(tens, range(*indices)):
+                ltens[pos] = ten
+            assert ltens[0].shape[0] == self._ltens[0].shape[0]
+            assert ltens[-1].shape[-1] == self._ltens[-1].shape[-1]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
-                tens[:-1], tens[1:]))
-            assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
+                ltens[:-1], ltens[1:]))
 
             if isinstance(canonicalization, str) or \
                     not isinstance(canonicalization, collections.Sequence):
-                canonicalization = it.repeat(canonicalization)
+                canonicalization = [canonicalization] * len(tens)
+            assert len(tens) == len(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
                 self._update(pos, ten, canonicalization=norm)
-- 
2.43.0

