From 38b05a120997c7275af01dab5f6e0a8e1e2c4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 01/24] fix: xiA and xiD of a laminate defined by lamination
 parameters

Reading them raised TypeError; report the given parameters.
---
 composipy/core/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..f5c0acf 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,8 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if isinstance(self.stacking, dict):
+            return None if self._xiA is None else np.array(self._xiA, dtype=float)
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +292,8 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if isinstance(self.stacking, dict):
+            return np.array(self._xiD, dtype=float)
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From 400a09fc2b27699701a15de7d1f91b000f949799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 02/24] fix: raise the KeyError of a stacking dict without xiD
 or T

It was created but not raised, and UnboundLocalError followed.
---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index f5c0acf..c75381d 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From 46baaf3357e43aba96572f59cea5eec454a4aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 03/24] fix: compare laminates defined by lamination parameters

Only the layup was compared, which is empty for them, so all were equal.
Plies of different kinds are unequal instead of raising.
---
 composipy/core/property.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index c75381d..0fa2034 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -315,8 +315,16 @@ class LaminateProperty(Property):
         return representation
 
 #Comparisons
+    def _definition(self):
+        plies = [self.plies] if isinstance(self.plies, Material) else self.plies
+        plies = [(type(ply).__name__, ply) for ply in plies]
+        if isinstance(self.stacking, dict):
+            params = [None if xi is None else list(xi) for xi in (self._xiA, self._xiB, self._xiD)]
+            return params, self._total_thickness, plies
+        return list(self.stacking), plies
+
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
-            return (self.layup == other.layup)
+            return self._definition() == other._definition()
         return NotImplemented
 
-- 
2.43.0


From f75b3ffaf71edf736af9d925c88dd43f8e2951ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 04/24] fix: do not alias the stacking, plies and constraints
 of the caller

Changing a container after construction changed later results.
---
 composipy/core/property.py  | 11 ++++++-----
 composipy/core/structure.py |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 0fa2034..2d0919b 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -1,3 +1,4 @@
+import copy
 import numbers
 
 import numpy as np
@@ -90,8 +91,8 @@ class LaminateProperty(Property):
                 raise KeyError('T must be a key')
             layup = []
 
-        self.stacking = stacking
-        self.plies = plies
+        self.stacking = copy.deepcopy(stacking)
+        self.plies = plies if isinstance(plies, Material) else list(plies)
         self.layup = layup
         self._z_position = None
         self._Q_layup = None
@@ -101,9 +102,9 @@ class LaminateProperty(Property):
         self._D = None
         self._ABD = None
         self._ABD_p = None
-        self._xiA = xiA
-        self._xiB = xiB
-        self._xiD = xiD
+        self._xiA = copy.deepcopy(xiA)
+        self._xiB = copy.deepcopy(xiB)
+        self._xiD = copy.deepcopy(xiD)
         self._total_thickness = total_thickness
 
 #Properties
diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..c3e4826 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import matplotlib.pyplot as plt
 
@@ -97,7 +99,7 @@ class PlateStructure(Structure):
         self.__dproperty = self._is_instance(dproperty, Property, 'dproperty')
         self.__a = self._float_number(a, n_min=0, name='a')
         self.__b = self._float_number(b, n_min=0, name='b')
-        self.__constraints = constraints
+        self.__constraints = copy.deepcopy(constraints)
         self.__Nxx = self._float_number(Nxx, name='Nxx')
         self.__Nyy = self._float_number(Nyy, name='Nyy')
         self.__Nxy = self._float_number(Nxy, name='Nxy')
-- 
2.43.0


From e48ef7635d27cd98fad4bd6aab2d692fc745bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 05/24] fix: use the y functions of v and w for v and w

The y functions of u were used for all three components.
---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index c3e4826..bd3834a 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -253,8 +253,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From 6686ec0562ca455c57a02d282995a3554d84271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 06/24] fix: resolve constraint keywords edge by edge

A keyword edge next to a list edge was silently taken as free.
---
 composipy/core/structure.py | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index bd3834a..587b2b2 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -159,12 +159,7 @@ class PlateStructure(Structure):
             y0 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             yb = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
 
-        elif (
-            isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
-        ):
+        else:
             boundary_conditions = {
                  'free': [],
                  'pinned': ['TX', 'TY', 'TZ'],
@@ -172,23 +167,11 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
+            x0, xa, y0, yb = [
+                boundary_conditions[edge.lower()] if isinstance(edge, str) else edge
+                for edge in (self.constraints['x0'], self.constraints['xa'],
+                             self.constraints['y0'], self.constraints['yb'])
             ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
-        else:
-            x0 = self.constraints['x0']
-            xa = self.constraints['xa']
-            y0 = self.constraints['y0']
-            yb = self.constraints['yb']
 
         sm = [i for i in range(self.m+4)]
         sn = [i for i in range(self.n+4)]
-- 
2.43.0


From 5d72c71abf1fa1a3862dbdea9626aa45c879513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 07/24] fix: compute the lowest load factors also below 1

The Cayley transform with sigma=1 returned the factors with the smallest
(v+1)/(v-1), v=-1/factor, which are the wrong ones for plates loaded beyond buckling.
---
 composipy/core/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 587b2b2..be3abc1 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -377,10 +377,9 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
 
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+              which='SA', M=K, tol=tol)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 7f8041a609295e26b74c267eb4dd87d1691c2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 08/24] fix: make the buckling analysis repeatable

eigsh drew a random start vector, so repeated analyses differed.
---
 composipy/core/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index be3abc1..d4ff838 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -378,8 +378,9 @@ class PlateStructure(Structure):
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
 
+        v0 = np.random.default_rng(0).uniform(-1., 1., KG.shape[0]) # repeatable
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SA', M=K, tol=tol)
+              which='SA', M=K, tol=tol, v0=v0)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 4e079f4facd16cf179d90561425f1928b1dc3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 09/24] fix: plot modes on grids with different sizes in x and
 y

---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index d4ff838..45c5e7f 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -404,10 +404,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From 0228322e3a9125028e88ec8fb3e2b5737c75142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 10/24] fix: membrane and coupling blocks of the full stiffness
 matrix

Wrong side ratios in A66, B11, B26 and A16 terms, swapped derivatives in
the B11 term of k31, and k31 in the place of k23.
---
 composipy/core/structure.py                   |  2 +-
 composipy/pre_integrated_component/build_k.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 45c5e7f..56a7857 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -303,7 +303,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From b8ad3b371e34b41ed1eba464cb8124b4f9bc2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 11/24] fix: position labels of the margin table

The rows are bottom then top, like those of the stress table.
---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From fd30f9426b9e739d5adc2ee0eb8b367d600cbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 12/24] fix: isotropic material without allowables

The default None was refused as not a number.
---
 composipy/core/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..e29b782 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From 35b07eb9a15382f942cd862e6af6949c8bc62168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 13/24] fix: refuse NaN and infinite arguments

---
 composipy/utils/validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..f58989a 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -1,3 +1,4 @@
+import math
 import numbers
 
 
@@ -8,6 +9,8 @@ class ComposipyValidator:
             value = float(value)
         except:
             raise ValueError(f'{name} Must be a real number')
+        if not math.isfinite(value):
+            raise ValueError(f'{name} Must be a finite number')
         if n_min is not None and value < n_min:
             raise ValueError(f'{name} must be at least {n_min}')
         if n_max is not None and value > n_max:
-- 
2.43.0


From e0f30b371620f234146f1bb0d3371c9d9a44035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 14/24] fix: accept the symmetric mark in upper case in
 build_sequence

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..79a96e4 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From b9b0d19ca5d333e84230655da9aa76c11a7c98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 15/24] fix: a group without a count means once in
 build_sequence

---
 composipy/nastranapi/pcomp_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 79a96e4..4f98861 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -97,7 +97,7 @@ def build_sequence(stacking):
              and is_multiplier
              and not is_in_block):
             times = current_block.replace('_', '').replace('{', '').replace('}', '')
-            times = int(times)
+            times = int(times) if times.strip() else 1
             unity = times * unity
             unities.extend(unity)
             unity = list()
@@ -107,7 +107,7 @@ def build_sequence(stacking):
               and is_multiplier
               and is_in_block):
             times = current_block.replace('_', '').replace('{', '').replace('}', '')
-            times = int(times)
+            times = int(times) if times.strip() else 1
             unity = times * block
             unities.extend(unity)
             unity = list()
-- 
2.43.0


From cce0050b090c1ad72e236aaad9c73e482c465bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 16/24] fix: PCOMP continuation marks in the tenth field

---
 composipy/nastranapi/pcomp_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 4f98861..c22ff07 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -188,7 +188,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
     midi = _convert_to_list(midi, size)
     sout = _convert_sout(sout, size)
     
-    header = f'PCOMP,{pid},{z0},,,,,+\n'
+    header = f'PCOMP,{pid},{z0},,,,,,,+\n'
     body = ''
     
     for i in range(0, size, 2):
@@ -196,7 +196,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
         i1 = i + 1
         body += f'+,{midi[i0]},{ti[i0]},{sequence[i0]},{sout[i0]},'
         try:
-            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]}+\n'
+            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]},+\n'
         except IndexError:
             body = body[0:-1] # removes last comma
     
-- 
2.43.0


From c777a212344e377ce8d49984a13d997c277058c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 17/24] fix: margins of laminates with isotropic plies

The allowables t, c, s of an isotropic ply hold in both directions; the
table raised AttributeError.
---
 composipy/core/strength.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 8801e35..4aa1756 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -1,6 +1,8 @@
 import numpy as np
 import pandas as pd
 
+from composipy.core.material import IsotropicMaterial
+
 #TODO:
 # add more advanced strength criteria
 
@@ -190,6 +192,10 @@ class LaminateStrength():
         allowablek_123 = []
         for layer in laminate:
             angle,ply = layer
+            if isinstance(ply, IsotropicMaterial):
+                maxstresses = np.array([ply.t, ply.c, ply.t, ply.c, ply.s])
+                allowablek_123.append(maxstresses)
+                continue
             maxstresses = np.array([ply.t1,
                                     ply.c1,
                                     ply.t2,
-- 
2.43.0


From d3eba9cc07d52eabe046b25644255a0b60213fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 18/24] fix: refuse unknown output requests in build_pcomp

A string as long as the sequence was split into characters, and unknown
entries of a list went into the card.
---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index c22ff07..4efbeb2 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -150,7 +150,7 @@ def _convert_sout(sout, size):
     else:
         try:
             size_value = len(sout)
-            if size_value == size:
+            if size_value == size and all(s in ('YES', 'NO') for s in sout):
                 return sout
             else:
                  raise ValueError
-- 
2.43.0


From fbd023787513d568cf2c28ec0ea3361c017d217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 19/24] fix: weight minimisation reported success far from the
 thinnest panel

The constraint on the critical load, cubic in the thickness, misled SLSQP when
the starting thickness was far from the optimum: it ended with failures or, while
reporting success, at panels up to three times too thick. The constraint is now
on the cube root of the load, which is the same condition and linear in T.
---
 composipy/optimize/_minimize_panel_weight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index c85dbe5..c281c69 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -80,7 +80,8 @@ def minimize_panel_weight(a, b,
         return eig
     
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, max_load, np.inf)
+    # The critical load grows with T**3. Its cube root grows linearly, as SLSQP takes every constraint to do.
+    c1 = NonlinearConstraint(lambda y0: np.cbrt(critical_load(y0)), np.cbrt(max_load), np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
-- 
2.43.0


From 33668c67edc72860c1ae2eb1becedaf839acff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 20/24] fix: buckling maximisation stopped at the start or
 short of the optimum depending on the units

---
 composipy/optimize/_maximize_buckling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index c45e516..5067172 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -81,13 +81,21 @@ def maximize_buckling_load(a, b, T,
     # Constraints and boundaries   
     b1 = ([-1.0, 1.0], [-1.0, 1.0])
     x0 = [0.0, 0.0]
+
+    # SLSQP has absolute tolerances, the outcome should not depend on the units of the problem.
+    unit = abs(critical_load(x0))
+    unit = unit if 0 < unit < np.inf else 1.0
+    objective = lambda y0: critical_load(y0) / unit
+
     if penalty:
         c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
         c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
+        res = minimize(objective, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
     elif not penalty:
         c = NonlinearConstraint(natural_constraint_g, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
+        res = minimize(objective, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
+    res.fun *= unit
+    res.jac *= unit
  
 
     if plot:
-- 
2.43.0


From 1a78fdb219f148aee8cf911b58dd9331a5bb7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 21/24] fix: weight minimisation returned other thicknesses in
 other units of length

---
 composipy/optimize/_minimize_panel_weight.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index c281c69..45a6744 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -79,14 +79,22 @@ def minimize_panel_weight(a, b,
             eig = -1
         return eig
     
+    # The thickness is counted in multiples of the one that carries the loads at xi1 = xi3 = 0.
+    # SLSQP has absolute tolerances, the outcome should not depend on the units of the problem.
+    unit_eig = critical_load([1.0, 0.0, 0.0])
+    unit = np.cbrt(max_load / unit_eig) if 0 < unit_eig < np.inf else x0[0]
+
     # Constraints and boundaries
     # The critical load grows with T**3. Its cube root grows linearly, as SLSQP takes every constraint to do.
-    c1 = NonlinearConstraint(lambda y0: np.cbrt(critical_load(y0)), np.cbrt(max_load), np.inf)
+    c1 = NonlinearConstraint(lambda y0: np.cbrt(critical_load([y0[0]*unit, *y0[1:]]) / max_load), 1.0, np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
    
-    res = minimize(_objective_function, x0, method='SLSQP',
+    res = minimize(_objective_function, [x0[0]/unit, *x0[1:]], method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
+    res.x[0] *= unit
+    res.fun *= unit**3
+    res.jac *= [unit**2, unit**3, unit**3]
 
     return res
-- 
2.43.0


From 12507b00c8d0ab41792f0269244febaaccd78d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 22/24] fix: weight minimisation did not descend from a
 starting thickness far above the optimum

---
 composipy/optimize/_minimize_panel_weight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 45a6744..548c3d3 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -81,6 +81,7 @@ def minimize_panel_weight(a, b,
     
     # The thickness is counted in multiples of the one that carries the loads at xi1 = xi3 = 0.
     # SLSQP has absolute tolerances, the outcome should not depend on the units of the problem.
+    # Minimizing the thickness minimizes its cube, which SLSQP does not descend from afar.
     unit_eig = critical_load([1.0, 0.0, 0.0])
     unit = np.cbrt(max_load / unit_eig) if 0 < unit_eig < np.inf else x0[0]
 
@@ -91,10 +92,10 @@ def minimize_panel_weight(a, b,
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
    
-    res = minimize(_objective_function, [x0[0]/unit, *x0[1:]], method='SLSQP',
+    res = minimize(lambda y0: y0[0], [x0[0]/unit, *x0[1:]], method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
     res.x[0] *= unit
-    res.fun *= unit**3
-    res.jac *= [unit**2, unit**3, unit**3]
+    res.fun = _objective_function(res.x)
+    res.jac *= 3 * res.x[0]**2
 
     return res
-- 
2.43.0


From fbf4b3b003db6cbeb6d133d4f5aff69e62f884ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:49 +0000
Subject: [PATCH 23/24] fix: buckling maximisation stopped short of the optimum
 at kinks of the critical load

---
 composipy/optimize/_maximize_buckling.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index 5067172..c75d67b 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -90,10 +90,20 @@ def maximize_buckling_load(a, b, T,
     if penalty:
         c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
         c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-        res = minimize(objective, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
+        constraints = [c2, c3]
+        res = minimize(objective, x0, method='SLSQP', constraints=constraints, bounds=b1, options=options, tol=tol)
     elif not penalty:
         c = NonlinearConstraint(natural_constraint_g, -0.0001, 10000)
-        res = minimize(objective, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
+        constraints = [c]
+        res = minimize(objective, x0, method='SLSQP', constraints=constraints, bounds=b1, options=options, tol=tol)
+
+    if res.success:
+        # The critical load has kinks, where one buckling mode takes over from another and SLSQP may stop early.
+        feasible = lambda y0: max(np.abs(y0)) <= 1.0 and all(c.lb <= c.fun(y0) <= c.ub for c in constraints)
+        polished = minimize(lambda y0: objective(y0) if feasible(y0) else np.inf, res.x, method='Nelder-Mead',
+                            options={'initial_simplex': res.x + [[0.0, 0.0], [0.1, 0.0], [0.0, 0.1]]})
+        if polished.fun < res.fun:
+            res.x, res.fun = polished.x, polished.fun
     res.fun *= unit
     res.jac *= unit
  
-- 
2.43.0


From ca9b684bb5e22ca98b529129d1aedfe5bc89470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:37 +0000
Subject: [PATCH 24/24] fix: keep the optimum found by SLSQP unless the pass
 over the kinks improves it noticeably

---
 composipy/optimize/_maximize_buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index c75d67b..7580c29 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -102,7 +102,7 @@ def maximize_buckling_load(a, b, T,
         feasible = lambda y0: max(np.abs(y0)) <= 1.0 and all(c.lb <= c.fun(y0) <= c.ub for c in constraints)
         polished = minimize(lambda y0: objective(y0) if feasible(y0) else np.inf, res.x, method='Nelder-Mead',
                             options={'initial_simplex': res.x + [[0.0, 0.0], [0.1, 0.0], [0.0, 0.1]]})
-        if polished.fun < res.fun:
+        if res.fun - polished.fun > 0.001 * abs(res.fun): # otherwise it was the optimum
             res.x, res.fun = polished.x, polished.fun
     res.fun *= unit
     res.jac *= unit
-- 
2.43.0

