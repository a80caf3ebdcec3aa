From ff5a1d749ef591bd264ac35bcf7b055dfd48972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 01/21] fix: return the lowest positive buckling load factors
 at any load magnitude

The shift-invert Cayley search with sigma=1 returned the factors closest to 1
(on a log scale), so the critical one was missed when it was well below 1.
---
 composipy/core/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..5592ce4 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -392,10 +392,9 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
 
-        eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+        # most negative eigenvalues first, i.e. the lowest positive load factors (-1/eigval)
+        eigvals, eigvecs = eigsh(A=KG, k=k, which='SA', M=K, tol=tol)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From ee6f900665a67f5752ab180b234776cd970bf918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 02/21] fix: apply the TY/RY and TZ/RZ constraints of the y
 edges to v and w

The y-direction terms of v and w were taken from those of u, so the y edges
of every field followed TX/RX.
---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 5592ce4..ec0e98b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -251,8 +251,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From 7e0641afd494919f54d24031a0788c9f9619caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 03/21] fix: factors of the membrane and coupling stiffness
 terms

k11 (A66), k13 (B11, B26), k21 (A16) and k31 (B11) disagreed with the strain
energy of the plate, and the K of calc_K_KG_ABD was not symmetric.
---
 composipy/pre_integrated_component/build_k.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From 20f3fb61d41a7584ef49cb682164652d74933cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 04/21] fix: assemble k23, not k31, in the second row of the
 coupled stiffness matrix

---
 composipy/core/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index ec0e98b..e9233ae 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -318,7 +318,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
-- 
2.43.0


From e4bbe69bda69815976052fad1833ee84615007d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 05/21] fix: label the max stress margins bottom first, as the
 stresses are

The first row of each ply holds the margin of its bottom face and was
labelled 'top', and the other way round.
---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From b385c89690587c9fb93dbe57a60da5788e729906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 06/21] fix: IsotropicMaterial can be created without
 allowables

The default None of t, c and s was rejected by the validation.
---
 composipy/core/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..e29b782 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From bffab797a9927970d63bfe3d0a0a7d91241725ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 07/21] fix: raise the KeyError for lamination parameters
 without xiD or T

It was created and not raised, and an UnboundLocalError followed.
---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..c47495a 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From ba2e65f396dd34d9648a665cebbd0146d5b16da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 08/21] fix: xiA and xiD of a laminate defined by lamination
 parameters

Both raised TypeError, as they looked for a stacking sequence.
---
 composipy/core/property.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index c47495a..529c6a1 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,9 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if not self._xiA is None:
+            return np.array(self._xiA)
+
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +293,9 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if not self._xiD is None:
+            return np.array(self._xiD)
+
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From 7cd55d846098f1965ed85a057294b5b85ad98978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 09/21] fix: compare laminates defined by lamination parameters

They have no layup, so any two of them were equal.
---
 composipy/core/property.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 529c6a1..7b52c26 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -319,6 +319,13 @@ class LaminateProperty(Property):
 #Comparisons
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
-            return (self.layup == other.layup)
+            if self.layup or other.layup:
+                return (self.layup == other.layup)
+            # defined by lamination parameters
+            return (self.plies == other.plies
+                    and self._total_thickness == other._total_thickness
+                    and np.array_equal(self._xiA, other._xiA)
+                    and np.array_equal(self._xiB, other._xiB)
+                    and np.array_equal(self._xiD, other._xiD))
         return NotImplemented
 
-- 
2.43.0


From 2355864d70f272e779f257a8bcbff0e3cbba815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 10/21] fix: plot_eigenvalue with different grid sizes along x
 and y

---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index e9233ae..7b450f4 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -418,10 +418,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From c9ce68aebfff4690925b86e2424b5bc500f64e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 11/21] fix: accept an upper case S as the symmetry sign

It was recognised as symmetric and then failed to parse.
---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..79a96e4 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From c38869d208aad18de5b53ebc53378b9cd773fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 12/21] fix: put the PCOMP continuation marks in field 10

The header had its mark in the GE field, and the mark of each ply line was
joined to the output request of its second ply (NO+).
---
 composipy/nastranapi/pcomp_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 79a96e4..547b126 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -188,7 +188,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
     midi = _convert_to_list(midi, size)
     sout = _convert_sout(sout, size)
     
-    header = f'PCOMP,{pid},{z0},,,,,+\n'
+    header = f'PCOMP,{pid},{z0},,,,,,,+\n'
     body = ''
     
     for i in range(0, size, 2):
@@ -196,7 +196,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
         i1 = i + 1
         body += f'+,{midi[i0]},{ti[i0]},{sequence[i0]},{sout[i0]},'
         try:
-            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]}+\n'
+            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]},+\n'
         except IndexError:
             body = body[0:-1] # removes last comma
     
-- 
2.43.0


From fec6c791b02b51efbd06134bbe78a19c8b91ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 13/21] fix: reject nan where a real number is required

A nan compares false with both limits and was accepted.
---
 composipy/utils/validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..ad90f91 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -8,6 +8,8 @@ class ComposipyValidator:
             value = float(value)
         except:
             raise ValueError(f'{name} Must be a real number')
+        if value != value: # nan
+            raise ValueError(f'{name} Must be a real number')
         if n_min is not None and value < n_min:
             raise ValueError(f'{name} must be at least {n_min}')
         if n_max is not None and value > n_max:
-- 
2.43.0


From b05210fb19265527c6e8a101e6aab493ed919ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 14/21] fix: minimize_panel_weight reports success at panels
 far heavier than needed

The buckling constraint grows with T**3: SLSQP's first steps from x0 overshoot
and it stopped, often claiming success, at thicknesses several times too large.
The constraint is now the cubic root of the load ratio.
---
 composipy/optimize/_minimize_panel_weight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index c85dbe5..1e451b9 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -77,10 +77,11 @@ def minimize_panel_weight(a, b,
             eig = Ncr_from_lp(a, b, T, m, n, xi1, xi3, E1, E2, v12, G12, Nxx_norm, Nyy_norm, Nxy_norm, constraints=panel_constraint)
         except ArpackError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
             eig = -1
-        return eig
+        # buckling load relative to the required one; the cubic root makes it linear in T
+        return np.cbrt(eig/max_load)
     
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, max_load, np.inf)
+    c1 = NonlinearConstraint(critical_load, 1., np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
-- 
2.43.0


From 63961ed4198d71108b6e64f2be0a29c49ee3991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 15/21] fix: maximize_buckling_load stops at its start for
 small critical loads

---
 composipy/optimize/_maximize_buckling.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index c45e516..aae5469 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -81,14 +81,21 @@ def maximize_buckling_load(a, b, T,
     # Constraints and boundaries   
     b1 = ([-1.0, 1.0], [-1.0, 1.0])
     x0 = [0.0, 0.0]
+
+    # Relative to the start, as the tolerances of the solver are absolute
+    scale = abs(critical_load(x0))
+    def objective_function(y0):
+        return critical_load(y0) / scale
+
     if penalty:
         c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
         c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
+        res = minimize(objective_function, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
     elif not penalty:
         c = NonlinearConstraint(natural_constraint_g, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
- 
+        res = minimize(objective_function, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
+    res['fun'] *= scale
+    res['jac'] *= scale
 
     if plot:
         plot_optimization(a, b, T, m, n, E1, E2, v12,
-- 
2.43.0


From 50274bfaf0507d14d947a6f5903208af6a0b831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 16/21] fix: minimize_panel_weight stops far from the optimum
 for thin panels or small units

---
 composipy/optimize/_minimize_panel_weight.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 1e451b9..7bdd7fc 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -80,13 +80,24 @@ def minimize_panel_weight(a, b,
         # buckling load relative to the required one; the cubic root makes it linear in T
         return np.cbrt(eig/max_load)
     
+    # Thickness relative to the one the quasi-isotropic panel needs, as the tolerances of the solver are absolute
+    T0 = 1. / abs(critical_load([1., 0., 0.]))
+    def relative_load(y0):
+        t, xi1, xi3 = y0
+        return critical_load([t*T0, xi1, xi3])
+
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, 1., np.inf)
+    c1 = NonlinearConstraint(relative_load, 1., np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
    
-    res = minimize(_objective_function, x0, method='SLSQP',
+    # The thickness itself is minimized, its cube is badly scaled far from the optimum
+    T, xi1, xi3 = x0
+    res = minimize(lambda y0: y0[0], [T/T0, xi1, xi3], method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
+    res['x'] = res['x'] * [T0, 1., 1.]
+    res['fun'] = _objective_function(res['x'])
+    res['jac'] = np.array([3*res['x'][0]**2, 0., 0.])
 
     return res
-- 
2.43.0


From 132a22c8361b4662e3f3e08b81357199f62482c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 17/21] fix: cached laminate matrices are published only when
 complete

Q_layup, T_layup, A, B and D filled in the cache attribute itself, so a read
interrupted half way (Ctrl-C) left a partial sum or list behind that every
later read returned, and two threads reading at once accumulated into the same
array. B of a laminate given by lamination parameters also zeroed A.
---
 composipy/core/property.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 7b52c26..6333bce 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -126,7 +126,7 @@ class LaminateProperty(Property):
     def Q_layup(self):    
         if self._Q_layup is None:
             
-            self._Q_layup = []
+            Q_layup = []
             for theta, ply in self.layup:
                 c = np.cos(theta*np.pi/180)
                 s = np.sin(theta*np.pi/180)
@@ -142,18 +142,19 @@ class LaminateProperty(Property):
                     [-2*c*s, 2*c*s, c**2-s**2]
                     ])
 
-                self._Q_layup.append(
+                Q_layup.append(
                     (np.linalg.inv(T_real))
                     @ ply.Q_0 
                     @ T_engineering
                     )
+            self._Q_layup = Q_layup # only once it is complete, another thread may be reading it
         return self._Q_layup
      
     @property
     def T_layup(self):
         if self._T_layup is None:
             
-            self._T_layup = []
+            T_layup = []
             for theta in self.layup:
                 c = np.cos(theta[0]*np.pi/180)
                 s = np.sin(theta[0]*np.pi/180)
@@ -170,7 +171,8 @@ class LaminateProperty(Property):
                     [-2*c*s, 2*c*s, c**2-s**2]
                     ])
 
-                self._T_layup.append([T_real,T_engineering])
+                T_layup.append([T_real,T_engineering])
+            self._T_layup = T_layup
         return self._T_layup
 
     @property
@@ -197,12 +199,13 @@ class LaminateProperty(Property):
                                 [A31, A32, A33]])
 
         if self._A is None:
-            self._A = np.zeros(9).reshape(3,3)
+            A = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._A += (zk1-zk0) * i[1]
+                A += (zk1-zk0) * i[1]
+            self._A = A
         return self._A
     
     @property
@@ -215,17 +218,18 @@ class LaminateProperty(Property):
         '''
         if (not self._xiA is None
                 and not self._xiD is None):
-            self._A = np.array([[0., 0., 0.],
+            self._B = np.array([[0., 0., 0.],
                                 [0., 0., 0.],
                                 [0., 0., 0.]])
 
         if self._B is None:
-            self._B = np.zeros(9).reshape(3,3)
+            B = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._B += (1/2) * (zk1**2-zk0**2) * i[1]
+                B += (1/2) * (zk1**2-zk0**2) * i[1]
+            self._B = B
         return self._B
     
     @property
@@ -253,12 +257,13 @@ class LaminateProperty(Property):
                                 [D31, D32, D33]])
 
         if self._D is None:
-            self._D = np.zeros(9).reshape(3,3)
+            D = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._D += (1/3) * (zk1**3-zk0**3) * i[1]
+                D += (1/3) * (zk1**3-zk0**3) * i[1]
+            self._D = D
         return self._D
 
     @property
-- 
2.43.0


From 246174f6a4b249c42eec7546594641095ee45ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 18/21] fix: read each edge of the constraints as a name or a
 list

When a dictionary named some edges and listed the motions of others, the
named edges were searched for 'TX' etc. and silently left free.
---
 composipy/core/structure.py | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 7b450f4..ad6afbf 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -157,12 +157,7 @@ class PlateStructure(Structure):
             y0 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             yb = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
 
-        elif (
-            isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
-        ):
+        else:
             boundary_conditions = {
                  'free': [],
                  'pinned': ['TX', 'TY', 'TZ'],
@@ -170,23 +165,11 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
+            # each edge is either a name or a list
+            x0, xa, y0, yb = [
+                 boundary_conditions[edge.lower()] if isinstance(edge, str) else edge
+                 for edge in [self.constraints[k] for k in ('x0', 'xa', 'y0', 'yb')]
             ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
-        else:
-            x0 = self.constraints['x0']
-            xa = self.constraints['xa']
-            y0 = self.constraints['y0']
-            yb = self.constraints['yb']
 
         sm = [i for i in range(self.m+4)]
         sn = [i for i in range(self.n+4)]
-- 
2.43.0


From a901a5b84714bbdb527b2c286bc058f49381ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 19/21] fix: laminates keep their definition when the
 containers given are changed later

---
 composipy/core/property.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 6333bce..39d9ff7 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -1,3 +1,4 @@
+import copy
 import numbers
 
 import numpy as np
@@ -59,6 +60,11 @@ class LaminateProperty(Property):
     '''
 
     def __init__(self, stacking, plies):
+        # the lists and dictionaries given stay with the caller, who may change them later
+        stacking = copy.deepcopy(stacking)
+        if not isinstance(plies, Material):
+            plies = copy.copy(plies)
+
         # Checking layup
         if not isinstance(stacking, dict): # implements angle stacking sequence
             if isinstance(plies, Material):
-- 
2.43.0


From 6a057bf86182dc878e000e18cc14cc9746fcdf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 20/21] fix: plates keep their constraints when the dictionary
 given or shown by another plate is changed

---
 composipy/core/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index ad6afbf..daf8c10 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import matplotlib.pyplot as plt
 
@@ -97,7 +99,7 @@ class PlateStructure(Structure):
         self.__dproperty = self._is_instance(dproperty, Property, 'dproperty')
         self.__a = self._float_number(a, n_min=0, name='a')
         self.__b = self._float_number(b, n_min=0, name='b')
-        self.__constraints = constraints
+        self.__constraints = copy.deepcopy(constraints) # the dictionary given may be changed or shared
         self.__Nxx = self._float_number(Nxx, name='Nxx')
         self.__Nyy = self._float_number(Nyy, name='Nyy')
         self.__Nxy = self._float_number(Nxy, name='Nxy')
-- 
2.43.0


From 6b9d8a79ffc2589439aa7af42a0a385747b99626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 21/21] fix: matrices, modes and constraints handed out are
 copies, changing them in place changed later results

---
 composipy/core/material.py  |  4 ++--
 composipy/core/property.py  | 10 +++++-----
 composipy/core/structure.py |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index e29b782..fa36e19 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -145,7 +145,7 @@ class OrthotropicMaterial(Material):
             self.__Q_0 = np.array([[Q11, Q12, 0],
                                    [Q12, Q22, 0],
                                    [0, 0, Q66]])
-        return self.__Q_0
+        return self.__Q_0.copy()
 
     def Invariants(self):
         '''
@@ -293,7 +293,7 @@ class IsotropicMaterial(Material):
             self.__Q_0 = np.array([[Q11, Q12, 0],
                                    [Q12, Q22, 0],
                                    [0, 0, Q66]])
-        return self.__Q_0
+        return self.__Q_0.copy()
 
     def __repr__(self):
         return (
diff --git a/composipy/core/property.py b/composipy/core/property.py
index 39d9ff7..d3d3e5c 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -154,7 +154,7 @@ class LaminateProperty(Property):
                     @ T_engineering
                     )
             self._Q_layup = Q_layup # only once it is complete, another thread may be reading it
-        return self._Q_layup
+        return [Q.copy() for Q in self._Q_layup]
      
     @property
     def T_layup(self):
@@ -179,7 +179,7 @@ class LaminateProperty(Property):
 
                 T_layup.append([T_real,T_engineering])
             self._T_layup = T_layup
-        return self._T_layup
+        return [[T.copy() for T in T_pair] for T_pair in self._T_layup]
 
     @property
     def A(self):
@@ -212,7 +212,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 A += (zk1-zk0) * i[1]
             self._A = A
-        return self._A
+        return self._A.copy()
     
     @property
     def B(self):
@@ -236,7 +236,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 B += (1/2) * (zk1**2-zk0**2) * i[1]
             self._B = B
-        return self._B
+        return self._B.copy()
     
     @property
     def D(self):
@@ -270,7 +270,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 D += (1/3) * (zk1**3-zk0**3) * i[1]
             self._D = D
-        return self._D
+        return self._D.copy()
 
     @property
     def ABD(self):
diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index daf8c10..e9387c3 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -125,7 +125,7 @@ class PlateStructure(Structure):
 
     @property
     def constraints(self):
-            return self.__constraints
+            return copy.deepcopy(self.__constraints)
     
     @property
     def Nxx(self):
@@ -389,7 +389,7 @@ class PlateStructure(Structure):
              print(f'eigenvalues calculated in {time()-ti} seconds')
 
         self.eigenvalue, self.eigenvector = eigvals, eigvecs
-        return eigvals, eigvecs
+        return eigvals.copy(), eigvecs.copy()
     
     def plot_eigenvalue(self, nth=0, ngridx=20, ngridy=20):
         if (not isinstance(self.eigenvalue, np.ndarray) 
-- 
2.43.0

