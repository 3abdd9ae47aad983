From f42150b70753235abc26c6ebe3bc3b71cf6af13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 01/42] fix: accept the documented 'hartree' and 'rydberg'
 energy unit names

The lower-cased unit name was compared with capitalised names, so the long
names documented for convert_energy were rejected.
---
 quantas/utils/physics/units.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..a65a3c4 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,26 +149,26 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
-    elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif old_scale.lower() in ['electron volt', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
-    elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
+    elif old_scale.lower() in ['kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
     else:
         raise NotImplementedError('%s scale is unsupported: supported scales '
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
-    elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif new_scale.lower() in ['electron volt', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
-    elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
+    elif new_scale.lower() in ['kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
     else:
         raise NotImplementedError('%s scale is unsupported: supported scales '
-- 
2.43.0


From ce2945c6c6c50c2e3ab6653424504652be88673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 02/42] fix: energy/pressure conversions no longer overwrite
 the caller's array

energy_to_pressure and pressure_to_energy scaled np.asarray(val) in place:
the input array was modified, and integer input raised a casting error.
---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index a65a3c4..74dd1b5 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [  1.60210478 320.42095571]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=np.float64)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022938 0.00045876]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=np.float64)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From 247e3bdf07875f8884fb58d7425d451b514d3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 03/42] fix: use 1e-10 m for the angstrom

'Angstrom star' is an X-ray wavelength standard (1.00001495e-10 m), not the
length unit used by the codes Quantas reads, and biased every volume-dependent
conversion by 4.5e-5.
---
 quantas/utils/physics/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 74dd1b5..daa0b48 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom                  # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
@@ -308,7 +308,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import energy_to_pressure
     >>> energy_to_pressure([0.001, 0.2], 'eV', 'angstrom', 'gpa')
-    [  1.60210478 320.42095571]
+    [ 0.16021766 32.04353268]
 
     """
     res = np.array(val, dtype=np.float64)
@@ -403,7 +403,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import pressure_to_energy
     >>> pressure_to_energy([1., 2.], 'ha', 'angstrom', 'gpa')
-    [0.00022938 0.00045876]
+    [0.00022937 0.00045874]
 
     """
     res = np.array(val, dtype=np.float64)
@@ -588,7 +588,7 @@ def convert_volume(val, old_scale, new_scale):
     --------
     >>> from quantascli.utils.units import convert_volume
     >>> convert_volume(10.9897, 'Angstrom', 'bohr')
-    74.1654978184323
+    74.16217159530973
 
     """
     # Convert from `old_scale` to metres
-- 
2.43.0


From 01d1d35c9e9adb0164237200d2e7ab11d1c4c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 04/42] fix: report the first axis of shear modulus and
 Poisson's ratio extrema

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..ef73020 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -420,8 +420,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From 3bc8805369e27efdfbfe8527d7cede0bb94f6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 05/42] fix: recognise trigonal, tetragonal and hexagonal
 elastic matrices correctly

---
 quantas/soec/utils/symmetry.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..f0129bb 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8, -9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -117,8 +117,8 @@ def run_check(m, symmetry):
     for i in range(0,22):
         l = []
         for key in Cij_map.keys():
-            # Collect the combinations
-            if Cij_map[key] == i:
+            # Collect the combinations (negative: entries of opposite sign)
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,14 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    sign = np.sign(Cij_map[k[0]] * Cij_map[k[1]])
+                    if abs(m[k[0]] - sign * m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ('hexagonal', 'trigonal_high', 'trigonal_low'):
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From a2e56e3f8cd61c365f8575662d8a70ce836e97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 06/42] fix: detect mechanically unstable stiffness matrices

---
 quantas/soec/soec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index ef73020..28e9a64 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -245,11 +245,12 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
+        if np.any(np.asarray(eigv) <= 0):
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
             self.echo(msg)
             self.echo('No further analysis will be performed.')
+            self.error = msg
             return
         #
         # Calculate variations of the mechanical properties
-- 
2.43.0


From 7a8124d1dc686887fb9f2d7f2c87f08a950775fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 07/42] fix: azimuth of wave and group directions measured from
 the x axis

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From 20fc17dc96b04ec4389fd26964af16ee50f5938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 08/42] fix: return the cofactor matrix from fast_math.cofactor

---
 quantas/utils/math/fast_math.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/utils/math/fast_math.pyx b/quantas/utils/math/fast_math.pyx
index 8c259f3..38034d9 100644
--- a/quantas/utils/math/fast_math.pyx
+++ b/quantas/utils/math/fast_math.pyx
@@ -129,5 +129,5 @@ cpdef cofactor(double[:,::1] mat):
     c[2][0] = m[0][1]*m[1][2] - m[0][2]*m[1][1]
     c[2][1] = m[0][2]*m[1][0] - m[0][0]*m[1][2]
     c[2][2] = m[0][0]*m[1][1] - m[0][1]*m[1][0]
-    return
+    return cof
 
-- 
2.43.0


From e8f0f1fe36b379c9d19a9a4c2c6f75ac591231b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 09/42] fix: polynomial helpers accept any memory layout and
 scalar points

---
 quantas/utils/math/polynomials.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/quantas/utils/math/polynomials.py b/quantas/utils/math/polynomials.py
index 7c6071e..4962a92 100644
--- a/quantas/utils/math/polynomials.py
+++ b/quantas/utils/math/polynomials.py
@@ -20,7 +20,13 @@ def polyfit(X, Y, degree):
     if len(Y.shape) == 1:
         return np.polynomial.polynomial.polyfit(X, Y, degree)
     else:
-        return np.polynomial.polynomial.polyfit(X, Y.T, degree).T
+        # the compiled helpers work on C-contiguous arrays
+        return np.ascontiguousarray(
+            np.polynomial.polynomial.polyfit(X, Y.T, degree).T)
+
+def _contiguous(values):
+    """ Return an array with the memory layout of the compiled helpers """
+    return np.ascontiguousarray(values, dtype=np.float64)
 
 def single_R_squared(X, Y, pars):
     """ Calculates the R-squared values related to a polynomial fit """
@@ -36,7 +42,7 @@ def R_squared(X, Y, pars):
     if len(Y.shape) == 1:
         return single_R_squared(X, Y, pars)
     else:
-        return multi_R2(X, Y, pars)
+        return multi_R2(_contiguous(X), _contiguous(Y), _contiguous(pars))
 
 def interpolate(X, pars):
     """
@@ -46,12 +52,18 @@ def interpolate(X, pars):
     elif len(pars.shape) == 1 and type(X) == np.ndarray:
         values = np.polynomial.polynomial.polyval(X, pars)
     elif len(pars.shape) == 2:
-        values = multi_interpolate(X, pars)
+        if type(X) == np.ndarray:
+            X = _contiguous(X)
+        values = multi_interpolate(X, _contiguous(pars))
     elif len(pars.shape) == 3:
-        values = np.zeros( (pars.shape[0], pars.shape[1], X.shape[0]),
-                           dtype = np.float64)
+        if type(X) == np.ndarray:
+            X = _contiguous(X)
+            shape = (pars.shape[0], pars.shape[1], X.shape[0])
+        else:
+            shape = (pars.shape[0], pars.shape[1])
+        values = np.zeros(shape, dtype=np.float64)
         for i in range(pars.shape[0]):
-            values[i] = multi_interpolate(X, pars[i])
+            values[i] = multi_interpolate(X, _contiguous(pars[i]))
     return values
 
 def find_polynomial_minimum(parameters, addendum=None):
-- 
2.43.0


From 2eda5a4f0d2b261a7bc2eb5c4c04e50754a45b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 10/42] fix: entropy integrand and upper limit of the Kieffer
 model

---
 quantas/qha/utils/kieffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..b967d09 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -211,7 +211,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
@@ -227,7 +227,7 @@ class Kieffer(object):
         wmin = 1.e-6
         wmax = xnti/temperature
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From c6db367b5590681aca7b18d28e1391abf99a1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 11/42] fix: pressure of third-order E(V) fits uses the implied
 K''

---
 quantas/qha/utils/ev_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..6767d7c 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -370,5 +370,5 @@ class EnergyEOS(object):
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
         # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From cc227b933087e02aa55aaa4495e6c7c7a444b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 12/42] fix: implied K'' of the Vinet equation of state

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..f739887 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -732,7 +732,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From 9da4c972691e49c4e5df26108ce7fcde3898a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 13/42] fix: axial fits keep the given (and fixed) modulus and
 the caller's guess

---
 quantas/eosfit/utils/pv_eos.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index f739887..8b4e686 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,15 +138,15 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            p0 = np.array(guess, dtype=np.float64)
         except TypeError:
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
+            #
+            # Check if we're going to perform a linearized fit
+            if linear == True:
+                p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From 242b369930ffe9de948cb62b08cd90289385aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 14/42] fix: interactive EoS fits no longer use the removed
 numpy aliases

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From 53bf30adcf72c518b30ba113fc0c6d8403d3ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 15/42] fix: eosfit --outfile no longer crashes

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From b26ef5779278a45b7542764ecb12a4cdad193020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 16/42] fix: tell the job name of an elastic-constant file from
 a row of numbers by all its words, not by its first character

---
 quantas/IO/soec_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..3e97354 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -108,9 +108,13 @@ class SOECInputFileReader(BasicReader):
             return
 
         # Does the first line contain the job name?
+        # (a row of the matrix contains only numbers)
         line = data[0]
+        words = line.split()
         try:
-            np.float64(line.strip()[0])
+            np.float64(words[0])
+            for word in words:
+                np.float64(word)
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From 13d5351f7c49f9df676f0097441a4ebfd8e0b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 17/42] fix: place lower-triangular elastic constants in the
 lower triangle and reject blocks of any other shape

---
 quantas/IO/soec_reader.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 3e97354..5adf3e4 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -128,6 +128,16 @@ class SOECInputFileReader(BasicReader):
             self.error += 'shape.\nPlease, check the input file and retry.'
             return
 
+        # Take its form from the string matrix
+        form = []
+        for i in range(6):
+            form.append(len(matstr[i].split()))
+        if form not in ([6,6,6,6,6,6], [6,5,4,3,2,1], [1,2,3,4,5,6]):
+            self.error = 'The SOEC matrix does not have the expected (6, 6) '
+            self.error += 'shape.\nPlease, check the input file and retry.'
+            return
+        lower = form == [1,2,3,4,5,6]
+
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
         try:
@@ -135,20 +145,16 @@ class SOECInputFileReader(BasicReader):
                 line = matstr[i].split()
                 n = len(line)
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    matrix[i][j if lower else j+(6-n)] = line[j]
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
         else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
             # Check matrix symmetry and make it 6x6
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
-            if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+            if lower:  # lower triangular
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From 3682cb0358cf5e844a9c58d10b3d0041a19ee752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 18/42] fix: give every reader, input creator and exporter its
 own data instead of sharing it through the class

---
 quantas/IO/eos_reader.py         | 31 ++++++++++++-------------
 quantas/IO/qha_writer.py         |  5 ++--
 quantas/IO/soec_reader.py        | 12 +++++-----
 quantas/harmonic/utils/export.py | 10 +++++---
 quantas/interfaces/crystal.py    | 40 ++++++++++++++++----------------
 quantas/interfaces/vasp.py       | 10 ++++----
 quantas/qha/utils/export.py      | 10 +++++---
 quantas/seismic/utils/export.py  |  4 +++-
 quantas/soec/utils/export.py     |  4 +++-
 9 files changed, 68 insertions(+), 58 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..706df6c 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -31,20 +31,6 @@ class EoSInputFileReader(BasicReader):
 
     """
 
-    _data ={
-        'job': 'Unknown',   # Job name
-        'v': None,          # Volume values
-        'sigmav': None,     # Error in volume measures
-        'p': None,          # Pressure values
-        'sigmap': None,     # Error in pressure measures
-        'a': None,          # a lattice parameter values
-        'sigmaa': None,     # Error in a-axis measures
-        'b': None,          # b lattice parameter values
-        'sigmab': None,     # Error in b-axis measures
-        'c': None,          # c lattice parameter values
-        'sigmac': None,     # Error in a-axis measures
-        }
-
     _formats = [
         'v', 'sigmav',
         'p', 'sigmap',
@@ -66,8 +52,6 @@ class EoSInputFileReader(BasicReader):
         'sigmac': ['sigmac', 'sigc'],
         }
 
-    _format = {}
-
     def __init__(self, eos_input):
         """
         Constructor method of the class.
@@ -167,6 +151,21 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
+        self._data = {
+            'job': 'Unknown',   # Job name
+            'v': None,          # Volume values
+            'sigmav': None,     # Error in volume measures
+            'p': None,          # Pressure values
+            'sigmap': None,     # Error in pressure measures
+            'a': None,          # a lattice parameter values
+            'sigmaa': None,     # Error in a-axis measures
+            'b': None,          # b lattice parameter values
+            'sigmab': None,     # Error in b-axis measures
+            'c': None,          # c lattice parameter values
+            'sigmac': None,     # Error in a-axis measures
+            }
+        self._format = {}
+
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..406a872 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -31,13 +31,12 @@ class QHAInputCreator(object):
         }
     
     interface = None
-    phondata = []
-    reference = {}
-
     def __init__(self, interface=None):
         """
         """
         self.interface_flag = interface
+        self.phondata = []
+        self.reference = {}
         return
 
     def read(self, filename, is_list, reference=0, use_symm=False):
diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 5adf3e4..6b0818c 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -31,12 +31,6 @@ class SOECInputFileReader(BasicReader):
         Text explaining the error encountered in the input file.
     """
 
-    _data ={
-        'job': 'Unknown',
-        'stiffness': None,
-        'density': 0.
-        }
-
     def __init__(self, soec_input):
         """ Class constructor.
 
@@ -99,6 +93,12 @@ class SOECInputFileReader(BasicReader):
 
         """
 
+        self._data = {
+            'job': 'Unknown',
+            'stiffness': None,
+            'density': 0.
+            }
+
         with open(filename, 'r') as f:
             data = f.readlines()
 
diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..928ff32 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -20,18 +20,22 @@ from .table import QHATableFile
 class QuantasHarmonicExport(object):
     '''
     '''
-    x = {}
-    y = {}
-    data = {}
     error = None
 
     def __init__(self):
         ''' Constructor method '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
         '''
         '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
+        self.error = None
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..44b77af 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -791,21 +791,6 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
-
     def __init__(self, crystal_output):
         BasicReader.__init__(self, crystal_output)
         return
@@ -814,6 +799,21 @@ class CrystalQHAReader(BasicReader):
         """
 
         """
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
+
         if not self.is_qha(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to QHA calculations'
@@ -1420,11 +1420,6 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
@@ -1434,6 +1429,11 @@ class CrystalSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to elastic constants calculations'
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..36713b9 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,11 +20,6 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
@@ -34,6 +29,11 @@ class VASPSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = "'{}' does not appear to be a VASP output\n".format(
                 file)
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..b956fdb 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -20,18 +20,22 @@ from .table import QHATableFile
 class QuantasQHAExport(object):
     """
     """
-    x = {}
-    y = {}
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
         """
         """
+        self.x = {}
+        self.y = {}
+        self.data = {}
+        self.error = None
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 69329a2..05521a9 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -25,17 +25,19 @@ dl += '{: >9.5f} {: >8.3f} {: >9.5f} {: >9.5f} {: >9.5f} {: >9.4f} {: >9.4f}\n'
 class QuantasSeismicExport(object):
     """
     """
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
         """
 
         """
+        self.data = {}
+        self.error = None
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..7e51757 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -21,16 +21,18 @@ from .table import SOECTableFile
 class QuantasSOECExport(object):
     """
     """
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
         """
         """
+        self.data = {}
+        self.error = None
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
-- 
2.43.0


From d3b23dfad97da2fbe042555b6512b6926fc155fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 19/42] fix: rearrange the elastic constants of VASP (XX YY ZZ
 XY YZ ZX) to the Voigt order

---
 quantas/interfaces/vasp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 36713b9..2ca4b47 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -56,8 +56,9 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # From the VASP order (XX, YY, ZZ, XY, YZ, ZX) to the Voigt one
+        voigt = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][voigt][:, voigt]
 
         self.completed = True
         return
-- 
2.43.0


From 30636fffdbbdee62e3daab623d0ed7a2e06afa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 20/42] fix: report incomplete or inconsistent phonon input
 files instead of reading them partially; read blank-separated values and any
 job name

---
 quantas/IO/qha_reader.py | 66 ++++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..b72a44c 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -65,20 +65,58 @@ class QHAInputFileReader(BasicReader):
                     self.error += '\n\nPlease, correct data and retry.'
             except UnicodeDecodeError:
                 self.error = "The provided input is not a YAML file."
-        self._check()
+        try:
+            self._check()
+        except (AttributeError, TypeError, ValueError):
+            self.error = 'Unexpected kind of values in input file'
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if self.error is not None:
             return
-        if not 'volume' in self._data:
-            self.error = 'No volume values in input file'
+        if not isinstance(self._data, dict):
+            self.error = 'No data in input file'
             return
-        if not 'energy' in self._data:
-            self.error = 'No energy values in input file'
+        mandatory = (
+            ('volume', 'volume values'),
+            ('energy', 'energy values'),
+            ('phonon', 'phonon data'),
+            ('natom', 'number of atoms'),
+            ('qpoints', 'number of q-points'),
+            ('supercell', 'supercell expansion matrix'),
+            )
+        for key, description in mandatory:
+            if self._data.get(key) is None:
+                self.error = 'No {} in input file'.format(description)
+                return
+        for i, q in enumerate(self._data['phonon']):
+            for key in ('weight', 'band'):
+                if q.get(key) is None:
+                    self.error = 'No {} for q-point {} in input file'.format(
+                        key, i + 1)
+                    return
+            if np.size(self._get_float(q['weight'])) != 1:
+                self.error = 'Wrong weight for q-point {} in input file'.format(
+                    i + 1)
+                return
+            if len(q['band']) != self.natoms * 3:
+                self.error = 'Wrong number of phonon bands for q-point '
+                self.error += '{} in input file'.format(i + 1)
+                return
+            for j, band in enumerate(q['band']):
+                if (band is None or band.get('frequency') is None or
+                        np.size(self._get_float(band['frequency']))
+                        != self.nvol):
+                    self.error = 'Wrong number of frequencies for band '
+                    self.error += '{} of q-point {} in input file'.format(
+                        j + 1, i + 1)
+                    return
+        if np.size(self.energy) != self.nvol:
+            self.error = 'Volume and energy values in input file are not '
+            self.error += 'the same number'
             return
-        if not 'phonon' in self._data:
-            self.error = 'No phonon data in input file'
+        if len(self._data['phonon']) > self.qpoints:
+            self.error = 'More phonon data than q-points in input file'
             return
         self.completed = True
         return
@@ -88,18 +126,22 @@ class QHAInputFileReader(BasicReader):
         try:
             return np.float64(item)
         except ValueError:
-            return np.array(item[0].split(), dtype=np.float64)
+            if not isinstance(item, str):
+                item = ' '.join(str(x) for x in item)
+            return np.array(item.split(), dtype=np.float64)
 
     @staticmethod
     def _get_int(item):
         try:
             return np.int64(item)
         except ValueError:
-            return np.array(item[0].split(), dtype=np.int64)
+            if not isinstance(item, str):
+                item = ' '.join(str(x) for x in item)
+            return np.array(item.split(), dtype=np.int64)
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return str(item).rstrip()
 
     @property
     def data(self):
@@ -107,7 +149,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def jobname(self):
-        if 'job' in self._data:
+        if self._data.get('job') is not None:
             return self._get_string(self._data['job'])
         else:
             return 'Unknown'
-- 
2.43.0


From ea60524fb969741f1d8de9b4153cacd3690d647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 21/42] fix: quote the job name of generated phonon input files

---
 quantas/IO/qha_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 406a872..508527e 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -108,7 +108,7 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append("job: '{}'".format(jobname.replace("'", "''")))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -160,7 +160,7 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append("job: '{}'".format(jobname.replace("'", "''")))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From b4defb24b2109a4dff053e496540e365ee0d3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 22/42] fix: reject a reference file number outside the list of
 input files

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From f0f97d58ca96f0b0e616230ad72d81b28b593d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 23/42] fix: EoS data files: uncertainty aliases reach their
 quantity, missing or malformed data are reported, and reading always ends

---
 quantas/IO/eos_reader.py | 51 +++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 706df6c..8ef5645 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -169,20 +169,28 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        name = None
         for i in range(len(data)):
             line = data[i]
             # If empty or commented (#) lines are found, skip them
             if self.is_comment(line):
                 continue
 
+            # The first word of the job name is not a keyword
+            if i == name and len(line.split()) > 1:
+                continue
+
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                name = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
                 self.set_data(data, i)
 
+        if self.error is None and self._data['p'] is None:
+            self.error = 'No data (DATA keyword) provided in input file'
+
         if not isinstance(self.error, type(None)):
             self.completed = False
         else:
@@ -202,14 +210,21 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int or None
+            Index of the line where the name of the job is, None if the file
+            ends before.
+
         """
-        while self._data['job'] == 'Unknown':
-            line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
+        while idx < len(inpdata):
+            if self.is_comment(inpdata[idx]):
                 idx += 1
             else:
-                self._data['job'] = line
-        return
+                self._data['job'] = inpdata[idx].rstrip('\n')
+                return idx
+        return None
 
     def set_data_format(self, inpdata, idx):
         """
@@ -227,7 +242,7 @@ class EoSInputFileReader(BasicReader):
 
         """
         found = False
-        while not found:
+        while not found and idx < len(inpdata):
             line = inpdata[idx]
             if self.is_comment(line):
                 idx += 1
@@ -238,7 +253,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
@@ -259,10 +274,14 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if 'p' not in self._format:
             self.error = 'No pressure data provided in input file'
             return
 
+        if not any(q in self._format for q in ['v', 'a', 'b', 'c']):
+            self.error = 'No structural data provided in input file'
+            return
+
         data = {}
         for quantity in self._format:
             data[quantity] = []
@@ -283,8 +302,18 @@ class EoSInputFileReader(BasicReader):
                 stop = True
                 continue
 
-            for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+            try:
+                for quantity, n in self._format.items():
+                    data[quantity].append(float(values[n]))
+            except (IndexError, ValueError):
+                self.error = 'Wrong or missing values at line {} of the input '
+                self.error += 'file'
+                self.error = self.error.format(idx+1)
+                return
+
+        if len(data['p']) == 0:
+            self.error = 'No data (DATA keyword) provided in input file'
+            return
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-- 
2.43.0


From a74a81683e29c205d1d0b264ba779e3e6f488186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 24/42] fix: cell volumes and numbers of k-points do not depend
 on the handedness of the printed vectors

---
 quantas/IO/qha_reader.py      |  2 +-
 quantas/interfaces/crystal.py | 15 ++++++++-------
 quantas/interfaces/phonopy.py |  4 ++--
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index b72a44c..3ef7ebf 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -160,7 +160,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        return int(np.around(np.abs(np.linalg.det(self._data['supercell'])),0))
 
     @property
     def qpoints(self):
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 44b77af..c18d571 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -301,11 +301,11 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                return np.abs(np.linalg.det(self._data['unitcell']['lattice']))
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                return np.abs(np.linalg.det(self._data['supercell']['lattice']))
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            return np.abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -403,7 +403,7 @@ class CrystalPhononReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(np.abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
@@ -1012,7 +1012,7 @@ class CrystalQHAReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(np.abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def energy(self):
@@ -1029,7 +1029,8 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = np.abs(
+                np.linalg.det(self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1305,7 +1306,7 @@ class CrystalQHAReader(BasicReader):
         """
         indexes = []
         for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
+            volume = np.abs(np.linalg.det(cells[i]['lattice']))
             for j in range(len(cells)):
                 if np.isclose(volume, ordered_volumes[j]):
                     indexes.append(j)
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..30324b4 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -168,7 +168,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return np.abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -176,7 +176,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(np.abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
-- 
2.43.0


From fced61610f89b8449731850c278824df4985af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 25/42] fix: report incomplete CRYSTAL phonon outputs instead
 of never ending or crashing

---
 quantas/interfaces/crystal.py | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index c18d571..98c129e 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -91,6 +91,19 @@ class CrystalPhononReader(BasicReader):
             self.error += 'output \nrelated to phonon calculations'
             return
 
+        try:
+            self._collect(file)
+        except (IndexError, TypeError, ValueError):
+            self.error = 'Incomplete or malformed data in {0}'.format(file)
+            return
+        #
+        self._check(file)
+        return
+
+    def _collect(self, file):
+        """
+        Collect the data from the CRYSTAL output file.
+        """
         self.supercell_on = self.is_supercell(file)
         self.scelphono_on = self.is_phonon_dispersion(file)
         #
@@ -101,19 +114,20 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 self._data['supercell']['lattice'], np.linalg.inv(self.dim))
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
 
         else:
             self.unitcell = self.set_wf_cell(file)
             self.supercell = self.set_wf_cell(file)
+
+        if self.supercell_on and self.scelphono_on:
+            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                          self.set_q_mesh(file)
+        else:
             self.qcoords = [[0., 0., 0.]]
             self.weights = [1]
         # Collect energy values and phonons
         self._data['energy'] = self.set_energy(file)
         self.phonons = self.set_phonons(file)
-        #
-        self._check(file)
         return
 
     def _check(self, file):
@@ -128,6 +142,9 @@ class CrystalPhononReader(BasicReader):
         if not bool(self.phonons):
             self.error = 'No phonon data in {0}'.format(file)
             return
+        if len(self.phonons) != self.qpoints:
+            self.error = 'Missing phonon bands in {0}'.format(file)
+            return
         self.completed = True
         return
 
@@ -732,7 +749,7 @@ class CrystalPhononReader(BasicReader):
                 line_counter = 0
                 freq_counter = 0
 
-                while not finished or freq_counter != self.nphonon:
+                while not finished:
                     line = data[i + line_counter + 2].split()
 
                     if len(line) == 0:
@@ -748,6 +765,9 @@ class CrystalPhononReader(BasicReader):
 
                     line_counter += 1
 
+                if freq_counter != self.nphonon:
+                    raise ValueError('Incomplete phonon band')
+
                 phonons[band_counter] = band
                 band_counter +=1
 
@@ -819,6 +839,16 @@ class CrystalQHAReader(BasicReader):
             self.error += 'output \nrelated to QHA calculations'
             return
 
+        try:
+            self._collect(file)
+        except (IndexError, ValueError):
+            self.error = 'Incomplete or malformed data in {0}'.format(file)
+        return
+
+    def _collect(self, file):
+        """
+        Collect the data from the CRYSTAL output file.
+        """
         self.points = self.set_qha_points(file)
         if self.points < 1:
             self.error = 'This QHA file seems to not contain any volume'
@@ -1146,7 +1176,7 @@ class CrystalQHAReader(BasicReader):
             data = f.readlines()
 
         points = 0
-        for i in range(sline, sline+100):
+        for i in range(sline, min(sline+100, len(data))):
             if len(data[i].split()) != 2:
                 break
             else:
-- 
2.43.0


From f37ebaba2edcf6cc0ea24e06b9e927840d81ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 26/42] fix: phonopy outputs: report malformed YAML files, keep
 the fractional atomic coordinates

---
 quantas/interfaces/phonopy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30324b4..d1f751e 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -104,7 +104,7 @@ class PhonopyReader(BasicReader):
                 self.error = exception
                 return
         else:
-            self.error = ' File not found!'.format(file)
+            self.error = 'File {} not found!'.format(file)
             return
 
         self.unitcell = self.set_unit_cell(idata)
@@ -209,8 +209,9 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as exc:
                 error = True
+                exception = 'Error in parsing YAML file: {}'.format(exc)
             return error, exception, idata
 
     def set_displacements(self, idata):
@@ -220,7 +221,7 @@ class PhonopyReader(BasicReader):
 
         natom = len(idata['supercell']['points'])
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['supercell']['lattice']
 
         for i in range(natom):
@@ -235,7 +236,7 @@ class PhonopyReader(BasicReader):
         """
         natom = idata['natom']
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['lattice']
 
         for i in range(natom):
-- 
2.43.0


From a8569774bcad68463d474981c4e38300f24bbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 27/42] fix: QHA result files: isobaric heat capacities are
 stored in milli energy units

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..708f04c 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1280,7 +1280,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ('S', 'Cv', 'Cp', 'Cp-Cv'):
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 2a7e4a05c6c6a9f9ffb438f7cf0c5d6ce4c6316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 28/42] fix: QHA result files: store the job name instead of
 "Unknown"

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 708f04c..9c1b8a9 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1244,7 +1244,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
-- 
2.43.0


From 91f0020f03766ea1dc0136a4eb7e4bf7bf26f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 29/42] fix: SOEC result files: store the compliance in TPa^-1,
 as labelled

---
 quantas/soec/soec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 28e9a64..ff9feb9 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -542,7 +542,8 @@ It contains the results of the analysis of the second-order elastic constants
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset('compliance',
+                                    data=self.soec.compliance*1000)
             dset.attrs['unit'] = 'TPa^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
-- 
2.43.0


From 6316010ebcae0caf59a236de464b8c7618f33452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 30/42] fix: SOEC result files: no rows of zeros for properties
 that were not calculated

---
 quantas/soec/soec.py | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index ff9feb9..eeab519 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -127,27 +127,9 @@ class SOECCalculator(BasicCalculator):
             'avgs': None,
             'eigv': None,
             'polar': {
-                'xy': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'xz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'yz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    }
+                'xy': {},
+                'xz': {},
+                'yz': {},
                 },
             }
         return results_dict
-- 
2.43.0


From 1a2da284bdd58896efe0fc25180fa7c1401e7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:08 +0000
Subject: [PATCH 31/42] fix: HA tables: export static and zero-point energies,
 which do not depend on temperature

---
 quantas/harmonic/utils/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..a9f5079 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -8,6 +8,8 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import numpy as np
+
 # ---------------------------------------------------------------------------#
 # Formatting constants
 # ---------------------------------------------------------------------------#
@@ -133,6 +135,8 @@ class QHATableFile():
               y, yname, yunit,
               z, zname, zunit
               ):
+        # Quantities that do not depend on the first variable
+        z = np.broadcast_to(z, (len(x), len(y)))
         with open(outfile, 'wt', encoding='utf8') as f:
             totw, dataw = calc_space(len(y))
             # Write the header
-- 
2.43.0


From 4d592e573550f05c35b11e79eb574bc224598999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:08 +0000
Subject: [PATCH 32/42] fix: SOEC export: offer the polar properties in the
 file, report files without any

---
 quantas/soec/utils/export.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 7e51757..8e5fe7f 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -48,16 +48,22 @@ class QuantasSOECExport(object):
                 self.error += ' file'
                 return
 
-            self.keys = ['E', 'LC', 'G', 'Nu']
+            self.keys = []
             for key in f.keys():
                 if not 'polar_' in key:
                     continue
                 else:
-                    if 'waves' in key and not 'waves' in self.keys:
-                        self.keys.append('waves')
+                    name = key.split('_')[1]
+                    if not name in self.keys:
+                        self.keys.append(name)
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+
+            if not self.keys:
+                self.error = 'This file does not contain any data on the '
+                self.error += 'variation of the elastic properties on the '
+                self.error += '(xy), (xz) and (yz) planes'
         return
 
     def run(self):
-- 
2.43.0


From 89cefd9b1d7d9da33a7f32e552c8eb82b3426a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:08 +0000
Subject: [PATCH 33/42] fix: HDF5 reader and export: report data and attributes
 that are not in the file

---
 quantas/IO/hdf5_export.py | 2 +-
 quantas/IO/hdf5_reader.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index 5677555..91e6fce 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -42,7 +42,7 @@ class QuantasHDF5Export(object):
             elif var.lower() == 'quit':
                 stop = True
                 continue
-            elif not self._reader.has_data(var):
+            elif self._reader.has_data(var) != True:
                 print('Error: {}'.format(self._reader.has_data(var)))
                 continue
             else:
diff --git a/quantas/IO/hdf5_reader.py b/quantas/IO/hdf5_reader.py
index b77784b..f95c455 100644
--- a/quantas/IO/hdf5_reader.py
+++ b/quantas/IO/hdf5_reader.py
@@ -69,9 +69,9 @@ class QuantasHDF5Reader(object):
                 return 'Index {0} not available'.format(row)
 
     def get_attribute(self, key, attribute):
-        if not self.__has_dataset(key):
+        if self.__has_dataset(key) != True:
             return self.__has_dataset(key)
-        elif not self.__has_attribute(key, attribute):
+        elif self.__has_attribute(key, attribute) != True:
             return self.__has_attribute(key, attribute)
         else:
             with h5py.File(self.settings['input'], 'r') as f:
-- 
2.43.0


From c750891efe563ff394965b990aa2def6ecb8b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 34/42] fix: HDF5 export: thermal expansion is not a volume,
 print all its digits

---
 quantas/IO/hdf5_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index 91e6fce..17e598b 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -250,7 +250,7 @@ class QHATableFile():
         if name == 'Temperature':
             style = ttype
             label = 'T (' + unit + ')'
-        elif 'volume' in name.lower():
+        elif 'cell volume' in name.lower():
             style = vtype
             label = 'Volume (' + unit + ')'
         elif 'bulk modulus' in name.lower() or name == 'Pressure':
-- 
2.43.0


From 7c0c92ead4ce33600e15afaa924f2b1996f96133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 35/42] fix: HDF5 export: report files that do not hold (Q)HA
 results

---
 quantas/IO/hdf5_export.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index 17e598b..c44ede8 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -71,7 +71,10 @@ class QuantasHDF5Export(object):
         if 'This file was created with Quantas.' not in self._reader.info:
             error = 'The selected file does not appear as a Quantas output'
             return error
-        self.get_file_data()
+        if '(HA)' in self._reader.info or '(QHA)' in self._reader.info:
+            self.get_file_data()
+        else:
+            error = 'The selected file does not contain (Q)HA results'
         return error
 
     def report_input_data(self):
-- 
2.43.0


From 8addb7eaf0765e76a76bce579f184d3e4d826a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 36/42] fix: HDF5 export: quantities that do not depend on
 temperature, or are grid coordinates

---
 quantas/IO/hdf5_export.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index c44ede8..91fe55d 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -17,6 +17,7 @@ different file formats.
 """
 
 import os
+import numpy as np
 from quantas.IO.hdf5_reader import QuantasHDF5Reader
 
 
@@ -45,6 +46,9 @@ class QuantasHDF5Export(object):
             elif self._reader.has_data(var) != True:
                 print('Error: {}'.format(self._reader.has_data(var)))
                 continue
+            elif var in (self._x1, self._x2):
+                print("Error: '{}' is written in every table".format(var))
+                continue
             else:
                 outfile = self._outbase + '_{}'.format(var) + '.dat'
                 self.export_data(var, outfile)
@@ -237,7 +241,7 @@ class QHATableFile():
         self.ystyle, self.ylabel = self._set_style(yname, yunit)
         #
         # Set results data and style
-        self.z = z
+        self.z = np.broadcast_to(z, (len(x), len(y)))
         self.zname = zname
         self.zunit = zunit
         self.zstyle, self.zlabel = self._set_style(zname, zunit)
-- 
2.43.0


From 8635fc0d02b7508524cd3fb70ba83c0b088d541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 37/42] fix: readers keep nothing of an earlier file: error,
 completed flag, data, flags

---
 quantas/IO/eos_reader.py      |  2 ++
 quantas/IO/qha_reader.py      |  3 +++
 quantas/IO/soec_reader.py     |  2 ++
 quantas/interfaces/crystal.py | 10 ++++++++++
 quantas/interfaces/phonopy.py |  2 ++
 quantas/interfaces/vasp.py    |  2 ++
 6 files changed, 21 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 8ef5645..0ad6af7 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -151,6 +151,8 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
+        self.completed = False
+        self.error = None
         self._data = {
             'job': 'Unknown',   # Job name
             'v': None,          # Volume values
diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 3ef7ebf..f2d08bc 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -51,6 +51,9 @@ class QHAInputFileReader(BasicReader):
             Path to the input file
         
         """
+        self.completed = False
+        self.error = None
+        self._data = None
         with open(filename, 'r') as stream:
             try:
                 self._data = yaml.safe_load(stream)
diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 6b0818c..865c50b 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -93,6 +93,8 @@ class SOECInputFileReader(BasicReader):
 
         """
 
+        self.completed = False
+        self.error = None
         self._data = {
             'job': 'Unknown',
             'stiffness': None,
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 98c129e..90d91ce 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -72,6 +72,10 @@ class CrystalPhononReader(BasicReader):
             Path to the CRYSTAL output file.
 
         """
+        self.completed = False
+        self.error = None
+        self._is_supercell = False
+        self._is_scelphono = False
         self._data = {
             'unitcell': {},
             'supercell': {},
@@ -819,6 +823,10 @@ class CrystalQHAReader(BasicReader):
         """
 
         """
+        self.completed = False
+        self.error = None
+        self._is_supercell = False
+        self._is_restarted = False
         self._data = {
             'points': 0.,
             'unitcell': [],
@@ -1460,6 +1468,8 @@ class CrystalSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self.completed = False
+        self.error = None
         self._data = {
             'stiffness': np.zeros((6,6), dtype=float),
             'density': 0.
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index d1f751e..d7a8e70 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -65,6 +65,8 @@ class PhonopyReader(BasicReader):
 
         """
 
+        self.completed = False
+        self.error = None
         self._data = {
             'unitcell': {},
             'supercell': {},
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index 2ca4b47..59e39e2 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -29,6 +29,8 @@ class VASPSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self.completed = False
+        self.error = None
         self._data = {
             'stiffness': np.zeros((6,6), dtype=float),
             'density': 0.
-- 
2.43.0


From 2de7bcbe84ad4b0ab294dc7cdd76b1cfd08bc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 38/42] fix: calculators do not share their results and
 warnings

---
 quantas/core/calculator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index 2d35f01..b817b92 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -120,6 +120,8 @@ class BasicCalculator(object):
 
     def __init__(self):
         """ Constructor for the basic calculator. """
+        self.warnings = []
+        self._results = dict(self._results)
         return
 
     def read_input(self, filename):
-- 
2.43.0


From 74cec9741028491b9baf6eb395cc5b82b89ae025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 39/42] fix: input creators do not mix the data of successive
 reads

---
 quantas/IO/qha_writer.py  | 1 +
 quantas/IO/soec_writer.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 508527e..2a14403 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -47,6 +47,7 @@ class QHAInputCreator(object):
             return False, error
 
         c = 0
+        self.phondata = []
 
         if is_list:
             file_list = self.get_files_from_list(filename)
diff --git a/quantas/IO/soec_writer.py b/quantas/IO/soec_writer.py
index b06fdf1..9c034ff 100644
--- a/quantas/IO/soec_writer.py
+++ b/quantas/IO/soec_writer.py
@@ -43,6 +43,7 @@ class SOECInputCreator(object):
         filename: str
             Path to the output file.
         """
+        self.soec_data = None
         interface = self.interface_filter[self.interface_flag]
         data = interface(filename)
 
-- 
2.43.0


From 8167a71a2f18db0aa3187c3458f9ef3251a8f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:30 +0000
Subject: [PATCH 40/42] fix: polar shear modulus and Poisson ratio converge to
 the extremes over the measurement direction

With xtol=0.01 Powell's line search ran with a tolerance of 1 rad and could stop several percent away from the extremum.
---
 quantas/soec/utils/soec_obj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/soec/utils/soec_obj.py b/quantas/soec/utils/soec_obj.py
index 237b58b..3785e7a 100644
--- a/quantas/soec/utils/soec_obj.py
+++ b/quantas/soec/utils/soec_obj.py
@@ -339,8 +339,8 @@ class SOEC(object):
         return np.array([Vs, Vs, Vp])
 
     def shear_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
+        ftol = 0.0001
+        xtol = 0.0001
         def func1(z): return self.shear_modulus([x[0], x[1], z])
         r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
         def func2(z): return -self.shear_modulus([x[0], x[1], z])
@@ -348,8 +348,8 @@ class SOEC(object):
         return (float(r1.fun), -float(r2.fun))
 
     def poisson_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
+        ftol = 0.0001
+        xtol = 0.0001
         def func1(z): return self.poisson_ratio([x[0], x[1], z])
         r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
         def func2(z): return -self.poisson_ratio([x[0], x[1], z])
-- 
2.43.0


From dfd1f0202c0027867ea9faf1e87e41c68b5e56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 41/42] fix: label the printed quasi-harmonic volumes with the
 chosen length unit

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 9c1b8a9..c299154 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1205,7 +1205,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From 7f16aed634817a00834f7c58f8b9dba39d640d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 42/42] fix: real eigenvalues of the symmetric stiffness
 matrix, also when they are degenerate

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index eeab519..7c73ed1 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -215,7 +215,7 @@ class SOECCalculator(BasicCalculator):
         #
         # Calculate stiffness eigenvalues
         self.echo_debug(' - Calculation stiffness eigenvalues')
-        eigv = sorted(np.linalg.eig(self.soec.stiffness)[0])
+        eigv = sorted(np.linalg.eigvalsh(self.soec.stiffness))
         #
         # Report current data
         
-- 
2.43.0

