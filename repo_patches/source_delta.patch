From 2792046f424877d511835f579e351c3ab8b631aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 01/32] fix: use the decaying evanescent wave above the
 critical angle

For a transparent layer/backing the principal branch of arcsin gave the
growing wave: Delta was mirrored and thick layers overflowed to NaN.
---
 refellips/reflect_modelSE.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index cb1593f..27cfa2f 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -145,6 +145,11 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # kz is the z-component of (complex) angular wavevector for forward-moving
     # wave. Positive imaginary part means decaying.
     # kz_list.shape = (NLAYERS, NUMPOINTS)
+    # An evanescent wave in a transparent layer lies on the branch cut of
+    # arcsin, make sure that the decaying (forward) solution is used.
+    growing = np.imag(n_list[:, None] * np.cos(th_list)) < -100 * EPSILON
+    if growing.any():
+        th_list = np.where(growing, np.pi - th_list, th_list)
     kz_list = 2 * np.pi * n_list[:, None] * np.cos(th_list) / lam_vac
 
     if num_layers > 2:
-- 
2.43.0


From e7c623eb4cd7decc1684d16d715bd0727cf3d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 02/32] fix: don't truncate psi/delta when wavelengths and
 angles are integers

---
 refellips/reflect_modelSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 27cfa2f..306968b 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -379,7 +379,7 @@ class ReflectModelSE:
         if p is not None:
             self.parameters.pvals = np.array(p)
 
-        wavelength, aois = wavelength_aoi.T
+        wavelength, aois = np.asarray(wavelength_aoi, np.float64).T
         psi = np.zeros_like(wavelength)
         delta = np.zeros_like(wavelength)
 
-- 
2.43.0


From 8cfc3d420f59e0e1404a0bbbdcd26e3252ba048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 03/32] fix: RI must not rescale the caller's wavelength array
 in place

---
 refellips/dispersion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index d7170f6..52591df 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -90,8 +90,11 @@ class RI(ScattererSE):
             elif len(dispersion) == 3:
                 # this is if you have an (3, N) array or tuple specifying
                 # wavelength, RI, extinction coef.
-                # wavelength assumed to be in *nm*
-                self._wav, self._RI, self._EC = dispersion
+                # wavelength assumed to be in *um*
+                self._wav, self._RI, self._EC = [
+                    np.array(a, np.float64) for a in dispersion
+                ]
+                # convert wavelength from um to nm
                 self._wav *= 1000
             else:
                 raise TypeError("format not recognised")
-- 
2.43.0


From 0b6a5643a5aff8aefd4acd94b195aa94bd7cbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 04/32] fix: RI loaded from a file takes its name from the path

---
 refellips/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 52591df..e487f7b 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -73,7 +73,7 @@ class RI(ScattererSE):
             if type(dispersion) is str or isinstance(dispersion, PurePath):
                 if not len(name):
                     # if there is no name get it from the path
-                    name = os.path.basename(dispersion).split(".")[0]
+                    self.name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
                     dispersion, skiprows=1, delimiter=",", encoding="utf8"
-- 
2.43.0


From 05efac1602b466c4c74e8ef19bd54d84e8cff3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 05/32] fix: TaucLorentz is NaN for broad oscillators,
 sqrt(2)*En < C < 2*En

---
 refellips/dispersion.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index e487f7b..255004e 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -566,8 +566,9 @@ class TaucLorentz(ScattererSE):
         )
         a_atan = (energies**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * C**2
         alpha = np.sqrt(4 * Ei**2 - C**2)
-        gamma = np.sqrt(Ei**2 - C**2 / 2)
-        zeta4 = (energies**2 - gamma**2) ** 2 + 0.25 * alpha**2 * C**2
+        # gamma2 is negative if sqrt(2) * Ei < C < 2 * Ei
+        gamma2 = Ei**2 - C**2 / 2
+        zeta4 = (energies**2 - gamma2) ** 2 + 0.25 * alpha**2 * C**2
 
         e1 = (
             A
@@ -599,11 +600,11 @@ class TaucLorentz(ScattererSE):
             * A
             * Ei
             * Eg
-            * (energies**2 - gamma**2)
+            * (energies**2 - gamma2)
             / np.pi
             / zeta4
             / alpha
-            * (np.pi + 2 * np.arctan(2 * (gamma**2 - Eg**2) / alpha / C))
+            * (np.pi + 2 * np.arctan(2 * (gamma2 - Eg**2) / alpha / C))
         )
         e1 -= (
             A
-- 
2.43.0


From db184715f01877d0b4ccfc99f473e5af8c2e2fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 06/32] fix: TaucLorentz is NaN when evaluated exactly at the
 bandgap

---
 refellips/dispersion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 255004e..f9580cb 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -558,6 +558,9 @@ class TaucLorentz(ScattererSE):
         Ei = np.array(self.En)[:, None]
         Eg = self.Eg.value
         energies = np.asarray(energy, np.float64)
+        # the logarithmic divergences cancel at the bandgap, but can't be
+        # evaluated exactly there.
+        energies = np.where(energies == Eg, np.nextafter(Eg, np.inf), energies)
 
         a_ln = (
             (Eg**2 - Ei**2) * energies**2
-- 
2.43.0


From e22c7f105f3080eefe956c84c8469f111d3c679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 07/32] fix: Bruggeman EMA picked the root with gain for
 strongly absorbing media

---
 refellips/structureSE.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 407b914..17c617d 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -905,15 +905,16 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=RuntimeWarning)
-            v = (
-                b
-                + np.sqrt(
-                    b**2
-                    - 4
-                    * (depolarisation_factor - 1)
-                    * (E_a * E_b * depolarisation_factor)
-                )
-            ) / (2 * (1 - depolarisation_factor))
+            d = np.sqrt(
+                b**2
+                - 4
+                * (depolarisation_factor - 1)
+                * (E_a * E_b * depolarisation_factor)
+            )
+            v = (b + d) / (2 * (1 - depolarisation_factor))
+            v_other = (b - d) / (2 * (1 - depolarisation_factor))
+            # passive constituents can't mix to give a medium with gain
+            v = np.where(np.imag(v_other) > np.imag(v), v_other, v)
             E_avg = np.where(np.isfinite(v), v, 0)
     else:
         raise RuntimeError("No other method of mixing is known")
-- 
2.43.0


From 82d1e06c34b4861c2b15b5b1f0591e2a15ec28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 08/32] fix: Bruggeman EMA gave RI=0 for a depolarisation
 factor of 1

---
 refellips/structureSE.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 17c617d..0fc6d3f 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -905,16 +905,20 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=RuntimeWarning)
-            d = np.sqrt(
-                b**2
-                - 4
-                * (depolarisation_factor - 1)
-                * (E_a * E_b * depolarisation_factor)
-            )
-            v = (b + d) / (2 * (1 - depolarisation_factor))
-            v_other = (b - d) / (2 * (1 - depolarisation_factor))
-            # passive constituents can't mix to give a medium with gain
-            v = np.where(np.imag(v_other) > np.imag(v), v_other, v)
+            if depolarisation_factor == 1:
+                # the quadratic equation becomes linear
+                v = -E_a * E_b / b
+            else:
+                d = np.sqrt(
+                    b**2
+                    - 4
+                    * (depolarisation_factor - 1)
+                    * (E_a * E_b * depolarisation_factor)
+                )
+                v = (b + d) / (2 * (1 - depolarisation_factor))
+                v_other = (b - d) / (2 * (1 - depolarisation_factor))
+                # passive constituents can't mix to give a medium with gain
+                v = np.where(np.imag(v_other) > np.imag(v), v_other, v)
             E_avg = np.where(np.isfinite(v), v, 0)
     else:
         raise RuntimeError("No other method of mixing is known")
-- 
2.43.0


From dbfe2d33983efa0a7a9adc90174e8412374174ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 09/32] fix: solvate microsliced structures with the backing
 medium by default

---
 refellips/structureSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 0fc6d3f..f071bd3 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -838,7 +838,9 @@ class StructureSE(Structure):
             solv = solvent.complex(self.wavelength)
 
         if solv is None:
-            return slabs
+            # solvated by the backing medium, see StructureSE.solvent
+            backing = self.data[0 if self.reverse_structure else -1]
+            solv = complex(*backing.slabs(structure=self)[-1, 1:3])
 
         vf = slabs[..., 4]
         N = slabs[..., 1] + slabs[..., 2] * 1j
-- 
2.43.0


From 661139ad676cde906ad7a985d4671d2292c2f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 10/32] fix: copy.copy(StructureSE) lost the EMA, reversal and
 other settings

---
 refellips/structureSE.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index f071bd3..5805938 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -475,7 +475,15 @@ class StructureSE(Structure):
     sld_profile = None
 
     def __copy__(self):
-        s = StructureSE(name=self.name, solvent=self._solvent)
+        s = StructureSE(
+            name=self.name,
+            solvent=self._solvent,
+            reverse_structure=self.reverse_structure,
+            contract=self.contract,
+            wavelength=self.wavelength,
+            ema=self.ema,
+            depolarisation_factor=self.depolarisation_factor,
+        )
         s.data = self.data.copy()
         return s
 
-- 
2.43.0


From 98590efb0f1d644b49d5f1bdba1ee9407ea9f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 11/32] fix: validate the depolarisation factor when a
 StructureSE is created

---
 refellips/structureSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 5805938..a1ce66e 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -467,7 +467,7 @@ class StructureSE(Structure):
         self.data = [c for c in components if isinstance(c, ComponentSE)]
 
         self.ema = ema
-        self._depolarisation_factor = depolarisation_factor
+        self.depolarisation_factor = depolarisation_factor
 
         # we do this so micro-slicing can work
         self.overall_sld = self.overall_ri
-- 
2.43.0


From aa17dc2800db09fdccc9acd3749eda82106108d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 12/32] fix: circular_distance was negative/wrong for angles
 over a period apart

---
 refellips/objectiveSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index ce76f7d..6da4ea4 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -36,7 +36,7 @@ def circular_distance(angle1, angle2, period=360):
     Returns:
         float or np.ndarray: The shortest circular distance between the angles.
     """
-    diff = np.abs(angle1 - angle2)
+    diff = np.abs(angle1 - angle2) % period
     return np.minimum(diff, period - diff)
 
 
-- 
2.43.0


From 23647b5a6da3dacee3bb4e20022037126f7db5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 13/32] fix: ObjectiveSE.logl ignored logp_extra and model.logp

---
 refellips/objectiveSE.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 6da4ea4..26a0a77 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -416,7 +416,14 @@ class ObjectiveSE(BaseObjective):
         if np.isnan(logl).any():
             raise RuntimeError("ObjectiveSE.logl encountered a NaN.")
 
-        return -0.5 * np.sum(logl)
+        logl = -0.5 * np.sum(logl)
+
+        logl += self.model.logp()
+
+        if self.logp_extra is not None:
+            logl += self.logp_extra(self.model, self.data)
+
+        return logl
 
     def logpost(self, pvals=None):
         """
-- 
2.43.0


From b8c7f1bb444d0772023dd207160ec0e5bbd6631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:09 +0000
Subject: [PATCH 14/32] fix: objectives sharing a model changed each other's
 delta convention

---
 refellips/objectiveSE.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 26a0a77..86da708 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -117,6 +117,12 @@ class ObjectiveSE(BaseObjective):
 
         self.model._flip_delta = self.data._delta_flipped
 
+    def _generative(self, wavelength_aoi):
+        # the model may be shared with an objective whose data uses a different
+        # convention for delta.
+        self.model._flip_delta = self.data._delta_flipped
+        return self.model(wavelength_aoi)
+
     def __str__(self):
         s = ["{:_>80}".format("")]
         s.append("Objective - {0}".format(self.name))
@@ -200,7 +206,7 @@ class ObjectiveSE(BaseObjective):
 
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
-        psi, delta = self.model(wavelength_aoi)
+        psi, delta = self._generative(wavelength_aoi)
         delta_err = circular_distance(delta, delta_d, period=360)
         return np.r_[psi - psi_d, delta_err]
 
@@ -389,7 +395,7 @@ class ObjectiveSE(BaseObjective):
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
 
-        psi, delta = self.model(wavelength_aoi)
+        psi, delta = self._generative(wavelength_aoi)
 
         logl = 0.0
 
@@ -579,7 +585,7 @@ class ObjectiveSE(BaseObjective):
         """
 
         data = self.data
-        model = self.model
+        model = self._generative
 
         if fig is None:
             import matplotlib.pyplot as plt
-- 
2.43.0


From 757927f8aee3bbed0f6cab1590903491ab321844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 15/32] fix: DataSE(reflect_delta=True) overwrote the caller's
 delta values

---
 refellips/dataSE.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 50f3ba8..059c1f4 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -89,14 +89,15 @@ class DataSE(object):
             self._wavelength = data._wavelength
             self._aoi = data._aoi
             self._psi = data._psi
-            self._delta = data._delta
+            self._delta = np.array(data._delta)
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-            self._wavelength = data[0]
-            self._aoi = data[1]
-            self._psi = data[2]
-            self._delta = data[3]
+            # work on a copy, the caller's arrays shouldn't be modified
+            self._wavelength = np.array(data[0], dtype=float)
+            self._aoi = np.array(data[1], dtype=float)
+            self._psi = np.array(data[2], dtype=float)
+            self._delta = np.array(data[3], dtype=float)
 
         self._delta_flipped = False
         if reflect_delta:
-- 
2.43.0


From 00eee6b9a218a22d90f3deccb63b648d33705d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 16/32] fix: DataSE made from a DataSE lost its mask and delta
 convention

---
 refellips/dataSE.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 059c1f4..f66a3a2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -100,12 +100,16 @@ class DataSE(object):
             self._delta = np.array(data[3], dtype=float)
 
         self._delta_flipped = False
+        if isinstance(data, DataSE):
+            self._delta_flipped = data._delta_flipped
         if reflect_delta:
             dmask = self._delta > 180
             self._delta[dmask] = 360 - self._delta[dmask]
             self._delta_flipped = True
 
         self.mask = np.ones_like(self._wavelength, dtype=bool)
+        if isinstance(data, DataSE):
+            self.mask = np.array(data.mask)
 
     def __len__(self):
         """Number of unmasked points in the dataset."""
-- 
2.43.0


From 1518f9f4bd18363fbe740132354476b9e953b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 17/32] fix: make DataSE.mask work as documented

The mask constructor argument was ignored, `mask = None` made the data
two dimensional, and masks weren't broadcast or converted to bool.
---
 refellips/dataSE.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index f66a3a2..2f0f6bf 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -58,7 +58,13 @@ class DataSE(object):
     """
 
     def __init__(
-        self, data=None, name=None, delimiter="\t", reflect_delta=False, **kwds
+        self,
+        data=None,
+        name=None,
+        delimiter="\t",
+        reflect_delta=False,
+        mask=None,
+        **kwds,
     ):
         self.filename = None
 
@@ -107,9 +113,11 @@ class DataSE(object):
             self._delta[dmask] = 360 - self._delta[dmask]
             self._delta_flipped = True
 
-        self.mask = np.ones_like(self._wavelength, dtype=bool)
-        if isinstance(data, DataSE):
-            self.mask = np.array(data.mask)
+        self.mask = None
+        if mask is not None:
+            self.mask = mask
+        elif isinstance(data, DataSE):
+            self.mask = data.mask
 
     def __len__(self):
         """Number of unmasked points in the dataset."""
@@ -144,6 +152,19 @@ class DataSE(object):
             loc = np.where(self.wavelength == unique_wav)
             yield unique_wav, self.aoi[loc], self.psi[loc], self.delta[loc]
 
+    @property
+    def mask(self):
+        """mask, `True` if a point is included."""
+        return self._mask
+
+    @mask.setter
+    def mask(self, mask):
+        if mask is None:
+            mask = True
+        self._mask = np.array(
+            np.broadcast_to(mask, np.shape(self._wavelength)), dtype=bool
+        )
+
     @property
     def wavelength(self):
         """wavelength(nm)"""
@@ -203,7 +224,7 @@ class DataSE(object):
         self._psi = np.array(data_tuple[2], dtype=float)
         self._delta = np.array(data_tuple[3], dtype=float)
 
-        self.mask = np.ones_like(self._wavelength, dtype=bool)
+        self.mask = None
 
     def save(self, f):
         """
-- 
2.43.0


From 1bb1ab71e217d8e471a5ddad87c11fd3e90da050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 18/32] fix: DataSE.load/refresh skipped data points when
 reading an open file

---
 refellips/dataSE.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 2f0f6bf..4ef3694 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -258,17 +258,19 @@ class DataSE(object):
 
         """
 
-        skip_lines = 0
         with possibly_open_file(f, "r") as text:
-            for i in range(100):  # check the first 100 lines
-                try:
-                    float(text.readline().split(self.delimiter)[0])
-                    break
-                except ValueError:
-                    skip_lines += 1
+            lines = text.readlines()
+
+        skip_lines = 0
+        for line in lines[:100]:  # check the first 100 lines
+            try:
+                float(line.split(self.delimiter)[0])
+                break
+            except ValueError:
+                skip_lines += 1
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
+            lines[skip_lines:], delimiter=self.delimiter, ndmin=2
         ).T
 
     def refresh(self):
-- 
2.43.0


From b870b45a5c6c0d00d7cde7fd1fe363b7a2d637d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 19/32] fix: keep delta reflected when a DataSE is refreshed or
 its data replaced

---
 refellips/dataSE.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 4ef3694..6b27cda 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -109,8 +109,7 @@ class DataSE(object):
         if isinstance(data, DataSE):
             self._delta_flipped = data._delta_flipped
         if reflect_delta:
-            dmask = self._delta > 180
-            self._delta[dmask] = 360 - self._delta[dmask]
+            self._reflect_delta()
             self._delta_flipped = True
 
         self.mask = None
@@ -119,6 +118,10 @@ class DataSE(object):
         elif isinstance(data, DataSE):
             self.mask = data.mask
 
+    def _reflect_delta(self):
+        dmask = self._delta > 180
+        self._delta[dmask] = 360 - self._delta[dmask]
+
     def __len__(self):
         """Number of unmasked points in the dataset."""
         return self.wavelength.size
@@ -223,6 +226,8 @@ class DataSE(object):
         self._aoi = np.array(data_tuple[1], dtype=float)
         self._psi = np.array(data_tuple[2], dtype=float)
         self._delta = np.array(data_tuple[3], dtype=float)
+        if self._delta_flipped:
+            self._reflect_delta()
 
         self.mask = None
 
@@ -282,6 +287,11 @@ class DataSE(object):
             with possibly_open_file(self.filename) as f:
                 self.load(f)
 
+            if self._delta_flipped:
+                self._reflect_delta()
+            if self.mask.shape != self._wavelength.shape:
+                self.mask = None
+
 
 def open_EP4file(fname, reflect_delta=False):
     """
-- 
2.43.0


From 6a9ac423a8d5c26b22fa8b0947dd3f733db10a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 20/32] fix: open_M2000file lost data points when reading an
 open file

---
 refellips/dataSE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 6b27cda..f2712a2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -623,6 +623,7 @@ def open_M2000file(fname, take_every=1, dropdatapoints=1):
     metadata = {}
 
     with possibly_open_file(fname, mode="r") as file:
+        start = file.tell()
         file.readline()  # Skip the blank first line
         firstline = file.readline()[:-1]
         secondline = file.readline()[:-1]
@@ -637,6 +638,8 @@ def open_M2000file(fname, take_every=1, dropdatapoints=1):
             raise ValueError(
                 "Currently, only single and time-series datasets can be read"
             )
+        # an already open file is read again below
+        file.seek(start)
 
     header = firstline[len("VASEmethod[") : -len("]")]
     for ele in header.split(", "):
-- 
2.43.0


From 7440744d765650975227827b56161a23cfee1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 21/32] fix: open_EP4file failed on time series measured at
 several locations

---
 refellips/dataSE.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index f2712a2..458d831 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -335,9 +335,12 @@ def open_EP4file(fname, reflect_delta=False):
         print("Treating as time series:")
         output = []
         for t in df["Time"].drop_duplicates():
-            tdf = df[df["Time"] == t]
-            output += _loadEP4(tdf)  # not sure if this will work
-            output[-1]["time"] = t
+            # _loadEP4 requires the index to count from 0
+            tdf = df[df["Time"] == t].reset_index(drop=True)
+            t_output = _loadEP4(tdf)
+            for op in t_output:
+                op["time"] = t
+            output += t_output
     else:
         output = _loadEP4(df)
         for op in output:
-- 
2.43.0


From 7880465f4f0fa531d6e14e42e4cf68379c3f15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 22/32] fix: open_HORIBAfile relied on an encoding that only
 exists on Windows

---
 refellips/dataSE.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 458d831..a6e4be0 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -5,6 +5,7 @@ A basic representation of a 1D dataset
 """
 
 import copy
+import io
 import numpy as np
 import pandas as pd
 from refnx._lib import possibly_open_file
@@ -533,7 +534,8 @@ def open_HORIBAfile(
 
     """
 
-    name = fname[:-4]
+    name = str(getattr(fname, "name", fname) if hasattr(fname, "read") else fname)
+    name = name[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
@@ -567,11 +569,10 @@ def open_HORIBAfile(
                         line
                     )  # append line to metadata entry
 
+    # the file has already been read, parse the text that was obtained
     data_df = pd.read_csv(
-        fname,
-        skiprows=linenodict["DATA"] + 1,
+        io.StringIO("".join(lines[linenodict["DATA"] + 1 :])),
         nrows=len(metadata["DATA"]) - 1,
-        encoding="ANSI",
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
-- 
2.43.0


From 0beb21ed5cd4e61dcafcd6fb21fe1442a39baabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:36 +0000
Subject: [PATCH 23/32] fix: DataSE.load left a mask that didn't fit the points
 that were loaded

---
 refellips/dataSE.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index a6e4be0..649ad7d 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -78,6 +78,8 @@ class DataSE(object):
         # TODO when we come up with measurement uncertainties change this.
         self.weighted = False
         self.name = name
+        self._delta_flipped = False
+        self.mask = None
 
         # If a file, then open and load the file.
         if (
@@ -106,7 +108,6 @@ class DataSE(object):
             self._psi = np.array(data[2], dtype=float)
             self._delta = np.array(data[3], dtype=float)
 
-        self._delta_flipped = False
         if isinstance(data, DataSE):
             self._delta_flipped = data._delta_flipped
         if reflect_delta:
@@ -279,6 +280,11 @@ class DataSE(object):
             lines[skip_lines:], delimiter=self.delimiter, ndmin=2
         ).T
 
+        if self._delta_flipped:
+            self._reflect_delta()
+        if self.mask.shape != self._wavelength.shape:
+            self.mask = None
+
     def refresh(self):
         """
         Refreshes a previously loaded dataset.
@@ -288,11 +294,6 @@ class DataSE(object):
             with possibly_open_file(self.filename) as f:
                 self.load(f)
 
-            if self._delta_flipped:
-                self._reflect_delta()
-            if self.mask.shape != self._wavelength.shape:
-                self.mask = None
-
 
 def open_EP4file(fname, reflect_delta=False):
     """
-- 
2.43.0


From 2e19071103a70d4dc946f94e1760fa29cd8fb600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:36 +0000
Subject: [PATCH 24/32] fix: name of a dataset read by open_HORIBAfile from an
 open file

---
 refellips/dataSE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 649ad7d..d6e194a 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -535,8 +535,10 @@ def open_HORIBAfile(
 
     """
 
-    name = str(getattr(fname, "name", fname) if hasattr(fname, "read") else fname)
-    name = name[:-4]
+    name = fname
+    if hasattr(fname, "read"):
+        name = getattr(fname, "name", "")
+    name = str(name)[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
-- 
2.43.0


From 843186e8ca8af05991e2ff415af75432a78c5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:34 +0000
Subject: [PATCH 25/32] fix: plot_structure left the plotted structure
 un-reversed

---
 tools/plottools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/plottools.py b/tools/plottools.py
index 23f8e5d..654fd56 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -202,6 +202,7 @@ def plot_structure(
         colors = ["k"]
         alpha = 1
 
+    original_reverse = structure.reverse_structure
     structure.reverse_structure = reverse_structure
 
     for wav, col in zip(wavelengths, colors):
@@ -210,7 +211,8 @@ def plot_structure(
             *structure.ri_profile(), color=col, alpha=alpha, label=f"{wav} nm"
         )
 
-    structure.reverse_structure = False
+    # plotting shouldn't change the structure
+    structure.reverse_structure = original_reverse
 
     if plot_labels:
         ax.set(ylabel="Refractive index", xlabel="Distance from substrate (Å)")
-- 
2.43.0


From e6741ddff17eaf1a906d563b25467fd366b57a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 26/32] fix: Bruggeman EMA root must not depend on rounding
 errors in transparent media

---
 refellips/structureSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index a1ce66e..0d00126 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -928,7 +928,9 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
                 v = (b + d) / (2 * (1 - depolarisation_factor))
                 v_other = (b - d) / (2 * (1 - depolarisation_factor))
                 # passive constituents can't mix to give a medium with gain
-                v = np.where(np.imag(v_other) > np.imag(v), v_other, v)
+                # (a difference at rounding level has no significance)
+                gain = np.imag(v_other) - np.imag(v)
+                v = np.where(gain > 1e-12 * np.abs(d), v_other, v)
             E_avg = np.where(np.isfinite(v), v, 0)
     else:
         raise RuntimeError("No other method of mixing is known")
-- 
2.43.0


From 07e97bbbec6a0f12eca5385e450e59de7881b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:51 +0000
Subject: [PATCH 27/32] fix: open_EP4file averaged delta values either side of
 0/360 to 180

---
 refellips/dataSE.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index d6e194a..edb248d 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -415,6 +415,33 @@ def custom_round(x, base=0.25):
     return np.round((base * np.round(x / base)), 2)
 
 
+def _average_EP4(df):
+    """
+    Average repeated measurements (e.g. zones) made at the same angle of
+    incidence and wavelength. Delta is an angle, so measurements either side of
+    0/360 degrees are unwrapped before they're averaged.
+
+    Parameters
+    ----------
+    df : DataFrame
+        Data frame with columns ['#Lambda','AOI','Psi','Delta'], and optionally
+        [X_pos, Y_pos].
+
+    Returns
+    ----------
+    averaged : DataFrame
+    """
+    df = df.copy()
+    first = df.groupby(["AOI", "#Lambda"])["Delta"].transform("first")
+    df["Delta"] -= 360 * np.sign(df["Delta"] - first) * (
+        np.abs(df["Delta"] - first) > 180
+    )
+    averaged = df.groupby(["AOI", "#Lambda"]).mean().reset_index()
+    averaged.loc[averaged["Delta"] < 0, "Delta"] += 360
+    averaged.loc[averaged["Delta"] > 360, "Delta"] -= 360
+    return averaged
+
+
 def _loadEP4(df):
     """
     Specifically loading a data file created by an Accurion EP4 ellipsometer.
@@ -473,8 +500,7 @@ def _loadEP4(df):
             ]
 
             if len(pdf.index) > 0:
-                ave_pos = pdf.groupby(["AOI", "#Lambda"]).mean()
-                ave_pos = ave_pos.reset_index()
+                ave_pos = _average_EP4(pdf)
 
                 summary = {
                     "lambda": np.array(ave_pos["#Lambda"]),
@@ -488,8 +514,7 @@ def _loadEP4(df):
     else:
         print("Treating as single location")
         df = df[["#Lambda", "AOI", "Psi", "Delta"]]
-        ave_pos = df.groupby(["AOI", "#Lambda"]).mean()
-        ave_pos = ave_pos.reset_index()
+        ave_pos = _average_EP4(df)
 
         summary = {
             "lambda": np.array(ave_pos["#Lambda"]),
-- 
2.43.0


From 0c6eb5b4d78ac64867f5ef934662f40a4433c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 28/32] fix: ObjectiveSE.nll() without values raised ValueError

---
 refellips/objectiveSE.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 86da708..debdbca 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -431,6 +431,24 @@ class ObjectiveSE(BaseObjective):
 
         return logl
 
+    def nll(self, pvals=None):
+        """
+        Negative log-likelihood function
+
+        Parameters
+        ----------
+        pvals : array-like or refnx.analysis.Parameters
+            values for the varying or entire set of parameters
+
+        Returns
+        -------
+        nll : float
+            negative log-likelihood
+
+        """
+        self.setp(pvals)
+        return -self.logl()
+
     def logpost(self, pvals=None):
         """
         Calculate the log-probability of the curvefitting system
-- 
2.43.0


From b408350aed2b8eeb03edf8da5b0712bb84f100a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 29/32] fix: Delta_Psi_TMM overwrote the extinction coefficient
 in the caller's layers

---
 refellips/reflect_modelSE.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 306968b..4a51f3b 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -276,6 +276,8 @@ def Delta_Psi_TMM(AOI, layers, wavelength, delta_offset, reflect_delta=False):
     AOI = np.asarray(AOI, np.float64)
     AOI = AOI * (np.pi / 180)
 
+    # don't modify the caller's array
+    layers = np.array(layers, np.float64)
     layers[0, 2] = 0  # infinate medium cannot have an extinction coeff
     RIs = layers[:, 1] + layers[:, 2] * 1j
     thicks = layers[:, 0] / 10  # Ang to nm
-- 
2.43.0


From 8458361bde8566b70de53fb71bf27e44b94755f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:00 +0000
Subject: [PATCH 30/32] fix: coh_tmm returned NaN for stacks with many opaque
 layers

Every opaque layer multiplies the transfer matrix by up to exp(35), so
more than about twenty of them overflow. Rescale the product as it is
accumulated.
---
 refellips/reflect_modelSE.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 4a51f3b..c196091 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -207,6 +207,7 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
         Mtilde01 = r_list[0] / t_list[0]
         Mtilde10 = Mtilde01
         Mtilde11 = Mtilde00
+        scale = np.ones_like(Mtilde00)
 
         # propagate characteristic matrices
         for i in range(0, num_layers - 2):
@@ -216,14 +217,19 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
             p10 = Mtilde10 * M_list00[i, :] + Mtilde11 * M_list10[i, :]
             p11 = Mtilde10 * M_list01[i, :] + Mtilde11 * M_list11[i, :]
 
-            Mtilde00 = p00
-            Mtilde01 = p01
-            Mtilde10 = p10
-            Mtilde11 = p11
+            # keep the product in range, each opaque layer contributes a factor
+            # of up to exp(35).
+            norm = np.abs(p00)
+            scale = scale / norm
+
+            Mtilde00 = p00 / norm
+            Mtilde01 = p01 / norm
+            Mtilde10 = p10 / norm
+            Mtilde11 = p11 / norm
 
         # Net complex transmission and reflection amplitudes
         r = Mtilde10 / Mtilde00
-        t = 1 / Mtilde00
+        t = scale / Mtilde00
         results[f"r_{pol}"] = r
         results[f"t_{pol}"] = t
 
-- 
2.43.0


From a8c629c50686717ac708d59fe073e27705b55c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:11 +0000
Subject: [PATCH 31/32] fix: a DataSE made from another DataSE lost the
 delimiter, so refresh failed

---
 refellips/dataSE.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index edb248d..5195554 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -94,6 +94,7 @@ class DataSE(object):
         elif isinstance(data, DataSE):
             self.name = data.name
             self.filename = data.filename
+            self.delimiter = data.delimiter
             self.metadata = data.metadata
             self._wavelength = data._wavelength
             self._aoi = data._aoi
-- 
2.43.0


From 4354e90f117857c88276b829da16a6683d2f422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:45 +0000
Subject: [PATCH 32/32] fix: a dispersion file with a single row could not be
 evaluated

---
 refellips/dispersion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index f9580cb..5170ed6 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -76,7 +76,11 @@ class RI(ScattererSE):
                     self.name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
-                    dispersion, skiprows=1, delimiter=",", encoding="utf8"
+                    dispersion,
+                    skiprows=1,
+                    delimiter=",",
+                    encoding="utf8",
+                    ndmin=2,
                 ).T
                 self._wav = vals[0]
                 self._RI = vals[1]
-- 
2.43.0

