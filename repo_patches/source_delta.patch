From 7c0b8736374b04582d0c3d29816ade2e803bb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 01/35] fix: do not modify the caller's height array in
 TbCloudRTE

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..cd6028f 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -99,7 +99,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From cf1aaa1f4720dcdf5afef9b90aa5e835475acf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 02/35] fix: TbCloudRTE(absmdl=...) called a method that does
 not exist

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index cd6028f..ec82a4c 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -124,7 +124,7 @@ class TbCloudRTE(object):
         self.sice = np.zeros((1, self.nang))
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     @property
     def satellite(self) -> bool:
-- 
2.43.0


From 35666dc374a18f7440363af24324dbdd5b0a5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 03/35] fix: RTEquation.vapor over ice indexed the temperature
 array by a call

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..11d2013 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -66,7 +66,7 @@ class RTEquation:
         if ice:
             # over ice if tk < 263.16
             indx = np.nonzero(t < 263.16)
-            y = 273.16 / t(indx)
+            y = 273.16 / t[indx]
             es[indx] = np.dot(-9.09718, (y - 1.0)) - np.dot(
                 3.56654, np.log10(y)) + np.dot(0.876793, (1.0 - (1.0 / y))) + np.log10(6.1071)
 
-- 
2.43.0


From f6d15f5ba1545d2b6da58560d02d07eca5fa2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 04/35] fix: integrated cloud density left out the top layer of
 each cloud

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index 11d2013..e51e4eb 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -356,7 +356,7 @@ class RTEquation:
         ncld = len(lbase)
         scld = 0.0
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i])):
+            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
                 scld += np.dot(ds[j],
                                (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
-- 
2.43.0


From d7b420a068b903449d5436183ea5b680681ca144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 05/35] fix: top-down profiles were never flipped and
 non-monotonic heights accepted

---
 pyrtlib/tb_spectrum.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index ec82a4c..601b319 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -66,13 +66,17 @@ class TbCloudRTE(object):
         self.amu = amu
 
         dz = np.ediff1d(self.z)
-        if all(dz) > 0:
+        self._flipped = False
+        if np.all(dz > 0):
             pass
-        elif all(dz) < 0:
+        elif np.all(dz < 0):
+            self._flipped = True
             self.z = z[::-1]
             self.p = p[::-1]
             self.tk = t[::-1]
             self.rh = rh[::-1]
+            if isinstance(o3n, np.ndarray):
+                self.o3n = o3n[::-1]
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
@@ -215,8 +219,8 @@ class TbCloudRTE(object):
                     if self.z[i] == self.cldh[1, j]:
                         self.endlev[j] = i
 
-            self.denice = denice
-            self.denliq = denliq
+            self.denice = denice[::-1] if self._flipped else denice
+            self.denliq = denliq[::-1] if self._flipped else denliq
         else:
             warnings.warn("It seems that TbCloudRTE.cloudy attribute is not set to True. "
                           "Sets it to True for running model in cloudy condition.")
-- 
2.43.0


From 09f5bd3cf98f3adf6a575265f66f5ee1726147a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 06/35] fix: oxygen absorption overwrote the caller's
 line-mixing parameters

---
 pyrtlib/absorption_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..24d51ea 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -787,9 +787,9 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = amu['Y300'].value.copy()
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = amu['O2_V'].value.copy()
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
         # *** add the following lines *************************
-- 
2.43.0


From b6f54da3005fadc7cfe68a975c7da092d1ff7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 07/35] fix: perturbed ozone parameters stayed in force for
 later simulations

---
 pyrtlib/tb_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 601b319..87ada16 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -12,7 +12,7 @@ from typing import Dict, Tuple, Union, Optional
 import numpy as np
 import pandas as pd
 
-from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel
+from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel, O3AbsModel
 from .rt_equation import RTEquation
 
 
@@ -196,6 +196,8 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
+        if isinstance(self.o3n, np.ndarray) and O3AbsModel.model in O3AbsModel.implemented_models()['Ozone']:
+            O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
         """Initialize cloudy conditions parameters.
-- 
2.43.0


From ebdc602badc0e57da94e9ecd4a7002ea9c641274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 08/35] fix: MWS channel list had the 57 GHz lower side band
 twice

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..aa25498 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -995,7 +995,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
         freq = np.array([23.8, 31.4, 50.3, 52.8,
                         53.246-0.08, 53.246+0.08, 53.596-0.115, 53.596+0.115, 53.948-0.081, 53.948+0.081,
                         54.4, 54.94, 55.5, cf57,
-                        cf57-0.217, cf57-0.217,
+                        cf57-0.217, cf57+0.217,
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-- 
2.43.0


From 55646488874dce22212ba4b85e6e2a391973a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 09/35] fix: MWS channel 14 side bands are 4.5 MHz, not 45 MHz,
 off centre

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index aa25498..d92ff2c 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -999,7 +999,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-                        cf57-0.3222-0.045, cf57-0.3222+0.045, cf57+0.3222-0.045, cf57+0.3222+0.045,
+                        cf57-0.3222-0.0045, cf57-0.3222+0.0045, cf57+0.3222-0.0045, cf57+0.3222+0.0045,
                         89,
                         cf165-0.725, cf165+0.725,
                         cf-7.0, cf-4.5, cf-3.0, cf-1.8, cf-1.0, cf+1.0, cf+1.8, cf+3.0, cf+4.5, cf+7.0,
-- 
2.43.0


From fda828029da37564c636c8de76891bade2700f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 10/35] fix: gl_atm_minor and gl_atm_trace changed the caller's
 array of gas identifiers

---
 pyrtlib/climatology/atmospheric_profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index 9163bc5..d09fe71 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -263,7 +263,7 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))
-        gas_minor -= 7
+        gas_minor = gas_minor - 7
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
         # MINGAS
@@ -321,7 +321,7 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_trace.dat"))
-        gas_trace -= 28
+        gas_trace = gas_trace - 28
         #  COF2 & SF6
         #   0 - 14   ATMOS SS Rinsland 1990: ConsAt 14 value
         #  14 -120   ATMOS SS Rinsland 1990: LinExLogMix until 1.0E-15
-- 
2.43.0


From 9db3e2f9a3ef99ff0f257cf865ba3b0deeaee3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 11/35] fix: gl_atm_minor and gl_atm_trace returned another gas
 for identifiers below their range

---
 pyrtlib/climatology/atmospheric_profiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index d09fe71..cac9d15 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -264,6 +264,8 @@ class AtmosphericProfiles:
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))
         gas_minor = gas_minor - 7
+        if np.any(np.less(gas_minor, 0)):
+            raise ValueError("Minor gas identifiers start from 7 (NO)")
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
         # MINGAS
@@ -322,6 +324,8 @@ class AtmosphericProfiles:
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_trace.dat"))
         gas_trace = gas_trace - 28
+        if np.any(np.less(gas_trace, 0)):
+            raise ValueError("Trace gas identifiers start from 28 (COF2)")
         #  COF2 & SF6
         #   0 - 14   ATMOS SS Rinsland 1990: ConsAt 14 value
         #  14 -120   ATMOS SS Rinsland 1990: LinExLogMix until 1.0E-15
-- 
2.43.0


From e7e0e083b3573b3bb1a1f58d12a66e1bfbcb15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 12/35] fix: extending a profile that reaches 50 km or more
 raised UnboundLocalError

---
 pyrtlib/climatology/extrapolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..eaf9dfd 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -316,6 +316,7 @@ class ProfileExtrapolation:
             idx = np.where(self._height > np.max(h_km))
             self._height = np.append(h_km, self._height[idx])
         else:
+            idx = np.where(self._height > np.max(z))
             self._height = np.append(z, self._height[idx])
 
         season = self._get_season(lat, month)
-- 
2.43.0


From 97313b7ce3e2b21912a924184b010e4d3a971d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 13/35] fix: profile_extrapolation changed its own height grid,
 so later calls depended on earlier ones

---
 pyrtlib/climatology/extrapolation.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index eaf9dfd..3fd5530 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -314,32 +314,32 @@ class ProfileExtrapolation:
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
             idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
+            height = np.append(h_km, self._height[idx])
         else:
             idx = np.where(self._height > np.max(z))
-            self._height = np.append(z, self._height[idx])
+            height = np.append(z, self._height[idx])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
             wvd = self.instance.standard_water_vapour_density(
-                self._height)
+                height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From c6b8252820f0cc20f974264c2dc4a6a4c9d0b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 14/35] fix: humidity of the extended levels was in percent
 instead of a fraction

---
 pyrtlib/climatology/extrapolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index 3fd5530..355c444 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -336,7 +336,8 @@ class ProfileExtrapolation:
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
-        _rh = rho2rh(wvd, temp, pres)[0]
+        # rho2rh returns percent, the profile is a fraction
+        _rh = rho2rh(wvd, temp, pres)[0] / 100
         rh = np.append(rh, _rh[idx])
 
         return height, pres, temp, rh
-- 
2.43.0


From 85602e1725b6830e4e78e31acb8a7f7c710a28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 15/35] fix: plot_wf with bandpass overwrote the frequencies
 and labelled channels with the wrong ones

---
 pyrtlib/weighting_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..4573a0a 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -228,10 +228,12 @@ class WeightingFunctions(object):
         # plt.rc('mathtext', fontset='cm')
         # plt.rc('axes.formatter', use_mathtext=False)
 
+        frequencies = self.frequencies
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            last = np.cumsum(self.bandpass)
+            frequencies = np.array(
+                [np.mean(self.frequencies[i-j:i]) for i, j in zip(last, self.bandpass)])
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -247,7 +249,7 @@ class WeightingFunctions(object):
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
-- 
2.43.0


From 3a383907e125298e1170a621b6208f4bc54908d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 16/35] fix: plot_wf failed with more channels than grid levels

---
 pyrtlib/weighting_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 4573a0a..f9d06b3 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -245,7 +245,7 @@ class WeightingFunctions(object):
         units = 'km'
 
         normalize = np.max(
-            wgt, axis=1) if normalized else np.ones(wgt.shape[1])
+            wgt, axis=1) if normalized else np.ones(wgt.shape[0])
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-- 
2.43.0


From 8321903a317ba06191eb9e20c2f58e441c9563fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 17/35] fix: plot_wf ignored normalized in uplooking mode

---
 pyrtlib/weighting_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index f9d06b3..cc36fc3 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -255,7 +255,7 @@ class WeightingFunctions(object):
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
                          label=f'{frequenciy:.2f} GHz {y[np.argmax(wgt[i, 1:])]:.0f} {units}')
             else:
-                plt.plot(wgt[i, :], self.zinterp,
+                plt.plot(wgt[i, :]/normalize[i], self.zinterp,
                          label=f'{frequenciy:.2f} GHz')
 
         # if yaxis == 'p':
-- 
2.43.0


From a5aef382a0acf2109838b56e056f908b65bd1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 18/35] fix: plotting weighting functions failed for height
 limits off the grid

---
 pyrtlib/weighting_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index cc36fc3..dd20589 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -281,8 +281,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
@@ -367,8 +366,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
-- 
2.43.0


From 260533a20eca505dcce3dee14cc53af5ce7fdf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 19/35] fix: line lists kept coefficients of previously
 selected models

---
 pyrtlib/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index d92ff2c..e20c27c 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -43,6 +43,9 @@ def import_lineshape(name: str) -> types.ModuleType:
     except ImportError as e:
         return None
     if vars(module)[name.lower()] in sys.modules.values():
+        # reload keeps names, so drop the coefficients of the previous model
+        for k in [k for k in vars(vars(module)[name.lower()]) if not k.startswith('__')]:
+            delattr(vars(module)[name.lower()], k)
         reload(vars(module)[name.lower()])
 
     return vars(module)[name.lower()]
-- 
2.43.0


From 07aebe277a365cfc53f0455c7ffa6d50bf830b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 20/35] fix: perturbed parameters stayed in the shared line
 list after the call

---
 pyrtlib/absorption_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 24d51ea..742df97 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -5,6 +5,7 @@ This class contains the absorption model used in pyrtlib.
 
 import types
 import os
+from copy import copy
 from typing import Tuple, Union, List, Optional, Dict
 from netCDF4 import Dataset
 
@@ -454,6 +455,9 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
+            # the line list is shared, perturb a copy of it
+            self = copy(self)
+            self.h2oll = types.SimpleNamespace(**vars(self.h2oll))
             if H2OAbsModel.model > 'R17':
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
@@ -767,8 +771,12 @@ class O2AbsModel(AbsModel):
         """
 
         if amu:
+            # the line list is shared, perturb a copy of it
+            self = copy(self)
+            self.o2ll = types.SimpleNamespace(**vars(self.o2ll))
             self.o2ll.w2a = amu['w2a'].value
             # self.o2ll.apu = amu['APU'].value
+            self.o2ll.w300 = self.o2ll.w300.copy()
             self.o2ll.w300[0:38] = amu['O2gamma'].value[0:38]
             self.o2ll.w300[34:49] = amu['O2gamma_NL'].value[34:49]
             self.o2ll.wb300 = amu['WB300'].value
@@ -1051,6 +1059,9 @@ class O3AbsModel(AbsModel):
         """
 
         if amu:
+            # the line list is shared, perturb a copy of it
+            self = copy(self)
+            self.o3ll = types.SimpleNamespace(**vars(self.o3ll))
             self.o3ll.fl = amu['O3_FL'].value
             self.o3ll.s1 = amu['O3_S1'].value
             self.o3ll.b = amu['O3_B'].value
-- 
2.43.0


From fb217524b9f65ad6db45de428d145e9ccdb61071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 21/35] fix: spectroscopic parameters shared arrays with the
 line list and with each other

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..05ea3ed 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -141,7 +141,8 @@ class SpectroscopicParameter:
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
-        return h2o_sp
+        # values must not share memory with the loaded line list
+        return deepcopy(h2o_sp)
 
     @staticmethod
     def oxygen_parameters(model: str) -> Dict:
@@ -163,7 +164,7 @@ class SpectroscopicParameter:
             "O2S": SpectroscopicParameter(value=ll.s300, uncer=np.zeros(len(ll.f)), units='cm2*Hz', name='Line intensity (or strength)'),
             "O2BE": SpectroscopicParameter(value=ll.be, uncer=.0, units='unitless', name='Temperature exponent for intensity'),
             "O2gamma": SpectroscopicParameter(value=ll.w300, uncer=np.zeros(len(ll.f)), units='MHz/mb', name='Self broadening temperature dependence exponents'),
-            "O2gamma_NL": SpectroscopicParameter(value=ll.w300, uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
+            "O2gamma_NL": SpectroscopicParameter(value=ll.w300.copy(), uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
             "Snr": SpectroscopicParameter(value=1.6e-17, uncer=.0, units='Hz*cm2/GHz2', name='Line intensity of non-resonant pseudo-line'),
             "WB300": SpectroscopicParameter(value=ll.wb300, uncer=.0, units='MHz/mb', name='Pressure broadening of non-resonant pseudo-line'),
             "X11": SpectroscopicParameter(value=0.785, uncer=.0, units='unitless', name='Temperature dependence of broadening coefficient'),
@@ -182,13 +183,14 @@ class SpectroscopicParameter:
         else:
             o2_sp_ = {
                 "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
-                "O2_V_NL": SpectroscopicParameter(value=ll.v, uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
+                "O2_V_NL": SpectroscopicParameter(value=ll.v.copy(), uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
                 "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
-                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+                "Y300_NL": SpectroscopicParameter(value=ll.y300.copy(), uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
             }
         o2_sp = {**o2_sp, **o2_sp_}
 
-        return o2_sp
+        # values must not share memory with the loaded line list
+        return deepcopy(o2_sp)
 
     @staticmethod
     def ozono_parameters(model: str) -> Dict:
@@ -214,7 +216,8 @@ class SpectroscopicParameter:
             "O3_SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift-to-width ratio'),
         }
 
-        return o3_sp
+        # values must not share memory with the loaded line list
+        return deepcopy(o3_sp)
 
     @staticmethod
     def set_parameters(SP: dict) -> None:
-- 
2.43.0


From 46cea71018b45d641044489a44132169cb66e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 22/35] fix: spectroscopic parameter sets failed, or came from
 another model, for several models

---
 pyrtlib/absorption_model.py               | 15 +++++----
 pyrtlib/uncertainty/absmod_uncertainty.py | 37 +++++++++++------------
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 742df97..def682f 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -472,12 +472,12 @@ class H2OAbsModel(AbsModel):
             self.h2oll.w0s = amu['gamma_w'].value / 1000.0
             self.h2oll.x = amu['n_a'].value
             self.h2oll.xs = amu['n_w'].value
-            if H2OAbsModel.model > 'R17':
+            if hasattr(self.h2oll, 'sh'):
                 self.h2oll.sh = amu['delta_a'].value / 1000.0
                 self.h2oll.shs = amu['delta_w'].value / 1000.0
                 self.h2oll.xh = amu['n_da'].value
                 self.h2oll.xhs = amu['n_dw'].value
-            else:
+            if hasattr(self.h2oll, 'sr'):
                 self.h2oll.sr = amu['SR'].value
             self.h2oll.fl = amu['FL'].value
 
@@ -789,14 +789,13 @@ class O2AbsModel(AbsModel):
             self.o2ll.x = amu['X05'].value
             self.o2ll.snr = amu['Snr'].value
             self.o2ll.ns = amu['O2_nS'].value
-            if O2AbsModel.model > 'R19':
-                self.o2ll.y0 = amu['y0'].value
-                self.o2ll.y1 = amu['y1'].value
-                self.o2ll.dnu0 = amu['dnu0'].value
-                self.o2ll.dnu1 = amu['dnu1'].value
-            else:
+            for k in ('y0', 'y1', 'dnu0', 'dnu1'):
+                if hasattr(self.o2ll, k):
+                    setattr(self.o2ll, k, amu[k].value)
+            if hasattr(self.o2ll, 'y300'):
                 self.o2ll.y300 = amu['Y300'].value.copy()
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
+            if hasattr(self.o2ll, 'v'):
                 self.o2ll.v = amu['O2_V'].value.copy()
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 05ea3ed..7d40369 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -128,16 +128,21 @@ class SpectroscopicParameter:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
-                "n_da": SpectroscopicParameter(value=ll.xh, uncer=np.zeros(len(ll.fl)), name='T-exponent of air-shifting'),
-                "n_dw": SpectroscopicParameter(value=ll.xhs, uncer=np.zeros(len(ll.fl)), name='T-exponent of water-shifting'),
-                "delta_a": SpectroscopicParameter(value=ll.sh*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Air induced shifting coefficient'),
-                "delta_w": SpectroscopicParameter(value=ll.shs*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Water induced shifting coefficient'),
             }
         else:
             h2o_sp_ = {
-                "SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio'),
                 "con_Cf_factr": SpectroscopicParameter(value=1.11, uncer=np.sqrt(0.098 ** 2 + 0.03 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
+        if hasattr(ll, 'sr'):
+            h2o_sp_["SR"] = SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
+        if hasattr(ll, 'sh'):
+            h2o_sp_ = {
+                **h2o_sp_,
+                "n_da": SpectroscopicParameter(value=ll.xh, uncer=np.zeros(len(ll.fl)), name='T-exponent of air-shifting'),
+                "n_dw": SpectroscopicParameter(value=ll.xhs, uncer=np.zeros(len(ll.fl)), name='T-exponent of water-shifting'),
+                "delta_a": SpectroscopicParameter(value=ll.sh*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Air induced shifting coefficient'),
+                "delta_w": SpectroscopicParameter(value=ll.shs*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Water induced shifting coefficient'),
+            }
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
@@ -173,20 +178,14 @@ class SpectroscopicParameter:
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
             "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
-        if O2AbsModel.model > 'R19':
-            o2_sp_ = {
-                "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
-                "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
-                "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
-                "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
-            }
-        else:
-            o2_sp_ = {
-                "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
-                "O2_V_NL": SpectroscopicParameter(value=ll.v.copy(), uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
-                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
-                "Y300_NL": SpectroscopicParameter(value=ll.y300.copy(), uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
-            }
+        o2_sp_ = {k: SpectroscopicParameter(value=getattr(ll, k), uncer=.0, name='')
+                  for k in ('y0', 'y1', 'dnu0', 'dnu1') if hasattr(ll, k)}
+        if hasattr(ll, 'v'):
+            o2_sp_["O2_V"] = SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence')
+            o2_sp_["O2_V_NL"] = SpectroscopicParameter(value=ll.v.copy(), uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)')
+        if hasattr(ll, 'y300'):
+            o2_sp_["Y300"] = SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)')
+            o2_sp_["Y300_NL"] = SpectroscopicParameter(value=ll.y300.copy(), uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)')
         o2_sp = {**o2_sp, **o2_sp_}
 
         # values must not share memory with the loaded line list
-- 
2.43.0


From ce80257dd08a5f789c300cbfce1d71d22179bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 23/35] fix: perturbing the water-to-air ratio or the
 non-resonant oxygen intensity had no effect

---
 pyrtlib/absorption_model.py               | 33 +++++++++++------------
 pyrtlib/uncertainty/absmod_uncertainty.py |  4 +--
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index def682f..2a7de04 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -818,13 +818,19 @@ class O2AbsModel(AbsModel):
         if O2AbsModel.model in ['R22', 'R22SD', 'R23', 'R23SD', 'R24']:
             preswv = 4.615228e-3 * vapden * temp
         presda = pres - preswv
-        den = .001 * (presda * b + 1.2 * preswv * th)
-        if O2AbsModel.model in ['R03', 'R16', 'R98']:
-            den = 0.001 * (presda * b + 1.1 * preswv * th)
+        # water-to-air broadening ratio and intensities of the non-resonant transitions
+        # for o16-o16 and o16-o18, from jpl's line compilation
+        # 1.571e-17 (o16-o16) + 1.3e-19 (o16-o18) = 1.584e-17
+        w2a = 1.1 if O2AbsModel.model in ['R03', 'R16', 'R98'] else 1.2
+        snr = 1.6e-17 if O2AbsModel.model in ['R03', 'R98'] else 1.584e-17
+        if amu:
+            w2a = self.o2ll.w2a
+            snr = self.o2ll.snr
+        den = .001 * (presda * b + w2a * preswv * th)
         if O2AbsModel.model == 'R03':
-            den = 0.001 * (presda * th ** 0.9 + 1.1 * preswv * th)
+            den = 0.001 * (presda * th ** 0.9 + w2a * preswv * th)
         if O2AbsModel.model == 'R98':
-            den = 0.001 * (presda + 1.1 * preswv) * th
+            den = 0.001 * (presda + w2a * preswv) * th
         pe2 = den * den
         if O2AbsModel.model in ['R23', 'R23SD']:
             pe1 = .99 * den
@@ -834,9 +840,7 @@ class O2AbsModel(AbsModel):
             pe2 = pe1**2
         dfnr = self.o2ll.wb300 * den
 
-        # intensities of the non-resonant transitions for o16-o16 and o16-o18, from jpl's line compilation
-        # 1.571e-17 (o16-o16) + 1.3e-19 (o16-o18) = 1.584e-17
-        summ = 1.584e-17 * freq * freq * dfnr / \
+        summ = snr * freq * freq * dfnr / \
             (th * (freq * freq + dfnr * dfnr))
         if O2AbsModel.model in ['R03', 'R16', 'R17', 'R18', 'R98']:
             summ = 0.0
@@ -879,7 +883,7 @@ class O2AbsModel(AbsModel):
                     summ += a[k]*g[k]
                     anorm += a[k]
             off = summ/anorm
-            summ = (1.584e-17/th) * dfnr / (freq * freq + dfnr * dfnr)
+            summ = (snr/th) * dfnr / (freq * freq + dfnr * dfnr)
             for k in range(0, nlines):
                 width = self.o2ll.w300[k] * den
                 y = pe1*(self.o2ll.y300[k]+self.o2ll.y1[k]*th1)
@@ -907,7 +911,7 @@ class O2AbsModel(AbsModel):
         elif O2AbsModel.model in ['R24']:
             anorm = 0.
             wnr = self.o2ll.wb300 * pe1
-            sumy = 1.584e-17 * self.o2ll.wb300
+            sumy = snr * self.o2ll.wb300
             sumg = 0.
             asq = 0.
             adjy = .99  # adjustment following update of line intensities
@@ -934,7 +938,7 @@ class O2AbsModel(AbsModel):
                 y[k] -= sumy2/self.o2ll.f[k]  # bias adjustment
                 g[k] -= a[k] * ratio  # makes G orthogonal to A
 
-            summ = 1.584e-17 * wnr/(freq * freq + wnr * wnr)
+            summ = snr * wnr/(freq * freq + wnr * wnr)
             for k in range(0, nlines):
                 width = self.o2ll.w300[k] * pe1
                 yk = pe1 * y[k]
@@ -989,10 +993,7 @@ class O2AbsModel(AbsModel):
         # separate the equ. into line and continuum
         # terms, and change the units from np/km to ppm
 
-        # intensities of the non-resonant transitions for o16-o16 and o16-o18, from jpl's line compilation
-        # 1.571e-17 (o16-o16) + 1.3e-19 (o16-o18) = 1.584e-17
-
-        ncpp = 1.584e-17 * freq * freq * dfnr / \
+        ncpp = snr * freq * freq * dfnr / \
             (th * (freq * freq + dfnr * dfnr))
         #  .20946e-4/(3.14159*1.38065e-19*300) = 1.6097e11
         # a/(pi*k*t_0) = 0.20946/(3.14159*1.38065e-23*300) = 1.6097e19  - then it needs a factor 1e-8 to accont
@@ -1001,8 +1002,6 @@ class O2AbsModel(AbsModel):
         # th^3 = th(from ideal gas law 2.13) * th(from the mw approx of stimulated emission 2.16 vs. 2.14) *
         # th(from the partition sum 2.20)
         if O2AbsModel.model in ['R03', 'R98']:
-            ncpp = 1.6e-17 * freq * freq * dfnr / \
-                (th * (freq * freq + dfnr * dfnr))
             ncpp *= 5.034e+11 * presda * th ** 3 / 3.14159
         else:
             ncpp *= 1.6097e11 * presda * th ** 3  # n/pi*sum0
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 7d40369..a49596f 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -170,13 +170,13 @@ class SpectroscopicParameter:
             "O2BE": SpectroscopicParameter(value=ll.be, uncer=.0, units='unitless', name='Temperature exponent for intensity'),
             "O2gamma": SpectroscopicParameter(value=ll.w300, uncer=np.zeros(len(ll.f)), units='MHz/mb', name='Self broadening temperature dependence exponents'),
             "O2gamma_NL": SpectroscopicParameter(value=ll.w300.copy(), uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
-            "Snr": SpectroscopicParameter(value=1.6e-17, uncer=.0, units='Hz*cm2/GHz2', name='Line intensity of non-resonant pseudo-line'),
+            "Snr": SpectroscopicParameter(value=1.6e-17 if O2AbsModel.model in ['R03', 'R98'] else 1.584e-17, uncer=.0, units='Hz*cm2/GHz2', name='Line intensity of non-resonant pseudo-line'),
             "WB300": SpectroscopicParameter(value=ll.wb300, uncer=.0, units='MHz/mb', name='Pressure broadening of non-resonant pseudo-line'),
             "X11": SpectroscopicParameter(value=0.785, uncer=.0, units='unitless', name='Temperature dependence of broadening coefficient'),
             "X16": SpectroscopicParameter(value=0.765, uncer=.0, units='unitless', name='Temperature dependence of broadening coefficient'),
             "X05": SpectroscopicParameter(value=ll.x, uncer=.0, units='unitless', name='Temperature dependence of broadening coefficient'),
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
-            "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
+            "w2a": SpectroscopicParameter(value=1.1 if O2AbsModel.model in ['R03', 'R16', 'R98'] else 1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
         o2_sp_ = {k: SpectroscopicParameter(value=getattr(ll, k), uncer=.0, name='')
                   for k in ('y0', 'y1', 'dnu0', 'dnu1') if hasattr(ll, k)}
-- 
2.43.0


From 199139001f891ddf3747cdcecac2a932376ec799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 24/35] fix: propagated uncertainty was undefined at zero and
 negative for powers of negative values

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index a49596f..8d181d4 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -304,16 +304,15 @@ class AbsModUncertainty:
             sF = np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 - 2 * a * b * sAB)
         elif fun == 'A*B':
             F = A * B
-            # sF = np.sqrt( B**2*sA**2 + A**2*sB**2 + 2*A*B*sAB )
-            sF = np.abs(A * B) * np.sqrt((sA / A) ** 2 +
-                                         (sB / B) ** 2 + 2 * sAB / (A * B))
+            # same as |f|*sqrt((sA/A)**2 + (sB/B)**2 + 2*sAB/(A*B)), and defined at zero
+            sF = np.sqrt((B * sA) ** 2 + (A * sB) ** 2 + 2 * A * B * sAB)
         elif fun == 'A/B':
             F = A / B
-            sF = np.abs(A / B) * np.sqrt((sA / A) ** 2 +
-                                         (sB / B) ** 2 - 2 * sAB / (A * B))
+            # same as |f|*sqrt((sA/A)**2 + (sB/B)**2 - 2*sAB/(A*B)), and defined for A=0
+            sF = np.sqrt((B * sA) ** 2 + (A * sB) ** 2 - 2 * A * B * sAB) / B ** 2
         elif fun == 'A^a':
             F = A ** a
-            sF = np.abs(a) * A ** (a - 1) * sA
+            sF = np.abs(a * A ** (a - 1)) * sA
         else:
             raise ValueError("[utils] fun argument is mandatory")
 
-- 
2.43.0


From 7337c42b32e8c8a6f386d09b2519d3353c932c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 25/35] fix: IGRA2 derived-parameter files were never requested
 nor decoded as such

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..5e8d5d8 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From 390497cbe7212d272fa22a47e8a59278b47dc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 26/35] fix: IGRA2 release times were decoded from the wrong
 digits

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e8d5d8..ac2f7a3 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -265,8 +265,8 @@ class IGRAUpperAir(HTTPEndPoint):
                         seconds = int(time[3:5])
                         time_seconds = minutes * 60 + seconds
                     elif strformat == 'HHMM':
-                        hours = int(time[0:2])
-                        minutes = int(time[2:4])
+                        hours = int(time[0:3])
+                        minutes = int(time[3:5])
                         time_seconds = hours * 3600 + minutes * 60
                     else:
                         sys.exit('Unrecognized time format')
-- 
2.43.0


From c50045aa63d7e4c473633d12dd42fe9a382d5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 27/35] fix: IGRA2 coordinates within 0.1 degree of zero were
 misread or failed

---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index ac2f7a3..6e03358 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -275,10 +275,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return float(x) / 10000
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From 5b9e990086acea7ea9fd2d2300d0a73f6b8c9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 28/35] fix: IGRA2 inversion pressure lost its last digit

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 6e03358..9045e3a 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -322,7 +322,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From cef837cf36c249ff27333bb788e61084edaeda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 29/35] fix: IGRA2 date selection failed or mixed soundings up
 when some have no hour

---
 pyrtlib/apiwebservices/igra2.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 9045e3a..a3327e6 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -201,7 +201,7 @@ class IGRAUpperAir(HTTPEndPoint):
                     headers.append(idx)
                     num_lev.append(int(line[32:36]))
                     dates.append(date)
-                if date > self.end_date:
+                if datetime(year, month, day) > self.end_date:
                     break
 
         if len(dates) == 0:
@@ -209,18 +209,15 @@ class IGRAUpperAir(HTTPEndPoint):
             # Could improve this later by showing the date range for the station.
             raise ValueError('No dates match selection.')
 
-        # Compress body of data into a string
-        begin_idx = min(headers)
-        end_idx = max(headers) + num_lev[-1]
-
-        # Make a boolean vector that selects only list indices within the time range
+        # Make a boolean vector that selects only the lines of soundings within the time range,
+        # which are not contiguous where soundings without hour are among them
         selector = np.zeros(len(lines), dtype=bool)
-        selector[begin_idx:end_idx + 1] = True
-        selector[headers] = False
-        body = ''.join(itertools.compress(lines, selector))
+        for idx, n in zip(headers, num_lev):
+            selector[idx + 1:idx + n + 1] = True
 
-        selector[begin_idx:end_idx + 1] = ~selector[begin_idx:end_idx + 1]
-        header = ''.join(itertools.compress(lines, selector))
+        # Compress body of data into a string
+        body = ''.join(itertools.compress(lines, selector))
+        header = ''.join(lines[idx] for idx in headers)
 
         # expand date vector to match length of the body dataframe.
         dates_long = np.repeat(dates, num_lev)
-- 
2.43.0


From 938535779560ada028f84d2feca67814c07b6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 30/35] fix: IGRA2 derived values of -9999 and -8888 were
 decoded as missing

---
 pyrtlib/apiwebservices/igra2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index a3327e6..3251978 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -229,10 +229,13 @@ class IGRAUpperAir(HTTPEndPoint):
 
         Returns a dict with entries 'body' and 'header'.
         """
+        # The derived-parameter files have one missing value code only: -9999 and -8888 are values there
+        missing = ['-99999'] if self.suffix == '-drvd.txt' else ['-9999', '-8888']
+
         def _cdec(power=1):
             """Make a function to convert string 'value*10^power' to float."""
             def _cdec_power(val):
-                if val in ['-9999', '-8888', '-99999']:
+                if val in missing:
                     return np.nan
                 else:
                     return float(val) / 10**power
-- 
2.43.0


From 78242ab64139efcecd958070d8ac4ef35a1a1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 31/35] fix: IGRA2 derived vapor pressures are in hPa, not in
 Pascal as labelled

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 3251978..24558e4 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -424,8 +424,8 @@ class IGRAUpperAir(HTTPEndPoint):
                                  'potential_temperature_gradient': 'Kelvin / kilometer',
                                  'virtual_temperature': 'Kelvin',
                                  'virtual_potential_temperature': 'Kelvin',
-                                 'vapor_pressure': 'Pascal',
-                                 'saturation_vapor_pressure': 'Pascal',
+                                 'vapor_pressure': 'hPa',
+                                 'saturation_vapor_pressure': 'hPa',
                                  'reported_relative_humidity': 'percent',
                                  'calculated_relative_humidity': 'percent',
                                  'relative_humidity_gradient': 'percent / kilometer',
-- 
2.43.0


From be67ddd16b20e37823bf33f8dc8eb0092a6ff320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 32/35] fix: IGRA2 derived v_wind_gradient column left out its
 first character

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 24558e4..6dab2e1 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -290,7 +290,7 @@ class IGRAUpperAir(HTTPEndPoint):
             colspecs_body = [(0, 7), (8, 15), (16, 23), (24, 31), (32, 39),
                              (40, 47), (48, 55), (56, 63), (64, 71), (72, 79),
                              (80, 87), (88, 95), (96, 103), (104, 111), (112, 119),
-                             (120, 127), (128, 135), (137, 143), (144, 151)]
+                             (120, 127), (128, 135), (136, 143), (144, 151)]
 
             conv_body = {'pressure': _cdec(power=2),
                          'reported_height': int,
-- 
2.43.0


From ea5ed282ec6c0dbcce293856054ca34cb0fa2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 33/35] fix: Wyoming levels with missing values were filled
 with values of other columns

---
 pyrtlib/apiwebservices/wyomingupperair.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..edd03d2 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -141,10 +141,10 @@ class WyomingUpperAir(HTTPEndPoint):
         tabular_data = StringIO(soup.find_all('pre')[0].contents[0])
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
-        # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # Columns are 7 characters wide and blank where a value is missing: neither inferred widths nor
+        # splitting on whitespace tell which of the values are missing
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, colspecs=[(7 * i, 7 * i + 7) for i in range(len(col_names))],
+                         names=col_names)
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From c1b9781d3fbe4321a0022d9220abc93a71f76bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 34/35] fix: ERA5 humidity is a fraction but was labelled in
 percent

---
 pyrtlib/apiwebservices/erafive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 7826882..2e4e5b4 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -56,7 +56,7 @@ class ERA5Reanalysis:
                 {'p': 'hPa',
                 'z': 'km',
                 't': 'K',
-                'rh': '%',
+                'rh': 'decimal',
                 'clwc': 'kg kg-1',
                 'ciwc': 'kg kg-1',
                 'crwc': 'kg kg-1',
@@ -107,7 +107,7 @@ class ERA5Reanalysis:
         df.attrs['units'] = {'p': 'hPa',
                              'z': 'km',
                              't': 'K',
-                             'rh': '%',
+                             'rh': 'decimal',
                              'clwc': 'kg kg-1',
                              'ciwc': 'kg kg-1',
                              'crwc': 'kg kg-1',
-- 
2.43.0


From e02c42366e90f5ad215832443b0e4698accdbe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 35/35] fix: start every run of a simulation from empty output
 arrays

execute() reused and returned the object's work arrays: running the object
again with other settings overwrote results already returned, and switching
cloudy off kept the cloud terms of the previous run in the clear-sky result.
---
 pyrtlib/tb_spectrum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 87ada16..e246236 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -313,6 +313,13 @@ class TbCloudRTE(object):
 
         self._init_linelist()
 
+        # Results returned by an earlier run belong to the caller, and its cloud
+        # terms must not enter a clear-sky run
+        for name in ('sptaudry', 'sptauwet', 'sptauliq', 'sptauice', 'awet', 'adry',
+                     'ptaudry', 'ptaulay', 'ptauwet', 'ptauliq', 'ptauice', 'tbtotal', 'tbatm',
+                     'tmr', 'tmrcld', 'srho', 'swet', 'sdry', 'sliq', 'sice'):
+            setattr(self, name, np.zeros_like(getattr(self, name)))
+
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
             warnings.warn(
                 "Model {} for liquid cloud absorption is outdated. "
-- 
2.43.0

