From 3f9e6e859513be99729e7c5a3a7358f6eea8ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 01/28] fix: use the forward (decaying) wave for total internal
 reflection in coh_tmm

---
 refellips/reflect_modelSE.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index cb1593f..a8866cc 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -142,6 +142,16 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # (NLAYERS, NUMPNTS)
     th_list = arcsin(n_list[0] * np.sin(th_0[None, :]) / n_list[:, None])
 
+    # Snell's law has two solutions (th and pi - th), pick the one for which
+    # the wave decays (or, in lossless media, travels) in the forward direction
+    ncostheta = n_list[:, None] * np.cos(th_list)
+    backward = np.where(
+        np.abs(ncostheta.imag) > 100 * EPSILON,
+        ncostheta.imag < 0,
+        ncostheta.real < 0,
+    )
+    th_list = np.where(backward, np.pi - th_list, th_list)
+
     # kz is the z-component of (complex) angular wavevector for forward-moving
     # wave. Positive imaginary part means decaying.
     # kz_list.shape = (NLAYERS, NUMPOINTS)
-- 
2.43.0


From e016d3b6f7907c1c2f228db90e86911c09e33a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 02/28] fix: Delta_Psi_TMM no longer overwrites the caller's
 layers array

---
 refellips/reflect_modelSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index a8866cc..79470e4 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -281,8 +281,8 @@ def Delta_Psi_TMM(AOI, layers, wavelength, delta_offset, reflect_delta=False):
     AOI = np.asarray(AOI, np.float64)
     AOI = AOI * (np.pi / 180)
 
-    layers[0, 2] = 0  # infinate medium cannot have an extinction coeff
     RIs = layers[:, 1] + layers[:, 2] * 1j
+    RIs[0] = RIs[0].real  # infinate medium cannot have an extinction coeff
     thicks = layers[:, 0] / 10  # Ang to nm
     thicks[0] = np.inf
     thicks[-1] = np.inf
-- 
2.43.0


From 679160d65c9d6b44123930176ddbd1b0505f885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 03/28] fix: ReflectModelSE truncated Psi and Delta for integer
 input and rejected lists

---
 refellips/reflect_modelSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 79470e4..b45595c 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -384,7 +384,7 @@ class ReflectModelSE:
         if p is not None:
             self.parameters.pvals = np.array(p)
 
-        wavelength, aois = wavelength_aoi.T
+        wavelength, aois = np.asarray(wavelength_aoi, dtype=np.float64).T
         psi = np.zeros_like(wavelength)
         delta = np.zeros_like(wavelength)
 
-- 
2.43.0


From 44879b8cdbbfaab925f60d65aaacbee2b2be79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 04/28] fix: choose the physical root of the Bruggeman equation
 for metals and screening of 1

---
 refellips/structureSE.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 407b914..082dedd 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -902,19 +902,24 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
         b = E_a * ((1 - vf_B) - depolarisation_factor) + E_b * (
             vf_B - depolarisation_factor
         )
+        # scaling by s makes the principal square root the physical (passive)
+        # solution for all pairs of materials, including metals.
+        s = np.multiply(ri_A, ri_B)
+        b = b / s
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=RuntimeWarning)
-            v = (
-                b
-                + np.sqrt(
-                    b**2
-                    - 4
-                    * (depolarisation_factor - 1)
-                    * (E_a * E_b * depolarisation_factor)
-                )
-            ) / (2 * (1 - depolarisation_factor))
-            E_avg = np.where(np.isfinite(v), v, 0)
+            w = np.sqrt(
+                b**2 + 4 * depolarisation_factor * (1 - depolarisation_factor)
+            )
+            # both expressions are the same root, the second one does not
+            # suffer from cancellation, and is finite for a factor of 1
+            v = np.where(
+                np.real(b) >= 0,
+                (b + w) / (2 * np.float64(1 - depolarisation_factor)),
+                2 * depolarisation_factor / (w - b),
+            )
+            E_avg = s * v
     else:
         raise RuntimeError("No other method of mixing is known")
 
-- 
2.43.0


From ba63ad790dba0181bd2f5ad5f682caae8d6df969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 05/28] fix: RI altered the caller's wavelength array and
 misread descending or list tables

---
 refellips/dispersion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index d7170f6..3e0517f 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -78,6 +78,8 @@ class RI(ScattererSE):
                 vals = np.loadtxt(
                     dispersion, skiprows=1, delimiter=",", encoding="utf8"
                 ).T
+                # np.interp needs ascending wavelengths
+                vals = vals[:, np.argsort(vals[0], kind="stable")]
                 self._wav = vals[0]
                 self._RI = vals[1]
                 self._EC = np.zeros_like(self._wav)
@@ -91,8 +93,11 @@ class RI(ScattererSE):
                 # this is if you have an (3, N) array or tuple specifying
                 # wavelength, RI, extinction coef.
                 # wavelength assumed to be in *nm*
-                self._wav, self._RI, self._EC = dispersion
-                self._wav *= 1000
+                # work with copies, and np.interp needs ascending wavelengths
+                vals = np.array(dispersion, dtype=np.float64)
+                vals = vals[:, np.argsort(vals[0], kind="stable")]
+                self._wav, self._RI, self._EC = vals
+                self._wav = self._wav * 1000
             else:
                 raise TypeError("format not recognised")
 
-- 
2.43.0


From f9800fc59f3d4ccb4fccbe9be4bb450da30f0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 06/28] fix: TaucLorentz returned NaN for strongly damped
 oscillators and at the bandgap

---
 refellips/dispersion.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 3e0517f..bb1a4fb 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -568,8 +568,11 @@ class TaucLorentz(ScattererSE):
         )
         a_atan = (energies**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * C**2
         alpha = np.sqrt(4 * Ei**2 - C**2)
-        gamma = np.sqrt(Ei**2 - C**2 / 2)
-        zeta4 = (energies**2 - gamma**2) ** 2 + 0.25 * alpha**2 * C**2
+        # gamma**2 is negative for strongly damped oscillators
+        gamma2 = Ei**2 - C**2 / 2
+        # avoids log(0) at the bandgap, where the log terms cancel
+        de = np.maximum(np.abs(energies - Eg), 1e-100)
+        zeta4 = (energies**2 - gamma2) ** 2 + 0.25 * alpha**2 * C**2
 
         e1 = (
             A
@@ -601,11 +604,11 @@ class TaucLorentz(ScattererSE):
             * A
             * Ei
             * Eg
-            * (energies**2 - gamma**2)
+            * (energies**2 - gamma2)
             / np.pi
             / zeta4
             / alpha
-            * (np.pi + 2 * np.arctan(2 * (gamma**2 - Eg**2) / alpha / C))
+            * (np.pi + 2 * np.arctan(2 * (gamma2 - Eg**2) / alpha / C))
         )
         e1 -= (
             A
@@ -615,7 +618,7 @@ class TaucLorentz(ScattererSE):
             / np.pi
             / zeta4
             / energies
-            * np.log(np.abs(energies - Eg) / (energies + Eg))
+            * np.log(de / (energies + Eg))
         )
         e1 += (
             2
@@ -626,7 +629,7 @@ class TaucLorentz(ScattererSE):
             / np.pi
             / zeta4
             * np.log(
-                np.abs(energies - Eg)
+                de
                 * (energies + Eg)
                 / np.sqrt((Ei**2 - Eg**2) ** 2 + Eg**2 * C**2)
             )
-- 
2.43.0


From 70084e3e7b767fafdb417afb2ebf18bd05f6892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 07/28] fix: circular_distance was wrong for angles more than a
 whole turn apart

---
 refellips/objectiveSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index ce76f7d..6da4ea4 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -36,7 +36,7 @@ def circular_distance(angle1, angle2, period=360):
     Returns:
         float or np.ndarray: The shortest circular distance between the angles.
     """
-    diff = np.abs(angle1 - angle2)
+    diff = np.abs(angle1 - angle2) % period
     return np.minimum(diff, period - diff)
 
 
-- 
2.43.0


From 378e7c6f409c68c4d653f2d0d92ef67275273609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 08/28] fix: DataSE modified the arrays (or dataset) it was
 made from and rejected lists

---
 refellips/dataSE.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 50f3ba8..be22698 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -85,18 +85,18 @@ class DataSE(object):
         elif isinstance(data, DataSE):
             self.name = data.name
             self.filename = data.filename
-            self.metadata = data.metadata
-            self._wavelength = data._wavelength
-            self._aoi = data._aoi
-            self._psi = data._psi
-            self._delta = data._delta
+            self.metadata = dict(data.metadata)
+            self._wavelength = np.array(data._wavelength, dtype=float)
+            self._aoi = np.array(data._aoi, dtype=float)
+            self._psi = np.array(data._psi, dtype=float)
+            self._delta = np.array(data._delta, dtype=float)
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-            self._wavelength = data[0]
-            self._aoi = data[1]
-            self._psi = data[2]
-            self._delta = data[3]
+            self._wavelength = np.array(data[0], dtype=float)
+            self._aoi = np.array(data[1], dtype=float)
+            self._psi = np.array(data[2], dtype=float)
+            self._delta = np.array(data[3], dtype=float)
 
         self._delta_flipped = False
         if reflect_delta:
-- 
2.43.0


From 86a74028e403192c43afea8c507f04e0f3d81ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 09/28] fix: objectives sharing a model used the Delta
 convention of the last one created

---
 refellips/dataSE.py      |  3 ++-
 refellips/objectiveSE.py | 10 +++++++++-
 tools/plottools.py       |  1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index be22698..35a65d2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -64,6 +64,7 @@ class DataSE(object):
 
         self.delimiter = delimiter
         self.metadata = kwds
+        self._delta_flipped = False
         self._wavelength = np.zeros(0)
         self._aoi = np.zeros(0)
         self._psi = np.zeros(0)
@@ -90,6 +91,7 @@ class DataSE(object):
             self._aoi = np.array(data._aoi, dtype=float)
             self._psi = np.array(data._psi, dtype=float)
             self._delta = np.array(data._delta, dtype=float)
+            self._delta_flipped = data._delta_flipped
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
@@ -98,7 +100,6 @@ class DataSE(object):
             self._psi = np.array(data[2], dtype=float)
             self._delta = np.array(data[3], dtype=float)
 
-        self._delta_flipped = False
         if reflect_delta:
             dmask = self._delta > 180
             self._delta[dmask] = 360 - self._delta[dmask]
diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 6da4ea4..670978c 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -98,7 +98,7 @@ class ObjectiveSE(BaseObjective):
     ):
         self.model = model
         # should be a DataSE instance
-        if type(data) is DataSE:
+        if isinstance(data, DataSE):
             self.data = data
         else:
             print("Note: data supplied to objective is not a DataSE instance.")
@@ -115,6 +115,11 @@ class ObjectiveSE(BaseObjective):
         if name is None:
             self.name = id(self)
 
+        self._use_delta_convention()
+
+    def _use_delta_convention(self):
+        # the model may be shared with objectives whose data have a different
+        # Delta convention, so this is needed before each model evaluation
         self.model._flip_delta = self.data._delta_flipped
 
     def __str__(self):
@@ -200,6 +205,7 @@ class ObjectiveSE(BaseObjective):
 
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
+        self._use_delta_convention()
         psi, delta = self.model(wavelength_aoi)
         delta_err = circular_distance(delta, delta_d, period=360)
         return np.r_[psi - psi_d, delta_err]
@@ -389,6 +395,7 @@ class ObjectiveSE(BaseObjective):
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
 
+        self._use_delta_convention()
         psi, delta = self.model(wavelength_aoi)
 
         logl = 0.0
@@ -573,6 +580,7 @@ class ObjectiveSE(BaseObjective):
 
         data = self.data
         model = self.model
+        self._use_delta_convention()
 
         if fig is None:
             import matplotlib.pyplot as plt
diff --git a/tools/plottools.py b/tools/plottools.py
index 23f8e5d..7e61acd 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -56,6 +56,7 @@ def plot_ellipsdata(
         ), "If objective is supplied, model and data should not be passed"
         data = objective.data
         model = objective.model
+        model._flip_delta = data._delta_flipped
     elif model is not None:
         assert (
             data is not None
-- 
2.43.0


From af051b2862283fb5e1db13b255931a683485a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 10/28] fix: ObjectiveSE.logl left out the documented
 model.logp and logp_extra terms

---
 refellips/objectiveSE.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 670978c..939173d 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -423,7 +423,12 @@ class ObjectiveSE(BaseObjective):
         if np.isnan(logl).any():
             raise RuntimeError("ObjectiveSE.logl encountered a NaN.")
 
-        return -0.5 * np.sum(logl)
+        # extra log-probability terms
+        extra = self.model.logp()
+        if self.logp_extra is not None:
+            extra += self.logp_extra(self.model, self.data)
+
+        return -0.5 * np.sum(logl) + extra
 
     def logpost(self, pvals=None):
         """
-- 
2.43.0


From 9845f484d18ea086c30d93b416c8bc992193c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 11/28] fix: DataSE.mask did not broadcast, and None did not
 clear it

---
 refellips/dataSE.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 35a65d2..318729e 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -140,6 +140,19 @@ class DataSE(object):
             loc = np.where(self.wavelength == unique_wav)
             yield unique_wav, self.aoi[loc], self.psi[loc], self.delta[loc]
 
+    @property
+    def mask(self):
+        """Selects the data points that are included (True)."""
+        return self._mask
+
+    @mask.setter
+    def mask(self, mask):
+        if mask is None:
+            mask = True
+        self._mask = np.array(
+            np.broadcast_to(np.asarray(mask, bool), self._wavelength.shape)
+        )
+
     @property
     def wavelength(self):
         """wavelength(nm)"""
-- 
2.43.0


From 49eaebaa9eec93478002137fe2c7ccee132d1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 12/28] fix: DataSE lost rows from open files, and refresh lost
 rows and reflection

---
 refellips/dataSE.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 318729e..1de6dce 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -101,12 +101,15 @@ class DataSE(object):
             self._delta = np.array(data[3], dtype=float)
 
         if reflect_delta:
-            dmask = self._delta > 180
-            self._delta[dmask] = 360 - self._delta[dmask]
-            self._delta_flipped = True
+            self._reflect_delta()
 
         self.mask = np.ones_like(self._wavelength, dtype=bool)
 
+    def _reflect_delta(self):
+        dmask = self._delta > 180
+        self._delta[dmask] = 360 - self._delta[dmask]
+        self._delta_flipped = True
+
     def __len__(self):
         """Number of unmasked points in the dataset."""
         return self.wavelength.size
@@ -248,16 +251,19 @@ class DataSE(object):
 
         skip_lines = 0
         with possibly_open_file(f, "r") as text:
-            for i in range(100):  # check the first 100 lines
-                try:
-                    float(text.readline().split(self.delimiter)[0])
-                    break
-                except ValueError:
-                    skip_lines += 1
+            lines = text.readlines()
+
+        for line in lines[:100]:  # check the first 100 lines
+            try:
+                float(line.split(self.delimiter)[0])
+                break
+            except ValueError:
+                skip_lines += 1
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
+            lines[skip_lines:], delimiter=self.delimiter, ndmin=2
         ).T
+        self.mask = None
 
     def refresh(self):
         """
@@ -265,8 +271,11 @@ class DataSE(object):
 
         """
         if self.filename is not None:
-            with possibly_open_file(self.filename) as f:
-                self.load(f)
+            if hasattr(self.filename, "seek"):
+                self.filename.seek(0)
+            self.load(self.filename)
+            if self._delta_flipped:
+                self._reflect_delta()
 
 
 def open_EP4file(fname, reflect_delta=False):
-- 
2.43.0


From 6e83b381a5acb8942a6ab97553c808c6fd0de7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:35 +0000
Subject: [PATCH 13/28] fix: EP4 time series lost rows and times when there are
 several locations

---
 refellips/dataSE.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 1de6dce..cab7dde 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -320,9 +320,12 @@ def open_EP4file(fname, reflect_delta=False):
         print("Treating as time series:")
         output = []
         for t in df["Time"].drop_duplicates():
-            tdf = df[df["Time"] == t]
-            output += _loadEP4(tdf)  # not sure if this will work
-            output[-1]["time"] = t
+            # _loadEP4 relies on consecutive row labels
+            tdf = df[df["Time"] == t].reset_index(drop=True)
+            t_output = _loadEP4(tdf)
+            for op in t_output:
+                op["time"] = t
+            output += t_output
     else:
         output = _loadEP4(df)
         for op in output:
-- 
2.43.0


From 163452195dfa79494ebe12c0d979920e53792b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 14/28] fix: EP4 replicate average of Delta was wrong across
 the 0/360 wrap

---
 refellips/dataSE.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index cab7dde..6b975fb 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -398,6 +398,34 @@ def custom_round(x, base=0.25):
     return np.round((base * np.round(x / base)), 2)
 
 
+def _average_EP4(df):
+    """
+    Average replicate measurements made at the same angle and wavelength.
+
+    Parameters
+    ----------
+    df : DataFrame
+        Data frame containing (at least) the columns
+        ['#Lambda', 'AOI', 'Psi', 'Delta']
+
+    Returns
+    ----------
+    ave : DataFrame
+        One row for each angle of incidence and wavelength.
+
+    """
+    # Delta is an angle, replicates either side of 0/360 have to be placed in
+    # the same turn before averaging.
+    first = df.groupby(["AOI", "#Lambda"])["Delta"].transform("first")
+    turns = np.round((df["Delta"] - first) / 360)
+    df = df.assign(Delta=df["Delta"] - 360 * turns)
+
+    ave = df.groupby(["AOI", "#Lambda"]).mean().reset_index()
+    if turns.any():
+        ave["Delta"] = ave["Delta"] % 360
+    return ave
+
+
 def _loadEP4(df):
     """
     Specifically loading a data file created by an Accurion EP4 ellipsometer.
@@ -456,8 +484,7 @@ def _loadEP4(df):
             ]
 
             if len(pdf.index) > 0:
-                ave_pos = pdf.groupby(["AOI", "#Lambda"]).mean()
-                ave_pos = ave_pos.reset_index()
+                ave_pos = _average_EP4(pdf)
 
                 summary = {
                     "lambda": np.array(ave_pos["#Lambda"]),
@@ -471,8 +498,7 @@ def _loadEP4(df):
     else:
         print("Treating as single location")
         df = df[["#Lambda", "AOI", "Psi", "Delta"]]
-        ave_pos = df.groupby(["AOI", "#Lambda"]).mean()
-        ave_pos = ave_pos.reset_index()
+        ave_pos = _average_EP4(df)
 
         summary = {
             "lambda": np.array(ave_pos["#Lambda"]),
-- 
2.43.0


From e06239bdc33abe12ce4f84bb9f3616cca3fcac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 15/28] fix: open_M2000file lost rows when given an open file

---
 refellips/dataSE.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 6b975fb..a868f5d 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -5,6 +5,7 @@ A basic representation of a 1D dataset
 """
 
 import copy
+import io
 import numpy as np
 import pandas as pd
 from refnx._lib import possibly_open_file
@@ -636,10 +637,15 @@ def open_M2000file(fname, take_every=1, dropdatapoints=1):
     mode = None
     metadata = {}
 
+    with possibly_open_file(fname, mode="r") as file:
+        # an open file can only be read once
+        fname = io.StringIO(file.read())
+
     with possibly_open_file(fname, mode="r") as file:
         file.readline()  # Skip the blank first line
         firstline = file.readline()[:-1]
         secondline = file.readline()[:-1]
+        file.seek(0)
 
         if secondline == "nm":
             mode = "single"
-- 
2.43.0


From 216b6461aac6eb6147fc4d51f5530ce937de0b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 16/28] fix: open_HORIBAfile failed off Windows, and for Path
 objects and open files

---
 refellips/dataSE.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index a868f5d..e159424 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -545,11 +545,17 @@ def open_HORIBAfile(
 
     """
 
-    name = fname[:-4]
+    name = getattr(fname, "name", "") if hasattr(fname, "read") else fname
+    name = str(name)[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
 
+    if not hasattr(fname, "read"):
+        # these files are written with the Western European Windows codepage
+        with open(fname, "r", encoding="cp1252", errors="replace") as f:
+            fname = io.StringIO(f.read())
+
     with possibly_open_file(fname, "r") as f:
         lines = f.readlines()
 
@@ -580,10 +586,9 @@ def open_HORIBAfile(
                     )  # append line to metadata entry
 
     data_df = pd.read_csv(
-        fname,
+        io.StringIO("".join(lines)),
         skiprows=linenodict["DATA"] + 1,
         nrows=len(metadata["DATA"]) - 1,
-        encoding="ANSI",
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
-- 
2.43.0


From 6feb97b548c3edb2e4ac761adf9f281718c1f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 17/28] fix: solvation by the backing medium was ignored with
 graded interfaces

---
 refellips/structureSE.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 082dedd..4ce1f03 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -838,7 +838,10 @@ class StructureSE(Structure):
             solv = solvent.complex(self.wavelength)
 
         if solv is None:
-            return slabs
+            # the backing medium, after any reversal of the structure
+            backing = self.data[0 if self.reverse_structure else -1]
+            backing_slab = backing.slabs(structure=self)[-1]
+            solv = complex(backing_slab[1], backing_slab[2])
 
         vf = slabs[..., 4]
         N = slabs[..., 1] + slabs[..., 2] * 1j
-- 
2.43.0


From d034c97e98635b551ae5ef794c986ea90783c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 18/28] fix: copying a StructureSE dropped its mixing,
 reversal, contraction and wavelength

---
 refellips/structureSE.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 4ce1f03..838148d 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -475,7 +475,15 @@ class StructureSE(Structure):
     sld_profile = None
 
     def __copy__(self):
-        s = StructureSE(name=self.name, solvent=self._solvent)
+        s = StructureSE(
+            name=self.name,
+            solvent=self._solvent,
+            reverse_structure=self.reverse_structure,
+            contract=self.contract,
+            wavelength=self.wavelength,
+            ema=self.ema,
+            depolarisation_factor=self.depolarisation_factor,
+        )
         s.data = self.data.copy()
         return s
 
-- 
2.43.0


From bcdbff9358039c18e4eaa1617e9f2369a1bd4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 19/28] fix: StructureSE accepted depolarisation factors
 outside [0, 1]

---
 refellips/structureSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 838148d..95d1bc6 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -467,7 +467,7 @@ class StructureSE(Structure):
         self.data = [c for c in components if isinstance(c, ComponentSE)]
 
         self.ema = ema
-        self._depolarisation_factor = depolarisation_factor
+        self.depolarisation_factor = depolarisation_factor
 
         # we do this so micro-slicing can work
         self.overall_sld = self.overall_ri
-- 
2.43.0


From d889aeb8845242e11c2c08cee3720b0ea3588d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 20/28] fix: plot_structure left the structure unreversed and
 at another wavelength

---
 tools/plottools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/plottools.py b/tools/plottools.py
index 7e61acd..06239f4 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -203,6 +203,7 @@ def plot_structure(
         colors = ["k"]
         alpha = 1
 
+    saved_state = structure.reverse_structure, structure.wavelength
     structure.reverse_structure = reverse_structure
 
     for wav, col in zip(wavelengths, colors):
@@ -211,7 +212,7 @@ def plot_structure(
             *structure.ri_profile(), color=col, alpha=alpha, label=f"{wav} nm"
         )
 
-    structure.reverse_structure = False
+    structure.reverse_structure, structure.wavelength = saved_state
 
     if plot_labels:
         ax.set(ylabel="Refractive index", xlabel="Distance from substrate (Å)")
-- 
2.43.0


From 0498563d77962ed8427af9e6c7f0fb980c622567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 21/28] fix: covar reports every parameter that has no effect

Rounding in the SVD could leave a variance of ~1e-30 instead of exactly zero,
in which case no LinAlgError was raised and the parameter appeared to be
perfectly determined.
---
 refellips/objectiveSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 939173d..af79d48 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -515,7 +515,9 @@ class ObjectiveSE(BaseObjective):
             covar = covar * np.atleast_2d(_pvals) * np.atleast_2d(_pvals).T
 
         pvar = np.diagonal(covar).copy()
-        psingular = np.where(pvar == 0)[0]
+        # rounding in the SVD can leave a tiny variance for a parameter that
+        # has no effect, its column in the Jacobian is exactly zero.
+        psingular = np.where((pvar == 0) | ~np.any(jac, axis=0))[0]
 
         if len(psingular) > 0:
             var_params = self.varying_parameters()
-- 
2.43.0


From 9cea3daf25fcdc72c1721cdb318dd7a66801ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:24 +0000
Subject: [PATCH 22/28] fix: Cauchy index of integer wavelength arrays no
 longer overflows

---
 refellips/dispersion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index bb1a4fb..29dbc9b 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -216,6 +216,8 @@ class Cauchy(ScattererSE):
         wav = self.wavelength
         if np.any(wavelength):
             wav = wavelength
+        # powers of integer wavelengths can overflow
+        wav = np.asarray(wav, np.float64)
 
         real = (
             self.A.value
-- 
2.43.0


From 9607798eebb6ebf8ac58e2588d8d412d74681b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:49 +0000
Subject: [PATCH 23/28] fix: name a material after its file when no name is
 given

---
 refellips/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 29dbc9b..50e7941 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -73,7 +73,7 @@ class RI(ScattererSE):
             if type(dispersion) is str or isinstance(dispersion, PurePath):
                 if not len(name):
                     # if there is no name get it from the path
-                    name = os.path.basename(dispersion).split(".")[0]
+                    self.name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
                     dispersion, skiprows=1, delimiter=",", encoding="utf8"
-- 
2.43.0


From ddd900956e6ea16a25d50eb566c01f36f47b6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 24/28] fix: MixedSlabSE refuses contents that are not a
 ScattererSE

---
 refellips/structureSE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 95d1bc6..e2b2059 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -331,6 +331,9 @@ class MixedSlabSE(ComponentSE):
         self.thick = possibly_create_parameter(
             thick, name=f"{name} - thick", units="Å"
         )
+        for ri in (ri_A, ri_B):
+            if not isinstance(ri, ScattererSE):
+                raise ValueError("ri_A and ri_B should be ScattererSE objects")
         self.ri_A = ri_A
         self.ri_B = ri_B
         self.vf_B = possibly_create_parameter(
-- 
2.43.0


From 899a8b8353476bb4311f6a2cb28958f356441263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:01 +0000
Subject: [PATCH 25/28] fix: extending, inserting in, and item assignment of a
 StructureSE treat items as append does

---
 refellips/structureSE.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index e2b2059..91006e3 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -537,6 +537,33 @@ class StructureSE(Structure):
             )
         super().append(item)
 
+    def extend(self, other):
+        """
+        Append each :class:`Component` of a sequence to the Structure.
+        """
+        super().extend(self._as_components(other))
+
+    def insert(self, i, item):
+        """
+        Insert a :class:`Component` in the Structure.
+        """
+        super().insert(i, self._as_components([item])[0])
+
+    def __setitem__(self, i, v):
+        if isinstance(i, slice):
+            v = self._as_components(v)
+        else:
+            v = self._as_components([v])[0]
+        super().__setitem__(i, v)
+
+    @staticmethod
+    def _as_components(items):
+        # same conversions and refusals as when appending
+        s = StructureSE()
+        for item in items:
+            s.append(item)
+        return s.data
+
     def reflectivity(self):
         raise NotImplementedError(
             "Use refellips.ReflectModelSE to calculate ellipsometric"
-- 
2.43.0


From e5ceec5a73593896c384feb612bcd0222dde1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:15 +0000
Subject: [PATCH 26/28] fix: DataSE refuses columns of different shape, and a
 refused assignment changes nothing

---
 refellips/dataSE.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index e159424..442fb0c 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -96,10 +96,7 @@ class DataSE(object):
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-            self._wavelength = np.array(data[0], dtype=float)
-            self._aoi = np.array(data[1], dtype=float)
-            self._psi = np.array(data[2], dtype=float)
-            self._delta = np.array(data[3], dtype=float)
+            self.data = data
 
         if reflect_delta:
             self._reflect_delta()
@@ -211,10 +208,11 @@ class DataSE(object):
         Clears the mask for the dataset, it will need to be reapplied.
 
         """
-        self._wavelength = np.array(data_tuple[0], dtype=float)
-        self._aoi = np.array(data_tuple[1], dtype=float)
-        self._psi = np.array(data_tuple[2], dtype=float)
-        self._delta = np.array(data_tuple[3], dtype=float)
+        columns = [np.array(data_tuple[i], dtype=float) for i in range(4)]
+        if len({column.shape for column in columns}) > 1:
+            raise ValueError("All arrays must have the same shape.")
+
+        self._wavelength, self._aoi, self._psi, self._delta = columns
 
         self.mask = np.ones_like(self._wavelength, dtype=bool)
 
-- 
2.43.0


From 3ed707924d1d7218c5c341b17be0a6b5ceedc67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 27/28] fix: a dataset copied with DataSE(dataset) keeps the
 delimiter, so that it can be refreshed

---
 refellips/dataSE.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 442fb0c..b25681c 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -87,6 +87,7 @@ class DataSE(object):
         elif isinstance(data, DataSE):
             self.name = data.name
             self.filename = data.filename
+            self.delimiter = data.delimiter
             self.metadata = dict(data.metadata)
             self._wavelength = np.array(data._wavelength, dtype=float)
             self._aoi = np.array(data._aoi, dtype=float)
-- 
2.43.0


From f9910e3c92c2f3ceade810267642fb6cc230e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:41 +0000
Subject: [PATCH 28/28] fix: the transverse wavevector in coh_tmm is real, also
 behind an absorbing fronting medium at grazing exit

---
 refellips/reflect_modelSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index b45595c..b32d42c 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -139,8 +139,10 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # Important that the arcsin here is numpy.lib.scimath.arcsin, not
     # numpy.arcsin! (They give different results e.g. for arcsin(2).)
 
+    # n0 sin(th0) is real, rounding must not make a grazing wave look absorbed
     # (NLAYERS, NUMPNTS)
-    th_list = arcsin(n_list[0] * np.sin(th_0[None, :]) / n_list[:, None])
+    nsintheta = np.real(n_list[0] * np.sin(th_0[None, :]))
+    th_list = arcsin(nsintheta / n_list[:, None])
 
     # Snell's law has two solutions (th and pi - th), pick the one for which
     # the wave decays (or, in lossless media, travels) in the forward direction
-- 
2.43.0

