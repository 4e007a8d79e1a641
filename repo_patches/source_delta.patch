From 7da4786b5a3cb2b86f501e17f162229aa1d6b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 01/68] fix: integer setpoints are treated as floats in all
 setting methods

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From 986e96018bdd307465eefd0c2a2e676cab81baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/68] fix: building the model ring no longer zeroes the
 dipole setpoints of the machine

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 5a97fe7122d6740af861a05f635423d620dc9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 03/68] fix: model ring can include apertures

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..103dd9d 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,9 +165,9 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
+            if hasattr(SC.RING[ord], 'EApertures'):
                 ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
+            if hasattr(SC.RING[ord], 'RApertures'):
                 ring[ord].RApertures = SC.RING[ord].RApertures
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
-- 
2.43.0


From 9e41ff49d5866bf5f00fc4f93fd53b33e541d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 04/68] fix: systematic multipoles use the column of each
 target and do not modify the given array

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..02c0f71 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -477,13 +477,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = BA.copy()
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for ind_target, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, ind_target]
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From c34773f1b939db9e15204426d73aa3b9e94c41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 05/68] fix: rolls of supports wrapping around the injection
 point apply only within the support

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 02c0f71..f83dfa9 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -748,8 +748,8 @@ class SimulatedCommissioning:
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
-                    mask = ~mask
+                    mask[:ords[1] + 1] = True
+                    mask[ords[0]:] = True
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-- 
2.43.0


From 91a2a49be8e48ab9c9b1d1457433b0a4cf79f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 06/68] fix: elements get the displacement of their own support
 at the boundary of two supports

---
 pySC/core/simulated_commissioning.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index f83dfa9..48535ea 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -676,13 +676,13 @@ class SimulatedCommissioning:
             *SC.register_support*, *SC.support_offset_and_roll*, *plot_support*
 
         """
-        s_pos = at_wrapper.findspos(self.RING)
+        # evaluated at element ordinates, as the position s is ambiguous at the boundary of two supports
+        offsets, rolls = self.support_offset_and_roll(at_wrapper.findspos(self.RING))
         if offset_magnets:
             if len(self.ORD.Magnet):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.Magnet])
-                for i, ind in enumerate(self.ORD.Magnet):
-                    setattr(self.RING[ind], "SupportOffset", offsets[:, i])
-                    setattr(self.RING[ind], "SupportRoll", rolls[:, i])
+                for ind in self.ORD.Magnet:
+                    setattr(self.RING[ind], "SupportOffset", offsets[:, ind])
+                    setattr(self.RING[ind], "SupportRoll", rolls[:, ind])
                     self.RING[ind] = sc_tools.update_transformation(self.RING[ind])
                     if hasattr(self.RING[ind], 'MasterOf'):
                         for child_ind in self.RING[ind].MasterOf:
@@ -692,11 +692,10 @@ class SimulatedCommissioning:
                 LOGGER.warning('SC: No magnets have been registered!')
         if offset_bpms:
             if len(self.ORD.BPM):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.BPM])
-                for i, ind in enumerate(self.ORD.BPM):
-                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, i])  # No longitudinal BPM offsets implemented
+                for ind in self.ORD.BPM:
+                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, ind])  # No longitudinal BPM offsets implemented
                     setattr(self.RING[ind], "SupportRoll",
-                            rolls[0, i])  # BPM pitch and yaw angles not  implemented
+                            rolls[0, ind])  # BPM pitch and yaw angles not  implemented
             else:
                 LOGGER.warning('SC: No BPMs have been registered!')
 
-- 
2.43.0


From 08e57a5bc6c01b5fa686c2b99e6bdb2f0874dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 07/68] fix: registering a support keeps the uncertainties
 declared earlier at the same ordinates

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 48535ea..520eef8 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,8 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            if ind not in self.SIG.Support.keys():
+                self.SIG.Support[ind] = DotDict()
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From 12d43ca8dfcfe157833ce023894b2aa2bb27cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 08/68] fix: skew quadrupole setpoints do not trigger the
 dipole compensation

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 520eef8..bdc7f18 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -932,7 +932,7 @@ class SimulatedCommissioning:
                 LOGGER.info(f'SkewLim \n Skew quadrupole (ord: {ord}) is clipping')
                 setpoints_1d[i] = np.sign(setpoints_1d[i]) * self.RING[ord].SkewQuadLimit
             # TODO should check CF magnets
-            if dipole_compensation and order == 1:  # quad  # TODO check also skewness?
+            if dipole_compensation and not skewness and order == 1:  # normal quad
                 self._dipole_compensation(ord, setpoints_1d[i])
             getattr(self.RING[ord], f"{SETPOINT}{letter}")[order] = setpoints_1d[i]
 
-- 
2.43.0


From 2320ac1776f0f553dd18b54a28cd6d7077877d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 09/68] fix: covariance of generated bunches equals the beam
 matrix for correlated planes

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..195c5b3 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From da3f8e5470777d4aa4330b01820dcd3757b2923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 10/68] fix: support errors can be applied repeatedly without
 accumulating or failing

---
 pySC/core/simulated_commissioning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index bdc7f18..906f653 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -577,8 +577,11 @@ class SimulatedCommissioning:
         s_pos = at_wrapper.findspos(self.RING)
         for support_type in SUPPORT_TYPES:
             for ordPair in self.ORD[support_type].T:
-                if ordPair[0] not in self.SIG.Support.keys():
+                if not any(support_type in field for field in self.SIG.Support.get(ordPair[0], {})):
                     continue
+                for ind in ordPair:  # errors are redrawn from scratch, not accumulated
+                    for field in SUPPORT_ERROR_FIELDS:
+                        setattr(self.RING[ind], f"{support_type}{field}", np.zeros(3))
                 for field, value in self.SIG.Support[ordPair[0]].items():
                     if support_type not in field:
                         continue
-- 
2.43.0


From 14a3403ced367f0a33f47625a5738b51ebbcd07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 11/68] fix: BPM noise levels do not share memory with the
 declared uncertainties

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 906f653..9baa134 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -548,7 +548,7 @@ class SimulatedCommissioning:
         for ind in classdef_tools.intersect(self.ORD.BPM, self.SIG.BPM.keys()):
             for field in self.SIG.BPM[ind]:
                 if re.search('Noise', field):
-                    setattr(self.RING[ind], field, self.SIG.BPM[ind][field])
+                    setattr(self.RING[ind], field, copy.deepcopy(self.SIG.BPM[ind][field]))
                 else:
                     setattr(self.RING[ind], field, classdef_tools.randn_cutoff(self.SIG.BPM[ind][field], nsigmas))
         # Magnet
-- 
2.43.0


From 5b505427f0452a81e926646717b3760df7a727df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 12/68] fix: pseudo-inverse of rank-deficient matrices and
 removal of all singular values

---
 pySC/utils/sc_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index ab1027d..421f88e 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -88,8 +88,9 @@ def pinv(matrix: ndarray, num_removed: int = 0, alpha: float = 0, damping: float
     """
     u_mat, s_mat, vt_mat = np.linalg.svd(matrix, full_matrices=False)
     num_singular_values = s_mat.shape[0] - num_removed if num_removed > 0 else s_mat.shape[0]
-    available = np.sum(s_mat > 0.)
-    keep = min(num_singular_values, available)
+    # singular values at the level of rounding errors are zeros
+    available = np.sum(s_mat > np.max(s_mat, initial=0.) * max(matrix.shape) * np.finfo(float).eps)
+    keep = max(0, min(num_singular_values, available))
     d_mat = np.zeros(s_mat.shape)
     d_mat[:available] = s_mat[:available] / (np.square(s_mat[:available]) + alpha**2) if alpha else 1/s_mat[:available]
     d_mat = damping * d_mat
-- 
2.43.0


From 847135a421c6a4d1cb28354f59859114e6841634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 13/68] fix: truncated random numbers of empty array shapes

---
 pySC/utils/sc_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index 421f88e..50586e7 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -31,13 +31,13 @@ def randnc(cut_off: float = 2, shape: tuple = (1,)) -> Union[ndarray, float64]:
     """
     if np.any([s < 0 for s in shape]):
         raise ValueError('The shape of the output array must be positive.')
-    out_shape = (1,) if np.sum(shape) < 1 else shape
+    out_shape = (1,) if len(shape) == 0 else shape
     out = np.random.randn(np.prod(out_shape))
     outindex = np.abs(out) > np.abs(cut_off)
     while np.sum(outindex):
         out[outindex] = np.random.randn(np.sum(outindex))
         outindex = np.abs(out) > np.abs(cut_off)
-    if np.sum(shape) < 1:
+    if len(shape) == 0:
         return out[0]
     return out.reshape(out_shape)
 
-- 
2.43.0


From 5356405ee8ff1dd43d8fdb1bdcd36e5b94e860fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 14/68] fix: missing values do not count in the sample size of
 unweighted errors

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index fafc5d8..739fe6d 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -286,7 +286,7 @@ def effective_sample_size(data, weights, axis=None):
         Returns the error of weighted circular average along the specified axis.
     """
     if weights is None:
-        sample_size = np.sum(np.ones(data.shape), axis=axis)
+        sample_size = np.sum(~np.ma.getmaskarray(data), axis=axis)  # missing values do not count
     else:
         sample_size = np.square(np.sum(weights, axis=axis)) / np.sum(np.square(weights), axis=axis)
     return np.where(sample_size > 2, sample_size, 2)
-- 
2.43.0


From 75c885d5423bc907214f5ec7d5b324e11659eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 15/68] fix: deep copy of the machine keeps the design lattice

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 9baa134..6043502 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -954,7 +954,7 @@ class SimulatedCommissioning:
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
         for ind, element in enumerate(self.RING):
             copied_structure.RING[ind] = element.deepcopy()
-            copied_structure.IDEALRING[ind] = element.deepcopy()
+            copied_structure.IDEALRING[ind] = self.IDEALRING[ind].deepcopy()
         return copied_structure
 
     def verify_structure(self):
-- 
2.43.0


From ada2df931a4b9a612a54286cc4701053213cf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 16/68] fix: setting an unknown cavity property is rejected

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 6043502..dc86f5b 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -797,6 +797,8 @@ class SimulatedCommissioning:
 
         """
         ords_1d, setpoints_1d = classdef_tools.check_input_and_setpoints(method, ords, setpoints)
+        if param not in RF_PROPERTIES:
+            raise ValueError(f'Unknown cavity property: {param}. Allowed options are: {RF_PROPERTIES}.')
         setpoint_str = f"{param}{SETPOINT}"
         if method == SETTING_REL:
             setpoints_1d *= at_wrapper.atgetfieldvalues(self.RING, ords_1d, setpoint_str)
-- 
2.43.0


From 087aa85756c7294a334ca84c4bc7f820e100c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 17/68] fix: support endpoints use their own declared
 uncertainties

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index dc86f5b..26d3c12 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -587,7 +587,8 @@ class SimulatedCommissioning:
                         continue
                     setattr(self.RING[ordPair[0]], field, classdef_tools.randn_cutoff(value, nsigmas))
                     setattr(self.RING[ordPair[1]], field,
-                            classdef_tools.randn_cutoff(value, nsigmas) if field in self.SIG.Support[ordPair[1]].keys()
+                            classdef_tools.randn_cutoff(self.SIG.Support[ordPair[1]][field], nsigmas)
+                            if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
                 struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
-- 
2.43.0


From 6f6f8998df02917ca053479b42c5f4afc7df8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 18/68] fix: pseudo-orbit reading of BPMs which no beam reached

---
 pySC/core/beam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 195c5b3..8e8fb59 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -55,9 +55,9 @@ def bpm_reading(SC: SimulatedCommissioning, bpm_ords: ndarray = None, calculate_
     if SC.plot:
         _plot_bpm_reading(SC, mean_bpm_orbits_3d, bpm_inds)
     if SC.INJ.trackMode == TRACK_PORB:   # ORB averaged over low amount of turns
-        mean_bpm_orbits_3d = np.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
-                                        weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
-                                        keepdims=True).filled(np.nan)
+        mean_bpm_orbits_3d = np.ma.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
+                                           weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
+                                           keepdims=True).filled(np.nan)
         mean_bpm_sums_3d = np.nansum(mean_bpm_sums_3d, axis=2, keepdims=True) / SC.INJ.nTurns
     if calculate_errors and SC.INJ.trackMode == TRACK_TBT:
         bpm_orbits_4d[np.sum(np.isnan(bpm_orbits_4d), axis=3) > 0, :] = np.nan
-- 
2.43.0


From 7c9477ce78074af343b81510d880e2c760927a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 19/68] fix: bunches of singular or degenerate beam matrices
 are finite and have the right covariance

---
 pySC/core/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 8e8fb59..6e05fab 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -162,8 +162,8 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
         nParticles = SC.INJ.nParticles
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
-        V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
+        V, L = np.linalg.eigh(SC.INJ.beamSize)  # orthogonal eigenvectors also for repeated eigenvalues
+        Z += L @ np.diag(np.sqrt(np.maximum(V, 0))) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From a98bb584ca1d6f8702273a4dbe6b1d772cab67b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 20/68] fix: verification of machines with split magnets

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 26d3c12..9f9c181 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1023,9 +1023,9 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
-                        if not hasattr(self.RING[ord],field): 
-                            LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
+                    for field in vars(self.RING[cOrd]):
+                        if not hasattr(self.RING[ord],field):
+                            LOGGER.warning(f'Child magnet (ord: {cOrd:d}) has different field "{field:s}" than master magnet (ord: {ord:d}).')
        
         if len(self.ORD.RF) == 0:
             LOGGER.warning('No cavity registered. Use "SCregisterCavity".')
-- 
2.43.0


From 50f3f6ea5d0ba63286033578feec270fde61fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 21/68] fix: stitching and balancing do not modify the
 reference of the caller

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..d109e4d 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = np.array(reference).reshape(2, len(bpm_readings[0]))
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = np.array(reference).reshape(2, len(bpm_readings[0]))
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From 30ea1a76b6a7a63c2a0ff12f764bc66a0e18a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 22/68] fix: stability of the rms readings is judged for each
 plane and includes vanishing readings

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index d109e4d..c774b01 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return (np.var(hist[-n:]) / np.std(hist[-n:])) < eps
+    return bool(np.all(np.std(hist[-n:], axis=0) < eps))  # for each plane
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From 070d736e5f9ce39dde2de48e080495d52d3a3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 23/68] fix: orbit correction without initial transmission is
 rejected before correctors are set to NaN

---
 pySC/correction/orbit_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index c774b01..0e9c91a 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -287,6 +287,8 @@ def correct(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
     bpm_ords, cm_ords, reference = _check_ords(SC, response_matrix[:, :-1] if scaleDisp else response_matrix,
                                                reference, bpm_ords, cm_ords)
     bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(SC, bpm_ords=bpm_ords)  # Inject ...
+    if np.any(np.isnan(bpm_readings[0, :])):
+        raise RuntimeError('Orbit/trajectory correction: FAIL (no full transmission to begin with)')
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
 
     # Main loop
-- 
2.43.0


From 15f344cf459152b1f3f06112be9bbe32f1d65aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 24/68] fix: wiggling uses the last BPM reached also when the
 beam was just lost completely

---
 pySC/correction/orbit_trajectory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 0e9c91a..54e7b7c 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -383,8 +383,11 @@ def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1
 
     for nWiggleCM in nums_correctors:
         LOGGER.debug(f'Number of magnets used for wiggling: {nWiggleCM}. \n')
-        tmpCMordsH = _get_last_cm(transmission_history[-1] - 1, nWiggleCM, bpm_ords, cm_ords[0])[0]  # Last CMs in horz
-        tmpCMordsV = _get_last_cm(transmission_history[-1] - 1, nWiggleCM, bpm_ords, cm_ords[1])[0]  # Last CMs in vert
+        reached = [n_reached for n_reached in transmission_history if n_reached > 0]
+        if not reached:
+            raise RuntimeError('Wiggling failed (no BPM reading)')
+        tmpCMordsH = _get_last_cm(reached[-1] - 1, nWiggleCM, bpm_ords, cm_ords[0])[0]  # Last CMs in horz
+        tmpCMordsV = _get_last_cm(reached[-1] - 1, nWiggleCM, bpm_ords, cm_ords[1])[0]  # Last CMs in vert
 
         for i in range(dpts.shape[1]):
             SC.set_cm_setpoints(tmpCMordsH, dpts[0, i], skewness=False, method=SETTING_ADD)
-- 
2.43.0


From ee7aa94e439d97d51ada38384fd51602beb63b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 25/68] fix: RF phase correction finds the zero crossing for
 all measured points and handles insignificant measurements

---
 pySC/correction/rf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..cecb468 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -6,7 +6,7 @@ This module contains functions to correct RF phase and frequency.
 """
 import numpy as np
 import matplotlib.pyplot as plt
-from scipy.optimize import curve_fit, fsolve
+from scipy.optimize import curve_fit
 
 from pySC.core.beam import bpm_reading
 from pySC.core.constants import SPEED_OF_LIGHT
@@ -46,7 +46,8 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
 
     # Find zero crossing of fitted function
     sol = lambda x: _sin_fit_fun(x / lamb, param[0], param[1], param[2])
-    delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
+    zero_phase = np.arcsin(-param[2] / param[0])  # ... with rising slope
+    delta_phi = _fold_phase(lamb * ((zero_phase if param[0] > 0 else np.pi - zero_phase) - param[1]) / (2 * np.pi), lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
         delta_phi = 0.0
@@ -54,7 +55,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
     SC.set_cavity_setpoints(cav_ords, delta_phi, 'TimeLag', 'add')
-    LOGGER.info(f'Time lag correction step: {delta_phi[0]:.3f} m\n')
+    LOGGER.info(f'Time lag correction step: {delta_phi:.3f} m\n')
     if plot_results:
         _plot_results((test_vec, bpm_shift, bpm_shift_err), sol, delta_phi, x_scale=360 / lamb, phase=True)
     return SC
-- 
2.43.0


From 9510fcc3b435ff115cf4be0c23111b319dc119f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 26/68] fix: reported phase error is folded into one RF period

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index cecb468..8470049 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -100,7 +100,7 @@ def phase_and_energy_error(SC, cav_ords):
     """This is not a simple observable in reality."""
     lamb = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].Frequency
     orbit6 = at_wrapper.findorbit6(SC.RING)[0]
-    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, lamb) * 360
+    phase_error = _fold_phase(orbit6[5] - SC.INJ.Z0[5], lamb) / lamb * 360
     energy_error = SC.INJ.Z0[4] - orbit6[4]
     LOGGER.info(f'Static phase error {phase_error:.0f} deg')
     LOGGER.info(f'Energy error {1E2 * energy_error:.2f}%')
-- 
2.43.0


From caa40d37a77fba4b88086a13160d8ab0152052fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 27/68] fix: alignment measurement works for noise-free BPM
 readings

---
 pySC/correction/bba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..c1ebaa0 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -11,6 +11,7 @@ from pySC.correction import orbit_trajectory
 LOGGER = logging_tools.get_logger(__name__)
 CONFIDENCE_LEVEL_SIGMAS = 2.5
 OUTLIER_LIMIT = 1.5e-3
+POSITION_RESOLUTION = 1e-12
 
 
 def trajectory_bba(SC, bpm_ords, mag_ords, **kwargs):
@@ -142,6 +143,7 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
     x = np.mean(bpm_pos, axis=1)
     x_mask = ~np.isnan(x)
     err = np.mean(np.std(bpm_pos[x_mask, :], axis=1))
+    err = max(err, POSITION_RESOLUTION)  # noise-free readings would otherwise have infinite weight
     x = x[x_mask]
     new_tmp_tra = trajectories[x_mask, :, :]
 
-- 
2.43.0


From ad69abc0e6f9b65b6f496afd08742ec6012ac283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 28/68] fix: alignment measurement without usable data gives no
 result instead of an error

---
 pySC/correction/bba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index c1ebaa0..9cc52da 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -174,6 +174,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         center[j] = -p[1] / (par.fit_order * p[0])  # zero-crossing if linear, minimum is quadratic
         center_err[j] = np.sqrt(center[j] ** 2 * (pcov[0,0]/p[0]**2 + pcov[1,1]/p[1]**2 - 2 * pcov[0, 1] / p[0] / p[1]))
     mask = ~np.isnan(center)
+    if not np.any(mask):  # no usable measurement
+        return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
     if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
-- 
2.43.0


From 98896b98ca4e6141eb211519d8e6164b1552d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 29/68] fix: alignment results of unknown error are not
 significant

---
 pySC/correction/bba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 9cc52da..f7ec5f9 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -125,7 +125,7 @@ def apply_bpm_offsets(SC, bpm_ords, bba_offsets, bba_offset_errors):
      
 
 def is_bba_errored(bba_offsets, bba_offset_errors):
-    return np.logical_or(np.logical_or(np.isnan(bba_offsets), np.abs(bba_offsets) > OUTLIER_LIMIT),
+    return np.logical_or(np.logical_or(np.isnan(bba_offsets + bba_offset_errors), np.abs(bba_offsets) > OUTLIER_LIMIT),
                          np.abs(bba_offsets) < CONFIDENCE_LEVEL_SIGMAS * bba_offset_errors)
 
 
-- 
2.43.0


From 442dd8200093fd3d51daea7c1a7ae5e79a1c93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 30/68] fix: slope error of alignment measurement is the
 standard deviation, so that insignificant slopes are not used

---
 pySC/correction/bba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index f7ec5f9..99be846 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -159,7 +159,7 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
                 continue
             # TODO once the position errors are calculated and propagated, should be used
             p, pcov = np.polyfit(mag_vec[y_mask], y[y_mask], 1, w=np.ones(int(np.sum(y_mask))) / err, cov='unscaled')
-            tmp_slope[i, j], tmp_slope_err[i, j] = p[0], pcov[0, 0]
+            tmp_slope[i, j], tmp_slope_err[i, j] = p[0], np.sqrt(pcov[0, 0])
 
     for j in range(min(new_tmp_tra.shape[2], par.num_downstream_bpms)):
         y = tmp_slope[:, j]
-- 
2.43.0


From 1db35f263f8ec91a96dbc4fadcf32959faf08aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 31/68] fix: response matrix measurement works for single
 amplitude, two and more steps

---
 .../response_measurement.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..d764989 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and np.size(amp) != 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -29,24 +29,25 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
         cmstart = SC.get_cm_setpoints(cm_ords[n_dim], bool(n_dim))
         for nCM in range(len(cm_ords[n_dim])):
             max_step, gradient = _kick_amplitude(SC, bref, bpm_ords, cm_ords[n_dim][nCM], amp[n_dim][nCM], bool(n_dim), mode)
-            cm_step_vec = np.linspace(-max_step, max_step, n_steps)
-            if n_steps != 2:
+            if n_steps == 2:
+                cm_steps[n_dim][:, nCM] = max_step
+                rm[:, i] = gradient / max_step
+            else:
+                cm_step_vec = np.linspace(-max_step, max_step, n_steps)
                 real_cm_setpoint = cmstart[nCM] + cm_step_vec
-                gradient = np.vstack((np.zeros((n_steps - 1, len(bref))), gradient.T))
+                gradient = np.vstack((np.zeros((n_steps - 1, len(bref))), gradient))
                 for n_step in range(n_steps):
                     if cm_step_vec[n_step] != 0 and cm_step_vec[n_step] != max_step:
                         SC.set_cm_setpoints(cm_ords[n_dim][nCM], cmstart[nCM] + cm_step_vec[n_step], skewness=bool(n_dim))
-                        real_cm_setpoint[n_step] = SC.get_cm_setpoints(cm_ords[n_dim][nCM], skewness=bool(n_dim))
+                        real_cm_setpoint[n_step] = SC.get_cm_setpoints(cm_ords[n_dim][nCM], skewness=bool(n_dim))[0]
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
+                    if len(x) <= fit_order:
+                        continue
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
             i = i + 1
-- 
2.43.0


From 0b08b67511380e42e605cdb03608e268e0492683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 32/68] fix: response measurement with insufficient beam reach
 reduces the step instead of failing

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index d764989..ad4ff36 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -92,7 +92,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
     n_iter, decrease_factor = params[mode]
     for n in range(n_iter):
         SC, max_step, bpm_readings_ravel = _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness)
-        max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) / 2, np.sum(~np.isnan(bref)) / 2
+        max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) // 2, np.sum(~np.isnan(bref)) // 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
                 max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
-- 
2.43.0


From 69028c082ca0ebcd7d7288452b8e5dfa6f2ef9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 33/68] fix: response measurement uses the step which the
 corrector really made

---
 pySC/lattice_properties/response_measurement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index ad4ff36..2b65bc1 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -103,13 +103,14 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
             LOGGER.debug(
                 f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
-    return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
+    real_step = SC.get_cm_setpoints(cm_ord, skewness)[0] - cmstart[0]
+    return real_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
 
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
     SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
     real_cm_setpoint = SC.get_cm_setpoints(cm_ord, skewness)
-    if real_cm_setpoint != (cmstart + max_step):
+    if not np.isclose(real_cm_setpoint, cmstart + max_step, rtol=1e-9, atol=1e-15):
         LOGGER.debug('CM  clipped. Using different CM direction.')
         max_step *= -1
         SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
-- 
2.43.0


From 5d595970ce702f7caa9400c0298d528fffb4bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 34/68] fix: dispersion measurement with more than two steps

---
 pySC/lattice_properties/response_measurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 2b65bc1..a5c3e97 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -74,7 +74,8 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    df = np.linspace(-rf_step, rf_step, n_steps)
+    return np.dot(df, dB) / np.dot(df, df)
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From 1ff424c956462477c9860312687e565696ea7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 35/68] fix: LOCO response measurement restores the tracking
 mode

---
 pySC/correction/loco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..b966254 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -65,7 +65,8 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     n_bpms = len(bpm_ords)
     n_cms = len(cm_ords[0]) + len(cm_ords[1])
     response_matrix = np.full((2 * n_bpms * n_turns, n_cms), np.nan)
-    SC.INJ.trackMode = TRACK_ORB  # TODO may modify SC (not a pure function)!
+    initial_mode, initial_n_turns, initial_n_particles = SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles
+    SC.INJ.trackMode = TRACK_ORB
 
     closed_orbits0 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
     cnt = 0
@@ -76,6 +77,8 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
             SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
             response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
             cnt = cnt + 1
+    SC.INJ.trackMode = initial_mode
+    SC.INJ.nTurns, SC.INJ.nParticles = initial_n_turns, initial_n_particles
     return response_matrix
 
 
-- 
2.43.0


From f99c04dbc2b8fb10cccb467c0478dca989b99a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 36/68] fix: LOCO response measurement at corrector limits uses
 the real kick and restores the setpoint

---
 pySC/correction/loco.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index b966254..05b1e9f 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -72,10 +72,15 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     cnt = 0
     for n_dim in range(2):
         for cm_ord in cm_ords[n_dim]:
+            initial_kick = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            real_dkick = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - initial_kick
+            if np.abs(real_dkick) < 0.5 * np.abs(dkick):  # clipped, using the other direction
+                SC.set_cm_setpoints(cm_ord, initial_kick - dkick, skewness=bool(n_dim))
+                real_dkick = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - initial_kick
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
-            SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
-            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
+            SC.set_cm_setpoints(cm_ord, initial_kick, skewness=bool(n_dim))
+            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / real_dkick)
             cnt = cnt + 1
     SC.INJ.trackMode = initial_mode
     SC.INJ.nTurns, SC.INJ.nParticles = initial_n_turns, initial_n_particles
-- 
2.43.0


From 844c1f82dd0f310fe0cf8b0d4e94dde0afbad86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 37/68] fix: Gauss-Newton lattice fit uses the Jacobian of the
 selected parameters

---
 pySC/correction/loco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 05b1e9f..1de466b 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -102,10 +102,11 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     mask = _get_parameters_mask(including_fit_parameters, lengths)
     residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], weights)
     r = residuals.reshape(np.transpose(orm_model).shape)
+    masked_jacobian = J[mask, :, :]
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
-    return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
+        t2[i] = np.sum(np.dot(np.dot(masked_jacobian[i].T, weights), r.T))
+    return get_inverse(masked_jacobian, t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
 def objective(masked_params, orm_residuals, masked_jacobian, weights):
-- 
2.43.0


From cb27b04fb58ad6fc7801c8b57d9abe24bde05c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 38/68] fix: Gauss-Newton lattice fit applies the weights once

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 1de466b..a601d98 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -100,7 +100,7 @@ def loco_correction_lm(initial_guess0, orm_model, orm_measured, Jn, lengths, inc
 def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, including_fit_parameters, s_cut, weights=1, LM_lambda=0):
     initial_guess = initial_guess0.copy()
     mask = _get_parameters_mask(including_fit_parameters, lengths)
-    residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], weights)
+    residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], 1)  # weighted below
     r = residuals.reshape(np.transpose(orm_model).shape)
     masked_jacobian = J[mask, :, :]
     t2 = np.zeros([len(initial_guess[mask]), 1])
-- 
2.43.0


From f86e4fb6b50193c3081df59557c2ab0c477642bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 39/68] fix: injection trajectory fit minimises the deviation
 of every reading and not of their mean

---
 pySC/correction/injection_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..bf97557 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -69,7 +69,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From de8e0954f4557d009e92ed831746ccb9a0331273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 40/68] fix: injection trajectory fit with lost beam fails
 instead of reporting no correction

---
 pySC/correction/injection_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index bf97557..c77d678 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -38,6 +38,8 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     # uses SC.INJ.nShots
     s_pos = at_wrapper.findspos(SC.RING)
     bref = bpm_reading(SC)[0][:, bpm_inds]
+    if np.sum(np.isnan(bref)):
+        raise RuntimeError("Failed ")
     delta_z0 = np.zeros(6)
     delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]))
     if np.sum(np.isnan(delta_z0)):
-- 
2.43.0


From cc11fa5f5fbb7de44b2f1e670ff11409c4490a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 41/68] fix: chromaticity fit does not truncate sextupole
 setpoints to integers

---
 pySC/correction/chroma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..ed05118 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,7 +39,7 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
-- 
2.43.0


From e5b2e19bd093bb89c0b0694220635c4cf441e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 42/68] fix: chromaticity fit applies the solution and not the
 last trial

---
 pySC/correction/chroma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index ed05118..99f7d99 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -45,7 +45,7 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    _fit_chroma_fun(SC, s_ords, sol, SP0, target_chroma)  # applies the solution
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From 5c4f2b73d35625f37e2ad88d1248b49fa8a5289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 43/68] fix: tune scan restores the initial quadrupole
 setpoints after each point

---
 pySC/correction/tune.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..053952c 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -52,12 +52,13 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
+    initial_setpoints = np.array([SC.RING[ord].SetPointB[1] for ord in ords])
     for q1, q2 in inds.T:
         q_setpoints = np.hstack((np.ones(nq[0]) * rel_quad_changes[0][q1], np.ones(nq[1]) * rel_quad_changes[1][q2]))
         SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
         max_turns[q1, q2], surviving_fraction = beam_transmission(SC, nParticles=nParticles, nTurns=nTurns)
         transmission[q1, q2, :] = 1 * surviving_fraction
-        SC.set_magnet_setpoints(ords, 1 / q_setpoints, False, 1, method='rel')
+        SC.set_magnet_setpoints(ords, initial_setpoints, False, 1, method='abs')
 
         if do_plot:
             f, ax = plot_scan(transmission[:, :, -1], max_turns, first_quads, rel_quad_changes)
-- 
2.43.0


From 946573ee098220da17cc60fc9b43474a87267c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 44/68] fix: tune scan over even numbers of setpoints

---
 pySC/correction/tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 053952c..2d2ba0f 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -50,6 +50,7 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     max_turns = np.full((nqsp[0], nqsp[1]), np.nan)
     transmission = np.full((nqsp[0], nqsp[1], nTurns), np.nan)
     inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
+    inds = np.minimum(inds, nqsp[:, np.newaxis] - 1)  # even numbers of setpoints
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
     initial_setpoints = np.array([SC.RING[ord].SetPointB[1] for ord in ords])
-- 
2.43.0


From 3d9d47b396dc9fe5ed6ec32d60e4cef1e3f2c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 45/68] fix: injection trajectory fit converges below the size
 of the fitted positions and angles

---
 pySC/correction/injection_fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index c77d678..b883eaf 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -7,6 +7,7 @@ from pySC.core.simulated_commissioning import SimulatedCommissioning
 from pySC.utils import at_wrapper, logging_tools
 
 LOGGER = logging_tools.get_logger(__name__)
+FIT_TOLERANCE = 1e-9  # well below the size of the fitted positions and angles
 PLANE_STR = ('Hor.', 'Ver.')
 
 
@@ -41,7 +42,8 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     if np.sum(np.isnan(bref)):
         raise RuntimeError("Failed ")
     delta_z0 = np.zeros(6)
-    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]))
+    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]),
+                             xtol=FIT_TOLERANCE, ftol=FIT_TOLERANCE, maxiter=5000, maxfun=5000)
     if np.sum(np.isnan(delta_z0)):
         raise RuntimeError("Failed ")
     _log_initial_final_states(SC, delta_z0)
-- 
2.43.0


From 7b377a8c75f3fd36af3e2e396dad1ea6b9f73f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 46/68] fix: dispersion part of the LOCO Jacobian uses the same
 model lattice and step as the response part

---
 pySC/correction/loco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index a601d98..aed85d0 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -50,11 +50,11 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 8b2b261ff011d648cac8eb59146124dd6a484369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 47/68] fix: response measurement at fixed offset ignores BPMs
 without reading instead of setting NaN

---
 pySC/lattice_properties/response_measurement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index a5c3e97..370c35d 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -96,7 +96,9 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) // 2, np.sum(~np.isnan(bref)) // 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
-                max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
+                offsets = np.abs(bpm_readings_ravel - bref)
+                if np.any(offsets > 0):
+                    max_step = max_step * amp / np.nanmax(offsets)
             else:
                 break
         else:
-- 
2.43.0


From 59b83e60fbfb41bc1541bf066714007a1077e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 48/68] fix: apertures of the model lattice are not shared with
 the machine

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 103dd9d..e506683 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -166,9 +166,9 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
             if hasattr(SC.RING[ord], 'EApertures'):
-                ring[ord].EApertures = SC.RING[ord].EApertures
+                ring[ord].EApertures = SC.RING[ord].EApertures.copy()
             if hasattr(SC.RING[ord], 'RApertures'):
-                ring[ord].RApertures = SC.RING[ord].RApertures
+                ring[ord].RApertures = SC.RING[ord].RApertures.copy()
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
-- 
2.43.0


From 75aeff41aefc330001d3e807db451a323a01f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 49/68] fix: model lattice of machines with unregistered
 cavities

---
 pySC/lattice_properties/response_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index e506683..f0ded75 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -169,7 +169,7 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
                 ring[ord].EApertures = SC.RING[ord].EApertures.copy()
             if hasattr(SC.RING[ord], 'RApertures'):
                 ring[ord].RApertures = SC.RING[ord].RApertures.copy()
-        if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
+        if hasattr(SC.RING[ord], 'FrequencySetPoint'):
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
     return ring
-- 
2.43.0


From 11d11826ba66629c7020f2163fa4c0d2a150c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 50/68] fix: SCsynchEnergyCorrection does not pass an unknown
 argument to the frequency correction

---
 pySC/matlab_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 082f0c9..a51800b 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,7 +316,7 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, minTurns=minTurns,
+    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
     SC.INJ.nTurns = init_nturns
     return SC
-- 
2.43.0


From 71652cb683e9ff212b052c457a86e4ec251dc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 51/68] fix: failing RF corrections of the Matlab interface
 restore the number of turns

---
 pySC/matlab_index.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index a51800b..ac77aab 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,9 +316,11 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
-                           plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
+    try:
+        SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
+                                  plot_results=plotResults, plot_progress=plotProgress)
+    finally:
+        SC.INJ.nTurns = init_nturns
     return SC
 
 
@@ -326,8 +328,10 @@ def SCsynchPhaseCorrection(SC, /, *, cavOrd=None, nSteps=15, nTurns=20, plotResu
                            verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
+    try:
+        SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress)
+    finally:
+        SC.INJ.nTurns = init_nturns
     return SC
 
 
-- 
2.43.0


From 5dadfaf82fafd6982e842d82b65c4e9ea17886d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 52/68] fix: BBA plots restore the font size

---
 pySC/correction/bba.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 99be846..eeec76e 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -186,6 +186,7 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
 def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
     to_um = 1E6
     errors = is_bba_errored(bba_offsets, bba_offset_errors)
+    init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 10})
     f, ax = plt.subplots(nrows=2, num=90, figsize=(8, 8), facecolor="w")
     plabels = ("Horizontal", "Vertical")
@@ -201,9 +202,11 @@ def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
         ax[n_dim].set_xlim([0, len(SC.ORD.BPM)])
         ax[n_dim].legend()
     f.show()
+    plt.rcParams.update({'font.size': init_font})
 
 
 def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
+    init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 10})
     fom = _get_bpm_offset_from_mag(SC.RING, bpm_ords, mag_ords)
     n_steps = 1 if bpm_ords.shape[1] == 1 else 1.1 * np.max(np.abs(fom)) * np.linspace(-1, 1, int(np.floor(bpm_ords.shape[1] / 3)))
@@ -236,6 +239,7 @@ def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
         ax[n_dim + 1].legend()
     f.tight_layout()
     f.show()
+    plt.rcParams.update({'font.size': init_font})
 
 
     
-- 
2.43.0


From 2fd0e6b4e888d9c3f6990ff6eb968323ef98d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 53/68] fix: rejected phase space plots leave the font size
 alone

---
 pySC/plotting/plot_phase_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_phase_space.py b/pySC/plotting/plot_phase_space.py
index cf7333a..cdb2475 100644
--- a/pySC/plotting/plot_phase_space.py
+++ b/pySC/plotting/plot_phase_space.py
@@ -7,9 +7,9 @@ from pySC.core.beam import generate_bunches
 
 
 def plot_phase_space(SC, ords=np.zeros(1, dtype=int), custom_bunch=None, nParticles=None, nTurns=None, plotCO=False):
+    z_in, n_particles, n_turns = _check_input(SC, custom_bunch, nParticles, nTurns)
     init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 18})
-    z_in, n_particles, n_turns = _check_input(SC, custom_bunch, nParticles, nTurns)
     T = at_wrapper.lattice_track(SC.RING, z_in, n_turns, ords, keep_lattice=False)
     T[:, np.isnan(T[0, :])] = np.nan
     label_str = [r'$\Delta x$ [$\mu$m]', r"$\Delta x'$ [$\mu$rad]", r'$\Delta y$ [$\mu$m]', r"$\Delta y'$ [$\mu$rad]",
-- 
2.43.0


From 075668c3f71d4ff6ab018ef76a831ad834ced304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 54/68] fix: support plot of a part of the ring

---
 pySC/plotting/plot_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/plotting/plot_support.py b/pySC/plotting/plot_support.py
index 526e872..6b7b1be 100644
--- a/pySC/plotting/plot_support.py
+++ b/pySC/plotting/plot_support.py
@@ -84,7 +84,7 @@ def plot_support(SC: SimulatedCommissioning, font_size: int = 8, x_lim: Tuple[fl
         ax[3*n_dim, 1].plot(s_mag, 1e6 * roll_mag_support[:, n_dim], 'D', color=blu, label='Overall supports')
         # plot individual support and roll contributions
         for sup_type in SUPPORT_TYPES:
-            for i, val in enumerate(SC.ORD[sup_type].T):  # loop supports
+            for i, val in enumerate(supdict[sup_type]['Ords']):  # loop supports in range
                 ax[3*n_dim, 0] = _plot_support(ax[3 * n_dim, 0], s_pos[val],
                                                [1e6 * supdict[sup_type]['Off']['a'][i][n_dim],
                                                 1e6 * supdict[sup_type]['Off']['b'][i][n_dim]],
-- 
2.43.0


From a061395bc26c383bf259c9b48fe1d154ccf512a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 55/68] fix: SCplotLattice and SCplotPhaseSpace work with their
 default arguments

---
 pySC/matlab_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index ac77aab..5e4d58d 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -212,13 +212,13 @@ def SCplotCMstrengths(SC: SimulatedCommissioning):
     plot_cm_strengths(SC)
 
 
-def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=[], plotIdealRing=1, sRange=[], plotMagNames=0,
+def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=None, plotIdealRing=1, sRange=None, plotMagNames=0,
                   fontSize=16):
     return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors, indices=oList,
                         ideal_ring=bool(plotIdealRing), s_range=sRange, plot_magnet_names=bool(plotMagNames), font_size=fontSize)
 
 
-def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1), customBunch=[], nParticles=None, nTurns=None, plotCO=False):
+def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1, dtype=int), customBunch=None, nParticles=None, nTurns=None, plotCO=False):
     plot_phase_space(SC, ords=ord, custom_bunch=customBunch, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)
 
 
-- 
2.43.0


From c0168783da1178de28da385b9edf34010cdbd4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 56/68] fix: debug mode restores the own level of the logger
 and closes its log file

---
 pySC/utils/logging_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/utils/logging_tools.py b/pySC/utils/logging_tools.py
index ddee5c5..069d897 100644
--- a/pySC/utils/logging_tools.py
+++ b/pySC/utils/logging_tools.py
@@ -48,7 +48,7 @@ class DebugMode(object):
             self.logger = logging.getLogger(".".join([current_module, os.path.basename(caller_file)]))
 
             # set level to debug
-            self.current_level = self.logger.getEffectiveLevel()
+            self.current_level = self.logger.level
             self.logger.setLevel(DEBUG)
             self.logger.debug("Running in Debug-Mode.")
 
@@ -85,6 +85,7 @@ class DebugMode(object):
             self.logger.setLevel(self.current_level)
             self.mod_logger.removeHandler(self.file_h)
             self.mod_logger.removeHandler(self.console_h)
+            self.file_h.close()
 
 # Public Methods ###############################################################
 
-- 
2.43.0


From 792fcffbd7f8449c4c3399cd65d50fac676e82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 57/68] fix: plot of the injection trajectory fit shows the
 reading with the correction applied once

---
 pySC/correction/injection_fit.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index b883eaf..5d07de8 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -50,9 +50,7 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     SC.INJ.Z0 += delta_z0
     if plot:
         fig, ax = plt.subplots(nrows=2, num=342, sharex="all")
-        SC.INJ.Z0 += delta_z0
         bnew = bpm_reading(SC)[0][:, bpm_inds]
-        SC.INJ.Z0 -= delta_z0
         s_bpm = s_pos[SC.ORD.BPM[bpm_inds]]
         for n_dim in range(2):
             ax[n_dim].plot(s_bpm, 1E3 * bref[n_dim, :], 'ro--', label="Initial")
-- 
2.43.0


From 59931c5d9a5b178964938a0e9b6e16eec20ce283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 58/68] fix: LOCO Gauss-Newton step uses the full Jacobian, not
 its sums over correctors

---
 pySC/correction/loco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index aed85d0..68d50e3 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -105,7 +105,7 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     masked_jacobian = J[mask, :, :]
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(masked_jacobian[i].T, weights), r.T))
+        t2[i] = np.sum(np.dot(masked_jacobian[i].T, weights) * r)
     return get_inverse(masked_jacobian, t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
@@ -186,8 +186,8 @@ def get_inverse(jacobian, B, s_cut, weights, LM_lambda=0, plot=False):
         Array of correction values of the same size as B.
     """
     n_resp_mats = len(jacobian)
-    Jt = np.sum(jacobian, axis=2)          # Sum over i and j for all planes
-    Jt_dot_J = np.dot(np.dot(Jt, weights), Jt.T)
+    Jt_dot_weights = np.dot(np.transpose(jacobian, (0, 2, 1)), weights)
+    Jt_dot_J = np.tensordot(Jt_dot_weights, jacobian, axes=((2, 1), (1, 2)))  # Sum over i and j for all planes
     matrix = Jt_dot_J + LM_lambda * np.diag(np.diag(Jt_dot_J))
     inv_matrix = sc_tools.pinv(matrix, num_removed=n_resp_mats - min(n_resp_mats, s_cut), plot=plot)
     results = np.ravel(np.dot(inv_matrix, B))
-- 
2.43.0


From 287ae1ec753e4a582bbe60698ff049460c9d8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 59/68] fix: debug message of the LOCO Jacobian is a valid
 logging record

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 68d50e3..b6cac19 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -41,7 +41,7 @@ def calculate_jacobian(SC, C_model, dkick, used_cor_ind, bpm_indexes, quads_ind,
 def generating_quads_response_matrices(args):
     (quad_index, SC, C_model, correctors_kick, used_cor_indexes, used_bpm_indexes, dk, trackMode, useIdealRing,
      skewness, order, method, includeDispersion, rf_step, cav_ords) = args
-    LOGGER.debug('generating response to quad of index', quad_index)
+    LOGGER.debug(f'generating response to quad of index {quad_index}')
     if not includeDispersion:
         SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
         C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick,
-- 
2.43.0


From 62a3580991704c13dcbe3584d45da0038b542fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 60/68] fix: tune fit runs and applies its solution to the
 quadrupole families

---
 pySC/correction/tune.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 2d2ba0f..9dce841 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -11,7 +11,6 @@ from scipy.optimize import fmin
 
 from pySC.core.beam import beam_transmission, plot_transmission
 from pySC.utils import logging_tools
-from pySC.utils.at_wrapper import atlinopt
 
 LOGGER = logging_tools.get_logger(__name__)
 
@@ -136,27 +135,21 @@ def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=Tru
     if target_tune is None:
         target_tune = tune(SC, fit_integer, ideal=True)
     LOGGER.debug(f'Fitting tunes from [{tune(SC, fit_integer)}] to [{target_tune}].')
-    SP0 = np.zeros((len(q_ords), len(q_ords[0])))  # TODO can the lengts vary
-    for nFam in range(len(q_ords)):
-        for n in range(len(q_ords[nFam])):
-            SP0[nFam][n] = SC.RING[q_ords[nFam][n]].SetPointB[1]
+    SP0 = [np.array([SC.RING[ord].SetPointB[1] for ord in fam_ords]) for fam_ords in q_ords]
     fun = lambda x: _fit_tune_fun(SC, q_ords, x, SP0, target_tune, fit_integer)
-    sol = fmin(fun, xtol=xtol, ftol=ftol)
-    SC.set_magnet_setpoints(q_ords, sol + SP0, False, 1, method='abs', dipole_compensation=True)
+    sol = fmin(fun, np.zeros(len(q_ords)), xtol=xtol, ftol=ftol)
+    _fit_tune_fun(SC, q_ords, sol, SP0, target_tune, fit_integer)  # applies the solution
     LOGGER.debug(f'       Final tune: [{tune(SC, fit_integer)}]\n  Setpoints change: [{sol}]')
     return SC
 
 
 def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
-    SC.set_magnet_setpoints(q_ords, setpoints + init_setpoints, False, 1, method='abs', dipole_compensation=True)
+    for n in range(len(q_ords)):
+        SC.set_magnet_setpoints(q_ords[n], setpoints[n] + init_setpoints[n], False, 1, method='abs', dipole_compensation=True)
     nu = tune(SC, fit_integer)
     return np.sqrt(np.mean((nu - target) ** 2))
 
 
 def tune(SC, fit_integer: bool = False, ideal: bool = False):
     ring = SC.IDEALRING if ideal else SC.RING
-    if fit_integer:
-        ld, _, _ = atlinopt(ring, 0, range(len(ring) + 1))
-        return ld[-1].mu / 2 / np.pi
-    _, nu, _ = atlinopt(ring, 0)
-    return nu
+    return ring.get_tune(get_integer=fit_integer)[0:2]
-- 
2.43.0


From 0d2bbcf73f7678ec74c96ffe0186ea9edaf7b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 61/68] fix: closed orbit in magnets is calculated from
 horizontal and vertical positions

---
 pySC/lattice_properties/magnet_orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/magnet_orbit.py b/pySC/lattice_properties/magnet_orbit.py
index 75423f0..185601e 100644
--- a/pySC/lattice_properties/magnet_orbit.py
+++ b/pySC/lattice_properties/magnet_orbit.py
@@ -8,15 +8,15 @@ LOGGER = logging_tools.get_logger(__name__)
 def SCgetCOD(SC, ords=None, plot=False):
     if ords is None:
         ords = SC.ORD.Magnet
-    T = at_wrapper.findorbit6(SC.RING, ords)
-    if any(np.isnan(T)):
+    T = at_wrapper.findorbit6(SC.RING, ords)[1].T
+    if np.any(np.isnan(T)):
         LOGGER.error('Closed orbit could not be found.')
-        COD = np.nan(2, len(ords))
+        COD = np.full((2, len(ords)), np.nan)
         return COD
     magOffset = np.zeros((2, len(ords)))
     for i, ord in enumerate(ords):
-        magOffset[:, i] = SC.RING[ord].T2([1, 3])
-    COD = T[[1, 3], :] - magOffset
+        magOffset[:, i] = SC.RING[ord].T2[[0, 2]]
+    COD = T[[0, 2], :] - magOffset
     if plot:
         sPos = at_wrapper.findspos(SC.RING)[ords]
         ylabelStr = ['$\Delta x$ [mm]', '$\Delta y$ [mm]']
@@ -30,7 +30,7 @@ def SCgetCOD(SC, ords=None, plot=False):
             plt.legend(['COD in magnets', 'Magnet offset', 'Orbit'])
             plt.xlabel('s [m]')
             plt.ylabel(ylabelStr[nDim])
-            plt.gca().set_box(True)
+            plt.box(True)
             plt.gca().set_xlim([min(sPos), max(sPos)])
         plt.gcf().set_size_inches(8, 12)
         plt.gcf().set_dpi(100)
-- 
2.43.0


From b248cb1d08082fa53496e437ae6673f840104ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 62/68] fix: error ramp runs, from full copies of the errors to
 be reached

---
 pySC/correction/ramp_errors.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pySC/correction/ramp_errors.py b/pySC/correction/ramp_errors.py
index 27ba066..8bac6fe 100644
--- a/pySC/correction/ramp_errors.py
+++ b/pySC/correction/ramp_errors.py
@@ -12,7 +12,7 @@ def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30)
     errFieldsSup = ['Roll', 'Offset']
     errFieldsBPM = ['Noise', 'NoiseCO', 'Offset', 'SupportOffset', 'Roll', 'SupportRoll', 'CalError']
     errFieldsRF = ['Offset', 'CalError']
-    SC0 = SC
+    SC0 = SC.very_deep_copy()
     M = SCgetModelRM(SC, SC.ORD.BPM, SC.ORD.CM, nTurns=SC.INJ.nTurns, trackMode=SC.INJ.trackMode)
     for scale in np.linspace(1 / nStepsRamp, 1, nStepsRamp):
         LOGGER.debug(f'Ramping up errors with scaling factor {scale:.2f}.')
@@ -30,8 +30,8 @@ def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30)
                                 f'Try different feedback parameters.')
             else:
                 LOGGER.info(f'Feedback did not succeed at scaling {scale:.2f}. Trying with {2 * nStepsRamp} ramping steps.')
-                SC = SCrampUpErrors(SC0, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha,
-                                    maxsteps=maxsteps)
+                return SCrampUpErrors(SC0, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha,
+                                      maxsteps=maxsteps)
 
     return SC
 
@@ -39,29 +39,29 @@ def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30)
 def scaleSupport(SC, SC0, fields, scale):
     for type in SUPPORT_TYPES:
         if type in SC.ORD:
-            for ordPair in SC.ORD[type]:
+            for ordPair in SC.ORD[type].T:
                 for field in fields:
                     for se in range(2):
-                        if field in SC.RING[ordPair[se]][type]:
-                            SC.RING[ordPair[se]][type][field] = scale * SC0.RING[ordPair[se]][type][field]
+                        if hasattr(SC0.RING[ordPair[se]], type + field):
+                            setattr(SC.RING[ordPair[se]], type + field, scale * getattr(SC0.RING[ordPair[se]], type + field))
     return SC
 
 
 def scaleMagnets(SC, SC0, fields, scale):
     for ord in SC.ORD.Magnet:
         for field in fields:
-            if field in SC.RING[ord]:
-                SC.RING[ord][field] = scale * SC0.RING[ord][field]
-    SC = SC.update_supports()
-    SC = SC.update_magnets()
+            if hasattr(SC0.RING[ord], field):
+                setattr(SC.RING[ord], field, scale * getattr(SC0.RING[ord], field))
+    SC.update_supports()
+    SC.update_magnets()
     return SC
 
 
 def scaleBPMs(SC, SC0, fields, scale):
     for ord in SC.ORD.BPM:
         for field in fields:
-            if field in SC.RING[ord]:
-                SC.RING[ord][field] = scale * SC0.RING[ord][field]
+            if hasattr(SC0.RING[ord], field):
+                setattr(SC.RING[ord], field, scale * getattr(SC0.RING[ord], field))
     return SC
 
 
@@ -69,7 +69,8 @@ def scaleRF(SC, SC0, fields, scale):
     for type in RF_PROPERTIES:
         for field in fields:
             for ord in SC.ORD.RF:
-                SC.RING[ord][type + field] = scale * SC0.RING[ord][type + field]
+                setattr(SC.RING[ord], type + field, scale * getattr(SC0.RING[ord], type + field))
+    SC.update_cavities()
     return SC
 
 
-- 
2.43.0


From 9f2d5e83a6cbdf7ed0ebeaca7c5cc9fd435fa44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 63/68] fix: dynamic aperture search tracks the two bounds and
 reads the last turn

---
 pySC/lattice_properties/apertures.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index 7aaf94a..b05dd83 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -15,12 +15,12 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
     ZCO = np.zeros(6)
     if launchOnOrbit:
         if useOrbit6:
-            ZCO = at_wrapper.findorbit6(RING)
+            ZCO = at_wrapper.findorbit6(RING)[0]
         else:
-            tmp = at_wrapper.findorbit4(RING, 0)
+            tmp = at_wrapper.findorbit4(RING, 0)[0]
             if ~np.isnan(tmp[0]):
-                ZCO[0:4] = tmp
-    ZCO[5] = ZCO[5] + dE
+                ZCO[0:4] = tmp[0:4]
+    ZCO[4] = ZCO[4] + dE
     RMAXs = np.full(len(thetas), np.nan)  # Initialize output array
     DA = np.nan
     for cntt in range(len(thetas)):  # Loop over angles
@@ -48,9 +48,9 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
     DA = np.sum(np.sin(dthetas) * r0 * r1 / 2.)
     if centerOnOrbit:
         if useOrbit6:
-            tmp = at_wrapper.findorbit6(RING)
+            tmp = at_wrapper.findorbit6(RING)[0]
         else:
-            tmp = at_wrapper.findorbit4(RING, 0)
+            tmp = at_wrapper.findorbit4(RING, 0)[0]
         if not np.isnan(tmp[0]):
             x, y = pol2cart(RMAXs, thetas)
             x = x - tmp[0]
@@ -96,14 +96,14 @@ def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, step
 
 
 def _check_bounds(RING, ZCO, nturns, theta, boundsIn):
-    Zmin = ZCO[:]
+    Zmin = ZCO.copy()
     Zmin[0] = boundsIn[0] * np.cos(theta)
     Zmin[2] = boundsIn[0] * np.sin(theta)
-    Zmax = ZCO[:]
+    Zmax = ZCO.copy()
     Zmax[0] = boundsIn[1] * np.cos(theta)
     Zmax[2] = boundsIn[1] * np.sin(theta)
-    ROUT = at_wrapper.lattice_track(RING, [Zmin, Zmax], nturns, len(RING), keep_lattice=True)  # Track
-    RLAST = ROUT[:, len(ROUT) - 1:len(ROUT)]  # Get positions after last turn
+    ROUT = at_wrapper.lattice_track(RING, np.column_stack((Zmin, Zmax)), nturns, len(RING), keep_lattice=True)  # Track
+    RLAST = ROUT[:, :, 0, -1]  # Get positions after last turn
     return ~np.isnan(RLAST[0, 0]) and np.isnan(RLAST[0, 1])
 
 
@@ -111,11 +111,11 @@ def _refine_bounds(RING, ZCO, nturns, theta, boundsIn):
     rmin = boundsIn[0]
     rmax = boundsIn[1]
     rmid = np.mean(boundsIn)
-    Z = ZCO[:]
+    Z = ZCO.copy()
     Z[0] = rmid * np.cos(theta)
     Z[2] = rmid * np.sin(theta)
     ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING), keep_lattice=True)  # Track
-    RLAST = ROUT[:, len(ROUT) - 1]  # Get positions after last turn
+    RLAST = ROUT[:, 0, 0, -1]  # Get positions after last turn
     return [rmin, rmid] if np.isnan(RLAST[0]) else [rmid, rmax]  # Midpoint is outside or inside DA
 
 
-- 
2.43.0


From 870e1ff4f21de5ce8463d3a2b2baeaa09bdb04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 64/68] fix: momentum aperture search starts at the requested
 element and reads the last turn

---
 pySC/lattice_properties/apertures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index b05dd83..03767fd 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -63,15 +63,15 @@ def SCdynamicAperture(RING, dE, bounds=np.array([0, 1e-3]), nturns=1000, thetas=
 def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, stepsize=1e-3, plot=0):
     dboundHI = np.zeros(len(REFPTS))
     dboundLO = np.zeros(len(REFPTS))
-    ZCOs = at_wrapper.findorbit6(RING, REFPTS)
+    ZCOs = at_wrapper.findorbit6(RING, REFPTS)[1].T
     if any(~np.isfinite(ZCOs.flatten())):
         dbounds = np.array([dboundHI, dboundLO]).T
         LOGGER.info('Closed Orbit could not be determined during MA evaluation. MA set to zero.')
         return dbounds
     for i in range(len(REFPTS)):
         ord = REFPTS[i]
-        local_bounds = inibounds
-        SHIFTRING = RING.rotate(-ord)  # TODO +/-
+        local_bounds = np.array(inibounds, dtype=float)
+        SHIFTRING = RING.rotate(ord)
         ZCO = ZCOs[:, i]
         while not check_bounds(local_bounds, SHIFTRING, ZCO, nturns):
             local_bounds = increment_bounds(local_bounds, stepsize)
@@ -144,9 +144,9 @@ def pol2cart(rho, phi):
 
 def refine_bounds(local_bounds, RING, ZCO, nturns):
     dmean = np.mean(local_bounds)
-    Z0 = ZCO
+    Z0 = ZCO.copy()
     Z0[4] = Z0[4] + dmean
-    ROUT = at_wrapper.lattice_track(RING, Z0, nturns, len(RING))
+    ROUT = at_wrapper.lattice_track(RING, Z0, nturns, len(RING))[:, 0, 0, -1]
     if np.isnan(ROUT[0]):  # Particle dead :(
         local_bounds[1] = dmean  # Set abs-upper bound to midpoint
     else:  # Particle alive :)
@@ -155,9 +155,9 @@ def refine_bounds(local_bounds, RING, ZCO, nturns):
 
 
 def check_bounds(local_bounds, RING, ZCO, nturns):
-    Z = np.array([ZCO, ZCO])
+    Z = np.column_stack((ZCO, ZCO))
     Z[4, :] = Z[4, :] + local_bounds[:]
-    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING))
+    ROUT = at_wrapper.lattice_track(RING, Z, nturns, len(RING))[:, :, 0, -1]
     if np.isnan(ROUT[0, 0]) and not np.isnan(ROUT[0, 1]):
         LOGGER.warning('Closer-to-momentum particle is unstable. This shouldnt be!')
     return not np.isnan(ROUT[0, 0]) and np.isnan(ROUT[0, 1])
-- 
2.43.0


From cc81821582e229ec2a73e63ccbb144b48fc9790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 65/68] fix: multipole tables without unique nominal order can
 be read

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index 50586e7..08270d6 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -160,7 +160,7 @@ def read_multipoles(fname):  # TODO sample of the input anywhere?
     idx = np.where(AB == 1)
     if len(idx[0]) != 1:
         LOGGER.warning('Nominal order could not be (uniquely) determined. Continuing with idx=1.')
-        idx = 1
+        idx = [0], [0]
     order, type = idx[0][0], idx[1][0]
     if type > 2:
         LOGGER.error('Ill-defined magnet type.')
-- 
2.43.0


From 2f371f85d5031a49eb46b9121304468f878a5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 66/68] fix: tune scan maps have the first family on the
 labelled axis

---
 pySC/correction/tune.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 9dce841..856e2a6 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -113,15 +113,15 @@ def plot_scan(fin_trans, max_turns, first_quads, rel_quad_changes):
     ax3 = f.add_subplot(gs[1, :])
     ticks = np.array([[0, rel_quad_changes[0].shape[0] // 2, rel_quad_changes[0].shape[0] - 1],
                      [0, rel_quad_changes[1].shape[0] // 2, rel_quad_changes[1].shape[0] - 1]])
-    im = ax1.imshow(100 * fin_trans, vmin=0, vmax=100)
+    im = ax1.imshow(100 * fin_trans.T, vmin=0, vmax=100)
     c1 = plt.colorbar(im, ax=ax1, orientation='vertical', label='Beam transmission [%]', shrink=0.6)
-    im2 = ax2.imshow(max_turns, vmin=0)
+    im2 = ax2.imshow(max_turns.T, vmin=0)
     c2 = plt.colorbar(im2, ax=ax2, orientation='vertical', label='Number of turns', shrink=0.6)
     for ax in (ax1, ax2):
         ax.set_xlabel(rf'$\Delta${first_quads[0]} [relative]')
         ax.set_ylabel(rf'$\Delta${first_quads[1]} [relative]')
         ax.set_xticks(ticks[0], np.round(rel_quad_changes[0][ticks[0, :]]-1, 5))
-        ax.set_yticks(ticks[0], np.round(rel_quad_changes[1][ticks[1, :]]-1, 5))
+        ax.set_yticks(ticks[1], np.round(rel_quad_changes[1][ticks[1, :]]-1, 5))
         for item in ([ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()):
             item.set_fontsize(18)
     for cx in (c1, c2):
-- 
2.43.0


From 8ce9ab2f1f2e2ec86f514f32db3e1cfdb8653ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 67/68] fix: alignment plots show results at the BPMs they
 belong to

---
 pySC/correction/bba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index eeec76e..3f04155 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -191,7 +191,7 @@ def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
     f, ax = plt.subplots(nrows=2, num=90, figsize=(8, 8), facecolor="w")
     plabels = ("Horizontal", "Vertical")
     for n_dim in range(bpm_ords.shape[0]):
-        x = np.where(np.in1d(SC.ORD.BPM, bpm_ords[n_dim, :]))[0]
+        x = np.array([np.where(SC.ORD.BPM == bpm_ord)[0][0] for bpm_ord in bpm_ords[n_dim, :]])
         mask = errors[n_dim, :]
         ax[n_dim].errorbar(x[~mask], to_um * bba_offsets[n_dim, ~mask], yerr=to_um * bba_offset_errors[n_dim, ~mask], fmt="bo",
                            label=plabels[n_dim])
@@ -226,7 +226,7 @@ def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
 
     plabels = ("Horizontal", "Vertical")
     for n_dim in range(bpm_ords.shape[0]):
-        x = np.where(np.in1d(SC.ORD.BPM, bpm_ords[n_dim, :]))[0]
+        x = np.array([np.where(SC.ORD.BPM == bpm_ord)[0][0] for bpm_ord in bpm_ords[n_dim, :]])
         mask = ~error_flags[n_dim, :]
         if not np.all(np.isnan(fom[n_dim, mask])):
             ax[n_dim + 1].plot(x[mask], 1E6 * fom[n_dim, mask], 'bo', label=plabels[n_dim])
-- 
2.43.0


From 87f71e0388e22534db447aba0965bfbe50496102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 68/68] fix: progress of RF corrections is plotted also before
 the first usable measurement

---
 pySC/correction/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 8470049..49725e8 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -133,7 +133,8 @@ def _plot_progress(data, mean_tbt, phase=True):
     f, ax = plt.subplots(nrows=2, num=2)
     y_scale = 1e6
     ax[0].plot(y_scale * mean_tbt, 'o')
-    ax[0].plot(y_scale * np.arange(len(mean_tbt)) * bpm_shift[~np.isnan(bpm_shift)][-1], '--')
+    if not np.all(np.isnan(bpm_shift)):
+        ax[0].plot(y_scale * np.arange(len(mean_tbt)) * bpm_shift[~np.isnan(bpm_shift)][-1], '--')
     ax[0].set_xlabel('Number of turns')
     ax[0].set_ylabel(r'$\overline{\Delta x}$ [$\mu$m / turn]')
     ax[1].errorbar(test_vec, y_scale * bpm_shift, yerr=y_scale * bpm_shift_err, fmt='o')
-- 
2.43.0

