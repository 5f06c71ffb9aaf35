From 05925f93e66d36f7120cb52a3df03e4630003a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:20 +0000
Subject: [PATCH 01/22] fix: read NIST values that are given without an
 uncertainty

The isotopic composition of monoisotopic elements is listed as '1' without
an uncertainty in parentheses. It was read as the default value 0, which
gave 22 elements (Be, F, Na, Al, ..., Au, Bi) an abundance, a mass and a
per-atom attenuation cross section of zero.
---
 ries/constituents/natural_element_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index cd1d01a..a43ef2a 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -162,6 +162,7 @@ class NISTElementDataReader:
             PROPERTY = VALUE(UNCERTAINTY)
 
         this function reads `VALUE` and casts it to a `float`.
+        If the line contains no uncertainty, the entire value is used.
 
         Parameters:
 
@@ -174,9 +175,10 @@ class NISTElementDataReader:
 
         - float, value
         """
-        return self.read_nist_element_property(
-            line[0 : line.find("(") + 1], prefix, float, default
-        )
+        # Exactly known values, like the abundance of a monoisotopic element, have no uncertainty.
+        if "(" in line:
+            line = line[0 : line.find("(") + 1]
+        return self.read_nist_element_property(line, prefix, float, default)
 
     def read_nist_element_symbols(self):
         """Find all element symbols in the data file and organize them in a dictionary.
-- 
2.43.0


From c934c4eefa74283c25bf3f83fed6abc3db4b6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:20 +0000
Subject: [PATCH 02/22] fix: match the entire element symbol when looking up a
 density

The symbol was searched as a substring of the first two characters of a
line. Boron, sulfur and iodine got the densities of beryllium, silicon and
indium, whose lines come first.
---
 ries/constituents/natural_element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index a43ef2a..47b04ff 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -261,7 +261,7 @@ class Geant4DensityDataReader:
 
         with open(self.density_data_file_name, "r") as file:
             for line in file:
-                if X in line[0:2]:
+                if X == line[0:2].strip():
                     return self.density_conversion(float(line[2:]))
 
             return None
-- 
2.43.0


From 06fce552acf24b1dbe0718af9d192b44db19a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 03/22] fix: keep the equidistant-probability grid inside the
 requested limits

For an energy range that contains a negligible part of the resonance, the
CDF is 0 or 1 everywhere in the range. All inner grid points were then
placed at plus or minus infinity, or at the edge of the distribution's
support outside the requested range.
---
 ries/resonance/resonance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index cf9ff52..e4fba79 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -360,7 +360,12 @@ class Resonance(CrossSection):
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
+        # If the probability inside the limits is negligible, the same may happen for all
+        # points of the grid, so restrict the entire grid to the given limits.
         if not isinstance(coverage_or_limits, (int, float)):
+            equ_dis_pro_grid = np.clip(
+                equ_dis_pro_grid, min(coverage_or_limits), max(coverage_or_limits)
+            )
             equ_dis_pro_grid[0] = coverage_or_limits[0]
             equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
-- 
2.43.0


From ecdf5db14808288d52feebdd71284b26a1cfc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 04/22] fix: return zero for a negative lower limit of a
 coverage interval

The method warned that it returns zero, but returned the negative limit.
The maximum coverage in the warning was evaluated without the parameters
of the probability distribution.
---
 ries/resonance/resonance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index e4fba79..4694e4f 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -295,10 +295,17 @@ class Resonance(CrossSection):
         if limits[0] < 0.0:
             warnings.warn(
                 "Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {:f} %.".format(
-                    100.0 * (1.0 - self.probability_distribution.cdf(0.0))
+                    100.0
+                    * (
+                        1.0
+                        - self.probability_distribution.cdf(
+                            0.0, *self.probability_distribution_parameters
+                        )
+                    )
                 ),
                 UserWarning,
             )
+            limits[0] = 0.0
         if np.isinf(limits[1]):
             warnings.warn(
                 "Infinite upper limit of coverage interval encountered.", UserWarning
-- 
2.43.0


From bf33aa636375771b49bf99eb5a8e4ff97c3e75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 05/22] fix: use the pseudo-Voigt PPF approximation for partly
 converged arrays

If the root finder failed for some, but not all quantiles of an array, the
PPF returned None. A coverage of 1 and some wide energy ranges therefore
crashed for pseudo-Voigt and Voigt resonances. The approximation is now
used for the quantiles that did not converge.
---
 ries/resonance/pseudo_voigt.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index b43ad74..72ea124 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -238,14 +238,27 @@ class PseudoVoigtDistribution:
                     return newton_result[0]
             elif False not in newton_result[1]:
                 return newton_result[0]
+            else:
+                # `newton` raises a RuntimeError for an array only if none of the values converged.
+                self.warn_ppf_approximation()
+                return np.where(
+                    newton_result[1],
+                    newton_result[0],
+                    self.pseudo_voigt_expression(quantile, "ppf"),
+                )
 
         except RuntimeError:
-            warnings.warn(
-                "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
-                UserWarning,
-            )
+            self.warn_ppf_approximation()
             return self.pseudo_voigt_expression(quantile, "ppf")
 
+    @staticmethod
+    def warn_ppf_approximation():
+        """Warn that the fallback approximation is used for the PPF"""
+        warnings.warn(
+            "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
+            UserWarning,
+        )
+
     def get_Gamma(self):
         """Calculate Gamma parameter
 
-- 
2.43.0


From f043b58c18fe25d30977ab8e93b5669af85f85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 06/22] fix: use half the FWHM as scale of the pseudo-Voigt
 Cauchy component

'gamma_L' is already half of the full width at half maximum, but it was
divided by 2 again. The pseudo-Voigt distribution did not approach the
Breit-Wigner shape for small Doppler widths; its peak was too high by a
factor of two.
---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 72ea124..f361778 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -166,7 +166,7 @@ class PseudoVoigtDistribution:
             """(1.0 - self.eta) * norm.{}(
             x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
         ) + self.eta * cauchy.{}(
-            x, loc=self.resonance_energy, scale=0.5 * self.gamma_L
+            x, loc=self.resonance_energy, scale=self.gamma_L
         )""".format(
                 method, method
             )
-- 
2.43.0


From 4a423ad9ab99eee42b2415aec44b667c9f7ea927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 07/22] fix: scale the pseudo-Voigt PPF tolerance with the
 resonance width

The root finder stopped when a step was smaller than 1.48e-8 MeV. For
resonances with a width of about 1e-7 MeV or less, it stopped after the
first steps and silently returned energies with wrong quantiles.
---
 ries/resonance/pseudo_voigt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index f361778..d1a17fe 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -231,6 +231,9 @@ class PseudoVoigtDistribution:
                 if isinstance(quantile, (float, int))
                 else self.resonance_energy * np.ones(len(quantile)),
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
+                # The tolerance is an absolute energy difference.
+                # The default value of 1.48e-8 MeV is too large for narrow resonances.
+                tol=min(1.48e-8, 1e-4 * self.Gamma),
                 full_output=True,
             )
             if isinstance(quantile, (int, float)):
-- 
2.43.0


From 8f75625ba4a57c36bc2f03b3470fde4484e3d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 08/22] fix: use the mass of the charged particle in the
 Compton kinematics

The scattered energy, the scattering angle, the Compton edge and the
differential cross sections always used the electron mass, even if a
different mass was given. They were inconsistent with the total cross
section for any other particle.
---
 ries/nonresonant/klein_nishina.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index ba57256..6799042 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -155,8 +155,7 @@ class KleinNishina(Nonresonant):
 
         return self.Ep_over_E(E, np.pi) * E
 
-    @staticmethod
-    def theta(E, Ep):
+    def theta(self, E, Ep):
         """Scattering angle for a given scattered energy
 
         Parameters:
@@ -168,15 +167,9 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(
-            1
-            - (E / Ep - 1)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
-            / E
-        )
+        return np.arccos(1 - (E / Ep - 1) * self.mc2 / E)
 
-    @staticmethod
-    def Ep_over_E(E, theta):
+    def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
 
         Parameters:
@@ -188,12 +181,7 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, ratio of the energy of the scattered photon and its initial energy.
         """
-        return 1.0 / (
-            1.0
-            + E
-            / physical_constants["electron mass energy equivalent in MeV"][0]
-            * (1.0 - np.cos(theta))
-        )
+        return 1.0 / (1.0 + E / self.mc2 * (1.0 - np.cos(theta)))
 
     def cs_diff_dOmega(self, E, theta, phi):
         """Differential cross section w.r.t. the solid-angle
@@ -262,7 +250,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega(E, self.theta(E, Ep), phi)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
@@ -280,7 +268,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
-- 
2.43.0


From 8c5f7b53386b4b7f51cb1b59b2d3db26d172721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:29 +0000
Subject: [PATCH 09/22] fix: average the unpolarized Compton cross section over
 the azimuthal angle

The solid-angle differential cross section for unpolarized photons was the
integral over the azimuthal angle instead of the average, i.e. too large by
a factor of 2 pi. The cross sections that are differential in the scattering
angle or in the scattered energy keep their values.
---
 ries/nonresonant/klein_nishina.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 6799042..e9616e9 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -47,7 +47,7 @@ The equation above also contains the energy of the scattered photon, :math:`E^\p
 If no information on the polarization of the incident photon is available, the differential
 cross section can be averaged over the azimuthal angle:
 
-.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{\pi \alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
+.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{1}{2} \frac{\alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
 
 An integration of either :math:`\mathrm{d} \sigma_\mathrm{Compton} / \mathrm{d} \Omega` or
 :math:`\mathrm{d} \sigma_\mathrm{Compton, unpolarized} / \mathrm{d} \Omega` over the azimuthal
@@ -224,7 +224,7 @@ class KleinNishina(Nonresonant):
 
         relative_energy_change = self.Ep_over_E(E, theta)
         return (
-            np.pi
+            0.5
             * self.scale_factor
             * relative_energy_change
             * relative_energy_change
@@ -267,7 +267,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
+            2.0
+            * np.pi
+            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
             * self.mc2
             / (Ep * Ep)
         )
@@ -285,7 +287,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, scattering-angle differential cross section in :math:`\mathrm{fm}^2`.
         """
 
-        return self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        return (
+            2.0 * np.pi * self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        )
 
     def cs_total(self, E):
         r"""Total cross section
-- 
2.43.0


From 4ca34ea4f9c2e9ea78865da1a5ee1463c30f9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 10/22] fix: return an angle of pi instead of nan at the
 Compton edge

Rounding errors pushed the cosine of the scattering angle below -1 for about
30 percent of all initial energies.
---
 ries/nonresonant/klein_nishina.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index e9616e9..40d2ac5 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -167,7 +167,11 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(1 - (E / Ep - 1) * self.mc2 / E)
+        cos_theta = 1 - (E / Ep - 1) * self.mc2 / E
+        # At the Compton edge, rounding errors may cause values slightly below -1.
+        return np.arccos(
+            np.where((cos_theta < -1.0) & (cos_theta > -1.0 - 1e-9), -1.0, cos_theta)
+        )
 
     def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
-- 
2.43.0


From fecf298f42b65e48c475b17487b600fc096282d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 11/22] fix: accept an array of integration limits in
 quad_partition

The truth value of a numpy array with more than one element is ambiguous, so
passing the documented type raised a ValueError.
---
 ries/integration/quad_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/integration/quad_partition.py b/ries/integration/quad_partition.py
index d850830..94e78a9 100644
--- a/ries/integration/quad_partition.py
+++ b/ries/integration/quad_partition.py
@@ -67,7 +67,8 @@ def quad_partition(f, x0, x1_to_xn_minus_1=None):
     """
     integral = 0.0
     uncertainty_estimate = 0.0
-    x1_to_xn_minus_1 = x1_to_xn_minus_1 or []
+    if x1_to_xn_minus_1 is None:
+        x1_to_xn_minus_1 = []
 
     for i in range(len(x0) - 1):
         nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
-- 
2.43.0


From 241b5f44175d3434f8dc5dec64ade07143bdaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 12/22] fix: bind the element to the unit conversion of the
 attenuation data

The conversion functions of all 'xrmac_fm2_per_atom' objects referred to the
loop variable. After the import, all of them used the mass of uranium.
---
 ries/nonresonant/xrmac.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 969d9a4..b279c4c 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -238,7 +238,8 @@ for Z in range(1, 93):
     xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / "{:02d}.txt".format(Z)))
     xrmac_fm2_per_atom[X[Z]] = XRMAC(
         str(xrmac_data_dir / "{:02d}.txt".format(Z)),
-        xrmac_conversion=lambda xrmac: xrmac
+        # Bind the current value of Z, otherwise all conversions would use the last element.
+        xrmac_conversion=lambda xrmac, Z=Z: xrmac
         * cm_to_fm ** 2
         * natural_elements[X[Z]].amu
         * physical_constants["atomic mass constant"][0]
-- 
2.43.0


From 8d821b7192e3d2e8c560da22522f963bdf0bd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 13/22] fix: allow an empty weighted sum of cross sections

The default arguments of CrossSectionWeightedSum raised a TypeError.
---
 ries/cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 38ad450..fa62b58 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -222,7 +222,7 @@ class CrossSectionWeightedSum:
         """
         self.reactions = reactions or []
         if scale_factors is None:
-            scale_factors = [1.0] * len(reactions)
+            scale_factors = [1.0] * len(self.reactions)
         self.scale_factors = scale_factors
 
     def __add__(self, other):
-- 
2.43.0


From 0ef396471f2714b2793539fbdf16b0c4b76635b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 14/22] fix: accept numpy scalars in the addition of cross
 sections

Scalars like numpy.int64 or numpy.float32 are not instances of int or float.
Adding them on the right gave an object that could not be evaluated.
---
 ries/cross_section.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index fa62b58..c7de55f 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -62,6 +62,7 @@ This may lead to runtime `TypeError`s.*
 """
 
 from itertools import chain
+from numbers import Number
 
 import numpy as np
 
@@ -81,7 +82,7 @@ class CrossSection:
 
         See `CrossSectionWeightedSum.__add__()`.
         """
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
         return CrossSectionWeightedSum([self, other])
 
@@ -253,7 +254,7 @@ class CrossSectionWeightedSum:
             reactions.append(reaction)
             scale_factors.append(self.scale_factors[i])
 
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             reactions.append(ConstantCrossSection(other))
             scale_factors.append(1.0)
         elif isinstance(other, CrossSection):
-- 
2.43.0


From 3ae072eacbd590d0805f3c8cc1677db43413acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 15/22] fix: use the element symbols of manganese and vanadium
 as Debye data keys

---
 ries/resonance/debye_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index f0bcd91..a15684e 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -132,7 +132,7 @@ room_temperature_T_D = {
     "Li": 448.0,
     "Lu": 116.0,
     "Mg": 330.0,
-    "Ma": 363.0,
+    "Mn": 363.0,
     "Hg": 92.0,
     "Mo": 377.0,
     "Nd": 148.0,
@@ -172,7 +172,7 @@ room_temperature_T_D = {
     "Ti": 380.0,
     "W": 312.0,
     "U": 300.0,
-    "Va": 390.0,
+    "V": 390.0,
     "Xe": None,
     "Yb": None,
     "Y": 214.0,
-- 
2.43.0


From da6dc535165fb25855a4b83aa9ac5ab43ef98c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:28 +0000
Subject: [PATCH 16/22] fix: convert attenuation data that are given as an
 array

The user-defined conversion functions were only applied to data from a file.
---
 ries/nonresonant/xrmac.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index b279c4c..311d289 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -125,6 +125,13 @@ class XRMAC(Nonresonant):
         self.xrmac_conversion = xrmac_conversion
         if isinstance(data, str):
             data = self.read_nist_xrmac(data)
+        else:
+            data = np.column_stack(
+                (
+                    self.energy_conversion(data[:, 0]),
+                    self.xrmac_conversion(data[:, 1:]),
+                )
+            )
         self.data = data
         self.interpolation_log_log = self.interpolate_log_log(self.data)
 
-- 
2.43.0


From 58759d57cfa822ee6f26b0347d23e7a22948b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:34 +0000
Subject: [PATCH 17/22] fix: use log1p in the total Compton cross section

---
 ries/nonresonant/klein_nishina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 40d2ac5..08a705c 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -313,6 +313,6 @@ class KleinNishina(Nonresonant):
             * x ** -3
             * (
                 (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
-                + ((x - 2) * x - 2) * np.log(1 + 2 * x)
+                + ((x - 2) * x - 2) * np.log1p(2 * x)
             )
         )
-- 
2.43.0


From f8fcfc6999420aa83a8ce68c316de819f32bdd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:55 +0000
Subject: [PATCH 18/22] fix: read the last attenuation value of a file without
 a final newline

---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 311d289..64e8c89 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -221,7 +221,7 @@ class XRMAC(Nonresonant):
                 skip = 3
         with open(xrmac_file_name, "r") as file:
             for line in file:
-                line = line[skip:-2].split(sep="  ")
+                line = line[skip:].split()
                 data.append(
                     [
                         self.energy_conversion(float(line[0])),
-- 
2.43.0


From 596ca3bc1212ec87e7a564c310f2b0a147273b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:35 +0000
Subject: [PATCH 19/22] fix: read the last value of an element data file
 without a final newline

---
 ries/constituents/natural_element_data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index 47b04ff..ef0398b 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -144,10 +144,8 @@ class NISTElementDataReader:
 
         - value of type `property_type` or `default`.
         """
-        prop = line[
-            len(prefix) : -1
-        ]  # Take all characters except the last two, which are the newline
-        # escape sequence '\n'.
+        # The last line of a file may not end with a newline character.
+        prop = line[len(prefix) :].rstrip("\n")
         if prop != "":
             return property_type(prop)
         return default
@@ -177,7 +175,7 @@ class NISTElementDataReader:
         """
         # Exactly known values, like the abundance of a monoisotopic element, have no uncertainty.
         if "(" in line:
-            line = line[0 : line.find("(") + 1]
+            line = line[0 : line.find("(")]
         return self.read_nist_element_property(line, prefix, float, default)
 
     def read_nist_element_symbols(self):
-- 
2.43.0


From 756e09fcb178a78dbfdcd22ae9c84e05e5be7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:41 +0000
Subject: [PATCH 20/22] fix: keep partly approximated probability grids in
 order

---
 ries/resonance/resonance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index 4694e4f..05b0cff 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -362,6 +362,9 @@ class Resonance(CrossSection):
             np.linspace(limits[0], limits[1], n_points),
             *self.probability_distribution_parameters,
         )
+        # If some of the values could only be approximated, they may be out of order.
+        if limits[0] <= limits[1]:
+            equ_dis_pro_grid = np.sort(equ_dis_pro_grid)
         # This last if clause prevents rounding errors.
         # For finite limits that are very far away from the resonance energy,
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
-- 
2.43.0


From 670d1b97b19aea3e1dd59aa61da1541022c001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:10 +0000
Subject: [PATCH 21/22] fix: return an angle of pi at the Compton edge for
 small energies

---
 ries/nonresonant/klein_nishina.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 08a705c..7f024c0 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -169,8 +169,13 @@ class KleinNishina(Nonresonant):
         """
         cos_theta = 1 - (E / Ep - 1) * self.mc2 / E
         # At the Compton edge, rounding errors may cause values slightly below -1.
+        rounding_error = 1e-9 + 1e-15 * self.mc2 / E
         return np.arccos(
-            np.where((cos_theta < -1.0) & (cos_theta > -1.0 - 1e-9), -1.0, cos_theta)
+            np.where(
+                (cos_theta < -1.0) & (cos_theta > -1.0 - rounding_error),
+                -1.0,
+                cos_theta,
+            )
         )
 
     def Ep_over_E(self, E, theta):
-- 
2.43.0


From 2c0558ad7cabcbe81aac1e21576952ff54ce7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:37 +0000
Subject: [PATCH 22/22] fix: expand the total Compton cross section for small
 energies

---
 ries/nonresonant/klein_nishina.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 7f024c0..39354d0 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -315,9 +315,14 @@ class KleinNishina(Nonresonant):
         return (
             np.pi
             * self.scale_factor
-            * x ** -3
-            * (
-                (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
-                + ((x - 2) * x - 2) * np.log1p(2 * x)
+            * np.where(
+                # The terms cancel for small energies, use an expansion in x there.
+                x < 1e-3,
+                8 / 3 * (1 - x * (2 - x * (26 / 5 - x * (133 / 10 - x * 1144 / 35)))),
+                x ** -3
+                * (
+                    (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
+                    + ((x - 2) * x - 2) * np.log1p(2 * x)
+                ),
             )
         )
-- 
2.43.0

