From 6088f3a3ae2b467f81329add4e147a05859ab079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 01/42] fix: particle distributions no longer modify the
 caller's gamma array and accept any array shape or dtype

evaluate() corrected rounding at the gamma boundaries in place, on the first and
last element only: the array of the caller was modified, N-d and 0-d arrays
raised, and integer arrays raised (power law) or truncated to zero
(interpolated). The correction is now applied, element-wise, to a float copy; the
SSA integrands apply it as well, instead of relying on the side effect.
---
 agnpy/spectra/spectra.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 8a92977..321afd9 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -1,6 +1,5 @@
 # module containing the particle spectra
 from abc import abstractmethod, ABC
-from typing import Iterable
 
 import numpy as np
 import astropy.units as u
@@ -214,15 +213,13 @@ class ParticleDistribution(ABC):
         the first and last gamma values are falling outside the range of the allowed min/max values,
         and then incorrectly evaluate to zero. To correct for such cases, check the relative error,
         and if it is less than some very small value (let's say 1e-10), correct the gamma array accordingly, to fit into the allowed range.
+        Returns a corrected copy (float), the input gamma is never modified.
         """
-        if not isinstance(gamma, Iterable) or len(gamma) == 0:
-            return
-        if gamma_min > gamma[0]:
-            if (gamma_min - gamma[0]) / gamma[0] < 1e-10:
-                gamma[0] = gamma_min
-        if gamma[-1] > gamma_max:
-            if (gamma[-1] - gamma_max) / gamma_max < 1e-10:
-                gamma[-1] = gamma_max
+        gamma = np.array(gamma, dtype=float, subok=True)
+        below = (gamma < gamma_min) & (gamma_min - gamma < 1e-10 * gamma_min)
+        above = (gamma > gamma_max) & (gamma - gamma_max < 1e-10 * gamma_max)
+        gamma = np.where(below, gamma_min, gamma)
+        return np.where(above, gamma_max, gamma)
 
     @abstractmethod
     def __call__(self, gammas):
@@ -271,7 +268,7 @@ class PowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max), k * gamma ** (-p), 0
         )
@@ -283,6 +280,7 @@ class PowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return k * np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             -(p + 2) * np.power(gamma, -p - 1),
@@ -365,7 +363,7 @@ class BrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -388,6 +386,7 @@ class BrokenPowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -469,7 +468,7 @@ class LogParabola(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, q, gamma_0, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         gamma_ratio = gamma / gamma_0
         index = -p - q * np.log10(gamma_ratio)
         return np.where(
@@ -568,7 +567,7 @@ class ExpCutoffPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_c, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             k * gamma ** (-p) * np.exp(-gamma / gamma_c),
@@ -672,7 +671,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_c, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -698,6 +697,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
     ):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         prefactor = -(index + 2) / gamma + (-1 / gamma_c)
         return np.where(
@@ -798,7 +798,7 @@ class InterpolatedDistribution(ParticleDistribution):
         ]
 
     def evaluate(self, gamma, norm, gamma_min, gamma_max):
-        self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
         values = np.zeros_like(gamma)
-- 
2.43.0


From 27a63d0265e2ec1274bedf0aa3e857f8c0f27bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 02/42] fix: EmptyDistribution lacked the SSA integrand,
 synchrotron with ssa=True raised AttributeError

---
 agnpy/spectra/spectra.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 321afd9..2fa0571 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -867,3 +867,9 @@ class EmptyDistribution(ParticleDistribution):
 
     def evaluate(self, gamma, *args):
         return np.zeros_like(gamma) * u.Unit("cm-3")
+
+    def evaluate_SSA_integrand(self, gamma, *args):
+        return np.zeros_like(gamma) * u.Unit("cm-3")
+
+    def SSA_integrand(self, gamma):
+        return self.evaluate_SSA_integrand(gamma)
-- 
2.43.0


From 69fbb95a15e741777aabc19f5ef2611498566cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 03/42] fix: blobs created with the default electron
 distribution shared the same object

---
 agnpy/emission_regions/blob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 5e08435..c270232 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -65,7 +65,7 @@ class Blob:
         delta_D=10,
         Gamma=10,
         B=1 * u.G,
-        n_e : ParticleDistribution = PowerLaw(mass=m_e),
+        n_e : ParticleDistribution = None,
         n_p : ParticleDistribution = None,
         xi=1.0,
         gamma_e_size=200,
@@ -82,7 +82,8 @@ class Blob:
         self.delta_D = delta_D
         self.Gamma = Gamma
         self.B = B
-        self._n_e : ParticleDistribution = n_e
+        # the default has to be created anew, not to be shared between blobs
+        self._n_e : ParticleDistribution = PowerLaw(mass=m_e) if n_e is None else n_e
         self._n_p : ParticleDistribution = n_p
         self.xi = xi
 
-- 
2.43.0


From f7fefe7124bf02444845c7970e37cc0efed4bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 04/42] fix: the luminosity distance of a blob was not updated
 with its redshift

---
 agnpy/emission_regions/blob.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index c270232..1746988 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -76,9 +76,9 @@ class Blob:
             raise ValueError("delta_D must be a positive number")
 
         self.R_b = R_b.to("cm")
+        self._cosmology = cosmology
+        # setting z will also compute the luminosity distance
         self.z = z
-        # if the luminosity distance is not specified, it will be computed from z
-        self.d_L = Distance(z=self.z, cosmology=cosmology).cgs
         self.delta_D = delta_D
         self.Gamma = Gamma
         self.B = B
@@ -90,6 +90,17 @@ class Blob:
         self.gamma_e_size = gamma_e_size
         self.gamma_p_size = gamma_p_size
 
+    @property
+    def z(self):
+        """Redshift of the source."""
+        return self._z
+
+    @z.setter
+    def z(self, z):
+        """Setter of the redshift, updates the luminosity distance."""
+        self._z = z
+        self.d_L = Distance(z=z, cosmology=self._cosmology).cgs
+
     @property
     def V_b(self):
         """Volume of the blob."""
-- 
2.43.0


From 974c53d66cafde4e688ebab092580edacb4a9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 05/42] fix: absorption_homogeneous was NaN where the optical
 depth is null

---
 agnpy/absorption/targets_absorption.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 870cbd2..4f1c311 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -744,4 +744,6 @@ class Absorption:
         See e.g. section 2.5.1. of Finke et al. 2008.
         """
         t = self.tau(nu)
-        return (1 - np.exp(-t)) / t
+        # the attenuation tends to 1 for a null optical depth
+        null = t == 0
+        return np.where(null, 1, (1 - np.exp(-t)) / np.where(null, 1, t))
-- 
2.43.0


From 9295b8aa0aae48c2e2f88c3774d47a9806f0aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 06/42] fix: sherpa EC model evaluated to None when the targets
 were listed as ["dt", "blr"]

---
 agnpy/fit/sherpa_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index fb38086..5024d5b 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,9 +464,10 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        if self.targets == ["blr"]:
+        targets = set(self.targets)
+        if targets == {"blr"}:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["dt"]:
+        if targets == {"dt"}:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["blr", "dt"]:
+        if targets == {"blr", "dt"}:
             return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
-- 
2.43.0


From 18ea66c40a1319fd585a2bcec2884de14ae6f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 07/42] fix: sherpa flux points of an instrument without
 systematics took those of the previous instrument, or raised

---
 agnpy/fit/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 313f65b..bcef8c3 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -46,14 +46,13 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         e2dnde_errn = tab["e2dnde_errn"]
         e2dnde_errp = tab["e2dnde_errp"]
 
-        # add systematic errors
+        # add systematic errors, null if not specified for this instrument
+        e2dnde_err_syst = np.zeros_like(e2dnde)
         if systematics_dict is not None:
             for instrument in systematics_dict.keys():
                 if name == instrument:
                     syst_rel_error = systematics_dict[instrument]
                     e2dnde_err_syst = syst_rel_error * e2dnde
-        else: 
-            e2dnde_err_syst = np.zeros_like(e2dnde)
 
         x = np.append(x, energy)
         y = np.append(y, e2dnde)
-- 
2.43.0


From 423e5230171e98358dd937e93e4bb807d55924ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 08/42] fix: the time evolution callback received relative and
 absolute injection rates swapped

---
 agnpy/time_evolution/time_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index df9f54a..0487e86 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -270,8 +270,8 @@ class TimeEvolution:
             total_time_elapsed += step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
-                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), abs_injection_rates,
-                    rel_injection_rates))
+                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
+                    abs_injection_rates))
             progress_percent = int((100 * total_time_elapsed / self._total_time_sec).round(0))
             log.info("Progress: %3d%% %s (%i bins)", progress_percent, total_time_elapsed, gm_bins.shape[-1])
 
-- 
2.43.0


From 40ccdf17dbe69903277e750e5e15d267d7407cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 09/42] fix: with subgroups, the second stage of the Heun
 method used the split of density of the first stage instead of the initial
 one

---
 agnpy/time_evolution/time_evolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0487e86..533053d 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -327,17 +327,17 @@ class TimeEvolution:
                             total_injection_grouped, unit_time_interval_sec):
 
         # ======== stage 1: apply time evaluation ========
-        new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
+        new_gm_bins, new_dens, new_subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
                 en_changes_grouped * unit_time_interval_sec, total_injection_grouped * unit_time_interval_sec)
         dist = update_distribution(new_gm_bins, new_dens, self._blob)
 
         # ======== stage 2: for Heun method, recalculate bins ========
         if self._method.lower() == "heun":
-            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, subgroups_density)
+            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, new_subgroups_density)
             en_changes_grouped_recalced = sum_change_rates(en_chg_rates_recalced, new_gm_bins.shape, erg_per_s, self._subgroups)
             averaged_en_chg_rates_grouped = (en_changes_grouped + en_changes_grouped_recalced) / 2
             abs_en_chg_recalc = averaged_en_chg_rates_grouped * unit_time_interval_sec
-            new_gm_bins, new_dens, subgroups_density = (
+            new_gm_bins, new_dens, new_subgroups_density = (
                 self._apply_time_eval(en_bins, density, subgroups_density, abs_en_chg_recalc,
                                 total_injection_grouped * unit_time_interval_sec))
             dist = update_distribution(new_gm_bins, new_dens, self._blob)
@@ -345,7 +345,7 @@ class TimeEvolution:
 
         # ======== stage 3: sort and merge bins if needed ========
         new_gm_bins, new_dens, sort_and_merge_mapping = self._sort_and_merge_bins(new_gm_bins, new_dens, dist)
-        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, subgroups_density)
+        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, new_subgroups_density)
         final_mapping = sort_and_merge_mapping
 
         if self._gamma_bounds is not None:
-- 
2.43.0


From 6c5809d35c6558cfd444932c932a85a76717cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 10/42] fix: the empty distribution set by the time evolution
 had arrays of bins as gamma_min and gamma_max

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 8841728..79d3a3f 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -234,7 +234,7 @@ def remove_empty_densities(result: TimeEvaluationResult) -> TimeEvaluationResult
 def update_distribution(gamma_array, n_array, blob):
     gamma_sorted_and_merged, n_array_sorted_and_merged, _ = sort_and_merge_duplicates(gamma_array, n_array, None)
     if np.all(n_array_sorted_and_merged == 0):
-        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0], gamma_max=gamma_sorted_and_merged[-1])
+        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0][0], gamma_max=gamma_sorted_and_merged[0][-1])
     else:
         if len(gamma_sorted_and_merged[0]) == 1:
             raise DistributionToSinglePointCollapseError(gamma_sorted_and_merged[0])
-- 
2.43.0


From 8affd3bbd3fe71d8e9d3d9b7b92705be232fa2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:53 +0000
Subject: [PATCH 11/42] fix: absorption_homogeneous tended to 0 instead of 1
 for optical depths comparable to the float precision

---
 agnpy/absorption/targets_absorption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 4f1c311..f844e83 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -746,4 +746,4 @@ class Absorption:
         t = self.tau(nu)
         # the attenuation tends to 1 for a null optical depth
         null = t == 0
-        return np.where(null, 1, (1 - np.exp(-t)) / np.where(null, 1, t))
+        return np.where(null, 1, -np.expm1(-t) / np.where(null, 1, t))
-- 
2.43.0


From b48f53802c705a594e396a043e8fc1534f48d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:53 +0000
Subject: [PATCH 12/42] fix: SED and optical depth of unsupported targets
 evaluated to None instead of raising

---
 agnpy/absorption/targets_absorption.py | 4 ++++
 agnpy/compton/external_compton.py      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index f844e83..230c36a 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -729,6 +729,10 @@ class Absorption:
             if isinstance(self.target, RingDustTorus):
                 return self.tau_dt_mu_s(nu)
 
+        raise NotImplementedError(
+            f"Optical depth for {self.target.__class__} with mu_s = {self.mu_s} is not available"
+        )
+
     def absorption(self, nu):
         """This function returns the attenuation of the emission assuming that
         the optical depth tau is computed from the production place to the observer.
diff --git a/agnpy/compton/external_compton.py b/agnpy/compton/external_compton.py
index 692c24e..beddbc8 100644
--- a/agnpy/compton/external_compton.py
+++ b/agnpy/compton/external_compton.py
@@ -632,6 +632,9 @@ class ExternalCompton(RadiativeProcess):
             return self.sed_flux_blr(nu)
         if isinstance(self.target, RingDustTorus):
             return self.sed_flux_dt(nu)
+        raise NotImplementedError(
+            f"External Compton on {self.target.__class__} is not available"
+        )
 
     def sed_luminosity(self, nu):
         r"""Evaluates the external Compton luminosity SED
-- 
2.43.0


From fdc062d6d45e32ac08b9113f3a8dbb1730ac12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:53 +0000
Subject: [PATCH 13/42] fix: external Compton and proton synchrotron SEDs, and
 SSA opacity, did not preserve the shape of the input frequencies

---
 agnpy/compton/external_compton.py       | 10 +++++-----
 agnpy/synchrotron/proton_synchrotron.py |  2 +-
 agnpy/synchrotron/synchrotron.py        |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/agnpy/compton/external_compton.py b/agnpy/compton/external_compton.py
index beddbc8..647b63c 100644
--- a/agnpy/compton/external_compton.py
+++ b/agnpy/compton/external_compton.py
@@ -129,7 +129,7 @@ class ExternalCompton(RadiativeProcess):
         integrand = N_e / np.power(_gamma, 2) * kernel
         integral_gamma = integrator(integrand, gamma, axis=0)
         integral_mu = np.trapz(integral_gamma, mu, axis=0)
-        integral_phi = np.trapz(integral_mu, phi, axis=0)
+        integral_phi = np.trapz(integral_mu, phi, axis=0).reshape(epsilon_s.shape)
         prefactor_num = (
             3 * c * sigma_T * u_0 * np.power(epsilon_s, 2) * np.power(delta_D, 3)
         )
@@ -226,7 +226,7 @@ class ExternalCompton(RadiativeProcess):
         N_e = V_b * n_e.evaluate(_gamma / delta_D, *args)
         kernel = compton_kernel(_gamma, _epsilon_s, epsilon_0, mu_s, 1, 0)
         integrand = N_e / np.power(_gamma, 2) * kernel
-        integral = integrator(integrand, gamma, axis=0)
+        integral = integrator(integrand, gamma, axis=0).reshape(epsilon_s.shape)
         prefactor_num = (
             3 * sigma_T * L_0 * np.power(epsilon_s, 2) * np.power(delta_D, 3)
         )
@@ -357,7 +357,7 @@ class ExternalCompton(RadiativeProcess):
         )
         integral_gamma = integrator(integrand, gamma, axis=0)
         integral_mu = np.trapz(integral_gamma, mu, axis=0)
-        integral_phi = np.trapz(integral_mu, phi, axis=0)
+        integral_phi = np.trapz(integral_mu, phi, axis=0).reshape(epsilon_s.shape)
         prefactor_num = (
             9
             * sigma_T
@@ -472,7 +472,7 @@ class ExternalCompton(RadiativeProcess):
         integrand = 1 / np.power(x, 2) * N_e / np.power(_gamma, 2) * kernel
         integral_gamma = integrator(integrand, gamma, axis=0)
         integral_mu = np.trapz(integral_gamma, mu, axis=0)
-        integral_phi = np.trapz(integral_mu, phi, axis=0)
+        integral_phi = np.trapz(integral_mu, phi, axis=0).reshape(epsilon_s.shape)
         prefactor_num = (
             3
             * sigma_T
@@ -586,7 +586,7 @@ class ExternalCompton(RadiativeProcess):
         kernel = compton_kernel(_gamma, _epsilon_s, epsilon_dt, mu_s, mu, _phi)
         integrand = N_e / np.power(_gamma, 2) * kernel
         integral_gamma = integrator(integrand, gamma, axis=0)
-        integral_phi = np.trapz(integral_gamma, phi, axis=0)
+        integral_phi = np.trapz(integral_gamma, phi, axis=0).reshape(epsilon_s.shape)
         prefactor_num = (
             3 * sigma_T * xi_dt * L_disk * np.power(epsilon_s, 2) * np.power(delta_D, 3)
         )
diff --git a/agnpy/synchrotron/proton_synchrotron.py b/agnpy/synchrotron/proton_synchrotron.py
index 4c0c5b6..15c53bf 100644
--- a/agnpy/synchrotron/proton_synchrotron.py
+++ b/agnpy/synchrotron/proton_synchrotron.py
@@ -128,7 +128,7 @@ class ProtonSynchrotron(RadiativeProcess):
         N_p = V_b * n_p.evaluate(_gamma, *args)
         # fold the proton distribution with the synchrotron power
         integrand = N_p * single_particle_synch_power(B_cgs, _epsilon, _gamma, mass=m_p)
-        emissivity = integrator(integrand, gamma, axis=0)
+        emissivity = integrator(integrand, gamma, axis=0).reshape(epsilon.shape)
         prefactor = np.power(delta_D, 4) / (4 * np.pi * np.power(d_L, 2))
         sed = (prefactor * epsilon * emissivity).to("erg cm-2 s-1")
 
diff --git a/agnpy/synchrotron/synchrotron.py b/agnpy/synchrotron/synchrotron.py
index 761da01..e074230 100644
--- a/agnpy/synchrotron/synchrotron.py
+++ b/agnpy/synchrotron/synchrotron.py
@@ -121,7 +121,7 @@ class Synchrotron(RadiativeProcess):
         _gamma, _epsilon = axes_reshaper(gamma, epsilon)
         SSA_integrand = n_e.evaluate_SSA_integrand(_gamma, *args)
         integrand = SSA_integrand * single_particle_synch_power(B_cgs, _epsilon, _gamma)
-        integral = integrator(integrand, gamma, axis=0)
+        integral = integrator(integrand, gamma, axis=0).reshape(epsilon.shape)
         prefactor_k_epsilon = (
             -1 / (8 * np.pi * m_e * np.power(epsilon, 2)) * np.power(lambda_c_e / c, 3)
         )
-- 
2.43.0


From 6e245acd6100bc9beea4357357287cf5f62f1c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 14/42] fix: optical depths, thermal SEDs, BLR energy density
 and EBL absorption did not preserve the shape of their input

---
 agnpy/absorption/ebl_absorption.py     |  4 ++--
 agnpy/absorption/targets_absorption.py | 18 +++++++++---------
 agnpy/targets/targets.py               |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/agnpy/absorption/ebl_absorption.py b/agnpy/absorption/ebl_absorption.py
index 7b15dd6..f7f08b9 100644
--- a/agnpy/absorption/ebl_absorption.py
+++ b/agnpy/absorption/ebl_absorption.py
@@ -68,6 +68,6 @@ class EBL:
         energy = nu.to_value("keV", equivalencies=u.spectral())
         # for evaluation, reconstruct the shape of the input table
         z_array = np.full_like(energy, z)
-        points = np.vstack([energy, z_array]).T
-        absorption = self.interpolated_model(points)
+        points = np.stack([energy, z_array], axis=-1)
+        absorption = self.interpolated_model(points).reshape(energy.shape)
         return absorption
diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 230c36a..c55d859 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -38,8 +38,7 @@ def sigma(s):
     term1 = (3 - np.power(beta_cm, 4)) * log((1 + beta_cm) / (1 - beta_cm))
     term2 = -2 * beta_cm * (2 - np.power(beta_cm, 2))
     values = prefactor * (term1 + term2)
-    values[s < 1] = 0
-    return values
+    return np.where(s < 1, 0, values)
 
 
 class Absorption:
@@ -168,7 +167,7 @@ class Absorption:
 
         integrand = (1 - _cos_psi) / x**2 * sigma(s)
         # integrate
-        integral = np.trapz(integrand, uu, axis=0)
+        integral = np.trapz(integrand, uu, axis=0).reshape(epsilon_1.shape)
         prefactor = L_0 / (4 * np.pi * epsilon_0 * m_e * c**3)
         return (prefactor * integral).to_value("")
 
@@ -259,7 +258,7 @@ class Absorption:
         )
         integral_R_tilde = np.trapz(integrand, R_tilde, axis=0)
         integral_phi = np.trapz(integral_R_tilde, phi, axis=0)
-        integral = np.trapz(integral_phi, l_tilde, axis=0)
+        integral = np.trapz(integral_phi, l_tilde, axis=0).reshape(epsilon_1.shape)
         prefactor = 3 * L_disk / ((4 * np.pi) ** 2 * eta * m_e * c**3 * R_g)
         return (prefactor * integral).to_value("")
 
@@ -346,7 +345,7 @@ class Absorption:
         # integrate
         integral_mu = np.trapz(integrand, mu, axis=0)
         integral_phi = np.trapz(integral_mu, phi, axis=0)
-        integral = np.trapz(integral_phi, l, axis=0)
+        integral = np.trapz(integral_phi, l, axis=0).reshape(epsilon_1.shape)
         prefactor = (L_disk * xi_line) / (
             (4 * np.pi) ** 2 * epsilon_line * m_e * c**3
         )
@@ -429,7 +428,7 @@ class Absorption:
         # integrate
         integral_mu = np.trapz(integrand, mu, axis=0)
         integral_phi = np.trapz(integral_mu, phi, axis=0)
-        integral = np.trapz(integral_phi, uu, axis=0)
+        integral = np.trapz(integral_phi, uu, axis=0).reshape(epsilon_1.shape)
         prefactor = (L_disk * xi_line) / (
             (4 * np.pi) ** 2 * epsilon_line * m_e * c**3
         )
@@ -527,7 +526,7 @@ class Absorption:
         integrand = (1 - _cos_psi) / x**2 * sigma(s)
         # integrate
         integral_phi = np.trapz(integrand, phi, axis=0)
-        integral = np.trapz(integral_phi, l, axis=0)
+        integral = np.trapz(integral_phi, l, axis=0).reshape(epsilon_1.shape)
         prefactor = (L_disk * xi_dt) / (8 * np.pi**2 * epsilon_dt * m_e * c**3)
         return (prefactor * integral).to_value("")
 
@@ -592,7 +591,7 @@ class Absorption:
         integrand = (1 - _cos_psi) / x**2 * sigma(s)
         # integrate
         integral_phi = np.trapz(integrand, phi_re, axis=0)
-        integral = np.trapz(integral_phi, uu, axis=0)
+        integral = np.trapz(integral_phi, uu, axis=0).reshape(epsilon_1.shape)
         prefactor = (L_disk * xi_dt) / (8 * np.pi**2 * epsilon_dt * m_e * c**3)
         return (prefactor * integral).to_value("")
 
@@ -691,7 +690,8 @@ class Absorption:
         _s = _epsilon * _epsilon1 / 2
         _n_synch = n_synch[..., np.newaxis]
 
-        return (2 * blob.R_b * np.trapz(_n_synch * sigma(_s), epsilon, axis=0)).to("")
+        integral = np.trapz(_n_synch * sigma(_s), epsilon, axis=0).reshape(epsilon1.shape)
+        return (2 * blob.R_b * integral).to("")
 
     def tau(self, nu):
         """optical depth
diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index 19bc9a5..bb4d6f6 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -389,7 +389,7 @@ class SSDisk:
         _T = SSDisk.evaluate_T(_R, M_BH, m_dot, R_in)
         _I_nu = BlackBody().evaluate(_nu, _T, scale=1)
         integrand = _R / np.power(d_L, 2) * _I_nu * u.sr
-        F_nu = 2 * np.pi * np.trapz(integrand, R, axis=0)
+        F_nu = 2 * np.pi * np.trapz(integrand, R, axis=0).reshape(nu.shape)
         return mu_s * (nu * F_nu).to("erg cm-2 s-1")
 
     @staticmethod
@@ -539,7 +539,7 @@ class SphericalShellBLR:
                 1 - blob.Beta * _mu_star, 2
             )
             integrand *= integrand_prefactor
-        integral = np.trapz(integrand, mu, axis=0)
+        integral = np.trapz(integrand, mu, axis=0).reshape(r.shape)
         return (prefactor * integral).to("erg cm-3")
 
 
-- 
2.43.0


From 2d55b38a9cdbef037d253519a8d8953013db8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 15/42] fix: time evolution failed with an integer
 initial_gamma_array, whose narrow bins were truncated to null width

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 533053d..b6761ed 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -152,7 +152,7 @@ class TimeEvolution:
         if initial_gamma_array is not None and any(initial_gamma_array[1:] <= initial_gamma_array[:-1]):
             raise ValueError("initial_gamma_array must be strictly increasing")
         if initial_gamma_array is not None:
-           self._initial_gamma_array = initial_gamma_array
+           self._initial_gamma_array = np.array(initial_gamma_array, dtype=float)
         else:
             gamma_min = np.max([self._blob.n_e.gamma_min, gamma_bounds[0] if gamma_bounds is not None else 0])
             gamma_max = np.min([self._blob.n_e.gamma_max, gamma_bounds[-1] if gamma_bounds is not None else np.inf])
-- 
2.43.0


From 296c535e116bb00ce883473dfea3e5ec3eb09dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 16/42] fix: automatic time step was not limited by
 max_density_change_per_interval in case of relative injection

---
 agnpy/time_evolution/time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index b6761ed..d6d4ad7 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -312,6 +312,8 @@ class TimeEvolution:
             # rel_injection_rates * time > -0.5
             time_3 = np.repeat(np.inf, len(density)) * u.Unit("s")
             time_3[rel_injection_rates < 0] = -0.5 / rel_injection_rates[rel_injection_rates < 0]
+            # relative injection must not increase the density more than the threshold
+            time_3[rel_injection_rates > 0] = thr / rel_injection_rates[rel_injection_rates > 0]
 
             # 4. abs particle injection must be below the threshold
             # abs_injection_rates * time < max_abs_injection_per_interval
-- 
2.43.0


From abc31163f2bc5364c787453e7b790f8bf75981cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 17/42] fix: a function repeated in a list of energy change or
 injection functions was silently applied only once

---
 agnpy/time_evolution/time_evolution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index d6d4ad7..f36958a 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -138,6 +138,11 @@ class TimeEvolution:
             else {str(v): v for v in abs_injection_functions} if isinstance(abs_injection_functions, Iterable) \
             else {str(abs_injection_functions): abs_injection_functions} if abs_injection_functions is not None \
             else {}
+        for functions, functions_dict in [(energy_change_functions, self._energy_change_functions),
+                                          (rel_injection_functions, self._rel_injection_functions),
+                                          (abs_injection_functions, self._abs_injection_functions)]:
+            if isinstance(functions, Iterable) and len(functions_dict) != len(list(functions)):
+                raise ValueError("The same function is repeated in the list of energy change or injection functions")
         duplicated_keys = (set(self._energy_change_functions) & set(self._rel_injection_functions) |
                            set(self._energy_change_functions) & set(self._abs_injection_functions) |
                            set(self._rel_injection_functions) & set(self._abs_injection_functions))
-- 
2.43.0


From ddd7219769d760617892b8faf8fb5f12c813a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 18/42] fix: densities passed to the energy change functions
 did not correspond to the gamma array

---
 agnpy/time_evolution/_time_evolution_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 79d3a3f..fe08da9 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -43,6 +43,10 @@ def recalc_new_rates(gm_bins:NDArray, functions:dict[str,GammaFn], dens:Quantity
     gm_bins_interlaced = gm_bins_masked.reshape(-1, order="F") # order F gives more natural, increasing order (makes debugging easier)
     dens_masked = dens[mask]
     dens_groups_masked = remap_subgroups_density(mask_to_mapping(mask), subgroups_density)
+    if gm_bins.ndim > 1:
+        # densities have to correspond to the interlaced lower and upper bounds
+        dens_masked = np.repeat(dens_masked, len(gm_bins))
+        dens_groups_masked = np.repeat(dens_groups_masked, len(gm_bins), axis=-1)
     params = FnParams(gm_bins_interlaced, dens_masked, dens_groups_masked)
     new_rates = {}
     for label, fn in functions.items():
-- 
2.43.0


From bd74a54890f631b246fd1cca4f5e248594bc3741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 19/42] fix: SSA integrand of the interpolated distribution was
 NaN outside its bounds with interpolators not extrapolating

---
 agnpy/spectra/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 2fa0571..f96faf9 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -828,7 +828,8 @@ class InterpolatedDistribution(ParticleDistribution):
         and :math:`\frac{{\rm d}f}{{\rm d}u}`, the derivative of the interpolated function,
         is directly available from the interpolation algorythm.
         """
-        log10_gamma = np.log10(gamma)
+        # the density is null outside the bounds, where not all interpolators extrapolate
+        log10_gamma = np.log10(np.clip(gamma, gamma_min, gamma_max))
         df_du = self.log10_interp.derivative()
         n = self.evaluate(gamma, norm, gamma_min, gamma_max)
         return n * df_du(log10_gamma) / gamma - 2 * n / gamma
-- 
2.43.0


From 861bf58b0dffe129732102e63b31b9ce17f4fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 20/42] fix: SSA opacity was integrated with a rectangle rule,
 instead of in log-log space, with trapz_loglog

---
 agnpy/synchrotron/synchrotron.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/synchrotron/synchrotron.py b/agnpy/synchrotron/synchrotron.py
index e074230..d93204d 100644
--- a/agnpy/synchrotron/synchrotron.py
+++ b/agnpy/synchrotron/synchrotron.py
@@ -120,10 +120,11 @@ class Synchrotron(RadiativeProcess):
         # multidimensional integration
         _gamma, _epsilon = axes_reshaper(gamma, epsilon)
         SSA_integrand = n_e.evaluate_SSA_integrand(_gamma, *args)
-        integrand = SSA_integrand * single_particle_synch_power(B_cgs, _epsilon, _gamma)
+        # change the sign, as the integrators in log-log space need positive values
+        integrand = -SSA_integrand * single_particle_synch_power(B_cgs, _epsilon, _gamma)
         integral = integrator(integrand, gamma, axis=0).reshape(epsilon.shape)
         prefactor_k_epsilon = (
-            -1 / (8 * np.pi * m_e * np.power(epsilon, 2)) * np.power(lambda_c_e / c, 3)
+            1 / (8 * np.pi * m_e * np.power(epsilon, 2)) * np.power(lambda_c_e / c, 3)
         )
         k_epsilon = (prefactor_k_epsilon * integral).to("cm-1")
         return (2 * k_epsilon * R_b).to_value("")
-- 
2.43.0


From 12f6a0d57525dc2744ad1a879eb49e847466b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:24 +0000
Subject: [PATCH 21/42] fix: SSC energy loss rate failed with scalar or
 multi-dimensional Lorentz factors

---
 agnpy/compton/synchrotron_self_compton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/compton/synchrotron_self_compton.py b/agnpy/compton/synchrotron_self_compton.py
index 017e4d2..3b2e75b 100644
--- a/agnpy/compton/synchrotron_self_compton.py
+++ b/agnpy/compton/synchrotron_self_compton.py
@@ -58,6 +58,7 @@ class SynchrotronSelfCompton(RadiativeProcess):
         u_epsilon = self.blob.u_ph_synch_diff(epsilon, sed_flux_synch)
 
         # reshape for multidimensional integration
+        gamma = np.asarray(gamma)
         _gamma, _epsilon = axes_reshaper(gamma, epsilon)
 
         # formulas from paragraph 2.1, [Moderski2005]
@@ -65,7 +66,7 @@ class SynchrotronSelfCompton(RadiativeProcess):
         # convert b value to the K-N correction parameter:
         f_KN = np.where(b < 1e4, 1 / (1 + b) ** 1.5, (9 / (2 * b**2)) * (log(b) - 11/6))
         # fold K-N correction parameters with the corresponding photon energy densities:
-        F_KN = np.trapz(f_KN * u_epsilon, epsilon)
+        F_KN = np.trapz(f_KN * u_epsilon, epsilon).reshape(gamma.shape)
         # F_KN is basically total energy density corrected to KN regime for each gamma value
         energyLossRate = (4 / 3) * sigma_T * c * F_KN * gamma ** 2
         return energyLossRate.to("erg/s")
-- 
2.43.0


From f09b0a2ca6784571ae8dd91fc3b3dce519920547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:34 +0000
Subject: [PATCH 22/42] fix: pair-production cross section was imprecise for
 large s, and null above 1e16

---
 agnpy/absorption/targets_absorption.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index c55d859..84e5a53 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -34,8 +34,9 @@ agnpy_dir = Path(__file__).parent.parent
 def sigma(s):
     """photon-photon pair production cross section, Eq. 17 of [Dermer2009]"""
     beta_cm = np.sqrt(1 - 1 / s)
-    prefactor = 3 / 16 * sigma_T * (1 - np.power(beta_cm, 2))
-    term1 = (3 - np.power(beta_cm, 4)) * log((1 + beta_cm) / (1 - beta_cm))
+    # 1 - beta_cm^2 = 1 / s, written such as not to lose precision for large s
+    prefactor = 3 / 16 * sigma_T / s
+    term1 = (3 - np.power(beta_cm, 4)) * log(np.power(1 + beta_cm, 2) * s)
     term2 = -2 * beta_cm * (2 - np.power(beta_cm, 2))
     values = prefactor * (term1 + term2)
     return np.where(s < 1, 0, values)
-- 
2.43.0


From 79f9e2ab2a8c14564af2062660b419e92f1ebdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 23/42] fix: opacities of targets were NaN for viewing angles
 close to null, from cosines exceeding 1 by rounding

---
 agnpy/utils/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/agnpy/utils/geometry.py b/agnpy/utils/geometry.py
index fa326e1..ab6d0e9 100644
--- a/agnpy/utils/geometry.py
+++ b/agnpy/utils/geometry.py
@@ -7,7 +7,10 @@ def cos_psi(mu_s, mu, phi):
     zenith and azimuth (mu, phi). The system is symmetric in azimuth for the
     electron phi_s = 0, Eq. 8 in [Finke2016]_."""
     term_1 = mu * mu_s
-    term_2 = np.sqrt(1 - np.power(mu, 2)) * np.sqrt(1 - np.power(mu_s, 2))
+    # a cosine may exceed 1 by the floating-point precision
+    term_2 = np.sqrt(np.clip(1 - np.power(mu, 2), 0, None)) * np.sqrt(
+        np.clip(1 - np.power(mu_s, 2), 0, None)
+    )
     term_3 = np.cos(phi)
     return term_1 + term_2 * term_3
 
@@ -43,7 +46,8 @@ def mu_star_shell(mu, R_re, r):
         height (in cm) of the emission region in the jet
     """
     addend = np.power(R_re / x_re_shell(mu, R_re, r), 2) * (1 - np.power(mu, 2))
-    mu_star = np.sqrt(1 - addend)
+    # the addend may exceed 1 by the floating-point precision
+    mu_star = np.sqrt(np.clip(1 - addend, 0, None))
     # if r < mu * R_re you need to multiply by -1 because the blob is before the shell element
     mu_sign = ((r > mu * R_re) - 0.5) * 2
     mu_star *= mu_sign
-- 
2.43.0


From 144997e981d5104e42bf49dcbfa6d624bf1fc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:18 +0000
Subject: [PATCH 24/42] fix: the excluded surroundings of the BLR shell
 depended on the unit of the distance

---
 agnpy/absorption/targets_absorption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 84e5a53..1b40ab7 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -334,7 +334,7 @@ class Absorption:
 
         # check if any point is too close to R_line, the function works only for mu=1, so
         # we can check directly if R_line is within 'l' array
-        idx = np.isclose(l, R_line, rtol=min_rel_distance)
+        idx = np.isclose(l, R_line, rtol=min_rel_distance, atol=0 * u.cm)
         l[idx] += min_rel_distance * R_line
 
         _mu, _phi, _l, _epsilon_1 = axes_reshaper(mu, phi, l, epsilon_1)
@@ -406,7 +406,7 @@ class Absorption:
 
         # check if for any uu value the position of the photon is too close to the BLR
         x_cross = np.sqrt(r**2 + uu**2 + 2 * uu * r * mu_s)
-        idx = np.isclose(x_cross, R_line, rtol=min_rel_distance)
+        idx = np.isclose(x_cross, R_line, rtol=min_rel_distance, atol=0 * u.cm)
         if idx.any():
             uu[idx] += min_rel_distance * R_line
             # it might happen that some of the points get more shifted then the next one,
-- 
2.43.0


From c4ca07eed9a1b31c6c7affdc6f5d2d7201c86545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:27 +0000
Subject: [PATCH 25/42] fix: external Compton SED on the disk could be
 negative, from its emissivity at the inner radius being negative by rounding

---
 agnpy/targets/targets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index bb4d6f6..712c4c7 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -302,7 +302,8 @@ class SSDisk:
         the disk `r_tilde` (in graviational radius units),
         Eq. 63 [Dermer2009]_"""
         R_tilde = r_tilde * np.sqrt(np.power(mu, -2) - 1)
-        return 1 - np.sqrt(R_in_tilde / R_tilde)
+        # null, and not negative by rounding, at the inner radius
+        return np.clip(1 - np.sqrt(R_in_tilde / R_tilde), 0, None)
 
     @staticmethod
     def evaluate_epsilon(L_disk, M_BH, eta, R_tilde):
-- 
2.43.0


From 31b7f040f83621cbcb683d265a1225063fabb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:09 +0000
Subject: [PATCH 26/42] fix: size of the integration path set by the user was
 ignored by the off-axis opacity of the point source

---
 agnpy/absorption/targets_absorption.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 1b40ab7..0aafcb8 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -176,7 +176,13 @@ class Absorption:
         """Evaluates the absorption produced by the photon field of a point
         source of photons behind the blob"""
         return self.evaluate_tau_ps_behind_blob_mu_s(
-            nu, self.z, self.mu_s, self.target.epsilon_0, self.target.L_0, self.r
+            nu,
+            self.z,
+            self.mu_s,
+            self.target.epsilon_0,
+            self.target.L_0,
+            self.r,
+            u_size=2 * self.l_size,
         )
 
     @staticmethod
-- 
2.43.0


From 3944757a1a27ae2538c5e4421f8b066db205f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 27/42] fix: distance to the shell was imprecise, or NaN, close
 to the shell element

---
 agnpy/utils/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/geometry.py b/agnpy/utils/geometry.py
index ab6d0e9..0cc4cf1 100644
--- a/agnpy/utils/geometry.py
+++ b/agnpy/utils/geometry.py
@@ -28,7 +28,8 @@ def x_re_shell(mu, R_re, r):
     r : :class:`~astropy.units.Quantity`
         height of the emission region in the jet
     """
-    return np.sqrt(np.power(R_re, 2) + np.power(r, 2) - 2 * r * R_re * mu)
+    # sum of positive terms, not to be negative by rounding close to the shell
+    return np.sqrt(np.power(R_re - r, 2) + 2 * r * R_re * (1 - mu))
 
 
 def mu_star_shell(mu, R_re, r):
-- 
2.43.0


From d033c4566713740972b004a3e39dcf85932c403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:15 +0000
Subject: [PATCH 28/42] fix: power_law_integral failed with integer arguments

---
 agnpy/utils/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/math.py b/agnpy/utils/math.py
index ec7553b..aa78e82 100644
--- a/agnpy/utils/math.py
+++ b/agnpy/utils/math.py
@@ -125,5 +125,7 @@ def power_law_integral(k_e, p, gamma_min, gamma_max):
     if np.isclose(p, 1.0):
         integral = np.log(gamma_max / gamma_min)
     else:
-        integral = (np.power(gamma_max, 1 - p) - np.power(gamma_min, 1 - p)) / (1 - p)
+        # float exponent, for integers cannot be raised to negative integer powers
+        index = 1.0 - p
+        integral = (np.power(gamma_max, index) - np.power(gamma_min, index)) / index
     return k_e * integral
-- 
2.43.0


From 4dbad58e60ee52397f5cedab8322fe49cc17bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:57 +0000
Subject: [PATCH 29/42] fix: external Compton kept the zenith angles of the
 disk when its target was replaced by another

---
 agnpy/compton/external_compton.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/agnpy/compton/external_compton.py b/agnpy/compton/external_compton.py
index 647b63c..934260a 100644
--- a/agnpy/compton/external_compton.py
+++ b/agnpy/compton/external_compton.py
@@ -46,15 +46,10 @@ class ExternalCompton(RadiativeProcess):
         self.set_phi()
 
     def set_mu(self, mu_size=100):
+        # in case of the disk the interval does not go from -1 to 1, but depends on
+        # the target and the distance, and is computed when evaluating the SED
         self.mu_size = mu_size
-        if isinstance(self.target, SSDisk):
-            # in case of hte disk the mu interval does not go from -1 to 1
-            r_tilde = (self.r / self.target.R_g).to_value("")
-            self.mu = self.target.evaluate_mu_from_r_tilde(
-                self.target.R_in_tilde, self.target.R_out_tilde, r_tilde
-            )
-        else:
-            self.mu = np.linspace(-1, 1, self.mu_size)
+        self.mu = np.linspace(-1, 1, self.mu_size)
 
     def set_phi(self, phi_size=50):
         self.phi_size = phi_size
-- 
2.43.0


From 1cab8e8cef60fe8c121cef4f1bd396115174a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 30/42] fix: the default k of the distributions and B of the
 blob, if changed in place, changed for all the others

---
 agnpy/emission_regions/blob.py |  4 +++-
 agnpy/spectra/spectra.py       | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 1746988..d507431 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -2,6 +2,7 @@
 acceleration of particles to relativistic energies. Beside physical quantities
 related to the emission itself it contains the electrons energy distributions"""
 import numbers
+from copy import copy
 from typing import Iterable
 
 import numpy as np
@@ -81,7 +82,8 @@ class Blob:
         self.z = z
         self.delta_D = delta_D
         self.Gamma = Gamma
-        self.B = B
+        # not the object shared by the defaults, that could be changed in place
+        self.B = copy(B)
         # the default has to be created anew, not to be shared between blobs
         self._n_e : ParticleDistribution = PowerLaw(mass=m_e) if n_e is None else n_e
         self._n_p : ParticleDistribution = n_p
diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index f96faf9..774f03b 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -1,5 +1,6 @@
 # module containing the particle spectra
 from abc import abstractmethod, ABC
+from copy import copy
 
 import numpy as np
 import astropy.units as u
@@ -259,7 +260,8 @@ class PowerLaw(ParticleDistribution):
         integrator=np.trapz,
     ):
         super().__init__(gamma_min, gamma_max, mass, integrator, "PowerLaw")
-        self.k = k
+        # not the object shared by the defaults, that could be changed in place
+        self.k = copy(k)
         self.p = p
 
     @property
@@ -345,7 +347,7 @@ class BrokenPowerLaw(ParticleDistribution):
         integrator=np.trapz,
     ):
         super().__init__(gamma_min, gamma_max, mass, integrator, "BrokenPowerLaw")
-        self.k = k
+        self.k = copy(k)
         self.p1 = p1
         self.p2 = p2
         self.gamma_b = gamma_b
@@ -457,7 +459,7 @@ class LogParabola(ParticleDistribution):
         integrator=np.trapz,
     ):
         super().__init__(gamma_min, gamma_max, mass, integrator, "LogParabola")
-        self.k = k
+        self.k = copy(k)
         self.p = p
         self.q = q
         self.gamma_0 = gamma_0
@@ -557,7 +559,7 @@ class ExpCutoffPowerLaw(ParticleDistribution):
         integrator=np.trapz,
     ):
         super().__init__(gamma_min, gamma_max, mass, integrator, "ExpCutoffPowerLaw")
-        self.k = k
+        self.k = copy(k)
         self.p = p
         self.gamma_c = gamma_c
 
@@ -651,7 +653,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
         integrator=np.trapz,
     ):
         super().__init__(gamma_min, gamma_max, mass, integrator, "ExpCutoffBrokenPowerLaw")
-        self.k = k
+        self.k = copy(k)
         self.p1 = p1
         self.p2 = p2
         self.gamma_c = gamma_c
-- 
2.43.0


From 8fcfbf3be339ce0c7057b004277febd3cfb65b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:45 +0000
Subject: [PATCH 31/42] fix: initial densities of more or fewer subgroups than
 defined were accepted, and the extra subgroups ignored

---
 agnpy/time_evolution/time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index f36958a..8f9d42c 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -193,6 +193,8 @@ class TimeEvolution:
             raise ValueError("subgroups_initial_density provided without initial_gamma_array")
         if subgroups_initial_density is not None and initial_gamma_array is not None and subgroups_initial_density.shape[1] != len(initial_gamma_array):
             raise ValueError("Incorrect shape for subgroups_initial_density")
+        if subgroups_initial_density is not None and subgroups_initial_density.shape[0] != len(subgroups):
+            raise ValueError("Incorrect shape for subgroups_initial_density")
         self._distribution_change_callback = distribution_change_callback
 
     def _calculate_initial_values(self):
-- 
2.43.0


From 351ef19f355865bf3f9e8e06f9455ec5acd37af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:45 +0000
Subject: [PATCH 32/42] fix: time evolution with the Heun method failed with
 the default options

---
 agnpy/time_evolution/time_evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 8f9d42c..8ead04c 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -170,7 +170,8 @@ class TimeEvolution:
         if optimize_recalculating_slow_rates and step_duration != 'auto':
             raise ValueError("optimize_recalculating_slow_rates is only supported with automatic step duration")
         if optimize_recalculating_slow_rates is None:
-            optimize_recalculating_slow_rates = step_duration == 'auto'
+            # not supported by the Heun method
+            optimize_recalculating_slow_rates = step_duration == 'auto' and method.lower() != 'heun'
         self._optimize_recalculating_slow_rates = optimize_recalculating_slow_rates
         valid_methods = {"heun", "euler"}
         if method.lower() not in valid_methods:
-- 
2.43.0


From c8d8885c31c41236928de723f4d24b9453c016a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:56 +0000
Subject: [PATCH 33/42] fix: functions given as a generator were refused as
 repeated

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 8ead04c..f8cfac9 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -141,7 +141,7 @@ class TimeEvolution:
         for functions, functions_dict in [(energy_change_functions, self._energy_change_functions),
                                           (rel_injection_functions, self._rel_injection_functions),
                                           (abs_injection_functions, self._abs_injection_functions)]:
-            if isinstance(functions, Iterable) and len(functions_dict) != len(list(functions)):
+            if isinstance(functions, (list, tuple)) and len(functions_dict) != len(list(functions)):
                 raise ValueError("The same function is repeated in the list of energy change or injection functions")
         duplicated_keys = (set(self._energy_change_functions) & set(self._rel_injection_functions) |
                            set(self._energy_change_functions) & set(self._abs_injection_functions) |
-- 
2.43.0


From cfaf5866969d551b5ac131f3b00ba93d9f0d4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 34/42] fix: the total time of the results handed to the time
 evolution callback changed at the following steps

---
 agnpy/time_evolution/time_evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index f8cfac9..9c1d142 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -275,7 +275,8 @@ class TimeEvolution:
                                                    remap(mapping, abs_injection_rates, np.nan), recalc_mask)
             rel_injection_rates = recalc_new_rates(gm_bins[0], self._rel_injection_functions, density, subgroups_density,
                                                    remap(mapping, rel_injection_rates, np.nan), recalc_mask)
-            total_time_elapsed += step_time
+            # not in place, the elapsed time is handed to the callback
+            total_time_elapsed = total_time_elapsed + step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
                     gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
-- 
2.43.0


From 849650f6e631b48f7cf3d15698ce3bb69fa83bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 35/42] fix: gammapy models failed on scalar and
 multi-dimensional energies, hence on arrays of integral fluxes

---
 agnpy/fit/gammapy_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/fit/gammapy_wrapper.py b/agnpy/fit/gammapy_wrapper.py
index 105e20d..6e0ebec 100644
--- a/agnpy/fit/gammapy_wrapper.py
+++ b/agnpy/fit/gammapy_wrapper.py
@@ -163,7 +163,7 @@ class SynchrotronSelfComptonSpectralModel(SpectralModel):
         NOTE: All the model parameters will be passed as kwargs by
         SpectralModel.evaluate()."""
 
-        nu = energy.reshape([energy.shape[0]]).to("Hz", equivalencies=u.spectral())
+        nu = energy.reshape(-1).to("Hz", equivalencies=u.spectral())
 
         args = _sort_spectral_parameters(self._spectral_pars_names, self._n_e, **kwargs)
         z, d_L, delta_D, B, R_b = _sort_emission_region_parameters("ssc", **kwargs)
@@ -285,7 +285,7 @@ class ExternalComptonSpectralModel(SpectralModel):
         """Evaluate the SED model.
         NOTE: All the model parameters will be passed as kwargs by
         SpectralModel.evaluate()."""
-        nu = energy.reshape([energy.shape[0]]).to("Hz", equivalencies=u.spectral())
+        nu = energy.reshape(-1).to("Hz", equivalencies=u.spectral())
 
         args = _sort_spectral_parameters(self._spectral_pars_names, self._n_e, **kwargs)
         z, d_L, delta_D, B, R_b, mu_s, r = _sort_emission_region_parameters(
-- 
2.43.0


From 22fa1a9acad4c2efcfb8f4c7c57036116ae3dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 36/42] fix: the norm parameter of the gammapy models was
 ignored

---
 agnpy/fit/gammapy_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/fit/gammapy_wrapper.py b/agnpy/fit/gammapy_wrapper.py
index 6e0ebec..0b383e6 100644
--- a/agnpy/fit/gammapy_wrapper.py
+++ b/agnpy/fit/gammapy_wrapper.py
@@ -175,7 +175,7 @@ class SynchrotronSelfComptonSpectralModel(SpectralModel):
         sed_ssc = SynchrotronSelfCompton.evaluate_sed_flux(
             nu, z, d_L, delta_D, B, R_b, self._n_e, *args, ssa=self.ssa
         )
-        sed = sed_synch + sed_ssc
+        sed = kwargs["norm"] * (sed_synch + sed_ssc)
 
         # gammapy requires a differential flux in input
         return (sed.reshape(energy.shape) / energy**2).to("1 / (cm2 eV s)")
@@ -354,4 +354,6 @@ class ExternalComptonSpectralModel(SpectralModel):
             )
             sed += sed_bb_dt
 
+        sed *= kwargs["norm"]
+
         return (sed.reshape(energy.shape) / energy**2).to("1 / (cm2 eV s)")
-- 
2.43.0


From 7e8347a853f3a343990b486e0f2df4fa55be1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 37/42] fix: unsupported EC targets were silently ignored by
 the fit wrappers

---
 agnpy/fit/core.py           | 4 ++++
 agnpy/fit/sherpa_wrapper.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/agnpy/fit/core.py b/agnpy/fit/core.py
index 6306f2d..00bc8db 100644
--- a/agnpy/fit/core.py
+++ b/agnpy/fit/core.py
@@ -198,6 +198,10 @@ def make_targets_parameters_dict(targets, backend, modelname=None):
     parameters : dict of `~agnpy.fit.core.Parameter`
         dictionary of parameters of the emission region
     """
+    for target in [targets] if isinstance(targets, str) else targets:
+        if target not in ("blr", "dt"):
+            raise ValueError(f"{target} is not a supported target for EC")
+
     _pars_names = []
     _pars = []
 
diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index 5024d5b..1204380 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,10 +464,11 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        targets = set(self.targets)
+        targets = {self.targets} if isinstance(self.targets, str) else set(self.targets)
         if targets == {"blr"}:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
         if targets == {"dt"}:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
         if targets == {"blr", "dt"}:
             return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
+        raise ValueError("the EC model needs at least a target, blr or dt")
-- 
2.43.0


From 4220a0389f638636fc616d804fe7509cacae73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 38/42] fix: the cosine of the viewing angle never exceeds one
 by rounding

---
 agnpy/emission_regions/blob.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index d507431..79769a9 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -123,7 +123,9 @@ class Blob:
     @property
     def mu_s(self):
         """Cosine of the viewing angle from the jet axis to the observer."""
-        return (1 - 1 / (self.Gamma * self.delta_D)) / self.Beta
+        mu_s = (1 - 1 / (self.Gamma * self.delta_D)) / self.Beta
+        # a cosine may exceed 1 by the floating-point precision
+        return np.sign(mu_s) if 1 < abs(mu_s) < 1 + 1e-10 else mu_s
 
     @property
     def theta_s(self):
-- 
2.43.0


From 6b307457fafa20c7d5a7d5e5dde288402c865c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 39/42] fix: the energy density of the disk overflowed for
 large integer Lorentz factors

---
 agnpy/targets/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index 712c4c7..6920fe3 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -457,7 +457,7 @@ class SSDisk:
         if blob:
             mu_prime = (mu - blob.Beta) / (1 - blob.Beta * mu)
             integrand_prefactor = 1 / (
-                np.power(blob.Gamma, 6)
+                np.power(float(blob.Gamma), 6)
                 * np.power(1 - blob.Beta * mu, 2)
                 * np.power(1 + blob.Beta * mu_prime, 4)
             )
-- 
2.43.0


From ee9924309a2210e69faf644061b050a41dfca2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:13 +0000
Subject: [PATCH 40/42] fix: plots of distributions multiplied by a power of
 integer Lorentz factors overflowed

---
 agnpy/spectra/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 774f03b..7975d79 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -191,7 +191,7 @@ class ParticleDistribution(ABC):
 
         gamma = np.logspace(0, 8, 200) if gamma is None else gamma
 
-        ax.loglog(gamma, np.power(gamma, gamma_power) * self.__call__(gamma), **kwargs)
+        ax.loglog(gamma, np.power(gamma, float(gamma_power)) * self.__call__(gamma), **kwargs)
         ax.set_xlabel(r"$\gamma$")
 
         if gamma_power == 0:
-- 
2.43.0


From 3c9e3dca161a7a393f8e8cfbd9897b13f0f4648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 41/42] fix: a redshift that is refused left the region with
 the new redshift and the former distance

---
 agnpy/emission_regions/blob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 79769a9..9e1f357 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -100,8 +100,9 @@ class Blob:
     @z.setter
     def z(self, z):
         """Setter of the redshift, updates the luminosity distance."""
-        self._z = z
-        self.d_L = Distance(z=z, cosmology=self._cosmology).cgs
+        # a redshift that is refused leaves both of them as they were
+        d_L = Distance(z=z, cosmology=self._cosmology).cgs
+        self._z, self.d_L = z, d_L
 
     @property
     def V_b(self):
-- 
2.43.0


From 90d2f6295ab072ec12857457431c2911b0df8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:57 +0000
Subject: [PATCH 42/42] fix: a viewing angle that is refused left the region
 with the new Lorentz factor and the former Doppler factor

---
 agnpy/emission_regions/blob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 9e1f357..c3f7ad3 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -149,8 +149,9 @@ class Blob:
         theta_s : :class:`~astropy.units.Quantity`
             viewing angle of the jet
         """
-        self.Gamma = Gamma
+        # an angle that is refused leaves the region as it was
         mu_s = np.cos(theta_s.to("rad").value)
+        self.Gamma = Gamma
         self.delta_D = 1 / (self.Gamma * (1 - self.Beta * mu_s))
 
     @property
-- 
2.43.0

